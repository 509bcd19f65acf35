package vharness

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
)

func envInt(k string, def int) int {
	if v := os.Getenv(k); v != "" {
		n, err := strconv.Atoi(v)
		if err != nil {
			fatal("bad %s: %v", k, err)
		}
		return n
	}
	return def
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(3)
}

func TestMain(m *testing.M) {
	if os.Getenv("VH_LOG") == "" {
		log.SetOutput(io.Discard)
	}
	if os.Getenv("VH_MODE") == "" {
		fatal("VH_MODE not set")
	}
	os.Exit(m.Run())
}

type sink struct {
	w *bufio.Writer
	f *os.File
}

func openSink() *sink {
	f, err := os.Create(os.Getenv("VH_OUT"))
	if err != nil {
		fatal("%v", err)
	}
	return &sink{bufio.NewWriterSize(f, 1<<20), f}
}

func (s *sink) put(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		fatal("%v", err)
	}
	s.w.Write(b)
	s.w.WriteByte('\n')
	// a crash of the process must not lose what was recorded before
	s.w.Flush()
}

// exit ends the process at once: goroutines of the code under test may live
// forever.
func (s *sink) exit() {
	s.w.Flush()
	s.f.Close()
	syscall.Exit(0)
}

// mark tells the runner which scenario is being executed, so that a crash can
// be attributed.
func mark(what string) {
	if p := os.Getenv("VH_MARK"); p != "" {
		os.WriteFile(p, []byte(what), 0o644)
	}
}

func seedFor(base, i int, fam string) int64 {
	h := int64(1469598103934665603)
	for _, c := range fmt.Sprintf("%d/%d/%s", base, i, fam) {
		h = (h ^ int64(c)) * 1099511628211
	}
	return h
}

func TestHarness(t *testing.T) {
	fams := strings.Split(os.Getenv("VH_FAMS"), ",")
	from, to := envInt("VH_FROM", 0), envInt("VH_TO", 10)
	seed := envInt("VH_SEED", 1)
	out := openSink()
	switch os.Getenv("VH_MODE") {
	case "spop":
		virtual := fams[0] == "idle"
		run := func(id, fam string, sc *SScn) {
			if one := os.Getenv("VH_ONE"); one != "" && one != id {
				return
			}
			mark(id)
			log := &Log{}
			emit := func(evs []Ev) { out.put(Ev{"id": id, "fam": fam, "ev": evs}) }
			if virtual {
				current.mu.Lock()
				current.log, current.emit = log, emit
				current.gen++
				current.mu.Unlock()
			}
			evs := runSpop(sc, log)
			if virtual {
				current.mu.Lock()
				current.log = nil
				current.mu.Unlock()
			}
			emit(evs)
			if spun(evs) {
				out.exit()
			}
		}
		var scripts [][][]any
		if p := os.Getenv("VH_SCRIPTS"); p != "" {
			scripts = readScripts(p)
		}
		only := os.Getenv("VH_ONLY")
		loop := func() {
			for i := from; i < to; i++ {
				fam := fams[i%len(fams)]
				id := fmt.Sprintf("spop:%s:%d:%d", fam, seed, i)
				if only != "" && only != id {
					continue
				}
				g := newGen(seedFor(seed, i, fam))
				if fam == "tcp" {
					mark(id)
					log := &Log{}
					runSpopTCP(g, log)
					out.put(Ev{"id": id, "fam": fam, "ev": log.copy()})
					continue
				}
				if long[fam] != nil {
					mark(id)
					log := &Log{}
					long[fam](&pgen{cgen: &cgen{Rand: g.Rand}}, true, i, log)
					out.put(Ev{"id": id, "fam": fam, "ev": log.copy()})
					continue
				}
				if fam == "script" {
					if len(scripts) > 0 {
						run(id, fam, scriptScn(g, scripts[i/len(fams)%len(scripts)]))
					}
					continue
				}
				mk := spopFamilies[fam]
				if mk == nil {
					fatal("unknown family %q", fam)
				}
				sc := mk(g)
				sameIds(g, sc)
				if !virtual && g.chance(0.06) {
					sc.Side = 1 + g.Intn(12)
				}
				if os.Getenv("VH_TWINS") != "" {
					for _, t := range twinsOf(fam, sc) {
						run(id+t.name, fam, t.sc)
					}
				}
				run(id, fam, sc)
			}
		}
		if virtual {
			// the workers of the agents never end, and so neither does the bubble
			go watchdog(20*time.Second, out.exit)
			synctest.Test(t, func(*testing.T) {
				loop()
				out.exit()
			})
		}
		loop()
	case "codec":
		var scripts [][][]any
		if p := os.Getenv("VH_SCRIPTS"); p != "" {
			scripts = readScripts(p)
		}
		noise(int64(seed))
		for i := from; i < to; i++ {
			fam := fams[i%len(fams)]
			id := fmt.Sprintf("codec:%s:%d:%d", fam, seed, i)
			if only := os.Getenv("VH_ONLY"); only != "" && only != id {
				continue
			}
			mark(id)
			if ev := runCodec(fam, seedFor(seed, i, fam), seed, i/len(fams), scripts); len(ev) > 0 {
				out.put(Ev{"id": id, "fam": fam, "ev": ev})
			}
		}
	case "peers":
		go watchdog(20*time.Second, out.exit)
		var scripts [][][]any
		if p := os.Getenv("VH_SCRIPTS"); p != "" {
			scripts = readScripts(p)
		}
		only := os.Getenv("VH_ONLY")
		for i := from; i < to; i++ {
			fam := fams[i%len(fams)]
			id := fmt.Sprintf("peers:%s:%d:%d", fam, seed, i)
			if only != "" && only != id {
				continue
			}
			run := func(id string, k int) {
				mark(id)
				g := &pgen{cgen: &cgen{Rand: rand.New(rand.NewSource(seedFor(seed, i, fam)))}, vt: fam != "gate"}
				if fam == "tcp" {
					log := &Log{}
					runPeersTCP(g, log)
					out.put(Ev{"id": id, "fam": fam, "ev": log.copy()})
					return
				}
				if long[fam] != nil {
					log := &Log{}
					long[fam](g, false, i, log)
					out.put(Ev{"id": id, "fam": fam, "ev": log.copy()})
					return
				}
				var sc *PScn
				if fam == "script" {
					if len(scripts) == 0 {
						return
					}
					sc = peersScript(g, scripts[i/len(fams)%len(scripts)])
				} else {
					mk := peersFamilies[fam]
					if mk == nil {
						fatal("unknown family %q", fam)
					}
					sc = mk(g)
				}
				sc.Fam = fam
				holdParts(g, sc)
				if k > 0 {
					tw := peersTwins(fam, sc)
					if k > len(tw) {
						return
					}
					id += tw[k-1].name
					sc = tw[k-1].sc
				}
				if one := os.Getenv("VH_ONE"); one != "" && one != id {
					return
				}
				if runPeers(t, sc, g.gates, func(evs []Ev) { out.put(Ev{"id": id, "fam": fam, "ev": evs}) }) {
					out.exit()
				}
			}
			if os.Getenv("VH_TWINS") != "" {
				for k := 1; k < 10; k++ {
					run(id, k)
				}
			}
			run(id, 0)
		}
	default:
		fatal("unknown mode")
	}
	out.exit()
}

// spun reports whether the code under test did not come to rest. It may still
// be running, nothing after that can be trusted.
func spun(evs []Ev) bool {
	for _, e := range evs {
		if e["e"] == "q" && e["ok"] == false {
			return true
		}
	}
	return false
}
