package vharness

import (
	"bufio"
	"encoding/json"
	"os"
)

// Behaviours of the environment found by TLC in Spop.tla, replayed against
// the real agent. An entry is ["send", conn, kind], ["finish", uid, how],
// ["gate"|"permit"|"ungate"|"eof"|"werr", conn, ""] or ["cancel", 0, ""].

type scriptLine struct {
	Hist [][]any `json:"hist"`
}

func readScripts(path string) [][][]any {
	f, err := os.Open(path)
	if err != nil {
		fatal("%v", err)
	}
	defer f.Close()
	var out [][][]any
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		var h [][]any
		if err := json.Unmarshal(sc.Bytes(), &h); err != nil {
			fatal("script: %v", err)
		}
		out = append(out, h)
	}
	return out
}

const modelLim = 16380

func scriptScn(g *Gen, hist [][]any) *SScn {
	sc := &SScn{Fam: "script"}
	how := map[int]string{}
	conns := 0
	for _, h := range hist {
		k, n := h[0].(string), int(h[1].(float64))
		if k == "finish" {
			how[n] = h[2].(string)
		} else if n > conns {
			conns = n
		}
	}
	for c := 1; c <= conns; c++ {
		sc.Steps = append(sc.Steps, SStep{Op: "open", C: c})
	}
	ctr := 0
	msg := func(u int) *Script {
		g.uid = u - 1
		m := g.message(msgOpt{maxArgs: 3, maxCalls: 2})
		m.Block = true
		m.Keep = true
		switch how[u] {
		case "panic":
			m.Panic = true
		case "big":
			m.Calls = append(m.Calls, Call{M: "SetBinary", Act: Action{Scope: 1, V: KV{Name: []byte("v"), Type: tBinary, S: make([]byte, modelLim)}}})
		}
		return m
	}
	for _, h := range hist {
		op, n, k := h[0].(string), int(h[1].(float64)), h[2].(string)
		st := SStep{Op: op, C: n}
		switch op {
		case "finish":
			st = SStep{Op: "release", U: n}
		case "permit":
			st.N = 1
		case "werr":
			st.N = g.Intn(8)
		case "send":
			ctr++
			u := 2*ctr - 1
			var f InFrame
			sid, fid := g.ids()
			switch k {
			case "hello":
				f = hello(tUint32, modelLim, 0)
			case "small":
				f = hello(tUint32, 255, 0)
			case "health":
				f = hello(tUint32, modelLim, 1)
			case "hello2":
				f = hello(tUint32, modelLim-1, 0)
				f.Ev["k"] = "hello2"
			case "disc":
				f = disconnect(0, "bye")
			case "fatal":
				f = InFrame{B: []byte{0, 0, 0, 3, 1, 2, 3}, Ev: Ev{"k": "fatal", "len": 3}}
			case "unknown":
				f = g.unknownFrame()
			case "n0":
				f = notifyWith(sid, fid, nil, nil, false)
			case "n1":
				f = notifyWith(sid, fid, mk(msg(u)), nil, false)
			case "n2":
				f = notifyWith(sid, fid, mk(msg(u), msg(u+1)), nil, false)
			case "bad":
				f = notifyWith(sid, fid, mk(msg(u)), g.badTail(), true)
			case "edge", "long":
				m := msg(u)
				m.Args = nil
				want := modelLim
				if k == "long" {
					want++
				}
				m.Args = append(m.Args, KV{Name: []byte("big"), Type: tBinary})
				fit(&m.Args[0].S, want, func() int { return len(notifyWith(sid, fid, mk(m), nil, false).B) - 4 })
				f = notifyWith(sid, fid, mk(m), nil, false)
			default:
				fatal("script: unknown kind %q", k)
			}
			st.Fs = []InFrame{f}
			if g.chance(0.3) {
				st.Cuts = g.cuts(len(f.B))
			}
		}
		st.NoQuiet = g.chance(0.4)
		sc.Steps = append(sc.Steps, st)
	}
	sc.Scripts = g.scs
	return sc
}

// ---- the same traffic in other surroundings ----

// whole is sc with every frame in a segment of its own.
func whole(sc *SScn) *SScn {
	out := *sc
	out.Steps = nil
	for _, st := range sc.Steps {
		if st.Op != "send" {
			out.Steps = append(out.Steps, st)
			continue
		}
		for _, f := range st.Fs {
			out.Steps = append(out.Steps, SStep{Op: "send", C: st.C, Fs: []InFrame{f}})
		}
	}
	return &out
}

// solo is what happens on connection c of sc.
func solo(sc *SScn, c int) *SScn {
	out := *sc
	out.Steps = nil
	for _, st := range sc.Steps {
		switch st.Op {
		case "open", "send", "eof", "reset", "rerr", "werr", "gate", "ungate", "permit":
			if st.C != c {
				continue
			}
			st.C = 1
			fs := st.Fs
			st.Fs = nil
			for _, f := range fs {
				if f.Ev != nil {
					ev := Ev{}
					for k, v := range f.Ev {
						ev[k] = v
					}
					f.Ev = ev
				}
				st.Fs = append(st.Fs, f)
			}
		}
		out.Steps = append(out.Steps, st)
	}
	return &out
}

type twin struct {
	name string
	sc   *SScn
}

func twinsOf(fam string, sc *SScn) []twin {
	var out []twin
	switch fam {
	case "seg":
		out = append(out, twin{"/whole", whole(sc)})
	case "iso":
		n := 0
		for _, st := range sc.Steps {
			n = max(n, st.C)
		}
		for c := 1; c <= n; c++ {
			out = append(out, twin{"/solo" + num(uint64(c)), solo(sc, c)})
		}
	}
	return out
}

// famIso: connections that differ in everything that is negotiated, used in
// turns.
func famIso(g *Gen) *SScn {
	sc := &SScn{Fam: "iso"}
	n := 2 + g.Intn(2)
	lims := make([]int, n+1)
	hellos := make([]InFrame, n+1)
	opened := make([]bool, n+1)
	for c := 1; c <= n; c++ {
		lims[c] = []int{256, 300, 1000, 16380, 65535, 70000, 131072}[g.Intn(7)]
		hellos[c] = hello([]int{tUint32, tInt32, tInt64, tUint64}[g.Intn(4)], uint64(lims[c]), []int{0, 0, 2}[g.Intn(3)],
			KV{Name: []byte("engine-id"), Type: tString, S: g.byteStr(30)})
		if g.chance(0.12) {
			lims[c] = 0
			hellos[c] = hello(tUint32, uint64(g.Intn(256)), 0)
		} else if g.chance(0.08) {
			hellos[c] = hello(tUint32, uint64(lims[c]), 1)
		}
	}
	for i := 10 + g.Intn(20); i > 0; i-- {
		c := 1 + g.Intn(n)
		if !opened[c] {
			opened[c] = true
			sc.Steps = append(sc.Steps, SStep{Op: "open", C: c}, g.sendStep(c, hellos[c]))
			continue
		}
		switch g.Intn(10) {
		case 0:
			sc.Steps = append(sc.Steps, SStep{Op: "releaseall"})
		case 1:
			if g.chance(0.3) {
				sc.Steps = append(sc.Steps, g.sendStep(c, disconnect(0, "bye")))
			}
		case 2:
			if g.chance(0.3) {
				sc.Steps = append(sc.Steps, SStep{Op: "eof", C: c})
			}
		case 3:
			if g.chance(0.3) {
				f := g.fatalFrame()
				for f.B[2] == 0x3f { // may be within the limit
					f = g.fatalFrame()
				}
				sc.Steps = append(sc.Steps, g.sendStep(c, f))
			}
		default:
			m := g.message(msgOpt{maxArgs: 2, maxCalls: 2, block: 0.15, panics: 0.05})
			lim := lims[c]
			other := lims[1+g.Intn(n)]
			sid, fid := g.ids()
			if g.chance(0.5) && lim > 0 {
				// sizes that matter to this or to another connection
				want := []int{lim, lim - 1, other, other + 1}[g.Intn(4)]
				if want > lim || want == 0 {
					want = lim
				}
				m.Args = append(m.Args, KV{Name: []byte("big"), Type: tBinary})
				p := &m.Args[len(m.Args)-1].S
				fit(p, want, func() int { return len(notifyWith(sid, fid, []*Script{m}, nil, false).B) - 4 })
			}
			if g.chance(0.5) && lim > 0 {
				want := []int{lim, lim + 1, other, other + 1}[g.Intn(4)]
				hdr := 5 + vlen(sid) + vlen(fid)
				for _, c := range m.Calls {
					if !c.Bad {
						hdr += len(putAction(nil, c.Act))
					}
				}
				a := Action{Scope: 2, V: KV{Name: []byte("v"), Type: tBinary}}
				fit(&a.V.S, want, func() int { return hdr + len(putAction(nil, a)) })
				m.Calls = append(m.Calls, Call{M: "SetBinary", Act: a})
			}
			sc.Steps = append(sc.Steps, g.sendStep(c, notifyWith(sid, fid, []*Script{m}, nil, false)))
		}
	}
	for c := 1; c <= n; c++ { // so that solo scenarios have their connection
		if !opened[c] {
			sc.Steps = append(sc.Steps, SStep{Op: "open", C: c}, g.sendStep(c, hellos[c]))
		}
	}
	return g.finish(sc)
}
