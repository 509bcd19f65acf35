package vharness

import (
	"context"
	"fmt"
	"io"
	"net"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

// PMsg is one message for the writer of a connection.
type PMsg struct {
	Kind string // def switch entry
	D    *sticktable.Definition
	ID   uint64
	U    *sticktable.EntryUpdate
	Ev   Ev // nil: cannot be sent
}

// PCall is one call on the writer of a connection.
type PCall struct {
	Ms     []PMsg
	Batch  bool
	Sleep  time.Duration // before it
	Yields int
}

// PAct is what a callback does.
type PAct struct {
	Sleep  time.Duration
	Block  bool // until released
	Ctx    bool // a cancelled context releases it
	Panic  bool
	Calls  []PCall
	Sender int
}

// PStep is one step of the environment.
type PStep struct {
	Op     string // open send eof reset werr gate ungate permit sleep quiet cancel release call mem memend unkey
	C, N   int
	B      []byte
	Z      int
	Cuts   []int
	D      time.Duration
	Calls  []PCall
	Sender int
	NoQ    bool
}

type PScn struct {
	Fam    string
	VT     bool // virtual time
	Shared bool
	Steps  []PStep
	// by connection: handshake, close and n-th update (from 1)
	Acts  map[int]map[string]*PAct
	Yield bool
}

type peersRun struct {
	serve  func()
	served chan struct{} // closed when the serve call has returned
	base   context.Context
	sc     *PScn
	log    *Log
	mu     sync.Mutex
	conns  map[int]*Conn
	ctxs   map[int]context.Context
	seen   map[int][]seenCtx // of all callbacks of a connection
	ws     map[int]*peers.Writer
	ncb    map[int]int // callbacks so far
	rel    map[string]chan struct{}
	nh     int
	ncall  int
	ngo    int
	ln     *Listener
	cancel context.CancelFunc
	spun   bool
	gates  []chan struct{} // opened at the end
	mem0   uint64
	got    int
	start  time.Time
	kept   []keptUpdate
	sent   map[int]int // over TCP: messages of successful calls
}

// keptUpdate is what a handler was given, and what it looked like then.
type keptUpdate struct {
	c    int
	u    *sticktable.EntryUpdate
	seen string
}

// held is the number of marshalers that are stopped.
var held atomic.Int64

func ms(d time.Duration) time.Duration { return d * time.Millisecond }

func (r *peersRun) now() int { return int(time.Since(r.start) / time.Millisecond) }

func connOf(ctx context.Context) (id int) {
	defer func() { recover() }()
	if m, ok := peers.Connection(ctx).(*Conn); ok {
		return m.id
	}
	return tcpID(peers.Connection(ctx))
}

func writerOf(ctx context.Context) (w *peers.Writer) {
	defer func() { recover() }()
	return peers.WriterFromContext(ctx)
}

type phandler struct {
	r  *peersRun
	h  int
	mu sync.Mutex
	c  int // known from its callbacks
	up map[int]int
}

func (h *phandler) relChan(c int, what string) chan struct{} {
	h.r.mu.Lock()
	defer h.r.mu.Unlock()
	k := fmt.Sprint(c, what)
	if h.r.rel[k] == nil {
		h.r.rel[k] = make(chan struct{})
	}
	return h.r.rel[k]
}

func (h *phandler) act(ctx context.Context, c int, what string) {
	if c == 0 && h.h > 0 { // connections are accepted in the order of their numbers
		c = h.h
	}
	h.r.mu.Lock()
	h.r.ncb[c]++
	nth := fmt.Sprint("#", h.r.ncb[c])
	h.r.mu.Unlock()
	a := h.r.sc.Acts[c][what]
	if a == nil {
		a, what = h.r.sc.Acts[c][nth], nth
	}
	if a == nil {
		return
	}
	if a.Sleep > 0 {
		time.Sleep(a.Sleep)
	}
	if a.Block {
		ch := h.relChan(c, what)
		var done <-chan struct{}
		if a.Ctx && ctx != nil {
			done = ctx.Done()
		}
		select {
		case <-ch:
		case <-done:
		}
	}
	if ctx != nil && len(a.Calls) > 0 {
		h.r.calls(c, a.Sender, writerOf(ctx), a.Calls)
	}
	if a.Panic {
		scriptedPanic((c*5+len(what)*3+len(h.r.sc.Steps))%16, c)
	}
}

func (h *phandler) HandleHandshake(ctx context.Context, hs *peers.Handshake) {
	c := connOf(ctx)
	h.r.mu.Lock()
	h.r.ctxs[c] = ctx
	h.r.see(c, ctx)
	h.r.ws[c] = writerOf(ctx)
	h.r.mu.Unlock()
	h.mu.Lock()
	h.c = c
	h.mu.Unlock()
	ev := Ev{"proto": ints([]byte(hs.ProtocolIdentifier)), "ver": ints([]byte(hs.Version)), "remote": ints([]byte(hs.RemotePeer)),
		"peer": ints([]byte(hs.LocalPeerIdentifier)), "pid": ints([]byte(strconv.Itoa(hs.ProcessID))), "rel": ints([]byte(strconv.Itoa(hs.RelativeProcessID)))}
	h.r.log.add(Ev{"e": "cb", "k": "hs", "h": h.h, "c": c, "x": ctx.Err() != nil, "hs": ev})
	pan := true
	defer func() { h.r.log.add(Ev{"e": "cbe", "k": "hs", "h": h.h, "c": c, "p": pan, "same": true}) }()
	h.act(ctx, c, "hs")
	pan = false
}

func (h *phandler) HandleUpdate(ctx context.Context, u *sticktable.EntryUpdate) {
	c := connOf(ctx)
	h.mu.Lock()
	h.c = c
	if h.up == nil {
		h.up = map[int]int{}
	}
	h.up[c]++
	n := h.up[c]
	h.mu.Unlock()
	d, e := defEv(u.StickTable), entEv(u)
	h.r.log.add(Ev{"e": "cb", "k": "up", "h": h.h, "c": c, "x": ctx.Err() != nil, "u": e, "d": d})
	pan := true
	h.r.mu.Lock()
	h.r.see(c, ctx)
	h.r.kept = append(h.r.kept, keptUpdate{c, u, fmt.Sprint(d, e)})
	h.r.mu.Unlock()
	defer func() {
		same := fmt.Sprint(defEv(u.StickTable), entEv(u)) == fmt.Sprint(d, e)
		h.r.log.add(Ev{"e": "cbe", "k": "up", "h": h.h, "c": c, "p": pan, "same": same})
	}()
	h.act(ctx, c, strconv.Itoa(n))
	pan = false
}

func (h *phandler) Close() error {
	h.mu.Lock()
	c := h.c
	h.mu.Unlock()
	if h.h == 0 {
		c = 0
	}
	h.r.mu.Lock()
	ctx := h.r.ctxs[c]
	h.r.mu.Unlock()
	h.r.log.add(Ev{"e": "cb", "k": "close", "h": h.h, "c": c, "known": ctx != nil, "x": ctx != nil && ctx.Err() != nil})
	pan := true
	defer func() {
		h.r.log.add(Ev{"e": "cbe", "k": "close", "h": h.h, "c": c, "p": pan, "same": true})
	}()
	h.act(nil, c, "close")
	pan = false
	if c%3 == 1 {
		return errInjected
	}
	return nil
}

// calls performs calls on w, one after another.
func (r *peersRun) calls(c, sender int, w *peers.Writer, cs []PCall) {
	for _, k := range cs {
		if k.Sleep > 0 {
			time.Sleep(k.Sleep)
		}
		for i := 0; i < k.Yields; i++ {
			runtime.Gosched()
		}
		r.mu.Lock()
		r.ncall++
		n := r.ncall
		r.mu.Unlock()
		evs, bad := []Ev{}, false
		for _, m := range k.Ms {
			if m.Ev == nil {
				bad = true
				break
			}
			evs = append(evs, m.Ev)
		}
		r.log.add(Ev{"e": "snd", "c": c, "s": sender, "call": n, "ms": evs, "bad": bad})
		var err error
		pan := caught(func() {
			switch {
			case k.Batch:
				var es []*sticktable.EntryUpdate
				for _, m := range k.Ms {
					es = append(es, m.U)
				}
				err = w.SendEntries(es)
			case k.Ms[0].Kind == "def":
				err = w.SendTableDefinition(k.Ms[0].D)
			case k.Ms[0].Kind == "switch":
				err = w.SendTableSwitch(k.Ms[0].ID)
			default:
				err = w.SendEntry(k.Ms[0].U)
			}
		})
		if r.sent != nil && err == nil && !pan {
			r.tcpArrived(c, len(k.Ms))
		}
		r.log.add(Ev{"e": "snt", "c": c, "s": sender, "call": n, "err": err != nil, "pan": pan})
	}
}

func (r *peersRun) quiet(final bool) {
	ok := true
	if r.sc.VT {
		synctest.Wait()
	} else {
		ok = quiesce(3 * time.Second)
	}
	r.state(ok, final)
}

// state records a state in which nothing moves any more.
func (r *peersRun) state(ok, final bool) {
	wb, dead, late := []int{}, []int{}, []int{}
	r.mu.Lock()
	for _, id := range r.ids() {
		if r.conns[id].state().blocked > 0 {
			wb = append(wb, id)
		}
		some, all := false, len(r.seen[id]) > 0
		for i := range r.seen[id] {
			x := &r.seen[id][i]
			if x.ctx.Err() == nil {
				all = false
			} else if !x.dead {
				x.dead, some = true, true
			}
		}
		if all {
			dead = append(dead, id)
		} else if some {
			late = append(late, id)
		}
	}
	r.mu.Unlock()
	if len(late) > 0 { // some of the contexts given to callbacks
		r.log.add(Ev{"e": "late", "cs": late})
	}
	r.log.add(Ev{"e": "q", "ok": ok, "wb": wb, "dead": dead, "held": int(held.Load()), "final": final})
	if !ok {
		r.spun = true
	}
}

// see remembers a context given to a callback, with r.mu held.
func (r *peersRun) see(c int, ctx context.Context) {
	s := r.seen[c]
	if n := len(s); n == 0 || s[n-1].ctx != ctx {
		r.seen[c] = append(s, seenCtx{ctx: ctx})
	}
}

func (r *peersRun) ids() []int {
	var out []int
	for id := range r.conns {
		out = append(out, id)
	}
	sortInts(out)
	return out
}

func rawOut(c *Conn, b []byte) []byte {
	c.log.add(Ev{"e": "out", "c": c.id, "b": ints(b)})
	return nil
}

func cutUp(b []byte, cuts []int) [][]byte {
	var segs [][]byte
	for _, n := range cuts {
		if n <= 0 || n >= len(b) {
			continue
		}
		segs = append(segs, b[:n])
		b = b[n:]
	}
	return append(segs, b)
}

func (r *peersRun) step(s PStep) {
	c := r.conns[s.C]
	if c == nil && s.C != 0 && s.Op != "open" && s.Op != "release" {
		return
	}
	switch s.Op {
	case "open":
		c = newConn(s.C, r.log, rawOut)
		c.yield = r.sc.Yield
		r.mu.Lock()
		r.conns[s.C] = c
		r.mu.Unlock()
		r.log.add(Ev{"e": "open", "c": s.C})
		r.ln.dial(c)
		// the handler instance belongs to the connection accepted last
		r.quiet(false)
		return
	case "send":
		b := append([]byte(nil), s.B...)
		all := append(append([]byte(nil), b...), make([]byte, s.Z)...)
		r.got += len(all)
		c.feed(func() { r.log.add(Ev{"e": "in", "c": s.C, "b": ints(b), "z": s.Z}) }, cutUp(all, s.Cuts)...)
	case "trickle": // every segment on its own
		b := append([]byte(nil), s.B...)
		for _, seg := range cutUp(b, s.Cuts) {
			c.feed(func() { r.log.add(Ev{"e": "in", "c": s.C, "b": ints(seg), "z": 0}) }, append([]byte(nil), seg...))
			r.quiet(false)
		}
		return
	case "eof":
		c.fail(io.EOF, Ev{"e": "eof", "c": s.C})
	case "reset":
		c.fail(resetErr, Ev{"e": "eof", "c": s.C})
	case "werr":
		c.failWrites(s.N, Ev{"e": "werr", "c": s.C})
	case "gate":
		c.setGate(true)
	case "ungate":
		c.setGate(false)
	case "permit":
		c.permit(s.N)
	case "sleep":
		time.Sleep(s.D)
	case "cancel":
		r.log.add(Ev{"e": "cancel"})
		r.cancel()
	case "release":
		h := &phandler{r: r}
		ch := h.relChan(s.C, string(s.B))
		select {
		case <-ch:
		default:
			close(ch)
		}
	case "call":
		r.mu.Lock()
		w := r.ws[s.C]
		r.mu.Unlock()
		if w != nil {
			r.ngo++
			go r.calls(s.C, 100+r.ngo, w, s.Calls)
		}
	case "unkey":
		if r.gates[s.N] != nil {
			close(r.gates[s.N])
			r.gates[s.N] = nil
		}
	case "mem":
		var m runtime.MemStats
		r.quiet(false)
		runtime.ReadMemStats(&m)
		r.mem0, r.got = m.TotalAlloc, 0
		return
	case "memend":
		var m runtime.MemStats
		r.quiet(false)
		runtime.ReadMemStats(&m)
		r.log.add(Ev{"e": "mem", "got": r.got, "kb": int((m.TotalAlloc - r.mem0) / 1024)})
		return
	case "quiet":
		r.quiet(false)
		return
	case "lfail": // the program closes its listener
		if !r.ln.isClosed() {
			r.ln.fail()
			s.NoQ = false
		}
	case "serve": // and serves another one, with the same peer
		select {
		case <-r.served:
			if r.base.Err() == nil {
				r.log.add(Ev{"e": "serve"})
				r.ln = r.ln.next()
				r.serve()
			}
		default:
		}
	default:
		fatal("unknown step %q", s.Op)
	}
	if !s.NoQ {
		r.quiet(false)
	}
}

func (r *peersRun) run() {
	sc := r.sc
	r.start = time.Now()
	held.Store(0)
	r.log.now = r.now
	ctx, cancel := context.WithCancel(context.Background())
	r.cancel = cancel
	r.base = ctx
	r.ln = newListener(r.log)
	r.log.add(Ev{"e": "start", "vt": sc.VT, "shared": sc.Shared})
	p := &peers.Peer{BaseContext: ctx}
	if sc.Shared {
		p.Handler = &phandler{r: r}
	} else {
		p.HandlerSource = func() peers.Handler {
			r.mu.Lock()
			r.nh++
			h := &phandler{r: r, h: r.nh}
			r.mu.Unlock()
			r.log.add(Ev{"e": "src", "h": h.h})
			return h
		}
	}
	r.serve = func() {
		ln, done := r.ln, make(chan struct{})
		r.served = done
		go func() {
			err := p.Serve(net.Listener(ln))
			r.log.add(Ev{"e": "ret", "err": err != nil})
			close(done)
		}()
	}
	r.serve()
	r.quiet(false)
	for _, s := range sc.Steps {
		r.step(s)
		if r.spun {
			return
		}
	}
	// the end of everything
	for i, g := range r.gates {
		if g != nil {
			close(g)
			r.gates[i] = nil
		}
	}
	for _, c := range r.conns {
		c.setGate(false)
	}
	r.quiet(false)
	if r.spun {
		return
	}
	if ctx.Err() == nil {
		r.log.add(Ev{"e": "cancel"})
		cancel()
		r.quiet(false)
	}
	for c, as := range sc.Acts {
		for w := range as {
			r.step(PStep{Op: "release", C: c, B: []byte(w), NoQ: true})
		}
	}
	r.quiet(false)
	for _, id := range r.ids() {
		r.conns[id].fail(io.EOF, Ev{"e": "eof", "c": id})
	}
	if sc.VT {
		time.Sleep(10 * time.Second) // callbacks that sleep
	}
	r.quiet(true)
	cancel()
	// handlers may keep what they were given
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, k := range r.kept {
		if seen := fmt.Sprint(defEv(k.u.StickTable), entEv(k.u)); seen != k.seen {
			r.log.add(Ev{"e": "changed", "c": k.c})
		}
	}
}

func (l *Listener) isClosed() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.closed
}

// current is the scenario a watchdog looks after.
var current struct {
	mu   sync.Mutex
	log  *Log
	gen  int
	emit func([]Ev)
}

func watchdog(limit time.Duration, exit func()) {
	var gen int
	var since time.Time
	for {
		time.Sleep(200 * time.Millisecond)
		current.mu.Lock()
		if current.gen != gen {
			gen, since = current.gen, time.Now()
		}
		if l := current.log; l != nil && time.Since(since) > limit {
			evs := l.copy()
			t := 0
			if len(evs) > 0 {
				t, _ = evs[len(evs)-1]["t"].(int)
			}
			// what happens from now on is of no interest
			evs = append(evs, Ev{"e": "q", "ok": false, "wb": []int{}, "dead": []int{}, "held": 0, "run": []int{}, "part": []int{}, "final": false, "t": t})
			current.emit(evs)
			exit()
		}
		current.mu.Unlock()
	}
}

// runPeers executes a scenario. The watchdog reports one that gets stuck.
func runPeers(t *testing.T, sc *PScn, gates []chan struct{}, emit func([]Ev)) (spun bool) {
	r := &peersRun{sc: sc, gates: gates, log: &Log{}, conns: map[int]*Conn{}, ctxs: map[int]context.Context{}, seen: map[int][]seenCtx{}, ws: map[int]*peers.Writer{}, ncb: map[int]int{}, rel: map[string]chan struct{}{}}
	current.mu.Lock()
	current.log, current.emit = r.log, emit
	current.gen++
	current.mu.Unlock()
	done := func() {
		current.mu.Lock()
		current.log = nil
		current.mu.Unlock()
		emit(r.log.copy())
	}
	if !sc.VT {
		r.run()
		done()
		return r.spun
	}
	func() {
		// goroutines left behind are reported as a deadlock of the bubble
		defer func() {
			if e := recover(); e != nil && !strings.Contains(fmt.Sprint(e), "deadlock") {
				panic(e)
			}
		}()
		synctest.Test(t, func(*testing.T) {
			r.run()
			done()
		})
	}()
	return r.spun
}
