package vharness

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"net/netip"
	"runtime"
	"strconv"
	"sync"
	"time"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/spop"
)

// InFrame is something HAProxy sends, with the event describing it.
type InFrame struct {
	B  []byte
	Ev Ev
}

// Call is one call on the ActionWriter of a handler.
type Call struct {
	M   string
	Act Action
	Bad bool // expected to fail and to leave no trace
}

// Script tells the handler what to do with one message.
type Script struct {
	Uid    int
	Name   []byte
	Args   []KV
	Read   int // entries read before returning, -1 for all
	Block  bool
	Late   bool // block before reading
	Ctx    bool // a cancelled context releases the handler
	Keep   bool // look at the retained bytes again before returning
	Calls  []Call
	Panic  bool
	PanicV int // which value it panics with
	Yields int
	rel    chan struct{}
	done   bool
}

// SStep is one step of the environment.
type SStep struct {
	Op      string // open send sendraw eof reset werr gate ungate permit release quiet cancel
	C       int
	N       int
	Fs      []InFrame
	Cuts    []int // lengths of the segments; the rest follows in one piece
	U       int
	NoQuiet bool
	Hold    int  // if > 0, all but the first Hold segments follow only before the next step of the connection
	Drop    bool // eof and the like: what is held back is lost
}

type SScn struct {
	Fam     string
	Steps   []SStep
	Scripts []*Script
	Yield   bool
	Free    bool // do not wait between the steps
	Side    int  // frames that another agent of the program is busy with
}

// side starts another agent all of whose workers may be busy meanwhile. What
// it does is not recorded, and does not matter to the one under test.
func side(n int) (stop func()) {
	log, rel := &Log{}, make(chan struct{})
	ctx, cancel := context.WithCancel(context.Background())
	a := &spop.Agent{BaseContext: ctx, Handler: spop.HandlerFunc(func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		<-rel
		_ = w.SetString(encoding.VarScopeProcess, "side", string(m.NameBytes()))
	})}
	ln, c := newListener(log), newConn(1, log, parseSpop)
	go func() { _ = a.Serve(ln) }()
	ln.dial(c)
	b := [][]byte{hello(tUint32, 16384, 0).B}
	for i := 1; i <= n; i++ {
		b = append(b, putFrame(3, 1, 0, uint64(i), putMsg(nil, &Script{Name: []byte("side")})))
	}
	c.feed(nil, bytes.Join(b, nil))
	quiesce(quietLimit)
	return func() {
		close(rel)
		quiesce(quietLimit)
		cancel()
		c.fail(io.EOF, Ev{"e": "eof", "c": 1, "k": "eof"})
		quiesce(quietLimit)
	}
}

func mk[T any](xs ...T) []T { return xs }

var scopes = mk(encoding.VarScopeProcess, encoding.VarScopeSession, encoding.VarScopeTransaction,
	encoding.VarScopeRequest, encoding.VarScopeResponse)

// call performs c and returns the error of the writer.
func (c Call) do(w *encoding.ActionWriter) error {
	s := scopes[c.Act.Scope]
	n := string(c.Act.V.Name)
	v := c.Act.V
	switch c.M {
	case "Unset":
		return w.Unset(s, n)
	case "SetString":
		return w.SetString(s, n, string(v.S))
	case "SetStringBytes":
		return w.SetStringBytes(s, n, v.S)
	case "SetBinary":
		return w.SetBinary(s, n, v.S)
	case "SetNull":
		return w.SetNull(s, n)
	case "SetBool":
		return w.SetBool(s, n, v.B)
	case "SetUInt32":
		return w.SetUInt32(s, n, uint32(v.N))
	case "SetInt32":
		return w.SetInt32(s, n, int32(v.N))
	case "SetInt64":
		return w.SetInt64(s, n, int64(v.N))
	case "SetUInt64":
		return w.SetUInt64(s, n, v.N)
	case "SetAddr":
		a, _ := netip.AddrFromSlice(v.S)
		return w.SetAddr(s, n, a)
	}
	panic("harness: unknown call " + c.M)
}

type spopRun struct {
	log     *Log
	scripts map[int]*Script
	mu      sync.Mutex
	running map[int]context.Context
	seen    []seenCtx
	conns   map[int]*Conn
	held    map[int]func()
	ln      *Listener
	cancel  context.CancelFunc
	yield   bool
	spun    bool // the code under test did not come to rest
}

func entryCanon(k *encoding.KVEntry) string {
	kv := KV{Name: k.NameBytes(), Type: int(k.Type())}
	switch v := k.Value().(type) {
	case nil:
	case bool:
		kv.B = v
	case int32:
		kv.N = uint64(int64(v))
	case int64:
		kv.N = uint64(v)
	case uint32:
		kv.N = uint64(v)
	case uint64:
		kv.N = v
	case netip.Addr:
		kv.S = v.AsSlice()
	case string:
		kv.S = []byte(v)
	case []byte:
		kv.S = v
	default:
		return fmt.Sprintf("?%T", v)
	}
	s := kv.canon()
	// the typed accessors have to agree with Value
	switch k.Type() {
	case encoding.DataTypeBool:
		if k.ValueBool() != kv.B {
			s += "!"
		}
	case encoding.DataTypeInt32, encoding.DataTypeInt64, encoding.DataTypeUInt32, encoding.DataTypeUInt64:
		if (KV{Name: kv.Name, Type: kv.Type, N: uint64(k.ValueInt())}).canon() != s {
			s += "!"
		}
	case encoding.DataTypeIPV4, encoding.DataTypeIPV6:
		if a := k.ValueAddr(); string(a.AsSlice()) != string(kv.S) {
			s += "!"
		}
	case encoding.DataTypeString, encoding.DataTypeBinary:
		if string(k.ValueBytes()) != string(kv.S) {
			s += "!"
		}
	}
	if !k.NameEquals(string(kv.Name)) || !k.NameEqualBytes(kv.Name) || !k.NameEqualUnsafe(string(kv.Name)) {
		s += "!"
	}
	return s
}

func uidOf(name []byte) int {
	if len(name) < 2 || name[0] != 'm' {
		return 0
	}
	n := 0
	for _, c := range name[1:] {
		if c < '0' || c > '9' {
			break
		}
		n = n*10 + int(c-'0')
		if n > 1<<20 {
			return 0
		}
	}
	return n
}

func strs(in []string) []string {
	if in == nil {
		return []string{}
	}
	return in
}

func (r *spopRun) HandleSPOE(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {
	u := uidOf(m.NameBytes())
	r.mu.Lock()
	s := r.scripts[u]
	if s == nil {
		u = 0
	}
	r.log.add(Ev{"e": "hs", "u": u, "nm": canonBytes(m.NameBytes()), "x": ctx.Err() != nil})
	r.seen = append(r.seen, seenCtx{u: u, ctx: ctx})
	if s == nil {
		r.mu.Unlock()
		return
	}
	r.running[u] = ctx
	r.mu.Unlock()

	wait := func() {
		if !s.Block {
			return
		}
		if s.Ctx {
			select {
			case <-s.rel:
			case <-ctx.Done():
			}
		} else {
			<-s.rel
		}
	}

	var (
		args []string
		kept []func() string
		full bool
		rerr bool
	)
	read := func() {
		e := encoding.AcquireKVEntry()
		defer encoding.ReleaseKVEntry(e)
		n := s.Read
		for n != 0 {
			if !m.KV.Next(e) {
				full = true
				rerr = m.KV.Error() != nil
				break
			}
			n--
			args = append(args, entryCanon(e))
			if s.Keep {
				ec := *e
				kept = append(kept, func() string { return entryCanon(&ec) })
			}
		}
		r.log.add(Ev{"e": "rd", "u": u, "a": strs(args), "full": full, "err": rerr})
	}

	if s.Late {
		wait()
		read()
	} else {
		read()
		wait()
	}
	for i := 0; i < s.Yields; i++ {
		runtime.Gosched()
	}

	acts := []string{}
	alen := 0
	for _, c := range s.Calls {
		if err := c.do(w); err == nil {
			if c.Bad {
				acts = append(acts, "bad call accepted")
				continue
			}
			acts = append(acts, c.Act.canon())
			alen += len(putAction(nil, c.Act))
		}
	}

	// look again at everything, after the writer may have moved its buffer
	if s.Keep {
		var again []string
		for _, f := range kept {
			again = append(again, f())
		}
		r.log.add(Ev{"e": "rr", "u": u, "nm": canonBytes(m.NameBytes()), "a": strs(again)})
	}

	r.mu.Lock()
	delete(r.running, u)
	r.log.add(Ev{"e": "he", "u": u, "acts": acts, "alen": alen, "p": s.Panic})
	r.mu.Unlock()
	if s.Panic {
		scriptedPanic(s.PanicV, u)
	}
}

type oddError struct{ s []int } // not comparable

func (oddError) Error() string { return "odd error" }

type badStringer struct{}

func (badStringer) String() string { panic("String of a panic value") }

// scriptedPanic panics the way handlers do.
func scriptedPanic(kind, u int) {
	switch kind {
	case 1:
		panic(io.EOF)
	case 2:
		panic(fmt.Errorf("wrapped: %w", net.ErrClosed))
	case 3:
		panic(context.Canceled)
	case 4:
		panic(u)
	case 5:
		var m map[string]int
		m["x"] = u // a runtime error
	case 6:
		var p *Script
		p.done = true
	case 7:
		panic(oddError{})
	case 8:
		panic(nil)
	case 9:
		defer func() { panic("while panicking") }()
		panic(&oddError{})
	case 10:
		_ = make([]int, 1)[u%7+1]
	case 11:
		panic(time.Duration(u)) // has a String method
	case 12:
		panic(badStringer{})
	case 13:
		panic((*net.OpError)(nil)) // an error whose methods panic
	case 14:
		panic(&runtime.PanicNilError{})
	}
	panic(fmt.Sprintf("scripted panic %d", u))
}

func num(v uint64) string { return strconv.FormatUint(v, 10) }

const junkLimit = 1 << 24

func parseSpop(c *Conn, b []byte) []byte {
	for len(b) >= 4 {
		l := binary.BigEndian.Uint32(b)
		if l > junkLimit {
			c.log.add(Ev{"e": "out", "c": c.id, "k": "junk", "len": 0})
			c.parse = func(c *Conn, b []byte) []byte { return nil }
			return nil
		}
		if len(b) < 4+int(l) {
			return b
		}
		f := getFrame(b[4 : 4+int(l)])
		b = b[4+int(l):]
		c.log.add(outEvent(c.id, f))
	}
	return b
}

func outEvent(c int, f OutFrame) Ev {
	e := Ev{"e": "out", "c": c, "k": "junk", "len": f.Len, "sid": num(f.Sid), "fid": num(f.Fid), "fin": f.Flags == 1}
	if !f.OK {
		return e
	}
	switch f.Type {
	case fAHel:
		kv, ok := getKVs(f.Payload)
		if !ok {
			return e
		}
		e["k"] = "hello"
		e["ver"], e["mfs"], e["kvs"] = "", "", len(kv)
		for _, k := range kv {
			switch string(k.Name) {
			case "version":
				e["ver"] = k.canonVal()
			case "max-frame-size":
				e["mfs"] = k.canonVal()
			case "capabilities":
				e["caps"] = k.canonVal()
			}
		}
	case fADis:
		kv, ok := getKVs(f.Payload)
		if !ok {
			return e
		}
		e["k"] = "disc"
		e["status"] = ""
		for _, k := range kv {
			if string(k.Name) == "status-code" {
				e["status"] = k.canonVal()
			}
		}
	case fAck:
		as, ok := getActions(f.Payload)
		if !ok {
			return e
		}
		e["k"] = "ack"
		acts := []string{}
		for _, a := range as {
			acts = append(acts, a.canon())
		}
		e["acts"] = acts
	}
	return e
}

type seenCtx struct {
	ctx  context.Context
	u    int
	dead bool
}

// quietLimit bounds the wait for a quiet state of the code under test.
const quietLimit = 15 * time.Second

func (r *spopRun) quiet(final bool) {
	if r.spun {
		return
	}
	ok := quiesce(quietLimit)
	r.spun = !ok
	r.state(ok, final)
}

// state records a state in which nothing moves any more.
func (r *spopRun) state(ok, final bool) {
	wb, part, unread := []int{}, []int{}, []int{}
	for _, id := range r.ids() {
		s := r.conns[id].state()
		if s.blocked > 0 {
			wb = append(wb, id)
		}
		if s.part > 0 {
			part = append(part, id)
		}
		if s.unread > 0 {
			unread = append(unread, id)
		}
	}
	r.mu.Lock()
	run, dead := []int{}, []int{}
	for u, ctx := range r.running {
		run = append(run, u)
		if ctx.Err() != nil {
			dead = append(dead, u)
		}
	}
	live, late := 0, []int{}
	for i := range r.seen {
		x := &r.seen[i]
		if x.ctx.Err() == nil {
			live++
		} else if !x.dead {
			x.dead = true
			if r.running[x.u] == nil && x.u != 0 {
				late = append(late, x.u)
			}
		}
	}
	r.mu.Unlock()
	if len(late) > 0 { // handlers that have returned, but may have left something behind
		r.log.add(Ev{"e": "late", "us": late})
	}
	r.log.add(Ev{"e": "q", "run": run, "dead": dead, "wb": wb, "part": part, "unread": unread, "ok": ok, "final": final, "live": live})
}

func (r *spopRun) send(st SStep) {
	c := r.conns[st.C]
	var all []byte
	type mark struct {
		at int
		ev Ev
	}
	var marks []mark
	for _, f := range st.Fs {
		if f.Ev != nil && len(f.B) > 256 { // too long frames are noticed early
			marks = append(marks, mark{len(all) + 4, Ev{"e": "head", "c": st.C, "len": len(f.B) - 4}})
		}
		all = append(all, f.B...)
		if f.Ev != nil {
			ev := f.Ev
			ev["e"] = "in"
			ev["c"] = st.C
			marks = append(marks, mark{len(all), ev})
		}
	}
	// every frame is announced before its last byte becomes available
	pos, segs := 0, 0
	var rest func(hold int)
	cuts := append(append([]int(nil), st.Cuts...), len(all))
	rest = func(hold int) {
		for ; len(cuts) > 0; cuts = cuts[1:] {
			n := min(cuts[0], len(all)-pos)
			if n <= 0 {
				continue
			}
			if hold > 0 && segs == hold {
				r.held[st.C] = func() { rest(0) }
				return
			}
			segs++
			seg := all[pos : pos+n]
			pos += n
			c.feed(func() {
				for len(marks) > 0 && marks[0].at <= pos {
					c.log.add(marks[0].ev)
					marks = marks[1:]
				}
			}, append([]byte(nil), seg...))
			if !st.NoQuiet && st.N == 1 { // let the reader catch up with every segment
				quiesce(quietLimit)
			}
		}
	}
	rest(st.Hold)
}

// flush delivers what was held back of the last frames of connection c.
func (r *spopRun) flush(c int) {
	if f := r.held[c]; f != nil {
		delete(r.held, c)
		f()
	}
}

func runSpop(sc *SScn, log *Log) []Ev {
	r := &spopRun{log: log, scripts: map[int]*Script{}, running: map[int]context.Context{}, conns: map[int]*Conn{}, held: map[int]func(){}, yield: sc.Yield}
	for _, s := range sc.Scripts {
		s.rel = make(chan struct{})
		s.done = false
		r.scripts[s.Uid] = s
	}
	ctx, cancel := context.WithCancel(context.Background())
	r.cancel = cancel
	r.ln = newListener(log)
	a := &spop.Agent{Handler: r, BaseContext: ctx}
	if len(sc.Steps)%3 == 0 {
		a.Handler = spop.HandlerFunc(r.HandleSPOE)
	}
	if sc.Side > 0 {
		defer side(sc.Side)()
	}
	log.add(Ev{"e": "start", "w": runtime.NumCPU()})
	var served chan struct{}
	serve := func() {
		ln, done := r.ln, make(chan struct{})
		served = done
		go func() {
			err := a.Serve(ln)
			log.add(Ev{"e": "ret", "err": err != nil})
			close(done)
		}()
	}
	serve()

	release := func(s *Script) {
		if !s.done {
			s.done = true
			close(s.rel)
		}
	}
	for _, st := range sc.Steps {
		if r.spun {
			return log.copy()
		}
		quiet := !sc.Free && !st.NoQuiet
		switch st.Op {
		case "send", "eof", "reset", "rerr":
			if st.Drop {
				delete(r.held, st.C)
			}
			r.flush(st.C)
		}
		switch st.Op {
		case "open":
			c := newConn(st.C, log, parseSpop)
			c.gated = st.N == 1
			c.yield = sc.Yield
			r.conns[st.C] = c
			log.add(Ev{"e": "open", "c": st.C})
			r.ln.dial(c)
		case "oddconn":
			// a TCP connection that is gone already
			log.add(Ev{"e": "oddconn"})
			r.ln.dial(&net.TCPConn{})
		case "send":
			r.send(st)
		case "eof":
			r.conns[st.C].fail(io.EOF, Ev{"e": "eof", "c": st.C, "k": "eof"})
		case "reset":
			r.conns[st.C].fail(resetErr, Ev{"e": "eof", "c": st.C, "k": "reset"})
		case "rerr":
			r.conns[st.C].fail(errInjected, Ev{"e": "eof", "c": st.C, "k": "rerr"})
		case "werr":
			r.conns[st.C].failWrites(st.N, Ev{"e": "werr", "c": st.C})
		case "gate":
			r.conns[st.C].setGate(true)
		case "ungate":
			r.conns[st.C].setGate(false)
		case "permit":
			r.conns[st.C].permit(st.N)
		case "release":
			if s := r.scripts[st.U]; s != nil {
				release(s)
			}
		case "releaseany": // the st.N-th of the running handlers
			r.mu.Lock()
			var us []int
			for u := range r.running {
				if !r.scripts[u].done {
					us = append(us, u)
				}
			}
			r.mu.Unlock()
			if len(us) > 0 {
				sortInts(us)
				release(r.scripts[us[st.N%len(us)]])
			}
		case "releaseall":
			for _, s := range sc.Scripts {
				release(s)
			}
		case "yield":
			for i := 0; i < st.N; i++ {
				runtime.Gosched()
			}
		case "quiet":
			quiet = true
		case "sleep": // virtual time
			quiesce(quietLimit)
			time.Sleep(time.Duration(st.N) * time.Millisecond)
		case "cancel":
			log.add(Ev{"e": "cancel"})
			cancel()
		case "lfail": // the program closes its listener
			if ctx.Err() == nil && !r.ln.isClosed() {
				r.ln.fail()
				quiet = true
			}
		case "serve": // and serves another one, with the same agent
			select {
			case <-served:
				if ctx.Err() == nil {
					log.add(Ev{"e": "serve"})
					r.ln = r.ln.next()
					serve()
				}
			default:
			}
		default:
			panic("harness: unknown step " + st.Op)
		}
		if quiet {
			r.quiet(false)
		}
	}

	// let everything finish, so that all obligations become due
	for _, id := range r.ids() {
		r.flush(id)
		r.conns[id].setGate(false)
	}
	for _, s := range sc.Scripts {
		release(s)
	}
	r.quiet(false)
	for _, id := range r.ids() {
		r.conns[id].fail(io.EOF, Ev{"e": "eof", "c": id, "k": "eof"})
	}
	r.quiet(false)
	log.add(Ev{"e": "cancel"})
	cancel()
	r.quiet(true)
	return log.copy()
}

func (r *spopRun) ids() []int {
	var out []int
	for id := range r.conns {
		out = append(out, id)
	}
	sortInts(out)
	return out
}

func sortInts(a []int) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}
