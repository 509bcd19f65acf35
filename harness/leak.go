package vharness

// What ended connections leave behind: goroutines, and whatever still refers
// to them. The connections of a scenario all end in the same way, or each in
// one of its own.

import (
	"context"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
	"weak"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/spop"
)

// plainCtx is a context of the program's own kind. Contexts derived from it
// are found by looking at the goroutines that watch it.
type plainCtx struct{ done chan struct{} }

func (plainCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (p plainCtx) Done() <-chan struct{}     { return p.done }
func (plainCtx) Value(any) any               { return nil }
func (p plainCtx) Err() error {
	select {
	case <-p.done:
		return context.Canceled
	default:
		return nil
	}
}

type leakConn struct {
	net.Conn
	_ [64]byte
}

type leakListener struct {
	ch   chan net.Conn
	once sync.Once
	done chan struct{}
}

func (l *leakListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *leakListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *leakListener) Addr() net.Addr { return addr("mem:0") }

// leakEnd is HAProxy's end of a connection.
type leakEnd struct {
	net.Conn
	got  atomic.Int64 // bytes, or frames
	over chan struct{}
}

func (e *leakEnd) drain(frames bool) {
	defer close(e.over)
	if !frames {
		b := make([]byte, 4096)
		for {
			n, err := e.Conn.Read(b)
			e.got.Add(int64(n))
			if err != nil {
				return
			}
		}
	}
	var l [4]byte
	b := make([]byte, 65536)
	for {
		if _, err := io.ReadFull(e.Conn, l[:]); err != nil {
			return
		}
		n := int(binary.BigEndian.Uint32(l[:]))
		if n > len(b) {
			return
		}
		if _, err := io.ReadFull(e.Conn, b[:n]); err != nil {
			return
		}
		e.got.Add(1)
	}
}

func (e *leakEnd) send(b []byte) {
	e.Conn.SetWriteDeadline(time.Now().Add(2 * time.Second))
	e.Conn.Write(b)
}

// wait gives the other side time to get somewhere.
func (e *leakEnd) wait(cond func() bool) {
	for i := 0; i < 2000 && !cond(); i++ {
		select {
		case <-e.over:
			return
		case <-time.After(time.Duration(1+i/20) * 100 * time.Microsecond):
		}
	}
}

func (e *leakEnd) ended() {
	select {
	case <-e.over:
	case <-time.After(2 * time.Second):
	}
}

type leakRun struct {
	g     *pgen
	spop  bool
	ln    *leakListener
	ctx   plainCtx
	mu    sync.Mutex
	refs  []func() bool // whether what it was made for still exists
	how   string
	calls atomic.Int64
	stop  chan struct{}
}

func watch[T any](r *leakRun, x *T) {
	w := weak.Make(x)
	r.mu.Lock()
	r.refs = append(r.refs, func() bool { return w.Value() != nil })
	r.mu.Unlock()
}

func (r *leakRun) dial(frames, drain bool) *leakEnd {
	a, b := net.Pipe()
	lc := &leakConn{Conn: a}
	watch(r, lc)
	select {
	case r.ln.ch <- lc:
	case <-time.After(2 * time.Second):
	}
	e := &leakEnd{Conn: b, over: make(chan struct{})}
	if drain {
		go e.drain(frames)
	}
	return e
}

// ---- SPOP

var spopEndings = []string{"eof", "early", "disc", "fatal", "partial", "nothing", "health", "badoffer", "panic", "wait", "stuck", "long", "unknown", "badmsg"}

func (r *leakRun) HandleSPOE(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {
	r.calls.Add(1)
	switch string(m.NameBytes()) {
	case "panic":
		panic("handler")
	case "wait":
		select {
		case <-ctx.Done():
		case <-r.stop:
		}
		return
	}
	e := encoding.AcquireKVEntry()
	for m.KV.Next(e) {
	}
	encoding.ReleaseKVEntry(e)
	w.SetString(encoding.VarScopeTransaction, "seen", string(m.NameBytes()))
}

func (r *leakRun) spopConn(g *Gen, how string) {
	e := r.dial(true, how != "nothing" && how != "stuck")
	defer e.Close()
	switch how {
	case "nothing":
		return
	case "stuck": // reads no more than the HELLO
		e.Conn.SetReadDeadline(time.Now().Add(time.Second))
		go e.send(hello(tUint32, 16380, 0).B)
		e.Conn.Read(make([]byte, 1+g.Intn(8)))
		return
	case "health":
		e.send(hello(tUint32, 16380, 1).B)
		e.ended()
		return
	case "badoffer":
		e.send(hello(tUint32, uint64(g.Intn(256)), 0).B)
		e.ended()
		return
	}
	e.send(hello(tUint32, 16380, 0).B)
	e.wait(func() bool { return e.got.Load() >= 1 })
	msg := func(name string) []byte {
		return notifyWith(g.u64(), g.u64(), []*Script{{Name: []byte(name), Args: []KV{{Name: []byte("a"), Type: tString, S: []byte("b")}}}}, nil, false).B
	}
	n := int64(1 + g.Intn(3))
	for i := int64(0); i < n; i++ {
		e.send(msg("m"))
	}
	if how != "early" {
		e.wait(func() bool { return e.got.Load() >= 1+n })
	}
	switch how {
	case "disc":
		e.send(disconnect(0, "bye").B)
		e.ended()
	case "fatal":
		e.send(g.fatalFrame().B)
		e.ended()
	case "long":
		e.send([]byte{0, 0, 0x40, 0, 3})
		e.ended()
	case "partial":
		b := msg("m")
		e.send(b[:1+g.Intn(len(b)-1)])
	case "panic":
		e.send(msg("panic"))
		e.send(msg("m"))
		e.wait(func() bool { return e.got.Load() >= 2+n })
	case "wait":
		c := r.calls.Load()
		e.send(msg("wait"))
		e.wait(func() bool { return r.calls.Load() > c })
	case "unknown":
		e.send(g.unknownFrame().B)
	case "badmsg":
		e.send(notifyWith(1, 1, []*Script{{Name: []byte("m")}}, g.badTail(), true).B)
	}
}

// ---- peers

var peersEndings = []string{"eof", "nothing", "badhello", "bad", "partial", "panic", "panichs", "panicclose", "stuck", "push"}

type leakHandler struct {
	r   *leakRun
	how string
	_   [64]byte
}

func (h *leakHandler) HandleHandshake(ctx context.Context, _ *peers.Handshake) {
	switch h.how {
	case "panichs":
		panic("handshake")
	case "push":
		w := peers.WriterFromContext(ctx)
		go func() {
			for ctx.Err() == nil && w.SendTableSwitch(1) == nil {
				time.Sleep(time.Millisecond)
			}
		}()
	}
}

func (h *leakHandler) HandleUpdate(ctx context.Context, u *sticktable.EntryUpdate) {
	h.r.calls.Add(1)
	switch h.how {
	case "panic":
		panic("update")
	case "wait":
		select {
		case <-ctx.Done():
		case <-h.r.stop:
		}
	}
}

func (h *leakHandler) Close() error {
	if h.how == "panicclose" {
		panic("close")
	}
	return errors.New("closing")
}

func (r *leakRun) newHandler() peers.Handler {
	r.mu.Lock()
	h := &leakHandler{r: r, how: r.how}
	r.mu.Unlock()
	watch(r, h)
	return h
}

func (r *leakRun) peersConn(g *pgen, how string) {
	r.mu.Lock()
	r.how = how
	r.mu.Unlock()
	seen := r.calls.Load()
	e := r.dial(false, how != "stuck" && how != "nothing")
	defer e.Close()
	t := g.tconn()
	switch how {
	case "nothing":
		return
	case "badhello":
		// some of these are not recognized before their end
		e.send(g.badHello())
		select {
		case <-e.over:
		case <-time.After(5 * time.Millisecond):
		}
		return
	case "stuck":
		e.Conn.SetReadDeadline(time.Now().Add(time.Second))
		go e.send(append(g.hello(), mSync...))
		e.Conn.Read(make([]byte, 1))
		return
	case "panichs":
		e.send(g.hello())
		e.ended()
		return
	}
	e.send(append(g.hello(), t.def()...))
	e.wait(func() bool { return e.got.Load() >= 4 })
	for i := 0; i < 2; i++ {
		e.send(t.update())
	}
	e.wait(func() bool { return r.calls.Load() > seen })
	switch how {
	case "bad":
		e.send(t.bad())
		e.Close()
	case "partial":
		b := t.update()
		e.send(b[:1+g.Intn(len(b)-1)])
	case "panic":
		e.ended()
	case "push":
		n := e.got.Load()
		e.wait(func() bool { return e.got.Load() > n+4 })
	}
}

// ----

// runLeak has n connections end, in one way or in all of them, and counts
// what is left a little later.
func runLeak(g *pgen, isSpop bool, how string, n int, log *Log) {
	r := &leakRun{g: g, spop: isSpop, ctx: plainCtx{make(chan struct{})}, stop: make(chan struct{}), ln: &leakListener{ch: make(chan net.Conn), done: make(chan struct{})}}
	sg := &Gen{Rand: g.Rand}
	returned := make(chan struct{})
	a := &spop.Agent{Handler: r, BaseContext: r.ctx}
	p := &peers.Peer{BaseContext: r.ctx, HandlerSource: r.newHandler}
	go func() {
		if isSpop {
			a.Serve(r.ln)
		} else {
			p.Serve(r.ln)
		}
		close(returned)
	}()
	one := func(h string) {
		if isSpop {
			if h == "" {
				h = spopEndings[g.Intn(len(spopEndings))]
			}
			r.spopConn(sg, h)
		} else {
			if h == "" {
				h = peersEndings[g.Intn(len(peersEndings))]
			}
			r.peersConn(g, h)
		}
	}
	for i := 0; i < 3; i++ {
		one("eof")
	}
	left := func() (k int) {
		r.mu.Lock()
		defer r.mu.Unlock()
		for _, f := range r.refs {
			if f() {
				k++
			}
		}
		return
	}
	settle := func(gr0 int) (gr, kept int) {
		for i := 0; ; i++ {
			runtime.GC()
			gr, kept = runtime.NumGoroutine()-gr0, left()
			if gr <= 0 && kept <= 8 || i == 60 || i >= 20 && gr*4 <= n && kept*4 <= n {
				return
			}
			time.Sleep(time.Duration(1+i*3) * time.Millisecond)
		}
	}
	_, _ = settle(runtime.NumGoroutine())
	gr0 := runtime.NumGoroutine()
	for i := 0; i < n; i++ {
		one(how)
	}
	gr, kept := settle(gr0)
	log.add(Ev{"e": "left", "n": n, "gr": max(gr, 0), "kept": kept, "how": how})
	runtime.KeepAlive(a)
	runtime.KeepAlive(p)
	close(r.ctx.done)
	close(r.stop)
	select {
	case <-returned:
	case <-time.After(2 * time.Second):
	}
}

func heapNow() int {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}

// runFrames has one connection carry very many frames, and measures how much
// more memory is in use after the last than after the first third of them.
func runFrames(g *pgen, isSpop bool, how string, n int, log *Log) {
	r := &leakRun{g: g, spop: isSpop, ctx: plainCtx{make(chan struct{})}, stop: make(chan struct{}), ln: &leakListener{ch: make(chan net.Conn), done: make(chan struct{})}}
	sg := &Gen{Rand: g.Rand}
	var w *peers.Writer
	ready := make(chan struct{})
	a := &spop.Agent{Handler: r, BaseContext: r.ctx}
	h := &framesHandler{r: r, ready: ready, w: &w}
	p := &peers.Peer{BaseContext: r.ctx, Handler: h}
	go func() {
		if isSpop {
			a.Serve(r.ln)
		} else {
			p.Serve(r.ln)
		}
	}()
	e := r.dial(isSpop, true)
	seq := uint64(0)
	var part func(k int)
	if isSpop {
		e.send(hello(tUint32, 16380, 0).B)
		want := int64(1)
		ok := func() {
			seq++
			e.send(notifyWith(seq*7, seq, []*Script{{Name: []byte("m"), Args: []KV{{Name: []byte("a"), Type: tUint64, N: seq}}}}, nil, false).B)
			want++
		}
		part = func(k int) {
			for i := 0; i < k; i++ {
				kind := how
				if how == "mixed" {
					kind = []string{"ok", "panic", "unknown", "bad"}[g.Intn(4)]
				}
				if i%8 == 7 || i == k-1 {
					kind = "ok"
				}
				seq++
				switch kind {
				case "panic":
					e.send(notifyWith(seq*7, seq, []*Script{{Name: []byte("panic")}}, nil, false).B)
				case "unknown":
					e.send(sg.unknownFrame().B)
				case "bad":
					e.send(notifyWith(seq*7, seq, []*Script{{Name: []byte("m")}}, sg.badTail(), true).B)
				default:
					ok()
				}
			}
			e.wait(func() bool { return e.got.Load() >= want })
		}
	} else {
		d := &sticktable.Definition{StickTableID: 5, Name: "t", KeyType: sticktable.KeyTypeString, KeyLength: 32, DataTypes: []sticktable.DataTypeDefinition{{DataType: 1}}}
		e.send(append(g.hello(), pmsg(10, 130, encDef(d))...))
		<-ready
		var calls int64
		part = func(k int) {
			for i := 0; i < k; i++ {
				seq++
				key := sticktable.StringKey(num(seq))
				v := sticktable.UnsignedIntegerData(seq)
				u := &sticktable.EntryUpdate{StickTable: d, Key: &key, Data: []sticktable.MapData{&v}, WithLocalUpdateID: true, LocalUpdateID: uint32(seq)}
				e.send(pmsg(10, 128, encEntry(u)))
				calls++
				if i%2 == 0 {
					w.SendEntry(u)
				}
				if i%1000 == 0 {
					e.send(mHeartbeat)
				}
				if how == "mixed" {
					switch i % 8 {
					case 1: // the same table again
						e.send(pmsg(10, 130, encDef(d)))
					case 2:
						e.send(pmsg(10, 131, vput(nil, 5)))
					case 3:
						e.send(mSync)
					case 4:
						e.send(pmsg(10, 132, append(vput(nil, 5), be32(nil, uint32(seq))...)))
					case 5:
						w.SendTableDefinition(d)
					case 6:
						w.SendEntries([]*sticktable.EntryUpdate{u, u})
					case 7:
						w.SendTableSwitch(seq)
					}
				}
			}
			e.wait(func() bool { return r.calls.Load() >= calls })
		}
	}
	part(n)
	time.Sleep(2 * time.Millisecond)
	h0, g0 := heapNow(), runtime.NumGoroutine()
	// Buffers of frames, of which some are in use, come and go: what really
	// grows does so for longer.
	total, b := 0, 0
	for total < 120*n {
		part(2 * n)
		total += 2 * n
		if b = heapNow() - h0; b <= 2*total {
			break
		}
	}
	log.add(Ev{"e": "grown", "n": total, "b": max(b, 0), "gr": max(runtime.NumGoroutine()-g0, 0)})
	runtime.KeepAlive(a)
	runtime.KeepAlive(p)
	runtime.KeepAlive(e)
	close(r.ctx.done)
	close(r.stop)
	e.Close()
}

type framesHandler struct {
	r     *leakRun
	ready chan struct{}
	w     **peers.Writer
}

func (h *framesHandler) HandleHandshake(ctx context.Context, _ *peers.Handshake) {
	*h.w = peers.WriterFromContext(ctx)
	close(h.ready)
}
func (h *framesHandler) HandleUpdate(context.Context, *sticktable.EntryUpdate) { h.r.calls.Add(1) }
func (h *framesHandler) Close() error                                          { return nil }

// leak is the i-th of the scenarios.
func leak(g *pgen, isSpop bool, i int, log *Log) {
	log.now = func() int { return 0 }
	if isSpop {
		log.add(Ev{"e": "start", "w": runtime.NumCPU()})
	} else {
		log.add(Ev{"e": "start", "vt": false, "shared": false})
	}
	ends := peersEndings
	if isSpop {
		ends = spopEndings
	}
	frames := []string{"ok", "mixed", "panic", "bad", "unknown"}
	if !isSpop {
		frames = frames[:2]
	}
	switch k := i % (len(ends) + 1 + len(frames)); {
	case k == len(ends):
		runLeak(g, isSpop, "", 100, log)
	case k > len(ends):
		runFrames(g, isSpop, frames[k-len(ends)-1], 6000, log)
	default:
		runLeak(g, isSpop, ends[k], 60+g.Intn(40), log)
	}
}
