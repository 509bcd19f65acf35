package vharness

// Scenarios over real TCP connections, served by ListenAndServe. There is no
// control over schedules and no quiescence here: the harness waits until what
// it expects has happened, and a state in which nothing moves any more is only
// recorded then, or after a very long time.

import (
	"context"
	"errors"
	"fmt"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/spop"
)

const tcpPatience = 12 * time.Second

func eventually(cond func() bool) bool {
	start := time.Now()
	for d := 50 * time.Microsecond; ; d = min(2*d, 10*time.Millisecond) {
		if cond() {
			return true
		}
		if time.Since(start) > tcpPatience {
			return false
		}
		time.Sleep(d)
	}
}

// tcpAddr is an address nobody else uses.
func tcpAddr() string {
	pid := os.Getpid()
	host := fmt.Sprintf("127.%d.%d.%d", 1+pid>>14&127, pid>>7&127, 1+pid&127)
	l, err := net.Listen("tcp", host+":0")
	if err != nil {
		fatal("%v", err)
	}
	defer l.Close()
	return l.Addr().String()
}

// tcpEnd is HAProxy's end of a connection.
type tcpEnd struct {
	*Conn // what was received is taken apart there
	nc    *net.TCPConn
	hold  sync.Mutex // held while HAProxy does not read
}

func (l *Log) count(f func(Ev) bool) (n int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, e := range l.evs {
		if f(e) {
			n++
		}
	}
	return
}

func (l *Log) has(kind string, c int) bool {
	return l.count(func(e Ev) bool { return e["e"] == kind && (c == 0 || e["c"] == c) }) > 0
}

func tcpDial(log *Log, spop bool, addr string, id int, parse func(*Conn, []byte) []byte, before func()) *tcpEnd {
	log.add(Ev{"e": "open", "c": id})
	t := &tcpEnd{Conn: newConn(id, log, parse)}
	first := true
	ok := eventually(func() bool {
		if first {
			before()
		}
		first = false
		nc, err := net.Dial("tcp", addr)
		if err != nil {
			return false
		}
		t.nc = nc.(*net.TCPConn)
		return true
	})
	if !ok {
		return nil
	}
	go func() {
		buf := make([]byte, 70000)
		for {
			t.hold.Lock()
			t.hold.Unlock()
			n, err := t.nc.Read(buf)
			t.mu.Lock()
			t.accept(buf[:n])
			t.mu.Unlock()
			if err != nil {
				if spop && errors.Is(err, syscall.ECONNRESET) {
					log.add(Ev{"e": "rst", "c": id})
				}
				t.Conn.Close()
				return
			}
		}
	}()
	return t
}

// write sends b in pieces.
func (t *tcpEnd) write(b []byte, cuts []int) {
	for _, seg := range cutUp(b, cuts) {
		t.nc.Write(seg)
	}
}

// refused reports whether nobody listens on addr any more.
func refused(addr string) bool {
	return eventually(func() bool {
		nc, err := net.Dial("tcp", addr)
		if err == nil {
			nc.Close()
		}
		return err != nil
	})
}

// runSpopTCP executes a generated scenario.
func runSpopTCP(g *Gen, log *Log) {
	r := &spopRun{log: log, scripts: map[int]*Script{}, running: map[int]context.Context{}, conns: map[int]*Conn{}}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	addr := tcpAddr()
	a := &spop.Agent{Handler: r, BaseContext: ctx, Addr: addr}
	log.add(Ev{"e": "start", "w": runtime.NumCPU(), "lag": true})
	plain := g.chance(0.2) // without a context
	go func() {
		var err error
		if plain {
			err = spop.ListenAndServe(addr, r)
		} else {
			err = a.ListenAndServe()
		}
		log.add(Ev{"e": "ret", "err": err != nil})
	}()
	ends := map[int]*tcpEnd{}
	want := map[int]int{}
	acks := func(c int) int {
		return log.count(func(e Ev) bool { return e["e"] == "out" && e["k"] == "ack" && e["c"] == c })
	}
	send := func(c int, fs ...InFrame) {
		var b []byte
		for _, f := range fs {
			b = append(b, f.B...)
			f.Ev["e"], f.Ev["c"] = "in", c
		}
		for _, s := range g.scs {
			if r.scripts[s.Uid] == nil {
				s.rel = make(chan struct{})
				r.mu.Lock()
				r.scripts[s.Uid] = s
				r.mu.Unlock()
			}
		}
		for _, f := range fs {
			log.add(f.Ev)
		}
		ends[c].write(b, g.cuts(len(b)))
	}
	quiet := func(ok bool) bool {
		eventually(func() bool { r.mu.Lock(); defer r.mu.Unlock(); return len(r.running) == 0 || !ok })
		r.state(true, false)
		return ok
	}
	n := 1 + g.Intn(3)
	for c := 1; c <= n; c++ {
		e := tcpDial(log, true, addr, c, parseSpop, func() { log.add(Ev{"e": "acc", "c": c}) })
		if e == nil {
			log.add(Ev{"e": "ret", "err": true})
			return
		}
		ends[c], r.conns[c] = e, e.Conn
		fs := []InFrame{hello(tUint32, mk(uint64(256), 16380, 65535, 1<<20, 1<<31-1)[1+g.Intn(4)], 0)}
		if g.chance(0.5) {
			fs = append(fs, g.plain(0))
			want[c]++
		}
		send(c, fs...)
		if !quiet(eventually(func() bool { return log.has("out", c) && acks(c) >= want[c] })) {
			return
		}
	}
	all := func() bool {
		for c := range ends {
			if acks(c) < want[c] {
				return false
			}
		}
		return true
	}
	for i := 2 + g.Intn(8); i > 0; i-- {
		c := 1 + g.Intn(n)
		var fs []InFrame
		for k := 1 + g.Intn(6); k > 0; k-- {
			f := g.notify(g.message(msgOpt{maxArgs: 4, maxCalls: 4}), g.message(msgOpt{maxArgs: 3, maxCalls: 2}))
			if g.chance(0.2) {
				f = g.unknownFrame()
			} else {
				want[c]++
			}
			fs = append(fs, f)
		}
		send(c, fs...)
		if g.chance(0.5) && !quiet(eventually(all)) {
			return
		}
	}
	if !quiet(eventually(all)) {
		return
	}
	cancelled := false
	stop := func() {
		if plain || cancelled {
			return
		}
		cancelled = true
		log.add(Ev{"e": "cancel"})
		cancel()
		eventually(func() bool { return log.has("ret", 0) })
		if refused(addr) {
			log.add(Ev{"e": "lclosed"})
		}
	}
	if g.chance(0.3) {
		stop()
	}
	for c := 1; c <= n; c++ {
		e := ends[c]
		late := g.chance(0.6)
		if late { // what was sent before the end has to arrive even if it is read later
			e.hold.Lock()
		}
		if g.chance(0.5) {
			send(c, disconnect(0, "normal"))
		} else {
			log.add(Ev{"e": "eof", "c": c, "k": "eof"})
			e.nc.CloseWrite()
		}
		if late {
			time.Sleep(30 * time.Millisecond)
			e.hold.Unlock()
		}
		eventually(func() bool { return e.state().closed })
		e.nc.Close()
	}
	stop()
	live := func() bool {
		r.mu.Lock()
		defer r.mu.Unlock()
		for _, x := range r.seen {
			if x.ctx.Err() == nil {
				return true
			}
		}
		return false
	}
	eventually(func() bool { return !live() })
	r.state(true, true)
}

// tcpConns are the connections of the current scenario by remote address.
var tcpConns sync.Map

func tcpID(nc net.Conn) int {
	if id, ok := tcpConns.Load(nc.RemoteAddr().String()); ok {
		return id.(int)
	}
	return 0
}

// runPeersTCP executes a generated scenario.
func runPeersTCP(g *pgen, log *Log) {
	sc := &PScn{Shared: g.oneIn(4)}
	r := &peersRun{sent: map[int]int{}, sc: sc, log: log, conns: map[int]*Conn{}, ctxs: map[int]context.Context{}, seen: map[int][]seenCtx{}, ws: map[int]*peers.Writer{}, ncb: map[int]int{}, rel: map[string]chan struct{}{}}
	r.start = time.Now()
	held.Store(0)
	log.now = r.now
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	addr := tcpAddr()
	log.add(Ev{"e": "start", "vt": false, "shared": sc.Shared})
	p := &peers.Peer{BaseContext: ctx, Addr: addr}
	var accepted atomic.Int64
	if sc.Shared {
		p.Handler = &phandler{r: r}
	} else {
		p.HandlerSource = func() peers.Handler {
			r.mu.Lock()
			r.nh++
			h := &phandler{r: r, h: r.nh}
			r.mu.Unlock()
			log.add(Ev{"e": "src", "h": h.h})
			accepted.Add(1)
			return h
		}
	}
	plain := sc.Shared && g.oneIn(2)
	go func() {
		var err error
		if plain {
			err = peers.ListenAndServe(addr, p.Handler)
		} else {
			err = p.ListenAndServe()
		}
		log.add(Ev{"e": "ret", "err": err != nil})
	}()
	n := 1 + g.Intn(3)
	ends, ts := map[int]*tcpEnd{}, map[int]*tconn{}
	ups, syncs := map[int]int{}, map[int]int{}
	ask := func(c int, b []byte) {
		for k := g.Intn(4); k > 0; k-- {
			if ts[c].sel == nil || g.oneIn(3) {
				b = append(b, ts[c].def()...)
			}
			b = append(b, ts[c].update()...)
			ups[c]++
		}
		syncs[c]++
		b = append(b, mSync...)
		log.add(Ev{"e": "in", "c": c, "b": ints(b), "z": 0})
		ends[c].write(b, g.cuts(len(b)))
	}
	parts := func(c int) int { p, _ := r.tcpGot(c); return p }
	done := func(c int) bool {
		return log.count(func(e Ev) bool { return e["e"] == "cbe" && e["c"] == c && e["k"] == "up" }) >= ups[c] &&
			parts(c) >= syncs[c]
	}
	quiet := func(ok bool) bool {
		r.state(true, false)
		return ok
	}
	for c := 1; c <= n; c++ {
		if g.oneIn(3) {
			sc.act(c, pick(g, "hs", "1", "2"), &PAct{Calls: g.callList(2, 0), Sender: 90})
		}
	}
	for c := 1; c <= n; c++ {
		e := tcpDial(log, false, addr, c, tcpOut, func() { log.add(Ev{"e": "acc", "c": c}) })
		if e == nil {
			log.add(Ev{"e": "ret", "err": true})
			return
		}
		tcpConns.Store(e.nc.LocalAddr().String(), c)
		ends[c], ts[c] = e, g.tconn()
		r.mu.Lock()
		r.conns[c] = e.Conn
		r.mu.Unlock()
		if !sc.Shared {
			eventually(func() bool { return accepted.Load() >= int64(c) })
		}
		ask(c, g.hello())
		if !quiet(eventually(func() bool { return done(c) })) {
			return
		}
	}
	for i := 1 + g.Intn(6); i > 0; i-- {
		c := 1 + g.Intn(n)
		if g.oneIn(3) {
			r.mu.Lock()
			w := r.ws[c]
			r.mu.Unlock()
			if w != nil {
				r.calls(c, 1, w, g.callList(1+g.Intn(4), 0))
			}
		}
		ask(c, nil)
		if !quiet(eventually(func() bool { return done(c) })) {
			return
		}
	}
	cancelled := false
	stop := func() {
		if plain || cancelled {
			return
		}
		cancelled = true
		log.add(Ev{"e": "cancel"})
		cancel()
		eventually(func() bool { return log.has("ret", 0) })
		if refused(addr) {
			log.add(Ev{"e": "lclosed"})
		}
	}
	if g.oneIn(3) {
		stop()
	}
	closes := func() int { return log.count(func(e Ev) bool { return e["e"] == "cbe" && e["k"] == "close" }) }
	for c := 1; c <= n; c++ {
		e := ends[c]
		log.add(Ev{"e": "eof", "c": c})
		e.nc.CloseWrite()
		eventually(func() bool { return e.state().closed })
		e.nc.Close()
	}
	eventually(func() bool { return closes() >= n })
	stop()
	r.mu.Lock()
	xs := []context.Context{}
	for _, x := range r.ctxs {
		xs = append(xs, x)
	}
	r.mu.Unlock()
	eventually(func() bool {
		for _, x := range xs {
			if x.Err() == nil {
				return false
			}
		}
		return true
	})
	r.state(true, true)
	tcpConns.Clear()
}

// tcpGot counts the sync replies and the messages of senders received on
// connection c.
func (r *peersRun) tcpGot(c int) (parts, sent int) {
	r.mu.Lock()
	k := r.conns[c]
	r.mu.Unlock()
	k.mu.Lock()
	defer k.mu.Unlock()
	b := k.out2
	if len(b) < 4 {
		return
	}
	b = b[4:]
	for len(b) >= 2 {
		if b[1] < 128 {
			if b[0] == 0 && b[1] == 2 {
				parts++
			}
			b = b[2:]
			continue
		}
		l, w, ok := vget(b[2:])
		if !ok || uint64(len(b)) < uint64(2+w)+l {
			break
		}
		if b[0] == 10 && b[1] != 132 {
			sent++
		}
		b = b[2+w+int(l):]
	}
	return
}

// tcpArrived waits for what was sent successfully on connection c.
func (r *peersRun) tcpArrived(c, n int) {
	r.mu.Lock()
	r.sent[c] += n
	want := r.sent[c]
	r.mu.Unlock()
	eventually(func() bool { _, s := r.tcpGot(c); return s >= want })
}

func tcpOut(c *Conn, b []byte) []byte {
	c.out2 = append(c.out2, b...)
	return rawOut(c, b)
}
