package vharness

// Very long histories, of which only the sequences of numbers they consist of
// are noted, as runs: tuples that differ by the same amount from each other.

import (
	"bufio"
	"context"
	"encoding/binary"
	"io"
	"net"
	"os"
	"runtime"
	"slices"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/spop"
)

// patience is how long nothing at all happens before a history is taken to
// have come to its end.
const patience = 10 * time.Second

type bulkRun struct {
	A, D []int
	N    int
}

type bulkSeq struct {
	mu   sync.Mutex
	runs []bulkRun
	last []int
	n    int
}

const bulkRuns = 40 // further ones are only counted

func (s *bulkSeq) add(t ...int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
	k := len(s.runs)
	if k > 0 {
		r := &s.runs[k-1]
		d := make([]int, len(t))
		for i := range t {
			d[i] = t[i] - s.last[i]
		}
		if r.N == 1 {
			r.D = d
		}
		if slices.Equal(r.D, d) {
			r.N++
			s.last = t
			return
		}
	}
	s.last = t
	if k < bulkRuns {
		s.runs = append(s.runs, bulkRun{A: t, D: make([]int, len(t)), N: 1})
	} else {
		s.runs[k-1].N, s.runs[k-1].D = 1, []int{1 << 20} // matches nothing
	}
}

func (s *bulkSeq) count() int { s.mu.Lock(); defer s.mu.Unlock(); return s.n }

// out gives the runs and, as the last of them, the number of tuples.
func (s *bulkSeq) out() [][][]int {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := [][][]int{{{s.n}, {}, {1}}}
	for _, r := range s.runs {
		l = append(l, [][]int{r.A, r.D, {r.N}})
	}
	return l
}

type bulkSet struct {
	mu sync.Mutex
	l  [][]int
}

func (s *bulkSet) add(t ...int) { s.mu.Lock(); s.l = append(s.l, t); s.mu.Unlock() }
func (s *bulkSet) count() int   { s.mu.Lock(); defer s.mu.Unlock(); return len(s.l) }
func (s *bulkSet) out() [][][]int {
	s.mu.Lock()
	defer s.mu.Unlock()
	slices.SortFunc(s.l, slices.Compare[[]int])
	q := &bulkSeq{}
	for _, t := range s.l {
		q.add(t...)
	}
	return q.out()
}

// settled waits for done, for as long as something happens.
func settled(done func() bool, progress func() int) {
	was := -1
	for i := 0; !done(); i++ {
		if p := progress(); p != was {
			i, was = 0, p
		}
		if i > 2100 { // some ten seconds in which this was able to look
			return
		}
		if i < 100 {
			time.Sleep(100 * time.Microsecond)
		} else {
			time.Sleep(5 * time.Millisecond)
		}
	}
}

// steady runs f, and reports whether there was no time in which nothing ran.
func steady(f func()) bool {
	stop, worst := make(chan struct{}), make(chan time.Duration)
	go func() {
		w, at := time.Duration(0), time.Now()
		for {
			select {
			case <-stop:
				worst <- w
				return
			case <-time.After(50 * time.Millisecond):
			}
			now := time.Now()
			w, at = max(w, now.Sub(at)), now
		}
	}()
	f()
	close(stop)
	return <-worst < time.Second
}

type bulkEnd struct {
	net.Conn
	mu  sync.Mutex
	bad atomic.Bool
}

func (e *bulkEnd) send(b []byte) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for len(b) > 0 && !e.bad.Load() {
		n := min(len(b), 1<<16)
		e.SetWriteDeadline(time.Now().Add(patience))
		if _, err := e.Conn.Write(b[:n]); err != nil {
			e.bad.Store(true)
		}
		b = b[n:]
	}
}

func bulkPipe(ln *leakListener) *bulkEnd {
	a, b := net.Pipe()
	e := &bulkEnd{Conn: b}
	select {
	case ln.ch <- a:
	case <-time.After(patience):
		e.bad.Store(true)
	}
	return e
}

// ---- SPOP

type bulkSpop struct {
	saw bulkSet
}

func (h *bulkSpop) HandleSPOE(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {
	e := encoding.AcquireKVEntry()
	defer encoding.ReleaseKVEntry(e)
	v := -1
	for m.KV.Next(e) {
		if e.Type() == encoding.DataTypeUInt64 {
			x, _ := e.Value().(uint64)
			v = int(x)
		}
	}
	h.saw.add(v)
	w.SetUInt64(encoding.VarScopeRequest, "v", uint64(v))
}

func bulkSpopScn(g *Gen, how string, n int, log *Log) {
	ctx := plainCtx{make(chan struct{})}
	ln := &leakListener{ch: make(chan net.Conn), done: make(chan struct{})}
	h := &bulkSpop{}
	a := &spop.Agent{Handler: h, BaseContext: ctx}
	go a.Serve(ln)
	sent, args, acked := &bulkSeq{}, &bulkSeq{}, &bulkSet{}
	conns := 1
	if how == "conns" {
		conns = n
	}
	hellos := &atomic.Int64{}
	var ends []*bulkEnd
	for i := 0; i < conns; i++ {
		if i > 0 && ends[i-1].bad.Load() { // no others are accepted
			ends = append(ends, ends[i-1])
			continue
		}
		e := bulkPipe(ln)
		ends = append(ends, e)
		go func() {
			r := bufio.NewReaderSize(e, 4096)
			var l [4]byte
			for {
				if _, err := io.ReadFull(r, l[:]); err != nil {
					return
				}
				k := binary.BigEndian.Uint32(l[:])
				if k > junkLimit {
					return
				}
				b := make([]byte, k)
				if _, err := io.ReadFull(r, b); err != nil {
					return
				}
				f := getFrame(b)
				if f.OK && f.Type == fAHel {
					hellos.Add(1)
					continue
				}
				v := -1
				if as, ok := getActions(f.Payload); ok && f.OK && f.Type == fAck && f.Flags == 1 && len(as) == 1 {
					if a := as[0]; !a.Unset && (a.V.Type == tUint64 || a.V.Type == tInt64) && string(a.V.Name) == "v" {
						v = int(a.V.N)
					}
				}
				acked.add(i, int(f.Sid), int(f.Fid), v)
			}
		}()
	}
	for _, e := range ends {
		e.send(hello(tUint32, 16380, 0).B)
	}
	if how == "conns" {
		settled(func() bool { return int(hellos.Load()) == conns }, func() int { return int(hellos.Load()) })
	}
	f0, v0 := g.Intn(1<<29), g.Intn(1<<29)
	var b []byte
	for i := 0; i < n; i++ {
		c, sid, fid, v := 0, f0+3*i, f0+i, v0+i
		if conns > 1 {
			c = i
		}
		sent.add(c, sid, fid, v)
		args.add(v)
		b = append(b, notifyWith(uint64(sid), uint64(fid), []*Script{{Name: []byte("m"), Args: []KV{{Name: []byte("a"), Type: tUint64, N: uint64(v)}}}}, nil, false).B...)
		if conns > 1 || len(b) > 1<<15 || i == n-1 {
			ends[c].send(b)
			b = b[:0]
		}
	}
	settled(func() bool { return acked.count() >= n && h.saw.count() >= n }, func() int { return acked.count() + h.saw.count() })
	time.Sleep(2 * time.Millisecond)
	log.add(Ev{"e": "bulk", "how": how, "sent": sent.out(), "args": args.out(), "saw": h.saw.out(), "acked": acked.out()})
	close(ctx.done)
	for _, e := range ends {
		e.Close()
	}
	runtime.KeepAlive(a)
}

// ---- peers

type bulkPeers struct {
	c           int
	saw, closed *bulkSet
	seq         bulkSeq
	ready       chan *peers.Writer
}

func (h *bulkPeers) HandleHandshake(ctx context.Context, _ *peers.Handshake) {
	h.ready <- peers.WriterFromContext(ctx)
}
func (h *bulkPeers) HandleUpdate(_ context.Context, u *sticktable.EntryUpdate) {
	t := []int{h.c, -1, int(u.LocalUpdateID), -1, -1}
	if d := u.StickTable; d != nil && d.Name == "t"+num(d.StickTableID) {
		t[1] = int(d.StickTableID)
	}
	if k, ok := u.Key.(*sticktable.SignedIntegerKey); ok && k != nil {
		t[3] = int(*k)
	}
	if len(u.Data) == 1 {
		if v, ok := u.Data[0].(*sticktable.UnsignedIntegerData); ok && v != nil {
			t[4] = int(*v)
		}
	}
	if h.saw != nil {
		h.saw.add(t...)
		return
	}
	h.seq.add(t...)
}
func (h *bulkPeers) Close() error {
	if h.closed != nil {
		h.closed.add(h.c)
	}
	return nil
}

func bulkDef(id int) *sticktable.Definition {
	return &sticktable.Definition{StickTableID: uint64(id), Name: "t" + num(uint64(id)), KeyType: sticktable.KeyTypeSignedInteger, KeyLength: 4, DataTypes: []sticktable.DataTypeDefinition{{DataType: 1}}}
}

func bulkEntry(d *sticktable.Definition, id, k, v int) *sticktable.EntryUpdate {
	key, val := sticktable.SignedIntegerKey(k), sticktable.UnsignedIntegerData(v)
	return &sticktable.EntryUpdate{StickTable: d, Key: &key, Data: []sticktable.MapData{&val}, WithLocalUpdateID: id >= 0, LocalUpdateID: uint32(max(id, 0))}
}

// bulkOut notes what a connection sends: entries, those of a sender (who is
// found in the key) in the order they came in, and the answered requests.
type bulkOut struct {
	entries []*bulkSeq
	parts   atomic.Int64
	n       atomic.Int64
}

func (o *bulkOut) read(e *bulkEnd) {
	r := bufio.NewReaderSize(e, 1<<16)
	if _, err := r.ReadString('\n'); err != nil { // the status
		return
	}
	table, last := -1, int64(-1)
	other := func(t ...int) { o.n.Add(1); o.entries[0].add(t...) }
	for {
		var hd [2]byte
		if _, err := io.ReadFull(r, hd[:]); err != nil {
			return
		}
		if hd[1] < 128 {
			if hd[0] == 0 && hd[1] == 2 {
				o.parts.Add(1)
			}
			continue
		}
		l, err := readVar(r)
		if err != nil || l > junkLimit {
			return
		}
		b := make([]byte, l)
		if _, err := io.ReadFull(r, b); err != nil {
			return
		}
		v, k, ok := vget(b)
		switch {
		case hd[0] == 10 && (hd[1] == 130 || hd[1] == 131) && ok:
			table = int(v)
		case hd[0] == 10 && hd[1] == 128 && len(b) > 8:
			// that ids rise is all that is said about them
			id, up := int64(binary.BigEndian.Uint32(b)), 0
			if id > last {
				up = 1
			}
			last = id
			key := int(int32(binary.BigEndian.Uint32(b[4:])))
			if v, k, ok = vget(b[8:]); !ok || 8+k != len(b) || key < 0 || key >= len(o.entries) {
				other(-1, -1, key, -1)
				continue
			}
			o.n.Add(1)
			o.entries[key].add(table, up, key, int(v))
		default:
			other(-1, int(hd[0]), int(hd[1]), -1)
		}
	}
}

func bulkSeqs(l []*bulkSeq) (out [][][]int) {
	for _, s := range l {
		out = append(out, s.out()...)
	}
	return
}

func newSeqs(n int) (l []*bulkSeq) {
	for ; n > 0; n-- {
		l = append(l, &bulkSeq{})
	}
	return
}

// alive has a peer send heartbeats until stopped.
func (e *bulkEnd) alive(stop chan struct{}) {
	for {
		select {
		case <-stop:
			return
		case <-time.After(time.Second):
			e.send(mHeartbeat)
		}
	}
}

var bulkHello = joinHello([3]string{"HAProxyS 2.1", "remote", "local 1234 1"})

func bulkPeersScn(g *pgen, how string, n int, log *Log) {
	ctx := plainCtx{make(chan struct{})}
	ln := &leakListener{ch: make(chan net.Conn), done: make(chan struct{})}
	h := &bulkPeers{ready: make(chan *peers.Writer, 1)}
	p := &peers.Peer{BaseContext: ctx, Handler: h}
	go p.Serve(ln)
	e := bulkPipe(ln)
	senders := 1
	if how == "par" {
		senders = 5
	}
	o := &bulkOut{entries: newSeqs(senders)}
	go o.read(e)
	e.send(bulkHello)
	go e.alive(ctx.done)
	var w *peers.Writer
	select {
	case w = <-h.ready:
	case <-time.After(patience):
	}
	sent, push := &bulkSeq{}, newSeqs(senders)
	syncs := int64(0)
	var refused atomic.Int64
	in := func(n int) {
		k0, v0, id0 := g.Intn(1<<28), g.Intn(1<<28), g.Intn(1<<28)
		d := bulkDef(5)
		b := pmsg(10, 130, encDef(d))
		if how == "tables" {
			b = nil
			for i := 0; i < n; i++ {
				b = append(b, pmsg(10, 130, encDef(bulkDef(1000+i)))...)
			}
		}
		for i := 0; i < n; i++ {
			if how == "tables" {
				d = bulkDef(1000 + i)
				b = append(b, pmsg(10, 131, vput(nil, uint64(1000+i)))...)
			}
			if i == 0 {
				b = append(b, pmsg(10, 128, encEntry(bulkEntry(d, id0, k0, v0)))...)
			} else {
				b = append(b, pmsg(10, 129, encEntry(bulkEntry(d, -1, k0+i, v0+i)))...)
			}
			if how != "tables" {
				b = append(b, mSync...)
				syncs++
			}
			sent.add(0, int(d.StickTableID), id0+i, k0+i, v0+i)
			if len(b) > 1<<16 || i == n-1 {
				e.send(b)
				b = b[:0]
			}
		}
	}
	total := 0
	var wg sync.WaitGroup
	if how != "in" && how != "tables" && w != nil {
		d := bulkDef(7)
		if w.SendTableDefinition(d) != nil {
			refused.Add(1)
		}
		for s := range push {
			v0 := g.Intn(1 << 28)
			total += n / senders
			wg.Add(1)
			go func() {
				defer wg.Done()
				var batch []*sticktable.EntryUpdate
				for i := 0; i < n/senders; i++ {
					u := bulkEntry(d, -1, s, v0+i)
					push[s].add(7, 1, s, v0+i)
					if how == "batch" {
						batch = append(batch, u)
					} else if w.SendEntry(u) != nil {
						refused.Add(1)
					}
				}
				if how == "batch" && w.SendEntries(batch) != nil {
					refused.Add(1)
				}
			}()
		}
	}
	switch how {
	case "in", "tables":
		in(n)
	case "par":
		in(n / senders)
	}
	settled(func() bool {
		return h.seq.count() >= sent.count() && int(o.n.Load()) >= total && o.parts.Load() >= syncs
	}, func() int { return h.seq.count() + int(o.n.Load()) + int(o.parts.Load()) })
	time.Sleep(2 * time.Millisecond)
	log.add(Ev{"e": "bulk", "how": how, "sent": sent.out(), "saw": h.seq.out(), "push": bulkSeqs(push), "out": bulkSeqs(o.entries),
		"refused": int(refused.Load()), "syncs": int(syncs), "parts": int(o.parts.Load()), "conns": [][][]int{}, "closed": [][][]int{}})
	close(ctx.done)
	e.Close()
	runtime.KeepAlive(p)
}

// bulkConnsScn has many connections at the same time.
func bulkConnsScn(g *pgen, n int, log *Log) {
	ctx := plainCtx{make(chan struct{})}
	ln := &leakListener{ch: make(chan net.Conn), done: make(chan struct{})}
	saw, closed := &bulkSet{}, &bulkSet{}
	made := make(chan *bulkPeers, n)
	c := 0
	p := &peers.Peer{BaseContext: ctx, HandlerSource: func() peers.Handler {
		h := &bulkPeers{c: c, saw: saw, closed: closed, ready: make(chan *peers.Writer, 1)}
		made <- h
		return h
	}}
	go p.Serve(ln)
	var ends []*bulkEnd
	var outs []*bulkOut
	var hs []*bulkPeers
	for c < n {
		e := bulkPipe(ln)
		select {
		case h := <-made:
			hs = append(hs, h)
		case <-time.After(patience):
		}
		c++
		o := &bulkOut{entries: newSeqs(1)}
		go o.read(e)
		ends, outs = append(ends, e), append(outs, o)
		if e.bad.Load() {
			break
		}
	}
	sent, conns, push := &bulkSeq{}, &bulkSeq{}, newSeqs(len(ends))
	k0, v0, id0 := g.Intn(1<<28), g.Intn(1<<28), g.Intn(1<<28)
	for _, e := range ends {
		e.send(bulkHello)
		go e.alive(ctx.done)
	}
	refused := 0
	for i, e := range ends {
		d := bulkDef(9 + i)
		b := pmsg(10, 130, encDef(d))
		e.send(append(b, pmsg(10, 128, encEntry(bulkEntry(d, id0+i, k0+i, v0+i)))...))
		sent.add(i, 9+i, id0+i, k0+i, v0+i)
		conns.add(i)
		push[i].add(9+i, 1, 0, v0+i)
		if i < len(hs) && refused == 0 {
			select {
			case w := <-hs[i].ready:
				if w == nil || w.SendTableDefinition(d) != nil || w.SendEntry(bulkEntry(d, -1, 0, v0+i)) != nil {
					refused++
				}
			case <-time.After(patience):
				refused++
			}
		}
	}
	var all []*bulkSeq
	for _, o := range outs {
		all = append(all, o.entries...)
	}
	got := func() (n int) {
		for _, o := range outs {
			n += int(o.n.Load())
		}
		return n + saw.count()
	}
	settled(func() bool { return got() >= 2*len(ends) }, got)
	for _, e := range ends {
		e.Close()
	}
	settled(func() bool { return closed.count() >= len(ends) }, closed.count)
	time.Sleep(2 * time.Millisecond)
	log.add(Ev{"e": "bulk", "how": "conns", "sent": sent.out(), "saw": saw.out(), "push": bulkSeqs(push), "out": bulkSeqs(all),
		"refused": refused, "syncs": 0, "parts": 0, "conns": conns.out(), "closed": closed.out()})
	close(ctx.done)
	runtime.KeepAlive(p)
}

func readVar(r *bufio.Reader) (uint64, error) {
	var b []byte
	for {
		c, err := r.ReadByte()
		if err != nil {
			return 0, err
		}
		b = append(b, c)
		if v, _, ok := vget(b); ok || len(b) > 11 {
			return v, nil
		}
	}
}

// bulk is the i-th of the histories.
func bulk(g *pgen, isSpop bool, i int, log *Log) {
	log.now = func() int { return 0 }
	if isSpop {
		log.add(Ev{"e": "start", "w": runtime.NumCPU()})
	} else {
		log.add(Ev{"e": "start", "vt": false, "shared": false})
	}
	big := 66000 + g.Intn(3000)
	if os.Getenv("VERIF_TIER") == "thorough" {
		big *= 1 + g.Intn(6)
	}
	one := func(log *Log) {
		switch {
		case isSpop && i%2 == 0:
			bulkSpopScn(&Gen{Rand: g.Rand}, "one", big, log)
		case isSpop:
			bulkSpopScn(&Gen{Rand: g.Rand}, "conns", 1100+g.Intn(300), log)
		case i%6 == 5:
			bulkConnsScn(g, 1100+g.Intn(300), log)
		case i%6 == 4:
			bulkPeersScn(g, "tables", 5000+g.Intn(5000), log)
		default:
			bulkPeersScn(g, []string{"in", "out", "batch", "par"}[i%6], big, log)
		}
	}
	// Peers take one that sends nothing for a while to be gone, and so it may
	// seem where this does not get to run.
	for k := 0; k < 3; k++ {
		l := &Log{now: log.now}
		if steady(func() { one(l) }) {
			for _, e := range l.copy() {
				log.add(e)
			}
			return
		}
	}
}

var long = map[string]func(*pgen, bool, int, *Log){"leak": leak, "bulk": bulk}
