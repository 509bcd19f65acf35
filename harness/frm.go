package vharness

// Frames and handshakes written and read without a server: what a program
// uses that speaks the protocols itself.

import (
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"sync"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/spop"
)

// cutWriter accepts a number of bytes, all if it is negative.
type cutWriter struct {
	left int
	out  []byte
}

func (w *cutWriter) Write(b []byte) (int, error) {
	n := len(b)
	if w.left >= 0 && w.left < n {
		n = w.left
	}
	w.out = append(w.out, b[:n]...)
	if w.left >= 0 {
		w.left -= n
	}
	if n < len(b) {
		return n, errors.New("the writer is full")
	}
	return n, nil
}

func (g *cgen) wcap(about int) int {
	switch g.Intn(6) {
	case 0:
		return g.Intn(10)
	case 1:
		return g.Intn(about + 8)
	}
	return -1
}

// job is something to be written; it may run in a goroutine of its own.
type job struct {
	e   Ev
	cap int
	f   func(w io.Writer) (int64, error)
}

func (j *job) run() {
	w := &cutWriter{left: j.cap}
	var n int64
	var err error
	pan := caught(func() { n, err = j.f(w) })
	j.e["out"], j.e["n"], j.e["err"], j.e["pan"], j.e["wcap"] = ints(w.out), int(n), err != nil, pan, j.cap
}

// statuses are the exported codes and the numbers HAProxy gives them.
func discFrame(k int) (*spop.AgentDisconnectFrame, int) {
	f := &spop.AgentDisconnectFrame{}
	code := 0
	switch k {
	case 1:
		f.ErrCode, code = spop.ErrorIO, 1
	case 2:
		f.ErrCode, code = spop.ErrorTimeout, 2
	case 3:
		f.ErrCode, code = spop.ErrorTooBig, 3
	case 4:
		f.ErrCode, code = spop.ErrorInvalid, 4
	case 5:
		f.ErrCode, code = spop.ErrorNoVSN, 5
	case 6:
		f.ErrCode, code = spop.ErrorNoFrameSize, 6
	case 7:
		f.ErrCode, code = spop.ErrorNoCap, 7
	case 8:
		f.ErrCode, code = spop.ErrorBadVsn, 8
	case 9:
		f.ErrCode, code = spop.ErrorBadFrameSize, 9
	case 10:
		f.ErrCode, code = spop.ErrorFragNotSupported, 10
	case 11:
		f.ErrCode, code = spop.ErrorInterlacedFrames, 11
	case 12:
		f.ErrCode, code = spop.ErrorFrameIDNotfound, 12
	case 13:
		f.ErrCode, code = spop.ErrorRes, 13
	case 14:
		f.ErrCode, code = spop.ErrorUnknown, 99
	default:
		f.ErrCode = spop.ErrorNone
	}
	return f, code
}

func (g *cgen) frameJob() *job {
	switch g.Intn(5) {
	case 0:
		f, code := discFrame(g.Intn(15))
		if g.oneIn(6) { // a code HAProxy may get to know
			code = 100 + g.Intn(1<<20)
			reflect.ValueOf(f).Elem().FieldByName("ErrCode").SetInt(int64(code))
		}
		return &job{e: Ev{"e": "fdisc", "code": limbs(uint64(code)), "msg": ints([]byte(f.ErrCode.String())), "cb": "ok"}, cap: g.wcap(60), f: f.WriteTo}
	case 1:
		f := &spop.AgentHelloFrame{}
		if g.oneIn(3) && g.lastHello != nil { // one written before
			f = g.lastHello
		}
		g.lastHello = f
		f.Version, f.MaxFrameSize, f.Capabilities = string(g.str(300)), uint32(g.u64()), nil
		caps := [][]int{}
		if g.capArr == nil {
			for k := 0; k < 4; k++ {
				g.capArr = append(g.capArr, string(g.name()))
			}
		}
		if g.oneIn(2) { // parts of one list
			i := g.Intn(4)
			f.Capabilities = g.capArr[i : i+g.Intn(5-i)]
		} else {
			for k := g.Intn(4); k > 0; k-- {
				f.Capabilities = append(f.Capabilities, string(g.name()))
			}
		}
		for _, c := range f.Capabilities {
			caps = append(caps, ints([]byte(c)))
		}
		if g.oneIn(40) { // around the size of the largest frame
			f.Version, f.Capabilities, caps = "2.0", []string{string(g.bytes(65535 - 65 + g.Intn(24)))}, nil
			caps = [][]int{ints([]byte(f.Capabilities[0]))}
		}
		return &job{e: Ev{"e": "fhello", "ver": ints([]byte(f.Version)), "mfs": limbs(uint64(f.MaxFrameSize)), "caps": caps, "cb": "ok"}, cap: g.wcap(80), f: f.WriteTo}
	}
	sid, fid := g.u64(), g.u64()
	cb := []string{"ok", "ok", "ok", "ok", "ok", "err", "panic"}[g.Intn(7)]
	j := &job{e: Ev{"e": "fack", "sid": limbs(sid), "fid": limbs(fid), "cb": cb, "acts": []int{}, "alen": 0}}
	var acts []byte
	calls := g.Intn(5)
	vals := make([]val, calls)
	names := make([]string, calls)
	about := 12
	for i := range vals {
		vals[i], names[i] = g.setVal(true), string(g.name())
		if vals[i].inv {
			vals[i] = val{k: "null", s: []byte{}}
		}
		about += len(names[i]) + len(vals[i].s) + 4
	}
	big := 0
	if g.oneIn(30) { // around the size of the largest frame, or far beyond
		big = 65535 - about - 30 + g.Intn(60)
		if g.oneIn(3) {
			big *= 1 + g.Intn(4)
		}
	}
	var nested *job
	if g.oneIn(8) {
		h := &cgen{Rand: g.Rand}
		nested = h.frameJob()
	}
	j.cap = g.wcap(about)
	f := &spop.AckFrame{}
	if nested == nil && g.lastAck != nil && g.oneIn(3) {
		f = g.lastAck
	}
	if nested == nil {
		g.lastAck = f
	}
	*f = spop.AckFrame{FrameID: fid, StreamID: sid, ActionWriterCallback: func(w *encoding.ActionWriter) error {
		for i, v := range vals {
			var err error
			switch v.k {
			case "unset":
				err = w.Unset(encoding.VarScopeSession, names[i])
			case "string":
				err = w.SetString(encoding.VarScopeProcess, names[i], string(v.s))
			case "binary":
				err = w.SetBinary(encoding.VarScopeProcess, names[i], v.s)
			case "addr":
				err = w.SetAddr(encoding.VarScopeProcess, names[i], v.a)
			default:
				err = w.SetUInt64(encoding.VarScopeProcess, names[i], v.n)
			}
			if err != nil {
				fatal("recording an action: %v", err)
			}
			if i == 0 && nested != nil { // another frame while this one is built
				nested.run()
			}
		}
		if big > 0 {
			if err := w.SetBinary(encoding.VarScopeRequest, "big", make([]byte, big)); err != nil {
				fatal("recording an action: %v", err)
			}
		}
		acts = append([]byte(nil), w.Bytes()...)
		j.e["alen"] = len(acts)
		if len(acts) < 66000 {
			j.e["acts"] = ints(acts)
		}
		switch cb {
		case "err":
			return errors.New("no answer")
		case "panic":
			panic("no answer")
		}
		return nil
	}}
	j.f = func(w io.Writer) (int64, error) {
		n, err := f.WriteTo(w)
		if nested != nil && len(vals) > 0 {
			g.add(nested.e)
		}
		return n, err
	}
	if nested != nil && len(vals) > 0 && cb == "panic" {
		j.e["cb"], cb = "err", "err"
	}
	return j
}

func (g *cgen) frames() {
	for k := 1 + g.Intn(6); k > 0; k-- {
		j := g.frameJob()
		j.run()
		g.add(j.e)
	}
	// at the same time
	var wg sync.WaitGroup
	var js []*job
	for k := g.Intn(5); k > 0; k-- {
		h := &cgen{Rand: g.Rand}
		j := h.frameJob()
		js = append(js, j)
	}
	for _, j := range js {
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			j.run()
		}(j)
	}
	wg.Wait()
	for _, j := range js {
		g.add(j.e)
	}
}

// --------------------------------------------------------------------------

func (g *cgen) word() string {
	n := 1 + g.Intn(8)
	if g.oneIn(30) {
		n = 200 + g.Intn(400)
	}
	if g.oneIn(300) {
		n = 4090 + g.Intn(4500)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(33 + g.Intn(94))
	}
	return string(b)
}

func (g *cgen) number() int {
	switch g.Intn(6) {
	case 0:
		return 0
	case 1:
		return -g.Intn(1 << 20)
	case 2:
		return g.Intn(999999999)
	case 3:
		return []int{9, 10, 99, 100, 4194304, 32768}[g.Intn(6)]
	}
	return 1 + g.Intn(100000)
}

func hsEv(h *peers.Handshake) Ev {
	return Ev{"proto": ints([]byte(h.ProtocolIdentifier)), "ver": ints([]byte(h.Version)), "remote": ints([]byte(h.RemotePeer)),
		"loc": ints([]byte(h.LocalPeerIdentifier)), "pid": h.ProcessID, "rel": h.RelativeProcessID}
}

// someReader hands out its data in pieces and counts them.
type someReader struct {
	g    *cgen
	b    []byte
	used int
	max  int
	last bool // the end is reported together with the last bytes
	inf  bool
}

func (r *someReader) Read(p []byte) (int, error) {
	if r.inf {
		for i := range p {
			p[i] = 'x'
		}
		r.used += len(p)
		if r.used > 1<<20 {
			return 0, io.ErrUnexpectedEOF
		}
		return len(p), nil
	}
	rest := r.b[r.used:]
	if len(rest) == 0 {
		return 0, io.EOF
	}
	n := len(rest)
	if n > r.max {
		n = r.max
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, rest[:n])
	r.used += n
	if r.last && r.used == len(r.b) {
		return n, io.EOF
	}
	return n, nil
}

func (g *cgen) hget(b []byte) {
	r := &someReader{g: g, b: b, max: 1 + g.Intn(40), last: g.oneIn(3)}
	h := &peers.Handshake{}
	if g.oneIn(3) { // values from before
		h = &peers.Handshake{ProtocolIdentifier: "old", Version: "0", RemotePeer: "old", LocalPeerIdentifier: "old", ProcessID: 77, RelativeProcessID: 78}
	}
	var n int64
	var err error
	pan := caught(func() { n, err = h.ReadFrom(r) })
	e := Ev{"e": "hget", "b": ints(b), "n": int(n), "used": r.used, "err": err != nil, "pan": pan, "h": hsEv(h)}
	if h.ProcessID > 1<<31-1 || h.ProcessID < -(1<<31-1) || h.RelativeProcessID > 1<<31-1 || h.RelativeProcessID < -(1<<31-1) {
		e["h"] = hsEv(&peers.Handshake{ProtocolIdentifier: "beyond"}) // beyond the integers of TLC
	}
	g.add(e)
}

func (g *cgen) handshakes() {
	remote := func() string {
		switch g.Intn(10) {
		case 0:
			return ""
		case 1:
			return g.word() + " " + g.word()
		case 3:
			return []string{" ", "\t", "  "}[g.Intn(3)] + g.word()
		case 4:
			return g.word() + []string{" ", "\t", " \r ", "\x00"}[g.Intn(4)]
		case 2:
			return string([]byte{0xc3, 0xa4, 0x00, 0xff, '%', 's'})
		}
		return g.word()
	}
	switch g.Intn(5) {
	case 0, 1: // written, and read again
		h := &peers.Handshake{ProtocolIdentifier: g.word(), Version: g.word(), RemotePeer: remote(), LocalPeerIdentifier: g.word(), ProcessID: g.number(), RelativeProcessID: g.number()}
		if g.oneIn(4) {
			h = peers.NewHandshake(remote())
			host, _ := os.Hostname()
			g.add(Ev{"e": "hnew", "h": hsEv(h), "remote": ints([]byte(h.RemotePeer)), "host": ints([]byte(host)), "pid": os.Getpid()})
		}
		w := &cutWriter{left: g.wcap(60)}
		c := w.left
		var n int64
		var err error
		pan := caught(func() { n, err = h.WriteTo(w) })
		g.add(Ev{"e": "hput", "h": hsEv(h), "wcap": c, "out": ints(w.out), "n": int(n), "err": err != nil, "cb": "ok", "pan": pan})
		g.hget(append(w.out, g.bytes(g.Intn(5))...))
	case 2, 3: // some line is wrong, or the end is missing
		nl := "\n"
		if g.oneIn(3) {
			nl = "\r\n"
		}
		l1, l3 := g.word()+" "+g.word(), fmt.Sprintf("%s %d %d", g.word(), g.number(), g.number())
		switch g.Intn(8) {
		case 0:
			l1 = g.word()
		case 1:
			l1 = ""
		case 2:
			l3 = fmt.Sprintf("%s %d", g.word(), g.number())
		case 3:
			l3 = g.word()
		case 4:
			l3 = ""
		case 5:
			l3 = fmt.Sprintf("%s x%d %d", g.word(), g.number(), g.number())
		case 6:
			l3 = fmt.Sprintf("%s %d y", g.word(), g.number())
		}
		b := []byte(l1 + nl + remote() + nl + l3 + nl)
		if g.oneIn(3) {
			b = b[:g.Intn(len(b)+1)]
		}
		if g.oneIn(6) {
			b = g.damage(b)
		}
		g.hget(append(b, g.bytes(g.Intn(6))...))
	case 4:
		if g.oneIn(20) { // no line ever ends
			r := &someReader{inf: true}
			h := &peers.Handshake{}
			var n int64
			var err error
			pan := caught(func() { n, err = h.ReadFrom(r) })
			if r.used > 1<<20 { // nothing has stopped it
				err = nil
			}
			g.add(Ev{"e": "hget", "b": []int{}, "n": int(n), "used": r.used, "err": err != nil, "pan": pan, "h": hsEv(h)})
			return
		}
		g.hget(g.bytes(g.Intn(30)))
	}
}
