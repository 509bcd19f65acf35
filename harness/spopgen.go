package vharness

import (
	"bytes"
	"fmt"
	"math/rand"
	"strconv"
)

// Gen builds random values and frames.
type Gen struct {
	*rand.Rand
	uid int
	fid uint64

	pairs map[[2]uint64]bool // stream and frame ids in use
	scs   []*Script
	roomy bool // large frames are agreed on, and some answers use them
}

var edgeInts = []uint64{0, 1, 2, 100, 127, 128, 239, 240, 241, 255, 256, 257, 367, 368, 2047, 2048, 2287, 2288, 2289, 4095, 4096,
	16383, 16384, 65535, 65536, 264431, 264432, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 33818863, 33818864, 1 << 40,
	1<<56 - 1, 1 << 56, 1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1, ^uint64(239), ^uint64(240)}

func (g *Gen) chance(p float64) bool { return g.Float64() < p }

func (g *Gen) u64() uint64 {
	switch g.Intn(4) {
	case 0:
		return edgeInts[g.Intn(len(edgeInts))]
	case 1:
		return edgeInts[g.Intn(len(edgeInts))] + uint64(g.Intn(5)) - 2
	case 2:
		return g.Uint64() >> uint(g.Intn(64))
	}
	return uint64(g.Intn(300))
}

func (g *Gen) byteStr(max int) []byte {
	var n int
	switch g.Intn(6) {
	case 0:
		n = 0
	case 1:
		n = g.Intn(3)
	case 2, 3:
		n = g.Intn(20)
	case 4:
		n = 236 + g.Intn(10)
	default:
		n = g.Intn(max + 1)
	}
	n = min(n, max)
	b := make([]byte, n)
	mode := g.Intn(3)
	for i := range b {
		switch mode {
		case 0:
			b[i] = "abcdefghijklmnopqrstuvwxyz-_0123456789"[g.Intn(38)]
		case 1:
			b[i] = byte(g.Intn(256))
		default:
			b[i] = []byte{0, 1, 3, 8, 0x10, 0x11, 0x18, 0xf0, 0xff}[g.Intn(9)]
		}
	}
	return b
}

func (g *Gen) name() []byte {
	if g.chance(0.8) {
		return []byte(fmt.Sprintf("a%d", g.Intn(40)))
	}
	return g.byteStr(300)
}

func (g *Gen) kv() KV {
	k := KV{Name: g.name(), Type: g.Intn(10)}
	return g.fillKV(k)
}

func (g *Gen) fillKV(k KV) KV {
	switch k.Type {
	case tBool:
		k.B = g.Intn(2) == 0
	case tInt32:
		k.N = uint64(int64(int32(g.u64())))
	case tUint32:
		k.N = uint64(uint32(g.u64()))
	case tInt64, tUint64:
		k.N = g.u64()
	case tIPv4:
		k.S = make([]byte, 4)
		g.Read(k.S)
	case tIPv6:
		k.S = make([]byte, 16)
		if g.chance(0.3) {
			k.S[10], k.S[11] = 0xff, 0xff // IPv4-mapped
			g.Read(k.S[12:])
		} else {
			g.Read(k.S)
		}
	case tString, tBinary:
		k.S = g.byteStr(600)
	}
	return k
}

var callMethods = []string{"Unset", "SetString", "SetStringBytes", "SetBinary", "SetNull", "SetBool", "SetUInt32", "SetInt32", "SetInt64", "SetUInt64", "SetAddr"}

func (g *Gen) call() Call {
	c := Call{M: callMethods[g.Intn(len(callMethods))]}
	return g.fillCall(c)
}

func (g *Gen) fillCall(c Call) Call {
	a := Action{Scope: g.Intn(5)}
	k := KV{Name: g.name()}
	switch c.M {
	case "Unset":
		a.Unset = true
	case "SetString", "SetStringBytes":
		k.Type = tString
	case "SetBinary":
		k.Type = tBinary
	case "SetNull":
		k.Type = tNull
	case "SetBool":
		k.Type = tBool
	case "SetUInt32":
		k.Type = tUint32
	case "SetInt32":
		k.Type = tInt32
	case "SetInt64", "SetUInt64":
		k.Type = tInt64
	case "SetAddr":
		k.Type = tIPv4 + g.Intn(2)
		c.Bad = g.chance(0.2)
	}
	k = g.fillKV(k)
	switch c.M {
	case "SetUInt32", "SetInt32": // travel as 64 bit integers
		k.Type = tInt64
	}
	if c.Bad {
		k.S = nil
	}
	a.V = k
	c.Act = a
	return c
}

type msgOpt struct {
	maxArgs, maxCalls int
	block, panics     float64
	ctx               float64
}

// message creates a message with the script of its handler.
func (g *Gen) message(o msgOpt) *Script {
	g.uid++
	s := &Script{Uid: g.uid, Read: -1}
	s.Name = []byte(fmt.Sprintf("m%d", g.uid))
	if g.chance(0.2) {
		s.Name = append(s.Name, '.')
		s.Name = append(s.Name, g.byteStr(300)...)
	}
	for i := g.Intn(o.maxArgs + 1); i > 0; i-- {
		s.Args = append(s.Args, g.kv())
	}
	if g.chance(0.35) {
		s.Read = g.Intn(len(s.Args) + 1)
	}
	s.Block = g.chance(o.block)
	s.Late = g.chance(0.4)
	s.Keep = g.chance(0.6)
	s.Ctx = g.chance(o.ctx)
	s.Panic = g.chance(o.panics)
	if s.Panic {
		s.PanicV = g.Intn(16)
	}
	for i := g.Intn(o.maxCalls + 1); i > 0; i-- {
		s.Calls = append(s.Calls, g.call())
	}
	if n := len(s.Calls); n > 0 && n <= o.maxCalls && g.chance(0.15) {
		switch g.Intn(4) {
		case 0: // everything once more
			s.Calls = append(s.Calls, s.Calls...)
		case 1: // one of them right after itself
			i := g.Intn(n)
			s.Calls = append(s.Calls[:i+1], s.Calls[i:]...)
		case 2: // what an earlier message has set
			if len(g.scs) > 0 {
				s.Calls = append([]Call(nil), g.scs[g.Intn(len(g.scs))].Calls...)
			}
		default: // another value for the same name
			c := s.Calls[g.Intn(n)]
			x := g.call()
			x.Act.Scope, x.Act.V.Name = c.Act.Scope, c.Act.V.Name
			s.Calls = append(s.Calls, x)
		}
	}
	if g.roomy && g.chance(0.3) {
		v := bytes.Repeat([]byte{byte('A' + g.uid%26)}, 9000+g.Intn(70000))
		s.Calls = append(s.Calls, Call{M: "SetBinary", Act: Action{Scope: 3, V: KV{Name: []byte("large"), Type: tBinary, S: v}}})
	}
	g.scs = append(g.scs, s)
	return s
}

func putMsg(b []byte, s *Script) []byte {
	b = bput(b, s.Name)
	b = append(b, byte(len(s.Args)))
	for _, a := range s.Args {
		b = putKV(b, a)
	}
	return b
}

func (g *Gen) ids() (sid, fid uint64) {
	g.fid++
	fid = g.fid
	switch g.Intn(4) {
	case 0: // frames of one stream
		sid = 7
	case 1:
		sid = g.u64()
	default:
		sid = uint64(g.Intn(4))
	}
	switch {
	case g.chance(0.3): // unusual frame ids
		fid = g.fid<<40 | uint64(g.Intn(1000))
	case g.chance(0.4): // every stream numbers its frames
		fid = uint64(g.Intn(4))
	}
	for g.pairs[[2]uint64{sid, fid}] {
		sid = g.u64() + uint64(g.Intn(1000))
	}
	if g.pairs == nil {
		g.pairs = map[[2]uint64]bool{}
	}
	g.pairs[[2]uint64{sid, fid}] = true
	return
}

// sameIds gives frames of different connections the same ids.
func sameIds(g *Gen, sc *SScn) {
	switch sc.Fam {
	case "iso", "sched", "gate", "fault", "alias", "stress", "end":
	default:
		return
	}
	type ref struct {
		f *InFrame
		c int
	}
	var all []ref
	used := map[[3]string]bool{}
	for _, st := range sc.Steps {
		if st.Op != "send" {
			continue
		}
		for i := range st.Fs {
			f := &st.Fs[i]
			if f.Ev["k"] == "notify" && f.Ev["bad"] == false {
				all = append(all, ref{f, st.C})
				used[[3]string{strconv.Itoa(st.C), f.Ev["sid"].(string), f.Ev["fid"].(string)}] = true
			}
		}
	}
	for n := g.Intn(3) * len(all) / 4; n > 0; n-- {
		a, b := all[g.Intn(len(all))], all[g.Intn(len(all))]
		key := [3]string{strconv.Itoa(a.c), b.f.Ev["sid"].(string), b.f.Ev["fid"].(string)}
		if a.c == b.c || used[key] {
			continue
		}
		used[key] = true
		_, la, _ := vget(a.f.B[9:])
		_, ma, _ := vget(a.f.B[9+la:])
		sid, lb, _ := vget(b.f.B[9:])
		fid, _, _ := vget(b.f.B[9+lb:])
		a.f.B = putFrame(fNtfy, 1, sid, fid, a.f.B[9+la+ma:])
		ev := Ev{}
		for k, v := range a.f.Ev {
			ev[k] = v
		}
		ev["sid"], ev["fid"], ev["len"], ev["hdr"] = num(sid), num(fid), len(a.f.B)-4, 5+vlen(sid)+vlen(fid)
		a.f.Ev = ev
	}
}

func notifyEv(sid, fid uint64, plen int, ms []*Script, bad bool) Ev {
	msgs := []any{}
	for _, m := range ms {
		as := []string{}
		for _, a := range m.Args {
			as = append(as, a.canon())
		}
		msgs = append(msgs, Ev{"u": m.Uid, "nm": canonBytes(m.Name), "a": as})
	}
	return Ev{"k": "notify", "sid": num(sid), "fid": num(fid), "len": plen, "hdr": 5 + vlen(sid) + vlen(fid), "msgs": msgs, "bad": bad}
}

func (g *Gen) notify(ms ...*Script) InFrame {
	sid, fid := g.ids()
	return notifyWith(sid, fid, ms, nil, false)
}

func notifyWith(sid, fid uint64, ms []*Script, tail []byte, bad bool) InFrame {
	var p []byte
	for _, m := range ms {
		p = putMsg(p, m)
	}
	p = append(p, tail...)
	b := putFrame(fNtfy, 1, sid, fid, p)
	return InFrame{B: b, Ev: notifyEv(sid, fid, len(b)-4, ms, bad)}
}

// hello builds a HAPROXY-HELLO frame. typ < 0 leaves the size out.
func hello(typ int, size uint64, health int, extra ...KV) InFrame {
	var p []byte
	p = putKV(p, KV{Name: []byte("supported-versions"), Type: tString, S: []byte("2.0")})
	if typ >= 0 {
		k := KV{Name: []byte("max-frame-size"), Type: typ, N: size}
		if typ == tString || typ == tBinary {
			k.S = []byte(num(size))
		}
		p = putKV(p, k)
	}
	p = putKV(p, KV{Name: []byte("capabilities"), Type: tString, S: []byte("pipelining,async")})
	for _, k := range extra {
		p = putKV(p, k)
	}
	if health > 0 {
		p = putKV(p, KV{Name: []byte("healthcheck"), Type: tBool, B: health == 1})
	}
	b := putFrame(fHello, 1, 0, 0, p)
	isInt := typ >= tInt32 && typ <= tUint64
	big := size >= 1<<31
	lo := int(size & (1<<31 - 1))
	if typ == tUint32 || typ == tInt32 {
		size = uint64(uint32(size))
	}
	return InFrame{B: b, Ev: Ev{"k": "hello", "len": len(b) - 4, "int": isInt, "big": big, "lo": lo,
		"mfs": "u32:" + num(size), "health": health == 1, "ok": true}}
}

func stdHello(g *Gen) InFrame {
	ex := []KV{}
	if g.chance(0.7) {
		ex = append(ex, KV{Name: []byte("engine-id"), Type: tString, S: []byte("5A1B-engine")})
	}
	size := uint64(16380)
	if g.roomy {
		size = 300000
	}
	h := hello(tUint32, size, g.Intn(2)*2, ex...)
	if g.chance(0.3) {
		g.vary(&h)
	}
	return h
}

// vary changes what is of no importance in a HELLO: what else HAProxy supports
// and the order of the entries.
func (g *Gen) vary(f *InFrame) {
	in := getFrame(f.B[4:])
	kvs, ok := getKVs(in.Payload)
	if !ok {
		panic("not a hello")
	}
	pick := func(xs ...string) []byte { return []byte(xs[g.Intn(len(xs))]) }
	sizes := 0
	for i := range kvs {
		switch string(kvs[i].Name) {
		case "supported-versions":
			kvs[i].S = pick("2.0", "1.0,2.0", "2.0, 2.1", "2.0,3.0", "3.0,2.0", " 2.0", "2.0 ", "1.0, 1.5, 2.0, 9.9", "3.0", "2.1")
		case "capabilities":
			kvs[i].S = pick("", "async", "pipelining", "fragmentation", "pipelining,async,fragmentation", "unheard-of")
		case "max-frame-size":
			sizes++
		}
	}
	for i := g.Intn(3); i > 0; i-- { // what later versions may add
		k := g.kv()
		k.Name = append([]byte("x-"), k.Name...)
		kvs = append(kvs, k)
	}
	if sizes < 2 {
		g.Shuffle(len(kvs), func(i, j int) { kvs[i], kvs[j] = kvs[j], kvs[i] })
	}
	var p []byte
	for _, k := range kvs {
		p = putKV(p, k)
	}
	f.B = putFrame(fHello, 1, 0, 0, p)
	f.Ev["len"] = len(f.B) - 4
}

func disconnect(status uint64, msg string, extra ...KV) InFrame {
	var p []byte
	p = putKV(p, KV{Name: []byte("status-code"), Type: tUint32, N: status})
	p = putKV(p, KV{Name: []byte("message"), Type: tString, S: []byte(msg)})
	for _, k := range extra {
		p = putKV(p, k)
	}
	b := putFrame(fDisc, 1, 0, 0, p)
	return InFrame{B: b, Ev: Ev{"k": "disc", "len": len(b) - 4}}
}

func (g *Gen) cuts(total int) []int {
	var out []int
	switch g.Intn(5) {
	case 0: // byte by byte
		for i := 0; i < min(total, 400); i++ {
			out = append(out, 1)
		}
	case 1: // one cut
		out = append(out, 1+g.Intn(max(1, total)))
	case 2: // single segment
	default:
		for s := 0; s < total && len(out) < 300; {
			n := 1 + g.Intn(1+g.Intn(1+min(total, 200)))
			out = append(out, n)
			s += n
		}
	}
	return out
}

func flen(fs []InFrame) (n int) {
	for _, f := range fs {
		n += len(f.B)
	}
	return
}

func (g *Gen) sendStep(c int, fs ...InFrame) SStep {
	st := SStep{Op: "send", C: c, Fs: fs}
	if g.chance(0.5) {
		st.Cuts = g.cuts(flen(fs))
		if flen(fs) < 200 && g.chance(0.3) {
			st.N = 1
		}
		if g.chance(0.3) {
			st.Hold = 1 + g.Intn(3)
		}
	}
	return st
}

func newGen(seed int64) *Gen { return &Gen{Rand: rand.New(rand.NewSource(seed))} }

// ---- scenario families ----

var spopFamilies = map[string]func(*Gen) *SScn{
	"sched":  famSched,
	"gate":   famGate,
	"fault":  famFault,
	"end":    famEnd,
	"limit":  famLimit,
	"hello":  famHello,
	"seg":    famSeg,
	"stress": famStress,
	"alias":  famAlias,
	"iso":    famIso,
	"idle":   famIdle,
	"many":   famMany,
	"churn":  famChurn,
	"long":   famLong,
}

func (g *Gen) open(sc *SScn, n int) {
	for c := 1; c <= n; c++ {
		sc.Steps = append(sc.Steps, SStep{Op: "open", C: c}, g.sendStep(c, stdHello(g)))
	}
}

// large lets some scenarios use frames beyond the initial limit.
func (g *Gen) large() { g.roomy = g.chance(0.15) }

func (g *Gen) finish(sc *SScn) *SScn {
	sc.Scripts = g.scs
	return sc
}

// famSched: handlers that block, far more frames than workers and queue.
func famSched(g *Gen) *SScn {
	g.large()
	sc := &SScn{Fam: "sched"}
	n := 1 + g.Intn(3)
	g.open(sc, n)
	pPanic := []float64{0, 0, 0.2}[g.Intn(3)]
	for i := 8 + g.Intn(22); i > 0; i-- {
		switch g.Intn(5) {
		case 0, 1, 2:
			var fs []InFrame
			for j := 1 + g.Intn(4); j > 0; j-- {
				var ms []*Script
				for k := 1 + g.Intn(3); k > 0; k-- {
					ms = append(ms, g.message(msgOpt{maxArgs: 3, maxCalls: 3, block: 0.7, panics: pPanic}))
				}
				fs = append(fs, g.notify(ms...))
			}
			st := g.sendStep(1+g.Intn(n), fs...)
			st.NoQuiet = g.chance(0.3)
			sc.Steps = append(sc.Steps, st)
		default:
			st := SStep{Op: "releaseany", N: g.Intn(100)}
			if g.chance(0.1) {
				st.Op = "releaseall"
			}
			st.NoQuiet = g.chance(0.3)
			sc.Steps = append(sc.Steps, st)
		}
	}
	return g.finish(sc)
}

// famGate: every single write of the agent is held back and let go one by one.
func famGate(g *Gen) *SScn {
	g.large()
	sc := &SScn{Fam: "gate"}
	n := 1 + g.Intn(2)
	g.open(sc, n)
	for c := 1; c <= n; c++ {
		sc.Steps = append(sc.Steps, SStep{Op: "gate", C: c})
	}
	for i := 10 + g.Intn(25); i > 0; i-- {
		c := 1 + g.Intn(n)
		switch g.Intn(8) {
		case 0, 1, 2:
			var fs []InFrame
			for j := 1 + g.Intn(3); j > 0; j-- {
				var ms []*Script
				for k := 1 + g.Intn(2); k > 0; k-- {
					ms = append(ms, g.message(msgOpt{maxArgs: 2, maxCalls: 3, block: 0.3, panics: 0.05}))
				}
				fs = append(fs, g.notify(ms...))
			}
			sc.Steps = append(sc.Steps, g.sendStep(c, fs...))
		case 3:
			sc.Steps = append(sc.Steps, SStep{Op: "releaseany", N: g.Intn(100)})
		case 4, 5, 6:
			sc.Steps = append(sc.Steps, SStep{Op: "permit", C: c, N: 1})
		case 7:
			switch g.Intn(4) {
			case 0:
				sc.Steps = append(sc.Steps, SStep{Op: "permit", C: c, N: 2 + g.Intn(5)})
			case 1:
				sc.Steps = append(sc.Steps, g.sendStep(c, disconnect(0, "bye")))
			case 2:
				sc.Steps = append(sc.Steps, SStep{Op: "eof", C: c, Drop: g.chance(0.5)})
			default:
				sc.Steps = append(sc.Steps, SStep{Op: "werr", C: c, N: g.Intn(6)})
			}
		}
	}
	return g.finish(sc)
}

func (g *Gen) plain(block float64) InFrame {
	return g.notify(g.message(msgOpt{maxArgs: 3, maxCalls: 2, block: block}))
}

// badPayload returns a payload no message list can be decoded from, starting
// with the given well-formed messages.
func (g *Gen) badTail() []byte {
	one := putMsg(nil, &Script{Name: []byte("zz"), Args: []KV{
		{Name: []byte("k"), Type: tString, S: []byte("value")}, {Name: []byte("n"), Type: tInt64, N: 123456}, {Name: []byte("ip"), Type: tIPv6, S: make([]byte, 16)}}})
	switch g.Intn(8) {
	case 0: // cut off anywhere
		return one[:1+g.Intn(len(one)-1)]
	case 1: // unknown type
		return []byte{2, 'z', 'z', 1, 1, 'k', byte(10 + g.Intn(6)), 1, 2, 3}
	case 2: // huge name
		return append(vput(nil, 1<<uint(20+g.Intn(44))), 'z')
	case 3: // huge value
		return append(append([]byte{2, 'z', 'z', 1, 1, 'k', tString}, vput(nil, 1<<uint(10+g.Intn(54)))...), 'x', 'y')
	case 4: // more entries announced than there are
		return []byte{2, 'z', 'z', 3, 1, 'k', tNull}
	case 5: // name without count
		return []byte{2, 'z', 'z'}
	case 6: // unterminated varint
		return []byte{0xff, 0xff, 0xff}
	default: // truncated address
		return []byte{2, 'z', 'z', 1, 1, 'k', tIPv4, 1, 2}
	}
}

// badFrame is a frame after which the connection may or has to end.
func (g *Gen) fatalFrame() InFrame {
	switch g.Intn(4) {
	case 0: // length beyond the limit
		b := []byte{0xff, 0xff, 0xff, 0xff}
		if g.chance(0.5) {
			b = []byte{0x00, 0x00, 0x3f, 0xfd} // 16381, one more than negotiated
		}
		return InFrame{B: b, Ev: Ev{"k": "fatal", "len": 0}}
	case 1: // shorter than a header
		n := g.Intn(7)
		b := append([]byte{0, 0, 0, byte(n)}, []byte{3, 0, 0, 0, 1, 5, 6}[:n]...)
		return InFrame{B: b, Ev: Ev{"k": "fatal", "len": n}}
	case 2: // unterminated ids
		b := []byte{0, 0, 0, 8, 3, 0, 0, 0, 1, 0xff, 0xff, 0xff}
		return InFrame{B: b, Ev: Ev{"k": "fatal", "len": 8}}
	default:
		b := []byte{0, 0, 0, 7, 3, 0, 0, 0, 1, 1, 0xff}
		return InFrame{B: b, Ev: Ev{"k": "fatal", "len": 7}}
	}
}

func (g *Gen) unknownFrame() InFrame {
	typs := []byte{0, 4, 5, 50, 100, 101, 102, 103, 104, 200, 255}
	b := putFrame(typs[g.Intn(len(typs))], uint32(g.Intn(4)), g.u64(), g.u64(), g.byteStr(50))
	return InFrame{B: b, Ev: Ev{"k": "unknown", "len": len(b) - 4}}
}

// famFault: bad frames and failing connections next to healthy traffic.
func famFault(g *Gen) *SScn {
	sc := &SScn{Fam: "fault"}
	n := 2 + g.Intn(2)
	g.open(sc, n)
	for i := 8 + g.Intn(20); i > 0; i-- {
		c := 1 + g.Intn(n)
		if g.chance(0.5) {
			c = 1 // connection 1 gets most of the faults
		}
		var f InFrame
		switch g.Intn(12) {
		case 0, 1:
			f = g.plain(0.2)
		case 2, 3:
			f = g.notify(g.message(msgOpt{maxArgs: 2, maxCalls: 2, block: 0.2, panics: 1}))
		case 4, 5:
			var ms []*Script
			for k := g.Intn(3); k > 0; k-- {
				ms = append(ms, g.message(msgOpt{maxArgs: 2, maxCalls: 2}))
			}
			sid, fid := g.ids()
			f = notifyWith(sid, fid, ms, g.badTail(), true)
		case 6:
			f = g.unknownFrame()
		case 7:
			if g.chance(0.3) {
				f = stdHello(g)
				f.Ev["k"] = "hello2"
			} else {
				f = g.plain(0)
			}
		case 8:
			if g.chance(0.25) {
				f = g.fatalFrame()
			} else {
				f = g.notify()
			}
		case 9:
			if g.chance(0.25) {
				sc.Steps = append(sc.Steps, SStep{Op: "werr", C: c, N: g.Intn(8)})
				continue
			}
			f = g.plain(0.3)
		case 10:
			if g.chance(0.25) {
				op := []string{"eof", "reset", "rerr"}[g.Intn(3)]
				sc.Steps = append(sc.Steps, SStep{Op: op, C: c})
				continue
			}
			f = g.plain(0.3)
		case 11:
			sc.Steps = append(sc.Steps, SStep{Op: "releaseany", N: g.Intn(50)})
			continue
		}
		st := g.sendStep(c, f)
		st.NoQuiet = g.chance(0.2)
		sc.Steps = append(sc.Steps, st)
		if g.chance(0.3) {
			sc.Steps = append(sc.Steps, g.sendStep(n, g.plain(0)))
		}
	}
	return g.finish(sc)
}

// famEnd: connections end in every way while handlers run and frames wait.
func famEnd(g *Gen) *SScn {
	sc := &SScn{Fam: "end"}
	n := 1 + g.Intn(3)
	g.open(sc, n)
	few := g.chance(0.5)
	for i := g.Intn(8); i > 0; i-- {
		var fs []InFrame
		if few {
			i -= 3
		}
		for j := 1 + g.Intn(3); j > 0; j-- {
			if few {
				j = 1
			}
			fs = append(fs, g.notify(g.message(msgOpt{maxArgs: 2, maxCalls: 2, block: 0.6, ctx: 0.7})))
		}
		sc.Steps = append(sc.Steps, g.sendStep(1+g.Intn(n), fs...))
		if g.chance(0.3) {
			sc.Steps = append(sc.Steps, SStep{Op: "releaseany", N: g.Intn(50)})
		}
	}
	if g.chance(0.2) {
		sc.Steps = append(sc.Steps, SStep{Op: "releaseall"})
	}
	c := 1 + g.Intn(n)
	end := func(c int) {
		switch g.Intn(11) {
		case 0, 1, 2:
			st := []uint64{0, 0, 0, 1, 2, 3, 4, 10, 99, 1000}[g.Intn(10)]
			f := disconnect(st, "some reason")
			switch g.Intn(10) {
			case 0:
				f = disconnect(st, "", KV{Name: []byte("other"), Type: tNull})
			case 1:
				f.B = putFrame(fDisc, 1, 0, 0, nil)
			case 2:
				f.B = putFrame(fDisc, 1, 0, 0, []byte{11, 's', 't'})
			}
			sc.Steps = append(sc.Steps, g.sendStep(c, f))
		case 3, 4:
			sc.Steps = append(sc.Steps, SStep{Op: "eof", C: c, Drop: g.chance(0.5)})
		case 5:
			sc.Steps = append(sc.Steps, SStep{Op: "reset", C: c})
		case 6:
			// cut off within a frame
			b := g.plain(0).B
			sc.Steps = append(sc.Steps, SStep{Op: "send", C: c, Fs: []InFrame{{B: b[:1+g.Intn(len(b)-1)]}}}, SStep{Op: "eof", C: c, Drop: g.chance(0.5)})
		case 7:
			sc.Steps = append(sc.Steps, g.sendStep(c, g.fatalFrame()))
		case 8:
			sc.Steps = append(sc.Steps, SStep{Op: "cancel"})
		case 9, 10: // the program serves another listener
			sc.Steps = append(sc.Steps, SStep{Op: "lfail"})
			if g.chance(0.8) {
				sc.Steps = append(sc.Steps, SStep{Op: "serve"})
			}
		}
	}
	if g.chance(0.3) { // HAProxy does not read any more
		sc.Steps = append(sc.Steps, SStep{Op: "gate", C: c})
		if g.chance(0.5) {
			sc.Steps = append(sc.Steps, g.sendStep(c, g.plain(0.2)))
		}
		if g.chance(0.5) {
			sc.Steps = append(sc.Steps, SStep{Op: []string{"eof", "reset"}[g.Intn(2)], C: c, Drop: g.chance(0.5)})
		}
	}
	end(c)
	if g.chance(0.15) {
		sc.Steps = append(sc.Steps, SStep{Op: "oddconn"})
		if n < 3 {
			n++
			sc.Steps = append(sc.Steps, SStep{Op: "open", C: n}, g.sendStep(n, stdHello(g)))
		}
	}
	for i := g.Intn(3); i > 0; i-- {
		sc.Steps = append(sc.Steps, SStep{Op: "releaseany", N: g.Intn(50)})
	}
	if g.chance(0.5) {
		o := 1 + g.Intn(n)
		sc.Steps = append(sc.Steps, g.sendStep(o, g.plain(0)))
	}
	if g.chance(0.4) {
		end(1 + g.Intn(n))
	}
	sc.Steps = append(sc.Steps, SStep{Op: "releaseall"})
	if g.chance(0.5) {
		// a new connection still works
		m := n + 1
		sc.Steps = append(sc.Steps, SStep{Op: "open", C: m}, g.sendStep(m, stdHello(g)), g.sendStep(m, g.plain(0)))
		if g.chance(0.5) {
			sc.Steps = append(sc.Steps, g.sendStep(m, disconnect(0, "normal")))
		}
	}
	return g.finish(sc)
}

// famLimit: frames around the negotiated size in both directions.
func famLimit(g *Gen) *SScn {
	sc := &SScn{Fam: "limit"}
	sizes := []int{256, 257, 300, 500, 1024, 4096, 16380, 65534, 65535, 65536, 65537, 70000, 131072}
	n := 1 + g.Intn(2)
	for c := 1; c <= n; c++ {
		lim := sizes[g.Intn(len(sizes))]
		if g.chance(0.2) {
			lim = 256 + g.Intn(3000)
		}
		typ := []int{tUint32, tUint32, tInt32, tInt64, tUint64}[g.Intn(5)]
		sc.Steps = append(sc.Steps, SStep{Op: "open", C: c})
		ex := []KV{}
		if g.chance(0.15) { // a HELLO of exactly the initial limit
			pad := KV{Name: []byte("pad"), Type: tBinary}
			base := len(hello(typ, uint64(lim), 0, pad).B) - 4
			want := 65535 + g.Intn(2)
			pad.S = bytes.Repeat([]byte{'p'}, want-base-(vlen(uint64(want-base-3))-1))
			ex = append(ex, pad)
		}
		h := hello(typ, uint64(lim), 0, ex...)
		if len(h.B)-4 > 65535 {
			h.Ev["k"] = "fatal"
		}
		sc.Steps = append(sc.Steps, SStep{Op: "send", C: c, Fs: []InFrame{h}})
		if g.chance(0.15) { // another HELLO changes nothing, if it does not end the connection
			f := hello(typ, []uint64{256, 300, 2 * uint64(lim), 200000}[g.Intn(4)], 0)
			f.Ev["k"] = "hello2"
			sc.Steps = append(sc.Steps, g.sendStep(c, f))
		}
		for i := 2 + g.Intn(5); i > 0; i-- {
			m := g.message(msgOpt{maxArgs: 1, maxCalls: 1, block: 0.1})
			sid, fid := g.ids()
			hdr := 5 + vlen(sid) + vlen(fid)
			if g.chance(0.6) {
				// an ACK of a length near the limit
				m.Calls = nil
				want := lim - 2 + g.Intn(5)
				if g.chance(0.2) {
					want = lim + g.Intn(2*lim)
				}
				a := Action{Scope: 2, V: KV{Name: []byte("v"), Type: tBinary}}
				if g.chance(0.5) {
					pre := Call{M: "SetString", Act: Action{Scope: 1, V: KV{Name: []byte("first"), Type: tString, S: g.byteStr(60)}}}
					m.Calls = append(m.Calls, pre)
					hdr += len(putAction(nil, pre.Act))
				}
				fit(&a.V.S, want, func() int { return hdr + len(putAction(nil, a)) })
				m.Calls = append(m.Calls, Call{M: "SetBinary", Act: a})
			}
			f := notifyWith(sid, fid, []*Script{m}, nil, false)
			if g.chance(0.6) {
				// a NOTIFY of a length near the limit
				want := lim - 2 + g.Intn(3)
				if i == 1 {
					want = lim + g.Intn(3)
				}
				m.Args = append(m.Args, KV{Name: []byte("big"), Type: tBinary})
				p := &m.Args[len(m.Args)-1].S
				fit(p, want, func() int { return len(notifyWith(sid, fid, []*Script{m}, nil, false).B) - 4 })
				f = notifyWith(sid, fid, []*Script{m}, nil, false)
			}
			sc.Steps = append(sc.Steps, g.sendStep(c, f))
			if g.chance(0.2) {
				sc.Steps = append(sc.Steps, SStep{Op: "releaseall"})
			}
		}
	}
	return g.finish(sc)
}

// fit pads *p until size() is want, or as close as the length encoding allows.
func fit(p *[]byte, want int, size func() int) {
	n := want - size()
	if n <= 0 {
		return
	}
	for ; n >= 0; n-- {
		*p = bytes.Repeat([]byte{'x'}, n)
		if size() <= want {
			return
		}
	}
}

// famHello: first frames of every kind.
func famHello(g *Gen) *SScn {
	sc := &SScn{Fam: "hello"}
	n := 1 + g.Intn(4)
	for c := 1; c <= n; c++ {
		sc.Steps = append(sc.Steps, SStep{Op: "open", C: c})
		var fs []InFrame
		switch g.Intn(10) {
		case 0, 1, 2: // any offer of any type
			typs := []int{-1, tNull, tBool, tInt32, tUint32, tInt64, tUint64, tString, tUint32, tUint32, tInt64, tUint64}
			typ := typs[g.Intn(len(typs))]
			v := []uint64{0, 1, 100, 255, 256, 257, 1000, 16380, 65535, 65536, 1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1000, 1 << 63, 1<<64 - 1}[g.Intn(18)]
			if typ == tInt32 {
				v = uint64(int64(int32(v)))
			} else if typ == tUint32 {
				v = uint64(uint32(v))
			}
			h := hello(typ, v, g.Intn(3))
			if g.chance(0.4) {
				g.vary(&h)
			}
			fs = append(fs, h)
		case 3: // something else first
			fs = append(fs, g.plain(0))
		case 4:
			fs = append(fs, disconnect(0, "x"))
		case 5:
			fs = append(fs, g.unknownFrame())
		case 6: // cut off or broken key-value list
			h := hello(tUint32, 16380, 0)
			p := getFrame(h.B[4:]).Payload
			k := 1 + g.Intn(len(p)-1)
			_, whole := getKVs(p[:k])
			if whole {
				k--
			}
			b := putFrame(fHello, 1, 0, 0, p[:k])
			fs = append(fs, InFrame{B: b, Ev: Ev{"k": "hello", "len": len(b) - 4, "int": false, "big": false, "lo": 0, "mfs": "", "health": false, "ok": false}})
		case 7:
			h := hello(tUint32, 16380, 1) // health check
			if g.chance(0.4) {
				g.vary(&h)
			}
			fs = append(fs, h)
		case 8:
			f := g.fatalFrame()
			for f.B[2] == 0x3f { // is within the limit before the handshake
				f = g.fatalFrame()
			}
			fs = append(fs, f)
		default:
			fs = append(fs, stdHello(g))
		}
		for i := g.Intn(3); i > 0; i-- {
			switch g.Intn(6) {
			case 0:
				f := hello(tUint32, uint64(1000+g.Intn(5)), g.Intn(3))
				f.Ev["k"] = "hello2"
				fs = append(fs, f)
			default:
				fs = append(fs, g.plain(0.2))
			}
		}
		if g.chance(0.5) {
			sc.Steps = append(sc.Steps, g.sendStep(c, fs...))
		} else {
			for _, f := range fs {
				sc.Steps = append(sc.Steps, g.sendStep(c, f))
			}
		}
	}
	return g.finish(sc)
}

// famSeg: the same traffic cut in every way.
func famSeg(g *Gen) *SScn {
	sc := &SScn{Fam: "seg"}
	n := 1 + g.Intn(2)
	for c := 1; c <= n; c++ {
		sc.Steps = append(sc.Steps, SStep{Op: "open", C: c})
		fs := []InFrame{stdHello(g)}
		for i := 1 + g.Intn(4); i > 0; i-- {
			switch g.Intn(6) {
			case 0:
				fs = append(fs, g.unknownFrame())
			case 1:
				sid, fid := g.ids()
				fs = append(fs, notifyWith(sid, fid, nil, g.badTail(), true))
			default:
				var ms []*Script
				for k := 1 + g.Intn(3); k > 0; k-- {
					ms = append(ms, g.message(msgOpt{maxArgs: 3, maxCalls: 2}))
				}
				fs = append(fs, g.notify(ms...))
			}
		}
		if g.chance(0.2) {
			fs = append(fs, disconnect(0, "bye"))
		}
		st := SStep{Op: "send", C: c, Fs: fs, Cuts: g.cuts(flen(fs))}
		if g.chance(0.4) && flen(fs) < 600 {
			st.N = 1
		}
		sc.Steps = append(sc.Steps, st)
	}
	return g.finish(sc)
}

// famAlias: handlers hold on to their message while many other frames are
// read, handled and answered.
func famAlias(g *Gen) *SScn {
	sc := &SScn{Fam: "alias"}
	n := 1 + g.Intn(2)
	g.open(sc, n)
	for r := 1 + g.Intn(3); r > 0; r-- {
		// one blocked handler
		m := g.message(msgOpt{maxArgs: 6, maxCalls: 4})
		m.Block, m.Keep, m.Late = true, true, g.chance(0.5)
		m.Read = -1
		ms := []*Script{m}
		if g.chance(0.6) {
			l := g.message(msgOpt{maxArgs: 6, maxCalls: 2})
			l.Keep = true
			ms = append(ms, l)
		}
		sc.Steps = append(sc.Steps, g.sendStep(1+g.Intn(n), g.notify(ms...)))
		for i := 2 + g.Intn(6); i > 0; i-- {
			var x []*Script
			for k := 1 + g.Intn(3); k > 0; k-- {
				x = append(x, g.message(msgOpt{maxArgs: 6, maxCalls: 4, panics: 0.1}))
			}
			f := g.notify(x...)
			if g.chance(0.15) {
				sid, fid := g.ids()
				f = notifyWith(sid, fid, nil, g.badTail(), true)
			}
			sc.Steps = append(sc.Steps, g.sendStep(1+g.Intn(n), f))
		}
		if g.chance(0.7) {
			sc.Steps = append(sc.Steps, SStep{Op: "release", U: m.Uid})
		}
	}
	return g.finish(sc)
}

// famStress: many connections and frames without any waiting in between.
func famStress(g *Gen) *SScn {
	g.large()
	sc := &SScn{Fam: "stress", Free: true, Yield: true}
	n := 1 + g.Intn(4)
	for c := 1; c <= n; c++ {
		sc.Steps = append(sc.Steps, SStep{Op: "open", C: c}, SStep{Op: "send", C: c, Fs: []InFrame{stdHello(g)}})
	}
	for i := 6 + g.Intn(14); i > 0; i-- {
		var fs []InFrame
		for j := 1 + g.Intn(6); j > 0; j-- {
			var ms []*Script
			for k := 1 + g.Intn(2); k > 0; k-- {
				s := g.message(msgOpt{maxArgs: 3, maxCalls: 3, panics: 0.03})
				s.Yields = g.Intn(3)
				ms = append(ms, s)
			}
			fs = append(fs, g.notify(ms...))
		}
		st := SStep{Op: "send", C: 1 + g.Intn(n), Fs: fs}
		if g.chance(0.5) {
			st.Cuts = g.cuts(flen(fs))
		}
		sc.Steps = append(sc.Steps, st)
		switch g.Intn(12) {
		case 0:
			sc.Steps = append(sc.Steps, SStep{Op: "eof", C: 1 + g.Intn(n), Drop: g.chance(0.5)})
		case 1:
			sc.Steps = append(sc.Steps, g.sendStep(1+g.Intn(n), disconnect(0, "")))
		case 2, 3:
			sc.Steps = append(sc.Steps, SStep{Op: "quiet"})
		default:
			sc.Steps = append(sc.Steps, SStep{Op: "yield", N: g.Intn(20)})
		}
	}
	return g.finish(sc)
}

// famIdle: nothing happens for hours, in virtual time.
func famIdle(g *Gen) *SScn {
	if g.chance(0.2) {
		return famStall(g)
	}
	sc := mk(famSched, famFault, famEnd, famHello, famSeg, famAlias, famLimit)[g.Intn(7)](g)
	var out []SStep
	sleep := func() {
		out = append(out, SStep{Op: "sleep", N: mk(900, 1100, 5100, 10500, 31000, 61000, 310000, 3700000, 90000000)[g.Intn(9)]})
	}
	for _, st := range sc.Steps {
		if st.Op == "gate" { // virtual time does not go on while mutexes are waited for
			continue
		}
		out = append(out, st)
		if g.chance(0.25) {
			sleep()
		}
	}
	sleep()
	sc.Steps = out
	return sc
}

// famStall: HAProxy takes its time to read an answer. There is never more than
// one answer under way on a connection then, see famIdle.
func famStall(g *Gen) *SScn {
	sc := &SScn{Fam: "idle"}
	add := func(st SStep) { sc.Steps = append(sc.Steps, st) }
	sleep := func() {
		add(SStep{Op: "sleep", N: mk(1100, 5100, 10500, 31000, 61000, 310000, 3700000, 90000000)[g.Intn(8)]})
	}
	n := 1 + g.Intn(2)
	g.open(sc, n)
	for i := 1 + g.Intn(3); i > 0; i-- {
		c := 1 + g.Intn(n)
		add(SStep{Op: "gate", C: c})
		add(g.sendStep(c, g.notify(g.message(msgOpt{maxArgs: 2, maxCalls: 3}), g.message(msgOpt{maxArgs: 2, maxCalls: 3}))))
		for k := g.Intn(4); k > 0; k-- {
			sleep()
			add(SStep{Op: "permit", C: c, N: 1})
		}
		sleep()
		if n > 1 && g.chance(0.5) {
			add(g.sendStep(3-c, g.plain(0)))
		}
		add(SStep{Op: "ungate", C: c})
		add(SStep{Op: "quiet"})
		add(g.sendStep(c, g.plain(0), g.plain(0)))
		add(SStep{Op: "quiet"})
	}
	for i := range sc.Steps {
		sc.Steps[i].Hold = 0
	}
	return g.finish(sc)
}

// famMany: far more connections at once than in the other families.
func famMany(g *Gen) *SScn {
	sc := &SScn{Fam: "many", Free: true}
	n := mk(70, 140, 270)[g.Intn(3)]
	add := func(st SStep) { sc.Steps = append(sc.Steps, st) }
	for c := 1; c <= n; c++ {
		add(SStep{Op: "open", C: c})
		if g.chance(0.9) {
			add(g.sendStep(c, stdHello(g)))
		}
	}
	add(SStep{Op: "quiet"})
	// none of them is idle, but few handlers block
	for c := 1; c <= n; c++ {
		if f := g.plain(0.01); g.chance(0.5) {
			add(g.sendStep(c, f))
		}
	}
	add(SStep{Op: "quiet"})
	for i := 0; i < 20; i++ {
		add(g.sendStep(1+g.Intn(n), g.plain(0)))
	}
	add(SStep{Op: "quiet"})
	if g.chance(0.5) {
		add(SStep{Op: "releaseall"})
	}
	for c := 1; c <= n; c++ {
		if g.chance(0.3) {
			add(SStep{Op: mk("eof", "reset", "rerr")[g.Intn(3)], C: c})
		}
	}
	add(SStep{Op: "quiet"})
	add(SStep{Op: "open", C: n + 1})
	add(g.sendStep(n+1, stdHello(g), g.plain(0)))
	add(SStep{Op: "quiet"})
	return g.finish(sc)
}

// allWorkers: a healthy connection on which as many handlers as there are
// workers block.
func (g *Gen) allWorkers(sc *SScn, c int) {
	sc.Steps = append(sc.Steps, SStep{Op: "releaseall"}, SStep{Op: "open", C: c}, g.sendStep(c, stdHello(g)))
	var us []int
	for i := 0; i < 20; i++ {
		f := g.plain(1)
		us = append(us, g.uid)
		sc.Steps = append(sc.Steps, g.sendStep(c, f))
	}
	sc.Steps = append(sc.Steps, SStep{Op: "quiet"})
	for _, u := range us {
		sc.Steps = append(sc.Steps, SStep{Op: "release", U: u})
	}
	sc.Steps = append(sc.Steps, SStep{Op: "quiet"})
}

// famChurn: connections come and go in every way, one after the other; what
// the last one gets is the same as always.
func famChurn(g *Gen) *SScn {
	sc := &SScn{Fam: "churn", Free: true}
	n := mk(40, 90, 150)[g.Intn(3)]
	only := g.Intn(14) // often all of them end in the same way
	add := func(st SStep) { sc.Steps = append(sc.Steps, st) }
	for c := 1; c <= n; c++ {
		how := only
		if only > 10 {
			how = g.Intn(11)
		}
		add(SStep{Op: "open", C: c})
		if how != 8 && how != 9 {
			add(g.sendStep(c, stdHello(g)))
			if g.chance(0.3) {
				add(g.sendStep(c, g.plain(0)))
			}
		}
		add(SStep{Op: "yield", N: g.Intn(30)})
		switch how {
		case 0, 1:
			add(SStep{Op: mk("eof", "reset", "rerr")[g.Intn(3)], C: c})
		case 2:
			add(g.sendStep(c, disconnect(0, "normal")))
		case 3:
			add(g.sendStep(c, g.fatalFrame()))
		case 4:
			add(g.sendStep(c, g.notify(g.message(msgOpt{maxArgs: 2, maxCalls: 2, panics: 1}))))
		case 5:
			sid, fid := g.ids()
			add(g.sendStep(c, notifyWith(sid, fid, nil, g.badTail(), true)))
		case 6:
			add(SStep{Op: "werr", C: c, N: g.Intn(8)})
			add(g.sendStep(c, g.plain(0)))
		case 7:
			add(g.sendStep(c, g.unknownFrame()))
		case 8:
			add(g.sendStep(c, hello(tUint32, 16380, 1)))
		case 9:
			f := g.fatalFrame()
			for len(f.B) == 4 && f.B[0] == 0 { // fine before the handshake
				f = g.fatalFrame()
			}
			add(g.sendStep(c, mk(g.plain(0), hello(tUint32, 100, 0), f)[g.Intn(3)]))
		case 10:
			add(g.sendStep(c, g.notify(g.message(msgOpt{maxArgs: 2, block: 1, ctx: 1}))))
			add(SStep{Op: "eof", C: c, Drop: true})
		}
		if c%(n/4) == 0 {
			add(SStep{Op: "quiet"})
		}
	}
	add(SStep{Op: "quiet"})
	g.allWorkers(sc, n+1)
	return g.finish(sc)
}

// famLong: very many frames on one connection.
func famLong(g *Gen) *SScn {
	sc := &SScn{Fam: "long", Free: true, Yield: g.chance(0.5)}
	g.open(sc, 2)
	n := mk(140, 270, 520)[g.Intn(3)]
	pPanic, pBad := 0.0, 0.0
	switch g.Intn(3) {
	case 0:
		pPanic = 0.9
	case 1:
		pPanic, pBad = 0.1, 0.1
	}
	for n > 0 {
		var fs []InFrame
		for i := 1 + g.Intn(40); i > 0; i-- {
			n--
			switch {
			case g.chance(pBad):
				sid, fid := g.ids()
				fs = append(fs, notifyWith(sid, fid, nil, g.badTail(), true))
			case g.chance(pBad):
				fs = append(fs, g.unknownFrame())
			default:
				fs = append(fs, g.notify(g.message(msgOpt{maxArgs: 1, maxCalls: 1, panics: pPanic})))
			}
		}
		st := g.sendStep(1, fs...)
		st.C = 1 + g.Intn(10)/9
		sc.Steps = append(sc.Steps, st, SStep{Op: "yield", N: g.Intn(20)})
		if g.chance(0.2) {
			sc.Steps = append(sc.Steps, SStep{Op: "quiet"})
		}
	}
	g.allWorkers(sc, 3)
	return g.finish(sc)
}
