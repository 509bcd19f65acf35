package vharness

// Calls of the codecs (pkg/encoding, pkg/buffer, peers/sticktable), recorded
// with everything that went in and came out.

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net/netip"
	"reflect"
	"strings"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"github.com/dropmorepackets/haproxy-go/pkg/buffer"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/spop"
)

type cgen struct {
	*rand.Rand
	ev []Ev

	// used again by the frames of a run
	lastHello *spop.AgentHelloFrame
	lastAck   *spop.AckFrame
	capArr    []string
}

func (g *cgen) add(e Ev) { g.ev = append(g.ev, e) }

func (g *cgen) oneIn(n int) bool { return g.Intn(n) == 0 }

// limbs is the form the specification gives 64 bit integers.
func limbs(v uint64) []int {
	return []int{int(v & 0xffff), int(v >> 16 & 0xffff), int(v >> 32 & 0xffff), int(v >> 48)}
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, c := range b {
		r[i] = int(c)
	}
	return r
}

// caught runs f and reports whether it panicked.
func caught(f func()) (pan bool) {
	defer func() {
		if recover() != nil {
			pan = true
		}
	}()
	f()
	return false
}

// guarded returns a slice of n bytes whose array continues, and a function
// that tells whether what follows, or precedes, has been left alone.
func guarded(n int) ([]byte, func() bool) {
	const pad = 24
	a := make([]byte, n+2*pad)
	for i := range a {
		a[i] = 0xA5
	}
	return a[pad : pad+n], func() bool {
		for i, c := range a {
			if (i < pad || i >= pad+n) && c != 0xA5 {
				return false
			}
		}
		return true
	}
}

// exposed returns a copy of b that is followed by other bytes in its array.
func (g *cgen) exposed(b []byte) []byte {
	a := make([]byte, len(b)+16)
	copy(a, b)
	for i := len(b); i < len(a); i++ {
		a[i] = byte(g.Intn(4))
	}
	return a[:len(b)]
}

func (g *cgen) u64() uint64 {
	switch g.Intn(6) {
	case 0:
		return uint64(g.Intn(300))
	case 1: // around a power of two
		return uint64(1)<<g.Intn(64) + uint64(g.Intn(5)) - 2
	case 2: // around the lengths of the encoding
		v := uint64(240)
		for i := g.Intn(10); i > 0; i-- {
			if v == 240 {
				v += 128 << 4
			} else {
				v += (v - 240) << 7
			}
		}
		return v + uint64(g.Intn(35)) - 17
	case 3:
		return math.MaxUint64 - uint64(g.Intn(20))
	}
	return g.Uint64() >> g.Intn(64)
}

func (g *cgen) str(max int) []byte {
	n := g.Intn(6)
	switch g.Intn(40) {
	case 0:
		n = 235 + g.Intn(12)
	case 1:
		n = g.Intn(60)
	case 2:
		if max > 2300 {
			n = 2280 + g.Intn(20)
		}
	}
	if n > max {
		n = max
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.Intn(256))
		if g.oneIn(2) {
			b[i] = "ab\x00\xf0\xff\x01"[g.Intn(6)]
		}
	}
	return b
}

var smallNames = []string{"a", "b", "ab", "", "key", "a\x00"}

func (g *cgen) name() []byte {
	if g.oneIn(3) {
		return g.str(300)
	}
	return []byte(smallNames[g.Intn(len(smallNames))])
}

func (g *cgen) kv() KV {
	k := KV{Name: g.name(), Type: g.Intn(10)}
	switch k.Type {
	case tBool:
		k.B = g.oneIn(2)
	case tInt32:
		k.N = uint64(int64(int32(g.u64())))
	case tUint32:
		k.N = uint64(uint32(g.u64()))
	case tInt64, tUint64:
		k.N = g.u64()
	case tIPv4:
		k.S = g.bytes(4)
	case tIPv6:
		k.S = g.bytes(16)
		if g.oneIn(4) { // IPv4 in IPv6
			copy(k.S, []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff})
		}
	case tString, tBinary:
		k.S = g.str(2400)
	}
	return k
}

func (g *cgen) bytes(n int) []byte {
	b := make([]byte, n)
	g.Read(b)
	return b
}

// damage cuts or alters an encoding.
func (g *cgen) damage(b []byte) []byte {
	b = append([]byte(nil), b...)
	switch g.Intn(6) {
	case 0, 1:
		if len(b) > 0 {
			b = b[:g.Intn(len(b))]
		}
	case 2:
		if len(b) > 0 {
			b[g.Intn(len(b))] = byte(g.Intn(256))
		}
	case 3:
		if len(b) > 0 {
			b[g.Intn(len(b))] = []byte{0, 1, 239, 240, 255, 128}[g.Intn(6)]
		}
	case 4:
		i := g.Intn(len(b) + 1)
		b = append(b[:i:i], append(g.str(8), b[i:]...)...)
	case 5: // a length that is not backed by anything
		i := g.Intn(len(b) + 1)
		b = append(b[:i:i], vput(nil, g.u64())...)
	}
	return b
}

// ---------------------------------------------------------------- varint

func (g *cgen) varint() {
	for i := 0; i < 12; i++ {
		v := g.u64()
		enc := vput(nil, v)
		for c := 0; c <= len(enc)+1; c++ {
			if c > 0 && c < len(enc)-1 && g.oneIn(2) {
				continue
			}
			g.vput(v, c)
		}
		for c := 0; c <= len(enc); c++ {
			if c > 0 && c < len(enc)-1 && g.oneIn(2) {
				continue
			}
			g.vget(g.exposed(enc[:c]))
		}
		g.vget(append(append([]byte(nil), enc...), g.str(5)...))
		b := g.damage(enc)
		g.vget(b)
		g.vget(append([]byte{byte(240 + g.Intn(16))}, g.bytes(g.Intn(12))...))
	}
}

func (g *cgen) vput(v uint64, c int) {
	buf, ok := guarded(c)
	var n int
	var err error
	pan := caught(func() { n, err = encoding.PutVarint(buf, v) })
	out := []int{}
	if !pan && err == nil && n >= 0 && n <= len(buf) {
		out = ints(buf[:n])
	}
	g.add(Ev{"e": "vput", "v": limbs(v), "cap": c, "n": n, "err": err != nil, "pan": pan, "out": out, "guard": ok()})
}

func (g *cgen) vget(b []byte) {
	var v uint64
	var n int
	var err error
	pan := caught(func() { v, n, err = encoding.Varint(b) })
	g.add(Ev{"e": "vget", "src": "buf", "b": ints(b), "v": limbs(v), "n": n, "err": err != nil, "pan": pan})

	r := bytes.NewReader(b)
	var br io.ByteReader = r
	left := func() int { return r.Len() }
	if g.oneIn(3) {
		br, left = &oneByte{b: b}, nil
	} else if g.oneIn(3) {
		bu := bufio.NewReader(r)
		br = bu
		left = func() int { return bu.Buffered() + r.Len() }
	}
	v, err = 0, nil
	pan = caught(func() { v, err = encoding.ReadVarint(br) })
	if o, is := br.(*oneByte); is {
		n = o.i
	} else {
		n = len(b) - left()
	}
	g.add(Ev{"e": "vget", "src": "stream", "b": ints(b), "v": limbs(v), "n": n, "err": err != nil, "pan": pan})
}

// oneByte is an io.ByteReader and nothing else.
type oneByte struct {
	b []byte
	i int
}

func (o *oneByte) ReadByte() (byte, error) {
	if o.i >= len(o.b) {
		return 0, io.ErrUnexpectedEOF
	}
	o.i++
	return o.b[o.i-1], nil
}

// ---------------------------------------------------------------- scanners

type kscan struct {
	g *cgen
	s *encoding.KVScanner
	e *encoding.KVEntry
}

func goVal(v any) (string, []int, []int) {
	z, no := limbs(0), []int{}
	switch x := v.(type) {
	case nil:
		return "nil", z, no
	case bool:
		if x {
			return "bool", limbs(1), no
		}
		return "bool", z, no
	case int32:
		return "int32", limbs(uint64(int64(x))), no
	case uint32:
		return "uint32", limbs(uint64(x)), no
	case int64:
		return "int64", limbs(uint64(x)), no
	case uint64:
		return "uint64", limbs(x), no
	case netip.Addr:
		return "netip.Addr", z, ints(x.AsSlice())
	case string:
		return "string", z, ints([]byte(x))
	case []byte:
		return "[]uint8", z, ints(x)
	}
	return fmt.Sprintf("%T", v), z, no
}

func (k *kscan) next() bool {
	g := k.g
	var ret, err, vb bool
	var rem, t int
	gt, gn, gs := "", limbs(0), []int{}
	nm, vs, vi := []int{}, []int{}, limbs(0)
	pan := caught(func() {
		ret = k.s.Next(k.e)
		err = k.s.Error() != nil
		rem = k.s.RemainingBuf()
		if ret {
			nm = ints(k.e.NameBytes())
			t = int(k.e.Type())
			vb = k.e.ValueBool()
			vi = limbs(uint64(k.e.ValueInt()))
			vs = ints(k.e.ValueBytes())
			gt, gn, gs = goVal(k.e.Value())
			if t == tIPv4 || t == tIPv6 {
				gs = ints(k.e.ValueAddr().AsSlice())
			}
		}
	})
	g.add(Ev{"e": "knext", "ret": ret, "err": err, "rem": rem, "nm": nm, "t": t, "vb": vb, "vi": vi, "vs": vs, "g": gt, "gn": gn, "gs": gs, "pan": pan})
	if ret && !pan && g.oneIn(2) {
		s := append([]byte(nil), k.e.NameBytes()...)
		switch g.Intn(4) {
		case 0:
			s = g.name()
		case 1:
			s = append(s, 'a')
		case 2:
			if len(s) > 0 {
				s[g.Intn(len(s))] ^= 1 << g.Intn(8)
			}
		}
		var eq bool
		f := g.Intn(3)
		pan := caught(func() {
			switch f {
			case 0:
				eq = k.e.NameEquals(string(s))
			case 1:
				eq = k.e.NameEqualBytes(s)
			case 2:
				eq = k.e.NameEqualUnsafe(string(s))
			}
		})
		g.add(Ev{"e": "kname", "f": f, "s": ints(s), "ret": eq, "pan": pan})
	}
	return ret && !pan
}

func (k *kscan) discard() {
	var err error
	var rem int
	pan := caught(func() { err = k.s.Discard(); rem = k.s.RemainingBuf() })
	k.g.add(Ev{"e": "kdisc", "err": err != nil, "rem": rem, "pan": pan})
}

// steps reads on, in some way, up to the end or not.
func (k *kscan) steps(end bool) {
	g := k.g
	if g.oneIn(8) && !end {
		return
	}
	more := true
	for i := g.Intn(12); i > 0 && more; i-- {
		more = k.next()
	}
	if g.oneIn(2) || end {
		k.discard()
	}
	for i := g.Intn(3); i > 0; i-- {
		k.next()
	}
}

func (g *cgen) kvlist() ([]byte, int) {
	n := g.Intn(6)
	if g.oneIn(30) {
		n = 20
	}
	var b []byte
	for i := 0; i < n; i++ {
		b = putKV(b, g.kv())
	}
	return b, n
}

func (g *cgen) kvs() {
	for i := 0; i < 6; i++ {
		b, n := g.kvlist()
		switch g.Intn(8) {
		case 0:
			n = -1
		case 1:
			n = g.Intn(n + 1)
		case 2:
			n += 1 + g.Intn(3)
		case 3:
			b = append(b, g.str(10)...)
		}
		if g.oneIn(3) {
			b = g.damage(b)
		}
		g.scan(b, n)
	}
}

func (g *cgen) scan(b []byte, n int) {
	b = g.exposed(b)
	g.add(Ev{"e": "knew", "b": ints(b), "n": n})
	k := &kscan{g: g}
	if g.oneIn(2) {
		k.s = encoding.AcquireKVScanner(b, n)
		defer encoding.ReleaseKVScanner(k.s)
	} else {
		k.s = encoding.NewKVScanner(b, n)
	}
	k.e = encoding.AcquireKVEntry()
	defer encoding.ReleaseKVEntry(k.e)
	k.steps(false)
}

// kvx: every string over a small alphabet that makes entries of all kinds
// likely.
func (g *cgen) kvx(seed int, i int) {
	alpha := []byte{0, 1, 2, 8, 9, 17, 240, 6}
	const batch = 40
	total := 0
	for l := 0; l <= 5; l++ {
		total += pow(len(alpha), l)
	}
	base := (i*batch + seed*7919) % total
	for j := 0; j < batch; j++ {
		x := (base + j) % total
		l := 0
		for p := 1; x >= p; p *= len(alpha) {
			x -= p
			l++
		}
		b := make([]byte, l)
		for q := range b {
			b[q] = alpha[x%len(alpha)]
			x /= len(alpha)
		}
		n := []int{-1, 0, 1, 2, 3}[g.Intn(5)]
		g.add(Ev{"e": "knew", "b": ints(b), "n": n})
		k := &kscan{g: g, s: encoding.NewKVScanner(g.exposed(b), n), e: encoding.AcquireKVEntry()}
		for k.next() {
		}
		k.next()
		encoding.ReleaseKVEntry(k.e)
	}
}

func pow(a, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= a
	}
	return r
}

func (g *cgen) msgs() {
	for i := 0; i < 5; i++ {
		var b []byte
		for j := g.Intn(5); j > 0; j-- {
			kvs, n := g.kvlist()
			b = append(append(bput(b, g.name()), byte(n)), kvs...)
		}
		if g.oneIn(25) {
			kv := putKV(nil, KV{Name: []byte("x"), Type: tBool, B: true})
			b = append(bput(b, []byte("m")), 255)
			b = append(b, bytes.Repeat(kv, 255)...)
			b = append(bput(b, []byte("n")), 0)
		}
		if g.oneIn(3) {
			b = g.damage(b)
		}
		b = g.exposed(b)
		g.add(Ev{"e": "mnew", "b": ints(b)})
		var s *encoding.MessageScanner
		if g.oneIn(2) {
			s = encoding.AcquireMessageScanner(b)
		} else {
			s = encoding.NewMessageScanner(b)
		}
		m := encoding.AcquireMessage()
		e := encoding.AcquireKVEntry()
		for j := 0; j < 12; j++ {
			var ret, err bool
			nm, rem := []int{}, 0
			pan := caught(func() {
				ret = s.Next(m)
				err = s.Error() != nil
				if ret {
					nm = ints(m.NameBytes())
					rem = m.KV.RemainingBuf()
				}
			})
			g.add(Ev{"e": "mnext", "ret": ret, "err": err, "nm": nm, "rem": rem, "pan": pan})
			if pan {
				break
			}
			if !ret {
				if g.oneIn(2) || j > 8 {
					break
				}
				continue
			}
			k := &kscan{g: g, s: m.KV, e: e}
			if g.oneIn(12) {
				k.steps(false)
			} else if g.oneIn(3) {
				for k.next() {
				}
			} else {
				k.steps(true)
			}
		}
		encoding.ReleaseKVEntry(e)
		encoding.ReleaseMessage(m)
		if g.oneIn(2) {
			encoding.ReleaseMessageScanner(s)
		}
	}
}

// ---------------------------------------------------------------- writers

var invalidAddr netip.Addr

// val is the value of a setter call.
type val struct {
	k   string
	vb  bool
	n   uint64
	s   []byte
	a   netip.Addr
	inv bool
}

func (g *cgen) setVal(unset bool) val {
	kinds := []string{"null", "bool", "int32", "uint32", "int64", "uint64", "addr", "string", "binary", "unset"}
	n := len(kinds)
	if !unset {
		n--
	}
	v := val{k: kinds[g.Intn(n)], s: []byte{}}
	switch v.k {
	case "bool":
		v.vb = g.oneIn(2)
	case "int32":
		v.n = uint64(int64(int32(g.u64())))
	case "uint32":
		v.n = uint64(uint32(g.u64()))
	case "int64", "uint64":
		v.n = g.u64()
	case "addr":
		switch g.Intn(6) {
		case 0:
			v.inv = true
		case 1:
			v.s = append([]byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff}, g.bytes(4)...)
		case 2, 3:
			v.s = g.bytes(16)
		default:
			v.s = g.bytes(4)
		}
		if !v.inv {
			v.a, _ = netip.AddrFromSlice(v.s)
			if len(v.s) == 16 && g.oneIn(6) {
				v.a = v.a.WithZone("eth0")
			}
		}
	case "string", "binary":
		v.s = g.str(2400)
	}
	return v
}

func (v val) ev(e string, nm []byte) Ev {
	return Ev{"e": e, "k": v.k, "nm": ints(nm), "vb": v.vb, "vi": limbs(v.n), "vs": ints(v.s), "inv": v.inv}
}

func (g *cgen) actions() {
	for i := 0; i < 3; i++ {
		size := []int{0, 0, 1, 3, 16, 40, 300, 3000}[g.Intn(8)]
		off := 0
		if size > 0 && g.oneIn(2) {
			off = g.Intn(size + 1)
		}
		data := g.bytes(size)
		var buf []byte
		if size > 0 || g.oneIn(2) {
			buf = append(make([]byte, 0, size+g.Intn(3)*8), data...)
		}
		g.add(Ev{"e": "anew", "d": ints(data[:off]), "cap": size})
		var w *encoding.ActionWriter
		if g.oneIn(2) {
			w = encoding.AcquireActionWriter(buf, off)
		} else {
			w = encoding.NewActionWriter(buf, off)
		}
		for j := g.Intn(9); j >= 0; j-- {
			v := g.setVal(true)
			nm := g.name()
			sc := g.Intn(5)
			if !g.actSet(w, sc, nm, v) {
				break
			}
			// neither the name nor the value may be kept
			for i := range v.s {
				v.s[i] ^= 0x55
			}
			for i := range nm {
				nm[i] ^= 0x55
			}
		}
		if g.oneIn(2) {
			encoding.ReleaseActionWriter(w)
		}
	}
}

func (g *cgen) actSet(w *encoding.ActionWriter, sc int, nm []byte, v val) bool {
	scope := encoding.VarScopeProcess
	switch sc {
	case 1:
		scope = encoding.VarScopeSession
	case 2:
		scope = encoding.VarScopeTransaction
	case 3:
		scope = encoding.VarScopeRequest
	case 4:
		scope = encoding.VarScopeResponse
	}
	e := v.ev("aset", nm)
	var err error
	out, o := []int{}, 0
	pan := caught(func() {
		name := string(nm)
		switch v.k {
		case "unset":
			err = w.Unset(scope, name)
		case "null":
			err = w.SetNull(scope, name)
		case "bool":
			err = w.SetBool(scope, name, v.vb)
		case "int32":
			err = w.SetInt32(scope, name, int32(v.n))
		case "uint32":
			err = w.SetUInt32(scope, name, uint32(v.n))
		case "int64":
			err = w.SetInt64(scope, name, int64(v.n))
		case "uint64":
			err = w.SetUInt64(scope, name, v.n)
		case "addr":
			err = w.SetAddr(scope, name, v.a)
		case "string":
			if g.oneIn(2) {
				err = w.SetStringBytes(scope, name, v.s)
			} else {
				err = w.SetString(scope, name, string(v.s))
			}
		case "binary":
			err = w.SetBinary(scope, name, v.s)
		}
		o = w.Off()
		out = ints(w.Bytes())
	})
	e["sc"], e["err"], e["off"], e["out"], e["pan"] = sc, err != nil, o, out, pan
	g.add(e)
	return !pan
}

func kvLen(nm []byte, v val) int {
	l := vlen(uint64(len(nm))) + len(nm) + 1
	switch v.k {
	case "int32", "uint32", "int64", "uint64":
		l += vlen(v.n)
	case "addr":
		l += len(v.s)
	case "string", "binary":
		l += vlen(uint64(len(v.s))) + len(v.s)
	}
	return l
}

func (g *cgen) kvwriter() {
	for i := 0; i < 8; i++ {
		type call struct {
			nm []byte
			v  val
		}
		var calls []call
		total := 0
		for j := g.Intn(5); j >= 0; j-- {
			c := call{g.name(), g.setVal(false)}
			if g.oneIn(3) && len(c.v.s) > 20 {
				c.v.s = c.v.s[:4]
				if c.v.k == "addr" {
					c.v.a, _ = netip.AddrFromSlice(c.v.s)
				}
			}
			calls = append(calls, c)
			total += kvLen(c.nm, c.v)
		}
		// every amount of space that is lacking
		size := total - g.Intn(total+1)
		if g.oneIn(2) {
			last := calls[len(calls)-1]
			size = total - g.Intn(kvLen(last.nm, last.v)+1)
		} else if g.oneIn(4) {
			size = total + g.Intn(5)
		}
		off := 0
		if g.oneIn(3) {
			off = g.Intn(20)
			size += off
		}
		buf, ok := guarded(size)
		copy(buf, g.bytes(off))
		g.add(Ev{"e": "wnew", "d": ints(buf[:off]), "cap": size})
		var w *encoding.KVWriter
		if g.oneIn(2) {
			w = encoding.AcquireKVWriter(buf, off)
		} else {
			w = encoding.NewKVWriter(buf, off)
		}
		for _, c := range calls {
			if !g.kvwSet(w, c.nm, c.v, ok) {
				break
			}
		}
		encoding.ReleaseKVWriter(w)
	}
}

func (g *cgen) kvwSet(w *encoding.KVWriter, nm []byte, v val, ok func() bool) bool {
	e := v.ev("wset", nm)
	var err error
	out, o := []int{}, 0
	pan := caught(func() {
		name := string(nm)
		switch v.k {
		case "null":
			err = w.SetNull(name)
		case "bool":
			err = w.SetBool(name, v.vb)
		case "int32":
			err = w.SetInt32(name, int32(v.n))
		case "uint32":
			err = w.SetUInt32(name, uint32(v.n))
		case "int64":
			err = w.SetInt64(name, int64(v.n))
		case "uint64":
			err = w.SetUInt64(name, v.n)
		case "addr":
			err = w.SetAddr(name, v.a)
		case "string":
			err = w.SetString(name, string(v.s))
		case "binary":
			err = w.SetBinary(name, v.s)
		}
		o = w.Off()
		out = ints(w.Bytes())
	})
	e["err"], e["off"], e["out"], e["pan"], e["guard"] = err != nil, o, out, pan, ok()
	g.add(e)
	return !pan
}

// ---------------------------------------------------------------- unmarshal

var unTypes = map[string]reflect.Type{
	"string": reflect.TypeOf(""), "bytes": reflect.TypeOf([]byte(nil)), "bool": reflect.TypeOf(false),
	"int32": reflect.TypeOf(int32(0)), "uint32": reflect.TypeOf(uint32(0)), "int64": reflect.TypeOf(int64(0)), "uint64": reflect.TypeOf(uint64(0)),
	"addr": reflect.TypeOf(netip.Addr{}),
}

var unKinds = []string{"string", "bytes", "bool", "int32", "uint32", "int64", "uint64", "addr"}

func fieldVal(v reflect.Value) Ev {
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return Ev{"nil": true, "n": limbs(0), "s": []int{}}
		}
		v = v.Elem()
	}
	if b, is := unTypes[kindOfType(v.Type())]; is {
		v = v.Convert(b) // a named type holds what its underlying type holds
	}
	_, n, s := goVal(v.Interface())
	return Ev{"nil": false, "n": n, "s": s}
}

func (g *cgen) setField(v reflect.Value) {
	if v.Kind() == reflect.Pointer {
		if g.oneIn(2) {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		v = v.Elem()
	}
	b, is := unTypes[kindOfType(v.Type())]
	if !is {
		return
	}
	switch v.Convert(b).Interface().(type) {
	case string:
		v.SetString("before" + string(g.str(8)))
	case []byte:
		v.SetBytes(g.bytes(3 + g.Intn(9)))
	case bool:
		v.SetBool(g.oneIn(2))
	case int32, int64:
		v.SetInt(int64(int32(g.u64())))
	case uint32, uint64:
		v.SetUint(uint64(uint32(g.u64())))
	case netip.Addr:
		v.Set(reflect.ValueOf(netip.AddrFrom4([4]byte(g.bytes(4)))))
	}
}

func (g *cgen) unmarshal() {
	for i := 0; i < 5; i++ {
		nf := g.Intn(6)
		keys := []string{"a", "b", "ab", "key", "status-code", "client_ip", "x"}
		g.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		var fs []reflect.StructField
		fev := []Ev{}
		kindOf := map[string]string{}
		for j := 0; j < nf; j++ {
			kind := unKinds[g.Intn(len(unKinds))]
			t := unTypes[kind]
			ptr := g.oneIn(3)
			if ptr {
				t = reflect.PointerTo(t)
			}
			f := reflect.StructField{Name: fmt.Sprintf("F%d", j), Type: t}
			key, tagged := "", true
			switch g.Intn(12) {
			case 0:
				tagged = false
			case 1:
				f.Tag, tagged = `spoe:"-"`, false
			case 2:
				f.Tag, tagged = `json:"a"`, false
			case 3:
				f.Tag, tagged = `spoe:",omitempty"`, false
			case 4:
				key = keys[j]
				f.Tag = reflect.StructTag(`json:"zz" spoe:"` + key + `,omitempty,x"`)
			default:
				key = keys[j]
				f.Tag = reflect.StructTag(`spoe:"` + key + `"`)
			}
			if tagged {
				kindOf[key] = kind
			}
			fs = append(fs, f)
			fev = append(fev, Ev{"key": ints([]byte(key)), "k": kind, "ptr": ptr, "tag": tagged})
		}
		layout := reflect.StructOf(fs)
		if g.oneIn(3) {
			layout, fev, kindOf = named[g.Intn(len(named))](), []Ev{}, map[string]string{}
			nf = layout.NumField()
			for j := 0; j < nf; j++ {
				f := layout.Field(j)
				key, _, _ := strings.Cut(f.Tag.Get("spoe"), ",")
				tagged := key != "" && key != "-"
				t := f.Type
				if t.Kind() == reflect.Pointer {
					t = t.Elem()
				}
				kind := kindOfType(t)
				if tagged && kind != "other" {
					kindOf[key] = kind
				}
				fev = append(fev, Ev{"key": ints([]byte(key)), "k": kind, "ptr": t != f.Type, "tag": tagged})
			}
		}
		st := reflect.New(layout)
		for j := 0; j < nf; j++ {
			g.setField(st.Elem().Field(j))
		}
		var b []byte
		n := g.Intn(7)
		fitAll := !g.oneIn(4)
		for j := 0; j < n; j++ {
			k := g.kv()
			k.Name = []byte(keys[g.Intn(len(keys))])
			if kind, is := kindOf[string(k.Name)]; is && fitAll {
				for !fitsKind(kind, k.Type) {
					nm := k.Name
					k = g.kv()
					k.Name = nm
				}
			}
			b = putKV(b, k)
		}
		if g.oneIn(8) {
			b = g.damage(b)
		}
		if g.oneIn(8) {
			n = []int{-1, n + 1, g.Intn(n + 1)}[g.Intn(3)]
		}
		b = g.exposed(b)
		in := ints(b)
		valsOf := func(v reflect.Value) []Ev {
			r := []Ev{}
			for j := 0; j < nf; j++ {
				r = append(r, fieldVal(v.Elem().Field(j)))
			}
			return r
		}
		vals := func() []Ev { return valsOf(st) }
		bef := vals()
		// someone still uses what the struct held before
		was := reflect.New(st.Elem().Type())
		was.Elem().Set(st.Elem())
		s := encoding.AcquireKVScanner(b, n)
		var err error
		pan := caught(func() { err = s.Unmarshal(st.Interface()) })
		aft := vals()
		for j := range b[:cap(b)] {
			b[:cap(b)][j] ^= 0x55
		}
		g.add(Ev{"e": "un", "b": in, "n": n, "f": fev, "bef": bef, "aft": aft, "later": vals(), "kept": valsOf(was), "err": err != nil, "pan": pan})
		encoding.ReleaseKVScanner(s)
	}
}

func fitsKind(kind string, t int) bool {
	switch kind {
	case "string":
		return t == tString
	case "bytes":
		return t == tString || t == tBinary
	case "bool":
		return t == tBool
	case "int32":
		return t == tInt32
	case "uint32":
		return t == tUint32
	case "int64":
		return t == tInt64
	case "uint64":
		return t == tUint64
	case "addr":
		return t == tIPv4 || t == tIPv6
	}
	return false
}

// ---------------------------------------------------------------- stick tables

var freqTypes = map[int]bool{3: true, 5: true, 8: true, 10: true, 12: true, 14: true, 16: true, 18: true, 21: true, 26: true}

func (g *cgen) def() *sticktable.Definition {
	d := &sticktable.Definition{StickTableID: g.u64(), Name: string(g.name()), Expiry: g.u64()}
	d.KeyType = []sticktable.KeyType{2, 4, 5, 6, 7}[g.Intn(5)]
	switch d.KeyType {
	case 4:
		d.KeyLength = 4
	case 5:
		d.KeyLength = 16
	case 7:
		d.KeyLength = uint64(g.Intn(20))
		if g.oneIn(10) {
			d.KeyLength = uint64(100 + g.Intn(900))
		}
	case 2:
		d.KeyLength = 4
	default:
		d.KeyLength = uint64(g.Intn(300))
	}
	p := g.Intn(4)
	for t := 0; t <= 26; t++ {
		if t >= 22 && t <= 24 || p == 0 || !g.oneIn(1+2*p) {
			continue
		}
		dt := sticktable.DataTypeDefinition{DataType: sticktable.DataType(t)}
		if freqTypes[t] {
			dt.Counter, dt.Period = g.u64(), g.u64()
		}
		d.DataTypes = append(d.DataTypes, dt)
	}
	return d
}

func defEv(d *sticktable.Definition) Ev {
	ts := []Ev{}
	for _, t := range d.DataTypes {
		ts = append(ts, Ev{"t": int(t.DataType), "c": limbs(t.Counter), "p": limbs(t.Period)})
	}
	return Ev{"id": limbs(d.StickTableID), "nm": ints([]byte(d.Name)), "kt": limbs(uint64(d.KeyType)), "kl": limbs(d.KeyLength), "ts": ts, "ex": limbs(d.Expiry)}
}

func (g *cgen) key(d *sticktable.Definition) sticktable.MapKey {
	switch d.KeyType {
	case sticktable.KeyTypeSignedInteger:
		k := sticktable.SignedIntegerKey(int32(g.u64()))
		return &k
	case sticktable.KeyTypeIPv4Address:
		a := netip.AddrFrom4([4]byte(g.bytes(4)))
		k := sticktable.IPv4AddressKey(a)
		return &k
	case sticktable.KeyTypeIPv6Address:
		b := g.bytes(16)
		if g.oneIn(4) { // an IPv4 address
			copy(b, []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff})
		}
		a := netip.AddrFrom16([16]byte(b))
		k := sticktable.IPv6AddressKey(a)
		return &k
	case sticktable.KeyTypeString:
		k := sticktable.StringKey(g.str(300))
		return &k
	case sticktable.KeyTypeBinary:
		k := sticktable.BinaryKey(g.bytes(int(d.KeyLength)))
		if g.oneIn(4) {
			k = k[:g.Intn(len(k)+1)]
		}
		return &k
	}
	return nil
}

func keyEv(k sticktable.MapKey) Ev {
	n, s := limbs(0), []int{}
	switch k := k.(type) {
	case *sticktable.SignedIntegerKey:
		n = limbs(uint64(int64(*k)))
	case *sticktable.IPv4AddressKey:
		a := netip.Addr(*k)
		s = ints(a.AsSlice())
	case *sticktable.IPv6AddressKey:
		a := netip.Addr(*k)
		s = ints(a.AsSlice())
	case *sticktable.StringKey:
		s = ints([]byte(*k))
	case *sticktable.BinaryKey:
		s = ints(*k)
	}
	return Ev{"n": n, "s": s}
}

func (g *cgen) data(t sticktable.DataType) sticktable.MapData {
	switch d := t.New().(type) {
	case *sticktable.SignedIntegerData:
		*d = sticktable.SignedIntegerData(int32(g.u64()))
		return d
	case *sticktable.UnsignedIntegerData:
		*d = sticktable.UnsignedIntegerData(uint32(g.u64()))
		return d
	case *sticktable.UnsignedLongLongData:
		*d = sticktable.UnsignedLongLongData(g.u64())
		return d
	case *sticktable.FreqData:
		*d = sticktable.FreqData{CurrentTick: g.u64(), CurrentPeriod: g.u64(), LastPeriod: g.u64()}
		return d
	case *sticktable.DictData:
		switch g.Intn(4) {
		case 0:
		case 1: // one that the peer has sent before
			d.ID = g.u64()
		default:
			d.ID = 1 + g.u64()>>1
			d.Value = g.str(300)
		}
		if d.ID != 0 && g.oneIn(2) {
			d.ID = 1 + uint64(g.Intn(4))
		}
		return d
	}
	return nil
}

func dataEv(m sticktable.MapData) Ev {
	e := Ev{"n": limbs(0), "p": limbs(0), "q": limbs(0), "s": []int{}}
	switch d := m.(type) {
	case *sticktable.SignedIntegerData:
		e["n"] = limbs(uint64(int64(*d)))
	case *sticktable.UnsignedIntegerData:
		e["n"] = limbs(uint64(*d))
	case *sticktable.UnsignedLongLongData:
		e["n"] = limbs(uint64(*d))
	case *sticktable.FreqData:
		e["n"], e["p"], e["q"] = limbs(d.CurrentTick), limbs(d.CurrentPeriod), limbs(d.LastPeriod)
	case *sticktable.DictData:
		e["n"], e["s"] = limbs(d.ID), ints(d.Value)
	default:
		e["n"] = []int{-1}
	}
	return e
}

func entEv(u *sticktable.EntryUpdate) Ev {
	ds := []Ev{}
	for _, d := range u.Data {
		ds = append(ds, dataEv(d))
	}
	return Ev{"wid": u.WithLocalUpdateID, "id": limbs(uint64(u.LocalUpdateID)), "wex": u.WithExpiry, "ex": limbs(uint64(u.Expiry)), "key": keyEv(u.Key), "data": ds}
}

// caps to try for an encoding of l bytes
func (g *cgen) caps(l int) []int {
	r := []int{l, l + g.Intn(9)}
	for i := 0; i < 3 && l > 0; i++ {
		r = append(r, g.Intn(l))
	}
	if l > 0 {
		r = append(r, l-1, 0)
	}
	return r
}

func (g *cgen) marshal(e string, more Ev, l int, src func() Ev, f func([]byte) (int, error)) []byte {
	var good []byte
	for _, c := range g.caps(l) {
		buf, ok := guarded(c)
		before := fmt.Sprint(src())
		var n int
		var err error
		pan := caught(func() { n, err = f(buf) })
		out := []int{}
		if !pan && err == nil && n >= 0 && n <= len(buf) {
			out = ints(buf[:n])
			good = append([]byte(nil), buf[:n]...)
		}
		ev := Ev{"e": e, "cap": c, "n": n, "err": err != nil, "pan": pan, "out": out, "guard": ok(), "changed": fmt.Sprint(src()) != before}
		for k, v := range more {
			ev[k] = v
		}
		g.add(ev)
	}
	return good
}

func (g *cgen) defs() {
	for i := 0; i < 3; i++ {
		d := g.def()
		enc := encDef(d)
		g.marshal("dput", Ev{"d": defEv(d)}, len(enc), func() Ev { return defEv(d) }, d.Marshal)
		g.dget(enc, false)
		g.dget(append(append([]byte(nil), enc...), g.str(6)...), false)
		for j := 0; j < 4; j++ {
			g.dget(enc[:g.Intn(len(enc))], false)
			g.dget(g.damage(enc), false)
		}
	}
}

func (g *cgen) dget(b []byte, arr bool) {
	b = g.exposed(b)
	var d sticktable.Definition
	var n int
	var err error
	in := ints(b)
	pan := caught(func() { n, err = d.Unmarshal(b) })
	for j := range b {
		b[j] ^= 0x55
	}
	g.add(Ev{"e": "dget", "b": in, "d": defEv(&d), "n": n, "err": err != nil, "pan": pan, "arr": arr})
}

func encDef(d *sticktable.Definition) []byte {
	b := vput(nil, d.StickTableID)
	b = bput(b, []byte(d.Name))
	b = vput(b, uint64(d.KeyType))
	b = vput(b, d.KeyLength)
	var bits uint64
	for _, t := range d.DataTypes {
		bits |= 1 << uint(t.DataType)
	}
	b = vput(b, bits)
	b = vput(b, d.Expiry)
	for _, t := range d.DataTypes {
		if freqTypes[int(t.DataType)] {
			b = vput(vput(b, t.Counter), t.Period)
		}
	}
	return b
}

func encData(b []byte, m sticktable.MapData) []byte {
	switch d := m.(type) {
	case *sticktable.SignedIntegerData:
		return vput(b, uint64(int64(*d)))
	case *sticktable.UnsignedIntegerData:
		return vput(b, uint64(*d))
	case *sticktable.UnsignedLongLongData:
		return vput(b, uint64(*d))
	case *sticktable.FreqData:
		return vput(vput(vput(b, d.CurrentTick), d.CurrentPeriod), d.LastPeriod)
	case *sticktable.DictData:
		if d.ID == 0 && len(d.Value) == 0 {
			return append(b, 0)
		}
		in := vput(nil, d.ID)
		if len(d.Value) > 0 {
			in = bput(in, d.Value)
		}
		return bput(b, in)
	}
	panic("data")
}

func be32(b []byte, v uint32) []byte {
	return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

func encKey(b []byte, d *sticktable.Definition, k sticktable.MapKey) []byte {
	switch k := k.(type) {
	case *sticktable.SignedIntegerKey:
		return be32(b, uint32(*k))
	case *sticktable.IPv4AddressKey:
		a := netip.Addr(*k)
		return append(b, a.AsSlice()...)
	case *sticktable.IPv6AddressKey:
		a := netip.Addr(*k)
		return append(b, a.AsSlice()...)
	case *sticktable.StringKey:
		return bput(b, []byte(*k))
	case *sticktable.BinaryKey:
		b = append(b, *k...)
		return append(b, make([]byte, int(d.KeyLength)-len(*k))...)
	}
	panic("key")
}

func encEntry(u *sticktable.EntryUpdate) []byte {
	var b []byte
	if u.WithLocalUpdateID {
		b = be32(b, u.LocalUpdateID)
	}
	if u.WithExpiry {
		b = be32(b, u.Expiry)
	}
	b = encKey(b, u.StickTable, u.Key)
	for _, m := range u.Data {
		b = encData(b, m)
	}
	return b
}

func (g *cgen) entries() {
	for i := 0; i < 3; i++ {
		d := g.def()
		u := &sticktable.EntryUpdate{StickTable: d, WithLocalUpdateID: g.oneIn(2), WithExpiry: g.oneIn(2), Key: g.key(d)}
		if u.WithLocalUpdateID {
			u.LocalUpdateID = uint32(g.u64())
		}
		if u.WithExpiry {
			u.Expiry = uint32(g.u64())
		}
		for _, t := range d.DataTypes {
			u.Data = append(u.Data, g.data(t.DataType))
		}
		enc := encEntry(u)
		g.marshal("eput", Ev{"d": defEv(d), "u": entEv(u)}, len(enc), func() Ev { return entEv(u) }, u.Marshal)
		g.eget(d, u, enc)
		g.eget(d, u, append(append([]byte(nil), enc...), g.str(6)...))
		for j := 0; j < 4; j++ {
			g.eget(d, u, enc[:g.Intn(len(enc)+1)])
			g.eget(d, u, g.damage(enc))
		}
		if g.oneIn(4) {
			d2 := *d
			d2.KeyType = sticktable.KeyType([]int{0, 1, 3, 8, 9, 200}[g.Intn(6)])
			g.eget(&d2, u, enc)
		}
	}
}

func (g *cgen) eget(d *sticktable.Definition, u *sticktable.EntryUpdate, b []byte) {
	b = g.exposed(b)
	id0 := uint32(g.u64())
	r := &sticktable.EntryUpdate{StickTable: d, WithLocalUpdateID: u.WithLocalUpdateID, WithExpiry: u.WithExpiry, LocalUpdateID: id0}
	var n int
	var err error
	pan := caught(func() { n, err = r.Unmarshal(b) })
	var res Ev
	if pan || err != nil {
		res = Ev{"wid": false}
	} else {
		res = entEv(r)
	}
	g.add(Ev{"e": "eget", "d": defEv(d), "wid": u.WithLocalUpdateID, "wex": u.WithExpiry, "id0": limbs(uint64(id0)), "b": ints(b), "u": res, "n": n, "err": err != nil, "pan": pan})
}

// arrays: the definition of a table that stores gpt, gpc or gpc_rate arrays,
// each followed by its data type, its number of elements and, for rates, its
// period.
func (g *cgen) arrays() {
	b := vput(nil, 1)
	b = bput(b, []byte("tab"))
	b = vput(vput(b, 4), 4)
	b = vput(b, 1<<22)
	b = vput(b, 60000)
	b = vput(vput(b, 22), 3)
	g.dget(b, true)
}

// ---------------------------------------------------------------- slice buffer

func (g *cgen) bufOp(b *buffer.SliceBuffer, o string, n int, d []byte) {
	e := Ev{"e": "buf", "o": o, "n": n, "d": ints(d), "q": []int{}, "len": 0, "wl": 0, "out": []int{}, "nlen": 0}
	e["pan"] = caught(func() {
		switch o {
		case "write":
			copy(b.WriteBytes(), d)
			b.AdvanceW(len(d))
		case "writen":
			w := b.WriteNBytes(len(d))
			e["nlen"] = len(w)
			copy(w, d)
		case "readn":
			e["out"] = ints(b.ReadNBytes(n))
		case "advr":
			b.AdvanceR(n)
		case "back":
			b.AdvanceR(-n)
		case "grow":
			b.Grow(n)
		case "reset":
			b.Reset()
		}
		e["q"] = ints(b.ReadBytes())
		e["len"] = b.Len()
		e["wl"] = len(b.WriteBytes())
	})
	g.add(e)
}

func (g *cgen) slicebuf() {
	for i := 0; i < 3; i++ {
		var b *buffer.SliceBuffer
		read := 0
		if g.oneIn(3) {
			d := g.bytes(g.Intn(12))
			b = buffer.NewSliceBufferWithSlice(append([]byte(nil), d...))
			g.bufOp(b, "with", 0, d)
		} else {
			n := []int{0, 1, 4, 16, 100}[g.Intn(5)]
			b = buffer.NewSliceBuffer(n)
			g.bufOp(b, "new", n, nil)
		}
		for j := 0; j < 25; j++ {
			room, l := len(b.WriteBytes()), b.Len()
			switch g.Intn(8) {
			case 0, 1:
				g.bufOp(b, []string{"write", "writen"}[g.Intn(2)], 0, g.bytes(g.Intn(min(room, 20)+1)))
			case 2:
				n := g.Intn(l + 1)
				read += n
				g.bufOp(b, "readn", n, nil)
			case 3:
				n := g.Intn(l + 1)
				read += n
				g.bufOp(b, "advr", n, nil)
			case 4:
				n := g.Intn(read + 1)
				read -= n
				g.bufOp(b, "back", n, nil)
			case 5, 6:
				g.bufOp(b, "grow", g.Intn(room+20), nil)
				if last := g.ev[len(g.ev)-1]; last["pan"] == true {
					return
				}
			case 7:
				if g.oneIn(3) {
					read = 0
					g.bufOp(b, "reset", 0, nil)
				}
			}
		}
	}
}

// script replays a sequence of calls found by TLC in Codec.tla.
func (g *cgen) script(ops [][]any) {
	num := func(x any) int { return int(x.(float64)) }
	str := func(x any) []byte {
		b := []byte{}
		for _, c := range x.([]any) {
			b = append(b, byte(num(c)))
		}
		return b
	}
	setVal := func(kind string, str int, addr int) val {
		v := val{k: kind, s: []byte{}, vb: true}
		switch kind {
		case "string":
			v.s = []byte{5, 6, 7}[:str]
		case "int64":
			v.n = 5000
		case "addr":
			for i := 1; i <= addr; i++ {
				v.s = append(v.s, byte(i))
			}
			v.a, _ = netip.AddrFromSlice(v.s)
		case "inv":
			v.k, v.inv = "addr", true
		}
		return v
	}
	next := byte(1)
	data := func(n int) []byte {
		d := make([]byte, n)
		for i := range d {
			d[i] = next
			next++
		}
		return d
	}
	var b *buffer.SliceBuffer
	var w *encoding.KVWriter
	var a *encoding.ActionWriter
	var k *kscan
	var ok func() bool
	for _, op := range ops {
		switch o := op[0].(string); o {
		case "knew":
			in, n := str(op[1]), num(op[2])
			g.add(Ev{"e": "knew", "b": ints(in), "n": n})
			k = &kscan{g: g, s: encoding.NewKVScanner(g.exposed(in), n), e: encoding.AcquireKVEntry()}
		case "knext":
			k.next()
		case "kdisc":
			k.discard()
		case "wnew":
			var buf []byte
			buf, ok = guarded(num(op[1]))
			w = encoding.NewKVWriter(buf, num(op[2]))
			g.add(Ev{"e": "wnew", "d": ints(buf[:num(op[2])]), "cap": len(buf)})
		case "wset":
			if !g.kvwSet(w, str(op[2]), setVal(op[1].(string), 1, 4), ok) {
				return
			}
		case "anew":
			buf := data(num(op[1]))
			a = encoding.NewActionWriter(buf, num(op[2]))
			g.add(Ev{"e": "anew", "d": ints(buf[:num(op[2])]), "cap": len(buf)})
		case "aset":
			if !g.actSet(a, 2, str(op[2]), setVal(op[1].(string), 3, 16)) {
				return
			}
		case "new":
			b = buffer.NewSliceBuffer(num(op[1]))
			g.bufOp(b, o, num(op[1]), nil)
		case "with":
			d := data(num(op[1]))
			b = buffer.NewSliceBufferWithSlice(append([]byte(nil), d...))
			g.bufOp(b, o, 0, d)
		case "write", "writen":
			g.bufOp(b, o, 0, data(num(op[1])))
		default:
			g.bufOp(b, o, num(op[1]), nil)
		}
		if g.ev[len(g.ev)-1]["pan"] == true {
			return
		}
	}
}

func runCodec(fam string, seed int64, base, i int, scripts [][][]any) []Ev {
	g := &cgen{Rand: rand.New(rand.NewSource(seed))}
	switch fam {
	case "varint":
		g.varint()
	case "kv":
		g.kvs()
	case "kvx":
		g.kvx(base, i)
	case "msg":
		g.msgs()
	case "act":
		g.actions()
	case "kvw":
		g.kvwriter()
	case "unm":
		g.unmarshal()
	case "def":
		g.defs()
	case "ent":
		g.entries()
	case "arr":
		if i == 0 { // one fixed input
			g.arrays()
		}
	case "buf":
		g.slicebuf()
	case "frm":
		g.frames()
	case "hs":
		g.handshakes()
	case "script":
		for j := 0; j < 4 && len(scripts) > 0; j++ {
			g.script(scripts[(4*i+j)%len(scripts)])
		}
	default:
		fatal("unknown family %q", fam)
	}
	return g.ev
}
