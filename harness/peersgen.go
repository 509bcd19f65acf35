package vharness

import (
	"errors"
	"fmt"
	"net/netip"
	"runtime"
	"strconv"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

type pgen struct {
	*cgen
	gates []chan struct{}
	vt    bool
	uniq  int
	used  map[uint64]bool
	pool  []*sticktable.Definition // of all connections
}

func pick[T any](g *pgen, xs ...T) T { return xs[g.Intn(len(xs))] }

func pmsg(cls, ty int, payload []byte) []byte {
	b := []byte{byte(cls), byte(ty)}
	if ty >= 128 {
		b = bput(b, payload)
	}
	return b
}

var (
	mSync      = pmsg(0, 0, nil)
	mHeartbeat = pmsg(0, 4, nil)
)

// ---------------------------------------------------------------- hello

func (g *pgen) token(max int) string {
	n := 1 + g.Intn(max)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(33 + g.Intn(94))
		if g.oneIn(2) {
			b[i] = "ab0-._%sd"[g.Intn(9)]
		}
	}
	return string(b)
}

func (g *pgen) number() string {
	switch g.Intn(5) {
	case 0:
		return "0"
	case 1:
		return strconv.Itoa(g.Intn(10))
	case 2:
		return strconv.FormatInt(1<<31+int64(g.Intn(5))-2, 10)
	case 3:
		return strconv.FormatInt(g.Int63n(1e17), 10)
	}
	return strconv.Itoa(g.Intn(100000))
}

func (g *pgen) helloLines() [3]string {
	l := [3]string{"HAProxyS 2.1", "remote", "local 1234 1"}
	switch g.Intn(4) {
	case 0:
		return l
	case 1:
		l[0] = pick(g, "HAProxyS 2.0", "HAProxyS 2.1", "HAProxyS 2.1", g.token(12)+" "+g.token(5))
	}
	l[1] = g.token(20)
	switch g.Intn(12) {
	case 0:
		l[1] += " " + g.token(5) + "  "
	case 1:
		l[1] = " " + l[1]
	case 2:
		l[1] = "pe\xc3\xa9r\xff\x00"
	case 3:
		for len(l[1]) < 4200 {
			l[1] += g.token(200)
		}
	}
	l[2] = g.token(16) + " " + g.number() + " " + g.number()
	if g.oneIn(40) {
		l[2] = pad(g.token(4), 5000) + " 1 2"
	}
	return l
}

func pad(s string, n int) string {
	for len(s) < n {
		s += s
	}
	return s[:n]
}

func joinHello(l [3]string) []byte { return []byte(l[0] + "\n" + l[1] + "\n" + l[2] + "\n") }

func (g *pgen) hello() []byte {
	if g.oneIn(2) {
		return joinHello([3]string{"HAProxyS 2.1", "remote", "local 1234 1"})
	}
	return joinHello(g.helloLines())
}

// badHello is malformed, or of a form nothing is said about.
func (g *pgen) badHello() []byte {
	l := [3]string{"HAProxyS 2.1", "remote", "local 1234 1"}
	switch g.Intn(22) {
	case 0:
		l[0] = "HAProxyS"
	case 1:
		l[0] = ""
	case 2:
		l[0] = " "
	case 3:
		l[2] = ""
	case 4:
		l[2] = "local"
	case 5:
		l[2] = "local 1234"
	case 6:
		l[2] = "local x 1"
	case 7:
		l[2] = "local 1 x"
	case 8:
		l[2] = "local 1 99999999999999999999999"
	case 9:
		l[2] = "local 99999999999999999999999 1"
	case 10:
		l[2] = "1234 local 1"
	case 11:
		l[2] = "local 1234 "
	case 12:
		l[2] = "local 12a4 1"
	case 13: // too few lines
		return []byte(l[0] + "\n" + l[2] + "\n")
	case 14:
		return []byte("\n\n\n")
	case 15:
		return []byte("GET / HTTP/1.1\nHost: x\n\n")
	case 16:
		l[2] = "local  1 1"
	case 17:
		l[2] = "local 01 +1"
	case 18:
		l[0] += "\r"
		l[1] += "\r"
		l[2] += "\r"
	case 19:
		l[0] = " HAProxyS\t2.1 more"
	case 20:
		l[2] = "local -5 1 more"
	case 21:
		l[1] = ""
	}
	return joinHello(l)
}

// ---------------------------------------------------------------- tables

func (g *pgen) smallDef() *sticktable.Definition {
	d := g.def()
	if len(d.Name) > 30 && !g.oneIn(10) {
		d.Name = d.Name[:30]
	}
	if g.oneIn(3) {
		d.StickTableID = uint64(g.Intn(4))
	}
	if len(d.DataTypes) > 4 && !g.oneIn(8) { // some of them, mostly one of a dictionary
		var l []sticktable.DataTypeDefinition
		left := 4
		for i, t := range d.DataTypes {
			_, dict := t.DataType.New().(*sticktable.DictData)
			if left > 0 && (len(d.DataTypes)-i <= left || dict || g.oneIn(3)) {
				l = append(l, t)
				left--
			}
		}
		d.DataTypes = l
	}
	return d
}

func (g *pgen) entry(d *sticktable.Definition) *sticktable.EntryUpdate {
	u := &sticktable.EntryUpdate{StickTable: d, Key: g.key(d)}
	for _, t := range d.DataTypes {
		u.Data = append(u.Data, g.data(t.DataType))
	}
	return u
}

// tconn generates what HAProxy sends on one connection.
type tconn struct {
	g     *pgen
	defs  []*sticktable.Definition
	ids   map[uint64]*sticktable.Definition
	sel   *sticktable.Definition
	last  []byte // update of the selected table
	ofTab *sticktable.Definition
}

func (g *pgen) tconn() *tconn { return &tconn{g: g, ids: map[uint64]*sticktable.Definition{}} }

// variant is a table much like another one of any connection.
func (g *pgen) variant() *sticktable.Definition {
	d := *g.pool[g.Intn(len(g.pool))]
	d.DataTypes = append([]sticktable.DataTypeDefinition(nil), d.DataTypes...)
	switch g.Intn(9) {
	case 0:
		d.StickTableID ^= 1
	case 1:
		d.Expiry++
	case 2:
		if n := []byte(d.Name); len(n) > 0 {
			n[g.Intn(len(n))] ^= 1
			d.Name = string(n)
		}
	case 3: // other data types, as many
		other := g.smallDef()
		if n := len(d.DataTypes); len(other.DataTypes) >= n {
			d.DataTypes = other.DataTypes[:n]
		} else {
			d.DataTypes = other.DataTypes
		}
	case 4:
		if n := len(d.DataTypes); n > 0 {
			d.DataTypes = d.DataTypes[:n-1]
		}
	case 5:
		for i := range d.DataTypes {
			if d.DataTypes[i].DataType.IsDelay() {
				d.DataTypes[i].Period++
			}
		}
	case 6: // a binary key takes any length
		if d.KeyLength <= 64 {
			d.KeyType = 7
		}
	case 7:
		if d.KeyType == 7 && d.KeyLength > 0 {
			d.KeyLength--
		}
	}
	return &d
}

func (t *tconn) def() []byte {
	d := t.g.smallDef()
	if len(t.g.pool) > 0 && t.g.oneIn(3) {
		d = t.g.variant()
	}
	t.g.pool = append(t.g.pool, d)
	if len(t.defs) > 0 && t.g.oneIn(4) { // redefinition
		d.StickTableID = t.defs[t.g.Intn(len(t.defs))].StickTableID
	}
	t.defs = append(t.defs, d)
	t.ids[d.StickTableID] = d
	t.sel = d
	return pmsg(10, 130, encDef(d))
}

func (t *tconn) update() []byte {
	g := t.g
	if t.last != nil && t.ofTab == t.sel && g.oneIn(8) { // sent again
		return t.last
	}
	u := g.entry(t.sel)
	ty := pick(g, 128, 129, 133, 134)
	u.WithLocalUpdateID = ty == 128 || ty == 133
	u.WithExpiry = ty == 133 || ty == 134
	if u.WithLocalUpdateID {
		u.LocalUpdateID = uint32(g.u64())
		if g.oneIn(3) {
			u.LocalUpdateID = ^uint32(0) - uint32(g.Intn(3))
		}
	}
	if u.WithExpiry {
		u.Expiry = uint32(g.u64())
	}
	t.last, t.ofTab = pmsg(10, ty, encEntry(u)), t.sel
	return t.last[:len(t.last):len(t.last)]
}

// next is one well-formed message.
func (t *tconn) next() []byte {
	g := t.g
	for {
		switch g.Intn(14) {
		case 0, 1:
			return t.def()
		case 2:
			if len(t.defs) == 0 {
				continue
			}
			id := t.defs[g.Intn(len(t.defs))].StickTableID
			t.sel = t.ids[id]
			return pmsg(10, 131, vput(nil, id))
		case 3:
			return pmsg(10, 132, append(vput(nil, uint64(g.Intn(5))), 0, 0, 0, 1))
		case 4:
			return mHeartbeat
		case 5:
			return mSync
		case 6:
			return pmsg(0, 1+g.Intn(3), nil)
		default:
			if t.sel == nil {
				return t.def()
			}
			return t.update()
		}
	}
}

func (t *tconn) some(n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, t.next()...)
	}
	return b
}

// bad is a message that cannot be decoded, or should not be there.
func (t *tconn) bad() []byte {
	g := t.g
	over := uint64(1) << pick(g, 24, 25, 27, 28, 30, 31, 32, 40, 62, 63)
	upd := func() []byte {
		if t.sel == nil {
			t.def()
		}
		return t.update()
	}
	switch g.Intn(20) {
	case 0:
		return pmsg(pick(g, 2, 3, 9, 11, 255, 200), g.Intn(128), nil)
	case 1:
		return pmsg(pick(g, 2, 11, 255), 128+g.Intn(128), g.str(30))
	case 2:
		return pmsg(0, 5+g.Intn(123), nil)
	case 3:
		return pmsg(10, pick(g, 0, 5, 127, 135, 140, 255), g.str(20))
	case 4:
		return pmsg(1, g.Intn(3), nil)
	case 5: // a length that is not backed by data
		return append(vput([]byte{10, byte(128 + g.Intn(7))}, over-uint64(g.Intn(2))), g.str(20)...)
	case 6: // a name that is not
		b := vput(nil, 1)
		b = vput(b, over)
		return pmsg(10, 130, append(b, g.str(20)...))
	case 7: // a binary key that is not
		d := &sticktable.Definition{StickTableID: 77, Name: "b", KeyType: 7, KeyLength: over}
		return append(pmsg(10, 130, encDef(d)), pmsg(10, 128, append(be32(nil, 1), g.str(30)...))...)
	case 8: // a string key that is not
		d := &sticktable.Definition{StickTableID: 78, Name: "s", KeyType: 6, KeyLength: 40}
		return append(pmsg(10, 130, encDef(d)), pmsg(10, 128, append(vput(be32(nil, 1), over), g.str(30)...))...)
	case 9: // dictionary data that is not
		d := &sticktable.Definition{StickTableID: 79, Name: "s", KeyType: 2, KeyLength: 4, DataTypes: []sticktable.DataTypeDefinition{{DataType: 19}}}
		p := be32(be32(nil, 1), 5)
		if g.oneIn(2) {
			p = vput(p, over)
		} else {
			p = vput(p, 12)
			p = vput(vput(p, 3), over)
		}
		return append(pmsg(10, 130, encDef(d)), pmsg(10, 128, append(p, g.str(30)...))...)
	case 10: // unknown key type
		d := &sticktable.Definition{StickTableID: 80, Name: "k", KeyType: pick(g, sticktable.KeyType(0), 1, 3, 8, 9, 1000), KeyLength: 4}
		return append(pmsg(10, 130, encDef(d)), pmsg(10, 128, be32(be32(nil, 1), 5))...)
	case 11: // unknown data type
		b := vput(nil, 81)
		b = bput(b, []byte("d"))
		b = vput(vput(b, 2), 4)
		b = vput(vput(b, 1<<pick(g, 27, 30, 62, 63)|4), 1000)
		return append(pmsg(10, 130, b), pmsg(10, 128, append(be32(be32(nil, 1), 5), 7, 7, 7))...)
	case 12: // switch to an unknown table
		return append(pmsg(10, 131, vput(nil, 1<<40+uint64(g.Intn(9)))), upd()...)
	case 13: // switch without an id
		return append(pmsg(10, 131, []byte{240, 128}[:g.Intn(3)]), upd()...)
	case 14: // update without a table
		if t.sel == nil {
			return pmsg(10, pick(g, 128, 129, 133, 134), g.str(40))
		}
		fallthrough
	case 15, 16: // cut off update
		m := upd()
		_, n, _ := vget(m[2:])
		p := m[2+n:]
		return pmsg(10, int(m[1]), p[:g.Intn(max(1, len(p)))])
	case 17: // cut off definition
		p := encDef(g.smallDef())
		m := pmsg(10, 130, p[:g.Intn(max(1, len(p)))])
		return append(m, upd()...)
	case 18:
		m := upd()
		_, n, _ := vget(m[2:])
		return pmsg(10, int(m[1]), g.damage(m[2+n:]))
	default:
		return g.damage(t.some(1 + g.Intn(2)))
	}
}

// ---------------------------------------------------------------- senders

var errMarshal = errors.New("cannot be encoded")

// gkey is a key with a marshaler that can be stopped half way.
type gkey struct {
	sticktable.MapKey
	g      chan struct{}
	yields int
	fail   string
}

func (k *gkey) Marshal(b []byte, size uint64) (int, error) {
	tmp := make([]byte, len(b))
	n, err := k.MapKey.Marshal(tmp, size)
	if err != nil {
		return n, err
	}
	copy(b, tmp[:n/2])
	if k.g != nil {
		held.Add(1)
		<-k.g
		held.Add(-1)
	}
	for i := 0; i < k.yields; i++ {
		runtime.Gosched()
	}
	switch k.fail {
	case "err":
		return n / 2, errMarshal
	case "panic":
		panic("marshaler panics")
	}
	copy(b[n/2:], tmp[n/2:n])
	return n, nil
}

type gdata struct {
	sticktable.MapData
	yields int
	fail   string
}

func (k *gdata) Marshal(b []byte) (int, error) {
	for i := 0; i < k.yields; i++ {
		runtime.Gosched()
	}
	n, err := k.MapData.Marshal(b)
	switch k.fail {
	case "err":
		return n, errMarshal
	case "panic":
		panic("marshaler panics")
	}
	return n, err
}

func (g *pgen) sdef() PMsg {
	d := g.smallDef()
	if g.oneIn(60) {
		d.Name = pad(g.token(5), 3000)
	}
	g.uniq++
	d.Name += "#" + strconv.Itoa(g.uniq)
	return PMsg{Kind: "def", D: d, Ev: Ev{"k": "def", "d": defEv(d)}}
}

func (g *pgen) sswitch() PMsg {
	id := g.u64()
	for g.used[id] {
		id = g.u64() + uint64(g.Intn(5000))
	}
	if g.used == nil {
		g.used = map[uint64]bool{}
	}
	g.used[id] = true // a message is sent only once
	return PMsg{Kind: "switch", ID: id, Ev: Ev{"k": "switch", "id": limbs(id)}}
}

// sentry is an entry with a key nothing else has.
func (g *pgen) sentry() PMsg {
	d := g.smallDef()
	g.uniq++
	u := g.entry(d)
	switch d.KeyType {
	case 2:
		k := sticktable.SignedIntegerKey(g.uniq)
		u.Key = &k
	case 4:
		k := sticktable.IPv4AddressKey(netip.AddrFrom4([4]byte(be32(nil, uint32(g.uniq)))))
		u.Key = &k
	case 5:
		pre := make([]byte, 12)
		if g.oneIn(3) { // an IPv4 address
			pre[10], pre[11] = 0xff, 0xff
		}
		k := sticktable.IPv6AddressKey(netip.AddrFrom16([16]byte(be32(pre, uint32(g.uniq)))))
		u.Key = &k
	case 6:
		k := sticktable.StringKey(strconv.Itoa(g.uniq))
		if g.oneIn(150) {
			k = sticktable.StringKey(pad(string(k)+"/", pick(g, 4096, 10000, 20000)))
		}
		u.Key = &k
	case 7:
		d.KeyLength = 8
		k := sticktable.BinaryKey(be32(nil, uint32(g.uniq)))
		u.Key = &k
	}
	u.WithLocalUpdateID, u.LocalUpdateID = g.oneIn(2), uint32(g.u64())
	u.WithExpiry = g.oneIn(2)
	u.Expiry = uint32(g.u64())
	ev := entEv(u)
	if !u.WithExpiry {
		ev["ex"] = limbs(0)
	}
	m := PMsg{Kind: "entry", U: u, Ev: Ev{"k": "entry", "d": defEv(d), "u": ev}}
	switch g.Intn(4) {
	case 0:
		k := &gkey{MapKey: u.Key, yields: g.Intn(4)}
		if !g.vt && g.oneIn(3) {
			k.g = make(chan struct{})
			g.gates = append(g.gates, k.g)
		}
		u.Key = k
	case 1:
		if len(u.Data) > 0 {
			i := g.Intn(len(u.Data))
			u.Data[i] = &gdata{MapData: u.Data[i], yields: g.Intn(3)}
		}
	}
	return m
}

// sbad cannot be encoded.
func (g *pgen) sbad(batch bool) PMsg {
	if !batch && g.oneIn(5) {
		d := g.smallDef()
		d.Name = pad("n", 4096+g.Intn(1000))
		return PMsg{Kind: "def", D: d}
	}
	m := g.sentry()
	m.Ev = nil
	u := m.U
	switch g.Intn(8) {
	case 0:
		u.Key = nil
	case 1:
		u.StickTable = nil
	case 2:
		u.StickTable = &sticktable.Definition{KeyType: 4, KeyLength: 4}
		u.Key = new(sticktable.IPv4AddressKey)
	case 3:
		k := sticktable.StringKey(pad("long", 65530+g.Intn(20)))
		u.Key = &k
		u.StickTable = &sticktable.Definition{KeyType: 6}
	case 4:
		u.Data = append(u.Data, nil)
	case 5:
		u.Key = &gkey{MapKey: u.Key, yields: g.Intn(3), fail: "err"}
	case 6:
		u.Key = &gkey{MapKey: u.Key, yields: g.Intn(3), fail: "panic"}
	case 7:
		var x sticktable.UnsignedIntegerData
		u.Data = append(u.Data, &gdata{MapData: &x, yields: g.Intn(3), fail: pick(g, "err", "panic")})
	}
	return m
}

// bulk is a batch larger than any buffer on its way.
func (g *pgen) bulk() []PMsg {
	var ms []PMsg
	for i := 4 + g.Intn(4); i > 0; i-- {
		m := g.sentry()
		for m.U.StickTable.KeyType != 6 {
			m = g.sentry()
		}
		for i, d := range m.U.Data {
			if w, ok := d.(*gdata); ok {
				m.U.Data[i] = w.MapData
			}
		}
		k := sticktable.StringKey(pad(strconv.Itoa(g.uniq)+"/", 15000+g.Intn(6000)))
		m.U.Key = &k
		ev := entEv(m.U)
		if !m.U.WithExpiry {
			ev["ex"] = limbs(0)
		}
		m.Ev["u"] = ev
		ms = append(ms, m)
	}
	return ms
}

func (g *pgen) call(bad int) PCall {
	c := PCall{Yields: g.Intn(3)}
	b := bad > 0 && g.oneIn(bad)
	if g.oneIn(150) {
		c.Batch, c.Ms = true, g.bulk()
		if bad > 0 && g.oneIn(2) {
			c.Ms = append(c.Ms, g.sbad(true))
		}
		return c
	}
	switch g.Intn(6) {
	case 0:
		c.Ms = []PMsg{g.sdef()}
	case 1:
		c.Ms = []PMsg{g.sswitch()}
	case 2, 3:
		c.Batch = true
		for i := g.Intn(5); i >= 0; i-- {
			c.Ms = append(c.Ms, g.sentry())
		}
		if b {
			i := g.Intn(len(c.Ms))
			c.Ms[i] = g.sbad(true)
		}
		if g.oneIn(20) {
			c.Ms = nil
		}
		return c
	default:
		c.Ms = []PMsg{g.sentry()}
	}
	if b {
		c.Ms = []PMsg{g.sbad(false)}
	}
	return c
}

func (g *pgen) callList(n, bad int) []PCall {
	var cs []PCall
	for i := 0; i < n; i++ {
		cs = append(cs, g.call(bad))
	}
	return cs
}

// ---------------------------------------------------------------- scenarios

func (s *PScn) add(st ...PStep) { s.Steps = append(s.Steps, st...) }

func (s *PScn) act(c int, what string, a *PAct) {
	if s.Acts == nil {
		s.Acts = map[int]map[string]*PAct{}
	}
	if s.Acts[c] == nil {
		s.Acts[c] = map[string]*PAct{}
	}
	s.Acts[c][what] = a
}

func (g *pgen) cuts(n int) []int {
	if n == 0 {
		return nil
	}
	var r []int
	switch g.Intn(4) {
	case 0:
	case 1:
		r = append(r, 1+g.Intn(n))
	case 2:
		for i := 0; i < n; i++ {
			r = append(r, 1)
		}
	default:
		for t := 0; t < n; {
			k := 1 + g.Intn(9)
			r = append(r, k)
			t += k
		}
	}
	return r
}

var peersFamilies = map[string]func(g *pgen) *PScn{
	"hello": func(g *pgen) *PScn {
		sc := &PScn{VT: true, Shared: g.oneIn(6)}
		n := 1 + g.Intn(2)
		for c := 1; c <= n; c++ {
			sc.add(PStep{Op: "open", C: c})
			t := g.tconn()
			var b []byte
			switch g.Intn(4) {
			case 0:
				b = g.badHello()
				b = append(b, t.some(g.Intn(3))...)
			case 1: // cut off
				b = joinHello(g.helloLines())
				b = b[:g.Intn(len(b))]
			default:
				b = append(joinHello(g.helloLines()), t.some(g.Intn(4))...)
			}
			if g.oneIn(3) {
				sc.act(c, "hs", &PAct{Calls: g.callList(1+g.Intn(3), 6), Sender: 90})
			} else if g.oneIn(4) {
				sc.act(c, "hs", &PAct{Sleep: ms(pick(g, time.Duration(1), 2999, 3001, 4000, 7000))})
			} else if g.oneIn(4) {
				sc.act(c, "hs", &PAct{Block: true})
			}
			if g.oneIn(3) && len(b) < 400 {
				sc.add(PStep{Op: "trickle", C: c, B: b, Cuts: g.cuts(len(b))})
			} else {
				sc.add(PStep{Op: "send", C: c, B: b, Cuts: g.cuts(len(b))})
			}
			if g.oneIn(2) {
				sc.add(PStep{Op: "sleep", D: ms(pick(g, time.Duration(1), 2999, 3001, 4000))})
			}
			sc.add(PStep{Op: "release", C: c, B: []byte("hs")})
			if g.oneIn(3) {
				sc.add(PStep{Op: pick(g, "eof", "reset"), C: c})
			} else {
				b := t.some(g.Intn(3))
				sc.add(PStep{Op: "send", C: c, B: b})
			}
		}
		return sc
	},
	"upd": func(g *pgen) *PScn {
		sc := &PScn{VT: true, Shared: g.oneIn(8)}
		n := pick(g, 1, 1, 2, 3)
		ts := map[int]*tconn{}
		for c := 1; c <= n; c++ {
			sc.add(PStep{Op: "open", C: c})
			ts[c] = g.tconn()
			sc.add(PStep{Op: "send", C: c, B: append(g.hello(), ts[c].some(g.Intn(3))...)})
			if g.oneIn(3) {
				sc.act(c, strconv.Itoa(1+g.Intn(4)), &PAct{Block: true})
			}
			if g.oneIn(4) {
				sc.act(c, strconv.Itoa(1+g.Intn(4)), &PAct{Calls: g.callList(1, 0), Sender: 91})
			}
		}
		for i := 2 + g.Intn(8); i > 0; i-- {
			c := 1 + g.Intn(n)
			b := ts[c].some(1 + g.Intn(4))
			sc.add(PStep{Op: "send", C: c, B: b, Cuts: pick(g, nil, g.cuts(len(b)))})
			if g.oneIn(5) {
				sc.add(PStep{Op: "sleep", D: ms(time.Duration(g.Intn(2000)))})
			}
			if g.oneIn(3) {
				sc.add(PStep{Op: "release", C: c, B: []byte(strconv.Itoa(1 + g.Intn(4)))})
			}
			if g.oneIn(12) { // a message without a meaning, of any length
				l := pick(g, 1, 300, 5000, 100000)
				sc.add(PStep{Op: "send", C: c, B: vput([]byte{10, 132}, uint64(l)), Z: l, Cuts: pick(g, nil, []int{1, 1, 1, 1, 4096})})
			}
		}
		if g.oneIn(2) {
			c := 1 + g.Intn(n)
			sc.add(PStep{Op: "send", C: c, B: ts[c].some(1 + g.Intn(4)), NoQ: true}, PStep{Op: pick(g, "eof", "reset"), C: c})
		}
		return sc
	},
	"bad": func(g *pgen) *PScn {
		sc := &PScn{VT: true, Shared: g.oneIn(4)}
		n := 2 + g.Intn(2)
		ts := map[int]*tconn{}
		for c := 1; c <= n; c++ {
			sc.add(PStep{Op: "open", C: c})
			ts[c] = g.tconn()
			h := g.hello()
			if c == 1 && g.oneIn(6) {
				h = g.badHello()
			}
			sc.add(PStep{Op: "send", C: c, B: append(h, ts[c].some(g.Intn(4))...)})
		}
		switch g.Intn(8) {
		case 0:
			sc.act(1, "hs", &PAct{Panic: true})
		case 1:
			sc.act(1, strconv.Itoa(1+g.Intn(3)), &PAct{Panic: true})
		case 2:
			sc.act(1, "close", &PAct{Panic: true})
		}
		for i := 1 + g.Intn(3); i > 0; i-- {
			b := append(ts[1].some(g.Intn(3)), ts[1].bad()...)
			if g.oneIn(2) {
				b = append(b, ts[1].some(g.Intn(3))...)
			}
			sc.add(PStep{Op: "mem"}, PStep{Op: "send", C: 1, B: b, Cuts: g.cuts(len(b))}, PStep{Op: "memend"})
			for c := 2; c <= n; c++ {
				sc.add(PStep{Op: "send", C: c, B: ts[c].some(1 + g.Intn(3))})
			}
			sc.add(PStep{Op: "send", C: 2, B: mSync})
			if g.oneIn(3) {
				sc.add(PStep{Op: "sleep", D: ms(time.Duration(1 + g.Intn(3500)))})
			}
		}
		if g.oneIn(2) {
			sc.add(PStep{Op: pick(g, "eof", "reset"), C: 1})
		}
		c := n + 1
		sc.add(PStep{Op: "open", C: c})
		t := g.tconn()
		sc.add(PStep{Op: "send", C: c, B: append(g.hello(), t.some(3)...)})
		for c := 2; c <= n; c++ {
			sc.add(PStep{Op: "send", C: c, B: ts[c].some(1 + g.Intn(3))})
		}
		return sc
	},
	"time": func(g *pgen) *PScn {
		sc := &PScn{VT: true, Shared: g.oneIn(8)}
		n := pick(g, 1, 1, 2)
		ts := map[int]*tconn{}
		since := map[int]int{} // since the last message
		for c := 1; c <= n; c++ {
			sc.add(PStep{Op: "open", C: c})
			ts[c] = g.tconn()
			if g.oneIn(4) {
				sc.act(c, strconv.Itoa(1+g.Intn(3)), &PAct{Sleep: ms(pick(g, time.Duration(1), 1500, 2999, 3001, 4500, 4999, 6000))})
			}
			if g.oneIn(5) {
				sc.act(c, "hs", &PAct{Sleep: ms(pick(g, time.Duration(1), 2999, 3001, 4500, 7000, 12000))})
			}
			sc.add(PStep{Op: "send", C: c, B: append(g.hello(), ts[c].some(g.Intn(3))...)})
		}
		style := g.Intn(4)
		sleep := func(d int) {
			sc.add(PStep{Op: "sleep", D: ms(time.Duration(d))})
			for c := range since {
				since[c] += d
			}
			for c := 1; c <= n; c++ {
				if _, ok := since[c]; !ok {
					since[c] = d
				}
			}
		}
		for i := 4 + g.Intn(14); i > 0; i-- {
			d := pick(g, 1, 100, 999, 1000, 2000, 2500, 2999, 3000, 3001, 4000, 4900, 4999)
			if style == 0 && g.oneIn(4) || i == 1 && g.oneIn(2) {
				d = pick(g, 5001, 5500, 6000, 9001)
			}
			if style == 1 {
				d = pick(g, 2998, 2999, 3000, 3001)
			}
			sleep(d)
			c := 1 + g.Intn(n)
			for x := 1; x <= n; x++ {
				if since[x]%1000 == 0 { // never at the very moment of a deadline
					sleep(1)
				}
			}
			switch g.Intn(9) {
			case 0:
				// part of a message
				b := ts[c].def()
				k := 1 + g.Intn(len(b)-1)
				sc.add(PStep{Op: "send", C: c, B: b[:k]})
				sleep(pick(g, 1, 900, 1999, 3333, 4500))
				if since[c]%1000 == 0 {
					sleep(1)
				}
				sc.add(PStep{Op: "send", C: c, B: b[k:]})
			case 1:
				var b []byte
				for j := g.Intn(4); j >= 0; j-- {
					b = append(b, mSync...)
				}
				sc.add(PStep{Op: "send", C: c, B: b})
			case 2:
				sc.add(PStep{Op: "call", C: c, Sender: 1, Calls: g.callList(1+g.Intn(2), 6)})
				continue
			case 3:
				continue // nothing
			case 4:
				sc.add(PStep{Op: "send", C: c, B: ts[c].some(1 + g.Intn(3))})
			default:
				sc.add(PStep{Op: "send", C: c, B: mHeartbeat})
			}
			since[c] = 0
		}
		sleep(pick(g, 1, 2999, 4999, 5001, 8000))
		sc.add(PStep{Op: "quiet"})
		return sc
	},
	"end": func(g *pgen) *PScn {
		sc := &PScn{VT: true, Shared: g.oneIn(5)}
		n := 1 + g.Intn(3)
		ts := map[int]*tconn{}
		for c := 1; c <= n; c++ {
			sc.add(PStep{Op: "open", C: c})
			ts[c] = g.tconn()
			w := pick(g, "hs", "close", "1", "1", "2")
			switch g.Intn(6) {
			case 0, 1:
				sc.act(c, w, &PAct{Block: true, Ctx: g.oneIn(2)})
			case 2:
				sc.act(c, w, &PAct{Panic: true, Block: g.oneIn(3)})
			case 3:
				sc.act(c, w, &PAct{Sleep: ms(pick(g, time.Duration(10), 4000, 6000))})
			}
			h := g.hello()
			switch g.Intn(8) {
			case 0: // nothing
				continue
			case 1: // part of it
				h = h[:g.Intn(len(h))]
			case 2:
				h = g.badHello()
			default:
				h = append(h, ts[c].some(g.Intn(4))...)
			}
			sc.add(PStep{Op: "send", C: c, B: h})
		}
		noq := g.oneIn(3)
		for i := 2 + g.Intn(6); i > 0; i-- {
			c := 1 + g.Intn(n)
			switch g.Intn(12) {
			case 0:
				sc.add(PStep{Op: "eof", C: c, NoQ: noq})
			case 1:
				sc.add(PStep{Op: "reset", C: c, NoQ: noq})
			case 2:
				sc.add(PStep{Op: "werr", C: c, N: g.Intn(3), NoQ: noq})
			case 3:
				sc.add(PStep{Op: "send", C: c, B: ts[c].bad(), NoQ: noq})
			case 4:
				if g.oneIn(3) {
					sc.add(PStep{Op: "cancel", NoQ: noq})
				} else if g.oneIn(2) { // the program serves another listener
					sc.add(PStep{Op: "lfail"})
					if !g.oneIn(5) {
						sc.add(PStep{Op: "serve", NoQ: noq})
						if len(ts) < 4 {
							ts[len(ts)+1] = g.tconn()
							sc.add(PStep{Op: "open", C: len(ts)}, PStep{Op: "send", C: len(ts), B: append(g.hello(), ts[len(ts)].some(1)...), NoQ: noq})
						}
					}
				}
			case 5:
				sc.add(PStep{Op: "sleep", D: ms(pick(g, time.Duration(1), 2500, 3001, 5001, 6001))})
			case 6, 7:
				sc.add(PStep{Op: "release", C: c, B: []byte(pick(g, "hs", "close", "1", "2")), NoQ: noq})
			case 8:
				b := ts[c].some(1)
				sc.add(PStep{Op: "send", C: c, B: b[:g.Intn(len(b))], NoQ: noq})
			case 9:
				sc.add(PStep{Op: "call", C: c, Sender: 1, Calls: g.callList(1+g.Intn(2), 4), NoQ: noq})
			default:
				sc.add(PStep{Op: "send", C: c, B: ts[c].some(1 + g.Intn(3)), NoQ: noq})
			}
		}
		sc.add(PStep{Op: "quiet"})
		if g.oneIn(3) {
			sc.add(PStep{Op: "sleep", D: ms(6001)})
		}
		return sc
	},
	"iso": func(g *pgen) *PScn {
		sc := &PScn{VT: true, Shared: g.oneIn(4)}
		n := 2 + g.Intn(2)
		ts := map[int]*tconn{}
		for c := 1; c <= n; c++ {
			sc.add(PStep{Op: "open", C: c})
			ts[c] = g.tconn()
			sc.add(PStep{Op: "send", C: c, B: g.hello()})
			if g.oneIn(2) {
				sc.act(c, strconv.Itoa(1+g.Intn(3)), &PAct{Calls: g.callList(1+g.Intn(2), 0), Sender: 90 + c})
			}
			if g.oneIn(5) {
				sc.act(c, "1", &PAct{Block: true})
			}
		}
		for i := 4 + g.Intn(8); i > 0; i-- {
			c := 1 + g.Intn(n)
			switch g.Intn(6) {
			case 0:
				d := ts[c].def()
				// the same id means another table elsewhere
				o := 1 + g.Intn(n)
				if len(ts[o].defs) > 0 && o != c {
					x := *ts[c].sel
					x.StickTableID = ts[o].defs[0].StickTableID
					ts[c].defs = append(ts[c].defs, &x)
					ts[c].ids[x.StickTableID] = &x
					ts[c].sel = &x
					d = append(d, pmsg(10, 130, encDef(&x))...)
				}
				sc.add(PStep{Op: "send", C: c, B: d})
			case 1:
				sc.add(PStep{Op: "call", C: c, Sender: c, Calls: g.callList(1, 0)})
			case 2:
				sc.add(PStep{Op: "release", C: c, B: []byte("1")})
			case 3:
				sc.add(PStep{Op: "sleep", D: ms(time.Duration(1 + g.Intn(900)))})
			default:
				sc.add(PStep{Op: "send", C: c, B: ts[c].some(1 + g.Intn(3))})
			}
		}
		return sc
	},
	// far more connections at once than in the other families
	"many": func(g *pgen) *PScn {
		sc := &PScn{VT: true, Shared: g.oneIn(4)}
		n := pick(g, 20, 40, 70, 140)
		ts := map[int]*tconn{}
		for c := 1; c <= n; c++ {
			sc.add(PStep{Op: "open", C: c})
			ts[c] = g.tconn()
			b := g.hello()
			if len(b) > 100 {
				b = joinHello([3]string{"HAProxyS 2.1", fmt.Sprint("remote", c), "local 1 1"})
			}
			sc.add(PStep{Op: "send", C: c, B: append(b, ts[c].def()...), NoQ: true})
		}
		sc.add(PStep{Op: "quiet"})
		for i := 0; i < 2; i++ {
			for c := 1; c <= n; c++ {
				if g.oneIn(2) {
					sc.add(PStep{Op: "send", C: c, B: append(ts[c].some(1), mSync...), NoQ: true})
				}
				if g.oneIn(20) {
					sc.add(PStep{Op: "call", C: c, Sender: 1, Calls: g.callList(1, 0), NoQ: true})
				}
			}
			sc.add(PStep{Op: "quiet"}, PStep{Op: "sleep", D: ms(pick(g, time.Duration(500), 1700, 3001))})
		}
		for c := 1; c <= n; c++ {
			switch g.Intn(8) {
			case 0:
				sc.add(PStep{Op: pick(g, "eof", "reset"), C: c, NoQ: true})
			case 1:
				sc.add(PStep{Op: "send", C: c, B: mHeartbeat, NoQ: true})
			case 2:
				sc.add(PStep{Op: "send", C: c, B: ts[c].bad(), NoQ: true})
			}
		}
		sc.add(PStep{Op: "quiet"})
		if g.oneIn(2) {
			sc.add(PStep{Op: "sleep", D: ms(3500)})
		}
		sc.add(PStep{Op: "open", C: n + 1}, PStep{Op: "send", C: n + 1, B: append(g.hello(), g.tconn().some(4)...)})
		return sc
	},
	// connections come and go in every way, one after another
	"churn": func(g *pgen) *PScn {
		sc := &PScn{VT: true, Shared: g.oneIn(4)}
		n := pick(g, 20, 40, 90)
		only := g.Intn(16)
		for c := 1; c <= n; c++ {
			how := only
			if how > 9 {
				how = g.Intn(10)
			}
			t := g.tconn()
			sc.add(PStep{Op: "open", C: c})
			switch how {
			case 7:
				sc.add(PStep{Op: "send", C: c, B: g.badHello()})
			case 8:
				b := g.hello()
				sc.add(PStep{Op: "send", C: c, B: b[:g.Intn(len(b))]}, PStep{Op: "eof", C: c})
				continue
			case 3, 4, 5:
				sc.act(c, pick(g, "hs", "1", "close"), &PAct{Panic: true})
			case 6:
				sc.act(c, pick(g, "hs", "1"), &PAct{Block: true, Ctx: true})
			}
			sc.add(PStep{Op: "send", C: c, B: append(g.hello(), t.some(g.Intn(4))...), NoQ: g.oneIn(2)})
			switch how {
			case 0, 3, 6:
				sc.add(PStep{Op: pick(g, "eof", "reset"), C: c, NoQ: g.oneIn(2)})
			case 1:
				sc.add(PStep{Op: "send", C: c, B: t.bad()}, PStep{Op: "eof", C: c})
			case 2:
				sc.add(PStep{Op: "werr", C: c, N: g.Intn(3)}, PStep{Op: "send", C: c, B: mSync}, PStep{Op: "eof", C: c})
			case 4:
				sc.add(PStep{Op: "sleep", D: ms(5001)})
			}
		}
		for c := n + 1; c < n+3; c++ {
			t := g.tconn()
			sc.add(PStep{Op: "open", C: c}, PStep{Op: "send", C: c, B: append(append(g.hello(), t.some(4)...), mSync...)})
			sc.add(PStep{Op: "call", C: c, Sender: 1, Calls: g.callList(2, 0)}, PStep{Op: "sleep", D: ms(3001)})
			sc.add(PStep{Op: "send", C: c, B: t.some(2)})
		}
		return sc
	},
	// very many messages on one connection, in both directions
	"long": func(g *pgen) *PScn {
		sc := &PScn{VT: true}
		ts := map[int]*tconn{}
		for c := 1; c <= 2; c++ {
			sc.add(PStep{Op: "open", C: c})
			ts[c] = g.tconn()
			sc.add(PStep{Op: "send", C: c, B: joinHello([3]string{"HAProxyS 2.1", "remote", "local 1234 1"})})
		}
		style := g.Intn(5)
		for n := pick(g, 140, 270, 400); n > 0; {
			var b []byte
			k := 1 + g.Intn(30)
			n -= k
			t := ts[1]
			for i := 0; i < k; i++ {
				switch style {
				case 0: // many tables
					d := t.g.smallDef()
					if len(d.DataTypes) > 2 {
						d.DataTypes = d.DataTypes[:2]
					}
					d.StickTableID = uint64(len(t.defs))
					t.defs = append(t.defs, d)
					t.ids[d.StickTableID], t.sel = d, d
					b = append(b, pmsg(10, 130, encDef(d))...)
					if g.oneIn(3) {
						id := uint64(g.Intn(len(t.defs)))
						t.sel = t.ids[id]
						b = append(b, pmsg(10, 131, vput(nil, id))...)
						b = append(b, t.update()...)
					}
				case 1: // many updates of one table
					if t.sel == nil {
						b = append(b, t.def()...)
					}
					b = append(b, t.update()...)
				case 2:
					b = append(b, mSync...)
				default:
					b = append(b, t.next()...)
				}
			}
			sc.add(PStep{Op: "send", C: 1, B: b, Cuts: pick(g, nil, nil, g.cuts(len(b)))})
			if style == 3 {
				sc.add(PStep{Op: "call", C: 1, Sender: 1, Calls: g.callList(1+g.Intn(20), 0)})
			}
			if g.oneIn(10) {
				sc.add(PStep{Op: "send", C: 2, B: ts[2].some(3)}, PStep{Op: "sleep", D: ms(time.Duration(g.Intn(2500)))})
			}
		}
		sc.add(PStep{Op: "send", C: 2, B: append(ts[2].some(3), mSync...)}, PStep{Op: "quiet"})
		return sc
	},
	"seg": func(g *pgen) *PScn {
		sc := &PScn{VT: true}
		t := g.tconn()
		sc.add(PStep{Op: "open", C: 1})
		b := append(joinHello(g.helloLines()), t.some(1+g.Intn(8))...)
		if len(b) > 500 {
			b = append(g.hello(), t.some(2)...)
		}
		if g.oneIn(6) {
			b = append(b, t.bad()...)
		}
		op := "send"
		if g.oneIn(3) && len(b) < 600 {
			op = "trickle"
		}
		cs := g.cuts(len(b))
		if len(cs) == 0 {
			cs = []int{1 + g.Intn(len(b))}
		}
		sc.add(PStep{Op: op, C: 1, B: b, Cuts: cs})
		b = t.some(1 + g.Intn(4))
		sc.add(PStep{Op: "send", C: 1, B: b, Cuts: g.cuts(len(b))})
		sc.add(PStep{Op: "eof", C: 1})
		return sc
	},
	"wr": func(g *pgen) *PScn {
		sc := &PScn{VT: true, Shared: g.oneIn(8), Yield: g.oneIn(2)}
		n := pick(g, 1, 1, 1, 2)
		for c := 1; c <= n; c++ {
			sc.add(PStep{Op: "open", C: c})
			t := g.tconn()
			if g.oneIn(3) {
				sc.act(c, "hs", &PAct{Calls: g.callList(1+g.Intn(2), 4), Sender: 90})
			}
			if g.oneIn(3) {
				sc.act(c, "1", &PAct{Calls: g.callList(1+g.Intn(2), 4), Sender: 91})
			}
			sc.add(PStep{Op: "send", C: c, B: append(g.hello(), t.some(g.Intn(4))...)})
		}
		c := 1 + g.Intn(n)
		k := 1 + g.Intn(5)
		bad := pick(g, 0, 0, 4, 3)
		at := pick(g, 0, 0, 3000, 6000)
		for s := 1; s <= k; s++ {
			cs := g.callList(1+g.Intn(4), bad)
			if at > 0 { // together with a heartbeat
				cs[0].Sleep = ms(time.Duration(at))
				if g.oneIn(4) {
					cs[len(cs)-1].Sleep = ms(3000)
				}
			}
			sc.add(PStep{Op: "call", C: pick(g, c, c, 1+g.Intn(n)), Sender: s, Calls: cs, NoQ: true})
		}
		if g.oneIn(2) {
			var b []byte
			for j := g.Intn(4); j >= 0; j-- {
				b = append(b, mSync...)
			}
			sc.add(PStep{Op: "send", C: c, B: b, NoQ: true})
		}
		if at > 0 {
			for j := 0; j < 3; j++ {
				sc.add(PStep{Op: "sleep", D: ms(time.Duration(pick(g, 2500, 2999, 3001)))})
				sc.add(PStep{Op: "send", C: c, B: pick(g, mHeartbeat, mSync)})
			}
		}
		if g.oneIn(6) {
			sc.add(PStep{Op: pick(g, "eof", "werr"), C: c, N: g.Intn(30), NoQ: true})
		}
		sc.add(PStep{Op: "quiet"})
		sc.add(PStep{Op: "call", C: c, Sender: 50, Calls: g.callList(1, 0)})
		return sc
	},
	// a peer that does not read, while others do
	"slow": func(g *pgen) *PScn {
		sc := &PScn{Shared: g.oneIn(6), Yield: g.oneIn(3)}
		n := 2 + g.Intn(2)
		ts := map[int]*tconn{}
		at := g.Intn(4)
		open := func(c int) {
			sc.add(PStep{Op: "open", C: c})
			ts[c] = g.tconn()
			if c == 1 && at == 0 {
				sc.add(PStep{Op: "gate", C: 1})
			}
			if g.oneIn(4) {
				sc.act(c, pick(g, "hs", "1"), &PAct{Calls: g.callList(1, 0), Sender: 90})
			}
			sc.add(PStep{Op: "send", C: c, B: append(g.hello(), ts[c].some(g.Intn(3))...)})
			if c == 1 && at == 1 {
				sc.add(PStep{Op: "gate", C: 1})
			}
		}
		for c := 1; c <= n; c++ {
			open(c)
		}
		if at > 1 {
			sc.add(PStep{Op: "gate", C: 1})
		}
		last := n + 1
		s := 0
		for i := 4 + g.Intn(7); i > 0; i-- {
			c := 1 + g.Intn(n)
			switch g.Intn(8) {
			case 0, 1:
				sc.add(PStep{Op: "send", C: c, B: mSync})
			case 2, 3:
				s++
				sc.add(PStep{Op: "call", C: c, Sender: s, Calls: g.callList(1+g.Intn(2), 6)})
			case 4:
				if n < last {
					n++
					open(n)
				}
			case 5:
				if g.oneIn(3) {
					sc.add(PStep{Op: pick(g, "eof", "reset"), C: c})
				} else {
					sc.add(PStep{Op: "permit", C: 1, N: 1})
				}
			default:
				sc.add(PStep{Op: "send", C: c, B: ts[c].some(1 + g.Intn(3))})
			}
		}
		return sc
	},
	// writes that are held back, marshalers that stop half way
	"gate": func(g *pgen) *PScn {
		sc := &PScn{Shared: g.oneIn(8), Yield: g.oneIn(3)}
		n := pick(g, 1, 1, 2)
		for c := 1; c <= n; c++ {
			sc.add(PStep{Op: "open", C: c})
			t := g.tconn()
			sc.add(PStep{Op: "send", C: c, B: append(g.hello(), t.some(g.Intn(4))...)})
		}
		if g.oneIn(2) {
			sc.add(PStep{Op: "gate", C: 1})
		}
		s := 0
		for i := 3 + g.Intn(7); i > 0; i-- {
			c := 1 + g.Intn(n)
			switch g.Intn(8) {
			case 0:
				sc.add(PStep{Op: "send", C: c, B: mSync})
			case 1:
				sc.add(PStep{Op: "permit", C: 1, N: 1 + g.Intn(3)})
			case 2:
				sc.add(PStep{Op: pick(g, "gate", "ungate"), C: 1})
			case 3:
				if len(g.gates) > 0 {
					sc.add(PStep{Op: "unkey", N: g.Intn(len(g.gates))})
				}
			default:
				s++
				sc.add(PStep{Op: "call", C: c, Sender: s, Calls: g.callList(1+g.Intn(2), 6)})
			}
		}
		return sc
	},
}

// twinP is a scenario whose trace differs only in what the property is about.
type twinP struct {
	name string
	sc   *PScn
}

// holdParts lets other things happen while a message has arrived in part.
func holdParts(g *pgen, sc *PScn) {
	switch sc.Fam {
	case "iso", "upd", "end", "hello", "script":
	default:
		return
	}
	steps := sc.Steps
	sc.Steps = nil
	type part struct {
		st   PStep
		left int
	}
	var held []part
	flush := func(all bool, c int) {
		var keep []part
		for _, h := range held {
			h.left--
			if all || c == h.st.C || h.left < 0 {
				sc.add(h.st)
			} else {
				keep = append(keep, h)
			}
		}
		held = keep
	}
	for _, st := range steps {
		switch st.Op {
		case "open", "gate", "ungate", "permit", "call", "release", "werr", "quiet":
			flush(false, 0)
		case "send":
			flush(false, st.C)
			if st.Z == 0 && !st.NoQ && len(st.B) > 1 && g.oneIn(4) {
				k := 1 + g.Intn(len(st.B)-1)
				rest := st
				rest.B, rest.Cuts = st.B[k:], nil
				st.B, st.Cuts = st.B[:k], nil
				sc.add(st)
				held = append(held, part{rest, 1 + g.Intn(3)})
				continue
			}
		default:
			flush(true, 0)
		}
		sc.add(st)
	}
	flush(true, 0)
}

func peersTwins(fam string, sc *PScn) []twinP {
	var out []twinP
	switch fam {
	case "seg":
		w := *sc
		w.Steps = nil
		for _, s := range sc.Steps {
			if s.Op == "trickle" {
				s.Op = "send"
			}
			s.Cuts = nil
			w.Steps = append(w.Steps, s)
		}
		out = append(out, twinP{"/whole", &w})
	case "iso", "slow":
		for c := 1; c <= 9; c++ {
			w := *sc
			w.Steps = nil
			n := 0
			for _, s := range sc.Steps {
				if s.C == 0 || s.C == c {
					w.Steps = append(w.Steps, s)
					if s.C == c {
						n++
					}
				}
			}
			if n > 0 {
				out = append(out, twinP{fmt.Sprintf("/c%d", c), &w})
			}
		}
	}
	return out
}
