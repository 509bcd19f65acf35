package vharness

import (
	"strconv"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
)

// Behaviours of the environment found by TLC in Peers.tla and PeerWriter.tla,
// replayed against the real peer. Entries of Peers.tla are ["open", conn, ""],
// ["send"|"half", conn, kind], ["rest"|"eof"|"werr", conn, ""],
// ["finish", conn, "ok"|"panic"], ["cancel", 0, ""] and ["sleep", ms, ""];
// those of PeerWriter.tla ["call", sender, kind], ["sync"|"werr", 0, ""].

func peersScript(g *pgen, hist [][]any) *PScn {
	sc := &PScn{Fam: "script", VT: true, Yield: g.oneIn(3)}
	for _, h := range hist {
		if h[0].(string) == "open" {
			return g.peerScript(sc, hist)
		}
	}
	return g.writerScript(sc, hist)
}

func (g *pgen) peerScript(sc *PScn, hist [][]any) *PScn {
	sc.Shared = g.oneIn(5)
	ts, rest, ncb := map[int]*tconn{}, map[int][]byte{}, map[int]int{}
	defs := map[int]map[int]*sticktable.Definition{} // by connection: the definition of each kind
	for _, h := range hist {
		op, n, k := h[0].(string), int(h[1].(float64)), h[2].(string)
		st := PStep{Op: op, C: n, NoQ: g.oneIn(4)}
		switch op {
		case "open":
			st.NoQ = false
			t := g.tconn()
			ts[n] = t
			defs[n] = map[int]*sticktable.Definition{}
			for i := 1; i <= 3; i++ {
				defs[n][i] = g.smallDef()
			}
			defs[n][3].StickTableID = defs[n][1].StickTableID
			for defs[n][2].StickTableID == defs[n][1].StickTableID {
				defs[n][2].StickTableID = g.u64()
			}
			t.sel = defs[n][1]
			for i := 1; i <= 12; i++ {
				sc.act(n, "#"+strconv.Itoa(i), &PAct{Block: true})
			}
		case "sleep":
			// a little later than any deadline at that time
			st = PStep{Op: "sleep", D: ms(time.Duration(n + 7))}
		case "finish":
			ncb[n]++
			st.Op, st.B = "release", []byte("#"+strconv.Itoa(ncb[n]))
			if k == "panic" {
				sc.Acts[n][string(st.B)].Panic = true
			}
		case "werr":
			st.N = 0
		case "send", "half":
			b := g.kindBytes(ts[n], defs[n], k)
			st.Op, st.B = "send", b
			if op == "half" {
				i := 2
				if len(b) > 3 && g.oneIn(2) {
					i = 1 + g.Intn(len(b)-1)
				}
				if i > len(b) {
					i = len(b)
				}
				st.B, rest[n] = b[:i], b[i:]
			}
			if g.oneIn(4) {
				st.Cuts = g.cuts(len(st.B))
			}
		case "rest":
			st.Op, st.B = "send", rest[n]
		}
		sc.add(st)
	}
	return sc
}

func (g *pgen) kindBytes(t *tconn, defs map[int]*sticktable.Definition, k string) []byte {
	upd := func(ty int) []byte {
		u := g.entry(t.sel)
		u.WithLocalUpdateID = ty == 128 || ty == 133
		u.WithExpiry = ty == 133 || ty == 134
		if u.WithLocalUpdateID {
			u.LocalUpdateID = uint32(g.u64())
			if k == "max" {
				u.LocalUpdateID = ^uint32(0)
			}
		}
		if u.WithExpiry {
			u.Expiry = uint32(g.u64())
		}
		return pmsg(10, ty, encEntry(u))
	}
	def := func(i int) []byte {
		d := defs[i]
		t.ids[d.StickTableID] = d
		t.sel = d
		return pmsg(10, 130, encDef(d))
	}
	sw := func(i int) []byte {
		id := defs[i].StickTableID
		if d := t.ids[id]; d != nil {
			t.sel = d
		}
		return pmsg(10, 131, vput(nil, id))
	}
	switch k {
	case "hello":
		return g.hello()
	case "badhello":
		return g.badHello()
	case "def1", "def2", "def3":
		return def(int(k[3] - '0'))
	case "sw1", "sw2":
		return sw(int(k[2] - '0'))
	case "uid", "max":
		return upd(128)
	case "inc":
		return upd(129)
	case "tim":
		return upd(133)
	case "inct":
		return upd(134)
	case "ack":
		return pmsg(10, 132, append(vput(nil, uint64(g.Intn(5))), 0, 0, 0, 1))
	case "hb":
		return mHeartbeat
	case "sync":
		return mSync
	case "fin":
		return pmsg(0, 1+g.Intn(3), nil)
	case "class":
		return pmsg(pick(g, 2, 3, 9, 11, 255, 200), g.Intn(128), nil)
	case "perr":
		return pmsg(1, g.Intn(3), nil)
	case "trunc":
		if g.oneIn(2) {
			// does not disturb what is known about the connection
			x := *t
			return x.bad()
		}
		return []byte{10, 128, 2, 0, 0}
	}
	fatal("script: unknown kind %q", k)
	return nil
}

func (g *pgen) writerScript(sc *PScn, hist [][]any) *PScn {
	t := g.tconn()
	sc.add(PStep{Op: "open", C: 1}, PStep{Op: "send", C: 1, B: append(g.hello(), t.some(g.Intn(2))...)})
	for _, h := range hist {
		op, n, k := h[0].(string), int(h[1].(float64)), h[2].(string)
		st := PStep{Op: op, C: 1, NoQ: !g.oneIn(5)}
		switch op {
		case "sync":
			st.Op, st.B = "send", mSync
		case "werr":
			st.N = pick(g, 0, g.Intn(60))
		case "call":
			c := PCall{Yields: g.Intn(3)}
			switch k {
			case "def":
				c.Ms = []PMsg{g.sdef()}
			case "sw":
				c.Ms = []PMsg{g.sswitch()}
			case "ent":
				c.Ms = []PMsg{g.sentry()}
			case "batch":
				c.Batch = true
				for i := 0; i < 2+g.Intn(3); i++ {
					c.Ms = append(c.Ms, g.sentry())
				}
			case "bad":
				c.Ms = []PMsg{g.sbad(false)}
			case "pan":
				m := g.sentry()
				m.Ev = nil
				m.U.Key = &gkey{MapKey: m.U.Key, yields: g.Intn(3), fail: "panic"}
				c.Ms = []PMsg{m}
			case "badbatch":
				c.Batch = true
				c.Ms = []PMsg{g.sentry(), g.sbad(true)}
				if g.oneIn(3) {
					c.Ms = append(c.Ms, g.sentry())
				}
			}
			st.Sender, st.Calls = n, []PCall{c}
		}
		sc.add(st)
	}
	sc.add(PStep{Op: "quiet"}, PStep{Op: "call", C: 1, Calls: []PCall{{Ms: []PMsg{g.sentry()}}}})
	return sc
}
