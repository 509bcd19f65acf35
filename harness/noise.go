package vharness

import (
	"encoding/binary"
	"math/rand"
	"net/netip"
	"runtime"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"github.com/dropmorepackets/haproxy-go/pkg/buffer"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
)

// noise uses everything the codec scenarios use, with other values and objects
// of its own, on the other processors. Nothing of it is recorded, and nothing
// of it may be seen in what is.
func noise(seed int64) {
	if runtime.GOMAXPROCS(0) == 1 {
		return
	}
	for i := int64(0); i < 2; i++ {
		g := &cgen{Rand: rand.New(rand.NewSource(seed ^ i<<40 ^ 0x5eed))}
		go func() {
			for {
				for end := time.Now().Add(300 * time.Microsecond); time.Now().Before(end); {
					hammer(g)
				}
				runtime.Gosched()
			}
		}()
	}
}

type noisy struct {
	A string  `spoe:"a"`
	B []byte  `spoe:"b"`
	C *int64  `spoe:"c"`
	D *string `spoe:"d"`
	E bool    `spoe:"e"`
}

func hammer(g *cgen) {
	// what breaks here breaks in the scenarios as well
	defer func() { _ = recover() }()
	name, val := string(g.str(40)), g.str(300)
	a4, a6 := netip.AddrFrom4([4]byte(binary.BigEndian.AppendUint32(nil, g.Uint32()))), netip.AddrFrom16([16]byte(append(make([]byte, 8), binary.BigEndian.AppendUint64(nil, g.Uint64())...)))
	w := encoding.AcquireActionWriter(make([]byte, g.Intn(64)), 0)
	_ = w.SetString(encoding.VarScopeRequest, name, name)
	_ = w.SetBinary(encoding.VarScopeProcess, name, val)
	_ = w.SetInt64(encoding.VarScopeSession, name, int64(g.u64()))
	_ = w.SetUInt32(encoding.VarScopeSession, name, g.Uint32())
	_ = w.SetAddr(encoding.VarScopeResponse, name, a4)
	_ = w.SetAddr(encoding.VarScopeResponse, name, a6)
	_ = w.SetBool(encoding.VarScopeResponse, name, true)
	_ = w.SetNull(encoding.VarScopeTransaction, name)
	_ = w.Unset(encoding.VarScopeTransaction, name)
	encoding.ReleaseActionWriter(w)

	var b [2048]byte
	k := encoding.NewKVWriter(b[:], 0)
	_ = k.SetString("a", name)
	_ = k.SetBinary("b", val)
	_ = k.SetInt64("c", int64(g.u64()))
	_ = k.SetString("d", name)
	_ = k.SetBool("e", g.Intn(2) == 0)
	_ = k.SetAddr("f", a4)
	_ = k.SetAddr("g", a6)
	_ = k.SetUInt32("h", g.Uint32())
	_ = k.SetNull("i")
	s := encoding.AcquireKVScanner(k.Bytes(), -1)
	e := encoding.AcquireKVEntry()
	for s.Next(e) {
		_, _ = e.Value(), e.NameEquals("f")
	}
	encoding.ReleaseKVEntry(e)
	encoding.ReleaseKVScanner(s)
	s = encoding.AcquireKVScanner(k.Bytes(), 5)
	var x noisy
	_ = s.Unmarshal(&x)
	encoding.ReleaseKVScanner(s)
	msgs := append(bput(nil, []byte(name)), 9)
	ms := encoding.AcquireMessageScanner(append(msgs, k.Bytes()...))
	m := encoding.AcquireMessage()
	for ms.Next(m) {
		_ = m.KV.Discard()
	}
	encoding.ReleaseMessage(m)
	encoding.ReleaseMessageScanner(ms)

	for i := 0; i < 8; i++ {
		n, _ := encoding.PutVarint(b[:], g.u64())
		_, _, _ = encoding.Varint(b[:n])
	}
	d := &sticktable.Definition{StickTableID: g.u64(), Name: name, KeyType: 7, KeyLength: 4, Expiry: g.u64()}
	for _, t := range []sticktable.DataType{0, 1, 2, 3, 4, 19} {
		d.DataTypes = append(d.DataTypes, sticktable.DataTypeDefinition{DataType: t})
	}
	if n, err := d.Marshal(b[:]); err == nil {
		_, _ = new(sticktable.Definition).Unmarshal(b[:n])
	}
	key := sticktable.BinaryKey(val)
	if len(val) > 4 {
		key = sticktable.BinaryKey(val[:4])
	}
	u := &sticktable.EntryUpdate{StickTable: d, Key: &key}
	for _, t := range d.DataTypes {
		if v := g.data(t.DataType); v != nil {
			u.Data = append(u.Data, v)
		}
	}
	if n, err := u.Marshal(b[:]); err == nil {
		_, _ = (&sticktable.EntryUpdate{StickTable: d}).Unmarshal(b[:n])
	}
	q := buffer.NewSliceBuffer(16)
	q.Grow(g.Intn(300))
	copy(q.WriteNBytes(5), val)
	_ = q.ReadNBytes(3)
	q.Grow(400)
}
