package vharness

// An independent implementation of the wire formats, used to build what is
// sent to the code under test and to take apart what it sends. Nothing in
// this file uses the repository.

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"net/netip"
	"strconv"
)

func vlen(v uint64) int { return len(vput(nil, v)) }

func vput(b []byte, v uint64) []byte {
	if v < 240 {
		return append(b, byte(v))
	}
	b = append(b, byte(v)|0xf0)
	v = (v - 240) >> 4
	for v >= 128 {
		b = append(b, byte(v)|0x80)
		v = (v - 128) >> 7
	}
	return append(b, byte(v))
}

// vget returns the value, the number of bytes used, and ok.
func vget(b []byte) (uint64, int, bool) {
	if len(b) == 0 {
		return 0, 0, false
	}
	v := uint64(b[0])
	if v < 240 {
		return v, 1, true
	}
	shift := uint(4)
	for i := 1; i < len(b); i++ {
		v += uint64(b[i]) << shift
		shift += 7
		if b[i] < 128 {
			return v, i + 1, true
		}
	}
	return 0, 0, false
}

func bput(b []byte, s []byte) []byte { return append(vput(b, uint64(len(s))), s...) }

func bget(b []byte) ([]byte, int, bool) {
	l, n, ok := vget(b)
	if !ok || l > uint64(len(b)-n) {
		return nil, 0, false
	}
	return b[n : n+int(l)], n + int(l), true
}

// canonBytes is a short, unambiguous printable form of a byte string.
func canonBytes(b []byte) string {
	plain := len(b) <= 40
	for _, c := range b {
		if c < 0x21 || c > 0x7e || c == '"' || c == '\\' || c == '|' {
			plain = false
		}
	}
	if plain {
		return "'" + string(b) + "'"
	}
	if len(b) <= 32 {
		return "x" + hex.EncodeToString(b)
	}
	h := sha256.Sum256(b)
	return "h" + strconv.Itoa(len(b)) + "." + hex.EncodeToString(h[:6])
}

// Value types of SPOP.
const (
	tNull = iota
	tBool
	tInt32
	tUint32
	tInt64
	tUint64
	tIPv4
	tIPv6
	tString
	tBinary
)

// KV is a typed value with a name.
type KV struct {
	Name []byte
	Type int
	B    bool
	N    uint64 // two's complement for signed values
	S    []byte // address, string or binary bytes
}

func (k KV) canonVal() string {
	switch k.Type {
	case tNull:
		return "null"
	case tBool:
		return "bool:" + strconv.FormatBool(k.B)
	case tInt32:
		return "i32:" + strconv.FormatInt(int64(int32(k.N)), 10)
	case tUint32:
		return "u32:" + strconv.FormatUint(uint64(uint32(k.N)), 10)
	case tInt64:
		return "i64:" + strconv.FormatInt(int64(k.N), 10)
	case tUint64:
		return "u64:" + strconv.FormatUint(k.N, 10)
	case tIPv4, tIPv6:
		a, _ := netip.AddrFromSlice(k.S)
		return "ip:" + a.String()
	case tString:
		return "str:" + canonBytes(k.S)
	case tBinary:
		return "bin:" + canonBytes(k.S)
	}
	return "?"
}

func (k KV) canon() string { return canonBytes(k.Name) + "=" + k.canonVal() }

func putVal(b []byte, k KV) []byte {
	t := byte(k.Type)
	if k.Type == tBool && k.B {
		t |= 0x10
	}
	b = append(b, t)
	switch k.Type {
	case tInt32, tUint32, tInt64, tUint64:
		b = vput(b, k.N)
	case tIPv4, tIPv6:
		b = append(b, k.S...)
	case tString, tBinary:
		b = bput(b, k.S)
	}
	return b
}

func putKV(b []byte, k KV) []byte { return putVal(bput(b, k.Name), k) }

func getVal(b []byte) (k KV, n int, ok bool) {
	if len(b) == 0 {
		return k, 0, false
	}
	k.Type = int(b[0] & 0x0f)
	k.B = b[0]&0x10 != 0
	n = 1
	switch k.Type {
	case tNull, tBool:
	case tInt32, tUint32, tInt64, tUint64:
		v, m, ok := vget(b[n:])
		if !ok {
			return k, 0, false
		}
		k.N = v
		n += m
	case tIPv4, tIPv6:
		l := 4
		if k.Type == tIPv6 {
			l = 16
		}
		if len(b) < n+l {
			return k, 0, false
		}
		k.S = b[n : n+l]
		n += l
	case tString, tBinary:
		s, m, ok := bget(b[n:])
		if !ok {
			return k, 0, false
		}
		k.S = s
		n += m
	default:
		return k, 0, false
	}
	return k, n, true
}

func getKVs(b []byte) (out []KV, ok bool) {
	for len(b) > 0 {
		name, n, ok := bget(b)
		if !ok {
			return nil, false
		}
		b = b[n:]
		k, n, ok := getVal(b)
		if !ok {
			return nil, false
		}
		k.Name = name
		b = b[n:]
		out = append(out, k)
	}
	return out, true
}

// Action of an ACK frame.
type Action struct {
	Unset bool
	Scope int
	V     KV
}

func (a Action) canon() string {
	if a.Unset {
		return fmt.Sprintf("unset:%d:%s", a.Scope, canonBytes(a.V.Name))
	}
	return fmt.Sprintf("set:%d:%s", a.Scope, a.V.canon())
}

func putAction(b []byte, a Action) []byte {
	if a.Unset {
		return bput(append(b, 2, 2, byte(a.Scope)), a.V.Name)
	}
	return putVal(bput(append(b, 1, 3, byte(a.Scope)), a.V.Name), a.V)
}

func getActions(b []byte) (out []Action, ok bool) {
	for len(b) > 0 {
		if len(b) < 3 || b[2] > 4 {
			return nil, false
		}
		a := Action{Scope: int(b[2])}
		switch {
		case b[0] == 1 && b[1] == 3:
		case b[0] == 2 && b[1] == 2:
			a.Unset = true
		default:
			return nil, false
		}
		b = b[3:]
		name, n, ok := bget(b)
		if !ok {
			return nil, false
		}
		b = b[n:]
		if !a.Unset {
			k, n, ok := getVal(b)
			if !ok {
				return nil, false
			}
			a.V = k
			b = b[n:]
		}
		a.V.Name = name
		out = append(out, a)
	}
	return out, true
}

const (
	fHello = 1
	fDisc  = 2
	fNtfy  = 3
	fAHel  = 101
	fADis  = 102
	fAck   = 103
)

// putFrame builds a frame including its length.
func putFrame(typ byte, flags uint32, sid, fid uint64, payload []byte) []byte {
	b := make([]byte, 4, 32+len(payload))
	b = append(b, typ)
	b = binary.BigEndian.AppendUint32(b, flags)
	b = vput(b, sid)
	b = vput(b, fid)
	b = append(b, payload...)
	binary.BigEndian.PutUint32(b, uint32(len(b)-4))
	return b
}

// OutFrame is a frame sent by the agent.
type OutFrame struct {
	Len      int
	Type     int
	Flags    uint32
	Sid, Fid uint64
	Payload  []byte
	OK       bool
}

func getFrame(b []byte) (f OutFrame) {
	f.Len = len(b)
	if len(b) < 5 {
		return
	}
	f.Type = int(b[0])
	f.Flags = binary.BigEndian.Uint32(b[1:])
	b = b[5:]
	v, n, ok := vget(b)
	if !ok {
		return
	}
	f.Sid = v
	b = b[n:]
	v, n, ok = vget(b)
	if !ok {
		return
	}
	f.Fid = v
	f.Payload = b[n:]
	f.OK = true
	return
}
