package vharness

import (
	"net/netip"
	"reflect"
)

// Structs as programs declare them: each beside the handler that uses it and,
// as it happens, all of one name.  They differ in their tags, in the order of
// their fields, in what is a pointer.
type text string
type raw []byte
type flag bool
type count uint32

var named = []func() reflect.Type{
	func() reflect.Type {
		type Request struct {
			A string `spoe:"a"`
			B uint32 `spoe:"b"`
		}
		return reflect.TypeOf(Request{})
	},
	func() reflect.Type {
		type Request struct {
			A string `spoe:"b"`
			B uint32 `spoe:"a"`
		}
		return reflect.TypeOf(Request{})
	},
	func() reflect.Type {
		type Request struct {
			A *string `spoe:"a"`
			B *uint32 `spoe:"b"`
		}
		return reflect.TypeOf(Request{})
	},
	func() reflect.Type {
		type Request struct {
			A []byte  `spoe:"a"`
			B *[]byte `spoe:"ab"`
			C int64   `spoe:"b"`
		}
		return reflect.TypeOf(Request{})
	},
	func() reflect.Type {
		type Request struct {
			A string
			B netip.Addr  `spoe:"client_ip"`
			C *netip.Addr `spoe:"x"`
			D bool        `spoe:"a,omitempty"`
		}
		return reflect.TypeOf(Request{})
	},
	func() reflect.Type {
		type Request struct {
			A string     `spoe:"a"`
			B netip.Addr `spoe:"-"`
			C int32      `spoe:"status-code"`
			D *bool      `spoe:"key"`
		}
		return reflect.TypeOf(Request{})
	},
	func() reflect.Type {
		type Request struct {
			A text   `spoe:"a"`
			B raw    `spoe:"b"`
			C *flag  `spoe:"x"`
			D count  `spoe:"ab"`
			E *count `spoe:"key"`
		}
		return reflect.TypeOf(Request{})
	},
	func() reflect.Type {
		type Request struct {
			A, B, C, D, E, F, G, H string
			I                      uint64 `spoe:"a"`
			J                      string `spoe:"b" json:"a"`
		}
		return reflect.TypeOf(Request{})
	},
	func() reflect.Type {
		type Request struct{}
		return reflect.TypeOf(Request{})
	},
	// what no value fits into
	func() reflect.Type {
		type Request struct {
			A float64   `spoe:"a"`
			B *float64  `spoe:"ab"`
			C string    `spoe:"b"`
			D []string  `spoe:"key"`
			E *struct{} `spoe:"x"`
		}
		return reflect.TypeOf(Request{})
	},
}

// kindOfType is the name the contract has for what fits into a t.
func kindOfType(t reflect.Type) string {
	if t == unTypes["addr"] {
		return "addr"
	}
	switch t.Kind() {
	case reflect.String:
		return "string"
	case reflect.Bool:
		return "bool"
	case reflect.Int32:
		return "int32"
	case reflect.Uint32:
		return "uint32"
	case reflect.Int64:
		return "int64"
	case reflect.Uint64:
		return "uint64"
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			return "bytes"
		}
	}
	return "other"
}
