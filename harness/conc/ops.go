// Package conc holds the operations whose concurrent executions C13 explores.
package conc

import (
	"fmt"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"verifharness/gen"
	"verifharness/ref"
)

// Op is an operation. Prep makes an instance with its own input; run executes it, digest tells its results.
type Op struct {
	Name string
	Prep func(v int) (run func(), digest func() string)
	// Own makes an instance whose input or output the caller overwrites with spoil, as one that reuses its buffers does.
	Own func(v int) Owned
}

// Owned is an instance with buffers that belong to the caller.
type Owned struct {
	Run    func()
	Digest func() string
	Input  func() []byte // what decoding was given
	Buf    func() []byte // what belongs to the caller after the operation
	Keeps  bool          // the digest does not contain the buffer
}

// Key is a cipher without state.
type Key struct{}

// Encode implements egts.SecretKey.
func (Key) Encode(b []byte) ([]byte, error) {
	o := make([]byte, len(b)+1)
	for i := range b {
		o[i] = b[i] ^ 0x5A
	}
	o[len(b)] = 0x77
	return o, nil
}

// Decode implements egts.SecretKey.
func (Key) Decode(b []byte) ([]byte, error) {
	if len(b) == 0 {
		return nil, fmt.Errorf("empty")
	}
	o := make([]byte, len(b)-1)
	for i := range o {
		o[i] = b[i] ^ 0x5A
	}
	return o, nil
}

func withKey(o *egts.Options) { o.Secret = Key{} }

func encOp(name string, mk func(v int) *egts.Package, opt ...func(*egts.Options)) Op {
	own := func(v int) Owned {
		p := mk(v)
		var b []byte
		var err error
		return Owned{Run: func() { b, err = p.Encode(opt...) }, Digest: func() string { return fmt.Sprintf("%x %v", b, err) }, Buf: func() []byte { return b }}
	}
	return Op{"encode " + name, func(v int) (func(), func() string) { o := own(v); return o.Run, o.Digest }, own}
}

func decOp(name string, mk func(v int) []byte, opt ...func(*egts.Options)) Op {
	own := func(v int) Owned {
		b := mk(v)
		var p egts.Package
		var code uint8
		var err error
		return Owned{Run: func() { code, err = p.Decode(b, opt...) }, Digest: func() string { return fmt.Sprintf("%s %d %v", ref.Dump(p), code, err) },
			Input: func() []byte { return b }, Buf: func() []byte { return b }, Keeps: true}
	}
	return Op{"decode " + name, func(v int) (func(), func() string) { o := own(v); return o.Run, o.Digest }, own}
}

// Ops lists the operations.
func Ops() []Op {
	var out []Op
	pats := []int{2, 7, 5}
	both := func(name string, mk func(v int) *egts.Package) {
		out = append(out, encOp(name, mk))
		out = append(out, decOp(name, func(v int) []byte {
			b, ok := ref.EncodePackage(mk(v), nil)
			if !ok {
				panic("harness: not representable: " + name)
			}
			return b
		}))
	}
	for _, t := range gen.Types {
		t := t
		both(gen.SpecOf(t).Name+fmt.Sprint(t), func(v int) *egts.Package {
			p := gen.Pack(gen.WithSub(gen.RecF(uint(7*(v%2)), uint16(v+1), uint32(v+2), uint32(v+3), uint32(v+4), byte(v+5), byte(v+6)), gen.SubT(t, pats[v%3])))
			p.PacketIdentifier = uint16(v + 77)
			return p
		})
	}
	both("response", func(v int) *egts.Package { return gen.Respond(uint16(v+5), byte(v), 2+v) })
	both("routed", func(v int) *egts.Package {
		p := gen.SetFlags(gen.Pack(gen.WithSub(gen.RecF(7, uint16(v), 1, 2, 3, 4, 5), gen.SubT(16, pats[v%3]), gen.SubT(27, pats[v%3])), gen.WithSub(gen.Rec(9), gen.SubT(18, v))), 0x23)
		p.PeerAddress, p.RecipientAddress, p.TimeToLive = uint16(v+1), uint16(v+2), byte(v+3)
		return p
	})
	crypt := func(v int) *egts.Package {
		p := gen.SetFlags(gen.Pack(gen.WithSub(gen.Rec(uint16(v)), gen.SubT(16, pats[v%3]))), 0x08)
		return p
	}
	out = append(out, encOp("encrypted", crypt, withKey), decOp("encrypted", func(v int) []byte {
		b, ok := ref.EncodePackage(crypt(v), func(x []byte) []byte { o, _ := Key{}.Encode(x); return o })
		if !ok {
			panic("harness: not representable")
		}
		return b
	}, withKey))
	out = append(out, encOp("encrypted without key", crypt))
	good := func(v int) []byte {
		b, _ := ref.EncodePackage(gen.Pack(gen.WithSub(gen.Rec(uint16(v)), gen.SubT(16, pats[v%3]))), nil)
		return b
	}
	out = append(out, decOp("damaged", func(v int) []byte { b := good(v); b[len(b)-1-v%2] ^= 1; return b }),
		decOp("damaged header", func(v int) []byte { b := good(v); b[7+v%2] ^= 1; return b }),
		decOp("unknown type", func(v int) []byte {
			rds := append([]byte{byte(99 + v), 2, 0, byte(v), 2}, 24, 4, 0, byte(v), 1, 2, 3)
			return ref.Packet(ref.Header{PRV: 1, HL: 11, PID: uint16(v), PT: 1}, append([]byte{byte(len(rds)), 0, 3, 0, 0, 2, 2}, rds...))
		}),
		decOp("cut", func(v int) []byte {
			return ref.Packet(ref.Header{PRV: 1, HL: 11, PID: uint16(v), PT: 1}, []byte{6, 0, 3, 0, 0, 2, 2, 16, 3, 0, 1, byte(v), 3})
		}))
	stored := func(v int) Owned {
		n := storage.NavRecord{Client: uint32(v), PacketID: uint32(v + 1), Latitude: float64(v) + 0.5, AnSensors: []storage.AnSensor{{SensorNumber: uint8(v), Value: uint32(v)}}, LiquidSensors: []storage.LiquidSensor{{SensorNumber: uint8(v), ErrorFlag: "0", ValueMm: uint32(v)}}}
		var b []byte
		var err error
		return Owned{Run: func() { b, err = n.ToBytes() }, Digest: func() string { return fmt.Sprintf("%s %v", b, err) }, Buf: func() []byte { return b }}
	}
	out = append(out, Op{"stored record", func(v int) (func(), func() string) { o := stored(v); return o.Run, o.Digest }, stored})
	return out
}
