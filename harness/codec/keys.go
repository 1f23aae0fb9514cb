package codec

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"verifharness/gen"
	"verifharness/mc"
	"verifharness/ref"
)

// keyLog records the calls a key gets.
type keyLog struct {
	enc, dec   int
	encIn, out [][]byte
}

type key struct {
	e, d func([]byte) ([]byte, error)
	log  *keyLog
}

func (k *key) Encode(b []byte) ([]byte, error) {
	if k.log != nil {
		k.log.enc++
		k.log.encIn = append(k.log.encIn, append([]byte{}, b...))
	}
	return k.e(b)
}

func (k *key) Decode(b []byte) ([]byte, error) {
	if k.log != nil {
		k.log.dec++
	}
	return k.d(b)
}

type keySpec struct {
	name     string
	good     bool // decoding undoes encoding
	encFails bool
	decFails bool
	e, d     func([]byte) ([]byte, error)
}

func (k keySpec) mk(l *keyLog) egts.SecretKey { return &key{k.e, k.d, l} }

var errKey = errors.New("key failure")

func cp(b []byte) []byte { return append([]byte{}, b...) }

func mapb(f func(i int, x byte) byte) func([]byte) ([]byte, error) {
	return func(b []byte) ([]byte, error) {
		o := cp(b)
		for i := range o {
			o[i] = f(i, o[i])
		}
		return o, nil
	}
}

func rev(b []byte) ([]byte, error) {
	o := make([]byte, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return o, nil
}

func pad(n int) func([]byte) ([]byte, error) { // pads to a multiple of n with a length byte, like a block cipher
	return func(b []byte) ([]byte, error) {
		k := n - len(b)%n
		return append(cp(b), bytes.Repeat([]byte{byte(k)}, k)...), nil
	}
}

func unpad(b []byte) ([]byte, error) {
	if len(b) == 0 || int(b[len(b)-1]) > len(b) || b[len(b)-1] == 0 {
		return nil, errKey
	}
	return cp(b[:len(b)-int(b[len(b)-1])]), nil
}

// rle shortens runs: (count, byte) pairs for runs, so lengths change in both directions.
func rle(b []byte) ([]byte, error) {
	var o []byte
	for i := 0; i < len(b); {
		j := i
		for j < len(b) && b[j] == b[i] && j-i < 255 {
			j++
		}
		o = append(o, byte(j-i), b[i])
		i = j
	}
	return o, nil
}

func unrle(b []byte) ([]byte, error) {
	if len(b)%2 != 0 {
		return nil, errKey
	}
	o := []byte{}
	for i := 0; i < len(b); i += 2 {
		o = append(o, bytes.Repeat([]byte{b[i+1]}, int(b[i]))...)
	}
	return o, nil
}

func failing([]byte) ([]byte, error)       { return nil, errKey }
func failingWith(b []byte) ([]byte, error) { return cp(b), errKey }

var ident = mapb(func(i int, x byte) byte { return x })

// inPlace overwrites its argument, as stream ciphers often do.
func inPlace(b []byte) ([]byte, error) {
	for i := range b {
		b[i] ^= 0xA5
	}
	return b, nil
}

var keys = []keySpec{
	{name: "identity", good: true, e: ident, d: ident},
	{name: "xor", good: true, e: mapb(func(i int, x byte) byte { return x ^ byte(i*7+3) }), d: mapb(func(i int, x byte) byte { return x ^ byte(i*7+3) })},
	{name: "add", good: true, e: mapb(func(i int, x byte) byte { return x + 77 }), d: mapb(func(i int, x byte) byte { return x - 77 })},
	{name: "reverse", good: true, e: rev, d: rev},
	{name: "pad8", good: true, e: pad(8), d: unpad},
	{name: "pad128", good: true, e: pad(128), d: unpad},
	{name: "rle", good: true, e: rle, d: unrle},
	{name: "in-place", good: true, e: inPlace, d: inPlace},
	{name: "prefix", good: true, e: func(b []byte) ([]byte, error) { return append([]byte{1, 2, 3, 4}, b...), nil }, d: func(b []byte) ([]byte, error) {
		if len(b) < 4 {
			return nil, errKey
		}
		return cp(b[4:]), nil
	}},
	{name: "fails", encFails: true, decFails: true, e: failing, d: failing},
	{name: "fails-with-data", encFails: true, decFails: true, e: failingWith, d: failingWith},
	{name: "fails-decoding", decFails: true, e: ident, d: failing},
	{name: "fails-decoding-with-data", decFails: true, e: ident, d: failingWith},
	{name: "nil", e: func([]byte) ([]byte, error) { return nil, nil }, d: func([]byte) ([]byte, error) { return nil, nil }},
	{name: "empty", e: func([]byte) ([]byte, error) { return []byte{}, nil }, d: func([]byte) ([]byte, error) { return []byte{}, nil }},
	{name: "one", e: func([]byte) ([]byte, error) { return []byte{9}, nil }, d: func([]byte) ([]byte, error) { return []byte{9}, nil }},
	{name: "long", e: func(b []byte) ([]byte, error) { return make([]byte, 65535), nil }, d: func(b []byte) ([]byte, error) { return make([]byte, 70000), nil }},
}

func init() { checks["C08"] = c08 }

func c08() mc.Check {
	return mc.Check{Bound: "all 4 values of the encryption flag (with all other header flags) x 17 keys (identity, substitution, permutation, padding, compressing, in-place, prefixing, failing, degenerate) x every section with 8 patterns, record sequences and responses, routed and unrouted; all key numbers and other header fields with and without a key; encoder: with, without and with a nil key; decoder: same, other, failing and missing key; sizes around the frame limit after encryption",
		Spaces: func(tier string) []mc.Space {
			th := tier == "thorough"
			var out []mc.Space
			nk := uint64(len(keys))
			mkp := func(x uint64) *egts.Package { // 16 types x NPat, responses, sequences
				nt := uint64(len(gen.Types))
				if x < nt*gen.NPat {
					return gen.Pack(gen.WithSub(gen.RecF(uint(x%8), 3, 4, 5, 6, 2, 2), gen.SubT(gen.Types[x/gen.NPat], int(x%gen.NPat))))
				}
				x -= nt * gen.NPat
				if x < 8 {
					return gen.Respond(uint16(x*999), byte(x), int(x)-1)
				}
				x -= 8
				return gen.Pack(gen.WithSub(gen.Rec(1), gen.SubT(gen.Types[x%nt], 2), gen.SubT(gen.Types[x/nt], 5)), gen.Rec(2))
			}
			np := uint64(len(gen.Types))*gen.NPat + 8 + uint64(len(gen.Types)*len(gen.Types))
			setf := func(p *egts.Package, f uint) {
				gen.SetFlags(p, f)
				if f&0x20 != 0 {
					p.PeerAddress, p.RecipientAddress, p.TimeToLive = 0x0102, 0x0304, 5
				}
				p.SecurityKeyID = byte(f * 3)
			}
			// with the key, nothing changes
			fls := []uint{0x08, 0x10, 0x18, 0x28, 0x30, 0x38}
			if th {
				fls = nil
				for f := uint(0); f < 256; f++ {
					if f&0x18 != 0 {
						fls = append(fls, f)
					}
				}
			}
			nf := uint64(len(fls))
			out = append(out, mc.Space{Name: "roundtrip", N: np * nf * nk, Do: func(c *mc.C, i uint64) {
				k := keys[i%nk]
				i /= nk
				p := mkp(i / nf)
				setf(p, fls[i%nf])
				cipherTrip(c, p, k)
			}})
			// all header flags
			out = append(out, mc.Space{Name: "flags", N: 256 * nk * 4, Do: func(c *mc.C, i uint64) {
				f := uint(i & 255)
				i >>= 8
				k := keys[i%nk]
				p := mkp([]uint64{2, 34, 130, 140}[i/nk])
				setf(p, f)
				if f&0x18 != 0 {
					cipherTrip(c, p, k)
				} else {
					untouched(c, p, k)
				}
			}})
			// without a key
			out = append(out, mc.Space{Name: "nokey", N: np * nf * 3, Do: func(c *mc.C, i uint64) {
				how := i % 3
				i /= 3
				p := mkp(i / nf)
				setf(p, fls[i%nf])
				var opt []func(*egts.Options)
				if how == 1 {
					opt = append(opt, func(*egts.Options) {})
				} else if how == 2 {
					opt = append(opt, func(o *egts.Options) { o.Secret = nil })
				}
				good, _ := ref.EncodePackage(p, func(b []byte) []byte { return b })
				b, err := p.Encode(opt...)
				c.Op(1)
				if err == nil || len(b) > 0 {
					c.Failf("encrypted packet encoded without a key to %s (%v)", hx(b), err)
					return
				}
				refuse(c, good, 129, opt...)
			}})
			// no header field but the encryption flag decides
			out = append(out, mc.Space{Name: "headers", N: 256 * 3 * 3 * 6 * 4 * 2, Do: func(c *mc.C, i uint64) {
				p := mkp([]uint64{2, 34, 130, 140}[i%4])
				i /= 4
				withKey := i%2 == 1
				i /= 2
				setf(p, []uint{0x08, 0x10, 0x18, 0x28, 0x30, 0x38}[i%6])
				i /= 6
				p.HeaderEncoding, p.ProtocolVersion, p.SecurityKeyID = []byte{0, 1, 255}[i%3], []byte{1, 0, 9}[i/3%3], byte(i/9)
				p.PacketIdentifier = uint16(i) * 257
				if withKey {
					cipherTrip(c, p, keys[1])
					return
				}
				good, _ := ref.EncodePackage(p, func(b []byte) []byte { return b })
				b, err := p.Encode()
				c.Op(1)
				if err == nil || len(b) > 0 {
					c.Failf("encrypted packet encoded without a key to %s (%v)", hx(b), err)
					return
				}
				refuse(c, good, 129)
			}})
			// decoding with another key: whatever that key makes of the bytes, by the reference
			out = append(out, mc.Space{Name: "otherkey", N: np * nk * nk, Do: func(c *mc.C, i uint64) {
				k1, k2 := keys[i%nk], keys[i/nk%nk]
				p := mkp(i / nk / nk)
				setf(p, 0x09)
				if k1.encFails || k1.name == "in-place" || k2.name == "in-place" {
					return
				}
				b, ok := ref.EncodePackage(p, func(x []byte) []byte { o, _ := k1.e(cp(x)); return o })
				if !ok {
					return
				}
				v := ref.DecodePackage(b, func(x []byte) ([]byte, bool) { o, err := k2.d(cp(x)); return o, err == nil })
				l := &keyLog{}
				var q egts.Package
				code, err := q.Decode(cp(b), func(o *egts.Options) { o.Secret = k2.mk(l) })
				c.Op(1)
				if v.Unspec || bodyGone(b) {
					return
				}
				if !v.Allows(code) || (err == nil) != (code == 0) {
					c.Failf("key %s then %s: code %d (%v), want one of %v\nbytes %s", k1.name, k2.name, code, err, v.Codes, hx(b))
					return
				}
				if l.dec != 1 || l.enc != 0 {
					c.Failf("decoding used the key %d times to decode and %d times to encode", l.dec, l.enc)
					return
				}
				if code == 0 && !ref.Equal(&q, v.Pkg) {
					c.Failf("key %s then %s decodes to %s", k1.name, k2.name, diff(&q, v.Pkg))
					return
				}
				c.Trace()
				c.Outcome(fmt.Sprintf("other key: code %d", code))
			}})
			// damage to an encrypted packet is still detected (the checksum covers the encrypted body)
			out = append(out, mc.Space{Name: "damage", N: nk * 4 * 60 * 256, Do: func(c *mc.C, i uint64) {
				x := byte(i)
				i >>= 8
				pos := int(i % 60)
				i /= 60
				k := keys[i%nk]
				if !k.good || x == 0 || k.name == "in-place" {
					return
				}
				p := mkp([]uint64{2, 34, 130, 140}[i/nk])
				setf(p, 0x10)
				b, ok := ref.EncodePackage(p, func(x []byte) []byte { o, _ := k.e(cp(x)); return o })
				if !ok || 11+pos >= len(b)-2 {
					return
				}
				b[11+pos] ^= x
				var q egts.Package
				code, err := q.Decode(b, func(o *egts.Options) { o.Secret = k.mk(nil) })
				c.Op(1)
				if code == 0 || err == nil {
					c.Failf("damaged encrypted packet accepted, key %s\nbytes %s", k.name, hx(b))
					return
				}
				c.Trace()
				c.Outcome(fmt.Sprintf("damaged: code %d", code))
			}})
			// encryption pushes the body over the frame limit
			out = append(out, mc.Space{Name: "size", N: 200 * 3, Do: func(c *mc.C, i uint64) {
				k := []string{"pad128", "prefix", "identity"}[i%3]
				var ks keySpec
				for _, x := range keys {
					if x.name == k {
						ks = x
					}
				}
				n := 65535 - 15 - 170 + int(i/3)
				p := gen.Pack(gen.Rec(1, &egts.SrDispatcherIdentity{Description: string(bytes.Repeat([]byte{'d'}, n))}))
				setf(p, 0x08)
				plain, fits := ref.EncodeBody(p.ServicesFrameData)
				enc, _ := ks.e(cp(plain))
				fits = fits && len(plain) <= 65535 && len(enc) <= 65535
				b, err := p.Encode(func(o *egts.Options) { o.Secret = ks.mk(nil) })
				c.Op(1)
				if !fits {
					if err == nil && len(enc) > 65535 {
						c.Failf("body of %d bytes encrypted to %d was encoded", len(plain), len(enc))
					}
					c.Outcome("too large refused")
					return
				}
				if err != nil {
					c.Failf("body of %d bytes encrypted to %d refused: %v", len(plain), len(enc), err)
					return
				}
				var q egts.Package
				code, err := q.Decode(b, func(o *egts.Options) { o.Secret = ks.mk(nil) })
				c.Op(1)
				if code != 0 || !ref.Equal(gen.Norm(&q), gen.Norm(p)) {
					c.Failf("large encrypted packet does not decode back: %d %v", code, err)
				}
				c.Trace()
			}})
			// several options, in order; the last key counts
			out = append(out, mc.Space{Name: "options", N: np, Do: func(c *mc.C, i uint64) {
				p := mkp(i)
				setf(p, 0x18)
				want := gen.Norm(p)
				l1, l2 := &keyLog{}, &keyLog{}
				set := func(ks keySpec, l *keyLog) func(*egts.Options) { return func(o *egts.Options) { o.Secret = ks.mk(l) } }
				b, err := p.Encode(func(*egts.Options) {}, set(keys[9], l1), set(keys[1], l2))
				if err != nil {
					c.Failf("encoding with two options: %v", err)
					return
				}
				var q egts.Package
				code, err := q.Decode(b, set(keys[9], l1), set(keys[1], l2), func(*egts.Options) {})
				c.Op(2)
				if code != 0 || err != nil || !ref.Equal(gen.Norm(&q), want) || l1.enc+l1.dec != 0 || l2.enc != 1 || l2.dec != 1 {
					c.Failf("options: code %d %v, calls %v %v", code, err, *l1, *l2)
				}
				c.Trace()
			}})
			return out
		}}
}

func bodyGone(b []byte) bool { return b[5] == 0 && b[6] == 0 }

// refuse: decoding must fail with the code and leave no content.
func refuse(c *mc.C, b []byte, want byte, opt ...func(*egts.Options)) {
	var q egts.Package
	code, err := q.Decode(cp(b), opt...)
	c.Op(1)
	if err == nil || code != want {
		c.Failf("decoding gives code %d (%v), want %d\nbytes %s", code, err, want, hx(b))
		return
	}
	if has(q.ServicesFrameData) {
		c.Failf("decoding was refused but content is returned: %s", short(&q))
		return
	}
	c.Trace()
	c.Outcome("refused")
}

func has(d egts.BinaryData) bool {
	switch e := d.(type) {
	case *egts.ServiceDataSet:
		return e != nil && len(*e) > 0
	case *egts.PtResponse:
		return e != nil && (e.ResponsePacketID != 0 || e.ProcessingResult != 0 || has(e.SDR))
	}
	return false
}

// cipherTrip: packet p is marked as encrypted.
func cipherTrip(c *mc.C, p *egts.Package, k keySpec) {
	want := gen.Norm(p)
	c.Describe("key %s, packet %s", k.name, short(p))
	plain, _ := ref.EncodeBody(p.ServicesFrameData)
	l := &keyLog{}
	set := func(o *egts.Options) { o.Secret = k.mk(l) }
	b, err := p.Encode(set)
	c.Op(1)
	if l.dec != 0 || l.enc != 1 {
		c.Failf("encoding used the key %d times to encode and %d times to decode", l.enc, l.dec)
		return
	}
	if !bytes.Equal(l.encIn[0], plain) {
		c.Failf("the key was given %s instead of the body %s", hx(l.encIn[0]), hx(plain))
		return
	}
	if k.encFails {
		if err == nil || len(b) > 0 {
			c.Failf("the key failed but encoding returned %s (%v)", hx(b), err)
			return
		}
		c.Outcome("key failed while encoding")
		c.Trace()
		return
	}
	sec, _ := k.e(cp(plain))
	if len(sec) == 0 { // a header-only packet is outside the properties
		return
	}
	if err != nil {
		c.Failf("encoding with key %s failed: %v", k.name, err)
		return
	}
	std, ok := ref.EncodePackage(p, func([]byte) []byte { return sec })
	if !ok || !bytes.Equal(b, std) {
		c.Failf("encrypted packet is not header, encrypted body and their checksums (key %s)\ngot  %s\nwant %s", k.name, hx(b), hx(std))
		return
	}
	*l = keyLog{}
	if k.decFails {
		refuse(c, b, 129, set)
		return
	}
	if !k.good {
		return
	}
	var q egts.Package
	code, err := q.Decode(b, set)
	c.Op(1)
	if code != 0 || err != nil {
		c.Failf("decoding with the same key %s failed: code %d, %v\nbytes %s", k.name, code, err, hx(std))
		return
	}
	if !ref.Equal(gen.Norm(&q), want) {
		c.Failf("decoding with the same key %s gives %s", k.name, diff(gen.Norm(&q), want))
		return
	}
	if l.dec != 1 || l.enc != 0 {
		c.Failf("decoding used the key %d times to decode and %d times to encode", l.dec, l.enc)
		return
	}
	c.State('b', std)
	c.Trace()
	c.Outcome("same content with key " + k.name)
}

// untouched: packet p is not marked as encrypted.
func untouched(c *mc.C, p *egts.Package, k keySpec) {
	want := gen.Norm(p)
	std, _ := ref.EncodePackage(p, nil)
	l := &keyLog{}
	set := func(o *egts.Options) { o.Secret = k.mk(l) }
	b, err := p.Encode(set)
	if err != nil || !bytes.Equal(b, std) {
		c.Failf("plain packet with key %s in the options: %v\ngot  %s\nwant %s", k.name, err, hx(b), hx(std))
		return
	}
	var q egts.Package
	code, err := q.Decode(b, set)
	c.Op(2)
	if code != 0 || err != nil || !ref.Equal(gen.Norm(&q), want) {
		c.Failf("plain packet with key %s in the options: code %d %v", k.name, code, err)
		return
	}
	if l.enc+l.dec != 0 {
		c.Failf("a packet not marked as encrypted used the key")
		return
	}
	c.Trace()
	c.Outcome("key untouched")
}
