package codec

import (
	"bytes"
	"fmt"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"verifharness/gen"
	"verifharness/mc"
	"verifharness/ref"
)

// ---- C27: the caller's memory stays the caller's --------------------------------------------------------

const margin = 48

// lent is a slice with the content b in the middle of a larger buffer, as callers with reused buffers have it.
func lent(b []byte) (in, all []byte) {
	all = bytes.Repeat([]byte{0xA5}, margin+len(b)+margin)
	copy(all[margin:], b)
	return all[margin : margin+len(b)], all
}

func spoil(b []byte, v byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = v
	}
}

// rudeKey keeps what it is given and what it gives, and spoils both later; it also spoils its argument at once.
type rudeKey struct{ kept [][]byte }

func (k *rudeKey) Encode(b []byte) ([]byte, error) {
	o, _ := xorKey{}.Encode(b)
	spoil(b[:len(b):len(b)], 0x3C)
	k.kept = append(k.kept, o)
	return o, nil
}

func (k *rudeKey) Decode(b []byte) ([]byte, error) { return k.Encode(b) }

func (k *rudeKey) spoil() {
	for _, b := range k.kept {
		spoil(b, 0x5A)
	}
}

// lentDecode decodes b from a lent buffer: the buffer must come back as it was, and what was decoded must not change
// when the buffer is used for something else. dump tells the decoded value.
func lentDecode(c *mc.C, what string, b []byte, dec func([]byte) (interface{}, error), later func()) {
	in, all := lent(b)
	was := cp(all)
	v, err := dec(in)
	c.Op(1)
	if !bytes.Equal(all, was) {
		if !bytes.Equal(in, b) {
			c.Failf("decoding %s changes the bytes it was given: %s became %s (error %v)", what, hx(b), hx(in), err)
		} else {
			c.Failf("decoding %s writes around the bytes it was given: %s (error %v)", what, hx(b), err)
		}
		return
	}
	if err != nil {
		c.Outcome("refused, the bytes stay as they were")
		return
	}
	d := ref.Dump(v)
	spoil(all, 0xEE)
	if later != nil {
		later()
	}
	if e := ref.Dump(v); e != d {
		c.Failf("what was decoded from %s (%s) changes when the memory it came from is used again: %s became %s", what, hx(b), d, e)
		return
	}
	spoil(all, 0x00)
	if e := ref.Dump(v); e != d {
		c.Failf("what was decoded from %s (%s) changes when the memory it came from is used again: %s became %s", what, hx(b), d, e)
		return
	}
	c.Trace()
	c.Outcome("decoded, nothing shared")
}

func lentPacket(c *mc.C, b []byte, keyed bool) {
	k := &rudeKey{}
	lentDecode(c, "a packet", b, func(x []byte) (interface{}, error) {
		p := &egts.Package{}
		var err error
		if keyed {
			_, err = p.Decode(x, func(o *egts.Options) { o.Secret = k })
		} else {
			_, err = p.Decode(x)
		}
		return p, err
	}, k.spoil)
}

// givenEncode encodes twice: what is encoded must stay as it was, and the first result must neither change with the second
// nor, when it is overwritten, change the second or what was encoded.
func givenEncode(c *mc.C, what string, dump func() string, enc func() ([]byte, error), later func()) {
	d := dump()
	a, err := enc()
	c.Op(1)
	if err != nil {
		if e := dump(); e != d {
			c.Failf("encoding %s, which fails (%v), changes it: %s became %s", what, err, d, e)
		}
		c.Outcome("not encodable, stays as it was")
		return
	}
	if later != nil {
		later()
	}
	if e := dump(); e != d {
		c.Failf("encoding %s changes it: %s became %s", what, d, e)
		return
	}
	keep := cp(a)
	b, err := enc()
	c.Op(1)
	if err != nil || !bytes.Equal(b, keep) {
		c.Failf("encoding %s again gives %s (%v) instead of %s", what, hx(b), err, hx(keep))
		return
	}
	if !bytes.Equal(a, keep) {
		c.Failf("what %s was encoded to changes when it is encoded again: %s became %s", what, hx(keep), hx(a))
		return
	}
	spoil(a, 0xEE)
	if !bytes.Equal(b, keep) {
		c.Failf("two results of encoding %s share memory: %s became %s", what, hx(keep), hx(b))
		return
	}
	spoil(b, 0x11)
	if e := dump(); e != d {
		c.Failf("%s changes when what it was encoded to is overwritten: %s became %s", what, d, e)
		return
	}
	if x, err := enc(); err != nil || !bytes.Equal(x, keep) {
		c.Failf("encoding %s after an earlier result was overwritten gives %s (%v) instead of %s", what, hx(x), err, hx(keep))
		return
	}
	c.Trace()
	c.Outcome("encoded, nothing shared")
}

// packetDump leaves out what the encoder fills in.
func packetDump(p *egts.Package) string {
	h := *p
	h.FrameDataLength, h.HeaderLength = 0, 0
	return ref.Dump(&h)
}

func shareSection(c *mc.C, t byte, d egts.BinaryData) {
	c.Describe("section %s", short(d))
	dump := func() string { return ref.Dump(d) }
	givenEncode(c, fmt.Sprintf("a section of type %d", t), dump, d.Encode, nil)
	if c.Failed() {
		return
	}
	was := dump()
	d.Length()
	if e := dump(); e != was {
		c.Failf("asking for its length changes a section: %s became %s", was, e)
		return
	}
	b, ok := ref.EncodeSection(d)
	if !ok {
		return
	}
	lentDecode(c, fmt.Sprintf("a section of type %d", t), b, func(x []byte) (interface{}, error) {
		e := ref.NewSection(t)
		err := e.Decode(x)
		return e, err
	}, nil)
	c.State('s', append([]byte{t}, b...))
}

func sharePacket(c *mc.C, p *egts.Package) {
	c.Describe("packet %s", short(p))
	b, ok := ref.EncodePackage(p, nil)
	if !ok {
		return
	}
	k := &rudeKey{}
	givenEncode(c, "a packet", func() string { return packetDump(p) }, func() ([]byte, error) { return p.Encode() }, nil)
	if c.Failed() {
		return
	}
	givenEncode(c, "a packet", func() string { return packetDump(p) }, p.ToBytes, nil)
	if c.Failed() {
		return
	}
	lentPacket(c, b, false)
	if c.Failed() {
		return
	}
	p.EncryptionAlg = "01"
	givenEncode(c, "a packet with a key", func() string { return packetDump(p) }, func() ([]byte, error) {
		x, err := p.Encode(func(o *egts.Options) { o.Secret = k })
		k.spoil()
		return x, err
	}, k.spoil)
	if c.Failed() {
		return
	}
	if kb, ok := ref.EncodePackage(p, func(x []byte) []byte { x, _ = xorKey{}.Encode(x); return x }); ok {
		lentPacket(c, kb, true)
	}
	if c.Failed() {
		return
	}
	// the parts of a packet on their own
	switch s := p.ServicesFrameData.(type) {
	case *egts.ServiceDataSet:
		shareBody(c, "records", b[b[3]:len(b)-2], s, func() egts.BinaryData { return &egts.ServiceDataSet{} })
		for k := range *s {
			r := &(*s)[k].RecordDataSet
			if x, ok := ref.EncodeRecordData(*r); ok {
				shareBody(c, "record data", x, r, func() egts.BinaryData { return &egts.RecordDataSet{} })
			}
		}
	case *egts.PtResponse:
		shareBody(c, "a response", b[b[3]:len(b)-2], s, func() egts.BinaryData { return &egts.PtResponse{} })
	}
	c.State('p', b)
}

func shareBody(c *mc.C, what string, b []byte, d egts.BinaryData, fresh func() egts.BinaryData) {
	if c.Failed() {
		return
	}
	givenEncode(c, what, func() string { return ref.Dump(d) }, d.Encode, nil)
	if c.Failed() {
		return
	}
	lentDecode(c, what, b, func(x []byte) (interface{}, error) {
		e := fresh()
		err := e.Decode(x)
		return e, err
	}, nil)
}

func init() {
	Checks["C27"] = func() mc.Check {
		return mc.Check{Assume: []string{"the lengths the packet encoder fills into its packet are not counted as changes"},
			Bound: "the record compositions, headers and surroundings of C01 (thorough: all its packets) and every section of C01 on its own, encoded and decoded, plain and with a key that spoils what it was given and what it returned; record data, records and responses on their own; the packet's JSON form; refused packets: every cut and every replaced byte (8 values, checksums as they are or repaired) of the base packets, with and without a key, and of four sections of every section space",
			Spaces: func(tier string) []mc.Space {
				th := tier == "thorough"
				var out []mc.Space
				reps := []byte{0, 1, 2, 0x10, 0x40, 0x7F, 0x80, 0xFF}
				packets := append(gen.RecordSpaces(false), gen.HeaderSpaces(false)...)
				if th {
					packets = gen.PackageSpaces(true)
				}
				for _, s := range packets {
					s := s
					out = append(out, mc.Space{Name: s.Name, N: s.N, Do: func(c *mc.C, i uint64) {
						if p := s.At(i); !emptyBody(p) {
							sharePacket(c, p)
						}
					}})
				}
				for _, s := range gen.SectionSpaces(th) {
					s := s
					out = append(out, mc.Space{Name: "sec/" + s.Name, N: s.N, Do: func(c *mc.C, i uint64) { shareSection(c, s.Type, s.At(i)) }})
				}
				for _, s := range gen.SectionSpaces(false) {
					s := s
					var at [][]byte
					n := uint64(0)
					for _, i := range []uint64{0, s.N / 3, s.N / 2, s.N - 1} {
						if b, ok := ref.EncodeSection(s.At(i)); ok && len(b) > 0 {
							at = append(at, b)
							if uint64(len(b)) > n {
								n = uint64(len(b))
							}
						}
					}
					if n == 0 {
						continue
					}
					out = append(out, mc.Space{Name: "sec-damaged/" + s.Name, N: uint64(len(at)) * n * 9, Do: func(c *mc.C, i uint64) {
						a := cp(at[i/n/9])
						k, how := int(i%n), i/n%9
						if k >= len(a) {
							c.Outcome("past the end")
							return
						}
						if how == 8 {
							a = a[:k]
						} else if r := reps[how]; r == 0 {
							a[k] = 0
						} else {
							a[k] ^= r
						}
						c.Describe("section of type %d: %x", s.Type, a)
						lentDecode(c, fmt.Sprintf("a section of type %d", s.Type), a, func(x []byte) (interface{}, error) {
							e := ref.NewSection(s.Type)
							err := e.Decode(x)
							return e, err
						}, nil)
						c.State('e', append([]byte{s.Type}, a...))
					}})
				}
				for _, s := range ctxSpaces(sharePacket) {
					if th || s.Name != "times/days" {
						out = append(out, s)
					}
				}
				for _, bp := range bases {
					bp := bp
					nl := uint64(len(bp.b))
					out = append(out, mc.Space{Name: "damaged/" + bp.name, N: nl * 17 * 2, Do: func(c *mc.C, i uint64) {
						at, how, keyed := i%nl, i/nl%17, i/nl/17 == 1
						a := cp(bp.b)
						if how == 16 {
							a = a[:at]
						} else {
							if r := reps[how%8]; r == 0 {
								a[at] = 0
							} else {
								a[at] ^= r
							}
							if how >= 8 {
								fix(a, 1)
								fix(a, 2)
							}
						}
						c.Describe("%x, key %v", a, keyed)
						lentPacket(c, a, keyed)
						c.State('d', append([]byte{byte(i / nl / 17)}, a...))
					}})
				}
				return out
			}}
	}
}
