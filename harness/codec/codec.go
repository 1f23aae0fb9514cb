// Package codec decides the properties of libs/egts by exhaustive enumeration of packets, sections, damage
// patterns and length inconsistencies against the reference in package ref.
package codec

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	log "github.com/sirupsen/logrus"
	"verifharness/gen"
	"verifharness/mc"
	"verifharness/ref"
)

// Checks are the checks of this package by property.
var Checks = map[string]func() mc.Check{}

var checks = Checks

// Quiet silences the code under test.
func Quiet() {
	log.SetOutput(io.Discard)
	log.SetLevel(log.PanicLevel)
}

// Assume lists what the codec checks take for granted.
var Assume = []string{"values outside the enumerated alphabets behave like those inside (the codec has no value-dependent branches beyond flags, lengths and types)",
	"the reference codec in harness/ref, written from the standard's tables, is right"}

// hx renders bytes when it is formatted.
type hx []byte

func (b hx) String() string {
	if len(b) > 300 {
		return hex.EncodeToString(b[:300]) + fmt.Sprintf("...(%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

type lazyDump struct{ v interface{} }

func (d lazyDump) String() string {
	s := ref.Dump(d.v)
	if len(s) > 1200 {
		s = s[:1200] + "..."
	}
	return s
}

func short(v interface{}) lazyDump { return lazyDump{v} }

func diff(a, b interface{}) string {
	x, y := ref.Dump(a), ref.Dump(b)
	i := 0
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 80
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("...%s... instead of ...%s...", cut(x), cut(y))
}

// ---- C01 ----------------------------------------------------------------------------------------------

// roundTrip encodes a package and decodes the bytes.
func roundTrip(c *mc.C, p *egts.Package, opt ...func(*egts.Options)) {
	want := gen.Norm(p)
	c.Describe("package %s", short(p))
	b, err := p.Encode(opt...)
	c.Op(1)
	if err != nil {
		c.Failf("encoding a representable packet failed: %v\npacket %s", err, short(want))
		return
	}
	c.Describe("encodes to %s", hx(b))
	var q egts.Package
	code, err := q.Decode(b, opt...)
	c.Op(1)
	if err != nil || code != 0 {
		c.Failf("decoding what was encoded failed: code %d, %v\npacket %s\nbytes %s", code, err, short(want), hx(b))
		return
	}
	got := gen.Norm(&q)
	if !ref.Equal(got, want) {
		c.Failf("decoding gives %s\nbytes %s", diff(got, want), hx(b))
		return
	}
	c.State('b', b)
	c.Trace()
	c.Outcome("round trip of " + bodyKind(p))
}

func bodyKind(p *egts.Package) string {
	if p.PacketType == 0 {
		return "response"
	}
	s := *p.ServicesFrameData.(*egts.ServiceDataSet)
	if len(s) == 1 && len(s[0].RecordDataSet) == 1 {
		return fmt.Sprintf("%T", s[0].RecordDataSet[0].SubrecordData)
	}
	return "several subrecords"
}

// sectionRoundTrip does the same for a bare section.
func sectionRoundTrip(c *mc.C, t byte, d egts.BinaryData) {
	c.Describe("section %s", short(d))
	b, err := d.Encode()
	c.Op(1)
	if err != nil {
		c.Failf("encoding failed: %v for %s", err, short(d))
		return
	}
	e := ref.NewSection(t)
	err = e.Decode(b)
	c.Op(1)
	if err != nil {
		c.Failf("decoding what was encoded failed: %v for %s bytes %s", err, short(d), hx(b))
		return
	}
	if !ref.Equal(e, d) {
		c.Failf("decoding gives %s\nbytes %s", diff(e, d), hx(b))
		return
	}
	c.State('s', append([]byte{t}, b...))
	c.Trace()
}

func pkgSpaces(do func(c *mc.C, p *egts.Package)) func(tier string) []mc.Space {
	return func(tier string) []mc.Space {
		var out []mc.Space
		for _, s := range gen.PackageSpaces(tier == "thorough") {
			s := s
			out = append(out, mc.Space{Name: s.Name, N: s.N, Do: func(c *mc.C, i uint64) {
				p := s.At(i)
				if emptyBody(p) {
					return
				}
				do(c, p)
			}})
		}
		return out
	}
}

// emptyBody: header-only packets are outside the properties.
func emptyBody(p *egts.Package) bool {
	s, ok := p.ServicesFrameData.(*egts.ServiceDataSet)
	return ok && len(*s) == 0
}

func init() {
	checks["C01"] = func() mc.Check {
		return mc.Check{Bound: "every section: all flag combinations x 8 value patterns, full sweeps of fields up to 16 bits, byte and bit sweeps of wider ones, all pairs of boundary values; all sequences of up to 3 subrecords, 2-3 records; all record and transport flags; sweeps of all header fields; frames up to the size limit",
			Spaces: func(tier string) []mc.Space {
				th := tier == "thorough"
				out := pkgSpaces(func(c *mc.C, p *egts.Package) { roundTrip(c, p) })(tier)
				for _, s := range gen.SectionSpaces(th) {
					s := s
					out = append(out, mc.Space{Name: "sec/" + s.Name, N: s.N, Do: func(c *mc.C, i uint64) { sectionRoundTrip(c, s.Type, s.At(i)) }})
				}
				out = append(out, ctxSpaces(func(c *mc.C, p *egts.Package) { roundTrip(c, p) })...)
				out = append(out, zoneSpace(), coordSpace(th, false))
				if th {
					out = append(out, wideSweeps(func(c *mc.C, t byte, d egts.BinaryData) { sectionRoundTrip(c, t, d) })...)
				}
				return out
			}}
	}
	checks["C02"] = func() mc.Check {
		return mc.Check{Bound: "the packets of C01, as the reference encodes them, decoded and encoded again; coordinates: all low and all high halves over several backgrounds (thorough: all 2^32 values of both)",
			Spaces: func(tier string) []mc.Space {
				th := tier == "thorough"
				relay := func(c *mc.C, p *egts.Package) { relayPackage(c, p) }
				out := pkgSpaces(relay)(tier)
				out = append(out, ctxSpaces(relay)...)
				out = append(out, coordSpace(th, true))
				if th {
					out = append(out, wideSweeps(relaySection)...)
				}
				return out
			}}
	}
	checks["C03"] = func() mc.Check {
		return mc.Check{Bound: "the packets of C01 in both directions against the reference codec, byte for byte and field for field; both checksums on all enumerated headers and bodies",
			Spaces: func(tier string) []mc.Space {
				th := tier == "thorough"
				wire := func(c *mc.C, p *egts.Package) { wirePackage(c, p) }
				out := pkgSpaces(wire)(tier)
				for _, s := range gen.SectionSpaces(th) {
					s := s
					out = append(out, mc.Space{Name: "sec/" + s.Name, N: s.N, Do: func(c *mc.C, i uint64) { wireSection(c, s.Type, s.At(i)) }})
				}
				out = append(out, ctxSpaces(wire)...)
				out = append(out, rawPos(th))
				if th {
					out = append(out, wideSweeps(wireSection)...)
				}
				return out
			}}
	}
	checks["C07"] = c07
}

// ctxSpaces puts every section, in several variants, into different surroundings: routed packets, response
// packets, between other sections, in the second record.
func ctxSpaces(do func(c *mc.C, p *egts.Package)) []mc.Space {
	var out []mc.Space
	for _, s := range gen.Specs {
		s := s
		fl := s.Flags
		if len(fl) > 300 { // ad sensors: flag bytes with one, two, all but one and all bits
			fl = nil
			for a := 0; a < 16; a++ {
				for b := 0; b <= a; b++ {
					fl = append(fl, 1<<a|1<<b, 0xFFFF&^(1<<a|1<<b))
				}
			}
			fl = append(fl, 0, 0xFFFF)
		}
		const nctx = 5
		out = append(out, mc.Space{Name: "ctx/" + s.Name, N: uint64(len(fl)) * gen.NPat * nctx, Do: func(c *mc.C, i uint64) {
			ctx := i % nctx
			i /= nctx
			d := s.Build(fl[i/gen.NPat], gen.Pattern(s, int(i%gen.NPat)))
			x := egts.RecordData{SubrecordData: d, SubrecordType: s.Type}
			var p *egts.Package
			switch ctx {
			case 0:
				p = gen.SetFlags(gen.Pack(gen.WithSub(gen.RecF(7, 65535, 1, 2, 3, 4, 5), x)), 0x23)
				p.PeerAddress, p.RecipientAddress, p.TimeToLive = 0x8081, 0x8283, 0x84
			case 1:
				p = gen.Respond(0xFFFE, 0x80, 0)
				(*p.ServicesFrameData.(*egts.PtResponse).SDR.(*egts.ServiceDataSet))[0].RecordDataSet = egts.RecordDataSet{x, x}
			case 2:
				p = gen.Pack(gen.WithSub(gen.Rec(1), gen.SubT(16, 2), x, gen.SubT(27, 2)))
			case 3:
				p = gen.Pack(gen.WithSub(gen.Rec(1), gen.SubT(18, 1)), gen.WithSub(gen.RecF(5, 2, 9, 0, 8, 1, 1), x))
			case 4:
				p = gen.Pack(gen.WithSub(gen.Rec(1), x, gen.SubT(s.Type, 2), gen.SubT(s.Type, 7)), gen.WithSub(gen.Rec(2), gen.SubT(s.Type, 0)))
			}
			do(c, p)
		}})
	}
	// every day of the format's years, at its first, second, middle and last second, as time of the position and of the record
	out = append(out, mc.Space{Name: "times/days", N: 49711 * 4 * 2, Do: func(c *mc.C, i uint64) {
		t := i/8*86400 + []uint64{0, 1, 43200, 86399}[i/2%4]
		if t > 0xFFFFFFFF {
			c.Outcome("beyond the last second")
			return
		}
		d := gen.Sec(16, 0x80, 1).(*egts.SrPosData)
		r := gen.RecF(7, 5, 1, 2, 1000, 2, 2)
		if i%2 == 0 {
			d.NavigationTime = ref.TimeOf(uint32(t))
		} else {
			r = gen.RecF(7, 5, 1, 2, uint32(t), 2, 2)
		}
		do(c, gen.Pack(gen.WithSub(r, egts.RecordData{SubrecordType: 16, SubrecordData: d})))
	}})
	return out
}

// zoneSpace: the encoded instant does not depend on the location of the time value.
func zoneSpace() mc.Space {
	return mc.Space{Name: "pos/zones", N: 27 * 2 * 8, Do: func(c *mc.C, i uint64) {
		z := int(i%27) - 13
		i /= 27
		loc := zone(z)
		pat := int(i % 8)
		d := gen.Sec(16, 255, pat).(*egts.SrPosData)
		if i/8 == 0 {
			d.NavigationTime = d.NavigationTime.In(loc)
			roundTrip(c, gen.Pack(gen.Rec(1, d)))
			return
		}
		r := gen.Rec(1, d)
		r.TimeFieldExists = "1"
		r.Time = d.NavigationTime.In(loc)
		roundTrip(c, gen.Pack(r))
	}}
}

func relayPackage(c *mc.C, p *egts.Package) {
	b, ok := ref.EncodePackage(p, nil)
	if !ok {
		c.Failf("harness: packet not representable: %s", short(p))
		return
	}
	relay(c, b)
}

func relay(c *mc.C, b []byte) {
	c.Describe("bytes %s", hx(b))
	in := append([]byte{}, b...)
	var q egts.Package
	code, err := q.Decode(in)
	c.Op(1)
	if err != nil || code != 0 {
		c.Failf("a valid packet is not accepted: code %d, %v\nbytes %s", code, err, hx(b))
		return
	}
	out, err := q.Encode()
	c.Op(1)
	if err != nil {
		c.Failf("re-encoding failed: %v\nbytes %s", err, hx(b))
		return
	}
	if !bytes.Equal(out, b) {
		c.Failf("re-encoding gives other bytes\nin  %s\nout %s", hx(b), hx(out))
		return
	}
	c.State('b', b)
	c.Trace()
	c.Outcome("identical")
}

func relaySection(c *mc.C, t byte, d egts.BinaryData) {
	b, ok := ref.EncodeSection(d)
	if !ok {
		c.Failf("harness: not representable: %s", short(d))
		return
	}
	e := ref.NewSection(t)
	err := e.Decode(b)
	if err == nil {
		var o []byte
		o, err = e.Encode()
		if err == nil && !bytes.Equal(o, b) {
			c.Failf("re-encoding gives other bytes\nin  %s\nout %s", hx(b), hx(o))
		}
	}
	if err != nil {
		c.Failf("section is not accepted or encoded: %v bytes %s", err, hx(b))
	}
	c.Op(2)
	c.Trace()
	c.Outcome("identical")
}

func wirePackage(c *mc.C, p *egts.Package) {
	b, ok := ref.EncodePackage(p, nil)
	if !ok {
		c.Failf("harness: packet not representable: %s", short(p))
		return
	}
	want := short(p)
	c.Describe("package %s", want)
	c.Describe("reference bytes %s", hx(b))
	o, err := p.Encode()
	c.Op(1)
	if err != nil {
		c.Failf("encoding failed: %v\n%s", err, want)
		return
	}
	if !bytes.Equal(o, b) {
		c.Failf("encoded bytes differ from the standard's\ngot  %s\nwant %s\npacket %s", hx(o), hx(b), want)
		return
	}
	v := ref.DecodePackage(b, nil)
	var q egts.Package
	code, err := q.Decode(append([]byte{}, b...))
	c.Op(1)
	if !v.OK() {
		c.Failf("harness: reference rejects %s", hx(b))
		return
	}
	if err != nil || code != 0 {
		c.Failf("standard bytes are not accepted: code %d, %v\nbytes %s", code, err, hx(b))
		return
	}
	if !ref.Equal(&q, v.Pkg) {
		c.Failf("standard bytes decode to %s\nbytes %s", diff(&q, v.Pkg), hx(b))
		return
	}
	c.State('b', b)
	c.Trace()
	c.Outcome("agrees with the reference")
}

func wireSection(c *mc.C, t byte, d egts.BinaryData) {
	b, ok := ref.EncodeSection(d)
	if !ok {
		c.Failf("harness: not representable: %s", short(d))
		return
	}
	o, err := d.Encode()
	c.Op(1)
	if err != nil || !bytes.Equal(o, b) {
		c.Failf("encoded section differs from the standard's: %v\ngot  %s\nwant %s\n%s", err, hx(o), hx(b), short(d))
		return
	}
	e := ref.NewSection(t)
	err = e.Decode(b)
	c.Op(1)
	r, _, _ := ref.DecodeSection(t, b)
	if err != nil || !ref.Equal(e, r) {
		c.Failf("standard bytes decode to %s (%v)\nbytes %s", diff(e, r), err, hx(b))
		return
	}
	c.Trace()
	c.Outcome("section agrees with the reference")
}

// rawPos decodes position sections with every raw speed and course combination (tenths of km/h, high bits).
func rawPos(th bool) mc.Space {
	n := uint64(65536 * 4)
	return mc.Space{Name: "pos/rawspeed", N: n, Do: func(c *mc.C, i uint64) {
		b, _ := ref.EncodeSection(gen.Sec(16, 0xFF, 2))
		b[13], b[14] = byte(i), byte(i>>8)
		b[15] = []byte{0, 0x67, 0x7F, 0xFF}[i>>16]
		e := &egts.SrPosData{}
		err := e.Decode(b)
		c.Op(1)
		r, _, _ := ref.DecodeSection(16, b)
		if err != nil || !ref.Equal(e, r) {
			c.Failf("decodes to %s (%v)\nbytes %s", diff(e, r), err, hx(b))
		}
		c.Trace()
	}}
}

// coordSpace: latitudes and longitudes. Index = raw value chunk; each execution checks 256 values.
func coordSpace(th, relay bool) mc.Space {
	const per = 4096
	base := []uint32{0, 0x80000000, 0x7FFFFFFF, 0xAAAAAAAA, 0x12345678}
	n := uint64(len(base)) * 2 * 65536 / per
	if th {
		n = 1 << 32 / per
	}
	return mc.Space{Name: "pos/coordinates", N: n, Do: func(c *mc.C, i uint64) {
		tmpl, _ := ref.EncodeSection(gen.Sec(16, 0xFF, 2))
		b := append([]byte{}, tmpl...)
		for k := uint64(0); k < per; k++ {
			var raw uint32
			if th {
				raw = uint32(i*per + k)
			} else {
				x := i*per + k
				bg := base[x>>17]
				if x>>16&1 == 0 {
					raw = bg&0xFFFF0000 | uint32(x&0xFFFF)
				} else {
					raw = bg&0xFFFF | uint32(x&0xFFFF)<<16
				}
			}
			lon := raw*2654435761 + 12345 // a bijection, so all longitudes are covered as well
			put32(b[4:], raw)
			put32(b[8:], lon)
			if relay {
				e := &egts.SrPosData{}
				err := e.Decode(b)
				if err != nil {
					c.Failf("not decoded: %v, bytes %s", err, hx(b))
					return
				}
				o, err := e.Encode()
				if err != nil || !bytes.Equal(o, b) {
					c.Failf("latitude raw %#x or longitude raw %#x drifts: in %s out %s (%v)", raw, lon, hx(b), hx(o), err)
					return
				}
			} else {
				d := gen.Sec(16, 0, 0).(*egts.SrPosData)
				d.Latitude, d.Longitude = ref.LatOf(raw), ref.LonOf(lon)
				o, err := d.Encode()
				if err != nil {
					c.Failf("not encoded: %v, raw %#x %#x", err, raw, lon)
					return
				}
				e := &egts.SrPosData{}
				if err = e.Decode(o); err != nil || !ref.Equal(e, d) {
					c.Failf("latitude raw %#x, longitude raw %#x: decodes to %s (%v)", raw, lon, diff(e, d), err)
					return
				}
			}
			if th && k%512 == 0 {
				mc.Beat()
			}
		}
		c.Op(2 * per)
		c.Trace()
		c.Outcome("coordinate block")
	}}
}

func put32(b []byte, v uint32) {
	b[0], b[1], b[2], b[3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
}

// wideSweeps covers all values of the 24-bit fields and, for the 32-bit ones, all pairs of 16-bit halves with
// equal or constant other half.
func wideSweeps(do func(c *mc.C, t byte, d egts.BinaryData)) []mc.Space {
	var out []mc.Space
	for _, s := range gen.Specs {
		s := s
		if s.Type == 15 {
			continue
		}
		for k, f := range s.Fields {
			k := k
			if f.Bits != 24 && f.Bits != 32 {
				continue
			}
			const per = 1024
			out = append(out, mc.Space{Name: "wide/" + s.Name + "/" + f.Name, N: 1 << 24 / per, Do: func(c *mc.C, i uint64) {
				v := gen.Pattern(s, 2)
				for j := uint64(0); j < per; j++ {
					x := uint32(i*per + j)
					if s.Fields[k].Bits == 32 {
						x = x * 0x01000193 // spread over 32 bits, injective on 24-bit numbers
					}
					v[k].U = x
					do(c, s.Type, s.Build(s.All, v))
				}
			}})
		}
	}
	return out
}

// ---- C07 ----------------------------------------------------------------------------------------------

func c07() mc.Check {
	return mc.Check{Bound: "reported length of every enumerated section, record set and response; all 16 subsets of {header length, record length, subrecord length, subrecord type} set or left unset over every section, sequences of 2 sections and response packets; every enumerated transport header, record header and composition with everything left unset; every size around the 16-bit limit for subrecords, records and frames",
		Spaces: func(tier string) []mc.Space {
			th := tier == "thorough"
			var out []mc.Space
			for _, s := range gen.SectionSpaces(th) {
				s := s
				out = append(out, mc.Space{Name: "len/" + s.Name, N: s.N, Do: func(c *mc.C, i uint64) {
					d := s.At(i)
					lengthOf(c, d)
				}})
			}
			for _, s := range gen.RecordSpaces(th) {
				s := s
				out = append(out, mc.Space{Name: "len/" + s.Name, N: s.N, Do: func(c *mc.C, i uint64) {
					p := s.At(i)
					lengthOf(c, p.ServicesFrameData)
					for k := range *p.ServicesFrameData.(*egts.ServiceDataSet) {
						lengthOf(c, &(*p.ServicesFrameData.(*egts.ServiceDataSet))[k].RecordDataSet)
					}
				}})
			}
			out = append(out, mc.Space{Name: "len/resp", N: 300, Do: func(c *mc.C, i uint64) { lengthOf(c, gen.Respond(1, 2, int(i)-1).ServicesFrameData) }})
			nt := uint64(len(gen.Types))
			// subsets: bit 0 HL, 1 RL, 2 SRL, 3 SRT, 4 garbage FDL; route; kind
			out = append(out, mc.Space{Name: "unset/one", N: nt * gen.NPat * 32 * 2 * 2, Do: func(c *mc.C, i uint64) {
				m := uint(i % 32)
				i /= 32
				route, resp := i%2 == 1, i/2%2 == 1
				i /= 4
				unset(c, m, route, resp, []egts.RecordData{gen.SubT(gen.Types[i/gen.NPat], int(i%gen.NPat))})
			}})
			out = append(out, mc.Space{Name: "unset/two", N: nt * nt * 32 * 2, Do: func(c *mc.C, i uint64) {
				m := uint(i % 32)
				i /= 32
				route := i%2 == 1
				i /= 2
				unset(c, m, route, false, []egts.RecordData{gen.SubT(gen.Types[i%nt], 2), gen.SubT(gen.Types[i/nt], 7)})
			}})
			// mixed: each of two subrecords has its own subset of {length, type} set
			out = append(out, mc.Space{Name: "unset/mixed", N: nt * nt * 16, Do: func(c *mc.C, i uint64) {
				m := uint(i % 16)
				i /= 16
				p := gen.Pack(gen.WithSub(gen.Rec(1), gen.SubT(gen.Types[i%nt], 5), gen.SubT(gen.Types[i/nt], 2)))
				want, _ := ref.EncodePackage(p, nil)
				s := *p.ServicesFrameData.(*egts.ServiceDataSet)
				for k := range s[0].RecordDataSet {
					x := &s[0].RecordDataSet[k]
					sb, _ := ref.EncodeSection(x.SubrecordData)
					t := x.SubrecordType
					x.SubrecordType = 0
					if m>>(2*k)&1 != 0 || t == 20 {
						x.SubrecordType = t
					}
					if m>>(2*k)&2 != 0 {
						x.SubrecordLength = uint16(len(sb))
					}
				}
				sameBytes(c, p, want)
			}})
			// every transport and record header with all lengths and types left unset, and with the header length set
			for _, s := range append(gen.HeaderSpaces(th), gen.RecordSpaces(th)...) {
				s := s
				out = append(out, mc.Space{Name: "fill/" + s.Name, N: s.N, Do: func(c *mc.C, i uint64) {
					p := s.At(i)
					want, ok := ref.EncodePackage(p, nil)
					if !ok {
						c.Failf("harness: not representable")
						return
					}
					sets := []egts.BinaryData{p.ServicesFrameData}
					if r, ok := p.ServicesFrameData.(*egts.PtResponse); ok {
						sets[0] = r.SDR
					}
					if ss, ok := sets[0].(*egts.ServiceDataSet); ok && ss != nil {
						for j := range *ss {
							for k := range (*ss)[j].RecordDataSet {
								if x := &(*ss)[j].RecordDataSet[k]; x.SubrecordType != 20 {
									x.SubrecordType = 0
								}
							}
						}
					}
					sameBytes(c, p, want)
				}})
			}
			// a packet that was encoded (or asked for its length), changed and encoded again
			out = append(out, mc.Space{Name: "again", N: nt * gen.NPat * nt * gen.NPat * 2, Do: func(c *mc.C, i uint64) {
				mode := i % 2
				i /= 2
				again(c, mode == 1, gen.SubT(gen.Types[i%nt], int(i/nt%gen.NPat)), gen.SubT(gen.Types[i/nt/gen.NPat%nt], int(i/nt/gen.NPat/nt)))
			}})
			out = append(out, sizeSpaces(th)...)
			return out
		}}
}

func lengthOf(c *mc.C, d egts.BinaryData) {
	b, err := d.Encode()
	n := d.Length()
	c.Op(2)
	if err != nil {
		c.Failf("encoding failed: %v for %s", err, short(d))
		return
	}
	if len(b) <= 0xFFFF && int(n) != len(b) {
		c.Failf("reported length %d, encoded length %d for %s", n, len(b), short(d))
		return
	}
	c.State('l', b)
	c.Trace()
	c.Outcome("length agrees")
}

// again encodes a packet, replaces content, adds content, and encodes it again; the lengths stay left to the encoder.
func again(c *mc.C, resp bool, a, b egts.RecordData) {
	mk := func(n int) *egts.Package {
		p := gen.Pack(gen.WithSub(gen.Rec(1), a, gen.SubT(24, 2)), gen.WithSub(gen.Rec(2), gen.SubT(27, 2)))
		if resp {
			p.PacketType = 0
			p.ServicesFrameData = &egts.PtResponse{ResponsePacketID: 77, ProcessingResult: 1, SDR: p.ServicesFrameData}
		}
		return p
	}
	records := func(p *egts.Package) egts.ServiceDataSet {
		if r, ok := p.ServicesFrameData.(*egts.PtResponse); ok {
			return *r.SDR.(*egts.ServiceDataSet)
		}
		return *p.ServicesFrameData.(*egts.ServiceDataSet)
	}
	change := func(p *egts.Package, n int) {
		s := records(p)
		switch n {
		case 1: // other content in place of the first subrecord
			s[0].RecordDataSet[0].SubrecordType, s[0].RecordDataSet[0].SubrecordData = b.SubrecordType, b.SubrecordData
		case 2: // and one more subrecord
			s[1].RecordDataSet = append(s[1].RecordDataSet, b)
		}
	}
	p := mk(0)
	for n := 0; n < 3; n++ {
		q := mk(0)
		for k := 0; k <= n; k++ {
			change(q, k)
			if k == n {
				change(p, k)
			}
		}
		want, ok := ref.EncodePackage(q, nil)
		if !ok {
			c.Failf("harness: not representable")
			return
		}
		if n == 1 {
			_ = p.ServicesFrameData.Length()
			c.Op(1)
		}
		c.Describe("encoding number %d of the packet", n+1)
		sameBytes(c, p, want)
	}
}

func unset(c *mc.C, m uint, route, resp bool, subs []egts.RecordData) {
	p := gen.Pack(gen.WithSub(gen.RecF(3, 5, 6, 7, 0, 8, 9), subs...))
	if resp {
		s := p.ServicesFrameData
		p.PacketType = 0
		p.ServicesFrameData = &egts.PtResponse{ResponsePacketID: 77, ProcessingResult: 1, SDR: s}
	}
	if route {
		gen.SetFlags(p, 0x20)
		p.PeerAddress, p.RecipientAddress, p.TimeToLive = 1, 2, 3
	}
	want, ok := ref.EncodePackage(p, nil)
	if !ok {
		c.Failf("harness: not representable")
		return
	}
	var s egts.ServiceDataSet
	if resp {
		s = *p.ServicesFrameData.(*egts.PtResponse).SDR.(*egts.ServiceDataSet)
	} else {
		s = *p.ServicesFrameData.(*egts.ServiceDataSet)
	}
	if m&1 != 0 {
		p.HeaderLength = 11
		if route {
			p.HeaderLength = 16
		}
	}
	rb, _ := ref.EncodeRecordData(s[0].RecordDataSet)
	if m&2 != 0 {
		s[0].RecordLength = uint16(len(rb))
	}
	for k := range s[0].RecordDataSet {
		x := &s[0].RecordDataSet[k]
		if m&4 != 0 {
			sb, _ := ref.EncodeSection(x.SubrecordData)
			x.SubrecordLength = uint16(len(sb))
		}
		if m&8 == 0 && x.SubrecordType != 20 { // 20 cannot be filled in: its section's own number is 21
			x.SubrecordType = 0
		}
	}
	if m&16 != 0 { // the frame length is always recomputed
		p.FrameDataLength = 0xBEEF
	}
	sameBytes(c, p, want)
}

func sameBytes(c *mc.C, p *egts.Package, want []byte) {
	c.Describe("package %s", short(p))
	d := short(p)
	want2 := gen.Norm(p)
	b, err := p.Encode()
	c.Op(1)
	if err != nil {
		c.Failf("encoding failed: %v\n%s", err, d)
		return
	}
	var q egts.Package
	code, err := q.Decode(b)
	c.Op(1)
	if err != nil || code != 0 || !ref.Equal(gen.Norm(&q), want2) {
		c.Failf("the packet with filled-in fields does not decode to the same content: code %d %v\n%s\nbytes %s\n%s", code, err, d, hx(b), diff(gen.Norm(&q), want2))
		return
	}
	if len(b) != len(want) {
		c.Failf("filled-in fields give %d bytes instead of %d\ngot  %s\nwant %s", len(b), len(want), hx(b), hx(want))
		return
	}
	if !bytes.Equal(b, want) {
		c.Failf("filled-in fields are wrong\ngot  %s\nwant %s\n%s", hx(b), hx(want), d)
		return
	}
	c.State('b', b)
	c.Trace()
	c.Outcome("filled in as if set by the caller")
}

// sizeSpaces: content around every 16-bit limit either fits and decodes back, or is refused.
func sizeSpaces(th bool) []mc.Space {
	str := func(n int) string {
		b := make([]byte, n)
		for k := range b {
			b[k] = byte('a' + k%26)
		}
		return string(b)
	}
	fitOrRefuse := func(c *mc.C, p *egts.Package) {
		_, fits := ref.EncodePackage(p, nil)
		want := gen.Norm(p)
		b, err := p.Encode()
		c.Op(1)
		if !fits {
			if err == nil {
				var q egts.Package
				code, derr := q.Decode(b)
				c.Failf("content that does not fit a length field was encoded to %d bytes (decoding them: code %d, %v)", len(b), code, derr)
			}
			c.Outcome("refused")
			c.Trace()
			return
		}
		if err != nil {
			c.Failf("content that fits was refused: %v", err)
			return
		}
		var q egts.Package
		code, derr := q.Decode(b)
		c.Op(1)
		if derr != nil || code != 0 || !ref.Equal(gen.Norm(&q), want) {
			c.Failf("content of %d bytes does not decode back: code %d %v", len(b), code, derr)
			return
		}
		c.State('b', b)
		c.Outcome("fits")
		c.Trace()
	}
	span := uint64(120)
	var out []mc.Space
	// a single large subrecord, for every section with a variable length
	mk := []func(n int) egts.BinaryData{
		func(n int) egts.BinaryData { return &egts.SrDispatcherIdentity{Description: str(n - 5)} },
		func(n int) egts.BinaryData { return &egts.SrAuthInfo{UserName: str(n - 3), UserPassword: "p"} },
		func(n int) egts.BinaryData {
			return &egts.SrAuthInfo{UserName: "u", UserPassword: "p", ServerSequence: str(n - 5)}
		},
		func(n int) egts.BinaryData { return &egts.SrModuleData{SerialNumber: "1", Description: str(n - 14)} },
		func(n int) egts.BinaryData { return &egts.SrModuleData{SerialNumber: str(n - 13)} },
	}
	out = append(out, mc.Space{Name: "size/subrecord", N: span * uint64(len(mk)) * 2, Do: func(c *mc.C, i uint64) {
		set := i%2 == 1
		i /= 2
		n := 65536 - 60 + int(i%span)
		d := mk[i/span](n)
		c.Describe("subrecord of %d bytes", n)
		r := gen.Rec(1, d)
		if set && n <= 0xFFFF {
			r.RecordDataSet[0].SubrecordLength = uint16(n)
			if n+3 <= 0xFFFF {
				r.RecordLength = uint16(n + 3)
			}
		}
		fitOrRefuse(c, gen.Pack(r))
	}})
	// two records / two subrecords whose sum crosses the limit
	out = append(out, mc.Space{Name: "size/record", N: span, Do: func(c *mc.C, i uint64) {
		n := 65536 - 60 + int(i) - 30000 - 3 - 3
		fitOrRefuse(c, gen.Pack(gen.Rec(1, mk[0](30000), mk[0](n))))
	}})
	out = append(out, mc.Space{Name: "size/frame", N: span, Do: func(c *mc.C, i uint64) {
		n := 65536 - 60 + int(i) - 30000 - 6 - 14
		fitOrRefuse(c, gen.Pack(gen.Rec(1, mk[0](30000)), gen.Rec(2, mk[0](n))))
	}})
	out = append(out, mc.Space{Name: "size/response", N: span, Do: func(c *mc.C, i uint64) {
		n := 65536 - 60 + int(i) - 3 - 7 - 3
		p := gen.Pack(gen.Rec(1, mk[0](n)))
		s := p.ServicesFrameData
		p.PacketType = 0
		p.ServicesFrameData = &egts.PtResponse{ResponsePacketID: 7, SDR: s}
		fitOrRefuse(c, p)
	}})
	// many small pieces
	out = append(out, mc.Space{Name: "size/many", N: 80, Do: func(c *mc.C, i uint64) {
		r := gen.Rec(1)
		n := 9352 + int(i) // 7 bytes each: 65464 .. 66017
		if i >= 40 {       // many records of 7+6 bytes
			var rs []egts.ServiceDataRecord
			for k := 0; k < 5030+int(i-40); k++ { // 13 bytes each: 65390 ..
				rs = append(rs, gen.Rec(uint16(k), &egts.SrResponse{ConfirmedRecordNumber: uint16(k)}))
			}
			fitOrRefuse(c, gen.Pack(rs...))
			return
		}
		for k := 0; k < n; k++ {
			r.RecordDataSet = append(r.RecordDataSet, egts.RecordData{SubrecordData: &egts.SrAbsCntrData{CounterNumber: byte(k), CounterValue: uint32(k)}})
		}
		fitOrRefuse(c, gen.Pack(r))
	}})
	// record and subrecord sets on their own: each refuses what its own length fields cannot hold
	out = append(out, mc.Space{Name: "size/sets", N: (span + 6) * uint64(len(mk)) * 4, Do: func(c *mc.C, i uint64) {
		two, records := i%2 == 1, i/2%2 == 1
		i /= 4
		n := 65536 - 60 + int(i%(span+6))
		if k := int(i % (span + 6)); k >= int(span) {
			n = []int{65536 + 80, 70000, 131072 - 3, 131072, 131072 + 30, 200000}[k-int(span)]
		}
		d := mk[i/(span+6)](n)
		rds := egts.RecordDataSet{{SubrecordData: d}}
		if two {
			rds = egts.RecordDataSet{{SubrecordData: mk[0](300)}, {SubrecordData: d}, gen.SubT(24, 2)}
		}
		total := n + 3
		if two {
			total += 303 + 7
		}
		fits := n <= 0xFFFF
		var s, q egts.BinaryData = &rds, &egts.RecordDataSet{}
		if records {
			s, q = &egts.ServiceDataSet{gen.Rec(7), func() egts.ServiceDataRecord { r := gen.Rec(1); r.RecordDataSet = rds; return r }(), gen.Rec(9)}, &egts.ServiceDataSet{}
			fits = total <= 0xFFFF
		}
		c.Describe("subrecord of %d bytes, with others %v, in a record %v", n, two, records)
		b, err := s.Encode()
		c.Op(1)
		if !fits {
			if err == nil {
				c.Failf("content that does not fit a length field was encoded to %d bytes", len(b))
			}
			c.Outcome("refused")
			return
		}
		if err != nil {
			c.Failf("content that fits was refused: %v", err)
			return
		}
		c.Op(1)
		if err := q.Decode(b); err != nil {
			c.Failf("content of %d bytes does not decode back: %v", len(b), err)
			return
		}
		var back egts.RecordDataSet
		if x, ok := q.(*egts.RecordDataSet); ok {
			back = *x
		} else if x := *q.(*egts.ServiceDataSet); len(x) == 3 {
			back = x[1].RecordDataSet
		}
		if len(back) != len(rds) || !ref.Equal(back[len(back)/2].SubrecordData, d) {
			c.Failf("content of %d bytes decodes back to something else", len(b))
			return
		}
		c.State('b', b)
		c.Outcome("fits")
		c.Trace()
	}})
	// far beyond
	out = append(out, mc.Space{Name: "size/huge", N: 12, Do: func(c *mc.C, i uint64) {
		n := []int{70000, 131072 - 20, 131072, 131072 + 20, 196608, 300000}[i%6]
		if i < 6 {
			fitOrRefuse(c, gen.Pack(gen.Rec(1, mk[0](n))))
		} else {
			var rs []egts.ServiceDataRecord
			for k := 0; k < n/1000; k++ {
				rs = append(rs, gen.Rec(uint16(k), mk[0](990)))
			}
			fitOrRefuse(c, gen.Pack(rs...))
		}
	}})
	return out
}
