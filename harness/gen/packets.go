package gen

import (
	"fmt"
	"sort"
	"sync"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"verifharness/ref"
)

// PSpace enumerates packages.
type PSpace struct {
	Name string
	N    uint64
	At   func(i uint64) *egts.Package
}

// Pack puts records into a default application-data packet.
func Pack(recs ...egts.ServiceDataRecord) *egts.Package {
	s := egts.ServiceDataSet(recs)
	return &egts.Package{ProtocolVersion: 1, Prefix: "00", Route: "0", EncryptionAlg: "00", Compression: "0", Priority: "10", PacketIdentifier: 0x1234, PacketType: 1, ServicesFrameData: &s}
}

// Rec makes a record with default header fields.
func Rec(rn uint16, secs ...egts.BinaryData) egts.ServiceDataRecord {
	r := RecF(0, rn, 0, 0, 0, 2, 2)
	for _, s := range secs {
		r.RecordDataSet = append(r.RecordDataSet, egts.RecordData{SubrecordType: ref.TypeOf(s), SubrecordData: s})
	}
	return r
}

// RecF makes a record from a flag byte and field values; absent fields stay zero.
func RecF(f uint, rn uint16, oid, evid, tm uint32, sst, rst byte) egts.ServiceDataRecord {
	r := egts.ServiceDataRecord{RecordNumber: rn, SourceServiceOnDevice: b1(f, 7), RecipientServiceOnDevice: b1(f, 6), Group: b1(f, 5), RecordProcessingPriority: ref.Bits(f>>3, 2),
		TimeFieldExists: b1(f, 2), EventIDFieldExists: b1(f, 1), ObjectIDFieldExists: b1(f, 0), SourceServiceType: sst, RecipientServiceType: rst}
	if f&1 != 0 {
		r.ObjectIdentifier = oid
	}
	if f&2 != 0 {
		r.EventIdentifier = evid
	}
	if f&4 != 0 {
		r.Time = ref.TimeOf(tm)
	}
	return r
}

// Sec builds a section from a type, flags and a pattern.
func Sec(t byte, flags uint, pat int) egts.BinaryData {
	s := SpecOf(t)
	return s.Build(flags, Pattern(s, pat))
}

// Types are all subrecord types the library supports, 20 being the state section's second number.
var Types = []byte{16, 17, 18, 19, 1, 2, 5, 7, 9, 0, 21, 20, 24, 25, 27, 15}

// SubT makes a subrecord of a type with all optional fields and a pattern.
func SubT(t byte, pat int) egts.RecordData {
	s := SpecOf(t)
	return egts.RecordData{SubrecordType: t, SubrecordData: s.Build(s.All, Pattern(s, pat))}
}

// SSpace enumerates sections.
type SSpace struct {
	Name string
	Type byte
	N    uint64
	At   func(i uint64) egts.BinaryData
}

// SectionSpaces enumerates the sections: flags x patterns, sweeps of every field, pairs of boundary values.
func SectionSpaces(thorough bool) []SSpace {
	var out []SSpace
	for _, s := range Specs {
		s := s
		nf := uint64(len(s.Flags))
		out = append(out, SSpace{s.Name + "/flags", s.Type, nf * NPat, func(i uint64) egts.BinaryData {
			return s.Build(s.Flags[i/NPat], Pattern(s, int(i%NPat)))
		}})
		for k := range s.Fields {
			k := k
			// (flags, background pattern)
			bg := [][2]uint{{s.All, 2}, {s.Only(k), 0}, {s.Only(k), 1}}
			if thorough {
				bg = append(bg, [2]uint{s.All, 1}, [2]uint{s.All, 4}, [2]uint{s.All, 0})
			}
			sw := lazy(func() []Val { return Sweep(s.Fields[k], thorough) })
			n := uint64(len(Sweep(s.Fields[k], thorough)))
			out = append(out, SSpace{s.Name + "/sweep/" + s.Fields[k].Name, s.Type, n * uint64(len(bg)), func(i uint64) egts.BinaryData {
				b := bg[i%uint64(len(bg))]
				v := Pattern(s, int(b[1]))
				v[k] = sw()[i/uint64(len(bg))]
				return s.Build(b[0], v)
			}})
		}
		// every combination of zero and non-zero fields (at most twelve at a time), with all optional fields and with few
		if n := len(s.Fields); n > 0 {
			w := n
			if w > 12 {
				w = 12
			}
			starts := []int{0}
			for st := 6; st+w <= n; st += 6 {
				starts = append(starts, st)
			}
			if last := n - w; last > starts[len(starts)-1] {
				starts = append(starts, last)
			}
			per := uint64(1) << w
			out = append(out, SSpace{s.Name + "/zeros", s.Type, per * uint64(len(starts)) * 2, func(i uint64) egts.BinaryData {
				z := i % per
				i /= per
				st := starts[i/2]
				a, o := Pattern(s, 2), Pattern(s, 0)
				if i%2 == 1 {
					a, o = Pattern(s, 1), Pattern(s, 2)
				}
				v := append([]Val{}, a...)
				for k := 0; k < w; k++ {
					if z>>uint(k)&1 != 0 {
						v[st+k] = o[st+k]
					}
				}
				return s.Build(s.All, v)
			}})
		}
		type pair struct{ a, b int }
		var ps []pair
		var off []uint64
		tot := uint64(0)
		edges := make([][]Val, len(s.Fields))
		for k := range s.Fields {
			edges[k] = Edge(s.Fields[k], k)
		}
		for a := range s.Fields {
			for b := 0; b < a; b++ {
				if s.Type == 15 && b > 3 && s.Only(a) != s.Only(b) { // other messages are independent protobuf fields
					continue
				}
				ps = append(ps, pair{a, b})
				off = append(off, tot)
				tot += uint64(len(edges[a]) * len(edges[b]))
			}
		}
		if tot > 0 {
			out = append(out, SSpace{s.Name + "/pairs", s.Type, tot, func(i uint64) egts.BinaryData {
				j := sort.Search(len(off), func(k int) bool { return off[k] > i }) - 1
				r := i - off[j]
				v := Pattern(s, 0)
				if s.Type == 7 {
					v = Pattern(s, 2)
				}
				p := ps[j]
				v[p.a] = edges[p.a][r%uint64(len(edges[p.a]))]
				v[p.b] = edges[p.b][r/uint64(len(edges[p.a]))]
				return s.Build(s.All, v)
			}})
		}
	}
	return out
}

func lazy(f func() []Val) func() []Val {
	var once sync.Once
	var v []Val
	return func() []Val {
		once.Do(func() { v = f() })
		return v
	}
}

// InPackage wraps a section space into packages: a single record holding the section.
func InPackage(s SSpace) PSpace {
	return PSpace{"pkg/" + s.Name, s.N, func(i uint64) *egts.Package { return Pack(Rec(7, s.At(i))) }}
}

// RecP is a record with the given flags whose header fields follow a pattern.
func RecP(f uint, pat int) egts.ServiceDataRecord {
	pv := func(k int) uint32 { return patVal(Field{Bits: 32}, k, pat).U }
	return RecF(f, uint16(pv(0)), pv(1), pv(2), pv(3), byte(pv(4)), byte(pv(5)))
}

// RecordSpaces enumerates record headers and compositions.
func RecordSpaces(thorough bool) []PSpace {
	pv := func(k, pat int) uint32 { return patVal(Field{Bits: 32}, k, pat).U }
	out := []PSpace{
		{"rec/flags", 256 * NPat, func(i uint64) *egts.Package {
			f, p := uint(i/NPat), int(i%NPat)
			return Pack(withSub(RecF(f, uint16(pv(0, p)), pv(1, p), pv(2, p), pv(3, p), byte(pv(4, p)), byte(pv(5, p))), SubT(16, 2)))
		}},
		{"rec/flags-pairs", 256 * 256, func(i uint64) *egts.Package {
			a, b := uint(i/256), uint(i%256)
			return Pack(withSub(RecF(a, 1, 0x11121314, 0x21222324, 0x31323334, 2, 4), SubT(27, 2)), withSub(RecF(b, 2, 0x41424344, 0x51525354, 0x61626364, 5, 6), SubT(16, 5)))
		}},
	}
	// every combination of zero and non-zero record header fields
	out = append(out, PSpace{"rec/zeros", 256 * 64 * 3, func(i uint64) *egts.Package {
		z := i & 63
		i >>= 6
		m := []uint32{1, 0x04030201, 0xFFFFFFFF}[i%3]
		f := uint(i / 3)
		v := func(k uint) uint32 {
			if z>>k&1 != 0 {
				return 0
			}
			return m
		}
		return Pack(withSub(RecF(f, uint16(v(0)), v(1), v(2), v(3), byte(v(4)), byte(v(5))), SubT(16, 2)), withSub(RecF(f, uint16(v(0)), v(1), v(2), v(3), byte(v(4)), byte(v(5))), SubT(24, 2)))
	}})
	type sw struct {
		name string
		mk   func(v uint32) egts.ServiceDataRecord
		bits int
	}
	for _, s := range []sw{
		{"rn", func(v uint32) egts.ServiceDataRecord { return RecF(0, uint16(v), 0, 0, 0, 1, 2) }, 16},
		{"oid", func(v uint32) egts.ServiceDataRecord { return RecF(7, 3, v, 0x21222324, 0x31323334, 2, 2) }, 32},
		{"evid", func(v uint32) egts.ServiceDataRecord { return RecF(7, 3, 0x11121314, v, 0x31323334, 2, 2) }, 32},
		{"tm", func(v uint32) egts.ServiceDataRecord { return RecF(7, 3, 0x11121314, 0x21222324, v, 2, 2) }, 32},
		{"oid-only", func(v uint32) egts.ServiceDataRecord { return RecF(1, 3, v, 0, 0, 2, 2) }, 32},
		{"evid-only", func(v uint32) egts.ServiceDataRecord { return RecF(2, 3, 0, v, 0, 2, 2) }, 32},
		{"tm-only", func(v uint32) egts.ServiceDataRecord { return RecF(4, 3, 0, 0, v, 2, 2) }, 32},
		{"sst", func(v uint32) egts.ServiceDataRecord { return RecF(0, 3, 0, 0, 0, byte(v), 2) }, 8},
		{"rst", func(v uint32) egts.ServiceDataRecord { return RecF(0, 3, 0, 0, 0, 2, byte(v)) }, 8},
	} {
		s := s
		vals := Sweep(Field{Bits: s.bits}, thorough)
		out = append(out, PSpace{"rec/sweep/" + s.name, uint64(len(vals)), func(i uint64) *egts.Package {
			return Pack(withSub(s.mk(vals[i].U), SubT(16, 2)))
		}})
	}
	// all sequences of up to three subrecords
	nt := uint64(len(Types))
	for l := 0; l <= 3; l++ {
		l := l
		n := uint64(1)
		for k := 0; k < l; k++ {
			n *= nt
		}
		out = append(out, PSpace{fmt.Sprintf("rec/seq%d", l), n * 2, func(i uint64) *egts.Package {
			pb := int(i % 2)
			i /= 2
			r := Rec(9)
			for k := 0; k < l; k++ {
				r.RecordDataSet = append(r.RecordDataSet, SubT(Types[i%nt], []int{2, 7, 5}[(k+pb)%3]))
				i /= nt
			}
			return Pack(r)
		}})
	}
	// two and three records, each empty or with one subrecord, with every combination of optional header fields
	per := (nt + 1) * 8
	mk := func(x uint64, n int) egts.ServiceDataRecord {
		f := uint(x % 8)
		x /= 8
		r := RecF(f, uint16(100+n), uint32(0x01020300+n), uint32(0x11121300+n), uint32(0x21222300+n), byte(1+n), byte(3+n))
		if x > 0 {
			r.RecordDataSet = egts.RecordDataSet{SubT(Types[x-1], []int{2, 5, 7}[n%3])}
		}
		return r
	}
	out = append(out, PSpace{"recs/2", per * per, func(i uint64) *egts.Package { return Pack(mk(i%per, 0), mk(i/per, 1)) }})
	small := func(x uint64, n int) egts.ServiceDataRecord { // flags {none, all} x (17 contents)
		return mk((x/2)*8+(x%2)*7, n)
	}
	p3 := (nt + 1) * 2
	out = append(out, PSpace{"recs/3", p3 * p3 * p3, func(i uint64) *egts.Package {
		return Pack(small(i%p3, 0), small(i/p3%p3, 1), small(i/p3/p3, 2))
	}})
	// many records, many subrecords
	nm := uint64(260)
	if thorough {
		nm = 1200
	}
	out = append(out, PSpace{"recs/many", nm, func(i uint64) *egts.Package {
		var rs []egts.ServiceDataRecord
		for k := uint64(0); k <= i; k++ {
			rs = append(rs, withSub(RecF(uint(k%8), uint16(k), uint32(k)*7, uint32(k)*11, uint32(k)*13, 2, 2), SubT([]byte{24, 25, 9, 0}[k%4], int(k%NPat))))
		}
		return Pack(rs...)
	}})
	out = append(out, PSpace{"rec/many", nm, func(i uint64) *egts.Package {
		r := Rec(1)
		for k := uint64(0); k <= i; k++ {
			r.RecordDataSet = append(r.RecordDataSet, SubT([]byte{24, 25, 27, 16, 17}[k%5], int(k%NPat)))
		}
		return Pack(r)
	}})
	return out
}

func withSub(r egts.ServiceDataRecord, s ...egts.RecordData) egts.ServiceDataRecord {
	r.RecordDataSet = append(r.RecordDataSet, s...)
	return r
}

// WithSub adds subrecords to a record.
func WithSub(r egts.ServiceDataRecord, s ...egts.RecordData) egts.ServiceDataRecord {
	return withSub(r, s...)
}

// SetFlags sets the header flags of a package from a byte.
func SetFlags(p *egts.Package, f uint) *egts.Package {
	p.Prefix, p.Route, p.EncryptionAlg, p.Compression, p.Priority = ref.Bits(f>>6, 2), ref.Bits(f>>5, 1), ref.Bits(f>>3, 2), ref.Bits(f>>2, 1), ref.Bits(f, 2)
	return p
}

// Respond makes a response package. n < 0: no service data; otherwise n confirmations.
func Respond(rpid uint16, pr byte, n int) *egts.Package {
	e := &egts.PtResponse{ResponsePacketID: rpid, ProcessingResult: pr}
	if n >= 0 {
		r := Rec(1)
		for k := 0; k < n; k++ {
			r.RecordDataSet = append(r.RecordDataSet, egts.RecordData{SubrecordData: &egts.SrResponse{ConfirmedRecordNumber: uint16(k * 257), RecordStatus: byte(k)}})
		}
		e.SDR = &egts.ServiceDataSet{r}
	}
	p := Pack()
	p.PacketType = 0
	p.ServicesFrameData = e
	return p
}

// HeaderSpaces enumerates transport headers and responses (unencrypted).
func HeaderSpaces(thorough bool) []PSpace {
	pv := func(k, pat int) uint32 { return patVal(Field{Bits: 32}, k, pat).U }
	base := func(pt uint64) *egts.Package {
		if pt == 0 {
			return Respond(0x0102, 3, 2)
		}
		return Pack(Rec(1, Sec(16, 255, 2)))
	}
	var plain []uint
	for f := uint(0); f < 256; f++ {
		if f&0x18 == 0 {
			plain = append(plain, f)
		}
	}
	np := uint64(len(plain))
	hdr := func(p *egts.Package, f uint, skid, he byte, pid, pra, rca uint16, ttl byte) *egts.Package {
		SetFlags(p, f)
		p.SecurityKeyID, p.HeaderEncoding, p.PacketIdentifier = skid, he, pid
		if f&0x20 != 0 {
			p.PeerAddress, p.RecipientAddress, p.TimeToLive = pra, rca, ttl
		}
		return p
	}
	out := []PSpace{
		{"hdr/flags", 2 * np * NPat, func(i uint64) *egts.Package {
			pat := int(i % NPat)
			i /= NPat
			return hdr(base(i%2), plain[i/2], byte(pv(0, pat)), byte(pv(1, pat)), uint16(pv(2, pat)), uint16(pv(3, pat)), uint16(pv(4, pat)), byte(pv(5, pat)))
		}},
		{"hdr/pid", 65536 * 2, func(i uint64) *egts.Package {
			return hdr(base(1), uint(i%2)*0x20, 0, 0, uint16(i/2), 0x0102, 0x0304, 5)
		}},
		{"hdr/pra", 65536, func(i uint64) *egts.Package { return hdr(base(1), 0x20, 1, 2, 0x0304, uint16(i), 0x0708, 9) }},
		{"hdr/rca", 65536, func(i uint64) *egts.Package { return hdr(base(1), 0x20, 1, 2, 0x0304, 0x0506, uint16(i), 9) }},
		{"hdr/bytes", 3 * 256 * 2, func(i uint64) *egts.Package {
			v := byte(i)
			i >>= 8
			r := uint(i%2) * 0x20
			i /= 2
			b := [3]byte{1, 2, 3}
			b[i] = v
			return hdr(base(1), r, b[0], b[1], 0x0304, 0x0506, 0x0708, b[2])
		}},
		// every combination of zero and non-zero header fields
		{"hdr/zeros", 2 * np * 64 * 3, func(i uint64) *egts.Package {
			z := i & 63
			i >>= 6
			m := []uint32{1, 0x0201, 0xFFFFFFFF}[i%3]
			i /= 3
			v := func(k uint) uint32 {
				if z>>k&1 != 0 {
					return 0
				}
				return m
			}
			return hdr(base(i%2), plain[i/2], byte(v(0)), byte(v(1)), uint16(v(2)), uint16(v(3)), uint16(v(4)), byte(v(5)))
		}},
		{"resp/rpid", 65536, func(i uint64) *egts.Package { return Respond(uint16(i), 0, 1) }},
		{"resp/pr", 256 * 5, func(i uint64) *egts.Package { return Respond(0x0102, byte(i), int(i/256)-1) }},
		{"resp/n", 400, func(i uint64) *egts.Package { return Respond(0x0102, 0, int(i)) }},
		{"resp/seq", 17 * 17 * 2, func(i uint64) *egts.Package {
			p := Respond(1, 2, 0)
			s := *p.ServicesFrameData.(*egts.PtResponse).SDR.(*egts.ServiceDataSet)
			for k := 0; k < 2; k++ {
				if x := i % 17; x > 0 {
					s[0].RecordDataSet = append(s[0].RecordDataSet, SubT(Types[x-1], 2+k*3))
				}
				i /= 17
			}
			if i == 1 {
				s = append(s, Rec(3, Sec(9, 0, 2)))
			}
			p.ServicesFrameData.(*egts.PtResponse).SDR = &s
			return p
		}},
		// frames at and near the size limit, with a large variable-length section
		{"hdr/big", 64, func(i uint64) *egts.Package {
			n := 65535 - 7 - 3 - 5 - int(i) // body exactly at the limit for i = 0
			if i >= 32 {
				n = 16384*int(i%4) + int(i-32)
			}
			b := make([]byte, n)
			for k := range b {
				b[k] = byte('a' + k%26)
			}
			return Pack(Rec(1, &egts.SrDispatcherIdentity{DispatcherType: 1, DispatcherID: 2, Description: string(b)}))
		}},
	}
	return out
}

// PackageSpaces is everything.
func PackageSpaces(thorough bool) []PSpace {
	var out []PSpace
	for _, s := range SectionSpaces(thorough) {
		out = append(out, InPackage(s))
	}
	out = append(out, RecordSpaces(thorough)...)
	out = append(out, HeaderSpaces(thorough)...)
	return out
}

// Norm copies a package without lengths and checksums, with subrecord types filled in: the content.
func Norm(p *egts.Package) *egts.Package {
	q := *p
	q.HeaderLength, q.FrameDataLength, q.HeaderCheckSum, q.ServicesFrameDataCheckSum = 0, 0, 0, 0
	q.ServicesFrameData = normBody(p.ServicesFrameData)
	return &q
}

func normBody(d egts.BinaryData) egts.BinaryData {
	switch e := d.(type) {
	case *egts.ServiceDataSet:
		s := make(egts.ServiceDataSet, len(*e))
		for i, r := range *e {
			r.RecordLength = 0
			rds := make(egts.RecordDataSet, len(r.RecordDataSet))
			for j, x := range r.RecordDataSet {
				x.SubrecordLength = 0
				if x.SubrecordType == 0 && x.SubrecordData != nil {
					x.SubrecordType = ref.TypeOf(x.SubrecordData)
				}
				rds[j] = x
			}
			r.RecordDataSet = rds
			s[i] = r
		}
		return &s
	case *egts.PtResponse:
		x := *e
		if e.SDR != nil {
			x.SDR = normBody(e.SDR)
		}
		return &x
	}
	return d
}
