package codec

import (
	"encoding/binary"
	"fmt"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"verifharness/gen"
	"verifharness/mc"
	"verifharness/ref"
)

// ---- C24 ----------------------------------------------------------------------------------------------

// usedCase decodes the contents bs, one after the other, into one object and compares the last outcome with that of a fresh object.
func usedCase(c *mc.C, fresh func() egts.BinaryData, bs ...[]byte) {
	last := bs[len(bs)-1]
	want := fresh()
	wantErr := want.Decode(last)
	got := fresh()
	for _, b := range bs[:len(bs)-1] {
		_ = got.Decode(b)
	}
	gotErr := got.Decode(last)
	c.Op(len(bs))
	switch {
	case (wantErr == nil) != (gotErr == nil):
		c.Failf("%x into an object that held %x: error %v, into a fresh one: %v", last, bs[:len(bs)-1], gotErr, wantErr)
	case wantErr != nil:
		c.Outcome("refused in both")
	case !ref.Equal(got, want):
		c.Failf("%x into an object that held %x gives %s", last, bs[:len(bs)-1], diff(got, want))
	default:
		c.Outcome("the same")
	}
}

// usedPacket does so with packets (bit k of keyed: the k-th is decoded with a key); what the object referred to before must stay as it was.
func usedPacket(c *mc.C, keyed uint, bs ...[]byte) {
	opts := func(k int) []func(*egts.Options) {
		if keyed>>k&1 == 0 {
			return nil
		}
		return []func(*egts.Options){func(o *egts.Options) { o.Secret = xorKey{} }}
	}
	n := len(bs) - 1
	last := bs[len(bs)-1]
	var want, got egts.Package
	var bodies []egts.BinaryData
	var dumps []string
	for k, b := range bs[:n] {
		if _, err := got.Decode(b, opts(k)...); err == nil && got.ServicesFrameData != nil {
			bodies = append(bodies, got.ServicesFrameData)
			dumps = append(dumps, ref.Dump(got.ServicesFrameData))
		}
	}
	gotCode, gotErr := got.Decode(last, opts(n)...)
	wantCode, wantErr := want.Decode(last, opts(n)...)
	var dec func([]byte) ([]byte, bool)
	if keyed>>n&1 == 1 {
		dec = func(x []byte) ([]byte, bool) { x, _ = xorKey{}.Decode(x); return x, true }
	}
	v := ref.DecodePackage(last, dec)
	c.Op(len(bs))
	for k := range bodies {
		if d := ref.Dump(bodies[k]); d != dumps[k] {
			c.Failf("the body decoded from %x became %s when %x was decoded into the same packet", bs[k], d, last)
			return
		}
	}
	switch {
	case (wantErr == nil) != (gotErr == nil) || wantCode != gotCode:
		c.Failf("%x into a packet that held %x: %d %v, into a fresh one: %d %v", last, bs[:len(bs)-1], gotCode, gotErr, wantCode, wantErr)
	case !v.Unspec && !v.Allows(gotCode): // both objects suffer from what was decoded earlier
		c.Failf("%x into a packet that held %x: %d %v, the standard's code is one of %v", last, bs[:len(bs)-1], gotCode, gotErr, v.Codes)
	case wantErr != nil:
		c.Outcome("refused in both")
	case !ref.Equal(&got, &want):
		c.Failf("%x into a packet that held %x gives %s", last, bs[:len(bs)-1], diff(&got, &want))
	case v.OK() && !ref.Equal(&got, v.Pkg):
		c.Failf("%x into a packet that held %x gives %s", last, bs[:len(bs)-1], diff(&got, v.Pkg))
	default:
		c.Trace()
		c.Outcome("the same")
	}
}

func mustSection(d egts.BinaryData) []byte {
	b, ok := ref.EncodeSection(d)
	if !ok {
		panic(fmt.Sprintf("not encodable: %s", ref.Dump(d)))
	}
	return b
}

func init() {
	Checks["C24"] = func() mc.Check {
		return mc.Check{Assume: []string{"the content of an object after a failed decoding is not judged, only what the next decoding makes of it"},
			Bound: "sections: all flag combinations after and before the fullest and the emptiest content, all pairs of flag combinations (terminal identity, position, dilution) or of combinations with at most two flags set or cleared (sensors, counters), contents that end early; record data, records, responses and packets: all pairs of 30 contents of each kind, thorough all triples; packets: all header flags, all pairs of bases with every cut and every single replaced byte of the earlier one",
			Spaces: func(tier string) []mc.Space {
				th := tier == "thorough"
				var out []mc.Space
				for _, t := range gen.Types {
					t := t
					sp := gen.SpecOf(t)
					fresh := func() egts.BinaryData { return ref.NewSection(t) }
					nf := uint64(len(sp.Flags))
					full, none := mustSection(gen.Sec(t, sp.All, 2)), mustSection(gen.Sec(t, sp.Flags[0], 0))
					// every combination of flags after and before the fullest and the emptiest
					out = append(out, mc.Space{Name: fmt.Sprintf("flags/%d", t), N: nf * gen.NPat * 4, Do: func(c *mc.C, i uint64) {
						b := mustSection(gen.Sec(t, sp.Flags[i%nf], int(i/nf%gen.NPat)))
						i /= nf * gen.NPat
						x := full
						if i%2 == 1 {
							x = none
						}
						if i/2 == 1 {
							b, x = x, b
						}
						c.Describe("section %d: %x after %x", t, b, x)
						usedCase(c, fresh, x, b)
						c.State('f', append(append([]byte{t}, x...), b...))
					}})
					// pairs of combinations
					var fs []uint
					for _, f := range sp.Flags {
						n := 0
						for k := f; k != 0; k &= k - 1 {
							n++
						}
						a := 0
						for k := sp.All &^ f; k != 0; k &= k - 1 {
							a++
						}
						if nf <= 256 || n <= 2 || a <= 2 || th && (n <= 3 || a <= 3) {
							fs = append(fs, f)
						}
					}
					n := uint64(len(fs))
					out = append(out, mc.Space{Name: fmt.Sprintf("pairs/%d", t), N: n * n, Do: func(c *mc.C, i uint64) {
						a, b := mustSection(gen.Sec(t, fs[i%n], 2)), mustSection(gen.Sec(t, fs[i/n], 3))
						c.Describe("section %d: %x after %x", t, b, a)
						usedCase(c, fresh, a, b)
						c.State('p', append(append([]byte{t}, a...), b...))
					}})
					// contents that end early, in front and behind
					m := uint64(len(full))
					out = append(out, mc.Space{Name: fmt.Sprintf("cut/%d", t), N: m * gen.NPat * 3, Do: func(c *mc.C, i uint64) {
						cut := full[:i%m]
						i /= m
						a := mustSection(gen.Sec(t, sp.All, int(i%gen.NPat)))
						c.Describe("section %d: cut to %d", t, len(cut))
						switch i / gen.NPat {
						case 0:
							usedCase(c, fresh, cut, a)
						case 1:
							usedCase(c, fresh, a, cut)
						case 2:
							usedCase(c, fresh, a, cut, none)
						}
						c.State('c', append(append([]byte{t, byte(i)}, cut...), a...))
					}})
				}
				// subrecords, records, responses
				var rds, sds, prs, pks [][]byte
				for _, t := range gen.Types {
					b, _ := ref.EncodeRecordData(egts.RecordDataSet{gen.SubT(t, 2)})
					rds = append(rds, b)
					b, _ = ref.EncodeRecordData(egts.RecordDataSet{gen.SubT(t, 3), gen.SubT(16, 4), gen.SubT(t, 5)})
					rds = append(rds, b)
				}
				rds = append(rds, []byte{}, []byte{16, 200, 0, 1}, rds[0][:len(rds[0])-1], []byte{200, 1, 0, 7})
				for f := uint(0); f < 8; f++ {
					b, _ := ref.EncodeRecords(egts.ServiceDataSet{gen.WithSub(gen.RecF(f, uint16(f), 7, 8, 9, 2, 2), gen.SubT(gen.Types[f], 2))})
					sds = append(sds, b)
					b, _ = ref.EncodeRecords(egts.ServiceDataSet{gen.RecF(f, 300, 17, 18, 19, 4, 5), gen.WithSub(gen.RecF(7-f, uint16(f), 7, 8, 9, 2, 2), gen.SubT(gen.Types[8+f], 2)), gen.RecF(0xF8|f, 301, 27, 28, 29, 6, 7)})
					sds = append(sds, b)
				}
				sds = append(sds, []byte{}, sds[0][:3], sds[1][:len(sds[1])-1])
				for k, b := range sds {
					prs = append(prs, append([]byte{byte(k), 1, byte(k)}, b...))
				}
				prs = append(prs, []byte{}, []byte{1}, []byte{1, 2}, []byte{3, 4, 5})
				for k, b := range sds {
					for _, h := range []byte{0, 0x20, 0x47, 0xE4, 0x68} {
						hd := ref.Header{PRV: 1, Flags: h, PID: uint16(k), PT: byte(k % 2)}
						body := b
						if k%2 == 0 {
							body = prs[k]
						}
						hd.PRA, hd.RCA, hd.TTL, hd.HL = 0x1122, 0x3344, 0x55, 11+5*(h>>5&1)
						if h&0x18 != 0 {
							body, _ = xorKey{}.Encode(body)
						}
						pks = append(pks, ref.Packet(hd, body))
					}
				}
				for _, bp := range bases {
					pks = append(pks, bp.b)
				}
				group := func(name string, bs [][]byte, do func(c *mc.C, bs ...[]byte)) {
					n := uint64(len(bs))
					out = append(out, mc.Space{Name: name, N: n * n, Do: func(c *mc.C, i uint64) {
						c.Describe("%s: %x after %x", name, bs[i/n], bs[i%n])
						do(c, bs[i%n], bs[i/n])
						c.State('g', []byte(fmt.Sprint(name, i)))
					}})
					if th {
						out = append(out, mc.Space{Name: name + "/3", N: n * n * n, Do: func(c *mc.C, i uint64) {
							c.Describe("%s: %x after %x and %x", name, bs[i/n/n], bs[i%n], bs[i/n%n])
							do(c, bs[i%n], bs[i/n%n], bs[i/n/n])
							c.State('G', []byte(fmt.Sprint(name, i)))
						}})
					}
				}
				of := func(f func() egts.BinaryData) func(c *mc.C, bs ...[]byte) {
					return func(c *mc.C, bs ...[]byte) { usedCase(c, f, bs...) }
				}
				group("subrecords", rds, of(func() egts.BinaryData { return &egts.RecordDataSet{} }))
				group("records", sds, of(func() egts.BinaryData { return &egts.ServiceDataSet{} }))
				group("response", prs, of(func() egts.BinaryData { return &egts.PtResponse{} }))
				for k, n := range []string{"packet", "packet-key-before", "packet-key-last", "packet-key"} {
					keyed := []uint{0, 3, 4, 7}[k]
					group(n, pks, func(c *mc.C, bs ...[]byte) {
						if len(bs) == 2 { // the last of three bits is for the last packet
							usedPacket(c, keyed>>1, bs...)
						} else {
							usedPacket(c, keyed, bs...)
						}
					})
				}
				// a damaged packet in front
				for _, bp := range bases {
					bp := bp
					nb, nl := uint64(len(bases)), uint64(len(bp.b))
					reps := []byte{0, 1, 0x7F, 0xFF}
					out = append(out, mc.Space{Name: "damaged/" + bp.name, N: nl * nb * 9, Do: func(c *mc.C, i uint64) {
						at := i % nl
						i /= nl
						next := bases[i%nb].b
						i /= nb
						a := append([]byte{}, bp.b...)
						if i == 8 {
							a = a[:at]
						} else {
							a[at] ^= reps[i%4]
							if reps[i%4] == 0 {
								a[at] = 0
							}
							if i >= 4 {
								fix(a, 1)
								fix(a, 2)
							}
						}
						c.Describe("%x after %x", next, a)
						usedPacket(c, 0, a, next)
						c.State('d', append(append([]byte{byte(i)}, a...), binary.LittleEndian.AppendUint16(nil, uint16(len(next)))...))
					}})
				}
				return out
			}}
	}
}
