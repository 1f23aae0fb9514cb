package codec

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"verifharness/gen"
	"verifharness/mc"
	"verifharness/ref"
)

// ---- C23 ----------------------------------------------------------------------------------------------

// setting is a value of a field of a section, a record or a header.
type setting struct {
	what string
	set  func(d reflect.Value) // d is the struct
	fits bool                  // the format has room for it
}

func field(name string, v interface{}, fits bool) setting {
	what := fmt.Sprintf("%s=%v", name, v)
	if len(what) > 90 {
		what = what[:90] + "…"
	}
	return setting{what, func(d reflect.Value) {
		f := d.FieldByName(name)
		f.Set(reflect.ValueOf(v).Convert(f.Type()))
	}, fits}
}

// flag values: what is not a binary digit, and too many of them.
func flagSettings(names ...string) []setting {
	var out []setting
	for _, n := range names {
		for k := 0; k < 256; k++ {
			if k == '0' || k == '1' {
				continue
			}
			out = append(out, field(n, string([]byte{byte(k)}), false))
			if strings.IndexByte("2x +-_.\x00", byte(k)) >= 0 {
				out = append(out, field(n, "1"+string([]byte{byte(k)}), false), field(n, string([]byte{byte(k)})+"0", false))
			}
		}
		for _, s := range []string{"0b1", "0x1", "true", "1e0", "１", strings.Repeat("1", 9), strings.Repeat("1", 64), strings.Repeat("1", 65), strings.Repeat("1", 300)} {
			out = append(out, field(n, s, false))
		}
	}
	return out
}

// wide values: more than bits bits.
func wide(name string, bits uint) []setting {
	var out []setting
	for _, k := range []uint64{0, 1, 1<<(bits-1) - 1, 1 << (bits - 1), 1<<bits - 1} {
		out = append(out, field(name, k, true))
	}
	for b := bits; b < 32; b++ {
		for _, low := range []uint64{0, 1, 1<<bits - 1, 1<<b - 1} {
			out = append(out, field(name, 1<<b|low&(1<<b-1), false))
		}
	}
	return append(out, field(name, uint64(1<<32-1), false))
}

// texts of a fixed width.
func fixed(name string, n int, bytes bool) []setting {
	var out []setting
	for k := 0; k <= 40; k++ {
		s := strings.Repeat("7", k)
		if bytes {
			out = append(out, field(name, []byte(s), k == n))
		} else {
			out = append(out, field(name, s, k == n))
		}
	}
	for _, k := range []int{255, 256, 256 + n, 65535, 65536, 65536 + n} {
		if bytes {
			out = append(out, field(name, make([]byte, k), false))
		} else {
			out = append(out, field(name, strings.Repeat("7", k), false))
		}
	}
	if bytes {
		out = append(out, field(name, []byte(nil), false))
	}
	return out
}

// texts ended by a zero byte.
func delimited(names ...string) []setting {
	var out []setting
	for _, n := range names {
		for _, s := range []string{"\x00", "a\x00", "\x00a", "ab\x00cd", "\x00\x00", strings.Repeat("a", 30) + "\x00"} {
			out = append(out, field(n, s, false))
		}
		for _, s := range []string{"", "0", "a", "\x01", "\xff", "ab cd", "имя"} {
			if n != "ServerSequence" || s != "" {
				out = append(out, field(n, s, true))
			}
		}
	}
	return out
}

// times before, in and after the range of 32 bits of seconds since 2010.
func times(name string) []setting {
	var out []setting
	e := ref.TimeOf(0)
	for _, s := range []int64{-1, -2, -59, -60, -3600, -86400, -1 << 31, -1 << 32, -1<<32 - 1, -1 << 33, -1262304000, -62135596800 - e.Unix(), 1 << 32, 1<<32 + 1, 1<<32 + 77, 1 << 33, 1<<33 + 5, 1 << 35, 250000000000} {
		out = append(out, field(name, time.Unix(e.Unix()+s, 0).UTC(), false))
	}
	for _, s := range []int64{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1} {
		out = append(out, field(name, time.Unix(e.Unix()+s, 0).UTC(), true), field(name, time.Unix(e.Unix()+s, 0).In(time.FixedZone("x", 5*3600+1800)), true))
	}
	return append(out, field(name, time.Time{}, false))
}

func degrees(name string, max float64) []setting {
	var out []setting
	for _, x := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), -1e-300, -1e-9, -1, -max, -max - 1, math.Nextafter(max, 1000), max + 1e-9, max + 1, 2 * max, 2*max + 1, 1e9, 1e18, 1e300} {
		out = append(out, field(name, x, false))
	}
	for _, x := range []float64{0, 1e-300, 1, max / 2, math.Nextafter(max, 0), max} {
		out = append(out, field(name, x, true))
	}
	return out
}

func nums(name string, from, to, step int) []setting {
	var out []setting
	for k := from; k <= to; k += step {
		out = append(out, field(name, k, false))
	}
	return out
}

func numbered(n string) []string {
	var out []string
	for k := 1; k <= 8; k++ {
		out = append(out, fmt.Sprint(n, k))
	}
	return out
}

// sectionSettings lists what is tried with a section of a type.
func sectionSettings(t byte) []setting {
	var out []setting
	switch t {
	case 1:
		out = append(out, flagSettings("MNE", "BSE", "NIDE", "SSRA", "LNGCE", "IMSIE", "IMEIE", "HDIDE")...)
		out = append(out, fixed("IMEI", 15, false)...)
		out = append(out, fixed("IMSI", 16, false)...)
		out = append(out, fixed("LanguageCode", 3, false)...)
		out = append(out, fixed("NetworkIdentifier", 3, true)...)
		out = append(out, fixed("MobileNumber", 15, false)...)
	case 2:
		out = append(out, delimited("SerialNumber", "Description")...)
	case 7:
		out = append(out, delimited("UserName", "UserPassword", "ServerSequence")...)
	case 16:
		out = append(out, flagSettings("ALTE", "LOHS", "LAHS", "MV", "BB", "CS", "FIX", "VLD")...)
		out = append(out, wide("Odometer", 24)...)
		out = append(out, wide("Altitude", 24)...)
		out = append(out, times("NavigationTime")...)
		out = append(out, degrees("Latitude", 90)...)
		out = append(out, degrees("Longitude", 180)...)
		out = append(out, nums("Speed", 1639, 1700, 1)...)
		out = append(out, nums("Speed", 1701, 65535, 37)...)
		out = append(out, nums("Speed", 3276, 65535, 3276)...) // and around what a narrow multiplication wraps to
		out = append(out, nums("Speed", 6553, 65535, 6553)...)
		out = append(out, nums("Speed", 6554, 65535, 6554)...)
		out = append(out, nums("AltitudeSign", 2, 255, 1)...)
		out = append(out, nums("DirectionHighestBit", 2, 255, 1)...)
		for _, k := range []int{0, 1, 819, 1637, 1638} {
			out = append(out, field("Speed", k, true))
		}
	case 17:
		out = append(out, flagSettings("NavigationSystemFieldExists", "SatellitesFieldExists", "PdopFieldExists", "HdopFieldExists", "VdopFieldExists")...)
	case 18:
		out = append(out, flagSettings(numbered("DigitalInputsOctetExists")...)...)
		out = append(out, flagSettings(numbered("AnalogSensorFieldExists")...)...)
		for _, n := range numbered("AnalogSensor") {
			out = append(out, wide(n, 24)...)
		}
	case 19:
		out = append(out, flagSettings(numbered("CounterFieldExists")...)...)
		for _, n := range numbered("Counter") {
			out = append(out, wide(n, 24)...)
		}
	case 20, 21:
		out = append(out, flagSettings("NMS", "IBU", "BBU")...)
	case 24:
		out = append(out, wide("Value", 24)...)
	case 25:
		out = append(out, wide("CounterValue", 24)...)
	case 27:
		out = append(out, flagSettings("LiquidLevelSensorErrorFlag", "LiquidLevelSensorValueUnit", "RawDataFlag")...)
		out = append(out, nums("LiquidLevelSensorNumber", 8, 255, 1)...)
		for k := 0; k < 8; k++ {
			out = append(out, field("LiquidLevelSensorNumber", k, true))
		}
	}
	return out
}

// encoding runs an encoding and judges its outcome.
func encoding(c *mc.C, what string, f func() ([]byte, error), fits bool) (b []byte, ok bool) {
	c.Op(1)
	var err error
	func() {
		defer func() {
			if x := recover(); x != nil {
				c.Failf("%s crashes: %v", what, x)
			}
		}()
		b, err = f()
	}()
	switch {
	case c.Failed():
	case fits && err != nil:
		c.Failf("%s is refused: %v", what, err)
	case !fits && err == nil:
		c.Failf("%s is encoded to %x", what, b)
	case err != nil && len(b) > 0:
		c.Failf("%s is refused (%v), but %d bytes are returned", what, err, len(b))
	default:
		return b, err == nil
	}
	return nil, false
}

// everywhere encodes a subrecord by itself and at every place of a packet.
func everywhere(c *mc.C, what string, rd egts.RecordData, place uint64, fits bool) {
	if place == 0 {
		encoding(c, "the section with "+what, rd.SubrecordData.Encode, fits)
		func() {
			defer func() {
				if x := recover(); x != nil {
					c.Failf("the length of the section with %s crashes: %v", what, x)
				}
			}()
			_ = rd.SubrecordData.Length()
		}()
		return
	}
	p := gen.Pack(gen.WithSub(gen.RecF(7, 1, 2, 3, 4, 5, 6), rd))
	var opt []func(*egts.Options)
	switch place {
	case 2: // the type is left to the encoder
		if rd.SubrecordType != 20 {
			rd.SubrecordType = 0
		}
		p = gen.Pack(gen.WithSub(gen.Rec(1), rd))
	case 3: // between others
		p = gen.Pack(gen.WithSub(gen.Rec(1), gen.SubT(24, 2)), gen.WithSub(gen.Rec(2), gen.SubT(27, 1), rd, gen.SubT(25, 2)), gen.WithSub(gen.Rec(3), gen.SubT(16, 2)))
	case 4: // in a response
		p.PacketType = 0
		p.ServicesFrameData = &egts.PtResponse{ResponsePacketID: 77, SDR: p.ServicesFrameData}
	case 5: // encrypted
		gen.SetFlags(p, 0x08)
		opt = append(opt, func(o *egts.Options) { o.Secret = xorKey{} })
	case 6: // as a set of records
		encoding(c, "the records with "+what, p.ServicesFrameData.Encode, fits)
		return
	case 7:
		encoding(c, "the subrecords with "+what, (&egts.RecordDataSet{gen.SubT(24, 2), rd}).Encode, fits)
		return
	}
	b, ok := encoding(c, "the packet with "+what, func() ([]byte, error) { return p.Encode(opt...) }, fits)
	if !ok || c.Failed() {
		return
	}
	var q egts.Package
	if code, err := q.Decode(b, opt...); err != nil {
		c.Failf("the packet with %s is encoded to %x, which is not decoded: %d %v", what, b, code, err)
	}
}

const nPlaces = 8

type xorKey struct{}

func (xorKey) Encode(b []byte) ([]byte, error) {
	o := make([]byte, len(b))
	for k := range b {
		o[k] = b[k] ^ 0x3C
	}
	return o, nil
}

func (k xorKey) Decode(b []byte) ([]byte, error) { return k.Encode(b) }

func init() {
	Checks["C23"] = func() mc.Check {
		return mc.Check{Assume: []string{"a flag string with too few digits and a Direction that disagrees with DirectionHighestBit are left open"},
			Bound: "every section type with every value pattern (all optional fields present) and one field set to what does not fit (flags: every byte that is no digit, and too many digits; 24-bit numbers: every higher bit; fixed-width texts: every width up to 40 and around 2^8 and 2^16; delimited texts; times and coordinates outside and at the ends of their range; speeds, signs and sensor numbers), every pair of settings of one section (each field's first bad and last good ones), at 8 places; header and record flags and times; subrecords without data; records with bad values that are not sent; every packet that a replaced byte or two replaced boundary bytes (checksums repaired) leave acceptable, encoded again",
			Spaces: func(tier string) []mc.Space {
				th := tier == "thorough"
				var out []mc.Space
				for _, t := range gen.Types {
					t := t
					ss := sectionSettings(t)
					if len(ss) == 0 {
						continue
					}
					n := uint64(len(ss))
					out = append(out, mc.Space{Name: fmt.Sprintf("one/%d", t), N: n * gen.NPat * nPlaces, Do: func(c *mc.C, i uint64) {
						s := ss[i%n]
						rd := gen.SubT(t, int(i/n%gen.NPat))
						s.set(reflect.ValueOf(rd.SubrecordData).Elem())
						c.Describe("%s, subrecord type %d, pattern %d, place %d", s.what, t, i/n%gen.NPat, i/n/gen.NPat)
						everywhere(c, s.what, rd, i/n/gen.NPat, s.fits)
						c.State('r', []byte(fmt.Sprint(t, i)))
						c.Outcome(map[bool]string{true: "accepted", false: "refused"}[s.fits])
					}})
					// two at once: neither hides the other
					var few []setting
					seen := map[string]int{}
					for _, s := range ss {
						k := s.what[:strings.IndexByte(s.what, '=')] + fmt.Sprint(s.fits)
						if seen[k]++; seen[k] <= 2 || th && seen[k] <= 6 {
							few = append(few, s)
						}
					}
					m := uint64(len(few))
					out = append(out, mc.Space{Name: fmt.Sprintf("two/%d", t), N: m * m * 3, Do: func(c *mc.C, i uint64) {
						a, b := few[i%m], few[i/m%m]
						na, nb := a.what[:strings.IndexByte(a.what, '=')], b.what[:strings.IndexByte(b.what, '=')]
						if na >= nb {
							c.Outcome("the same the other way round")
							return
						}
						rd := gen.SubT(t, 2)
						v := reflect.ValueOf(rd.SubrecordData).Elem()
						a.set(v)
						b.set(v)
						c.Describe("%s and %s, subrecord type %d", a.what, b.what, t)
						everywhere(c, a.what+" and "+b.what, rd, []uint64{0, 1, 3}[i/m/m], a.fits && b.fits)
						c.State('R', []byte(fmt.Sprint(t, i)))
						c.Outcome(map[bool]string{true: "accepted", false: "refused"}[a.fits && b.fits])
					}})
				}
				// values that are not sent do not matter
				type unsent struct {
					t    byte
					flag string
					s    setting
				}
				var us []unsent
				add := func(t byte, flag, name string, v interface{}) { us = append(us, unsent{t, flag, field(name, v, true)}) }
				for k := 1; k <= 8; k++ {
					for _, v := range []uint32{1 << 24, 1<<32 - 1, 7} {
						add(18, fmt.Sprint("AnalogSensorFieldExists", k), fmt.Sprint("AnalogSensor", k), v)
						add(19, fmt.Sprint("CounterFieldExists", k), fmt.Sprint("Counter", k), v)
					}
				}
				add(16, "ALTE", "Altitude", uint32(1<<24))
				for _, s := range []string{"", "1", strings.Repeat("1", 17)} {
					add(1, "IMEIE", "IMEI", s)
					add(1, "IMSIE", "IMSI", s)
					add(1, "LNGCE", "LanguageCode", s)
					add(1, "NIDE", "NetworkIdentifier", []byte(s))
					add(1, "MNE", "MobileNumber", s)
				}
				out = append(out, mc.Space{Name: "unsent", N: uint64(len(us)) * gen.NPat * nPlaces, Do: func(c *mc.C, i uint64) {
					x := us[i%uint64(len(us))]
					i /= uint64(len(us))
					rd := gen.SubT(x.t, int(i%gen.NPat))
					v := reflect.ValueOf(rd.SubrecordData).Elem()
					v.FieldByName(x.flag).SetString("0")
					x.s.set(v)
					c.Describe("%s with %s=0", x.s.what, x.flag)
					everywhere(c, x.s.what+" with "+x.flag+"=0", rd, i/gen.NPat, true)
					c.State('u', []byte(fmt.Sprint(x.flag, x.s.what, i)))
					c.Outcome("accepted")
				}})
				// headers and records
				hs := flagSettings("Prefix", "Route", "EncryptionAlg", "Compression", "Priority")
				out = append(out, mc.Space{Name: "header", N: uint64(len(hs)) * 4, Do: func(c *mc.C, i uint64) {
					s := hs[i%uint64(len(hs))]
					i /= uint64(len(hs))
					p := gen.Pack(gen.WithSub(gen.Rec(1), gen.SubT(16, 2)))
					if i%2 == 1 {
						p = gen.Respond(5, 0, 1)
					}
					var opt []func(*egts.Options)
					if i >= 2 {
						opt = append(opt, func(o *egts.Options) { o.Secret = xorKey{} })
					}
					s.set(reflect.ValueOf(p).Elem())
					c.Describe("a packet with %s", s.what)
					encoding(c, "the packet with "+s.what, func() ([]byte, error) { return p.Encode(opt...) }, s.fits)
					c.State('h', []byte(fmt.Sprint(s.what, i)))
					c.Outcome("refused")
				}})
				rs := append(flagSettings("SourceServiceOnDevice", "RecipientServiceOnDevice", "Group", "RecordProcessingPriority", "TimeFieldExists", "EventIDFieldExists", "ObjectIDFieldExists"), times("Time")...)
				out = append(out, mc.Space{Name: "record", N: uint64(len(rs)) * 3 * 2 * 2, Do: func(c *mc.C, i uint64) {
					s := rs[i%uint64(len(rs))]
					i /= uint64(len(rs))
					at := int(i % 3)
					i /= 3
					var recs []egts.ServiceDataRecord
					for k := 0; k < 3; k++ {
						recs = append(recs, gen.WithSub(gen.RecF(7*uint(i%2), uint16(k), 2, 3, 4, 5, 6), gen.SubT(24, k)))
					}
					fits := s.fits || i%2 == 0 && strings.HasPrefix(s.what, "Time=") // no time is sent
					s.set(reflect.ValueOf(&recs[at]).Elem())
					p := gen.Pack(recs...)
					if i/2 == 1 {
						p.PacketType = 0
						p.ServicesFrameData = &egts.PtResponse{ResponsePacketID: 77, SDR: p.ServicesFrameData}
					}
					c.Describe("record %d with %s", at, s.what)
					encoding(c, fmt.Sprintf("record %d with %s", at, s.what), func() ([]byte, error) { return p.Encode() }, fits)
					c.State('d', []byte(fmt.Sprint(s.what, at, i)))
					c.Outcome(map[bool]string{true: "accepted", false: "refused"}[fits])
				}})
				// subrecords without data
				out = append(out, mc.Space{Name: "no-data", N: 256 * 3 * 3 * 2, Do: func(c *mc.C, i uint64) {
					rd := egts.RecordData{SubrecordType: byte(i)}
					i /= 256
					at, n := int(i%3), int(i/3%3)
					rds := []egts.RecordData{gen.SubT(24, 1), gen.SubT(16, 1), gen.SubT(27, 1)}[:n]
					if at > n {
						at = n
					}
					rds = append(append(append([]egts.RecordData{}, rds[:at]...), rd), rds[at:]...)
					p := gen.Pack(gen.WithSub(gen.Rec(1), rds...))
					if i/9 == 1 {
						p.PacketType = 0
						p.ServicesFrameData = &egts.PtResponse{ResponsePacketID: 77, SDR: p.ServicesFrameData}
					}
					what := fmt.Sprintf("a subrecord of type %d without data at position %d of %d", rd.SubrecordType, at, n+1)
					c.Describe("%s", what)
					encoding(c, "a packet with "+what, func() ([]byte, error) { return p.Encode() }, false)
					c.State('n', []byte(fmt.Sprint(rd.SubrecordType, i)))
					c.Outcome("refused")
				}})
				// what is accepted can be encoded again
				for _, bp := range bases {
					bp := bp
					n := uint64(len(bp.b))
					again := func(c *mc.C, b []byte) {
						fix(b, 1)
						fix(b, 2)
						var p egts.Package
						if _, err := p.Decode(b); err != nil {
							c.Op(1)
							c.Outcome("not accepted")
							return
						}
						c.Describe("%x is accepted and encoded again", b)
						encoding(c, fmt.Sprintf("what was decoded from %x", b), func() ([]byte, error) { return p.Encode() }, true)
						c.State('b', b)
						c.Outcome("encoded again")
					}
					out = append(out, mc.Space{Name: "relay/" + bp.name, N: n * 256, Do: func(c *mc.C, i uint64) {
						b := append([]byte{}, bp.b...)
						b[i%n] = byte(i / n)
						again(c, b)
					}})
					vals := []byte{0, 1, 0x7F, 0x80, 0xFF}
					if th {
						vals = []byte{0, 1, 2, 3, 4, 0x0F, 0x10, 0x20, 0x40, 0x7F, 0x80, 0xFE, 0xFF}
					}
					nv := uint64(len(vals))
					out = append(out, mc.Space{Name: "relay2/" + bp.name, N: n * n * nv * nv, Do: func(c *mc.C, i uint64) {
						if i%n >= i/n%n {
							c.Outcome("the same the other way round")
							return
						}
						b := append([]byte{}, bp.b...)
						b[i%n] = vals[i/n/n%nv]
						b[i/n%n] = vals[i/n/n/nv]
						again(c, b)
					}})
				}
				return out
			}}
	}
}
