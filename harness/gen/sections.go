// Package gen enumerates packets: every section with every flag combination and every field swept, and every
// composition of them up to the stated bounds. All enumerations are index addressable and deterministic.
package gen

import (
	"reflect"
	"strings"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"verifharness/ref"
)

// Field is one value of a section: an integer of some width or a string.
type Field struct {
	Name string
	Bits int // 0: string
	Fix  int // strings: fixed length, or 0 for variable
	Nul  bool
	Max  uint32 // if not zero, largest value (else 2^Bits-1)
}

// Max gives the largest value of an integer field.
func (f Field) MaxV() uint32 {
	if f.Max != 0 {
		return f.Max
	}
	return uint32(uint64(1)<<f.Bits - 1)
}

// Val is a field value.
type Val struct {
	U uint32
	S string
}

// Spec describes a section type.
type Spec struct {
	Type   byte
	Name   string
	Flags  []uint // all flag combinations
	All    uint   // flag value with all optional fields present
	Fields []Field
	// Present tells whether field k is on the wire for a flag value.
	Present func(flags uint, k int) bool
	// Only gives a flag value in which field k and as few others as possible are present.
	Only func(k int) uint
	// Build makes the section; absent fields are left zero.
	Build func(flags uint, v []Val) egts.BinaryData
}

func seq(n uint) []uint {
	r := make([]uint, n)
	for i := range r {
		r[i] = uint(i)
	}
	return r
}

func always(uint, int) bool { return true }

func u(n string, bits int) Field { return Field{Name: n, Bits: bits} }

func b1(f uint, k int) string { return ref.Bits(f>>k, 1) }

// Specs lists all sections.
var Specs = []*Spec{
	{Type: 16, Name: "pos", Flags: seq(256), All: 255,
		Fields:  []Field{u("time", 32), u("lat", 32), u("lon", 32), {Name: "speed", Bits: 11, Max: 1638}, {Name: "course", Bits: 9, Max: 383}, u("alts", 1), u("odometer", 24), u("din", 8), u("src", 8), u("alt", 24)},
		Present: func(f uint, k int) bool { return k != 9 || f&0x80 != 0 },
		Only: func(k int) uint {
			if k == 9 {
				return 0x80
			}
			return 0
		},
		Build: func(f uint, v []Val) egts.BinaryData {
			e := &egts.SrPosData{NavigationTime: ref.TimeOf(v[0].U), Latitude: ref.LatOf(v[1].U), Longitude: ref.LonOf(v[2].U),
				ALTE: b1(f, 7), LOHS: b1(f, 6), LAHS: b1(f, 5), MV: b1(f, 4), BB: b1(f, 3), CS: b1(f, 2), FIX: b1(f, 1), VLD: b1(f, 0),
				Speed: uint16(v[3].U % 1639), AltitudeSign: byte(v[5].U & 1), Odometer: v[6].U & 0xFFFFFF, DigitalInputs: byte(v[7].U), Source: byte(v[8].U)}
			// course: 0..255 without the high bit, 256..383 with it (the library's Direction then has bit 7 set)
			c := v[4].U % 384
			if c < 256 {
				e.Direction = byte(c)
			} else {
				e.DirectionHighestBit = 1
				e.Direction = byte(c-256) | 0x80
			}
			if f&0x80 != 0 {
				e.Altitude = v[9].U & 0xFFFFFF
			}
			return e
		}},
	{Type: 17, Name: "extpos", Flags: seq(32), All: 31,
		Fields:  []Field{u("vdop", 16), u("hdop", 16), u("pdop", 16), u("sat", 8), u("ns", 16)},
		Present: func(f uint, k int) bool { return f>>k&1 != 0 },
		Only:    func(k int) uint { return 1 << k },
		Build: func(f uint, v []Val) egts.BinaryData {
			e := &egts.SrExtPosData{NavigationSystemFieldExists: b1(f, 4), SatellitesFieldExists: b1(f, 3), PdopFieldExists: b1(f, 2), HdopFieldExists: b1(f, 1), VdopFieldExists: b1(f, 0)}
			if f&1 != 0 {
				e.VerticalDilutionOfPrecision = uint16(v[0].U)
			}
			if f&2 != 0 {
				e.HorizontalDilutionOfPrecision = uint16(v[1].U)
			}
			if f&4 != 0 {
				e.PositionDilutionOfPrecision = uint16(v[2].U)
			}
			if f&8 != 0 {
				e.Satellites = byte(v[3].U)
			}
			if f&16 != 0 {
				e.NavigationSystem = uint16(v[4].U)
			}
			return e
		}},
	{Type: 18, Name: "adsens", Flags: seq(65536), All: 65535,
		Fields: []Field{u("dout", 8), u("adio1", 8), u("adio2", 8), u("adio3", 8), u("adio4", 8), u("adio5", 8), u("adio6", 8), u("adio7", 8), u("adio8", 8),
			u("ans1", 24), u("ans2", 24), u("ans3", 24), u("ans4", 24), u("ans5", 24), u("ans6", 24), u("ans7", 24), u("ans8", 24)},
		Present: func(f uint, k int) bool { return k == 0 || f>>(k-1)&1 != 0 },
		Only: func(k int) uint {
			if k == 0 {
				return 0
			}
			return 1 << (k - 1)
		},
		Build: func(f uint, v []Val) egts.BinaryData {
			e := &egts.SrAdSensorsData{DigitalOutputs: byte(v[0].U)}
			df, af := ref.AdFlags(e)
			dv, av := ref.AdVals(e)
			for i := 0; i < 8; i++ {
				*df[i], *af[i] = b1(f, i), b1(f, 8+i)
				if f>>i&1 != 0 {
					*dv[i] = byte(v[1+i].U)
				}
				if f>>(8+i)&1 != 0 {
					*av[i] = v[9+i].U & 0xFFFFFF
				}
			}
			return e
		}},
	{Type: 19, Name: "counters", Flags: seq(256), All: 255,
		Fields:  []Field{u("cn1", 24), u("cn2", 24), u("cn3", 24), u("cn4", 24), u("cn5", 24), u("cn6", 24), u("cn7", 24), u("cn8", 24)},
		Present: func(f uint, k int) bool { return f>>k&1 != 0 },
		Only:    func(k int) uint { return 1 << k },
		Build: func(f uint, v []Val) egts.BinaryData {
			e := &egts.SrCountersData{}
			cf, cv := ref.CtFields(e)
			for i := 0; i < 8; i++ {
				*cf[i] = b1(f, i)
				if f>>i&1 != 0 {
					*cv[i] = v[i].U & 0xFFFFFF
				}
			}
			return e
		}},
	{Type: 1, Name: "termid", Flags: seq(256), All: 255,
		Fields: []Field{u("tid", 32), u("hdid", 16), {Name: "imei", Fix: 15, Nul: true}, {Name: "imsi", Fix: 16, Nul: true}, {Name: "lngc", Fix: 3, Nul: true}, {Name: "nid", Fix: 3, Nul: true}, u("bs", 16), {Name: "msisdn", Fix: 15, Nul: true}},
		Present: func(f uint, k int) bool {
			return k == 0 || f&termBit[k] != 0
		},
		Only: func(k int) uint { return termBit[k] },
		Build: func(f uint, v []Val) egts.BinaryData {
			e := &egts.SrTermIdentity{TerminalIdentifier: v[0].U, MNE: b1(f, 7), BSE: b1(f, 6), NIDE: b1(f, 5), SSRA: b1(f, 4), LNGCE: b1(f, 3), IMSIE: b1(f, 2), IMEIE: b1(f, 1), HDIDE: b1(f, 0)}
			if f&1 != 0 {
				e.HomeDispatcherIdentifier = uint16(v[1].U)
			}
			if f&2 != 0 {
				e.IMEI = v[2].S
			}
			if f&4 != 0 {
				e.IMSI = v[3].S
			}
			if f&8 != 0 {
				e.LanguageCode = v[4].S
			}
			if f&32 != 0 {
				e.NetworkIdentifier = []byte(v[5].S)
			}
			if f&64 != 0 {
				e.BufferSize = uint16(v[6].U)
			}
			if f&128 != 0 {
				e.MobileNumber = v[7].S
			}
			return e
		}},
	{Type: 2, Name: "module", Flags: []uint{0}, Present: always, Only: func(int) uint { return 0 },
		Fields: []Field{u("mt", 8), u("vid", 32), u("fwv", 16), u("swv", 16), u("md", 8), u("st", 8), {Name: "srn"}, {Name: "dscr"}},
		Build: func(f uint, v []Val) egts.BinaryData {
			return &egts.SrModuleData{ModuleType: int8(v[0].U), VendorID: v[1].U, FirmwareVersion: uint16(v[2].U), SoftwareVersion: uint16(v[3].U), Modification: byte(v[4].U), State: byte(v[5].U), SerialNumber: v[6].S, Description: v[7].S}
		}},
	{Type: 5, Name: "dispid", Flags: []uint{0}, Present: always, Only: func(int) uint { return 0 },
		Fields: []Field{u("dt", 8), u("did", 32), {Name: "dscr", Nul: true}},
		Build: func(f uint, v []Val) egts.BinaryData {
			return &egts.SrDispatcherIdentity{DispatcherType: byte(v[0].U), DispatcherID: v[1].U, Description: v[2].S}
		}},
	{Type: 7, Name: "auth", Flags: []uint{0, 1}, All: 1, Present: func(f uint, k int) bool { return k < 2 || f == 1 }, Only: func(k int) uint {
		if k == 2 {
			return 1
		}
		return 0
	},
		Fields: []Field{{Name: "unm"}, {Name: "upsw"}, {Name: "ss"}},
		Build: func(f uint, v []Val) egts.BinaryData {
			e := &egts.SrAuthInfo{UserName: v[0].S, UserPassword: v[1].S}
			if f == 1 {
				e.ServerSequence = v[2].S
			}
			return e
		}},
	{Type: 9, Name: "result", Flags: []uint{0}, Present: always, Only: func(int) uint { return 0 }, Fields: []Field{u("rcd", 8)},
		Build: func(f uint, v []Val) egts.BinaryData { return &egts.SrResultCode{ResultCode: byte(v[0].U)} }},
	{Type: 0, Name: "response", Flags: []uint{0}, Present: always, Only: func(int) uint { return 0 }, Fields: []Field{u("crn", 16), u("rst", 8)},
		Build: func(f uint, v []Val) egts.BinaryData {
			return &egts.SrResponse{ConfirmedRecordNumber: uint16(v[0].U), RecordStatus: byte(v[1].U)}
		}},
	{Type: 21, Name: "state", Flags: seq(8), All: 7, Present: always, Only: func(int) uint { return 0 }, Fields: []Field{u("st", 8), u("mpsv", 8), u("bbv", 8), u("ibv", 8)},
		Build: func(f uint, v []Val) egts.BinaryData {
			return &egts.SrStateData{State: byte(v[0].U), MainPowerSourceVoltage: byte(v[1].U), BackUpBatteryVoltage: byte(v[2].U), InternalBatteryVoltage: byte(v[3].U), NMS: b1(f, 2), IBU: b1(f, 1), BBU: b1(f, 0)}
		}},
	{Type: 24, Name: "absan", Flags: []uint{0}, Present: always, Only: func(int) uint { return 0 }, Fields: []Field{u("num", 8), u("val", 24)},
		Build: func(f uint, v []Val) egts.BinaryData {
			return &egts.SrAbsAnSensData{SensorNumber: byte(v[0].U), Value: v[1].U & 0xFFFFFF}
		}},
	{Type: 25, Name: "abscntr", Flags: []uint{0}, Present: always, Only: func(int) uint { return 0 }, Fields: []Field{u("num", 8), u("val", 24)},
		Build: func(f uint, v []Val) egts.BinaryData {
			return &egts.SrAbsCntrData{CounterNumber: byte(v[0].U), CounterValue: v[1].U & 0xFFFFFF}
		}},
	{Type: 27, Name: "liquid", Flags: seq(128), All: 127, Present: always, Only: func(int) uint { return 0 }, Fields: []Field{u("maddr", 16), u("data", 32)},
		Build: func(f uint, v []Val) egts.BinaryData {
			return &egts.SrLiquidLevelSensor{LiquidLevelSensorErrorFlag: b1(f, 6), LiquidLevelSensorValueUnit: ref.Bits(f>>4, 2), RawDataFlag: b1(f, 3), LiquidLevelSensorNumber: byte(f & 7), ModuleAddress: uint16(v[0].U), LiquidLevelSensorData: v[1].U}
		}},
	plusSpec(),
}

// bits of the optional fields of a terminal identity, by field index
var termBit = [8]uint{0, 1, 2, 4, 8, 32, 64, 128}

// SpecOf finds a section by type (20 is the state section under its other number).
func SpecOf(t byte) *Spec {
	if t == 20 {
		t = 21
	}
	for _, s := range Specs {
		if s.Type == t {
			return s
		}
	}
	return nil
}

// plusSpec: the flags select which repeated sensor message is present (0: none, k: message k, last: all).
func plusSpec() *Spec {
	msgs := []ref.PlusField{}
	for _, f := range ref.PlusMsgs["storage_record"] {
		if f.Label == "repeated" && f.Type != "reason" {
			msgs = append(msgs, f)
		}
	}
	fields := []Field{u("record_number", 32), u("time_stamp", 32), u("status_flags", 32), u("reasons", 16)}
	owner := []int{-1, -1, -1, -1}
	for mi, m := range msgs {
		for _, f := range ref.PlusMsgs[m.Type] {
			x := Field{Name: m.Name + "." + f.Name, Bits: 32}
			switch f.Type {
			case "bytes":
				x = Field{Name: x.Name, Nul: true}
			case "bool":
				x.Bits = 1
			case "float": // keep to the bits of ordinary numbers
				x.Bits = 32
				x.Max = 0x7F7FFFFF
			}
			fields = append(fields, x)
			owner = append(owner, mi)
		}
	}
	n := uint(len(msgs))
	return &Spec{Type: 15, Name: "egtsplus", Flags: seq(n + 3), All: n + 1, Fields: fields,
		Present: func(f uint, k int) bool { return owner[k] < 0 || f == n+1 || f == n+2 || uint(owner[k]) == f-1 },
		Only: func(k int) uint {
			if owner[k] < 0 {
				return 0
			}
			return uint(owner[k]) + 1
		},
		Build: func(f uint, v []Val) egts.BinaryData {
			e := &egts.StorageRecord{RecordNumber: p32(v[0].U), TimeStamp: p32(v[1].U), StatusFlags: p32(v[2].U)}
			for r := v[3].U; r != 0; r /= 41 { // base-41 digits select reasons
				if d := int(r % 41); d > 0 && d <= len(ref.PlusReasons) {
					e.RecordReason = append(e.RecordReason, egts.StorageRecordReason(ref.PlusReasons[d-1]))
				}
			}
			ev := reflect.ValueOf(e).Elem()
			k := 4
			for mi, m := range msgs {
				fs := ref.PlusMsgs[m.Type]
				if f == n+1 || f == n+2 || uint(mi) == f-1 {
					sl := ev.FieldByName(m.Go)
					reps := 1
					if f == n+2 {
						reps = 2
					}
					for rep := 0; rep < reps; rep++ {
						msg := reflect.New(sl.Type().Elem().Elem())
						for j, pf := range fs {
							if rep == 1 && j%2 == 0 { // the second message leaves every other field unset
								continue
							}
							setPlus(msg.Elem(), pf, v[k+j])
						}
						sl.Set(reflect.Append(sl, msg))
					}
				}
				k += len(fs)
			}
			return e
		}}
}

func p32(x uint32) *uint32 { return &x }

func setPlus(m reflect.Value, f ref.PlusField, v Val) {
	x := m.FieldByName(f.Go)
	switch f.Type {
	case "bytes":
		x.SetBytes([]byte(v.S))
		return
	}
	p := reflect.New(x.Type().Elem())
	switch p.Elem().Kind() {
	case reflect.Uint32:
		p.Elem().SetUint(uint64(v.U))
	case reflect.Int32:
		p.Elem().SetInt(int64(int32(v.U)))
	case reflect.Bool:
		p.Elem().SetBool(v.U&1 != 0)
	case reflect.Float32:
		p.Elem().Set(reflect.ValueOf(f32(v.U)))
	}
	x.Set(p)
}

// ---- value patterns -----------------------------------------------------------------------------------

// NPat is the number of value patterns.
const NPat = 8

// Pattern fills all fields of a section from a pattern number.
func Pattern(s *Spec, pat int) []Val {
	v := make([]Val, len(s.Fields))
	for k, f := range s.Fields {
		v[k] = patVal(f, k, pat)
	}
	return v
}

func patVal(f Field, k, pat int) Val {
	if f.Bits == 0 {
		return Val{S: patStr(f, k, pat)}
	}
	max := f.MaxV()
	var x uint32
	switch pat {
	case 0:
		x = 0
	case 1:
		x = max
	case 2: // all bytes distinct, also between fields
		x = uint32(k*4+1) | uint32(k*4+2)<<8 | uint32(k*4+3)<<16 | uint32(k*4+4)<<24
	case 3:
		x = 0x55555555
	case 4:
		x = 0xAAAAAAAA
	case 5:
		x = uint32(k) + 1
	case 6:
		x = 0x80808080 + uint32(k)*0x01020408
	case 7:
		x = max - uint32(k)
	}
	if max != 0xFFFFFFFF {
		x %= max + 1
	}
	return Val{U: x}
}

func patStr(f Field, k, pat int) string {
	n := f.Fix
	if n == 0 {
		n = []int{0, 255, 4, 1, 9, 10, 11, 32}[pat]
		if pat == 0 && f.Name == "ss" {
			n = 1
		}
	}
	b := make([]byte, n)
	for i := range b {
		switch pat {
		case 0:
			b[i] = 0
			if !f.Nul {
				b[i] = 1
			}
		case 1:
			b[i] = 0xFF
		case 2:
			b[i] = byte('0' + (i+k)%10)
		case 3:
			b[i] = 'U'
		case 4:
			b[i] = 0xAA
		case 5:
			b[i] = ' '
		case 6:
			b[i] = byte(0x80 + i + 16*k)
		case 7:
			b[i] = byte(255 - i%200 - k)
		}
	}
	return string(b)
}

// Sweep enumerates values of one field: all of them up to 16 bits; for wider ones all values of every byte
// over several backgrounds, all patterns of one or two set or cleared bits, and boundary values.
func Sweep(f Field, thorough bool) []Val {
	var out []Val
	if f.Bits == 0 {
		if f.Fix > 0 {
			for pos := 0; pos < f.Fix; pos++ {
				for c := 0; c < 256; c++ {
					b := []byte(strings.Repeat("7", f.Fix))
					b[pos] = byte(c)
					out = append(out, Val{S: string(b)})
				}
			}
			out = append(out, Val{S: strings.Repeat("\x00", f.Fix)}, Val{S: strings.Repeat(" ", f.Fix)}, Val{S: strings.Repeat("\xff", f.Fix)})
			return out
		}
		for n := 0; n <= 300; n++ {
			if n == 0 && f.Name == "ss" {
				continue
			}
			out = append(out, Val{S: strings.Repeat("q", n)})
		}
		for _, n := range []int{511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 60000} {
			out = append(out, Val{S: strings.Repeat("z", n)})
		}
		for pos := 0; pos < 3; pos++ {
			for c := 0; c < 256; c++ {
				if c == 0 && !f.Nul {
					continue
				}
				b := []byte("abc")
				b[pos] = byte(c)
				out = append(out, Val{S: string(b)})
			}
		}
		for c := 1; c < 256; c++ {
			out = append(out, Val{S: string([]byte{byte(c)})})
		}
		for _, s := range []string{"привет", "a b", " a", "a ", "\n", "\r\n", "a\tb", "\xd0", "\xef\xbb\xbfx", "\\0", "%s%d"} {
			out = append(out, Val{S: s})
		}
		return out
	}
	max := f.MaxV()
	if f.Bits <= 16 {
		for x := uint32(0); x <= max; x++ {
			out = append(out, Val{U: x})
		}
		return out
	}
	seen := map[uint32]bool{}
	add := func(x uint32) {
		x &= uint32(uint64(1)<<f.Bits - 1)
		if x <= max && !seen[x] {
			seen[x] = true
			out = append(out, Val{U: x})
		}
	}
	for _, bg := range []uint32{0, 0xFFFFFFFF, 0x55AA33CC, 0x01010101} {
		for lane := 0; lane < f.Bits; lane += 8 {
			for c := uint32(0); c < 256; c++ {
				add(bg&^(0xFF<<lane) | c<<lane)
			}
		}
	}
	for i := 0; i < f.Bits; i++ {
		for j := 0; j <= i; j++ {
			add(1<<i | 1<<j)
			add(^(1<<i | 1<<j))
			add(1<<i - 1<<j)
			add(1<<i + 1<<j - 1)
		}
	}
	if thorough {
		for x := uint32(0); x < 65536; x++ {
			add(x)
			add(x << 8)
			add(x << 16)
			add(x | 0xFFFF0000)
		}
	}
	return out
}

// Edge gives boundary values of a field.
func Edge(f Field, k int) []Val {
	if f.Bits == 0 {
		var out []Val
		for p := 0; p < NPat; p++ {
			out = append(out, Val{S: patStr(f, k, p)})
		}
		return out
	}
	m := f.MaxV()
	out := []Val{{U: 0}, {U: 1}, {U: m}, {U: m - 1}, {U: m / 2}, {U: m/2 + 1}, {U: m / 3}}
	if m == 1 {
		out = out[:2]
	}
	return out
}
