package ref

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
)

// EncodeRecordData gives the bytes of a subrecord set, filling in types and lengths.
func EncodeRecordData(rds egts.RecordDataSet) ([]byte, bool) {
	w := &wr{}
	for _, rd := range rds {
		b, ok := EncodeSection(rd.SubrecordData)
		if !ok || len(b) > 0xFFFF {
			return nil, false
		}
		t := rd.SubrecordType
		if t == 0 {
			t = TypeOf(rd.SubrecordData)
		}
		w.u8(t)
		w.u16(uint16(len(b)))
		w.raw(b)
	}
	return w.b, len(w.b) <= 0xFFFF
}

// EncodeRecords gives the bytes of a record set.
func EncodeRecords(s egts.ServiceDataSet) ([]byte, bool) {
	w := &wr{}
	for _, r := range s {
		b, ok := EncodeRecordData(r.RecordDataSet)
		if !ok {
			return nil, false
		}
		f, good := bitsVal(r.SourceServiceOnDevice, r.RecipientServiceOnDevice, r.Group, r.RecordProcessingPriority, r.TimeFieldExists, r.EventIDFieldExists, r.ObjectIDFieldExists)
		if !good {
			return nil, false
		}
		w.u16(uint16(len(b)))
		w.u16(r.RecordNumber)
		w.u8(f)
		if f&1 != 0 {
			w.u32(r.ObjectIdentifier)
		}
		if f&2 != 0 {
			w.u32(r.EventIdentifier)
		}
		if f&4 != 0 {
			w.u32(secOf(r.Time))
		}
		w.u8(r.SourceServiceType)
		w.u8(r.RecipientServiceType)
		w.raw(b)
	}
	return w.b, true
}

// EncodeBody gives the bytes of a frame body.
func EncodeBody(d egts.BinaryData) ([]byte, bool) {
	switch e := d.(type) {
	case *egts.ServiceDataSet:
		return EncodeRecords(*e)
	case *egts.PtResponse:
		w := &wr{}
		w.u16(e.ResponsePacketID)
		w.u8(e.ProcessingResult)
		if e.SDR != nil {
			b, ok := EncodeRecords(*e.SDR.(*egts.ServiceDataSet))
			if !ok {
				return nil, false
			}
			w.raw(b)
		}
		return w.b, true
	case nil:
		return nil, true
	}
	return nil, false
}

// Header describes the transport header independently of a body.
type Header struct {
	PRV, SKID, Flags, HL, HE byte
	FDL, PID                 uint16
	PT                       byte
	PRA, RCA                 uint16
	TTL                      byte
}

// Routed tells whether the flags announce the routing fields.
func (h Header) Routed() bool { return h.Flags&0x20 != 0 }

// Bytes gives the header with its checksum. HL and FDL are taken as they are.
func (h Header) Bytes() []byte {
	w := &wr{}
	w.u8(h.PRV)
	w.u8(h.SKID)
	w.u8(h.Flags)
	w.u8(h.HL)
	w.u8(h.HE)
	w.u16(h.FDL)
	w.u16(h.PID)
	w.u8(h.PT)
	if h.Routed() {
		w.u16(h.PRA)
		w.u16(h.RCA)
		w.u8(h.TTL)
	}
	w.u8(CRC8(w.b))
	return w.b
}

// HeaderOf extracts the header of a package.
func HeaderOf(p *egts.Package) (Header, bool) {
	f, ok := bitsVal(p.Prefix, p.Route, p.EncryptionAlg, p.Compression, p.Priority)
	h := Header{PRV: p.ProtocolVersion, SKID: p.SecurityKeyID, Flags: f, HL: 11, HE: p.HeaderEncoding, PID: p.PacketIdentifier, PT: p.PacketType, PRA: p.PeerAddress, RCA: p.RecipientAddress, TTL: p.TimeToLive}
	if f&0x20 != 0 {
		h.HL = 16
	}
	return h, ok
}

// Packet puts a header and a raw body together, with both checksums.
func Packet(h Header, body []byte) []byte {
	h.FDL = uint16(len(body))
	b := h.Bytes()
	if len(body) > 0 {
		c := CRC16(body)
		b = append(b, body...)
		b = append(b, byte(c), byte(c>>8))
	}
	return b
}

// EncodePackage gives the standard's bytes of a package (lengths filled in); enc is applied to the body when
// the package is marked as encrypted.
func EncodePackage(p *egts.Package, enc func([]byte) []byte) ([]byte, bool) {
	h, ok := HeaderOf(p)
	if !ok {
		return nil, false
	}
	body, ok := EncodeBody(p.ServicesFrameData)
	if !ok {
		return nil, false
	}
	if h.Flags&0x18 != 0 {
		if enc == nil {
			return nil, false
		}
		body = enc(body)
	}
	if len(body) > 0xFFFF {
		return nil, false
	}
	return Packet(h, body), true
}

// Verdict is what the reference says about a byte string.
type Verdict struct {
	Codes  []byte // acceptable result codes; empty: unspecified
	Pkg    *egts.Package
	Unspec bool
}

// OK tells that the packet must be accepted.
func (v Verdict) OK() bool { return len(v.Codes) == 1 && v.Codes[0] == 0 }

// Allows tells whether a code is acceptable.
func (v Verdict) Allows(c byte) bool {
	for _, x := range v.Codes {
		if x == c {
			return true
		}
	}
	return false
}

type status int

const (
	good status = iota
	bad
	unspec
)

// DecodeRecordData decodes a subrecord set.
func DecodeRecordData(b []byte) (egts.RecordDataSet, status) {
	r := &rd{b: b}
	out := egts.RecordDataSet{}
	st := good
	for len(r.b) > 0 {
		t := r.u8()
		n := r.u16()
		if r.bad || int(n) > len(r.b) {
			return nil, worst(st, bad)
		}
		c := r.raw(int(n))
		if !KnownType(t) {
			continue
		}
		if t == 20 && n != 5 { // EGTS_SR_ACCEL_DATA is not implemented: the library refuses it
			return nil, worst(st, bad)
		}
		d, surplus, ok := DecodeSection(t, c)
		if !ok {
			if t == 15 {
				st = unspec
				continue
			}
			return nil, worst(st, bad)
		}
		if t == 0 && surplus > 0 {
			st = unspec
		}
		out = append(out, egts.RecordData{SubrecordType: t, SubrecordLength: n, SubrecordData: d})
	}
	return out, st
}

func worst(a, b status) status {
	if a == unspec {
		return unspec
	}
	return b
}

// DecodeRecords decodes a record set.
func DecodeRecords(b []byte) (egts.ServiceDataSet, status) {
	r := &rd{b: b}
	out := egts.ServiceDataSet{}
	st := good
	for len(r.b) > 0 {
		s := egts.ServiceDataRecord{}
		s.RecordLength = r.u16()
		s.RecordNumber = r.u16()
		f := uint(r.u8())
		s.SourceServiceOnDevice, s.RecipientServiceOnDevice, s.Group = Bits(f>>7, 1), Bits(f>>6, 1), Bits(f>>5, 1)
		s.RecordProcessingPriority = Bits(f>>3, 2)
		s.TimeFieldExists, s.EventIDFieldExists, s.ObjectIDFieldExists = Bits(f>>2, 1), Bits(f>>1, 1), Bits(f, 1)
		if f&1 != 0 {
			s.ObjectIdentifier = r.u32()
		}
		if f&2 != 0 {
			s.EventIdentifier = r.u32()
		}
		if f&4 != 0 {
			s.Time = TimeOf(r.u32())
		}
		s.SourceServiceType = r.u8()
		s.RecipientServiceType = r.u8()
		if r.bad {
			return nil, worst(st, bad)
		}
		if len(r.b) > 0 { // a last record with none of its data is tolerated
			if int(s.RecordLength) > len(r.b) {
				return nil, worst(st, bad)
			}
			rds, x := DecodeRecordData(r.raw(int(s.RecordLength)))
			if x == bad {
				return nil, worst(st, bad)
			}
			if x == unspec {
				st = unspec
			}
			s.RecordDataSet = rds
		}
		out = append(out, s)
	}
	return out, st
}

// DecodePackage says what decoding a byte string must give. dec is applied to encrypted bodies; nil means no key.
func DecodePackage(b []byte, dec func([]byte) ([]byte, bool)) Verdict {
	r := &rd{b: b}
	p := &egts.Package{}
	p.ProtocolVersion = r.u8()
	p.SecurityKeyID = r.u8()
	f := uint(r.u8())
	p.Prefix, p.Route, p.EncryptionAlg, p.Compression, p.Priority = Bits(f>>6, 2), Bits(f>>5, 1), Bits(f>>3, 2), Bits(f>>2, 1), Bits(f, 2)
	p.HeaderLength = r.u8()
	p.HeaderEncoding = r.u8()
	p.FrameDataLength = r.u16()
	p.PacketIdentifier = r.u16()
	p.PacketType = r.u8()
	want := 11
	if f&0x20 != 0 {
		p.PeerAddress = r.u16()
		p.RecipientAddress = r.u16()
		p.TimeToLive = r.u8()
		want = 16
	}
	p.HeaderCheckSum = r.u8()
	if r.bad || int(p.HeaderLength) != want {
		return Verdict{Codes: []byte{131}}
	}
	if p.HeaderCheckSum != CRC8(b[:want-1]) {
		return Verdict{Codes: []byte{137}}
	}
	n := int(p.FrameDataLength)
	if len(r.b) == 0 {
		return Verdict{Codes: []byte{132}}
	}
	if n == 0 { // header-only packet followed by other bytes: not specified
		return Verdict{Unspec: true}
	}
	if p.PacketType > 1 {
		return Verdict{Codes: []byte{133}}
	}
	if len(r.b) < n {
		return Verdict{Codes: []byte{129, 132}}
	}
	raw := r.raw(n)
	body := raw
	if f&0x18 != 0 {
		if dec == nil {
			return Verdict{Codes: []byte{129}}
		}
		d, ok := dec(raw)
		if !ok {
			return Verdict{Codes: []byte{129}}
		}
		body = d
	}
	var st status
	if p.PacketType == 1 {
		var s egts.ServiceDataSet
		s, st = DecodeRecords(body)
		p.ServicesFrameData = &s
	} else {
		q := &rd{b: body}
		e := &egts.PtResponse{}
		e.ResponsePacketID = q.u16()
		e.ProcessingResult = q.u8()
		if q.bad {
			st = bad
		} else if len(q.b) > 0 {
			var s egts.ServiceDataSet
			s, st = DecodeRecords(q.b)
			e.SDR = &s
		}
		p.ServicesFrameData = e
	}
	if st == bad {
		return Verdict{Codes: []byte{129}}
	}
	if len(r.b) < 2 {
		return Verdict{Codes: []byte{129, 132, 138}}
	}
	p.ServicesFrameDataCheckSum = r.u16()
	if p.ServicesFrameDataCheckSum != CRC16(raw) {
		if st == unspec {
			return Verdict{Codes: []byte{129, 138}}
		}
		return Verdict{Codes: []byte{138}}
	}
	if st == unspec {
		return Verdict{Unspec: true}
	}
	return Verdict{Codes: []byte{0}, Pkg: p}
}

// ---- comparison ---------------------------------------------------------------------------------------

// Dump renders the exported fields of a value canonically: pointers are followed, times are instants, floats
// are exact, nil and empty slices are the same, unexported and XXX_ fields are left out.
func Dump(v interface{}) string {
	var sb strings.Builder
	dump(&sb, reflect.ValueOf(v))
	return sb.String()
}

var timeType = reflect.TypeOf(time.Time{})

func dump(sb *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		dump(sb, v.Elem())
	case reflect.Struct:
		if v.Type() == timeType {
			t := v.Interface().(time.Time)
			fmt.Fprintf(sb, "t%d.%d", t.Unix(), t.Nanosecond())
			return
		}
		sb.WriteString(v.Type().Name())
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" || strings.HasPrefix(f.Name, "XXX_") {
				continue
			}
			sb.WriteString(f.Name)
			sb.WriteByte(':')
			dump(sb, v.Field(i))
			sb.WriteByte(' ')
		}
		sb.WriteByte('}')
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(sb, "x%x", v.Bytes())
			return
		}
		fallthrough
	case reflect.Array:
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dump(sb, v.Index(i))
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(sb, "f%x", math.Float64bits(v.Float()))
	case reflect.Bool:
		fmt.Fprintf(sb, "%v", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(sb, "%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprintf(sb, "%d", v.Uint())
	default:
		fmt.Fprintf(sb, "?%s", v.Kind())
	}
}

// Equal compares two values over their exported fields, like Dump but fast.
func Equal(a, b interface{}) bool { return eq(reflect.ValueOf(a), reflect.ValueOf(b)) }

func eq(a, b reflect.Value) bool {
	for a.IsValid() && (a.Kind() == reflect.Ptr || a.Kind() == reflect.Interface) {
		a = a.Elem()
	}
	for b.IsValid() && (b.Kind() == reflect.Ptr || b.Kind() == reflect.Interface) {
		b = b.Elem()
	}
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Struct:
		if a.Type() == timeType {
			return a.Interface().(time.Time).Equal(b.Interface().(time.Time))
		}
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.PkgPath != "" || strings.HasPrefix(f.Name, "XXX_") {
				continue
			}
			if !eq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !eq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Float32:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Float64: // degrees: one step of the wire format is 2e-8
		d := a.Float() - b.Float()
		return d < 1e-9 && d > -1e-9
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() == b.Uint()
	}
	return false
}
