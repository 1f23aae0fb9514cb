package ref

import (
	"bytes"
	_ "embed"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
)

// The EGTS+ section is a protobuf message. The reference reads the message definitions from a copy of
// docs/egts_sr_egtsplus_data.proto and maps them to the Go structure by field name, so the numbers and wire
// types in the generated code's tags and descriptor are not trusted.

//go:embed egtsplus.proto
var plusProto string

// PlusField is one field of a message of the proto file.
type PlusField struct {
	Name, Go, Label, Type string
	Num                   int
}

// PlusMsgs maps message names to their fields, ordered by field number.
var PlusMsgs = parseProto(plusProto)

// PlusReasons lists the enum values of storage_record.reason.
var PlusReasons []int32

func camel(s string) string {
	out := ""
	for _, p := range strings.Split(s, "_") {
		if p == "" {
			continue
		}
		// protoc-gen-go keeps an underscore before a digit
		if out != "" && p[0] >= '0' && p[0] <= '9' {
			out += "_" + p
			continue
		}
		out += strings.ToUpper(p[:1]) + p[1:]
	}
	return out
}

func parseProto(src string) map[string][]PlusField {
	m := map[string][]PlusField{}
	cur, inEnum := "", false
	for _, l := range strings.Split(src, "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		f := strings.Fields(strings.NewReplacer(";", " ", "=", " ", "{", " { ", "}", " } ").Replace(l))
		if len(f) == 0 {
			continue
		}
		switch {
		case f[0] == "message":
			cur = f[1]
		case f[0] == "enum":
			inEnum = true
		case f[0] == "}":
			if inEnum {
				inEnum = false
			} else {
				sort.Slice(m[cur], func(i, j int) bool { return m[cur][i].Num < m[cur][j].Num })
				cur = ""
			}
		case inEnum && len(f) == 2:
			n, _ := strconv.Atoi(f[1])
			PlusReasons = append(PlusReasons, int32(n))
		case cur != "" && len(f) == 4:
			n, _ := strconv.Atoi(f[3])
			m[cur] = append(m[cur], PlusField{Name: f[2], Go: camel(f[2]), Label: f[0], Type: strings.TrimPrefix(f[1], "nv."), Num: n})
		}
	}
	return m
}

func varint(w *wr, v uint64) {
	for v >= 0x80 {
		w.u8(byte(v) | 0x80)
		v >>= 7
	}
	w.u8(byte(v))
}

func plusField(v reflect.Value, f PlusField) reflect.Value {
	x := v.FieldByName(f.Go)
	if !x.IsValid() { // generated names that collide with methods get a suffix, e.g. Range_
		x = v.FieldByName(f.Go + "_")
	}
	return x
}

func encodePlus(e *egts.StorageRecord) ([]byte, bool) {
	return encMsg(reflect.ValueOf(e).Elem(), "storage_record")
}

func encMsg(v reflect.Value, name string) ([]byte, bool) {
	w := &wr{}
	for _, f := range PlusMsgs[name] {
		x := plusField(v, f)
		if !x.IsValid() {
			return nil, false
		}
		switch {
		case f.Label == "repeated":
			for i := 0; i < x.Len(); i++ {
				if f.Type == "reason" {
					varint(w, uint64(f.Num)<<3)
					varint(w, uint64(x.Index(i).Int()))
					continue
				}
				b, ok := encMsg(x.Index(i).Elem(), f.Type)
				if !ok {
					return nil, false
				}
				varint(w, uint64(f.Num)<<3|2)
				varint(w, uint64(len(b)))
				w.raw(b)
			}
		case f.Type == "bytes":
			if x.IsNil() {
				continue
			}
			varint(w, uint64(f.Num)<<3|2)
			varint(w, uint64(x.Len()))
			w.raw(x.Bytes())
		default:
			if x.IsNil() {
				if f.Label == "required" {
					return nil, false
				}
				continue
			}
			p := x.Elem()
			switch f.Type {
			case "uint32":
				varint(w, uint64(f.Num)<<3)
				varint(w, p.Uint())
			case "sint32":
				varint(w, uint64(f.Num)<<3)
				n := int32(p.Int())
				varint(w, uint64(uint32(n<<1)^uint32(n>>31)))
			case "bool":
				varint(w, uint64(f.Num)<<3)
				if p.Bool() {
					w.u8(1)
				} else {
					w.u8(0)
				}
			case "fixed32":
				varint(w, uint64(f.Num)<<3|5)
				w.u32(uint32(p.Uint()))
			case "sfixed32":
				varint(w, uint64(f.Num)<<3|5)
				w.u32(uint32(p.Int()))
			case "float":
				varint(w, uint64(f.Num)<<3|5)
				w.u32(math.Float32bits(float32(p.Float())))
			default:
				return nil, false
			}
		}
	}
	return w.b, true
}

// decodePlus decodes canonical encodings only (what encodePlus produces); ok is false for anything else.
func decodePlus(b []byte) (*egts.StorageRecord, bool) {
	e := &egts.StorageRecord{}
	if !decMsg(reflect.ValueOf(e).Elem(), "storage_record", b) {
		return e, false
	}
	c, ok := encodePlus(e)
	return e, ok && bytes.Equal(c, b)
}

func (r *rd) varint() uint64 {
	v := uint64(0)
	for s := 0; s < 64; s += 7 {
		c := r.u8()
		v |= uint64(c&0x7F) << s
		if c < 0x80 {
			return v
		}
	}
	r.bad = true
	return 0
}

func decMsg(v reflect.Value, name string, b []byte) bool {
	r := &rd{b: b}
	for len(r.b) > 0 {
		tag := r.varint()
		var f *PlusField
		for i := range PlusMsgs[name] {
			if PlusMsgs[name][i].Num == int(tag>>3) {
				f = &PlusMsgs[name][i]
			}
		}
		if f == nil || r.bad {
			return false
		}
		x := plusField(v, *f)
		switch wt := tag & 7; {
		case wt == 2 && f.Label == "repeated" && f.Type != "reason":
			n := r.varint()
			if r.bad || n > uint64(len(r.b)) {
				return false
			}
			m := reflect.New(x.Type().Elem().Elem())
			if !decMsg(m.Elem(), f.Type, r.raw(int(n))) {
				return false
			}
			x.Set(reflect.Append(x, m))
		case wt == 2 && f.Type == "bytes":
			n := r.varint()
			if r.bad || n > uint64(len(r.b)) {
				return false
			}
			x.SetBytes(append([]byte{}, r.raw(int(n))...))
		case wt == 0 && f.Type == "reason":
			n := int32(r.varint())
			known := false
			for _, k := range PlusReasons {
				known = known || k == n
			}
			if !known {
				return false
			}
			y := reflect.New(x.Type().Elem()).Elem()
			y.SetInt(int64(n))
			x.Set(reflect.Append(x, y))
		case wt == 0 && (f.Type == "uint32" || f.Type == "sint32" || f.Type == "bool"):
			n := r.varint()
			p := reflect.New(x.Type().Elem())
			switch f.Type {
			case "uint32":
				p.Elem().SetUint(uint64(uint32(n)))
			case "sint32":
				p.Elem().SetInt(int64(int32(uint32(n)>>1) ^ -int32(n&1)))
			case "bool":
				p.Elem().SetBool(n != 0)
			}
			x.Set(p)
		case wt == 5 && (f.Type == "fixed32" || f.Type == "sfixed32" || f.Type == "float"):
			n := r.u32()
			p := reflect.New(x.Type().Elem())
			switch f.Type {
			case "fixed32":
				p.Elem().SetUint(uint64(n))
			case "sfixed32":
				p.Elem().SetInt(int64(int32(n)))
			case "float":
				p.Elem().SetFloat(float64(math.Float32frombits(n)))
			}
			x.Set(p)
		default:
			return false
		}
		if r.bad {
			return false
		}
	}
	return true
}
