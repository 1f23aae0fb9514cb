// Package stor decides the properties of stored records (C21) and of the store plugins (C17).
package stor

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"verifharness/mc"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
	log "github.com/sirupsen/logrus"
)

// Checks by property.
var Checks = map[string]func() mc.Check{}

// Val is what a record is made of, independent of the field types of the implementation.
type Val struct {
	U    [11]uint64 // client, packet, speed, pdop, hdop, vdop, nsat, ns, course, (unused)
	T    [2]int64
	F    [2]float64
	An   [][2]uint64
	Liq  []Liq
	none bool // sensors are nil, not empty
}

// Liq is a liquid sensor.
type Liq struct {
	N, Mm, L uint64
	Flag     string
}

var uNames = []string{"Client", "PacketID", "Speed", "Pdop", "Hdop", "Vdop", "Nsat", "Ns", "Course"}
var uKeys = []string{"client", "packet_id", "speed", "pdop", "hdop", "vdop", "nsat", "ns", "course"}
var uBits = []int{32, 32, 16, 16, 16, 16, 8, 16, 9} // widths the protocol can fill
var tNames = []string{"NavigationTimestamp", "ReceivedTimestamp"}
var tKeys = []string{"navigation_unix_time", "received_unix_time"}
var fNames = []string{"Latitude", "Longitude"}
var fKeys = []string{"latitude", "longitude"}

func setNum(v reflect.Value, x uint64) {
	switch v.Kind() {
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(x)
	case reflect.Int, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(x))
	case reflect.Float64:
		v.SetFloat(float64(x))
	default:
		panic("harness: unexpected kind " + v.Kind().String())
	}
}

// Make builds the implementation's record.
func (x *Val) Make() *storage.NavRecord {
	r := &storage.NavRecord{}
	v := reflect.ValueOf(r).Elem()
	for k, n := range uNames {
		setNum(v.FieldByName(n), x.U[k])
	}
	for k, n := range tNames {
		setNum(v.FieldByName(n), uint64(x.T[k]))
	}
	for k, n := range fNames {
		v.FieldByName(n).SetFloat(x.F[k])
	}
	if !x.none {
		r.AnSensors = []storage.AnSensor{}
		r.LiquidSensors = []storage.LiquidSensor{}
	}
	for _, s := range x.An {
		a := storage.AnSensor{}
		av := reflect.ValueOf(&a).Elem()
		setNum(av.FieldByName("SensorNumber"), s[0])
		setNum(av.FieldByName("Value"), s[1])
		r.AnSensors = append(r.AnSensors, a)
	}
	for _, s := range x.Liq {
		l := storage.LiquidSensor{ErrorFlag: s.Flag}
		lv := reflect.ValueOf(&l).Elem()
		setNum(lv.FieldByName("SensorNumber"), s.N)
		setNum(lv.FieldByName("ValueMm"), s.Mm)
		setNum(lv.FieldByName("ValueL"), s.L)
		r.LiquidSensors = append(r.LiquidSensors, l)
	}
	return r
}

// parse is an own JSON object reader on top of the token stream that refuses duplicate keys and keeps numbers exact.
func parse(b []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	v, err := value(d)
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("something follows the record")
	}
	return v, nil
}

func value(d *json.Decoder) (interface{}, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	dl, ok := t.(json.Delim)
	if !ok {
		return t, nil
	}
	switch dl {
	case '{':
		m := map[string]interface{}{}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			ks := k.(string)
			if _, dup := m[ks]; dup {
				return nil, fmt.Errorf("key %q appears twice", ks)
			}
			if m[ks], err = value(d); err != nil {
				return nil, err
			}
		}
		_, err = d.Token()
		return m, err
	case '[':
		l := []interface{}{}
		for d.More() {
			v, err := value(d)
			if err != nil {
				return nil, err
			}
			l = append(l, v)
		}
		_, err = d.Token()
		return l, err
	}
	return nil, fmt.Errorf("unexpected %v", t)
}

func isNum(v interface{}, want string) bool {
	n, ok := v.(json.Number)
	if !ok {
		return false
	}
	if string(n) == want {
		return true
	}
	a, ok1 := new(big.Rat).SetString(string(n))
	b, ok2 := new(big.Rat).SetString(want)
	return ok1 && ok2 && a.Cmp(b) == 0
}

func isFloat(v interface{}, want float64) bool {
	n, ok := v.(json.Number)
	if !ok {
		return false
	}
	f, err := strconv.ParseFloat(string(n), 64)
	return err == nil && (math.Float64bits(f) == math.Float64bits(want) || (f == 0 && want == 0))
}

func u(x uint64) string { return strconv.FormatUint(x, 10) }

// Match compares serialised bytes with what they must say.
func (x *Val) Match(b []byte) string {
	v, err := parse(b)
	if err != nil {
		return "not valid JSON: " + err.Error()
	}
	m, ok := v.(map[string]interface{})
	if !ok {
		return "not a JSON object"
	}
	for k, n := range uKeys {
		if !isNum(m[n], u(x.U[k])) {
			return fmt.Sprintf("%s is %v instead of %d", n, m[n], x.U[k])
		}
	}
	for k, n := range tKeys {
		if !isNum(m[n], strconv.FormatInt(x.T[k], 10)) {
			return fmt.Sprintf("%s is %v instead of %d", n, m[n], x.T[k])
		}
	}
	for k, n := range fKeys {
		if !isFloat(m[n], x.F[k]) {
			return fmt.Sprintf("%s is %v instead of %v", n, m[n], x.F[k])
		}
	}
	list := func(k string, n int) ([]interface{}, string) {
		if m[k] == nil && n == 0 {
			return nil, ""
		}
		l, ok := m[k].([]interface{})
		if !ok || len(l) != n {
			return nil, fmt.Sprintf("%s is %v instead of a list of %d", k, m[k], n)
		}
		return l, ""
	}
	l, msg := list("an_sensors", len(x.An))
	if msg != "" {
		return msg
	}
	for i, e := range l {
		o, _ := e.(map[string]interface{})
		if !isNum(o["sensor_number"], u(x.An[i][0])) || !isNum(o["value"], u(x.An[i][1])) {
			return fmt.Sprintf("analog sensor %d is %v instead of %v", i, e, x.An[i])
		}
	}
	if l, msg = list("liquid_sensors", len(x.Liq)); msg != "" {
		return msg
	}
	for i, e := range l {
		o, _ := e.(map[string]interface{})
		if !isNum(o["sensor_number"], u(x.Liq[i].N)) || !isNum(o["value_mm"], u(x.Liq[i].Mm)) || !isNum(o["value_l"], u(x.Liq[i].L)) || o["error_flag"] != x.Liq[i].Flag {
			return fmt.Sprintf("liquid sensor %d is %v instead of %+v", i, e, x.Liq[i])
		}
	}
	return ""
}

// hook catches what the logging store writes.
// capture runs f and gives what it writes to the standard outputs.
func capture(f func()) string {
	capOnce.Do(func() {
		var err error
		if capFile, err = os.CreateTemp(os.Getenv("VERIF_SCRATCH"), "out"); err != nil {
			panic("harness: " + err.Error())
		}
		_ = os.Remove(capFile.Name())
		for k := range capOld {
			if capOld[k], err = syscall.Dup(k + 1); err != nil {
				panic("harness: " + err.Error())
			}
		}
		log.SetLevel(log.InfoLevel)
		log.SetOutput(os.Stderr)
	})
	_ = capFile.Truncate(0)
	_, _ = capFile.Seek(0, io.SeekStart)
	redirect := func(fds [2]int) {
		for k, fd := range fds {
			if err := syscall.Dup2(fd, k+1); err != nil {
				panic("harness: " + err.Error())
			}
		}
	}
	redirect([2]int{int(capFile.Fd()), int(capFile.Fd())})
	defer redirect(capOld)
	f()
	_, _ = capFile.Seek(0, io.SeekStart)
	b, err := io.ReadAll(capFile)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b)
}

var (
	capOnce sync.Once
	capFile *os.File
	capOld  [2]int
)

// objects are the JSON objects of a text, also those in quoted strings and in strings of objects.
func objects(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		switch s[i] {
		case '"':
			if q, err := strconv.QuotedPrefix(s[i:]); err == nil {
				if u, err := strconv.Unquote(q); err == nil {
					out = append(out, objects(u)...)
				}
				i += len(q)
				continue
			}
		case '{':
			var m map[string]json.RawMessage
			d := json.NewDecoder(strings.NewReader(s[i:]))
			if d.Decode(&m) == nil {
				n := int(d.InputOffset())
				out = append(out, s[i:i+n])
				for _, v := range m {
					var t string
					if json.Unmarshal(v, &t) == nil {
						out = append(out, objects(t)...)
					}
				}
				i += n
				continue
			}
		}
		i++
	}
	return out
}

var prev []byte  // what the previous record was serialised to
var prevC []byte // copy of it

// one checks a record in every way.
func one(c *mc.C, x *Val) {
	r, r2 := x.Make(), x.Make()
	b, err := r.ToBytes()
	if err != nil {
		c.Failf("cannot serialise %+v: %v", *x, err)
		return
	}
	if m := x.Match(b); m != "" {
		c.Failf("%s\n%s", m, b)
		return
	}
	if prev != nil && !bytes.Equal(prev, prevC) {
		c.Failf("serialising a record changed the serialised form of an earlier one to %s", prev)
	}
	prev, prevC = b, append([]byte{}, b...)
	if !reflect.DeepEqual(r, r2) {
		c.Failf("serialising changed the record to %+v from %+v", *r, *r2)
	}
	b2, err := r2.ToBytes()
	if err != nil || !bytes.Equal(b, b2) {
		c.Failf("an equal record serialises to %s instead of %s", b2, b)
	}
	if b3, _ := r.ToBytes(); !bytes.Equal(b, b3) {
		c.Failf("serialising again gives %s instead of %s", b3, b)
	}
	var back storage.NavRecord
	if err := json.Unmarshal(b, &back); err != nil {
		c.Failf("cannot read %s back: %v", b, err)
		return
	}
	if len(back.AnSensors) == 0 {
		back.AnSensors = r.AnSensors
	}
	if len(back.LiquidSensors) == 0 {
		back.LiquidSensors = r.LiquidSensors
	}
	if !reflect.DeepEqual(*r, back) {
		c.Failf("%s reads back as %+v instead of %+v", b, back, *r)
	}
	c.Op(4)
	c.Trace()
	c.State('n', b)
	c.Outcome("serialised")
	logged(c, x, r)
}

// logged checks what the logging store writes.
func logged(c *mc.C, x *Val, r *storage.NavRecord) {
	var err error
	got := capture(func() { err = storage.LogConnector{}.Save(r) })
	if err != nil {
		c.Failf("the logging store fails: %v", err)
		return
	}
	n := 0
	msg := "nothing"
	for _, o := range objects(got) {
		if m := x.Match([]byte(o)); m == "" {
			n++
		} else {
			msg = m
		}
	}
	if n != 1 {
		c.Failf("the logging store wrote the record %d times (%s): %q", n, msg, got)
		return
	}
	c.Op(1)
	c.Outcome("logged")
}

func base(p int) *Val {
	x := &Val{}
	switch p {
	case 0:
		x.none = true
	case 1:
		for k := range uNames {
			x.U[k] = 1<<uBits[k] - 1
		}
		x.T = [2]int64{1<<32 + 1262304000, 1<<40 + 5}
		x.F = [2]float64{90, -180}
		x.An = [][2]uint64{{255, 1<<24 - 1}}
		x.Liq = []Liq{{7, 1<<32 - 1, 1<<32 - 1, "1"}}
	default:
		for k := range uNames {
			x.U[k] = (0x9E3779B1 * uint64(k+3+p)) & (1<<uBits[k] - 1)
		}
		x.T = [2]int64{1700000000 + int64(p), 1700000011}
		x.F = [2]float64{-55.123456789012345, 37.000000000000007}
		x.An = [][2]uint64{{1, 4711}, {2, 815}}
		x.Liq = []Liq{{3, 100, 0, "0"}, {4, 0, 200, "1"}}
	}
	return x
}

func edge(bits int) []uint64 {
	m := uint64(1)<<bits - 1
	s := map[uint64]bool{0: true, m: true}
	var l []uint64
	for b := 0; b < bits; b++ {
		for d := -2; d <= 2; d++ {
			s[(uint64(1)<<b+uint64(d))&m] = true
			s[(m-uint64(1)<<b+uint64(d))&m] = true
		}
	}
	p := uint64(1)
	for k := 0; k < 20; k++ {
		for d := -2; d <= 2; d++ {
			s[(p+uint64(d))&m] = true
		}
		p *= 10
	}
	for v := range s {
		l = append(l, v)
	}
	sortU(l)
	return l
}

func sortU(l []uint64) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

func init() {
	Checks["C21"] = func() mc.Check {
		return mc.Check{Bound: "the real NavRecord.ToBytes and LogConnector.Save: every value of every 8- and 16-bit field, boundary, power-of-two and power-of-ten values of every 32- and 64-bit field, all pairs of boundary values of two fields, raw coordinate values (every value of each byte of the wire value, both signs, exact float64 comparison), all combinations of absent/empty/1/2/3 sensors of both kinds with boundary values, 0..300 sensors; read back by an own exact reader and by encoding/json",
			Assume: []string{"coordinates are finite and error flags valid UTF-8, as everything the protocol can produce is"},
			Spaces: func(tier string) []mc.Space {
				th := tier == "thorough"
				var out []mc.Space
				for k := range uNames {
					k := k
					var vals []uint64
					if uBits[k] <= 16 {
						for v := uint64(0); v < 1<<uBits[k]; v++ {
							vals = append(vals, v)
						}
					} else {
						vals = edge(uBits[k])
						if th {
							for v := uint64(0); v < 65536; v++ {
								vals = append(vals, v, v<<16, v<<8)
							}
						}
					}
					nb := uint64(2)
					out = append(out, mc.Space{Name: "value/" + uKeys[k], N: uint64(len(vals)) * nb, Do: func(c *mc.C, i uint64) {
						x := base(int(i%nb) + 1)
						x.U[k] = vals[i/nb]
						one(c, x)
					}})
				}
				e64 := edge(63)
				for k := range tNames {
					k := k
					out = append(out, mc.Space{Name: "value/" + tKeys[k], N: uint64(len(e64)) * 2, Do: func(c *mc.C, i uint64) {
						x := base(2)
						x.T[k] = int64(e64[i/2])
						if i%2 == 1 {
							x.T[k] = -x.T[k]
						}
						one(c, x)
					}})
				}
				for k := range fNames {
					k := k
					out = append(out, mc.Space{Name: "coordinate/" + fKeys[k], N: 4 * 256 * 3 * 2 * 2, Do: func(c *mc.C, i uint64) {
						raw := uint32(byte(i)) << (8 * (i >> 8 & 3))
						i >>= 10
						raw ^= []uint32{0, 0xFFFFFFFF, 0x5A3C96E1}[i%3]
						i /= 3
						f := float64(raw) * []float64{90, 180}[k] / 0xFFFFFFFF
						if i%2 == 1 {
							f = -f
						}
						x := base(2)
						if i/2 == 1 {
							x = base(0)
						}
						x.F[k] = f
						one(c, x)
					}})
					ex := []float64{0, math.Copysign(0, -1), 5e-324, 1e-7, 1e-6, 9.999999e-7, 1e21, 1e20, 123456789.125, math.MaxFloat64, 0.1, 0.30000000000000004, 90, 180, 89.99999999999999, 2.0954757942e-8}
					out = append(out, mc.Space{Name: "float/" + fKeys[k], N: uint64(len(ex)) * 2, Do: func(c *mc.C, i uint64) {
						x := base(2)
						x.F[k] = ex[i/2]
						if i%2 == 1 {
							x.F[k] = -x.F[k]
						}
						one(c, x)
					}})
				}
				// pairs of boundary values of two unsigned fields
				nu := uint64(len(uNames))
				out = append(out, mc.Space{Name: "pairs", N: nu * nu * 16, Do: func(c *mc.C, i uint64) {
					a, b := i%nu, i/nu%nu
					i /= nu * nu
					v := func(k, s uint64) uint64 {
						m := uint64(1)<<uBits[k] - 1
						return []uint64{0, 1, m, m/2 + 1}[s]
					}
					x := base(0)
					x.U[a] = v(a, i%4)
					x.U[b] = v(b, i/4)
					one(c, x)
				}})
				// sensors: each position absent or one of several kinds
				an := [][2]uint64{{0, 0}, {1, 1}, {255, 1<<24 - 1}, {8, 1 << 31}, {255, 1<<32 - 1}}
				flags := []string{"0", "1", ""}
				var lq []Liq
				for _, f := range flags {
					lq = append(lq, Liq{0, 0, 0, f}, Liq{7, 1<<32 - 1, 0, f}, Liq{255, 0, 655350, f})
				}
				na, nl := uint64(len(an)+1), uint64(len(lq)+1)
				out = append(out, mc.Space{Name: "sensors", N: na * na * na * nl * nl * 2, Do: func(c *mc.C, i uint64) {
					x := base(2)
					x.An, x.Liq = nil, nil
					x.none = i%2 == 1
					i /= 2
					for k := 0; k < 3; k++ {
						if i%na > 0 {
							x.An = append(x.An, an[i%na-1])
						}
						i /= na
					}
					for k := 0; k < 2; k++ {
						if i%nl > 0 {
							x.Liq = append(x.Liq, lq[i%nl-1])
						}
						i /= nl
					}
					one(c, x)
				}})
				out = append(out, mc.Space{Name: "many-sensors", N: 300 * 2, Do: func(c *mc.C, i uint64) {
					x := base(2)
					x.An, x.Liq = nil, nil
					for k := uint64(0); k < i/2; k++ {
						if i%2 == 0 {
							x.An = append(x.An, [2]uint64{k & 255, k * 77})
						} else {
							x.Liq = append(x.Liq, Liq{k & 255, k, k * 10, []string{"0", "1"}[k%2]})
						}
					}
					one(c, x)
				}})
				for _, f := range []struct {
					name string
					bits int
					set  func(x *Val, v uint64)
				}{
					{"an-number", 8, func(x *Val, v uint64) { x.An = [][2]uint64{{v, 5}} }},
					{"an-value", 32, func(x *Val, v uint64) { x.An = [][2]uint64{{3, v}} }},
					{"liquid-number", 8, func(x *Val, v uint64) { x.Liq = []Liq{{v, 1, 2, "0"}} }},
					{"liquid-mm", 32, func(x *Val, v uint64) { x.Liq = []Liq{{4, v, 0, "0"}} }},
					{"liquid-l", 32, func(x *Val, v uint64) { x.Liq = []Liq{{4, 0, v, "1"}} }},
				} {
					f := f
					vals := edge(f.bits)
					if f.bits == 8 {
						vals = nil
						for v := uint64(0); v < 256; v++ {
							vals = append(vals, v)
						}
					}
					out = append(out, mc.Space{Name: "sensor/" + f.name, N: uint64(len(vals)), Do: func(c *mc.C, i uint64) {
						x := base(2)
						f.set(x, vals[i])
						one(c, x)
					}})
				}
				strs := []string{"", "0", "1", "00", "\"", "\\", "<&>", "\u2028", "ё", "\x00", "\n\t\r", "{}", "null", "\U0001F600", "\x7f"}
				out = append(out, mc.Space{Name: "flags", N: uint64(len(strs)*len(strs)) + 128, Do: func(c *mc.C, i uint64) {
					x := base(2)
					if i < 128 {
						x.Liq[0].Flag = string(rune(i))
					} else {
						i -= 128
						x.Liq[0].Flag = strs[i%uint64(len(strs))] + strs[i/uint64(len(strs))]
					}
					one(c, x)
				}})
				// what no JSON number can say is reported, not replaced or passed over
				nn := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}
				out = append(out, mc.Space{Name: "not numbers", N: uint64(3 * 15), Do: func(c *mc.C, i uint64) {
					x := base(int(i % 3))
					how := int(i/3) + 1 // of both coordinates, which is not a number
					for k := range x.F {
						if w := how >> (2 * uint(k)) & 3; w > 0 {
							x.F[k] = nn[w-1]
						}
					}
					r := x.Make()
					c.Describe("coordinates %v", x.F)
					if b, err := r.ToBytes(); err == nil {
						c.Failf("coordinates %v are serialised to %s without an error", x.F, b)
					}
					var err error
					got := capture(func() { err = storage.LogConnector{}.Save(r) })
					if err == nil {
						c.Failf("the logging store reports nothing for coordinates %v; it wrote %q", x.F, got)
					}
					c.Op(2)
					c.StateS('f', fmt.Sprint(x.F, i%3))
					c.Outcome("reported")
				}})
				// several saves in a row through the logging store: one line each, in order
				out = append(out, mc.Space{Name: "log-level", N: 4, Do: func(c *mc.C, i uint64) {
					x := base(int(i))
					one(c, x)
					lvl := []log.Level{log.DebugLevel, log.InfoLevel, log.DebugLevel, log.TraceLevel}[i]
					log.SetLevel(lvl)
					logged(c, x, x.Make())
					log.SetLevel(log.InfoLevel)
				}})
				return out
			}}
	}
}

// Quiet keeps the log of the code under test out of the way.
func Quiet() {
	if os.Getenv("MC_CHILD") != "" {
		log.SetOutput(io.Discard)
	}
}
