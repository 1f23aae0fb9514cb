// Package conf decides the properties of the configuration (C18): what the settings are, which stores are used, and
// what the receiver process does with them.
package conf

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/config"
	log "github.com/sirupsen/logrus"
	"verifharness/mc"
)

// Checks by property.
var Checks = map[string]func() mc.Check{}

// want is what a file says.
type want struct {
	host, port, level string
	ttl               int
	store             map[string]map[string]string
}

func (w want) check(c *mc.C, what string, s config.Settings) {
	addr := w.host + ":" + w.port
	lvl := log.InfoLevel
	switch w.level {
	case "DEBUG":
		lvl = log.DebugLevel
	case "WARN":
		lvl = log.WarnLevel
	case "ERROR":
		lvl = log.ErrorLevel
	}
	switch {
	case s.GetListenAddress() != addr:
		c.Failf("%s: listens on %q instead of %q", what, s.GetListenAddress(), addr)
	case s.GetEmptyConnTTL() != time.Duration(w.ttl)*time.Second:
		c.Failf("%s: the idle limit is %v instead of %d s", what, s.GetEmptyConnTTL(), w.ttl)
	case s.GetLogLevel() != lvl:
		c.Failf("%s: log level %q is %v instead of %v", what, w.level, s.GetLogLevel(), lvl)
	case len(s.Store) != len(w.store):
		c.Failf("%s: stores %v instead of %v", what, s.Store, w.store)
	default:
		for k, v := range w.store {
			if g, ok := s.Store[k]; !ok || len(g) != len(v) || len(v) > 0 && !reflect.DeepEqual(g, v) {
				c.Failf("%s: store %q has settings %q instead of %q", what, k, g, v)
			}
		}
	}
}

// kv is a line of a file; a nil store value means that there is none.
type kv struct {
	key   string
	val   string // written as it is
	store []sec
	isSec bool
}

type sec struct {
	name   string
	params [][2]string // values written as they are
	empty  string      // what is written if there are no params
}

func dq(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r == '\r':
			b.WriteString(`\r`)
		case r < 0x20 || r == 0x7f:
			fmt.Fprintf(&b, `\x%02x`, r)
		case r > 0x7e && r < 0x10000:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func sq(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

func plainOK(s string) bool {
	if s == "" || s == "null" || s == "Null" || s == "NULL" || s == "~" {
		return false
	}
	for k, r := range s {
		ok := r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || k > 0 && strings.ContainsRune("_./-@%=+$", r)
		if !ok {
			return false
		}
	}
	return true
}

// scalar writes a string in a style; not every string can be written in every style.
func scalar(s string, style int) string {
	switch style {
	case 1:
		if !strings.ContainsAny(s, "\n\r\x01\x7f") {
			return sq(s)
		}
	case 2:
		if plainOK(s) {
			return s
		}
	}
	return dq(s)
}

const nForms = 9

// write makes the file in one of several forms.
func write(lines []kv, form int) string {
	ls := append([]kv{}, lines...)
	ind := "  "
	switch form {
	case 1, 7:
		for i, j := 0, len(ls)-1; i < j; i, j = i+1, j-1 {
			ls[i], ls[j] = ls[j], ls[i]
		}
		if form == 7 {
			ind = "        "
		}
	case 8: // rotated
		if len(ls) > 2 {
			ls = append(ls[2:], ls[:2]...)
		}
	}
	var b strings.Builder
	if form == 2 || form == 5 { // flow
		q := func(s string) string { return s }
		if form == 5 {
			q = func(s string) string { b, _ := json.Marshal(s); return string(b) }
		}
		b.WriteString("{")
		for k, l := range ls {
			if k > 0 {
				b.WriteString(", ")
			}
			b.WriteString(q(l.key) + ": ")
			if !l.isSec {
				b.WriteString(l.val)
				continue
			}
			b.WriteString("{")
			for j, s := range l.store {
				if j > 0 {
					b.WriteString(", ")
				}
				b.WriteString(q(s.name) + ": {")
				for m, p := range s.params {
					if m > 0 {
						b.WriteString(", ")
					}
					b.WriteString(q(p[0]) + ": " + p[1])
				}
				b.WriteString("}")
			}
			b.WriteString("}")
		}
		b.WriteString("}\n")
		return b.String()
	}
	if form == 4 {
		b.WriteString("# receiver\n---\n\n")
	}
	for k, l := range ls {
		if form == 4 {
			fmt.Fprintf(&b, "# line %d: {[\"\n", k)
		}
		if !l.isSec {
			b.WriteString(l.key + ": " + l.val)
			if form == 4 {
				b.WriteString("   # as it is")
			}
			b.WriteString("\n")
			continue
		}
		b.WriteString(l.key + ":\n")
		for _, s := range l.store {
			b.WriteString(ind + s.name + ":")
			if len(s.params) == 0 {
				b.WriteString(s.empty)
			}
			b.WriteString("\n")
			for _, p := range s.params {
				b.WriteString(ind + ind + p[0] + ": " + p[1] + "\n")
				if form == 4 {
					b.WriteString("\n" + ind + ind + "# - x: y\n")
				}
			}
		}
	}
	out := b.String()
	switch form {
	case 3:
		out = strings.ReplaceAll(out, "\n", "\r\n")
	case 4:
		out += "...\n"
	case 6:
		out = "\ufeff" + out
	}
	return out
}

// load writes and reads a file.
func load(data string) (config.Settings, error) {
	f := filepath.Join(tmp(), "c.yaml")
	if err := os.WriteFile(f, []byte(data), 0600); err != nil {
		panic("harness: " + err.Error())
	}
	return config.New(f)
}

var tmpDir string

func tmp() string {
	if tmpDir == "" {
		d, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "conf")
		if err != nil {
			panic("harness: " + err.Error())
		}
		tmpDir = d
	}
	return tmpDir
}

func judge(c *mc.C, data string, w want) {
	c.Describe("file %q", data)
	s, err := load(data)
	c.Op(1)
	if err != nil {
		c.Failf("the file %q gives an error: %v", data, err)
		return
	}
	w.check(c, fmt.Sprintf("the file %q", data), s)
	c.Trace()
	c.StateS('f', data)
	c.Outcome("settings as written")
}

var (
	hosts  = []string{"\x00", "127.0.0.1", "0.0.0.0", "localhost", "", "egts-1.example.org", "[::1]"}
	ports  = []string{"\x00", "6000", "0", "65535", "", "05020", "egts"}
	ttls   = []string{"\x00", "0", "1", "10", "59", "3600", "86400", "2147483647", "2147483648", "9223372036", "-1"}
	levels = []string{"\x00", "DEBUG", "INFO", "WARN", "ERROR", "debug", "Info", "TRACE", "", "WARNING", "FATAL", "ERROR ", "DEBUG,INFO", "0", "уровень"}
	stores = [][]sec{nil, {}, {{name: "redis", params: [][2]string{{"server", "localhost:6379"}, {"queue", "egts"}, {"db", "0"}}}},
		{{name: "nats", params: [][2]string{{"servers", "nats://localhost:1222, nats://localhost:1223"}, {"topic", "receiver"}}}, {name: "mysql", params: [][2]string{{"uri", "u:p@tcp(h:3306)/d?x=1"}, {"table", "points"}}}},
		{{name: "rabbitmq", params: [][2]string{{"exchange", "e"}, {"key", ""}}}, {name: "unknown", params: [][2]string{{"host", "other"}, {"port", "1"}, {"conn_ttl", "77"}, {"log_level", "ERROR"}}}}}
)

const none = "\x00"

// file makes the lines of a file and what they mean.
func file(h, p, t, l int, st []sec, has bool, style int) ([]kv, want) {
	var ls []kv
	var w want
	if x := hosts[h]; x != none {
		ls = append(ls, kv{key: "host", val: scalar(x, style)})
		w.host = x
	}
	if x := ports[p]; x != none {
		ls = append(ls, kv{key: "port", val: scalar(x, style)})
		w.port = x
	}
	if x := ttls[t]; x != none {
		ls = append(ls, kv{key: "conn_ttl", val: x})
		_, _ = fmt.Sscan(x, &w.ttl)
	}
	if x := levels[l]; x != none {
		ls = append(ls, kv{key: "log_level", val: scalar(x, style)})
		w.level = x
	}
	if has {
		k := kv{key: "storage", isSec: true}
		w.store = map[string]map[string]string{}
		for _, s := range st {
			m := map[string]string{}
			n := sec{name: s.name, empty: s.empty}
			for _, q := range s.params {
				n.params = append(n.params, [2]string{q[0], scalar(q[1], style)})
				m[q[0]] = q[1]
			}
			w.store[s.name] = m
			k.store = append(k.store, n)
		}
		ls = append(ls, k)
	}
	return ls, w
}

// values a store setting may have.
func values() []string {
	out := []string{"plain", "two words", " lead", "trail ", "quo'te", "''", `dou"ble`, `back\slash`, `end\`, "at@sign", "co:lon", "co: lon", "#no comment", "a #b", "sl/ash", "per%41cent", "eq=ual", "a&b+c", "&a", "*a", "!x", "!!int 1", "|", ">", "- a", "? a",
		"{a: b}", "[a]", "плюс", "tab\there", "new\nline", "cr\rx", "", "~", "null", "true", "yes", "off", "0", "007", "0x1F", "1_000", "1e3", ".5", "-1", "1.0", "+12", "0b1", "0o7", "12:30:45", "2020-01-01", "2020-01-01T10:00:00Z", "<<", "=", ".inf", ".nan", "%YAML", "@x", "`x`", "\x01", "\x7f", "日本", "p@ss:w0rd/#%&?", strings.Repeat("x", 300), strings.Repeat("long word ", 40)}
	for k := 0x20; k < 0x7f; k++ {
		out = append(out, string(rune(k)), string(rune(k))+"x", "x"+string(rune(k)))
	}
	return out
}

var storeNames = []string{"rabbitmq", "postgresql", "nats", "tarantool_queue", "redis", "mysql", "anything"}
var paramNames = []string{"server", "queue", "password", "db", "host", "port", "user", "database", "table", "sslmode", "uri", "max_recons", "timeout", "reconnect", "servers", "topic", "exchange", "key", "conn_ttl", "plugin"}

// malformed files.
var malformed = []string{
	"host: \"127.0.0.1", "host: '127.0.0.1", "host: [", "host: {", "{", "[", "host: ]", "host: }", "host: \"a\" b", "\thost: a", "storage:\n\tredis:\n", "storage:\n  redis:\n\t  db: 1\n", "host: a\n  port: b\n", "host: a\n port: b", "host: *nowhere",
	"host: @x", "host: `x", "host: %x", "host: \"\\q\"", "host: a: b", "- host: a\nport: b", "host: a\n- port: b", "host", "just text", "- a\n- b", "[]", "[a, b]", "\"text\"", "12", "host: [a]", "host: {a: b}", "host:\n  - a\n", "host:\n  a: b\n", "port: [6000]", "port: {a: 1}", "conn_ttl: ten", "conn_ttl: [1]", "conn_ttl: {a: 1}", "conn_ttl: 10s", "conn_ttl: 1 0", "conn_ttl: 99999999999999999999999",
	"log_level: [DEBUG]", "log_level: {a: b}", "storage: redis", "storage: 1", "storage: [redis]", "storage:\n  - redis\n", "storage:\n  redis: 1\n", "storage:\n  redis: text\n", "storage:\n  redis: [a]\n", "storage:\n  redis:\n    - a\n", "storage:\n  redis:\n    db: [1]\n", "storage:\n  redis:\n    db: {a: 1}\n", "storage:\n  redis:\n    db:\n      - 1\n", "storage:\n  redis: {db: 1\n",
	"host: a\x00b", "\x00", "host: a\xff", "\xff\xfe\x00", "host: \"a\x01\"", "host: \x02", "host: !!int a", "conn_ttl: !!int x", "host: |x\n", "%YAML 3.0\n---\nhost: a", "--- host: a\nb",
}

func shipped(c *mc.C) {
	b, err := os.ReadFile("/repo/configs/receiver.yaml")
	if err != nil {
		c.Failf("the shipped configuration cannot be read: %v", err)
		return
	}
	c.Describe("the shipped configuration")
	var w want
	w.store = map[string]map[string]string{}
	cur := ""
	unq := func(s string) string { return strings.Trim(strings.TrimSpace(s), `"'`) }
	for _, l := range strings.Split(string(b), "\n") {
		if t := strings.TrimSpace(l); t == "" || t[0] == '#' {
			continue
		}
		in := len(l) - len(strings.TrimLeft(l, " "))
		p := strings.SplitN(strings.TrimSpace(l), ":", 2)
		switch {
		case in == 0:
			cur = ""
			switch v := unq(p[1]); p[0] {
			case "host":
				w.host = v
			case "port":
				w.port = v
			case "conn_ttl":
				_, _ = fmt.Sscan(v, &w.ttl)
			case "log_level":
				w.level = v
			case "storage":
			default:
				c.Failf("the shipped configuration has a setting %q that means nothing", p[0])
			}
		case strings.TrimSpace(p[1]) == "":
			cur = p[0]
			w.store[cur] = map[string]string{}
		default:
			w.store[cur][p[0]] = unq(p[1])
		}
	}
	s, err := config.New("/repo/configs/receiver.yaml")
	c.Op(1)
	if err != nil {
		c.Failf("the shipped configuration: %v", err)
		return
	}
	w.check(c, "the shipped configuration", s)
	if w.ttl <= 0 {
		c.Failf("the shipped configuration sets no idle limit")
	}
	c.StateS('s', string(b))
	c.Outcome("shipped configuration")
}

const sample = `# sample
host: "127.0.0.1"
port: "6000"
conn_ttl: 10
log_level: "DEBUG"

storage:
  redis:
    server: "localhost:6379"
    queue: 'egts'
    db: 3
  nats:
    servers: "nats://localhost:1222"
    topic: receiver
`

func fileSpaces(th bool) []mc.Space {
	var out []mc.Space
	dims := []int{len(hosts), len(ports), len(ttls), len(levels), len(stores)}
	n := uint64(1)
	for _, d := range dims {
		n *= uint64(d)
	}
	pick := func(i uint64) (x [5]int, rest uint64) {
		for k, d := range dims {
			x[k] = int(i % uint64(d))
			i /= uint64(d)
		}
		return x, i
	}
	mul := uint64(1)
	if th {
		mul = 3 * nForms
	}
	out = append(out, mc.Space{Name: "files/settings", N: n * mul, Do: func(c *mc.C, i uint64) {
		x, r := pick(i)
		style, form := int(r%3), int(r/3)
		if !th { // every file in one style and form
			style, form = int(i/7+i/49+i/539)%3, int(i/5+i/35+i/385)%nForms
		}
		if form == 5 {
			style = 0 // JSON
		}
		ls, w := file(x[0], x[1], x[2], x[3], stores[x[4]], stores[x[4]] != nil, style)
		judge(c, write(ls, form), w)
	}})
	vs := values()
	out = append(out, mc.Space{Name: "files/values", N: uint64(len(vs) * 3 * nForms), Do: func(c *mc.C, i uint64) {
		v, style, form := vs[i%uint64(len(vs))], int(i/uint64(len(vs))%3), int(i/uint64(len(vs))/3)
		if form == 5 && style != 0 {
			style = 0
		}
		if (form == 2 || form == 5) && style == 1 && strings.Contains(v, "\t") {
			style = 0
		}
		a, b := storeNames[i%7], storeNames[(i+1+i/7%6)%7]
		p, q := paramNames[i%20], paramNames[(i/7+i+3)%20]
		if q == p {
			q = "other"
		}
		st := []sec{{name: a, params: [][2]string{{p, v}, {q, "between"}}}, {name: b, params: [][2]string{{"first", "x"}, {p, v}}}}
		if a == b {
			st = st[:1]
		}
		ls, w := file(1, 1, 3, 1, st, true, style)
		judge(c, write(ls, form), w)
	}})
	// values that have another type in YAML are kept as written
	raws := []string{"0", "5", "007", "1.0", "1.50", "true", "yes", "No", "1e3", "0x1F", "-3", "+5", "1_000", ".5", "12:30:45", "2020-01-01"}
	out = append(out, mc.Space{Name: "files/scalars", N: uint64(len(raws) * len(storeNames) * 2), Do: func(c *mc.C, i uint64) {
		v := raws[i%uint64(len(raws))]
		n := storeNames[i/uint64(len(raws))%7]
		form := int(i) / len(raws) / 7
		ls, w := file(1, 1, 3, 1, []sec{{name: n, params: [][2]string{{"db", "x"}}}}, true, 0)
		ls[4].store[0].params[0][1] = v
		w.store[n]["db"] = v
		ls[1].val, w.port = v, v
		judge(c, write(ls, form), w)
	}})
	// names that mean nothing to the receiver change nothing
	extras := []kv{{key: "comment", val: "\"x\""}, {key: "version", val: "2"}, {key: "Host", val: "\"other\""}, {key: "PORT", val: "\"1\""}, {key: "ttl", val: "77"}, {key: "conn_ttl_ms", val: "1"}, {key: "connttl", val: "78"}, {key: "loglevel", val: "\"ERROR\""}, {key: "log", val: "\"ERROR\""}, {key: "level", val: "\"WARN\""},
		{key: "listen", val: "\"1.2.3.4:5\""}, {key: "debug", val: "true"}, {key: "enabled", val: "false"}, {key: "store", isSec: true, store: []sec{{name: "redis", params: [][2]string{{"db", "\"9\""}}}}}, {key: "storages", isSec: true, store: []sec{{name: "nats", params: [][2]string{{"topic", "\"t\""}}}}}, {key: "api", isSec: true, store: []sec{{name: "host", params: [][2]string{{"port", "\"1\""}}}}}}
	out = append(out, mc.Space{Name: "files/other names", N: uint64(len(extras)*len(stores)*2) * 6, Do: func(c *mc.C, i uint64) {
		e := extras[i%uint64(len(extras))]
		i /= uint64(len(extras))
		st := stores[i%uint64(len(stores))]
		i /= uint64(len(stores))
		form := []int{0, 3}[i%2]
		at := int(i / 2)
		ls, w := file(1, 1, 3, 1, st, st != nil, 0)
		if at > len(ls) {
			at = len(ls)
		}
		ls = append(ls[:at:at], append([]kv{e}, ls[at:]...)...)
		judge(c, write(ls, form), w)
	}})
	// files of every size, whatever makes them large and wherever the settings stand
	sizes := []int{500, 1000, 2000, 4000, 4096, 5000, 8192, 10000, 16384, 32768, 40000, 65535, 65536, 70000, 131072, 300000, 1048576, 1200000}
	out = append(out, mc.Space{Name: "files/large", N: uint64(len(sizes)) * 6 * 3, Do: func(c *mc.C, i uint64) {
		size := sizes[i%uint64(len(sizes))]
		i /= uint64(len(sizes))
		st := stores[3]
		switch i / 6 {
		case 1:
			st = stores[2]
		case 2:
			st = stores[4]
		}
		ls, w := file(1, 1, 3, 1, st, true, 0)
		data := ""
		switch i % 6 {
		case 0: // comments before
			data = strings.Repeat("# comment\n", size/10) + write(ls, 0)
		case 1: // comments before the stores
			at := len(ls) - 1
			data = write(ls[:at], 0) + "# " + strings.Repeat("c", size) + "\n" + write(ls[at:], 0)
		case 2: // comments behind
			data = write(ls, 0) + strings.Repeat("\n# ...", size/6) + "\n"
		case 3: // a long value in front of others
			v := strings.Repeat("v0", size/2)
			n := ls[len(ls)-1].store[0].name
			ls[len(ls)-1].store[0].params = append([][2]string{{"long", dq(v)}}, ls[len(ls)-1].store[0].params...)
			w.store[n]["long"] = v
			data = write(ls, 0)
		case 4: // many settings
			n := ls[len(ls)-1].store[0].name
			var l [][2]string
			for k := 0; k < size/40; k++ {
				p, v := fmt.Sprintf("p%06d", k), fmt.Sprintf("value %d", k)
				l = append(l, [2]string{p, dq(v)})
				w.store[n][p] = v
			}
			ls[len(ls)-1].store[0].params = append(l, ls[len(ls)-1].store[0].params...)
			data = write(ls, 0)
		case 5: // many names that mean nothing
			for k := 0; k < size/30; k++ {
				data += fmt.Sprintf("name%06d: 'of nothing'\n", k)
			}
			data += write(ls, 0)
		}
		s, err := load(data)
		c.Op(1)
		c.Describe("file of %d bytes (%d)", len(data), i%6)
		if err != nil {
			c.Failf("a good file of %d bytes (%d) gives an error: %v", len(data), i%6, err)
			return
		}
		w.check(c, fmt.Sprintf("a file of %d bytes (%d)", len(data), i%6), s)
		c.Trace()
		c.StateS('g', fmt.Sprint(size, i))
		c.Outcome("large files")
	}})
	// stores without settings
	out = append(out, mc.Space{Name: "files/empty sections", N: 7 * 4, Do: func(c *mc.C, i uint64) {
		ls, w := file(1, 1, 3, 1, []sec{{name: storeNames[i%7], empty: []string{"", " {}", " ~", " null"}[i/7]}, {name: "last", params: [][2]string{{"a", "b"}}}}, true, 0)
		judge(c, write(ls, 0), w)
	}})
	out = append(out, mc.Space{Name: "files/malformed", N: uint64(len(malformed) * 3), Do: func(c *mc.C, i uint64) {
		data := malformed[i/3]
		switch i % 3 { // alone, after and before good lines
		case 1:
			data = "extra: 1\n" + data
		case 2:
			data += "\nextra: 1\n"
		}
		c.Describe("file %q", data)
		if i%3 != 0 && !clearly(data) {
			return
		}
		s, err := load(data)
		c.Op(1)
		if err == nil {
			c.Failf("the malformed file %q gives no error but %+v", data, s)
		}
		c.StateS('m', data)
		c.Outcome("malformed files are reported")
	}})
	out = append(out, mc.Space{Name: "files/unreadable", N: 5, Do: func(c *mc.C, i uint64) {
		f := filepath.Join(tmp(), "u.yaml")
		_ = os.WriteFile(f, []byte(sample), 0600)
		name := []string{filepath.Join(tmp(), "none.yaml"), tmp(), filepath.Join(f, "below"), "", filepath.Join(tmp(), strings.Repeat("x", 300))}[i]
		c.Describe("file name %q", name)
		s, err := config.New(name)
		c.Op(1)
		if err == nil {
			c.Failf("the unreadable file %q gives no error but %+v", name, s)
		}
		c.StateS('u', name)
		c.Outcome("unreadable files are reported")
	}})
	out = append(out, mc.Space{Name: "files/shipped", N: 1, Do: func(c *mc.C, i uint64) { shipped(c) }})
	// cut and damaged files: what is read of them is theirs
	sub := []byte("\x00\t\n\r \"'#%&*,-:>?@[]{}|`!\\a0\x80\xff")
	full, err := load(sample)
	out = append(out, mc.Space{Name: "files/damaged", N: uint64(len(sample) * (len(sub) + 2)), Do: func(c *mc.C, i uint64) {
		if err != nil {
			c.Failf("the file %q gives an error: %v", sample, err)
			return
		}
		at, how := int(i)%len(sample), int(i)/len(sample)
		var data string
		switch how {
		case 0:
			data = sample[:at]
		case 1:
			data = sample[:at] + sample[at+1:]
		default:
			data = sample[:at] + string(sub[how-2]) + sample[at+1:]
		}
		c.Describe("file %q", data)
		s, err := load(data)
		c.Op(1)
		if err == nil && how == 0 {
			for _, x := range [][2]string{{s.Host, full.Host}, {s.Port, full.Port}, {s.LogLevel, full.LogLevel}} {
				if !strings.HasPrefix(x[1], x[0]) {
					c.Failf("the file %q gives the setting %q", data, x[0])
				}
			}
			if s.ConnTTl != 0 && s.ConnTTl != 1 && s.ConnTTl != 10 {
				c.Failf("the file %q gives an idle limit of %d", data, s.ConnTTl)
			}
			for n, m := range s.Store {
				for k, v := range m {
					if !strings.HasPrefix(full.Store[n][k], v) {
						c.Failf("the file %q gives the setting %s.%s %q", data, n, k, v)
					}
				}
			}
		}
		_ = s.GetListenAddress()
		_ = s.GetLogLevel()
		_ = s.GetEmptyConnTTL()
		c.StateS('d', data)
		if err != nil {
			c.Outcome("damaged: reported")
		} else {
			c.Outcome("damaged: still readable")
		}
	}})
	sort.SliceStable(out, func(i, j int) bool { return out[i].N < out[j].N })
	return out
}

// clearly tells whether a malformed file stays malformed next to other lines.
func clearly(data string) bool {
	for _, x := range []string{"host: [a]", "host: {a: b}", "port: [6000]", "conn_ttl: ten", "conn_ttl: [1]", "storage: redis", "storage: [redis]", "host: ]", "host: *nowhere", "host: \"a\" b", "host: a: b", "db: [1]", "redis: text"} {
		if strings.Contains(data, x) {
			return true
		}
	}
	return false
}
