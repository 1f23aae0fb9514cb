package plug

import (
	"context"
	"errors"
	"fmt"
	"io"
	stdlog "log"
	"net"
	"strings"
	"time"

	rds "github.com/go-redis/redis/v8"
	my "github.com/go-sql-driver/mysql"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/mysql"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/nats"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/postgresql"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/rabbitmq"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/redis"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/tarantool_queue"
	log "github.com/sirupsen/logrus"
	"verifharness/mc"
)

// Checks by property.
var Checks = map[string]func() mc.Check{}

type nolog struct{}

func (nolog) Print(v ...interface{})                                      {}
func (nolog) Printf(ctx context.Context, format string, v ...interface{}) {}

// Quiet keeps the libraries from logging.
func Quiet() {
	log.SetOutput(io.Discard)
	stdlog.SetOutput(io.Discard)
	_ = my.SetLogger(nolog{})
	rds.SetLogger(nolog{})
}

// Def describes a store.
type Def struct {
	Name   string
	Proto  func(*Server, *Peer) error
	New    func() storage.Store
	Cfg    func(h, p string, l Login, dest string) map[string]string
	Acked  bool // the server answers messages
	Lazy   bool // connects with the first save
	Login  Login
	Dest   string
	DestOf func(dest string) map[string]string // settings of a destination
}

// Defs are the bundled stores.
var Defs = []*Def{
	{Name: "redis", Proto: redisProto, New: func() storage.Store { return &redis.Connector{} }, Acked: true, Lazy: true, Login: Login{"", "secret", "3"}, Dest: "egts",
		Cfg: func(h, p string, l Login, dest string) map[string]string {
			return map[string]string{"server": h + ":" + p, "queue": dest, "password": l.Pass, "db": l.DB}
		}},
	{Name: "postgresql", Proto: pgProto, New: func() storage.Store { return &postgresql.Connector{} }, Acked: true, Login: Login{"egts", "secret", "receiver"}, Dest: "points",
		Cfg: func(h, p string, l Login, dest string) map[string]string {
			return map[string]string{"host": h, "port": p, "user": l.User, "password": l.Pass, "database": l.DB, "table": dest, "sslmode": "disable"}
		}},
	{Name: "mysql", Proto: mysqlProto, New: func() storage.Store { return &mysql.Connector{} }, Acked: true, Login: Login{"egts", "secret", "receiver"}, Dest: "points",
		Cfg: func(h, p string, l Login, dest string) map[string]string {
			return map[string]string{"uri": l.User + ":" + l.Pass + "@tcp(" + h + ":" + p + ")/" + l.DB, "table": dest}
		}},
	{Name: "tarantool_queue", Proto: tarProto, New: func() storage.Store { return &tarantool_queue.Connector{} }, Acked: true, Login: Login{"egts", "secret", ""}, Dest: "points",
		Cfg: func(h, p string, l Login, dest string) map[string]string {
			return map[string]string{"host": h, "port": p, "user": l.User, "password": l.Pass, "queue": dest, "max_recons": "5", "timeout": "1", "reconnect": "0"}
		}},
	{Name: "nats", Proto: natsProto, New: func() storage.Store { return &nats.Connector{} }, Login: Login{"egts", "secret", ""}, Dest: "receiver",
		Cfg: func(h, p string, l Login, dest string) map[string]string {
			return map[string]string{"servers": "nats://" + h + ":" + p, "topic": dest, "user": l.User, "password": l.Pass}
		}},
	{Name: "rabbitmq", Proto: amqpProto, New: func() storage.Store { return &rabbitmq.Connector{} }, Login: Login{"egts", "secret", ""}, Dest: "receiver/points",
		Cfg: func(h, p string, l Login, dest string) map[string]string {
			x := strings.SplitN(dest, "/", 2)
			return map[string]string{"host": h, "port": p, "user": l.User, "password": l.Pass, "exchange": x[0], "key": x[1]}
		}},
}

// at is the destination as the server knows it.
func (d *Def) at(dest string) string {
	if d.Name == "postgresql" {
		return pgName(dest)
	}
	return dest
}

// raw is a message with a given serialised form.
type raw struct {
	b   []byte
	err error
}

func (r raw) ToBytes() ([]byte, error) { return r.b, r.err }

func rec(n int) *storage.NavRecord {
	return &storage.NavRecord{Client: uint32(n + 1), PacketID: uint32(n), NavigationTimestamp: 1700000000 + int64(n), Latitude: 55.5, Longitude: -37.25, Speed: uint16(n),
		AnSensors: []storage.AnSensor{{SensorNumber: 1, Value: uint32(n)}}}
}

// within runs f and tells whether it ended, crashed or returned an error.
func within(c *mc.C, what string, f func() error) (err error, ok bool) {
	type res struct {
		err error
		p   interface{}
	}
	ch := make(chan res, 1)
	go func() {
		var r res
		defer func() {
			r.p = recover()
			ch <- r
		}()
		r.err = f()
	}()
	select {
	case r := <-ch:
		if r.p != nil {
			c.Failf("%s crashes: %v", what, r.p)
			return nil, false
		}
		return r.err, true
	case <-time.After(60 * time.Second):
		c.Failf("%s does not end", what)
		return nil, false
	}
}

// start runs a server that wants the store's credentials.
func (d *Def) start() *Server {
	s := NewServer(d.Proto)
	s.mu.Lock()
	s.auth, s.want = true, d.Login
	s.mu.Unlock()
	return s
}

func (d *Def) config(s *Server) map[string]string {
	h, p := s.Addr()
	return d.Cfg(h, p, d.Login, d.Dest)
}

// count tells how often a body was accepted, and how often with a complete answer.
func count(ms []Msg, dest, body string) (n, whole int) {
	for _, m := range ms {
		if m.Dest == dest && m.Body == body {
			n++
			if m.Whole {
				whole++
			}
		}
	}
	return
}

// wait polls until f holds.
func wait(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for !f() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(200 * time.Microsecond)
	}
	return true
}

// sane checks that the server understood everything, and that clients used the configured credentials.
func sane(c *mc.C, d *Def, s *Server, want Login) {
	if b := s.Bad(); len(b) > 0 {
		c.Failf("%s: the server does not understand %s", d.Name, b[0])
	}
	for _, l := range s.Logins() {
		if l != want {
			c.Failf("%s: connected as %+v instead of %+v", d.Name, l, want)
		}
	}
}

// action of a sequence.
type action struct {
	name   string
	f      Fault
	always bool
	kill   bool // connections are closed before
	down   bool // the server is away during the save
	late   bool // if the store uses a transaction, its commit gets the fault
}

var ackedActions = []action{
	{name: "save"},
	{name: "save, refused", f: Reject},
	{name: "save, connection closed instead of accepting", f: DropBefore},
	{name: "save, connections always closed instead of accepting", f: DropBefore, always: true},
	{name: "save, connection closed instead of the answer", f: DropAfter},
	{name: "save, connections always closed instead of the answer", f: DropAfter, always: true},
	{name: "save, connection closed inside the answer", f: DropMid},
	{name: "save after the connections were closed", kill: true},
	{name: "save while the server is away", down: true},
}

// commitActions are for stores with transactions.
var commitActions = []action{
	{name: "save, commit refused", f: Reject, late: true},
	{name: "save, connection closed instead of the commit", f: DropBefore, late: true},
	{name: "save, connection closed instead of the answer to the commit", f: DropAfter, late: true},
}

var unackedActions = []action{
	{name: "save"},
	{name: "save, refused", f: Reject},
	{name: "save, connection closed before", f: DropBefore},
	{name: "save, connection closed after", f: DropAfter},
	{name: "save after the connections were closed", kill: true},
	{name: "save while the server is away", down: true},
}

// sequence runs a sequence of actions.
func sequence(c *mc.C, d *Def, as []action) {
	var names []string
	for _, a := range as {
		names = append(names, a.name)
	}
	c.Describe("%s: %s", d.Name, strings.Join(names, "; "))
	s := d.start()
	st := d.New()
	defer func() {
		within(c, d.Name+": Close", st.Close)
		s.Stop()
	}()
	if err, ok := within(c, d.Name+": Init", func() error { return st.Init(d.config(s)) }); !ok {
		return
	} else if err != nil {
		c.Failf("%s: Init with a healthy server: %v", d.Name, err)
		return
	}
	disturbed := false // a connection was broken
	down := false
	bodies := map[string]bool{}
	var promised []string // unacknowledged stores: saves that returned success when the connection was known to be alive or gone
	for k, a := range as {
		if down && !a.down {
			s.Up()
			down = false
		}
		if a.kill {
			s.Kill()
		}
		if a.down && !down {
			s.Down()
			down = true
		}
		if (a.kill || a.down) && !d.Acked {
			time.Sleep(150 * time.Millisecond) // it learns of it
		}
		disturbed = disturbed || a.kill || a.down
		s.Late(a.late)
		s.Set(a.f, a.always)
		m := rec(k)
		b, _ := m.ToBytes()
		bodies[string(b)] = true
		what := fmt.Sprintf("%s: save %d of %q", d.Name, k, names)
		before := s.tried()
		err, ok := within(c, what, func() error { return st.Save(m) })
		if !ok {
			return
		}
		c.Op(1)
		if d.Acked {
			s.Set(OK, false)
			got := s.Got()
			n, whole := count(got, d.Dest, string(b))
			drop := a.f == DropBefore || a.f == DropAfter || a.f == DropMid
			switch {
			case err == nil && whole == 0:
				c.Failf("%s returned success, but the server did not confirm the record (accepted %v)", what, got)
			case err == nil && n > 1 && !drop && !a.kill && !a.down:
				c.Failf("%s: the record was sent %d times", what, n)
			case a.f == Reject && err == nil:
				c.Failf("%s returned success, but the server refused the record", what)
			case err != nil && !disturbed && a.f == OK:
				c.Failf("%s failed with a healthy server: %v", what, err)
			}
			if c.Failed() {
				return
			}
			disturbed = disturbed || drop
		} else {
			if err == nil && !a.down { // let the server see it
				wait(300*time.Millisecond, func() bool { return s.tried() > before })
			}
			s.Set(OK, false)
			switch {
			case err != nil && !disturbed && a.f == OK:
				c.Failf("%s failed with a healthy server: %v", what, err)
				return
			case err == nil && a.f == OK:
				promised = append(promised, string(b))
			}
			if a.f != OK {
				disturbed = true
				time.Sleep(150 * time.Millisecond) // it learns of it
			}
		}
	}
	if down {
		s.Up()
	}
	if !d.Acked {
		if !wait(12*time.Second, func() bool {
			got := s.Got()
			for _, b := range promised {
				if n, _ := count(got, d.Dest, b); n == 0 {
					return false
				}
			}
			return true
		}) {
			c.Failf("%s: %q: a save returned success, but its record was not sent (accepted %v)", d.Name, names, s.Got())
			return
		}
		for _, b := range promised {
			if n, _ := count(s.Got(), d.Dest, b); n != 1 {
				c.Failf("%s: %q: a record was sent %d times", d.Name, names, n)
			}
		}
	}
	for _, m := range s.Got() {
		if m.Dest != d.Dest || !bodies[m.Body] {
			c.Failf("%s: %q: the server got %q in %q, which was not saved", d.Name, names, m.Body, m.Dest)
		}
	}
	sane(c, d, s, d.Login)
	c.Trace()
	c.StateS('s', fmt.Sprint(d.Name, names))
	c.Outcome("delivered or reported")
}

func (s *Server) tried() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.tries
}

// healthy runs f with a connected store.
func healthy(c *mc.C, d *Def, f func(s *Server, st storage.Store)) {
	s := d.start()
	st := d.New()
	defer func() {
		within(c, d.Name+": Close", st.Close)
		s.Stop()
	}()
	if err, ok := within(c, d.Name+": Init", func() error { return st.Init(d.config(s)) }); !ok {
		return
	} else if err != nil {
		c.Failf("%s: Init with a healthy server: %v", d.Name, err)
		return
	}
	f(s, st)
	sane(c, d, s, d.Login)
}

// arrived waits for unacknowledged messages.
func arrived(d *Def, s *Server, n int) {
	if !d.Acked {
		wait(10*time.Second, func() bool { return len(s.Got()) >= n })
		time.Sleep(2 * time.Millisecond)
	}
}

func payloads() [][]byte {
	var out [][]byte
	for k := 0; k < 256; k++ {
		out = append(out, []byte(fmt.Sprintf("{\"a\":\"%s\",\"n\":%d}", string([]byte{byte(k)}), k)))
	}
	for _, n := range []int{1, 2, 3, 100, 249, 250, 251, 252, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 65534, 65535, 65536, 65537, 131071, 131072, 131073, 262144, 1000000} {
		b := make([]byte, n)
		for k := range b {
			b[k] = "0123456789abcdef"[(k*7+k/251)%16]
		}
		out = append(out, b)
	}
	for _, x := range []string{"%s %d %v %%", "$1 $2", "? ??", "';DROP TABLE points;--", "\r\n+OK\r\n", "*1\r\n$4\r\nPING\r\n", "{{.}}", "\\n\\x00\\u0000", "пример", "null", "[]", "\"", "''", "``"} {
		out = append(out, []byte(x))
	}
	for k := 0; k < 8; k++ {
		r := rec(k)
		if k%2 == 1 {
			r.AnSensors = nil
		}
		for j := 0; j < 40*k; j++ {
			r.LiquidSensors = append(r.LiquidSensors, storage.LiquidSensor{SensorNumber: uint8(j), ErrorFlag: "1", ValueMm: uint32(j)})
		}
		b, _ := r.ToBytes()
		out = append(out, b)
	}
	return out
}

func init() {
	Checks["C17"] = func() mc.Check {
		return mc.Check{Assume: []string{"the fake servers speak the protocols as the real ones do (checked by the client libraries, which are taken as right)"},
			Bound:  "the real plugins and client libraries against servers on the loopback interface: every sequence of up to 2 saves (3 for PostgreSQL, MySQL and Redis without lasting faults; thorough: 3, 4 for PostgreSQL and MySQL) over {healthy, refused, connection closed before, after and inside the answer, once or for every attempt, closed while idle, server away; for PostgreSQL and MySQL also at the commit if a transaction is used}; bodies with every byte value and sizes around the protocols' limits; two saves at once answered in either order; wrong and missing credentials, special characters in every setting, every missing setting, servers that close at every step of the handshake",
			Spaces: spaces}
	}
}

func spaces(tier string) []mc.Space {
	th := tier == "thorough"
	var out []mc.Space
	for k, d := range Defs {
		d := d
		out = append(out, raceSpace(d, k))
		acts := unackedActions
		if d.Acked {
			acts = ackedActions
		}
		depth := 2
		if d.Name == "postgresql" || d.Name == "mysql" {
			depth = 3
			acts = append(append([]action{}, acts...), commitActions...)
		}
		if th {
			depth++
		}
		for n := 1; n <= depth; n++ {
			n := n
			num := uint64(1)
			for k := 0; k < n; k++ {
				num *= uint64(len(acts))
			}
			out = append(out, mc.Space{Name: fmt.Sprintf("sequences/%s/%d", d.Name, n), N: num, Do: func(c *mc.C, i uint64) {
				var as []action
				for k := 0; k < n; k++ {
					as = append(as, acts[i%uint64(len(acts))])
					i /= uint64(len(acts))
				}
				sequence(c, d, as)
			}})
		}
		if d.Name == "redis" && !th { // deeper, without the faults that make its library wait
			few := []action{acts[0], acts[1], acts[4], acts[7]}
			out = append(out, mc.Space{Name: "sequences/redis/3", N: 64, Do: func(c *mc.C, i uint64) {
				sequence(c, d, []action{few[i%4], few[i/4%4], few[i/16]})
			}})
		}
		ps := payloads()
		const per = 16
		out = append(out, mc.Space{Name: "bodies/" + d.Name, N: uint64((len(ps) + per - 1) / per), Do: func(c *mc.C, i uint64) {
			c.Describe("%s: bodies %d to %d", d.Name, i*per, (i+1)*per)
			healthy(c, d, func(s *Server, st storage.Store) {
				n := 0
				for k := int(i) * per; k < int(i+1)*per && k < len(ps); k++ {
					own := append([]byte{}, ps[k]...)
					err, ok := within(c, d.Name+": Save", func() error { return st.Save(raw{b: own}) })
					if !ok {
						return
					}
					n++
					c.Op(1)
					if err != nil {
						c.Failf("%s: saving %.200q: %v", d.Name, ps[k], err)
						return
					}
					arrived(d, s, n)
					got := s.Got()
					if len(got) != n || got[n-1].Body != string(ps[k]) || got[n-1].Dest != d.Dest {
						c.Failf("%s: saving %.200q (%d bytes): the server has %d messages instead of %d, the last of them %.200q", d.Name, ps[k], len(ps[k]), len(got), n, fmt.Sprint(got[max(0, len(got)-1):]))
						return
					}
					if string(own) != string(ps[k]) {
						c.Failf("%s: saving %.200q changes the record", d.Name, ps[k])
					}
				}
				c.StateS('b', fmt.Sprint(d.Name, i))
				c.Outcome("delivered unchanged")
			})
		}})
		// nothing to save, and what cannot be serialised, at every position of three saves
		out = append(out, mc.Space{Name: "nothing/" + d.Name, N: 27, Do: func(c *mc.C, i uint64) {
			c.Describe("%s: saves %d%d%d (0 record, 1 nothing, 2 not serialisable)", d.Name, i%3, i/3%3, i/9)
			healthy(c, d, func(s *Server, st storage.Store) {
				n := 0
				for k := 0; k < 3; k++ {
					var m interface{ ToBytes() ([]byte, error) }
					kind := i % 3
					i /= 3
					switch kind {
					case 0:
						m = rec(k)
						n++
					case 2:
						m = raw{b: []byte("half"), err: errors.New("not serialisable")}
					}
					err, ok := within(c, d.Name+": Save", func() error { return st.Save(m) })
					if !ok {
						return
					}
					c.Op(1)
					if (err == nil) != (kind == 0) {
						c.Failf("%s: save %d of kind %d returned %v", d.Name, k, kind, err)
						return
					}
				}
				arrived(d, s, n)
				if got := s.Got(); len(got) != n {
					c.Failf("%s: the server got %v instead of %d records", d.Name, got, n)
				}
				c.StateS('n', fmt.Sprint(d.Name, i))
				c.Outcome("only records are sent")
			})
		}})
		{ // two saves at once
			n := 2 * 9
			if !d.Acked {
				n = 2
			}
			out = append(out, mc.Space{Name: "two/" + d.Name, N: uint64(n), Do: func(c *mc.C, i uint64) {
				first := i%2 == 0
				fa, fb := []Fault{OK, Reject, DropBefore}[i/2%3], []Fault{OK, Reject, DropBefore}[i/6]
				c.Describe("%s: two saves at once, the first answered first: %v; %s and %s", d.Name, first, faultNames[fa], faultNames[fb])
				healthy(c, d, func(s *Server, st storage.Store) {
					if i%2 == 1 { // there may be one connection already
						within(c, d.Name+": Save", func() error { return st.Save(rec(50)) })
					}
					s.Pair(fa, fb, first)
					errs := make(chan error, 2)
					var es [2]error
					go func() {
						err, _ := within(c, d.Name+": Save", func() error { return st.Save(rec(0)) })
						es[0] = err
						errs <- err
					}()
					go func() {
						err, _ := within(c, d.Name+": Save", func() error { return st.Save(rec(1)) })
						es[1] = err
						errs <- err
					}()
					<-errs
					<-errs
					arrived(d, s, int(2+i%2))
					c.Op(2)
					drop := fa == DropBefore || fb == DropBefore
					bad := 0
					for k := range es {
						b, _ := rec(k).ToBytes()
						n, whole := count(s.Got(), d.Dest, string(b))
						if d.Acked && es[k] == nil && whole == 0 {
							c.Failf("%s: save %d of two at once returned success, but the server did not confirm the record", d.Name, k)
						}
						if es[k] == nil && n != 1 && !drop {
							c.Failf("%s: save %d of two at once was sent %d times", d.Name, k, n)
						}
						if es[k] != nil {
							bad++
						}
					}
					rej := 0
					if fa == Reject {
						rej++
					}
					if fb == Reject {
						rej++
					}
					if !drop && bad != rej {
						c.Failf("%s: %d of two saves at once failed, %d were refused: %v", d.Name, bad, rej, es)
					}
					c.StateS('2', fmt.Sprint(d.Name, first, fa, fb))
					c.Outcome("two at once")
				})
			}})
		}
		if d.Acked {
			out = append(out, refused(d))
		}
		out = append(out, many(d, th))
		out = append(out, initSpaces(d, th)...)
	}
	return out
}

var special = []string{"plain", "two words", " lead", "trail ", "quo'te", "''", `dou"ble`, `back\slash`, `end\`, "at@sign", "co:lon", "sl/ash", "qu?st", "ha#sh", "per%41cent", "%", "eq=ual", "a&b+c", "плюс", "[x]", "sslmode=require", "tab\there"}

// every printable sign alone, between letters and at both ends; and texts of various lengths
func init() {
	have := map[string]bool{}
	for _, x := range special {
		have[x] = true
	}
	for k := 0x20; k < 0x7F; k++ {
		if q := string(rune(k)); k < '0' || k > '9' && k < 'A' || k > 'Z' && k < 'a' || k > 'z' {
			for _, x := range []string{q, "a" + q + "b", q + "b", "a" + q, q + q} {
				if !have[x] {
					special = append(special, x)
				}
			}
		}
	}
	for _, n := range []int{1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200} {
		special = append(special, strings.Repeat("0123456789abcdef", 16)[16-n%16:][:n])
	}
}

// initSpaces: configurations.
func initSpaces(d *Def, th bool) []mc.Space {
	var out []mc.Space
	// settings with special characters reach the server as they are
	type cas struct {
		what string
		l    Login
		dest string
	}
	var cases []cas
	for _, x := range special {
		if d.Name != "mysql" { // its user writes the DSN
			cases = append(cases, cas{"password", Login{d.Login.User, x, d.Login.DB}, d.Dest})
			if d.Name != "redis" {
				cases = append(cases, cas{"user", Login{x, d.Login.Pass, d.Login.DB}, d.Dest})
			}
		}
		switch d.Name {
		case "postgresql":
			cases = append(cases, cas{"database", Login{d.Login.User, d.Login.Pass, x}, d.Dest})
		case "redis", "tarantool_queue":
			cases = append(cases, cas{"queue", d.Login, x})
		case "rabbitmq":
			if !strings.Contains(x, "/") {
				cases = append(cases, cas{"exchange", d.Login, x + "/k"})
			}
			cases = append(cases, cas{"key", d.Login, "ex/" + x})
		}
	}
	for _, x := range []string{"p", "receiver.points", "Points2", "a_b"} {
		dest := x
		if d.Name == "rabbitmq" {
			dest = x + "/" + x
		}
		cases = append(cases, cas{"destination", d.Login, dest})
	}
	switch d.Name {
	case "redis":
		for _, x := range []string{"0", "1", "2", "9", "15"} {
			cases = append(cases, cas{"db", Login{"", "secret", x}, d.Dest})
		}
	case "mysql":
		for _, x := range []string{"p@s", "p:s", "p s", "p'", "пароль"} {
			cases = append(cases, cas{"uri", Login{"egts", x, "receiver"}, d.Dest})
		}
		cases = append(cases, cas{"uri", Login{"egts", "", "receiver"}, d.Dest}, cas{"uri", Login{"u-2", "x", "db2"}, d.Dest})
		for _, x := range []string{" u", "u ", "\tu", "u:", "U", "й"} {
			if !strings.Contains(x, ":") {
				cases = append(cases, cas{"uri", Login{x, "x", "receiver"}, d.Dest})
			}
			cases = append(cases, cas{"uri", Login{"u", x, "receiver"}, d.Dest}, cas{"uri", Login{"u", "x", x}, d.Dest})
		}
	}
	if d.Name == "postgresql" || d.Name == "tarantool_queue" || d.Name == "rabbitmq" || d.Name == "nats" || d.Name == "redis" {
		cases = append(cases, cas{"empty password", Login{d.Login.User, "", d.Login.DB}, d.Dest})
	}
	out = append(out, mc.Space{Name: "settings/" + d.Name, N: uint64(len(cases)), Do: func(c *mc.C, i uint64) {
		x := cases[i]
		c.Describe("%s: %s: %+v %q", d.Name, x.what, x.l, x.dest)
		s := d.start()
		s.mu.Lock()
		s.want = x.l
		if x.l.Pass == "" && d.Name == "redis" {
			s.auth = false
		}
		s.mu.Unlock()
		st := d.New()
		h, p := s.Addr()
		defer s.Stop()
		cfg := d.Cfg(h, p, x.l, x.dest)
		keep := fmt.Sprint(cfg)
		if err, ok := within(c, d.Name+": Init", func() error { return st.Init(cfg) }); !ok {
			return
		} else if err != nil {
			c.Failf("%s: Init with %s %+v %q: %v; the server saw %+v", d.Name, x.what, x.l, x.dest, err, s.Logins())
			return
		}
		defer within(c, d.Name+": Close", st.Close)
		m := rec(1)
		b, _ := m.ToBytes()
		if err, ok := within(c, d.Name+": Save", func() error { return st.Save(m) }); !ok {
			return
		} else if err != nil {
			c.Failf("%s: Save with %s %+v %q: %v; the server saw %+v", d.Name, x.what, x.l, x.dest, err, s.Bad())
			return
		}
		c.Op(2)
		arrived(d, s, 1)
		if got := s.Got(); len(got) != 1 || got[0].Dest != d.at(x.dest) || got[0].Body != string(b) {
			c.Failf("%s: with %s %+v %q the server got %v", d.Name, x.what, x.l, x.dest, got)
		}
		sane(c, d, s, x.l)
		if fmt.Sprint(cfg) != keep {
			c.Failf("%s: Init changes its configuration", d.Name)
		}
		c.StateS('c', fmt.Sprint(d.Name, x))
		c.Outcome("settings used as they are")
	}})
	// missing settings
	h0 := d.Cfg("127.0.0.1", "1", d.Login, d.Dest)
	var keys []string
	for _, k := range []string{"server", "queue", "password", "db", "host", "port", "user", "database", "table", "sslmode", "uri", "max_recons", "timeout", "reconnect", "servers", "topic", "exchange", "key"} {
		if _, ok := h0[k]; ok {
			keys = append(keys, k)
		}
	}
	out = append(out, mc.Space{Name: "missing/" + d.Name, N: uint64(3 << len(keys)), Do: func(c *mc.C, i uint64) {
		how := i % 3 // 0 missing, 1 empty, 2 not usable
		mask := i / 3
		s := d.start()
		defer s.Stop()
		cfg := d.config(s)
		var gone []string
		for k, n := range keys {
			if mask>>k&1 == 0 {
				continue
			}
			gone = append(gone, n)
			switch how {
			case 0:
				delete(cfg, n)
			case 1:
				cfg[n] = ""
			case 2:
				cfg[n] = "\x01 no such thing"
			}
		}
		c.Describe("%s: settings %v %s", d.Name, gone, []string{"missing", "empty", "unusable"}[how])
		st := d.New()
		err, ok := within(c, fmt.Sprintf("%s: Init with settings %v %s", d.Name, gone, []string{"missing", "empty", "unusable"}[how]), func() error { return st.Init(cfg) })
		if !ok {
			return
		}
		c.Op(1)
		has := func(k string) bool {
			for _, g := range gone {
				if g == k {
					return true
				}
			}
			return false
		}
		// what must be reported by Init, and what has a default
		switch {
		case len(gone) == 0 && err != nil:
			c.Failf("%s: Init with everything set: %v", d.Name, err)
		case err == nil && d.Name == "redis" && how == 0 && (has("server") || has("queue")):
			c.Failf("redis: Init without %v reports nothing", gone)
		case err == nil && d.Name == "redis" && how > 0 && has("db"):
			c.Failf("redis: Init with an unusable database number reports nothing")
		case err != nil && d.Name == "redis" && how == 0 && !has("server") && !has("queue"):
			c.Failf("redis: Init without %v: %v", gone, err)
		case err == nil && d.Name == "tarantool_queue" && (has("max_recons") || has("timeout") || has("reconnect")):
			c.Failf("tarantool_queue: Init without %v reports nothing", gone)
		case err == nil && !d.Lazy && (has("user") || has("password")) && d.Login.User != "":
			c.Failf("%s: Init with the wrong credentials (%v) reports nothing", d.Name, gone)
		case err == nil && !d.Lazy && how == 2 && (has("host") || has("port") || has("servers") || has("uri")):
			c.Failf("%s: Init with an unusable address (%v) reports nothing", d.Name, gone)
		}
		if c.Failed() {
			return
		}
		if err == nil {
			m := rec(1)
			b, _ := m.ToBytes()
			err, ok := within(c, fmt.Sprintf("%s: Save with settings %v missing or unusable", d.Name, gone), func() error { return st.Save(m) })
			if !ok {
				return
			}
			if err == nil && d.Acked {
				found := 0
				for _, g := range s.Got() {
					if g.Body == string(b) {
						found++
					}
				}
				if found != 1 {
					c.Failf("%s: Save with settings %v missing or unusable returned success, but the server got %v", d.Name, gone, s.Got())
				}
			}
			if d.Name == "redis" && how == 0 && len(gone) == 1 && gone[0] == "db" {
				if err != nil || len(s.Logins()) != 1 || s.Logins()[0].DB != "0" {
					c.Failf("redis: without db, Save returned %v and used %+v", err, s.Logins())
				}
			}
			within(c, d.Name+": Close", st.Close)
		}
		c.StateS('k', fmt.Sprint(d.Name, how, mask))
		c.Outcome("settings missing or unusable")
	}})
	// no configuration, server away, closing at every step of the handshake
	out = append(out, mc.Space{Name: "handshake/" + d.Name, N: 14, Do: func(c *mc.C, i uint64) {
		s := d.start()
		defer s.Stop()
		cfg := d.config(s)
		what := fmt.Sprintf("a server that closes at step %d of the handshake", i-1)
		switch i {
		case 0:
			cfg, what = nil, "no configuration"
		case 1:
			l, _ := net.Listen("tcp", IP()+":0")
			h, p, _ := net.SplitHostPort(l.Addr().String())
			_ = l.Close()
			cfg, what = d.Cfg(h, p, d.Login, d.Dest), "no server"
		default:
			s.mu.Lock()
			s.dieAt = int(i) - 1
			s.mu.Unlock()
		}
		c.Describe("%s: %s", d.Name, what)
		st := d.New()
		err, ok := within(c, d.Name+": Init with "+what, func() error { return st.Init(cfg) })
		if !ok {
			return
		}
		c.Op(1)
		if err == nil && (i == 0 || i <= 2 && !d.Lazy) {
			c.Failf("%s: Init with %s reports nothing", d.Name, what)
			return
		}
		if err == nil {
			m := rec(1)
			b, _ := m.ToBytes()
			err, ok := within(c, d.Name+": Save with "+what, func() error { return st.Save(m) })
			if !ok {
				return
			}
			if err == nil {
				arrived(d, s, 1)
				if n, _ := count(s.Got(), d.Dest, string(b)); n != 1 {
					c.Failf("%s: Save with %s returned success, but the record arrived %d times", d.Name, what, n)
				}
				c.Outcome("works all the same")
			} else {
				c.Outcome("reported by Save")
			}
			within(c, d.Name+": Close", st.Close)
		} else {
			c.Outcome("reported by Init")
		}
		c.StateS('h', fmt.Sprint(d.Name, i))
	}})
	return out
}
