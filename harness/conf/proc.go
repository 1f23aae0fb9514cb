package conf

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"verifharness/gen"
	"verifharness/mc"
	"verifharness/plug"
	"verifharness/ref"
)

// buf collects the output of a process.
type buf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *buf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}

func (b *buf) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.String()
}

// receiver is a running receiver.
type receiver struct {
	cmd  *exec.Cmd
	out  *buf
	done chan struct{}
}

func start(args ...string) *receiver {
	r := &receiver{cmd: exec.Command(filepath.Join(os.Getenv("VERIF_SCRATCH"), "receiver"), args...), out: &buf{}, done: make(chan struct{})}
	r.cmd.Stdout, r.cmd.Stderr = r.out, r.out
	r.cmd.Env = []string{"HOME=/nonexistent", "PATH=/nonexistent"}
	r.cmd.Dir = tmp()
	if err := r.cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	go func() {
		_ = r.cmd.Wait()
		close(r.done)
	}()
	return r
}

func (r *receiver) stop() {
	_ = r.cmd.Process.Kill()
	<-r.done
}

func (r *receiver) ended(d time.Duration) bool {
	select {
	case <-r.done:
		return true
	case <-time.After(d):
		return false
	}
}

// dial connects as soon as the receiver listens.
func (r *receiver) dial(addr string) (net.Conn, error) {
	end := time.Now().Add(30 * time.Second)
	for {
		c, err := net.DialTimeout("tcp", addr, time.Second)
		if err == nil {
			return c, nil
		}
		if r.ended(3 * time.Millisecond) {
			return nil, fmt.Errorf("the receiver ended: %.600s", r.out.String())
		}
		if time.Now().After(end) {
			return nil, fmt.Errorf("nobody listens: %v; %.600s", err, r.out.String())
		}
	}
}

var addrN int

// fresh is a loopback address nobody uses.
func fresh() (string, string) {
	pid := os.Getpid()
	addrN++
	return fmt.Sprintf("127.%d.%d.%d", 20+pid%200, 1+pid/200%250, 1+addrN%250), fmt.Sprint(6000 + addrN/250%1000)
}

// config writes a configuration file and gives its name.
func confFile(host, port, ttl, level string, storage map[string]map[string]string, has bool) string {
	var st []sec
	for n, m := range storage {
		s := sec{name: dq(n)}
		for k, v := range m {
			s.params = append(s.params, [2]string{k, dq(v)})
		}
		st = append(st, s)
	}
	ls := []kv{{key: "host", val: dq(host)}, {key: "port", val: dq(port)}, {key: "conn_ttl", val: ttl}}
	if level != none {
		ls = append(ls, kv{key: "log_level", val: dq(level)})
	}
	if has {
		ls = append(ls, kv{key: "storage", isSec: true, store: st})
	}
	f := filepath.Join(tmp(), "r.yaml")
	if err := os.WriteFile(f, []byte(write(ls, 0)), 0600); err != nil {
		panic("harness: " + err.Error())
	}
	return f
}

// packet has two records with positions of the clients a and b.
func packet(pid uint16, a, b uint32) []byte {
	pos := func(k byte) egts.BinaryData {
		return gen.Sec(16, 0, int(k))
	}
	ra, rb := gen.RecF(1, 1, a, 0, 0, 2, 2), gen.RecF(1, 2, b, 0, 0, 2, 2)
	ra.RecordDataSet = egts.RecordDataSet{{SubrecordType: 16, SubrecordData: pos(1)}}
	rb.RecordDataSet = egts.RecordDataSet{{SubrecordType: 16, SubrecordData: pos(2)}}
	p := gen.Pack(ra, rb)
	p.PacketIdentifier = pid
	out, ok := ref.EncodePackage(p, nil)
	if !ok {
		panic("harness: packet")
	}
	return out
}

// exchange sends a packet and reads the reply.
func exchange(c net.Conn, p []byte) ([]byte, error) {
	_ = c.SetDeadline(time.Now().Add(30 * time.Second))
	if _, err := c.Write(p); err != nil {
		return nil, err
	}
	h := make([]byte, 10)
	if _, err := io.ReadFull(c, h); err != nil {
		return nil, err
	}
	n := int(h[3]) + int(h[5]) + int(h[6])<<8 + 2
	b := make([]byte, n-10)
	if _, err := io.ReadFull(c, b); err != nil {
		return nil, err
	}
	return append(h, b...), nil
}

func number(s, n string) bool {
	return regexp.MustCompile(`(^|[^0-9])` + n + `([^0-9]|$)`).MatchString(s)
}

// process checks a receiver with a configuration of stores.
func process(c *mc.C, st [6]int, unk string, hasUnk bool, level string) {
	what := fmt.Sprintf("receiver with stores %s, log level %q", describe(st, unk, hasUnk), level)
	c.Describe("%s", what)
	s := prepare(st, unk, hasUnk)
	defer s.stop()
	host, port := fresh()
	r := start("-c", confFile(host, port, "60", level, s.cfg, len(s.cfg) > 0 || len(unk)%2 == 1))
	defer r.stop()
	conn, err := r.dial(host + ":" + port)
	if err != nil {
		c.Failf("%s: %v", what, err)
		return
	}
	defer conn.Close()
	a, b := uint32(987654321), uint32(123456789)
	ans, err := exchange(conn, packet(77, a, b))
	c.Op(1)
	if err != nil {
		c.Failf("%s: no reply: %v; %.800s", what, err, r.out.String())
		return
	}
	pk := ref.DecodePackage(ans, nil)
	if !pk.OK() {
		c.Failf("%s: the reply %x is not decodable", what, ans)
		return
	}
	usable := 0
	for k, d := range plug.Defs {
		if s.srv[k] == nil {
			continue
		}
		want := 0
		if st[k] == good {
			usable++
			want = 2
			d.Arrived(s.srv[k], 2)
		}
		got := s.srv[k].Got()
		if len(got) != want || want == 2 && (!number(got[0].Body, fmt.Sprint(a)) || !number(got[1].Body, fmt.Sprint(b)) || got[0].Dest != d.Dest || got[1].Dest != d.Dest) {
			c.Failf("%s: %s got %v", what, d.Name, got)
		}
		if st[k] == absent && len(s.srv[k].Logins()) > 0 {
			c.Failf("%s: %s was connected", what, d.Name)
		}
	}
	if usable == 0 {
		end := time.Now().Add(5 * time.Second)
		for {
			o := r.out.String()
			if number(o, fmt.Sprint(a)) && number(o, fmt.Sprint(b)) {
				break
			}
			if time.Now().After(end) {
				c.Failf("%s: the records were confirmed, but are not in the log: %.3000q", what, o)
				return
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	if r.ended(0) {
		c.Failf("%s: the receiver ended: %.800s", what, r.out.String())
	}
	c.Trace()
	c.StateS('p', what)
	c.Outcome("receiver stores or logs")
}

// levels of the log lines of an output.
func lines(out string) map[string]int {
	m := map[string]int{}
	sc := bufio.NewScanner(strings.NewReader(out))
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		if x := regexp.MustCompile(`level=([a-z]+)`).FindStringSubmatch(sc.Text()); x != nil {
			m[x[1]]++
		}
	}
	return m
}

var levelOrder = []string{"debug", "info", "warning", "error"}

func procSpaces(th bool) []mc.Space {
	var out []mc.Space
	// stores
	var ls [][6]int
	for i := uint64(0); i < 4096; i++ {
		s := states(i, 4)
		n := 0
		for k := range s {
			if s[k] != absent {
				n++
			}
		}
		if th || nobad2(s) || n <= 2 || n == 6 && allBut(s) {
			ls = append(ls, s)
		}
	}
	out = append(out, mc.Space{Name: "receiver/stores", N: uint64(2 * len(ls)), Do: func(c *mc.C, i uint64) {
		process(c, ls[i%uint64(len(ls))], unknown[i%uint64(len(unknown))], i >= uint64(len(ls)), "INFO")
	}})
	// what is logged without a usable store, at every level
	out = append(out, mc.Space{Name: "receiver/levels and no store", N: uint64(len(levels) * 5), Do: func(c *mc.C, i uint64) {
		var s [6]int
		hasUnk := false
		switch i / uint64(len(levels)) {
		case 1:
			s[1] = bad1
		case 2:
			hasUnk = true
		case 3:
			s[0], s[2] = bad2, bad1
		case 4:
			process(c, s, "x", false, levels[i%uint64(len(levels))])
			return
		}
		process(c, s, "", hasUnk, levels[i%uint64(len(levels))])
	}})
	// log levels: nothing below the level is logged, what is at it or above is
	out = append(out, mc.Space{Name: "receiver/levels", N: uint64(len(levels)), Do: func(c *mc.C, i uint64) {
		lv := levels[i]
		what := fmt.Sprintf("receiver with log level %q", lv)
		c.Describe("%s", what)
		min := map[string]int{"DEBUG": 0, "WARN": 2, "ERROR": 3}
		m, ok := min[lv]
		if !ok {
			m = 1
		}
		var st [6]int
		st[0] = good
		s := prepare(st, "", false)
		defer s.stop()
		host, port := fresh()
		r := start("-c", confFile(host, port, "60", lv, s.cfg, true))
		defer r.stop()
		conn, err := r.dial(host + ":" + port)
		if err != nil {
			c.Failf("%s: %v", what, err)
			return
		}
		if _, err := exchange(conn, packet(1, 5, 6)); err != nil {
			c.Failf("%s: %v", what, err)
		}
		_ = conn.Close()
		s.srv[0].Down() // what cannot be saved is an error
		if conn, err = r.dial(host + ":" + port); err == nil {
			_, _ = exchange(conn, packet(2, 5, 6))
			_ = conn.Close()
		}
		c.Op(2)
		time.Sleep(20 * time.Millisecond)
		got := lines(r.out.String())
		for k, n := range levelOrder {
			if k < m && got[n] > 0 {
				c.Failf("%s: %d lines of level %s: %.600s", what, got[n], n, r.out.String())
			}
		}
		if m <= 1 && got["info"] == 0 || m == 0 && got["debug"] == 0 || got["error"] == 0 {
			c.Failf("%s: lines %v: %.600s", what, got, r.out.String())
		}
		c.StateS('v', what)
		c.Outcome("log level")
	}})
	// listening addresses
	out = append(out, mc.Space{Name: "receiver/address", N: 24, Do: func(c *mc.C, i uint64) {
		host, port := fresh()
		dial := host
		switch i % 4 {
		case 1:
			host, dial = "0.0.0.0", "127.0.0.1"
		case 2:
			host, dial = "localhost", "127.0.0.1"
		case 3:
			host, dial = "", "127.0.0.1"
		}
		for try := 0; ; try++ {
			if host != dial {
				l, err := net.Listen("tcp", ":0")
				if err != nil {
					c.Failf("harness: %v", err)
					return
				}
				_, port, _ = net.SplitHostPort(l.Addr().String())
				_ = l.Close()
			}
			what := fmt.Sprintf("receiver at %q:%s", host, port)
			c.Describe("%s", what)
			r := start("-c", confFile(host, port, "60", "INFO", nil, false))
			conn, err := r.dial(dial + ":" + port)
			if err != nil {
				r.stop()
				if host != dial && try < 5 && strings.Contains(r.out.String(), "address already in use") {
					continue
				}
				c.Failf("%s: %v", what, err)
				return
			}
			_, err = exchange(conn, packet(1, 5, 6))
			if err != nil {
				c.Failf("%s: %v", what, err)
			}
			_ = conn.Close()
			c.Op(1)
			if host == dial { // no other address of this range is used by anyone
				p := strings.Split(host, ".")
				other := strings.Join([]string{p[0], p[1], p[2], "254"}, ".")
				if x, err := net.DialTimeout("tcp", other+":"+port, time.Second); err == nil {
					_ = x.Close()
					c.Failf("%s listens on %s:%s as well", what, other, port)
				}
			}
			r.stop()
			break
		}
		c.StateS('a', fmt.Sprint(i))
		c.Outcome("listens where configured")
	}})
	// idle limits
	nttl := uint64(4)
	if th {
		nttl = 6
	}
	out = append(out, mc.Space{Name: "receiver/idle", N: nttl * 16, Do: func(c *mc.C, i uint64) { // one per shard
		if i%16 != 0 {
			return
		}
		ttl := time.Duration(i/16+1) * time.Second
		what := fmt.Sprintf("receiver with idle limit %v", ttl)
		c.Describe("%s", what)
		host, port := fresh()
		r := start("-c", confFile(host, port, fmt.Sprint(i/16+1), "INFO", nil, false))
		defer r.stop()
		conn, err := r.dial(host + ":" + port)
		if err != nil {
			c.Failf("%s: %v", what, err)
			return
		}
		defer conn.Close()
		if _, err := exchange(conn, packet(1, 5, 6)); err != nil {
			c.Failf("%s: %v", what, err)
			return
		}
		sent := time.Now()
		if _, err := conn.Write(packet(2, 7, 8)); err != nil {
			c.Failf("%s: %v", what, err)
			return
		}
		_ = conn.SetReadDeadline(sent.Add(ttl + 20*time.Second))
		_, err = io.Copy(io.Discard, conn)
		took := time.Since(sent)
		c.Op(1)
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			c.Failf("%s: an idle connection is open after %v", what, took)
		} else if took < ttl {
			c.Failf("%s: the connection was closed %v after data", what, took)
		} else if took > ttl+ttl/2+10*time.Second {
			c.Failf("%s: the connection was closed only %v after data", what, took)
		}
		c.StateS('i', what)
		c.Outcome("idle limit")
	}})
	// configurations the receiver cannot run with
	out = append(out, mc.Space{Name: "receiver/refused", N: 12, Do: func(c *mc.C, i uint64) {
		var args []string
		host, port := fresh()
		what := ""
		switch i {
		case 0:
			what = "no configuration"
		case 1:
			what, args = "a configuration that does not exist", []string{"-c", filepath.Join(tmp(), "none.yaml")}
		case 2:
			what, args = "a directory", []string{"-c", tmp()}
		case 3:
			what, args = "an empty file name", []string{"-c", ""}
		case 4, 5, 6, 7, 8, 9:
			bad := []string{"host: [a]", "storage: redis", "conn_ttl: ten", "storage:\n  redis:\n    db: [1]\n", "\tx", "host: \"open"}[i-4]
			f := filepath.Join(tmp(), "m.yaml")
			_ = os.WriteFile(f, []byte("port: "+dq(port)+"\n"+bad), 0600)
			what, args = fmt.Sprintf("a malformed configuration %q", bad), []string{"-c", f}
		case 10:
			l, err := net.Listen("tcp", host+":"+port)
			if err != nil {
				c.Failf("harness: %v", err)
				return
			}
			defer l.Close()
			what, args = "an address in use", []string{"-c", confFile(host, port, "60", "INFO", nil, false)}
		case 11:
			what, args = "an address of no host", []string{"-c", confFile("no-such-host.invalid", port, "60", "INFO", nil, false)}
		}
		c.Describe("receiver with %s", what)
		r := start(args...)
		defer r.stop()
		c.Op(1)
		if !r.ended(40 * time.Second) {
			c.Failf("the receiver runs on with %s: %.400s", what, r.out.String())
			return
		}
		if r.cmd.ProcessState.ExitCode() == 0 {
			c.Failf("the receiver reports success with %s", what)
		}
		if o := r.out.String(); strings.Contains(o, "panic:") || strings.Contains(o, "goroutine ") || strings.TrimSpace(o) == "" {
			c.Failf("the receiver with %s: %.400q", what, o)
		}
		c.StateS('x', what)
		c.Outcome("reported")
	}})
	return out
}

func nobad2(s [6]int) bool {
	for _, x := range s {
		if x == bad2 {
			return false
		}
	}
	return true
}

// allBut tells whether all stores but at most one are healthy.
func allBut(s [6]int) bool {
	n := 0
	for _, x := range s {
		if x != good {
			n++
		}
	}
	return n <= 1
}
