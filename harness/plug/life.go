package plug

import (
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	"verifharness/mc"
)

func init() {
	Checks["C26"] = func() mc.Check {
		return mc.Check{Assume: []string{"the fake servers speak the protocols as the real ones do (checked by the client libraries, which are taken as right)"},
			Bound:  "the real plugins and client libraries against servers on the loopback interface: every sequence of up to 4 (thorough 5) of {Init, Init without configuration, Init without a server, Init that is refused, Init broken off, Save, Close, the server closes the connections} on one plugin; closing after every number of saves up to 12 and 100, 1000, and after large ones; closing before and after a save under way is answered, refused or broken off, also twice at once; the connection broken before, and the server away while closing",
			Spaces: lifeSpaces}
	}
}

// Open is the number of connections the server has.
func (s *Server) Open() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.peers)
}

// hold makes answers wait for release.
func (s *Server) block(f Fault) {
	s.mu.Lock()
	s.hold, s.seq, s.first = 1<<30, 0, true
	s.fault, s.after, s.always = f, OK, false
	s.mu.Unlock()
}

func (s *Server) release() {
	s.mu.Lock()
	s.hold = 0
	s.cond.Broadcast()
	s.mu.Unlock()
}

const (
	lInit = iota
	lNil
	lNone
	lRefused
	lBroken
	lSave
	lClose
	lKill
	lOps
)

var lifeNames = []string{"Init", "Init without configuration", "Init without a server", "Init refused", "Init broken off", "Save", "Close", "the server closes the connections"}

// life runs a sequence of operations on one plugin.
func life(c *mc.C, d *Def, ops []int) {
	var names []string
	for _, o := range ops {
		names = append(names, lifeNames[o])
	}
	c.Describe("%s: %s", d.Name, strings.Join(names, "; "))
	s := d.start()
	defer s.Stop()
	st := d.New()
	const (
		fresh = iota // no connection: never initialised, initialisation failed, closed
		good
		lost  // it had a connection that broke, or settings that lead nowhere
		mixed // initialised more than once: only crashes, hangs and lies are judged
	)
	state := fresh
	closed := false // the last successful operation was Close
	fail := func(k int, format string, a ...interface{}) {
		c.Failf("%s: after %s: %s", d.Name, strings.Join(names[:k], "; "), fmt.Sprintf(format, a...))
	}
	gone := func(k int) {
		if state != mixed && !wait(10*time.Second, func() bool { return s.Open() == 0 }) {
			fail(k, "%d connections are left open", s.Open())
		}
	}
	sent := 0
	for k, o := range ops {
		c.Op(1)
		switch o {
		case lInit, lNil, lNone, lRefused, lBroken:
			closed = false
			cfg := d.config(s)
			h, p := s.Addr()
			switch o {
			case lNil:
				cfg = nil
			case lNone:
				l, _ := net.Listen("tcp", IP()+":0")
				h, p, _ = net.SplitHostPort(l.Addr().String())
				_ = l.Close()
				cfg = d.Cfg(h, p, d.Login, d.Dest)
			case lRefused:
				lg := d.Login
				lg.Pass = "wrong"
				cfg = d.Cfg(h, p, lg, d.Dest)
			case lBroken:
				s.mu.Lock()
				s.dieAt = 2
				s.mu.Unlock()
			}
			err, ok := within(c, fmt.Sprintf("%s: %s", d.Name, strings.Join(names[:k+1], "; ")), func() error { return st.Init(cfg) })
			s.mu.Lock()
			s.dieAt = 0
			s.mu.Unlock()
			if !ok {
				return
			}
			switch {
			case o == lInit && err != nil:
				fail(k, "Init with a healthy server: %v", err)
				return
			case err == nil && (o == lNil || !d.Lazy && o < lBroken && o != lInit):
				fail(k, "%s reports nothing", names[k])
				return
			}
			switch {
			case state == good || state == lost || state == mixed:
				state = mixed
			case err != nil:
				gone(k + 1)
			case o == lInit || o == lBroken && d.Lazy:
				state, closed = good, false
			default:
				state, closed = lost, false
			}
		case lSave:
			m := rec(k)
			b, _ := m.ToBytes()
			err, ok := within(c, fmt.Sprintf("%s: %s", d.Name, strings.Join(names[:k+1], "; ")), func() error { return st.Save(m) })
			if !ok {
				return
			}
			if err == nil {
				sent++
				if state == good || d.Acked {
					arrived(d, s, sent)
				}
			}
			n, whole := count(s.Got(), d.Dest, string(b))
			switch {
			case state == good && err != nil:
				fail(k, "Save with a healthy server: %v", err)
			case state == good && n != 1:
				fail(k, "the record was delivered %d times", n)
			case closed && err == nil && state == fresh:
				fail(k, "Save reports nothing")
			case closed && n != 0 && state == fresh:
				fail(k, "Save delivers the record")
			case state == fresh && err == nil && n != 1:
				fail(k, "Save reports nothing, and the record was delivered %d times", n)
			case d.Acked && err == nil && whole == 0:
				fail(k, "Save reports nothing, but the record was not confirmed")
			}
			if c.Failed() {
				return
			}
			if state == fresh && err == nil { // it connected all the same
				state = mixed
			}
		case lClose:
			err, ok := within(c, fmt.Sprintf("%s: %s", d.Name, strings.Join(names[:k+1], "; ")), st.Close)
			if !ok {
				return
			}
			if state == good && err != nil {
				fail(k, "Close with a healthy server: %v", err)
				return
			}
			gone(k + 1)
			if state != mixed {
				if state != fresh {
					closed = true
				}
				state = fresh
			}
		case lKill:
			s.Kill()
			if state == good {
				state = lost
			}
		}
		if c.Failed() {
			return
		}
	}
	within(c, d.Name+": Close at the end", st.Close)
	c.Trace()
	c.StateS('l', fmt.Sprint(d.Name, ops))
	c.Outcome("closed")
}

func lifeSpaces(tier string) []mc.Space {
	depth := 4
	if tier == "thorough" {
		depth = 5
	}
	var out []mc.Space
	for _, d := range Defs {
		d := d
		dp := depth
		if d.Name == "redis" { // its library waits between attempts
			dp--
		}
		for n := 1; n <= dp; n++ {
			n := n
			num := uint64(1)
			for k := 0; k < n; k++ {
				num *= lOps
			}
			out = append(out, mc.Space{Name: fmt.Sprintf("lives/%s/%d", d.Name, n), N: num, Do: func(c *mc.C, i uint64) {
				var ops []int
				inits := 0
				for k := 0; k < n; k++ {
					o := int(i % lOps)
					i /= lOps
					if o <= lBroken {
						inits++
					}
					ops = append(ops, o)
				}
				if n >= 4 && inits > 2 {
					c.Outcome("left out: only initialisations")
					return
				}
				life(c, d, ops)
			}})
		}
		// everything that was saved is delivered, however soon the plugin is closed
		sizes := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 100, 1000}
		bodies := []int{0, 100, 4096, 32768, 65536, 300000}
		out = append(out, mc.Space{Name: "save and close/" + d.Name, N: uint64(len(sizes) * len(bodies)), Do: func(c *mc.C, i uint64) {
			n, size := sizes[i%uint64(len(sizes))], bodies[i/uint64(len(sizes))]
			if n*size > 4<<20 {
				c.Outcome("left out: too much")
				return
			}
			c.Describe("%s: %d saves of %d bytes more, then Close", d.Name, n, size)
			s := d.start()
			defer s.Stop()
			st := d.New()
			if err, ok := within(c, d.Name+": Init", func() error { return st.Init(d.config(s)) }); !ok || err != nil {
				c.Failf("%s: Init with a healthy server: %v", d.Name, err)
				return
			}
			var want []string
			for k := 0; k < n; k++ {
				b, _ := rec(k).ToBytes()
				x := string(b) + strings.Repeat("x", size)
				want = append(want, x)
				if err, ok := within(c, d.Name+": Save", func() error { return st.Save(raw{b: []byte(x)}) }); !ok || err != nil {
					c.Failf("%s: save %d: %v", d.Name, k, err)
					return
				}
				c.Op(1)
			}
			if err, ok := within(c, d.Name+": Close", st.Close); !ok || err != nil {
				c.Failf("%s: Close after %d saves: %v", d.Name, n, err)
				return
			}
			if !wait(20*time.Second, func() bool { return s.Open() == 0 }) {
				c.Failf("%s: after %d saves and Close, %d connections are left open", d.Name, n, s.Open())
				return
			}
			got := s.Got()
			same := len(got) == len(want)
			for k := 0; same && k < n; k++ {
				same = got[k].Body == want[k] && got[k].Dest == d.Dest
			}
			if !same {
				c.Failf("%s: %d saves of %d bytes returned success, then the plugin was closed: the server has %d messages", d.Name, n, size, len(got))
			}
			sane(c, d, s, d.Login)
			c.Trace()
			c.StateS('s', fmt.Sprint(d.Name, n, size))
			c.Outcome("all delivered")
		}})
		// closing while a save is under way
		if d.Acked {
			out = append(out, mc.Space{Name: "close during a save/" + d.Name, N: 2 * 3 * 4 * 2, Do: func(c *mc.C, i uint64) {
				early := i%2 == 0 // the answer comes before Close returns or after it
				f := []Fault{OK, Reject, DropBefore, DropAfter}[i/2%4]
				before := int(i / 8 % 3)
				closes := int(i/24) + 1
				c.Describe("%s: %d saves, then a save under way (%s) while the plugin is closed %d times at once; answered before: %v", d.Name, before, faultNames[f], closes, early)
				s := d.start()
				st := d.New()
				defer s.Stop()
				if err, ok := within(c, d.Name+": Init", func() error { return st.Init(d.config(s)) }); !ok || err != nil {
					c.Failf("%s: Init with a healthy server: %v", d.Name, err)
					return
				}
				for k := 0; k < before; k++ {
					if err, ok := within(c, d.Name+": Save", func() error { return st.Save(rec(k)) }); !ok || err != nil {
						c.Failf("%s: save %d: %v", d.Name, k, err)
						return
					}
				}
				s.block(f)
				m := rec(77)
				b, _ := m.ToBytes()
				var serr error
				var wg sync.WaitGroup
				wg.Add(1)
				go func() {
					defer wg.Done()
					serr, _ = within(c, d.Name+": a save while the plugin is closed", func() error { return st.Save(m) })
				}()
				if !wait(10*time.Second, func() bool { s.mu.Lock(); defer s.mu.Unlock(); return s.seq > 0 }) {
					c.Failf("%s: a save does not reach the server", d.Name)
				}
				var cg sync.WaitGroup
				for k := 0; k < closes; k++ {
					cg.Add(1)
					go func() {
						defer cg.Done()
						within(c, d.Name+": Close during a save", st.Close)
					}()
				}
				if !early { // Close may wait for the save, but not for ever
					done := make(chan bool)
					go func() { cg.Wait(); close(done) }()
					select {
					case <-done:
					case <-time.After(200 * time.Millisecond):
					}
				}
				s.release()
				cg.Wait()
				wg.Wait()
				c.Op(2)
				if c.Failed() {
					return
				}
				n, whole := count(s.Got(), d.Dest, string(b))
				if serr == nil && whole == 0 {
					c.Failf("%s: a save under way while the plugin was closed returned success, but was not confirmed", d.Name)
				}
				if n > 1 && f == OK {
					c.Failf("%s: a save under way while the plugin was closed was sent %d times", d.Name, n)
				}
				after := rec(78)
				b, _ = after.ToBytes()
				err, ok := within(c, d.Name+": Save after Close", func() error { return st.Save(after) })
				if ok && err == nil {
					c.Failf("%s: a save after Close (closed while another was under way) reports nothing", d.Name)
				}
				if n, _ := count(s.Got(), d.Dest, string(b)); n > 0 {
					c.Failf("%s: a save after Close delivers the record", d.Name)
				}
				if !wait(20*time.Second, func() bool { return s.Open() == 0 }) {
					c.Failf("%s: closed while a save was under way, %d connections are left open", d.Name, s.Open())
				}
				c.Trace()
				c.StateS('d', fmt.Sprint(d.Name, early, f, before, closes))
				c.Outcome("closed during a save")
			}})
		}
		// closing when something is wrong with the server
		out = append(out, mc.Space{Name: "close in trouble/" + d.Name, N: 2 * 2 * 2, Do: func(c *mc.C, i uint64) {
			how := int(i % 2)
			late := i/2%2 == 1
			saves := int(i / 4)
			c.Describe("%s: %d saves, then %s, Close at once: %v; Save; Close", d.Name, saves, []string{"the connections are closed", "the server goes away"}[how], !late)
			s := d.start()
			st := d.New()
			defer s.Stop()
			if err, ok := within(c, d.Name+": Init", func() error { return st.Init(d.config(s)) }); !ok || err != nil {
				c.Failf("%s: Init with a healthy server: %v", d.Name, err)
				return
			}
			for k := 0; k < saves; k++ {
				if err, ok := within(c, d.Name+": Save", func() error { return st.Save(rec(k)) }); !ok || err != nil {
					c.Failf("%s: save %d: %v", d.Name, k, err)
					return
				}
			}
			arrived(d, s, saves)
			switch how {
			case 0:
				s.Kill()
			case 1:
				s.Down()
			}
			if late {
				time.Sleep(150 * time.Millisecond)
			}
			if _, ok := within(c, d.Name+": Close with a broken connection", st.Close); !ok {
				return
			}
			if err, ok := within(c, d.Name+": Save after Close", func() error { return st.Save(rec(9)) }); ok && err == nil {
				c.Failf("%s: a save after Close with a broken connection reports nothing", d.Name)
			}
			within(c, d.Name+": second Close", st.Close)
			if !wait(20*time.Second, func() bool { return s.Open() == 0 }) {
				c.Failf("%s: %d connections are left open after Close", d.Name, s.Open())
			}
			c.Op(3)
			c.Trace()
			c.StateS('t', fmt.Sprint(d.Name, i))
			c.Outcome("closed in trouble")
		}})
	}
	return out
}
