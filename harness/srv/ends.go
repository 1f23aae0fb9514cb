package srv

import (
	"errors"
	"fmt"
	"net"
	"time"

	"verifharness/gen"
	"verifharness/mc"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
)

// ---- C15 ----------------------------------------------------------------------------------------------

const slack = 200 * time.Millisecond // what "soon" means

// idleRun: actions with gaps before them, in units of ttl/10; the connection must live exactly as the model says.
type idleStep struct {
	act byte // 'P' packet, 'H' first 4 bytes, 'B' first 20 bytes, 'R' rest of what was begun, 'X' bad packet, 'L' long packet, 'E' end of stream, '-' nothing
	gap int  // tenths of the limit before the action
}

func longPacket() []byte {
	var subs []egts.RecordData
	for len(subs) < 90 {
		subs = append(subs, gen.SubT(16, len(subs)))
	}
	return bytesOf(withPID(gen.Pack(gen.WithSub(gen.RecF(1, 2, 3, 0, 0, 2, 2), subs...)), 9))
}

func idleRun(c *mc.C, lim time.Duration, steps []idleStep) {
	e := NewEnv(lim, 1)
	k := e.Dial()
	pkt := posOID(1, 2, 3, 2)
	last := e.Now() // last arrival, or accept
	var begun []byte
	eofAt := time.Duration(-1)
	var all []byte
	dead := false // the connection must have been closed
	unit := lim / 10
	if lim == 0 {
		unit = time.Second
	}
	check := func(ctx string) {
		if c.Failed() || dead {
			return
		}
		cl, at := k.Closed()
		now := e.Now()
		switch {
		case eofAt >= 0:
			if now >= eofAt+lim+slack {
				dead = true
				if !cl {
					c.Failf("%s: the peer closed at %v, limit %v, but at %v the connection is not released", ctx, eofAt, lim, now)
				}
			}
		case cl && (lim == 0 || at < last+lim):
			c.Failf("%s: data arrived at %v, limit %v, but the connection was closed at %v", ctx, last, lim, at)
		case cl && at > last+lim+slack:
			c.Failf("%s: nothing arrived since %v, limit %v, but the connection was closed only at %v", ctx, last, lim, at)
		case lim > 0 && !cl && now >= last+lim+slack:
			c.Failf("%s: nothing arrived since %v, limit %v, but at %v the connection is still open", ctx, last, lim, now)
		case lim > 0 && now >= last+lim: // closed in time, or about to be
			dead = true
		}
	}
	for _, s := range steps {
		e.Sleep(time.Duration(s.gap) * unit)
		check(fmt.Sprintf("before %c of %v", s.act, steps))
		if dead || c.Failed() {
			break
		}
		var b []byte
		switch s.act {
		case 'P':
			if begun != nil {
				b = begun
				begun = nil
			}
			b = append(append([]byte{}, b...), pkt...)
		case 'L': // a long packet
			if begun != nil {
				b = begun
				begun = nil
			}
			b = append(append([]byte{}, b...), longPacket()...)
		case 'X':
			if begun != nil {
				b = begun
				begun = nil
			}
			b = append(append([]byte{}, b...), bads[1].mk(9)...)
		case 'H', 'B':
			n := 4
			if s.act == 'B' {
				n = 20
			}
			if begun != nil {
				if len(begun) <= 1 {
					continue
				}
				b, begun = begun[:1], begun[1:]
			} else {
				b, begun = pkt[:n], pkt[n:]
			}
		case 'R':
			if begun == nil {
				continue
			}
			b, begun = begun, nil
		case 'E':
			k.EOF()
			eofAt = e.Now()
		}
		if len(b) > 0 && eofAt < 0 {
			k.Send(b)
			all = append(all, b...)
			last = e.Now()
		}
		check(fmt.Sprintf("after %c of %v", s.act, steps))
		if eofAt >= 0 {
			break
		}
	}
	// at the end: nothing happens any more
	if !c.Failed() {
		if lim == 0 && eofAt < 0 {
			e.Sleep(1000 * time.Hour)
			if cl, at := k.Closed(); cl {
				c.Failf("limit 0, but the idle connection was closed at %v (%v)", at, steps)
			} else {
				begunRest := append(append([]byte{}, begun...), pkt...)
				k.Send(begunRest)
				all = append(all, begunRest...)
			}
		} else {
			e.Sleep(lim*2 + time.Second)
			check(fmt.Sprintf("at the end of %v", steps))
		}
		compare(c, e, k, e.Saves(0), Model(all), cmpSaves|cmpReplies, fmt.Sprintf("idle script %v", steps))
	}
	if !c.Failed() {
		c.State('i', []byte(fmt.Sprint(lim, steps)))
		c.Op(len(steps))
		if dead {
			c.Outcome("closed in time")
		} else {
			c.Outcome("stayed open")
		}
	}
	e.Finish()
}

func c15() mc.Check {
	return mc.Check{Assume: assume, Bound: "the real server under a fake clock: limits 0, 1 s, 3 s, 90 s, 1 h; all scripts of up to 4 steps (thorough 5) from {packet (also of 2 KB), header part, body part, rest, bad packet, end of stream} with gaps of 0, 50, 95, 105 and 250 percent of the limit; stopping the server before, between and after every step of 2 connections, with connections waiting to be accepted; up to 1100 accept failures; stop while saving; release of connections whose peer ended the stream inside a packet; all sequences of up to 3 packets of 3 kinds whose replies the peer does not take, after up to 2 answered ones, with 3 gaps, resuming at 3 points or never, and ending, breaking or stopping meanwhile; up to 40 packets with replies taken one by one",
		Spaces: func(tier string) []mc.Space {
			th := tier == "thorough"
			var out []mc.Space
			acts := []byte{'P', 'H', 'B', 'R', 'X', 'E'}
			gaps := []int{0, 5, 9, 12, 25}
			na := uint64(len(acts) * len(gaps))
			lims := []time.Duration{time.Second, 3 * time.Second, 0, 90 * time.Second, time.Hour}
			depth := 4
			if th {
				depth = 5
			}
			for d := 0; d <= depth; d++ {
				d := d
				n := uint64(1)
				for k := 0; k < d; k++ {
					n *= na
				}
				ls := lims
				if d == 3 {
					ls = lims[:3]
				}
				if d >= 4 {
					ls = lims[1:2]
				}
				out = append(out, mc.Space{Name: fmt.Sprintf("idle/%d", d), N: n * uint64(len(ls)), Do: func(c *mc.C, i uint64) {
					lim := ls[i%uint64(len(ls))]
					i /= uint64(len(ls))
					var st []idleStep
					for k := 0; k < d; k++ {
						x := i % na
						i /= na
						st = append(st, idleStep{acts[x%uint64(len(acts))], gaps[x/uint64(len(acts))]})
					}
					idleRun(c, lim, st)
				}})
			}
			// a peer that keeps sending within the limit is never closed: long series of equal gaps
			series := []string{"P", "X", "H", "L", "LPPP", "LXHP", "PPPPPPPL"}
			out = append(out, mc.Space{Name: "alive", N: uint64(4 * 4 * len(series)), Do: func(c *mc.C, i uint64) {
				lim := []time.Duration{time.Second, 3 * time.Second, 90 * time.Second, time.Hour}[i%4]
				g := []int{1, 5, 9, 9}[i/4%4]
				var st []idleStep
				for k := 0; k < 40; k++ {
					x := series[i/16]
					st = append(st, idleStep{x[k%len(x)], g})
				}
				idleRun(c, lim, st)
			}})
			la := []byte{'L', 'P', 'H', 'E'}
			out = append(out, mc.Space{Name: "idle/long", N: 20 * 20 * 20, Do: func(c *mc.C, i uint64) {
				var st []idleStep
				for k := 0; k < 3; k++ {
					st = append(st, idleStep{la[i%4], gaps[i/4%5]})
					i /= 20
				}
				idleRun(c, lims[1], st)
			}})
			// stopping: steps of two connections and the stop in every order
			out = append(out, mc.Space{Name: "stop", N: 4 * 4 * 4 * 3 * 2, Do: func(c *mc.C, i uint64) {
				lim := []time.Duration{0, ttl}[i%2]
				i /= 2
				stopRun(c, lim, int(i%4), int(i/4%4), int(i/16%4), int(i/64))
			}})
			out = append(out, mc.Space{Name: "stop-saving", N: 2 * 3, Do: func(c *mc.C, i uint64) {
				e := NewEnv(ttl, 1)
				e.Stores[0].Gate()
				k := e.Dial()
				p := posOID(1, 2, 3, 2)
				k.Send(p)
				w := e.Stores[0].Waiting()
				if len(w) != 1 {
					c.Failf("record is not being saved")
				}
				_ = e.Srv.Stop()
				e.Wait()
				if !e.ran {
					c.Failf("the run loop does not return after stop while a connection is saving")
				}
				for _, x := range w {
					e.Stores[0].Release(x)
				}
				e.Wait()
				all := p
				for j := uint64(0); j < i/2; j++ {
					q := posOID(2, 2, 3, 2)
					k.Send(q)
					for _, x := range e.Stores[0].Waiting() {
						e.Stores[0].Release(x)
					}
					e.Wait()
					all = join(all, q)
				}
				compare(c, e, k, e.Saves(0), Model(all), cmpAll, "after stop")
				c.Outcome("stop while saving")
				e.Finish()
			}})
			// accept failures do not end the server
			errsA := []error{errors.New("too many open files"), &net.OpError{Op: "accept", Net: "tcp", Err: errors.New("connection aborted")}, &net.DNSError{IsTimeout: true}}
			out = append(out, mc.Space{Name: "accept-errors", N: 3 * 12, Do: func(c *mc.C, i uint64) {
				e := NewEnv(ttl, 1)
				for k := 0; k < []int{0, 1, 2, 3, 4, 7, 11, 20, 50, 130, 400, 1100}[i/3]; k++ {
					e.L.push(nil, errsA[i%3])
				}
				e.Wait()
				e.Sleep(5 * time.Second)
				k := e.Dial()
				e.Sleep(2 * time.Second)
				p := posOID(1, 2, 3, 2)
				k.Send(p)
				compare(c, e, k, e.Saves(0), Model(p), cmpAll, "after accept failures")
				c.Outcome("accept failure")
				e.Finish()
			}})
			// many connections ended by their peers at every point of a packet are all released
			out = append(out, mc.Space{Name: "release", N: 70 * 2 * 2, Do: func(c *mc.C, i uint64) {
				lim := []time.Duration{0, ttl}[i%2]
				reset := i/2%2 == 1
				n := int(i / 4)
				p := join(posOID(1, 2, 3, 2), bads[0].mk(2))
				e := NewEnv(lim, 1)
				k := e.Dial()
				k.Send(p[:min(n, len(p))])
				if reset {
					k.Reset()
				} else {
					k.EOF()
				}
				e.Sleep(lim + slack)
				if cl, _ := k.Closed(); !cl {
					c.Failf("connection ended by its peer after %d bytes is not released after one idle limit", n)
				}
				c.Outcome("released")
				e.Finish()
			}})
			// slow saving does not make a connection idle while data is waiting
			out = append(out, mc.Space{Name: "busy", N: 4 * 3, Do: func(c *mc.C, i uint64) {
				e := NewEnv(ttl, 1)
				e.Stores[0].Delay = []time.Duration{ttl / 2, ttl + time.Second, 5 * ttl, 100 * ttl}[i%4]
				k := e.Dial()
				b := join(posOID(1, 2, 3, 2), posOID(2, 3, 4, 5), posOID(3, 4, 5, 1))
				if i/4 == 0 {
					k.Send(b)
				} else {
					k.Send(b[:len(b)/3])
					e.Sleep(ttl / 2)
					k.Send(b[len(b)/3 : len(b)/2])
					if i/4 == 2 {
						e.Sleep(ttl / 4)
					}
					k.Send(b[len(b)/2:])
				}
				e.Sleep(3*e.Stores[0].Delay + ttl/2)
				compare(c, e, k, e.Saves(0), Model(b), cmpSaves|cmpReplies, "slow store with data waiting")
				c.Outcome("busy")
				e.Finish()
			}})
			// a peer that does not take the replies
			sl := []time.Duration{time.Second, 0, 90 * time.Second}
			then := "-ERS"
			rs := []int{-1, 1, 5, 9}
			var kss [][]int
			for a := 0; a < 3; a++ {
				kss = append(kss, []int{a})
				for b := 0; b < 3; b++ {
					kss = append(kss, []int{a, b})
					for d := 0; d < 3; d++ {
						kss = append(kss, []int{a, b, d})
					}
				}
			}
			ns := uint64(len(sl) * 4 * 3 * 3 * len(rs) * len(kss))
			out = append(out, mc.Space{Name: "stuck", N: ns, Do: func(c *mc.C, i uint64) {
				l := sl[i%3]
				i /= 3
				t := then[i%4]
				i /= 4
				b := int(i % 3)
				i /= 3
				g := []int{0, 3, 12}[i%3]
				i /= 3
				stuckRun(c, l, b, kss[i/4], g, rs[i%4], t)
			}})
			out = append(out, mc.Space{Name: "slow-peer", N: 40 * 3 * 2 * 2, Do: func(c *mc.C, i uint64) {
				l := []time.Duration{time.Second, 90 * time.Second}[i%2]
				i /= 2
				slowRun(c, l, int(i/6)+1, []int{1, 5, 9}[i%3], i/3%2 == 1)
			}})
			return out
		}}
}

// stuckRun: after before packets whose replies are taken, the peer sends the packets of kind k at the gaps without
// taking the replies; then it goes on taking them (after resume tenths of the limit; -1: never), closes or breaks the
// connection, or the server is stopped.
func stuckRun(c *mc.C, lim time.Duration, before int, ks []int, gap, resume int, then byte) {
	unit := lim / 10
	if lim == 0 {
		unit = time.Second
	}
	mk := func(x, n int) []byte {
		switch x {
		case 0:
			return posOID(uint16(n+1), uint16(n+2), 3, 2)
		case 1: // two replies
			return bytesOf(withPID(gen.Pack(gen.WithSub(gen.RecF(0, uint16(n+2), 0, 0, 0, 1, 1), term(7), gen.SubT(16, 2))), uint16(n+1)))
		}
		return bads[0].mk(uint16(n + 1))
	}
	e := NewEnv(lim, 1)
	k := e.Dial()
	var all []byte
	for n := 0; n < before; n++ {
		p := mk(0, 50+n)
		all = append(all, p...)
		k.Send(p)
		e.Sleep(5 * unit)
	}
	k.Gate(true)
	stuck := time.Duration(-1)
	last := e.Now()
	for n, x := range ks {
		if n > 0 {
			e.Sleep(time.Duration(gap) * unit)
		}
		if cl, _ := k.Closed(); cl {
			break
		}
		p := mk(x, n)
		k.Send(p)
		all = append(all, p...)
		last = e.Now()
		if stuck < 0 {
			stuck = last
		}
	}
	name := fmt.Sprintf("limit %v, %d packets answered, then %v without taking replies, gap %d/10, resumed after %d/10, %c", lim, before, ks, gap, resume, then)
	if k.Waiting() != 1 {
		if cl, _ := k.Closed(); !cl {
			c.Failf("%s: no reply is waiting to be taken", name)
		}
	}
	switch then {
	case 'E':
		k.EOF()
	case 'R':
		k.Reset()
	case 'S':
		_ = e.Srv.Stop()
		e.Wait()
		if !e.ran {
			c.Failf("%s: the run loop does not return after stop", name)
		}
	}
	if then != 'S' {
		other := e.Dial()
		op := join(posOID(1, 2, 3, 2), mk(2, 5))
		m := len(e.Saves(0))
		other.Send(op)
		compare(c, e, other, e.Saves(0)[m:], Model(op), cmpAll, name+": another connection")
	}
	if lim == 0 {
		e.Sleep(1000 * time.Hour)
		if cl, _ := k.Closed(); cl && then != 'R' {
			c.Failf("%s: the connection was closed", name)
		}
		if resume < 0 && then != 'R' {
			resume = 5
		}
	}
	whole := resume >= 0 && then != 'R'
	if whole {
		e.Sleep(time.Duration(resume) * unit)
		if cl, _ := k.Closed(); cl && (lim == 0 || e.Now() < stuck+lim) {
			c.Failf("%s: the connection was closed although the peer had %v more for taking the reply", name, stuck+lim-e.Now())
		}
		if lim > 0 && e.Now() >= stuck+lim {
			whole = false
		}
		k.Gate(false)
		e.Wait()
	}
	if whole {
		compare(c, e, k, nil, Model(all), cmpReplies, name+": after the peer went on taking replies")
		if then == 'E' {
			last = e.Now()
		} else {
			e.Sleep(lim * 9 / 10)
			if cl, _ := k.Closed(); cl {
				c.Failf("%s: closed although the peer went on taking replies", name)
			}
			last = e.Now()
		}
	}
	if lim > 0 {
		e.Sleep(last + lim + slack - e.Now())
		if cl, _ := k.Closed(); !cl {
			c.Failf("%s: at %v the connection is still open, last data at %v", name, e.Now(), last)
		}
	}
	if !c.Failed() {
		c.State('k', []byte(name))
		c.Op(len(ks))
		if whole {
			c.Outcome("went on")
		} else {
			c.Outcome("closed for not taking replies")
		}
	}
	e.Finish()
}

// slowRun: n packets are sent at once and the replies are taken one at a time, each within the limit.
func slowRun(c *mc.C, lim time.Duration, n, gap int, twice bool) {
	e := NewEnv(lim, 1)
	k := e.Dial()
	k.Gate(true)
	var all []byte
	for x := 0; x < n; x++ {
		p := posOID(uint16(x+1), uint16(x+2), 3, 2)
		if twice && x%2 == 1 {
			p = bytesOf(withPID(gen.Pack(gen.WithSub(gen.RecF(0, uint16(x+2), 0, 0, 0, 1, 1), term(7), gen.SubT(16, 2))), uint16(x+1)))
		}
		all = append(all, p...)
	}
	k.Send(all)
	exp := Model(all)
	for x := 0; x < 2*n+2; x++ {
		if k.Waiting() == 0 {
			break
		}
		e.Sleep(time.Duration(gap) * lim / 10)
		k.Take(1)
	}
	k.Gate(false)
	e.Wait()
	if cl, at := k.Closed(); cl {
		c.Failf("closed at %v although the peer took one reply every %d/10 of the limit", at, gap)
	}
	compare(c, e, k, e.Saves(0), exp, cmpSaves|cmpReplies, "replies taken slowly")
	c.Outcome("slow peer")
	e.Finish()
}

// stopRun: connections a (state sa) and b (state sb) when the server is stopped, then both continue.
// states: 0 accepted and idle, 1 after a packet, 2 inside a header, 3 inside a body.
func stopRun(c *mc.C, lim time.Duration, sa, sb, when, late int) {
	e := NewEnv(lim, 1)
	p := posOID(1, 2, 3, 2)
	cut := []int{0, len(p), 4, 20}
	var ks []*Conn
	for _, s := range []int{sa, sb} {
		k := e.Dial()
		if cut[s] > 0 {
			k.Send(p[:cut[s]])
		}
		ks = append(ks, k)
	}
	e.Sleep([]time.Duration{0, time.Millisecond, time.Second, 5 * time.Second}[when])
	for x := 0; x <= late; x++ {
		_ = e.Srv.Stop()
	}
	e.Wait()
	if !e.ran {
		e.Sleep(slack)
	}
	if !e.ran {
		c.Failf("the run loop has not returned after stop")
	}
	for _, v := range e.Log() {
		if v.Kind == "spin" {
			c.Failf("the accept loop spins after stop")
		}
	}
	n := e.L.accepts
	nw := e.NewConn()
	e.L.push(nw, nil)
	e.Wait()
	if e.L.accepts != n {
		c.Failf("a connection was accepted after stop")
	}
	for x, s := range []int{sa, sb} {
		m := len(e.Saves(0))
		rest := p[cut[s]%len(p):]
		ks[x].Send(rest)
		ks[x].Send(p)
		exp := Model(join(rest2(p, cut[s]), p))
		if s == 1 {
			exp = Model(join(p, p, p))
		}
		want := exp.Saves()
		if s == 1 {
			want = want[1:]
		}
		got := e.Saves(0)[m:]
		if len(got) != len(want) {
			c.Failf("after stop an open connection is not served any more: %d records stored instead of %d", len(got), len(want))
		}
		compare(c, e, ks[x], nil, exp, cmpReplies|cmpClose, "open connection after stop")
	}
	if !c.Failed() {
		c.State('x', []byte(fmt.Sprint(lim, sa, sb, when, late)))
		c.Outcome("stopped")
		c.Op(4)
	}
	e.Finish()
}

func rest2(p []byte, cut int) []byte { return p }

// ---- C16 ----------------------------------------------------------------------------------------------

// record kinds for identities
type idKind struct {
	name string
	mk   func(rn uint16) egts.ServiceDataRecord
}

func term(id uint32) egts.RecordData {
	d := gen.Sec(1, 0, 0).(*egts.SrTermIdentity)
	d.TerminalIdentifier = id
	return egts.RecordData{SubrecordType: 1, SubrecordData: d}
}

var idKinds = []idKind{
	{"none", func(rn uint16) egts.ServiceDataRecord {
		return gen.WithSub(gen.RecF(0, rn, 0, 0, 0, 2, 2), gen.SubT(16, 2))
	}},
	{"oid", func(rn uint16) egts.ServiceDataRecord {
		return gen.WithSub(gen.RecF(1, rn, 0x1000+uint32(rn), 0, 0, 2, 2), gen.SubT(16, 2))
	}},
	{"oid-event-time", func(rn uint16) egts.ServiceDataRecord {
		return gen.WithSub(gen.RecF(7, rn, 0x2000+uint32(rn), 0xEEEE, 0x7777, 2, 2), gen.SubT(16, 2))
	}},
	{"event-only", func(rn uint16) egts.ServiceDataRecord {
		return gen.WithSub(gen.RecF(6, rn, 0, 0xEEEE, 0x7777, 2, 2), gen.SubT(16, 2))
	}},
	{"oid-zero", func(rn uint16) egts.ServiceDataRecord {
		return gen.WithSub(gen.RecF(1, rn, 0, 0, 0, 2, 2), gen.SubT(16, 2))
	}},
	{"term", func(rn uint16) egts.ServiceDataRecord {
		return gen.WithSub(gen.RecF(0, rn, 0, 0, 0, 1, 1), term(0x3000+uint32(rn)))
	}},
	{"term-pos", func(rn uint16) egts.ServiceDataRecord {
		return gen.WithSub(gen.RecF(0, rn, 0, 0, 0, 1, 1), term(0x4000+uint32(rn)), gen.SubT(16, 2))
	}},
	{"pos-term", func(rn uint16) egts.ServiceDataRecord {
		return gen.WithSub(gen.RecF(0, rn, 0, 0, 0, 1, 1), gen.SubT(16, 2), term(0x5000+uint32(rn)))
	}},
	{"oid-term-pos", func(rn uint16) egts.ServiceDataRecord {
		return gen.WithSub(gen.RecF(1, rn, 0x6000+uint32(rn), 0, 0, 1, 1), term(0x7000+uint32(rn)), gen.SubT(16, 2))
	}},
	{"oid-nopos", func(rn uint16) egts.ServiceDataRecord {
		return gen.WithSub(gen.RecF(1, rn, 0x8000+uint32(rn), 0, 0, 2, 2), gen.SubT(18, 2))
	}},
	{"auth-pos", func(rn uint16) egts.ServiceDataRecord {
		return gen.WithSub(gen.RecF(0, rn, 0, 0, 0, 1, 1), gen.SubT(7, 2), gen.SubT(16, 2))
	}},
	{"dispatcher-pos", func(rn uint16) egts.ServiceDataRecord {
		return gen.WithSub(gen.RecF(0, rn, 0, 0, 0, 1, 1), gen.SubT(5, 2), gen.SubT(16, 2))
	}},
	{"term-zero-pos", func(rn uint16) egts.ServiceDataRecord {
		return gen.WithSub(gen.RecF(1, rn, 0x9000, 0, 0, 1, 1), term(0), gen.SubT(16, 2))
	}},
}

func c16() mc.Check {
	return mc.Check{Assume: assume, Bound: "the real server: all sequences of up to 4 records (thorough 5) of 13 identity kinds, each of them with every service number and record flag, identities at every place of records of up to 1500 subrecords, in one packet and in one packet each, with a refused packet, an answer or a response with an identity in between; all sequences of 4 actions of two connections with 5 identity kinds; histories of 300 packets of each identity kind and of all in turn; a connection from the address of an ended one; all values of the identifiers by byte",
		Spaces: func(tier string) []mc.Space {
			th := tier == "thorough"
			var out []mc.Space
			nk := uint64(len(idKinds))
			depth := 4
			if th {
				depth = 5
			}
			for l := 1; l <= depth; l++ {
				l := l
				n := uint64(1)
				for k := 0; k < l; k++ {
					n *= nk
				}
				// mode: bit k-1: a new packet starts before record k
				out = append(out, mc.Space{Name: fmt.Sprintf("seq/%d", l), N: n << (l - 1), Do: func(c *mc.C, i uint64) {
					m := i % (1 << (l - 1))
					i >>= (l - 1)
					var segs [][]byte
					var rs []egts.ServiceDataRecord
					for k := 0; k < l; k++ {
						if k > 0 && m>>(k-1)&1 == 1 {
							segs = append(segs, bytesOf(withPID(gen.Pack(rs...), uint16(k))))
							rs = nil
						}
						x := idKinds[i%nk]
						i /= nk
						c.Describe("record %d: %s", k, x.name)
						rs = append(rs, x.mk(uint16(k+1)))
					}
					segs = append(segs, bytesOf(withPID(gen.Pack(rs...), 99)))
					segs = append(segs, posOnly(100, 9, 1))
					stream(c, cmpSaves, segs...)
				}})
			}
			// a refused or unanswered packet with an identity in between changes nothing (or counts, if it was accepted)
			between := append(append([]kind{}, bads...), kinds...)
			nb := uint64(len(between))
			out = append(out, mc.Space{Name: "between", N: nk * nb * nk, Do: func(c *mc.C, i uint64) {
				a, x, b := idKinds[i%nk], between[i/nk%nb], idKinds[i/nk/nb]
				stream(c, cmpSaves, bytesOf(gen.Pack(a.mk(1))), x.mk(7), bytesOf(gen.Pack(b.mk(2))), posOnly(3, 3, 1))
			}})
			// the records of a response announce nothing
			out = append(out, mc.Space{Name: "responses", N: nk * nk * nk, Do: func(c *mc.C, i uint64) {
				a, x, b := idKinds[i%nk], idKinds[i/nk%nk], idKinds[i/nk/nk]
				sd := egts.ServiceDataSet{x.mk(7)}
				r := withPID(gen.Respond(7, 0, 1), 9)
				r.ServicesFrameData.(*egts.PtResponse).SDR = &sd
				stream(c, cmpSaves, bytesOf(gen.Pack(a.mk(1))), bytesOf(r), bytesOf(gen.Pack(b.mk(2))), posOnly(3, 3, 1))
			}})
			// two connections
			sel := []int{0, 1, 5, 6, 8}
			ns := uint64(len(sel) * 2)
			n4 := ns * ns * ns * ns
			out = append(out, mc.Space{Name: "two", N: n4, Do: func(c *mc.C, i uint64) {
				e := NewEnv(ttl, 1)
				ks := []*Conn{e.Dial(), e.Dial()}
				st := []State{{}, {}}
				for s := 0; s < 4; s++ {
					x := i % ns
					i /= ns
					w := int(x % 2)
					p := bytesOf(withPID(gen.Pack(idKinds[sel[x/2]].mk(uint16(s+1+w*100))), uint16(s)))
					n := len(e.Saves(0))
					ks[w].Send(p)
					exp := st[w].packet(p)
					got := e.Saves(0)[n:]
					if len(got) != len(exp.Saves) {
						c.Failf("connection %d step %d: %d records stored instead of %d", w, s, len(got), len(exp.Saves))
						break
					}
					for j := range got {
						if got[j].Client != exp.Saves[j].Client {
							c.Failf("connection %d step %d: record stored for client %#x instead of %#x", w, s, got[j].Client, exp.Saves[j].Client)
						}
					}
					c.Op(1)
				}
				if !c.Failed() {
					c.Trace()
					c.State('2', []byte(fmt.Sprint(st, e.Saves(0))))
					c.Outcome("two connections")
				}
				e.Finish()
			}})
			// identity of an ended connection does not appear on the next one
			out = append(out, mc.Space{Name: "after", N: nk * nk * 6, Do: func(c *mc.C, i uint64) {
				reuse := i/nk/nk/3 == 1 // from the same address
				i %= nk * nk * 3
				e := NewEnv(ttl, 1)
				a := e.Dial()
				a.Send(bytesOf(gen.Pack(idKinds[i%nk].mk(1))))
				switch i / nk / nk {
				case 0:
					a.EOF()
				case 1:
					a.Reset()
				}
				e.Sleep(time.Second)
				if reuse {
					e.Sleep(ttl + slack)
				}
				n := len(e.Saves(0))
				b := e.NewConn()
				if reuse {
					b.port = a.port
				}
				e.Connect(b)
				p := join(bytesOf(gen.Pack(idKinds[i/nk%nk].mk(2))), posOnly(3, 3, 1))
				b.Send(p)
				compare(c, e, b, e.Saves(0)[n:], Model(p), cmpSaves, "second connection")
				c.Outcome("after")
				e.Finish()
			}})
			// values
			out = append(out, mc.Space{Name: "values", N: 4 * 256 * 2, Do: func(c *mc.C, i uint64) {
				v := uint32(byte(i)) << (8 * (i >> 8 & 3))
				if i>>10 == 0 {
					stream(c, cmpSaves, posOID(1, 2, v, 2), posOnly(2, 3, 2))
				} else {
					stream(c, cmpSaves, bytesOf(gen.Pack(gen.WithSub(gen.Rec(1), term(v)))), posOnly(2, 3, 2))
				}
			}})
			out = append(out, crowded(cmpSaves), services(cmpSaves))
			out = append(out, longSpace(cmpSaves, 300, idPackets()))
			return out
		}}
}
