package srv

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"verifharness/conc"
	"verifharness/gen"
	"verifharness/mc"
)

// Bubble runs an execution in a synctest bubble (set by the test binary).
var Bubble func(do func())

// SetYield makes f the scheduling point of the instrumented packages: 1 codec, 2 server, 4 storage (set by the
// test binary that is built with instrumentation).
var SetYield func(f func(), where int)

// ckinds are the packets of concurrency executions: connection k, n-th packet. With the same ids, the packets of all
// connections have the same identifiers.
var ckinds = []struct {
	name string
	mk   func(k, n int) []byte
}{
	{"pos+oid", stamped(func(k, n int) *egts.Package {
		return gen.Pack(gen.WithSub(gen.RecF(1, uint16(10*idOf(k)+n), uint32(0x100*k+n+1), 0, 0, 2, 2), gen.SubT(16, (2*pat(k)+n)%8)))
	})},
	{"pos", stamped(func(k, n int) *egts.Package {
		return gen.Pack(gen.WithSub(gen.Rec(uint16(10*idOf(k)+n)), gen.SubT(16, (2*pat(k)+n)%8)))
	})},
	{"term+pos", stamped(func(k, n int) *egts.Package {
		t := gen.SubT(1, 2)
		d := *t.SubrecordData.(*egts.SrTermIdentity)
		d.TerminalIdentifier = uint32(0x7000 + 16*k + n)
		t.SubrecordData = &d
		return gen.Pack(gen.WithSub(gen.RecF(0, uint16(idOf(k)), 0, 0, 0, 1, 1), t), gen.WithSub(gen.RecF(0, uint16(idOf(k)+30), 0, 0, 0, 2, 2), gen.SubT(16, (pat(k)+2*n)%8)))
	})},
	{"sensors", stamped(func(k, n int) *egts.Package {
		ad := gen.SpecOf(18)
		return gen.Pack(gen.WithSub(gen.RecF(1, uint16(idOf(k)), uint32(0x900+k), 0, 0, 2, 2),
			egts.RecordData{SubrecordType: 18, SubrecordData: ad.Build(uint(0x0F00<<(4*(pat(k)%2))), gen.Pattern(ad, 2+pat(k)%3))},
			gen.SubT(16, (pat(k)+1)%8), gen.SubT(27, 2+3*(pat(k)%2)), gen.SubT(17, 2+3*(n%2))))
	})},
	{"bad", func(k, n int) []byte {
		b := posOID(cpid(k, n), 1, 0x0BAD, 2)
		b[len(b)-1-k%2] ^= 0x55
		return b
	}},
	{"response", stamped(func(k, n int) *egts.Package { return gen.Respond(7, 0, 1) })},
	{"two", stamped(func(k, n int) *egts.Package {
		return gen.Pack(gen.WithSub(gen.RecF(1, uint16(idOf(k)), uint32(0x500+k), 0, 0, 2, 2), gen.SubT(16, (1+pat(k))%8)), gen.WithSub(gen.RecF(0, uint16(idOf(k)+5), 0, 0, 0, 2, 2), gen.SubT(16, (2+pat(k))%8), gen.SubT(24, pat(k)%8)))
	})},
	{"nothing", stamped(func(k, n int) *egts.Package {
		return gen.Pack(gen.WithSub(gen.Rec(uint16(3+idOf(k))), gen.SubT(18, 2)))
	})},
}

// sameIDs: 0 everything differs between connections; 1 packets and records have the same numbers; 2 everything is the
// same but the object identifiers, which all records have.
var sameIDs int

func idOf(k int) int {
	if sameIDs > 0 {
		return 0
	}
	return k
}

func pat(k int) int {
	if sameIDs == 2 {
		return 0
	}
	return k
}

func cpid(k, n int) uint16 { return uint16((idOf(k)+1)<<12 | n<<4 | 5) }

var stampBase = time.Date(2023, 4, 5, 6, 7, 8, 0, time.UTC)

const clientBase = 0x40000000

// stamped numbers the packet and marks its positions by their times, which tell the connection they belong to.
func stamped(f func(k, n int) *egts.Package) func(k, n int) []byte {
	return func(k, n int) []byte {
		p := withPID(f(k, n), cpid(k, n))
		at := stampBase.Add(time.Duration(k*10000+n*100) * time.Second)
		if sameIDs == 2 {
			at = stampBase.Add(time.Duration(n*100-5000) * time.Second)
		}
		if s, ok := p.ServicesFrameData.(*egts.ServiceDataSet); ok {
			for j := range *s {
				if sameIDs == 2 {
					(*s)[j].ObjectIDFieldExists = "1"
					(*s)[j].ObjectIdentifier = clientBase + uint32(k)
				}
				for x := range (*s)[j].RecordDataSet {
					if d, ok := (*s)[j].RecordDataSet[x].SubrecordData.(*egts.SrPosData); ok {
						e := *d
						e.NavigationTime = at.Add(time.Duration(j) * time.Second)
						(*s)[j].RecordDataSet[x].SubrecordData = &e
					}
				}
			}
		}
		return bytesOf(p)
	}
}

// ownerOf tells the connection a stored record belongs to.
func ownerOf(n Nav) int {
	d := n.NavT - stampBase.Unix()
	if d < 0 {
		return int(int64(n.Client) - clientBase)
	}
	return int(d / 10000)
}

// step of a connection.
type step struct {
	op  byte // 'd' dial, 'f' feed, 's' release a save, 'w' let writes through, 'r' reset, 'e' end of stream
	seg []byte
}

// stepsOf is the sequence of steps that takes a packet through the server.
func stepsOf(b []byte, exp PktExp, cuts ...int) []step {
	var out []step
	last := 0
	for _, x := range append(cuts, len(b)) {
		out = append(out, step{'f', b[last:x]})
		last = x
	}
	for range exp.Saves {
		out = append(out, step{'s', nil})
	}
	if len(exp.Replies) > 0 {
		out = append(out, step{'w', nil})
	}
	return out
}

// unrank gives the i-th interleaving of sequences of the given lengths.
func unrank(i uint64, n []int) []int {
	left := append([]int{}, n...)
	tot := 0
	for _, x := range n {
		tot += x
	}
	var out []int
	for len(out) < tot {
		for k := range left {
			if left[k] == 0 {
				continue
			}
			left[k]--
			m := multinomial(left)
			if i < m {
				out = append(out, k)
				break
			}
			i -= m
			left[k]++
		}
	}
	return out
}

func multinomial(n []int) uint64 {
	m, tot := uint64(1), 0
	for _, x := range n {
		for j := 1; j <= x; j++ {
			tot++
			m = m * uint64(tot) / uint64(j)
		}
	}
	return m
}

// interleave runs one interleaving of the steps of several connections and compares each connection with what it
// would have got alone, as soon as its own steps are done.
func interleave(c *mc.C, bytes [][]byte, steps [][]step, dialFirst bool, i uint64) {
	n := make([]int, len(steps))
	for k := range steps {
		n[k] = len(steps[k])
	}
	order := unrank(i, n)
	Bubble(func() {
		e := NewEnv(0, 1)
		st := e.Stores[0]
		st.Gate()
		cn := make([]*Conn, len(steps))
		dial := func(k int) { cn[k] = e.Dial(); cn[k].Gate(true) }
		if dialFirst {
			for k := range cn {
				dial(k)
			}
		}
		pos := make([]int, len(steps))
		var owner []int // connection of each save, by identifier
		for _, k := range order {
			s := steps[k][pos[k]]
			pos[k]++
			switch s.op {
			case 'd':
				dial(k)
			case 'f':
				cn[k].Send(s.seg)
			case 's':
				sv := e.saveEvents()
				for len(owner) < len(sv) {
					owner = append(owner, ownerOf(parseNav(sv[len(owner)].Data)))
				}
				for _, id := range st.Waiting() {
					if id < len(owner) && owner[id] == k {
						st.Release(id)
						break
					}
				}
				e.Wait()
			case 'w':
				cn[k].Gate(false)
				e.Wait()
				cn[k].Gate(true)
			case 'r':
				cn[k].Reset()
			case 'e':
				cn[k].EOF()
			}
			c.Op(1)
			if pos[k] == len(steps[k]) && s.op != 'r' && s.op != 'e' {
				ctx := fmt.Sprintf("connection %d of %d, order of steps %v", k, len(steps), order)
				compare(c, e, cn[k], e.savesOf(k), Model(bytes[k]), cmpSaves|cmpReplies|cmpClose, ctx)
			}
		}
		if !c.Failed() {
			for k := range cn {
				if last := steps[k][len(steps[k])-1].op; last == 'r' || last == 'e' {
					// what it stored and was told must be a prefix of what it would have got alone
					all := Model(bytes[k])
					got, want := e.savesOf(k), all.Saves()
					if len(got) > len(want) {
						c.Failf("connection %d, order %v: %d records stored instead of at most %d", k, order, len(got), len(want))
					}
					for j := range got {
						if j < len(want) && SameNav(got[j], want[j]) != "" {
							c.Failf("connection %d, order %v: stored record %d: %s", k, order, j, SameNav(got[j], want[j]))
						}
					}
					continue
				}
				compare(c, e, cn[k], e.savesOf(k), Model(bytes[k]), cmpSaves|cmpReplies|cmpClose, fmt.Sprintf("connection %d of %d at the end, order of steps %v", k, len(steps), order))
			}
			for _, v := range e.Log() {
				if v.Kind == "save" {
					if x := ownerOf(parseNav(v.Data)); x < 0 || x >= len(cn) {
						c.Failf("order of steps %v: stored a record nobody sent: %s", order, v.Data)
					}
				}
				if v.Kind == "changed" {
					c.Failf("order of steps %v: what was being saved or written changed meanwhile, now %q", order, v.Data)
				}
			}
		}
		if !c.Failed() {
			c.State('i', []byte(fmt.Sprint(order, hexes(join(bytes...)))))
			c.Outcome("as if alone")
		}
		c.Describe("order of steps %v; streams %x", order, bytes)
		e.Finish()
	})
}

func (e *Env) saveEvents() []Event {
	var out []Event
	for _, v := range e.Log() {
		if v.Kind == "save" {
			out = append(out, v)
		}
	}
	return out
}

func (e *Env) savesOf(k int) []Nav {
	var out []Nav
	for _, v := range e.saveEvents() {
		if n := parseNav(v.Data); ownerOf(n) == k {
			out = append(out, n)
		}
	}
	return out
}

func pow(b, n int) uint64 {
	x := uint64(1)
	for ; n > 0; n-- {
		x *= uint64(b)
	}
	return x
}

// script makes the bytes and steps of a connection from kinds.
func script(k int, ks []int, dial bool, same int, cuts func(n int) []int) ([]byte, []step) {
	sameIDs = same
	defer func() { sameIDs = 0 }()
	var all []byte
	for n, x := range ks {
		all = append(all, ckinds[x].mk(k, n)...)
	}
	exp := Model(all)
	var st []step
	if dial {
		st = append(st, step{'d', nil})
	}
	for _, p := range exp.Pkts {
		var cu []int
		if cuts != nil {
			cu = cuts(p.End - p.Start)
		}
		st = append(st, stepsOf(all[p.Start:p.End], p, cu...)...)
	}
	return all, st
}

// combos is a space over several assignments of kinds, each with all interleavings of its steps.
func combos(name string, n uint64, mk func(j uint64) (bytes [][]byte, steps [][]step, dialFirst bool)) mc.Space {
	off := make([]uint64, n+1)
	for j := uint64(0); j < n; j++ {
		_, st, _ := mk(j)
		l := make([]int, len(st))
		for k := range st {
			l[k] = len(st[k])
		}
		off[j+1] = off[j] + multinomial(l)
	}
	return mc.Space{Name: name, N: off[n], Do: func(c *mc.C, i uint64) {
		lo, hi := uint64(0), n
		for hi-lo > 1 {
			m := (lo + hi) / 2
			if off[m] <= i {
				lo = m
			} else {
				hi = m
			}
		}
		b, st, d := mk(lo)
		interleave(c, b, st, d, i-off[lo])
	}}
}

func eventSpaces(th bool) []mc.Space {
	var out []mc.Space
	two := 4
	if th {
		two = len(ckinds)
	}
	// two connections with two packets each
	out = append(out, combos("events/2x2", pow(two, 4), func(j uint64) ([][]byte, [][]step, bool) {
		var x [4]int
		for k := range x {
			x[k] = int(j % uint64(two))
			j /= uint64(two)
		}
		same := (x[0] + x[1] + x[2] + x[3]) % 3
		a, sa := script(0, x[:2], false, same, nil)
		b, sb := script(1, x[2:], false, same, nil)
		return [][]byte{a, b}, [][]step{sa, sb}, true
	}))
	// three connections with a packet each
	three := 5
	if th {
		three = 7
	}
	out = append(out, combos("events/3x1", pow(three, 3), func(j uint64) ([][]byte, [][]step, bool) {
		var bs [][]byte
		var ss [][]step
		same := 2 - int(j%2)
		for k := 0; k < 3; k++ {
			b, s := script(k, []int{int(j % uint64(three))}, false, same, nil)
			j /= uint64(three)
			bs, ss = append(bs, b), append(ss, s)
		}
		return bs, ss, true
	}))
	// two connections, dialled at any time, packets in two or three segments
	nk := uint64(len(ckinds))
	cutsets := [][2]func(n int) []int{
		{func(n int) []int { return []int{5} }, func(n int) []int { return []int{10} }},
		{func(n int) []int { return []int{10} }, func(n int) []int { return []int{n - 1} }},
		{func(n int) []int { return []int{11, n - 2} }, func(n int) []int { return []int{1, 10} }},
		{func(n int) []int { return []int{n / 2} }, func(n int) []int { return []int{9, n / 2, n - 3} }},
	}
	out = append(out, combos("events/segments", nk*nk*uint64(len(cutsets)), func(j uint64) ([][]byte, [][]step, bool) {
		cs := cutsets[j%uint64(len(cutsets))]
		same := int(j % 3)
		j /= uint64(len(cutsets))
		a, sa := script(0, []int{int(j % nk)}, true, same, cs[0])
		b, sb := script(1, []int{int(j / nk)}, true, same, cs[1])
		return [][]byte{a, b}, [][]step{sa, sb}, false
	}))
	// one connection breaks or ends at any step while another goes through two packets
	type brk struct {
		b []byte
		s []step
	}
	var brks []brk
	for x := range ckinds {
		b, s := script(0, []int{x, (x + 1) % len(ckinds)}, false, 1, func(n int) []int { return []int{n / 2} })
		for m := 0; m <= len(s); m++ {
			for _, op := range []byte{'r', 'e'} {
				brks = append(brks, brk{b, append(append([]step{}, s[:m]...), step{op, nil})})
			}
		}
	}
	bk := 2
	if th {
		bk = len(ckinds)
	}
	out = append(out, combos("events/broken", uint64(len(brks)*bk), func(j uint64) ([][]byte, [][]step, bool) {
		x := brks[int(j)/bk]
		b, sb := script(1, []int{int(j) % bk, (int(j) + 2) % bk}, false, 1, nil)
		return [][]byte{x.b, b}, [][]step{x.s, sb}, true
	}))
	// many connections that are stuck in some way must not keep another from being served
	ns := []int{2, 9, 40, 150, 1100}
	if th {
		ns = append(ns, 5000)
	}
	stuck := []string{"idle", "inside a header", "inside a body", "saving", "replying", "broken", "ended"}
	out = append(out, mc.Space{Name: "events/many", N: uint64(len(ns) * len(stuck) * len(ckinds)), Do: func(c *mc.C, i uint64) {
		kind := int(i) % len(ckinds)
		i /= uint64(len(ckinds))
		many(c, ns[int(i)/len(stuck)], stuck[int(i)%len(stuck)], kind)
	}})
	return out
}

// many opens n connections, leaves them stuck, serves a packet on another, and lets the others continue.
func many(c *mc.C, n int, how string, kind int) {
	Bubble(func() {
		e := NewEnv(time.Hour, 1)
		st := e.Stores[0]
		if how == "saving" {
			st.Gate()
		}
		cs := make([]*Conn, n)
		bs := make([][]byte, n)
		for k := range cs {
			bs[k] = ckinds[0].mk(k%15, k/15)
			cs[k] = e.NewConn()
			cs[k].Gate(how == "replying")
			e.L.push(cs[k], nil)
			switch how {
			case "inside a header":
				cs[k].Feed(bs[k][:7])
			case "inside a body":
				cs[k].Feed(bs[k][:20])
			case "saving", "replying":
				cs[k].Feed(bs[k])
			}
		}
		e.Wait()
		if how == "broken" || how == "ended" {
			for _, x := range cs {
				x.mu.Lock()
				if how == "broken" {
					x.rerr = fmt.Errorf("connection reset by peer")
				} else {
					x.eof = true
				}
				x.cond.Broadcast()
				x.mu.Unlock()
			}
			e.Wait()
		}
		const me = 400 // owner of the other connection's records
		x := e.Dial()
		b := ckinds[kind].mk(me, 0)
		x.Send(b)
		exp := Model(b)
		if how == "saving" {
			for r := 0; r < 1+len(exp.Saves()); r++ {
				sv := e.saveEvents()
				for _, id := range st.Waiting() {
					if id < len(sv) && ownerOf(parseNav(sv[id].Data)) == me {
						st.Release(id)
					}
				}
				e.Wait()
			}
		}
		c.Op(n + 1)
		compare(c, e, x, e.savesOf(me), exp, cmpSaves|cmpReplies|cmpClose, fmt.Sprintf("a connection next to %d others that are %s", n, how))
		if !c.Failed() && how != "broken" && how != "ended" {
			// the others continue
			if how == "saving" {
				st.mu.Lock()
				st.gated = false
				st.cond.Broadcast()
				st.mu.Unlock()
			}
			for k, y := range cs {
				y.Gate(false)
				switch how {
				case "idle":
					y.Feed(bs[k])
				case "inside a header":
					y.Feed(bs[k][7:])
				case "inside a body":
					y.Feed(bs[k][20:])
				}
			}
			e.Wait()
			got := map[int64]bool{}
			for _, v := range e.saveEvents() {
				got[parseNav(v.Data).NavT] = true
			}
			for k, y := range cs {
				w := Model(bs[k])
				if !got[w.Saves()[0].NavT] {
					c.Failf("%d connections that were %s: nothing was stored for connection %d", n, how, k)
					break
				}
				compare(c, e, y, nil, w, cmpReplies|cmpClose, fmt.Sprintf("connection %d of %d that were %s", k, n, how))
			}
			if !c.Failed() {
				c.State('m', []byte(fmt.Sprint(n, how, kind)))
				c.Outcome("as if alone")
			}
		}
		c.Describe("a packet %s next to %d connections that are %s", ckinds[kind].name, n, how)
		e.Finish()
	})
}

// ---- statement-level schedules of codec calls -----------------------------------------------------------

// baton lets one of two tasks run at a time and hands over at given scheduling points.
type baton struct {
	mu   sync.Mutex
	cur  int
	left int
	pts  []int
	wake [2]chan struct{}
	done [2]bool
	free bool
	n    int
	fin  chan struct{}
}

var bt *baton

// stuck counts schedules that were not feasible: a task waited for one that was held (for a lock, say). When there
// are many, they are given up sooner.
var stuck int

func codecYield() {
	b := bt
	if b == nil || b.free {
		return
	}
	b.n++
	b.left--
	if b.left == 0 {
		b.mu.Lock()
		me := b.cur
		other := 1 - me
		b.next()
		if b.done[other] || b.free {
			b.mu.Unlock()
			return
		}
		b.cur = other
		b.mu.Unlock()
		b.wake[other] <- struct{}{}
		<-b.wake[me]
	}
}

func (b *baton) next() {
	if len(b.pts) > 0 {
		b.left = b.pts[0]
		b.pts = b.pts[1:]
	} else {
		b.left = -1
	}
}

func (b *baton) task(me int, run func()) {
	<-b.wake[me]
	defer func() {
		b.mu.Lock()
		b.done[me] = true
		other := 1 - me
		d := b.done[other]
		b.left = -1 // no preemption when only one is left
		b.cur = other
		b.mu.Unlock()
		if d {
			close(b.fin)
		} else {
			b.wake[other] <- struct{}{}
		}
	}()
	run()
}

// schedule runs two tasks: the first for pts[0] scheduling points, then the second for pts[1], and so on. It
// returns the number of scheduling points passed, and whether the schedule was feasible.
func schedule(run [2]func(), pts ...int) (int, bool) {
	b := &baton{pts: pts, fin: make(chan struct{})}
	b.wake[0], b.wake[1] = make(chan struct{}, 1), make(chan struct{}, 1)
	b.next()
	bt = b
	go b.task(0, run[0])
	go b.task(1, run[1])
	b.wake[0] <- struct{}{}
	ok := true
	wait := 2 * time.Second
	if stuck > 20 {
		wait = 20 * time.Millisecond
	}
	select {
	case <-b.fin:
	case <-time.After(wait): // the running task waits for the one that is held: let both run
		ok = false
		stuck++
		b.mu.Lock()
		b.free = true
		b.mu.Unlock()
		for k := range b.wake {
			select {
			case b.wake[k] <- struct{}{}:
			default:
			}
		}
		<-b.fin2()
	}
	bt = nil
	return b.n, ok
}

// fin2 waits for both tasks when they run freely.
func (b *baton) fin2() chan struct{} {
	ch := make(chan struct{})
	go func() {
		for {
			b.mu.Lock()
			d := b.done[0] && b.done[1]
			b.mu.Unlock()
			if d {
				close(ch)
				return
			}
			for k := range b.wake {
				select {
				case b.wake[k] <- struct{}{}:
				default:
				}
			}
			time.Sleep(time.Millisecond)
		}
	}()
	return ch
}

func yieldsOf(op conc.Op, v int) (int, string) {
	run, dig := op.Prep(v)
	b := &baton{left: -1}
	bt = b
	run()
	bt = nil
	return b.n, dig()
}

func codecSpaces(th bool) []mc.Space {
	SetYield(codecYield, 1|4)
	ops := conc.Ops()
	m := len(ops)
	// results alone, by variant
	alone := make([][2]string, m)
	ny := make([][2]int, m)
	for k, o := range ops {
		for v := 0; v < 2; v++ {
			ny[k][v], alone[k][v] = yieldsOf(o, v)
		}
	}
	judge := func(c *mc.C, a, b int, pts ...int) {
		r1, d1 := ops[a].Prep(0)
		r2, d2 := ops[b].Prep(1)
		_, ok := schedule([2]func(){r1, r2}, pts...)
		c.Op(2)
		c.Describe("%s || %s, hand-over after %v statements", ops[a].Name, ops[b].Name, pts)
		if g := d1(); g != alone[a][0] {
			c.Failf("%s, interrupted by %s after %v statements, gives\n%s\nalone\n%s", ops[a].Name, ops[b].Name, pts, g, alone[a][0])
		} else if g := d2(); g != alone[b][1] {
			c.Failf("%s, run when %s was interrupted after %v statements, gives\n%s\nalone\n%s", ops[b].Name, ops[a].Name, pts, g, alone[b][1])
		}
		if !ok {
			c.Outcome("schedule not feasible")
			return
		}
		c.Trace()
		c.State('y', []byte(fmt.Sprint(a, b, pts)))
		c.Outcome("as if alone")
	}
	var out []mc.Space
	// results do not change when other operations run later, or the caller reuses its buffers
	spoils := []func(b []byte){func(b []byte) {
		for k := range b {
			b[k] = 0
		}
	}, func(b []byte) {
		for k := range b {
			b[k] ^= 0xFF
		}
	}, func(b []byte) {
		for k := range b {
			b[k] = byte(k*7 + 1)
		}
	}}
	out = append(out, mc.Space{Name: "kept", N: uint64(m * m * 2 * 2 * len(spoils)), Do: func(c *mc.C, i uint64) {
		a, b := int(i)%m, int(i)/m%m
		x := int(i) / m / m
		va, vb, sp := x%2, x/2%2, spoils[x/4]
		c.Describe("%s %d, then the caller's buffers are overwritten (%d) and %s %d runs", ops[a].Name, va, x/4, ops[b].Name, vb)
		o1, o2, o3 := ops[a].Own(va), ops[b].Own(vb), ops[a].Own(va)
		in := ""
		if o1.Input != nil {
			in = string(o1.Input())
		}
		o1.Run()
		if o1.Input != nil && string(o1.Input()) != in {
			c.Failf("%s changes its input: %x instead of %x", ops[a].Name, o1.Input(), in)
			return
		}
		d1 := o1.Digest()
		if d1 != alone[a][va] {
			c.Failf("%s gives\n%s\nalone\n%s", ops[a].Name, d1, alone[a][va])
			return
		}
		if !o1.Keeps { // an encoded packet stays while others are encoded
			o2.Run()
			if g := o1.Digest(); g != d1 {
				c.Failf("the result of %s becomes\n%s\ninstead of\n%s\nwhen %s runs later", ops[a].Name, g, d1, ops[b].Name)
				return
			}
			sp(o1.Buf())
		} else {
			sp(o1.Buf())
			o2.Run()
			if g := o1.Digest(); g != d1 {
				c.Failf("the result of %s becomes\n%s\ninstead of\n%s\nwhen its buffer is used again and %s runs", ops[a].Name, g, d1, ops[b].Name)
				return
			}
		}
		if g := o2.Digest(); g != alone[b][vb] {
			c.Failf("%s, after %s, gives\n%s\nalone\n%s", ops[b].Name, ops[a].Name, g, alone[b][vb])
			return
		}
		o3.Run()
		if g := o3.Digest(); g != d1 {
			c.Failf("%s, after %s and %s, gives\n%s\nalone\n%s", ops[a].Name, ops[a].Name, ops[b].Name, g, d1)
			return
		}
		c.Op(3)
		c.State('k', []byte(fmt.Sprint(a, b, x)))
		c.Outcome("results stay")
	}})
	for a := range ops {
		a := a
		n := uint64(ny[a][0] + 2) // 0: before everything; the last: after it is done
		with := make([]int, 0, m) // the operations that run at the hand-over
		for b := range ops {
			if th || n < 3000 || b == a || b == a^1 || b < 2 {
				with = append(with, b)
			}
		}
		w := uint64(len(with))
		out = append(out, mc.Space{Name: "statements/1/" + ops[a].Name, N: n * w, Do: func(c *mc.C, i uint64) {
			judge(c, a, with[i%w], int(i/w)+1)
		}})
	}
	// two hand-overs: with itself and the next operations of the list
	near := 2
	if th {
		near = m
	}
	for a := range ops {
		for d := 0; d < near; d++ {
			a, b := a, (a+d)%m
			if !th && ny[a][0]*ny[b][1] > 40000 {
				continue
			}
			n1, n2 := uint64(ny[a][0]), uint64(ny[b][1])
			out = append(out, mc.Space{Name: "statements/2/" + ops[a].Name + "/" + ops[b].Name, N: n1 * n2, Do: func(c *mc.C, i uint64) {
				judge(c, a, b, int(i%n1)+1, int(i/n1)+1)
			}})
		}
	}
	return out
}

// ---- statement-level schedules of connections -----------------------------------------------------------

// hold holds back handlers at scheduling points: a handler that passes point number `at` waits.
type hold struct {
	mu    sync.Mutex
	ev    chan struct{}
	count int
	at    int // hold at this count (0: never)
	held  []chan struct{}
}

func newHold() *hold { return &hold{ev: make(chan struct{}, 1)} }

func (h *hold) poke() {
	select {
	case h.ev <- struct{}{}:
	default:
	}
}

var hd *hold

func srvYield() {
	h := hd
	if h == nil {
		return
	}
	h.mu.Lock()
	h.count++
	if h.at == 0 || h.count != h.at {
		h.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	h.held = append(h.held, ch)
	h.at = 0
	h.mu.Unlock()
	h.poke()
	<-ch
}

func (h *hold) nheld() int {
	h.mu.Lock()
	defer h.mu.Unlock()
	return len(h.held)
}

// countPackets counts the complete packets in b by their lengths.
func countPackets(b []byte) int {
	n := 0
	for len(b) >= 11 {
		l := int(b[3])
		if f := int(b[5]) | int(b[6])<<8; f > 0 {
			l += f + 2
		}
		if l < 11 || l > len(b) {
			break
		}
		b = b[l:]
		n++
	}
	return n
}

// calm waits until a connection has nothing to do and has sent its replies, or more than n handlers are held;
// false: that takes too long, so the handler waits for one that is held.
func (h *hold) calm(cn *Conn, replies, n int) bool {
	var end <-chan time.Time
	wait := 500 * time.Millisecond
	if stuck > 20 {
		wait = 20 * time.Millisecond
	}
	for {
		if h.nheld() > n {
			return true
		}
		cn.mu.Lock()
		ok := cn.closed || cn.idle && len(cn.segs) == 0 && countPackets(cn.out) >= replies
		cn.mu.Unlock()
		if ok {
			return true
		}
		if end == nil {
			end = time.After(wait)
		}
		select {
		case <-h.ev:
		case <-end:
			stuck++
			return false
		}
	}
}

// connSchedule: connection 0 is held after p0 scheduling points of its packet, connection 1 runs its packet (held
// after p1 points if p1 > 0), then 0 continues to its end, then 1. It returns the scheduling points connection 0
// passed.
func connSchedule(c *mc.C, warm bool, ka, kb int, p0, p1 int) int {
	h := newHold()
	settle = func() {}
	hd = nil
	env := newFreeEnv(h.poke)
	cs := [2]*Conn{env.dialFree(), env.dialFree()}
	all := [2][]byte{}
	ok := true
	if warm {
		for k, x := range cs {
			all[k] = ckinds[2].mk(k, 0)
			x.Feed(all[k])
			ok = h.calm(x, 2, 0) && ok
		}
	}
	pk := [2][]byte{ckinds[ka].mk(0, 1), ckinds[kb].mk(1, 1)}
	want := [2]int{}
	for k := range pk {
		all[k] = append(all[k], pk[k]...)
		want[k] = len(Model(all[k]).Replies())
	}
	h.at = p0
	hd = h
	cs[0].Feed(pk[0])
	ok = h.calm(cs[0], want[0], 0) && ok
	h.mu.Lock()
	n0 := h.count
	nh := len(h.held)
	h.count, h.at = 0, p1
	h.mu.Unlock()
	cs[1].Feed(pk[1])
	ok = h.calm(cs[1], want[1], nh) && ok
	h.mu.Lock()
	h.at = 0
	held := h.held
	h.held = nil
	h.mu.Unlock()
	for k, ch := range held {
		close(ch)
		if k < len(held)-1 {
			ok = h.calm(cs[0], want[0], 0) && ok
		}
	}
	ok = h.calm(cs[0], want[0], 0) && ok
	ok = h.calm(cs[1], want[1], 0) && ok
	hd = nil // what follows uses the codec itself
	c.Op(2)
	for k := range cs {
		compare(c, env, cs[k], env.savesOf(k), Model(all[k]), cmpSaves|cmpReplies|cmpClose, fmt.Sprintf("connection %d, packets %s and %s, held after %d and %d statements", k, ckinds[ka].name, ckinds[kb].name, p0, p1))
	}
	c.Describe("packets %s and %s (after an identification: %v), held after %d and %d statements", ckinds[ka].name, ckinds[kb].name, warm, p0, p1)
	env.finishFree()
	if ok {
		c.State('z', []byte(fmt.Sprint(warm, ka, kb, p0, p1)))
		c.Trace()
		c.Outcome("as if alone")
	} else {
		c.Outcome("schedule not feasible")
	}
	return n0
}

func newFreeEnv(poke func()) *Env {
	e := &Env{start: time.Now(), Repo: newRepo(), poke: poke}
	s := &Store{e: e}
	e.Stores = []*Store{s}
	e.Repo.AddStore(s)
	return e.run(0)
}

func until(f func() bool) {
	for k := 0; k < 20000 && !f(); k++ {
		if k > 100 {
			time.Sleep(20 * time.Microsecond)
		} else {
			yieldOS()
		}
	}
}

func (e *Env) dialFree() *Conn {
	c := e.NewConn()
	e.L.push(c, nil)
	until(func() bool {
		c.mu.Lock()
		defer c.mu.Unlock()
		return c.idle
	})
	return c
}

func (e *Env) finishFree() {
	for _, c := range e.Conns {
		c.mu.Lock()
		c.rerr = fmt.Errorf("connection reset by peer")
		c.werr = c.rerr
		c.cond.Broadcast()
		c.mu.Unlock()
	}
	_ = e.L.Close()
	until(func() bool {
		for _, c := range e.Conns {
			if x, _ := c.Closed(); !x {
				return false
			}
		}
		e.mu.Lock()
		defer e.mu.Unlock()
		return e.ran
	})
}

func connSpaces(th bool) []mc.Space {
	var out []mc.Space
	nk := len(ckinds)
	few := []int{0, 2, 3, 4}
	if th {
		few = nil
		for k := 0; k < nk; k++ {
			few = append(few, k)
		}
	}
	count := func(where int, warm bool, k int) int {
		SetYield(srvYield, where)
		return connSchedule(mc.Probe(), warm, k, 5, 0, 0)
	}
	for _, warm := range []bool{false, true} {
		warm := warm
		for ka := 0; ka < nk; ka++ { // one hand-over at any statement of codec, server and storage
			ka := ka
			if warm && !th {
				continue
			}
			n0 := count(7, warm, ka)
			out = append(out, mc.Space{Name: fmt.Sprintf("handlers/1/%s/%v", ckinds[ka].name, warm), N: uint64(n0 * nk), Do: func(c *mc.C, i uint64) {
				SetYield(srvYield, 7)
				connSchedule(c, warm, ka, int(i)%nk, int(i)/nk+1, 0)
			}})
		}
		for _, ka := range few { // two hand-overs at statements of server and storage
			n0 := count(6, warm, ka)
			for _, kb := range few {
				if warm && !th {
					continue
				}
				ka, kb := ka, kb
				n1 := count(6, warm, kb)
				out = append(out, mc.Space{Name: fmt.Sprintf("handlers/2/%s/%s/%v", ckinds[ka].name, ckinds[kb].name, warm), N: uint64(n0 * n1), Do: func(c *mc.C, i uint64) {
					SetYield(srvYield, 6)
					connSchedule(c, warm, ka, kb, int(i)%n0+1, int(i)/n0+1)
				}})
			}
		}
	}
	return out
}

// ---- race-free pairs ------------------------------------------------------------------------------------

// raceSpaces: every pair of operations, and of packets on two connections, runs concurrently under the race
// detector without any synchronisation between them. If there is no conflicting unsynchronised access, every
// interleaving of the two is equivalent to that execution.
func raceSpaces(th bool) []mc.Space {
	bin := filepath.Join(os.Getenv("VERIF_SCRATCH"), "race")
	run := func(c *mc.C, args ...string) {
		cmd := exec.Command(bin, args...)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
		b, err := cmd.CombinedOutput()
		mc.Beat()
		if err != nil {
			c.Failf("concurrent executions %v: %v\n%s", args, err, tail(string(b)))
			return
		}
		var r struct{ Pairs int }
		if json.Unmarshal(b, &r) != nil || r.Pairs == 0 {
			c.Failf("harness: race runner said %q", tail(string(b)))
			return
		}
		c.Op(2 * r.Pairs)
		c.Trace()
		c.State('q', []byte(strings.Join(args, " ")))
		c.Outcome("no conflicting access")
	}
	reps := 1
	if th {
		reps = 5
	}
	n := len(conc.Ops())
	return []mc.Space{
		{Name: "race/codec", N: uint64(n * reps), Do: func(c *mc.C, i uint64) { run(c, "codec", fmt.Sprint(int(i)%n)) }},
		{Name: "race/server", N: uint64(len(ckinds) * reps), Do: func(c *mc.C, i uint64) { run(c, "server", fmt.Sprint(int(i)%len(ckinds))) }},
	}
}

func tail(s string) string {
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func init() {
	Checks["C13"] = func() mc.Check {
		return mc.Check{Assume: assume, Bound: "two operations of the codec one after the other, the caller overwriting the first one's buffers between them; two operations of the codec (44 of them: every subrecord type and packet form, encode and decode, and storing a record), one handing over to any other before any of its statements, short ones with a second hand-over back before any statement of the other; two connections of a real server with any statement of codec, server and storage as hand-over (any pair of 8 kinds of packet), or any pair of statements of server and storage as hand-over there and back (4 kinds); all interleavings of the steps (connect, segment arrives, save ends, reply accepted, break, end of stream) of two connections with two packets each (4 kinds, thorough 8; in turn with different numbers, with equal packet and record numbers, and with nothing different but the object), of three with one each (5 kinds, thorough 7), of two with segmented packets and any connect time, and of one breaking at any step; up to 1100 (thorough 5000) connections stuck in seven ways next to one that is served; every pair of operations and of packet kinds on three connections without synchronisation under the race detector", Spaces: func(tier string) []mc.Space {
			th := tier == "thorough"
			var out []mc.Space
			wrap := func(sp []mc.Space, set func()) {
				for _, s := range sp {
					s := s
					do := s.Do
					s.Do = func(c *mc.C, i uint64) { set(); do(c, i) }
					out = append(out, s)
				}
			}
			off := func() { SetYield(func() {}, 7); settle = bubbleSettle }
			wrap(codecSpaces(th), func() { SetYield(codecYield, 1|4) })
			wrap(connSpaces(th), func() {})
			wrap(eventSpaces(th), off)
			wrap(raceSpaces(th), off)
			return out
		}}
	}
}
