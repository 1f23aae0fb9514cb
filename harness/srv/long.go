package srv

import (
	"fmt"
	"time"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"verifharness/gen"
	"verifharness/mc"
	"verifharness/ref"
)

// Long histories: what a server counts, caches or remembers shows only after many packets or connections.

// longStream runs one connection with n packets, one per segment or glued in fives.
func longStream(c *mc.C, what, n int, mk func(j int) []byte) {
	e := NewEnv(ttl, 1)
	k := e.Dial()
	var all []byte
	for j := 0; j < n; j++ {
		b := mk(j)
		k.Send(b)
		all = append(all, b...)
	}
	exp := Model(all)
	compare(c, e, k, e.Saves(0), exp, what, fmt.Sprintf("%d packets", n))
	if !c.Failed() {
		c.State('L', all)
		c.Outcome(fmt.Sprintf("a history of %d packets", n))
	}
	e.Finish()
}

// longSpace: the same kind all the time; each kind in turn; one kind with a single other one late in the history.
func longSpace(what, n int, ks []kind) mc.Space {
	nk := uint64(len(ks))
	return mc.Space{Name: "long", N: nk*3 + nk*nk, Do: func(c *mc.C, i uint64) {
		switch {
		case i < nk:
			c.Describe("%d packets %s with numbers of their own", n, ks[i].name)
			longStream(c, what, n, func(j int) []byte { return ks[i].mk(uint16(j)) })
		case i < 2*nk:
			c.Describe("%d packets %s with the same number", n, ks[i-nk].name)
			longStream(c, what, n, func(j int) []byte { return ks[i-nk].mk(77) })
		case i < 3*nk:
			c.Describe("%d packets of all kinds in turn, the %dth first", n, i-2*nk)
			longStream(c, what, n, func(j int) []byte { return ks[(uint64(j)+i)%nk].mk(uint16(65535 - j)) })
		default:
			i -= 3 * nk
			a, b := ks[i%nk], ks[i/nk]
			c.Describe("%d packets %s, then %s, then %s", n/4, a.name, b.name, a.name)
			longStream(c, what, n/4+2, func(j int) []byte {
				if j == n/4 {
					return b.mk(uint16(j))
				}
				return a.mk(uint16(j))
			})
		}
	}}
}

// veryLong: what a connection counts in 16 bits, in thousands or in megabytes.
func veryLong(what int, ks []kind) mc.Space {
	return mc.Space{Name: "very long", N: uint64(len(ks)) + 3, Do: func(c *mc.C, i uint64) {
		nk := len(ks)
		switch {
		case i < uint64(nk):
			c.Describe("3000 packets %s", ks[i].name)
			longStream(c, what, 3000, func(j int) []byte { return ks[i].mk(uint16(j)) })
		case i == uint64(nk):
			c.Describe("70000 packets with a position each")
			longStream(c, what, 70000, func(j int) []byte { return posOID(uint16(j), uint16(j), uint32(j), j%8) })
		case i == uint64(nk)+1:
			c.Describe("70000 packets of all kinds in turn")
			longStream(c, what, 70000, func(j int) []byte { return ks[j%nk].mk(uint16(j)) })
		default:
			c.Describe("600 packets of 3000 to 63000 bytes")
			longStream(c, what, 600, func(j int) []byte {
				var rs []egts.ServiceDataRecord
				for k := 0; k < 2000*(1+j%20)/28; k++ {
					rs = append(rs, gen.WithSub(gen.RecF(1, uint16(k), uint32(j), 0, 0, 2, 2), gen.SubT(16, k)))
				}
				return bytesOf(withPID(gen.Pack(rs...), uint16(j)))
			})
		}
	}}
}

// connections one after the other: each with its own way to end; the last is an ordinary one.
func sequelSpace(n int) mc.Space {
	ends := []string{"end of stream", "reset", "end inside a packet", "reset inside a packet", "closed by the server", "nothing sent, end", "nothing sent, reset", "idle"}
	return mc.Space{Name: "connections in sequence", N: uint64(len(ends)*2 + 1), Do: func(c *mc.C, i uint64) {
		e := NewEnv(ttl, 1)
		good := func(j int) []byte { return posOID(uint16(j), 2, uint32(j), 2) }
		for j := 0; j < n && !c.Failed(); j++ {
			how := int(i) / 2
			if int(i) == len(ends)*2 {
				how = j % len(ends)
			}
			k := e.Dial()
			s := e.SaveCount(0)
			var all []byte
			send := func(b []byte) { all = append(all, b...); k.Send(b) }
			if how < 5 || how == 7 {
				send(good(j))
				if i%2 == 1 {
					send(bads[j%len(bads)].mk(uint16(j)))
				}
			}
			switch how {
			case 0, 5:
				k.EOF()
			case 1, 6:
				k.Reset()
			case 2:
				k.Send(good(j)[:5+j%20])
				k.EOF()
			case 3:
				k.Send(good(j)[:5+j%20])
				k.Reset()
			case 4:
				send(closers[j%len(closers)].mk(uint16(j)))
			case 7:
				e.Sleep(ttl + slack)
			}
			compare(c, e, k, e.SavesFrom(0, s), Model(all), cmpSaves|cmpReplies, fmt.Sprintf("connection %d of those that end by %q", j, ends[how]))
		}
		k := e.Dial()
		s := e.SaveCount(0)
		k.Send(good(7))
		compare(c, e, k, e.SavesFrom(0, s), Model(good(7)), cmpAll, fmt.Sprintf("a connection after %d others", n))
		if !c.Failed() {
			c.State('q', []byte{byte(i)})
			c.Outcome(fmt.Sprintf("%d connections in sequence", n))
		}
		e.Finish()
	}}
}

// reuseSpace: a later connection comes from the address of an earlier one.
func reuseSpace() mc.Space {
	nk := uint64(len(kinds))
	return mc.Space{Name: "reused address", N: nk * nk * 4, Do: func(c *mc.C, i uint64) {
		a, b, how := kinds[i%nk], kinds[i/nk%nk], i/nk/nk
		e := NewEnv(ttl, 1)
		c.Describe("%s, end %d, then %s from the same address", a.name, how, b.name)
		first := e.NewConn()
		e.Connect(first)
		p := a.mk(5)
		first.Send(p)
		switch how {
		case 0:
			first.EOF()
		case 1:
			first.Reset()
		case 2:
			first.Send(closers[0].mk(9))
		case 3:
			first.Send(posOID(9, 9, 9, 2)[:17])
			first.EOF()
		}
		e.Sleep(ttl + slack)
		n := e.SaveCount(0)
		second := e.NewConn()
		second.port = first.port
		e.Connect(second)
		q := join(b.mk(5), posOnly(6, 7, 1))
		second.Send(q)
		compare(c, e, second, e.SavesFrom(0, n), Model(q), cmpAll, "connection from a used address")
		if !c.Failed() {
			c.State('u', q)
			c.Outcome("address used again")
		}
		e.Finish()
	}}
}

// failingLong: a store that fails for long stretches gets every record nevertheless, and so do the others.
func failingLong(n int) mc.Space {
	lens := []int{1, 2, 3, 5, 8, 16, 33, 70, 150}
	return mc.Space{Name: "long failures", N: uint64(3 * 3 * len(lens) * 3), Do: func(c *mc.C, i uint64) {
		stores, bad, run, period := int(i%3)+1, int(i/3%3), lens[i/9%uint64(len(lens))], int(i/9/uint64(len(lens)))
		if bad >= stores {
			return
		}
		e := NewEnv(ttl, stores)
		fails := func(j int) bool {
			switch period {
			case 0: // once, in the beginning
				return j < run
			case 1: // again and again
				return j%(2*run) < run
			}
			return j%(run+1) != run // one success at a time
		}
		e.Stores[bad].Fail = func(j int) error {
			if fails(j) {
				return fmt.Errorf("store failure")
			}
			return nil
		}
		total := min(3*run+5, n)
		cn := e.Dial()
		var all []byte
		for j := 0; j < total; j++ {
			p := posOID(uint16(j), uint16(60+j), uint32(j), j%8)
			cn.Send(p)
			all = append(all, p...)
		}
		c.Describe("%d stores, store %d fails in runs of %d (mode %d), %d records", stores, bad, run, period, total)
		exp := Model(all)
		for k := range e.Stores {
			compare(c, e, cn, e.Saves(k), exp, cmpSaves|cmpClose, fmt.Sprintf("store %d while store %d fails in runs of %d", k, bad, run))
		}
		got := ParseReplies(cn.Out())
		if !c.Failed() && len(got) != total {
			c.Failf("%d replies instead of %d", len(got), total)
		}
		for j := 0; j < total && !c.Failed(); j++ {
			if len(got[j].Confs) != 1 || got[j].Invalid != "" || (got[j].Confs[0].Status == 0 && got[j].Code == 0) == fails(j) {
				c.Failf("reply to record %d (failed: %v) is %+v", j, fails(j), got[j])
			}
		}
		if !c.Failed() {
			c.State('g', all)
			c.Outcome("long failures")
		}
		e.Finish()
	}}
}

// identity kinds as packets of their own
func idPackets() []kind {
	var out []kind
	for _, x := range idKinds {
		x := x
		out = append(out, kind{x.name, func(pid uint16) []byte {
			return bytesOf(withPID(gen.Pack([]egts.ServiceDataRecord{x.mk(pid)}...), pid))
		}})
	}
	return out
}

// timesSpace: packets that come at different moments of a connection, whole or in two pieces; each record's receive
// time is the time its own packet came in.
func timesSpace() mc.Space {
	gaps := []time.Duration{0, 400 * time.Millisecond, time.Second, 2600 * time.Millisecond, 7 * time.Second, 9500 * time.Millisecond}
	ng := uint64(len(gaps))
	const modes = 6
	return mc.Space{Name: "times", N: ng * ng * ng * modes, Do: func(c *mc.C, i uint64) {
		g := []time.Duration{gaps[i%ng], gaps[i/ng%ng], gaps[i/ng/ng%ng]}
		mode := i / ng / ng / ng
		e := NewEnv(ttl, 1)
		k := []*Conn{e.Dial(), nil}
		k[1] = k[0]
		if mode >= 4 { // two connections in turn; the one that waits keeps sending nothing
			k[1] = e.Dial()
		}
		lo, hi := []time.Time{}, []time.Time{}
		for j := 0; j < 4; j++ {
			if j > 0 {
				e.Sleep(g[j-1])
			}
			cn := k[j%2]
			if cl, _ := cn.Closed(); cl {
				break
			}
			p := posOID(uint16(j), uint16(j), 5, j)
			if j%2 == 1 && mode%4 >= 2 {
				p = bytesOf(withPID(gen.Pack(gen.Rec(1, gen.Sec(16, 0, 1)), gen.Rec(2, gen.Sec(16, 0, 2))), uint16(j)))
			}
			lo = append(lo, time.Now())
			if mode%2 == 1 {
				cut := []int{4, 15, len(p) - 1, 11}[j]
				cn.Send(p[:cut])
				e.Sleep(g[(j+1)%3])
				p = p[cut:]
			}
			cn.Send(p)
			hi = append(hi, time.Now())
			if j%2 == 1 && mode%4 >= 2 {
				lo, hi = append(lo, lo[len(lo)-1]), append(hi, hi[len(hi)-1])
			}
		}
		c.Describe("packets with pauses of %v, mode %d", g, mode)
		got := e.Saves(0)
		if len(got) != len(lo) {
			if mode < 4 {
				c.Failf("%d records stored instead of %d", len(got), len(lo))
			}
			got = nil // a connection that was silent for too long
		}
		for j := range got {
			if t := got[j].RecvT; t < lo[j].Unix() || t > hi[j].Unix()+1 {
				c.Failf("record %d: receive time is %d, its packet came in from %d to %d", j, t, lo[j].Unix(), hi[j].Unix())
			}
		}
		if !c.Failed() {
			c.Trace()
			c.State('t', []byte{byte(i), byte(i >> 8)})
			c.Outcome("packets at different times")
		}
		e.Finish()
	}}
}

// manyRecords: packets of up to the largest number of records; positions in all, in some, in the last ones only.
func manyRecords(what int) mc.Space {
	ns := []int{30, 63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 1023, 1024, 1025, 1900}
	return mc.Space{Name: "many records", N: uint64(len(ns) * 5), Do: func(c *mc.C, i uint64) {
		n, mode := ns[i%uint64(len(ns))], int(i)/len(ns)
		var rs []egts.ServiceDataRecord
		for j := 0; j < n; j++ {
			pos := true
			switch mode {
			case 1:
				pos = j%2 == 1
			case 2:
				pos = j >= n-3
			case 3:
				pos = j%100 == 99 || j < 2
			}
			r := gen.RecF(0, uint16(j), 0, 0, 0, 2, 2)
			if mode == 4 && n < 1900 {
				r = gen.RecF(1, uint16(65535-j), uint32(j), 0, 0, 2, 2)
			}
			if pos {
				r = gen.WithSub(r, gen.SubT(16, j%gen.NPat))
			}
			rs = append(rs, r)
		}
		c.Describe("%d records, mode %d", n, mode)
		stream(c, what, bytesOf(withPID(gen.Pack(rs...), 9)), posOnly(10, 3, 2))
	}}
}

// crowded: a subrecord that matters at every place among n others, in records of up to 40 subrecords and some much longer.
func crowded(what int) mc.Space {
	special := []byte{16, 1, 7, 0, 24, 25, 27, 17, 18}
	fill := []byte{16, 24, 25, 18, 99, 27, 21}
	type at struct{ n, k int }
	var as []at
	for n := 1; n <= 40; n++ {
		for k := 0; k <= n; k++ {
			as = append(as, at{n, k})
		}
	}
	for _, n := range []int{63, 64, 100, 127, 128, 200, 254, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 1025, 1500} {
		for _, k := range []int{0, 1, n / 2, n - 1, n} {
			as = append(as, at{n, k})
		}
	}
	ns, nf := uint64(len(special)), uint64(len(fill))
	return mc.Space{Name: "crowded", N: uint64(len(as)) * nf, Do: func(c *mc.C, i uint64) {
		a := as[i%uint64(len(as))]
		f := fill[i/uint64(len(as))]
		var segs [][]byte
		for s := uint64(0); s < ns; s++ {
			var rds []byte
			for j := 0; j <= a.n; j++ {
				if j == a.k {
					rds = append(rds, subOf(special[s], 5)...)
				}
				if j == a.n {
					break
				}
				if f == 99 {
					rds = append(rds, 99, 2, 0, byte(j), 7)
				} else {
					rds = append(rds, subOf(f, j%gen.NPat)...)
				}
			}
			if len(rds) > 60000 {
				continue
			}
			// a position of its own, before and after, and the same record with an object
			segs = append(segs, codecFrame(uint16(s*3+1), rds), posOnly(uint16(s*3+2), 7, 2))
		}
		c.Describe("%d subrecords of type %d, the other one at place %d", a.n, f, a.k)
		stream(c, what, segs...)
	}}
}

// services: records of every kind of identity with every service number, flag byte, record number pattern and priority.
func services(what int) mc.Space {
	nk := uint64(len(idKinds))
	return mc.Space{Name: "services", N: 256 * nk, Do: func(c *mc.C, i uint64) {
		v, x := byte(i), idKinds[i/256]
		var segs [][]byte
		for mode := 0; mode < 4; mode++ {
			r := x.mk(uint16(2 + mode))
			switch mode {
			case 0:
				r.SourceServiceType = v
			case 1:
				r.RecipientServiceType = v
			case 2:
				r.SourceServiceType, r.RecipientServiceType = v, v
			case 3:
				r.RecordNumber = uint16(v) << 8
				b := ref.Bits(uint(v), 8)
				r.SourceServiceOnDevice, r.RecipientServiceOnDevice, r.Group, r.RecordProcessingPriority = b[:1], b[1:2], b[2:3], b[3:5]
			}
			// after a known client, in a packet of its own and in one packet with the records around it
			segs = append(segs, posOID(1, 1, 0xABCD0000+uint32(mode), 2), bytesOf(withPID(gen.Pack(r), 2)), posOnly(3, 3, 1),
				bytesOf(withPID(gen.Pack(gen.WithSub(gen.RecF(1, 7, 0x77, 0, 0, 2, 2), gen.SubT(16, 1)), r, gen.WithSub(gen.Rec(9), gen.SubT(16, 2))), 4)))
		}
		stream(c, what, segs...)
	}}
}
