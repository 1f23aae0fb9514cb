package srv

import (
	"bytes"
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/bits"
	"net"
	"os"
	"syscall"
	"time"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"verifharness/codec"
	"verifharness/gen"
	"verifharness/mc"
	"verifharness/ref"
)

// Checks by property.
var Checks = map[string]func() mc.Check{}

var assume = []string{"connections, listener, stores and clock are stand-ins driven step by step; that real sockets behave like them is checked end to end in C18",
	"the reference model of the server (harness/srv/model.go) and the reference codec are right"}

const ttl = 10 * time.Second

func bytesOf(p *egts.Package) []byte {
	b, ok := ref.EncodePackage(p, nil)
	if !ok {
		panic("harness: packet not representable")
	}
	return b
}

func withPID(p *egts.Package, pid uint16) *egts.Package {
	p.PacketIdentifier = pid
	return p
}

func join(bs ...[]byte) []byte {
	var o []byte
	for _, b := range bs {
		o = append(o, b...)
	}
	return o
}

type hexes []byte

func (b hexes) String() string {
	if len(b) > 400 {
		return fmt.Sprintf("%x...(%d bytes)", []byte(b[:400]), len(b))
	}
	return fmt.Sprintf("%x", []byte(b))
}

// what to compare
const (
	cmpSaves   = 1
	cmpReplies = 2
	cmpClose   = 4
	cmpCodes   = 8
	cmpRecv    = 32
	cmpAll     = cmpSaves | cmpReplies | cmpClose
)

// compare judges one connection that got the bytes of stream, after the server has come to rest.
func compare(c *mc.C, e *Env, k *Conn, saves []Nav, exp Exp, what int, ctx string) {
	if c.Failed() {
		return
	}
	if exp.Unspec() {
		c.Outcome("unspecified")
		return
	}
	if what&cmpSaves != 0 {
		want := exp.Saves()
		for i := range want {
			if i >= len(saves) {
				c.Failf("%s: %d records stored instead of %d; missing %+v", ctx, len(saves), len(want), want[i])
				return
			}
			msg := SameNav(saves[i], want[i])
			if msg != "" {
				c.Failf("%s: stored record %d: %s\ngot  %+v\nwant %+v", ctx, i, msg, saves[i], want[i])
				return
			}
			if what&cmpRecv != 0 {
				if t := e.start.Unix(); saves[i].RecvT < t || saves[i].RecvT > t+int64(e.Now()/time.Second)+1 {
					c.Failf("%s: receive time %d is not the time of reception %d", ctx, saves[i].RecvT, t)
					return
				}
			}
		}
		if len(saves) > len(want) {
			c.Failf("%s: %d records stored instead of %d; surplus %+v", ctx, len(saves), len(want), saves[len(want)])
			return
		}
	}
	if what&cmpReplies != 0 {
		got := ParseReplies(k.Out())
		want := exp.Replies()
		for i := range want {
			if i >= len(got) {
				c.Failf("%s: %d replies instead of %d; missing %+v\nwrote %s", ctx, len(got), len(want), want[i], hexes(k.Out()))
				return
			}
			if m := SameReply(got[i], want[i]); m != "" {
				c.Failf("%s: reply %d: %s\nwrote %s", ctx, i, m, hexes(k.Out()))
				return
			}
			if want[i].SST >= 0 && got[i].SST != want[i].SST && !got[i].Result {
				c.Failf("%s: reply %d carries service type %d instead of %d", ctx, i, got[i].SST, want[i].SST)
				return
			}
			if what&cmpCodes != 0 && want[i].Codes != nil {
				ok := false
				for _, x := range want[i].Codes {
					ok = ok || x == got[i].Code
				}
				if !ok {
					c.Failf("%s: reply %d carries result code %d instead of %v", ctx, i, got[i].Code, want[i].Codes)
					return
				}
			}
		}
		if len(got) > len(want) {
			c.Failf("%s: %d replies instead of %d; surplus %+v", ctx, len(got), len(want), got[len(want)])
			return
		}
	}
	if what&cmpClose != 0 {
		cl, _ := k.Closed()
		if cl != exp.Closes {
			c.Failf("%s: connection closed by the server: %v, must be %v", ctx, cl, exp.Closes)
			return
		}
		if p := k.Pending(); p > 0 && !exp.Closes {
			c.Failf("%s: the server stopped reading, %d bytes are left", ctx, p)
			return
		}
	}
	c.Op(len(exp.Pkts))
	c.Trace()
}

// stream runs one connection with the given segments.
func stream(c *mc.C, what int, segs ...[]byte) {
	e := NewEnv(ttl, 1)
	k := e.Dial()
	var all []byte
	for _, s := range segs {
		c.Describe("segment %s", hexes(s))
		k.Send(s)
		all = append(all, s...)
	}
	exp := Model(all)
	compare(c, e, k, e.Saves(0), exp, what, "stream")
	c.Describe("server wrote %s", hexes(k.Out()))
	c.Describe("stored %+v", e.Saves(0))
	if c.Failed() {
		c.Failf("%s", "")
	} else {
		c.State('s', all)
		c.Outcome(fmt.Sprintf("%d packets, %d stored, %d replies", min(len(exp.Pkts), 9), min(len(exp.Saves()), 9), min(len(exp.Replies()), 9)))
	}
	e.Finish()
}

func pkgSpace(s gen.PSpace, what int) mc.Space {
	return mc.Space{Name: s.Name, N: s.N, Do: func(c *mc.C, i uint64) {
		p := s.At(i)
		if sd, ok := p.ServicesFrameData.(*egts.ServiceDataSet); ok && len(*sd) == 0 {
			return
		}
		stream(c, what, bytesOf(p))
	}}
}

// full and empty packets used as neighbours
func fullPkt(pid uint16, pat int) []byte {
	r := gen.RecF(1, 11, 0xA0A0A0A0+uint32(pat), 0, 0, 2, 2)
	for _, t := range []byte{16, 17, 18, 24, 25, 27} {
		r.RecordDataSet = append(r.RecordDataSet, gen.SubT(t, pat))
	}
	r.RecordDataSet = append(r.RecordDataSet, cnt(110, 0xABCDEF), cnt(111, 0x77))
	return bytesOf(withPID(gen.Pack(r), pid))
}

func cnt(n byte, v uint32) egts.RecordData {
	return egts.RecordData{SubrecordType: 25, SubrecordData: &egts.SrAbsCntrData{CounterNumber: n, CounterValue: v}}
}

func posOnly(pid uint16, rn uint16, pat int) []byte {
	return bytesOf(withPID(gen.Pack(gen.Rec(rn, gen.Sec(16, 0, pat))), pid))
}

func posOID(pid, rn uint16, oid uint32, pat int) []byte {
	return bytesOf(withPID(gen.Pack(gen.WithSub(gen.RecF(1, rn, oid, 0, 0, 2, 2), gen.SubT(16, pat))), pid))
}

func init() {
	Checks["C09"] = func() mc.Check {
		return mc.Check{Assume: assume, Bound: "the real server with one connection: all record compositions of the codec checks (sequences of up to 3 subrecords, 2 and 3 records, all record flags); every flag combination and full field sweeps of the position, dilution, analog, counter and liquid sections next to a position; counters 110 and 111 in every order; all pairs of packets in which the second omits what the first had; every record header shape and pattern with every pattern of every section; up to 1900 records in a packet and 1500 subrecords in a record with the one that matters at every place; packets that come whole or in pieces after pauses of 0 to 9.5 s (receive times); histories of 400 packets of each kind and of all in turn; sequences of 3 kinds with everything logged; a connection from the address of an ended one",
			Spaces: func(tier string) []mc.Space {
				th := tier == "thorough"
				what := cmpSaves | cmpRecv
				var out []mc.Space
				for _, s := range gen.RecordSpaces(th) {
					out = append(out, pkgSpace(s, what))
				}
				for _, s := range gen.SectionSpaces(th) {
					s := s
					switch s.Type {
					case 16, 17, 18, 24, 25, 27:
					default:
						continue
					}
					// several sections per execution: one packet each, on one connection
					const per = 16
					out = append(out, mc.Space{Name: "sec/" + s.Name, N: (s.N + per - 1) / per, Do: func(c *mc.C, i uint64) {
						var segs [][]byte
						for j := i * per; j < (i+1)*per && j < s.N; j++ {
							d := egts.RecordData{SubrecordType: s.Type, SubrecordData: s.At(j)}
							r := gen.Rec(uint16(j))
							if s.Type != 16 {
								if j%2 == 0 {
									r = gen.WithSub(r, gen.SubT(16, int(j/2)%gen.NPat), d)
								} else {
									r = gen.WithSub(r, d, gen.SubT(16, int(j/2)%gen.NPat))
								}
							} else {
								r = gen.WithSub(r, d)
							}
							segs = append(segs, bytesOf(withPID(gen.Pack(r), uint16(j))))
						}
						stream(c, what, segs...)
					}})
				}
				// neighbours: first packet or record full, second with a subset of sections
				secs := []byte{16, 17, 18, 24, 25, 27}
				out = append(out, mc.Space{Name: "leftover", N: 64 * 64 * 3, Do: func(c *mc.C, i uint64) {
					a, b := uint(i%64), uint(i/64%64)
					mk := func(m uint, rn uint16, pat int) egts.ServiceDataRecord {
						r := gen.Rec(rn)
						for k, t := range secs {
							if m>>k&1 != 0 {
								r = gen.WithSub(r, gen.SubT(t, pat))
							}
						}
						return r
					}
					switch i / 64 / 64 {
					case 0: // two records of one packet
						stream(c, what, bytesOf(gen.Pack(mk(a, 1, 2), mk(b, 2, 5))))
					case 1: // two packets
						stream(c, what, bytesOf(withPID(gen.Pack(mk(a, 1, 2)), 7)), bytesOf(withPID(gen.Pack(mk(b, 2, 5)), 8)))
					case 2: // two connections, one after the other
						e := NewEnv(ttl, 1)
						for k, m := range []uint{a, b} {
							n := len(e.Saves(0))
							cn := e.Dial()
							p := bytesOf(withPID(gen.Pack(mk(m, uint16(k), 2+3*k)), uint16(7+k)))
							cn.Send(p)
							compare(c, e, cn, e.Saves(0)[n:], Model(p), what, "connection "+fmt.Sprint(k))
							cn.EOF()
						}
						e.Finish()
					}
				}})
				// counters: presence and order of 110, 111 and another one around the position
				ord := [][]byte{{}, {110}, {111}, {110, 111}, {111, 110}, {110, 112, 111}, {111, 109, 110}, {112}, {110, 110}, {111, 111}, {110, 111, 110}}
				vals := []uint32{0, 1, 0xFF, 0x100, 0xFFFF, 0x10000, 0xFFFFFF, 0x800000, 0x123456}
				out = append(out, mc.Space{Name: "counters", N: uint64(len(ord)) * 9 * 9 * 4 * 2, Do: func(c *mc.C, i uint64) {
					o := ord[i%uint64(len(ord))]
					i /= uint64(len(ord))
					v, w := vals[i%9], vals[i/9%9]
					at := int(i / 81 % 4)
					two := i/81/4 == 1
					r := gen.Rec(1)
					for k, n := range o {
						if k == at {
							r = gen.WithSub(r, gen.SubT(16, 2))
						}
						x := v
						if n != 110 {
							x = w
						}
						r = gen.WithSub(r, cnt(n, (x+uint32(k))&0xFFFFFF))
					}
					if at >= len(o) {
						r = gen.WithSub(r, gen.SubT(16, 2))
					}
					if two {
						stream(c, what, bytesOf(withPID(gen.Pack(r, gen.Rec(2, gen.Sec(16, 0, 1))), uint16(v))))
					} else {
						stream(c, what, bytesOf(withPID(gen.Pack(r), uint16(w))))
					}
				}})
				// record headers of all shapes and values with sections of all patterns: no value of the one stands for the other
				np := uint64(gen.NPat)
				out = append(out, mc.Space{Name: "headers x sections", N: 32 * np * 6 * np, Do: func(c *mc.C, i uint64) {
					var segs [][]byte
					for pp := 0; pp < gen.NPat; pp++ {
						r := gen.RecP(uint(i%8|[]uint64{0, 0xF8, 0x50, 0x28}[i/8%4]), int(i/32%np))
						r = gen.WithSub(r, gen.SubT(16, pp))
						if t := secs[i/32/np%6]; t != 16 {
							r = gen.WithSub(r, gen.SubT(t, int(i/32/np/6)))
						} else if i/32/np/6 > 0 {
							continue
						}
						segs = append(segs, bytesOf(withPID(gen.Pack(r), uint16(pp*0x1111))))
					}
					stream(c, what, segs...)
				}})
				// packet headers of all kinds in front of positions: every combination of flags with zero, small and
				// full addresses, life times and keys; and every life time, key and encoding
				hp := func(f uint, skid, he byte, pra, rca uint16, ttl byte) []byte {
					p := withPID(gen.Pack(gen.WithSub(gen.Rec(3), gen.SubT(16, 2))), 0x0304)
					gen.SetFlags(p, f)
					p.SecurityKeyID, p.HeaderEncoding = skid, he
					if f&0x20 != 0 {
						p.PeerAddress, p.RecipientAddress, p.TimeToLive = pra, rca, ttl
					}
					return bytesOf(p)
				}
				out = append(out, mc.Space{Name: "days", N: 49711/400 + 1, Do: func(c *mc.C, i uint64) { // a position of every day of the format's years
					var segs [][]byte
					for j := i * 400; j < (i+1)*400 && j < 49711; j++ {
						d := gen.Sec(16, 0x80, 1).(*egts.SrPosData)
						if t := j*86400 + j*7919%86400; t <= 0xFFFFFFFF {
							d.NavigationTime = ref.TimeOf(uint32(t))
						}
						segs = append(segs, bytesOf(withPID(gen.Pack(gen.WithSub(gen.Rec(3), egts.RecordData{SubrecordType: 16, SubrecordData: d})), uint16(j))))
					}
					stream(c, what, segs...)
				}})
				out = append(out, mc.Space{Name: "packet headers", N: 256 + 256, Do: func(c *mc.C, i uint64) {
					var segs [][]byte
					v := byte(i)
					if i < 256 {
						if i&0x18 != 0 {
							return // encrypted
						}
						for k := 0; k < 243; k++ {
							z := func(n int) uint16 { return []uint16{0, 1, 0xFFFF}[k/n%3] }
							if i&0x20 == 0 && k >= 9 {
								break
							}
							segs = append(segs, hp(uint(i), byte(z(1)), byte(z(3)), z(9), z(27), byte(z(81))))
						}
					} else {
						segs = [][]byte{hp(0x20, v, 1, 2, 3, 4), hp(0x20, 1, v, 2, 3, 4), hp(0x20, 0, 1, 2, 3, v), hp(0x20, 0, 1, uint16(v), uint16(v), 5), hp(0, v, 1, 0, 0, 0), hp(0, 1, v, 0, 0, 0)}
					}
					stream(c, what, segs...)
				}})
				out = append(out, mc.Space{Name: "pid", N: 65536 / 64, Do: func(c *mc.C, i uint64) {
					var segs [][]byte
					for j := uint64(0); j < 64; j++ {
						segs = append(segs, posOnly(uint16(i*64+j), 1, 2))
					}
					stream(c, what, segs...)
				}})
				out = append(out, mc.Space{Name: "repeat", N: 12, Do: func(c *mc.C, i uint64) { // the same packet again is stored again
					var segs [][]byte
					for j := uint64(0); j <= i; j++ {
						segs = append(segs, fullPkt(5, 2))
					}
					stream(c, what, segs...)
				}})
				out = append(out, longSpace(what, 400, kinds), reuseSpace(), timesSpace(), manyRecords(what), crowded(what))
				out = append(out, codec.WithLog(seqSpace("kinds/3", kinds, 3, what), longSpace(what, 20, kinds))...)
				return out
			}}
	}
	Checks["C10"] = c10
	Checks["C11"] = c11
	Checks["C12"] = c12
	Checks["C14"] = c14
	Checks["C15"] = c15
	Checks["C16"] = c16
	Checks["C22"] = c22
}

// kinds of packets used in sequences
type kind struct {
	name string
	mk   func(pid uint16) []byte
}

var kinds = []kind{
	{"pos", func(pid uint16) []byte { return posOID(pid, pid+100, 0x01010101, 2) }},
	{"pos-no-oid", func(pid uint16) []byte { return posOnly(pid, pid+100, 5) }},
	{"two-records", func(pid uint16) []byte {
		return bytesOf(withPID(gen.Pack(gen.WithSub(gen.RecF(1, 65535, 7, 0, 0, 2, 2), gen.SubT(16, 1)), gen.WithSub(gen.RecF(0, 0, 0, 0, 0, 2, 2), gen.SubT(16, 2), gen.SubT(18, 2))), pid))
	}},
	{"auth", func(pid uint16) []byte {
		return bytesOf(withPID(gen.Pack(gen.WithSub(gen.RecF(0, 9, 0, 0, 0, 1, 1), gen.SubT(7, 2))), pid))
	}},
	{"term", func(pid uint16) []byte {
		return bytesOf(withPID(gen.Pack(gen.WithSub(gen.RecF(0, 9, 0, 0, 0, 1, 1), gen.SubT(1, 2))), pid))
	}},
	{"no-position", func(pid uint16) []byte {
		return bytesOf(withPID(gen.Pack(gen.WithSub(gen.Rec(3), gen.SubT(18, 2))), pid))
	}},
	{"empty-record", func(pid uint16) []byte { return bytesOf(withPID(gen.Pack(gen.Rec(4)), pid)) }},
	{"confirmation", func(pid uint16) []byte {
		return bytesOf(withPID(gen.Pack(gen.Rec(3, &egts.SrResponse{ConfirmedRecordNumber: 5})), pid))
	}},
	{"pos+confirmation", func(pid uint16) []byte {
		return bytesOf(withPID(gen.Pack(gen.WithSub(gen.Rec(3), gen.SubT(16, 2)), gen.Rec(4, &egts.SrResponse{ConfirmedRecordNumber: 5})), pid))
	}},
	{"response", func(pid uint16) []byte { return bytesOf(withPID(gen.Respond(7, 0, 1), pid)) }},
	{"response-bare", func(pid uint16) []byte { return bytesOf(withPID(gen.Respond(7, 3, -1), pid)) }},
	{"routed", func(pid uint16) []byte {
		p := withPID(gen.Pack(gen.WithSub(gen.Rec(3), gen.SubT(16, 2))), pid)
		gen.SetFlags(p, 0x20)
		p.PeerAddress, p.RecipientAddress, p.TimeToLive = 1, 2, 3
		return bytesOf(p)
	}},
	{"unknown-sub", func(pid uint16) []byte {
		return codecFrame(pid, append([]byte{99, 2, 0, 1, 2}, subOf(16, 2)...))
	}},
}

func subOf(t byte, pat int) []byte {
	b, _ := ref.EncodeRecordData(egts.RecordDataSet{gen.SubT(t, pat)})
	return b
}

func codecFrame(pid uint16, rds []byte) []byte {
	body := append([]byte{byte(len(rds)), byte(len(rds) >> 8), 3, 0, 0, 2, 2}, rds...)
	return ref.Packet(ref.Header{PRV: 1, HL: 11, PID: pid, PT: 1}, body)
}

// bad packets that leave the stream in step, and things that close the connection
var bads = []kind{
	{"header-checksum", func(pid uint16) []byte { b := posOnly(pid, 1, 2); b[10] ^= 0x55; return b }},
	{"body-checksum", func(pid uint16) []byte { b := posOnly(pid, 1, 2); b[len(b)-1] ^= 0x55; return b }},
	{"body-checksum-low", func(pid uint16) []byte { b := posOID(pid, 1, 9, 2); b[len(b)-2] ^= 0x01; return b }},
	{"body-bit", func(pid uint16) []byte { b := posOID(pid, 1, 9, 2); b[30] ^= 0x10; return b }},
	{"type", func(pid uint16) []byte { return retype(posOnly(pid, 1, 2), 2) }},
	{"type255", func(pid uint16) []byte { return retype(posOnly(pid, 1, 2), 255) }},
	{"encrypted", func(pid uint16) []byte { return reflag(posOID(pid, 1, 9, 2), 0x08) }},
	{"encrypted3", func(pid uint16) []byte { return reflag(posOID(pid, 1, 9, 2), 0x18) }},
	{"route-mismatch", func(pid uint16) []byte { return reflag(posOID(pid, 1, 9, 2), 0x20) }},
	{"hl10", func(pid uint16) []byte { b := ref.Header{PRV: 1, HL: 10, PID: pid, PT: 1}; return b.Bytes()[:10] }},
	{"hl12", func(pid uint16) []byte { b := ref.Header{PRV: 1, HL: 12, PID: pid, PT: 1}; return append(b.Bytes(), 0) }},
	{"hl255", func(pid uint16) []byte {
		b := ref.Header{PRV: 1, HL: 255, PID: pid, PT: 1}
		return append(b.Bytes(), make([]byte, 244)...)
	}},
	{"no-body", func(pid uint16) []byte { b := ref.Header{PRV: 1, HL: 11, PID: pid, PT: 1}; return b.Bytes() }},
	{"cut-section", func(pid uint16) []byte { return codecFrame(pid, append(subOf(16, 2), 16, 5, 0, 1, 2, 3, 4, 5)) }},
	{"cut-record", func(pid uint16) []byte {
		return ref.Packet(ref.Header{PRV: 1, HL: 11, PID: pid, PT: 1}, append([]byte{200, 0, 3, 0, 1, 9, 9, 9, 9, 2, 2}, subOf(16, 2)...))
	}},
	{"second-record-bad", func(pid uint16) []byte {
		b := posOID(pid, 1, 0x0BAD0BAD, 2)
		body := append(append([]byte{}, b[11:len(b)-2]...), 50, 0, 2, 0, 0, 2, 2, 16, 3, 0, 1, 2, 3)
		return ref.Packet(ref.Header{PRV: 1, HL: 11, PID: pid, PT: 1}, body)
	}},
	{"accel", func(pid uint16) []byte { return codecFrame(pid, append([]byte{20, 1, 0, 9}, subOf(16, 2)...)) }},
	{"short-response", func(pid uint16) []byte { return ref.Packet(ref.Header{PRV: 1, HL: 11, PID: pid, PT: 0}, []byte{1, 2}) }},
	{"auth-cut", func(pid uint16) []byte { return codecFrame(pid, []byte{7, 3, 0, 'a', 'b', 'c'}) }},
	{"big", func(pid uint16) []byte {
		return ref.Packet(ref.Header{PRV: 1, HL: 11, PID: pid, PT: 1}, make([]byte, 65535))
	}},
	{"record-garbage", func(pid uint16) []byte {
		return ref.Packet(ref.Header{PRV: 1, HL: 11, PID: pid, PT: 1}, []byte{0xFF, 0xFF, 0xFF})
	}},
}

var closers = []kind{
	{"prv0", func(pid uint16) []byte { b := posOnly(pid, 1, 2); b[0] = 0; return b }},
	{"prv2", func(pid uint16) []byte { b := posOnly(pid, 1, 2); b[0] = 2; return b }},
	{"http", func(pid uint16) []byte { return []byte("GET / HTTP/1.0\r\n\r\n") }},
	{"ff", func(pid uint16) []byte { return []byte{255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255} }},
	{"hl9", func(pid uint16) []byte { b := posOnly(pid, 1, 2); b[3] = 9; return b }},
	{"hl0", func(pid uint16) []byte { b := posOnly(pid, 1, 2); b[3] = 0; return b }},
	{"zeros", func(pid uint16) []byte { return make([]byte, 10) }},
}

func retype(b []byte, pt byte) []byte {
	b[9] = pt
	b[10] = ref.CRC8(b[:10])
	return b
}

func reflag(b []byte, f byte) []byte {
	b[2] |= f
	b[10] = ref.CRC8(b[:10])
	return b
}

// frameSizes: every size up to lim and those around every power of two and its multiples.
func frameSizes(lim int) []int {
	var out []int
	for n := 0; n <= lim; n++ {
		out = append(out, n)
	}
	for k := 256; k <= 65536; k *= 2 {
		for _, m := range []int{k, k + k/2} {
			for d := -14; d <= 3; d++ {
				if x := m + d; x > lim && x <= 65535 {
					out = append(out, x)
				}
			}
		}
	}
	return out
}

// sized is a valid packet with a position whose frame is n bytes long, or nil.
func sized(pid uint16, n int) []byte {
	rds := subOf(16, 2)
	if x := n - 7 - len(rds); x == 0 {
		return codecFrame(pid, rds)
	} else if x < 3 {
		return nil
	} else {
		fill := make([]byte, x)
		fill[0], fill[1], fill[2] = 200, byte(x-3), byte((x-3)>>8)
		for k := 3; k < x; k++ {
			fill[k] = byte(k*7 + k>>8)
		}
		return codecFrame(pid, append(fill, rds...))
	}
}

func seqSpace(name string, ks []kind, l int, what int) mc.Space {
	n := uint64(1)
	for k := 0; k < l; k++ {
		n *= uint64(len(ks))
	}
	return mc.Space{Name: name, N: n, Do: func(c *mc.C, i uint64) {
		var segs [][]byte
		for k := 0; k < l; k++ {
			x := ks[i%uint64(len(ks))]
			i /= uint64(len(ks))
			c.Describe("packet %s", x.name)
			segs = append(segs, x.mk(uint16(k*257+1)))
		}
		stream(c, what, segs...)
	}}
}

func c10() mc.Check {
	return mc.Check{Assume: assume, Bound: "the real server with one connection: all record compositions of the codec checks, all record numbers and packet identifiers, 1 to 260 records (thorough 1200 and the frame limit), all sequences of 5 (thorough 6) of 13 kinds of valid packets, every subrecord that matters at every place among up to 1500, every service number with every identity, histories of 600 packets of each kind and of all in turn, sequences of 3 kinds with everything logged, every section inside responses",
		Spaces: func(tier string) []mc.Space {
			th := tier == "thorough"
			what := cmpReplies | cmpClose
			var out []mc.Space
			for _, s := range gen.RecordSpaces(th) {
				out = append(out, pkgSpace(s, what))
			}
			for _, s := range gen.HeaderSpaces(th) {
				switch s.Name {
				case "hdr/flags", "resp/pr", "resp/n", "resp/seq", "hdr/big", "hdr/bytes":
					out = append(out, pkgSpace(s, what))
				}
			}
			out = append(out, mc.Space{Name: "pid", N: 65536 / 64, Do: func(c *mc.C, i uint64) {
				var segs [][]byte
				for j := uint64(0); j < 64; j++ {
					segs = append(segs, posOnly(uint16(i*64+j), uint16(j), 2))
				}
				stream(c, what, segs...)
			}})
			out = append(out, mc.Space{Name: "rn", N: 65536 / 64, Do: func(c *mc.C, i uint64) {
				var rs []egts.ServiceDataRecord
				for j := uint64(0); j < 64; j++ {
					rs = append(rs, gen.RecF(0, uint16(i*64+j), 0, 0, 0, byte(i), 2))
				}
				stream(c, what, bytesOf(gen.Pack(rs...)))
			}})
			out = append(out, mc.Space{Name: "max", N: 8, Do: func(c *mc.C, i uint64) {
				var rs []egts.ServiceDataRecord
				for j := 0; j < 9362-int(i); j++ { // 7 bytes each: the frame limit
					rs = append(rs, gen.RecF(0, uint16(j), 0, 0, 0, 2, 2))
				}
				stream(c, what, bytesOf(gen.Pack(rs...)))
			}})
			for l := 1; l <= 5; l++ {
				out = append(out, seqSpace(fmt.Sprintf("kinds/%d", l), kinds, l, what))
			}
			if th {
				out = append(out, seqSpace("kinds/6", kinds, 6, what))
			}
			// authorisation and confirmation subrecords in every position of up to 3 records x 2 subrecords
			alpha := []byte{255, 16, 1, 7, 0, 9, 99}
			na := uint64(len(alpha))
			out = append(out, mc.Space{Name: "positions", N: na * na * na * na * 2, Do: func(c *mc.C, i uint64) {
				three := i%2 == 1
				i /= 2
				var body []byte
				for r := 0; r < 2; r++ {
					var rds []byte
					for s := 0; s < 2; s++ {
						t := alpha[i%na]
						i /= na
						switch t {
						case 255:
						case 99:
							rds = append(rds, 99, 1, 0, 5)
						default:
							rds = append(rds, subOf(t, 2)...)
						}
					}
					body = append(body, byte(len(rds)), byte(len(rds)>>8), byte(r+5), 1, 0, byte(2+r), 2)
					body = append(body, rds...)
				}
				if three {
					body = append(body, 0, 0, 77, 0, 1, 1, 2, 3, 4, 2, 2)
				}
				b := ref.Packet(ref.Header{PRV: 1, HL: 11, PID: 0xFFFF, PT: 1}, body)
				stream(c, what, b, posOnly(3, 4, 2))
			}})
			out = append(out, longSpace(cmpReplies|cmpClose, 600, kinds))
			out = append(out, manyRecords(what), crowded(what), services(what))
			out = append(out, codec.WithLog(seqSpace("kinds/3", kinds, 3, what), longSpace(what, 20, kinds))...)
			return out
		}}
}

// otherConn runs a well-behaved connection beside and compares it.
func otherConn(c *mc.C, e *Env, o *Conn, pid uint16, all *[]byte, ctx string) {
	n := len(e.Saves(0))
	before := len(ParseReplies(o.Out()))
	p := posOID(pid, 5, 0x0F0F0F0F, 2)
	o.Send(p)
	*all = append(*all, p...)
	if len(e.Saves(0)) != n+1 || len(ParseReplies(o.Out())) != before+1 {
		c.Failf("%s: another connection is not served any more", ctx)
	}
}

func c11() mc.Check {
	return mc.Check{Assume: assume, Bound: "the real server: all sequences of 3 of 13 valid kinds and 21 bad kinds (thorough 4) followed by a valid packet; every bad kind between all pairs of valid kinds; every 7 closing inputs after every kind; every byte of 8 packets replaced by every value between two good packets; all first bytes and header lengths; refused frames of every size up to 600 bytes and around every power of two, 4 contents, 3 types; histories of 300 and 3000 packets of each kind and of up to 70000 of all in turn, 20 MB of large packets; pairs and triples also with everything logged; 1200 connections one after the other, ended in 8 ways; beside another connection that must stay served",
		Spaces: func(tier string) []mc.Space {
			th := tier == "thorough"
			var out []mc.Space
			mix := append(append([]kind{}, kinds...), bads...)
			nm := uint64(len(mix))
			nb, nk := uint64(len(bads)), uint64(len(kinds))
			run := func(c *mc.C, segs ...[]byte) {
				e := NewEnv(ttl, 1)
				o := e.Dial()
				var oall []byte
				otherConn(c, e, o, 1, &oall, "before")
				n := len(e.Saves(0))
				k := e.Dial()
				var all []byte
				for _, s := range segs {
					c.Describe("segment %s", hexes(s))
					k.Send(s)
					all = append(all, s...)
				}
				exp := Model(all)
				compare(c, e, k, e.Saves(0)[n:], exp, cmpAll, "stream")
				otherConn(c, e, o, 2, &oall, "after the stream")
				if !c.Failed() {
					compare(c, e, o, append(e.Saves(0)[:n:n], e.Saves(0)[len(e.Saves(0))-1]), Model(oall), cmpAll, "other connection")
				}
				// a new connection is served, too
				nw := e.Dial()
				var nall []byte
				otherConn(c, e, nw, 3, &nall, "new connection after the stream")
				if !c.Failed() {
					c.State('s', all)
					c.Outcome(fmt.Sprintf("accepted %d, refused %d, closed %v", count(exp, true), count(exp, false), exp.Closes))
				}
				e.Finish()
			}
			out = append(out, mc.Space{Name: "seq2", N: nm * nm, Do: func(c *mc.C, i uint64) {
				run(c, mix[i%nm].mk(0x0101), mix[i/nm].mk(0x0202), posOnly(0x0303, 7, 1))
			}})
			out = append(out, mc.Space{Name: "between", N: nb * nk * nk, Do: func(c *mc.C, i uint64) {
				run(c, kinds[i%nk].mk(0x0101), bads[i/nk/nk].mk(0xFFFF), kinds[i/nk%nk].mk(0x0303))
			}})
			{
				out = append(out, mc.Space{Name: "seq3", N: nm * nm * nm, Do: func(c *mc.C, i uint64) {
					run(c, mix[i%nm].mk(0x0101), mix[i/nm%nm].mk(0x0202), mix[i/nm/nm].mk(0x0303), posOnly(0x0404, 7, 1))
				}})
			}
			out = append(out, codec.WithLog(out[0], out[1])...)
			nc := uint64(len(closers))
			out = append(out, mc.Space{Name: "closing", N: nc * nm * 2, Do: func(c *mc.C, i uint64) {
				if i%2 == 0 {
					run(c, mix[i/2%nm].mk(0x0101), closers[i/2/nm].mk(0x0202), posOnly(0x0303, 7, 1))
				} else { // in one segment
					run(c, join(mix[i/2%nm].mk(0x0101), closers[i/2/nm].mk(0x0202), posOnly(0x0303, 7, 1)))
				}
			}})
			out = append(out, mc.Space{Name: "first-bytes", N: 65536, Do: func(c *mc.C, i uint64) {
				b := posOnly(0x0101, 7, 1)
				b[0], b[3] = byte(i), byte(i>>8)
				if b[0] != 1 && b[0] > 4 && b[0] < 250 && b[3] != 11 {
					return // first byte alone decides; a few combinations are enough
				}
				run(c, b, posOnly(0x0303, 7, 1))
			}})
			// mutations between two good packets
			for _, bk := range []int{0, 2, 3, 7, 9, 11} {
				b := kinds[bk].mk(0x0202)
				n := uint64(len(b))
				out = append(out, mc.Space{Name: "mutate/" + kinds[bk].name, N: n * 256, Do: func(c *mc.C, i uint64) {
					x := append([]byte{}, b...)
					x[i/256] = byte(i)
					run(c, posOID(1, 2, 3, 4), x, posOID(2, 3, 4, 5), posOID(3, 4, 5, 6))
				}})
			}
			// refused frames of every size
			fs := frameSizes(600)
			out = append(out, mc.Space{Name: "sizes", N: uint64(len(fs)) * 4 * 3, Do: func(c *mc.C, i uint64) {
				body := bytes.Repeat([]byte{[]byte{0xFF, 0, 1, 16}[i%4]}, fs[i/12])
				pt := byte(i / 4 % 3)
				run(c, posOnly(1, 7, 1), ref.Packet(ref.Header{PRV: 1, HL: 11, PID: 2, PT: pt}, body), posOnly(3, 8, 1))
			}})
			if th {
				out = append(out, mc.Space{Name: "seq4", N: nm * nm * nm * nm, Do: func(c *mc.C, i uint64) {
					run(c, mix[i%nm].mk(0x0101), mix[i/nm%nm].mk(0x0202), mix[i/nm/nm%nm].mk(0x0303), mix[i/nm/nm/nm].mk(0x0404), posOnly(0x0505, 7, 1))
				}})
			}
			out = append(out, longSpace(cmpAll, 300, append(append([]kind{}, bads...), kinds...)), veryLong(cmpAll, append(append([]kind{}, bads...), kinds...)), sequelSpace(1200))
			return out
		}}
}

func count(e Exp, acc bool) int {
	n := 0
	for _, p := range e.Pkts {
		if p.Accepted == acc {
			n++
		}
	}
	return n
}

// c22: the server passes the code of the library on.
func c22() mc.Check {
	return mc.Check{Assume: append(assume, codec.Assume...), Bound: codec.CodecCodesBound + "; server: all subsets of defects that keep the stream in step, and the bad kinds of C11, answered with exactly the code of the reference",
		Spaces: func(tier string) []mc.Space {
			out := codec.CodecCodes(tier)
			for i := range out {
				out[i].Name = "codec/" + out[i].Name
			}
			nd := uint64(1024)
			out = append(out, mc.Space{Name: "server/defects", N: nd * 12 * 6, Do: func(c *mc.C, i uint64) {
				b := codec.Defective(i%nd, int(i/nd%12), int(i/nd/12))
				if len(b) < 10 || b[3] < 10 {
					return
				}
				n := int(b[3])
				if f := int(binary.LittleEndian.Uint16(b[5:])); f > 0 {
					n += f + 2
				}
				if n != len(b) {
					return
				}
				stream(c, cmpReplies|cmpCodes|cmpSaves, b, posOnly(9, 9, 2))
			}})
			out = append(out, mc.Space{Name: "server/bad", N: uint64(len(bads)), Do: func(c *mc.C, i uint64) {
				stream(c, cmpReplies|cmpCodes|cmpSaves, bads[i].mk(0x1234), posOnly(9, 9, 2))
			}})
			out = append(out, mc.Space{Name: "server/types", N: 256, Do: func(c *mc.C, i uint64) {
				stream(c, cmpReplies|cmpCodes|cmpSaves, retype(posOnly(0x1234, 1, 2), byte(i)), posOnly(9, 9, 2))
			}})
			return out
		}}
}

// ---- C12 ----------------------------------------------------------------------------------------------

// cut sends a stream in the segments given by the cut positions, with pauses, and compares.
func cutRun(c *mc.C, b []byte, cuts []int, pause time.Duration, end int) {
	e := NewEnv(ttl, 1)
	k := e.Dial()
	last := 0
	for _, x := range append(append([]int{}, cuts...), len(b)) {
		if x <= last {
			continue
		}
		k.Send(b[last:x])
		last = x
		if pause > 0 {
			e.Sleep(pause)
		}
	}
	c.Describe("stream %s cut at %v, pause %v, end %d", hexes(b), cuts, pause, end)
	exp := Model(b)
	ctx := fmt.Sprintf("cut at %v, pause %v", cuts, pause)
	if end == 0 {
		compare(c, e, k, e.Saves(0), exp, cmpAll, ctx)
	} else {
		if end == 1 {
			k.EOF()
		} else {
			k.Reset()
		}
		e.Sleep(2 * ttl)
		compare(c, e, k, e.Saves(0), exp, cmpSaves|cmpReplies, ctx+", then the peer closes")
	}
	if !c.Failed() {
		var st [40]byte
		for i, x := range cuts {
			if i < 20 {
				binary.LittleEndian.PutUint16(st[2*i:], uint16(x))
			}
		}
		c.State(byte(end), append(st[:], byte(pause/time.Millisecond)))
	}
	e.Finish()
}

func c12() mc.Check {
	tiny := codecFrame(0x0102, nil) // 20 bytes
	return mc.Check{Assume: assume, Bound: "the real server: all 2^19 segmentations of a 20-byte packet; all segmentations with up to 2 cuts (thorough 3) of streams of 2-4 packets of mixed kinds; all cut sets inside every window of 10 bytes; every uniform segment size; every prefix followed by end of stream or reset; all single cuts with pauses of 10 to 99 percent of the idle limit, and one byte at a time with pauses; accepted frames of every size up to 1500 bytes and around every power of two, cut in 6 ways",
		Spaces: func(tier string) []mc.Space {
			th := tier == "thorough"
			var out []mc.Space
			n := len(tiny)
			out = append(out, mc.Space{Name: "tiny/all", N: 1 << (n - 1), Do: func(c *mc.C, i uint64) {
				var cuts []int
				for k := 0; k < n-1; k++ {
					if i>>k&1 != 0 {
						cuts = append(cuts, k+1)
					}
				}
				cutRun(c, tiny, cuts, 0, 0)
			}})
			streams := [][]byte{
				join(kinds[0].mk(1), kinds[1].mk(2)),
				join(kinds[3].mk(1), kinds[0].mk(2), kinds[7].mk(3)),
				join(kinds[11].mk(1), bads[1].mk(2), kinds[1].mk(3)),
				join(bads[9].mk(1), bads[12].mk(2), bads[11].mk(3), kinds[2].mk(4)),
				join(kinds[0].mk(1), closers[0].mk(2), kinds[0].mk(3)),
			}
			for si, b := range streams {
				b := b
				nb := uint64(len(b))
				out = append(out, mc.Space{Name: fmt.Sprintf("s%d/cuts2", si), N: nb * nb, Do: func(c *mc.C, i uint64) {
					x, y := int(i/nb), int(i%nb)
					if x > y {
						return
					}
					cutRun(c, b, []int{x, y}, 0, 0)
				}})
				out = append(out, mc.Space{Name: fmt.Sprintf("s%d/size", si), N: nb, Do: func(c *mc.C, i uint64) {
					var cuts []int
					for x := int(i) + 1; x < int(nb); x += int(i) + 1 {
						cuts = append(cuts, x)
					}
					cutRun(c, b, cuts, 0, 0)
				}})
				const win = 10
				out = append(out, mc.Space{Name: fmt.Sprintf("s%d/window", si), N: nb / 5 * 1024, Do: func(c *mc.C, i uint64) {
					w := int(i/1024) * 5
					var cuts []int
					for k := 0; k < win; k++ {
						if i>>k&1 != 0 && w+k < int(nb) {
							cuts = append(cuts, w+k)
						}
					}
					cutRun(c, b, cuts, 0, 0)
				}})
				out = append(out, mc.Space{Name: fmt.Sprintf("s%d/prefix", si), N: nb * 3 * 2, Do: func(c *mc.C, i uint64) {
					l := int(i/6) + 1
					var cuts []int
					if i%2 == 1 {
						cuts = []int{l / 2}
					}
					cutRun(c, b[:l], cuts, 0, int(i/2%3))
				}})
				ps := []time.Duration{ttl / 10, ttl / 2, ttl * 9 / 10, ttl - time.Millisecond}
				out = append(out, mc.Space{Name: fmt.Sprintf("s%d/pause", si), N: nb * uint64(len(ps)) * 2, Do: func(c *mc.C, i uint64) {
					x := int(i) / len(ps) / 2
					cuts := []int{x}
					if i%2 == 1 {
						cuts = []int{x, x + 1, x + 2}
					}
					cutRun(c, b, cuts, ps[int(i)/2%len(ps)], 0)
				}})
				out = append(out, mc.Space{Name: fmt.Sprintf("s%d/drip", si), N: uint64(len(ps)) * 20, Do: func(c *mc.C, i uint64) {
					var cuts []int
					st := int(i)/len(ps) + 1
					for x := st; x < int(nb); x += st {
						cuts = append(cuts, x)
					}
					cutRun(c, b, cuts, ps[int(i)%len(ps)], 0)
				}})
				if th {
					out = append(out, mc.Space{Name: fmt.Sprintf("s%d/cuts3", si), N: nb * nb * nb, Do: func(c *mc.C, i uint64) {
						x, y, z := int(i/nb/nb), int(i/nb%nb), int(i%nb)
						if x > y || y > z {
							return
						}
						cutRun(c, b, []int{x, y, z}, 0, 0)
					}})
				}
			}
			// many packets at once
			fs := frameSizes(1500)
			out = append(out, mc.Space{Name: "sizes", N: uint64(len(fs)) * 6, Do: func(c *mc.C, i uint64) {
				b := sized(9, fs[i/6])
				if b == nil {
					return
				}
				n := len(b)
				b = join(b, posOID(7, 8, 9, 1))
				cutRun(c, b, [][]int{nil, {n / 2}, {n - 1}, {n}, {11, n - 2}, {n + 1}}[i%6], 0, 0)
			}})
			out = append(out, mc.Space{Name: "burst", N: 300, Do: func(c *mc.C, i uint64) {
				var b []byte
				for k := 0; k <= int(i); k++ {
					b = append(b, kinds[k%len(kinds)].mk(uint16(k))...)
				}
				cutRun(c, b, nil, 0, 0)
			}})
			// large packets in uniform segments
			big := bytesOf(withPID(gen.Pack(gen.Rec(1, gen.Sec(16, 255, 2), &egts.SrDispatcherIdentity{Description: string(make([]byte, 0))}), gen.Rec(2, &egts.SrModuleData{Description: string(fill(60000))})), 9))
			out = append(out, mc.Space{Name: "large", N: 60, Do: func(c *mc.C, i uint64) {
				b := join(big, kinds[0].mk(1))
				st := []int{1 << 20, 65535, 65536, 4096, 1460, 1500, 1000, 512, 16384, 32768}[i%10] - int(i/10)
				var cuts []int
				for x := st; x < len(b); x += st {
					cuts = append(cuts, x)
				}
				cutRun(c, b, cuts, 0, 0)
			}})
			return out
		}}
}

func fill(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	return b
}

// ---- C14 ----------------------------------------------------------------------------------------------

type blob struct {
	id  int
	err error
}

func (b *blob) ToBytes() ([]byte, error) { return []byte(fmt.Sprintf(`{"client":%d}`, b.id)), b.err }

type memStore struct {
	got  []interface{}
	fail func(k int) error
	log  *[]int
	n    int
}

func (m *memStore) Save(x interface{ ToBytes() ([]byte, error) }) error {
	k := len(m.got)
	m.got = append(m.got, x)
	*m.log = append(*m.log, m.n)
	if m.fail != nil {
		return m.fail(k)
	}
	return nil
}

type tempErr struct{}

func (tempErr) Error() string   { return "try again" }
func (tempErr) Temporary() bool { return true }
func (tempErr) Timeout() bool   { return true }

type noErr struct{}

func (noErr) Error() string        { return "ok" }
func (noErr) Is(target error) bool { return true }

type nilErr struct{}

func (*nilErr) Error() string { return "<nil>" }

func c14() mc.Check {
	return mc.Check{Assume: assume, Bound: "storage.Repository with 0-4 stores x 1-4 records x all patterns of failures; the real server with 1-3 stores x packets of 1-4 records (thorough 6) x all patterns of failing saves; records with and without positions, with repeated and falling numbers, with identification or confirmation, x all patterns of failing saves; failures in runs of up to 150 saves; 30 kinds of errors a store may fail with, at every store; every save of every store blocked in turn (no confirmation may appear until it returns) and slow; several packets queued behind a blocked save",
		Spaces: func(tier string) []mc.Space {
			th := tier == "thorough"
			var out []mc.Space
			errs := errors.New("store failure")
			// the repository itself: stores n, records m, failure bits
			for n := 0; n <= 4; n++ {
				for m := 1; m <= 4; m++ {
					n, m := n, m
					out = append(out, mc.Space{Name: fmt.Sprintf("repo/%d-%d", n, m), N: 1 << (n * m), Do: func(c *mc.C, i uint64) {
						r := storage.NewRepository()
						var log []int
						var st []*memStore
						for k := 0; k < n; k++ {
							k := k
							s := &memStore{log: &log, n: k, fail: func(j int) error {
								if i>>(k*m+j)&1 != 0 {
									return fmt.Errorf("failure of store %d", k)
								}
								return nil
							}}
							st = append(st, s)
							r.AddStore(s)
						}
						var recs []*blob
						for j := 0; j < m; j++ {
							b := &blob{id: j}
							recs = append(recs, b)
							err := r.Save(b)
							c.Op(1)
							bad := false
							for k := 0; k < n; k++ {
								bad = bad || i>>(k*m+j)&1 != 0
							}
							if (err != nil) != bad {
								c.Failf("save of record %d with failures %b returned %v", j, i, err)
								return
							}
							for k := 0; k < n; k++ {
								if len(st[k].got) != j+1 || st[k].got[j] != interface{}(b) {
									c.Failf("store %d got %d records after %d saves (failures %b)", k, len(st[k].got), j+1, i)
									return
								}
							}
						}
						c.Trace()
						c.State('r', []byte(fmt.Sprint(n, m, i)))
						c.Outcome("every store got every record")
					}})
				}
			}
			// the server: n stores, r records, failure patterns
			nrec, lim := 4, 12
			if th {
				nrec, lim = 6, 18
			}
			for n := 1; n <= 3; n++ {
				for r := 1; r <= nrec; r++ {
					if n*r > lim {
						continue
					}
					n, r := n, r
					out = append(out, mc.Space{Name: fmt.Sprintf("server/%d-%d", n, r), N: 1 << (n * r), Do: func(c *mc.C, i uint64) {
						e := NewEnv(ttl, n)
						for k := range e.Stores {
							k := k
							e.Stores[k].Fail = func(j int) error {
								if j < r && i>>(k*r+j)&1 != 0 {
									return errs
								}
								return nil
							}
						}
						cn := e.Dial()
						var rs []egts.ServiceDataRecord
						for j := 0; j < r; j++ {
							rs = append(rs, gen.WithSub(gen.RecF(1, uint16(50+j), uint32(900+j), 0, 0, 2, 2), gen.SubT(16, j)))
						}
						p1 := bytesOf(withPID(gen.Pack(rs...), 77))
						p2 := posOID(78, 60, 5, 2)
						c.Describe("%d stores, %d records, failures %b", n, r, i)
						cn.Send(p1)
						cn.Send(p2)
						exp := Model(join(p1, p2))
						for k := range e.Stores {
							compare(c, e, cn, e.Saves(k), exp, cmpSaves|cmpClose, fmt.Sprintf("store %d, failures %b", k, i))
						}
						checkConfirmed(c, e, cn, exp, r, n, i)
						handedBeforeConfirmed(c, e, n, exp)
						if !c.Failed() {
							c.State('f', []byte(fmt.Sprint(n, r, i)))
							c.Outcome("failures handled")
						}
						e.Finish()
					}})
				}
			}
			// records with and without positions, with numbers that repeat or fall, with identification and confirmations
			// among them: the failure of a save shows at its own record only
			for n := 1; n <= 3; n++ {
				for r := 1; r <= 4; r++ {
					if n*r > 9 && !th {
						continue
					}
					n, r := n, r
					const nums, extras = 4, 4
					out = append(out, mc.Space{Name: fmt.Sprintf("mixed/%d-%d", n, r), N: nums * extras << (r + n*r), Do: func(c *mc.C, i uint64) {
						mode, extra := i%nums, i/nums%extras
						i /= nums * extras
						mask, fails := i&(1<<r-1), i>>r
						np := bits.OnesCount64(mask)
						if fails>>(n*np) != 0 {
							return
						}
						e := NewEnv(ttl, n)
						for k := range e.Stores {
							k := k
							e.Stores[k].Fail = func(j int) error {
								if j < np && fails>>(k*np+j)&1 != 0 {
									return errs
								}
								return nil
							}
						}
						cn := e.Dial()
						var rs []egts.ServiceDataRecord
						bad := make([]bool, r)
						nth := 0
						for j := 0; j < r; j++ {
							rn := []uint16{uint16(50 + j), 7, uint16(3 - j), uint16(j%2) * 65535}[mode]
							x := gen.RecF(1, rn, uint32(900+j), 0, 0, 2, 2)
							if mask>>j&1 != 0 {
								x = gen.WithSub(x, gen.SubT(16, j))
								for k := 0; k < n; k++ {
									bad[j] = bad[j] || fails>>(k*np+nth)&1 != 0
								}
								nth++
							} else {
								x = gen.WithSub(x, gen.SubT(18, j))
							}
							if j == r-1 {
								switch extra {
								case 1:
									x = gen.WithSub(x, gen.SubT(7, 2))
								case 2:
									x = gen.WithSub(x, gen.SubT(1, 2))
								case 3:
									x = gen.WithSub(x, gen.SubT(0, 2))
								}
							}
							rs = append(rs, x)
						}
						p1 := bytesOf(withPID(gen.Pack(rs...), 77))
						p2 := posOID(78, 60, 5, 2)
						c.Describe("%d stores, %d records (mode %d, extra %d), positions %b, failures %b", n, r, mode, extra, mask, fails)
						cn.Send(p1)
						cn.Send(p2)
						exp := Model(join(p1, p2))
						ctx := fmt.Sprintf("positions %b, failures %b", mask, fails)
						for k := range e.Stores {
							compare(c, e, cn, e.Saves(k), exp, cmpSaves|cmpClose, fmt.Sprintf("store %d, %s", k, ctx))
						}
						checkStatuses(c, cn, exp, ctx, func(k, j int) bool { return extra != 3 && k == 0 && bad[j] })
						handedBeforeConfirmed(c, e, n, exp)
						if !c.Failed() {
							c.State('x', []byte(fmt.Sprint(n, r, mode, extra, mask, fails)))
							c.Outcome("failures handled")
						}
						e.Finish()
					}})
				}
			}
			// failures of every kind: what a store reports with is its own affair
			kindsOf := []error{errs, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, net.ErrClosed, context.Canceled, context.DeadlineExceeded, os.ErrDeadlineExceeded, os.ErrClosed, os.ErrNotExist, os.ErrExist, sql.ErrNoRows, sql.ErrConnDone, sql.ErrTxDone, driver.ErrBadConn, driver.ErrSkip, storage.InvalidStorage, storage.UnknownStorage,
				&net.OpError{Op: "write", Net: "tcp", Err: errors.New("broken pipe")}, &net.DNSError{Err: "no such host", IsTimeout: true, IsTemporary: true}, tempErr{}, errors.New(""), fmt.Errorf("wrapped: %w", io.EOF), &json.UnsupportedValueError{Str: "NaN"}, syscall.EAGAIN, syscall.EINTR, syscall.ECONNRESET, noErr{}, (*nilErr)(nil)}
			out = append(out, mc.Space{Name: "kinds of failures", N: uint64(len(kindsOf)) * 3 * 3 * 4, Do: func(c *mc.C, i uint64) {
				er := kindsOf[i%uint64(len(kindsOf))]
				i /= uint64(len(kindsOf))
				n, w, when := int(i%3)+1, int(i/3%3), int(i/9)
				if w >= n {
					return
				}
				fails := func(j int) bool { return []bool{j == 0, j == 1, j < 2, j != 1}[when] }
				c.Describe("%d stores, store %d fails with %T %v (%d)", n, w, er, er, when)
				r := storage.NewRepository()
				var log []int
				var st []*memStore
				for k := 0; k < n; k++ {
					m := &memStore{log: &log, n: k}
					if k == w {
						m.fail = func(j int) error {
							if fails(j) {
								return er
							}
							return nil
						}
					}
					st = append(st, m)
					r.AddStore(m)
				}
				for j := 0; j < 3; j++ {
					err := r.Save(&blob{id: j})
					c.Op(1)
					if (err != nil) != fails(j) {
						c.Failf("save %d of %d stores returned %v although store %d fails with %T %q: %v", j, n, err, w, er, er, fails(j))
						return
					}
					for k := range st {
						if len(st[k].got) != j+1 {
							c.Failf("store %d got %d records after %d saves; store %d fails with %T %q", k, len(st[k].got), j+1, w, er, er)
							return
						}
					}
				}
				e := NewEnv(ttl, n)
				e.Stores[w].Fail = func(j int) error {
					if fails(j) {
						return er
					}
					return nil
				}
				cn := e.Dial()
				var all []byte
				for j := 0; j < 4; j++ {
					p := posOID(uint16(j), uint16(60+j), uint32(j), j%8)
					cn.Send(p)
					all = append(all, p...)
				}
				exp := Model(all)
				for k := range e.Stores {
					compare(c, e, cn, e.Saves(k), exp, cmpSaves|cmpClose, fmt.Sprintf("store %d while store %d fails with %T", k, w, er))
				}
				got := ParseReplies(cn.Out())
				if !c.Failed() && len(got) != 4 {
					c.Failf("%d replies instead of 4; store %d fails with %T %q", len(got), w, er, er)
				}
				for j := 0; j < 4 && !c.Failed(); j++ {
					if len(got[j].Confs) != 1 || got[j].Invalid != "" || (got[j].Confs[0].Status == 0 && got[j].Code == 0) == fails(j) {
						c.Failf("reply to record %d (failed: %v with %T %q) is %+v", j, fails(j), er, er, got[j])
					}
				}
				if !c.Failed() {
					c.State('k', []byte(fmt.Sprint(n, w, when, er)))
					c.Outcome("failures of every kind")
				}
				e.Finish()
			}})
			// blocked saves: store k, record j
			for n := 1; n <= 3; n++ {
				n := n
				out = append(out, mc.Space{Name: fmt.Sprintf("blocked/%d", n), N: uint64(n * 4 * 4 * 2), Do: func(c *mc.C, i uint64) {
					k := int(i) % n
					i /= uint64(n)
					j, r := int(i%4), int(i/4%4)+1
					queued := i/16 == 1
					if j >= r {
						return
					}
					e := NewEnv(ttl, n)
					e.Stores[k].Gate()
					cn := e.Dial()
					var rs []egts.ServiceDataRecord
					for x := 0; x < r; x++ {
						rs = append(rs, gen.WithSub(gen.RecF(1, uint16(50+x), uint32(900+x), 0, 0, 2, 2), gen.SubT(16, x)))
					}
					p := bytesOf(withPID(gen.Pack(rs...), 77))
					all := p
					cn.Send(p)
					if queued {
						q := posOID(78, 60, 5, 2)
						cn.Send(q)
						all = join(p, q)
					}
					for x := 0; x < r; x++ {
						if x == j {
							e.Sleep(time.Hour)
						}
						if len(cn.Out()) > 0 {
							c.Failf("record %d is still being saved by store %d but the packet was already answered: %s", x, k, hexes(cn.Out()))
						}
						w := e.Stores[k].Waiting()
						if len(w) != 1 {
							c.Failf("store %d has %d saves under way instead of 1 (record %d)", k, len(w), x)
							break
						}
						e.Stores[k].Release(w[0])
						e.Wait()
					}
					if queued && !c.Failed() {
						for _, w := range e.Stores[k].Waiting() {
							e.Stores[k].Release(w)
						}
						e.Wait()
					}
					for s := range e.Stores {
						compare(c, e, cn, e.Saves(s), Model(all), cmpSaves|cmpReplies, "after a blocked save")
					}
					handedBeforeConfirmed(c, e, n, Model(all))
					if !c.Failed() {
						c.State('b', []byte(fmt.Sprint(n, k, j, r, queued)))
						c.Outcome("no early confirmation")
					}
					e.Finish()
				}})
			}
			// slow stores
			out = append(out, mc.Space{Name: "slow", N: 3 * 4 * uint64(len(kinds)), Do: func(c *mc.C, i uint64) {
				n := int(i%3) + 1
				i /= 3
				d := []time.Duration{time.Millisecond, time.Second, ttl - time.Second, 3 * ttl}[i%4]
				e := NewEnv(ttl, n)
				for _, s := range e.Stores {
					s.Delay = d
				}
				cn := e.Dial()
				b := join(kinds[i/4].mk(1), kinds[2].mk(2), kinds[0].mk(3))
				cn.Send(b)
				e.Sleep(time.Duration(n) * 5 * d)
				for s := range e.Stores {
					compare(c, e, cn, e.Saves(s), Model(b), cmpSaves|cmpReplies, "slow store")
				}
				handedBeforeConfirmed(c, e, n, Model(b))
				c.Outcome("slow store")
				e.Finish()
			}})
			out = append(out, failingLong(500))
			return out
		}}
}

// checkConfirmed: records whose save failed must not be confirmed with status 0, all others must. fails has a bit for
// each of the r records of the first packet and each of the n stores.
func checkConfirmed(c *mc.C, e *Env, cn *Conn, exp Exp, r, n int, fails uint64) {
	checkStatuses(c, cn, exp, fmt.Sprintf("failures %b", fails), func(k, j int) bool {
		bad := false
		for s := 0; k == 0 && s < n; s++ {
			bad = bad || fails>>(s*r+j)&1 != 0
		}
		return bad
	})
}

// checkStatuses: failed(k, j) tells whether saving the record of the jth confirmation of reply k failed.
func checkStatuses(c *mc.C, cn *Conn, exp Exp, ctx string, failed func(k, j int) bool) {
	if c.Failed() {
		return
	}
	got := ParseReplies(cn.Out())
	want := exp.Replies()
	if len(got) != len(want) {
		c.Failf("%s: %d replies instead of %d", ctx, len(got), len(want))
		return
	}
	for k := range want {
		if got[k].Invalid != "" || got[k].RPID != want[k].RPID || len(got[k].Confs) != len(want[k].Confs) {
			c.Failf("%s: reply %d is %+v instead of %+v", ctx, k, got[k], want[k])
			return
		}
		for j := range want[k].Confs {
			bad := failed(k, j)
			g := got[k].Confs[j]
			if g.RN != want[k].Confs[j].RN {
				c.Failf("%s: confirmation for record %d instead of %d", ctx, g.RN, want[k].Confs[j].RN)
				return
			}
			if bad && g.Status == 0 && got[k].Code == 0 {
				c.Failf("%s: record %d (the %dth), which a store failed to save, is confirmed with status 0", ctx, g.RN, j)
				return
			}
			if !bad && g.Status != 0 {
				c.Failf("%s: record %d (the %dth), which all stores have if it has a position, is confirmed with status %d", ctx, g.RN, j, g.Status)
				return
			}
		}
	}
	c.Trace()
}

// handedBeforeConfirmed: in the log, a reply comes only after every store completed the saves of its packet and
// of the packets before it.
func handedBeforeConfirmed(c *mc.C, e *Env, n int, exp Exp) {
	if c.Failed() {
		return
	}
	var need []int // per reply: saves that must be complete
	cum := 0
	for _, p := range exp.Pkts {
		cum += len(p.Saves)
		for range p.Replies {
			need = append(need, cum)
		}
	}
	done := make([]int, n)
	var all []byte
	seen := 0
	for _, v := range e.Log() {
		switch v.Kind {
		case "saved":
			done[v.N]++
		case "write":
			all = append(all, v.Data...)
			for ; seen < len(ParseReplies(all)) && seen < len(need); seen++ {
				for k := range done {
					if done[k] < need[seen] {
						c.Failf("reply %d was sent when store %d had completed %d saves, %d are required", seen, k, done[k], need[seen])
						return
					}
				}
			}
		}
	}
}
