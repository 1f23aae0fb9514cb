package codec

import (
	"bytes"
	"fmt"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"verifharness/gen"
	"verifharness/mc"
	"verifharness/ref"
)

// base packets for mutation: every section, routed and unrouted, responses, several records.
type basePkt struct {
	name string
	b    []byte
	hl   int
}

func mkBase(name string, p *egts.Package) basePkt {
	b, ok := ref.EncodePackage(p, nil)
	if !ok {
		panic("base " + name)
	}
	hl := 11
	if b[2]&0x20 != 0 {
		hl = 16
	}
	return basePkt{name, b, hl}
}

func route(p *egts.Package) *egts.Package {
	gen.SetFlags(p, 0x21)
	p.PeerAddress, p.RecipientAddress, p.TimeToLive = 0x0A0B, 0x0C0D, 5
	return p
}

var bases = func() []basePkt {
	var out []basePkt
	for _, t := range gen.Types {
		if t == 15 { // the full storage record has 594 bytes: a part of it
			s := gen.SpecOf(15)
			out = append(out, mkBase("type15", gen.Pack(gen.Rec(1, s.Build(s.Only(len(s.Fields)-1), gen.Pattern(s, 2))))))
			continue
		}
		out = append(out, mkBase(fmt.Sprintf("type%d", t), gen.Pack(gen.WithSub(gen.Rec(1), gen.SubT(t, 2)))))
	}
	out = append(out,
		mkBase("routed", route(gen.Pack(gen.WithSub(gen.RecF(1, 1, 0x01020304, 0, 0, 2, 2), gen.SubT(16, 5))))),
		mkBase("two", gen.Pack(gen.WithSub(gen.RecF(7, 1, 9, 8, 7, 2, 2), gen.SubT(16, 5), gen.SubT(24, 2)), gen.WithSub(gen.RecF(1, 2, 6, 0, 0, 2, 2), gen.SubT(27, 2)))),
		mkBase("resp-none", gen.Respond(7, 0, -1)),
		mkBase("resp1", gen.Respond(7, 0, 1)),
		mkBase("resp-routed", route(gen.Respond(0x8001, 3, 2))),
		mkBase("empty-record", gen.Pack(gen.Rec(5))),
		mkBase("three", gen.Pack(gen.WithSub(gen.Rec(1), gen.SubT(25, 2)), gen.WithSub(gen.RecF(2, 2, 0, 5, 0, 2, 2), gen.SubT(9, 1)), gen.WithSub(gen.RecF(4, 3, 0, 0, 5, 2, 2), gen.SubT(0, 1)))),
	)
	return out
}()

// fix repairs checksums: bit 0 the header's, bit 1 the body's (where the lengths in the packet put them).
func fix(b []byte, what uint64) []byte {
	if what&1 != 0 && len(b) >= 11 {
		hl := 11
		if b[2]&0x20 != 0 {
			hl = 16
		}
		if len(b) >= hl {
			b[hl-1] = ref.CRC8(b[:hl-1])
		}
	}
	if what&2 != 0 && len(b) >= 11 {
		hl := 11
		if b[2]&0x20 != 0 {
			hl = 16
		}
		n := int(b[5]) | int(b[6])<<8
		if len(b) >= hl+n+2 {
			c := ref.CRC16(b[hl : hl+n])
			b[hl+n], b[hl+n+1] = byte(c), byte(c>>8)
		}
	}
	return b
}

// target is one of the decoders.
type target struct {
	name    string
	mk      func() interface{ Decode([]byte) error }
	yes, no string
}

var codeNames = func() (n [256]string) {
	for i := range n {
		n[i] = fmt.Sprintf("code %d", i)
	}
	return
}()

var targets = func() []target {
	out := []target{
		{name: "records", mk: func() interface{ Decode([]byte) error } { return &egts.ServiceDataSet{} }},
		{name: "subrecords", mk: func() interface{ Decode([]byte) error } { return &egts.RecordDataSet{} }},
		{name: "response", mk: func() interface{ Decode([]byte) error } { return &egts.PtResponse{} }},
	}
	for _, s := range gen.Specs {
		t := s.Type
		out = append(out, target{name: s.Name, mk: func() interface{ Decode([]byte) error } { return ref.NewSection(t) }})
	}
	for i := range out {
		out[i].yes, out[i].no = out[i].name+" accepted", out[i].name+" rejected"
	}
	return out
}()

var tails = [2][]byte{bytes.Repeat([]byte{0x00}, 96), bytes.Repeat([]byte{0xFF}, 96)}

// within gives two copies of b that are followed, beyond their length, by different bytes.
func within(b []byte, k int) []byte {
	x := make([]byte, len(b)+len(tails[k]))
	copy(x, b)
	copy(x[len(b):], tails[k])
	return x[:len(b)]
}

// noCrashPkg decodes a byte string as a packet: it must end, must not depend on memory beyond the input, and
// error and result code must agree.
func noCrashPkg(c *mc.C, b []byte, opt ...func(*egts.Options)) {
	c.Describe("packet decoder on %s", hx(b))
	var q, r egts.Package
	code, err := q.Decode(within(b, 0), opt...)
	code2, err2 := r.Decode(within(b, 1), opt...)
	c.Op(2)
	if (err == nil) != (code == 0) {
		c.Failf("code %d with error %v\nbytes %s", code, err, hx(b))
		return
	}
	if code != code2 || (err == nil) != (err2 == nil) || (err == nil && !ref.Equal(&q, &r)) {
		c.Failf("the result depends on bytes outside the input: code %d (%v) or %d (%v)\nbytes %s", code, err, code2, err2, hx(b))
		return
	}
	c.State('p', b)
	c.Outcome(codeNames[code])
}

func noCrash(c *mc.C, t target, b []byte) {
	c.Describe("%s decoder on %s", t.name, hx(b))
	x, y := t.mk(), t.mk()
	err := x.Decode(within(b, 0))
	err2 := y.Decode(within(b, 1))
	c.Op(2)
	if (err == nil) != (err2 == nil) || (err == nil && !ref.Equal(x, y)) {
		c.Failf("the result of the %s decoder depends on bytes outside the input: %v or %v\nbytes %s", t.name, err, err2, hx(b))
		return
	}
	c.State(t.name[0]^t.name[1], b)
	if err == nil {
		c.Outcome(t.yes)
	} else {
		c.Outcome(t.no)
	}
}

func mutSpaces(do func(c *mc.C, b []byte), th bool) []mc.Space {
	var out []mc.Space
	for _, bp := range bases {
		bp := bp
		n := uint64(len(bp.b))
		out = append(out, mc.Space{Name: "byte/" + bp.name, N: n * 256 * 4, Do: func(c *mc.C, i uint64) {
			x := append([]byte{}, bp.b...)
			x[i/1024] = byte(i)
			do(c, fix(x, i>>8&3))
		}})
		out = append(out, mc.Space{Name: "cut/" + bp.name, N: (n + 1) * 8, Do: func(c *mc.C, i uint64) {
			k := int(i / 8)
			x := append([]byte{}, bp.b[:k]...)
			f := i % 8
			if f&4 != 0 && k >= bp.hl { // announce what is left
				m := k - bp.hl
				if f&3 == 3 {
					x = append(x, 0, 0)
				} else if m >= 2 {
					m -= 2
				}
				x[5], x[6] = byte(m), byte(m>>8)
			}
			do(c, fix(x, f&3))
		}})
		vals := []byte{0, 1, 5, 0x7F, 0x80, 0xFF}
		nv := uint64(len(vals))
		out = append(out, mc.Space{Name: "pair/" + bp.name, N: n * n * nv * nv, Do: func(c *mc.C, i uint64) {
			x := append([]byte{}, bp.b...)
			v := i % (nv * nv)
			i /= nv * nv
			if i/n > i%n {
				return
			}
			x[i/n] = vals[v%nv]
			x[i%n] = vals[v/nv]
			do(c, fix(x, 3))
		}})
		// all 16-bit values at every even offset with fixed checksums (lengths, ids)
		step := uint64(7)
		if th {
			step = 1
		}
		out = append(out, mc.Space{Name: "word/" + bp.name, N: (n - 1) * (65536/step + 1), Do: func(c *mc.C, i uint64) {
			per := 65536/step + 1
			k := i / per
			v := i % per * step
			x := append([]byte{}, bp.b...)
			x[k], x[k+1] = byte(v), byte(v>>8)
			do(c, fix(x, 3))
		}})
	}
	return out
}

// hdrSpaces: header length x flags x frame length x available bytes, checksums right.
func hdrSpaces(do func(c *mc.C, b []byte)) []mc.Space {
	return []mc.Space{{Name: "header", N: 256 * 256 * 6 * 5, Do: func(c *mc.C, i uint64) {
		hl, fl := byte(i), byte(i>>8)
		i >>= 16
		fdl := []int{0, 1, 9, 20, 300, 65535}[i%6]
		avail := []int{0, 1, 2, 22, 320}[i/6]
		h := ref.Header{PRV: 1, Flags: fl, HL: hl, FDL: uint16(fdl), PID: 3, PT: byte(i % 3)}
		b := h.Bytes()
		b = append(b, make([]byte, avail)...)
		do(c, fix(b, 2))
	}}, {Name: "header-len", N: 256 * 2 * 24, Do: func(c *mc.C, i uint64) { // checksum where the announced length puts it
		hl := int(byte(i))
		i >>= 8
		h := ref.Header{PRV: 1, Flags: byte(i%2) * 0x20, HL: byte(hl), FDL: 9, PID: 3, PT: 1}
		b := h.Bytes()
		b = append(b, make([]byte, int(i/2)*12)...)
		if hl > 0 && len(b) >= hl {
			b[hl-1] = ref.CRC8(b[:hl-1])
		}
		do(c, b)
	}}}
}

func init() {
	checks["C04"] = func() mc.Check {
		return mc.Check{Hang: 20e9, Bound: "all byte strings up to 2 bytes (thorough 3) for the packet decoder and all 18 inner decoders; strings over small alphabets up to 6-8 bytes for record and subrecord sets; every section truncated and filled at every length; 23 base packets with every byte replaced by every value, every pair of bytes by boundary values, every 16-bit word (checksums repaired or not), every cut; all header length x flag combinations; maximal frames of every fill byte; keys that return nothing, too little or too much; nested confirmations to depth 5000",
			Spaces: func(tier string) []mc.Space {
				th := tier == "thorough"
				var out []mc.Space
				nt := uint64(len(targets) + 1)
				run := func(c *mc.C, k uint64, b []byte) {
					if k == 0 {
						noCrashPkg(c, b)
						return
					}
					noCrash(c, targets[k-1], b)
				}
				out = append(out, mc.Space{Name: "all/0-2", N: (1 + 256 + 65536) * nt, Do: func(c *mc.C, i uint64) {
					k := i % nt
					i /= nt
					switch {
					case i == 0:
						run(c, k, nil)
						run(c, k, []byte{})
					case i <= 256:
						run(c, k, []byte{byte(i - 1)})
					default:
						i -= 257
						run(c, k, []byte{byte(i), byte(i >> 8)})
					}
				}})
				if th {
					out = append(out, mc.Space{Name: "all/3", N: 1 << 24 * nt, Do: func(c *mc.C, i uint64) {
						k := i % nt
						i /= nt
						run(c, k, []byte{byte(i), byte(i >> 8), byte(i >> 16)})
					}})
				}
				// small alphabets
				alpha := func(name string, k uint64, a []byte, l int) {
					n := uint64(1)
					for j := 0; j < l; j++ {
						n *= uint64(len(a))
					}
					out = append(out, mc.Space{Name: fmt.Sprintf("alpha/%s/%d", name, l), N: n, Do: func(c *mc.C, i uint64) {
						b := make([]byte, l)
						for j := range b {
							b[j] = a[i%uint64(len(a))]
							i /= uint64(len(a))
						}
						run(c, k, b)
					}})
				}
				m := 0
				if th {
					m = 1
				}
				for l := 3; l <= 6+m; l++ {
					alpha("subrecords", 2, []byte{0, 1, 2, 3, 7, 16, 20, 99, 255}, l)
				}
				for l := 3; l <= 8+m; l++ {
					alpha("records", 1, []byte{0, 1, 7, 8, 255}, l)
					alpha("response", 3, []byte{0, 1, 7, 255}, l)
				}
				// sections: every leading byte, every fill, every length
				for k := range targets {
					k := k
					if k < 3 {
						continue
					}
					out = append(out, mc.Space{Name: "fill/" + targets[k].name, N: 256 * 5 * 140, Do: func(c *mc.C, i uint64) {
						n := int(i % 140)
						i /= 140
						fill := []byte{0, 1, 0x7F, 0x80, 0xFF}[i%5]
						b := bytes.Repeat([]byte{fill}, n)
						for _, p := range []int{0, 4} { // flags are the first byte, or follow a 32-bit field
							x := append([]byte{}, b...)
							if p < n {
								x[p] = byte(i / 5)
								noCrash(c, targets[k], x)
							}
						}
					}})
				}
				out = append(out, mc.Space{Name: "ads/flags", N: 65536 * 4, Do: func(c *mc.C, i uint64) {
					n := []int{3, 8, 20, 35}[i>>16]
					b := bytes.Repeat([]byte{0x5A}, n)
					b[0], b[2] = byte(i), byte(i>>8)
					noCrash(c, targets[5], b)
				}})
				// subrecord sets: type x announced length x available
				out = append(out, mc.Space{Name: "sub/announced", N: 256 * 70 * 70, Do: func(c *mc.C, i uint64) {
					t := byte(i)
					i >>= 8
					srl, n := int(i%70), int(i/70)
					if srl == 69 {
						srl = 65535
					}
					b := append([]byte{t, byte(srl), byte(srl >> 8)}, bytes.Repeat([]byte{byte(t)}, n)...)
					noCrash(c, targets[1], b)
				}})
				out = append(out, mc.Space{Name: "rec/announced", N: 256 * 40 * 40, Do: func(c *mc.C, i uint64) {
					f := byte(i)
					i >>= 8
					rl, n := int(i%40), int(i/40)
					if rl == 39 {
						rl = 65535
					}
					b := append([]byte{byte(rl), byte(rl >> 8), 1, 0, f}, bytes.Repeat([]byte{f &^ 0x14}, n)...)
					noCrash(c, targets[0], b)
				}})
				out = append(out, hdrSpaces(func(c *mc.C, b []byte) { noCrashPkg(c, b) })...)
				out = append(out, mutSpaces(func(c *mc.C, b []byte) { noCrashPkg(c, b) }, th)...)
				out = append(out, mc.Space{Name: "big", N: 256 * 4 * 2, Do: func(c *mc.C, i uint64) {
					fill := byte(i)
					i >>= 8
					n := []int{65535, 65534, 40000, 4096}[i%4]
					b := ref.Packet(ref.Header{PRV: 1, HL: 11, PID: 1, PT: byte(i / 4)}, bytes.Repeat([]byte{fill}, n))
					noCrashPkg(c, b)
				}})
				out = append(out, mc.Space{Name: "nest", N: 64, Do: func(c *mc.C, i uint64) {
					var inner []byte
					depth := int(i)
					if i > 40 {
						depth = int(i-40) * 220
					}
					for k := 0; k < depth; k++ {
						sub := append([]byte{1, 0, 0}, inner...)
						rd := append([]byte{0, byte(len(sub)), byte(len(sub) >> 8)}, sub...)
						if len(rd) > 65500 {
							break
						}
						inner = append([]byte{byte(len(rd)), byte(len(rd) >> 8), 1, 0, 0, 2, 2}, rd...)
					}
					if len(inner) > 65000 {
						inner = inner[:65000]
					}
					noCrashPkg(c, ref.Packet(ref.Header{PRV: 1, HL: 11, PID: 1, PT: byte(i % 2)}, inner))
				}})
				nb := uint64(len(bases))
				out = append(out, mc.Space{Name: "key", N: nb * 3 * uint64(len(keys)) * 40, Do: func(c *mc.C, i uint64) {
					cut := int(i % 40)
					i /= 40
					bp := bases[i%nb]
					i /= nb
					x := append([]byte{}, bp.b...)
					x[2] |= byte(i%3+1) << 3
					if cut > 0 && len(x)-cut > bp.hl {
						x = x[:len(x)-cut]
					}
					k := keys[i/3]
					noCrashPkg(c, fix(x, 3), func(o *egts.Options) { o.Secret = k.mk(nil) })
				}})
				return out
			}}
	}
	checks["C05"] = c05
}

func c05() mc.Check {
	return mc.Check{Bound: "cut-off tails of packets with all record numbers (what is missing may have been zeros); 23 base packets: all 1- and 2-bit errors, all 3-bit errors of short unrouted packets (thorough: of 8 packets), all bursts up to 8 bits in the header and up to 16 bits in the body of short packets (thorough: of 8), all byte replacements, all truncations, all wrong header and body checksums, all frame lengths and header lengths with a repaired header checksum",
		Spaces: func(tier string) []mc.Space {
			th := tier == "thorough"
			var out []mc.Space
			check := func(c *mc.C, bp basePkt, b []byte) {
				c.Describe("%s damaged to %s", bp.name, hx(b))
				v := ref.DecodePackage(b, nil)
				if v.Unspec || v.OK() {
					c.Outcome("not detectable by the checksums")
					return
				}
				var q egts.Package
				code, err := q.Decode(b)
				c.Op(1)
				if err == nil || code == 0 {
					c.Failf("a damaged packet is accepted (code %d, %v)\nsent     %s\nreceived %s", code, err, hx(bp.b), hx(b))
					return
				}
				c.State('d', b)
				c.Trace()
				c.Outcome(codeNames[code])
			}
			// what a cut takes away may be zeros: checksums of all values, in packets that end in all kinds of bytes
			out = append(out, mc.Space{Name: "tails", N: 65536 * 3, Do: func(c *mc.C, i uint64) {
				p := gen.Pack(gen.WithSub(gen.RecF(0, uint16(i/3), 0, 0, 0, 2, 2), gen.SubT(24, 0)))
				switch i % 3 {
				case 1:
					p = gen.Respond(uint16(i/3), 0, -1)
				case 2:
					p = gen.SetFlags(gen.Pack(gen.RecF(0, uint16(i/3), 0, 0, 0, 0, 0)), 0x20)
				}
				b, ok := ref.EncodePackage(p, nil)
				if !ok {
					c.Failf("harness: not representable")
					return
				}
				for k := 1; k <= 5; k++ {
					check(c, basePkt{name: "tail", b: b}, b[:len(b)-k:len(b)-k])
				}
			}})
			flip := func(b []byte, k uint64) { b[k/8] ^= 0x80 >> (k % 8) }
			idx := 0
			for _, bp := range bases {
				bp := bp
				nb := uint64(len(bp.b)) * 8
				hb := uint64(bp.hl) * 8
				n := uint64(len(bp.b))
				out = append(out, mc.Space{Name: "bits1/" + bp.name, N: nb, Do: func(c *mc.C, i uint64) {
					x := append([]byte{}, bp.b...)
					flip(x, i)
					check(c, bp, x)
				}})
				out = append(out, mc.Space{Name: "bits2/" + bp.name, N: nb, Do: func(c *mc.C, i uint64) {
					for j := i + 1; j < nb; j++ {
						x := append([]byte{}, bp.b...)
						flip(x, i)
						flip(x, j)
						check(c, bp, x)
					}
				}})
				if bp.hl == 11 && (n <= 26 || th && n <= 40) {
					out = append(out, mc.Space{Name: "bits3/" + bp.name, N: nb * nb, Do: func(c *mc.C, i uint64) {
						a, b := i/nb, i%nb
						if a >= b {
							return
						}
						for j := b + 1; j < nb; j++ {
							x := append([]byte{}, bp.b...)
							flip(x, a)
							flip(x, b)
							flip(x, j)
							check(c, bp, x)
						}
					}})
				}
				out = append(out, mc.Space{Name: "burst8/" + bp.name, N: hb * 128, Do: func(c *mc.C, i uint64) {
					s, pat := i/128, i%128<<1|1 // bit 0: first bit of the burst
					x := append([]byte{}, bp.b...)
					for k := uint64(0); k < 8; k++ {
						if pat>>k&1 == 1 && s+k < hb {
							flip(x, s+k)
						}
					}
					check(c, bp, x)
				}})
				body := nb - hb
				if n <= 26 || th && n <= 48 {
					idx++
					out = append(out, mc.Space{Name: "burst16/" + bp.name, N: body * 32768 / 64, Do: func(c *mc.C, i uint64) {
						for d := uint64(0); d < 64; d++ {
							k := i*64 + d
							s, pat := k/32768, k%32768<<1|1
							x := append([]byte{}, bp.b...)
							for k := uint64(0); k < 16; k++ {
								if pat>>k&1 == 1 && s+k < body {
									flip(x, hb+s+k)
								}
							}
							check(c, bp, x)
						}
					}})
				}
				out = append(out, mc.Space{Name: "byte/" + bp.name, N: n * 256, Do: func(c *mc.C, i uint64) {
					x := append([]byte{}, bp.b...)
					if x[i/256] == byte(i) {
						return
					}
					x[i/256] = byte(i)
					check(c, bp, x)
				}})
				// two neighbouring bytes replaced (a 16-bit burst aligned to bytes), by boundary values and by swaps
				out = append(out, mc.Space{Name: "swap/" + bp.name, N: n * n, Do: func(c *mc.C, i uint64) {
					a, b := i/n, i%n
					if a >= b || bp.b[a] == bp.b[b] {
						return
					}
					x := append([]byte{}, bp.b...)
					x[a], x[b] = x[b], x[a]
					check(c, bp, x)
				}})
				out = append(out, mc.Space{Name: "cut/" + bp.name, N: n, Do: func(c *mc.C, i uint64) { check(c, bp, append([]byte{}, bp.b[:i]...)) }})
				// a cut, with the frame length adjusted to it and the header checksum right: the body checksum must reveal it
				out = append(out, mc.Space{Name: "drop/" + bp.name, N: n * n, Do: func(c *mc.C, i uint64) {
					a, b := i/n, i%n
					if a < uint64(bp.hl) || b <= a || b > n-2 {
						return
					}
					x := append([]byte{}, bp.b[:a]...)
					x = append(x, bp.b[b:]...)
					m := len(x) - bp.hl - 2
					if m <= 0 {
						return
					}
					x[5], x[6] = byte(m), byte(m>>8)
					check(c, bp, fix(x, 1))
				}})
				out = append(out, mc.Space{Name: "hcs/" + bp.name, N: 256, Do: func(c *mc.C, i uint64) {
					x := append([]byte{}, bp.b...)
					if x[bp.hl-1] == byte(i) {
						return
					}
					x[bp.hl-1] = byte(i)
					check(c, bp, x)
				}})
				out = append(out, mc.Space{Name: "sfrcs/" + bp.name, N: 65536, Do: func(c *mc.C, i uint64) {
					x := append([]byte{}, bp.b...)
					if x[n-2] == byte(i) && x[n-1] == byte(i>>8) {
						return
					}
					x[n-2], x[n-1] = byte(i), byte(i>>8)
					check(c, bp, x)
				}})
				out = append(out, mc.Space{Name: "fdl/" + bp.name, N: 65536, Do: func(c *mc.C, i uint64) {
					x := append([]byte{}, bp.b...)
					if x[5] == byte(i) && x[6] == byte(i>>8) {
						return
					}
					x[5], x[6] = byte(i), byte(i>>8)
					x = append(x, bp.b[bp.hl:]...)
					check(c, bp, fix(x, 1))
				}})
				out = append(out, mc.Space{Name: "hl/" + bp.name, N: 512, Do: func(c *mc.C, i uint64) {
					x := append([]byte{}, bp.b...)
					hl := byte(i)
					if x[3] == hl {
						return
					}
					x[3] = hl
					if i < 256 {
						fix(x, 1)
					} else if hl > 0 && int(hl) <= len(x) { // checksum over what the length announces
						x[bp.hl-1] = ref.CRC8(x[:hl-1])
					}
					check(c, bp, x)
				}})
			}
			return out
		}}
}
