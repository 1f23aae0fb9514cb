package codec

import (
	"bytes"
	"fmt"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"verifharness/gen"
	"verifharness/mc"
	"verifharness/ref"
)

// judge compares the verdict and, if accepted, the value with the reference. exact: the code must be right too.
func judge(c *mc.C, b []byte, exact bool, key egts.SecretKey) {
	c.Describe("bytes %s", hx(b))
	var dec func(x []byte) ([]byte, bool)
	var opt []func(*egts.Options)
	if key != nil {
		dec = func(x []byte) ([]byte, bool) { o, err := key.Decode(cp(x)); return o, err == nil }
		opt = append(opt, func(o *egts.Options) { o.Secret = key })
	}
	v := ref.DecodePackage(b, dec)
	var q egts.Package
	code, err := q.Decode(within(b, 1), opt...)
	c.Op(1)
	if (err == nil) != (code == 0) {
		c.Failf("code %d with error %v\nbytes %s", code, err, hx(b))
		return
	}
	if v.Unspec {
		c.Outcome("unspecified")
		return
	}
	if v.OK() {
		if err != nil {
			c.Failf("rejected with code %d (%v), must be accepted\nbytes %s", code, err, hx(b))
			return
		}
		if !ref.Equal(&q, v.Pkg) {
			c.Failf("decodes to %s\nbytes %s", diff(&q, v.Pkg), hx(b))
			return
		}
	} else {
		if err == nil {
			c.Failf("accepted, must be rejected with one of %v; decoded %s\nbytes %s", v.Codes, short(&q), hx(b))
			return
		}
		if exact && !v.Allows(code) {
			c.Failf("result code %d (%v), must be one of %v\nbytes %s", code, err, v.Codes, hx(b))
			return
		}
	}
	c.State('j', b)
	c.Trace()
	c.Outcome(codeNames[code])
}

func judgeSection(c *mc.C, t byte, b []byte) {
	if t == 15 {
		return
	}
	d, surplus, ok := ref.DecodeSection(t, b)
	if t == 0 && surplus > 0 {
		return
	}
	e := ref.NewSection(t)
	err := e.Decode(within(b, 1))
	c.Op(1)
	if !ok {
		if err == nil {
			c.Failf("section type %d ends inside a field but is accepted as %s\nbytes %s", t, short(e), hx(b))
		}
		c.Outcome("section rejected")
		return
	}
	if err != nil || !ref.Equal(e, d) {
		c.Failf("section type %d decodes to %s (%v)\nbytes %s", t, diff(e, d), err, hx(b))
	}
	c.Trace()
	c.Outcome("section accepted")
}

func sub(t byte, b []byte) []byte { return append([]byte{t, byte(len(b)), byte(len(b) >> 8)}, b...) }

func rec(rn byte, f byte, rds []byte) []byte {
	b := []byte{byte(len(rds)), byte(len(rds) >> 8), rn, 0, f}
	for k := 0; k < 3; k++ {
		if f>>k&1 != 0 {
			b = append(b, 0x11, 0x12, 0x13, 0x14)
		}
	}
	return append(append(b, 2, 2), rds...)
}

func frame(pt byte, body []byte) []byte {
	return ref.Packet(ref.Header{PRV: 1, HL: 11, PID: 0x0102, PT: pt}, body)
}

func fewFlags(s *gen.Spec) []uint {
	if len(s.Flags) <= 256 {
		return s.Flags
	}
	var fl []uint
	for a := 0; a < 16; a++ {
		fl = append(fl, 1<<a, 0xFFFF&^(1<<a))
		for b := 0; b < a; b++ {
			fl = append(fl, 1<<a|1<<b)
		}
	}
	return append(fl, 0, 0xFFFF, 0x00FF, 0xFF00, 0x5555, 0xAAAA)
}

func init() {
	checks["C06"] = func() mc.Check {
		return mc.Check{Bound: "every section x every flag combination x 4 value patterns cut at every length and extended by up to 24 surplus bytes, alone, as only, first and last subrecord and in a response, all outer lengths and checksums right; every announced subrecord, record and frame length from 0 to 80 more than there is and the largest, over every section; every cut of multi-record frames with repaired lengths and checksums",
			Spaces: func(tier string) []mc.Space {
				th := tier == "thorough"
				var out []mc.Space
				pats := []int{0, 1, 2, 5}
				if th {
					pats = []int{0, 1, 2, 3, 4, 5, 6, 7}
				}
				const nctx = 6
				put := func(c *mc.C, t byte, x []byte, ctx uint64) {
					switch ctx {
					case 0:
						judgeSection(c, t, x)
					case 1:
						judge(c, frame(1, rec(1, 0, sub(t, x))), false, nil)
					case 2:
						judge(c, frame(1, rec(1, 1, append(sub(t, x), sub(24, []byte{1, 2, 3, 4})...))), false, nil)
					case 3:
						judge(c, frame(1, rec(1, 7, append(sub(9, []byte{0}), sub(t, x)...))), false, nil)
					case 4:
						judge(c, frame(1, append(rec(1, 0, sub(t, x)), rec(2, 1, sub(24, []byte{1, 2, 3, 4}))...)), false, nil)
					case 5:
						judge(c, frame(0, append([]byte{1, 2, 0}, rec(1, 0, sub(t, x))...)), false, nil)
					}
				}
				for _, s := range gen.Specs {
					s := s
					fl := fewFlags(s)
					types := []byte{s.Type}
					if s.Type == 21 {
						types = []byte{21, 20}
					}
					np := uint64(len(pats))
					for _, t := range types {
						t := t
						out = append(out, mc.Space{Name: fmt.Sprintf("cut/%s%d", s.Name, t), N: uint64(len(fl)) * np * nctx, Do: func(c *mc.C, i uint64) {
							ctx := i % nctx
							i /= nctx
							b, _ := ref.EncodeSection(s.Build(fl[i/np], gen.Pattern(s, pats[i%np])))
							for n := 0; n <= len(b) && !c.Failed(); n++ {
								put(c, t, b[:n], ctx)
							}
						}})
						out = append(out, mc.Space{Name: fmt.Sprintf("surplus/%s%d", s.Name, t), N: uint64(len(fl)) * nctx * 3, Do: func(c *mc.C, i uint64) {
							ctx := i % nctx
							i /= nctx
							fill := []byte{0, 0x55, 0xFF}[i%3]
							b, _ := ref.EncodeSection(s.Build(fl[i/3], gen.Pattern(s, 2)))
							for n := 1; n <= 24 && !c.Failed(); n++ {
								put(c, t, append(cp(b), bytes.Repeat([]byte{fill}, n)...), ctx)
							}
						}})
						// announced lengths; 0: subrecord, 1: record, 2: both by the same amount
						out = append(out, mc.Space{Name: fmt.Sprintf("announce/%s%d", s.Name, t), N: 3 * 4 * 260, Do: func(c *mc.C, i uint64) {
							which := i % 3
							i /= 3
							ctx := i % 4
							d := int(i / 4)
							b, _ := ref.EncodeSection(s.Build(s.All, gen.Pattern(s, 2)))
							if len(b) > 200 {
								b = b[:60]
							}
							srl, rl := len(b), len(b)+3
							next := []byte{}
							switch ctx {
							case 1: // another subrecord in the record
								next = sub(24, []byte{1, 2, 3, 4})
								rl += len(next)
							case 2: // another record
								next = rec(2, 1, sub(24, []byte{1, 2, 3, 4}))
							case 3:
								next = append(sub(16, bytes.Repeat([]byte{7}, 21)), rec(2, 0, sub(27, []byte{1, 2, 3, 4, 5, 6, 7}))...)
								rl += 24
							}
							v := d
							if d == 259 {
								v = 65535
							}
							if which == 0 || which == 2 {
								srl = v
							}
							if which == 1 {
								rl = v
							} else if which == 2 {
								rl += v - len(b)
								if rl < 0 || rl > 65535 {
									return
								}
							}
							body := []byte{byte(rl), byte(rl >> 8), 1, 0, 0, 2, 2, t, byte(srl), byte(srl >> 8)}
							body = append(append(body, b...), next...)
							judge(c, frame(1, body), false, nil)
							judge(c, frame(0, append([]byte{3, 0, 0}, body...)), false, nil)
						}})
					}
				}
				// frame length announced against what is there, and every cut of every base packet with repaired lengths
				for _, bp := range bases {
					bp := bp
					n := uint64(len(bp.b))
					out = append(out, mc.Space{Name: "frame/" + bp.name, N: (n + 80) * 3, Do: func(c *mc.C, i uint64) {
						v := int(i / 3)
						x := append([]byte{}, bp.b...)
						if i%3 == 1 {
							x = append(x, bp.b...)
						} else if i%3 == 2 {
							x = append(x, make([]byte, 100)...)
						}
						x[5], x[6] = byte(v), byte(v>>8)
						judge(c, fix(x, 3), false, nil)
					}})
					out = append(out, mc.Space{Name: "body/" + bp.name, N: n, Do: func(c *mc.C, i uint64) {
						k := int(i)
						if k <= bp.hl || k > len(bp.b)-2 {
							return
						}
						x := append(append([]byte{}, bp.b[:k]...), 0, 0)
						m := k - bp.hl
						x[5], x[6] = byte(m), byte(m>>8)
						judge(c, fix(x, 3), false, nil)
					}})
					// remove or insert bytes anywhere in the body, outer frame consistent
					out = append(out, mc.Space{Name: "shift/" + bp.name, N: n * 16, Do: func(c *mc.C, i uint64) {
						k, d := int(i/16), int(i%16)
						body := bp.b[bp.hl : len(bp.b)-2]
						if k >= len(body) {
							return
						}
						var x []byte
						if d < 8 {
							if k+d+1 > len(body) {
								return
							}
							x = append(cp(body[:k]), body[k+d+1:]...)
						} else {
							x = append(append(cp(body[:k]), bytes.Repeat([]byte{byte(d)}, d-7)...), body[k:]...)
						}
						if len(x) == 0 {
							return
						}
						judge(c, frame(bp.b[9], x), false, nil)
					}})
				}
				// record headers cut, with every combination of optional fields
				out = append(out, mc.Space{Name: "rechead", N: 256 * 40 * 3, Do: func(c *mc.C, i uint64) {
					f := byte(i)
					i >>= 8
					n := int(i % 40)
					r := rec(5, f, []byte{24, 4, 0, 1, 2, 3, 4})
					switch i / 40 {
					case 1:
						r = append(rec(4, 0, []byte{9, 1, 0, 0}), r...)
					case 2:
						r = append(rec(4, 7, nil), r...)
					}
					if n > len(r) || n == 0 {
						return
					}
					judge(c, frame(1, r[:n]), false, nil)
					judge(c, frame(0, append([]byte{1, 0, 0}, r[:n]...)), false, nil)
				}})
				return out
			}}
	}
	checks["C20"] = c20
}

func c20() mc.Check {
	var unknown []byte
	for t := 0; t < 256; t++ {
		if !ref.KnownType(byte(t)) {
			unknown = append(unknown, byte(t))
		}
	}
	nu := uint64(len(unknown))
	return mc.Check{Bound: "all 240 unsupported subrecord types x lengths 0..40 (thorough 0..300) and around 255, 256, 32767 and the frame limit x 6 contents (including ones that look like subrecords and records) x 7 positions (alone, before, between, after supported subrecords, in the first of several records, in a response), between all pairs of supported sections, and several unknown ones in a row, also with everything logged",
		Spaces: func(tier string) []mc.Space {
			th := tier == "thorough"
			lens := []int{}
			for n := 0; n <= 40; n++ {
				lens = append(lens, n)
			}
			if th {
				for n := 41; n <= 300; n++ {
					lens = append(lens, n)
				}
			}
			lens = append(lens, 255, 256, 257, 511, 512, 767, 768)
			nl := uint64(len(lens))
			fill := func(k uint64, t byte, n int) []byte {
				switch k {
				case 0:
					return make([]byte, n)
				case 1:
					return bytes.Repeat([]byte{0xFF}, n)
				case 2:
					return bytes.Repeat([]byte{t}, n)
				case 3: // looks like subrecords
					return bytes.Repeat([]byte{24, 4, 0, 9, 9, 9, 9}, n/7+1)[:n]
				case 4: // looks like a record
					return bytes.Repeat(rec(9, 0, sub(24, []byte{8, 8, 8, 8})), n/14+1)[:n]
				}
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(i*31 + 7)
				}
				return b
			}
			known := func(t byte, pat int) []byte {
				x := gen.SubT(t, pat)
				b, _ := ref.EncodeSection(x.SubrecordData)
				return sub(t, b)
			}
			// both: packet with the unknown subrecord and the same packet without it
			pair := func(c *mc.C, pt byte, pre, u, post []byte, f byte, tail []byte) {
				mk := func(mid []byte) []byte {
					body := rec(1, f, append(append(cp(pre), mid...), post...))
					body = append(body, tail...)
					if pt == 0 {
						body = append([]byte{7, 0, 0}, body...)
					}
					return body
				}
				with, without := mk(u), mk(nil)
				if len(with) > 65535 {
					return
				}
				b1, b2 := frame(pt, with), frame(pt, without)
				c.Describe("with %s", hx(b1))
				c.Describe("without %s", hx(b2))
				var p1, p2 egts.Package
				code, err := p1.Decode(b1)
				c.Op(1)
				if err != nil || code != 0 {
					c.Failf("packet with an unknown subrecord is rejected: code %d, %v\nbytes %s", code, err, hx(b1))
					return
				}
				code, err = p2.Decode(b2)
				c.Op(1)
				if err != nil || code != 0 {
					c.Failf("harness or C06: packet without the unknown subrecord is rejected: %d %v %s", code, err, hx(b2))
					return
				}
				x, y := gen.Norm(&p1), gen.Norm(&p2)
				if !ref.Equal(x, y) {
					c.Failf("with an unknown subrecord the rest decodes to %s\nbytes %s", diff(x, y), hx(b1))
					return
				}
				c.State('u', b1)
				c.Trace()
				c.Outcome("skipped")
			}
			var out []mc.Space
			pos := func(c *mc.C, k uint64, u []byte) {
				second := append(rec(2, 1, known(16, 2)), rec(3, 0, known(27, 5))...)
				switch k {
				case 0:
					pair(c, 1, nil, u, nil, 0, nil)
				case 1:
					pair(c, 1, nil, u, append(known(16, 2), known(24, 5)...), 1, nil)
				case 2:
					pair(c, 1, known(16, 2), u, known(18, 5), 7, nil)
				case 3:
					pair(c, 1, append(known(16, 2), known(25, 5)...), u, nil, 0, nil)
				case 4:
					pair(c, 1, known(16, 1), u, nil, 1, second)
				case 5:
					pair(c, 0, known(0, 2), u, known(0, 5), 0, nil)
				case 6:
					pair(c, 1, append(append(known(1, 2), u...), known(16, 2)...), u, append(append([]byte{}, u...), known(27, 2)...), 0, second)
				}
			}
			out = append(out, mc.Space{Name: "small", N: nu * nl * 6 * 7, Do: func(c *mc.C, i uint64) {
				t := unknown[i%nu]
				i /= nu
				k := i % 7
				i /= 7
				n := lens[i%nl]
				pos(c, k, sub(t, fill(i/nl, t, n)))
			}})
			big := []int{1000, 4095, 4096, 32760, 32767, 32768, 40000, 65000, 65400, 65535 - 10, 65535 - 7 - 3 - 3}
			nb := uint64(len(big))
			out = append(out, mc.Space{Name: "big", N: nu * nb * 7, Do: func(c *mc.C, i uint64) {
				t := unknown[i%nu]
				i /= nu
				pos(c, i/nb, sub(t, fill(5, t, big[i%nb])))
			}})
			nt := uint64(len(gen.Types))
			out = append(out, mc.Space{Name: "between", N: nu * nt * nt, Do: func(c *mc.C, i uint64) {
				t := unknown[i%nu]
				i /= nu
				pair(c, 1, known(gen.Types[i%nt], 2), sub(t, fill(3, t, int(t)%23)), known(gen.Types[i/nt], 7), byte(i%8), nil)
			}})
			out = append(out, mc.Space{Name: "pairs", N: nu * nu, Do: func(c *mc.C, i uint64) {
				a, b := unknown[i%nu], unknown[i/nu]
				pair(c, 1, known(16, 2), append(sub(a, fill(2, a, int(b)%9)), sub(b, fill(0, b, int(a)%5))...), known(27, 2), 1, nil)
			}})
			out = append(out, mc.Space{Name: "many", N: nu, Do: func(c *mc.C, i uint64) {
				var u []byte
				for k := 0; k < int(i)*4; k++ {
					t := unknown[k%len(unknown)]
					u = append(u, sub(t, fill(uint64(k%6), t, k%11))...)
				}
				pair(c, 1, known(16, 2), u, known(27, 2), 1, rec(2, 0, known(16, 5)))
			}})
			out = append(out, WithLog(named(out, "between", "pairs", "many")...)...)
			return out
		}}
}
