package codec

import (
	"fmt"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"verifharness/gen"
	"verifharness/mc"
	"verifharness/ref"
)

// Defects are the ways in which a packet can be bad; a subset of them is applied to a good packet.
var defects = []string{"cut header", "header length", "header checksum", "no body", "type", "encrypted", "cut body", "content", "body checksum", "no checksum"}

// Defective applies a subset of the defects (bit k: defects[k]) in a variant to a packet of the given kind.
func Defective(mask uint64, variant, kind int) []byte {
	f := byte(0)
	if kind&1 != 0 {
		f |= 0x20
	}
	h := ref.Header{PRV: 1, Flags: f, HL: 11, PID: 0x0506, PT: 1, PRA: 1, RCA: 2, TTL: 3}
	if f&0x20 != 0 {
		h.HL = 16
	}
	var body []byte
	switch kind >> 1 {
	case 0:
		body = rec(1, 1, sub(24, []byte{1, 2, 3, 4}))
	case 1:
		p := gen.Pack(gen.WithSub(gen.RecF(7, 1, 2, 3, 4, 2, 2), gen.SubT(16, 2), gen.SubT(27, 2)), gen.WithSub(gen.Rec(2), gen.SubT(18, 2)))
		body, _ = ref.EncodeBody(p.ServicesFrameData)
	case 2:
		h.PT = 0
		body = append([]byte{9, 0, 0}, rec(1, 0, sub(0, []byte{1, 0, 0}))...)
	}
	if mask&(1<<7) != 0 { // content: cut sections and wrong inner lengths
		switch variant % 4 {
		case 0:
			body = append(body, 1)
		case 1:
			body = append(body, rec(3, 0, sub(16, []byte{1, 2, 3}))...)
		case 2:
			body = append(body, 200, 0, 1, 0, 0, 2, 2, 9, 1, 0, 0)
		case 3:
			body = append(body, rec(3, 0, []byte{9, 5, 0, 0})...)
		}
	}
	h.FDL = uint16(len(body))
	if mask&(1<<4) != 0 {
		h.PT = []byte{2, 3, 128, 255}[variant%4]
	}
	if mask&(1<<5) != 0 {
		h.Flags |= []byte{0x08, 0x10, 0x18, 0x08}[variant%4]
	}
	if mask&(1<<1) != 0 {
		h.HL = []byte{10, 12, 11 ^ 16 ^ h.HL, 0, 255, 15}[variant%6]
		if h.HL == 27 { // 11^16^16
			h.HL = 11
		}
	}
	b := h.Bytes()
	hl := len(b)
	if mask&(1<<2) != 0 {
		b[hl-1] ^= []byte{1, 0x80, 0xFF, 0x10}[variant%4]
	}
	crc := ref.CRC16(body)
	if mask&(1<<8) != 0 {
		crc ^= []uint16{1, 0x8000, 0xFFFF, 0x0100}[variant%4]
	}
	b = append(b, body...)
	b = append(b, byte(crc), byte(crc>>8))
	switch {
	case mask&1 != 0:
		b = b[:[]int{0, 1, 5, hl - 1, hl - 2, 10}[variant%6]]
	case mask&(1<<3) != 0:
		b = b[:hl]
	case mask&(1<<6) != 0:
		b = b[:hl+1+(len(body)-1)*(variant%4)/4]
	case mask&(1<<9) != 0:
		b = b[:len(b)-1-variant%2]
	}
	return b
}

// CodecCodes are the codec spaces of C22.
func CodecCodes(tier string) []mc.Space {
	th := tier == "thorough"
	var out []mc.Space
	nd := uint64(1) << len(defects)
	out = append(out, mc.Space{Name: "defects", N: nd * 12 * 6, Do: func(c *mc.C, i uint64) {
		m := i % nd
		i /= nd
		if c.Verbose {
			for k, d := range defects {
				if m>>k&1 == 1 {
					c.Describe("defect: %s", d)
				}
			}
		}
		judge(c, Defective(m, int(i%12), int(i/12)), true, nil)
	}})
	// the same with a key in the options: encrypted is then no defect unless the key fails
	nk := uint64(len(keys))
	out = append(out, mc.Space{Name: "defects-key", N: nd * 4 * 6 * nk, Do: func(c *mc.C, i uint64) {
		m := i % nd
		i /= nd
		k := keys[i%nk]
		i /= nk
		if k.name == "in-place" {
			return
		}
		b := Defective(m, int(i%4), int(i/4))
		judge(c, b, true, k.mk(nil))
	}})
	for _, s := range mutSpaces(func(c *mc.C, b []byte) { judge(c, b, true, nil) }, th) {
		out = append(out, s)
	}
	out = append(out, hdrSpaces(func(c *mc.C, b []byte) { judge(c, b, true, nil) })...)
	// every packet type, with and without body, content and checksum defects
	out = append(out, mc.Space{Name: "types", N: 256 * 8 * 2, Do: func(c *mc.C, i uint64) {
		pt := byte(i)
		i >>= 8
		b := Defective((i&1)<<7|(i>>1&1)<<8|(i>>2&1)<<3, 0, int(i>>3&1))
		b[9] = pt
		judge(c, fix(b, 1), true, nil)
	}})
	// valid packets: code 0
	for _, s := range gen.RecordSpaces(false) {
		s := s
		out = append(out, mc.Space{Name: "good/" + s.Name, N: s.N, Do: func(c *mc.C, i uint64) {
			p := s.At(i)
			if emptyBody(p) {
				return
			}
			b, ok := ref.EncodePackage(p, nil)
			if !ok {
				c.Failf("harness: not representable")
				return
			}
			var q egts.Package
			code, err := q.Decode(b)
			c.Op(1)
			if code != 0 || err != nil {
				c.Failf("valid packet: code %d, %v\nbytes %s", code, err, hx(b))
			}
			c.Trace()
			c.Outcome(codeNames[code])
		}})
	}
	_ = fmt.Sprint
	return out
}

// CodecCodesBound describes them.
const CodecCodesBound = "all 1024 subsets of 10 defects x 12 variants x 6 kinds of packet, with and without each of 17 keys; every byte, pair, word and cut mutation of 23 base packets; all header length and flag combinations; all packet types; valid packets"

func init() {
	checks["C22"] = func() mc.Check { return mc.Check{Bound: CodecCodesBound, Spaces: CodecCodes} }
}
