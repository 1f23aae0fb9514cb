// Package pgen decides the property of the packet generator (C19): the real binary is run with enumerated
// arguments against a scripted server on loopback that answers in enumerated ways.
package pgen

import (
	"bytes"
	"fmt"
	"math"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"verifharness/gen"
	"verifharness/mc"
	"verifharness/ref"
)

// Checks are the checks of this package.
var Checks = map[string]func() mc.Check{"C19": c19}

// script is what the server does with a connection once a whole packet has arrived.
type script struct {
	segs  [][]byte        // answer segments
	pause []time.Duration // pause before each segment (default none)
	end   string          // "close", "reset", "hold" (until the generator ends), "early" (close before reading)
}

type result struct {
	code    int // exit code; -1: killed by a signal
	out     string
	sent    []byte
	conns   int
	elapsed time.Duration
	hung    bool
}

var ln *net.TCPListener

func listener() *net.TCPListener {
	if ln == nil {
		l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
		if err != nil {
			panic(err)
		}
		ln = l
	}
	return ln
}

func binary() string { return filepath.Join(os.Getenv("VERIF_SCRATCH"), "packet-gen") }

// exec1 runs the generator with a server that follows the script (none if nil).
func exec1(args []string, sc *script, limit time.Duration) result {
	var r result
	done := make(chan struct{})
	stop := make(chan struct{})
	if sc != nil {
		l := listener()
		_ = l.SetDeadline(time.Time{})
		go func() {
			defer close(done)
			first := true
			for {
				c, err := l.AcceptTCP()
				if err != nil {
					return
				}
				r.conns++
				if !first {
					_ = c.Close()
					continue
				}
				first = false
				serve(c, sc, &r, stop)
			}
		}()
	} else {
		close(done)
	}
	cmd := exec.Command(binary(), args...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.Env = []string{"HOME=/nonexistent", "PATH=/nonexistent"}
	t0 := time.Now()
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	w := make(chan error, 1)
	go func() { w <- cmd.Wait() }()
	select {
	case <-w:
	case <-time.After(limit):
		r.hung = true
		_ = cmd.Process.Kill()
		<-w
	}
	r.elapsed = time.Since(t0)
	close(stop)
	if sc != nil {
		_ = listener().SetDeadline(time.Now()) // ends the accept loop after what is pending
		<-done
	}
	r.code = cmd.ProcessState.ExitCode()
	r.out = out.String()
	mc.Beat()
	return r
}

func serve(c *net.TCPConn, sc *script, r *result, stop chan struct{}) {
	defer c.Close()
	if sc.end == "early" {
		return
	}
	buf := make([]byte, 65536)
	need := 10
	for len(r.sent) < need {
		_ = c.SetReadDeadline(time.Now().Add(20 * time.Second))
		n, err := c.Read(buf)
		r.sent = append(r.sent, buf[:n]...)
		if err != nil {
			return
		}
		if len(r.sent) >= 10 && need == 10 {
			need = int(r.sent[3])
			if f := int(r.sent[5]) | int(r.sent[6])<<8; f > 0 {
				need += f + 2
			}
		}
	}
	_ = c.SetNoDelay(true)
	for k, s := range sc.segs {
		if k < len(sc.pause) && sc.pause[k] > 0 {
			select {
			case <-time.After(sc.pause[k]):
			case <-stop:
			}
		}
		if _, err := c.Write(s); err != nil {
			break
		}
	}
	switch sc.end {
	case "reset":
		_ = c.SetLinger(0)
		return
	case "close":
		_ = c.CloseWrite()
	}
	for { // what else the generator sends until it closes
		_ = c.SetReadDeadline(time.Now().Add(30 * time.Second))
		n, err := c.Read(buf)
		r.sent = append(r.sent, buf[:n]...)
		if err != nil {
			return
		}
	}
}

// req is what is asked of the generator.
type req struct {
	pid, oid uint64
	ts       string
	lat, lon string
	liquid   string
	timeout  string
	dash     string // "-" or "--"
	eq       bool
}

func base() req { return req{pid: 1, oid: 12, ts: "2021-12-16T09:12:00Z", dash: "--"} }

func (q req) args(addr string) []string {
	var a []string
	put := func(k, v string) {
		if v == "" {
			return
		}
		if q.eq || strings.HasPrefix(v, "-") {
			a = append(a, q.dash+k+"="+v)
		} else {
			a = append(a, q.dash+k, v)
		}
	}
	put("pid", strconv.FormatUint(q.pid, 10))
	put("oid", strconv.FormatUint(q.oid, 10))
	put("time", q.ts)
	put("lat", q.lat)
	put("lon", q.lon)
	put("liquid", q.liquid)
	put("timeout", q.timeout)
	put("server", addr)
	return a
}

func addr() string { return listener().Addr().String() }

// wrong tells what is wrong with the bytes the generator sent.
func (q req) wrong(b []byte) string {
	v := ref.DecodePackage(b, nil)
	if !v.OK() {
		return fmt.Sprintf("not a valid packet: %v", v.Codes)
	}
	n := int(b[3]) + 2 + (int(b[5]) | int(b[6])<<8)
	if len(b) != n {
		return fmt.Sprintf("%d bytes sent, the packet has %d", len(b), n)
	}
	if uint64(v.Pkg.PacketIdentifier) != q.pid {
		return fmt.Sprintf("packet identifier %d", v.Pkg.PacketIdentifier)
	}
	s, ok := v.Pkg.ServicesFrameData.(*egts.ServiceDataSet)
	if !ok || v.Pkg.PacketType != 1 || len(*s) != 1 {
		return "not an application-data packet with one record"
	}
	r := (*s)[0]
	if r.ObjectIDFieldExists != "1" || uint64(r.ObjectIdentifier) != q.oid {
		return fmt.Sprintf("object identifier %s %d", r.ObjectIDFieldExists, r.ObjectIdentifier)
	}
	npos, nliq := 0, 0
	for _, x := range r.RecordDataSet {
		switch d := x.SubrecordData.(type) {
		case *egts.SrPosData:
			npos++
			t, _ := time.Parse(time.RFC3339, q.ts)
			if d.NavigationTime.Unix() != t.Unix() {
				return fmt.Sprintf("time %v", d.NavigationTime)
			}
			if w := coord(d.Latitude, d.LAHS, q.lat, 90); w != "" {
				return "latitude " + w
			}
			if w := coord(d.Longitude, d.LOHS, q.lon, 180); w != "" {
				return "longitude " + w
			}
			if d.VLD != "1" {
				return "position not marked valid"
			}
		case *egts.SrLiquidLevelSensor:
			nliq++
			want, _ := strconv.ParseUint(q.liquid, 0, 32)
			if q.liquid != "" || d.LiquidLevelSensorData != 0 {
				if uint64(d.LiquidLevelSensorData) != want || d.RawDataFlag != "0" {
					return fmt.Sprintf("liquid level %d", d.LiquidLevelSensorData)
				}
			}
			if d.LiquidLevelSensorNumber != 1 {
				return fmt.Sprintf("liquid sensor number %d", d.LiquidLevelSensorNumber)
			}
		}
	}
	if npos != 1 || nliq > 1 || nliq == 0 && q.liquid != "" {
		return fmt.Sprintf("%d positions and %d liquid levels", npos, nliq)
	}
	return ""
}

func coord(got float64, sign, arg string, max float64) string {
	want := 0.0
	if arg != "" {
		want, _ = strconv.ParseFloat(arg, 64)
	}
	if sign == "1" {
		got = -got
	}
	if step := max / 0xFFFFFFFF; math.Abs(got-want) > step {
		return fmt.Sprintf("%v instead of %v", got, want)
	}
	return ""
}

// resp is an answer.
type resp struct {
	rpid  uint16
	pr    byte
	confs []egts.SrResponse
	sdr   bool
}

func (a resp) pkg() *egts.Package {
	p := gen.Respond(a.rpid, a.pr, -1)
	if a.sdr {
		r := gen.Rec(1)
		for k := range a.confs {
			r.RecordDataSet = append(r.RecordDataSet, egts.RecordData{SubrecordData: &a.confs[k]})
		}
		p.ServicesFrameData.(*egts.PtResponse).SDR = &egts.ServiceDataSet{r}
	}
	return p
}

func bytesOf(p *egts.Package) []byte {
	b, ok := ref.EncodePackage(p, nil)
	if !ok {
		panic("harness: answer not representable")
	}
	return b
}

func good(pid uint64) []byte {
	return bytesOf(resp{uint16(pid), 0, []egts.SrResponse{{ConfirmedRecordNumber: 1}}, true}.pkg())
}

// verdict of an answer: does it confirm the packet of a request?
func confirms(b []byte, pid uint64) (ok, unspec bool) {
	v := ref.DecodePackage(b, nil)
	if v.Unspec {
		return false, true
	}
	if !v.OK() {
		return false, false
	}
	r, isr := v.Pkg.ServicesFrameData.(*egts.PtResponse)
	if !isr || uint64(r.ResponsePacketID) != pid || r.ProcessingResult != 0 || r.SDR == nil {
		return false, false
	}
	s, iss := r.SDR.(*egts.ServiceDataSet)
	if !iss {
		return false, false
	}
	n, bad, other := 0, 0, 0
	for _, x := range *s {
		for _, y := range x.RecordDataSet {
			if c, isc := y.SubrecordData.(*egts.SrResponse); isc {
				switch {
				case c.ConfirmedRecordNumber == 1 && c.RecordStatus == 0:
					n++
				case c.ConfirmedRecordNumber == 1:
					bad++
				case c.RecordStatus != 0:
					other++
				}
			}
		}
	}
	if n > 0 && bad == 0 && other > 0 {
		return false, true // refuses a record that was not sent: not specified
	}
	return n > 0 && bad == 0, false
}

func crashed(out string) bool {
	return strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:") || strings.Contains(out, "goroutine 1 [")
}

// judge checks an execution. want: the exit code must be zero; sends: the packet must have been sent.
func judge(c *mc.C, q req, args []string, r result, want, unspec, sends bool) {
	c.Op(1)
	c.Describe("packet-gen %s\nexit %d after %v, output %q\nsent %x", strings.Join(args, " "), r.code, r.elapsed, r.out, r.sent)
	switch {
	case r.hung:
		c.Failf("does not end; arguments %q", args)
	case crashed(r.out) || r.code < 0:
		c.Failf("crashes (exit %d); arguments %q, output %q", r.code, args, r.out)
	case r.code != 0 && strings.TrimSpace(r.out) == "":
		c.Failf("exits with %d without a message; arguments %q", r.code, args)
	case unspec:
	case want && r.code != 0:
		c.Failf("exits with %d although the packet was confirmed; arguments %q, output %q", r.code, args, r.out)
	case !want && r.code == 0:
		c.Failf("exits with 0 although the packet was not confirmed; arguments %q, output %q", args, r.out)
	}
	if sends && !c.Failed() {
		if len(r.sent) == 0 {
			c.Failf("sends nothing; arguments %q, output %q", args, r.out)
		} else if w := q.wrong(r.sent); w != "" {
			c.Failf("sends a wrong packet: %s; arguments %q, sent %x", w, args, r.sent)
		} else if r.conns != 1 {
			c.Failf("opens %d connections; arguments %q", r.conns, args)
		}
	}
	c.State('s', append([]byte{byte(r.code)}, r.sent...))
	c.Trace()
	c.Outcome(fmt.Sprintf("exit %d", r.code))
}

const lim = 20 * time.Second

func asked(c *mc.C, q req) {
	a := q.args(addr())
	r := exec1(a, &script{segs: [][]byte{good(q.pid)}, end: "hold"}, lim)
	judge(c, q, a, r, true, false, true)
}

func answered(c *mc.C, pid uint64, ans []byte, sc script) {
	q := base()
	q.pid = pid
	ok, un := confirms(ans, pid)
	if sc.segs == nil {
		sc.segs = [][]byte{ans}
	}
	if sc.end == "" {
		sc.end = "close"
	}
	a := q.args(addr())
	r := exec1(a, &sc, lim)
	judge(c, q, a, r, ok, un, true)
	if c.Failed() {
		c.Failf("")
		c.Describe("answer %x", ans)
	}
}

func c19() mc.Check {
	return mc.Check{Strict: true, Confirm: 3, Bound: "the real packet-gen binary over loopback: boundary, bit and byte sweeps of packet identifier (thorough all 65535), object identifier and liquid level; all pairs of 33 latitudes and 33 longitudes of both signs and the limits; times at every power of two seconds of the representable range, in several zones; all subsets of the optional flags in all spellings; every missing, malformed and out-of-range argument; answers: packet identifiers, all 256 results, all 256 record statuses, record numbers, all sequences of up to 3 confirmations, several records and foreign subrecords, no service data, other packet types, all transport flags; every bit error, byte replacement by boundary values, truncation; every split into two segments, one byte at a time, followed by other packets; delays around the time limit; no server, closing and resetting servers",
		Spaces: spaces}
}

func spaces(tier string) []mc.Space {
	th := tier == "thorough"
	var out []mc.Space
	add := func(name string, n int, do func(c *mc.C, i int)) {
		out = append(out, mc.Space{Name: name, N: uint64(n), Do: func(c *mc.C, i uint64) { do(c, int(i)) }})
	}
	// ---- what is asked
	var pids []uint64
	if th {
		for v := uint64(1); v < 65536; v++ {
			pids = append(pids, v)
		}
	} else {
		for _, v := range gen.Sweep(gen.Field{Bits: 32}, false) {
			if v.U > 0 && v.U < 65536 {
				pids = append(pids, uint64(v.U))
			}
		}
		for k := uint(0); k < 16; k++ {
			pids = append(pids, 1<<k, 65535&^(1<<k))
		}
	}
	pids = uniq(pids)
	add("args/pid", len(pids), func(c *mc.C, i int) { q := base(); q.pid = pids[i]; asked(c, q) })
	var w []uint64
	for k := uint(0); k < 32; k++ {
		w = append(w, 1<<k, 1<<k-1, 1<<k+1, 0xFFFFFFFF&^(1<<k))
	}
	if th {
		for k := uint(0); k < 32; k += 8 {
			for b := uint64(1); b < 256; b++ {
				w = append(w, b<<k, 0xFFFFFFFF&^(b<<k))
			}
		}
	}
	w = uniq(w)
	add("args/oid", len(w), func(c *mc.C, i int) { q := base(); q.oid = w[i]; asked(c, q) })
	add("args/liquid", len(w)+1, func(c *mc.C, i int) {
		q := base()
		q.liquid = "0"
		if i > 0 {
			q.liquid = strconv.FormatUint(w[i-1], 10)
		}
		asked(c, q)
	})
	var ts []string
	t0 := time.Date(2010, 1, 1, 0, 0, 0, 0, time.UTC)
	for _, s := range append([]uint64{0, 0xFFFFFFFF}, w...) {
		ts = append(ts, t0.Add(time.Duration(s)*time.Second).Format(time.RFC3339))
	}
	for _, z := range []int{-12 * 3600, -3600, 1800, 3 * 3600, 5*3600 + 1800, 14 * 3600} {
		for _, s := range []uint64{86400 * 365, 1 << 28, 1 << 31, 0xFFFFFFFF - 86400} {
			ts = append(ts, t0.Add(time.Duration(s)*time.Second).In(time.FixedZone("", z)).Format(time.RFC3339))
		}
	}
	ts = append(ts, "2024-02-29T23:59:59Z", "2100-02-28T23:59:59Z", "2021-12-31T23:59:59+03:00", "2010-01-01T03:00:00+03:00", "2009-12-31T21:00:00-03:00")
	add("args/time", len(ts), func(c *mc.C, i int) { q := base(); q.ts = ts[i]; asked(c, q) })
	lats := coords(90, th)
	lons := coords(180, th)
	add("args/coords", len(lats)*len(lons), func(c *mc.C, i int) {
		q := base()
		q.lat, q.lon = lats[i%len(lats)], lons[i/len(lats)]
		asked(c, q)
	})
	add("args/forms", 16*4, func(c *mc.C, i int) {
		q := base()
		m := i % 16
		q.eq = i/16%2 == 1
		if i/32 == 1 {
			q.dash = "-"
		}
		if m&1 != 0 {
			q.lat = "55.7512"
		}
		if m&2 != 0 {
			q.lon = "-0.5"
		}
		if m&4 != 0 {
			q.liquid = "77"
		}
		if m&8 != 0 {
			q.timeout = "9"
		}
		asked(c, q)
	})
	// ---- bad arguments: the server would confirm anything
	bad := [][]string{}
	b := base()
	full := func(over map[string]string) []string {
		var a []string
		for _, k := range []string{"pid", "oid", "time", "lat", "lon", "liquid", "timeout"} {
			v := map[string]string{"pid": "1", "oid": "12", "time": b.ts, "lat": "1.5", "lon": "2.5", "liquid": "3", "timeout": "5"}[k]
			if x, ok := over[k]; ok {
				v = x
			}
			if v != "-" {
				a = append(a, "--"+k+"="+v)
			}
		}
		return a
	}
	for _, k := range []string{"pid", "oid", "time"} {
		bad = append(bad, full(map[string]string{k: "-"}))
	}
	bad = append(bad, full(map[string]string{"pid": "-", "oid": "-"}), full(map[string]string{"pid": "-", "oid": "-", "time": "-"}), full(map[string]string{"oid": "-", "time": "-"}))
	for _, v := range []string{"-1", "-65535", "65536", "65537", "65792", "131073", "4294967297", "-4294967295", "9223372036854775807", "1e3", "x", "", "1.5", "0x", "18446744073709551617"} {
		bad = append(bad, full(map[string]string{"pid": v}))
	}
	for _, v := range []string{"-1", "-4294967284", "4294967296", "4294967297", "4294967308", "8589934593", "9223372036854775807", "x", "", "1.5", "18446744073709551628"} {
		bad = append(bad, full(map[string]string{"oid": v}))
		bad = append(bad, full(map[string]string{"liquid": v}))
	}
	for _, v := range []string{"", "x", "2021-12-16", "2021-12-16 09:12:00", "2021-12-16T09:12:00", "09:12:00Z", "2021-13-16T09:12:00Z", "2021-02-29T09:12:00Z", "2021-12-16T25:12:00Z", "2021-12-16T09:60:00Z", "1639645920", "2021-12-16T09:12Z",
		"2009-12-31T23:59:59Z", "2010-01-01T00:00:00+01:00", "1970-01-01T00:00:00Z", "0001-01-01T00:00:00Z", "2146-02-07T06:28:16Z", "2200-01-01T00:00:00Z", "9999-12-31T23:59:59Z", "2021-12-16T09:12:00Zx"} {
		bad = append(bad, full(map[string]string{"time": v}))
	}
	for _, v := range []string{"90.0001", "-90.0001", "91", "-91", "180", "1000", "-1000", "1e300", "-1e300", "NaN", "Inf", "-Inf", "x", "", "1,5", "45N"} {
		bad = append(bad, full(map[string]string{"lat": v}))
	}
	for _, v := range []string{"180.0001", "-180.0001", "181", "-181", "360", "1e300", "-1e300", "NaN", "Inf", "-Inf", "x", "", "1,5", "45E"} {
		bad = append(bad, full(map[string]string{"lon": v}))
	}
	for _, v := range []string{"x", "", "1.5", "5s"} {
		bad = append(bad, full(map[string]string{"timeout": v}))
	}
	bad = append(bad, append(full(nil), "--unknown=1"), append(full(nil), "--help"))
	add("args/bad", len(bad), func(c *mc.C, i int) {
		a := append(append([]string{}, bad[i]...), "--server="+addr())
		if bad[i][len(bad[i])-1] == "--unknown=1" { // keep the order
			a = bad[i]
		}
		r := exec1(a, &script{segs: [][]byte{good(1)}, end: "hold"}, lim)
		un := strings.HasSuffix(bad[i][len(bad[i])-1], "help")
		judge(c, b, a, r, false, un, false)
	})
	// ---- answers
	rp := func(name string, n int, f func(i int) *egts.Package) {
		add("ack/"+name, n, func(c *mc.C, i int) { answered(c, 0x0201, bytesOf(f(i)), script{}) })
	}
	one := []egts.SrResponse{{ConfirmedRecordNumber: 1}}
	var rpids []uint64
	for k := uint(0); k < 16; k++ {
		rpids = append(rpids, 0x0201^1<<k, 1<<k)
	}
	rpids = uniq(append(rpids, 0, 0x0201, 0x0102, 0x0200, 0x0202, 0xFFFF, 0x0001, 0x0101))
	rp("rpid", len(rpids), func(i int) *egts.Package { return resp{uint16(rpids[i]), 0, one, true}.pkg() })
	rp("result", 256*2, func(i int) *egts.Package { return resp{0x0201, byte(i), one, i < 256}.pkg() })
	rp("status", 256, func(i int) *egts.Package {
		return resp{0x0201, 0, []egts.SrResponse{{ConfirmedRecordNumber: 1, RecordStatus: byte(i)}}, true}.pkg()
	})
	var rns []uint64
	for k := uint(0); k < 16; k++ {
		rns = append(rns, 1^1<<k, 1<<k)
	}
	rns = uniq(append(rns, 0, 1, 2, 0x0100, 0x0101, 0xFFFF))
	rp("number", len(rns), func(i int) *egts.Package {
		return resp{0x0201, 0, []egts.SrResponse{{ConfirmedRecordNumber: uint16(rns[i])}}, true}.pkg()
	})
	kinds := []egts.SrResponse{{ConfirmedRecordNumber: 1}, {ConfirmedRecordNumber: 1, RecordStatus: 1}, {ConfirmedRecordNumber: 1, RecordStatus: 255}, {ConfirmedRecordNumber: 2}, {ConfirmedRecordNumber: 2, RecordStatus: 3}, {ConfirmedRecordNumber: 256}}
	rp("seq", 1+6+36+216, func(i int) *egts.Package {
		var cs []egts.SrResponse
		switch {
		case i == 0:
		case i < 7:
			cs = append(cs, kinds[i-1])
		case i < 43:
			i -= 7
			cs = append(cs, kinds[i%6], kinds[i/6])
		default:
			i -= 43
			cs = append(cs, kinds[i%6], kinds[i/6%6], kinds[i/36])
		}
		return resp{0x0201, 0, cs, true}.pkg()
	})
	// confirmations spread over records, beside other subrecords
	var shapes []egts.ServiceDataSet
	conf := func(k int) egts.RecordData { x := kinds[k]; return egts.RecordData{SubrecordData: &x} }
	for k := range kinds {
		shapes = append(shapes, egts.ServiceDataSet{gen.Rec(1), gen.WithSub(gen.Rec(2), conf(k))})
		shapes = append(shapes, egts.ServiceDataSet{gen.WithSub(gen.Rec(1), conf(k)), gen.Rec(2)})
		for j := range kinds {
			shapes = append(shapes, egts.ServiceDataSet{gen.WithSub(gen.Rec(1), conf(k)), gen.WithSub(gen.RecF(7, 2, 1, 2, 3, 1, 1), conf(j))})
		}
		for _, t := range gen.Types {
			if t == 0 {
				continue
			}
			shapes = append(shapes, egts.ServiceDataSet{gen.WithSub(gen.Rec(1), gen.SubT(t, 2), conf(k))}, egts.ServiceDataSet{gen.WithSub(gen.Rec(1), conf(k), gen.SubT(t, 2))})
			if k == 0 {
				shapes = append(shapes, egts.ServiceDataSet{gen.WithSub(gen.Rec(1), gen.SubT(t, 2))})
			}
		}
	}
	rp("shapes", len(shapes), func(i int) *egts.Package {
		p := resp{0x0201, 0, nil, true}.pkg()
		p.ServicesFrameData.(*egts.PtResponse).SDR = &shapes[i]
		return p
	})
	rp("header", 64*2, func(i int) *egts.Package {
		f := uint(i % 64)
		f = f&7 | f&0x38<<2 // encryption bits stay zero
		p := resp{0x0201, byte(i / 64), one, true}.pkg()
		gen.SetFlags(p, f)
		p.PacketIdentifier = uint16(i)
		if f&0x20 != 0 {
			p.PeerAddress, p.RecipientAddress, p.TimeToLive = 1, 2, 3
		}
		return p
	})
	rp("bigger", 12, func(i int) *egts.Package { // answers of any size
		p := resp{0x0201, 0, one, true}.pkg()
		s := *p.ServicesFrameData.(*egts.PtResponse).SDR.(*egts.ServiceDataSet)
		n := []int{900, 980, 995, 1000, 1010, 1024, 2000, 4096, 9000, 20000, 40000, 65000}[i]
		s[0].RecordDataSet = append(egts.RecordDataSet{{SubrecordData: &egts.SrDispatcherIdentity{DispatcherType: 1, Description: strings.Repeat("x", n)}, SubrecordType: 5}}, s[0].RecordDataSet...)
		return p
	})
	// other packets
	notresp := [][]byte{
		bytesOf(gen.Pack(gen.WithSub(gen.Rec(1), conf(0)))),
		bytesOf(gen.Pack(gen.WithSub(gen.Rec(1), gen.SubT(16, 2)))),
		bytesOf(func() *egts.Package {
			p := gen.Pack(gen.WithSub(gen.Rec(1), conf(0)))
			p.PacketIdentifier = 0x0201
			return p
		}()),
		bytesOf(func() *egts.Package {
			p := gen.Pack(gen.WithSub(gen.Rec(1), gen.SubT(9, 0)))
			p.PacketIdentifier = 0x0201
			return p
		}()),
		[]byte("HTTP/1.1 400 Bad Request\r\n\r\n"), {0}, {1}, {}, bytes.Repeat([]byte{0}, 100), bytes.Repeat([]byte{1}, 100), bytes.Repeat([]byte{0xFF}, 3000),
	}
	for pt := 0; pt < 256; pt += 1 {
		if pt == 0 || pt > 8 && pt%16 != 0 {
			continue
		}
		x := append([]byte{}, good(0x0201)...)
		x[9] = byte(pt)
		x[10] = ref.CRC8(x[:10])
		notresp = append(notresp, x)
	}
	for e := 1; e < 4; e++ { // marked as encrypted
		x := append([]byte{}, good(0x0201)...)
		x[2] |= byte(e) << 3
		x[10] = ref.CRC8(x[:10])
		notresp = append(notresp, x)
	}
	add("ack/other", len(notresp)*2, func(c *mc.C, i int) {
		answered(c, 0x0201, notresp[i/2], script{end: []string{"close", "reset"}[i%2]})
	})
	g := good(0x0201)
	add("damage/bits", len(g)*8, func(c *mc.C, i int) {
		x := append([]byte{}, g...)
		x[i/8] ^= 1 << (i % 8)
		answered(c, 0x0201, x, script{})
	})
	vals := []byte{0, 1, 2, 0x7F, 0x80, 0xFE, 0xFF}
	if th {
		vals = nil
		for v := 0; v < 256; v++ {
			vals = append(vals, byte(v))
		}
	}
	add("damage/bytes", len(g)*len(vals)*4, func(c *mc.C, i int) { // with checksums repaired: 1 header, 2 body
		m := i % 4
		i /= 4
		x := append([]byte{}, g...)
		x[i/len(vals)] = vals[i%len(vals)]
		if m&1 != 0 {
			x[10] = ref.CRC8(x[:10])
		}
		if m&2 != 0 {
			k := ref.CRC16(x[11 : len(x)-2])
			x[len(x)-2], x[len(x)-1] = byte(k), byte(k>>8)
		}
		n := int(x[3])
		if f := int(x[5]) | int(x[6])<<8; f > 0 {
			n += f + 2
		}
		if n < len(x) && x[0] == 1 && x[3] >= 10 { // a shorter packet followed by other bytes
			a, un := confirms(x[:n], 0x0201)
			if a || un {
				return
			}
		}
		answered(c, 0x0201, x, script{})
	})
	add("damage/cut", len(g)*2, func(c *mc.C, i int) {
		answered(c, 0x0201, g[:i/2], script{end: []string{"close", "reset"}[i%2]})
	})
	// ---- segmentation of good and bad answers
	neg := bytesOf(resp{0x0201, 0, []egts.SrResponse{{ConfirmedRecordNumber: 1, RecordStatus: 7}}, true}.pkg())
	ms := time.Millisecond
	add("segments/two", 2*(len(g)-1), func(c *mc.C, i int) {
		x := [][]byte{g, neg}[i%2]
		k := i/2 + 1
		answered(c, 0x0201, x, script{segs: [][]byte{x[:k], x[k:]}, pause: []time.Duration{0, 30 * ms}, end: "hold"})
	})
	add("segments/bytes", 2*2, func(c *mc.C, i int) {
		x := [][]byte{g, neg}[i%2]
		var s [][]byte
		var p []time.Duration
		for k := range x {
			s = append(s, x[k:k+1])
			p = append(p, 5*ms)
		}
		answered(c, 0x0201, x, script{segs: s, pause: p, end: []string{"hold", "close"}[i/2]})
	})
	after := [][]byte{bytesOf(gen.Pack(gen.WithSub(gen.Rec(2), gen.SubT(9, 0)))), g, neg, {1}, {0xFF, 0xFF}}
	add("segments/followed", len(after)*4, func(c *mc.C, i int) {
		x := [][]byte{g, neg}[i%2]
		y := after[i/4]
		s := [][]byte{append(append([]byte{}, x...), y...)}
		if i/2%2 == 1 {
			s = [][]byte{x, y}
		}
		answered(c, 0x0201, x, script{segs: s, pause: []time.Duration{0, 20 * ms}, end: "close"})
	})
	// ---- time limit and absent servers
	type tl struct {
		timeout string
		limit   time.Duration
		delay   time.Duration // < 0: never
	}
	tls := []tl{{"1", 1000 * ms, 500 * ms}, {"2", 2000 * ms, 1400 * ms}, {"", 5000 * ms, 2500 * ms}, {"7", 7000 * ms, 5600 * ms}, {"1", 1000 * ms, -1}, {"2", 2000 * ms, -1}, {"", 5000 * ms, -1}, {"3", 3000 * ms, -1}}
	for k := range tls {
		k := k
		add(fmt.Sprintf("time/%d", k), 1, func(c *mc.C, _ int) {
			t := tls[k]
			q := base()
			q.timeout = t.timeout
			a := q.args(addr())
			if t.delay >= 0 {
				r := exec1(a, &script{segs: [][]byte{good(1)}, pause: []time.Duration{t.delay}, end: "hold"}, t.limit+20*time.Second)
				judge(c, q, a, r, true, false, true)
				return
			}
			r := exec1(a, &script{segs: nil, end: "hold"}, t.limit+20*time.Second)
			judge(c, q, a, r, false, false, true)
			if r.elapsed < t.limit-100*ms {
				c.Failf("gives up after %v, limit %v", r.elapsed, t.limit)
			}
			if r.elapsed > t.limit+4*time.Second {
				c.Failf("gives up only after %v, limit %v", r.elapsed, t.limit)
			}
		})
	}
	// an answer that starts but does not end within the limit
	add("time/partial", 3, func(c *mc.C, i int) {
		q := base()
		q.timeout = "1"
		a := q.args(addr())
		x := good(1)
		n := []int{1, 11, len(x) - 1}[i]
		r := exec1(a, &script{segs: [][]byte{x[:n]}, end: "hold"}, lim)
		judge(c, q, a, r, false, false, true)
	})
	// an answer in two parts: the limit counts for the whole answer, whenever its parts come
	type halves struct {
		timeout     string
		limit       time.Duration
		n           int
		first, rest time.Duration
	}
	hs := []halves{{"1", 1000 * ms, 11, 0, 2600 * ms}, {"1", 1000 * ms, 1, 0, 2600 * ms}, {"1", 1000 * ms, 20, 500 * ms, 2200 * ms}, {"2", 2000 * ms, 11, 1000 * ms, 2700 * ms},
		{"10", 10000 * ms, 11, 0, 6000 * ms}, {"9", 9000 * ms, 20, 1000 * ms, 5600 * ms}, {"3", 3000 * ms, 11, 800 * ms, 800 * ms}}
	for k := range hs {
		k := k
		add(fmt.Sprintf("time/halves%d", k), 1, func(c *mc.C, _ int) {
			h := hs[k]
			q := base()
			q.timeout = h.timeout
			a := q.args(addr())
			x := good(1)
			want := h.first+h.rest < h.limit
			r := exec1(a, &script{segs: [][]byte{x[:h.n], x[h.n:]}, pause: []time.Duration{h.first, h.rest}, end: "hold"}, lim)
			judge(c, q, a, r, want, false, true)
			if !want && r.elapsed < h.limit-100*ms {
				c.Failf("gives up after %v, limit %v", r.elapsed, h.limit)
			}
		})
	}
	noserver := []string{"", "refused", "localhost", "127.0.0.1", ":", "127.0.0.1:99999", "127.0.0.1:-1", "127.0.0.1:x", "300.1.1.1:80", "[::1", "early", "reset"}
	add("noserver", len(noserver), func(c *mc.C, i int) {
		q := base()
		var a []string
		var sc *script
		switch noserver[i] {
		case "":
			return // the default address belongs to the sandbox
		case "early":
			sc = &script{end: "early"}
			a = q.args(addr())
		case "reset":
			sc = &script{end: "reset"}
			a = q.args(addr())
		case "refused":
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				panic(err)
			}
			x := l.Addr().String()
			_ = l.Close()
			a = q.args(x)
		default:
			a = q.args(noserver[i])
		}
		r := exec1(a, sc, 60*time.Second)
		judge(c, q, a, r, false, false, false)
	})
	return out
}

func uniq(v []uint64) []uint64 {
	seen := map[uint64]bool{0: true}
	var out []uint64
	for _, x := range v {
		x &= 0xFFFFFFFF
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func coords(max float64, th bool) []string {
	v := []float64{0, 1e-9, 1e-7, 0.000001, 0.5, 1, 9.999999, 45, 60.344, 55.7512, 89.5, 89.9999999, 90}
	if max > 90 {
		v = append(v, 90.0000001, 100, 127.9, 128, 179.5, 179.9999999, 180)
	}
	if th {
		for k := 1; k < 32; k++ {
			v = append(v, max/float64(uint64(1)<<k), max-max/float64(uint64(1)<<k))
		}
	}
	var out []string
	for _, x := range v {
		s := strconv.FormatFloat(x, 'f', -1, 64)
		out = append(out, s)
		if x != 0 {
			out = append(out, "-"+s)
		}
	}
	return append(out, "1e1", "+7")
}
