package srv

import (
	"encoding/binary"
	"fmt"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"verifharness/ref"
)

// Conf is a confirmation of a record.
type Conf struct {
	RN     uint16
	Status byte
}

// Reply is a packet the server sends, by its meaning.
type Reply struct {
	Result  bool // result-code packet
	RPID    uint16
	Code    byte
	Confs   []Conf
	SST     int // service type of the answered records if they agree, else -1
	Invalid string
	Codes   []byte // expected replies: all acceptable result codes
}

// PktExp is what one packet of a stream must lead to.
type PktExp struct {
	Start, End int
	Saves      []Nav
	Replies    []Reply
	Accepted   bool
	Unspec     bool
	Positions  int
}

// Exp is what a stream must lead to.
type Exp struct {
	Pkts   []PktExp
	Closes bool // the server closes the connection by itself when it has read ClosesAt bytes
	At     int
	Rest   int // bytes of an incomplete packet at the end
}

// State is the identity of a connection.
type State struct{ Client uint32 }

// Model computes what the server must do with the bytes of a connection.
func Model(b []byte) Exp {
	var e Exp
	st := State{}
	pos := 0
	for {
		r := b[pos:]
		if len(r) < 10 {
			e.Rest = len(r)
			return e
		}
		if r[0] != 1 || r[3] < 10 {
			e.Closes = true
			e.At = pos + 10
			return e
		}
		n := int(r[3])
		if f := int(binary.LittleEndian.Uint16(r[5:])); f > 0 {
			n += f + 2
		}
		if len(r) < n {
			e.Rest = len(r)
			return e
		}
		p := st.packet(r[:n])
		p.Start, p.End = pos, pos+n
		e.Pkts = append(e.Pkts, p)
		pos += n
	}
}

func (st *State) packet(b []byte) PktExp {
	var out PktExp
	pid := binary.LittleEndian.Uint16(b[7:])
	v := ref.DecodePackage(b, nil)
	if v.Unspec {
		out.Unspec = true
		return out
	}
	if !v.OK() {
		out.Replies = []Reply{{RPID: pid, Code: v.Codes[0], Codes: v.Codes, SST: -1}}
		return out
	}
	out.Accepted = true
	if v.Pkg.PacketType != 1 {
		return out
	}
	rep := Reply{RPID: pid, SST: -2}
	confirm, auth := false, false
	for _, r := range *v.Pkg.ServicesFrameData.(*egts.ServiceDataSet) {
		rep.Confs = append(rep.Confs, Conf{r.RecordNumber, 0})
		switch {
		case rep.SST == -2:
			rep.SST = int(r.SourceServiceType)
		case rep.SST != int(r.SourceServiceType):
			rep.SST = -1
		}
		if r.ObjectIDFieldExists == "1" {
			st.Client = r.ObjectIdentifier
		}
		n := Nav{PacketID: uint64(pid)}
		save := false
		var lo, hi uint32
		cnt := false
		for _, s := range r.RecordDataSet {
			switch d := s.SubrecordData.(type) {
			case *egts.SrTermIdentity:
				st.Client = d.TerminalIdentifier
				auth = true
			case *egts.SrAuthInfo:
				auth = true
			case *egts.SrResponse:
				confirm = true
			case *egts.SrPosData:
				save = true
				out.Positions++
				n.NavT = d.NavigationTime.Unix()
				n.Lat, n.Lon = d.Latitude, d.Longitude
				if d.LAHS == "1" {
					n.Lat = -n.Lat
				}
				if d.LOHS == "1" {
					n.Lon = -n.Lon
				}
				n.Speed = uint64(d.Speed)
				n.Course = uint64(d.Direction)
				if d.DirectionHighestBit == 1 {
					n.Course = 256 + uint64(d.Direction&0x7F)
				}
			case *egts.SrExtPosData:
				n.Nsat, n.Ns = uint64(d.Satellites), uint64(d.NavigationSystem)
				n.Pdop, n.Hdop, n.Vdop = uint64(d.PositionDilutionOfPrecision), uint64(d.HorizontalDilutionOfPrecision), uint64(d.VerticalDilutionOfPrecision)
			case *egts.SrAdSensorsData:
				_, f := ref.AdFlags(d)
				_, a := ref.AdVals(d)
				for k := 0; k < 8; k++ {
					if *f[k] == "1" {
						n.An = append(n.An, An{uint64(k + 1), uint64(*a[k])})
					}
				}
			case *egts.SrAbsAnSensData:
				n.An = append(n.An, An{uint64(d.SensorNumber), uint64(d.Value)})
			case *egts.SrAbsCntrData:
				switch d.CounterNumber {
				case 110:
					lo, cnt = d.CounterValue&0xFFFFFF, true
				case 111:
					hi, cnt = d.CounterValue&0xFF, true
				}
			case *egts.SrLiquidLevelSensor:
				l := Liq{N: uint64(d.LiquidLevelSensorNumber), Err: d.LiquidLevelSensorErrorFlag}
				switch d.LiquidLevelSensorValueUnit {
				case "00", "01":
					l.Mm = uint64(d.LiquidLevelSensorData)
				case "10":
					l.L = uint64(d.LiquidLevelSensorData * 10)
				}
				n.Liq = append(n.Liq, l)
			}
		}
		if cnt {
			n.PacketID = uint64(lo | hi<<24)
		}
		n.Client = uint64(st.Client)
		if save {
			out.Saves = append(out.Saves, n)
		}
	}
	if confirm {
		return out
	}
	out.Replies = append(out.Replies, rep)
	if auth {
		out.Replies = append(out.Replies, Reply{Result: true, SST: -1})
	}
	return out
}

// ParseReplies splits what the server wrote into packets and reads their meaning with the reference.
func ParseReplies(b []byte) []Reply {
	var out []Reply
	for len(b) > 0 {
		if len(b) < 11 || int(b[3]) > len(b) {
			return append(out, Reply{Invalid: fmt.Sprintf("incomplete packet %x", b)})
		}
		n := int(b[3])
		if f := int(binary.LittleEndian.Uint16(b[5:])); f > 0 {
			n += f + 2
		}
		if n < 11 || len(b) < n {
			return append(out, Reply{Invalid: fmt.Sprintf("incomplete packet %x", b)})
		}
		out = append(out, parseReply(b[:n]))
		b = b[n:]
	}
	return out
}

func parseReply(b []byte) Reply {
	v := ref.DecodePackage(b, nil)
	if !v.OK() {
		return Reply{Invalid: fmt.Sprintf("not a valid packet (%v): %x", v.Codes, b)}
	}
	var q egts.Package
	if code, err := q.Decode(append([]byte{}, b...)); code != 0 || err != nil {
		return Reply{Invalid: fmt.Sprintf("the library does not decode it (%d %v): %x", code, err, b)}
	}
	p := v.Pkg
	if p.ProtocolVersion != 1 {
		return Reply{Invalid: fmt.Sprintf("protocol version %d: %x", p.ProtocolVersion, b)}
	}
	if p.PacketType == 1 {
		r := Reply{Result: true, SST: -1}
		n := 0
		for _, x := range *p.ServicesFrameData.(*egts.ServiceDataSet) {
			for _, s := range x.RecordDataSet {
				d, ok := s.SubrecordData.(*egts.SrResultCode)
				if !ok {
					return Reply{Invalid: fmt.Sprintf("application data that is not a result code: %x", b)}
				}
				r.Code = d.ResultCode
				n++
			}
		}
		if n != 1 {
			return Reply{Invalid: fmt.Sprintf("%d result codes: %x", n, b)}
		}
		return r
	}
	d := p.ServicesFrameData.(*egts.PtResponse)
	r := Reply{RPID: d.ResponsePacketID, Code: d.ProcessingResult, SST: -1}
	if d.SDR != nil {
		for k, x := range *d.SDR.(*egts.ServiceDataSet) {
			if k == 0 {
				r.SST = int(x.SourceServiceType)
			}
			for _, s := range x.RecordDataSet {
				c, ok := s.SubrecordData.(*egts.SrResponse)
				if !ok {
					return Reply{Invalid: fmt.Sprintf("response with a subrecord that is not a confirmation: %x", b)}
				}
				r.Confs = append(r.Confs, Conf{c.ConfirmedRecordNumber, c.RecordStatus})
			}
		}
	}
	return r
}

// SameReply compares a reply with the expected one; codes is nil or the acceptable result codes.
func SameReply(got, want Reply) string {
	if got.Invalid != "" {
		return got.Invalid
	}
	if got.Result != want.Result {
		return fmt.Sprintf("got %v instead of %v", got, want)
	}
	if got.Result {
		if got.Code != want.Code {
			return fmt.Sprintf("result code %d instead of %d", got.Code, want.Code)
		}
		return ""
	}
	if got.RPID != want.RPID {
		return fmt.Sprintf("response refers to packet %d instead of %d", got.RPID, want.RPID)
	}
	if (got.Code == 0) != (want.Code == 0) {
		return fmt.Sprintf("response carries result %d instead of %d", got.Code, want.Code)
	}
	if len(got.Confs) != len(want.Confs) {
		return fmt.Sprintf("response confirms %d records instead of %d: %v", len(got.Confs), len(want.Confs), got.Confs)
	}
	for i := range got.Confs {
		if got.Confs[i] != want.Confs[i] {
			return fmt.Sprintf("confirmation %d is for record %d with status %d instead of record %d with status %d", i, got.Confs[i].RN, got.Confs[i].Status, want.Confs[i].RN, want.Confs[i].Status)
		}
	}
	return ""
}

// SameNav compares a stored record with the expected one (receive time aside). The wire can hold "directions" of
// 384 and more, which are no courses; they may lose a bit.
func SameNav(got, want Nav) (msg string) {
	if got.bad != "" {
		return got.bad
	}
	f := func(name string, a, b uint64) {
		if a != b && msg == "" {
			msg = fmt.Sprintf("%s is %d instead of %d", name, a, b)
		}
	}
	f("client", got.Client, want.Client)
	f("packet number", got.PacketID, want.PacketID)
	f("navigation time", uint64(got.NavT), uint64(want.NavT))
	f("speed", got.Speed, want.Speed)
	f("pdop", got.Pdop, want.Pdop)
	f("hdop", got.Hdop, want.Hdop)
	f("vdop", got.Vdop, want.Vdop)
	f("satellites", got.Nsat, want.Nsat)
	f("navigation system", got.Ns, want.Ns)
	if want.Course < 384 {
		f("course", got.Course, want.Course)
	}
	if msg == "" && (!near(got.Lat, want.Lat) || !near(got.Lon, want.Lon)) {
		msg = fmt.Sprintf("coordinates are %v %v instead of %v %v", got.Lat, got.Lon, want.Lat, want.Lon)
	}
	if msg == "" && (len(got.An) != len(want.An) || len(got.Liq) != len(want.Liq)) {
		msg = fmt.Sprintf("sensors are %v %v instead of %v %v", got.An, got.Liq, want.An, want.Liq)
	}
	if msg == "" {
		for i := range got.An {
			if got.An[i] != want.An[i] {
				msg = fmt.Sprintf("analog sensors are %v instead of %v", got.An, want.An)
			}
		}
		for i := range got.Liq {
			if got.Liq[i] != want.Liq[i] {
				msg = fmt.Sprintf("liquid sensors are %v instead of %v", got.Liq, want.Liq)
			}
		}
	}
	return
}

func near(a, b float64) bool { d := a - b; return d < 1e-9 && d > -1e-9 }

// Saves flattens the expected saves.
func (e Exp) Saves() []Nav {
	var out []Nav
	for _, p := range e.Pkts {
		out = append(out, p.Saves...)
	}
	return out
}

// Replies flattens the expected replies.
func (e Exp) Replies() []Reply {
	var out []Reply
	for _, p := range e.Pkts {
		out = append(out, p.Replies...)
	}
	return out
}

// Unspec tells whether some packet is unspecified.
func (e Exp) Unspec() bool {
	for _, p := range e.Pkts {
		if p.Unspec {
			return true
		}
	}
	return false
}
