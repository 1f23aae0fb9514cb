// Package ref is an independent reference for the EGTS wire format, written from the standard's tables
// (GOST R 54619-2011, order 285) with plain bit operations. It shares no code with libs/egts and uses that
// package's exported structures only as value carriers.
package ref

import (
	"strings"
	"time"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
)

// ---- checksums ----------------------------------------------------------------------------------------

var crc8tab [256]byte
var crc16tab [256]uint16

func init() {
	for i := 0; i < 256; i++ {
		c := byte(i)
		for k := 0; k < 8; k++ {
			hi := c >> 7
			c <<= 1
			if hi == 1 {
				c ^= 0x31
			}
		}
		crc8tab[i] = c
		d := uint16(i) << 8
		for k := 0; k < 8; k++ {
			hi := d >> 15
			d <<= 1
			if hi == 1 {
				d ^= 0x1021
			}
		}
		crc16tab[i] = d
	}
}

// CRC8 is the header checksum: polynomial 0x31, initial value 0xFF, not reflected.
func CRC8(b []byte) byte {
	c := byte(0xFF)
	for _, x := range b {
		c = crc8tab[c^x]
	}
	return c
}

// CRC16 is the body checksum: CRC-16/CCITT-FALSE.
func CRC16(b []byte) uint16 {
	c := uint16(0xFFFF)
	for _, x := range b {
		c = c<<8 ^ crc16tab[byte(c>>8)^x]
	}
	return c
}

// ---- primitive readers and writers --------------------------------------------------------------------

type wr struct{ b []byte }

func (w *wr) u8(v byte)     { w.b = append(w.b, v) }
func (w *wr) u16(v uint16)  { w.b = append(w.b, byte(v), byte(v>>8)) }
func (w *wr) u24(v uint32)  { w.b = append(w.b, byte(v), byte(v>>8), byte(v>>16)) }
func (w *wr) u32(v uint32)  { w.b = append(w.b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24)) }
func (w *wr) raw(v []byte)  { w.b = append(w.b, v...) }
func (w *wr) str(v string)  { w.b = append(w.b, v...) }
func (w *wr) cstr(v string) { w.b = append(w.b, v...); w.b = append(w.b, 0) }

type rd struct {
	b   []byte
	bad bool // ran out of bytes
}

func (r *rd) raw(n int) []byte {
	if len(r.b) < n {
		r.bad = true
		r.b = nil
		return make([]byte, n)
	}
	v := r.b[:n:n]
	r.b = r.b[n:]
	return v
}
func (r *rd) u8() byte    { return r.raw(1)[0] }
func (r *rd) u16() uint16 { v := r.raw(2); return uint16(v[0]) | uint16(v[1])<<8 }
func (r *rd) u24() uint32 { v := r.raw(3); return uint32(v[0]) | uint32(v[1])<<8 | uint32(v[2])<<16 }
func (r *rd) u32() uint32 {
	v := r.raw(4)
	return uint32(v[0]) | uint32(v[1])<<8 | uint32(v[2])<<16 | uint32(v[3])<<24
}
func (r *rd) cstr() string {
	for i, c := range r.b {
		if c == 0 {
			s := string(r.b[:i])
			r.b = r.b[i+1:]
			return s
		}
	}
	r.bad = true
	r.b = nil
	return ""
}

// Bits renders the low n bits of v, most significant first (the library's representation of flags).
func Bits(v uint, n int) string {
	s := make([]byte, n)
	for i := range s {
		s[i] = '0' + byte(v>>(n-1-i)&1)
	}
	return string(s)
}

func bitsVal(parts ...string) (byte, bool) {
	s := strings.Join(parts, "")
	if len(s) != 8 {
		return 0, false
	}
	v := byte(0)
	for _, c := range []byte(s) {
		if c != '0' && c != '1' {
			return 0, false
		}
		v = v<<1 | (c - '0')
	}
	return v, true
}

var epoch = time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)

// TimeOf converts protocol seconds to time.
func TimeOf(sec uint32) time.Time { return time.Unix(epoch.Unix()+int64(sec), 0).UTC() }

func secOf(t time.Time) uint32 { return uint32(t.Unix() - epoch.Unix()) }

// LatOf and LonOf give the degrees of a raw coordinate: raw * 90 / 0xFFFFFFFF (or 180).
func LatOf(raw uint32) float64 { return float64(raw) * 90 / 0xFFFFFFFF }
func LonOf(raw uint32) float64 { return float64(raw) * 180 / 0xFFFFFFFF }

// RawLat and RawLon find the raw value whose degrees are nearest to d.
func RawLat(d float64) uint32 { return nearest(d, LatOf, 90) }
func RawLon(d float64) uint32 { return nearest(d, LonOf, 180) }

func nearest(d float64, f func(uint32) float64, max float64) uint32 {
	g := int64(d / max * 0xFFFFFFFF)
	best, bd := int64(0), -1.0
	for k := g - 2; k <= g+2; k++ {
		if k < 0 || k > 0xFFFFFFFF {
			continue
		}
		e := f(uint32(k)) - d
		if e < 0 {
			e = -e
		}
		if bd < 0 || e < bd {
			best, bd = k, e
		}
	}
	return uint32(best)
}

// ---- sections -----------------------------------------------------------------------------------------

// TypeOf is the subrecord type code the standard assigns to a section.
func TypeOf(d egts.BinaryData) byte {
	switch d.(type) {
	case *egts.SrResponse:
		return 0
	case *egts.SrTermIdentity:
		return 1
	case *egts.SrModuleData:
		return 2
	case *egts.SrDispatcherIdentity:
		return 5
	case *egts.SrAuthInfo:
		return 7
	case *egts.SrResultCode:
		return 9
	case *egts.StorageRecord:
		return 15
	case *egts.SrPosData:
		return 16
	case *egts.SrExtPosData:
		return 17
	case *egts.SrAdSensorsData:
		return 18
	case *egts.SrCountersData:
		return 19
	case *egts.SrStateData:
		return 21
	case *egts.SrAbsAnSensData:
		return 24
	case *egts.SrAbsCntrData:
		return 25
	case *egts.SrLiquidLevelSensor:
		return 27
	}
	panic("ref: unknown section")
}

// KnownType tells whether the library documents the subrecord type as supported (20 only with length 5).
func KnownType(t byte) bool {
	switch t {
	case 0, 1, 2, 5, 7, 9, 15, 16, 17, 18, 19, 20, 21, 24, 25, 27:
		return true
	}
	return false
}

// NewSection returns an empty section for a subrecord type, or nil.
func NewSection(t byte) egts.BinaryData {
	switch t {
	case 0:
		return &egts.SrResponse{}
	case 1:
		return &egts.SrTermIdentity{}
	case 2:
		return &egts.SrModuleData{}
	case 5:
		return &egts.SrDispatcherIdentity{}
	case 7:
		return &egts.SrAuthInfo{}
	case 9:
		return &egts.SrResultCode{}
	case 15:
		return &egts.StorageRecord{}
	case 16:
		return &egts.SrPosData{}
	case 17:
		return &egts.SrExtPosData{}
	case 18:
		return &egts.SrAdSensorsData{}
	case 19:
		return &egts.SrCountersData{}
	case 20, 21:
		return &egts.SrStateData{}
	case 24:
		return &egts.SrAbsAnSensData{}
	case 25:
		return &egts.SrAbsCntrData{}
	case 27:
		return &egts.SrLiquidLevelSensor{}
	}
	return nil
}

// AnalogPtr etc. give indexed access to the numbered fields.
func AdFlags(e *egts.SrAdSensorsData) (d, a [8]*string) {
	return [8]*string{&e.DigitalInputsOctetExists1, &e.DigitalInputsOctetExists2, &e.DigitalInputsOctetExists3, &e.DigitalInputsOctetExists4, &e.DigitalInputsOctetExists5, &e.DigitalInputsOctetExists6, &e.DigitalInputsOctetExists7, &e.DigitalInputsOctetExists8},
		[8]*string{&e.AnalogSensorFieldExists1, &e.AnalogSensorFieldExists2, &e.AnalogSensorFieldExists3, &e.AnalogSensorFieldExists4, &e.AnalogSensorFieldExists5, &e.AnalogSensorFieldExists6, &e.AnalogSensorFieldExists7, &e.AnalogSensorFieldExists8}
}
func AdVals(e *egts.SrAdSensorsData) (d [8]*byte, a [8]*uint32) {
	return [8]*byte{&e.AdditionalDigitalInputsOctet1, &e.AdditionalDigitalInputsOctet2, &e.AdditionalDigitalInputsOctet3, &e.AdditionalDigitalInputsOctet4, &e.AdditionalDigitalInputsOctet5, &e.AdditionalDigitalInputsOctet6, &e.AdditionalDigitalInputsOctet7, &e.AdditionalDigitalInputsOctet8},
		[8]*uint32{&e.AnalogSensor1, &e.AnalogSensor2, &e.AnalogSensor3, &e.AnalogSensor4, &e.AnalogSensor5, &e.AnalogSensor6, &e.AnalogSensor7, &e.AnalogSensor8}
}
func CtFields(e *egts.SrCountersData) (f [8]*string, v [8]*uint32) {
	return [8]*string{&e.CounterFieldExists1, &e.CounterFieldExists2, &e.CounterFieldExists3, &e.CounterFieldExists4, &e.CounterFieldExists5, &e.CounterFieldExists6, &e.CounterFieldExists7, &e.CounterFieldExists8},
		[8]*uint32{&e.Counter1, &e.Counter2, &e.Counter3, &e.Counter4, &e.Counter5, &e.Counter6, &e.Counter7, &e.Counter8}
}

func mask8(f [8]*string) (byte, bool) {
	m := byte(0)
	for i, s := range f {
		switch *s {
		case "1":
			m |= 1 << i
		case "0":
		default:
			return 0, false
		}
	}
	return m, true
}

// EncodeSection gives the standard's bytes for a section; ok is false if the value is not representable.
func EncodeSection(d egts.BinaryData) (out []byte, ok bool) {
	w := &wr{}
	ok = true
	switch e := d.(type) {
	case *egts.SrResponse:
		w.u16(e.ConfirmedRecordNumber)
		w.u8(e.RecordStatus)
	case *egts.SrResultCode:
		w.u8(e.ResultCode)
	case *egts.SrTermIdentity:
		f, good := bitsVal(e.MNE, e.BSE, e.NIDE, e.SSRA, e.LNGCE, e.IMSIE, e.IMEIE, e.HDIDE)
		if !good {
			return nil, false
		}
		w.u32(e.TerminalIdentifier)
		w.u8(f)
		if f&1 != 0 {
			w.u16(e.HomeDispatcherIdentifier)
		}
		if f&2 != 0 {
			ok = ok && len(e.IMEI) == 15
			w.str(e.IMEI)
		}
		if f&4 != 0 {
			ok = ok && len(e.IMSI) == 16
			w.str(e.IMSI)
		}
		if f&8 != 0 {
			ok = ok && len(e.LanguageCode) == 3
			w.str(e.LanguageCode)
		}
		if f&32 != 0 {
			ok = ok && len(e.NetworkIdentifier) == 3
			w.raw(e.NetworkIdentifier)
		}
		if f&64 != 0 {
			w.u16(e.BufferSize)
		}
		if f&128 != 0 {
			ok = ok && len(e.MobileNumber) == 15
			w.str(e.MobileNumber)
		}
	case *egts.SrModuleData:
		w.u8(byte(e.ModuleType))
		w.u32(e.VendorID)
		w.u16(e.FirmwareVersion)
		w.u16(e.SoftwareVersion)
		w.u8(e.Modification)
		w.u8(e.State)
		w.cstr(e.SerialNumber)
		w.cstr(e.Description)
		ok = !strings.Contains(e.SerialNumber+e.Description, "\x00")
	case *egts.SrDispatcherIdentity:
		w.u8(e.DispatcherType)
		w.u32(e.DispatcherID)
		w.str(e.Description)
	case *egts.SrAuthInfo:
		w.cstr(e.UserName)
		w.cstr(e.UserPassword)
		if e.ServerSequence != "" {
			w.cstr(e.ServerSequence)
		}
		ok = !strings.Contains(e.UserName+e.UserPassword+e.ServerSequence, "\x00")
	case *egts.SrPosData:
		f, good := bitsVal(e.ALTE, e.LOHS, e.LAHS, e.MV, e.BB, e.CS, e.FIX, e.VLD)
		if !good || e.Speed > 1638 || e.DirectionHighestBit > 1 || e.AltitudeSign > 1 || e.Odometer > 0xFFFFFF || e.Altitude > 0xFFFFFF {
			return nil, false
		}
		w.u32(secOf(e.NavigationTime))
		w.u32(RawLat(e.Latitude))
		w.u32(RawLon(e.Longitude))
		w.u8(f)
		w.u16(e.Speed*10 | uint16(e.AltitudeSign)<<14 | uint16(e.DirectionHighestBit)<<15)
		dir := e.Direction
		if e.DirectionHighestBit == 1 { // the library's Direction carries a copy of DIRH in bit 7
			ok = ok && dir&0x80 != 0
			dir &= 0x7F
		}
		w.u8(dir)
		w.u24(e.Odometer)
		w.u8(e.DigitalInputs)
		w.u8(e.Source)
		if f&0x80 != 0 {
			w.u24(e.Altitude)
		}
	case *egts.SrExtPosData:
		f, good := bitsVal("000", e.NavigationSystemFieldExists, e.SatellitesFieldExists, e.PdopFieldExists, e.HdopFieldExists, e.VdopFieldExists)
		if !good {
			return nil, false
		}
		w.u8(f)
		if f&1 != 0 {
			w.u16(e.VerticalDilutionOfPrecision)
		}
		if f&2 != 0 {
			w.u16(e.HorizontalDilutionOfPrecision)
		}
		if f&4 != 0 {
			w.u16(e.PositionDilutionOfPrecision)
		}
		if f&8 != 0 {
			w.u8(e.Satellites)
		}
		if f&16 != 0 {
			w.u16(e.NavigationSystem)
		}
	case *egts.SrAdSensorsData:
		df, af := AdFlags(e)
		dv, av := AdVals(e)
		dm, ok1 := mask8(df)
		am, ok2 := mask8(af)
		if !ok1 || !ok2 {
			return nil, false
		}
		w.u8(dm)
		w.u8(e.DigitalOutputs)
		w.u8(am)
		for i := 0; i < 8; i++ {
			if dm>>i&1 != 0 {
				w.u8(*dv[i])
			}
		}
		for i := 0; i < 8; i++ {
			if am>>i&1 != 0 {
				ok = ok && *av[i] <= 0xFFFFFF
				w.u24(*av[i])
			}
		}
	case *egts.SrCountersData:
		cf, cv := CtFields(e)
		m, good := mask8(cf)
		if !good {
			return nil, false
		}
		w.u8(m)
		for i := 0; i < 8; i++ {
			if m>>i&1 != 0 {
				ok = ok && *cv[i] <= 0xFFFFFF
				w.u24(*cv[i])
			}
		}
	case *egts.SrStateData:
		f, good := bitsVal("00000", e.NMS, e.IBU, e.BBU)
		if !good {
			return nil, false
		}
		w.u8(e.State)
		w.u8(e.MainPowerSourceVoltage)
		w.u8(e.BackUpBatteryVoltage)
		w.u8(e.InternalBatteryVoltage)
		w.u8(f)
	case *egts.SrAbsAnSensData:
		w.u8(e.SensorNumber)
		w.u24(e.Value)
		ok = e.Value <= 0xFFFFFF
	case *egts.SrAbsCntrData:
		w.u8(e.CounterNumber)
		w.u24(e.CounterValue)
		ok = e.CounterValue <= 0xFFFFFF
	case *egts.SrLiquidLevelSensor:
		if e.LiquidLevelSensorNumber > 7 {
			return nil, false
		}
		f, good := bitsVal("0", e.LiquidLevelSensorErrorFlag, e.LiquidLevelSensorValueUnit, e.RawDataFlag, Bits(uint(e.LiquidLevelSensorNumber), 3))
		if !good {
			return nil, false
		}
		w.u8(f)
		w.u16(e.ModuleAddress)
		w.u32(e.LiquidLevelSensorData)
	case *egts.StorageRecord:
		return encodePlus(e)
	default:
		return nil, false
	}
	return w.b, ok
}

// DecodeSection reads a section; ok is false when the bytes end inside a field. surplus is the number of
// bytes left over (zero for sections whose last field takes the rest).
func DecodeSection(t byte, b []byte) (d egts.BinaryData, surplus int, ok bool) {
	r := &rd{b: b}
	switch t {
	case 0:
		e := &egts.SrResponse{}
		e.ConfirmedRecordNumber = r.u16()
		e.RecordStatus = r.u8()
		d = e
	case 9:
		e := &egts.SrResultCode{ResultCode: r.u8()}
		d = e
	case 1:
		e := &egts.SrTermIdentity{}
		e.TerminalIdentifier = r.u32()
		f := uint(r.u8())
		e.MNE, e.BSE, e.NIDE, e.SSRA = Bits(f>>7, 1), Bits(f>>6, 1), Bits(f>>5, 1), Bits(f>>4, 1)
		e.LNGCE, e.IMSIE, e.IMEIE, e.HDIDE = Bits(f>>3, 1), Bits(f>>2, 1), Bits(f>>1, 1), Bits(f, 1)
		if f&1 != 0 {
			e.HomeDispatcherIdentifier = r.u16()
		}
		if f&2 != 0 {
			e.IMEI = string(r.raw(15))
		}
		if f&4 != 0 {
			e.IMSI = string(r.raw(16))
		}
		if f&8 != 0 {
			e.LanguageCode = string(r.raw(3))
		}
		if f&32 != 0 {
			e.NetworkIdentifier = append([]byte{}, r.raw(3)...)
		}
		if f&64 != 0 {
			e.BufferSize = r.u16()
		}
		if f&128 != 0 {
			e.MobileNumber = string(r.raw(15))
		}
		d = e
	case 2:
		e := &egts.SrModuleData{}
		e.ModuleType = int8(r.u8())
		e.VendorID = r.u32()
		e.FirmwareVersion = r.u16()
		e.SoftwareVersion = r.u16()
		e.Modification = r.u8()
		e.State = r.u8()
		e.SerialNumber = r.cstr()
		e.Description = r.cstr()
		d = e
	case 5:
		e := &egts.SrDispatcherIdentity{}
		e.DispatcherType = r.u8()
		e.DispatcherID = r.u32()
		e.Description = string(r.b)
		r.b = nil
		d = e
	case 7:
		e := &egts.SrAuthInfo{}
		e.UserName = r.cstr()
		e.UserPassword = r.cstr()
		if len(r.b) > 0 {
			e.ServerSequence = r.cstr()
		}
		d = e
	case 16:
		e := &egts.SrPosData{}
		e.NavigationTime = TimeOf(r.u32())
		e.Latitude = LatOf(r.u32())
		e.Longitude = LonOf(r.u32())
		f := uint(r.u8())
		e.ALTE, e.LOHS, e.LAHS, e.MV = Bits(f>>7, 1), Bits(f>>6, 1), Bits(f>>5, 1), Bits(f>>4, 1)
		e.BB, e.CS, e.FIX, e.VLD = Bits(f>>3, 1), Bits(f>>2, 1), Bits(f>>1, 1), Bits(f, 1)
		s := r.u16()
		e.DirectionHighestBit = byte(s >> 15)
		e.AltitudeSign = byte(s >> 14 & 1)
		e.Speed = s & 0x3FFF / 10
		e.Direction = r.u8() | e.DirectionHighestBit<<7
		e.Odometer = r.u24()
		e.DigitalInputs = r.u8()
		e.Source = r.u8()
		if f&0x80 != 0 {
			e.Altitude = r.u24()
		}
		d = e
	case 17:
		e := &egts.SrExtPosData{}
		f := uint(r.u8())
		e.NavigationSystemFieldExists, e.SatellitesFieldExists = Bits(f>>4, 1), Bits(f>>3, 1)
		e.PdopFieldExists, e.HdopFieldExists, e.VdopFieldExists = Bits(f>>2, 1), Bits(f>>1, 1), Bits(f, 1)
		if f&1 != 0 {
			e.VerticalDilutionOfPrecision = r.u16()
		}
		if f&2 != 0 {
			e.HorizontalDilutionOfPrecision = r.u16()
		}
		if f&4 != 0 {
			e.PositionDilutionOfPrecision = r.u16()
		}
		if f&8 != 0 {
			e.Satellites = r.u8()
		}
		if f&16 != 0 {
			e.NavigationSystem = r.u16()
		}
		d = e
	case 18:
		e := &egts.SrAdSensorsData{}
		df, af := AdFlags(e)
		dv, av := AdVals(e)
		dm := uint(r.u8())
		e.DigitalOutputs = r.u8()
		am := uint(r.u8())
		for i := 0; i < 8; i++ {
			*df[i], *af[i] = Bits(dm>>i, 1), Bits(am>>i, 1)
		}
		for i := 0; i < 8; i++ {
			if dm>>i&1 != 0 {
				*dv[i] = r.u8()
			}
		}
		for i := 0; i < 8; i++ {
			if am>>i&1 != 0 {
				*av[i] = r.u24()
			}
		}
		d = e
	case 19:
		e := &egts.SrCountersData{}
		cf, cv := CtFields(e)
		m := uint(r.u8())
		for i := 0; i < 8; i++ {
			*cf[i] = Bits(m>>i, 1)
			if m>>i&1 != 0 {
				*cv[i] = r.u24()
			}
		}
		d = e
	case 20, 21:
		e := &egts.SrStateData{}
		e.State = r.u8()
		e.MainPowerSourceVoltage = r.u8()
		e.BackUpBatteryVoltage = r.u8()
		e.InternalBatteryVoltage = r.u8()
		f := uint(r.u8())
		e.NMS, e.IBU, e.BBU = Bits(f>>2, 1), Bits(f>>1, 1), Bits(f, 1)
		d = e
	case 24:
		e := &egts.SrAbsAnSensData{}
		e.SensorNumber = r.u8()
		e.Value = r.u24()
		d = e
	case 25:
		e := &egts.SrAbsCntrData{}
		e.CounterNumber = r.u8()
		e.CounterValue = r.u24()
		d = e
	case 27:
		e := &egts.SrLiquidLevelSensor{}
		f := uint(r.u8())
		e.LiquidLevelSensorErrorFlag = Bits(f>>6, 1)
		e.LiquidLevelSensorValueUnit = Bits(f>>4, 2)
		e.RawDataFlag = Bits(f>>3, 1)
		e.LiquidLevelSensorNumber = byte(f & 7)
		e.ModuleAddress = r.u16()
		e.LiquidLevelSensorData = r.u32()
		d = e
	case 15:
		e, good := decodePlus(b)
		return e, 0, good
	default:
		return nil, 0, false
	}
	return d, len(r.b), !r.bad
}
