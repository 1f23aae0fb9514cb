package codec

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"verifharness/gen"
	"verifharness/mc"
	"verifharness/ref"
)

// ---- C25 ----------------------------------------------------------------------------------------------

// jsonKeys: the documented key of each value, as field=key.
var jsonKeys = parseKeys(map[string]string{
	"Package":                             "ProtocolVersion=PRV SecurityKeyID=SKID Prefix=PRF Route=RTE EncryptionAlg=ENA Compression=CMP Priority=PR HeaderLength=HL HeaderEncoding=HE FrameDataLength=FDL PacketIdentifier=PID PacketType=PT PeerAddress=PRA RecipientAddress=RCA TimeToLive=TTL HeaderCheckSum=HCS ServicesFrameData=SFRD ServicesFrameDataCheckSum=SFRCS",
	"PtResponse":                          "ResponsePacketID=RPID ProcessingResult=PR SDR=SDR",
	"SrAbsAnSensData":                     "SensorNumber=SensorNumber Value=Value",
	"SrAbsCntrData":                       "CounterNumber=CN CounterValue=CNV",
	"SrAdSensorsData":                     "DigitalInputsOctetExists1=DIOE1 DigitalInputsOctetExists2=DIOE2 DigitalInputsOctetExists3=DIOE3 DigitalInputsOctetExists4=DIOE4 DigitalInputsOctetExists5=DIOE5 DigitalInputsOctetExists6=DIOE6 DigitalInputsOctetExists7=DIOE7 DigitalInputsOctetExists8=DIOE8 DigitalOutputs=DOUT AnalogSensorFieldExists1=ASFE1 AnalogSensorFieldExists2=ASFE2 AnalogSensorFieldExists3=ASFE3 AnalogSensorFieldExists4=ASFE4 AnalogSensorFieldExists5=ASFE5 AnalogSensorFieldExists6=ASFE6 AnalogSensorFieldExists7=ASFE7 AnalogSensorFieldExists8=ASFE8 AdditionalDigitalInputsOctet1=ADIO1 AdditionalDigitalInputsOctet2=ADIO2 AdditionalDigitalInputsOctet3=ADIO3 AdditionalDigitalInputsOctet4=ADIO4 AdditionalDigitalInputsOctet5=ADIO5 AdditionalDigitalInputsOctet6=ADIO6 AdditionalDigitalInputsOctet7=ADIO7 AdditionalDigitalInputsOctet8=ADIO8 AnalogSensor1=ANS1 AnalogSensor2=ANS2 AnalogSensor3=ANS3 AnalogSensor4=ANS4 AnalogSensor5=ANS5 AnalogSensor6=ANS6 AnalogSensor7=ANS7 AnalogSensor8=ANS8",
	"SrAuthInfo":                          "UserName=UNM UserPassword=UPSW ServerSequence=SS",
	"SrCountersData":                      "CounterFieldExists1=CFE1 CounterFieldExists2=CFE2 CounterFieldExists3=CFE3 CounterFieldExists4=CFE4 CounterFieldExists5=CFE5 CounterFieldExists6=CFE6 CounterFieldExists7=CFE7 CounterFieldExists8=CFE8 Counter1=CN1 Counter2=CN2 Counter3=CN3 Counter4=CN4 Counter5=CN5 Counter6=CN6 Counter7=CN7 Counter8=CN8",
	"SrDispatcherIdentity":                "DispatcherType=DT DispatcherID=DID Description=DSCR",
	"StorageRecord":                       "RecordNumber=record_number TimeStamp=time_stamp RecordReason=record_reason StatusFlags=status_flags SensAccelerometerData=sens_accelerometer_data SensAinAinValue=sens_ain_ain_value SensBufferData=sens_buffer_data SensButtonPressCounter=sens_button_press_counter SensCanLogData=sens_can_log_data SensCanLogTmpDataExt=sens_can_log_tmp_data_ext SensCounterCount=sens_counter_count SensCrashData=sens_crash_data SensDinsFlags=sens_dins_flags SensDoutsFlags=sens_douts_flags SensFmeterFrequency=sens_fmeter_frequency SensFuelLevel=sens_fuel_level SensGsmCellMonotoringCellMonitoring=sens_gsm_cell_monotoring_cell_monitoring SensNdNavData=sens_nd_nav_data SensStorInfo=sens_stor_info SensTermoData=sens_termo_data SensTestEraTests=sens_test_era_tests SensTrackerInfo=sens_tracker_info",
	"SensAccelerometerData":               "SensNum=sens_num Buf=buf Atm=atm Frequency=frequency Range=range Format=format Zlib=zlib",
	"SensAinAinValue":                     "SensNum=sens_num Mv=mv",
	"SensBufferData":                      "SensNum=sens_num Data=data IsPacked=is_packed",
	"SensButtonPressCounter":              "SensNum=sens_num State=state",
	"SensCanLogData":                      "SensNum=sens_num FlagSecurityState=flag_security_state FlagAlarm=flag_alarm EngineTimeAll=engine_time_all EngineTurnSpeed=engine_turn_speed EngineTemperature=engine_temperature FuelConsumptionAll=fuel_consumption_all FuelLevel=fuel_level TrackAll=track_all Speed=speed PressureAxis_1=pressure_axis_1 PressureAxis_2=pressure_axis_2 PressureAxis_3=pressure_axis_3 PressureAxis_4=pressure_axis_4 PressureAxis_5=pressure_axis_5",
	"SensCanLogTmpDataExt":                "SensNum=sens_num FlagsHigh=flags_high FlagsLow=flags_low",
	"SensCounterCount":                    "SensNum=sens_num Value=value",
	"SensCrashData":                       "SensNum=sens_num Energy=energy IsOverturned=is_overturned",
	"SensDinsFlags":                       "SensNum=sens_num Device=device External=external",
	"SensDoutsFlags":                      "SensNum=sens_num Device=device External=external",
	"SensFmeterFrequency":                 "SensNum=sens_num Value=value",
	"SensFuelLevel":                       "SensNum=sens_num Value=value Parrots=parrots Unit=unit T=t Status=status",
	"SensGsmCellMonotoringCellMonitoring": "SensNum=sens_num Lac=lac Cid=cid Rssi=rssi TimeAdv=time_adv Mcc=mcc Mnc=mnc",
	"SensNdNavData":                       "SensNum=sens_num Longitude=longitude Latitude=latitude Altitude=altitude Speed=speed Course=course SatCount=sat_count Pdop=pdop Track=track Odometer=odometer",
	"SensStorInfo":                        "SensNum=sens_num IdMax=id_max IdMin=id_min TmOldest=tm_oldest TmOldestUnack=tm_oldest_unack CntUnack=cnt_unack CntUnackLosted=cnt_unack_losted",
	"SensTermoData":                       "SensNum=sens_num Status=status Temperature=temperature",
	"SensTestEraTests":                    "SensNum=sens_num MicConFailure=mic_con_failure MicFailure=mic_failure IgnitionFailure=ignition_failure UimFailure=uim_failure BatFailure=bat_failure BatVoltLow=bat_volt_low CrashSensFailure=crash_sens_failure RaimProblem=raim_problem GnssAntennaFailure=gnss_antenna_failure EventsMemoryOverflow=events_memory_overflow",
	"SensTrackerInfo":                     "SensNum=sens_num CntAck=cnt_ack CntAckRealtime=cnt_ack_realtime CntNoack=cnt_noack CntConnect=cnt_connect",
	"SrExtPosData":                        "NavigationSystemFieldExists=NSFE SatellitesFieldExists=SFE PdopFieldExists=PFE HdopFieldExists=HFE VdopFieldExists=VFE VerticalDilutionOfPrecision=VDOP HorizontalDilutionOfPrecision=HDOP PositionDilutionOfPrecision=PDOP Satellites=SAT NavigationSystem=NS",
	"SrLiquidLevelSensor":                 "LiquidLevelSensorErrorFlag=LLSEF LiquidLevelSensorValueUnit=LLSVU RawDataFlag=RDF LiquidLevelSensorNumber=LLSN ModuleAddress=MADDR LiquidLevelSensorData=LLSD",
	"SrModuleData":                        "ModuleType=MT VendorID=VID FirmwareVersion=FWV SoftwareVersion=SWV Modification=MD State=ST SerialNumber=SRN Description=DSCR",
	"SrPosData":                           "NavigationTime=NTM Latitude=LAT Longitude=LONG ALTE=ALTE LOHS=LOHS LAHS=LAHS MV=MV BB=BB CS=CS FIX=FIX VLD=VLD DirectionHighestBit=DIRH AltitudeSign=ALTS Speed=SPD Direction=DIR Odometer=ODM DigitalInputs=DIN Source=SRC Altitude=ALT SourceData=SRCD",
	"SrResponse":                          "ConfirmedRecordNumber=CRN RecordStatus=RST",
	"SrResultCode":                        "ResultCode=RCD",
	"SrStateData":                         "State=ST MainPowerSourceVoltage=MPSV BackUpBatteryVoltage=BBV InternalBatteryVoltage=IBV NMS=NMS IBU=IBU BBU=BBU",
	"SrTermIdentity":                      "TerminalIdentifier=TID MNE=MNE BSE=BSE NIDE=NIDE SSRA=SSRA LNGCE=LNGCE IMSIE=IMSIE IMEIE=IMEIE HDIDE=HDIDE HomeDispatcherIdentifier=HDID IMEI=IMEI IMSI=IMSI LanguageCode=LNGC NetworkIdentifier=NID BufferSize=BS MobileNumber=MSISDN",
	"RecordData":                          "SubrecordType=SRT SubrecordLength=SRL SubrecordData=SRD",
	"ServiceDataRecord":                   "RecordLength=RL RecordNumber=RN SourceServiceOnDevice=SSOD RecipientServiceOnDevice=RSOD Group=GRP RecordProcessingPriority=RPP TimeFieldExists=TMFE EventIDFieldExists=EVFE ObjectIDFieldExists=OBFE ObjectIdentifier=OID EventIdentifier=EVID Time=TM SourceServiceType=SST RecipientServiceType=RST RecordDataSet=RD",
})

func parseKeys(m map[string]string) map[string]map[string]string {
	out := map[string]map[string]string{}
	for t, s := range m {
		out[t] = map[string]string{}
		for _, f := range strings.Fields(s) {
			k := strings.IndexByte(f, '=')
			out[t][f[:k]] = f[k+1:]
		}
	}
	return out
}

type jobj map[string]interface{}

// parseJSON reads one JSON value; a repeated key is an error.
func parseJSON(b []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	v, err := parseVal(d)
	if err != nil {
		return nil, err
	}
	if d.More() {
		return nil, errors.New("something follows the value")
	}
	return v, nil
}

func parseVal(d *json.Decoder) (interface{}, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch t {
	case json.Delim('{'):
		o := jobj{}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			if _, dup := o[k.(string)]; dup {
				return nil, fmt.Errorf("key %s twice", k)
			}
			if o[k.(string)], err = parseVal(d); err != nil {
				return nil, err
			}
		}
		_, err = d.Token()
		return o, err
	case json.Delim('['):
		a := []interface{}{}
		for d.More() {
			x, err := parseVal(d)
			if err != nil {
				return nil, err
			}
			a = append(a, x)
		}
		_, err = d.Token()
		return a, err
	}
	return t, nil
}

// sameJSON compares a JSON value with the Go value it stands for; "" if they agree.
func sameJSON(j interface{}, v reflect.Value) string {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			if j != nil {
				return fmt.Sprintf("%v instead of null", j)
			}
			return ""
		}
		v = v.Elem()
	}
	if t, ok := v.Interface().(time.Time); ok {
		s, ok := j.(string)
		u, err := time.Parse(time.RFC3339Nano, s)
		if !ok || err != nil || !u.Equal(t) {
			return fmt.Sprintf("%v instead of %v", j, t)
		}
		return ""
	}
	switch v.Kind() {
	case reflect.Struct:
		keys := jsonKeys[v.Type().Name()]
		if keys == nil {
			return "harness: no keys for " + v.Type().Name()
		}
		o, ok := j.(jobj)
		if !ok {
			return fmt.Sprintf("%v instead of an object", j)
		}
		plus := strings.HasPrefix(v.Type().Name(), "Sens") || v.Type().Name() == "StorageRecord"
		for f, k := range keys {
			x := v.FieldByName(f)
			if !x.IsValid() {
				return "harness: no field " + f
			}
			y, there := o[k]
			if !there {
				if plus && (x.Kind() == reflect.Ptr && x.IsNil() || x.Kind() == reflect.Slice && x.Len() == 0) {
					continue
				}
				return "no key " + k
			}
			if m := sameJSON(y, x); m != "" {
				return k + ": " + m
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if j == nil && v.Len() == 0 {
				return ""
			}
			s, ok := j.(string)
			b, err := base64.StdEncoding.DecodeString(s)
			if !ok || err != nil || !bytes.Equal(b, v.Bytes()) {
				return fmt.Sprintf("%v instead of %x", j, v.Bytes())
			}
			return ""
		}
		if j == nil && v.Len() == 0 {
			return ""
		}
		a, ok := j.([]interface{})
		if !ok || len(a) != v.Len() {
			return fmt.Sprintf("%v instead of a list of %d", j, v.Len())
		}
		for i := range a {
			if m := sameJSON(a[i], v.Index(i)); m != "" {
				return fmt.Sprintf("%d: %s", i, m)
			}
		}
	case reflect.String:
		s, ok := j.(string)
		if !ok || s != v.String() && utf8.ValidString(v.String()) { // JSON has no other text
			return fmt.Sprintf("%v instead of %q", j, v.String())
		}
	case reflect.Bool:
		if j != v.Bool() {
			return fmt.Sprintf("%v instead of %v", j, v.Bool())
		}
	default:
		n, ok := j.(json.Number)
		want := ""
		switch v.Kind() {
		case reflect.Float64, reflect.Float32:
			bits := 64
			if v.Kind() == reflect.Float32 {
				bits = 32
			}
			if x, err := strconv.ParseFloat(string(n), bits); ok && err == nil && x == v.Float() {
				return ""
			}
			want = fmt.Sprint(v.Float())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			want = strconv.FormatInt(v.Int(), 10)
		default:
			want = strconv.FormatUint(v.Uint(), 10)
		}
		if !ok || string(n) != want {
			return fmt.Sprintf("%v instead of %s", j, want)
		}
	}
	return ""
}

var jsonOther = gen.Pack(gen.WithSub(gen.RecF(7, 65535, 1, 2, 3, 4, 5), gen.SubT(16, 2), gen.SubT(1, 2)))

// jsonOf checks the JSON form of a packet.
func jsonOf(c *mc.C, p *egts.Package) {
	c.Describe("packet %s", short(p))
	before := ref.Dump(p)
	b, err := p.ToBytes()
	c.Op(1)
	if err != nil {
		c.Failf("no JSON form: %v for %s", err, short(p))
		return
	}
	if ref.Dump(p) != before {
		c.Failf("making the JSON form changed the packet %s", short(p))
		return
	}
	kept := string(b)
	_, _ = jsonOther.ToBytes()
	if string(b) != kept {
		c.Failf("the JSON form changed while others were made: %s became %s", kept, b)
		return
	}
	b2, err := p.ToBytes()
	if err != nil || string(b2) != kept {
		c.Failf("the JSON form differs the second time: %s and %s (%v)", kept, b2, err)
		return
	}
	j, err := parseJSON(b)
	if err != nil {
		c.Failf("not a JSON value: %v in %s", err, b)
		return
	}
	if m := sameJSON(j, reflect.ValueOf(p)); m != "" {
		c.Failf("%s\nJSON %s", m, b)
		return
	}
	c.State('j', b)
	c.Trace()
	c.Outcome("JSON of " + bodyKind(p))
}

// jsonSection checks the JSON form of one section.
func jsonSection(c *mc.C, d egts.BinaryData) {
	b, err := gen.Pack(gen.Rec(1, d)).ToBytes()
	c.Op(1)
	if err != nil {
		c.Failf("no JSON form: %v for %s", err, short(d))
		return
	}
	j, err := parseJSON(b)
	if err != nil {
		c.Failf("not a JSON value: %v in %s", err, b)
		return
	}
	defer func() {
		if recover() != nil {
			c.Failf("the section is not where it belongs in %s", b)
		}
	}()
	if m := sameJSON(j.(jobj)["SFRD"].([]interface{})[0].(jobj)["RD"].([]interface{})[0].(jobj)["SRD"], reflect.ValueOf(d)); m != "" {
		c.Failf("%s\nJSON %s", m, b)
		return
	}
	c.State('j', b)
	c.Trace()
}

// jsonBack reads the JSON form of a section back.
func jsonBack(c *mc.C, t byte, d egts.BinaryData) {
	p := gen.Pack(gen.WithSub(gen.Rec(1), egts.RecordData{SubrecordType: t, SubrecordData: d}))
	b, err := p.ToBytes()
	c.Op(1)
	if err != nil {
		c.Failf("no JSON form: %v for %s", err, short(p))
		return
	}
	var x struct {
		SFRD []struct {
			RD []struct {
				SRT byte
				SRD json.RawMessage
			}
		}
	}
	if err = json.Unmarshal(b, &x); err != nil || len(x.SFRD) != 1 || len(x.SFRD[0].RD) != 1 || x.SFRD[0].RD[0].SRT != t {
		c.Failf("sections are not where they belong (%v) in %s", err, b)
		return
	}
	if j, err := parseJSON(x.SFRD[0].RD[0].SRD); err != nil {
		c.Failf("not a JSON value: %v in %s", err, b)
		return
	} else if m := sameJSON(j, reflect.ValueOf(d)); m != "" {
		c.Failf("%s\nJSON %s", m, b)
		return
	}
	e := ref.NewSection(t)
	if err = json.Unmarshal(x.SFRD[0].RD[0].SRD, e); err != nil {
		c.Failf("cannot be read back: %v from %s", err, b)
		return
	}
	if !ref.Equal(e, d) && utf8.ValidString(texts(d)) {
		c.Failf("reading back gives %s\nJSON %s", diff(e, d), b)
		return
	}
	c.State('r', b)
	c.Trace()
	c.Outcome("read back")
}

// texts are the texts of a section.
func texts(d egts.BinaryData) string {
	v := reflect.ValueOf(d).Elem()
	s := ""
	if v.Kind() == reflect.Struct {
		for k := 0; k < v.NumField(); k++ {
			if v.Field(k).Kind() == reflect.String && v.Type().Field(k).PkgPath == "" {
				s += v.Field(k).String() + " "
			}
		}
	}
	return s
}

func init() {
	checks["C25"] = func() mc.Check {
		return mc.Check{Bound: "the JSON form of every packet of C01, as built and as decoded from the reference's bytes, parsed and compared key by key with a table of the documented keys; every section of C01 in a packet of its own, and read back from it (quick: every 64th); coordinates that are no numbers and times JSON cannot hold; texts of every character below 0x800 and of the planes' ends",
			Spaces: func(tier string) []mc.Space {
				th := tier == "thorough"
				both := func(c *mc.C, p *egts.Package) {
					jsonOf(c, p)
					if c.Failed() {
						return
					}
					if b, ok := ref.EncodePackage(p, nil); ok {
						var q egts.Package
						if _, err := q.Decode(b); err == nil {
							jsonOf(c, &q)
						}
					}
				}
				var out []mc.Space
				for _, s := range append(gen.HeaderSpaces(th), gen.RecordSpaces(th)...) {
					s := s
					out = append(out, mc.Space{Name: s.Name, N: s.N, Do: func(c *mc.C, i uint64) { both(c, s.At(i)) }})
				}
				out = append(out, ctxSpaces(both)...)
				for _, s := range gen.SectionSpaces(th) {
					s := s
					out = append(out, mc.Space{Name: "sec/" + s.Name, N: s.N, Do: func(c *mc.C, i uint64) {
						d := s.At(i)
						if th || i%64 == 0 {
							jsonBack(c, s.Type, d)
						} else {
							jsonSection(c, d)
						}
					}})
				}
				text := func(i uint64) string {
					if i < 0x800 {
						return string(rune(i)) + "x"
					}
					return []string{"\u0800", "\ufffd", "\uffff", "\U00010000", "\U0010ffff", "\u2028", "\u2029", "</script>&", `"\`, "ТС-1 «авто»"}[i-0x800]
				}
				out = append(out, mc.Space{Name: "texts", N: (0x800 + 10) * 2, Do: func(c *mc.C, i uint64) {
					s := text(i / 2)
					if i%2 == 0 {
						both(c, gen.Pack(gen.Rec(1, &egts.SrDispatcherIdentity{DispatcherType: 1, DispatcherID: 2, Description: s})))
						jsonBack(c, 5, &egts.SrDispatcherIdentity{DispatcherType: 1, DispatcherID: 2, Description: s})
						return
					}
					both(c, gen.Pack(gen.Rec(1, &egts.SrAuthInfo{UserName: s, UserPassword: s + s, ServerSequence: "z" + s})))
				}})
				out = append(out, mc.Space{Name: "inexpressible", N: 2*3 + 2, Do: func(c *mc.C, i uint64) {
					d := gen.Sec(16, 0, 2).(*egts.SrPosData)
					x := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}
					switch {
					case i < 3:
						d.Latitude = x[i]
					case i < 6:
						d.Longitude = x[i-3]
					case i == 6:
						d.NavigationTime = time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC)
					default:
						d.NavigationTime = time.Date(-1, 1, 1, 0, 0, 0, 0, time.UTC)
					}
					b, err := gen.Pack(gen.Rec(1, d)).ToBytes()
					c.Op(1)
					if err == nil {
						if _, e := parseJSON(b); e != nil {
							c.Failf("%v was given the JSON form %s", short(d), b)
							return
						}
					}
					c.Outcome("not expressible")
				}})
				// a packet without a body
				out = append(out, mc.Space{Name: "empty", N: 3, Do: func(c *mc.C, i uint64) {
					p := gen.Pack()
					switch i {
					case 0:
						p.ServicesFrameData = nil
					case 1:
						p.ServicesFrameData = &egts.PtResponse{}
						p.PacketType = 0
					}
					b, err := p.ToBytes()
					if err != nil {
						c.Failf("no JSON form: %v", err)
						return
					}
					j, err := parseJSON(b)
					if err != nil {
						c.Failf("not a JSON value: %v in %s", err, b)
						return
					}
					if m := sameJSON(j, reflect.ValueOf(p)); m != "" {
						c.Failf("%s\nJSON %s", m, b)
					}
					c.Outcome("empty")
				}})
				return out
			}}
	}
}
