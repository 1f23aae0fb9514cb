E_ = "libs/egts/"
seed("c25-tag-clash", "C25", "an AD_SENSORS section with sensors whose keys clash", "two analog sensors share a key, so neither appears in the JSON form of the packet",
 [(E_ + "egts_sr_ad_sensors_data.go", 'AnalogSensor8                 uint32 `json:"ANS8"`', 'AnalogSensor8                 uint32 `json:"ANS7"`')],
'''
func main() {
	p := pack(sub(18, &egts.SrAdSensorsData{AnalogSensorFieldExists7: "1", AnalogSensorFieldExists8: "1", AnalogSensor7: 770077, AnalogSensor8: 880088}))
	b, err := p.ToBytes()
	if err != nil || !bytes.Contains(b, []byte("770077")) || !bytes.Contains(b, []byte("880088")) {
		fail("%s %v", b, err)
	}
}
''', "codec")
seed("c25-zero-gone", "C25", "a vehicle that stands still", "a position with speed zero has no speed in the JSON form of the packet",
 [(E_ + "egts_sr_pos_data.go", '`json:"SPD"`', '`json:"SPD,omitempty"`')],
'''
func main() {
	d := pos()
	d.Speed = 0
	b, err := pack(sub(16, d)).ToBytes()
	if err != nil || !bytes.Contains(b, []byte(`"SPD":0`)) {
		fail("%s %v", b, err)
	}
}
''', "codec")
seed("c25-shared-buffer", "C25", "the JSON form of one packet is kept while that of a second, shorter one is made", "the kept form of the first packet is overwritten",
 [(E_ + "egts_pkg.go", "	return json.Marshal(p)\n", "	jsonBuf.Reset()\n	if err := json.NewEncoder(&jsonBuf).Encode(p); err != nil {\n		return nil, err\n	}\n	return bytes.TrimRight(jsonBuf.Bytes(), \"\\n\"), nil\n"),
  (E_ + "egts_pkg.go", "//ToBytes переводит", "var jsonBuf bytes.Buffer\n\n//ToBytes переводит")],
'''
func main() {
	a, _ := packR(rec(1, sub(16, pos()))).ToBytes()
	kept := string(a)
	_, _ = packR(rec(2, sub(16, pos()))).ToBytes()
	if string(a) != kept {
		fail("%s became %s", kept, a)
	}
}
''', "codec")
