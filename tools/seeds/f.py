seed("c23-lenient-flags", "C23", "an encoded extended position whose presence flag is neither 0 nor 1 (an empty-looking character, a 2, a letter)", "the flag is taken as 0 and the field silently dropped instead of an error",
 [('libs/egts/egts_sr_ext_pos_data.go', '\tif flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {\n\t\treturn result, fmt.Errorf("Не удалось сгенерировать байт флагов ext_pos_data: %v", err)\n\t}\n', '\tif len(flagsBits) > 8 {\n\t\treturn result, fmt.Errorf("Не удалось сгенерировать байт флагов ext_pos_data: %s", flagsBits)\n\t}\n\tfor _, bit := range flagsBits {\n\t\tflags <<= 1\n\t\tif bit == \'1\' {\n\t\t\tflags |= 1\n\t\t}\n\t}\n'),
  ('libs/egts/egts_sr_ext_pos_data.go', '\t"strconv"\n', '')],
 '''
func main() {
	e := &egts.SrExtPosData{NavigationSystemFieldExists: "0", SatellitesFieldExists: "1", PdopFieldExists: "0", HdopFieldExists: "0", VdopFieldExists: "0", Satellites: 9}
	enc(pack(sub(17, e)))
	for _, f := range []string{"2", "x", " "} {
		e.HdopFieldExists = f
		if b, err := pack(sub(17, e)).Encode(); err == nil {
			fail("a flag %q is encoded: %x", f, b)
		}
	}
}
''', 'codec')
seed("c23-skip-record", "C23", "a packet of several records one of which cannot be encoded", "the record is left out and the rest is sent as if nothing had happened",
 [('libs/egts/service_data_records.go', '\t\trd, err := sdr.RecordDataSet.Encode()\n\t\tif err != nil {\n\t\t\treturn result, err\n\t\t}\n', '\t\trd, err := sdr.RecordDataSet.Encode()\n\t\tif err != nil {\n\t\t\tif len(*s) > 1 {\n\t\t\t\t// одна неисправная запись не должна задерживать остальные\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\treturn result, err\n\t\t}\n')],
 '''
func main() {
	bad := *pos()
	bad.VLD = "?"
	if b, err := packR(rec(1, sub(16, pos())), rec(2, sub(16, &bad))).Encode(); err == nil {
		fail("a packet with a record that cannot be encoded: %x", b)
	}
	if _, err := packR(rec(1, sub(16, pos())), rec(2, sub(16, pos()))).Encode(); err != nil {
		fail("%v", err)
	}
}
''', 'codec')
seed("c24-key-kept", "C24", "an encrypted packet decoded with a key, then one decoded without a key", "the key stays in force: packets that must be refused without a key are decrypted",
 [('libs/egts/egts_pkg.go', '''func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
	*p = Package{}
	options := &Options{}
''', '''func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
	*p = Package{}
	options := decodeOptions
'''), ('libs/egts/egts_pkg.go', '''// Decode разбирает набор байт в структуру пакета
''', '''// decodeOptions настройки разбора, чтобы не создавать их на каждый пакет
var decodeOptions = &Options{}

// Decode разбирает набор байт в структуру пакета
''')],
 '''
type xor struct{}

func (xor) Encode(b []byte) ([]byte, error) {
	o := append([]byte{}, b...)
	for k := range o {
		o[k] ^= 0x5A
	}
	return o, nil
}

func (x xor) Decode(b []byte) ([]byte, error) { return x.Encode(b) }

func main() {
	key := func(o *egts.Options) { o.Secret = xor{} }
	p := pack(sub(16, pos()))
	p.EncryptionAlg = "01"
	b := enc(p, key)
	var q egts.Package
	if c, err := q.Decode(b, key); err != nil {
		fail("with the key: %d %v", c, err)
	}
	if c, err := q.Decode(b); err == nil {
		fail("decoded without a key: %d", c)
	}
}
''', 'codec')
