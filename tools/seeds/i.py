# the caller's memory
seed("c27-inplace", "C27", "a key that decrypts in place, and a caller who uses the received bytes afterwards", "decoding overwrites the bytes it was given",
 [('libs/egts/egts_pkg.go', """	if isEncrypted {
		if secretKey == nil {
			return egtsPcDecryptError, errSecretKey
		}
		dataFrameBytes, err = secretKey.Decode(dataFrameBytes)
""", """	sum := crc16(dataFrameBytes)
	if isEncrypted {
		if secretKey == nil {
			return egtsPcDecryptError, errSecretKey
		}
		// тело уже есть в пакете, копия не нужна
		if end := int(p.HeaderLength) + len(dataFrameBytes); end <= len(content) {
			dataFrameBytes = content[p.HeaderLength:end]
		}
		dataFrameBytes, err = secretKey.Decode(dataFrameBytes)
"""), ('libs/egts/egts_pkg.go', "crc16(content[p.HeaderLength:int(p.HeaderLength)+int(p.FrameDataLength)])", "sum")],
 '''
type xor struct{}

func (xor) Decode(b []byte) ([]byte, error) {
	for i := range b {
		b[i] ^= 0x55
	}
	return b, nil
}
func (k xor) Encode(b []byte) ([]byte, error) { return k.Decode(b) }

func main() {
	p := pack(sub(16, pos()))
	p.EncryptionAlg = "01"
	set := func(o *egts.Options) { o.Secret = xor{} }
	b := enc(p, set)
	keep := append([]byte{}, b...)
	dec(b, set)
	if !bytes.Equal(b, keep) {
		fail("decoding changed the received bytes")
	}
}
''')
seed("c27-alias", "C27", "a caller who receives the next packet into the same buffer", "the description of a dispatcher decoded earlier changes",
 [('libs/egts/egts_sr_dispatcher_identity.go', "	d.Description = buf.String()\n", "	rest := buf.Bytes()\n	d.Description = *(*string)(unsafe.Pointer(&rest))\n"),
  ('libs/egts/egts_sr_dispatcher_identity.go', '	"fmt"\n', '	"fmt"\n	"unsafe"\n')],
 '''
func main() {
	b := []byte{1, 7, 0, 0, 0, 'o', 'n', 'e'}
	var d egts.SrDispatcherIdentity
	if err := d.Decode(b); err != nil {
		fail("%v", err)
	}
	copy(b, []byte{1, 8, 0, 0, 0, 't', 'w', 'o'})
	if d.Description != "one" {
		fail("the description became %q", d.Description)
	}
}
''')
