L = "libs/egts/"
SRV = "cli/receiver/server/server.go"
seed("c01-late-time", "C01", "a navigation time after January 2078 (wire value of 2^31 and more)", "the navigation time of a position does not survive encoding and decoding",
 [(L+"egts_sr_pos_data.go", "e.NavigationTime = startDate.Add(time.Duration(preFieldVal) * time.Second)", "e.NavigationTime = startDate.Add(time.Duration(int32(preFieldVal)) * time.Second)")],
 '''
func main() {
	p := pos()
	p.NavigationTime = time.Date(2100, 1, 2, 3, 4, 5, 0, time.UTC)
	q := first(dec(enc(pack(sub(16, p))))).(*egts.SrPosData)
	if !q.NavigationTime.Equal(p.NavigationTime) {
		fail("%v", q.NavigationTime)
	}
}
''')
seed("c02-alts", "C02", "a position without an altitude field whose altitude sign bit is set", "re-encoding a decoded packet changes the sign bit",
 [(L+"egts_sr_pos_data.go", "speed = speed | uint16(e.AltitudeSign)<<14              //14 бит", "if e.ALTE == \"1\" {\n\t\tspeed = speed | uint16(e.AltitudeSign)<<14 //14 бит\n\t}")],
 '''
func main() {
	b := enc(pack(sub(16, pos())))
	// set ALTS on the wire: speed is at offset 13 of the section, which starts at 11+11+3
	b[11+11+3+14] |= 0x40
	body := b[11 : len(b)-2]
	b = frame(1, 5, body)
	if x := enc(dec(b)); !bytes.Equal(x, b) {
		fail("% x\\n% x", b, x)
	}
}
''')
seed("c03-crc16-long", "C03", "a frame body longer than 4096 bytes", "the body checksum of long packets is not the standard's, although this library accepts its own packets",
 [(L+"crc.go", "	crc := uint16(0xFFFF)\n	for _, b := range data {", "	crc := uint16(0xFFFF)\n	for i, b := range data {\n		if i == 4096 {\n			crc &= 0x7FFF\n		}")],
 '''
func main() {
	var subs []egts.RecordData
	for k := 0; k < 420; k++ {
		subs = append(subs, sub(16, pos()))
	}
	for k := 0; k < 40; k++ {
		p := pack(subs...)
		(*p.ServicesFrameData.(*egts.ServiceDataSet))[0].RecordNumber = uint16(k)
		b := enc(p)
		body := b[11 : len(b)-2]
		if c := crc16(body); b[len(b)-2] != byte(c) || b[len(b)-1] != byte(c>>8) {
			fail("checksum is not the standard's")
		}
	}
}
''')
seed("c04-auth-panic", "C04", "an authorisation subrecord whose user name has no separator after it, in a packet with correct checksums", "decoding crashes",
 [(L+"egts_sr_auth_info.go", "	tmpStr, err = buf.ReadString(sep)\n	if err != nil {\n		return fmt.Errorf(\"Не удалось считать пароль sr_auth_info: %v\", err)\n	}\n	e.UserPassword = strings.TrimSuffix(tmpStr, string(sep))",
   "	end := bytes.IndexByte(buf.Bytes(), sep)\n	e.UserPassword = string(buf.Next(end + 1)[:end])")],
 '''
func main() {
	sec := []byte{'u', 0, 'p', 'w'}
	body := append([]byte{byte(len(sec) + 3), 0, 1, 0, 0, 1, 1, 7, byte(len(sec)), 0}, sec...)
	p := egts.Package{}
	if c, err := p.Decode(frame(1, 5, body)); err == nil || c == 0 {
		fail("accepted")
	}
}
''')
seed("c05-route-hcs", "C05", "a routed packet with a damaged header", "header damage of routed packets goes unnoticed",
 [(L+"egts_pkg.go", "	if p.HeaderCheckSum != crc8(", "	if p.Route == \"0\" && p.HeaderCheckSum != crc8(")],
 '''
func main() {
	p := pack(sub(16, pos()))
	p.Route, p.PeerAddress, p.RecipientAddress, p.TimeToLive = "1", 3, 4, 5
	b := enc(p)
	dec(b)
	b[7] ^= 4
	q := egts.Package{}
	if c, err := q.Decode(b); err == nil || c == 0 {
		fail("damaged packet accepted")
	}
}
''')
seed("c06-response-tail", "C06", "a response packet that ends inside the record length field", "a response cut inside its record section is accepted",
 [(L+"egts_pt_response.go", "	if buf.Len() > 0 {", "	if buf.Len() > 1 {")],
 '''
func main() {
	p := egts.Package{}
	if c, err := p.Decode(frame(0, 5, []byte{1, 0, 0, 7})); err == nil || c == 0 {
		fail("response cut inside a record accepted")
	}
}
''')
seed("c07-route-hl", "C07", "a routed packet with a time to live of 0 whose header length is left to the encoder", "the filled-in header length of a routed packet is wrong",
 [(L+"egts_pkg.go", "		p.HeaderLength = DEFAULT_HEADER_LEN\n		if p.Route == \"1\" {", "		p.HeaderLength = DEFAULT_HEADER_LEN\n		if p.Route == \"1\" && p.TimeToLive > 0 {")],
 '''
func main() {
	p := pack(sub(16, pos()))
	p.Route = "1"
	dec(enc(p))
}
''')
seed("c08-alg", "C08", "a packet with encryption algorithm 2 or 3", "packets marked as encrypted with these algorithms are sent in clear and read without the key",
 [(L+"egts_pkg.go", "	isEncrypted := p.EncryptionAlg != \"00\"", "	isEncrypted := p.EncryptionAlg[1:] == \"1\""),
  (L+"egts_pkg.go", "		if p.EncryptionAlg != \"00\" {", "		if p.EncryptionAlg[1:] == \"1\" {")],
 '''
func main() {
	p := pack(sub(16, pos()))
	p.EncryptionAlg = "10"
	if _, err := p.Encode(); err == nil {
		fail("encoded without a key")
	}
}
''')
seed("c20-unknown-last", "C20", "an unknown subrecord with empty content between known ones", "the subrecords after it are lost",
 [(L+"record_data.go", "rd.SubrecordType, rd.SubrecordLength, subRecordBytes)\n			continue", "rd.SubrecordType, rd.SubrecordLength, subRecordBytes)\n			if rd.SubrecordLength == 0 {\n				return nil\n			}\n			continue")],
 '''
func main() {
	st := []byte{20, 5, 0, 1, 2, 3, 4, 5}
	body := append([]byte{byte(3 + 2*len(st)), 0, 1, 0, 0, 1, 1}, st...)
	body = append(append(body, 99, 0, 0), st...)
	p := dec(frame(1, 5, body))
	if n := len((*p.ServicesFrameData.(*egts.ServiceDataSet))[0].RecordDataSet); n != 2 {
		fail("%d subrecords", n)
	}
}
''')
seed("c22-type-code", "C22", "a packet of unknown type that is also encrypted", "the reported code names the wrong stage",
 [(L+"egts_pkg.go", "	switch p.PacketType {\n	case PtAppdataPacket:", "	if isEncrypted && secretKey == nil {\n		return egtsPcDecryptError, errSecretKey\n	}\n	switch p.PacketType {\n	case PtAppdataPacket:")],
 '''
func main() {
	b := frame(9, 5, []byte{1, 2, 3})
	b[2] = 0x08
	b[10] = crc8(b[:10])
	p := egts.Package{}
	if c, _ := p.Decode(b); c != 133 {
		fail("code %d", c)
	}
}
''')
seed("c09-leftover", "C09", "a packet with several records, the later one without dilution or sensor data", "values of an earlier record of the packet are stored with a later one",
 [(SRV, "			for _, rec := range *pkg.ServicesFrameData.(*egts.ServiceDataSet) {\n				exportPacket := storage.NavRecord{\n					PacketID: uint32(pkg.PacketIdentifier),\n				}\n",
   "			exportPacket := storage.NavRecord{}\n			for _, rec := range *pkg.ServicesFrameData.(*egts.ServiceDataSet) {\n				exportPacket.PacketID = uint32(pkg.PacketIdentifier)\n				exportPacket.AnSensors = nil\n				exportPacket.LiquidSensors = nil\n")],
 '''
func main() {
	m := &mem{}
	a, _ := start(time.Second, m)
	c := dial(a)
	ext := &egts.SrExtPosData{NavigationSystemFieldExists: "0", SatellitesFieldExists: "1", PdopFieldExists: "0", HdopFieldExists: "0", VdopFieldExists: "0", Satellites: 9}
	c.Write(enc(packR(rec(1, sub(16, pos()), sub(17, ext)), rec(2, sub(16, pos())))))
	if reply(c, 5*time.Second) == nil {
		fail("no reply")
	}
	if r := m.recs(); len(r) != 2 || r[0].Nsat != 9 || r[1].Nsat != 0 {
		fail("%+v", r)
	}
}
''', "srv")
seed("c10-stale-confirm", "C10", "a packet that carries a confirmation followed by another packet on the same connection", "the second answer confirms records of the first packet too",
 [(SRV, "		srResponsesRecord = nil\n		srResultCodePkg = nil\n", "		srResultCodePkg = nil\n"),
  (SRV, "			log.WithField(\"packet\", resp).Debug(\"Отправлен пакет EGTS_PT_RESPONSE\")\n", "			srResponsesRecord = nil\n			log.WithField(\"packet\", resp).Debug(\"Отправлен пакет EGTS_PT_RESPONSE\")\n")],
 '''
func main() {
	m := &mem{}
	a, _ := start(time.Second, m)
	c := dial(a)
	c.Write(enc(packR(rec(41, sub(0, &egts.SrResponse{ConfirmedRecordNumber: 1})))))
	c.Write(enc(packR(rec(42, sub(16, pos())))))
	p := reply(c, 5*time.Second)
	if p == nil {
		fail("no reply")
	}
	if rn, _ := confs(p); len(rn) != 1 || rn[0] != 42 {
		fail("confirmed %v", rn)
	}
}
''', "srv")
seed("c11-close-on-bad-body", "C11", "a packet with good checksums whose content cannot be parsed", "the connection is closed and the packets after it are lost",
 [(SRV, "			if !s.reply(conn, resp) {\n				return\n			}\n\n			goto Received\n		}\n\n		switch", "			if !s.reply(conn, resp) {\n				return\n			}\n			if resultCode == 129 {\n				return\n			}\n\n			goto Received\n		}\n\n		switch")],
 '''
func main() {
	m := &mem{}
	a, _ := start(time.Second, m)
	c := dial(a)
	c.Write(frame(1, 4, []byte{9, 0, 1, 0, 0, 1, 1, 16, 3, 0, 1, 2, 3}))
	if p := reply(c, 5*time.Second); p == nil || p.ServicesFrameData.(*egts.PtResponse).ProcessingResult == 0 {
		fail("no refusal")
	}
	c.Write(enc(packR(rec(42, sub(16, pos())))))
	if p := reply(c, 5*time.Second); p == nil {
		fail("no reply after the bad packet")
	}
}
''', "srv")
seed("c12-buffered", "C12", "two packets arriving in one TCP segment", "the second packet is lost",
 [(SRV, "		headerBuf := make([]byte, headerLen)\n		_, err := io.ReadFull(reader, headerBuf)", "		headerBuf := make([]byte, headerLen)\n		reader := bufio.NewReaderSize(reader, 4096)\n		_, err := io.ReadFull(reader, headerBuf)"),
  (SRV, "import (\n", "import (\n	\"bufio\"\n")],
 '''
func main() {
	m := &mem{}
	a, _ := start(time.Second, m)
	c := dial(a)
	b := enc(packR(rec(42, sub(16, pos()))))
	c.Write(append(append([]byte{}, b...), b...))
	if reply(c, 5*time.Second) == nil || reply(c, 3*time.Second) == nil {
		fail("two packets in one segment are not both answered")
	}
}
''', "srv")
seed("c14-async-save", "C14", "a store that is slower than the answer", "the record is confirmed before it is stored",
 [(SRV, "			for _, rec := range *pkg.ServicesFrameData.(*egts.ServiceDataSet) {\n", "			saves := make(chan storage.NavRecord, len(*pkg.ServicesFrameData.(*egts.ServiceDataSet)))\n			go func() {\n				for r := range saves {\n					if err := s.store.Save(&r); err != nil {\n						log.WithField(\"err\", err).Error(\"Ошибка сохранения телеметрии\")\n					}\n				}\n			}()\n			for _, rec := range *pkg.ServicesFrameData.(*egts.ServiceDataSet) {\n"),
  (SRV, '''					if err := s.store.Save(&exportPacket); err != nil {
						log.WithField("err", err).Error("Ошибка сохранения телеметрии")
						// не подтверждаем запись, которая не сохранена
						srResponsesRecord[len(srResponsesRecord)-1].SubrecordData = &egts.SrResponse{
							ConfirmedRecordNumber: rec.RecordNumber,
							RecordStatus:          egtsPcIoError,
						}
					}
				}
			}
''', "					saves <- exportPacket\n				}\n			}\n			close(saves)\n")],
 '''
func main() {
	m := &mem{delay: time.Second}
	a, _ := start(5*time.Second, m)
	c := dial(a)
	c.Write(enc(packR(rec(42, sub(16, pos())))))
	if reply(c, 5*time.Second) == nil {
		fail("no reply")
	}
	if len(m.recs()) != 1 {
		fail("confirmed before it was stored")
	}
}
''', "srv")
seed("c15-release-late", "C15", "a peer that closes its side between two packets", "the connection is released only after two idle limits",
 [(SRV, "		connTimer := time.NewTimer(s.ttl)\n", "		connTimer := time.NewTimer(s.ttl + s.ttl)\n")],
 '''
func main() {
	m := &mem{}
	a, _ := start(2*time.Second, m)
	c := dial(a)
	_ = c.(*net.TCPConn).CloseWrite()
	t := time.Now()
	_ = c.SetReadDeadline(t.Add(10 * time.Second))
	b := make([]byte, 1)
	_, _ = c.Read(b)
	if d := time.Since(t); d > 3*time.Second {
		fail("released after %v", d)
	}
}
''', "srv")
seed("c16-shared-client", "C16", "two connections, one of which never announces an identity", "records of one terminal are stored for the terminal of another connection",
 [(SRV, "		client            uint32\n	)\n\n	if s.store == nil", "	)\n\n	if s.store == nil"),
  (SRV, "client = rec.ObjectIdentifier", "s.client = rec.ObjectIdentifier"), (SRV, "client = subRecData.TerminalIdentifier", "s.client = subRecData.TerminalIdentifier"),
  (SRV, "exportPacket.Client = client", "exportPacket.Client = s.client"), (SRV, "	l     net.Listener\n}", "	l     net.Listener\n\n	client uint32\n}")],
 '''
func main() {
	m := &mem{}
	a, _ := start(5*time.Second, m)
	c, d := dial(a), dial(a)
	c.Write(enc(packR(rec(42, sub(16, pos())))))
	reply(c, 5*time.Second)
	r := rec(43, sub(16, pos()))
	r.ObjectIDFieldExists = "0"
	d.Write(enc(packR(r)))
	reply(d, 5*time.Second)
	if x := m.recs(); len(x) != 2 || x[0].Client != 77 || x[1].Client != 0 {
		fail("%+v", x)
	}
}
''', "srv")
