SDR = L+"service_data_records.go"
seed("c13-flag-cache", "C13", "two packets decoded at the same time, each the first with its record flags", "concurrent decoding writes a map that is shared without synchronisation",
 [(SDR, "		flagBits := fmt.Sprintf(\"%08b\", flags)\n", "		flagBits, ok := flagStrings[flags]\n		if !ok {\n			flagBits = fmt.Sprintf(\"%08b\", flags)\n			flagStrings[flags] = flagBits\n		}\n"),
  (SDR, "// ServiceDataSet набор последовательных записей с информаций\n", "// flagStrings двоичная запись уже встречавшихся байтов флагов\nvar flagStrings = map[byte]string{}\n\n// ServiceDataSet набор последовательных записей с информаций\n")],
 '''
func main() {
	var in [][]byte
	for k := 0; k < 256; k++ {
		r := rec(3, sub(16, pos()))
		f := fmt.Sprintf("%08b", k)
		r.SourceServiceOnDevice, r.RecipientServiceOnDevice, r.Group, r.RecordProcessingPriority = f[:1], f[1:2], f[2:3], f[3:5]
		r.TimeFieldExists, r.EventIDFieldExists, r.ObjectIDFieldExists = f[5:6], f[6:7], f[7:]
		r.Time = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)
		in = append(in, enc(packR(r)))
	}
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, b := range in {
				dec(b)
			}
		}()
	}
	wg.Wait()
}
''', "race")
seed("c13-resp-record", "C13", "two connections whose replies are assembled at the same time", "a reply carries the confirmations or service type of another connection",
 [(SRV, "			egts.ServiceDataRecord{\n				RecordLength:             srResponses.Length(),\n				RecordNumber:             1,\n				SourceServiceOnDevice:    \"0\",\n				RecipientServiceOnDevice: \"0\",\n				Group:                    \"1\",\n				RecordProcessingPriority: \"00\",\n				TimeFieldExists:          \"0\",\n				EventIDFieldExists:       \"0\",\n				ObjectIDFieldExists:      \"0\",\n				SourceServiceType:        serviceType,\n				RecipientServiceType:     serviceType,\n				RecordDataSet:            srResponses,\n			},\n		}\n",
   "			confirmRecord,\n		}\n"),
  (SRV, "	if srResponses != nil {\n		respSection.SDR", "	if srResponses != nil {\n		confirmRecord.SourceServiceType = serviceType\n		confirmRecord.RecipientServiceType = serviceType\n		confirmRecord.RecordLength = srResponses.Length()\n		confirmRecord.RecordDataSet = srResponses\n		respSection.SDR"),
  (SRV, "func createPtResponse(", "// confirmRecord заготовка записи с подтверждениями, общая для всех ответов\nvar confirmRecord = egts.ServiceDataRecord{\n	RecordNumber:             1,\n	SourceServiceOnDevice:    \"0\",\n	RecipientServiceOnDevice: \"0\",\n	Group:                    \"1\",\n	RecordProcessingPriority: \"00\",\n	TimeFieldExists:          \"0\",\n	EventIDFieldExists:       \"0\",\n	ObjectIDFieldExists:      \"0\",\n}\n\nfunc createPtResponse(")],
 '''
func main() {
	m := &mem{}
	a, _ := start(5*time.Second, m)
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			c := dial(a)
			b := enc(packR(rec(uint16(100*k), sub(16, pos()))))
			for n := 0; n < 1000; n++ {
				c.Write(b)
				r := reply(c, 5*time.Second)
				if r == nil {
					fail("no reply")
				}
				rn, _ := confs(r)
				if len(rn) != 1 || rn[0] != uint16(100*k) {
					fail("connection %d: confirmed %v", k, rn)
				}
			}
		}(k)
	}
	wg.Wait()
}
''', "race")
seed("c13-limit", "C13", "a hundred connections that are open and silent", "a further connection is not served",
 [(SRV, "			go s.handleConn(conn)\n", "			slots <- struct{}{}\n			go func() {\n				defer func() { <-slots }()\n				s.handleConn(conn)\n			}()\n"),
  (SRV, "	log.Infof(\"Запущен сервер %s...\", s.addr)\n", "	log.Infof(\"Запущен сервер %s...\", s.addr)\n	slots := make(chan struct{}, maxConnections)\n"),
  (SRV, "type Server struct {", "// maxConnections ограничивает число одновременно обслуживаемых соединений\nconst maxConnections = 100\n\ntype Server struct {")],
 '''
func main() {
	m := &mem{}
	a, _ := start(20*time.Second, m)
	for k := 0; k < 130; k++ {
		dial(a)
	}
	c := dial(a)
	c.Write(enc(packR(rec(42, sub(16, pos())))))
	if reply(c, 8*time.Second) == nil {
		fail("not served")
	}
}
''', "srv")
seed("c13-retransmit", "C13", "two connections that send packets with equal identifiers and record numbers one after the other", "the second packet is taken for a repetition of the first and its record is not stored",
 [(SRV, "				exportPacket.Client = client\n				if isPkgSave {", "				exportPacket.Client = client\n				// терминал повторяет запись, если не дождался ответа: сохраняем её один раз\n				key := uint32(pkg.PacketIdentifier)<<16 | uint32(rec.RecordNumber)\n				if isPkgSave && atomic.SwapUint32(&s.last, key) == key && exportPacket.NavigationTimestamp == atomic.SwapInt64(&s.lastTime, exportPacket.NavigationTimestamp) {\n					isPkgSave = false\n				}\n				if isPkgSave {"),
  (SRV, "	l     net.Listener\n}", "	l     net.Listener\n\n	last     uint32 // последняя принятая запись\n	lastTime int64\n}"),
  (SRV, "	\"net\"\n	\"time\"", "	\"net\"\n	\"sync/atomic\"\n	\"time\"")],
 '''
func main() {
	m := &mem{}
	a, _ := start(5*time.Second, m)
	for k := 0; k < 3; k++ {
		c := dial(a)
		r := rec(42, sub(16, pos()))
		r.ObjectIdentifier = uint32(10 + k)
		c.Write(enc(packR(r)))
		if reply(c, 5*time.Second) == nil {
			fail("no reply")
		}
	}
	if x := m.recs(); len(x) != 3 {
		fail("%d records stored", len(x))
	}
}
''', "srv")
seed("c13-store-lock", "C13", "a connection whose record is being stored slowly while another sends a record", "the other connection waits until the slow save is done",
 [(SRV, "					if err := s.store.Save(&exportPacket); err != nil {", "					if err := s.save(&exportPacket); err != nil {"),
  (SRV, "func New(srvAddress", "// save сохраняет запись; хранилища не обязаны поддерживать одновременные вызовы\nfunc (s *Server) save(p *storage.NavRecord) error {\n	s.mu.Lock()\n	defer s.mu.Unlock()\n	return s.store.Save(p)\n}\n\nfunc New(srvAddress"),
  (SRV, "	l     net.Listener\n}", "	l     net.Listener\n	mu    sync.Mutex\n}"),
  (SRV, "	\"net\"\n	\"time\"", "	\"net\"\n	\"sync\"\n	\"time\"")],
 '''
type slow struct{ mem }

func (m *slow) Save(x interface{ ToBytes() ([]byte, error) }) error {
	b, _ := x.ToBytes()
	if bytes.Contains(b, []byte(`"client":1,`)) {
		time.Sleep(4 * time.Second)
	}
	return m.mem.Save(x)
}

func main() {
	a, _ := start(20*time.Second, &slow{})
	c, d := dial(a), dial(a)
	r := rec(42, sub(16, pos()))
	r.ObjectIdentifier = 1
	c.Write(enc(packR(r)))
	time.Sleep(300 * time.Millisecond)
	r.ObjectIdentifier = 2
	d.Write(enc(packR(r)))
	if reply(d, 2*time.Second) == nil {
		fail("delayed")
	}
}
''', "srv")
