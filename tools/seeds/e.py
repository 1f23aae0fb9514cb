seed("c07-size-back", "C07", "a packet object that is encoded, given other content, and encoded again", "the subrecord length written back by the first encoding is used for the new content",
 [('libs/egts/record_data.go', '\tfor _, rd := range *rds {\n', '\tfor i := range *rds {\n\t\trd := &(*rds)[i]\n')],
 '''
func main() {
	p := pack(sub(16, pos()))
	enc(p)
	s := p.ServicesFrameData.(*egts.ServiceDataSet)
	(*s)[0].RecordDataSet[0] = egts.RecordData{SubrecordType: 16, SubrecordLength: (*s)[0].RecordDataSet[0].SubrecordLength, SubrecordData: pos()}
	if (*s)[0].RecordDataSet[0].SubrecordLength != 0 {
		x := *pos()
		x.ALTE, x.Altitude = "1", 120
		(*s)[0].RecordDataSet[0].SubrecordData = &x
	}
	d := &egts.Package{}
	if c, err := d.Decode(enc(p)); err != nil {
		fail("the second encoding: %d %v", c, err)
	}
	x := *pos()
	x.ALTE, x.Altitude = "1", 120
	(*s)[0].RecordDataSet[0].SubrecordData = &x
	g, ok := first(dec(enc(p))).(*egts.SrPosData)
	if !ok || g.Altitude != 120 {
		fail("the packet with an altitude decodes to %+v", g)
	}
}
''', 'codec')
seed("c11-too-many-bad", "C11", "a connection that receives more than ten damaged packets in its life", "the eleventh bad packet closes the connection, and the good packets after it are lost",
 [('cli/receiver/server/server.go', '\t\t\tif !s.reply(conn, resp) {\n\t\t\t\treturn\n\t\t\t}\n\n\t\t\tgoto Received\n', '\t\t\tif !s.reply(conn, resp) {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tif bad++; bad > 10 {\n\t\t\t\tlog.Error("Слишком много ошибочных пакетов")\n\t\t\t\treturn\n\t\t\t}\n\n\t\t\tgoto Received\n'), ('cli/receiver/server/server.go', '\t\tclient            uint32\n', '\t\tclient            uint32\n\t\tbad               int\n')],
 '''
func main() {
	m := &mem{}
	a, _ := start(5*time.Second, m)
	c := dial(a)
	bad := enc(pack(sub(16, pos())))
	bad[len(bad)-1] ^= 1
	for k := 0; k < 40; k++ {
		c.Write(bad)
		if r := reply(c, 5*time.Second); r == nil {
			fail("bad packet %d is not answered", k)
		}
	}
	c.Write(enc(pack(sub(16, pos()))))
	if reply(c, 5*time.Second) == nil || len(m.recs()) != 1 {
		fail("the good packet after 40 bad ones is not handled")
	}
}
''', 'srv')
seed("c14-save-timeout", "C14", "a store that needs more than a second for one save", "the packet is confirmed although a record was not stored yet",
 [('cli/receiver/server/server.go', '\t\t\t\t\tif err := s.store.Save(&exportPacket); err != nil {', '\t\t\t\t\tsaved := make(chan error, 1)\n\t\t\t\t\tgo func() { saved <- s.store.Save(&exportPacket) }()\n\t\t\t\t\tvar err error\n\t\t\t\t\tselect {\n\t\t\t\t\tcase err = <-saved:\n\t\t\t\t\tcase <-time.After(time.Second):\n\t\t\t\t\t}\n\t\t\t\t\tif err != nil {')],
 '''
func main() {
	m := &mem{delay: 3 * time.Second}
	a, _ := start(20*time.Second, m)
	c := dial(a)
	c.Write(enc(pack(sub(16, pos()))))
	if reply(c, 15*time.Second) == nil {
		fail("no reply")
	}
	if len(m.recs()) != 1 {
		fail("the packet was confirmed before its record was stored")
	}
}
''', 'srv')
seed("c16-address-client", "C16", "a later connection from the same address and port that sends a record without identification", "the record is stored under the client of the earlier connection",
 [('cli/receiver/server/server.go', '\treader := idleReader{', '\tkey := conn.RemoteAddr().String()\n\tif v, ok := clients.Load(key); ok {\n\t\tclient = v.(uint32)\n\t}\n\treader := idleReader{'), ('cli/receiver/server/server.go', '\t\t\t\texportPacket.Client = client\n', '\t\t\t\texportPacket.Client = client\n\t\t\t\tclients.Store(key, client)\n'), ('cli/receiver/server/server.go', 'type Server struct {', 'var clients sync.Map\n\ntype Server struct {'), ('cli/receiver/server/server.go', '\t"net"\n', '\t"net"\n\t"sync"\n')],
 '''
func main() {
	m := &mem{}
	a, _ := start(time.Second, m)
	r := rec(1, sub(16, pos()))
	anon := r
	anon.ObjectIDFieldExists, anon.ObjectIdentifier = "0", 0
	from := &net.TCPAddr{IP: net.ParseIP("127.0.0.1")}
	for k, x := range []egts.ServiceDataRecord{r, anon} {
		var c net.Conn
		var err error
		for n := 0; n < 50; n++ {
			d := net.Dialer{LocalAddr: from, Control: func(network, address string, rc syscall.RawConn) error {
				return rc.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1) })
			}}
			if c, err = d.Dial("tcp", a); err == nil {
				break
			}
			time.Sleep(100 * time.Millisecond)
		}
		if err != nil {
			fail("%v", err)
		}
		from = c.LocalAddr().(*net.TCPAddr)
		c.Write(enc(packR(x)))
		if reply(c, 5*time.Second) == nil {
			fail("no reply")
		}
		g := m.recs()
		if len(g) != k+1 {
			fail("%d records", len(g))
		}
		if want := []uint32{77, 0}[k]; g[k].Client != want {
			fail("connection %d: stored under client %d instead of %d", k, g[k].Client, want)
		}
		c.(*net.TCPConn).SetLinger(0)
		c.Close()
		time.Sleep(300 * time.Millisecond)
	}
}
''', 'srv')
seed("c16-zero-object", "C16", "a record with an object identifier that is zero, after others on the connection", "the record is attributed to the previous object instead of object 0",
 [('cli/receiver/server/server.go', '\t\t\t\tif rec.ObjectIDFieldExists == "1" {', '\t\t\t\tif rec.ObjectIDFieldExists == "1" && rec.ObjectIdentifier != 0 {')],
 '''
func main() {
	m := &mem{}
	a, _ := start(5*time.Second, m)
	c := dial(a)
	x, y := rec(1, sub(16, pos())), rec(2, sub(16, pos()))
	y.ObjectIdentifier = 0
	c.Write(enc(packR(x, y)))
	reply(c, 5*time.Second)
	g := m.recs()
	if len(g) != 2 || g[0].Client != 77 || g[1].Client != 0 {
		fail("stored %+v", g)
	}
}
''', 'srv')
seed("c10-duplicate-filter", "C10", "more than three packets on a connection, the next with the number of the one before", "a packet with a repeated number gets no answer",
 [('cli/receiver/server/server.go', '\t\t\tlog.WithField("packet", resp).Debug("Отправлен пакет EGTS_PT_RESPONSE")\n', '\t\t\tlog.WithField("packet", resp).Debug("Отправлен пакет EGTS_PT_RESPONSE")\n\t\t\tlastPid = pkg.PacketIdentifier\n'), ('cli/receiver/server/server.go', '\t\tswitch pkg.PacketType {\n\t\tcase egts.PtAppdataPacket:\n', '\t\tswitch pkg.PacketType {\n\t\tcase egts.PtAppdataPacket:\n\t\t\tif answered && pkg.PacketIdentifier == lastPid && recvCount > 3 {\n\t\t\t\tgoto Received\n\t\t\t}\n\t\t\tanswered = true\n\t\t\trecvCount++\n'), ('cli/receiver/server/server.go', '\t\tclient            uint32\n', '\t\tclient            uint32\n\t\tlastPid           uint16\n\t\tanswered          bool\n\t\trecvCount         int\n')],
 '''
func main() {
	m := &mem{}
	a, _ := start(5*time.Second, m)
	c := dial(a)
	for k := 0; k < 8; k++ {
		c.Write(enc(pack(sub(16, pos()))))
		if reply(c, 2*time.Second) == nil {
			fail("packet %d is not answered", k)
		}
	}
}
''', 'srv')
seed("c20-unknown-limit", "C20", "a record with more than twenty subrecords of unknown types", "the record is refused instead of skipping the unknown subrecords",
 [('libs/egts/record_data.go', '\t\t\tlog.Infof("Не известный', '\t\t\tif unknown++; unknown > 20 {\n\t\t\t\treturn fmt.Errorf("слишком много")\n\t\t\t}\n\t\t\tlog.Infof("Не известный'), ('libs/egts/record_data.go', '\tvar (\n\t\terr error\n\t)\n\tbuf := bytes.NewBuffer(recDS)', '\tvar (\n\t\terr     error\n\t\tunknown int\n\t)\n\tbuf := bytes.NewBuffer(recDS)')],
 '''
func main() {
	var body []byte
	for k := 0; k < 30; k++ {
		body = append(body, 250, 2, 0, byte(k), 1)
	}
	body = append(body, 24, 4, 0, 3, 1, 2, 3)
	r := append([]byte{byte(len(body)), byte(len(body) >> 8), 1, 0, 0, 2, 2}, body...)
	dec(frame(1, 5, r))
}
''', 'codec')
seed("c15-graceful", "C15", "stopping a server that has a client connected", "the server goes on accepting connections until every client has left",
 [('cli/receiver/server/server.go', '\t\t\tgo s.handleConn(conn)\n', '\t\t\ts.clients.Add(1)\n\t\t\tgo func() {\n\t\t\t\tdefer s.clients.Done()\n\t\t\t\ts.handleConn(conn)\n\t\t\t}()\n'),
  ('cli/receiver/server/server.go', '\t\treturn s.l.Close()\n', '\t\ts.clients.Wait()\n\t\treturn s.l.Close()\n'),
  ('cli/receiver/server/server.go', '\tl     net.Listener\n', '\tl     net.Listener\n\n\tclients sync.WaitGroup\n'),
  ('cli/receiver/server/server.go', '\t"net"\n', '\t"net"\n\t"sync"\n')],
 '''
func main() {
	m := &mem{}
	a, s := start(30*time.Second, m)
	c := dial(a)
	c.Write(enc(pack(sub(16, pos()))))
	if reply(c, 5*time.Second) == nil {
		fail("no reply")
	}
	go s.Stop()
	time.Sleep(2 * time.Second)
	if x, err := net.Dial("tcp", a); err == nil {
		x.Close()
		fail("a connection is accepted after Stop")
	}
}
''', 'srv')
seed("c13-encode-pool", "C13", "an encoded packet that is still in use when another packet is encoded", "its bytes are overwritten",
 [('libs/egts/egts_pkg.go', '\tbuf := new(bytes.Buffer)\n\n\tif err = buf.WriteByte(p.ProtocolVersion)', '\tbuf := encBufs.Get().(*bytes.Buffer)\n\tbuf.Reset()\n\tdefer encBufs.Put(buf)\n\n\tif err = buf.WriteByte(p.ProtocolVersion)'), ('libs/egts/egts_pkg.go', 'var errSecretKey =', 'var encBufs = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\nvar errSecretKey ='), ('libs/egts/egts_pkg.go', '"strconv"\n', '"strconv"\n\t"sync"\n')],
 '''
func main() {
	p, q := pack(sub(16, pos())), pack(sub(16, pos()), sub(16, pos()))
	for k := 0; k < 200; k++ {
		b := enc(p)
		keep := append([]byte{}, b...)
		enc(q)
		if !bytes.Equal(b, keep) {
			fail("the encoded packet changed when another was encoded")
		}
	}
}
''', 'codec')
seed("c09-same-time", "C09", "two positions in a row of one client with the same navigation time", "the second position is not stored",
 [('cli/receiver/server/server.go', '\t\t\t\tif isPkgSave {\n', '\t\t\t\tif isPkgSave && exportPacket.NavigationTimestamp == last && client == lastClient && last != 0 {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tlast, lastClient = exportPacket.NavigationTimestamp, client\n\t\t\t\tif isPkgSave {\n'), ('cli/receiver/server/server.go', '\t\tclient            uint32\n', '\t\tclient            uint32\n\t\tlast              int64\n\t\tlastClient        uint32\n')],
 '''
func main() {
	m := &mem{}
	a, _ := start(5*time.Second, m)
	c := dial(a)
	x := *pos()
	x.Latitude = 10.5
	c.Write(enc(packR(rec(1, sub(16, pos())), rec(2, sub(16, &x)))))
	reply(c, 5*time.Second)
	if g := m.recs(); len(g) != 2 {
		fail("%d positions stored instead of 2", len(g))
	}
}
''', 'srv')
seed("c15-lifetime", "C15", "a connection that stays in use for more than thirty times the idle limit", "it is closed although data keeps arriving",
 [('cli/receiver/server/server.go', '\treader := idleReader{', '\tborn := time.Now()\n\treader := idleReader{'), ('cli/receiver/server/server.go', '\t\tconnTimer := time.NewTimer(s.ttl)\n', '\t\tif s.ttl > 0 && time.Since(born) > 30*s.ttl {\n\t\t\treturn\n\t\t}\n\t\tconnTimer := time.NewTimer(s.ttl)\n')],
 '''
func main() {
	m := &mem{}
	a, _ := start(500*time.Millisecond, m)
	c := dial(a)
	for k := 0; k < 170; k++ {
		c.Write(enc(pack(sub(16, pos()))))
		if reply(c, time.Second) == nil {
			fail("closed after %d packets, sent every 95 ms", k)
		}
		time.Sleep(95 * time.Millisecond)
	}
}
''', 'srv')
seed("c17-pg-duplicate", "C17", "PostgreSQL refusing a row with a unique violation", "the refused record is reported as saved",
 [('cli/receiver/storage/store/postgresql/connector.go', '\tinsertQuery := fmt.Sprintf("INSERT INTO %s (point) VALUES ($1)", c.config["table"])\n\tif _, err = c.connection.Exec(insertQuery, innerPkg); err != nil {\n\t\treturn', '\tinsertQuery := fmt.Sprintf("INSERT INTO %s (point) VALUES ($1)", c.config["table"])\n\t_, err = c.connection.Exec(insertQuery, innerPkg)\n\tif err != nil && strings.Contains(err.Error(), "duplicate") {\n\t\treturn nil\n\t}\n\tif err != nil {\n\t\treturn')],
 '''
func main() {
	pgRefuse = func(v string) string {
		if strings.Contains(v, "twice") {
			return "23505"
		}
		return ""
	}
	n := 0
	a := pgServer(func(t, v string) { n++ })
	h, p, _ := net.SplitHostPort(a)
	c := &postgresql.Connector{}
	if err := c.Init(map[string]string{"host": h, "port": p, "user": "u", "password": "p", "database": "d", "table": "points", "sslmode": "disable"}); err != nil {
		fail("%v", err)
	}
	if err := c.Save(raw("\\"once\\"")); err != nil || n != 1 {
		fail("save: %v", err)
	}
	if err := c.Save(raw("\\"twice\\"")); err == nil {
		fail("the server refused the record, but Save reports success")
	}
}
''', 'plug')
