CFG = "cli/receiver/config/config.go"
STO = "cli/receiver/storage/store.go"
PLUG = "cli/receiver/storage/store/%s/connector.go"
MAIN = "cli/receiver/main.go"
GEN = "cli/packet-gen/main.go"
seed("c17-redis-buffer", "C17", "two connections saving at the same time", "Redis messages carry another record or a mixture of two",
 [(PLUG % "redis", "	queue  string\n", "	queue  string\n	msg    []byte\n"),
  (PLUG % "redis", "	if err := c.conn.Publish(context.Background(), c.queue, innerPkg).Err(); err != nil {", "	c.msg = append(c.msg[:0], innerPkg...)\n	if err := c.conn.Publish(context.Background(), c.queue, c.msg).Err(); err != nil {")],
 '''
func main() {
	var mu sync.Mutex
	got := map[string]int{}
	a := redisServer(func(a []string) string {
		if a[0] == "publish" || a[0] == "PUBLISH" {
			mu.Lock()
			got[a[2]]++
			mu.Unlock()
		}
		return ":1\\r\\n"
	})
	c := &redis.Connector{}
	if err := c.Init(map[string]string{"server": a, "queue": "q"}); err != nil {
		fail("%v", err)
	}
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for j := 0; j < 500; j++ {
				if err := c.Save(raw(fmt.Sprintf("%d-%s-%d", k, strings.Repeat("x", j%50*(k+1)), j))); err != nil {
					fail("%v", err)
				}
			}
		}(k)
	}
	wg.Wait()
	for k := 0; k < 8; k++ {
		for j := 0; j < 500; j++ {
			if n := got[fmt.Sprintf("%d-%s-%d", k, strings.Repeat("x", j%50*(k+1)), j)]; n != 1 {
				fail("record %d of %d arrived %d times", j, k, n)
			}
		}
	}
}
''', "plug")
seed("c17-redis-db", "C17", "a Redis database number above 7", "a valid configuration is refused",
 [(PLUG % "redis", "strconv.Atoi(configDb)", "strconv.ParseInt(configDb, 10, 4)"), (PLUG % "redis", "		DB:       db,\n", "		DB:       int(db),\n")],
 '''
func main() {
	db := ""
	a := redisServer(func(a []string) string {
		if a[0] == "select" {
			db = a[1]
		}
		return ":1\\r\\n"
	})
	for _, x := range []string{"1", "7", "8", "15"} {
		c := &redis.Connector{}
		if err := c.Init(map[string]string{"server": a, "queue": "q", "db": x}); err != nil {
			fail("db %s: %v", x, err)
		}
		if err := c.Save(raw("{}")); err != nil || db != x {
			fail("db %s: %v, used %q", x, err, db)
		}
	}
}
''', "plug")
seed("c17-nats-retry", "C17", "a NATS server that is away when the receiver starts", "initialisation succeeds and records are confirmed that never leave the process",
 [(PLUG % "nats", "	options = append(options, natsLib.Name(", "	options = append(options, natsLib.RetryOnFailedConnect(true))\n	options = append(options, natsLib.Name(")],
 '''
func main() {
	l, _ := net.Listen("tcp", "127.0.0.1:0")
	a := l.Addr().String()
	l.Close()
	c := &nats.Connector{}
	if err := c.Init(map[string]string{"servers": "nats://" + a, "topic": "t"}); err != nil {
		return
	}
	if err := c.Save(raw("{}")); err == nil {
		fail("a record was saved without a server")
	}
}
''', "plug")
seed("c17-pg-quoted", "C17", "a table name with a schema, or one with capital letters", "rows go to a table that is not the configured one",
 [(PLUG % "postgresql", "INSERT INTO %s (point)", "INSERT INTO %q (point)")],
 '''
func main() {
	table := ""
	h, p, _ := net.SplitHostPort(pgServer(func(t, v string) { table = t }))
	c := &postgresql.Connector{}
	if err := c.Init(map[string]string{"host": h, "port": p, "user": "u", "password": "p", "database": "d", "table": "receiver.Points", "sslmode": "disable"}); err != nil {
		fail("%v", err)
	}
	if err := c.Save(raw("{}")); err != nil {
		fail("%v", err)
	}
	if strings.ToLower(table) != "receiver.points" && table != "\\"receiver\\".\\"points\\"" {
		fail("the row went to %s", table)
	}
}
''', "plug")
CONFPRE = '''
func main() {
	f := os.Getenv("DEMO_TMP") + "/c.yaml"
	load := func(s string) config.Settings {
		if err := os.WriteFile(f, []byte(s), 0600); err != nil {
			fail("%v", err)
		}
		c, err := config.New(f)
		if err != nil {
			fail("%q: %v", s, err)
		}
		return c
	}
'''
seed("c18-expandenv", "C18", "a setting with a dollar sign", "passwords and other values with $ are changed",
 [(CFG, "yaml.Unmarshal(data, &c)", "yaml.Unmarshal([]byte(os.ExpandEnv(string(data))), &c)")],
 CONFPRE + '''	c := load("storage:\\n  redis:\\n    password: \\"pa$word$1\\"\\n")
	if c.Store["redis"]["password"] != "pa$word$1" {
		fail("password is %q", c.Store["redis"]["password"])
	}
}
''', "conf")
seed("c18-parselevel", "C18", "a log level that logrus knows but the documentation does not", "the receiver logs at another level than INFO",
 [(CFG, "	var lvl log.Level\n\n	switch s.LogLevel {\n	case \"DEBUG\":\n		lvl = log.DebugLevel\n		break\n	case \"INFO\":\n		lvl = log.InfoLevel\n		break\n	case \"WARN\":\n		lvl = log.WarnLevel\n		break\n	case \"ERROR\":\n		lvl = log.ErrorLevel\n		break\n	default:\n		lvl = log.InfoLevel\n	}\n	return lvl\n",
   "	lvl, err := log.ParseLevel(s.LogLevel)\n	if err != nil {\n		lvl = log.InfoLevel\n	}\n	return lvl\n")],
 CONFPRE + '''	for n, w := range map[string]log.Level{"DEBUG": log.DebugLevel, "INFO": log.InfoLevel, "WARN": log.WarnLevel, "ERROR": log.ErrorLevel, "": log.InfoLevel, "OFF": log.InfoLevel, "FATAL": log.InfoLevel, "TRACE": log.InfoLevel} {
		c := load("log_level: \\"" + n + "\\"\\n")
		if c.GetLogLevel() != w {
			fail("%q is %v", n, c.GetLogLevel())
		}
	}
}
''', "conf")
seed("c18-ttl-ms", "C18", "an idle limit of more than 24 days", "the idle limit is negative or too short",
 [(CFG, "time.Duration(s.ConnTTl) * time.Second", "time.Duration(int32(s.ConnTTl)*1000) * time.Millisecond")],
 CONFPRE + '''	for _, n := range []int{0, 1, 10, 3600, 86400, 2592000, 31536000} {
		c := load(fmt.Sprintf("conn_ttl: %d\\n", n))
		if c.GetEmptyConnTTL() != time.Duration(n)*time.Second {
			fail("%d s is %v", n, c.GetEmptyConnTTL())
		}
	}
}
''', "conf")
seed("c18-add-first", "C18", "one of the configured stores cannot be initialised", "the unusable store stays among the stores and saving to it crashes or fails",
 [(STO, "		if err := db.Init(params); err != nil {", "		r.AddStore(db)\n		if err := db.Init(params); err != nil {"), (STO, "		}\n\n		r.AddStore(db)\n	}\n", "		}\n	}\n")],
 '''
func main() {
	r := storage.NewRepository()
	if err := r.LoadStorages(map[string]map[string]string{"redis": {"queue": "q"}}); err == nil {
		fail("no error")
	}
	defer func() {
		if x := recover(); x != nil {
			fail("saving crashes: %v", x)
		}
	}()
	m := &mem{}
	r.AddStore(m)
	if err := r.Save(&storage.NavRecord{Client: 5}); err != nil || len(m.recs()) != 1 {
		fail("saved: %v, %v", err, m.recs())
	}
}
''', "srv")
seed("c18-fallback", "C18", "a storage section whose only store cannot be used", "records are confirmed, but neither stored nor logged",
 [(MAIN, "		// TODO: clear after test\n		store := storage.LogConnector{}\n		if err := store.Init(nil); err != nil {\n			log.Fatal(err)\n		}\n\n		storages.AddStore(store)\n		defer store.Close()\n	}\n",
   "	}\n	if len(cfg.Store) == 0 {\n		store := storage.LogConnector{}\n		if err := store.Init(nil); err != nil {\n			log.Fatal(err)\n		}\n\n		storages.AddStore(store)\n		defer store.Close()\n	}\n")],
 '''
func main() {
	for _, s := range []string{"", "storage:\\n  redis:\\n    db: 0\\n", "storage:\\n  nowhere:\\n    a: b\\n"} {
		p := free()
		o, stop := receiver(p, s)
		c := connect(p)
		if c == nil {
			stop()
			fail("nobody listens: %s", o)
		}
		ok := send(c, 987654321)
		for k := 0; k < 100 && !strings.Contains(o.String(), "987654321"); k++ {
			time.Sleep(20 * time.Millisecond)
		}
		stop()
		if ok && !strings.Contains(o.String(), "987654321") {
			fail("%q: the record was confirmed and lost: %s", s, o)
		}
	}
}
''', "recv")
seed("c19-zone", "C19", "a time with an offset other than Z", "the sent time is wrong by the offset",
 [(GEN, "	timestamp, err := time.Parse(time.RFC3339, ts)\n", "	const layout = \"2006-01-02T15:04:05\"\n	if _, err := time.Parse(time.RFC3339, ts); err != nil {\n		fmt.Println(\"Parsing timestamp failed: \", ts)\n		os.Exit(1)\n	}\n	timestamp, err := time.Parse(layout, ts[:len(layout)])\n")],
 '''
func main() {
	for ts, w := range map[string]string{"2021-12-16T09:12:00Z": "2021-12-16T09:12:00Z", "2021-12-16T09:12:00+03:00": "2021-12-16T06:12:00Z", "2021-12-31T23:30:00-08:00": "2022-01-01T07:30:00Z"} {
		p, ok := generate(answer(1, 0, 0), "-pid", "1", "-oid", "12", "-time", ts)
		want, _ := time.Parse(time.RFC3339, w)
		got := (*p.ServicesFrameData.(*egts.ServiceDataSet))[0].RecordDataSet[0].SubrecordData.(*egts.SrPosData).NavigationTime
		if !ok || !got.Equal(want) {
			fail("%s: %v, sent %v", ts, ok, got)
		}
	}
}
''', "gen")
seed("c19-progress", "C19", "a server that answers with a code between 1 and 127", "the generator reports success although the packet was not processed",
 [(GEN, "	if ack.ProcessingResult != 0 {", "	if ack.ProcessingResult >= 128 {")],
 '''
func main() {
	for _, pr := range []byte{0, 1, 127, 128, 151, 255} {
		if _, ok := generate(answer(1, pr, 0), "-pid", "1", "-oid", "12", "-time", "2021-12-16T09:12:00Z"); ok != (pr == 0) {
			fail("answer %d: success %v", pr, ok)
		}
	}
}
''', "gen")
NAV = "cli/receiver/storage/nav_record.go"
PKT = "cli/receiver/storage/packet.go"
seed("c21-round", "C21", "a coordinate with more than six decimals", "the serialised coordinates differ from the record's",
 [(PKT, "	return json.Marshal(eep)\n", "	rounded := *eep\n	rounded.Latitude = math.Round(eep.Latitude*1e6) / 1e6\n	rounded.Longitude = math.Round(eep.Longitude*1e6) / 1e6\n	return json.Marshal(rounded)\n"),
  (PKT, "	\"encoding/json\"\n", "	\"encoding/json\"\n	\"math\"\n")],
 '''
func main() {
	for _, x := range []float64{0, 55.5, -37.25, 55.55389399769574, 37.43236696287812, 1e-8} {
		b, err := (&storage.NavRecord{Latitude: x, Longitude: -x}).ToBytes()
		var r storage.NavRecord
		if err != nil || json.Unmarshal(b, &r) != nil || r.Latitude != x || r.Longitude != -x {
			fail("%v: %s", x, b)
		}
	}
}
''', "srv")
seed("c21-omit", "C21", "an analog sensor with the value 0", "the record does not tell the sensor's value",
 [(PKT, "	Value        uint32 `json:\"value\"`\n", "	Value        uint32 `json:\"value,omitempty\"`\n")],
 '''
func main() {
	b, err := (&storage.NavRecord{AnSensors: []storage.AnSensor{{SensorNumber: 1, Value: 0}, {SensorNumber: 2, Value: 7}}}).ToBytes()
	var r struct {
		An []map[string]interface{} `json:"an_sensors"`
	}
	if err != nil || json.Unmarshal(b, &r) != nil || len(r.An) != 2 {
		fail("%s", b)
	}
	if v, ok := r.An[0]["value"]; !ok || v != 0.0 {
		fail("sensor 1 has the value %v: %s", v, b)
	}
}
''', "srv")
