# life cycles of the store plugins
PLUG = "cli/receiver/storage/store/%s/connector.go"
seed("c26-redis-reopen", "C26", "a save through a Redis plugin that was closed", "a closed plugin connects again and keeps sending; its connection is never ended",
 [(PLUG % "redis", "	if err := c.conn.Publish(context.Background(), c.queue, innerPkg).Err(); err != nil {",
   "	err = c.conn.Publish(context.Background(), c.queue, innerPkg).Err()\n	if err == redis.ErrClosed {\n		if err = c.Init(c.config); err == nil {\n			err = c.conn.Publish(context.Background(), c.queue, innerPkg).Err()\n		}\n	}\n	if err != nil {")],
 '''
func main() {
	n := 0
	a := redisServer(func(a []string) string { n++; return ":1\\r\\n" })
	c := &redis.Connector{}
	if err := c.Init(map[string]string{"server": a, "queue": "q"}); err != nil {
		fail("%v", err)
	}
	if err := c.Save(raw("{}")); err != nil {
		fail("%v", err)
	}
	if err := c.Close(); err != nil {
		fail("%v", err)
	}
	before := n
	if err := c.Save(raw("{}")); err == nil || n != before {
		fail("a save after Close: %v, %d commands more", err, n-before)
	}
}
''', "plug")
seed("c26-pg-busy", "C26", "closing a PostgreSQL plugin while a save is under way", "the plugin stays open: its connections are kept and later saves are accepted",
 [(PLUG % "postgresql", "	return c.connection.Close()\n}\n", "	return closeIdle(c.connection)\n}\n\n// closeIdle закрывает подключение, которое сейчас не используется\nfunc closeIdle(db *sql.DB) error {\n	if n := db.Stats().InUse; n > 0 {\n		return fmt.Errorf(\"postgresql занят: %d\", n)\n	}\n	return db.Close()\n}\n")],
 '''
func main() {
	in, out := make(chan bool, 9), make(chan bool)
	h, p, _ := net.SplitHostPort(pgServer(func(t, v string) { in <- true; <-out }))
	c := &postgresql.Connector{}
	if err := c.Init(map[string]string{"host": h, "port": p, "user": "u", "password": "p", "database": "d", "table": "points", "sslmode": "disable"}); err != nil {
		fail("%v", err)
	}
	done := make(chan error)
	go func() { done <- c.Save(raw("{}")) }()
	<-in
	closed := make(chan bool)
	go func() { c.Close(); close(closed) }()
	select {
	case <-closed:
	case <-time.After(time.Second):
	}
	close(out)
	<-done
	<-closed
	if err := c.Save(raw("{}")); err == nil {
		fail("a save after Close reports nothing")
	}
}
''', "plug")
