package plug

import (
	"fmt"
	"sync"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
	"verifharness/mc"
)

// refusals are what the real servers say when they do not accept a message.
var refusals = map[string][][2]string{
	"postgresql": {{"23505", `duplicate key value violates unique constraint "points_pkey"`}, {"23502", `null value in column "id" violates not-null constraint`}, {"23514", "new row violates check constraint"},
		{"22P02", "invalid input syntax for type json"}, {"22001", "value too long for type character varying(10)"}, {"42P01", `relation "points" does not exist`}, {"42703", `column "point" does not exist`},
		{"42501", "permission denied for table points"}, {"25006", "cannot execute INSERT in a read-only transaction"}, {"40001", "could not serialize access"}, {"40P01", "deadlock detected"},
		{"53100", "could not extend file: No space left on device"}, {"53300", "too many connections"}, {"55P03", "canceling statement due to lock timeout"}, {"57014", "canceling statement due to statement timeout"},
		{"57P01", "terminating connection due to administrator command"}, {"57P03", "the database system is starting up"}, {"XX000", "internal error"}, {"00000", "successful completion"}, {"01000", "warning"}, {"P0001", "raised by a trigger"}},
	"mysql": {{"1062 23000", "Duplicate entry '1' for key 'PRIMARY'"}, {"1048 23000", "Column 'point' cannot be null"}, {"1142 42000", "INSERT command denied"}, {"1146 42S02", "Table 'receiver.points' doesn't exist"},
		{"1054 42S22", "Unknown column 'point'"}, {"1205 HY000", "Lock wait timeout exceeded; try restarting transaction"}, {"1213 40001", "Deadlock found when trying to get lock"}, {"1290 HY000", "The MySQL server is running with the --read-only option"},
		{"1792 25006", "Cannot execute statement in a READ ONLY transaction."}, {"1836 HY000", "Running in read-only mode"}, {"3140 22032", "Invalid JSON text"}, {"1406 22001", "Data too long for column"}, {"1114 HY000", "The table 'points' is full"},
		{"1021 HY000", "Disk full"}, {"1040 08004", "Too many connections"}, {"1053 08S01", "Server shutdown in progress"}, {"1317 70100", "Query execution was interrupted"}, {"1153 08S01", "Got a packet bigger than 'max_allowed_packet' bytes"}, {"1243 HY000", "Unknown prepared statement handler"}, {"1461 42000", "Can't create more than max_prepared_stmt_count statements"}},
	"redis": {{"ERR", "the message is refused"}, {"LOADING", "Redis is loading the dataset in memory"}, {"READONLY", "You can't write against a read only replica."}, {"OOM", "command not allowed when used memory > 'maxmemory'."},
		{"NOPERM", "this user has no permissions to access one of the channels used as arguments"}, {"MISCONF", "Redis is configured to save RDB snapshots"}, {"BUSY", "Redis is busy running a script."}, {"NOREPLICAS", "Not enough good replicas to write."},
		{"CLUSTERDOWN", "The cluster is down"}, {"TRYAGAIN", "Multiple keys request during rehashing of slot"}, {"MASTERDOWN", "Link with MASTER is down"}, {"NOAUTH", "Authentication required."}, {"ERR", "max number of clients reached"}, {"MOVED", "1 127.0.0.1:1"}},
	"tarantool_queue": {{"32", "the task is refused"}, {"2", "Failed to allocate 1024 bytes in slab allocator"}, {"3", "Duplicate key exists in unique index 'task_id'"}, {"7", "Can't modify data because this instance is in read-only mode."},
		{"33", "Procedure 'queue.tube.points:put' is not defined"}, {"42", "Execute access to function 'queue.tube.points:put' is denied for user 'egts'"}, {"47", "User 'egts' is not found"}, {"78", "Timeout exceeded"}, {"20", "Invalid MsgPack"}, {"115", "Instance bootstrap hasn't finished yet"}, {"0", "nothing"}},
}

// refused: each refusal, once and lasting, at the first or a later save, in the middle of a transaction or at its end.
func refused(d *Def) mc.Space {
	rs := refusals[d.Name]
	return mc.Space{Name: "refusals/" + d.Name, N: uint64(len(rs) * 8), Do: func(c *mc.C, i uint64) {
		r := rs[i%uint64(len(rs))]
		how := i / uint64(len(rs))
		lasting, first, late := how&1 == 1, how&2 == 2, how&4 == 4
		if late && d.Name != "postgresql" && d.Name != "mysql" || d.Name == "tarantool_queue" && r[0] == "0" {
			c.Outcome("not applicable")
			return
		}
		c.Describe("%s: a save refused with %q (lasting: %v, the first save: %v, at the commit if there is one: %v), then a healthy one", d.Name, r, lasting, first, late)
		healthy(c, d, func(s *Server, st storage.Store) {
			n := 0
			save := func(f Fault) (error, int, bool) {
				m := rec(n)
				n++
				b, _ := m.ToBytes()
				s.Late(late)
				s.Set(f, lasting && f != OK)
				err, ok := within(c, fmt.Sprintf("%s: save %d, refused with %q", d.Name, n-1, r), func() error { return st.Save(m) })
				s.Set(OK, false)
				s.Late(false)
				_, whole := count(s.Got(), d.Dest, string(b))
				c.Op(1)
				return err, whole, ok
			}
			if !first {
				if err, w, ok := save(OK); !ok || err != nil || w != 1 {
					c.Failf("%s: a healthy save returned %v", d.Name, err)
					return
				}
			}
			s.Refuse(r[0], r[1])
			err, w, ok := save(Reject)
			switch {
			case !ok:
				return
			case err == nil && w == 0:
				c.Failf("%s: a save returned success, but the server answered %q", d.Name, r)
			case err != nil && w > 0:
				c.Failf("%s: a save returned %v, but it was repeated and accepted", d.Name, err)
			}
			if c.Failed() {
				return
			}
			err, w, ok = save(OK)
			if ok && (err != nil || w != 1) {
				c.Failf("%s: after a save that was answered %q, a healthy save returned %v and was confirmed %d times", d.Name, r, err, w)
			}
			c.StateS('r', fmt.Sprint(d.Name, r, how))
			c.Outcome("refusals are reported")
		})
	}}
}

// many: long histories of one plugin.
func many(d *Def, th bool) mc.Space {
	long := 2500 // AMQP has at most 2047 channels
	if th {
		long = 12000
	}
	names := []string{"saves one after the other", "refused saves, then healthy ones", "saves from 16 goroutines", "saves, each after the connections were closed"}
	N := uint64(4)
	return mc.Space{Name: "many/" + d.Name, N: N, Do: func(c *mc.C, i uint64) {
		c.Describe("%s: many %s", d.Name, names[i])
		healthy(c, d, func(s *Server, st storage.Store) {
			one := func(k int, f Fault) (err error, ok bool) {
				m := rec(k)
				s.Set(f, false)
				err, ok = within(c, fmt.Sprintf("%s: save %d of many", d.Name, k), func() error { return st.Save(m) })
				c.Op(1)
				return
			}
			healthyOnes := 0
			switch i {
			case 0:
				for k := 0; k < long; k++ {
					if err, ok := one(k, OK); !ok {
						return
					} else if err != nil {
						c.Failf("%s: save %d of many with a healthy server: %v", d.Name, k, err)
						return
					}
				}
				healthyOnes = long
			case 1:
				no := 0
				if d.Acked {
					no = 400
				}
				for k := 0; k < no; k++ {
					if err, ok := one(k, Reject); !ok {
						return
					} else if err == nil {
						c.Failf("%s: save %d returned success, but it was refused", d.Name, k)
						return
					}
				}
				for k := no; k < no+50; k++ {
					if err, ok := one(k, OK); !ok {
						return
					} else if err != nil {
						c.Failf("%s: save %d, after %d refused ones: %v", d.Name, k, no, err)
						return
					}
				}
				healthyOnes = 50
			case 2:
				var wg sync.WaitGroup
				var mu sync.Mutex
				for g := 0; g < 16; g++ {
					g := g
					wg.Add(1)
					go func() {
						defer wg.Done()
						for k := 0; k < 100; k++ {
							err, ok := within(c, fmt.Sprintf("%s: save %d of goroutine %d", d.Name, k, g), func() error { return st.Save(rec(1000*g + k)) })
							mu.Lock()
							c.Op(1)
							if ok && err != nil {
								c.Failf("%s: save %d of goroutine %d with a healthy server: %v", d.Name, k, g, err)
							}
							bad := c.Failed()
							mu.Unlock()
							if !ok || bad {
								return
							}
						}
					}()
				}
				wg.Wait()
				healthyOnes = 1600
			case 3:
				if !d.Acked || d.Name == "tarantool_queue" { // they reconnect on their own, and the save may come too early
					c.Outcome("not applicable")
					return
				}
				for k := 0; k < 40; k++ {
					s.Kill()
					m := rec(k)
					b, _ := m.ToBytes()
					err, ok := within(c, fmt.Sprintf("%s: save %d, after the connections were closed", d.Name, k), func() error { return st.Save(m) })
					if !ok {
						return
					}
					if _, w := count(s.Got(), d.Dest, string(b)); err == nil && w == 0 {
						c.Failf("%s: save %d of many, after the connections were closed, returned success but was not confirmed", d.Name, k)
						return
					}
					c.Op(1)
				}
				for k := 100; k < 130; k++ {
					err, ok := one(k, OK)
					if !ok {
						return
					}
					if k >= 110 && err != nil {
						c.Failf("%s: save %d with a healthy server, long after the connections were closed: %v", d.Name, k, err)
						return
					}
				}
				c.StateS('m', fmt.Sprint(d.Name, i))
				c.Outcome("long histories")
				return
			}
			if c.Failed() {
				return
			}
			arrived(d, s, healthyOnes)
			seen := map[string]int{}
			for _, m := range s.Got() {
				seen[m.Body]++
				if m.Dest != d.Dest {
					c.Failf("%s: the server got %q in %q", d.Name, m.Body, m.Dest)
					return
				}
			}
			if len(s.Got()) != healthyOnes || len(seen) != healthyOnes {
				c.Failf("%s: many %s: %d saves were confirmed, but the server has %d records, %d of them different", d.Name, names[i], healthyOnes, len(s.Got()), len(seen))
			}
			c.StateS('m', fmt.Sprint(d.Name, i))
			c.Outcome("long histories")
		})
	}}
}
