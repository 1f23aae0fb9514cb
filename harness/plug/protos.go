package plug

import (
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"regexp"
	"strconv"
	"strings"
)

// ---- redis ----------------------------------------------------------------------------------------------

func redisProto(s *Server, p *Peer) error {
	lg := Login{DB: "0"}
	authed := !s.auth
	logged := false
	multi := false
	var queued [][]string
	for {
		l, err := p.line()
		if err != nil {
			return err
		}
		if len(l) == 0 || l[0] != '*' {
			return fmt.Errorf("redis: not a command: %q", l)
		}
		n, _ := strconv.Atoi(l[1:])
		var a []string
		for k := 0; k < n; k++ {
			if l, err = p.line(); err != nil {
				return err
			}
			z, _ := strconv.Atoi(l[1:])
			b, err := p.read(z + 2)
			if err != nil {
				return err
			}
			a = append(a, string(b[:z]))
		}
		cmd := strings.ToUpper(a[0])
		if cmd == "AUTH" || cmd == "SELECT" || cmd == "PING" || cmd == "HELLO" || cmd == "CLIENT" {
			if err := p.step(); err != nil {
				return err
			}
		}
		switch {
		case cmd == "AUTH" && len(a) >= 2:
			lg.Pass = a[len(a)-1]
			if len(a) == 3 {
				lg.User = a[1]
			}
			if s.auth && lg.Pass != s.want.Pass {
				err = p.send([]byte("-WRONGPASS invalid username-password pair or user is disabled.\r\n"))
			} else {
				authed = true
				err = p.send([]byte("+OK\r\n"))
			}
		case cmd == "HELLO":
			err = p.send([]byte("-ERR unknown command 'HELLO'\r\n"))
		case cmd == "QUIT":
			_ = p.send([]byte("+OK\r\n"))
			return nil
		case !authed:
			err = p.send([]byte("-NOAUTH Authentication required.\r\n"))
		case cmd == "SELECT" && len(a) == 2:
			lg.DB = a[1]
			err = p.send([]byte("+OK\r\n"))
		case cmd == "PING":
			err = p.send([]byte("+PONG\r\n"))
		case cmd == "CLIENT":
			err = p.send([]byte("+OK\r\n"))
		case cmd == "MULTI":
			multi, queued = true, nil
			err = p.send([]byte("+OK\r\n"))
		case cmd == "DISCARD" && multi:
			multi = false
			err = p.send([]byte("+OK\r\n"))
		case cmd == "EXEC" && multi && len(queued) == 1:
			multi = false
			if !logged {
				s.login(lg)
				logged = true
			}
			err = p.message(queued[0][1], []byte(queued[0][2]), []byte("*1\r\n:1\r\n"), []byte("*1\r\n-"+s.refuse("ERR", "the message is refused")+"\r\n"))
		case cmd == "PUBLISH" && len(a) == 3 && multi:
			queued = append(queued, a)
			err = p.send([]byte("+QUEUED\r\n"))
		case cmd == "PUBLISH" && len(a) == 3:
			if !logged {
				s.login(lg)
				logged = true
			}
			err = p.message(a[1], []byte(a[2]), []byte(":1\r\n"), []byte("-"+s.refuse("ERR", "the message is refused")+"\r\n"))
		default:
			s.odd("redis: %q", a)
			err = p.send([]byte("-ERR unknown command\r\n"))
		}
		if err != nil {
			return err
		}
	}
}

// ---- NATS -----------------------------------------------------------------------------------------------

func natsProto(s *Server, p *Peer) error {
	if err := p.step(); err != nil {
		return err
	}
	h, port := s.Addr()
	if err := p.send([]byte(fmt.Sprintf(`INFO {"server_id":"x","server_name":"x","version":"2.9.23","proto":1,"go":"x","host":%q,"port":%s,"headers":true,"max_payload":8388608,"auth_required":%v}`+"\r\n", h, port, s.auth))); err != nil {
		return err
	}
	verbose := false
	for {
		l, err := p.line()
		if err != nil {
			return err
		}
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		switch cmd := strings.ToUpper(f[0]); cmd {
		case "CONNECT":
			if err := p.step(); err != nil {
				return err
			}
			var o struct {
				User, Pass string
				Verbose    bool
			}
			if err := json.Unmarshal([]byte(l[8:]), &o); err != nil {
				return fmt.Errorf("nats: %v", err)
			}
			verbose = o.Verbose
			s.login(Login{User: o.User, Pass: o.Pass})
			if s.auth && (o.User != s.want.User || o.Pass != s.want.Pass) {
				_ = p.send([]byte("-ERR 'Authorization Violation'\r\n"))
				return errDie
			}
			if verbose {
				err = p.send([]byte("+OK\r\n"))
			}
		case "PING":
			if err := p.step(); err != nil && p.hs < 5 {
				return err
			}
			err = p.send([]byte("PONG\r\n"))
		case "PONG":
		case "PUB", "HPUB":
			n, _ := strconv.Atoi(f[len(f)-1])
			b, e := p.read(n + 2)
			if e != nil {
				return e
			}
			b = b[:n]
			if cmd == "HPUB" {
				z, _ := strconv.Atoi(f[len(f)-2])
				b = b[z:]
			}
			ok := []byte{}
			if verbose {
				ok = []byte("+OK\r\n")
			}
			err = p.message(f[1], b, ok, []byte("-ERR 'Permissions Violation for Publish to \""+f[1]+"\"'\r\n"))
		case "SUB", "UNSUB":
			if verbose {
				err = p.send([]byte("+OK\r\n"))
			}
		default:
			return fmt.Errorf("nats: %q", l)
		}
		if err != nil {
			return err
		}
	}
}

// ---- PostgreSQL -----------------------------------------------------------------------------------------

// pgName is the table a PostgreSQL name stands for: unquoted parts are folded to lower case.
func pgName(q string) string {
	var parts []string
	cur, quoted := "", false
	for i := 0; i < len(q); i++ {
		switch {
		case q[i] == '"' && quoted && i+1 < len(q) && q[i+1] == '"':
			cur += `""`
			i++
		case q[i] == '"':
			quoted = !quoted
		case q[i] == '.' && !quoted:
			parts = append(parts, cur)
			cur = ""
		case !quoted:
			cur += strings.ToLower(q[i : i+1])
		case q[i] == '.': // a dot inside a name
			cur += `"."`
		default:
			cur += q[i : i+1]
		}
	}
	return strings.Join(append(parts, cur), ".")
}

// myName is the table a MySQL name stands for.
func myName(q string) string {
	out, quoted := "", false
	for i := 0; i < len(q); i++ {
		switch {
		case q[i] == '`':
			quoted = !quoted
		case q[i] == '.' && quoted: // a dot inside a name
			out += "`.`"
		default:
			out += q[i : i+1]
		}
	}
	return out
}

func pgMsg(t byte, b ...[]byte) []byte {
	x := bytes.Join(b, nil)
	o := []byte{t, 0, 0, 0, 0}
	binary.BigEndian.PutUint32(o[1:], uint32(len(x)+4))
	return append(o, x...)
}

func pgErr(code, msg string) []byte {
	return pgMsg('E', []byte("SERROR\x00VERROR\x00C"+code+"\x00M"+msg+"\x00\x00"))
}

var pgInsert = regexp.MustCompile(`(?is)^\s*insert\s+into\s+(\S+)\s*\(\s*"?point"?\s*\)\s*values\s*\(\s*\$1\s*(?:::\s*jsonb?)?\s*\)\s*;?\s*$`)

func pgProto(s *Server, p *Peer) error {
	var lg Login
	for {
		if err := p.step(); err != nil {
			return err
		}
		h, err := p.read(8)
		if err != nil {
			return err
		}
		n, v := binary.BigEndian.Uint32(h), binary.BigEndian.Uint32(h[4:])
		b, err := p.read(int(n) - 8)
		if err != nil {
			return err
		}
		if v == 80877103 { // TLS, please
			if err := p.send([]byte("N")); err != nil {
				return err
			}
			continue
		}
		f := strings.Split(string(b), "\x00")
		for k := 0; k+1 < len(f); k += 2 {
			switch f[k] {
			case "user":
				lg.User = f[k+1]
			case "database":
				lg.DB = f[k+1]
			}
		}
		break
	}
	u32 := func(x uint32) []byte { b := make([]byte, 4); binary.BigEndian.PutUint32(b, x); return b }
	if s.auth {
		if err := p.step(); err != nil {
			return err
		}
		if err := p.send(pgMsg('R', u32(3))); err != nil {
			return err
		}
		h, err := p.read(5)
		if err != nil {
			return err
		}
		b, err := p.read(int(binary.BigEndian.Uint32(h[1:])) - 4)
		if err != nil {
			return err
		}
		if h[0] != 'p' {
			return fmt.Errorf("postgresql: %q instead of a password", h[0])
		}
		lg.Pass = strings.TrimSuffix(string(b), "\x00")
	}
	s.login(lg)
	if s.auth && lg != s.want {
		_ = p.send(pgErr("28P01", "password authentication failed"))
		return errDie
	}
	if err := p.step(); err != nil {
		return err
	}
	if err := p.send(bytes.Join([][]byte{pgMsg('R', u32(0)), pgMsg('S', []byte("server_version\x0012.0\x00")), pgMsg('S', []byte("client_encoding\x00UTF8\x00")), pgMsg('S', []byte("standard_conforming_strings\x00on\x00")), pgMsg('K', u32(1), u32(2)), pgMsg('Z', []byte("I"))}, nil)); err != nil {
		return err
	}
	prepared := map[string]string{}
	portals := map[string]string{}
	args := map[string][][]byte{}
	status := byte('I')
	skip := false // after an error until Sync
	var out []byte
	type pend struct {
		dest string
		body []byte
	}
	var tx []pend
	for {
		h, err := p.read(5)
		if err != nil {
			return err
		}
		b, err := p.read(int(binary.BigEndian.Uint32(h[1:])) - 4)
		if err != nil {
			return err
		}
		str := func() string {
			k := bytes.IndexByte(b, 0)
			if k < 0 {
				k = len(b)
				b = append(b, 0)
			}
			x := string(b[:k])
			b = b[k+1:]
			return x
		}
		u16 := func() int {
			if len(b) < 2 {
				return 0
			}
			x := binary.BigEndian.Uint16(b)
			b = b[2:]
			return int(x)
		}
		if skip && h[0] != 'S' && h[0] != 'X' {
			continue
		}
		fail := func(code, msg string) {
			out = append(out, pgErr(code, msg)...)
			skip = true
			if status == 'T' {
				status = 'E'
			}
		}
		// run executes a statement; done tells whether a message was handled (and answered)
		run := func(q string, par [][]byte, tail func() []byte) (bool, error) {
			w := strings.ToLower(strings.TrimRight(strings.TrimSpace(q), "; "))
			switch {
			case w == "":
				out = append(out, pgMsg('I')...)
			case strings.HasPrefix(w, "begin") || strings.HasPrefix(w, "start transaction"):
				status = 'T'
				tx = nil
				out = append(out, pgMsg('C', []byte("BEGIN\x00"))...)
			case strings.HasPrefix(w, "commit"):
				failed := status == 'E'
				status = 'I'
				if failed {
					out = append(out, pgMsg('C', []byte("ROLLBACK\x00"))...)
					return false, nil
				}
				okMsg := append(append([]byte{}, out...), pgMsg('C', []byte("COMMIT\x00"))...)
				if s.isLate() && len(tx) == 1 {
					x := tx[0]
					tx = nil
					no := append(append([]byte{}, out...), pgErr(s.refusal("23514", "the row is refused"))...)
					out = nil
					end := tail()
					return true, p.message(x.dest, x.body, append(okMsg, end...), append(no, end...))
				}
				s.mu.Lock()
				for _, x := range tx {
					s.msgs = append(s.msgs, Msg{x.dest, string(x.body), true})
				}
				s.mu.Unlock()
				tx = nil
				out = okMsg
			case strings.HasPrefix(w, "rollback"):
				status = 'I'
				tx = nil
				out = append(out, pgMsg('C', []byte("ROLLBACK\x00"))...)
			case strings.HasPrefix(w, "select"), strings.HasPrefix(w, "set "), strings.HasPrefix(w, "discard"):
				out = append(out, pgMsg('C', []byte("SELECT 0\x00"))...)
			default:
				m := pgInsert.FindStringSubmatch(q)
				if m == nil || len(par) != 1 {
					s.odd("postgresql: %q with %d arguments", q, len(par))
					fail("42601", "syntax error")
					return false, nil
				}
				if status == 'E' {
					fail("25P02", "current transaction is aborted")
					return false, nil
				}
				okMsg := append(append([]byte{}, out...), pgMsg('C', []byte("INSERT 0 1\x00"))...)
				if status == 'T' { // counts when committed
					f := s.inTx()
					if f == Reject {
						fail(s.refusal("23514", "the row is refused"))
						return false, nil
					}
					if f != OK {
						return true, errDie
					}
					tx = append(tx, pend{pgName(m[1]), par[0]})
					out = okMsg
					return false, nil
				}
				no := append(append([]byte{}, out...), pgErr(s.refusal("23514", "the row is refused"))...)
				out = nil
				end := tail()
				return true, p.message(pgName(m[1]), par[0], append(okMsg, end...), append(no, end...))
			}
			return false, nil
		}
		switch h[0] {
		case 'X':
			return nil
		case 'Q':
			done, err := run(str(), nil, func() []byte { return pgMsg('Z', []byte{status}) })
			if err != nil {
				return err
			}
			if !done {
				out = append(out, pgMsg('Z', []byte{status})...)
			}
			skip = false
			if err := p.send(out); err != nil {
				return err
			}
			out = nil
		case 'P':
			name := str()
			q := str()
			prepared[name] = q
			out = append(out, pgMsg('1')...)
		case 'D':
			kind := b[0]
			b = b[1:]
			name := str()
			if kind == 'S' {
				n := strings.Count(prepared[name], "$1")
				d := []byte{0, byte(n)}
				for ; n > 0; n-- {
					d = append(d, u32(3802)...)
				}
				out = append(out, pgMsg('t', d)...)
			}
			out = append(out, pgMsg('n')...)
		case 'B':
			portal := str()
			portals[portal] = prepared[str()]
			for n := u16(); n > 0; n-- {
				u16()
			}
			var a [][]byte
			for n := u16(); n > 0; n-- {
				z := int(int32(binary.BigEndian.Uint32(b)))
				b = b[4:]
				if z < 0 {
					a = append(a, nil)
					continue
				}
				a = append(a, b[:z])
				b = b[z:]
			}
			args[portal] = a
			out = append(out, pgMsg('2')...)
		case 'E':
			portal := str()
			synced := false
			_, err := run(portals[portal], args[portal], func() []byte {
				// the answer goes out with the Sync that follows
				h, err := p.read(5)
				if err != nil || h[0] != 'S' {
					s.odd("postgresql: %q after Execute", h)
					return nil
				}
				synced = true
				return pgMsg('Z', []byte{status})
			})
			if err != nil {
				return err
			}
			if synced {
				skip = false
			}
		case 'C':
			out = append(out, pgMsg('3')...)
		case 'H':
			if err := p.send(out); err != nil {
				return err
			}
			out = nil
		case 'S':
			skip = false
			out = append(out, pgMsg('Z', []byte{status})...)
			if err := p.send(out); err != nil {
				return err
			}
			out = nil
		default:
			return fmt.Errorf("postgresql: message %q", h[0])
		}
	}
}

// ---- MySQL ----------------------------------------------------------------------------------------------

var myInsert = regexp.MustCompile("(?is)^\\s*insert\\s+into\\s+(\\S+)\\s*\\(\\s*`?point`?\\s*\\)\\s*values\\s*\\(\\s*\\?\\s*\\)\\s*;?\\s*$")

func mysqlProto(s *Server, p *Peer) error {
	seq := byte(0)
	pkt := func(b []byte) []byte {
		o := []byte{byte(len(b)), byte(len(b) >> 8), byte(len(b) >> 16), seq}
		seq++
		return append(o, b...)
	}
	recv := func() ([]byte, error) {
		h, err := p.read(4)
		if err != nil {
			return nil, err
		}
		seq = h[3] + 1
		return p.read(int(h[0]) | int(h[1])<<8 | int(h[2])<<16)
	}
	okB := []byte{0, 1, 0, 2, 0, 0, 0}
	errB := func(code int, state, msg string) []byte {
		return append([]byte{0xFF, byte(code), byte(code >> 8)}, "#"+state+msg...)
	}
	if err := p.step(); err != nil {
		return err
	}
	myErr := func() []byte {
		code, msg := s.refusal("4025 23000", "the row is refused")
		n, _ := strconv.Atoi(code[:4])
		return errB(n, code[5:], msg)
	}
	salt := []byte("abcdefghijklmnopqrst")
	const caps = 0x00000001 | 0x00000004 | 0x00000008 | 0x00000200 | 0x00002000 | 0x00008000 | 0x00080000 | 0x00100000 | 0x00200000
	g := append([]byte{10}, "5.7.30\x00"...)
	g = append(g, 1, 0, 0, 0)
	g = append(g, salt[:8]...)
	cb := uint32(caps)
	g = append(g, 0, byte(cb), byte(cb>>8), 33, 2, 0, byte(cb>>16), byte(cb>>24), 21)
	g = append(g, make([]byte, 10)...)
	g = append(g, salt[8:]...)
	g = append(g, 0)
	g = append(g, "mysql_native_password\x00"...)
	if err := p.send(pkt(g)); err != nil {
		return err
	}
	b, err := recv()
	if err != nil {
		return err
	}
	if len(b) < 33 {
		return fmt.Errorf("mysql: handshake %x", b)
	}
	cc := binary.LittleEndian.Uint32(b)
	b = b[32:]
	k := bytes.IndexByte(b, 0)
	lg := Login{User: string(b[:k])}
	b = b[k+1:]
	n := int(b[0])
	auth := b[1 : 1+n]
	b = b[1+n:]
	if cc&8 != 0 {
		if k := bytes.IndexByte(b, 0); k >= 0 {
			lg.DB = string(b[:k])
			b = b[k+1:]
		}
	}
	scr := func(pass string) []byte {
		if pass == "" {
			return []byte{}
		}
		x := sha1.Sum([]byte(pass))
		y := sha1.Sum(x[:])
		h := sha1.New()
		h.Write(salt)
		h.Write(y[:])
		z := h.Sum(nil)
		for i := range z {
			z[i] ^= x[i]
		}
		return z
	}
	if bytes.Equal(auth, scr(s.want.Pass)) {
		lg.Pass = s.want.Pass
	} else {
		lg.Pass = "?"
	}
	s.login(lg)
	if err := p.step(); err != nil {
		return err
	}
	if s.auth && lg != s.want {
		return p.send(pkt(errB(1045, "28000", "Access denied")))
	}
	if err := p.send(pkt(okB)); err != nil {
		return err
	}
	type stmt struct {
		q    string
		long []byte
		has  bool
	}
	stmts := map[uint32]*stmt{}
	var id uint32
	inTx, auto0 := false, false
	var tx []Msg
	for {
		b, err := recv()
		if err != nil {
			return err
		}
		if len(b) == 0 {
			return fmt.Errorf("mysql: empty command")
		}
		switch b[0] {
		case 1:
			return nil
		case 14:
			if err := p.step(); err != nil && p.hs < 4 {
				return err
			}
			err = p.send(pkt(okB))
		case 3:
			q := strings.ToLower(strings.TrimSpace(string(b[1:])))
			switch {
			case strings.HasPrefix(q, "start transaction"), strings.HasPrefix(q, "begin"):
				inTx, tx = true, nil
				err = p.send(pkt(okB))
			case strings.HasPrefix(q, "commit"):
				inTx = auto0
				if s.isLate() && len(tx) == 1 {
					x := tx[0]
					tx = nil
					q := seq
					ok := pkt(okB)
					seq = q
					err = p.message(x.Dest, []byte(x.Body), ok, pkt(myErr()))
					break
				}
				s.mu.Lock()
				s.msgs = append(s.msgs, tx...)
				s.mu.Unlock()
				tx = nil
				err = p.send(pkt(okB))
			case strings.HasPrefix(q, "rollback"):
				inTx, tx = auto0, nil
				err = p.send(pkt(okB))
			case strings.HasPrefix(q, "set ") && autocommit.MatchString(q):
				auto0 = autocommit.FindStringSubmatch(q)[1] != "1" && autocommit.FindStringSubmatch(q)[1] != "on"
				if inTx = auto0; !auto0 {
					s.mu.Lock()
					s.msgs = append(s.msgs, tx...)
					s.mu.Unlock()
					tx = nil
				}
				err = p.send(pkt(okB))
			case strings.HasPrefix(q, "set "):
				err = p.send(pkt(okB))
			default:
				s.odd("mysql: query %q", b[1:])
				err = p.send(pkt(errB(1064, "42000", "You have an error in your SQL syntax")))
			}
		case 0x16:
			id++
			q := string(b[1:])
			np := strings.Count(q, "?")
			if myInsert.FindStringSubmatch(q) == nil {
				s.odd("mysql: statement %q", q)
				err = p.send(pkt(errB(1064, "42000", "You have an error in your SQL syntax")))
				break
			}
			stmts[id] = &stmt{q: q}
			o := pkt([]byte{0, byte(id), byte(id >> 8), byte(id >> 16), byte(id >> 24), 0, 0, byte(np), 0, 0, 0, 0})
			for k := 0; k < np; k++ {
				o = append(o, pkt(append([]byte("\x03def\x00\x00\x00\x01?\x00\x0c"), 63, 0, 0, 0, 0, 0, 0xFD, 0x80, 0, 0, 0, 0))...)
			}
			if np > 0 {
				o = append(o, pkt([]byte{0xFE, 0, 0, 2, 0})...)
			}
			err = p.send(o)
		case 0x18:
			st := stmts[binary.LittleEndian.Uint32(b[1:])]
			if st == nil {
				return fmt.Errorf("mysql: no such statement")
			}
			st.long = append(st.long, b[7:]...)
			st.has = true
		case 0x19:
			delete(stmts, binary.LittleEndian.Uint32(b[1:]))
		case 0x17:
			st := stmts[binary.LittleEndian.Uint32(b[1:])]
			if st == nil {
				err = p.send(pkt(errB(1243, "HY000", "Unknown prepared statement")))
				break
			}
			body := st.long
			if !st.has {
				r := b[10:]
				null := r[0]&1 != 0
				bound := r[1]
				r = r[2:]
				if bound == 1 {
					r = r[2:]
				}
				if null {
					body = []byte("NULL")
				} else {
					n, w := lenenc(r)
					body = r[w : w+n]
				}
			}
			st.long, st.has = nil, false
			m := myInsert.FindStringSubmatch(st.q)
			if inTx {
				f := s.inTx()
				if f == Reject {
					err = p.send(pkt(myErr()))
					break
				}
				if f != OK {
					return errDie
				}
				tx = append(tx, Msg{myName(m[1]), string(body), true})
				err = p.send(pkt(okB))
				break
			}
			q := seq
			ok := pkt(okB)
			seq = q
			err = p.message(myName(m[1]), body, ok, pkt(myErr()))
		default:
			return fmt.Errorf("mysql: command %#x", b[0])
		}
		if err != nil {
			return err
		}
	}
}

var autocommit = regexp.MustCompile(`autocommit\s*=\s*(\w+)`)

func lenenc(b []byte) (int, int) {
	switch b[0] {
	case 0xFC:
		return int(binary.LittleEndian.Uint16(b[1:])), 3
	case 0xFD:
		return int(b[1]) | int(b[2])<<8 | int(b[3])<<16, 4
	case 0xFE:
		return int(binary.LittleEndian.Uint64(b[1:])), 9
	}
	return int(b[0]), 1
}

// ---- RabbitMQ -------------------------------------------------------------------------------------------

func amqpProto(s *Server, p *Peer) error {
	if err := p.step(); err != nil {
		return err
	}
	h, err := p.read(8)
	if err != nil {
		return err
	}
	if string(h) != "AMQP\x00\x00\x09\x01" {
		return fmt.Errorf("amqp: protocol %q", h)
	}
	frame := func(t byte, ch int, b []byte) []byte {
		o := []byte{t, byte(ch >> 8), byte(ch), 0, 0, 0, 0}
		binary.BigEndian.PutUint32(o[3:], uint32(len(b)))
		return append(append(o, b...), 0xCE)
	}
	method := func(ch, c, m int, b ...byte) []byte {
		return frame(1, ch, append([]byte{byte(c >> 8), byte(c), byte(m >> 8), byte(m)}, b...))
	}
	if err := p.send(method(0, 10, 10, append([]byte{0, 9, 0, 0, 0, 0}, "\x00\x00\x00\x05PLAIN\x00\x00\x00\x05en_US"...)...)); err != nil {
		return err
	}
	type pub struct {
		dest string
		size uint64
		body []byte
		on   bool
	}
	open := map[int]*pub{}
	conf := map[int]uint64{} // next delivery tag of channels in confirm mode
	closing := map[int]bool{}
	for {
		h, err := p.read(7)
		if err != nil {
			return err
		}
		ch := int(h[1])<<8 | int(h[2])
		b, err := p.read(int(binary.BigEndian.Uint32(h[3:])) + 1)
		if err != nil {
			return err
		}
		if b[len(b)-1] != 0xCE {
			return fmt.Errorf("amqp: frame end")
		}
		b = b[:len(b)-1]
		short := func() string { n := int(b[0]); x := string(b[1 : 1+n]); b = b[1+n:]; return x }
		long := func() string { n := binary.BigEndian.Uint32(b); x := string(b[4 : 4+n]); b = b[4+n:]; return x }
		finish := func(x *pub) error {
			x.on = false
			var ok []byte
			if t, yes := conf[ch]; yes {
				d := make([]byte, 9)
				binary.BigEndian.PutUint64(d, t)
				conf[ch] = t + 1
				ok = method(ch, 60, 80, d...)
			}
			err := p.message(x.dest, x.body, ok, method(ch, 20, 40, append(append([]byte{0x01, 0x94, 9}, "NOT_FOUND"...), 0, 60, 0, 40)...))
			return err
		}
		switch h[0] {
		case 8:
		case 2:
			x := open[ch]
			if closing[ch] {
				break
			}
			if x == nil || !x.on {
				return fmt.Errorf("amqp: header without method")
			}
			x.size = binary.BigEndian.Uint64(b[4:])
			if len(b) >= 14 && b[12]&1 != 0 {
				return fmt.Errorf("amqp: a message that expires") // records wait for as long as it takes
			}
			if x.size == 0 {
				if err := finish(x); err != nil {
					return err
				}
			}
		case 3:
			x := open[ch]
			if closing[ch] {
				break
			}
			if x == nil || !x.on {
				return fmt.Errorf("amqp: body without header")
			}
			x.body = append(x.body, b...)
			if uint64(len(x.body)) >= x.size {
				if err := finish(x); err != nil {
					return err
				}
			}
		case 1:
			c, m := int(b[0])<<8|int(b[1]), int(b[2])<<8|int(b[3])
			b = b[4:]
			var o []byte
			if c != 60 {
				if err := p.step(); err != nil && c != 20 || err != nil && m == 10 {
					return err
				}
			}
			switch {
			case c == 10 && m == 11:
				long()
				mech := short()
				r := strings.Split(long(), "\x00")
				if mech != "PLAIN" || len(r) != 3 {
					return fmt.Errorf("amqp: mechanism %q", mech)
				}
				lg := Login{User: r[1], Pass: r[2]}
				s.login(lg)
				if s.auth && lg != s.want {
					return errDie
				}
				o = method(0, 10, 30, 0, 100, 0, 2, 0, 0, 0, 0)
			case c == 10 && m == 31:
			case c == 10 && m == 40:
				o = method(0, 10, 41, 0)
			case c == 10 && m == 50:
				_ = p.send(method(0, 10, 51))
				return nil
			case c == 20 && m == 10:
				open[ch] = &pub{}
				closing[ch] = false
				o = method(ch, 20, 11, 0, 0, 0, 0)
			case c == 20 && m == 40:
				o = method(ch, 20, 41)
			case c == 20 && m == 41:
				closing[ch] = true
			case c == 40 && m == 10:
				o = method(ch, 40, 11)
			case c == 50 && m == 10:
				o = method(ch, 50, 11, append([]byte{1, 'q'}, make([]byte, 8)...)...)
			case c == 50 && m == 20:
				o = method(ch, 50, 21)
			case c == 85 && m == 10:
				conf[ch] = 1
				o = method(ch, 85, 11)
			case c == 60 && m == 40:
				if x := open[ch]; x == nil {
					return fmt.Errorf("amqp: publish on a closed channel")
				}
				b = b[2:]
				ex := short()
				key := short()
				if b[0]&2 != 0 { // immediate: servers since 3.0 end the connection
					_ = p.send(method(0, 10, 50, append(append([]byte{0x02, 0x1C, 14}, "immediate=true"...), 0, 60, 0, 40)...))
					return nil
				}
				open[ch] = &pub{dest: ex + "/" + key, on: true}
			default:
				return fmt.Errorf("amqp: method %d.%d", c, m)
			}
			if err := p.send(o); err != nil {
				return err
			}
		}
	}
}

// ---- Tarantool ------------------------------------------------------------------------------------------

func tarProto(s *Server, p *Peer) error {
	if err := p.step(); err != nil {
		return err
	}
	salt := []byte("abcdefghijklmnopqrstuvwxyz012345")
	g := fmt.Sprintf("%-63s\n%-63s\n", "Tarantool 1.10.0 (Binary) 00000000-0000-0000-0000-000000000000", base64.StdEncoding.EncodeToString(salt))
	if err := p.send([]byte(g)); err != nil {
		return err
	}
	authed := !s.auth
	answer := func(code uint32, sync uint64, body []byte) []byte {
		x := []byte{0x83, 0x00}
		x = append(x, 0xCE, byte(code>>24), byte(code>>16), byte(code>>8), byte(code))
		x = append(x, 0x01, 0xCF)
		x = binary.BigEndian.AppendUint64(x, sync)
		x = append(x, 0x05, 0x01)
		x = append(x, body...)
		o := []byte{0xCE, 0, 0, 0, 0}
		binary.BigEndian.PutUint32(o[1:], uint32(len(x)))
		return append(o, x...)
	}
	fail := func(sync uint64, code uint32, msg string) []byte {
		return answer(0x8000|code, sync, append([]byte{0x81, 0x31, 0xDA, byte(len(msg) >> 8), byte(len(msg))}, msg...))
	}
	tarNo := func(sync uint64) []byte {
		code, msg := s.refusal("32", "the task is refused")
		n, _ := strconv.Atoi(code)
		return fail(sync, uint32(n), msg)
	}
	for {
		sz, err := mpRead(p.r)
		if err != nil {
			return err
		}
		n, _ := sz.(uint64)
		raw, err := p.read(int(n))
		if err != nil {
			return err
		}
		r := bytes.NewReader(raw)
		hv, err := mpRead(r)
		if err != nil {
			return fmt.Errorf("tarantool: %v", err)
		}
		hd, _ := hv.(map[interface{}]interface{})
		code, _ := hd[uint64(0)].(uint64)
		sync, _ := hd[uint64(1)].(uint64)
		body := map[interface{}]interface{}{}
		if r.Len() > 0 {
			bv, err := mpRead(r)
			if err != nil {
				return fmt.Errorf("tarantool: %v", err)
			}
			body, _ = bv.(map[interface{}]interface{})
		}
		empty := []byte{0x81, 0x30, 0x90}
		switch {
		case code == 7:
			if err := p.step(); err != nil {
				return err
			}
			lg := Login{User: fmt.Sprint(body[uint64(0x23)]), Pass: "?"}
			if t, ok := body[uint64(0x21)].([]interface{}); ok && len(t) == 2 && fmt.Sprint(t[1]) == string(tarScramble(salt, s.want.Pass)) {
				lg.Pass = s.want.Pass
			}
			s.login(lg)
			if s.auth && lg != s.want {
				_ = p.send(fail(sync, 47, "Incorrect password supplied for user"))
				return errDie
			}
			authed = true
			err = p.send(answer(0, sync, []byte{0x80}))
		case !authed:
			err = p.send(fail(sync, 42, "Access denied"))
		case code == 1:
			if err := p.step(); err != nil {
				return err
			}
			err = p.send(answer(0, sync, empty))
		case code == 64:
			err = p.send(answer(0, sync, []byte{0x80}))
		case code == 6 || code == 10:
			fn := fmt.Sprint(body[uint64(0x22)])
			a, _ := body[uint64(0x21)].([]interface{})
			if !strings.HasPrefix(fn, "queue.tube.") || !strings.HasSuffix(fn, ":put") || len(a) < 1 || len(a) > 2 {
				s.odd("tarantool: call of %s with %d arguments", fn, len(a))
				err = p.send(fail(sync, 33, "Procedure is not defined"))
				break
			}
			v, ok := a[0].(string)
			if !ok {
				s.odd("tarantool: %T put", a[0])
			}
			dest := strings.TrimSuffix(strings.TrimPrefix(fn, "queue.tube."), ":put")
			task := append([]byte{0x93, 0x07, 0xA1, 'r', 0xC6}, binary.BigEndian.AppendUint32(nil, uint32(len(v)))...)
			task = append(task, v...)
			task = append([]byte{0x81, 0x30, 0x91}, task...)
			if s.holding() { // the next request may come before the answer
				go func() {
					if p.message(dest, []byte(v), answer(0, sync, task), tarNo(sync)) != nil {
						_ = p.c.Close()
					}
				}()
				break
			}
			err = p.message(dest, []byte(v), answer(0, sync, task), tarNo(sync))
		default:
			s.odd("tarantool: request %d", code)
			err = p.send(fail(sync, 48, "Unknown request type"))
		}
		if err != nil {
			return err
		}
	}
}

func tarScramble(salt []byte, pass string) []byte {
	x := sha1.Sum([]byte(pass))
	y := sha1.Sum(x[:])
	h := sha1.New()
	h.Write(salt[:20])
	h.Write(y[:])
	z := h.Sum(nil)
	for i := range z {
		z[i] ^= x[i]
	}
	return z
}

type byteReader interface {
	io.Reader
	io.ByteReader
}

// mpRead reads a msgpack value; strings and byte strings are both strings.
func mpRead(r byteReader) (interface{}, error) {
	c, err := r.ReadByte()
	if err != nil {
		return nil, err
	}
	num := func(n int) uint64 {
		var x uint64
		for ; n > 0; n-- {
			b, e := r.ReadByte()
			if e != nil {
				err = e
			}
			x = x<<8 | uint64(b)
		}
		return x
	}
	str := func(n uint64) (interface{}, error) {
		if err != nil {
			return nil, err
		}
		b := make([]byte, n)
		_, err := io.ReadFull(r, b)
		return string(b), err
	}
	arr := func(n uint64) (interface{}, error) {
		o := []interface{}{}
		for ; n > 0 && err == nil; n-- {
			var v interface{}
			v, err = mpRead(r)
			o = append(o, v)
		}
		return o, err
	}
	mp := func(n uint64) (interface{}, error) {
		o := map[interface{}]interface{}{}
		for ; n > 0 && err == nil; n-- {
			var k, v interface{}
			if k, err = mpRead(r); err == nil {
				v, err = mpRead(r)
			}
			switch k.(type) {
			case uint64, string, int64:
				o[k] = v
			}
		}
		return o, err
	}
	switch {
	case c < 0x80:
		return uint64(c), nil
	case c < 0x90:
		return mp(uint64(c & 15))
	case c < 0xA0:
		return arr(uint64(c & 15))
	case c < 0xC0:
		return str(uint64(c & 31))
	case c >= 0xE0:
		return int64(int8(c)), nil
	}
	switch c {
	case 0xC0:
		return nil, nil
	case 0xC2, 0xC3:
		return c == 0xC3, nil
	case 0xC4, 0xD9:
		return str(num(1))
	case 0xC5, 0xDA:
		return str(num(2))
	case 0xC6, 0xDB:
		return str(num(4))
	case 0xCC:
		return num(1), err
	case 0xCD:
		return num(2), err
	case 0xCE:
		return num(4), err
	case 0xCF:
		return num(8), err
	case 0xD0:
		return int64(int8(num(1))), err
	case 0xD1:
		return int64(int16(num(2))), err
	case 0xD2:
		return int64(int32(num(4))), err
	case 0xD3:
		return int64(num(8)), err
	case 0xCA:
		return num(4), err
	case 0xCB:
		return num(8), err
	case 0xDC:
		return arr(num(2))
	case 0xDD:
		return arr(num(4))
	case 0xDE:
		return mp(num(2))
	case 0xDF:
		return mp(num(4))
	}
	return nil, fmt.Errorf("msgpack %#x", c)
}
