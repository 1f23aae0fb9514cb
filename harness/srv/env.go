// Package srv decides the properties of the receiver server by running the real server.Run in a synctest
// bubble (fake clock, every goroutine of an execution accounted for) with a listener, connections and stores
// that are driven step by step, and comparing what it does with a reference model of the server.
package srv

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"testing/synctest"
	"time"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/server"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
)

// Event is something the server did or that was done to it.
type Event struct {
	At   time.Duration // since the start of the execution
	Kind string        // "save", "saved", "write", "close", "accept", "returned"
	Conn int           // -1 if not known
	Data []byte
	N    int // store number
}

// Env is one execution.
type Env struct {
	mu     sync.Mutex
	start  time.Time
	log    []Event
	L      *Listener
	Srv    *server.Server
	Conns  []*Conn
	Stores []*Store
	Repo   *storage.Repository
	ttl    time.Duration
	poke   func() // called when a connection becomes idle or closed
	ran    bool   // Run returned
	runEnd time.Duration
}

// ListenHook is set by the test binary, which is linked with a net package that has the hook.
var ListenHook func(f func(network, address string) (net.Listener, error))

// NewEnv starts a server with n stores.
func NewEnv(ttl time.Duration, n int) *Env {
	e := &Env{start: time.Now(), Repo: storage.NewRepository()}
	for k := 0; k < n; k++ {
		s := &Store{e: e, n: k}
		e.Stores = append(e.Stores, s)
		e.Repo.AddStore(s)
	}
	return e.run(ttl)
}

func (e *Env) run(ttl time.Duration) *Env {
	e.ttl = ttl
	e.L = &Listener{e: e}
	e.L.cond = sync.NewCond(&e.L.mu)
	ListenHook(func(network, address string) (net.Listener, error) {
		e.L.Addr_ = network + " " + address
		return e.L, nil
	})
	s := server.New("127.0.0.1:1", ttl, e.Repo)
	e.Srv = &s
	go func() {
		e.Srv.Run()
		e.mu.Lock()
		e.ran = true
		e.runEnd = time.Since(e.start)
		e.mu.Unlock()
		e.add(Event{Kind: "returned", Conn: -1})
	}()
	settle()
	return e
}

// Now is the time since the start.
func (e *Env) Now() time.Duration { return time.Since(e.start) }

func (e *Env) add(v Event) {
	v.At = time.Since(e.start)
	e.mu.Lock()
	e.log = append(e.log, v)
	e.mu.Unlock()
}

// Log is what happened so far.
func (e *Env) Log() []Event {
	e.mu.Lock()
	defer e.mu.Unlock()
	return append([]Event{}, e.log...)
}

// Wait lets the server run until it waits for something.
func (e *Env) Wait() { settle() }

// settle lets every goroutine of the execution run until it waits; replaced outside of a synctest bubble.
var settle = synctest.Wait

// Sleep advances the clock.
func (e *Env) Sleep(d time.Duration) { time.Sleep(d); settle() }

// Dial opens a connection.
func (e *Env) Dial() *Conn {
	c := e.NewConn()
	e.Connect(c)
	return c
}

// Connect lets the server accept the connection.
func (e *Env) Connect(c *Conn) {
	e.L.push(c, nil)
	settle()
}

// NewConn makes a connection that is not accepted yet.
func (e *Env) NewConn() *Conn {
	c := &Conn{e: e, id: len(e.Conns), port: 10000 + len(e.Conns)}
	c.cond = sync.NewCond(&c.mu)
	e.Conns = append(e.Conns, c)
	return c
}

// Finish ends everything so that no goroutine is left.
func (e *Env) Finish() {
	for _, s := range e.Stores {
		s.mu.Lock()
		s.done = true
		s.gated = false
		if s.cond != nil {
			s.cond.Broadcast()
		}
		s.mu.Unlock()
	}
	for _, c := range e.Conns {
		c.mu.Lock()
		c.rerr = errors.New("connection reset by peer")
		c.segs = nil
		c.werr = errors.New("broken pipe")
		c.wgate = false
		c.cond.Broadcast()
		c.mu.Unlock()
	}
	_ = e.Srv.Stop()
	_ = e.L.Close()
	settle()
	d := e.ttl + time.Second
	for _, s := range e.Stores {
		d += 4 * s.Delay
	}
	e.Sleep(d) // handlers of ended connections wait for the idle limit
}

// ---- listener -----------------------------------------------------------------------------------------

type acc struct {
	c   *Conn
	err error
}

// Listener hands out connections.
type Listener struct {
	e       *Env
	mu      sync.Mutex
	cond    *sync.Cond
	q       []acc
	closed  bool
	Addr_   string
	accepts int
	late    int // Accept calls after close
}

func (l *Listener) push(c *Conn, err error) {
	l.mu.Lock()
	l.q = append(l.q, acc{c, err})
	l.cond.Broadcast()
	l.mu.Unlock()
}

// Accept implements net.Listener.
func (l *Listener) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for {
		if l.closed {
			l.late++
			if l.late > 200 { // do not let a spinning accept loop run forever
				l.mu.Unlock()
				l.e.add(Event{Kind: "spin", Conn: -1})
				time.Sleep(1000 * time.Hour)
				l.mu.Lock()
			}
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
		}
		if len(l.q) > 0 {
			a := l.q[0]
			l.q = l.q[1:]
			if a.err != nil {
				return nil, a.err
			}
			l.accepts++
			l.e.add(Event{Kind: "accept", Conn: a.c.id})
			return a.c, nil
		}
		l.cond.Wait()
	}
}

// Close implements net.Listener.
func (l *Listener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	l.closed = true
	l.cond.Broadcast()
	return nil
}

// Addr implements net.Listener.
func (l *Listener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }

// ---- connection ---------------------------------------------------------------------------------------

// Conn is the server's side of a connection.
type Conn struct {
	e      *Env
	id     int
	port   int // of the peer
	mu     sync.Mutex
	cond   *sync.Cond
	segs   [][]byte
	eof    bool
	rerr   error
	closed bool
	closeT time.Duration
	rdl    time.Time
	rtimer *time.Timer
	wdl    time.Time
	out    []byte
	outAt  []time.Duration
	werr   error // writes fail
	wgate  bool  // writes wait
	wtok   int   // writes let through in spite of wgate
	wwait  int
	reads  int
	idle   bool // a read waits
	part   int  // if > 0, writes accept at most this many bytes and then fail
}

// Feed makes a segment available.
func (c *Conn) Feed(seg []byte) {
	c.mu.Lock()
	c.segs = append(c.segs, append([]byte{}, seg...))
	c.cond.Broadcast()
	c.mu.Unlock()
}

// Send feeds a segment and lets the server work.
func (c *Conn) Send(seg []byte) { c.Feed(seg); settle() }

// EOF closes the peer's direction.
func (c *Conn) EOF() {
	c.mu.Lock()
	c.eof = true
	c.cond.Broadcast()
	c.mu.Unlock()
	settle()
}

// Reset breaks the connection.
func (c *Conn) Reset() {
	c.mu.Lock()
	c.rerr = &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", errors.New("connection reset by peer"))}
	c.werr = &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", errors.New("broken pipe"))}
	c.wgate = false
	c.cond.Broadcast()
	c.mu.Unlock()
	settle()
}

// Closed tells whether and when the server closed the connection.
func (c *Conn) Closed() (bool, time.Duration) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed, c.closeT
}

// Out is everything the server wrote.
func (c *Conn) Out() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]byte{}, c.out...)
}

// Pending is what the server has not read yet.
func (c *Conn) Pending() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for _, s := range c.segs {
		n += len(s)
	}
	return n
}

// Gate makes writes wait (on) or continue (off).
func (c *Conn) Gate(on bool) {
	c.mu.Lock()
	c.wgate = on
	c.cond.Broadcast()
	c.mu.Unlock()
}

// Take lets n gated writes through.
func (c *Conn) Take(n int) {
	c.mu.Lock()
	c.wtok += n
	c.cond.Broadcast()
	c.mu.Unlock()
	settle()
}

// Waiting tells how many writes wait.
func (c *Conn) Waiting() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.wwait
}

// FailWrites makes all further writes fail.
func (c *Conn) FailWrites(err error) {
	c.mu.Lock()
	c.werr = err
	c.cond.Broadcast()
	c.mu.Unlock()
}

func passed(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

// Read implements net.Conn.
func (c *Conn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.reads++
	for {
		if c.closed {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
		}
		if len(b) == 0 {
			return 0, nil
		}
		if passed(c.rdl) {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
		}
		for len(c.segs) > 0 && len(c.segs[0]) == 0 {
			c.segs = c.segs[1:]
		}
		if len(c.segs) > 0 {
			n := copy(b, c.segs[0])
			c.segs[0] = c.segs[0][n:]
			return n, nil
		}
		if c.rerr != nil {
			return 0, c.rerr
		}
		if c.eof {
			return 0, io.EOF
		}
		c.idle = true
		if c.e.poke != nil {
			c.e.poke()
		}
		c.cond.Wait()
		c.idle = false
	}
}

// Write implements net.Conn.
func (c *Conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	c.wwait++
	orig := string(b)
	for c.wgate && c.wtok == 0 && c.werr == nil && !c.closed && !passed(c.wdl) {
		c.cond.Wait()
	}
	if c.wgate && c.wtok > 0 {
		c.wtok--
	}
	c.wwait--
	if string(b) != orig {
		c.e.add(Event{Kind: "changed", Conn: c.id, Data: append([]byte{}, b...)})
	}
	if c.closed || c.werr != nil {
		err := c.werr
		if c.closed {
			err = net.ErrClosed
		}
		c.mu.Unlock()
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: err}
	}
	if passed(c.wdl) {
		c.mu.Unlock()
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded}
	}
	if c.part > 0 && len(b) > c.part {
		c.out = append(c.out, b[:c.part]...)
		n := c.part
		c.werr = errors.New("connection reset by peer")
		c.mu.Unlock()
		return n, &net.OpError{Op: "write", Net: "tcp", Err: errors.New("connection reset by peer")}
	}
	c.out = append(c.out, b...)
	c.mu.Unlock()
	c.e.add(Event{Kind: "write", Conn: c.id, Data: append([]byte{}, b...)})
	return len(b), nil
}

// Close implements net.Conn.
func (c *Conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	c.closed = true
	c.closeT = time.Since(c.e.start)
	if c.rtimer != nil {
		c.rtimer.Stop()
	}
	c.cond.Broadcast()
	c.e.add(Event{Kind: "close", Conn: c.id})
	if c.e.poke != nil {
		c.e.poke()
	}
	return nil
}

// LocalAddr implements net.Conn.
func (c *Conn) LocalAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }

// RemoteAddr implements net.Conn.
func (c *Conn) RemoteAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: c.port}
}

// SetReadDeadline implements net.Conn.
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	c.rdl = t
	if c.rtimer != nil {
		c.rtimer.Stop()
		c.rtimer = nil
	}
	if !t.IsZero() {
		c.rtimer = time.AfterFunc(time.Until(t), func() {
			c.mu.Lock()
			c.cond.Broadcast()
			c.mu.Unlock()
		})
	}
	c.cond.Broadcast()
	return nil
}

// SetWriteDeadline implements net.Conn.
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.wdl = t
	if !t.IsZero() {
		time.AfterFunc(time.Until(t), func() {
			c.mu.Lock()
			c.cond.Broadcast()
			c.mu.Unlock()
		})
	}
	return nil
}

// SetDeadline implements net.Conn.
func (c *Conn) SetDeadline(t time.Time) error {
	_ = c.SetWriteDeadline(t)
	return c.SetReadDeadline(t)
}

// ---- store --------------------------------------------------------------------------------------------

// Store is a storage.Saver.
type Store struct {
	e     *Env
	n     int
	mu    sync.Mutex
	cond  *sync.Cond
	gated bool
	done  bool
	wait  []int // ids of saves that wait
	free  map[int]bool
	next  int
	// Fail decides whether save number k fails.
	Fail func(k int) error
	// Delay makes saves slow.
	Delay time.Duration
	// Lean replaces everything else.
	Lean func(m interface{ ToBytes() ([]byte, error) }) error
}

// Gate makes saves wait until they are released.
func (s *Store) Gate() {
	s.mu.Lock()
	s.gated = true
	s.free = map[int]bool{}
	s.cond = sync.NewCond(&s.mu)
	s.mu.Unlock()
}

// Waiting lists the saves that wait.
func (s *Store) Waiting() []int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]int{}, s.wait...)
}

// Release lets a save continue.
func (s *Store) Release(k int) {
	s.mu.Lock()
	s.free[k] = true
	s.cond.Broadcast()
	s.mu.Unlock()
}

// Save implements storage.Saver.
func (s *Store) Save(m interface{ ToBytes() ([]byte, error) }) error {
	if s.Lean != nil {
		return s.Lean(m)
	}
	b, err := m.ToBytes()
	if err != nil {
		b = []byte("unserialisable: " + err.Error())
	}
	s.mu.Lock()
	id := s.next
	s.next++
	s.mu.Unlock()
	s.e.add(Event{Kind: "save", Conn: -1, N: s.n, Data: append([]byte{}, b...)})
	if s.Delay > 0 {
		time.Sleep(s.Delay)
	}
	s.mu.Lock()
	if s.gated && !s.done {
		s.wait = append(s.wait, id)
		for s.gated && !s.done && !s.free[id] {
			s.cond.Wait()
		}
		for i, x := range s.wait {
			if x == id {
				s.wait = append(s.wait[:i], s.wait[i+1:]...)
				break
			}
		}
	}
	s.mu.Unlock()
	if b2, err := m.ToBytes(); err == nil && string(b2) != string(b) {
		s.e.add(Event{Kind: "changed", Conn: -1, N: s.n, Data: b2})
	}
	if s.Fail != nil {
		err = s.Fail(id)
	} else {
		err = nil
	}
	s.e.add(Event{Kind: "saved", Conn: -1, N: s.n, Data: append([]byte{}, b...)})
	return err
}

// Saves gives the records a store got.
func (e *Env) Saves(n int) []Nav {
	var out []Nav
	for _, v := range e.Log() {
		if v.Kind == "save" && v.N == n {
			out = append(out, parseNav(v.Data))
		}
	}
	return out
}

// SavesFrom is Saves(n)[m:].
func (e *Env) SavesFrom(n, m int) []Nav {
	var out []Nav
	for _, v := range e.Log() {
		if v.Kind == "save" && v.N == n {
			if m--; m < 0 {
				out = append(out, parseNav(v.Data))
			}
		}
	}
	return out
}

// SaveCount is len(Saves(n)).
func (e *Env) SaveCount(n int) int {
	k := 0
	for _, v := range e.Log() {
		if v.Kind == "save" && v.N == n {
			k++
		}
	}
	return k
}

// Nav is a stored record as read back from its serialised form.
type Nav struct {
	Client   uint64  `json:"client"`
	PacketID uint64  `json:"packet_id"`
	NavT     int64   `json:"navigation_unix_time"`
	RecvT    int64   `json:"received_unix_time"`
	Lat      float64 `json:"latitude"`
	Lon      float64 `json:"longitude"`
	Speed    uint64  `json:"speed"`
	Pdop     uint64  `json:"pdop"`
	Hdop     uint64  `json:"hdop"`
	Vdop     uint64  `json:"vdop"`
	Nsat     uint64  `json:"nsat"`
	Ns       uint64  `json:"ns"`
	Course   uint64  `json:"course"`
	An       []An    `json:"an_sensors"`
	Liq      []Liq   `json:"liquid_sensors"`
	bad      string
}

// An is an analog sensor.
type An struct {
	N uint64 `json:"sensor_number"`
	V uint64 `json:"value"`
}

// Liq is a liquid sensor.
type Liq struct {
	N   uint64 `json:"sensor_number"`
	Err string `json:"error_flag"`
	Mm  uint64 `json:"value_mm"`
	L   uint64 `json:"value_l"`
}

func parseNav(b []byte) Nav {
	var n Nav
	if err := json.Unmarshal(b, &n); err != nil {
		n.bad = fmt.Sprintf("%v: %s", err, b)
	}
	return n
}
