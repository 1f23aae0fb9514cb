// Package plug decides the properties of the store plugins (C17) by running the real plugins against servers that
// speak the stores' protocols on the loopback interface, keep what they accept, and fail as a fault sequence says.
package plug

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// Fault is what a server does with a message.
type Fault int

// What a server does with a message.
const (
	OK         Fault = iota
	Reject           // refuses it
	DropBefore       // goes away without accepting it
	DropAfter        // accepts it and goes away without answering
	DropMid          // accepts it and goes away in the middle of the answer
)

var faultNames = []string{"ok", "rejected", "connection closed before it was accepted", "connection closed before the answer", "connection closed inside the answer"}

// Msg is an accepted message.
type Msg struct {
	Dest  string // queue, topic, table or exchange/key
	Body  string
	Whole bool // the answer was sent completely
}

// Login is what a client authenticated with.
type Login struct{ User, Pass, DB string }

// Server is a fake server.
type Server struct {
	l      net.Listener
	proto  func(*Server, *Peer) error
	mu     sync.Mutex
	cond   *sync.Cond
	msgs   []Msg
	logins []Login
	bad    []string // what the server did not understand
	peers  map[*Peer]bool
	away   bool
	// behaviour
	fault  Fault
	after  Fault // of the message after the next
	late   bool  // inside a transaction, the fault concerns the commit, not the insertion
	always bool  // the fault concerns every attempt, not only the next one
	want   Login
	auth   bool // ask for credentials
	dieAt  int  // > 0: close the connection at this exchange of the handshake
	hold   int  // answers wait until so many messages were accepted
	first  bool // the answer of the first held message goes first
	tries  int
	seq    int
	code   string // what a refusal says, if not the default
	text   string
	wg     sync.WaitGroup
}

// Refuse sets what refusals say.
func (s *Server) Refuse(code, text string) {
	s.mu.Lock()
	s.code, s.text = code, text
	s.mu.Unlock()
}

// refusal is what a refusal says.
func (s *Server) refusal(code, text string) (string, string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.code != "" {
		return s.code, s.text
	}
	return code, text
}

func (s *Server) refuse(code, text string) string {
	code, text = s.refusal(code, text)
	return code + " " + text
}

// Peer is a connection of a server.
type Peer struct {
	s  *Server
	c  net.Conn
	r  *bufio.Reader
	hs int
}

var errDie = fmt.Errorf("closed on purpose")

// IP is a loopback address no other process uses, so that a port without a server stays without one.
func IP() string {
	pid := os.Getpid()
	return fmt.Sprintf("127.%d.%d.251", 20+pid%200, 1+pid/200%250)
}

// NewServer starts a server.
func NewServer(proto func(*Server, *Peer) error) *Server {
	l, err := net.Listen("tcp", IP()+":0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	s := &Server{l: l, proto: proto, peers: map[*Peer]bool{}}
	s.cond = sync.NewCond(&s.mu)
	s.wg.Add(1)
	go s.accept(l)
	return s
}

func (s *Server) accept(l net.Listener) {
	defer s.wg.Done()
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		p := &Peer{s: s, c: c, r: bufio.NewReader(c)}
		s.mu.Lock()
		if s.away { // it was accepted while the server went away
			s.mu.Unlock()
			_ = c.Close()
			continue
		}
		s.peers[p] = true
		s.mu.Unlock()
		s.wg.Add(1)
		go func() {
			defer s.wg.Done()
			err := s.proto(s, p)
			_ = c.Close()
			s.mu.Lock()
			delete(s.peers, p)
			if err != nil && err != errDie && err != io.EOF && err != io.ErrUnexpectedEOF {
				if _, ok := err.(net.Error); !ok {
					s.bad = append(s.bad, err.Error())
				}
			}
			s.cond.Broadcast()
			s.mu.Unlock()
		}()
	}
}

// Addr gives host and port.
func (s *Server) Addr() (string, string) {
	h, p, _ := net.SplitHostPort(s.l.Addr().String())
	return h, p
}

// Kill closes all connections.
func (s *Server) Kill() {
	s.mu.Lock()
	for p := range s.peers {
		_ = p.c.Close()
	}
	for len(s.peers) > 0 {
		s.cond.Wait()
	}
	s.mu.Unlock()
}

// Down stops listening and closes all connections.
func (s *Server) Down() {
	s.mu.Lock()
	s.away = true
	s.mu.Unlock()
	_ = s.l.Close()
	s.Kill()
}

// Up listens again at the same address.
func (s *Server) Up() {
	for k := 0; ; k++ {
		l, err := net.Listen("tcp", s.l.Addr().String())
		if err == nil {
			s.mu.Lock()
			s.l, s.away = l, false
			s.mu.Unlock()
			s.wg.Add(1)
			go s.accept(l)
			return
		}
		if k > 50 {
			panic("harness: " + err.Error())
		}
	}
}

// Stop ends the server.
func (s *Server) Stop() {
	s.mu.Lock()
	s.hold = 0
	s.cond.Broadcast()
	s.mu.Unlock()
	s.Down()
	s.wg.Wait()
}

// Set prepares what happens to the next messages.
func (s *Server) Set(f Fault, always bool) {
	s.mu.Lock()
	s.fault, s.always = f, always
	s.mu.Unlock()
}

// Late makes the next fault concern the commit of a transaction.
func (s *Server) Late(l bool) {
	s.mu.Lock()
	s.late = l
	s.mu.Unlock()
}

func (s *Server) isLate() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.late
}

// inTx is the fault of an insertion inside a transaction.
func (s *Server) inTx() Fault {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.late {
		return OK
	}
	f := s.fault
	if !s.always {
		s.fault, s.after = s.after, OK
	}
	return f
}

// Pair makes the answers to the next two messages wait for each other; they get faults a and b.
func (s *Server) Pair(a, b Fault, firstFirst bool) {
	s.mu.Lock()
	s.hold, s.seq, s.first = 2, 0, firstFirst
	s.fault, s.after, s.always = a, b, false
	s.mu.Unlock()
	time.AfterFunc(time.Second, func() { // they may come one after the other
		s.mu.Lock()
		s.hold = 0
		s.cond.Broadcast()
		s.mu.Unlock()
	})
}

func (s *Server) holding() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.hold > 0
}

// Got is what was accepted so far.
func (s *Server) Got() []Msg {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Msg{}, s.msgs...)
}

// Logins are the credentials of all connections so far.
func (s *Server) Logins() []Login {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Login{}, s.logins...)
}

// Bad is what was not understood.
func (s *Server) Bad() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string{}, s.bad...)
}

func (s *Server) login(l Login) {
	s.mu.Lock()
	s.logins = append(s.logins, l)
	s.mu.Unlock()
}

func (s *Server) odd(f string, a ...interface{}) {
	s.mu.Lock()
	s.bad = append(s.bad, fmt.Sprintf(f, a...))
	s.mu.Unlock()
}

// message handles a message: it is accepted or not, and the answer ok or the answer no is sent.
func (p *Peer) message(dest string, body []byte, ok, no []byte) error {
	s := p.s
	s.mu.Lock()
	f := s.fault
	if !s.always {
		s.fault, s.after = s.after, OK
	}
	s.tries++
	if f == OK || f == DropAfter || f == DropMid {
		s.msgs = append(s.msgs, Msg{Dest: dest, Body: string(body)})
	}
	at := len(s.msgs) - 1
	if s.hold > 0 { // both messages arrive before either is answered
		s.seq++
		me := s.seq
		s.cond.Broadcast()
		for s.hold > 0 && s.seq < s.hold {
			s.cond.Wait()
		}
		for s.hold > 0 && (me == 1) != s.first && s.seq < s.hold+1 { // the other goes first
			s.cond.Wait()
		}
	}
	if f == OK {
		s.msgs[at].Whole = true
	}
	s.mu.Unlock()
	defer func() {
		s.mu.Lock()
		s.seq++
		s.cond.Broadcast()
		s.mu.Unlock()
	}()
	switch f {
	case OK:
		return p.send(ok)
	case Reject:
		return p.send(no)
	case DropMid:
		if len(ok) > 1 {
			_ = p.send(ok[:len(ok)/2])
		}
	}
	return errDie
}

// step is called at every exchange of the handshake.
func (p *Peer) step() error {
	p.hs++
	p.s.mu.Lock()
	defer p.s.mu.Unlock()
	if p.s.dieAt > 0 && p.hs >= p.s.dieAt {
		return errDie
	}
	return nil
}

func (p *Peer) send(b []byte) error {
	if len(b) == 0 {
		return nil
	}
	_, err := p.c.Write(b)
	return err
}

func (p *Peer) line() (string, error) {
	l, err := p.r.ReadString('\n')
	if err != nil {
		return "", err
	}
	l = l[:len(l)-1]
	if len(l) > 0 && l[len(l)-1] == '\r' {
		l = l[:len(l)-1]
	}
	return l, nil
}

func (p *Peer) read(n int) ([]byte, error) {
	b := make([]byte, n)
	_, err := io.ReadFull(p.r, b)
	return b, err
}
