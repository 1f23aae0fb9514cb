package srv

import (
	"fmt"
	"net"
	"os"
	"runtime"
	"time"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/server"
)

// NKinds is the number of packet kinds of concurrency executions.
func NKinds() int { return len(ckinds) }

// rconn is a connection that shares nothing with others: its data is there from the start, what is written is
// kept. Its methods do not synchronise, so that the race detector sees the handlers as unordered.
type rconn struct {
	id   int
	in   []byte
	out  []byte
	done chan struct{}
}

func (c *rconn) Read(b []byte) (int, error) {
	if len(c.in) == 0 {
		return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrClosed}
	}
	n := copy(b, c.in)
	c.in = c.in[n:]
	return n, nil
}
func (c *rconn) Write(b []byte) (int, error) { c.out = append(c.out, b...); return len(b), nil }
func (c *rconn) Close() error {
	select {
	case <-c.done:
	default:
		close(c.done)
	}
	return nil
}
func (c *rconn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *rconn) RemoteAddr() net.Addr               { return &net.TCPAddr{Port: c.id} }
func (c *rconn) SetDeadline(t time.Time) error      { return nil }
func (c *rconn) SetReadDeadline(t time.Time) error  { return nil }
func (c *rconn) SetWriteDeadline(t time.Time) error { return nil }

type rlist struct{ q chan net.Conn }

func (l *rlist) Accept() (net.Conn, error) {
	c, ok := <-l.q
	if !ok {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
	return c, nil
}
func (l *rlist) Close() error   { return nil }
func (l *rlist) Addr() net.Addr { return &net.TCPAddr{} }

// rstore keeps what each connection stores apart.
type rstore struct{ got [3][][]byte }

func (s *rstore) Save(m interface{ ToBytes() ([]byte, error) }) error {
	b, err := m.ToBytes()
	k := ownerOf(parseNav(b))
	if k >= 0 && k < 3 {
		s.got[k] = append(s.got[k], b)
	}
	return err
}

// RacePair serves three connections at once, the packets of kind a on the first, b on the second and both on the
// third, and compares each with the model.
func RacePair(a, b int) string {
	st := &rstore{}
	repo := newRepo()
	repo.AddStore(st)
	l := &rlist{make(chan net.Conn, 3)}
	ListenHook(func(network, address string) (net.Listener, error) { return l, nil })
	s := server.New("127.0.0.1:1", time.Hour, repo)
	var cs [3]*rconn
	var all [3][]byte
	for k, ks := range [][]int{{a, b, a}, {b, b, a}, {a, b, b, 1}} {
		for n, x := range ks {
			all[k] = append(all[k], ckinds[x].mk(k, n)...)
		}
		cs[k] = &rconn{id: k, in: append([]byte{}, all[k]...), done: make(chan struct{})}
		l.q <- cs[k]
	}
	close(l.q)
	go s.Run()
	for k, c := range cs {
		select {
		case <-c.done:
		case <-time.After(20 * time.Second):
			buf := make([]byte, 1<<14)
			return fmt.Sprintf("connection %d is not finished\n%s", k, buf[:runtime.Stack(buf, true)])
		}
	}
	for k, c := range cs {
		e := Model(all[k])
		var got []Nav
		for _, x := range st.got[k] {
			got = append(got, parseNav(x))
		}
		want := e.Saves()
		if len(got) != len(want) {
			return fmt.Sprintf("connection %d: %d records stored instead of %d", k, len(got), len(want))
		}
		for j := range want {
			if m := SameNav(got[j], want[j]); m != "" {
				return fmt.Sprintf("connection %d: stored record %d: %s", k, j, m)
			}
		}
		rep, wr := ParseReplies(c.out), e.Replies()
		if len(rep) != len(wr) {
			return fmt.Sprintf("connection %d: %d replies instead of %d", k, len(rep), len(wr))
		}
		for j := range wr {
			if m := SameReply(rep[j], wr[j]); m != "" {
				return fmt.Sprintf("connection %d: reply %d: %s", k, j, m)
			}
		}
	}
	return ""
}
