package plug

import "github.com/kuznetsovin/egts-protocol/cli/receiver/storage"

// Start runs a healthy server of the store.
func (d *Def) Start() *Server { return d.start() }

// Config are the settings that lead to the server.
func (d *Def) Config(s *Server) map[string]string { return d.config(s) }

// Rec is a record.
func Rec(n int) *storage.NavRecord { return rec(n) }

// Count tells how often a body was accepted.
func (d *Def) Count(s *Server, body string) int {
	n, _ := count(s.Got(), d.Dest, body)
	return n
}

// Arrived waits for n messages.
func (d *Def) Arrived(s *Server, n int) { arrived(d, s, n) }
