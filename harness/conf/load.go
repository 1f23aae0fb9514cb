package conf

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
	"verifharness/mc"
	"verifharness/plug"
)

// state of a store in a configuration.
const (
	absent = iota
	good
	bad1 // its server is not there, or (lazy stores) a necessary setting is missing
	bad2 // no settings at all
)

var unknown = []string{"", "Redis", "postgres", "clickhouse", "redis ", "log", "NATS", "rabbitmq2"}

// setup starts the servers of a configuration.
type setup struct {
	srv [6]*plug.Server
	cfg map[string]map[string]string
	bad bool
}

func (s *setup) stop() {
	for _, x := range s.srv {
		if x != nil {
			x.Stop()
		}
	}
}

func prepare(states [6]int, unk string, hasUnk bool, extra ...string) *setup {
	s := &setup{cfg: map[string]map[string]string{}}
	for k, d := range plug.Defs {
		switch states[k] {
		case absent:
			// its server runs, but is not named
			s.srv[k] = d.Start()
		case good:
			s.srv[k] = d.Start()
			s.cfg[d.Name] = d.Config(s.srv[k])
			if len(extra) == 2 {
				s.cfg[d.Name][extra[0]] = extra[1]
			}
		case bad1:
			s.bad = true
			x := d.Start()
			cfg := d.Config(x)
			x.Stop()
			if d.Lazy {
				delete(cfg, "queue")
			}
			s.cfg[d.Name] = cfg
		case bad2:
			s.bad = true
			s.cfg[d.Name] = nil
		}
	}
	if hasUnk {
		s.bad = true
		s.cfg[unk] = map[string]string{"host": "127.0.0.1"}
	}
	return s
}

func describe(states [6]int, unk string, hasUnk bool) string {
	var l []string
	for k, d := range plug.Defs {
		if states[k] != absent {
			l = append(l, d.Name+" "+[]string{"", "healthy", "away", "without settings"}[states[k]])
		}
	}
	if hasUnk {
		l = append(l, fmt.Sprintf("unknown %q", unk))
	}
	return "[" + strings.Join(l, ", ") + "]"
}

func within(c *mc.C, what string, f func() error) (err error, ok bool) {
	ch := make(chan error, 1)
	crash := make(chan interface{}, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				crash <- r
			}
		}()
		ch <- f()
	}()
	select {
	case err := <-ch:
		return err, true
	case r := <-crash:
		c.Failf("%s crashes: %v", what, r)
	case <-time.After(60 * time.Second):
		c.Failf("%s does not end", what)
	}
	return nil, false
}

// loaded checks the repository made of a configuration.
func loaded(c *mc.C, states [6]int, unk string, hasUnk bool, extra ...string) {
	what := "stores " + describe(states, unk, hasUnk)
	if len(extra) == 2 {
		what += fmt.Sprintf(", %s: %q", extra[0], extra[1])
	}
	c.Describe("%s", what)
	s := prepare(states, unk, hasUnk, extra...)
	defer s.stop()
	r := storage.NewRepository()
	err, ok := within(c, what+": loading", func() error { return r.LoadStorages(s.cfg) })
	if !ok {
		return
	}
	c.Op(1)
	switch {
	case err == nil && (s.bad || len(s.cfg) == 0):
		c.Failf("%s: loading reports nothing", what)
		return
	case err != nil && !s.bad && len(s.cfg) > 0:
		c.Failf("%s: loading fails: %v", what, err)
		return
	}
	if hasUnk && len(s.cfg) == 1 && !errors.Is(err, storage.UnknownStorage) {
		c.Failf("%s: loading reports %v", what, err)
	}
	if len(s.cfg) == 0 && !errors.Is(err, storage.InvalidStorage) {
		c.Failf("%s: loading reports %v", what, err)
	}
	total := 2
	for n := 0; n < total; n++ {
		m := plug.Rec(n)
		if err, ok := within(c, what+": saving", func() error { return r.Save(m) }); !ok {
			return
		} else if err != nil {
			c.Failf("%s: saving fails: %v", what, err)
			return
		}
		c.Op(1)
	}
	for k, d := range plug.Defs {
		if s.srv[k] == nil {
			continue
		}
		want := 0
		if states[k] == good {
			want = 1
			d.Arrived(s.srv[k], total)
		}
		for n := 0; n < total; n++ {
			b, _ := plug.Rec(n).ToBytes()
			if got := d.Count(s.srv[k], string(b)); got != want {
				c.Failf("%s: record %d was sent %d times to %s instead of %d", what, n, got, d.Name, want)
			}
		}
		if got := s.srv[k].Got(); len(got) != want*total {
			c.Failf("%s: %s got %v", what, d.Name, got)
		}
		if states[k] == absent && len(s.srv[k].Logins()) > 0 {
			c.Failf("%s: %s was connected", what, d.Name)
		}
		if b := s.srv[k].Bad(); len(b) > 0 {
			c.Failf("%s: %s does not understand %v", what, d.Name, b)
		}
	}
	c.Trace()
	c.StateS('l', what)
	c.Outcome(fmt.Sprintf("error %v", err != nil))
}

func states(i uint64, base int) (s [6]int) {
	for k := range s {
		s[k] = int(i % uint64(base))
		i /= uint64(base)
	}
	return
}

var others = [][2]string{{"enabled", "false"}, {"enabled", "0"}, {"enable", "no"}, {"disabled", "true"}, {"active", "0"}, {"off", "1"}, {"skip", "yes"}, {"comment", "text"}, {"type", "none"}, {"name", "other"}, {"plugin", "x.so"}, {"storage", "log"}, {"", "x"}}

func loadSpaces(th bool) []mc.Space {
	out := []mc.Space{{Name: "stores/none", N: 2, Do: func(c *mc.C, i uint64) {
		r := storage.NewRepository()
		var m map[string]map[string]string
		if i == 1 {
			m = map[string]map[string]string{}
		}
		err, ok := within(c, "loading no stores", func() error { return r.LoadStorages(m) })
		c.Op(1)
		if ok && !errors.Is(err, storage.InvalidStorage) {
			c.Failf("loading no stores reports %v", err)
		}
		c.StateS('l', fmt.Sprint("none", i))
	}}}
	// every subset of healthy stores, three times
	out = append(out, mc.Space{Name: "stores/healthy", N: 64 * 3, Do: func(c *mc.C, i uint64) { loaded(c, states(i%64, 2), "", false) }})
	// settings that mean nothing to a store change nothing
	out = append(out, mc.Space{Name: "stores/other settings", N: uint64(len(others)) * 7, Do: func(c *mc.C, i uint64) {
		st := [6]int{1, 1, 1, 1, 1, 1}
		if k := i / uint64(len(others)); k < 6 {
			st = [6]int{}
			st[k] = good
		}
		x := others[i%uint64(len(others))]
		loaded(c, st, "", false, x[0], x[1])
	}})
	// every assignment of absent, healthy, unusable, with and without an unknown name
	n := uint64(729)
	reps := uint64(1)
	if th {
		n, reps = 4096, 3
	}
	base := 3
	if th {
		base = 4
	}
	out = append(out, mc.Space{Name: "stores/unusable", N: n * 2 * reps, Do: func(c *mc.C, i uint64) {
		s := states(i%n, base)
		if !th && i%2 == 1 { // the other way of not being usable
			for k := range s {
				if s[k] == bad1 && (uint64(k)+i/2)%2 == 0 {
					s[k] = bad2
				}
			}
		}
		loaded(c, s, unknown[i/7%uint64(len(unknown))], i/n%2 == 1)
	}})
	// one unusable among all, every way, several times: the order must not matter
	out = append(out, mc.Space{Name: "stores/one unusable", N: 6 * 2 * 8, Do: func(c *mc.C, i uint64) {
		s := [6]int{1, 1, 1, 1, 1, 1}
		s[i%6] = bad1 + int(i/6%2)
		loaded(c, s, "", false)
	}})
	out = append(out, mc.Space{Name: "stores/unknown", N: uint64(len(unknown)) * 7, Do: func(c *mc.C, i uint64) {
		var s [6]int
		if k := i / uint64(len(unknown)); k < 6 {
			s[k] = good
		}
		loaded(c, s, unknown[i%uint64(len(unknown))], true)
	}})
	return out
}
