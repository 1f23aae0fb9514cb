package codec

import (
	log "github.com/sirupsen/logrus"
	"verifharness/mc"
)

// WithLog gives the spaces again with everything logged (into nothing): what is only done to log it must change
// nothing else.
func WithLog(spaces ...mc.Space) []mc.Space {
	var out []mc.Space
	for _, s := range spaces {
		do := s.Do
		s.Name = "logged/" + s.Name
		s.Do = func(c *mc.C, i uint64) {
			log.SetLevel(log.TraceLevel)
			defer log.SetLevel(log.PanicLevel)
			do(c, i)
		}
		out = append(out, s)
	}
	return out
}

// named picks spaces by their names.
func named(spaces []mc.Space, names ...string) []mc.Space {
	var out []mc.Space
	for _, s := range spaces {
		for _, n := range names {
			if s.Name == n {
				out = append(out, s)
			}
		}
	}
	if len(out) < len(names) {
		panic("no such space")
	}
	return out
}
