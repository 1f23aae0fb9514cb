package plug

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verifharness/mc"
)

// RacePair runs two saves of a store without synchronisation between them; it is built with the race detector.
func RacePair(k, depth int) string {
	d := Defs[k]
	s := d.start()
	defer s.Stop()
	st := d.New()
	if err := st.Init(d.config(s)); err != nil {
		return fmt.Sprintf("%s: Init with a healthy server: %v", d.Name, err)
	}
	for j := 0; j < depth; j++ { // connections and caches of earlier saves
		if err := st.Save(rec(10 + j)); err != nil {
			return fmt.Sprintf("%s: Save with a healthy server: %v", d.Name, err)
		}
	}
	a, b := rec(1), rec(2)
	wa, _ := a.ToBytes()
	wb, _ := b.ToBytes()
	var ea, eb error
	done := make(chan bool, 2)
	go func() { ea = st.Save(a); done <- true }()
	go func() { eb = st.Save(b); done <- true }()
	<-done
	<-done
	if ea != nil || eb != nil {
		return fmt.Sprintf("%s: two saves at once with a healthy server: %v, %v", d.Name, ea, eb)
	}
	arrived(d, s, depth+2)
	na, _ := count(s.Got(), d.Dest, string(wa))
	nb, _ := count(s.Got(), d.Dest, string(wb))
	if na != 1 || nb != 1 {
		return fmt.Sprintf("%s: two saves at once were sent %d and %d times: %v", d.Name, na, nb, s.Got())
	}
	_ = st.Close()
	return ""
}

// ours tells whether a report of the race detector has an access of the stores' own code: the innermost frame that
// is not part of the Go runtime or library.
func ours(report string) bool {
	root := filepath.Join(os.Getenv("GOROOT"), "src")
	lines := strings.Split(report, "\n")
	look := false
	for k, l := range lines {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "Read at"), strings.HasPrefix(t, "Write at"), strings.HasPrefix(t, "Previous read at"), strings.HasPrefix(t, "Previous write at"):
			look = true
		case t == "":
			look = false
		case look && strings.Contains(t, "(") && !strings.HasPrefix(t, "/") && k+1 < len(lines):
			file := strings.TrimSpace(lines[k+1])
			if strings.Contains(file, "/go1.") && strings.Contains(file, "/src/") || strings.HasPrefix(file, root) {
				continue
			}
			look = false
			if strings.Contains(t, "kuznetsovin/egts-protocol/") {
				return true
			}
		}
	}
	return false
}

func raceSpace(d *Def, k int) mc.Space {
	bin := filepath.Join(os.Getenv("VERIF_SCRATCH"), "race")
	return mc.Space{Name: "race/" + d.Name, N: 3, Do: func(c *mc.C, i uint64) {
		c.Describe("%s: two saves at once after %d others, under the race detector", d.Name, i)
		cmd := exec.Command(bin, "race", fmt.Sprint(k), fmt.Sprint(i))
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0")
		t := time.AfterFunc(5*time.Minute, func() { _ = cmd.Process.Kill() })
		b, err := cmd.CombinedOutput()
		t.Stop()
		out := string(b)
		c.Op(2)
		switch {
		case ours(out):
			c.Failf("%s: two saves at once access the same memory without synchronisation: %.1500s", d.Name, out[max(0, strings.Index(out, "WARNING: DATA RACE")):])
		case strings.Contains(out, "VERDICT "):
			c.Failf("%.600s", out[strings.Index(out, "VERDICT ")+8:])
		case err != nil || !strings.Contains(out, "DONE"):
			c.Failf("harness: race runner ended with %v: %.600s", err, out)
		}
		c.StateS('r', fmt.Sprint(d.Name, i))
		c.Outcome("no unsynchronised access")
	}}
}
