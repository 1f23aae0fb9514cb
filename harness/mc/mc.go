// Package mc is the exploration engine. A check is a list of finite, index-addressable spaces of executions;
// every index of every space is executed against the real code. The coordinator process shards the indexes
// over child processes (one worker each, so that an execution is a deterministic function of its index),
// attributes crashes and hangs to the execution that was in flight, replays every candidate violation, and
// writes the evidence file.
package mc

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unicode/utf8"
)

// Space is a finite set of executions.
type Space struct {
	Name string
	N    uint64
	Do   func(c *C, i uint64)
	// Serial spaces are explored by one shard only (a search that prunes as it goes).
	Serial bool
}

// Check is the machinery of one property.
type Check struct {
	ID      string
	Bound   string // what the spaces enumerate, for the evidence
	Assume  []string
	Spaces  func(tier string) []Space
	Workers int           // default: number of CPUs
	Quick   time.Duration // internal deadline, default 5 min
	Thor    time.Duration // default 60 min
	Confirm int           // isolated replays of a candidate (default 5); at least one must fail again
	Strict  bool          // all replays must fail again (executions with real time or real sockets)
	Hang    time.Duration // an execution without progress for this long hangs (default 60 s)
}

// Probe is a context whose findings are dropped.
func Probe() *C {
	return &C{out: map[string]uint64{}, set: &hset{m: map[uint64]struct{}{}}, knownN: map[string]string{}}
}

// C is the context of one execution.
type C struct {
	tier    string
	known   map[string]bool
	trans   uint64
	traces  uint64
	out     map[string]uint64
	set     *hset
	fail    string
	knownN  map[string]string
	Verbose bool
	detail  []string
}

// Op counts operations executed on the implementation (transitions).
func (c *C) Op(n int) { c.trans += uint64(n) }

// Trace counts a reference behaviour that was compared with the implementation.
func (c *C) Trace() { c.traces++ }

// State records a visited state by its canonical bytes.
func (c *C) State(kind byte, b []byte) { c.set.add(Hash(kind, b)) }

// StateS is State for strings.
func (c *C) StateS(kind byte, s string) { c.set.add(hashS(kind, s)) }

// Outcome counts an observed outcome class.
func (c *C) Outcome(s string) { c.out[s]++ }

// Failf reports a violation; the first one of an execution counts.
func (c *C) Failf(f string, a ...interface{}) {
	if c.fail == "" {
		c.fail = printable(fmt.Sprintf(f, a...))
	}
}

// printable writes control characters and bytes that are no text as escapes.
func printable(s string) string {
	var sb strings.Builder
	for k, r := range s {
		switch {
		case r == '\n' || r == '\t' || r >= ' ' && r != 0x7F && r != utf8.RuneError:
			sb.WriteRune(r)
		default:
			fmt.Fprintf(&sb, "\\x%02x", s[k])
		}
	}
	return sb.String()
}

// Failed tells whether this execution already failed.
func (c *C) Failed() bool { return c.fail != "" }

// Known reports behaviour that is a listed finding; if the finding is not listed it is a violation.
func (c *C) Known(id, f string, a ...interface{}) {
	if c.known[id] {
		if _, ok := c.knownN[id]; !ok {
			c.knownN[id] = fmt.Sprintf(f, a...)
		}
		return
	}
	c.Failf(f, a...)
}

// Describe adds a human readable line to the replay of an execution.
func (c *C) Describe(f string, a ...interface{}) {
	if c.Verbose {
		c.detail = append(c.detail, fmt.Sprintf(f, a...))
	}
}

// Thorough tells the tier.
func (c *C) Thorough() bool { return c.tier == "thorough" }

// Hash is a 64-bit hash with a kind.
func Hash(kind byte, b []byte) uint64 {
	h := uint64(14695981039346656037) ^ uint64(kind)*0x9E3779B97F4A7C15
	for len(b) >= 8 {
		h ^= binary.LittleEndian.Uint64(b)
		h *= 0x9FB21C651E98DF25
		h ^= h >> 29
		b = b[8:]
	}
	for _, x := range b {
		h ^= uint64(x) + 1
		h *= 0x100000001B3
	}
	h ^= h >> 32
	h *= 0xD6E8FEB86659FD93
	h ^= h >> 32
	return h
}

func hashS(kind byte, s string) uint64 { return Hash(kind, []byte(s)) }

// hset is a bounded set of hashes.
type hset struct {
	m    map[uint64]struct{}
	over bool
}

const maxStates = 1500000 // per shard

func (s *hset) add(h uint64) {
	if len(s.m) >= maxStates {
		if _, ok := s.m[h]; !ok {
			s.over = true
		}
		return
	}
	s.m[h] = struct{}{}
}

type spaceResult struct {
	Name string `json:"name"`
	N    uint64 `json:"size"`
	Done uint64 `json:"explored"`
}

type violation struct {
	Space string `json:"space"`
	Index uint64 `json:"index"`
	Shard int    `json:"shard"`
	Kind  string `json:"kind"`
	Msg   string `json:"message"`
}

type result struct {
	Spaces   []spaceResult     `json:"spaces"`
	Trans    uint64            `json:"transitions"`
	Traces   uint64            `json:"traces"`
	Out      map[string]uint64 `json:"outcomes"`
	Over     bool              `json:"over"`
	Viol     []violation       `json:"violations"`
	Known    map[string]string `json:"known"`
	Samples  []string          `json:"samples"`
	Complete bool              `json:"complete"`
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Runner lets test binaries supply how an execution is run (e.g. inside a synctest bubble).
type Runner func(do func())

// Main runs the coordinator or a child, depending on the environment. childArgs are the arguments that make
// the binary call Main again in a child process.
func Main(ck Check, childArgs []string, run Runner) int {
	if ck.Workers == 0 {
		ck.Workers = runtime.NumCPU()
	}
	if ck.Quick == 0 {
		ck.Quick = 5 * time.Minute
	}
	if ck.Thor == 0 {
		ck.Thor = 60 * time.Minute
	}
	if ck.Confirm == 0 {
		ck.Confirm = 5
	}
	if ck.Hang == 0 {
		ck.Hang = 60 * time.Second
	}
	if run == nil {
		run = func(do func()) { do() }
	}
	if os.Getenv("MC_CHILD") != "" {
		return child(ck, run)
	}
	return coordinate(ck, childArgs)
}

func loadKnown(id string) map[string]bool {
	m := map[string]bool{}
	b, _ := os.ReadFile(filepath.Join(env("VERIF_DIR", "/verif"), "KNOWN_FINDINGS.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+id {
			m[strings.TrimPrefix(f[2], "id=")] = true
		}
	}
	return m
}

// ---- child --------------------------------------------------------------------------------------------

var progress uint64 // incremented per execution

// Beat tells the watchdog that a long execution is still making progress.
func Beat() { atomic.AddUint64(&progress, 1) }

func child(ck Check, run Runner) int {
	tier := env("VERIF_TIER", "quick")
	shard, _ := strconv.Atoi(env("MC_SHARD", "0"))
	nsh, _ := strconv.Atoi(env("MC_SHARDS", "1"))
	dl, _ := strconv.ParseFloat(env("MC_DEADLINE", "300"), 64)
	dir := os.Getenv("MC_DIR")
	tag := os.Getenv("MC_TAG")
	only := os.Getenv("MC_ONLY") // "space\tindex": run just that one
	upto := os.Getenv("MC_UPTO") // run the shard up to that one
	debug.SetGCPercent(400)
	start := time.Now()

	jf, err := os.OpenFile(filepath.Join(dir, "journal"+tag), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 4
	}
	_ = jf.Truncate(4096)
	jm, err := syscall.Mmap(int(jf.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 4
	}
	note := func(sp int, i uint64, on bool) {
		binary.LittleEndian.PutUint64(jm[0:], uint64(sp))
		binary.LittleEndian.PutUint64(jm[8:], i)
		if on {
			jm[16] = 1
		} else {
			jm[16] = 0
		}
	}
	go func() {
		last, at := uint64(0), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 5<<29 {
				fmt.Fprintln(os.Stderr, "MC: memory grows without bound")
				jm[17] = 2
				os.Exit(3)
			}
			p := atomic.LoadUint64(&progress)
			if p != last {
				last, at = p, time.Now()
			} else if jm[16] == 1 && time.Since(at) > ck.Hang {
				fmt.Fprintln(os.Stderr, "MC: execution does not end")
				buf := make([]byte, 1<<16)
				fmt.Fprintf(os.Stderr, "%s\n", buf[:runtime.Stack(buf, true)])
				jm[17] = 3
				os.Exit(3)
			}
		}
	}()

	res := result{Out: map[string]uint64{}, Known: map[string]string{}, Complete: true}
	c := &C{tier: tier, known: loadKnown(ck.ID), out: res.Out, set: &hset{m: map[uint64]struct{}{}}, knownN: res.Known, Verbose: only != ""}
	spaces := ck.Spaces(tier)
	deadline := start.Add(time.Duration(dl * float64(time.Second)))
	stop := false
	exec1 := func(si int, s *Space, i uint64) {
		note(si, i, true)
		atomic.AddUint64(&progress, 1)
		c.fail = ""
		c.detail = nil
		run(func() {
			defer func() {
				if r := recover(); r != nil {
					c.Failf("panic: %v\n%s", r, trim(string(debug.Stack()), 3000))
				}
			}()
			s.Do(c, i)
		})
		note(si, i, false)
		if c.fail != "" {
			res.Viol = append(res.Viol, violation{Space: s.Name, Index: i, Shard: shard, Kind: "oracle", Msg: c.fail})
			if len(res.Viol) >= 3 {
				stop = true
			}
		}
	}
	if only != "" {
		p := strings.SplitN(only, "\t", 2)
		idx, _ := strconv.ParseUint(p[1], 10, 64)
		found := false
		for si := range spaces {
			if spaces[si].Name == p[0] {
				found = true
				exec1(si, &spaces[si], idx)
				if os.Getenv("MC_SHOW") != "" {
					for _, d := range c.detail {
						fmt.Println(d)
					}
				}
				res.Samples = c.detail
			}
		}
		if !found {
			fmt.Fprintln(os.Stderr, "no such space", p[0])
			return 4
		}
	} else {
	outer:
		for si := range spaces {
			s := &spaces[si]
			sr := spaceResult{Name: s.Name, N: s.N}
			if s.Serial {
				if shard == si%nsh {
					for i := uint64(0); i < s.N && !stop; i++ {
						if time.Now().After(deadline) {
							res.Complete = false
							break
						}
						exec1(si, s, i)
						sr.Done++
						if upto == s.Name+"\t"+strconv.FormatUint(i, 10) {
							stop = true
						}
					}
				}
				res.Spaces = append(res.Spaces, sr)
				if stop {
					break outer
				}
				continue
			}
			const chunk = 16
			for base := uint64(shard) * chunk; base < s.N; base += chunk * uint64(nsh) {
				if time.Now().After(deadline) {
					res.Complete = false
					break
				}
				for i := base; i < base+chunk && i < s.N; i++ {
					exec1(si, s, i)
					sr.Done++
					if upto == s.Name+"\t"+strconv.FormatUint(i, 10) {
						stop = true
					}
					if stop {
						res.Spaces = append(res.Spaces, sr)
						break outer
					}
				}
			}
			res.Spaces = append(res.Spaces, sr)
		}
	}
	res.Trans, res.Traces, res.Over = c.trans, c.traces, c.set.over
	hf := make([]byte, 0, len(c.set.m)*8)
	for h := range c.set.m {
		hf = binary.LittleEndian.AppendUint64(hf, h)
	}
	_ = os.WriteFile(filepath.Join(dir, "states"+tag), hf, 0600)
	b, _ := json.Marshal(res)
	if err := os.WriteFile(filepath.Join(dir, "result"+tag), b, 0600); err != nil {
		return 4
	}
	return 0
}

func trim(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "") + "..."
	}
	return s
}

// ---- coordinator --------------------------------------------------------------------------------------

type childRun struct {
	res    *result
	states []byte
	viol   *violation // crash or hang
	err    error
}

func spawn(ck Check, args []string, dir, tag string, shard, nsh int, dl time.Duration, only, upto string, spaces []Space) childRun {
	_ = os.Remove(filepath.Join(dir, "result"+tag))
	ef, _ := os.Create(filepath.Join(dir, "stderr"+tag))
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), "MC_CHILD=1", "MC_DIR="+dir, "MC_TAG="+tag, "MC_SHARD="+strconv.Itoa(shard), "MC_SHARDS="+strconv.Itoa(nsh),
		"MC_DEADLINE="+strconv.FormatFloat(dl.Seconds(), 'f', 1, 64), "MC_ONLY="+only, "MC_UPTO="+upto, "GOMAXPROCS=2", "GOTRACEBACK=single", "VERIF_CHECK="+ck.ID)
	cmd.Stdout = ef
	cmd.Stderr = ef
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	killed := false
	err := cmd.Start()
	if err == nil {
		t := time.AfterFunc(dl+ck.Hang+2*time.Minute, func() {
			killed = true
			_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		})
		err = cmd.Wait()
		t.Stop()
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	}
	ef.Close()
	eb, _ := os.ReadFile(filepath.Join(dir, "stderr"+tag))
	b, rerr := os.ReadFile(filepath.Join(dir, "result"+tag))
	if rerr == nil {
		r := &result{}
		if json.Unmarshal(b, r) == nil {
			sb, _ := os.ReadFile(filepath.Join(dir, "states"+tag))
			return childRun{res: r, states: sb}
		}
	}
	jb, _ := os.ReadFile(filepath.Join(dir, "journal"+tag))
	if len(jb) >= 24 && jb[16] == 1 {
		si := int(binary.LittleEndian.Uint64(jb))
		i := binary.LittleEndian.Uint64(jb[8:])
		kind := "crash"
		if jb[17] == 2 || jb[17] == 3 || killed {
			kind = "hang"
		}
		if si < len(spaces) {
			return childRun{viol: &violation{Space: spaces[si].Name, Index: i, Shard: shard, Kind: kind, Msg: kind + " of the process during this execution: " + trim(lastPanic(string(eb)), 2500)}}
		}
	}
	return childRun{err: fmt.Errorf("child failed (%v): %s", err, trim(lastPanic(string(eb)), 1500))}
}

func lastPanic(s string) string {
	for _, k := range []string{"panic:", "fatal error:", "MC:"} {
		if i := strings.Index(s, k); i >= 0 {
			return s[i:]
		}
	}
	if len(s) > 2000 {
		return s[len(s)-2000:]
	}
	return s
}

func coordinate(ck Check, args []string) int {
	start := time.Now()
	tier := env("VERIF_TIER", "quick")
	vdir := env("VERIF_DIR", "/verif")
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "mc-"+ck.ID+"-")
	if err != nil {
		fmt.Println("cannot make scratch directory:", err)
		return 2
	}
	defer os.RemoveAll(dir)
	dl := ck.Quick
	if tier == "thorough" {
		dl = ck.Thor
	}
	if v := os.Getenv("MC_BUDGET"); v != "" {
		f, _ := strconv.ParseFloat(v, 64)
		dl = time.Duration(f * float64(time.Second))
	}
	spaces := ck.Spaces(tier)

	if rp := os.Getenv("MC_REPLAY"); rp != "" { // replay a recorded execution and show it
		var v violation
		b, err := os.ReadFile(rp)
		if err != nil || json.Unmarshal(b, &v) != nil {
			fmt.Println("cannot read replay", rp)
			return 2
		}
		r := spawn(ck, args, dir, "r", v.Shard, ck.Workers, 10*time.Minute, v.Space+"\t"+strconv.FormatUint(v.Index, 10), "", spaces)
		switch {
		case r.viol != nil:
			fmt.Println(r.viol.Msg)
			return 1
		case r.res != nil:
			for _, d := range r.res.Samples {
				fmt.Println(d)
			}
			for _, x := range r.res.Viol {
				fmt.Println(x.Msg)
				return 1
			}
			fmt.Println("holds")
			return 0
		}
		fmt.Println(r.err)
		return 2
	}

	runs := make([]childRun, ck.Workers)
	var wg sync.WaitGroup
	for k := range runs {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			runs[k] = spawn(ck, args, dir, strconv.Itoa(k), k, ck.Workers, dl, "", "", spaces)
		}(k)
	}
	wg.Wait()

	tot := result{Out: map[string]uint64{}, Known: map[string]string{}, Complete: true}
	byName := map[string]*spaceResult{}
	for i := range spaces {
		tot.Spaces = append(tot.Spaces, spaceResult{Name: spaces[i].Name, N: spaces[i].N})
	}
	for i := range tot.Spaces {
		byName[tot.Spaces[i].Name] = &tot.Spaces[i]
	}
	var cands []violation
	var hashes []uint64
	toolErr := error(nil)
	for _, r := range runs {
		if r.err != nil {
			toolErr = r.err
			continue
		}
		if r.viol != nil {
			cands = append(cands, *r.viol)
			tot.Complete = false
			continue
		}
		tot.Trans += r.res.Trans
		tot.Traces += r.res.Traces
		tot.Over = tot.Over || r.res.Over
		tot.Complete = tot.Complete && r.res.Complete
		for k, v := range r.res.Out {
			tot.Out[k] += v
		}
		for k, v := range r.res.Known {
			tot.Known[k] = v
		}
		for _, s := range r.res.Spaces {
			if p := byName[s.Name]; p != nil {
				p.Done += s.Done
			}
		}
		cands = append(cands, r.res.Viol...)
		for b := r.states; len(b) >= 8; b = b[8:] {
			hashes = append(hashes, binary.LittleEndian.Uint64(b))
		}
	}
	sort.Slice(hashes, func(i, j int) bool { return hashes[i] < hashes[j] })
	states := 0
	for i := range hashes {
		if i == 0 || hashes[i] != hashes[i-1] {
			states++
		}
	}
	order := map[string]int{}
	for i, s := range spaces {
		order[s.Name] = i
	}
	sort.SliceStable(cands, func(i, j int) bool {
		a, b := cands[i], cands[j]
		if order[a.Space] != order[b.Space] {
			return order[a.Space] < order[b.Space]
		}
		return a.Index < b.Index
	})

	// confirm candidates
	confirmed := 0
	unrep := 0
	var lines []string
	tried := 0
	for _, v := range cands {
		if confirmed >= 3 || tried >= 6 || time.Since(start) > dl+5*time.Minute || confirmed > 0 && time.Since(start) > 4*time.Minute {
			break
		}
		if confirmed > 0 && v.Kind == "hang" { // each costs minutes
			continue
		}
		tried++
		only := v.Space + "\t" + strconv.FormatUint(v.Index, 10)
		n := 0
		msg := v.Msg
		reps := make([]childRun, ck.Confirm)
		var wg sync.WaitGroup
		for k := range reps {
			f := func(k int) {
				reps[k] = spawn(ck, args, dir, fmt.Sprintf("c%d", k), v.Shard, ck.Workers, 3*time.Minute, only, "", spaces)
			}
			if ck.Strict { // one after the other: no load from the other replays
				f(k)
				continue
			}
			wg.Add(1)
			go func(k int) { defer wg.Done(); f(k) }(k)
		}
		wg.Wait()
		var detail []string
		for _, r := range reps {
			if r.viol != nil {
				n++
				msg = r.viol.Msg
			} else if r.res != nil && len(r.res.Viol) > 0 {
				n++
				msg = r.res.Viol[0].Msg
				detail = r.res.Samples
			}
		}
		how := fmt.Sprintf("isolated replay failed %d of %d times", n, ck.Confirm)
		ok := n > 0
		if ck.Strict {
			ok = n == ck.Confirm
		} else if n == 0 {
			r := spawn(ck, args, dir, "p", v.Shard, ck.Workers, dl, "", only, spaces)
			if r.viol != nil || (r.res != nil && len(r.res.Viol) > 0) {
				ok = true
				how = "fails again when the shard is replayed from its start (depends on earlier executions in the same process)"
			}
		}
		if !ok {
			unrep++
			lines = append(lines, fmt.Sprintf("note: candidate %s #%d did not reproduce (%s): %s", v.Space, v.Index, how, trim(v.Msg, 600)))
			continue
		}
		confirmed++
		rep := map[string]interface{}{"property": ck.ID, "space": v.Space, "index": v.Index, "shard": v.Shard, "shards": ck.Workers, "kind": v.Kind, "tier": tier, "message": msg, "execution": detail, "reproduction": how,
			"replay_cmd": fmt.Sprintf("VERIF_TIER=%s ./check.sh %s replay <this file>", tier, ck.ID)}
		b, _ := json.MarshalIndent(rep, "", " ")
		_ = os.MkdirAll(filepath.Join(vdir, "replays"), 0755)
		path := filepath.Join(vdir, "replays", fmt.Sprintf("%s-%s-%d.json", ck.ID, sanitize(v.Space), v.Index))
		_ = os.WriteFile(path, append(b, '\n'), 0644)
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", ck.ID, path), "  "+strings.ReplaceAll(printable(trim(msg, 1500)), "\n", "\n  "))
	}

	// samples: describe a few executions of this run
	var samples []interface{}
	for i := 0; i < len(spaces) && len(samples) < 6; i++ {
		s := spaces[(i*7)%len(spaces)]
		if s.N == 0 || byName[s.Name].Done == 0 {
			continue
		}
		idx := s.N / 2
		if s.Serial {
			idx = 0
		}
		r := spawn(ck, args, dir, "s", 0, ck.Workers, 2*time.Minute, s.Name+"\t"+strconv.FormatUint(idx, 10), "", spaces)
		if r.res != nil {
			d := r.res.Samples
			if len(d) > 12 {
				d = d[:12]
			}
			for j := range d {
				d[j] = trim(d[j], 400)
			}
			samples = append(samples, map[string]interface{}{"space": s.Name, "index": idx, "execution": d})
		}
		if ck.Strict && len(samples) >= 2 {
			break
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}

	var cases uint64
	full := true
	for _, s := range tot.Spaces {
		cases += s.Done
		full = full && s.Done == s.N
	}
	seed, _ := strconv.Atoi(env("VERIF_SEED", "1"))
	cov := map[string]interface{}{
		"states": states, "transitions": tot.Trans, "traces_validated_against_impl": tot.Traces, "executions": cases,
		"samples": samples, "exhaustive": full && tot.Complete && toolErr == nil, "spaces": tot.Spaces, "outcomes": tot.Out, "bound": ck.Bound,
		"unreproduced_candidates": unrep,
	}
	if tot.Over {
		cov["states_note"] = "the set of visited states was capped; states is a lower bound"
	}
	if len(tot.Known) > 0 {
		cov["known_findings_observed"] = tot.Known
	}
	ev := map[string]interface{}{"property": ck.ID, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": ck.Assume, "wall_s": time.Since(start).Seconds(), "violations": confirmed}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(vdir, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(vdir, "evidence", ck.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	for k, v := range tot.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", ck.ID, k, strings.ReplaceAll(trim(v, 400), "\n", " "))
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	fmt.Printf("%s %s: %d executions in %d spaces, %d states, %d transitions, %d traces compared, exhaustive=%v, %.1f s\n", ck.ID, tier, cases, len(spaces), states, tot.Trans, tot.Traces, cov["exhaustive"], time.Since(start).Seconds())
	if os.Getenv("MC_OUT") != "" {
		for _, s := range tot.Spaces {
			fmt.Printf("   %-40s %12d / %d\n", s.Name, s.Done, s.N)
		}
		var ks []string
		for k := range tot.Out {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("   outcome %-40s %d\n", k, tot.Out[k])
		}
	}
	if confirmed > 0 {
		return 1
	}
	if toolErr != nil {
		fmt.Println("tool error:", toolErr)
		return 2
	}
	return 0
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' {
			return r
		}
		return '_'
	}, s)
}
