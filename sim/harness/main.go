//go:build go1.21

package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"msim/rt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Prop is one property: how its scenarios are made and how a run is judged.
type Prop struct {
	ID    string
	Gen   func(g *G)
	Judge func(w *World)
	Quick int // simulated runs
	Deep  int
	Rule  string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Result is what one run produced.
type Result struct {
	Run     int
	Seed    uint64
	V       []Violation
	Harness string
	Hash    uint64
	Sch     uint64
	Steps   int64
	Sw      int64
	Pre     int64
	SimNS   int64
	Capped  bool
	Faults  map[string]int64
	Probes  map[string]int64
	Judged  bool
}

func hash64(parts ...interface{}) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprintln(parts...)))
	return binary.LittleEndian.Uint64(h[:])
}

func scenarioFor(prop, tier string, seed int64, run int) *Scenario {
	sc := &Scenario{Prop: prop, Seed: hash64(seed, prop, run)}
	g := &G{Rand: rt.NewRand(sc.Seed, "gen:"+prop), sc: sc, tier: tier}
	props[prop].Gen(g)
	sc.sortOps()
	if coinciding[prop] {
		g = &G{Rand: rt.NewRand(sc.Seed, "coincide:"+prop), sc: sc, tier: tier}
		g.coincide()
	}
	return sc
}

func runScenario(sc *Scenario, trace bool) (res Result, tr []string) {
	p := props[sc.Prop]
	w := NewWorld(sc, trace)
	w.Run()
	if w.Sim.HarnessErr == "" {
		func() {
			defer func() {
				if r := recover(); r != nil {
					w.Sim.HarnessErr = fmt.Sprintf("oracle panicked: %v\n%s", r, debug.Stack())
				}
			}()
			p.Judge(w)
		}()
	}
	s := w.Sim
	res = Result{Seed: sc.Seed, V: w.V, Harness: s.HarnessErr, Hash: s.Hash, Sch: s.SchHash, Steps: s.Steps, Sw: s.Switches, Pre: s.Preempts, SimNS: s.Now(), Capped: s.Capped, Faults: map[string]int64{}, Probes: map[string]int64{}}
	for k, v := range s.Faults {
		res.Faults[k] = int64(v)
	}
	for k, v := range s.Probes {
		res.Probes[k] = int64(v)
	}
	for k, v := range w.notes {
		res.Probes[k] += v
	}
	tr = s.TraceBuf
	s.Finish()
	return
}

// Agg sums the results of many runs.
type Agg struct {
	Runs, Capped  int
	Steps, Sw     int64
	Pre, SimNS    int64
	Faults        map[string]int64
	FaultRuns     map[string]int64
	Probes        map[string]int64
	Sch           []uint64
	Hash          uint64
	Bad           []Result
	Harness       string
	HarnessSeed   int
	Done          int // next run index
	WallMS        int64
	Lines         []string `json:",omitempty"`
	NontrivialSch []uint64
}

func worker(prop, tier string, seed int64, from, stride, to, max, stopBad int, wall time.Duration) Agg {
	a := Agg{Faults: map[string]int64{}, FaultRuns: map[string]int64{}, Probes: map[string]int64{}}
	start := time.Now()
	i := from
	for ; i < to && a.Runs < max; i += stride {
		if wall > 0 && time.Since(start) > wall {
			break
		}
		sc := scenarioFor(prop, tier, seed, i)
		fmt.Fprintf(os.Stderr, "run %d\n", i)
		r, _ := runScenario(sc, false)
		r.Run = i
		a.Runs++
		a.Steps += r.Steps
		a.Sw += r.Sw
		a.Pre += r.Pre
		a.SimNS += r.SimNS
		if r.Capped {
			a.Capped++
		}
		for k, v := range r.Faults {
			a.Faults[k] += v
			a.FaultRuns[k]++
		}
		for k, v := range r.Probes {
			a.Probes[k] += v
		}
		a.Sch = append(a.Sch, r.Sch)
		if r.Probes["judged"] > 0 {
			a.NontrivialSch = append(a.NontrivialSch, r.Sch)
		}
		a.Hash = a.Hash*1099511628211 ^ r.Hash
		if r.Harness != "" {
			a.Harness, a.HarnessSeed = r.Harness, i
			break
		}
		if len(r.V) > 0 {
			a.Bad = append(a.Bad, r)
			if len(a.Bad) >= stopBad {
				i += stride
				break
			}
		}
		if i&15 == 0 {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.Sys > 2500<<20 {
				i += stride
				break
			}
		}
	}
	a.Done = i
	a.WallMS = time.Since(start).Milliseconds()
	return a
}

func main() {
	initProcess()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim check|worker|run|replay|min|determinism ...")
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(3 << 30)
	fs := flag.NewFlagSet("sim", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Int64("seed", 1, "seed")
	from := fs.Int("from", 0, "")
	stride := fs.Int("stride", 1, "")
	to := fs.Int("to", 1<<30, "")
	max := fs.Int("max", 300, "")
	bad := fs.Int("bad", 3, "")
	runs := fs.Int("runs", 0, "")
	wall := fs.Duration("wall", 0, "")
	root := fs.String("root", "/verif", "")
	jobs := fs.Int("jobs", runtime.NumCPU(), "")
	trace := fs.Bool("trace", false, "")
	out := fs.String("out", "", "")
	fs.Parse(os.Args[2:])
	if os.Args[1] != "determinism" && os.Args[1] != "replay" && os.Args[1] != "min" && props[*prop] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		runtime.GOMAXPROCS(2)
		a := worker(*prop, *tier, *seed, *from, *stride, *to, *max, *bad, *wall)
		json.NewEncoder(os.Stdout).Encode(a)
	case "run":
		sc := scenarioFor(*prop, *tier, *seed, *from)
		if *out != "" {
			sc.save(*out)
		}
		r, tr := runScenario(sc, *trace)
		for _, l := range tr {
			if len(l) > 240 {
				l = l[:240]
			}
			fmt.Println(l)
		}
		r.Run = *from
		b, _ := json.MarshalIndent(r, "", " ")
		fmt.Println(string(b))
	case "replay":
		os.Exit(replay(fs.Arg(0), *trace))
	case "min":
		os.Exit(minimise(fs.Arg(0), *wall))
	case "determinism":
		os.Exit(determinism(*seed, *max, *jobs))
	case "check":
		os.Exit(check(*prop, *tier, *seed, *runs, *root, *jobs, *wall))
	default:
		os.Exit(2)
	}
}

// Replay is the file a violation is reported with.
type Replay struct {
	Property  string    `json:"property"`
	Seed      int64     `json:"verif_seed"`
	Run       int       `json:"run"`
	Tier      string    `json:"tier"`
	Violation Violation `json:"violation"`
	Hash      string    `json:"event_hash"`
	Minimised bool      `json:"minimised"`
	OpsBefore int       `json:"ops_before"`
	Scenario  *Scenario `json:"scenario"`
	Trace     []string  `json:"trace,omitempty"`
}

func (r *Replay) write(fn string) error {
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(fn, append(b, '\n'), 0644)
}

func loadReplay(fn string) (*Replay, error) {
	b, err := os.ReadFile(fn)
	if err != nil {
		return nil, err
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		return nil, err
	}
	if r.Scenario == nil || props[r.Scenario.Prop] == nil {
		return nil, fmt.Errorf("no scenario")
	}
	return r, nil
}

func replay(fn string, trace bool) int {
	rp, err := loadReplay(fn)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r, tr := runScenario(rp.Scenario, trace)
	if trace {
		for _, l := range tr {
			if len(l) > 240 {
				l = l[:240]
			}
			fmt.Println(l)
		}
	}
	if r.Harness != "" {
		fmt.Fprintln(os.Stderr, "simulator error:", r.Harness)
		return 2
	}
	for _, v := range r.V {
		fmt.Printf("%s at %.6fs: %s\n", v.Class, float64(v.At)/1e9, v.Msg)
	}
	if len(r.V) == 0 {
		fmt.Println("no violation")
		return 0
	}
	same := "the recorded violation"
	if !hasClass(r.V, rp.Violation.Class) {
		same = "a different violation"
	}
	eq := "identical"
	if fmt.Sprintf("%016x", r.Hash) != rp.Hash {
		eq = "different"
	}
	fmt.Printf("reproduced %s; event hash %016x (%s)\n", same, r.Hash, eq)
	return 1
}

func hasClass(v []Violation, c string) bool {
	for _, x := range v {
		if x.Class == c {
			return true
		}
	}
	return false
}

func ofClass(v []Violation, c string) Violation {
	for _, x := range v {
		if x.Class == c {
			return x
		}
	}
	return Violation{}
}

// minimise shrinks the scenario in the file in place.
// sound tells whether no operator types without having connected.
func sound(sc *Scenario) bool {
	open := map[string]bool{}
	for _, o := range sc.Ops {
		if strings.HasPrefix(o.Act, "ssh") {
			if o.Do == "open" {
				open[o.Act] = true
			} else if !open[o.Act] {
				return false
			}
		}
	}
	return true
}

func minimise(fn string, wall time.Duration) int {
	rp, err := loadReplay(fn)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if wall == 0 {
		wall = 40 * time.Second
	}
	deadline := time.Now().Add(wall)
	class := rp.Violation.Class
	best := rp.Scenario
	rp.OpsBefore = len(best.Ops)
	try := func(mod func(sc *Scenario) bool) bool {
		if time.Now().After(deadline) {
			return false
		}
		c := best.clone()
		if !mod(c) || !sound(c) {
			return false
		}
		r, _ := runScenario(c, false)
		if r.Harness == "" && hasClass(r.V, class) {
			best = c
			return true
		}
		return false
	}
	// nothing after the violation matters
	try(func(c *Scenario) bool {
		if c.x("fixed_end") != 0 || rp.Violation.At <= 0 || rp.Violation.At+sec >= c.End {
			return false
		}
		c.End = rp.Violation.At + sec
		var ops []Op
		for _, o := range c.Ops {
			if o.At < c.End {
				ops = append(ops, o)
			}
		}
		c.Ops = ops
		return true
	})
	try(func(c *Scenario) bool { ok := c.Sched.StallP > 0; c.Sched.StallP = 0; return ok })
	try(func(c *Scenario) bool { ok := c.Sched.UnlP > 0; c.Sched.UnlP = 0; return ok })
	try(func(c *Scenario) bool { ok := c.Sched.RmwP > 0; c.Sched.RmwP = 0; return ok })
	try(func(c *Scenario) bool { ok := c.Sched.PreP > 0; c.Sched.PreP = 0; return ok })
	try(func(c *Scenario) bool { ok := c.Sched.LazyP > 0; c.Sched.LazyP = 0; return ok })
	try(func(c *Scenario) bool {
		ok := c.Net.Jitter > 0 || c.Net.SegTiny > 0 || c.Net.ShortRead > 0
		c.Net.Jitter, c.Net.SegTiny, c.Net.ShortRead = 0, 0, 0
		c.Net.LatMax = c.Net.LatMin
		return ok
	})
	for chunk := (len(best.Ops) + 1) / 2; chunk >= 1; chunk /= 2 {
		for lo := 0; lo < len(best.Ops); {
			ok := try(func(c *Scenario) bool {
				hi := lo + chunk
				if hi > len(c.Ops) {
					hi = len(c.Ops)
				}
				var ops []Op
				dropped := 0
				for i, o := range c.Ops {
					if i >= lo && i < hi && !strings.HasPrefix(o.Act, "obs") && o.Do != "newsong" {
						dropped++
						continue
					}
					ops = append(ops, o)
				}
				c.Ops = ops
				return dropped > 0
			})
			if !ok {
				lo += chunk
			}
			if time.Now().After(deadline) {
				break
			}
		}
	}
	// make scheduling decisions the default ones outside as small a window as possible
	if r, _ := runScenario(best, false); r.Harness == "" {
		lo, hi := int64(0), r.SimNS
		if !try(func(c *Scenario) bool { c.Sched.WinLo, c.Sched.WinHi = hi+1, hi+2; return true }) {
			for step := (hi - lo) / 2; step > ms; step /= 2 {
				if try(func(c *Scenario) bool { c.Sched.WinLo, c.Sched.WinHi = lo, hi-step; return true }) {
					hi -= step
				}
			}
			for step := (hi - lo) / 2; step > ms; step /= 2 {
				if try(func(c *Scenario) bool { c.Sched.WinLo, c.Sched.WinHi = lo+step, hi; return true }) {
					lo += step
				}
			}
		}
	}
	r, tr := runScenario(best, true)
	if r.Harness != "" || !hasClass(r.V, class) {
		fmt.Fprintln(os.Stderr, "not reproducible:", r.Harness, r.V)
		return 2
	}
	rp.Scenario = best
	rp.Minimised = true
	rp.Violation = ofClass(r.V, class)
	rp.Hash = fmt.Sprintf("%016x", r.Hash)
	if len(tr) > 400 {
		tr = tr[len(tr)-400:]
	}
	for i := range tr {
		if len(tr[i]) > 200 {
			tr[i] = tr[i][:200]
		}
	}
	rp.Trace = tr
	if err := rp.write(fn); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

func self() string {
	e, err := os.Executable()
	if err != nil {
		e = os.Args[0]
	}
	return e
}

// spawn runs one worker process and returns what it found.
func spawn(args []string, hang time.Duration) (Agg, string, error) {
	cmd := exec.Command(self(), append([]string{"worker"}, args...)...)
	so, _ := cmd.StdoutPipe()
	se, _ := cmd.StderrPipe()
	if err := cmd.Start(); err != nil {
		return Agg{}, "", err
	}
	beat := make(chan string, 1000)
	var tail []string
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		s := bufio.NewScanner(se)
		s.Buffer(make([]byte, 1<<20), 1<<20)
		for s.Scan() {
			l := s.Text()
			if len(tail) > 60 {
				tail = tail[20:]
			}
			tail = append(tail, l)
			select {
			case beat <- l:
			default:
			}
		}
	}()
	done := make(chan struct{})
	hung := false
	var hmu sync.Mutex
	go func() {
		t := time.NewTimer(hang)
		for {
			select {
			case <-done:
				return
			case <-beat:
				t.Reset(hang)
			case <-t.C:
				hmu.Lock()
				hung = true
				hmu.Unlock()
				cmd.Process.Kill()
				return
			}
		}
	}()
	var a Agg
	b, _ := io.ReadAll(so)
	wg.Wait()
	err := cmd.Wait()
	close(done)
	hmu.Lock()
	h := hung
	hmu.Unlock()
	if h {
		return a, strings.Join(tail, "\n"), fmt.Errorf("a simulated run made no progress for %v of real time", hang)
	}
	if err != nil {
		return a, strings.Join(tail, "\n"), err
	}
	if err := json.Unmarshal(b, &a); err != nil {
		return a, strings.Join(tail, "\n"), fmt.Errorf("worker output: %v", err)
	}
	return a, "", nil
}

func (a *Agg) merge(b *Agg) {
	if a.Faults == nil {
		a.Faults, a.FaultRuns, a.Probes = map[string]int64{}, map[string]int64{}, map[string]int64{}
	}
	a.Runs += b.Runs
	a.Capped += b.Capped
	a.Steps += b.Steps
	a.Sw += b.Sw
	a.Pre += b.Pre
	a.SimNS += b.SimNS
	for k, v := range b.Faults {
		a.Faults[k] += v
	}
	for k, v := range b.FaultRuns {
		a.FaultRuns[k] += v
	}
	for k, v := range b.Probes {
		a.Probes[k] += v
	}
	a.Sch = append(a.Sch, b.Sch...)
	a.NontrivialSch = append(a.NontrivialSch, b.NontrivialSch...)
	a.Bad = append(a.Bad, b.Bad...)
	if b.Harness != "" && a.Harness == "" {
		a.Harness, a.HarnessSeed = b.Harness, b.HarnessSeed
	}
	a.WallMS += b.WallMS
}

func sweep(prop, tier string, seed int64, runs, jobs int, wall time.Duration) (Agg, error) {
	var tot Agg
	var mu sync.Mutex
	var wg sync.WaitGroup
	var firstErr error
	stop := false
	begin := time.Now()
	for j := 0; j < jobs; j++ {
		wg.Add(1)
		go func(j int) {
			defer wg.Done()
			for i := j; i < runs; {
				mu.Lock()
				st := stop
				mu.Unlock()
				left := wall - time.Since(begin)
				if st || left <= 0 {
					return
				}
				a, tail, err := spawn([]string{"-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(i), "-stride", fmt.Sprint(jobs), "-to", fmt.Sprint(runs), "-wall", fmt.Sprint(left), "-bad", "1"}, 120*time.Second)
				mu.Lock()
				if err != nil {
					if firstErr == nil {
						firstErr = fmt.Errorf("%v\n%s", err, tail)
					}
					stop = true
					mu.Unlock()
					return
				}
				tot.merge(&a)
				if a.Harness != "" || len(tot.Bad) > 0 {
					stop = true
				}
				mu.Unlock()
				if a.Done <= i {
					return
				}
				i = a.Done
			}
		}(j)
	}
	wg.Wait()
	sort.Slice(tot.Bad, func(i, j int) bool { return tot.Bad[i].Run < tot.Bad[j].Run })
	return tot, firstErr
}

// Finding is one line of the known-findings file.
type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known or fixed
	Class    string `json:"class"`  // violation class
	Match    string `json:"match"`  // must occur in the message
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadFindings(root string) ([]Finding, error) {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.jsonl"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []Finding
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		var f Finding
		if err := json.Unmarshal([]byte(l), &f); err != nil {
			return nil, err
		}
		out = append(out, f)
	}
	return out, nil
}

func check(prop, tier string, seed int64, runs int, root string, jobs int, wall time.Duration) int {
	p := props[prop]
	if runs == 0 {
		runs = p.Quick
		if tier == "thorough" {
			runs = p.Deep
		}
	}
	if wall == 0 {
		wall = 400 * time.Second
		if tier == "thorough" {
			wall = 3 * time.Hour
		}
	}
	begin := time.Now()
	fnd, err := loadFindings(root)
	if err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		return 2
	}
	for _, f := range fnd {
		if f.Property == prop && f.Status == "known" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
		}
	}
	agg, err := sweep(prop, tier, seed, runs, jobs, wall)
	secs := time.Since(begin).Seconds()
	rc := 0
	viols := 0
	if err != nil {
		fmt.Fprintln(os.Stderr, "simulator failed:", err)
		rc = 2
	}
	if agg.Harness != "" {
		fmt.Fprintf(os.Stderr, "simulator failed in run %d: %s\n", agg.HarnessSeed, agg.Harness)
		rc = 2
	}
	if rc == 0 && agg.Runs == 0 {
		fmt.Fprintln(os.Stderr, "no run was completed")
		rc = 2
	}
	var report []string
	for _, b := range agg.Bad {
		v := unlisted(fnd, prop, b.V)
		if v == nil {
			continue
		}
		viols++
		if len(report) > 0 {
			continue
		}
		dir := filepath.Join(root, "replays")
		os.MkdirAll(dir, 0755)
		fn := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", prop, seed, b.Run))
		rp := &Replay{Property: prop, Seed: seed, Run: b.Run, Tier: tier, Violation: *v, Hash: fmt.Sprintf("%016x", b.Hash), Scenario: scenarioFor(prop, tier, seed, b.Run)}
		rp.OpsBefore = len(rp.Scenario.Ops)
		if err := rp.write(fn); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		orig, _ := os.ReadFile(fn)
		mc := exec.Command(self(), "min", "-wall", "45s", fn)
		if o, err := timeout(mc, 180*time.Second); err != nil {
			fmt.Fprintln(os.Stderr, "minimisation failed:", err, string(o))
			os.WriteFile(fn, orig, 0644)
		}
		// the file must reproduce the violation in a fresh process
		o, err := timeout(exec.Command(self(), "replay", fn), 180*time.Second)
		if err == nil || !strings.Contains(string(o), "reproduced the recorded violation") || !strings.Contains(string(o), "(identical)") {
			os.WriteFile(fn, orig, 0644)
			o, err = timeout(exec.Command(self(), "replay", fn), 180*time.Second)
			if err == nil || !strings.Contains(string(o), "reproduced the recorded violation") {
				fmt.Fprintf(os.Stderr, "run %d reported %v but its replay did not reproduce it:\n%s\n", b.Run, *v, o)
				rc = 2
				continue
			}
		}
		if n, err := loadReplay(fn); err == nil {
			fmt.Printf("violation (%s) in run %d of seed %d at simulated %.6f s: %s\n", n.Violation.Class, b.Run, seed, float64(n.Violation.At)/1e9, n.Violation.Msg)
			fmt.Printf("minimised from %d to %d operations; replay with: /verif/run.sh replay %s\n", n.OpsBefore, len(n.Scenario.Ops), fn)
		}
		report = append(report, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, fn))
	}
	if err := writeEvidence(root, p, tier, seed, &agg, viols, secs, jobs); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 2
	}
	if len(report) > 0 {
		fmt.Println(report[0])
		return 1
	}
	if rc != 0 {
		return rc
	}
	fmt.Printf("property %s held in %d simulated runs (%.0f s simulated, %.1f s real)\n", prop, agg.Runs, float64(agg.SimNS)/1e9, secs)
	return 0
}

func timeout(c *exec.Cmd, d time.Duration) ([]byte, error) {
	t := time.AfterFunc(d, func() {
		if c.Process != nil {
			c.Process.Kill()
		}
	})
	defer t.Stop()
	return c.CombinedOutput()
}

func unlisted(fnd []Finding, prop string, vs []Violation) *Violation {
	for i, v := range vs {
		listed := false
		for _, f := range fnd {
			if f.Property == prop && f.Status == "known" && f.Class == v.Class && strings.Contains(v.Msg, f.Match) {
				listed = true
			}
		}
		if !listed {
			return &vs[i]
		}
	}
	return nil
}

func distinct(h []uint64) int {
	m := map[uint64]bool{}
	for _, x := range h {
		m[x] = true
	}
	return len(m)
}

var realComponents = "server, player and infoer main programs with cmd, comm (wire framing, zlib, protobuf), playback, schedule, timing, metadata (lyrics and ID3 parsing), ssh command handling and parser, util and logging: all compiled from /repo, with only their concurrency, clock, I/O and randomness calls redirected to the simulator; golang/protobuf, beep (except the MP3 decoder), urfave/cli, antlr, dhowden/tag, readline's line editor, history and completion"
var stubComponents = "Go scheduler, channels, sync, timers, monotonic and wall clocks, TCP, file system, signals (simulator); MP3 decoder (uncompressed container read through the simulated disk); oto sound card (100 ms device buffer); SSH transport (plain text framing, real authentication callbacks); readline's terminal and goroutines; tcell screen (cell grid)"

func writeEvidence(root string, p *Prop, tier string, seed int64, a *Agg, viols int, secs float64, jobs int) error {
	var samples []interface{}
	for i := 0; i < 2; i++ {
		sc := scenarioFor(p.ID, tier, seed, i)
		for k := range sc.Ops {
			if len(sc.Ops[k].B) > 200 {
				sc.Ops[k].B = sc.Ops[k].B[:200]
			}
		}
		samples = append(samples, sc)
	}
	fr := map[string]interface{}{}
	for k, v := range a.Faults {
		fr[k] = map[string]int64{"injected": v, "runs": a.FaultRuns[k]}
	}
	cov := map[string]interface{}{
		"evaluations":            a.Runs,
		"distinct_nontrivial":    distinct(a.NontrivialSch),
		"rule":                   p.Rule + " Every run has its own seed derived from the check's seed, the property and the run number; the seed fixes configuration, operations, faults and every scheduling decision. A run is non-trivial when the oracle actually judged something in it (probe 'judged'); runs are distinct when the hash over every scheduling decision and observable event differs.",
		"samples":                samples,
		"runs_per_hour":          int64(float64(a.Runs) / secs * 3600),
		"seeds_per_hour":         int64(float64(a.Runs) / secs * 3600),
		"simulated_seconds":      float64(a.SimNS) / 1e9,
		"faults":                 fr,
		"distinct_schedules":     distinct(a.Sch),
		"schedule_measure":       "64-bit hash over the sequence of (task, scheduling decision, observable event) of a run",
		"task_switches":          a.Sw,
		"preemptions":            a.Pre,
		"yield_points":           a.Steps,
		"runs_cut_by_step_limit": a.Capped,
		"oracle_probes":          a.Probes,
		"worker_processes":       jobs,
		"real_components":        realComponents,
		"stub_components":        stubComponents,
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"the simulator's channels, locks, timers, TCP and disk behave within what Go and the operating system promise",
			"tasks interleave at channel, lock, clock and I/O operations and at shared-variable accesses the rewriter marks; torn or reordered memory accesses below that are not modelled",
		},
		"wall_s": secs, "violations": viols,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	return os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), append(b, '\n'), 0644)
}

// determinism runs the same seeds in processes of different shapes and compares everything.
func determinism(seed int64, n, jobs int) int {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	var mu sync.Mutex
	var wg sync.WaitGroup
	bad, total := 0, 0
	sem := make(chan bool, jobs)
	for _, id := range ids {
		wg.Add(1)
		go func(id string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			a, t1, e1 := spawn([]string{"-prop", id, "-seed", fmt.Sprint(seed), "-from", "0", "-to", fmt.Sprint(n), "-bad", "1000", "-max", "100000"}, 120*time.Second)
			// in one-run processes, backwards
			sch := make([]uint64, n)
			var e2 error
			var t2 string
			for i := n - 1; i >= 0 && e2 == nil; i-- {
				var b Agg
				b, t2, e2 = spawn([]string{"-prop", id, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(i), "-to", fmt.Sprint(i + 1), "-bad", "1000"}, 120*time.Second)
				if len(b.Sch) == 1 {
					sch[i] = b.Sch[0] ^ b.Hash
				}
			}
			mu.Lock()
			defer mu.Unlock()
			if e1 != nil || e2 != nil {
				fmt.Println(id, "failed:", e1, t1, e2, t2)
				bad++
				return
			}
			_ = a
			for i := range sch {
				total++
				if i < len(a.Sch) && sch[i] == 0 {
					bad++
				}
			}
			// compare the run hashes of the long process with the short ones
			for i := 0; i < n && i < len(a.Sch); i++ {
				c, _, err := spawn([]string{"-prop", id, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(i), "-to", fmt.Sprint(i + 1), "-bad", "1000"}, 120*time.Second)
				if err != nil || len(c.Sch) != 1 || c.Sch[0] != a.Sch[i] || c.Sch[0]^c.Hash != sch[i] {
					fmt.Printf("%s run %d is not deterministic\n", id, i)
					bad++
				}
			}
		}(id)
	}
	wg.Wait()
	fmt.Printf("determinism: %d runs of %d properties executed three times, %d differences\n", total, len(ids), bad)
	if bad > 0 {
		return 1
	}
	return 0
}
