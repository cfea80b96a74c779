package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/octarinesec/MAPL/verifsim/rt"
)

// ---- known findings ----

type Known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // open or fixed
	Class    string `json:"class"`
	Match    string `json:"match"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

type knowns []Known

func loadKnown(path, prop string) knowns {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var ks knowns
	for _, l := range strings.Split(string(data), "\n") {
		var k Known
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == prop && k.Status == "open" {
			ks = append(ks, k)
		}
	}
	return ks
}

func (ks knowns) match(o *Outcome) string {
	for _, k := range ks {
		if k.Class == o.Class && strings.Contains(o.Detail, k.Match) {
			return k.What
		}
	}
	return ""
}

// ---- child processes ----

var raceBuild = false

func self() string {
	p, err := os.Executable()
	if err != nil {
		return "/proc/self/exe"
	}
	return p
}

func childEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GORACE=") && !strings.HasPrefix(e, "GOTRACEBACK=") && !strings.HasPrefix(e, "GOGC=") && !strings.HasPrefix(e, "GODEBUG=") {
			env = append(env, e)
		}
	}
	return append(env, "GORACE=halt_on_error=1 exitcode=66 history_size=4", "GODEBUG=asyncpreemptoff=1")
}

// hang is the outcome of a process that stopped making progress outside the
// scheduler's control, a lock left behind by a finished call for instance.
func hang(limit time.Duration) *Outcome {
	return &Outcome{Class: "hang", Detail: fmt.Sprintf("a call made after the scheduled ones did not return within %v", limit)}
}

const stuck = 60 * time.Second

// runJob executes a job in a fresh process. A process that dies is turned
// into an outcome of class race or crash.
func runJob(j *Job, limit time.Duration) (*JobResult, error) {
	in, err := json.Marshal(j)
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(self(), "-mode", "job", "-level", fmt.Sprint(*fLevel))
	cmd.Env = childEnv()
	cmd.Stdin = bytes.NewReader(in)
	var errb bytes.Buffer
	cmd.Stderr = &errb
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{w}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	w.Close()
	timer := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	var out bytes.Buffer
	out.ReadFrom(r)
	r.Close()
	werr := cmd.Wait()
	if !timer.Stop() {
		return &JobResult{O: hang(limit)}, nil
	}
	if werr != nil {
		o := deathOutcome(errb.String(), werr)
		if o == nil {
			return nil, fmt.Errorf("child failed: %v\n%s", werr, tail(errb.String(), 3000))
		}
		o.Trace = readTrace(j.TraceOut)
		return &JobResult{O: o}, nil
	}
	var res JobResult
	if err := json.Unmarshal(out.Bytes(), &res); err != nil {
		return nil, fmt.Errorf("child answer: %v\n%s", err, tail(errb.String(), 2000))
	}
	return &res, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// deathOutcome explains why a child died; nil if it is not the engine's doing.
func deathOutcome(stderr string, werr error) *Outcome {
	if i := strings.Index(stderr, "WARNING: DATA RACE"); i >= 0 {
		rep := stderr[i:]
		fns := raceFrames(rep)
		if len(fns) == 0 {
			return nil
		}
		return &Outcome{Class: "race:" + strings.Join(fns, "/"), Detail: head(rep, 6000)}
	}
	for _, mark := range []string{"fatal error: ", "panic: ", "runtime: goroutine stack exceeds"} {
		if i := strings.Index(stderr, mark); i >= 0 {
			line := stderr[i:]
			if k := strings.IndexByte(line, '\n'); k >= 0 {
				line = line[:k]
			}
			if !strings.Contains(stderr[i:], "MAPL_engine.") {
				return nil
			}
			return &Outcome{Class: "crash:" + line, Detail: head(stderr[i:], 6000)}
		}
	}
	return nil
}

// raceFrames names the engine functions of the two conflicting accesses.
func raceFrames(rep string) []string {
	var fns []string
	for _, part := range strings.Split(rep, "\n\n") {
		part = strings.TrimSpace(part)
		first := part
		if k := strings.IndexByte(part, '\n'); k >= 0 {
			first = part[:k]
			if strings.HasPrefix(first, "WARNING") {
				rest := part[k+1:]
				first = rest
				if m := strings.IndexByte(rest, '\n'); m >= 0 {
					first = rest[:m]
				}
			}
		}
		if !strings.Contains(first, " by ") && !strings.HasPrefix(first, "==") {
			continue
		}
		for _, l := range strings.Split(part, "\n") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, "MAPL_engine."); i >= 0 && strings.HasSuffix(l, ")") {
				f := l[i+len("MAPL_engine."):]
				if k := strings.Index(f, "()"); k >= 0 {
					f = f[:k]
				}
				fns = append(fns, f)
				break
			}
		}
		if len(fns) == 2 {
			break
		}
	}
	sort.Strings(fns)
	return fns
}

func askAlone(sc *Scenario, v int, op Op) (string, error) {
	res, err := runJob(&Job{Kind: "alone", Sc: sc, Version: v, Op: op}, stuck/2)
	if err != nil {
		return "", err
	}
	if res.O != nil {
		return "panic " + res.O.Class, nil
	}
	return res.Answer, nil
}

// ---- the check ----

type found1 struct {
	index int
	o     *Outcome
	dead  string
	first int // worker's first run
}

type totals struct {
	sync.Mutex
	runs, nontriv                               int
	steps, lib, switches, ops, compared, simclk int64
	execs                                       int64
	maxTask, peak                               int
	digests                                     map[string]bool
	hashes                                      map[string]bool
	states                                      map[uint64]struct{}
	fired, sched                                map[string]int
	samples                                     map[int]json.RawMessage
	diffs                                       []string
	ndiffs                                      int
	unusable                                    int
	unusableEx                                  string
	known                                       map[string]int
	hit                                         *found1
	err                                         string
}

func runCheck() int {
	start := time.Now()
	if _, err := os.Stat(*fScratch); *fScratch == "" || err != nil {
		fmt.Println("no scratch directory")
		return 2
	}
	t := &totals{digests: map[string]bool{}, hashes: map[string]bool{}, states: map[uint64]struct{}{}, fired: map[string]int{}, sched: map[string]int{}, samples: map[int]json.RawMessage{}, known: map[string]int{}}
	code, violations := 0, 0
	explored := 0.0
	var doubts []string
	for from := 0; ; {
		secs := *fSecs - int(explored)
		if len(doubts) > 0 && secs < 10 {
			secs = 10
		}
		begin := time.Now()
		if !t.explore(from, secs) {
			return 2
		}
		explored += time.Since(begin).Seconds()
		if t.hit == nil {
			break
		}
		ok, path, text := t.investigate()
		if ok {
			violations, code = 1, 1
			fmt.Println(text)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, path)
			break
		}
		// cannot be repeated: look for one that can
		doubts = append(doubts, text)
		if len(doubts) == 4 {
			break
		}
		from, t.hit = t.hit.index+1, nil
	}
	if t.err != "" && code == 0 {
		doubts = append(doubts, t.err)
	}
	if len(doubts) > 0 && code == 0 {
		fmt.Println("check error:", strings.Join(doubts, "\n"))
		return 2
	}
	if code == 0 && t.unusable*2 > t.runs {
		fmt.Printf("check error: %d of %d runs could not be set up, e.g. %s\n", t.unusable, t.runs+t.unusable, t.unusableEx)
		return 2
	}
	if code == 0 && t.runs == 0 {
		fmt.Println("check error: no run was completed")
		return 2
	}
	for k := range t.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *fProp, k)
	}
	if *fEv != "" {
		if err := t.evidence(time.Since(start).Seconds(), explored, violations); err != nil {
			fmt.Println("check error:", err)
			return 2
		}
	}
	fmt.Printf("%s: %d runs, %d distinct non-trivial, %d interleavings, %d states, %d comparisons, %.1f s\n", *fProp, t.runs, t.nontriv, len(t.hashes), len(t.states), t.compared, explored)
	return code
}

// explore lets the workers run until the time is over or one has a hit.
func (t *totals) explore(from, secs int) bool {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var procs []*exec.Cmd
	stop := func() {
		mu.Lock()
		for _, p := range procs {
			p.Process.Kill()
		}
		mu.Unlock()
	}
	for k := 0; k < *fWorkers; k++ {
		cmd := exec.Command(self(), "-mode", "worker", "-prop", *fProp, "-seed", fmt.Sprint(*fSeed), "-secs", fmt.Sprint(secs), "-max", fmt.Sprint(*fMax),
			"-start", fmt.Sprint(from+k), "-stride", fmt.Sprint(*fWorkers), "-known", *fKnown, "-level", fmt.Sprint(*fLevel))
		cmd.Env = childEnv()
		errb := &bytes.Buffer{}
		cmd.Stderr = errb
		r, w, err := os.Pipe()
		if err != nil {
			fmt.Println(err)
			return false
		}
		cmd.ExtraFiles = []*os.File{w}
		mu.Lock()
		if err := cmd.Start(); err != nil {
			fmt.Println(err)
			mu.Unlock()
			return false
		}
		procs = append(procs, cmd)
		mu.Unlock()
		w.Close()
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			t.collect(from+k, r, cmd, errb, stop)
		}(k)
	}
	wg.Wait()
	return true
}

func (t *totals) collect(k int, r *os.File, cmd *exec.Cmd, errb *bytes.Buffer, stop func()) {
	defer r.Close()
	var last int64 = time.Now().UnixNano()
	var lm sync.Mutex
	hung := false
	quit := make(chan bool)
	go func() {
		for {
			select {
			case <-quit:
				return
			case <-time.After(time.Second):
			}
			lm.Lock()
			late := time.Now().UnixNano()-last > int64(stuck)
			if late {
				hung = true
			}
			lm.Unlock()
			if late {
				cmd.Process.Kill()
				return
			}
		}
	}()
	in := bufio.NewReaderSize(r, 1<<20)
	cur := -1
	ended := false
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			break
		}
		lm.Lock()
		last = time.Now().UnixNano()
		lm.Unlock()
		line = line[:len(line)-1]
		if line == "E" {
			ended = true
			continue
		}
		kind, rest := line[0], line[2:]
		t.Lock()
		switch kind {
		case 'S':
			fmt.Sscanf(rest, "%d", &cur)
		case 'R':
			var i, st, lb, sw, ops, cmp, nt, mt, ex, peak int
			var clk int64
			var h, d string
			fmt.Sscanf(rest, "%d %s %s %d %d %d %d %d %d %d %d %d %d", &i, &h, &d, &st, &lb, &sw, &ops, &cmp, &nt, &mt, &clk, &ex, &peak)
			t.runs++
			t.steps += int64(st)
			t.lib += int64(lb)
			t.switches += int64(sw)
			t.ops += int64(ops)
			t.compared += int64(cmp)
			if clk > 0 && clk < 1<<40 {
				t.simclk += clk
			}
			t.execs += int64(ex)
			if mt > t.maxTask {
				t.maxTask = mt
			}
			if peak > t.peak {
				t.peak = peak
			}
			if sw > 1 {
				t.hashes[h] = true
			}
			if nt == 1 && !t.digests[d] {
				t.digests[d] = true
				t.nontriv++
			}
		case 'L':
			var i int
			fmt.Sscanf(rest, "%d", &i)
			if k := strings.IndexByte(rest, ' '); len(t.samples) < 3 {
				t.samples[i] = json.RawMessage(rest[k+1:])
			}
		case 'D':
			t.ndiffs++
			if len(t.diffs) < 3 {
				t.diffs = append(t.diffs, rest)
			}
		case 'U':
			t.unusable++
			t.unusableEx = rest
		case 'K':
			t.known[rest]++
		case 'F':
			var f struct{ Fired, Sched map[string]int }
			json.Unmarshal([]byte(rest), &f)
			for k, v := range f.Fired {
				t.fired[k] += v
			}
			for k, v := range f.Sched {
				t.sched[k] += v
			}
		case 'T':
			b, _ := base64.StdEncoding.DecodeString(rest)
			for i := 0; i+8 <= len(b); i += 8 {
				t.states[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
			}
		case 'V':
			var o Outcome
			sp := strings.IndexByte(rest, ' ')
			json.Unmarshal([]byte(rest[sp+1:]), &o)
			if t.hit == nil {
				t.hit = &found1{index: cur, o: &o, first: k}
				go stop()
			}
		}
		t.Unlock()
	}
	err := cmd.Wait()
	close(quit)
	t.Lock()
	defer t.Unlock()
	if ended || t.hit != nil || t.err != "" {
		return
	}
	lm.Lock()
	h := hung
	lm.Unlock()
	if h {
		t.hit = &found1{index: cur, o: hang(stuck), first: k}
		go stop()
		return
	}
	if o := deathOutcome(errb.String(), err); o != nil {
		t.hit = &found1{index: cur, o: o, first: k, dead: errb.String()}
		go stop()
		return
	}
	t.err = fmt.Sprintf("worker %d ended during run %d: %v\n%s", k, cur, err, tail(errb.String(), 3000))
	go stop()
}

// ---- after a hit ----

type Replay struct {
	Property    string    `json:"property"`
	Class       string    `json:"class"`
	Detail      string    `json:"detail"`
	BaseSeed    uint64    `json:"base_seed"`
	Seed        uint64    `json:"seed"`
	Race        bool      `json:"race"`
	Level       int       `json:"level"`
	PrefixSeeds []uint64  `json:"prefix_seeds,omitempty"`
	Scenario    *Scenario `json:"scenario"`
	Log         []string  `json:"log,omitempty"`
	Candidates  int       `json:"shrink_candidates"`
}

const jobLimit = stuck / 2

func (t *totals) investigate() (bool, string, string) {
	h := t.hit
	seed := seedOf(*fProp, *fSeed, h.index)
	trace := filepath.Join(*fScratch, "trace")
	sc := scenario(*fProp, seed)
	if h.o.Class == "error" {
		return false, "", h.o.Detail
	}
	res, err := runJob(&Job{Kind: "run", Sc: sc, TraceOut: trace}, stuck)
	if err != nil {
		return false, "", fmt.Sprintf("re-running seed %d: %v", seed, err)
	}
	rp := &Replay{Property: *fProp, BaseSeed: *fSeed, Seed: seed, Race: raceBuild, Level: *fLevel}
	if res.O.Class == "" || kindOf(res.O.Class) != kindOf(h.o.Class) {
		// needs what earlier runs left behind
		var prefix []uint64
		for i := h.first; i < h.index; i += *fWorkers {
			prefix = append(prefix, seedOf(*fProp, *fSeed, i))
		}
		check := func(p []uint64) *Outcome {
			res, err := runJob(&Job{Kind: "run", Sc: sc, TraceOut: trace, PrefixSeeds: p}, stuck+time.Duration(len(p))*time.Second/10)
			if err == nil && res.O != nil && kindOf(res.O.Class) == kindOf(h.o.Class) {
				return res.O
			}
			return nil
		}
		var o *Outcome
		keep := prefix
		for n := 1; ; n *= 4 {
			if n > len(prefix) {
				n = len(prefix)
			}
			keep = prefix[len(prefix)-n:]
			if o = check(keep); o != nil || n == len(prefix) {
				break
			}
		}
		if o == nil {
			return false, "", fmt.Sprintf("run %d (seed %d) reported %s\n%s\nbut does not do so when repeated", h.index, seed, h.o.Class, h.o.Detail)
		}
		// reduce the prefix
		end := time.Now().Add(60 * time.Second)
		for size := (len(keep) + 1) / 2; size >= 1 && time.Now().Before(end); size /= 2 {
			for i := 0; i < len(keep) && time.Now().Before(end); {
				j := i + size
				if j > len(keep) {
					j = len(keep)
				}
				cand := append(append([]uint64{}, keep[:i]...), keep[j:]...)
				if x := check(cand); x != nil {
					keep, o = cand, x
				} else {
					i = j
				}
				rp.Candidates++
			}
		}
		rp.PrefixSeeds = keep
		sc.Trace, sc.UseTrace = o.Trace, true
		rp.Scenario, rp.Class, rp.Detail = sc, o.Class, o.Detail
	} else if h.o.Class == "hang" {
		rp.Scenario, rp.Class, rp.Detail = sc, h.o.Class, h.o.Detail
	} else {
		s := &shrinker{sc: sc, o: res.O, end: time.Now().Add(time.Duration(60+*fSecs/4) * time.Second)}
		s.sc.Trace, s.sc.UseTrace = res.O.Trace, true
		s.run()
		rp.Scenario, rp.Class, rp.Detail, rp.Candidates = s.sc, s.o.Class, s.o.Detail, s.n
	}
	// the minimised trace must reproduce in fresh processes; if it does not,
	// the whole run has to
	whole := false
	for k := 0; k < 2; k++ {
		res, err := runJob(&Job{Kind: "run", Sc: rp.Scenario, Log: true, PrefixSeeds: rp.PrefixSeeds, TraceOut: trace}, stuck+time.Duration(len(rp.PrefixSeeds))*time.Second/10)
		if err != nil || res.O == nil || kindOf(res.O.Class) != kindOf(rp.Class) {
			if !whole {
				whole, k = true, -1
				rp.Scenario, rp.Class = scenario(*fProp, seed), h.o.Class
				continue
			}
			return false, "", fmt.Sprintf("seed %d: replay does not reproduce %s (%v)", seed, rp.Class, err)
		}
		rp.Class, rp.Detail, rp.Log = res.O.Class, res.O.Detail, res.O.Log
	}
	os.MkdirAll(*fOut, 0755)
	path := filepath.Join(*fOut, fmt.Sprintf("%s-%016x.json", *fProp, seed))
	data, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(path, append(data, '\n'), 0644); err != nil {
		return false, "", err.Error()
	}
	text := fmt.Sprintf("%s broken in run %d (seed %d): %s\n%s\nminimised to %d tasks, %d calls, %d context switches after %d candidates", *fProp, h.index, seed, rp.Class, head(rp.Detail, 4000), len(rp.Scenario.Tasks), countOps(rp.Scenario), len(rp.Scenario.Trace), rp.Candidates)
	return true, path, text
}

func countOps(sc *Scenario) int {
	n := 0
	for _, t := range sc.Tasks {
		n += len(t)
	}
	return n
}

func runReplay() int {
	data, err := os.ReadFile(*fFile)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(data, &rp); err != nil {
		fmt.Println(err)
		return 2
	}
	res, err := runJob(&Job{Kind: "run", Sc: rp.Scenario, Log: true, PrefixSeeds: rp.PrefixSeeds, TraceOut: filepath.Join(*fScratch, "trace")}, stuck+time.Duration(len(rp.PrefixSeeds))*time.Second/10)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for _, l := range res.O.Log {
		fmt.Println(l)
	}
	if res.O.Class == "" {
		fmt.Println("not reproduced: the property held")
		return 0
	}
	fmt.Printf("%s\n%s\n", res.O.Class, res.O.Detail)
	same := true
	for i := range rp.Log {
		if i >= len(res.O.Log) || rp.Log[i] != res.O.Log[i] {
			same = false
		}
	}
	fmt.Println("identical event log:", same && len(rp.Log) == len(res.O.Log))
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, *fFile)
	return 1
}

// ---- shrinking ----

type shrinker struct {
	sc  *Scenario
	o   *Outcome
	end time.Time
	n   int
}

func clone(sc *Scenario) *Scenario {
	b, _ := json.Marshal(sc)
	var c Scenario
	json.Unmarshal(b, &c)
	return &c
}

type edit func(sc *Scenario) bool

func (s *shrinker) test(cs []*Scenario, kind string, tries int) (*Scenario, *Outcome) {
	type r struct {
		sc *Scenario
		o  *Outcome
	}
	out := make([]r, len(cs))
	var wg sync.WaitGroup
	for i := range cs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			tf := filepath.Join(*fScratch, fmt.Sprintf("trace%d", i))
			res, err := runJob(&Job{Kind: kind, Sc: cs[i], Class: s.o.Class, Tries: tries, TraceOut: tf}, stuck/3)
			if err != nil || res.O == nil || kindOf(res.O.Class) != kindOf(s.o.Class) {
				return
			}
			sc := res.Sc
			if sc == nil { // died, or kind run
				sc = cs[i]
				sc.Trace, sc.UseTrace = res.O.Trace, true
			}
			out[i] = r{sc, res.O}
		}(i)
	}
	wg.Wait()
	s.n += len(cs)
	for _, x := range out {
		if x.sc != nil {
			return x.sc, x.o
		}
	}
	return nil, nil
}

func (s *shrinker) run() {
	for changed := true; changed && time.Now().Before(s.end); {
		changed = false
		for _, pass := range []func(*Scenario) []edit{dropTasks, dropSets, dropOps, dropRules, dropMsgs, dropFaults, dropFlags, simplifyConds, simplifyTexts, simplifyMsgs} {
			for again := true; again && time.Now().Before(s.end); {
				again = false
				var batch []*Scenario
				for _, e := range pass(s.sc) {
					c := clone(s.sc)
					if e(c) && c.sync() {
						batch = append(batch, c)
					}
				}
				for len(batch) > 0 && time.Now().Before(s.end) {
					n := 8
					if n > len(batch) {
						n = len(batch)
					}
					if sc, o := s.test(batch[:n], "try", 40); sc != nil {
						s.sc, s.o = sc, o
						again, changed = true, true
						break
					}
					batch = batch[n:]
				}
			}
		}
	}
	// fewer context switches
	for size := (len(s.sc.Trace) + 1) / 2; size >= 1 && time.Now().Before(s.end); {
		hit := false
		var batch []*Scenario
		for i := 0; i < len(s.sc.Trace); i += size {
			j := i + size
			if j > len(s.sc.Trace) {
				j = len(s.sc.Trace)
			}
			c := clone(s.sc)
			c.Trace = append(append([]rt.Slice{}, s.sc.Trace[:i]...), s.sc.Trace[j:]...)
			batch = append(batch, c)
		}
		for len(batch) > 0 && time.Now().Before(s.end) {
			n := 8
			if n > len(batch) {
				n = len(batch)
			}
			if sc, o := s.test(batch[:n], "run", 0); sc != nil && len(sc.Trace) < len(s.sc.Trace) {
				s.sc, s.o = sc, o
				hit = true
				break
			}
			batch = batch[n:]
		}
		if !hit {
			size /= 2
		} else if size > (len(s.sc.Trace)+1)/2 {
			size = (len(s.sc.Trace) + 1) / 2
		}
	}
}

func dropTasks(sc *Scenario) (es []edit) {
	for i := range sc.Tasks {
		i := i
		es = append(es, func(c *Scenario) bool {
			if len(c.Tasks) < 2 {
				return false
			}
			c.Tasks = append(c.Tasks[:i], c.Tasks[i+1:]...)
			c.UseTrace = false
			return true
		})
	}
	return
}

func dropOps(sc *Scenario) (es []edit) {
	for t := range sc.Tasks {
		for i := range sc.Tasks[t] {
			t, i := t, i
			es = append(es, func(c *Scenario) bool {
				c.Tasks[t] = append(c.Tasks[t][:i], c.Tasks[t][i+1:]...)
				return true
			})
		}
	}
	return
}

func dropSets(sc *Scenario) (es []edit) {
	for k := range sc.Sets {
		k := k
		es = append(es, func(c *Scenario) bool {
			if len(c.Sets) < 2 || len(c.Files) > 0 {
				return false
			}
			c.Sets = append(c.Sets[:k], c.Sets[k+1:]...)
			for i := range c.Sets {
				if s := &c.Sets[i]; s.Copy > k+1 {
					s.Copy--
				} else if s.Copy == k+1 {
					s.Copy = 0
				}
			}
			return c.filter(func(o *Op) bool {
				if o.Set > k {
					o.Set--
					return true
				}
				return o.Set != k
			})
		})
	}
	return
}

// filter keeps the operations f approves of; it reports whether any are left.
func (sc *Scenario) filter(f func(*Op) bool) bool {
	n := 0
	for t := range sc.Tasks {
		ops := []Op{}
		for _, o := range sc.Tasks[t] {
			if f(&o) {
				ops = append(ops, o)
			}
		}
		sc.Tasks[t] = ops
		n += len(ops)
	}
	return n > 0
}

// sync makes copied rule sets equal to what they are copied from.
func (sc *Scenario) sync() bool {
	for i := range sc.Sets {
		if c := sc.Sets[i].Copy; c > 0 {
			sc.Sets[i] = sc.Sets[c-1]
			sc.Sets[i].Copy = c
			for t := range sc.Tasks {
				for k := range sc.Tasks[t] {
					if op := &sc.Tasks[t][k]; op.Set == i && op.Rule >= len(sc.Sets[i].Rules) {
						op.Rule = 0
					}
				}
			}
		}
	}
	return true
}

func dropRules(sc *Scenario) (es []edit) {
	for s := range sc.Sets {
		for r := range sc.Sets[s].Rules {
			s, r := s, r
			es = append(es, func(c *Scenario) bool {
				if len(c.Sets[s].Rules) < 2 || c.Sets[s].Copy > 0 {
					return false
				}
				c.Sets[s].Rules = append(c.Sets[s].Rules[:r], c.Sets[s].Rules[r+1:]...)
				return c.filter(func(o *Op) bool {
					if o.Set == s && o.Rule > r {
						o.Rule--
					} else if o.Set == s && o.Rule == r {
						o.Rule = 0
					}
					return true
				})
			})
		}
	}
	return
}

func dropMsgs(sc *Scenario) (es []edit) {
	for m := range sc.Msgs {
		m := m
		es = append(es, func(c *Scenario) bool {
			if len(c.Msgs) < 2 {
				return false
			}
			c.Msgs = append(c.Msgs[:m], c.Msgs[m+1:]...)
			ds := []Dmg{}
			for _, d := range c.Damage {
				if d.Msg > m {
					d.Msg--
				} else if d.Msg == m {
					continue
				}
				ds = append(ds, d)
			}
			c.Damage = ds
			return c.filter(func(o *Op) bool {
				if o.Msg > m {
					o.Msg--
				} else if o.Msg == m {
					o.Msg = 0
				}
				if o.K == "cover" && o.N > len(c.Msgs) {
					o.N = len(c.Msgs)
				}
				return true
			})
		})
	}
	return
}

func dropFaults(sc *Scenario) (es []edit) {
	for i := range sc.Faults {
		i := i
		es = append(es, func(c *Scenario) bool {
			c.Faults = append(c.Faults[:i], c.Faults[i+1:]...)
			return true
		})
	}
	for i := range sc.Damage {
		i := i
		es = append(es, func(c *Scenario) bool {
			c.Damage = append(c.Damage[:i], c.Damage[i+1:]...)
			return true
		})
	}
	if sc.Host.Log != "discard" {
		es = append(es, func(c *Scenario) bool { c.Host.Log = "discard"; return true })
	}
	if sc.Host.Zone != 0 {
		es = append(es, func(c *Scenario) bool { c.Host.Zone = 0; return true })
	}
	return
}

func dropFlags(sc *Scenario) (es []edit) {
	for s := range sc.Sets {
		s := s
		if sc.Sets[s].Prep {
			es = append(es, func(c *Scenario) bool { c.Sets[s].Prep = false; return true })
		}
		if sc.Sets[s].Warm {
			es = append(es, func(c *Scenario) bool { c.Sets[s].Warm = false; return true })
		}
		if sc.Sets[s].Bind >= 0 {
			es = append(es, func(c *Scenario) bool { c.Sets[s].Bind = -1; return true })
		}
	}
	if sc.Global != 0 {
		es = append(es, func(c *Scenario) bool { c.Global = 0; return true })
	}
	return
}

func simplifyConds(sc *Scenario) (es []edit) {
	for s := range sc.Sets {
		for r := range sc.Sets[s].Rules {
			s, r := s, r
			root := sc.Sets[s].Rules[r].Cond
			if root == nil {
				continue
			}
			es = append(es, func(c *Scenario) bool { c.Sets[s].Rules[r].Cond = nil; return true })
			for i := range root.Subs {
				i := i
				if root.K != "any" && root.K != "all" {
					es = append(es, func(c *Scenario) bool {
						c.Sets[s].Rules[r].Cond = c.Sets[s].Rules[r].Cond.Subs[i]
						return true
					})
				}
			}
			n := root.nodes()
			for k := 0; k < n; k++ {
				k := k
				es = append(es, func(c *Scenario) bool {
					x := c.Sets[s].Rules[r].Cond.node(&k)
					if x == nil || len(x.Subs) == 0 {
						return false
					}
					if len(x.Subs) > 1 {
						x.Subs = x.Subs[1:]
						return true
					}
					y := x.Subs[0]
					if (y.K == "and" || y.K == "or" || y.K == "not") && len(y.Subs) > 0 {
						x.Subs[0] = y.Subs[0]
						return true
					}
					return false
				})
			}
		}
	}
	return
}

func (c *MCond) nodes() int {
	n := 1
	for _, s := range c.Subs {
		n += s.nodes()
	}
	return n
}

func (c *MCond) node(k *int) *MCond {
	if *k == 0 {
		return c
	}
	*k--
	for _, s := range c.Subs {
		if x := s.node(k); x != nil {
			return x
		}
	}
	return nil
}

func simplifyTexts(sc *Scenario) (es []edit) {
	used := map[int]bool{}
	for _, t := range sc.Tasks {
		for _, o := range t {
			if strings.HasPrefix(o.K, "load") {
				used[o.N] = true
			}
		}
	}
	for i := range sc.Texts {
		if !used[i] {
			continue
		}
		i := i
		lines := strings.Split(string(sc.Texts[i]), "\n")
		for size := (len(lines) + 1) / 2; size >= 1; size /= 2 {
			for a := 0; a < len(lines); a += size {
				a, b := a, a+size
				if b > len(lines) {
					b = len(lines)
				}
				es = append(es, func(c *Scenario) bool {
					l := append(append([]string{}, lines[:a]...), lines[b:]...)
					c.Texts[i] = Bytes(strings.Join(l, "\n"))
					return true
				})
			}
		}
	}
	for i := range sc.Msgs {
		if sc.Msgs[i].Rep != "r" {
			continue
		}
		i := i
		raw := sc.Msgs[i].Raw
		for size := (len(raw) + 1) / 2; size >= 1; size /= 2 {
			for a := 0; a < len(raw); a += size {
				a, b := a, a+size
				if b > len(raw) {
					b = len(raw)
				}
				es = append(es, func(c *Scenario) bool {
					c.Msgs[i].Raw = raw[:a] + raw[b:]
					return true
				})
			}
			if size < 8 {
				break
			}
		}
	}
	return
}

func simplifyMsgs(sc *Scenario) (es []edit) {
	for i := range sc.Msgs {
		d, ok := sc.Msgs[i].Doc.(map[string]interface{})
		if !ok {
			continue
		}
		i := i
		for _, k := range docKeys(d) {
			k := k
			es = append(es, func(c *Scenario) bool {
				delete(c.Msgs[i].Doc.(map[string]interface{}), k)
				return true
			})
		}
	}
	return
}

// ---- evidence ----

func (t *totals) evidence(wall, explored float64, violations int) error {
	level := "exploration"
	samples := []interface{}{}
	keys := []int{}
	for k := range t.samples {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	for _, k := range keys {
		seed := seedOf(*fProp, *fSeed, k)
		sc := scenario(*fProp, seed)
		s := map[string]interface{}{"run": k, "seed": fmt.Sprint(seed), "schedule": sc.Sched, "events": t.samples[k]}
		if len(sc.Sets) > 0 {
			s["rules"] = rulesYaml(sc.Sets[0].Rules)
		}
		if len(sc.Faults) > 0 {
			s["faults"] = sc.Faults
		}
		samples = append(samples, s)
	}
	cov := map[string]interface{}{
		"evaluations":                       t.runs,
		"distinct_nontrivial":               t.nontriv,
		"rule":                              ruleText1[*fProp],
		"samples":                           samples,
		"executions":                        t.execs,
		"runs_per_hour":                     int(float64(t.runs) / explored * 3600),
		"calls":                             t.ops,
		"comparisons":                       t.compared,
		"distinct_interleavings":            len(t.hashes),
		"interleaving_measure":              "hash of the sequence of (task, source line it resumes at) over all context switches of a run; runs without a switch do not count",
		"distinct_states":                   len(t.states),
		"state_measure":                     "vector of the source lines all tasks stand at, taken at every context switch",
		"context_switches":                  t.switches,
		"simulated_steps":                   t.steps,
		"library_steps":                     t.lib,
		"longest_task_steps":                t.maxTask,
		"peak_of_step_budget_permille":      t.peak,
		"simulated_clock_seconds":           t.simclk,
		"faults_fired":                      t.fired,
		"schedulers":                        t.sched,
		"model_overruled_by_undisturbed":    t.ndiffs,
		"model_overruled_samples":           t.diffs,
		"runs_that_could_not_be_set_up":     t.unusable,
		"known_findings_met":                t.known,
		"seeds":                             fmt.Sprintf("mix(VERIF_SEED=%d, property, 0..%d)", *fSeed, t.runs-1),
		"worker_processes":                  *fWorkers,
		"instrumentation_level":             *fLevel,
		"components_real":                   "MAPL_engine (instrumented copy of the working tree), jsonslice, jsonpath, xpression, pretty, deepcopy, yaml.v2, mongo bson, Go standard library incl. maps, mutexes, channels",
		"components_simulated":              "scheduler, map/hash/select randomness, sync.Pool reuse, disk below the loaders, clock, local zone, stderr/stdout, process exit",
		"race_detector":                     raceBuild,
		"wall_seconds_spent_on_exploration": explored,
	}
	ev := map[string]interface{}{"property": *fProp, "tier": *fTier, "seed": *fSeed, "level": level, "coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": []string{"interleavings are explored at statement granularity under sequential consistency", "the patched Go runtime differs from the real one only in where randomness comes from and who is scheduled"}}
	data, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(*fEv, append(data, '\n'), 0644)
}

var ruleText1 = map[string]string{}

func init() {
	common := "Each run is generated from its own seed: rules, messages, lists, tasks with calls, faults, schedule. "
	for p, s := range map[string]string{
		"C01": "Non-trivial: at least one compared call had a rule that applied or extra data. Distinct: different event log and schedule.",
		"C02": "Non-trivial: at least one call was made. Distinct: different event log and schedule.",
		"C16": "Non-trivial: at least one call was made. Distinct: different event log and schedule.",
		"C04": "Non-trivial: at least one call whose answer differs between list versions entered the history. Distinct: different event log and schedule.",
		"C08": "Non-trivial: at least one loader opened a simulated file. Distinct: different event log and schedule.",
		"C11": "Non-trivial: at least one saved rule was restored and compared. Distinct: different event log and schedule.",
		"C18": "Non-trivial: at least one load was compared with the same load made alone. Distinct: different event log and schedule.",
		"C28": "Non-trivial: all rounds were completed and the memory was measured. Distinct: different event log of the first rounds or schedule.",
		"C15": "Non-trivial: at least two identities of one rule were compared. Distinct: different event log and schedule.",
	} {
		ruleText1[p] = common + s
	}
	for _, p := range allProps {
		if ruleText1[p] != "" {
			continue
		}
		switch p {
		case "C05", "C17", "C19":
			ruleText1[p] = ruleText1["C04"]
		default:
			ruleText1[p] = ruleText1["C01"]
		}
	}
}
