package main

import (
	"bufio"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"

	M "github.com/octarinesec/MAPL/MAPL_engine"
	"github.com/octarinesec/MAPL/verifsim/rt"
)

var (
	fMode    = flag.String("mode", "check", "check, worker, job, replay, log, calibrate")
	fProp    = flag.String("prop", "", "property")
	fSeed    = flag.Uint64("seed", 1, "base seed")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fSecs    = flag.Int("secs", 30, "seconds of exploration")
	fMax     = flag.Int("max", 1<<30, "number of runs")
	fWorkers = flag.Int("workers", 8, "worker processes")
	fStart   = flag.Int("start", 0, "first run")
	fStride  = flag.Int("stride", 1, "distance between runs")
	fEv      = flag.String("evidence", "", "evidence file")
	fOut     = flag.String("replays", "", "directory for replay files")
	fKnown   = flag.String("known", "", "file of known findings")
	fFile    = flag.String("file", "", "replay file")
	fScratch = flag.String("scratch", "", "scratch directory")
	fLevel   = flag.Int("level", 2, "instrumentation level of this build")
)

func main() {
	flag.Parse()
	switch *fMode {
	case "check":
		os.Exit(runCheck())
	case "replay":
		os.Exit(runReplay())
	}
	// everything below runs engine code under the simulator
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMaxStack(256 << 20)
	syscall.VerifHook = hook
	os.VerifExit = func(code int) { panic(exitPanic{code}) }
	log.SetOutput(io.Discard)
	switch *fMode {
	case "worker":
		worker()
	case "job":
		job()
	case "log":
		logs()
	case "calibrate":
		calibrate()
	default:
		realExit(2)
	}
	realExit(0)
}

func realExit(code int) {
	os.VerifExit = nil
	os.Exit(code)
}

func say(format string, a ...interface{}) {
	b := []byte(fmt.Sprintf(format, a...) + "\n")
	for len(b) > 0 {
		n, err := syscall.Write(3, b)
		if err != nil {
			realExit(3)
		}
		b = b[n:]
	}
}

func tidy() {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if ms.HeapAlloc > 200<<20 {
		runtime.VerifRandOn = false
		runtime.GC()
	}
}

// worker performs runs start, start+stride, ... until its time is up.
func worker() {
	end := time.Now().Add(time.Duration(*fSecs) * time.Second)
	fired := map[string]int{}
	states := map[uint64]struct{}{}
	sched := map[string]int{}
	known := loadKnown(*fKnown, *fProp)
	n := 0
	say("S %d", *fStart)
	warm(*fProp)
	for i := *fStart; i < *fMax && time.Now().Before(end); i += *fStride {
		seed := seedOf(*fProp, *fSeed, i)
		say("S %d", i)
		sc := scenario(*fProp, seed)
		keepLog = n == 0
		o := runScenario(sc, nil)
		if n++; n%20 == 0 {
			tidy()
		}
		if o.Class == "setup" {
			say("U %d %s", i, mustJSON(o))
			continue
		}
		if o.Class != "" {
			if k := known.match(o); k != "" {
				say("K %s", k)
				continue
			}
			o.Trace = nil
			say("V %d %s", i, mustJSON(o))
			break
		}
		for k, v := range o.Fired {
			fired[k] += v
		}
		sched[sc.Sched.Kind]++
		if len(states) < 400000 {
			for s := range o.states {
				states[s] = struct{}{}
			}
		}
		nt := 0
		if o.nontriv {
			nt = 1
		}
		say("R %d %x %x %d %d %d %d %d %d %d %d %d %d", i, o.Hash, o.digest, o.Steps, o.LibSteps, o.Switches, o.Ops, o.Compared, nt, o.MaxTask, o.SimClock, o.Execs, o.Peak)
		if o.ModelDiff != "" {
			say("D %d %s", i, mustJSON(o.ModelDiff))
		}
		if keepLog {
			say("L %d %s", i, mustJSON(o.Log))
		}
	}
	say("F %s", mustJSON(map[string]interface{}{"fired": fired, "sched": sched}))
	buf := make([]byte, 0, 8*len(states))
	for s := range states {
		buf = binary.LittleEndian.AppendUint64(buf, s)
	}
	for len(buf) > 0 {
		k := len(buf)
		if k > 60000 {
			k = 60000
		}
		say("T %s", base64.StdEncoding.EncodeToString(buf[:k]))
		buf = buf[k:]
	}
	say("E")
}

func mustJSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// Job is one request to a fresh process.
type Job struct {
	Kind     string     `json:"kind"` // run, try, alone, restore, ids
	Sc       *Scenario  `json:"sc"`
	Class    string     `json:"class,omitempty"`
	Tries    int        `json:"tries,omitempty"`
	Version  int        `json:"version,omitempty"`
	Op       Op         `json:"op"`
	Saved    []Saved    `json:"saved,omitempty"`
	Ids      [][]string `json:"ids,omitempty"`
	TraceOut string     `json:"trace_out,omitempty"`
	Log      bool       `json:"log,omitempty"`
	// runs to perform first, in this process
	PrefixSeeds []uint64 `json:"prefix_seeds,omitempty"`
}

type JobResult struct {
	Ids    [][]string `json:"ids,omitempty"`
	Answer string     `json:"answer,omitempty"`
	O      *Outcome   `json:"o,omitempty"`
	Sc     *Scenario  `json:"sc,omitempty"`
}

// kindOf is the part of a class that must stay the same while shrinking.
func kindOf(class string) string {
	if i := strings.IndexByte(class, ':'); i >= 0 && !strings.HasPrefix(class, "panic:") {
		return class[:i]
	}
	return class
}

func job() {
	data, err := io.ReadAll(os.Stdin)
	if err != nil {
		realExit(3)
	}
	var j Job
	if err := json.Unmarshal(data, &j); err != nil {
		fmt.Fprintln(os.Stderr, "bad job:", err)
		realExit(3)
	}
	if in(j.Kind, "run", "try") {
		warm(j.Sc.Prop)
	}
	for _, s := range j.PrefixSeeds {
		runScenario(scenario(j.Sc.Prop, s), nil)
	}
	var res JobResult
	switch j.Kind {
	case "alone":
		a := aloneScenario(j.Sc, j.Version, j.Op)
		rt.Seed(a.RandSeed)
		h := &hostSim{h: a.Host, fired: map[string]int{}}
		h.install()
		w, fail := newWorld(a)
		if fail != "" {
			res.Answer = "cannot be set up: " + fail
			break
		}
		w.host = h
		res.Answer = w.single(j.Op)
	case "restore":
		rt.Seed(rt.Mix(j.Sc.RandSeed, 4242))
		o := &Outcome{}
		a := *j.Sc
		a.Global, a.Tasks = 0, nil
		w, fail := newWorld(&a)
		if fail != "" {
			o.fail("setup", "%s", fail)
		} else {
			w.ids = j.Ids
			for _, s := range j.Saved {
				w.checkSaved(o, s)
			}
		}
		res.O = o
	case "ids":
		rt.Seed(rt.Mix(j.Sc.RandSeed, 4343))
		a := *j.Sc
		a.Global, a.Tasks = 0, nil
		if w, fail := newWorld(&a); fail == "" {
			res.Ids = w.identities()
		} else {
			res.Ids = [][]string{{fail}}
		}
	case "run":
		keepLog = j.Log
		res.O = runScenario(j.Sc, traceWriter(j.TraceOut))
	case "try":
		base := *j.Sc
		for k := 0; k < j.Tries; k++ {
			sc := base
			if k > 0 || !sc.UseTrace {
				sc.UseTrace, sc.Trace = false, nil
				if k > 0 {
					g := &gen{Rng: newRng(rt.Mix(base.Sched.Seed, uint64(k)))}
					sc.Sched = g.sched()
					if sc.Prop == "C07" {
						sc.RandSeed = g.u64()
					}
				}
			}
			o := runScenario(&sc, traceWriter(j.TraceOut))
			if o.Class != "" && kindOf(o.Class) == kindOf(j.Class) {
				res.O = o
				sc.UseTrace, sc.Trace = true, o.Trace
				res.Sc = &sc
				break
			}
			tidy()
		}
	}
	say("%s", mustJSON(res))
}

// traceWriter records decisions as they are made, for runs that do not
// survive to report them.
func traceWriter(path string) func(t int) {
	if path == "" {
		return nil
	}
	fd, err := syscall.Open(path, syscall.O_CREAT|syscall.O_TRUNC|syscall.O_WRONLY, 0644)
	if err != nil {
		realExit(3)
	}
	written := 0
	var run *rt.Run
	return func(t int) {
		r := rt.Current()
		if run != nil && r != run {
			return // only the first execution of a scenario
		}
		run = r
		n := len(r.Trace)
		if n > 0 && r.Trace[n-1].T == t {
			n--
		}
		var b []byte
		for ; written < n; written++ {
			b = append(b, fmt.Sprintf("%d %d\n", r.Trace[written].T, r.Trace[written].N)...)
		}
		b = append(b, fmt.Sprintf("> %d\n", t)...)
		syscall.Write(fd, b)
	}
}

func readTrace(path string) []rt.Slice {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []rt.Slice
	last := -1
	in := bufio.NewScanner(f)
	for in.Scan() {
		p := strings.Fields(in.Text())
		if len(p) != 2 {
			continue
		}
		b, _ := strconv.Atoi(p[1])
		if p[0] == ">" {
			last = b
			continue
		}
		a, _ := strconv.Atoi(p[0])
		out = append(out, rt.Slice{T: a, N: b})
	}
	if last >= 0 {
		out = append(out, rt.Slice{T: last, N: forever})
	}
	return out
}

// warm performs some runs nobody looks at, always the same ones: what standard
// library and dependencies remember about types (reflection, encoders,
// parsers) is then there before the first run that counts, so that a run is
// the same wherever in a process it comes.
func warm(prop string) {
	if *fLevel < 2 {
		return // the runs would leave their traces in the engine
	}
	seen := map[string]int{}
	for i := 0; i < 300; i++ {
		sc := scenario(prop, seedOf(prop, 0, i))
		use := i < 12
		for _, t := range sc.Tasks {
			for _, op := range t {
				k := op.K + " " + op.Arg
				use = use || seen[k] < 4
				seen[k]++
			}
		}
		if use {
			sc.Sched.Kind, sc.Faults = "serial", nil
			execute(sc, nil)
		}
	}
}

// logs prints one line per run: for comparing executions of the same seeds.
func logs() {
	warm(*fProp)
	for i := *fStart; i < *fMax; i += *fStride {
		o := runScenario(scenario(*fProp, seedOf(*fProp, *fSeed, i)), nil)
		say("%d %x %x %d %d %d %d %s", i, o.Hash, o.digest, o.Steps, o.LibSteps, o.Switches, o.Ops, o.Class)
		tidy()
	}
}

var _ = M.DEFAULT
