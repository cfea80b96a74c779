package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"strings"

	M "github.com/octarinesec/MAPL/MAPL_engine"
	"github.com/octarinesec/MAPL/verifsim/rt"
	"go.mongodb.org/mongo-driver/bson"
	"gopkg.in/yaml.v2"
)

// Outcome of one run.
type Outcome struct {
	Seed      uint64         `json:"seed"`
	Class     string         `json:"class"` // "" means the property held
	Detail    string         `json:"detail,omitempty"`
	Trace     []rt.Slice     `json:"trace,omitempty"`
	Log       []string       `json:"log,omitempty"`
	Steps     int            `json:"steps"`
	LibSteps  int            `json:"lib_steps"`
	Switches  int            `json:"switches"`
	MaxTask   int            `json:"max_task"`
	Peak      int            `json:"peak"` // per mille of the step budget
	Hash      uint64         `json:"hash"`
	Ops       int            `json:"ops"`
	Compared  int            `json:"compared"`
	Fired     map[string]int `json:"fired,omitempty"`
	SimClock  int64          `json:"sim_clock"`
	Execs     int            `json:"execs"`
	ModelDiff string         `json:"model_diff,omitempty"` // model disagrees with undisturbed calls
	states    map[uint64]struct{}
	digest    uint64
	nontriv   bool
	linStates int
}

// budget is the number of steps no run of the scenario may need: generous for
// its rules and payloads, and finite. It is made of sizes, not of timings.
func (sc *Scenario) budget() int {
	total := 0
	for _, t := range sc.Tasks {
		for _, op := range t {
			n := 1
			switch op.K {
			case "check", "rcheck", "checkone", "tcond", "tcondf", "loadcheck", "derive", "prep", "freshcheck", "observe", "ends", "msgjson":
			case "cover":
				n = op.N
			case "ffile":
				total += 25 * len((&World{sc: sc}).fileText(sc.Files[op.N]))
				continue
			case "load":
				total += 25 * len(rulesYaml(sc.Sets[op.Set].Rules))
				continue
			default:
				continue
			}
			for k := 0; k < n && len(sc.Msgs) > 0; k++ {
				m := &sc.Msgs[(op.Msg+k)%len(sc.Msgs)]
				for i := range sc.Sets[op.Set].Rules {
					total += sc.Sets[op.Set].Rules[i].Cond.work(&env{m: m})
				}
			}
		}
	}
	return 3000000 + 4*total
}

// work bounds the number of payload characters the evaluation looks at.
func (c *MCond) work(e *env) int {
	if c == nil {
		return 0
	}
	text := docText(e.m.Doc)
	if e.m.Rep == "r" {
		text = string(e.m.Raw)
	}
	if e.has && strings.Contains(c.Attr+c.Parent, "$RELATIVE") {
		text = docText(e.rel)
	}
	n := len(text) + 50
	if strings.Contains(c.Attr+c.Parent, "..") {
		// every part is looked at once for each part it is in
		n *= 1 + nesting(text)
	}
	if c.K != "any" && c.K != "all" {
		for _, s := range c.Subs {
			n += s.work(e)
		}
		return n
	}
	elems, _ := elements(c.Parent, e)
	for _, el := range elems {
		n += len(docText(el)) + c.Subs[0].work(&env{m: e.m, rel: el, has: true})
	}
	return n
}

func nesting(text string) int {
	d, max := 0, 0
	for _, c := range text {
		switch c {
		case '[', '{':
			d++
		case ']', '}':
			d--
		}
		if d > max {
			max = d
		}
	}
	return max
}

func hashText(h uint64, s string) uint64 {
	if h == 0 {
		h = 14695981039346656037
	}
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// execute performs the scenario once.
func execute(sc *Scenario, on func(t int)) (*World, *rt.Run, string) {
	rt.Seed(sc.RandSeed)
	rt.Reset()
	host := &hostSim{h: sc.Host, fired: map[string]int{}}
	fs := &simFS{first: map[int]int{}, fired: map[string]int{}, opens: map[int]int{}, views: map[[2]int][]byte{}, vers: map[int]int{}}
	sim.fs = fs
	host.install()
	defer host.remove()
	w, fail := newWorld(sc)
	w.host, w.fs = host, fs
	fs.w = w
	for _, f := range sc.Files {
		fs.files = append(fs.files, []byte(w.fileText(f)))
		fs.alt = append(fs.alt, []byte(f.Text))
	}
	if fail != "" {
		return w, nil, fail
	}
	w.recs = make([][]*Rec, len(sc.Tasks))
	fns := make([]func(), len(sc.Tasks))
	for t := range sc.Tasks {
		t := t
		fns[t] = func() {
			for i, op := range sc.Tasks[t] {
				w.exec(t, i, op)
			}
		}
	}
	var ch rt.Chooser
	if sc.UseTrace {
		ch = &replayer{trace: sc.Trace, on: on}
	} else {
		c := newChooser(sc.Sched)
		c.on = on
		ch = c
	}
	rt.Idle()
	r := rt.Execute(sc.RandSeed, fns, ch, sc.budget())
	return w, r, ""
}

func (w *World) fileText(f FileSpec) string {
	if f.Body != "" {
		return string(f.Body)
	}
	switch f.Kind {
	case "rules":
		return rulesYaml(w.sc.Sets[f.Ref].Rules)
	case "lists":
		return w.sc.Lists[f.Ref].yaml()
	case "msgs":
		return msgsYaml(w.sc.Msgs)
	}
	return strings.Repeat("binary\x00\xff data ", 10+f.Ref*40)
}

func (o *Outcome) fail(class, format string, a ...interface{}) {
	if o.Class == "" {
		o.Class, o.Detail = class, fmt.Sprintf(format, a...)
	}
}

// runScenario executes and judges.
func runScenario(sc *Scenario, on func(t int)) *Outcome {
	o := &Outcome{Seed: sc.Seed, Fired: map[string]int{}, states: map[uint64]struct{}{}}
	if sc.Prop == "C28" {
		o.growth(sc)
		return o
	}
	w := o.once(sc, on)
	if o.Class == "setup" && sc.Prop == "C07" {
		// does it fail under every map iteration order?
		for k := uint64(1); k <= 3; k++ {
			alt, p := *sc, &Outcome{Fired: map[string]int{}, states: map[uint64]struct{}{}}
			alt.RandSeed = rt.Mix(sc.RandSeed, k)
			if p.once(&alt, nil); p.Class != "setup" {
				o.Class = "order:setup"
			}
		}
	}
	if o.Class != "" || w == nil {
		return o
	}
	judgeTwice(w, o)
	if sc.Prop == "C07" && o.Class == "" {
		// the same calls under other map iteration orders
		for k := uint64(1); k <= 3 && o.Class == ""; k++ {
			alt := *sc
			alt.RandSeed = rt.Mix(sc.RandSeed, k)
			w2 := o.once(&alt, nil)
			if o.Class == "setup" {
				o.Class = "order:setup"
			}
			if o.Class != "" || w2 == nil {
				break
			}
			judgeTwice(w2, o)
			for t := range w.recs {
				for i := range w.recs[t] {
					a, b := w.recs[t][i], w2.recs[t][i]
					o.Compared++
					if a.Canon != b.Canon || a.Err != b.Err || a.Panic != b.Panic {
						o.fail("order:"+a.Op.K, "%s gives under one map order\n  %s\nand under another\n  %s", opText(a.Op), a.Canon+a.Panic, b.Canon+b.Panic)
					}
				}
			}
		}
	}
	return o
}

// reading of the live memory.
type reading struct{ objects, bytes int64 }

func (a reading) minus(b reading) reading {
	return reading{a.objects - b.objects, a.bytes - b.bytes}
}

func live() reading {
	var ms runtime.MemStats
	on := runtime.VerifRandOn
	runtime.VerifRandOn = false
	runtime.VerifClearPools()
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&ms)
	runtime.VerifRandOn = on
	return reading{int64(ms.HeapObjects), int64(ms.HeapAlloc)}
}

// growth repeats the calls of the scenario over and over, each time under
// another schedule, and watches what stays behind.
func (o *Outcome) growth(sc *Scenario) {
	rt.Seed(sc.RandSeed)
	rt.Reset()
	host := &hostSim{h: sc.Host, fired: o.Fired}
	fs := &simFS{fired: o.Fired}
	sim.fs = fs
	host.install()
	defer host.remove()
	w, fail := newWorld(sc)
	if fail != "" {
		o.fail("setup", "%s", fail)
		return
	}
	w.host, w.fs, fs.w = host, fs, w
	for _, f := range sc.Files {
		fs.files = append(fs.files, []byte(w.fileText(f)))
		fs.alt = append(fs.alt, []byte(f.Text))
	}
	n := uint64(0)
	rounds := func(k int) bool {
		for ; k > 0 && o.Class == ""; k-- {
			n++
			fs.hs, fs.first, fs.opens, fs.views, fs.vers = nil, map[int]int{}, map[int]int{}, map[[2]int][]byte{}, map[int]int{}
			w.recs = make([][]*Rec, len(sc.Tasks))
			fns := make([]func(), len(sc.Tasks))
			for t := range sc.Tasks {
				t := t
				fns[t] = func() {
					for i, op := range sc.Tasks[t] {
						w.exec(t, i, op)
					}
				}
			}
			spec := sc.Sched
			spec.Seed = rt.Mix(spec.Seed, n)
			rt.Idle()
			r := rt.Execute(rt.Mix(sc.RandSeed, n), fns, newChooser(spec), sc.budget())
			o.Execs++
			o.Steps += r.Steps
			o.LibSteps += r.LibSteps
			o.Switches += r.Switches
			if r.MaxTask > o.MaxTask {
				o.MaxTask = r.MaxTask
			}
			o.Hash = o.Hash*31 + r.SchedHash
			if n == 1 {
				o.states = r.States
			}
			for _, recs := range w.recs {
				for _, rec := range recs {
					o.Ops++
					if n <= 2 {
						line := fmt.Sprintf("round %d t%d.%d inv=%d ret=%d %s -> err=%v panic=%q exit=%q %s", n, rec.Task, rec.Idx, rec.Inv, rec.Ret, opText(rec.Op), rec.Err, rec.Panic, rec.Exit, rec.Canon)
						o.digest = hashText(o.digest, line)
						if keepLog {
							o.Log = append(o.Log, line)
						}
					}
				}
			}
			for _, h := range fs.hs {
				if h.open {
					o.fail("handle", "round %d: file %d is still open after all calls returned", n, h.file)
				}
			}
			switch {
			case r.Deadlock != "":
				o.fail("deadlock", "no task can run: %s", r.Deadlock)
			case r.OverBudget != "":
				o.fail("endless", "step budget exhausted: %s", r.OverBudget)
			case r.Leaked > 0:
				o.fail("leak", "%d goroutines still running after all calls returned", r.Leaked)
			}
			w.recs = nil
			fs.hs = nil
		}
		return o.Class == ""
	}
	R := sc.Rounds
	if !rounds(3) {
		return
	}
	o.nontriv = true
	var at [4]reading
	at[0] = live()
	for i := 1; i <= 3; i++ {
		if !rounds(R) {
			return
		}
		at[i] = live()
		o.Compared++
	}
	grown := true
	for i := 1; i <= 3; i++ {
		grown = grown && at[i].minus(at[i-1]).objects*2 >= int64(R)
	}
	if grown {
		o.fail("growth:objects", "repeating the same calls %d times leaves %d more objects in memory each time, then %d, then %d", R, at[1].minus(at[0]).objects, at[2].minus(at[1]).objects, at[3].minus(at[2]).objects)
		return
	}
	if at[3].minus(at[0]).bytes < int64(8*3*R) {
		return
	}
	// growing arrays grow in jumps: look at longer and longer stretches
	last, seen := at[3], []string{}
	for k := 50; k <= 800; k *= 2 {
		if !rounds(k) {
			return
		}
		now := live()
		o.Compared++
		d := now.minus(last).bytes
		if d < int64(4*k) {
			return
		}
		last = now
		seen = append(seen, fmt.Sprintf("%d after %d more rounds", d, k))
	}
	o.fail("growth:bytes", "repeating the same calls leaves more and more bytes in memory: %s", strings.Join(seen, ", "))
}

func opText(op Op) string {
	b, _ := json.Marshal(op)
	return string(b)
}

func (o *Outcome) once(sc *Scenario, on func(t int)) *World {
	w, r, fail := execute(sc, on)
	o.Execs++
	if fail != "" {
		if strings.HasPrefix(fail, "panic") && in(sc.Prop, "C03", "C09", "C10", "C16") {
			o.fail("setup-panic", "%s", fail)
		} else {
			o.fail("setup", "%s", fail)
		}
		return nil
	}
	for k, v := range w.fs.fired {
		o.Fired[k] += v
	}
	for k, v := range w.host.fired {
		o.Fired[k] += v
	}
	o.SimClock += w.host.now - w.host.h.Clock
	o.Steps += r.Steps
	o.LibSteps += r.LibSteps
	o.Switches += r.Switches
	for _, n := range []int{r.Steps, r.LibSteps} {
		if p := int(1000 * float64(n) / float64(sc.budget())); p > o.Peak {
			o.Peak = p
		}
	}
	if r.MaxTask > o.MaxTask {
		o.MaxTask = r.MaxTask
	}
	if o.Hash == 0 {
		o.Hash, o.Trace = r.SchedHash, r.Trace
	}
	for s := range r.States {
		o.states[s] = struct{}{}
	}
	if raceBuild && (r.Deadlock != "" || r.OverBudget != "") {
		o.fail("deadlock", "the calls do not return: %s%s", r.Deadlock, r.OverBudget)
		return nil // the records belong to tasks that have not ended
	}
	for _, recs := range w.recs {
		for _, rec := range recs {
			o.Ops++
			line := fmt.Sprintf("t%d.%d inv=%d ret=%d %s -> err=%v panic=%q exit=%q %s", rec.Task, rec.Idx, rec.Inv, rec.Ret, opText(rec.Op), rec.Err, rec.Panic, rec.Exit, rec.Canon)
			o.digest = hashText(o.digest, line)
			if keepLog {
				o.Log = append(o.Log, line)
			}
		}
	}
	o.digest = hashText(o.digest, fmt.Sprint(r.SchedHash, r.Steps, r.Trace, r.LibSteps))
	// verdicts about the run as a whole
	if r.Deadlock != "" {
		o.fail("deadlock", "no task can run: %s", r.Deadlock)
	}
	if r.OverBudget != "" {
		o.fail("endless", "step budget exhausted: %s", r.OverBudget)
	}
	for _, recs := range w.recs {
		for _, rec := range recs {
			if rec.Panic != "" && !asAlone[sc.Prop] {
				o.fail("panic:"+panicAt(rec.Panic), "%s panicked: %s", opText(rec.Op), rec.Panic)
			}
			if rec.Exit != "" && !asAlone[sc.Prop] {
				o.fail("exit", "%s ended the process: %s", opText(rec.Op), rec.Exit)
			}
			if rec.Note != "" {
				o.fail("note:"+rec.Op.K, "%s: %s", opText(rec.Op), rec.Note)
			}
		}
	}
	if r.Late != "" && sc.Prop == "C16" {
		o.fail("late", "a goroutine started by a call was still working at %s after the call had returned", r.Late)
	}
	if r.Leaked > 0 && sc.Prop == "C16" {
		o.fail("leak", "%d goroutines still running after all calls returned", r.Leaked)
	}
	return w
}

// asAlone lists the properties that promise the answer of an undisturbed
// call: crashing is their business only if the undisturbed call does not.
var asAlone = map[string]bool{"C01": true, "C06": true, "C07": true, "C12": true, "C13": true, "C14": true, "C18": true}

var keepLog bool

func panicAt(s string) string { return s[strings.LastIndex(s, " in ")+4:] }

// ---- expected answers ----

func (w *World) prepared(set, rule, v int) (*MRule, bool) {
	return w.sc.Sets[set].Rules[rule].prepare(&w.sc.Lists[v])
}

func (w *World) wantRule(set, rule, v, msg int) (int, string) {
	if w.truth != nil {
		s, d := w.truth.ask(v, Op{K: "rcheck", Set: set, Rule: rule, Msg: msg}), 0
		fmt.Sscanf(s, "%d", &d)
		return d, s
	}
	orig := &w.sc.Sets[set].Rules[rule]
	p, ok := w.prepared(set, rule, v)
	if !ok {
		return 0, ruleText(0, nil, orig)
	}
	d, ex := p.eval(&w.sc.Msgs[msg])
	return d, ruleText(d, ex, orig)
}

func (w *World) wantCond(set, rule, v, msg int) string {
	if w.truth != nil {
		return w.truth.ask(v, Op{K: "tcond", Set: set, Rule: rule, Msg: msg})
	}
	p, ok := w.prepared(set, rule, v)
	if !ok {
		return "false[]"
	}
	b, ex := p.testConditions(&w.sc.Msgs[msg])
	return fmt.Sprint(b) + extraText(ex, p.Cond.unordered())
}

func (w *World) wantMongo(set, rule, v int, base string) string {
	if w.truth != nil {
		return w.truth.ask(v, Op{K: "mongo", Set: set, Rule: rule, Arg: base})
	}
	p, ok := w.prepared(set, rule, v)
	if !ok {
		return "error"
	}
	s, _ := p.mongo(base)
	return s
}

// fold combines per-rule decisions.
func (w *World) fold(set int, ds []int) (dec, rel int, app []int, desc string) {
	rel, app = -1, []int{}
	for i, d := range ds {
		if d > 0 {
			app = append(app, i)
		}
		if d > dec {
			dec, rel, desc = d, i, w.sc.Sets[set].Rules[i].Desc
		}
	}
	return
}

func (w *World) wantCheck(set, v, msg int) string {
	if w.truth != nil {
		return w.truth.ask(v, Op{K: "check", Set: set, Msg: msg})
	}
	n := len(w.sc.Sets[set].Rules)
	ds, per := make([]int, n), make([]string, n)
	for i := 0; i < n; i++ {
		ds[i], per[i] = w.wantRule(set, i, v, msg)
	}
	dec, rel, app, desc := w.fold(set, ds)
	return checkText(dec, decisionText[dec], rel, per, app, desc)
}

func (w *World) wantCover(op Op, v int) string {
	if w.truth != nil && w.sc.Prop != "C13" {
		return w.truth.ask(v, op)
	}
	ds := []string{}
	for k := 0; k < op.N; k++ {
		for i := range w.sc.Sets[op.Set].Rules {
			d, _ := w.wantRule(op.Set, i, v, (op.Msg+k)%len(w.sc.Msgs))
			ds = append(ds, fmt.Sprint(d))
		}
	}
	return w.coverFrom(op, ds)
}

// coverFrom is the report that follows from the decisions for all messages
// and rules.
func (w *World) coverFrom(op Op, ds []string) string {
	mc, rc := map[string]M.MessageCoverage{}, map[string][]string{}
	rules := w.sc.Sets[op.Set].Rules
	for i := range rules {
		rc[rules[i].ID] = nil
	}
	for k := 0; k < op.N; k++ {
		mi := (op.Msg + k) % len(w.sc.Msgs)
		id := w.sc.Msgs[mi].ID
		c := M.MessageCoverage{}
		for i := range rules {
			d, _ := strconv.Atoi(ds[k*len(rules)+i])
			if d > 0 {
				c.IdsOfCoveringRules = append(c.IdsOfCoveringRules, rules[i].ID)
				c.DecisionsOfCoveringRules = append(c.DecisionsOfCoveringRules, d)
				rc[rules[i].ID] = append(rc[rules[i].ID], id)
				c.Covered = true
				if d > c.Decision {
					c.Decision = d
				}
			}
		}
		mc[id] = c
	}
	return coverText(mc, rc)
}

func (w *World) inForce(set int) int {
	if b := w.sc.Sets[set].Bind; b >= 0 {
		return b
	}
	return w.sc.Global
}

// wantAlone is the answer of a call that is not affected by any other call
// of the run. ok is false when the model makes no prediction for it.
func (w *World) wantAlone(op Op) (string, bool) {
	v := 0
	if op.Set < len(w.sc.Sets) && w.sc.Prop != "C18" {
		v = w.inForce(op.Set)
	}
	switch op.K {
	case "check":
		return w.wantCheck(op.Set, v, op.Msg), true
	case "rcheck", "checkone", "derive":
		_, s := w.wantRule(op.Set, op.Rule, v, op.Msg)
		return s, true
	case "tcond", "tcondf":
		return w.wantCond(op.Set, op.Rule, v, op.Msg), true
	case "mongo":
		return w.wantMongo(op.Set, op.Rule, v, op.Arg), true
	case "cover":
		return w.wantCover(op, v), true
	case "freshcheck":
		_, s := w.wantRule(op.Set, op.Rule, w.sc.Global, op.Msg)
		return s, true
	case "loadcheck":
		if w.truth != nil {
			return w.truth.ask(v, op), true
		}
		parts := []string{}
		for i := range w.sc.Msgs {
			parts = append(parts, w.plain().wantCheck(op.Set, v, i))
		}
		return strings.Join(parts, "\n"), true
	case "ends", "ident", "strings", "validate", "condeq", "json", "jsonset", "load", "loadtext", "loadjson", "loadbson", "loadlists", "loadmsgs", "loadmsg", "msgjson", "prep":
		if w.truth != nil {
			return w.truth.ask(v, op), true
		}
		return w.freshly(op), true
	}
	return "", false
}

// plain is the same world with messages that carry no payload.
func (w *World) plain() *World {
	c, sc := *w, *w.sc
	sc.Msgs = append([]MMsg{}, sc.Msgs...)
	for i := range sc.Msgs {
		sc.Msgs[i].Rep, sc.Msgs[i].Doc = "", nil
	}
	c.sc = &sc
	return &c
}

// freshly repeats a call on freshly loaded objects after the run.
func (w *World) freshly(op Op) string {
	if w.fresh == nil || w.sc.Prop == "C18" {
		rt.Reset()
		sc := w.sc
		if sc.Prop == "C18" {
			c := *sc
			c.Global = 0 // what is global is none of a load's business
			sc = &c
		}
		f, fail := newWorld(sc)
		if fail != "" {
			return fail
		}
		f.host, f.fs = w.host, w.fs
		w.fresh = f
	}
	op.Own, op.Vandal = true, false
	return w.fresh.single(op)
}

// single performs one call outside of the simulation.
func (w *World) single(op Op) string {
	w.recs = make([][]*Rec, 1)
	w.exec(0, 0, op)
	return w.recs[0][0].Canon
}

var decisionText = [...]string{"rules do not apply to message - block by default", "allow", "alert", "block"}

// truth answers calls by making them in a process that has done nothing else.
type truth struct {
	sc    *Scenario
	cache map[string]string
	err   error
}

func (t *truth) ask(v int, op Op) string {
	op.Own, op.Vandal = true, false
	key := fmt.Sprint(v, op)
	if s, ok := t.cache[key]; ok {
		return s
	}
	s, err := askAlone(t.sc, v, op)
	if err != nil {
		t.err = err
	}
	t.cache[key] = s
	return s
}

// aloneScenario is the world in which a single call is judged: nothing but
// fresh objects, the lists version in force globally, no faults.
func aloneScenario(sc *Scenario, v int, op Op) *Scenario {
	a := *sc
	a.Tasks = [][]Op{{op}}
	a.Faults, a.Files = nil, nil
	a.Host = Host{Log: "discard", Clock: 1600000000}
	a.Global = v
	a.Sets = append([]SetSpec{}, sc.Sets...)
	for i := range a.Sets {
		a.Sets[i].Bind, a.Sets[i].Warm, a.Sets[i].Copy = -1, false, 0
		a.Sets[i].Prep = a.Sets[i].Prep && in(op.K, "json", "jsonset")
	}
	return &a
}

// ---- judging ----

// judgeTwice judges against the model; what it rejects is judged again
// against undisturbed calls, because those are what the properties refer to.
func judgeTwice(w *World, o *Outcome) {
	judge(w, o)
	if o.Class == "" || !modelBased(o.Class) {
		return
	}
	class, detail := o.Class, o.Detail
	o.Class, o.Detail = "", ""
	w.truth = &truth{sc: w.sc, cache: map[string]string{}}
	judge(w, o)
	if w.truth.err != nil {
		o.Class, o.Detail = "error", "asking undisturbed processes failed: "+w.truth.err.Error()
		return
	}
	if o.Class == "" {
		o.ModelDiff = class + ": " + detail
	}
}

func modelBased(class string) bool {
	for _, p := range []string{"answer", "history", "mixture", "later", "shape"} {
		if strings.HasPrefix(class, p) {
			return true
		}
	}
	return false
}

func judge(w *World, o *Outcome) {
	sc := w.sc
	switch sc.Prop {
	case "C02", "C16":
		// the verdicts are made on the run as a whole
		w.judgeCount(o)
	case "C04", "C05", "C17":
		w.judgeHistory(o)
	case "C18":
		w.judgeAlone(o)
		w.judgeApart(o)
	case "C19":
		w.judgeHistory(o)
		w.judgeRules(o)
	case "C06", "C13", "C14":
		if sc.Prop == "C14" {
			w.judgeRetained(o)
		}
		if sc.changing() {
			w.judgeHistory(o)
		} else {
			w.judgeAlone(o)
		}
	case "C08":
		w.judgeFiles(o)
	case "C11":
		w.judgeAlone(o)
		w.judgeRestore(o)
	case "C15":
		w.judgeIdentity(o)
	default:
		w.judgeAlone(o)
	}
	if sc.Prop == "C06" {
		for i := range sc.Msgs {
			o.Compared++
			if s := w.inputsChanged(i); s != "" {
				o.fail("input", "%s", s)
			}
		}
	}
	if in(sc.Prop, "C04", "C05") {
		for i := range w.lists {
			o.Compared++
			if s := w.listsChanged(i); s != "" && w.listOK[i] {
				o.fail("lists", "%s", s)
			}
		}
	}
	switch sc.Prop {
	case "C06", "C09", "C10", "C12", "C14", "C16":
		w.judgeRules(o)
	}
}

// changing: lists are bound or replaced during the run.
func (sc *Scenario) changing() bool {
	for _, ops := range sc.Tasks {
		for _, op := range ops {
			if in(op.K, "bind", "setglobal") {
				return true
			}
		}
	}
	return false
}

func (w *World) each(f func(*Rec)) {
	for _, recs := range w.recs {
		for _, r := range recs {
			f(r)
		}
	}
}

func (w *World) judgeCount(o *Outcome) {
	w.each(func(r *Rec) { o.Compared++; o.nontriv = true })
}

func (w *World) damagedMsg(op Op) bool {
	if op.Msg >= len(w.sc.Msgs) {
		return false
	}
	n := 1
	if op.K == "cover" {
		n = op.N
	}
	for k := 0; k < n; k++ {
		i := (op.Msg + k) % len(w.sc.Msgs)
		if !in(w.sc.Msgs[i].Rep, "", "i", "b", "ib") {
			return true
		}
		for _, d := range w.sc.Damage {
			if d.Msg == i {
				return true
			}
		}
	}
	return false
}

func (w *World) judgeAlone(o *Outcome) {
	w.each(func(r *Rec) {
		if in(r.Op.K, "check", "rcheck", "checkone", "tcond", "tcondf", "cover", "ends") && w.damagedMsg(r.Op) {
			return
		}
		if w.sc.Prop == "C18" && !strings.HasPrefix(r.Op.K, "load") {
			return // somebody else's promise
		}
		want, ok := w.wantAlone(r.Op)
		if !ok {
			return
		}
		o.Compared++
		if w.sc.Prop == "C18" || strings.ContainsAny(want, "123") {
			o.nontriv = true
		}
		if r.Canon != want && o.Class == "" {
			o.fail("answer:"+r.Op.K, "%s answered\n  %s\nalone it answers\n  %s", opText(r.Op), r.Canon, want)
		}
	})
}

// judgeApart: every rule and every message of a text is what it would be in a
// text of its own.
func (w *World) judgeApart(o *Outcome) {
	if o.Class != "" {
		return
	}
	rules := func(text string) ([]string, bool) {
		rs, err := M.YamlReadRulesFromString(text)
		out := []string{}
		for i := range rs.Rules {
			b, _ := json.Marshal(&rs.Rules[i])
			one := M.Rules{Rules: rs.Rules[i : i+1]}
			out = append(out, rulesText(&one, nil)+" "+string(b)+" "+w.answers(&one, Op{K: "load", Lists: 1}))
		}
		return out, err == nil
	}
	msgs := func(text string) ([]string, bool) {
		ms, err := M.YamlReadMessagesFromString(text)
		out := []string{}
		for i := range ms.Messages {
			b, _ := json.Marshal(&ms.Messages[i])
			out = append(out, string(b))
		}
		return out, err == nil
	}
	compare := func(what, text string, apart []string, load func(string) ([]string, bool)) {
		all, ok := load(text)
		for i := range apart {
			one, ok1 := load(apart[i])
			o.Compared++
			if !ok || !ok1 || len(one) != 1 || len(all) != len(apart) {
				o.fail("apart:"+what, "loading %d %s gives %d, ok=%v; number %d alone gives %d, ok=%v", len(apart), what, len(all), ok, i, len(one), ok1)
				return
			}
			if one[0] != all[i] {
				o.fail("apart:"+what, "number %d of %d %s is loaded as\n  %s\nand alone as\n  %s", i, len(apart), what, all[i], one[0])
				return
			}
		}
	}
	for i := range w.sc.Sets {
		apart := []string{}
		for k := range w.sc.Sets[i].Rules {
			apart = append(apart, rulesYaml(w.sc.Sets[i].Rules[k:k+1]))
		}
		compare("rules", rulesYaml(w.sc.Sets[i].Rules), apart, rules)
	}
	apart := []string{}
	for k := range w.sc.Msgs {
		apart = append(apart, msgsYaml(w.sc.Msgs[k:k+1]))
	}
	compare("messages", msgsYaml(w.sc.Msgs), apart, msgs)
}

// judgeRules: the shared rules still read the same as a fresh load.
func (w *World) judgeRules(o *Outcome) {
	for i, rs := range w.sets {
		fresh, err := M.YamlReadRulesFromString(w.texts[i])
		if err != nil {
			o.fail("rules", "reload of set %d failed: %v", i, err)
			return
		}
		if w.sc.Sets[i].Prep {
			_ = M.PrepareRules(&fresh)
		}
		for k := range fresh.Rules {
			o.Compared++
			a, err1 := json.Marshal(&fresh.Rules[k])
			b, err2 := json.Marshal(&rs.Rules[k])
			if string(a) != string(b) || (err1 == nil) != (err2 == nil) || identity(&fresh.Rules[k]) != identity(&rs.Rules[k]) {
				o.fail("rules", "rule %s changed: was\n  %s\nis\n  %s", fresh.Rules[k].RuleID, a, b)
			}
		}
	}
}

func (w *World) judgeRetained(o *Outcome) {
	w.each(func(r *Rec) {
		if r.live == nil || r.Op.Vandal {
			return
		}
		o.Compared++
		if now := r.live(); now != r.Canon {
			o.fail("retained:"+r.Op.K, "result of %s was\n  %s\nand became\n  %s", opText(r.Op), r.Canon, now)
		}
	})
	if w.sc.changing() {
		return
	}
	// vandalised or not, later answers are the usual ones
	for i := range w.sets {
		for m := range w.sc.Msgs {
			msg, _ := w.build(m)
			r := &Rec{Op: Op{K: "check", Set: i, Msg: m, Own: true}}
			if pan := guarded(func() { w.doCheck(r, w.sets[i], msg) }); pan != "" {
				r.live = func() string { return "panic " + pan }
			}
			want := w.wantCheck(i, w.inForce(i), m)
			if got := r.live(); got != want {
				o.fail("later", "later %s answered\n  %s\nexpected\n  %s", opText(r.Op), got, want)
			}
			o.Compared++
		}
	}
}

func guarded(f func()) (pan string) {
	defer func() {
		if e := recover(); e != nil {
			pan = panicText(e)
		}
	}()
	f()
	return
}

func (w *World) judgeFiles(o *Outcome) {
	w.each(func(r *Rec) {
		if r.Op.K != "ffile" {
			return
		}
		f := w.sc.Files[r.Op.N]
		h := r.file
		if h == nil {
			o.fail("file", "%s: loader did not open its file", opText(r.Op))
			return
		}
		o.Compared++
		o.nontriv = true
		if h.hard != "" {
			if !r.Err {
				o.fail("file:hard:"+f.Kind, "%s loader: %s was reported by the system, the call succeeded with\n  %.300q", f.Kind, h.hard, r.text)
			}
			return
		}
		view := w.fs.view(h)
		want, ok := w.reference(f.Kind, view, r.Op.Lists)
		if r.Err {
			var any interface{}
			if ok && !h.damaged && h.soft == "" && (f.Kind == "bin" || yaml.UnmarshalStrict(view, &any) == nil) {
				o.fail("file:transient:"+f.Kind, "%s loader failed although all bytes could be read", f.Kind)
			}
			return
		}
		if f.Kind == "bin" {
			if r.text == want || ((h.soft != "" || h.damaged) && h.stat >= 0 && h.stat <= len(view) && r.text == string(view[:h.stat])) {
				return
			}
		} else if ok && r.text == want {
			return
		}
		o.fail("file:content:"+f.Kind, "%s loader succeeded with other data than the file delivered (%d bytes): got %d bytes\n  %.300q\nexpected\n  %.300q", f.Kind, len(view), len(r.text), r.text, want)
	})
}

// judgeRestore: what was saved during the run is restored after a simulated
// restart (fresh globals, fresh hash seeds) and must be the same rule.
func (w *World) judgeRestore(o *Outcome) {
	if o.Class != "" {
		return
	}
	var all []Saved
	w.each(func(r *Rec) {
		if o.Class != "" || !in(r.Op.K, "json", "bson", "jsonset", "load") {
			return
		}
		if r.Err {
			o.fail("save:"+r.Op.K, "saving failed: %s", opText(r.Op))
			return
		}
		saved := Saved{Kind: r.Op.K, Text: []byte(r.text), Set: r.Op.Set, Rule: r.Op.Rule, Lists: r.Op.Lists}
		if r.Op.K == "load" {
			saved.Text = []byte(w.texts[r.Op.Set])
		}
		all = append(all, saved)
	})
	w.ids = w.identities()
	for n, s := range all {
		if o.Class != "" {
			return
		}
		rt.Seed(rt.Mix(w.sc.RandSeed, uint64(1000+n)))
		rt.Reset()
		w.checkSaved(o, s)
	}
	if o.Class == "" && len(all) > 0 && w.sc.Seed%40 == 0 {
		// a real restart
		o.Fired["restart in a new process"]++
		res, err := runJob(&Job{Kind: "restore", Sc: w.sc, Saved: all, Ids: w.ids}, jobLimit)
		if err != nil {
			o.fail("error", "restoring in a new process: %v", err)
		} else if res.O.Class != "" {
			o.fail(res.O.Class, "in a new process: %s", res.O.Detail)
		}
	}
}

// identities of all rules as loaded from their texts.
func (w *World) identities() [][]string {
	out := make([][]string, len(w.texts))
	for i := range w.texts {
		rs, _ := M.YamlReadRulesFromString(w.texts[i])
		for k := range rs.Rules {
			out[i] = append(out[i], fmt.Sprintf("%s %s %v", rs.Rules[k].RuleID, identity(&rs.Rules[k]), rs.Rules[k].Metadata))
		}
	}
	return out
}

type Saved struct {
	Kind  string `json:"kind"`
	Text  []byte `json:"text"`
	Set   int    `json:"set"`
	Rule  int    `json:"rule"`
	Lists int    `json:"lists"`
}

func restore(s Saved) (rules []M.Rule, err error, pan string) {
	defer func() {
		if e := recover(); e != nil {
			pan = panicText(e)
		}
	}()
	switch s.Kind {
	case "json":
		var r M.Rule
		err = json.Unmarshal(s.Text, &r)
		rules = []M.Rule{r}
	case "jsonset":
		var rs M.Rules
		err = json.Unmarshal(s.Text, &rs)
		rules = rs.Rules
	case "bson":
		var r M.Rule
		err = bson.Unmarshal(s.Text, &r)
		rules = []M.Rule{r}
	case "load":
		var rs M.Rules
		rs, err = M.YamlReadRulesFromString(string(s.Text))
		rules = rs.Rules
	}
	return
}

func (w *World) checkSaved(o *Outcome, s Saved) {
	rules, err, pan := restore(s)
	if err != nil || pan != "" {
		o.fail("restore:"+s.Kind, "restoring failed: %v %s\n  %.400q", err, pan, s.Text)
		return
	}
	orig, _ := M.YamlReadRulesFromString(w.texts[s.Set])
	first, last := 0, len(orig.Rules)-1
	if s.Kind == "json" || s.Kind == "bson" {
		first, last = s.Rule, s.Rule
	}
	if len(rules) != last-first+1 {
		o.fail("restore:"+s.Kind, "restored %d rules of %d", len(rules), last-first+1)
		return
	}
	for k := first; k <= last; k++ {
		r := &rules[k-first]
		o.Compared++
		o.nontriv = true
		if a, b := w.ids[s.Set][k], fmt.Sprintf("%s %s %v", r.RuleID, identity(r), r.Metadata); a != b {
			o.fail("restore-identity:"+s.Kind, "identity was\n  %s\nrestored\n  %s", a, b)
		}
		for v := range w.sc.Lists {
			if !w.listOK[v] {
				continue
			}
			c := *r
			_, can := w.prepared(s.Set, k, v)
			if err := c.SetPredefinedStringsAndLists(w.lists[v]); (err == nil) != can {
				o.fail("restore-bind:"+s.Kind, "restored rule %s: binding lists %d gives error %v, original expected ok=%v", r.RuleID, v, err, can)
				return
			}
			if !can {
				continue
			}
			for m := range w.sc.Msgs {
				msg, _ := w.build(m)
				d, ex := c.Check(msg)
				_, want := w.wantRule(s.Set, k, v, m)
				o.Compared++
				if got := ruleText(d, ex, w.mrule(s.Set, k)); got != want {
					// the model may be the one that is wrong: ask the unsaved rule
					u := orig.Rules[k]
					_ = u.SetPredefinedStringsAndLists(w.lists[v])
					msg2, _ := w.build(m)
					d2, ex2 := u.Check(msg2)
					if got != ruleText(d2, ex2, w.mrule(s.Set, k)) {
						o.fail("restore-answer:"+s.Kind, "restored rule %s answers\n  %s\noriginal\n  %s", r.RuleID, got, want)
						return
					}
				}
			}
		}
	}
}

func (w *World) judgeIdentity(o *Outcome) {
	ref := map[string]string{}
	note := func(key, what, id string) {
		o.Compared++
		o.nontriv = true
		if old, ok := ref[key]; ok && old != id {
			o.fail("identity", "%s: identity of rule %s was\n  %s\nand is\n  %s", what, key, old, id)
		}
		ref[key] = id
	}
	key := func(set int, id string) string { return fmt.Sprintf("%s of set %d", id, set) }
	fresh := func(set int, what string) {
		text := w.texts[set]
		rs, err := M.YamlReadRulesFromString(text)
		if err != nil {
			o.fail("identity:load", "%s: %v\n%s", what, err, text)
			return
		}
		for k := range rs.Rules {
			note(key(set, rs.Rules[k].RuleID), what, identity(&rs.Rules[k]))
		}
	}
	for i := range w.texts {
		fresh(i, "loaded from the same text")
		rt.Seed(rt.Mix(w.sc.RandSeed, uint64(500+i)))
		fresh(i, "loaded again under another hash seed")
	}
	w.each(func(r *Rec) {
		switch r.Op.K {
		case "ident":
			note(key(r.Op.Set, w.sc.Sets[r.Op.Set].Rules[r.Op.Rule].ID), "during "+opText(r.Op), r.Canon)
		case "load", "loadtext":
			if r.loaded != nil {
				for k := range r.loaded.Rules {
					note(key(r.Op.Set, r.loaded.Rules[k].RuleID), "during "+opText(r.Op), identity(&r.loaded.Rules[k]))
				}
			}
		case "json", "bson":
			rs, err, _ := restore(Saved{Kind: r.Op.K, Text: []byte(r.text)})
			if err == nil && !r.Err && len(rs) == 1 {
				note(key(r.Op.Set, rs[0].RuleID), "restored from "+r.Op.K, identity(&rs[0]))
			}
		case "condeq":
			if r.Op.N%len(w.sc.Sets[r.Op.Set].Rules) == r.Op.Rule {
				o.Compared++
				if r.Canon != "true" {
					o.fail("identity:equal", "%s: the conditions of a rule do not equal themselves", opText(r.Op))
				}
			}
		}
	})
	for i := range w.sets {
		for k := range w.sets[i].Rules {
			r := &w.sets[i].Rules[k]
			note(key(i, r.RuleID), "after the run", identity(r))
			f, _ := M.YamlReadRulesFromString(w.texts[i])
			if !r.ConditionsEqual(f.Rules[k]) || !f.Rules[k].ConditionsEqual(*r) {
				o.fail("identity", "rule %s no longer compares equal to its fresh copy", r.RuleID)
			}
			for v := range w.lists {
				if !w.listOK[v] {
					continue
				}
				c, _ := M.YamlReadRulesFromString(w.texts[i])
				if c.Rules[k].SetPredefinedStringsAndLists(w.lists[v]) != nil {
					continue
				}
				note(key(i, r.RuleID), fmt.Sprintf("copy bound to lists %d", v), identity(&c.Rules[k]))
				if !r.ConditionsEqual(c.Rules[k]) || !c.Rules[k].ConditionsEqual(*r) {
					o.fail("identity", "rule %s no longer compares equal to a copy bound to lists %d", r.RuleID, v)
				}
			}
		}
	}
	rt.Seed(rt.Mix(w.sc.RandSeed, 900))
	rt.Reset()
	for i := range w.texts {
		fresh(i, "loaded after a restart")
	}
	if o.Class == "" && w.sc.Seed%40 == 0 {
		o.Fired["restart in a new process"]++
		res, err := runJob(&Job{Kind: "ids", Sc: w.sc}, jobLimit)
		if err != nil {
			o.fail("error", "asking a new process: %v", err)
			return
		}
		if a, b := fmt.Sprintf("%q", w.identities()), fmt.Sprintf("%q", res.Ids); a != b {
			o.fail("identity:restart", "identities were\n  %s\nin a new process\n  %s", a, b)
		}
	}
}

// usual: undisturbed calls answer as the model says.
func (w *World) usual(f func(v int) string) bool {
	if w.truth == nil {
		return true
	}
	t := w.truth
	defer func() { w.truth = t }()
	for v := range w.sc.Lists {
		w.truth = t
		a := f(v)
		w.truth = nil
		if a != f(v) {
			return false
		}
	}
	return true
}

// ---- linearizability of histories with bindings ----

type linOp struct {
	inv, ret int
	task     int
	rule     int // index into the flat rule list, -1
	kind     int
	version  int
	err      bool
	got      string
	want     []string // expected answer per lists version
	can      []bool   // preparable per lists version
	rec      *Rec
}

const (
	linRead  = iota // per-rule part of a check: no effect
	linUse          // first use binds
	linBind         // explicit binding
	linGlob         // global replacement
	linFresh        // first use of a rule nobody else has
)

func (w *World) judgeHistory(o *Outcome) {
	var ops []*linOp
	flat := map[[2]int]int{}
	rules := [][2]int{}
	for s := range w.sc.Sets {
		for r := range w.sc.Sets[s].Rules {
			flat[[2]int{s, r}] = len(rules)
			rules = append(rules, [2]int{s, r})
		}
	}
	nv := len(w.sc.Lists)
	can := func(s, r int) []bool {
		out := make([]bool, nv)
		for v := range out {
			_, out[v] = w.prepared(s, r, v)
		}
		return out
	}
	w.each(func(r *Rec) {
		op := r.Op
		base := linOp{inv: r.Inv, ret: r.Ret, task: r.Task, rec: r, err: r.Err, got: r.Canon, rule: -1}
		switch op.K {
		case "check":
			n := len(w.sc.Sets[op.Set].Rules)
			if r.Panic != "" || r.Exit != "" {
				return
			}
			if len(r.PerRule) != n {
				o.fail("shape", "%s returned %d results for %d rules", opText(op), len(r.PerRule), n)
				return
			}
			ds := make([]int, n)
			for k := 0; k < n; k++ {
				b := base
				b.kind, b.rule, b.got = linRead, flat[[2]int{op.Set, k}], r.PerRule[k]
				fmt.Sscanf(r.PerRule[k], "%d", &ds[k])
				same := true
				for v := 0; v < nv; v++ {
					_, s := w.wantRule(op.Set, k, v, op.Msg)
					b.want = append(b.want, s)
					same = same && s == b.want[0]
				}
				o.Compared++
				if same {
					if b.got != b.want[0] {
						o.fail("answer:check", "%s rule %d answered\n  %s\nwith every list version it should answer\n  %s", opText(op), k, b.got, b.want[0])
					}
					continue
				}
				o.nontriv = true
				ops = append(ops, &b)
			}
			dec, rel, app, desc := w.fold(op.Set, ds)
			if want := checkText(dec, decisionText[dec%4], rel, r.PerRule, app, desc); want != r.Canon && w.usual(func(v int) string { return w.wantCheck(op.Set, v, op.Msg) }) {
				o.fail("answer:fold", "%s answered\n  %s\nits own per-rule results give\n  %s", opText(op), r.Canon, want)
			}
		case "cover":
			if r.Panic != "" || r.Exit != "" {
				return
			}
			n := len(w.sc.Sets[op.Set].Rules)
			if len(r.PerRule) != n*op.N {
				o.fail("shape", "%s: incomplete report", opText(op))
				return
			}
			for i := range r.PerRule {
				b := base
				b.kind, b.rule, b.got = linRead, flat[[2]int{op.Set, i % n}], r.PerRule[i]
				same := true
				for v := 0; v < nv; v++ {
					d, _ := w.wantRule(op.Set, i%n, v, (op.Msg+i/n)%len(w.sc.Msgs))
					b.want = append(b.want, fmt.Sprint(d))
					same = same && b.want[v] == b.want[0]
				}
				o.Compared++
				if same {
					if b.got != b.want[0] {
						o.fail("answer:cover", "%s rule %d message %d answered %s, with every list version it should answer %s", opText(op), i%n, i/n, b.got, b.want[0])
					}
					continue
				}
				o.nontriv = true
				ops = append(ops, &b)
			}
			if want := w.coverFrom(op, r.PerRule); want != r.Canon && (w.sc.Prop == "C13" || w.usual(func(v int) string { return w.wantCover(op, v) })) {
				o.fail("answer:cover", "%s reported\n  %s\nits own decisions give\n  %s", opText(op), r.Canon, want)
			}
		case "freshcheck":
			b := base
			b.kind = linFresh
			for v := 0; v < nv; v++ {
				_, s := w.wantRule(op.Set, op.Rule, v, op.Msg)
				b.want = append(b.want, s)
			}
			o.nontriv = true
			ops = append(ops, &b)
		case "rcheck", "checkone", "tcond", "tcondf", "mongo":
			b := base
			b.kind, b.rule, b.can = linUse, flat[[2]int{op.Set, op.Rule}], can(op.Set, op.Rule)
			for v := 0; v < nv; v++ {
				var s string
				switch op.K {
				case "mongo":
					s = w.wantMongo(op.Set, op.Rule, v, op.Arg)
				case "rcheck", "checkone":
					_, s = w.wantRule(op.Set, op.Rule, v, op.Msg)
				default:
					s = w.wantCond(op.Set, op.Rule, v, op.Msg)
				}
				b.want = append(b.want, s)
			}
			o.nontriv = true
			ops = append(ops, &b)
		case "bind":
			b := base
			b.kind, b.rule, b.can, b.version = linBind, flat[[2]int{op.Set, op.Rule}], can(op.Set, op.Rule), op.Lists
			ops = append(ops, &b)
		case "setglobal":
			b := base
			b.kind, b.version = linGlob, op.Lists
			ops = append(ops, &b)
		case "load":
			if op.Lists == 0 && r.Err {
				o.fail("load", "%s failed", opText(op))
			}
		}
	})
	if o.Class != "" {
		return
	}
	// an answer no version gives is wrong whatever the order
	for _, p := range ops {
		if p.want == nil {
			continue
		}
		o.Compared++
		ok := false
		for _, s := range p.want {
			ok = ok || s == p.got
		}
		if !ok {
			o.fail("mixture:"+p.rec.Op.K, "%s answered\n  %s\nwhich no version of the lists gives; versions give\n  %s", opText(p.rec.Op), p.got, strings.Join(p.want, "\n  "))
			return
		}
	}
	for i := len(ops) - 1; i >= 0 && len(ops) > 60; i-- {
		if ops[i].kind == linRead {
			ops = append(ops[:i], ops[i+1:]...) // has no effect on others
		}
	}
	if len(ops) > 60 {
		o.Fired["history too large to decide"]++
		return
	}
	bind := make([]int8, len(rules))
	for i, sr := range rules {
		bind[i] = int8(w.sc.Sets[sr[0]].Bind)
		if bind[i] < 0 && w.sc.Sets[sr[0]].Warm {
			if _, can := w.prepared(sr[0], sr[1], w.sc.Global); can {
				bind[i] = int8(w.sc.Global)
			}
		}
	}
	s := &linSearch{w: w, ops: ops, seen: map[string]bool{}}
	sort.Slice(s.ops, func(i, j int) bool { return s.ops[i].inv < s.ops[j].inv })
	ok := s.dfs(0, int8(w.sc.Global), bind)
	o.linStates += len(s.seen)
	o.Compared++
	if s.gaveUp {
		o.Fired["history too large to decide"]++
		return
	}
	if !ok {
		lines := []string{}
		for _, p := range s.ops {
			which := []string{}
			for v, x := range p.want {
				if x == p.got {
					which = append(which, fmt.Sprint("L", v))
				}
			}
			lines = append(lines, fmt.Sprintf("[%d,%d] task %d %s rule#%d err=%v answer fits %v", p.inv, p.ret, p.task, p.rec.Op.K, p.rule, p.err, which)+fmt.Sprintf(" lists=%d", p.version))
		}
		o.fail("history", "no order of the calls explains the answers (longest explained prefix: %d of %d):\n  %s", s.best, len(s.ops), strings.Join(lines, "\n  "))
	}
}

type linSearch struct {
	w      *World
	ops    []*linOp
	seen   map[string]bool
	best   int
	gaveUp bool
}

func (s *linSearch) dfs(done uint64, global int8, bind []int8) bool {
	n := 0
	minRet := 1 << 60
	for i, p := range s.ops {
		if done&(1<<uint(i)) == 0 {
			if p.ret < minRet {
				minRet = p.ret
			}
		} else {
			n++
		}
	}
	if n > s.best {
		s.best = n
	}
	if n == len(s.ops) {
		return true
	}
	key := fmt.Sprint(done, global, bind)
	if s.seen[key] {
		return false
	}
	s.seen[key] = true
	if len(s.seen) > 200000 {
		s.gaveUp = true
		return true
	}
	for i, p := range s.ops {
		if done&(1<<uint(i)) != 0 || p.inv > minRet {
			continue
		}
		g, b := global, bind
		switch p.kind {
		case linRead:
			v := b[p.rule]
			if v < 0 {
				v = g
			}
			if p.want[v] != p.got {
				continue
			}
			// a read that fits now and changes nothing can always go first
			return s.dfs(done|1<<uint(i), g, b)
		case linUse:
			v := b[p.rule]
			if v < 0 {
				v = g
				if p.can[v] {
					b = append([]int8{}, b...)
					b[p.rule] = v
				}
			}
			if p.want[v] != p.got {
				continue
			}
		case linFresh:
			if p.want[g] != p.got {
				continue
			}
			return s.dfs(done|1<<uint(i), g, b)
		case linBind:
			ok := s.w.listOK[p.version] && p.can[p.version]
			if ok == p.err {
				continue
			}
			if ok {
				b = append([]int8{}, b...)
				b[p.rule] = int8(p.version)
			}
		case linGlob:
			ok := s.w.listOK[p.version]
			if ok == p.err {
				continue
			}
			if ok {
				g = int8(p.version)
			}
		}
		if s.dfs(done|1<<uint(i), g, b) {
			return true
		}
	}
	return false
}
