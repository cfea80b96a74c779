// Package rt is the simulator's scheduler. Instrumented code calls Y and H
// before each statement; of the registered tasks exactly one runs at a time,
// and which one is decided by a Chooser.
package rt

import (
	"fmt"
	"runtime"
	"time"
	"unsafe"
)

// SiteInfo describes one yield point of the instrumented code.
type SiteInfo struct {
	File string
	Line int
	Hot  bool
}

// Sites is filled by generated code.
var Sites []SiteInfo

// Slice is one scheduling decision: task T may pass N yields.
type Slice struct {
	T int `json:"t"`
	N int `json:"n"`
}

// Chooser decides who runs next. ready holds task ids in ascending order; the
// result is an index into it and the number of yields (hotOnly: of hot yields)
// the task may pass before it has to hand back control.
type Chooser interface {
	Next(ready []int, last int) (idx int, quantum int, hotOnly bool)
}

const maxTasks = 128

type task struct {
	id       int
	g        unsafe.Pointer
	gid      uint64
	quantum  int
	hotOnly  bool
	steps    int  // yields in the current slice
	total    int  // yields overall
	parked   bool // handed back control by itself
	done     bool
	entered  bool
	rand     uint64
	lastSite int32
	tired    bool // had its share without handing back control

	root  *task // of a spawned goroutine: the task whose call led to it
	call  int   // of a task: the call it is making; of a goroutine: the call that started it
	ended int   // the last call the task has returned from
	after int   // yields a goroutine passed after its call had returned

	lateNaps int // pauses made after all callers had returned
}

// Tok identifies a goroutine started by the code under test.
type Tok struct{ t *task }

var (
	active bool
	cur    *task
	tasks  [maxTasks]*task
	ntasks int
	run    *Run
	seq    int
)

// Run is the outcome of one simulated execution.
type Run struct {
	Trace      []Slice
	Steps      int // yields passed
	LibSteps   int // steps counted inside third-party libraries
	Switches   int
	SchedHash  uint64
	Naps       int // pauses asked for by the code under test
	States     map[uint64]struct{}
	Deadlock   string
	OverBudget string
	Spawned    int
	Leaked     int
	Late       string // where a goroutine was that went on after its call had returned
	MaxSteps   int
	MaxTask    int // largest number of yields of one task
	seed       uint64
	abort      bool
	fair       bool
	callers    int
	lastTotal  int
}

// Abort is thrown into tasks when a run is given up.
type Abort struct{}

//go:norace
func find(g unsafe.Pointer) *task {
	for i := 0; i < ntasks; i++ {
		if t := tasks[i]; t.g == g && !t.done {
			return t
		}
	}
	return nil
}

// Y is an ordinary yield point.
//
//go:norace
func Y(site int32) {
	if active {
		yield(site, false)
	} else if idle++; idle > idleMax {
		endless(site)
	}
}

// H is a yield point next to an access of possibly shared state.
//
//go:norace
func H(site int32) {
	if active {
		yield(site, true)
	} else if idle++; idle > idleMax {
		endless(site)
	}
}

// idle counts yields of the driver's own calls, made before and after the
// tasks, so that they end, too.
var idle int

const idleMax = 100000000

// Idle starts a new count.
func Idle() { idle = 0 }

//go:norace
func endless(site int32) {
	idle = 0
	if site >= 0 && int(site) < len(Sites) {
		panic(fmt.Sprintf("call does not end, it is at %s:%d", Sites[site].File, Sites[site].Line))
	}
	panic("call does not end")
}

// C only counts; it is placed in third-party libraries so that endless loops
// there are noticed.
//
//go:norace
func C(site int32) {
	if !active || cur == nil {
		return
	}
	run.LibSteps++
	if run.LibSteps > run.MaxSteps && cur.g == runtime.VerifSelf() {
		cur.lastSite = site
		overBudget()
	}
}

//go:norace
func overBudget() {
	if !run.abort {
		run.OverBudget = describe()
		run.abort = true
	}
	panic(Abort{})
}

// Nap is a pause of the calling task: the others go first. It reports false
// for goroutines that are no tasks.
//
//go:norace
func Nap() bool {
	if !active {
		if idle++; idle > idleMax {
			endless(-1)
		}
		return true
	}
	t := find(runtime.VerifSelf())
	if t == nil {
		return false
	}
	run.Naps++
	if callersDone() {
		t.lateNaps++
	}
	napping = true
	yield(t.lastSite, true)
	return true
}

var napping bool

//go:norace
func yield(site int32, hot bool) {
	nap := napping
	napping = false
	t := cur
	if self := runtime.VerifSelf(); t == nil || t.g != self {
		// a goroutine that was woken by a real primitive, or is not known yet
		t = find(self)
		if t == nil {
			t = adopt(self)
			if t == nil {
				return
			}
		}
		t.lastSite = site
		park(t)
		return
	}
	t.lastSite = site
	t.steps++
	t.total++
	if t.root != nil && t.root.ended >= t.call {
		// a goroutine that has handed over its result may still be on its way out
		if t.after++; t.after > lateYields && run.Late == "" {
			run.Late = SiteName(site)
		}
	}
	if run.abort {
		panic(Abort{})
	}
	if run.Steps+t.steps > run.MaxSteps {
		overBudget()
	}
	if run.fair && (nap || t.steps >= patience) {
		t.tired = true // it may be waiting for another task
		park(t)
		return
	}
	if t.hotOnly && !hot {
		return
	}
	if t.quantum > 0 {
		t.quantum--
		return
	}
	park(t)
}

// patience is the number of yields after which any other task that can run
// gets its turn, so that waiting by polling comes to an end.
const patience = 5000

// Point is a yield made by the harness itself.
//
//go:norace
func Point() { H(-1) }

//go:norace
func park(t *task) {
	t.parked = true
	runtime.VerifPark()
	if run.abort {
		panic(Abort{})
	}
}

//go:norace
func newTask() *task {
	if ntasks >= maxTasks {
		return nil
	}
	t := &task{id: ntasks, lastSite: -2, rand: Mix(run.seed, uint64(ntasks)+100)}
	tasks[ntasks] = t
	ntasks++
	return t
}

// adopt registers a goroutine that was started behind the instrumenter's back.
//
//go:norace
func adopt(g unsafe.Pointer) *task {
	t := newTask()
	if t == nil {
		return nil
	}
	t.g, t.gid, t.entered = g, runtime.VerifID(), true
	run.Spawned++
	return t
}

// Spawn registers a goroutine about to be started by instrumented code.
//
//go:norace
func Spawn() *Tok {
	if !active {
		return nil
	}
	t := newTask()
	if t == nil {
		return nil
	}
	run.Spawned++
	if p := cur; p != nil && p.g == runtime.VerifSelf() {
		t.root = p.root
		if t.root == nil {
			t.root = p
		}
		t.call = p.call
	}
	return &Tok{t}
}

const lateYields = 2

// CallBegin and CallEnd enclose one call of the code under test.
//
//go:norace
func CallBegin() {
	if t := find(runtime.VerifSelf()); t != nil && t.root == nil {
		t.call++
	}
}

//go:norace
func CallEnd() {
	if t := find(runtime.VerifSelf()); t != nil && t.root == nil {
		t.ended = t.call
	}
}

// Enter is the first thing a spawned goroutine does.
//
//go:norace
func Enter(k *Tok) {
	if k == nil {
		return
	}
	k.t.g, k.t.gid = runtime.VerifSelf(), runtime.VerifID()
	k.t.entered = true
	park(k.t)
}

// Leave marks the end of a spawned goroutine.
//
//go:norace
func Leave(k *Tok) {
	if k == nil {
		return
	}
	k.t.done = true
	k.t.g = nil
	if run.abort {
		if e := recover(); e != nil {
			if _, ok := e.(Abort); !ok {
				panic(e)
			}
		}
	}
}

// Mix derives one seed from another.
//
//go:norace
func Mix(a, b uint64) uint64 {
	z := a + 0x9e3779b97f4a7c15*(b+1)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Clock returns the next number of the global event sequence.
//
//go:norace
func Clock() int {
	seq++
	return seq
}

// Current is the run in progress.
//
//go:norace
func Current() *Run { return run }

// CurTask is the id of the running task, -1 outside of a run.
//
//go:norace
func CurTask() int {
	if cur == nil {
		return -1
	}
	return cur.id
}

var onReset []func()

// OnReset registers the repetition of a package's initialisation.
func OnReset(f func()) { onReset = append(onReset, f) }

// Reset gives the packages under test the state they have in a new process.
func Reset() {
	for _, f := range onReset {
		f()
	}
}

// Seed makes the runtime's hidden randomness of the calling (driver) goroutine
// a function of s. Pools are emptied, so no object survives from earlier runs.
//
//go:norace
func Seed(s uint64) {
	idle = 0
	runtime.VerifClearPools()
	runtime.VerifRandState = Mix(s, 7)
	runtime.VerifRandOn = true
}

//go:norace
func body(t *task, f func(), done chan int) {
	t.g, t.gid = runtime.VerifSelf(), runtime.VerifID()
	t.entered = true
	defer func() { done <- 1 }()
	defer finish(t)
	park(t)
	f()
}

//go:norace
func finish(t *task) {
	t.done = true
	t.g = nil
	if run.abort {
		if e := recover(); e != nil {
			if _, ok := e.(Abort); !ok {
				panic(e)
			}
		}
	}
}

// Execute runs the functions as tasks 0..n-1 under the chooser until all have
// ended, nothing can run, or maxSteps yields have passed.
//
//go:norace
func Execute(seed uint64, fs []func(), ch Chooser, maxSteps int) *Run {
	r := &Run{seed: seed, callers: len(fs), MaxSteps: maxSteps, States: map[uint64]struct{}{}, SchedHash: 14695981039346656037}
	run, ntasks, seq, cur = r, 0, 0, nil
	if f, ok := ch.(interface{ Fair() bool }); ok {
		r.fair = f.Fair()
	}
	before := runtime.VerifGoroutines()
	done := make(chan int, len(fs))
	for i := range fs {
		t := newTask()
		go body(t, fs[i], done)
	}
	driver := runtime.VerifRandState
	drive(r, ch)
	runtime.VerifRandState = driver
	for i := range fs {
		if tasks[i].done {
			<-done // also orders the task's writes before the caller's reads
		}
	}
	cur = nil
	active = false
	// goroutines that are done but not gone yet get a chance to leave
	for i := 0; i < 100 && runtime.VerifGoroutines() > before; i++ {
		runtime.Gosched()
	}
	r.Leaked = runtime.VerifGoroutines() - before
	for i := 0; i < ntasks; i++ {
		if tasks[i].total > r.MaxTask {
			r.MaxTask = tasks[i].total
		}
	}
	return r
}

//go:norace
func state(t *task) int {
	if t.done {
		return runtime.VerifDead
	}
	if !t.entered || t.g == nil {
		return runtime.VerifBusy
	}
	return runtime.VerifState(t.g, t.gid)
}

//go:norace
func drive(r *Run, ch Chooser) {
	var ready [maxTasks]int
	last, polls := -1, 0
	for {
		// wait until every task is parked, blocked or gone
		quiet := true
		n, live := 0, 0
		for i := 0; i < ntasks; i++ {
			switch state(tasks[i]) {
			case runtime.VerifBusy:
				quiet = false
			case runtime.VerifParked:
				ready[n] = i
				n++
				live++
			case runtime.VerifBlocked:
				live++
			}
		}
		if !quiet {
			runtime.Gosched()
			continue
		}
		active = true
		if cur != nil {
			account(r)
		}
		if live == 0 {
			break
		}
		if n == 0 {
			if polls++; polls < 200 {
				runtime.Gosched() // a real deadlock does not go away
				continue
			}
			if polls < 203 {
				time.Sleep(20 * time.Millisecond) // unless it waits for a timer
				continue
			}
			if r.OverBudget == "" && !callersDone() {
				r.Deadlock = describe()
			}
			break
		}
		polls = 0
		if callersDone() && dozing(ready[:n]) {
			break // these would go on for ever
		}
		owed := false
		if last >= 0 && tasks[last].tired {
			all := n
			n = rested(&ready, n)
			owed = n < all
		} else if last >= 0 {
			for i := 0; i < ntasks; i++ {
				tasks[i].tired = false
			}
		}
		idx, q, hotOnly := 0, 0, false
		if !r.abort {
			idx, q, hotOnly = ch.Next(ready[:n], last)
			if owed && q < patience {
				q, hotOnly = patience, false
			}
		}
		t := tasks[ready[idx]]
		if t.id != last {
			r.Switches++
			r.SchedHash = (r.SchedHash ^ uint64(t.id)<<32 ^ uint64(uint32(t.lastSite))) * 1099511628211
			st := uint64(14695981039346656037)
			for i := 0; i < ntasks; i++ {
				if tasks[i].done {
					st = (st ^ 0xffffffff) * 1099511628211
				} else {
					st = (st ^ uint64(uint32(tasks[i].lastSite))) * 1099511628211
				}
			}
			if len(r.States) < 4096 {
				r.States[st] = struct{}{}
			}
		}
		last = t.id
		t.quantum, t.hotOnly, t.steps, t.parked = q, hotOnly, 0, false
		cur = t
		runtime.VerifRandState = t.rand
		runtime.VerifReady(t.g)
		runtime.Gosched()
	}
}

//go:norace
func callersDone() bool {
	for i := 0; i < run.callers; i++ {
		if !tasks[i].done {
			return false
		}
	}
	return true
}

// dozing tells whether all of them do nothing but pause now and then.
//
//go:norace
func dozing(ready []int) bool {
	for _, id := range ready {
		if tasks[id].lateNaps < 5 {
			return false
		}
	}
	return true
}

// rested leaves the tasks that have not had their share, or all if there are
// none.
//
//go:norace
func rested(ready *[maxTasks]int, n int) int {
	k := 0
	for _, id := range ready[:n] {
		if !tasks[id].tired {
			ready[k] = id
			k++
		}
	}
	if k > 0 {
		return k
	}
	for i := 0; i < ntasks; i++ {
		tasks[i].tired = false
	}
	return n
}

// account closes the slice of the task that just ran.
//
//go:norace
func account(r *Run) {
	t := cur
	t.rand = runtime.VerifRandState
	r.Steps += t.steps
	k := len(r.Trace)
	if k > 0 && r.Trace[k-1].T == t.id {
		r.lastTotal += t.steps
		k--
	} else {
		r.lastTotal = t.steps
		r.Trace = append(r.Trace, Slice{T: t.id})
	}
	n := r.lastTotal
	if t.parked && n > 0 {
		n--
	}
	r.Trace[k].N = n
	cur = nil
}

//go:norace
func describe() string {
	s := ""
	for i := 0; i < ntasks; i++ {
		t := tasks[i]
		if t.done {
			continue
		}
		st := "ready"
		if t == cur {
			st = "running"
		} else if state(t) == runtime.VerifBlocked {
			st = "blocked"
		}
		s += fmt.Sprintf("[task %d %s at %s] ", t.id, st, SiteName(t.lastSite))
	}
	return s
}

// SiteName renders a yield site.
//
//go:norace
func SiteName(site int32) string {
	if site >= 0 && int(site) < len(Sites) {
		return fmt.Sprintf("%s:%d", Sites[site].File, Sites[site].Line)
	}
	return "start"
}
