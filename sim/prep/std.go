package main

type edit struct{ old, new string }

type stdPatch struct {
	file    string
	newFile string
	edits   []edit
}

// stdPatches lists the seams cut into the Go runtime and library.
func stdPatches() []stdPatch {
	return []stdPatch{
		{file: "runtime/verif_sim.go", newFile: runtimeSim},
		{file: "runtime/rand.go", edits: []edit{
			{"func rand() uint64 {\n", "func rand() uint64 {\n\tif VerifRandOn {\n\t\treturn verifNext()\n\t}\n\treturn verifRand0()\n}\n\nfunc verifRand0() uint64 {\n"},
			{"mp.cheaprand = uint32(rand())", "mp.cheaprand = uint32(verifRand0())"},
			{"mp.cheaprand64 = rand()", "mp.cheaprand64 = verifRand0()"},
		}},
		{file: "runtime/select.go", edits: []edit{
			{"j := cheaprandn(uint32(norder + 1))", "j := verifSelectRand(uint32(norder + 1))"},
		}},
		{file: "runtime/proc.go", edits: []edit{
			{"const randomizeScheduler = raceenabled", "const randomizeScheduler = false"},
			{"func preemptone(pp *p) bool {\n", "func preemptone(pp *p) bool {\n\tif VerifRandOn {\n\t\treturn false\n\t}\n"},
		}},
		{file: "internal/runtime/maps/runtime_alg.go", edits: []edit{
			{"hashkey[i] = uintptr(bootstrapRand())", "hashkey[i] = uintptr(0x9e3779b97f4a7c15 * uint64(i+1))"},
			{"key[i] = bootstrapRand()", "key[i] = 0xbf58476d1ce4e5b9 * uint64(i+1)"},
		}},
		{file: "internal/sync/mutex.go", edits: []edit{
			{"starving = starving || runtime_nanotime()-waitStartTime > starvationThresholdNs", "starving = starving || false"},
		}},
		{file: "os/proc.go", edits: []edit{
			{"func Exit(code int) {\n", "func Exit(code int) {\n\tif VerifExit != nil {\n\t\tVerifExit(code)\n\t}\n"},
			{"func runtime_beforeExit(exitCode int)", "var VerifExit func(code int)\n\nfunc runtime_beforeExit(exitCode int)"},
		}},
		{file: "time/time.go", edits: []edit{
			{"func Now() Time {\n", "var VerifNow func() Time\n\nfunc Now() Time {\n\tif VerifNow != nil {\n\t\treturn VerifNow()\n\t}\n"},
		}},
		{file: "time/sleep.go", edits: []edit{
			{"func Sleep(d Duration)\n", "func Sleep(d Duration) {\n\tif VerifSleep != nil && VerifSleep(d) {\n\t\treturn\n\t}\n\tverifSleep(d)\n}\n\nvar VerifSleep func(d Duration) bool\n\nfunc verifSleep(d Duration)\n"},
		}},
		{file: "runtime/time.go", edits: []edit{
			{"//go:linkname timeSleep time.Sleep\n", "//go:linkname timeSleep time.verifSleep\n"},
		}},
		{file: "syscall/verif_sim.go", newFile: syscallSim},
		{file: "syscall/syscall_unix.go", edits: []edit{
			{"func Read(fd int, p []byte) (n int, err error) {\n", "func Read(fd int, p []byte) (n int, err error) {\n\tif VerifHook != nil {\n\t\tif ok, n, err := VerifHook(VerifRead, fd, \"\", p, nil); ok {\n\t\t\treturn n, err\n\t\t}\n\t}\n"},
			{"func Write(fd int, p []byte) (n int, err error) {\n", "func Write(fd int, p []byte) (n int, err error) {\n\tif VerifHook != nil {\n\t\tif ok, n, err := VerifHook(VerifWrite, fd, \"\", p, nil); ok {\n\t\t\treturn n, err\n\t\t}\n\t}\n"},
			{"func Pread(fd int, p []byte, offset int64) (n int, err error) {\n", "func Pread(fd int, p []byte, offset int64) (n int, err error) {\n\tif VerifHook != nil && fd >= VerifFakeFd {\n\t\treturn 0, ENOSYS\n\t}\n"},
		}},
		{file: "syscall/syscall_linux.go", edits: []edit{
			{"func Open(path string, mode int, perm uint32) (fd int, err error) {\n", "func Open(path string, mode int, perm uint32) (fd int, err error) {\n\tif VerifHook != nil {\n\t\tif ok, n, err := VerifHook(VerifOpen, 0, path, nil, nil); ok {\n\t\t\treturn n, err\n\t\t}\n\t}\n"},
			{"func Openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n", "func Openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n\tif VerifHook != nil {\n\t\tif ok, n, err := VerifHook(VerifOpen, 0, path, nil, nil); ok {\n\t\t\treturn n, err\n\t\t}\n\t}\n"},
		}},
		{file: "syscall/syscall_linux_amd64.go", edits: []edit{
			{"func Stat(path string, stat *Stat_t) (err error) {\n", "func Stat(path string, stat *Stat_t) (err error) {\n\tif VerifHook != nil {\n\t\tif ok, _, err := VerifHook(VerifStat, 0, path, nil, stat); ok {\n\t\t\treturn err\n\t\t}\n\t}\n"},
			{"func Lstat(path string, stat *Stat_t) (err error) {\n", "func Lstat(path string, stat *Stat_t) (err error) {\n\tif VerifHook != nil {\n\t\tif ok, _, err := VerifHook(VerifStat, 0, path, nil, stat); ok {\n\t\t\treturn err\n\t\t}\n\t}\n"},
		}},
		{file: "syscall/zsyscall_linux_amd64.go", edits: []edit{
			{"func Close(fd int) (err error) {\n", "func Close(fd int) (err error) {\n\tif VerifHook != nil {\n\t\tif ok, _, err := VerifHook(VerifClose, fd, \"\", nil, nil); ok {\n\t\t\treturn err\n\t\t}\n\t}\n"},
			{"func Fstat(fd int, stat *Stat_t) (err error) {\n", "func Fstat(fd int, stat *Stat_t) (err error) {\n\tif VerifHook != nil {\n\t\tif ok, _, err := VerifHook(VerifFstat, fd, \"\", nil, stat); ok {\n\t\t\treturn err\n\t\t}\n\t}\n"},
			{"func Seek(fd int, offset int64, whence int) (off int64, err error) {\n", "func Seek(fd int, offset int64, whence int) (off int64, err error) {\n\tif VerifHook != nil && fd >= VerifFakeFd {\n\t\treturn 0, ESPIPE\n\t}\n"},
		}},
	}
}

const syscallSim = `package syscall

// Seams for simulated files. VerifHook reports handled=false to fall through.
const (
	VerifOpen = iota
	VerifRead
	VerifWrite
	VerifClose
	VerifFstat
	VerifStat
)

const VerifFakeFd = 1 << 20

var VerifHook func(op int, fd int, path string, p []byte, st *Stat_t) (handled bool, n int, err error)
`

const runtimeSim = `package runtime

import "unsafe"

// VerifRandOn makes rand() (map seeds, iteration offsets, pools, math/rand)
// and select order come from the stream in VerifRandState.
var VerifRandOn bool
var VerifRandState uint64

//go:nosplit
func verifNext() uint64 {
	VerifRandState += 0x9e3779b97f4a7c15
	z := VerifRandState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func verifSelectRand(n uint32) uint32 {
	if VerifRandOn {
		return uint32((uint64(uint32(verifNext())) * uint64(n)) >> 32)
	}
	return cheaprandn(n)
}

// VerifSelf identifies the calling goroutine.
func VerifSelf() unsafe.Pointer { return unsafe.Pointer(getg()) }

// VerifID is the caller's goroutine id; goroutine structures are reused, ids are not.
func VerifID() uint64 { return getg().goid }

// VerifClearPools empties every sync.Pool, as two collections would.
func VerifClearPools() {
	if poolcleanup != nil {
		poolcleanup()
		poolcleanup()
	}
}

// VerifPark blocks the caller until VerifReady; neither creates an ordering
// visible to the race detector.
func VerifPark() { gopark(nil, nil, waitReasonZero, traceBlockGeneric, 1) }

func VerifReady(gp unsafe.Pointer) { goready((*g)(gp), 1) }

const (
	VerifBusy = iota
	VerifParked
	VerifBlocked
	VerifDead
)

// VerifState tells whether a goroutine waits in VerifPark, waits on a real
// synchronisation primitive, has ended, or may still run by itself.
func VerifState(gp unsafe.Pointer, id uint64) int {
	p := (*g)(gp)
	if p.goid != id {
		return VerifDead
	}
	switch readgstatus(p) &^ _Gscan {
	case _Gdead:
		return VerifDead
	case _Gwaiting:
		switch p.waitreason {
		case waitReasonZero:
			return VerifParked
		case waitReasonChanReceiveNilChan, waitReasonChanSendNilChan, waitReasonSelect,
			waitReasonSelectNoCases, waitReasonChanReceive, waitReasonChanSend,
			waitReasonSemacquire, waitReasonSyncCondWait, waitReasonSyncMutexLock,
			waitReasonSyncRWMutexRLock, waitReasonSyncRWMutexLock, waitReasonSyncWaitGroupWait:
			return VerifBlocked
		}
	}
	return VerifBusy
}

// VerifGoroutines counts live user goroutines.
func VerifGoroutines() int { return int(gcount(false)) }
`
