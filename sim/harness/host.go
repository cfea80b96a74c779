package main

import (
	"errors"
	"io"
	"log"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/octarinesec/MAPL/verifsim/rt"
)

// The simulated host: an in-memory disk for paths below simRoot, standard
// output and error, the clock and the local time zone.

const simRoot = "/simfs/"

type simFS struct {
	w     *World
	files [][]byte
	alt   [][]byte // replacement contents
	hs    []*handle
	first map[int]int // task -> first handle of its current call
	fired map[string]int
	opens map[int]int
	views map[[2]int][]byte
	vers  map[int]int // how often the file was replaced
}

type handle struct {
	file    int
	ver     int
	task    int
	pos     int
	open    bool
	hard    string // error that was delivered
	soft    string // conditions a loader may or may not fail on
	eintr   int
	stat    int
	damaged bool
}

var sim struct {
	fs   *simFS
	host *hostSim
}

func (fs *simFS) begin(task int) { fs.first[task] = len(fs.hs) }

// end returns the handle that decided the current call of a task.
func (fs *simFS) end(task int) *handle {
	var last *handle
	for _, h := range fs.hs[fs.first[task]:] {
		if h.task == task {
			last = h
		}
	}
	return last
}

func (fs *simFS) left(task int) bool {
	for _, h := range fs.hs[fs.first[task]:] {
		if h.task == task && h.open {
			return true
		}
	}
	return false
}

// swap puts another file in the place of a file. Whoever has it open keeps
// reading the old one.
func (fs *simFS) swap(n int) {
	fs.hit("replaced between loads")
	fs.vers[n]++
}

// content of the file a handle refers to, and of its other version.
func (fs *simFS) content(h *handle) ([]byte, []byte) {
	if h.ver%2 == 1 {
		return fs.alt[h.file], fs.files[h.file]
	}
	return fs.files[h.file], fs.alt[h.file]
}

func (fs *simFS) hit(kind string) { fs.fired[kind]++ }

var errnos = map[string]syscall.Errno{"EIO": syscall.EIO, "EISDIR": syscall.EISDIR, "EINTR": syscall.EINTR, "EACCES": syscall.EACCES,
	"ENOENT": syscall.ENOENT, "EMFILE": syscall.EMFILE, "ENOSPC": syscall.ENOSPC, "EBADF": syscall.EBADF, "ESTALE": syscall.ESTALE, "ENFILE": syscall.ENFILE, "ENOMEM": syscall.ENOMEM}

// view is the content a patient reader of the handle gets to see.
func (fs *simFS) view(h *handle) []byte {
	key := [2]int{h.file, h.ver % 2}
	if v, ok := fs.views[key]; ok {
		return v
	}
	data, alt := fs.content(h)
	for _, f := range fs.w.sc.Faults {
		if f.File != h.file || f.At > len(data) {
			continue
		}
		switch f.Kind {
		case "shrink":
			data = data[:f.At]
		case "replace":
			d := append([]byte{}, data[:f.At]...)
			if f.At < len(alt) {
				d = append(d, alt[f.At:]...)
			}
			data = d
		}
	}
	fs.views[key] = data
	return data
}

func (fs *simFS) openFile(path string) (int, error) {
	n, err := strconv.Atoi(strings.TrimPrefix(path, simRoot))
	if err != nil || n >= len(fs.files) {
		return -1, syscall.ENOENT
	}
	h := &handle{file: n, ver: fs.vers[n], task: rt.CurTask(), stat: -1}
	at := fs.opens[n]
	fs.opens[n]++
	for _, f := range fs.w.sc.Faults {
		if f.File == n && strings.HasPrefix(f.Kind, "open:") && at >= f.At && at < f.At+f.N {
			fs.hit(f.Kind)
			if f.Kind == "open:EINTR" {
				return -1, syscall.EINTR
			}
			h.hard = f.Kind
			fs.hs = append(fs.hs, h)
			return -1, errnos[f.Kind[5:]]
		}
	}
	h.open = true
	now, _ := fs.content(h)
	for _, f := range fs.w.sc.Faults {
		if f.File == n && (f.Kind == "shrink" || f.Kind == "replace") && f.At <= len(now) {
			h.damaged = true
		}
	}
	fs.hs = append(fs.hs, h)
	return syscall.VerifFakeFd + len(fs.hs) - 1, nil
}

func (fs *simFS) read(h *handle, p []byte) (int, error) {
	if !h.open {
		return -1, syscall.EBADF
	}
	data := fs.view(h)
	max := len(p)
	for _, f := range fs.w.sc.Faults {
		if f.File != h.file {
			continue
		}
		switch {
		case strings.HasPrefix(f.Kind, "read:"):
			if h.pos >= f.At {
				if f.Kind == "read:EINTR" {
					if h.eintr < f.N {
						h.eintr++
						fs.hit(f.Kind)
						return -1, syscall.EINTR
					}
					continue
				}
				fs.hit(f.Kind)
				h.hard = f.Kind
				return -1, errnos[f.Kind[5:]]
			}
			if f.At-h.pos < max {
				max = f.At - h.pos
			}
		case f.Kind == "short":
			if h.pos >= f.At && f.N < max {
				max = f.N
				fs.hit(f.Kind)
			}
		}
	}
	n := len(data) - h.pos
	if n > max {
		n = max
	}
	if n == 0 && h.damaged {
		fs.hit("truncated or replaced while read")
	}
	copy(p, data[h.pos:h.pos+n])
	h.pos += n
	return n, nil
}

func (fs *simFS) fstat(h *handle, st *syscall.Stat_t) error {
	now, _ := fs.content(h)
	*st = syscall.Stat_t{Mode: syscall.S_IFREG | 0644, Size: int64(len(now)), Nlink: 1, Ino: uint64(10*h.file + h.ver%2 + 1)}
	st.Mtim.Sec = 1600000000 // as coarse as it may be
	for _, f := range fs.w.sc.Faults {
		if f.File != h.file {
			continue
		}
		switch f.Kind {
		case "stat:EIO":
			fs.hit(f.Kind)
			h.soft = f.Kind
			return syscall.EIO
		case "grow":
			fs.hit(f.Kind)
			st.Size -= int64(f.N)
			if st.Size < 1 {
				st.Size = 1
			}
			h.soft = f.Kind
		}
	}
	h.stat = int(st.Size)
	return nil
}

func (fs *simFS) close(h *handle) error {
	h.open = false
	for _, f := range fs.w.sc.Faults {
		if f.File == h.file && f.Kind == "close:EIO" {
			fs.hit(f.Kind)
			if h.soft == "" {
				h.soft = f.Kind
			}
			return syscall.EIO
		}
	}
	return nil
}

func hook(op int, fd int, path string, p []byte, st *syscall.Stat_t) (bool, int, error) {
	if op == syscall.VerifWrite && (fd == 1 || fd == 2) && sim.host != nil {
		return sim.host.write(p)
	}
	if sim.fs == nil {
		return false, 0, nil
	}
	switch op {
	case syscall.VerifOpen:
		if strings.HasPrefix(path, simRoot) {
			rt.Point()
			n, err := sim.fs.openFile(path)
			return true, n, err
		}
		return false, 0, nil
	case syscall.VerifStat:
		if strings.HasPrefix(path, simRoot) {
			rt.Point()
			n, err := strconv.Atoi(strings.TrimPrefix(path, simRoot))
			if err != nil || n >= len(sim.fs.files) {
				return true, -1, syscall.ENOENT
			}
			return true, 0, sim.fs.fstat(&handle{file: n, ver: sim.fs.vers[n]}, st)
		}
		return false, 0, nil
	}
	if fd < syscall.VerifFakeFd || fd-syscall.VerifFakeFd >= len(sim.fs.hs) {
		return false, 0, nil
	}
	rt.Point()
	h := sim.fs.hs[fd-syscall.VerifFakeFd]
	switch op {
	case syscall.VerifRead:
		n, err := sim.fs.read(h, p)
		return true, n, err
	case syscall.VerifFstat:
		return true, 0, sim.fs.fstat(h, st)
	case syscall.VerifClose:
		return true, 0, sim.fs.close(h)
	}
	return true, -1, syscall.EBADF
}

type hostSim struct {
	h     Host
	n     int
	now   int64
	fired map[string]int
}

func (h *hostSim) failing() bool {
	h.n++
	return h.h.LogPct == 0 || int(rt.Mix(uint64(h.n), 77)%100) < h.h.LogPct
}

// write receives everything the library prints.
func (h *hostSim) write(p []byte) (bool, int, error) {
	switch h.h.Log {
	case "eio", "enospc", "ebadf":
		if h.failing() {
			h.fired["log:"+h.h.Log]++
			return true, -1, errnos[strings.ToUpper(h.h.Log)]
		}
	case "short":
		if len(p) > 1 && h.failing() {
			h.fired["log:short"]++
			return true, len(p) / 2, nil
		}
	case "slow":
		h.fired["log:slow"]++
		rt.Point()
		rt.Point()
	}
	return true, len(p), nil
}

type errWriter struct{ h *hostSim }

func (e errWriter) Write(p []byte) (int, error) {
	e.h.fired["log:errwriter"]++
	return 0, errors.New("log destination is gone")
}

func (h *hostSim) jump(s int64) {
	h.now += s
	h.fired["clock jump"]++
}

// tick is what reading the clock does. It is not part of the code under test.
//
//go:norace
func (h *hostSim) tick() time.Time {
	h.now++
	return time.Unix(h.now, 0)
}

// sleep lets simulated time pass.
//
//go:norace
func (h *hostSim) sleep(d time.Duration) bool {
	if d > 0 {
		h.now += int64(d / time.Second)
	}
	return rt.Nap()
}

func (h *hostSim) zone(n int) {
	h.fired["zone change"]++
	if n == 0 {
		time.Local = time.UTC
		return
	}
	time.Local = time.FixedZone("sim", n*1800)
}

func (h *hostSim) install() {
	h.now = h.h.Clock
	sim.host = h
	os.VerifExit = func(code int) { panic(exitPanic{code}) }
	time.VerifNow = h.tick
	time.VerifSleep = h.sleep
	time.Local = time.UTC
	if h.h.Zone != 0 {
		h.zone(h.h.Zone)
	}
	switch h.h.Log {
	case "discard":
		log.SetOutput(io.Discard)
	case "errwriter":
		log.SetOutput(errWriter{h})
	default:
		log.SetOutput(os.Stderr)
	}
}

func (h *hostSim) remove() {
	sim.host, sim.fs = nil, nil
	time.VerifNow, time.VerifSleep = nil, nil
	time.Local = time.UTC
	log.SetOutput(io.Discard)
}
