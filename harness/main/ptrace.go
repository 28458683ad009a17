package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"unsafe"

	"github.com/kisom/psignify/signify/zverif/mc"
)

// A controlled run of a process: every system call it makes on a file below root is an event,
// and a hook decides whether the call happens, fails, is cut short, or is the last thing the
// process does. Linux/amd64.

type sysKind int

const (
	sysOther sysKind = iota
	sysOpen
	sysRead
	sysWrite
	sysClose
	sysStat
	sysChmod
	sysMeta // rename, unlink, truncate, sync, ...
)

type event struct {
	idx     int
	name    string
	kind    sysKind
	path    string // file below root
	creates bool   // open that may create or truncate
	writing bool   // close of a descriptor open for writing
	count   int    // length of a read or write
	fd      int
}

func (e *event) String() string {
	s := fmt.Sprintf("%s(%s", e.name, filepath.Base(e.path))
	if e.kind == sysRead || e.kind == sysWrite {
		s += fmt.Sprintf(", %d", e.count)
	}
	return s + ")"
}

type actKind int

const (
	actRun       actKind = iota
	actFail              // the call does not happen and returns errno
	actSpoil             // the call happens but returns errno
	actShort             // read or write of n bytes only
	actKill              // killed before the call
	actKillShort         // killed after n bytes
)

type action struct {
	kind  actKind
	errno syscall.Errno
	n     int
	what  string
}

type traced struct {
	exit           int // exit status, or 128+signal
	killed         bool
	stdout, stderr string
	events         int
}

type spec struct {
	argv  []string
	env   []string
	dir   string // working directory
	root  string // files below it are traced
	umask int
	stdin *os.File // /dev/null if nil
	cred  *syscall.Credential
}

var (
	outFiles [2]*os.File
)

func outFile(i int) *os.File {
	if outFiles[i] == nil {
		f, err := os.CreateTemp(os.Getenv("VERIF_SCRATCH"), "out")
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		os.Remove(f.Name())
		outFiles[i] = f
	}
	outFiles[i].Truncate(0)
	outFiles[i].Seek(0, 0)
	return outFiles[i]
}

func slurp(f *os.File) string {
	fi, _ := f.Stat()
	b := make([]byte, fi.Size())
	n, _ := f.ReadAt(b, 0)
	return string(b[:n])
}

// childFiles returns stdin (nothing) and fresh stdout and stderr files.
func childFiles() []uintptr {
	null, err := os.Open("/dev/null")
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	if devNull != nil {
		devNull.Close()
	}
	devNull = null
	return []uintptr{null.Fd(), outFile(0).Fd(), outFile(1).Fd()}
}

var devNull *os.File

var baseEnv = []string{"PATH=/usr/bin:/bin", "LC_ALL=C", "GOMAXPROCS=2", "GODEBUG=asyncpreemptoff=1"}

const (
	ptraceGetSyscallInfo = 0x420e
	oTraceSysGood        = 1
	oTraceClone          = 8
	oExitKill            = 0x100000
	wNoThread            = 0x20000000
	wAll                 = 0x40000000
)

type sysInfo struct {
	op   byte // 1 entry, 2 exit
	nr   uint64
	args [6]uint64
}

func syscallInfo(tid int) (s sysInfo, ok bool) {
	var b [88]byte
	_, _, e := syscall.RawSyscall6(syscall.SYS_PTRACE, ptraceGetSyscallInfo, uintptr(tid), uintptr(len(b)), uintptr(unsafe.Pointer(&b[0])), 0, 0)
	if e != 0 {
		return s, false
	}
	s.op = b[0]
	if s.op == 1 {
		s.nr = binary.LittleEndian.Uint64(b[24:])
		for i := range s.args {
			s.args[i] = binary.LittleEndian.Uint64(b[32+8*i:])
		}
	}
	return s, true
}

func peekString(tid int, addr uint64) string {
	var out []byte
	var w [64]byte
	for len(out) < 8192 {
		n, err := syscall.PtracePeekData(tid, uintptr(addr)+uintptr(len(out)), w[:])
		if err != nil && n == 0 {
			break
		}
		for i := 0; i < n; i++ {
			if w[i] == 0 {
				return string(append(out, w[:i]...))
			}
		}
		out = append(out, w[:n]...)
	}
	return string(out)
}

type callShape struct {
	name string
	kind sysKind
	fd   int // argument holding a descriptor, -1 none
	path int // argument holding a path, -1 none
}

var calls = map[uint64]callShape{
	syscall.SYS_OPEN:       {"open", sysOpen, -1, 0},
	syscall.SYS_CREAT:      {"creat", sysOpen, -1, 0},
	syscall.SYS_OPENAT:     {"openat", sysOpen, 0, 1},
	437:                    {"openat2", sysOpen, 0, 1},
	syscall.SYS_READ:       {"read", sysRead, 0, -1},
	syscall.SYS_PREAD64:    {"pread", sysRead, 0, -1},
	syscall.SYS_WRITE:      {"write", sysWrite, 0, -1},
	syscall.SYS_PWRITE64:   {"pwrite", sysWrite, 0, -1},
	syscall.SYS_CLOSE:      {"close", sysClose, 0, -1},
	syscall.SYS_FSTAT:      {"fstat", sysStat, 0, -1},
	syscall.SYS_STAT:       {"stat", sysStat, -1, 0},
	syscall.SYS_LSTAT:      {"lstat", sysStat, -1, 0},
	syscall.SYS_NEWFSTATAT: {"fstatat", sysStat, 0, 1},
	332:                    {"statx", sysStat, 0, 1},
	syscall.SYS_FCHMOD:     {"fchmod", sysChmod, 0, -1},
	syscall.SYS_CHMOD:      {"chmod", sysChmod, -1, 0},
	syscall.SYS_FCHMODAT:   {"fchmodat", sysChmod, 0, 1},
	syscall.SYS_FTRUNCATE:  {"ftruncate", sysMeta, 0, -1},
	syscall.SYS_TRUNCATE:   {"truncate", sysMeta, -1, 0},
	syscall.SYS_FSYNC:      {"fsync", sysMeta, 0, -1},
	syscall.SYS_FDATASYNC:  {"fdatasync", sysMeta, 0, -1},
	syscall.SYS_RENAME:     {"rename", sysMeta, -1, 0},
	syscall.SYS_RENAMEAT:   {"renameat", sysMeta, 0, 1},
	316:                    {"renameat2", sysMeta, 0, 1},
	syscall.SYS_UNLINK:     {"unlink", sysMeta, -1, 0},
	syscall.SYS_UNLINKAT:   {"unlinkat", sysMeta, 0, 1},
	syscall.SYS_LINKAT:     {"linkat", sysMeta, 0, 1},
	syscall.SYS_MKDIRAT:    {"mkdirat", sysMeta, 0, 1},
}

// classify turns a system call into an event if it concerns a file below root.
func classify(pid, tid int, s sysInfo, sp *spec) *event {
	c, ok := calls[s.nr]
	if !ok {
		return nil
	}
	e := &event{name: c.name, kind: c.kind, fd: -1}
	if c.path < 0 {
		e.fd = int(int32(s.args[c.fd]))
		if e.fd < 3 {
			return nil
		}
		p, err := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", pid, e.fd))
		if err != nil {
			return nil
		}
		e.path = p
	} else {
		p := peekString(tid, s.args[c.path])
		if !filepath.IsAbs(p) {
			base := sp.dir
			if c.fd >= 0 && int32(s.args[c.fd]) != -100 {
				base, _ = os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", pid, int32(s.args[c.fd])))
			}
			p = filepath.Join(base, p)
		}
		e.path = p
	}
	if e.path != sp.root && !strings.HasPrefix(e.path, sp.root+"/") {
		return nil
	}
	switch e.kind {
	case sysRead, sysWrite:
		e.count = int(s.args[2])
	case sysOpen:
		fl := uint64(syscall.O_CREAT)
		if c.name == "openat" {
			fl = s.args[2]
		} else if c.name == "open" {
			fl = s.args[1]
		}
		e.creates = fl&(syscall.O_CREAT|syscall.O_TRUNC) != 0
	case sysClose:
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/fdinfo/%d", pid, e.fd))
		var pos, flags int64
		fmt.Sscanf(string(b), "pos:\t%d\nflags:\t%o", &pos, &flags)
		e.writing = flags&3 != 0
	}
	return e
}

// controlled runs a program; hook is asked at each event and may panic to abandon the run.
func controlled(x *mc.X, sp *spec, hook func(e *event) action) (res traced) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if sp.umask >= 0 {
		old := syscall.Umask(sp.umask)
		defer syscall.Umask(old)
	}
	files := childFiles()
	pid, err := syscall.ForkExec(sp.argv[0], sp.argv, &syscall.ProcAttr{
		Dir: sp.dir, Env: append(append([]string{}, baseEnv...), sp.env...), Files: files,
		Sys: &syscall.SysProcAttr{Ptrace: true, Setsid: true, Credential: sp.cred},
	})
	if err != nil {
		panic(fmt.Sprintf("harness: start %v: %v", sp.argv, err))
	}
	reaped := false
	reap := func() {
		for !reaped {
			var ws syscall.WaitStatus
			t, err := syscall.Wait4(-1, &ws, wAll|wNoThread, nil)
			if err == syscall.EINTR {
				continue
			}
			if err != nil {
				return
			}
			if t == pid && (ws.Exited() || ws.Signaled()) {
				reaped = true
			} else if ws.Stopped() {
				syscall.PtraceCont(t, 0)
			}
		}
	}
	defer func() {
		if !reaped {
			syscall.Kill(pid, syscall.SIGKILL)
			reap()
		}
	}()
	var ws syscall.WaitStatus
	if _, err := syscall.Wait4(pid, &ws, wAll|wNoThread, nil); err != nil || !ws.Stopped() {
		panic(fmt.Sprintf("harness: no initial stop: %v %v", err, ws))
	}
	if err := syscall.PtraceSetOptions(pid, oTraceSysGood|oTraceClone|oExitKill); err != nil {
		panic(fmt.Sprintf("harness: ptrace options: %v", err))
	}
	pending := map[int]action{}
	seen := map[int]bool{pid: true}
	syscall.PtraceSyscall(pid, 0)
	for {
		tid, err := syscall.Wait4(-1, &ws, wAll|wNoThread, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			panic(fmt.Sprintf("harness: wait: %v", err))
		}
		if ws.Exited() || ws.Signaled() {
			if tid == pid {
				reaped = true
				res.exit = ws.ExitStatus()
				if ws.Signaled() {
					res.exit = 128 + int(ws.Signal())
				}
				break
			}
			continue
		}
		sig := 0
		switch st := ws.StopSignal(); {
		case st == syscall.SIGTRAP|0x80:
			si, ok := syscallInfo(tid)
			if !ok {
				break
			}
			if si.op == 1 {
				e := classify(pid, tid, si, sp)
				if e == nil {
					break
				}
				e.idx = res.events
				res.events++
				a := hook(e)
				if a.kind != actRun {
					x.Logf("event %d %v: %s", e.idx, e, a.what)
				} else {
					x.Logf("event %d %v", e.idx, e)
				}
				var regs syscall.PtraceRegs
				switch a.kind {
				case actKill:
					res.killed = true
				case actFail:
					if syscall.PtraceGetRegs(tid, &regs) == nil {
						regs.Orig_rax = ^uint64(0)
						syscall.PtraceSetRegs(tid, &regs)
					}
					pending[tid] = a
				case actSpoil:
					pending[tid] = a
				case actShort, actKillShort:
					if syscall.PtraceGetRegs(tid, &regs) == nil {
						regs.Rdx = uint64(a.n)
						syscall.PtraceSetRegs(tid, &regs)
					}
					pending[tid] = a
				}
			} else if a, ok := pending[tid]; ok && si.op == 2 {
				delete(pending, tid)
				switch a.kind {
				case actKillShort:
					res.killed = true
				case actFail, actSpoil:
					var regs syscall.PtraceRegs
					if syscall.PtraceGetRegs(tid, &regs) == nil {
						regs.Rax = uint64(-int64(a.errno))
						syscall.PtraceSetRegs(tid, &regs)
					}
				}
			}
		case st == syscall.SIGTRAP && ws.TrapCause() > 0: // clone event
		case st == syscall.SIGSTOP && !seen[tid]:
			seen[tid] = true
		default:
			sig = int(st)
		}
		if res.killed {
			syscall.Kill(pid, syscall.SIGKILL)
			reap()
			break
		}
		syscall.PtraceSyscall(tid, sig)
	}
	res.stdout, res.stderr = slurp(outFiles[0]), slurp(outFiles[1])
	x.Op("ran %v: exit %d, %d events", sp.argv[1:], res.exit, res.events)
	return res
}

// plainRun runs a program without control.
func plainRun(x *mc.X, sp *spec) (res traced) {
	if sp.umask >= 0 {
		old := syscall.Umask(sp.umask)
		defer syscall.Umask(old)
	}
	files := childFiles()
	if sp.stdin != nil {
		files = append([]uintptr{sp.stdin.Fd()}, files[1:]...)
	}
	pid, err := syscall.ForkExec(sp.argv[0], sp.argv, &syscall.ProcAttr{
		Dir: sp.dir, Env: append(append([]string{}, baseEnv...), sp.env...), Files: files,
		Sys: &syscall.SysProcAttr{Setsid: true, Credential: sp.cred, Pdeathsig: syscall.SIGKILL},
	})
	if err != nil {
		panic(fmt.Sprintf("harness: start %v: %v", sp.argv, err))
	}
	var ws syscall.WaitStatus
	for {
		if _, err = syscall.Wait4(pid, &ws, 0, nil); err != syscall.EINTR {
			break
		}
	}
	res.exit = ws.ExitStatus()
	if ws.Signaled() {
		res.exit = 128 + int(ws.Signal())
	}
	res.stdout, res.stderr = slurp(outFiles[0]), slurp(outFiles[1])
	x.Op("ran %q: exit %d stdout %q stderr %q", sp.argv[1:], res.exit, res.stdout, res.stderr)
	return res
}

func psignifyBin() string {
	b := os.Getenv("PSIGNIFY_BIN")
	if b == "" {
		panic("harness: PSIGNIFY_BIN not set")
	}
	return b
}
