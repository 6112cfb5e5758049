#!/usr/bin/env python3
"""Generate a `go build -overlay` file that adds observation hooks to the Go standard
library and two third-party modules.  Nothing of /repo is replaced: the code under test is
compiled as it is.  Usage: overlay.py OUTDIR   (env from /opt/vp/env.sh)

 syscall   - VerifIO hook table around Open/Pwrite/Write/Pread/Read/Fsync/Fdatasync/
             Ftruncate/Fallocate/Unlink/Rename/Seek
 sync      - VerifSync hook table around Mutex/RWMutex/WaitGroup.Wait
 runtime   - VerifGoid(); calls of C code order nothing for the race detector
 opencensus stats.Record    - no-op (its worker channel adds unrelated scheduling/HB edges)
 klauspost/readahead        - buffer size capped at 64 KiB (speed of Open only)
 go-judy                    - Go-visible shadow accesses so the race detector sees C-side
                              tree accesses
"""
import json, os, re, subprocess, sys
out = sys.argv[1]
os.makedirs(out, exist_ok=True)
def env(k): return subprocess.check_output(["go","env",k],text=True).strip()
R = env("GOROOT")+"/src"; M = env("GOMODCACHE")
rep = {}
def put(path, text):
    name = os.path.join(out, re.sub(r"[^A-Za-z0-9_.]", "_", path.replace(R,"std").replace(M,"mod")))
    old = open(name).read() if os.path.exists(name) else None
    if old != text: open(name,"w").write(text)
    rep[path] = name
def edit(path, *subs):
    s = open(path).read()
    for a,b in subs:
        if s.count(a) != 1: sys.exit(f"overlay: anchor {a!r} occurs {s.count(a)} times in {path}")
        s = s.replace(a,b)
    put(path, s)
def rename(path, names, extra=""):
    """func X( -> func verifRawX( for each name; hooks live in an added file."""
    s = open(path).read()
    for n in names:
        a = f"func {n}("
        if s.count("\n"+a) != 1: sys.exit(f"overlay: {a} occurs {s.count(a)} times in {path}")
        s = s.replace("\n"+a, f"\nfunc VerifRaw{n}(")
    put(path, s)

# no happens-before edges through file I/O (they would hide races between lock-free accesses)
def noIoSync(path):
    for k in list(rep):
        if k==path:
            t=open(rep[k]).read()
            for a in ["\t\trace.ReleaseMerge(unsafe.Pointer(&ioSync))\n","\t\t\trace.Acquire(unsafe.Pointer(&ioSync))\n"]:
                t=t.replace(a,"")
            put(path,t)
# nor through calls of C code: every one of go-judy's would order all the others
edit(R+"/runtime/cgocall.go", ("\t\tracereleasemerge(unsafe.Pointer(&racecgosync))\n\t}\n\n\tmp := getg().m\n", "\t}\n\n\tmp := getg().m\n"),
     ("\t// wired this M to a P.\n\tif raceenabled {\n\t\traceacquire(unsafe.Pointer(&racecgosync))\n", "\t// wired this M to a P.\n\tif raceenabled {\n"))
put(R+"/runtime/verif_hook.go", '''package runtime

// VerifGoid returns the id of the current goroutine.
func VerifGoid() uint64 { return getg().goid }

// VerifGoexitOnPanic, when set, is told about a panic nothing recovered; the goroutine is
// then blocked for ever instead of ending the process.
var VerifOnPanic func(v any)

func verifFatal(v any) {
	if f := VerifOnPanic; f != nil {
		f(v)
		block()
	}
}

// VerifQuiet reports that no goroutine other than the caller can run: all are blocked.
func VerifQuiet() bool {
	self := getg()
	quiet := true
	systemstack(func() {
		lock(&allglock)
		for _, gp := range allgs {
			if gp == self {
				continue
			}
			switch readgstatus(gp) &^ _Gscan {
			case _Grunnable, _Grunning, _Gcopystack, _Gpreempted:
			case _Gsyscall:
			default:
				continue
			}
			if isSystemGoroutine(gp, false) {
				continue
			}
			if gp.waitreason == waitReasonZero && readgstatus(gp)&^_Gscan == _Gsyscall && verifSigRecv(gp) {
				continue
			}
			quiet = false
			break
		}
		unlock(&allglock)
	})
	return quiet
}

func verifSigRecv(gp *g) bool {
	f := findfunc(gp.startpc)
	return f.valid() && funcname(f) == "os/signal.loop"
}
''')
edit(R+"/runtime/panic.go", ("\tpreprintpanics(&p)\n\n", "\tpreprintpanics(&p)\n\tverifFatal(e)\n\n"))

rename(R+"/syscall/syscall_unix.go", ["Read","Write","Pread","Pwrite"])
noIoSync(R+"/syscall/syscall_unix.go")
rename(R+"/syscall/syscall_linux.go", ["Open","Rename","Unlink"])
rename(R+"/syscall/zsyscall_linux_amd64.go", ["Fdatasync","Fsync","Ftruncate","Fallocate","Close"])
put(R+"/syscall/verif_hook.go", '''package syscall

import (
	"sync/atomic"
	"unsafe"
)

// A disk refuses direct I/O whose memory, offset or length is not a multiple of its sector
// size; the memory file system the checks use does not, so it is done here.
var verifDirect [4096]uint32

func verifMisaligned(fd int, p []byte, off int64) bool {
	if fd < 0 || fd >= len(verifDirect) || atomic.LoadUint32(&verifDirect[fd]) == 0 || len(p) == 0 {
		return false
	}
	return len(p)%512 != 0 || off%512 != 0 || uintptr(unsafe.Pointer(&p[0]))%512 != 0
}

func Close(fd int) (err error) {
	if fd >= 0 && fd < len(verifDirect) {
		atomic.StoreUint32(&verifDirect[fd], 0)
	}
	return VerifRawClose(fd)
}

// VerifIO, when set, sees every file operation before (and may replace it: handled=true).
type VerifIOHooks struct {
	Pwrite    func(fd int, p []byte, off int64) (n int, err error, handled bool)
	Write     func(fd int, p []byte) (n int, err error, handled bool)
	Pread     func(fd int, p []byte, off int64) (n int, err error, handled bool)
	Read      func(fd int, p []byte) (n int, err error, handled bool)
	Sync      func(fd int) (err error, handled bool)
	Ftruncate func(fd int, length int64) (err error, handled bool)
	Fallocate func(fd int, mode uint32, off int64, length int64) (err error, handled bool)
	Opened    func(path string, mode int, fd int, err error)
	Rename    func(from, to string) (err error, handled bool)
	Unlink    func(path string) (err error, handled bool)
}

var VerifIO *VerifIOHooks

func Pwrite(fd int, p []byte, off int64) (n int, err error) {
	if verifMisaligned(fd, p, off) {
		return -1, EINVAL
	}
	if h := VerifIO; h != nil && h.Pwrite != nil {
		if n, err, ok := h.Pwrite(fd, p, off); ok {
			return n, err
		}
	}
	return VerifRawPwrite(fd, p, off)
}
func Write(fd int, p []byte) (n int, err error) {
	if verifMisaligned(fd, p, 0) {
		return -1, EINVAL
	}
	if h := VerifIO; h != nil && h.Write != nil {
		if n, err, ok := h.Write(fd, p); ok {
			return n, err
		}
	}
	return VerifRawWrite(fd, p)
}
func Pread(fd int, p []byte, off int64) (n int, err error) {
	if verifMisaligned(fd, p, off) {
		return -1, EINVAL
	}
	if h := VerifIO; h != nil && h.Pread != nil {
		if n, err, ok := h.Pread(fd, p, off); ok {
			return n, err
		}
	}
	return VerifRawPread(fd, p, off)
}
func Read(fd int, p []byte) (n int, err error) {
	if verifMisaligned(fd, p, 0) {
		return -1, EINVAL
	}
	if h := VerifIO; h != nil && h.Read != nil {
		if n, err, ok := h.Read(fd, p); ok {
			return n, err
		}
	}
	return VerifRawRead(fd, p)
}
func Fdatasync(fd int) (err error) {
	if h := VerifIO; h != nil && h.Sync != nil {
		if err, ok := h.Sync(fd); ok {
			return err
		}
	}
	return VerifRawFdatasync(fd)
}
func Fsync(fd int) (err error) {
	if h := VerifIO; h != nil && h.Sync != nil {
		if err, ok := h.Sync(fd); ok {
			return err
		}
	}
	return VerifRawFsync(fd)
}
func Ftruncate(fd int, length int64) (err error) {
	if h := VerifIO; h != nil && h.Ftruncate != nil {
		if err, ok := h.Ftruncate(fd, length); ok {
			return err
		}
	}
	return VerifRawFtruncate(fd, length)
}
func Fallocate(fd int, mode uint32, off int64, length int64) (err error) {
	if h := VerifIO; h != nil && h.Fallocate != nil {
		if err, ok := h.Fallocate(fd, mode, off, length); ok {
			return err
		}
	}
	return VerifRawFallocate(fd, mode, off, length)
}
func Open(path string, mode int, perm uint32) (fd int, err error) {
	fd, err = VerifRawOpen(path, mode, perm)
	if err == nil && fd < len(verifDirect) {
		v := uint32(0)
		if mode&O_DIRECT != 0 {
			v = 1
		}
		atomic.StoreUint32(&verifDirect[fd], v)
	}
	if h := VerifIO; h != nil && h.Opened != nil {
		h.Opened(path, mode, fd, err)
	}
	return
}
func Rename(from, to string) (err error) {
	if h := VerifIO; h != nil && h.Rename != nil {
		if err, ok := h.Rename(from, to); ok {
			return err
		}
	}
	return VerifRawRename(from, to)
}
func Unlink(path string) error {
	if h := VerifIO; h != nil && h.Unlink != nil {
		if err, ok := h.Unlink(path); ok {
			return err
		}
	}
	return VerifRawUnlink(path)
}
''')

# sync: hooks run before/after the real operation, which is always performed too.
edit(R+"/sync/mutex.go",
 ("func (m *Mutex) Lock() {\n\tm.mu.Lock()\n}", "func (m *Mutex) Lock() {\n\tif h := VerifSync; h != nil {\n\t\th.Lock(unsafe.Pointer(m))\n\t}\n\tm.mu.Lock()\n}"),
 ("func (m *Mutex) TryLock() bool {\n\treturn m.mu.TryLock()\n}", "func (m *Mutex) TryLock() bool {\n\tif h := VerifSync; h != nil {\n\t\tif ok, handled := h.TryLock(unsafe.Pointer(m)); handled && !ok {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn m.mu.TryLock()\n}"),
 ("func (m *Mutex) Unlock() {\n\tm.mu.Unlock()\n}", "func (m *Mutex) Unlock() {\n\tm.mu.Unlock()\n\tif h := VerifSync; h != nil {\n\t\th.Unlock(unsafe.Pointer(m))\n\t}\n}"),
 ("import (\n\tisync \"internal/sync\"\n)", "import (\n\tisync \"internal/sync\"\n\t\"unsafe\"\n)"))
s = open(R+"/sync/rwmutex.go").read()
# the public methods get hooks; their internal use of rw.w must not be hooked
for n in ["RLock","RUnlock","Lock","Unlock"]:
    a = f"func (rw *RWMutex) {n}() {{\n"
    if s.count(a)!=1: sys.exit("overlay: rwmutex "+n)
    s = s.replace(a, f"func (rw *RWMutex) verif{n}() {{\n")
for n in ["TryRLock","TryLock"]:
    a = f"func (rw *RWMutex) {n}() bool {{\n"
    if s.count(a)!=1: sys.exit("overlay: rwmutex "+n)
    s = s.replace(a, f"func (rw *RWMutex) verif{n}() bool {{\n")
for a,b in [("rw.w.Lock()","rw.w.mu.Lock()"),("rw.w.Unlock()","rw.w.mu.Unlock()"),("rw.w.TryLock()","rw.w.mu.TryLock()")]:
    s = s.replace(a,b)
put(R+"/sync/rwmutex.go", s)
put(R+"/sync/verif_hook.go", '''package sync

import "unsafe"

// VerifSyncHooks: *Lock are called before the real acquisition (and block until the
// controlled scheduler grants it), *Unlock after the real release.
type VerifSyncHooks struct {
	Lock, Unlock, RWLock, RWUnlock, RLock, RUnlock func(m unsafe.Pointer)
	TryLock, TryRWLock, TryRLock                   func(m unsafe.Pointer) (ok, handled bool)
	WaitGroup                                      func(wg unsafe.Pointer)
}

var VerifSync *VerifSyncHooks

// Semaphores the race detector does not see.
func VerifSemacquire(s *uint32) { runtime_Semacquire(s) }
func VerifSemrelease(s *uint32) { runtime_Semrelease(s, false, 0) }

func (rw *RWMutex) RLock() {
	if h := VerifSync; h != nil {
		h.RLock(unsafe.Pointer(rw))
	}
	rw.verifRLock()
}
func (rw *RWMutex) RUnlock() {
	rw.verifRUnlock()
	if h := VerifSync; h != nil {
		h.RUnlock(unsafe.Pointer(rw))
	}
}
func (rw *RWMutex) Lock() {
	if h := VerifSync; h != nil {
		h.RWLock(unsafe.Pointer(rw))
	}
	rw.verifLock()
}
func (rw *RWMutex) Unlock() {
	rw.verifUnlock()
	if h := VerifSync; h != nil {
		h.RWUnlock(unsafe.Pointer(rw))
	}
}
func (rw *RWMutex) TryLock() bool {
	if h := VerifSync; h != nil {
		if ok, handled := h.TryRWLock(unsafe.Pointer(rw)); handled && !ok {
			return false
		}
	}
	return rw.verifTryLock()
}
func (rw *RWMutex) TryRLock() bool {
	if h := VerifSync; h != nil {
		if ok, handled := h.TryRLock(unsafe.Pointer(rw)); handled && !ok {
			return false
		}
	}
	return rw.verifTryRLock()
}
''')

edit(R+"/sync/waitgroup.go", ("func (wg *WaitGroup) Wait() {\n", "func (wg *WaitGroup) Wait() {\n\tif h := VerifSync; h != nil && h.WaitGroup != nil {\n\t\th.WaitGroup(unsafe.Pointer(wg))\n\t}\n"))

# the two commands run inside the harness: no process exit, no real clock, port or signal
edit(R+"/os/proc.go", ("func Exit(code int) {\n", "func Exit(code int) {\n\tif f := VerifExit; f != nil {\n\t\tf(code)\n\t}\n"))
put(R+"/os/verif_hook.go", "package os\n\nvar VerifExit func(code int)\n")
edit(R+"/time/sleep.go", ("func After(d Duration) <-chan Time {\n", "func After(d Duration) <-chan Time {\n\tif f := VerifAfter; f != nil {\n\t\tif c := f(d); c != nil {\n\t\t\treturn c\n\t\t}\n\t}\n"),
  ("func NewTimer(d Duration) *Timer {\n", "func NewTimer(d Duration) *Timer {\n\tif f := VerifTimer; f != nil {\n\t\tif vc := f(d, false); vc != nil {\n\t\t\tc := make(chan Time, 1)\n\t\t\tt := newTimer(when(1<<62), 0, sendTime, c, syncTimer(c))\n\t\t\tt.C = vc\n\t\t\treturn t\n\t\t}\n\t}\n"),
  ("func (t *Timer) Stop() bool {\n", "func (t *Timer) Stop() bool {\n\tif f := VerifTimerStop; f != nil && t.C != nil && f(t.C) {\n\t\treturn true\n\t}\n"),
  ("func (t *Timer) Reset(d Duration) bool {\n", "func (t *Timer) Reset(d Duration) bool {\n\tif f := VerifTimerReset; f != nil && t.C != nil && f(t.C, d) {\n\t\treturn true\n\t}\n"))
edit(R+"/time/tick.go", ("func NewTicker(d Duration) *Ticker {\n", "func NewTicker(d Duration) *Ticker {\n\tif f := VerifTimer; f != nil && d > 0 {\n\t\tif vc := f(d, true); vc != nil {\n\t\t\tc := make(chan Time, 1)\n\t\t\tt := (*Ticker)(unsafe.Pointer(newTimer(when(1<<62), 1<<62, sendTime, c, syncTimer(c))))\n\t\t\tt.C = vc\n\t\t\treturn t\n\t\t}\n\t}\n"),
  ("func (t *Ticker) Stop() {\n", "func (t *Ticker) Stop() {\n\tif f := VerifTimerStop; f != nil && f(t.C) {\n\t\treturn\n\t}\n"),
  ("func (t *Ticker) Reset(d Duration) {\n", "func (t *Ticker) Reset(d Duration) {\n\tif f := VerifTimerReset; f != nil && f(t.C, d) {\n\t\treturn\n\t}\n"))
edit(R+"/time/time.go", ("func Now() Time {\n", "func Now() Time {\n\tif f := VerifNow; f != nil {\n\t\tif t, ok := f(); ok {\n\t\t\treturn t\n\t\t}\n\t}\n"))
put(R+"/time/verif_hook.go", "package time\n\nvar VerifAfter func(d Duration) <-chan Time\n\n// the clock, if ok\nvar VerifNow func() (t Time, ok bool)\n\n// timers and tickers: a channel takes the place of the real one\nvar VerifTimer func(d Duration, ticker bool) <-chan Time\nvar VerifTimerStop func(c <-chan Time) bool\nvar VerifTimerReset func(c <-chan Time, d Duration) bool\n")
edit(R+"/os/signal/signal.go", ("func Notify(c chan<- os.Signal, sig ...os.Signal) {\n", "func Notify(c chan<- os.Signal, sig ...os.Signal) {\n\tif f := VerifNotify; f != nil && f(c, sig) {\n\t\treturn\n\t}\n"))
put(R+"/os/signal/verif_hook.go", "package signal\n\nimport \"os\"\n\nvar VerifNotify func(c chan<- os.Signal, sig []os.Signal) bool\n")
edit(R+"/net/dial.go", ("func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n\tif f := VerifListen; f != nil {\n\t\treturn f(network, address)\n\t}\n"))
put(R+"/net/verif_hook.go", "package net\n\nvar VerifListen func(network, address string) (Listener, error)\n")
# the commands as importable packages, compiled from the current tree
import glob
for cmd in ["kanils","readup"]:
    for p in sorted(glob.glob(f"/repo/cmd/{cmd}/*.go")):
        if p.endswith("_test.go"): continue
        t = open(p).read()
        t, n = re.subn(r"(?m)^package main\b", "package "+cmd, t, count=1)
        if n != 1: sys.exit("overlay: no package clause in "+p)
        name = os.path.join(out, f"cmd_{cmd}_"+os.path.basename(p))
        if not os.path.exists(name) or open(name).read()!=t: open(name,"w").write(t)
        rep[f"/repo/verif_{cmd}/"+os.path.basename(p)] = name
    name = os.path.join(out, f"cmd_{cmd}_verif_export.go")
    t = f"package {cmd}\n\n// Main runs the command.\nfunc Main() {{ main() }}\n"
    if not os.path.exists(name) or open(name).read()!=t: open(name,"w").write(t)
    rep[f"/repo/verif_{cmd}/verif_export.go"] = name

HERE = os.path.dirname(os.path.abspath(__file__))
import shutil, stat
replaces = []
def modcopy(m):
    """a writable copy of module m, used through a replace directive (the module cache
    itself cannot be overlaid)"""
    v=[l.split()[1] for l in open(os.path.join(HERE,"go.mod")) if l.strip().startswith(m+" ")]
    if not v: sys.exit("overlay: no version of "+m)
    dst = os.path.join(out, "mod", m.replace("/","_"))
    if not os.path.isdir(dst):
        tmp = dst+".tmp%d"%os.getpid()
        shutil.copytree(f"{M}/{m}@{v[0]}", tmp)
        for d0,_,fs in os.walk(tmp):
            os.chmod(d0, 0o755)
            for f in fs: os.chmod(os.path.join(d0,f), 0o644)
        if not os.path.exists(tmp+"/go.mod"): open(tmp+"/go.mod","w").write("module "+m+"\n")
        os.rename(tmp, dst)
    replaces.append((m, v[0], dst))
    return f"{M}/{m}@{v[0]}", dst
class Mod:
    def __init__(self, m): self.src, self.dst = modcopy(m)
    def put(self, rel, text):
        p = os.path.join(self.dst, rel)
        if not os.path.exists(p) or open(p).read()!=text: open(p,"w").write(text)
    def edit(self, rel, *subs):
        s = open(os.path.join(self.src, rel)).read()
        for a,b in subs:
            if s.count(a)!=1: sys.exit(f"overlay: anchor {a!r} occurs {s.count(a)} times in {rel}")
            s = s.replace(a,b)
        self.put(rel, s)
Mod("go.opencensus.io").edit("stats/record.go",
  ("\tRecordWithOptions(ctx, WithMeasurements(ms...))\n", "\t_ = ms\n"))
Mod("github.com/klauspost/readahead").edit("reader.go",
  ("\ta.size = size\n", "\tif size > 1<<16 {\n\t\tsize = 1 << 16\n\t}\n\ta.size = size\n"))
judy = Mod("github.com/thesues/go-judy")
exec(open(os.path.join(HERE,"overlay_judy.py")).read())
json.dump({"Replace":rep}, open(os.path.join(out,"overlay.json"),"w"), indent=1)
gm = open(os.path.join(HERE,"go.mod")).read()
for m,v,dst in replaces: gm += f"replace {m} => {dst}\n"
open(os.path.join(out,"go.mod"),"w").write(gm)
shutil.copyfile(os.path.join(HERE,"go.sum"), os.path.join(out,"go.sum"))
