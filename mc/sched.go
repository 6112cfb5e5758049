package main

// Controlled scheduler: the threads of one execution run one at a time.  A thread gives up
// control only at scheduling points: the start of an operation, before acquiring a lock,
// before a device call and before waiting for a wait group.  All choices are taken from a
// choice sequence, so that a depth-first search with a preemption bound enumerates every
// schedule.  The hand-over uses semaphores the race detector does not know, and nothing here
// is instrumented: in the race build only the code under test orders its memory accesses.

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

const (
	maxThr   = 6
	maxLocks = 64
	maxSteps = 4000
)

const (
	pStart = iota
	pMutex
	pRW
	pR
	pIO
	pWG
	pOut // not under control (a background goroutine outside of its locks)
	pExit
	pNew
)

var pNames = []string{"op", "Lock", "Lock(rw)", "RLock", "io", "WaitGroup", "out", "exit", "new"}

type thr struct {
	id        int
	goid      uint64
	sem       uint32
	kind      int
	lock      int // index in the lock table
	announced bool
	held      int
	bg        bool
	op        int // index of the current operation
	points    int
}

type lk struct {
	p       unsafe.Pointer
	owner   int // thread id + 1 of the writer
	readers int
	ann     int // thread id + 1 of the writer that waits for the readers
}

type choice struct {
	n, idx  uint8
	preempt bool // another thread than the enabled current one costs a preemption
}

type traceEnt struct {
	thr, op, kind, lock uint8
}

const (
	phOff = iota
	phOpen
	phRun
)

type schedT struct {
	phase    int
	mainG    uint64
	opened   bool
	thr      [maxThr]thr
	n        int
	nbg      int
	locks    [maxLocks]lk
	nlocks   int
	cur      int
	done     uint32
	ready    uint32
	bgOut    uint32
	never    uint32
	steps    int
	prefix   [maxSteps]uint8
	nprefix  int
	ch       [maxSteps]choice
	nch      int
	trace    [maxSteps]traceEnt
	ntrace   int
	dead     bool
	long     bool
	diverge  bool
	clock    int
	hash     uint64
	ioSeq    int
	free     [16]uint64
	nfree    int
	closedBg bool
	late     bool
	settle   bool
}

var sc schedT
var schedHooks *sync.VerifSyncHooks
var schedIO *syscall.VerifIOHooks

// ---- whose code takes a lock

type pcEnt struct {
	pc   uintptr
	repo bool
	ra   bool
	set  bool
}

var pcTab [4096]pcEnt

//go:norace
func callerInfo() (repo, readahead bool) {
	var pcs [14]uintptr
	n := runtime.Callers(3, pcs[:])
	h := uintptr(0)
	for i := 0; i < n; i++ {
		h = h*31 + pcs[i]
	}
	e := &pcTab[(h^h>>12)%4096]
	if e.set && e.pc == h {
		return e.repo, e.ra
	}
	r, a := pcLookup(pcs[:n])
	e.pc, e.repo, e.ra, e.set = h, r, a, true
	return r, a
}

//go:norace
func pcLookup(pcs []uintptr) (repo, ra bool) {
	fr := runtime.CallersFrames(pcs)
	first := true
	for {
		f, more := fr.Next()
		if first && !strings.HasPrefix(f.Function, "main.") && !strings.HasPrefix(f.Function, "sync.") {
			first = false
			repo = strings.HasPrefix(f.Function, "github.com/thesues/cannyls-go")
		}
		if strings.Contains(f.Function, "readahead") {
			ra = true
		}
		if !more {
			return
		}
	}
}

//go:norace
func findThr() *thr {
	g := runtime.VerifGoid()
	for i := 0; i < sc.n; i++ {
		if sc.thr[i].goid == g {
			return &sc.thr[i]
		}
	}
	return nil
}

//go:norace
func curThr() *thr {
	if sc.phase == phOff {
		return nil
	}
	g := runtime.VerifGoid()
	if g == sc.mainG {
		return nil
	}
	for i := 0; i < sc.n; i++ {
		if sc.thr[i].goid == g {
			return &sc.thr[i]
		}
	}
	// an unknown goroutine: a background worker of the store
	repo, ra := callerInfo()
	if !repo || ra || sc.n >= maxThr {
		return nil
	}
	for i := 0; i < sc.nfree; i++ {
		if sc.free[i] == g {
			return nil
		}
	}
	t0 := time.Now()
	for sc.phase == phOpen && !sc.opened {
		if time.Since(t0) > bgWait {
			// probably needed for opening
			bgLate()
			break
		}
		runtime.Gosched()
	}
	sync.VerifSemacquire(&scMu)
	var t *thr
	if sc.phase == phOpen && sc.opened && !sc.closedBg {
		t = &sc.thr[sc.n]
		*t = thr{id: sc.n, goid: g, kind: pOut, bg: true, lock: -1}
		sc.n++
		sc.nbg++
	} else if sc.nfree < len(sc.free) {
		// it runs freely in this execution
		sc.free[sc.nfree] = g
		sc.nfree++
		sc.late = true
	}
	sync.VerifSemrelease(&scMu)
	return t
}

// bgWait: how long to wait for the background goroutines of open.
var bgWait = 400 * time.Millisecond
var nLate int
var scMu uint32 = 1

//go:norace
func bgLate() {
	nLate++
	if nLate >= 3 {
		bgWait = 5 * time.Millisecond
	}
}

// quiet waits until the goroutines of the last execution are gone.
//
//go:norace
func quiet() int {
	if quietBase == 0 {
		time.Sleep(10 * time.Millisecond)
		quietBase = runtime.NumGoroutine()
	}
	t0 := time.Now()
	for i := 0; runtime.NumGoroutine() > quietBase; i++ {
		if i > 50 && time.Since(t0) > bgWait {
			bgLate()
			quietBase = runtime.NumGoroutine()
			break
		}
		runtime.Gosched()
	}
	if n := runtime.NumGoroutine(); n < quietBase {
		quietBase = n
	}
	return quietBase
}

var quietBase int

//go:norace
func lockIndex(p unsafe.Pointer) int {
	for i := 0; i < sc.nlocks; i++ {
		if sc.locks[i].p == p {
			return i
		}
	}
	if sc.nlocks >= maxLocks {
		// forget a free one
		for i := 0; i < sc.nlocks; i++ {
			l := &sc.locks[i]
			if l.owner == 0 && l.readers == 0 && l.ann == 0 {
				used := false
				for k := 0; k < sc.n; k++ {
					if sc.thr[k].lock == i && sc.thr[k].kind >= pMutex && sc.thr[k].kind <= pR {
						used = true
					}
				}
				if !used {
					*l = lk{p: p}
					return i
				}
			}
		}
		panic("too many locks")
	}
	sc.locks[sc.nlocks] = lk{p: p}
	sc.nlocks++
	return sc.nlocks - 1
}

//go:norace
func enabled(t *thr) bool {
	switch t.kind {
	case pStart, pIO:
		return true
	case pMutex:
		return sc.locks[t.lock].owner == 0
	case pR:
		l := &sc.locks[t.lock]
		return l.owner == 0 && l.ann == 0
	case pRW:
		l := &sc.locks[t.lock]
		if t.announced {
			return l.owner == 0 && l.readers == 0
		}
		return l.owner == 0 && l.ann == 0
	case pWG:
		for i := 0; i < sc.n; i++ {
			b := &sc.thr[i]
			if b.bg && b.kind != pOut && b.kind != pExit {
				return false
			}
		}
		return true
	}
	return false
}

// pick chooses the next thread; cur is the thread that gives up control (or nil).
//
//go:norace
func pick(cur *thr) *thr {
	var en [maxThr]*thr
	n := 0
	if cur != nil && enabled(cur) {
		en[0] = cur
		n = 1
	}
	cn := n
	for i := 0; i < sc.n; i++ {
		t := &sc.thr[i]
		if t != cur && enabled(t) {
			en[n] = t
			n++
		}
	}
	if n == 0 {
		return nil
	}
	if n == 1 {
		return en[0]
	}
	if sc.nch >= maxSteps {
		sc.long = true
		return en[0]
	}
	k := 0
	if sc.nch < sc.nprefix {
		k = int(sc.prefix[sc.nch])
		if k >= n {
			sc.diverge = true
			k = 0
		}
	}
	sc.ch[sc.nch] = choice{n: uint8(n), idx: uint8(k), preempt: cn == 1}
	sc.nch++
	return en[k]
}

// handover gives control to the next thread; t waits for its turn when wait is set.
//
//go:norace
func handover(t *thr, wait bool) {
	var c *thr
	if wait {
		c = t
	}
	next := pick(c)
	if next == nil {
		alive := false
		for i := 0; i < sc.n; i++ {
			k := sc.thr[i].kind
			if k != pExit && k != pOut {
				alive = true
			}
		}
		sc.dead = alive
		sync.VerifSemrelease(&sc.done)
		if wait {
			sync.VerifSemacquire(&sc.never)
		}
		return
	}
	if next == t && wait {
		sc.cur = t.id
		return
	}
	sync.VerifSemrelease(&next.sem)
	if wait {
		sync.VerifSemacquire(&t.sem)
		settle()
		sc.cur = t.id
	}
}

// settle: a background goroutine has left its lock section; the thread that goes on first lets
// it come to its next one, or to where it sleeps.
//
//go:norace
func settle() {
	if !sc.settle {
		return
	}
	sc.settle = false
	waitQuiet()
}

//go:norace
func waitQuiet() {
	t0 := time.Now()
	for i := 0; !runtime.VerifQuiet(); i++ {
		if i > 50 && time.Since(t0) > bgWait {
			bgLate()
			break
		}
		runtime.Gosched()
	}
}

//go:norace
func mixHash(t *thr) {
	h := uint64(sc.ioSeq)
	for i := 0; i < sc.n; i++ {
		x := &sc.thr[i]
		h = h*1099511628211 ^ uint64(x.op)<<20 ^ uint64(x.points)<<8 ^ uint64(x.kind)
	}
	sc.hash = h
	seenState(h)
}

//go:norace
func point(t *thr, kind int, lock int) {
	t.kind, t.lock, t.announced = kind, lock, false
	t.points++
	sc.steps++
	if sc.steps > maxSteps*4 {
		sc.long = true
		sync.VerifSemrelease(&sc.done)
		sync.VerifSemacquire(&sc.never)
	}
	handover(t, true)
	take(t, kind, lock)
}

// take: t has been chosen and takes what it waits for.
//
//go:norace
func take(t *thr, kind, lock int) {
	for {
		switch kind {
		case pMutex:
			sc.locks[lock].owner = t.id + 1
			t.held++
		case pR:
			sc.locks[lock].readers++
			t.held++
		case pRW:
			l := &sc.locks[lock]
			if l.readers > 0 {
				// waits for the readers; new readers wait for it
				l.ann = t.id + 1
				t.announced = true
				handover(t, true)
				continue
			}
			l.ann = 0
			l.owner = t.id + 1
			t.held++
		}
		break
	}
	if sc.ntrace < maxSteps {
		sc.trace[sc.ntrace] = traceEnt{uint8(t.id), uint8(t.op), uint8(kind), uint8(lock + 1)}
		sc.ntrace++
	}
	if kind == pIO {
		sc.ioSeq = sc.ioSeq*7 + t.id + 1
	}
	mixHash(t)
}

//go:norace
func lockHook(p unsafe.Pointer, kind int) {
	t := curThr()
	if t == nil {
		return
	}
	if repo, _ := callerInfo(); !repo {
		return
	}
	if t.bg && t.kind == pOut {
		// a background goroutine comes in: it waits for its turn
		sync.VerifSemacquire(&scMu)
		if sc.phase == phOff {
			sync.VerifSemrelease(&scMu)
			return
		}
		t.lock, t.announced = lockIndex(p), false
		t.points++
		t.kind = kind
		sync.VerifSemrelease(&scMu)
		sync.VerifSemacquire(&t.sem)
		if sc.phase == phOff {
			t.kind = pOut
			return
		}
		settle()
		sc.cur = t.id
		take(t, kind, t.lock)
		return
	}
	point(t, kind, lockIndex(p))
}

//go:norace
func unlockHook(p unsafe.Pointer, read bool) {
	if sc.phase == phOff {
		return
	}
	t := findThr()
	if t == nil {
		return
	}
	i := -1
	for k := 0; k < sc.nlocks; k++ {
		if sc.locks[k].p == p {
			i = k
		}
	}
	if i < 0 {
		return
	}
	l := &sc.locks[i]
	if read {
		if l.readers > 0 {
			l.readers--
		} else {
			return
		}
	} else {
		if l.owner == 0 {
			return
		}
		l.owner = 0
	}
	t.held--
	if t.bg && t.held == 0 {
		t.kind = pOut
		if sc.phase == phRun {
			sc.settle = true
			handover(t, false)
		} else {
			sync.VerifSemrelease(&sc.bgOut)
		}
	}
}

//go:norace
func hLock(m unsafe.Pointer) { lockHook(m, pMutex) }

//go:norace
func hUnlock(m unsafe.Pointer) { unlockHook(m, false) }

//go:norace
func hRWLock(m unsafe.Pointer) { lockHook(m, pRW) }

//go:norace
func hRWUnlock(m unsafe.Pointer) { unlockHook(m, false) }

//go:norace
func hRLock(m unsafe.Pointer) { lockHook(m, pR) }

//go:norace
func hRUnlock(m unsafe.Pointer) { unlockHook(m, true) }

//go:norace
func tryHook(m unsafe.Pointer, kind int) (bool, bool) {
	t := curThr()
	if t == nil {
		return false, false
	}
	if repo, _ := callerInfo(); !repo {
		return false, false
	}
	i := lockIndex(m)
	point(t, pIO, i) // a try never waits
	l := &sc.locks[i]
	switch kind {
	case pMutex, pRW:
		if l.owner != 0 || l.readers != 0 || l.ann != 0 {
			return false, true
		}
		l.owner = t.id + 1
	case pR:
		if l.owner != 0 || l.ann != 0 {
			return false, true
		}
		l.readers++
	}
	t.held++
	return true, true
}

//go:norace
func hTryLock(m unsafe.Pointer) (bool, bool) { return tryHook(m, pMutex) }

//go:norace
func hTryRWLock(m unsafe.Pointer) (bool, bool) { return tryHook(m, pRW) }

//go:norace
func hTryRLock(m unsafe.Pointer) (bool, bool) { return tryHook(m, pR) }

//go:norace
func hWG(m unsafe.Pointer) {
	t := curThr()
	if t == nil || t.bg {
		return
	}
	if repo, _ := callerInfo(); !repo {
		return
	}
	for {
		point(t, pWG, -1)
		// it really waits now: the background goroutines have to be through
		waitQuiet()
		if enabled(t) {
			return
		}
	}
}

//go:norace
func ioPoint() {
	if sc.phase != phRun {
		return
	}
	g := runtime.VerifGoid()
	for i := 0; i < sc.n; i++ {
		if sc.thr[i].goid == g && !(sc.thr[i].bg && sc.thr[i].kind == pOut) {
			point(&sc.thr[i], pIO, -1)
			return
		}
	}
}

//go:norace
func hPwrite(fd int, p []byte, off int64) (int, error, bool) {
	ioPoint()
	if cflt.kind == 'w' && cflt.hit(off) {
		return 0, syscall.EIO, true
	}
	if ioLog != nil {
		return ioLog.pwrite(fd, p, off)
	}
	return 0, nil, false
}

//go:norace
func hWrite(fd int, p []byte) (int, error, bool) { ioPoint(); return 0, nil, false }

//go:norace
func hPread(fd int, p []byte, off int64) (int, error, bool) {
	ioPoint()
	if cflt.kind == 'r' && cflt.hit(off) {
		return 0, syscall.EIO, true
	}
	return 0, nil, false
}

// concFault: the k-th device call of that kind which one of the operations makes for its lump fails.
type concFault struct {
	kind    byte // 'w', 'r', 0: none
	k, n    int
	data    int64 // where the data region begins
	prog    [][]Op
	thr, op int // who met it
}

var cflt concFault

//go:norace
func (f *concFault) hit(off int64) bool {
	if sc.phase != phRun {
		return false
	}
	g := runtime.VerifGoid()
	for i := sc.n - len(f.prog); i < sc.n; i++ {
		t := &sc.thr[i]
		if i < 0 || t.goid != g || t.bg {
			continue
		}
		p := f.prog[i-(sc.n-len(f.prog))]
		if t.op >= len(p) {
			return false
		}
		switch p[t.op].K {
		case 'P', 'W':
			if off < f.data {
				return false
			}
		case 'v', 'g', 'z':
		default:
			return false
		}
		f.n++
		if f.n-1 != f.k {
			return false
		}
		f.thr, f.op = i-(sc.n-len(f.prog)), t.op
		return true
	}
	return false
}

//go:norace
func hSync(fd int) (error, bool) {
	ioPoint()
	if ioLog != nil {
		return ioLog.sync(fd)
	}
	return nil, false
}

//go:norace
func hFtrunc(fd int, n int64) (error, bool) { ioPoint(); return nil, false }

//go:norace
func hRename(a, b string) (error, bool) { ioPoint(); return nil, false }

//go:norace
func hUnlink(a string) (error, bool) { ioPoint(); return nil, false }

// ---- one execution

// tick is the logical clock of invocations and responses.
//
//go:norace
func tick() int { sc.clock++; return sc.clock }

//go:norace
func thrBegin(id int) {
	t := &sc.thr[id]
	t.goid = runtime.VerifGoid()
	t.kind = pStart
	sync.VerifSemrelease(&sc.ready)
	sync.VerifSemacquire(&t.sem)
	settle()
	sc.cur = id
}

// opBegin: the point before an operation is invoked.
//
//go:norace
func opBegin(id, op int) {
	t := &sc.thr[id]
	t.op = op
	if op > 0 {
		point(t, pStart, -1)
	}
}

//go:norace
func thrEnd(id int) {
	t := &sc.thr[id]
	t.kind = pExit
	t.op = 99
	handover(t, false)
}

//go:norace
func schedOpen() {
	sync.VerifSync = nil
	syscall.VerifIO = nil
	sc = schedT{mainG: runtime.VerifGoid(), phase: phOpen}
	if schedHooks == nil {
		schedHooks = &sync.VerifSyncHooks{Lock: hLock, Unlock: hUnlock, RWLock: hRWLock, RWUnlock: hRWUnlock, RLock: hRLock, RUnlock: hRUnlock,
			TryLock: hTryLock, TryRWLock: hTryRWLock, TryRLock: hTryRLock, WaitGroup: hWG}
		schedIO = &syscall.VerifIOHooks{Pwrite: hPwrite, Write: hWrite, Pread: hPread, Sync: hSync, Ftruncate: hFtrunc, Rename: hRename, Unlink: hUnlink}
	}
	sync.VerifSync = schedHooks
}

// waitBg waits until the goroutines started by open have arrived at their first lock.
//
//go:norace
func waitBg(base int) {
	sc.opened = true
	t0 := time.Now()
	for i := 0; runtime.NumGoroutine() > base+sc.nbg || (sc.nbg > 0 && sc.thr[sc.n-1].kind == pOut); i++ {
		if i > 50 && time.Since(t0) > bgWait {
			bgLate()
			break
		}
		runtime.Gosched()
	}
	sync.VerifSemacquire(&scMu)
	sc.closedBg = true
	sync.VerifSemrelease(&scMu)
}

// ---- the store's own timers: a channel that the operation 'T' feeds takes their place

var tickChans [8]chan time.Time
var nTick int

//go:norace
func newStoreTimer(d time.Duration, ticker bool) <-chan time.Time {
	if sc.phase == phOff || nTick == len(tickChans) {
		return nil
	}
	c := make(chan time.Time, 1)
	tickChans[nTick] = c
	nTick++
	return c
}

//go:norace
func hookTimers() {
	nTick = 0
	if time.VerifTimer == nil {
		time.VerifTimer = newStoreTimer
	}
}

// tickStore lets the timers of the store fire, and the goroutines which wait for them come to
// their next scheduling point.
//
//go:norace
func tickStore() {
	for i := 0; i < nTick; i++ {
		select {
		case tickChans[i] <- time.Time{}:
		default:
		}
	}
	waitQuiet()
}

// freeBg lets the background goroutines pass the lock sections of their start.
//
//go:norace
func freeBg() {
	for n := 0; n < 20; n++ {
		free := true
		for i := 0; i < sc.n; i++ {
			t := &sc.thr[i]
			if t.bg && t.kind != pOut && t.held == 0 {
				free = false
				sync.VerifSemrelease(&t.sem)
				sync.VerifSemacquire(&sc.bgOut)
			}
		}
		if free {
			return
		}
		waitQuiet()
	}
}

//go:norace
func addThr() int {
	id := sc.n
	sc.thr[id] = thr{id: id, kind: pNew, lock: -1}
	sc.n++
	return id
}

//go:norace
func runAll(n int) {
	for i := 0; i < n; i++ {
		sync.VerifSemacquire(&sc.ready)
	}
	syscall.VerifIO = schedIO
	sc.phase = phRun
	next := pick(nil)
	sync.VerifSemrelease(&next.sem)
	sync.VerifSemacquire(&sc.done)
}

//go:norace
func schedOff() {
	// a background goroutine still waiting for its turn goes on freely
	sync.VerifSemacquire(&scMu)
	sc.phase = phOff
	sync.VerifSemrelease(&scMu)
	for i := 0; i < sc.n; i++ {
		t := &sc.thr[i]
		if t.bg && t.kind >= pMutex && t.kind <= pR && t.held == 0 {
			sync.VerifSemrelease(&t.sem)
		}
	}
	syscall.VerifIO = nil
}

// ---- search over choice sequences

type explorer struct {
	bound  int // preemptions
	prefix []uint8
	first  bool
	max    int
	runs   int
	shards int // this search takes the schedules whose second deviation falls into the shard
	shard  int
	own    bool // not also executed by shard 0
}

//go:norace
func (e *explorer) load() {
	sc.nprefix = len(e.prefix)
	for i, c := range e.prefix {
		sc.prefix[i] = c
	}
}

// next computes the next prefix from the choices of the last run.
//
//go:norace
func (e *explorer) next() bool {
	// cost of each position
	cost := 0
	costs := make([]int, sc.nch)
	for i := 0; i < sc.nch; i++ {
		costs[i] = cost
		if sc.ch[i].preempt && sc.ch[i].idx > 0 {
			cost++
		}
	}
	dev := make([]int, sc.nch+1) // deviations before the position
	for i := 0; i < sc.nch; i++ {
		dev[i+1] = dev[i]
		if sc.ch[i].idx > 0 {
			dev[i+1]++
		}
	}
	e.own = true
	for i := sc.nch - 1; i >= 0; i-- {
		c := sc.ch[i]
		k := int(c.idx) + 1
		if e.shards > 1 && dev[i] == 1 {
			for k < int(c.n) && (i*7+k)%e.shards != e.shard {
				k++
			}
		}
		if k >= int(c.n) {
			continue
		}
		extra := 0
		if c.preempt {
			extra = 1
		}
		if costs[i]+extra > e.bound {
			continue
		}
		p := make([]uint8, i+1)
		for j := 0; j < i; j++ {
			p[j] = sc.ch[j].idx
		}
		p[i] = uint8(k)
		e.own = dev[i] > 0 || e.shard == 0
		e.prefix = p
		return true
	}
	return false
}

// ---- states seen (global control states), open addressing without instrumentation

var stateTab [1 << 20]uint64
var stateNew int

//go:norace
func seenState(h uint64) {
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	h ^= caseSalt
	if h == 0 {
		h = 1
	}
	for k := 0; k < 8; k++ {
		e := &stateTab[(h+uint64(k))%(1<<20)]
		if *e == h {
			return
		}
		if *e == 0 {
			*e = h
			stateNew++
			return
		}
	}
}

var caseSalt uint64

//go:norace
func resetStates() {
	if stateNew > 1<<19 {
		stateTab = [1 << 20]uint64{}
	}
	stateNew = 0
}

//go:norace
func scheduleString(names func(t, op int) string) string {
	var sb strings.Builder
	last := -1
	for i := 0; i < sc.ntrace; i++ {
		e := sc.trace[i]
		if int(e.thr) != last {
			if last >= 0 {
				sb.WriteString("] ")
			}
			fmt.Fprintf(&sb, "T%d[", e.thr)
			last = int(e.thr)
		}
		switch int(e.kind) {
		case pStart:
			fmt.Fprintf(&sb, " %s:", names(int(e.thr), int(e.op)))
		case pIO, pWG:
			fmt.Fprintf(&sb, " %s", pNames[e.kind])
		default:
			fmt.Fprintf(&sb, " %s#%d", pNames[e.kind], e.lock)
		}
	}
	sb.WriteString("]")
	for i := 0; i < sc.n; i++ {
		t := &sc.thr[i]
		if t.kind != pExit && t.kind != pOut {
			fmt.Fprintf(&sb, "; T%d waits at %s#%d", i, pNames[t.kind], t.lock+1)
		}
	}
	return sb.String()
}
