package main

// C19: device faults.  Every device call (read, write, sync, rename, unlink) made by an
// operation is made to fail, once or from there on, and the store is judged afterwards.

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sync"
	"syscall"
	"unsafe"

	"github.com/thesues/cannyls-go/storage"
)

const (
	fmNone   = iota
	fmBefore // nothing happened
	fmAfter  // it happened, but is reported as failed
	fmHalf   // the first half of the sectors was written
)

var fmNames = []string{"", "without effect", "after taking effect", "half written"}

type faulter struct {
	mu      sync.Mutex
	armed   bool
	n       int // calls seen
	at, end int // calls [at, end] fail
	mode    int
	hits    int
	kinds   []string
	all     []string // kinds of all calls
	what    string
	jend    int64 // end of the journal region
	torn    bool  // a journal write was torn
}

func (f *faulter) hit() bool { return f != nil && f.hits > 0 }
func (f *faulter) disarm() {
	if f != nil {
		f.armed = false
	}
}

func (f *faulter) next(kind string, off int64) int {
	if f == nil || !f.armed {
		return fmNone
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	k := f.n
	f.n++
	f.all = append(f.all, kind)
	if f.at < 0 {
		f.kinds = append(f.kinds, kind)
		return fmNone
	}
	if k < f.at || k > f.end || kind == "unlink" && k > f.at {
		return fmNone // cleaning up after an error succeeds
	}
	f.hits++
	if f.what == "" {
		f.what = fmt.Sprintf("device call %d (%s at %d) fails %s", k, kind, off, fmNames[f.mode])
		if f.end > k {
			f.what += ", and the calls after it"
		}
	}
	return f.mode
}

// write: the part of p that reaches the device, and the error to report.
func (f *faulter) write(p []byte, off int64) ([]byte, error) {
	switch f.next("write", off) {
	case fmBefore:
		return nil, syscall.EIO
	case fmAfter:
		return p, syscall.EIO
	case fmHalf:
		q := p[:len(p)/2/sector*sector]
		if len(q) > 0 && off < f.jend {
			f.torn = true
		}
		return q, syscall.EIO
	}
	return p, nil
}

// predict: the model if op takes effect.
func (s *SUT) predict(op Op) *Model {
	m := s.m.clone()
	b := make([]byte, op.A)
	switch op.K {
	case 'P', 'E':
		fill(b, s.seq+1, op.ID)
		m.m[op.ID] = &lumpVal{b: b, embed: op.K == 'E'}
	case 'D':
		delete(m.m, op.ID)
	case 'R':
		for k := range m.m {
			if k >= op.ID && k < uint64(op.A) {
				delete(m.m, k)
			}
		}
	case 'W':
		fill(b, s.seq+1, op.ID)
		v, had := m.m[op.ID]
		if !had {
			n := op.C
			if op.A+op.B > n {
				n = op.A + op.B
			}
			nb := make([]byte, n)
			copy(nb[op.B:], b)
			m.m[op.ID] = &lumpVal{b: nb}
		} else if !v.embed && op.A+op.B <= len(v.b) {
			nb := append([]byte(nil), v.b...)
			copy(nb[op.B:], b)
			m.m[op.ID] = &lumpVal{b: nb}
		}
	}
	return m
}

var abandoned []*storage.Storage

// abandon drops a store whose process "stopped": its locks may be held for ever.
func (s *SUT) abandon(fds map[int]bool) {
	if s.st == nil {
		// stopped while it was being opened: its files close when they are collected, another
		// store must not find them locked
		rawRemove(s.path)
		return
	}
	abandoned = append(abandoned, s.st) // keeps its files from being closed a second time
	v := reflect.ValueOf(s.st).Elem()
	for i := 0; i < v.NumField(); i++ { // looks closed
		if f := v.Field(i); f.Kind() == reflect.Bool {
			*(*bool)(unsafe.Pointer(f.UnsafeAddr())) = false
		}
	}
	for i := 0; i < 5; i++ {
		runtime.Gosched() // its background goroutine settles
	}
	for i := 0; i < v.NumField(); i++ { // its memory is not needed
		switch f := v.Field(i); f.Kind() {
		case reflect.Ptr, reflect.Interface:
			switch n := f.Type().String(); n {
			case "*nvm.SnapNVM", "*util.Stopper":
				continue
			}
		default:
			continue
		}
		f := v.Field(i)
		e := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		if x, ok := e.Interface().(interface{ Free() uint64 }); ok {
			x.Free()
		} else if x, ok := e.Interface().(interface{ Free() }); ok {
			x.Free()
		}
		e.Set(reflect.Zero(f.Type()))
	}
	s.st = nil
	for fd := range fds {
		if t, err := os.Readlink(fmt.Sprintf("/proc/self/fd/%d", fd)); err == nil && len(t) > len(s.w.Dir) && t[:len(s.w.Dir)] == s.w.Dir {
			syscall.Close(fd)
		}
	}
}

// guarded runs fn; died: the code stopped the process.
func guarded(s *SUT, fn func()) (died bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(failure); ok {
				panic(r)
			}
			if e, ok := r.(runtime.Error); ok {
				panic(e)
			}
			if !s.flt.hit() {
				panic(r)
			}
			s.w.Outcome("process-stopped")
			died = true
		}
	}()
	fn()
	return
}

type faultRun struct {
	*crashRun
	f     *faulter
	loose bool // in-place updates: kill states are judged like power losses
	died  bool
}

func (c *faultRun) arm(at, end, mode int) {
	c.f = &faulter{armed: true, at: at, end: end, mode: mode, jend: sector + int64(c.s.cfg.journalBytes())}
	c.s.flt, c.rec.flt = c.f, c.f
}

func (c *faultRun) unarm() {
	if c.f != nil {
		c.f.armed = false
	}
	c.s.flt = nil
}

func copyContent(c content) content {
	r := content{}
	for k, v := range c {
		r[k] = v
	}
	return r
}

// do runs op while faults are armed; inside: look at kills after every device event of it.
func (c *faultRun) do(op Op, inside bool) {
	s := c.s
	before := s.m.content()
	pred := s.predict(op)
	after := pred.content()
	var alt content
	if v, had := s.m.m[op.ID]; had && op.K == 'P' && !v.embed && maxRun(s.usedBlocks(0, false)) < blocksOf(op.A) {
		alt = copyContent(before)
		delete(alt, op.ID)
	}
	old := s.m.m[op.ID]
	c.died = guarded(s, func() { s.apply(op) })
	if t, touches := opTouch(op); touches {
		c.touched = append(c.touched, t)
		c.cand = append(append([]content{}, c.cand...), after)
		if alt != nil {
			c.cand = append(c.cand, alt)
		}
	}
	for inside && !c.f.torn && c.nev < len(c.rec.evs)-1 {
		c.absorb1()
		c.buf = c.d.image(c.buf, func(int) bool { return true })
		c.check(c.buf, c.loose || op.K == 'W', fmt.Sprintf("%s: killed inside %s", c.f.what, op))
	}
	c.absorb()
	if c.died {
		return
	}
	if op.K == 'Y' {
		c.synced, c.touched = s.m.content(), nil
		c.cand = []content{c.synced}
	}
	if op.K == 'W' {
		c.loose = true
	}
	if s.lastErr == nil || !c.f.hit() {
		return
	}
	s.resolve(op, old, pred, alt != nil)
}

// resolve: op failed because of a device error; what became of its own lump?
func (s *SUT) resolve(op Op, old *lumpVal, pred *Model, alt bool) {
	armed := s.flt.armed
	s.flt.armed = false
	if alt {
		if _, err := s.st.GetSizeOnDisk(lid(op.ID)); err != nil {
			delete(s.m.m, op.ID) // made room first
		}
	}
	if op.K == 'W' && old != nil && !old.embed {
		b, err := s.st.Get(lid(op.ID))
		if err != nil || len(b) != len(old.b) {
			s.fail("%s failed (%s); the lump has then %d bytes, %v", op, s.flt.what, len(b), err)
		}
		nb := pred.m[op.ID].b
		for i := range b {
			if b[i] != old.b[i] && b[i] != nb[i] {
				s.fail("%s failed (%s); byte %d of the lump is neither the old nor the new one", op, s.flt.what, i)
			}
		}
		s.m.m[op.ID] = &lumpVal{b: b}
	}
	s.flt.armed = armed
}

// crashes: what if the process is killed, or the power fails, now
func (c *faultRun) crashes(where string) {
	if c.f.torn {
		return
	}
	where = c.f.what + ": " + where
	c.buf = c.d.image(c.buf, func(int) bool { return true })
	c.power = c.loose
	c.check(c.buf, c.loose, where+", killed")
	c.power = true
	c.explorePower(where)
}

func (c *faultRun) finish() {
	c.unarm()
	if c.died {
		fds := map[int]bool{}
		for fd := range c.rec.fds {
			fds[fd] = true
		}
		c.s.abandon(fds)
	}
	c.rec.dead = true
	c.s.close()
	c.rec.off()
	c.rec.flt = nil
}

type faultPlan struct{ at, end, mode int }

// runFault runs pre, then x with the fault, then y (also failing if the plan reaches there).
// It returns the device calls of x when plan.at < 0.
func runFault(w *W, cfg *Cfg, pre []Op, x, y Op, p faultPlan) (kinds []string) {
	c := &faultRun{crashRun: newCrashRun(w, cfg, true)}
	c.maxAll = 3
	defer c.finish()
	for _, o := range cfg.Pre {
		c.step(o, false)
	}
	for _, o := range pre {
		c.step(o, false)
		if o.K == 'W' {
			c.loose = true
		}
	}
	w.C.Execs++
	w.C.Traces++
	c.arm(p.at, p.end, p.mode)
	w.Beat(fmt.Sprintf("%s: fault at device call %d..%d, %s", x, p.at, p.end, fmNames[p.mode]))
	c.do(x, false)
	if p.at < 0 {
		return c.f.kinds
	}
	s := c.s
	if !c.f.hit() {
		return nil
	}
	if p.end < 1<<20 {
		c.f.armed = false
	}
	s.where = c.f.what
	c.crashes("after " + x.String())
	if c.died {
		return nil
	}
	if y.K != '-' {
		c.do(y, true)
		if c.died {
			c.crashes("after " + y.String())
			return nil
		}
		c.f.armed = false
		c.crashes("after " + y.String())
	}
	c.unarm()
	s.lax = true
	s.verify()
	s.use()
	s.fillAll()
	return nil
}

// fillAll: no space was lost.
func (s *SUT) fillAll() {
	s.apply(Op{K: 'R', ID: 0, A: 1 << 40})
	if s.lastErr != nil {
		return
	}
	s.apply(Op{K: 'Y'})
	op := Op{K: 'P', ID: 1, A: s.cfg.Data*sector - 2}
	s.apply(op)
	s.verify()
	s.reopen()
	s.verify()
}

func plansFor(kinds []string, y Op) []faultPlan {
	var ps []faultPlan
	n := len(kinds)
	for at := 0; at < n; at++ {
		modes := []int{fmBefore}
		if kinds[at] == "write" {
			modes = []int{fmBefore, fmAfter, fmHalf}
		} else if kinds[at] != "read" {
			modes = []int{fmBefore, fmAfter}
		}
		for _, m := range modes {
			ps = append(ps, faultPlan{at, at, m})
			if m == fmHalf {
				continue
			}
			if at < n-1 {
				ps = append(ps, faultPlan{at, 1<<20 - 1, m})
			}
			if y.K != '-' {
				ps = append(ps, faultPlan{at, 1 << 30, m})
			}
		}
	}
	return ps
}

func runFaultAll(w *W, cfg *Cfg, pre []Op, x, y Op) {
	kinds := runFault(w, cfg, pre, x, y, faultPlan{-1, 0, 0})
	for _, p := range plansFor(kinds, y) {
		runFault(w, cfg, pre, x, y, p)
	}
}

var alphaFX = []Op{
	{K: 'P', ID: 1, A: 10}, {K: 'P', ID: 2, A: 700}, {K: 'E', ID: 1, A: 31}, {K: 'E', ID: 3, A: 150}, {K: 'E', ID: 4, A: 490}, {K: 'D', ID: 2}, {K: 'D', ID: 3}, {K: 'R', ID: 1, A: 4},
	{K: 'W', ID: 2, A: 300, B: 100, C: 510}, {K: 'W', ID: 1, A: 30, B: 3, C: 510}, {K: 'G'}, {K: 'S', A: 3}, {K: 'Y'}, {K: 'F'}, {K: 'O'}, {K: 'r', ID: 2}, {K: 'r', ID: 3}, {K: 'g', ID: 2, A: 100, B: 50},
}
var alphaFY = []Op{
	{K: '-'}, {K: 'P', ID: 1, A: 10}, {K: 'P', ID: 2, A: 510}, {K: 'P', ID: 6, A: 700}, {K: 'E', ID: 3, A: 20}, {K: 'D', ID: 2}, {K: 'R', ID: 1, A: 4}, {K: 'Y'}, {K: 'G'}, {K: 'S', A: 3}, {K: 'O'}, {K: 'W', ID: 2, A: 30, B: 400, C: 510},
}

var alphaFP = []Op{
	{K: 'P', ID: 1, A: 10}, {K: 'P', ID: 2, A: 700}, {K: 'E', ID: 3, A: 150}, {K: 'E', ID: 4, A: 490}, {K: 'D', ID: 2}, {K: 'R', ID: 1, A: 4}, {K: 'Y'}, {K: 'S', A: 3}, {K: 'G'}, {K: 'O'}, {K: 'K'},
}

func faultFam(name string, cfg *Cfg, pres [][]Op, xs, ys []Op) *Family {
	n := len(pres) * len(xs) * len(ys)
	get := func(i int) ([]Op, Op, Op) {
		return pres[i/len(ys)/len(xs)], xs[i/len(ys)%len(xs)], ys[i%len(ys)]
	}
	return &Family{Name: name, N: n, Run: func(w *W, i int) {
		pre, x, y := get(i)
		runFaultAll(w, cfg, pre, x, y)
	}, Desc: func(i int) string {
		pre, x, y := get(i)
		return fmt.Sprintf("%s; then %s with every fault, then %s", opsString(pre), x, y)
	}}
}

func famC19(th bool) []*Family {
	var fs []*Family
	none := [][]Op{nil}
	for _, c := range cfgsK {
		fs = append(fs, faultFam("pairs/"+c.Name, c, none, alphaFX, alphaFY))
	}
	pres := wordsUpTo(alphaFP, 1)
	if th {
		pres = wordsUpTo(alphaFP, 2)
	}
	for _, i := range []int{0, 2, 6, 7, 8, 9, 10} {
		fs = append(fs, faultFam("words/"+cfgsK[i].Name, cfgsK[i], pres, alphaFX, alphaFY))
	}
	for r := 505; r <= 512; r++ {
		fs = append(fs, faultFam(fmt.Sprintf("straddle/%d", r), straddle(r), none, alphaFX, alphaFY))
	}
	cc := []*Cfg{{Name: "tiny", Ring: 1, Data: 1}, {Name: "small", Ring: 8, Data: 6}, {Name: "wide", Ring: 300, Data: 4000}}
	fs = append(fs, &Family{Name: "create", N: len(cc), Desc: func(i int) string { return "create " + cc[i].Name }, Run: func(w *W, i int) {
		kinds := runCreateFault(w, cc[i], faultPlan{-1, 0, 0})
		for _, p := range plansFor(kinds, Op{K: '-'}) {
			runCreateFault(w, cc[i], p)
		}
	}})
	for _, c := range cfgsSC() {
		if c.Data < 100 {
			fs = append(fs, snapFaultFam("snapshot/"+c.Name, c, none, alphaSFX, alphaSFY))
		} else {
			fs = append(fs, snapFaultFam("snapshot/"+c.Name, c, none, alphaSFbig, alphaSFbig))
		}
		// something is not synced yet, with and without a snapshot
		xs, ys := alphaSFX, alphaSFY
		if !th {
			xs, ys = []Op{{K: 's'}, {K: 'P', ID: 1, A: 100}, {K: 'D', ID: 2}, {K: 'Y'}, {K: 'G'}}, []Op{{K: '-'}, {K: 'Y'}, {K: 'E', ID: 6, A: 70}}
		}
		fs = append(fs, snapFaultFam("snapshot-unsynced/"+c.Name, c, [][]Op{{{K: 'E', ID: 3, A: 60}}, {{K: 's'}, {K: 'P', ID: 5, A: 30}}, {{K: 'q'}, {K: 'D', ID: 1}}}, xs, ys))
	}
	fs = append(fs, famConcFault(th, false)...)
	return fs
}

// ---- faults with snapshots

type snapFault struct {
	*snapCrash
	f    *faulter
	died bool
}

func (c *snapFault) do(op Op, inside bool) {
	s := c.s
	before := s.m.content()
	pred := s.predict(op)
	after := pred.content()
	var alt content
	if v, had := s.m.m[op.ID]; had && op.K == 'P' && !v.embed && maxRun(s.usedBlocks(0, false)) < blocksOf(op.A) {
		alt = copyContent(before)
		delete(alt, op.ID)
	}
	had := s.snap != nil
	old := s.m.m[op.ID]
	if op.K == 'W' {
		c.lenient = true
	}
	c.died = guarded(s, func() { s.apply(op) })
	if t, touches := opTouch(op); touches {
		c.touched = append(c.touched, t)
		c.cand = append(append([]content{}, c.cand...), after)
		if alt != nil {
			c.cand = append(c.cand, alt)
		}
	}
	if op.K == 'd' {
		c.may = true
	}
	creating := !had && (op.K == 's' || op.K == 'q')
	if creating {
		c.may = true
		c.snaps = nil
	}
	for c.nev < len(c.rec.evs) {
		c.fs.step(c.rec.evs[c.nev])
		c.nev++
		if creating {
			c.addSnap(c.storeNow())
		}
		if inside && c.nev < len(c.rec.evs) {
			c.explore(fmt.Sprintf("%s: inside %s", c.f.what, op))
		}
	}
	if c.died {
		return
	}
	if creating && s.snap != nil {
		c.snaps = nil
		c.addSnap(s.snap.img)
		c.may = false
	}
	if op.K == 'Y' {
		c.synced, c.touched = s.m.content(), nil
		c.cand = []content{c.synced}
	}
	if s.lastErr != nil && c.f.hit() {
		s.resolve(op, old, pred, alt != nil)
	}
}

func runSnapFault(w *W, cfg *Cfg, pre []Op, x, y Op, p faultPlan) (kinds []string) {
	c := &snapFault{snapCrash: newSnapCrash(w, cfg, false)}
	s := c.s
	defer func() {
		s.flt = nil
		c.rec.flt = nil
		if c.died {
			fds := map[int]bool{}
			for fd := range c.rec.fds {
				fds[fd] = true
			}
			s.abandon(fds)
		}
		c.snapCrash.end()
	}()
	for _, o := range cfg.Pre {
		c.step(o, false)
	}
	for _, o := range pre {
		c.step(o, false)
	}
	w.C.Execs++
	w.C.Traces++
	c.f = &faulter{armed: true, at: p.at, end: p.end, mode: p.mode, jend: 1 << 40}
	s.flt, c.rec.flt = c.f, c.f
	w.Beat(fmt.Sprintf("%s: fault at device call %d..%d, %s", x, p.at, p.end, fmNames[p.mode]))
	c.do(x, false)
	if p.at < 0 {
		return c.f.kinds
	}
	if !c.f.hit() {
		return nil
	}
	if p.end < 1<<20 {
		c.f.armed = false
	}
	s.where = c.f.what
	crash := func(where string) {
		if !c.f.torn {
			c.power = false
			c.explore(c.f.what + ": " + where)
			old := c.anySn
			c.power, c.anySn = true, true
			c.explore(c.f.what + ": " + where)
			c.power, c.anySn = false, old
		}
	}
	crash("after " + x.String())
	if c.died {
		return nil
	}
	if y.K != '-' {
		c.do(y, !c.f.torn)
		c.f.armed = false
		crash("after " + y.String())
		if c.died {
			return nil
		}
	}
	c.f.armed = false
	s.flt = nil
	s.lax = true
	s.verify()
	if c.anySn {
		return nil
	}
	if s.snap != nil {
		c.checkLiveSnap()
	}
	for _, o := range []Op{{K: 'P', ID: 100, A: 10}, {K: 'E', ID: 101, A: 30}, {K: 'Y'}, {K: 'P', ID: 102, A: 100}, {K: 'O'}} {
		s.apply(o)
	}
	s.verify()
	if s.snap != nil && !c.may {
		c.checkLiveSnap()
	}
	if c.may && s.snap == nil {
		s.apply(Op{K: 's'})
		c.checkLiveSnap()
	}
	s.apply(Op{K: 'd'})
	s.fillAll()
	return nil
}

func (c *snapFault) checkLiveSnap() {
	rd, err := c.s.st.GetSnapshotReader()
	if err != nil {
		c.s.fail("GetSnapshotReader: %v", err)
	}
	b, err := readSnap(rd, region+7, 4*region)
	if err != nil {
		c.s.fail("reading the snapshot: %v after %d bytes", err, len(b))
	}
	if !bytes.Equal(b, c.s.snap.img) {
		c.s.fail("the snapshot reads as %d bytes, want %d; equal prefix %d", len(b), len(c.s.snap.img), commonPrefix(b, c.s.snap.img))
	}
}

var alphaSFX = []Op{
	{K: 's'}, {K: 'd'}, {K: 'q'}, {K: 'P', ID: 1, A: 100}, {K: 'E', ID: 3, A: 300}, {K: 'W', ID: 2, A: 50, B: 480, C: 0}, {K: 'D', ID: 2}, {K: 'Y'}, {K: 'F'}, {K: 'G'}, {K: 'O'},
}
var alphaSFY = []Op{
	{K: '-'}, {K: 's'}, {K: 'd'}, {K: 'P', ID: 6, A: 700}, {K: 'W', ID: 2, A: 50, B: 480, C: 0}, {K: 'Y'}, {K: 'G'}, {K: 'O'},
}
var alphaSFbig = []Op{
	{K: 's'}, {K: 'd'}, {K: 'P', ID: 1, A: 100}, {K: 'P', ID: 3, A: 300000}, {K: 'W', ID: 2, A: 1024, B: region - 6000, C: 0}, {K: 'W', ID: 2, A: 1024, B: 3, C: 0}, {K: 'W', ID: 2, A: 1024, B: region, C: 0}, {K: 'Y'},
}

func snapFaultFam(name string, cfg *Cfg, pres [][]Op, xs, ys []Op) *Family {
	get := func(i int) ([]Op, Op, Op) {
		return pres[i/len(ys)/len(xs)], xs[i/len(ys)%len(xs)], ys[i%len(ys)]
	}
	return &Family{Name: name, N: len(pres) * len(xs) * len(ys), Run: func(w *W, i int) {
		pre, x, y := get(i)
		kinds := runSnapFault(w, cfg, pre, x, y, faultPlan{-1, 0, 0})
		for _, p := range plansFor(kinds, y) {
			runSnapFault(w, cfg, pre, x, y, p)
		}
	}, Desc: func(i int) string {
		pre, x, y := get(i)
		return fmt.Sprintf("%s; then %s with every fault, then %s", opsString(pre), x, y)
	}}
}

// ---- faults while a store is created

func runCreateFault(w *W, cfg *Cfg, p faultPlan) (kinds []string) {
	dir := w.Dir + "/crash"
	syscall.Mkdir(dir, 0755)
	cleanSnaps(dir)
	path := dir + "/new.lusf"
	rawRemove(path)
	rec := newFsRec(dir)
	rec.flt = &faulter{armed: true, at: p.at, end: p.end, mode: p.mode, jend: 1 << 40}
	syscall.VerifIO = rec.hooks
	s := &SUT{w: w, cfg: cfg, path: path, m: newModel(), flt: rec.flt}
	w.C.Execs++
	w.C.Traces++
	w.Beat(fmt.Sprintf("create with a fault at device call %d..%d, %s", p.at, p.end, fmNames[p.mode]))
	var st *storage.Storage
	var err error
	died := guarded(s, func() { st, err = storage.CreateCannylsStorage(path, cfg.capacity(), cfg.ratio()) })
	rec.flt.disarm()
	s.flt = nil
	if p.at < 0 {
		if err != nil {
			s.fail("create: %v", err)
		}
		st.Close()
		syscall.VerifIO = nil
		return rec.flt.kinds
	}
	s.where = "create: " + rec.flt.what
	if died {
		syscall.VerifIO = nil
		rawRemove(path)
		return nil
	}
	if err != nil {
		w.Outcome("create-failed")
		if exists(path) {
			s.open()
		} else {
			st, err = storage.CreateCannylsStorage(path, cfg.capacity(), cfg.ratio())
			if err != nil {
				s.fail("creating it again: %v", err)
			}
			s.st = st
		}
	} else {
		s.st = st
	}
	syscall.VerifIO = nil
	s.lax = true
	s.verify()
	s.use()
	s.fillAll()
	s.close()
	rawRemove(path)
	return nil
}

func init() {
	register(&Check{ID: "C19", Families: famC19, Rule: "evaluations: (operation word, failing device call, way of failing, duration of the fault) combinations and the crash states after them; distinct_nontrivial: distinct device images the real code was restarted on after a fault",
		Assume: []string{"a failed device call has no effect, its full effect, or (writes) the effect of its first half", "a failed sync makes nothing durable or everything", "a panic of the code under test stops the process", "files can be removed while cleaning up after another fault"}})
}
