package main

// Engine D: concurrent programs on the real store under the controlled scheduler.  Every
// schedule within the preemption bound is executed; the results must be linearizable with
// respect to the map model, and the store must be exact afterwards.

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"

	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/storage"
)

const (
	eOK = iota
	eClosed
	eFull
	eJFull
	eErr
)

var eNames = []string{"ok", "closed", "storage full", "journal full", "error"}

type cres struct {
	err       uint8
	up        bool
	n         uint64
	h         uint64
	inv, resp int
	msg       string
	buf       []byte
	fault     bool // a device call of the operation failed
}

func (r *cres) String() string {
	s := fmt.Sprintf("[%d,%d] %s", r.inv, r.resp, eNames[r.err])
	if r.fault {
		s += " [device error]"
	}
	if r.err == eErr || r.err > eClosed {
		s += " (" + r.msg + ")"
	} else {
		s += fmt.Sprintf(" up=%v n=%d h=%x", r.up, r.n, r.h)
	}
	return s
}

func errClass(r *cres, err error) bool {
	if err == nil {
		return true
	}
	r.msg = firstLines(err.Error(), 1)
	switch {
	case isErr(err, internalerror.StorageClosed):
		r.err = eClosed
	case isErr(err, internalerror.StorageFull):
		r.err = eFull
	case isErr(err, internalerror.JournalStorageFull):
		r.err = eJFull
	default:
		r.err = eErr
	}
	return false
}

func idsHash(l []lump.LumpId) uint64 {
	h := uint64(len(l)) + 77
	for _, x := range l {
		h = h*1000003 ^ x.U64()
	}
	return h
}
func keysHash(l []uint64) uint64 {
	h := uint64(len(l)) + 77
	for _, x := range l {
		h = h*1000003 ^ x
	}
	return h
}

// exec runs one operation on the store; val is the content it writes.
func execConc(st *storage.Storage, o Op, val []byte, r *cres) {
	switch o.K {
	case '-':
	case 'P':
		up, err := st.Put(lid(o.ID), lumpData(val))
		if errClass(r, err) {
			r.up = up
		}
	case 'E':
		up, err := st.PutEmbed(lid(o.ID), append([]byte(nil), val...))
		if errClass(r, err) {
			r.up = up
		}
	case 'W':
		ab := block.NewAlignedBytes(len(val), block.Min())
		copy(ab.AsBytes(), val)
		errClass(r, st.PutWithOffset(lid(o.ID), lump.NewLumpDataWithAb(ab), uint32(o.B), uint32(o.C)))
	case 'D':
		up, n, err := st.Delete(lid(o.ID))
		if errClass(r, err) {
			r.up, r.n = up, uint64(n)
		}
	case 'R':
		errClass(r, st.DeleteRange(lid(o.ID), lid(uint64(o.A)), true))
	case 'G':
		st.JournalGC()
	case 'S':
		st.RunSideJobOnce(o.A)
	case 'Y':
		st.Sync()
	case 'F':
		st.Flush()
	case 'A':
		st.SetAutomaticGcMode(o.A != 0)
	case 'v':
		b, err := st.Get(lid(o.ID))
		if errClass(r, err) {
			r.n, r.h = uint64(len(b)), fastHash(b)
		}
	case 'g':
		b, err := st.GetWithOffset(lid(o.ID), uint32(o.A), uint32(o.B))
		if errClass(r, err) {
			r.n, r.h = uint64(len(b)), fastHash(b)
		}
	case 'z':
		n, err := st.GetSize(lid(o.ID))
		if errClass(r, err) {
			r.n = uint64(n)
		}
	case 'k':
		n, err := st.GetSizeOnDisk(lid(o.ID))
		if errClass(r, err) {
			r.n = uint64(n)
		}
	case 'L':
		r.h = idsHash(st.List())
	case 'r':
		r.h = idsHash(st.ListRange(lid(o.ID), lid(uint64(o.A)), 100))
	case 'm':
		id, ok := st.MinId()
		r.up = ok
		if ok {
			r.n = id.U64()
		}
	case 'M':
		id, ok := st.MaxId()
		r.up = ok
		if ok {
			r.n = id.U64()
		}
	case 'f':
		id, err := st.First(lid(o.ID))
		if errClass(r, err) {
			r.n = id.U64()
		}
	case 'n':
		id, ok := st.GenerateEmptyId()
		r.up = ok
		if ok {
			r.n = id.U64()
		}
	case 'U':
		u := st.Usage()
		r.n = u.FileCounts
		if u.DataFreeBytes > u.DataCapacity {
			r.h = 1
		}
	case 'j':
		st.JournalSnapshot()
	case 'B':
		st.GetAllocationStatus()
	case 'H':
		h := st.Header()
		r.n = h.DataRegionSize
	case 'p':
		p, err := st.GetRecord(lid(o.ID))
		if errClass(r, err) {
			r.n = uint64(p.Len)
		}
	case 'C':
		st.Close()
	case 'T':
		tickStore()
	case 's':
		errClass(r, st.CreateSnapshot())
	case 'd':
		errClass(r, st.DeleteSnapshot())
	case 'q':
		rd, err := st.GetSnapshotReader()
		if errClass(r, err) {
			r.up = rd != nil
		}
	case 'x':
		rd, err := st.GetSnapshotReader()
		if errClass(r, err) {
			buf := make([]byte, 0, 3*region)
			for err == nil && cap(buf)-len(buf) >= o.A {
				var n int
				n, err = rd.Read(buf[len(buf) : len(buf)+o.A])
				buf = buf[:len(buf)+n]
				if n == 0 && err == nil {
					err = fmt.Errorf("Read returned nothing")
				}
			}
			if err == io.EOF {
				err = nil
			}
			if errClass(r, err) {
				r.buf = buf
				r.n = fastHash(buf)
			}
		}
	default:
		panic("bad op")
	}
}

func opName(o Op) string {
	switch o.K {
	case 'v':
		return fmt.Sprintf("Get(%x)", o.ID)
	case 'z':
		return fmt.Sprintf("GetSize(%x)", o.ID)
	case 'k':
		return fmt.Sprintf("GetSizeOnDisk(%x)", o.ID)
	case 'L':
		return "List"
	case 'r':
		return fmt.Sprintf("ListRange(%x,%x)", o.ID, o.A)
	case 'm':
		return "MinId"
	case 'M':
		return "MaxId"
	case 'f':
		return fmt.Sprintf("First(%x)", o.ID)
	case 'n':
		return "GenerateEmptyId"
	case 'U':
		return "Usage"
	case 'j':
		return "JournalSnapshot"
	case 'B':
		return "GetAllocationStatus"
	case 'H':
		return "Header"
	case 'p':
		return fmt.Sprintf("GetRecord(%x)", o.ID)
	case 'C':
		return "Close"
	case 'T':
		return "tick"
	case 'q':
		return "GetSnapshotReader"
	case 'x':
		return fmt.Sprintf("ReadSnapshot(pieces of %d)", o.A)
	}
	return o.String()
}

func progString(p [][]Op) string {
	var s []string
	for _, t := range p {
		var q []string
		for _, o := range t {
			q = append(q, opName(o))
		}
		s = append(s, strings.Join(q, "; "))
	}
	return strings.Join(s, " || ")
}

// ---- the sequential specification

type linState struct {
	m      *Model
	closed bool
	snap   bool
	snapM  *Model // lumps in the snapshot
	snapH  uint64 // hash of its bytes, 0: not known yet
	del    bool   // the program may take a snapshot away from its readers
}

// linStep: may op have returned r in state s?  Returns the state afterwards.
func linStep(s linState, o Op, val []byte, r *cres, tight bool) (linState, bool) {
	if s.closed {
		switch o.K {
		case 'P', 'E', 'W', 'D', 'R', 'v', 'g', 'z', 'k', 'f', 's', 'd', 'q', 'p', 'x':
			return s, r.err == eClosed
		case 'L', 'r':
			return s, r.h == 77
		case 'm', 'M', 'n':
			return s, !r.up
		case 'U':
			return s, r.n == 0
		}
		return s, true
	}
	if r.err == eClosed {
		return s, false
	}
	if r.fault {
		// reported, and without effect
		return s, r.err == eErr
	}
	write := o.K == 'P' || o.K == 'E' || o.K == 'W' || o.K == 'D' || o.K == 'R'
	if write && (r.err == eFull || r.err == eJFull) {
		return s, tight
	}
	set := func(v *lumpVal) linState {
		m := s.m.clone()
		if v == nil {
			delete(m.m, o.ID)
		} else {
			m.m[o.ID] = v
		}
		s.m = m
		return s
	}
	v, had := s.m.m[o.ID]
	switch o.K {
	case 'P':
		return set(&lumpVal{b: val}), r.err == eOK && r.up == had
	case 'E':
		return set(&lumpVal{b: val, embed: true}), r.err == eOK && r.up == had
	case 'W':
		if !had {
			n := o.C
			if o.B+len(val) > n {
				n = o.B + len(val)
			}
			nb := make([]byte, n)
			copy(nb[o.B:], val)
			return set(&lumpVal{b: nb}), r.err == eOK
		}
		if v.embed || o.B+len(val) > len(v.b) {
			return s, r.err == eErr
		}
		nb := append([]byte(nil), v.b...)
		copy(nb[o.B:], val)
		return set(&lumpVal{b: nb}), r.err == eOK
	case 'D':
		n := 0
		if had {
			n = v.blocks() * sector
			if v.embed {
				n = len(v.b)
			}
		}
		return set(nil), r.err == eOK && r.up == had && r.n == uint64(n)
	case 'R':
		m := s.m.clone()
		for k := range m.m {
			if k >= o.ID && k < uint64(o.A) {
				delete(m.m, k)
			}
		}
		s.m = m
		return s, r.err == eOK
	case 'v':
		if !had {
			return s, r.err == eErr
		}
		return s, r.err == eOK && r.n == uint64(len(v.b)) && r.h == fastHash(v.b)
	case 'g':
		if !had {
			return s, r.err == eErr
		}
		off, end := o.A, o.A+o.B
		if r.err == eErr {
			return s, off >= len(v.b) || end > blocksOf(len(v.b))*sector-2
		}
		if off > len(v.b) {
			return s, false
		}
		if end > len(v.b) {
			end = len(v.b)
		}
		return s, r.err == eOK && r.n == uint64(end-off) && r.h == fastHash(v.b[off:end])
	case 'z':
		if !had {
			return s, r.err == eErr
		}
		return s, r.err == eOK && r.n == uint64(len(v.b))
	case 'k':
		if !had {
			return s, r.err == eErr
		}
		n := v.blocks() * sector
		if v.embed {
			n = len(v.b)
		}
		return s, r.err == eOK && r.n == uint64(n)
	case 'p':
		if !had || v.embed {
			return s, r.err == eErr
		}
		return s, r.err == eOK && r.n == uint64(v.blocks())
	case 'L':
		return s, r.h == keysHash(s.m.keys())
	case 'r':
		var l []uint64
		for _, k := range s.m.keys() {
			if k >= o.ID && k < uint64(o.A) {
				l = append(l, k)
			}
		}
		return s, r.h == keysHash(l)
	case 'm', 'M':
		k := s.m.keys()
		if len(k) == 0 {
			return s, !r.up
		}
		x := k[0]
		if o.K == 'M' {
			x = k[len(k)-1]
		}
		return s, r.up && r.n == x
	case 'f':
		for _, k := range s.m.keys() {
			if k >= o.ID {
				return s, r.err == eOK && r.n == k
			}
		}
		return s, r.err == eErr
	case 'n':
		_, live := s.m.m[r.n]
		return s, r.up && !live
	case 'U':
		return s, r.n == uint64(len(s.m.m)) && r.h == 0
	case 'C':
		s.closed = true
		return s, true
	case 's':
		if s.snap {
			return s, r.err == eErr
		}
		s.snap, s.snapM, s.snapH = true, s.m, 0
		return s, r.err == eOK
	case 'q', 'x':
		if !s.snap {
			s.snap, s.snapM, s.snapH = true, s.m, 0
		}
		if o.K == 'q' {
			return s, r.err == eOK
		}
		if r.err != eOK {
			return s, r.err == eErr && s.del
		}
		if s.snapH != 0 && s.snapH != r.n || s.snapM == nil || r.h != modelHash(s.snapM) {
			return s, false
		}
		s.snapH = r.n
		return s, true
	case 'd':
		s.snap, s.snapM, s.snapH = false, nil, 0
		return s, r.err == eOK
	}
	return s, r.err == eOK
}

type concCase struct {
	w     *W
	cfg   *Cfg
	img   []byte
	files map[string][]byte
	lin   linState
	prog  [][]Op
	vals  [][][]byte
	res   [][]cres
	pan   []string
	bound int
	bg    bool // the background goroutine of open takes part
	tight bool
	drain bool
	max   int
	s     *SUT
	seen  map[uint64]bool
	imgs  map[uint64]bool
	crash *concCrash
	flt   concFault
}

type concImg struct {
	img   []byte
	m     *Model
	seq   int
	snap  *snapInfo
	files map[string][]byte
}

func modelHash(m *Model) uint64 {
	h := uint64(99)
	for _, k := range m.keys() {
		h = h*1000003 ^ k
		h = h*1000003 ^ fastHash(m.m[k].b)
	}
	return h
}

// imageContent: hash of the lumps a snapshot image opens to (0: it does not open).
var imageContent = map[uint64]uint64{}

func (c *concCase) content(buf []byte) uint64 {
	h := fastHash(buf)
	if x, ok := imageContent[h]; ok {
		return x
	}
	p := c.w.Dir + "/image.lusf"
	rawWriteFile(p, buf)
	st, err := storage.OpenCannylsStorage(p)
	if err != nil {
		c.fail("the snapshot image does not open: %v", err)
	}
	m := newModel()
	for _, id := range st.List() {
		b, err := st.Get(id)
		if err != nil {
			c.fail("the snapshot image: Get(%v): %v", id, err)
		}
		m.m[id.U64()] = &lumpVal{b: b}
	}
	st.Close()
	rawRemove(p)
	x := modelHash(m)
	imageContent[h] = x
	return x
}

var concImgs = map[string]*concImg{}

// concImage: the store after cfg.Pre, closed.
func concImage(w *W, cfg *Cfg) *concImg {
	if c := concImgs[cfg.Name]; c != nil {
		return c
	}
	cleanSnaps(w.Dir)
	s := newSUT(w, cfg, template(w, cfg))
	for _, o := range cfg.Pre {
		s.apply(o)
	}
	s.verify()
	s.close()
	c := &concImg{img: rawRead(s.path), m: s.m, seq: s.seq, snap: s.snap, files: map[string][]byte{}}
	for _, f := range snapFiles(w.Dir) {
		c.files[f] = rawRead(w.Dir + "/" + f)
	}
	concImgs[cfg.Name] = c
	return c
}

func runConc(w *W, cfg *Cfg, prog [][]Op, bound int, opt string, shard, shards int) {
	runConcWith(w, cfg, prog, bound, opt, shard, shards, nil)
}

func runConcCrash(w *W, cfg *Cfg, prog [][]Op, bound int, opt string, shard, shards int, power bool, maxAll int) {
	runConcWith(w, cfg, prog, bound, opt, shard, shards, newConcCrash(w, cfg, nil, progString(prog), power, maxAll))
	w.C.Traces = 0
}

func runConcWith(w *W, cfg *Cfg, prog [][]Op, bound int, opt string, shard, shards int, crash *concCrash) {
	ci := concImage(w, cfg)
	c := &concCase{w: w, cfg: cfg, img: ci.img, files: ci.files, lin: linState{m: ci.m}, prog: prog, bound: bound, bg: strings.Contains(opt, "b"), tight: strings.Contains(opt, "t"), drain: strings.Contains(opt, "d"),
		seen: map[uint64]bool{}, imgs: map[uint64]bool{}, max: 20000000, crash: crash}
	if i := strings.IndexByte(opt, 'f'); i >= 0 {
		c.flt = concFault{kind: opt[i+1], k: int(opt[i+2] - '0'), data: int64(2+cfg.Ring) * sector, prog: prog}
	}
	if ci.snap != nil {
		c.lin.snap, c.lin.snapM, c.lin.snapH = true, ci.snap.m, fastHash(ci.snap.img)
	}
	for _, p := range prog {
		for _, o := range p {
			if o.K == 'd' || o.K == 'C' {
				c.lin.del = true
			}
		}
	}
	c.vals = make([][][]byte, len(prog))
	for t, p := range prog {
		c.vals[t] = make([][]byte, len(p))
		for k, o := range p {
			if o.K == 'P' || o.K == 'E' || o.K == 'W' {
				b := make([]byte, o.A)
				fill(b, 1000+t*100+k, o.ID)
				c.vals[t][k] = b
			}
		}
	}
	caseSalt = hashStr(cfg.Name + progString(prog))
	resetStates()
	e := &explorer{bound: bound, shard: shard, shards: shards, own: shard == 0}
	for {
		for try := 0; try < 5 && !c.execute(e); try++ {
			w.Outcome("repeated: the background goroutine was late")
		}
		e.runs++
		if e.own {
			w.C.Execs++
			w.C.Traces++
			w.C.Trans += int64(sc.steps)
		}
		if e.runs > c.max {
			w.Outcome("cut at the schedule limit")
			break
		}
		if !e.next() {
			break
		}
		if e.runs&255 == 0 {
			w.Beat("")
		}
	}
	w.C.States += int64(stateNew)
}

func (c *concCase) fail(f string, a ...interface{}) {
	sched := scheduleString(func(t, op int) string {
		t -= c.firstThr()
		if t < 0 || t >= len(c.prog) || op >= len(c.prog[t]) {
			return "background"
		}
		return opName(c.prog[t][op])
	})
	var rs []string
	for t := range c.res {
		for k := range c.res[t] {
			if c.res[t][k].inv > 0 {
				rs = append(rs, fmt.Sprintf("    T%d %s = %s", t+c.firstThr(), opName(c.prog[t][k]), c.res[t][k].String()))
			}
		}
	}
	c.w.Failf("%s\n  config %s; program %s\n  schedule %s\n%s", fmt.Sprintf(f, a...), c.cfg.Name, progString(c.prog), sched, strings.Join(rs, "\n"))
}

func (c *concCase) firstThr() int { return sc.n - len(c.prog) }

func (c *concCase) body(st *storage.Storage, t, id int, wg *sync.WaitGroup) {
	defer wg.Done()
	defer thrEnd(id)
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 4096)
			c.pan[t] = fmt.Sprintf("%v\n%s", r, trimStack(string(buf[:runtime.Stack(buf, false)])))
		}
	}()
	thrBegin(id)
	for k := range c.prog[t] {
		opBegin(id, k)
		r := &c.res[t][k]
		r.inv = tick()
		execConc(st, c.prog[t][k], c.vals[t][k], r)
		r.resp = tick()
	}
}

// execute runs one schedule; it reports whether all goroutines were under control.
func (c *concCase) execute(e *explorer) bool {
	w := c.w
	s := &SUT{w: w, cfg: c.cfg, path: w.Dir + "/s.lusf", m: newModel()}
	cleanSnaps(w.Dir)
	rawWriteFile(s.path, c.img)
	for f, b := range c.files {
		rawWriteFile(w.Dir+"/"+f, b)
	}
	n := len(c.prog)
	c.res = make([][]cres, n)
	c.pan = make([]string, n)
	for t := range c.prog {
		c.res[t] = make([]cres, len(c.prog[t]))
	}
	cflt = c.flt
	cflt.thr = -1
	defer func() { cflt.kind = 0 }()
	errs := raceErrors()
	base := quiet()
	schedOpen()
	hookTimers()
	e.load()
	if c.crash != nil {
		syscall.VerifIO = c.crash.openHooks(s.path)
	}
	st, err := storage.OpenCannylsStorage(s.path)
	if err != nil {
		w.Failf("open: %v", err)
	}
	if c.crash != nil {
		syscall.VerifIO = nil
		c.crash.base = rawRead(s.path)
		ioLog = c.crash
	}
	if c.cfg.ManualGC {
		st.SetAutomaticGcMode(false)
	}
	waitBg(base)
	if !c.bg {
		freeBg()
	}
	var wg sync.WaitGroup
	wg.Add(n)
	for t := range c.prog {
		id := addThr()
		go c.body(st, t, id, &wg)
	}
	runAll(n)
	dead, long, diverge, late := sc.dead, sc.long, sc.diverge, sc.late
	for t := range c.pan {
		if c.pan[t] != "" {
			c.fail("panic in %s: %s", progString(c.prog[t:t+1]), c.pan[t])
		}
	}
	if dead {
		c.fail("deadlock")
	}
	if long {
		c.fail("the operations do not end")
	}
	schedOff()
	wg.Wait()
	sync.VerifSync = nil
	cflt.kind = 0
	if cflt.thr >= 0 {
		c.res[cflt.thr][cflt.op].fault = true
		w.Outcome("device error")
	}
	if diverge {
		w.Outcome("schedule not repeated exactly")
	}
	if raceBuild {
		if n := raceErrors(); n > errs {
			c.fail("data race: %s", raceSummary())
		}
	}
	s.st = st
	c.s = s
	if c.crash != nil {
		c.judgeCrash(st)
		return !late
	}
	c.judge(st)
	return !late
}

// judge: results and final state against the sequential specification.
func (c *concCase) judge(st *storage.Storage) {
	s := c.s
	closed := false
	for t := range c.prog {
		for _, o := range c.prog[t] {
			if o.K == 'C' {
				closed = true
			}
		}
	}
	var actual map[uint64][]byte
	read := func() {
		actual = map[uint64][]byte{}
		for _, id := range s.st.List() {
			b, err := s.st.Get(id)
			if err != nil {
				c.fail("afterwards: Get(%v): %v", id, err)
			}
			actual[id.U64()] = b
		}
	}
	for t := range c.prog {
		for k, o := range c.prog[t] {
			if r := &c.res[t][k]; o.K == 'x' && r.err == eOK {
				r.h = c.content(r.buf)
			}
		}
	}
	if closed {
		c.checkClosed(st)
		s.open()
	}
	read()
	m := c.linearize(actual, closed)
	if m == nil {
		var sb strings.Builder
		for id, b := range actual {
			fmt.Fprintf(&sb, " %x:%d bytes", id, len(b))
		}
		c.fail("no sequential order explains the results and the final content {%s }", sb.String())
	}
	s.m = m.clone()
	s.where = "after " + progString(c.prog)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if f, ok := r.(failure); ok {
					c.fail("%s", f.msg)
				}
				panic(r)
			}
		}()
		s.verify()
		if c.drain {
			s.close()
			s.open()
			s.verify()
			s.drain()
			s.close()
			return
		}
		s.close()
		img := rawRead(s.path)
		h := fastHash(img)
		for _, k := range m.keys() {
			h = h*31 + k + m.m[k].hash()
		}
		if c.imgs[h] {
			return
		}
		c.imgs[h] = true
		s.open()
		s.verify()
		s.close()
	}()
}

func (c *concCase) checkClosed(st *storage.Storage) {
	img := rawRead(c.s.path)
	for _, o := range []Op{{K: 'P', ID: 1, A: 10}, {K: 'E', ID: 1, A: 10}, {K: 'W', ID: 1, A: 10}, {K: 'D', ID: 1}, {K: 'R', ID: 0, A: 9}, {K: 'v', ID: 1}, {K: 'g', ID: 1, B: 1}, {K: 'z', ID: 1}, {K: 'k', ID: 1}, {K: 'f', ID: 0},
		{K: 'L'}, {K: 'r', A: 9}, {K: 'm'}, {K: 'M'}, {K: 'n'}, {K: 'U'}, {K: 'G'}, {K: 'S', A: 3}, {K: 'Y'}, {K: 'F'}, {K: 'A', A: 1}, {K: 'j'}, {K: 'B'}, {K: 'C'}, {K: 's'}, {K: 'd'}, {K: 'q'}, {K: 'p', ID: 1}} {
		var r cres
		func() {
			defer func() {
				if x := recover(); x != nil {
					c.fail("%s on the closed store: panic %v", opName(o), x)
				}
			}()
			execConc(st, o, make([]byte, o.A), &r)
		}()
		if _, ok := linStep(linState{closed: true}, o, nil, &r, false); !ok {
			c.fail("%s on the closed store: %s", opName(o), r.String())
		}
	}
	if !bytes.Equal(img, rawRead(c.s.path)) {
		c.fail("a call on the closed store changed the file")
	}
}

type linOp struct {
	o   Op
	val []byte
	r   *cres
}

// linearize searches a sequential order that explains all results and ends in the content.
func (c *concCase) linearize(actual map[uint64][]byte, closed bool) *Model {
	var ops []linOp
	for t := range c.prog {
		for k, o := range c.prog[t] {
			ops = append(ops, linOp{o, c.vals[t][k], &c.res[t][k]})
		}
	}
	sort.Slice(ops, func(i, j int) bool { return ops[i].r.inv < ops[j].r.inv })
	var rec func(s linState, done uint) *Model
	rec = func(s linState, done uint) *Model {
		if done == 1<<uint(len(ops))-1 {
			if len(actual) != len(s.m.m) {
				return nil
			}
			for id, v := range s.m.m {
				if b, ok := actual[id]; !ok || !bytes.Equal(b, v.b) {
					return nil
				}
			}
			return s.m
		}
		// the earliest response among the remaining: nothing invoked after it may come first
		first := 1 << 30
		for i, x := range ops {
			if done>>uint(i)&1 == 0 && x.r.resp < first {
				first = x.r.resp
			}
		}
		for i, x := range ops {
			if done>>uint(i)&1 == 1 || x.r.inv > first {
				continue
			}
			s2, ok := linStep(s, x.o, x.val, x.r, c.tight)
			if !ok {
				continue
			}
			if m := rec(s2, done|1<<uint(i)); m != nil {
				return m
			}
			if x.r.fault && x.o.K == 'P' && c.tight {
				// a value which only fits in the place of the old one: that is deleted first
				s2.m = s2.m.clone()
				delete(s2.m.m, x.o.ID)
				if m := rec(s2, done|1<<uint(i)); m != nil {
					return m
				}
			}
		}
		return nil
	}
	return rec(c.lin, 0)
}

func cleanSnaps(dir string) {
	l, _ := os.ReadDir(dir)
	for _, e := range l {
		if strings.Contains(e.Name(), "lusf.snapshot") {
			rawRemove(dir + "/" + e.Name())
		}
	}
}

// raceSummary names the functions of the last race report.
func raceSummary() string {
	p := os.Getenv("GORACE")
	i := strings.Index(p, "log_path=")
	if i < 0 {
		return "?"
	}
	p = strings.Fields(p[i+9:])[0] + fmt.Sprintf(".%d", os.Getpid())
	b := rawRead(p)
	var fs []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "  github.com/thesues/") {
			l = strings.TrimSpace(l)
			l = strings.TrimPrefix(l, "github.com/thesues/cannyls-go/")
			if k := strings.Index(l, "()"); k > 0 {
				l = l[:k]
			}
			fs = append(fs, l)
			if len(fs) > 7 {
				break
			}
		} else if strings.HasPrefix(l, "Previous") && len(fs) > 0 {
			fs = append(fs, "against")
		} else if strings.HasPrefix(l, "Goroutine") {
			break
		}
	}
	return strings.Join(fs, " < ")
}
