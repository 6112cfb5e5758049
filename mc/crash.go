package main

// Crash engine: a history is run on the real code while every device write, sync and
// directory change is recorded; then every crash state inside the last operation is built
// and the real code is started on it.

import (
	"bytes"
	"fmt"
	"hash/maphash"
	"sort"
	"strings"
	"syscall"
)

var mapSeed = maphash.MakeSeed()

func fastHash(b []byte) uint64 { return maphash.Bytes(mapSeed, b) }

type ev struct {
	kind byte // 'w' write, 's' sync
	off  int64
	data []byte
	dur  bool // durable when it returns (O_SYNC)
	part bool // a piece of a write in flight
}

// pieces splits a write of several sectors: each of up to three sectors, or the first, the
// middle ones and the last.
func (e ev) pieces() []ev {
	var cuts []int
	for b := sector - int(e.off%sector); b < len(e.data); b += sector {
		cuts = append(cuts, b)
	}
	if len(cuts) == 0 {
		return nil
	}
	if len(cuts) > 2 {
		cuts = []int{cuts[0], cuts[len(cuts)-1]}
	}
	var r []ev
	at := 0
	for _, b := range append(cuts, len(e.data)) {
		r = append(r, ev{kind: 'w', off: e.off + int64(at), data: e.data[at:b], part: true})
		at = b
	}
	return r
}

// recorder logs what happens to the store file.
type recorder struct {
	path  string
	evs   []ev
	fds   map[int]int // fd -> open mode, store file only
	dead  bool        // the process was killed: nothing reaches the device any more
	hooks *syscall.VerifIOHooks
	flt   *faulter
	tear  func(off int64) bool // a write there may reach the device in part
}

// add records a write.
func (r *recorder) add(e ev) {
	if r.tear != nil && r.tear(e.off) {
		if ps := e.pieces(); ps != nil {
			r.evs = append(r.evs, ps...)
			if !e.dur {
				return
			}
		}
	}
	r.evs = append(r.evs, e)
}

func newRecorder(path string) *recorder {
	r := &recorder{path: path, fds: map[int]int{}}
	r.hooks = &syscall.VerifIOHooks{
		Opened: func(p string, mode int, fd int, err error) {
			if err != nil {
				return
			}
			delete(r.fds, fd)
			if p == r.path {
				r.fds[fd] = mode
			}
		},
		Pwrite: func(fd int, p []byte, off int64) (int, error, bool) {
			mode, ok := r.fds[fd]
			if !ok {
				return 0, nil, false
			}
			if r.dead {
				return len(p), nil, true
			}
			q, ferr := r.flt.write(p, off)
			if ferr != nil && len(q) == 0 {
				return 0, ferr, true
			}
			n, err := syscall.VerifRawPwrite(fd, q, off)
			if n > 0 {
				r.add(ev{kind: 'w', off: off, data: append([]byte(nil), p[:n]...), dur: mode&syscall.O_DSYNC != 0})
			}
			if ferr != nil {
				err = ferr
			}
			return n, err, true
		},
		Pread: func(fd int, p []byte, off int64) (int, error, bool) {
			if _, ok := r.fds[fd]; ok && r.flt.next("read", off) != 0 {
				return 0, syscall.EIO, true
			}
			return 0, nil, false
		},
		Write: func(fd int, p []byte) (int, error, bool) {
			if _, ok := r.fds[fd]; ok {
				panic("cursor write to the store file")
			}
			return 0, nil, false
		},
		Read: func(fd int, p []byte) (int, error, bool) {
			if _, ok := r.fds[fd]; ok && r.flt.next("read", 0) != 0 {
				return 0, syscall.EIO, true
			}
			return 0, nil, false
		},
		Sync: func(fd int) (error, bool) {
			if _, ok := r.fds[fd]; !ok {
				return nil, false
			}
			if !r.dead {
				m := r.flt.next("sync", 0)
				if m != 1 {
					r.evs = append(r.evs, ev{kind: 's'})
				}
				if m != 0 {
					return syscall.EIO, true
				}
			}
			return nil, true
		},
	}
	return r
}

func (r *recorder) on()  { syscall.VerifIO = r.hooks }
func (r *recorder) off() { syscall.VerifIO = nil }

// disk is the crash model of one file: durable bytes and the writes issued since the last
// completed sync, in order.
type disk struct {
	durable []byte
	pending []ev
}

func (d *disk) clone() *disk {
	return &disk{append([]byte(nil), d.durable...), append([]ev(nil), d.pending...)}
}
func applyEv(img []byte, e *ev) []byte {
	if end := int(e.off) + len(e.data); end > len(img) {
		img = append(img, make([]byte, end-len(img))...)
	}
	copy(img[e.off:], e.data)
	return img
}
func (d *disk) step(e ev) {
	if e.kind == 'w' {
		if e.dur { // its pieces are complete
			var keep []ev
			for _, x := range d.pending {
				if !x.part || x.off < e.off || x.off+int64(len(x.data)) > e.off+int64(len(e.data)) {
					keep = append(keep, x)
				}
			}
			d.pending = keep
		}
		d.pending = append(d.pending, e)
		if !e.dur {
			return
		}
		// an O_SYNC write makes itself durable; earlier ones stay pending, order is kept
		d.durable = applyEv(d.durable, &e)
		return
	}
	for i := range d.pending {
		d.durable = applyEv(d.durable, &d.pending[i])
	}
	d.pending = nil
}

// image with the pending writes selected by keep.
func (d *disk) image(buf []byte, keep func(i int) bool) []byte {
	buf = append(buf[:0], d.durable...)
	for i := range d.pending {
		if keep(i) || d.pending[i].dur {
			buf = applyEv(buf, &d.pending[i])
		}
	}
	return buf
}

// subsets of n pending writes: all of them up to 2^maxAll, otherwise those with at most two
// writes lost, at most two kept, every prefix and every suffix.
func subsets(n, maxAll int) []uint64 {
	var r []uint64
	if n <= maxAll {
		for m := uint64(0); m < 1<<uint(n); m++ {
			r = append(r, m)
		}
		return r
	}
	if n > 60 {
		n = 60
	}
	all := uint64(1)<<uint(n) - 1
	seen := map[uint64]bool{}
	add := func(m uint64) {
		if !seen[m] {
			seen[m] = true
			r = append(r, m)
		}
	}
	for i := 0; i <= n; i++ {
		add(uint64(1)<<uint(i) - 1)
		add(all &^ (uint64(1)<<uint(i) - 1))
	}
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			b := uint64(1)<<uint(i) | uint64(1)<<uint(j)
			add(b)
			add(all &^ b)
		}
	}
	return r
}

// content of a recovered store: id -> hash of the value (0: unreadable).
type content map[uint64]uint64

func (v *lumpVal) hash() uint64 {
	if v.h == 0 {
		v.h = fastHash(v.b) | 1
	}
	return v.h
}

func (m *Model) content() content {
	c := content{}
	for k, v := range m.m {
		c[k] = v.hash()
	}
	return c
}

func contentEqual(a, b content) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func (c content) String() string {
	var ks []uint64
	for k := range c {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	var s []string
	for _, k := range ks {
		if len(s) == 60 {
			s = append(s, fmt.Sprintf("... %d lumps", len(ks)))
			break
		}
		s = append(s, fmt.Sprintf("%x:%04x", k, c[k]&0xffff))
	}
	return "{" + strings.Join(s, " ") + "}"
}

// touch: a range of ids changed since the last sync
type touch struct{ lo, hi uint64 } // inclusive

type crashRun struct {
	w       *W
	s       *SUT
	rec     *recorder
	d       *disk
	nev     int       // events already in d
	cand    []content // allowed after a process kill now
	synced  content   // durable whatever happens, except for touched ids
	touched []touch
	power   bool // check power loss states (else process kills)
	maxAll  int
	buf     []byte
	noUse   bool
	cache   map[uint64]content // recovered images of this worker
}

var recovered = map[uint64]content{}

func newCrashRun(w *W, cfg *Cfg, power bool) *crashRun {
	c := &crashRun{w: w, power: power, maxAll: 6}
	img := template(w, cfg)
	c.d = &disk{durable: append([]byte(nil), img...)}
	c.s = &SUT{w: w, cfg: cfg, path: w.Dir + "/c.lusf", m: newModel(), lax: true}
	rawWriteFile(c.s.path, img)
	c.rec = newRecorder(c.s.path)
	if cfg.Torn {
		// the values, not the journal
		c.rec.tear = func(off int64) bool { return off >= int64(2+cfg.Ring)*sector }
	}
	c.rec.on()
	c.s.open()
	c.cand = []content{{}}
	c.synced = content{}
	return c
}

// fill stores n small lumps and syncs.
func (c *crashRun) fill(n int) {
	for i := 0; i < n; i++ {
		c.s.apply(Op{K: 'E', ID: lotsFrom + uint64(i), A: 1 + i%7})
		c.s.hist = c.s.hist[:0]
		if i%512 == 0 {
			c.w.Beat("fill")
		}
	}
	c.absorb()
	c.step(opY, false)
}

const lotsFrom = 1000

func (c *crashRun) end() {
	c.rec.dead = true
	c.s.close()
	c.rec.off()
}

func (c *crashRun) absorb() {
	for ; c.nev < len(c.rec.evs); c.nev++ {
		c.d.step(c.rec.evs[c.nev])
	}
}

// opEffect: what the op may touch
func opTouch(o Op) (touch, bool) {
	switch o.K {
	case 'P', 'E', 'D', 'W':
		return touch{o.ID, o.ID}, true
	case 'R':
		if uint64(o.A) > o.ID {
			return touch{o.ID, uint64(o.A) - 1}, true
		}
	}
	return touch{}, false
}

func (c *crashRun) kill() {
	c.rec.dead = true
	c.s.close()
	c.rec.dead = false
}

// step runs op; explore: every crash state inside it is examined.
func (c *crashRun) step(op Op, explore bool) {
	s := c.s
	switch op.K {
	case 'K', 'Z':
		s.hist = append(s.hist, op)
		c.w.C.Trans++
		c.kill()
		if op.K == 'Z' {
			n := len(c.d.pending)
			img := c.d.image(nil, func(i int) bool {
				switch op.A {
				case 0: // everything lost
					return false
				case 1: // only the last write survives
					return i == n-1
				case 2: // only the first is lost
					return i != 0
				case 3: // only the last is lost
					return i != n-1
				}
				return true
			})
			c.d = &disk{durable: img}
			rawWriteFile(s.path, img)
		}
		s.m = newModel()
		s.open()
		got, errs := c.load(s)
		if errs != "" && op.K == 'K' {
			s.fail("after a process kill: %s", errs)
		}
		c.judge(got, op.K == 'Z', "reopened in the history")
		for id, h := range got {
			if h == 0 {
				// an unsynced lump lost its bytes: drop it
				if _, _, err := s.st.Delete(lid(id)); err != nil {
					s.fail("Delete(%x) of a lump that lost its unsynced bytes: %v", id, err)
				}
				delete(got, id)
			}
		}
		if errs != "" {
			s.st.Sync()
			c.absorb()
		}
		c.cand = []content{got}
		if op.K == 'Z' {
			c.synced, c.touched = got, nil
		}
		s.verify()
		return
	}
	before := s.m.content()
	n0 := len(c.rec.evs)
	var alt content
	if v, had := s.m.m[op.ID]; had && op.K == 'P' && !v.embed && maxRun(s.usedBlocks(0, false)) < blocksOf(op.A) {
		alt = content{}
		for k, h := range before {
			if k != op.ID {
				alt[k] = h
			}
		}
	}
	s.apply(op)
	after := s.m.content()
	t, touches := opTouch(op)
	if touches {
		c.touched = append(c.touched, t)
	}
	prev := c.cand
	if touches && (s.lastErr == nil || alt != nil) {
		c.cand = append(append([]content{}, c.cand...), after)
		if alt != nil {
			c.cand = append(c.cand, alt)
		}
	}
	_ = prev
	if explore && c.power {
		// inside the operation
		for c.nev < len(c.rec.evs) {
			c.absorb1()
			if c.nev < len(c.rec.evs) {
				c.explorePower(fmt.Sprintf("after device event %d of %d of the last operation", c.nev-n0, len(c.rec.evs)-n0))
			}
		}
	} else if explore {
		for c.nev < len(c.rec.evs) {
			c.absorb1()
			if c.nev < len(c.rec.evs) {
				c.exploreKill(fmt.Sprintf("killed after device event %d of %d of the last operation", c.nev-n0, len(c.rec.evs)-n0))
			}
		}
	} else {
		c.absorb()
	}
	if op.K == 'Y' {
		c.synced, c.touched = after, nil
		c.cand = []content{after}
	}
	if explore && c.power {
		c.explorePower("after the last operation returned")
	} else if explore {
		c.exploreKill("killed after the last operation returned")
	}
}

func (c *crashRun) absorb1() {
	c.d.step(c.rec.evs[c.nev])
	c.nev++
}

func (c *crashRun) exploreKill(where string) {
	c.buf = c.d.image(c.buf, func(int) bool { return true })
	c.check(c.buf, false, where)
}

func (c *crashRun) explorePower(where string) {
	n := len(c.d.pending)
	for _, m := range subsets(n, c.maxAll) {
		c.buf = c.d.image(c.buf, func(i int) bool { return i > 63 || m>>uint(i)&1 == 1 })
		c.check(c.buf, true, fmt.Sprintf("%s, power loss keeping writes %0*b of the %d unsynced (bit 0: oldest)", where, n, m, n))
	}
}

// check starts the code on img and judges what it finds.
func (c *crashRun) check(img []byte, power bool, where string) {
	c.w.C.Execs++
	h := fastHash(img) ^ uint64(c.s.cfg.Ring)<<32 ^ uint64(c.s.cfg.Data)
	got, ok := recovered[h]
	if !ok {
		c.w.Beat(where)
		got = c.recover(img, power, where)
		if len(recovered) > 300000 {
			recovered = map[uint64]content{}
		}
		recovered[h] = got
		c.w.C.Nontrivial++
	}
	c.judge(got, power, where)
}

func (c *crashRun) judge(got content, power bool, where string) {
	if !power {
		for _, a := range c.cand {
			if contentEqual(a, got) {
				return
			}
		}
		c.s.fail("%s: the store contains %v, which is none of the states allowed: %v", where, got, c.cand)
	}
	in := func(id uint64) bool {
		for _, t := range c.touched {
			if t.lo <= id && id <= t.hi {
				return true
			}
		}
		return false
	}
	for id, h := range c.synced {
		if in(id) {
			continue
		}
		g, have := got[id]
		if !have {
			c.s.fail("%s: lump %x, synced and not changed since, is gone; the store contains %v", where, id, got)
		}
		if g != h {
			c.s.fail("%s: lump %x, synced and not changed since, has other bytes; the store contains %v, synced %v", where, id, got, c.synced)
		}
	}
	for id := range got {
		if _, have := c.synced[id]; !have && !in(id) {
			c.s.fail("%s: lump %x is there although its absence was synced; the store contains %v, synced %v", where, id, got, c.synced)
		}
	}
}

// load reads everything; unreadable lumps get hash 0.
func (c *crashRun) load(s *SUT) (content, string) {
	got := content{}
	errs := ""
	for _, l := range s.st.List() {
		id := l.U64()
		_, perr := s.st.GetRecord(l)
		b, err := s.st.Get(l)
		if err != nil {
			errs += fmt.Sprintf("Get(%x): %v; ", id, err)
			got[id] = 0
			continue
		}
		v := &lumpVal{b: b, embed: perr != nil}
		s.m.m[id] = v
		got[id] = v.hash()
	}
	return got, errs
}

// recover opens the image in a second place and uses the store.
func (c *crashRun) recover(img []byte, power bool, where string) content {
	c.rec.off()
	defer c.rec.on()
	s := &SUT{w: c.w, cfg: c.s.cfg, path: c.w.Dir + "/r.lusf", m: newModel(), lax: true}
	s.hist = append(append([]Op{}, c.s.hist...), Op{K: 'X'})
	s.where = where
	rawWriteFile(s.path, img)
	s.seq = 1000000
	s.open()
	defer s.close()
	got, errs := c.load(s)
	if errs != "" {
		if !power {
			s.fail("%s: lumps cannot be read: %s", where, errs)
		}
		for id, h := range got {
			if h == 0 {
				if _, _, err := s.st.Delete(lid(id)); err != nil {
					s.fail("%s: Delete(%x) of a lump that lost its unsynced bytes: %v", where, id, err)
				}
			}
		}
	}
	s.verify()
	if c.noUse {
		return got
	}
	s.use()
	return got
}

// use: the recovered store works like any other.
func (s *SUT) use() {
	keys := s.m.keys()
	s.apply(Op{K: 'P', ID: 100, A: 10})
	s.apply(Op{K: 'E', ID: 101, A: 30})
	s.verify()
	if len(keys) > 0 {
		s.apply(Op{K: 'D', ID: keys[0]})
	}
	s.reopen()
	s.verify()
	n := s.cfg.Ring*sector/320 + 2
	if s.cfg.Lots > 0 {
		n = 2
	}
	for i := 0; i < n; i++ {
		s.apply(Op{K: 'E', ID: 102, A: 300})
	}
	s.apply(Op{K: 'P', ID: 103, A: 511})
	s.apply(Op{K: 'G'})
	s.verify()
	s.reopen()
	s.verify()
}

var _ = bytes.Equal
