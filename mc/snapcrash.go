package main

// C12: crashes while a snapshot is created, active or deleted.  The crash model covers the
// store file, the snapshot files and their directory entries: writes of a file are durable
// after its sync (or at once when it was opened O_SYNC), directory changes after a sync of
// the directory and in order.

import (
	"bytes"
	"fmt"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/thesues/cannyls-go/lump"
)

type fsInode struct {
	d   disk
	id  int
	dur bool
}

type dirOp struct {
	k    byte // 'c' create, 'r' rename, 'u' unlink
	a, b string
	ino  int
}

type fsEv struct {
	k   byte // 'w' write, 's' sync, 't' truncate, 'D' directory change, 'S' directory sync
	ino int
	e   ev
	op  dirOp
}

// fsState: what is on the device
type fsState struct {
	ino  []*disk
	dir  map[string]int // durable names
	pend []dirOp
}

func (f *fsState) step(e fsEv) {
	switch e.k {
	case 'w', 's':
		for e.ino >= len(f.ino) {
			f.ino = append(f.ino, &disk{})
		}
		f.ino[e.ino].step(e.e)
	case 'D':
		if e.op.k == 'c' {
			for e.op.ino >= len(f.ino) {
				f.ino = append(f.ino, &disk{})
			}
		}
		f.pend = append(f.pend, e.op)
	case 'S':
		f.dir = f.names(len(f.pend))
		f.pend = nil
	}
}

// names after the first n pending directory changes
func (f *fsState) names(n int) map[string]int {
	m := map[string]int{}
	for k, v := range f.dir {
		m[k] = v
	}
	for _, o := range f.pend[:n] {
		switch o.k {
		case 'c':
			m[o.a] = o.ino
		case 'r':
			m[o.b] = m[o.a]
			delete(m, o.a)
		case 'u':
			delete(m, o.a)
		}
	}
	return m
}

// fsRec records the device events of one directory.
type fsRec struct {
	dir   string
	fds   map[int]int // fd -> inode, -1: the directory
	mode  map[int]int
	names map[string]int
	nino  int
	evs   []fsEv
	dead  bool
	flt   *faulter
	hooks *syscall.VerifIOHooks
	tear  func(ino int, off int64) bool // a write there may reach the device in part
}

func newFsRec(dir string) *fsRec {
	r := &fsRec{dir: dir, fds: map[int]int{}, mode: map[int]int{}, names: map[string]int{}}
	write := func(fd int, p []byte, off int64) {
		if len(p) > 0 {
			e := ev{kind: 'w', off: off, data: append([]byte(nil), p...), dur: r.mode[fd]&syscall.O_DSYNC != 0}
			if r.tear != nil && r.tear(r.fds[fd], off) {
				if ps := e.pieces(); ps != nil {
					for _, x := range ps {
						r.evs = append(r.evs, fsEv{k: 'w', ino: r.fds[fd], e: x})
					}
					if !e.dur {
						return
					}
				}
			}
			r.evs = append(r.evs, fsEv{k: 'w', ino: r.fds[fd], e: e})
		}
	}
	in := func(p string) bool { return filepath.Dir(p) == r.dir }
	r.hooks = &syscall.VerifIOHooks{
		Opened: func(p string, mode int, fd int, err error) {
			if err != nil {
				return
			}
			delete(r.fds, fd)
			if filepath.Clean(p) == r.dir {
				r.fds[fd] = -1
				return
			}
			if !in(p) {
				return
			}
			ino, ok := r.names[p]
			if !ok {
				if mode&syscall.O_CREAT == 0 {
					return
				}
				ino = r.nino
				r.nino++
				r.names[p] = ino
				r.evs = append(r.evs, fsEv{k: 'D', op: dirOp{k: 'c', a: p, ino: ino}})
			}
			r.fds[fd], r.mode[fd] = ino, mode
		},
		Pwrite: func(fd int, p []byte, off int64) (int, error, bool) {
			if _, ok := r.fds[fd]; !ok {
				return 0, nil, false
			}
			if r.dead {
				return len(p), nil, true
			}
			q, ferr := r.flt.write(p, off)
			if ferr != nil && len(q) == 0 {
				return 0, ferr, true
			}
			n, err := syscall.VerifRawPwrite(fd, q, off)
			if n > 0 {
				write(fd, p[:n], off)
			}
			if ferr != nil {
				err = ferr
			}
			return n, err, true
		},
		Write: func(fd int, p []byte) (int, error, bool) {
			if _, ok := r.fds[fd]; !ok {
				return 0, nil, false
			}
			if r.dead {
				return len(p), nil, true
			}
			off, _ := syscall.Seek(fd, 0, 1)
			q, ferr := r.flt.write(p, off)
			if ferr != nil && len(q) == 0 {
				return 0, ferr, true
			}
			n, err := syscall.VerifRawPwrite(fd, q, off)
			if n > 0 {
				write(fd, p[:n], off)
				syscall.Seek(fd, off+int64(n), 0)
			}
			if ferr != nil {
				err = ferr
			}
			return n, err, true
		},
		Pread: func(fd int, p []byte, off int64) (int, error, bool) {
			if _, ok := r.fds[fd]; ok && r.flt.next("read", off) != 0 {
				return 0, syscall.EIO, true
			}
			return 0, nil, false
		},
		Read: func(fd int, p []byte) (int, error, bool) {
			if _, ok := r.fds[fd]; ok && r.flt.next("read", 0) != 0 {
				return 0, syscall.EIO, true
			}
			return 0, nil, false
		},
		Sync: func(fd int) (error, bool) {
			ino, ok := r.fds[fd]
			if !ok {
				return nil, false
			}
			if !r.dead {
				m := r.flt.next("sync", 0)
				if m != 1 {
					if ino < 0 {
						r.evs = append(r.evs, fsEv{k: 'S'})
					} else {
						r.evs = append(r.evs, fsEv{k: 's', ino: ino, e: ev{kind: 's'}})
					}
				}
				if m != 0 {
					return syscall.EIO, true
				}
			}
			return nil, true
		},
		Fallocate: func(fd int, mode uint32, off, n int64) (error, bool) {
			if _, ok := r.fds[fd]; ok && r.flt.next("fallocate", n) != 0 {
				return syscall.ENOSPC, true
			}
			return nil, false
		},
		Ftruncate: func(fd int, n int64) (error, bool) {
			if _, ok := r.fds[fd]; ok {
				panic("truncate of a recorded file")
			}
			return nil, false
		},
		Rename: func(a, b string) (rerr error, _ bool) {
			if !in(a) {
				return nil, false
			}
			if r.dead {
				return nil, true
			}
			m := r.flt.next("rename", 0)
			if m == 1 {
				return syscall.EIO, true
			}
			err := syscall.VerifRawRename(a, b)
			if err == nil && m != 0 {
				defer func() { rerr = syscall.EIO }()
			}
			if err == nil {
				r.names[b] = r.names[a]
				delete(r.names, a)
				r.evs = append(r.evs, fsEv{k: 'D', op: dirOp{k: 'r', a: a, b: b}})
			}
			return err, true
		},
		Unlink: func(p string) (error, bool) {
			if !in(p) {
				return nil, false
			}
			if r.dead {
				return nil, true
			}
			if r.flt.next("unlink", 0) != 0 {
				return syscall.EIO, true
			}
			err := syscall.VerifRawUnlink(p)
			if err == nil {
				delete(r.names, p)
				r.evs = append(r.evs, fsEv{k: 'D', op: dirOp{k: 'u', a: p}})
			}
			return err, true
		},
	}
	return r
}

type snapCrash struct {
	crashRun
	dir     string
	rec     *fsRec
	fs      *fsState
	snaps   [][]byte // images the snapshot may read as
	may     bool     // there may be no snapshot
	power   bool
	sbuf    []byte
	maxAll  int
	lenient bool // an in-place update may be half done
	anySn   bool // do not judge the snapshot
}

type snapSeen struct {
	got  content
	have bool
	hash uint64
}

var snapRecovered = map[uint64]snapSeen{}

func newSnapCrash(w *W, cfg *Cfg, power bool) *snapCrash {
	c := &snapCrash{power: power, maxAll: 4}
	c.w = w
	c.dir = w.Dir + "/crash"
	syscall.Mkdir(c.dir, 0755)
	cleanSnaps(c.dir)
	img := template(w, cfg)
	c.s = &SUT{w: w, cfg: cfg, path: c.dir + "/c.lusf", m: newModel(), lax: true}
	rawWriteFile(c.s.path, img)
	c.rec = newFsRec(c.dir)
	c.rec.names[c.s.path] = 0
	c.rec.nino = 1
	if cfg.Torn {
		// the values and the files of the snapshot, not the journal
		c.rec.tear = func(ino int, off int64) bool { return ino != 0 || off >= int64(2+cfg.Ring)*sector }
		c.lenient = true
	}
	c.fs = &fsState{ino: []*disk{{durable: append([]byte(nil), img...)}}, dir: map[string]int{c.s.path: 0}}
	syscall.VerifIO = c.rec.hooks
	c.s.open()
	c.cand = []content{{}}
	c.synced = content{}
	c.may = true
	return c
}

func (c *snapCrash) end() {
	c.rec.dead = true
	c.s.close()
	syscall.VerifIO = nil
}

// all of the store file, as the process sees it
func (c *snapCrash) storeNow() []byte {
	return c.fs.ino[0].image(nil, func(int) bool { return true })
}

func (c *snapCrash) step(op Op, explore bool) {
	s := c.s
	if op.K == 'K' || op.K == 'Z' {
		s.hist = append(s.hist, op)
		c.w.C.Trans++
		c.rec.dead = true
		s.close()
		c.rec.dead = false
		if op.K == 'Z' {
			n := len(c.fs.ino[0].pending)
			keep := func(i int) bool { return op.A == 1 && i == n-1 }
			names := c.fs.names(0)
			if op.A == 1 {
				names = c.fs.names(len(c.fs.pend))
			}
			cleanSnaps(c.dir)
			for p, ino := range names {
				img := c.fs.ino[ino].image(nil, keep)
				c.fs.ino[ino] = &disk{durable: img}
				rawWriteFile(p, img)
			}
			c.fs.dir, c.fs.pend = names, nil
			c.rec.names = map[string]int{}
			for p, ino := range names {
				c.rec.names[p] = ino
			}
		}
		s.m = newModel()
		s.open()
		c.absorbAll()
		got, errs := c.load(s)
		if errs != "" && op.K == 'K' {
			s.fail("after a process kill: %s", errs)
		}
		c.judge2(got, op.K == 'Z', "reopened in the history")
		for id, h := range got {
			if h == 0 {
				if _, _, err := s.st.Delete(lid(id)); err != nil {
					s.fail("Delete(%x) of a lump that lost its unsynced bytes: %v", id, err)
				}
				delete(got, id)
			}
		}
		if errs != "" {
			s.st.Sync()
			c.absorbAll()
		}
		c.cand = []content{got}
		if op.K == 'Z' {
			c.synced, c.touched = got, nil
		}
		s.verify()
		c.checkLive()
		return
	}
	before := s.m.content()
	n0 := len(c.rec.evs)
	var alt content
	if v, had := s.m.m[op.ID]; had && op.K == 'P' && !v.embed && maxRun(s.usedBlocks(0, false)) < blocksOf(op.A) {
		alt = content{}
		for k, h := range before {
			if k != op.ID {
				alt[k] = h
			}
		}
	}
	had := s.snap != nil
	c.w.Beat("")
	s.apply(op)
	after := s.m.content()
	if _, in := before[op.ID]; in && op.K == 'W' {
		// an update in place goes straight to the device
		for _, x := range c.cand {
			if _, in := x[op.ID]; in {
				y := content{}
				for k, h := range x {
					y[k] = h
				}
				y[op.ID] = after[op.ID]
				dup := false
				for _, z := range c.cand {
					dup = dup || contentEqual(y, z)
				}
				if !dup {
					c.cand = append(append([]content{}, c.cand...), y)
				}
			}
		}
	}
	t, touches := opTouch(op)
	if touches {
		c.touched = append(c.touched, t)
		if s.lastErr == nil || alt != nil {
			c.cand = append(append([]content{}, c.cand...), after)
			if alt != nil {
				c.cand = append(c.cand, alt)
			}
		}
	}
	creating := !had && s.snap != nil
	deleting := had && s.snap == nil
	if creating || deleting {
		c.may = true
	}
	if creating {
		c.snaps = nil
	}
	for c.nev < len(c.rec.evs) {
		c.fs.step(c.rec.evs[c.nev])
		c.nev++
		if creating {
			c.addSnap(c.storeNow())
		}
		if explore && c.nev < len(c.rec.evs) {
			c.explore(fmt.Sprintf("after device event %d of %d of the last operation", c.nev-n0, len(c.rec.evs)-n0))
		}
	}
	if creating {
		c.snaps = nil
		c.addSnap(s.snap.img)
		c.may = false
	}
	if deleting {
		c.may = true
	}
	if op.K == 'Y' || op.K == 's' && s.lastErr == nil {
		// taking a snapshot syncs
		if op.K == 'Y' {
			c.synced, c.touched = after, nil
			c.cand = []content{after}
		}
	}
	if explore {
		c.explore("after the last operation returned")
	}
}

func (c *snapCrash) addSnap(img []byte) {
	for _, x := range c.snaps {
		if bytes.Equal(x, img) {
			return
		}
	}
	c.snaps = append(c.snaps, append([]byte(nil), img...))
}

func (c *snapCrash) absorbAll() {
	for ; c.nev < len(c.rec.evs); c.nev++ {
		c.fs.step(c.rec.evs[c.nev])
	}
}

func (c *snapCrash) explore(where string) {
	if !c.power {
		c.check(func(ino, i int) bool { return true }, c.fs.names(len(c.fs.pend)), "killed "+where)
		return
	}
	for nd := 0; nd <= len(c.fs.pend); nd++ {
		names := c.fs.names(nd)
		// the snapshot file with the most unsynced writes
		sn := -1
		for _, ino := range names {
			if ino != 0 && len(c.fs.ino[ino].pending) > 0 {
				sn = ino
			}
		}
		ss := []uint64{0}
		if sn >= 0 {
			ss = subsets(len(c.fs.ino[sn].pending), c.maxAll)
		}
		for _, m := range subsets(len(c.fs.ino[0].pending), c.maxAll) {
			for _, k := range ss {
				c.check(func(ino, i int) bool {
					if ino == 0 {
						return i > 63 || m>>uint(i)&1 == 1
					}
					return ino != sn || i > 63 || k>>uint(i)&1 == 1
				}, names, fmt.Sprintf("%s, power loss keeping unsynced store writes %b of %d, snapshot writes %b, %d of %d directory changes", where, m, len(c.fs.ino[0].pending), k, nd, len(c.fs.pend)))
			}
		}
	}
}

func (c *snapCrash) check(keep func(ino, i int) bool, names map[string]int, where string) {
	c.w.C.Execs++
	dir := c.w.Dir + "/rec"
	files := map[string][]byte{}
	h := uint64(c.s.cfg.Ring)<<32 ^ uint64(c.s.cfg.Data)
	for p, ino := range names {
		img := c.fs.ino[ino].image(nil, func(i int) bool { return keep(ino, i) })
		files[p] = img
		kind := uint64(1)
		if ino != 0 {
			kind = 3
			if strings.HasSuffix(p, ".tmp") {
				kind = 5
			}
		}
		h += fastHash(img) * kind * 0x9E3779B97F4A7C15
	}
	r, ok := snapRecovered[h]
	if !ok {
		c.w.Beat(where)
		syscall.Mkdir(dir, 0755)
		cleanSnaps(dir)
		for p, img := range files {
			rawWriteFile(dir+"/"+filepath.Base(p), img)
		}
		r = c.recover(dir, where)
		if len(snapRecovered) > 300000 {
			snapRecovered = map[uint64]snapSeen{}
		}
		snapRecovered[h] = r
		c.w.C.Nontrivial++
	}
	c.judge2(r.got, c.power || c.lenient, where)
	if c.anySn {
		return
	}
	if !r.have {
		if !c.may {
			c.s.fail("%s: the snapshot is gone", where)
		}
		return
	}
	for _, x := range c.snaps {
		if fastHash(x) == r.hash {
			return
		}
	}
	c.s.fail("%s: there is a snapshot which does not read as the file did when it was created (%d candidates)", where, len(c.snaps))
}

func (c *snapCrash) judge2(got content, power bool, where string) {
	c.crashRun.judge(got, power, where)
}

// recover starts the code on the crash state in dir, reads everything and goes on.
func (c *snapCrash) recover(dir, where string) (r snapSeen) {
	syscall.VerifIO = nil
	defer func() { syscall.VerifIO = c.rec.hooks }()
	s := &SUT{w: c.w, cfg: c.s.cfg, path: dir + "/c.lusf", m: newModel(), lax: true}
	s.hist = append(append([]Op{}, c.s.hist...), Op{K: 'X'})
	s.where = where
	s.seq = 1000000
	s.open()
	defer s.close()
	got, errs := c.load(s)
	if errs != "" {
		if !c.power {
			s.fail("lumps cannot be read: %s", errs)
		}
		for id, h := range got {
			if h == 0 {
				if _, _, err := s.st.Delete(lid(id)); err != nil {
					s.fail("Delete(%x) of a lump that lost its unsynced bytes: %v", id, err)
				}
			}
		}
	}
	r.got = got
	s.verify()
	var sn []byte
	if err := s.st.CreateSnapshot(); err != nil {
		// there is one
		r.have = true
		rd, err := s.st.GetSnapshotReader()
		if err != nil {
			s.fail("GetSnapshotReader: %v", err)
		}
		sn, err = readSnap(rd, region+7, 64*region)
		if err != nil {
			s.fail("reading the snapshot: %v after %d bytes", err, len(sn))
		}
		sn = append([]byte(nil), sn...)
		r.hash = fastHash(sn)
		s.snap = &snapInfo{img: sn}
	} else {
		s.snap = &snapInfo{img: rawRead(s.path)}
	}
	// life goes on
	for _, o := range []Op{{K: 'P', ID: 100, A: 10}, {K: 'E', ID: 101, A: 30}, {K: 'P', ID: 102, A: 40000}, {K: 'Y'}, {K: 'P', ID: 102, A: 100}, {K: 'Y'}} {
		s.apply(o)
	}
	keys := s.m.keys()
	s.apply(Op{K: 'D', ID: keys[0]})
	s.verify()
	s.checkSnap(700001, false)
	s.apply(Op{K: 'O'})
	s.apply(Op{K: 'R', ID: 0, A: 1 << 30})
	s.apply(Op{K: 'Y'})
	n := s.cfg.Data*sector - 2
	if n > lump.LUMP_MAX_SIZE {
		n = lump.LUMP_MAX_SIZE
	}
	s.apply(Op{K: 'P', ID: 103, A: n})
	s.apply(Op{K: 'Y'})
	s.verify()
	s.checkSnap(3<<20, false)
	s.apply(Op{K: 'd'})
	s.apply(Op{K: 'O'})
	s.verify()
	s.checkSnap(region, false)
	return r
}

// checkLive: the running store has its snapshot.
func (c *snapCrash) checkLive() {
	s := c.s
	if err := s.st.CreateSnapshot(); err == nil {
		if !c.may {
			s.fail("the snapshot is gone")
		}
		c.absorbAll()
		s.snap = &snapInfo{img: rawRead(s.path)}
		c.snaps = [][]byte{s.snap.img}
		c.may = false
		return
	}
	rd, err := s.st.GetSnapshotReader()
	if err != nil {
		s.fail("GetSnapshotReader: %v", err)
	}
	b, err := readSnap(rd, region, 64*region)
	if err != nil {
		s.fail("reading the snapshot: %v", err)
	}
	for _, x := range c.snaps {
		if bytes.Equal(x, b) {
			s.snap = &snapInfo{img: x}
			c.snaps = [][]byte{x}
			c.may = false
			return
		}
	}
	s.fail("there is a snapshot which does not read as the file did when it was created")
}

func runSnapCrash(w *W, cfg *Cfg, ops []Op, power bool, all bool) {
	c := newSnapCrash(w, cfg, power)
	defer c.end()
	for _, o := range cfg.Pre {
		c.step(o, false)
	}
	for i, o := range ops {
		c.step(o, all || i == len(ops)-1)
	}
	c.s.verify()
	w.C.Traces++
}

var alphaSC = []Op{
	{K: 's'}, {K: 'd'}, {K: 'q'}, {K: 'P', ID: 1, A: 100}, {K: 'P', ID: 3, A: 300000}, {K: 'E', ID: 1, A: 40}, {K: 'W', ID: 2, A: 1024, B: region - 6000, C: 0}, {K: 'W', ID: 1, A: 50, B: 0, C: 80}, {K: 'D', ID: 1}, {K: 'D', ID: 2}, {K: 'Y'}, {K: 'F'}, {K: 'G'}, {K: 'O'}, {K: 'K'}, {K: 'Z', A: 0}, {K: 'Z', A: 1},
}

var alphaSCs = []Op{
	{K: 's'}, {K: 'd'}, {K: 'q'}, {K: 'P', ID: 1, A: 100}, {K: 'P', ID: 3, A: 1000}, {K: 'E', ID: 1, A: 40}, {K: 'W', ID: 2, A: 50, B: 480, C: 0}, {K: 'D', ID: 1}, {K: 'R', ID: 1, A: 3}, {K: 'Y'}, {K: 'F'}, {K: 'G'}, {K: 'S', A: 3}, {K: 'O'}, {K: 'K'}, {K: 'Z', A: 0}, {K: 'Z', A: 1},
}

// fewer operations, longer words
var alphaSCd = []Op{{K: 's'}, {K: 'd'}, {K: 'P', ID: 1, A: 100}, {K: 'P', ID: 3, A: 300000}, {K: 'W', ID: 2, A: 1024, B: region - 6000, C: 0}, {K: 'D', ID: 2}, {K: 'Y'}, {K: 'O'}, {K: 'K'}, {K: 'Z', A: 0}}

func cfgsSC() []*Cfg {
	dt := 5*region/4/sector - 10
	base := []Op{{K: 'P', ID: 1, A: 600}, {K: 'P', ID: 2, A: region + 5000}, {K: 'E', ID: 4, A: 90}, opY}
	return []*Cfg{
		{Name: "filled", Ring: 8, Data: dt, Pre: base},
		{Name: "snapshot", Ring: 8, Data: dt, Pre: join(base, []Op{{K: 's'}})},
		{Name: "snapshot-changed", Ring: 8, Data: dt, Pre: join(base, []Op{{K: 's'}, {K: 'P', ID: 1, A: 20}, {K: 'Y'}})},
		{Name: "snapshot-deleted", Ring: 8, Data: dt, Pre: join(base, []Op{{K: 's'}, {K: 'P', ID: 1, A: 20}, {K: 'Y'}, {K: 'd'}})},
		{Name: "small", Ring: 3, Data: 24, Pre: []Op{{K: 'P', ID: 1, A: 600}, {K: 'P', ID: 2, A: 900}, {K: 'E', ID: 4, A: 300}, opY, {K: 's'}}},
		{Name: "small-unsynced", Ring: 8, Data: 24, Pre: []Op{{K: 'P', ID: 1, A: 600}, {K: 'P', ID: 2, A: 900}, {K: 'E', ID: 4, A: 300}}},
	}
}

func famC12(th bool) []*Family {
	var fs []*Family
	d := 3
	if th {
		d = 4
	}
	var torn []*Cfg
	for i, c := range cfgsSC() {
		if i != 3 && i != 5 {
			x := *c
			x.Torn = true
			x.Name = "torn-" + c.Name
			torn = append(torn, &x)
		}
	}
	for _, c := range append(cfgsSC(), torn...) {
		c := c
		words := wordsUpTo(alphaSC, d-1)
		if c.Data < 100 {
			words = wordsUpTo(alphaSCs, d)
			if c.Torn {
				words = wordsUpTo(alphaSCs, d-1)
			}
		} else if !c.Torn {
			for _, x := range wordsUpTo(alphaSCd, d) {
				if len(x) == d {
					words = append(words, x)
				}
			}
		}
		for _, power := range []bool{false, true} {
			power := power
			fs = append(fs, &Family{Name: map[bool]string{false: "kill/", true: "power/"}[power] + c.Name, N: len(words), Run: func(w *W, i int) { runSnapCrash(w, c, words[i], power, false) },
				Desc: func(i int) string { return opsString(words[i]) + " (every crash state inside the last operation)" }})
		}
	}
	// entries of the snapshot file which lie across two of its sectors
	ents := &Cfg{Name: "entries", Ring: 8, Data: 46 * region / sector, Torn: true, Pre: []Op{{K: 'P', ID: 1, A: 23 * region}, {K: 'P', ID: 2, A: 22 * region}, opY, {K: 's'}}}
	at := func(k int) Op { return Op{K: 'W', ID: uint64(1 + k/22), A: 4, B: k % 22 * region} }
	for k := 0; k < 41; k++ {
		ents.Pre = append(ents.Pre, at(k))
	}
	ents.Pre = append(ents.Pre, opY)
	ew := [][]Op{{at(41)}, {at(41), at(42)}, {at(41), {K: 'K'}, at(42)}, {at(41), {K: 'Z', A: 0}, at(42)}, {at(41), at(42), at(43)}, {at(41), at(42), {K: 'O'}, at(43)}, {at(41), at(42), {K: 'Z', A: 0}, at(43)}, {at(41), at(42), {K: 'd'}}}
	for _, power := range []bool{false, true} {
		power := power
		fs = append(fs, &Family{Name: map[bool]string{false: "kill/", true: "power/"}[power] + "entries", N: len(ew), Chunk: 1, Run: func(w *W, i int) { runSnapCrash(w, ents, ew[i], power, false) },
			Desc: func(i int) string {
				return "41 regions copied; " + opsString(ew[i]) + " (every crash state inside the last operation)"
			}})
	}
	return fs
}

func init() {
	register(&Check{ID: "C12", Families: famC12, Rule: "evaluations: crash states (device event; for power loss also the subset of unsynced writes of the store and of the snapshot file and the number of directory changes that survive) inside the last operation of every word; distinct_nontrivial: distinct states of all files the real code was restarted on and used",
		Assume: []string{"one write call to the journal is atomic; a write of several sectors to the data region or to a file of the snapshot may be cut at sector boundaries", "a completed sync of a file makes its earlier writes durable, a sync of the directory its entries; directory changes reach the disk in order", "writes through an O_SYNC descriptor are durable when they return", "copy regions of 1 MiB, the smallest the format allows"}})
}
