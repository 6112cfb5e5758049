package main

// C20 and C22: two processes on one store file.  Process A runs one kanils command; at each of
// its file events (a file opened, a read, write, sync, preallocation about to happen) another
// process runs a sequence of commands to its end.  Whatever the lock refuses has no effect,
// whatever it lets through takes effect exactly once and stays.

import (
	"fmt"
	"path/filepath"
	"strconv"
	"syscall"

	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/storage"
)

type twoState struct {
	none bool // no file, or not a store (yet)
	data int
	m    content
}

func (s twoState) eq(t twoState) bool {
	return s.none == t.none && s.data == t.data && contentEqual(s.m, t.m)
}

func (s twoState) String() string {
	if s.none {
		return "(no store)"
	}
	return fmt.Sprintf("(%d data blocks, lumps %v)", s.data, s.m)
}

type twoRun struct {
	*cliRun
}

func twoVal(o cop) *lumpVal {
	b := make([]byte, o.n)
	fill(b, int(o.id)*100+o.n, o.id)
	for i := range b {
		if o.k == 'p' {
			b[i] = 'a' + b[i]%26
		}
	}
	return &lumpVal{b: b, embed: o.k == 'p'}
}

func (t *twoRun) args(o cop, who string) []string {
	a := []string{"--storage", t.path}
	key := strconv.FormatUint(o.id, 10)
	switch o.k {
	case 'p':
		a = append([]string{"Put"}, append(a, "--key", key, "--value", string(twoVal(o).b))...)
	case 'f':
		in := filepath.Join(t.w.Dir, "in-"+who+".bin")
		rawWriteFile(in, twoVal(o).b)
		a = append([]string{"Put"}, append(a, "--key", key, "--value", "@"+in)...)
	case 'd':
		a = append([]string{"Delete"}, append(a, "--key", key)...)
	case 'g':
		a = append([]string{"Get"}, append(a, "--key", key)...)
	case 'D':
		a = append([]string{"Dump"}, a...)
	case 'G':
		a = append([]string{"JournalGC"}, a...)
	case 'H':
		a = append([]string{"Header"}, append(a, "--replay")...)
	case 'r':
		a = append([]string{"Resize"}, append(a, "--size", strconv.Itoa(o.n))...)
	case 'C':
		a = append([]string{"Create"}, append(a, "--capacity", strconv.Itoa(o.n))...)
	}
	return a
}

func (t *twoRun) exec(o cop, who string) {
	if r := kanilsRunAs(t.w, &syscall.VerifIOHooks{}, who, t.args(o, who)...); r.panic != "" {
		t.fail("%s: kanils %s died: %s", who, o, r.panic)
	}
}

// after: the state in which o leaves s.
func (t *twoRun) after(s twoState, o cop) twoState {
	if s.none {
		if o.k != 'C' {
			return s
		}
		return twoState{data: t.created(o.n), m: content{}}
	}
	r := twoState{data: s.data, m: content{}}
	for k, v := range s.m {
		r.m[k] = v
	}
	switch o.k {
	case 'p', 'f':
		r.m[o.id] = twoVal(o).hash()
	case 'd':
		delete(r.m, o.id)
	case 'r':
		if n := o.n / sector; n > r.data {
			r.data = n
		}
	}
	return r
}

var twoCreated = map[int]int{}

func (t *twoRun) created(capacity int) int {
	if _, ok := twoCreated[capacity]; !ok {
		c := newCliRun(&W{Dir: t.w.Dir, C: t.w.C}, capacity)
		twoCreated[capacity] = c.cfg.Data
	}
	return twoCreated[capacity]
}

var twoSeen = map[uint64]twoState{}

// state observes the file, on a copy, like a process which is started now would if the one
// which has it open was killed.
func (t *twoRun) state(where string) twoState {
	img := rawRead(t.path)
	h := fastHash(img)
	if s, ok := twoSeen[h]; ok {
		return s
	}
	s := twoState{none: true}
	p := filepath.Join(t.w.Dir, "r.lusf")
	rawWriteFile(p, img)
	defer rawRemove(p)
	if f, hd, err := nvm.Open(p); err == nil {
		f.Close()
		s = twoState{data: int(hd.DataRegionSize / sector), m: content{}}
		st, err := storage.OpenCannylsStorage(p)
		if err != nil {
			t.fail("%s: the store does not open any more: %v", where, err)
		}
		defer st.Close()
		for _, l := range st.List() {
			b, err := st.Get(l)
			if err != nil {
				t.fail("%s: Get(%s) fails: %v", where, l, err)
			}
			_, perr := st.GetRecord(l)
			s.m[l.U64()] = (&lumpVal{b: b, embed: perr != nil}).hash()
		}
	}
	t.w.C.Nontrivial++
	if len(twoSeen) > 1<<16 {
		twoSeen = map[uint64]twoState{}
	}
	twoSeen[h] = s
	return s
}

// twoHooks calls fn once, at the k-th event.
func twoHooks(n *int, k int, fn func()) *syscall.VerifIOHooks {
	busy := false
	ev := func() {
		if busy {
			return
		}
		*n++
		if *n == k {
			busy = true
			fn()
			busy = false
		}
	}
	return &syscall.VerifIOHooks{
		Pwrite:    func(int, []byte, int64) (int, error, bool) { ev(); return 0, nil, false },
		Write:     func(fd int, p []byte) (int, error, bool) { ev(); return 0, nil, false },
		Pread:     func(int, []byte, int64) (int, error, bool) { ev(); return 0, nil, false },
		Read:      func(int, []byte) (int, error, bool) { ev(); return 0, nil, false },
		Sync:      func(int) (error, bool) { ev(); return nil, false },
		Ftruncate: func(int, int64) (error, bool) { ev(); return nil, false },
		Fallocate: func(int, uint32, int64, int64) (error, bool) { ev(); return nil, false },
		Opened:    func(p string, mode, fd int, err error) { ev() },
		Rename:    func(string, string) (error, bool) { ev(); return nil, false },
		Unlink:    func(string) (error, bool) { ev(); return nil, false },
	}
}

func runTwo(w *W, capacity int, start []cop, absent, snap bool, a cop, b []cop) {
	for k := 1; ; k++ {
		c := newCliRun(w, capacity)
		t := &twoRun{cliRun: c}
		for _, o := range append(append([]cop{}, start...), append([]cop{a}, b...)...) {
			if o.k == 'C' {
				t.created(o.n)
			}
		}
		cleanLusf(w.Dir)
		if !absent {
			rawWriteFile(c.path, cliTmpl["cli"+strconv.Itoa(capacity)])
			for _, o := range start {
				t.exec(o, "start")
			}
		}
		var frozen []byte
		if snap {
			st, err := storage.OpenCannylsStorage(c.path)
			if err != nil {
				c.fail("open: %v", err)
			}
			if err := st.CreateSnapshot(); err != nil {
				c.fail("CreateSnapshot: %v", err)
			}
			st.Close()
			frozen = rawRead(c.path)
		}
		s := t.state("at the start")
		t.hist = append(append([]cop{}, start...), a)
		n, ran := 0, false
		refused := true
		where := fmt.Sprintf("two processes, [%s] run by another process at file event %d of %s", copsString(b), k, a)
		var hooks *syscall.VerifIOHooks
		hooks = twoHooks(&n, k, func() {
			ran = true
			syscall.VerifIO = nil
			s = t.state(where + ": before")
			for _, o := range b {
				t.exec(o, "B")
				w.C.Trans++
				next := t.state(where + ": after " + o.String())
				want := t.after(s, o)
				if !next.eq(s) && !next.eq(want) {
					t.fail("%s: %s turned %v into %v", where, o, s, next)
				}
				if next.eq(want) {
					refused = false
				}
				s = next
			}
			syscall.VerifIO = hooks
		})
		w.Beat(where)
		r := kanilsRunAs(w, hooks, "A", t.args(a, "A")...)
		if r.panic != "" {
			t.fail("%s: kanils %s died: %s", where, a, r.panic)
		}
		w.C.Trans++
		w.C.Execs++
		w.C.Traces++
		final := t.state(where + ": at the end")
		want := t.after(s, a)
		if !final.eq(want) && (!final.eq(s) || refused) {
			t.fail("%s: the store was %v, and is %v after %s", where, s, final, a)
		}
		if w.Seen(fastHash([]byte(fmt.Sprint(final, refused, copsString(b), a)))) {
			w.C.States++
		}
		if !final.none && a.k != 'C' {
			c.cfg.Data = final.data
			c.m = t.model(final, start, a, b)
			c.verify(where)
			c.useAll(where)
		}
		if snap {
			t.checkSnap(frozen, where)
		}
		w.Outcome(fmt.Sprintf("refused=%v", refused))
		if !ran {
			return
		}
	}
}

func (t *twoRun) checkSnap(frozen []byte, where string) {
	st, err := storage.OpenCannylsStorage(t.path)
	if err != nil {
		t.fail("%s: open: %v", where, err)
	}
	defer st.Close()
	r, err := st.GetSnapshotReader()
	if err != nil {
		t.fail("%s: the snapshot is gone: %v", where, err)
	}
	if got := readAllSnap(r); len(got) < len(frozen) || string(got[:len(frozen)]) != string(frozen) {
		t.fail("%s: the snapshot (%d bytes) differs from the file at its creation (%d bytes, equal prefix %d)", where, len(got), len(frozen), commonPrefix(got, frozen))
	}
}

// model: the lumps of s with their bytes.
func (t *twoRun) model(s twoState, start []cop, a cop, b []cop) *Model {
	m := newModel()
	all := append(append(append([]cop{}, start...), a), b...)
	for id, h := range s.m {
		for _, o := range all {
			if (o.k == 'p' || o.k == 'f') && o.id == id {
				if v := twoVal(o); v.hash() == h {
					m.m[id] = v
				}
			}
		}
		if m.m[id] == nil {
			t.fail("lump %x has a value which was never stored", id)
		}
	}
	return m
}

type twoCase struct {
	a cop
	b []cop
}

func (c twoCase) String() string { return fmt.Sprintf("%s with [%s] inside", c.a, copsString(c.b)) }

func famTwo(th bool) []*Family {
	const capacity = 12 * sector
	start := []cop{{'f', 1, 600}, {'p', 2, 7}}
	var cases, absent []twoCase
	as := []cop{{'r', 0, 20 * sector}, {'r', 0, 40 * sector}, {'f', 3, 700}, {'p', 3, 9}, {'d', 1, 0}, {'g', 1, 0}, {'D', 0, 0}, {'G', 0, 0}, {'H', 0, 0}, {'C', 0, 50 * sector}}
	bs := []cop{{'r', 0, 24 * sector}, {'r', 0, 50 * sector}, {'f', 4, 6000}, {'f', 5, 1000}, {'p', 4, 11}, {'d', 2, 0}, {'G', 0, 0}}
	depth := 2
	if th {
		depth = 3
	}
	for _, a := range as {
		for _, b := range cliWords(bs, depth) {
			cases = append(cases, twoCase{a, b})
		}
	}
	var snaps []twoCase
	for _, a := range as[:6] {
		for _, b := range cliWords(bs, depth-1) {
			snaps = append(snaps, twoCase{a, b})
		}
	}
	cs := append([]cop{{'C', 0, 50 * sector}, {'C', 0, 12 * sector}}, bs...)
	for _, a := range []cop{{'C', 0, 12 * sector}, {'C', 0, 50 * sector}} {
		for _, b := range cliWords(cs, 2) {
			absent = append(absent, twoCase{a, b})
		}
	}
	fam := func(name string, l []twoCase, ab, snap bool) *Family {
		return &Family{Name: name, N: len(l), Desc: func(i int) string { return l[i].String() },
			Run: func(w *W, i int) { runTwo(w, capacity, start, ab, snap, l[i].a, l[i].b) }}
	}
	return []*Family{fam("two/store", cases, false, false), fam("two/absent", absent, true, false), fam("two/snapshot", snaps, false, true)}
}
