package main

// C16: storage views as byte arrays.  C20: creating, recognising and locking store files.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/storage"
)

// ---------------------------------------------------------------- C16

const (
	devMem = iota
	devFile
	devShort // the physical file is shorter than the capacity
	devSnap
	devSnapActive // a snapshot exists
	devKinds
)

var devNames = []string{"memory", "file", "short file", "snapshot device", "snapshot device with snapshot"}

type vop struct {
	k    byte // s,c,e seek; r read; w write; R readat; W writeat; y sync; x close view
	view int
	off  int
	n    int
}

func (o vop) String() string {
	v := string(rune('a' + o.view))
	switch o.k {
	case 's':
		return fmt.Sprintf("%s.Seek(%d,start)", v, o.off)
	case 'c':
		return fmt.Sprintf("%s.Seek(%d,current)", v, o.off)
	case 'e':
		return fmt.Sprintf("%s.Seek(%d,end)", v, o.off)
	case 'r':
		return fmt.Sprintf("%s.Read(%d)", v, o.n)
	case 'w':
		return fmt.Sprintf("%s.Write(%d)", v, o.n)
	case 'R':
		return fmt.Sprintf("%s.ReadAt(%d,off %d)", v, o.n, o.off)
	case 'W':
		return fmt.Sprintf("%s.WriteAt(%d,off %d)", v, o.n, o.off)
	case 'y':
		return v + ".Sync"
	case 'x':
		return v + ".Close"
	}
	return "?"
}

type view struct {
	d        nvm.NonVolatileMemory
	lo, hi   int
	pos      int
	whole    bool
	parent   *view
	isMemory bool
}

type devRun struct {
	w     *W
	kind  int
	cap   int
	img   []byte // model of the whole device (capacity)
	phys  int    // physical size of the file
	path  string
	views []*view
	mem   *nvm.MemoryNVM
	hist  []string
	root  nvm.NonVolatileMemory
	seq   int
	desc  string
}

func pattern(b []byte, salt int) {
	for i := range b {
		b[i] = byte(i*7 + i>>8*13 + salt*31 + 1)
	}
}

func newDevRun(w *W, kind, blocks, physBlocks int, splits []int) *devRun {
	d := &devRun{w: w, kind: kind, cap: blocks * sector, path: filepath.Join(w.Dir, "v.lusf")}
	d.img = make([]byte, d.cap)
	d.phys = d.cap
	if kind == devMem {
		pattern(d.img, 0)
		m, err := nvm.NewFromVec(append([]byte(nil), d.img...))
		if err != nil {
			d.fail("NewFromVec: %v", err)
		}
		d.mem = m
		d.root = m
	} else {
		d.clean()
		if kind == devShort {
			d.phys = physBlocks * sector
		}
		f, err := nvm.CreateIfAbsent(d.path, uint64(d.cap))
		if err != nil {
			d.fail("CreateIfAbsent: %v", err)
		}
		pattern(d.img[:d.phys], 0)
		rawWriteFile(d.path, d.img[:d.phys])
		d.root = f
		if kind >= devSnap {
			s, err := nvm.NewSnapshotNVM(f)
			if err != nil {
				d.fail("NewSnapshotNVM: %v", err)
			}
			if kind >= devSnapActive {
				if err := s.CreateSnapshotIfNeeded(); err != nil {
					d.fail("CreateSnapshotIfNeeded: %v", err)
				}
			}
			d.root = s
		}
	}
	d.views = []*view{{d: d.root, lo: 0, hi: d.cap, whole: true}}
	// splits: pairs (view, position)
	for i := 0; i+1 < len(splits); i += 2 {
		d.split(splits[i], splits[i+1])
	}
	return d
}

func (d *devRun) clean() {
	l, _ := os.ReadDir(d.w.Dir)
	for _, e := range l {
		if strings.HasPrefix(e.Name(), "v") && strings.Contains(e.Name(), "lusf") {
			rawRemove(filepath.Join(d.w.Dir, e.Name()))
		}
	}
}

func (d *devRun) end() {
	if d.kind != devMem {
		d.root.Close()
		d.clean()
	}
}

func (d *devRun) fail(f string, a ...interface{}) {
	d.w.Failf("%s\n  %s of %d bytes (%d physical); after %v", fmt.Sprintf(f, a...), devNames[d.kind], d.cap, d.phys, d.hist)
}

func (d *devRun) split(vi, pos int) {
	v := d.views[vi]
	d.hist = append(d.hist, fmt.Sprintf("%c.Split(%d)", 'a'+vi, pos))
	l, r, err := v.d.Split(uint64(pos))
	n := v.hi - v.lo
	if pos < 0 || pos > n || pos%sector != 0 {
		if err == nil {
			d.fail("Split(%d) of a view of %d bytes succeeded", pos, n)
		}
		return
	}
	if err != nil {
		d.fail("Split(%d) of a view of %d bytes: %v", pos, n, err)
	}
	d.views = append(d.views, &view{d: l, lo: v.lo, hi: v.lo + pos, parent: v}, &view{d: r, lo: v.lo + pos, hi: v.hi, parent: v})
}

// backing returns the bytes of the device.
func (d *devRun) backing() []byte {
	if d.kind == devMem {
		return d.mem.AsBytes()
	}
	return rawRead(d.path)
}

func (d *devRun) check() {
	b := d.backing()
	if len(b) > d.cap {
		d.fail("the device grew to %d bytes", len(b))
	}
	if d.kind == devMem && len(b) != d.cap {
		d.fail("the device shrank to %d bytes", len(b))
	}
	for i := range d.img {
		var x byte
		if i < len(b) {
			x = b[i]
		}
		if x != d.img[i] {
			d.fail("byte %d of the device is %02x, want %02x", i, x, d.img[i])
		}
	}
	for i, v := range d.views {
		if p := v.d.Position(); p != uint64(v.pos) {
			d.fail("position of view %c is %d, want %d", 'a'+i, p, v.pos)
		}
		if c := v.d.Capacity(); c != uint64(v.hi-v.lo) {
			d.fail("capacity of view %c is %d, want %d", 'a'+i, c, v.hi-v.lo)
		}
	}
}

func (d *devRun) buf(n int) []byte {
	ab := block.NewAlignedBytes(n, block.Min())
	b := ab.AsBytes()
	d.seq++
	pattern(b, d.seq*5+100)
	return b
}

// transfer is the oracle for a read or write of n bytes at off in view v: how many bytes may
// have been transferred.
func (d *devRun) apply(o vop) {
	d.w.C.Trans++
	d.hist = append(d.hist, o.String())
	v := d.views[o.view]
	n := v.hi - v.lo
	switch o.k {
	case 's', 'c', 'e':
		abs, whence := o.off, io.SeekStart
		switch o.k {
		case 'c':
			abs, whence = v.pos+o.off, io.SeekCurrent
		case 'e':
			abs, whence = n+o.off, io.SeekEnd
		}
		got, err := v.d.Seek(int64(o.off), whence)
		if abs < 0 || abs > n {
			if err == nil {
				d.fail("seek to %d of %d succeeded", abs, n)
			}
			return
		}
		if err != nil {
			if abs%sector == 0 {
				d.fail("seek to %d of %d: %v", abs, n, err)
			}
			return
		}
		if got != int64(abs) {
			d.fail("seek returned %d, want %d", got, abs)
		}
		v.pos = abs
	case 'r', 'R':
		off := o.off
		b := d.buf(o.n)
		var got int
		var err error
		if o.k == 'r' {
			off = v.pos
			got, err = v.d.Read(b)
		} else {
			got, err = v.d.ReadAt(b, int64(off))
		}
		d.transferred(o, v, off, got, err, func(i int) bool { return b[i] == d.img[v.lo+off+i] }, "returned a wrong byte")
		if o.k == 'r' && got > 0 {
			v.pos += got
		}
	case 'w', 'W':
		off := o.off
		b := d.buf(o.n)
		var got int
		var err error
		if o.k == 'w' {
			off = v.pos
			got, err = v.d.Write(b)
		} else {
			got, err = v.d.WriteAt(b, int64(off))
		}
		d.transferred(o, v, off, got, err, func(i int) bool { d.img[v.lo+off+i] = b[i]; return true }, "")
		if got > 0 {
			if d.phys < v.lo+off+got {
				d.phys = v.lo + off + got
			}
			if o.k == 'w' {
				v.pos += got
			}
		}
	case 'y':
		if err := v.d.Sync(); err != nil {
			d.fail("sync: %v", err)
		}
	case 'x':
		v.d.Close() // a split view does not close the device
	}
}

func (d *devRun) transferred(o vop, v *view, off, got int, err error, each func(i int) bool, msg string) {
	n := v.hi - v.lo
	avail := n - off
	if off < 0 || avail < 0 {
		avail = 0
	}
	if avail > o.n {
		avail = o.n
	}
	if got > avail {
		d.fail("%s transferred %d bytes, only %d are in the view", o, got, avail)
	}
	for i := 0; i < got; i++ {
		if !each(i) {
			d.fail("%s %s at %d", o, msg, i)
		}
	}
	inside := off >= 0 && off+o.n <= n && off%sector == 0 && o.n%sector == 0 && o.n > 0
	if !inside {
		// refused or shortened; a request which starts in the view and is aligned is either
		if err == nil && got != avail {
			d.fail("%s transferred %d bytes of %d without an error", o, got, avail)
		}
		if err != nil && got > 0 && err != io.EOF {
			d.fail("%s reported %v after transferring %d bytes", o, err, got)
		}
		return
	}
	if o.k == 'R' && d.kind != devMem && v.lo+off+o.n > d.phys {
		// a hole at the end of the file
		if err == nil && got != o.n || err != nil && err != io.EOF {
			d.fail("%s at the end of a short file: %d, %v", o, got, err)
		}
		return
	}
	if err != nil || got != o.n {
		d.fail("%s inside a view of %d bytes: %d, %v", o, n, got, err)
	}
}

func viewAlphaFull(view, n int) []vop {
	var a []vop
	add := func(k byte, off, m int) { a = append(a, vop{k, view, off, m}) }
	for _, s := range []int{0, sector, n - sector, n, n + sector, -sector, 100} {
		add('s', s, 0)
	}
	for _, s := range []int{0, sector, -sector, 100} {
		add('c', s, 0)
	}
	for _, s := range []int{0, sector, -sector, -n, -n - sector, -100} {
		add('e', s, 0)
	}
	for _, m := range []int{0, sector, 2 * sector, n, n + sector, 100, 700} {
		add('r', 0, m)
		add('w', 0, m)
	}
	for _, s := range []int{0, sector, n - sector, n, n + sector, -sector, 100} {
		for _, m := range []int{sector, 2 * sector, 100} {
			add('R', s, m)
			add('W', s, m)
		}
	}
	add('y', 0, 0)
	if view > 0 {
		add('x', 0, 0)
	}
	return a
}

func viewAlphaSmall(views []int, ns []int) []vop {
	var a []vop
	for i, v := range views {
		n := ns[i]
		a = append(a, vop{'s', v, sector, 0}, vop{'s', v, n, 0}, vop{'c', v, -sector, 0}, vop{'r', v, 0, sector}, vop{'w', v, 0, 2 * sector},
			vop{'R', v, n - sector, 2 * sector}, vop{'W', v, n - sector, 2 * sector}, vop{'W', v, 0, n + sector}, vop{'r', v, 0, n + sector})
	}
	return a
}

// layouts: list of splits (view, position) of a device of 4 blocks
var viewLayouts = [][]int{
	{}, {0, 512}, {0, 1024}, {0, 0}, {0, 2048}, {0, 512, 2, 512}, {0, 1536, 1, 512}, {0, 512, 2, 1024, 4, 512},
	{0, 100}, {0, 2560}, {0, 512, 1, 1024}, {0, 512, 2, 2048},
}

// dims returns the size of every view of the layout on a device of n blocks.
func viewDims(n int, lay []int) []int {
	r := []int{n * sector}
	for i := 0; i+1 < len(lay); i += 2 {
		p := lay[i+1]
		if p > r[lay[i]] || p%sector != 0 {
			continue
		}
		r = append(r, p, r[lay[i]]-p)
	}
	return r
}

func viewFam(name string, kinds []int, layouts [][]int, alpha func(dims []int) []vop, depth int) *Family {
	type cs struct{ kind, lay, w int }
	var tot int
	var starts []int
	type blk struct {
		kind, lay int
		alpha     []vop
	}
	var blks []blk
	for _, k := range kinds {
		for l := range layouts {
			a := alpha(viewDims(4, layouts[l]))
			starts = append(starts, tot)
			blks = append(blks, blk{k, l, a})
			tot += pow(len(a), depth)
		}
	}
	decode := func(i int) (blk, []vop) {
		j := len(starts) - 1
		for starts[j] > i {
			j--
		}
		b := blks[j]
		x := i - starts[j]
		r := make([]vop, depth)
		for k := depth - 1; k >= 0; k-- {
			r[k] = b.alpha[x%len(b.alpha)]
			x /= len(b.alpha)
		}
		return b, r
	}
	return &Family{Name: name, N: tot, Run: func(w *W, i int) {
		b, ops := decode(i)
		d := newDevRun(w, b.kind, 4, 1+b.lay%3, layouts[b.lay])
		defer d.end()
		d.check()
		for _, o := range ops {
			d.apply(o)
			d.check()
		}
		w.C.Execs++
		w.C.Traces++
		if w.Seen(fastHash(d.img) ^ uint64(d.views[0].pos)<<32 ^ uint64(len(d.views))<<50 ^ uint64(d.kind)<<56) {
			w.C.States++
		}
	}, Desc: func(i int) string {
		b, ops := decode(i)
		return fmt.Sprintf("%s, splits %v, %v", devNames[b.kind], layouts[b.lay], ops)
	}}
}

func famC16(th bool) []*Family {
	all := func(dims []int) []vop {
		var a []vop
		for v, n := range dims {
			a = append(a, viewAlphaFull(v, n)...)
		}
		return a
	}
	small := func(dims []int) []vop {
		var vs []int
		for v := range dims {
			vs = append(vs, v)
		}
		if len(vs) > 3 { // the root and the last split
			vs = []int{0, len(dims) - 2, len(dims) - 1}
		}
		ns := []int{}
		for _, v := range vs {
			ns = append(ns, dims[v])
		}
		return viewAlphaSmall(vs, ns)
	}
	plain := []int{devMem, devFile, devShort, devSnap}
	fs := []*Family{
		viewFam("one", []int{devMem, devFile, devShort, devSnap, devSnapActive}, viewLayouts, all, 1),
		viewFam("pairs", plain, viewLayouts, all, 2),
		viewFam("snapshot", []int{devSnapActive}, [][]int{{}, {0, 512}}, small, 2),
	}
	fs = append(fs, splitsFam(), memNewFam(), farViewFam(th), largeViewFam(th))
	lay3 := [][]int{{}, {0, 1024}, {0, 512, 2, 512}, {0, 1536, 1, 512}}
	fs = append(fs, viewFam("triples", plain, lay3, small, 3))
	if th {
		fs = append(fs, viewFam("words4", plain, [][]int{{}, {0, 1024}, {0, 512, 2, 512}}, small, 4))
	}
	return fs
}

// ---------------------------------------------------------------- C20

type fileRun struct {
	w    *W
	path string
	hist []string
}

func (r *fileRun) fail(f string, a ...interface{}) {
	r.w.Failf("%s\n  after %v", fmt.Sprintf(f, a...), r.hist)
}

func cleanLusf(dir string) {
	l, _ := os.ReadDir(dir)
	for _, e := range l {
		if strings.Contains(e.Name(), "lusf") {
			rawRemove(filepath.Join(dir, e.Name()))
		}
	}
}

func dirList(dir string) string {
	l, _ := os.ReadDir(dir)
	var s []string
	for _, e := range l {
		s = append(s, e.Name())
	}
	return strings.Join(s, ",")
}

var ratios = []float64{0, 0.001, 0.01, 0.05, 0.1, 0.2, 1.0 / 3, 0.5, 0.7, 0.9, 0.99, 0.999, 1, -0.01, 1.01, 2, -1, nan()}

func nan() float64 { z := 0.0; return z / z }

// runCreate: one capacity and ratio.
func runCreate(w *W, capacity uint64, ratio float64) {
	r := &fileRun{w: w, path: filepath.Join(w.Dir, "c.lusf")}
	cleanLusf(w.Dir)
	defer cleanLusf(w.Dir)
	before := dirList(w.Dir)
	r.hist = append(r.hist, fmt.Sprintf("Create(%d, %v)", capacity, ratio))
	st, err := storage.CreateCannylsStorage(r.path, capacity, ratio)
	w.C.Trans++
	legal := capacity%sector == 0 && capacity >= 4*sector && ratio >= 0 && ratio <= 1
	if err != nil {
		if legal {
			r.fail("creating a legal store failed: %v", err)
		}
		if now := dirList(w.Dir); now != before {
			r.fail("failed create changed the directory: %q to %q", before, now)
		}
		w.Outcome("refused")
		return
	}
	if !legal {
		r.fail("an impossible store was created")
	}
	w.Outcome("created")
	check := func(st *storage.Storage) {
		h := st.Header()
		hd := uint64(h.RegionSize())
		if hd%sector != 0 || hd < 46 || h.JournalRegionSize%sector != 0 || h.DataRegionSize%sector != 0 || h.DataRegionSize < sector || h.JournalRegionSize < 2*sector {
			r.fail("regions: header %d journal %d data %d", hd, h.JournalRegionSize, h.DataRegionSize)
		}
		if hd+h.JournalRegionSize+h.DataRegionSize != capacity || h.StorageSize() != capacity {
			r.fail("header %d + journal %d + data %d (total reported %d) is not the capacity %d", hd, h.JournalRegionSize, h.DataRegionSize, h.StorageSize(), capacity)
		}
		// the journal gets the requested share, up to the rounding and the minimum sizes
		want := (uint64(ratio*float64(capacity)) + sector - 1) / sector * sector
		if want < 2*sector {
			want = 2 * sector
		}
		if m := capacity - hd - sector; want > m {
			want = m
		}
		if h.JournalRegionSize != want {
			r.fail("journal region %d, want %d", h.JournalRegionSize, want)
		}
		u := st.Usage()
		if u.JournalCapacity != h.JournalRegionSize || u.DataCapacity != h.DataRegionSize || u.DataFreeBytes != h.DataRegionSize || u.FileCounts != 0 {
			r.fail("usage %+v of a new store, header %+v", u, h)
		}
	}
	check(st)
	h := st.Header()
	// fill the data region completely: no region overlaps another
	n := int(h.DataRegionSize/sector)*sector - 2
	if n > 2000 {
		n = 2000
	}
	blocks := blocksOf(n)
	model := map[uint64][]byte{}
	id := uint64(1)
	for {
		b := make([]byte, n)
		fill(b, int(id), id)
		if _, err := st.Put(lid(id), lumpData(b)); err != nil {
			break
		}
		model[id] = b
		id++
		if int(id) > int(h.DataRegionSize)/sector/blocks+2 {
			r.fail("more lumps stored than fit")
		}
	}
	if len(model) == 0 {
		r.fail("nothing can be stored")
	}
	st.Sync()
	st.Close()
	img := rawRead(r.path)
	if uint64(len(img)) > capacity {
		r.fail("the file has %d bytes, capacity %d", len(img), capacity)
	}
	f, hdr, err := nvm.Open(r.path)
	if err != nil {
		r.fail("open: %v", err)
	}
	if *hdr != h {
		r.fail("header read back %+v, written %+v", *hdr, h)
	}
	j, d := hdr.SplitRegion(f)
	if j.Capacity() != h.JournalRegionSize || d.Capacity() != h.DataRegionSize || f.Capacity() != capacity {
		r.fail("regions opened: journal %d data %d of %d", j.Capacity(), d.Capacity(), f.Capacity())
	}
	f.Close()
	st, err = storage.OpenCannylsStorage(r.path)
	if err != nil {
		r.fail("reopen: %v", err)
	}
	if g := st.Header(); g != h {
		r.fail("reopened header %+v, want %+v", g, h)
	}
	for k, b := range model {
		got, err := st.Get(lid(k))
		if err != nil || !bytes.Equal(got, b) {
			r.fail("lump %d of %d bytes: %d bytes, %v", k, len(b), len(got), err)
		}
	}
	st.Close()
	// an existing path is refused and untouched
	img = rawRead(r.path)
	if st, err := storage.CreateCannylsStorage(r.path, capacity, ratio); err == nil {
		st.Close()
		r.fail("create on an existing store succeeded")
	}
	if !bytes.Equal(img, rawRead(r.path)) {
		r.fail("create on an existing store changed it")
	}
	w.C.Execs++
	w.C.Traces++
	if w.Seen(hashStr(fmt.Sprint(h.JournalRegionSize, h.DataRegionSize))) {
		w.C.States++
	}
}

// runCreateHuge: a store whose regions are around the limits of the format.
func runCreateHuge(w *W, capacity uint64, ratio float64) {
	r := &fileRun{w: w, path: filepath.Join(w.Dir, "c.lusf")}
	cleanLusf(w.Dir)
	defer cleanLusf(w.Dir)
	// reserving space (size kept) has no effect on the content, and the file is huge
	syscall.VerifIO = &syscall.VerifIOHooks{Fallocate: func(fd int, mode uint32, off int64, length int64) (error, bool) {
		if off < 0 || length <= 0 {
			return syscall.EINVAL, true
		}
		return nil, mode == 1
	}}
	defer resetHooks()
	before := dirList(w.Dir)
	r.hist = append(r.hist, fmt.Sprintf("Create(%d, %v)", capacity, ratio))
	const maxJ = 1<<40 - 1
	const maxD = maxJ * sector
	// the regions, by exact arithmetic but for the share
	wantJ := (uint64(ratio*float64(capacity)) + sector - 1) / sector * sector
	if wantJ < 2*sector {
		wantJ = 2 * sector
	}
	legal := capacity < 1<<63
	if legal {
		if m := capacity - 2*sector; wantJ > m {
			wantJ = m
		}
		legal = wantJ <= maxJ && capacity-sector-wantJ <= maxD
	}
	st, err := storage.CreateCannylsStorage(r.path, capacity, ratio)
	w.C.Trans++
	w.C.Execs++
	w.C.Traces++
	if err != nil {
		if legal {
			r.fail("creating a legal store failed: %v", err)
		}
		if now := dirList(w.Dir); now != before {
			r.fail("failed create changed the directory: %q to %q", before, now)
		}
		w.Outcome("refused")
		return
	}
	if !legal {
		r.fail("an impossible store was created: %+v", st.Header())
	}
	w.Outcome("created")
	model := map[uint64][]byte{}
	used := uint64(0)
	check := func(when string) {
		h := st.Header()
		if h.JournalRegionSize != wantJ || h.DataRegionSize != capacity-sector-wantJ || uint64(h.RegionSize()) != sector || h.StorageSize() != capacity {
			r.fail("%s: header %d journal %d data %d (total reported %d), want journal %d of capacity %d", when, h.RegionSize(), h.JournalRegionSize, h.DataRegionSize, h.StorageSize(), wantJ, capacity)
		}
		u := st.Usage()
		if u.JournalCapacity != wantJ || u.DataCapacity != h.DataRegionSize || u.DataFreeBytes != h.DataRegionSize-used || u.FileCounts != uint64(len(model)) {
			r.fail("%s: usage %+v, %d lumps use %d", when, u, len(model), used)
		}
		for k, b := range model {
			got, err := st.Get(lid(k))
			if err != nil || !bytes.Equal(got, b) {
				r.fail("%s: lump %d of %d bytes: %d bytes, %v", when, k, len(b), len(got), err)
			}
		}
	}
	check("created")
	for id, n := range []int{100, 700, 70000, 30} {
		b := make([]byte, n)
		fill(b, id, uint64(id))
		if id == 3 {
			_, err = st.PutEmbed(lid(3), b)
		} else {
			if uint64(blocksOf(n)*sector) > st.Header().DataRegionSize-used {
				continue
			}
			used += uint64(blocksOf(n) * sector)
			_, err = st.Put(lid(uint64(id)), lumpData(b))
		}
		if err != nil {
			r.fail("put of %d bytes: %v", n, err)
		}
		model[uint64(id)] = b
	}
	check("filled")
	h := st.Header()
	st.Close()
	f, hdr, err := nvm.Open(r.path)
	if err != nil {
		r.fail("open: %v", err)
	}
	if *hdr != h {
		r.fail("header read back %+v, written %+v", *hdr, h)
	}
	j, d := hdr.SplitRegion(f)
	if j.Capacity() != wantJ || d.Capacity() != h.DataRegionSize || f.Capacity() != capacity {
		r.fail("regions opened: journal %d data %d of %d", j.Capacity(), d.Capacity(), f.Capacity())
	}
	f.Close()
	if st, err = storage.OpenCannylsStorage(r.path); err != nil {
		r.fail("reopen: %v", err)
	}
	check("reopened")
	st.Close()
	if w.Seen(hashStr(fmt.Sprint(h.JournalRegionSize, h.DataRegionSize))) {
		w.C.States++
	}
}

func createHugeFam(th bool) *Family {
	type cr struct {
		c uint64
		r float64
	}
	var l []cr
	const maxJ = 1<<40 - 1
	const maxD = maxJ * sector
	for _, r := range []float64{0, 0.0001, 0.001, 0.01, 0.5, 1} {
		for _, e := range []uint64{32, 33, 39, 40, 41, 48, 49, 50, 62} {
			for _, d := range []int64{-sector, 0, sector} {
				l = append(l, cr{uint64(int64(1)<<e + d), r})
			}
		}
		l = append(l, cr{1<<63 - sector, r}, cr{1 << 63, r}, cr{^uint64(0) - sector + 1, r})
	}
	for d := -4; d <= 4; d++ {
		l = append(l, cr{uint64(maxD + d*sector), 0}, cr{uint64(maxD + 3*sector + d*sector), 0})
		// the journal takes nearly everything, and is as long as it may be
		l = append(l, cr{uint64(1<<40 + d*sector), 1})
	}
	return &Family{Name: "create-huge", N: len(l), Chunk: 1, Run: func(w *W, i int) { runCreateHuge(w, l[i].c, l[i].r) }, Desc: func(i int) string { return fmt.Sprintf("Create(%d,%v)", l[i].c, l[i].r) }}
}

// headerFields: byte ranges of the header which are checked on open.
func checkedByte(i int) bool { return i < 12 } // magic, header size, versions, block size: see below

func storeWithLumps(w *W, cfg *Cfg) ([]byte, *Model) {
	s := newSUT(w, cfg, template(w, cfg))
	for _, o := range []Op{{K: 'P', ID: 1, A: 700}, {K: 'E', ID: 2, A: 30}, {K: 'P', ID: 3, A: 100}} {
		s.apply(o)
	}
	s.verify()
	s.close()
	return rawRead(s.path), s.m
}

// tryOpen opens img and reports what is found: "error" or the content.
func tryOpen(w *W, img []byte) (st *storage.Storage, err error) {
	p := filepath.Join(w.Dir, "h.lusf")
	rawWriteFile(p, img)
	return storage.OpenCannylsStorage(p)
}

var hdrStore = map[string][]byte{}
var hdrModel = map[string]*Model{}

func hdrImage(w *W, cfg *Cfg) ([]byte, *Model) {
	if hdrStore[cfg.Name] == nil {
		hdrStore[cfg.Name], hdrModel[cfg.Name] = storeWithLumps(w, cfg)
	}
	return hdrStore[cfg.Name], hdrModel[cfg.Name]
}

// runHeaderByte: header byte i set to every other value.
func runHeaderByte(w *W, cfg *Cfg, i int) {
	img, m := hdrImage(w, cfg)
	for v := 0; v < 256; v++ {
		if byte(v) == img[i] {
			continue
		}
		b := append([]byte(nil), img...)
		b[i] = byte(v)
		w.Beat(fmt.Sprintf("header byte %d set to %02x", i, v))
		openDamaged(w, cfg, b, m, i < 12, i >= 12 && i < 28 || i >= 46, fmt.Sprintf("header byte %d changed from %02x to %02x", i, img[i], v))
	}
}

// openDamaged: refuse = it must be refused; same = it must open with the same content.
func openDamaged(w *W, cfg *Cfg, b []byte, m *Model, refuse, same bool, what string) {
	w.C.Execs++
	w.C.Trans++
	w.C.Traces++
	st, err := tryOpen(w, b)
	p := filepath.Join(w.Dir, "h.lusf")
	if err != nil {
		w.Outcome("refused")
		if same {
			w.Failf("%s: open failed: %v", what, err)
		}
		if !bytes.Equal(rawRead(p), b) {
			w.Failf("%s: the refused open changed the file", what)
		}
		// the lock is gone
		rawWriteFile(p, tmplFor(w, cfg))
		if st, err := storage.OpenCannylsStorage(p); err != nil {
			w.Failf("%s: a good store at the path of the refused one does not open: %v", what, err)
		} else {
			st.Close()
		}
		rawRemove(p)
		return
	}
	defer rawRemove(p)
	defer st.Close()
	if refuse {
		w.Failf("%s: the store was opened (%d lumps)", what, len(st.List()))
	}
	w.Outcome("opened")
	if same {
		if l := st.List(); len(l) != len(m.m) {
			w.Failf("%s: lumps %v", what, idsOf(l))
		}
	}
	for _, k := range st.List() {
		v := m.m[k.U64()]
		got, err := st.Get(k)
		if err != nil {
			if same {
				w.Failf("%s: lump %v: %v", what, k, err)
			}
			continue
		}
		if v == nil || !bytes.Equal(got, v.b) {
			if same {
				w.Failf("%s: lump %v has wrong bytes", what, k)
			}
		}
	}
}

func tmplFor(w *W, cfg *Cfg) []byte { img, _ := hdrImage(w, cfg); return img }

// runHeaderField: multi-byte values of the numeric header fields.
func runHeaderField(w *W, cfg *Cfg, i int) {
	img, m := hdrImage(w, cfg)
	b := append([]byte(nil), img...)
	jr, dr := binary.BigEndian.Uint64(img[28:]), binary.BigEndian.Uint64(img[36+0:])
	type fv struct {
		what   string
		set    func()
		refuse bool
	}
	var l []fv
	u16 := func(off int, name string, want uint16) {
		for _, v := range []uint16{0, 1, 2, 3, 39, 40, 41, 46, 255, 256, 511, 512, 513, 1000, 1024, 1536, 4096, 32768, 65024, 65535} {
			v := v
			if v == want {
				continue
			}
			l = append(l, fv{fmt.Sprintf("%s set to %d", name, v), func() { binary.BigEndian.PutUint16(b[off:], v) }, true})
		}
	}
	u16(4, "header size", 38)
	u16(6, "major version", 2)
	u16(8, "minor version", 1)
	u16(10, "block size", 512)
	u64 := func(off int, name string, cur uint64) {
		for _, v := range []uint64{0, 1, 2, 100, 256, 511, 512, 513, cur - 1, cur + 1, cur + 256, cur + 100, 1<<40 - 1, 1 << 40, 1<<40 + 512, 1<<49 - 512, 1<<49 + 512, 1 << 62, 1 << 63, ^uint64(0), ^uint64(0) - 511, ^uint64(0) - 1023, ^uint64(0) - 1535} {
			v := v
			// illegal: not block aligned, beyond the format's limits, or too small for a journal
			ref := v%sector != 0
			if off == 28 {
				ref = ref || v > 1<<40-1 || v < 2*sector
			} else {
				ref = ref || v > (1<<40-1)*512
			}
			if !ref && v > 1<<30 {
				continue // legal but huge: not opened here
			}
			if v == cur {
				continue
			}
			l = append(l, fv{fmt.Sprintf("%s set to %d", name, v), func() { binary.BigEndian.PutUint64(b[off:], v) }, ref})
		}
	}
	u64(28, "journal region size", jr)
	u64(36, "data region size", dr)
	for k, f := range l {
		if k%8 != i {
			continue
		}
		copy(b, img)
		f.set()
		w.Beat(f.what)
		openDamaged(w, cfg, b, m, f.refuse, false, f.what)
	}
}

// runTruncate: the file cut to n bytes.
func runTruncate(w *W, cfg *Cfg, n int) {
	img, m := hdrImage(w, cfg)
	if n >= len(img) {
		return
	}
	what := fmt.Sprintf("file of %d bytes truncated to %d", len(img), n)
	// the header and the journal must be complete; a file cut in the data region opens, and
	// the missing lumps are reported as errors
	jend := cfg.journalBytes() + sector
	_ = jend
	refuse := n < 46 || n < lastJournalByte(img, cfg)
	w.Beat(what)
	w.C.Execs++
	w.C.Trans++
	w.C.Traces++
	st, err := tryOpen(w, img[:n])
	p := filepath.Join(w.Dir, "h.lusf")
	defer rawRemove(p)
	if err != nil {
		w.Outcome("refused")
		return
	}
	defer st.Close()
	if refuse {
		w.Failf("%s: opened (%d lumps)", what, len(st.List()))
	}
	for k, v := range m.m {
		got, err := st.Get(lid(k))
		if err == nil && !bytes.Equal(got, v.b) {
			w.Failf("%s: lump %d has wrong bytes", what, k)
		}
		if err != nil && v.embed {
			w.Failf("%s: embedded lump %d: %v", what, k, err)
		}
	}
	w.Outcome("opened")
}

// lastJournalByte: the end of the last nonzero byte of the journal region.
func lastJournalByte(img []byte, cfg *Cfg) int {
	e := int(cfg.journalBytes()) + sector
	if e > len(img) {
		e = len(img)
	}
	for e > 0 && img[e-1] == 0 {
		e--
	}
	return e
}

// two handles: words over create/open/close on one path.
type lockOp struct {
	k byte
	h int
}

func (o lockOp) String() string {
	return map[byte]string{'c': "Create", 'o': "Open", 'x': "Close", 'n': "nvm.Open", 'p': "Put", 's': "CreateSnapshot"}[o.k] + fmt.Sprintf("#%d", o.h)
}

var lockAlpha = []lockOp{{'c', 0}, {'c', 1}, {'o', 0}, {'o', 1}, {'x', 0}, {'x', 1}, {'p', 0}, {'p', 1}, {'n', 0}, {'s', 0}}

func runLock(w *W, ops []lockOp, existing bool) {
	r := &fileRun{w: w, path: filepath.Join(w.Dir, "l.lusf")}
	cleanLusf(w.Dir)
	defer cleanLusf(w.Dir)
	var h [2]*storage.Storage
	var closed [2]bool // closed handles stay closed handles
	defer func() {
		for _, s := range h {
			if s != nil {
				s.Close()
			}
		}
	}()
	exist := existing
	if existing {
		rawWriteFile(r.path, template(w, lockCfg))
	}
	n := 0
	model := map[uint64][]byte{}
	put := func(i int) {
		n++
		b := make([]byte, 100)
		fill(b, n, uint64(n%3))
		if _, err := h[i].Put(lid(uint64(n%3)), lumpData(b)); err != nil {
			r.fail("put: %v", err)
		}
		model[uint64(n%3)] = b
	}
	owner := -1
	for _, o := range ops {
		r.hist = append(r.hist, o.String())
		w.C.Trans++
		switch o.k {
		case 'c':
			if h[o.h] != nil {
				continue
			}
			img := rawRead(r.path)
			st, err := storage.CreateCannylsStorage(r.path, lockCfg.capacity(), lockCfg.ratio())
			if (err == nil) == exist {
				r.fail("%s: %v although the file exists: %v", o, err, exist)
			}
			if err != nil {
				if !bytes.Equal(img, rawRead(r.path)) {
					r.fail("%s: the refused create changed the file", o)
				}
				continue
			}
			h[o.h], exist, owner = st, true, o.h
		case 'o', 'n':
			if h[o.h] != nil && o.k == 'o' {
				continue
			}
			img := rawRead(r.path)
			var err error
			var st *storage.Storage
			var f *nvm.FileNVM
			if o.k == 'o' {
				st, err = storage.OpenCannylsStorage(r.path)
			} else {
				f, _, err = nvm.Open(r.path)
			}
			want := exist && owner < 0
			if (err == nil) != want {
				r.fail("%s: %v although exists=%v, open elsewhere=%v", o, err, exist, owner >= 0)
			}
			if err != nil {
				if !bytes.Equal(img, rawRead(r.path)) {
					r.fail("%s: the refused open changed the file", o)
				}
				continue
			}
			if f != nil {
				f.Close()
				continue
			}
			h[o.h], owner = st, o.h
			if l := st.List(); len(l) != len(model) {
				r.fail("%s: %d lumps, want %d", o, len(l), len(model))
			}
			for k, b := range model {
				if got, err := st.Get(lid(k)); err != nil || !bytes.Equal(got, b) {
					r.fail("%s: lump %d: %v", o, k, err)
				}
			}
		case 'x':
			if h[o.h] != nil {
				h[o.h].Close()
				h[o.h] = nil
				owner = -1
			}
		case 'p':
			if h[o.h] != nil {
				put(o.h)
			}
		case 's':
			if h[o.h] != nil {
				h[o.h].CreateSnapshot()
			}
		}
	}
	_ = closed
	w.C.Execs++
	w.C.Traces++
	if w.Seen(hashStr(fmt.Sprint(owner, exist, len(model), n))) {
		w.C.States++
	}
}

var lockCfg = &Cfg{Name: "lock", Ring: 4, Data: 4}

// names which are refused or collide with other things
func runNames(w *W, i int) {
	r := &fileRun{w: w}
	cleanLusf(w.Dir)
	defer cleanLusf(w.Dir)
	dir := filepath.Join(w.Dir, "sub.lusf")
	os.Mkdir(dir, 0755)
	defer os.Remove(dir)
	cases := []struct {
		path string
		ok   bool
	}{
		{"a.lusf", true}, {"a.txt", false}, {"a", false}, {"", false}, {"nodir/a.lusf", false}, {"sub.lusf", false}, {"sub.lusf/b.lusf", true},
		{"a.lusf.bak", false}, {"a.LUSF", false}, {"with space.lusf", true}, {"a[1]*?.lusf", true}, {"..lusf", true},
	}
	if i >= len(cases) {
		return
	}
	c := cases[i]
	p := filepath.Join(w.Dir, c.path)
	r.hist = append(r.hist, "Create("+c.path+")")
	before := dirList(w.Dir) + "/" + dirList(dir)
	st, err := storage.CreateCannylsStorage(p, lockCfg.capacity(), lockCfg.ratio())
	if (err == nil) != c.ok {
		r.fail("create %q: %v", c.path, err)
	}
	w.C.Trans++
	w.C.Execs++
	w.C.Traces++
	w.C.States++
	if err != nil {
		if st2, err := storage.OpenCannylsStorage(p); err == nil {
			st2.Close()
			r.fail("open %q succeeded", c.path)
		}
		if now := dirList(w.Dir) + "/" + dirList(dir); now != before {
			r.fail("directory changed from %s to %s", before, now)
		}
		return
	}
	st.Close()
	st, err = storage.OpenCannylsStorage(p)
	if err != nil {
		r.fail("open %q: %v", c.path, err)
	}
	st.Close()
	rawRemove(p)
}

func famC20(th bool) []*Family {
	maxBlocks := 40
	if th {
		maxBlocks = 160
	}
	var fs []*Family
	type cr struct {
		c uint64
		r float64
	}
	var l []cr
	for b := 0; b <= maxBlocks; b++ {
		for _, r := range ratios {
			l = append(l, cr{uint64(b) * sector, r})
		}
		for _, d := range []int{1, 100, 511} {
			for _, r := range []float64{0.01, 0.5} {
				l = append(l, cr{uint64(b)*sector + uint64(d), r})
			}
		}
	}
	if th {
		for b := 4; b <= 48; b++ {
			for k := 0; k <= 200; k++ {
				l = append(l, cr{uint64(b) * sector, float64(k) / 200})
			}
		}
	}
	fs = append(fs, &Family{Name: "create", N: len(l), Run: func(w *W, i int) { runCreate(w, l[i].c, l[i].r) }, Desc: func(i int) string { return fmt.Sprintf("Create(%d,%v)", l[i].c, l[i].r) }})
	fs = append(fs, createHugeFam(th))
	cfgs := []*Cfg{{Name: "h1", Ring: 4, Data: 6}, {Name: "h2", Ring: 3, Data: 8}}
	for _, c := range cfgs {
		c := c
		fs = append(fs,
			&Family{Name: "header-byte/" + c.Name, N: 60, Chunk: 1, Run: func(w *W, i int) { runHeaderByte(w, c, i) }, Desc: func(i int) string { return fmt.Sprintf("header byte %d", i) }},
			&Family{Name: "header-field/" + c.Name, N: 8, Chunk: 1, Run: func(w *W, i int) { runHeaderField(w, c, i) }, Desc: func(i int) string { return fmt.Sprintf("header fields, part %d of 8", i) }},
			&Family{Name: "truncate/" + c.Name, N: int(c.capacity()), Run: func(w *W, i int) { runTruncate(w, c, i) }, Desc: func(i int) string { return fmt.Sprintf("truncated to %d", i) }})
	}
	d := 4
	if th {
		d = 5
	}
	for _, ex := range []bool{false, true} {
		ex := ex
		fs = append(fs, &Family{Name: fmt.Sprintf("lock/existing=%v", ex), N: pow(len(lockAlpha), d), Run: func(w *W, i int) { runLock(w, lockWord(i, d), ex) },
			Desc: func(i int) string { return fmt.Sprint(lockWord(i, d)) }})
	}
	fs = append(fs, &Family{Name: "names", N: 12, Run: runNames, Desc: func(i int) string { return fmt.Sprint("name ", i) }})
	return append(fs, famTwo(th)...)
}

func lockWord(i, d int) []lockOp {
	r := make([]lockOp, d)
	for k := d - 1; k >= 0; k-- {
		r[k] = lockAlpha[i%len(lockAlpha)]
		i /= len(lockAlpha)
	}
	return r
}

func init() {
	register(&Check{ID: "C16", Families: famC16, Rule: "states: distinct (device content, cursor, number of views) seen; transitions: operations executed; every word is a trace of the byte array model replayed on the real device, with the whole device compared after each step",
		Assume: []string{"tmpfs accepts the O_DIRECT requests a disk with 512 byte sectors accepts"}})
	register(&Check{ID: "C20", Families: famC20, Rule: "states: distinct region layouts and distinct (owner, content) states of the locking words; transitions: create/open/close calls and damaged images opened",
		Assume: []string{"a header field changed to another legal value (sizes) cannot be recognised: there is no header checksum; only termination without panic is required then"}})
}
