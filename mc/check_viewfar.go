package main

// C16: every way to split a device, devices of more than 4 GiB, transfers of megabytes, and
// the constructors of memory devices.

import (
	"bytes"
	"fmt"
	"io"
	"path/filepath"
	"syscall"

	"github.com/thesues/cannyls-go/nvm"
)

// ---- splits of splits, after the cursor has been moved

func splitsFam() *Family {
	const n = 4 * sector
	prior := [][]vop{{}, {{'s', 0, sector, 0}}, {{'e', 0, 0, 0}}, {{'w', 0, 0, 2 * sector}}, {{'r', 0, 0, sector}}, {{'W', 0, sector, sector}, {'s', 0, 2 * sector, 0}}}
	first := []int{0, 100, 511, 512, 513, 1024, 1536, 2047, 2048, 2049, 2560, 1 << 20}
	second := []int{-1, 0, 511, 512, 1024, 1536, 2048, 2560}
	per := len(prior) * len(first) * len(second) * 2
	dec := func(i int) (kind int, p []vop, f, s, v int) {
		kind = i / per
		i %= per
		v = 1 + i%2
		i /= 2
		s = second[i%len(second)]
		i /= len(second)
		f = first[i%len(first)]
		p = prior[i/len(first)]
		return
	}
	return &Family{Name: "splits", N: devKinds * per, Run: func(w *W, i int) {
		kind, p, f, s, v := dec(i)
		d := newDevRun(w, kind, 4, 3, nil)
		defer d.end()
		for _, o := range p {
			d.apply(o)
		}
		d.check()
		d.split(0, f)
		d.check()
		if len(d.views) == 3 && s >= 0 {
			// the cursor of a view does not move the views split from it
			if d.views[v].hi-d.views[v].lo >= sector {
				d.apply(vop{'s', v, sector, 0})
			}
			d.split(v, s)
			d.check()
		}
		for k := range d.views {
			for _, o := range []vop{{'w', k, 0, sector}, {'R', k, 0, n}, {'W', k, d.views[k].hi - d.views[k].lo - sector, 2 * sector}, {'r', k, 0, sector}, {'s', k, 0, 0}, {'w', k, 0, n + sector}, {'e', k, -sector, 0}, {'r', k, 0, n}} {
				d.apply(o)
				d.check()
			}
		}
		// closing a view closes nothing
		for k := 1; k < len(d.views); k++ {
			d.apply(vop{'x', k, 0, 0})
		}
		d.apply(vop{'W', 0, 0, sector})
		d.check()
		w.C.Execs++
		w.C.Traces++
	}, Desc: func(i int) string {
		kind, p, f, s, v := dec(i)
		return fmt.Sprintf("%s, %v, split at %d, view %c at %d", devNames[kind], p, f, 'a'+v, s)
	}}
}

// ---- memory devices of every size

func memNewFam() *Family {
	return &Family{Name: "memory-new", N: 2100, Run: func(w *W, n int) {
		w.C.Execs++
		w.C.Trans += 2
		for k := 0; k < 2; k++ {
			var m *nvm.MemoryNVM
			var err error
			src := make([]byte, n)
			pattern(src, 3)
			if k == 0 {
				m, err = nvm.New(uint64(n))
				src = make([]byte, n)
			} else {
				m, err = nvm.NewFromVec(src)
			}
			if n%sector != 0 {
				if err == nil {
					w.Failf("a memory device of %d bytes was created (%d)", n, k)
				}
				continue
			}
			if err != nil || m.Capacity() != uint64(n) || m.Position() != 0 {
				w.Failf("a memory device of %d bytes (%d): %v", n, k, err)
			}
			b := alignedBuf(n + sector)
			got, err := m.ReadAt(b, 0)
			if n == 0 {
				if got != 0 {
					w.Failf("an empty device returned %d bytes", got)
				}
				continue
			}
			if got != n || err != nil || !bytes.Equal(b[:n], src) {
				w.Failf("a memory device of %d bytes (%d) reads %d bytes, %v", n, k, got, err)
			}
		}
	}, Desc: func(n int) string { return fmt.Sprintf("memory device of %d bytes", n) }}
}

// ---- large files and large transfers

type farView struct {
	d      nvm.NonVolatileMemory
	lo, hi int
	pos    int
}

type farViews struct {
	w     *W
	path  string
	size  int
	m     map[int][]byte // sectors written
	views []*farView
	hist  []string
	seq   int
}

func (d *farViews) fail(f string, a ...interface{}) {
	d.w.Failf("%s\n  file of %d bytes; after %v", fmt.Sprintf(f, a...), d.size, d.hist)
}

func (d *farViews) at(off int) []byte {
	if b := d.m[off]; b != nil {
		return b
	}
	return make([]byte, sector)
}

// write notes the sectors of b at off.
func (d *farViews) write(b []byte, off int) {
	for k := 0; k < len(b); k += sector {
		d.m[off+k] = append([]byte(nil), b[k:k+sector]...)
	}
}

// checkAround compares the sectors around [off, off+n) and where they would be if the
// offset was cut or extended.
func (d *farViews) check(off, n int) {
	b := alignedBuf(sector)
	look := func(p int) {
		if p < 0 || p+sector > d.size {
			return
		}
		for i := range b {
			b[i] = 0
		}
		rawReadAt(d.path, b, int64(p))
		if !bytes.Equal(b, d.at(p)) {
			d.fail("the device is wrong at %d", p)
		}
	}
	var l []int
	for k := -sector; k <= n; k += sector {
		if k <= 2*sector || k >= n-2*sector {
			l = append(l, off+k)
		}
	}
	for _, p := range l {
		look(p)
		if p < 0 {
			continue
		}
		for _, e := range []uint{31, 32, 33} {
			look(p & (1<<e - 1))
			look(p ^ 1<<e)
			look(p + 1<<e)
			look(p - 1<<e)
		}
	}
	for i, v := range d.views {
		if v.d.Position() != uint64(v.pos) || v.d.Capacity() != uint64(v.hi-v.lo) {
			d.fail("view %c: position %d capacity %d, want %d %d", 'a'+i, v.d.Position(), v.d.Capacity(), v.pos, v.hi-v.lo)
		}
	}
}

func (d *farViews) split(vi, pos int) {
	v := d.views[vi]
	d.hist = append(d.hist, fmt.Sprintf("%c.Split(%d)", 'a'+vi, pos))
	l, r, err := v.d.Split(uint64(pos))
	if err != nil {
		d.fail("split: %v", err)
	}
	d.views = append(d.views, &farView{d: l, lo: v.lo, hi: v.lo + pos}, &farView{d: r, lo: v.lo + pos, hi: v.hi})
}

// step: a transfer of n bytes at off of the view, by position or by cursor.
func (d *farViews) step(vi, off, n int, write bool, how int) {
	d.w.C.Trans++
	v := d.views[vi]
	size := v.hi - v.lo
	if off < 0 || off > size {
		return
	}
	d.hist = append(d.hist, fmt.Sprintf("%c: write=%v %d at %d (way %d)", 'a'+vi, write, n, off, how))
	b := alignedBuf(n)
	d.seq++
	pattern(b, d.seq*5)
	want := n
	if off+n > size {
		want = size - off
	}
	var got int
	var err error
	if how > 0 {
		var p int64
		switch how {
		case 1:
			p, err = v.d.Seek(int64(off), io.SeekStart)
		case 2:
			p, err = v.d.Seek(int64(off-v.pos), io.SeekCurrent)
		case 3:
			p, err = v.d.Seek(int64(off-size), io.SeekEnd)
		}
		if err != nil || p != int64(off) {
			d.fail("seek: %d %v", p, err)
		}
		v.pos = off
		if write {
			got, err = v.d.Write(b)
		} else {
			got, err = v.d.Read(b)
		}
		if got > 0 {
			v.pos += got
		}
	} else if write {
		got, err = v.d.WriteAt(b, int64(off))
	} else {
		got, err = v.d.ReadAt(b, int64(off))
	}
	if got > want {
		d.fail("%d bytes transferred, the view has %d", got, want)
	}
	if err == nil && got != want || want == n && (got != n || err != nil) || want == 0 && got > 0 {
		d.fail("%d of %d bytes transferred, %d are in the view: %v", got, n, want, err)
	}
	if got > 0 && got%sector == 0 {
		if write {
			d.write(b[:got], v.lo+off)
		} else {
			for k := 0; k < got; k += sector {
				if !bytes.Equal(b[k:k+sector], d.at(v.lo+off+k)) {
					d.fail("read of %d at %d: byte %d.. is wrong", n, off, k)
				}
			}
		}
	}
	d.check(v.lo+off, n)
}

func (d *farViews) open(snap bool) (root nvm.NonVolatileMemory) {
	// reserving space (size kept) has no effect on the content, and the file is huge
	syscall.VerifIO = &syscall.VerifIOHooks{Fallocate: func(fd int, mode uint32, off int64, length int64) (error, bool) { return nil, mode == 1 }}
	defer resetHooks()
	rawRemove(d.path)
	f, err := nvm.CreateIfAbsent(d.path, uint64(d.size))
	if err != nil {
		d.fail("CreateIfAbsent: %v", err)
	}
	root = f
	if snap {
		s, err := nvm.NewSnapshotNVM(f)
		if err != nil {
			d.fail("NewSnapshotNVM: %v", err)
		}
		root = s
	}
	d.views = []*farView{{d: root, hi: d.size}}
	// the file has its full length
	b := alignedBuf(sector)
	pattern(b, 9)
	rawWriteAt(d.path, b, int64(d.size-sector))
	d.write(b, d.size-sector)
	return root
}

type farStep struct {
	view, off, n int
	write        bool
	how          int
}

func farViewFam(th bool) *Family {
	const size = 13 << 30
	lays := [][]int{{0, 512, 2, 4<<30 - 512}, {0, 2 << 30, 2, 2<<30 + 512}, {0, 4 << 30, 2, 4 << 30}, {0, 4<<30 + 512, 1, 2 << 30}, {0, 8 << 30, 1, 4<<30 - 512}, {0, size - 1024, 1, 6 << 30}}
	d2 := 2
	if th {
		d2 = 3
	}
	steps := func(lay int) []farStep {
		var a []farStep
		dims := []int{size, lays[lay][1], size - lays[lay][1]}
		p, q := lays[lay][3], dims[lays[lay][2]]
		dims = append(dims, p, q-p)
		for v, n := range dims {
			if th || v > 2 || v == 0 {
				for _, off := range []int{0, 4 << 30, n - sector} {
					if off < n {
						a = append(a, farStep{v, off, 2 * sector, true, (v + off>>30) % 4}, farStep{v, off, sector, false, (v + 1 + off>>30) % 4})
					}
				}
			}
		}
		return a
	}
	type blk struct{ start, lay, snap int }
	var blks []blk
	tot := 0
	for l := range lays {
		for s := 0; s < 2; s++ {
			blks = append(blks, blk{tot, l, s})
			tot += pow(len(steps(l)), d2)
		}
	}
	dec := func(i int) (blk, []farStep) {
		j := len(blks) - 1
		for blks[j].start > i {
			j--
		}
		i -= blks[j].start
		a := steps(blks[j].lay)
		var r []farStep
		for k := 0; k < d2; k++ {
			r = append(r, a[i%len(a)])
			i /= len(a)
		}
		return blks[j], r
	}
	return &Family{Name: "far", N: tot, Run: func(w *W, i int) {
		b, ops := dec(i)
		d := &farViews{w: w, path: filepath.Join(w.Dir, "w.lusf"), size: size, m: map[int][]byte{}}
		root := d.open(b.snap == 1)
		defer rawRemove(d.path)
		defer root.Close()
		d.split(lays[b.lay][0], lays[b.lay][1])
		d.split(lays[b.lay][2], lays[b.lay][3])
		for _, o := range ops {
			d.step(o.view, o.off, o.n, o.write, o.how)
		}
		// what was written through one view is read through the others
		for vi, v := range d.views {
			for off := range d.m {
				if off >= v.lo && off < v.hi {
					d.step(vi, off-v.lo, sector, false, 0)
				}
			}
		}
		w.C.Execs++
		w.C.Traces++
	}, Desc: func(i int) string {
		b, ops := dec(i)
		return fmt.Sprintf("splits %v, snapshot device %d, %v", lays[b.lay], b.snap, ops)
	}}
}

// transfers of megabytes on a file of 9 MiB
func largeViewFam(th bool) *Family {
	const size = 9<<20 + 1024
	offs := []int{0, 512, 1 << 20, 3<<20 + 512, size - 1<<20, size - 512}
	lens := []int{65536, 1<<20 - 512, 1 << 20, 1<<20 + 512, 4 << 20, 8<<20 + 512, size, size + 512}
	n := len(offs) * len(lens) * 4 * 2 * 2
	dec := func(i int) (off, l, how int, snap, split bool) {
		off = offs[i%len(offs)]
		i /= len(offs)
		l = lens[i%len(lens)]
		i /= len(lens)
		return off, l, i % 4, i/4%2 == 1, i/8 == 1
	}
	return &Family{Name: "large", N: n, Run: func(w *W, i int) {
		off, l, how, snap, split := dec(i)
		d := &farViews{w: w, path: filepath.Join(w.Dir, "w.lusf"), size: size, m: map[int][]byte{}}
		root := d.open(snap)
		defer rawRemove(d.path)
		defer root.Close()
		if snap {
			if err := root.(*nvm.SnapNVM).CreateSnapshotIfNeeded(); err != nil {
				d.fail("CreateSnapshotIfNeeded: %v", err)
			}
			defer cleanSnaps(w.Dir)
		}
		vi := 0
		if split {
			d.split(0, 1<<20+512)
			vi = 2
		}
		d.step(vi, off, l, true, how)
		d.step(vi, off, l, false, (how+1)%4)
		d.step(0, 0, size, false, 0)
		d.step(vi, off/2/sector*sector, l, true, (how+2)%4)
		d.step(0, 0, size, false, 1)
		w.C.Execs++
		w.C.Traces++
	}, Desc: func(i int) string {
		off, l, how, snap, split := dec(i)
		return fmt.Sprintf("%d bytes at %d, way %d, snapshot %v, view %v", l, off, how, snap, split)
	}}
}
