package main

// Snapshots: C11 (a snapshot is a frozen image).  Two levels: the snapshot device on its own
// (nvm), with every word of writes, reader calls, deletes and reopens over files of several
// copy-on-write regions; and the store, where the image must also open to the lumps of the
// moment it was taken.

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"

	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/storage"
)

const region = 1 << 20

func init() {
	nvm.DEFAULT_REGION_SHIFT = 20
}

// ---------------------------------------------------------------- device level

type snOp struct {
	k   byte
	v   int // view / reader
	off int
	n   int
}

func (o snOp) String() string {
	switch o.k {
	case 'w':
		return fmt.Sprintf("view%d.WriteAt(%d,+%d)", o.v, o.off, o.n)
	case 'c':
		return fmt.Sprintf("view%d.Seek(%d);Write(+%d)", o.v, o.off, o.n)
	case 's':
		return "CreateSnapshot"
	case 'd':
		return "DeleteSnapshot"
	case 'r':
		return fmt.Sprintf("reader%d=GetSnapshotReader", o.v)
	case 'R':
		return fmt.Sprintf("reader%d.Read(%d)", o.v, o.n)
	case 'k':
		return fmt.Sprintf("reader%d.Seek(%d,%d)", o.v, o.off, o.n)
	case 'Y':
		return "Sync"
	case 'O':
		return "Reopen"
	}
	return string(o.k)
}

func snString(ops []snOp) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.String())
	}
	return strings.Join(s, "; ")
}

type snReader struct {
	r    *nvm.SnapshotReader
	exp  []byte
	pos  int
	dead bool // the snapshot was deleted or the store closed: errors are fine
	lost bool // position unknown after an error
}

type snDev struct {
	w     *W
	path  string
	dev   *nvm.SnapNVM
	view  [3]nvm.NonVolatileMemory // whole, left, right
	base  [3]int
	split int
	live  []byte // the file
	snap  []byte // the snapshot, nil: none
	rd    [2]*snReader
	seq   int
	hist  []snOp
}

func (d *snDev) fail(f string, a ...interface{}) {
	d.w.Failf("%s\n  after %s", fmt.Sprintf(f, a...), snString(d.hist))
}

type snGeo struct {
	name  string
	total int // bytes
	phys  int // size of the file (0: total)
	split int
}

var snTmpl = map[int][]byte{}

func snTemplate(w *W, total int) []byte {
	if b := snTmpl[total]; b != nil {
		return b
	}
	c := &Cfg{Ring: 8, Data: total/sector - 10}
	b := template(w, c)
	b = append(append([]byte(nil), b...), make([]byte, total-len(b))...)
	for i := 4096 * 2; i < total; i += 512 {
		fill(b[i:i+512], 5, uint64(i))
	}
	snTmpl[total] = b
	return b
}

func newSnDev(w *W, g *snGeo) *snDev {
	img := snTemplate(w, g.total)
	if g.phys > 0 {
		img = img[:g.phys]
	}
	d := &snDev{w: w, path: w.Dir + "/n.lusf", split: g.split, live: append([]byte(nil), img...)}
	cleanSnaps(w.Dir)
	rawWriteFile(d.path, img)
	d.open()
	return d
}

func (d *snDev) open() {
	f, _, err := nvm.Open(d.path)
	if err != nil {
		d.fail("open: %v", err)
	}
	s, err := nvm.NewSnapshotNVM(f)
	if err != nil {
		d.fail("NewSnapshotNVM: %v", err)
	}
	a, b, err := s.Split(uint64(d.split))
	if err != nil {
		d.fail("Split: %v", err)
	}
	d.dev = s
	d.view = [3]nvm.NonVolatileMemory{s, a, b}
	d.base = [3]int{0, 0, d.split}
}

func (d *snDev) close() {
	if d.dev != nil {
		d.dev.Close()
		d.dev = nil
	}
}

func (d *snDev) kill() {
	for _, r := range d.rd {
		if r != nil {
			r.dead = true
		}
	}
}

func alignedBuf(n int) []byte { return block.NewAlignedBytes(n, block.Min()).AsBytes() }

func (d *snDev) apply(o snOp) {
	d.hist = append(d.hist, o)
	d.w.C.Trans++
	switch o.k {
	case 'w', 'c':
		d.seq++
		b := alignedBuf(o.n)
		fill(b, d.seq, uint64(o.off))
		var n int
		var err error
		if o.k == 'w' {
			n, err = d.view[o.v].WriteAt(b, int64(o.off))
		} else {
			if _, err = d.view[o.v].Seek(int64(o.off), io.SeekStart); err == nil {
				n, err = d.view[o.v].Write(b)
			}
		}
		if err != nil || n != len(b) {
			d.fail("%s: n=%d err=%v", o, n, err)
		}
		at := d.base[o.v] + o.off
		if at+o.n > len(d.live) {
			d.live = append(d.live, make([]byte, at+o.n-len(d.live))...)
		}
		copy(d.live[at:], b)
	case 's':
		err := d.dev.CreateSnapshotIfNeeded()
		if d.snap == nil && err != nil {
			d.fail("%s: %v", o, err)
		}
		if d.snap == nil {
			d.snap = append([]byte(nil), d.live...)
		}
	case 'd':
		if err := d.dev.DeleteSnapshot(); err != nil {
			d.fail("%s: %v", o, err)
		}
		if d.snap != nil {
			d.kill()
		}
		d.snap = nil
	case 'r':
		r, err := d.dev.GetSnapshotReader()
		if err != nil {
			d.fail("%s: %v", o, err)
		}
		if d.snap == nil {
			d.snap = append([]byte(nil), d.live...)
		}
		d.rd[o.v] = &snReader{r: r, exp: d.snap}
	case 'R':
		d.read(d.rd[o.v], o)
	case 'k':
		d.seek(d.rd[o.v], o)
	case 'Y':
		if err := d.dev.Sync(); err != nil {
			d.fail("%s: %v", o, err)
		}
	case 'O':
		d.close()
		d.kill()
		d.open()
	}
}

func (d *snDev) read(r *snReader, o snOp) {
	if r == nil {
		return
	}
	p := make([]byte, o.n)
	n, err := r.r.Read(p)
	if r.lost {
		// the snapshot is gone: wrong bytes would be, errors are not, a violation
		if n > 0 && !bytes.Contains(r.exp, p[:minInt(n, 64)]) {
			d.fail("%s returned bytes which are not in the snapshot", o)
		}
		return
	}
	if n > len(p) || r.pos+n > len(r.exp) || !bytes.Equal(p[:n], r.exp[r.pos:r.pos+n]) {
		d.fail("%s at %d returned %d bytes which are not those of the snapshot (size %d)", o, r.pos, n, len(r.exp))
	}
	r.pos += n
	if r.dead {
		r.lost = err != nil
		return
	}
	if r.pos == len(r.exp) && n == 0 && len(p) > 0 {
		if err != io.EOF {
			d.fail("%s at the end: %v", o, err)
		}
		return
	}
	if err != nil && !(err == io.EOF && r.pos == len(r.exp)) {
		d.fail("%s at %d: n=%d %v", o, r.pos, n, err)
	}
	if n == 0 && len(p) > 0 {
		d.fail("%s at %d of %d returned nothing", o, r.pos, len(r.exp))
	}
}

func (d *snDev) seek(r *snReader, o snOp) {
	if r == nil {
		return
	}
	to := o.off
	switch o.n {
	case io.SeekCurrent:
		to += r.pos
	case io.SeekEnd:
		to += len(r.exp)
	}
	got, err := r.r.Seek(int64(o.off), o.n)
	if r.dead {
		if err != nil {
			r.lost = true
		} else if !r.lost {
			r.pos = to
		}
		return
	}
	if err != nil {
		if to >= 0 && to <= len(r.exp) {
			d.fail("%s to %d of %d: %v", o, to, len(r.exp), err)
		}
		return
	}
	if int(got) != to || to < 0 {
		d.fail("%s: went to %d, want %d", o, got, to)
	}
	r.pos = to
}

// check: the file, the snapshot read in pieces of n bytes, everything again after reopen.
func (d *snDev) check(n int) {
	if b := rawRead(d.path); !bytes.Equal(b, d.live) {
		d.fail("the live file has %d bytes, want %d; equal prefix %d", len(b), len(d.live), commonPrefix(b, d.live))
	}
	if d.snap == nil {
		if l := snapFiles(d.w.Dir); len(l) > 0 {
			d.fail("no snapshot, but the files %v", l)
		}
		return
	}
	r, err := d.dev.GetSnapshotReader()
	if err != nil {
		d.fail("GetSnapshotReader: %v", err)
	}
	d.readAll(r, n)
}

func (d *snDev) readAll(r io.Reader, n int) {
	b, err := readSnap(r, n, len(d.snap))
	if err != nil {
		d.fail("reading the snapshot in pieces of %d: %v after %d bytes", n, err, len(b))
	}
	if !bytes.Equal(b, d.snap) {
		d.fail("the snapshot reads as %d bytes, want %d; equal prefix %d", len(b), len(d.snap), commonPrefix(b, d.snap))
	}
}

func readSnap(r io.Reader, n, size int) ([]byte, error) {
	out := make([]byte, 0, size+n)
	for {
		if cap(out)-len(out) < n {
			return out, fmt.Errorf("more than %d bytes", size)
		}
		k, err := r.Read(out[len(out) : len(out)+n])
		if k < 0 || k > n {
			return out, fmt.Errorf("Read(%d) returned %d", n, k)
		}
		out = out[:len(out)+k]
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		if k == 0 {
			return out, fmt.Errorf("Read(%d) returned 0 bytes and no error", n)
		}
		if len(out) > size {
			return out, fmt.Errorf("more than %d bytes", size)
		}
	}
}

func snapFiles(dir string) []string {
	var r []string
	l, _ := os.ReadDir(dir)
	for _, e := range l {
		if strings.Contains(e.Name(), "lusf.snapshot") {
			r = append(r, e.Name())
		}
	}
	return r
}

func (d *snDev) hash() uint64 {
	h := fastHash(d.live) ^ 7
	if d.snap != nil {
		h = h*31 + fastHash(d.snap)
	}
	for _, r := range d.rd {
		if r != nil {
			h = h*31 + uint64(r.pos)*2 + 1
			if r.dead {
				h++
			}
		}
	}
	return h
}

var snPieces = []int{region, 700001, region + 1, 3 << 20, 65536}

func runSn(w *W, g *snGeo, pre, ops []snOp, idx int) {
	d := newSnDev(w, g)
	defer d.close()
	for _, o := range pre {
		d.apply(o)
	}
	for _, o := range ops {
		d.apply(o)
		if w.Seen(d.hash()) {
			w.C.States++
		}
	}
	d.check(snPieces[idx%len(snPieces)])
	d.close()
	d.kill()
	d.open()
	d.hist = append(d.hist, snOp{k: 'O'})
	d.check(snPieces[(idx+1)%len(snPieces)])
	w.C.Execs++
	w.C.Traces++
}

func snWords(alpha []snOp, d int) [][]snOp {
	var all, last [][]snOp
	last = [][]snOp{{}}
	for i := 0; i < d; i++ {
		var next [][]snOp
		for _, p := range last {
			for _, o := range alpha {
				next = append(next, append(append([]snOp{}, p...), o))
			}
		}
		all = append(all, next...)
		last = next
	}
	return all
}

func snAlpha(g *snGeo) []snOp {
	t := g.total
	a := []snOp{{k: 's'}, {k: 'd'}, {k: 'r'}, {k: 'r', v: 1}, {k: 'O'}, {k: 'Y'},
		{k: 'R', n: 70000}, {k: 'R', n: region + 5}, {k: 'k', off: t - 700, n: io.SeekStart}, {k: 'R', v: 1, n: region},
		{k: 'w', off: 512, n: 512}, {k: 'w', off: t - 512, n: 512}}
	if t > region {
		a = append(a, snOp{k: 'w', off: region - 512, n: 1024}, snOp{k: 'k', off: region - 100, n: io.SeekStart}, snOp{k: 'c', off: region, n: 512})
	}
	if t > 2*region {
		a = append(a, snOp{k: 'w', off: region, n: region}, snOp{k: 'w', off: 512, n: t - 512})
	}
	if g.split > 0 {
		a = append(a, snOp{k: 'w', v: 2, off: 0, n: 512}, snOp{k: 'w', v: 1, off: g.split - 512, n: 512}, snOp{k: 'c', v: 2, off: 1024, n: 1024}, snOp{k: 'w', v: 2, off: t - g.split - 512, n: 512}, snOp{k: 'c', v: 1, off: 1024, n: 512})
	}
	var r []snOp
	for _, o := range a {
		end := o.off + o.n
		if o.v == 2 {
			end += g.split
		}
		if (o.k == 'w' || o.k == 'c') && (end > t || o.v == 1 && end > g.split || o.v != 2 && o.off < 512) {
			continue
		}
		r = append(r, o)
	}
	return r
}

func snFam(g *snGeo, name string, pre []snOp, d int) *Family {
	words := snWords(snAlpha(g), d)
	return &Family{Name: "device/" + g.name + "/" + name, N: len(words), Run: func(w *W, i int) { runSn(w, g, pre, words[i], i) },
		Desc: func(i int) string { return snString(append(append([]snOp{}, pre...), words[i]...)) }}
}

// seeks and reads in every order on a snapshot with copied and uncopied regions
func runSeeks(w *W, g *snGeo, idx int) {
	pos := snPos(g.total)
	d := newSnDev(w, g)
	defer d.close()
	for _, o := range []snOp{{k: 'w', off: 1024, n: 512}, {k: 's'}, {k: 'w', off: 512, n: 512}, {k: 'w', off: g.total - 512, n: 512}, {k: 'r'}} {
		d.apply(o)
	}
	h := d.hist
	p0 := pos[idx/len(snLens)%len(pos)]
	n0 := snLens[idx%len(snLens)]
	wh := idx / len(snLens) / len(pos)
	for _, p1 := range pos {
		for _, n1 := range snLens {
			d.hist = h
			to := p1
			switch wh {
			case io.SeekCurrent:
				to = p1 - minInt(p0+n0, g.total)
			case io.SeekEnd:
				to = p1 - g.total
			}
			for _, o := range []snOp{{k: 'k', off: p0}, {k: 'R', n: n0}, {k: 'k', off: to, n: wh}, {k: 'R', n: n1}, {k: 'R', n: 1}} {
				d.apply(o)
			}
			w.C.Execs++
		}
	}
	for _, o := range []snOp{{k: 'k', off: -1}, {k: 'R', n: 5}, {k: 'k', off: g.total + 1}, {k: 'R', n: 5}, {k: 'k', off: 1, n: io.SeekEnd}, {k: 'R', n: 5}, {k: 'k', off: -g.total - 1, n: io.SeekEnd}, {k: 'R', n: 5}, {k: 'R', n: 0}} {
		if d.rd[0].pos == g.total {
			break
		}
		d.apply(o)
		if o.k == 'k' && d.rd[0].pos > g.total {
			d.rd[0].pos = g.total
			break
		}
	}
	w.C.Traces++
}

var snLens = []int{1, 512, region - 1, region, region + 1, 3 * region}

func snPos(t int) []int {
	r := []int{0, 1, 511, 512}
	for x := region; x < t; x += region {
		r = append(r, x-1, x, x+1)
	}
	return append(r, t-1, t)
}

// every region of files of many regions, with all region sizes the format allows; the size is
// another one when the snapshot is opened again
type regGeo struct {
	shift, n, tail int
	order          int
}

func (g regGeo) String() string {
	return fmt.Sprintf("regions of 1<<%d, %d of them + %d bytes, order %d", g.shift, g.n, g.tail, g.order)
}

func regGeos(th bool) []regGeo {
	var r []regGeo
	add := func(shift, n, tail, orders int) {
		for o := 0; o < orders; o++ {
			r = append(r, regGeo{shift, n, tail, o})
		}
	}
	for _, n := range []int{1, 3, 41, 42, 43} {
		add(20, n, 0, 4)
		add(20, n, 512, 4)
	}
	add(20, 85, 0, 2)
	add(20, 85, 4096, 2)
	for _, t := range []int{0, 512} {
		add(21, 3, t, 4)
		add(21, 43, t, 1)
		add(22, 3, t, 3)
		add(23, 3, t, 2)
		add(24, 2, t, 2)
		add(25, 2, t, 2)
	}
	if th {
		for n := 2; n <= 90; n++ {
			add(20, n, 0, 4)
			add(20, n, 512, 4)
			add(20, n, region-512, 2)
		}
		for _, n := range []int{42, 43, 85, 86} {
			add(21, n, 0, 4)
			add(22, n, 512, 2)
		}
		add(25, 3, 1<<24, 4)
	}
	return r
}

func runRegions(w *W, g regGeo) {
	defer func() { nvm.DEFAULT_REGION_SHIFT = 20 }()
	nvm.DEFAULT_REGION_SHIFT = uint16(g.shift)
	rs := 1 << uint(g.shift)
	total := g.n*rs + g.tail
	img := append([]byte(nil), template(w, &Cfg{Ring: 8, Data: total/sector - 10})...)
	img = append(img, make([]byte, total-len(img))...)
	for i := 4096 * 2; i < total; i += 65536 {
		fill(img[i:minInt(i+512, total)], 5, uint64(i))
	}
	d := &snDev{w: w, path: w.Dir + "/n.lusf", split: 4608, live: img}
	cleanSnaps(w.Dir)
	rawWriteFile(d.path, img)
	d.open()
	defer d.close()
	n := (total + rs - 1) / rs
	var order []int
	switch g.order {
	case 0:
		for i := 0; i < n; i++ {
			order = append(order, i)
		}
	case 1:
		for i := n - 1; i >= 0; i-- {
			order = append(order, i)
		}
	case 2:
		for i := 0; i < n; i += 2 {
			order = append(order, i)
		}
		for i := 1; i < n; i += 2 {
			order = append(order, i)
		}
	case 3:
		for i := 0; i < n; i++ {
			order = append(order, (n/2+i)%n)
		}
	}
	write := func(i, at int) {
		off := i*rs + at
		if off < 512 {
			off = 512
		}
		if off+512 > total {
			off = total - 512
		}
		d.apply(snOp{k: 'w', off: off, n: 512})
	}
	d.apply(snOp{k: 's'})
	d.apply(snOp{k: 'r'})
	d.apply(snOp{k: 'R', n: 70000})
	for k, i := range order {
		if k == n/2 && g.order > 0 {
			nvm.DEFAULT_REGION_SHIFT = 20
			d.apply(snOp{k: 'O'})
		}
		if k == n/2 && n > 2 {
			d.check(rs)
		}
		write(i, k%3*(rs/2-256)/512*512)
	}
	d.check(rs)
	nvm.DEFAULT_REGION_SHIFT = 20
	d.apply(snOp{k: 'O'})
	for _, i := range order {
		write(i, rs/2)
	}
	d.check(700001)
	d.apply(snOp{k: 'd'})
	d.check(rs)
	w.C.Execs++
	w.C.Traces++
}

// ---------------------------------------------------------------- store level

type snapInfo struct {
	img []byte // the file when the snapshot was taken
	m   *Model // the lumps then
}

func (s *SUT) snapOp(op Op) {
	switch op.K {
	case 's':
		err := s.st.CreateSnapshot()
		if s.snap == nil && err != nil && s.flt.hit() {
			s.lastErr = err
			s.w.Outcome("device-error")
			return
		}
		if s.snap == nil && err != nil {
			s.fail("%s: %v", op, err)
		}
	case 'q':
		if _, err := s.st.GetSnapshotReader(); err != nil {
			if s.flt.hit() {
				s.lastErr = err
				s.w.Outcome("device-error")
				return
			}
			s.fail("%s: %v", op, err)
		}
	case 'd':
		if err := s.st.DeleteSnapshot(); err != nil {
			if s.flt.hit() {
				s.lastErr = err
				s.w.Outcome("device-error")
				return
			}
			s.fail("%s: %v", op, err)
		}
		s.snap = nil
		return
	}
	if s.snap == nil {
		s.snap = &snapInfo{img: rawRead(s.path), m: s.m.clone()}
	}
}

// checkSnap reads the snapshot and opens the image.
func (s *SUT) checkSnap(piece int, open bool) {
	dir := s.w.Dir
	if s.snap == nil {
		if l := snapFiles(dir); len(l) > 0 {
			s.fail("no snapshot, but the files %v", l)
		}
		return
	}
	r, err := s.st.GetSnapshotReader()
	if err != nil {
		s.fail("GetSnapshotReader: %v", err)
	}
	b, err := readSnap(r, piece, len(s.snap.img))
	if err != nil {
		s.fail("reading the snapshot: %v after %d of %d bytes", err, len(b), len(s.snap.img))
	}
	if !bytes.Equal(b, s.snap.img) {
		s.fail("the snapshot reads as %d bytes, want %d; equal prefix %d", len(b), len(s.snap.img), commonPrefix(b, s.snap.img))
	}
	if !open {
		return
	}
	x := &SUT{w: s.w, cfg: s.cfg, path: dir + "/image.lusf", m: s.snap.m.clone(), hist: s.hist, where: "the store opened from the snapshot bytes", lax: true}
	rawWriteFile(x.path, b)
	x.open()
	x.verify()
	x.close()
	rawRemove(x.path)
}

var snapAlpha = []Op{
	{K: 'P', ID: 1, A: 100}, {K: 'P', ID: 2, A: region + 5000}, {K: 'E', ID: 1, A: 40}, {K: 'P', ID: 3, A: 600000}, {K: 'W', ID: 2, A: 700, B: 700000, C: region + 2000}, {K: 'D', ID: 1}, {K: 'D', ID: 2}, {K: 'R', ID: 1, A: 4},
	{K: 'G'}, {K: 'S', A: 3}, {K: 'Y'}, {K: 'F'}, {K: 'O'}, {K: 's'}, {K: 'd'}, {K: 'q'},
}

func snapCfgs() []*Cfg {
	dt := 5*region/2/sector - 10
	base := []Op{{K: 'P', ID: 1, A: 600}, {K: 'P', ID: 2, A: region + 5000}, {K: 'E', ID: 4, A: 90}, {K: 'D', ID: 5}}
	return []*Cfg{
		{Name: "fresh", Ring: 8, Data: dt},
		{Name: "filled", Ring: 8, Data: dt, Pre: base},
		{Name: "snapshot", Ring: 8, Data: dt, Pre: join(base, []Op{{K: 's'}})},
		{Name: "snapshot-changed", Ring: 8, Data: dt, Pre: join(base, []Op{{K: 's'}, {K: 'P', ID: 1, A: 20}, {K: 'Y'}, {K: 'D', ID: 2}})},
		{Name: "small", Ring: 3, Data: 24, Pre: []Op{{K: 'P', ID: 1, A: 600}, {K: 'E', ID: 4, A: 300}, {K: 'E', ID: 4, A: 300}}},
	}
}

func runSnapWord(w *W, cfg *Cfg, ops []Op, idx int) {
	cleanSnaps(w.Dir)
	s := newSUT(w, cfg, template(w, cfg))
	defer s.close()
	s.lax = true
	for _, o := range cfg.Pre {
		s.apply(o)
	}
	for _, o := range ops {
		s.apply(o)
	}
	s.verify()
	s.note()
	s.checkSnap(snPieces[idx%len(snPieces)], true)
	s.apply(Op{K: 'O'})
	s.verify()
	s.checkSnap(snPieces[(idx+2)%len(snPieces)], true)
	w.C.Execs++
	w.C.Traces++
}

// ---------------------------------------------------------------- names

var snapNames = []string{"a.lusf", "b.lusf", "a_b.lusf", "a_.lusf", "_a.lusf", "A.lusf", "a.b.lusf", "a.lusf.lusf", "[ab].lusf", "a*.lusf", "?.lusf", "a b.lusf", ".lusf", "a_lusf.lusf", "a_6ba7b810-9dad-11d1-80b4-00c04fd430c8.lusf", "a_6ba7b810-9dad-11d1-80b4-00c04fd430c8_lusf.lusf", "aa.lusf", "alusf", "a_lusf", "lusf", "alusf.lusf"}

func runSnapNames(w *W, a, b string) {
	dir := w.Dir + "/names"
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	cfg := &Cfg{Name: "names", Ring: 8, Data: 12}
	img := template(w, cfg)
	names := []string{a, b}
	var s [2]*SUT
	for i, n := range names {
		s[i] = &SUT{w: w, cfg: cfg, path: dir + "/" + n, m: newModel(), autoGC: true, seq: i * 1000}
		rawWriteFile(s[i].path, img)
		s[i].open()
		s[i].where = "store " + n
		s[i].apply(Op{K: 'P', ID: uint64(i + 1), A: 300})
	}
	snapCheck := func(i int) {
		r, err := s[i].st.GetSnapshotReader()
		if err != nil {
			s[i].fail("GetSnapshotReader: %v", err)
		}
		if s[i].snap == nil {
			s[i].snap = &snapInfo{img: rawRead(s[i].path), m: s[i].m.clone()}
		}
		b, err := readSnap(r, 100000, len(s[i].snap.img))
		if err != nil || !bytes.Equal(b, s[i].snap.img) {
			s[i].fail("the snapshot reads as %d bytes (%v), want %d; equal prefix %d", len(b), err, len(s[i].snap.img), commonPrefix(b, s[i].snap.img))
		}
	}
	defer func() { s[0].close(); s[1].close() }()
	s[0].apply(Op{K: 's'})
	s[1].apply(Op{K: 'O'}) // must not find the snapshot of the first
	s[1].apply(Op{K: 'P', ID: 7, A: 100})
	s[1].apply(Op{K: 's'})
	for i := range s {
		s[i].apply(Op{K: 'P', ID: uint64(i + 1), A: 200})
		s[i].apply(Op{K: 'E', ID: 9, A: 20})
		s[i].apply(Op{K: 'O'})
		s[i].verify()
	}
	snapCheck(0)
	snapCheck(1)
	s[0].apply(Op{K: 'd'})
	for i := range s {
		s[i].apply(Op{K: 'O'})
		s[i].apply(Op{K: 'P', ID: 3, A: 200})
		s[i].verify()
	}
	snapCheck(1)
	snapCheck(0)
	w.C.Execs++
	w.C.Traces++
}

func famC11(th bool) []*Family {
	var fs []*Family
	d := 2
	if th {
		d = 3
	}
	t := 5 * region / 2
	big := &snGeo{"2.5regions", t, 0, region + 1024}
	geos := []*snGeo{
		{"1region", region, 0, 4608}, {"1region+", region + 512, 0, region}, {"1region-", region - 512, 0, 4608}, {"2regions", 2 * region, 0, region}, {"2regions-", 2*region - 512, 0, region - 512},
		{"short-file", t, region + region/4, 4608}, {"short-file1", t, region, 4608}, {"tiny", 32 * 512, 0, 512},
	}
	pres := map[string][]snOp{"fresh": nil, "snapshot": {{k: 's'}, {k: 'r'}, {k: 'R', n: 70000}},
		"mixed": {{k: 'w', off: 512, n: 512}, {k: 's'}, {k: 'w', off: region, n: 512}, {k: 'r'}, {k: 'R', n: region + 1}, {k: 'O'}, {k: 'r', v: 1}}}
	for _, p := range []string{"fresh", "snapshot", "mixed"} {
		fs = append(fs, snFam(big, p, pres[p], d+1))
		for _, g := range geos {
			if p != "mixed" || g.total > region {
				fs = append(fs, snFam(g, p, pres[p], d))
			}
		}
	}
	fs = append(fs, &Family{Name: "seeks", N: 3 * len(snPos(t)) * len(snLens), Run: func(w *W, i int) { runSeeks(w, big, i) }, Desc: func(i int) string { return "seek and read pairs" }})
	for _, c := range snapCfgs() {
		c := c
		words := wordsUpTo(snapAlpha, d+1)
		fs = append(fs, &Family{Name: "store/" + c.Name, N: len(words), Run: func(w *W, i int) { runSnapWord(w, c, words[i], i) }, Desc: func(i int) string { return opsString(words[i]) }})
	}
	rg := regGeos(th)
	fs = append(fs, &Family{Name: "regions", N: len(rg), Run: func(w *W, i int) { runRegions(w, rg[i]) }, Desc: func(i int) string { return rg[i].String() }})
	n := len(snapNames)
	fs = append(fs, &Family{Name: "names", N: n * n, Run: func(w *W, i int) {
		if i/n != i%n {
			runSnapNames(w, snapNames[i/n], snapNames[i%n])
		}
	}, Desc: func(i int) string { return snapNames[i/n] + " || " + snapNames[i%n] }})
	fs = append(fs, famSnapFar(th)...)
	return append(fs, famSnapConc(th)...)
}

var _ = syscall.O_RDWR
var _ = storage.OpenCannylsStorage

func init() {
	register(&Check{ID: "C11", Families: famC11, Rule: "states: distinct (file, snapshot, reader positions) of the words and distinct scheduler states of the concurrent programs; transitions: calls and scheduling points; traces: words and schedules executed on the real code, each followed by a full read of the snapshot, before and after a reopen",
		Assume: []string{"copy regions of 1 MiB, the smallest the format allows (the default is 32 MiB; the size is a parameter of the code)"}})
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
