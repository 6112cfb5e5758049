package main

// Component checks: every input / operation sequence within the bounds is run on the real
// component (through its exported API) and compared with a reference model.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sort"
	"unsafe"

	"github.com/thesues/cannyls-go/address"
	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/lumpindex"
	"github.com/thesues/cannyls-go/nvm"
	"github.com/thesues/cannyls-go/portion"
	"github.com/thesues/cannyls-go/storage/allocator"
	"github.com/thesues/cannyls-go/storage/journal"
	judy "github.com/thesues/go-judy"
)

// ---------------------------------------------------------------- C13 allocators

type allocModel struct {
	n    int
	used []bool
	live []portion.DataPortion
}

func (m *allocModel) maxRun() int { return maxRun(m.used) }
func (m *allocModel) free() int {
	c := 0
	for _, u := range m.used {
		if !u {
			c++
		}
	}
	return c
}

type allocCtx struct {
	w    *W
	m    *allocModel
	a    allocator.DataPortionAlloc
	hist []string
}

func newAlloc(kind, n int) allocator.DataPortionAlloc {
	if kind == 0 {
		return allocator.BuildJudyAlloc(uint32(n))
	}
	return allocator.BuildBtreeDataPortionAlloc(uint32(n))
}
func emptyAlloc(kind int) allocator.DataPortionAlloc {
	if kind == 0 {
		return allocator.NewJudyAlloc()
	}
	return allocator.NewBtreeAlloc()
}

func (c *allocCtx) fail(f string, a ...interface{}) {
	c.w.Failf("%s\n  %d blocks; after %v; live %v", fmt.Sprintf(f, a...), c.m.n, c.hist, c.m.live)
}

func (c *allocCtx) alloc(k int) {
	c.hist = append(c.hist, fmt.Sprintf("alloc %d", k))
	c.w.C.Trans++
	p, err := c.a.Allocate(uint16(k))
	if err != nil {
		if r := c.m.maxRun(); r >= k {
			c.fail("Allocate(%d) failed (%v) although a run of %d is free", k, err, r)
		}
		if !isErr(err, internalerror.StorageFull) {
			c.fail("Allocate(%d): %v", k, err)
		}
		return
	}
	if int(p.Len) != k {
		c.fail("Allocate(%d) returned %d blocks", k, p.Len)
	}
	for i := p.Start.AsU64(); i < p.End(); i++ {
		if i >= uint64(c.m.n) {
			c.fail("Allocate(%d) returned [%d,%d) outside the region", k, p.Start, p.End())
		}
		if c.m.used[i] {
			c.fail("Allocate(%d) returned [%d,%d), block %d is in use", k, p.Start, p.End(), i)
		}
		c.m.used[i] = true
	}
	c.m.live = append(c.m.live, p)
}

func (c *allocCtx) release(i int) {
	p := c.m.live[i]
	c.hist = append(c.hist, fmt.Sprintf("release [%d,%d)", p.Start, p.End()))
	c.w.C.Trans++
	c.a.Release(p)
	for k := p.Start.AsU64(); k < p.End(); k++ {
		c.m.used[k] = false
	}
	c.m.live = append(append([]portion.DataPortion{}, c.m.live[:i]...), c.m.live[i+1:]...)
}

func (c *allocCtx) check() {
	if f := c.a.FreeCount(); f != uint64(c.m.free()) {
		c.fail("FreeCount %d, want %d", f, c.m.free())
	}
	if s := c.a.MaxSegmentSize(); s != uint64(c.m.maxRun()) {
		c.fail("MaxSegmentSize %d, want %d", s, c.m.maxRun())
	}
	if r, ok := c.a.(interface {
		ReleasedLen(p portion.DataPortion) uint64
	}); ok {
		for _, p := range c.m.live {
			a, b := int(p.Start.AsU64()), int(p.End())
			for a > 0 && !c.m.used[a-1] {
				a--
			}
			for b < c.m.n && !c.m.used[b] {
				b++
			}
			if n := r.ReleasedLen(p); n != uint64(b-a) {
				c.fail("releasing [%d,%d) is said to give a run of %d, want %d", p.Start, p.End(), n, b-a)
			}
		}
	}
	for _, n := range []int{1, 3} {
		v := c.a.GetAllocationBitStatus(uint64(n), uint64(c.m.n))
		if len(v) != c.m.n/n {
			c.fail("allocation map has %d points, want %d", len(v), c.m.n/n)
		}
		for i := range v {
			u := 0
			for k := i * n; k < i*n+n; k++ {
				if c.m.used[k] {
					u++
				}
			}
			if d := v[i] - float64(u)/float64(n); d > 1e-9 || d < -1e-9 {
				c.fail("allocation map point %d of %d blocks is %v, want %d used", i, n, v[i], u)
			}
		}
	}
}

func (c *allocCtx) hash() uint64 {
	b := make([]byte, 0, 2*c.m.n)
	ps := append([]portion.DataPortion{}, c.m.live...)
	sort.Slice(ps, func(i, j int) bool { return ps[i].Start < ps[j].Start })
	for _, p := range ps {
		b = append(b, byte(p.Start), byte(p.Len))
	}
	return hashBytes(b)
}

// refused: an extent with a free block in it is not released a second time.
func (c *allocCtx) refused() {
	for i := 0; i < c.m.n; i++ {
		free := false
		for k := i; k < c.m.n; k++ {
			free = free || !c.m.used[k]
			if !free {
				continue
			}
			c.w.C.Trans++
			if func() (ok bool) {
				defer func() { ok = recover() == nil }()
				c.a.Release(portion.NewDataPortion(uint64(i), uint16(k-i+1)))
				return
			}() {
				c.fail("the release of [%d,%d), a part of which is free, was accepted", i, k+1)
			}
			c.check()
		}
	}
}

// finish: everything is released; then the whole region is one extent.
func (c *allocCtx) finish() {
	for len(c.m.live) > 0 {
		c.release(len(c.m.live) / 2)
		c.check()
	}
	c.alloc(c.m.n)
	if len(c.m.live) != 1 {
		c.fail("the whole region cannot be allocated after everything was released")
	}
	c.check()
}

func runAllocWord(w *W, kind, n int, sizes []int, d, idx int) {
	c := &allocCtx{w: w, m: &allocModel{n: n, used: make([]bool, n)}, a: newAlloc(kind, n)}
	defer c.a.Free()
	base := len(sizes) + n
	for i := 0; i < d; i++ {
		o := idx % base
		idx /= base
		if o < len(sizes) {
			c.alloc(sizes[o])
		} else if o-len(sizes) < len(c.m.live) {
			c.release(o - len(sizes))
		} else {
			break // no such extent: the word is the same as a shorter one
		}
		c.check()
		if w.Seen(c.hash()) {
			w.C.States++
		}
	}
	c.finish()
	w.C.Execs++
	w.C.Traces++
}

// layouts of n blocks: a sequence of tiles, each (length, used)
func layouts(n int, maxTile int) [][]int { // positive: used tile, negative: free tile
	var res [][]int
	var rec func(left int, cur []int)
	rec = func(left int, cur []int) {
		if left == 0 {
			res = append(res, append([]int{}, cur...))
			return
		}
		for k := 1; k <= left && k <= maxTile; k++ {
			rec(left-k, append(cur, k))
			rec(left-k, append(cur, -k))
		}
	}
	rec(n, nil)
	return res
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var res [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			res = append(res, q)
		}
	}
	return res
}

// runLayout reaches a layout by allocating all tiles and releasing the free ones in every
// order, and by both rebuilds, and tries every operation there.
func runLayout(w *W, kind int, n int, lay []int, sizes []int) {
	var freeTiles []int
	var livePs []portion.DataPortion
	at := 0
	for i, t := range lay {
		if t < 0 {
			freeTiles = append(freeTiles, i)
			at -= t
		} else {
			livePs = append(livePs, portion.NewDataPortion(uint64(at), uint16(t)))
			at += t
		}
	}
	probe := func(mk func() *allocCtx) {
		// one allocator per pair of operations
		c := mk()
		c.check()
		if w.Seen(c.hash()) {
			w.C.States++
		}
		c.refused()
		c.a.Free()
		var ops []func(*allocCtx)
		for _, k := range sizes {
			k := k
			ops = append(ops, func(c *allocCtx) { c.alloc(k) })
		}
		for i := range c.m.live {
			i := i
			ops = append(ops, func(c *allocCtx) {
				if i < len(c.m.live) {
					c.release(i)
				}
			})
		}
		for _, o1 := range ops {
			for _, o2 := range ops {
				c := mk()
				o1(c)
				c.check()
				o2(c)
				c.check()
				c.a.Free()
				w.C.Execs++
			}
		}
		c = mk()
		c.finish()
		c.a.Free()
		w.C.Execs++
	}
	// by operations
	if len(freeTiles) <= 5 {
		perms := permutations(len(freeTiles))
		for pi, p := range perms {
			mk := func() *allocCtx {
				c := &allocCtx{w: w, m: &allocModel{n: n, used: make([]bool, n)}, a: newAlloc(kind, n)}
				all := map[int]portion.DataPortion{}
				for i, t := range lay {
					k := t
					if k < 0 {
						k = -k
					}
					c.alloc(k)
					if len(c.m.live) != i+1 {
						c.fail("a fresh region of %d blocks cannot be filled", n)
					}
					all[i] = c.m.live[i]
				}
				for _, x := range p {
					for k, l := range c.m.live {
						if l == all[freeTiles[x]] {
							c.release(k)
							break
						}
					}
				}
				return c
			}
			if pi == 0 {
				probe(mk)
			} else {
				c := mk()
				c.check()
				c.finish()
				c.a.Free()
				w.C.Execs++
			}
		}
	}
	// by rebuilding
	fresh := func() *allocCtx {
		c := &allocCtx{w: w, m: &allocModel{n: n, used: make([]bool, n), live: append([]portion.DataPortion{}, livePs...)}, a: emptyAlloc(kind)}
		for _, p := range livePs {
			for k := p.Start.AsU64(); k < p.End(); k++ {
				c.m.used[k] = true
			}
		}
		c.hist = []string{"rebuilt"}
		return c
	}
	for _, rev := range []bool{false, true} {
		rev := rev
		probe(func() *allocCtx {
			c := fresh()
			vec := append([]portion.DataPortion{portion.NewDataPortion(0, 0)}, livePs...)
			if rev {
				for i, j := 0, len(vec)-1; i < j; i, j = i+1, j-1 {
					vec[i], vec[j] = vec[j], vec[i]
				}
			}
			c.a.RestoreFromIndex(block.Min(), uint64(n)*512, vec)
			return c
		})
	}
	if kind == 0 {
		probe(func() *allocCtx {
			c := fresh()
			j := &judy.Judy1{}
			j.Set(0)
			for _, p := range livePs {
				j.Set(p.Start.AsU64()<<24 | uint64(p.Len))
			}
			c.a.(*allocator.JudyPortionAlloc).RestoreFromIndexWithJudy(block.Min(), uint64(n)*512, j)
			return c
		})
	}
	w.C.Traces++
}

// big regions: sizes around the 24-bit length limit of a free portion.
func runBigAlloc(w *W, kind, ci, wi int) {
	caps := []uint64{1 << 16, 1<<24 - 2, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<24 + 70000, 1<<25 - 2, 1<<25 - 1, 1 << 25, 1<<26 + 5}
	total := caps[ci]
	// occupied extents given as (start from the front or end, len)
	occs := [][]portion.DataPortion{nil, {portion.NewDataPortion(0, 5)}, {portion.NewDataPortion(total-5, 5)}, {portion.NewDataPortion(total/2, 32767)}, {portion.NewDataPortion(3, 1), portion.NewDataPortion(total-3, 2)}}
	a := emptyAlloc(kind)
	defer a.Free()
	used := append([]portion.DataPortion{}, occs[wi]...)
	nused := uint64(0)
	for _, p := range used {
		nused += uint64(p.Len)
	}
	a.RestoreFromIndex(block.Min(), total*512, append([]portion.DataPortion{portion.NewDataPortion(0, 0)}, used...))
	sizes := []int{65535, 1, 65535, 40000, 65535, 2, 65534}
	check := func() {
		if a.FreeCount() != total-nused {
			w.Failf("region of %d blocks: FreeCount %d, want %d", total, a.FreeCount(), total-nused)
		}
	}
	overlap := func(p portion.DataPortion) {
		if p.End() > total {
			w.Failf("region of %d blocks: allocated [%d,%d)", total, p.Start, p.End())
		}
		for _, q := range used {
			if p.Start.AsU64() < q.End() && q.Start.AsU64() < p.End() {
				w.Failf("region of %d blocks: allocated [%d,%d) overlaps [%d,%d)", total, p.Start, p.End(), q.Start, q.End())
			}
		}
	}
	check()
	for r := 0; r < 40; r++ {
		k := sizes[r%len(sizes)]
		p, err := a.Allocate(uint16(k))
		w.C.Trans++
		if err != nil {
			if total-nused > uint64(k)+70000*uint64(len(used)+3) {
				w.Failf("region of %d blocks with %d used: Allocate(%d): %v", total, nused, k, err)
			}
			break
		}
		overlap(p)
		if int(p.Len) != k {
			w.Failf("Allocate(%d) returned %d", k, p.Len)
		}
		used = append(used, p)
		nused += uint64(k)
		check()
		if r%3 == 2 {
			i := r % len(used)
			a.Release(used[i])
			nused -= uint64(used[i].Len)
			used = append(append([]portion.DataPortion{}, used[:i]...), used[i+1:]...)
			check()
		}
	}
	// rebuild in a second allocator: same free count
	b := emptyAlloc(1 - kind)
	b.RestoreFromIndex(block.Min(), total*512, append([]portion.DataPortion{portion.NewDataPortion(0, 0)}, used...))
	if b.FreeCount() != total-nused {
		w.Failf("region of %d blocks: rebuilt FreeCount %d, want %d", total, b.FreeCount(), total-nused)
	}
	b.Free()
	for len(used) > 0 {
		a.Release(used[0])
		nused -= uint64(used[0].Len)
		used = used[1:]
		check()
	}
	for r := uint64(0); r < total/65535 && r < 700; r++ {
		p, err := a.Allocate(65535)
		if err != nil {
			// free runs are kept in pieces below 2^24 blocks
			if r+total/(1<<24)*2+2 < total/65535 {
				w.Failf("region of %d blocks, all free: allocation %d of 65535 blocks failed: %v", total, r, err)
			}
			break
		}
		if p.End() > total {
			w.Failf("region of %d blocks: allocated [%d,%d)", total, p.Start, p.End())
		}
		nused += 65535
		check()
	}
	w.C.Execs++
	w.C.States++
	w.C.Traces++
}

func famC13(th bool) []*Family {
	var fs []*Family
	kinds := []string{"judy", "btree"}
	for k, name := range kinds {
		k := k
		sizes := []int{1, 2, 3, 5}
		d := 7
		if th {
			d = 8
		}
		n := 6
		base := len(sizes) + n
		fs = append(fs, &Family{Name: "words/" + name, N: pow(base, d), Run: func(w *W, i int) { runAllocWord(w, k, n, sizes, d, i) },
			Desc: func(i int) string { return fmt.Sprintf("word %d (base %d, depth %d), %d blocks", i, base, d, n) }})
		ln := 6
		if th {
			ln = 7
		}
		lays := layouts(ln, ln)
		fs = append(fs, &Family{Name: "layouts/" + name, N: len(lays), Run: func(w *W, i int) { runLayout(w, k, ln, lays[i], []int{1, 2, 3, ln}) },
			Desc: func(i int) string { return fmt.Sprintf("layout %v (negative: free)", lays[i]) }})
		fs = append(fs, &Family{Name: "big/" + name, N: 50, Chunk: 1, Run: func(w *W, i int) { runBigAlloc(w, k, i/5, i%5) },
			Desc: func(i int) string { return fmt.Sprintf("region %d occupancy %d", i/5, i%5) }})
	}
	return fs
}

// ---------------------------------------------------------------- C14 record codec

func recordSet(th bool) []journal.JournalRecord {
	var rs []journal.JournalRecord
	ids := []uint64{0, 1, 255, 256, 1 << 32, 0x0102030405060708, 1<<63 - 1, 1 << 63, ^uint64(0) - 1, ^uint64(0)}
	if th {
		for i := 0; i < 64; i += 3 {
			ids = append(ids, 1<<uint(i))
		}
	}
	starts := []uint64{0, 1, 255, 256, 1<<24 - 1, 1 << 24, 1<<32 - 1, 1 << 32, 1<<39 + 12345, 1<<40 - 1}
	lens := []uint16{0, 1, 255, 256, 0x7fff, 0x8000, 0xffff}
	rs = append(rs, journal.EndOfRecords{}, journal.GoToFront{})
	for _, id := range ids {
		rs = append(rs, journal.DeleteRecord{LumpID: lump.FromU64(0, id)})
		for _, e := range ids {
			rs = append(rs, journal.DeleteRange{Start: lump.FromU64(0, id), End: lump.FromU64(0, e)})
		}
		for _, s := range starts {
			for _, l := range lens {
				rs = append(rs, journal.PutRecord{LumpID: lump.FromU64(0, id), DataPortion: portion.NewDataPortion(s, l)})
			}
		}
		for _, n := range []int{0, 1, 2, 3, 7, 255, 256, 511, 512, 513} {
			b := make([]byte, n)
			fill(b, n+1, id)
			rs = append(rs, journal.EmbedRecord{LumpID: lump.FromU64(0, id), Data: b})
			if n > 0 && n < 8 {
				rs = append(rs, journal.EmbedRecord{LumpID: lump.FromU64(0, id), Data: make([]byte, n)}, journal.EmbedRecord{LumpID: lump.FromU64(0, id), Data: bytes.Repeat([]byte{255}, n)})
			}
		}
	}
	for _, n := range []int{4096, 65521, 65534, 65535} {
		b := make([]byte, n)
		fill(b, n, 3)
		rs = append(rs, journal.EmbedRecord{LumpID: lump.FromU64(0, 77), Data: b}, journal.EmbedRecord{LumpID: lump.FromU64(0, 78), Data: bytes.Repeat([]byte{255}, n)})
	}
	return rs
}

func recEqual(a, b journal.JournalRecord) bool {
	switch x := a.(type) {
	case journal.EmbedRecord:
		y, ok := b.(journal.EmbedRecord)
		return ok && x.LumpID == y.LumpID && bytes.Equal(x.Data, y.Data)
	default:
		if _, ok := b.(journal.EmbedRecord); ok {
			return false
		}
		return a == b
	}
}

// oneReader returns at most k bytes per call.
type oneReader struct {
	b []byte
	k int
}

func (r *oneReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := r.k
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.b) {
		n = len(r.b)
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	return n, nil
}

func recDesc(r journal.JournalRecord) string {
	if e, ok := r.(journal.EmbedRecord); ok {
		return fmt.Sprintf("EmbedRecord(%s, %d bytes)", e.LumpID, len(e.Data))
	}
	return fmt.Sprintf("%T%+v", r, r)
}

func runRecord(w *W, r journal.JournalRecord, th bool) {
	var bb bytes.Buffer
	if err := r.WriteTo(&bb); err != nil {
		w.Failf("WriteTo of %s: %v", recDesc(r), err)
	}
	enc := append([]byte(nil), bb.Bytes()...)
	if int(r.ExternalSize()) != len(enc) {
		w.Failf("%s: ExternalSize %d, encoded %d bytes", recDesc(r), r.ExternalSize(), len(enc))
	}
	var eor bytes.Buffer
	journal.EndOfRecords{}.WriteTo(&eor)
	tails := [][]byte{nil, make([]byte, 300), append(append([]byte(nil), eor.Bytes()...), bytes.Repeat([]byte{0xa5}, 300)...), append(append([]byte(nil), enc...), eor.Bytes()...)}
	for ti, t := range tails {
		for _, k := range []int{1, 7, 1 << 20} {
			rd := &oneReader{b: append(append([]byte(nil), enc...), t...), k: k}
			got, err := journal.ReadRecordFrom(rd)
			if err != nil || !recEqual(r, got) {
				w.Failf("%s decodes to %v, %v", recDesc(r), got, err)
			}
			if len(rd.b) != len(t) {
				w.Failf("decoding %s consumed %d bytes more than it has", recDesc(r), len(t)-len(rd.b))
			}
			w.C.Execs++
		}
		_ = ti
	}
	if e := (journal.JournalEntry{Start: address.AddressFromU64(1000), Record: r}); e.End() != 1000+uint64(len(enc)) {
		w.Failf("%s: entry ends at %d", recDesc(r), e.End())
	}
	for n := 0; n < len(enc); n++ {
		if n > 600 && n < len(enc)-600 && !th && n%97 != 0 {
			continue
		}
		got, err := journal.ReadRecordFrom(bytes.NewReader(enc[:n]))
		if err == nil {
			w.Failf("%s truncated to %d of %d bytes decodes to %v", recDesc(r), n, len(enc), got)
		}
		w.C.Execs++
	}
	// every single byte change
	mod := append([]byte(nil), enc...)
	for i := range mod {
		big := len(mod) > 700
		if big && i > 30 && i < len(mod)-30 && i%(len(mod)/50) != 0 {
			continue
		}
		o := mod[i]
		if i%16 == 0 {
			w.Beat("byte changes")
		}
		for v := 0; v < 256; v++ {
			if byte(v) == o {
				continue
			}
			if big && v%51 != 0 && byte(v) != o+1 {
				continue
			}
			if !th && i > 24 {
				if x := byte(v) ^ o; v%85 != 0 && byte(v) != o+1 && byte(v) != o-1 && x&(x-1) != 0 {
					continue
				}
			}
			mod[i] = byte(v)
			for ti, t := range tails {
				if big && ti > 1 {
					continue
				}
				got, err := journal.ReadRecordFrom(io.MultiReader(bytes.NewReader(mod), bytes.NewReader(t)))
				if err == nil {
					w.Failf("%s with byte %d changed from %d to %d (followed by tail %d) decodes to %s", recDesc(r), i, o, v, ti, recDesc(got))
				}
				w.C.Execs++
			}
		}
		mod[i] = o
	}
	w.C.States++
	w.C.Trans += int64(len(enc))
	w.C.Traces++
}

func famC14(th bool) []*Family {
	rs := recordSet(th)
	var fs []*Family
	fs = append(fs, &Family{Name: "records", N: len(rs), Run: func(w *W, i int) { runRecord(w, rs[i], th) }, Desc: func(i int) string { return recDesc(rs[i]) }})
	small := []journal.JournalRecord{journal.PutRecord{LumpID: lump.FromU64(0, 1), DataPortion: portion.NewDataPortion(3, 9)}, journal.DeleteRecord{LumpID: lump.FromU64(0, 2)}, journal.EmbedRecord{LumpID: lump.FromU64(0, 3), Data: []byte{1, 2, 3}},
		journal.EmbedRecord{LumpID: lump.FromU64(0, 3), Data: []byte{}}, journal.DeleteRange{Start: lump.FromU64(0, 4), End: lump.FromU64(0, 9)}, journal.GoToFront{}, journal.EndOfRecords{}}
	d := 4
	fs = append(fs, &Family{Name: "streams", N: pow(len(small), d), Run: func(w *W, i int) {
		var bb bytes.Buffer
		var want []journal.JournalRecord
		for k := 0; k < d; k++ {
			r := small[i%len(small)]
			i /= len(small)
			r.WriteTo(&bb)
			want = append(want, r)
		}
		rd := &oneReader{b: bb.Bytes(), k: 5}
		for k := range want {
			got, err := journal.ReadRecordFrom(rd)
			if err != nil || !recEqual(want[k], got) {
				w.Failf("record %d of the stream decodes to %v, %v; want %s", k, got, err, recDesc(want[k]))
			}
		}
		if _, err := journal.ReadRecordFrom(rd); err == nil {
			w.Failf("the end of the stream decodes to a record")
		}
		w.C.Execs++
		w.C.States++
		w.C.Traces++
	}})
	return fs
}

// ---------------------------------------------------------------- C15 journal buffer and ring

type bufOp struct {
	k        byte
	pos, len int
}

func (o bufOp) String() string {
	switch o.k {
	case 'w':
		return fmt.Sprintf("write %d bytes at %d", o.len, o.pos)
	case 'r':
		return fmt.Sprintf("read %d bytes at %d", o.len, o.pos)
	case 'f':
		return "flush"
	}
	return "sync"
}

func bufAlpha(th bool) []bufOp {
	var a []bufOp
	ws := []int{0, 100, 508, 511, 512, 700, 1023, 1024, 1536, 2040}
	wl := []int{1, 5, 12, 412, 513, 1100}
	if th {
		ws = []int{0, 1, 100, 508, 511, 512, 513, 700, 1023, 1024, 1030, 1535, 1536, 2040, 2047}
		wl = []int{0, 1, 5, 12, 412, 511, 512, 513, 1024, 1100}
	}
	for _, p := range ws {
		for _, l := range wl {
			if p+l <= 2048+600 {
				a = append(a, bufOp{'w', p, l})
			}
		}
	}
	for _, p := range []int{0, 1, 508, 512, 1000, 1536, 2043} {
		for _, l := range []int{5, 600, 1500} {
			a = append(a, bufOp{'r', p, l})
		}
	}
	return append(a, bufOp{k: 'f'}, bufOp{k: 's'})
}

func runBuf(w *W, ops []bufOp) {
	const size = 2048
	dev := make([]byte, size)
	fill(dev, 1, 9)
	ref := append([]byte(nil), dev...)
	mem, _ := nvm.NewFromVec(dev)
	jb := journal.NewJournalNvmBuffer(mem)
	seq := 2
	fail := func(f string, a ...interface{}) { w.Failf("%s\n  after %v", fmt.Sprintf(f, a...), ops) }
	rd := func(pos, n int) {
		if p, err := jb.Seek(int64(pos), io.SeekStart); err != nil || p != int64(pos) {
			fail("seek to %d: %d, %v", pos, p, err)
		}
		b := make([]byte, n)
		// like io.Reader: short reads are allowed, the bytes must be right
		got := 0
		for got < n {
			k, err := jb.Read(b[got:])
			if err == io.EOF || err == io.ErrUnexpectedEOF {
				if pos+got < size {
					fail("read of %d bytes at %d ends at %d: %v", n, pos, pos+got, err)
				}
				break
			}
			if err != nil || k <= 0 || got+k > n {
				fail("read of %d bytes at %d: %d, %v", n, pos, k, err)
			}
			got += k
			if jb.Position() != uint64(pos+got) {
				fail("position %d after reading up to %d", jb.Position(), pos+got)
			}
			if pos+got >= size {
				break
			}
		}
		if !bytes.Equal(b[:got], ref[pos:pos+got]) {
			fail("read of %d bytes at %d returns wrong bytes from %d on", n, pos, pos+commonPrefix(b[:got], ref[pos:pos+got]))
		}
		if want := min2(n, size-pos); got < want {
			fail("read of %d bytes at %d returns %d bytes", n, pos, got)
		}
	}
	for _, o := range ops {
		w.C.Trans++
		switch o.k {
		case 'w':
			b := make([]byte, o.len)
			fill(b, seq, 5)
			seq++
			if _, err := jb.Seek(int64(o.pos), io.SeekStart); err != nil {
				fail("seek to %d: %v", o.pos, err)
			}
			n, err := jb.Write(b)
			if o.pos+o.len > size {
				if err == nil {
					fail("%s accepted beyond the capacity", o)
				}
			} else {
				if err != nil || n != o.len {
					fail("%s: %d, %v", o, n, err)
				}
				if jb.Position() != uint64(o.pos+o.len) {
					fail("position %d after %s", jb.Position(), o)
				}
				copy(ref[o.pos:], b)
			}
		case 'r':
			rd(o.pos, o.len)
		case 'f', 's':
			var err error
			if o.k == 'f' {
				err = jb.Flush()
			} else {
				err = jb.Sync()
			}
			if err != nil {
				fail("%s: %v", o, err)
			}
			if !bytes.Equal(dev, ref) {
				fail("after %s the device differs at byte %d", o, commonPrefix(dev, ref))
			}
		}
	}
	if w.Seen(hashBytes(dev, ref)) {
		w.C.States++
	}
	if err := jb.Sync(); err != nil {
		fail("sync: %v", err)
	}
	if !bytes.Equal(dev, ref) {
		fail("after the final sync the device differs at byte %d", commonPrefix(dev, ref))
	}
	rd(0, size)
	w.C.Execs++
	w.C.Traces++
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// ring

type ringOp struct {
	k byte
	n int
}

func (o ringOp) String() string {
	switch o.k {
	case 'e':
		return fmt.Sprintf("embed(%d)", o.n)
	case 'p':
		return "put"
	case 'x':
		return "delete"
	case 'q':
		return "dequeue"
	case 'r':
		return fmt.Sprintf("release(%d)", o.n)
	case 'y':
		return "sync"
	case 'o':
		return "reopen"
	}
	return "?"
}

type ringEnt struct {
	start uint64
	rec   journal.JournalRecord
}

type ringCtx struct {
	w       *W
	dev     []byte
	mem     *nvm.MemoryNVM
	ring    *journal.JournalRingBuffer
	cap     uint64
	ents    []ringEnt // from unreleased head
	deq     int       // entries dequeued (but not released)
	tail    uint64
	ulh     uint64
	seq     int
	hist    []ringOp
	entries int
}

func (c *ringCtx) fail(f string, a ...interface{}) {
	c.w.Failf("%s\n  ring of %d bytes; after %v", fmt.Sprintf(f, a...), c.cap, c.hist)
}

func ceil512(n uint64) uint64 { return (n + 511) / 512 * 512 }

// mustFit: a record of that size fits in the room behind the tail, counted in whole sectors.
func (c *ringCtx) mustFit(size uint64) bool {
	if c.tail < c.ulh {
		return ceil512(c.tail+size+5) <= c.ulh
	}
	if c.tail+size+5 <= c.cap {
		return true
	}
	return ceil512(size+5) <= c.ulh
}

func (c *ringCtx) enqueue(r journal.JournalRecord) {
	size := uint64(r.ExternalSize())
	p, err := c.ring.Enqueue(r)
	if err != nil {
		if !isErr(err, internalerror.JournalStorageFull) {
			c.fail("Enqueue of %s: %v", recDesc(r), err)
		}
		if c.mustFit(size) {
			c.fail("Enqueue of %s (%d bytes) refused: tail %d unreleased head %d", recDesc(r), size, c.tail, c.ulh)
		}
		if c.ring.Tail() != c.tail {
			c.fail("a refused Enqueue moved the tail from %d to %d", c.tail, c.ring.Tail())
		}
		return
	}
	start := c.tail
	if c.tail+size+5 > c.cap {
		start = 0
	}
	if c.ring.Tail() != start+size {
		c.fail("tail is %d after appending %d bytes at %d", c.ring.Tail(), size, start)
	}
	c.tail = start + size
	c.ents = append(c.ents, ringEnt{start, r})
	if e, ok := r.(journal.EmbedRecord); ok {
		if p.Start.AsU64() != start+15 || int(p.Len) != len(e.Data) {
			c.fail("embedded data of %d bytes reported at %d+%d, want %d", len(e.Data), p.Start, p.Len, start+15)
		}
	}
}

func (c *ringCtx) verify() {
	it := c.ring.ReadIter()
	for i := 0; ; i++ {
		e, err := it.PopFront()
		if err == internalerror.NoEntries {
			if i != len(c.ents) {
				c.fail("the ring has %d entries, want %d", i, len(c.ents))
			}
			break
		}
		if err != nil {
			c.fail("entry %d of %d cannot be read: %v", i, len(c.ents), err)
		}
		if i >= len(c.ents) {
			c.fail("the ring has more than %d entries: %s", len(c.ents), recDesc(e.Record))
		}
		if e.Start.AsU64() != c.ents[i].start || !recEqual(e.Record, c.ents[i].rec) {
			c.fail("entry %d is %s at %d, want %s at %d", i, recDesc(e.Record), e.Start, recDesc(c.ents[i].rec), c.ents[i].start)
		}
	}
	for _, e := range c.ents {
		if x, ok := e.rec.(journal.EmbedRecord); ok && len(x.Data) > 0 {
			b := make([]byte, len(x.Data))
			if err := c.ring.ReadEmbededBuffer(e.start+15, b); err != nil || !bytes.Equal(b, x.Data) {
				c.fail("embedded data at %d: %v", e.start+15, err)
			}
		}
	}
	use := uint64(0)
	if c.tail >= c.ulh {
		use = c.tail - c.ulh
	} else {
		use = c.tail + c.cap - c.ulh
	}
	if c.ring.Usage() != use {
		c.fail("usage %d, want %d (unreleased head %d tail %d)", c.ring.Usage(), use, c.ulh, c.tail)
	}
}

func (c *ringCtx) open(head uint64) {
	c.mem, _ = nvm.NewFromVec(c.dev)
	c.ring = journal.NewJournalRingBuffer(journal.NewJournalNvmBuffer(c.mem), head)
}

func runRing(w *W, sectors int, start uint64, ops []ringOp) {
	c := &ringCtx{w: w, cap: uint64(sectors) * 512, dev: make([]byte, sectors*512), tail: start, ulh: start}
	var bb bytes.Buffer
	journal.EndOfRecords{}.WriteTo(&bb)
	fill(c.dev, 3, 3)
	copy(c.dev[start:], bb.Bytes())
	c.open(start)
	for _, o := range ops {
		c.hist = append(c.hist, o)
		w.C.Trans++
		c.seq++
		switch o.k {
		case 'e':
			b := make([]byte, o.n)
			fill(b, c.seq, 1)
			c.enqueue(journal.EmbedRecord{LumpID: lid(uint64(c.seq)), Data: b})
		case 'p':
			c.enqueue(journal.PutRecord{LumpID: lid(uint64(c.seq)), DataPortion: portion.NewDataPortion(uint64(c.seq), 7)})
		case 'x':
			c.enqueue(journal.DeleteRecord{LumpID: lid(uint64(c.seq))})
		case 'q': // read everything not yet dequeued
			if err := c.ring.Flush(); err != nil {
				c.fail("flush: %v", err)
			}
			it := c.ring.DequeueIter()
			for i := c.deq; ; i++ {
				e, err := it.PopFront()
				if err == internalerror.NoEntries {
					if i != len(c.ents) {
						c.fail("dequeue ends after %d entries, want %d", i, len(c.ents))
					}
					break
				}
				if err != nil || i >= len(c.ents) || e.Start.AsU64() != c.ents[i].start || !recEqual(e.Record, c.ents[i].rec) {
					c.fail("dequeued entry %d is %v at %d, %v", i, e.Record, e.Start, err)
				}
			}
			c.deq = len(c.ents)
			if c.ring.Head() != c.tail && len(c.ents) > 0 {
				c.fail("head %d after dequeuing everything, want %d", c.ring.Head(), c.tail)
			}
		case 'r': // release the first n dequeued entries
			n := o.n
			if n > c.deq {
				n = c.deq
			}
			if n == 0 {
				break
			}
			h := c.tail
			if n < len(c.ents) {
				h = c.ents[n].start
			}
			c.ring.ReleaseBytesUntil(h)
			c.ents = c.ents[n:]
			c.deq -= n
			c.ulh = h
		case 'y':
			if err := c.ring.Sync(); err != nil {
				c.fail("sync: %v", err)
			}
		case 'o':
			if err := c.ring.Sync(); err != nil {
				c.fail("sync: %v", err)
			}
			c.open(c.ulh)
			it := c.ring.BufferedIter()
			for i := 0; ; i++ {
				e, err := it.PopFront()
				if err == internalerror.NoEntries {
					if i != len(c.ents) {
						it.Close()
						c.fail("replay ends after %d entries, want %d", i, len(c.ents))
					}
					break
				}
				if err != nil || i >= len(c.ents) || e.Start.AsU64() != c.ents[i].start || !recEqual(e.Record, c.ents[i].rec) {
					it.Close()
					c.fail("replayed entry %d is %v at %d, %v", i, e.Record, e.Start, err)
				}
			}
			it.Close()
			c.ring.DoStoreUsage()
			c.deq = 0
			if c.ring.Tail() != c.tail && len(c.ents) > 0 {
				c.fail("tail %d after replay, want %d", c.ring.Tail(), c.tail)
			}
			c.tail = c.ring.Tail()
		}
		c.verify()
	}
	if w.Seen(hashStr(fmt.Sprint(c.tail, c.ulh, len(c.ents), c.deq))) {
		w.C.States++
	}
	w.C.Execs++
	w.C.Traces++
}

func famC15(th bool) []*Family {
	var fs []*Family
	al := bufAlpha(th)
	d := 3
	fs = append(fs, &Family{Name: "buffer", N: pow(len(al), d), Run: func(w *W, i int) {
		ops := make([]bufOp, d)
		for k := range ops {
			ops[k] = al[i%len(al)]
			i /= len(al)
		}
		runBuf(w, ops)
	}, Desc: func(i int) string {
		ops := make([]bufOp, d)
		for k := range ops {
			ops[k] = al[i%len(al)]
			i /= len(al)
		}
		return fmt.Sprint(ops)
	}})
	// longer words over appending patterns
	al2 := []bufOp{{'w', 0, 5}, {'w', 500, 20}, {'w', 507, 5}, {'w', 512, 25}, {'w', 1000, 600}, {'w', 1531, 5}, {'w', 1500, 36}, {'w', 2043, 5}, {'r', 0, 600}, {'r', 505, 20}, {'r', 1500, 548}, {k: 'f'}, {k: 's'}}
	d2 := 5
	if th {
		d2 = 6
	}
	fs = append(fs, &Family{Name: "buffer-deep", N: pow(len(al2), d2), Run: func(w *W, i int) {
		ops := make([]bufOp, d2)
		for k := range ops {
			ops[k] = al2[i%len(al2)]
			i /= len(al2)
		}
		runBuf(w, ops)
	}, Desc: func(i int) string { return fmt.Sprintf("word %d over %v", i, al2) }})
	ra := []ringOp{{k: 'p'}, {k: 'x'}, {'e', 0}, {'e', 100}, {'e', 490}, {'e', 700}, {k: 'q'}, {'r', 1}, {'r', 99}, {k: 'o'}}
	d3 := 6
	if th {
		d3 = 7
	}
	for _, cf := range []struct {
		sec   int
		start uint64
	}{{2, 0}, {3, 700}, {3, 1536 - 25}, {3, 1536 - 26 - 13}, {4, 1536}, {4, 2048 - 5}} {
		cf := cf
		fs = append(fs, &Family{Name: fmt.Sprintf("ring/%d-%d", cf.sec, cf.start), N: pow(len(ra), d3-1), Run: func(w *W, i int) {
			ops := make([]ringOp, d3-1)
			for k := range ops {
				ops[k] = ra[i%len(ra)]
				i /= len(ra)
			}
			runRing(w, cf.sec, cf.start, ops)
		}, Desc: func(i int) string {
			ops := make([]ringOp, d3-1)
			for k := range ops {
				ops[k] = ra[i%len(ra)]
				i /= len(ra)
			}
			return fmt.Sprint(ops)
		}})
	}
	// many laps of a small ring: every append size repeated with dequeue and release
	fs = append(fs, &Family{Name: "ring-laps", N: 2 * 900, Run: func(w *W, i int) {
		n, keep := i/2, i%2
		var ops []ringOp
		for k := 0; k < 12; k++ {
			ops = append(ops, ringOp{'e', n}, ringOp{k: 'p'}, ringOp{k: 'q'}, ringOp{'r', 99 - 98*keep})
			if keep == 1 {
				ops = append(ops, ringOp{'r', 1})
			}
			if k%4 == 3 {
				ops = append(ops, ringOp{k: 'o'}, ringOp{k: 'q'})
			}
		}
		runRing(w, 3, uint64(n*7%1500), ops)
	}, Desc: func(i int) string { return fmt.Sprintf("laps with embed(%d), mode %d", i/2, i%2) }})
	return fs
}

// ---------------------------------------------------------------- C17 lump index

type idxOp struct {
	k    byte
	id   uint64
	id2  uint64
	s    uint64
	l    uint16
	desc string
}

func (o idxOp) String() string {
	switch o.k {
	case 'i':
		return fmt.Sprintf("data(%x)=[%d,+%d)", o.id, o.s, o.l)
	case 'j':
		return fmt.Sprintf("embed(%x)=%d+%d", o.id, o.s, o.l)
	case 'd':
		return fmt.Sprintf("delete(%x)", o.id)
	}
	return fmt.Sprintf("deleterange(%x,%x)", o.id, o.id2)
}

func idxAlpha(ids []uint64) []idxOp {
	var a []idxOp
	for n, id := range ids {
		a = append(a, idxOp{k: 'i', id: id, s: uint64(n) * 7, l: uint16(n + 1)}, idxOp{k: 'i', id: id, s: 1<<40 - 1, l: 0xffff}, idxOp{k: 'j', id: id, s: uint64(n)*100 + 15, l: uint16(n * 300)}, idxOp{k: 'd', id: id})
		for _, e := range ids {
			a = append(a, idxOp{k: 'r', id: id, id2: e})
		}
	}
	return a
}

func runIndex(w *W, ids []uint64, ops []idxOp) {
	ix := lumpindex.NewIndex()
	defer ix.Free()
	m := map[uint64]portion.Portion{}
	fail := func(f string, a ...interface{}) { w.Failf("%s\n  after %v", fmt.Sprintf(f, a...), ops) }
	probes := append([]uint64{}, ids...)
	for _, id := range ids {
		probes = append(probes, id+1, id-1)
	}
	for _, o := range ops {
		w.C.Trans++
		switch o.k {
		case 'i':
			p := portion.NewDataPortion(o.s, o.l)
			ix.InsertDataPortion(lid(o.id), p)
			m[o.id] = p
		case 'j':
			p := portion.NewJournalPortion(o.s, o.l)
			ix.InsertJournalPortion(lid(o.id), p)
			m[o.id] = p
		case 'd':
			_, had := m[o.id]
			if ok := ix.Delete(lid(o.id)); ok != had {
				fail("%s returned %v", o, ok)
			}
			delete(m, o.id)
		case 'r':
			ix.DeleteRange(lid(o.id), lid(o.id2))
			for k := range m {
				if k >= o.id && k < o.id2 {
					delete(m, k)
				}
			}
		}
		var keys []uint64
		for k := range m {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
		if ix.Count() != uint64(len(keys)) {
			fail("count %d, want %d", ix.Count(), len(keys))
		}
		if !sameIds(ix.List(), keys) {
			fail("List %v, want %x", idsOf(ix.List()), keys)
		}
		mn, ok := ix.Min()
		if ok != (len(keys) > 0) || ok && mn.U64() != keys[0] {
			fail("Min %v %v, want %x", mn, ok, keys)
		}
		mx, ok := ix.Max()
		if ok != (len(keys) > 0) || ok && mx.U64() != keys[len(keys)-1] {
			fail("Max %v %v, want %x", mx, ok, keys)
		}
		fe, ok := ix.FirstEmpty()
		want := uint64(0)
		for _, k := range keys {
			if k == want {
				want++
			}
		}
		if !ok || fe.U64() != want {
			fail("FirstEmpty %v %v, want %x", fe, ok, want)
		}
		var wantDP []portion.DataPortion
		for _, k := range keys {
			if p, ok := m[k].(portion.DataPortion); ok {
				wantDP = append(wantDP, p)
			}
		}
		dp := ix.DataPortions()
		var gotDP []portion.DataPortion
		for _, p := range dp {
			if p.Len != 0 {
				gotDP = append(gotDP, p)
			}
		}
		if fmt.Sprint(gotDP) != fmt.Sprint(wantDP) {
			fail("DataPortions %v, want %v", gotDP, wantDP)
		}
		jd := ix.JudyDataPortions()
		wj := map[uint64]bool{0: true}
		for _, p := range wantDP {
			wj[p.Start.AsU64()<<24|uint64(p.Len)] = true
		}
		if int(jd.CountAll()) != len(wj) {
			fail("JudyDataPortions has %d entries, want %d", jd.CountAll(), len(wj))
		}
		for k := range wj {
			if !jd.Test(k) {
				fail("JudyDataPortions misses %x", k)
			}
		}
		jd.Free()
		for _, p := range probes {
			g, err := ix.Get(lid(p))
			wp, had := m[p]
			if (err == nil) != had || had && g != wp {
				fail("Get(%x) = %v,%v want %v", p, g, err, wp)
			}
			i := sort.Search(len(keys), func(i int) bool { return keys[i] >= p })
			f, err := ix.First(lid(p))
			if (err == nil) != (i < len(keys)) || err == nil && f.U64() != keys[i] {
				fail("First(%x) = %v,%v", p, f, err)
			}
		}
		for _, p := range ids {
			for _, q := range ids {
				var wl []uint64
				for _, k := range keys {
					if k >= p && k < q {
						wl = append(wl, k)
					}
				}
				for _, mxn := range []uint64{0, 1, 2, ^uint64(0)} {
					x := wl
					if uint64(len(x)) > mxn {
						x = x[:mxn]
					}
					if l := ix.ListRange(lid(p), lid(q), mxn); !sameIds(l, x) {
						fail("ListRange(%x,%x,%d) = %v want %x", p, q, mxn, idsOf(l), x)
					}
				}
				var seen []uint64
				stop := errors.New("stop")
				err := ix.RangeIter(lid(p), lid(q), func(id lump.LumpId, pt portion.Portion) error {
					if pt != m[id.U64()] {
						fail("RangeIter: %s has %v want %v", id, pt, m[id.U64()])
					}
					seen = append(seen, id.U64())
					if len(seen) == 2 {
						return stop
					}
					return nil
				})
				x := wl
				if len(x) > 2 {
					x = x[:2]
				}
				if fmt.Sprint(seen) != fmt.Sprint(x) || (err == stop) != (len(wl) >= 2) {
					fail("RangeIter(%x,%x) visited %x, %v", p, q, seen, err)
				}
			}
		}
	}
	var sb bytes.Buffer
	for _, id := range ids {
		fmt.Fprint(&sb, m[id], ";")
	}
	if w.Seen(hashBytes(sb.Bytes())) {
		w.C.States++
	}
	w.C.Execs++
	w.C.Traces++
}

func sameIds(l []lump.LumpId, keys []uint64) bool {
	if len(l) != len(keys) {
		return false
	}
	for i := range keys {
		if l[i].U64() != keys[i] {
			return false
		}
	}
	return true
}

func famC17(th bool) []*Family {
	var fs []*Family
	sets := [][]uint64{{0, 1, 1 << 63, ^uint64(0) - 1, ^uint64(0)}, {5, 6, 7, 1 << 32}}
	for si, ids := range sets {
		ids := ids
		al := idxAlpha(ids)
		d := 3
		if th && si == 1 {
			d = 4
		}
		get := func(i int) []idxOp {
			ops := make([]idxOp, d)
			for k := range ops {
				ops[k] = al[i%len(al)]
				i /= len(al)
			}
			return ops
		}
		fs = append(fs, &Family{Name: fmt.Sprintf("words/%d", si), N: pow(len(al), d), Run: func(w *W, i int) { runIndex(w, ids, get(i)) }, Desc: func(i int) string { return fmt.Sprint(get(i)) }})
	}
	starts := []uint64{0, 1, 255, 256, 1<<24 - 1, 1 << 24, 1<<32 - 1, 1 << 32, 1<<39 - 1, 1 << 39, 1<<40 - 1}
	lens := []uint16{0, 1, 2, 255, 256, 0x7fff, 0x8000, 0xfffe, 0xffff}
	fs = append(fs, &Family{Name: "portions", N: len(starts) * len(lens), Run: func(w *W, i int) {
		s, l := starts[i/len(lens)], lens[i%len(lens)]
		ix := lumpindex.NewIndex()
		defer ix.Free()
		p, j := portion.NewDataPortion(s, l), portion.NewJournalPortion(s, l)
		ix.InsertDataPortion(lid(1), p)
		ix.InsertJournalPortion(lid(2), j)
		if g, err := ix.Get(lid(1)); err != nil || g != portion.Portion(p) {
			w.Failf("data portion %v reads back as %v", p, g)
		}
		if g, err := ix.Get(lid(2)); err != nil || g != portion.Portion(j) {
			w.Failf("journal portion %v reads back as %v", j, g)
		}
		if p.End() != s+uint64(l) || p.SizeOnDisk(block.Min()) != uint32(l)*512 || j.SizeOnDisk(block.Min()) != uint32(l) {
			w.Failf("portion %v: end %d size %d/%d", p, p.End(), p.SizeOnDisk(block.Min()), j.SizeOnDisk(block.Min()))
		}
		if o, n := p.ShiftBlockToBytes(block.Min()); o != s*512 || n != uint32(l)*512 {
			w.Failf("portion %v is at byte %d+%d", p, o, n)
		}
		if o, n := p.AsInts(); o != s || n != l {
			w.Failf("portion %v as ints %d %d", p, o, n)
		}
		if l > 0 && p.ShiftToPaddingBlock(block.Min()) != (s+uint64(l)-1)*512 {
			w.Failf("portion %v: last block at %d", p, p.ShiftToPaddingBlock(block.Min()))
		}
		f := portion.NewFreePortion(address.AddressFromU64(s), uint32(l)<<8|7)
		if f.Start().AsU64() != s || f.Len() != uint32(l)<<8|7 {
			w.Failf("free portion %d+%d is %d+%d", s, uint32(l)<<8|7, f.Start(), f.Len())
		}
		w.C.Execs++
		w.C.States++
		w.C.Traces++
	}, Desc: func(i int) string { return fmt.Sprintf("start %d len %d", starts[i/len(lens)], lens[i%len(lens)]) }})
	return fs
}

// ---------------------------------------------------------------- C21 aligned buffers

type abOp struct {
	k byte
	n uint32
}

func (o abOp) String() string {
	return map[byte]string{'r': "Resize", 'a': "AlignResize", 't': "Truncate", 'l': "Align"}[o.k] + fmt.Sprintf("(%d)", o.n)
}

func runAligned(w *W, bs block.BlockSize, srcLen, srcOff, srcCap int, ops []abOp) {
	fail := func(f string, a ...interface{}) {
		w.Failf("%s\n  block size %d, source of %d bytes at offset %d cap %d, %v", fmt.Sprintf(f, a...), bs, srcLen, srcOff, srcCap, ops)
	}
	var ab *block.AlignedBytes
	var ref []byte
	if srcOff < 0 {
		ab = block.NewAlignedBytes(srcLen, bs)
		fill(ab.AsBytes(), 1, 1)
		ref = append([]byte(nil), ab.AsBytes()...)
	} else {
		big := make([]byte, 3*int(bs)+srcOff+srcCap+int(bs))
		base := 0
		if a := int(uintptr(unsafe.Pointer(&big[0])) % uintptr(bs)); a != 0 {
			base = int(bs) - a
		}
		src := big[base+srcOff : base+srcOff+srcLen : base+srcOff+srcCap]
		fill(src, 2, 2)
		ref = append([]byte(nil), src...)
		ab = block.FromBytes(src, bs)
	}
	seq := 10
	check := func(want []byte, n int) {
		if int(ab.Len()) != n || len(ab.AsBytes()) != n {
			fail("length %d (%d bytes), want %d", ab.Len(), len(ab.AsBytes()), n)
		}
		b := ab.AsBytes()
		if !bytes.Equal(b[:len(want)], want) {
			fail("content differs at byte %d of %d", commonPrefix(b, want), len(want))
		}
		if cap(b) > 0 && uintptr(unsafe.Pointer(&b[:1][0]))%uintptr(bs) != 0 {
			fail("buffer starts at address %% %d = %d", bs, uintptr(unsafe.Pointer(&b[:1][0]))%uintptr(bs))
		}
		if ab.BlockSize() != bs {
			fail("block size is %d", ab.BlockSize())
		}
		if ab.Capacity() < uint64(n) {
			fail("capacity %d is less than the length %d", ab.Capacity(), n)
		}
	}
	check(ref, srcLen)
	for _, o := range ops {
		w.C.Trans++
		n := len(ref)
		switch o.k {
		case 'r':
			ab.Resize(o.n)
			n = int(o.n)
		case 'a':
			ab.AlignResize(o.n)
			n = int(bs.CeilAlign(uint64(o.n)))
		case 't':
			ab.Truncate(o.n)
			if int(o.n) < n {
				n = int(o.n)
			}
		case 'l':
			if ab.Align() != ab {
				fail("Align returned another buffer")
			}
			n = int(bs.CeilAlign(uint64(n)))
		}
		keep := ref
		if len(keep) > n {
			keep = keep[:n]
		}
		if o.k == 'a' && len(ref) > int(o.n) && n <= len(ref) {
			keep = ref[:n]
		}
		check(keep, n)
		fill(ab.AsBytes(), seq, 3)
		seq++
		ref = append([]byte(nil), ab.AsBytes()...)
	}
	w.C.Execs++
	w.C.Traces++
	if w.Seen(hashStr(fmt.Sprint(len(ref), srcLen, srcCap))) {
		w.C.States++
	}
}

func famC21(th bool) []*Family {
	var fs []*Family
	var al []abOp
	ls := []uint32{0, 1, 511, 512, 513, 1024, 1025, 1536}
	if th {
		ls = append(ls, 2, 510, 1023, 2048, 4097)
	}
	for _, n := range ls {
		al = append(al, abOp{'r', n}, abOp{'a', n}, abOp{'t', n})
	}
	al = append(al, abOp{'l', 0})
	srcs := []int{0, 1, 2, 511, 512, 513, 1000, 1024, 1535, 1536}
	d := 3
	get := func(i int) []abOp {
		ops := make([]abOp, d)
		for k := range ops {
			ops[k] = al[i%len(al)]
			i /= len(al)
		}
		return ops
	}
	fs = append(fs, &Family{Name: "words", N: pow(len(al), d), Run: func(w *W, i int) {
		for _, s := range srcs {
			runAligned(w, block.Min(), s, -1, 0, get(i))
		}
	}, Desc: func(i int) string { return fmt.Sprint(get(i)) }})
	// every source length, base offset and capacity
	offs := []int{0, 1, 2, 8, 255, 256, 504, 511}
	fs = append(fs, &Family{Name: "from", N: 1600, Run: func(w *W, n int) {
		for _, off := range offs {
			for _, c := range []int{n, n + 1, (n + 511) / 512 * 512, (n+511)/512*512 + 512, n + 300} {
				for _, op := range []abOp{{'l', 0}, {'r', uint32(n + 700)}, {'r', uint32(n / 2)}, {'a', uint32(n + 1)}} {
					runAligned(w, block.Min(), n, off, c, []abOp{op, {'r', 1100}})
				}
			}
		}
	}, Desc: func(i int) string { return fmt.Sprintf("source of %d bytes", i) }})
	// every base offset
	fs = append(fs, &Family{Name: "base", N: 512, Run: func(w *W, off int) {
		for _, n := range srcs {
			runAligned(w, block.Min(), n, off, n+600, []abOp{{'l', 0}})
			runAligned(w, block.Min(), n, off, n, []abOp{{'a', 513}})
		}
	}})
	// other block sizes
	bss := []uint16{512, 1024, 1536, 4096, 65024}
	fs = append(fs, &Family{Name: "blocksizes", N: len(bss) * 7, Run: func(w *W, i int) {
		bs, err := block.NewBlockSize(bss[i/7])
		if err != nil {
			w.Failf("NewBlockSize(%d): %v", bss[i/7], err)
		}
		b := int(bs)
		n := []int{0, 1, b - 1, b, b + 1, 2 * b, 3*b - 1}[i%7]
		for off := -1; off < 512; off += 73 {
			for _, op := range []abOp{{'l', 0}, {'r', uint32(2*b + 1)}, {'a', uint32(b + 1)}, {'a', uint32(b)}, {'t', uint32(b)}, {'r', 0}} {
				for _, op2 := range []abOp{{'l', 0}, {'r', uint32(2*b + 1)}, {'a', uint32(3*b + 1)}, {'t', 1}} {
					runAligned(w, bs, n, off, n+off%2+1, []abOp{op, op2})
				}
			}
		}
	}, Desc: func(i int) string { return fmt.Sprintf("block size %d case %d", bss[i/7], i%7) }})
	fs = append(fs, &Family{Name: "rounding", N: 65536, Run: func(w *W, i int) {
		bs, err := block.NewBlockSize(uint16(i))
		if (err == nil) != (i >= 512 && i%512 == 0) {
			w.Failf("NewBlockSize(%d): %v", i, err)
		}
		w.C.Execs++
		if err != nil {
			return
		}
		w.C.States++
		b := uint64(i)
		if bs.AsU16() != uint16(i) || bs.AsU32() != uint32(i) {
			w.Failf("block size %d reads back as %d", i, bs.AsU16())
		}
		for _, k := range []uint64{0, 1, 2, 3, 127, 128, 1<<32/b - 1, 1 << 32 / b, 1<<40/b - 1, 1 << 40 / b, 1<<62/b - 1} {
			for _, dlt := range []uint64{0, 1, 2, b / 2, b - 1} {
				p := k*b + dlt
				want := k * b
				if bs.FloorAlign(p) != want {
					w.Failf("block size %d: FloorAlign(%d) = %d", i, p, bs.FloorAlign(p))
				}
				if dlt != 0 {
					want += b
				}
				if bs.CeilAlign(p) != want {
					w.Failf("block size %d: CeilAlign(%d) = %d want %d", i, p, bs.CeilAlign(p), want)
				}
				if bs.IsAligned(p) != (dlt == 0) {
					w.Failf("block size %d: IsAligned(%d) = %v", i, p, bs.IsAligned(p))
				}
				w.C.Trans++
			}
		}
		for _, o := range []uint16{512, 1024, 1536, 2048, 4096, 65024} {
			if bs.Contains(block.BlockSize(o)) != (uint16(i) >= o && uint16(i)%o == 0) {
				w.Failf("BlockSize(%d).Contains(%d) = %v", i, o, bs.Contains(block.BlockSize(o)))
			}
		}
	}, Desc: func(i int) string { return fmt.Sprintf("block size %d", i) }})
	// lump data
	ld := []int{0, 1, 509, 510, 511, 512, 513, 1022, 1023, 1024, lump.LUMP_MAX_SIZE - 1, lump.LUMP_MAX_SIZE, lump.LUMP_MAX_SIZE + 1}
	fs = append(fs, &Family{Name: "lumpdata", N: len(ld), Chunk: 1, Run: func(w *W, i int) {
		d := lump.NewLumpDataAligned(ld[i], block.Min())
		if (d.Inner != nil) != (ld[i] <= lump.LUMP_MAX_SIZE) {
			w.Failf("NewLumpDataAligned(%d): %v", ld[i], d.Inner != nil)
		}
		if d.Inner != nil {
			if len(d.AsBytes()) != ld[i] {
				w.Failf("NewLumpDataAligned(%d) has %d bytes", ld[i], len(d.AsBytes()))
			}
			fill(d.AsBytes(), 1, 1)
			x := append([]byte(nil), d.AsBytes()...)
			d.Inner.AlignResize(uint32(ld[i]) + 2)
			if int(d.Inner.Len()) != (ld[i]+2+511)/512*512 || !bytes.Equal(d.AsBytes()[:ld[i]], x) {
				w.Failf("lump data of %d bytes does not grow by its trailer: %d", ld[i], d.Inner.Len())
			}
		}
		w.C.Execs++
		w.C.States++
		w.C.Trans++
	}, Desc: func(i int) string { return fmt.Sprintf("lump data of %d bytes", ld[i]) }})
	return fs
}

func init() {
	as := []string{"the component is used through its exported API by one thread"}
	register(&Check{ID: "C13", Families: famC13, Assume: as, Rule: "every allocate/release word up to the depth; every layout of the region reached by operations (all release orders) and by rebuilds, with every pair of operations from it; regions around the 2^24 limit"})
	register(&Check{ID: "C14", Families: famC14, Assume: as, Rule: "every record of the boundary product set: round trip with several reader granularities, every truncation, every single-byte change (large payloads: header, ends and every 1/50th byte)"})
	register(&Check{ID: "C15", Families: famC15, Assume: as, Rule: "every word of buffer operations up to the depth; every word of ring operations up to the depth from several start positions; every record size around many laps"})
	register(&Check{ID: "C17", Families: famC17, Assume: as, Rule: "every word of index operations up to the depth, all observers compared with a sorted map after each"})
	register(&Check{ID: "C21", Families: famC21, Assume: as, Rule: "every word of buffer operations up to the depth from every source length / base offset / capacity listed; all 65536 block sizes"})
}
