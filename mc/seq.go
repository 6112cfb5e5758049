package main

// Sequential driver: runs operation sequences on the real storage and checks every result
// against an ordered map with exact space accounting.

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	perrors "github.com/pkg/errors"
	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/internalerror"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/storage"
	"github.com/thesues/cannyls-go/storage/journal"
)

const (
	recPut, recDel, recRange, recEmbedHdr, recEOR = 20, 13, 21, 15, 5
	sector                                        = 512
)

var tailNote = os.Getenv("MC_NOTE") != ""

type Op struct {
	K    byte
	ID   uint64
	A, B int // size / range end / offset ...
	C    int
}

func (o Op) String() string {
	switch o.K {
	case 'P':
		return fmt.Sprintf("Put(%x,%d)", o.ID, o.A)
	case 'E':
		return fmt.Sprintf("PutEmbed(%x,%d)", o.ID, o.A)
	case 'D':
		return fmt.Sprintf("Delete(%x)", o.ID)
	case 'R':
		return fmt.Sprintf("DeleteRange(%x,%x)", o.ID, o.A)
	case 'w':
		return fmt.Sprintf("WriteRecord(%x,GetRecord(%x))", o.ID, o.ID)
	case 'G':
		return "JournalGC"
	case 'S':
		return fmt.Sprintf("SideJob(%d)", o.A)
	case 'Y':
		return "Sync"
	case 'F':
		return "Flush"
	case 'O':
		return "Reopen"
	case 'W':
		return fmt.Sprintf("PutWithOffset(%x,len=%d,off=%d,resv=%d)", o.ID, o.A, o.B, o.C)
	case 'g':
		return fmt.Sprintf("GetWithOffset(%x,off=%d,len=%d)", o.ID, o.A, o.B)
	case 'A':
		return fmt.Sprintf("AutoGC(%d)", o.A)
	case 's':
		return "CreateSnapshot"
	case 'd':
		return "DeleteSnapshot"
	case 'q':
		return "GetSnapshotReader"
	case '-':
		return "nop"
	case 'r':
		return fmt.Sprintf("Get+GetSize(%x)", o.ID)
	case 'K':
		return "Kill+reopen"
	case 'Z':
		return fmt.Sprintf("PowerLoss(%s)+reopen", []string{"all unsynced writes lost", "all but the last lost", "oldest lost", "newest lost"}[o.A])
	case 'X':
		return "CRASH"
	}
	return string(o.K)
}

func opsString(ops []Op) string {
	s := make([]string, len(ops))
	for i, o := range ops {
		s[i] = o.String()
	}
	return strings.Join(s, "; ")
}

type lumpVal struct {
	b     []byte
	embed bool
	h     uint64
}

func (v *lumpVal) blocks() int {
	if v.embed {
		return 0
	}
	return blocksOf(len(v.b))
}
func blocksOf(n int) int { return (n + 2 + sector - 1) / sector }

type Model struct {
	m map[uint64]*lumpVal
}

func newModel() *Model { return &Model{m: map[uint64]*lumpVal{}} }
func (m *Model) clone() *Model {
	r := newModel()
	for k, v := range m.m {
		r.m[k] = v
	}
	return r
}
func (m *Model) keys() []uint64 {
	r := make([]uint64, 0, len(m.m))
	for k := range m.m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}
func (m *Model) blocks() int {
	n := 0
	for _, v := range m.m {
		n += v.blocks()
	}
	return n
}
func (m *Model) liveBytes() int {
	n := 0
	for _, v := range m.m {
		if v.embed {
			n += recEmbedHdr + len(v.b)
		} else {
			n += recPut
		}
	}
	return n
}

type Cfg struct {
	Name       string
	Ring, Data int // sectors
	ManualGC   bool
	Pre        []Op
	Head       uint64 // the empty journal begins at this place of the ring
	Torn       bool   // crash engines: a write of several sectors may be cut
	Lots       int    // crash engines: so many small lumps are stored first
	Trail      uint16 // if not 0: the bytes at the end of every sector of a value
}

func (c *Cfg) journalBytes() uint64 { return uint64(c.Ring+1) * sector }
func (c *Cfg) capacity() uint64     { return uint64(1+1+c.Ring+c.Data) * sector }
func (c *Cfg) ratio() float64       { return (float64(c.journalBytes()) - 100) / float64(c.capacity()) }

var tmplCache = map[[2]int][]byte{}

// template returns the image of a fresh store of that geometry.
func template(w *W, c *Cfg) []byte {
	k := [2]int{c.Ring, c.Data}
	if b := tmplCache[k]; b != nil {
		return b
	}
	p := filepath.Join(w.Dir, "tmpl.lusf")
	rawRemove(p)
	if c.capacity() > 1<<32 && syscall.VerifIO == nil {
		// reserving space (size kept) has no effect on the content, and the file is huge
		syscall.VerifIO = &syscall.VerifIOHooks{Fallocate: func(fd int, mode uint32, off int64, length int64) (error, bool) { return nil, mode == 1 }}
		defer resetHooks()
	}
	st, err := storage.CreateCannylsStorage(p, c.capacity(), c.ratio())
	if err != nil {
		w.Failf("create of a %d byte store failed: %v", c.capacity(), err)
	}
	h := st.Header()
	if h.JournalRegionSize != c.journalBytes() || h.DataRegionSize != uint64(c.Data)*sector {
		w.Failf("geometry: journal %d data %d, want %d %d", h.JournalRegionSize, h.DataRegionSize, c.journalBytes(), c.Data*sector)
	}
	st.Close()
	b := rawRead(p)
	rawRemove(p)
	tmplCache[k] = b
	return b
}

type SUT struct {
	w      *W
	cfg    *Cfg
	path   string
	st     *storage.Storage
	m      *Model
	seq    int
	hist   []Op
	autoGC bool
	// lastErr is the error of the last op
	lastErr error
	snap    *snapInfo
	lax     bool // journal-full is always acceptable
	where   string
	flt     *faulter // armed during the operation, see check_fault.go
}

// openImage writes img to a file and opens it.
func newSUT(w *W, cfg *Cfg, img []byte) *SUT {
	s := &SUT{w: w, cfg: cfg, path: filepath.Join(w.Dir, "s.lusf"), m: newModel(), autoGC: !cfg.ManualGC}
	rawWriteFile(s.path, img)
	if cfg.Head > 0 {
		var h [8]byte
		binary.BigEndian.PutUint64(h[:], cfg.Head)
		rawWriteAt(s.path, h[:], sector)
		var eor bytes.Buffer
		journal.EndOfRecords{}.WriteTo(&eor)
		b := make([]byte, 2*sector)
		copy(b[cfg.Head%sector:], eor.Bytes())
		rawWriteAt(s.path, b, int64(2*sector+cfg.Head-cfg.Head%sector))
	}
	s.open()
	return s
}

func (s *SUT) open() {
	st, err := storage.OpenCannylsStorage(s.path)
	if err != nil && s.flt.hit() {
		s.w.Outcome("open-refused")
		s.flt.disarm()
		st, err = storage.OpenCannylsStorage(s.path)
	}
	if err != nil {
		s.fail("open failed: %v", err)
	}
	s.st = st
	if s.cfg.ManualGC {
		st.SetAutomaticGcMode(false)
	}
	s.autoGC = !s.cfg.ManualGC
}

func (s *SUT) fail(format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	if s.where != "" {
		msg = s.where + ": " + msg
	}
	s.w.Failf("%s\n  config %s; after %s", msg, s.cfg.Name, opsString(s.hist))
}

func (s *SUT) close() {
	if s.st != nil {
		s.st.Close()
		s.st = nil
	}
}

// fill produces content unique to (seq, id).
func fill(b []byte, seq int, id uint64) {
	x := uint64(seq)*0x9E3779B97F4A7C15 + id*0xBF58476D1CE4E5B9 + 0x94D049BB133111EB
	for i := range b {
		if i&7 == 0 {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
		}
		b[i] = byte(x >> (8 * uint(i&7)))
	}
}

func (s *SUT) value(id uint64, n int) []byte {
	s.seq++
	b := make([]byte, n)
	fill(b, s.seq, id)
	if s.cfg.Trail != 0 {
		for i := sector - 2; i+2 <= n; i += sector {
			b[i], b[i+1] = byte(s.cfg.Trail>>8), byte(s.cfg.Trail)
		}
	}
	return b
}

func lid(id uint64) lump.LumpId { return lump.FromU64(0, id) }

func isErr(err, target error) bool {
	return err != nil && (perrors.Cause(err) == target || errors.Is(err, target))
}

func lumpData(b []byte) lump.LumpData {
	d := lump.NewLumpDataAligned(len(b), block.Min())
	copy(d.AsBytes(), b)
	return d
}

// spoil overwrites a buffer which the caller gave to the store or got from it: the caller owns it.
func spoil(b []byte) {
	if len(b) > 1<<20 {
		b = b[:1<<20]
	}
	for i := range b {
		b[i] ^= 0xff
	}
}

// usedData is like lumpData, but every other value comes in a buffer which held a longer
// value before: the memory behind the payload is not zero.
func (s *SUT) usedData(b []byte) lump.LumpData {
	if s.seq&1 == 0 || len(b) > 1<<20 {
		return lumpData(b)
	}
	ab := block.NewAlignedBytes(len(b)+1600, block.Min())
	all := ab.AsBytes()
	for i := range all {
		all[i] = 0xe5
	}
	copy(all, b)
	if s.seq&2 == 0 {
		ab.Truncate(uint32(len(b)))
	} else {
		ab.Resize(uint32(len(b)))
	}
	return lump.NewLumpDataWithAb(ab)
}

// freeMap marks the blocks of live data lumps (excluding skip).
func (s *SUT) usedBlocks(skip uint64, haveSkip bool) []bool {
	used := make([]bool, s.cfg.Data)
	for id, v := range s.m.m {
		if v.embed || (haveSkip && id == skip) {
			continue
		}
		p, err := s.st.GetRecord(lid(id))
		if err != nil {
			s.fail("GetRecord(%x): %v", id, err)
		}
		if int(p.Len) != v.blocks() {
			s.fail("lump %x of %d bytes occupies %d blocks, want %d", id, len(v.b), p.Len, v.blocks())
		}
		for i := p.Start.AsU64(); i < p.End(); i++ {
			if i >= uint64(s.cfg.Data) {
				s.fail("lump %x occupies block %d beyond the data region of %d blocks", id, i, s.cfg.Data)
			}
			if used[i] {
				s.fail("two live lumps occupy block %d (one is %x)", i, id)
			}
			used[i] = true
		}
	}
	return used
}

func maxRun(used []bool) int {
	best, cur := 0, 0
	for _, u := range used {
		if u {
			cur = 0
		} else {
			cur++
			if cur > best {
				best = cur
			}
		}
	}
	return best
}

// comfortable: the journal has ample room for the live records and this one, so with
// automatic GC a journal-full error is a violation.
func (s *SUT) comfortable(rec int) bool {
	if s.lax || !s.autoGC || s.cfg.Ring < 8 {
		return false
	}
	return s.m.liveBytes()+rec <= s.cfg.Ring*sector/8
}

func (s *SUT) checkErr(op Op, err error, rec int, blocks int) {
	s.lastErr = err
	if err == nil {
		return
	}
	if s.flt.hit() {
		s.w.Outcome("device-error")
		return
	}
	if isErr(err, internalerror.JournalStorageFull) {
		if s.comfortable(rec) {
			js := s.st.JournalSnapshot()
			s.w.Logf("unreleased %d head %d tail %d entries %+v usage %+v", js.UnreleasedHead, js.Head, js.Tail, js.Entries, s.st.Usage())
			s.fail("%s: journal full although live records take %d of %d bytes", op, s.m.liveBytes(), s.cfg.Ring*sector)
		}
		s.w.Outcome("journal-full")
		return
	}
	if isErr(err, internalerror.StorageFull) && blocks > 0 {
		if r := maxRun(s.usedBlocks(op.ID, true)); r >= blocks {
			s.fail("%s: storage full although a free run of %d blocks exists (need %d)", op, r, blocks)
		}
		s.w.Outcome("storage-full")
		return
	}
	s.fail("%s: unexpected error %v", op, err)
}

// apply runs one op on the store and the model; the store is not verified here.
func (s *SUT) apply(op Op) {
	s.hist = append(s.hist, op)
	s.w.C.Trans++
	s.lastErr = nil
	switch op.K {
	case '-':
	case 'P':
		b := s.value(op.ID, op.A)
		_, had := s.m.m[op.ID]
		arg := s.usedData(b)
		up, err := s.st.Put(lid(op.ID), arg)
		spoil(arg.AsBytes())
		s.checkErr(op, err, recPut, blocksOf(op.A))
		if err == nil {
			if up != had {
				s.fail("%s reported updated=%v, lump existed=%v", op, up, had)
			}
			s.m.m[op.ID] = &lumpVal{b: b}
		}
	case 'E':
		b := s.value(op.ID, op.A)
		_, had := s.m.m[op.ID]
		arg := append([]byte(nil), b...)
		up, err := s.st.PutEmbed(lid(op.ID), arg)
		if op.A > lump.MAX_EMBEDDED_SIZE {
			if err == nil {
				s.fail("%s accepted an oversized value", op)
			}
			s.lastErr = err
			return
		}
		s.checkErr(op, err, recEmbedHdr+op.A, 0)
		for i := range arg { // the store must not keep the caller's buffer
			arg[i] ^= 0xff
		}
		if err == nil {
			if up != had {
				s.fail("%s reported updated=%v, lump existed=%v", op, up, had)
			}
			s.m.m[op.ID] = &lumpVal{b: b, embed: true}
		}
	case 'D':
		v, had := s.m.m[op.ID]
		up, size, err := s.st.Delete(lid(op.ID))
		s.checkErr(op, err, recDel, 0)
		if err == nil {
			if up != had {
				s.fail("%s reported deleted=%v, lump existed=%v", op, up, had)
			}
			want := 0
			if had {
				want = v.blocks() * sector
				if v.embed {
					want = len(v.b)
				}
			}
			if int(size) != want {
				s.fail("%s reported released size %d, want %d", op, size, want)
			}
			delete(s.m.m, op.ID)
		}
	case 'R':
		data := false // the caller may say that the range holds no data lump
		for k, v := range s.m.m {
			data = data || k >= op.ID && k < uint64(op.A) && !v.embed
		}
		err := s.st.DeleteRange(lid(op.ID), lid(uint64(op.A)), data)
		s.checkErr(op, err, recRange, 0)
		if err == nil {
			for k := range s.m.m {
				if k >= op.ID && k < uint64(op.A) {
					delete(s.m.m, k)
				}
			}
		}
	case 'w':
		// writing the record a lump has again changes nothing
		v, had := s.m.m[op.ID]
		p, err := s.st.GetRecord(lid(op.ID))
		if !had || v.embed {
			if err == nil {
				s.fail("GetRecord(%x) succeeded although there is no data lump", op.ID)
			}
			return
		}
		if err != nil {
			s.fail("GetRecord(%x): %v", op.ID, err)
		}
		s.checkErr(op, s.st.WriteRecord(lid(op.ID), *p), recPut, 0)
	case 'G':
		s.st.JournalGC()
	case 'S':
		s.st.RunSideJobOnce(op.A)
	case 'Y':
		s.st.Sync()
	case 'F':
		s.st.Flush()
	case 'O':
		s.close()
		s.open()
	case 'A':
		s.st.SetAutomaticGcMode(op.A != 0)
		s.autoGC = op.A != 0
	case 'W':
		b := s.value(op.ID, op.A)
		v, had := s.m.m[op.ID]
		arg := s.usedData(b)
		err := s.st.PutWithOffset(lid(op.ID), arg, uint32(op.B), uint32(op.C))
		spoil(arg.AsBytes())
		s.lastErr = err
		if !had {
			n := op.C
			if op.B+op.A > n {
				n = op.B + op.A
			}
			if op.B+op.A > lump.LUMP_MAX_SIZE || op.C > lump.LUMP_MAX_SIZE {
				if err == nil {
					s.fail("%s accepted", op)
				}
				return
			}
			s.checkErr(op, err, recPut, blocksOf(n))
			if err == nil {
				nb := make([]byte, n)
				copy(nb[op.B:], b)
				s.m.m[op.ID] = &lumpVal{b: nb}
			}
			return
		}
		if v.embed {
			if err == nil {
				s.fail("%s accepted on an embedded lump", op)
			}
			return
		}
		if op.B+op.A <= len(v.b) {
			if err != nil && s.flt.hit() {
				s.w.Outcome("device-error")
				return
			}
			if err != nil {
				s.fail("%s on a lump of %d bytes failed: %v", op, len(v.b), err)
			}
			nb := append([]byte(nil), v.b...)
			copy(nb[op.B:], b)
			s.m.m[op.ID] = &lumpVal{b: nb}
		} else if err == nil {
			s.fail("%s accepted although the lump has %d bytes", op, len(v.b))
		}
	case 'g':
		v, had := s.m.m[op.ID]
		got, err := s.st.GetWithOffset(lid(op.ID), uint32(op.A), uint32(op.B))
		if !had {
			if err == nil {
				s.fail("%s on an absent lump succeeded", op)
			}
			return
		}
		if err != nil && s.flt.hit() {
			s.lastErr = err
			s.w.Outcome("device-error")
			return
		}
		s.checkRange(op, v.b, got, err)
	case 'r':
		v, had := s.m.m[op.ID]
		b, err := s.st.Get(lid(op.ID))
		n, err2 := s.st.GetSize(lid(op.ID))
		if !had && (err == nil || err2 == nil) {
			s.fail("%s on an absent lump succeeded", op)
		}
		for _, e := range []error{err, err2} {
			if e != nil {
				s.lastErr = e
				if had && !s.flt.hit() {
					s.fail("%s: %v", op, e)
				}
				s.w.Outcome("device-error")
			}
		}
		if had && err == nil && !bytes.Equal(b, v.b) {
			s.fail("%s returns %d bytes, want the %d bytes stored last; equal prefix %d", op, len(b), len(v.b), commonPrefix(b, v.b))
		}
		if had && err2 == nil && int(n) != len(v.b) {
			s.fail("%s: size %d, want %d", op, n, len(v.b))
		}
	case 's', 'd', 'q':
		s.snapOp(op)
	case 'T': // the tail must be there: a check of the harness itself
		if js := s.st.JournalSnapshot(); js.Tail != uint64(op.A) && tailNote {
			s.fail("tail %d, planned %d", js.Tail, op.A)
		}
	default:
		panic("bad op")
	}
}

// checkRange is the oracle for GetWithOffset.
func (s *SUT) checkRange(op Op, b, got []byte, err error) {
	off, n := op.A, op.B
	if off > len(b) {
		if err == nil && len(got) > 0 {
			s.fail("%s on a lump of %d bytes returned %d bytes", op, len(b), len(got))
		}
		return
	}
	end := off + n
	if end > len(b) {
		end = len(b)
	}
	if err != nil {
		if off == len(b) || off+n > len(b) {
			// "clipped at its end or an error when the start lies beyond the end": an error is
			// accepted only when the request reaches past the whole allocated blocks
			if off == len(b) || off+n > blocksOf(len(b))*sector-2 {
				return
			}
		}
		s.fail("%s on a lump of %d bytes failed: %v", op, len(b), err)
	}
	if !bytes.Equal(got, b[off:end]) {
		s.fail("%s on a lump of %d bytes: got %d bytes, want %d; equal prefix %d", op, len(b), len(got), end-off, commonPrefix(got, b[off:end]))
	}
}

func commonPrefix(a, b []byte) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

// verify compares every observable with the model.
func (s *SUT) verify() {
	keys := s.m.keys()
	got := s.st.List()
	if len(got) != len(keys) {
		s.fail("List returns %v, want %x", idsOf(got), keys)
	}
	for i := range keys {
		if got[i].U64() != keys[i] {
			s.fail("List returns %v, want %x", idsOf(got), keys)
		}
	}
	for _, k := range keys {
		v := s.m.m[k]
		b, err := s.st.Get(lid(k))
		if err != nil {
			s.fail("Get(%x) failed: %v", k, err)
		}
		if !bytes.Equal(b, v.b) {
			s.fail("Get(%x) returns %d bytes, want the %d bytes stored last; equal prefix %d", k, len(b), len(v.b), commonPrefix(b, v.b))
		}
		spoil(b)
		n, err := s.st.GetSize(lid(k))
		if err != nil || int(n) != len(v.b) {
			s.fail("GetSize(%x) = %d, %v; want %d", k, n, err, len(v.b))
		}
	}
	u := s.st.Usage()
	if u.FileCounts != uint64(len(keys)) {
		s.fail("file count %d, want %d", u.FileCounts, len(keys))
	}
	want := uint64(s.cfg.Data-s.m.blocks()) * sector
	if u.DataFreeBytes != want {
		s.fail("free data bytes %d, want %d", u.DataFreeBytes, want)
	}
	s.usedBlocks(0, false)
}

// verifyQueries checks the ordered-map queries.
func (s *SUT) verifyQueries(probe []uint64) {
	keys := s.m.keys()
	mn, ok := s.st.MinId()
	if ok != (len(keys) > 0) || ok && mn.U64() != keys[0] {
		s.fail("MinId = %s,%v want %x", mn, ok, keys)
	}
	mx, ok := s.st.MaxId()
	if ok != (len(keys) > 0) || ok && mx.U64() != keys[len(keys)-1] {
		s.fail("MaxId = %s,%v want %x", mx, ok, keys)
	}
	for _, p := range probe {
		f, err := s.st.First(lid(p))
		i := sort.Search(len(keys), func(i int) bool { return keys[i] >= p })
		if (err == nil) != (i < len(keys)) || err == nil && f.U64() != keys[i] {
			s.fail("First(%x) = %s,%v want %x", p, f, err, keys[i:])
		}
		if _, had := s.m.m[p]; !had {
			if b, err := s.st.Get(lid(p)); err == nil {
				s.fail("Get of absent lump %x returned %d bytes", p, len(b))
			}
			if _, err := s.st.GetSize(lid(p)); err == nil {
				s.fail("GetSize of absent lump %x succeeded", p)
			}
			if _, err := s.st.GetSizeOnDisk(lid(p)); err == nil {
				s.fail("GetSizeOnDisk of absent lump %x succeeded", p)
			}
		} else {
			v := s.m.m[p]
			n, err := s.st.GetSizeOnDisk(lid(p))
			want := v.blocks() * sector
			if v.embed {
				want = len(v.b)
			}
			if err != nil || int(n) != want {
				s.fail("GetSizeOnDisk(%x) = %d,%v want %d", p, n, err, want)
			}
		}
		for _, q := range probe {
			for _, max := range []uint64{0, 1, 2, 1 << 40} {
				l := s.st.ListRange(lid(p), lid(q), max)
				var wantl []uint64
				for _, k := range keys {
					if k >= p && k < q && uint64(len(wantl)) < max {
						wantl = append(wantl, k)
					}
				}
				bad := len(l) != len(wantl)
				for i := 0; !bad && i < len(l); i++ {
					bad = l[i].U64() != wantl[i]
				}
				if bad {
					s.fail("ListRange(%x,%x,%d) = %v want %x", p, q, max, idsOf(l), wantl)
				}
			}
		}
	}
	id, ok := s.st.GenerateEmptyId()
	if !ok {
		s.fail("GenerateEmptyId found none with %d lumps", len(keys))
	}
	if _, had := s.m.m[id.U64()]; had {
		s.fail("GenerateEmptyId returned the live id %s", id)
	}
}

func idsOf(l []lump.LumpId) string {
	var s []string
	for i, x := range l {
		if i > 20 {
			s = append(s, "...")
			break
		}
		s = append(s, x.String())
	}
	return "[" + strings.Join(s, " ") + "]"
}

func (s *SUT) stateHash() uint64 {
	var sb strings.Builder
	for _, k := range s.m.keys() {
		v := s.m.m[k]
		fmt.Fprintf(&sb, "%x:%d:%v;", k, len(v.b), v.embed)
		if !v.embed {
			if p, err := s.st.GetRecord(lid(k)); err == nil {
				fmt.Fprintf(&sb, "@%d", p.Start)
			}
		}
	}
	u := s.st.Usage()
	fmt.Fprintf(&sb, "u%d", u.JournalUsageBytes)
	return hashStr(s.cfg.Name + sb.String())
}

func (s *SUT) note() {
	if s.w.Seen(s.stateHash()) {
		s.w.C.States++
	}
}

// runOps: apply and verify each op, then optionally reopen and verify.
func runOps(w *W, cfg *Cfg, ops []Op, each bool, reopen bool, probe []uint64) {
	s := newSUT(w, cfg, template(w, cfg))
	defer s.close()
	for _, o := range cfg.Pre {
		s.apply(o)
	}
	s.verify()
	for _, o := range ops {
		s.apply(o)
		if each {
			s.verify()
			s.note()
			if probe != nil {
				s.verifyQueries(probe)
			}
		}
	}
	if !each {
		s.verify()
		s.note()
	}
	if reopen {
		s.hist = append(s.hist, Op{K: 'O'})
		s.close()
		s.open()
		s.verify()
	}
	w.C.Execs++
	w.C.Traces++
}

// word decodes idx as a word of length n over the alphabet.
func word(alpha []Op, n, idx int) []Op {
	r := make([]Op, n)
	for i := n - 1; i >= 0; i-- {
		r[i] = alpha[idx%len(alpha)]
		idx /= len(alpha)
	}
	return r
}

func pow(b, e int) int {
	r := 1
	for i := 0; i < e; i++ {
		r *= b
	}
	return r
}

func repeatOps(ops []Op, n int) []Op {
	var r []Op
	for i := 0; i < n; i++ {
		r = append(r, ops...)
	}
	return r
}
