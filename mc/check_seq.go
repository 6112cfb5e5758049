package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"syscall"

	"github.com/thesues/cannyls-go/block"
	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/portion"
	"github.com/thesues/cannyls-go/storage"
	"github.com/thesues/cannyls-go/storage/journal"
)

// ---------------------------------------------------------------- alphabets and initial stores

var alphaA = []Op{
	{K: 'P', ID: 1, A: 10}, {K: 'P', ID: 1, A: 600}, {K: 'P', ID: 2, A: 510}, {K: 'E', ID: 1, A: 5}, {K: 'E', ID: 3, A: 200},
	{K: 'D', ID: 1}, {K: 'D', ID: 3}, {K: 'R', ID: 1, A: 3}, {K: 'R', ID: 2, A: 9}, {K: 'G'}, {K: 'S', A: 2}, {K: 'O'},
}
var probeA = []uint64{0, 1, 2, 3, 4, 1 << 63, ^uint64(0)}

// alphaB is used from initial stores with history.
var alphaB = []Op{
	{K: 'P', ID: 1, A: 10}, {K: 'P', ID: 2, A: 1000}, {K: 'E', ID: 3, A: 30}, {K: 'W', ID: 1, A: 4, B: 6, C: 12}, {K: 'D', ID: 1}, {K: 'R', ID: 2, A: 9},
	{K: 'G'}, {K: 'S', A: 3}, {K: 'Y'}, {K: 'F'},
}
var alphaBO = append(append([]Op{}, alphaB...), Op{K: 'O'})

// ringAt leaves the journal of a ring8 store empty with its tail at pos (3400 <= pos < 4080).
func ringAt(pos int) []Op {
	var r []Op
	for k := 0; k < 2; k++ {
		for i := 0; i < 4; i++ {
			r = append(r, Op{K: 'E', ID: 9, A: 385})
		}
		r = append(r, Op{K: 'D', ID: 9}, Op{K: 'G'}) // 4*400+13
	}
	n := pos - 2*1613 - recEmbedHdr - recDel
	return append(r, Op{K: 'E', ID: 9, A: n}, Op{K: 'D', ID: 9}, Op{K: 'G'}, Op{K: 'T', A: pos})
}

func join(a ...[]Op) []Op {
	var r []Op
	for _, x := range a {
		r = append(r, x...)
	}
	return r
}

var live3 = []Op{{K: 'P', ID: 2, A: 510}, {K: 'E', ID: 3, A: 100}, {K: 'P', ID: 5, A: 3}}

var cfgsA = []*Cfg{
	{Name: "ring8", Ring: 8, Data: 6},
	{Name: "ring8-manual", Ring: 8, Data: 6, ManualGC: true},
	{Name: "ring2", Ring: 2, Data: 5},
}

// cfgsB: initial stores with history: journal about to wrap at several residues, wrapped with
// live records on both sides, GC in the middle of its queue, data region nearly full.
var cfgsB = []*Cfg{
	{Name: "wrap0", Ring: 8, Data: 6, Pre: join(ringAt(4096-20-5), live3[:1])},
	{Name: "wrap1", Ring: 8, Data: 6, Pre: join(ringAt(4096-20-13-5-1), live3[:1])},
	{Name: "wrap2", Ring: 8, Data: 6, Pre: join(ringAt(4096-40-4), live3[:1])},
	{Name: "wrap3", Ring: 8, Data: 6, Pre: join(ringAt(4096-260), live3)},
	{Name: "wrap4-manual", Ring: 8, Data: 6, ManualGC: true, Pre: join(ringAt(4096-60-13-5), []Op{{K: 'P', ID: 2, A: 5}, {K: 'P', ID: 1, A: 7}, {K: 'E', ID: 3, A: 300}})},
	{Name: "wrapped-live", Ring: 8, Data: 6, Pre: join(ringAt(3950), live3, []Op{{K: 'E', ID: 4, A: 200}, {K: 'P', ID: 2, A: 7}})},
	{Name: "midgc", Ring: 4, Data: 6, Pre: join(live3, repeatOps([]Op{{K: 'E', ID: 4, A: 120}}, 8), []Op{{K: 'P', ID: 1, A: 9}})},
	{Name: "gcqueue-manual", Ring: 8, Data: 6, ManualGC: true, Pre: join(live3, []Op{{K: 'E', ID: 4, A: 20}, {K: 'D', ID: 4}, {K: 'P', ID: 1, A: 9}, {K: 'S', A: 1}, {K: 'S', A: 1}, {K: 'P', ID: 6, A: 9}})},
	{Name: "datafull", Ring: 8, Data: 6, Pre: []Op{{K: 'P', ID: 4, A: 510}, {K: 'P', ID: 5, A: 511}, {K: 'P', ID: 6, A: 510}, {K: 'D', ID: 4}}},
	{Name: "fragmented", Ring: 8, Data: 6, Pre: []Op{{K: 'P', ID: 4, A: 1}, {K: 'P', ID: 5, A: 1}, {K: 'P', ID: 6, A: 1}, {K: 'P', ID: 7, A: 1}, {K: 'P', ID: 8, A: 1}, {K: 'Y'}, {K: 'D', ID: 4}, {K: 'D', ID: 6}, {K: 'Y'}}},
}

// alphaC is used for words repeated many times.
var alphaC = []Op{
	{K: 'P', ID: 1, A: 10}, {K: 'P', ID: 2, A: 700}, {K: 'E', ID: 1, A: 31}, {K: 'E', ID: 3, A: 150}, {K: 'D', ID: 1}, {K: 'R', ID: 1, A: 4},
	{K: 'S', A: 4}, {K: 'G'}, {K: 'Y'},
}
var alphaCO = append(append([]Op{}, alphaC...), Op{K: 'O'})

var cfgsC = []*Cfg{
	{Name: "ring8", Ring: 8, Data: 9},
	{Name: "ring8-live", Ring: 8, Data: 9, Pre: []Op{{K: 'P', ID: 7, A: 100}, {K: 'E', ID: 8, A: 40}}},
	{Name: "ring3", Ring: 3, Data: 9, Pre: []Op{{K: 'P', ID: 7, A: 100}}},
}

// tiny stores where data-full and journal-full occur everywhere
var alphaT = []Op{
	{K: 'P', ID: 1, A: 10}, {K: 'P', ID: 1, A: 1000}, {K: 'P', ID: 2, A: 511}, {K: 'E', ID: 1, A: 60}, {K: 'E', ID: 2, A: 250}, {K: 'P', ID: 3, A: 0},
	{K: 'D', ID: 1}, {K: 'D', ID: 2}, {K: 'R', ID: 1, A: 3}, {K: 'W', ID: 1, A: 4, B: 8, C: 0}, {K: 'W', ID: 3, A: 600, B: 0, C: 700}, {K: 'O'},
}
var alphaTF = append(append([]Op{}, alphaT...), Op{K: 'Y'}, Op{K: 'G'}, Op{K: 'E', ID: 3, A: 65536})

var cfgsT = []*Cfg{
	{Name: "tiny1-3", Ring: 1, Data: 3},
	{Name: "tiny1-2-manual", Ring: 1, Data: 2, ManualGC: true},
	{Name: "tiny2-3", Ring: 2, Data: 3},
	{Name: "tiny2-4-manual", Ring: 2, Data: 4, ManualGC: true},
	{Name: "full2-3", Ring: 2, Data: 3, Pre: []Op{{K: 'P', ID: 1, A: 511}, {K: 'P', ID: 2, A: 1}, {K: 'E', ID: 4, A: 200}}},
	{Name: "jfull3-manual", Ring: 3, Data: 4, ManualGC: true, Pre: []Op{{K: 'P', ID: 1, A: 11}, {K: 'E', ID: 4, A: 500}, {K: 'P', ID: 2, A: 12}, {K: 'E', ID: 5, A: 500}, {K: 'E', ID: 6, A: 200}}},
}

func wordFam(name string, alpha []Op, d int, run func(w *W, ops []Op)) *Family {
	return &Family{Name: name, N: pow(len(alpha), d),
		Run:  func(w *W, i int) { run(w, word(alpha, d, i)) },
		Desc: func(i int) string { return opsString(word(alpha, d, i)) }}
}

// cyclic words: all words of length 1..d
func wordsUpTo(alpha []Op, d int) [][]Op {
	var r [][]Op
	for n := 1; n <= d; n++ {
		for i := 0; i < pow(len(alpha), n); i++ {
			r = append(r, word(alpha, n, i))
		}
	}
	return r
}

func cyclicFam(name string, words [][]Op, times int, run func(w *W, ops []Op, times int)) *Family {
	return &Family{Name: name, N: len(words),
		Run:  func(w *W, i int) { run(w, words[i], times) },
		Desc: func(i int) string { return fmt.Sprintf("(%s) x %d", opsString(words[i]), times) }}
}

func (s *SUT) reopen() {
	s.hist = append(s.hist, Op{K: 'O'})
	s.close()
	s.open()
}

// trimHist keeps failure messages of long runs readable.
func (s *SUT) trimHist() {
	if len(s.hist) > 400 {
		s.hist = append([]Op(nil), s.hist[len(s.hist)-200:]...)
	}
}

func start(w *W, cfg *Cfg) *SUT {
	s := newSUT(w, cfg, template(w, cfg))
	for _, o := range cfg.Pre {
		s.apply(o)
	}
	s.verify()
	return s
}

// runCyclic repeats a word; every lap is verified.
func runCyclic(w *W, cfg *Cfg, ops []Op, times int, every int, last bool) {
	s := start(w, cfg)
	defer s.close()
	for i := 0; i < times; i++ {
		for _, o := range ops {
			s.apply(o)
		}
		if i%every == 0 {
			s.verify()
			s.note()
			w.Beat("lap")
		}
		s.trimHist()
	}
	s.verify()
	if last {
		s.reopen()
		s.verify()
	}
	w.C.Execs++
	w.C.Traces++
}

// ---------------------------------------------------------------- scale

const idTop, idHalf = ^uint64(0), uint64(1) << 63

// endHalf is 2^63 as the range end of an Op.
const endHalf = -1 << 63

// alphaI: ids at the ends and in the middle of the id space, a word of Judy each.
var alphaI = []Op{
	{K: 'P', ID: 0, A: 10}, {K: 'P', ID: idTop, A: 20}, {K: 'E', ID: idHalf, A: 5}, {K: 'P', ID: 1 << 32, A: 600}, {K: 'E', ID: idHalf - 1, A: 30}, {K: 'E', ID: idTop, A: 7}, {K: 'E', ID: 256, A: 9},
	{K: 'D', ID: 0}, {K: 'D', ID: idTop}, {K: 'D', ID: idHalf}, {K: 'R', ID: 0, A: endHalf}, {K: 'R', ID: idHalf, A: -1}, {K: 'R', ID: 1, A: 1<<32 + 1}, {K: 'R', ID: 5, A: 5}, {K: 'R', ID: 0, A: -1}, {K: 'G'},
}
var probeI = []uint64{0, 1, 255, 256, 257, 1<<32 - 1, 1 << 32, idHalf - 1, idHalf, idTop - 1, idTop}
var cfgI = &Cfg{Name: "ids", Ring: 8, Data: 6}

// alphaG: values up to the biggest the format allows.
var alphaG = []Op{
	{K: 'P', ID: 1, A: 33553918}, {K: 'P', ID: 1, A: 16<<20 - 2}, {K: 'P', ID: 2, A: 16<<20 - 1}, {K: 'P', ID: 2, A: 1 << 20}, {K: 'P', ID: 3, A: 70000},
	{K: 'E', ID: 1, A: 65535}, {K: 'E', ID: 3, A: 65534}, {K: 'E', ID: 4, A: 32768}, {K: 'E', ID: 4, A: 4097}, {K: 'E', ID: 5, A: 65536},
	{K: 'D', ID: 1}, {K: 'R', ID: 2, A: 4}, {K: 'W', ID: 1, A: 40000, B: 16<<20 - 60000, C: 16 << 20}, {K: 'W', ID: 6, A: 5, B: 33553913}, {K: 'W', ID: 6, A: 6, B: 33553913}, {K: 'G'},
	{K: 'g', ID: 1, A: 65530, B: 100000}, {K: 'O'},
}
var cfgsG = []*Cfg{
	{Name: "big", Ring: 700, Data: 131072 + 600},
	{Name: "big-tight", Ring: 260, Data: 65535 + 40000, Pre: []Op{{K: 'P', ID: 7, A: 300}, {K: 'E', ID: 8, A: 300}}},
}

// populations of many lumps: id of the i-th lump
var popIds = []func(i uint64) uint64{
	func(i uint64) uint64 { return i },
	func(i uint64) uint64 { return idTop - i*3 },
	func(i uint64) uint64 { return i << 53 },
	func(i uint64) uint64 { return i * 0x9E3779B97F4A7C15 },
	func(i uint64) uint64 { return (i&31)<<56 | (i>>5)<<20 },
}

var popOps = []string{"delete every 2nd", "overwrite every 3rd", "embed every 5th", "range: middle third", "range: from the middle up", "gc", "side jobs", "reopen", "sync", "delete all but 3", "range: everything"}

// runMany: n lumps, then a word of bulk operations.
func runMany(w *W, n int, pat int, word []int) {
	runManyIn(w, &Cfg{Name: fmt.Sprintf("many%d/%d", n, pat), Ring: n/8 + 40, Data: n + n/2 + 8}, n, pat, word)
}

func runManyIn(w *W, cfg *Cfg, n int, pat int, word []int) {
	s := newSUT(w, cfg, template(w, cfg))
	defer s.close()
	id := popIds[pat]
	put := func(i int, embed bool) {
		o := Op{K: 'P', ID: id(uint64(i)), A: 3 + i%1000}
		if embed {
			o.K, o.A = 'E', 1+i%50
		}
		s.apply(o)
		s.trimHist()
	}
	for i := 0; i < n; i++ {
		put(i, i%4 == 3)
	}
	s.verify()
	for _, b := range word {
		keys := s.m.keys()
		at := func(num, den int) uint64 {
			if len(keys) == 0 {
				return 0
			}
			return keys[(len(keys)-1)*num/den]
		}
		w.Beat(popOps[b])
		switch b {
		case 0, 9:
			for i, k := range keys {
				if b == 0 && i%2 == 0 || b == 9 && i > 2 {
					s.apply(Op{K: 'D', ID: k})
				}
			}
		case 1:
			for i := 0; i < n; i += 3 {
				put(i, false)
			}
		case 2:
			for i := 0; i < n; i += 5 {
				put(i, true)
			}
		case 3:
			s.apply(Op{K: 'R', ID: at(1, 3), A: int(at(2, 3))})
		case 4:
			s.apply(Op{K: 'R', ID: at(1, 2), A: -1})
		case 10:
			s.apply(Op{K: 'R', ID: 0, A: -1})
		case 5:
			s.apply(Op{K: 'G'})
		case 6:
			s.apply(Op{K: 'S', A: n})
		case 7:
			s.apply(Op{K: 'O'})
		case 8:
			s.apply(Op{K: 'Y'})
		}
		s.trimHist()
		s.verify()
		s.verifyQueries([]uint64{0, id(uint64(n / 2)), at(1, 2), at(1, 1), idTop})
		s.note()
	}
	s.reopen()
	s.verify()
	w.C.Execs++
	w.C.Traces++
}

func scaleFams(th bool, reopen bool) []*Family {
	var fs []*Family
	dI, dG, dM := 3, 2, 2
	sizes := []int{40, 300, 1500}
	if reopen {
		sizes = sizes[:2]
	}
	if th {
		dI, dG, dM = 4, 3, 3
		sizes = append(sizes, 20000)
	}
	fs = append(fs, wordFam("ids", alphaI, dI, func(w *W, ops []Op) { runOps(w, cfgI, ops, true, reopen, probeI) }))
	for _, c := range cfgsG {
		c := c
		fs = append(fs, wordFam("big/"+c.Name, alphaG, dG, func(w *W, ops []Op) { runOps(w, c, ops, true, reopen, nil) }))
	}
	for _, n := range sizes {
		n := n
		d := dM
		if n > 10000 {
			d = 1
		}
		nw := pow(len(popOps), d)
		wd := func(i int) []int {
			var r []int
			for k := 0; k < d; k++ {
				r = append(r, i%len(popOps))
				i /= len(popOps)
			}
			return r
		}
		fs = append(fs, &Family{Name: fmt.Sprintf("many/%d", n), N: nw * len(popIds), Run: func(w *W, i int) { runMany(w, n, i%len(popIds), wd(i/len(popIds))) },
			Desc: func(i int) string {
				r := ""
				for _, b := range wd(i / len(popIds)) {
					r += "; " + popOps[b]
				}
				return fmt.Sprintf("%d lumps, id pattern %d%s", n, i%len(popIds), r)
			}})
	}
	// more lumps than any buffer of ids or offsets which one may think of
	huge := [][]int{{4}, {10}, {1, 4}, {3, 7}, {9, 5}, {5, 2, 5}}
	if reopen {
		huge = [][]int{{10}, {1, 4}, {3, 7}, {5, 2, 5}}
	}
	fs = append(fs, &Family{Name: "huge", N: len(huge), Run: func(w *W, i int) { runMany(w, 70000, 0, huge[i]) }, Desc: func(i int) string { return fmt.Sprintf("70000 lumps; bulk operations %v", huge[i]) }})
	// a journal of 12 GiB (the file is sparse) in use around places 2^32, 2^33 and at its end
	dF := 3
	if th {
		dF = 5
	}
	for i, h := range farHeads {
		c := farCfg(i)
		fs = append(fs, wordFam(fmt.Sprintf("far/%d", h), alphaBO, dF, func(w *W, ops []Op) { runOps(w, c, ops, true, reopen, nil) }))
	}
	// lumps more than 4 GiB into the data region
	fs = append(fs, &Family{Name: "hugedata", N: len(hugeLayouts), Chunk: 1, Run: func(w *W, i int) { runHuge(w, 1<<24+70000, i, "") },
		Desc: func(i int) string {
			return fmt.Sprintf("%d data blocks, lumps %s", 1<<24+70000, hugeLayouts[i])
		}})
	return fs
}

const farRing = 3 << 23

var farHeads = []uint64{1<<32 - 2048, 1<<32 - 512, 1<<32 - 70, 1 << 32, 1<<32 + 130, 1<<33 - 30, farRing*sector - 2100, farRing*sector - 300, farRing*sector - 60}

func farCfg(i int) *Cfg {
	return &Cfg{Name: fmt.Sprintf("far%d", farHeads[i]), Ring: farRing, Data: 9, Head: farHeads[i], ManualGC: i == 2 || i == 7}
}

// ---------------------------------------------------------------- C01

func famC01(th bool) []*Family {
	var fs []*Family
	dA, dB, dC, times := 4, 4, 3, 40
	if th {
		dA, dB, dC, times = 6, 5, 4, 60
	}
	for _, c := range cfgsA {
		c := c
		fs = append(fs, wordFam("seq/"+c.Name, alphaA, dA, func(w *W, ops []Op) { runOps(w, c, ops, true, true, probeA) }))
	}
	for _, c := range cfgsB {
		c := c
		fs = append(fs, wordFam("from/"+c.Name, alphaB, dB, func(w *W, ops []Op) { runOps(w, c, ops, true, false, nil) }))
	}
	for _, c := range cfgsC {
		c := c
		fs = append(fs, cyclicFam("cyclic/"+c.Name, wordsUpTo(alphaC, dC), times, func(w *W, ops []Op, n int) { runCyclic(w, c, ops, n, 1, false) }))
	}
	// records read and written again (GetRecord, WriteRecord)
	dW := 3
	if th {
		dW = 5
	}
	for _, c := range []*Cfg{cfgsA[0], cfgsA[2], cfgsB[3], cfgsB[5], cfgsB[6], cfgsB[9]} {
		c := c
		fs = append(fs, wordFam("record/"+c.Name, alphaW, dW, func(w *W, ops []Op) { runOps(w, c, ops, true, true, nil) }))
	}
	return append(fs, scaleFams(th, false)...)
}

var alphaW = []Op{
	{K: 'w', ID: 1}, {K: 'w', ID: 2}, {K: 'w', ID: 5}, {K: 'P', ID: 1, A: 600}, {K: 'P', ID: 2, A: 510}, {K: 'E', ID: 1, A: 30}, {K: 'W', ID: 1, A: 4, B: 6, C: 12}, {K: 'D', ID: 1}, {K: 'R', ID: 2, A: 9}, {K: 'R', ID: 3, A: 5},
	{K: 'G'}, {K: 'S', A: 3}, {K: 'Y'}, {K: 'O'},
}

// ---------------------------------------------------------------- C02

// runReopen: w1, reopen, w2, reopen, verify.
func runReopen(w *W, cfg *Cfg, w1, w2 []Op) {
	s := start(w, cfg)
	defer s.close()
	for _, o := range w1 {
		s.apply(o)
	}
	s.verify()
	s.reopen()
	s.verify()
	s.verifyQueries(probeA[:5])
	s.note()
	for _, o := range w2 {
		s.apply(o)
		s.verify()
	}
	s.reopen()
	s.verify()
	s.reopen() // and once more: opening changes nothing
	s.verify()
	s.note()
	w.C.Execs++
	w.C.Traces++
}

func famC02(th bool) []*Family {
	var fs []*Family
	d1, d2, dC, times := 2, 2, 2, 40
	if th {
		d1, d2, dC, times = 3, 2, 3, 50
	}
	for _, c := range append(append([]*Cfg{}, cfgsA...), cfgsB...) {
		c := c
		fs = append(fs, wordFam("reopen/"+c.Name, alphaB, d1+d2, func(w *W, ops []Op) { runReopen(w, c, ops[:d1], ops[d1:]) }))
	}
	for _, c := range cfgsA {
		c := c
		fs = append(fs, wordFam("end/"+c.Name, alphaA, d1+d2, func(w *W, ops []Op) { runOps(w, c, ops, false, true, nil) }))
	}
	for _, c := range cfgsC {
		c := c
		fs = append(fs, cyclicFam("cyclic/"+c.Name, wordsUpTo(alphaCO, dC), times, func(w *W, ops []Op, n int) { runCyclicReopen(w, c, ops, n) }))
	}
	return append(fs, scaleFams(th, true)...)
}

func runCyclicReopen(w *W, cfg *Cfg, ops []Op, times int) {
	s := start(w, cfg)
	defer s.close()
	for i := 0; i < times; i++ {
		for _, o := range ops {
			s.apply(o)
		}
		if i%3 == 0 {
			s.reopen()
		}
		s.verify()
		s.note()
		w.Beat("lap")
		s.trimHist()
	}
	w.C.Execs++
	w.C.Traces++
}

// ---------------------------------------------------------------- C05

// drain deletes everything; then lumps filling the whole data region must fit, repeatedly.
func (s *SUT) drain() {
	for _, id := range s.m.keys() {
		s.apply(Op{K: 'D', ID: id})
		if s.lastErr != nil {
			// journal full: GC by hand must help, all but a few records are garbage
			s.apply(Op{K: 'G'})
			s.apply(Op{K: 'D', ID: id})
			if s.lastErr != nil {
				return
			}
		}
	}
	s.verify()
	full := Op{K: 'P', ID: 77, A: s.cfg.Data*sector - 2}
	for i := 0; i < 2; i++ {
		s.apply(full)
		if s.lastErr != nil && isJournalFull(s.lastErr) {
			s.apply(Op{K: 'G'})
			s.apply(full)
		}
		if s.lastErr != nil {
			if isJournalFull(s.lastErr) {
				return
			}
			s.fail("%s into an empty store: %v", full, s.lastErr)
		}
		s.verify()
		s.apply(Op{K: 'D', ID: 77})
		if s.lastErr != nil {
			return
		}
		s.verify()
		if i == 0 {
			s.reopen()
			s.verify()
		}
	}
	s.w.C.Nontrivial++
}

func runSpace(w *W, cfg *Cfg, ops []Op) {
	s := start(w, cfg)
	defer s.close()
	for _, o := range ops {
		s.apply(o)
		s.verify()
		s.verifySegment(false)
		s.note()
	}
	s.apply(Op{K: 'Y'})
	s.verifySegment(true)
	s.drain()
	w.C.Execs++
	w.C.Traces++
}

// verifySegment: the biggest storable lump reported is the biggest free run. Space freed since
// the last sync may be left out: it is available after a sync only.
func (s *SUT) verifySegment(synced bool) {
	want := uint64(0)
	if r := maxRun(s.usedBlocks(0, false)); r > 0 {
		want = uint64(r)*sector - 2
		if want > lump.LUMP_MAX_SIZE {
			want = lump.LUMP_MAX_SIZE
		}
	}
	if got := s.st.Usage().MaxSegmentSize; got > want || synced && got != want {
		s.fail("largest segment reported %d, want %d", got, want)
	}
}

// runStatus: the allocation map of a store of several map points (8192 blocks each).
func runStatus(w *W, cfg *Cfg, ops []Op) {
	const per = 4 << 20 / sector
	s := start(w, cfg)
	defer s.close()
	check := func() {
		s.apply(Op{K: 'Y'})
		used := s.usedBlocks(0, false)
		got := s.st.GetAllocationStatus()
		if len(got) != len(used)/per {
			s.fail("allocation map of %d points, want %d", len(got), len(used)/per)
		}
		for i := range got {
			n := 0
			for _, u := range used[i*per : (i+1)*per] {
				if u {
					n++
				}
			}
			if d := got[i] - float64(n)/per; d > 1e-9 || d < -1e-9 {
				s.fail("allocation map: point %d is %v, want %d of %d blocks", i, got[i], n, per)
			}
		}
		s.verifySegment(true)
	}
	check()
	for _, o := range ops {
		s.apply(o)
		s.verify()
		check()
	}
	w.C.Execs++
	w.C.Traces++
	s.note()
}

var alphaMap = []Op{{K: 'P', ID: 1, A: 4<<20 - 2}, {K: 'P', ID: 2, A: 4<<20 - 1}, {K: 'P', ID: 3, A: 3 << 20}, {K: 'P', ID: 4, A: 100}, {K: 'E', ID: 5, A: 100}, {K: 'D', ID: 1}, {K: 'R', ID: 2, A: 4}, {K: 'O'}}

// runHuge: a store whose data region has more blocks than one piece of the allocator, with
// lumps at chosen places of it: the journal of a real store is rewritten to move them there.
var hugeBlocks = []uint64{1<<24 - 2, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<24 + 70000, 1<<25 - 2, 1<<25 - 1, 1 << 25, 1<<25 + 5, 1<<26 + 3, 1<<27 + 9}

var hugeLayouts = []string{"empty", "front", "end", "before-end", "middle", "front+end", "piece-edges", "ends+middle"}

func hugePlaces(total uint64, layout int) []uint64 { // places of 2 blocks each
	switch layout {
	case 0:
		return nil
	case 1:
		return []uint64{0}
	case 2:
		return []uint64{total - 2}
	case 3:
		return []uint64{total - 3}
	case 4:
		return []uint64{total / 2}
	case 5:
		return []uint64{0, total - 2}
	case 6:
		var p []uint64
		for e := uint64(1<<24 - 1); e+1 <= total; e += 1<<24 - 1 {
			p = append(p, e-1)
		}
		return p
	}
	return []uint64{1, total/2 - 1, total/2 + 1, total - 4}
}

func runHuge(w *W, total uint64, layout int, mapAt string) {
	const ring = 64
	capacity := (2 + ring + total) * sector
	path := filepath.Join(w.Dir, "huge.lusf")
	rawRemove(path)
	defer rawRemove(path)
	// reserving space (size kept) has no effect on the content, and the file is huge
	syscall.VerifIO = &syscall.VerifIOHooks{Fallocate: func(fd int, mode uint32, off int64, length int64) (error, bool) { return nil, mode == 1 }}
	defer resetHooks()
	what := fmt.Sprintf("store of %d data blocks, lumps %s", total, hugeLayouts[layout])
	st, err := storage.CreateCannylsStorage(path, capacity, (float64((ring+1)*sector)-100)/float64(capacity))
	if err != nil {
		w.Failf("%s: create: %v", what, err)
	}
	if h := st.Header(); h.JournalRegionSize != (ring+1)*sector || h.DataRegionSize != total*sector {
		w.Failf("%s: regions %d %d", what, h.JournalRegionSize, h.DataRegionSize)
	}
	used := uint64(0)
	vals := map[uint64][]byte{}
	check := func(when string) {
		w.C.Trans++
		u := st.Usage()
		if u.DataCapacity != total*sector || u.DataFreeBytes != (total-used)*sector {
			w.Failf("%s, %s: free bytes %d of %d, want %d", what, when, u.DataFreeBytes, u.DataCapacity, (total-used)*sector)
		}
		if u.FileCounts != uint64(len(vals)) {
			w.Failf("%s, %s: %d files, want %d", what, when, u.FileCounts, len(vals))
		}
		if u.MaxSegmentSize != lump.LUMP_MAX_SIZE {
			w.Failf("%s, %s: largest segment %d", what, when, u.MaxSegmentSize)
		}
		var ps []portion.DataPortion
		for id, b := range vals {
			got, err := st.Get(lid(id))
			if err != nil || !bytes.Equal(got, b) {
				w.Failf("%s, %s: Get(%x): %d bytes %v", what, when, id, len(got), err)
			}
			if n, err := st.GetSize(lid(id)); err != nil || int(n) != len(b) {
				w.Failf("%s, %s: GetSize(%x): %d %v, want %d", what, when, id, n, err, len(b))
			}
			off := len(b) * 2 / 3
			if part, err := st.GetWithOffset(lid(id), uint32(off), uint32(len(b)-off)); err != nil || !bytes.Equal(part, b[off:]) {
				w.Failf("%s, %s: GetWithOffset(%x,%d): %d bytes %v", what, when, id, off, len(part), err)
			}
			p, err := st.GetRecord(lid(id))
			if err != nil || p.End() > total {
				w.Failf("%s, %s: lump %x at %v of %d blocks: %v", what, when, id, p, total, err)
			}
			for _, q := range ps {
				if p.Start.AsU64() < q.End() && q.Start.AsU64() < p.End() {
					w.Failf("%s, %s: lumps share blocks: %v %v", what, when, p, q)
				}
			}
			ps = append(ps, *p)
		}
		if when != mapAt {
			return
		}
		const per = 8192
		st.Sync()
		w.Beat("allocation map")
		got := st.GetAllocationStatus()
		points := total / per
		if points > 12800 {
			points = 12800
		}
		if uint64(len(got)) != points {
			w.Failf("%s, %s: allocation map of %d points, want %d", what, when, len(got), points)
		}
		n := make([]int, points+1)
		for _, p := range ps {
			for b := p.Start.AsU64(); b < p.End(); b++ {
				if b/per < points {
					n[b/per]++
				}
			}
		}
		for i := range got {
			if d := got[i] - float64(n[i])/per; d > 1e-9 || d < -1e-9 {
				w.Failf("%s, %s: allocation map: point %d is %v, want %d of %d blocks", what, when, i, got[i], n[i], per)
			}
		}
	}
	reopen := func() {
		st.Close()
		if st, err = storage.OpenCannylsStorage(path); err != nil {
			w.Failf("%s: open: %v", what, err)
		}
	}
	put := func(id uint64, n int) {
		b := make([]byte, n)
		fill(b, n, id)
		if _, err := st.Put(lid(id), lumpData(b)); err != nil {
			w.Failf("%s: Put(%x,%d): %v", what, id, n, err)
		}
		if old, ok := vals[id]; ok {
			used -= uint64(blocksOf(len(old)))
		}
		vals[id] = b
		used += uint64(blocksOf(n))
	}
	del := func(id uint64) {
		if up, _, err := st.Delete(lid(id)); err != nil || !up {
			w.Failf("%s: Delete(%x): %v %v", what, id, up, err)
		}
		used -= uint64(blocksOf(len(vals[id])))
		delete(vals, id)
	}
	check("fresh")
	places := hugePlaces(total, layout)
	for i := range places {
		put(uint64(i), 700+i)
	}
	check("filled")
	// move the lumps
	var rec bytes.Buffer
	var blocks [][]byte
	base := int64(2+ring) * sector
	for i, at := range places {
		p, _ := st.GetRecord(lid(uint64(i)))
		b := make([]byte, 2*sector)
		rawReadAt(path, b, base+int64(p.Start.AsU64())*sector)
		blocks = append(blocks, b)
		journal.PutRecord{LumpID: lid(uint64(i)), DataPortion: portion.NewDataPortion(at, 2)}.WriteTo(&rec)
	}
	journal.EndOfRecords{}.WriteTo(&rec)
	st.Close()
	for i, at := range places {
		rawWriteAt(path, blocks[i], base+int64(at)*sector)
	}
	rawWriteAt(path, rec.Bytes(), 2*sector)
	if st, err = storage.OpenCannylsStorage(path); err != nil {
		w.Failf("%s: open: %v", what, err)
	}
	for i, at := range places {
		if p, err := st.GetRecord(lid(uint64(i))); err != nil || p.Start.AsU64() != at || p.Len != 2 {
			w.Failf("%s: lump %d at %v, want block %d: %v", what, i, p, at, err)
		}
	}
	check("moved")
	put(100, 10)
	put(101, 5000)
	check("two more")
	put(0, 1600)
	check("first overwritten")
	for _, k := range []uint64{1, 2} {
		if vals[k] == nil {
			continue
		}
		for _, off := range []int{3, 690} {
			b := []byte{byte(off), 2, 3, 4, 5}
			if err := st.PutWithOffset(lid(k), lumpData(b), uint32(off), 0); err != nil {
				w.Failf("%s: PutWithOffset(%x,%d): %v", what, k, off, err)
			}
			copy(vals[k][off:], b)
			check("a part rewritten")
		}
	}
	del(100)
	check("one deleted")
	reopen()
	check("reopened")
	put(102, 1<<20)
	reopen()
	check("1 MiB more")
	for k := uint64(0); k == 0 || k < uint64(len(places)); k++ {
		if vals[k] != nil {
			del(k)
			check("deleting")
		}
	}
	reopen()
	check("reopened again")
	del(101)
	del(102)
	check("emptied")
	if len(vals) > 0 {
		w.Failf("harness: lumps left")
	}
	reopen()
	check("reopened empty")
	st.Close()
	w.C.Execs++
	w.C.States++
	w.C.Traces++
	w.C.Nontrivial++
}

func famC05(th bool) []*Family {
	var fs []*Family
	nl := len(hugeLayouts)
	fs = append(fs, &Family{Name: "huge", N: len(hugeBlocks) * nl, Chunk: 1, Run: func(w *W, i int) {
		at := "" // the allocation map is asked for once; it takes seconds
		if th || hugeBlocks[i/nl] <= 1<<24 && i%nl > 1 {
			at = []string{"two more", "reopened", "1 MiB more", "deleting"}[i%4]
		}
		runHuge(w, hugeBlocks[i/nl], i%nl, at)
	},
		Desc: func(i int) string {
			return fmt.Sprintf("%d data blocks, lumps %s", hugeBlocks[i/nl], hugeLayouts[i%nl])
		}})
	d := 4
	if th {
		d = 5
	}
	dm := 3
	if th {
		dm = 4
	}
	for _, n := range []int{8191, 8192, 3*8192 + 77} {
		c := &Cfg{Name: fmt.Sprintf("map%d", n), Ring: 16, Data: n, Pre: []Op{{K: 'P', ID: 9, A: 700}}}
		fs = append(fs, wordFam("map/"+c.Name, alphaMap, dm, func(w *W, ops []Op) { runStatus(w, c, ops) }))
	}
	cfgs := []*Cfg{cfgsA[0], cfgsA[2], cfgsB[5], cfgsB[8], cfgsB[9], cfgsT[2], cfgsT[3]}
	for _, c := range cfgs {
		c := c
		fs = append(fs, wordFam("space/"+c.Name, alphaT, d, func(w *W, ops []Op) { runSpace(w, c, ops) }))
	}
	dC := 2
	if th {
		dC = 3
	}
	for _, c := range cfgsC {
		c := c
		fs = append(fs, cyclicFam("cyclic/"+c.Name, wordsUpTo(alphaCO, dC), 40, func(w *W, ops []Op, n int) {
			s := start(w, c)
			defer s.close()
			for i := 0; i < n; i++ {
				for _, o := range ops {
					s.apply(o)
					s.verify()
					s.verifySegment(false)
				}
				w.Beat("lap")
				s.trimHist()
			}
			s.apply(Op{K: 'Y'})
			s.verifySegment(true)
			s.drain()
			w.C.Execs++
			w.C.Traces++
		}))
	}
	return fs
}

// ---------------------------------------------------------------- C06

func runFail(w *W, cfg *Cfg, ops []Op) {
	s := start(w, cfg)
	defer s.close()
	for i, o := range ops {
		s.apply(o)
		s.verify()
		if s.lastErr != nil {
			w.C.Nontrivial++
			if i == len(ops)-1 {
				s.reopen()
				s.verify()
				s.apply(o) // it fails or works, but never corrupts
				s.verify()
				s.reopen()
				s.verify()
			}
		}
	}
	s.note()
	w.C.Execs++
	w.C.Traces++
}

// oversize: values around the limits.
func runOversize(w *W, i int) {
	cfg := &Cfg{Name: "oversize", Ring: 300, Data: 4}
	s := start(w, cfg)
	defer s.close()
	s.apply(Op{K: 'P', ID: 1, A: 20})
	s.apply(Op{K: 'E', ID: 2, A: 20})
	s.apply(Op{K: 'Y'})
	switch i / 3 {
	case 0, 1, 2, 3:
		n := []int{65534, 65535, 65536, 70000}[i/3]
		s.apply(Op{K: 'E', ID: uint64(i%3 + 1), A: n})
	case 4, 5, 6:
		n := lump.LUMP_MAX_SIZE + i/3 - 5
		if d := lump.NewLumpDataAligned(n, block.Min()); d.Inner != nil && n > lump.LUMP_MAX_SIZE {
			s.fail("NewLumpDataAligned(%d) accepted", n)
		}
		ab := block.NewAlignedBytes(n, block.Min())
		_, err := s.st.Put(lid(uint64(i%3+1)), lump.NewLumpDataWithAb(ab))
		if err == nil {
			s.fail("Put of %d bytes into a store of %d blocks succeeded", n, cfg.Data)
		}
		if int(ab.Len()) != n {
			s.fail("failed Put changed the caller's data from %d to %d bytes", n, ab.Len())
		}
	case 7:
		if _, err := s.st.Put(lid(uint64(i%3+1)), lump.NewLumpDataAligned(lump.LUMP_MAX_SIZE+1, block.Min())); err == nil {
			s.fail("Put of the data of a refused allocation succeeded")
		}
	default:
		type wo struct{ n, off, resv uint32 }
		x := []wo{{4, 4294967295, 0}, {4, 4294967292, 0}, {4, 4294967291, 0}, {0, 4294967295, 0}, {4, 33553918, 0}, {4, 33553915, 0}, {4, 33553914, 10},
			{4, 0, 4294967295}, {4, 0, 33553919}, {4, 0, 33553918}, {0, 33553919, 0}, {600, 2147483648, 5}, {2, 19, 0}, {1, 20, 0}}[i/3-8]
		ab := block.NewAlignedBytes(int(x.n), block.Min())
		err := s.st.PutWithOffset(lid(uint64(i%3+1)), lump.NewLumpDataWithAb(ab), x.off, x.resv)
		grow := uint64(x.off)+uint64(x.n) > 20
		if err == nil && (i%3 == 2 || grow || i%3 == 1) { // id 1 has 20 bytes, id 2 is embedded, id 3 is absent
			if !(i%3 == 2 && uint64(x.off)+uint64(x.n) <= 4*512-2 && x.resv <= 4*512-2) {
				s.fail("PutWithOffset(len=%d off=%d resv=%d) on lump %d succeeded", x.n, x.off, x.resv, i%3+1)
			} else {
				b := make([]byte, x.off+x.n)
				if int(x.resv) > len(b) {
					b = make([]byte, x.resv)
				}
				s.m.m[3] = &lumpVal{b: b}
			}
		} else if err == nil && i%3 == 0 {
			copy(s.m.m[1].b[x.off:], make([]byte, x.n))
		}
	}
	s.verify()
	s.reopen()
	s.verify()
	w.C.Execs++
	w.C.Traces++
}

var alphaBrim = []Op{{K: 'P', ID: 1, A: 1300}, {K: 'P', ID: 1, A: 400}, {K: 'P', ID: 2, A: 400}, {K: 'P', ID: 3, A: 400}, {K: 'E', ID: 1, A: 5}, {K: 'E', ID: 2, A: 40},
	{K: 'D', ID: 1}, {K: 'R', ID: 0, A: 3}, {K: 'W', ID: 3, A: 5, B: 2}, {K: 'w', ID: 1}}

// runBrim: operations on a store whose journal has just refused a record.
func runBrim(w *W, cfg *Cfg, pad int, ops []Op) {
	s := start(w, cfg)
	defer s.close()
	s.apply(Op{K: 'P', ID: 1, A: 1500})
	s.apply(Op{K: 'E', ID: 2, A: pad})
	for i := uint64(0); s.lastErr == nil; i++ {
		id := uint64(2)
		if !cfg.ManualGC {
			id = 100 + i
		}
		s.apply(Op{K: 'E', ID: id, A: 15})
		if i > 2000 {
			s.fail("harness: the journal never gets full")
		}
	}
	s.verify()
	for _, o := range ops {
		s.apply(o)
		s.verify()
		if s.lastErr != nil {
			w.C.Nontrivial++
		}
	}
	s.note()
	s.reopen()
	s.verify()
	w.C.Execs++
	w.C.Traces++
}

func famC06(th bool) []*Family {
	var fs []*Family
	d := 4
	if th {
		d = 5
	}
	for _, c := range cfgsT {
		c := c
		fs = append(fs, wordFam("tiny/"+c.Name, alphaTF, d, func(w *W, ops []Op) { runFail(w, c, ops) }))
	}
	// a journal which is full to the last bytes, with every gap
	dB := 2
	if th {
		dB = 3
	}
	for _, c := range []*Cfg{
		{Name: "ring2-manual", Ring: 2, Data: 4, ManualGC: true}, {Name: "ring4-manual", Ring: 4, Data: 4, ManualGC: true}, {Name: "ring9-manual", Ring: 9, Data: 4, ManualGC: true},
		{Name: "ring2", Ring: 2, Data: 4}, {Name: "ring4", Ring: 4, Data: 4}, {Name: "ring8", Ring: 8, Data: 4},
	} {
		c := c
		words := wordsUpTo(alphaBrim, dB)
		fs = append(fs, &Family{Name: "brim/" + c.Name, N: 30 * len(words), Chunk: 60,
			Run: func(w *W, i int) { runBrim(w, c, i%30, words[i/30]) },
			Desc: func(i int) string {
				return fmt.Sprintf("Put(1,1500); PutEmbed(2,%d); PutEmbed of 15 bytes until the journal is full; %s", i%30, opsString(words[i/30]))
			}})
	}
	fs = append(fs, &Family{Name: "oversize", N: 3 * (8 + 14), Chunk: 4, Run: runOversize, Desc: func(i int) string { return fmt.Sprintf("case %d lump %d", i/3, i%3+1) }})
	return fs
}

// ---------------------------------------------------------------- C07

func isJournalFull(err error) bool {
	return err != nil && bytes.Contains([]byte(err.Error()), []byte("Journal is full"))
}

// runGC: after every op, a journal-full error must go away by GC when the live records are few.
func runGC(w *W, cfg *Cfg, ops []Op, times int, side bool) {
	s := start(w, cfg)
	defer s.close()
	for i := 0; i < times; i++ {
		for _, o := range ops {
			s.apply(o)
			if isJournalFull(s.lastErr) {
				s.verify()
				rec := recPut
				if o.K == 'E' {
					rec = recEmbedHdr + o.A
				}
				if s.m.liveBytes()+rec <= cfg.Ring*sector/8 && cfg.Ring >= 8 {
					if side {
						for k := 0; k < 60; k++ {
							s.apply(Op{K: 'S', A: 64})
							if k%10 == 0 {
								s.verify()
							}
						}
					} else {
						s.apply(Op{K: 'G'})
					}
					s.verify()
					s.apply(o)
					if s.lastErr != nil {
						s.fail("%s still fails after GC: %v (live records %d of %d bytes)", o, s.lastErr, s.m.liveBytes(), cfg.Ring*sector)
					}
					w.C.Nontrivial++
				}
			}
		}
		s.verify()
		s.note()
		w.Beat("lap")
		s.trimHist()
	}
	// a manual GC leaves only live records
	s.apply(Op{K: 'G'})
	s.verify()
	s.gcLeavesLive()
	s.reopen()
	s.verify()
	w.C.Execs++
	w.C.Traces++
}

// gcLeavesLive: after JournalGC, a comfortable journal holds no more than the live records,
// plus the bytes skipped at the end of the ring.
func (s *SUT) gcLeavesLive() {
	if s.cfg.Ring < 8 || s.m.liveBytes() > s.cfg.Ring*sector/8 {
		return
	}
	js := s.st.JournalSnapshot()
	want := 0
	for range s.m.m {
		want++
	}
	if len(js.Entries) != want {
		s.fail("after JournalGC the journal has %d entries for %d live lumps", len(js.Entries), want)
	}
}

var gcAllKinds = []string{"5 lumps, each overwritten", "3000 live ones, then overwrites", "overwrites, then 2000 live ones", "live and dead ones in turn", "puts and deletes", "side jobs in between", "reopened in between", "the ring's end in between"}

// runGCAll: about n records, most of them dead; a JournalGC leaves the live ones only, a second one changes nothing.
func runGCAll(w *W, c *Cfg, n int, kind int) {
	s := newSUT(w, c, template(w, c))
	defer s.close()
	k := 0
	put := func(id int) {
		s.apply(Op{K: 'E', ID: uint64(id), A: id % 6})
		if s.lastErr != nil {
			s.fail("embedded put failed on a roomy journal: %v", s.lastErr)
		}
		if k++; k%1024 == 0 {
			s.trimHist()
			w.Beat("fill")
		}
	}
	fill := func(m int) {
		for i := 0; i < m; i++ {
			put(1 + i%5)
		}
	}
	switch kind {
	case 0:
		fill(n)
	case 1:
		for i := 0; i < 3000 && i < n; i++ {
			put(100 + i)
		}
		fill(n - 3000)
	case 2:
		fill(n - 2000)
		for i := 0; i < 2000 && i < n; i++ {
			put(100 + i)
		}
	case 3:
		for i := 0; i < n; i++ {
			if i%8 == 0 {
				put(100 + i)
			} else {
				put(1 + i%5)
			}
		}
	case 4:
		for i := 0; i < n/2; i++ {
			put(1 + i%5)
			if i%7 == 0 {
				s.apply(Op{K: 'R', ID: 0, A: 9})
			} else {
				s.apply(Op{K: 'D', ID: uint64(1 + i%5)})
			}
		}
		put(3)
	case 5:
		fill(n / 2)
		s.apply(Op{K: 'S', A: 1})
		s.apply(Op{K: 'S', A: 10})
		fill(n - n/2)
	case 6:
		fill(n / 2)
		s.reopen()
		fill(n - n/2)
	case 7:
		// the same number again and again, until the journal has gone round its ring
		for r := 0; r < 16000*sector/(recEmbedHdr*n)+1 && r < 36; r++ {
			fill(n)
			s.apply(Op{K: 'G'})
			s.verify()
			s.gcLeavesLive()
		}
		fill(n)
	}
	s.verify()
	for r := 0; r < 2; r++ {
		w.Beat("gc")
		s.apply(Op{K: 'G'})
		s.verify()
		s.gcLeavesLive()
	}
	s.reopen()
	s.verify()
	s.apply(Op{K: 'G'})
	s.gcLeavesLive()
	s.note()
	w.C.Execs++
	w.C.Traces++
}

func famC07(th bool) []*Family {
	var fs []*Family
	alpha := []Op{{K: 'P', ID: 1, A: 10}, {K: 'E', ID: 1, A: 31}, {K: 'E', ID: 3, A: 210}, {K: 'D', ID: 3}, {K: 'R', ID: 0, A: 2}, {K: 'S', A: 1}, {K: 'S', A: 100}, {K: 'G'}, {K: 'Y'}}
	dW, dC, dBig := 4, 3, 2
	if th {
		dW, dC, dBig = 5, 4, 3
	}
	for _, c := range []*Cfg{cfgsB[3], cfgsB[4], cfgsB[5], cfgsB[6], cfgsB[7]} {
		c := c
		fs = append(fs, wordFam("gc/"+c.Name, alpha, dW, func(w *W, ops []Op) { runGC(w, c, ops, 1, false) }))
	}
	for _, c := range []*Cfg{
		{Name: "ring8-live", Ring: 8, Data: 9, Pre: live3},
		{Name: "ring8-live-manual", Ring: 8, Data: 9, Pre: live3, ManualGC: true},
		{Name: "ring9-manual", Ring: 9, Data: 9, Pre: live3[:1], ManualGC: true},
		{Name: "ring3", Ring: 3, Data: 9, Pre: live3[:1]},
		{Name: "ring2-manual", Ring: 2, Data: 9, Pre: live3[:1], ManualGC: true},
	} {
		c := c
		fs = append(fs, cyclicFam("laps/"+c.Name, wordsUpTo(alpha, dC), 60, func(w *W, ops []Op, n int) { runGC(w, c, ops, n, false) }))
		if c.ManualGC {
			fs = append(fs, cyclicFam("laps-side/"+c.Name, wordsUpTo(alpha, dC), 60, func(w *W, ops []Op, n int) { runGC(w, c, ops, n, true) }))
		}
	}
	// a big live record which was written before the store was opened
	alphaL := []Op{{K: 'E', ID: 1, A: 31}, {K: 'P', ID: 1, A: 10}, {K: 'E', ID: 3, A: 160}, {K: 'D', ID: 3}, {K: 'S', A: 100}, {K: 'O'}}
	for _, man := range []bool{true, false} {
		for k, pre := range [][]Op{{{K: 'E', ID: 9, A: 1400}, {K: 'O'}}, {{K: 'E', ID: 1, A: 31}, {K: 'E', ID: 9, A: 1400}, {K: 'E', ID: 8, A: 40}, {K: 'O'}}} {
			c := &Cfg{Name: fmt.Sprintf("large-live/%d/manual=%v", k, man), Ring: 24, Data: 9, ManualGC: man, Pre: pre}
			if k == 1 {
				c.Ring = 25
			}
			fs = append(fs, cyclicFam(c.Name, wordsUpTo(alphaL, dC-1), 260, func(w *W, ops []Op, n int) { runGC(w, c, ops, n, false) }))
			if man {
				fs = append(fs, cyclicFam(c.Name+"/side", wordsUpTo(alphaL, dC-1), 260, func(w *W, ops []Op, n int) { runGC(w, c, ops, n, true) }))
			}
		}
	}
	// records of lumps which come back at the place of earlier ones, with the earlier records queued
	again := []Op{{K: 'P', ID: 1, A: 1500}, {K: 'P', ID: 1, A: 300}, {K: 'P', ID: 1, A: 800}, {K: 'D', ID: 1}, {K: 'P', ID: 2, A: 300}, {K: 'E', ID: 1, A: 40}, {K: 'D', ID: 2}, {K: 'S', A: 1}, {K: 'G'}, {K: 'Y'}}
	for _, man := range []bool{true, false} {
		for q := 0; q < 2; q++ {
			c := &Cfg{Name: fmt.Sprintf("again/manual=%v/queued=%d", man, q), Ring: 8, Data: 4, ManualGC: man, Pre: join([]Op{{K: 'P', ID: 1, A: 1500}, {K: 'P', ID: 9, A: 400}, {K: 'Y'}}, repeatOps([]Op{{K: 'S', A: 1}}, q))}
			fs = append(fs, wordFam(c.Name, again, dW, func(w *W, ops []Op) { runGC(w, c, ops, 1, false) }))
		}
	}
	for i := range farHeads {
		c := farCfg(i)
		c.Pre = live3
		fs = append(fs, cyclicFam(fmt.Sprintf("laps-far/%d", farHeads[i]), wordsUpTo(alpha, 2), 12, func(w *W, ops []Op, n int) { runGC(w, c, ops, n, c.ManualGC) }))
	}
	// more live records than a GC batch (8192) has: partial batches, batch after batch, then reopened
	dL := 2
	if th {
		dL = 3
	}
	live := []int{0, 1, 2, 5, 6, 7}
	for _, n := range []int{8191, 8192, 8193, 17000} {
		for _, kind := range []string{"auto", "auto-roomy", "manual"} {
			n, kind := n, kind
			if !th && n != 8193 && kind != "auto" {
				continue
			}
			c := &Cfg{Name: fmt.Sprintf("records/%d/%s", n, kind), Ring: n/12 + 40, Data: n + n/2 + 8}
			if kind != "auto" {
				c.Ring = n/8 + 40
			}
			c.ManualGC = kind == "manual"
			d := dL
			nw := pow(len(live), d)
			word := func(i int) []int {
				var r []int
				for k := 0; k < d; k++ {
					r = append(r, live[i%len(live)])
					i /= len(live)
				}
				return r
			}
			fs = append(fs, &Family{Name: c.Name, N: nw, Chunk: 1, Rank: -1, Run: func(w *W, i int) { runManyIn(w, c, n, 0, word(i)) },
				Desc: func(i int) string {
					r := ""
					for _, b := range word(i) {
						r += "; " + popOps[b]
					}
					return fmt.Sprintf("%d lumps, %s GC%s", n, kind, r)
				}})
		}
	}
	// one JournalGC processes all the entries, however many batches they make up
	counts := []int{100, 8191, 8192, 8193, 16385}
	if th {
		counts = []int{1, 100, 4096, 8190, 8191, 8192, 8193, 8194, 12000, 16383, 16384, 16385, 24577}
	}
	for _, man := range []bool{true, false} {
		c := &Cfg{Name: fmt.Sprintf("gc-all/manual=%v", man), Ring: 16000, Data: 60, ManualGC: man}
		fs = append(fs, &Family{Name: c.Name, N: len(counts) * len(gcAllKinds), Chunk: 1, Rank: -1, Run: func(w *W, i int) {
			runGCAll(w, c, counts[i/len(gcAllKinds)], i%len(gcAllKinds))
		}, Desc: func(i int) string {
			return fmt.Sprintf("%d records, %s; JournalGC", counts[i/len(gcAllKinds)], gcAllKinds[i%len(gcAllKinds)])
		}})
	}
	// beyond the GC batch (8192 records) and the sync interval
	big := &Cfg{Name: "big", Ring: 700, Data: 9, Pre: live3}
	alphaBig := []Op{{K: 'P', ID: 1, A: 10}, {K: 'E', ID: 1, A: 3}, {K: 'D', ID: 1}, {K: 'P', ID: 2, A: 4}, {K: 'E', ID: 4, A: 900}}
	for _, man := range []bool{false, true} {
		c := *big
		c.ManualGC = man
		if man {
			c.Name = "big-manual"
		}
		fs = append(fs, &Family{Name: "batch/" + c.Name, N: len(wordsUpTo(alphaBig, dBig)), Chunk: 1, Rank: -1,
			Run: func(w *W, i int) {
				ops := wordsUpTo(alphaBig, dBig)[i]
				s := start(w, &c)
				defer s.close()
				for k := 0; k < 56000/len(ops); k++ {
					for _, o := range ops {
						s.apply(o)
						if isJournalFull(s.lastErr) {
							s.verify()
							w.Beat("gc")
							s.apply(Op{K: 'G'})
							s.verify()
							s.apply(o)
							if s.lastErr != nil {
								s.fail("%s still fails after GC: %v", o, s.lastErr)
							}
						}
					}
					s.trimHist()
					if k%512 == 0 {
						w.Beat("lap")
						s.verify()
					}
				}
				s.verify()
				s.reopen()
				s.verify()
				w.C.Execs++
				w.C.Traces++
			}, Desc: func(i int) string {
				return "(" + opsString(wordsUpTo(alphaBig, dBig)[i]) + ") repeated for 56000 operations"
			}})
	}
	return fs
}

// ---------------------------------------------------------------- C08

var sizes8 = []int{0, 1, 2, 509, 510, 511, 512, 513, 1021, 1022, 1023, 1024, 1025, 1533, 1534, 1535, 1536}
var offs8 = []int{0, 1, 2, 255, 509, 510, 511, 512, 513, 514, 1021, 1022, 1023, 1024, 1025, 1026, 1533, 1534, 1535, 1536, 1537, 2046, 2047, 2048}
var lens8 = []int{0, 1, 2, 3, 509, 510, 511, 512, 513, 514, 1022, 1023, 1024, 1025, 1026, 1534, 1535, 1536, 1537, 2048}

func cfg8() *Cfg {
	return &Cfg{Name: "offsets", Ring: 400, Data: 14, Pre: []Op{{K: 'P', ID: 10, A: 600}, {K: 'P', ID: 1, A: 10}, {K: 'P', ID: 12, A: 511}, {K: 'E', ID: 13, A: 40}}}
}

func runOffsets(w *W, size, off int, embed bool, lens []int, update bool) {
	cfg := cfg8()
	s := start(w, cfg)
	defer s.close()
	k := byte('P')
	if embed {
		k = 'E'
	}
	s.apply(Op{K: k, ID: 1, A: size})
	for _, n := range lens {
		s.apply(Op{K: 'g', ID: 1, A: off, B: n})
		if update {
			s.apply(Op{K: 'W', ID: 1, A: n, B: off})
			s.verify()
		}
		w.C.Execs++
	}
	if update {
		s.reopen()
		s.verify()
	}
	w.C.Traces++
	s.note()
}

func famC08(th bool) []*Family {
	var fs []*Family
	fs = append(fs, &Family{Name: "update", N: len(sizes8) * len(offs8), Run: func(w *W, i int) { runOffsets(w, sizes8[i/len(offs8)], offs8[i%len(offs8)], false, lens8, true) },
		Desc: func(i int) string {
			return fmt.Sprintf("size %d offset %d, all lengths", sizes8[i/len(offs8)], offs8[i%len(offs8)])
		}})
	em := []int{0, 1, 2, 40, 511, 512, 513, 1100}
	fs = append(fs, &Family{Name: "embed", N: len(em) * len(offs8), Run: func(w *W, i int) { runOffsets(w, em[i/len(offs8)], offs8[i%len(offs8)], true, lens8, true) },
		Desc: func(i int) string {
			return fmt.Sprintf("embedded size %d offset %d, all lengths", em[i/len(offs8)], offs8[i%len(offs8)])
		}})
	// creation: every (length, offset, reservation)
	resv := []int{0, 1, 509, 510, 511, 512, 513, 1022, 1023, 1024, 1534, 1535, 1536, 2046}
	cl := []int{0, 1, 2, 509, 510, 511, 512, 513, 1022, 1024, 1025}
	fs = append(fs, &Family{Name: "create", N: len(resv) * len(offs8), Run: func(w *W, i int) {
		s := start(w, cfg8())
		defer s.close()
		for _, n := range cl {
			s.apply(Op{K: 'W', ID: 3, A: n, B: offs8[i%len(offs8)], C: resv[i/len(offs8)]})
			s.verify()
			if n%2 == 1 {
				s.reopen()
				s.verify()
			}
			s.apply(Op{K: 'D', ID: 3})
			s.apply(Op{K: 'Y'})
			w.C.Execs++
		}
		s.verify()
		w.C.Traces++
		s.note()
	}, Desc: func(i int) string {
		return fmt.Sprintf("create reservation %d offset %d, all lengths", resv[i/len(offs8)], offs8[i%len(offs8)])
	}})
	// every offset x every length for reads
	rs := []int{1, 509, 510, 511, 513, 1022, 1023, 1100}
	step := 7
	if th {
		rs = sizes8
		step = 1
	}
	fs = append(fs, &Family{Name: "read-all", N: len(rs) * (1600/step + 1), Run: func(w *W, i int) {
		size, off := rs[i/(1600/step+1)], i%(1600/step+1)*step
		s := start(w, cfg8())
		defer s.close()
		s.apply(Op{K: 'P', ID: 1, A: size})
		n0 := len(s.hist)
		for n := 0; n <= 1600; n += 1 {
			s.hist = s.hist[:n0]
			s.apply(Op{K: 'g', ID: 1, A: off, B: n})
			w.C.Execs++
		}
		w.C.Traces++
		s.note()
	}, Desc: func(i int) string {
		return fmt.Sprintf("size %d offset %d, all lengths 0..1600", rs[i/(1600/step+1)], i%(1600/step+1)*step)
	}})
	// sequences of updates
	al := []Op{{K: 'W', ID: 1, A: 3, B: 508}, {K: 'W', ID: 1, A: 512, B: 0}, {K: 'W', ID: 1, A: 600, B: 511}, {K: 'W', ID: 1, A: 1, B: 1099}, {K: 'W', ID: 1, A: 2, B: 1099}, {K: 'W', ID: 1, A: 0, B: 1100},
		{K: 'W', ID: 3, A: 5, B: 1020, C: 3}, {K: 'W', ID: 3, A: 1, B: 0, C: 2000}, {K: 'P', ID: 1, A: 1100}, {K: 'D', ID: 3}, {K: 'E', ID: 3, A: 9}, {K: 'O'}, {K: 'g', ID: 1, A: 500, B: 600}}
	d := 4
	if th {
		d = 5
	}
	cs := &Cfg{Name: "updates", Ring: 8, Data: 9, Pre: []Op{{K: 'P', ID: 1, A: 1100}, {K: 'P', ID: 2, A: 511}}}
	fs = append(fs, wordFam("updates", al, d, func(w *W, ops []Op) { runOps(w, cs, ops, true, false, nil) }))
	// extreme arguments
	ex := []uint32{0, 1, 510, 511, 1023, 1024, 0x7fffffff, 0x80000000, 0xfffffdff, 0xfffffe00, 0xffffffff, 33553918, 33553919, 0xfffffbfe, 0xfffffc00}
	fs = append(fs, &Family{Name: "extreme", N: len(ex) * 3, Run: func(w *W, i int) {
		s := start(w, cfg8())
		defer s.close()
		id := []uint64{10, 13, 77}[i%3] // 600 bytes, 40 bytes embedded, absent
		off := ex[i/3]
		for _, n := range ex {
			w.Beat(fmt.Sprintf("lump %d off=%d len=%d", id, off, n))
			v := s.m.m[id]
			got, err := s.st.GetWithOffset(lid(id), off, n)
			if v == nil {
				if err == nil {
					s.fail("GetWithOffset of an absent lump succeeded")
				}
			} else if err == nil {
				lo := uint64(off)
				hi := lo + uint64(n)
				if hi > uint64(len(v.b)) {
					hi = uint64(len(v.b))
				}
				if lo > hi {
					lo = hi
				}
				if !bytes.Equal(got, v.b[lo:hi]) {
					s.fail("GetWithOffset(%x,off=%d,len=%d) on a lump of %d bytes returned %d bytes", id, off, n, len(v.b), len(got))
				}
			}
			if v != nil && n <= 4096 {
				b := block.NewAlignedBytes(int(n), block.Min())
				err := s.st.PutWithOffset(lid(id), lump.NewLumpDataWithAb(b), off, 0)
				fits := uint64(off)+uint64(n) <= uint64(len(v.b))
				if (err == nil) != (fits && !v.embed) {
					s.fail("PutWithOffset(%x,len=%d,off=%d) on a lump of %d bytes: %v", id, n, off, len(v.b), err)
				}
				if err == nil {
					nb := append([]byte(nil), v.b...)
					copy(nb[off:], make([]byte, n))
					s.m.m[id] = &lumpVal{b: nb}
				}
			}
			s.verify()
			w.C.Execs++
		}
		w.C.Traces++
	}, Desc: func(i int) string { return fmt.Sprintf("lump %d offset %d", []uint64{10, 13, 77}[i%3], ex[i/3]) }})
	return fs
}

// ---------------------------------------------------------------- C18

var ids18 = []uint64{0, 1, 2, 3, 9, 10, 15, 16, 255, 256, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<40 - 1, 1 << 40, 1<<62 - 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, 0xdeadbeefcafebabe, 1<<64 - 256, ^uint64(0) - 2, ^uint64(0) - 1, ^uint64(0)}

func sgn(a, b uint64) int {
	if a < b {
		return -1
	} else if a > b {
		return 1
	}
	return 0
}

func famC18(th bool) []*Family {
	var fs []*Family
	all := append([]uint64{}, ids18...)
	for i := 0; i < 64; i++ {
		all = append(all, uint64(1)<<uint(i), uint64(1)<<uint(i)-1, ^(uint64(1) << uint(i)))
	}
	fs = append(fs, &Family{Name: "pairs", N: len(all), Run: func(w *W, i int) {
		a := all[i]
		la := lump.FromU64(0, a)
		if la.U64() != a || lump.FromU64(7, a).U64() != a {
			w.Failf("FromU64(%x).U64() = %x", a, la.U64())
		}
		if x, err := lump.FromString(la.String()); err != nil || x.U64() != a {
			w.Failf("FromString(%q) = %v, %v for %x", la.String(), x, err, a)
		}
		if s := fmt.Sprintf("%x", a); s != la.String() {
			w.Failf("String of %x is %q", a, la.String())
		}
		for _, f := range []string{"%x", "%X", "%016x", "%032x"} {
			if x, err := lump.FromString(fmt.Sprintf(f, a)); err != nil || x.U64() != a {
				w.Failf("FromString("+f+") = %v, %v", a, x, err)
			}
		}
		if x, err := lump.FromBytes(la.GetBytes()); err != nil || x.U64() != a {
			w.Failf("FromBytes(GetBytes(%x)) = %v, %v", a, x, err)
		}
		var bb bytes.Buffer
		if n, err := la.Write(&bb); err != nil || n != 8 || !bytes.Equal(bb.Bytes(), la.GetBytes()) {
			w.Failf("Write(%x) wrote %x", a, bb.Bytes())
		}
		if la.IsMax() != (a == ^uint64(0)) {
			w.Failf("IsMax(%x) = %v", a, la.IsMax())
		}
		if la.Inc().U64() != a+1 {
			w.Failf("Inc(%x) = %x", a, la.Inc().U64())
		}
		for _, b := range all {
			if c := la.Compare(lump.FromU64(0, b)); sign(c) != sgn(a, b) {
				w.Failf("Compare(%x,%x) = %d", a, b, c)
			}
			if (bytes.Compare(la.GetBytes(), lump.FromU64(0, b).GetBytes())) != sgn(a, b) {
				w.Failf("byte encodings of %x and %x are not ordered", a, b)
			}
			w.C.Trans++
		}
		w.C.Execs++
		w.C.States++
	}, Desc: func(i int) string { return fmt.Sprintf("id %x", all[i]) }})
	fs = append(fs, &Family{Name: "invalid", N: 1, Run: func(w *W, i int) {
		for _, s := range []string{"", "g", "-1", "+1", " 1", "1 ", "10000000000000000", "0x1", "1\x00", "fffffffffffffffff", "１"} {
			if x, err := lump.FromString(s); err == nil {
				w.Failf("FromString(%q) = %v", s, x)
			}
			w.C.Trans++
		}
		for n := 0; n <= 17; n++ {
			if _, err := lump.FromBytes(make([]byte, n)); (err == nil) != (n == 8) {
				w.Failf("FromBytes of %d bytes: %v", n, err)
			}
			w.C.Trans++
		}
		w.C.Execs++
		w.C.States++
	}})
	// all subsets of boundary ids as store content
	sub := []uint64{0, 1, 2, 3, 1 << 32, 1<<63 - 1, ^uint64(0) - 2, ^uint64(0) - 1, ^uint64(0)}
	if th {
		sub = append(sub, 4, 255, 256, 1<<63)
	}
	fs = append(fs, &Family{Name: "generate", N: 1 << uint(len(sub)), Run: func(w *W, i int) {
		cfg := &Cfg{Name: "ids", Ring: 24, Data: 16}
		s := start(w, cfg)
		defer s.close()
		for k, id := range sub {
			if i>>uint(k)&1 == 1 {
				if k%2 == 0 {
					s.apply(Op{K: 'E', ID: id, A: 3})
				} else {
					s.apply(Op{K: 'P', ID: id, A: 3})
				}
			}
		}
		// take three generated ids in a row, then delete in the middle
		for k := 0; k < 3; k++ {
			s.verifyQueries(sub)
			id, ok := s.st.GenerateEmptyId()
			if !ok {
				s.fail("no empty id found")
			}
			if _, had := s.m.m[id.U64()]; had {
				s.fail("GenerateEmptyId returned the live id %s", id)
			}
			s.apply(Op{K: 'E', ID: id.U64(), A: 1})
			if id2, ok := s.st.GenerateEmptyId(); !ok || id2 == id {
				s.fail("GenerateEmptyId returned %s twice", id)
			}
		}
		s.verify()
		s.verifyQueries(sub)
		s.note()
		w.C.Execs++
		w.C.Traces++
	}, Desc: func(i int) string {
		r := "ids"
		for k, id := range sub {
			if i>>uint(k)&1 == 1 {
				r += fmt.Sprintf(" %x", id)
			}
		}
		return r
	}})
	// a dense prefix: the first gap is found wherever it is
	fs = append(fs, &Family{Name: "gap", N: 40, Run: func(w *W, i int) {
		cfg := &Cfg{Name: "ids", Ring: 24, Data: 4}
		s := start(w, cfg)
		defer s.close()
		s.apply(Op{K: 'E', ID: ^uint64(0), A: 1})
		for k := 0; k < 40; k++ {
			if k != i {
				s.apply(Op{K: 'E', ID: uint64(k), A: 1})
			}
		}
		for k := 0; k < 3; k++ {
			id, ok := s.st.GenerateEmptyId()
			if _, had := s.m.m[id.U64()]; had || !ok {
				s.fail("GenerateEmptyId = %s,%v", id, ok)
			}
			s.apply(Op{K: 'E', ID: id.U64(), A: 1})
		}
		s.verify()
		w.C.Execs++
		w.C.Traces++
		s.note()
	}, Desc: func(i int) string { return fmt.Sprintf("ids 0..39 without %d, and the maximum", i) }})
	return fs
}

func sign(c int) int {
	if c < 0 {
		return -1
	} else if c > 0 {
		return 1
	}
	return 0
}

var _ = os.Remove
var _ = filepath.Join

func init() {
	rule := "a case is one operation word (every word up to the depth over the stated alphabet, from every stated initial store); after each operation all observers are compared with the map model, or as stated"
	as := []string{"single caller thread", "values are pairwise distinct pseudo-random bytes", "device behaves as a file on /dev/shm"}
	register(&Check{ID: "C01", Families: famC01, Rule: rule, Assume: as})
	register(&Check{ID: "C02", Families: famC02, Rule: rule, Assume: as})
	register(&Check{ID: "C05", Families: famC05, Rule: rule, Assume: as})
	register(&Check{ID: "C06", Families: famC06, Rule: rule, Assume: as})
	register(&Check{ID: "C07", Families: famC07, Rule: rule, Assume: as})
	register(&Check{ID: "C08", Families: famC08, Rule: rule, Assume: as})
	register(&Check{ID: "C18", Families: famC18, Rule: rule, Assume: as})
}
