package main

import "fmt"

// Crash alphabets: every operation that touches the device, plus kills and power losses
// inside the history.
var alphaK = []Op{
	{K: 'P', ID: 1, A: 10}, {K: 'P', ID: 2, A: 700}, {K: 'E', ID: 1, A: 31}, {K: 'E', ID: 3, A: 150}, {K: 'D', ID: 1}, {K: 'D', ID: 3}, {K: 'R', ID: 1, A: 4},
	{K: 'G'}, {K: 'S', A: 3}, {K: 'Y'}, {K: 'F'}, {K: 'O'}, {K: 'K'}, {K: 'Z', A: 0},
}

// deep: few ops, long words
var alphaKD = []Op{
	{K: 'P', ID: 1, A: 10}, {K: 'E', ID: 1, A: 31}, {K: 'E', ID: 2, A: 300}, {K: 'D', ID: 1}, {K: 'Y'}, {K: 'S', A: 2}, {K: 'K'},
}
var alphaKZ = []Op{
	{K: 'P', ID: 1, A: 10}, {K: 'P', ID: 2, A: 700}, {K: 'E', ID: 1, A: 31}, {K: 'D', ID: 2}, {K: 'W', ID: 1, A: 4, B: 3, C: 10}, {K: 'Y'}, {K: 'F'}, {K: 'G'}, {K: 'Z', A: 0}, {K: 'Z', A: 1}, {K: 'Z', A: 2}, {K: 'Z', A: 3},
}

// alphaKT: values of several sectors; their writes may be cut
var alphaKT = []Op{
	{K: 'P', ID: 1, A: 10}, {K: 'P', ID: 2, A: 700}, {K: 'P', ID: 3, A: 1500}, {K: 'E', ID: 1, A: 31}, {K: 'D', ID: 1}, {K: 'R', ID: 1, A: 4}, {K: 'W', ID: 2, A: 300, B: 400, C: 900},
	{K: 'G'}, {K: 'Y'}, {K: 'F'}, {K: 'K'}, {K: 'Z', A: 0}, {K: 'Z', A: 1},
}

// alphaKR: a journal of thousands of live records
var alphaKR = []Op{{K: 'R', ID: lotsFrom + 10, A: lotsFrom + 9000}, {K: 'G'}, {K: 'P', ID: 1, A: 10}, {K: 'S', A: 5000}, {K: 'D', ID: lotsFrom}, {K: 'Y'}, {K: 'K'}}

// alphaKP: values of one and of several sectors, and updates in place
var alphaKP = []Op{{K: 'P', ID: 1, A: 10}, {K: 'P', ID: 1, A: 510}, {K: 'P', ID: 2, A: 600}, {K: 'P', ID: 3, A: 1500}, {K: 'W', ID: 2, A: 4, B: 3, C: 1000}, {K: 'W', ID: 1, A: 9, B: 0, C: 0}, {K: 'D', ID: 2}, {K: 'F'}, {K: 'Z', A: 0}, {K: 'Z', A: 1}}

var opY = Op{K: 'Y'}

var cfgsK = []*Cfg{
	{Name: "ring8", Ring: 8, Data: 6, Pre: join(live3, []Op{opY})},
	{Name: "ring2", Ring: 2, Data: 6, Pre: join(live3[:1], []Op{opY})},
	{Name: "wrap0", Ring: 8, Data: 6, Pre: join(ringAt(4096-20-5), live3[:1], []Op{opY})},
	{Name: "wrap1", Ring: 8, Data: 6, Pre: join(ringAt(4096-20-13-5-1), live3[:1], []Op{opY})},
	{Name: "wrap2", Ring: 8, Data: 6, Pre: join(ringAt(4096-40-4), live3[:1], []Op{opY})},
	{Name: "wrap3", Ring: 8, Data: 6, Pre: join(ringAt(4096-260), live3, []Op{opY})},
	{Name: "wrapped-live", Ring: 8, Data: 6, Pre: join(ringAt(3950), live3, []Op{{K: 'E', ID: 4, A: 200}, {K: 'P', ID: 2, A: 7}, opY})},
	{Name: "midgc", Ring: 4, Data: 6, Pre: join(live3, repeatOps([]Op{{K: 'E', ID: 4, A: 120}}, 8), []Op{{K: 'P', ID: 1, A: 9}, opY})},
	{Name: "gcqueue-manual", Ring: 8, Data: 6, ManualGC: true, Pre: join(live3, []Op{{K: 'E', ID: 4, A: 20}, {K: 'D', ID: 4}, {K: 'P', ID: 1, A: 9}, {K: 'S', A: 1}, {K: 'S', A: 1}, {K: 'P', ID: 6, A: 9}, opY})},
	{Name: "datafull", Ring: 8, Data: 6, Pre: []Op{{K: 'P', ID: 4, A: 510}, {K: 'P', ID: 5, A: 511}, {K: 'P', ID: 1, A: 510}, {K: 'P', ID: 2, A: 600}, {K: 'D', ID: 4}, opY}},
	{Name: "tinydata", Ring: 8, Data: 2, Pre: []Op{{K: 'P', ID: 1, A: 510}, {K: 'E', ID: 3, A: 10}, opY}},
	{Name: "fragmented", Ring: 8, Data: 6, Pre: []Op{{K: 'P', ID: 1, A: 1}, {K: 'P', ID: 5, A: 1}, {K: 'P', ID: 3, A: 1}, {K: 'P', ID: 7, A: 1}, {K: 'P', ID: 8, A: 1}, opY, {K: 'D', ID: 5}, {K: 'D', ID: 7}, opY}},
	{Name: "jfull", Ring: 4, Data: 6, ManualGC: true, Pre: []Op{{K: 'P', ID: 1, A: 11}, {K: 'E', ID: 4, A: 500}, {K: 'P', ID: 2, A: 12}, {K: 'E', ID: 4, A: 500}, {K: 'E', ID: 3, A: 500}, {K: 'E', ID: 5, A: 100}, opY}},
}

func runCrash(w *W, cfg *Cfg, ops []Op, power bool, maxAll int) {
	c := newCrashRun(w, cfg, power)
	c.maxAll = maxAll
	defer c.end()
	if cfg.Lots > 0 {
		c.fill(cfg.Lots)
	}
	for _, o := range cfg.Pre {
		c.step(o, false)
	}
	for i, o := range ops {
		c.step(o, i == len(ops)-1)
	}
	c.s.verify()
	w.C.Traces++
}

func straddle(r int) *Cfg {
	return &Cfg{Name: fmt.Sprintf("straddle%d", r), Ring: 8, Data: 6, Pre: join(live3, []Op{{K: 'E', ID: 9, A: r - 170}, {K: 'T', A: r}, opY})}
}

// alphaKS: appends and flushes; the end of the journal lies across two sectors
var alphaKS = []Op{{K: 'P', ID: 1, A: 10}, {K: 'E', ID: 1, A: 31}, {K: 'E', ID: 4, A: 490}, {K: 'D', ID: 3}, {K: 'R', ID: 1, A: 4}, {K: 'F'}, {K: 'Y'}, {K: 'K'}, {K: 'S', A: 2}, {K: 'Z', A: 1}}

var alphaKL = []Op{
	{K: 'P', ID: 1, A: 10}, {K: 'P', ID: 2, A: 700}, {K: 'E', ID: 1, A: 31}, {K: 'E', ID: 3, A: 210}, {K: 'D', ID: 1}, {K: 'R', ID: 1, A: 3}, {K: 'S', A: 3}, {K: 'Y'}, {K: 'G'}, {K: 'O'},
}
var cfgsL = []*Cfg{
	{Name: "ring8", Ring: 8, Data: 9, Pre: join(live3, []Op{opY})},
	{Name: "ring3", Ring: 3, Data: 9, Pre: join(live3[:1], []Op{opY})},
	{Name: "ring8-manual", Ring: 8, Data: 9, ManualGC: true, Pre: join(live3, []Op{opY})},
}

// alphaKG: records and values of many sectors
var alphaKG = []Op{{K: 'E', ID: 1, A: 65535}, {K: 'E', ID: 3, A: 1100}, {K: 'E', ID: 4, A: 5000}, {K: 'P', ID: 1, A: 10}, {K: 'P', ID: 2, A: 70000}, {K: 'D', ID: 3}, {K: 'R', ID: 1, A: 4}, {K: 'G'}, {K: 'Y'}, {K: 'F'}, {K: 'K'}, {K: 'Z', A: 1}}
var cfgsKG = []*Cfg{
	{Name: "big", Ring: 300, Data: 300, Pre: join(live3, []Op{{K: 'E', ID: 6, A: 2000}, opY})},
	{Name: "big-wrap", Ring: 12, Data: 300, Pre: join(live3, []Op{{K: 'E', ID: 6, A: 2000}, {K: 'E', ID: 7, A: 1500}, {K: 'D', ID: 7}, opY})},
}

func runCrashLaps(w *W, cfg *Cfg, ops []Op, power bool, maxAll int) {
	c := newCrashRun(w, cfg, power)
	c.maxAll = maxAll
	defer c.end()
	for _, o := range cfg.Pre {
		c.step(o, false)
	}
	for i := 0; i < 12; i++ {
		for _, o := range ops {
			c.step(o, true)
		}
		if i%4 == 3 {
			c.step(opY, true)
		}
		if i%5 == 4 {
			c.step(Op{K: 'K'}, true)
		}
		if i%6 == 5 {
			c.step(Op{K: 'G'}, true)
		}
		c.s.trimHist()
	}
	c.s.verify()
	w.C.Traces++
}

func crashFam(name string, cfg *Cfg, alpha []Op, d int, power bool, maxAll int) *Family {
	words := wordsUpTo(alpha, d)
	return &Family{Name: name, N: len(words), Run: func(w *W, i int) { runCrash(w, cfg, words[i], power, maxAll) },
		Desc: func(i int) string { return opsString(words[i]) + " (every crash state inside the last operation)" }}
}

func famCrash(power bool) func(th bool) []*Family {
	return func(th bool) []*Family {
		var fs []*Family
		d, dd, maxAll := 3, 5, 6
		if th {
			d, dd, maxAll = 4, 6, 8
		}
		for _, c := range cfgsK {
			fs = append(fs, crashFam("words/"+c.Name, c, alphaK, d, power, maxAll))
		}
		for _, i := range []int{0, 2, 6, 7, 9} {
			c := cfgsK[i]
			fs = append(fs, crashFam("deep/"+c.Name, c, alphaKD, dd, power, maxAll))
		}
		for _, i := range []int{0, 2, 7, 8, 9} {
			c := cfgsK[i]
			fs = append(fs, crashFam("words4/"+c.Name, c, alphaK, d+1, power, maxAll))
		}
		for r := 505; r <= 513; r++ {
			fs = append(fs, crashFam(fmt.Sprintf("straddle/%d", r), straddle(r), alphaKS, d+1, power, maxAll))
		}
		for _, c := range cfgsKG {
			fs = append(fs, crashFam("large/"+c.Name, c, alphaKG, d, power, maxAll))
		}
		for _, i := range []int{0, 1, 9, 10, 11} {
			c := *cfgsK[i]
			c.Torn = true
			alpha := alphaKT
			if !power { // without the update in place, which is not atomic
				alpha = append(append([]Op{}, alphaKT[:6]...), alphaKT[7:]...)
			}
			fs = append(fs, crashFam("torn/"+c.Name, &c, alpha, d, power, maxAll))
		}
		// more records than a GC batch (8192) takes
		for _, n := range []int{8200, 16500} {
			for _, man := range []bool{false, true} {
				alpha := alphaKR
				if !th {
					if n != 8200 || man {
						continue
					}
					alpha = alphaKR[:3]
				}
				c := &Cfg{Name: fmt.Sprintf("records/%d/manual=%v", n, man), Ring: n / 12, Data: 9, ManualGC: man, Lots: n, Pre: join(live3, []Op{opY})}
				fs = append(fs, crashFam(c.Name, c, alpha, 2, power, maxAll))
			}
		}
		// crash states all along cyclic histories of many ring laps
		lw := wordsUpTo(alphaKL, 2)
		if th {
			lw = wordsUpTo(alphaKL, 3)
		}
		for _, c := range cfgsL {
			c := c
			fs = append(fs, &Family{Name: "laps/" + c.Name, N: len(lw), Run: func(w *W, i int) { runCrashLaps(w, c, lw[i], power, maxAll) },
				Desc: func(i int) string { return fmt.Sprintf("(%s) x 12, every crash state all along", opsString(lw[i])) }})
		}
		fs = append(fs, famConcCrash(power, th)...)
		if power {
			for _, i := range []int{0, 3, 9, 10} {
				c := cfgsK[i]
				fs = append(fs, crashFam("power/"+c.Name, c, alphaKZ, d, power, maxAll))
			}
			// a value whose bytes were lost reads what its place had before: any padding size may stand there
			for _, t := range []uint16{1, 509, 510, 511, 512, 513, 1022, 0x8000, 0xfdff, 0xffff} {
				for k, pre := range [][]Op{{{K: 'P', ID: 4, A: 3068}, opY, {K: 'D', ID: 4}, opY}, {{K: 'P', ID: 4, A: 2556}, {K: 'P', ID: 2, A: 700}, opY, {K: 'D', ID: 4}, opY}} {
					c := &Cfg{Name: fmt.Sprintf("trail/%d/%d", t, k), Ring: 8, Data: 6 + 2*k, Torn: k == 1, Trail: t, Pre: pre}
					fs = append(fs, crashFam(c.Name, c, alphaKP, d-1, power, maxAll))
				}
			}
		}
		return fs
	}
}

var _ = fmt.Sprint

func init() {
	as := []string{"one write call to the journal is atomic; a write of several sectors to the data region may be cut at sector boundaries", "a completed sync makes all earlier writes durable", "values are pairwise distinct"}
	register(&Check{ID: "C03", Families: famCrash(true), Assume: as, Rule: "evaluations: (crash point, subset of unsynced writes) pairs inside the last operation of every word up to the depth; distinct_nontrivial: distinct device images the real code was restarted on, used and reopened (counted per worker job, images seen before in the same worker are not counted again)"})
	register(&Check{ID: "C04", Families: famCrash(false), Assume: as, Rule: "evaluations: process kills after every device event of the last operation of every word up to the depth; distinct_nontrivial: distinct device images the real code was restarted on, used and reopened (images seen before in the same worker are not counted again)"})
}
