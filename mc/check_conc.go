package main

import "fmt"

// stores the concurrent programs start from
var concCfgs = map[string]*Cfg{
	"empty": {Name: "empty", Ring: 8, Data: 24},
	"data":  {Name: "data", Ring: 8, Data: 24, Pre: []Op{{K: 'P', ID: 1, A: 700}, {K: 'P', ID: 2, A: 100}}},
	"mixed": {Name: "mixed", Ring: 8, Data: 24, Pre: []Op{{K: 'P', ID: 1, A: 700}, {K: 'E', ID: 2, A: 40}, {K: 'D', ID: 3}}},
	"long":  {Name: "long", Ring: 8, Data: 24, Pre: []Op{{K: 'P', ID: 1, A: 1500}, {K: 'P', ID: 2, A: 100}}},
	"ring":  {Name: "ring", Ring: 3, Data: 24, Pre: []Op{{K: 'P', ID: 4, A: 100}, {K: 'E', ID: 1, A: 120}, {K: 'E', ID: 2, A: 100}, {K: 'E', ID: 5, A: 200}, {K: 'E', ID: 5, A: 200}}},
	"tight": {Name: "tight", Ring: 8, Data: 4, Pre: []Op{{K: 'P', ID: 1, A: 700}, {K: 'P', ID: 2, A: 100}}},
	"gc":    {Name: "gc", Ring: 3, Data: 24, Pre: []Op{{K: 'E', ID: 1, A: 300}, {K: 'E', ID: 2, A: 300}, {K: 'E', ID: 3, A: 200}, {K: 'E', ID: 3, A: 200}, {K: 'P', ID: 4, A: 100}}},
}

var concWrites = []Op{{K: 'P', ID: 1, A: 600}, {K: 'P', ID: 2, A: 90}, {K: 'E', ID: 1, A: 30}, {K: 'W', ID: 1, A: 50, B: 500, C: 700}, {K: 'D', ID: 1}, {K: 'R', ID: 1, A: 3}}
var concReads = []Op{{K: 'v', ID: 1}, {K: 'v', ID: 2}, {K: 'g', ID: 1, A: 480, B: 100}, {K: 'z', ID: 1}, {K: 'L'}, {K: 'U'}}
var concReads2 = []Op{{K: 'z', ID: 2}, {K: 'k', ID: 1}, {K: 'r', ID: 1, A: 3}, {K: 'm'}, {K: 'M'}, {K: 'f', ID: 1}, {K: 'n'}, {K: 'j'}, {K: 'B'}, {K: 'H'}, {K: 'p', ID: 1}}
var concMaint = []Op{{K: 'G'}, {K: 'S', A: 3}, {K: 'Y'}, {K: 'F'}, {K: 'A', A: 1}}
var concSnap = []Op{{K: 's'}, {K: 'd'}, {K: 'q'}}
var concClose = []Op{{K: 'C'}}

func concFam(name string, cfg *Cfg, progs [][][]Op, bound int, opt string, race bool) *Family {
	return concFamS(name, cfg, progs, bound, opt, race, 1)
}

// concFamS splits every program's schedules into shards.
func concFamS(name string, cfg *Cfg, progs [][][]Op, bound int, opt string, race bool, sh int) *Family {
	return &Family{Name: name, N: len(progs) * sh, Chunk: 1, Race: race, Run: func(w *W, i int) { runConc(w, cfg, progs[i/sh], bound, opt, i%sh, sh) },
		Desc: func(i int) string {
			if sh == 1 {
				return progString(progs[i])
			}
			return fmt.Sprintf("%s (part %d of %d)", progString(progs[i/sh]), i%sh+1, sh)
		}}
}

// pairs of single operations, unordered
func pairProgs(a, b []Op) [][][]Op {
	var r [][][]Op
	for i, x := range a {
		for j, y := range b {
			if &a[0] == &b[0] && j < i {
				continue
			}
			r = append(r, [][]Op{{x}, {y}})
		}
	}
	return r
}

func twoByTwo(alpha []Op) [][][]Op {
	var seqs [][]Op
	for _, x := range alpha {
		for _, y := range alpha {
			seqs = append(seqs, []Op{x, y})
		}
	}
	var r [][][]Op
	for i := range seqs {
		for j := i; j < len(seqs); j++ {
			r = append(r, [][]Op{seqs[i], seqs[j]})
		}
	}
	return r
}

func triples(a []Op) [][][]Op {
	var r [][][]Op
	for i := range a {
		for j := i; j < len(a); j++ {
			for k := j; k < len(a); k++ {
				r = append(r, [][]Op{{a[i]}, {a[j]}, {a[k]}})
			}
		}
	}
	return r
}

func opsJoin(a ...[]Op) []Op {
	var r []Op
	for _, x := range a {
		r = append(r, x...)
	}
	return r
}

func famC09(th bool) []*Family {
	var fs []*Family
	all := opsJoin(concWrites, concReads, concReads2, concMaint)
	b, sh := 4, 1
	if th {
		b, sh = 99, 8
	}
	for _, c := range []string{"empty", "mixed", "data"} {
		fs = append(fs, concFamS("pairs/"+c, concCfgs[c], pairProgs(all, all), b, "", false, sh))
	}
	if th {
		b = 5
	}
	fs = append(fs, concFamS("pairs/gc", concCfgs["gc"], pairProgs(all, all), b-1, "t", false, sh))
	wr := []Op{{K: 'P', ID: 1, A: 600}, {K: 'P', ID: 1, A: 1500}, {K: 'P', ID: 2, A: 90}, {K: 'P', ID: 3, A: 600}, {K: 'E', ID: 1, A: 30}, {K: 'W', ID: 3, A: 50, B: 10, C: 600}, {K: 'D', ID: 1}, {K: 'R', ID: 1, A: 3}, {K: 'Y'}, {K: 'v', ID: 1}}
	fs = append(fs, concFamS("pairs/tight", concCfgs["tight"], pairProgs(wr, wr), b, "td", false, sh))
	small := []Op{{K: 'P', ID: 1, A: 600}, {K: 'E', ID: 1, A: 30}, {K: 'D', ID: 1}, {K: 'v', ID: 1}, {K: 'W', ID: 1, A: 50, B: 500, C: 700}, {K: 'R', ID: 1, A: 3}, {K: 'G'}, {K: 'L'}}
	b2 := 2
	if th {
		b2 = 3
	}
	fs = append(fs, concFam("2x2/mixed", concCfgs["mixed"], twoByTwo(small), b2, "", false))
	fs = append(fs, concFam("2x2/tight", concCfgs["tight"], twoByTwo(wr[:8]), b2-1, "td", false))
	// partial writes and reads of one lump of several blocks
	var parts []Op
	for _, x := range [][2]int{{10, 20}, {30, 20}, {500, 50}, {520, 20}, {520, 600}, {0, 1024}, {1020, 300}, {100, 1400}} {
		parts = append(parts, Op{K: 'W', ID: 1, A: x[1], B: x[0]})
	}
	pr := join(parts, []Op{{K: 'v', ID: 1}, {K: 'g', ID: 1, A: 0, B: 1500}, {K: 'g', ID: 1, A: 500, B: 50}, {K: 'g', ID: 1, A: 5, B: 30}, {K: 'P', ID: 1, A: 1300}, {K: 'D', ID: 1}})
	fs = append(fs, concFamS("parts/long", concCfgs["long"], pairProgs(parts, pr), b, "", false, sh))
	var p3 [][][]Op
	for _, x := range parts {
		p3 = append(p3, [][]Op{{x}, {parts[0]}, {{K: 'v', ID: 1}}}, [][]Op{{x}, {parts[3]}, {parts[2]}}, [][]Op{{x, parts[1]}, {parts[0], {K: 'v', ID: 1}}}, [][]Op{{x}, {{K: 'v', ID: 1}, {K: 'v', ID: 1}}})
	}
	fs = append(fs, concFamS("parts3/long", concCfgs["long"], p3, b2, "", false, sh))
	// space that an operation of one thread still uses is given to another lump
	var reuse, ringReuse [][][]Op
	for _, x := range []Op{{K: 'v', ID: 1}, {K: 'g', ID: 1, A: 480, B: 100}, {K: 'z', ID: 1}, {K: 'W', ID: 1, A: 50, B: 500, C: 700}, {K: 'P', ID: 1, A: 600}, {K: 'E', ID: 1, A: 30}, {K: 'D', ID: 1}, {K: 'p', ID: 1}, {K: 'k', ID: 1}} {
		for _, d := range []Op{{K: 'D', ID: 1}, {K: 'R', ID: 1, A: 2}, {K: 'E', ID: 1, A: 20}} {
			for _, p := range []Op{{K: 'P', ID: 3, A: 600}, {K: 'W', ID: 3, A: 50, B: 0, C: 600}} {
				reuse = append(reuse, [][]Op{{x}, {d, {K: 'Y'}, p}})
			}
		}
		reuse = append(reuse, [][]Op{{x}, {{K: 'D', ID: 1}, {K: 'Y'}}, {{K: 'P', ID: 3, A: 600}}}, [][]Op{{x}, {{K: 'P', ID: 1, A: 1000}, {K: 'Y'}, {K: 'P', ID: 3, A: 600}}})
	}
	fs = append(fs, concFamS("reuse/tight", concCfgs["tight"], reuse, b2, "td", false, sh))
	for _, x := range []Op{{K: 'v', ID: 1}, {K: 'v', ID: 2}, {K: 'g', ID: 1, A: 60, B: 60}, {K: 'z', ID: 1}, {K: 'E', ID: 1, A: 30}, {K: 'D', ID: 2}, {K: 'W', ID: 4, A: 50, B: 10}} {
		for _, g := range []Op{{K: 'G'}, {K: 'S', A: 3}, {K: 'E', ID: 1, A: 90}} {
			ringReuse = append(ringReuse, [][]Op{{x}, {g, {K: 'E', ID: 5, A: 200}, {K: 'E', ID: 5, A: 210}, {K: 'G'}, {K: 'E', ID: 5, A: 220}, {K: 'E', ID: 5, A: 230}}}, [][]Op{{x}, {g, {K: 'E', ID: 5, A: 200}, {K: 'E', ID: 5, A: 210}}, {{K: 'E', ID: 5, A: 220}, {K: 'G'}}})
		}
	}
	fs = append(fs, concFamS("reuse/ring", concCfgs["ring"], ringReuse, b2-1, "t", false, sh))
	tri := []Op{{K: 'P', ID: 1, A: 600}, {K: 'E', ID: 1, A: 30}, {K: 'W', ID: 1, A: 50, B: 500, C: 700}, {K: 'D', ID: 1}, {K: 'v', ID: 1}, {K: 'R', ID: 1, A: 3}, {K: 'G'}, {K: 'Y'}, {K: 'L'}}
	fs = append(fs, concFamS("triples/mixed", concCfgs["mixed"], triples(tri), b2, "", false, 4))
	fs = append(fs, concFamS("triples/empty", concCfgs["empty"], triples(tri[:6]), b2, "", false, 4))
	if th {
		fs = append(fs, concFamS("triples/tight", concCfgs["tight"], triples(wr), 2, "td", false, 4))
		fs = append(fs, concFamS("triples/gc", concCfgs["gc"], triples(tri), 2, "t", false, 8))
		var four [][][]Op
		for _, p := range triples(tri[:6]) {
			four = append(four, append(p, []Op{{K: 'v', ID: 1}, {K: 'L'}}))
		}
		fs = append(fs, concFamS("triples+reader/mixed", concCfgs["mixed"], four, 2, "", false, 8))
		var t3 [][][]Op
		for _, x := range twoByTwo(small[:5]) {
			t3 = append(t3, append(append([][]Op{}, x...), []Op{{K: 'v', ID: 1}, {K: 'v', ID: 1}}))
		}
		fs = append(fs, concFamS("2x2+reader/mixed", concCfgs["mixed"], t3, 2, "", false, 8))
	}
	return fs
}

func join2(a, b [][][]Op) [][][]Op { return append(append([][][]Op{}, a...), b...) }

func famC10(th bool) []*Family {
	var fs []*Family
	all := opsJoin(concWrites, concReads, concReads2, concMaint, concSnap, concClose)
	b, sh := 3, 4
	if th {
		b, sh = 5, 16
	}
	fs = append(fs, concFamS("close/mixed", concCfgs["mixed"], pairProgs(all, concClose), b, "b", false, sh))
	fs = append(fs, concFamS("close/gc", concCfgs["gc"], pairProgs(all, concClose), b, "bt", false, sh))
	fs = append(fs, concFamS("pairs/snapshot", concCfgs["mixed"], pairProgs(all, concSnap), b, "", false, sh))
	var two [][][]Op
	for _, x := range []Op{{K: 'P', ID: 1, A: 600}, {K: 'E', ID: 2, A: 30}, {K: 'v', ID: 1}, {K: 'v', ID: 2}, {K: 'W', ID: 1, A: 50, B: 500, C: 700}, {K: 'G'}, {K: 'Y'}, {K: 'U'}, {K: 'q'}} {
		two = append(two, [][]Op{{x, {K: 'C'}}, {{K: 'C'}}}, [][]Op{{x}, {{K: 'C'}, {K: 'C'}}}, [][]Op{{x, x}, {{K: 'C'}}}, [][]Op{{x}, {{K: 'C'}}, {{K: 'C'}}}, [][]Op{{x}, {x}, {{K: 'C'}}}, [][]Op{{x}, {{K: 'C'}, x}})
	}
	if th {
		fs = append(fs, concFamS("close2/deep", concCfgs["mixed"], two, 3, "", false, 16))
	}
	fs = append(fs, concFamS("close2/mixed", concCfgs["mixed"], two, 2, "b", false, 8))
	fs = append(fs, concFam("bg/mixed", concCfgs["mixed"], pairProgs(all, []Op{{K: '-'}}), b, "b", false))
	rb := 1
	if th {
		rb = 3
	}
	fs = append(fs, concFam("race-pairs/mixed", concCfgs["mixed"], pairProgs(all, all), rb, "", true))
	fs = append(fs, concFam("race-pairs/gc", concCfgs["gc"], pairProgs(all, all), rb, "t", true))
	// readers of snapshots
	rd := []Op{{K: 'x', A: 700001}}
	for _, c := range snapConcCfgs() {
		fs = append(fs, concFam("race-snap/"+c.Name, c, pairProgs(rd, opsJoin(concWrites, concMaint, concSnap, concClose, rd)), rb, "", true))
	}
	// the background goroutine wakes up, alone and against the end of the store
	tk := []Op{{K: 'T'}}
	fs = append(fs, concFam("tick/mixed", concCfgs["mixed"], pairProgs(tk, all), b, "", false))
	var tk3 [][][]Op
	for _, x := range []Op{{K: 'P', ID: 1, A: 600}, {K: 'E', ID: 2, A: 30}, {K: 'v', ID: 2}, {K: 'G'}, {K: 'Y'}, {K: 'U'}, {K: 'q'}} {
		tk3 = append(tk3, [][]Op{tk, {x, {K: 'C'}}}, [][]Op{tk, {x}, {{K: 'C'}}})
	}
	fs = append(fs, concFam("tick-close/mixed", concCfgs["mixed"], tk3, 2, "", false))
	fs = append(fs, concFam("race-tick/mixed", concCfgs["mixed"], join2(pairProgs(tk, all), tk3), rb, "", true))
	fs = append(fs, famConcFault(th, true)...)
	fs = append(fs, concFam("race-bg/mixed", concCfgs["mixed"], pairProgs(all, []Op{{K: '-'}, {K: 'C'}}), rb, "b", true))
	return fs
}

// famConcFault: a device call of one of several concurrent operations fails.
func famConcFault(th bool, race bool) []*Family {
	var fs []*Family
	ft := []Op{{K: 'P', ID: 1, A: 600}, {K: 'P', ID: 2, A: 90}, {K: 'P', ID: 3, A: 1500}, {K: 'W', ID: 1, A: 50, B: 500, C: 700}, {K: 'W', ID: 4, A: 50, B: 10}, {K: 'v', ID: 1}, {K: 'v', ID: 2}, {K: 'g', ID: 1, A: 480, B: 100}, {K: 'z', ID: 1}}
	others := opsJoin(concWrites, concReads, []Op{{K: 'G'}, {K: 'S', A: 3}, {K: 'Y'}, {K: 'B'}, {K: 'p', ID: 1}}, ft[2:5])
	b, sh, ks := 2, 1, 2
	if race {
		b = 1
	}
	if th {
		b, sh, ks = b+1, 4, 4
	}
	for _, cn := range []string{"mixed", "tight", "gc"} {
		opt := map[string]string{"mixed": "d", "tight": "td", "gc": "t"}[cn]
		for _, kind := range []string{"w", "r"} {
			for k := 0; k < ks; k++ {
				progs := pairProgs(ft, others)
				name := fmt.Sprintf("conc-fault/%s/%s%d", cn, kind, k)
				o := fmt.Sprintf("%sf%s%d", opt, kind, k)
				if race {
					fs = append(fs, concFam("race-"+name[5:], concCfgs[cn], progs, b, o, true))
					continue
				}
				fs = append(fs, concFamS(name, concCfgs[cn], progs, b, o, false, sh))
				if k == 0 {
					var more [][][]Op
					for _, x := range ft {
						for _, y := range []Op{{K: 'P', ID: 1, A: 600}, {K: 'D', ID: 1}, {K: 'v', ID: 1}} {
							more = append(more, [][]Op{{x, x}, {y}}, [][]Op{{x, {K: 'Y'}}, {y, {K: 'P', ID: 3, A: 600}}}, [][]Op{{x}, {y}, {{K: 'P', ID: 3, A: 600}}})
						}
					}
					fs = append(fs, concFamS("conc-fault3/"+name[11:], concCfgs[cn], more, b-1, o, false, sh))
				}
			}
		}
	}
	return fs
}

func snapConcCfgs() []*Cfg {
	big := Op{K: 'P', ID: 2, A: region + 9000}
	pre := []Op{{K: 'P', ID: 1, A: 700}, big, {K: 'E', ID: 4, A: 90}}
	return []*Cfg{
		{Name: "snap-none", Ring: 8, Data: 2300, Pre: pre},
		{Name: "snap-fresh", Ring: 8, Data: 2300, Pre: join(pre, []Op{{K: 's'}})},
		{Name: "snap-changed", Ring: 8, Data: 2300, Pre: join(pre, []Op{{K: 's'}, {K: 'P', ID: 1, A: 20}, {K: 'Y'}})},
	}
}

// C11: readers of a snapshot against everything else, on a file of two copy regions
func famSnapConc(th bool) []*Family {
	var fs []*Family
	cfgs := snapConcCfgs()
	x := Op{K: 'x', A: 700001}
	others := []Op{{K: 'P', ID: 1, A: 600}, {K: 'P', ID: 3, A: 70000}, {K: 'E', ID: 1, A: 30}, {K: 'W', ID: 2, A: 512, B: region + 4096, C: 0}, {K: 'W', ID: 2, A: 2000, B: 700, C: 0}, {K: 'D', ID: 1}, {K: 'R', ID: 1, A: 3}, {K: 'G'}, {K: 'Y'}, {K: 'F'}, {K: 's'}, {K: 'd'}, {K: 'q'}, {K: 'v', ID: 2}, {K: 'C'}, x}
	w := []Op{{K: 'P', ID: 1, A: 600}, {K: 'W', ID: 2, A: 512, B: region + 4096, C: 0}, {K: 'D', ID: 1}, {K: 'E', ID: 1, A: 30}}
	b, sh := 2, 1
	if th {
		b, sh = 4, 8
	}
	for _, c := range cfgs {
		fs = append(fs, concFamS("conc/"+c.Name, c, pairProgs([]Op{x, {K: 's'}, {K: 'd'}}, others), b, "", false, sh))
		var two [][][]Op
		for _, a := range w {
			for _, y := range w {
				two = append(two, [][]Op{{x}, {a, {K: 'Y'}, y}})
			}
			two = append(two, [][]Op{{x, x}, {{K: 'd'}, a}}, [][]Op{{{K: 's'}, x}, {a, {K: 'Y'}}}, [][]Op{{x}, {{K: 'd'}, a, {K: 's'}}}, [][]Op{{x}, {x}, {a}}, [][]Op{{x}, {{K: 'Y'}}, {a}})
		}
		fs = append(fs, concFamS("conc2/"+c.Name, c, two, b-1, "", false, sh))
		// the journal is written while data is: regions of both are copied at the same time
		var jd [][][]Op
		for _, j := range []Op{{K: 'E', ID: 1, A: 30}, {K: 'D', ID: 1}, {K: 'R', ID: 1, A: 3}} {
			for _, y := range []Op{{K: 'Y'}, {K: 'F'}, {K: 'G'}} {
				for _, a := range []Op{{K: 'P', ID: 3, A: 70000}, {K: 'P', ID: 5, A: 20}, {K: 'W', ID: 2, A: 512, B: region + 4096, C: 0}, {K: 'W', ID: 2, A: 2000, B: 700, C: 0}} {
					jd = append(jd, [][]Op{{j, y}, {a}})
				}
			}
		}
		fs = append(fs, concFamS("conc-journal/"+c.Name, c, jd, b, "", false, sh))
	}
	return fs
}

func init() {
	assume := []string{"threads interleave at lock acquisitions, device calls and wait group waits only; code between two such points is one step (unsynchronised accesses in between are C10's race families)",
		"locks grant waiting writers before new readers, as sync.RWMutex does"}
	register(&Check{ID: "C09", Families: famC09, Rule: "states: distinct scheduler states (operation and step of every thread, last device calls), counted per case and shard; transitions: scheduling points passed; traces: complete schedules of the real store, each judged against the sequential map model", Assume: assume})
	register(&Check{ID: "C10", Families: famC10, Rule: "states: distinct scheduler states (operation and step of every thread, last device calls), counted per case and shard; transitions: scheduling points passed; traces: complete schedules of the real store; the race families run under the race detector, which sees only the ordering the store itself creates", Assume: assume})
}
