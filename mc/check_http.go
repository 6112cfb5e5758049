package main

import "fmt"

func httpWords(alpha []hstim, d int) [][]hstim {
	var r [][]hstim
	for n := 1; n <= d; n++ {
		for i := 0; i < pow(len(alpha), n); i++ {
			o := make([]hstim, n)
			x := i
			for j := n - 1; j >= 0; j-- {
				o[j] = alpha[x%len(alpha)]
				x /= len(alpha)
			}
			r = append(r, o)
		}
	}
	return r
}

func httpFam(name string, words [][]hstim, run func(w *W, st []hstim)) *Family {
	return &Family{Name: name, N: len(words), Desc: func(i int) string { return stimString(words[i]) },
		Run: func(w *W, i int) { run(w, words[i]) }}
}

func famC23(th bool) []*Family {
	ext := 0
	if th {
		ext = 1
	}
	mid := &hcfg{cfg: &Cfg{Name: "http-mid", Ring: 40, Data: 80}, pre: []Op{{K: 'P', ID: 1, A: 600}, {K: 'P', ID: 5, A: 20}, {K: 'P', ID: 2, A: 5}, {K: 'D', ID: 2}}}
	top := &hcfg{cfg: &Cfg{Name: "http-top", Ring: 40, Data: 80}, pre: []Op{{K: 'P', ID: 0, A: 10}, {K: 'P', ID: 1<<64 - 1, A: 20}}}
	tight := &hcfg{cfg: &Cfg{Name: "http-tight", Ring: 12, Data: 6}, pre: []Op{{K: 'P', ID: 1, A: 600}}}
	seqA := []hstim{
		{'p', 1, 10, ""}, {'p', 1, 0, ""}, {'p', 3, 700, ""}, {'a', 0, 30, ""}, {'a', 0, 1022, ""}, {'g', 1, 0, ""}, {'g', 3, 0, ""}, {'r', 0, 0, ""}, {'u', 0, 0, ""}, {'t', 0, 0, ""},
		{'B', 0, 0, "put-id"}, {'B', 0, 0, "put-neg"}, {'B', 0, 0, "put-over"}, {'B', 0, 0, "put-nofile"}, {'B', 0, 0, "put-nobody"}, {'B', 0, 0, "put-cut"}, {'B', 0, 0, "get-id"}, {'B', 0, 0, "get-over"}, {'B', 0, 0, "snap-op"}, {'B', 0, 0, "root"},
	}
	P, A, G := func(id uint64, n int) hstim { return hstim{'p', id, n, ""} }, func(n int) hstim { return hstim{'a', 0, n, ""} }, func(id uint64) hstim { return hstim{'g', id, 0, ""} }
	K := func(k byte) hstim { return hstim{k, 0, 0, ""} }
	seqA = append(seqA, hstim{'B', 0, 0, "put-abort"})
	conA := []hstim{P(1, 10), P(3, 700), A(30), G(1), G(3), K('i')}
	conB := []hstim{P(1, 10), P(3, 700), A(30), A(0)}
	conC := []hstim{P(1, 10), P(1, 700), A(30), G(1), K('u')}
	tightA := []hstim{P(1, 10), P(3, 1022), A(1600), A(10), G(3), K('t')}
	big := &hcfg{cfg: &Cfg{Name: "http-big", Ring: 60, Data: 2600}, pre: []Op{{K: 'P', ID: 1, A: 600000}, {K: 'P', ID: 5, A: 20}}}
	T1 := hstim{'T', 0, 1, ""}
	bkA := []hstim{P(1, 3000), P(9, 100000), A(30), K('r'), T1, K('b'), K('t')}
	var backups [][]hstim
	for _, m := range httpWords(bkA, 3+ext) {
		backups = append(backups, append(append([]hstim{A(5), K('b')}, m...), K('T'), P(1, 100), K('b'), T1, P(2, 600), K('T')))
	}
	var texts []hstim // ways to write ids
	for _, id := range []uint64{1, 5, 12, 10, 17, 1<<64 - 1} {
		for _, z := range []string{"", "0", "000"} {
			texts = append(texts, hstim{'p', id, 40, z}, hstim{'g', id, 0, z})
		}
	}
	for _, b := range []string{"put-hex", "put-under", "put-plus", "put-sub", "put-space", "put-dot", "get-hex", "get-under", "get-plus", "get-space", "get-dot"} {
		texts = append(texts, hstim{'B', 0, 0, b})
	}
	huge := &hcfg{cfg: &Cfg{Name: "http-huge", Ring: 60, Data: 66000}}
	hugeW := [][]hstim{{A(0xFFFF*512 - 2), P(1, 10)}, {P(7, 0xFFFF*512-1), P(7, 3)}, {P(7, 0xFFFF*512+100000), G(7)}}
	wide := &hcfg{cfg: &Cfg{Name: "http-wide", Ring: 60, Data: 12000}, pre: []Op{{K: 'P', ID: 1, A: 600}}}
	var sizesW [][]hstim
	for _, n := range []int{4095, 4096, 16384, 32766, 32767, 32768, 40000, 65533, 65534, 65535, 65536, 65537, 65600, 66000, 131071, 131072, 131073, 1 << 20, 1<<20 + 1, 2000000} {
		sizesW = append(sizesW, []hstim{A(n), P(1, n), P(9, n), K('t'), P(9, 5), A(n + 511), G(1), G(9)}, []hstim{P(9, 70), P(9, n), A(3), K('r'), A(n), P(9, n+1), G(9), K('t')})
	}
	burst := func(n int) []hstim {
		var l []hstim
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				l = append(l, A(10+i))
			} else {
				l = append(l, P([]uint64{0, 3, 4}[i%3], 20+i))
			}
		}
		return l
	}
	faultX := []hstim{P(1, 10), P(3, 700), A(30), P(1, 1500), G(1), G(3), K('r'), K('t'), K('u')}
	faultTail := []hstim{P(7, 50), G(7), A(3), G(1)}
	faultPre := append([][]hstim{{}}, httpWords([]hstim{P(1, 10), P(3, 700), A(30), K('t'), K('r')}, 2+ext)...)
	fams := []*Family{
		httpFam("seq/mid", httpWords(seqA, 3), func(w *W, st []hstim) { runHTTP(w, mid, st, hopt{seq: true, power: true}) }),
		httpFam("seq/mid-deep", httpWords(seqA[:10], 4+ext), func(w *W, st []hstim) { runHTTP(w, mid, st, hopt{seq: true, power: true}) }),
		httpFam("seq/ids", httpWords(texts, 2), func(w *W, st []hstim) {
			runHTTP(w, mid, append(append([]hstim{}, st...), G(8), G(10), G(12)), hopt{seq: true})
		}),
		httpFam("seq/top", httpWords(seqA[:10], 3+ext), func(w *W, st []hstim) { runHTTP(w, top, st, hopt{seq: true, power: true}) }),
		httpFam("seq/tight", httpWords(tightA, 5+ext), func(w *W, st []hstim) { runHTTP(w, tight, st, hopt{seq: true, power: true, tight: true}) }),
		httpFam("conc/mid", httpWords(conA, 4+ext), func(w *W, st []hstim) { runHTTP(w, mid, st, hopt{power: true}) }),
		httpFam("conc/tight", httpWords(tightA[:5], 3+ext), func(w *W, st []hstim) { runHTTP(w, tight, st, hopt{tight: true}) }),
		httpFam("conc/top", httpWords(conB, 3+ext), func(w *W, st []hstim) { runHTTP(w, top, st, hopt{}) }),
		httpFam("conc/reads", httpWords(conC, 3+ext), func(w *W, st []hstim) { runHTTP(w, mid, st, hopt{reads: true}) }),
		httpFam("backup", backups, func(w *W, st []hstim) { runHTTP(w, big, st, hopt{seq: true, nocrash: true}) }),
		httpFam("seq/sizes", sizesW, func(w *W, st []hstim) { runHTTP(w, wide, st, hopt{seq: true, nocrash: true}) }),
		httpFam("huge", hugeW, func(w *W, st []hstim) { runHTTP(w, huge, st, hopt{seq: true, nocrash: true}) }),
		{Name: "fault", N: len(faultPre) * len(faultX), Desc: func(i int) string {
			return stimString(faultPre[i/len(faultX)]) + "; faults in " + faultX[i%len(faultX)].String()
		}, Run: func(w *W, i int) {
			runHTTPFaultAll(w, mid, faultPre[i/len(faultX)], faultX[i%len(faultX)], faultTail)
		}},
		{Name: "burst", N: 30, Desc: func(i int) string { return fmt.Sprintf("%d uploads while the first one waits at device call 1", i+1) }, Run: func(w *W, i int) {
			runBurst(w, mid, burst(i+1))
		}},
	}
	return fams
}

// runBurst: everything is sent while the worker waits in its first device call.
func runBurst(w *W, hc *hcfg, st []hstim) {
	h := newHTTPRun(w, hc, st)
	h.roomy = true
	h.launch()
	defer h.unhook()
	for _, s := range st {
		h.deliver(s)
	}
	for len(h.parked) > 0 {
		h.release(0)
	}
	if h.pending() > 0 && !h.late() {
		h.fail("%d requests never get an answer", h.pending())
	}
	h.shutdown()
	h.lateAnswer()
	seen := map[uint64]*hop{}
	for _, o := range h.ops {
		h.parse(o)
		if !o.ok() {
			h.fail("%s fails: %d %s", o, o.status, o.body)
		}
		if q := seen[o.gotID]; q != nil && (o.k == 'a' || q.k == 'a') {
			h.fail("%s and %s report the same id", q, o)
		}
		if _, had := h.init[o.gotID]; had && o.k == 'a' {
			h.fail("%s got the id of an existing lump", o)
		}
		seen[o.gotID] = o
	}
	got, _ := h.load(rawRead(h.path), "after a clean stop", true)
	for id := range seen {
		ok := false
		for _, o := range h.ops {
			ok = ok || o.gotID == id && got[id] == valHash(o.val)
		}
		if !ok {
			h.fail("lump %x does not hold a value uploaded to it", id)
		}
	}
	if len(got) != len(seen)+len(h.init) {
		h.fail("%d lumps in the store, want %d", len(got), len(seen)+len(h.init))
	}
	w.C.Execs++
	w.C.Traces++
	if len(st) <= 12 {
		h.judgeCrash(false)
	}
}

func init() {
	register(&Check{ID: "C23", Families: famC23, Rule: "evaluations: executions judged at the end (answers, final content) and crash states judged; distinct_nontrivial: distinct device images opened",
		Assume: []string{"the server's main function runs inside the harness; port, clock, signals and exit are replaced by in-memory ones"}})
	_ = fmt.Sprint
}
