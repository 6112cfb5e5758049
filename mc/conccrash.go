package main

// Crash states of concurrent programs: every schedule within the preemption bound runs on
// the real store while its device events are recorded with their place in time; after each
// event every crash state is built, the real code is started on it, and what it finds must
// be explained by the operations acknowledged, started and synced at that moment.

import (
	"fmt"
	"syscall"

	"github.com/thesues/cannyls-go/storage"
)

type cev struct {
	ev
	at int // logical time
}

type concCrash struct {
	power  bool
	maxAll int
	fds    map[int]int
	log    []cev
	run    *crashRun
	seen   map[uint64]bool
	base   []byte
	vecs   map[string]content
}

// ioLog records the device events of the store file while the scheduler runs.
var ioLog *concCrash

//go:norace
func (k *concCrash) pwrite(fd int, p []byte, off int64) (int, error, bool) {
	mode, ok := k.fds[fd]
	if !ok {
		return 0, nil, false
	}
	n, err := syscall.VerifRawPwrite(fd, p, off)
	if n > 0 {
		k.log = append(k.log, cev{ev{kind: 'w', off: off, data: append([]byte(nil), p[:n]...), dur: mode&syscall.O_DSYNC != 0}, tick()})
	}
	return n, err, true
}

//go:norace
func (k *concCrash) sync(fd int) (error, bool) {
	if _, ok := k.fds[fd]; !ok {
		return nil, false
	}
	k.log = append(k.log, cev{ev{kind: 's'}, tick()})
	return nil, true
}

func (k *concCrash) openHooks(path string) *syscall.VerifIOHooks {
	k.fds = map[int]int{}
	return &syscall.VerifIOHooks{Opened: func(p string, mode int, fd int, err error) {
		if err == nil && p == path {
			k.fds[fd] = mode
		}
	}}
}

func isWrite(o Op) bool { return o.K == 'P' || o.K == 'E' || o.K == 'D' || o.K == 'R' || o.K == 'W' }

// judgeCrash examines every crash state of the execution just recorded.
func (c *concCase) judgeCrash(st *storage.Storage) {
	k := c.crash
	ioLog = nil
	syscall.VerifIO = nil
	type mark struct {
		t, k int
		r    *cres
		o    Op
	}
	var ws, ys []mark
	for t := range c.prog {
		for i, o := range c.prog[t] {
			r := &c.res[t][i]
			m := mark{t, i, r, o}
			switch {
			case o.K == 'Y':
				ys = append(ys, m)
			case isWrite(o):
				if r.err == eErr || r.err == eClosed || r.err != eOK && !c.tight {
					c.fail("%s: %s", opName(o), r.String())
				}
				ws = append(ws, m)
			}
		}
	}
	n := len(c.prog)
	d := &disk{durable: append([]byte(nil), k.base...)}
	look := func(where string, at int) {
		// what is started, what is synced
		started, synced := make([]int, n), make([]int, n)
		for _, m := range ws {
			if m.r.inv < at && m.k+1 > started[m.t] {
				started[m.t] = m.k + 1
			}
		}
		for _, y := range ys {
			if y.r.resp >= at {
				continue
			}
			for _, m := range ws {
				if m.r.resp < y.r.inv && m.k+1 > synced[m.t] {
					synced[m.t] = m.k + 1
				}
			}
		}
		run := k.run
		run.synced, run.touched, run.cand = c.vecContent(synced), nil, nil
		for _, m := range ws {
			if m.r.inv < at && m.k+1 > synced[m.t] {
				if t, ok := opTouch(m.o); ok {
					run.touched = append(run.touched, t)
				}
			}
		}
		if !k.power {
			p := append([]int(nil), synced...)
			for {
				ok := true
				for _, a := range ws {
					if a.k < p[a.t] {
						continue
					}
					for _, b := range ws {
						// b counted although a, which was over before b began, is not
						if b.k < p[b.t] && a.r.resp < b.r.inv {
							ok = false
						}
					}
				}
				if ok {
					run.cand = append(run.cand, c.vecContent(p))
				}
				i := 0
				for ; i < n; i++ {
					if p[i]++; p[i] <= started[i] {
						break
					}
					p[i] = synced[i]
				}
				if i == n {
					break
				}
			}
			run.buf = d.image(run.buf, func(int) bool { return true })
			run.check(run.buf, false, where)
			return
		}
		np := len(d.pending)
		for _, m := range subsets(np, k.maxAll) {
			run.buf = d.image(run.buf, func(i int) bool { return i > 63 || m>>uint(i)&1 == 1 })
			run.check(run.buf, true, fmt.Sprintf("%s, power loss keeping writes %0*b of the %d unsynced (bit 0: oldest)", where, np, m, np))
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if f, ok := r.(failure); ok {
					var s string
					for _, e := range k.log {
						switch e.kind {
						case 'w':
							s += fmt.Sprintf(" [%d] write %d+%d;", e.at, e.off, len(e.data))
						default:
							s += fmt.Sprintf(" [%d] sync;", e.at)
						}
					}
					c.fail("%s\n  device events:%s", f.msg, s)
				}
				panic(r)
			}
		}()
		for i := range k.log {
			d.step(k.log[i].ev)
			look(fmt.Sprintf("crash after device event %d of %d", i+1, len(k.log)), k.log[i].at)
		}
		look("crash after the program", 1<<30)
	}()
	st.Close()
	k.log = nil
}

// vecContent: the lumps after the first p[t] operations of every thread t (the threads
// use different lumps, so that their order does not matter).
func (c *concCase) vecContent(p []int) content {
	key := ""
	for t := range p {
		key += string(rune('0' + p[t]))
		for i := 0; i < p[t]; i++ {
			key += string(rune('a' + int(c.res[t][i].err)))
		}
	}
	if x, ok := c.crash.vecs[key]; ok {
		return x
	}
	s := c.lin
	for t := range p {
		for i := 0; i < p[t]; i++ {
			if o := c.prog[t][i]; isWrite(o) && c.res[t][i].err == eOK {
				r := c.res[t][i]
				s, _ = linStep(s, o, c.vals[t][i], &r, c.tight)
			}
		}
	}
	x := s.m.content()
	c.crash.vecs[key] = x
	return x
}

func newConcCrash(w *W, cfg *Cfg, ci *concImg, prog string, power bool, maxAll int) *concCrash {
	r := &crashRun{w: w, power: power, maxAll: maxAll, rec: newRecorder("/nonexistent")}
	r.s = &SUT{w: w, cfg: cfg, path: w.Dir + "/c.lusf", m: newModel(), lax: true, where: prog}
	return &concCrash{power: power, maxAll: maxAll, run: r, vecs: map[string]content{}}
}

// ---- families

// the threads of a program write different lumps: the first thread 1 and 2, the second 3 to 5
func concCrashProgs(a, b []Op, th bool) [][][]Op {
	y := Op{K: 'Y'}
	var r [][][]Op
	add := func(p ...[]Op) { r = append(r, p) }
	for _, x := range a {
		add([]Op{x}, []Op{y, y})
		add([]Op{x, y}, []Op{{K: 'G'}})
		add([]Op{x, y}, []Op{{K: 'S', A: 3}, y})
		for _, z := range b {
			add([]Op{x, y}, []Op{z, y})
			add([]Op{x, y, {K: 'D', ID: x.ID}}, []Op{z})
			add([]Op{x}, []Op{z}, []Op{y})
			if th {
				add([]Op{x, y}, []Op{z, y}, []Op{{K: 'S', A: 3}})
				for _, z2 := range b {
					add([]Op{x, y}, []Op{z, z2, y})
				}
			}
		}
	}
	return r
}

var ccA = []Op{{K: 'P', ID: 1, A: 600}, {K: 'E', ID: 1, A: 30}, {K: 'D', ID: 1}, {K: 'R', ID: 1, A: 3}, {K: 'P', ID: 2, A: 20}}
var ccB = []Op{{K: 'P', ID: 4, A: 900}, {K: 'E', ID: 4, A: 470}, {K: 'D', ID: 3}, {K: 'P', ID: 3, A: 40}}

var cfgsCC = []*Cfg{
	{Name: "cc-ring8", Ring: 8, Data: 24, Pre: join(live3, []Op{opY})},
	{Name: "cc-wrap", Ring: 8, Data: 24, Pre: join(ringAt(4096-260), live3, []Op{opY})},
	{Name: "cc-midgc", Ring: 4, Data: 24, Pre: join(live3, repeatOps([]Op{{K: 'E', ID: 5, A: 120}}, 8), []Op{{K: 'P', ID: 1, A: 9}, opY})},
}
var cfgCCReuse = &Cfg{Name: "cc-reuse", Ring: 8, Data: 4, Pre: []Op{{K: 'P', ID: 1, A: 510}, {K: 'P', ID: 3, A: 600}, {K: 'E', ID: 2, A: 20}, opY}}

func famConcCrash(power, th bool) []*Family {
	var fs []*Family
	b, sh, maxAll := 2, 1, 5
	if th {
		b, sh, maxAll = 3, 8, 6
	}
	add := func(cfg *Cfg, progs [][][]Op, opt string) {
		fs = append(fs, &Family{Name: "conc/" + cfg.Name, N: len(progs) * sh, Chunk: 1,
			Run:  func(w *W, i int) { runConcCrash(w, cfg, progs[i/sh], b, opt, i%sh, sh, power, maxAll) },
			Desc: func(i int) string { return progString(progs[i/sh]) + " (every crash state of every schedule)" }})
	}
	for _, c := range cfgsCC {
		add(c, concCrashProgs(ccA, ccB, th), "")
	}
	y := Op{K: 'Y'}
	var rp [][][]Op
	for _, d := range []Op{{K: 'D', ID: 1}, {K: 'R', ID: 1, A: 3}} {
		for _, p := range []Op{{K: 'P', ID: 4, A: 30}, {K: 'P', ID: 5, A: 700}} {
			rp = append(rp, [][]Op{{d, y}, {p}}, [][]Op{{d}, {p, y}}, [][]Op{{d}, {y, p}}, [][]Op{{d}, {p, y, {K: 'D', ID: p.ID}}}, [][]Op{{d}, {y}, {p}}, [][]Op{{d, {K: 'F'}}, {p}}, [][]Op{{d, {K: 'S', A: 3}}, {p, y}}, [][]Op{{d, {K: 'G'}}, {p, y}},
				[][]Op{{d, y, p}, {{K: 'D', ID: 3}, y}})
		}
	}
	add(cfgCCReuse, rp, "t")
	return fs
}
