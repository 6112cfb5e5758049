package main

// Framework: a check is a list of families; a family is an indexed finite space of cases.
// The parent hands index ranges to worker processes; a worker announces the case it is
// running in a shared mapping, so a crash or a hang is attributed to its case.

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

type Family struct {
	Name  string
	N     int // number of cases
	Chunk int // cases per job (0: automatic)
	Run   func(w *W, idx int)
	Desc  func(idx int) string // human readable form of a case
	Race  bool                 // run in the -race binary
	Rank  int                  // families of a lower rank are handed out first
}

type Check struct {
	ID       string
	Families func(thorough bool) []*Family
	Rule     string
	Assume   []string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Counts is what a worker reports for a job.
type Counts struct {
	Cases, Execs, States, Trans, Nontrivial, Traces int64
	Outcomes                                        map[string]int64
	Known                                           map[string]int64
}

func (c *Counts) add(o *Counts) {
	c.Cases += o.Cases
	c.Execs += o.Execs
	c.States += o.States
	c.Trans += o.Trans
	c.Nontrivial += o.Nontrivial
	c.Traces += o.Traces
	for k, v := range o.Outcomes {
		if c.Outcomes == nil {
			c.Outcomes = map[string]int64{}
		}
		c.Outcomes[k] += v
	}
	for k, v := range o.Known {
		if c.Known == nil {
			c.Known = map[string]int64{}
		}
		c.Known[k] += v
	}
}

type FailInfo struct {
	Fam, Case, Sub, Msg string
	Idx                 int
}

type result struct {
	C      Counts
	Fail   *FailInfo
	Sample string
}

// W is a worker's context.
type W struct {
	ID       string
	Thorough bool
	Seed     int64
	Dir      string
	C        Counts
	fam      *Family
	idx      int
	sub      string
	known    []knownEntry
	mm       []byte
	beat     uint64
	Verbose  bool
	hashes   map[uint64]struct{}
	Sample   string
}

type knownEntry struct{ Prop, Match, What string }

type failure struct{ msg string }

// Failf ends the current case with a violation.
func (w *W) Failf(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

func (w *W) Logf(format string, a ...interface{}) {
	if w.Verbose {
		fmt.Fprintf(os.Stderr, format+"\n", a...)
	}
}

func (w *W) Outcome(k string) {
	if w.C.Outcomes == nil {
		w.C.Outcomes = map[string]int64{}
	}
	w.C.Outcomes[k]++
}

// Beat announces progress; sub describes the sub-case being run.
func (w *W) Beat(sub string) {
	w.sub = sub
	w.beat++
	if w.mm == nil {
		return
	}
	n := copy(w.mm[16:4000], sub)
	binary.LittleEndian.PutUint32(w.mm[12:], uint32(n))
	binary.LittleEndian.PutUint64(w.mm[0:], w.beat)
}

func (w *W) setCase(idx int) {
	w.idx = idx
	if w.mm != nil {
		binary.LittleEndian.PutUint32(w.mm[8:], uint32(idx))
	}
	w.Beat("")
}

// Seen records a state hash; it reports whether it was new in this job.
func (w *W) Seen(h uint64) bool {
	if w.hashes == nil {
		w.hashes = map[uint64]struct{}{}
	}
	if _, ok := w.hashes[h]; ok {
		return false
	}
	w.hashes[h] = struct{}{}
	return true
}

func hashBytes(bs ...[]byte) uint64 {
	h := fnv.New64a()
	for _, b := range bs {
		h.Write(b)
		h.Write([]byte{0xfe, byte(len(b))})
	}
	return h.Sum64()
}

func hashStr(s string) uint64 { return hashBytes([]byte(s)) }

func (w *W) runCase(f *Family, idx int) (fi *FailInfo) {
	w.fam = f
	w.setCase(idx)
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			if x, ok := r.(failure); ok {
				msg = x.msg
			} else {
				msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
			}
			resetHooks()
			desc := ""
			if f.Desc != nil {
				desc = f.Desc(idx)
			}
			fi = &FailInfo{Fam: f.Name, Case: desc, Sub: w.sub, Msg: msg, Idx: idx}
			if k := w.matchKnown(fi); k != "" {
				if w.C.Known == nil {
					w.C.Known = map[string]int64{}
				}
				w.C.Known[k]++
				fi = nil
			}
		}
	}()
	f.Run(w, idx)
	w.C.Cases++
	return nil
}

func (w *W) matchKnown(fi *FailInfo) string {
	text := fi.Fam + " | " + fi.Case + " | " + fi.Sub + " | " + fi.Msg
	for _, k := range w.known {
		if k.Prop == w.ID && strings.Contains(text, k.Match) {
			return k.What
		}
	}
	return ""
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 60 {
		l = l[:60]
	}
	return strings.Join(l, "\n")
}

// ---------------------------------------------------------------- worker process

func workerMain(args []string) {
	// args: ID tier seed dir mmapfile
	id, tier, dir, mmf := args[0], args[1], args[3], args[4]
	seed, _ := strconv.ParseInt(args[2], 10, 64)
	w := &W{ID: id, Thorough: tier == "thorough", Seed: seed, Dir: dir, known: loadKnown()}
	f, err := os.OpenFile(mmf, os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	w.mm, err = syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	f.Close()
	w.Verbose = os.Getenv("MC_VERBOSE") != ""
	out := os.NewFile(3, "results")
	quietStdout()
	fams := map[string]*Family{}
	for _, fm := range checks[id].Families(w.Thorough) {
		fams[fm.Name] = fm
	}
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<16), 1<<16)
	enc := json.NewEncoder(out)
	for in.Scan() {
		var name string
		var lo, hi int
		p := strings.Fields(in.Text())
		if len(p) != 3 {
			panic("bad job: " + in.Text())
		}
		name = p[0]
		lo, _ = strconv.Atoi(p[1])
		hi, _ = strconv.Atoi(p[2])
		fm := fams[name]
		w.C = Counts{}
		w.hashes = nil
		w.Sample = ""
		var res result
		for i := lo; i < hi; i++ {
			if fi := w.runCase(fm, i); fi != nil {
				res.Fail = fi
				break
			}
		}
		res.C = w.C
		res.Sample = w.Sample
		if res.Sample == "" && fm.Desc != nil && lo < hi {
			res.Sample = fm.Name + ": " + fm.Desc(lo)
		}
		enc.Encode(&res)
	}
}

func quietStdout() {
	n, _ := syscall.VerifRawOpen("/dev/null", syscall.O_WRONLY, 0)
	syscall.Dup2(n, 1)
}

// ---------------------------------------------------------------- parent process

type job struct {
	fam    *Family
	lo, hi int
}

type wproc struct {
	cmd     *exec.Cmd
	in      *os.File
	out     *bufio.Reader
	mm      []byte
	errPath string
	race    bool
}

func (p *wproc) beat() uint64 { return *(*uint64)(unsafe.Pointer(&p.mm[0])) }
func (p *wproc) current() (int, string) {
	n := binary.LittleEndian.Uint32(p.mm[12:])
	if n > 3984 {
		n = 0
	}
	return int(binary.LittleEndian.Uint32(p.mm[8:])), string(p.mm[16 : 16+n])
}

type runner struct {
	c        *Check
	tier     string
	seed     int64
	dir      string
	exe      string
	raceExe  string
	deadline time.Time
	hang     time.Duration
	nproc    int32
}

func (r *runner) spawn(tag string, race bool) *wproc {
	d := filepath.Join(r.dir, tag)
	os.MkdirAll(d, 0755)
	mmf := filepath.Join(r.dir, tag+".mm")
	os.WriteFile(mmf, make([]byte, 4096), 0644)
	f, err := os.OpenFile(mmf, os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	mm, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	f.Close()
	exe := r.exe
	if race {
		exe = r.raceExe
	}
	cmd := exec.Command(exe, "worker", r.c.ID, r.tier, fmt.Sprint(r.seed), d, mmf)
	rin, win, _ := os.Pipe()
	rout, wout, _ := os.Pipe()
	cmd.Stdin = rin
	errPath := filepath.Join(r.dir, tag+".err")
	ef, _ := os.Create(errPath)
	cmd.Stderr = ef
	cmd.ExtraFiles = []*os.File{wout}
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=400", "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+filepath.Join(r.dir, tag+".race"))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	rin.Close()
	wout.Close()
	ef.Close()
	return &wproc{cmd: cmd, in: win, out: bufio.NewReaderSize(rout, 1<<16), mm: mm, errPath: errPath, race: race}
}

func (p *wproc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
	syscall.Munmap(p.mm)
}

// do runs one job; died is set when the worker is gone afterwards.
func (r *runner) do(p *wproc, j job) (res result, died bool) {
	fmt.Fprintf(p.in, "%s %d %d\n", j.fam.Name, j.lo, j.hi)
	type lineErr struct {
		b   []byte
		err error
	}
	ch := make(chan lineErr, 1)
	go func() {
		b, err := p.out.ReadBytes('\n')
		ch <- lineErr{b, err}
	}()
	last, lastT := p.beat(), time.Now()
	for {
		select {
		case x := <-ch:
			if x.err == nil {
				if err := json.Unmarshal(x.b, &res); err != nil {
					panic(err)
				}
				return res, false
			}
			idx, sub := p.current()
			p.cmd.Wait()
			msg := "worker process died (crash in the code under test)\n" + tailFile(p.errPath, 6000)
			res.Fail = &FailInfo{Fam: j.fam.Name, Idx: idx, Sub: sub, Msg: msg}
			if j.fam.Desc != nil {
				res.Fail.Case = j.fam.Desc(idx)
			}
			return res, true
		case <-time.After(200 * time.Millisecond):
			if b := p.beat(); b != last {
				last, lastT = b, time.Now()
			} else if time.Since(lastT) > r.hang {
				idx, sub := p.current()
				p.cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(500 * time.Millisecond)
				p.cmd.Process.Kill()
				<-ch
				p.cmd.Wait()
				res.Fail = &FailInfo{Fam: j.fam.Name, Idx: idx, Sub: sub,
					Msg: fmt.Sprintf("does not terminate (no progress for %v)\n%s", r.hang, headFile(p.errPath, 6000))}
				if j.fam.Desc != nil {
					res.Fail.Case = j.fam.Desc(idx)
				}
				return res, true
			}
		}
	}
}

func tailFile(p string, n int) string {
	b, _ := os.ReadFile(p)
	if i := strings.Index(string(b), "panic:"); i >= 0 {
		b = b[i:]
		if len(b) > n {
			b = b[:n]
		}
		return string(b)
	}
	if i := strings.Index(string(b), "fatal error:"); i >= 0 {
		b = b[i:]
		if len(b) > n {
			b = b[:n]
		}
		return string(b)
	}
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}
func headFile(p string, n int) string {
	b, _ := os.ReadFile(p)
	if len(b) > n {
		b = b[:n]
	}
	return string(b)
}

func scratchRoot() string {
	try := []string{"/dev/shm", filepath.Join(verifDir(), ".build"), os.TempDir()}
	for _, t := range try {
		d, err := os.MkdirTemp(t, "verif-mc-")
		if err != nil {
			continue
		}
		fd, err := syscall.VerifRawOpen(filepath.Join(d, "probe"), syscall.O_DIRECT|syscall.O_CREAT|syscall.O_RDWR, 0644)
		if err == nil {
			err = syscall.VerifRawFallocate(fd, 1, 0, 4096)
			syscall.Close(fd)
		}
		if err == nil {
			os.Remove(filepath.Join(d, "probe"))
			return d
		}
		os.RemoveAll(d)
	}
	fmt.Fprintln(os.Stderr, "mc: no scratch directory supports O_DIRECT")
	os.Exit(2)
	return ""
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown() []knownEntry {
	var res []knownEntry
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	// line: known: property=<id> match=<text> what=<text>
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.Index(l, " match=")
		j := strings.Index(l, " what=")
		if i < 0 || j < i {
			continue
		}
		res = append(res, knownEntry{Prop: l[:i], Match: l[i+7 : j], What: l[j+6:]})
	}
	return res
}

func checkMain(args []string) int {
	id, tier := args[0], args[1]
	c := checks[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "mc: no check", id)
		return 2
	}
	start := time.Now()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	budget := 420 * time.Second
	if tier == "thorough" {
		budget = 3000 * time.Second
	}
	if s := os.Getenv("MC_BUDGET_S"); s != "" {
		n, _ := strconv.Atoi(s)
		budget = time.Duration(n) * time.Second
	}
	r := &runner{c: c, tier: tier, seed: seed, dir: scratchRoot(), deadline: start.Add(budget), hang: 25 * time.Second}
	defer os.RemoveAll(r.dir)
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() { <-sig; os.RemoveAll(r.dir); os.Exit(3) }()
	r.exe, _ = os.Executable()
	r.raceExe = r.exe + "-race"
	fams := c.Families(tier == "thorough")
	if only := os.Getenv("MC_FAM"); only != "" {
		var x []*Family
		for _, f := range fams {
			if strings.Contains(f.Name, only) {
				x = append(x, f)
			}
		}
		fams = x
	}
	nw := 8
	if s := os.Getenv("MC_WORKERS"); s != "" {
		nw, _ = strconv.Atoi(s)
	}
	var jobs []job
	for _, f := range fams {
		ch := f.Chunk
		if ch == 0 {
			ch = f.N/(nw*12) + 1
			if ch > 2000 {
				ch = 2000
			}
		}
		for lo := 0; lo < f.N; lo += ch {
			hi := lo + ch
			if hi > f.N {
				hi = f.N
			}
			jobs = append(jobs, job{f, lo, hi})
		}
	}
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].fam.Rank < jobs[j].fam.Rank })
	var mu sync.Mutex
	next := 0
	var total Counts
	perFam := map[string]*Counts{}
	var samples []string
	sampled := map[string]int{}
	var viol *FailInfo
	unrepro := 0
	var unreproMsgs []string
	stopped := false
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			var p *wproc
			gen := 0
			defer func() {
				if p != nil {
					p.stop()
				}
			}()
			for {
				mu.Lock()
				if viol != nil || next >= len(jobs) || time.Now().After(r.deadline) {
					if next < len(jobs) && viol == nil {
						stopped = true
					}
					mu.Unlock()
					return
				}
				j := jobs[next]
				next++
				mu.Unlock()
				for j.lo < j.hi {
					if p != nil && p.race != j.fam.Race {
						p.stop()
						p = nil
					}
					if p == nil {
						gen++
						p = r.spawn(fmt.Sprintf("w%d.%d", k, gen), j.fam.Race)
					}
					res, died := r.do(p, j)
					if died {
						syscall.Munmap(p.mm)
						p.in.Close()
						p = nil
					} else if rssMB(p.cmd.Process.Pid) > 900 {
						p.stop()
						p = nil
					}
					mu.Lock()
					total.add(&res.C)
					if perFam[j.fam.Name] == nil {
						perFam[j.fam.Name] = &Counts{}
					}
					perFam[j.fam.Name].add(&res.C)
					if res.Sample != "" && sampled[j.fam.Name] < 2 && len(samples) < 40 {
						sampled[j.fam.Name]++
						samples = append(samples, res.Sample)
					}
					done := viol != nil
					mu.Unlock()
					if res.Fail == nil {
						break
					}
					if done {
						return
					}
					w := &W{ID: id, known: loadKnown()}
					if kn := w.matchKnown(res.Fail); kn != "" {
						mu.Lock()
						if total.Known == nil {
							total.Known = map[string]int64{}
						}
						total.Known[kn]++
						mu.Unlock()
						j.lo = res.Fail.Idx + 1
						continue
					}
					if p != nil {
						p.stop()
						p = nil
					}
					fi, ok := r.confirm(j.fam, res.Fail, fmt.Sprintf("c%d.%d", k, gen))
					mu.Lock()
					if ok {
						if viol == nil {
							viol = fi
						}
						mu.Unlock()
						return
					}
					unrepro++
					unreproMsgs = append(unreproMsgs, res.Fail.Fam+" "+res.Fail.Case+": "+res.Fail.Msg)
					mu.Unlock()
					j.lo = res.Fail.Idx + 1
				}
			}
		}(k)
	}
	wg.Wait()
	rc := 0
	nviol := 0
	if viol != nil {
		rc = 1
		nviol = 1
		rp := writeReplay(id, tier, seed, viol)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		fmt.Printf("  family %s case %d: %s\n  at: %s\n  %s\n", viol.Fam, viol.Idx, viol.Case, viol.Sub, strings.ReplaceAll(firstLines(viol.Msg, 12), "\n", "\n  "))
	}
	var ks []string
	for k := range total.Known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d cases)\n", id, k, total.Known[k])
	}
	if unrepro > 0 {
		fmt.Printf("note: %d failures did not reproduce and are not reported\n", unrepro)
		for i, m := range unreproMsgs {
			if i < 3 {
				fmt.Println("   ", firstLines(m, 3))
			}
		}
	}
	writeEvidence(c, tier, seed, &total, perFam, samples, time.Since(start), nviol, !stopped && viol == nil, unrepro, r.nproc)
	if rc == 0 {
		fmt.Printf("ok property=%s tier=%s cases=%d executions=%d states=%d transitions=%d exhaustive=%v %.1fs\n", id, tier, total.Cases, total.Execs, total.States, total.Trans, !stopped, time.Since(start).Seconds())
		if os.Getenv("MC_STATS") != "" {
			for n, c := range perFam {
				fmt.Printf("   %-28s cases=%d execs=%d states=%d trans=%d %v\n", n, c.Cases, c.Execs, c.States, c.Trans, c.Outcomes)
			}
		}
	}
	return rc
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// confirm re-runs a failing case alone in fresh workers.
func (r *runner) confirm(f *Family, fi *FailInfo, tag string) (*FailInfo, bool) {
	for i := 0; i < 3; i++ {
		p := r.spawn(fmt.Sprintf("%s.%d", tag, i), f.Race)
		res, died := r.do(p, job{f, fi.Idx, fi.Idx + 1})
		if !died {
			p.stop()
		} else {
			syscall.Munmap(p.mm)
			p.in.Close()
		}
		if res.Fail != nil {
			return res.Fail, true
		}
	}
	return nil, false
}

// rssMB: resident memory of a worker (stores whose process "stopped" are never freed).
func rssMB(pid int) int {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * os.Getpagesize() >> 20
}

func writeReplay(id, tier string, seed int64, fi *FailInfo) string {
	d := filepath.Join(verifDir(), "replays")
	os.MkdirAll(d, 0755)
	p := filepath.Join(d, fmt.Sprintf("%s-%s-%d.json", id, strings.ReplaceAll(fi.Fam, "/", "_"), fi.Idx))
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "family": fi.Fam, "index": fi.Idx, "case": fi.Case,
		"sub": fi.Sub, "message": fi.Msg, "replay_cmd": "bash /verif/check.sh replay " + p,
	}, "", " ")
	os.WriteFile(p, b, 0644)
	return p
}

func replayMain(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var x struct {
		Property, Tier, Family string
		Seed                   int64
		Index                  int
	}
	json.Unmarshal(b, &x)
	c := checks[x.Property]
	r := &runner{c: c, tier: x.Tier, seed: x.Seed, dir: scratchRoot(), deadline: time.Now().Add(time.Hour), hang: 25 * time.Second}
	defer os.RemoveAll(r.dir)
	r.exe, _ = os.Executable()
	r.raceExe = r.exe + "-race"
	os.Setenv("MC_VERBOSE", "1")
	for _, f := range c.Families(x.Tier == "thorough") {
		if f.Name == x.Family {
			p := r.spawn("replay", f.Race)
			res, died := r.do(p, job{f, x.Index, x.Index + 1})
			if !died {
				p.stop()
			}
			os.Stdout.WriteString(headFile(p.errPath, 20000))
			if res.Fail != nil {
				fmt.Printf("VIOLATION property=%s replay=%s\n%s\n%s\n%s\n", x.Property, path, res.Fail.Case, res.Fail.Sub, res.Fail.Msg)
				return 1
			}
			fmt.Println("no violation")
			return 0
		}
	}
	fmt.Println("family not found")
	return 2
}

func writeEvidence(c *Check, tier string, seed int64, t *Counts, perFam map[string]*Counts, samples []string, wall time.Duration, viol int, exhaustive bool, unrepro int, nproc int32) {
	fams := map[string]interface{}{}
	for n, x := range perFam {
		m := map[string]interface{}{"cases": x.Cases, "executions": x.Execs, "states": x.States, "transitions": x.Trans}
		if len(x.Outcomes) > 0 {
			m["outcomes"] = x.Outcomes
		}
		fams[n] = m
	}
	if samples == nil {
		samples = []string{}
	}
	cov := map[string]interface{}{"cases": t.Cases, "rule": c.Rule, "samples": samples, "exhaustive": exhaustive, "families": fams, "unreproduced": unrepro}
	if levelOf(c.ID) == "fault_enumeration" {
		cov["evaluations"], cov["distinct_nontrivial"] = t.Execs, t.Nontrivial
		cov["transitions"] = t.Trans
	} else {
		cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = t.States, t.Trans, t.Traces
		if t.Execs != t.Traces {
			cov["executions"] = t.Execs
		}
	}
	if len(t.Known) > 0 {
		cov["known_findings"] = t.Known
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": levelOf(c.ID),
		"coverage":    cov,
		"assumptions": c.Assume, "wall_s": wall.Seconds(), "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	d := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(d, 0755)
	os.WriteFile(filepath.Join(d, c.ID+".json"), b, 0644)
}

func levelOf(id string) string {
	switch id {
	case "C03", "C04", "C12", "C19", "C23":
		return "fault_enumeration"
	}
	return "model_checking"
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc check ID quick|thorough | replay FILE | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		workerMain(os.Args[2:])
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			n := 0
			for _, f := range checks[id].Families(len(os.Args) > 2) {
				fmt.Printf("%s %s %d\n", id, f.Name, f.N)
				n += f.N
			}
			fmt.Println(id, n)
		}
	default:
		os.Exit(2)
	}
}
