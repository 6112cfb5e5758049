package main

// C22: every word of kanils commands up to a depth on stores of several kinds; after each
// command its output and the whole store (opened through the library, on a copy) are
// compared with a map.  Every command is also killed after each of its device events.

import (
	"fmt"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/storage"
)

type cop struct {
	k  byte // p put value, f put file, m put missing file, g get, d delete, D dump, J journal, G journalgc, h header, H header replay, r resize, C create
	id uint64
	n  int
}

func (o cop) String() string {
	switch o.k {
	case 'p':
		return fmt.Sprintf("Put(%x, value of %d bytes)", o.id, o.n)
	case 'f':
		return fmt.Sprintf("Put(%x, @file of %d bytes)", o.id, o.n)
	case 'm':
		return fmt.Sprintf("Put(%x, @missing)", o.id)
	case 'g':
		return fmt.Sprintf("Get(%x)", o.id)
	case 'd':
		return fmt.Sprintf("Delete(%x)", o.id)
	case 'D':
		return "Dump"
	case 'J':
		return "Journal"
	case 'G':
		return "JournalGC"
	case 'h':
		return "Header"
	case 'H':
		return "Header --replay"
	case 'r':
		return fmt.Sprintf("Resize(%+d bytes)", o.n)
	case 'C':
		return "Create(existing)"
	}
	return "?"
}

func copsString(l []cop) string {
	s := make([]string, len(l))
	for i, o := range l {
		s[i] = o.String()
	}
	return strings.Join(s, "; ")
}

type cliRun struct {
	w    *W
	path string
	cfg  *Cfg // current geometry
	m    *Model
	seq  int
	hist []cop
	rec  *recorder
	snap []byte // frozen image, if a snapshot was made
}

func (c *cliRun) fail(f string, a ...interface{}) {
	c.w.Failf("%s\n  journal ring %d, data %d blocks; after kanils %s", fmt.Sprintf(f, a...), c.cfg.Ring, c.cfg.Data, copsString(c.hist))
}

func (c *cliRun) run(args ...string) string {
	o := kanilsRun(c.w, c.rec, args...)
	if o.panic != "" {
		c.fail("kanils %v died: %s", args, o.panic)
	}
	return o.out
}

// format of the outputs, learned from the tool itself on a known store
var getPre, getPost, dumpSep, dumpEnd, dumpEmpty string
var cliLearned bool

func learnFormats(w *W) {
	if cliLearned {
		return
	}
	p := filepath.Join(w.Dir, "learn.lusf")
	rawRemove(p)
	c := &cliRun{w: w, path: p, cfg: &Cfg{}, m: newModel()}
	c.run("Create", "--storage", p, "--capacity", "65536")
	defer rawRemove(p)
	dumpEmpty = c.run("Dump", "--storage", p)
	c.run("Put", "--storage", p, "--key", "5", "--value", "QqQ")
	cut := func(out, what string) (string, string) {
		i := strings.Index(out, "QqQ")
		if i < 0 {
			c.fail("%s does not print the stored value: %q", what, out)
		}
		return out[:i], out[i+3:]
	}
	getPre, getPost = cut(c.run("Get", "--storage", p, "--key", "5"), "Get")
	pre, end := cut(c.run("Dump", "--storage", p), "Dump")
	if !strings.HasPrefix(pre, dumpEmpty) {
		dumpEmpty = ""
	}
	pre = pre[len(dumpEmpty):]
	id := lid(5).String()
	if !strings.HasPrefix(pre, id) {
		c.fail("Dump does not list lump %s: %q", id, pre)
	}
	dumpSep, dumpEnd = pre[len(id):], end
	cliLearned = true
}

// text: printable content, unique per call
func (c *cliRun) text(n int) []byte {
	c.seq++
	b := make([]byte, n)
	fill(b, c.seq, 77)
	for i := range b {
		b[i] = '!' + b[i]%90
	}
	if n > 0 {
		b[0] = 'a' + byte(c.seq%26) // no leading @ or -
	}
	return b
}

// geometry as the store itself reports it
func geometry(w *W, path string) (ring, data int) {
	st, err := storage.OpenCannylsStorage(path)
	if err != nil {
		w.Failf("a store made by kanils Create does not open: %v", err)
	}
	h := st.Header()
	st.Close()
	return int(h.JournalRegionSize/sector) - 1, int(h.DataRegionSize / sector)
}

func newCliRun(w *W, capacity int) *cliRun {
	learnFormats(w)
	c := &cliRun{w: w, path: filepath.Join(w.Dir, "k.lusf"), cfg: &Cfg{Name: fmt.Sprintf("cap%d", capacity)}, m: newModel()}
	cleanLusf(w.Dir)
	key := "cli" + strconv.Itoa(capacity)
	if img := cliTmpl[key]; img == nil {
		c.run("Create", "--storage", c.path, "--capacity", strconv.Itoa(capacity))
		c.cfg.Ring, c.cfg.Data = geometry(w, c.path)
		cliTmpl[key] = rawRead(c.path)
		cliGeo[key] = [2]int{c.cfg.Ring, c.cfg.Data}
	} else {
		rawWriteFile(c.path, img)
		c.cfg.Ring, c.cfg.Data = cliGeo[key][0], cliGeo[key][1]
	}
	return c
}

var cliTmpl = map[string][]byte{}
var cliGeo = map[string][2]int{}

// onCopy opens a copy of img as a store with model m.
func (c *cliRun) onCopy(img []byte, m *Model, data int, where string) *SUT {
	cfg := *c.cfg
	cfg.Data = data
	s := &SUT{w: c.w, cfg: &cfg, path: filepath.Join(c.w.Dir, "r.lusf"), m: m, lax: true, seq: 1 << 20, where: where + "; after kanils " + copsString(c.hist)}
	for _, p := range cliSnapFiles(c.w.Dir) {
		rawRemove(p)
	}
	rawWriteFile(s.path, img)
	s.open()
	return s
}

func cliSnapFiles(dir string) []string {
	l, _ := filepath.Glob(filepath.Join(dir, "*.snapshot"))
	var r []string
	for _, p := range l {
		if strings.HasPrefix(filepath.Base(p), "r") {
			r = append(r, p)
		}
	}
	return r
}

var cliSeen = map[uint64]bool{}

// verify: the store on disk holds exactly the model.
func (c *cliRun) verify(where string) {
	img := rawRead(c.path)
	h := fastHash(img) ^ uint64(c.cfg.Data)
	for _, k := range c.m.keys() {
		h = h*31 + k ^ c.m.m[k].hash()
	}
	c.w.C.Execs++
	if cliSeen[h] {
		return
	}
	c.w.C.Nontrivial++
	s := c.onCopy(img, c.m, c.cfg.Data, where)
	s.verify()
	s.close()
	if len(cliSeen) > 1<<20 {
		cliSeen = map[uint64]bool{}
	}
	cliSeen[h] = true
}

// useAll: after deleting everything a lump filling the whole data region fits.
func (c *cliRun) useAll(where string) {
	s := c.onCopy(rawRead(c.path), c.m.clone(), c.cfg.Data, where)
	defer s.close()
	for _, k := range s.m.keys() {
		s.apply(Op{K: 'D', ID: k})
		if s.lastErr != nil {
			return
		}
	}
	n := c.cfg.Data*sector - 2
	if n > lump.LUMP_MAX_SIZE {
		n = lump.LUMP_MAX_SIZE
	}
	s.st.JournalGC()
	s.apply(Op{K: 'P', ID: 1, A: n})
	s.verify()
	s.reopen()
	s.verify()
}

func (c *cliRun) do(o cop) {
	c.hist = append(c.hist, o)
	c.w.Beat(o.String())
	key := strconv.FormatUint(o.id, 10)
	st := []string{"--storage", c.path}
	with := func(cmd string, a ...string) string { return c.run(append(append([]string{cmd}, st...), a...)...) }
	before := c.m.content()
	switch o.k {
	case 'p', 'f':
		b := c.text(o.n)
		arg := string(b)
		embed := true
		if o.k == 'f' {
			fill(b, c.seq, 3)
			embed = false
			arg = filepath.Join(c.w.Dir, "in.bin")
			rawWriteFile(arg, b)
			arg = "@" + arg
		}
		v := &lumpVal{b: b, embed: embed}
		// must it succeed?
		must, can := true, true
		if embed && o.n > lump.MAX_EMBEDDED_SIZE || !embed && o.n > lump.LUMP_MAX_SIZE {
			can = false
		} else if !embed && c.maxRun(o.id) < v.blocks() {
			can = false
		} else if c.m.liveBytes()+recEmbedHdr+o.n > c.cfg.Ring*sector/8 {
			must = false
		}
		if !embed && must && can && c.maxRunAll() < v.blocks() {
			must = false // the old value has to be given up first: either is allowed
		}
		must = must && can
		out := with("Put", "--key", key, "--value", arg)
		nm := c.m.clone()
		nm.m[o.id] = v
		got := c.content("after " + o.String())
		switch {
		case can && contentEqual(got, nm.content()):
			c.m = nm
			c.w.Outcome("put")
		case contentEqual(got, before) && !must:
			if out == "" {
				c.fail("%s stored nothing and said nothing", o)
			}
			c.w.Outcome("put-refused")
		case contentEqual(got, before):
			c.fail("%s stored nothing although there is room: %q", o, out)
		default:
			c.fail("%s left %v; before %v", o, got, before)
		}
	case 'm':
		with("Put", "--key", key, "--value", "@"+filepath.Join(c.w.Dir, "missing"))
	case 'g':
		out := with("Get", "--key", key)
		if v, ok := c.m.m[o.id]; ok {
			if out != getPre+string(v.b)+getPost {
				c.fail("Get(%x) prints %d bytes %.60q, stored are %d bytes %.60q", o.id, len(out), out, len(v.b), v.b)
			}
		} else if getPre != "" && strings.HasPrefix(out, getPre) {
			c.fail("Get of the absent lump %x prints %.60q", o.id, out)
		}
	case 'd':
		with("Delete", "--key", key)
		got := c.content("after " + o.String())
		nm := c.m.clone()
		delete(nm.m, o.id)
		if contentEqual(got, nm.content()) {
			c.m = nm
		} else if c.cfg.Ring >= 8 || !contentEqual(got, before) {
			c.fail("%s left %v; before %v", o, got, before)
		}
	case 'D':
		out := with("Dump")
		want := dumpEmpty
		for _, k := range c.m.keys() {
			want += lid(k).String() + dumpSep + string(c.m.m[k].b) + dumpEnd
		}
		if out != want {
			c.fail("Dump prints %d bytes %.200q, want %d bytes %.200q", len(out), out, len(want), want)
		}
	case 'J':
		out := with("Journal")
		toks := map[string]bool{}
		for _, t := range strings.FieldsFunc(out, func(r rune) bool {
			return !(r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z')
		}) {
			toks[t] = true
		}
		for _, k := range c.m.keys() {
			if !toks[lid(k).String()] {
				c.fail("Journal does not list lump %x: %.300q", k, out)
			}
		}
	case 'G':
		with("JournalGC")
	case 'h', 'H':
		a := []string{}
		if o.k == 'H' {
			a = []string{"--replay"}
		}
		out := with("Header", a...)
		for _, n := range []int{c.cfg.Data * sector, (c.cfg.Ring + 1) * sector} {
			if !strings.Contains(out, strconv.Itoa(n)) {
				c.fail("Header does not show the region size %d: %q", n, out)
			}
		}
	case 'r':
		size := c.cfg.Data*sector + o.n
		if size < 0 {
			size = 0
		}
		with("Resize", "--size", strconv.Itoa(size))
		_, data := geometry(c.w, c.path)
		want := c.cfg.Data
		if n := size / sector; n > want {
			want = n
		}
		if data != want {
			c.fail("%s: the data region has %d blocks afterwards, want %d", o, data, want)
		}
		c.cfg.Data = data
		c.useAll("after " + o.String())
	case 'C':
		with("Create", "--capacity", "40960")
	}
	c.verify("after " + o.String())
}

// content reads the store through the library, on a copy.
func (c *cliRun) content(where string) content {
	img := rawRead(c.path)
	s := c.onCopy(img, newModel(), c.cfg.Data, where)
	defer s.close()
	got := content{}
	for _, l := range s.st.List() {
		b, err := s.st.Get(l)
		if err != nil {
			c.fail("%s: Get(%s) fails: %v", where, l, err)
		}
		_, perr := s.st.GetRecord(l)
		got[l.U64()] = (&lumpVal{b: b, embed: perr != nil}).hash()
	}
	return got
}

func (c *cliRun) used(skip uint64, have bool) []bool {
	s := c.onCopy(rawRead(c.path), c.m, c.cfg.Data, "")
	defer s.close()
	return s.usedBlocks(skip, have)
}
func (c *cliRun) maxRun(id uint64) int { return maxRun(c.used(id, true)) }
func (c *cliRun) maxRunAll() int       { return maxRun(c.used(0, false)) }

func runCli(w *W, capacity int, ops []cop) {
	c := newCliRun(w, capacity)
	for _, o := range ops {
		c.do(o)
	}
}

// runCliKill: the last command is killed, or loses power, after each of its device events.
func runCliKill(w *W, capacity int, ops []cop, snapshot bool) {
	c := newCliRun(w, capacity)
	for _, o := range ops[:len(ops)-1] {
		c.do(o)
	}
	last := ops[len(ops)-1]
	before, beforeData := c.m.content(), c.cfg.Data
	start := rawRead(c.path)
	c.rec = newRecorder(c.path)
	evsAt := 0
	if last.k == 'r' {
		// do() opens the store itself: run the command alone
		c.hist = append(c.hist, last)
		size := c.cfg.Data*sector + last.n
		c.run("Resize", "--storage", c.path, "--size", strconv.Itoa(size))
		if n := size / sector; n > c.cfg.Data {
			c.cfg.Data = n
		}
	} else {
		c.do(last)
	}
	evs := c.rec.evs[evsAt:]
	after, afterData := c.m.content(), c.cfg.Data
	c.rec = nil
	d := &disk{durable: append([]byte(nil), start...)}
	var buf []byte
	for i := 0; i <= len(evs); i++ {
		if i > 0 {
			d.step(evs[i-1])
		}
		end := i == len(evs)
		n := len(d.pending)
		all := uint64(1)<<uint(n) - 1
		for _, m := range subsets(n, 6) {
			kill := n > 60 && m == 0 || m == all
			m := m
			buf = d.image(buf, func(j int) bool { return j > 63 || m>>uint(j)&1 == 1 })
			where := fmt.Sprintf("%s killed after device event %d of %d", last, i, len(evs))
			if !kill {
				where = fmt.Sprintf("power lost after device event %d of %d of %s keeping unsynced writes %0*b", i, len(evs), last, n, m)
			}
			c.crashed(buf, kill, end, last, before, after, beforeData, afterData, where)
		}
	}
}

var cliCrash = map[uint64]content{}

func (c *cliRun) crashed(img []byte, kill, end bool, last cop, before, after content, d0, d1 int, where string) {
	c.w.C.Execs++
	h := fastHash(img)
	got, ok := cliCrash[h]
	if !ok {
		c.w.C.Nontrivial++
		c.w.Beat(where)
		p := filepath.Join(c.w.Dir, "r.lusf")
		rawWriteFile(p, img)
		_, data := geometry(c.w, p)
		s := c.onCopy(img, newModel(), data, where)
		got = content{1 << 63: uint64(data)}
		for _, l := range s.st.List() {
			b, err := s.st.Get(l)
			if err != nil {
				got[l.U64()] = 0
				s.st.Delete(l)
				continue
			}
			_, perr := s.st.GetRecord(l)
			v := &lumpVal{b: b, embed: perr != nil}
			got[l.U64()] = v.hash()
			s.m.m[l.U64()] = v
		}
		s.verify()
		s.use()
		s.close()
		cliCrash[h] = got
	}
	data := int(got[1<<63])
	g := content{}
	for k, v := range got {
		if k != 1<<63 {
			g[k] = v
		}
	}
	if data != d1 && (end || data != d0) {
		c.fail("%s: the data region has %d blocks (%d before, %d after the command)", where, data, d0, d1)
	}
	if contentEqual(g, after) || !end && contentEqual(g, before) {
		return
	}
	if !kill && !end {
		// unsynced effects may be lost in part, but only on the lump concerned
		a, b := content{}, content{}
		for k, v := range g {
			if k != last.id {
				a[k] = v
			}
		}
		for k, v := range before {
			if k != last.id {
				b[k] = v
			}
		}
		if contentEqual(a, b) {
			return
		}
	}
	c.fail("%s: the store contains %v; before the command %v, after it %v", where, g, before, after)
}

// runCliSnap: Resize of a store with a snapshot keeps the frozen image.
func runCliSnap(w *W, capacity int, ops []cop, grow int) {
	c := newCliRun(w, capacity)
	for _, o := range ops {
		c.do(o)
	}
	st, err := storage.OpenCannylsStorage(c.path)
	if err != nil {
		c.fail("open: %v", err)
	}
	st.Sync()
	if err := st.CreateSnapshot(); err != nil {
		c.fail("CreateSnapshot: %v", err)
	}
	want := rawRead(c.path)
	st.Close()
	c.run("Resize", "--storage", c.path, "--size", strconv.Itoa(c.cfg.Data*sector+grow))
	st, err = storage.OpenCannylsStorage(c.path)
	if err != nil {
		c.fail("open after Resize with a snapshot: %v", err)
	}
	if got := int(st.Header().DataRegionSize / sector); got != c.cfg.Data+grow/sector {
		c.fail("data region of %d blocks after Resize with a snapshot, want %d", got, c.cfg.Data+grow/sector)
	}
	r, err := st.GetSnapshotReader()
	if err != nil {
		c.fail("GetSnapshotReader after Resize: %v", err)
	}
	got := readAllSnap(r)
	st.Close()
	if len(got) < len(want) || string(got[:len(want)]) != string(want) {
		c.fail("the snapshot read after Resize differs from the file at its creation (%d bytes, want %d, equal prefix %d)", len(got), len(want), commonPrefix(got, want))
	}
	w.C.Execs++
	cleanLusf(w.Dir)
}

func readAllSnap(r interface{ Read([]byte) (int, error) }) []byte {
	var out []byte
	buf := make([]byte, 64<<10)
	for {
		n, err := r.Read(buf)
		out = append(out, buf[:n]...)
		if err != nil || n == 0 {
			return out
		}
	}
}

func runCliCreate(w *W, capacity int) {
	learnFormats(w)
	cleanLusf(w.Dir)
	p := filepath.Join(w.Dir, "k.lusf")
	c := &cliRun{w: w, path: p, cfg: &Cfg{}, m: newModel()}
	out := c.run("Create", "--storage", p, "--capacity", strconv.Itoa(capacity))
	w.C.Execs++
	if !exists(p) {
		if capacity >= 20*sector {
			w.Failf("Create of %d bytes made no store: %q", capacity, out)
		}
		w.Outcome("create-refused")
		return
	}
	c.cfg.Ring, c.cfg.Data = geometry(w, p)
	total := (c.cfg.Ring + 1 + c.cfg.Data + 1) * sector
	if total > (capacity+sector-1)/sector*sector {
		w.Failf("Create of %d bytes made a store of %d bytes", capacity, total)
	}
	w.Outcome("created")
	for _, o := range []cop{{'p', 1, 3}, {'f', 2, 3}, {'g', 1, 0}, {'D', 0, 0}, {'r', 0, 512}, {'d', 1, 0}, {'D', 0, 0}} {
		c.do(o)
	}
}

func runCliBench(w *W, cmd string, count, size int, always, sync bool) {
	learnFormats(w)
	cleanLusf(w.Dir)
	p := filepath.Join(w.Dir, "k.lusf")
	c := &cliRun{w: w, path: p, cfg: &Cfg{}, m: newModel()}
	c.run(cmd, "--storage", p, "--count", strconv.Itoa(count), "--size", strconv.Itoa(size), "--always="+strconv.FormatBool(always), "--sync="+strconv.FormatBool(sync))
	w.C.Execs++
	if !exists(p) {
		w.Outcome("bench-refused")
		return
	}
	st, err := storage.OpenCannylsStorage(p)
	if err != nil {
		w.Failf("%s count %d size %d: the store does not open: %v", cmd, count, size, err)
	}
	defer st.Close()
	ids := st.List()
	for _, l := range ids {
		b, err := st.Get(l)
		if err != nil || len(b) != size || l.U64() >= uint64(count) || strings.Trim(string(b), "A") != "" {
			w.Failf("%s count %d size %d: lump %s reads %d bytes %.20q, %v", cmd, count, size, l, len(b), b, err)
		}
	}
	w.Outcome(cmd)
}

func cliWords(alpha []cop, d int) [][]cop {
	var r [][]cop
	for n := 1; n <= d; n++ {
		for i := 0; i < pow(len(alpha), n); i++ {
			o := make([]cop, n)
			x := i
			for j := n - 1; j >= 0; j-- {
				o[j] = alpha[x%len(alpha)]
				x /= len(alpha)
			}
			r = append(r, o)
		}
	}
	return r
}

func cliFam(name string, words [][]cop, run func(w *W, ops []cop)) *Family {
	return &Family{Name: name, N: len(words), Desc: func(i int) string { return copsString(words[i]) },
		Run: func(w *W, i int) { run(w, words[i]) }}
}

const bigID = 1<<64 - 1

func famC22(th bool) []*Family {
	ext := 0
	if th {
		ext = 1
	}
	full := []cop{
		{'p', 1, 0}, {'p', 1, 5}, {'p', bigID, 200}, {'f', 1, 0}, {'f', 1, 1}, {'f', 2, 511}, {'f', bigID, 1022},
		{'m', 1, 0}, {'g', 1, 0}, {'g', bigID, 0}, {'d', 1, 0}, {'d', 2, 0}, {'D', 0, 0}, {'J', 0, 0}, {'G', 0, 0}, {'h', 0, 0}, {'H', 0, 0},
		{'r', 0, 512}, {'r', 0, 2000}, {'r', 0, 0}, {'r', 0, -512}, {'C', 0, 0},
	}
	var sizes [][]cop
	for _, n := range []int{0, 1, 2, 509, 510, 511, 512, 513, 1021, 1022, 1023, 1024, 4096, 32767, 32768, 65535, 65536, 100000} {
		for _, k := range []byte{'p', 'f'} {
			for _, id := range []uint64{0, 1, 1 << 32, bigID} {
				sizes = append(sizes, []cop{{k, id, n}, {'g', id, 0}, {'p', id ^ 1, 3}, {'g', id, 0}, {'D', 0, 0}, {'J', 0, 0}, {'k', 0, 0}, {'d', id, 0}, {'g', id, 0}, {'g', id ^ 1, 0}, {'D', 0, 0}})
			}
		}
	}
	for i := range sizes {
		l := sizes[i][:0]
		for _, o := range sizes[i] {
			if o.k != 'k' {
				l = append(l, o)
			}
		}
		sizes[i] = l
	}
	mut := []cop{{'p', 1, 5}, {'p', 2, 200}, {'f', 1, 1}, {'f', 2, 511}, {'d', 1, 0}, {'G', 0, 0}, {'r', 0, 1024}}
	small := []cop{{'f', 1, 1}, {'f', 2, 1022}, {'f', 3, 511}, {'p', 1, 20}, {'d', 1, 0}, {'d', 2, 0}, {'r', 0, 512}, {'G', 0, 0}, {'D', 0, 0}}
	fams := []*Family{
		cliFam("words/200k", cliWords(full, 3), func(w *W, ops []cop) { runCli(w, 200000, ops) }),
		cliFam("words/tight", cliWords(small, 4+ext), func(w *W, ops []cop) { runCli(w, 12*sector, ops) }),
		cliFam("words/full", cliWords(append([]cop{{'f', 4, 1500}}, small...), 4+ext), func(w *W, ops []cop) { runCli(w, 8*sector, ops) }),
		cliFam("words/200k-deep", cliWords([]cop{{'p', 1, 0}, {'f', 1, 0}, {'f', 1, 600}, {'d', 1, 0}, {'g', 1, 0}, {'D', 0, 0}, {'r', 0, 512}}, 5+ext), func(w *W, ops []cop) { runCli(w, 200000, ops) }),
		cliFam("sizes", sizes, func(w *W, ops []cop) { runCli(w, 2000000, ops) }),
		cliFam("kill/200k", cliWords(mut, 3+ext), func(w *W, ops []cop) { runCliKill(w, 200000, ops, false) }),
		cliFam("kill/tight", cliWords(small[:8], 3+ext), func(w *W, ops []cop) { runCliKill(w, 12*sector, ops, false) }),
		cliFam("resize-snapshot", cliWords(mut, 3), func(w *W, ops []cop) { runCliSnap(w, 60000, ops, 4096) }),
		{Name: "create", N: 260, Desc: func(i int) string { return fmt.Sprintf("capacity %d", cliCap(i)) }, Run: func(w *W, i int) { runCliCreate(w, cliCap(i)) }},
	}
	type bench struct {
		cmd         string
		count, size int
		a, s        bool
	}
	var bs []bench
	for _, cmd := range []string{"WBench", "WRBench"} {
		for _, count := range []int{0, 1, 2, 3, 50, 101, 250} {
			for _, size := range []int{0, 1, 511, 600, 5000} {
				for m := 0; m < 4; m++ {
					bs = append(bs, bench{cmd, count, size, m&1 == 1, m&2 == 2})
				}
			}
		}
	}
	fams = append(fams, &Family{Name: "bench", N: len(bs), Desc: func(i int) string { return fmt.Sprintf("%+v", bs[i]) },
		Run: func(w *W, i int) { runCliBench(w, bs[i].cmd, bs[i].count, bs[i].size, bs[i].a, bs[i].s) }})
	return append(fams, famTwo(th)...)
}

func cliCap(i int) int {
	if i < 60 {
		return i * 512
	}
	if i < 160 {
		return (i-60)*400 + 1
	}
	return 30000 + (i-160)*7001
}

func init() {
	register(&Check{ID: "C22", Families: famC22, Rule: "evaluations: kanils commands judged (output and full store content) and crash states of commands; distinct_nontrivial: distinct store images opened and compared",
		Assume: []string{"a kanils command is run as a function call of the compiled main package; its exit releases what it holds", "values are printable text without NUL; files are arbitrary bytes"}})
}
