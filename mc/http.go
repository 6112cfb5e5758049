package main

// C23: the upload server runs inside the harness.  Its port, clock, signals and process exit
// are replaced (build overlay), its device calls are parked one by one.  A controller waits
// until every goroutine is blocked and then either lets the oldest parked device call go
// ahead or delivers the next stimulus (a request, a timer tick, SIGINT): all interleavings
// of stimuli with device calls are explored, and after every device call the crash images
// are judged against what had been confirmed by then.

import (
	"bufio"
	"bytes"
	"fmt"
	"net"
	"net/http"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/thesues/cannyls-go/lump"
	"github.com/thesues/cannyls-go/storage"
	readup "github.com/thesues/cannyls-go/verif_readup"
)

// stimulus
type hstim struct {
	k  byte // p put, a auto put, g get, r random, u usage, b backup, s snapshot create, t 3s tick, T 100ms ticks until idle, i SIGINT, B bad request
	id uint64
	n  int
	s  string
}

func (o hstim) String() string {
	switch o.k {
	case 'p':
		return fmt.Sprintf("PUT(%s%x, %d bytes)", o.s, o.id, o.n)
	case 'a':
		return fmt.Sprintf("PUT(auto, %d bytes)", o.n)
	case 'g':
		return fmt.Sprintf("GET(%s%x)", o.s, o.id)
	case 'r':
		return "GET /random"
	case 'u':
		return "GET /usage"
	case 'b':
		return "POST /snapshot/backup"
	case 's':
		return "POST /snapshot/create"
	case 't':
		return "tick"
	case 'T':
		return "backup ticks"
	case 'i':
		return "SIGINT"
	case 'B':
		return "bad:" + o.s
	}
	return "?"
}

func stimString(l []hstim) string {
	s := make([]string, len(l))
	for i, o := range l {
		s[i] = o.String()
	}
	return strings.Join(s, "; ")
}

type hop struct {
	hstim
	val       []byte
	inv, resp int // order of events at the client
	ackEv     int // device events recorded when the answer arrived
	done      bool
	status    int
	body      []byte
	err       string
	gotID     uint64
	faulty    bool // device calls failed meanwhile
}

func (o *hop) isPut() bool { return o.k == 'p' || o.k == 'a' }
func (o *hop) ok() bool    { return o.done && o.err == "" && o.status == 200 }

type memListener struct {
	ch     chan net.Conn
	closed chan struct{}
}

func (l *memListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.closed:
		return nil, net.ErrClosed
	}
}
func (l *memListener) Close() error {
	select {
	case <-l.closed:
	default:
		close(l.closed)
	}
	return nil
}
func (l *memListener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 8081} }

type hcfg struct {
	cfg *Cfg
	pre []Op
}

type httpRun struct {
	w         *W
	hc        *hcfg
	path      string
	rec       *recorder
	ln        *memListener
	sigc      chan<- os.Signal
	timers    map[time.Duration]chan time.Time
	parked    []chan struct{}
	free      bool // device calls are not parked
	over      bool
	died      string
	exited    bool
	ops       []*hop
	clock     int
	init      map[uint64]*lumpVal
	seq       int
	where     string
	sched     string
	stims     []hstim
	roomy     bool
	reads     bool // device reads are scheduling points too
	started   bool
	power     bool
	flt       *faulter
	backupImg []byte
	inBackup  bool
	imgDue    bool
	tickers   map[chan time.Time]bool
	start     []byte
	sigint    bool
}

func (h *httpRun) fail(f string, a ...interface{}) {
	h.w.Failf("%s\n  store %s; stimuli: %s\n  schedule (%s): %s\n  answers: %s", fmt.Sprintf(f, a...), h.hc.cfg.Name, stimString(h.stims), "D: oldest waiting device call, E: second oldest, digit: stimulus", h.sched, h.answers())
}

func (h *httpRun) answers() string {
	var s []string
	for _, o := range h.ops {
		switch {
		case !o.done:
			s = append(s, o.String()+": none")
		case o.err != "":
			s = append(s, o.String()+": "+o.err)
		default:
			s = append(s, fmt.Sprintf("%s: %d %.60q (after %d device events)", o, o.status, o.body, o.ackEv))
		}
	}
	return strings.Join(s, "; ")
}

type preStore struct {
	img []byte
	m   map[uint64]*lumpVal
}

var httpPre = map[string]*preStore{}

func (hc *hcfg) image(w *W) *preStore {
	if p := httpPre[hc.cfg.Name]; p != nil {
		return p
	}
	s := newSUT(w, hc.cfg, template(w, hc.cfg))
	for _, o := range hc.pre {
		s.apply(o)
	}
	s.close()
	p := &preStore{rawRead(s.path), s.m.m}
	rawRemove(s.path)
	httpPre[hc.cfg.Name] = p
	return p
}

func newHTTPRun(w *W, hc *hcfg, stims []hstim) *httpRun {
	h := &httpRun{w: w, hc: hc, path: filepath.Join(w.Dir, "h.lusf"), timers: map[time.Duration]chan time.Time{}, tickers: map[chan time.Time]bool{}, stims: stims}
	p := hc.image(w)
	h.init = p.m
	h.start = p.img
	for _, g := range []string{"h*.lusf", "*_backup.lusf", "*.snapshot", ".h*"} {
		l, _ := filepath.Glob(filepath.Join(w.Dir, g))
		for _, f := range l {
			rawRemove(f)
		}
	}
	rawWriteFile(h.path, p.img)
	h.rec = newRecorder(h.path)
	h.ln = &memListener{make(chan net.Conn), make(chan struct{})}
	os.Chdir(w.Dir)
	return h
}

// park blocks a device call until the controller lets it go.
func (h *httpRun) park() {
	if h.free {
		return
	}
	c := make(chan struct{})
	h.parked = append(h.parked, c)
	<-c
}

func (h *httpRun) launch() {
	hooks := *h.rec.hooks
	pw, sy := hooks.Pwrite, hooks.Sync
	hooks.Pwrite = func(fd int, p []byte, off int64) (int, error, bool) {
		if _, ok := h.rec.fds[fd]; ok {
			h.park()
		}
		return pw(fd, p, off)
	}
	hooks.Sync = func(fd int) (error, bool) {
		if _, ok := h.rec.fds[fd]; ok {
			h.park()
		}
		return sy(fd)
	}
	op := hooks.Opened
	hooks.Opened = func(p string, mode int, fd int, err error) {
		if h.imgDue && mode&syscall.O_CREAT != 0 && p != h.path && !strings.HasSuffix(p, "_backup.lusf") {
			h.imgDue, h.backupImg = false, rawRead(h.path)
		}
		op(p, mode, fd, err)
	}
	if h.reads {
		pr := hooks.Pread
		hooks.Pread = func(fd int, p []byte, off int64) (int, error, bool) {
			if _, ok := h.rec.fds[fd]; ok && h.started {
				h.park()
			}
			return pr(fd, p, off)
		}
	}
	syscall.VerifIO = &hooks
	net.VerifListen = func(network, addr string) (net.Listener, error) { return h.ln, nil }
	signal.VerifNotify = func(c chan<- os.Signal, sig []os.Signal) bool { h.sigc = c; return true }
	time.VerifAfter = func(d time.Duration) <-chan time.Time {
		c := make(chan time.Time, 1)
		h.timers[h.slot(d)] = c
		if d < time.Second && !h.inBackup {
			h.inBackup, h.backupImg = true, rawRead(h.path)
		}
		return c
	}
	// the server may also use timers and tickers, made at any place before they are waited for
	own := map[<-chan time.Time]chan time.Time{}
	arm := func(c chan time.Time, d time.Duration) {
		h.disarm(c)
		h.timers[h.slot(d)] = c
		if d < time.Second && !h.inBackup {
			h.inBackup = true
			if h.hasSnap() {
				h.backupImg = rawRead(h.path)
			} else {
				h.imgDue = true // when the snapshot is created
			}
		}
	}
	time.VerifTimer = func(d time.Duration, ticker bool) <-chan time.Time {
		if !calledByServer() {
			return nil
		}
		c := make(chan time.Time, 1)
		own[c] = c
		h.tickers[c] = ticker
		arm(c, d)
		return c
	}
	// every look at the clock is a second after the one before, so that no two backups have one name
	now := time.Date(2026, 1, 2, 3, 4, 5, 0, time.UTC)
	time.VerifNow = func() (time.Time, bool) {
		if !calledByServer() {
			return time.Time{}, false
		}
		now = now.Add(time.Second)
		return now, true
	}
	time.VerifTimerStop = func(c <-chan time.Time) bool {
		x, ok := own[c]
		if ok {
			h.disarm(x)
		}
		return ok
	}
	time.VerifTimerReset = func(c <-chan time.Time, d time.Duration) bool {
		x, ok := own[c]
		if ok {
			arm(x, d)
		}
		return ok
	}
	os.VerifExit = func(int) { h.over = true; select {} }
	runtime.VerifOnPanic = func(v interface{}) {
		if h.died == "" {
			h.died = firstLines(fmt.Sprintf("%v\n%s", v, trimStack(string(debug.Stack()))), 40)
		}
		h.over = true
	}
	os.Args = []string{"readup", "--storage", h.path}
	go func() {
		readup.Main()
		h.exited = true
		h.over = true
	}()
	h.quiesce()
	h.started = true
}

func (h *httpRun) unhook() {
	syscall.VerifIO = nil
	net.VerifListen = nil
	signal.VerifNotify = nil
	time.VerifNow = nil
	time.VerifAfter, time.VerifTimer, time.VerifTimerStop, time.VerifTimerReset = nil, nil, nil, nil
	os.VerifExit = nil
	runtime.VerifOnPanic = nil
}

// quiesce waits until every goroutine is blocked.
func (h *httpRun) quiesce() {
	h.w.Beat(h.sched)
	for n := 0; ; n++ {
		runtime.Gosched()
		if runtime.VerifQuiet() {
			return
		}
		if n > 1000 {
			time.Sleep(10 * time.Microsecond)
		}
	}
}

func (h *httpRun) release(i int) {
	c := h.parked[i]
	h.parked = append(append([]chan struct{}{}, h.parked[:i]...), h.parked[i+1:]...)
	close(c)
	h.quiesce()
}

func (h *httpRun) now() int { h.clock++; return h.clock }

func (h *httpRun) value(n int) []byte {
	h.seq++
	b := make([]byte, n)
	fill(b, h.seq, 999)
	return b
}

func multipartBody(b []byte, field string) []byte {
	var x bytes.Buffer
	x.WriteString("--XBOUNDX\r\nContent-Disposition: form-data; name=\"" + field + "\"; filename=\"f\"\r\nContent-Type: application/octet-stream\r\n\r\n")
	x.Write(b)
	x.WriteString("\r\n--XBOUNDX--\r\n")
	return x.Bytes()
}

func (h *httpRun) deliver(st hstim) {
	switch st.k {
	case 't':
		for _, d := range h.due() {
			if d >= time.Second {
				h.fire(h.timers[d])
			}
		}
		h.quiesce()
		return
	case 'T':
		for i := 0; i < 200 && (st.n == 0 || i < st.n); i++ {
			fired := false
			for _, d := range h.due() {
				if c := h.timers[d]; d < time.Second && c != nil {
					h.fired(d, c)
					fired = true
					h.quiesce()
				}
			}
			h.quiesce()
			for len(h.parked) > 0 {
				h.release(0)
			}
			if !fired || !h.backupTimer() {
				h.backupDone()
				break
			}
		}
		return
	case 'i':
		h.sigint = true
		if h.sigc != nil {
			go func() { h.sigc <- syscall.SIGINT }()
		}
		h.quiesce()
		return
	}
	o := &hop{hstim: st}
	h.ops = append(h.ops, o)
	method, url := "GET", ""
	abort := false
	var body []byte
	ctype := "multipart/form-data; boundary=XBOUNDX"
	switch st.k {
	case 'p', 'a':
		method, url = "POST", "/put/"
		if st.k == 'p' {
			url += st.s + strconv.FormatUint(st.id, 10)
		}
		o.val = h.value(st.n)
		body = multipartBody(o.val, "file")
	case 'g':
		url = "/get/" + st.s + strconv.FormatUint(st.id, 10)
	case 'r':
		url = "/random"
	case 'u':
		url = "/usage"
	case 'b':
		method, url = "POST", "/snapshot/backup"
	case 's':
		method, url = "POST", "/snapshot/create"
	case 'B':
		switch st.s {
		case "put-hex", "put-under", "put-plus", "put-sub", "put-space", "put-dot":
			method, body = "POST", multipartBody(h.value(10), "file")
			url = "/put/" + map[string]string{"hex": "0x10", "under": "1_0", "plus": "+1", "sub": "1/2", "space": "%201", "dot": "1.0"}[st.s[4:]]
		case "get-hex", "get-under", "get-plus", "get-space", "get-dot":
			url = "/get/" + map[string]string{"hex": "0x1", "under": "0_1", "plus": "+1", "space": "1%20", "dot": "1.0"}[st.s[4:]]
		case "put-id":
			method, url, body = "POST", "/put/12x", multipartBody(h.value(10), "file")
		case "put-neg":
			method, url, body = "POST", "/put/-1", multipartBody(h.value(10), "file")
		case "put-over":
			method, url, body = "POST", "/put/18446744073709551616", multipartBody(h.value(10), "file")
		case "put-nofile":
			method, url, body = "POST", "/put/1", multipartBody(h.value(10), "other")
		case "put-nobody":
			method, url, ctype = "POST", "/put/1", "text/plain"
		case "put-cut":
			b := multipartBody(h.value(600), "file")
			method, url, body = "POST", "/put/1", b[:300]
		case "put-abort":
			method, url, body = "POST", "/put/1", multipartBody(h.value(600), "file")
			abort = true
		case "get-id":
			url = "/get/zz"
		case "get-over":
			url = "/get/18446744073709551616"
		case "snap-op":
			method, url = "POST", "/snapshot/xyz"
		case "root":
			url = "/nothing"
		}
	}
	o.inv = h.now()
	cl, sv := net.Pipe()
	go func() {
		defer func() {
			cl.Close()
			o.done = true
			o.resp = h.now()
			o.ackEv = len(h.rec.evs)
		}()
		select {
		case h.ln.ch <- sv:
		case <-h.ln.closed:
			o.err = "connection refused"
			return
		}
		go func() {
			fmt.Fprintf(cl, "%s %s HTTP/1.1\r\nHost: localhost:8081\r\nConnection: close\r\n", method, url)
			if method == "POST" {
				fmt.Fprintf(cl, "Content-Type: %s\r\nContent-Length: %d\r\n", ctype, len(body))
			}
			fmt.Fprintf(cl, "\r\n")
			if abort {
				cl.Write(body[:len(body)-100])
				cl.Close()
				return
			}
			cl.Write(body)
		}()
		resp, err := http.ReadResponse(bufio.NewReader(cl), &http.Request{Method: method})
		if err != nil {
			o.err = "no answer: " + err.Error()
			return
		}
		var b bytes.Buffer
		if _, err = b.ReadFrom(resp.Body); err != nil {
			o.err = "answer cut short: " + err.Error()
			return
		}
		o.status, o.body = resp.StatusCode, b.Bytes()
	}()
	h.quiesce()
}

func (h *httpRun) hasSnap() bool {
	l, _ := filepath.Glob(filepath.Join(h.w.Dir, "h*.snapshot"))
	return len(l) > 0
}

func (h *httpRun) disarm(c chan time.Time) {
	for d, x := range h.timers {
		if x == c {
			delete(h.timers, d)
		}
	}
	select {
	case <-c:
	default:
	}
}

// fired: a timer waits no longer, a ticker does.
func (h *httpRun) fired(d time.Duration, c chan time.Time) {
	if !h.tickers[c] {
		delete(h.timers, d)
	}
	h.fire(c)
}

func calledByServer() bool {
	var pcs [8]uintptr
	fr := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs[:])])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "github.com/thesues/cannyls-go/verif_readup") {
			return true
		}
		if !more || !strings.HasPrefix(f.Function, "time.") && !strings.HasPrefix(f.Function, "main.") {
			return false
		}
	}
}

// slot: several backups may wait at once (they are told apart by nanoseconds); a longer wait
// which is started again replaces the one before.
func (h *httpRun) slot(d time.Duration) time.Duration {
	for d < time.Second && h.timers[d] != nil {
		d++
	}
	return d
}

func (h *httpRun) due() []time.Duration {
	var l []time.Duration
	for d := range h.timers {
		l = append(l, d)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

func (h *httpRun) backupTimer() bool {
	for d := range h.timers {
		if d < time.Second {
			return true
		}
	}
	return false
}

// backupDone: no backup is running any more.
func (h *httpRun) backupDone() {
	if !h.inBackup {
		return
	}
	h.inBackup = false
	l, _ := filepath.Glob(filepath.Join(h.w.Dir, "*_backup.lusf"))
	if len(l) == 0 {
		h.fail("the backup left no file")
	}
	sort.Strings(l)
	got, want := rawRead(l[len(l)-1]), h.backupImg
	if len(got) < len(want) || !bytes.Equal(got[:len(want)], want) {
		h.fail("the backup (%d bytes) is not the image of the store when it began (%d bytes, equal prefix %d)", len(got), len(want), commonPrefix(got, want))
	}
	for _, p := range l {
		rawRemove(p)
	}
	if l, _ := filepath.Glob(filepath.Join(h.w.Dir, "h*.snapshot")); len(l) > 0 {
		h.fail("the backup is finished but its snapshot remains: %v", l)
	}
	h.load(got, "opening the backup", true)
	h.w.C.Execs++
	h.w.Outcome("backup")
}

func (h *httpRun) fire(c chan time.Time) {
	select {
	case c <- time.Now():
	default:
	}
}

func (h *httpRun) pending() int {
	n := 0
	for _, o := range h.ops {
		if !o.done {
			n++
		}
	}
	return n
}

var idRe = regexp.MustCompile(`[0-9]+`)

// reported: the id in the answer to an upload.
func (h *httpRun) parse(o *hop) {
	if !o.isPut() || !o.ok() {
		return
	}
	m := idRe.FindAllString(string(o.body), -1)
	if len(m) != 1 {
		h.fail("the answer to %s reports no id: %q", o, o.body)
	}
	v, err := strconv.ParseUint(m[0], 10, 64)
	if err != nil {
		h.fail("the answer to %s reports no id: %q", o, o.body)
	}
	o.gotID = v
	if o.k == 'p' && v != o.id {
		h.fail("the answer to %s reports id %x", o, v)
	}
}

// explore runs one schedule; choices beyond the given ones take the first enabled action.
// It returns the number of enabled actions at every point.
func (h *httpRun) explore(choices []int, seqMode bool) []int {
	h.launch()
	defer h.unhook()
	var widths []int
	next := 0
	for i := 0; ; i++ {
		// enabled: release (if parked), next stimulus (if any)
		if h.over {
			break
		}
		var acts []byte
		for j := range h.parked {
			acts = append(acts, 'D'+byte(j))
		}
		if next < len(h.stims) && !(seqMode && (h.pending() > 0 || len(h.parked) > 0)) {
			// a tick is only of interest when nothing is going on
			if k := h.stims[next].k; k != 't' && k != 'T' || len(h.parked) == 0 {
				acts = append(acts, 'S')
			}
		}
		if len(acts) == 0 {
			if h.pending() == 0 {
				break
			}
			if !h.late() {
				h.fail("%d requests never get an answer", h.pending())
			}
			continue
		}
		c := 0
		if i < len(choices) {
			c = choices[i]
		}
		if c >= len(acts) {
			c = 0
		}
		widths = append(widths, len(acts))
		if acts[c] != 'S' {
			h.sched += string(acts[c])
			h.release(int(acts[c] - 'D'))
		} else {
			h.sched += strconv.Itoa(next)
			next++
			h.deliver(h.stims[next-1])
		}
	}
	h.w.C.Trans += int64(len(widths))
	if h.died != "" {
		return widths
	}
	h.shutdown()
	return widths
}

// late: nothing can run although a request waits: give timers and the real clock a chance.
func (h *httpRun) late() bool {
	n, p := h.pending(), len(h.parked)
	for i := 0; i < 4; i++ {
		for _, d := range h.due() {
			if c := h.timers[d]; c != nil {
				h.fired(d, c)
			}
		}
		h.quiesce()
		time.Sleep(50 * time.Millisecond)
		h.quiesce()
		if h.pending() < n || len(h.parked) > p || h.over {
			return true
		}
	}
	return false
}

func (h *httpRun) shutdown() {
	for len(h.parked) > 0 {
		h.release(0)
	}
	if !h.over && !h.sigint {
		h.deliver(hstim{k: 'i'})
	}
	t0 := time.Now()
	for !h.over {
		if len(h.parked) > 0 {
			h.release(0)
			continue
		}
		runtime.Gosched()
		if time.Since(t0) > 100*time.Millisecond {
			time.Sleep(time.Millisecond)
		}
		if time.Since(t0) > 20*time.Second {
			h.fail("the server does not stop after SIGINT")
		}
	}
	h.quiesce()
}

func (h *httpRun) lateAnswer() {
	for _, o := range h.ops {
		if !o.done {
			h.fail("%s never gets an answer", o)
		}
	}
}

// ---- judging

type hstate map[uint64]uint64 // id -> hash

func (h *httpRun) initState() hstate {
	s := hstate{}
	for k, v := range h.init {
		s[k] = (&lumpVal{b: v.b}).hash()
	}
	return s
}

func valHash(b []byte) uint64 { return (&lumpVal{b: b}).hash() }

// linearize: is there an order of the answered operations, consistent with real time, that
// explains all answers and (if final is not nil) the final content?
func (h *httpRun) linearize(final hstate) bool {
	var ops []*hop
	for _, o := range h.ops {
		if o.err != "" || !o.done {
			if o.isPut() {
				ops = append(ops, o) // may or may not have happened
			}
			continue
		}
		switch o.k {
		case 'p', 'a', 'g', 'r':
			ops = append(ops, o)
		}
	}
	used := make([]bool, len(ops))
	var rec func(st hstate, n int) bool
	rec = func(st hstate, n int) bool {
		if n == len(ops) {
			if final == nil {
				return true
			}
			if len(final) != len(st) {
				return false
			}
			for k, v := range st {
				if final[k] != v {
					return false
				}
			}
			return true
		}
		for i, o := range ops {
			if used[i] {
				continue
			}
			blocked := false
			for j, q := range ops {
				if !used[j] && j != i && q.done && q.err == "" && q.resp < o.inv {
					blocked = true
				}
			}
			if blocked {
				continue
			}
			used[i] = true
			if h.applyOp(st, o, func(ns hstate) bool { return rec(ns, n+1) }) {
				return true
			}
			used[i] = false
		}
		return false
	}
	return rec(h.initState(), 0)
}

func (st hstate) with(id, v uint64) hstate {
	n := hstate{}
	for k, x := range st {
		n[k] = x
	}
	n[id] = v
	return n
}
func (st hstate) without(id uint64) hstate {
	n := hstate{}
	for k, x := range st {
		if k != id {
			n[k] = x
		}
	}
	return n
}

func (h *httpRun) applyOp(st hstate, o *hop, next func(hstate) bool) bool {
	switch o.k {
	case 'p', 'a':
		if !o.done || o.err != "" || o.status != 200 && o.faulty {
			if next(st) {
				return true
			}
			if o.k == 'p' {
				return next(st.with(o.id, valHash(o.val)))
			}
			return false // an unanswered automatic upload: see crash judging
		}
		if o.status != 200 {
			return next(st)
		}
		if _, have := st[o.gotID]; have && o.k == 'a' {
			return false
		}
		return next(st.with(o.gotID, valHash(o.val)))
	case 'g':
		v, have := st[o.id]
		if o.status == 200 {
			return have && v == valHash(o.body) && next(st)
		}
		return (!have || o.faulty) && next(st)
	case 'r':
		if o.faulty {
			// reported as failed, or the delete itself failed silently
			if next(st) {
				return true
			}
			if o.status != 200 {
				return false
			}
		}
		if o.status != 200 {
			return len(st) == 0 && next(st)
		}
		min, have := uint64(0), false
		for k := range st {
			if !have || k < min {
				min, have = k, true
			}
		}
		return have && st[min] == valHash(o.body) && next(st.without(min))
	}
	return next(st)
}

// surelyFits: the data region has never been allocated beyond what leaves a run for o at
// its end, even when no freed space was used again.
func (h *httpRun) surelyFits(o *hop) bool {
	if o.n > lump.LUMP_MAX_SIZE {
		return false
	}
	total := 0
	blocks := func(n int) { total += (n + 2 + sector - 1) / sector }
	for _, p := range h.hc.pre {
		blocks(p.A)
	}
	for _, p := range h.ops {
		if p.isPut() {
			blocks(p.n)
		}
	}
	return total <= h.hc.cfg.Data
}

// judgeAnswers: everything the client can see, and the final content after a clean stop.
func (h *httpRun) judge(roomy bool) {
	for _, o := range h.ops {
		h.parse(o)
		if o.err != "" && !(h.sigint && o.err == "connection refused") && o.s != "put-abort" && h.died == "" {
			h.fail("%s gets no answer: %s", o, o.err)
		}
		if o.k == 'B' && o.err == "" && o.status < 400 {
			h.fail("%s is accepted", o)
		}
		if o.k == 'u' && o.err == "" && o.status != 200 {
			h.fail("%s fails: %s", o, o.body)
		}
		if roomy && !h.flt.hit() && o.isPut() && o.err == "" && o.status != 200 && (o.n < 4000 || h.surelyFits(o)) {
			h.fail("%s fails although there is room: %d %s", o, o.status, o.body)
		}
		if o.isPut() && o.n > h.hc.cfg.Data*sector && o.ok() {
			h.fail("%s is confirmed although it cannot fit", o)
		}
		if h.flt.hit() {
			h.w.Outcome(fmt.Sprintf("fault %c:%d", o.k, o.status))
			continue
		}
		h.w.Outcome(fmt.Sprintf("%c:%d", o.k, o.status))
	}
	img := rawRead(h.path)
	got, _ := h.load(img, "after a clean stop", true)
	if !h.linearize(got) {
		h.fail("no order of the answered requests explains the answers and the final content %s; initially %s", got, h.initState())
	}
	h.w.C.Execs++
}

func (st hstate) String() string { return content(st).String() }

type hloaded struct {
	st   hstate
	errs string
}

var httpCache = map[uint64]hloaded{}

// load opens an image through the library and reads everything.
func (h *httpRun) load(img []byte, where string, strict bool) (hstate, string) {
	key := fastHash(img)
	if r, ok := httpCache[key]; ok && (r.errs == "" || !strict) {
		return r.st, r.errs
	}
	h.w.C.Nontrivial++
	old := syscall.VerifIO
	syscall.VerifIO = nil
	defer func() { syscall.VerifIO = old }()
	p := filepath.Join(h.w.Dir, "r.lusf")
	rawWriteFile(p, img)
	st, err := storage.OpenCannylsStorage(p)
	if err != nil {
		h.fail("%s: the store does not open: %v", where, err)
	}
	defer st.Close()
	r := hloaded{st: hstate{}}
	for _, l := range st.List() {
		b, err := st.Get(l)
		if err != nil {
			r.errs += fmt.Sprintf("Get(%s): %v; ", l, err)
			r.st[l.U64()] = 0
			continue
		}
		r.st[l.U64()] = valHash(b)
	}
	if r.errs != "" && strict {
		h.fail("%s: %s", where, r.errs)
	}
	// the store can still be used
	if _, err := st.Put(lid(0xabcdef), lumpData([]byte("xyz"))); err == nil {
		if b, err := st.Get(lid(0xabcdef)); err != nil || string(b) != "xyz" {
			h.fail("%s: a lump put afterwards reads %q, %v", where, b, err)
		}
	}
	httpCache[key] = r
	return r.st, r.errs
}

// judgeCrash: kill and power loss after every device event.
func (h *httpRun) judgeCrash(power bool) {
	d := &disk{durable: append([]byte(nil), h.start...)}
	var buf []byte
	evs := h.rec.evs
	for i := 0; i <= len(evs); i++ {
		if i > 0 {
			d.step(evs[i-1])
		}
		n := len(d.pending)
		all := uint64(1)<<uint(n) - 1
		if n > 60 {
			all = 1<<60 - 1
		}
		ms := []uint64{all}
		if power {
			ms = subsets(n, 5)
		}
		for _, m := range ms {
			m := m
			buf = d.image(buf, func(j int) bool { return j > 59 || m>>uint(j)&1 == 1 })
			kill := m == all
			where := fmt.Sprintf("process killed after device event %d of %d", i, len(evs))
			if !kill {
				where = fmt.Sprintf("power lost after device event %d of %d, keeping unsynced writes %0*b", i, len(evs), n, m)
			}
			h.w.C.Execs++
			h.w.Beat(h.sched + " " + where)
			got, errs := h.load(buf, where, kill)
			h.crashContent(got, errs, i, kill, where)
		}
	}
}

// crashContent: content found after a crash at device event ev.
func (h *httpRun) crashContent(got hstate, errs string, ev int, kill bool, where string) {
	init := h.initState()
	// what each id may hold
	ids := map[uint64]bool{}
	for k := range init {
		ids[k] = true
	}
	for k := range got {
		ids[k] = true
	}
	acked := func(o *hop) bool { return o.ok() && o.ackEv <= ev }
	for _, o := range h.ops {
		if o.isPut() && acked(o) {
			ids[o.gotID] = true
		}
	}
	sorted := []uint64{}
	for k := range ids {
		sorted = append(sorted, k)
	}
	sort.Slice(sorted, func(i, j int) bool { return sorted[i] < sorted[j] })
	for _, id := range sorted {
		g, have := got[id]
		// candidates: the initial value, and every upload or delete that may be in effect;
		// a candidate is ruled out when something confirmed came strictly after it
		var after []*hop // confirmed changes of this id
		for _, o := range h.ops {
			if o.isPut() && acked(o) && o.gotID == id {
				after = append(after, o)
			}
		}
		allowed := false
		unsure := false
		if iv, ok := init[id]; len(after) == 0 && (ok == have && (!ok || iv == g)) {
			allowed = true
		}
		for _, o := range h.ops {
			if o.isPut() && (o.k == 'a' && (!o.done || o.err != "" || o.faulty && !o.ok() || o.ok() && o.gotID == id) || o.k == 'p' && o.id == id) && !(o.done && o.err == "" && o.status != 200 && !o.faulty) {
				superseded := false
				for _, q := range after {
					if q != o && o.done && o.resp < q.inv {
						superseded = true
					}
				}
				_, was := init[id]
				if o.k == 'a' && was && !h.hasRandom() {
					continue
				}
				if have && g == valHash(o.val) && !superseded {
					allowed = true
				}
				if !acked(o) {
					unsure = true
				}
			}
			if o.k == 'r' {
				// deletes are not confirmed durable: both are possible
				if v, ok := init[id]; !have || ok && v == g && len(after) == 0 {
					superseded := false
					for _, q := range after {
						if o.done && o.resp < q.inv {
							superseded = true
						}
					}
					if !superseded {
						allowed = true
					}
				}
			}
		}
		if kill && unsure && !have && !h.roomy {
			allowed = true // without room for both, the old value is given up first
		}
		if !kill && unsure {
			allowed = true // overwriting is under way and not confirmed: power loss may leave anything
		}
		if !allowed {
			v := "is absent"
			if have {
				v = fmt.Sprintf("holds value %04x", g&0xffff)
				if g == 0 {
					v = "cannot be read (" + errs + ")"
				}
			}
			h.fail("%s: lump %x %s; confirmed uploads of it: %d; initially %s", where, id, v, len(after), init)
		}
	}
}

func (h *httpRun) hasRandom() bool {
	for _, o := range h.ops {
		if o.k == 'r' {
			return true
		}
	}
	return false
}

type hopt struct{ seq, power, tight, reads, nocrash bool }

// runHTTP explores all interleavings of the stimuli with device calls.
func runHTTP(w *W, hc *hcfg, stims []hstim, o hopt) {
	var choices []int
	for {
		h := newHTTPRun(w, hc, stims)
		h.roomy, h.reads = !o.tight, o.reads
		widths := h.explore(choices, o.seq)
		if h.died != "" {
			h.fail("the server died: %s", h.died)
		}
		h.lateAnswer()
		h.judge(!o.tight)
		if !o.nocrash {
			h.judgeCrash(o.power)
		}
		w.C.Traces++
		// next schedule
		c := make([]int, len(widths))
		copy(c, choices)
		i := len(c) - 1
		for i >= 0 && c[i]+1 >= widths[i] {
			i--
		}
		if i < 0 {
			return
		}
		c[i]++
		choices = c[:i+1]
	}
}

// runHTTPFault: the device calls made while the last stimulus but tail is handled fail
// according to plan; it returns the kinds of those calls.
func runHTTPFault(w *W, hc *hcfg, pre []hstim, x hstim, tail []hstim, p faultPlan) []string {
	all := append(append(append([]hstim{}, pre...), x), tail...)
	h := newHTTPRun(w, hc, all)
	h.roomy = true
	h.flt = &faulter{at: p.at, end: p.end, mode: p.mode, jend: -1}
	h.rec.flt = h.flt
	h.free = true
	h.launch()
	defer h.unhook()
	for _, s := range pre {
		h.deliver(s)
	}
	n0 := len(h.ops)
	h.flt.armed = true
	h.deliver(x)
	h.flt.armed = false
	h.sched = h.flt.what
	hit := h.flt.hits > 0
	if hit {
		for _, o := range h.ops[n0:] {
			o.faulty = true
		}
	}
	for _, s := range tail {
		if !h.over {
			h.deliver(s)
		}
	}
	if h.died == "" {
		if h.pending() > 0 && !h.late() {
			h.fail("%d requests never get an answer", h.pending())
		}
		h.shutdown()
	}
	w.C.Traces++
	if h.died != "" {
		if !hit {
			h.fail("the server died: %s", h.died)
		}
		w.Outcome("stopped")
		for fd := range h.rec.fds {
			syscall.Flock(fd, syscall.LOCK_UN)
		}
	} else {
		h.judge(true)
	}
	for _, o := range h.ops {
		h.parse(o)
	}
	h.unhook()
	h.judgeCrash(true)
	return h.flt.kinds
}

func runHTTPFaultAll(w *W, hc *hcfg, pre []hstim, x hstim, tail []hstim) {
	kinds := runHTTPFault(w, hc, pre, x, tail, faultPlan{-1, 0, 0})
	for _, p := range plansFor(kinds, Op{K: '-'}) {
		runHTTPFault(w, hc, pre, x, tail, p)
	}
}

var _ = lump.LUMP_MAX_SIZE
