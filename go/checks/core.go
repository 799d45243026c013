// Package checks has the property checks. Each check plans jobs (in the parent
// process, which has no sinksmtp code in it) and runs them (in a worker process
// that is built from sinksmtp's working tree, with the real main function
// running inside a testing/synctest bubble).
package checks

import (
	"crypto/x509"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"verif/ref"
	"verif/vrt"
)

// Job is one worker process's work.
type Job struct {
	Prop, Tier string
	Name       string
	Build      string // "", "sched" or "race"
	Shard, N   int
	Par        map[string]string
	Budget     int             // wall clock seconds after which to stop, incomplete
	Replay     json.RawMessage `json:",omitempty"`
	Dir, Out   string
}

// Violation is a failed execution.
type Violation struct {
	Msg   string
	Trace any
}

// Result is what a worker found.
type Result struct {
	Evals, Transitions, Traces int64
	Distinct                   []uint64 `json:",omitempty"` // hashes of distinct states
	Outcomes                   map[string]int64
	Samples                    []string
	Viol                       []Violation
	Known                      []string
	Complete                   bool
	Notes                      []string
	Max                        map[string]int64
	Done                       bool
}

// Check decides one property.
type Check struct {
	ID    string
	Level string
	Plan  func(tier string) []Job
	Run   func(w *W)
	// for evidence
	Rule        string
	Bounds      func(tier string) string
	Assumptions []string
}

// All has every check.
var All = map[string]*Check{}

func register(c *Check) { All[c.ID] = c }

// W is a worker.
type W struct {
	Job
	Res    Result
	T      *testing.T
	D      *ref.Daemon
	L      []*vrt.Listener
	main   func()
	seen   map[uint64]struct{}
	start  int64
	mapped []byte
	tick   atomic.Int64
	cur    atomic.Pointer[string]
	idx    int64
	Sched  *vrt.Scheduler
	Errs   []string // what was written to standard error, if KeepErrs
	Keep   bool

	emu     sync.Mutex
	lastErr string
}

func wall() int64 {
	var tv syscall.Timeval
	syscall.Gettimeofday(&tv)
	return tv.Sec*1e6 + int64(tv.Usec)
}

// Worker is the body of the worker process.
func Worker(t *testing.T, main func()) {
	jf := os.Getenv("VERIF_JOB")
	if jf == "" {
		t.Skip("no VERIF_JOB")
	}
	b, err := os.ReadFile(jf)
	if err != nil {
		t.Fatal(err)
	}
	w := &W{T: t, main: main, seen: map[uint64]struct{}{}, start: wall()}
	if err := json.Unmarshal(b, &w.Job); err != nil {
		t.Fatal(err)
	}
	w.Res.Outcomes = map[string]int64{}
	w.Res.Max = map[string]int64{}
	if err := os.Chdir(w.Dir); err != nil {
		t.Fatal(err)
	}
	debug.SetGCPercent(200)
	runtime.GOMAXPROCS(2)
	if w.Build == "sched" {
		runtime.GOMAXPROCS(1)
	}
	if w.Build == "race" {
		runtime.GOMAXPROCS(8)
	}
	// The current trace is kept in a mapped file, so that it survives a crash.
	if f, err := os.OpenFile(w.Out+".cur", os.O_RDWR|os.O_CREATE, 0600); err == nil {
		f.Truncate(8192)
		w.mapped, _ = syscall.Mmap(int(f.Fd()), 0, 8192, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		f.Close()
	}
	vrt.StdSink = func(name string, b []byte) {
		w.emu.Lock()
		defer w.emu.Unlock()
		w.lastErr = string(b)
		if w.Keep && len(w.Errs) < 10000 {
			w.Errs = append(w.Errs, string(b))
		}
	}
	vrt.OnExit = func(code int) {
		tr := ""
		if p := w.cur.Load(); p != nil {
			tr = *p
		}
		w.Fail(tr, "the program exited with status %d (%q) in: %s", code, w.lastErr, tr)
		w.finish(false)
		os.Exit(0)
	}
	go w.watchdog()
	c := All[w.Prop]
	synctest.Test(t, func(t *testing.T) {
		w.T = t
		vrt.RunReinits()
		c.Run(w)
		w.finish(true)
		os.Exit(0)
	})
}

// watchdog runs outside the bubble, in real time.
func (w *W) watchdog() {
	last, since := int64(-1), wall()
	for {
		time.Sleep(200 * time.Millisecond)
		n := w.tick.Load()
		if n != last {
			last, since = n, wall()
		}
		var ms runtime.MemStats
		var why string
		if wall()-since > 40e6 {
			why = "no progress for 40 seconds in: "
		} else if runtime.ReadMemStats(&ms); ms.HeapAlloc > 3<<30 {
			why = "memory use exploded in: "
		}
		if why != "" {
			tr := ""
			if p := w.cur.Load(); p != nil {
				tr = *p
			}
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			os.WriteFile(w.Out+".stack", buf, 0644)
			r := Result{Viol: []Violation{{Msg: why + tr, Trace: tr}}, Done: true, Notes: []string{"watchdog"}}
			b, _ := json.Marshal(r)
			os.WriteFile(w.Out, b, 0644)
			os.Exit(3)
		}
	}
}

func (w *W) finish(complete bool) {
	if complete && len(w.Res.Notes) == 0 {
		w.Res.Complete = true
	}
	w.Res.Done = true
	for h := range w.seen {
		w.Res.Distinct = append(w.Res.Distinct, h)
	}
	sort.Slice(w.Res.Distinct, func(i, j int) bool { return w.Res.Distinct[i] < w.Res.Distinct[j] })
	b, err := json.Marshal(w.Res)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(w.Out, b, 0644); err != nil {
		panic(err)
	}
}

// Fail records a violation. The job ends early after a few.
func (w *W) Fail(trace any, format string, a ...any) {
	w.Res.Viol = append(w.Res.Viol, Violation{fmt.Sprintf(format, a...), trace})
	if len(w.Res.Viol) >= 3 {
		w.finish(false)
		os.Exit(0)
	}
}

// Known records a known finding that was seen again.
func (w *W) Known(s string) {
	for _, k := range w.Res.Known {
		if k == s {
			return
		}
	}
	w.Res.Known = append(w.Res.Known, s)
}

// State counts a distinct state.
func (w *W) State(parts ...string) bool {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	k := h.Sum64()
	if _, ok := w.seen[k]; ok {
		return false
	}
	w.seen[k] = struct{}{}
	return true
}

// Outcome counts an outcome.
func (w *W) Outcome(s string) { w.Res.Outcomes[s]++ }

// Sample keeps a few samples.
func (w *W) Sample(format string, a ...any) {
	if len(w.Res.Samples) < 4 {
		w.Res.Samples = append(w.Res.Samples, fmt.Sprintf(format, a...))
	}
}

// Mine says whether the next element of the enumerated space is this shard's.
func (w *W) Mine() bool {
	w.idx++
	return w.N <= 1 || int((w.idx-1)%int64(w.N)) == w.Shard
}

// Over says whether the time budget is used up; the job is then incomplete.
func (w *W) Over() bool {
	if w.Budget > 0 && wall()-w.start > int64(w.Budget)*1e6 {
		if len(w.Res.Notes) == 0 {
			w.Res.Notes = append(w.Res.Notes, fmt.Sprintf("%s shard %d: stopped after %d s at element %d", w.Name, w.Shard, w.Budget, w.idx))
		}
		return true
	}
	return false
}

// Cur says what is being executed, for crash and hang reports.
func (w *W) Cur(s string) {
	w.tick.Add(1)
	w.cur.Store(&s)
	if w.mapped != nil {
		n := copy(w.mapped[:len(w.mapped)-1], s)
		w.mapped[n] = 0
	}
}

// Start runs the program's main with the given arguments.
func (w *W) Start(conf ref.Conf, args ...string) {
	a := []string{"sinksmtp"}
	b := func(on bool, s ...string) {
		if on {
			a = append(a, s...)
		}
	}
	b(conf.NoStd, "-nostdrules")
	b(conf.M, "-M")
	b(conf.FromReject != "", "-fromreject", conf.FromReject)
	b(conf.ToAccept != "", "-toaccept", conf.ToAccept)
	b(conf.HeloReject != "", "-heloreject", conf.HeloReject)
	b(conf.Dir != "", "-d", conf.Dir)
	b(conf.Dir == "", "-force-receive")
	b(conf.Hash != "", "-save-hash", conf.Hash)
	b(conf.DN > 0, "-dncount", fmt.Sprint(conf.DN))
	b(conf.DNDur > 0, "-dndur", conf.DNDur.String())
	b(conf.MinPhase != "", "-minphase", conf.MinPhase)
	b(conf.Log, "-l", "msg.log")
	b(conf.SMTPLog, "-smtplog", "smtp.log")
	b(conf.TLS, "-c", "cert0.pem", "-k", "key0.pem")
	b(conf.Name != "", "-helo", conf.Name)
	if conf.DN > 0 && conf.DNDur == 0 {
		conf.DNDur = 8 * time.Hour
	}
	hasAddr := false
	for _, x := range args {
		if strings.HasPrefix(x, "LISTEN ") {
			hasAddr = true
		} else {
			a = append(a, x)
		}
	}
	for _, x := range args {
		if strings.HasPrefix(x, "LISTEN ") {
			a = append(a, x[7:])
		}
	}
	if !hasAddr {
		a = append(a, "192.0.2.1:25")
	}
	if w.Par["showargs"] != "" {
		fmt.Fprintln(os.Stderr, a)
	}
	w.D = ref.NewDaemon(conf, nil, os.Getpid(), time.Now)
	w.Boot(a)
	w.L = listeners()
	if len(w.L) == 0 {
		w.Fail(a, "the program did not start listening with arguments %q", a)
		w.finish(false)
		os.Exit(0)
	}
}

// listeners are those for SMTP.
func listeners() (r []*vrt.Listener) {
	for _, l := range vrt.Listeners() {
		if l.Address != vrt.HTTPAddr {
			r = append(r, l)
		}
	}
	return
}

// Boot runs main with exactly these arguments until it is quiet.
func (w *W) Boot(args []string) {
	w.Cur(fmt.Sprintf("start %q", args))
	os.Args = args
	vrt.BootMode(true)
	flag.CommandLine = flag.NewFlagSet(args[0], flag.ExitOnError)
	go func() {
		defer vrt.Root(true)
		w.main()
		vrt.MainReturned = true
	}()
	synctest.Wait()
	vrt.BootMode(false)
	w.tick.Add(1)
}

// S is the client side of a session.
type S struct {
	C      *vrt.Conn
	w      *W
	n      int
	Closed bool
	Log    []string // what was sent and received, for reports
}

// Out is what the server did.
type Out struct {
	R      []vrt.Reply
	Closed bool
	Err    error
}

// Class of the last reply.
func (o Out) Class() int {
	if len(o.R) == 0 {
		return 0
	}
	return o.R[len(o.R)-1].Code / 100
}

func (o Out) String() string {
	var l []string
	for _, r := range o.R {
		l = append(l, r.String())
	}
	if o.Closed {
		l = append(l, "closed")
	}
	if o.Err != nil {
		l = append(l, o.Err.Error())
	}
	return strings.Join(l, " ")
}

func (s *S) collect(err error) Out {
	s.w.tick.Add(1)
	o := Out{R: s.C.Replies[s.n:], Closed: s.C.IsClosed(), Err: err}
	s.n = len(s.C.Replies)
	s.Closed = o.Closed
	return o
}

// Open connects and waits for the greeting.
func (w *W) Open(li int, raddr, laddr string) (*S, Out) {
	s := &S{C: vrt.NewConn(raddr, laddr), w: w}
	w.tick.Add(1)
	if err := w.L[li].Put(vrt.Accepted{C: s.C}); err != nil {
		return s, Out{Err: err}
	}
	_, err := s.C.WaitIdle()
	return s, s.collect(err)
}

// Do sends a command and waits for what comes back.
func (s *S) Do(c vrt.Cmd) Out {
	w := s.w
	w.Res.Transitions++
	if err := s.C.Put(c); err != nil {
		if err == vrt.ErrHang {
			return s.collect(err)
		}
		return s.collect(nil)
	}
	_, err := s.C.WaitIdle()
	return s.collect(err)
}

// End closes a session from the client's side if it is still open.
func (s *S) End() Out {
	if s.Closed {
		return Out{Closed: true}
	}
	return s.Do(vrt.Cmd{Verb: "ABORT"})
}

// writeFile writes a file in the worker's scratch directory.
func writeFile(name, data string) {
	if err := os.WriteFile(name, []byte(data), 0644); err != nil {
		panic(err)
	}
	// A program that goes by time stamps must not miss quick changes.
	t := time.Unix(1e9, 0)
	os.Chtimes(name, t, t)
}

func readFile(name string) string {
	b, err := os.ReadFile(name)
	if err != nil {
		return ""
	}
	return string(b)
}

// Step is a client command in a trace.
type Step struct {
	V, A string
}

func (s Step) String() string {
	if s.A == "" {
		return s.V
	}
	return s.V + " " + s.A
}

// Diff compares what the server did with what the model expects. It gives ""
// if they agree.
func Diff(e ref.Exp, o Out) string {
	if o.Err != nil {
		return o.Err.Error()
	}
	if e.Closed != o.Closed {
		return fmt.Sprintf("expected closed=%v, got %v", e.Closed, o)
	}
	if e.Class != o.Class() {
		return fmt.Sprintf("expected %v (%v %v), got %v", e, e.Phase, e.Act, o)
	}
	if e.STARTTLS != 0 {
		has := false
		for _, l := range o.R[len(o.R)-1].Lines {
			has = has || l == "STARTTLS"
		}
		if has != (e.STARTTLS > 0) {
			return fmt.Sprintf("expected TLS offered=%v, got %v", e.STARTTLS > 0, o)
		}
	}
	if e.ID != "" && (e.Class == 2 || e.Class == 5) && !strings.Contains(strings.Join(o.R[len(o.R)-1].Lines, "\n"), e.ID) {
		return fmt.Sprintf("expected the message's name %s in the reply, got %v", e.ID, o)
	}
	if e.Msg != "" {
		want := strings.Split(strings.TrimRight(e.Msg, "\n"), "\n")
		got := o.R[len(o.R)-1].Lines
		if len(got) < len(want) || strings.Join(got[:len(want)], "\n") != strings.Join(want, "\n") {
			return fmt.Sprintf("expected the message %q, got %v", e.Msg, o)
		}
	}
	return ""
}

// Trace is one executed session with the model beside it.
type Trace struct {
	w     *W
	S     *S
	M     *ref.Sess
	Steps []string
	Pre   string
	bad   bool

	knownOK bool // C11: a known finding may show
}

// Session opens a connection in both worlds.
func (w *W) Session(pre, raddr, laddr string, o ref.SessOpt) *Trace {
	w.Cur(pre)
	t := &Trace{w: w, Pre: pre}
	m := w.D.Connect(raddr, laddr, o)
	s, out := w.Open(0, raddr, laddr)
	t.S, t.M = s, m
	w.Res.Traces++
	t.Steps = append(t.Steps, "CONNECT "+raddr)
	if out.Err != nil {
		t.fail("connect: %v", out.Err)
	} else if m.Dropped != out.Closed {
		t.fail("expected dropped=%v on connect, got %v", m.Dropped, out)
	} else if !m.Dropped && out.Class() != 2 {
		t.fail("expected a greeting, got %v", out)
	}
	t.panics()
	return t
}

func (t *Trace) fail(format string, a ...any) {
	if t.bad {
		return
	}
	t.bad = true
	msg := fmt.Sprintf(format, a...)
	var steps []string
	for i, s := range t.Steps {
		if n := len(t.Steps) - i; i > 15 && n > 15 {
			if i == 16 {
				steps = append(steps, fmt.Sprintf("... (%d steps)", len(t.Steps)-31))
			}
			continue
		}
		steps = append(steps, short(s))
	}
	t.w.Fail(map[string]any{"setup": t.Pre, "steps": t.Steps}, "%s\n  after: %s\n  in: %s", msg, strings.Join(steps, " / "), t.Pre)
}

func (t *Trace) panics() {
	for _, p := range vrt.Panics() {
		t.fail("the server panicked: %s", p)
	}
}

// Bad says whether the trace has failed.
func (t *Trace) Bad() bool { return t.bad }

// Do makes a step in both worlds and compares.
func (t *Trace) Do(v, a string) (ref.Exp, Out) {
	return t.DoCmd(vrt.Cmd{Verb: v, Arg: a})
}

// DoCmd is Do for any command.
func (t *Trace) DoCmd(c vrt.Cmd) (ref.Exp, Out) {
	if t.bad || t.S.Closed {
		return ref.Exp{Closed: true}, Out{Closed: true}
	}
	t.Steps = append(t.Steps, Step{c.Verb, c.Arg}.String())
	var ti *ref.TLSInfo
	fail := false
	if c.TLS != nil {
		fail = c.TLS.Fail
		ti = &ref.TLSInfo{Version: c.TLS.Version, Cipher: c.TLS.Cipher, SNI: c.TLS.ServerName}
		if pc, ok := c.TLS.PeerCert.(*x509.Certificate); ok && t.M.AskClient {
			ti.Verified = c.TLS.ChainVerify
			switch {
			case pc.Subject.CommonName != "":
				ti.Peer = pc.Subject.CommonName
			case len(pc.DNSNames) > 0:
				ti.Peer = pc.DNSNames[0]
			default:
				ti.Peer = "<no CN or DNS Names>"
			}
		}
	} else if c.Verb == "STARTTLS" {
		ti = &ref.TLSInfo{Version: 0x303, Cipher: 0x2f}
	}
	e := t.M.Do(c.Verb, c.Arg, ti, fail, c.Verb == "BODY" && t.M.Savedir == "nosuch")
	o := t.S.Do(c)
	if d := Diff(e, o); d != "" {
		t.fail("%s", d)
	}
	t.panics()
	return e, o
}

// Close ends the session.
func (t *Trace) Close() {
	if !t.M.Closed() {
		t.M.Do("ABORT", "", nil, false, false)
	}
	if !t.S.Closed {
		t.S.End()
	}
	t.panics()
}

// Rules writes the rules file that was given with -r.
func (w *W) Rules(text string) { writeFile("rules", text) }

// shards makes n shards of a job.
func shards(n int, j Job) []Job {
	var l []Job
	for i := 0; i < n; i++ {
		k := j
		k.Shard, k.N = i, n
		l = append(l, k)
	}
	return l
}

func pick[T any](tier string, quick, thorough T) T {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

func abs(p string) string { a, _ := filepath.Abs(p); return a }

// seqs enumerates every sequence of exactly depth commands and gives this
// shard's to f; since every prefix of a sequence is checked while it runs, this
// covers all shorter ones too.
func (w *W) seqs(n, depth int, f func(ix []int)) {
	ix := make([]int, depth)
	var rec func(d int)
	rec = func(d int) {
		if w.Over() {
			return
		}
		if d == depth {
			if w.Mine() {
				f(ix)
			}
			return
		}
		for i := 0; i < n; i++ {
			ix[d] = i
			rec(d + 1)
		}
	}
	rec(0)
}

// words enumerates every string of up to n symbols.
func words(alpha []string, n int) []string {
	l := []string{""}
	prev := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, p := range prev {
			for _, a := range alpha {
				next = append(next, p+a)
			}
		}
		l = append(l, next...)
		prev = next
	}
	return l
}

func split(s string) []string { return strings.Split(s, "") }

// lists enumerates every list of up to n elements.
func lists[T any](alpha []T, n int, f func([]T)) {
	var rec func(p []T)
	rec = func(p []T) {
		f(p)
		if len(p) == n {
			return
		}
		for _, a := range alpha {
			rec(append(p[:len(p):len(p)], a))
		}
	}
	rec(nil)
}

const (
	client = "198.51.100.7:4000"
	local  = "192.0.2.1:25"
)
