package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"time"

	"verif/ref"
	"verif/vrt"
)

// C11: no acknowledgement without a complete and flushed file.

type c11Fault struct {
	At      int // which operation since the end of the message began
	Err     syscall.Errno
	Partial int // percent of a write that is done
}

func (f c11Fault) String() string {
	return fmt.Sprintf("operation %d fails with %v (%d%% written)", f.At, error(f.Err), f.Partial)
}

type c11Image struct {
	what  string
	files map[string]string // by base name
}

type c11 struct {
	w      *W
	mu     sync.Mutex // for sessions at the same time
	rs     []ref.Rule
	active bool
	n      int
	ops    []string
	first  []string // of the attempt with faults
	faults []c11Fault
	hit    []string // kinds of the operations that were made to fail
	dirty  map[string]bool
	img    func(what string) // called at every crash point, if set
	// at the time of the reply
	snap      map[string]string
	snapDirty map[string]bool
	dirs      []string
}

var c11Dirs = []string{"save", "save2", "image"}

func (x *c11) hook(op vrt.Op) vrt.Verdict {
	if !x.active {
		return vrt.Verdict{}
	}
	in := false
	for _, d := range c11Dirs {
		in = in || filepath.Base(filepath.Dir(op.Path)) == d
	}
	k := filepath.Base(op.Path)
	if !in && k != "msg.log" && k != "smtp.log" {
		return vrt.Verdict{}
	}
	x.n++
	x.ops = append(x.ops, op.Kind)
	if x.img != nil && in {
		x.img(fmt.Sprintf("before operation %d (%s)", x.n, op.Kind))
		if op.Kind == "write" {
			x.imgWrite(op)
		}
	}
	for _, f := range x.faults {
		if f.At == x.n {
			x.hit = append(x.hit, op.Kind)
			p := 0
			if op.Kind == "write" {
				p = op.N * f.Partial / 100
				if f.Partial == 99 {
					p = op.N - 1
				}
				if p > 0 {
					x.dirty[op.Path] = true
				}
			}
			return vrt.Verdict{Err: f.Err, Partial: p}
		}
	}
	return vrt.Verdict{}
}

// imgWrite takes images in the middle of a write. The data is not known yet, so
// the images get it from the finished file later.
func (x *c11) imgWrite(op vrt.Op) {
	for _, p := range []int{1, op.N / 2, op.N - 1} {
		if p > 0 && p < op.N {
			x.img(fmt.Sprintf("in operation %d (write), %d of %d bytes written:%s", x.n, p, op.N, filepath.Base(op.Path)))
		}
	}
}

func (x *c11) after(op vrt.Op, err error) {
	if err != nil {
		return
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	switch op.Kind {
	case "write", "truncate":
		x.dirty[op.Path] = true
	case "sync":
		delete(x.dirty, op.Path)
	case "rename", "link":
		if x.dirty[op.Path] {
			x.dirty[op.New] = true
		} else {
			delete(x.dirty, op.New)
		}
		if op.Kind == "rename" {
			delete(x.dirty, op.Path)
		}
	case "remove":
		delete(x.dirty, op.Path)
	}
}

// body sends the message and checks the reply against the disk.
func (x *c11) body(t *Trace, data string, faults []c11Fault) Out {
	w := x.w
	if t.bad || t.S.Closed {
		return Out{}
	}
	f := t.M.File(data)
	x.n, x.ops, x.faults, x.hit, x.active = 0, nil, faults, nil, true
	t.Steps = append(t.Steps, fmt.Sprintf("BODY (%d bytes) with faults %v", len(data), faults))
	x.snap = nil
	o := t.S.Do(vrt.Cmd{Verb: "BODY", Arg: data})
	x.active = false
	t.M.Do("BODY", data, nil, false, true)
	t.panics()
	if o.Err != nil || len(o.R) == 0 {
		t.fail("no reply: %v", o)
		return o
	}
	key := f.Dir + "/" + f.Name
	got, have := x.snap[key]
	complete := have && x.whole(f, got) && !x.snapDirty[key]
	r := o.R[len(o.R)-1]
	claims := r.Code/100 == 2 || r.Code/100 == 5 && strings.Contains(strings.Join(r.Lines, " "), f.Name)
	w.Outcome(fmt.Sprintf("%d faults, reply %dxx, saved %v", len(x.hit), r.Code/100, complete))
	prefix := have && (!x.whole(f, got) || x.snapDirty[key])
	if claims && !complete {
		switch {
		case t.knownOK && prefix:
			w.Known("a partial file that a crash left behind is taken for the saved message when the message is sent again and has the same name")
		default:
			t.fail("the client got %v but the file %s is there=%v unflushed=%v with %d of %d bytes; operations were %v", o, key, have, x.snapDirty[key], len(got), len(f.Content), x.ops)
		}
	}
	if r.Code/100 == 5 && !claims {
		t.fail("a save error gave a permanent error: %v; operations were %v", o, x.ops)
	}
	return o
}

// whole says whether a file is complete: exactly the expected one, or one from an
// earlier attempt that has the same name because it is the same message.
func (x *c11) whole(f ref.Saved, got string) bool {
	if got == f.Content {
		return true
	}
	_, rest, _ := strings.Cut(got, "\n")
	_, body, ok := strings.Cut(rest, "\nbody\n")
	switch x.w.Par["hash"] {
	case "full":
		return ok && ref.Sha(rest) == f.Name
	case "msg":
		return ok && ref.Sha(body) == f.Name
	}
	return false
}

func (x *c11) dirtyBase(k string) bool {
	for d := range x.dirty {
		if filepath.Base(filepath.Dir(d))+"/"+filepath.Base(d) == k {
			return true
		}
	}
	return false
}

// leftover checks that there is no partial file.
func (x *c11) leftover(t *Trace, data string, o Out) {
	f := t.M.File(data)
	for k, v := range dirFiles(c11Dirs...) {
		if filepath.Base(k) == f.Name && !x.whole(f, v) {
			// Only if the partial file could not be removed.
			rm := false
			for _, h := range x.hit {
				rm = rm || h == "remove" || h == "rename" || h == "link"
			}
			if rm && len(x.hit) > 1 {
				t.w.Known("a partial file remains, and is taken for the saved message later, when a write fails and then removing the file fails too")
				continue
			}
			t.fail("after %v the file %s has %d of %d bytes", o, k, len(v), len(f.Content))
		}
	}
}

func (x *c11) open(pre, from string) *Trace {
	t := x.w.Session(pre, client, local, ref.SessOpt{Rules: x.rs})
	t.Do("EHLO", "h.net")
	t.Do("MAIL", from)
	t.Do("RCPT", "p@z.net")
	return t
}

// again starts another transaction in the same or a new session.
func (x *c11) again(t *Trace, from string, new bool) *Trace {
	if new {
		t.Close()
		bad := t.bad
		k := t.knownOK
		t = x.open(t.Pre, from)
		t.bad, t.knownOK = bad, k
	} else {
		t.M.Do("RSET", "", nil, false, false)
		t.S.Do(vrt.Cmd{Verb: "RSET"})
		t.Steps = append(t.Steps, "RSET")
		t.Do("MAIL", from)
		t.Do("RCPT", "p@z.net")
	}
	t.Do("DATA", "")
	return t
}

func runC11(w *W) {
	x := &c11{w: w, dirty: map[string]bool{}, dirs: c11Dirs}
	text := "@from set-with from sd@x.net with savedir save2\n@from set-with from img@x.net with savedir image\n@from set-with from gone@x.net with savedir nosuchdir\n"
	switch w.Par["act"] {
	case "reject":
		text += "@message reject all\n"
	case "stall":
		text += "@message stall all\n"
	}
	w.Rules(text)
	x.rs, _, _, _ = ref.Read(text, nil)
	for _, d := range c11Dirs {
		clearDir(d)
	}
	conf := ref.Conf{NoStd: true, Dir: "save", Hash: w.Par["hash"], Log: true, SMTPLog: true}
	w.Start(conf, "-r", "rules")
	w.UseWorld(&ref.World{})
	vrt.FSHook, vrt.FSAfter = x.hook, x.after
	vrt.OnSend = func(c *vrt.Conn, r vrt.Reply) {
		if x.active {
			if x.img != nil {
				x.img("before the reply")
			}
			x.snap = dirFiles(c11Dirs...)
			x.snapDirty = map[string]bool{}
			for k := range x.dirty {
				x.snapDirty[filepath.Base(filepath.Dir(k))+"/"+filepath.Base(k)] = true
			}
		}
	}
	fresh := func() {
		for _, d := range c11Dirs {
			clearDir(d)
		}
		clear(x.dirty)
	}
	bodies := []string{"Subject: a\n\nbody\n", "Subject: long\n\n" + strings.Repeat("0123456789abcdef\n", 4200), ""}
	errs := []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EACCES, syscall.EROFS, syscall.ENOENT, syscall.EINTR, syscall.EMFILE, syscall.EAGAIN}
	partial := []int{0, 1, 50, 99, 100}
	froms := []string{"a@x.net", "sd@x.net"}
	switch w.Name {
	case "wide":
		// every operation fails, for messages of all sizes
		for _, n := range sizes(40, pick(w.Tier, 1<<20+1, 1<<23+1)) {
			for _, e := range errs[:2] {
				for _, p := range []int{0, 50, 99, 100} {
					if !w.Mine() || w.Over() {
						continue
					}
					body := strings.Repeat("0123456\n", n/8+1)[:n]
					for at := 1; ; at++ {
						fresh()
						w.Res.Evals++
						f := c11Fault{At: at, Err: e, Partial: p}
						t := x.open(fmt.Sprintf("a message of %d bytes", n), "a@x.net")
						t.Do("DATA", "")
						o := x.body(t, body, []c11Fault{f})
						hit := len(x.hit) > 0
						if hit {
							x.leftover(t, body, o)
							t = x.again(t, "a@x.net", at%2 == 0)
							if o = x.body(t, body, nil); o.Class() != 2 && !t.bad {
								t.fail("the retry got %v", o)
							}
						} else if o.Class() != 2 && !t.bad {
							t.fail("got %v though nothing failed", o)
						}
						w.State(fmt.Sprint(n, f))
						t.Close()
						if !hit || t.bad {
							break
						}
					}
				}
			}
		}
	case "faults":
		maxf := 2
		fmt.Sscan(w.Par["n"], &maxf)
		es := errs
		if maxf > 1 && w.Tier != "thorough" || maxf > 2 {
			es, partial, froms, bodies = errs[:3], []int{0, 50, 100}, froms[:1], bodies[:2]
		}
		var rec func(body, from string, fs []c11Fault) bool
		run := func(body, from string, fs []c11Fault, new bool, gap time.Duration) bool {
			fresh()
			t := x.open(fmt.Sprintf("-save-hash %s from %s body of %d bytes", w.Par["hash"], from, len(body)), from)
			t.Do("DATA", "")
			o := x.body(t, body, fs)
			if len(x.hit) < len(fs) { // there is no such operation
				t.Close()
				return false
			}
			ops := strings.Join(x.ops, ",")
			x.first = x.ops
			hit := x.hit
			x.leftover(t, body, o)
			w.Res.Evals++
			w.State(t.Pre, w.Par["act"], ops, fmt.Sprint(fs, new, gap, o.Class()))
			w.Sample("%v: operations %s, made to fail: %v, reply %v", t.Pre, ops, hit, o)
			// the same message again, now without faults
			multi := len(hit) > 1
			time.Sleep(gap)
			t = x.again(t, from, new)
			if multi {
				for k, v := range dirFiles(c11Dirs...) {
					if f := t.M.File(body); filepath.Base(k) == f.Name && (!x.whole(f, v) || x.dirtyBase(k)) {
						t.knownOK = true
					}
				}
			}
			o2 := x.body(t, body, nil)
			if !t.bad && !t.knownOK {
				want := 2
				switch w.Par["act"] {
				case "reject":
					want = 5
				case "stall":
					want = 4
				}
				if o2.Class() != want {
					t.fail("a retry without faults got %v", o2)
				}
			}
			t.Close()
			return true
		}
		rec = func(body, from string, fs []c11Fault) bool {
			any := false
			first := 1
			if len(fs) > 0 {
				first = fs[len(fs)-1].At + 1
			}
			for at := first; ; at++ {
				found := false
				for _, e := range es {
					for _, p := range partial {
						if w.Over() {
							return any
						}
						l := append(fs[:len(fs):len(fs)], c11Fault{at, e, p})
						mine := len(l) < maxf || w.Mine()
						if mine {
							for _, new := range []bool{false, true} {
								for _, gap := range []time.Duration{0, 3 * time.Second} {
									if maxf > 1 && len(l) < maxf && (new || gap > 0) {
										continue
									}
									if run(body, from, l, new, gap) {
										found = true
									} else {
										goto next
									}
								}
							}
						} else {
							found = true // another shard looks at it
							if at > 40 {
								goto next
							}
						}
						if !strings.Contains(lastOp(x, at), "write") && p == 0 {
							// partial writes only matter for writes
							if mine {
								break
							}
						}
					}
				}
			next:
				if !found || at > 40 {
					break
				}
				any = true
				if len(fs)+1 < maxf {
					for _, e := range es[:2] {
						for _, p := range []int{0, 50} {
							rec(body, from, append(fs[:len(fs):len(fs)], c11Fault{at, e, p}))
						}
					}
				}
			}
			return any
		}
		for _, b := range bodies {
			for _, f := range froms {
				if maxf > 1 || w.Shard == 0 {
					rec(b, f, nil)
				}
			}
		}
		// a savedir that does not exist
		fresh()
		t := x.open("savedir that does not exist", "gone@x.net")
		t.Do("DATA", "")
		if o := x.body(t, bodies[0], nil); o.Class() != 4 {
			t.fail("got %v", o)
		}
		t.Close()
	case "pair":
		// Two sessions save the same message at the same time: the first stops
		// before operation k, the second sends its message, the first goes on, and
		// operation j fails.
		type snap struct {
			r     vrt.Reply
			files map[string]string
			dirty map[string]bool
		}
		for _, b := range bodies {
			for k, more := 1, true; more && k < 40; k++ {
				for j := 0; j < 40; j++ {
					if j > 0 && j < k || j > 0 && !w.Mine() || w.Over() {
						continue
					}
					fresh()
					pre := fmt.Sprintf("-save-hash %s, two sessions with the same message of %d bytes: the first stops before operation %d until the second has answered or waits, then operation %d fails (0: none)", w.Par["hash"], len(b), k, j)
					t1 := x.open(pre, "a@x.net")
					t1.Do("DATA", "")
					t2 := x.open(pre, "a@x.net")
					t2.Do("DATA", "")
					gate, n, stopped, held, hit := make(chan bool), 0, false, false, false
					var ops []string
					vrt.FSBlocks = true
					vrt.FSHook = func(op vrt.Op) vrt.Verdict {
						if d := filepath.Base(filepath.Dir(op.Path)); d != "save" {
							return vrt.Verdict{}
						}
						x.mu.Lock()
						defer x.mu.Unlock()
						ops = append(ops, op.Kind)
						if stopped {
							return vrt.Verdict{}
						}
						n++
						at := n
						if at == k && !held {
							stopped, held = true, true
							x.mu.Unlock()
							<-gate
							x.mu.Lock()
							stopped = false
						}
						if at == j {
							hit = true
							p := 0
							if op.Kind == "write" {
								if p = op.N / 2; p > 0 {
									x.dirty[op.Path] = true
								}
							}
							return vrt.Verdict{Err: syscall.ENOSPC, Partial: p}
						}
						return vrt.Verdict{}
					}
					sent := map[*vrt.Conn]snap{}
					vrt.OnSend = func(c *vrt.Conn, r vrt.Reply) {
						x.mu.Lock()
						defer x.mu.Unlock()
						d := map[string]bool{}
						for k := range x.dirty {
							d[filepath.Base(filepath.Dir(k))+"/"+filepath.Base(k)] = true
						}
						sent[c] = snap{r, dirFiles(c11Dirs...), d}
					}
					fs := []ref.Saved{t1.M.File(b), t2.M.File(b)}
					ts := []*Trace{t1, t2}
					outs := make([]Out, 2)
					done := make(chan int, 2)
					for i := range ts {
						go func() {
							outs[i] = ts[i].S.Do(vrt.Cmd{Verb: "BODY", Arg: b})
							done <- i
						}()
						synctest.Wait()
					}
					w.Outcome(fmt.Sprintf("stopped %v, second answered meanwhile %v", held, len(done) > 0 && stopped))
					if stopped {
						close(gate)
					}
					<-done
					<-done
					synctest.Wait()
					w.Res.Evals++
					more = held
					end := dirFiles(c11Dirs...)
					w.State(pre, fmt.Sprint(outs[0].Class(), outs[1].Class()), strings.Join(ops, ","))
					for i, t := range ts {
						t.M.Do("BODY", b, nil, false, true)
						t.Steps = append(t.Steps, fmt.Sprintf("BODY (%d bytes)", len(b)))
						t.panics()
						if outs[i].Err != nil || len(outs[i].R) == 0 {
							t.fail("session %d got no reply: %v", i+1, outs[i])
							continue
						}
						sn := sent[t.S.C]
						key := fs[i].Dir + "/" + fs[i].Name
						if c := outs[i].Class(); c == 2 {
							if got, ok := sn.files[key]; !ok || !x.whole(fs[i], got) || sn.dirty[key] {
								t.fail("session %d got %v while the file %s was there=%v unflushed=%v with %d of %d bytes; operations were %v", i+1, outs[i], key, ok, sn.dirty[key], len(got), len(fs[i].Content), ops)
							} else if !x.whole(fs[i], end[key]) {
								t.fail("session %d got %v but the file %s is not there any more; operations were %v", i+1, outs[i], key, ops)
							} else if got != end[key] {
								t.fail("session %d got %v but the file %s was changed afterwards; operations were %v", i+1, outs[i], key, ops)
							}
						} else if c != 4 || !hit {
							t.fail("session %d got %v; operations were %v", i+1, outs[i], ops)
						} else if got, ok := end[key]; ok && !x.whole(fs[i], got) {
							t.fail("after %v the file %s has %d of %d bytes", outs[i], key, len(got), len(fs[i].Content))
						}
					}
					t1.Close()
					t2.Close()
					if !held || j > 0 && !hit {
						break
					}
				}
			}
		}
	case "crash":
		for _, b := range bodies {
			for _, gap := range []time.Duration{0, 3 * time.Second} {
				fresh()
				var images []c11Image
				x.img = func(what string) { images = append(images, c11Image{what, dirFiles("image")}) }
				t := x.open(fmt.Sprintf("-save-hash %s crash images, body of %d bytes", w.Par["hash"], len(b)), "img@x.net")
				t.Do("DATA", "")
				f := t.M.File(b)
				x.body(t, b, nil)
				x.img("after the reply")
				x.img = nil
				t.Close()
				for _, im := range images {
					what := im.what
					// images inside a write: some bytes of the file
					if i := strings.IndexByte(what, ':'); i > 0 {
						n := 0
						fmt.Sscanf(what[strings.Index(what, ", ")+2:], "%d of", &n)
						k := "image/" + what[i+1:]
						im.files[k] = f.Content[:min(len(f.Content), len(im.files[k])+n)]
					}
					// Nothing unflushed has to survive; each file may have lost it.
					for lost := 0; lost < 2; lost++ {
						if !w.Mine() {
							continue
						}
						w.Res.Evals++
						fresh()
						part := false
						for k, v := range im.files {
							if lost == 1 && !strings.Contains(what, "the reply") {
								v = ""
							}
							os.WriteFile(k, []byte(v), 0666)
							part = part || !x.whole(f, v)
						}
						time.Sleep(gap)
						t := x.open(fmt.Sprintf("-save-hash %s, body of %d bytes, crash %s, unflushed data lost %v, then the message is sent again", w.Par["hash"], len(b), what, lost == 1), "img@x.net")
						t.knownOK = part && w.Par["hash"] != "all"
						t.Do("DATA", "")
						o := x.body(t, b, nil)
						w.State(t.Pre, fmt.Sprint(gap, o.Class()))
						t.Close()
					}
				}
			}
		}
	}
	vrt.FSHook, vrt.FSAfter, vrt.OnSend = nil, nil, nil
}

func lastOp(x *c11, at int) string {
	if at <= len(x.first) {
		return x.first[at-1]
	}
	return ""
}

func init() {
	register(&Check{ID: "C11", Level: "fault_enumeration", Run: runC11,
		Plan: func(tier string) []Job {
			var l []Job
			for _, h := range []string{"all", "full", "msg"} {
				for _, a := range []string{"accept", "reject", "stall"} {
					l = append(l, Job{Name: "faults", Par: map[string]string{"hash": h, "act": a, "n": "1"}})
					if a == "accept" || tier == "thorough" {
						l = append(l, shards(2, Job{Name: "faults", Par: map[string]string{"hash": h, "act": a, "n": "2"}})...)
					}
					if tier == "thorough" {
						l = append(l, shards(8, Job{Name: "faults", Par: map[string]string{"hash": h, "act": a, "n": "3"}, Budget: 1200})...)
					}
				}
				l = append(l, Job{Name: "crash", Par: map[string]string{"hash": h}}, Job{Name: "pair", Par: map[string]string{"hash": h}})
			}
			return l
		},
		Rule: "every file operation between the end of a message and its reply is made to fail, with each of nine errors and, for writes, after each of five lengths; every pair of operations too; and every crash point before, in and after each operation, with unflushed data kept or lost, followed by a restart and the same message again; two sessions with the same message, the first stopped before every operation while the second sends its message, then every later operation failing or none; state = operations, faults and reply",
		Bounds: func(tier string) string {
			return pick(tier, "1 and 2 faults per message, 3 message sizes, 3 namings", "up to 3 faults per message")
		},
		Assumptions: []string{"a crash keeps what was flushed and either all or nothing of what was not", "loss of a directory entry of a flushed file is not considered"},
	})
}
