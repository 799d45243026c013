package checks

import (
	"errors"
	"fmt"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"time"

	"verif/ref"
	"verif/vrt"
)

// C26: every accepted connection is served once, under its own id.

const c26Rules = "@connect reject ip 198.18.0.0/16\n"

type c26 struct {
	w   *W
	mu  sync.Mutex
	ids map[string][]string // id by remote address, as in the SMTP log
	n   int
	// what was written of a line that is not complete
	part string
}

func (x *c26) addr() string {
	x.n++
	return hostport(ipAddr(x.n))
}

// id of a connection
func (x *c26) id(raddr string) string {
	x.mu.Lock()
	defer x.mu.Unlock()
	return strings.Join(x.ids[raddr], ",")
}

func runC26(w *W) {
	makeCerts(1)
	nl := 1
	fmt.Sscan(w.Par["listeners"], &nl)
	w.Rules(c26Rules)
	x := &c26{w: w, ids: map[string][]string{}}
	vrt.RecordWrites = func(r vrt.WriteRec) {
		if filepath.Base(r.Path) != "smtp.log" {
			return
		}
		x.mu.Lock()
		defer x.mu.Unlock()
		x.part += r.Data
		for {
			line, rest, ok := strings.Cut(x.part, "\n")
			if !ok {
				return
			}
			x.part = rest
			id, rest, ok := strings.Cut(line, "#")
			if _, a, ok2 := strings.Cut(rest, "remote "); ok && ok2 {
				a, _, _ = strings.Cut(a, " at ")
				x.ids[a] = append(x.ids[a], id)
			}
		}
	}
	args := []string{"-r", "rules"}
	for i := 0; i < nl; i++ {
		args = append(args, fmt.Sprintf("LISTEN 192.0.2.%d:25", i+1))
	}
	w.Start(ref.Conf{NoStd: true, SMTPLog: true, TLS: true, DN: 1, MinPhase: "helo"}, args...)
	w.UseWorld(&ref.World{})
	if len(w.L) != nl {
		w.Fail(args, "%d listeners, not %d, for %q", len(w.L), nl, args)
		return
	}
	laddr := func(i int) string { return fmt.Sprintf("192.0.2.%d:25", i+1) }
	type open struct {
		s  *S
		id int
	}
	check := func(desc string, o open) {
		if want := fmt.Sprintf("%d/%d", w.D.Pid, o.id); x.id(string(o.s.C.Remote.(vrt.Addr))) != want {
			w.Fail(desc, "a connection has the id %q in the SMTP log, not %s\n  in: %s", x.id(string(o.s.C.Remote.(vrt.Addr))), want, desc)
		}
		n := 0
		for _, r := range o.s.C.Replies {
			if r.Code == 220 && !strings.Contains(r.Lines[0], "TLS") {
				n++
			}
		}
		if n != 1 || o.s.C.Replies[0].Code != 220 {
			w.Fail(desc, "a connection got %v at the start\n  in: %s", o.s.C.Replies, desc)
		}
	}
	switch w.Name {
	case "arrivals":
		depth := 5
		fmt.Sscan(w.Par["depth"], &depth)
		var ops []string
		for i := 0; i < nl; i++ {
			ops = append(ops, fmt.Sprintf("connect%d", i), fmt.Sprintf("error%d", i))
		}
		ops = append(ops, "drop", "quit-oldest", "quit-newest", "hangup-oldest", "tlsfail-newest", "slow", "errors")
		first := 1
		w.seqs(len(ops), depth, func(ix []int) {
			w.Res.Evals++
			w.Res.Traces++
			var l []open
			desc := ""
			nviol := len(w.Res.Viol)
			bad := func(f string, a ...any) {
				w.Fail(desc, "%s\n  in: %s", fmt.Sprintf(f, a...), desc)
			}
			conn := func(li int, raddr string) (open, bool) {
				c := vrt.NewConn(raddr, laddr(li))
				w.tick.Add(1)
				w.Res.Transitions++
				if err := w.L[li].Put(vrt.Accepted{C: c}); err != nil {
					bad("listener %d no longer accepts connections", li)
					return open{}, false
				}
				o := open{&S{C: c, w: w}, first}
				first++
				t := time.Now()
				_, err := c.WaitIdle()
				o.s.collect(err)
				if err != nil {
					bad("a connection is not served")
					return o, false
				}
				if d := time.Since(t); d > 0 {
					bad("a connection had to wait for %v", d)
				}
				return o, true
			}
			end := func(k int, cmd vrt.Cmd) bool {
				o := l[k]
				l = append(l[:k:k], l[k+1:]...)
				out := o.s.Do(cmd)
				check(desc, o)
				synctest.Wait()
				if !o.s.C.IsClosed() || out.Err != nil {
					bad("the connection is not closed after the session's end (%v)", out)
					return false
				}
				return true
			}
			for _, i := range ix {
				op := ops[i]
				desc += " " + op
				w.Cur(desc)
				li := 0
				if len(op) > 5 {
					fmt.Sscan(op[len(op)-1:], &li)
				}
				switch {
				case strings.HasPrefix(op, "connect"):
					o, ok := conn(li, x.addr())
					if !ok {
						return
					}
					if o.s.Closed {
						bad("a connection was closed at once")
						return
					}
					l = append(l, o)
				case strings.HasPrefix(op, "error"):
					n := 1
					if op == "errors" {
						n = 20
					}
					for ; n > 0; n-- {
						if err := w.L[li].Put(vrt.Accepted{Err: &acceptErr{}}); err != nil {
							bad("listener %d stopped after an accept error", li)
							return
						}
					}
				case op == "drop":
					// no ids of dropped connections in the log
					o, ok := conn(nl-1, "198.18.0.1:1")
					synctest.Wait()
					if ok && !o.s.C.IsClosed() {
						bad("a connection that is dropped is not closed")
						return
					}
				case op == "slow":
					// a stalled client in the middle of its slow greeting
					a := x.addr()
					t := w.Session(desc, a, laddr(0), ref.SessOpt{})
					t.Do("QUIT", "")
					t.Close()
					c := vrt.NewConn(a, laddr(0))
					if err := w.L[0].Put(vrt.Accepted{C: c}); err != nil {
						bad("listener 0 no longer accepts connections")
						return
					}
					synctest.Wait()
					first += 2
					o, ok := conn(nl-1, x.addr())
					if !ok {
						return
					}
					check(desc, o)
					l = append(l, o)
					c.WaitIdle()
					c.Put(vrt.Cmd{Verb: "ABORT"})
					c.WaitIdle()
					synctest.Wait()
					if !c.IsClosed() {
						bad("the connection of a stalled client is not closed after the session's end")
					}
				case len(l) == 0:
					return
				case op == "quit-oldest":
					if !end(0, vrt.Cmd{Verb: "QUIT"}) {
						return
					}
				case op == "quit-newest":
					if !end(len(l)-1, vrt.Cmd{Verb: "QUIT"}) {
						return
					}
				case op == "hangup-oldest":
					if !end(0, vrt.Cmd{Verb: "ABORT"}) {
						return
					}
				case op == "tlsfail-newest":
					o := l[len(l)-1]
					o.s.Do(vrt.Cmd{Verb: "EHLO", Arg: "h.net"})
					if !end(len(l)-1, vrt.Cmd{Verb: "STARTTLS", TLS: &vrt.TLSOutcome{Fail: true}}) {
						return
					}
				}
				for _, p := range vrt.Panics() {
					bad("the server panicked: %s", p)
				}
				// all the others are still there
				for _, o := range l {
					t := time.Now()
					if out := o.s.Do(vrt.Cmd{Verb: "NOOP"}); out.Class() != 2 || out.Closed {
						bad("an open session got %v", out)
						return
					} else if d := time.Since(t); d > 0 {
						bad("an open session had to wait for %v", d)
					}
					check(desc, o)
				}
				if len(w.Res.Viol) > nviol {
					return
				}
				w.Outcome(fmt.Sprintf("%d open", len(l)))
			}
			w.State(fmt.Sprint(nl), desc)
			for len(l) > 0 {
				if !end(0, vrt.Cmd{Verb: "QUIT"}) {
					return
				}
			}
		})
		w.Res.Max["id"] = int64(first)
	case "many":
		// a great many open sessions at the same time
		first := 1
		for round := 0; round < 3; round++ {
			var l []open
			desc := fmt.Sprintf("%d open sessions", 400)
			for i := 0; i < 400; i++ {
				w.Res.Evals++
				w.Res.Transitions++
				w.tick.Add(1)
				li := i % nl
				c := vrt.NewConn(x.addr(), laddr(li))
				desc = fmt.Sprintf("%d open sessions and then another one", i)
				w.Cur(desc)
				if err := w.L[li].Put(vrt.Accepted{C: c}); err != nil {
					w.Fail(desc, "listener %d no longer accepts connections with %s", li, desc)
					return
				}
				o := open{&S{C: c, w: w}, first}
				first++
				t := time.Now()
				_, err := c.WaitIdle()
				o.s.collect(err)
				if err != nil || o.s.Closed || time.Since(t) > 0 {
					w.Fail(desc, "the connection is not served at once with %s", desc)
					return
				}
				check(desc, o)
				l = append(l, o)
				w.State("many", fmt.Sprint(nl, round, i))
			}
			for len(l) > 0 {
				k := []int{0, len(l) - 1, len(l) / 2}[round]
				o := l[k]
				l = append(l[:k:k], l[k+1:]...)
				if out := o.s.Do(vrt.Cmd{Verb: "EHLO", Arg: "h.net"}); out.Class() != 2 {
					w.Fail(desc, "one of many open sessions got %v for EHLO", out)
					return
				}
				o.s.Do(vrt.Cmd{Verb: "QUIT"})
				synctest.Wait()
				if !o.s.C.IsClosed() {
					w.Fail(desc, "the connection is not closed after the session's end")
					return
				}
			}
			w.Res.Traces++
		}
	case "interleave":
		// simultaneous arrivals, all interleavings of the listeners, the main
		// loop and the sessions' first statements
		bound, points, nc := 2, 4, 2
		fmt.Sscan(w.Par["bound"], &bound)
		fmt.Sscan(w.Par["points"], &points)
		fmt.Sscan(w.Par["conns"], &nc)
		c := &choices{}
		first := 1
		sched := 0
		for more := true; more; more = c.next() {
			if w.Over() {
				break
			}
			sched++
			w.Res.Evals++
			w.Res.Traces++
			desc := fmt.Sprintf("%d connections at the same time to %d listeners (the first before it an accept error: %s), schedule %v", nc, nl, w.Par["err"], c.taken)
			w.Cur(desc)
			var ls []*live
			var errs int
			w.interleave(c, bound, points, nc, func(sc *vrt.Scheduler) {
				for i := 0; i < nc; i++ {
					li := i % nl
					s := script{Raddr: x.addr(), Laddr: laddr(li), Cmds: cl("EHLO h.net", "QUIT"), L: li}
					if i == 0 && w.Par["err"] != "" {
						errs++
						go w.L[li].Put(vrt.Accepted{Err: &acceptErr{}})
						synctest.Wait()
					}
					l := &live{script: s, C: vrt.NewConn(s.Raddr, s.Laddr), done: make(chan struct{})}
					ls = append(ls, l)
					go func() {
						defer close(l.done)
						if err := w.L[li].Put(vrt.Accepted{C: l.C}); err != nil {
							l.Outs = []Out{{Err: err}}
							return
						}
						n := 0
						get := func(err error) bool {
							o := Out{R: l.C.Replies[n:len(l.C.Replies):len(l.C.Replies)], Closed: l.C.IsClosed(), Err: err}
							n = len(l.C.Replies)
							l.Outs = append(l.Outs, o)
							return err == nil && !o.Closed
						}
						_, err := l.C.WaitIdle()
						if !get(err) {
							return
						}
						for _, cmd := range l.Cmds {
							l.C.Put(cmd)
							_, err := l.C.WaitIdle()
							if !get(err) {
								return
							}
						}
					}()
					synctest.Wait()
				}
			})
			w.join(ls)
			for _, p := range vrt.Panics() {
				w.Fail(desc, "the server panicked: %s\n  in: %s", p, desc)
			}
			used := map[string]bool{}
			for i, l := range ls {
				want := []int{2, 2, 2}
				if len(l.Outs) != 3 || !l.Outs[2].Closed {
					w.Fail(desc, "connection %d got %v\n  in: %s", i, l.Outs, desc)
					break
				}
				for k, o := range l.Outs {
					if o.Err != nil || o.Class() != want[k] || len(o.R) != 1 {
						w.Fail(desc, "connection %d got %v\n  in: %s", i, l.Outs, desc)
						break
					}
				}
				id := x.id(l.Raddr)
				ok := false
				for k := 0; k < nc; k++ {
					ok = ok || id == fmt.Sprintf("%d/%d", w.D.Pid, first+k)
				}
				if !ok || used[id] {
					w.Fail(desc, "connection %d has the id %q; %d to %d are due; used already: %v\n  in: %s", i, id, first, first+nc-1, used, desc)
				}
				used[id] = true
			}
			first += nc
			w.State(w.Par["listeners"], w.Par["err"], fmt.Sprint(c.taken))
		}
		w.Res.Max["schedules"] = int64(sched)
		if c.odd > 0 {
			w.Res.Notes = append(w.Res.Notes, fmt.Sprintf("%d schedules were not repeatable", c.odd))
		}
	}
}

// acceptErr is what Accept gives when there are too many open files.
type acceptErr struct{}

func (*acceptErr) Error() string   { return "accept tcp: too many open files" }
func (*acceptErr) Timeout() bool   { return false }
func (*acceptErr) Temporary() bool { return true }
func (*acceptErr) Unwrap() error   { return errors.Join(syscall.EMFILE) }

func init() {
	register(&Check{ID: "C26", Level: "model_checking", Run: runC26,
		Plan: func(tier string) []Job {
			var l []Job
			for i, d := range []string{pick(tier, "5", "6"), pick(tier, "4", "5"), pick(tier, "4", "5")} {
				l = append(l, shards(4, Job{Name: "arrivals", Par: map[string]string{"listeners": fmt.Sprint(i + 1), "depth": d}, Budget: pick(tier, 0, 3600)})...)
			}
			for _, n := range []string{"1", "3"} {
				l = append(l, Job{Name: "many", Par: map[string]string{"listeners": n}})
			}
			for _, e := range []string{"", "1"} {
				for _, n := range []string{"1", "2", "3"} {
					p := map[string]string{"listeners": n, "conns": pick(map[bool]string{true: "thorough"}[n == "3"], "2", "3"), "err": e, "bound": pick(tier, "2", "3"), "points": pick(tier, "3", "5")}
					if n == "3" {
						p["bound"], p["points"] = pick(tier, "0", "1"), "2"
					}
					l = append(l, Job{Name: "interleave", Build: "sched", Par: p, Budget: pick(tier, 0, 3600)})
				}
			}
			return l
		},
		Rule: "every sequence of arrivals, accept errors, ends of sessions of all kinds and slow sessions over 1 to 3 listeners: each connection must be greeted once, at once (virtual time), under the next id, all open sessions must keep answering, and ended ones must be closed; 400 sessions at once; then simultaneous arrivals under every interleaving, within a bound of preemptions, of the statements of the listeners, the main loop and the beginnings of the sessions; state = sequence or schedule",
		Bounds: func(tier string) string {
			return pick(tier, "sequences of 5 operations with one listener, 4 with 2 and 3; 2 simultaneous arrivals, 2 preemptions, 3 statements of each session; 3 arrivals, no preemptions, 2 statements", "sequences of 6 and 5 operations; 3 preemptions, 5 statements; 3 arrivals with 1 preemption")
		},
		Assumptions: []string{"the greeting comes from the smtpd package, which is a stand-in here"},
	})
}
