package checks

import (
	"fmt"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"

	"verif/ref"
	"verif/vrt"
)

// C25: load problems are reported once per change.

const c25Base = "accept helo never.net\n@helo reject helo file:pats\n"

// c25States are the states of the files: rules, more rules, and patterns.
var c25States = [][]string{
	{"ok", "missing", "parsefirst", "parselast", "noopen", "readerr", "include"},
	{"ok", "missing", "parsefirst", "parselast"},
	{"ok", "noopen", "readerr", "missing"},
}
var c25Names = []string{"r1", "r2", "pats"}

func runC25(w *W) {
	cur := []string{"ok", "ok", "ok"}
	set := func(i int, st string) {
		cur[i] = st
		if i == 2 {
			writeFile("pats", "bad.net\n")
			return
		}
		t := c25Base
		switch st {
		case "parsefirst":
			t = "bogus\n" + t
		case "parselast":
			t += "reject helo"
		case "include":
			t += "include nosuch\n"
		}
		writeFile(c25Names[i], t)
	}
	var gate chan bool       // standard error is blocked until it is closed
	var seen map[string]bool // problems that a load has run into
	var smu sync.Mutex
	vrt.FSBlocks = true
	vrt.FSHook = func(op vrt.Op) vrt.Verdict {
		if op.Kind == "write" && op.Path == "/dev/stderr" && gate != nil {
			<-gate
		}
		for i, n := range c25Names {
			if filepath.Base(op.Path) != n {
				continue
			}
			if op.Kind == "open" && i < 2 && cur[i] != "ok" && seen != nil {
				smu.Lock()
				seen[n+" "+cur[i]] = true
				smu.Unlock()
			}
			switch op.Kind + " " + cur[i] {
			case "open missing":
				return vrt.Verdict{Err: syscall.ENOENT}
			case "open noopen":
				return vrt.Verdict{Err: syscall.EACCES}
			case "read readerr":
				return vrt.Verdict{Err: syscall.EIO}
			}
		}
		return vrt.Verdict{}
	}
	for i := range c25Names {
		set(i, "ok")
	}
	w.Start(ref.Conf{NoStd: true}, "-r", "r1,r2")
	w.UseWorld(&ref.World{})
	w.Keep = true
	take := func() []string {
		synctest.Wait()
		w.emu.Lock()
		defer w.emu.Unlock()
		e := w.Errs
		w.Errs = nil
		return e
	}
	// problem says what is wrong now, "" for nothing.
	problem := func() string {
		for i, n := range c25Names {
			if cur[i] != "ok" && !(i == 2 && cur[i] == "missing") {
				return n + " " + cur[i]
			}
		}
		return ""
	}
	// about says whether a report fits a problem; what it says in detail is up to the program.
	about := func(msg, p string) bool {
		n, _, _ := strings.Cut(p, " ")
		return strings.HasPrefix(msg, "sinksmtp: ") && strings.HasSuffix(msg, "\n") && strings.Contains(msg, n)
	}
	took := map[string]string{} // the report for a problem
	cmds := cl("EHLO h.net", "QUIT")
	n := 0
	check := func(desc string, ls []*live) bool {
		bad := problem()
		for _, l := range ls {
			for i, o := range l.Outs {
				want := 2
				if i == 1 && bad != "" && !strings.HasPrefix(bad, "pats") {
					want = 4
				}
				if o.Err != nil || o.Class() != want {
					w.Fail(desc, "a session got %v instead of %dxx\n  in: %s", o, want, desc)
					return false
				}
			}
			if len(l.Outs) != 3 {
				w.Fail(desc, "a session ended early\n  in: %s", desc)
				return false
			}
		}
		return true
	}
	mk := func() script {
		n++
		return script{Raddr: hostport(ipAddr(n)), Laddr: local, Cmds: cmds}
	}
	switch w.Name {
	case "wide":
		// many different problems, each with one and then n connections; then
		// many connections at the same time while it goes on
		for _, n := range sizes(40, pick(w.Tier, 1100, 11000)) {
			if n == 0 || !w.Mine() {
				continue
			}
			desc := fmt.Sprintf("%d problems, one after the other", n)
			w.Cur(desc)
			for i := 0; i < n; i++ {
				w.Res.Evals++
				writeFile("r1", fmt.Sprintf("%sinclude nosuch%dx\n", c25Base, i))
				want := 1
				for rep := 0; rep < 2; rep++ {
					w.join([]*live{w.goClient(mk())})
					if e := take(); len(e) != want || want == 1 && !strings.Contains(e[0], fmt.Sprintf("nosuch%dx", i)) {
						w.Fail(desc, "%q was printed for problem %d with connection %d\n  in: %s", e, i, rep, desc)
						return
					}
					want = 0
				}
			}
			w.State(desc)
			w.Outcome("each reported once")
			desc = fmt.Sprintf("%d connections at the same time with one problem", n)
			w.Cur(desc)
			writeFile("r1", c25Base+fmt.Sprintf("include other%dx\n", n))
			var ls []*live
			for i := 0; i < n; i++ {
				ls = append(ls, w.goClient(mk()))
			}
			w.join(ls)
			if e := take(); len(e) != 1 || !strings.Contains(e[0], fmt.Sprintf("other%dx", n)) {
				w.Fail(desc, "%q was printed\n  in: %s", e, desc)
				return
			}
			w.Res.Traces += int64(3 * n)
			w.State(desc)
			set(0, "ok")
		}
		// problems that differ at one place only
		for _, n := range sizes(70, pick(w.Tier, 5000, 70000)) {
			if !w.Mine() {
				continue
			}
			for _, p := range []string{"%[2]s%[1]s", "%[1]s%[2]s", "%[2]s%[1]s%[2]s"} {
				desc := fmt.Sprintf("problems that differ at one place, as %q with %d others", p, n)
				w.Cur(desc)
				for i, c := range []string{"a", "b", "A", "a", "0", "1"} {
					w.Res.Evals++
					writeFile("r1", c25Base+"include nosuch"+fmt.Sprintf(p, c, strings.Repeat("x", n))+"\n")
					for want := 1; want >= 0; want-- {
						w.Res.Traces++
						w.join([]*live{w.goClient(mk())})
						if e := take(); len(e) != want {
							w.Fail(desc, "%.300q was printed for problem %d, not %d messages\n  in: %s", e, i, want, desc)
							return
						}
					}
				}
				w.State(desc)
				set(0, "ok")
				w.join([]*live{w.goClient(mk())})
				take()
			}
		}
	case "histories":
		type op struct {
			f  int
			st string
		}
		var ops []op
		for f, l := range c25States {
			for _, s := range l {
				ops = append(ops, op{f, s})
			}
		}
		depth := 3
		fmt.Sscan(w.Par["depth"], &depth)
		w.seqs(len(ops), depth, func(ix []int) {
			for _, batch := range []int{1, 3} {
				// start from no problems and an unrelated last report
				for i := range c25Names {
					set(i, "ok")
				}
				take()
				last := ""    // the problem last reported
				prev := false // whether it was there at the step before
				desc := fmt.Sprintf("%d connections after each change:", batch)
				first := true
				for _, i := range ix {
					o := ops[i]
					set(o.f, o.st)
					desc += fmt.Sprintf(" %s %s;", c25Names[o.f], o.st)
					w.Cur(desc)
					w.Res.Evals++
					w.Res.Traces++
					for rep := 0; rep < 2; rep++ {
						var ls []*live
						for k := 0; k < batch; k++ {
							ls = append(ls, w.goClient(mk()))
						}
						w.join(ls)
						if !check(desc, ls) {
							return
						}
						p := problem()
						e := take()
						w.State(desc, fmt.Sprint(batch, rep, len(e)))
						w.Outcome(fmt.Sprintf("problem %q: %d messages", p, len(e)))
						for _, m := range e {
							if !about(m, p) {
								w.Fail(desc, "%q was printed, the problem being %q\n  in: %s", m, p, desc)
								return
							}
						}
						min, max := 1, 1
						switch {
						case p == "":
							min, max = 0, 0
						case p == last && prev:
							min, max = 0, 0 // goes on
						case p == last || first:
							min = 0 // came back
						}
						if len(e) < min || len(e) > max {
							w.Fail(desc, "%d messages were printed (%q), not %d\n  in: %s", len(e), e, min, desc)
							return
						}
						if len(e) == 1 {
							// different problems have different reports
							for q, m := range took {
								if q != p && m == e[0] {
									w.Fail(desc, "the problems %q and %q are both reported as %q\n  in: %s", q, p, m, desc)
								}
							}
							took[p] = e[0]
						}
						if p != "" {
							last = p
							first = false
						}
						prev = p != ""
					}
				}
			}
		})
	case "blocked":
		// standard error is blocked for a while
		type op struct {
			f  int
			st string
		}
		ops := []op{{0, "ok"}, {0, "missing"}, {0, "parsefirst"}, {0, "noopen"}, {0, "include"}, {1, "ok"}, {1, "missing"}, {1, "parsefirst"}}
		depth := 4
		fmt.Sscan(w.Par["depth"], &depth)
		w.seqs(len(ops), depth, func(ix []int) {
			for rel := 1; rel <= depth; rel++ {
				for batch := 1; batch <= 2; batch++ {
					for i := range c25Names {
						set(i, "ok")
					}
					// make the last report another one
					set(0, "parselast")
					w.join([]*live{w.goClient(mk())})
					take()
					set(0, "ok")
					w.Res.Evals++
					w.Res.Traces++
					gate, seen = make(chan bool), map[string]bool{}
					desc := fmt.Sprintf("standard error is blocked; %d connections after each change:", batch)
					var ls []*live
					var bad []string
					for k, i := range ix {
						if k == rel {
							close(gate)
							desc += " standard error goes on;"
							synctest.Wait()
							gate = nil
						}
						o := ops[i]
						set(o.f, o.st)
						desc += fmt.Sprintf(" %s %s;", c25Names[o.f], o.st)
						w.Cur(desc)
						for b := 0; b < batch; b++ {
							ls = append(ls, w.goClient(mk()))
							bad = append(bad, problem())
						}
						synctest.Wait()
					}
					if gate != nil {
						desc += " standard error goes on;"
						close(gate)
						synctest.Wait()
						gate = nil
					}
					w.join(ls)
					e := take()
					for i, l := range ls {
						if len(l.Outs) != 3 || l.Outs[1].Err != nil || l.Outs[2].Err != nil {
							w.Fail(desc, "session %d, connecting when the problem was %q, got %v\n  in: %s", i, bad[i], l.Outs, desc)
							return
						}
					}
					// what a load ran into was printed: that many different messages
					for _, m := range e {
						if !about(m, "r1") && !about(m, "r2") {
							w.Fail(desc, "%q was printed\n  in: %s", m, desc)
							return
						}
					}
					for n := 0; n < 2; n++ {
						want, got := map[string]bool{}, map[string]bool{}
						for p := range seen {
							if strings.HasPrefix(p, c25Names[n]) {
								want[p] = true
							}
						}
						for _, m := range e {
							if about(m, c25Names[n]) {
								got[m] = true
							}
						}
						if len(got) < len(want) {
							w.Fail(desc, "%d different problems with %s were met by sessions (%v), but just %d were reported: %q\n  in: %s", len(want), c25Names[n], want, len(got), e, desc)
							return
						}
					}
					w.Outcome(fmt.Sprintf("%d problems while blocked", len(seen)))
					w.State(desc, fmt.Sprint(len(e)))
					seen = nil
				}
			}
		})
	case "points":
		// simultaneous sessions with a problem, and with a problem that changes
		for _, second := range []string{"parsefirst", "missing", "ok"} {
			for _, third := range []string{"parsefirst", "missing", "ok"} {
				np := 0
				for k := 0; np == 0 || k <= np; k++ {
					if np > 0 && (!w.Mine() || w.Over()) {
						continue
					}
					// make the last report another one
					set(0, "parselast")
					w.join([]*live{w.goClient(mk())})
					take()
					set(0, second)
					ss := []script{mk(), mk()}
					desc := fmt.Sprintf("r1 is %s; session 0 stops after %d points; r1 becomes %s; session 1 runs; session 0 goes on", second, k, third)
					w.Cur(desc)
					w.Res.Evals++
					w.Res.Traces++
					ls, _ := w.schedule(false, pick(w.Tier, 2, 8), ss, []seg{{G: 0, N: k}, {G: 1, N: -1, Before: func() { set(0, third) }}, {G: 0, N: -1}})
					if np == 0 {
						np = int(ls[0].G.Count)
						w.Res.Max["points in a session"] = int64(np)
					}
					w.State("points", second, third, fmt.Sprint(k))
					e := take()
					stalled := map[string]bool{}
					for i, l := range ls {
						if len(l.Outs) != 3 || l.Outs[1].Err != nil || l.Outs[2].Err != nil {
							w.Fail(desc, "session %d got %v\n  in: %s", i, l.Outs, desc)
							continue
						}
						if l.Outs[1].Class() == 4 {
							stalled[fmt.Sprint(i)] = true
						}
					}
					lo, hi := 0, 2
					if second == third {
						lo, hi = 1, 1
						if second == "ok" {
							lo, hi = 0, 0
						}
					} else if len(stalled) > 0 {
						lo = 1
						// session 1 has the third state, session 0 one of the two
						if len(stalled) == 1 {
							hi = 1
						}
					} else {
						hi = 0
					}
					w.Outcome(fmt.Sprintf("%s/%s: %d messages, %d stalled", second, third, len(e), len(stalled)))
					if len(e) < lo || len(e) > hi {
						w.Fail(desc, "%d messages (%q), between %d and %d expected; %d sessions stalled\n  in: %s", len(e), e, lo, hi, len(stalled), desc)
					}
					if third != "ok" {
						// the third state has been reported
						found := false
						for _, m := range e {
							found = found || about(m, "r1")
						}
						if !found {
							w.Fail(desc, "the problem was not reported\n  in: %s", desc)
						}
					}
				}
			}
		}
	}
}

func init() {
	register(&Check{ID: "C25", Level: "model_checking", Run: runC25,
		Plan: func(tier string) []Job {
			l := shards(8, Job{Name: "histories", Par: map[string]string{"depth": pick(tier, "3", "4")}, Budget: pick(tier, 0, 3600)})
			l = append(l, shards(8, Job{Name: "blocked", Par: map[string]string{"depth": pick(tier, "4", "5")}, Budget: pick(tier, 0, 1800)})...)
			return append(l, shards(4, Job{Name: "points", Build: "sched", Budget: pick(tier, 0, 1800)})...)
		},
		Rule: "every history of states of two rule files and a pattern file, with one or three simultaneous connections after each, twice; what is printed is compared with the problems there are; every history of problems with connections at each while standard error is blocked, up to every later step: each problem that a load ran into is printed once it goes on; then two sessions, the first stopped at every statement while the problem changes or not and the second runs; state = history and number of reports",
		Bounds: func(tier string) string {
			return pick(tier, "15 changes, 3 steps; 8 changes, 4 steps with blocked standard error; one preemption at every statement (first 2 executions)", "15 changes, 4 steps; 8 changes, 5 steps with blocked standard error; first 8 executions")
		},
	})
}
