package checks

import (
	"fmt"
	"strings"
	"time"

	"verif/ref"
	"verif/vrt"
)

// C14: per-address counts are exact under every interleaving.

const (
	c14DN    = 4
	c14Rules = "@from set-with from yak@x.net with make-yakker\n@from reject from rej@x.net\n"
)

var c14Scripts = [][]string{
	{}, // hangs up
	{"EHLO h.net", "QUIT"},
	{"EHLO h.net", "MAIL a@x.net", "RCPT b@z.net", "QUIT"}, // does something
	{"EHLO h.net", "TLSFAIL"},
	{"EHLO h.net", "MAIL a@x.net", "RSET", "MAIL a@x.net", "RSET", "MAIL a@x.net"}, // repeats
	{"EHLO h.net", "MAIL yak@x.net"},
	{"EHLO h.net", "STARTTLS", "EHLO h.net", "MAIL rej@x.net"},
}

type c14 struct {
	w     *W
	seq   int
	rules []ref.Rule
	allow map[string]map[string]bool
}

// sig is what is seen of a session.
func c14Sig(o []Out) string {
	s := ""
	for i, x := range o {
		if i > 0 {
			s += fmt.Sprintf("%d", x.Class())
		}
		if x.Closed {
			s += "."
		}
	}
	return s
}

// step makes one step of a session in the model; the step after the last
// command is hanging up.
func c14Step(m *ref.Sess, cmds []vrt.Cmd, i int) string {
	if m.Closed() {
		return ""
	}
	if i >= len(cmds) {
		m.Do("ABORT", "", nil, false, false)
		return ""
	}
	e := mdo(m, cmds[i])
	s := fmt.Sprintf("%d", e.Class)
	if e.Closed {
		s += "."
	}
	return s
}

// prepare brings an address to a count, in both worlds.
func (x *c14) prepare(raddr string, pre int, model bool) {
	w := x.w
	n := pre
	if pre == 9 {
		n = c14DN // expired
	}
	for i := 0; i < n; i++ {
		w.D.Connect(raddr, local, ref.SessOpt{Rules: x.rules}).Do("ABORT", "", nil, false, false)
		if !model {
			s, _ := w.Open(0, raddr, local)
			s.End()
		}
	}
}

// counts gives the model's counts.
func (x *c14) counts(ip string) string {
	return fmt.Sprintf("do-nothing count %d, TLS failures %d", min(x.w.D.Yak.Count(ip), c14DN), min(x.w.D.NoTLS.Count(ip), 2))
}

// probe finds out the program's counts, from outside.
func (x *c14) probe(raddr string) string {
	w := x.w
	yak, tls := -1, -1
	for i := 0; i <= c14DN+1; i++ {
		s, _ := w.Open(0, raddr, local)
		o := s.Do(vrt.Cmd{Verb: "EHLO", Arg: "probe.net"})
		s.End()
		w.D.NConn++
		if o.Class() == 4 {
			yak = c14DN - i
			break
		}
	}
	time.Sleep(9 * time.Hour)
	for i := 0; i <= 3; i++ {
		s, _ := w.Open(0, raddr, local)
		w.D.NConn++
		o := s.Do(vrt.Cmd{Verb: "EHLO", Arg: "probe.net"})
		off := false
		if len(o.R) > 0 {
			for _, l := range o.R[len(o.R)-1].Lines {
				off = off || l == "STARTTLS"
			}
		}
		if !off {
			tls = 2 - i
			s.End()
			break
		}
		s.Do(vrt.Cmd{Verb: "STARTTLS", TLS: &vrt.TLSOutcome{Fail: true}})
		s.End()
	}
	return fmt.Sprintf("do-nothing count %d, TLS failures %d", yak, tls)
}

// allowed gives all outcomes that some order of the steps of the sessions has.
func (x *c14) allowed(ix []int, pre int) map[string]bool {
	key := fmt.Sprint(ix, pre)
	if a := x.allow[key]; a != nil {
		return a
	}
	a := map[string]bool{}
	w := x.w
	var lens []int
	for _, i := range ix {
		lens = append(lens, len(c14Scripts[i])+2)
	}
	keep := w.D
	merges(lens, func(order []int) {
		d := *keep
		d.Yak, d.NoTLS = ref.Table{}, ref.Table{}
		w.D = &d
		x.prepare("10.0.0.1:1", pre, true)
		if pre == 9 {
			d.Yak, d.NoTLS = ref.Table{}, ref.Table{}
		}
		ms := make([]*ref.Sess, len(ix))
		at := make([]int, len(ix))
		sig := make([]string, len(ix))
		for _, k := range order {
			if ms[k] == nil {
				ms[k] = w.D.Connect("10.0.0.1:1", local, ref.SessOpt{Rules: x.rules})
				continue
			}
			sig[k] += c14Step(ms[k], cl(c14Scripts[ix[k]]...), at[k])
			at[k]++
		}
		a[strings.Join(sig, "|")+" "+x.counts("10.0.0.1")] = true
	})
	w.D = keep
	x.allow[key] = a
	return a
}

// one runs sessions of scripts ix under a schedule.
func (x *c14) one(shared bool, reps int, ix []int, pre int, desc string, segs []seg) []*live {
	w := x.w
	x.seq++
	ip := ipAddr(x.seq)
	raddr := hostport(ip)
	x.prepare(raddr, pre, false)
	if pre == 9 {
		time.Sleep(9 * time.Hour)
	}
	var ss []script
	for _, i := range ix {
		ss = append(ss, script{Raddr: raddr, Laddr: local, Cmds: cl(c14Scripts[i]...)})
	}
	desc = fmt.Sprintf("%s; before: %d do-nothing sessions (9: %d, long ago); sessions: %v", desc, pre, c14DN, ss)
	w.Cur(desc)
	w.Res.Evals++
	w.Res.Traces++
	var ls []*live
	if segs == nil {
		for _, s := range ss {
			ls = append(ls, w.goClient(s))
		}
		w.join(ls)
	} else {
		ls, _ = w.schedule(shared, reps, ss, segs)
	}
	var sig []string
	for i, l := range ls {
		for _, o := range l.Outs {
			if o.Err != nil {
				w.Fail(desc, "session %d: %v\n  in: %s", i, o.Err, desc)
				return ls
			}
		}
		sig = append(sig, c14Sig(l.Outs))
	}
	for _, p := range vrt.Panics() {
		w.Fail(desc, "the server panicked: %s\n  in: %s", p, desc)
	}
	got := strings.Join(sig, "|") + " " + x.probe(raddr)
	a := x.allowed(ix, pre)
	if !a[got] {
		var l []string
		for k := range a {
			l = append(l, k)
		}
		w.Fail(desc, "the outcome is %q, which no order of the sessions' steps gives (those give %q)\n  in: %s", got, l, desc)
	}
	w.Outcome(got[strings.Index(got, " ")+1:])
	w.State(desc, got)
	return ls
}

func runC14(w *W) {
	makeCerts(1)
	w.Rules(c14Rules)
	rs, v, why, _ := ref.Read(c14Rules, nil)
	if v != ref.Good {
		panic(why)
	}
	conf := ref.Conf{NoStd: true, TLS: true, SMTPLog: true, DN: c14DN, DNDur: 8 * time.Hour, MinPhase: "to"}
	w.Start(conf, "-r", "rules")
	w.UseWorld(newWorld())
	x := &c14{w: w, rules: rs, allow: map[string]map[string]bool{}}
	n := len(c14Scripts)
	pres := []int{0, 1, 2, 3, 9}
	switch w.Name {
	case "points":
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				for _, pre := range pres {
					np := 0
					for k := 0; np == 0 || k <= np; k++ {
						if np > 0 && (!w.Mine() || w.Over()) {
							continue
						}
						ls := x.one(false, pick(w.Tier, 1, 4), []int{i, j}, pre, fmt.Sprintf("session 0 stops after %d points; session 1 runs; session 0 goes on", k), []seg{{G: 0, N: k}, {G: 1, N: -1}, {G: 0, N: -1}})
						np = max(np, int(ls[0].G.Count))
					}
				}
			}
		}
	case "shared":
		quick := w.Tier != "thorough"
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				for _, pre := range pres {
					if quick && (i == 1 || j == 1 || i == 6 || j == 6 || pre != 0 && pre != 3) {
						continue
					}
					a, b := 0, 0
					for k := 1; a == 0 || k <= a; k++ {
						for h := 1; b == 0 || h <= b; h++ {
							if a > 0 && (!w.Mine() || w.Over()) {
								continue
							}
							ls := x.one(true, pick(w.Tier, 1, 3), []int{i, j}, pre, fmt.Sprintf("session 0 stops after %d shared points; session 1 stops after %d; session 0 goes on, then session 1", k, h), []seg{{G: 0, N: k}, {G: 1, N: h}, {G: 0, N: -1}, {G: 1, N: -1}})
							a, b = max(a, int(ls[0].G.Count)), max(b, int(ls[1].G.Count))
						}
					}
				}
			}
		}
	case "three":
		// the first two are stopped while the third runs
		for _, t := range [][]int{{0, 0, 0}, {0, 1, 0}, {3, 3, 3}, {0, 2, 0}, {3, 0, 3}} {
			for _, pre := range []int{0, 1, 9} {
				a, b := 0, 0
				for k := 1; a == 0 || k <= a; k++ {
					for h := 1; b == 0 || h <= b; h++ {
						if a > 0 && (!w.Mine() || w.Over()) {
							continue
						}
						ls := x.one(true, pick(w.Tier, 1, 3), t, pre, fmt.Sprintf("session 0 stops after %d shared points, session 1 after %d; session 2 runs, then sessions 1 and 0 go on", k, h), []seg{{G: 0, N: k}, {G: 1, N: h}, {G: 2, N: -1}, {G: 1, N: -1}, {G: 0, N: -1}})
						a, b = max(a, int(ls[0].G.Count)), max(b, int(ls[1].G.Count))
					}
				}
			}
		}
	case "race":
		for r := 0; r < 40; r++ {
			for _, t := range [][]int{{0, 0, 0}, {0, 1, 2}, {3, 3, 3}, {0, 3, 5}, {4, 0, 1}, {2, 2, 0}} {
				x.one(false, 0, t, r%2, fmt.Sprintf("free run %d", r), nil)
			}
		}
	}
}

func init() {
	register(&Check{ID: "C14", Level: "model_checking", Run: runC14,
		Plan: func(tier string) []Job {
			l := []Job{{Name: "race", Build: "race"}}
			b := pick(tier, 150, 5000)
			l = append(l, shards(8, Job{Name: "three", Build: "sched", Budget: b})...)
			l = append(l, shards(8, Job{Name: "shared", Build: "sched", Budget: b})...)
			l = append(l, shards(8, Job{Name: "points", Build: "sched", Budget: b})...)
			return l
		},
		Rule: "all pairs of 7 kinds of sessions from one address x 5 earlier histories, one stopped at every statement while the other runs, and two preemptions at all statements with package level state; three sessions with two stopped; replies and final counts (found by probing) must be those of some order of the sessions' steps in the model; free runs under the race detector; state = schedule and outcome",
		Bounds: func(tier string) string {
			return pick(tier, "2 or 3 sessions, 2 preemptions (for 5 of the kinds and 2 histories), each statement's first execution", "each statement's first 3 or 4 executions")
		},
	})
}
