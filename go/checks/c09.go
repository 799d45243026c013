package checks

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"sort"
	"strings"

	"verif/ref"
	"verif/vrt"
)

// C09: simultaneous sessions never see each other's rules, envelope or options.

// c09Rules are rules whose every reply shows whose they are.
func c09Rules(v string) string {
	return strings.ReplaceAll(`@connect set-with all with note "noteV"
@helo reject helo .bad-V.net with note "heloV"
@from reject from bad@x.net with message "from V"
@from set-with from a@one.net with savedir save1
@from set-with from file:pats with savedir save2
@to stall to bad@x.net with message "to V\nand more V"
@to reject to file:pats with message "topat V"
@to reject from a@one.net to two@z.net with message "cross V"
@data reject to nodata@z.net with message "data V"
@message reject to rej@z.net with message "message V"
@message accept to acc@z.net with message "thanks V"
`, "V", v)
}

var c09Scripts = [][]string{
	{"EHLO h.bad-X.net", "EHLO h.bad-Y.net", "EHLO one.net", "MAIL bad@x.net", "MAIL a@one.net", "RCPT bad@x.net", "RCPT two@z.net", "RCPT one@z.net", "RCPT rej@z.net", "DATA", "BODY Subject: one\n\none\n"},
	{"HELO two.net", "MAIL b@two.net", "RCPT two@z.net", "RCPT bad@x.net", "RCPT pat@z.net", "RCPT acc@z.net", "DATA", "BODY Subject: two\n\ntwo\n", "MAIL c@two.net", "RCPT nodata@z.net", "DATA", "RSET", "MAIL ", "RCPT two@z.net", "DATA", "BODY x\n", "QUIT"},
	{"EHLO three.net", "STARTTLS", "EHLO tls.three.net", "MAIL pat@z.net", "RCPT one@z.net", "DATA", "BODY Subject: three\n\n3\n", "QUIT"},
	{"EHLO h.bad-Y.net", "EHLO four.net", "TLSFAIL"},
}

type c09 struct {
	w    *W
	seq  int
	read map[string][]ref.Rule
}

func (x *c09) rules(v string) []ref.Rule {
	if r := x.read[v]; r != nil {
		return r
	}
	r, vd, why, _ := ref.Read(c09Rules(v), nil)
	if vd != ref.Good {
		panic(why)
	}
	x.read[v] = r
	return r
}

// script gives script i with an address of its own.
func (x *c09) script(i int) script {
	x.seq++
	return script{Raddr: hostport(ipAddr(x.seq)), Laddr: fmt.Sprintf("192.0.2.%d:25", 1+i), Cmds: cl(c09Scripts[i]...)}
}

// check compares the sessions' replies, files and log lines with the model.
// vers[i] has the versions of the rules that session i may have used.
func (x *c09) check(desc string, ls []*live, vers [][]string) {
	w := x.w
	w.Res.Traces++
	w.Res.Evals++
	fail := func(f string, a ...any) {
		w.Fail(desc, "%s\n  in: %s", fmt.Sprintf(f, a...), desc)
	}
	w.D.Saved = map[string]ref.Saved{}
	w.D.Logged = nil
	base := w.D.NConn
	for i, l := range ls {
		why := ""
		for _, v := range vers[i] {
			// each attempt starts from the same model
			saved, logged := w.D.Saved, w.D.Logged
			w.D.Saved = map[string]ref.Saved{}
			for k, s := range saved {
				w.D.Saved[k] = s
			}
			w.D.NConn = base + i
			m := w.D.Connect(l.Raddr, l.Laddr, ref.SessOpt{Rules: x.rules(v)})
			why = w.replies(l, m)
			if why == "" {
				break
			}
			w.D.Saved, w.D.Logged = saved, logged
		}
		if why != "" {
			fail("%s (with rules %v)", why, vers[i])
			break
		}
	}
	for _, p := range vrt.Panics() {
		fail("the server panicked: %s", p)
	}
	want := map[string]string{}
	for k, s := range w.D.Saved {
		want[k] = s.Content
	}
	if d := diffFiles(want, dirFiles("save", "save1", "save2")); d != "" {
		fail("%s", d)
	}
	got := strings.Split(strings.TrimSuffix(readFile("msg.log"), "\n"), "\n")
	if got[0] == "" {
		got = nil
	}
	exp := append([]string(nil), w.D.Logged...)
	sort.Strings(got)
	sort.Strings(exp)
	if a, b := strings.Join(got, "\n"), strings.Join(exp, "\n"); a != b {
		fail("the message log has\n%s\ninstead of\n%s", a, b)
	}
	// The SMTP log: each session's lines must be about that session.
	for _, line := range strings.Split(readFile("smtp.log"), "\n") {
		for i, l := range ls {
			id := fmt.Sprintf("%d/%d", w.D.Pid, base+1+i)
			if !strings.Contains(line, id+"]") && !strings.Contains(line, id+" ") {
				continue
			}
			for _, v := range []string{"X", "Y"} {
				if strings.Contains(line, "note"+v) && !has(vers[i], v) {
					fail("the SMTP log of session %d has a note of the rules %s: %s", i, v, line)
				}
			}
			for j, o := range ls {
				if j != i && strings.Contains(line, strings.Split(o.Raddr, ":")[0]) && strings.Split(o.Raddr, ":")[0] != strings.Split(l.Raddr, ":")[0] {
					fail("the SMTP log of session %d mentions the address of session %d: %s", i, j, line)
				}
			}
		}
	}
	w.D.NConn = base + len(ls)
	x.clean()
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (x *c09) clean() {
	for _, d := range []string{"save", "save1", "save2"} {
		clearDir(d)
	}
	truncate("msg.log")
	truncate("smtp.log")
}

// Sessions one after the other or one within another: nothing of one may be
// left for the next.
const c09SeqRules = `@connect set-with host .one.net with note "from one"
@helo set-with helo notls.net with tls-opt off
@helo set-with helo nocert.net with tls-opt no-client
@helo reject helo bad.net with message "helo refused"
@from reject from yak@x.net with make-yakker message "marked"
@from set-with from a@one.net with savedir save1 note "saved elsewhere"
@from reject from <> with message "no bounces"
@from reject from-has baddom with message "bad domain"
@from set-with tls on with note "tls is on"
@to reject to file:pats with message "topat"
@to reject tls off to tls@z.net with message "only with TLS"
@message reject to rej@z.net with message "message refused"
`

func c09Kinds() (names []string, kinds [][]vrt.Cmd) {
	cert := &vrt.TLSOutcome{Version: 0x304, Cipher: 0x1301, ServerName: "sni.net", PeerCert: &x509.Certificate{Subject: pkix.Name{CommonName: "peer.net"}}, ChainVerify: true}
	add := func(n string, l ...string) {
		c := cl(l...)
		for i := range c {
			if c[i].Verb == "STARTTLS" && strings.HasSuffix(n, "cert") {
				c[i].TLS = cert
			}
		}
		names, kinds = append(names, n), append(kinds, c)
	}
	add("message", "EHLO h.net", "MAIL m@x.net", "RCPT r@z.net", "RCPT tls@z.net", "DATA", "BODY Subject: x\n\nx\n", "QUIT")
	add("nothing", "QUIT")
	add("tls with cert", "EHLO c.net", "STARTTLS", "EHLO c2.net", "MAIL m@x.net", "RCPT tls@z.net", "DATA", "BODY x\n", "QUIT")
	add("tls failure", "EHLO h.net", "TLSFAIL")
	add("marked", "EHLO h.net", "MAIL yak@x.net")
	add("other savedir", "HELO s.net", "MAIL a@one.net", "RCPT p@z.net", "RCPT pat@z.net", "DATA", "BODY y\n")
	add("no tls", "EHLO notls.net", "STARTTLS", "MAIL q@x.net", "RSET", "QUIT")
	add("refused bounce", "EHLO bad.net", "EHLO b.net", "MAIL ", "RCPT r@z.net", "QUIT")
	add("no cert with cert", "EHLO nocert.net", "STARTTLS", "EHLO nocert.net", "MAIL l@x.net", "RCPT rej@z.net", "DATA", "BODY z\n", "QUIT")
	add("bad domain", "EHLO d.net", "MAIL e@nodom.net", "QUIT")
	return
}

func (x *c09) sequences(depth int) {
	w := x.w
	names, kinds := c09Kinds()
	rs, v, why, _ := ref.Read(c09SeqRules, nil)
	if v != ref.Good {
		panic(why)
	}
	nw := w.D.W
	nw.MX, nw.PTR, nw.A = map[string][]ref.MX{}, map[string][]string{}, map[string][]string{}
	for _, d := range []string{"x.net", "one.net", "z.net"} {
		nw.A[d] = []string{"8.8.8.8"}
	}
	type kind struct{ k, ip int }
	var all []kind
	for k := range kinds {
		all = append(all, kind{k, 0}, kind{k, 1})
	}
	var ip [2]string
	fresh := func() {
		clear(nw.PTR)
		for i := range ip {
			delete(nw.A, "c.one.net")
			x.seq++
			ip[i] = ipAddr(x.seq)
		}
		// the first address has a name
		nw.PTR[ip[0]] = []string{"c.one.net."}
		nw.A["c.one.net"] = []string{ip[0]}
		clear(w.D.Saved)
		w.D.Logged = nil
		x.clean()
	}
	files := func(desc string) {
		want := map[string]string{}
		for k, s := range w.D.Saved {
			want[k] = s.Content
		}
		if d := diffFiles(want, dirFiles("save", "save1", "save2")); d != "" {
			w.Fail(desc, "%s\n  in: %s", d, desc)
		}
		if got, want := readFile("msg.log"), strings.Join(append(w.D.Logged, ""), "\n"); got != want {
			w.Fail(desc, "the message log has\n%s\ninstead of\n%s\n  in: %s", got, want, desc)
		}
	}
	run := func(t *Trace, cmds []vrt.Cmd) {
		for _, c := range cmds {
			if t.bad || t.S.Closed {
				break
			}
			if c.Verb == "BODY" && !t.M.InData() {
				continue
			}
			e, _ := t.DoCmd(c)
			w.Outcome(fmt.Sprintf("%s %dxx", c.Verb, e.Class))
		}
	}
	open := func(desc string, k kind) *Trace {
		return w.Session(desc, hostport(ip[k.ip]), "192.0.2.1:25", ref.SessOpt{Rules: rs})
	}
	name := func(ks []kind) string {
		var l []string
		for _, k := range ks {
			l = append(l, fmt.Sprintf("%s from address %d", names[k.k], k.ip))
		}
		return strings.Join(l, "; ")
	}
	if w.Par["nested"] == "" {
		w.seqs(len(all), depth, func(ix []int) {
			w.Res.Evals++
			fresh()
			var ks []kind
			for _, i := range ix {
				ks = append(ks, all[i])
			}
			desc := "sessions one after the other: " + name(ks)
			for _, k := range ks {
				t := open(desc, k)
				run(t, kinds[k.k])
				t.Close()
			}
			files(desc)
			w.State("seq", desc)
		})
		return
	}
	// session a stops after each of its commands, b runs, a goes on, and then
	// there is a message from each address
	for _, a := range all {
		for _, b := range all {
			for cut := 0; cut <= len(kinds[a.k]); cut++ {
				if !w.Mine() || w.Over() {
					continue
				}
				w.Res.Evals++
				fresh()
				desc := fmt.Sprintf("session 0 (%s) stops after %d commands; session 1 (%s) runs; session 0 goes on; then a message from each address", name([]kind{a}), cut, name([]kind{b}))
				t := open(desc, a)
				run(t, kinds[a.k][:cut])
				u := open(desc, b)
				run(u, kinds[b.k])
				u.Close()
				if !t.bad {
					run(t, kinds[a.k][cut:])
				}
				t.Close()
				for i := range ip {
					t := open(desc, kind{0, i})
					run(t, kinds[0])
					t.Close()
				}
				files(desc)
				w.State("nested", desc)
			}
		}
	}
}

// c09Counts has sessions that are open at the same time with rules of different
// versions, for all numbers of base rules and of rules in one or two files.
func c09Counts(w *W) {
	b := w.Par["base"]
	conf := ref.Conf{NoStd: !strings.Contains(b, "S"), M: strings.Contains(b, "M")}
	nw := newWorld()
	nw.Files = map[string][]string{}
	file := func(l, name, text string) string {
		if !strings.Contains(b, l) {
			return ""
		}
		writeFile(name, text+"\n")
		nw.Files[name] = []string{text}
		return name
	}
	conf.FromReject = file("F", "fr", "fr@x.net")
	conf.ToAccept = file("T", "ta", "@z.net")
	conf.HeloReject = file("H", "hr", "hr.net")
	const most = 5
	text := func(v string, first, n int) string {
		var o strings.Builder
		for i := first; i < first+n; i++ {
			fmt.Fprintf(&o, "reject to p%d@z.net with message %s%d\n", i, v, i)
		}
		return o.String()
	}
	w.Rules("")
	writeFile("rules2", "")
	w.Start(conf, "-r", "rules,rules2")
	w.UseWorld(nw)
	seconds := []int{0, 1, 2}
	for na := 0; na <= most; na++ {
		for nb := 0; nb <= most; nb++ {
			for _, ma := range seconds {
				for _, mb := range seconds {
					if !w.Mine() || w.Over() {
						continue
					}
					w.Res.Evals++
					desc := fmt.Sprintf("base rules %q; session 0 has %d and %d rules in its files, session 1 has %d and %d, session 2 again those of session 0, all open at the same time", b, na, ma, nb, mb)
					w.Cur(desc)
					var ts []*Trace
					for k, v := range []string{"X", "Y", "Z"} {
						n, m := na, ma
						if k == 1 {
							n, m = nb, mb
						}
						one, two := text(v, 0, n), text(v, n, m)
						w.Rules(one)
						writeFile("rules2", two)
						rs, g, why, _ := ref.Read(one+two, nil)
						if g != ref.Good {
							panic(why)
						}
						ts = append(ts, w.Session(desc, hostport(ipAddr(k+1)), local, ref.SessOpt{Rules: rs}))
					}
					for _, t := range ts {
						t.Do("EHLO", "h.net")
						t.Do("MAIL", "a@x.net")
					}
					for i := 0; i <= most+2; i++ {
						for _, t := range ts {
							t.Do("RCPT", fmt.Sprintf("p%d@z.net", i))
						}
					}
					for _, t := range ts {
						t.Do("QUIT", "")
						t.Close()
						w.State("counts", b, fmt.Sprint(na, nb, ma, mb), t.M.Key())
					}
				}
			}
		}
	}
}

func runC09(w *W) {
	if w.Name == "counts" {
		c09Counts(w)
		return
	}
	makeCerts(1)
	x := &c09{w: w, read: map[string][]ref.Rule{}}
	for _, d := range []string{"save", "save1", "save2"} {
		clearDir(d)
	}
	w.Rules(c09Rules("X"))
	writeFile("pats", "pat@z.net\n")
	conf := ref.Conf{NoStd: true, Dir: "save", TLS: true, Log: true, SMTPLog: true}
	if w.Par["std"] != "" {
		writeFile("fr", "fr@x.net\n")
		writeFile("hr", "hr.net\n")
		conf.NoStd, conf.FromReject, conf.HeloReject, conf.DN = false, "fr", "hr", 2
	}
	if w.Name == "sequences" {
		conf.NoStd, conf.DN, conf.MinPhase = true, 2, "from"
		w.Rules(c09SeqRules)
	}
	w.Start(conf, "-r", "rules")
	nw := newWorld()
	nw.Files = map[string][]string{"pats": {"pat@z.net"}, "fr": {"fr@x.net"}, "hr": {"hr.net"}}
	w.UseWorld(nw)
	n := len(c09Scripts)
	switch w.Name {
	case "sequences":
		x.sequences(pick(w.Tier, 3, 4))
	case "commands":
		// all interleavings of the commands of two sessions
		depth := 5
		if w.Tier == "thorough" {
			depth = 7
		}
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				a, b := len(c09Scripts[i]), len(c09Scripts[j])
				// the first commands run in order; the rest interleave
				ra, rb := min(a, depth), min(b, depth)
				for _, fa := range []int{0, a - ra} {
					for _, fb := range []int{0, b - rb} {
						merges([]int{ra, rb}, func(o []int) {
							if !w.Mine() || w.Over() {
								return
							}
							x.merge(i, j, fa, fb, o)
						})
						if b == rb {
							break
						}
					}
					if a == ra {
						break
					}
				}
			}
		}
	case "points":
		// one session stopped at every point while another one runs
		for i := 0; i < n; i++ {
			np := 0
			for j := 0; j < n; j++ {
				for k := 0; np == 0 || k <= np; k++ {
					if k > 0 && (!w.Mine() || w.Over()) {
						continue
					}
					w.Rules(c09Rules("X"))
					ss := []script{x.script(i), x.script(j)}
					desc := fmt.Sprintf("session 0 (%v) stops after %d points; session 1 (%v) runs; session 0 goes on", ss[0], k, ss[1])
					w.Cur(desc)
					ls, _ := w.schedule(false, pick(w.Tier, 2, 8), ss, []seg{{G: 0, N: k}, {G: 1, N: -1}, {G: 0, N: -1}})
					w.State("points", w.Par["std"], fmt.Sprint(i, j, k))
					if np == 0 {
						np = int(ls[0].G.Count)
						w.Res.Max["points in a session"] = max(w.Res.Max["points in a session"], int64(np))
					}
					x.check(desc, ls, [][]string{{"X"}, {"X"}})
				}
			}
		}
	case "shared":
		// two preemptions, at statements with package level state
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				a, b := 0, 0
				for k := 0; a == 0 || k <= a; k++ {
					for h := 1; b == 0 || h <= b; h++ {
						if a != 0 && (!w.Mine() || w.Over()) {
							continue
						}
						ss := []script{x.script(i), x.script(j)}
						desc := fmt.Sprintf("session 0 (%v) stops after %d shared points; session 1 (%v) stops after %d; session 0 goes on, then session 1", ss[0], k, ss[1], h)
						w.Cur(desc)
						ls, _ := w.schedule(true, pick(w.Tier, 1, 3), ss, []seg{{G: 0, N: k}, {G: 1, N: h}, {G: 0, N: -1}, {G: 1, N: -1}})
						if a == 0 {
							a, b = int(ls[0].G.Count), int(ls[1].G.Count)
							w.Res.Max["shared points in a session"] = max(w.Res.Max["shared points in a session"], int64(a))
						}
						w.State("shared", w.Par["std"], fmt.Sprint(i, j, k, h))
						x.check(desc, ls, [][]string{{"X"}, {"X"}})
					}
				}
			}
		}
	case "rules":
		// the rules change while session 0 is stopped; session 1 sees the new ones
		for i := 0; i < n; i++ {
			np := 0
			for j := 0; j < n; j++ {
				for k := 0; np == 0 || k <= np; k++ {
					if k > 0 && (!w.Mine() || w.Over()) {
						continue
					}
					w.Rules(c09Rules("X"))
					ss := []script{x.script(i), x.script(j)}
					desc := fmt.Sprintf("session 0 (%v) stops after %d points; the rules change from X to Y; session 1 (%v) connects and runs; session 0 goes on", ss[0], k, ss[1])
					w.Cur(desc)
					ls, _ := w.schedule(false, pick(w.Tier, 2, 8), ss, []seg{{G: 0, N: k}, {G: 1, N: -1, Before: func() { w.Rules(c09Rules("Y")) }}, {G: 0, N: -1}})
					w.State("rules", w.Par["std"], fmt.Sprint(i, j, k))
					if np == 0 {
						np = int(ls[0].G.Count)
					}
					x.check(desc, ls, [][]string{{"X", "Y"}, {"Y"}})
				}
			}
		}
	case "race":
		for r := 0; r < 60; r++ {
			w.Rules(c09Rules("X"))
			var ls []*live
			var vers [][]string
			d := fmt.Sprintf("free run %d of 12 sessions", r)
			w.Cur(d)
			for i := 0; i < 12; i++ {
				ls = append(ls, w.goClient(x.script((i+r)%n)))
				vers = append(vers, []string{"X"})
			}
			w.join(ls)
			w.State("race", w.Par["std"], fmt.Sprint(r))
			x.check(d, ls, vers)
		}
	}
}

// merge runs two sessions command by command; the first fa and fb commands run
// before, the rest interleaved as in o, and what is left afterwards.
func (x *c09) merge(i, j, fa, fb int, o []int) {
	w := x.w
	ss := []script{x.script(i), x.script(j)}
	desc := fmt.Sprintf("%v | %v | commands in the order %v after %d and %d", ss[0], ss[1], o, fa, fb)
	w.Cur(desc)
	ls := []*live{{script: ss[0]}, {script: ss[1]}}
	sess := []*S{nil, nil}
	at := []int{0, 0}
	for k := range ls {
		s, out := w.Open(0, ls[k].Raddr, ls[k].Laddr)
		sess[k] = s
		ls[k].Outs = []Out{out}
	}
	step := func(k int) {
		if at[k] < len(ls[k].Cmds) && !sess[k].Closed {
			ls[k].Outs = append(ls[k].Outs, sess[k].Do(ls[k].Cmds[at[k]]))
			at[k]++
		}
	}
	for a := 0; a < fa; a++ {
		step(0)
	}
	for a := 0; a < fb; a++ {
		step(1)
	}
	for _, k := range o {
		step(k)
	}
	for k := range ls {
		for at[k] < len(ls[k].Cmds) && !sess[k].Closed {
			step(k)
		}
		sess[k].End()
	}
	w.State("commands", fmt.Sprint(i, j, fa, fb, o))
	x.check(desc, ls, [][]string{{"X"}, {"X"}})
}

func init() {
	register(&Check{ID: "C09", Level: "model_checking", Run: runC09,
		Plan: func(tier string) []Job {
			l := []Job{{Name: "race", Build: "race"}, {Name: "race", Build: "race", Par: map[string]string{"std": "1"}}}
			l = append(l, shards(8, Job{Name: "commands"})...)
			l = append(l, shards(8, Job{Name: "sequences", Budget: pick(tier, 0, 1800)})...)
			l = append(l, shards(4, Job{Name: "sequences", Par: map[string]string{"nested": "1"}})...)
			for i := 0; i < 32; i++ {
				b := ""
				for k, c := range "SMFTH" {
					if i>>k&1 != 0 {
						b += string(c)
					}
				}
				l = append(l, Job{Name: "counts", Par: map[string]string{"base": b}})
			}
			for _, p := range []map[string]string{{}, {"std": "1"}} {
				l = append(l, shards(8, Job{Name: "rules", Build: "sched", Par: p})...)
				l = append(l, shards(8, Job{Name: "points", Build: "sched", Par: p})...)
				if tier == "thorough" || len(p) > 0 {
					l = append(l, shards(8, Job{Name: "shared", Build: "sched", Par: p, Budget: pick(tier, 100, 3600)})...)
				}
			}
			return l
		},
		Rule: "every sequence of sessions of 10 kinds from two addresses, and one within another; three sessions at once whose rules are of different versions, for every set of options that make rules and every number of rules in two files; all interleavings of the commands of two sessions; every statement of one session as the point at which another session runs from beginning to end, with and without a rules change in between; two preemptions at all statements with package level state; replies, saved files and log lines compared with a model of each session on its own; free runs under the race detector; state = schedule",
		Bounds: func(tier string) string {
			return pick(tier, "sequences of 3 sessions; 32 sets of options, up to 5 and 2 rules; 2 sessions of up to 17 commands, 4 scripts; windows of 5 commands interleaved; each statement's first 2 executions (1 for two preemptions)", "sequences of 4 sessions; windows of 7 commands interleaved; each statement's first 8 executions (3 for two preemptions)")
		},
	})
}
