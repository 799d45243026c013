package checks

import (
	"fmt"
	"strings"
	"syscall"
	"testing/synctest"

	"verif/ref"
	"verif/vrt"
)

// C07: reading rules files.

var c07Inc = map[string]string{"inc": "reject helo inc.net\n", "./inc2": "# nothing\n\n", "badinc": "reject helo\n", "inc3": "stall from inc@x.net\ninclude inc"}

func init() {
	for k := 1; k <= 10; k++ {
		t := fmt.Sprintf("reject helo m%d.net\ninclude n%d\nstall helo n%d.net", k, k-1, k)
		if k == 1 {
			t = "@from reject helo n1.net\n"
		}
		c07Inc[fmt.Sprintf("n%d", k)] = t
	}
}

func c07Include(fn string) (string, bool) {
	s, ok := c07Inc[strings.TrimPrefix(fn, "file:")]
	if strings.HasPrefix(fn, "file:") {
		return "", false // include takes plain file names
	}
	return s, ok
}

func opArgs(e ref.Expr, f func(string)) {
	switch x := e.(type) {
	case ref.And:
		for _, y := range x {
			opArgs(y, f)
		}
	case ref.Or:
		opArgs(x.L, f)
		opArgs(x.R, f)
	case ref.Not:
		opArgs(x.X, f)
	case ref.Op:
		f(x.Arg)
	}
}

// grammar checks that a text is read as the reference reader reads it.
func (w *W) grammar(text string, full bool) {
	rs, v, why, _ := ref.Read(text, c07Include)
	w.Res.Evals++
	w.Outcome(v.String() + " " + why)
	w.Rules(text)
	pre := fmt.Sprintf("rules file %q, which must be %v (%s)", text, v, why)
	if v == ref.DontCare {
		// Whatever it means, it must be read to an end.
		w.Cur(pre)
		w.D.NConn++
		w.Res.Traces++
		s, o := w.Open(0, client, local)
		if o.Err == nil && !o.Closed {
			o = s.Do(vrt.Cmd{Verb: "EHLO", Arg: "h.net"})
		}
		if o.Err != nil {
			w.Fail(text, "%v with %s", o.Err, pre)
		}
		s.End()
		for _, p := range vrt.Panics() {
			w.Fail(text, "the server panicked: %s\n  with %s", p, pre)
		}
		return
	}
	t := w.Session(pre, client, local, ref.SessOpt{Rules: rs, RulesBad: v == ref.Bad})
	w.State(text)
	if v == ref.Bad || t.M.Dropped {
		t.Do("EHLO", "h.net")
		t.Close()
		return
	}
	names := []string{"h.net"}
	seen := map[string]bool{"h.net": true}
	for _, r := range rs {
		for _, c := range r.Cl {
			opArgs(c.E, func(a string) {
				if !seen[a] && len(names) < 4 {
					seen[a] = true
					names = append(names, a)
				}
			})
		}
	}
	okHelo := ""
	for _, n := range names {
		if e, _ := t.Do("EHLO", n); e.Class == 2 {
			okHelo = n
		}
	}
	if !full || t.bad || okHelo == "" {
		t.Close()
		return
	}
	t.Do("EHLO", okHelo)
	froms := []string{"s@x.net"}
	for _, n := range names[1:] {
		froms = append(froms, n)
	}
	got := false
	for _, f := range froms {
		if e, _ := t.Do("MAIL", f); e.Class == 2 {
			got = true
			for _, r := range froms {
				t.Do("RCPT", strings.Replace(r, "s@x.net", "r@z.net", 1))
			}
			t.Do("DATA", "")
			if t.M.State() == 4 { // in the message
				break
			}
			t.Do("RSET", "")
		}
	}
	_ = got
	if t.M.State() == 4 && !strings.Contains(text, "savedir") {
		t.Do("BODY", "x")
	}
	t.Close()
}

func runC07(w *W) {
	for n, s := range c07Inc {
		writeFile(n, s)
	}
	w.Rules("")
	w.Start(ref.Conf{NoStd: true}, "-r", "rules")
	w.UseWorld(&ref.World{})
	n := 0
	fmt.Sscan(w.Par["n"], &n)
	switch w.Name {
	case "bytes":
		tmpl := w.Par["tmpl"]
		alpha := split("a\"\\\n #,;(")
		alpha = append(alpha, ")", "\t")
		var rec func(s string, d int)
		rec = func(s string, d int) {
			if w.Over() {
				return
			}
			if w.Mine() {
				w.grammar(strings.Replace(tmpl, "S", s, 1), false)
			}
			if d < n {
				for _, a := range alpha {
					rec(s+a, d+1)
				}
			}
		}
		rec("", 0)
	case "quotes":
		// quoted values
		for _, s := range words([]string{"a", "\\", "\"", "\n", " "}, n) {
			if w.Mine() && !w.Over() {
				w.grammar(strings.Replace(w.Par["tmpl"], "S", s, 1), false)
			}
		}
	case "pieces":
		alpha := []string{"reject", "helo", "a", " ", "\n", "\\\n", "\"", ";", "#", "(", ")", "all", "not", "or", "file:x", "with message m"}
		if w.Tier != "thorough" {
			alpha = alpha[:15]
		}
		var rec func(s string, d int)
		rec = func(s string, d int) {
			if w.Over() {
				return
			}
			if w.Mine() {
				w.grammar(w.Par["pre"]+s, false)
			}
			if d < n {
				for _, a := range alpha {
					rec(s+a, d+1)
				}
			}
		}
		rec("", 0)
	case "tokens":
		toks := []string{"@helo", "@from", "accept", "reject", "stall", "set-with", "or", "not", "(", ")", ";", "\n", "with", "message m",
			"note n", "make-yakker", "tls-opt off", "savedir d", "all", "helo a.net", "from f@x.net", "to t@z.net", "tls off", "include inc", "x"}
		tight := func(seq []string) string {
			var b strings.Builder
			for i, t := range seq {
				if i > 0 && !strings.Contains("();\n", t) && !strings.Contains("();\n", seq[i-1]) {
					b.WriteByte(' ')
				}
				b.WriteString(t)
			}
			return b.String()
		}
		var rec func(seq []string)
		rec = func(seq []string) {
			if w.Over() {
				return
			}
			text := strings.Join(seq, " ")
			_, v, _, end := ref.Read(text, c07Include)
			mine := w.Mine()
			if mine {
				w.grammar(text, true)
				if t := tight(seq); t != text {
					w.grammar(t, true)
				}
			}
			if v == ref.DontCare {
				return
			}
			if v == ref.Bad && !end {
				if mine {
					w.grammar(text+" all", false)
					w.grammar(text+" ) all with note y\nreject helo c.net", false)
				}
				return
			}
			if len(seq) < n {
				for _, t := range toks {
					rec(append(seq[:len(seq):len(seq)], t))
				}
			}
		}
		rec(nil)
	case "args":
		ops := strings.Fields("from to helo ehlo host source ip dnsbl tls from-has to-has helo-has dns dbl all not or")
		withs := strings.Fields("message note savedir tls-opt make-yakker")
		args := append([]string(nil), ref.Keywords...)
		for _, k := range ref.Keywords {
			args = append(args, `"`+k+`"`)
		}
		args = append(args, "", "x", "\n", `""`, `" "`, `"a b"`, `"a`, `a"b`, `"a\"b"`, `"a\\"`, `"a\b"`, `"a\`, "/no/such", "./none", "file:", "file:none", `"file:"`, `"./none"`, "1.2.3.4", "1.2.3.4/8", "::1", "::/0", "1.2.3",
			`"1.2.3.4"`, "1.2.3.4/33", "a.b", "a.b.", ".", `"a.b"`, "host,helo", "host a.b", "helo,from a.b", "any a.b", "any,host x", "from", "(", ")", ",", ";", "#", "\\", "\\\n", "\\\nx", "a\\\n", "@to", "<>", "\"x\ny\"", "no-client", "on,off", "bad,", "bad, route", "bad ,route", "bad,,route", ",bad", "bad,route", "é", "\x00", "\xff", "\r", "x\r", strings.Repeat("x", 70000))
		for _, o := range ops {
			for _, a := range args {
				for _, f := range []string{"reject %s %s", "@data reject %s %s\n", "reject not %s %s with message m", "reject ( %s %s ) helo b.net\n", "reject helo c.net or %s %s ; all with note x"} {
					if w.Mine() {
						w.grammar(fmt.Sprintf(f, o, a), true)
					}
				}
			}
		}
		for _, o := range withs {
			for _, a := range args {
				for _, f := range []string{"reject helo c.net with %s %s", "set-with all with note m %s %s\n", "reject to b@z.net with %s %s message m\n", "reject helo c.net with %s %s ; helo d.net"} {
					if w.Mine() {
						w.grammar(fmt.Sprintf(f, o, a), true)
					}
				}
			}
		}
		for _, a := range append(args, "inc", "./inc2", "badinc", "inc3", `"inc"`, "file:inc", "missing", "inc inc", "inc#", "inc #x") {
			for _, f := range []string{"include %s", "include %s\nreject helo a.net\n", "reject helo a.net\ninclude %s\nreject helo b.net", "@helo include %s\n", "reject include %s\n", "reject all\ninclude %s\n\n", "include inc\ninclude %s\n"} {
				if w.Mine() {
					w.grammar(fmt.Sprintf(f, a), true)
				}
			}
		}
		// lists of attributes
		for _, o := range []string{"from-has", "to-has", "helo-has", "dns", "dbl"} {
			for _, s := range words([]string{",", " ", "bad", "none", "helo", "good", "any", "x", "\n", "d.net", "\""}, pick(w.Tier, 4, 5)) {
				if w.Mine() {
					w.grammar("reject "+o+" "+s+" helo a.net", false)
				}
			}
		}
	case "big":
		if w.Shard != 0 {
			return
		}
		// Files that include themselves or each other: the rules must be refused
		// before files run out.
		opens, cur := 0, ""
		vrt.FSHook = func(op vrt.Op) vrt.Verdict {
			if op.Kind == "open" {
				if opens++; opens > 1000 {
					if opens == 1001 {
						w.Fail("self-include", "a rules file that includes itself is read without end: 1000 files were opened for one connection, with %s", cur)
					}
					return vrt.Verdict{Err: syscall.EMFILE}
				}
			}
			return vrt.Verdict{}
		}
		writeFile("mutual", "include rules\n")
		writeFile("mutual2", "include mutual2\n")
		for _, t := range []string{"include rules", "reject helo a.net\ninclude rules\nreject helo b.net\n", "include mutual\n", "include ./rules", "include rules\ninclude rules\n", "include inc\ninclude mutual", "include mutual2", "reject helo a.net; \\\nhelo b.net\n\ninclude \"rules\"\n"} {
			opens = 0
			cur = t
			w.grammar(t, false)
		}
		synctest.Wait()
		vrt.FSHook = nil
		for k := 10; k > 0; k-- {
			w.grammar(fmt.Sprintf("include n%d", k), true)
			w.grammar(fmt.Sprintf("reject helo a.net\ninclude n%d\ninclude n%d\nreject helo b.net", k, k), true)
		}
		for _, k := range []int{1, 100, 2000} {
			w.grammar("reject "+strings.Repeat("( ", k)+"helo a"+strings.Repeat(" )", k), false)
			w.grammar("reject "+strings.Repeat("( ", k)+"helo a"+strings.Repeat(" )", k-1), false)
			w.grammar("reject "+strings.Repeat("not ", k)+"helo a", false)
			w.grammar("reject "+strings.Repeat("not ", k), false)
			w.grammar("reject helo a"+strings.Repeat(" or helo b", k), false)
			w.grammar("reject helo a"+strings.Repeat(" helo a", k), false)
			w.grammar("reject helo a"+strings.Repeat(" ;\nhelo b", k), false)
			w.grammar(strings.Repeat("reject helo a\n", k)+"reject helo b", false)
			w.grammar(strings.Repeat("\n# x\n", k)+"reject helo b", false)
			w.grammar(strings.Repeat("\\\n", k)+"reject helo b", false)
			w.grammar("reject "+strings.Repeat("\\\n", k)+"helo b", false)
			w.grammar("reject helo \""+strings.Repeat("\\\"", k)+"\"", false)
			w.grammar("reject helo \""+strings.Repeat("\\\"", k), false)
			w.grammar("reject helo \""+strings.Repeat("\n", k)+"\"", false)
			w.grammar(strings.Repeat("include inc\n", k)+"reject helo b", false)
		}
	}
}

func init() {
	register(&Check{ID: "C07", Level: "model_checking", Run: runC07,
		Plan: func(tier string) []Job {
			p := func(kv ...string) map[string]string {
				m := map[string]string{}
				for i := 0; i < len(kv); i += 2 {
					m[kv[i]] = kv[i+1]
				}
				return m
			}
			b := pick(tier, 0, 2400)
			var l []Job
			l = append(l, shards(8, Job{Name: "tokens", Par: p("n", pick(tier, "5", "7")), Budget: b})...)
			l = append(l, shards(8, Job{Name: "bytes", Par: p("n", pick(tier, "5", "6"), "tmpl", "reject helo S"), Budget: b})...)
			l = append(l, shards(4, Job{Name: "bytes", Par: p("n", pick(tier, "4", "6"), "tmpl", "S\nreject helo a.net"), Budget: b})...)
			l = append(l, shards(4, Job{Name: "bytes", Par: p("n", pick(tier, "4", "6"), "tmpl", "reject helo b.net S\nreject helo a.net"), Budget: b})...)
			l = append(l, shards(8, Job{Name: "quotes", Par: p("n", pick(tier, "6", "8"), "tmpl", "reject helo \"S\"\nreject helo a.net\n"), Budget: b})...)
			l = append(l, shards(8, Job{Name: "quotes", Par: p("n", pick(tier, "6", "8"), "tmpl", "@helo reject all with message \"S\""), Budget: b})...)
			l = append(l, shards(8, Job{Name: "pieces", Par: p("n", pick(tier, "4", "6")), Budget: b})...)
			l = append(l, shards(4, Job{Name: "pieces", Par: p("n", pick(tier, "3", "5"), "pre", "reject helo b.net "), Budget: b})...)
			l = append(l, shards(4, Job{Name: "args"})...)
			l = append(l, shards(1, Job{Name: "big"})...)
			return l
		},
		Rule: "every rules text made of up to n tokens (a text that is refused before its end is extended by two completions only), of up to n bytes of an alphabet in three contexts, of up to n bytes of another within quotes in two contexts, or of up to n pieces, plus every operation x every kind of argument; the program's whole behaviour with the text is compared with the reference reader's; state = rules text",
		Bounds: func(tier string) string {
			return pick(tier, "<=5 tokens of 25, <=5/4/4 bytes of 11, <=6 bytes of 5 within quotes, <=4/3 pieces of 15, operations x 150 arguments x 5 contexts, nesting and repetition up to 2000", "<=7 tokens, <=6 bytes, <=8 within quotes, <=6/5 pieces (each up to a time budget)")
		},
		Assumptions: []string{"punctuation as an argument, white space before a comma in a list, and an option repeated after an empty value are not documented; for these only termination is checked", "includes nested more than ten deep are not enumerated, those of a file within itself apart"},
	})
}
