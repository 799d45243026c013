package checks

import (
	"fmt"
	"regexp"
	"strings"

	"verif/ref"
	"verif/vrt"
)

// C21: with options take effect exactly for the rules that matched.

var c21Alpha = []string{
	`set-with all with message "msg1"`,
	`set-with from b@x.net with message "msg2" note "note2"`,
	`set-with from b@x.net with note note3 savedir save1`,
	`set-with from nosuch@x.net with message "msg4" note note4 savedir save2`,
	"set-with from b@x.net with message \"msg5\" note note5;\n\tall with message \"msg6\" savedir save2;\n\tfrom a@x.net with note note6",
	"set-with helo nosuch.net with note note7;\n\tto t@z.net with message \"msg8\" note note8 savedir save1",
	`reject to r@z.net`,
	"reject to r@z.net with message \"msg9\" note note9;\n\tfrom b@x.net to s@z.net with message \"msg10\nand msg10\"",
	"stall to s@z.net with message \"msg11\n\n more msg11\n\" note note11",
	`accept to t@z.net with message "msg12" note note12`,
	`@message reject to t@z.net with message "msg13"`,
	"@message accept from b@x.net with message \"msg14\nmsg14\" note note14",
	`@data set-with all with note note15`,
	`@from stall from a@x.net with message "msg16" savedir save1`,
	"stall from <> with message \"msg19\nand msg19\" note note19",
	`@helo set-with all with message "msg17" note note17`,
	`@connect accept all with note note18 message "msg18"`,
}

var c21Sessions = [][]string{
	{"EHLO h.net", "MAIL b@x.net", "RCPT r@z.net", "RCPT s@z.net", "RCPT t@z.net", "DATA", "BODY one\n"},
	{"HELO h.net", "MAIL a@x.net", "RSET", "MAIL c@x.net", "RCPT u@z.net", "RCPT r@z.net", "DATA", "BODY two\n", "MAIL b@x.net", "RCPT t@z.net", "RCPT u@z.net", "DATA", "BODY three\n"},
	{"EHLO h.net", "MAIL ", "RCPT r@z.net", "RCPT u@z.net", "DATA", "BODY four\n", "MAIL b@x.net", "RCPT t@z.net", "RCPT s@z.net", "RCPT u@z.net", "DATA", "BODY five\n"},
}

var (
	c21Tok  = regexp.MustCompile(`msg[0-9]+`)
	c21Note = regexp.MustCompile(`(?m)^(\S+).*! rule note: (.*)$`)
)

type c21 struct{ w *W }

func (x c21) run(text string, rs []ref.Rule, cmds []vrt.Cmd) {
	w := x.w
	w.Res.Evals++
	truncate("smtp.log")
	for _, d := range []string{"save", "save1", "save2"} {
		clearDir(d)
	}
	w.D.Saved = map[string]ref.Saved{}
	t := w.Session(fmt.Sprintf("rules %q", text), client, local, ref.SessOpt{Rules: rs})
	for _, c := range cmds {
		if t.bad || t.S.Closed {
			break
		}
		e, o := t.DoCmd(c)
		if t.bad {
			return
		}
		if c.Verb == "STARTTLS" && e.Class == 2 {
			if got := t.S.C.Info["clientauth"] != "0"; got != t.M.AskClient {
				t.fail("expected a client certificate to be asked for=%v, got %v", t.M.AskClient, got)
			}
		}
		w.Outcome(fmt.Sprintf("%s %dxx message %v", c.Verb, e.Class, e.Msg != ""))
		if len(o.R) > 0 {
			for _, tok := range c21Tok.FindAllString(strings.Join(o.R[len(o.R)-1].Lines, "\n"), -1) {
				if !strings.Contains(e.Msg, tok) {
					t.fail("the reply has %s of a rule that did not decide it: %v", tok, o)
				}
			}
			if e.Msg != "" && e.Phase < ref.Message && len(o.R[len(o.R)-1].Lines) != len(strings.Split(strings.TrimRight(e.Msg, "\n"), "\n")) {
				t.fail("the reply to %s has the wrong number of lines for message %q: %v", c.Verb, e.Msg, o)
			}
		}
		w.State(text, t.M.Key(), fmt.Sprint(t.M.Notes))
	}
	t.Close()
	var notes []string
	for _, m := range c21Note.FindAllStringSubmatch(readFile("smtp.log"), -1) {
		if !strings.HasPrefix(m[1], t.M.ID) {
			t.fail("a note with the wrong id: %q", m[0])
		}
		notes = append(notes, m[2])
	}
	if a, b := fmt.Sprintf("%q", notes), fmt.Sprintf("%q", t.M.Notes); a != b {
		t.fail("the SMTP log has the rule notes %s instead of %s", a, b)
	}
	want := map[string]string{}
	for k, s := range w.D.Saved {
		want[k] = s.Content
	}
	if d := diffFiles(want, dirFiles("save", "save1", "save2")); d != "" {
		t.fail("%s", d)
	}
}

func runC21(w *W) {
	makeCerts(1)
	for _, d := range []string{"save", "save1", "save2"} {
		clearDir(d)
	}
	w.Rules("")
	conf := ref.Conf{NoStd: true, Dir: "save", SMTPLog: true, TLS: true}
	w.Start(conf, "-r", "rules")
	w.UseWorld(newWorld())
	x := c21{w}
	read := func(text string) []ref.Rule {
		rs, v, why, _ := ref.Read(text, nil)
		if v != ref.Good {
			panic(fmt.Sprintf("%q: %s", text, why))
		}
		return rs
	}
	switch w.Name {
	case "wide":
		one := func(text string, cmds ...string) {
			if w.Mine() && !w.Over() {
				w.Rules(text)
				x.run(text, read(text), cl(cmds...))
			}
		}
		all := []string{"EHLO h.net", "MAIL r@x.net", "RSET", "MAIL a@x.net", "RCPT r@z.net", "RCPT p@z.net", "DATA", "BODY x\n", "MAIL d@x.net", "RCPT p@z.net", "DATA", "RSET", "MAIL m@x.net", "RCPT p@z.net", "DATA", "BODY y\n"}
		rules := func(m string) string {
			m = quote(m)
			return "@from set-with from a@x.net with note " + m + "\n@from reject from r@x.net with message " + m + "\n@to stall to r@z.net with note " + m + " message " + m + "\n@data reject from d@x.net with message " + m +
				"\n@message reject from m@x.net with message " + m + "\n@message accept all with message " + m + "\n"
		}
		for _, c := range ascii() {
			s := string(c)
			for _, m := range []string{s, s + s, "a" + s + "b", s + "d " + s + "s", "100" + s, s + "!"} {
				if strings.TrimSpace(m) != "" {
					one(rules(m), all...)
				}
			}
		}
		for _, m := range []string{"%d%s%v", "%!s(MISSING)", "${x}", "`x`", "{{.}}", "\\n", "<b>", "%[1]s", "%*d", "250 ok", "550-no", "5.7.1 x", "."} {
			one(rules(m), all...)
		}
		for _, n := range sizes(70, pick(w.Tier, 520, 5100)) {
			if n == 0 {
				continue
			}
			one(rules(strings.Repeat("x", n)), all...)
			one(rules(strings.Repeat("word ", n)+"end"), all...)
			// lines; notes are one line each
			var l []string
			for i := 0; i < n; i++ {
				l = append(l, fmt.Sprintf("line %d", i))
			}
			m := quote(strings.Join(l, "\n"))
			one("@from reject from r@x.net with message "+m+"\n@to stall to r@z.net with message "+m+"\n@data reject from d@x.net with message "+m+"\n", all...)
			// set-with rules, of which the last that matches has its way
			var b strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "@from set-with from %s with message \"m%d\" note \"n%d\" savedir save%d\n", []string{"a@x.net", "m@x.net", "nobody@x.net"}[i%3], i, i, 1+i%2)
			}
			one(b.String()+"@to reject to r@z.net\n@message reject from m@x.net\n", all...)
			b.Reset()
			b.WriteString("@to reject")
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, " to no%d@z.net with message \"m%d\" note n%d;\n ", i, i, i)
			}
			one(b.String()+" to r@z.net with message \"last\" note last\n", all...)
		}
	case "lists":
		lists(c21Alpha, pick(w.Tier, 3, 4), func(l []string) {
			if !w.Mine() || w.Over() {
				return
			}
			text := strings.Join(l, "\n") + "\n"
			rs := read(text)
			w.Rules(text)
			for _, s := range c21Sessions {
				x.run(text, rs, cl(s...))
			}
		})
	case "messages":
		// every short message in every kind of reply
		for _, m := range words([]string{"a", "%d", "\n", " ", "\\\"", "\\\\"}, pick(w.Tier, 4, 5)) {
			if !w.Mine() || w.Over() {
				continue
			}
			if strings.Trim(m, " \n") == "" {
				continue // nothing to say
			}
			for _, r := range []string{"@from reject from r@x.net", "@from stall from s@x.net", "@from accept from t@x.net", "@to reject to r@z.net", "@to stall to s@z.net", "@to accept to t@z.net",
				"@data reject to d@z.net", "@data stall to e@z.net", "@data accept to f@z.net", "@message reject to g@z.net", "@message stall to h@z.net", "@message accept to i@z.net"} {
				a := r[strings.LastIndex(r, " ")+1:]
				text := fmt.Sprintf("%s with message \"%s\"\n", r, m)
				rs := read(text)
				w.Rules(text)
				s := cl("EHLO h.net", "MAIL "+a)
				if strings.HasSuffix(a, "z.net") {
					s = cl("EHLO h.net", "MAIL a@x.net", "RCPT "+a, "DATA", "BODY x\n")
				}
				x.run(text, rs, s)
			}
		}
	case "tls":
		alpha := []string{"set-with all with tls-opt off", "@connect set-with ip 198.51.100.7 with tls-opt no-client", "@connect set-with ip 198.51.100.8 with tls-opt off", "set-with not ip 198.51.100.7 with tls-opt off; all with note n",
			"@connect accept all with tls-opt off", "@connect accept all with tls-opt no-client", "@connect accept ip 198.51.100.8", "set-with ip 198.51.100.0/24 with tls-opt no-client; all with tls-opt off", "@connect stall all with tls-opt off", "@connect reject ip 198.51.100.8 with tls-opt off"}
		lists(alpha, pick(w.Tier, 4, 5), func(l []string) {
			if !w.Mine() || w.Over() {
				return
			}
			text := strings.Join(l, "\n") + "\n"
			rs := read(text)
			w.Rules(text)
			x.run(text, rs, cl("EHLO h.net", "STARTTLS", "EHLO h.net", "MAIL a@x.net"))
		})
	}
}

func init() {
	register(&Check{ID: "C21", Level: "model_checking", Run: runC21,
		Plan: func(tier string) []Job {
			b := pick(tier, 300, 5000)
			l := shards(8, Job{Name: "lists", Budget: b})
			l = append(l, shards(8, Job{Name: "messages", Budget: b})...)
			return append(l, shards(8, Job{Name: "tls", Budget: b})...)
		},
		Rule: "every list of rules over an alphabet of 17 rules with options (simple, compact, matching and not, of every phase) x three conversations; every short message text in every kind of reply; every list of rules with TLS options; replies, notes in the SMTP log, save directories, TLS offers and client certificate requests are compared with the reference model; state = rules and session state",
		Bounds: func(tier string) string {
			return pick(tier, "lists of 3 rules, messages of 4 symbols, 4 rules with TLS options", "lists of 4 rules, messages of 5 symbols, 5 rules with TLS options")
		},
	})
}
