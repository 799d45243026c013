package checks

import (
	"fmt"
	"os"
	"strings"

	"verif/ref"
	"verif/vrt"
)

// The "recipients" jobs: rules about recipients after RCPT TO, with several of
// them; clauses and pattern files are tried for each recipient in turn.
func recipients(w *W) {
	writeFile("some", "b@z.net\nd@z.net\n")
	writeFile("empty", "# nothing\n")
	os.Remove("none")
	x := newWorld()
	x.Files = map[string][]string{"some": {"b@z.net", "d@z.net"}}
	ops := []string{"to a@z.net", "to b@z.net", "to file:some", "to file:none", "not to a@z.net", "not to file:empty", "to a@z.net or to file:none", "to file:some or to file:empty", "to file:none or to a@z.net", "( to b@z.net to file:none )", "from f@x.net", "to @z.net not to b@z.net", "to-has quoted", "not to file:some"}
	var lists [][]string
	var rec func(l []string)
	rec = func(l []string) {
		if len(l) > 0 {
			lists = append(lists, append([]string{}, l...))
		}
		if len(l) == pick(w.Tier, 3, 4) {
			return
		}
		for _, r := range []string{"a@z.net", "b@z.net", "c@z.net"} {
			rec(append(l, r))
		}
	}
	rec(nil)
	var texts []string
	for _, ph := range []string{"@data", "@message"} {
		for _, act := range []string{"reject", "set-with", "accept"} {
			for _, a := range ops {
				for _, b := range ops {
					texts = append(texts, fmt.Sprintf("%s %s %s with message \"one\";\n  %s with message \"two\"\n%s stall to c@z.net with message \"three\"\n", ph, act, a, b, ph))
				}
			}
		}
	}
	w.Rules("accept all\n")
	w.Start(ref.Conf{NoStd: true}, "-r", "rules")
	w.UseWorld(x)
	for _, text := range texts {
		if !w.Mine() {
			continue
		}
		rs := w.useRules(text)
		t := w.Session(fmt.Sprintf("rules %q; some has b@z.net and d@z.net, empty nothing, none is missing", text), client, local, ref.SessOpt{Rules: rs})
		t.Do("EHLO", "h.net")
		for _, l := range lists {
			if w.Over() {
				return
			}
			w.Res.Evals++
			t.Do("MAIL", "f@x.net")
			for _, r := range l {
				t.Do("RCPT", r)
			}
			if e, _ := t.Do("DATA", ""); e.Class == 3 {
				e, _ = t.Do("BODY", "x\n")
				w.Outcome(fmt.Sprintf("message %dxx %q", e.Class, e.Msg))
			} else {
				w.Outcome(fmt.Sprintf("DATA %dxx %q", e.Class, e.Msg))
			}
			w.State(text, fmt.Sprint(l))
			t.Do("RSET", "")
			if t.bad {
				return
			}
		}
		t.Close()
	}
}

// many24: a session that uses many pattern files, one of which changes; each
// stays as it was when first needed, and the next session has the new one.
func many24(w *W) {
	set := func(x *ref.World, i int, s string) {
		n := fmt.Sprintf("many%d", i)
		delete(x.Files, n)
		if s == "<missing>" {
			os.Remove(n)
			return
		}
		writeFile(n, s)
		x.Files[n] = c24Pats(s)
	}
	w.Rules("accept all\n")
	w.Start(ref.Conf{NoStd: true}, "-r", "rules")
	for _, k := range sizes(20, pick(w.Tier, 70, 300)) {
		if k == 0 {
			continue
		}
		for _, j := range places(k) {
			for _, ch := range [][2]string{{"x.net\n", "y.net\n"}, {"<missing>", "y.net\n"}, {"x.net\n", "<missing>"}, {"", "y.net\n"}} {
				if !w.Mine() || w.Over() {
					continue
				}
				w.Res.Evals++
				x := newWorld()
				x.Files = map[string][]string{}
				var b strings.Builder
				for i := 0; i < k; i++ {
					fmt.Fprintf(&b, "%s reject helo file:many%d with message \"m%d\"\n", []string{"@helo", "@from"}[i%2], i, i)
					set(x, i, fmt.Sprintf("n%d.net\n", i))
				}
				set(x, j, ch[0])
				rs := w.useRules(b.String())
				w.UseWorld(x)
				desc := fmt.Sprintf("%d pattern files, number %d has %q and becomes %q", k, j, ch[0], ch[1])
				t := w.Session(desc, client, local, ref.SessOpt{Rules: rs})
				probe := func() {
					for _, h := range []string{"q.net", "x.net", "y.net", fmt.Sprintf("n%d.net", j), fmt.Sprintf("n%d.net", (j+1)%k)} {
						if e, _ := t.Do("EHLO", h); e.Class == 2 {
							e, _ = t.Do("MAIL", "a@x.net")
							w.Outcome(fmt.Sprintf("MAIL %dxx", e.Class))
							t.Do("RSET", "")
						}
					}
				}
				probe()
				set(x, j, ch[1])
				probe()
				t.Close()
				t = w.Session(desc+"; next session", client, local, ref.SessOpt{Rules: rs})
				probe()
				t.Close()
				w.State(desc)
			}
		}
	}
}

// bigMessages: a few messages of several megabytes.
func bigMessages(w *W) {
	clearDir("save")
	w.Rules("accept all\n")
	w.Start(ref.Conf{NoStd: true, Dir: "save", Hash: "msg", Log: true, SMTPLog: true}, "-r", "rules")
	rs := readRules("accept all\n")
	var lines []string
	vrt.RecordWrites = func(r vrt.WriteRec) {
		if strings.HasSuffix(r.Path, "msg.log") {
			lines = append(lines, r.Data)
		}
	}
	for _, n := range []int{1<<20 - 1, 1 << 20, 1<<20 + 20, 3000000, 1 << 22, 10000001, 1<<24 + 20, 1<<25 + 20} {
		for _, head := range []string{"", "Subject: x\n\n", "\n", "Subject: x\n" + strings.Repeat("X-Y: z\n", 3000) + "\n"} {
			if !w.Mine() || w.Over() {
				continue
			}
			w.Res.Evals++
			body := head + strings.Repeat("0123456789abcde\n", n/16) + strings.Repeat("e", n%16)
			t := w.Session(fmt.Sprintf("a message of %d bytes that starts with %.20q", len(body), head), client, local, ref.SessOpt{Rules: rs})
			t.Do("EHLO", "h.net")
			t.Do("MAIL", "a@x.net")
			t.Do("RCPT", "p@z.net")
			t.Do("DATA", "")
			f := t.M.File(body)
			lines = nil
			e, _ := t.Do("BODY", body)
			t.Steps = t.Steps[:len(t.Steps)-1]
			w.Outcome(fmt.Sprintf("message %dxx", e.Class))
			w.State(fmt.Sprint(n), head)
			if got := dirFiles("save")["save/"+f.Name]; got != f.Content {
				i := 0
				for i < len(got) && i < len(f.Content) && got[i] == f.Content[i] {
					i++
				}
				t.fail("the saved file has %d bytes instead of %d; it differs at byte %d", len(got), len(f.Content), i)
			}
			_, h, _ := strings.Cut(f.Content, "\nhash ")
			hash, h, _ := strings.Cut(h, " ")
			_, h, _ = strings.Cut(h, "\nbodyhash ")
			bh, _, _ := strings.Cut(h, "\n")
			if want := fmt.Sprintf(": message %d bytes hash %s body %s |", len(body), hash, bh); len(lines) != 1 || !strings.Contains(lines[0], want) {
				t.fail("the message log has %q instead of a line with %q", lines, want)
			}
			t.Close()
			clearDir("save")
			w.D.Saved = map[string]ref.Saved{}
		}
	}
}

func init() {
	rcpts := "; and rules of two clauses about recipients, with and without missing pattern files, for every list of recipients"
	bounds := "14 x 14 clauses x 2 phases x 3 actions, lists of up to 3 of 3 recipients (thorough: 4)"
	addJob("C03", "recipients", 4, rcpts, bounds, recipients)
	addJob("C21", "recipients", 4, rcpts, bounds, recipients)
	addJob("C24", "many", 4, "; and sessions that use many pattern files, one of which changes", "up to 70 files (thorough: 300)", many24)
	addJob("C10", "big", 8, "; and messages of up to 32 megabytes", "8 sizes x 4 kinds of headers", bigMessages)
	addJob("C23", "big", 8, "; and messages of up to 32 megabytes", "8 sizes x 4 kinds of headers", bigMessages)
}
