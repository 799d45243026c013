package checks

import (
	"fmt"
	"path/filepath"
	"strings"
	"syscall"
	"testing/synctest"
	"time"

	"verif/ref"
	"verif/vrt"
)

// More "wide" jobs; those of C11, C14, C21, C23, C25, C26, C27 and C28 are with
// their other jobs.

// quote makes a quoted word of a rule.
func quote(s string) string {
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

func wideC04(w *W) {
	w.Rules("")
	w.Start(ref.Conf{NoStd: true}, "-r", "rules")
	w.UseWorld(newWorld())
	run := func(desc, pat string, addrs []string) {
		if !w.Mine() {
			return
		}
		w.Res.Evals++
		text := "@from reject from " + quote(pat) + "\n@to reject to " + quote(pat) + "\n"
		rs := w.useRules(text)
		t := w.Session(desc+"; rules: "+short(text), client, local, ref.SessOpt{Rules: rs})
		t.Do("EHLO", "h.net")
		for _, a := range addrs {
			t.Do("MAIL", a)
			t.Do("RSET", "")
		}
		t.Do("MAIL", "ok@ok.net")
		for _, a := range addrs {
			e, _ := t.Do("RCPT", a)
			w.Outcome(fmt.Sprintf("%dxx", e.Class))
		}
		w.State(pat)
		t.Close()
	}
	forms := []string{"%s@x.net", "a%sb@x.net", "a%s@x.net", "a@%s.net", "a@x%sy.net", "a@x.%s", "a@x.net%s", "@%s.net", "@.%s", "@x.%s", "%s@"}
	for _, c := range ascii() {
		if c == ' ' {
			continue
		}
		for _, f := range forms {
			if strings.HasPrefix(f, "%s") && strings.ContainsRune("./", c) {
				continue // a file
			}
			var addrs []string
			for _, d := range []string{string(c), strings.ToUpper(string(c)), strings.ToLower(string(c)), string(c ^ 0x20), string(c + 1), "x", string(c) + string(c)} {
				if d[0] <= ' ' || d[0] >= 0x7f {
					continue
				}
				for _, g := range []string{"%s@x.net", "a%sb@x.net", "a%s@x.net", "a@%s.net", "a@x%sy.net", "a@x.%s", "a@x.net%s", "u@v.%s", "u@x.%s", "u@%s", "%s@y", "%s"} {
					addrs = append(addrs, fmt.Sprintf(g, d))
				}
			}
			run(fmt.Sprintf("character %q", c), fmt.Sprintf(f, string(c)), addrs)
		}
	}
	for _, n := range sizes(70, pick(w.Tier, 9000, 70000)) {
		if n < 2 {
			continue
		}
		x := strings.Repeat("x", n-1)
		for _, f := range forms {
			run(fmt.Sprintf("length %d", n), fmt.Sprintf(f, x+"a"), []string{x + "a@x.net", x + "b@x.net", "a" + x + "ab@x.net", "a" + x + "a@x.net", "a" + x + "@x.net", "a@" + x + "a.net", "a@" + x + "b.net",
				"a@x" + x + "ay.net", "a@x." + x + "a", "a@x." + x + "b", "a@y.x." + x + "a", "a@y." + x + "a", "a@x.net" + x + "a", x + "a@y", x + "A@y", strings.ToUpper(x) + "a@y", strings.ToUpper(x) + "a@x.net"})
		}
	}
}

func wideC06(w *W) {
	w.Rules("")
	w.Start(ref.Conf{NoStd: true}, "-r", "rules")
	w.UseWorld(c06World)
	var addrs, names []string
	for _, c := range ascii() {
		if c == ' ' {
			continue
		}
		for _, f := range []string{"%s", "%s@x.net", "a%sb@x.net", "a%s@x.net", "%sa@x.net", "u@%s", "u@%sx.net", "u@x%s.net", "u@x.%snet", "u@x.n%set", "u@x.net%s", "u%s", "%su", "%[1]su%[1]s@x.net"} {
			addrs = append(addrs, fmt.Sprintf(f, string(c)))
		}
		for _, f := range []string{"%s", "a%sb", "a%s", "%sa", "%sx.net", "x%s.net", "x.%snet", "x.n%set", "x.net%s", "1%s2.3.4", "1.2.3.4%s", "%s1.2.3.4", "[1.2.3%s4]", "%s1.2.3.4]", "[1.2.3.4%s", "::%s", "[::1%s]", "%s::1", "198.51.100.7%s", "[198.51.100.7]%s"} {
			names = append(names, fmt.Sprintf(f, string(c)))
		}
	}
	for _, n := range sizes(30, pick(w.Tier, 1100, 9000)) {
		if n == 0 {
			continue
		}
		x := strings.Repeat("x", n)
		for _, f := range []string{"%s@x.net", "u@%s", "u@%s.net", "u@x.%s", "%s", "\"%s\"@x.net", "\"%s@x.net", "@%s:u@x.net", "<%s@x.net>", "%s@", "@%s", "%s@y@x.net"} {
			addrs = append(addrs, fmt.Sprintf(f, x))
		}
		addrs = append(addrs, "u@"+labels(n), strings.Repeat(".", n)+"@x.net", "u@x"+strings.Repeat(".", n)+"net", strings.Repeat("@", n), "u"+strings.Repeat("@", n)+"x.net")
		names = append(names, x, x+".net", "x."+x, "["+x+"]", strings.Repeat("1", n), strings.Repeat("1.", n), strings.Repeat("1.", n)+"2", "["+strings.Repeat("1.", n)+"2]", strings.Repeat("0", n)+"1.2.3.4", strings.Repeat("[", n), strings.Repeat("1:", n)+"2", "["+strings.Repeat("1:", n)+"2]")
	}
	// every octet and every prefix group
	for o := 0; o < 300; o++ {
		names = append(names, fmt.Sprintf("%d.2.3.4", o), fmt.Sprintf("1.2.3.%d", o), fmt.Sprintf("[1.2.%d.4]", o), fmt.Sprintf("198.51.100.%d", o), fmt.Sprintf("[192.0.2.%d]", o))
	}
	for _, what := range []string{"to-has", "from-has"} {
		for _, a := range addrAttrs {
			if w.Mine() {
				w.addrHas(what, []string{a}, addrs)
			}
		}
	}
	for _, a := range heloAttrs {
		if !w.Mine() {
			continue
		}
		rs := hits(ref.Helo, ref.Has{What: "helo-has", Attrs: []string{a}})
		text := ref.Text(rs)
		w.Rules(text)
		t := w.Session("rules:\n"+text, client, local, ref.SessOpt{Rules: rs})
		for _, n := range names {
			for _, v := range []string{"EHLO", "HELO"} {
				if t.bad {
					break
				}
				t.Steps = t.Steps[:1]
				w.Res.Evals++
				e, _ := t.Do(v, n)
				w.Outcome(fmt.Sprintf("helo-has %s %dxx", a, e.Class))
			}
		}
		w.State(text)
		t.Close()
	}
	// many attributes in one list, repeated
	for _, n := range sizes(20, pick(w.Tier, 130, 1100)) {
		if n == 0 || !w.Mine() {
			continue
		}
		for _, a := range addrAttrs {
			l := strings.Split(strings.Repeat("noat ", n-1)+a, " ")
			w.addrHas("to-has", l, []string{"u", "u@x.net", "u@a.b", "u@u.net", "\"u\"@x.net", "@r.net:u@x.net", "u@x", "u@@x.net"})
		}
	}
}

func wideC07(w *W) {
	for n, s := range c07Inc {
		writeFile(n, s)
	}
	w.Rules("")
	w.Start(ref.Conf{NoStd: true}, "-r", "rules")
	w.UseWorld(&ref.World{})
	g := func(text string) {
		if w.Mine() && !w.Over() {
			w.grammar(text, false)
		}
	}
	// every byte in every kind of place
	for c := 0; c < 256; c++ {
		s := string([]byte{byte(c)})
		for _, f := range []string{"%s", "%sreject helo a.net\n", "reject%shelo a.net\n", "reject %shelo a.net\n", "reject helo%sa.net\n", "reject helo %sa.net\n", "reject helo a%sb.net\n", "reject helo a.net%s\n", "reject helo a.net%s", "reject helo a.net\n%s", "reject helo a.net\n%sstall helo b.net\n",
			"reject helo \"%s\"\n", "reject helo \"a%sb\"\n", "reject helo \"\\%s\"\n", "reject helo a.net with message \"a%sb\"\n", "reject helo a.net with message %s\n", "# a %s b\nreject helo b.net\n", "reject helo a.net # %s\nstall helo b.net\n", "reject helo a.net \\%s\nstall helo b.net\n", "@helo%sreject helo a.net\n", "reject (%shelo a.net)\n", "reject helo a.net;%shelo b.net\n", "reject from-has noat,%sroute\n", "reject from-has noat%sroute\n", "include%sinc\n", "include inc%s\nreject helo b.net"} {
			if f == "include inc%s\nreject helo b.net" && c == '2' {
				continue // there is such a file
			}
			g(fmt.Sprintf(f, s))
		}
	}
	for _, n := range sizes(40, pick(w.Tier, 1100, 11000)) {
		num := func(f string, sep string) string {
			var l []string
			for i := 0; i < n; i++ {
				l = append(l, strings.ReplaceAll(f, "#", fmt.Sprint(i)))
			}
			return strings.Join(l, sep)
		}
		x := strings.Repeat("x", n)
		if n <= 300 || w.Tier == "thorough" {
			g(num("reject helo h#.net\n", "") + "stall helo last.net")
			g(num("reject helo h#.net\n", "") + "bogus")
			g("reject " + num("helo h#.net; ", "\n\t") + "helo last.net")
			g("reject helo first.net" + num(" or helo h#.net", ""))
			g("reject helo last.net" + num(" not helo h#.net", ""))
		}
		g(strings.Repeat("# comment\n", n) + "reject helo last.net")
		g(strings.Repeat("\n", n) + "reject helo last.net")
		g("reject" + strings.Repeat(" ", n) + " helo last.net")
		g("reject" + strings.Repeat(" \\\n", n) + " helo last.net")
		g("reject helo a.net with message \"" + x + "\"\nstall helo last.net")
		g("reject helo a.net with message \"" + strings.Repeat("\\\"", n) + "\"\nstall helo last.net")
		g("reject helo a.net with message \"" + strings.Repeat("\\\\", n) + "\"\nstall helo last.net")
		g("reject helo a.net with message \"" + strings.Repeat("y\n", n) + "\"\nstall helo last.net")
		g("#" + x + "\nreject helo last.net")
		g("#" + x + "\n" + "bogus helo last.net")
		g("reject helo " + x + "\nstall helo " + x + "y")
		g("reject " + strings.Repeat("(", n) + "helo a.net" + strings.Repeat(")", n) + "\nstall helo last.net")
		g("reject " + strings.Repeat("(", n) + "helo a.net" + strings.Repeat(")", n+1) + "\nstall helo last.net")
		g("reject " + strings.Repeat("not ", n) + "helo a.net\nstall helo last.net")
		g("reject from-has noat" + strings.Repeat(",noat", n) + " helo a.net\nstall helo last.net")
		g("reject from-has noat" + strings.Repeat(",noat", n) + ",bogus helo a.net\nstall helo last.net")
		g("reject helo a.net with note " + x + " message m\nstall helo last.net")
		g(x + " helo a.net\nstall helo last.net")
		g(strings.Repeat("include inc\n", min(n, 500)) + "stall helo last.net")
	}
}

func wideC08(w *W) {
	const nf = 300
	var names []string
	for i := 0; i < nf; i++ {
		names = append(names, fmt.Sprintf("f%d", i))
	}
	badAt, kind := -1, ""
	reads := 0
	vrt.FSHook = func(op vrt.Op) vrt.Verdict {
		if b := filepath.Base(op.Path); b[0] != 'f' || badAt < 0 || b != names[badAt] {
			return vrt.Verdict{} // standard error is written to at any time
		}
		switch op.Kind + " " + kind {
		case "open missing":
			return vrt.Verdict{Err: syscall.ENOENT}
		case "open noopen":
			return vrt.Verdict{Err: syscall.EACCES}
		case "open readmid":
			reads = 0
		case "read readerr":
			return vrt.Verdict{Err: syscall.EIO}
		case "read readmid":
			if reads++; reads > 1 {
				return vrt.Verdict{Err: syscall.EIO}
			}
		}
		return vrt.Verdict{}
	}
	text := func(i int) string {
		s := fmt.Sprintf("reject helo h%d.net\n", i)
		if i == badAt {
			switch kind {
			case "parsefirst":
				s = "bogus\n" + s
			case "parselast":
				s += "reject helo"
			}
		}
		return s
	}
	for i, f := range names {
		writeFile(f, text(i))
	}
	w.Rules("")
	w.Start(ref.Conf{NoStd: true}, "-r", strings.Join(names[:nf/2], ",")+",rules")
	w.UseWorld(newWorld())
	load := func(t string) ([]ref.Rule, bool) {
		var rs []ref.Rule
		for i := range names[:nf/2] {
			if i == badAt {
				return nil, false
			}
			rs = append(rs, readRules(text(i))...)
		}
		r, v, _, _ := ref.Read(t, func(fn string) (string, bool) {
			var j int
			fmt.Sscanf(fn, "f%d", &j)
			return text(j), j != badAt
		})
		return append(rs, r...), v == ref.Good
	}
	sess := func(desc, t string) {
		w.Res.Evals++
		w.Rules(t)
		rs, ok := load(t)
		tr := w.Session(desc, client, local, ref.SessOpt{Rules: rs, RulesBad: !ok})
		for _, h := range []string{"h0.net", "h149.net", "h150.net", fmt.Sprintf("h%d.net", badAt), "h299.net", "last.net", "other.net"} {
			e, _ := tr.Do("EHLO", h)
			w.Outcome(fmt.Sprintf("%v %dxx", ok, e.Class))
		}
		tr.Do("MAIL", "s@x.net")
		tr.Do("RCPT", "r@z.net")
		w.State(desc)
		tr.Close()
		synctest.Wait()
	}
	var inc strings.Builder
	for _, f := range names[nf/2:] {
		inc.WriteString("include " + f + "\n")
	}
	inc.WriteString("reject helo last.net\n")
	kinds := []string{"missing", "noopen", "readmid", "readerr", "parsefirst", "parselast"}
	for _, k := range append(places(nf/2), nf/2, nf/2+1, nf-2, nf-1, nf/2+60) {
		for _, kd := range kinds {
			if !w.Mine() {
				continue
			}
			badAt, kind = k, kd
			writeFile(names[k], text(k))
			sess(fmt.Sprintf("300 rules files, number %d is %s", k, kd), inc.String())
			badAt = -1
			writeFile(names[k], text(k))
			sess(fmt.Sprintf("300 rules files, number %d was %s", k, kd), inc.String())
		}
	}
	// an error on each line of a long file
	for _, n := range sizes(30, pick(w.Tier, 1100, 11000)) {
		for _, k := range places(n) {
			if !w.Mine() {
				continue
			}
			for _, bad := range []string{"bogus", "reject helo", "reject helo a.net b.net", "include nosuch99999", "reject helo a.net or", "set-with all", "@connect reject helo a.net", "reject (helo a.net"} {
				var b strings.Builder
				for i := 0; i < n; i++ {
					if i == k {
						b.WriteString(bad + "\n")
					} else {
						fmt.Fprintf(&b, "accept helo a%d.net\n", i)
					}
				}
				t := b.String()
				w.Res.Evals++
				w.Rules(t)
				desc := fmt.Sprintf("%d rules, number %d is %q", n, k, bad)
				tr := w.Session(desc, client, local, ref.SessOpt{RulesBad: true})
				tr.Do("EHLO", "a0.net")
				tr.Do("MAIL", "s@x.net")
				w.State(desc)
				tr.Close()
			}
		}
	}
	synctest.Wait()
	vrt.FSHook = nil
}

func wideC09(w *W) {
	makeCerts(1)
	x := &c09{w: w, read: map[string][]ref.Rule{}}
	w.Rules("")
	for _, d := range []string{"save", "save1"} {
		clearDir(d)
	}
	w.Start(ref.Conf{NoStd: true, Dir: "save", Log: true, SMTPLog: true, TLS: true}, "-r", "rules")
	w.UseWorld(newWorld())
	rules := func(i int) []ref.Rule {
		return w.useRules(fmt.Sprintf("@connect set-with all with note \"n%[1]d\"\n@helo reject helo r%[1]d.net with message \"helo %[1]d\"\n@from set-with from odd@x%[2]d.net with savedir save1\n@to reject to t%[1]d@z.net with message \"to %[1]d\"\n@message reject to rej@z.net with message \"message %[1]d\"\n", i, i%2))
	}
	for _, n := range sizes(12, pick(w.Tier, 520, 2100)) {
		for order := 0; order < 3; order++ {
			if n == 0 || !w.Mine() {
				continue
			}
			w.Res.Evals++
			w.D.Saved = map[string]ref.Saved{}
			w.D.Logged = nil
			var ts []*Trace
			desc := fmt.Sprintf("%d sessions at the same time, each connecting with other rules (order %d)", n, order)
			for i := 0; i < n; i++ {
				x.seq++
				t := w.Session(fmt.Sprintf("%s, number %d", desc, i), hostport(ipAddr(x.seq)), fmt.Sprintf("192.0.2.%d:25", 1+i%200), ref.SessOpt{Rules: rules(i)})
				ts = append(ts, t)
			}
			w.Rules("reject all\n")
			step := func(f func(i int, t *Trace)) {
				for i := range ts {
					k := i
					switch order {
					case 1:
						k = n - 1 - i
					case 2:
						k = (i*7 + 3) % n
						if n%7 == 0 {
							k = i
						}
					}
					if !ts[k].bad && !ts[k].S.Closed {
						f(k, ts[k])
					}
				}
			}
			for o := -1; o <= 1; o++ {
				step(func(i int, t *Trace) { t.Do("EHLO", fmt.Sprintf("r%d.net", (i+o+n)%n)) })
			}
			step(func(i int, t *Trace) { t.Do("EHLO", fmt.Sprintf("h%d.net", i)) })
			step(func(i int, t *Trace) {
				if i%3 == 1 {
					t.Do("STARTTLS", "")
					t.Do("EHLO", fmt.Sprintf("tls%d.net", i))
				}
			})
			step(func(i int, t *Trace) { t.Do("MAIL", fmt.Sprintf([]string{"odd@x%d.net", "f%d@x.net"}[i/2%2], i)) })
			for o := 1; o >= -1; o-- {
				step(func(i int, t *Trace) { t.Do("RCPT", fmt.Sprintf("t%d@z.net", (i+o+n)%n)) })
			}
			step(func(i int, t *Trace) { t.Do("RCPT", fmt.Sprintf("u%d@z.net", i)) })
			step(func(i int, t *Trace) {
				if i%5 == 0 {
					t.Do("RCPT", "rej@z.net")
				}
			})
			step(func(i int, t *Trace) { t.Do("DATA", "") })
			step(func(i int, t *Trace) { t.Do("BODY", fmt.Sprintf("Subject: %d\n\nbody\n", i%3)) })
			step(func(i int, t *Trace) { t.Close() })
			synctest.Wait()
			want := map[string]string{}
			for k, s := range w.D.Saved {
				want[k] = s.Content
			}
			if d := diffFiles(want, dirFiles("save", "save1")); d != "" {
				w.Fail(desc, "%s\n  in: %s", short(d), desc)
			}
			if got, exp := readFile("msg.log"), strings.Join(w.D.Logged, "\n")+"\n"; got != exp {
				w.Fail(desc, "the message log has %s instead of %s\n  in: %s", short(got), short(exp), desc)
			}
			if len(want) != n {
				w.Fail(desc, "only %d messages were saved in the model", len(want))
			}
			w.Outcome(fmt.Sprintf("sessions ok, order %d", order))
			w.State(desc)
			x.clean()
		}
	}
}

func wideC22(w *W) {
	const nf = 130
	var names []string
	for i := 0; i < nf; i++ {
		names = append(names, fmt.Sprintf("f%d", i))
		writeFile(names[i], "")
	}
	conf := ref.Conf{FromReject: "fr", ToAccept: "ta", HeloReject: "hr"}
	for _, f := range []string{"fr", "ta", "hr"} {
		writeFile(f, "")
	}
	w.Start(conf, "-r", strings.Join(names, ","))
	world := newWorld()
	w.UseWorld(world)
	text := make([]string, nf)
	set := func(i int, s string) {
		if text[i] != s {
			text[i] = s
			writeFile(names[i], s)
		}
	}
	run := func(desc string) {
		w.Res.Evals++
		var rs []ref.Rule
		for _, s := range text {
			if s != "" {
				rs = append(rs, readRules(s)...)
			}
		}
		t := w.Session(desc, client, local, ref.SessOpt{Rules: rs})
		for _, h := range []string{"x.net", "pat.net", "h.net"} {
			e, _ := t.Do("EHLO", h)
			w.Outcome(fmt.Sprintf("%dxx", e.Class))
		}
		t.Do("MAIL", "pat@x.net")
		t.Do("RSET", "")
		t.Do("MAIL", "a@x.net")
		t.Do("RCPT", "pat@z.net")
		t.Do("RCPT", "no@z.net")
		w.State(desc)
		t.Close()
	}
	// the order of many files
	for i := 0; i < nf; i++ {
		for _, j := range places(nf) {
			if i == j || !w.Mine() {
				continue
			}
			set(i, "accept helo x.net\naccept to no@z.net\n")
			set(j, "reject helo x.net with message \"no\"\nreject to no@z.net\n")
			run(fmt.Sprintf("%d rules files, number %d accepts and %d rejects", nf, i, j))
			set(i, "")
			set(j, "")
		}
	}
	// many patterns
	set(3, "reject to no@z.net\n")
	for _, n := range sizes(70, pick(w.Tier, 1100, 11000)) {
		for _, k := range append(places(n), -1) {
			if !w.Mine() {
				continue
			}
			world.Files = map[string][]string{}
			for f, p := range map[string][]string{"fr": {"p%d@x.net", "pat@x.net"}, "ta": {"p%d@z.net", "pat@z.net"}, "hr": {"p%d.net", "pat.net"}} {
				for i := 0; i < n; i++ {
					if i == k {
						world.Files[f] = append(world.Files[f], p[1])
					} else {
						world.Files[f] = append(world.Files[f], fmt.Sprintf(p[0], i))
					}
				}
				writeFile(f, strings.Join(world.Files[f], "\n"))
			}
			run(fmt.Sprintf("files of %d patterns, number %d matches", n, k))
		}
	}
}

// wideC14: many sessions of one address end at the same time; none of them may
// be lost or counted twice.
func wideC14(w *W) {
	makeCerts(1)
	rs := w.useRules(c14Rules)
	const limit = 300
	w.Start(ref.Conf{NoStd: true, TLS: true, SMTPLog: true, DN: limit, DNDur: 8 * time.Hour, MinPhase: "to"}, "-r", "rules")
	w.UseWorld(newWorld())
	nip := 0
	for _, n := range sizes(20, pick(w.Tier, limit+1, limit+1)) {
		for kind, cmds := range [][]string{{}, {"EHLO h.net", "QUIT"}, {"EHLO h.net", "MAIL a@x.net", "RSET", "MAIL a@x.net"}, {"EHLO h.net", "TLSFAIL"}} {
			if !w.Mine() {
				continue
			}
			w.Res.Evals++
			nip++
			ip := ipAddr(nip)
			desc := fmt.Sprintf("%d sessions of kind %d end at the same time", n, kind)
			w.Cur(desc)
			var ls []*live
			for i := 0; i < n; i++ {
				ls = append(ls, w.goClient(script{Raddr: hostport(ip), Laddr: local, Cmds: cl(cmds...)}))
			}
			w.join(ls)
			w.D.NConn += n
			for i := 0; i < n; i++ {
				m := w.D.Connect(hostport(ip), local, ref.SessOpt{Rules: rs})
				w.D.NConn--
				for _, c := range cl(cmds...) {
					if !m.Closed() {
						mdo(m, c)
					}
				}
				if !m.Closed() {
					m.Do("ABORT", "", nil, false, false)
				}
			}
			for _, p := range vrt.Panics() {
				w.Fail(desc, "the server panicked: %s\n  in: %s", p, desc)
			}
			if kind == 3 {
				// they all began before any had failed, or some did not
				s, _ := w.Open(0, hostport(ip), local)
				w.D.NConn++
				o := s.Do(vrt.Cmd{Verb: "EHLO", Arg: "h.net"})
				offered := len(o.R) > 0 && strings.Contains(strings.Join(o.R[0].Lines, " "), "STARTTLS")
				if o.Err != nil || offered != (n < 2) {
					w.Fail(desc, "TLS is offered=%v after that: %v\n  in: %s", offered, o, desc)
				}
				s.End()
				w.State(desc)
				continue
			}
			if n > limit || kind == 2 && n > limit/2 {
				continue // how many are stalled depends on the order
			}
			// how many more until it is stalled?
			for i := w.D.Yak.Count(ip); i <= limit; i++ {
				t := w.Session(fmt.Sprintf("%s, then session %d", desc, i), hostport(ip), local, ref.SessOpt{Rules: rs})
				t.Do("EHLO", "h.net")
				w.Outcome(fmt.Sprintf("stalled=%v", t.M.Stalled))
				t.Close()
				synctest.Wait()
				if t.bad {
					return
				}
			}
			w.State(desc)
		}
	}
}

func wideC26(w *W) {
	nl := 1
	if w.Shard == 1 {
		nl = 200
	}
	w.Rules("")
	last := ""
	seen := map[string]int{}
	vrt.RecordWrites = func(r vrt.WriteRec) {
		if filepath.Base(r.Path) == "smtp.log" && strings.Contains(r.Data, "remote ") {
			last, _, _ = strings.Cut(r.Data, "#")
			seen[last]++
		}
	}
	args := []string{"-r", "rules"}
	for i := 0; i < nl; i++ {
		args = append(args, fmt.Sprintf("LISTEN 192.0.2.%d:25", i+1))
	}
	w.Start(ref.Conf{NoStd: true, SMTPLog: true}, args...)
	w.UseWorld(newWorld())
	if len(w.L) != nl {
		w.Fail(args, "%d listeners, not %d", len(w.L), nl)
		return
	}
	id := func(desc string) bool {
		w.D.NConn++
		w.Res.Evals++
		if want := fmt.Sprintf("%d/%d", w.D.Pid, w.D.NConn); last != want || seen[last] != 1 {
			w.Fail(desc, "connection %d has the id %s in the log, %d times\n  in: %s", w.D.NConn, last, seen[last], desc)
			return false
		}
		w.State(desc, last)
		return true
	}
	switch w.Shard {
	case 0, 1:
		// one after the other
		total := []int{pick(w.Tier, 70000, 300000), 6000}[w.Shard]
		desc := fmt.Sprintf("%d connections on %d addresses, one after the other", total, nl)
		for i := 0; i < total; i++ {
			if i%1000 == 0 {
				truncate("smtp.log")
				w.Cur(fmt.Sprintf("%s (%d)", desc, i))
			}
			li := (i*7 + i/nl) % nl
			s, o := w.Open(li, hostport(ipAddr(i%50000)), fmt.Sprintf("192.0.2.%d:25", li+1))
			if o.Err != nil || o.Class() != 2 {
				w.Fail(desc, "connection %d got %v\n  in: %s", i+1, o, desc)
				return
			}
			if i%3 == 0 {
				s.Do(vrt.Cmd{Verb: "EHLO", Arg: "h.net"})
			}
			s.End()
			synctest.Wait()
			if !s.C.IsClosed() {
				w.Fail(desc, "connection %d is not closed\n  in: %s", i+1, desc)
				return
			}
			if !id(desc) {
				return
			}
			w.Res.Traces++
		}
	default:
		// many at the same time
		for _, n := range sizes(40, pick(w.Tier, 520, 5100)) {
			desc := fmt.Sprintf("%d connections at the same time, errors in between: %v", n, w.Shard == 3)
			w.Cur(desc)
			var l []*S
			for i := 0; i < n; i++ {
				if w.Shard == 3 {
					if err := w.L[0].Put(vrt.Accepted{Err: &acceptErr{}}); err != nil {
						w.Fail(desc, "the listener stopped\n  in: %s", desc)
						return
					}
				}
				s, o := w.Open(0, hostport(ipAddr(i)), local)
				if o.Err != nil || o.Class() != 2 {
					w.Fail(desc, "connection %d got %v\n  in: %s", i+1, o, desc)
					return
				}
				l = append(l, s)
				s.Do(vrt.Cmd{Verb: "EHLO", Arg: "h.net"})
				if !id(desc) {
					return
				}
			}
			for k, s := range l {
				if o := s.Do(vrt.Cmd{Verb: "MAIL", Arg: "a@x.net"}); o.Err != nil || o.Class() != 2 {
					w.Fail(desc, "connection %d of those got %v\n  in: %s", k+1, o, desc)
					return
				}
			}
			for _, s := range l {
				s.End()
			}
			w.Res.Traces++
			truncate("smtp.log")
		}
	}
	w.Outcome("served")
}

func wideC28(w *W) {
	w.Rules("")
	w.Start(ref.Conf{NoStd: true}, "-r", "rules")
	run := func(desc, want string, ptr []string) {
		if !w.Mine() {
			return
		}
		w.Res.Evals++
		x := newWorld()
		x.PTR["192.0.2.1"] = ptr
		w.UseWorld(x)
		t0 := time.Now()
		t := w.Session(desc, client, local, ref.SessOpt{})
		if t.bad {
			return
		}
		if g := t.S.C.Replies; len(g) != 1 || !strings.HasPrefix(g[0].Lines[0], want+" ") {
			t.fail("the greeting is %v instead of with the name %q", short(fmt.Sprint(g)), short(want))
		}
		for _, v := range []string{"EHLO", "HELO"} {
			_, o := t.Do(v, "h.net")
			if !t.bad && !strings.HasPrefix(o.R[0].Lines[0], want+" ") {
				t.fail("the reply to %s is %s instead of with the name %q", v, short(fmt.Sprint(o)), short(want))
			}
		}
		if d := time.Since(t0); d > 0 {
			t.fail("it took %v", d)
		}
		w.State(desc)
		w.Outcome("named")
		t.Close()
	}
	for _, c := range ascii() {
		for _, f := range []string{"%s.", "a%sb.net.", "%sx.net.", "x.net%s.", "x.net%s", "%[1]sd%[1]ss."} {
			n := fmt.Sprintf(f, string(c))
			if n == "." || c == ' ' {
				continue
			}
			run(fmt.Sprintf("the name %q", n), strings.TrimSuffix(n, "."), []string{n})
		}
	}
	for _, n := range sizes(130, pick(w.Tier, 1100, 70000)) {
		if n == 0 {
			continue
		}
		s := strings.Repeat("x", n)
		run(fmt.Sprintf("a name of %d characters", n), s, []string{s + "."})
		run(fmt.Sprintf("a name of %d characters without a dot", n), s, []string{s})
		run(fmt.Sprintf("a name of %d labels", n), labels(n), []string{labels(n) + "."})
		if n <= 300 {
			var l []string
			for i := 0; i < n; i++ {
				l = append(l, fmt.Sprintf("n%d.net.", (n-i)*7919%n))
			}
			run(fmt.Sprintf("%d names", n), strings.TrimSuffix(l[0], "."), l)
		}
	}
}

func init() {
	addWide("C04", 4, "every printable character, in every position of a pattern and in either case, and the length of addresses and patterns", "addresses up to 9000 characters", wideC04)
	addWide("C06", 8, "every printable character at each place of addresses and HELO names, their lengths and numbers of labels and signs, every octet value, and the number of attributes in a list", "lengths up to 1100", wideC06)
	addWide("C07", 8, "every byte value at 26 kinds of places; the number of rules, clauses, operations, comments, continuations, parentheses, escapes and the length of words", "up to 1100", wideC07)
	addWide("C08", 8, "the number of rules files and includes with the bad one at each place, and of rules with the bad one at each place", "300 files, 1100 rules", wideC08)
	addWide("C09", 4, "the number of simultaneous sessions, each with rules and an envelope of its own", "up to 520 sessions", wideC09)
	addWide("C11", 6, "the size of the message, with every operation failing", "messages up to 1 MB", runC11)
	addWide("C14", 4, "the number of sessions that end at the same time", "up to 300", wideC14)
	addWide("C21", 4, "every printable character in messages and notes, the number and length of lines of a message, the number of matching set-with rules", "up to 520", runC21)
	addWide("C23", 4, "every printable character in names and notes, their lengths, the number of recipients, messages and simultaneous sessions", "lengths up to 9000, 520 sessions", runC23)
	addWide("C25", 2, "the number of different problems one after the other and at the same time", "up to 1100", runC25)
	addWide("C26", 4, "the number of connections, of those at the same time, and of listeners", "70000 connections, 520 at the same time, 200 listeners", wideC26)
	addWide("C27", 4, "the number of addresses, rules files and lines in them, with the bad one at each place", "up to 130", runC27)
	addWide("C28", 4, "every printable character in names, their lengths and number", "names up to 1100 characters, up to 300 names", wideC28)
	addWide("C22", 4, "the number of rules files with the deciding ones at each place, and of patterns in the files of the options with the matching one at each place", "130 files, 1100 patterns", wideC22)
}
