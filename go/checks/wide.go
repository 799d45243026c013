package checks

import (
	"fmt"
	"path/filepath"
	"strings"
	"testing/synctest"
	"time"

	"verif/ref"
	"verif/vrt"
)

// The "wide" jobs. The other jobs enumerate all combinations of few and small
// things; these take one dimension at a time (the number of rules, recipients,
// names, files, sessions, or the length or bytes of a text) and go through all
// small sizes and the neighbourhoods of the powers of two and ten beyond.

// sizes are all numbers up to dense, and those around powers of 2 and 10 up to max.
func sizes(dense, max int) []int {
	var l []int
	for i := 0; i <= dense; i++ {
		l = append(l, i)
	}
	on := map[int]bool{}
	add := func(n int) {
		for d := -1; d <= 1; d++ {
			on[n+d] = true
		}
	}
	for n := 1; n <= max; n *= 2 {
		add(n)
	}
	for n := 1; n <= max; n *= 10 {
		add(n)
		add(5 * n)
	}
	for n := dense + 1; n <= max; n++ {
		if on[n] {
			l = append(l, n)
		}
	}
	return l
}

// places are positions in a list of n: all if there are few, the ends, the
// middle, and around powers of two if not.
func places(n int) []int {
	if n <= 12 {
		return sizes(n-1, n-1)
	}
	on := map[int]bool{0: true, 1: true, n / 2: true, n - 2: true, n - 1: true}
	for k := 4; k < n; k *= 2 {
		on[k], on[k-1] = true, true
	}
	var l []int
	for i := 0; i < n; i++ {
		if on[i] {
			l = append(l, i)
		}
	}
	return l
}

// short cuts a text for descriptions.
func short(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%s... (%d bytes)", s[:300], len(s))
	}
	return s
}

// addWide gives a check a "wide" job.
func addWide(id string, n int, what, bounds string, run func(w *W)) {
	addJob(id, "wide", n, "; and one dimension at a time: "+what, bounds, run)
}

// addJob gives a check another job.
func addJob(id, name string, n int, rule, bounds string, run func(w *W)) {
	c := All[id]
	plan, old, bd := c.Plan, c.Run, c.Bounds
	c.Plan = func(tier string) []Job {
		return append(plan(tier), shards(n, Job{Name: name})...)
	}
	c.Run = func(w *W) {
		if w.Name == name {
			run(w)
		} else {
			old(w)
		}
	}
	c.Rule += rule
	c.Bounds = func(tier string) string { return strings.TrimSuffix(bd(tier)+"; "+bounds, "; ") }
}

// message sends one message in a session that has said EHLO.
func (t *Trace) message(from string, rcpts []string, body string) ref.Exp {
	t.Do("MAIL", from)
	for _, r := range rcpts {
		t.Do("RCPT", r)
	}
	e, _ := t.Do("DATA", "")
	if e.Class == 3 && !t.bad {
		e, _ = t.Do("BODY", body)
	}
	return e
}

// readRules reads rules that must be good.
func readRules(text string) []ref.Rule {
	rs, v, why, _ := ref.Read(text, nil)
	if v != ref.Good {
		panic(why + ": " + short(text))
	}
	return rs
}

// useRules puts rules into effect.
func (w *W) useRules(text string) []ref.Rule {
	w.Rules(text)
	return readRules(text)
}

func rcptList(n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprintf("r%d@z.net", i))
	}
	return l
}

func wideC01(w *W) {
	w.Rules("")
	w.Start(ref.Conf{NoStd: true}, "-r", "rules")
	w.UseWorld(newWorld())
	big := pick(w.Tier, 1100, 11000)
	// many rules that do not match, or that match without deciding, and then one that decides
	for _, n := range sizes(70, big) {
		for kind := 0; kind < 4; kind++ {
			if !w.Mine() {
				continue
			}
			w.Res.Evals++
			var b strings.Builder
			for i := 0; i < n; i++ {
				switch kind {
				case 0:
					fmt.Fprintf(&b, "reject helo no%d.net with message \"n%d\"\n", i, i)
				case 1:
					b.WriteString("set-with all with message \"s\"\n")
				case 2:
					fmt.Fprintf(&b, "@%s accept to no%d@z.net\n", []string{"to", "data", "message"}[i%3], i)
				case 3:
					fmt.Fprintf(&b, "@to reject to r%d@z.net with message \"m%d\"\n", i, i)
				}
			}
			b.WriteString("reject helo last.net with message \"last\"\n@data reject to q@z.net with message \"data\"\n")
			rs := w.useRules(b.String())
			t := w.Session(fmt.Sprintf("%d rules of kind %d before: ", n, kind)+short(b.String()), client, local, ref.SessOpt{Rules: rs})
			t.Do("EHLO", "last.net")
			t.Do("EHLO", "h.net")
			t.message("a@x.net", []string{"p@z.net"}, "x\n")
			t.message("a@x.net", []string{"p@z.net", "q@z.net"}, "x\n")
			if kind == 3 {
				t.Do("RSET", "")
				t.Do("MAIL", "a@x.net")
				for _, i := range places(n) {
					e, _ := t.Do("RCPT", fmt.Sprintf("r%d@z.net", i))
					w.Outcome(fmt.Sprintf("%dxx", e.Class))
				}
			}
			w.State("rules", fmt.Sprint(n, kind), t.M.Key())
			t.Close()
		}
	}
	// many recipients, of which one matters
	text := "@data stall to two@z.net\n@data accept to one@z.net\n@message reject to bad@z.net\n@message stall to-has noat\n"
	rs := w.useRules(text)
	for _, n := range sizes(70, big) {
		for _, k := range places(n) {
			for _, what := range []string{"two@z.net", "one@z.net", "bad@z.net", "noat"} {
				if !w.Mine() {
					continue
				}
				w.Res.Evals++
				l := rcptList(n)
				l[k] = what
				t := w.Session(fmt.Sprintf("%d recipients, number %d is %s; rules: %s", n, k, what, text), client, local, ref.SessOpt{Rules: rs})
				t.Do("EHLO", "h.net")
				e := t.message("a@x.net", l, "x\n")
				w.Outcome(fmt.Sprintf("%s %dxx", what, e.Class))
				w.State("recipients", fmt.Sprint(n, k, what), t.M.Key())
				t.Close()
			}
		}
	}
	// long names and addresses
	for _, n := range sizes(70, pick(w.Tier, 9000, 70000)) {
		if n == 0 || !w.Mine() {
			continue
		}
		w.Res.Evals++
		x, y := strings.Repeat("x", n-1)+"a", strings.Repeat("x", n-1)+"b"
		rs := w.useRules(fmt.Sprintf("reject helo %s\nreject from %s@x.net\nreject to %s@z.net\nreject to p@%s\n", x, x, x, x))
		t := w.Session(fmt.Sprintf("names of %d characters", n), client, local, ref.SessOpt{Rules: rs})
		for _, s := range []string{x, y} {
			t.Do("EHLO", s)
			t.Do("EHLO", "h")
			t.Do("MAIL", s+"@x.net")
			t.Do("RSET", "")
			t.Do("MAIL", "u@x.net")
			t.Do("RCPT", s+"@z.net")
			t.Do("RCPT", "p@"+s)
			t.Do("RSET", "")
		}
		w.State("names", fmt.Sprint(n))
		t.Close()
	}
	// many transactions and HELOs in one session
	rs = w.useRules("reject helo bad.net\nreject from bad@x.net\nreject to bad@z.net\n@message reject to rej@z.net\n")
	if w.Mine() {
		w.Res.Evals++
		t := w.Session("one session with thousands of commands", client, local, ref.SessOpt{Rules: rs})
		for i := 0; i < big && !t.bad; i++ {
			t.Do("EHLO", []string{"h.net", "bad.net", "h.net"}[i%3])
			t.message([]string{"a@x.net", "bad@x.net", "b@x.net", ""}[i%4], []string{"p@z.net", "bad@z.net", []string{"q@z.net", "rej@z.net"}[i%5/4]}, "x\n")
			t.Steps = t.Steps[:1]
			w.State("long session", fmt.Sprint(i))
		}
		t.Close()
	}
}

func wideC02(w *W) {
	w.Rules("")
	w.Start(ref.Conf{NoStd: true, DN: 3, MinPhase: "accepted", SMTPLog: true}, "-r", "rules")
	w.UseWorld(newWorld())
	for _, act := range []string{"reject", "stall"} {
		rs := w.useRules("@from " + act + " from <> with message \"no null\"\n@to reject to bad@z.net with message \"bad\"\n")
		for _, n := range sizes(70, pick(w.Tier, 1100, 11000)) {
			if !w.Mine() {
				continue
			}
			w.Res.Evals++
			t := w.Session(fmt.Sprintf("%s, %d recipients and %d transactions", act, n, n), hostport(ipAddr(n)), local, ref.SessOpt{Rules: rs})
			t.Do("EHLO", "h.net")
			t.Do("MAIL", "")
			for i := 0; i < n; i++ {
				e, _ := t.Do("RCPT", []string{"p@z.net", "bad@z.net"}[i%2])
				w.Outcome(fmt.Sprintf("%dxx %s", e.Class, e.Msg))
			}
			for i := 0; i < n; i++ {
				t.Do("RSET", "")
				t.Do("MAIL", "")
			}
			t.Do("RCPT", "p@z.net")
			t.Do("RSET", "")
			t.Do("MAIL", "a@x.net")
			t.Do("RCPT", "p@z.net")
			t.Do("RCPT", "bad@z.net")
			w.State(act, fmt.Sprint(n))
			t.Close()
		}
	}
}

func wideC03(w *W) {
	w.Rules("")
	w.Start(ref.Conf{NoStd: true}, "-r", "rules")
	x := newWorld()
	x.Files = map[string][]string{"nosuch": nil}
	w.UseWorld(x)
	run := func(text string, what string, a ...int) {
		w.Res.Evals++
		rs := w.useRules(text)
		t := w.Session(what+fmt.Sprint(a)+": "+short(text), client, local, ref.SessOpt{Rules: rs})
		e, _ := t.Do("EHLO", "h.net")
		w.Outcome(fmt.Sprintf("%s %dxx", what, e.Class))
		w.State(what, fmt.Sprint(a))
		t.Close()
	}
	rep := func(n, k int, usual, odd, sep string) string {
		var l []string
		for i := 0; i < n; i++ {
			if i == k {
				l = append(l, odd)
			} else {
				l = append(l, usual)
			}
		}
		return strings.Join(l, sep)
	}
	yes, no, miss := "helo h.net", "helo i.net", "helo file:nosuch"
	for _, n := range sizes(70, pick(w.Tier, 1100, 5100)) {
		if n == 0 || !w.Mine() {
			continue
		}
		for _, k := range append(places(n), -1) {
			run("reject "+rep(n, k, yes, no, " ")+"\n", "series, one false", n, k)
			run("reject "+rep(n, k, no, yes, " or ")+"\n", "alternatives, one true", n, k)
			run("reject "+rep(n, k, no+" with message \"no\"", yes+" with message \"yes\"", "; ")+"\n", "clauses, one true", n, k)
			run("reject not ("+rep(n, k, yes, no, " ")+")\n", "negated series", n, k)
			run("reject not ("+rep(n, k, no, yes, " or ")+")\n", "negated alternatives", n, k)
			run("reject "+rep(n, k, yes, miss, " ")+"\n", "series, one missing", n, k)
			run("reject not ("+rep(n, k, yes, miss, " ")+")\n", "negated series, one missing", n, k)
			run("reject "+rep(n, k, no, miss, " or ")+" or "+yes+"\n", "alternatives, one missing", n, k)
			run("reject "+rep(n, k, no, miss, "; ")+"; "+yes+"\n", "clauses, one missing", n, k)
			run("reject "+rep(n, k, "("+no+" or "+yes+")", "("+no+" or not "+yes+")", " ")+"\n", "series of groups", n, k)
		}
		run("reject "+strings.Repeat("not ", n)+yes+"\n", "negations", n)
		run("reject "+strings.Repeat("not ", n)+miss+"\n", "negations of a missing file", n)
		run("reject "+strings.Repeat("(", n)+yes+strings.Repeat(")", n)+"\n", "parentheses", n)
		run("reject "+strings.Repeat("not (", n)+yes+strings.Repeat(")", n)+"\n", "negated parentheses", n)
		run("reject "+strings.Repeat("("+no+" or (", n)+yes+strings.Repeat("))", n)+"\n", "nested alternatives", n)
	}
}

// labels makes a name of n labels.
func labels(n int) string {
	var l []string
	for i := n; i > 0; i-- {
		l = append(l, fmt.Sprintf("l%d", i))
	}
	return strings.Join(l, ".")
}

func wideC05(w *W) {
	w.Rules("")
	w.Start(ref.Conf{NoStd: true}, "-r", "rules")
	run := func(name, pat, desc string) {
		w.Res.Evals++
		x := newWorld()
		x.PTR["198.51.100.7"] = []string{name + "."}
		x.A[strings.ToLower(name)] = []string{"198.51.100.7"}
		w.UseWorld(x)
		rs := w.useRules(fmt.Sprintf("@from reject from a@x.net helo %s\n@from reject from b@x.net host %s\n@from reject from c@%s source %s\n@from reject from @%s\n", pat, pat, strings.TrimPrefix(name, "."), pat, pat))
		t := w.Session(desc, client, local, ref.SessOpt{Rules: rs})
		for _, h := range []string{name, "other.net"} {
			t.Do("EHLO", h)
			for _, f := range []string{"a@x.net", "b@x.net", "c@" + name} {
				e, _ := t.Do("MAIL", f)
				w.Outcome(fmt.Sprintf("%dxx", e.Class))
				t.Do("RSET", "")
			}
		}
		w.State(desc)
		t.Close()
	}
	for _, n := range sizes(40, pick(w.Tier, 260, 1100)) {
		if n == 0 {
			continue
		}
		for _, k := range places(n) {
			if !w.Mine() {
				continue
			}
			s := labels(n)
			p := labels(n - k)
			run(s, p, fmt.Sprintf("name of %d labels, pattern of %d", n, n-k))
			run(s, "."+p, fmt.Sprintf("name of %d labels, domain pattern of %d", n, n-k))
			run(s, "."+p[1:], fmt.Sprintf("name of %d labels, domain pattern of %d without a letter", n, n-k))
			run(strings.ToUpper(s), "."+p, fmt.Sprintf("upper case name of %d labels, domain pattern of %d", n, n-k))
		}
	}
	for _, n := range sizes(70, pick(w.Tier, 1100, 9000)) {
		if n == 0 || !w.Mine() {
			continue
		}
		l := strings.Repeat("x", n)
		run(l+".b.net", ".b.net", fmt.Sprintf("label of %d", n))
		run("a."+l+".net", "."+l+".net", fmt.Sprintf("label of %d in the middle", n))
		run("a."+l+".net", "."+l[1:]+".net", fmt.Sprintf("label of %d in the middle, pattern shorter", n))
		run("a."+l, "."+l, fmt.Sprintf("last label of %d", n))
	}
}

// ascii are the characters that may be in an SMTP command.
func ascii() string {
	var b []byte
	for c := byte(' '); c < 0x7f; c++ {
		b = append(b, c)
	}
	return string(b)
}

func wideC10(w *W) {
	makeCerts(1)
	rs := w.useRules("@from set-with from sd@x.net with savedir save2\n@message reject to rej@z.net\n")
	clearDir("save")
	clearDir("save2")
	hash := []string{"all", "full", "msg"}[w.Shard%3]
	w.Start(ref.Conf{NoStd: true, Dir: "save", Hash: hash, TLS: true, Log: hash == "msg"}, "-r", "rules")
	w.UseWorld(newWorld())
	n := 0
	k, m := w.N/3, w.Shard/3
	var tls *vrt.TLSOutcome
	deliver := func(helo, from string, rcpts []string, body, desc string) {
		if n++; n%k != m {
			return
		}
		w.Res.Evals++
		clearDir("save")
		clearDir("save2")
		w.D.Saved = map[string]ref.Saved{}
		t := w.Session("-save-hash "+hash+", "+desc, client, local, ref.SessOpt{Rules: rs})
		t.Do("EHLO", helo)
		if tls != nil {
			t.DoCmd(vrt.Cmd{Verb: "STARTTLS", TLS: tls})
			t.Do("EHLO", helo)
		}
		e := t.message(from, rcpts, body)
		want := map[string]string{}
		for k, s := range w.D.Saved {
			want[k] = s.Content
		}
		if df := diffFiles(want, dirFiles("save", "save2")); df != "" {
			t.fail("%s", short(df))
		}
		w.Outcome(fmt.Sprintf("message %dxx", e.Class))
		w.State(hash, desc)
		t.Close()
	}
	one := []string{"p@z.net"}
	// every byte in every place
	for c := 0; c < 256; c++ {
		for _, p := range []string{"%s", "Subject: a\n\n%sx\n", "a%sb", "Subject: %s\n\nx", "Subject: a\n\nx%s", "Subject: a\n\n%[1]s%[1]s", "Subject: a\n\nx\n%s\n\ny"} {
			deliver("h.net", "a@x.net", one, fmt.Sprintf(p, string([]byte{byte(c)})), fmt.Sprintf("byte %d in the message as %q", c, p))
		}
		if c >= ' ' && c < 0x7f {
			s := string([]byte{byte(c)})
			for _, p := range []string{s, "a" + s + "b", s + "d", s + "s" + s} {
				deliver(p, "a@x.net", one, "x\n", "HELO "+p)
				deliver("h.net", p+"@x.net", one, "x\n", "from "+p+"@x.net")
				deliver("h.net", "a@x.net", []string{p + "@z.net", "p@z.net", "q@" + p}, "x\n", "to "+p)
			}
		}
	}
	// every cipher with a name, those next to one, and every protocol
	for c := 0; c < 1<<16; c++ {
		known := func(c int) bool { return ref.CipherNames[uint16(c)] != "" }
		if known(c) || known(c+1) || known(c-1) || c == 0xffff {
			tls = &vrt.TLSOutcome{Version: 0x303, Cipher: uint16(c)}
			deliver("h.net", "a@x.net", one, "x\n", fmt.Sprintf("TLS with cipher %04x", c))
		}
	}
	for v := range 0x400 {
		if v < 3 || v > 0x2f0 {
			tls = &vrt.TLSOutcome{Version: uint16(v), Cipher: 0x2f}
			deliver("h.net", "a@x.net", one, "x\n", fmt.Sprintf("TLS of version %04x", v))
		}
	}
	tls = nil
	for _, p := range []string{"%d", "%s", "%v", "%!", "%%", "%n", "100%", "%[1]s", "%*d", "${x}", "$HOME", "`x`", "{{.}}", "\\n", "\\", "<b>", "&amp;"} {
		deliver(p, p+"@x.net", []string{p + "@z.net"}, "Subject: "+p+"\n\n"+p+"\n"+p, "text "+p+" everywhere")
	}
	// sizes
	for _, n := range sizes(300, pick(w.Tier, 1<<24+1, 1<<27+1)) {
		deliver("h.net", "a@x.net", one, strings.Repeat("x", n), fmt.Sprintf("message of %d bytes", n))
		deliver("h.net", "a@x.net", []string{"rej@z.net"}, strings.Repeat("y\n", n/2), fmt.Sprintf("refused message of %d bytes", n/2*2))
		if n <= 1<<16+1 {
			deliver("h.net", "a@x.net", one, "Subject: "+strings.Repeat("x", n)+"\n\nx\n", fmt.Sprintf("header of %d bytes", n))
			deliver("h.net", "a@x.net", one, strings.Repeat("X: y\n", n)+"\nx\n", fmt.Sprintf("%d headers", n))
		}
	}
	for _, n := range sizes(70, pick(w.Tier, 9000, 70000)) {
		s := strings.Repeat("x", n)
		deliver(s, "a@x.net", one, "x\n", fmt.Sprintf("HELO name of %d bytes", n))
		deliver("h.net", s+"@x.net", one, "x\n", fmt.Sprintf("sender of %d bytes", n))
		deliver("h.net", "a@x.net", []string{s + "@z.net"}, "x\n", fmt.Sprintf("recipient of %d bytes", n))
		if n > 0 && n <= 2100 {
			deliver("h.net", "a@x.net", rcptList(n), "x\n", fmt.Sprintf("%d recipients", n))
		}
	}
}

func wideC12(w *W) {
	makeCerts(1)
	clearDir("save")
	x := &c12{w: w, file: map[string]string{}}
	x.rs = w.useRules(c12Rules)
	w.Start(ref.Conf{NoStd: true, Dir: "save", Log: true, TLS: true}, "-r", "rules")
	w.UseWorld(newWorld())
	vrt.RecordWrites = func(r vrt.WriteRec) {
		if filepath.Base(r.Path) == "msg.log" {
			x.log = append(x.log, r.Data)
		} else if filepath.Base(filepath.Dir(r.Path)) == "save" {
			x.file[filepath.Base(r.Path)] += r.Data
		}
	}
	// a session with many transactions
	for first, kind := range []string{"complete", "cut", "refused", "helo"} {
		if !w.Mine() {
			continue
		}
		t := w.Session("many transactions, "+kind, client, local, ref.SessOpt{Rules: x.rs})
		t.Do("EHLO", "h0.net")
		for i := 1; i <= pick(w.Tier, 1100, 11000) && !t.bad; i++ {
			w.Res.Evals++
			t.Steps = append(t.Steps[:1], fmt.Sprintf("(transaction %d)", i))
			if kind == "helo" {
				t.Do("EHLO", fmt.Sprintf("h%d.net", i))
			}
			t.Do("MAIL", fmt.Sprintf("f%d@x.net", i))
			t.Do("RCPT", fmt.Sprintf("r%d@z.net", i))
			switch {
			case kind == "cut" && i%3 != 0:
				t.Do("RSET", "")
				continue
			case kind == "refused":
				for k := 0; k < i%7; k++ {
					t.Do("RCPT", "bad@z.net")
				}
			}
			if i%2 == first%2 {
				t.Do("RCPT", "rej@z.net")
			}
			x.send(t)
			w.State(kind, fmt.Sprint(i))
		}
		t.Close()
	}
	for _, n := range sizes(70, pick(w.Tier, 1100, 11000)) {
		if n == 0 || !w.Mine() {
			continue
		}
		w.Res.Evals++
		t := w.Session(fmt.Sprintf("%d recipients, some refused", n), client, local, ref.SessOpt{Rules: x.rs})
		t.Do("EHLO", "h.net")
		for _, step := range []int{1, 2, 3} {
			t.Do("MAIL", "a@x.net")
			for i := 0; i < n; i++ {
				if i%step == 0 {
					t.Do("RCPT", fmt.Sprintf("r%d@z.net", i))
				} else {
					t.Do("RCPT", "bad@z.net")
				}
			}
			x.send(t)
			w.State("recipients", fmt.Sprint(n, step))
		}
		t.Close()
	}
	for _, n := range sizes(70, pick(w.Tier, 9000, 70000)) {
		if n == 0 || !w.Mine() {
			continue
		}
		w.Res.Evals++
		s := strings.Repeat("x", n)
		t := w.Session(fmt.Sprintf("names of %d characters", n), client, local, ref.SessOpt{Rules: x.rs})
		for _, h := range []string{s, "h.net", s + "y"} {
			t.Do("EHLO", h)
			t.Do("MAIL", s+"@x.net")
			t.Do("RCPT", s+"@z.net")
			t.Do("RCPT", "p@"+s)
			x.send(t)
		}
		w.State("length", fmt.Sprint(n))
		t.Close()
	}
	// characters in names
	for _, c := range ascii() {
		if !w.Mine() {
			continue
		}
		w.Res.Evals++
		t := w.Session(fmt.Sprintf("character %q", c), client, local, ref.SessOpt{Rules: x.rs})
		for _, p := range []string{"%c", "a%cb", "%cd%[1]cs"} {
			s := fmt.Sprintf(p, c)
			t.Do("EHLO", s)
			t.Do("MAIL", s+"@x.net")
			t.Do("RCPT", s+"@z.net")
			t.Do("RCPT", "p@"+s)
			x.send(t)
			w.State("character", s)
		}
		t.Close()
	}
}

func wideC13(w *W) {
	limits := sizes(12, 300)
	n := limits[1+w.Shard%(len(limits)-1)]
	if w.Par["limit"] != "" {
		fmt.Sscan(w.Par["limit"], &n)
	}
	rs := w.useRules(c13Rules)
	dur := 3 * time.Hour
	w.Start(ref.Conf{NoStd: true, DN: n, DNDur: dur, MinPhase: "to", SMTPLog: true}, "-r", "rules")
	w.UseWorld(newWorld())
	nip := 0
	run := func(desc, ip, kind string) bool {
		w.Res.Evals++
		t := w.Session(fmt.Sprintf("-dncount %d, %s", n, desc), hostport(ip), local, ref.SessOpt{Rules: rs})
		t.Do("EHLO", "h.net")
		if kind == "reach" {
			t.Do("MAIL", "a@x.net")
			t.Do("RCPT", "p@z.net")
		}
		w.Outcome(fmt.Sprintf("stalled=%v", t.M.Stalled))
		w.State(fmt.Sprint(n), desc)
		t.Close()
		synctest.Wait()
		return !t.bad
	}
	// up to the limit and far beyond, each within the window of the one before
	for _, gap := range []time.Duration{0, dur - time.Minute} {
		nip++
		ip := ipAddr(nip)
		for i := 0; i < n+300; i++ {
			if !run(fmt.Sprintf("session %d, gap %v", i, gap), ip, "") {
				return
			}
			if gap > 0 && i < n-1 {
				time.Sleep(gap)
			}
		}
	}
	// in one session
	nip++
	t := w.Session(fmt.Sprintf("-dncount %d, many transactions in one session", n), hostport(ipAddr(nip)), local, ref.SessOpt{Rules: rs})
	t.Do("EHLO", "h.net")
	for i := 0; i < n+4 && !t.S.Closed && !t.bad; i++ {
		t.Do("MAIL", "a@x.net")
		t.Do("RSET", "")
	}
	t.Close()
	// cleared just before the limit; other addresses in between
	nip++
	ip := ipAddr(nip)
	for i := 0; i < n-1; i++ {
		run(fmt.Sprintf("session %d before one that reaches the phase", i), ip, "")
		nip++
		run(fmt.Sprintf("another address after session %d", i), ipAddr(nip), "")
	}
	run("reaches the phase", ip, "reach")
	for i := 0; i < n+1; i++ {
		run(fmt.Sprintf("session %d after one that reached the phase", i), ip, "")
	}
	// made to do nothing at once by a rule
	nip++
	ip = ipAddr(nip)
	t = w.Session(fmt.Sprintf("-dncount %d, make-yakker", n), hostport(ip), local, ref.SessOpt{Rules: rs})
	t.Do("EHLO", "yak.net")
	t.Close()
	synctest.Wait()
	run("after make-yakker", ip, "")
	time.Sleep(dur + time.Minute)
	run("when the window has passed", ip, "")
}

func wideC15(w *W) {
	makeCerts(1)
	rs := w.useRules(c15Rules)
	w.Start(ref.Conf{NoStd: true, TLS: true}, "-r", "rules")
	w.UseWorld(newWorld())
	nip := 0
	sess := func(desc, ip string, what string) bool {
		w.Res.Evals++
		t := w.Session(desc, hostport(ip), local, ref.SessOpt{Rules: rs})
		t.Do("EHLO", "h.net")
		ask := t.M.AskClient
		if what != "" {
			e, _ := t.DoCmd(vrt.Cmd{Verb: "STARTTLS", TLS: &vrt.TLSOutcome{Version: 0x303, Cipher: 0x2f, Fail: what == "fail"}})
			if e.Class == 2 && !t.bad && (t.S.C.Info["clientauth"] != "0") != ask {
				t.fail("expected a client certificate to be asked for=%v", ask)
			}
			w.Outcome(fmt.Sprintf("%s %dxx", what, e.Class))
			if what == "ok" {
				t.Do("EHLO", "h.net")
			}
		}
		w.State(desc)
		t.Close()
		synctest.Wait()
		return !t.bad
	}
	for _, n := range sizes(20, 300) {
		if !w.Mine() {
			continue
		}
		// good sessions change nothing, however many
		nip++
		ip := ipAddr(nip)
		for i := 0; i < n; i++ {
			sess(fmt.Sprintf("good session %d", i), ip, "ok")
		}
		sess(fmt.Sprintf("a failure after %d good sessions", n), ip, "fail")
		for i := 0; i < n; i++ {
			sess(fmt.Sprintf("good session %d after a failure", i), ip, "ok")
		}
		sess(fmt.Sprintf("another failure after %d good sessions", n), ip, "fail")
		for i := 0; i < n; i++ {
			sess(fmt.Sprintf("session %d after two failures", i), ip, "ok")
		}
		// other addresses fail
		for i := 0; i < n; i++ {
			nip++
			sess("another address fails", ipAddr(nip), "fail")
			sess("another address fails again", ipAddr(nip), "fail")
		}
		nip++
		sess(fmt.Sprintf("after failures of %d other addresses", n), ipAddr(nip), "ok")
		sess("after failures of others", ip, "ok")
		// many failures at once, in sessions that began before
		nip++
		ip = ipAddr(nip)
		if n > 0 && n < 60 {
			var ts []*Trace
			for i := 0; i < n; i++ {
				t := w.Session(fmt.Sprintf("%d sessions that fail TLS at the same time", n), hostport(ip), local, ref.SessOpt{Rules: rs})
				t.Do("EHLO", "h.net")
				ts = append(ts, t)
			}
			for _, t := range ts {
				t.DoCmd(vrt.Cmd{Verb: "STARTTLS", TLS: &vrt.TLSOutcome{Fail: true}})
				t.Close()
			}
			synctest.Wait()
			sess(fmt.Sprintf("after %d simultaneous failures", n), ip, "ok")
			time.Sleep(71 * time.Hour)
			sess("71 hours later", ip, "ok")
			time.Sleep(2 * time.Hour)
			sess("73 hours later", ip, "ok")
		}
	}
}

func wideC16(w *W) {
	makeCerts(3)
	writeFile("conncfg", "")
	x := &c16{w: w, conf: ref.Conf{NoStd: true, Name: "cmd.net", TLS: true}}
	w.Start(x.conf, "-conncfg", "conncfg")
	w.UseWorld(newWorld())
	k := "cert=cert1.pem key=key1.pem"
	for _, n := range sizes(40, pick(w.Tier, 5100, 70000)) {
		for _, kind := range []string{"other", "comment", "blank", "block"} {
			if !w.Mine() {
				continue
			}
			var ls []c16Line
			var b strings.Builder
			for i := 0; i < n; i++ {
				l := c16Line{Local: fmt.Sprintf("10.1.%d.%d", i/250%250, i%250), Host: fmt.Sprintf("o%d.net", i)}
				switch kind {
				case "comment":
					b.WriteString("# 192.0.2.1 hostname=comment.net\n")
					continue
				case "blank":
					b.WriteString(" \t\n")
					continue
				case "block":
					l.Local = fmt.Sprintf("10.%d.%d.0/24", i/250%250, i%250)
				}
				fmt.Fprintf(&b, "%s hostname=%s\n", l.Local, l.Host)
				ls = append(ls, l)
			}
			ls = append(ls, c16Line{Local: "192.0.2.1", Host: "hit.net", Certs: "cert1"})
			b.WriteString("192.0.2.1 hostname=hit.net " + k)
			for _, tail := range []string{"", "\n", "\n192.0.2.1 hostname=late.net\n"} {
				writeFile("conncfg", b.String()+tail)
				x.check(fmt.Sprintf("%d lines (%s) and the one that matters, then %q", n, kind, tail), local, ls, true)
			}
			writeFile("conncfg", b.String()+"\nfaulty line here\n")
			x.check(fmt.Sprintf("%d lines (%s) and then a faulty one", n, kind), local, ls, false)
		}
	}
	for _, n := range sizes(70, pick(w.Tier, 70000, 300000)) {
		if n == 0 || !w.Mine() {
			continue
		}
		s := strings.Repeat("x", n)
		writeFile("conncfg", "192.0.2.1 hostname="+s+" "+k+"\n")
		x.check(fmt.Sprintf("a host name of %d bytes", n), local, []c16Line{{Local: "192.0.2.1", Host: s, Certs: "cert1"}}, true)
		writeFile("conncfg", "192.0.2.1"+strings.Repeat(" ", n)+"hostname=hit.net "+k+"\n")
		x.check(fmt.Sprintf("%d blanks", n), local, []c16Line{{Local: "192.0.2.1", Host: "hit.net", Certs: "cert1"}}, true)
		writeFile("conncfg", "#"+s+" 192.0.2.1 hostname=no.net\n192.0.2.1 hostname=hit.net "+k+"\n")
		x.check(fmt.Sprintf("a comment of %d bytes", n), local, []c16Line{{Local: "192.0.2.1", Host: "hit.net", Certs: "cert1"}}, true)
	}
}

func wideC17(w *W) {
	rs := w.useRules(c17Rules)
	w.Start(ref.Conf{NoStd: true}, "-r", "rules")
	dom := "dom.x.net"
	test := func(desc string, x *ref.World) {
		w.Res.Evals++
		w.UseWorld(x)
		w.Outcome(x.Domain(dom))
		w.State(desc)
		t := w.Session(desc, client, local, ref.SessOpt{Rules: rs})
		for _, h := range []string{"f1.net", "f2.net", "f3.net"} {
			t.Do("EHLO", h)
			t.Do("MAIL", "u@"+dom)
			t.Do("RSET", "")
		}
		t.Close()
	}
	kinds := map[string]string{"good": "203.0.113.1", "private": "10.1.1.1", "none": "", "temp": "!timeout", "localhost": "203.0.113.1"}
	for _, n := range sizes(40, pick(w.Tier, 260, 1100)) {
		if n == 0 {
			continue
		}
		for _, k := range places(n) {
			if !w.Mine() {
				continue
			}
			for usual, ua := range kinds {
				for odd, oa := range kinds {
					if usual == odd || usual == "localhost" {
						continue
					}
					x := newWorld()
					for i := 0; i < n; i++ {
						h := fmt.Sprintf("mx%d.x.net", i)
						a := ua
						if i == k {
							a = oa
							if odd == "localhost" {
								h = "localhost"
							}
						}
						c17Set(x, h, a)
						x.MX[dom] = append(x.MX[dom], ref.MX{Host: h + ".", Pref: uint16(i)})
					}
					test(fmt.Sprintf("%d MX hosts, %s but number %d is %s", n, usual, k, odd), x)
				}
			}
			// addresses of the domain itself
			for _, odd := range []string{"10.1.1.1", "fe80::1", "::1"} {
				x := newWorld()
				for i := 0; i < n; i++ {
					a := fmt.Sprintf("203.0.%d.%d", 1+i/250, 1+i%250)
					if i == k {
						a = odd
					}
					x.A[dom] = append(x.A[dom], a)
				}
				test(fmt.Sprintf("%d addresses, number %d is %s", n, k, odd), x)
			}
		}
	}
	// many domains in one session
	for _, n := range sizes(10, pick(w.Tier, 600, 5100)) {
		if !w.Mine() {
			continue
		}
		w.Res.Evals++
		x := newWorld()
		sts := []string{"203.0.113.1", "10.1.1.1", "!timeout", ""}
		for i := 0; i < n; i++ {
			c17Set(x, fmt.Sprintf("d%d.x.net", i), sts[i%4])
		}
		w.UseWorld(x)
		t := w.Session(fmt.Sprintf("%d domains in one session", n), client, local, ref.SessOpt{Rules: rs})
		for round := 0; round < 2; round++ {
			for i := 0; i < n; i++ {
				t.Do("EHLO", fmt.Sprintf("f%d.net", 1+(i/4+round)%3))
				t.Do("MAIL", fmt.Sprintf("u@d%d.x.net", i))
				t.Do("RSET", "")
			}
		}
		w.State("domains", fmt.Sprint(n))
		t.Close()
	}
}

func wideC18(w *W) {
	clearDir("save")
	rs := w.useRules("reject helo n.net host n.y.net\nreject helo s.net source n.y.net\nreject helo dot.net host .y.net\nreject helo good.net dns good\nreject helo inc.net dns inconsistent\nreject helo nof.net dns noforward\nreject helo ex.net dns exists\nreject helo no.net dns nodns\n")
	w.Start(ref.Conf{NoStd: true, Dir: "save"}, "-r", "rules")
	ip := "198.51.100.7"
	for _, n := range sizes(40, pick(w.Tier, 300, 2100)) {
		if n == 0 {
			continue
		}
		for _, k := range places(n) {
			for _, usual := range []string{"ok", "other", "none"} {
				for _, odd := range []string{"ok", "other", "none", "temp"} {
					if !w.Mine() || usual == odd {
						continue
					}
					x := newWorld()
					for i := 0; i < n; i++ {
						nm, kd := fmt.Sprintf("n%04d.x.net", i), usual
						if i == k {
							nm, kd = "n.y.net", odd
						}
						x.PTR[ip] = append(x.PTR[ip], nm+".")
						switch kd {
						case "ok":
							x.A[nm] = []string{ip}
						case "other":
							x.A[nm] = []string{"198.51.100.8"}
						case "temp":
							x.Err["A "+nm] = "timeout"
						}
					}
					w.UseWorld(x)
					w.Res.Evals++
					desc := fmt.Sprintf("%d reverse names, %s but number %d is %s", n, usual, k, odd)
					t := w.Session(desc, hostport(ip), local, ref.SessOpt{Rules: rs})
					for _, h := range []string{"n", "s", "dot", "good", "inc", "nof", "ex", "no", "z"} {
						t.Do("EHLO", h+".net")
						t.Do("MAIL", "u@v.net")
						t.Do("RSET", "")
					}
					if odd == "ok" {
						f := t.M.File("x\n")
						_ = f
						clearDir("save")
						w.D.Saved = map[string]ref.Saved{}
						t.message("u@v.net", []string{"p@v.net"}, "x\n")
						want := map[string]string{}
						for k, s := range w.D.Saved {
							want[k] = s.Content
						}
						if df := diffFiles(want, dirFiles("save")); df != "" {
							t.fail("%s", short(df))
						}
					}
					w.Outcome(fmt.Sprintf("%s/%s", usual, odd))
					w.State(desc)
					t.Close()
				}
			}
		}
	}
	// one name with many addresses
	for _, n := range sizes(40, pick(w.Tier, 1100, 11000)) {
		for _, k := range places(n) {
			if !w.Mine() {
				continue
			}
			for _, hit := range []bool{true, false} {
				x := newWorld()
				x.PTR[ip] = []string{"n.y.net."}
				for i := 0; i < n; i++ {
					a := fmt.Sprintf("203.0.%d.%d", i/250, i%250)
					if i == k && hit {
						a = ip
					}
					x.A["n.y.net"] = append(x.A["n.y.net"], a)
				}
				w.UseWorld(x)
				w.Res.Evals++
				desc := fmt.Sprintf("a name with %d addresses, the client's is number %d (%v)", n, k, hit)
				t := w.Session(desc, hostport(ip), local, ref.SessOpt{Rules: rs})
				t.Do("EHLO", "n.net")
				t.Do("EHLO", "good.net")
				w.State(desc)
				t.Close()
			}
		}
	}
}

func wideC19(w *W) {
	w.Rules("")
	w.Start(ref.Conf{NoStd: true, SMTPLog: true}, "-r", "rules")
	ip := "198.51.100.7"
	// many lists, of which one has the client or its name
	for _, n := range sizes(40, pick(w.Tier, 300, 2100)) {
		if n == 0 {
			continue
		}
		for _, k := range append(places(n), -1) {
			if !w.Mine() {
				continue
			}
			w.Res.Evals++
			var b strings.Builder
			x := newWorld()
			x.A["dom.net"] = []string{"203.0.113.1"}
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "@from reject dnsbl l%d.net with message \"l%d\"\n@to reject dbl from d%d.net with message \"d%d\"\n", i, i, i, i)
				if i == k {
					x.A[fmt.Sprintf("7.100.51.198.l%d.net", i)] = []string{"127.0.0.2"}
					x.A[fmt.Sprintf("dom.net.d%d.net", i)] = []string{"127.0.0.2"}
				}
			}
			w.UseWorld(x)
			rs := w.useRules(b.String())
			for _, a := range []string{ip, "198.51.100.8"} {
				t := w.Session(fmt.Sprintf("client %s, %d lists, number %d has %s and dom.net", a, n, k, ip), hostport(a), local, ref.SessOpt{Rules: rs})
				t.Do("EHLO", "h.net")
				e, _ := t.Do("MAIL", "u@dom.net")
				t.Do("RCPT", "p@z.net")
				w.Outcome(fmt.Sprintf("%dxx", e.Class))
				w.State(a, fmt.Sprint(n, k))
				t.Close()
			}
			// many reverse names, of which one is listed
			y := newWorld()
			for i := 0; i < n; i++ {
				nm := fmt.Sprintf("n%d.x.net", i)
				y.PTR[ip] = append(y.PTR[ip], nm+".")
				switch i % 3 {
				case 0:
					y.A[nm] = []string{ip}
				case 1:
					y.A[nm] = []string{"203.0.113.1"}
				}
				if i == k {
					y.A[nm+".bl.net"] = []string{"127.0.0.2"}
				}
			}
			w.UseWorld(y)
			rs = w.useRules("@from reject dbl host bl.net\n")
			t := w.Session(fmt.Sprintf("%d reverse names, number %d is listed", n, k), hostport(ip), local, ref.SessOpt{Rules: rs})
			t.Do("EHLO", "h.net")
			e, _ := t.Do("MAIL", "u@dom.net")
			w.Outcome(fmt.Sprintf("names %dxx", e.Class))
			w.State("names", fmt.Sprint(n, k))
			t.Close()
		}
	}
	// every octet value
	rs := w.useRules("@from reject dnsbl bl.net\n")
	for o := 0; o < 256; o++ {
		for p := 0; p < 4; p++ {
			if !w.Mine() {
				continue
			}
			w.Res.Evals++
			a := []any{51, 52, 53, 54}
			a[p] = o
			x := newWorld()
			x.A[fmt.Sprintf("%d.%d.%d.%d.bl.net", a[3], a[2], a[1], a[0])] = []string{"127.0.0.2"}
			w.UseWorld(x)
			for _, c := range []string{fmt.Sprintf("%d.%d.%d.%d", a...), fmt.Sprintf("%d.%d.%d.%d", a[3], a[2], a[1], a[0]), "51.52.53.55"} {
				t := w.Session(fmt.Sprintf("client %s, listed %v", c, a), hostport(c), local, ref.SessOpt{Rules: rs})
				t.Do("EHLO", "h.net")
				t.Do("MAIL", "u@dom.net")
				w.State(c, fmt.Sprint(a...))
				t.Close()
			}
		}
	}
}

func init() {
	addWide("C01", 8, "the number of rules before the one that decides (not matching, set-with, other phases), the number of recipients with the one that matters at each place, lengths of names, length of a session", "up to 1100 rules, recipients and transactions, names up to 9000", wideC01)
	addWide("C02", 4, "the number of recipients and transactions after a refused null sender", "up to 1100", wideC02)
	addWide("C03", 8, "the number of operations in a series or alternative, of clauses, negations and parentheses, with the odd one out at each place", "up to 1100", wideC03)
	addWide("C05", 4, "the number and length of labels of names and patterns", "up to 260 labels, labels up to 1100", wideC05)
	addWide("C10", 12, "every byte value in the message and every printable character in each name; every named cipher and its neighbours, protocol versions; the size of the message, headers, names and recipients", "messages up to 16 MB", wideC10)
	addWide("C12", 4, "the number of transactions in a session, of recipients, the length of names, and every printable character", "up to 1100 transactions and 1100 recipients, names up to 9000 characters", wideC12)
	addWide("C13", len(sizes(12, 300))-1, "the limit, and the number of sessions up to it and beyond", "limits up to 300", wideC13)
	addWide("C15", 4, "the number of good and failed TLS sessions, of this and of other addresses", "up to 300", wideC15)
	addWide("C16", 8, "the number of lines before the one that applies, and lengths of lines", "up to 5000 lines and 70000 bytes", wideC16)
	addWide("C17", 8, "the number of MX hosts and addresses with the odd one out at each place, and of domains in a session", "up to 260 hosts and addresses, 600 domains", wideC17)
	addWide("C18", 4, "the number of reverse names, and of addresses of one, with the odd one out at each place", "up to 300 names and 1100 addresses", wideC18)
	addWide("C19", 4, "the number of lists and of reverse names with the listed one at each place, and every octet value", "up to 300 lists and names", wideC19)
}
