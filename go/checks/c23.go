package checks

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"path/filepath"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"verif/ref"
	"verif/vrt"
)

// C23: log files have exactly one whole, correct line per event.

var c23Rules = "@connect reject ip 198.18.0.0/16\n@helo set-with helo .note.net with note \"short\"\n@helo set-with helo long.note.net with note \"" + strings.Repeat("long ", 4000) + "\"\n" +
	"@from set-with from fail@x.net with savedir nosuch\n@to reject to yak@z.net with make-yakker\n@message reject to rej@z.net\n"

// c23 watches the logs.
type c23 struct {
	w   *W
	mu  sync.Mutex
	got map[string][]string // what was written, by file
}

func (x *c23) take() map[string][]string {
	x.mu.Lock()
	defer x.mu.Unlock()
	g := x.got
	x.got = map[string][]string{}
	return g
}

// line checks one write to the SMTP log: one whole line, with an id of one of
// the sessions. It gives the session's index.
func c23line(rec string, ids []string) (int, string) {
	if rec == "" || !strings.HasSuffix(rec, "\n") || strings.Count(rec, "\n") != 1 {
		return -1, fmt.Sprintf("%.300q was written to the SMTP log in one piece, not one whole line", rec)
	}
	for i, id := range ids {
		if strings.HasPrefix(rec, id) && len(rec) > len(id) && (rec[len(id)] < '0' || rec[len(id)] > '9') {
			return i, ""
		}
	}
	return -1, fmt.Sprintf("%.300q was written to the SMTP log, without the id of any session (%v)", rec, ids)
}

// smtp checks one session's lines in the SMTP log.
func c23smtp(lines []string, cmds int, notes []string) string {
	n := 0
	var got []string
	for _, l := range lines {
		_, l, _ = strings.Cut(l, "/")
		l = strings.TrimLeft(l, "0123456789")
		if strings.HasPrefix(l, "r ") {
			n++
		}
		if _, s, ok := strings.Cut(l, "! rule note: "); ok {
			got = append(got, strings.TrimSuffix(s, "\n"))
		}
	}
	if n != cmds {
		return fmt.Sprintf("the SMTP log has %d commands of the session, not %d", n, cmds)
	}
	if strings.Join(got, "\n") != strings.Join(notes, "\n") {
		return fmt.Sprintf("the SMTP log has the notes %.200q, not %.200q", got, notes)
	}
	return ""
}

func (x *c23) history(ip string, kinds []string, rs []ref.Rule) {
	w := x.w
	pre := "sessions: " + strings.Join(kinds, ", ")
	for _, k := range kinds {
		raddr := hostport(ip)
		if k == "drop" {
			raddr = "198.18.0.1:4000"
		}
		w.D.Logged = nil
		x.take()
		before := w.D.Yak.Count(ip)
		at := time.Now().Format("2006-01-02 15:04:05")
		t := w.Session(pre, raddr, local, ref.SessOpt{Rules: rs})
		cmds := 0
		do := func(v, a string, tl ...*vrt.TLSOutcome) {
			if t.S.Closed || t.bad {
				return
			}
			c := vrt.Cmd{Verb: v, Arg: a}
			if len(tl) > 0 {
				c.TLS = tl[0]
			}
			t.DoCmd(c)
			if v != "BODY" {
				cmds++
			}
		}
		msg := func(from, rcpt, body string) {
			do("MAIL", from)
			do("RCPT", rcpt)
			do("RCPT", "q@z.net")
			do("DATA", "")
			if t.M.InData() {
				do("BODY", body)
			}
		}
		odd := false
		end := true
		switch k {
		case "quit", "drop":
		case "abort":
			end = false
		case "msg":
			do("EHLO", "h.net")
			msg("a@x.net", "p@z.net", "Subject: a\n\nb\n")
		case "two":
			do("EHLO", "h.net")
			msg("a@x.net", "p@z.net", "Subject: a\n\nb\n")
			msg("b@x.net", "rej@z.net", "Subject: a\n\nb\n")
			do("RSET", "")
			msg("c@x.net", "p@z.net", "")
			end = false
		case "many":
			// log lines longer than any buffer
			do("EHLO", "h.net")
			for _, n := range []int{60, 130, 1100} {
				do("MAIL", "a@x.net")
				for i := 0; i < n; i++ {
					do("RCPT", fmt.Sprintf("r%d-%s@z.net", i, strings.Repeat("x", 60)))
				}
				do("DATA", "")
				do("BODY", "x\n")
			}
		default:
			// a text everywhere
			s := strings.TrimPrefix(k, "text:")
			if s == k {
				panic(k)
			}
			do("EHLO", s)
			do("EHLO", "note.net")
			msg(s+"@x.net", s+"@z.net", "Subject: "+s+"\n\n"+s+"\n")
			msg("a@"+s, "p@"+s, s)
			do("MAIL", "a@x.net")
			do("RCPT", "refuse@z.net")
			do("RSET", "")
			do("HELO", s)
		case "sizes":
			do("EHLO", "h.net")
			for _, n := range sizes(300, 70000) {
				msg("a@x.net", "p@z.net", strings.Repeat("\n", min(n, 2))+strings.Repeat("x", max(0, n-2)))
				msg("a@x.net", "p@z.net", strings.Repeat("y", n))
			}
		case "fail":
			do("EHLO", "h.net")
			msg("fail@x.net", "p@z.net", "x\n")
		case "cut":
			do("EHLO", "h.net")
			do("MAIL", "a@x.net")
			do("RCPT", "p@z.net")
			do("DATA", "")
			end = false
		case "yak":
			do("EHLO", "h.net")
			do("MAIL", "a@x.net")
			do("RCPT", "yak@z.net")
		case "note":
			do("EHLO", "a.note.net")
			do("EHLO", "long.note.net")
			do("MAIL", "a@x.net")
		case "rset":
			do("EHLO", "h.net")
			for i := 0; i < 4; i++ {
				do("MAIL", "a@x.net")
				do("RSET", "")
			}
		case "tlsfail":
			do("EHLO", "h.net")
			do("STARTTLS", "", &vrt.TLSOutcome{Fail: true})
			end = false
		case "tls1", "tls2", "tls3":
			odd = true
			o := &vrt.TLSOutcome{Version: 0x303, Cipher: 0x2f, ServerName: "s\nid 1/1\n", PeerCert: &x509.Certificate{Subject: pkix.Name{CommonName: "a\n1/1! forged\r\nx"}}}
			if k == "tls2" {
				o.ServerName, o.PeerCert = "\n\nbody\n", &x509.Certificate{DNSNames: []string{"\n"}}
			}
			if k == "tls3" {
				o.ChainVerify = true
			}
			do("EHLO", "h.net")
			do("STARTTLS", "", o)
			do("EHLO", "h.net")
			msg("a@x.net", "p@z.net", "x\n")
		}
		if end {
			do("QUIT", "")
		}
		t.Close()
		synctest.Wait()
		w.Outcome(fmt.Sprintf("%s stalled=%v", k, t.M.Stalled))
		w.State(k, fmt.Sprint(before, w.D.Yak.Count(ip), w.D.NoTLS.Count(ip)), t.M.Key())
		g := x.take()
		var want []string
		for _, l := range w.D.Logged {
			want = append(want, l+"\n")
		}
		if fmt.Sprintf("%q", g["msg.log"]) != fmt.Sprintf("%q", want) {
			t.fail("the writes to the message log in the session were %q, not %q", g["msg.log"], want)
		}
		dn := g["dn.log"]
		if t.M.Stalled {
			if len(g["smtp.log"]) > 0 {
				t.fail("a stalled do-nothing session wrote to the SMTP log: %q", g["smtp.log"])
			}
			if l := fmt.Sprintf("%s [%s] connection %s -> %s\n", at, t.M.ID, t.M.RIP, local); len(dn) != 1 || dn[0] != l {
				t.fail("a stalled do-nothing session gave %q in the do-nothing log, not %q", dn, l)
			}
		} else {
			for _, l := range dn {
				if strings.Contains(l, "] connection ") || !strings.Contains(l, " ["+t.M.ID+"] ") || strings.Count(l, "\n") != 1 || !strings.HasSuffix(l, "\n") {
					t.fail("the do-nothing log of a session that was not stalled has %q", l)
				}
			}
			for _, l := range g["smtp.log"] {
				if _, why := c23line(l, []string{t.M.ID}); why != "" {
					t.fail("%s", why)
				}
			}
			if why := c23smtp(g["smtp.log"], cmds, t.M.Notes); why != "" {
				t.fail("%s", why)
			}
			if len(g["smtp.log"]) == 0 {
				t.fail("the session is not in the SMTP log")
			}
		}
		if odd {
			// the saved file has the lines it should have, in order
			for f, s := range dirFiles("save") {
				hd, _, _ := strings.Cut(s, "\nbody\n")
				var keys []string
				for _, l := range strings.Split(hd, "\n") {
					k, _, _ := strings.Cut(l, " ")
					keys = append(keys, k)
				}
				if ks := strings.Join(keys, " "); t.M.TLSOn && ks != "id remote tls from to to hash bodyhash" {
					t.fail("the saved message %s has lines %s: %q", f, ks, s)
				}
			}
		}
		clearDir("save")
		w.D.Saved = map[string]ref.Saved{}
		if t.bad {
			return
		}
	}
}

var c23Scripts = [][]string{
	{"EHLO h.net", "MAIL a@x.net", "RCPT p@z.net", "RCPT q@z.net", "DATA", "BODY Subject: one\n\none\n", "MAIL b@x.net", "RCPT rej@z.net", "DATA", "BODY two\n", "QUIT"},
	{"EHLO long.note.net", "MAIL a@x.net", "RCPT p@z.net", "DATA", "BODY Subject: three\n\n3\n"},
	{"EHLO yak.net", "MAIL a@x.net", "QUIT"}, // from a stalled client
}

// check compares the logs after sessions that ran at the same time.
func (x *c23) check(desc string, ls []*live, rs []ref.Rule) {
	w := x.w
	w.Res.Evals++
	w.Res.Traces++
	fail := func(f string, a ...any) { w.Fail(desc, "%s\n  in: %s", fmt.Sprintf(f, a...), desc) }
	g := x.take()
	w.D.Logged = nil
	var ids []string
	var ms []*ref.Sess
	var want [][]string
	for _, l := range ls {
		m := w.D.Connect(l.Raddr, l.Laddr, ref.SessOpt{Rules: rs})
		n := len(w.D.Logged)
		if d := w.replies(l, m); d != "" {
			fail("%s", d)
			return
		}
		ids = append(ids, m.ID)
		ms = append(ms, m)
		want = append(want, w.D.Logged[n:len(w.D.Logged):len(w.D.Logged)])
	}
	for _, p := range vrt.Panics() {
		fail("the server panicked: %s", p)
	}
	at := make([]int, len(ls))
	for _, l := range g["msg.log"] {
		ok := false
		for i := range ls {
			// The model's time is that of the end; stalled sessions take long.
			if at[i] < len(want[i]) && len(l) > 20 && l[19:] == want[i][at[i]][19:]+"\n" {
				at[i]++
				ok = true
				break
			}
		}
		if !ok {
			fail("unexpected write to the message log: %q", l)
		}
	}
	for i := range ls {
		if at[i] != len(want[i]) {
			fail("the message log lacks %q", want[i][at[i]])
		}
	}
	by := make([][]string, len(ls))
	for _, l := range g["smtp.log"] {
		i, why := c23line(l, ids)
		if why != "" {
			fail("%s", why)
			return
		}
		by[i] = append(by[i], l)
	}
	dn := map[string]int{}
	for _, l := range g["dn.log"] {
		ok := false
		for i, m := range ms {
			if m.Stalled && strings.HasSuffix(l, fmt.Sprintf(" [%s] connection %s -> %s\n", m.ID, m.RIP, ls[i].Laddr)) && strings.Count(l, "\n") == 1 {
				ok = true
				dn[m.ID]++
			}
		}
		if !ok {
			fail("unexpected write to the do-nothing log: %q", l)
		}
	}
	for i, m := range ms {
		if m.Stalled {
			if len(by[i]) > 0 || dn[m.ID] != 1 {
				fail("a stalled do-nothing session wrote %q to the SMTP log and %d lines to the do-nothing log", by[i], dn[m.ID])
			}
			continue
		}
		n := 0
		for k, c := range ls[i].Cmds {
			if c.Verb != "BODY" && k < len(ls[i].Outs)-1 {
				n++
			}
		}
		if why := c23smtp(by[i], n, m.Notes); why != "" {
			fail("%s", why)
		}
	}
	clearDir("save")
	w.D.Saved = map[string]ref.Saved{}
}

func runC23(w *W) {
	makeCerts(1)
	clearDir("save")
	w.Rules(c23Rules)
	rs, v, why, _ := ref.Read(c23Rules, nil)
	if v != ref.Good {
		panic(why)
	}
	logs := []string{"msg.log", "smtp.log", "dn.log"}
	for _, f := range logs {
		writeFile(f, "old "+f+"\n")
	}
	args := []string{"-dnlog", "dn.log", "-r", "rules"}
	if w.Par["same"] != "" {
		writeFile("all.log", "old all.log\n")
		args = append(args, "-dnlog", "all.log", "-l", "all.log", "-smtplog", "all.log")
	}
	w.Start(ref.Conf{NoStd: true, Dir: "save", Hash: "msg", TLS: true, Log: true, SMTPLog: true, DN: 2, MinPhase: "to"}, args...)
	w.UseWorld(&ref.World{})
	x := &c23{w: w, got: map[string][]string{}}
	vrt.RecordWrites = func(r vrt.WriteRec) {
		b := filepath.Base(r.Path)
		if strings.HasSuffix(b, ".log") {
			x.mu.Lock()
			x.got[b] = append(x.got[b], r.Data)
			x.mu.Unlock()
		}
	}
	kinds := []string{"quit", "abort", "drop", "msg", "two", "fail", "cut", "yak", "note", "rset", "tlsfail", "tls1", "tls2", "tls3"}
	nip := 0
	// scripts for simultaneous sessions; the third one's client is stalled
	mk := func(i int) script {
		nip++
		s := script{Raddr: hostport(ipAddr(nip)), Laddr: local, Cmds: cl(c23Scripts[i]...)}
		for k := range s.Cmds {
			if s.Cmds[k].Verb == "BODY" {
				s.Cmds[k].Arg += fmt.Sprintln(nip)
			}
		}
		if i == 2 {
			for k := 0; k < 2; k++ {
				t := w.Session("making a client do nothing", s.Raddr, local, ref.SessOpt{Rules: rs})
				t.Do("QUIT", "")
				t.Close()
			}
			x.take()
		}
		return s
	}
	n := len(c23Scripts)
	switch w.Name {
	case "kinds":
		depth := 3
		fmt.Sscan(w.Par["depth"], &depth)
		w.seqs(len(kinds), depth, func(ix []int) {
			w.Res.Evals++
			nip++
			var h []string
			for _, i := range ix {
				h = append(h, kinds[i])
			}
			for _, f := range logs {
				truncate(f)
			}
			x.history(ipAddr(nip), h, rs)
		})
	case "wide":
		text := func(s string) {
			if !w.Mine() || w.Over() {
				return
			}
			w.Res.Evals++
			for _, f := range logs {
				truncate(f)
			}
			nip++
			rs := w.useRules("@helo set-with helo note.net with note " + quote(s) + "\n@to reject to refuse@z.net with message " + quote(s) + "\n")
			x.history(ipAddr(nip), []string{"text:" + s, "text:" + s}, rs)
		}
		for _, c := range ascii() {
			for _, f := range []string{"%s", "a%sb", "%sd", "%[1]ss%[1]s", "a%s"} {
				if s := fmt.Sprintf(f, string(c)); strings.TrimSpace(s) == s {
					text(s)
				}
			}
		}
		for _, s := range []string{"%!", "%%", "%[1]s", "%*d", "${x}", "$HOME", "`x`", "{{.}}", "\\n", "<b>", "&amp;"} {
			text(s)
		}
		for _, n := range sizes(70, pick(w.Tier, 9000, 70000)) {
			if n > 0 {
				text(strings.Repeat("x", n))
			}
		}
		w.Rules(c23Rules)
		if w.Mine() {
			nip++
			x.history(ipAddr(nip), []string{"sizes", "sizes"}, rs)
		}
		for _, n := range sizes(20, pick(w.Tier, 520, 2100)) {
			if n == 0 || !w.Mine() {
				continue
			}
			for _, f := range logs {
				truncate(f)
			}
			desc := fmt.Sprintf("%d sessions at the same time", n)
			w.Cur(desc)
			var ls []*live
			for i := 0; i < n; i++ {
				ls = append(ls, w.goClient(mk(0)))
			}
			w.join(ls)
			x.check(desc, ls, rs)
			w.State(desc)
		}
	case "big":
		for _, h := range [][]string{{"many"}, {"msg", "many", "note", "many", "quit"}} {
			nip++
			x.history(ipAddr(nip), h, rs)
		}
	case "old":
		w.Mine()
		x.history(ipAddr(1), []string{"msg", "quit", "yak", "quit", "quit"}, rs)
		for _, f := range logs {
			if s := readFile(f); !strings.HasPrefix(s, "old "+f+"\n") || strings.Count(s, "\n") < 2 {
				w.Fail(f, "the log file %s, which had a line before, now has %q", f, s)
			}
		}
	case "others":
		// Others write to the log files too, or empty them; perhaps there is
		// only one file for all logs.
		want := map[string]string{}
		files := logs
		if w.Par["same"] != "" {
			files = []string{"all.log"}
		}
		for _, f := range files {
			want[f] = readFile(f)
		}
		rec := vrt.RecordWrites
		vrt.RecordWrites = func(r vrt.WriteRec) {
			rec(r)
			x.mu.Lock()
			if b := filepath.Base(r.Path); strings.HasSuffix(b, ".log") {
				want[b] += r.Data
			}
			x.mu.Unlock()
		}
		depth := 4
		fmt.Sscan(w.Par["depth"], &depth)
		names := []string{"session 0", "session 1", "stalled session", "another process appends", "the files are emptied"}
		w.seqs(len(names), depth, func(ix []int) {
			w.Res.Evals++
			w.Res.Traces++
			desc := "files " + strings.Join(files, " ") + ":"
			for _, i := range ix {
				desc += " " + names[i] + ";"
				w.Cur(desc)
				switch {
				case i < 3:
					w.join([]*live{w.goClient(mk(i))})
				case i == 3:
					for _, f := range files {
						l := fmt.Sprintf("external line in %s\n", f)
						appendFile(f, l)
						want[f] += l
					}
				default:
					for _, f := range files {
						truncate(f)
						want[f] = ""
					}
				}
				for _, f := range files {
					if g := readFile(f); g != want[f] {
						w.Fail(desc, "the log file %s is %d bytes long, not %d: %.600q instead of %.600q\n  in: %s", f, len(g), len(want[f]), g, want[f], desc)
						want[f] = g
					}
					if i < 2 && want[f] == "" && f != "dn.log" {
						w.Fail(desc, "nothing was written to %s\n  in: %s", f, desc)
					}
				}
				w.State(desc)
			}
			for _, f := range files {
				truncate(f)
				want[f] = ""
			}
			clearDir("save")
		})
	case "points":
		for i := 0; i < n; i++ {
			np := 0
			for j := 0; j < n; j++ {
				for k := 0; np == 0 || k <= np; k++ {
					if k > 0 && (!w.Mine() || w.Over()) {
						continue
					}
					ss := []script{mk(i), mk(j)}
					desc := fmt.Sprintf("session 0 (%v) stops after %d points; session 1 (%v) runs; session 0 goes on", ss[0], k, ss[1])
					w.Cur(desc)
					ls, _ := w.schedule(false, pick(w.Tier, 2, 8), ss, []seg{{G: 0, N: k}, {G: 1, N: -1}, {G: 0, N: -1}})
					w.State("points", fmt.Sprint(i, j, k))
					if np == 0 {
						np = int(ls[0].G.Count)
						w.Res.Max["points in a session"] = max(w.Res.Max["points in a session"], int64(np))
					}
					x.check(desc, ls, rs)
				}
			}
		}
	case "shared":
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				a, b := 0, 0
				for k := 0; a == 0 || k <= a; k++ {
					for h := 1; b == 0 || h <= b; h++ {
						if a != 0 && (!w.Mine() || w.Over()) {
							continue
						}
						ss := []script{mk(i), mk(j)}
						desc := fmt.Sprintf("session 0 (%v) stops after %d shared points; session 1 (%v) stops after %d; session 0 goes on, then session 1", ss[0], k, ss[1], h)
						w.Cur(desc)
						ls, _ := w.schedule(true, pick(w.Tier, 1, 3), ss, []seg{{G: 0, N: k}, {G: 1, N: h}, {G: 0, N: -1}, {G: 1, N: -1}})
						if a == 0 {
							a, b = int(ls[0].G.Count), int(ls[1].G.Count)
						}
						w.State("shared", fmt.Sprint(i, j, k, h))
						x.check(desc, ls, rs)
					}
				}
			}
		}
	}
}

func init() {
	register(&Check{ID: "C23", Level: "model_checking", Run: runC23,
		Plan: func(tier string) []Job {
			l := []Job{{Name: "old"}, {Name: "big"}}
			l = append(l, shards(4, Job{Name: "kinds", Par: map[string]string{"depth": pick(tier, "3", "4")}, Budget: pick(tier, 0, 1800)})...)
			l = append(l, shards(2, Job{Name: "others", Par: map[string]string{"depth": pick(tier, "4", "5")}})...)
			l = append(l, shards(2, Job{Name: "others", Par: map[string]string{"depth": pick(tier, "4", "5"), "same": "1"}})...)
			l = append(l, shards(6, Job{Name: "points", Build: "sched", Budget: pick(tier, 0, 1800)})...)
			l = append(l, shards(6, Job{Name: "shared", Build: "sched", Budget: pick(tier, 0, 1800)})...)
			return l
		},
		Rule: "every history of sessions of 14 kinds from one address, with every single write to the log files recorded and compared: one write per message, with the model's line; one whole line with the session's id per write to the SMTP log, with all commands and notes; nothing but one do-nothing line for a stalled session. Every history of sessions, lines appended to the log files by others and emptying of the files, with three log files and with one for all: after each step the files have just what was written, in order. Then simultaneous sessions under every schedule within the bounds; state = kind, counts and session state, or schedule",
		Bounds: func(tier string) string {
			return pick(tier, "14 kinds, 3 sessions; histories of 4 with others; log lines up to 80 KB; 3 session scripts, all pairs: one preemption at every statement (first 2 executions of each), two at statements with package level state", "14 kinds, 4 sessions; histories of 5 with others; first 8 (3) executions of each statement")
		},
		Assumptions: []string{"a single write to a file opened for appending is atomic", "the smtpd package logs one line per write; it is a stand-in here"},
	})
}
