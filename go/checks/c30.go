package checks

import (
	"encoding/json"
	"expvar"
	"fmt"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"testing/synctest"
	"time"

	"verif/ref"
	"verif/vrt"
)

// C30: the published statistics.

const c30Rules = "@connect reject ip 10.99.0.0/16\nset-with helo yak.net with make-yakker\nset-with dnsbl l1.bl.net with note l1\n" +
	"@from set-with dbl from l2.bl.net with note l2\nset-with dnsbl sbl.spamhaus.org with note sbl\n" +
	"reject helo bad.net\nreject from bad@x.net\nstall from later@x.net\nreject to bad@z.net\n" +
	"@data reject to nodata@z.net\n@message reject to rej@z.net\n@message stall to later@z.net\n"

// where each event is published.
var c30Paths = map[string]string{"connections": "events/connections", "tls_errors": "events/tls_errors", "yakkers": "events/yakkers",
	"notls_conns": "events/notls_conns", "rules_errors": "events/rules_errors", "yakker_adds": "events/yakker_adds",
	"yakker_forces": "events/yakker_forces", "rsetdrops": "events/rsetdrops",
	"ehlo": "smtpcounts/commands/ehlo", "mailfrom": "smtpcounts/commands/mailfrom", "rcptto": "smtpcounts/commands/rcptto",
	"data": "smtpcounts/commands/data", "starttls": "smtpcounts/commands/starttls",
	"ehlo ok": "smtpcounts/accepted/ehlo", "mailfrom ok": "smtpcounts/accepted/mailfrom", "rcptto ok": "smtpcounts/accepted/rcptto",
	"data ok": "smtpcounts/accepted/data", "messages": "smtpcounts/accepted/messages",
	"ehlo_tlson": "smtpcounts/ehlo_tlson", "quits": "smtpcounts/quits", "aborts": "smtpcounts/aborts"}

type c30 struct {
	w     *W
	rules []ref.Rule
	perIP bool
	hits  map[string]int // logged blocklist hits
	sbls  map[string]int
	last  map[string]string // when things happened last
}

// vars reads the statistics.
func c30Vars(whole bool) (map[string]any, string) {
	if v := expvar.Get("sinksmtp"); v != nil && !whole {
		// the same part of the page, without the rest
		var m map[string]any
		if err := json.Unmarshal([]byte(v.String()), &m); err != nil {
			return nil, fmt.Sprintf("/debug/vars is not valid JSON: %v", err)
		}
		return m, ""
	}
	code, body := vrt.HTTPGet("/debug/vars")
	if code != 200 {
		return nil, fmt.Sprintf("asking for /debug/vars gave status %d: %s", code, body)
	}
	var all map[string]any
	if err := json.Unmarshal([]byte(body), &all); err != nil {
		return nil, fmt.Sprintf("/debug/vars is not valid JSON: %v", err)
	}
	m, ok := all["sinksmtp"].(map[string]any)
	if !ok {
		return nil, "/debug/vars does not have the program's statistics"
	}
	return m, ""
}

func c30Get(m map[string]any, path string) any {
	var v any = m
	for _, p := range strings.Split(path, "/") {
		mm, ok := v.(map[string]any)
		if !ok {
			return nil
		}
		v = mm[p]
	}
	return v
}

func c30Counts(v any) string {
	m, _ := v.(map[string]any)
	var l []string
	for k, n := range m {
		l = append(l, fmt.Sprintf("%s=%v", k, n))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func c30Want(m map[string]int) string {
	var l []string
	for k, n := range m {
		l = append(l, fmt.Sprintf("%s=%v", k, n))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// differ compares the statistics with the model's. It gives "" if they agree.
func (x *c30) differ() string {
	m, why := c30Vars(x.w.Name == "history")
	if why != "" {
		return why
	}
	d := x.w.D
	for ev, p := range c30Paths {
		if g := fmt.Sprint(c30Get(m, p)); g != fmt.Sprint(float64(d.Events[ev])) {
			return fmt.Sprintf("the statistics have %s=%s, but there were %d", p, g, d.Events[ev])
		}
	}
	if g, e := c30Counts(m["dnsbl_hits"]), c30Want(x.hits); g != e {
		return fmt.Sprintf("the statistics have dnsbl_hits %q, but the SMTP log has %q", g, e)
	}
	if g, e := c30Counts(m["sbl_hits"]), c30Want(x.sbls); g != e {
		return fmt.Sprintf("the statistics have sbl_hits %q, but the SMTP log has %q", g, e)
	}
	per := map[string]int{}
	if x.perIP {
		for k, n := range d.Events {
			if a, ok := strings.CutPrefix(k, "to "); ok {
				per[a] = n
			}
		}
	}
	if g, e := c30Counts(m["connects_to"]), c30Want(per); g != e {
		return fmt.Sprintf("the statistics have connects_to %q, but the connections were %q", g, e)
	}
	for k, when := range x.last {
		p := "last/" + k
		if a, what, ok := strings.Cut(k, "|"); ok {
			p = "lasts_to/" + a + "/" + what
		}
		if g := c30Get(m, p); g != when {
			return fmt.Sprintf("the statistics have %s=%v, but it was at %s", p, g, when)
		}
	}
	return ""
}

func (x *c30) now(what, laddr string) {
	x.when(what, laddr, x.w.D.Now().Format("2006-01-02 15:04:05"))
}

func (x *c30) when(what, laddr, t string) {
	x.last[what] = t
	if x.perIP {
		x.last[laddr+"|"+what] = t
	}
}

// logged takes the blocklist hits from the SMTP log.
func (x *c30) logged(r vrt.WriteRec) {
	if filepath.Base(r.Path) != "smtp.log" {
		return
	}
	for _, l := range strings.Split(r.Data, "\n") {
		if _, h, ok := strings.Cut(l, "! dnsbl hit: "); ok {
			for _, n := range strings.Fields(h) {
				x.hits[n]++
			}
		}
		if _, h, ok := strings.Cut(l, "! SBL records: "); ok {
			for _, n := range strings.Fields(h) {
				x.sbls[n]++
			}
		}
	}
}

func (x *c30) world() *ref.World {
	o := newWorld()
	for _, n := range []string{"l1.bl.net", "sbl.spamhaus.org"} {
		o.A["7.100.51.198."+n] = []string{"127.0.0.2"}
	}
	o.A["8.100.51.198.l1.bl.net"] = []string{"127.0.0.2"}
	o.A["listed.net.l2.bl.net"] = []string{"127.0.0.2"}
	return o
}

var c30Cmds = []vrt.Cmd{{Verb: "EHLO", Arg: "h1.net"}, {Verb: "HELO", Arg: "bad.net"}, {Verb: "MAIL", Arg: "a@x.net"}, {Verb: "MAIL", Arg: ""},
	{Verb: "MAIL", Arg: "bad@x.net"}, {Verb: "RCPT", Arg: "p@z.net"}, {Verb: "RCPT", Arg: "bad@z.net"}, {Verb: "RCPT", Arg: "rej@z.net"},
	{Verb: "RCPT", Arg: "nodata@z.net"}, {Verb: "DATA"}, {Verb: "BODY", Arg: "Subject: x\n\ny\n"}, {Verb: "RSET"}, {Verb: "STARTTLS"},
	{Verb: "STARTTLS", TLS: &vrt.TLSOutcome{Fail: true}}, {Verb: "NOOP"}, {Verb: "BAD"}, {Verb: "QUIT"}}

var c30Scripts = [][]string{
	{},
	{"EHLO h.net", "MAIL a@x.net", "RCPT p@z.net", "RCPT bad@z.net", "DATA", "BODY Subject: one\n\none\n", "QUIT"},
	{"EHLO h.net", "TLSFAIL"},
	{"EHLO h.net", "STARTTLS", "HELO bad.net", "EHLO h.net", "MAIL u@listed.net", "RCPT rej@z.net", "DATA", "BODY x\n"},
}

// kinds of sessions of a history.
var c30Kinds = []string{"quit", "abort", "message", "rset", "tlsfail", "badrules", "yak", "badhelo", "drop", "twice", "listed", "other local address"}

func (x *c30) session(kind, ip string, hist []string) bool {
	w := x.w
	laddr := local
	if kind == "other local address" {
		laddr = "192.0.2.2:26"
	}
	if kind == "badrules" {
		w.Rules("bogus\n")
		defer w.Rules(c30Rules)
	}
	if kind == "drop" {
		ip = "10.99.0.1"
	}
	if kind == "listed" {
		ip = "198.51.100.8"
	}
	x.now("connection", laddr)
	at := x.last["connection"]
	t := w.Session(fmt.Sprintf("sessions: %s", strings.Join(hist, ", ")), hostport(ip), laddr, ref.SessOpt{Rules: x.rules, RulesBad: kind == "badrules"})
	if t.M.Stalled {
		x.when("yakker", laddr, at)
	} else {
		x.when("regular", laddr, at)
	}
	end := true
	msg := func(rcpt string) {
		t.Do("MAIL", "a@x.net")
		t.Do("RCPT", rcpt)
		t.Do("DATA", "")
		if t.M.InData() {
			t.Do("BODY", "Subject: x\n\ny\n")
			x.now("message", laddr)
		}
	}
	switch kind {
	case "abort":
		end = false
	case "message", "badrules", "other local address":
		t.Do("EHLO", "h.net")
		msg("p@z.net")
		msg("rej@z.net")
	case "rset":
		t.Do("EHLO", "h.net")
		for _, a := range []string{"a@x.net", "", "b@x.net", "bad@x.net", "c@x.net", "d@x.net"} {
			t.Do("MAIL", a)
			t.Do("RSET", "")
		}
	case "tlsfail":
		t.Do("EHLO", "h.net")
		t.DoCmd(vrt.Cmd{Verb: "STARTTLS", TLS: &vrt.TLSOutcome{Fail: true}})
	case "yak":
		t.Do("EHLO", "yak.net")
		t.Do("EHLO", "h.net")
	case "badhelo":
		t.Do("EHLO", "bad.net")
		t.Do("HELO", "bad.net")
	case "twice":
		t.Do("EHLO", "h.net")
		t.Do("STARTTLS", "")
		t.Do("EHLO", "h.net")
		t.Do("EHLO", "i.net")
		msg("later@z.net")
		t.Do("RSET", "")
		msg("p@z.net")
	case "listed":
		t.Do("EHLO", "h.net")
		t.Do("MAIL", "u@listed.net")
		t.Do("RCPT", "p@z.net")
		t.Do("RSET", "")
		t.Do("MAIL", "u@h.net")
	}
	if end {
		t.Do("QUIT", "")
	}
	t.Close()
	synctest.Wait()
	if d := x.differ(); d != "" && !t.bad {
		t.fail("%s", d)
	}
	w.Outcome(fmt.Sprintf("%s stalled=%v", kind, t.M.Stalled))
	w.State(kind, fmt.Sprint(w.D.Yak.Count(t.M.RIP), w.D.NoTLS.Count(t.M.RIP)), t.M.Key())
	return !t.bad
}

func runC30(w *W) {
	makeCerts(1)
	w.Rules(c30Rules)
	rs, v, why, _ := ref.Read(c30Rules, nil)
	if v != ref.Good {
		panic(why)
	}
	x := &c30{w: w, rules: rs, perIP: w.Par["perip"] != "", hits: map[string]int{}, sbls: map[string]int{}, last: map[string]string{}}
	conf := ref.Conf{NoStd: true, TLS: true, SMTPLog: true}
	if w.Name == "history" {
		conf.DN, conf.DNDur, conf.MinPhase = 2, 3*time.Hour, w.Par["minphase"]
	}
	args := []string{"-r", "rules", "-pprof", "127.0.0.1:8099"}
	switch w.Par["perip"] {
	case "1":
		args = append(args, "-statsperip")
	case "2":
		args = append(args, "LISTEN 192.0.2.1:25", "LISTEN 192.0.2.2:26")
	}
	w.Start(conf, args...)
	runtime.MemProfileRate = 0 // -pprof makes it 1, which is slow
	w.UseWorld(x.world())
	if w.Name != "race" {
		vrt.RecordWrites = x.logged
	}
	synctest.Wait()
	if d := x.differ(); d != "" {
		w.Fail("at start", "%s\n  in: at start", d)
	}
	depth := 2
	fmt.Sscan(w.Par["depth"], &depth)
	n := 0
	switch w.Name {
	case "history":
		gaps := []time.Duration{0, conf.DNDur + 2*time.Second}
		w.seqs(len(c30Kinds)*len(gaps), depth, func(ix []int) {
			w.Res.Evals++
			n++
			ip := ipAddr(n)
			var hist []string
			for _, i := range ix {
				time.Sleep(gaps[i%2] + 1500*time.Millisecond)
				hist = append(hist, fmt.Sprintf("%s after %v", c30Kinds[i/2], gaps[i%2]))
				if !x.session(c30Kinds[i/2], ip, hist) {
					return
				}
			}
		})
	case "commands":
		w.seqs(len(c30Cmds), depth, func(ix []int) {
			w.Res.Evals++
			n++
			ip := ipAddr(n)
			if n%7 == 0 {
				ip = "198.51.100.7"
				delete(w.D.NoTLS, ip)
				time.Sleep(100 * time.Hour)
			}
			t := w.Session("a session", hostport(ip), local, ref.SessOpt{Rules: rs})
			t.Do("EHLO", "h0.net")
			for _, i := range ix {
				if t.bad || t.S.Closed {
					break
				}
				t.DoCmd(c30Cmds[i])
				w.State(t.M.Key())
			}
			t.Close()
			synctest.Wait()
			if d := x.differ(); d != "" && !t.bad {
				t.fail("%s", d)
			}
		})
	case "points", "shared", "race":
		one := func(ix []int, desc string, segs []seg, free bool) []*live {
			var ss []script
			for _, i := range ix {
				n++
				s := script{Raddr: hostport(ipAddr(n)), Laddr: local, Cmds: cl(c30Scripts[i]...)}
				if i == 1 {
					s.Raddr = "198.51.100.7:4000"
				}
				ss = append(ss, s)
			}
			desc = fmt.Sprintf("%s; sessions: %v", desc, ss)
			w.Cur(desc)
			w.Res.Evals++
			w.Res.Traces++
			var ls []*live
			if free {
				for _, s := range ss {
					ls = append(ls, w.goClient(s))
				}
				for i := 0; i < 3; i++ {
					if _, why := c30Vars(true); why != "" {
						w.Fail(desc, "%s\n  in: %s", why, desc)
					}
				}
				w.join(ls)
			} else {
				ls, _ = w.schedule(w.Name == "shared", pick(w.Tier, 1, 3), ss, segs)
			}
			for _, l := range ls {
				m := w.D.Connect(l.Raddr, l.Laddr, ref.SessOpt{Rules: rs})
				if d := w.replies(l, m); d != "" {
					w.Fail(desc, "%s\n  in: %s", d, desc)
				}
			}
			for _, p := range vrt.Panics() {
				w.Fail(desc, "the server panicked: %s\n  in: %s", p, desc)
			}
			if free {
				x.hits, x.sbls = map[string]int{}, map[string]int{}
				x.logged(vrt.WriteRec{Path: "smtp.log", Data: readFile("smtp.log")})
			}
			if d := x.differ(); d != "" {
				w.Fail(desc, "%s\n  in: %s", d, desc)
			}
			w.State(desc)
			return ls
		}
		k := len(c30Scripts)
		switch w.Name {
		case "race":
			for r := 0; r < 40; r++ {
				for _, t := range [][]int{{0, 0, 0}, {1, 1, 1}, {2, 2, 2}, {3, 3, 3}, {0, 1, 2, 3}, {1, 3, 1, 3}} {
					one(t, fmt.Sprintf("free run %d", r), nil, true)
				}
			}
		case "points":
			for i := 0; i < k; i++ {
				for j := 0; j < k; j++ {
					np := 0
					for p := 0; np == 0 || p <= np; p++ {
						if np > 0 && (!w.Mine() || w.Over()) {
							continue
						}
						ls := one([]int{i, j}, fmt.Sprintf("session 0 stops after %d points; session 1 runs; session 0 goes on", p), []seg{{G: 0, N: p}, {G: 1, N: -1}, {G: 0, N: -1}}, false)
						np = max(np, int(ls[0].G.Count))
					}
				}
			}
		case "shared":
			for i := 0; i < k; i++ {
				for j := 0; j < k; j++ {
					a, b := 0, 0
					for p := 1; a == 0 || p <= a; p++ {
						for h := 1; b == 0 || h <= b; h++ {
							if a > 0 && (!w.Mine() || w.Over()) {
								continue
							}
							ls := one([]int{i, j}, fmt.Sprintf("session 0 stops after %d shared points; session 1 stops after %d; session 0 goes on, then session 1", p, h), []seg{{G: 0, N: p}, {G: 1, N: h}, {G: 0, N: -1}, {G: 1, N: -1}}, false)
							a, b = max(a, int(ls[0].G.Count)), max(b, int(ls[1].G.Count))
						}
					}
				}
			}
		}
	}
}

func init() {
	register(&Check{ID: "C30", Level: "model_checking", Run: runC30,
		Plan: func(tier string) []Job {
			p := func(d int, perip, mp string) map[string]string {
				return map[string]string{"depth": fmt.Sprint(d), "perip": perip, "minphase": mp}
			}
			l := []Job{{Name: "race", Build: "race", Par: p(0, "1", "")}}
			b := pick(tier, 0, 1500)
			l = append(l, shards(pick(tier, 2, 8), Job{Name: "history", Par: p(pick(tier, 2, 3), "1", "helo"), Budget: b})...)
			l = append(l, shards(pick(tier, 2, 8), Job{Name: "history", Par: p(pick(tier, 2, 3), "2", "to"), Budget: b})...)
			l = append(l, shards(pick(tier, 2, 8), Job{Name: "history", Par: p(pick(tier, 2, 3), "", "accepted"), Budget: b})...)
			l = append(l, shards(8, Job{Name: "commands", Par: p(pick(tier, 4, 5), "", ""), Budget: b})...)
			l = append(l, shards(4, Job{Name: "points", Build: "sched", Par: p(0, "1", ""), Budget: b})...)
			return append(l, shards(8, Job{Name: "shared", Build: "sched", Par: p(0, "1", ""), Budget: b})...)
		},
		Rule: "every history of sessions of 12 kinds with gaps around the do-nothing window, every sequence of SMTP commands, and every pair of 4 kinds of simultaneous sessions with one stopped at each statement and with two preemptions at statements with package level state; /debug/vars is read after each and its counts and times are compared with the model (blocklist hits: with the SMTP log); free runs under the race detector with /debug/vars read meanwhile; state = session state, or schedule",
		Bounds: func(tier string) string {
			return pick(tier, "24^2 histories x 3 configurations, 17^4 command sequences, 2 sessions with 2 preemptions", "24^3 histories x 3 configurations, 17^5 command sequences (within a time budget)")
		},
		Assumptions: []string{"the page is asked for from the HTTP handler itself, without a network", "'rsets', 'abandons', 'refuseds', 'sizes' and the time of the last session to reach the required phase have no documented meaning and are not compared"},
	})
}
