package checks

import (
	"fmt"
	"strings"

	"verif/ref"
	"verif/vrt"
)

// The "pairs" jobs: two sessions at once, one of them stopped at every statement
// while the other one runs, with rules about what a property is about. Every
// session must get the replies that it would get on its own.

// pairRules are conditions; each makes a rule for a recipient of its own.
var pairRules = map[string][]string{
	"C01": {"@to reject C helo h1.net", "@to stall C helo h1.net", "@to accept C all", "@data reject C from a@good.net", "@message stall C from c@temp.net", "@to stall C all"},
	"C02": {"@from reject from <> helo h4.net", "@to reject C from <>", "@to stall C all"},
	"C03": {"@to reject C not helo h1.net", "@to stall C ( helo h1.net or from @bad.net ) not tls on", "@to reject C helo h3.net or helo h1.net from a@good.net", "@to reject C not ( from @temp.net or from <> )"},
	"C04": {"@to reject C from a@good.net", "@to reject C from b@", "@to reject C from @temp.net", "@to reject C from @.bad.net", "@to reject C from <>", "@to reject C from @"},
	"C05": {"@to reject C host .x.net", "@to reject C host n1.x.net", "@to reject C source h1.net", "@to reject C source .net", "@to reject C ip 198.51.100.0/25", "@to reject C ip 2001:db8::/64", "@to reject C helo .net"},
	"C06": {"@to reject C from-has resolves", "@to reject C from-has baddom", "@to reject C from-has unknown", "@to reject C helo-has helo", "@to reject C helo-has properip", "@to reject C dns good", "@to reject C dns nodns", "@to reject C dns inconsistent"},
	"C17": {"@to reject C from-has resolves", "@to reject C from-has baddom", "@to reject C from-has unknown", "@to reject to-has resolves C", "@to reject C not from-has resolves"},
	"C18": {"@to reject C host .x.net", "@to reject C host n1.x.net", "@to reject C dns good", "@to reject C dns nodns", "@to reject C dns inconsistent", "@to reject C dns exists"},
	"C19": {"@to reject C dnsbl l1.net", "@to reject C dbl helo l2.net", "@to reject C dbl from l2.net", "@to reject C dbl host l2.net", "@to reject C dbl any l2.net", "@to stall C dnsbl l2.net"},
	"C24": {"@to reject C from file:pa", "@to reject C helo file:ph", "@to reject C ip file:pi", "@to reject C from file:none"},
	"C29": {"@to reject C tls on", "@to reject C tls off", "@to stall C not tls on"},
}

func pairWorld() *ref.World {
	x := newWorld()
	x.PTR["198.51.100.7"] = []string{"n1.x.net."}
	x.PTR["198.51.100.200"] = []string{"n2.x.net."}
	x.A["n1.x.net"], x.A["n2.x.net"] = []string{"198.51.100.7"}, []string{"198.51.100.9"}
	x.A["good.net"], x.A["bad.net"] = []string{"203.0.113.1"}, []string{"127.0.0.1"}
	x.Err["A temp.net"], x.Err["MX temp.net"] = "timeout", "timeout"
	for _, n := range []string{"7.100.51.198.l1.net", "h3.net.l2.net", "bad.net.l2.net", "n1.x.net.l2.net", "200.100.51.198.l2.net"} {
		x.A[n] = []string{"127.0.0.2"}
	}
	x.PTR["192.0.2.1"], x.PTR["192.0.2.2"] = []string{"me1.example.org."}, []string{"me2.example.org."}
	x.Files = map[string][]string{"pa": {"a@good.net", "@temp.net"}, "ph": {"h1.net", ".h4.net"}, "pi": {"198.51.100.200", "2001:db8::/32"}}
	return x
}

func pairScripts(n int) []script {
	var rc []string
	for i := 0; i < n; i++ {
		rc = append(rc, fmt.Sprintf("RCPT r%d@z.net", i))
	}
	rc = append(rc, "RCPT last@z.net", "DATA", "BODY Subject: x\n\nx\n", "QUIT")
	mk := func(raddr, laddr string, c ...string) script {
		return script{Raddr: raddr, Laddr: laddr, Cmds: cl(append(c, rc...)...)}
	}
	return []script{
		mk("198.51.100.7:4001", "192.0.2.1:25", "EHLO h1.net", "MAIL a@good.net"),
		mk("198.51.100.200:4002", "192.0.2.2:26", "HELO [198.51.100.200]", "MAIL b@bad.net"),
		mk("[2001:db8::7]:4003", "[2001:db8::1]:25", "EHLO h3.net", "STARTTLS", "EHLO h3.net", "MAIL c@temp.net"),
		mk("203.0.113.77:4004", "192.0.2.1:26", "EHLO h4.net", "MAIL "),
	}
}

func runPairs(id string) func(w *W) {
	return func(w *W) {
		makeCerts(1)
		var b strings.Builder
		for i, r := range pairRules[id] {
			b.WriteString(strings.Replace(r, "C", fmt.Sprintf("to r%d@z.net", i), 1) + "\n")
		}
		rs := readRules(b.String())
		w.Rules(b.String())
		args := []string{"-r", "rules"}
		// the names that the server gives itself
		names := []string{"me1.example.org", "me2.example.org", "[2001:db8::1]:25", "me1.example.org"}
		if id == "C16" {
			writeFile("conncfg", "192.0.2.1:25 hostname=c1.net\n192.0.2.0/24 hostname=c2.net\n* hostname=c3.net cert=cert0.pem key=key0.pem\n")
			args = append(args, "-conncfg", "conncfg")
			names = []string{"c1.net", "c2.net", "c3.net", "c2.net"}
		}
		w.Start(ref.Conf{NoStd: true, TLS: true}, args...)
		w.UseWorld(pairWorld())
		scripts := pairScripts(len(pairRules[id]))
		for i := range scripts {
			np := 0
			for j := range scripts {
				for k := 0; np == 0 || k <= np; k++ {
					if np > 0 && (!w.Mine() || w.Over()) {
						continue
					}
					w.Res.Evals++
					w.Res.Traces++
					ix := []int{i, j}
					desc := fmt.Sprintf("rules %q: session 0 (%v) stops after %d points; session 1 (%v) runs; session 0 goes on", b.String(), scripts[i], k, scripts[j])
					w.Cur(desc)
					ls, _ := w.schedule(false, pick(w.Tier, 1, 4), []script{scripts[i], scripts[j]}, []seg{{G: 0, N: k}, {G: 1, N: -1}, {G: 0, N: -1}})
					if np == 0 {
						np = int(ls[0].G.Count)
						w.Res.Max["points in a session"] = max(w.Res.Max["points in a session"], int64(np))
					}
					w.State("pairs", fmt.Sprint(i, j, k))
					bad := func(f string, a ...any) { w.Fail(desc, "%s\n  in: %s", fmt.Sprintf(f, a...), desc) }
					for n, l := range ls {
						o := ref.SessOpt{Rules: rs}
						if id == "C16" {
							o.NoCerts = ix[n] != 2
						}
						if why := w.replies(l, w.D.Connect(l.Raddr, l.Laddr, o)); why != "" {
							bad("%s", why)
							break
						}
						for q, o := range l.Outs {
							if (q == 0 || strings.HasSuffix(l.Cmds[q-1].Verb, "LO")) && (len(o.R) == 0 || !strings.HasPrefix(o.R[0].Lines[0], names[ix[n]]+" ")) {
								bad("session %d got %v instead of with the name %s", n, o, names[ix[n]])
								break
							}
						}
					}
					for _, p := range vrt.Panics() {
						bad("the server panicked: %s", p)
					}
				}
			}
		}
	}
}

func init() {
	const rule = ". Two sessions at once, one of them stopped at every statement while the other one runs, with rules about all this: each gets the replies that it would get on its own"
	const bounds = "4^2 pairs of sessions, each statement's first execution (4 when thorough)"
	sched := func(id string) {
		c := All[id]
		plan := c.Plan
		c.Plan = func(tier string) []Job {
			l := plan(tier)
			for i := range l {
				if l[i].Name == "pairs" {
					l[i].Build = "sched"
				}
			}
			return l
		}
	}
	for _, id := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C16", "C17", "C18", "C19", "C24", "C28", "C29"} {
		addJob(id, "pairs", 4, rule, bounds, runPairs(id))
		sched(id)
	}
	for _, id := range []string{"C10", "C12", "C21"} {
		addJob(id, "pairs", 8, ". Two sessions at once, one of them stopped at every statement while the other one runs: replies, saved files and log lines are those of each session on its own", "4^2 pairs of sessions, each statement's first 2 executions", func(w *W) {
			w.Name = "points"
			runC09(w)
		})
		sched(id)
	}
}
