package checks

import (
	"fmt"
	"path/filepath"
	"strings"
	"testing/synctest"
	"time"

	"verif/ref"
	"verif/vrt"
)

// C13: do-nothing clients, and C15: TLS policy; both are histories of sessions.

var phaseSteps = []vrt.Cmd{{Verb: "EHLO", Arg: "h.net"}, {Verb: "MAIL", Arg: "a@x.net"}, {Verb: "RCPT", Arg: "p@z.net"}, {Verb: "DATA"},
	{Verb: "BODY", Arg: "Subject: x\n\ny\n"}}

var phaseNames = []string{"", "helo", "from", "to", "data", "message", "accepted"}

const c13Rules = "set-with helo yak.net with make-yakker\nreject to yak@z.net with make-yakker\n@message reject to rej@z.net\nset-with to nosave@z.net with savedir nosuch\n"

// upto runs a session as far as a phase; 6 is an accepted message, 5 a refused one.
func upto(t *Trace, n int, helo, rcpt string) {
	for i := 0; i < n && i < len(phaseSteps); i++ {
		c := phaseSteps[i]
		switch {
		case i == 0:
			c.Arg = helo
		case i == 2 && n == 5:
			c.Arg = "rej@z.net"
		case i == 2 && rcpt != "":
			c.Arg = rcpt
		}
		t.DoCmd(c)
	}
}

func runC13(w *W) {
	makeCerts(1)
	w.Rules(c13Rules)
	rs, v, why, _ := ref.Read(c13Rules, nil)
	if v != ref.Good {
		panic(why)
	}
	n, mp := 2, 1
	fmt.Sscan(w.Par["n"], &n)
	fmt.Sscan(w.Par["minphase"], &mp)
	dur := 3 * time.Hour
	conf := ref.Conf{NoStd: true, DN: n, DNDur: dur, MinPhase: phaseNames[mp], SMTPLog: true, TLS: true}
	if w.Par["ehlo"] != "" {
		conf.MinPhase = "ehlo"
	}
	w.Start(conf, "-r", "rules")
	w.UseWorld(&ref.World{})
	logged := 0
	vrt.RecordWrites = func(r vrt.WriteRec) {
		if filepath.Base(r.Path) == "smtp.log" {
			logged++
		}
	}
	full := []string{"quit", "abort", "below", "reach", "beyond", "rset", "tlsfail", "badrules", "yak", "yakend", "rejyak", "other", "refused", "heloagain", "drop", "nullrset", "savefail", "tlsok", "refusals"}
	kinds := full
	if w.Par["kinds"] != "" {
		kinds = strings.Split(w.Par["kinds"], ",")
	}
	var gaps []time.Duration
	for _, g := range strings.Split(w.Par["gaps"], ",") {
		gaps = append(gaps, map[string]time.Duration{"0": 0, "-": dur - 2*time.Second, "+": dur + 2*time.Second, "half": dur / 2}[g])
	}
	depth := 3
	fmt.Sscan(w.Par["depth"], &depth)
	nip := 0
	cur := c13Rules
	drop := "@connect reject all\n" + c13Rules
	rsDrop, v, why, _ := ref.Read(drop, nil)
	if v != ref.Good {
		panic(why)
	}
	one := func(kind, ip string, hist []string) bool {
		bad := kind == "badrules"
		text, rules := c13Rules, rs
		switch kind {
		case "badrules":
			text = "bogus\n"
		case "drop":
			text, rules = drop, rsDrop
		}
		if text != cur {
			w.Rules(text)
			cur = text
		}
		if kind == "other" {
			nip++
			ip = ipAddr(nip)
		}
		logged = 0
		t := w.Session(fmt.Sprintf("-dncount %d -minphase %s, sessions: %s", n, conf.MinPhase, strings.Join(hist, ", ")), hostport(ip), local, ref.SessOpt{Rules: rules, RulesBad: bad})
		end := "QUIT"
		switch kind {
		case "abort":
			end = ""
		case "below":
			upto(t, mp-1, "h.net", "")
		case "reach", "other":
			upto(t, mp, "h.net", "")
			end = ""
		case "beyond":
			upto(t, 6, "h.net", "")
		case "refused":
			upto(t, 5, "h.net", "")
		case "heloagain":
			upto(t, 1, "h.net", "")
			upto(t, 1, "i.net", "")
		case "rset":
			t.Do("EHLO", "h.net")
			t.Do("MAIL", "a@x.net")
			t.Do("RSET", "")
			t.Do("MAIL", "b@x.net")
			t.Do("RSET", "")
			t.Do("MAIL", "c@x.net")
			t.Do("RCPT", "p@z.net")
		case "nullrset":
			t.Do("EHLO", "h.net")
			for _, a := range []string{"a@x.net", "", "b@x.net"} {
				t.Do("MAIL", a)
				t.Do("RSET", "")
			}
		case "savefail":
			upto(t, 6, "h.net", "nosave@z.net")
		case "tlsok":
			t.Do("EHLO", "h.net")
			t.Do("STARTTLS", "")
			upto(t, mp-1, "h.net", "")
		case "refusals":
			t.Do("EHLO", "h.net")
			t.Do("MAIL", "a@x.net")
			t.Do("RCPT", "yak@z.net")
			t.Do("DATA", "")
			t.Do("NOOP", "")
			t.Do("BAD", "")
			end = ""
		case "tlsfail":
			t.Do("EHLO", "h.net")
			t.DoCmd(vrt.Cmd{Verb: "STARTTLS", TLS: &vrt.TLSOutcome{Fail: true}})
			end = ""
		case "badrules":
			upto(t, 2, "h.net", "")
		case "yak":
			upto(t, 1, "yak.net", "")
		case "yakend":
			upto(t, 6, "yak.net", "")
			t.Do("EHLO", "h.net")
		case "rejyak":
			upto(t, 3, "h.net", "yak@z.net")
			t.Do("RCPT", "p@z.net")
		case "probe":
			t.Do("EHLO", "h.net")
		}
		w.State(conf.MinPhase, fmt.Sprint(n), fmt.Sprint(w.D.Yak.Count(t.M.RIP)), fmt.Sprint(w.D.NoTLS.Count(t.M.RIP)), kind, t.M.Key())
		if end == "QUIT" {
			t.Do("QUIT", "")
		}
		t.Close()
		synctest.Wait()
		w.Outcome(fmt.Sprintf("%s stalled=%v", kind, t.M.Stalled))
		if t.M.Stalled {
			if logged > 0 {
				t.fail("a stalled do-nothing session wrote to the SMTP log")
			}
			for i, r := range t.S.C.Replies {
				if i > 0 && r.Code/100 != 4 && r.Code != 221 && r.Code/10 != 50 && !(r.Code == 250 && (strings.Contains(kind, "rset") || kind == "refusals")) {
					t.fail("a stalled do-nothing session got %v", r)
				}
			}
		} else if logged == 0 {
			t.fail("a session that is not stalled is not in the SMTP log")
		}
		return !t.bad
	}
	w.seqs(len(kinds)*len(gaps), depth, func(ix []int) {
		w.Res.Evals++
		nip++
		ip := ipAddr(nip)
		var hist []string
		for _, i := range ix {
			g := gaps[i%len(gaps)]
			time.Sleep(g)
			kind := kinds[i/len(gaps)]
			hist = append(hist, fmt.Sprintf("%s after %v", kind, g))
			if !one(kind, ip, hist) {
				return
			}
		}
		one("probe", ip, append(hist, "probe"))
		if w.D.Yak[ip] != nil || w.D.NoTLS[ip] != nil {
			delete(w.D.Yak, ip)
			delete(w.D.NoTLS, ip)
		}
	})
}

func init() {
	register(&Check{ID: "C13", Level: "model_checking", Run: runC13,
		Plan: func(tier string) []Job {
			var l []Job
			p := func(n, mp, depth int, gaps, kinds string) map[string]string {
				return map[string]string{"n": fmt.Sprint(n), "minphase": fmt.Sprint(mp), "depth": fmt.Sprint(depth), "gaps": gaps, "kinds": kinds}
			}
			for mp := 1; mp <= 6; mp++ {
				for n := 1; n <= 2; n++ {
					l = append(l, shards(2, Job{Name: "kinds", Par: p(n, mp, pick(tier, 2, 3), "0,-,+", ""), Budget: pick(tier, 0, 1200)})...)
				}
				l = append(l, shards(1, Job{Name: "three", Par: p(2, mp, 3, "0,+", "below,reach,rset,badrules,rejyak")})...)
				l = append(l, shards(2, Job{Name: "all", Par: p(2, mp, 3, "0", "")})...)
				l = append(l, shards(1, Job{Name: "window", Par: p(3, mp, 4, "0,half,-,+", "below,rset")})...)
				if tier == "thorough" {
					l = append(l, shards(4, Job{Name: "long", Par: p(3, mp, 5, "0,+", "below,reach,rset,rejyak,tlsfail"), Budget: 1200})...)
				}
			}
			j := Job{Name: "kinds", Par: p(2, 1, 2, "0,+", "")}
			j.Par["ehlo"] = "1"
			return append(l, j)
		},
		Rule: "every history of sessions of all kinds (ending before, at or after the required phase, repeated transactions, TLS failure, a message that cannot be saved, dropped at once, rule loading errors, make-yakker in various places, another address) with all gaps around the time window, for each required phase and limit, then a probing session; each reply is compared with the model, and a stalled session may write nothing to the SMTP log; state = count and session state",
		Bounds: func(tier string) string {
			return pick(tier, "19 kinds x 3 gaps, 2 sessions; 19 kinds, 3 sessions; 5 kinds x 2 gaps, 3 sessions; 2 kinds x 4 gaps, 4 sessions; limits 1-3; 6 phases", "19 kinds x 3 gaps, 3 sessions; 5 kinds x 2 gaps, 5 sessions")
		},
		Assumptions: []string{"sessions whose end is exactly one window away from another are not looked at; two seconds on either side are"},
	})
}
