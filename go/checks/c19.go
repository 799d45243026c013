package checks

import (
	"fmt"
	"net"
	"strings"

	"verif/ref"
)

// C19: DNS blocklists.

// c19hist: histories in one session, where names change and lookups that
// failed begin to work.
func c19hist(w *W) {
	l1, l2 := "l1.bl.net", "l2.bl.net"
	sets := [][]ref.Rule{
		{ref.R(ref.From, ref.Reject, ref.DBL{Srcs: []string{"from"}, Dom: l1}), ref.R(ref.NoPhase, ref.Reject, ref.DNSBL(l2))},
		{ref.R(ref.From, ref.Reject, ref.DBL{Srcs: []string{"helo"}, Dom: l1}), ref.R(ref.To, ref.Reject, ref.DNSBL(l2))},
		{ref.R(ref.To, ref.Reject, ref.And{ref.DBL{Srcs: []string{"helo", "from"}, Dom: l1}, ref.Not{X: ref.DNSBL(l2)}}), ref.R(ref.From, ref.Stall, ref.DNSBL(l2))},
		{ref.R(ref.To, ref.Reject, ref.DBL{Srcs: []string{"any"}, Dom: l1})},
		{ref.R(ref.From, ref.Reject, ref.Not{X: ref.Or{L: ref.DBL{Srcs: []string{"from"}, Dom: l1}, R: ref.DNSBL(l2)}})},
	}
	ip := "198.51.100.7"
	bl := []string{"bad.net." + l1, "7.100.51.198." + l2}
	names := []string{"EHLO good.net", "EHLO bad.net", "message from u@good.net", "message from u@bad.net", "message from <>", "lookups of bad.net work", "lookups of the address work"}
	depth := 4
	fmt.Sscan(w.Par["depth"], &depth)
	for si, rules := range sets {
		w.Rules(ref.Text(rules))
		for _, e := range []string{"servfail", "timeout"} {
			for start := 0; start < 4; start++ {
				w.seqs(len(names), depth, func(ix []int) {
					w.Res.Evals++
					x := newWorld()
					x.A["good.net"], x.A["bad.net"] = []string{"203.0.113.50"}, []string{"203.0.113.50"}
					desc := fmt.Sprintf("rules:\n%ssession:", ref.Text(rules))
					for i, n := range bl {
						x.A[n] = []string{"127.0.0.2"}
						if start>>i&1 == 1 {
							x.Err["A "+n] = e
							desc += fmt.Sprintf(" %s fails to look up (%s);", n, e)
						}
					}
					for _, i := range ix {
						desc += " " + names[i] + ";"
					}
					w.UseWorld(x)
					t := w.Session(desc, hostport(ip), local, ref.SessOpt{Rules: rules})
					for _, i := range ix {
						switch i {
						case 0, 1:
							t.Do("EHLO", strings.Fields(names[i])[1])
						case 2, 3, 4:
							t.Do("RSET", "")
							t.Do("MAIL", []string{"u@good.net", "u@bad.net", ""}[i-2])
							ex, _ := t.Do("RCPT", "p@z.net")
							w.Outcome(fmt.Sprintf("%dxx", ex.Class))
						default:
							delete(x.Err, "A "+bl[i-5])
						}
						w.State(fmt.Sprint(si, e, start, x.Err), t.M.Key())
						if t.bad {
							break
						}
					}
					t.Close()
				})
			}
		}
	}
}

func runC19(w *W) {
	if w.Name == "history" {
		w.Rules("")
		w.Start(ref.Conf{NoStd: true, SMTPLog: true}, "-r", "rules")
		c19hist(w)
		return
	}
	l1, l2, sbl := "l1.bl.net", "sub.l2.net", "sbl.spamhaus.org"
	var rules []ref.Rule
	type probe struct{ helo, desc string }
	var probes []string
	add := func(e ref.Expr) {
		h := fmt.Sprintf("q%d.net", len(probes))
		probes = append(probes, h)
		// The first rule's HELO name is what is looked up, so it is the same for all:
		// the probe is chosen by recipient.
		rules = append(rules, ref.R(ref.To, ref.Reject, ref.And{ref.Op{What: "to", Arg: h[:len(h)-4] + "@z.net"}, e}))
	}
	for _, l := range []string{l1, l2} {
		add(ref.DNSBL(l))
		add(ref.Not{X: ref.DNSBL(l)})
		for _, s := range [][]string{{"helo"}, {"ehlo"}, {"host"}, {"from"}, {"any"}, {"helo", "from"}, {"host", "helo"}, {"from", "host"}} {
			add(ref.DBL{Srcs: s, Dom: l})
		}
	}
	add(ref.DNSBL(sbl))
	add(ref.DBL{Srcs: []string{"any"}, Dom: sbl})
	add(ref.Or{L: ref.DNSBL(l1), R: ref.DNSBL(l2)})
	add(ref.And{ref.DNSBL(l1), ref.DBL{Srcs: []string{"from"}, Dom: l2}})
	add(ref.Not{X: ref.DBL{Srcs: []string{"any"}, Dom: l1}})
	// and at their natural phases
	rules = append(rules, ref.R(ref.NoPhase, ref.Reject, ref.And{ref.Op{What: "helo", Arg: "x.helo.net"}, ref.DNSBL("early.net")}),
		ref.R(ref.NoPhase, ref.Reject, ref.DBL{Srcs: []string{"helo"}, Dom: "early2.net"}))
	text := ref.Text(rules)
	w.Rules(text)
	w.Start(ref.Conf{NoStd: true, SMTPLog: true}, "-r", "rules")
	type client struct {
		ip   string
		ptrs []string
	}
	clients := []client{{"198.51.100.7", nil}, {"198.51.100.7", []string{"ok.p.net.", "nofwd.p.net.", "inc.p.net."}}, {"2001:db8::7", []string{"ok.p.net.", "inc.p.net."}}, {"1.2.3.14", []string{"ok.p.net."}}}
	rev := func(ip string) string {
		p := net.ParseIP(ip).To4()
		if p == nil {
			return "7.0.0.0"
		}
		return fmt.Sprintf("%d.%d.%d.%d", p[3], p[2], p[1], p[0])
	}
	for ci, c := range clients {
		// what can be listed
		items := []string{rev(c.ip) + "." + l1, "x.helo.net." + l1, "dom.net." + l1, "ok.p.net." + l1, "nofwd.p.net." + l1, "inc.p.net." + l1, rev(c.ip) + "." + l2, "dom.net." + l2,
			c.ip + "." + l1, rev(c.ip) + "." + sbl}
		if w.Tier == "thorough" {
			items = append(items, "x.helo.net."+sbl, "y.helo.net."+l1, rev(c.ip)+".early.net", "x.helo.net.early2.net", "ok.p.net."+l2, "inc.p.net."+l2)
		}
		errs := []string{"", "servfail", "timeout", "plain"}
		for m := 0; m < 1<<len(items); m++ {
			for ei, e := range errs {
				// with an error kind, the items that are not listed fail instead
				if ei > 1 && m&3 != 0 && w.Tier != "thorough" || !w.Mine() || w.Over() {
					continue
				}
				x := newWorld()
				x.PTR[c.ip] = c.ptrs
				x.A["ok.p.net"] = []string{c.ip}
				x.A["inc.p.net"] = []string{"203.0.113.50"}
				x.A["dom.net"] = []string{"203.0.113.50"}
				x.TXT[rev(c.ip)+"."+sbl] = []string{"http://www.spamhaus.org/sbl/query/SBL123", "junk", "x/"}
				var listed []string
				for i, it := range items {
					if m>>i&1 == 1 {
						x.A[it] = []string{"127.0.0.2"}
						if i%3 == 1 {
							x.A[it] = []string{"203.0.113.9", "127.0.0.4"}
						}
						listed = append(listed, it)
					} else if e != "" {
						x.Err["A "+it] = e
					}
				}
				w.UseWorld(x)
				w.Res.Evals++
				desc := fmt.Sprintf("client %s %v, listed: %s, others %q", c.ip, c.ptrs, strings.Join(listed, " "), e)
				t := w.Session(desc, hostport(c.ip), local, ref.SessOpt{Rules: rules})
				w.State(fmt.Sprint(ci), desc)
				from := "u@dom.net"
				if m%16 == 5 {
					from = ""
				}
				for _, h := range []string{"x.helo.net", "y.helo.net"} {
					if h[0] == 'y' && m%4 != 3 {
						break
					}
					if ex, _ := t.Do("EHLO", h); ex.Class != 2 {
						continue
					}
					t.Do("MAIL", from)
					for _, p := range probes {
						ex, _ := t.Do("RCPT", p[:len(p)-4]+"@z.net")
						w.Outcome(fmt.Sprintf("%dxx", ex.Class))
					}
					t.Do("RSET", "")
				}
				t.Close()
			}
		}
	}
}

func init() {
	register(&Check{ID: "C19", Level: "model_checking", Run: runC19,
		Plan: func(tier string) []Job {
			l := shards(pick(tier, 8, 16), Job{Name: "lists", Budget: pick(tier, 0, 1500)})
			return append(l, shards(pick(tier, 4, 8), Job{Name: "history", Par: map[string]string{"depth": pick(tier, "4", "6")}, Budget: pick(tier, 0, 1500)})...)
		},
		Rule: "every subset of what can be listed (the client's address in each list, the HELO name, the sender's domain and each kind of reverse name, and look-alikes) with the rest absent or failing to look up, for IPv4 and IPv6 clients; 25 dnsbl and dbl rules over two lists and the SBL are compared with the reference. Every history in one session of HELO names, listed and unlisted senders, and lookups that failed and then work (a listed name is then matched), with 5 rule sets",
		Bounds: func(tier string) string {
			return pick(tier, "2^10 subsets x 4 clients x 2 to 4 lookup errors; histories of 4 steps", "2^16 subsets (within a time budget); histories of 6 steps")
		},
	})
}
