package checks

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"verif/ref"
	"verif/vrt"
)

// The "logged" jobs: what the SMTP log says about blocklists and domains.

// logLines collects the lines of the SMTP log that have a text, from there on.
func logLines(what ...string) *[]string {
	l := &[]string{}
	vrt.RecordWrites = func(r vrt.WriteRec) {
		if filepath.Base(r.Path) != "smtp.log" {
			return
		}
		for _, s := range strings.Split(r.Data, "\n") {
			for _, x := range what {
				if _, h, ok := strings.Cut(s, x); ok {
					*l = append(*l, x+h)
				}
			}
		}
	}
	return l
}

// logged19: every set of listed names, for several kinds of rules; each decision
// with hits is in the log with exactly the lists that were hit, once in a row.
func logged19(w *W) {
	const sbl = "sbl.spamhaus.org"
	texts := []string{
		"set-with dnsbl l1.bl.net with note a\nset-with dbl helo l2.bl.net with note b\nset-with dbl from l3.bl.net with note c\nset-with dnsbl " + sbl + " with note d\n",
		"set-with dnsbl " + sbl + " with note d\nset-with dbl helo,from l2.bl.net with note b\nset-with dnsbl l1.bl.net with note a\n@to set-with dbl from l3.bl.net with note c\n",
		"@from reject dnsbl l1.bl.net\n@from reject dbl helo l2.bl.net\n",
	}
	items := []string{"7.100.51.198.l1.bl.net", "h.net.l2.bl.net", "g.net.l2.bl.net", "listed.net.l2.bl.net", "listed.net.l3.bl.net", "7.100.51.198." + sbl, "other.net.l3.bl.net"}
	txts := [][]string{nil, {"http://www.spamhaus.org/sbl/query/SBL9"}, {"http://x/y/SBL2", "http://x/y/SBL10", "junk", "/"}}
	w.Rules(texts[0])
	w.Start(ref.Conf{NoStd: true, SMTPLog: true}, "-r", "rules")
	log := logLines("! dnsbl hit: ", "! SBL records: ")
	for ti, text := range texts {
		w.Rules(text)
		rs := readRules(text)
		for m := 0; m < 1<<len(items); m++ {
			for xi, txt := range txts {
				if xi > 0 && m>>5&1 == 0 || !w.Mine() || w.Over() {
					continue
				}
				for _, ip := range []string{"198.51.100.7", "2001:db8::7"} {
					w.Res.Evals++
					x := newWorld()
					x.A["listed.net"], x.A["other.net"] = []string{"203.0.113.9"}, []string{"203.0.113.9"}
					x.TXT["7.100.51.198."+sbl] = txt
					var listed []string
					on := map[string]bool{}
					for i, it := range items {
						if m>>i&1 == 1 {
							x.A[it] = []string{"127.0.0.2"}
							listed = append(listed, it)
							on[it] = true
						}
					}
					w.UseWorld(x)
					*log = nil
					var want []string
					last := ""
					// decided gives what a decision logs.
					decided := func(ph, helo, from string) {
						hit := map[string]bool{}
						rev := "7.100.51.198."
						if strings.Contains(ip, ":") {
							rev = "none."
						}
						after := func(p string) bool {
							const order = "connect helo from to"
							return strings.Index(order, ph) >= strings.Index(order, p)
						}
						dom := func(l string) bool {
							_, d, _ := strings.Cut(from, "@")
							return d != "" && on[d+"."+l]
						}
						switch ti {
						case 0:
							hit["l1.bl.net"] = on[rev+"l1.bl.net"]
							hit[sbl] = on[rev+sbl]
							hit["l2.bl.net"] = after("helo") && on[helo+".l2.bl.net"]
							hit["l3.bl.net"] = after("from") && dom("l3.bl.net")
						case 1:
							hit["l1.bl.net"] = on[rev+"l1.bl.net"]
							hit[sbl] = on[rev+sbl]
							hit["l2.bl.net"] = after("from") && (on[helo+".l2.bl.net"] || dom("l2.bl.net"))
							hit["l3.bl.net"] = ph == "to" && dom("l3.bl.net")
						case 2:
							// a refusal that is put off is logged at once and is the same later
							if ph == "from" || ph == "to" && from == "" {
								hit["l1.bl.net"] = on[rev+"l1.bl.net"]
								hit["l2.bl.net"] = !hit["l1.bl.net"] && on[helo+".l2.bl.net"]
							}
						}
						var l []string
						for k, v := range hit {
							if v {
								l = append(l, k+".")
							}
						}
						sort.Strings(l)
						line := "! dnsbl hit: " + strings.Join(l, " ")
						if len(l) == 0 || line == last {
							return
						}
						last = line
						want = append(want, line)
						if hit[sbl] && xi == 1 {
							want = append(want, "! SBL records: SBL9")
						}
						if hit[sbl] && xi == 2 {
							want = append(want, "! SBL records: SBL10 SBL2")
						}
					}
					desc := fmt.Sprintf("client %s, rules %q, listed: %s, SBL text %q", ip, text, strings.Join(listed, " "), txt)
					t := w.Session(desc, hostport(ip), local, ref.SessOpt{Rules: rs})
					decided("connect", "", "")
					helo, from := "", ""
					ok := false
					for _, s := range []Step{{"EHLO", "h.net"}, {"MAIL", "u@listed.net"}, {"RCPT", "p@z.net"}, {"RSET", ""}, {"MAIL", ""}, {"RCPT", "p@z.net"}, {"RSET", ""}, {"EHLO", "g.net"}, {"MAIL", "u@other.net"},
						{"RCPT", "p@z.net"}, {"RCPT", "q@z.net"}, {"RSET", ""}, {"MAIL", "v@listed.net"}, {"RCPT", "p@z.net"}, {"QUIT", ""}} {
						switch s.V {
						case "EHLO":
							helo, from = s.A, ""
							decided("helo", helo, "")
						case "MAIL":
							from = s.A
							decided("from", helo, from)
						case "RCPT":
							if ok {
								decided("to", helo, from)
							}
						}
						e, _ := t.Do(s.V, s.A)
						if s.V == "MAIL" {
							ok = e.Class == 2
						}
					}
					t.Close()
					w.State("logged", fmt.Sprint(ti, m, xi, ip))
					w.Outcome(fmt.Sprintf("%d lines", len(want)))
					if a, b := strings.Join(*log, " / "), strings.Join(want, " / "); a != b {
						t.fail("the SMTP log has %q about blocklists instead of %q", a, b)
					}
				}
			}
		}
	}
}

// logged17: every sequence of senders; the log has the domains that are bad or
// unknown, once in a row.
func logged17(w *W) {
	texts := []string{"set-with from-has baddom,unknown with note x\n", "reject from-has baddom\nstall from-has unknown\n", "reject to-has baddom,unknown\n"}
	doms := []string{"good.net", "bad.net", "worse.net", "temp.net", ""}
	w.Rules(texts[0])
	w.Start(ref.Conf{NoStd: true, SMTPLog: true}, "-r", "rules")
	x := newWorld()
	x.A["good.net"] = []string{"203.0.113.9"}
	x.A["bad.net"] = []string{"127.0.0.1"}
	x.Err["A temp.net"], x.Err["MX temp.net"] = "timeout", "timeout"
	w.UseWorld(x)
	log := logLines("! domain ")
	for ti, text := range texts {
		w.Rules(text)
		rs := readRules(text)
		w.seqs(len(doms), pick(w.Tier, 4, 6), func(ix []int) {
			w.Res.Evals++
			*log = nil
			var seq, want []string
			for _, i := range ix {
				seq = append(seq, doms[i])
			}
			t := w.Session(fmt.Sprintf("rules %q, domains %q", text, seq), client, local, ref.SessOpt{Rules: rs})
			t.Do("EHLO", "h.net")
			last := ""
			for _, d := range seq {
				from, to := "a@"+d, "p@z.net"
				if d == "" {
					from = ""
				}
				if ti == 2 {
					if from == "" {
						continue
					}
					from, to = "", from
				}
				if d != "good.net" && d != "" && d != last {
					want = append(want, d)
					last = d
				}
				e, _ := t.Do("MAIL", from)
				if e.Class == 2 {
					t.Do("RCPT", to)
					t.Do("RSET", "")
				}
			}
			t.Do("QUIT", "")
			t.Close()
			w.State("logged", fmt.Sprint(ti, seq))
			w.Outcome(fmt.Sprintf("%d lines", len(want)))
			var got []string
			for _, l := range *log {
				d, why, ok := strings.Cut(strings.TrimPrefix(l, "! domain "), ": ")
				if !ok || why == "" {
					t.fail("the SMTP log has %q without a reason", l)
				}
				got = append(got, d)
			}
			if a, b := strings.Join(got, " "), strings.Join(want, " "); a != b {
				t.fail("the SMTP log has the domains %q instead of %q", a, b)
			}
		})
	}
}

func init() {
	addJob("C19", "logged", 4, ". Every set of listed names and SBL texts with 3 rule sets: the SMTP log has exactly the lists hit by each decision, unless they are those of the line before", "128 sets of listed names x 3 SBL texts x 3 rule sets x 2 clients in the log", logged19)
	addJob("C17", "logged", 2, ". Every sequence of senders (or recipients) with good, bad and unknown domains: the SMTP log names exactly the bad and unknown ones, unless it is that of the line before", "sequences of 4 (6) of 5 domains x 3 rule sets in the log", logged17)
}
