package checks

import (
	"fmt"
	"strings"
	"time"

	"verif/ref"
)

// The "slow" jobs: lookups that take their time count like any other.

var slowTimes = []time.Duration{0, 2 * time.Second, 20 * time.Second}

func slow18(w *W) {
	var b strings.Builder
	for i := 0; i < 3; i++ {
		fmt.Fprintf(&b, "reject helo n%d.net host n%d.x.net\n", i, i)
	}
	attrs := []string{"nodns", "exists", "noforward", "inconsistent", "good"}
	for _, a := range attrs {
		fmt.Fprintf(&b, "reject helo a-%s.net dns %s\n", a, a)
	}
	rs := readRules(b.String())
	w.Rules(b.String())
	w.Start(ref.Conf{NoStd: true}, "-r", "rules")
	ip := "198.51.100.7"
	kinds := []string{"ok", "other", "none", "servfail"}
	n := len(kinds) * len(slowTimes)
	for _, pt := range slowTimes {
		for depth := 1; depth <= pick(w.Tier, 2, 3); depth++ {
			w.seqs(n, depth, func(ix []int) {
				w.Res.Evals++
				x := newWorld()
				x.Slow = map[string]time.Duration{"PTR " + ip: pt}
				desc := fmt.Sprintf("the reverse lookup takes %v", pt)
				for i, k := range ix {
					name := fmt.Sprintf("n%d.x.net", i)
					x.PTR[ip] = append(x.PTR[ip], name+".")
					kd, d := kinds[k%len(kinds)], slowTimes[k/len(kinds)]
					x.Slow["A "+name] = d
					switch kd {
					case "ok":
						x.A[name] = []string{ip}
					case "other":
						x.A[name] = []string{"198.51.100.8"}
					case "servfail":
						x.Err["A "+name] = kd
					}
					desc += fmt.Sprintf(", the lookup of %s (%s) %v", name, kd, d)
				}
				w.UseWorld(x)
				t := w.Session(desc, hostport(ip), local, ref.SessOpt{Rules: rs})
				for i := 0; i < 3; i++ {
					t.Do("EHLO", fmt.Sprintf("n%d.net", i))
				}
				for _, a := range attrs {
					e, _ := t.Do("EHLO", "a-"+a+".net")
					w.Outcome(fmt.Sprintf("%s %dxx", a, e.Class))
				}
				t.Do("QUIT", "")
				t.Close()
				w.State("slow", desc)
			})
		}
	}
}

func slow17(w *W) {
	const text = "reject to r@z.net from-has resolves\nreject to b@z.net from-has baddom\nreject to u@z.net from-has unknown\n"
	rs := readRules(text)
	w.Rules(text)
	w.Start(ref.Conf{NoStd: true}, "-r", "rules")
	kinds := []string{"ok", "private", "none", "timeout"}
	n := len(kinds) * len(slowTimes)
	for _, mt := range slowTimes {
		for depth := 0; depth <= pick(w.Tier, 2, 3); depth++ {
			w.seqs(n, max(depth, 1), func(ix []int) {
				w.Res.Evals++
				x := newWorld()
				x.Slow = map[string]time.Duration{"MX dom.net": mt}
				desc := fmt.Sprintf("the MX lookup takes %v", mt)
				for i, k := range ix {
					// without any MX it is the domain itself
					name := "dom.net"
					if depth > 0 {
						name = fmt.Sprintf("m%d.x.net", i)
						x.MX["dom.net"] = append(x.MX["dom.net"], ref.MX{Host: name + ".", Pref: uint16(i)})
					}
					kd, d := kinds[k%len(kinds)], slowTimes[k/len(kinds)]
					x.Slow["A "+name] = d
					switch kd {
					case "ok":
						x.A[name] = []string{"203.0.113.9"}
					case "private":
						x.A[name] = []string{"127.0.0.1"}
					case "timeout":
						x.Err["A "+name] = kd
					}
					desc += fmt.Sprintf(", the lookup of %s (%s) %v", name, kd, d)
				}
				w.UseWorld(x)
				t := w.Session(desc, client, local, ref.SessOpt{Rules: rs})
				t.Do("EHLO", "h.net")
				t.Do("MAIL", "a@dom.net")
				for _, a := range []string{"r", "b", "u"} {
					e, _ := t.Do("RCPT", a+"@z.net")
					w.Outcome(fmt.Sprintf("%s %dxx", a, e.Class))
				}
				t.Do("QUIT", "")
				t.Close()
				w.State("slow", desc)
			})
		}
	}
}

func slow19(w *W) {
	const text = "reject to a@z.net dnsbl l1.net\nreject to b@z.net dbl helo l2.net\nreject to c@z.net dbl from l3.net\nreject to d@z.net dbl host l4.net\n"
	rs := readRules(text)
	w.Rules(text)
	w.Start(ref.Conf{NoStd: true}, "-r", "rules")
	names := []string{"7.100.51.198.l1.net", "h.net.l2.net", "dom.net.l3.net", "n.x.net.l4.net"}
	w.seqs(2*len(slowTimes), len(names), func(ix []int) {
		w.Res.Evals++
		x := newWorld()
		x.A["dom.net"] = []string{"203.0.113.9"}
		x.PTR["198.51.100.7"] = []string{"n.x.net."}
		x.Slow = map[string]time.Duration{}
		desc := "blocklists"
		for i, n := range names {
			d := slowTimes[ix[i]/2]
			x.Slow["A "+n] = d
			if ix[i]%2 == 1 {
				x.A[n] = []string{"127.0.0.2"}
			}
			desc += fmt.Sprintf(", %s listed=%v within %v", n, ix[i]%2 == 1, d)
		}
		w.UseWorld(x)
		t := w.Session(desc, "198.51.100.7:4000", local, ref.SessOpt{Rules: rs})
		t.Do("EHLO", "h.net")
		t.Do("MAIL", "a@dom.net")
		for _, a := range []string{"a", "b", "c", "d"} {
			e, _ := t.Do("RCPT", a+"@z.net")
			w.Outcome(fmt.Sprintf("%s %dxx", a, e.Class))
		}
		t.Do("QUIT", "")
		t.Close()
		w.State("slow", desc)
	})
}

func init() {
	addJob("C18", "slow", 2, ". The same with lookups that take 0, 2 or 20 seconds each", "up to 2 (3) names of 4 kinds x 3 times each, 3 times of the reverse lookup", slow18)
	addJob("C17", "slow", 2, ". The same with lookups that take 0, 2 or 20 seconds each", "up to 2 (3) MX hosts of 4 kinds x 3 times each, 3 times of the MX lookup", slow17)
	addJob("C19", "slow", 2, ". Every combination of 4 listed names or not, with lookups that take 0, 2 or 20 seconds each", "6^4 combinations of slow lookups", slow19)
}
