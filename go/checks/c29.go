package checks

import (
	"fmt"
	"strings"

	"verif/ref"
	"verif/vrt"
)

// C29: the 'tls' match operation.

var c29Rules = []string{
	"reject tls on", "reject tls off", "stall not tls on", "accept tls off", "accept tls on",
	"@from reject tls on", "@to reject tls off", "@data reject tls on", "@message reject tls off",
	"reject from a@x.net tls on", "@to stall to b@z.net or tls on", "reject (tls on or helo two.net) from a@x.net",
	"@from set-with tls on with message \"TLS is on\"", "set-with tls off with message \"TLS is off\"",
	"@message set-with all with message \"other\"; tls on with message \"never\"",
	"reject tls on tls off",
}

// c29Combined are rules with tls and another operation, in both orders.
func c29Combined() []string {
	var l []string
	for _, o := range []string{"helo two.net", "from a@x.net", "to b@z.net", "ip 192.0.2.0/24", "not ip 192.0.2.0/24", "all", "dns nodns", "helo-has nodots", "tls on"} {
		for _, t := range []string{"tls on", "tls off", "not tls on"} {
			for _, p := range [][2]string{{o, t}, {t, o}} {
				l = append(l, "reject "+p[0]+" "+p[1], "reject "+p[0]+" or "+p[1], "stall not ("+p[0]+" or "+p[1]+")", "accept "+p[0]+" or "+p[1]+"\nreject all",
					"reject "+p[0]+" with message \"a\"; "+p[1]+" with message \"b\"", "set-with "+p[0]+" with message \"a\"; "+p[1]+" with message \"b\"")
			}
		}
	}
	return l
}

func runC29(w *W) {
	makeCerts(1)
	w.Rules("")
	w.Start(ref.Conf{NoStd: true, TLS: true}, "-r", "rules")
	w.UseWorld(newWorld())
	steps := []Step{{"EHLO", "h.net"}, {"HELO", "two.net"}, {"STARTTLS", ""}, {"MAIL", "a@x.net"}, {"RCPT", "b@z.net"}, {"DATA", ""}, {"RSET", ""}}
	depth := 5
	fmt.Sscan(w.Par["depth"], &depth)
	run := func(text string, rs []ref.Rule, ix []int) {
		w.Res.Evals++
		t := w.Session(strings.ReplaceAll(text, "\n", " | "), client, local, ref.SessOpt{Rules: rs})
		t.Do("EHLO", "h.net")
		for _, i := range ix {
			s := steps[i]
			if s.V == "STARTTLS" {
				t.DoCmd(vrt.Cmd{Verb: "STARTTLS", TLS: &vrt.TLSOutcome{Version: 0x304, Cipher: 0x1301}})
			} else {
				e, _ := t.Do(s.V, s.A)
				if s.V == "DATA" && e.Class == 3 {
					e, _ = t.Do("BODY", "x\n")
				}
				w.Outcome(fmt.Sprintf("%s tls=%v %dxx", s.V, t.M.TLSOn, e.Class))
			}
			if t.bad {
				break
			}
			w.State(text, t.M.Key())
		}
		t.Close()
	}
	n := 0
	base, most := c29Rules, 2
	if w.Name == "combined" {
		base, most = c29Combined(), 1
	}
	lists(base, most, func(l []string) {
		if len(l) == 0 || w.Name == "one" && len(l) != 1 || w.Name == "two" && len(l) != 2 {
			return
		}
		n++
		if w.N > 1 && n%w.N != w.Shard {
			return
		}
		text := strings.Join(l, "\n") + "\n"
		w.Rules(text)
		rs, v, why, _ := ref.Read(text, nil)
		if v != ref.Good {
			panic(why)
		}
		k, m := w.N, w.Shard
		w.N, w.Shard = 1, 0
		w.seqs(len(steps), depth, func(ix []int) { run(text, rs, ix) })
		w.N, w.Shard = k, m
	})
}

func init() {
	register(&Check{ID: "C29", Level: "model_checking", Run: runC29,
		Plan: func(tier string) []Job {
			l := shards(8, Job{Name: "one", Par: map[string]string{"depth": pick(tier, "5", "6")}})
			l = append(l, shards(8, Job{Name: "combined", Par: map[string]string{"depth": pick(tier, "4", "5")}})...)
			return append(l, shards(8, Job{Name: "two", Par: map[string]string{"depth": pick(tier, "4", "5")}})...)
		},
		Rule: "every list of up to two of 16 rules with the tls operation (in every phase, negated, in series, or and set-with), and each of 324 rules that combine tls with one other operation in series, with or, negated and in two clauses, in both orders x every sequence of HELO, EHLO, STARTTLS, MAIL FROM, RCPT TO, message and RSET after an EHLO; every reply is compared with the model; state = rules and model session state",
		Bounds: func(tier string) string {
			return pick(tier, "7^5 command sequences with one rule, 7^4 with two or combined", "7^6 command sequences with one rule, 7^5 with two or combined")
		},
		Assumptions: []string{"the TLS handshake is in the smtpd package, of which a stand-in is used"},
	})
}
