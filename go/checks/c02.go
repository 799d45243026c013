package checks

import (
	"fmt"

	"verif/ref"
	"verif/vrt"
)

// C02: the null sender.

func c02Alphabet() []ref.Rule {
	exprs := []ref.Expr{
		ref.All{},
		ref.Op{What: "from", Arg: "<>"},
		ref.Not{X: ref.Op{What: "from", Arg: "a@x.net"}},
		ref.Op{What: "helo", Arg: "h1.net"},
		ref.Op{What: "source", Arg: "h1.net"},
		ref.Op{What: "to", Arg: "p@z.net"},
		ref.TLS(false),
		ref.Op{What: "from", Arg: "./nullfile"},
	}
	var l []ref.Rule
	for _, e := range exprs {
		for _, ph := range []ref.Phase{ref.NoPhase, ref.From, ref.To} {
			for _, act := range []ref.Action{ref.SetWith, ref.Accept, ref.Stall, ref.Reject} {
				if r := ref.R(ph, act, e); r.Valid() {
					l = append(l, r)
				}
			}
		}
	}
	return l
}

func runC02(w *W) {
	w.Rules("")
	conf := ref.Conf{NoStd: true}
	switch w.Par["conf"] {
	case "std":
		conf.NoStd = false
	case "options":
		conf = ref.Conf{FromReject: "nullfile", HeloReject: "helofile", ToAccept: "tofile", M: true}
	case "yak":
		conf = ref.Conf{DN: 1, SMTPLog: true, MinPhase: "from"}
	}
	writeFile("nullfile", "<>\n")
	w.Start(conf, "-r", "rules")
	w.UseWorld(&ref.World{Files: map[string][]string{"nullfile": {"<>"}, "./nullfile": {"<>"},
		"helofile": {"h1.net"}, "tofile": {"p@z.net"}}})
	cmds := []vrt.Cmd{{Verb: "MAIL", Arg: ""}, {Verb: "MAIL", Arg: "a@x.net"}, {Verb: "RCPT", Arg: "p@z.net"},
		{Verb: "RCPT", Arg: "q@z.net"}, {Verb: "RSET"}, {Verb: "EHLO", Arg: "h1.net"}}
	if w.Par["yes"] != "" {
		cmds = append(cmds, vrt.Cmd{Verb: "STARTTLS"}, vrt.Cmd{Verb: "DATA"})
	}
	depth := 5
	fmt.Sscan(w.Par["depth"], &depth)
	nr := 1
	fmt.Sscan(w.Par["rules"], &nr)
	ips := 0
	alpha := c02Alphabet()
	if nr == 2 && w.Tier != "thorough" {
		var l []ref.Rule
		for _, r := range alpha {
			if r.Ph != ref.To && r.Act != ref.SetWith {
				l = append(l, r)
			}
		}
		alpha = l
	}
	lists(alpha, nr, func(rs []ref.Rule) {
		rs = mark(rs)
		text := ref.Text(rs)
		wrote := false
		w.seqs(len(cmds), depth, func(ix []int) {
			if !wrote {
				w.Rules(text)
				wrote = true
			}
			// A different address each time, for the do-nothing table.
			ips++
			addr := client
			if conf.DN > 0 {
				addr = fmt.Sprintf("10.%d.%d.%d:99", ips>>16&255, ips>>8&255, ips&255)
			}
			w.Res.Evals++
			t := w.Session("rules:\n"+text, addr, local, ref.SessOpt{Rules: rs})
			e, _ := t.Do("EHLO", "h1.net")
			if e.Class != 2 && e.Class != 0 {
				t.Do("EHLO", "h2.net")
			}
			for _, i := range ix {
				seq := t.M.State()
				e, o := t.DoCmd(cmds[i])
				if t.bad || t.S.Closed {
					break
				}
				w.State(t.M.Key(), e.String())
				// The property itself, independent of the model.
				if cmds[i].Verb == "MAIL" && cmds[i].Arg == "" && seq == 1 {
					w.Outcome(fmt.Sprintf("null sender %dxx", o.Class()))
					if o.Class() != 2 {
						t.fail("MAIL FROM:<> got %v", o)
					}
				}
			}
			t.Close()
		})
	})
}

func init() {
	register(&Check{ID: "C02", Level: "model_checking", Run: runC02,
		Plan: func(tier string) []Job {
			p := func(kv ...string) map[string]string {
				m := map[string]string{}
				for i := 0; i < len(kv); i += 2 {
					m[kv[i]] = kv[i+1]
				}
				return m
			}
			var l []Job
			l = append(l, shards(8, Job{Name: "one", Par: p("depth", "5", "rules", "1")})...)
			l = append(l, shards(8, Job{Name: "two", Par: p("depth", "3", "rules", "2")})...)
			l = append(l, shards(2, Job{Name: "std", Par: p("depth", "4", "rules", "1", "conf", "std", "yes", "1")})...)
			l = append(l, shards(2, Job{Name: "options", Par: p("depth", "4", "rules", "1", "conf", "options", "yes", "1")})...)
			l = append(l, shards(2, Job{Name: "yak", Par: p("depth", "4", "rules", "1", "conf", "yak")})...)
			if tier == "thorough" {
				l = append(l, shards(16, Job{Name: "one", Par: p("depth", "6", "rules", "1", "yes", "1"), Budget: 1200})...)
				l = append(l, shards(16, Job{Name: "two", Par: p("depth", "5", "rules", "2"), Budget: 1200})...)
			}
			return l
		},
		Rule: "every rule (pairs of rules) of an alphabet about senders, HELO names and recipients x every command sequence of the given depth; state = model session state with its expected reply; every reply is compared with the model and every MAIL FROM:<> in sequence must get 2xx",
		Bounds: func(tier string) string {
			return pick(tier, "1 rule x 6^5 command sequences; 2 rules x 6^3; options and do-nothing counting x 8^4", "1 rule x 8^6, 2 rules x 6^5 command sequences")
		},
		Assumptions: []string{"a do-nothing client that goes over its limit through repeated transactions is dropped at MAIL FROM with 4xx, also with a null sender; this documented exception is in the model"},
	})
}
