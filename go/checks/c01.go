package checks

import (
	"fmt"
	"strconv"

	"verif/ref"
)

// The rules of C01: every valid combination of a phase, an action and a match
// operation that needs nothing, HELO, MAIL FROM or RCPT TO.
func c01Alphabet(small bool) []ref.Rule {
	exprs := []ref.Expr{ref.All{}, ref.Op{What: "helo", Arg: "h1.net"}, ref.Op{What: "from", Arg: "a@x.net"}, ref.Op{What: "to", Arg: "p@z.net"}}
	if small {
		exprs = append(exprs, ref.Not{X: ref.Op{What: "to", Arg: "p@z.net"}})
	}
	var l []ref.Rule
	for _, e := range exprs {
		for ph := ref.NoPhase; ph <= ref.Message; ph++ {
			for act := ref.SetWith; act <= ref.Reject; act++ {
				r := ref.R(ph, act, e)
				if !r.Valid() {
					continue
				}
				if small && (act == ref.Stall || (act == ref.SetWith && ph != ref.NoPhase && ph != ref.Data) || ph == ref.Connect) {
					continue
				}
				l = append(l, r)
			}
		}
	}
	return l
}

// mark gives each rule a message that says which rule it is.
func mark(rs []ref.Rule) []ref.Rule {
	var l []ref.Rule
	for i, r := range rs {
		c := r.Cl[0]
		c.Withs = []ref.With{{Key: "message", Val: "rule" + strconv.Itoa(i)}}
		r.Cl = []ref.Clause{c}
		l = append(l, r)
	}
	return l
}

// conversation runs every combination of the given names and addresses through
// one session, each transaction as far as it gets.
func (t *Trace) conversation(helos, froms []string, rcpts [][]string, after func()) {
	if t.M.Dropped {
		return
	}
	w := t.w
	st := func(e ref.Exp) {
		w.State(t.M.Key(), e.String())
		w.Outcome(fmt.Sprintf("%v %v", e.Phase, e.Act))
	}
	for _, h := range helos {
		for _, f := range froms {
			for _, rs := range rcpts {
				if t.bad || t.S.Closed {
					return
				}
				t.Steps = t.Steps[:1]
				if t.M.State() != 0 {
					t.Do("RSET", "")
				}
				e, _ := t.Do("EHLO", h)
				st(e)
				if e.Class != 2 {
					continue
				}
				e, _ = t.Do("MAIL", f)
				st(e)
				if e.Class != 2 {
					continue
				}
				ok := false
				for _, r := range rs {
					e, _ = t.Do("RCPT", r)
					st(e)
					ok = ok || e.Class == 2
				}
				if !ok {
					continue
				}
				e, _ = t.Do("DATA", "")
				st(e)
				if e.Class != 3 {
					continue
				}
				e, _ = t.Do("BODY", "Subject: x\n\nhi\n")
				st(e)
				if after != nil {
					after()
				}
			}
		}
	}
}

func runC01(w *W) {
	w.Rules("")
	conf := ref.Conf{NoStd: w.Par["std"] == ""}
	w.Start(conf, "-r", "rules")
	w.UseWorld(&ref.World{})
	var alpha []ref.Rule
	depth := 2
	switch w.Name {
	case "pairs", "triples":
		alpha = c01Alphabet(false)
		if w.Name == "triples" {
			depth = 3
		}
	case "small3":
		alpha, depth = c01Alphabet(true), 3
	case "small4":
		alpha, depth = c01Alphabet(true), 4
	}
	helos := []string{"h1.net", "h2.net"}
	froms := []string{"a@x.net", "b@y.net", ""}
	rcpts := [][]string{{"p@z.net"}, {"q@z.net"}, {"p@z.net", "q@z.net"}, {"q@z.net", "p@z.net"}}
	if w.Name == "small3" {
		froms = []string{"a@x.net", ""}
		rcpts = [][]string{{"p@z.net"}, {"q@z.net", "p@z.net"}}
	}
	w.Res.Max["alphabet"] = int64(len(alpha))
	var rec func(prefix []ref.Rule)
	rec = func(prefix []ref.Rule) {
		if w.Mine() && !w.Over() {
			rs := mark(prefix)
			text := ref.Text(rs)
			w.Rules(text)
			w.Res.Evals++
			t := w.Session("rules:\n"+text, "198.51.100.7:4000", "192.0.2.1:25", ref.SessOpt{Rules: rs})
			t.conversation(helos, froms, rcpts, nil)
			t.Close()
			if w.Res.Evals%5000 == 100 {
				w.Sample("%s -> %d commands", text, len(t.Steps))
			}
		}
		if len(prefix) == depth {
			return
		}
		for _, r := range alpha {
			rec(append(prefix[:len(prefix):len(prefix)], r))
		}
	}
	rec(nil)
}

func init() {
	register(&Check{ID: "C01", Level: "model_checking", Run: runC01,
		Plan: func(tier string) []Job {
			var l []Job
			l = append(l, shards(8, Job{Name: "pairs"})...)
			l = append(l, shards(2, Job{Name: "pairs", Par: map[string]string{"std": "1"}})...)
			if tier == "thorough" {
				l = append(l, shards(16, Job{Name: "triples"})...)
				l = append(l, shards(16, Job{Name: "small4", Budget: 1500})...)
			} else {
				l = append(l, shards(8, Job{Name: "small3", Budget: 60})...)
			}
			return l
		},
		Rule: "every list of rules up to the bound over an alphabet of (phase, action, match operation); each is put in a rules file and one connection runs every combination of HELO, MAIL FROM and RCPT TO sequences, each transaction as far as it gets; state = model session state with its expected reply",
		Bounds: func(tier string) string {
			return pick(tier, "all lists of <=2 of 80+ rules (with and without the standard rules), all lists of <=3 of a reduced alphabet; 2 HELO names x 3 senders x 4 recipient sequences",
				"all lists of <=3 of 80+ rules, lists of <=4 of a reduced alphabet within a time budget")
		},
		Assumptions: []string{"SMTP wire parsing is done by the smtpd library, which is replaced by a stand-in with the same state machine"},
	})
}
