package checks

import (
	"fmt"
	"os"
	"strings"

	"verif/ref"
)

// C22: command line options act as the documented rules before all rule files.

var c22A = []string{"", "accept from a@x.net\n@from accept helo h.net\naccept to v@z.net\n@message accept all\n", "reject to v@z.net with message \"ra\"\nstall from c@x.net\n"}
var c22B = []string{"", "reject to v@z.net with message \"rb\"\n@helo accept all\n@message stall all with message \"rbm\"\n", "accept all\n"}

var c22Files = [][]string{
	{"<missing>", "", "a@x.net\nc@x.net\n"},           // -fromreject
	{"<missing>", "# none\n", "t@z.net\nfoo\n@y.net"}, // -toaccept
	{"<missing>", "\n\n", "H.net\n.g.net\n"},          // -heloreject
}

func runC22(w *W) {
	var o int
	fmt.Sscan(w.Par["opt"], &o)
	conf := ref.Conf{NoStd: o&1 != 0, M: o&2 != 0}
	var opts []int
	for i, n := range []string{"fr", "ta", "hr"} {
		if o&(4<<i) != 0 {
			opts = append(opts, i)
			switch i {
			case 0:
				conf.FromReject = n
			case 1:
				conf.ToAccept = n
			case 2:
				conf.HeloReject = n
			}
		}
	}
	rf := w.Par["r"]
	writeFile("ra", "")
	writeFile("rb", "")
	var args []string
	if rf != "" {
		args = []string{"-r", rf}
	}
	w.Start(conf, args...)
	world := newWorld()
	world.Files = map[string][]string{}
	w.UseWorld(world)
	helos := []string{"h.net", "x.g.net", "", "k.net"}
	froms := []string{"a@x.net", "b@x.net", "c@x.net", "", "noat", "@r.net:b@x.net"}
	rcpts := []string{"noat", "v@z.net", "", "@r.net:t@z.net", "foo", "t@z.net", "u@y.net"}
	read := func(s string) []ref.Rule {
		rs, v, why, _ := ref.Read(s, nil)
		if v != ref.Good {
			panic(why)
		}
		return rs
	}
	va, vb := c22A, c22B
	if !strings.Contains(rf, "ra") {
		va = va[:1]
	}
	if !strings.Contains(rf, "rb") {
		vb = vb[:1]
	}
	content := []int{0, 0, 0}
	do := func() {
		for i, n := range []string{"fr", "ta", "hr"} {
			c := c22Files[i][content[i]]
			delete(world.Files, n)
			if c == "<missing>" {
				os.Remove(n)
			} else {
				writeFile(n, c)
				for _, l := range strings.Split(c, "\n") {
					if l = strings.ToLower(strings.TrimSpace(l)); l != "" && l[0] != '#' {
						world.Files[n] = append(world.Files[n], l)
					}
				}
			}
		}
		for _, a := range va {
			for _, b := range vb {
				writeFile("ra", a)
				writeFile("rb", b)
				var rules []ref.Rule
				for _, f := range strings.Split(rf, ",") {
					rules = append(rules, read(map[string]string{"ra": a, "rb": b}[f])...)
				}
				for _, h := range helos {
					for _, f := range froms {
						if w.Over() {
							return
						}
						w.Res.Evals++
						t := w.Session(fmt.Sprintf("options -nostdrules=%v -M=%v -fromreject %q -toaccept %q -heloreject %q, contents %v; -r %q with ra %q and rb %q", conf.NoStd, conf.M, conf.FromReject, conf.ToAccept, conf.HeloReject, content, rf, a, b),
							client, local, ref.SessOpt{Rules: rules})
						t.Do("EHLO", h)
						t.Do("EHLO", "k.net")
						t.Do("MAIL", f)
						for _, r := range rcpts {
							e, _ := t.Do("RCPT", r)
							w.Outcome(fmt.Sprintf("RCPT %dxx", e.Class))
						}
						e, _ := t.Do("DATA", "")
						if e.Class == 3 {
							e, _ = t.Do("BODY", "x\n")
							w.Outcome(fmt.Sprintf("message %dxx", e.Class))
						}
						w.State(fmt.Sprint(o, content, rf), a, b, h, f, t.M.Key())
						t.Close()
					}
				}
			}
		}
	}
	var rec func(i int)
	rec = func(i int) {
		if i == len(opts) {
			do()
			return
		}
		for c := range c22Files[opts[i]] {
			content[opts[i]] = c
			rec(i + 1)
		}
	}
	rec(0)
}

func init() {
	register(&Check{ID: "C22", Level: "model_checking", Run: runC22,
		Plan: func(tier string) []Job {
			var l []Job
			for o := 0; o < 32; o++ {
				for _, r := range []string{"", "ra", "ra,rb", "rb,ra"} {
					l = append(l, Job{Name: "options", Par: map[string]string{"opt": fmt.Sprint(o), "r": r}})
				}
			}
			return l
		},
		Rule: "all combinations of the five options x rule file lists, each with its pattern files missing, empty and filled, rule files of three contents each, and sessions of 4 HELO names x 6 senders x 6 recipients; every reply is compared with the reference model's evaluation of the documented rules; state = combination and session state",
		Bounds: func(tier string) string {
			return "5 options, up to 2 rule files of 3 contents, 3 contents of each pattern file"
		},
	})
}
