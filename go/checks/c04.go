package checks

import (
	"fmt"
	"os"
	"strings"

	"verif/ref"
)

// C04: address patterns.

// probe runs MAIL FROM or RCPT TO with each address under rules that reject
// when the operation matches and stall when it does not.
func (t *Trace) probe(from bool, addrs []string) {
	w := t.w
	keep := len(t.Steps)
	for _, a := range addrs {
		if t.bad {
			return
		}
		t.Steps = t.Steps[:keep]
		w.Res.Evals++
		var e ref.Exp
		switch {
		case !from:
			e, _ = t.Do("RCPT", a)
		case a == "":
			t.Do("MAIL", a)
			e, _ = t.Do("RCPT", "q@q.q")
			t.Do("RSET", "")
		default:
			e, _ = t.Do("MAIL", a)
		}
		w.Outcome(fmt.Sprintf("%dxx", e.Class))
	}
}

// addrTrace runs probes for one pattern or file.
func (w *W) addrTrace(what, arg string, addrs []string) {
	ph := ref.To
	if what == "from" {
		ph = ref.From
	}
	rs := []ref.Rule{ref.R(ref.NoPhase, ref.Reject, ref.Op{What: what, Arg: arg}), ref.R(ph, ref.Stall, ref.All{})}
	if what == "to" {
		// stall instead of accept, so that the state stays small
		rs[0].Ph = ref.To
	}
	text := ref.Text(rs)
	w.Rules(text)
	w.State(text)
	t := w.Session("rules:\n"+text, client, local, ref.SessOpt{Rules: rs})
	t.Do("EHLO", "h.net")
	if what == "to" {
		t.Do("MAIL", "s@s.net")
	}
	t.probe(what == "from", addrs)
	t.Close()
}

func structured() (addrs, pats []string) {
	labels := []string{"b", "c", "bc", "B", "com"}
	doms := []string{}
	for _, x := range labels {
		doms = append(doms, x)
		for _, y := range labels {
			doms = append(doms, x+"."+y)
			for _, z := range []string{"b", "com", "BC"} {
				doms = append(doms, x+"."+y+"."+z)
			}
		}
	}
	short := len(doms)
	for _, x := range []string{"b", "c"} {
		for _, y := range []string{"bc", "B"} {
			for _, z := range []string{"b.com", "bb.com", "com.b", "b.xcom"} {
				doms = append(doms, "x."+x+"."+y+"."+z, x+"."+y+"."+z, "x.y.z.w.v."+x+"."+z)
			}
		}
	}
	for _, l := range []string{"a", "AB", "a.b", "a+b", "<a", "\"a b\"", "é"} {
		addrs = append(addrs, l, l+"@", "@"+l)
		for _, d := range doms {
			addrs = append(addrs, l+"@"+d)
		}
	}
	addrs = append(addrs, strings.Repeat("a", 300)+"@"+strings.Repeat("b.", 300)+"com", "a@"+strings.Repeat("b", 300)+".com")
	for _, d := range append(doms[:short:short], "[1.2.3.4]", "xcom", "b.b.com", "y.z.w.v.c.b.com", "x.b.bc.com.b") {
		pats = append(pats, "a@"+d, "@"+d, "@."+d, d, "."+d, "@"+d+".", "@"+strings.ToUpper(d), "ab@"+d)
	}
	pats = append(pats, "a@", "@", "<>", "", "ab@", "AB@", "a", "a.b@", "<a@", "@@", ".", "@.", "*", "*@b", "a@*", "É@", "\"a b\"@")
	return
}

func runC04(w *W) {
	w.Rules("")
	w.Start(ref.Conf{NoStd: true}, "-r", "rules")
	w.UseWorld(&ref.World{})
	what := w.Par["what"]
	switch w.Name {
	case "words":
		n := 0
		fmt.Sscan(w.Par["n"], &n)
		l := words(split(w.Par["alpha"]), n)
		for _, p := range append([]string{"<>"}, l...) {
			if w.Mine() && !w.Over() {
				w.addrTrace(what, p, l)
			}
		}
	case "structured":
		addrs, pats := structured()
		for _, p := range pats {
			if w.Mine() {
				w.addrTrace(what, p, append(addrs, ""))
			}
		}
	case "files":
		// Files with every list of up to 2 (or 3) patterns.
		addrs := []string{"", "a@b.c", "A@B.C", "a@x.b.c", "d@b.c", "a", "d@e.f", "a@", "@b.c"}
		pats := []string{"<>", "a@b.c", "A@", "@b.c", "@.B.c", "@", "nope", "# a@b.c", ""}
		world := &ref.World{Files: map[string][]string{}}
		k := 0
		lists(pats, pick(w.Tier, 3, 4), func(ps []string) {
			if !w.Mine() {
				return
			}
			k++
			fn := fmt.Sprintf("./pats%d", k%50)
			var real []string
			for _, p := range ps {
				if p != "" && p[0] != '#' {
					real = append(real, p)
				}
			}
			world.Files[fn] = real
			w.D.W = world
			writeFile(fn, strings.Join(ps, "\n"))
			w.addrTrace(what, fn, addrs)
			w.State(ps...)
			os.Remove(fn)
		})
	}
}

func init() {
	register(&Check{ID: "C04", Level: "model_checking", Run: runC04,
		Plan: func(tier string) []Job {
			var l []Job
			for _, what := range []string{"to", "from"} {
				p := map[string]string{"what": what, "alpha": "ab@.", "n": pick(tier, "5", "6")}
				if what == "from" {
					p["n"] = "4"
				}
				l = append(l, shards(pick(tier, 8, 16), Job{Name: "words", Par: p})...)
				p = map[string]string{"what": what, "alpha": "aA@.", "n": "4"}
				l = append(l, shards(4, Job{Name: "words", Par: p})...)
				l = append(l, shards(2, Job{Name: "structured", Par: map[string]string{"what": what}})...)
				l = append(l, Job{Name: "files", Par: map[string]string{"what": what}})
			}
			return l
		},
		Rule: "every pattern x every address that are strings over {a,b,@,.} (and {a,A,@,.}) up to the bound, plus structured multi-label domains and pattern files with every list of patterns; state = rules text (one per pattern or file)",
		Bounds: func(tier string) string {
			return pick(tier, "all pattern/address pairs of length <=5 over 4 symbols for 'to', <=4 for 'from'; 240 structured patterns x 500 addresses; files of <=3 lines", "length <=6 for 'to'; files of <=4 lines")
		},
		Assumptions: []string{"what an address with several @ means is not documented; the first @ is taken to start the domain"},
	})
}
