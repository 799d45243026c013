package checks

import (
	"fmt"
	"strings"
	"syscall"

	"verif/ref"
	"verif/vrt"
)

// trees gives every expression with exactly n leaves, with optional negation
// at every node.
func trees(leaves []ref.Expr, n int, memo map[int][]ref.Expr) []ref.Expr {
	if l, ok := memo[n]; ok {
		return l
	}
	var l []ref.Expr
	add := func(e ref.Expr) { l = append(l, e, ref.Not{X: e}) }
	if n == 1 {
		for _, e := range leaves {
			add(e)
		}
	}
	for i := 1; i < n; i++ {
		for _, a := range trees(leaves, i, memo) {
			for _, b := range trees(leaves, n-i, memo) {
				add(ref.And{a, b})
				add(ref.Or{L: a, R: b})
			}
		}
	}
	memo[n] = l
	return l
}

// paren renders an expression with parentheses around everything.
func paren(e ref.Expr) string {
	switch x := e.(type) {
	case ref.And:
		var l []string
		for _, y := range x {
			l = append(l, paren(y))
		}
		return "(" + strings.Join(l, " ") + ")"
	case ref.Or:
		return "(" + paren(x.L) + " or " + paren(x.R) + ")"
	case ref.Not:
		return "not(" + paren(x.X) + ")"
	}
	return "((" + e.String() + "))"
}

var c03World = &ref.World{Files: map[string][]string{
	"./ptrue": {"h9.net", "h1.net"}, "./pfalse": {"h8.net", "h9.net"}, "./none": nil, "./empty": {},
	"./comment": {}, "./noopen": nil, "./noread": nil, "./half": nil,
	"./tos": {"p@z.net"}, "./noto": nil, "file.x": {"h1.net"},
}}

func c03Files() {
	writeFile("empty", "")
	writeFile("comment", "# h1.net\n\n  \t\n#h1.net")
	writeFile("noopen", "h1.net\n")
	writeFile("noread", "h1.net\n")
	writeFile("half", "h1.net\nh2.net\n")
	n := 0
	vrt.FSHook = func(op vrt.Op) vrt.Verdict {
		switch {
		case op.Kind == "open" && strings.HasSuffix(op.Path, "noopen"):
			return vrt.Verdict{Err: syscall.EACCES}
		case op.Kind == "read" && strings.HasSuffix(op.Path, "noread"):
			return vrt.Verdict{Err: syscall.EIO}
		case op.Kind == "open" && strings.HasSuffix(op.Path, "half"):
			n = 0
		case op.Kind == "read" && strings.HasSuffix(op.Path, "half"):
			n++
			if n > 1 {
				return vrt.Verdict{Err: syscall.EIO}
			}
		}
		return vrt.Verdict{}
	}
}

func runC03(w *W) {
	w.Rules("")
	w.Start(ref.Conf{NoStd: true}, "-r", "rules")
	w.UseWorld(c03World)
	c03Files()
	op := func(what, arg string) ref.Expr { return ref.Op{What: what, Arg: arg} }
	leaves := []ref.Expr{op("helo", "h1.net"), op("helo", "h2.net"), op("helo", "./none")}
	count := func(t *Trace, e ref.Exp) {
		w.State(t.Pre, e.String())
		w.Outcome(fmt.Sprintf("%v %v", e.Phase, e.Act))
	}
	// one decides an expression at HELO time.
	one := func(e ref.Expr, full bool) {
		if !w.Mine() || w.Over() {
			return
		}
		rs := []ref.Rule{ref.R(ref.NoPhase, ref.Reject, e)}
		text := ref.Text(rs)
		if full {
			text = "reject " + paren(e) + "\n"
		}
		w.Rules(text)
		w.Res.Evals++
		t := w.Session("rules:\n"+text, client, local, ref.SessOpt{Rules: rs})
		if e.Needs() == ref.NoPhase {
			// 'all' can match at connect time
			if t.M.Dropped {
				return
			}
		}
		x, _ := t.Do("EHLO", "h1.net")
		count(t, x)
		t.Close()
	}
	switch w.Name {
	case "trees":
		memo := map[int][]ref.Expr{}
		max := pick(w.Tier, 3, 4)
		for n := 1; n <= max; n++ {
			for _, e := range trees(leaves, n, memo) {
				one(e, false)
				if n < 4 {
					one(e, true)
				}
			}
		}
	case "trees4":
		// four leaves, negation only at the leaves and the top
		memo := map[int][]ref.Expr{}
		var l4 func(n int) []ref.Expr
		l4 = func(n int) []ref.Expr {
			if l, ok := memo[n]; ok {
				return l
			}
			var l []ref.Expr
			if n == 1 {
				for _, e := range leaves {
					l = append(l, e, ref.Not{X: e})
				}
			}
			for i := 1; i < n; i++ {
				for _, a := range l4(i) {
					for _, b := range l4(n - i) {
						l = append(l, ref.And{a, b}, ref.Or{L: a, R: b})
					}
				}
			}
			memo[n] = l
			return l
		}
		for _, e := range l4(4) {
			one(e, false)
			one(ref.Not{X: e}, false)
		}
	case "series":
		// plain series of three operands, each a leaf or an or, no parentheses
		var items []ref.Expr
		for _, a := range trees(leaves, 1, map[int][]ref.Expr{}) {
			items = append(items, a)
		}
		n := len(items)
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				items = append(items, ref.Or{L: items[i], R: items[j]})
			}
		}
		for _, a := range items {
			for _, b := range items {
				for _, c := range items {
					one(ref.And{a, b, c}, false)
				}
			}
		}
		for _, a := range items[:n] {
			for _, b := range items[:n] {
				for _, c := range items[:n] {
					for _, d := range items[:n] {
						one(ref.And{a, b, c, d}, false)
						one(ref.Or{L: a, R: ref.Or{L: b, R: ref.Or{L: c, R: d}}}, false)
						one(ref.Not{X: ref.Not{X: ref.Not{X: ref.Or{L: a, R: ref.And{b, c, d}}}}}, false)
					}
				}
			}
		}
	case "files":
		// every state of a pattern file, in every context, for every operation
		for _, f := range []string{"./ptrue", "./pfalse", "./none", "./empty", "./comment", "./noopen", "./noread", "./half", "file:ptrue", "file:none", "file:file.x", "file:./ptrue"} {
			if strings.HasPrefix(f, "file:") {
				c03World.Files[f[5:]] = c03World.Files["./"+strings.TrimPrefix(f[5:], "./")]
			}
			c03World.Files["file.x"] = []string{"h1.net"}
			for _, what := range []string{"helo", "ehlo", "source", "host", "ip", "from"} {
				x := op(what, f)
				for _, e := range []ref.Expr{x, ref.Not{X: x}, ref.Or{L: x, R: ref.All{}}, ref.Or{L: ref.All{}, R: x}, ref.Or{L: ref.Not{X: ref.All{}}, R: x},
					ref.And{x, ref.All{}}, ref.And{ref.Not{X: ref.All{}}, x}, ref.Not{X: ref.And{x, ref.All{}}}, ref.Not{X: ref.Or{L: x, R: ref.All{}}}, ref.Not{X: ref.Not{X: x}}} {
					for _, act := range []ref.Action{ref.Reject, ref.Stall, ref.Accept} {
						if !w.Mine() {
							continue
						}
						w.UseFilesModel()
						rs := []ref.Rule{ref.R(ref.NoPhase, act, e), ref.R(ref.From, ref.Reject, ref.All{})}
						text := ref.Text(rs)
						w.Rules(text)
						w.Res.Evals++
						t := w.Session("rules:\n"+text, client, local, ref.SessOpt{Rules: rs})
						if t.M.Dropped {
							continue
						}
						x, _ := t.Do("EHLO", "h1.net")
						count(t, x)
						x, _ = t.Do("MAIL", "h1.net@h1.net")
						count(t, x)
						t.Close()
					}
				}
			}
		}
	case "clauses":
		base := append(trees(leaves, 1, map[int][]ref.Expr{}), ref.Or{L: leaves[1], R: leaves[0]}, ref.And{leaves[0], leaves[1]}, ref.All{})
		lists(base, 3, func(es []ref.Expr) {
			if len(es) == 0 || !w.Mine() || w.Over() {
				return
			}
			for _, act := range []ref.Action{ref.Reject, ref.Stall, ref.SetWith} {
				r := ref.Rule{Ph: ref.From, Act: act}
				for i, e := range es {
					r.Cl = append(r.Cl, ref.Clause{E: e, Withs: []ref.With{{Key: "message", Val: fmt.Sprint("clause", i)}}})
				}
				rs := []ref.Rule{r, ref.R(ref.From, ref.Reject, ref.All{})}
				text := ref.Text(rs)
				w.Rules(text)
				w.Res.Evals++
				t := w.Session("rules:\n"+text, client, local, ref.SessOpt{Rules: rs})
				t.Do("EHLO", "h1.net")
				x, o := t.Do("MAIL", "a@x.net")
				// without a message set, the text is the library's
				if x.Msg == "" && strings.Contains(o.String(), "clause") {
					t.fail("a message of a rule that did not match: %v", o)
				}
				count(t, x)
				t.Close()
			}
		})
	case "needs":
		ls := []ref.Expr{op("helo", "h1.net"), op("from", "a@x.net"), op("to", "p@z.net"), op("to", "./tos")}
		if w.Tier == "thorough" {
			ls = append(ls, op("to", "./noto"))
		}
		memo := map[int][]ref.Expr{}
		for n := 1; n <= 3; n++ {
			for _, e := range trees(ls, n, memo) {
				if !w.Mine() || w.Over() {
					continue
				}
				for _, ph := range []ref.Phase{ref.NoPhase, ref.Data} {
					rs := []ref.Rule{ref.R(ph, ref.Reject, e)}
					text := ref.Text(rs)
					w.Rules(text)
					w.Res.Evals++
					t := w.Session("rules:\n"+text, client, local, ref.SessOpt{Rules: rs})
					t.conversation([]string{"h1.net", "h2.net"}, []string{"a@x.net", "b@x.net"}, [][]string{{"p@z.net"}, {"q@z.net", "p@z.net"}, {"q@z.net"}}, nil)
					t.Close()
				}
			}
		}
	}
}

// UseFilesModel makes the model forget nothing; the files are as they are.
func (w *W) UseFilesModel() { w.D.W = c03World }

func init() {
	register(&Check{ID: "C03", Level: "model_checking", Run: runC03,
		Plan: func(tier string) []Job {
			var l []Job
			l = append(l, shards(pick(tier, 4, 16), Job{Name: "trees"})...)
			l = append(l, shards(pick(tier, 8, 8), Job{Name: "trees4"})...)
			l = append(l, shards(4, Job{Name: "series"})...)
			l = append(l, shards(1, Job{Name: "files"})...)
			l = append(l, shards(1, Job{Name: "clauses"})...)
			l = append(l, shards(8, Job{Name: "needs"})...)
			return l
		},
		Rule: "every expression tree up to the bound over a true, a false and an unusable-file operand, rendered with the fewest and with the most parentheses, decided at HELO by the real program; series, or-chains, compact rules, pattern file states and multi-phase operands likewise; state = rules text with its outcome",
		Bounds: func(tier string) string {
			return pick(tier, "all trees of <=3 leaves with negation at every node, 4 leaves with negation at leaves and top", "all trees of <=4 leaves with negation at every node")
		},
	})
}
