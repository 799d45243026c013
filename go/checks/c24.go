package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"verif/ref"
	"verif/vrt"
)

// C24: a pattern file contributes every pattern line and nothing else.

// c24Pats reads a pattern file the way it is documented.
func c24Pats(s string) (l []string) {
	for _, x := range strings.Split(s, "\n") {
		if x = strings.Trim(x, " \t\r\v\f"); x != "" && x[0] != '#' {
			l = append(l, strings.ToLower(x))
		}
	}
	return
}

func runC24(w *W) {
	const file = "pats"
	abspats := abs(file)
	names := map[string]string{"file:": "file:" + file, "abs": abspats, "dot": "./" + file}
	name := names[w.Par["name"]]
	text := "@helo reject helo " + name + "\n@from reject from " + name + "\n@to reject to " + name + "\n"
	if w.Par["opt"] != "" {
		text = ""
	}
	w.Rules(text)
	rs, v, why, _ := ref.Read(text, nil)
	if v != ref.Good {
		panic(why)
	}
	conf := ref.Conf{NoStd: true}
	if w.Par["opt"] != "" {
		conf.HeloReject, conf.FromReject = file, file
	}
	w.Start(conf, "-r", "rules")
	world := newWorld()
	world.Files = map[string][]string{}
	w.UseWorld(world)
	set := func(l []string) {
		for _, k := range []string{file, "./" + file, abspats} {
			world.Files[k] = l
		}
	}
	var failAt, reads int
	vrt.FSHook = func(op vrt.Op) vrt.Verdict {
		if filepath.Base(op.Path) != file {
			return vrt.Verdict{}
		}
		switch {
		case op.Kind == "open" && failAt == -1:
			return vrt.Verdict{Err: &os.PathError{Op: "open", Path: op.Path, Err: syscall.EACCES}}
		case op.Kind == "open":
			reads = 0
		case op.Kind == "read":
			reads++
			if reads == failAt {
				return vrt.Verdict{Err: &os.PathError{Op: "read", Path: op.Path, Err: syscall.EIO}}
			}
		}
		return vrt.Verdict{}
	}
	try := func(desc string, probes []string) {
		w.Res.Evals++
		t := w.Session(desc, client, local, ref.SessOpt{Rules: rs})
		for _, p := range probes {
			e, _ := t.Do("EHLO", p)
			w.Outcome(fmt.Sprintf("EHLO %dxx", e.Class))
			if t.bad {
				break
			}
		}
		w.State(w.Par["name"], w.Par["opt"], fmt.Sprintf("%q", world.Files[file]))
		t.Close()
	}
	switch w.Name {
	case "contents":
		n := 5
		fmt.Sscan(w.Par["n"], &n)
		var probes []string
		for _, p := range words([]string{"a", "B", "#", " ", "\t"}, 3) {
			if strings.TrimSpace(p) == p && p != "" {
				probes = append(probes, p)
			}
		}
		probes = append(probes, "aaaa", "bbbb", "aaaaa", "a\nb", "a\r", "nothing.net")
		for _, s := range words([]string{"a", "B", "#", " ", "\t", "\n", "\r"}, n) {
			if !w.Mine() {
				continue
			}
			if w.Over() {
				return
			}
			writeFile(file, s)
			set(c24Pats(s))
			try(fmt.Sprintf("pattern file %q (%s)", s, name), probes)
		}
	case "long":
		// lines around the sizes of buffers, many lines, and a read error at each read
		var fs []string
		for _, n := range []int{1, 4000, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 200000} {
			for _, end := range []string{"", "\n", "\nlast.net", "\nlast.net\n", "\n#c\n\nlast.net"} {
				fs = append(fs, "first.net\n"+strings.Repeat("x", n)+end, strings.Repeat("#", n)+end, strings.Repeat(" ", n)+"padded.net"+end, strings.Repeat("l.net\n", n/6)+"many.net"+end)
			}
		}
		for _, s := range fs {
			for failAt = -1; failAt <= 3; failAt++ {
				if !w.Mine() {
					continue
				}
				writeFile(file, s)
				l := c24Pats(s)
				// which reads happen depends on the program's buffer; a read that
				// fails after everything was read, at the end of the file, counts
				set(l)
				reads = 0
				fa := failAt
				probes := []string{"first.net", "last.net", "padded.net", "many.net", "l.net", "xx.net", strings.Repeat("x", 1000)}
				if fa > 0 {
					// how many reads are there?
					failAt = 0
					s, _ := w.Open(0, client, local)
					s.Do(vrt.Cmd{Verb: "EHLO", Arg: "count.net"})
					s.End()
					w.D.NConn++
					failAt = fa
					if reads >= fa {
						set(nil)
					}
				} else if fa < 0 {
					set(nil)
				}
				try(fmt.Sprintf("pattern file of %d bytes, %.20q...%q (%s), fault %d", len(s), s, s[max(0, len(s)-20):], name, fa), probes)
				failAt = fa
			}
		}
		failAt = 0
	case "changes":
		// two sessions and changes of the file
		states := []string{"x.net\n", "Y.net\n", "", "<missing>", "<denied>", "<read error>", "x.net\ny.net"}
		var ops []string
		for i := range states {
			ops = append(ops, fmt.Sprintf("F%d", i))
		}
		for _, s := range []string{"0", "1"} {
			ops = append(ops, "C"+s, "H"+s, "M"+s, "R"+s)
		}
		depth := 4
		fmt.Sscan(w.Par["n"], &depth)
		apply := func(i int) {
			failAt = 0
			os.Remove(file)
			set(nil)
			switch s := states[i]; s {
			case "<missing>":
			case "<denied>":
				writeFile(file, "x.net\n")
				failAt = -1
			case "<read error>":
				writeFile(file, "x.net\n")
				failAt = 1
			default:
				writeFile(file, s)
				set(c24Pats(s))
			}
		}
		w.seqs(len(ops), depth, func(ix []int) {
			// only useful histories: connect first, change last
			var l []string
			seen := map[string]bool{}
			for _, i := range ix {
				o := ops[i]
				if o[0] != 'F' && o[0] != 'C' && !seen["C"+o[1:]] {
					return
				}
				if o[0] == 'C' && (seen[o] || o == "C1" && !seen["C0"]) {
					return
				}
				seen[o] = true
				l = append(l, o)
			}
			for k, o := range l {
				if k > 0 && l[k-1][0] == 'F' && o[0] == 'F' {
					return
				}
			}
			if l[0][0] != 'C' || l[len(l)-1][0] == 'F' {
				return
			}
			for st := range states {
				w.Res.Evals++
				apply(st)
				desc := fmt.Sprintf("pattern file (%s) starts as %q; then %v (F: the file becomes that of %q; C, H, M, R: connect, EHLO, MAIL and RCPT in a session)", name, states[st], l, states)
				var ts [2]*Trace
				for _, o := range l {
					k := o[1] - '0'
					switch o[0] {
					case 'F':
						apply(int(k))
					case 'C':
						ts[k] = w.Session(desc, client, local, ref.SessOpt{Rules: rs})
						continue
					case 'H':
						for _, h := range []string{"x.net", "y.net", "other.net"} {
							e, _ := ts[k].Do("EHLO", h)
							w.Outcome(fmt.Sprintf("EHLO %dxx", e.Class))
						}
					case 'M':
						for _, h := range []string{"a@x.net", "a@y.net", "a@other.net"} {
							ts[k].Do("MAIL", h)
						}
					case 'R':
						for _, h := range []string{"a@x.net", "a@y.net", "a@other.net"} {
							ts[k].Do("RCPT", h)
						}
					}
				}
				for _, t := range ts {
					if t != nil {
						t.Close()
					}
				}
				w.State(fmt.Sprint(w.Par, st, l))
			}
		})
	}
}

func init() {
	register(&Check{ID: "C24", Level: "model_checking", Run: runC24,
		Plan: func(tier string) []Job {
			var l []Job
			for _, n := range []string{"file:", "abs", "dot"} {
				l = append(l, shards(2, Job{Name: "changes", Par: map[string]string{"name": n, "n": pick(tier, "5", "6")}, Budget: pick(tier, 0, 1800)})...)
				l = append(l, Job{Name: "long", Par: map[string]string{"name": n}})
			}
			l = append(l, Job{Name: "long", Par: map[string]string{"name": "file:", "opt": "1"}})
			l = append(l, shards(8, Job{Name: "contents", Par: map[string]string{"name": "file:", "n": pick(tier, "5", "7")}, Budget: pick(tier, 0, 3600)})...)
			l = append(l, shards(2, Job{Name: "contents", Par: map[string]string{"name": "file:", "opt": "1", "n": "4"}})...)
			return l
		},
		Rule: "every content of a pattern file over a 7 letter alphabet up to a length, probed with HELO names that tell which patterns there are; long lines and files around buffer sizes with a failure to open or of each read; every history of changes of the file and uses of it in two sessions; every reply is compared with the model; state = the patterns, or the history",
		Bounds: func(tier string) string {
			return pick(tier, "contents up to 5 characters, histories of 5 steps from 7 file states", "contents up to 7 characters, histories of 6 steps")
		},
		Assumptions: []string{"patterns are ASCII"},
	})
}
