package checks

import (
	"fmt"
	"strings"

	"verif/ref"
	"verif/vrt"
)

// C18: which reverse DNS names count.

func runC18(w *W) {
	clearDir("save")
	var b strings.Builder
	for i := 0; i < 4; i++ {
		fmt.Fprintf(&b, "reject helo n%d.net host n%d.x.net\nreject helo s%d.net source N%d.x.net\n", i, i, i, i)
	}
	b.WriteString("reject helo dot.net host .x.net\n")
	for _, a := range []string{"nodns", "exists", "noforward", "inconsistent", "good"} {
		fmt.Fprintf(&b, "reject helo a-%s.net dns %s\n", a, a)
	}
	rs, v, why, _ := ref.Read(b.String(), nil)
	if v != ref.Good {
		panic(why)
	}
	w.Rules(b.String())
	w.Start(ref.Conf{NoStd: true, Dir: "save"}, "-r", "rules")
	saved := ""
	vrt.RecordWrites = func(r vrt.WriteRec) {
		if strings.Contains(r.Path, "save/") {
			saved += r.Data
		}
	}
	ips := []string{"198.51.100.7", "2001:db8::7"}
	other := []string{"198.51.100.8", "2001:db8::8"}
	kinds := []string{"ok", "ok+other", "other+ok", "other", "two others", "none", "servfail", "timeout", "othererr"}
	n := pick(w.Tier, 3, 4)
	k := 0
	for ii, ip := range ips {
		for _, perr := range []string{"", "servfail", "timeout", "other"} {
			lists(kinds, n, func(l []string) {
				if perr != "" && len(l) > 1 {
					return
				}
				for _, order := range []int{0, 1} {
					if order == 1 && len(l) < 2 || !w.Mine() || w.Over() {
						continue
					}
					x := newWorld()
					for i, kd := range l {
						name := fmt.Sprintf("n%d.x.net", i)
						pn := name + "."
						if i == 1 {
							pn = "N1.X.net."
						}
						if order == 1 {
							x.PTR[ip] = append([]string{pn}, x.PTR[ip]...)
						} else {
							x.PTR[ip] = append(x.PTR[ip], pn)
						}
						switch kd {
						case "ok":
							x.A[name] = []string{ip}
						case "ok+other":
							x.A[name] = []string{ip, other[ii]}
						case "other+ok":
							x.A[name] = []string{other[0], other[1], ip}
						case "other":
							x.A[name] = []string{other[ii]}
						case "two others":
							x.A[name] = []string{other[0], ips[1-ii]}
						case "servfail", "timeout":
							x.Err["A "+name] = kd
						case "othererr":
							x.Err["A "+name] = "plain"
						}
					}
					if perr != "" {
						x.Err["PTR "+ip] = perr
					}
					w.UseWorld(x)
					w.Res.Evals++
					desc := fmt.Sprintf("client %s, reverse names %v (lookup error %q), forward %v", ip, x.PTR[ip], perr, l)
					t := w.Session(desc, hostport(ip), local, ref.SessOpt{Rules: rs})
					for i := 0; i < 4; i++ {
						t.Do("EHLO", fmt.Sprintf("n%d.net", i))
						t.Do("EHLO", fmt.Sprintf("s%d.net", i))
						t.Do("MAIL", "u@y.net")
						t.Do("RSET", "")
					}
					t.Do("EHLO", "dot.net")
					for _, a := range []string{"nodns", "exists", "noforward", "inconsistent", "good"} {
						t.Do("EHLO", "a-"+a+".net")
					}
					t.Do("EHLO", "z.net")
					t.Do("MAIL", "u@y.net")
					t.Do("RCPT", "p@y.net")
					t.Do("DATA", "")
					saved = ""
					f := t.M.File("x\n")
					t.Do("BODY", "x\n")
					if !t.bad && saved != f.Content {
						t.fail("saved %q instead of %q", saved, f.Content)
					}
					w.Outcome(fmt.Sprintf("verified %d nofwd %d inconsistent %d", len(t.M.RDNS.Verified), len(t.M.RDNS.NoFwd), len(t.M.RDNS.Inconsist)))
					w.State(desc)
					t.Close()
					if k++; k%300 == 0 {
						clearDir("save")
					}
				}
			})
		}
	}
}

func init() {
	register(&Check{ID: "C18", Level: "model_checking", Run: runC18,
		Plan: func(tier string) []Job {
			return shards(pick(tier, 4, 8), Job{Name: "names", Budget: pick(tier, 0, 1500)})
		},
		Rule:   "every list of reverse names, each with each kind of forward lookup (the client among others, only others, none, errors), in both orders, IPv4 and IPv6, and every failure of the reverse lookup; host, source and dns rules and the saved message are compared with the reference",
		Bounds: func(tier string) string { return pick(tier, "up to 3 names of 9 kinds", "up to 4 names of 9 kinds") },
	})
}
