package checks

import (
	"fmt"
	"net"
	"strings"

	"verif/ref"
)

// C05: host, HELO, source and IP patterns.

// hits gives rules that reject at a phase if an operation matches and stall if not.
func hits(ph ref.Phase, e ref.Expr) []ref.Rule {
	return []ref.Rule{ref.R(ph, ref.Reject, e), ref.R(ph, ref.Stall, ref.All{})}
}

func ipAddr(i int) string { return fmt.Sprintf("10.%d.%d.%d", i>>16&255, i>>8&255, i&255) }

func c05Names() []string {
	labels := []string{"a", "b", "ab", "B"}
	var l []string
	for _, x := range labels {
		l = append(l, x)
		for _, y := range labels {
			l = append(l, x+"."+y)
			for _, z := range labels[:3] {
				l = append(l, x+"."+y+"."+z)
			}
		}
	}
	return l
}

// variants of an address as a client or local address.
func hostport(ip string) string { return net.JoinHostPort(ip, "4000") }

func runC05(w *W) {
	w.Rules("")
	w.Start(ref.Conf{NoStd: true}, "-r", "rules")
	w.UseWorld(&ref.World{})
	keep := 1
	switch w.Name {
	case "helo":
		n := pick(w.Tier, 5, 6)
		l := words(split("ab."), n)
		for _, x := range words(split("aA."), 3) {
			l = append(l, x)
		}
		for _, p := range l {
			for _, what := range []string{"helo", "ehlo"} {
				if !w.Mine() || w.Over() {
					continue
				}
				rs := hits(ref.Helo, ref.Op{What: what, Arg: p})
				text := ref.Text(rs)
				w.Rules(text)
				w.State(text)
				t := w.Session("rules:\n"+text, client, local, ref.SessOpt{Rules: rs})
				for _, h := range l {
					t.Steps = t.Steps[:keep]
					w.Res.Evals++
					e, _ := t.Do("EHLO", h)
					w.Outcome(fmt.Sprintf("%dxx", e.Class))
					if t.bad {
						break
					}
				}
				t.Close()
			}
		}
	case "host":
		// every name alone, and every pair of a few, as verified names
		names := c05Names()
		world := &ref.World{PTR: map[string][]string{}, A: map[string][]string{}}
		var sets [][]string
		for _, n := range names {
			sets = append(sets, []string{n})
		}
		some := []string{"a", "b", "a.b", "b.a", "a.b.a", "ab.b", "AB.B"}
		for _, x := range some {
			for _, y := range some {
				if !strings.EqualFold(x, y) {
					sets = append(sets, []string{x, y})
				}
			}
		}
		sets = append(sets, nil)
		for i, s := range sets {
			ip := ipAddr(i + 1)
			for _, n := range s {
				world.PTR[ip] = append(world.PTR[ip], n+".")
				k := strings.ToLower(n)
				world.A[k] = append(world.A[k], ip)
			}
		}
		w.UseWorld(world)
		var pats []string
		for _, n := range names {
			pats = append(pats, n, "."+n)
			if len(n) < 4 {
				pats = append(pats, n+".", "."+n+".")
			}
		}
		pats = append(pats, "", ".", "..")
		for _, p := range pats {
			rs := hits(ref.Helo, ref.Op{What: "host", Arg: p})
			text := ref.Text(rs)
			w.Rules(text)
			for i := range sets {
				if !w.Mine() {
					continue
				}
				w.Res.Evals++
				w.State(text, fmt.Sprint(i))
				t := w.Session("rules:\n"+text+fmt.Sprintf("host names %q", sets[i]), hostport(ipAddr(i+1)), local, ref.SessOpt{Rules: rs})
				e, _ := t.Do("EHLO", "h.net")
				w.Outcome(fmt.Sprintf("%dxx", e.Class))
				t.Close()
			}
		}
	case "source":
		world := &ref.World{PTR: map[string][]string{}, A: map[string][]string{}}
		sets := [][]string{nil, {"b.c"}, {"a.b.c"}, {"x.y", "b.c"}, {"C"}}
		for i, s := range sets {
			ip := ipAddr(i + 1)
			for _, n := range s {
				world.PTR[ip] = append(world.PTR[ip], n+".")
				k := strings.ToLower(n)
				world.A[k] = append(world.A[k], ip)
			}
		}
		world.Files = map[string][]string{"./src": {"zz.zz", "b.c"}, "./src2": {".b.c"}, "./src0": nil}
		w.UseWorld(world)
		helos := []string{"b.c", "a.b.c", "B.C.", "c", "x.net", "", "b", "q.c"}
		froms := []string{"u@b.c", "U@A.B.C", "u@c", "u", "u@x.net", "@b.c", "b.c", "u@q.c", ""}
		pats := []string{"b.c", ".b.c", "c", ".c", "B.C", "", ".", "x.net", "b.c.", "@b.c", "u@b.c", "./src", "file:src", "./src2", "./src0", "y", ".y"}
		world.Files["src"] = world.Files["./src"]
		for _, p := range pats {
			rs := hits(ref.From, ref.Op{What: "source", Arg: p})
			text := ref.Text(rs)
			w.Rules(text)
			for i := range sets {
				if !w.Mine() {
					continue
				}
				t := w.Session("rules:\n"+text+fmt.Sprintf("host names %q", sets[i]), hostport(ipAddr(i+1)), local, ref.SessOpt{Rules: rs})
				for _, h := range helos {
					for _, f := range froms {
						t.Steps = t.Steps[:keep]
						w.Res.Evals++
						t.Do("EHLO", h)
						e, _ := t.Do("MAIL", f)
						if f == "" {
							e, _ = t.Do("RCPT", "q@q.q")
							t.Do("RSET", "")
						}
						w.State(text, fmt.Sprint(i), h, f)
						w.Outcome(fmt.Sprintf("%dxx", e.Class))
					}
				}
				t.Close()
			}
		}
	case "ip":
		clients := []string{"0.0.0.0", "10.0.0.1", "10.255.255.255", "127.0.0.1", "128.66.32.1", "128.66.33.1", "128.66.32.0",
			"128.66.32.255", "128.64.0.1", "192.0.2.1", "255.255.255.255", "1.2.3.4",
			"::1", "::", "2001:db8::1", "2001:db8:0:0:1::1", "2001:db9::1", "fe80::1", "fe80::1%eth0", "::ffff:1.2.3.4", "ffff::1"}
		var pats []string
		for _, b := range []string{"128.66.32.1", "10.0.0.1", "255.255.255.255"} {
			for n := 0; n <= 32; n++ {
				pats = append(pats, fmt.Sprintf("%s/%d", b, n))
			}
		}
		for _, b := range []string{"2001:db8::1", "ffff::1", "::ffff:1.2.3.4"} {
			for n := 0; n <= 128; n++ {
				pats = append(pats, fmt.Sprintf("%s/%d", b, n))
			}
		}
		pats = append(pats, clients...)
		pats = append(pats, "2001:DB8:0:0:0:0:0:1", "2001:0db8:0000::0001", "::ffff:128.66.32.1", "::FFFF:7f00:1", "0:0:0:0:0:0:0:1", "::1.2.3.4", "128.66.0.0/16", "128.66.32.0/23")
		world := &ref.World{Files: map[string][]string{}}
		for i := 0; i < len(pats); i += 7 {
			world.Files[fmt.Sprintf("./ip%d", i)] = []string{pats[i], "not-an-ip", pats[(i*3+5)%len(pats)], "1.2.3.4/33"}
		}
		w.UseWorld(world)
		for i := 0; i < len(pats); i += 7 {
			pats = append(pats, fmt.Sprintf("./ip%d", i))
		}
		for _, p := range pats {
			if strings.Contains(p, "%") {
				continue // not a valid argument
			}
			rs := hits(ref.Helo, ref.Op{What: "ip", Arg: p})
			text := ref.Text(rs)
			w.Rules(text)
			for _, c := range clients {
				if !w.Mine() {
					continue
				}
				w.Res.Evals++
				w.State(text, c)
				t := w.Session("rules:\n"+text, hostport(c), local, ref.SessOpt{Rules: rs})
				e, _ := t.Do("EHLO", "h.net")
				w.Outcome(fmt.Sprintf("%dxx", e.Class))
				t.Close()
			}
		}
	case "blocks":
		// every netblock inside a /28 (thorough /26), against every address around it
		lo := pick(w.Tier, 28, 25)
		for n := lo; n <= 32; n++ {
			for a := 0; a < 256; a += 1 << (32 - n) {
				if a >= 1<<(32-lo)*2 {
					break
				}
				rs := hits(ref.Helo, ref.Op{What: "ip", Arg: fmt.Sprintf("192.0.2.%d/%d", a, n)})
				text := ref.Text(rs)
				w.Rules(text)
				for c := 0; c < 1<<(32-lo)*2+1 && c < 256; c++ {
					if !w.Mine() {
						continue
					}
					w.Res.Evals++
					w.State(text, fmt.Sprint(c))
					t := w.Session("rules:\n"+text, hostport(fmt.Sprintf("192.0.2.%d", c)), local, ref.SessOpt{Rules: rs})
					e, _ := t.Do("EHLO", "h.net")
					w.Outcome(fmt.Sprintf("%dxx", e.Class))
					t.Close()
				}
			}
		}
	}
}

func init() {
	register(&Check{ID: "C05", Level: "model_checking", Run: runC05,
		Plan: func(tier string) []Job {
			var l []Job
			l = append(l, shards(8, Job{Name: "helo"})...)
			l = append(l, shards(4, Job{Name: "host"})...)
			l = append(l, shards(2, Job{Name: "source"})...)
			l = append(l, shards(2, Job{Name: "ip"})...)
			l = append(l, shards(2, Job{Name: "blocks"})...)
			return l
		},
		Rule: "every pattern x every HELO name that are strings over {a,b,.} up to the bound (and {a,A,.} up to 3); every set of verified host names x pattern over a label alphabet; source over host x HELO x sender; every prefix length of six base addresses x 21 clients; state = rules text with the client situation",
		Bounds: func(tier string) string {
			return pick(tier, "HELO names and patterns of length <=5; host names of <=3 labels; netblocks inside a /28", "HELO names and patterns of length <=6; netblocks inside a /25")
		},
		Assumptions: []string{"net.ParseIP and net.ParseCIDR define what an address or netblock is"},
	})
}
