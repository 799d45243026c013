package checks

import (
	"fmt"
	"strings"

	"verif/ref"
)

// C17: mail domains; C18: verified names; C19: blocklists. All are about what
// DNS says, so all of them enumerate DNS worlds.

const c17Rules = "reject helo f1.net from-has resolves\nreject helo f2.net from-has baddom\nreject helo f3.net from-has unknown\n" +
	"reject helo t1.net to-has resolves\nreject helo t2.net to-has baddom\nreject helo t3.net to-has unknown\n"

// c17Kinds are the kinds of MX hosts: their addresses, or an error.
var c17Kinds = [][2]string{
	{"good", "203.0.113.1"}, {"good6", "2001:db8::1"}, {"good2", "203.0.113.1 2001:db8::1"},
	{"private", "192.168.3.4"}, {"mixed", "203.0.113.1 10.1.1.1"}, {"mixed2", "127.0.0.1 203.0.113.1"},
	{"none", ""}, {"servfail", "!servfail"}, {"servfailtemp", "!servfailtemp"}, {"timeout", "!timeout"}, {"other", "!other"},
	{"dot", ""}, {"localhost", "203.0.113.1"}, {"LocalHost", "203.0.113.1"},
}

func c17Set(w *ref.World, name, what string) {
	if e, ok := strings.CutPrefix(what, "!"); ok {
		w.Err["A "+name] = e
	} else if what != "" {
		w.A[name] = strings.Fields(what)
	}
}

func newWorld() *ref.World {
	return &ref.World{PTR: map[string][]string{}, A: map[string][]string{}, MX: map[string][]ref.MX{}, TXT: map[string][]string{}, Err: map[string]string{}, Search: true}
}

func runC17(w *W) {
	rs, v, why, _ := ref.Read(c17Rules, nil)
	if v != ref.Good {
		panic(why)
	}
	w.Rules(c17Rules)
	w.Start(ref.Conf{NoStd: true}, "-r", "rules")
	dom := "dom.x.net"
	test := func(desc string, x *ref.World, sends ...string) {
		if !w.Mine() {
			return
		}
		w.Res.Evals++
		w.UseWorld(x)
		st := x.Domain(dom)
		w.Outcome(st)
		w.State(desc)
		for _, a := range sends {
			t := w.Session(desc, client, local, ref.SessOpt{Rules: rs})
			for _, h := range []string{"f1.net", "f2.net", "f3.net", "t1.net", "t2.net", "t3.net"} {
				t.Do("EHLO", h)
				if h[0] == 'f' {
					t.Do("MAIL", "u@"+a)
				} else {
					t.Do("MAIL", "")
					t.Do("RCPT", "u@"+a)
				}
				t.Do("RSET", "")
			}
			t.Close()
		}
	}
	host := func(x *ref.World, i int, kind [2]string) ref.MX {
		switch kind[0] {
		case "dot":
			return ref.MX{Host: ".", Pref: uint16(i * 10)}
		case "localhost", "LocalHost":
			c17Set(x, "localhost", kind[1])
			return ref.MX{Host: kind[0] + ".", Pref: uint16(i * 10)}
		}
		n := fmt.Sprintf("mx%d.x.net", i)
		c17Set(x, n, kind[1])
		return ref.MX{Host: n + ".", Pref: uint16(i * 10)}
	}
	own := [][2]string{{"none", ""}, {"good", "203.0.113.1"}, {"private", "10.2.3.4"}, {"temp", "!timeout"}}
	switch w.Name {
	case "nomx":
		for _, e := range []string{"", "servfail", "servfailtemp", "timeout", "other", "plain"} {
			for _, k := range c17Kinds[:11] {
				x := newWorld()
				if e != "" {
					x.Err["MX "+dom] = e
				}
				c17Set(x, dom, k[1])
				test(fmt.Sprintf("MX lookup %q, domain itself %v", e, k), x, dom, strings.ToUpper(dom))
			}
		}
	case "mx":
		n := pick(w.Tier, 3, 4)
		lists(c17Kinds, n, func(l [][2]string) {
			if len(l) == 0 || w.Over() {
				return
			}
			for _, o := range own {
				if len(l) >= 3 && o[0] != "none" && (w.Tier != "thorough" || o[0] != "good") {
					continue
				}
				x := newWorld()
				c17Set(x, dom, o[1])
				var d []string
				for i, k := range l {
					x.MX[dom] = append(x.MX[dom], host(x, i, k))
					d = append(d, k[0])
				}
				test(fmt.Sprintf("MX hosts %v, domain itself %v", d, o), x, dom)
			}
		})
	case "ips":
		// which addresses are public unicast ones
		var ips []string
		for _, p := range []string{"10.0.0.0", "10.255.255.255", "9.255.255.255", "11.0.0.0", "172.15.255.255", "172.16.0.0", "172.31.255.255", "172.32.0.0",
			"192.167.255.255", "192.168.0.0", "192.168.255.255", "192.169.0.0", "127.0.0.1", "127.255.255.255", "126.255.255.255", "128.0.0.0",
			"0.0.0.0", "223.255.255.255", "224.0.0.0", "239.255.255.255", "255.255.255.255", "169.254.1.1", "169.253.1.1", "169.255.0.0",
			"::1", "::", "fe80::1", "febf::1", "fec0::1", "feff::1", "fbff::1", "fc00::1", "fdff::1", "fe00::1", "ff02::1", "ff0e::1", "2001:db8::1", "::ffff:10.0.0.1", "::ffff:203.0.113.5", "1.1.1.1"} {
			ips = append(ips, p)
		}
		for _, a := range ips {
			x := newWorld()
			c17Set(x, dom, a)
			test("domain with address "+a, x, dom)
			x = newWorld()
			x.MX[dom] = []ref.MX{{Host: "mx.x.net."}}
			c17Set(x, "mx.x.net", a)
			test("MX with address "+a, x, dom)
			for _, b := range ips {
				x := newWorld()
				c17Set(x, dom, a+" "+b)
				test("domain with addresses "+a+" and "+b, x, dom)
			}
		}
	case "between":
		// several domains in one session do not get mixed up
		sts := []string{"203.0.113.1", "10.1.1.1", "!timeout", ""}
		doms := []string{"d0.x.net", "d1.x.net", "sub.d0.x.net"}
		for i := 0; i < 64; i++ {
			x := newWorld()
			for j, d := range doms {
				c17Set(x, d, sts[i>>(2*j)&3])
			}
			w.seqs(len(doms)*2, 3, func(ix []int) {
				w.Res.Evals++
				w.UseWorld(x)
				t := w.Session(fmt.Sprintf("several domains, %v", x.A), client, local, ref.SessOpt{Rules: rs})
				for _, h := range []string{"f1.net", "f2.net", "f3.net", "t1.net", "t2.net", "t3.net"} {
					t.Do("EHLO", h)
					for _, k := range ix {
						if h[0] == 'f' {
							t.Do("MAIL", "u@"+doms[k%3])
							t.Do("RSET", "")
						} else {
							t.Do("MAIL", "x@d1.x.net")
							t.Do("RCPT", "u@"+doms[k%3])
							if k >= 3 {
								t.Do("RSET", "")
							}
						}
					}
					t.Do("RSET", "")
				}
				t.Close()
			})
		}
	}
}

func init() {
	register(&Check{ID: "C17", Level: "model_checking", Run: runC17,
		Plan: func(tier string) []Job {
			var l []Job
			l = append(l, shards(1, Job{Name: "nomx"})...)
			l = append(l, shards(pick(tier, 6, 16), Job{Name: "mx", Budget: 1500})...)
			l = append(l, shards(2, Job{Name: "ips"})...)
			l = append(l, shards(4, Job{Name: "between"})...)
			return l
		},
		Rule: "every DNS world: MX lookup outcomes x address lookup outcomes of the domain, lists of MX hosts of all kinds in all orders, address classes at all block edges and in pairs, several domains in one session; the three domain attributes for senders and recipients are compared with the reference",
		Bounds: func(tier string) string {
			return pick(tier, "lists of 3 MX hosts of 14 kinds, 41 addresses in pairs", "lists of 4 MX hosts")
		},
		Assumptions: []string{"an MX lookup that succeeds has at least one record, as Go's resolver guarantees", "temporary failures are those Go marks so and 'server misbehaving'"},
	})
}
