package checks

import (
	"fmt"
	"strings"

	"verif/ref"
	"verif/vrt"
)

// C06: attributes.

var addrAttrs = []string{"route", "noat", "quoted", "unqualified", "garbage", "bad", "resolves", "baddom", "unknown"}
var heloAttrs = []string{"none", "bogus", "helo", "ehlo", "nodots", "bareip", "properip", "ip", "myip", "remip", "otherip"}
var dnsAttrs = []string{"nodns", "exists", "noforward", "inconsistent", "good"}

var c06World = &ref.World{A: map[string][]string{"a.a": {"192.0.2.9"}, "a.b": {"10.0.0.1"}, "x.net": {"192.0.2.9"}},
	MX:  map[string][]ref.MX{"b.a": {{Host: "a.a.", Pref: 1}}, "b.b": {{Host: ".", Pref: 0}}},
	Err: map[string]string{"MX a.aa": "servfail", "A aa.a": "timeout", "MX u.net": "servfailtemp"}}

const (
	badQuoted = "'bad' does not include addresses that are only 'quoted', though the documentation says it does"
	badRoute  = "'bad' includes addresses that are only 'route', though the documentation says it does not"
)

// addrHas probes one list of attributes with many addresses.
func (w *W) addrHas(what string, attrs []string, addrs []string) {
	ph := ref.To
	if what == "from-has" {
		ph = ref.From
	}
	rs := hits(ph, ref.Has{What: what, Attrs: attrs})
	text := ref.Text(rs)
	w.Rules(text)
	t := w.Session("rules:\n"+text, client, local, ref.SessOpt{Rules: rs})
	t.Do("EHLO", "h.net")
	if ph == ref.To {
		t.Do("MAIL", "s@x.net")
	}
	for _, a := range addrs {
		if t.bad {
			return
		}
		if a == "" && ph == ref.To {
			continue
		}
		w.Res.Evals++
		t.Steps = append(t.Steps[:1], a)
		var o Out
		verb := map[bool]string{true: "MAIL", false: "RCPT"}[ph == ref.From]
		o = t.S.Do(vrt.Cmd{Verb: verb, Arg: a})
		if a == "" {
			o = t.S.Do(vrt.Cmd{Verb: "RCPT", Arg: "q@q.q"})
			t.S.Do(vrt.Cmd{Verb: "RSET"})
		}
		t.panics()
		got := ref.AddrAttrs(a, c06World.Domain)
		any := func(m map[string]bool) bool {
			for _, x := range attrs {
				if m[x] {
					return true
				}
			}
			return false
		}
		class := func(hit bool) int {
			if hit {
				return 5
			}
			return 4
		}
		code := class(any(got))
		// 'bad' as it is documented
		got["bad"] = got["noat"] || got["quoted"] || got["unqualified"] || got["garbage"]
		doc := class(any(got))
		switch {
		case o.Err != nil || (o.Class() != code && o.Class() != doc):
			t.fail("%s %s %q: expected %dxx (attributes %v), got %v", what, strings.Join(attrs, ","), a, doc, got, o)
		case code == doc || o.Class() == doc:
		case doc == 5:
			w.Known(badQuoted)
		default:
			w.Known(badRoute)
		}
		w.Outcome(fmt.Sprintf("%s %s %dxx", what, strings.Join(attrs, ","), o.Class()))
	}
	w.State(text)
	t.Close()
}

func runC06(w *W) {
	w.Rules("")
	w.Start(ref.Conf{NoStd: true}, "-r", "rules")
	w.UseWorld(c06World)
	switch w.Name {
	case "addr":
		addrs := words(split(`a@."<>]`), pick(w.Tier, 5, 6))
		addrs = append(addrs, words(split("ab@."), pick(w.Tier, 6, 7))...)
		addrs = append(addrs, "u@a.a", "u@a.b", "u@b.a", "u@b.b", "u@a.aa", "u@aa.a", "u@none.net", "u@u.net", "u@X.NET", "@r.net:u@x.net", "@r:u@x",
			`"u@v"@x.net`, `"u v"@x.net`, "u@v@x.net", "<u@x.net>", "<u@x.net", "u@[1.2.3.4]", "u@x.net.", "u..v@x.net", "u@x..net", "u@localhost", "@@", "u", "\"\"", "é@x.net", strings.Repeat("u", 3000)+"@x.net")
		for _, what := range []string{"to-has", "from-has"} {
			for _, a := range addrAttrs {
				if w.Mine() {
					w.addrHas(what, []string{a}, addrs)
				}
			}
		}
	case "addrlists":
		addrs := words(split(`a@."`), 4)
		addrs = append(addrs, "u@a.a", "u@a.b", "u@u.net", "@r.net:u@x.net", `"u@v"@x.net`)
		lists(addrAttrs, 3, func(l []string) {
			if len(l) > 1 && w.Mine() {
				w.addrHas("to-has", l, addrs)
				if len(l) < 3 {
					w.addrHas("from-has", l, addrs)
				}
			}
		})
	case "helo":
		names := words(split("1.:[]a"), pick(w.Tier, 5, 6))
		names = append(names, "198.51.100.7", "[198.51.100.7]", "192.0.2.1", "[192.0.2.1]", "1.2.3.4", "[1.2.3.4]", "[1.2.3.4", "1.2.3.4]",
			"::ffff:198.51.100.7", "[::ffff:198.51.100.7]", "[2001:db8::1]", "2001:db8::1", "2001:DB8:0::1", "[2001:db8:0:0:0:0:0:1]", "[IPv6:2001:db8::1]",
			"[]", "[[1.2.3.4]]", "1.2.3.4.5", "fe80::1%eth0", "[fe80::1]", "fred", "fred.net", "[fred]", " 1.2.3.4", "127.1", "0x7f.1.1.1")
		conns := [][2]string{{"198.51.100.7", "192.0.2.1"}, {"2001:db8::1", "2001:db8::2"}, {"2001:db8::2", "2001:db8::1"}, {"fe80::1%eth0", "fe80::2%eth0"}, {"192.0.2.1", "198.51.100.7"}, {"1.2.3.4", "1.2.3.4"}}
		var ls [][]string
		for _, a := range heloAttrs {
			ls = append(ls, []string{a})
		}
		for ci, c := range conns {
			ns := names
			if ci > 0 {
				ns = names[len(names)-26:]
				if ci == 1 {
					for i, a := range heloAttrs {
						for _, b := range heloAttrs[i+1:] {
							ls = append(ls, []string{a, b})
						}
					}
				}
			}
			for _, attrs := range ls {
				if !w.Mine() {
					continue
				}
				rs := hits(ref.Helo, ref.Has{What: "helo-has", Attrs: attrs})
				text := ref.Text(rs)
				w.Rules(text)
				t := w.Session("rules:\n"+text, hostport(c[0]), hostport(c[1]), ref.SessOpt{Rules: rs})
				for _, n := range ns {
					for _, v := range []string{"EHLO", "HELO"} {
						if t.bad {
							break
						}
						t.Steps = t.Steps[:1]
						w.Res.Evals++
						e, _ := t.Do(v, n)
						w.Outcome(fmt.Sprintf("helo-has %s %dxx", strings.Join(attrs, ","), e.Class))
					}
				}
				w.State(text, c[0])
				t.Close()
			}
		}
		// the documented name of one attribute is not the one that works
		if w.Shard == 0 {
			rs := hits(ref.Helo, ref.Has{What: "helo-has", Attrs: []string{"remip"}})
			w.Rules("@helo reject helo-has remoteip\n@helo stall all\n")
			s, o := w.Open(0, client, local)
			w.D.NConn++
			_ = rs
			hit := s.Do(vrt.Cmd{Verb: "EHLO", Arg: "198.51.100.7"})
			miss := s.Do(vrt.Cmd{Verb: "EHLO", Arg: "h.net"})
			if o.Err != nil || hit.Class() != 5 || miss.Class() != 4 {
				w.Known("'helo-has remoteip' is documented but only 'remip' is understood")
			}
			s.End()
		}
	case "dns":
		kinds := []string{"v", "n", "i", "e"} // verified, no forward, inconsistent, forward lookup error
		i := 0
		world := &ref.World{PTR: map[string][]string{}, A: map[string][]string{}, Err: map[string]string{}}
		type cl struct{ ip, desc string }
		var clients []cl
		lists(kinds, 3, func(l []string) {
			i++
			ip := ipAddr(i)
			for j, k := range l {
				n := fmt.Sprintf("n%d.h%d.net", j, i)
				world.PTR[ip] = append(world.PTR[ip], n+".")
				switch k {
				case "v":
					world.A[n] = []string{"192.0.2.77", ip}
				case "i":
					world.A[n] = []string{"192.0.2.77"}
				case "e":
					world.Err["A "+n] = "timeout"
				}
			}
			clients = append(clients, cl{ip, strings.Join(l, "")})
		})
		for _, k := range []string{"servfail", "timeout", "other"} {
			i++
			world.Err["PTR "+ipAddr(i)] = k
			clients = append(clients, cl{ipAddr(i), k})
		}
		w.UseWorld(world)
		lists(dnsAttrs, 2, func(attrs []string) {
			if len(attrs) == 0 {
				return
			}
			rs := hits(ref.Helo, ref.Has{What: "dns", Attrs: attrs})
			text := ref.Text(rs)
			w.Rules(text)
			for _, c := range clients {
				if !w.Mine() {
					continue
				}
				w.Res.Evals++
				t := w.Session("rules:\n"+text+"reverse DNS: "+c.desc, hostport(c.ip), local, ref.SessOpt{Rules: rs})
				e, _ := t.Do("EHLO", "h.net")
				w.Outcome(fmt.Sprintf("dns %s %dxx", strings.Join(attrs, ","), e.Class))
				w.State(text, c.desc)
				t.Close()
			}
		})
	}
}

func init() {
	register(&Check{ID: "C06", Level: "model_checking", Run: runC06,
		Plan: func(tier string) []Job {
			var l []Job
			l = append(l, shards(9, Job{Name: "addr"})...)
			l = append(l, shards(4, Job{Name: "addrlists"})...)
			l = append(l, shards(6, Job{Name: "helo"})...)
			l = append(l, shards(1, Job{Name: "dns"})...)
			return l
		},
		Rule: "every address that is a string over {a,@,.,\",<,>,]} or {a,b,@,.}, every HELO name over {1,.,:,[,],a} and every list of up to 3 reverse DNS names of 4 kinds, up to the bound, x every attribute and list of attributes; state = rules text with the connection",
		Bounds: func(tier string) string {
			return pick(tier, "addresses of length <=5 (7 symbols) and <=6 (4 symbols), HELO names of length <=5", "addresses of length <=6 and <=7, HELO names of length <=6")
		},
		Assumptions: []string{"the documentation calls the determination casual; beyond the documented examples the character positions that count are taken from the implementation"},
	})
}
