package checks

import (
	"crypto/x509"
	"fmt"
	"runtime"
	"strings"

	"verif/ref"
	"verif/vrt"
)

// C20: nothing crashes or wedges the daemon.

func c20Ops() []string {
	long := strings.Repeat("x", 300)
	l := []string{"all", "tls on", "tls off", "dnsbl bl.net", "dnsbl sbl.spamhaus.org", "dbl any sbl.spamhaus.org", "dbl helo,from bl.net", "dbl host bl.net"}
	for _, p := range []string{"a@x.net", "@x.net", "@.net", "a@", "@", "<>", "/nosuch/file", "./pats", "file:pats", "file:empty", long, "\"\"", "\"@.\"", "\"a b\"", "\"@@\""} {
		l = append(l, "from "+p, "to "+p)
	}
	for _, p := range []string{"x.net", ".x.net", ".", "\"\"", "./pats", "file:nosuch", "a", long, "\"..\""} {
		l = append(l, "helo "+p, "host "+p, "source "+p)
	}
	for _, p := range []string{"198.51.100.7", "198.51.100.0/24", "2001:db8::/32", "./pats", "file:nosuch", "fe80::1", "bogus", "0.0.0.0/0", "::/0"} {
		l = append(l, "ip "+p)
	}
	for _, a := range strings.Fields("unqualified route quoted noat garbage bad resolves unknown baddom") {
		l = append(l, "from-has "+a, "to-has "+a)
	}
	for _, a := range strings.Fields("helo ehlo none nodots bareip properip ip myip remip otherip bogus") {
		l = append(l, "helo-has "+a)
	}
	for _, a := range strings.Fields("nodns exists noforward inconsistent good") {
		l = append(l, "dns "+a)
	}
	var good []string
	for _, o := range l {
		if _, v, _, _ := ref.Read("set-with "+o+" with note n\n", nil); v == ref.Good {
			good = append(good, o)
		}
	}
	return good
}

var c20Addrs = func() []string {
	l := words([]string{"@", ".", "a", "\"", ":", "["}, 3)
	l = append(l, "a@x.net", "a@b@x.net", "@a,@b:c@x.net", "\"a b\"@x.net", "a@[1.2.3.4]", "a@x.net.", "a@.x.net", "a@x..net", "%s%d%n", "a@%s", "\x00", "a\x00@x.net", "caf\xe9@x.net",
		"\xff\xfe@\xff", "a b@x.net", "<a@x.net>", "<>", " ", "a@ ", strings.Repeat("a", 2000), "a@"+strings.Repeat("b.", 990), strings.Repeat("@", 2000), "A@X.NET")
	return l
}()

var c20Helos = func() []string {
	l := words([]string{".", "[", "]", "1", ":", "a"}, 3)
	l = append(l, "x.net", "[1.2.3.4]", "[198.51.100.7]", "1.2.3.4", "[::1]", "[IPv6:::1]", "[IPv6:", "::1", "fe80::1%eth0", "[fe80::1%eth0]", "256.256.256.256", "1.2.3", "%s%d", "\x00", "\xff",
		" ", "a b", "a'b", strings.Repeat("h.", 990), strings.Repeat("[", 300), "a@b", "198.51.100.7.", "X.NET", "..")
	return l
}()

type c20 struct{ w *W }

// session runs commands; each must get exactly one reply.
func (x c20) session(desc, raddr, laddr string, cmds []vrt.Cmd) {
	w := x.w
	w.Res.Evals++
	w.Res.Traces++
	short := func(c vrt.Cmd) string {
		if len(c.Arg) > 100 {
			return fmt.Sprintf("%s %q...(%d)", c.Verb, c.Arg[:100], len(c.Arg))
		}
		return fmt.Sprintf("%s %q", c.Verb, c.Arg)
	}
	steps := []string{desc, "CONNECT " + raddr + " to " + laddr}
	cur := func() string { return strings.Join(steps, " / ") }
	w.Cur(cur())
	s, o := w.Open(0, raddr, laddr)
	fail := func(f string, a ...any) {
		w.Fail(steps, "%s\n  in: %s", fmt.Sprintf(f, a...), cur())
		s.Closed = true
	}
	look := func(o Out) bool {
		if o.Err != nil {
			fail("%v", o.Err)
			return false
		}
		for _, p := range vrt.Panics() {
			fail("the server panicked: %s", p)
			return false
		}
		return true
	}
	if !look(o) {
		return
	}
	if len(o.R) != 1 && !o.Closed {
		fail("no greeting: %v", o)
		return
	}
	for _, c := range cmds {
		if s.Closed {
			break
		}
		steps = append(steps, short(c))
		w.Cur(cur())
		o := s.Do(c)
		if !look(o) {
			return
		}
		w.Outcome(fmt.Sprintf("%s %dxx", c.Verb, o.Class()))
		if n := len(o.R); n != 1 {
			fail("%d replies to %s: %v", n, short(c), o)
			return
		}
		if o.R[0].Code == 354 {
			// the data must follow
			b := vrt.Cmd{Verb: "BODY", Arg: "Subject: x\n\n" + c.Arg}
			steps = append(steps, short(b))
			o := s.Do(b)
			if !look(o) {
				return
			}
			if len(o.R) != 1 {
				fail("%d replies to the message: %v", len(o.R), o)
				return
			}
		}
	}
	w.State(desc, raddr, laddr, fmt.Sprint(cmds))
	if !s.Closed {
		look(s.End())
	}
}

func c20World(i int) *ref.World {
	x := newWorld()
	x.Search = false
	switch i {
	case 1:
		for _, ip := range []string{"198.51.100.7", "2001:db8::7", "fe80::1%eth0"} {
			x.PTR[ip] = []string{"a.x.net.", ".", "b.x.net.", "C.x.net."}
		}
		x.A["a.x.net"] = []string{"198.51.100.7", "2001:db8::7"}
		x.A["b.x.net"] = []string{"198.51.100.8"}
		x.A["x.net"] = []string{"203.0.113.5"}
		for _, n := range []string{"7.100.51.198.sbl.spamhaus.org", "x.net.sbl.spamhaus.org", "x.net.bl.net", "a.x.net.sbl.spamhaus.org", "7.100.51.198.bl.net", "a.x.net.bl.net"} {
			x.A[n] = []string{"127.0.0.2"}
		}
		x.TXT["7.100.51.198.sbl.spamhaus.org"] = []string{"http://x/SBL1", "/", "", "none", "a/b/"}
	case 2:
		for _, ip := range []string{"198.51.100.7", "2001:db8::7"} {
			x.Err["PTR "+ip] = "timeout"
		}
		for _, n := range []string{"x.net", "7.100.51.198.sbl.spamhaus.org", "x.net.sbl.spamhaus.org"} {
			x.Err["A "+n] = "servfail"
		}
		x.Err["MX x.net"] = "plain"
	case 3:
		x.PTR["198.51.100.7"] = []string{"localhost."}
		x.MX["x.net"] = []ref.MX{{Host: ".", Pref: 5}, {Host: "localhost.", Pref: 0}}
		x.Err["A localhost"] = "plain"
	}
	return x
}

func runC20(w *W) {
	makeCerts(1)
	clearDir("save")
	writeFile("pats", "\n#\n@\n.\n@.\n<>\n10.0.0.0/8\nbogus\n@x.net\na\n..\n")
	writeFile("empty", "")
	var opt int
	fmt.Sscan(w.Par["opt"], &opt)
	conf := ref.Conf{NoStd: opt&1 != 0, SMTPLog: opt&2 != 0, Log: opt&4 != 0, TLS: opt&8 != 0}
	if opt&16 != 0 {
		conf.Dir = "save"
	}
	args := []string{"-r", "rules"}
	if opt&32 != 0 {
		conf.DN = 1
		conf.SMTPLog = true
		args = append(args, "-dnlog", "dn.log")
	}
	if opt&64 != 0 {
		writeFile("conncfg", "192.0.2.1 hostname=c.net\n")
		args = append(args, "-conncfg", "conncfg", "-S")
	}
	if opt&128 != 0 {
		args = append(args, "-pprof", "127.0.0.1:8099", "-statsperip")
	}
	w.Rules("")
	w.Start(conf, args...)
	runtime.MemProfileRate = 0 // -pprof makes it 1, which is slow
	x := c20{w}
	withs := []string{"note \"n %s\"", "message \"%s %d\\n\\nx\"", "savedir save", "savedir /nosuch/dir", "tls-opt off", "tls-opt no-client", "make-yakker", "message \"\" note \"\""}
	rulesets := func() []string {
		var l []string
		a := ""
		for i, o := range c20Ops() {
			a += fmt.Sprintf("set-with %s with %s\n", o, withs[i%len(withs)])
		}
		l = append(l, a)
		b := ""
		for i, o := range c20Ops() {
			b += fmt.Sprintf("set-with not %s with note n%d\n", o, i)
			if i > 0 {
				b += fmt.Sprintf("set-with %s or not %s with note x;\n  (%s %s) with message m\n", o, c20Ops()[i-1], o, c20Ops()[i/2])
			}
		}
		l = append(l, b)
		for _, ph := range strings.Fields("@connect @helo @from @to @data @message") {
			for i, act := range []string{"reject", "stall", "accept"} {
				l = append(l, fmt.Sprintf("%s %s all with message \"%%s%%d\\n\" note n %s\n", ph, act, withs[(2+i)%len(withs)]))
			}
		}
		return append(l, "", "bogus\n")
	}()
	for i, r := range rulesets[:len(rulesets)-1] {
		if _, v, why, _ := ref.Read(r, nil); v == ref.Bad {
			panic(fmt.Sprintf("rules set %d: %s", i, why))
		}
	}
	cm := func(va ...string) (l []vrt.Cmd) {
		for i := 0; i < len(va); i += 2 {
			l = append(l, vrt.Cmd{Verb: va[i], Arg: va[i+1]})
		}
		return
	}
	clients := []string{"198.51.100.7:4000", "[2001:db8::7]:25", "[fe80::1%eth0]:25", "@", "bogus", ":25", "198.51.100.7", "[::ffff:198.51.100.7]:99"}
	locals := []string{"192.0.2.1:25", "[2001:db8::1]:25", "[fe80::2%eth0]:25", "bogus", ""}
	switch w.Name {
	case "inputs":
		for ri, r := range rulesets {
			w.Rules(r)
			for wi := 0; wi < 4; wi++ {
				InstallDNS(c20World(wi))
				d := fmt.Sprintf("options %d, rules set %d, DNS world %d", opt, ri, wi)
				big := ri < 2
				for i, h := range c20Helos {
					if !big && i%13 != 0 || !w.Mine() || w.Over() {
						continue
					}
					x.session(d, clients[0], locals[0], cm("EHLO", h, "MAIL", "a@x.net", "RSET", "", "HELO", h, "MAIL", "a@x.net", "RCPT", "b@x.net", "DATA", h))
				}
				for i, a := range c20Addrs {
					if !big && i%13 != 0 || !w.Mine() || w.Over() {
						continue
					}
					x.session(d, clients[0], locals[0], cm("EHLO", "x.net", "MAIL", a, "RCPT", "b@x.net", "DATA", "", "RSET", "", "MAIL", "c@x.net", "RCPT", a, "RCPT", "a@x.net", "RCPT", a, "DATA", "", "QUIT", ""))
				}
				for _, c := range clients {
					for _, l := range locals {
						if !w.Mine() {
							continue
						}
						x.session(d, c, l, cm("STARTTLS", "", "EHLO", "x.net", "STARTTLS", "", "EHLO", "[1.2.3.4]", "MAIL", "", "RCPT", "b@x.net", "DATA", "", "RSET", "", "NOOP", ""))
						x.session(d, c, l, cm("BAD", "", "DATA", "", "RCPT", "x", "MAIL", "x", "EHLO", ""))
						x.session(d, c, l, nil)
					}
				}
				for _, o := range []*vrt.TLSOutcome{{Fail: true}, {}, {Version: 0xffff, Cipher: 0xffff, ServerName: "'%s'\n", PeerCert: &x509.Certificate{}}, {PeerCert: &x509.Certificate{}, ChainVerify: true}} {
					if !w.Mine() {
						continue
					}
					l := cm("EHLO", "x.net")
					l = append(l, vrt.Cmd{Verb: "STARTTLS", TLS: o})
					l = append(l, cm("EHLO", "x.net", "MAIL", "a@x.net", "RCPT", "b@x.net", "DATA", "")...)
					x.session(d, clients[0], locals[0], l)
				}
				clearDir("save")
			}
		}
	case "race":
		// sessions at the same time, under the race detector
		for _, ri := range []int{0, 1, len(rulesets) - 1} {
			w.Rules(rulesets[ri])
			for wi := 0; wi < 4; wi++ {
				InstallDNS(c20World(wi))
				for r := 0; r < pick(w.Tier, 4, 20); r++ {
					ss := []script{
						{Raddr: clients[0], Laddr: locals[0], Cmds: cm("EHLO", "x.net", "MAIL", "a@x.net", "RCPT", "b@x.net", "DATA", "", "BODY", "Subject: x\n\ny\n", "QUIT", "")},
						{Raddr: clients[0], Laddr: locals[0], Cmds: cm("HELO", "[1.2.3.4]", "MAIL", "", "RCPT", "a@y.net", "RSET", "", "MAIL", "q@x.net")},
						{Raddr: clients[1], Laddr: locals[1], Cmds: cl("EHLO x.net", "TLSFAIL")},
						{Raddr: hostport(ipAddr(r)), Laddr: locals[r%len(locals)], Cmds: cm("EHLO", "x.net", "STARTTLS", "", "EHLO", "x.net", "MAIL", "a@x.net", "RCPT", "b@x.net", "DATA", "", "BODY", fmt.Sprint("m", r))},
					}
					desc := fmt.Sprintf("options %d, rules set %d, DNS world %d, free run %d of %v", opt, ri, wi, r, ss)
					w.Cur(desc)
					w.Res.Evals++
					w.Res.Traces++
					var ls []*live
					for _, s := range append(ss, ss...) {
						ls = append(ls, w.goClient(s))
					}
					w.join(ls)
					for i, l := range ls {
						for _, o := range l.Outs {
							if o.Err != nil {
								w.Fail(desc, "session %d: %v\n  in: %s", i, o.Err, desc)
							}
						}
					}
					for _, p := range vrt.Panics() {
						w.Fail(desc, "the server panicked: %s\n  in: %s", p, desc)
					}
					w.State(desc)
				}
			}
		}
	case "patterns":
		// every odd argument of every operation
		InstallDNS(c20World(1))
		args := words([]string{"@", ".", "a", "<", ":", "/", "1", "\\\""}, 3)
		for _, op := range []string{"from", "to", "helo", "host", "source", "ip", "dnsbl", "dbl any"} {
			for _, a := range args {
				if !w.Mine() || w.Over() {
					continue
				}
				for _, q := range []string{"\"" + a + "\"", a} {
					r := fmt.Sprintf("set-with %s %s with note n\nset-with not %s %s with note n\n", op, q, op, q)
					w.Rules(r)
					x.session(fmt.Sprintf("options %d, rules %q", opt, r), clients[0], locals[0],
						cm("HELO", "", "EHLO", "x.net", "MAIL", "", "RCPT", "", "RSET", "", "EHLO", ".", "MAIL", "@", "RCPT", "a@", "RCPT", "@a", "RCPT", "a@x.net", "DATA", ""))
					x.session(fmt.Sprintf("options %d, rules %q", opt, r), clients[2], locals[0], cm("EHLO", "1.1", "MAIL", "a@.", "RCPT", "b@x.net"))
				}
			}
		}
	}
}

func init() {
	register(&Check{ID: "C20", Level: "model_checking", Run: runC20,
		Plan: func(tier string) []Job {
			var l []Job
			for _, o := range []int{1 | 2 | 4 | 8 | 16 | 128, 2 | 4 | 8 | 32 | 64 | 128} {
				l = append(l, Job{Name: "race", Build: "race", Par: map[string]string{"opt": fmt.Sprint(o)}})
			}
			opts := []int{0, 1 | 2, 2 | 4 | 8 | 16, 1 | 8 | 64, 1 | 2 | 4 | 8 | 16 | 64, 32 | 1 | 8, 1 | 16, 128 | 1 | 2 | 8 | 32}
			if tier == "thorough" {
				opts = nil
				for i := 0; i < 256; i++ {
					opts = append(opts, i)
				}
			}
			for _, o := range opts {
				l = append(l, shards(pick(tier, 4, 1), Job{Name: "inputs", Par: map[string]string{"opt": fmt.Sprint(o)}, Budget: 600})...)
			}
			for _, o := range opts[:2] {
				l = append(l, shards(4, Job{Name: "patterns", Par: map[string]string{"opt": fmt.Sprint(o)}})...)
			}
			return l
		},
		Rule: "rules with every match operation, option, action and phase x every odd HELO name, address, message, client and local address, TLS outcome and DNS world x option combinations; every short argument of every operation; free runs of simultaneous sessions under the race detector; each command must get exactly one reply, nothing may panic, exit or hang; state = options, rules, world, addresses and commands",
		Bounds: func(tier string) string {
			return pick(tier, "8 option combinations, strings of up to 3 symbols", "all 256 option combinations")
		},
	})
}
