package checks

import (
	"fmt"
	"net"
	"strings"
	"testing/synctest"
	"time"

	"verif/ref"
	"verif/vrt"
)

// The "near" jobs: addresses, names and bytes that are almost the same.

// nearAddrs are pairs of different addresses: those that differ in one bit, as
// texts only in length, or are an IPv4 address and an IPv6 one made of it.
func nearAddrs() [][2]string {
	var l [][2]string
	for _, a := range []string{"198.51.100.7", "2001:db8:1:2:3:4:5:6"} {
		ip := net.ParseIP(a)
		if v4 := ip.To4(); v4 != nil {
			ip = v4
		}
		for bit := 0; bit < len(ip)*8; bit++ {
			b := append(net.IP{}, ip...)
			b[bit/8] ^= 0x80 >> (bit % 8)
			l = append(l, [2]string{a, b.String()})
		}
	}
	for _, b := range []string{"198.51.100.70", "198.51.100.77", "98.51.100.7", "7.100.51.198", "2002:c633:6407::", "64:ff9b::c633:6407", "::c633:6407", "::"} {
		l = append(l, [2]string{"198.51.100.7", b})
	}
	for _, b := range []string{"2001:db8:1:2:3:4:5:66", "2001:db8:1:2:3:4:5:60", "2001:db8:1:2:3:4:6:5", "2001:db8:1:2::", "2001:db8:1:2::5:6", "6:5:4:3:2:1:db8:2001"} {
		l = append(l, [2]string{"2001:db8:1:2:3:4:5:6", b})
	}
	return l
}

var nearLocals = []string{local, "192.0.2.2:26", "[2001:db8::1]:25"}

// near runs every sequence of sessions of up to n of a pair of addresses; what
// happens in a session is up to f. All use ports and local addresses of their own.
func (w *W) near(depth int, past time.Duration, kinds []string, f func(desc, raddr, laddr, kind string) bool) {
	port := 0
	for _, p := range nearAddrs() {
		for _, first := range []int{0, 1} {
			if !w.Mine() || w.Over() {
				continue
			}
			n := 2 * len(kinds)
			total := 1
			for i := 1; i < depth; i++ {
				total *= n
			}
			for x := 0; x < total; x++ {
				w.Res.Evals++
				time.Sleep(past)
				var hist []string
				for i, r := 0, x; i < depth; i++ {
					k := 0
					who := first
					if i > 0 {
						k, who = r%n/2, r%2
						r /= n
					}
					port++
					hist = append(hist, kinds[k]+" of "+p[who])
					if !f("sessions: "+strings.Join(hist, ", "), net.JoinHostPort(p[who], fmt.Sprint(1024+port%60000)), nearLocals[i%3], kinds[k]) {
						break
					}
				}
			}
		}
	}
}

func nearC13(w *W) {
	rs := w.useRules(c13Rules)
	dur := 3 * time.Hour
	w.Start(ref.Conf{NoStd: true, DN: 2, DNDur: dur, MinPhase: "from", SMTPLog: true}, "-r", "rules")
	w.UseWorld(newWorld())
	w.near(pick(w.Tier, 4, 5), dur+time.Second, []string{"less", "enough", "marked"}, func(desc, raddr, laddr, kind string) bool {
		t := w.Session(desc, raddr, laddr, ref.SessOpt{Rules: rs})
		switch kind {
		case "less":
			t.Do("EHLO", "h.net")
		case "enough":
			t.Do("EHLO", "h.net")
			t.Do("MAIL", "a@x.net")
		case "marked":
			t.Do("EHLO", "yak.net")
		}
		w.Outcome(fmt.Sprintf("stalled=%v", t.M.Stalled))
		w.State(t.M.RIP, fmt.Sprint(w.D.Yak.Count(t.M.RIP), t.M.Stalled), kind)
		t.Close()
		synctest.Wait()
		return !t.bad
	})
}

// dursC13: all kinds of time windows, and gaps just short of and beyond them.
func dursC13(w *W) {
	durs := []time.Duration{1500 * time.Millisecond, time.Second, 59 * time.Second, time.Minute, 90 * time.Second, 30 * time.Minute, 59*time.Minute + 59*time.Second, time.Hour, 90 * time.Minute,
		8 * time.Hour, 24 * time.Hour, 36*time.Hour + 1*time.Second, 7 * 24 * time.Hour, 300 * 24 * time.Hour}
	dur := durs[w.Shard%len(durs)]
	rs := w.useRules(c13Rules)
	w.Start(ref.Conf{NoStd: true, DN: 2, DNDur: dur, MinPhase: "from", SMTPLog: true}, "-r", "rules")
	w.UseWorld(newWorld())
	e := max(time.Microsecond, dur/1000000)
	gaps := []time.Duration{0, e, dur / 2, dur*2/3 + e, dur - dur/50, dur - e, dur + e, dur + dur/50, dur * 2}
	kinds := []string{"less", "enough", "marked"}
	n := 0
	var walk func(hist []string, g []int)
	walk = func(hist []string, g []int) {
		depth := pick(w.Tier, 3, 4)
		if dur > 10*time.Hour {
			depth = 3
		}
		if dur > 100*24*time.Hour {
			depth = 2 // not to run out of time, which ends in 2262
		}
		if len(g) < depth {
			for i := range len(gaps) * len(kinds) {
				walk(hist, append(g[:len(g):len(g)], i))
			}
			return
		}
		if g[0]/len(kinds) != 0 {
			return // the first gap does not matter
		}
		w.Res.Evals++
		n++
		ip := ipAddr(n)
		for _, x := range append(g, 0) {
			gap, kind := gaps[x/len(kinds)], kinds[x%len(kinds)]
			time.Sleep(gap)
			hist = append(hist, fmt.Sprintf("%s after %v", kind, gap))
			t := w.Session(fmt.Sprintf("-dndur %v, sessions: %s", dur, strings.Join(hist, ", ")), hostport(ip), local, ref.SessOpt{Rules: rs})
			if t.M.Stalled {
				t.Do("NOOP", "")
			} else {
				switch kind {
				case "less":
					t.Do("EHLO", "h.net")
				case "enough":
					t.Do("EHLO", "h.net")
					t.Do("MAIL", "a@x.net")
				case "marked":
					t.Do("EHLO", "yak.net")
				}
			}
			w.Outcome(fmt.Sprintf("stalled=%v", t.M.Stalled))
			w.State(dur.String(), fmt.Sprint(w.D.Yak.Count(ip), t.M.Stalled), kind, gap.String())
			t.Close()
			synctest.Wait()
			if t.bad {
				return
			}
		}
	}
	walk(nil, nil)
}

func nearC15(w *W) {
	makeCerts(1)
	rs := w.useRules(c15Rules)
	w.Start(ref.Conf{NoStd: true, TLS: true}, "-r", "rules")
	w.UseWorld(newWorld())
	w.near(pick(w.Tier, 4, 5), 73*time.Hour, []string{"fail", "ok"}, func(desc, raddr, laddr, kind string) bool {
		t := w.Session(desc, raddr, laddr, ref.SessOpt{Rules: rs})
		t.Do("EHLO", "h.net")
		ask := t.M.AskClient
		e, _ := t.DoCmd(vrt.Cmd{Verb: "STARTTLS", TLS: &vrt.TLSOutcome{Version: 0x303, Cipher: 0x2f, Fail: kind == "fail"}})
		if e.Class == 2 && !t.bad && (t.S.C.Info["clientauth"] != "0") != ask {
			t.fail("expected a client certificate to be asked for=%v", ask)
		}
		w.Outcome(fmt.Sprintf("%s %dxx", kind, e.Class))
		w.State(t.M.RIP, fmt.Sprint(w.D.NoTLS.Count(t.M.RIP)), kind)
		t.Close()
		synctest.Wait()
		return !t.bad
	})
}

// bytesC24: every byte in and around the lines of a pattern file.
func bytesC24(w *W) {
	const text = "@helo reject helo file:pats\n@from reject from file:pats\n"
	rs := w.useRules(text)
	writeFile("pats", "x\n")
	w.Start(ref.Conf{NoStd: true, HeloReject: "hpats"}, "-r", "rules")
	world := newWorld()
	world.Files = map[string][]string{}
	w.UseWorld(world)
	try := func(s string) {
		if !w.Mine() {
			return
		}
		for _, f := range []string{"pats", "hpats"} {
			w.Res.Evals++
			delete(world.Files, "pats")
			delete(world.Files, "hpats")
			writeFile("pats", "")
			writeFile("hpats", "")
			writeFile(f, s)
			l := c24Pats(s)
			world.Files[f] = l
			t := w.Session(fmt.Sprintf("pattern file %s is %q", f, s), client, local, ref.SessOpt{Rules: rs})
			for _, p := range append([]string{"a.net", "b.net", "anet", "net"}, l...) {
				ok := p != "" && len(p) < 500
				for i := 0; ok && i < len(p); i++ {
					ok = p[i] > ' ' && p[i] < 0x7f
				}
				if ok && !t.bad {
					e, _ := t.Do("EHLO", p)
					w.Outcome(fmt.Sprintf("EHLO %dxx", e.Class))
				}
			}
			t.Do("EHLO", "last.example")
			for _, p := range []string{"u@a.net", "u@b.net"} {
				t.Do("MAIL", p)
				t.Do("RSET", "")
			}
			w.State(f, s)
			t.Close()
		}
	}
	var cs []string
	for c := 0; c < 256; c++ {
		cs = append(cs, string([]byte{byte(c)}))
	}
	cs = append(cs, "\ufeff", "\xff\xfe", "\r\r", "//", "--", "/*", "<!--", "dnl ", "REM ", "; ", "! ", "!include ", "include ", "file:", "end", "EOF", ".", "..", "[x]", "{", "\\n", "%s", "*", "*.", "?", "^", "~", "| ", "\"", "''", "<>", "@", "u@", "@.")
	for _, c := range cs {
		for _, p := range []string{"%s", "%s\n", "%sa.net\n", "%s\na.net\n", "a.net%s\nb.net\n", "a.net\n%s\nb.net", "a%snet\nb.net\n", "#%s\na.net\n", "#%s", " %s#\na.net\n", "%[1]s%[1]s\na.net", "a.net\n%[1]s%[1]s%[1]s", "A.NET %s\nB.net", "%[1]sa.net%[1]s\nb.net", "\n%s\n\na.net"} {
			try(fmt.Sprintf(p, c))
		}
	}
}

// nearC16: lines and local addresses that differ in one bit or in the port,
// netblocks of every length with an address just outside, and every byte.
func nearC16(w *W) {
	makeCerts(3)
	writeFile("conncfg", "")
	x := &c16{w: w, conf: ref.Conf{NoStd: true, Name: "cmd.net", TLS: true}}
	w.Start(x.conf, "-conncfg", "conncfg")
	w.UseWorld(newWorld())
	k := "cert=cert1.pem key=key1.pem"
	try := func(laddr string, locals ...string) {
		if !w.Mine() {
			return
		}
		var b strings.Builder
		var ls []c16Line
		for i, l := range locals {
			h := fmt.Sprintf("h%d.net", i)
			ls = append(ls, c16Line{Local: l, Host: h, Certs: "cert1"})
			fmt.Fprintf(&b, "%s hostname=%s %s\n", l, h, k)
		}
		writeFile("conncfg", b.String())
		x.check(fmt.Sprintf("with lines for %v", locals), laddr, ls, true)
	}
	hp := func(ip string, port int) string { return net.JoinHostPort(ip, fmt.Sprint(port)) }
	for _, p := range nearAddrs() {
		for i, a := range p {
			b := p[1-i]
			try(hp(a, 25), b)
			try(hp(a, 25), b, a)
			try(hp(a, 25), hp(b, 25))
			try(hp(a, 25), hp(b, 25), hp(a, 2525), hp(a, 5), hp(a, 26), hp(a, 25), a)
			full := 128
			if net.ParseIP(a).To4() != nil {
				full = 32
			}
			for n := 0; n <= full; n++ {
				_, nb, _ := net.ParseCIDR(fmt.Sprintf("%s/%d", a, n))
				try(hp(b, 25), nb.String())
				if i == 0 {
					try(hp(b, 25), fmt.Sprintf("%s/%d", a, n), "*")
				}
			}
		}
	}
	for port := range 66000 {
		if port < 300 || port%5000 < 3 || port > 65530 && port < 65536 {
			try(hp("192.0.2.1", port), "192.0.2.1:25", "192.0.2.1:587", "192.0.2.1:65535", "192.0.2.1:5000")
		}
	}
	// every byte; white space is left to the other jobs
	for c := 0; c < 256; c++ {
		if strings.ContainsRune(" \t\n\v\f\r", rune(c)) || c == '=' {
			continue
		}
		s := string([]byte{byte(c)})
		last := c16Line{Local: "192.0.2.1", Host: "hit.net", Certs: "cert1"}
		for _, p := range []string{"%s\n", "%[1]s%[1]s\n", "%s192.0.2.1\n", "192.0.2.1%s\n", "%s 192.0.2.1\n", "#%s\n", "10.9.9.9 hostname=%s\n"} {
			if !w.Mine() {
				continue
			}
			text := fmt.Sprintf(p, s)
			fs := strings.Fields(text)
			var ls []c16Line
			good := true
			if !strings.HasPrefix(text, "#") {
				ls = append(ls, c16Line{Local: fs[0]})
				good = p != "%s 192.0.2.1\n"
			}
			writeFile("conncfg", text+"192.0.2.1 hostname=hit.net "+k+"\n")
			x.check(fmt.Sprintf("%q and then a good line", text), local, append(ls, last), good)
			writeFile("conncfg", "192.0.2.1 hostname=hit.net "+k+"\n"+strings.TrimSuffix(text, "\n"))
			x.check(fmt.Sprintf("a good line and then %q", text), local, append([]c16Line{last}, ls...), good)
		}
		writeFile("conncfg", "192.0.2.1 hostname=a"+s+"b.net "+k+"\n")
		if c > ' ' && c < 0x7f {
			x.check(fmt.Sprintf("host name a%sb.net", s), local, []c16Line{{Local: "192.0.2.1", Host: "a" + s + "b.net", Certs: "cert1"}}, true)
		}
	}
}

// nearC17: MX hosts with names that are almost special, in pairs.
func nearC17(w *W) {
	rs := w.useRules(c17Rules)
	w.Start(ref.Conf{NoStd: true}, "-r", "rules")
	doms := []string{"dom.x.net", "localhost.net", "x.localhost", "localhost.localdomain", "nodots.", "mx.x.net"}
	hosts := []string{"mx.x.net.", "dom.x.net.", "DOM.x.net.", "mail.dom.x.net.", "x.net.", "localhost.", "LocalHost.", ".", "localhost.x.net.", "x.localhost.", "xlocalhost.", "localhostx.", "localhost.localdomain.",
		"nodots.", "203.0.113.9.", "10.0.0.1.", "127.0.0.1.", "0.", "a-b.x.net.", "x_y.net.", "*.x.net.", "mx.x.netmx.x.net."}
	kinds := []string{"203.0.113.1", "10.1.1.1", "", "!timeout"}
	type mx struct{ host, kind string }
	var all []mx
	for _, h := range hosts {
		for _, k := range kinds {
			all = append(all, mx{h, k})
			if h == "." {
				break
			}
		}
	}
	test := func(dom string, l ...mx) {
		if !w.Mine() || w.Over() {
			return
		}
		for i, a := range l {
			for _, b := range l[:i] {
				if strings.EqualFold(a.host, b.host) && a.kind != b.kind {
					return
				}
			}
		}
		w.Res.Evals++
		x := newWorld()
		dom = strings.TrimSuffix(dom, ".")
		for i, a := range l {
			if a.host != "." {
				c17Set(x, strings.ToLower(strings.TrimSuffix(a.host, ".")), a.kind)
			}
			x.MX[dom] = append(x.MX[dom], ref.MX{Host: a.host, Pref: uint16(10 * (i / 2))})
		}
		w.UseWorld(x)
		w.Outcome(x.Domain(dom))
		w.State(dom, fmt.Sprint(l))
		t := w.Session(fmt.Sprintf("domain %s with MX hosts and their addresses %q", dom, l), client, local, ref.SessOpt{Rules: rs})
		for _, h := range []string{"f1.net", "f2.net", "f3.net"} {
			t.Do("EHLO", h)
			t.Do("MAIL", "u@"+dom)
			t.Do("RSET", "")
		}
		t.Close()
	}
	for _, dom := range doms {
		for _, a := range all {
			test(dom, a)
			for _, b := range all {
				if dom == doms[0] || a.host == dom+"." || b.host == dom+"." {
					test(dom, a, b)
				}
			}
		}
	}
	if w.Tier == "thorough" {
		for _, a := range all {
			for _, b := range all {
				for _, c := range all {
					test(doms[0], a, b, c)
				}
			}
		}
	}
}

// optsC02: a refused null sender with every combination of options.
func optsC02(w *W) {
	makeCerts(1)
	for _, d := range []string{"save", "save1", "save2"} {
		clearDir(d)
	}
	w.Rules("")
	dur := 3 * time.Hour
	w.Start(ref.Conf{NoStd: true, Dir: "save", SMTPLog: true, TLS: true, DN: 3, DNDur: dur, MinPhase: "accepted"}, "-r", "rules")
	w.UseWorld(newWorld())
	x := c21{w}
	msgs := []string{"", ` message "msg1"`, " message \"msg1\nand msg1\"", " message \"msg1\n\nand msg1\n more\n\""}
	more := []string{" note note1", " savedir save1", " make-yakker", " tls-opt off", " tls-opt no-client"}
	sessions := [][]string{
		{"EHLO h.net", "MAIL ", "RCPT p@z.net", "RCPT q@z.net", "RSET", "EHLO h.net", "STARTTLS", "EHLO h.net", "MAIL a@x.net", "RCPT p@z.net", "DATA", "BODY one\n"},
		{"EHLO h.net", "MAIL ", "RSET", "EHLO h.net", "STARTTLS", "EHLO h.net", "MAIL ", "RCPT p@z.net", "RSET", "MAIL b@x.net", "RCPT p@z.net", "DATA", "BODY two\n"},
		{"EHLO h.net", "MAIL ", "RCPT p@z.net", "MAIL a@x.net", "RCPT q@z.net", "DATA", "HELO h.net", "MAIL a@x.net", "RCPT q@z.net", "RSET", "MAIL ", "RCPT r@z.net"},
	}
	for _, act := range []string{"reject", "stall", "@from reject", "@from stall", "accept", "set-with"} {
		for _, msg := range msgs {
			for bits := 0; bits < 1<<len(more); bits++ {
				opts := msg
				for i, o := range more {
					if bits>>i&1 != 0 {
						opts += o
					}
				}
				if strings.Count(opts, "tls-opt") > 1 || act == "set-with" && opts == "" {
					continue
				}
				with := ""
				if opts != "" {
					with = " with" + opts
				}
				for _, pre := range []string{"", "@from set-with from <> with message msg3 note note3\n", "@to set-with all with message msg4 note note4 savedir save2\n"} {
					if !w.Mine() || w.Over() {
						continue
					}
					text := pre + act + " from <>" + with + "\n@to reject to r@z.net with message msg5\n"
					rs := w.useRules(text)
					for _, s := range sessions {
						x.run(text, rs, cl(s...))
						// and the same client again
						x.run(text, rs, cl("EHLO h.net", "STARTTLS", "EHLO h.net", "MAIL a@x.net", "RCPT p@z.net", "DATA", "BODY three\n"))
						time.Sleep(dur + time.Second)
					}
				}
			}
		}
	}
}

// nearC05: 'ip' with addresses that differ in one bit, and netblocks of every length.
func nearC05(w *W) {
	w.Rules("")
	w.Start(ref.Conf{NoStd: true}, "-r", "rules")
	w.UseWorld(newWorld())
	try := func(pat string, ips ...string) {
		if !w.Mine() {
			return
		}
		rs := w.useRules("reject ip " + pat + "\n")
		for _, ip := range ips {
			w.Res.Evals++
			t := w.Session("reject ip "+pat, hostport(ip), local, ref.SessOpt{Rules: rs})
			e, _ := t.Do("EHLO", "h.net")
			w.Outcome(fmt.Sprintf("EHLO %dxx", e.Class))
			w.State(pat, ip)
			t.Close()
		}
	}
	for _, p := range nearAddrs() {
		for i, a := range p {
			b := p[1-i]
			try(a, a, b)
			full := 128
			if net.ParseIP(a).To4() != nil {
				full = 32
			}
			for n := 0; n <= full; n++ {
				try(fmt.Sprintf("%s/%d", a, n), a, b)
			}
		}
	}
}

// nearC06: HELO with IP addresses that are almost the client's or the server's.
func nearC06(w *W) {
	w.Rules("")
	w.Start(ref.Conf{NoStd: true}, "-r", "rules")
	w.UseWorld(newWorld())
	for _, attr := range []string{"remip", "myip", "otherip", "properip", "bareip", "ip", "nodots", "bogus"} {
		rs := w.useRules("reject helo-has " + attr + "\n")
		for _, p := range nearAddrs() {
			if !w.Mine() {
				continue
			}
			for i, a := range p {
				b := p[1-i]
				for _, laddr := range []string{local, net.JoinHostPort(b, "25"), net.JoinHostPort(a, "25")} {
					w.Res.Evals++
					t := w.Session(fmt.Sprintf("reject helo-has %s, connection to %s", attr, laddr), hostport(a), laddr, ref.SessOpt{Rules: rs})
					for _, h := range []string{a, b, "192.0.2.1"} {
						up := strings.ToUpper(h)
						long := h
						if ip := net.ParseIP(h); ip.To4() == nil {
							var l []string
							for k := 0; k < 16; k += 2 {
								l = append(l, fmt.Sprintf("%02x%02x", ip[k], ip[k+1]))
							}
							long = strings.Join(l, ":")
						}
						for _, f := range []string{h, "[" + h + "]", "[" + up + "]", "[" + long + "]", long, "[" + h, h + "]", "[[" + h + "]]", h + ".", h + ":25", "[" + h + "]:25", "[IPv6:" + h + "]", "(" + h + ")", "[" + h + "] ", "x" + h} {
							if strings.TrimSpace(f) == f && !t.bad {
								e, _ := t.Do("EHLO", f)
								w.Outcome(fmt.Sprintf("%s %dxx", attr, e.Class))
							}
						}
					}
					w.State(attr, a, b, laddr)
					t.Close()
				}
			}
		}
	}
}

// nearC19: lists with entries that are almost the client's or the domain's.
func nearC19(w *W) {
	rs := w.useRules("reject helo d.net dnsbl l.bl.net\nstall helo other.net dnsbl bl.net\n@from reject dbl from f.bl.net\n@to reject dbl helo h.bl.net\n@data reject dbl host r.bl.net\n@to stall to any@z.net dbl any a.bl.net\n")
	w.Start(ref.Conf{NoStd: true}, "-r", "rules")
	rev := func(ip string) string {
		q := strings.Split(ip, ".")
		return q[3] + "." + q[2] + "." + q[1] + "." + q[0]
	}
	test := func(desc, ip, helo, from string, x *ref.World) {
		if !w.Mine() {
			return
		}
		w.Res.Evals++
		w.UseWorld(x)
		t := w.Session(desc, hostport(ip), local, ref.SessOpt{Rules: rs})
		for _, h := range []string{"d.net", "other.net", helo} {
			e, _ := t.Do("EHLO", h)
			w.Outcome(fmt.Sprintf("EHLO %dxx", e.Class))
		}
		for _, f := range []string{from, "u@clean.net"} {
			e, _ := t.Do("MAIL", f)
			w.Outcome(fmt.Sprintf("MAIL %dxx", e.Class))
			t.Do("RCPT", "any@z.net")
			t.Do("RCPT", "p@z.net")
			t.Do("DATA", "")
			if t.M.InData() {
				t.Do("BODY", "x\n")
			}
			t.Do("RSET", "")
		}
		w.State(desc)
		t.Close()
	}
	listed := []string{"127.0.0.2"}
	for _, p := range nearAddrs() {
		for i, a := range p {
			b := p[1-i]
			if strings.Contains(b, ":") {
				continue
			}
			for _, n := range []string{rev(b) + ".l.bl.net", b + ".l.bl.net", rev(b) + ".bl.net", rev(b), "0" + rev(b) + ".l.bl.net", rev(b)[2:] + ".l.bl.net", "l.bl.net"} {
				x := newWorld()
				x.A[n] = listed
				test(fmt.Sprintf("client %s with %s in the DNS", a, n), a, "h.net", "u@x.net", x)
			}
		}
	}
	// names: of the domain a.b.cd.net
	const dom = "a.b.cd.net"
	near := []string{dom, "b.cd.net", "cd.net", "net", "x." + dom, "*." + dom, "xa.b.cd.net", "a.b.cd.ne", "a.b.cd.net.", "a.b", "a-b.cd.net", "ab.cd.net", "a.b.cd.nett", "net.cd.b.a", "a.b.c.net", "a.b.cd", "u@" + dom, "u." + dom}
	for _, list := range []string{"f.bl.net", "h.bl.net", "r.bl.net", "a.bl.net", "bl.net", "net"} {
		for _, n := range near {
			for _, use := range []string{"helo", "from", "host", "unverified"} {
				x := newWorld()
				x.A[strings.TrimSuffix(n, ".")+"."+list] = listed
				helo, from := "h.net", "u@x.net"
				switch use {
				case "helo":
					helo = dom
				case "from":
					from = "u@" + dom
				default:
					x.PTR["198.51.100.7"] = []string{dom + "."}
					if use == "host" {
						x.A[dom] = []string{"198.51.100.7"}
					}
				}
				test(fmt.Sprintf("%s is %s, with %s in list %s", use, dom, n, list), "198.51.100.7", helo, from, x)
			}
		}
	}
}

func init() {
	addJob("C05", "near", 8, "; and 'ip' with pairs of addresses that differ in one bit or are alike as texts, with netblocks of every length", "174 pairs of addresses", nearC05)
	addJob("C06", "near", 8, "; and HELO with IP addresses, in 15 forms, that differ in one bit from the client's or the server's", "174 pairs of addresses", nearC06)
	addJob("C19", "near", 8, "; and lists with entries that differ in one bit or label from the client or domain", "174 pairs of addresses, 18 names", nearC19)
	addJob("C02", "null options", 8, "; and every combination of options of the rule that refuses the null sender", "6 actions x 96 combinations of options x 3 earlier rules x 3 sessions", optsC02)
	addJob("C17", "near", 8, "; and pairs of MX hosts with names like the special ones, the domain's own, or each other", "22 names x 4 states, in pairs (thorough: triples)", nearC17)
	addJob("C16", "near", 8, "; and lines for addresses that differ from the local one in one bit or the port, netblocks of every length, and every byte value", "174 pairs of addresses, all prefix lengths", nearC16)
	addJob("C13", "near", 8, "; and every sequence of sessions of pairs of addresses that differ in one bit or are alike as texts, from other ports and to other local addresses", "174 pairs of addresses, 4 sessions (thorough: 5)", nearC13)
	addJob("C13", "windows", 14, "; and histories of sessions with 14 time windows from a second to 300 days and gaps just short of and just beyond the window", "14 windows, 9 gaps, 4 sessions (thorough: 5)", dursC13)
	addJob("C15", "near", 8, "; and every sequence of sessions of pairs of addresses that differ in one bit or are alike as texts, from other ports and to other local addresses", "174 pairs of addresses, 4 sessions (thorough: 5)", nearC15)
	addJob("C24", "bytes", 4, "; and every byte value, and marks that mean something elsewhere, at 15 kinds of places of a pattern file", "", bytesC24)
}
