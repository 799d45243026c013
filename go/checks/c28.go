package checks

import (
	"fmt"
	"strings"
	"testing/synctest"
	"time"

	"verif/ref"
	"verif/vrt"
)

// C28: how the server names itself, and how fast it talks.

var c28DNS = []struct {
	what string
	ptr  []string
	err  string
}{
	{"no name", nil, ""},
	{"one name", []string{"one.example.net."}, ""},
	{"two names", []string{"zwei.example.net.", "eins.example.net."}, ""},
	{"two names, the other way round", []string{"eins.example.net.", "zwei.example.net."}, ""},
	{"a name without a final dot", []string{"nodot.example.net"}, ""},
	{"a name in upper case", []string{"Upper.Example.NET."}, ""},
	{"a short name", []string{"x."}, ""},
	{"a name with an odd character", []string{"a_b.example.net."}, ""},
	{"a failing lookup", []string{"failed.example.net."}, "servfail"},
	{"a lookup that times out", []string{"failed.example.net."}, "timeout"},
	{"a lookup error of another kind", []string{"failed.example.net."}, "plain"},
}

var c28Addrs = []string{"192.0.2.1:25", "192.0.2.1:2525", "192.0.2.2:25", "[2001:db8::1]:25", "127.0.0.1:25"}

// c28Pace looks at how fast sessions of all kinds are, in all their histories.
func c28Pace(w *W) {
	const text = "set-with helo yak.net with make-yakker\nstall from stall@x.net\nreject from reject@x.net with message \"first line\nsecond line\"\n@message reject to rej@z.net\nset-with to nosave@z.net with savedir nosuch\n"
	makeCerts(1)
	w.Rules(text)
	rs, v, why, _ := ref.Read(text, nil)
	if v != ref.Good {
		panic(why)
	}
	slow := w.Par["slow"] != ""
	args := []string{"-r", "rules"}
	if slow {
		args = append(args, "-S")
	}
	conf := ref.Conf{NoStd: true, TLS: true, SMTPLog: true, DN: 2, DNDur: 3 * time.Hour, MinPhase: "from"}
	w.Start(conf, args...)
	w.UseWorld(newWorld())
	kinds := []string{"quit", "message", "refused", "badrules", "tlsfail", "tlsok", "yak", "savefail", "rset", "later"}
	depth := 3
	fmt.Sscan(w.Par["depth"], &depth)
	nip := 0
	w.seqs(len(kinds), depth, func(ix []int) {
		w.Res.Evals++
		nip++
		ip := ipAddr(nip)
		var hist []string
		for _, i := range append(append([]int{}, ix...), 1) {
			kind := kinds[i]
			hist = append(hist, kind)
			if kind == "badrules" {
				w.Rules("bogus\n")
			}
			if kind == "later" {
				time.Sleep(conf.DNDur + time.Second)
			}
			t0 := time.Now()
			t := w.Session(fmt.Sprintf("-dncount 2, -S=%v, sessions: %s", slow, strings.Join(hist, ", ")), hostport(ip), local, ref.SessOpt{Rules: rs, RulesBad: kind == "badrules"})
			if kind == "badrules" {
				w.Rules(text)
			}
			pace := func(l []vrt.Reply) {
				if t.bad || len(l) == 0 {
					return
				}
				el := time.Since(t0)
				chars := 0
				for _, r := range l {
					for _, l := range r.Lines {
						chars += len(l)
					}
				}
				switch {
				case (slow || t.M.Stalled) && el < time.Duration(chars)*time.Second/10:
					t.fail("a reply of %d characters was sent within %v, with -S=%v, stalled=%v", chars, el, slow, t.M.Stalled)
				case !slow && !t.M.Stalled && el != 0:
					t.fail("a reply took %v, without -S, in a session that is not stalled", el)
				}
				w.Outcome(fmt.Sprintf("%s slow=%v stalled=%v", kind, slow, t.M.Stalled))
				t0 = time.Now()
			}
			pace(t.S.C.Replies)
			do := func(v, a string) {
				if t.bad || t.S.Closed {
					return
				}
				c := vrt.Cmd{Verb: v, Arg: a}
				if v == "TLSFAIL" {
					c = vrt.Cmd{Verb: "STARTTLS", TLS: &vrt.TLSOutcome{Fail: true}}
				}
				if v == "BODY" && !t.M.InData() {
					return
				}
				_, o := t.DoCmd(c)
				pace(o.R)
			}
			steps := map[string][]string{
				"quit":     {"EHLO h.net"},
				"message":  {"EHLO h.net", "MAIL a@x.net", "RCPT p@z.net", "DATA", "BODY x\n", "NOOP"},
				"refused":  {"HELO h.net", "MAIL stall@x.net", "MAIL reject@x.net", "MAIL a@x.net", "RCPT rej@z.net", "DATA", "BODY x\n", "BAD"},
				"badrules": {"EHLO h.net", "MAIL a@x.net"},
				"tlsfail":  {"EHLO h.net", "TLSFAIL"},
				"tlsok":    {"EHLO h.net", "STARTTLS", "EHLO h.net", "MAIL a@x.net"},
				"yak":      {"EHLO yak.net", "MAIL a@x.net"},
				"savefail": {"EHLO h.net", "MAIL a@x.net", "RCPT nosave@z.net", "DATA", "BODY x\n"},
				"rset":     {"EHLO h.net", "RSET", "MAIL stall@x.net", "RSET"},
				"later":    {"EHLO h.net"},
			}[kind]
			for _, st := range append(steps, "QUIT") {
				v, a, _ := strings.Cut(st, " ")
				do(v, a)
			}
			t.Close()
			synctest.Wait()
			w.State("pace", fmt.Sprint(slow), kind, fmt.Sprint(w.D.Yak.Count(ip), w.D.NoTLS.Count(ip)), t.M.Key())
			if t.bad {
				return
			}
		}
	})
}

func runC28(w *W) {
	if w.Name == "pace" {
		c28Pace(w)
		return
	}
	w.Rules("stall from stall@x.net\nreject from reject@x.net\n")
	rs, _, _, _ := ref.Read("stall from stall@x.net\nreject from reject@x.net\n", nil)
	slow := w.Par["slow"] != ""
	args := []string{"-r", "rules"}
	if slow {
		args = append(args, "-S")
	}
	conf := ref.Conf{NoStd: true, Name: w.Par["name"]}
	w.Start(conf, args...)
	depth := 2
	fmt.Sscan(w.Par["depth"], &depth)
	n := len(c28DNS) * len(c28Addrs)
	w.seqs(n, depth, func(ix []int) {
		w.Res.Evals++
		hist := ""
		for _, i := range ix {
			d, laddr := c28DNS[i%len(c28DNS)], c28Addrs[i/len(c28DNS)]
			lip := laddr[:strings.LastIndex(laddr, ":")]
			lip = strings.Trim(lip, "[]")
			x := newWorld()
			x.PTR[lip] = d.ptr
			// the names of other addresses do not matter
			for _, o := range []string{"192.0.2.1", "192.0.2.2", "2001:db8::1", "127.0.0.1"} {
				if o != lip {
					x.PTR[o] = []string{"other.example.net."}
				}
			}
			want := laddr
			if d.err != "" {
				x.Err["PTR "+lip] = d.err
			} else if len(d.ptr) > 0 {
				want = strings.TrimSuffix(d.ptr[0], ".")
			}
			if conf.Name != "" {
				want = conf.Name
			}
			w.UseWorld(x)
			hist += fmt.Sprintf("connection to %s, whose address has %s; ", laddr, d.what)
			t0 := time.Now()
			t := w.Session(fmt.Sprintf("-helo %q, -S=%v: %s", conf.Name, slow, hist), client, laddr, ref.SessOpt{Rules: rs})
			pace := func(o Out) {
				if t.bad || len(o.R) == 0 {
					return
				}
				el := time.Since(t0)
				chars := 0
				for _, r := range o.R {
					for _, l := range r.Lines {
						chars += len(l)
					}
				}
				least := time.Duration(chars) * time.Second / 10
				if slow && el < least {
					t.fail("a reply of %d characters was sent within %v, with -S", chars, el)
				}
				if !slow && el != 0 {
					t.fail("a reply took %v, without -S", el)
				}
				w.Outcome(fmt.Sprintf("slow=%v", slow))
				t0 = time.Now()
			}
			if t.bad {
				return
			}
			g := t.S.C.Replies
			pace(Out{R: g})
			if len(g) != 1 || !strings.HasPrefix(g[0].Lines[0], want+" ") {
				t.fail("the greeting is %v instead of with the name %q", g, want)
			}
			for _, s := range []Step{{"EHLO", "h.net"}, {"HELO", "h.net"}, {"MAIL", "stall@x.net"}, {"MAIL", "reject@x.net"}, {"MAIL", "a@x.net"}, {"RCPT", "b@z.net"}, {"DATA", ""}, {"BODY", "x\n"}, {"QUIT", ""}} {
				_, o := t.Do(s.V, s.A)
				pace(o)
				if strings.HasSuffix(s.V, "LO") && !t.bad && !strings.HasPrefix(o.R[0].Lines[0], want+" ") {
					t.fail("the reply to %s is %v instead of with the name %q", s.V, o, want)
				}
			}
			w.State(conf.Name, fmt.Sprint(slow), laddr, d.what, want)
			t.Close()
			if t.bad {
				return
			}
		}
	})
}

func init() {
	register(&Check{ID: "C28", Level: "model_checking", Run: runC28,
		Plan: func(tier string) []Job {
			var l []Job
			for _, name := range []string{"", "me.example.org", "Me.Example.org."} {
				for _, slow := range []string{"", "1"} {
					p := map[string]string{"name": name, "slow": slow, "depth": "2"}
					n := 2
					if tier == "thorough" && name == "" && slow == "" {
						p["depth"], n = "3", 8
					}
					l = append(l, shards(n, Job{Name: "name", Par: p})...)
				}
			}
			for _, slow := range []string{"", "1"} {
				l = append(l, shards(2, Job{Name: "pace", Par: map[string]string{"slow": slow, "depth": pick(tier, "3", "4")}})...)
			}
			return l
		},
		Rule: "every sequence of connections to 5 local addresses whose reverse DNS has names of 11 kinds or fails in three ways, with and without -helo and -S; the name in the greeting and in HELO and EHLO replies, and the (virtual) time each reply of a whole conversation takes, are compared with the documentation; every history of sessions of 10 kinds (among them stalled do-nothing ones, bad rules, TLS failures), and the time of each reply; state = options, address and DNS situation",
		Bounds: func(tier string) string {
			return pick(tier, "sequences of 2 connections; histories of 3 sessions and one more", "sequences of 3 connections; histories of 4 sessions and one more")
		},
		Assumptions: []string{"the greeting is written by the smtpd package, of which a stand-in is used; it begins with the configured name"},
	})
}
