package checks

import (
	"fmt"
	"strings"
	"testing/synctest"
	"time"

	"verif/ref"
	"verif/vrt"
)

// C15: when TLS is offered.

const c15Rules = "@helo set-with helo off.net with tls-opt off\n@helo set-with helo nc.net with tls-opt no-client\n" +
	"@from set-with from off@x.net with tls-opt off\n@from set-with from nc@x.net with tls-opt no-client\n" +
	"reject helo rejoff.net with tls-opt off\nset-with helo never.net from x@y.z with tls-opt off\n"

var c15Connect = map[string]string{
	"": "", "coff": "@connect set-with all with tls-opt off\n", "cnc": "@connect set-with all with tls-opt no-client\n",
	"coffother": "@connect set-with ip 203.0.113.9 with tls-opt off\n"}

func runC15(w *W) {
	makeCerts(4)
	rules := map[string][]ref.Rule{}
	for k, t := range c15Connect {
		rs, v, why, _ := ref.Read(t+c15Rules, nil)
		if v != ref.Good {
			panic(why)
		}
		rules[k] = rs
	}
	w.Rules(c15Rules)
	conf := ref.Conf{NoStd: true, TLS: w.Par["certs"] == ""}
	if w.Par["yak"] != "" {
		conf.DN, conf.SMTPLog = 1, true
	}
	args := []string{"-r", "rules"}
	want := "cert0"
	if l := w.Par["list"]; l != "" {
		want = "cert" + strings.ReplaceAll(l, ",", ",cert")
		args = append(args, "-c", strings.ReplaceAll(want, ",", ".pem,")+".pem", "-k", "key"+strings.ReplaceAll(l, ",", ".pem,key")+".pem")
	}
	w.Start(conf, args...)
	w.UseWorld(&ref.World{})
	cur := ""
	nip := 0
	day3 := 72 * time.Hour
	gaps := []time.Duration{0, day3 - 2*time.Second, day3 + 2*time.Second, day3 / 2}
	if w.Par["gaps"] != "" {
		gaps = gaps[:1]
	}
	// A session is: rules effect, then what the client does about TLS.
	effects := []string{"", "coff", "cnc", "coffother", "off", "nc", "foff", "fnc", "rejoff", "never"}
	acts := []string{"none", "ok", "fail", "okagain", "nohelo"}
	if w.Par["effects"] != "" {
		effects = strings.Split(w.Par["effects"], ",")
	}
	if w.Par["acts"] != "" {
		acts = strings.Split(w.Par["acts"], ",")
	}
	depth := 2
	fmt.Sscan(w.Par["depth"], &depth)
	one := func(eff, act, ip string, hist []string) bool {
		conn := ""
		if strings.HasPrefix(eff, "c") {
			conn = eff
		}
		if conn != cur {
			cur = conn
			w.Rules(c15Connect[conn] + c15Rules)
		}
		t := w.Session(strings.Join(hist, ", "), hostport(ip), local, ref.SessOpt{Rules: rules[conn]})
		if act == "nohelo" {
			t.DoCmd(vrt.Cmd{Verb: "STARTTLS"})
			t.Close()
			return !t.bad
		}
		t.Do("EHLO", "h.net")
		switch eff {
		case "off", "nc":
			t.Do("EHLO", eff+".net")
			t.Do("EHLO", "h.net")
		case "foff", "fnc":
			t.Do("MAIL", eff[1:]+"@x.net")
			t.Do("RSET", "")
			t.Do("EHLO", "h.net")
		case "rejoff", "never":
			t.Do("EHLO", eff+".net")
			t.Do("EHLO", "h.net")
		}
		w.State(fmt.Sprint(w.D.NoTLS.Count(t.M.RIP)), eff, act, t.M.Key(), fmt.Sprint(t.M.AskClient))
		if act == "none" {
			t.Do("QUIT", "")
			t.Close()
			return !t.bad
		}
		ask := t.M.AskClient
		out := &vrt.TLSOutcome{Version: 0x303, Cipher: 0x2f, Fail: act == "fail"}
		e, _ := t.DoCmd(vrt.Cmd{Verb: "STARTTLS", TLS: out})
		w.Outcome(fmt.Sprintf("STARTTLS %s %dxx ask=%v", act, e.Class, ask))
		if e.Class == 2 && !t.bad {
			if got := t.S.C.Info["clientauth"] != "0"; got != ask {
				t.fail("expected a client certificate to be asked for=%v, got %v", ask, got)
			}
			if t.S.C.Info["certs"] != want {
				t.fail("TLS is done with certificates %q instead of %q", t.S.C.Info["certs"], want)
			}
		}
		if act != "fail" {
			t.Do("EHLO", "h.net")
			if act == "okagain" {
				t.DoCmd(vrt.Cmd{Verb: "STARTTLS"})
			}
			t.Do("MAIL", "a@x.net")
			t.Do("QUIT", "")
		}
		t.Close()
		synctest.Wait()
		return !t.bad
	}
	n := len(effects) * len(acts)
	w.seqs(n*len(gaps), depth, func(ix []int) {
		w.Res.Evals++
		nip++
		ip := ipAddr(nip)
		var hist []string
		for _, i := range ix {
			g := gaps[i/n]
			eff, act := effects[i%n/len(acts)], acts[i%len(acts)]
			time.Sleep(g)
			hist = append(hist, fmt.Sprintf("%s/%s after %v", eff, act, g))
			a := ip
			if eff == "other" {
				nip++
				a = ipAddr(nip)
			}
			if !one(eff, act, a, hist) {
				return
			}
		}
		if !one("", "ok", ip, append(hist, "probe")) {
			return
		}
		nip++
		one("", "ok", ipAddr(nip), append(hist, "probe from another address"))
		clear(w.D.NoTLS)
		clear(w.D.Yak)
	})
}

func init() {
	register(&Check{ID: "C15", Level: "model_checking", Run: runC15,
		Plan: func(tier string) []Job {
			var l []Job
			p := func(kv ...string) map[string]string {
				m := map[string]string{}
				for i := 0; i < len(kv); i += 2 {
					m[kv[i]] = kv[i+1]
				}
				return m
			}
			l = append(l, shards(8, Job{Name: "two", Par: p("depth", "2")})...)
			l = append(l, shards(pick(tier, 2, 16), Job{Name: "fails", Par: p("depth", pick(tier, "3", "4"), "effects", ",other", "acts", "fail,ok")})...)
			l = append(l, shards(1, Job{Name: "nocerts", Par: p("depth", "2", "certs", "no", "gaps", "0")})...)
			l = append(l, shards(1, Job{Name: "yak", Par: p("depth", "3", "yak", "1", "effects", ",coff", "acts", "fail,ok")})...)
			for _, c := range []string{"0,1", "1,0", "1", "0,1,2", "2,0,1", "1,2,0", "0,0", "2,1,0,3"} {
				l = append(l, Job{Name: "lists", Par: p("depth", "2", "list", c, "gaps", "0", "effects", ",off,nc,coffother", "acts", "none,ok,fail")})
			}
			if tier == "thorough" {
				l = append(l, shards(16, Job{Name: "three", Par: p("depth", "3", "effects", ",coff,nc,other", "acts", "none,ok,fail"), Budget: 1500})...)
			}
			return l
		},
		Rule: "every history of sessions (no TLS, TLS that works or fails, TLS twice, STARTTLS before EHLO; rules that turn TLS or client certificates off at every phase, for this or another client) with all gaps around 72 hours, with several lists of certificates, then probing sessions from the same and from another address; replies, TLS offers and the TLS configuration at STARTTLS are compared with the model",
		Bounds: func(tier string) string {
			return pick(tier, "10 rule effects x 5 TLS actions x 4 gaps, 2 sessions; 2 x 2 x 4, 3 sessions; 8 certificate lists x 4 x 3, 2 sessions", "2 x 2 x 4, 4 sessions and 4 x 3 x 4, 3 sessions")
		},
		Assumptions: []string{"the TLS handshake itself is in the smtpd package, of which a stand-in is used; its outcome is enumerated", "failures exactly 72 hours apart are not looked at; two seconds on either side are"},
	})
}
