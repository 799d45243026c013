package checks

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"strings"
	"testing/synctest"
	"time"

	"verif/ref"
	"verif/vrt"
)

// C10: what is saved, and under what name.

const c10Rules = "@from set-with from sd@x.net with savedir save2\n" +
	"@message reject to rej@z.net\n@message reject to rejmsg@z.net with message \"no thanks\\nreally\"\n" +
	"@message stall to stall@z.net\n@message accept to msg@z.net with message \"thanks\"\n@data reject to nodata@z.net\n@to reject to noto@z.net\n"

var c10Bodies = []string{
	"Subject: a\n\nbody\n",
	"Subject: a\n\nother body\n",
	"",
	"\n",
	"no headers at all",
	"X: \x00\xff\x80 caf\xe9\r\n\r\n\x00\r\n.\r\nfrom <x>\nid 1\n",
	"Subject: long\n\n" + strings.Repeat("0123456789abcdef\n", 5000),
	"body\n",
}

func c10TLS() []*vrt.TLSOutcome {
	cn := &x509.Certificate{Subject: pkix.Name{CommonName: "client.x.net"}, DNSNames: []string{"d.x.net"}}
	return []*vrt.TLSOutcome{
		nil,
		{Version: 0x303, Cipher: 0x2f, ServerName: "sni.z.net"},
		{Version: 0x304, Cipher: 0x1301, PeerCert: cn},
		{Version: 0x1234, Cipher: 0xfffe, ServerName: "s", PeerCert: &x509.Certificate{DNSNames: []string{"d.x.net", "e.x.net"}}, ChainVerify: true},
		{Version: 0x301, Cipher: 0x2f, PeerCert: &x509.Certificate{}},
	}
}

func runC10(w *W) {
	makeCerts(1)
	w.Rules(c10Rules)
	rs, v, why, _ := ref.Read(c10Rules, nil)
	if v != ref.Good {
		panic(why)
	}
	dirs := []string{"save", "save2"}
	clearDir("save")
	clearDir("save2")
	conf := ref.Conf{NoStd: true, Dir: "save", Hash: w.Par["hash"], TLS: true, Log: w.Par["hash"] == "msg"}
	w.Start(conf, "-r", "rules")
	worlds := []*ref.World{
		{},
		{PTR: map[string][]string{"198.51.100.7": {"a.x.net.", "b.x.net.", "c.x.net.", "d.x.net."}},
			A: map[string][]string{"a.x.net": {"198.51.100.7"}, "b.x.net": {"198.51.100.8"}, "d.x.net": {"198.51.100.9", "198.51.100.7"}}},
	}
	w.UseWorld(worlds[0])
	var snap map[string]string
	want := map[string]string{}
	sync := func() {
		clear(want)
		for k, s := range w.D.Saved {
			want[k] = s.Content
		}
	}
	fresh := func() {
		clearDir("save")
		clearDir("save2")
		w.D.Saved = map[string]ref.Saved{}
	}
	vrt.OnSend = func(c *vrt.Conn, r vrt.Reply) { snap = dirFiles(dirs...) }
	// deliver does one transaction and checks the directories at the moment of
	// the reply and afterwards. Old says to put a file in the way first.
	deliver := func(t *Trace, d delivery, old bool) {
		if d.TLS != nil && !t.M.TLSOn {
			t.Do("EHLO", "before.tls.net")
			t.DoCmd(vrt.Cmd{Verb: "STARTTLS", TLS: d.TLS})
		}
		t.Do("EHLO", d.Helo)
		t.Do("MAIL", d.From)
		for _, r := range d.Rcpts {
			t.Do("RCPT", r)
		}
		if e, _ := t.Do("DATA", ""); e.Class == 3 && !t.bad {
			f := t.M.File(d.Body)
			if old {
				writeFile(f.Dir+"/"+f.Name, "already here\n")
				f.Content = "already here\n"
				w.D.Saved[f.Dir+"/"+f.Name] = f
				t.Steps = append(t.Steps, "(a file with the message's name exists already)")
			}
			e, _ := t.Do("BODY", d.Body)
			sync()
			if df := diffFiles(want, snap); df != "" {
				t.fail("at the time of the reply: %s", df)
			} else if df := diffFiles(want, dirFiles(dirs...)); df != "" {
				t.fail("%s", df)
			}
			w.Outcome(fmt.Sprintf("message %dxx", e.Class))
			w.State(w.Par["hash"], fmt.Sprint(len(w.D.Saved)), f.Content, fmt.Sprint(e.Class))
		}
		t.Do("RSET", "")
	}
	rcpts := [][]string{{"p@z.net"}, {"q@z.net", "p@z.net"}, {"rej@z.net", "p@z.net"}, {"p@z.net", "noto@z.net", "p@z.net", "rejmsg@z.net"}, {"stall@z.net"}, {"msg@z.net"}}
	switch w.Name {
	case "single":
		for wi, wd := range worlds {
			w.UseWorld(wd)
			for _, h := range []string{"h.net", "h'n \x01 et", ""} {
				for _, f := range []string{"a@x.net", "", "sd@x.net"} {
					for _, rc := range rcpts {
						for _, tl := range c10TLS() {
							for _, b := range c10Bodies {
								if !w.Mine() {
									continue
								}
								w.Res.Evals++
								fresh()
								d := delivery{h, f, rc, b, tl}
								t := w.Session(fmt.Sprintf("-save-hash %s, DNS world %d, %v", w.Par["hash"], wi, d), client, local, ref.SessOpt{Rules: rs})
								deliver(t, d, false)
								t.Close()
							}
						}
					}
				}
			}
		}
	case "pairs":
		alpha := []delivery{}
		for _, h := range []string{"h.net", "i.net"} {
			for _, f := range []string{"a@x.net", "sd@x.net"} {
				for _, rc := range [][]string{rcpts[0], rcpts[2]} {
					for _, b := range []string{c10Bodies[0], c10Bodies[1], c10Bodies[7]} {
						alpha = append(alpha, delivery{h, f, rc, b, nil})
					}
				}
			}
		}
		gaps := []time.Duration{0, time.Second}
		addrs := []string{client, "198.51.100.7:4001", "198.51.100.9:4000"}
		n := 2
		fmt.Sscan(w.Par["n"], &n)
		var rec func(h []delivery)
		rec = func(h []delivery) {
			if len(h) < n {
				for _, d := range alpha {
					rec(append(h[:len(h):len(h)], d))
				}
				return
			}
			for _, gap := range gaps {
				for _, new := range []int{0, 1, 2, 3} { // same session, new session from one of the addresses
					for old := 0; old <= n; old++ {
						if !w.Mine() || w.Over() {
							continue
						}
						w.Res.Evals++
						fresh()
						t := w.Session(fmt.Sprintf("-save-hash %s, gap %v, new session %d, existing file at message %d, messages %v", w.Par["hash"], gap, new, old, h),
							client, local, ref.SessOpt{Rules: rs})
						for i, d := range h {
							if i > 0 {
								time.Sleep(gap)
								synctest.Wait()
								if new > 0 {
									t.Close()
									t = w.Session(t.Pre, addrs[new-1], local, ref.SessOpt{Rules: rs})
								}
							}
							deliver(t, d, old == i+1)
						}
						t.Close()
					}
				}
			}
		}
		rec(nil)
	}
}

func init() {
	register(&Check{ID: "C10", Level: "model_checking", Run: runC10,
		Plan: func(tier string) []Job {
			var l []Job
			for _, h := range []string{"all", "full", "msg"} {
				l = append(l, shards(3, Job{Name: "single", Par: map[string]string{"hash": h}})...)
				l = append(l, shards(5, Job{Name: "pairs", Par: map[string]string{"hash": h, "n": "2"}})...)
				if tier == "thorough" {
					l = append(l, shards(8, Job{Name: "pairs", Par: map[string]string{"hash": h, "n": "3"}, Budget: 1500})...)
				}
			}
			return l
		},
		Rule: "every message of an alphabet (HELO name, sender, recipients, TLS state, reverse DNS, body) for each naming, and every history of messages in one or several sessions, at the same or different times, with or without a file of that name already there; after each message the directories, as they are when the reply is sent, must be exactly those of the model; state = saved file, number of files and outcome",
		Bounds: func(tier string) string {
			return pick(tier, "4320 single messages and 13824 histories of 2 per naming", "also histories of 3 messages")
		},
		Assumptions: []string{"two different messages have different SHA1 hashes", "message bytes arrive unaltered from the smtpd package, which is a stand-in here"},
	})
}
