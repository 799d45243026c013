package checks

import (
	"fmt"
	"path/filepath"
	"strings"
	"time"

	"verif/ref"
	"verif/vrt"
)

// C12: each message has its own transaction's envelope.

const c12Rules = "@helo reject helo bad.net\nreject from bad@x.net\nreject to bad@z.net\n@data reject to nodata@z.net\n@message reject to rej@z.net\n@message stall to later@z.net\n"

type c12 struct {
	w    *W
	log  []string
	file map[string]string
	nmsg int
	// names of the files since the directory was cleared
	names []string
	rs    []ref.Rule
}

// pause lets time pass, so that each event has its own time.
func (x *c12) pause() {
	if x.w.Name == "blocks" {
		time.Sleep(1100 * time.Millisecond)
	}
}

// send is DATA and, if that is accepted, a message that is different each time.
func (x *c12) send(t *Trace) {
	e, _ := t.Do("DATA", "")
	if e.Class != 3 || t.bad {
		return
	}
	x.nmsg++
	x.log = nil
	clear(x.file)
	t.w.D.Logged = nil
	body := fmt.Sprintf("Subject: %d\n\nmessage\n", x.nmsg)
	x.pause()
	f := t.M.File(body)
	e, _ = t.Do("BODY", body)
	if t.bad {
		return
	}
	want := strings.Join(t.w.D.Logged, "\n") + "\n"
	if got := strings.Join(x.log, ""); got != want {
		t.fail("the message log has %q instead of %q", got, want)
	}
	x.names = append(x.names, f.Name)
	if (len(x.file) != 1 || x.file[f.Name] != f.Content) && !x.there(f.Name, f.Content) {
		t.fail("saved %q instead of %s with %q", x.file, f.Name, f.Content)
	}
	t.w.Outcome(fmt.Sprintf("message %dxx with %d recipients", e.Class, len(t.M.Rcpts)))
	if x.nmsg%200 == 0 {
		clearDir("save")
		x.names = nil
	}
}

// there looks at the files themselves, for when they were not written under
// their names.
func (x *c12) there(name, content string) bool {
	fs := dirFiles("save")
	if fs["save/"+name] != content {
		return false
	}
	want := map[string]bool{}
	for _, n := range x.names {
		want[n] = true
	}
	for n := range fs {
		if !want[filepath.Base(n)] {
			return false
		}
	}
	return true
}

func (x *c12) do(t *Trace, c vrt.Cmd) {
	x.pause()
	if c.Verb == "SEND" {
		x.send(t)
	} else {
		e, _ := t.DoCmd(c)
		x.w.State(t.M.Key(), e.String())
	}
}

func runC12(w *W) {
	makeCerts(1)
	clearDir("save")
	w.Rules(c12Rules)
	x := &c12{w: w, file: map[string]string{}}
	x.rs, _, _, _ = ref.Read(c12Rules, nil)
	w.Start(ref.Conf{NoStd: true, Dir: "save", Log: true, TLS: true}, "-r", "rules")
	w.UseWorld(&ref.World{})
	vrt.RecordWrites = func(r vrt.WriteRec) {
		b := filepath.Base(r.Path)
		switch {
		case b == "msg.log":
			x.log = append(x.log, r.Data)
		case filepath.Base(filepath.Dir(r.Path)) == "save":
			x.file[b] += r.Data
		}
	}
	depth := 5
	fmt.Sscan(w.Par["depth"], &depth)
	full := []vrt.Cmd{{Verb: "EHLO", Arg: "h1.net"}, {Verb: "HELO", Arg: "h2.net"}, {Verb: "EHLO", Arg: "bad.net"},
		{Verb: "MAIL", Arg: "a@x.net"}, {Verb: "MAIL", Arg: ""}, {Verb: "MAIL", Arg: "bad@x.net"},
		{Verb: "RCPT", Arg: "p@z.net"}, {Verb: "RCPT", Arg: "rej@z.net"}, {Verb: "RCPT", Arg: "bad@z.net"},
		{Verb: "SEND"}, {Verb: "RSET"}, {Verb: "STARTTLS"}}
	small := []vrt.Cmd{{Verb: "EHLO", Arg: "h2.net"}, {Verb: "MAIL", Arg: "a@x.net"}, {Verb: "MAIL", Arg: "b@x.net"},
		{Verb: "RCPT", Arg: "p@z.net"}, {Verb: "RCPT", Arg: "later@z.net"}, {Verb: "SEND"}, {Verb: "RSET"}}
	switch w.Name {
	case "full", "small":
		cmds := full
		if w.Name == "small" {
			cmds = small
		}
		w.seqs(len(cmds), depth, func(ix []int) {
			w.Res.Evals++
			t := w.Session(w.Name, client, local, ref.SessOpt{Rules: x.rs})
			t.Do("EHLO", "h0.net")
			for _, i := range ix {
				if t.bad || t.S.Closed {
					break
				}
				x.do(t, cmds[i])
			}
			t.Close()
		})
	case "blocks":
		// whole transactions, cut short or not
		helos := [][]vrt.Cmd{nil, {{Verb: "EHLO", Arg: "h1.net"}}, {{Verb: "EHLO", Arg: "bad.net"}}, {{Verb: "STARTTLS"}, {Verb: "EHLO", Arg: "h3.net"}}}
		mails := [][]vrt.Cmd{{{Verb: "MAIL", Arg: "a@x.net"}}, {{Verb: "MAIL", Arg: ""}}, {{Verb: "MAIL", Arg: "bad@x.net"}}}
		rc := func(l ...string) (c []vrt.Cmd) {
			for _, r := range l {
				c = append(c, vrt.Cmd{Verb: "RCPT", Arg: r})
			}
			return
		}
		rcpts := [][]vrt.Cmd{nil, rc("p@z.net"), rc("q@z.net", "bad@z.net", "p@z.net", "q@z.net"), rc("rej@z.net", "p@z.net"), rc("nodata@z.net")}
		ends := [][]vrt.Cmd{{{Verb: "SEND"}, {Verb: "RSET"}}, {{Verb: "SEND"}}, {{Verb: "RSET"}}}
		var blocks [][]vrt.Cmd
		for _, h := range helos {
			for _, m := range mails {
				for _, r := range rcpts {
					for _, e := range ends {
						var b []vrt.Cmd
						b = append(append(append(append(b, h...), m...), r...), e...)
						blocks = append(blocks, b)
					}
				}
			}
		}
		w.seqs(len(blocks), depth, func(ix []int) {
			w.Res.Evals++
			t := w.Session(w.Name, client, local, ref.SessOpt{Rules: x.rs})
			t.Do("EHLO", "h0.net")
			for _, i := range ix {
				for _, c := range blocks[i] {
					if t.bad || t.S.Closed {
						break
					}
					x.do(t, c)
				}
			}
			t.Close()
		})
	}
}

func init() {
	register(&Check{ID: "C12", Level: "model_checking", Run: runC12,
		Plan: func(tier string) []Job {
			p := func(d int) map[string]string { return map[string]string{"depth": fmt.Sprint(d)} }
			if tier == "thorough" {
				var l []Job
				l = append(l, shards(16, Job{Name: "full", Par: p(6), Budget: 1500})...)
				l = append(l, shards(16, Job{Name: "small", Par: p(7), Budget: 1500})...)
				l = append(l, shards(8, Job{Name: "blocks", Par: p(2)})...)
				return append(l, shards(16, Job{Name: "blocks", Par: p(3), Budget: 1500})...)
			}
			var l []Job
			l = append(l, shards(8, Job{Name: "full", Par: p(5)})...)
			l = append(l, shards(8, Job{Name: "small", Par: p(6)})...)
			return append(l, shards(8, Job{Name: "blocks", Par: p(2)})...)
		},
		Rule: "every sequence of commands (accepted and refused HELO, MAIL and RCPT commands, messages that are accepted, refused or deferred, RSET, STARTTLS) of the given depth, and every sequence of whole transactions, with time passing between the commands; each reply, log line and saved file is compared with the model; state = model session state with its expected reply",
		Bounds: func(tier string) string {
			return pick(tier, "12^5 and 7^6 command sequences after EHLO, 180^2 transaction sequences", "12^6 and 7^7 command sequences, 180^3 transaction sequences (within a time budget)")
		},
		Assumptions: []string{"the order of SMTP commands is enforced by the smtpd package, for which a stand-in with the documented behaviour is used"},
	})
}
