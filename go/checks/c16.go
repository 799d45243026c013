package checks

import (
	"fmt"
	"net/netip"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing/synctest"

	"verif/ref"
	"verif/vrt"
)

// C16: the -conncfg file.

type c16Line struct {
	Local, Host string
	Certs       string // names, comma separated
	Text        string
	Bad         bool
}

var c16Locals = []string{"192.0.2.1", "192.0.2.1:25", "192.0.2.0/24", "*", "192.0.2.2", "192.0.2.1:26", "10.0.0.0/8", "2001:DB8:0::1",
	"[2001:db8::1]:25", "2001:db8::/32", "bogus", "192.0.2.1/32", "192.0.2.10", "192.0.2.0/31"}

var c16Addrs = []string{"192.0.2.1:25", "192.0.2.1:26", "192.0.2.2:25", "10.1.2.3:25", "[2001:db8::1]:25", "[2001:db8::2]:26", "[2001:db9::1]:25", "198.51.100.1:2525"}

// match says whether a line applies to a local address.
func (l c16Line) match(laddr string) bool {
	if l.Local == "*" || l.Local == laddr {
		return true
	}
	ap, err := netip.ParseAddrPort(laddr)
	if err != nil {
		return false
	}
	ip := ap.Addr().Unmap()
	if a, err := netip.ParseAddr(l.Local); err == nil {
		return a.Unmap() == ip
	}
	if p, err := netip.ParsePrefix(l.Local); err == nil {
		return p.Contains(ip)
	}
	return false
}

func c16Good(locals []string, i int) []c16Line {
	var l []c16Line
	for j, lo := range locals {
		// Hosts differ from line to line, so that the line can be told.
		h := fmt.Sprintf("h%d-%d.net", i, j)
		c := fmt.Sprintf("cert%d", i)
		k := fmt.Sprintf("cert=cert%d.pem key=key%d.pem", i, i)
		l = append(l, c16Line{Local: lo, Text: lo},
			c16Line{Local: lo, Host: h, Text: lo + "\thostname=" + h},
			c16Line{Local: lo, Host: h, Certs: c, Text: lo + " hostname=" + h + " " + k},
			c16Line{Local: lo, Certs: c, Text: " " + lo + "  " + k + " "})
	}
	return l
}

type c16 struct {
	w     *W
	conf  ref.Conf
	ptr   bool
	state string // of the file
	reads int
}

func (x *c16) hook(op vrt.Op) vrt.Verdict {
	if filepath.Base(op.Path) != "conncfg" {
		return vrt.Verdict{}
	}
	switch op.Kind + " " + x.state {
	case "open missing":
		return vrt.Verdict{Err: syscall.ENOENT}
	case "open noopen":
		return vrt.Verdict{Err: syscall.EACCES}
	case "open readmid", "open readerr":
		x.reads = 0
	case "read readerr":
		return vrt.Verdict{Err: syscall.EIO}
	case "read readmid":
		if x.reads++; x.reads > 1 {
			return vrt.Verdict{Err: syscall.EIO}
		}
	}
	return vrt.Verdict{}
}

// check makes a connection and compares with what the lines say; applies is
// false if the file as a whole does not apply.
func (x *c16) check(pre, laddr string, lines []c16Line, applies bool) {
	w := x.w
	host, certs := "", ""
	name := x.conf.Name
	if name == "" {
		name = laddr
		if x.ptr {
			name = "ptr.local.net"
		}
	}
	if x.conf.TLS {
		certs = "cert0"
	}
	hit := -1
	if applies {
		for i, l := range lines {
			if l.match(laddr) {
				host, certs = l.Host, l.Certs
				hit = i
				break
			}
		}
	}
	if host != "" {
		name = host
	}
	w.Res.Evals++
	pre = fmt.Sprintf("-conncfg file %s, connection to %s", pre, laddr)
	t := w.Session(pre, client, laddr, ref.SessOpt{NoCerts: certs == "", Certs: certs != ""})
	if t.bad {
		return
	}
	w.Outcome(fmt.Sprintf("line %d applies", hit))
	w.State(x.conf.Name, fmt.Sprint(x.conf.TLS, x.ptr), pre)
	if g := t.S.C.Replies[0].Lines[0]; !strings.HasPrefix(g, name+" ") {
		t.fail("the greeting is %q instead of with the name %q", g, name)
	}
	if _, o := t.Do("EHLO", "h.net"); !t.bad && !strings.HasPrefix(o.R[0].Lines[0], name+" ") {
		t.fail("the EHLO reply is %v instead of with the name %q", o, name)
	}
	t.Do("STARTTLS", "")
	if certs != "" && !t.bad && t.S.C.Info["certs"] != certs {
		t.fail("TLS has certificates %q instead of %q", t.S.C.Info["certs"], certs)
	}
	t.Close()
}

func runC16(w *W) {
	makeCerts(4)
	writeFile("junk.pem", "junk\n")
	x := &c16{w: w, conf: ref.Conf{NoStd: true, TLS: true, Name: "main.net"}}
	switch w.Par["conf"] {
	case "plain":
		x.conf = ref.Conf{NoStd: true}
	case "ptr":
		x.conf = ref.Conf{NoStd: true, TLS: true}
		x.ptr = true
	}
	writeFile("conncfg", "")
	w.Start(x.conf, "-conncfg", "conncfg")
	world := &ref.World{PTR: map[string][]string{}}
	if x.ptr {
		for _, a := range c16Addrs {
			ap, _ := netip.ParseAddrPort(a)
			world.PTR[ap.Addr().String()] = []string{"ptr.local.net.", "second.net."}
		}
	}
	w.UseWorld(world)
	vrt.FSHook = x.hook
	file := func(l []c16Line, style int) string {
		var b strings.Builder
		if style == 1 {
			b.WriteString("# comment\n\n \t\n")
		}
		for i, x := range l {
			b.WriteString(x.Text)
			if i == len(l)-1 && style == 2 {
				break
			}
			if style == 3 {
				b.WriteString("\r")
			}
			b.WriteString("\n")
			if style == 1 {
				b.WriteString("  # * hostname=comment.net\n")
			}
		}
		return b.String()
	}
	files := func(alpha [][]c16Line, styles []int) {
		var rec func(l []c16Line)
		rec = func(l []c16Line) {
			if len(l) == len(alpha) || len(l) == 0 || w.Tier == "thorough" {
				for _, st := range styles {
					if !w.Mine() || w.Over() {
						continue
					}
					txt := file(l, st)
					writeFile("conncfg", txt)
					for _, a := range c16Addrs {
						x.check(fmt.Sprintf("%q", txt), a, l, true)
					}
				}
			}
			if len(l) < len(alpha) {
				for _, y := range alpha[len(l)] {
					rec(append(l[:len(l):len(l)], y))
				}
			}
		}
		rec(nil)
	}
	faults := []string{"192.0.2.1 hostname=a cert=cert1.pem", "* key=key1.pem", "* nokey", "* host=x", "* hostname=a cert=cert1.pem key=key1.pem extra=1",
		"192.0.2.9 cert=nosuch.pem key=key1.pem", "* cert=cert1.pem key=nosuch.pem", "* cert=cert1.pem key=key2.pem", "* cert=cert1.pem,cert2.pem key=key1.pem",
		"* cert=junk.pem key=key1.pem", "* a b c d", "* hostname", "bogus cert= key=key1.pem", "* Hostname=x", "* cert=cert1.pem,junk.pem key=key1.pem,key2.pem"}
	switch w.Name {
	case "one":
		files([][]c16Line{c16Good(c16Locals, 1)}, []int{0, 1, 2, 3})
	case "two":
		files([][]c16Line{c16Good(c16Locals, 1), c16Good(c16Locals, 2)}, []int{0, 2})
	case "three":
		lo := []string{"192.0.2.1", "192.0.2.1:25", "192.0.2.0/24", "*", "2001:db8::/32", "192.0.2.2"}
		pickc := func(i int) []c16Line {
			var l []c16Line
			for j, y := range c16Good(lo, i) {
				if w.Tier == "thorough" || j%4 == i {
					l = append(l, y)
				}
			}
			return l
		}
		files([][]c16Line{pickc(1), pickc(2), pickc(3)}, []int{2})
	case "lists":
		// certificate lists, in any order of settings
		k := []string{"hostname=x.net", "cert=cert1.pem,cert2.pem,cert3.pem", "key=key1.pem,key2.pem,key3.pem"}
		for _, p := range [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
			for _, sep := range []string{" ", "\t", "   "} {
				txt := "*" + sep + k[p[0]] + sep + k[p[1]] + sep + k[p[2]]
				writeFile("conncfg", txt)
				for _, a := range c16Addrs {
					x.check(fmt.Sprintf("%q", txt), a, []c16Line{{Local: "*", Host: "x.net", Certs: "cert1,cert2,cert3"}}, true)
				}
			}
		}
	case "faulty":
		g1 := c16Good([]string{"192.0.2.1", "*"}, 1)
		g2 := c16Good([]string{"192.0.2.0/24"}, 2)
		for _, f := range faults {
			for _, a := range g1 {
				for _, b := range g2 {
					for pos := 0; pos < 3; pos++ {
						for _, st := range []int{0, 1, 2} {
							if !w.Mine() {
								continue
							}
							l := []c16Line{a, b}
							l = append(l[:pos:pos], append([]c16Line{{Text: f}}, l[pos:]...)...)
							txt := file(l, st)
							writeFile("conncfg", txt)
							for _, ad := range c16Addrs[:3] {
								x.check(fmt.Sprintf("%q", txt), ad, l, false)
							}
						}
					}
				}
			}
		}
	case "history":
		// The state of the file changes from connection to connection.
		A := []c16Line{{Local: "192.0.2.1", Host: "a.net", Certs: "cert1", Text: "192.0.2.1 hostname=a.net cert=cert1.pem key=key1.pem"}, {Local: "*", Text: "*"}}
		B := []c16Line{{Local: "192.0.2.1:25", Host: "b.net", Text: "192.0.2.1:25 hostname=b.net"}, {Local: "192.0.2.2", Certs: "cert2", Text: "192.0.2.2 cert=cert2.pem key=key2.pem"}}
		states := []string{"A", "B", "empty", "missing", "noopen", "readerr", "readmid", "faulty", "certgone", "dir"}
		n := pick(w.Tier, 3, 4)
		set := func(st string) (l []c16Line, ok bool) {
			x.state = ""
			switch st {
			case "A", "B", "certgone":
				l = map[string][]c16Line{"A": A, "B": B, "certgone": A}[st]
				ok = st != "certgone"
			case "faulty":
				l = append(append(l, A...), c16Line{Text: "x y z"})
			case "empty":
				ok = true
			default:
				x.state = st
				if st == "dir" {
					x.state = "readerr"
				}
				l = A
			}
			writeFile("conncfg", file(l, 0))
			if st == "certgone" {
				os.Rename("cert1.pem", "gone.pem")
			} else {
				os.Rename("gone.pem", "cert1.pem")
			}
			return
		}
		w.seqs(len(states), n, func(ix []int) {
			var h []string
			for _, i := range ix {
				h = append(h, states[i])
				l, ok := set(states[i])
				for _, a := range c16Addrs[:3] {
					x.check(fmt.Sprintf("states %v", h), a, l, ok)
				}
			}
		})
		set("A")
	}
	synctest.Wait()
	vrt.FSHook = nil
}

func init() {
	register(&Check{ID: "C16", Level: "model_checking", Run: runC16,
		Plan: func(tier string) []Job {
			var l []Job
			for _, c := range []string{"", "plain", "ptr"} {
				p := map[string]string{"conf": c}
				l = append(l, Job{Name: "one", Par: p}, Job{Name: "faulty", Par: p}, Job{Name: "lists", Par: p})
				l = append(l, shards(2, Job{Name: "history", Par: p})...)
				if c == "" || tier == "thorough" {
					l = append(l, shards(6, Job{Name: "two", Par: p})...)
					l = append(l, shards(pick(tier, 2, 16), Job{Name: "three", Par: p, Budget: 1500})...)
				}
			}
			return l
		},
		Rule: "every -conncfg file of up to three lines over an alphabet of local addresses and settings x local addresses of connections x line styles (comments, no final newline); every faulty line at every place; every history of file states (good, missing, unreadable, failing while read, faulty, certificate gone); greeting name, TLS offer and certificates are compared with the first matching line",
		Bounds: func(tier string) string {
			return pick(tier, "56 lines: files of 1 and 2; 6 lines per place: files of 3; 15 faults; histories of 3", "files of 3 over 24 lines per place, histories of 4")
		},
	})
}
