package checks

import (
	"fmt"
	"path/filepath"
	"strings"
	"syscall"
	"testing/synctest"

	"verif/ref"
	"verif/vrt"
)

// C08: errors while loading rules.

// c08States are the states a rules file can be in; the first ones are used in
// the quick pairs.
var c08States = []string{"A", "missing", "parselast", "noopen", "readmid", "B", "empty", "readerr", "parsefirst", "dir", "unterminated"}

// c08Text is the text of a file in a state; i is the file, inc what it includes.
func c08Text(st string, i int, inc string) string {
	a := fmt.Sprintf("reject helo a%d.net\n", i)
	switch st {
	case "A", "noopen", "readerr":
		return a + inc + fmt.Sprintf("reject helo b%d.net\n", i)
	case "B":
		return fmt.Sprintf("@from reject helo b%d.net\n", i)
	case "empty":
		return ""
	case "parselast":
		return a + inc + "accept all\nreject helo"
	case "parsefirst":
		return "bogus\n" + inc + "accept all\n"
	case "unterminated":
		return a + "accept all with message \"x\n"
	case "readmid":
		return "accept all\n"
	}
	return ""
}

func runC08(w *W) {
	names := []string{"r1", "r2", "r3"}
	incs := []string{"include r2\n", "", ""}
	cur := []string{"A", "A", "A"}
	set := func(st []string) {
		for i, n := range names {
			cur[i] = st[i]
			writeFile(n, c08Text(st[i], i+1, incs[i]))
		}
	}
	reads := map[string]int{}
	vrt.FSHook = func(op vrt.Op) vrt.Verdict {
		for i, n := range names {
			if filepath.Base(op.Path) != n {
				continue
			}
			switch op.Kind + " " + cur[i] {
			case "open missing":
				return vrt.Verdict{Err: syscall.ENOENT}
			case "open noopen":
				return vrt.Verdict{Err: syscall.EACCES}
			case "open readmid":
				reads[n] = 0
			case "read readerr":
				return vrt.Verdict{Err: syscall.EIO}
			case "read dir":
				return vrt.Verdict{Err: syscall.EISDIR}
			case "read readmid":
				if reads[n]++; reads[n] > 1 {
					return vrt.Verdict{Err: syscall.EIO}
				}
			}
		}
		return vrt.Verdict{}
	}
	set(cur)
	conf := ref.Conf{NoStd: true}
	files := "r1,r3"
	switch w.Par["conf"] {
	case "options":
		conf = ref.Conf{HeloReject: "hr", M: true}
	case "twice":
		files = "r3,r1,r3"
	case "yak":
		conf = ref.Conf{DN: 2, SMTPLog: true, MinPhase: "from"}
	}
	writeFile("hr", "z.net\n")
	w.Start(conf, "-r", files)
	w.UseWorld(&ref.World{Files: map[string][]string{"hr": {"z.net"}}})
	bad := func(s string) bool { return s != "A" && s != "B" && s != "empty" }
	// load gives the rules a connection must have.
	load := func(st []string) (rs []ref.Rule, ok bool) {
		for _, f := range strings.Split(files, ",") {
			i := int(f[1] - '1')
			if bad(st[i]) {
				return nil, false
			}
			t := c08Text(st[i], i+1, incs[i])
			r, v, _, _ := ref.Read(t, func(fn string) (string, bool) {
				j := int(fn[1] - '1')
				return c08Text(st[j], j+1, incs[j]), !bad(st[j])
			})
			if v != ref.Good {
				return nil, false
			}
			rs = append(rs, r...)
		}
		return rs, true
	}
	n := 0
	session := func(hist string, st []string) {
		set(st)
		rs, ok := load(st)
		addr := client
		if conf.DN > 0 {
			n++
			addr = hostport(ipAddr(n / 4))
		}
		t := w.Session(hist, addr, local, ref.SessOpt{Rules: rs, RulesBad: !ok})
		for _, h := range []string{"a1.net", "b2.net", "b3.net", "z.net", "h.net"} {
			if e, o := t.Do("EHLO", h); e.Class == 2 {
				t.Do("MAIL", "s@b.x.net")
				t.Do("RSET", "")
			} else if !ok && o.Class() != 4 {
				t.fail("EHLO answered with %v though the rules did not load", o)
			}
		}
		t.Do("HELO", "h.net")
		t.Do("MAIL", "s@x.net")
		t.Do("RCPT", "r@z.net")
		if !ok && !t.bad {
			for _, r := range t.S.C.Replies[1:] {
				if r.Code/100 < 4 && r.Code != 250 { // 250 is the answer to RSET
					t.fail("a command was accepted with bad rules: %v", r)
				}
			}
		}
		t.Close()
		w.Outcome(fmt.Sprintf("rules good %v", ok))
		w.State(w.Par["conf"], hist)
	}
	var all [][]string
	k := len(c08States)
	if w.Name == "pairs" && w.Tier != "thorough" {
		k = 6
	}
	for _, a := range c08States[:k] {
		for _, b := range c08States[:k] {
			for _, c := range c08States[:min(k, pick(w.Tier, 4, 99))] {
				all = append(all, []string{a, b, c})
			}
		}
	}
	switch w.Name {
	case "pairs":
		for _, a := range all {
			for _, b := range all {
				if !w.Mine() || w.Over() {
					continue
				}
				w.Res.Evals++
				session(fmt.Sprintf("rules files %v", a), a)
				session(fmt.Sprintf("rules files %v then %v", a, b), b)
			}
		}
	case "singles":
		for _, a := range all {
			if w.Mine() {
				w.Res.Evals++
				session(fmt.Sprintf("rules files %v", a), a)
			}
		}
	case "during":
		// The files change while a session is going on.
		for _, a := range all {
			for _, b := range all[:pick(w.Tier, 60, len(all))] {
				if !w.Mine() || w.Over() {
					continue
				}
				w.Res.Evals++
				set(a)
				rs, ok := load(a)
				t := w.Session(fmt.Sprintf("rules files %v when connecting, then %v", a, b), client, local, ref.SessOpt{Rules: rs, RulesBad: !ok})
				t.Do("EHLO", "a1.net")
				set(b)
				for _, h := range []string{"a1.net", "b2.net", "b3.net", "z.net"} {
					t.Do("EHLO", h)
					t.Do("MAIL", "s@x.net")
					t.Do("RSET", "")
				}
				t.Close()
				w.State(t.Pre)
			}
		}
	}
	synctest.Wait()
	vrt.FSHook = nil
}

func init() {
	register(&Check{ID: "C08", Level: "fault_enumeration", Run: runC08,
		Plan: func(tier string) []Job {
			var l []Job
			b := pick(tier, 0, 1500)
			l = append(l, shards(8, Job{Name: "pairs", Par: map[string]string{}, Budget: b})...)
			for _, c := range []string{"options", "twice", "yak"} {
				l = append(l, shards(2, Job{Name: "singles", Par: map[string]string{"conf": c}})...)
			}
			l = append(l, shards(1, Job{Name: "singles", Par: map[string]string{}})...)
			l = append(l, shards(2, Job{Name: "during", Par: map[string]string{}, Budget: b})...)
			return l
		},
		Rule: "every combination of states of three rules files (one of them included), as it is when a connection arrives, and every ordered pair of such combinations as a history; also changes in the middle of a session and with options, do-nothing counting and repeated files; state = history with options",
		Bounds: func(tier string) string {
			return pick(tier, "pairs of 6x6x4 combinations, all 11x11x4 combinations singly", "pairs of all 11^3 combinations (within a time budget)")
		},
		Assumptions: []string{"file errors are injected at open and read by path name"},
	})
}
