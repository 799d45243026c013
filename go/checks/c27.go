package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"testing/synctest"
	"time"

	"verif/ref"
	"verif/vrt"
)

// C27: the program refuses to start in unsafe or contradictory configurations.

// c27Dims are the options and the states of the files they name. The first
// value of each is the default. A value is a list of arguments.
var c27Dims = []struct {
	Name string
	Vals []string
}{
	{"dir", []string{"", "-d save", "-d nosuch", "-d denied", "-d afile"}},
	{"force", []string{"", "-force-receive"}},
	{"M", []string{"", "-M"}},
	{"hash", []string{"", "-save-hash all", "-save-hash full", "-save-hash msg", "-save-hash bogus", "-save-hash="}},
	{"log", []string{"", "-l msg.log", "-l denied.log", "-l -"}},
	{"smtplog", []string{"", "-smtplog smtp.log", "-smtplog denied.log", "-smtplog -"}},
	{"dncount", []string{"", "-dncount 2", "-dncount 0"}},
	{"dndur", []string{"", "-dndur 1s", "-dndur 999ms", "-dndur 0s"}},
	{"dnlog", []string{"", "-dnlog dn.log", "-dnlog denied.log"}},
	{"tls", []string{"", "-c cert0.pem -k key0.pem", "-c cert0.pem", "-k key0.pem", "-c cert0.pem -k key1.pem", "-c nosuch -k key0.pem", "-c cert0.pem -k nosuch", "-c cert0.pem,cert1.pem -k key0.pem,key1.pem",
		"-c cert0.pem,cert1.pem -k key0.pem", "-c cert0.pem -k key0.pem,key1.pem", "-c cert0.pem,cert1.pem -k key1.pem,key0.pem", "-c bad.pem -k key0.pem"}},
	{"conncfg", []string{"", "-conncfg good.conn", "-conncfg nosuch", "-conncfg bad.conn", "-conncfg badcert.conn", "-conncfg readerr.conn", "-conncfg empty"}},
	{"rules", []string{"", "-r good.rules", "-r nosuch", "-r bad.rules", "-r good.rules,bad.rules", "-r nosuch,good.rules", "-r readerr.rules", "-r empty", "-r badinc.rules", "-r good.rules,good.rules"}},
	{"minphase", []string{"", "-minphase accepted", "-minphase ehlo", "-minphase bogus", "-minphase="}},
	{"patterns", []string{"", "-fromreject nosuch -toaccept nosuch -heloreject nosuch", "-fromreject empty -nostdrules"}},
	{"stats", []string{"", "-pprof 127.0.0.1:8099", "-statsperip -helo x.net -S"}},
	{"addr", []string{"192.0.2.1:25", "192.0.2.1:25 192.0.2.2:25", "192.0.2.9:25", "192.0.2.1:25 192.0.2.9:25", "192.0.2.9:25 192.0.2.1:25", "<none>"}},
}

// c27Fine says whether the program must start.
func c27Fine(v []string) (bool, string) {
	g := map[string]string{}
	for i, d := range c27Dims {
		g[d.Name] = v[i]
	}
	if g["addr"] == "<none>" {
		return false, "nothing to listen on"
	}
	if g["dir"] == "" && g["force"] == "" && g["M"] == "" {
		return false, "nowhere to put mail"
	}
	switch g["dir"] {
	case "", "-d save":
	default:
		return false, "unusable save directory"
	}
	switch g["hash"] {
	case "-save-hash msg":
		if g["log"] == "" {
			return false, "-save-hash msg without -l"
		}
	case "-save-hash bogus", "-save-hash=":
		return false, "bad -save-hash"
	}
	for _, l := range []string{"log", "smtplog", "dnlog"} {
		if strings.Contains(g[l], "denied") {
			return false, "unusable log file"
		}
	}
	if g["dncount"] == "-dncount 2" {
		if g["smtplog"] == "" {
			return false, "-dncount without -smtplog"
		}
		if g["dndur"] == "-dndur 999ms" || g["dndur"] == "-dndur 0s" {
			return false, "-dndur too small"
		}
	} else if g["dnlog"] != "" {
		return false, "-dnlog without -dncount"
	}
	switch g["tls"] {
	case "", "-c cert0.pem -k key0.pem", "-c cert0.pem,cert1.pem -k key0.pem,key1.pem":
	default:
		return false, "unusable certificates"
	}
	switch g["conncfg"] {
	case "", "-conncfg good.conn", "-conncfg empty":
	default:
		return false, "unusable connection file"
	}
	for _, f := range strings.Split(strings.TrimPrefix(g["rules"], "-r "), ",") {
		if f != "" && f != "good.rules" && f != "empty" {
			return false, "unusable rules"
		}
	}
	if g["minphase"] == "-minphase bogus" || g["minphase"] == "-minphase=" {
		return false, "bad -minphase"
	}
	if strings.Contains(g["addr"], "192.0.2.9") {
		return false, "cannot listen"
	}
	return true, ""
}

type c27Out struct {
	Exit    int // -1: did not exit
	Ret     bool
	Listen  []string
	AtExit  []string
	Panics  []string
	Err     string
	Greeted int
	Left    []string
}

func runC27(w *W) {
	if w.Name == "one" {
		c27One(w)
		return
	}
	prep := func(dir string) {
		old, _ := os.Getwd()
		os.MkdirAll(dir, 0755)
		os.Chdir(dir)
		defer os.Chdir(old)
		makeCerts(2)
		os.MkdirAll("save", 0755)
		os.MkdirAll("denied", 0755)
		writeFile("afile", "x")
		writeFile("empty", "")
		writeFile("bad.pem", "not a certificate\n")
		writeFile("good.rules", "reject helo a.net\n")
		writeFile("readerr.rules", "reject helo a.net\n")
		writeFile("bad.rules", "reject helo a.net\nbogus\n")
		writeFile("badinc.rules", "reject helo a.net\ninclude nosuch\n")
		writeFile("good.conn", "192.0.2.1 hostname=c.net cert=cert0.pem key=key0.pem\n")
		writeFile("readerr.conn", "192.0.2.1 hostname=c.net\n")
		writeFile("bad.conn", "192.0.2.1 nonsense\n")
		writeFile("badcert.conn", "192.0.2.1 cert=cert0.pem key=key1.pem\n")
	}
	dir := abs("c27")
	prep(dir)
	self, _ := os.Executable()
	n := 0
	one := func(v []string) {
		if !w.Mine() || w.Over() {
			return
		}
		w.Res.Evals++
		w.Res.Traces++
		var args, addrs []string
		for i, d := range c27Dims {
			if d.Name == "addr" {
				continue
			}
			args = append(args, strings.Fields(v[i])...)
		}
		if a := v[len(v)-1]; a != "<none>" {
			addrs = strings.Fields(a)
		}
		args = append(args, addrs...)
		desc := "sinksmtp " + strings.Join(args, " ")
		w.Cur(desc)
		n++
		for _, f := range []string{"msg.log", "smtp.log", "dn.log"} {
			os.Remove(filepath.Join(dir, f))
		}
		ab, _ := json.Marshal(args)
		j := Job{Prop: w.Prop, Tier: w.Tier, Name: "one", Dir: dir, Out: w.Out + ".one", Par: map[string]string{"args": string(ab)}}
		jb, _ := json.Marshal(j)
		jf := w.Out + ".onejob"
		os.Remove(j.Out)
		writeFile(jf, string(jb))
		runtime.LockOSThread()
		cmd := exec.Command(self, "-test.run", "^TestVerifWorker$", "-test.timeout", "0")
		cmd.Env = append(os.Environ(), "VERIF_JOB="+jf)
		cmd.Dir = dir
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		ob, err := cmd.CombinedOutput()
		runtime.UnlockOSThread()
		var r Result
		var o c27Out
		if json.Unmarshal([]byte(readFile(j.Out)), &r) != nil || !r.Done || len(r.Samples) != 1 {
			w.Fail(desc, "the program crashed: %v %.2000s %v\n  in: %s", err, ob, r.Viol, desc)
			return
		}
		json.Unmarshal([]byte(r.Samples[0]), &o)
		fine, why := c27Fine(v)
		w.Outcome(fmt.Sprintf("%v %s", fine, why))
		w.State(desc)
		w.Res.Transitions += int64(1 + len(o.Listen))
		bad := func(f string, a ...any) {
			w.Fail(desc, "%s\n  what it printed: %q\n  in: %s", fmt.Sprintf(f, a...), o.Err, desc)
		}
		switch {
		case len(o.Panics) > 0:
			bad("the program panicked: %s", o.Panics[0])
		case fine && (o.Exit != -1 || o.Ret):
			bad("the program did not start: exit status %d", o.Exit)
		case fine && strings.Join(o.Listen, " ") != strings.Join(addrs, " "):
			bad("the program listens on %q, not %q", o.Listen, addrs)
		case fine && o.Greeted != len(addrs):
			bad("only %d of the %d addresses are served", o.Greeted, len(addrs))
		case !fine && o.Exit == -1 && !o.Ret:
			bad("the program started in spite of this: %s", why)
		case !fine && o.Exit == 0 && why != "nothing to listen on":
			bad("the program exited with status 0 in spite of this: %s", why)
		case !fine && why != "cannot listen" && len(o.Listen) > 0:
			bad("the program listened on %q before it gave up because of this: %s", o.Listen, why)
		case !fine && o.Err == "":
			bad("the program exited without a message because of this: %s", why)
		case len(o.Left) > 0:
			bad("the program left %q in the save directory", o.Left)
		}
	}
	k := 2
	fmt.Sscan(w.Par["k"], &k)
	base := make([]string, len(c27Dims))
	for i, d := range c27Dims {
		base[i] = d.Vals[0]
	}
	if w.Par["base"] == "full" {
		for i, d := range c27Dims {
			switch d.Name {
			case "M", "patterns", "dndur":
			case "hash":
				base[i] = "-save-hash msg"
			case "rules":
				base[i] = "-r good.rules,good.rules"
			default:
				base[i] = d.Vals[1]
			}
		}
	}
	if w.Name == "wide" {
		v := append([]string(nil), base...)
		dim := func(name string) int {
			for i, d := range c27Dims {
				if d.Name == name {
					return i
				}
			}
			panic(name)
		}
		v[dim("dir")] = c27Dims[dim("dir")].Vals[1]
		for _, n := range sizes(20, 130) {
			if n == 0 {
				continue
			}
			for _, k := range append(places(n), -1) {
				var l, r []string
				for i := 0; i < n; i++ {
					a, f := fmt.Sprintf("192.0.2.1:%d", 1000+i), "good.rules"
					if i == k {
						a, f = "192.0.2.9:25", "bad.rules"
					}
					l, r = append(l, a), append(r, f)
				}
				if n > 20 && k > 1 && k < n-2 {
					continue
				}
				u := append([]string(nil), v...)
				u[len(u)-1] = strings.Join(l, " ")
				one(u)
				u = append([]string(nil), v...)
				u[dim("rules")] = "-r " + strings.Join(r, ",")
				one(u)
			}
		}
		return
	}
	// all configurations that differ from the base in up to k options
	var rec func(i, left int, v []string)
	rec = func(i, left int, v []string) {
		if i == len(c27Dims) {
			one(v)
			return
		}
		for _, x := range c27Dims[i].Vals {
			l := left
			if x != base[i] {
				l--
			}
			if l >= 0 {
				rec(i+1, l, append(v[:i:i], x))
			}
		}
	}
	rec(0, k, nil)
}

// c27One starts the program once, in a process of its own.
func c27One(w *W) {
	var args []string
	json.Unmarshal([]byte(w.Par["args"]), &args)
	o := c27Out{Exit: -1}
	w.Keep = true
	done := func() {
		for _, l := range listeners() {
			o.Listen = append(o.Listen, l.Address)
		}
		o.Ret = vrt.MainReturned
		o.Panics = vrt.Panics()
		o.Err = strings.Join(w.Errs, "")
		es, _ := os.ReadDir("save")
		for _, e := range es {
			o.Left = append(o.Left, e.Name())
			os.Remove("save/" + e.Name())
		}
		b, _ := json.Marshal(o)
		w.Res.Samples = []string{string(b)}
		w.finish(true)
		os.Exit(0)
	}
	vrt.OnExit = func(code int) {
		o.Exit = code
		done()
	}
	vrt.FSHook = func(op vrt.Op) vrt.Verdict {
		b := filepath.Base(op.Path)
		switch {
		case b == "denied.log" && (op.Kind == "open" || op.Kind == "create"):
			return vrt.Verdict{Err: &os.PathError{Op: "open", Path: op.Path, Err: syscall.EACCES}}
		case filepath.Base(filepath.Dir(op.Path)) == "denied":
			return vrt.Verdict{Err: &os.PathError{Op: "open", Path: op.Path, Err: syscall.EACCES}}
		case strings.HasPrefix(b, "readerr.") && op.Kind == "read":
			return vrt.Verdict{Err: &os.PathError{Op: "read", Path: op.Path, Err: syscall.EIO}}
		}
		return vrt.Verdict{}
	}
	vrt.ListenErr = func(a string) error {
		if strings.HasPrefix(a, "192.0.2.9") {
			return syscall.EADDRINUSE
		}
		return nil
	}
	w.D = ref.NewDaemon(ref.Conf{}, nil, os.Getpid(), time.Now)
	w.UseWorld(newWorld())
	w.Boot(append([]string{"sinksmtp"}, args...))
	if !vrt.MainReturned {
		w.L = listeners()
		for i, l := range w.L {
			if s, out := w.Open(i, client, l.Address); out.Err == nil && out.Class() == 2 {
				o.Greeted++
				s.End()
			}
		}
		synctest.Wait()
	}
	done()
}

func init() {
	register(&Check{ID: "C27", Level: "model_checking", Run: runC27,
		Plan: func(tier string) []Job {
			var l []Job
			for _, b := range []string{"none", "full"} {
				k := pick(tier, map[string]string{"none": "2", "full": "3"}[b], "4")
				l = append(l, shards(8, Job{Name: "combinations", Par: map[string]string{"base": b, "k": k}, Budget: pick(tier, 0, 3600)})...)
			}
			return l
		},
		Rule: "every configuration that differs in a bounded number of options from one with none, and from one with all of them; each is started in a process of its own and must start, listen and greet on all addresses, or exit with a nonzero status and a message without listening, as documented; state = configuration",
		Bounds: func(tier string) string {
			return fmt.Sprintf("15 options with 2 to 12 values or file states each; %s differences", pick(tier, "up to 2 from the configuration without options, up to 3 from the full one:", "up to 4"))
		},
		Assumptions: []string{"with several addresses, those before one that cannot be listened on may have been opened"},
	})
}
