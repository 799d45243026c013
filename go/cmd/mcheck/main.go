// Mcheck runs the check of one property: it builds sinksmtp's working tree with
// the instrumentation, spreads the check's jobs over worker processes, gathers
// what they covered, and gives the verdict.
//
//	mcheck -prop C01 -tier quick
//	mcheck -replay FILE
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/checks"
)

var (
	verif = flag.String("verif", "/verif", "")
	repo  = flag.String("repo", "/repo", "")
	prop  = flag.String("prop", "", "")
	tier  = flag.String("tier", "quick", "")
	rep   = flag.String("replay", "", "")
	only  = flag.String("only", "", "run only jobs with this name")
	keep  = flag.Bool("keep", false, "keep the scratch directory")
	par   = flag.Int("j", runtime.NumCPU(), "")
	verb  = flag.Bool("v", false, "")
	races = flag.Bool("race", false, "look for data races in all jobs but those under the scheduler")
	desc  = flag.Bool("describe", false, "print what each check does as JSON and exit")
)

var scratch string
var deadline time.Time

func die(code int, format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	cleanup()
	os.Exit(code)
}

func cleanup() {
	if scratch != "" && !*keep {
		os.RemoveAll(scratch)
	}
}

var bmu sync.Mutex
var built = map[string]string{}

// build makes the worker binary of a kind.
func build(kind string) (string, error) {
	bmu.Lock()
	defer bmu.Unlock()
	if b := built[kind]; b != "" {
		return b, nil
	}
	out := filepath.Join(scratch, "build"+kind)
	if err := os.MkdirAll(out, 0755); err != nil {
		return "", err
	}
	args := []string{"-repo", *repo, "-out", out, "-verif", *verif}
	if kind == "sched" {
		args = append(args, "-sched")
	}
	self, _ := os.Executable()
	if o, err := exec.Command(filepath.Join(filepath.Dir(self), "instr"), args...).CombinedOutput(); err != nil {
		return "", fmt.Errorf("instr: %v\n%s", err, o)
	}
	a := []string{"test", "-vet=off", "-c", "-ldflags=-checklinkname=0", "-overlay", out + "/overlay.json", "-modfile", out + "/go.mod", "-o", out + "/worker"}
	if kind == "race" {
		a = append(a, "-race")
	}
	cmd := exec.Command("go", append(a, ".")...)
	cmd.Dir = *repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	if o, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("go test -c: %v\n%s", err, o)
	}
	built[kind] = out + "/worker"
	return built[kind], nil
}

var nrun int
var nmu sync.Mutex

type outcome struct {
	checks.Result
	crash string
	cur   string
}

// run executes one job.
func run(j checks.Job) (o outcome) {
	bin, err := build(j.Build)
	if err != nil {
		die(2, "build failed: %v", err)
	}
	nmu.Lock()
	nrun++
	id := nrun
	nmu.Unlock()
	base := filepath.Join(scratch, fmt.Sprintf("j%d", id))
	j.Dir = base + ".d"
	j.Out = base + ".out"
	os.MkdirAll(j.Dir, 0755)
	b, _ := json.Marshal(j)
	os.WriteFile(base+".job", b, 0644)
	ef, _ := os.Create(base + ".err")
	to := time.Until(deadline)
	if to < 60*time.Second {
		to = 60 * time.Second
	}
	cmd := exec.Command(bin, "-test.run", "^TestVerifWorker$", "-test.timeout", "0")
	cmd.Env = append(os.Environ(), "VERIF_JOB="+base+".job", "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=0 log_path="+base+".race")
	cmd.Stdout, cmd.Stderr = ef, ef
	cmd.Dir = j.Dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	if err := cmd.Start(); err != nil {
		die(2, "cannot start worker: %v", err)
	}
	tm := time.AfterFunc(to, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	werr := cmd.Wait()
	timedout := !tm.Stop()
	runtime.UnlockOSThread()
	ef.Close()
	rb, rerr := os.ReadFile(j.Out)
	if rerr == nil {
		rerr = json.Unmarshal(rb, &o.Result)
	}
	cb, _ := os.ReadFile(j.Out + ".cur")
	if i := strings.IndexByte(string(cb), 0); i >= 0 {
		cb = cb[:i]
	}
	o.cur = string(cb)
	if rerr != nil || !o.Done {
		e, _ := os.ReadFile(base + ".err")
		o.crash = tail(string(e))
		if timedout {
			// Too slow, not stuck: the worker itself reports a standstill.
			o.Result = checks.Result{Done: true, Notes: []string{fmt.Sprintf("job %s/%d stopped after %v", j.Name, j.Shard, to)}}
			o.crash = ""
		} else if o.crash == "" {
			o.crash = fmt.Sprint(werr)
		}
	}
	if l, _ := filepath.Glob(base + ".race*"); len(l) > 0 {
		t, _ := os.ReadFile(l[0])
		if len(t) > 4000 {
			t = t[:4000]
		}
		o.Viol = append(o.Viol, checks.Violation{Msg: "data race between sessions:\n" + string(t), Trace: o.cur})
	}
	if *verb {
		fmt.Fprintf(os.Stderr, "job %d %s/%d %v: evals=%d trans=%d traces=%d states=%d viol=%d notes=%v crash=%.200q\n", id, j.Name, j.Shard, j.Par,
			o.Evals, o.Transitions, o.Traces, len(o.Distinct), len(o.Viol), o.Notes, o.crash)
	}
	if !*keep {
		os.RemoveAll(j.Dir)
	}
	return
}

func tail(s string) string {
	// the first panic or fatal error and what follows
	for _, k := range []string{"panic:", "fatal error:", "runtime:"} {
		if i := strings.Index(s, k); i >= 0 {
			s = s[i:]
			break
		}
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func isGoCrash(s string) bool {
	return strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") || strings.Contains(s, "goroutine stack exceeds")
}

type replayFile struct {
	Property string
	Message  string
	Trace    any
	Job      checks.Job
	How      string
}

func main() {
	flag.Parse()
	if v := os.Getenv("VERIF_TIER"); v != "" && !isSet("tier") {
		*tier = v
	}
	if *desc {
		describe()
		return
	}
	t0 := time.Now()
	deadline = t0.Add(600 * time.Second)
	if *tier == "thorough" {
		deadline = t0.Add(6 * time.Hour)
	}
	var err error
	scratch, err = os.MkdirTemp("", "verif-mc-")
	if err != nil {
		die(2, "%v", err)
	}
	if *rep != "" {
		replay()
	}
	c := checks.All[*prop]
	if c == nil {
		die(2, "unknown property %q", *prop)
	}
	jobs := c.Plan(*tier)
	type rj struct {
		j checks.Job
		o outcome
	}
	var kinds = map[string]bool{}
	for i := range jobs {
		jobs[i].Prop, jobs[i].Tier = *prop, *tier
		if *races && jobs[i].Build == "" {
			jobs[i].Build = "race"
		}
		kinds[jobs[i].Build] = true
	}
	for k := range kinds {
		if _, err := build(k); err != nil {
			die(2, "build failed: %v", err)
		}
	}
	tb := time.Since(t0)
	res := make([]rj, len(jobs))
	ch := make(chan int)
	var wg sync.WaitGroup
	var stop sync.Once
	stopped := make(chan struct{})
	for i := 0; i < *par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range ch {
				res[k] = rj{jobs[k], run(jobs[k])}
				if len(res[k].o.Viol) > 0 || res[k].o.crash != "" {
					stop.Do(func() { close(stopped) })
				}
			}
		}()
	}
feed:
	for k := range jobs {
		if *only != "" && jobs[k].Name != *only {
			continue
		}
		select {
		case <-stopped:
			break feed
		case ch <- k:
		}
	}
	close(ch)
	wg.Wait()

	// Merge.
	var tot checks.Result
	tot.Outcomes = map[string]int64{}
	states := map[uint64]struct{}{}
	complete := true
	var viol []replayFile
	var samples []string
	known := map[string]bool{}
	max := map[string]int64{}
	ran := 0
	for _, r := range res {
		if r.j.Prop == "" {
			complete = false
			continue
		}
		ran++
		tot.Evals += r.o.Evals
		tot.Transitions += r.o.Transitions
		tot.Traces += r.o.Traces
		for _, h := range r.o.Distinct {
			states[h] = struct{}{}
		}
		for k, v := range r.o.Outcomes {
			tot.Outcomes[k] += v
		}
		for k, v := range r.o.Max {
			if v > max[k] {
				max[k] = v
			}
		}
		if r.j.Shard == 0 || len(samples) < 3 {
			samples = append(samples, r.o.Samples...)
		}
		tot.Notes = append(tot.Notes, r.o.Notes...)
		complete = complete && r.o.Complete
		for _, k := range r.o.Known {
			known[k] = true
		}
		if r.o.crash != "" {
			if isGoCrash(r.o.crash) {
				viol = append(viol, replayFile{*prop, "the program crashed: " + r.o.crash, r.o.cur, r.j, ""})
			} else {
				die(2, "worker failed: %s", r.o.crash)
			}
		}
		for _, v := range r.o.Viol {
			viol = append(viol, replayFile{*prop, v.Msg, v.Trace, r.j, ""})
		}
	}
	// A violation must come again when the same job runs again.
	confirmed := []replayFile{}
	unconfirmed := 0
	tried := map[string]bool{}
	for _, v := range viol {
		key := fmt.Sprint(v.Job.Name, v.Job.Shard, v.Job.Par)
		if tried[key] || len(confirmed) > 0 {
			continue
		}
		tried[key] = true
		n := 5
		for i := 0; i < n && (i == 0 || time.Now().Before(deadline)); i++ {
			o := run(v.Job)
			if len(o.Viol) > 0 || isGoCrash(o.crash) {
				confirmed = append(confirmed, v)
				break
			}
		}
		if len(confirmed) == 0 {
			unconfirmed++
			fmt.Fprintf(os.Stderr, "not reproducible, not reported: %s\n", v.Message)
		}
	}
	var kl []string
	for k := range known {
		kl = append(kl, k)
	}
	sort.Strings(kl)
	kf := checks.LoadKnown(filepath.Join(*verif, "known_findings.txt"))
	for _, k := range kl {
		if kf[*prop+" "+k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
		} else {
			confirmed = append(confirmed, replayFile{*prop, "finding that is not listed: " + k, k, checks.Job{}, ""})
		}
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	cov := map[string]any{
		"states":                        len(states),
		"transitions":                   tot.Transitions,
		"traces_validated_against_impl": tot.Traces,
		"evaluations":                   tot.Evals,
		"distinct_nontrivial":           len(states),
		"rule":                          c.Rule,
		"samples":                       samples,
		"exhaustive":                    complete && unconfirmed == 0,
		"outcomes":                      tot.Outcomes,
		"jobs":                          ran,
	}
	if c.Bounds != nil {
		cov["bounds"] = c.Bounds(*tier)
	}
	if len(tot.Notes) > 0 {
		cov["incomplete"] = tot.Notes
	}
	if len(max) > 0 {
		cov["max"] = max
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": seed, "level": c.Level, "coverage": cov,
		"assumptions": c.Assumptions, "wall_s": time.Since(t0).Seconds(), "violations": len(confirmed),
	}
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), b, 0644); err != nil {
		die(2, "%v", err)
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d evaluations=%d complete=%v build=%.1fs total=%.1fs\n", *prop, *tier,
		len(states), tot.Transitions, tot.Traces, tot.Evals, complete, tb.Seconds(), time.Since(t0).Seconds())
	for _, n := range tot.Notes {
		fmt.Println("incomplete:", n)
	}
	if len(confirmed) > 0 {
		v := confirmed[0]
		dir := filepath.Join(*verif, "replays")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, *prop+".json")
		v.How = "run.sh -replay " + path + " (re-executes the job that found it)"
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, b, 0644)
		fmt.Println(v.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		cleanup()
		os.Exit(1)
	}
	cleanup()
}

func isSet(n string) (r bool) {
	flag.Visit(func(f *flag.Flag) { r = r || f.Name == n })
	return
}

func replay() {
	b, err := os.ReadFile(*rep)
	if err != nil {
		die(2, "%v", err)
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		die(2, "%v", err)
	}
	*tier = r.Job.Tier
	o := run(r.Job)
	for _, v := range o.Viol {
		fmt.Println(v.Msg)
	}
	if o.crash != "" {
		fmt.Println(o.crash)
	}
	if len(o.Viol) > 0 || o.crash != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, *rep)
		cleanup()
		os.Exit(1)
	}
	cleanup()
	os.Exit(0)
}

func describe() {
	m := map[string]any{}
	for id, c := range checks.All {
		m[id] = map[string]any{"level": c.Level, "rule": c.Rule, "quick": c.Bounds("quick"),
			"thorough": c.Bounds("thorough"), "assumptions": c.Assumptions,
			"jobs": len(c.Plan("quick"))}
	}
	b, _ := json.MarshalIndent(m, "", " ")
	fmt.Println(string(b))
}
