package checks

import (
	"fmt"
	"strings"
	"testing/synctest"

	"verif/ref"
	"verif/vrt"
)

// Simultaneous sessions. In sched builds every statement of the program is a
// scheduling point; a schedule says how many points each session may pass
// before another one runs.

// script is a client and what it says.
type script struct {
	Raddr, Laddr string
	Cmds         []vrt.Cmd
	L            int // the listener
}

func (s script) String() string {
	var l []string
	for _, c := range s.Cmds {
		t := Step{c.Verb, c.Arg}.String()
		if c.TLS != nil && c.TLS.Fail {
			t += "(fails)"
		}
		l = append(l, t)
	}
	return s.Raddr + ": " + strings.Join(l, ", ")
}

// cl makes commands from "VERB arg" texts.
func cl(l ...string) (r []vrt.Cmd) {
	for _, s := range l {
		v, a, _ := strings.Cut(s, " ")
		c := vrt.Cmd{Verb: v, Arg: a}
		if v == "TLSFAIL" {
			c = vrt.Cmd{Verb: "STARTTLS", TLS: &vrt.TLSOutcome{Fail: true}}
		}
		r = append(r, c)
	}
	return
}

// live is a running scripted session.
type live struct {
	script
	C    *vrt.Conn
	G    *vrt.Group
	Outs []Out // the greeting and one for each command sent
	done chan struct{}
}

// goClient opens the connection and starts the client.
func (w *W) goClient(s script) *live {
	l := &live{script: s, C: vrt.NewConn(s.Raddr, s.Laddr), done: make(chan struct{})}
	w.tick.Add(1)
	if err := w.L[s.L].Put(vrt.Accepted{C: l.C}); err != nil {
		l.Outs = []Out{{Err: err}}
		close(l.done)
		return l
	}
	go func() {
		defer close(l.done)
		n := 0
		get := func(err error) bool {
			o := Out{R: l.C.Replies[n:len(l.C.Replies):len(l.C.Replies)], Closed: l.C.IsClosed(), Err: err}
			n = len(l.C.Replies)
			l.Outs = append(l.Outs, o)
			return err == nil && !o.Closed
		}
		_, err := l.C.WaitIdle()
		if !get(err) {
			return
		}
		for _, c := range l.Cmds {
			if err := l.C.Put(c); err == vrt.ErrHang {
				get(err)
				return
			}
			_, err := l.C.WaitIdle()
			if !get(err) {
				return
			}
		}
		// hang up
		if l.C.Put(vrt.Cmd{Verb: "ABORT"}) == nil {
			if _, err := l.C.WaitIdle(); err != nil {
				l.Outs[len(l.Outs)-1].Err = err
			}
		}
	}()
	return l
}

// seg lets a session pass n points (all, if negative). Before it is done first.
type seg struct {
	G, N   int
	Before func()
}

// schedule runs sessions under a schedule. Sessions are connected when a
// segment first mentions them (in order of their numbers) so that actions
// before a segment come before the connection. It reports, for each segment,
// whether it ended because its points were used up.
func (w *W) schedule(shared bool, reps int, scripts []script, segs []seg) (ls []*live, cut []bool) {
	sc := vrt.NewScheduler(shared, reps)
	connect := func(upto int) {
		for len(ls) <= upto {
			sc.Expect()
			l := w.goClient(scripts[len(ls)])
			synctest.Wait()
			if len(sc.Groups) != len(ls)+1 {
				sc.Release()
				panic(fmt.Sprintf("no scheduling group for connection %d", len(ls)))
			}
			l.G = sc.Groups[len(ls)]
			ls = append(ls, l)
		}
	}
	for _, s := range segs {
		if s.Before != nil {
			s.Before()
		}
		connect(s.G)
		cut = append(cut, sc.Run(ls[s.G].G, int64(s.N)))
		w.tick.Add(1)
	}
	connect(len(scripts) - 1)
	sc.Release()
	w.join(ls)
	return
}

// join waits for all clients.
func (w *W) join(ls []*live) {
	for _, l := range ls {
		<-l.done
		w.Res.Transitions += int64(len(l.Outs))
	}
	synctest.Wait()
	w.tick.Add(1)
}

// replies compares what a session got with the model. It gives "" if they agree.
func (w *W) replies(l *live, m *ref.Sess) string {
	at := "connect"
	for i, o := range l.Outs {
		if o.Err != nil {
			return fmt.Sprintf("%s of %s: %v", at, l.Raddr, o.Err)
		}
		if i == 0 {
			if m.Dropped != o.Closed {
				return fmt.Sprintf("expected dropped=%v on connect, got %v", m.Dropped, o)
			}
			continue
		}
		c := l.Cmds[i-1]
		at = Step{c.Verb, c.Arg}.String()
		e := mdo(m, c)
		if d := Diff(e, o); d != "" {
			return fmt.Sprintf("%s of %s: %s", at, l.Raddr, d)
		}
	}
	if !m.Closed() {
		m.Do("ABORT", "", nil, false, false)
	}
	return ""
}

// mdo makes a step in the model only.
func mdo(m *ref.Sess, c vrt.Cmd) ref.Exp {
	var ti *ref.TLSInfo
	fail := false
	if c.TLS != nil {
		fail = c.TLS.Fail
		ti = &ref.TLSInfo{Version: c.TLS.Version, Cipher: c.TLS.Cipher, SNI: c.TLS.ServerName}
	} else if c.Verb == "STARTTLS" {
		ti = &ref.TLSInfo{Version: 0x303, Cipher: 0x2f}
	}
	return m.Do(c.Verb, c.Arg, ti, fail, false)
}

// merges enumerates all interleavings of lists of the given lengths.
func merges(lens []int, f func(order []int)) {
	left := append([]int(nil), lens...)
	var order []int
	var rec func()
	rec = func() {
		end := true
		for i := range left {
			if left[i] > 0 {
				end = false
				left[i]--
				order = append(order, i)
				rec()
				order = order[:len(order)-1]
				left[i]++
			}
		}
		if end {
			f(order)
		}
	}
	rec()
}

// choices replays a list of choices and extends it; next makes the list that
// comes after it in a depth first search.
type choices struct {
	at    int
	taken []int
	width []int
	odd   int // executions that were not repeatable
}

func (c *choices) choose(n int) int {
	if c.at == len(c.taken) {
		c.taken = append(c.taken, 0)
		c.width = append(c.width, n)
	}
	k := c.taken[c.at]
	if c.width[c.at] != n {
		// not repeatable; go on with what there is, and say so
		c.odd++
		k = min(k, n-1)
		c.taken, c.width = append(c.taken[:c.at], k), append(c.width[:c.at], n)
	}
	c.at++
	return k
}

func (c *choices) next() bool {
	c.at = 0
	for len(c.taken) > 0 {
		i := len(c.taken) - 1
		if c.taken[i]++; c.taken[i] < c.width[i] {
			return true
		}
		c.taken, c.width = c.taken[:i], c.width[:i]
	}
	return false
}

// interleave runs the program under the scheduler, one point at a time, with
// every choice of who runs next that needs at most bound preemptions. Start
// makes things happen; sessions run freely after their first few points.
func (w *W) interleave(c *choices, bound, points, conns int, start func(sc *vrt.Scheduler)) {
	sc := vrt.NewScheduler(false, 255)
	sc.Adopt = true
	for i := 0; i < conns; i++ {
		sc.Expect()
	}
	start(sc)
	synctest.Wait()
	var cur *vrt.Group
	for step := 0; step < 5000; step++ {
		l := sc.Ready()
		if len(l) == 0 {
			break
		}
		// the current one first; it is preempted only within the bound
		var e []*vrt.Group
		for _, g := range l {
			if g == cur {
				e = append([]*vrt.Group{g}, e...)
			} else {
				e = append(e, g)
			}
		}
		k := 0
		if len(e) > 1 && (e[0] != cur || bound > 0) {
			if k = c.choose(len(e)); k > 0 && e[0] == cur {
				bound--
			}
		}
		cur = e[k]
		n := int64(1)
		if cur.Go == 0 && cur.Count >= int64(points) {
			n = -1
		}
		sc.Run(cur, n)
		w.tick.Add(1)
	}
	sc.Release()
}
