package vrt

import (
	"bytes"
	"context"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"unsafe"
)

// The scheduler of sched builds. The program has a scheduling point before
// every statement (and inside read-modify-write statements). Each connection's
// goroutine, with all goroutines it starts, is a group. A group only runs when
// the controller lets it, for a given number of points; goroutines of the
// program that belong to no connection (the listeners and so on) run freely.

// SharedPoints says which points are at statements that involve package level
// state; PointNames is where each is.
var (
	SharedPoints []bool
	PointNames   []string
)

// Group is one connection's goroutines.
type Group struct {
	run    bool
	left   int64 // points until it stops; <0: does not stop
	Count  int64 // points passed
	Last   int
	parked []chan struct{}
	label  unsafe.Pointer
	seen   []uint8 // how often each point was passed, up to 255
	Go     int64   // of a goroutine outside the connections: its number
}

// Scheduler is the controlled scheduler of sched builds.
type Scheduler struct {
	mu     sync.Mutex
	Groups []*Group
	expect int
	shared bool
	reps   int

	// Adopt makes groups of the program's other goroutines too, one each.
	Adopt  bool
	others map[int64]*Group
}

var schedOn atomic.Pointer[Scheduler]

// schedBoot makes goroutines that pass a point free for ever.
var schedBoot atomic.Bool
var freeGo sync.Map

// BootMode switches registration of free goroutines on or off.
func BootMode(on bool) { schedBoot.Store(on) }

func goid() int64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	id, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return id
}

// Point is a scheduling point.
func Point(n int) {
	s := schedOn.Load()
	if s == nil {
		if schedBoot.Load() {
			freeGo.Store(goid(), true)
		}
		return
	}
	s.enter(n)
}

//go:linkname profLabel runtime/pprof.runtime_getProfLabel
func profLabel() unsafe.Pointer

// group finds the group of the current goroutine. Profiler labels are what
// goroutines inherit, so they say which group a goroutine is in.
func (s *Scheduler) group() *Group {
	if p := profLabel(); p != nil {
		for _, g := range s.Groups {
			if g.label == p {
				return g
			}
		}
		return nil
	}
	id := goid()
	if _, free := freeGo.Load(id); free {
		if !s.Adopt {
			return nil
		}
		s.mu.Lock()
		defer s.mu.Unlock()
		g := s.others[id]
		if g == nil {
			g = &Group{seen: make([]uint8, len(SharedPoints)), Go: id}
			s.others[id] = g
		}
		return g
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.expect == 0 {
		freeGo.Store(id, true)
		return nil
	}
	s.expect--
	g := &Group{seen: make([]uint8, len(SharedPoints))}
	pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("group", strconv.Itoa(len(s.Groups)))))
	g.label = profLabel()
	s.Groups = append(s.Groups, g)
	return g
}

func (s *Scheduler) enter(n int) {
	g := s.group()
	if g == nil {
		return
	}
	s.mu.Lock()
	count := int(g.seen[n]) < s.reps && (!s.shared || SharedPoints[n])
	if g.seen[n] < 255 {
		g.seen[n]++
	}
	s.mu.Unlock()
	for {
		s.mu.Lock()
		if schedOn.Load() != s {
			s.mu.Unlock()
			return
		}
		if g.run && (g.left != 0 || !count) {
			if count {
				if g.left > 0 {
					g.left--
				}
				g.Count++
				g.Last = n
			}
			s.mu.Unlock()
			return
		}
		ch := make(chan struct{})
		g.parked = append(g.parked, ch)
		s.mu.Unlock()
		<-ch
	}
}

func (s *Scheduler) wake(g *Group) {
	for _, c := range g.parked {
		close(c)
	}
	g.parked = nil
}

// NewScheduler takes control. Shared restricts it to the shared points, and
// only the first reps times that a session passes a point count.
func NewScheduler(shared bool, reps int) *Scheduler {
	s := &Scheduler{shared: shared, reps: min(reps, 255), others: map[int64]*Group{}}
	schedOn.Store(s)
	return s
}

// Expect says that the next new connection goroutine is a group of its own;
// the caller then makes the connection and calls Wait.
func (s *Scheduler) Expect() { s.mu.Lock(); s.expect++; s.mu.Unlock() }

// Run lets a group pass n points (n<0: any number) and waits until it has, or
// until it is blocked or done. It says whether it stopped because of n.
func (s *Scheduler) Run(g *Group, n int64) bool {
	s.mu.Lock()
	g.run, g.left = true, n
	s.wake(g)
	s.mu.Unlock()
	synctest.Wait()
	s.mu.Lock()
	g.run = false
	stopped := n >= 0 && g.left == 0 && len(g.parked) > 0
	s.mu.Unlock()
	return stopped
}

// Release lets everything run freely again.
func (s *Scheduler) Release() {
	s.mu.Lock()
	schedOn.Store(nil)
	for _, g := range s.Groups {
		s.wake(g)
	}
	for _, g := range s.others {
		s.wake(g)
	}
	s.mu.Unlock()
}

// Ready gives the groups that could run: the other goroutines by number, then
// the connections.
func (s *Scheduler) Ready() (l []*Group) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, g := range s.others {
		if len(g.parked) > 0 {
			l = append(l, g)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Go < l[j].Go })
	for _, g := range s.Groups {
		if len(g.parked) > 0 {
			l = append(l, g)
		}
	}
	return
}
