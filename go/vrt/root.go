package vrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
)

// In the real program a panic in any goroutine ends the daemon. Here the
// goroutines' root functions record it, so that exploration can go on.

var pmu sync.Mutex
var panics []string

// Panics returns and forgets the recorded panics.
func Panics() []string {
	pmu.Lock()
	defer pmu.Unlock()
	p := panics
	panics = nil
	return p
}

// IsRoot says whether its caller is the root function of its goroutine.
func IsRoot() bool {
	var pcs [4]uintptr
	n := runtime.Callers(2, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	fr.Next() // the caller itself
	f, _ := fr.Next()
	return f.Function == "runtime.goexit" || f.Function == ""
}

// Root is deferred by goroutine root functions.
func Root(isroot bool) {
	if !isroot {
		return
	}
	if e := recover(); e != nil {
		st := string(debug.Stack())
		// keep the part after the panic call
		if i := strings.Index(st, "panic("); i >= 0 {
			st = st[i:]
		}
		lines := strings.Split(st, "\n")
		if len(lines) > 16 {
			lines = lines[:16]
		}
		pmu.Lock()
		panics = append(panics, fmt.Sprintf("%v\n%s", e, strings.Join(lines, "\n")))
		pmu.Unlock()
	}
}

var reinits []func()

// Reinit registers an initializer that has to be evaluated again inside the bubble.
func Reinit(f func()) { reinits = append(reinits, f) }

// RunReinits evaluates them.
func RunReinits() {
	for _, f := range reinits {
		f()
	}
}

// MainReturned is set when main returned by itself.
var MainReturned bool
