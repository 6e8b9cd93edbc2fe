// Package vsched is the seeded scheduler that the instrumented code of /repo
// calls before every statement. It may hold the calling goroutine back (in the
// virtual time of the synctest bubble) until everything else is quiet.
package vsched

import (
	"fmt"
	"math/rand"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
)

// Plan says how goroutines are held back during one scenario.
type Plan struct {
	Mode  string  // "" (never), "uniform", "sites", "delays"
	P     float64 // uniform: probability at each point
	Sites map[int]bool
	At    map[int64]bool // delays: global point numbers
	Max   int64          // longest hold, ns
}

type state struct {
	mu   sync.Mutex
	rng  *rand.Rand
	plan Plan
	n    int64
}

var cur atomic.Pointer[state]
var sleeping atomic.Int64
var onCrash atomic.Pointer[func(string)]
var NSites = 4096

// Start installs a plan; Stop removes it.
func Start(seed int64, p Plan) {
	if p.Max <= 0 {
		p.Max = 100
	}
	cur.Store(&state{rng: rand.New(rand.NewSource(seed)), plan: p})
}
func Stop() int64 {
	s := cur.Swap(nil)
	if s == nil {
		return 0
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.n
}

// Sleeping is the number of goroutines being held back.
func Sleeping() int64 { return sleeping.Load() }

// Point is called by the instrumented code.
func Point(site int) {
	s := cur.Load()
	if s == nil {
		return
	}
	s.mu.Lock()
	s.n++
	hold := int64(0)
	switch s.plan.Mode {
	case "uniform":
		if s.rng.Float64() < s.plan.P {
			hold = 1 + s.rng.Int63n(s.plan.Max)
		}
	case "sites":
		if s.plan.Sites[site] && s.rng.Intn(2) == 0 {
			hold = 1 + s.rng.Int63n(s.plan.Max)
		}
	case "delays":
		if s.plan.At[s.n] {
			hold = s.plan.Max + s.rng.Int63n(s.plan.Max)
		}
	}
	s.mu.Unlock()
	if hold > 0 {
		sleeping.Add(1)
		time.Sleep(time.Duration(hold))
		sleeping.Add(-1)
	}
}

// OnCrash installs the handler for panics in goroutines of the code under test.
func OnCrash(f func(string)) { onCrash.Store(&f) }

// Recover is deferred by the instrumented code in functions started with go.
func Recover() {
	if r := recover(); r != nil {
		Crash(r)
	}
}

func Crash(r any) {
	msg := fmt.Sprintf("%v\n%s", r, debug.Stack())
	if f := onCrash.Load(); f != nil {
		(*f)(msg)
		return
	}
	panic(msg)
}
