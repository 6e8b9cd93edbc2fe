package wire

import (
	"encoding/json"
	"sync"
	"time"
)

// Ev is one event of a trace.
type Ev map[string]any

// Log collects the events of one scenario in the order they happened.
type Log struct {
	mu  sync.Mutex
	T0  time.Time
	Evs []Ev
	Off bool
}

// Add appends an event.
func (l *Log) Add(e Ev) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.Off {
		return
	}
	l.Evs = append(l.Evs, e)
}

// AddT appends an event stamped with the virtual time in microseconds.
func (l *Log) AddT(e Ev) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.Off {
		return
	}
	e["t"] = time.Since(l.T0).Microseconds()
	l.Evs = append(l.Evs, e)
}

func (l *Log) Len() int { l.mu.Lock(); defer l.mu.Unlock(); return len(l.Evs) }

// Stop ends logging and returns the events.
func (l *Log) Stop() []Ev {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.Off = true
	return l.Evs
}

func (l *Log) JSON() []byte { b, _ := json.Marshal(l.Evs); return b }
