// Package srv drives the real server and records what it does.
package srv

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/server"

	"verif/vsched"
	"verif/wire"
)

type nolog struct{}

func (nolog) Debugf(string, ...interface{})   {}
func (nolog) Infof(string, ...interface{})    {}
func (nolog) Warningf(string, ...interface{}) {}
func (nolog) Errorf(string, ...interface{})   {}
func (nolog) Debug(string)                    {}
func (nolog) Info(string)                     {}
func (nolog) Warning(string)                  {}
func (nolog) Error(string)                    {}

// Got is a message the driver received that asks for acknowledgement.
type Got struct {
	mid, sub, mode string
	settled        bool
}

// Peer is the driver's end of one connection.
type Peer struct {
	r    *Rig
	n    int // number in the trace, from 1
	link *wire.Link
	ver  string

	mu     sync.Mutex
	par    wire.Parser
	up     bool // CONNECTED seen
	closed bool // closed by the server
	errd   bool
	got    []*Got // those that ask for acknowledgement
	all    []*Got
	nmsg   int
	cx     int // promised heart-beats

	dead    bool // the driver has ended it (or made it fail)
	soon    bool // ... but its reads still work
	stalled bool
	subs    map[string]string // id -> mode, as the driver believes
	dests   map[string]string // id -> destination
	old     []string          // ids used before
	tx      []string
	oldtx   []string
}

// Rig is one scenario: a server, its connections and the log.
type Rig struct {
	rng   *rand.Rand
	log   *wire.Log
	l     *wire.Listener
	srv   *server.Server
	peers []*Peer
	eol   string
	chunk int
	timed bool
	nmsg  int
	crowd int
	fam   string
	auth  string
	store *store
	min   int
	crash bool
	base  int
	hold  bool // a connection is not being read
}

type auth string

func (a auth) Authenticate(login, passcode string) bool { return string(a) == login+"|"+passcode }

func NewRig(seed int64, fam string) *Rig {
	r := &Rig{rng: rand.New(rand.NewSource(seed)), fam: fam, eol: "\n"}
	r.log = &wire.Log{T0: time.Now()}
	r.l = wire.NewListener()
	return r
}

func (r *Rig) add(e wire.Ev) {
	if r.timed {
		r.log.AddT(e)
	} else {
		r.log.Add(e)
	}
}

// Serve starts the server.
func (r *Rig) Serve(authn string, minHB time.Duration, storage bool) {
	s := &server.Server{Log: nolog{}, HeartBeat: minHB}
	r.auth = authn
	if authn != "" {
		s.Authenticator = auth(authn)
	}
	if storage {
		r.store = &store{r: r, lists: map[string][]*frame.Frame{}}
		s.QueueStorage = r.store
	}
	r.min = 60000
	if minHB > 0 {
		r.min = int(minHB / time.Millisecond)
	}
	r.srv = s
	vsched.OnCrash(func(msg string) {
		r.crash = true
		r.add(wire.Ev{"e": "crash", "what": firstLine(msg)})
	})
	go func() {
		defer vsched.Recover()
		s.Serve(r.l)
	}()
	r.settle()
	r.base = -1
	if storage && r.rng.Intn(2) == 0 { // clients come before the storage is ready
		return
	}
	if storage {
		time.Sleep(startTakes)
		r.settle()
	}
	r.base = goroutines()
}

// goroutines counts those that run code of the library.
func goroutines() int {
	b := make([]byte, 1<<20)
	for {
		n := runtime.Stack(b, true)
		if n < len(b) {
			b = b[:n]
			break
		}
		b = make([]byte, 2*len(b))
	}
	k := 0
	for _, g := range strings.Split(string(b), "\n\n") {
		if strings.Contains(g, "go-stomp/stomp/") && !strings.Contains(g, "srv.(*Rig)") {
			k++
		}
	}
	return k
}

// Leaks records how many goroutines there are more than before the first connection.
func (r *Rig) Leaks() {
	time.Sleep(10 * time.Second)
	r.settle()
	n := goroutines() - r.base
	if n < 0 || r.base < 0 {
		n = 0
	}
	r.add(wire.Ev{"e": "leak", "n": n})
}

func firstLine(s string) string {
	for i := range s {
		if s[i] == '\n' {
			s = s[:i]
			break
		}
	}
	return wire.Pct(s)
}

// settle waits until nothing moves any more (without letting heart-beats pass).
func (r *Rig) settle() {
	for {
		synctest.Wait()
		if vsched.Sleeping() == 0 {
			return
		}
		time.Sleep(50 * time.Nanosecond)
	}
}

// Quiet lets everything finish and records that nothing more happens.
func (r *Rig) Quiet() {
	r.settle()
	time.Sleep(1100 * time.Millisecond) // a refused CONNECT is answered after a second
	r.settle()
	r.add(wire.Ev{"e": "quiet"})
}

func (r *Rig) Gap() {
	switch r.rng.Intn(4) {
	case 0:
		time.Sleep(time.Duration(r.rng.Intn(2000)))
	case 1:
		time.Sleep(time.Duration(r.rng.Intn(100)))
	case 2:
		r.settle()
	}
}

// Open makes a connection (no frame is sent).
func (r *Rig) Open() *Peer {
	maxRead := 0
	if r.rng.Intn(3) == 0 {
		maxRead = 1 + r.rng.Intn(20)
	}
	link, end := wire.NewLink(rand.New(rand.NewSource(r.rng.Int63())), maxRead)
	p := &Peer{r: r, n: len(r.peers) + 1, link: link, subs: map[string]string{}, dests: map[string]string{}}
	r.peers = append(r.peers, p)
	link.OnWrite = p.onWrite
	link.OnClose = func() {
		p.mu.Lock()
		p.closed = true
		p.mu.Unlock()
		r.add(wire.Ev{"e": "close", "c": p.n})
	}
	failed := false
	link.OnFail = func() {
		if !failed {
			failed = true
			r.add(wire.Ev{"e": "wfail", "c": p.n})
		}
	}
	if r.fam == "S09" && r.rng.Intn(4) == 0 { // Accept fails for a while
		for i := r.rng.Intn(7); i > 0; i-- {
			r.l.Fail(wire.TempErr{})
		}
	}
	r.l.Give(end)
	return p
}

var kinds = map[string]string{"MESSAGE": "msg", "RECEIPT": "rcpt", "ERROR": "err", "CONNECTED": "cnd"}

func (p *Peer) onWrite(b []byte) {
	for _, f := range p.par.Feed(b) {
		if f == nil {
			p.r.add(wire.Ev{"e": "hb", "c": p.n})
			continue
		}
		k := kinds[f.Cmd]
		if k == "" {
			k = "garbage"
		}
		p.r.add(wire.Ev{"e": k, "c": p.n, "f": f.J()})
		p.mu.Lock()
		switch k {
		case "cnd":
			p.up = true
		case "err":
			p.errd = true
		case "msg":
			p.nmsg++
			p.all = append(p.all, &Got{mid: f.Val("message-id"), sub: f.Val("subscription")})
			if a, ok := f.Get("ack"); ok {
				p.got = append(p.got, &Got{mid: a, sub: f.Val("subscription")})
			}
		}
		p.mu.Unlock()
	}
	if p.par.Err != nil && !p.errd {
		p.errd = true
		p.r.add(wire.Ev{"e": "garbage", "c": p.n, "what": wire.Pct(p.par.Err.Error())})
	}
}

// Send transmits a frame; the log entry comes with its last byte.
func (p *Peer) Send(f *wire.Frame) {
	b := f.Encode(p.r.eol)
	p.SendRaw(b, f.J())
}

func (p *Peer) SendRaw(b []byte, j *wire.J) {
	r := p.r
	if p.dead {
		return
	}
	if len(b) > 1 && r.rng.Intn(8) == 0 { // in two pieces
		i := 1 + r.rng.Intn(len(b)-1)
		if j != nil && j.Cmd == "BAD" { // the first byte may already be wrong
			r.add(wire.Ev{"e": "in", "c": p.n, "f": j})
			j = nil
		}
		p.link.Send(b[:i], nil)
		r.Gap()
		b = b[i:]
	}
	p.link.Send(b, func() {
		if j != nil {
			r.add(wire.Ev{"e": "in", "c": p.n, "f": j})
		}
	})
}

// Drop ends the connection from the driver's side.
func (p *Peer) Drop(kind string) {
	if p.dead && !p.soon {
		return
	}
	p.dead, p.soon = true, false
	ev := func() { p.r.add(wire.Ev{"e": "drop", "c": p.n}) }
	switch kind {
	case "eof": // what the server still writes disappears
		p.link.CloseRead(nil, false, ev)
	case "reset": // unread input is lost, writes fail
		p.link.FailWrites(0, ev)
		p.link.CloseRead(fmt.Errorf("mem: reset"), true, nil)
	}
	p.link.Stall(false)
}

// FailSoon makes the server's writes fail after n more bytes, without closing.
func (p *Peer) FailSoon(n int64) {
	if p.dead {
		return
	}
	p.dead, p.soon = true, true
	p.link.FailWrites(n, nil)
	p.link.Stall(false)
}

func (p *Peer) state() (up, ended bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.up, p.closed || p.errd || p.dead
}

// Outcome of a scenario.
type Trace struct {
	Fam string         `json:"fam"`
	ID  string         `json:"id"`
	NC  int            `json:"nc"`
	Cfg map[string]any `json:"cfg"`
	Ev  []wire.Ev      `json:"ev"`
}

func (r *Rig) Trace(id string) *Trace {
	t := &Trace{Fam: r.fam, ID: id, NC: len(r.peers), Ev: r.log.Stop()}
	t.Cfg = map[string]any{"auth": wire.Pct(r.auth), "min": r.min, "storage": r.store != nil, "timed": r.timed}
	return t
}

func (t *Trace) Line() []byte {
	b, err := json.Marshal(t)
	if err != nil {
		panic(err)
	}
	return append(b, '\n')
}

// store is a custom queue storage that records every call.
type store struct {
	r     *Rig
	lists map[string][]*frame.Frame
}

func fj(f *frame.Frame) *wire.J {
	w := &wire.Frame{Cmd: f.Command, Body: f.Body}
	for i := 0; i < f.Header.Len(); i++ {
		k, v := f.Header.GetAt(i)
		w.H = append(w.H, wire.KV{k, v})
	}
	return w.J()
}

func (s *store) ev(op, q string, f *frame.Frame) {
	e := wire.Ev{"e": "store", "op": op, "q": wire.Pct(q), "nil": f == nil}
	if f != nil {
		e["f"] = fj(f)
	}
	s.r.add(e)
}
func (s *store) Enqueue(q string, f *frame.Frame) error {
	s.ev("enq", q, f)
	s.lists[q] = append(s.lists[q], f)
	return nil
}
func (s *store) Requeue(q string, f *frame.Frame) error {
	s.ev("req", q, f)
	s.lists[q] = append([]*frame.Frame{f}, s.lists[q]...)
	return nil
}
func (s *store) Dequeue(q string) (*frame.Frame, error) {
	l := s.lists[q]
	if len(l) == 0 {
		s.ev("deq", q, nil)
		return nil, nil
	}
	s.lists[q] = l[1:]
	s.ev("deq", q, l[0])
	return l[0], nil
}

// startTakes is how long a storage needs to start.
const startTakes = 300 * time.Millisecond

func (s *store) Start() {
	time.Sleep(startTakes)
	s.r.add(wire.Ev{"e": "store", "op": "start", "q": "", "nil": false})
}
func (s *store) Stop() {}

func keys(m map[string]string) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
