// Package e2e lets programs that use the real client library talk to the real
// server over an in-memory network and records what the programs see.
package e2e

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"
	"sync"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/server"

	"verif/drv"
	"verif/vsched"
	"verif/wire"
)

type nolog struct{}

func (nolog) Debugf(string, ...interface{})   {}
func (nolog) Infof(string, ...interface{})    {}
func (nolog) Warningf(string, ...interface{}) {}
func (nolog) Errorf(string, ...interface{})   {}
func (nolog) Debug(string)                    {}
func (nolog) Info(string)                     {}
func (nolog) Warning(string)                  {}
func (nolog) Error(string)                    {}

type source struct {
	mu  sync.Mutex
	src rand.Source64
}

func (s *source) Int63() int64    { s.mu.Lock(); defer s.mu.Unlock(); return s.src.Int63() }
func (s *source) Uint64() uint64  { s.mu.Lock(); defer s.mu.Unlock(); return s.src.Uint64() }
func (s *source) Seed(seed int64) {}

// Rig is one scenario.
type Rig struct {
	rng     *rand.Rand
	log     *wire.Log
	l       *wire.Listener
	mu      sync.Mutex
	nk      int
	nm      int
	ns      int
	nt      int
	nacks   int
	clients []*Client
	queues  []string
	extra   []string
	topics  []string
	pr      Profile
	auth    bool
	minHB   time.Duration
}

// Client is one program with its connection.
type Client struct {
	r    *Rig
	n    int
	conn *stomp.Conn
	ver  string
	subs []*Sub
	work []chan func(w *Worker)
	left bool // Disconnect or MustDisconnect is about to be called
	mu   sync.Mutex
	held []*Held
}

// Worker issues the calls of one goroutine.
type Worker struct {
	c   *Client
	txs []*Tx
}

type Tx struct {
	n    int
	t    *stomp.Transaction
	held []*Held
}

type Sub struct {
	c     *Client
	n     int
	s     *stomp.Subscription
	q     string
	mode  stomp.AckMode
	unsub bool
}

// Held is a message received and not acknowledged yet.
type Held struct {
	s *Sub
	m *stomp.Message
	n int
}

// Profile describes a family.
type Profile struct {
	Clients [2]int
	Ops     [2]int
	W       map[string]int
	Slow    float64
	Burst   int
}

var order = []string{"send", "burst", "sub", "unsub", "txnew", "txsend", "txack", "txend", "ack", "nack", "sleep", "long", "quiet", "leave", "join",
	"flood", "bigtx", "fan", "cycle"}

var Profiles = map[string]Profile{
	"E01": {Clients: [2]int{2, 3}, Ops: [2]int{12, 40}, Slow: .1, W: map[string]int{"send": 22, "burst": 5, "sub": 9, "unsub": 4, "txnew": 4, "txsend": 8, "txack": 4, "txend": 5,
		"ack": 9, "nack": 3, "sleep": 2, "long": 1, "quiet": 5, "leave": 1, "join": 1}},
	// much traffic, so that every buffer on the way is full at times
	"EB": {Clients: [2]int{2, 3}, Ops: [2]int{8, 20}, Slow: .4, Burst: 50, W: map[string]int{"send": 6, "burst": 14, "sub": 12, "unsub": 3, "txnew": 2, "txsend": 4, "txack": 2, "txend": 3,
		"ack": 6, "nack": 2, "sleep": 2, "quiet": 1, "leave": 1, "join": 1}},
	// a great many of one thing
	"EV": {Clients: [2]int{2, 2}, Ops: [2]int{2, 5}, Slow: .1, W: map[string]int{"flood": 5, "bigtx": 4, "fan": 4, "cycle": 3, "send": 4, "sub": 8, "quiet": 5, "txack": 1, "ack": 3, "leave": 1}},
}

func NewRig(seed int64, fam string) *Rig {
	r := &Rig{rng: rand.New(&source{src: rand.NewSource(seed).(rand.Source64)})}
	r.log = &wire.Log{T0: time.Now()}
	r.l = wire.NewListener()
	r.pr = Profiles[fam]
	return r
}

func (r *Rig) p(x float64) bool { return r.rng.Float64() < x }

// call records one call. num fills in numbers while the log is locked.
func (r *Rig) call(c *Client, ev wire.Ev, num func(), body func() error) error {
	r.mu.Lock()
	r.nk++
	k := r.nk
	if num != nil {
		num()
	}
	ev["e"], ev["k"], ev["c"] = "call", k, c.n
	b, _ := json.Marshal(ev) // ev may be changed later
	var cp wire.Ev
	json.Unmarshal(b, &cp)
	r.log.Add(cp)
	r.mu.Unlock()
	err := func() (err error) {
		defer func() {
			if x := recover(); x != nil {
				r.log.Add(wire.Ev{"e": "crash", "what": wire.Pct(fmt.Sprint(x))})
				err = fmt.Errorf("panic")
			}
		}()
		return body()
	}()
	ret := wire.Ev{"e": "ret", "k": k, "r": "ok"}
	if err != nil {
		ret["r"] = wire.Pct(err.Error())
	}
	r.log.Add(ret)
	return err
}

// pipe connects a client's end with a server's end.
func (r *Rig) pipe() *wire.End {
	mr := func() int {
		if r.rng.Intn(3) == 0 {
			return 1 + r.rng.Intn(30)
		}
		return 0
	}
	src := func() *rand.Rand { return rand.New(rand.NewSource(r.rng.Int63())) }
	la, a := wire.NewLink(src(), mr())
	lb, b := wire.NewLink(src(), mr())
	lb.Remote = "client"
	join(la, lb, src())
	join(lb, la, src())
	r.l.Give(b)
	return a
}

// join carries what is written at one side to the other one.
func join(from, to *wire.Link, rng *rand.Rand) {
	var mu sync.Mutex
	var q []byte
	end := false
	wake := make(chan struct{}, 1)
	kick := func() {
		select {
		case wake <- struct{}{}:
		default:
		}
	}
	from.OnWrite = func(p []byte) {
		mu.Lock()
		q = append(q, p...)
		mu.Unlock()
		kick()
	}
	from.OnClose = func() {
		mu.Lock()
		end = true
		mu.Unlock()
		kick()
	}
	lag := time.Duration(0)
	if rng.Intn(2) == 0 {
		lag = time.Duration(1 + rng.Intn(3000))
	}
	go func() {
		for range wake {
			if lag > 0 {
				time.Sleep(time.Duration(rng.Int63n(int64(lag))))
			}
			mu.Lock()
			p, e := q, end
			q = nil
			mu.Unlock()
			if len(p) > 0 {
				to.Send(p, nil)
			}
			if e {
				to.CloseRead(nil, false, nil)
				return
			}
		}
	}()
}

type authn struct{}

func (authn) Authenticate(l, p string) bool { return l == "us:er" && p == "pass" }

// Serve starts the server.
func (r *Rig) Serve() {
	s := &server.Server{Log: nolog{}}
	r.minHB = drv.Pick(r.rng, []time.Duration{0, time.Second, 10 * time.Second})
	s.HeartBeat = r.minHB
	if r.rng.Intn(3) == 0 {
		r.auth = true
		s.Authenticator = authn{}
	}
	vsched.OnCrash(func(msg string) {
		r.log.Add(wire.Ev{"e": "crash", "what": drv.FirstLine(msg)})
	})
	go func() {
		defer vsched.Recover()
		s.Serve(r.l)
	}()
}

// Join starts another client.
func (r *Rig) Join(plain bool) *Client {
	c := &Client{r: r, n: len(r.clients) + 1}
	r.clients = append(r.clients, c)
	rng := r.rng
	opts := []func(*stomp.Conn) error{stomp.ConnOpt.Logger(nolog{})}
	if r.auth {
		opts = append(opts, stomp.ConnOpt.Login("us:er", "pass"))
	}
	switch v := rng.Intn(4); {
	case v == 0:
		opts = append(opts, stomp.ConnOpt.AcceptVersion(stomp.V11))
	case v == 1:
		opts = append(opts, stomp.ConnOpt.AcceptVersion(stomp.V12))
	case v == 2:
		opts = append(opts, stomp.ConnOpt.AcceptVersion(stomp.V10, stomp.V11))
	}
	switch rng.Intn(4) {
	case 0:
		opts = append(opts, stomp.ConnOpt.HeartBeat(0, 0))
	case 1:
		opts = append(opts, stomp.ConnOpt.HeartBeat(time.Second, time.Second))
	case 2:
		opts = append(opts, stomp.ConnOpt.HeartBeat(10*time.Second, 0))
	}
	if rng.Intn(3) == 0 {
		opts = append(opts, stomp.ConnOpt.UseStomp)
	}
	if rng.Intn(3) == 0 {
		opts = append(opts, stomp.ConnOpt.ReadChannelCapacity(1+rng.Intn(3)), stomp.ConnOpt.WriteChannelCapacity(1+rng.Intn(3)))
	}
	if rng.Intn(4) == 0 {
		opts = append(opts, stomp.ConnOpt.WithStats())
	}
	if plain {
		opts = opts[:1]
		if r.auth {
			opts = append(opts, stomp.ConnOpt.Login("us:er", "pass"))
		}
	}
	end := r.pipe()
	err := r.call(c, wire.Ev{"op": "connect"}, nil, func() (err error) {
		c.conn, err = stomp.Connect(end, opts...)
		return
	})
	if err != nil {
		c.left = true
		return c
	}
	for i := 0; i < 2; i++ {
		ch := make(chan func(*Worker), 200)
		c.work = append(c.work, ch)
		go func() {
			w := &Worker{c: c}
			for f := range ch {
				f(w)
			}
		}()
	}
	return c
}

// do gives work to one of the client's goroutines.
func (c *Client) do(f func(w *Worker)) {
	c.work[c.r.rng.Intn(len(c.work))] <- f
}

func hj(h *frame.Header) [][]string {
	o := [][]string{}
	for i := 0; h != nil && i < h.Len(); i++ {
		k, v := h.GetAt(i)
		o = append(o, []string{wire.Pct(k), wire.Pct(v)})
	}
	return o
}

func (r *Rig) body() []byte {
	switch r.rng.Intn(6) {
	case 0:
		return []byte{}
	case 1:
		if r.pr.Ops[1] < 6 && r.rng.Intn(20) > 0 {
			break
		}
		b := make([]byte, r.rng.Intn(9000))
		r.rng.Read(b)
		return b
	case 2:
		return []byte("a\x00b\nMESSAGE\n\n\x00")
	}
	return []byte(fmt.Sprintf("body %d", r.rng.Intn(1000)))
}

func (w *Worker) send(tx *Tx, q string) {
	r := w.c.r
	rng := r.rng
	body := r.body()
	ct := drv.Pick(rng, []string{"", "text/plain", "application/x:y"})
	ev := wire.Ev{"op": "send", "q": wire.Pct(q), "b": wire.Digest(body), "ct": wire.Pct(ct), "tx": 0, "rc": false}
	var opts []func(*frame.Frame) error
	h := [][]string{}
	if rng.Intn(3) == 0 {
		for i := 0; i <= rng.Intn(3); i++ {
			k, v := drv.Pick(rng, []string{"x1", "x2", "k:ey", "back\\slash"}), drv.Pick(rng, drv.Nasty)
			opts = append(opts, stomp.SendOpt.Header(k, v))
			h = append(h, []string{wire.Pct(k), wire.Pct(v)})
		}
	}
	ev["h"] = h
	var m int
	opts = append(opts, func(f *frame.Frame) error { f.Header.Set("vm", strconv.Itoa(m)); return nil })
	if tx == nil && rng.Intn(2) == 0 {
		ev["rc"] = true
		opts = append(opts, stomp.SendOpt.Receipt)
	}
	nul := false
	for _, b := range body {
		nul = nul || b == 0
	}
	if !nul && rng.Intn(4) == 0 {
		opts = append(opts, stomp.SendOpt.NoContentLength)
	}
	if tx != nil {
		ev["tx"] = tx.n
	}
	r.call(w.c, ev, func() { r.nm++; m = r.nm; ev["m"] = m }, func() error {
		if tx != nil {
			return tx.t.Send(q, ct, body, opts...)
		}
		return w.c.conn.Send(q, ct, body, opts...)
	})
}

var modeName = map[stomp.AckMode]string{stomp.AckAuto: "auto", stomp.AckClient: "client", stomp.AckClientIndividual: "individual"}

func (w *Worker) subscribe(q string, mode stomp.AckMode) {
	r, c := w.c.r, w.c
	s := &Sub{c: c, q: q, mode: mode}
	ev := wire.Ev{"op": "sub", "q": wire.Pct(q), "mode": modeName[mode]}
	err := r.call(c, ev, func() { r.ns++; s.n = r.ns; ev["n"] = s.n }, func() (err error) {
		s.s, err = c.conn.Subscribe(q, mode)
		return
	})
	if err != nil {
		return
	}
	c.mu.Lock()
	c.subs = append(c.subs, s)
	c.mu.Unlock()
	go s.consume()
}

func (s *Sub) consume() {
	c, r := s.c, s.c.r
	w := &Worker{c: c}
	slow := r.p(r.pr.Slow)
	for m := range s.s.C {
		if m.Err != nil {
			r.log.Add(wire.Ev{"e": "suberr", "n": s.n, "what": wire.Pct(m.Err.Error())})
			continue
		}
		id, _ := strconv.Atoi(m.Header.Get("vm"))
		r.log.Add(wire.Ev{"e": "recv", "n": s.n, "m": id, "b": wire.Digest(m.Body), "h": hj(m.Header), "d": wire.Pct(m.Destination), "ct": wire.Pct(m.ContentType)})
		if slow {
			time.Sleep(time.Duration(r.rng.Intn(5)) * time.Millisecond)
		}
		if s.mode == stomp.AckAuto || len(s.q) < 7 || s.q[:7] != "/queue/" {
			continue
		}
		h := &Held{s: s, m: m, n: id}
		switch x := r.rng.Intn(10); {
		case x < 5:
			w.ack(nil, h, true)
		case x < 6 && r.nackBudget():
			w.ack(nil, h, false)
		case x < 8: // in a transaction, together with a message that passes it on
			tx := w.begin()
			if tx == nil {
				break
			}
			if r.rng.Intn(2) == 0 {
				w.send(tx, drv.Pick(r.rng, append(r.queues, r.topics...)))
			}
			w.ack(tx, h, true)
			w.end(tx, r.rng.Intn(3) > 0)
		default:
			c.mu.Lock()
			c.held = append(c.held, h)
			c.mu.Unlock()
		}
	}
	r.log.Add(wire.Ev{"e": "closed", "n": s.n})
}

func (r *Rig) nackBudget() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.nacks++
	return r.nacks < 12
}

func (c *Client) takeHeld() *Held {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.held) == 0 {
		return nil
	}
	i := c.r.rng.Intn(len(c.held))
	h := c.held[i]
	c.held = append(c.held[:i:i], c.held[i+1:]...)
	return h
}

// ack acknowledges or rejects a message.
func (w *Worker) ack(tx *Tx, h *Held, ack bool) {
	r := w.c.r
	ev := wire.Ev{"op": "ack", "n": h.s.n, "m": h.n, "nack": !ack, "tx": 0}
	if tx != nil {
		ev["tx"] = tx.n
		tx.held = append(tx.held, h)
	}
	r.call(w.c, ev, nil, func() error {
		switch {
		case tx != nil && ack:
			return tx.t.Ack(h.m)
		case tx != nil:
			return tx.t.Nack(h.m)
		case ack:
			return w.c.conn.Ack(h.m)
		}
		return w.c.conn.Nack(h.m)
	})
}

func (w *Worker) begin() *Tx {
	r := w.c.r
	t := &Tx{}
	ev := wire.Ev{"op": "begin"}
	err := r.call(w.c, ev, func() { r.nt++; t.n = r.nt; ev["tx"] = t.n }, func() (err error) {
		t.t, err = w.c.conn.BeginWithError()
		return
	})
	if err != nil {
		return nil
	}
	return t
}

func (w *Worker) end(t *Tx, commit bool) {
	r := w.c.r
	op, rc := "abort", r.rng.Intn(2) == 0
	if commit {
		op = "commit"
	}
	r.call(w.c, wire.Ev{"op": op, "tx": t.n, "rc": rc}, nil, func() error {
		switch {
		case commit && rc:
			return t.t.CommitWithReceipt()
		case commit:
			return t.t.Commit()
		case rc:
			return t.t.AbortWithReceipt()
		}
		return t.t.Abort()
	})
	if !commit { // what it was to acknowledge is still held
		w.c.mu.Lock()
		w.c.held = append(w.c.held, t.held...)
		w.c.mu.Unlock()
	}
}

func (w *Worker) unsubscribe(s *Sub) {
	w.c.r.call(w.c, wire.Ev{"op": "unsub", "n": s.n}, nil, func() error { return s.s.Unsubscribe() })
}

// leave ends the connection.
func (c *Client) leave(w *Worker, must bool) {
	if must {
		c.r.call(c, wire.Ev{"op": "must"}, nil, c.conn.MustDisconnect)
	} else {
		c.r.call(c, wire.Ev{"op": "disc"}, nil, c.conn.Disconnect)
	}
}

func (r *Rig) gap() {
	switch r.rng.Intn(4) {
	case 0:
		time.Sleep(time.Duration(r.rng.Intn(3000)))
	case 1:
		time.Sleep(time.Duration(r.rng.Intn(100)))
	case 2:
		drv.Settle()
	}
}

func (r *Rig) quiet() {
	for n := -1; n != r.log.Len(); { // readers may be slow
		n = r.log.Len()
		drv.Settle()
		time.Sleep(500 * time.Millisecond)
		drv.Settle()
	}
	r.log.Add(wire.Ev{"e": "quiet"})
}

// many is a number around which limits tend to lie.
func (r *Rig) many() int {
	return drv.Pick(r.rng, []int{64, 100, 128, 256})*(1+r.rng.Intn(3))/3 + r.rng.Intn(6)
}

func (r *Rig) dest() string {
	if r.rng.Intn(4) == 0 {
		return drv.Pick(r.rng, r.topics)
	}
	return drv.Pick(r.rng, r.queues)
}

func (r *Rig) op(c *Client, kind string) bool {
	rng := r.rng
	switch kind {
	case "send":
		q := r.dest()
		c.do(func(w *Worker) { w.send(nil, q) })
	case "burst":
		q := r.dest()
		n := 2 + rng.Intn(6)
		if r.pr.Burst > 0 {
			n = 10 + rng.Intn(r.pr.Burst)
		}
		c.do(func(w *Worker) {
			for i := 0; i < n; i++ {
				w.send(nil, q)
			}
		})
	case "sub":
		c.mu.Lock()
		n := len(c.subs)
		c.mu.Unlock()
		if n > 5 {
			return false
		}
		q := r.dest()
		mode := drv.Pick(rng, []stomp.AckMode{stomp.AckAuto, stomp.AckAuto, stomp.AckClient, stomp.AckClientIndividual, stomp.AckClientIndividual})
		c.do(func(w *Worker) { w.subscribe(q, mode) })
	case "unsub":
		c.mu.Lock()
		var s *Sub
		if len(c.subs) > 0 {
			s = drv.Pick(rng, c.subs)
		}
		if s == nil || s.unsub {
			c.mu.Unlock()
			return false
		}
		s.unsub = true
		c.mu.Unlock()
		c.do(func(w *Worker) { w.unsubscribe(s) })
	case "txnew":
		c.do(func(w *Worker) {
			if len(w.txs) < 3 {
				if t := w.begin(); t != nil {
					w.txs = append(w.txs, t)
				}
			}
		})
	case "txsend":
		q := r.dest()
		c.do(func(w *Worker) {
			if len(w.txs) > 0 {
				w.send(drv.Pick(rng, w.txs), q)
			}
		})
	case "txack":
		ack := rng.Intn(3) > 0
		c.do(func(w *Worker) {
			if len(w.txs) == 0 || !ack && !r.nackBudget() {
				return
			}
			if h := c.takeHeld(); h != nil {
				w.ack(drv.Pick(rng, w.txs), h, ack)
			}
		})
	case "txend":
		commit := rng.Intn(3) > 0
		c.do(func(w *Worker) {
			if len(w.txs) > 0 {
				i := rng.Intn(len(w.txs))
				t := w.txs[i]
				w.txs = append(w.txs[:i:i], w.txs[i+1:]...)
				w.end(t, commit)
			}
		})
	case "ack", "nack":
		c.do(func(w *Worker) {
			if kind == "nack" && !r.nackBudget() {
				return
			}
			if h := c.takeHeld(); h != nil {
				w.ack(nil, h, kind == "ack")
			}
		})
	case "flood":
		q, n := r.dest(), r.many()
		c.do(func(w *Worker) {
			for i := 0; i < n; i++ {
				w.send(nil, q)
			}
		})
		if rng.Intn(2) == 0 {
			r.quiet()
		}
	case "bigtx": // one transaction with many messages
		n, commit := r.many(), rng.Intn(4) > 0
		qs := []string{r.dest(), r.dest()}
		c.do(func(w *Worker) {
			t := w.begin()
			if t == nil {
				return
			}
			for i := 0; i < n; i++ {
				w.send(t, drv.Pick(rng, qs))
			}
			w.end(t, commit)
		})
	case "fan": // many subscriptions
		n, shared := r.many()/2, rng.Intn(2) == 0
		if shared {
			n /= 4
		}
		mode := drv.Pick(rng, []stomp.AckMode{stomp.AckAuto, stomp.AckClient, stomp.AckClientIndividual})
		base := len(r.extra)
		if !shared {
			for i := 0; i < n; i++ {
				r.extra = append(r.extra, fmt.Sprintf("/queue/many%d", base+i))
			}
		}
		q, q2 := r.dest(), r.extra[base:]
		c.do(func(w *Worker) {
			for i := 0; i < n; i++ {
				if !shared {
					q = q2[i]
				}
				w.subscribe(q, mode)
			}
		})
		if rng.Intn(2) == 0 {
			r.quiet()
		}
		c.do(func(w *Worker) {
			for i := 0; i < n; i++ {
				if !shared {
					q = drv.Pick(rng, q2)
				}
				w.send(nil, q)
			}
		})
	case "cycle": // many transactions, one after the other or at once
		n, once := r.many()/3, rng.Intn(2) == 0
		c.do(func(w *Worker) {
			var ts []*Tx
			for i := 0; i < n; i++ {
				t := w.begin()
				if t == nil {
					break
				}
				w.send(t, drv.Pick(rng, r.queues))
				if ts = append(ts, t); !once {
					w.end(t, rng.Intn(3) > 0)
				}
			}
			for _, t := range ts {
				if once {
					w.end(t, rng.Intn(3) > 0)
				}
			}
		})
	case "sleep":
		time.Sleep(time.Duration(rng.Intn(3000)) * time.Millisecond)
	case "long":
		time.Sleep(time.Duration(rng.Intn(400)) * time.Second)
	case "quiet":
		r.quiet()
	case "leave":
		must := rng.Intn(3) == 0
		c.left = true
		c.do(func(w *Worker) { c.leave(w, must) })
	case "join":
		if len(r.clients) > 3 {
			return false
		}
		r.Join(false)
	}
	return true
}

// Random runs one random scenario.
func Random(seed int64, fam string, nsites int) *Rig {
	r := NewRig(seed, fam)
	rng := r.rng
	vsched.Start(rng.Int63(), drv.Plan(rng, nsites))
	defer vsched.Stop()
	pr := r.pr
	r.queues = []string{"/queue/a", "/queue/b:c", "/queue/"}[:1+rng.Intn(3)]
	r.topics = []string{"/topic/t", "plain"}[:1+rng.Intn(2)]
	r.Serve()
	n := pr.Clients[0] + rng.Intn(pr.Clients[1]-pr.Clients[0]+1)
	for i := 0; i < n; i++ {
		r.Join(false)
	}
	ops := pr.Ops[0] + rng.Intn(pr.Ops[1]-pr.Ops[0]+1)
	for i := 0; i < ops; i++ {
		for try := 0; try < 20; try++ {
			var up []*Client
			for _, c := range r.clients {
				if !c.left {
					up = append(up, c)
				}
			}
			if len(up) == 0 {
				r.Join(false)
				continue
			}
			if r.op(drv.Pick(rng, up), drv.Weighted(rng, pr.W, order)) {
				break
			}
		}
		r.gap()
	}
	r.quiet()
	for _, c := range r.clients {
		if !c.left {
			c.left = true
			must := rng.Intn(4) == 0
			go c.leave(nil, must)
			r.gap()
		}
	}
	time.Sleep(2 * time.Second)
	r.quiet()
	// nothing that was sent is missing
	c := r.Join(true)
	if c.conn != nil {
		w := &Worker{c: c}
		for _, q := range append(r.queues, r.extra...) {
			w.subscribe(q, stomp.AckAuto)
		}
		r.quiet()
		c.leave(w, false)
		c.left = true
	}
	r.quiet()
	for _, c := range r.clients {
		for _, ch := range c.work {
			close(ch)
		}
	}
	return r
}

// Trace is the outcome of a scenario.
type Trace struct {
	Fam string    `json:"fam"`
	ID  string    `json:"id"`
	Ev  []wire.Ev `json:"ev"`
}

func (r *Rig) Trace(fam, id string) *Trace { return &Trace{Fam: fam, ID: id, Ev: r.log.Stop()} }

func (t *Trace) Line() []byte {
	b, err := json.Marshal(t)
	if err != nil {
		panic(err)
	}
	return append(b, '\n')
}
