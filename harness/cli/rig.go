// Package cli drives the real client library and records what it does. The
// driver plays the server and the program.
package cli

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime/debug"
	"sync"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"

	"verif/drv"
	"verif/vsched"
	"verif/wire"
)

type nolog struct{}

func (nolog) Debugf(string, ...interface{})   {}
func (nolog) Infof(string, ...interface{})    {}
func (nolog) Warningf(string, ...interface{}) {}
func (nolog) Errorf(string, ...interface{})   {}
func (nolog) Debug(string)                    {}
func (nolog) Info(string)                     {}
func (nolog) Warning(string)                  {}
func (nolog) Error(string)                    {}

// Got is a message a consumer has received.
type Got struct {
	m    *stomp.Message
	n    int
	body []byte // what the driver keeps is the message itself; checked again at the end
}

// Sub is a subscription of the program.
type Sub struct {
	k      int
	s      *stomp.Subscription
	id     string
	mode   stomp.AckMode
	reply  bool
	how    string // chan, read, ack, manual
	start  chan struct{}
	ready  bool // certainly known to the library's loop
	lazy   bool // manual, not yet being read
	unsub  bool // an Unsubscribe has been called
	closed bool
	got    []*Got
	sent   int // messages the driver has sent to it
	given  int // to Ack or Nack
}

// Tx is a transaction of the program.
type Tx struct {
	k    int
	t    *stomp.Transaction
	busy bool
	done bool
}

// Wait is a frame of the client that asks for a receipt.
type Wait struct {
	cmd, id string
	sub     string
}

// Rig is one scenario.
type Rig struct {
	rng  *rand.Rand
	fam  string
	log  *wire.Log
	link *wire.Link
	end  *wire.End
	par  wire.Parser
	conn *stomp.Conn
	ver  string

	mu      sync.Mutex
	nk      int
	nrep    int
	nm      int
	nrecv   int
	pending int
	subs    []*Sub
	txs     []*Tx
	waits   []Wait
	asked   []*wire.Frame   // the frames that asked for a receipt
	live    map[string]bool // ids the server has seen subscribed and not unsubscribed
	rcUsed  map[string]bool // ids that a frame may ask a receipt for
	resv    map[string]bool // ids being subscribed
	acked   []string        // receipt ids that have been answered
	msgs    []*stomp.Message
	nclosed bool
	ended   bool // the driver has ended the connection
	discd   bool // DISCONNECT seen
	bad     bool
	real    bool // the library has opened the connection itself
	stalled bool
	base    int
	rlim    time.Duration // how often the server has to say something
	setT    bool
	lazyMax int // how many messages a program that does not read is sent
	pr      Profile
	notify  chan struct{}
	srvMu   chan bool // held while sending; a channel, so that the bubble sees it
	stop    bool
}

// source is a source that several goroutines can use.
type source struct {
	mu  sync.Mutex
	src rand.Source64
}

func (s *source) Int63() int64    { s.mu.Lock(); defer s.mu.Unlock(); return s.src.Int63() }
func (s *source) Uint64() uint64  { s.mu.Lock(); defer s.mu.Unlock(); return s.src.Uint64() }
func (s *source) Seed(seed int64) {}

func NewRig(seed int64, fam string) *Rig {
	r := &Rig{rng: rand.New(&source{src: rand.NewSource(seed).(rand.Source64)}), fam: fam, live: map[string]bool{}, resv: map[string]bool{}, rcUsed: map[string]bool{}}
	r.log = &wire.Log{T0: time.Now()}
	r.notify = make(chan struct{}, 1)
	r.srvMu = make(chan bool, 1)
	return r
}

func (r *Rig) add(e wire.Ev) { r.log.AddT(e) }

func (r *Rig) now() int64 { return time.Since(r.log.T0).Microseconds() }

func (r *Rig) mkLink() {
	maxRead := 0
	if r.rng.Intn(3) == 0 {
		maxRead = 1 + r.rng.Intn(20)
	}
	r.link, r.end = wire.NewLink(rand.New(rand.NewSource(r.rng.Int63())), maxRead)
	r.link.OnWrite = r.onWrite
	r.link.OnClose = func() {
		r.mu.Lock()
		r.nclosed = true
		r.mu.Unlock()
		r.add(wire.Ev{"e": "netclose"})
	}
	failed := false
	r.link.OnFail = func() {
		if !failed {
			failed = true
			r.add(wire.Ev{"e": "wfail"})
		}
	}
	vsched.OnCrash(func(msg string) {
		r.add(wire.Ev{"e": "crash", "what": drv.FirstLine(msg)})
	})
}

func (r *Rig) onWrite(b []byte) {
	for _, f := range r.par.Feed(b) {
		if f == nil {
			r.add(wire.Ev{"e": "hb"})
			continue
		}
		r.add(wire.Ev{"e": "wire", "f": f.J()})
		r.mu.Lock()
		switch f.Cmd {
		case "SUBSCRIBE":
			r.live[f.Val("id")] = true
			delete(r.resv, f.Val("id"))
		case "DISCONNECT":
			r.discd = true
		}
		if id, ok := f.Get("receipt"); ok && f.Cmd != "SUBSCRIBE" {
			w := Wait{cmd: f.Cmd, id: id}
			if f.Cmd == "UNSUBSCRIBE" {
				w.sub = f.Val("id")
			}
			r.waits = append(r.waits, w)
			r.asked = append(r.asked, f)
		}
		r.mu.Unlock()
		select {
		case r.notify <- struct{}{}:
		default:
		}
	}
	if r.par.Err != nil && !r.bad {
		r.bad = true
		r.add(wire.Ev{"e": "garbage", "what": wire.Pct(r.par.Err.Error())})
	}
}

// ---------------------------------------------------------------- the program

var optErr = errors.New("driver: option failed")

var classes = map[string]string{
	stomp.ErrCompletedTransaction.Error():      "completedtx",
	stomp.ErrCompletedSubscription.Error():     "completedsub",
	stomp.ErrClosedUnexpectedly.Error():        "closed",
	stomp.ErrAlreadyClosed.Error():             "already",
	stomp.ErrMsgSendTimeout.Error():            "stimeout",
	stomp.ErrMsgReceiptTimeout.Error():         "rtimeout",
	stomp.ErrDisconnectReceiptTimeout.Error():  "dtimeout",
	stomp.ErrUnsubscribeReceiptTimeout.Error(): "utimeout",
	stomp.ErrNackNotSupported.Error():          "nonack",
	stomp.ErrNotReceivedMessage.Error():        "notrecv",
	stomp.ErrCannotNackAutoSub.Error():         "nackauto",
	stomp.ErrNilOption.Error():                 "nilopt",
	"missing header: message-id":               "missing",
	"missing header: ack":                      "missing",
	optErr.Error():                             "opterr",
}

func class(err error) (string, string) {
	if err == nil {
		return "ok", ""
	}
	m := err.Error()
	if c, ok := classes[m]; ok {
		return c, wire.Pct(m)
	}
	return "other", wire.Pct(m)
}

// do performs one call of the library and records it. body returns the error
// and may fill in what became known about the call (for the call event itself).
func (r *Rig) do(op string, ev wire.Ev, body func(ret wire.Ev) error) (k int, cls string) {
	r.mu.Lock()
	r.nk++
	k = r.nk
	r.pending++
	r.mu.Unlock()
	ev["e"], ev["k"], ev["op"] = "call", k, op
	r.add(ev)
	ret := wire.Ev{"e": "ret", "k": k}
	defer func() {
		if x := recover(); x != nil {
			r.add(wire.Ev{"e": "crash", "what": wire.Pct(fmt.Sprint(x)) + " in " + op})
			_ = debug.Stack
		}
		r.mu.Lock()
		r.pending--
		r.mu.Unlock()
	}()
	err := body(ret)
	cls, m := class(err)
	ret["r"] = cls
	if ret["void"] != nil {
		delete(ret, "void")
		ret["r"] = "void"
	}
	if ret["m"] == nil {
		ret["m"] = m
	}
	r.add(ret)
	return k, cls
}

// Opt describes an option of Send, Subscribe or Unsubscribe.
type Opt [3]string

func optJ(opts []Opt) [][]string {
	o := [][]string{}
	for _, x := range opts {
		o = append(o, []string{x[0], wire.Pct(x[1]), wire.Pct(x[2])})
	}
	return o
}

func mkOpts(cmd string, opts []Opt) (out []func(*frame.Frame) error) {
	for _, o := range opts {
		o := o
		switch o[0] {
		case "hdr":
			switch cmd {
			case "SEND":
				out = append(out, stomp.SendOpt.Header(o[1], o[2]))
			default:
				out = append(out, stomp.SubscribeOpt.Header(o[1], o[2]))
			}
		case "id":
			out = append(out, stomp.SubscribeOpt.Id(o[1]))
		case "set":
			out = append(out, func(f *frame.Frame) error { f.Header.Set(o[1], o[2]); return nil })
		case "del":
			out = append(out, func(f *frame.Frame) error { f.Header.Del(o[1]); return nil })
		case "receipt":
			out = append(out, stomp.SendOpt.Receipt)
		case "nocl":
			out = append(out, stomp.SendOpt.NoContentLength)
		case "nil":
			out = append(out, nil)
		case "err":
			out = append(out, func(f *frame.Frame) error { return optErr })
		case "wrong": // an option for another command
			wrong := []func(*frame.Frame) error{stomp.SendOpt.Receipt, stomp.SendOpt.NoContentLength, stomp.SendOpt.Header("x", "y"), stomp.SubscribeOpt.Id("z")}
			switch cmd {
			case "SEND":
				wrong = []func(*frame.Frame) error{stomp.SubscribeOpt.Header("x", "y"), stomp.SubscribeOpt.Id("z")}
			case "SUBSCRIBE":
				wrong = wrong[:3]
			}
			out = append(out, wrong[int(o[1][0])%len(wrong)])
		}
	}
	return
}

// Send calls Conn.Send, or Transaction.Send.
func (r *Rig) Send(tx *Tx, dest, ct string, body []byte, opts []Opt) string {
	ev := wire.Ev{"tx": 0, "dest": wire.Pct(dest), "ct": wire.Pct(ct), "b": wire.Digest(body), "len": fmt.Sprint(len(body)), "opts": optJ(opts)}
	if tx != nil {
		ev["tx"] = tx.k
	}
	_, c := r.do("send", ev, func(wire.Ev) error {
		if tx != nil {
			return tx.t.Send(dest, ct, body, mkOpts("SEND", opts)...)
		}
		return r.conn.Send(dest, ct, body, mkOpts("SEND", opts)...)
	})
	return c
}

var modes = map[stomp.AckMode]string{stomp.AckAuto: "auto", stomp.AckClient: "client", stomp.AckClientIndividual: "client-individual"}

// Subscribe calls Conn.Subscribe and starts a consumer.
func (r *Rig) Subscribe(dest string, mode stomp.AckMode, opts []Opt, how string) *Sub {
	ev := wire.Ev{"dest": wire.Pct(dest), "ack": modes[mode], "opts": optJ(opts), "id": "", "how": how}
	var sub *Sub
	k, c := r.do("sub", ev, func(ret wire.Ev) error {
		s, err := r.conn.Subscribe(dest, mode, mkOpts("SUBSCRIBE", opts)...)
		ret["id"] = ""
		if err == nil {
			ev["id"] = wire.Pct(s.Id())
			ret["id"] = wire.Pct(s.Id())
			ret["dest"] = wire.Pct(s.Destination())
			ret["ack"] = modes[s.AckMode()]
			sub = &Sub{s: s, id: s.Id(), mode: mode, how: how, start: make(chan struct{})}
		}
		return err
	})
	if c != "ok" {
		return nil
	}
	sub.k = k
	for _, o := range opts {
		if o[1] == "reply-to" {
			sub.reply = true
		}
	}
	sub.lazy = how == "manual"
	if !sub.lazy {
		close(sub.start)
	}
	r.mu.Lock()
	r.subs = append(r.subs, sub)
	r.mu.Unlock()
	go r.consume(sub)
	return sub
}

// Drain starts reading a subscription that was left unread.
func (r *Rig) Drain(s *Sub) {
	if s.lazy {
		s.lazy = false
		close(s.start)
	}
}

func hj(h *frame.Header) [][]string {
	o := [][]string{}
	if h == nil {
		return o
	}
	for i := 0; i < h.Len(); i++ {
		k, v := h.GetAt(i)
		o = append(o, []string{wire.Pct(k), wire.Pct(v)})
	}
	return o
}

func (r *Rig) recvEv(s *Sub, m *stomp.Message, how string) {
	r.mu.Lock()
	r.nrecv++
	n := r.nrecv
	r.mu.Unlock()
	ev := wire.Ev{"e": "recv", "k": s.k, "n": n, "d": wire.Pct(m.Destination), "ct": wire.Pct(m.ContentType),
		"h": hj(m.Header), "b": wire.Digest(m.Body), "m": "", "r": "msg"}
	if m.Err != nil {
		ev["r"], ev["m"] = how, wire.Pct(m.Err.Error())
		ev["src"] = m.Header != nil
	} else {
		ev["own"] = m.Conn == r.conn && m.Subscription == s.s
		ev["sa"] = m.ShouldAck()
		ev["io"] = viaRead(m, n)
	}
	r.add(ev)
	if m.Err == nil {
		r.mu.Lock()
		s.got = append(s.got, &Got{m: m, n: n})
		r.mu.Unlock()
	}
}

// viaRead reads the body of a copy of m as a stream.
func viaRead(m *stomp.Message, n int) string {
	c := *m
	var b []byte
	for {
		if n%3 == 0 {
			x, err := c.ReadByte()
			if err != nil {
				break
			}
			b = append(b, x)
		} else {
			p := make([]byte, 1+n%7*100)
			k, err := c.Read(p)
			b = append(b, p[:k]...)
			if err != nil || k == 0 {
				break
			}
		}
		if len(b) > len(m.Body) {
			break
		}
	}
	return wire.Digest(b)
}

func (r *Rig) consume(s *Sub) {
	<-s.start
	r.add(wire.Ev{"e": "reading", "k": s.k})
	for s.how == "read" {
		m, err := s.s.Read()
		if err == nil {
			r.recvEv(s, m, "merr")
			continue
		}
		if err == stomp.ErrCompletedSubscription {
			r.add(wire.Ev{"e": "recv", "k": s.k, "r": "comp"})
			break
		}
		r.recvEv(s, &stomp.Message{Err: err}, "rerr")
	}
	for m := range s.s.C {
		r.recvEv(s, m, "err")
		if s.how == "ack" && m.Err == nil {
			r.Ack(true, nil, s, m)
		}
	}
	r.mu.Lock()
	s.closed = true
	r.mu.Unlock()
	r.add(wire.Ev{"e": "recv", "k": s.k, "r": "closed"})
}

// Unsubscribe calls Subscription.Unsubscribe.
func (r *Rig) Unsubscribe(s *Sub, opts []Opt) string {
	s.unsub = true
	_, c := r.do("unsub", wire.Ev{"sub": s.k, "opts": optJ(opts)}, func(wire.Ev) error {
		return s.s.Unsubscribe(mkOpts("UNSUBSCRIBE", opts)...)
	})
	return c
}

// Active calls Subscription.Active.
func (r *Rig) Active(s *Sub) {
	r.do("active", wire.Ev{"sub": s.k}, func(ret wire.Ev) error {
		ret["a"] = s.s.Active()
		return nil
	})
}

// Ack calls Ack or Nack of the connection or a transaction. s is nil for a
// message that no server sent.
func (r *Rig) Ack(ack bool, tx *Tx, s *Sub, m *stomp.Message) string {
	op := "nack"
	if ack {
		op = "ack"
	}
	ev := wire.Ev{"tx": 0, "sub": 0, "mh": hj(m.Header), "real": m.Header != nil && m.Subscription != nil && m.Conn != nil}
	func() {
		defer func() { recover() }()
		ev["sa"] = true
		ev["sa"] = m.ShouldAck() && m.Subscription == nil
	}()
	if tx != nil {
		ev["tx"] = tx.k
	}
	if s != nil {
		ev["sub"] = s.k
	}
	_, c := r.do(op, ev, func(wire.Ev) error {
		switch {
		case tx != nil && ack:
			return tx.t.Ack(m)
		case tx != nil:
			return tx.t.Nack(m)
		case ack:
			return r.conn.Ack(m)
		}
		return r.conn.Nack(m)
	})
	return c
}

// Begin calls Conn.BeginWithError or Conn.Begin.
func (r *Rig) Begin(plain bool) *Tx {
	ev := wire.Ev{"id": "", "plain": plain}
	t := &Tx{}
	k, c := r.do("begin", ev, func(ret wire.Ev) (err error) {
		if plain {
			t.t = r.conn.Begin()
			ret["void"] = true
		} else {
			t.t, err = r.conn.BeginWithError()
		}
		if t.t != nil {
			ev["id"] = wire.Pct(t.t.Id())
			if t.t.Conn() != r.conn {
				ret["m"] = "wrong conn"
			}
		}
		return err
	})
	t.k = k
	if t.t == nil || c != "ok" && r.rng.Intn(2) == 0 {
		return nil
	}
	r.mu.Lock()
	r.txs = append(r.txs, t)
	r.mu.Unlock()
	return t
}

// End calls Commit or Abort, with or without receipt.
func (r *Rig) EndTx(t *Tx, commit, receipt bool) string {
	op := "abort"
	if commit {
		op = "commit"
	}
	_, c := r.do(op, wire.Ev{"tx": t.k, "rc": receipt}, func(wire.Ev) error {
		switch {
		case commit && receipt:
			return t.t.CommitWithReceipt()
		case commit:
			return t.t.Commit()
		case receipt:
			return t.t.AbortWithReceipt()
		}
		return t.t.Abort()
	})
	if c == "ok" {
		t.done = true
	}
	return c
}

func (r *Rig) Disconnect() {
	r.do("disc", wire.Ev{}, func(wire.Ev) error { return r.conn.Disconnect() })
}

func (r *Rig) MustDisconnect() {
	r.do("must", wire.Ev{}, func(wire.Ev) error { return r.conn.MustDisconnect() })
}

// ---------------------------------------------------------------- connecting

// CO are the options of Connect.
type CO struct {
	stompCmd       bool
	host           string
	login, pass    string
	hb             bool
	send, recv     time.Duration
	hbe            time.Duration
	mul10          int
	versions       []string
	hdr            []Opt
	msgT, rcvT     time.Duration
	disT, unsT     time.Duration
	setT           bool
	badOpt         bool
	deadline       time.Duration // from the call; 0 none
	cb             bool
	bare           bool // not a net.Conn
	rcap, wcap     int
	rbuf           int
	remote, expect string
	stats          bool
}

type bare struct{ io.ReadWriteCloser }

func us(d time.Duration) int64 { return int64(d / time.Microsecond) }

func (o *CO) opts(cb func(*frame.Header)) []func(*stomp.Conn) error {
	out := []func(*stomp.Conn) error{stomp.ConnOpt.Logger(nolog{}), nil}
	add := func(f func(*stomp.Conn) error) { out = append(out, f) }
	if o.stompCmd {
		add(stomp.ConnOpt.UseStomp)
	}
	if o.host != "" {
		add(stomp.ConnOpt.Host(o.host))
	}
	if o.login != "" || o.pass != "" {
		add(stomp.ConnOpt.Login(o.login, o.pass))
	}
	if o.hb {
		add(stomp.ConnOpt.HeartBeat(o.send, o.recv))
	}
	if o.hbe > 0 {
		add(stomp.ConnOpt.HeartBeatError(o.hbe))
	}
	if o.mul10 != 10 {
		add(stomp.ConnOpt.HeartBeatGracePeriodMultiplier(float64(o.mul10) / 10))
	}
	if len(o.versions) > 0 {
		var v []stomp.Version
		for _, x := range o.versions {
			v = append(v, stomp.Version(x))
		}
		add(stomp.ConnOpt.AcceptVersion(v...))
	}
	for _, h := range o.hdr {
		add(stomp.ConnOpt.Header(h[1], h[2]))
	}
	if o.setT {
		add(stomp.ConnOpt.MsgSendTimeout(o.msgT))
		add(stomp.ConnOpt.RcvReceiptTimeout(o.rcvT))
		add(stomp.ConnOpt.DisconnectReceiptTimeout(o.disT))
		add(stomp.ConnOpt.UnsubscribeReceiptTimeout(o.unsT))
	}
	if o.badOpt {
		add(func(*stomp.Conn) error { return optErr })
	}
	if o.cb {
		add(stomp.ConnOpt.ResponseHeaders(cb))
	}
	if o.rcap > 0 {
		add(stomp.ConnOpt.ReadChannelCapacity(o.rcap))
	}
	if o.wcap > 0 {
		add(stomp.ConnOpt.WriteChannelCapacity(o.wcap))
	}
	if o.rbuf > 0 {
		add(stomp.ConnOpt.ReadBufferSize(o.rbuf))
		add(stomp.ConnOpt.WriteBufferSize(o.rbuf))
	}
	if o.stats {
		add(stomp.ConnOpt.WithStats())
	}
	return out
}

func (o *CO) ev() wire.Ev {
	if !o.setT {
		o.msgT, o.rcvT, o.disT, o.unsT = 10*time.Second, 30*time.Second, 30*time.Second, 30*time.Second
	}
	if !o.hb {
		o.send, o.recv = time.Minute, time.Minute
	}
	hbe := o.hbe
	if hbe == 0 {
		hbe = 5 * time.Second
	}
	cmd := "CONNECT"
	if o.stompCmd {
		cmd = "STOMP"
	}
	host := o.host
	if host == "" {
		host = o.expect
	}
	if host == "" {
		host = "default"
	}
	vs := []string{"1.0", "1.1", "1.2"}
	if len(o.versions) > 0 {
		vs = o.versions
	}
	badv := false
	for _, v := range vs {
		if v != "1.0" && v != "1.1" && v != "1.2" {
			badv = true
		}
	}
	dl := us(o.deadline)
	if o.bare { // nothing to set a deadline on
		dl = 0
	}
	neg := func(d time.Duration) int64 { // timeouts that never pass
		if d < 0 {
			return 0
		}
		return us(d)
	}
	return wire.Ev{"cmd": cmd, "host": wire.Pct(host), "login": wire.Pct(o.login), "pass": wire.Pct(o.pass),
		"send": int64(o.send / time.Millisecond), "recv": int64(o.recv / time.Millisecond), "hbe": us(hbe), "mul": o.mul10,
		"vers": vs, "hdr": optJ(o.hdr), "bad": o.badOpt || badv,
		"msgT": neg(o.msgT), "rcvT": neg(o.rcvT), "disT": neg(o.disT), "unsT": us(o.unsT), "dl": dl, "cb": o.cb}
}

// Connect calls ConnectWithContext (or Dial).
func (r *Rig) Connect(o *CO, dial func(opts []func(*stomp.Conn) error, ctx context.Context) (*stomp.Conn, error)) bool {
	ev := o.ev()
	_, c := r.do("connect", ev, func(ret wire.Ev) error {
		ctx := context.Background()
		if o.deadline > 0 {
			c, cancel := context.WithTimeout(ctx, o.deadline)
			defer cancel()
			ctx = c
		}
		cbs := [][][]string{}
		opts := o.opts(func(h *frame.Header) { cbs = append(cbs, hj(h)) })
		c, err := dial(opts, ctx)
		ret["cb"] = cbs
		ret["conn"] = c != nil
		if err == nil && c != nil {
			ret["ver"], ret["ses"], ret["srv"] = wire.Pct(c.Version().String()), wire.Pct(c.Session()), wire.Pct(c.Server())
			r.mu.Lock()
			r.conn, r.ver = c, c.Version().String()
			r.mu.Unlock()
		}
		return err
	})
	return c == "ok"
}

// ---------------------------------------------------------------- the server

// srv sends a frame.
func (r *Rig) srv(f *wire.Frame) {
	r.srvMu <- true
	defer func() { <-r.srvMu }()
	if r.ended {
		return
	}
	eol := "\n"
	if r.rng.Intn(4) == 0 {
		eol = "\r\n"
	}
	b := f.Encode(eol)
	if len(b) > 1 && r.rng.Intn(8) == 0 {
		i := 1 + r.rng.Intn(len(b)-1)
		r.link.Send(b[:i], nil)
		time.Sleep(time.Duration(r.rng.Intn(2000)))
		b = b[i:]
	}
	r.link.Send(b, func() { r.add(wire.Ev{"e": "srv", "f": f.J()}) })
}

func (r *Rig) srvBeat() {
	r.srvMu <- true
	defer func() { <-r.srvMu }()
	if r.ended {
		return
	}
	eol := "\n"
	if r.rng.Intn(4) == 0 {
		eol = "\r\n"
	}
	r.link.Send([]byte(eol), func() { r.add(wire.Ev{"e": "shb"}) })
}

func (r *Rig) srvGarbage() {
	r.srvMu <- true
	defer func() { <-r.srvMu }()
	if r.ended {
		return
	}
	r.ended = true
	g := drv.Pick(r.rng, []string{"FOO\n\n\x00", "MESSAGE\nno colon\n\n\x00", "MESSAGE\ncontent-length:x\n\n\x00", "MESSAGE\ncontent-length:2\n\nabcd\x00",
		"message\n\n\x00", "RECEIPT\n:v\n\n\x00"})
	b := []byte(g)
	r.link.Send(b, func() { r.add(wire.Ev{"e": "sgarb"}) })
}

func (r *Rig) srvEOF() {
	r.srvMu <- true
	defer func() { <-r.srvMu }()
	if r.ended {
		return
	}
	r.ended = true
	if r.rng.Intn(3) == 0 { // in the middle of a frame
		r.link.Send([]byte("MESSAGE\nsubscription:1\nfo"), nil)
	}
	r.link.CloseRead(nil, false, func() { r.add(wire.Ev{"e": "seof"}) })
}

func (r *Rig) srvReset() {
	r.srvMu <- true
	defer func() { <-r.srvMu }()
	if r.ended {
		return
	}
	r.ended = true
	r.link.FailWrites(0, func() { r.add(wire.Ev{"e": "sreset"}) })
	r.link.CloseRead(fmt.Errorf("mem: reset"), true, nil)
}

func (r *Rig) stall(on bool) {
	if r.stalled == on {
		return
	}
	r.stalled = on
	r.add(wire.Ev{"e": "stall", "on": on})
	r.link.Stall(on)
}

func (r *Rig) gap() {
	switch r.rng.Intn(4) {
	case 0:
		time.Sleep(time.Duration(r.rng.Intn(2000)))
	case 1:
		time.Sleep(time.Duration(r.rng.Intn(100)))
	case 2:
		drv.Settle()
	}
}

func (r *Rig) quiet() {
	drv.Settle()
	r.mu.Lock()
	for _, s := range r.subs {
		s.ready = s.ready || !r.stalled
	}
	r.mu.Unlock()
	r.add(wire.Ev{"e": "quiet"})
}

// answer sends the RECEIPT for the i-th waiting frame.
func (r *Rig) answer(i int) {
	r.mu.Lock()
	if i >= len(r.waits) {
		r.mu.Unlock()
		return
	}
	w := r.waits[i]
	r.waits = append(r.waits[:i:i], r.waits[i+1:]...)
	if w.cmd == "UNSUBSCRIBE" {
		delete(r.live, w.sub)
	}
	r.acked = append(r.acked, w.id)
	r.mu.Unlock()
	f := wire.F("RECEIPT", "receipt-id", w.id)
	if r.rng.Intn(6) == 0 {
		f.Add("x", "y:z")
	}
	r.srv(f)
	if w.cmd == "DISCONNECT" { // a server goes away then
		r.mu.Lock()
		r.discd = true
		r.mu.Unlock()
	}
}

func (r *Rig) nwaits() int { r.mu.Lock(); defer r.mu.Unlock(); return len(r.waits) }

// Trace is the outcome of a scenario.
type Trace struct {
	Fam string         `json:"fam"`
	ID  string         `json:"id"`
	Cfg map[string]any `json:"cfg"`
	Ev  []wire.Ev      `json:"ev"`
}

func (r *Rig) Trace(id string) *Trace {
	return &Trace{Fam: r.fam, ID: id, Ev: r.log.Stop(), Cfg: map[string]any{"real": r.real, "tol": map[bool]int{false: 2000, true: 3000000}[r.real]}}
}

func (t *Trace) Line() []byte {
	b, err := json.Marshal(t)
	if err != nil {
		panic(err)
	}
	return append(b, '\n')
}
