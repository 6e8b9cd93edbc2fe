package cli

import (
	"context"
	"fmt"
	"math/rand"
	"strconv"
	"testing/synctest"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"

	"verif/drv"
	"verif/vsched"
	"verif/wire"
)

var _ = synctest.Wait

// Profile describes a family of scenarios.
type Profile struct {
	W        map[string]int // weights of the operations
	Ops      [2]int
	Ends     map[string]int // how the connection ends
	Hows     []string       // how subscriptions are read
	HB       bool           // heart-beats
	Timeouts float64        // probability of short timeouts
	Auto     float64        // probability that the server answers by itself
	Receipt  float64        // sends with receipt
	Special  float64
	Bad      float64 // failing options
	Stall    float64
	Conc     int // calls at the same time
	Reply    float64
	Own      float64 // subscription ids and receipt ids chosen by the program
	Hand     bool    // the handshake is the subject
	Early    float64 // the end comes while much is going on
}

var order = []string{"send", "batch", "sub", "unsub", "ack", "nack", "foreign", "begin", "txsend", "txack", "endtx", "active", "msg", "burst", "unk",
	"answer", "badrc", "stall", "sleep", "quiet", "beat", "drain", "dup", "vsend", "vrcpt", "vsub", "vmsg", "vtx", "pace", "choke"}

var baseW = map[string]int{"send": 10, "batch": 4, "sub": 5, "unsub": 2, "ack": 4, "nack": 2, "foreign": 1, "begin": 2, "txsend": 3, "txack": 1,
	"endtx": 2, "active": 1, "msg": 10, "burst": 2, "unk": 1, "answer": 8, "badrc": 1, "stall": 1, "sleep": 2, "quiet": 3, "beat": 1, "drain": 1}

func mix(m map[string]int, over map[string]int) map[string]int {
	o := map[string]int{}
	for k, v := range m {
		o[k] = v
	}
	for k, v := range over {
		o[k] = v
	}
	return o
}

var hows = []string{"chan", "chan", "read", "ack", "manual"}
var ends = map[string]int{"disc": 4, "disc0": 2, "must": 2, "error": 3, "eof": 3, "reset": 2, "wfail": 2, "garbage": 1, "noid": 1}
var endOrder = []string{"disc", "disc0", "discerr", "must", "error", "eof", "reset", "wfail", "garbage", "noid", "race", "silent"}

var Profiles = map[string]Profile{
	"C01": {W: baseW, Ops: [2]int{0, 4}, Ends: ends, Hows: hows, Hand: true, Conc: 4, Receipt: .3},
	"C02": {W: mix(baseW, map[string]int{"msg": 24, "burst": 8, "sub": 8, "unsub": 4, "unk": 4, "badrc": 3, "send": 5, "dup": 2}), Ops: [2]int{14, 40},
		Ends: ends, Hows: hows, Conc: 6, Receipt: .3, Special: .4, Reply: .1, Own: .6, Auto: .4, Timeouts: .3},
	"C03": {W: mix(baseW, map[string]int{"send": 16, "endtx": 6, "begin": 5, "answer": 14, "badrc": 6, "msg": 4, "sleep": 6, "stall": 2, "choke": 1}), Ops: [2]int{14, 36},
		Ends: ends, Hows: hows, Conc: 14, Receipt: .8, Own: .3, Timeouts: .7, Auto: .3, HB: true, Early: .5},
	"C04": {W: mix(baseW, map[string]int{"send": 20, "batch": 14, "txsend": 5, "stall": 3, "msg": 4, "choke": 1}), Ops: [2]int{14, 36}, Ends: ends, Hows: hows,
		Conc: 24, Receipt: .25, Special: .5, Bad: .1, Auto: .6, Timeouts: .3, Own: .3, Reply: .4},
	"C05": {W: mix(baseW, map[string]int{"sub": 8, "msg": 8, "stall": 2}), Ops: [2]int{6, 22}, Ends: mix(ends, map[string]int{"race": 4, "discerr": 2}), Hows: hows,
		Conc: 14, Receipt: .5, Timeouts: .4, Auto: .3, Early: .8, Reply: .1},
	"C06": {W: baseW, Ops: [2]int{3, 14}, Ends: map[string]int{"disc": 6, "disc0": 5, "discerr": 4, "race": 4, "must": 1, "wfail": 1}, Hows: hows, Conc: 12,
		Receipt: .4, Timeouts: .7, Early: .7, Auto: .3},
	"C07": {W: mix(baseW, map[string]int{"sub": 12, "unsub": 14, "msg": 16, "active": 5, "sleep": 4, "send": 4, "answer": 12}), Ops: [2]int{12, 36}, Ends: ends, Hows: hows,
		Conc: 10, Timeouts: .7, Bad: .25, Reply: .1, Own: .5, Auto: .2, Early: .3},
	"C08": {W: mix(baseW, map[string]int{"begin": 12, "txsend": 18, "txack": 8, "endtx": 12, "send": 4, "msg": 8, "sub": 6}), Ops: [2]int{16, 40}, Ends: ends, Hows: hows,
		Conc: 8, Receipt: .4, Special: .3, Bad: .1, Auto: .6, Timeouts: .3, HB: true},
	"C09": {W: mix(baseW, map[string]int{"ack": 20, "nack": 12, "foreign": 5, "msg": 24, "burst": 4, "sub": 9, "txack": 8, "begin": 4, "send": 3}), Ops: [2]int{16, 40},
		Ends: ends, Hows: hows, Conc: 6, Receipt: .3, Special: .5, Auto: .7, Own: .4, Reply: .1},
	"C10": {W: mix(baseW, map[string]int{"sleep": 16, "pace": 8, "beat": 8, "stall": 1, "sub": 8, "unsub": 4}), Ops: [2]int{12, 36}, Ends: mix(ends, map[string]int{"silent": 8}), Hows: hows,
		Conc: 6, Receipt: .3, HB: true, Auto: .7, Timeouts: .2, Reply: .5},
	"C11": {W: mix(baseW, map[string]int{"sub": 8, "unsub": 6, "sleep": 3}), Ops: [2]int{4, 24}, Ends: mix(ends, map[string]int{"race": 5, "discerr": 3}), Hows: hows,
		Conc: 14, Receipt: .6, Timeouts: .6, Auto: .2, Early: .8, Reply: .15, Own: .4},
	// large numbers of everything
	"CV": {W: map[string]int{"vsend": 3, "vrcpt": 4, "vsub": 2, "vmsg": 3, "vtx": 3}, Ops: [2]int{1, 1}, Ends: ends, Hows: []string{"chan", "ack", "chan"}, Conc: 400,
		Receipt: .3, Early: .3},
	"CF": {W: mix(baseW, map[string]int{"burst": 30, "sub": 8, "send": 14, "batch": 6}), Ops: [2]int{14, 40}, Ends: ends, Hows: []string{"chan", "ack", "ack", "manual"},
		Conc: 16, Receipt: .6, Auto: .9, Early: .5},
}

func (r *Rig) p(x float64) bool { return r.rng.Float64() < x }

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

func (r *Rig) mkCO() *CO {
	o := &CO{mul10: 10, hb: true}
	pr := r.pr
	rng := r.rng
	if pr.HB {
		v := []int{0, 100, 300, 1000, 20000}
		o.send, o.recv = ms(drv.Pick(rng, v)), ms(drv.Pick(rng, v))
		o.hbe = ms(drv.Pick(rng, []int{0, 10, 50, 150}))
		o.mul10 = drv.Pick(rng, []int{10, 10, 10, 15, 20, 30})
	}
	if r.p(pr.Timeouts) {
		o.setT = true
		t := []int{0, 60, 110, 170, 230, -5, 2000}
		o.msgT, o.rcvT, o.disT = ms(drv.Pick(rng, t)), ms(drv.Pick(rng, t)), ms(drv.Pick(rng, t))
		o.unsT = ms(drv.Pick(rng, []int{0, 60, 110, 170, 2000}))
	}
	if rng.Intn(3) == 0 {
		o.rcap, o.wcap = 1+rng.Intn(3), 1+rng.Intn(3)
	}
	if rng.Intn(6) == 0 {
		o.rbuf = 16 + rng.Intn(5000)
	}
	o.bare = rng.Intn(6) == 0
	o.stats = rng.Intn(5) == 0
	if pr.Hand {
		o.stompCmd = rng.Intn(3) == 0
		if rng.Intn(2) == 0 {
			o.host = drv.Pick(rng, []string{"vhost", "a:b", "host\\n", "/"})
		}
		if rng.Intn(2) == 0 {
			o.login = drv.Pick(rng, []string{"scott", "a:b", "", "x\ny"})
			o.pass = drv.Pick(rng, []string{"tiger", "", "p:w\\", "leopard"})
		}
		o.hb = rng.Intn(4) > 0
		if rng.Intn(2) == 0 {
			o.send, o.recv = ms(rng.Intn(100000)), ms(rng.Intn(100000))
			o.hbe = 5 * time.Second
		}
		vs := []string{"1.0", "1.1", "1.2"}
		rng.Shuffle(3, func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
		if rng.Intn(3) > 0 {
			o.versions = vs[:1+rng.Intn(3)]
			if rng.Intn(12) == 0 {
				o.versions = append(append([]string{}, o.versions...), "1.3")
			}
		}
		for i := rng.Intn(4); i > 0; i-- {
			o.hdr = append(o.hdr, Opt{"hdr", drv.Pick(rng, []string{"nonce", "client-id", "a:b", "x\\", "host", "heart-beat", "login", "nonce"}), drv.Pick(rng, drv.Nasty)})
		}
		o.badOpt = rng.Intn(20) == 0
		o.cb = rng.Intn(2) == 0
		if rng.Intn(3) == 0 {
			o.deadline = ms(100 + rng.Intn(3000))
		}
		if !o.bare && rng.Intn(2) == 0 {
			r.link.Remote = "broker.example.com:61613"
			o.expect = "broker.example.com"
		}
	}
	return o
}

func (r *Rig) dial(o *CO) func(opts []func(*stomp.Conn) error, ctx context.Context) (*stomp.Conn, error) {
	return func(opts []func(*stomp.Conn) error, ctx context.Context) (*stomp.Conn, error) {
		if o.bare {
			if o.deadline == 0 {
				return stomp.Connect(bare{r.end}, opts...)
			}
			return stomp.ConnectWithContext(ctx, bare{r.end}, opts...)
		}
		if o.deadline == 0 && r.rng.Intn(2) == 0 {
			return stomp.Connect(r.end, opts...)
		}
		return stomp.ConnectWithContext(ctx, r.end, opts...)
	}
}

// shake performs the handshake; false if there is no connection afterwards.
func (r *Rig) shake() bool {
	rng := r.rng
	o := r.mkCO()
	r.setT = o.setT
	r.lazyMax = drv.Pick(rng, []int{14, 14, 15})
	kind := "ok"
	if r.pr.Hand && !o.badOpt {
		kind = drv.Pick(rng, []string{"ok", "ok", "ok", "ok", "ok", "error", "other", "version", "hb", "eof", "garbage", "wfail", "silent", "late", "reset"})
	}
	if kind == "wfail" {
		r.link.FailWrites(int64(rng.Intn(60)), func() {})
	}
	done := make(chan bool, 1)
	go func() {
		done <- r.Connect(o, r.dial(o))
	}()
	drv.Settle()
	if kind == "wfail" {
		r.quiet()
		select {
		case ok := <-done:
			if !ok {
				return false
			}
		default: // the failure comes later
		}
		r.link.FailWrites(1<<40, nil)
	}
	if r.pr.Hand && rng.Intn(3) == 0 {
		time.Sleep(ms(rng.Intn(90)))
	}
	// the version the server chooses: mostly one the client accepts
	vs := o.versions
	if len(vs) == 0 {
		vs = []string{"1.0", "1.1", "1.2", "1.2", ""}
	}
	ver := drv.Pick(rng, vs)
	if ver == "1.3" {
		ver = "1.2"
	}
	if r.pr.Hand && rng.Intn(10) == 0 {
		ver = drv.Pick(rng, []string{"1.0", "1.1", "1.2", ""})
	}
	f := wire.F("CONNECTED")
	hd := []wire.KV{}
	if ver != "" {
		hd = append(hd, wire.KV{"version", ver})
	}
	if rng.Intn(2) == 0 {
		hd = append(hd, wire.KV{"session", drv.Pick(rng, []string{"s-1", "a:b\\", "x\ny"})})
	}
	if rng.Intn(2) == 0 {
		hd = append(hd, wire.KV{"server", drv.Pick(rng, []string{"mem/1.0", "a:b\\", "RabbitMQ/3"})})
	}
	if r.pr.HB || r.pr.Hand && rng.Intn(2) == 0 {
		v := []int{0, 100, 250, 1000, 30000}
		sx, sy := drv.Pick(rng, v), drv.Pick(rng, v)
		if r.pr.Hand {
			sx = drv.Pick(rng, []int{0, 60000, 200000})
			sy = drv.Pick(rng, []int{0, 60000, 30000})
		}
		if rng.Intn(8) > 0 {
			hd = append(hd, wire.KV{"heart-beat", fmt.Sprintf("%d,%d", sx, sy)})
			if sx > 0 && o.recv > 0 {
				r.rlim = max(ms(sx), o.recv)
			}
		}
	}
	if rng.Intn(4) == 0 {
		hd = append(hd, wire.KV{"user-name", drv.Pick(rng, drv.Nasty)})
	}
	switch kind {
	case "version":
		hd = append([]wire.KV{{"version", drv.Pick(rng, []string{"1.3", "2.0", "1", "1.20", "1.2,1.1", "v1.1", "1.1 "})}}, hd...)
	case "hb":
		hd = append([]wire.KV{{"heart-beat", drv.Pick(rng, []string{"1", "a,b", "1,2,3", "-1,2", "1,", "", "1, 2", "0x1,2"})}}, hd...)
	}
	rng.Shuffle(len(hd), func(i, j int) {
		if kind == "ok" {
			hd[i], hd[j] = hd[j], hd[i]
		}
	})
	f.H = hd
	if rng.Intn(8) == 0 {
		f.Body = []byte("hello")
	}
	switch kind {
	case "ok", "version", "hb":
		r.srv(f)
	case "wfail":
		r.srv(f)
	case "error":
		e := wire.F("ERROR")
		if rng.Intn(4) > 0 {
			e.Add("message", drv.Pick(rng, []string{"go away", "no:pe\\", "bad login"}))
		}
		e.Body = []byte("details")
		r.srv(e)
	case "other":
		r.srv(wire.F(drv.Pick(rng, []string{"RECEIPT", "MESSAGE"}), "version", "1.2", "message", "m"))
	case "eof":
		r.srvEOF()
	case "reset":
		r.srvReset()
	case "garbage":
		r.srvGarbage()
	case "late", "silent":
		if o.deadline == 0 || o.bare {
			r.quiet()
			time.Sleep(ms(5000))
			r.quiet()
			r.srvEOF()
			break
		}
		time.Sleep(o.deadline - 50*time.Millisecond)
		r.quiet()
		time.Sleep(100 * time.Millisecond)
		r.quiet()
		if kind == "late" {
			r.srv(f)
		}
		r.quiet()
	}
	r.quiet()
	select {
	case ok := <-done:
		if ok && r.pr.Hand && o.deadline > 0 && rng.Intn(2) == 0 {
			time.Sleep(o.deadline) // a deadline that is over
		}
		return ok
	default:
	}
	return false
}

func (r *Rig) dest() string {
	d := []string{"/queue/a", "/topic/b", "/queue/c"}
	if r.p(r.pr.Special) {
		d = append(drv.Nasty[:0:0], drv.Nasty...)
	}
	return drv.Pick(r.rng, d)
}

// body makes unique content.
func (r *Rig) body() []byte {
	r.mu.Lock()
	r.nm++
	n := r.nm
	r.mu.Unlock()
	b := fmt.Sprintf("p%d", n)
	if r.p(r.pr.Special) {
		switch r.rng.Intn(4) {
		case 0:
			b += "\x00\n\x00"
		case 1:
			b += "\n\n\r\n"
		case 2:
			x := make([]byte, 4000+r.rng.Intn(5000))
			r.rng.Read(x)
			b += string(x)
		}
	}
	return []byte(b)
}

// ids of the program's own choice
var own = []string{"s1", "s2", "a:b\\", "mine", "mine2"}

var hdrNames = []string{"x-a", "x-b", "persistent", "a:b", "back\\slash", "receipt-id", "subscription", "id", "ack"}

func (r *Rig) sendOpts(tx bool) (o []Opt) {
	rng := r.rng
	if r.p(r.pr.Special) {
		for i := rng.Intn(4); i > 0; i-- {
			o = append(o, Opt{"hdr", drv.Pick(rng, hdrNames), drv.Pick(rng, drv.Nasty)})
		}
		switch rng.Intn(8) {
		case 0:
			o = append(o, Opt{"set", "x-a", "set"})
		case 1:
			o = append(o, Opt{"del", "x-a", ""})
		case 2:
			o = append(o, Opt{"nil"})
		case 3:
			o = append(o, Opt{"set", "content-type", "text/x"})
		case 4:
			if tx {
				o = append(o, Opt{"hdr", "transaction", "mine"})
			}
		}
	}
	if r.p(r.pr.Receipt) {
		if r.p(r.pr.Own) {
			id := drv.Pick(rng, own)
			r.mu.Lock()
			r.rcUsed[id] = true
			r.mu.Unlock()
			o = append(o, Opt{"hdr", "receipt", id})
		} else {
			o = append(o, Opt{"receipt"})
		}
	}
	if r.p(r.pr.Bad) {
		o = append(o, drv.Pick(rng, []Opt{{"err"}, {"wrong", fmt.Sprint(rng.Intn(8))}}))
	}
	return
}

func (r *Rig) send(tx *Tx) func() {
	b := r.body()
	o := r.sendOpts(tx != nil)
	if r.rng.Intn(8) == 0 {
		nul := false
		for _, x := range b {
			nul = nul || x == 0
		}
		if !nul {
			o = append(o, Opt{"nocl"})
		}
	}
	d, ct := r.dest(), drv.Pick(r.rng, []string{"", "text/plain", "a:b"})
	return func() { r.Send(tx, d, ct, b, o) }
}

func (r *Rig) room() bool { r.mu.Lock(); defer r.mu.Unlock(); return r.pending < r.pr.Conc }

func (r *Rig) pickTx() *Tx {
	r.mu.Lock()
	defer r.mu.Unlock()
	var c []*Tx
	for _, t := range r.txs {
		if !t.busy && (!t.done || r.rng.Intn(4) == 0) {
			c = append(c, t)
		}
	}
	if len(c) == 0 {
		return nil
	}
	t := c[r.rng.Intn(len(c))]
	t.busy = true
	return t
}

func (r *Rig) free(t *Tx) { r.mu.Lock(); t.busy = false; r.mu.Unlock() }

// pickMsg finds a received message.
func (r *Rig) pickMsg() (*Sub, *stomp.Message) {
	r.mu.Lock()
	defer r.mu.Unlock()
	var c []*Sub
	for _, s := range r.subs {
		if len(s.got) > 0 {
			c = append(c, s)
		}
	}
	if len(c) == 0 {
		return nil, nil
	}
	s := c[r.rng.Intn(len(c))]
	return s, s.got[r.rng.Intn(len(s.got))].m
}

// idUsed: some subscription of that id may still be there.
func (r *Rig) idUsed(id string) bool {
	for _, s := range r.subs {
		if s.id == id && !(s.unsub && s.closed) {
			return true
		}
	}
	return r.live[id] || r.resv[id]
}

func (r *Rig) newest(id string) *Sub {
	for i := len(r.subs) - 1; i >= 0; i-- {
		if r.subs[i].id == id {
			return r.subs[i]
		}
	}
	return nil
}

func (r *Rig) subscribe(dup bool) func() {
	rng := r.rng
	var o []Opt
	mode := drv.Pick(rng, []stomp.AckMode{stomp.AckAuto, stomp.AckClient, stomp.AckClientIndividual})
	how := drv.Pick(rng, r.pr.Hows)
	if r.p(r.pr.Special) && rng.Intn(2) == 0 {
		o = append(o, Opt{"hdr", drv.Pick(rng, []string{"selector", "a:b", "prefetch"}), drv.Pick(rng, drv.Nasty)})
	}
	if rng.Intn(12) == 0 {
		o = append(o, Opt{"hdr", "receipt", "sr" + strconv.Itoa(rng.Intn(3))})
	}
	mine := ""
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.p(r.pr.Reply) && !dup {
		r.nrep++
		id := fmt.Sprintf("/temp-queue/%d", r.nrep)
		o = append(o, Opt{"hdr", "reply-to", id})
	} else if r.p(r.pr.Own) || dup {
		id := drv.Pick(rng, own)
		if r.idUsed(id) == dup {
			mine = id
			r.resv[id] = true
			o = append(o, Opt{"id", id})
		} else if dup {
			return nil
		}
	}
	if r.p(r.pr.Bad) {
		o = append(o, drv.Pick(rng, []Opt{{"err"}, {"wrong", fmt.Sprint(rng.Intn(8))}, {"nil"}}))
	}
	if rng.Intn(10) == 0 {
		o = append(o, Opt{"nil"})
	}
	d := r.dest()
	return func() {
		if r.Subscribe(d, mode, o, how) == nil && mine != "" {
			r.mu.Lock()
			delete(r.resv, mine)
			r.mu.Unlock()
		}
	}
}

func (r *Rig) pickSub(f func(*Sub) bool) *Sub {
	r.mu.Lock()
	defer r.mu.Unlock()
	var c []*Sub
	for _, s := range r.subs {
		if f(s) {
			c = append(c, s)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[r.rng.Intn(len(c))]
}

// message is a MESSAGE for a subscription id.
func (r *Rig) message(id string) *wire.Frame {
	rng := r.rng
	b := r.body()
	r.mu.Lock()
	n := r.nm
	r.mu.Unlock()
	f := wire.F("MESSAGE", "subscription", id, "message-id", fmt.Sprintf("m%d", n), "destination", r.dest())
	if rng.Intn(2) == 0 || r.ver == "1.2" && rng.Intn(8) > 0 {
		f.Add("ack", drv.Pick(rng, []string{fmt.Sprintf("a%d", n), fmt.Sprintf("a:%d\\", n)}))
	}
	if r.p(r.pr.Special) {
		for i := rng.Intn(4); i > 0; i-- {
			f.Add(drv.Pick(rng, []string{"x-a", "x-b", "a:b", "x-a", "message-id", "content-type", "receipt-id"}), drv.Pick(rng, drv.Nasty))
		}
		if rng.Intn(12) == 0 {
			f.H = append(f.H[:1:1], f.H[2:]...) // no message-id
		}
	}
	rng.Shuffle(len(f.H), func(i, j int) { f.H[i], f.H[j] = f.H[j], f.H[i] })
	nul := false
	for _, x := range b {
		nul = nul || x == 0
	}
	if nul || rng.Intn(2) == 0 {
		f.Add("content-length", strconv.Itoa(len(b)))
	}
	f.Body = b
	if rng.Intn(10) == 0 {
		f.Body = nil
		f.H = f.H[:len(f.H):len(f.H)]
		for i, e := range f.H {
			if e[0] == "content-length" {
				f.H[i][1] = "0"
				_ = e
			}
		}
	}
	return f
}

// target finds a subscription that a message can be sent to now.
func (r *Rig) target() *Sub {
	r.mu.Lock()
	defer r.mu.Unlock()
	var c []*Sub
	for i, s := range r.subs {
		if r.newestAt(i) && !r.resv[s.id] && (r.live[s.id] && !s.reply || s.reply && s.ready && !s.unsub) && !(s.lazy && s.sent >= r.lazyMax) {
			c = append(c, s)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[r.rng.Intn(len(c))]
}

func (r *Rig) newestAt(i int) bool {
	for _, s := range r.subs[i+1:] {
		if s.id == r.subs[i].id {
			return false
		}
	}
	return true
}

func (r *Rig) op(op string) {
	rng := r.rng
	call := func(f func()) {
		if f != nil && r.room() {
			go f()
		}
	}
	switch op {
	case "send":
		call(r.send(nil))
	case "batch":
		if !r.room() {
			return
		}
		var fs []func()
		for i := 2 + rng.Intn(6); i > 0; i-- {
			switch rng.Intn(8) {
			case 0:
				fs = append(fs, func() { r.Begin(false) })
			case 1:
				s, m := r.pickMsg()
				if m != nil {
					a := rng.Intn(3) > 0
					fs = append(fs, func() { r.Ack(a, nil, s, m) })
				}
			case 2:
				if r.pr.Reply > 0 {
					fs = append(fs, r.subscribe(false))
				}
			default:
				fs = append(fs, r.send(nil))
			}
		}
		go func() {
			for _, f := range fs {
				f()
			}
		}()
	case "sub":
		call(r.subscribe(false))
	case "dup":
		if r.stalled {
			return
		}
		r.quiet()
		call(r.subscribe(true))
		r.quiet()
	case "unsub":
		s := r.pickSub(func(s *Sub) bool { return !s.unsub || rng.Intn(5) == 0 })
		if s == nil {
			return
		}
		var o []Opt
		if rng.Intn(4) == 0 {
			o = append(o, Opt{"hdr", drv.Pick(rng, []string{"x", "receipt", "durable", "id"}), drv.Pick(rng, []string{"y", "a:b", "1"})})
		}
		if r.p(r.pr.Bad) {
			o = append(o, drv.Pick(rng, []Opt{{"err"}, {"wrong", fmt.Sprint(rng.Intn(8))}, {"nil"}}))
		}
		if s.reply {
			r.quiet()
		}
		r.mu.Lock()
		r.rcUsed[s.id] = true
		r.mu.Unlock()
		call(func() { r.Unsubscribe(s, o) })
		if s.reply {
			r.quiet()
		}
	case "active":
		s := r.pickSub(func(s *Sub) bool { return true })
		if s != nil {
			call(func() { r.Active(s) })
		}
	case "ack", "nack":
		if s, m := r.pickMsg(); m != nil {
			call(func() { r.Ack(op == "ack", nil, s, m) })
		}
	case "foreign":
		m := drv.Pick(rng, []*stomp.Message{{}, {Header: frame.NewHeader("message-id", "1", "ack", "1"), Conn: r.conn}, {Conn: r.conn},
			{Header: frame.NewHeader("message-id", "1", "ack", "1")}})
		call(func() { r.Ack(rng.Intn(2) == 0, nil, nil, m) })
	case "begin":
		pl := rng.Intn(3) == 0
		call(func() { r.Begin(pl) })
	case "txsend", "txack", "endtx":
		if !r.room() {
			return
		}
		t := r.pickTx()
		if t == nil {
			return
		}
		var f func()
		switch op {
		case "txsend":
			f = r.send(t)
		case "txack":
			s, m := r.pickMsg()
			a := rng.Intn(3) > 0
			if m != nil {
				f = func() { r.Ack(a, t, s, m) }
			}
		case "endtx":
			c, rc := rng.Intn(2) == 0, rng.Intn(2) == 0
			f = func() { r.EndTx(t, c, rc) }
		}
		go func() {
			if f != nil {
				f()
			}
			r.free(t)
		}()
	case "vsend": // many calls, one after the other
		var fs []func()
		for i := 80 + rng.Intn(170); i > 0; i-- {
			fs = append(fs, r.send(nil))
		}
		go r.autoServer()
		go func() {
			for _, f := range fs {
				f()
			}
		}()
		r.quiet()
	case "vrcpt": // many calls that wait at the same time
		r.pr.Receipt = 1
		for i := 40 + rng.Intn(90); i > 0; i-- {
			go r.send(nil)()
			if rng.Intn(4) == 0 {
				r.gap()
			}
		}
		r.quiet()
		for r.nwaits() > 0 && rng.Intn(150) > 0 {
			r.answer(rng.Intn(r.nwaits()))
			if rng.Intn(4) == 0 {
				r.gap()
			}
		}
		r.quiet()
	case "vsub": // many subscriptions
		n := 70 + rng.Intn(60)
		for i := 0; i < n; i++ {
			call(r.subscribe(false))
			if rng.Intn(4) == 0 {
				r.gap()
			}
		}
		r.quiet()
		for i := 0; i < n; i++ {
			r.op("msg")
		}
		r.quiet()
		go r.autoServer()
		for i := 0; i < n/2; i++ {
			r.op("unsub")
			r.gap()
			r.op("msg")
		}
		r.quiet()
	case "vmsg": // many messages
		for i := rng.Intn(3); i >= 0; i-- {
			call(r.subscribe(false))
		}
		r.quiet()
		for i := 100 + rng.Intn(200); i > 0; i-- {
			r.op("msg")
		}
		r.quiet()
	case "vtx": // long transactions, and many
		r.pr.Receipt = 0
		for i := 5 + rng.Intn(60); i > 0; i-- {
			r.Begin(false)
		}
		for i := 70 + rng.Intn(80); i > 0; i-- {
			if t := r.pickTx(); t != nil && !t.done {
				r.send(t)()
				r.free(t)
			} else if t != nil {
				r.free(t)
			}
		}
		r.quiet()
		for i := 10 + rng.Intn(60); i > 0; i-- {
			r.op("endtx")
			r.gap()
		}
		r.quiet()
	case "msg":
		if s := r.target(); s != nil {
			s.sent++
			r.srv(r.message(s.id))
		}
	case "burst":
		for i := 3 + rng.Intn(30); i > 0; i-- {
			if s := r.target(); s != nil {
				s.sent++
				r.srv(r.message(s.id))
			}
		}
	case "unk":
		switch rng.Intn(3) {
		case 0:
			f := r.message("x")
			for i, e := range f.H {
				if e[0] == "subscription" {
					f.H = append(f.H[:i:i], f.H[i+1:]...)
					break
				}
			}
			r.srv(f)
		default:
			r.srv(r.message(drv.Pick(rng, []string{"nobody", "0", "", "999999999"})))
		}
	case "answer":
		if n := r.nwaits(); n > 0 {
			i := 0
			if rng.Intn(3) == 0 {
				i = rng.Intn(n)
			}
			r.answer(i)
		}
	case "badrc":
		id := drv.Pick(rng, []string{"nobody", "0", ""})
		r.mu.Lock()
		// a subscription's id, or an old receipt, but none that a frame
		// under way could ask for
		if len(r.acked) > 0 && rng.Intn(2) == 0 {
			id = drv.Pick(rng, r.acked)
		}
		sub := false
		if len(r.subs) > 0 && rng.Intn(2) == 0 && !r.stalled {
			sub = true
			id = drv.Pick(rng, r.subs).id
		}
		if r.rcUsed[id] {
			id = "nobody"
		}
		for _, w := range r.waits {
			if w.id == id {
				id = "nobody"
			}
		}
		r.mu.Unlock()
		r.srv(wire.F("RECEIPT", "receipt-id", id))
		if sub { // it must have been dealt with before it could mean anything
			r.quiet()
		}
	case "stall":
		r.stall(!r.stalled)
	case "sleep":
		if r.pr.HB {
			time.Sleep(ms(drv.Pick(rng, []int{20, 40, 60, 90, 130, 260, 400, 900})))
		} else {
			if !r.setT && rng.Intn(2) == 0 { // the defaults
				time.Sleep(ms(drv.Pick(rng, []int{10500, 31000, 41000})))
				return
			}
			time.Sleep(ms(drv.Pick(rng, []int{1, 50, 70, 120, 180, 240, 3000, 11000, 31000})))
		}
	case "choke": // the network takes nothing for a while
		r.stall(true)
		n := 3 + rng.Intn(6)
		if rng.Intn(2) == 0 {
			n += 20
		}
		for ; n > 0; n-- {
			call(r.send(nil))
		}
		drv.Settle()
		time.Sleep(ms(drv.Pick(rng, []int{0, 65, 120, 180, 240, 2100, 12000})))
		if rng.Intn(2) == 0 {
			r.quiet()
		}
		if rng.Intn(4) > 0 {
			r.stall(false)
		}
	case "pace": // the server is just quick enough
		if r.rlim == 0 {
			r.srvBeat()
			return
		}
		if rng.Intn(2) == 0 { // and the program is not
			r.quiet()
			if s := r.pickSub(func(s *Sub) bool { return s.lazy }); s != nil {
				for i := 17 + rng.Intn(3); i > 0; i-- {
					s.sent++
					r.srv(r.message(s.id))
				}
				defer r.quiet()
				defer r.Drain(s)
			}
		}
		for i := 1 + rng.Intn(4); i > 0; i-- {
			time.Sleep(r.rlim * time.Duration(30+rng.Intn(68)) / 100)
			if s := r.target(); s != nil && rng.Intn(3) == 0 {
				s.sent++
				r.srv(r.message(s.id))
			} else {
				r.srvBeat()
			}
		}
	case "quiet":
		r.quiet()
	case "beat":
		r.srvBeat()
	case "drain":
		if s := r.pickSub(func(s *Sub) bool { return s.lazy }); s != nil {
			r.Drain(s)
		}
	}
}

// autoServer answers by itself.
func (r *Rig) autoServer() {
	rng := rand.New(rand.NewSource(r.rng.Int63()))
	for range r.notify {
		for !r.stop && r.nwaits() > 0 {
			if rng.Intn(3) == 0 {
				time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
			}
			if r.nwaits() > 0 {
				r.answer(0)
			}
		}
	}
}

func errorFrame(r *Rig) *wire.Frame {
	e := wire.F("ERROR")
	if r.rng.Intn(5) > 0 {
		e.Add("message", drv.Pick(r.rng, []string{"broken", "no:pe\\", "it is\nover"}))
	}
	if r.rng.Intn(2) == 0 {
		e.Add("content-type", "text/plain")
	}
	e.Body = []byte("why")
	return e
}

// finish ends the connection.
func (r *Rig) finish(kind string) {
	rng := r.rng
	async := func(f func()) { go f() }
	switch kind {
	case "disc", "disc0", "discerr":
		async(r.Disconnect)
		if rng.Intn(3) == 0 {
			async(r.send(nil))
		}
		if rng.Intn(3) == 0 {
			r.gap()
			async(r.Disconnect)
		}
		if r.stalled && rng.Intn(4) > 0 {
			r.gap()
			r.stall(false)
		}
		r.quiet()
		switch kind {
		case "disc":
			for i := 0; i < 100 && r.nwaits() > 0; i++ {
				r.answer(0)
			}
			r.quiet()
		case "discerr":
			switch rng.Intn(3) {
			case 0:
				r.srv(errorFrame(r))
			case 1:
				r.srvEOF()
			case 2:
				r.srvReset()
			}
			r.quiet()
		case "disc0":
			time.Sleep(ms(drv.Pick(rng, []int{50, 100, 150})))
			r.quiet()
		}
	case "must":
		async(r.MustDisconnect)
		if rng.Intn(3) == 0 {
			async(r.Disconnect)
		}
	case "error":
		r.srv(errorFrame(r))
		r.ended = rng.Intn(2) == 0
	case "eof":
		r.srvEOF()
	case "reset":
		r.srvReset()
	case "garbage":
		r.srvGarbage()
	case "noid":
		r.srv(wire.F("RECEIPT", "x", "y"))
	case "wfail":
		r.link.FailWrites(int64(rng.Intn(200)), func() {})
		for i := 0; i < 8; i++ {
			r.op("send")
			r.gap()
		}
		r.quiet()
		r.srvReset()
	case "silent":
		r.quiet()
		for i := 0; i < 12; i++ {
			time.Sleep(ms(drv.Pick(rng, []int{60, 150, 400, 1500})))
			r.quiet()
		}
		r.op("sleep")
	case "race":
		acts := []func(){r.Disconnect, r.MustDisconnect, r.Disconnect, func() { r.srv(errorFrame(r)) }, r.srvEOF, r.srvReset, r.send(nil), r.send(nil)}
		rng.Shuffle(len(acts), func(i, j int) { acts[i], acts[j] = acts[j], acts[i] })
		for _, f := range acts[:2+rng.Intn(4)] {
			f := f
			go f()
			r.gap()
		}
	}
}

// Random makes and runs one scenario.
func Random(seed int64, fam string, nsites int) *Rig {
	r := NewRig(seed, fam)
	r.pr = Profiles[fam]
	pr := &r.pr
	if pr.Conc == 0 {
		pr.Conc = 8
	}
	// a little of everything in every family
	pr.Reply, pr.Special, pr.Own, pr.Bad = max(pr.Reply, .1), max(pr.Special, .1), max(pr.Own, .1), max(pr.Bad, .02)
	r.mkLink()
	drv.Settle()
	r.base = drv.Goroutines("cli.(*Rig)")
	plan := drv.Plan(r.rng, nsites)
	vsched.Start(seed, plan)
	ok := r.shake()
	if !ok {
		if r.rng.Intn(2) == 0 {
			time.Sleep(20 * time.Second)
		}
		r.quiet()
		r.leak()
		return r
	}
	rng := r.rng
	if r.p(r.pr.Auto) {
		go r.autoServer()
	}
	n := r.pr.Ops[0] + rng.Intn(r.pr.Ops[1]-r.pr.Ops[0]+1)
	// some groundwork
	for i := rng.Intn(3); i > 0; i-- {
		r.op("sub")
		r.gap()
	}
	if r.pr.W["begin"] > 4 {
		r.op("begin")
	}
	if rng.Intn(2) == 0 {
		r.quiet()
	}
	for i := 0; i < n; i++ {
		if r.stalled && rng.Intn(6) == 0 {
			r.stall(false)
		}
		if rng.Intn(60) == 0 && r.p(r.pr.Early) {
			break
		}
		r.op(drv.Weighted(rng, r.pr.W, order))
		r.gap()
	}
	if !r.p(r.pr.Early) {
		r.stall(false)
		r.quiet()
		if rng.Intn(2) == 0 {
			for i := 0; i < 60 && r.nwaits() > 0; i++ {
				r.answer(0)
			}
			r.quiet()
		}
	}
	kind := drv.Weighted(rng, r.pr.Ends, endOrder)
	r.finish(kind)
	r.gap()
	for i := rng.Intn(6); i > 0; i-- {
		r.op(drv.Pick(rng, []string{"send", "send", "sub", "unsub", "ack", "nack", "begin", "endtx", "txsend", "active"}))
		r.gap()
	}
	if rng.Intn(3) == 0 {
		go r.Disconnect()
	}
	r.wrapUp()
	return r
}

// wrapUp brings everything to an end.
func (r *Rig) wrapUp() {
	rng := r.rng
	r.quiet()
	r.stall(false)
	r.quiet()
	time.Sleep(ms(drv.Pick(rng, []int{100, 300})))
	r.quiet()
	// anything that is still there now is closed for good
	if !r.isClosed() {
		if rng.Intn(2) == 0 {
			r.srvEOF()
		} else {
			go r.MustDisconnect()
		}
		r.quiet()
	}
	for i := rng.Intn(4); i > 0; i-- {
		r.op(drv.Pick(rng, []string{"send", "sub", "unsub", "ack", "nack", "begin", "endtx", "active"}))
	}
	if rng.Intn(3) == 0 {
		go r.Disconnect()
	}
	if rng.Intn(3) == 0 {
		go r.MustDisconnect()
	}
	r.quiet()
	r.mu.Lock()
	ss := append([]*Sub{}, r.subs...)
	r.mu.Unlock()
	for _, s := range ss {
		r.Drain(s)
	}
	r.quiet()
	time.Sleep(45 * time.Second)
	r.quiet()
	for _, s := range ss {
		for _, g := range s.got {
			r.add(wire.Ev{"e": "again", "n": g.n, "h": hj(g.m.Header), "b": wire.Digest(g.m.Body)})
		}
	}
	r.leak()
	r.stop = true
}

func (r *Rig) isClosed() bool { r.mu.Lock(); defer r.mu.Unlock(); return r.nclosed }

func (r *Rig) leak() {
	drv.Settle()
	n := drv.Goroutines("cli.(*Rig)") - r.base
	if n < 0 {
		n = 0
	}
	r.add(wire.Ev{"e": "leak", "n": n})
}
