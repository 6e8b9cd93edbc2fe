package cli

import (
	"encoding/json"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/go-stomp/stomp/v3"

	"verif/drv"
	"verif/vsched"
	"verif/wire"
)

// Script is a history of what a program and a server do, generated from the
// model: steps, each with an argument, which is the number of a call (the
// first after Connect is 2).
type Script struct {
	Acts [][]string `json:"acts"`
}

func ParseScript(b []byte) (s Script, err error) {
	err = json.Unmarshal(b, &s)
	return
}

// scripted remembers what the calls of a script were.
type scripted struct {
	*Rig
	n    int
	sub  map[int]*Sub
	tx   map[int]*Tx
	asks map[int]func(f *wire.Frame) bool // is f the frame with which call n asks for a receipt?
	how  string
}

// Scripted replays a script into the real library.
func Scripted(seed int64, fam string, nsites int, sc Script) *Rig {
	r := NewRig(seed, fam)
	r.pr = Profiles["CF"]
	r.pr.Conc = 100
	r.mkLink()
	drv.Settle()
	r.base = drv.Goroutines("cli.(*Rig)")
	p := vsched.Plan{Max: 1}
	if r.rng.Intn(3) > 0 {
		p = drv.Plan(r.rng, nsites)
	}
	vsched.Start(r.rng.Int63(), p)
	s := &scripted{Rig: r, n: 1, sub: map[int]*Sub{}, tx: map[int]*Tx{}, asks: map[int]func(*wire.Frame) bool{}}
	s.how = drv.Pick(r.rng, []string{"chan", "chan", "read"})
	for _, a := range sc.Acts {
		if a[0] == "read" {
			s.how = "manual"
		}
	}
	if len(sc.Acts) > 0 && sc.Acts[0][0] == "HAND" {
		if !s.hand(sc.Acts[0][1:]) {
			if r.rng.Intn(2) == 0 {
				time.Sleep(20 * time.Second)
			}
			r.quiet()
			r.leak()
			return r
		}
		sc.Acts = nil
	} else if !s.up() {
		panic("no connection")
	}
	step := drv.Pick(r.rng, []float64{1, 1, .5, 0}) // how often to let things settle
	for _, a := range sc.Acts {
		s.act(a)
		if r.rng.Float64() < step {
			r.quiet()
		}
	}
	r.quiet()
	r.wrapUp()
	return r
}

// up connects, without heart-beats.
func (s *scripted) up() bool {
	o := &CO{mul10: 10, hb: true, bare: s.rng.Intn(6) == 0, stats: s.rng.Intn(5) == 0, versions: []string{"1.2"}}
	if s.rng.Intn(3) == 0 {
		o.rcap, o.wcap = 1+s.rng.Intn(3), 1+s.rng.Intn(3)
	}
	done := make(chan bool, 1)
	go func() { done <- s.Connect(o, s.dial(o)) }()
	drv.Settle()
	s.srv(wire.F("CONNECTED", "version", "1.2"))
	s.quiet()
	return <-done
}

// until lets things settle if that is needed for ok to hold, and returns it.
func (s *scripted) until(ok func() bool) bool {
	look := func() bool { s.mu.Lock(); defer s.mu.Unlock(); return ok() }
	if look() {
		return true
	}
	s.quiet()
	return look()
}

func (s *scripted) act(a []string) {
	rng := s.rng
	arg := 0
	if len(a) > 1 {
		arg, _ = strconv.Atoi(a[1])
	}
	// a call of the program; done is called after it, with the mutex held
	call := func(f func(n int)) {
		s.n++
		n := s.n
		go f(n)
	}
	body := []byte("b" + strconv.Itoa(s.n+1))
	opts := []Opt{}
	tx := func(f func(t *Tx)) *Tx {
		var t *Tx
		ok := s.until(func() bool { t = s.tx[arg]; return t != nil && !t.busy })
		if ok {
			s.mu.Lock()
			t.busy = true
			s.mu.Unlock()
		}
		call(func(int) {
			if ok {
				f(t)
				s.free(t)
			}
		})
		if !ok {
			return nil
		}
		return t
	}
	asks := func(f func(f *wire.Frame) bool) { s.asks[s.n] = f }
	switch a[0] {
	case "sendr":
		opts = []Opt{{"receipt"}}
		fallthrough
	case "send":
		call(func(int) { s.Send(nil, "/q", "", body, opts) })
		asks(func(f *wire.Frame) bool { return f.Cmd == "SEND" && string(f.Body) == string(body) })
	case "sub", "subc":
		mode := stomp.AckAuto
		if a[0] == "subc" {
			mode = drv.Pick(rng, []stomp.AckMode{stomp.AckClient, stomp.AckClientIndividual})
		}
		call(func(n int) {
			x := s.Subscribe("/q", mode, nil, s.how)
			s.mu.Lock()
			s.sub[n] = x
			s.mu.Unlock()
		})
	case "unsub", "active":
		var x *Sub
		s.until(func() bool { x = s.sub[arg]; return x != nil })
		call(func(int) {
			if x == nil {
				return
			}
			if a[0] == "active" {
				s.Active(x)
			} else {
				s.Unsubscribe(x, nil)
			}
		})
		if x != nil && a[0] == "unsub" {
			asks(func(f *wire.Frame) bool { return f.Cmd == "UNSUBSCRIBE" && f.Val("id") == x.id })
		}
	case "read":
		var x *Sub
		if s.until(func() bool { x = s.sub[arg]; return x != nil }) {
			s.Drain(x)
		}
	case "begin":
		call(func(n int) {
			t := s.Begin(rng.Intn(8) == 0)
			s.mu.Lock()
			s.tx[n] = t
			s.mu.Unlock()
		})
	case "txsend":
		tx(func(t *Tx) { s.Send(t, "/q", "", body, opts) })
	case "commit", "commitr", "abort":
		rc := a[0] == "commitr" || a[0] == "abort" && rng.Intn(8) == 0
		cmd := "COMMIT"
		if a[0] == "abort" {
			cmd = "ABORT"
		}
		if t := tx(func(t *Tx) { s.EndTx(t, cmd == "COMMIT", rc) }); t != nil && rc {
			id := t.t.Id()
			asks(func(f *wire.Frame) bool { return f.Cmd == cmd && f.Val("transaction") == id })
		}
	case "ack", "nack":
		var x *Sub
		var g *Got
		s.until(func() bool {
			// the message that was received as the arg-th
			type got struct {
				s *Sub
				g *Got
			}
			var all []got
			for _, y := range s.subs {
				for _, z := range y.got {
					all = append(all, got{y, z})
				}
			}
			sort.Slice(all, func(i, j int) bool { return all[i].g.n < all[j].g.n })
			if arg <= len(all) {
				x, g = all[arg-1].s, all[arg-1].g
			}
			return g != nil
		})
		call(func(int) {
			if g != nil {
				s.Ack(a[0] == "ack", nil, x, g.m)
			}
		})
	case "disc":
		call(func(int) { s.Disconnect() })
		asks(func(f *wire.Frame) bool { return f.Cmd == "DISCONNECT" })
	case "must":
		call(func(int) { s.MustDisconnect() })
	case "msg":
		var x *Sub
		if s.until(func() bool { x = s.sub[arg]; return x != nil && (s.live[x.id] || x.unsub) }) {
			s.nm++
			f := wire.F("MESSAGE", "destination", "/q", "subscription", x.id, "message-id", strconv.Itoa(s.nm))
			if x.mode != stomp.AckAuto {
				f.Add("ack", "a"+strconv.Itoa(s.nm))
			}
			f.Body = []byte("m" + strconv.Itoa(s.nm))
			s.srv(f)
		}
	case "rcpt":
		id := ""
		if s.until(func() bool {
			for _, f := range s.asked {
				if s.asks[arg] != nil && s.asks[arg](f) {
					id, _ = f.Get("receipt")
				}
			}
			return id != ""
		}) {
			s.srv(wire.F("RECEIPT", "receipt-id", id))
		}
	case "odd":
		s.srv(wire.F("RECEIPT", "receipt-id", drv.Pick(rng, []string{"nobody", "0", ""})))
	case "err":
		s.srv(errorFrame(s.Rig))
	case "eof":
		s.srvEOF()
	case "reset":
		s.srvReset()
	case "tick":
		time.Sleep(40 * time.Second)
	default:
		panic("script action " + a[0])
	}
}

// hand connects as the model says, to a server that answers as it says.
func (s *scripted) hand(a []string) bool {
	atoi := func(v string) int { n, _ := strconv.Atoi(v); return n }
	val := func(v string) string {
		if v == "-" {
			return ""
		}
		return v
	}
	o := &CO{mul10: 10, hb: true, stompCmd: a[0] == "STOMP", host: val(a[1]), stats: s.rng.Intn(5) == 0}
	o.login = map[string]string{"both": "scott", "user": "scott"}[a[2]]
	o.pass = map[string]string{"both": "tiger", "pass": "tiger"}[a[2]]
	o.send, o.recv = ms(atoi(a[3])), ms(atoi(a[4]))
	if o.send == time.Minute && o.recv == time.Minute && s.rng.Intn(2) == 0 {
		o.hb = false // the default
	}
	if a[5] != "1.0,1.1,1.2" || s.rng.Intn(2) == 0 {
		o.versions = strings.Split(a[5], ",")
	}
	o.hdr = map[string][]Opt{
		"none": nil, "nonce": {{"hdr", "nonce", "1"}}, "host": {{"hdr", "host", "other"}}, "beat": {{"hdr", "heart-beat", "7,7"}},
		"twice": {{"hdr", "nonce", "1"}, {"hdr", "nonce", "2"}}, "user": {{"hdr", "login", "eve"}}, "accept": {{"hdr", "accept-version", "1.0"}},
	}[a[6]]
	o.cb, o.badOpt, o.bare = a[7] == "y", a[8] == "y", a[10] == "y"
	if a[9] == "y" {
		o.deadline = time.Second
	}
	s.lazyMax = 14
	done := make(chan bool, 1)
	go func() { done <- s.Connect(o, s.dial(o)) }()
	drv.Settle()
	if s.rng.Intn(3) == 0 {
		time.Sleep(ms(s.rng.Intn(90)))
	}
	f := wire.F(a[11])
	for i, k := range []string{"version", "heart-beat", "session", "server", "message"} {
		if v := a[12+i]; v != "-" {
			f.Add(k, strings.Replace(v, "_", " ", -1))
		}
	}
	switch a[11] {
	case "eof":
		s.srvEOF()
	case "reset":
		s.srvReset()
	case "garbage":
		s.srvGarbage()
	case "silent", "late":
		if o.deadline == 0 || o.bare {
			s.quiet()
			time.Sleep(ms(5000))
			s.quiet()
			s.srvEOF()
			break
		}
		time.Sleep(o.deadline + 50*time.Millisecond)
		s.quiet()
		if a[11] == "late" {
			f.Cmd = "CONNECTED"
			s.srv(f)
		}
	default:
		s.srv(f)
	}
	s.quiet()
	select {
	case ok := <-done:
		return ok
	default:
		return false
	}
}
