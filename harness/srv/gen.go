package srv

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"verif/vsched"
	"verif/wire"
)

// Profile says what a random scenario is made of.
type Profile struct {
	W        map[string]int // weight of each operation
	Dests    []string
	Conns    [2]int // how many connections at first
	MaxConns int
	Ops      [2]int // number of operations
	Burst    int    // operations between two quiet points (about)
	Modes    []string
	Ids      []string
	Receipt  float64 // share of frames that ask for a receipt
	Special  float64 // share of messages with unusual headers or bodies
	Big      float64
	Storage  bool
	Auth     string
}

var qs = []string{"/queue/a", "/queue/b"}

func mix(base map[string]int, over map[string]int) map[string]int {
	m := map[string]int{}
	for k, v := range base {
		m[k] = v
	}
	for k, v := range over {
		m[k] = v
	}
	return m
}

var baseW = map[string]int{"send": 10, "sub": 6, "unsub": 2, "ack": 6, "nack": 2, "begin": 1, "txsend": 1,
	"txack": 0, "commit": 1, "abort": 0, "disc": 1, "drop": 1, "open": 2, "stall": 1, "resume": 3, "bad": 0, "hb": 1}

var modes = []string{"auto", "client", "client-individual"}

// Profiles of the scenario families.
var Profiles = map[string]Profile{
	"S01": {W: mix(baseW, map[string]int{"nack": 4, "unsub": 3, "drop": 3, "open": 4, "stall": 2}), Dests: qs[:1], Conns: [2]int{2, 3},
		MaxConns: 6, Ops: [2]int{10, 26}, Burst: 7, Modes: modes, Ids: []string{"1", "2"}, Receipt: .2},
	"S02": {W: mix(baseW, map[string]int{"send": 16, "nack": 4, "begin": 2, "txsend": 5, "commit": 3, "drop": 2}), Dests: []string{"/queue/a", "/queue/a", "/queue/b", "/queue/"}, Conns: [2]int{2, 3},
		MaxConns: 5, Ops: [2]int{12, 30}, Burst: 8, Modes: modes, Ids: []string{"1", "2"}, Receipt: .2},
	"S03": {W: mix(baseW, map[string]int{"sub": 8, "unsub": 4, "ack": 0, "nack": 0}), Dests: []string{"/topic/a", "/topic/queue/b", "t", "/Queue/c", "/queue", "/topic/a/", ""}, Conns: [2]int{2, 4},
		MaxConns: 6, Ops: [2]int{12, 30}, Burst: 8, Modes: modes, Ids: []string{"1", "2", "3"}, Receipt: .3},
	"S04": {W: mix(baseW, map[string]int{"ack": 14, "nack": 5, "reack": 4, "txack": 2, "begin": 2, "commit": 2, "send": 12, "drop": 0, "disc": 0, "stall": 0}), Dests: qs, Conns: [2]int{1, 3},
		MaxConns: 4, Ops: [2]int{14, 34}, Burst: 6, Modes: []string{"auto", "client", "client", "client-individual", "client-individual"}, Ids: []string{"1", "2", "3", "4"}, Receipt: .3},
	"S05": {W: mix(baseW, map[string]int{"begin": 7, "txsend": 10, "txack": 6, "commit": 5, "abort": 3, "badtx": 1, "send": 4, "drop": 1, "ack": 2}), Dests: []string{"/queue/a", "/topic/a"}, Conns: [2]int{2, 3},
		MaxConns: 6, Ops: [2]int{14, 34}, Burst: 7, Modes: modes, Ids: []string{"1", "2"}, Receipt: .4},
	"S06": {W: mix(baseW, map[string]int{"bad": 4, "open": 6, "disc": 3, "begin": 3, "txsend": 3, "commit": 2, "abort": 1, "badtx": 2}), Dests: []string{"/queue/a", "/topic/a"}, Conns: [2]int{2, 3},
		MaxConns: 9, Ops: [2]int{12, 30}, Burst: 6, Modes: modes, Ids: []string{"1", "2"}, Receipt: .8},
	"S07": {W: map[string]int{"shake": 10, "send": 2, "sub": 2, "again": 2}, Dests: []string{"/queue/a"}, Conns: [2]int{0, 1},
		MaxConns: 8, Ops: [2]int{5, 12}, Burst: 4, Modes: modes, Ids: []string{"1"}, Receipt: .4},
	"S08": {W: mix(baseW, map[string]int{"sub": 14, "unsub": 12, "send": 14, "nack": 2, "badsub": 1, "open": 3}), Dests: []string{"/queue/a", "/queue/b", "/topic/a", "/topic/b"}, Conns: [2]int{1, 3},
		MaxConns: 6, Ops: [2]int{14, 34}, Burst: 6, Modes: modes, Ids: []string{"1", "2", "x:y", "X:Y", ""}, Receipt: .4},
	"S09": {W: mix(baseW, map[string]int{"bad": 6, "raw": 5, "open": 9, "drop": 4, "badsub": 2, "badtx": 2, "stall": 3, "txsend": 2, "shake": 4}), Dests: []string{"/queue/a", "/topic/a"}, Conns: [2]int{2, 3},
		MaxConns: 11, Ops: [2]int{12, 32}, Burst: 6, Modes: modes, Ids: []string{"1", "2"}, Receipt: .3},
	"SB": {W: mix(baseW, map[string]int{"send": 3, "bulk": 8, "many": 4, "open": 5, "stall": 4, "resume": 2, "ack": 4, "disc": 0}), Dests: []string{"/queue/a", "/topic/a"}, Conns: [2]int{2, 3},
		MaxConns: 5, Ops: [2]int{5, 12}, Burst: 10, Modes: []string{"auto", "auto", "client", "client-individual"}, Ids: []string{"1", "2"}, Receipt: .2},
	// large numbers of everything
	"SV": {W: map[string]int{"flood": 3, "bulk": 3, "bulktx": 4, "many": 2, "manytx": 2, "wave": 4, "crowd": 4}, Dests: []string{"/queue/a", "/topic/a"}, Conns: [2]int{1, 2},
		MaxConns: 4, Ops: [2]int{1, 1}, Burst: 1, Modes: []string{"auto", "auto", "auto", "client", "client-individual"}, Ids: []string{"1", "2"}, Receipt: .1},
	"S10": {W: mix(baseW, map[string]int{"send": 18, "txsend": 4, "begin": 2, "commit": 2, "nack": 3, "sub": 8, "stall": 0}), Dests: []string{"/queue/a", "/topic/a", "/topic/b:\\c\n"}, Conns: [2]int{2, 3},
		MaxConns: 5, Ops: [2]int{12, 24}, Burst: 8, Modes: modes, Ids: []string{"1", "2", "a:b\\n"}, Receipt: .3, Special: .8, Big: .1},
	"S11": {W: mix(baseW, map[string]int{"send": 5, "sub": 4, "stall": 0, "disc": 1, "wait": 22, "beat": 9, "hb": 8, "slow": 2, "open": 5}), Dests: []string{"/queue/a", "/topic/a"}, Conns: [2]int{1, 2},
		MaxConns: 4, Ops: [2]int{10, 24}, Burst: 12, Modes: modes, Ids: []string{"1", "2"}, Receipt: .2},
	"S12": {W: mix(baseW, map[string]int{"send": 14, "nack": 4, "unsub": 3, "drop": 2, "open": 3}), Dests: []string{"/queue/a", "/queue/a/b", "/queue"}, Conns: [2]int{2, 3},
		MaxConns: 6, Ops: [2]int{12, 28}, Burst: 7, Modes: modes, Ids: []string{"1", "2"}, Receipt: .2, Storage: true, Special: .1},
}

func plan(rng *rand.Rand, nsites int) vsched.Plan {
	p := vsched.Plan{Max: int64(50 + rng.Intn(2000))}
	switch rng.Intn(6) {
	case 0:
	case 1, 2:
		p.Mode, p.P = "uniform", []float64{.01, .05, .2, .5}[rng.Intn(4)]
	case 3, 4:
		p.Mode = "sites"
		p.Sites = map[int]bool{}
		for i := 0; i <= rng.Intn(6); i++ {
			p.Sites[rng.Intn(nsites)] = true
		}
	case 5:
		p.Mode = "delays"
		p.At = map[int64]bool{}
		for i := 0; i <= rng.Intn(4); i++ {
			p.At[int64(rng.Intn(3000))] = true
		}
		p.Max = int64(1000 + rng.Intn(20000))
	}
	return p
}

var nasty = []string{"plain", "a:b", "back\\slash", "line\nfeed", "cr\rlf\r\n", "\\c\\n\\r\\\\", "", " lead trail ", "\x00nul", "\xff\xfe", "ünï", "\\", "\t", ":", "\\\\n"}

func pick[T any](rng *rand.Rand, s []T) T { return s[rng.Intn(len(s))] }

func (r *Rig) val() string {
	v := pick(r.rng, nasty)
	return strings.ReplaceAll(v, "\x00", "") // NUL inside headers is legal on the wire, kept out of content-free frames
}

// message makes a SEND frame with unique content.
func (r *Rig) message(pr *Profile, dest string) *wire.Frame {
	r.nmsg++
	f := wire.F("SEND")
	body := fmt.Sprintf("m%d", r.nmsg)
	f.Body = []byte(body)
	special := r.rng.Float64() < pr.Special
	if !special {
		f.Add("destination", dest)
		if r.rng.Intn(3) == 0 {
			f.Add("content-length", strconv.Itoa(len(body)))
		}
		return f
	}
	n := r.rng.Intn(4)
	if r.rng.Intn(6) == 0 {
		n = 20 + r.rng.Intn(20)
	}
	add := func() {
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("h%d%s", r.rng.Intn(4), strings.ReplaceAll(pick(r.rng, nasty), "\x00", "0"))
			f.Add(k, strings.ReplaceAll(pick(r.rng, nasty), "\x00", "0")+strconv.Itoa(r.nmsg))
		}
	}
	if r.rng.Intn(2) == 0 {
		add()
	}
	f.Add("destination", dest)
	if r.rng.Intn(2) == 0 {
		f.Add("content-type", pick(r.rng, []string{"text/plain", "application/json;charset=utf-8", ""}))
	}
	if r.rng.Intn(2) == 0 {
		add()
	}
	if r.rng.Intn(5) == 0 { // headers a server sets itself
		f.Add(pick(r.rng, []string{"message-id", "subscription", "ack", "id"}), "17")
	}
	if r.rng.Intn(6) == 0 {
		f.Add("destination", "/queue/elsewhere")
	}
	switch r.rng.Intn(5) {
	case 0:
		f.Body = nil
	case 1:
		f.Body = append([]byte("\x00\n\r:\\"), f.Body...)
	case 2:
		f.Body = append(f.Body, "\nwith\r\nlines\n"...)
	}
	if r.rng.Float64() < pr.Big {
		n := pick(r.rng, []int{4000, 4090, 4096, 4097, 8192, 70000})
		b := make([]byte, n+r.rng.Intn(8))
		for i := range b {
			b[i] = byte('a' + (i*7+r.nmsg)%26)
		}
		f.Body = b
	}
	nul := strings.IndexByte(string(f.Body), 0) >= 0
	if nul || r.rng.Intn(2) == 0 {
		f.Add("content-length", strconv.Itoa(len(f.Body)))
	}
	return f
}

func (r *Rig) receipt(pr *Profile, f *wire.Frame) *wire.Frame {
	if r.rng.Float64() < pr.Receipt {
		r.nmsg++
		id := fmt.Sprintf("r%d", r.nmsg)
		if r.rng.Intn(6) == 0 {
			id += r.val()
		}
		if r.rng.Intn(12) == 0 {
			id = "same"
		}
		if r.rng.Intn(25) == 0 {
			id = ""
		}
		f.Add("receipt", id)
	}
	return f
}

func (r *Rig) connect(p *Peer) {
	f := wire.F(pick(r.rng, []string{"CONNECT", "STOMP"}))
	p.ver = pick(r.rng, []string{"1.1", "1.2", "1.2"})
	av := p.ver
	switch {
	case p.ver == "1.2" && r.rng.Intn(2) == 0:
		av = pick(r.rng, []string{"1.0,1.1,1.2", "1.2,1.1", "1.1,1.2,1.3"})
	case p.ver == "1.1" && r.rng.Intn(2) == 0:
		av = pick(r.rng, []string{"1.0,1.1", "1.1,1.0"})
	}
	f.Add("accept-version", av)
	f.Add("host", "h")
	if r.auth != "" {
		lp := strings.SplitN(r.auth, "|", 2)
		f.Add("login", lp[0]).Add("passcode", lp[1])
	}
	if r.timed {
		if r.rng.Intn(6) > 0 {
			cx, cy := r.period(), r.period()
			p.cx = cx
			f.Add("heart-beat", fmt.Sprintf("%d,%d", cx, cy))
		}
	} else if r.rng.Intn(3) == 0 {
		f.Add("heart-beat", "0,0")
	}
	p.Send(f)
}

// throwaway opens a connection that ends before it has been of any use.
func (r *Rig) throwaway(pr *Profile, how int) {
	p := r.Open()
	if how == 6 {
		how = r.rng.Intn(6)
	}
	switch how {
	case 0: // nothing at all
	case 1: // no handshake
		p.Send(r.receipt(pr, r.message(pr, pr.Dests[0])))
	case 2:
		p.SendRaw(r.rawBytes(), &wire.J{Cmd: "BAD", H: [][]string{}})
	case 3:
		p.Send(wire.F("CONNECT", "accept-version", "1.0", "host", "h"))
	case 4:
		p.Send(wire.F("CONNECT", "accept-version", "1.2", "host", "h"))
	case 5:
		p.Send(wire.F("CONNECT", "accept-version", "1.2", "host", "h"))
		p.Send(wire.F("SUBSCRIBE", "id", "s", "destination", pr.Dests[1]))
		if r.rng.Intn(2) == 0 {
			p.Send(wire.F("DISCONNECT"))
		}
	}
	if how == 0 || how > 3 || r.rng.Intn(2) == 0 {
		p.Drop(pick(r.rng, []string{"eof", "reset"}))
	}
}

// period draws a heart-beat interval in milliseconds.
func (r *Rig) period() int {
	return pick(r.rng, []int{0, 1, r.min / 2, r.min, r.min, r.min * 5 / 4, r.min * 5 / 2})
}

// wait lets some time pass, in proportion to the heart-beats.
func (r *Rig) wait() {
	d := time.Duration(r.min) * time.Millisecond
	if time.Since(r.log.T0) > 1200*time.Second {
		d = time.Millisecond
	}
	f := pick(r.rng, []float64{.1, .4, .7, .95, 1.05, 1.3, 1.7, 1.9, 2.1, 3})
	time.Sleep(time.Duration(float64(d)*f) + time.Duration(r.rng.Intn(3000))*time.Microsecond)
}

// beat keeps all connections that promised so alive for a while, each sending something within its period.
func (r *Rig) beat(pr *Profile) {
	if time.Since(r.log.T0) > 1200*time.Second {
		return
	}
	every := pick(r.rng, []float64{.5, .9, .99, 1.8})
	for i := 0; i < 2+r.rng.Intn(4); i++ {
		time.Sleep(time.Duration(float64(r.min)*every) * time.Millisecond)
		for _, p := range r.live() {
			if r.rng.Intn(4) > 0 {
				p.hb()
			} else {
				p.Send(r.receipt(pr, r.message(pr, pick(r.rng, pr.Dests))))
			}
		}
	}
}

func (p *Peer) hb() {
	r := p.r
	var ev func()
	if r.timed {
		ev = func() { r.add(wire.Ev{"e": "hbin", "c": p.n}) }
	}
	p.link.Send([]byte(pick(r.rng, []string{"\n", "\r\n", "\n\n"})), ev)
}

func (r *Rig) live() (out []*Peer) {
	for _, p := range r.peers {
		if _, ended := p.state(); !ended && p.ver != "" {
			out = append(out, p)
		}
	}
	return
}

func (p *Peer) ackFrame(cmd string, g *Got) *wire.Frame {
	f := wire.F(cmd)
	rng := p.r.rng
	if p.ver == "1.2" {
		f.Add("id", g.mid)
		if rng.Intn(12) == 0 { // of no meaning
			f.Add(pick(rng, []string{"message-id", "subscription", "destination"}), pick(rng, []string{"1", "2", "x"}))
		}
	} else {
		if rng.Intn(12) == 0 {
			f.Add("id", pick(rng, []string{"1", "2", "x"}))
		}
		f.Add("subscription", g.sub).Add("message-id", g.mid)
	}
	return f
}

func (p *Peer) choose(settled bool) *Got {
	p.mu.Lock()
	defer p.mu.Unlock()
	var c []*Got
	for _, g := range p.got {
		if g.settled == settled {
			c = append(c, g)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[p.r.rng.Intn(len(c))]
}

func (p *Peer) settle(g *Got) {
	p.mu.Lock()
	defer p.mu.Unlock()
	g.settled = true
}

// Op performs one operation of the given kind; false if it makes no sense now.
func (r *Rig) Op(pr *Profile, kind string) bool {
	rng := r.rng
	if kind == "open" || len(r.peers) == 0 {
		if len(r.peers) >= pr.MaxConns {
			return false
		}
		r.connect(r.Open())
		return true
	}
	if kind == "flood" { // connections that come to nothing
		if len(r.peers) > 100 {
			return false
		}
		how := rng.Intn(7)
		for i, n := 0, 105+rng.Intn(40); i < n; i++ {
			r.throwaway(pr, how)
			if how != 0 && how != 2 || rng.Intn(5) == 0 {
				r.Quiet()
			}
		}
		r.Quiet()
		r.connect(r.Open())
		return true
	}
	if kind == "resume" {
		for _, p := range r.peers {
			if p.stalled {
				p.stalled = false
				p.link.Stall(false)
				return true
			}
		}
		return false
	}
	ps := r.live()
	if kind == "shake" {
		return r.shake(pr)
	}
	if len(ps) == 0 {
		return false
	}
	p := pick(rng, ps)
	send := func(f *wire.Frame) bool { p.Send(r.receipt(pr, f)); return true }
	switch kind {
	case "send":
		n := 1
		if rng.Intn(5) == 0 {
			n = 2 + rng.Intn(4)
		}
		for i := 0; i < n; i++ {
			send(r.message(pr, pick(rng, pr.Dests)))
		}
	case "sub":
		id := pick(rng, pr.Ids)
		if _, ok := p.subs[id]; ok {
			return false
		}
		mode, dest := pick(rng, pr.Modes), pick(rng, pr.Dests)
		p.subs[id], p.dests[id] = mode, dest
		f := wire.F("SUBSCRIBE", "id", id, "destination", dest)
		if mode != "auto" || rng.Intn(2) == 0 {
			f.Add("ack", mode)
		}
		if rng.Intn(4) == 0 {
			f.Add("x-extra", "1")
		}
		send(f)
	case "unsub":
		if len(p.subs) == 0 {
			return false
		}
		id := pick(rng, keys(p.subs))
		delete(p.subs, id)
		f := wire.F("UNSUBSCRIBE", "id", id)
		if rng.Intn(3) == 0 {
			f.Add("destination", p.dests[id])
		}
		send(f)
		if rng.Intn(2) == 0 { // take the id again at once
			mode, dest := pick(rng, pr.Modes), pick(rng, pr.Dests)
			p.subs[id], p.dests[id] = mode, dest
			send(wire.F("SUBSCRIBE", "id", id, "destination", dest, "ack", mode))
		}
	case "ack", "nack", "txack":
		g := p.choose(false)
		if g == nil {
			return false
		}
		cmd := "ACK"
		if kind == "nack" || kind == "txack" && rng.Intn(3) == 0 {
			cmd = "NACK"
		}
		p.settle(g)
		f := p.ackFrame(cmd, g)
		if kind == "txack" {
			if len(p.tx) == 0 {
				return false
			}
			f.Add("transaction", pick(rng, p.tx))
		}
		send(f)
	case "reack":
		g := p.choose(true)
		if g == nil {
			return false
		}
		send(p.ackFrame(pick(rng, []string{"ACK", "NACK"}), g))
	case "begin":
		if len(p.tx) > 2 {
			return false
		}
		t := pick(rng, []string{"t1", "t2", "t:3", "T1", "", "t1 "})
		for _, o := range p.tx {
			if o == t {
				return false
			}
		}
		p.tx = append(p.tx, t)
		send(wire.F("BEGIN", "transaction", t))
	case "txsend":
		if len(p.tx) == 0 {
			return false
		}
		f := r.message(pr, pick(rng, pr.Dests))
		f.Add("transaction", pick(rng, p.tx))
		send(f)
	case "commit", "abort":
		if len(p.tx) == 0 {
			return false
		}
		i := rng.Intn(len(p.tx))
		t := p.tx[i]
		p.tx = append(p.tx[:i:i], p.tx[i+1:]...)
		p.oldtx = append(p.oldtx, t)
		send(wire.F(strings.ToUpper(kind), "transaction", t))
	case "badtx":
		t := "never"
		if len(p.oldtx) > 0 {
			t = pick(rng, p.oldtx)
		}
		for _, o := range p.tx {
			if o == t {
				t = "never"
			}
		}
		switch rng.Intn(6) {
		case 0:
			send(wire.F("COMMIT", "transaction", t))
		case 1:
			send(wire.F("ABORT", "transaction", t))
		case 2:
			f := r.message(pr, pick(rng, pr.Dests))
			send(f.Add("transaction", t))
		case 3:
			if len(p.tx) == 0 {
				return false
			}
			send(wire.F("BEGIN", "transaction", p.tx[0]))
		case 4:
			send(wire.F("ACK", "id", "1", "message-id", "1", "subscription", "1", "transaction", t))
		case 5:
			send(wire.F("NACK", "id", "1", "message-id", "1", "subscription", "1", "transaction", t))
		}
		r.after(pr, p)
	case "badsub":
		if rng.Intn(2) == 0 && len(p.subs) > 0 {
			id := pick(rng, keys(p.subs))
			send(wire.F("SUBSCRIBE", "id", id, "destination", pick(rng, pr.Dests), "ack", pick(rng, modes)))
		} else {
			send(wire.F("UNSUBSCRIBE", "id", "none"))
		}
		r.after(pr, p)
	case "bad":
		send(r.badFrame(pr))
		r.after(pr, p)
	case "raw":
		p.SendRaw(r.rawBytes(), &wire.J{Cmd: "BAD", H: [][]string{}})
		r.after(pr, p)
	case "again":
		send(wire.F(pick(rng, []string{"CONNECT", "STOMP"}), "accept-version", "1.2", "host", "h"))
		r.after(pr, p)
	case "disc":
		send(wire.F("DISCONNECT"))
		r.after(pr, p)
		p.ver = ""
		if rng.Intn(2) == 0 {
			p.Drop("eof")
		}
	case "drop":
		switch rng.Intn(4) {
		case 0:
			p.Drop("eof")
		case 1, 2:
			p.Drop("reset")
		case 3:
			p.FailSoon(int64(rng.Intn(200)))
			if rng.Intn(2) == 0 {
				p.Drop("reset")
			}
		}
		p.ver = ""
	case "stall":
		p.stalled = true
		p.link.Stall(true)
	case "hb":
		p.hb()
	case "bulk": // many messages at once
		n := 20 + rng.Intn(60)
		if r.fam == "SV" {
			n = 100 + rng.Intn(200)
		}
		dest := pick(rng, pr.Dests)
		for i := 0; i < n; i++ {
			if rng.Intn(10) == 0 {
				dest = pick(rng, pr.Dests)
			}
			p.Send(r.receipt(pr, r.message(pr, dest)))
		}
	case "many": // many subscriptions
		n := 10 + rng.Intn(15)
		if r.fam == "SV" {
			n = 70 + rng.Intn(70)
		}
		for i := 0; i < n; i++ {
			id := fmt.Sprintf("s%d", i)
			if _, ok := p.subs[id]; ok {
				continue
			}
			dest, mode := pick(rng, pr.Dests), pick(rng, pr.Modes)
			p.subs[id], p.dests[id] = mode, dest
			p.Send(r.receipt(pr, wire.F("SUBSCRIBE", "id", id, "destination", dest, "ack", mode)))
		}
	case "bulktx": // a long transaction
		t := fmt.Sprintf("big%d", r.nmsg)
		send(wire.F("BEGIN", "transaction", t))
		dest := pick(rng, pr.Dests)
		for i, n := 0, 70+rng.Intn(80); i < n; i++ {
			send(r.message(pr, dest).Add("transaction", t))
		}
		send(wire.F(pick(rng, []string{"COMMIT", "COMMIT", "ABORT"}), "transaction", t))
	case "manytx": // many transactions at the same time
		n := 40 + rng.Intn(100)
		for i := 0; i < n; i++ {
			send(wire.F("BEGIN", "transaction", fmt.Sprintf("many%d", i)))
		}
		for i := 0; i < n; i++ {
			if rng.Intn(8) == 0 {
				send(r.message(pr, pick(rng, pr.Dests)).Add("transaction", fmt.Sprintf("many%d", i)))
			}
		}
		for i := 0; i < n; i++ {
			send(wire.F(pick(rng, []string{"COMMIT", "COMMIT", "ABORT"}), "transaction", fmt.Sprintf("many%d", i)))
		}
	case "wave": // a queue that grows and shrinks; some of what is taken from it comes back
		dest := "/queue/w"
		for k := 2 + rng.Intn(2); k > 0; k-- {
			for i, n := 0, pick(rng, []int{20, 70, 140})+rng.Intn(60); i < n; i++ {
				p.Send(r.receipt(pr, r.message(pr, dest)))
			}
			r.Quiet()
			id := fmt.Sprintf("wave%d.%d", r.nmsg, k)
			mode := pick(rng, []string{"client", "client-individual"})
			p.subs[id], p.dests[id] = mode, dest
			p.Send(wire.F("SUBSCRIBE", "id", id, "destination", dest, "ack", mode))
			for i := pick(rng, []int{10, 40, 80}) + rng.Intn(30); i > 0; i-- {
				r.Quiet()
				g := p.choose(false)
				if g == nil {
					break
				}
				p.settle(g)
				p.Send(p.ackFrame(pick(rng, []string{"ACK", "ACK", "ACK", "ACK", "NACK"}), g))
			}
			delete(p.subs, id)
			p.Send(wire.F("UNSUBSCRIBE", "id", id))
			r.Quiet()
		}
	case "crowd": // many subscriptions of one connection have a message each before it reads any
		var q *Peer
		for _, x := range r.live() {
			if x != p && !x.stalled {
				q = x
			}
		}
		if q == nil {
			q = r.Open()
			r.connect(q)
		}
		n := 18 + rng.Intn(16)
		for i := 0; i < n; i++ {
			id, mode, dest := fmt.Sprintf("crowd%d.%d", r.nmsg, i), pick(rng, pr.Modes), fmt.Sprintf("/queue/w%d", i)
			p.subs[id], p.dests[id] = mode, dest
			p.Send(wire.F("SUBSCRIBE", "id", id, "destination", dest, "ack", mode))
		}
		r.Quiet()
		p.stalled = true
		p.link.Stall(true)
		for _, i := range rng.Perm(n) {
			q.Send(r.receipt(pr, r.message(pr, fmt.Sprintf("/queue/w%d", i))))
		}
		if r.crowd < n {
			r.crowd = n
		}
		if rng.Intn(3) > 0 {
			time.Sleep(time.Duration(rng.Intn(3000)) * time.Millisecond)
			p.stalled = false
			p.link.Stall(false)
		} // or it ends, and all that comes back
	case "wait":
		r.wait()
	case "beat":
		r.beat(pr)
	case "slow": // an incomplete frame is no sign of life
		f := r.message(pr, pick(rng, pr.Dests))
		b := f.Encode(r.eol)
		i := 1 + rng.Intn(len(b)-1)
		if rng.Intn(2) == 0 { // not even if it keeps coming, bit by bit
			d := time.Duration(float64(r.min)*pick(rng, []float64{.3, .7, .95})) * time.Millisecond
			for k := 2 + rng.Intn(9); k > 0 && i < len(b)-1 && time.Since(r.log.T0) < 1200*time.Second; k-- {
				p.link.Send(b[:i], nil)
				b, i = b[i:], 1
				time.Sleep(d)
			}
		} else {
			p.link.Send(b[:i], nil)
			b = b[i:]
			r.wait()
		}
		p.link.Send(b, func() { r.add(wire.Ev{"e": "in", "c": p.n, "f": f.J()}) })
	default:
		panic("op " + kind)
	}
	return true
}

// after may send more frames behind one that ends the connection.
func (r *Rig) after(pr *Profile, p *Peer) {
	if r.rng.Intn(3) == 0 {
		p.Send(r.receipt(pr, r.message(pr, pick(r.rng, pr.Dests))))
	}
	if r.rng.Intn(6) == 0 {
		p.Send(r.receipt(pr, wire.F("SUBSCRIBE", "id", "late", "destination", pick(r.rng, pr.Dests))))
	}
	p.ver = ""
}

func (r *Rig) badFrame(pr *Profile) *wire.Frame {
	d := pick(r.rng, pr.Dests)
	return pick(r.rng, []func() *wire.Frame{
		func() *wire.Frame { return wire.F("SEND") },
		func() *wire.Frame { return wire.F("SEND", "dest", d) },
		func() *wire.Frame { return wire.F("SUBSCRIBE", "destination", d) },
		func() *wire.Frame { return wire.F("SUBSCRIBE", "id", "z") },
		func() *wire.Frame { return wire.F("SUBSCRIBE", "id", "z", "destination", d, "ack", "bogus") },
		func() *wire.Frame { return wire.F("SUBSCRIBE", "id", "z", "destination", d, "ack", "") },
		func() *wire.Frame { return wire.F("UNSUBSCRIBE") },
		func() *wire.Frame { return wire.F("UNSUBSCRIBE", "id", "nope") },
		func() *wire.Frame { return wire.F("UNSUBSCRIBE", "destination", d) },
		func() *wire.Frame { return wire.F("ACK") },
		func() *wire.Frame { return wire.F("NACK") },
		func() *wire.Frame { return wire.F("ACK", "id", "x", "message-id", "x", "subscription", "1") },
		func() *wire.Frame { return wire.F("NACK", "id", "-1", "message-id", "-1", "subscription", "1") },
		func() *wire.Frame { return wire.F("BEGIN") },
		func() *wire.Frame { return wire.F("COMMIT") },
		func() *wire.Frame { return wire.F("ABORT") },
		func() *wire.Frame { return wire.F("COMMIT", "transaction", "unknown") },
		func() *wire.Frame { return wire.F("ABORT", "transaction", "unknown") },
		func() *wire.Frame { return wire.F("SEND", "destination", d, "transaction", "unknown") },
		func() *wire.Frame {
			return wire.F("ACK", "id", "1", "message-id", "1", "subscription", "1", "transaction", "unknown")
		},
		func() *wire.Frame {
			return wire.F("NACK", "id", "1", "message-id", "1", "subscription", "1", "transaction", "unknown")
		},
		func() *wire.Frame { return wire.F("MESSAGE", "destination", d, "message-id", "1", "subscription", "1") },
		func() *wire.Frame { return wire.F("RECEIPT", "receipt-id", "1") },
		func() *wire.Frame { return wire.F("ERROR", "message", "x") },
		func() *wire.Frame { return wire.F("CONNECTED", "version", "1.2") },
		func() *wire.Frame { return wire.F("CONNECT", "accept-version", "1.2", "host", "h") },
		func() *wire.Frame { return wire.F("STOMP", "accept-version", "1.2", "host", "h") },
	})()
}

func (r *Rig) rawBytes() []byte {
	return []byte(pick(r.rng, []string{
		"BOGUS\n\n\x00", "send\ndestination:/queue/a\n\nx\x00", "SEND\nno-colon\n\nx\x00", "SEND\n:empty\n\nx\x00",
		"SEND\ndestination:/queue/a\ncontent-length:x\n\nx\x00", "SEND\ndestination:/queue/a\ncontent-length:-1\n\nx\x00",
		"SEND\ndestination:/queue/a\ncontent-length:1\n\nxx\x00", "SEND\ndestination:/queue/a\ncontent-length:99999999999\n\nxx\x00",
		"\x00\n\n", "SEND \ndestination:/queue/a\n\n\x00", "\xff\xfe\xfd\n", "SEND\n destination\n\n\x00", "GET / HTTP/1.1\r\nHost: x\r\n\r\n",
	}))
}

// shake opens a connection with a handshake of some kind.
func (r *Rig) shake(pr *Profile) bool {
	if len(r.peers) >= pr.MaxConns {
		return false
	}
	rng := r.rng
	p := r.Open()
	f := wire.F(pick(rng, []string{"CONNECT", "STOMP", "CONNECT"}))
	if rng.Intn(8) > 0 {
		f.Add("accept-version", pick(rng, []string{"1.2", "1.1", "1.0", "1.0,1.1", "1.1,1.2", "1.2,1.1,1.0", "1.3", "2.0,1.2", "", "1.2,", ",", "1.1,,1.2", "1.1,9.9",
			"1.0,1.2", "12", "1.0,2.0", "1.1,1.1", "1.2,1.2,1.0", "1.3,1.1", "x,1.2", "1.1,1.2,1.3"}))
	}
	if rng.Intn(2) == 0 {
		f.Add("host", "h")
	}
	if r.auth != "" {
		lp := strings.SplitN(r.auth, "|", 2)
		switch rng.Intn(9) {
		case 3:
		case 4:
			f.Add("login", "").Add("passcode", "")
		case 0:
			f.Add("login", lp[0])
		case 1:
			f.Add("login", lp[0]).Add("passcode", "wrong")
		case 2:
			f.Add("login", lp[1]).Add("passcode", lp[0])
		default:
			f.Add("passcode", lp[1]).Add("login", lp[0])
		}
	}
	if rng.Intn(2) == 0 {
		f.Add("heart-beat", pick(rng, []string{"0,0", "0,0", "5000,0", "0,7000", "1,1", "x", "1", "1,2,3", "-1,0", "1000000000,0", "0,1000000000", ",", "1,", "0, 0", "999999999,999999999", "600000,70000"}))
	}
	if rng.Intn(8) == 0 {
		f.Add("receipt", "c1")
	}
	if rng.Intn(10) == 0 {
		f = wire.F(pick(rng, []string{"SEND", "SUBSCRIBE", "BEGIN", "ACK", "DISCONNECT", "COMMIT", "MESSAGE", "CONNECTED", "UNSUBSCRIBE"}),
			"id", "1", "destination", "/queue/a", "transaction", "t", "message-id", "1")
		r.receipt(pr, f)
	}
	p.Send(f)
	p.ver = "1.2"
	// behind it, whether it succeeds or not
	if rng.Intn(2) == 0 {
		p.Send(r.receipt(pr, wire.F("SUBSCRIBE", "id", "s", "destination", "/queue/a")))
	}
	if rng.Intn(2) == 0 {
		p.Send(r.receipt(pr, r.message(pr, "/queue/a")))
	}
	return true
}

// Random runs one random scenario of a family.
func Random(seed int64, fam string, nsites int) *Rig {
	pr := Profiles[fam]
	pr.Special, pr.Big = max(pr.Special, .06), max(pr.Big, .02)
	r := NewRig(seed, fam)
	rng := r.rng
	if rng.Intn(4) == 0 {
		r.eol = "\r\n"
	}
	vsched.Start(rng.Int63(), plan(rng, nsites))
	defer vsched.Stop()
	authn := pr.Auth
	if fam == "S07" && rng.Intn(2) == 0 {
		authn = "user|pa:ss"
	}
	var min time.Duration
	if fam == "S11" {
		r.timed = true
		min = pick(rng, []time.Duration{100 * time.Millisecond, time.Second, 7 * time.Second, 0})
	}
	r.Serve(authn, min, pr.Storage)
	n := pr.Conns[0] + rng.Intn(pr.Conns[1]-pr.Conns[0]+1)
	for i := 0; i < n; i++ {
		r.connect(r.Open())
	}
	if rng.Intn(2) == 0 {
		r.Quiet()
	}
	if fam == "SV" && rng.Intn(3) > 0 {
		r.Op(&pr, "sub")
		r.Quiet()
	}
	total := 0
	for _, k := range opKinds(pr.W) {
		total += pr.W[k]
	}
	ops := pr.Ops[0] + rng.Intn(pr.Ops[1]-pr.Ops[0]+1)
	since := 0
	for i := 0; i < ops; i++ {
		for try := 0; try < 20; try++ {
			x := rng.Intn(total)
			var kind string
			for _, k := range opKinds(pr.W) {
				if x < pr.W[k] {
					kind = k
					break
				}
				x -= pr.W[k]
			}
			if r.Op(&pr, kind) {
				break
			}
		}
		since++
		if since >= pr.Burst/2 && rng.Intn(pr.Burst) == 0 || since > pr.Burst {
			r.ResumeAll()
			r.Quiet()
			since = 0
		} else {
			r.Gap()
		}
	}
	r.Finish()
	return r
}

func (r *Rig) ResumeAll() {
	for _, p := range r.peers {
		if p.stalled {
			p.stalled = false
			p.link.Stall(false)
		}
	}
}

// Finish lets everything settle, then ends every connection and drains the
// queues with a fresh consumer, so that nothing that was lost stays unnoticed.
func (r *Rig) Finish() {
	r.ResumeAll()
	r.Quiet()
	for _, p := range r.peers {
		if !p.dead || p.soon {
			p.Drop(pick(r.rng, []string{"eof", "reset"}))
		}
	}
	r.Quiet()
	dests := Profiles[r.fam].Dests
	if dests == nil {
		dests = scriptDests
	}
	if r.fam == "SV" {
		dests = append([]string{"/queue/w"}, dests...)
		for i := 0; i < r.crowd; i++ {
			dests = append(dests, fmt.Sprintf("/queue/w%d", i))
		}
	}
	if r.fam != "S07" {
		p := r.Open()
		p.ver = "1.2"
		f := wire.F("CONNECT", "accept-version", "1.2", "host", "h")
		if r.auth != "" {
			lp := strings.SplitN(r.auth, "|", 2)
			f.Add("login", lp[0]).Add("passcode", lp[1])
		}
		p.Send(f)
		for i, d := range dests {
			p.Send(wire.F("SUBSCRIBE", "id", fmt.Sprintf("drain%d", i), "destination", d))
		}
		r.Quiet()
		p.Drop("eof")
		r.Quiet()
	}
	r.Leaks()
}

var kindCache []string

func opKinds(m map[string]int) []string {
	if kindCache == nil {
		kindCache = []string{"send", "sub", "unsub", "ack", "nack", "reack", "begin", "txsend", "txack", "commit", "abort", "badtx",
			"badsub", "bad", "raw", "again", "disc", "drop", "open", "stall", "resume", "hb", "shake", "wait", "beat", "slow", "bulk", "many", "flood", "bulktx", "manytx", "wave", "crowd"}
	}
	return kindCache
}
