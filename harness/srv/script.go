package srv

import (
	"encoding/json"
	"fmt"
	"strconv"
	"time"

	"verif/vsched"
	"verif/wire"
)

// Script is a history of client actions generated from the model: the
// connection's number, the command, and its arguments.
type Script struct {
	NC   int        `json:"nc"`
	Acts [][]string `json:"acts"`
}

func ParseScript(b []byte) (s Script, err error) {
	err = json.Unmarshal(b, &s)
	return
}

// scriptDests are the destinations the model knows.
var scriptDests = []string{"/queue/a", "/queue/b", "/topic/a"}

// Scripted replays a script into the real server.
func Scripted(seed int64, fam string, nsites int, s Script) *Rig {
	r := NewRig(seed, fam)
	rng := r.rng
	if rng.Intn(4) == 0 {
		r.eol = "\r\n"
	}
	pr := &Profile{Receipt: pick(rng, []float64{0, .2, .6})}
	p := vsched.Plan{Max: 1}
	if rng.Intn(3) > 0 {
		p = plan(rng, nsites)
	}
	vsched.Start(rng.Int63(), p)
	defer vsched.Stop()
	authn := ""
	if len(s.Acts) > 0 && s.Acts[0][1] == "CFG" {
		authn, s.Acts = s.Acts[0][2], s.Acts[1:]
	}
	r.Serve(authn, 0, rng.Intn(4) == 0)
	for i := 0; i < s.NC; i++ {
		r.connect(r.Open())
	}
	r.Quiet()
	step := pick(rng, []float64{1, 1, .5, 0}) // how often to let things settle
	for _, a := range s.Acts {
		c, _ := strconv.Atoi(a[0])
		if a[1] == "HAND" {
			r.Open()
		}
		r.act(pr, r.peers[c-1], a[1], a[2:])
		if rng.Float64() < step {
			r.Quiet()
		}
	}
	r.Finish()
	return r
}

// act performs one action of a script.
func (r *Rig) act(pr *Profile, p *Peer, cmd string, a []string) {
	send := func(f *wire.Frame) { p.Send(r.receipt(pr, f)) }
	tx := func(f *wire.Frame, t string) *wire.Frame {
		if t != "" {
			f.Add("transaction", t)
		}
		return f
	}
	switch cmd {
	case "SEND":
		r.nmsg++
		f := wire.F("SEND", "destination", a[0])
		f.Body = []byte(fmt.Sprintf("m%d", r.nmsg))
		send(tx(f, a[1]))
	case "SUB":
		send(wire.F("SUBSCRIBE", "id", a[0], "destination", a[1], "ack", a[2]))
	case "UNSUB":
		send(wire.F("UNSUBSCRIBE", "id", a[0]))
	case "ACK", "NACK":
		k, _ := strconv.Atoi(a[0])
		g := p.nth(k)
		if g == nil {
			r.settle()
			g = p.nth(k)
		}
		if g == nil { // went elsewhere this time
			return
		}
		send(tx(p.ackFrame(cmd, g), a[1]))
	case "BEGIN", "COMMIT", "ABORT":
		send(wire.F(cmd, "transaction", a[0]))
	case "HAND":
		p.Send(handshake(a[0], a[1], a[2], a[3], a[4], a[5]))
		p.ver = "1.2"
	case "SEND1":
		p.Send(wire.F("SEND", "destination", "/queue/a", "receipt", a[0]))
	case "SUB1":
		p.Send(wire.F("SUBSCRIBE", "id", "s", "destination", "/queue/a", "receipt", a[0]))
	case "BEGIN1":
		p.Send(wire.F("BEGIN", "transaction", "t", "receipt", a[0]))
	case "DISC1":
		p.Send(wire.F("DISCONNECT", "receipt", a[0]))
	case "AGAIN":
		p.Send(wire.F("CONNECT", "accept-version", "1.2", "login", "user", "passcode", "pa:ss"))
	case "DISC":
		send(wire.F("DISCONNECT"))
	case "DROP":
		switch r.rng.Intn(4) {
		case 0:
			p.Drop("eof")
		case 1, 2:
			p.Drop("reset")
		case 3:
			p.FailSoon(int64(r.rng.Intn(200)))
			if r.rng.Intn(2) == 0 {
				time.Sleep(time.Duration(r.rng.Intn(1000)))
			}
			p.Drop("reset")
		}
	default:
		panic("script action " + cmd)
	}
}

// nth is the k-th message received on the connection.
func (p *Peer) nth(k int) *Got {
	p.mu.Lock()
	defer p.mu.Unlock()
	if k < 1 || k > len(p.all) {
		return nil
	}
	return p.all[k-1]
}

// handshake is the first frame of a connection, as the model describes it;
// "-" stands for a header that is not there.
func handshake(cmd, offer, login, hb, receipt, host string) *wire.Frame {
	f := wire.F(cmd)
	opt := func(k, v string) {
		if v != "-" {
			f.Add(k, v)
		}
	}
	opt("accept-version", offer)
	const user, pass = "user", "pa:ss"
	switch login {
	case "none":
	case "right":
		f.Add("login", user).Add("passcode", pass)
	case "reversed":
		f.Add("passcode", pass).Add("login", user)
	case "wrong":
		f.Add("login", user).Add("passcode", "x")
	case "other":
		f.Add("login", "x").Add("passcode", pass)
	case "half":
		f.Add("login", user)
	case "empty":
		f.Add("login", "").Add("passcode", "")
	case "twice":
		f.Add("login", "x").Add("passcode", pass).Add("login", user)
	default:
		panic("login " + login)
	}
	opt("heart-beat", hb)
	opt("receipt", receipt)
	opt("host", host)
	if cmd != "CONNECT" && cmd != "STOMP" {
		f.Add("id", "1").Add("destination", "/queue/a").Add("transaction", "t").Add("message-id", "1")
	}
	return f
}
