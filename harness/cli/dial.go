package cli

import (
	"context"
	"net"
	"time"

	"github.com/go-stomp/stomp/v3"

	"verif/drv"
	"verif/wire"
)

const patience = 6 * time.Second

// Dialled lets the library open the network connection by itself, over the
// loopback interface and in real time.
func Dialled(seed int64) *Rig {
	r := NewRig(seed, "CD")
	r.real = true
	rng := r.rng
	r.pr = Profiles["C01"]
	ls, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer ls.Close()

	o := &CO{mul10: 10, hb: true, versions: []string{"1.2"}, stompCmd: rng.Intn(4) == 0, expect: "127.0.0.1"}
	if rng.Intn(2) == 0 {
		o.host = drv.Pick(rng, []string{"vhost", "/"})
	}
	if rng.Intn(2) == 0 {
		o.login, o.pass = "scott", "tiger"
	}
	kind := drv.Pick(rng, []string{"ok", "ok", "ok", "error", "other", "version", "hb", "eof", "garbage", "silent", "badopt"})
	o.badOpt = kind == "badopt"
	if kind == "silent" || rng.Intn(3) == 0 {
		o.deadline = ms(100 + rng.Intn(200))
		if kind != "silent" {
			o.deadline = time.Minute
		}
	}

	// the server
	conns := make(chan net.Conn, 1)
	frames := make(chan *wire.Frame, 100)
	gone := make(chan bool)
	go func() {
		c, err := ls.Accept()
		if err != nil {
			close(gone)
			return
		}
		conns <- c
		b := make([]byte, 4096)
		for {
			n, err := c.Read(b)
			for _, f := range r.par.Feed(b[:n]) {
				if f != nil {
					r.add(wire.Ev{"e": "wire", "f": f.J()})
					frames <- f
				}
			}
			if err != nil {
				r.add(wire.Ev{"e": "netclose"})
				close(gone)
				return
			}
		}
	}()

	done := make(chan bool, 1)
	go func() {
		done <- r.Connect(o, func(opts []func(*stomp.Conn) error, ctx context.Context) (*stomp.Conn, error) {
			if o.deadline == 0 && rng.Intn(2) == 0 {
				return stomp.Dial("tcp", ls.Addr().String(), opts...)
			}
			return stomp.DialWithContext(ctx, "tcp", ls.Addr().String(), opts...)
		})
	}()
	next := func() *wire.Frame {
		select {
		case f := <-frames:
			return f
		case <-time.After(patience):
			return nil
		}
	}
	closed := func() {
		select {
		case <-gone:
		case <-time.After(patience):
		}
	}
	var c net.Conn
	select {
	case c = <-conns:
	case <-time.After(patience):
		r.add(wire.Ev{"e": "quiet"})
		return r
	}
	defer c.Close()
	send := func(f *wire.Frame) {
		r.add(wire.Ev{"e": "srv", "f": f.J()})
		c.Write(f.Encode("\n"))
	}
	f := wire.F("CONNECTED", "version", "1.2")
	if !o.badOpt {
		if next() == nil {
			r.add(wire.Ev{"e": "quiet"})
			return r
		}
		switch kind {
		case "ok":
		case "error":
			f = wire.F("ERROR", "message", "go away")
		case "other":
			f = wire.F("RECEIPT", "receipt-id", "1")
		case "version":
			f = wire.F("CONNECTED", "version", "1.3")
		case "hb":
			f.Add("heart-beat", "a,b")
		}
		switch kind {
		case "eof":
			r.add(wire.Ev{"e": "seof"})
			c.(*net.TCPConn).CloseWrite()
		case "garbage":
			r.add(wire.Ev{"e": "sgarb"})
			c.Write([]byte("FOO\n\n\x00"))
		case "silent":
		default:
			send(f)
		}
	}
	ok := false
	select {
	case ok = <-done:
	case <-time.After(patience):
	}
	if ok {
		r.do("send", wire.Ev{"tx": 0, "dest": "/q", "ct": "", "b": "hello", "len": "5", "opts": [][]string{}}, func(wire.Ev) error {
			return r.conn.Send("/q", "", []byte("hello"))
		})
		next()
		go func() { r.Disconnect(); done <- true }()
		if d := next(); d != nil {
			send(wire.F("RECEIPT", "receipt-id", d.Val("receipt")))
		}
		select {
		case <-done:
		case <-time.After(patience):
		}
	}
	closed()
	r.add(wire.Ev{"e": "quiet"})
	return r
}
