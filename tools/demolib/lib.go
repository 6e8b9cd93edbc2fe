package main

import (
	"bufio"
	"fmt"
	"net"
	"os"
	"strings"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/server"
)

func fail(format string, a ...any) {
	fmt.Printf("FAIL: "+format+"\n", a...)
	os.Exit(1)
}

func check(ok bool, format string, a ...any) {
	if !ok {
		fail(format, a...)
	}
}

type quiet struct{}

func (quiet) Debugf(string, ...interface{})   {}
func (quiet) Infof(string, ...interface{})    {}
func (quiet) Warningf(string, ...interface{}) {}
func (quiet) Errorf(string, ...interface{})   {}
func (quiet) Debug(string)                    {}
func (quiet) Info(string)                     {}
func (quiet) Warning(string)                  {}
func (quiet) Error(string)                    {}

var _ stomp.Logger = quiet{}

// serve starts a server on the loopback interface.
func serve(s *server.Server) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fail("listen: %v", err)
	}
	s.Log = quiet{}
	go s.Serve(l)
	return l.Addr().String()
}

// peer is a plain STOMP peer, client or server.
type peer struct {
	c net.Conn
	r *bufio.Reader
}

func dial(addr string) *peer {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		fail("dial: %v", err)
	}
	return &peer{c, bufio.NewReader(c)}
}

// connect also does the CONNECT handshake.
func connect(addr, version string) *peer {
	p := dial(addr)
	p.send("CONNECT\naccept-version:" + version + "\nhost:h\n\n")
	f := p.recv(5 * time.Second)
	check(f != nil && f.cmd == "CONNECTED", "no CONNECTED: %v", f)
	return p
}

func (p *peer) send(s string) { p.c.Write([]byte(s + "\x00")) }

type fr struct {
	cmd  string
	h    map[string]string
	hs   []string
	body string
}

// recv returns the next frame, nil if there is none in time or the connection is closed.
func (p *peer) recv(d time.Duration) *fr {
	p.c.SetReadDeadline(time.Now().Add(d))
	s, err := p.r.ReadString(0)
	if err != nil {
		return nil
	}
	s = strings.TrimLeft(strings.TrimSuffix(s, "\x00"), "\n")
	head, body, _ := strings.Cut(s, "\n\n")
	f := &fr{h: map[string]string{}, body: body}
	for i, l := range strings.Split(head, "\n") {
		if i == 0 {
			f.cmd = l
			continue
		}
		f.hs = append(f.hs, l)
		k, v, _ := strings.Cut(l, ":")
		if _, ok := f.h[k]; !ok {
			f.h[k] = v
		}
	}
	return f
}

// sync waits until the server has processed everything sent so far.
func (p *peer) sync(id string) {
	p.send("SEND\ndestination:/topic/sync\nreceipt:" + id + "\n\n")
	f := p.recv(5 * time.Second)
	check(f != nil && f.cmd == "RECEIPT" && f.h["receipt-id"] == id, "no RECEIPT %s: %v", id, f)
}

// broker accepts one connection and answers its CONNECT with the given headers.
func broker(connected string, run func(p *peer)) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fail("listen: %v", err)
	}
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		p := &peer{c, bufio.NewReader(c)}
		p.recv(5 * time.Second)
		p.send("CONNECTED\n" + connected + "\n")
		run(p)
	}()
	return l.Addr().String()
}

// within fails unless f returns in time.
func within(d time.Duration, what string, f func()) {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(d):
		fail("%s did not return", what)
	}
}

func newR(c net.Conn) *bufio.Reader { return bufio.NewReader(c) }
