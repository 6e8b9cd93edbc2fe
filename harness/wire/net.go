package wire

import (
	"errors"
	"io"
	"math/rand"
	"net"
	"os"
	"sync"
	"time"
)

// Link is one in-memory connection. The code under test holds the End (a
// net.Conn); the driver uses the methods of Link.
type Link struct {
	mu   sync.Mutex
	wake chan struct{} // closed and replaced on every change

	in      []byte // driver -> code
	inEOF   bool
	inErr   error
	rng     *rand.Rand
	maxRead int // longest chunk a Read returns (0: no limit)

	stalled   bool
	failAfter int64 // writes fail once this many more bytes went through; <0 never
	failErr   error

	closed bool // by the code under test
	rdl    time.Time
	wdl    time.Time

	// OnWrite is called under mu with every chunk the code writes, OnClose
	// when it closes, OnFail when a write fails.
	OnWrite func([]byte)
	OnClose func()
	OnFail  func()
	Wrote   int64
	Remote  string // address of the far end, as the code sees it
	Writes  int64
	ReadErr bool // a Read returned an error to the code
}

type End struct{ l *Link }

type addr string

func (a addr) Network() string { return "mem" }
func (a addr) String() string  { return string(a) }

func NewLink(rng *rand.Rand, maxRead int) (*Link, *End) {
	l := &Link{wake: make(chan struct{}), rng: rng, maxRead: maxRead, failAfter: -1}
	return l, &End{l}
}

func (l *Link) change() {
	close(l.wake)
	l.wake = make(chan struct{})
}

// Send puts bytes where the code can read them. before is called under the
// lock, so that what it logs precedes everything the bytes cause.
func (l *Link) Send(b []byte, before func()) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if before != nil {
		before()
	}
	l.in = append(l.in, b...)
	l.change()
}

// CloseRead ends the incoming stream (after what was sent); reset drops what was not read yet.
func (l *Link) CloseRead(err error, reset bool, before func()) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if before != nil {
		before()
	}
	l.inEOF = true
	l.inErr = err
	if reset {
		l.in = nil
	}
	l.change()
}

// FailWrites makes writes fail after n more bytes.
func (l *Link) FailWrites(n int64, before func()) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if before != nil {
		before()
	}
	l.failAfter = n
	l.failErr = errors.New("mem: connection reset by peer")
	l.change()
}

func (l *Link) Stall(s bool) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.stalled = s
	l.change()
}

func (l *Link) Closed() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.closed
}

func (l *Link) Unread() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return len(l.in)
}

var ErrClosed = net.ErrClosed

func (e *End) wait(w chan struct{}, dl time.Time) error {
	if dl.IsZero() {
		<-w
		return nil
	}
	d := time.Until(dl)
	if d <= 0 {
		return os.ErrDeadlineExceeded
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-w:
	case <-t.C:
	}
	return nil
}

func (e *End) Read(p []byte) (int, error) {
	l := e.l
	for {
		l.mu.Lock()
		if l.closed {
			l.mu.Unlock()
			return 0, net.ErrClosed
		}
		if len(l.in) > 0 && !(!l.rdl.IsZero() && !time.Now().Before(l.rdl)) {
			n := len(l.in)
			if n > len(p) {
				n = len(p)
			}
			if l.maxRead > 0 && n > 1 {
				m := 1 + l.rng.Intn(l.maxRead)
				if n > m {
					n = m
				}
			}
			copy(p, l.in[:n])
			l.in = l.in[n:]
			l.mu.Unlock()
			return n, nil
		}
		if len(l.in) == 0 && l.inEOF {
			err := l.inErr
			if err == nil {
				err = io.EOF
			}
			l.ReadErr = true
			l.mu.Unlock()
			return 0, err
		}
		w, dl := l.wake, l.rdl
		l.mu.Unlock()
		if err := e.wait(w, dl); err != nil {
			l.mu.Lock()
			l.ReadErr = true
			l.mu.Unlock()
			return 0, err
		}
	}
}

func (e *End) Write(p []byte) (int, error) {
	l := e.l
	for {
		l.mu.Lock()
		if l.closed {
			l.mu.Unlock()
			return 0, net.ErrClosed
		}
		if !l.stalled {
			n := len(p)
			var err error
			if l.failAfter >= 0 {
				if int64(n) > l.failAfter {
					n = int(l.failAfter)
					err = l.failErr
				}
				l.failAfter -= int64(n)
			}
			l.Writes++
			l.Wrote += int64(n)
			if n > 0 && l.OnWrite != nil {
				l.OnWrite(p[:n])
			}
			if err != nil { // reading fails from now on, too
				l.in, l.inEOF, l.inErr = nil, true, err
				l.change()
				if l.OnFail != nil {
					l.OnFail()
				}
			}
			l.mu.Unlock()
			return n, err
		}
		w, dl := l.wake, l.wdl
		l.mu.Unlock()
		if err := e.wait(w, dl); err != nil {
			l.mu.Lock()
			if l.OnFail != nil {
				l.OnFail()
			}
			l.mu.Unlock()
			return 0, err
		}
	}
}

func (e *End) Close() error {
	l := e.l
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	if l.OnClose != nil {
		l.OnClose()
	}
	l.change()
	return nil
}

func (e *End) LocalAddr() net.Addr { return addr("local") }
func (e *End) RemoteAddr() net.Addr {
	if e.l.Remote != "" {
		return addr(e.l.Remote)
	}
	return addr("remote")
}
func (e *End) SetDeadline(t time.Time) error {
	e.SetReadDeadline(t)
	return e.SetWriteDeadline(t)
}
func (e *End) SetReadDeadline(t time.Time) error {
	e.l.mu.Lock()
	defer e.l.mu.Unlock()
	if e.l.closed {
		return net.ErrClosed
	}
	e.l.rdl = t
	e.l.change()
	return nil
}
func (e *End) SetWriteDeadline(t time.Time) error {
	e.l.mu.Lock()
	defer e.l.mu.Unlock()
	if e.l.closed {
		return net.ErrClosed
	}
	e.l.wdl = t
	e.l.change()
	return nil
}

// Listener hands out Ends.
type Listener struct {
	ch   chan item
	done chan struct{}
}

type item struct {
	c   net.Conn
	err error
}

func NewListener() *Listener {
	return &Listener{ch: make(chan item, 256), done: make(chan struct{})}
}

// Give makes Accept return c, Fail makes it return an error (each once).
func (l *Listener) Give(c net.Conn) { l.ch <- item{c: c} }
func (l *Listener) Fail(e error)    { l.ch <- item{err: e} }
func (l *Listener) Addr() net.Addr  { return addr("listener") }
func (l *Listener) Close() error    { close(l.done); return nil }
func (l *Listener) Accept() (net.Conn, error) {
	select {
	case i := <-l.ch:
		return i.c, i.err
	case <-l.done:
		return nil, net.ErrClosed
	}
}

// TempErr is a temporary accept error.
type TempErr struct{}

func (TempErr) Error() string   { return "temporary" }
func (TempErr) Timeout() bool   { return false }
func (TempErr) Temporary() bool { return true }
