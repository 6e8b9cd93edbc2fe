// Package wire holds the harness' own STOMP codec, in-memory network and event log.
// Nothing here uses the code under test.
package wire

import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"errors"
	"fmt"
	"strconv"
	"strings"
)

// KV is one header entry.
type KV [2]string

// Frame is a STOMP frame as the harness sees it.
type Frame struct {
	Cmd  string
	H    []KV
	Body []byte
}

func F(cmd string, kv ...string) *Frame {
	f := &Frame{Cmd: cmd}
	for i := 0; i+1 < len(kv); i += 2 {
		f.H = append(f.H, KV{kv[i], kv[i+1]})
	}
	return f
}

// Get returns the first value of a header.
func (f *Frame) Get(k string) (string, bool) {
	for _, e := range f.H {
		if e[0] == k {
			return e[1], true
		}
	}
	return "", false
}

func (f *Frame) Val(k string) string { v, _ := f.Get(k); return v }

func (f *Frame) Add(k, v string) *Frame { f.H = append(f.H, KV{k, v}); return f }

func esc(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\':
			b.WriteString(`\\`)
		case '\r':
			b.WriteString(`\r`)
		case '\n':
			b.WriteString(`\n`)
		case ':':
			b.WriteString(`\c`)
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

var errEscape = errors.New("bad escape")

func unesc(s string) (string, error) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			if s[i] == '\r' || s[i] == ':' {
				return "", errEscape
			}
			b.WriteByte(s[i])
			continue
		}
		i++
		if i >= len(s) {
			return "", errEscape
		}
		switch s[i] {
		case '\\':
			b.WriteByte('\\')
		case 'r':
			b.WriteByte('\r')
		case 'n':
			b.WriteByte('\n')
		case 'c':
			b.WriteByte(':')
		default:
			return "", errEscape
		}
	}
	return b.String(), nil
}

// Encode writes the frame; eol is "\n" or "\r\n".
func (f *Frame) Encode(eol string) []byte {
	var b bytes.Buffer
	b.WriteString(f.Cmd + eol)
	for _, e := range f.H {
		b.WriteString(esc(e[0]) + ":" + esc(e[1]) + eol)
	}
	b.WriteString(eol)
	b.Write(f.Body)
	b.WriteByte(0)
	return b.Bytes()
}

// Parser is an incremental strict parser for what the code under test writes.
type Parser struct {
	buf []byte
	Err error
}

// Feed returns the frames completed by data; a nil frame stands for a newline
// between frames.
func (p *Parser) Feed(data []byte) (out []*Frame) {
	if p.Err != nil {
		return nil
	}
	p.buf = append(p.buf, data...)
	for len(p.buf) > 0 && p.Err == nil {
		if p.buf[0] == '\n' {
			out = append(out, nil)
			p.buf = p.buf[1:]
			continue
		}
		f, n, err := parseOne(p.buf)
		if err != nil {
			p.Err = err
			return
		}
		if f == nil {
			return
		}
		p.buf = p.buf[n:]
		out = append(out, f)
	}
	return
}

// Partial says whether an incomplete frame has been read.
func (p *Parser) Partial() bool { return len(p.buf) > 0 }

func parseOne(b []byte) (*Frame, int, error) {
	pos := 0
	line := func() (string, bool) {
		i := bytes.IndexByte(b[pos:], '\n')
		if i < 0 {
			return "", false
		}
		s := string(b[pos : pos+i])
		pos += i + 1
		return s, true
	}
	cmd, ok := line()
	if !ok {
		if len(b) > 100 {
			return nil, 0, errors.New("no command")
		}
		return nil, 0, nil
	}
	switch cmd {
	case "CONNECT", "STOMP", "CONNECTED", "SEND", "SUBSCRIBE", "UNSUBSCRIBE", "ACK", "NACK", "BEGIN",
		"COMMIT", "ABORT", "DISCONNECT", "MESSAGE", "RECEIPT", "ERROR":
	default:
		return nil, 0, fmt.Errorf("unknown command %q", cmd)
	}
	f := &Frame{Cmd: cmd}
	for {
		l, ok := line()
		if !ok {
			return nil, 0, nil
		}
		if l == "" {
			break
		}
		i := strings.IndexByte(l, ':')
		if i < 0 {
			return nil, 0, fmt.Errorf("header line without colon %q", l)
		}
		k, err := unesc(l[:i])
		if err != nil {
			return nil, 0, fmt.Errorf("header %q: %v", l, err)
		}
		v, err := unesc(l[i+1:])
		if err != nil {
			return nil, 0, fmt.Errorf("header %q: %v", l, err)
		}
		f.H = append(f.H, KV{k, v})
	}
	if cl, ok := f.Get("content-length"); ok {
		n, err := strconv.Atoi(cl)
		if err != nil || n < 0 {
			return nil, 0, fmt.Errorf("content-length %q", cl)
		}
		if len(b) < pos+n+1 {
			return nil, 0, nil
		}
		if b[pos+n] != 0 {
			return nil, 0, errors.New("no NUL after the body")
		}
		f.Body = append([]byte{}, b[pos:pos+n]...)
		return f, pos + n + 1, nil
	}
	i := bytes.IndexByte(b[pos:], 0)
	if i < 0 {
		return nil, 0, nil
	}
	f.Body = append([]byte{}, b[pos:pos+i]...)
	return f, pos + i + 1, nil
}

// Pct makes a string printable ASCII (one to one).
func Pct(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c <= 32 || c >= 127 || c == '%' || c == '"' || c == '\\' {
			fmt.Fprintf(&b, "%%%02x", c)
		} else {
			b.WriteByte(c)
		}
	}
	return b.String()
}

// Digest identifies a body.
func Digest(b []byte) string {
	if len(b) <= 40 {
		return Pct(string(b))
	}
	h := sha1.Sum(b)
	return fmt.Sprintf("#%d#%s", len(b), hex.EncodeToString(h[:8]))
}

// J is the JSON form of a frame in traces.
type J struct {
	Cmd string     `json:"cmd"`
	H   [][]string `json:"h"`
	B   string     `json:"b"`
}

func (f *Frame) J() *J {
	j := &J{Cmd: f.Cmd, H: [][]string{}, B: Digest(f.Body)}
	for _, e := range f.H {
		j.H = append(j.H, []string{Pct(e[0]), Pct(e[1])})
	}
	return j
}
