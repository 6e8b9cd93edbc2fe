// Package codec replays cases of the specifications Codec and HeaderOps against
// the real frame package, and records what it does with random ones.
package codec

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"

	"github.com/go-stomp/stomp/v3/frame"
)

func envInt(k string, d int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return d
}

// ---- tokens

var text = map[byte]string{'L': "\n", 'R': "\r", 'E': "\\", 'C': ":", '0': "\x00", 'K': "content-length",
	'Y': "4094", 'X': strings.Repeat("x", 4094), 'z': "0", 'u': "ü", 'f': "\xff", 'p': "+", 'm': "-", 'b': " ", 'w': "ww"}

// long sets the length of the token w, which the specification has no use for.
func long(rng *rand.Rand) {
	n := 1 + rng.Intn(1200)
	if rng.Intn(2) == 0 {
		n = []int{254, 510, 1022}[rng.Intn(3)] + rng.Intn(5)
	}
	text['w'] = strings.Repeat("w", n)
}

var cmds4 = []string{"SEND", "NACK"}
var cmds = []string{"SEND", "NACK", "CONNECT", "STOMP", "SUBSCRIBE", "UNSUBSCRIBE", "ACK", "BEGIN", "COMMIT", "ABORT", "DISCONNECT",
	"CONNECTED", "MESSAGE", "RECEIPT", "ERROR"}

// expand turns tokens into bytes; cmd is the command that S stands for.
func expand(s, cmd string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == 'S' {
			b.WriteString(cmd)
		} else if t, ok := text[s[i]]; ok {
			b.WriteString(t)
		} else {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

var toks = []struct{ t, s string }{{"K", text['K']}, {"X", text['X']}, {"Y", text['Y']}, {"u", text['u']}, {"f", text['f']},
	{"p", "+"}, {"m", "-"}, {"b", " "}, {"L", "\n"}, {"R", "\r"}, {"E", "\\"}, {"C", ":"}, {"0", "\x00"}, {"z", "0"}}

const plain = "ancr123456789"

// tokens is the inverse of expand, "?" for what is no token.
func tokens(s, cmd string) string {
	var b strings.Builder
next:
	for len(s) > 0 {
		if strings.HasPrefix(s, cmd) {
			b.WriteByte('S')
			s = s[len(cmd):]
			continue
		}
		if w := text['w']; strings.HasPrefix(s, w) {
			b.WriteByte('w')
			s = s[len(w):]
			continue
		}
		for _, t := range toks {
			if strings.HasPrefix(s, t.s) {
				b.WriteString(t.t)
				s = s[len(t.s):]
				continue next
			}
		}
		if strings.IndexByte(plain, s[0]) >= 0 {
			b.WriteByte(s[0])
		} else {
			b.WriteByte('?')
		}
		s = s[1:]
	}
	return b.String()
}

func show(f *frame.Frame, cmd string) string {
	if f == nil {
		return "H"
	}
	if f.Command != cmd {
		return "<" + f.Command + ">"
	}
	return "<" + entries(f.Header, func(s string) string { return tokens(s, cmd) }) + "!" + tokens(string(f.Body), cmd) + ">"
}

func entries(h *frame.Header, fn func(string) string) string {
	var b strings.Builder
	for i := 0; h != nil && i < h.Len(); i++ {
		k, v := h.GetAt(i)
		b.WriteString("(" + fn(k) + "," + fn(v) + ")")
	}
	return b.String()
}

// ---- reading

var errMore = errors.New("more")

// source hands out data in pieces and then errMore.
type source struct {
	data []byte
	cut  func(left int) int
	late bool // the last piece comes with the error
	hit  bool
}

func (s *source) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		s.hit = true
		return 0, errMore
	}
	n := s.cut(len(s.data))
	if n > len(p) {
		n = len(p)
	}
	if n > len(s.data) {
		n = len(s.data)
	}
	copy(p, s.data[:n])
	s.data = s.data[n:]
	if s.late && len(s.data) == 0 {
		s.hit = true
		return n, errMore
	}
	return n, nil
}

type outcome struct {
	res, late, end string
}

// read reads everything there is, showing each frame when it comes and again at the end.
func read(data string, cmd string, how int, rng *rand.Rand, size int) (o outcome) {
	defer func() {
		if e := recover(); e != nil {
			o.end = fmt.Sprintf("panic: %v %s", e, debug.Stack())
		}
	}()
	s := &source{data: []byte(data)}
	switch how {
	case 0:
		s.cut = func(n int) int { return n }
	case 1:
		s.cut = func(n int) int { return 1 }
	case 2:
		s.cut = func(n int) int { return 1 + rng.Intn(n) }
	case 3:
		s.cut = func(n int) int { return rng.Intn(4) } // also empty reads
	case 4:
		s.cut = func(n int) int { return n }
		s.late = true
	case 5:
		s.cut = func(n int) int { return 4090 + rng.Intn(8) }
	}
	var r *frame.Reader
	if size > 0 {
		r = frame.NewReaderSize(s, size)
	} else {
		r = frame.NewReader(s)
	}
	var kept []*frame.Frame
	var b strings.Builder
	for {
		f, err := r.Read()
		if err != nil {
			o.end = "err"
			if errors.Is(err, errMore) || s.hit && (how != 4) {
				o.end = "more"
			} else if s.hit {
				o.end = "?"
			}
			break
		}
		kept = append(kept, f)
		b.WriteString(show(f, cmd))
		if len(kept) > len(data)+1 {
			o.end = "endless"
			break
		}
	}
	o.res = b.String()
	b.Reset()
	for _, f := range kept {
		b.WriteString(show(f, cmd))
	}
	o.late = b.String()
	return
}

// ---- cases

type Case struct {
	K     string      `json:"k"`
	Inp   string      `json:"inp"`
	Res   string      `json:"res"`
	M     string      `json:"m"`
	H     [][2]string `json:"h"`
	B     string      `json:"b"`
	Out   string      `json:"out"`
	CRLF  string      `json:"crlf"`
	Ops   string      `json:"ops"`
	Shown string      `json:"shown"`
}

func decodes(c *Case, inp, cmd string, rng *rand.Rand) string {
	hows := []int{0, 1, 2, 3, 4, 5}
	big := strings.Contains(inp, "X")
	for _, how := range hows {
		if big && (how == 1 || how == 3) && rng.Intn(20) > 0 {
			continue
		}
		size := 0
		if !big && rng.Intn(3) == 0 {
			size = 64 + rng.Intn(40)
		}
		o := read(expand(inp, cmd), cmd, how, rng, size)
		ok := o.res == c.Res && o.late == c.Res
		switch c.M {
		case "free":
			ok = strings.HasPrefix(o.res, c.Res)
		case "err":
			ok = ok && (o.end == "err" || o.end == "?")
		default:
			ok = ok && (o.end == "more" || o.end == "?")
		}
		if strings.HasPrefix(o.end, "panic") || o.end == "endless" {
			ok = false
		}
		if !ok {
			return fmt.Sprintf("%s in pieces of kind %d (buffer %d): returned %s, then %s; to be %s, then %s", inp, how, size, o.res, o.end, c.Res, c.M)
		}
	}
	return ""
}

func build(h [][2]string, body, cmd string) *frame.Frame {
	f := frame.New(cmd)
	for _, e := range h {
		f.Header.Add(expand(e[0], cmd), expand(e[1], cmd))
	}
	if body != "" {
		f.Body = []byte(expand(body, cmd))
	}
	return f
}

func round(c *Case, rng *rand.Rand) string {
	cmd := cmds[rng.Intn(len(cmds))]
	var b bytes.Buffer
	var w *frame.Writer
	if rng.Intn(2) == 0 {
		w = frame.NewWriter(&b)
	} else {
		w = frame.NewWriterSize(&b, 16+rng.Intn(40))
	}
	f := build(c.H, c.B, cmd)
	if err := w.Write(f); err != nil {
		return "Write: " + err.Error()
	}
	got := b.String()
	if got != expand(c.Out, cmd) && got != expand(c.CRLF, cmd) {
		return fmt.Sprintf("wrote %s, to be %s", tokens(got, cmd), c.Out)
	}
	c.M = "line"
	if s := decodes(c, c.Out, cmd, rng); s != "" {
		return s
	}
	return decodes(c, c.CRLF, cmd, rng)
}

// ---- headers

type pair struct{ f [2]*frame.Frame }

func same(s string) string { return s }

func (p *pair) shown() string {
	return entries(p.f[0].Header, same) + "!" + string(p.f[0].Body) + "/" + entries(p.f[1].Header, same) + "!" + string(p.f[1].Body)
}

func (p *pair) do(op byte, o, q int, k, v string) {
	f := p.f[o]
	switch op {
	case 'A':
		f.Header.Add(k, v)
	case 'S':
		f.Header.Set(k, v)
	case 'D':
		f.Header.Del(k)
	case 'H':
		f.Header.AddHeader(p.f[q].Header)
	case 'N':
		f.Header.AddHeader(nil)
	case 'C':
		p.f[1-o] = f.Clone()
	case 'c':
		p.f[1-o].Header = f.Header.Clone()
	case 'B':
		f.Body[q] = v[0]
	case 'W':
		f.Body = []byte(v)
	}
}

func asked(h *frame.Header, k string) string {
	s := "-"
	v, ok := h.Contains(k)
	if ok {
		s = "+" + v
	}
	if g := h.Get(k); g != v {
		s = "Get " + g + " Contains " + v
	}
	s += ":"
	for _, x := range h.GetAll(k) {
		s += x + ";"
	}
	return s
}

func ops(c *Case) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("panic: %v", e)
		}
	}()
	w := strings.Fields(c.Ops)
	p := &pair{}
	p.f[0] = &frame.Frame{Command: "SEND", Body: []byte("uv")}
	switch w[0] {
	case "e":
		p.f[0].Header = &frame.Header{}
	case "o":
		p.f[0].Header = frame.NewHeader("a", "x", "b")
	case "m":
		p.f[0].Header = frame.NewHeader("a", "x", "b", "y", "a", "z", "a", "w", "b", "v")
	case "d":
		p.f[0].Header = frame.New("X", "b", "p", "a", "q", "a", "r", "a", "s").Header
	}
	p.f[1] = frame.New("SEND")
	for i, x := range w[1:] {
		o, q, k := int(x[1]-'1'), 0, ""
		if len(x) > 2 {
			if x[0] == 'H' {
				q = int(x[2] - '1')
			} else {
				k = x[2:]
			}
		}
		p.do(x[0], o, q, k, strconv.Itoa(i+1))
	}
	if got := p.shown(); got != c.Shown {
		return "after " + c.Ops + ": " + got + ", to be " + c.Shown
	}
	for o := range p.f {
		h := p.f[o].Header
		for _, k := range []string{"a", "A", "b", "none"} {
			want, all := "-", ""
			for i := h.Len() - 1; i >= 0; i-- {
				if n, v := h.GetAt(i); n == k {
					want = "+" + v
					all = v + ";" + all
				}
			}
			if got := asked(h, k); got != want+":"+all {
				return "after " + c.Ops + ": asked for " + k + ": " + got + ", to be " + want + ":" + all
			}
		}
	}
	return ""
}

func TestReplay(t *testing.T) {
	in := os.Getenv("CASES")
	if in == "" {
		t.Skip()
	}
	r, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	w, err := os.Create(os.Getenv("OUT"))
	if err != nil {
		t.Fatal(err)
	}
	defer w.Close()
	rng := rand.New(rand.NewSource(envInt("SEED", 1)))
	sc := bufio.NewScanner(r)
	sc.Buffer(nil, 1<<24)
	bad := 0
	for sc.Scan() {
		var c Case
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			t.Fatal(err)
		}
		fmt.Fprintf(w, "at %s\n", sc.Bytes()) // what was being done if the process dies
		var msg string
		switch c.K {
		case "stream":
			msg = decodes(&c, c.Inp, cmds4[rng.Intn(2)], rng)
		case "round":
			msg = round(&c, rng)
		case "ops":
			msg = ops(&c)
		}
		if msg != "" {
			fmt.Fprintf(w, "BAD %q\n", msg)
			if bad++; bad > 20 {
				break
			}
		}
	}
	fmt.Fprintln(w, "DONE")
}

// ---- random ones

const namech = "aECLRncruf1Kpb"
const bodych = "a0LXREcuf12SCm"

func str(rng *rand.Rand, set string, lo, hi int) string {
	var b strings.Builder
	for i := lo + rng.Intn(hi-lo+1); i > 0; i-- {
		b.WriteByte(set[rng.Intn(len(set))])
	}
	return b.String()
}

func digits(n int) string {
	return strings.ReplaceAll(strings.ReplaceAll(strconv.Itoa(n), "4094", "Y"), "0", "z")
}

type enc struct {
	H [][2]string `json:"h"`
	B string      `json:"b"`
}

// randomFrame makes a frame with at most *w long headers; odd: perhaps with something near a number as content-length.
func randomFrame(rng *rand.Rand, w *int, odd bool) enc {
	f := enc{H: [][2]string{}}
	for i := rng.Intn(6); i > 0; i-- {
		k := str(rng, namech, 1, 4)
		if k == "K" {
			k = "aK"
		}
		v := str(rng, namech, 0, 6)
		if *w > 0 && rng.Intn(4) == 0 { // something long before or between the others
			*w--
			j := rng.Intn(len(v) + 1)
			v = v[:j] + "w" + v[j:]
		}
		f.H = append(f.H, [2]string{k, v})
	}
	f.B = str(rng, bodych, 0, 9)
	if strings.Contains(f.B, "0") || rng.Intn(2) == 0 {
		e := [2]string{"K", digits(len(expand(f.B, "SEND")))}
		if odd && rng.Intn(20) == 0 {
			j := rng.Intn(len(e[1]) + 1)
			e[1] = e[1][:j] + str(rng, "pmbzRE1un", 1, 1) + e[1][j:]
		}
		i := rng.Intn(len(f.H) + 1)
		f.H = append(f.H[:i], append([][2]string{e}, f.H[i:]...)...)
	}
	return f
}

func (f *enc) encode(eol string) string {
	var b bytes.Buffer
	x := frame.NewWriter(&b)
	_ = x
	esc := strings.NewReplacer("E", "EE", "L", "En", "R", "Er", "C", "Ec")
	s := "S" + eol
	for _, e := range f.H {
		s += esc.Replace(e[0]) + "C" + esc.Replace(e[1]) + eol
	}
	return s + eol + f.B + "0"
}

func TestDrive(t *testing.T) {
	out := os.Getenv("OUT")
	if out == "" || os.Getenv("CASES") != "" {
		t.Skip()
	}
	fam := os.Getenv("FAM")
	seed, lo, n := envInt("SEED", 1), envInt("LO", 0), envInt("N", 10)
	w, err := os.Create(out)
	if err != nil {
		t.Fatal(err)
	}
	for i := lo; i < lo+n; i++ {
		s := seed*1000003 + i
		fmt.Fprintf(os.Stderr, "SCENARIO %s %d\n", fam, s)
		rng := rand.New(rand.NewSource(s))
		var tr map[string]any
		switch fam {
		case "F01":
			tr = written(rng)
		case "F02":
			tr = decoded(rng)
		case "F03":
			tr = operated(rng)
		}
		tr["id"] = fmt.Sprintf("%s/%d", fam, s)
		b, err := json.Marshal(tr)
		if err != nil {
			t.Fatal(err)
		}
		w.Write(append(b, '\n'))
	}
	w.Close()
	os.Exit(0)
}

func written(rng *rand.Rand) map[string]any {
	long(rng)
	var b bytes.Buffer
	w := frame.NewWriter(&b)
	if rng.Intn(3) == 0 {
		w = frame.NewWriterSize(&b, 16+rng.Intn(5000))
	}
	var fs []enc
	var wires []string
	for i := 1 + rng.Intn(6); i > 0; i-- {
		n := 6
		f := randomFrame(rng, &n, false)
		fs = append(fs, f)
		at := b.Len()
		if err := w.Write(build(f.H, f.B, "SEND")); err != nil {
			wires = append(wires, "?"+err.Error())
			continue
		}
		wires = append(wires, tokens(string(b.Bytes()[at:]), "SEND"))
	}
	o := read(b.String(), "SEND", []int{0, 2, 3, 5}[rng.Intn(4)], rng, 0)
	return map[string]any{"k": "enc", "frames": fs, "wires": wires, "res": o.res, "late": o.late, "end": o.end}
}

func decoded(rng *rand.Rand) map[string]any {
	s := ""
	long(rng)
	n := 0
	how := 4 // what is done to it
	if rng.Intn(4) == 0 {
		n, how = 3, 0
	}
	for i := 1 + rng.Intn(4); i > 0; i-- {
		f := randomFrame(rng, &n, how > 0)
		x := f.encode([]string{"L", "RL"}[rng.Intn(2)])
		if how > 0 {
			how = 1 + rng.Intn(4)
		}
		switch how - 1 {
		case 0: // change a token
			j := rng.Intn(len(x))
			x = x[:j] + str(rng, "SLREC0ancrKY12zXufpmb", 0, 2) + x[j+rng.Intn(2):]
		case 1:
			if rng.Intn(3) == 0 { // leave out a part
				j := rng.Intn(len(x))
				x = x[:j] + x[j+rng.Intn(len(x)-j):]
			}
		}
		s += x
		for j := rng.Intn(4); j > 1; j-- {
			s += []string{"L", "RL"}[rng.Intn(2)]
		}
	}
	if rng.Intn(3) == 0 {
		s = s[:rng.Intn(len(s)+1)]
	}
	s = strings.ReplaceAll(s, "4z94", "Y")
	o := read(expand(s, "SEND"), "SEND", []int{0, 1, 2, 3, 5}[rng.Intn(5)], rng, 0)
	if o.res != o.late {
		o.res += " and later " + o.late
	}
	return map[string]any{"k": "dec", "inp": s, "res": o.res, "end": o.end}
}

type hev struct {
	Op    string `json:"op"`
	O     int    `json:"o"`
	P     int    `json:"p"`
	K     string `json:"k"`
	V     string `json:"v"`
	Shown string `json:"shown"`
	Asked string `json:"asked"`
}

func operated(rng *rand.Rand) map[string]any {
	p := &pair{}
	p.f[0], p.f[1] = frame.New("SEND"), frame.New("SEND")
	var ev []hev
	for i := 10 + rng.Intn(60); i > 0; i-- {
		e := hev{Op: string("AAAASSDDHCcBWW"[rng.Intn(14)]), O: rng.Intn(2), K: string("abcAB"[rng.Intn(5)]), V: strconv.Itoa(i)}
		n := len(p.f[e.O].Body)
		switch e.Op {
		case "H":
			e.P = rng.Intn(2)
			if p.f[0].Header.Len()+p.f[1].Header.Len() > 30 {
				e.Op = "D"
			}
		case "B":
			if n == 0 {
				e.Op = "W"
			} else {
				e.P = rng.Intn(n)
				e.V = string("xyz"[rng.Intn(3)])
			}
		}
		p.do(e.Op[0], e.O, e.P, e.K, e.V)
		e.Shown = p.shown()
		e.Asked = asked(p.f[e.O].Header, e.K)
		e.O++ // sequences of the specification begin at 1
		e.P++
		ev = append(ev, e)
	}
	return map[string]any{"k": "ops", "ev": ev}
}
