// Package drv holds what the drivers share.
package drv

import (
	"bytes"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"testing/synctest"
	"time"

	"verif/vsched"
	"verif/wire"
)

func EnvInt(k string, d int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return d
}

// Goroutines counts those that run code of the library, but not of the driver.
func Goroutines(not string) int {
	b := make([]byte, 1<<20)
	for {
		n := runtime.Stack(b, true)
		if n < len(b) {
			b = b[:n]
			break
		}
		b = make([]byte, 2*len(b))
	}
	k := 0
	for _, g := range strings.Split(string(b), "\n\n") {
		if strings.Contains(g, "go-stomp/stomp/") && (not == "" || !strings.Contains(g, not)) {
			k++
		}
	}
	return k
}

// Settle waits until nothing moves any more (without letting time pass).
func Settle() {
	for {
		synctest.Wait()
		if vsched.Sleeping() == 0 {
			return
		}
		time.Sleep(50 * time.Nanosecond)
	}
}

// Plan draws how goroutines are held back.
func Plan(rng *rand.Rand, nsites int) vsched.Plan {
	p := vsched.Plan{Max: int64(50 + rng.Intn(2000))}
	switch rng.Intn(6) {
	case 0:
	case 1, 2:
		p.Mode, p.P = "uniform", []float64{.01, .05, .2, .5}[rng.Intn(4)]
	case 3, 4:
		p.Mode = "sites"
		p.Sites = map[int]bool{}
		for i := 0; i <= rng.Intn(6); i++ {
			p.Sites[rng.Intn(nsites)] = true
		}
	case 5:
		p.Mode = "delays"
		p.At = map[int64]bool{}
		for i := 0; i <= rng.Intn(4); i++ {
			p.At[int64(rng.Intn(3000))] = true
		}
		p.Max = int64(1000 + rng.Intn(20000))
	}
	return p
}

var Nasty = []string{"plain", "a:b", "back\\slash", "line\nfeed", "cr\rlf\r\n", "\\c\\n\\r\\\\", "", " lead trail ", "\xff\xfe", "ünï", "\\", "\t", ":", "\\\\n", "x"}

func Pick[T any](rng *rand.Rand, s []T) T { return s[rng.Intn(len(s))] }

// Scripts reads the scripts to replay, if any.
func Scripts() ([][]byte, error) {
	p := os.Getenv("SCRIPTS")
	if p == "" {
		return nil, nil
	}
	b, err := os.ReadFile(p)
	if err != nil {
		return nil, err
	}
	return bytes.Split(bytes.TrimSpace(b), []byte("\n")), nil
}

// Weighted draws a key.
func Weighted(rng *rand.Rand, w map[string]int, order []string) string {
	t := 0
	for _, k := range order {
		t += w[k]
	}
	n := rng.Intn(t)
	for _, k := range order {
		if n -= w[k]; n < 0 {
			return k
		}
	}
	return order[0]
}

func FirstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return wire.Pct(s)
}
