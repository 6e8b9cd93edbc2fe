package srv

import (
	"bytes"
	"fmt"
	"os"
	"strconv"
	"testing"
	"testing/synctest"

	"verif/vsched"
)

func envInt(k string, d int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return d
}

func TestDrive(t *testing.T) {
	out := os.Getenv("OUT")
	if out == "" {
		t.Skip()
	}
	fam := os.Getenv("FAM")
	seed, lo, n := envInt("SEED", 1), envInt("LO", 0), envInt("N", 10)
	nsites := int(envInt("NSITES", 1000))
	w, err := os.Create(out)
	if err != nil {
		t.Fatal(err)
	}
	var scripts [][]byte
	if p := os.Getenv("SCRIPTS"); p != "" {
		b, err := os.ReadFile(p)
		if err != nil {
			t.Fatal(err)
		}
		scripts = bytes.Split(bytes.TrimSpace(b), []byte("\n"))
	}
	synctest.Test(t, func(t *testing.T) {
		for i := lo; i < lo+n; i++ {
			s := seed*1000003 + i
			fmt.Fprintf(os.Stderr, "SCENARIO %s %d\n", fam, s)
			var r *Rig
			if scripts == nil {
				r = Random(s, fam, nsites)
			} else {
				sc, err := ParseScript(scripts[i])
				if err != nil {
					t.Fatal(err)
				}
				r = Scripted(s, fam, nsites, sc)
			}
			if _, err := w.Write(r.Trace(fmt.Sprintf("%s/%d", fam, s)).Line()); err != nil {
				t.Fatal(err)
			}
		}
		vsched.Stop()
		w.Close()
		os.Exit(0)
	})
}
