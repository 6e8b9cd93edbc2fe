package e2e

import (
	"fmt"
	"os"
	"testing"
	"testing/synctest"

	"verif/drv"
	"verif/vsched"
)

func TestDrive(t *testing.T) {
	out := os.Getenv("OUT")
	if out == "" {
		t.Skip()
	}
	fam := os.Getenv("FAM")
	seed, lo, n := drv.EnvInt("SEED", 1), drv.EnvInt("LO", 0), drv.EnvInt("N", 10)
	nsites := int(drv.EnvInt("NSITES", 1000))
	w, err := os.Create(out)
	if err != nil {
		t.Fatal(err)
	}
	synctest.Test(t, func(t *testing.T) {
		for i := lo; i < lo+n; i++ {
			s := seed*1000003 + i
			fmt.Fprintf(os.Stderr, "SCENARIO %s %d\n", fam, s)
			r := Random(s, fam, nsites)
			if _, err := w.Write(r.Trace(fam, fmt.Sprintf("%s/%d", fam, s)).Line()); err != nil {
				t.Fatal(err)
			}
		}
		vsched.Stop()
		w.Close()
		os.Exit(0)
	})
}
