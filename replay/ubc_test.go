// Replays on package ubc.
package ubc

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/pjbgf/sha1cd/internal/verifspec"
)

func vFail(t *testing.T, format string, a ...any) {
	fmt.Printf("FAILING-INPUT: %s\n", fmt.Sprintf(format, a...))
	t.FailNow()
}

func TestVerifC10(t *testing.T) {
	if m := CalculateDvMask(nil); m != 0 {
		vFail(t, "CalculateDvMask(nil) = %08x", m)
	}
	r := rand.New(rand.NewSource(3))
	for n := 0; n < 20000; n++ {
		for v := 0; v < 32; v++ {
			w := verifspec.Witness(v, r.Uint32)
			if n%2 == 1 {
				w[35+r.Intn(45)] ^= 1 << r.Intn(32)
			}
			keep := w
			if got, want := CalculateDvMask(&w), verifspec.Mask(&w); got != want {
				vFail(t, "CalculateDvMask(%x) = %08x, the conditions give %08x", keep, got, want)
			}
		}
	}
}

func TestVerifC11(t *testing.T) {
	tab := SHA1_dvs()
	for i, dv := range verifspec.DVs() {
		if i >= len(tab) {
			vFail(t, "the table has %d entries", len(tab))
		}
		e := tab[i]
		if e.DvType != uint32(dv.Type) || e.DvK != uint32(dv.K) || e.DvB != uint32(dv.B) || e.TestT != uint32(dv.TestT) || e.MaskB != uint32(dv.Bit) || e.MaskI != 0 || e.Dm != dv.Dm() {
			vFail(t, "entry %d is %+v, want %+v with message difference %x", i, e, dv, dv.Dm())
		}
	}
	if len(tab) != 33 || tab[32] != (DvInfo{}) {
		vFail(t, "the table has %d entries and no empty last one", len(tab))
	}
}
