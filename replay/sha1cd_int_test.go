// Replays on unexported functions; skipped when they do not compile any more.
package sha1cd

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/pjbgf/sha1cd/internal/verifspec"
)

// TestVerifIntC03: blocks that do satisfy the recompression test, one per
// disturbance vector, and neighbours of them.
func TestVerifIntC03(t *testing.T) {
	r := rand.New(rand.NewSource(7))
	for round := 0; round < 60; round++ {
		for _, dv := range verifspec.DVs() {
			w := verifspec.Witness(int(dv.Bit), r.Uint32)
			dm := dv.Dm()
			m2 := w
			for i := range m2 {
				m2[i] ^= dm[i]
			}
			var cs [3][5]uint32
			for i := range cs {
				for j := range cs[i] {
					cs[i][j] = r.Uint32()
				}
			}
			s := cs[1]
			if dv.TestT == 65 {
				s = cs[2]
			}
			h := verifspec.Recompress(dv.TestT, &m2, s)
			if round%3 == 1 {
				h[r.Intn(5)] ^= 1 << r.Intn(32)
			}
			if round%5 == 4 {
				w[35+r.Intn(45)] ^= 1 << r.Intn(32)
			}
			want := verifspec.Detect(&w, cs[1], cs[2], h)
			keep := w
			got := checkCollision(&w, &cs, &h)
			if got != want {
				fmt.Printf("FAILING-INPUT: checkCollision for the disturbance vector %d(%d,%d): m1 %x states %x h %x: %v, the specification says %v\n", dv.Type, dv.K, dv.B, keep, cs, h, got, want)
				t.FailNow()
			}
		}
	}
}
