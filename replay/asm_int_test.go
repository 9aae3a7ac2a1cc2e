// Replays of the assembly block function against the specification.
package sha1cd

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/pjbgf/sha1cd/internal/verifspec"
)

func TestVerifIntAsm(t *testing.T) {
	if !vNative() {
		fmt.Println("NOT-NATIVE")
		t.Skip("no such CPU")
	}
	r := rand.New(rand.NewSource(11))
	for n := 0; n < 20000; n++ {
		// guard words around every argument
		var hb [15]uint32
		var mb [96]uint32
		var cb [5][5]uint32
		pb := make([]byte, 128)
		for i := range hb {
			hb[i] = r.Uint32()
		}
		for i := range mb {
			mb[i] = r.Uint32()
		}
		for i := range cb {
			for j := range cb[i] {
				cb[i][j] = r.Uint32()
			}
		}
		r.Read(pb)
		if n%4 == 0 {
			for i := range pb {
				pb[i] = byte(-(r.Intn(3) & 1))
			}
		}
		h0, m0, c0 := hb, mb, cb
		p0 := append([]byte{}, pb...)
		h := hb[5:10]
		call := vAsm
		if n%2 == 1 { // the other alignment of the stack pointer
			call = vAsm8
		}
		bp := call(h, pb[32:96], mb[8:88], cb[1:4])
		fail := func(what string, got, want any) {
			fmt.Printf("FAILING-INPUT: %s: h %x block %x: %s = %x, want %x\n", vAsmName, h0[5:10], p0[32:96], what, got, want)
			t.FailNow()
		}
		if bp != 0 {
			fail("change of the frame pointer", bp, 0)
		}
		w := verifspec.Expand((*[64]byte)(p0[32:96]))
		hin := [5]uint32(h0[5:10])
		want := verifspec.Compress(hin, &w)
		if [5]uint32(h) != want {
			fail("h", h, want)
		}
		if [80]uint32(mb[8:88]) != w {
			fail("m1", mb[8:88], w)
		}
		wc := [3][5]uint32{hin, verifspec.Rounds(hin, &w, 0, 56), verifspec.Rounds(hin, &w, 0, 64)}
		_ = wc
		var cs [3][5]uint32
		copy(cs[:], cb[1:4])
		m := w
		rectifyCompressionState(&m, &cs)
		if cs[1] != verifspec.Rounds(hin, &w, 0, 58) || cs[2] != verifspec.Rounds(hin, &w, 0, 65) {
			fail("states for steps 58 and 65 after rectifyCompressionState", cs[1:], [2][5]uint32{verifspec.Rounds(hin, &w, 0, 58), verifspec.Rounds(hin, &w, 0, 65)})
		}
		for i := range hb {
			if (i < 5 || i >= 10) && hb[i] != h0[i] {
				fail("a word next to h", hb[i], h0[i])
			}
		}
		for i := range mb {
			if (i < 8 || i >= 88) && mb[i] != m0[i] {
				fail("a word next to m1", mb[i], m0[i])
			}
		}
		for i := range cb {
			if (i < 1 || i >= 4) && cb[i] != c0[i] {
				fail("a state next to cs", cb[i], c0[i])
			}
		}
		for i := range pb {
			if pb[i] != p0[i] {
				fail("the block", pb, p0)
			}
		}
	}
}
