// Replays on the C-backed hasher from arbitrary contexts.
package cgo

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"
	"unsafe"

	"github.com/pjbgf/sha1cd/internal/verifspec"
)

func TestVerifIntCgo(t *testing.T) {
	r := rand.New(rand.NewSource(5))
	fail := func(format string, a ...any) {
		fmt.Printf("FAILING-INPUT: %s\n", fmt.Sprintf(format, a...))
		t.FailNow()
	}
	var totals []uint64
	for _, b := range []uint{29, 31, 32, 33, 35, 40, 61, 62, 63} {
		for d := -70; d <= 70; d++ {
			totals = append(totals, 1<<b+uint64(d))
		}
	}
	for len(totals) < 4000 {
		totals = append(totals, r.Uint64())
	}
	for _, l := range totals {
		h := New().(*digest)
		o := verifspec.Digest{NX: int(l % 64), Len: l, Col: r.Intn(2) == 0}
		for i := range o.H {
			o.H[i] = r.Uint32()
		}
		r.Read(o.X[:])
		*(*uint64)(unsafe.Pointer(&h.ctx.total)) = l
		*(*[5]uint32)(unsafe.Pointer(&h.ctx.ihv[0])) = o.H
		*(*[64]byte)(unsafe.Pointer(&h.ctx.buffer[0])) = o.X
		if o.Col {
			h.ctx.found_collision = 1
		}
		clear(o.X[o.NX:])
		at := fmt.Sprintf("context total %d, ihv %08x, buffer %x, found_collision %v", l, o.H, o.X[:o.NX], o.Col)
		for k := 0; k < 3; k++ {
			want, wc := o.Finish()
			if got, c := h.CollisionResistantSum(nil); !bytes.Equal(got, want[:]) || c != wc {
				fail("%s: CollisionResistantSum %x, %v, want %x, %v", at, got, c, want, wc)
			}
			b := make([]byte, r.Intn(200))
			r.Read(b)
			h.Write(b)
			o = o.Write(b)
			at += fmt.Sprintf(", written %x", b)
		}
	}
}
