// Replay on the C table.
package cgo

import (
	"fmt"
	"testing"

	"github.com/pjbgf/sha1cd/internal/verifspec"
)

func TestVerifTab(t *testing.T) {
	for i, dv := range verifspec.DVs() {
		e := vEntry(i)
		want := [6]uint32{uint32(dv.Type), uint32(dv.K), uint32(dv.B), uint32(dv.TestT), 0, uint32(dv.Bit)}
		if [6]uint32(e[:6]) != want || [80]uint32(e[6:]) != dv.Dm() {
			fmt.Printf("FAILING-INPUT: entry %d of the C table is %x, want %x with message difference %x\n", i, e, want, dv.Dm())
			t.FailNow()
		}
	}
	if e := vEntry(32); e != ([86]uint32{}) {
		fmt.Printf("FAILING-INPUT: the last entry of the C table is %x\n", e)
		t.FailNow()
	}
}
