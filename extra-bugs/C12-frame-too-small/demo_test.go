//go:build amd64 && !noasm

package sha1cd

import "testing"

// The caller's frame pointer survives the call.
func TestZZDemo(t *testing.T) {
	if !hasSHANI {
		t.Skip("no such CPU")
	}
	for i, call := range []func(h []uint32, p []byte, m1 []uint32, cs [][5]uint32) uint64{vAsm, vAsm8} {
		var h [5]uint32
		var p [64]byte
		var m1 [80]uint32
		var cs [3][5]uint32
		if x := call(h[:], p[:], m1[:], cs[:]); x != 0 {
			t.Fatalf("caller %d: frame pointer changed by %x", i, x)
		}
	}
}
