package sha1cd

import (
	"bytes"
	"os"
	"testing"
)

func TestZZDemo(t *testing.T) {
	b, err := os.ReadFile("test/testdata/files/shattered-1.pdf")
	if err != nil {
		t.Skip(err)
	}
	b = b[:320]
	want, col := Sum(b)
	h := New().(CollisionResistantHash)
	for _, c := range b {
		h.Write([]byte{c})
	}
	got, c := h.CollisionResistantSum(nil)
	if c != col || !bytes.Equal(got, want[:]) {
		t.Fatalf("one byte at a time: %x %v, at once: %x %v", got, c, want, col)
	}
}
