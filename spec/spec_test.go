package verifspec

import (
	"crypto/sha1"
	"os"
	"path/filepath"
	"testing"
)

func TestSHA1(t *testing.T) {
	b := make([]byte, 300)
	for i := range b {
		b[i] = byte(i * 7)
	}
	for n := range b {
		s, col := Sum(b[:n])
		if col || s != sha1.Sum(b[:n]) {
			t.Fatal(n)
		}
	}
	d := New()
	for i := 0; i < 300; i += 13 {
		d = d.Write(b[i:min(i+13, 300)])
	}
	if s, _ := d.Finish(); s != sha1.Sum(b) {
		t.Fatal("split")
	}
}

func TestCollisions(t *testing.T) {
	fs, _ := filepath.Glob("/repo/test/testdata/files/*")
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		s, col := Sum(b)
		t.Logf("%s %x %v", filepath.Base(f), s, col)
	}
}

func TestWitness(t *testing.T) {
	x := uint32(1)
	rnd := func() uint32 { x = x*1664525 + 1013904223; return x }
	for v := 0; v < 32; v++ {
		for n := 0; n < 50; n++ {
			w := Witness(v, rnd)
			if Mask(&w)>>uint(v)&1 == 0 {
				t.Fatal(v)
			}
		}
	}
}
