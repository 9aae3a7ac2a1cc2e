// Replays on the C-backed package, built with and without C: directed and
// random histories compared with the executable specification.
package cgo

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"hash"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/pjbgf/sha1cd/internal/verifspec"
)

type vHash interface {
	hash.Hash
	CollisionResistantSum([]byte) ([]byte, bool)
}

func vNew() vHash { return New().(vHash) }

var vRand = func() *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n + 12345))
}()

func vData(t *testing.T, name string) []byte {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_REPLAY_DATA"), name))
	if err != nil {
		t.Skip(err)
	}
	return b
}

// messages: interesting lengths and contents, flagged prefixes among them.
func vMessages(t *testing.T) func() []byte {
	pre := [][]byte{nil, nil, nil, vData(t, "shattered-1.bin")[:320], vData(t, "shattered-2.bin")[:320], vData(t, "shambles-1.bin")}
	n := 0
	return func() []byte {
		n++
		p := pre[vRand.Intn(len(pre))]
		l := vRand.Intn(300)
		switch {
		case n <= 400:
			l, p = n-1, nil
		case n <= 1000:
			l = (n - 400) % 150
			p = pre[3+n%3]
		case n%50 == 0:
			l = vRand.Intn(70000)
		}
		b := make([]byte, l)
		switch n % 5 {
		case 0:
			for i := range b {
				b[i] = 0xff
			}
		case 1:
		default:
			vRand.Read(b)
		}
		return append(append([]byte{}, p...), b...)
	}
}

func vLoop(t *testing.T, f func()) {
	end := time.Now().Add(12 * time.Second)
	for n := 0; n < 3000 || time.Now().Before(end); n++ {
		if n%16 == 0 && time.Now().After(end.Add(20*time.Second)) {
			return
		}
		f()
	}
}

func vFail(t *testing.T, format string, a ...any) {
	t.Helper()
	fmt.Printf("FAILING-INPUT: %s\n", fmt.Sprintf(format, a...))
	t.FailNow()
}

func vMsg(b []byte) string {
	if len(b) <= 700 {
		return fmt.Sprintf("%d bytes %x", len(b), b)
	}
	return fmt.Sprintf("%d bytes, sha1 %x, first %x", len(b), sha1.Sum(b), b[:64])
}

// vSplit writes b in random pieces.
func vSplit(h hash.Hash, b []byte) (cuts []int, bad string) {
	for len(b) > 0 || vRand.Intn(4) == 0 {
		n := vRand.Intn(len(b) + 1)
		if vRand.Intn(2) == 0 {
			n = min(n, vRand.Intn(130))
		}
		cuts = append(cuts, n)
		k, err := h.Write(b[:n])
		if k != n || err != nil {
			return cuts, fmt.Sprintf("Write of %d bytes returned %d, %v", n, k, err)
		}
		b = b[n:]
	}
	return cuts, ""
}

func vState(h vHash) string {
	s := h.Sum(nil)
	d, c := h.CollisionResistantSum(nil)
	return fmt.Sprintf("%x %x %v", s, d, c)
}

func TestVerifC10(t *testing.T) {
	mask := func(w *[80]uint32) uint32 {
		switch f := any(CalculateDvMask).(type) {
		case func([80]uint32) uint32:
			return f(*w)
		case func(*[80]uint32) uint32:
			return f(w)
		}
		return verifspec.Mask(w)
	}
	if f, ok := any(CalculateDvMask).(func(*[80]uint32) uint32); ok {
		if m := f(nil); m != 0 {
			vFail(t, "CalculateDvMask(nil) = %08x", m)
		}
	}
	for n := 0; n < 20000; n++ {
		for v := 0; v < 32; v++ {
			w := verifspec.Witness(v, vRand.Uint32)
			if n%2 == 1 {
				w[35+vRand.Intn(45)] ^= 1 << vRand.Intn(32)
			}
			keep := w
			if got, want := mask(&w), verifspec.Mask(&w); got != want {
				vFail(t, "CalculateDvMask(%x) = %08x, the conditions give %08x", keep, got, want)
			}
		}
	}
}

func TestVerifC15(t *testing.T) {
	msg := vMessages(t)
	if h := New(); h.Size() != 20 || h.BlockSize() != 64 {
		vFail(t, "Size and BlockSize are %d and %d", h.Size(), h.BlockSize())
	}
	h := vNew()
	vLoop(t, func() {
		b := msg()
		want, wc := verifspec.Sum(b)
		if d, c := Sum(b); !bytes.Equal(d, want[:]) || c != wc {
			vFail(t, "Sum of %s = %x, %v, want %x, %v", vMsg(b), d, c, want, wc)
		}
		if vRand.Intn(4) == 0 {
			h = vNew()
		} else {
			h.Reset()
		}
		hist := "writes"
		s := verifspec.New()
		for rest := b; len(rest) > 0; {
			n := 1 + vRand.Intn(len(rest))
			if vRand.Intn(2) == 0 {
				n = 1 + vRand.Intn(min(len(rest), 130))
			}
			if k, err := h.Write(rest[:n]); k != n || err != nil {
				vFail(t, "Write of %d bytes returned %d, %v", n, k, err)
			}
			hist += fmt.Sprint(" ", n)
			s = s.Write(rest[:n])
			rest = rest[n:]
			if vRand.Intn(3) == 0 || len(rest) == 0 {
				d, c := s.Finish()
				pre := make([]byte, vRand.Intn(5), 5+vRand.Intn(40))
				vRand.Read(pre)
				keep := append([]byte{}, pre...)
				if vRand.Intn(2) == 0 {
					hist += " Sum"
					if g := h.Sum(pre); !bytes.Equal(g, append(keep, d[:]...)) {
						vFail(t, "%s split as %s: Sum(%x) = %x, want %x", vMsg(b), hist, pre, g, d)
					}
				}
				hist += " CollisionResistantSum"
				if g, gc := h.CollisionResistantSum(pre); !bytes.Equal(g, append(keep, d[:]...)) || gc != c {
					vFail(t, "%s split as %s: CollisionResistantSum(%x) = %x, %v, want %x, %v", vMsg(b), hist, pre, g, gc, d, c)
				}
			}
		}
		if len(b) == 0 {
			if g := h.Sum(nil); !bytes.Equal(g, want[:]) {
				vFail(t, "Sum of nothing = %x, want %x", g, want)
			}
		}
	})
}

func TestVerifC16(t *testing.T) {
	msg := vMessages(t)
	end := time.Now().Add(15 * time.Second)
	for time.Now().Before(end) {
		b := msg()
		keep := append([]byte{}, b...)
		h := vNew()
		h.Write(b)
		want := vState(h)
		if !bytes.Equal(b, keep) {
			vFail(t, "Write changed its argument %s", vMsg(keep))
		}
		Sum(b)
		if !bytes.Equal(b, keep) {
			vFail(t, "Sum changed its argument %s", vMsg(keep))
		}
		for i := range b {
			b[i] ^= 0xff
		}
		if x := vState(h); x != want {
			vFail(t, "changing the argument of Write afterwards changes the hasher: %s, was %s (%s)", x, want, vMsg(keep))
		}
		// concurrent hashers
		var msgs [8][]byte
		for i := range msgs {
			msgs[i] = msg()
		}
		var got [8]string
		var wg sync.WaitGroup
		for i := range msgs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				g := vNew()
				m := msgs[i]
				g.Write(m[:len(m)/2])
				runtime.Gosched()
				g.Write(m[len(m)/2:])
				d, c := g.CollisionResistantSum(nil)
				got[i] = fmt.Sprintf("%x %v", d, c)
			}()
		}
		wg.Wait()
		for i := range msgs {
			d, c := verifspec.Sum(msgs[i])
			if w := fmt.Sprintf("%x %v", d, c); got[i] != w {
				vFail(t, "concurrent hashers: %s gives %s, alone %s", vMsg(msgs[i]), got[i], w)
			}
		}
		// interleaved hashers
		x, y := vNew(), vNew()
		for i := 0; i < 6; i++ {
			k := len(msgs[0]) * i / 6
			x.Write(msgs[0][k : len(msgs[0])*(i+1)/6])
			l := len(msgs[1]) * i / 6
			y.Write(msgs[1][l : len(msgs[1])*(i+1)/6])
			if i == 3 {
				y.Sum(nil)
			}
		}
		dx, cx := x.CollisionResistantSum(nil)
		wx, vx := verifspec.Sum(msgs[0])
		if !bytes.Equal(dx, wx[:]) || cx != vx {
			vFail(t, "interleaved hashers: %s gives %x %v, alone %x %v", vMsg(msgs[0]), dx, cx, wx, vx)
		}
	}
}

func TestVerifC17(t *testing.T) {
	msg := vMessages(t)
	vLoop(t, func() {
		b := msg()
		where := ""
		defer func() {
			if x := recover(); x != nil {
				vFail(t, "%s on %s: %v", where, vMsg(b), x)
			}
		}()
		h := vNew()
		where = "Write"
		vSplit(h, b)
		where = "Sum"
		h.Sum(nil)
		where = "CollisionResistantSum"
		h.CollisionResistantSum(make([]byte, 3))
		where = "Reset"
		h.Reset()
		where = "one-shot Sum"
		Sum(b)
		Sum(nil)
		Sum([]byte{})
		where = "empty Write"
		h.Write(nil)
		h.Write([]byte{})
	})
}

func TestVerifC18(t *testing.T) {
	msg := vMessages(t)
	for i := 0; i < 2000; i++ {
		b := msg()
		want, _ := verifspec.Sum(b)
		if d, _ := Sum(b); !bytes.Equal(d, want[:]) {
			vFail(t, "Sum of %s = %x, want %x", vMsg(b), d, want)
		}
		h := vNew()
		cuts, _ := vSplit(h, b)
		if d := h.Sum(nil); !bytes.Equal(d, want[:]) {
			vFail(t, "%s split %v = %x, want %x", vMsg(b), cuts, d, want)
		}
	}
}
