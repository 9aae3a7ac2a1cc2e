// Replays on the real package: directed and random histories compared with
// the executable specification. Run only after an obligation has failed, to
// find a concrete failing input. Uses the public interface only.
package sha1cd

import (
	"bytes"
	"crypto/sha1"
	"encoding"
	"encoding/hex"
	"fmt"
	"hash"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/pjbgf/sha1cd/internal/verifspec"
)

type vHash interface {
	hash.Hash
	CollisionResistantSum([]byte) ([]byte, bool)
}

type vCodec interface {
	encoding.BinaryMarshaler
	encoding.BinaryUnmarshaler
}

func vNew() vHash { return New().(vHash) }

var vRand = func() *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n + 12345))
}()

func vData(t *testing.T, name string) []byte {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_REPLAY_DATA"), name))
	if err != nil {
		t.Skip(err)
	}
	return b
}

// messages: interesting lengths and contents, flagged prefixes among them.
func vMessages(t *testing.T) func() []byte {
	pre := [][]byte{nil, nil, nil, vData(t, "shattered-1.bin")[:320], vData(t, "shattered-2.bin")[:320], vData(t, "shambles-1.bin")}
	n := 0
	return func() []byte {
		n++
		p := pre[vRand.Intn(len(pre))]
		l := vRand.Intn(300)
		switch {
		case n <= 400:
			l, p = n-1, nil
		case n <= 1000:
			l = (n - 400) % 150
			p = pre[3+n%3]
		case n%50 == 0:
			l = vRand.Intn(70000)
		}
		b := make([]byte, l)
		switch n % 5 {
		case 0:
			for i := range b {
				b[i] = 0xff
			}
		case 1:
		default:
			vRand.Read(b)
		}
		return append(append([]byte{}, p...), b...)
	}
}

func vLoop(t *testing.T, f func()) {
	end := time.Now().Add(12 * time.Second)
	for n := 0; n < 3000 || time.Now().Before(end); n++ {
		if n%16 == 0 && time.Now().After(end.Add(20*time.Second)) {
			return
		}
		f()
	}
}

func vFail(t *testing.T, format string, a ...any) {
	t.Helper()
	fmt.Printf("FAILING-INPUT: %s\n", fmt.Sprintf(format, a...))
	t.FailNow()
}

func vMsg(b []byte) string {
	if len(b) <= 700 {
		return fmt.Sprintf("%d bytes %x", len(b), b)
	}
	return fmt.Sprintf("%d bytes, sha1 %x, first %x", len(b), sha1.Sum(b), b[:64])
}

// vSplit writes b in random pieces.
func vSplit(h hash.Hash, b []byte) (cuts []int, bad string) {
	for len(b) > 0 || vRand.Intn(4) == 0 {
		n := vRand.Intn(len(b) + 1)
		if vRand.Intn(2) == 0 {
			n = min(n, vRand.Intn(130))
		}
		cuts = append(cuts, n)
		k, err := h.Write(b[:n])
		if k != n || err != nil {
			return cuts, fmt.Sprintf("Write of %d bytes returned %d, %v", n, k, err)
		}
		b = b[n:]
	}
	return cuts, ""
}

func vSaved(h hash.Hash) []byte {
	m, ok := h.(vCodec)
	if !ok {
		return nil
	}
	b, err := m.MarshalBinary()
	if err != nil {
		return []byte(err.Error())
	}
	return b
}

// vState is everything observable about a hasher.
func vState(h vHash) string {
	s := h.Sum(nil)
	d, c := h.CollisionResistantSum(nil)
	return fmt.Sprintf("%x %x %v %x", s, d, c, vSaved(h))
}

func vDirty(t *testing.T, msg func() []byte) vHash {
	h := vNew()
	h.Write(msg())
	if vRand.Intn(3) == 0 { // any well-formed saved state at all
		if m, ok := h.(vCodec); ok {
			s := vSaved(h)
			if len(s) > 40 {
				vRand.Read(s[6:])
				if vRand.Intn(2) == 0 {
					for i := 0; i < 8; i++ {
						s[len(s)-1-i] = 0
					}
					s[len(s)-1] = byte(vRand.Intn(3) * vRand.Intn(70))
				}
				m.UnmarshalBinary(s)
			}
		}
	}
	return h
}

// vStart is a hasher somewhere in a stream, by its saved state, and the state
// of the specification it stands for: among others right before a flagged
// block with the verdict already set. The message has to be non-empty.
func vStart(t *testing.T, msg func() []byte) (vHash, verifspec.Digest, string, []byte) {
	h := vNew()
	b := msg()
	var d verifspec.Digest
	switch vRand.Intn(4) {
	case 0: // anywhere
		d = verifspec.New().Write(b)
	case 1: // right before the flagged block
		pre := vData(t, []string{"shattered-1.bin", "shattered-2.bin"}[vRand.Intn(2)])
		k := 193 + vRand.Intn(64)
		d = verifspec.New().Write(pre[:k])
		b = append(append([]byte{}, pre[k:320]...), b...)
	case 2:
		pre := vData(t, "shambles-1.bin")
		k := len(pre) - 1 - vRand.Intn(130)
		d = verifspec.New().Write(pre[:k])
		b = append(append([]byte{}, pre[k:]...), b...)
	default:
		for i := range d.H {
			d.H[i] = vRand.Uint32()
		}
		d.Len = vRand.Uint64()
		d.NX = int(d.Len % 64)
		vRand.Read(d.X[:d.NX])
	}
	if vRand.Intn(2) == 0 {
		d.Col = true
	}
	fl := vNew()
	if d.Col {
		fl.Write(vData(t, "shattered-1.bin"))
	}
	s := vSaved(fl)
	if len(s) < 93 {
		return h, verifspec.New(), "new hasher", b
	}
	s = s[:len(s)-92]
	for _, x := range d.H {
		s = append(s, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	}
	s = append(s, d.X[:]...)
	for k := 56; k >= 0; k -= 8 {
		s = append(s, byte(d.Len>>uint(k)))
	}
	if h.(vCodec).UnmarshalBinary(s) != nil {
		return vNew(), verifspec.New(), "new hasher", b
	}
	return h, d, fmt.Sprintf("hasher restored from %x", s), b
}

func TestVerifC14(t *testing.T) {
	msg := vMessages(t)
	for n := 0; n < 400; n++ {
		b := msg()
		want, wc := verifspec.Sum(b)
		if d, c := Sum(b); d != want || c != wc {
			vFail(t, "Sum of %s = %x, %v, want %x, %v", vMsg(b), d, c, want, wc)
		}
	}
}

func TestVerifC01(t *testing.T) {
	msg := vMessages(t)
	vLoop(t, func() {
		b := msg()
		want := sha1.Sum(b)
		d, c := Sum(b)
		if !c && d != want {
			vFail(t, "Sum of %s = %x without verdict, SHA-1 is %x", vMsg(b), d, want)
		}
		h := vNew()
		cuts, _ := vSplit(h, b)
		s, c2 := h.CollisionResistantSum(nil)
		if !c2 && !bytes.Equal(s, want[:]) {
			vFail(t, "streaming digest of %s split %v = %x without verdict, SHA-1 is %x", vMsg(b), cuts, s, want)
		}
		if s3 := h.Sum(nil); !c2 && !bytes.Equal(s3, want[:]) {
			vFail(t, "Sum of %s split %v = %x without verdict, SHA-1 is %x", vMsg(b), cuts, s3, want)
		}
	})
}

func TestVerifC02(t *testing.T) {
	msg := vMessages(t)
	vLoop(t, func() {
		b := msg()
		want, wc := verifspec.Sum(b)
		d, c := Sum(b)
		if c == wc && d != want {
			vFail(t, "Sum of %s (verdict %v) = %x, the safe hash is %x", vMsg(b), c, d, want)
		}
		h := vNew()
		cuts, _ := vSplit(h, b)
		s, c2 := h.CollisionResistantSum(nil)
		if c2 == wc && !bytes.Equal(s, want[:]) {
			vFail(t, "streaming digest of %s split %v (verdict %v) = %x, the safe hash is %x", vMsg(b), cuts, c2, s, want)
		}
		h, d0, how, b := vStart(t, msg)
		cuts, _ = vSplit(h, b)
		want, wc = d0.Write(b).Finish()
		s, c2 = h.CollisionResistantSum(nil)
		if c2 == wc && !bytes.Equal(s, want[:]) {
			vFail(t, "%s, then %s split %v (verdict %v): %x, the safe hash is %x", how, vMsg(b), cuts, c2, s, want)
		}
	})
}

func TestVerifC03(t *testing.T) {
	msg := vMessages(t)
	vLoop(t, func() {
		b := msg()
		_, wc := verifspec.Sum(b)
		if _, c := Sum(b); c != wc {
			vFail(t, "Sum of %s: verdict %v, the test of the disturbance vectors says %v", vMsg(b), c, wc)
		}
	})
}

func TestVerifC04(t *testing.T) {
	msg := vMessages(t)
	vLoop(t, func() {
		g, d0, how, q := vStart(t, msg)
		cuts, _ := vSplit(g, q)
		_, qc := d0.Write(q).Finish()
		if _, c := g.CollisionResistantSum(nil); c != qc {
			vFail(t, "%s, then %s split %v: verdict %v, want %v", how, vMsg(q), cuts, c, qc)
		}
		b := msg()
		_, wc := verifspec.Sum(b)
		if _, c := Sum(b); c != wc {
			vFail(t, "Sum of %s: verdict %v, want %v", vMsg(b), c, wc)
		}
		h := vNew()
		var sofar []byte
		rest := b
		for i := 0; i < 6; i++ {
			n := vRand.Intn(len(rest) + 1)
			h.Write(rest[:n])
			sofar = append(sofar, rest[:n]...)
			rest = rest[n:]
			if vRand.Intn(2) == 0 {
				h.Sum(nil)
			}
			_, w := verifspec.Sum(sofar)
			if _, c := h.CollisionResistantSum(nil); c != w {
				vFail(t, "verdict after writing %s: %v, want %v", vMsg(sofar), c, w)
			}
			if vRand.Intn(8) == 0 {
				h.Reset()
				sofar = nil
			}
			if vRand.Intn(8) == 0 {
				if m, ok := h.(vCodec); ok {
					s, _ := m.MarshalBinary()
					g := vDirty(t, msg)
					if g.(vCodec).UnmarshalBinary(s) == nil {
						h = g
					}
				}
			}
		}
	})
}

func TestVerifC05(t *testing.T) {
	msg := vMessages(t)
	vLoop(t, func() {
		if g, _, how, q := vStart(t, msg); how != "new hasher" {
			e := vNew()
			e.(vCodec).UnmarshalBinary(vSaved(g))
			start := vState(e)
			same := start == vState(g)
			cuts, bad := vSplit(g, q)
			if bad != "" {
				vFail(t, "%s, then %s split %v: %s", how, vMsg(q), cuts, bad)
			}
			e.Write(q)
			if x, y := vState(e), vState(g); same && x != y {
				vFail(t, "%s, then %s in one write: %s; split %v: %s", how, vMsg(q), x, cuts, y)
			}
		}
		b := msg()
		a, c := vNew(), vNew()
		if n, err := a.Write(b); n != len(b) || err != nil {
			vFail(t, "Write of %s returned %d, %v", vMsg(b), n, err)
		}
		cuts, bad := vSplit(c, b)
		if bad != "" {
			vFail(t, "%s split %v: %s", vMsg(b), cuts, bad)
		}
		if n, err := c.Write(nil); n != 0 || err != nil {
			vFail(t, "Write(nil) returned %d, %v", n, err)
		}
		if x, y := vState(a), vState(c); x != y {
			vFail(t, "%s in one write: %s; split %v: %s", vMsg(b), x, cuts, y)
		}
	})
}

func TestVerifC06(t *testing.T) {
	msg := vMessages(t)
	vLoop(t, func() {
		b, more := msg(), msg()
		a, c := vNew(), vNew()
		a.Write(b)
		c.Write(b)
		pre := make([]byte, vRand.Intn(40), 40+vRand.Intn(40))
		vRand.Read(pre)
		full := pre[:cap(pre)]
		for i := len(pre); i < len(full); i++ {
			full[i] = byte(i)
		}
		keep := append([]byte{}, full...)
		want, _ := verifspec.Sum(b)
		got := a.Sum(pre)
		if !bytes.Equal(got, append(append([]byte{}, pre...), want[:]...)) {
			vFail(t, "Sum(%x) after %s = %x, digest %x", pre, vMsg(b), got, want)
		}
		for i := range keep {
			if (i < len(pre) || i >= len(pre)+20) && full[i] != keep[i] {
				vFail(t, "Sum(%x) after %s changed byte %d of the caller's array", pre, vMsg(b), i)
			}
		}
		tight := append([]byte{}, pre...)
		tight = tight[:len(tight):len(tight)]
		got2, _ := a.CollisionResistantSum(tight)
		if !bytes.Equal(got2, append(append([]byte{}, pre...), want[:]...)) {
			vFail(t, "CollisionResistantSum(%x) after %s = %x, digest %x", pre, vMsg(b), got2, want)
		}
		for i := range got2 {
			got2[i] ^= 0xff
		}
		if a.Size() != 20 || a.BlockSize() != 64 {
			vFail(t, "Size %d BlockSize %d", a.Size(), a.BlockSize())
		}
		a.Write(more)
		c.Write(more)
		if x, y := vState(a), vState(c); x != y {
			vFail(t, "after %s, reading, then %s: %s; without reading: %s", vMsg(b), vMsg(more), x, y)
		}
	})
}

func TestVerifC07(t *testing.T) {
	msg := vMessages(t)
	vLoop(t, func() {
		h := vDirty(t, msg)
		hist := "written"
		if vRand.Intn(2) == 0 {
			h.Sum(nil)
			hist += ", read"
		}
		if vRand.Intn(2) == 0 {
			h.CollisionResistantSum(nil)
			hist += ", verdict read"
		}
		if vRand.Intn(3) == 0 {
			if m, ok := h.(vCodec); ok {
				m.UnmarshalBinary(vSaved(vDirty(t, msg)))
				hist += ", restored"
			}
		}
		h.Reset()
		n := vNew()
		if x, y := vState(h), vState(n); x != y {
			vFail(t, "hasher %s then reset: %s; new: %s", hist, x, y)
		}
		b := msg()
		h.Write(b)
		n.Write(b)
		if x, y := vState(h), vState(n); x != y {
			vFail(t, "hasher %s then reset, then %s: %s; new: %s", hist, vMsg(b), x, y)
		}
	})
}

func TestVerifC08(t *testing.T) {
	msg := vMessages(t)
	vLoop(t, func() {
		b := msg()
		h := vNew()
		if vRand.Intn(2) == 0 {
			h, _, _, b = vStart(t, msg)
		}
		h.Write(b)
		before := vState(h)
		m, ok := h.(vCodec)
		if !ok {
			vFail(t, "the hasher cannot be saved")
		}
		s, err := m.MarshalBinary()
		if err != nil {
			vFail(t, "MarshalBinary after %s: %v", vMsg(b), err)
		}
		if x := vState(h); x != before {
			vFail(t, "MarshalBinary after %s changed the hasher: %s, was %s", vMsg(b), x, before)
		}
		keep := append([]byte{}, s...)
		g := vDirty(t, msg)
		if vRand.Intn(3) == 0 {
			g = vNew()
		}
		if err := g.(vCodec).UnmarshalBinary(s); err != nil {
			vFail(t, "UnmarshalBinary of the state after %s: %v", vMsg(b), err)
		}
		for i := range s {
			s[i] ^= 0x55
		}
		if x := vState(g); x != before {
			vFail(t, "restored state %x after %s: %s, was %s", keep, vMsg(b), x, before)
		}
		more := msg()
		h.Write(more)
		g.Write(more)
		if x, y := vState(h), vState(g); x != y {
			vFail(t, "state %x after %s restored, then %s: %s; original: %s", keep, vMsg(b), vMsg(more), y, x)
		}
	})
}

func TestVerifC09(t *testing.T) {
	msg := vMessages(t)
	vLoop(t, func() {
		h := vDirty(t, msg)
		good := vSaved(vDirty(t, msg))
		size, magics := len(good), [][]byte{good[:6]}
		if len(good) < 6 {
			vFail(t, "saved state %x", good)
		}
		magics = append(magics, vSaved(func() vHash { g := vNew(); g.Write(vData(t, "shattered-1.bin")[:320]); return g }())[:6], vSaved(vNew())[:6])
		var b []byte
		switch vRand.Intn(5) {
		case 0:
			b = append([]byte{}, good[:vRand.Intn(len(good))]...)
		case 1:
			b = append(append([]byte{}, good...), make([]byte, 1+vRand.Intn(70))...)
		case 2:
			b = append([]byte{}, good...)
			b[vRand.Intn(6)] ^= 1 << vRand.Intn(8)
		case 3:
			b = append([]byte{}, good...)
			vRand.Read(b[6:])
		case 4:
			b = make([]byte, vRand.Intn(200))
			vRand.Read(b)
		}
		ok := false
		for _, m := range magics {
			ok = ok || len(b) == size && bytes.Equal(b[:6], m)
		}
		before := vState(h)
		var err error
		func() {
			defer func() {
				if x := recover(); x != nil {
					vFail(t, "UnmarshalBinary(%x) panics: %v", b, x)
				}
			}()
			err = h.(vCodec).UnmarshalBinary(b)
		}()
		if ok != (err == nil) {
			vFail(t, "UnmarshalBinary(%x) = %v, well-formed: %v", b, err, ok)
		}
		if err != nil {
			if x := vState(h); x != before {
				vFail(t, "UnmarshalBinary(%x) = %v changed the hasher: %s, was %s", b, err, x, before)
			}
			return
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					vFail(t, "after UnmarshalBinary(%x): %v", b, x)
				}
			}()
			h.Sum(nil)
			h.Write(msg())
			h.Write(msg())
			h.CollisionResistantSum(nil)
		}()
	})
}

func TestVerifC16(t *testing.T) {
	msg := vMessages(t)
	end := time.Now().Add(15 * time.Second)
	for time.Now().Before(end) {
		b := msg()
		keep := append([]byte{}, b...)
		h := vNew()
		h.Write(b)
		want := vState(h)
		if !bytes.Equal(b, keep) {
			vFail(t, "Write changed its argument %s", vMsg(keep))
		}
		Sum(b)
		if !bytes.Equal(b, keep) {
			vFail(t, "Sum changed its argument %s", vMsg(keep))
		}
		for i := range b {
			b[i] ^= 0xff
		}
		if x := vState(h); x != want {
			vFail(t, "changing the argument of Write afterwards changes the hasher: %s, was %s (%s)", x, want, vMsg(keep))
		}
		s := vSaved(h)
		for i := range s {
			s[i] ^= 0xff
		}
		if x := vState(h); x != want {
			vFail(t, "changing the saved state changes the hasher: %s, was %s (%s)", x, want, vMsg(keep))
		}
		// concurrent hashers
		var msgs [8][]byte
		for i := range msgs {
			msgs[i] = msg()
		}
		var got [8]string
		var wg sync.WaitGroup
		for i := range msgs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				g := vNew()
				m := msgs[i]
				g.Write(m[:len(m)/2])
				runtime.Gosched()
				g.Write(m[len(m)/2:])
				d, c := g.CollisionResistantSum(nil)
				got[i] = fmt.Sprintf("%x %v", d, c)
			}()
		}
		wg.Wait()
		for i := range msgs {
			d, c := verifspec.Sum(msgs[i])
			if w := fmt.Sprintf("%x %v", d, c); got[i] != w {
				vFail(t, "concurrent hashers: %s gives %s, alone %s", vMsg(msgs[i]), got[i], w)
			}
		}
		// interleaved hashers
		x, y := vNew(), vNew()
		for i := 0; i < 6; i++ {
			k := len(msgs[0]) * i / 6
			x.Write(msgs[0][k : len(msgs[0])*(i+1)/6])
			l := len(msgs[1]) * i / 6
			y.Write(msgs[1][l : len(msgs[1])*(i+1)/6])
			if i == 3 {
				y.Sum(nil)
			}
		}
		dx, cx := x.CollisionResistantSum(nil)
		wx, vx := verifspec.Sum(msgs[0])
		if !bytes.Equal(dx, wx[:]) || cx != vx {
			vFail(t, "interleaved hashers: %s gives %x %v, alone %x %v", vMsg(msgs[0]), dx, cx, wx, vx)
		}
	}
}

func TestVerifC17(t *testing.T) {
	msg := vMessages(t)
	vLoop(t, func() {
		b := msg()
		where := ""
		defer func() {
			if x := recover(); x != nil {
				vFail(t, "%s on %s: %v", where, vMsg(b), x)
			}
		}()
		h := vNew()
		where = "Write"
		vSplit(h, b)
		where = "Sum"
		h.Sum(nil)
		where = "CollisionResistantSum"
		h.CollisionResistantSum(make([]byte, 3))
		where = "MarshalBinary"
		s := vSaved(h)
		if len(s) > 30 {
			vRand.Read(s[6:])
			where = fmt.Sprintf("UnmarshalBinary(%x)", s)
			h.(vCodec).UnmarshalBinary(s)
			where += ", Write"
			h.Write(b)
			where += ", Sum"
			h.Sum(nil)
			h.(vCodec).UnmarshalBinary(s[:vRand.Intn(len(s))])
		}
		where = "Reset"
		h.Reset()
		where = "one-shot Sum"
		Sum(b)
		Sum(nil)
		h.Write(nil)
	})
}

func TestVerifC18(t *testing.T) {
	// the length field of a saved state is its last eight bytes
	probe := vNew()
	probe.Write(make([]byte, 300))
	s := vSaved(probe)
	if len(s) > 8 && hex.EncodeToString(s[len(s)-8:]) == "000000000000012c" {
		lens := []uint64{}
		for _, b := range []uint{29, 31, 32, 33, 35, 40, 61, 62, 63} {
			for d := -70; d <= 70; d += 1 {
				lens = append(lens, 1<<b+uint64(d))
			}
		}
		for i := 0; i < 2000; i++ {
			lens = append(lens, vRand.Uint64())
		}
		for _, l := range lens {
			h := vNew()
			x := make([]byte, 64)
			vRand.Read(x)
			st := append([]byte{}, s...)
			for i := 0; i < 8; i++ {
				st[len(st)-1-i] = byte(l >> (8 * i))
			}
			copy(st[len(st)-8-64:], x)
			if h.(vCodec).UnmarshalBinary(st) != nil {
				continue
			}
			o := verifspec.Digest{NX: int(l % 64), Len: l}
			for i := range o.H {
				o.H[i] = uint32(st[6+4*i])<<24 | uint32(st[7+4*i])<<16 | uint32(st[8+4*i])<<8 | uint32(st[9+4*i])
			}
			copy(o.X[:], x)
			for k := 0; k < 3; k++ {
				want, _ := o.Finish()
				if got := h.Sum(nil); !bytes.Equal(got, want[:]) {
					vFail(t, "after restoring %x and writing %d bytes: digest %x, with the exact length %x", st, o.Len-l, got, want)
				}
				b := make([]byte, vRand.Intn(130))
				h.Write(b)
				o = o.Write(b)
			}
		}
	}
	msg := vMessages(t)
	for i := 0; i < 2000; i++ {
		b := msg()
		want, _ := verifspec.Sum(b)
		if d, _ := Sum(b); d != want {
			vFail(t, "Sum of %s = %x, want %x", vMsg(b), d, want)
		}
		h := vNew()
		cuts, _ := vSplit(h, b)
		if d := h.Sum(nil); !bytes.Equal(d, want[:]) {
			vFail(t, "%s split %v = %x, want %x", vMsg(b), cuts, d, want)
		}
	}
	if strconv.IntSize < 64 || os.Getenv("VERIF_NO_BIG") != "" {
		return
	}
	for _, n := range []uint64{1<<29 + 3, 1<<32 + 77} {
		b := make([]byte, n)
		want := sha1.Sum(b)
		if n > 1<<30 { // the streaming interface only; the rest takes long
			h := vNew()
			h.Write(b)
			if d := h.Sum(nil); !bytes.Equal(d, want[:]) {
				vFail(t, "one write of %d zero bytes = %x, SHA-1 is %x", n, d, want)
			}
			return
		}
		h := vNew()
		h.Write(b)
		if d := h.Sum(nil); !bytes.Equal(d, want[:]) {
			vFail(t, "one write of %d zero bytes = %x, SHA-1 is %x", n, d, want)
		}
		if d, _ := Sum(b); d != want {
			vFail(t, "Sum of %d zero bytes = %x, SHA-1 is %x", n, d, want)
		}
	}
}
