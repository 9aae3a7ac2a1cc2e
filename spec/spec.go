// Package verifspec is the executable specification of sha1cd: FIPS 180-4
// SHA-1, the counter-cryptanalysis of Stevens (disturbance vectors,
// unavoidable bit conditions, recompression) and the streaming interface.
//
// It is laid into the module under test with an overlay. The verifier
// executes it symbolically, next to the real code, and asks for equality; the
// replay harness runs it as an oracle. Functions marked opaque are treated as
// uninterpreted where a contract of the real code refers to them.
package verifspec

import "math/bits"

// Digest is the abstract state of a running hash: X[:NX] are the bytes not
// yet absorbed into H, Len the number of bytes written modulo 2^64, and Col
// whether an absorbed block was flagged. NX == Len%64 in every reachable state.
type Digest struct {
	H   [5]uint32
	X   [64]byte
	NX  int
	Len uint64
	Col bool
}

func Init() [5]uint32 {
	return [5]uint32{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}
}

func New() Digest { return Digest{H: Init()} }

// Expand is the message schedule of one block.
func Expand(blk *[64]byte) [80]uint32 {
	var w [80]uint32
	for i := 0; i < 16; i++ {
		w[i] = uint32(blk[4*i])<<24 | uint32(blk[4*i+1])<<16 | uint32(blk[4*i+2])<<8 | uint32(blk[4*i+3])
	}
	for i := 16; i < 80; i++ {
		w[i] = bits.RotateLeft32(w[i-3]^w[i-8]^w[i-14]^w[i-16], 1)
	}
	return w
}

// f is the round function of step i plus its constant.
func f(i int, b, c, d uint32) uint32 {
	switch {
	case i < 20:
		return b&c ^ ^b&d
	case i < 40:
		return b ^ c ^ d
	case i < 60:
		return b&c ^ b&d ^ c&d
	}
	return b ^ c ^ d
}

func k(i int) uint32 {
	switch {
	case i < 20:
		return 0x5a827999
	case i < 40:
		return 0x6ed9eba1
	case i < 60:
		return 0x8f1bbcdc
	}
	return 0xca62c1d6
}

// Rounds runs steps from..to-1.
func Rounds(s [5]uint32, w *[80]uint32, from, to int) [5]uint32 {
	a, b, c, d, e := s[0], s[1], s[2], s[3], s[4]
	for i := from; i < to; i++ {
		t := bits.RotateLeft32(a, 5) + f(i, b, c, d) + e + k(i) + w[i]
		a, b, c, d, e = t, a, bits.RotateLeft32(b, 30), c, d
	}
	return [5]uint32{a, b, c, d, e}
}

// Unrounds inverts steps from-1..to: the state before step "to" of the
// computation whose state before step "from" is s.
func Unrounds(s [5]uint32, w *[80]uint32, from, to int) [5]uint32 {
	a, b, c, d, e := s[0], s[1], s[2], s[3], s[4]
	for i := from - 1; i >= to; i-- {
		b0 := bits.RotateLeft32(c, 2)
		e0 := a - bits.RotateLeft32(b, 5) - f(i, b0, d, e) - k(i) - w[i]
		a, b, c, d, e = b, b0, d, e, e0
	}
	return [5]uint32{a, b, c, d, e}
}

func add(a, b [5]uint32) [5]uint32 {
	for i := range a {
		a[i] += b[i]
	}
	return a
}

// Compress is the SHA-1 compression function on an expanded block.
func Compress(h [5]uint32, w *[80]uint32) [5]uint32 {
	return add(h, Rounds(h, w, 0, 80))
}

// DV is a disturbance vector: type I or II, K, b, the step of the
// recompression test and the bit of the mask.
type DV struct {
	Type, K, B int
	TestT      int
	Bit        uint
}

func DVs() [32]DV {
	return [32]DV{
		{1, 43, 0, 58, 0}, {1, 44, 0, 58, 1}, {1, 45, 0, 58, 2}, {1, 46, 0, 58, 3},
		{1, 46, 2, 58, 4}, {1, 47, 0, 58, 5}, {1, 47, 2, 58, 6}, {1, 48, 0, 58, 7},
		{1, 48, 2, 58, 8}, {1, 49, 0, 58, 9}, {1, 49, 2, 58, 10}, {1, 50, 0, 65, 11},
		{1, 50, 2, 65, 12}, {1, 51, 0, 65, 13}, {1, 51, 2, 65, 14}, {1, 52, 0, 65, 15},
		{2, 45, 0, 58, 16}, {2, 46, 0, 58, 17}, {2, 46, 2, 58, 18}, {2, 47, 0, 58, 19},
		{2, 48, 0, 58, 20}, {2, 49, 0, 58, 21}, {2, 49, 2, 58, 22}, {2, 50, 0, 65, 23},
		{2, 50, 2, 65, 24}, {2, 51, 0, 65, 25}, {2, 51, 2, 65, 26}, {2, 52, 0, 65, 27},
		{2, 53, 0, 65, 28}, {2, 54, 0, 65, 29}, {2, 55, 0, 65, 30}, {2, 56, 0, 65, 31},
	}
}

// Dm is the expanded message difference of a disturbance vector: the
// disturbances expanded both ways from their 16-word window, and the local
// collision they start.
func (v DV) Dm() [80]uint32 {
	var d [100]uint32 // d[i+5] is the disturbance of step i, -5 <= i < 80
	set := func(i int, x uint32) { d[i+5] = x }
	set(v.K+15, 1<<uint(v.B))
	if v.Type == 2 {
		set(v.K+1, 1<<uint((v.B+31)%32))
		set(v.K+3, 1<<uint((v.B+31)%32))
	}
	for i := v.K + 16; i < 80; i++ {
		d[i+5] = bits.RotateLeft32(d[i+5-3]^d[i+5-8]^d[i+5-14]^d[i+5-16], 1)
	}
	for i := v.K - 1; i >= -5; i-- {
		d[i+5] = bits.RotateLeft32(d[i+5+16], 31) ^ d[i+5+13] ^ d[i+5+8] ^ d[i+5+2]
	}
	var m [80]uint32
	for i := range m {
		m[i] = d[i+5] ^ bits.RotateLeft32(d[i+4], 5) ^ d[i+3] ^ bits.RotateLeft32(d[i+2], 30) ^ bits.RotateLeft32(d[i+1], 30) ^ bits.RotateLeft32(d[i], 30)
	}
	return m
}

// Mask is the set of disturbance vectors whose unavoidable bit conditions all
// hold for the expanded message w. (opaque)
func Mask(w *[80]uint32) uint32 {
	var m uint32
	for v := uint(0); v < 32; v++ {
		ok := uint32(1)
		for _, c := range ubc[v] {
			ok &= (w[c.I]>>c.A ^ w[c.J]>>c.B ^ c.Want ^ 1) & 1
		}
		m |= ok << v
	}
	return m
}

// Recompress is the chaining value that results from the message w when the
// state before step t is s: the starting value is reconstructed by running the
// steps backwards, and the final state by running the rest forwards.
func Recompress(t int, w *[80]uint32, s [5]uint32) [5]uint32 {
	return add(Unrounds(s, w, t, 0), Rounds(s, w, t, 80))
}

// Collides tells whether message w with state s before step t ends in the
// chaining value h. (opaque)
func Collides(t int, w *[80]uint32, s, h [5]uint32) bool {
	return Recompress(t, w, s) == h
}

// Detect is the collision test of one compressed block: w its expanded
// message, s58 and s65 its states before steps 58 and 65, h the chaining value
// it produced. (opaque)
func Detect(w *[80]uint32, s58, s65, h [5]uint32) bool {
	mask := Mask(w)
	found := false
	for _, v := range DVs() {
		m2 := *w
		dm := v.Dm()
		for i := range m2 {
			m2[i] ^= dm[i]
		}
		s := s58
		if v.TestT == 65 {
			s = s65
		}
		if Collides(v.TestT, &m2, s, h) && mask>>v.Bit&1 == 1 {
			found = true
		}
	}
	return found
}

// Step absorbs one block: flagged blocks are compressed three times.
func Step(h [5]uint32, blk *[64]byte) ([5]uint32, bool) {
	w := Expand(blk)
	s58 := Rounds(h, &w, 0, 58)
	s65 := Rounds(s58, &w, 58, 65)
	h1 := add(h, Rounds(s65, &w, 65, 80))
	flag := Detect(&w, s58, s65, h1)
	h3 := Compress(Compress(h1, &w), &w)
	for i := range h1 {
		if flag {
			h1[i] = h3[i]
		}
	}
	return h1, flag
}

// Absorb folds Step over the blocks of p, whose length is a multiple of 64,
// and tells whether any of them was flagged. (opaque: a left fold)
func Absorb(h [5]uint32, p []byte) ([5]uint32, bool) {
	col := false
	for len(p) >= 64 {
		var fl bool
		h, fl = Step(h, (*[64]byte)(p))
		col = col || fl
		p = p[64:]
	}
	return h, col
}

// Stream is the pending bytes followed by p, and the length of the longest
// prefix of it that is made of whole blocks.
func (d Digest) Stream(p []byte) (buf []byte, full int) {
	buf = make([]byte, d.NX+len(p))
	copy(buf[:d.NX], d.X[:d.NX])
	copy(buf[d.NX:], p)
	return buf, len(buf) &^ 63
}

// Write appends p to the message.
func (d Digest) Write(p []byte) Digest {
	buf, full := d.Stream(p)
	h, col := Absorb(d.H, buf[:full])
	r := Digest{H: h, NX: len(buf) & 63, Len: d.Len + uint64(len(p)), Col: d.Col || col}
	for i := full; i < len(buf); i++ {
		r.X[i-full] = buf[i]
	}
	return r
}

// Finish pads the message as FIPS 180-4 5.1.1 demands (the length in bits
// modulo 2^64) and returns the digest and the verdict.
func (d Digest) Finish() ([20]byte, bool) {
	pad := make([]byte, 0, 128)
	pad = append(pad, d.X[:d.NX]...)
	pad = append(pad, 0x80)
	for len(pad)%64 != 56 {
		pad = append(pad, 0)
	}
	n := d.Len * 8
	for s := 56; s >= 0; s -= 8 {
		pad = append(pad, byte(n>>uint(s)))
	}
	h, col := Absorb(d.H, pad)
	var out [20]byte
	for i, x := range h {
		out[4*i] = byte(x >> 24)
		out[4*i+1] = byte(x >> 16)
		out[4*i+2] = byte(x >> 8)
		out[4*i+3] = byte(x)
	}
	return out, d.Col || col
}

// Sum is the one-shot function.
func Sum(p []byte) ([20]byte, bool) { return New().Write(p).Finish() }
