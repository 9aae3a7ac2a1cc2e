package verifspec

// Witness returns 80 words that satisfy all bit conditions of the disturbance
// vector with mask bit v; everything else comes from rnd. (For replays.)
func Witness(v int, rnd func() uint32) [80]uint32 {
	var w [80]uint32
	for i := range w {
		w[i] = rnd()
	}
	// the conditions are equations between two bits: walk each component
	type bit struct{ i, b uint32 }
	done := map[bit]bool{}
	var walk func(x bit)
	walk = func(x bit) {
		done[x] = true
		for _, c := range ubc[v] {
			p, q := bit{c.I, c.A}, bit{c.J, c.B}
			if q == x {
				p, q = q, p
			}
			if p != x || done[q] {
				continue
			}
			if (w[p.i]>>p.b^w[q.i]>>q.b^c.Want)&1 != 0 {
				w[q.i] ^= 1 << q.b
			}
			walk(q)
		}
	}
	for _, c := range ubc[v] {
		if x := (bit{c.I, c.A}); !done[x] {
			walk(x)
		}
	}
	return w
}
