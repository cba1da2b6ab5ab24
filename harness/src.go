package main

// Source of choices. Every random decision of a generator is one uint32 taken
// from a Src, so a case is a pure function of its choice sequence: shrinking
// works on the sequence (delete, zero, lower), replay of a sequence is exact.

type Src struct {
	state  uint64
	replay []uint32
	isRep  bool
	rec    []uint32
}

func newSrc(seed uint64) *Src { return &Src{state: seed} }

func replaySrc(ch []uint32) *Src { return &Src{replay: ch, isRep: true} }

func splitmix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func mix(parts ...uint64) uint64 {
	var s uint64 = 0x1234567
	for _, p := range parts {
		s ^= p
		s = splitmix(&s)
	}
	return splitmix(&s)
}

func hashString(x string) uint64 {
	var h uint64 = 14695981039346656037
	for i := 0; i < len(x); i++ {
		h ^= uint64(x[i])
		h *= 1099511628211
	}
	return h
}

func (s *Src) next() uint32 {
	var v uint32
	if s.isRep {
		if len(s.rec) < len(s.replay) {
			v = s.replay[len(s.rec)]
		}
	} else {
		v = uint32(splitmix(&s.state) >> 32)
	}
	s.rec = append(s.rec, v)
	return v
}

// N returns a value in [0, n), 0 for the smallest choice.
func (s *Src) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(uint64(s.next()) * uint64(n) >> 32)
}

// R returns a value in [lo, hi].
func (s *Src) R(lo, hi int) int { return lo + s.N(hi-lo+1) }

// P is true with probability p percent; the smallest choice gives false.
func (s *Src) P(p int) bool {
	if p >= 100 {
		return true
	}
	return uint64(s.next())*100>>32 >= uint64(100-p)
}

func (s *Src) Pick(xs []string) string { return xs[s.N(len(xs))] }

// W picks an index with the given weights; index 0 for the smallest choice.
func (s *Src) W(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	v := s.N(t)
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

func (s *Src) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + s.N(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// shrink looks for a shorter / smaller choice sequence for which bad still
// holds. bad returns the choices that were really consumed.
func shrink(ch []uint32, budget func() bool, bad func([]uint32) ([]uint32, bool)) []uint32 {
	best := append([]uint32{}, ch...)
	try := func(c []uint32) bool {
		if !budget() {
			return false
		}
		used, ok := bad(c)
		if !ok {
			return false
		}
		if len(used) < len(c) {
			c = used
		}
		if len(c) > len(best) || (len(c) == len(best) && !less(c, best)) {
			return false
		}
		best = append([]uint32{}, c...)
		return true
	}
	for round := 0; round < 20 && budget(); round++ {
		before := append([]uint32{}, best...)
		for size := pow2(len(best)); size >= 1; size /= 2 {
			for i := len(best) - size; i >= 0 && budget(); {
				c := append(append([]uint32{}, best[:i]...), best[i+size:]...)
				if try(c) {
					if i > len(best)-size {
						i = len(best) - size
					}
				} else {
					i -= size
				}
			}
		}
		for size := 16; size >= 1; size /= 4 {
			for i := 0; i+size <= len(best) && budget(); i += size {
				c := append([]uint32{}, best...)
				z := true
				for k := i; k < i+size; k++ {
					if c[k] != 0 {
						z = false
					}
					c[k] = 0
				}
				if !z {
					try(c)
				}
			}
		}
		for i := 0; i < len(best) && budget(); i++ {
			for sh := uint(1); sh <= 16 && i < len(best) && best[i] != 0 && budget(); sh *= 2 {
				c := append([]uint32{}, best...)
				c[i] -= c[i] >> sh
				if c[i] == best[i] {
					c[i]--
				}
				c2 := append([]uint32{}, best...)
				c2[i] = best[i] >> sh
				if !try(c2) {
					try(c)
				}
			}
		}
		if len(before) == len(best) && !less(best, before) {
			break
		}
	}
	return best
}

func pow2(n int) int {
	p := 1
	for p*2 <= n {
		p *= 2
	}
	return p
}

func less(a, b []uint32) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}
