// Package pbt is a small property-based testing engine in the Hypothesis
// style: every random decision a generator makes is one bounded integer drawn
// from T, so a case is fully described by its choice sequence, replay is
// "draw the same integers again", and shrinking is a search for a
// lexicographically smaller choice sequence that still fails.
//
// A case depends only on (VERIF_SEED, property id, case index): the number of
// workers and the scheduling have no influence on what is generated.
package pbt

import (
	"fmt"
)

// Discard is panicked by T.Discard.
type discard struct{}

// T is the source of randomness handed to a generator.
type T struct {
	prefix  []uint64 // choices to replay
	pos     int
	rng     uint64
	zeroPad bool // after the prefix: draw zeros (shrinking) rather than random
	rec     []uint64
	Size    int // generators use it as a budget
	Labels  map[string]int
}

const maxChoices = 1 << 16

type overrun struct{}

func splitmix(x *uint64) uint64 {
	*x += 0x9E3779B97F4A7C15
	z := *x
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Mix derives the seed of one case.
func Mix(seed uint64, id string, i int) uint64 {
	h := seed*0x9E3779B97F4A7C15 + 0x1234567
	for _, c := range []byte(id) {
		h = (h ^ uint64(c)) * 0x100000001B3
	}
	h ^= uint64(i) * 0xD6E8FEB86659FD93
	splitmix(&h)
	return splitmix(&h)
}

func NewRandom(seed uint64) *T { return &T{rng: seed, Labels: map[string]int{}} }
func NewReplay(choices []uint64) *T {
	return &T{prefix: choices, zeroPad: true, Labels: map[string]int{}}
}

// Choices returns what was drawn so far.
func (t *T) Choices() []uint64 { return t.rec }

// Draw returns an integer in [0,n).
func (t *T) Draw(n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	if len(t.rec) >= maxChoices {
		panic(overrun{})
	}
	var v uint64
	if t.pos < len(t.prefix) {
		v = t.prefix[t.pos]
		t.pos++
		if v >= n {
			v = v % n
		}
	} else if t.zeroPad {
		v = 0
	} else {
		v = splitmix(&t.rng) % n
	}
	t.rec = append(t.rec, v)
	return v
}

func (t *T) Intn(n int) int { return int(t.Draw(uint64(n))) }

// Range is inclusive.
func (t *T) Range(lo, hi int) int { return lo + t.Intn(hi-lo+1) }
func (t *T) Bool() bool           { return t.Draw(2) == 1 }

// P is true with probability num/den; shrinks to false.
func (t *T) P(num, den int) bool { return t.Draw(uint64(den)) >= uint64(den-num) }

// Weighted picks an index by weight; shrinks to index 0.
func (t *T) Weighted(ws ...int) int {
	s := 0
	for _, w := range ws {
		s += w
	}
	v := t.Intn(s)
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

// Geo returns a count in [0,max] with mean roughly mean; shrinks to 0.
func (t *T) Geo(mean, max int) int {
	n := 0
	for n < max && t.Draw(uint64(mean+1)) != 0 {
		n++
	}
	return n
}

func Pick[A any](t *T, xs ...A) A { return xs[t.Intn(len(xs))] }

func (t *T) Discard()       { panic(discard{}) }
func (t *T) Label(l string) { t.Labels[l]++ }
func (t *T) String() string { return fmt.Sprintf("%v", t.rec) }
func IsDiscard(r any) bool  { _, ok := r.(discard); return ok }
func IsOverrun(r any) bool  { _, ok := r.(overrun); return ok }

// Gen runs g on t and reports whether it produced a value.
func Gen[A any](t *T, g func(*T) A) (v A, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if IsDiscard(r) || IsOverrun(r) {
				ok = false
				return
			}
			panic(r)
		}
	}()
	return g(t), true
}

// Shrink searches for a smaller failing choice sequence. fails must be a pure
// function of the choices. It stops after budget evaluations.
func Shrink(choices []uint64, budget int, fails func([]uint64) ([]uint64, bool)) []uint64 {
	best := append([]uint64(nil), choices...)
	seen := map[string]bool{}
	evals := 0
	try := func(c []uint64) bool {
		if evals >= budget {
			return false
		}
		k := fmt.Sprint(c)
		if seen[k] {
			return false
		}
		seen[k] = true
		evals++
		rec, bad := fails(c)
		if !bad {
			return false
		}
		if smaller(rec, best) {
			best = append([]uint64(nil), rec...)
			return true
		}
		return false
	}
	for improved := true; improved && evals < budget; {
		improved = false
		// delete chunks
		for sz := len(best) / 2; sz >= 1; sz /= 2 {
			for i := len(best) - sz; i >= 0; {
				if i+sz > len(best) {
					i--
					continue
				}
				c := append(append([]uint64(nil), best[:i]...), best[i+sz:]...)
				if try(c) {
					improved = true
					if i > len(best)-sz {
						i = len(best) - sz
					}
					continue
				}
				i -= max(1, sz/2)
			}
			if evals >= budget {
				break
			}
		}
		// zero chunks
		for sz := 8; sz >= 1; sz /= 2 {
			for i := 0; i+sz <= len(best); i++ {
				c := append([]uint64(nil), best...)
				nz := false
				for j := i; j < i+sz; j++ {
					nz = nz || c[j] != 0
					c[j] = 0
				}
				if nz && try(c) {
					improved = true
				}
			}
		}
		// minimise single values; also value decrement + deletion of the next one
		for i := 0; i < len(best); i++ {
			lo, hi := uint64(0), best[i]
			for lo < hi && evals < budget {
				mid := lo + (hi-lo)/2
				c := append([]uint64(nil), best...)
				if i >= len(c) {
					break
				}
				c[i] = mid
				if try(c) {
					improved = true
					hi = mid
				} else {
					lo = mid + 1
				}
			}
			for del := 1; del <= 4; del++ {
				if i >= len(best) || best[i] == 0 || i+1+del > len(best) {
					break
				}
				c := append([]uint64(nil), best[:i+1]...)
				c[i]--
				c = append(c, best[i+1+del:]...)
				if try(c) {
					improved = true
				}
			}
		}
	}
	return best
}

func smaller(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}
