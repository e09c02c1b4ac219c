package checks

import (
	"math"
	_ "unsafe" // go:linkname

	xrand "golang.org/x/exp/rand"
)

// The library samples through gonum, whose distributions use the global source of golang.org/x/exp/rand when they are
// given none. The check replaces that source by a tape whose answers it enumerates.

//go:linkname globalRand golang.org/x/exp/rand.globalRand
var globalRand *xrand.Rand

// tape answers requests for random words; past the fixed prefix it continues with a fixed equidistributed sequence.
type tape struct {
	ans   []uint64
	pos   int
	salt  uint64
	seeds int
}

func mix64(z uint64) uint64 {
	z += 0x9E3779B97F4A7C15
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

func (t *tape) Uint64() uint64 {
	i := t.pos
	t.pos++
	if i < len(t.ans) {
		return t.ans[i]
	}
	return mix64(t.salt*0x9E3779B97F4A7C15 + uint64(i)*0xD1342543DE82EF95)
}

// Seed restarts the tape: a library that re-seeds its source repeats itself.
func (t *tape) Seed(uint64) { t.pos = 0; t.seeds++ }

func (t *tape) install() { *globalRand = *xrand.New(t) }

// unitWord is a word that x/exp/rand turns into the uniform number k/2^53, unitNorm one for the ziggurat fast path.
func unitWord(k uint64) uint64 { return k & (1<<53 - 1) }

// normWord: layer in 0..127, m in (-2^24, 2^24): the ziggurat sample is about m/2^24 * x[layer].
func normWord(layer int, m int32) uint64 { return uint64(uint32(m)<<7|uint32(layer&127)) << 32 }

// refUnit and refNorm are what the unmodified sampler makes of a tape; n is the number of words used.
func refUnit(ans []uint64) (v float64, n int) {
	t := &tape{ans: ans}
	v = xrand.New(t).Float64()
	return v, t.pos
}

func refNorm(ans []uint64) (v float64, n int) {
	t := &tape{ans: ans}
	v = xrand.New(t).NormFloat64()
	return v, t.pos
}

func normCDF(x float64) float64 { return 0.5 * math.Erfc(-x/math.Sqrt2) }
