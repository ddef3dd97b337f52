package c27

import (
	"fmt"
	"math"
	"math/rand/v2"
	"testing"

	"verif/harness/lib"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

var funcs = []string{"VectorDistance", "VectorMultiplication", "CosineSimilarity", "QuickVectorDistance", "AngularDistance",
	"AnnoyVectorDistance", "AnnoyCosineSimilarity", "AnnoyAngularDistance", "", "vectordistance", "Unknown", "Cosine", "VectorDistance ", "AnnoyVectorMultiplication"}

// component magnitudes keep squares and sums of squares well inside single precision
func comp(r *rand.Rand, flavour int) float32 {
	switch flavour {
	case 0:
		return float32(r.IntN(7) - 3)
	case 1:
		return float32(r.NormFloat64())
	case 2:
		return float32(r.NormFloat64() * 1e8)
	case 3:
		return float32(r.NormFloat64() * 1e-6)
	case 4:
		if r.IntN(4) > 0 {
			return 0
		}
		return float32(r.NormFloat64())
	case 5:
		return 1000 + float32(r.NormFloat64()*0.01)
	case 6:
		x := float32(math.Exp(r.NormFloat64() * 6))
		if r.IntN(2) == 0 {
			x = -x
		}
		return x
	}
	return 0
}

func vec(r *rand.Rand) []float32 {
	n := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 64, 100, 300, 1024, 2049}[r.IntN(18)]
	if r.IntN(2500) == 0 {
		n = []int{4096, 4097, 8200, 65537}[r.IntN(4)]
	}
	f := r.IntN(9)
	v := make([]float32, n)
	for i := range v {
		v[i] = comp(r, f)
	}
	return v
}

// related makes vectors that are special with respect to each other.
func related(r *rand.Rand, a []float32) []float32 {
	b := append([]float32{}, a...)
	switch r.IntN(9) {
	case 0: // identical
	case 1: // opposite
		for i := range b {
			b[i] = -b[i]
		}
	case 2: // same direction
		for i := range b {
			b[i] *= 4
		}
	case 3: // one step away
		if len(b) > 0 {
			i := r.IntN(len(b))
			b[i] = math.Nextafter32(b[i], b[i]+1)
		}
	case 4: // prefix
		b = b[:r.IntN(len(b)+1)]
	case 5: // longer, with zeros
		b = append(b, make([]float32, r.IntN(6))...)
	case 6: // longer, with content
		for k := r.IntN(6); k > 0; k-- {
			b = append(b, float32(r.NormFloat64()))
		}
	case 7: // permuted
		r.Shuffle(len(b), func(i, j int) { b[i], b[j] = b[j], b[i] })
	case 8:
		b = vec(r)
	}
	return b
}

func same(a, b []float32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float32bits(a[i]) != math.Float32bits(b[i]) {
			return false
		}
	}
	return true
}

func zero(a []float32) bool {
	for _, x := range a {
		if x != 0 {
			return false
		}
	}
	return true
}

func TestScores(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "scoring")
	n := rep.N(300000, 600000)
	r := rep.Rng("pairs")
	for c := 0; c < n; c++ {
		a := vec(r)
		b := related(r, a)
		if r.IntN(2) == 0 {
			b = vec(r)
		}
		a0, b0 := append([]float32{}, a...), append([]float32{}, b...)
		name := funcs[c%len(funcs)]
		f := data.GetVectorComparisonFunction(name)
		if f == nil {
			rep.Violate("no function for %q", name)
			continue
		}
		// spare capacity with rubbish must not be looked at
		x := f(append(append(make([]float32, 0, len(a)+4), a...), 9e9)[:len(a)], append(append(make([]float32, 0, len(b)+4), b...), 7e9)[:len(b)])
		y := f(b, a)
		if !same(a, a0) || !same(b, b0) {
			rep.Violate("%s changed its arguments", name)
		}
		ref := lib.Score(name, a, b)
		show := func() string { return fmt.Sprintf("%.300v and %.300v (lengths %d, %d)", a, b, len(a), len(b)) }
		for _, v := range []float64{x, y} {
			if math.IsNaN(v) || !ref.Contains(v) {
				rep.Violate("%q of %s is %v, not within [%v, %v]", name, show(), v, ref.Lo, ref.Hi)
				break
			}
		}
		lo, hi := math.Inf(-1), math.Inf(1)
		switch name {
		case "CosineSimilarity", "AnnoyCosineSimilarity":
			lo, hi = -1, 1
		case "AngularDistance", "AnnoyAngularDistance":
			lo, hi = 0, 1
		case "VectorMultiplication":
		default:
			lo = 0
		}
		if x < lo || x > hi || y < lo || y > hi {
			rep.Violate("%q of %s is %v and %v, out of range", name, show(), x, y)
		}
		if same(a, b) {
			rep.Count("identical_pairs", 1)
			switch name {
			case "VectorMultiplication":
			case "CosineSimilarity", "AnnoyCosineSimilarity", "AngularDistance", "AnnoyAngularDistance":
				// best up to rounding: covered by the reference, whose upper end is the end of the range
				if !zero(a) && ref.Hi < hi {
					rep.Inconclusive("reference of identical vectors is %v", ref)
				}
			default:
				if x != 0 {
					rep.Violate("%q of identical vectors is %v", name, x)
				}
			}
		}
		if len(a) != len(b) {
			rep.Count("unequal_lengths", 1)
		}
		sig := ""
		if len(a) > 0 && len(b) > 0 {
			sig = fmt.Sprintf("%s|%d|%d|%x", name, len(a), len(b), math.Float64bits(x))
		}
		rep.Case(sig)
		if c < 3 {
			rep.Sample(fmt.Sprintf("%s(%.80v, %.80v) = %v", name, a, b, x))
		}
	}
	rep.Done()
}

// TestThroughSearch: the score a client sees is the one of the named function.
func TestThroughSearch(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "scoring")
	r := rep.Rng("search")
	for c := 0; c < rep.N(400, 2000); c++ {
		d := lib.NewData(fmt.Sprint("s", c), nil)
		a := vec(r)
		if len(a) > 100 {
			a = a[:100]
		}
		if err := d.Insert(lib.Datum(a, "", "x", 1), nil); err != nil {
			rep.Violate("insert: %v", err)
			continue
		}
		for k := 0; k < 6; k++ {
			b := related(r, a)
			name := funcs[r.IntN(len(funcs))]
			higher := r.IntN(2) == 0
			cfg := &pb.SearchConfig{ScoreFuncName: name, HigherIsBetter: higher, Limit: 3, Timeout: 20000}
			l, err := d.MultiAggregatedSearch([]*pb.Datum{lib.Datum(b, "", "", 0)}, lib.Config(cfg), nil)
			if err != nil || len(l) != 1 {
				rep.Violate("%q: search of one entry returned %d entries: %v", name, len(l), err)
				break
			}
			ref := lib.Score(name, a, b)
			if !ref.Contains(l[0].Score) {
				rep.Violate("%q of %.300v and %.300v is reported as %v, not within [%v, %v]", name, a, b, l[0].Score, ref.Lo, ref.Hi)
			}
			rep.Case(fmt.Sprintf("%s|%d|%d|%x", name, len(a), len(b), math.Float64bits(l[0].Score)))
		}
		d.Close()
	}
	rep.Done()
}
