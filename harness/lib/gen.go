package lib

import (
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"strings"
	"time"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/protobuf/proto"
)

var tmpRoot string

// TempDir returns a fresh directory below the scratch directory of this run.
func TempDir(pattern string) string {
	root := os.Getenv("VERIF_SCRATCH")
	d, err := os.MkdirTemp(root, pattern)
	if err != nil {
		panic("HARNESS " + err.Error())
	}
	return d
}

func NewData(name string, mod func(c *pb.DataConfig)) *data.Data {
	c := &pb.DataConfig{Name: name, NoTarget: true, TargetN: 1000, TargetUtilization: 0.4}
	if mod != nil {
		mod(c)
	}
	d, err := data.NewData(c, TempDir("data"))
	if err != nil {
		panic("HARNESS " + err.Error())
	}
	if time.Now().Year() > 2010 { // in real time: until the first periodic refresh is over, which may overtake a forced one
		for i := 0; i < 2000 && d.GetDataInfo().GetTimestamp() == 0; i++ {
			time.Sleep(time.Millisecond)
		}
	}
	return d
}

func Clone(d *pb.Datum) *pb.Datum { return proto.Clone(d).(*pb.Datum) }

// KeyID is an identity of a key that does not depend on the code under test.
func KeyID(k *pb.DatumKey) string {
	if k == nil {
		return "<nil>"
	}
	var sb strings.Builder
	for _, f := range k.Feature {
		fmt.Fprintf(&sb, "%08x", math.Float32bits(f))
	}
	fmt.Fprintf(&sb, "|%d|%d|%d|%d|%x", k.Dim1, k.Dim2, k.Size1, k.Size2, k.GroupLabel)
	return sb.String()
}

func ValID(v *pb.DatumValue) string {
	if v == nil {
		return "<nil>"
	}
	return fmt.Sprintf("%d|%x", v.Version, v.Label)
}

func DatumID(d *pb.Datum) string { return KeyID(d.GetKey()) + "=" + ValID(d.GetValue()) }

// GenVec makes vectors of several flavours: small integer grids (many ties), gaussian, sparse.
func GenVec(r *rand.Rand, dim int, flavour int) []float32 {
	v := make([]float32, dim)
	for i := range v {
		switch flavour % 4 {
		case 0:
			v[i] = float32(r.IntN(5) - 2)
		case 1:
			v[i] = float32(r.NormFloat64())
		case 2:
			if r.IntN(3) == 0 {
				v[i] = float32(r.NormFloat64() * 100)
			}
		case 3:
			v[i] = r.Float32()
		}
	}
	return v
}

func Datum(feature []float32, group, label string, version uint64) *pb.Datum {
	return &pb.Datum{
		Key:   &pb.DatumKey{Feature: feature, Dim1: uint32(len(feature)), GroupLabel: []byte(group)},
		Value: &pb.DatumValue{Label: []byte(label), Version: version},
	}
}

// Range is a score with the interval a single-precision implementation may return.
type Range struct{ Lo, Ref, Hi float64 }

const eps32 = 1.0 / (1 << 23)

// dotTerms returns sum(x*y) and sum(|x*y|) over the first n components.
func dotTerms(a, b []float32, n int) (s, t float64) {
	for i := 0; i < n; i++ {
		p := float64(a[i]) * float64(b[i])
		s += p
		t += math.Abs(p)
	}
	return
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// Score is the double-precision reference for the named scoring function.
func Score(name string, a, b []float32) Range {
	n := minInt(len(a), len(b))
	fn := float64(n + 8)
	switch name {
	case "VectorMultiplication":
		s, t := dotTerms(a, b, n)
		e := fn*eps32*t + 1e-37
		return Range{s - e, s, s + e}
	case "QuickVectorDistance":
		s := 0.0
		for i := 0; i < n; i++ {
			s += math.Abs(float64(a[i]) - float64(b[i]))
		}
		e := fn*eps32*s + 1e-37
		e += 2 * eps32 * s
		return Range{math.Max(0, s-e), s, s + e}
	case "CosineSimilarity", "AnnoyCosineSimilarity":
		return cosRange(a, b)
	case "AngularDistance", "AnnoyAngularDistance":
		c := cosRange(a, b)
		f := func(x float64) float64 { return 1 - math.Acos(math.Max(-1, math.Min(1, x)))/math.Pi }
		return Range{f(c.Lo) - 1e-12, f(c.Ref), f(c.Hi) + 1e-12}
	default:
		s := 0.0
		for i := 0; i < n; i++ {
			d := float64(a[i]) - float64(b[i])
			s += d * d
		}
		r := math.Sqrt(s)
		e := fn*eps32*r + 1e-18
		return Range{math.Max(0, r-e), r, r + e}
	}
}

func cosRange(a, b []float32) Range {
	n := minInt(len(a), len(b))
	s, t := dotTerms(a, b, n)
	s1, _ := dotTerms(a, a, len(a))
	s2, _ := dotTerms(b, b, len(b))
	if s1 == 0 || s2 == 0 {
		return Range{0, 0, 0}
	}
	den := math.Sqrt(s1) * math.Sqrt(s2)
	c := s / den
	m := float64(len(a)+len(b)) + 8
	e := m * eps32 * (t/den + math.Abs(c) + 1e-30) * 2
	return Range{math.Max(-1, c-e), c, math.Min(1, c+e)}
}

// Better reports whether x is definitely better than y.
func DefBetter(x, y Range, higher bool) bool {
	if higher {
		return x.Lo > y.Hi
	}
	return x.Hi < y.Lo
}

func (x Range) Contains(v float64) bool { return v >= x.Lo && v <= x.Hi }

var ExactFuncs = []string{"VectorDistance", "VectorMultiplication", "CosineSimilarity", "QuickVectorDistance", "AngularDistance"}

// Config gives a copy of a search config, so that the oracle keeps what was asked for
func Config(c *pb.SearchConfig) *pb.SearchConfig {
	return proto.Clone(c).(*pb.SearchConfig)
}
