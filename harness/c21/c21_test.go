package c21

import (
	"fmt"
	"math"
	"strings"
	"testing"
	"time"

	"verif/harness/lib"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/protobuf/proto"
)

func TestCache(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "cached search")
	lib.Bubble(t, rep, func() {
		for c := 0; c < rep.N(120, 500); c++ {
			one(rep, c)
		}
	})
}

type world struct {
	dt    *data.Data
	n     int
	epoch uint64
	dim   int
}

// fill overwrites every entry with the current epoch as version, so an answer shows which content it saw.
func (w *world) fill(rep *lib.Rep) {
	w.epoch++
	for i := 0; i < w.n; i++ {
		v := make([]float32, w.dim)
		v[0], v[w.dim-1] = float32(i), float32(i*i%7)
		if err := w.dt.Insert(lib.Datum(v, fmt.Sprintf(`{"a":1,"b":%d}`, i%3), fmt.Sprintf(`{"a":1,"b":%d,"e":%d}`, i%2, w.epoch), w.epoch), nil); err != nil {
			rep.Violate("insert: %v", err)
		}
	}
}

func render(res []*pb.ScoredDatum) (string, map[uint64]bool) {
	eps := map[uint64]bool{}
	var sb strings.Builder
	for _, x := range res {
		fmt.Fprintf(&sb, "%s:%v;", lib.DatumID(x.GetDatum()), x.Score)
		eps[x.GetDatum().GetValue().GetVersion()] = true
	}
	return sb.String(), eps
}

// variants change one field of the query or of the options at a time
var variants = []struct {
	name string
	f    func(q *pb.Datum, c *pb.SearchConfig)
}{
	{"vector component", func(q *pb.Datum, c *pb.SearchConfig) { q.Key.Feature[0] += 0.5 }},
	{"vector sign of zero", func(q *pb.Datum, c *pb.SearchConfig) { q.Key.Feature[1] = float32(math.Copysign(0, -1)) }},
	{"last vector component", func(q *pb.Datum, c *pb.SearchConfig) { q.Key.Feature[len(q.Key.Feature)-1] += 1 }},
	{"vector length", func(q *pb.Datum, c *pb.SearchConfig) { q.Key.Feature = append(q.Key.Feature, 0) }},
	{"group label", func(q *pb.Datum, c *pb.SearchConfig) { q.Key.GroupLabel = append(q.Key.GroupLabel, 'x') }},
	{"dim1", func(q *pb.Datum, c *pb.SearchConfig) { q.Key.Dim1++ }},
	{"dim2", func(q *pb.Datum, c *pb.SearchConfig) { q.Key.Dim2++ }},
	{"size1", func(q *pb.Datum, c *pb.SearchConfig) { q.Key.Size1 += 256 }},
	{"size2", func(q *pb.Datum, c *pb.SearchConfig) { q.Key.Size2++ }},
	{"score function", func(q *pb.Datum, c *pb.SearchConfig) { c.ScoreFuncName = "QuickVectorDistance" }},
	{"direction", func(q *pb.Datum, c *pb.SearchConfig) { c.HigherIsBetter = !c.HigherIsBetter }},
	{"limit", func(q *pb.Datum, c *pb.SearchConfig) { c.Limit++ }},
	{"timeout", func(q *pb.Datum, c *pb.SearchConfig) { c.Timeout += 1000 }},
	{"timestamp", func(q *pb.Datum, c *pb.SearchConfig) { c.Timestamp++ }},
	{"group limit", func(q *pb.Datum, c *pb.SearchConfig) { c.GroupLimit++ }},
	{"group score function", func(q *pb.Datum, c *pb.SearchConfig) { c.GroupScoreFuncName = "z" }},
	{"filters", func(q *pb.Datum, c *pb.SearchConfig) { c.Filters = append(c.Filters, "b") }},
	{"group filters", func(q *pb.Datum, c *pb.SearchConfig) { c.GroupFilters = append(c.GroupFilters, "b") }},
	{"filters moved to group filters", func(q *pb.Datum, c *pb.SearchConfig) { c.Filters, c.GroupFilters = c.GroupFilters, c.Filters }},
	{"result limit", func(q *pb.Datum, c *pb.SearchConfig) { c.ResultLimit += 2 }},
	{"high part of the result limit", func(q *pb.Datum, c *pb.SearchConfig) { c.ResultLimit += 1 << 32 }},
	{"high part of the timestamp", func(q *pb.Datum, c *pb.SearchConfig) { c.Timestamp += 1 << 40 }},
	{"cache duration", func(q *pb.Datum, c *pb.SearchConfig) { c.CacheDuration++ }},
	{"data name", func(q *pb.Datum, c *pb.SearchConfig) { c.DataName += "x" }},
	{"no caching", func(q *pb.Datum, c *pb.SearchConfig) { c.CacheDuration = 0 }},
}

func one(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("case", c))
	w := &world{dt: lib.NewData(fmt.Sprint("c", c), nil), n: 6 + r.IntN(10), dim: 3 + r.IntN(3)}
	defer w.dt.Close()
	src := r.IntN(2) == 0
	late := time.Duration(0)
	if r.IntN(4) == 0 { // searches that end at the deadline
		late = 30 * time.Second
	}
	if src { // a peer whose answers also carry the epoch
		w.dt.AddSource(&lib.Source{ID: "p", OnSearch: func(q *pb.Datum, cfg *pb.SearchConfig, send func(*pb.ScoredDatum)) {
			time.Sleep(late)
			send(&pb.ScoredDatum{Score: 0.25, Datum: lib.Datum([]float32{77}, `{"a":1,"b":2}`, "peer", w.epoch)})
		}})
	}
	q := lib.Datum(lib.GenVec(r, w.dim, 1), `g`, "", 0)
	q.Key.Feature[1] = 0
	D := uint64([]int{1, 2, 5, 30, 200}[r.IntN(5)])
	cfg := &pb.SearchConfig{ScoreFuncName: "VectorDistance", HigherIsBetter: r.IntN(2) == 0, Limit: uint32(2 + r.IntN(20)), Timeout: 10000,
		CacheDuration: D, DataName: "d", Uuid: "u"}
	if r.IntN(4) == 0 {
		cfg.Limit = []uint32{1000, 4096, 1 << 20, 1<<32 - 9}[r.IntN(4)]
	}
	if r.IntN(2) == 0 {
		cfg.Filters = []string{"a"}
	}
	if r.IntN(3) == 0 {
		cfg.GroupLimit = 2
	}
	search := func(q *pb.Datum, cfg *pb.SearchConfig) (string, map[uint64]bool, []*pb.ScoredDatum) {
		res, err := w.dt.MultiAggregatedSearch([]*pb.Datum{lib.Clone(q)}, proto.Clone(cfg).(*pb.SearchConfig), nil)
		if err != nil {
			rep.Violate("case %d: %v", c, err)
		}
		time.Sleep(time.Millisecond) // let the answer reach the cache
		s, e := render(res)
		return s, e, res
	}
	if r.IntN(3) == 0 { // the first answer has no entry of this member
		search(q, cfg)
		w.fill(rep)
		time.Sleep(time.Duration(D)*time.Second + 100*time.Millisecond)
		if _, eps, res := search(q, cfg); !eps[w.epoch] {
			rep.Violate("case %d: %d entries in the answer, %d stored, %d s after an empty answer with that cache duration", c, len(res), w.n, D)
			return
		}
		time.Sleep(time.Duration(D)*time.Second + 100*time.Millisecond)
		rep.Count("empty_first", 1)
	}
	w.fill(rep)
	first, eps, res := search(q, cfg)
	t0 := time.Now()
	if len(eps) != 1 || !eps[w.epoch] {
		rep.Violate("case %d: first answer mixes epochs %v", c, eps)
		return
	}
	// a consumer plays with its answer
	for _, x := range res {
		x.Score = -12345
		x.Datum = nil
	}
	hits := 0
	steps := 2 + r.IntN(4)
	answers := map[uint64]string{w.epoch: first}
	born := map[uint64]time.Time{w.epoch: t0}
	for s := 0; s < steps; s++ {
		w.fill(rep)
		gap := time.Duration(r.Int64N(int64(time.Duration(D) * time.Second * 12 / 10)))
		time.Sleep(gap)
		cc := proto.Clone(cfg).(*pb.SearchConfig)
		cc.Uuid = fmt.Sprint("other", s)
		got, eps, res := search(q, cc)
		if len(eps) != 1 {
			rep.Violate("case %d step %d: answer mixes epochs %v", c, s, eps)
			return
		}
		var ep uint64
		for e := range eps {
			ep = e
		}
		if ep == w.epoch {
			answers[ep], born[ep] = got, time.Now()
			rep.Count("fresh", 1)
		} else {
			hits++
			if answers[ep] != got {
				rep.Violate("case %d step %d: cached answer of epoch %d differs from the one given then:\n%s\n%s", c, s, ep, answers[ep], got)
				return
			}
			if age := time.Since(born[ep]); age > time.Duration(D)*time.Second+50*time.Millisecond {
				rep.Violate("case %d step %d: answer computed %v ago was served with a cache duration of %d s", c, s, age, D)
				return
			}
			rep.Count("hits", 1)
		}
		for _, x := range res {
			x.Score = 777
		}
	}
	// near-identical queries must not be answered from that cache entry
	vs := r.Perm(len(variants))[:6]
	for _, vi := range vs {
		v := variants[vi]
		got0, _, _ := search(q, cfg) // make sure the base query is cached now
		_ = got0
		w.fill(rep)
		q2, c2 := lib.Clone(q), proto.Clone(cfg).(*pb.SearchConfig)
		v.f(q2, c2)
		if lib.KeyID(q2.Key) == lib.KeyID(q.Key) && proto.Equal(c2, cfg) {
			continue
		}
		_, eps, res := search(q2, c2)
		if len(res) > 0 && (len(eps) != 1 || !eps[w.epoch]) {
			rep.Violate("case %d: query differing in %s was answered with content of epoch %v, current %d", c, v.name, eps, w.epoch)
			return
		}
		rep.Count("variant_"+strings.ReplaceAll(v.name, " ", "_"), 1)
		time.Sleep(time.Duration(D+1) * time.Second)
	}
	rep.Sample(fmt.Sprintf("case %d: cache %d s, %d steps, %d hits, group limit %d, peer %v", c, D, steps, hits, cfg.GroupLimit, src))
	rep.Case(fmt.Sprint(c, D, steps, hits, vs))
}
