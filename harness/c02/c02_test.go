package c02

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"testing"
	"time"

	"verif/harness/lib"

	pb "github.com/bgokden/veri/veriservice"
)

type answer struct {
	d     *pb.Datum
	score float64
}

func better(h bool, a, b float64) bool {
	if h {
		return a > b
	}
	return a < b
}

func TestUnion(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "aggregated search")
	lib.Bubble(t, rep, func() {
		cases := rep.N(500, 4000)
		for c := 0; c < cases; c++ {
			runCase(rep, c)
		}
	})
}

// scoreOf draws scores from a small set so that ties, duplicates and both signs are common.
func scoreOf(r *rand.Rand, wide bool) float64 {
	if wide {
		return r.NormFloat64()
	}
	return float64(r.IntN(9)-4) / 2
}

func runCase(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("case", c))
	dt := lib.NewData(fmt.Sprint("u", c), nil)
	defer dt.Close()
	dim := 1 + r.IntN(4)
	nv := 1 + r.IntN(4)
	if r.IntN(2) == 0 {
		nv = 1
	} else if r.IntN(12) == 0 {
		nv = []int{9, 12, 17, 40}[r.IntN(4)]
		rep.Count("searches_with_many_vectors", 1)
	}
	queries := make([]*pb.Datum, nv)
	for i := range queries {
		queries[i] = lib.Datum(append(lib.GenVec(r, dim, 1), float32(i)), fmt.Sprint("q", i), "", 0)
	}
	cfg := &pb.SearchConfig{ScoreFuncName: lib.ExactFuncs[r.IntN(len(lib.ExactFuncs))], HigherIsBetter: r.IntN(2) == 0,
		Limit: uint32([]int{1, 2, 3, 5, 10, 40, 300, 20000}[r.IntN(8)]), Timeout: 100000, Uuid: []string{"", fmt.Sprint("id", c)}[r.IntN(2)]}
	if r.IntN(3) == 0 {
		cfg.ResultLimit = uint64(1 + r.IntN(12))
	}
	if r.IntN(20) == 0 {
		cfg.ResultLimit = 1 << 63
	}
	flood := c%40 == 7 // a union of thousands
	if flood {
		cfg.Limit, cfg.ResultLimit = 20000, []uint64{0, 2000}[r.IntN(2)]
	}
	// pool of entries that participants return
	pool := make([]*pb.Datum, 1+r.IntN(30))
	prefix := "g"
	var head []float32
	switch r.IntN(6) { // long keys that differ only at the end
	case 0:
		prefix = strings.Repeat("long group label ", 1+r.IntN(80))
	case 1:
		head = lib.GenVec(r, 1+r.IntN(400), 1)
	}
	for i := range pool {
		pool[i] = lib.Datum(append(append([]float32{}, head...), lib.GenVec(r, dim, r.IntN(4))...), fmt.Sprint(prefix, i), fmt.Sprint("l", i), uint64(i))
	}
	best := map[string]float64{}
	vals := map[string]string{}
	note := func(d *pb.Datum, s float64) {
		id := lib.KeyID(d.Key)
		if o, ok := best[id]; !ok || better(cfg.HigherIsBetter, s, o) {
			best[id] = s
		}
		vals[id] = lib.ValID(d.Value)
	}
	local := r.IntN(3)
	for i := 0; i < local*4; i++ {
		d := pool[r.IntN(len(pool))]
		if err := dt.Insert(lib.Clone(d), nil); err != nil {
			rep.Violate("insert: %v", err)
		}
	}
	for _, q := range queries {
		for _, x := range dt.Search(q, cfg, nil).List {
			note(x.Datum, x.Score)
		}
	}
	ns := r.IntN(6)
	wide := r.IntN(2) == 0
	returned := 0
	pace := time.Duration(1)
	if r.IntN(8) == 0 { // participants that need minutes
		pace = 600
		cfg.Timeout *= 600
		rep.Count("slow_searches", 1)
	}
	big := 250 // more than any internal buffer
	if r.IntN(12) == 0 {
		big = 1300
	}
	if flood {
		big, ns = 1300, max(ns, 2)
		rep.Count("unions_of_thousands", 1)
	}
	for s := 0; s < ns; s++ {
		script := map[string][]answer{}
		for _, q := range queries {
			n := r.IntN(len(pool) + 1)
			if flood && q == queries[0] || r.IntN(25) == 0 {
				n = big
			}
			var as []answer
			for k := 0; k < n; k++ {
				a := answer{pool[r.IntN(len(pool))], scoreOf(r, wide)}
				if n == big {
					a.d = lib.Datum([]float32{float32(k), float32(s)}, "big", "big", uint64(k))
				}
				as = append(as, a)
				note(a.d, a.score)
				returned++
			}
			script[lib.KeyID(q.Key)] = as
		}
		delays := make([]time.Duration, 8)
		for i := range delays {
			delays[i] = pace * time.Duration(r.IntN(2000)) * time.Millisecond
		}
		seed := r.Uint64()
		dt.AddSource(&lib.Source{ID: fmt.Sprint("s", s), OnSearch: func(d *pb.Datum, _ *pb.SearchConfig, send func(*pb.ScoredDatum)) {
			rr := rand.New(rand.NewPCG(seed, lib.H(lib.KeyID(d.Key))))
			time.Sleep(delays[rr.IntN(8)])
			for i, a := range script[lib.KeyID(d.Key)] {
				if i%7 == 3 {
					time.Sleep(delays[rr.IntN(8)] / 50)
				}
				send(&pb.ScoredDatum{Datum: a.d, Score: a.score})
			}
		}})
	}
	res, err := dt.MultiAggregatedSearch(queries, lib.Config(cfg), nil)
	if err != nil {
		rep.Violate("case %d: %v", c, err)
		return
	}
	var want []float64
	for _, s := range best {
		want = append(want, s)
	}
	sort.Slice(want, func(i, j int) bool { return better(cfg.HigherIsBetter, want[i], want[j]) })
	n := len(want)
	if uint64(n) > uint64(cfg.Limit) {
		n = int(cfg.Limit)
	}
	if cfg.ResultLimit > 0 && uint64(n) > cfg.ResultLimit {
		n = int(cfg.ResultLimit)
	}
	desc := fmt.Sprintf("case %d: %d sources, %d query vectors, higher %v, limit %d, result limit %d, %d returned, %d distinct", c, ns, nv, cfg.HigherIsBetter, cfg.Limit, cfg.ResultLimit, returned, len(best))
	if len(res) != n {
		rep.Violate("%s: %d results instead of %d", desc, len(res), n)
		return
	}
	seen := map[string]bool{}
	for i, x := range res {
		id := lib.KeyID(x.GetDatum().GetKey())
		b, ok := best[id]
		switch {
		case !ok:
			rep.Violate("%s: result %d was returned by nobody: %s", desc, i, id)
			return
		case seen[id]:
			rep.Violate("%s: result %d is a duplicate of %s", desc, i, id)
			return
		case vals[id] != lib.ValID(x.Datum.Value):
			rep.Violate("%s: result %d has a foreign value", desc, i)
			return
		case x.Score != b:
			rep.Violate("%s: result %d has score %v, best returned was %v", desc, i, x.Score, b)
			return
		case x.Score != want[i]:
			rep.Violate("%s: rank %d has score %v, the union has %v there", desc, i, x.Score, want[i])
			return
		}
		seen[id] = true
	}
	sig := ""
	if len(best) > 1 && ns > 0 {
		sig = fmt.Sprint(desc, want)
		rep.Sample(desc)
	}
	rep.Case(sig)
	rep.Count("results_checked", len(res))
	rep.Count("answers_merged", returned)
	if nv > 1 {
		rep.Count("multi_vector_searches", 1)
	}
}
