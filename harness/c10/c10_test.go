package c10

import (
	"fmt"
	"math/rand/v2"
	"os"
	"sort"
	"strings"
	"testing"
	"testing/synctest"

	"verif/harness/lib"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func entries(dt *data.Data) map[string]*pb.Datum {
	m := map[string]*pb.Datum{}
	ch := make(chan *pb.Datum, 10)
	go func() { dt.StreamAll(ch); close(ch) }()
	for d := range ch {
		m[lib.KeyID(d.Key)] = d
	}
	return m
}

var annoyFuncs = []string{"AnnoyVectorDistance", "AnnoyCosineSimilarity", "AnnoyAngularDistance"}

var labels = []string{`{"a":1}`, `{"b":{"c":2}}`, `{"a":1,"b":{"c":3}}`, `{}`, `plain`, `{"a":null}`}

func hasPath(label, path string) bool {
	i := strings.LastIndex(label, "}")
	if i < 0 {
		return false
	}
	base := label[:i+1]
	switch path {
	case "a":
		return base == labels[0] || base == labels[2] || base == labels[5]
	case "b", "b.c":
		return base == labels[1] || base == labels[2]
	}
	return false
}

func passes(d *pb.Datum, cfg *pb.SearchConfig) bool {
	for _, f := range cfg.Filters {
		if !hasPath(string(d.Value.Label), f) {
			return false
		}
	}
	for _, f := range cfg.GroupFilters {
		if !hasPath(string(d.Key.GroupLabel), f) {
			return false
		}
	}
	return true
}

// search through one of the public entry points
func search(dt *data.Data, how int, q *pb.Datum, cfg *pb.SearchConfig) []*pb.ScoredDatum {
	if how == 0 {
		return dt.SearchAnnoy(q, lib.Config(cfg)).List
	}
	res, _ := dt.MultiAggregatedSearch([]*pb.Datum{q}, lib.Config(cfg), nil)
	return res
}

func TestSound(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "index search")
	n := rep.N(120, 1500)
	if rep.Stage == "asan" {
		n = rep.N(50, 600)
	}
	lib.Bubble(t, rep, func() {
		for c := 0; c < n; c++ {
			one(rep, c)
		}
	})
}

func one(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("case", c))
	dt := lib.NewData("ix", nil)
	defer dt.Close()
	synctest.Wait() // the first background refresh is over, the next one needs time to pass
	dim := 1 + r.IntN(24)
	mixed := r.IntN(3) == 0
	flavour := r.IntN(4)
	pickDim := func() int {
		if mixed {
			return []int{dim, dim, 1, dim + 1, 2 * dim, 0}[r.IntN(6)]
		}
		return dim
	}
	serial := 0
	vec := func() []float32 { return lib.GenVec(r, pickDim(), flavour) }
	var atRefresh map[string]*pb.Datum
	refreshed := false
	stored := []*pb.Datum{}
	steps := 4 + r.IntN(5)
	for step := 0; step < steps && rep.Violations() == 0; step++ {
		n := []int{0, 1, 3, 20, 100}[r.IntN(5)]
		if c%25 == 7 && step == 1 {
			n = 1300 // more than the first index has room for
		}
		for i := 0; i < n; i++ {
			serial++
			d := lib.Datum(vec(), labels[r.IntN(len(labels))]+" ", labels[r.IntN(len(labels))]+fmt.Sprint(" ", serial), uint64(serial))
			if len(stored) > 0 && r.IntN(5) == 0 { // overwrite
				d.Key = lib.Clone(stored[r.IntN(len(stored))]).Key
			}
			stored = append(stored, lib.Clone(d))
			if err := dt.Insert(d, nil); err != nil {
				rep.Violate("case %d: insert: %v", c, err)
			}
		}
		if len(stored) > 0 && r.IntN(3) == 0 {
			for i := 0; i < 5; i++ {
				dt.Delete(lib.Clone(stored[r.IntN(len(stored))]))
			}
		}
		if r.IntN(12) == 0 {
			for _, d := range stored {
				dt.Delete(lib.Clone(d))
			}
			if r.IntN(2) == 0 { // a new kind of content
				dim = 1 + r.IntN(48)
			}
		}
		if r.IntN(2) == 0 {
			if err := dt.Process(true); err != nil {
				rep.Violate("case %d: refresh: %v", c, err)
			}
			atRefresh = entries(dt)
			refreshed = true
		}
		now := entries(dt)
		for k := 0; k < 12; k++ {
			cfg := &pb.SearchConfig{ScoreFuncName: annoyFuncs[r.IntN(3)], Limit: uint32([]int{0, 1, 2, 10, 100, 5000}[r.IntN(6)]), Timeout: 600000}
			cfg.HigherIsBetter = cfg.ScoreFuncName != "AnnoyVectorDistance"
			if r.IntN(4) == 0 {
				cfg.Filters = []string{[]string{"a", "b", "b.c"}[r.IntN(3)]}
			}
			if r.IntN(5) == 0 {
				cfg.GroupFilters = []string{[]string{"a", "b", "b.c"}[r.IntN(3)]}
			}
			if r.IntN(40) == 0 {
				cfg.Limit = 1<<32 - 1
			}
			q := lib.Datum(vec(), "q", "", 0)
			how := r.IntN(2)
			res := search(dt, how, q, cfg)
			desc := fmt.Sprintf("case %d step %d query %d: %s limit %d filters %v/%v, dimension %d (mixed %v), query dimension %d, %d live entries, %d at the last refresh", c, step, k, cfg.ScoreFuncName, cfg.Limit, cfg.Filters, cfg.GroupFilters, dim, mixed, len(q.Key.Feature), len(now), len(atRefresh))
			if uint64(len(res)) > uint64(cfg.Limit) {
				rep.Violate("%s: %d results", desc, len(res))
			}
			seen := map[string]bool{}
			for _, x := range res {
				id := lib.KeyID(x.GetDatum().GetKey())
				if seen[id] {
					rep.Violate("%s: %s is returned twice", desc, id)
				}
				seen[id] = true
				a, b := atRefresh[id], now[id]
				if !(a != nil && lib.DatumID(a) == lib.DatumID(x.Datum)) && !(b != nil && lib.DatumID(b) == lib.DatumID(x.Datum)) {
					rep.Violate("%s: %s is neither live nor was it at the last refresh", desc, lib.DatumID(x.Datum))
				}
				if !passes(x.Datum, cfg) {
					rep.Violate("%s: %s does not pass the filters", desc, lib.DatumID(x.Datum))
				}
				if w := lib.Score(cfg.ScoreFuncName, q.Key.Feature, x.Datum.Key.Feature); !w.Contains(x.Score) {
					rep.Violate("%s: %s has score %v, expected %v", desc, lib.DatumID(x.Datum), x.Score, w)
				}
			}
			matching := 0
			for _, d := range now {
				if passes(d, cfg) {
					matching++
				}
			}
			if len(atRefresh) == 0 && uint64(len(res)) != uint64(min(matching, int(cfg.Limit))) {
				rep.Violate("%s: %d results before there is an index, %d entries match", desc, len(res), matching)
			}
			if refreshed && len(res) == 0 && cfg.Limit > 0 && len(cfg.Filters)+len(cfg.GroupFilters) == 0 && len(atRefresh) > 0 && len(now) > 0 {
				rep.Violate("%s: no result", desc)
			}
			rep.Count("results_checked", len(res))
			if refreshed && len(atRefresh) > 1 {
				rep.Case(desc)
			} else {
				rep.Case("")
			}
		}
		if rep.Violations() > 0 {
			return
		}
	}
}

func topIDs(all []*pb.Datum, q *pb.Datum, k int) map[string]bool {
	type sc struct {
		id string
		s  float64
	}
	l := make([]sc, len(all))
	for i, d := range all {
		l[i] = sc{lib.KeyID(d.Key), lib.Score("CosineSimilarity", q.Key.Feature, d.Key.Feature).Ref}
	}
	sort.Slice(l, func(a, b int) bool { return l[a].s > l[b].s })
	m := map[string]bool{}
	for i := 0; i < k && i < len(l); i++ {
		m[l[i].id] = true
	}
	return m
}

// TestRecall: stored vectors are found again and neighbours are far better than chance.
func TestRecall(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "index search")
	measure := os.Getenv("VERIF_MEASURE") != ""
	rounds := rep.N(2, 12)
	for _, n := range []int{40, 400, 900, 2500} {
		for _, dim := range []int{3, 10, 50} {
			self, selfN, hit, want := 0, 0, 0, 0
			for c := 0; c < rounds; c++ {
				r := rep.Rng(fmt.Sprint("recall", n, dim, c))
				self, selfN, hit, want = recall(rep, r, n, dim, c%2 == 1, self, selfN, hit, want)
			}
			sr, rc, chance := float64(self)/float64(selfN), float64(hit)/float64(want), 10/float64(n)
			if measure {
				fmt.Printf("n=%d dim=%d self=%.3f (%d) recall@10=%.3f chance=%.3f\n", n, dim, sr, selfN, rc, chance)
			}
			desc := fmt.Sprintf("%d entries of dimension %d", n, dim)
			if sr < 0.9 {
				rep.Violate("%s: only %.3f of the stored vectors find themselves", desc, sr)
			}
			if rc < recallFloor(n, dim) {
				rep.Violate("%s: recall of the 10 nearest is %.3f", desc, rc)
			}
			rep.Sample(fmt.Sprintf("%s: %.3f find themselves, recall %.3f", desc, sr, rc))
		}
	}
	rep.Done()
}

// about half of what the current index reaches, and many times chance
func recallFloor(n, dim int) float64 {
	switch {
	case n <= 40 || dim <= 3:
		return 0.4
	case dim <= 10:
		return 0.15
	case n <= 400:
		return 0.18
	case n <= 900:
		return 0.09
	}
	return 0.05
}

func recall(rep *lib.Rep, r *rand.Rand, n, dim int, changed bool, self, selfN, hit, want int) (int, int, int, int) {
	dt := lib.NewData("rc", nil)
	defer dt.Close()
	if changed { // entries of another dimension were there before
		old := 1 + r.IntN(2)
		var gone []*pb.Datum
		for i := 0; i < 60; i++ {
			d := lib.Datum(lib.GenVec(r, old, 1), "g", fmt.Sprint("old", i), uint64(i))
			gone = append(gone, d)
			dt.Insert(lib.Clone(d), nil)
		}
		dt.Process(true)
		for _, d := range gone {
			dt.Delete(d)
		}
		if r.IntN(2) == 0 {
			dt.Process(true)
		}
	}
	var all []*pb.Datum
	for i := 0; i < n; i++ {
		d := lib.Datum(lib.GenVec(r, dim, 1), "g", fmt.Sprint(i), uint64(i))
		all = append(all, d)
		dt.Insert(lib.Clone(d), nil)
	}
	for i := 0; i < 2; i++ { // the second refresh knows the size
		dt.Process(true)
	}
	for i := 0; i < 150; i++ {
		d := all[r.IntN(n)]
		q := lib.Datum(append([]float32{}, d.Key.Feature...), "other", "", 0)
		lim := uint32([]int{1, 10, 50}[i%3])
		res := dt.SearchAnnoy(q, &pb.SearchConfig{ScoreFuncName: "AnnoyCosineSimilarity", HigherIsBetter: true, Limit: lim}).List
		selfN++
		for _, x := range res {
			if lib.KeyID(x.Datum.Key) == lib.KeyID(d.Key) {
				self++
				break
			}
		}
		rep.Case(fmt.Sprint("self", n, dim, lib.KeyID(q.Key), lim))
	}
	for i := 0; i < 60; i++ {
		q := lib.Datum(lib.GenVec(r, dim, 1), "q", "", 0)
		top := topIDs(all, q, 10)
		res := dt.SearchAnnoy(q, &pb.SearchConfig{ScoreFuncName: "AnnoyCosineSimilarity", HigherIsBetter: true, Limit: 10}).List
		for _, x := range res {
			if top[lib.KeyID(x.Datum.Key)] {
				hit++
			}
		}
		want += len(top)
		rep.Case(fmt.Sprint("near", n, dim, lib.KeyID(q.Key)))
	}
	return self, selfN, hit, want
}
