package c01

import (
	"fmt"
	"math"
	"math/rand/v2"
	"sort"
	"sync"
	"testing"

	"verif/harness/lib"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

type doc struct {
	text  string
	paths map[string]bool
}

var docs = []doc{
	{`{"a":1}`, map[string]bool{"a": true}},
	{`{"b":{"c":"x"}}`, map[string]bool{"b": true, "b.c": true}},
	{`{"a":null,"b":{"d":2}}`, map[string]bool{"a": true, "b": true, "b.d": true}},
	{`{"a":false,"b":{"c":0,"d":[1]},"e":""}`, map[string]bool{"a": true, "b": true, "b.c": true, "b.d": true, "e": true}},
	{`{}`, nil},
	{``, nil},
	{`plain label`, nil},
	{`{"e":{"a":1}}`, map[string]bool{"e": true}},
	{`{"ab":1,"a":2}`, map[string]bool{"a": true, "ab": true}},
	{`{"c":7,"d":8}`, map[string]bool{"c": true, "d": true}},
	{`{"A":7,"b":{"C":8}}`, map[string]bool{"A": true, "b": true, "b.C": true}},
}
var paths = []string{"a", "b", "b.c", "b.d", "e", "c", "ab", "A", "b.C"}

func has(label string, fs []string) bool {
	for _, f := range fs {
		ok := false
		for _, d := range docs {
			if d.text == label || (len(label) > len(d.text) && d.text != "" && label[:len(d.text)] == d.text && label[len(d.text)] == ' ') {
				ok = d.paths[f]
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func pickFilters(r *rand.Rand) []string {
	switch r.IntN(6) {
	case 5: // many, sometimes met by the documents that have everything
		fs := make([]string, 3+r.IntN(3))
		for i := range fs {
			fs[i] = []string{"a", "b", "b.d", "b.c", "e"}[r.IntN(5)]
		}
		return fs
	case 0:
		return []string{paths[r.IntN(len(paths))]}
	case 1:
		return []string{paths[r.IntN(len(paths))], paths[r.IntN(len(paths))]}
	}
	return nil
}

func TestModel(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "exact search")
	sets := rep.N(160, 2500)
	for s := 0; s < sets; s++ {
		r := rep.Rng(fmt.Sprint("set", s))
		dim := 1 + r.IntN(12)
		flavour := r.IntN(4)
		n := []int{0, 1, 2, 3, 5, 8, 13, 25, 60, 120}[r.IntN(10)]
		if s%40 == 39 {
			n = 700
		}
		scale := []float32{1, 1, 1e-3, 300, 3000}[r.IntN(5)]
		gen := func(d int) []float32 {
			v := lib.GenVec(r, d, flavour)
			for i := range v {
				v[i] *= scale
			}
			return v
		}
		dt := lib.NewData("set", nil)
		model := map[string]*pb.Datum{}
		var keys []*pb.Datum
		mixedDims := r.IntN(4) == 0
		for i := 0; i < n; i++ {
			d := dim
			if mixedDims {
				d = 1 + r.IntN(12)
			}
			group := docs[r.IntN(len(docs))].text
			label := docs[r.IntN(len(docs))].text
			dm := lib.Datum(gen(d), group, label, uint64(i))
			dm.Key.Size1 = uint32(r.IntN(2))
			dm.Key.Dim2 = uint32(r.IntN(2))
			if len(keys) > 0 && r.IntN(6) == 0 { // overwrite an old key, or share its vector under another key
				dm.Key = lib.Clone(keys[r.IntN(len(keys))]).Key
				if r.IntN(2) == 0 {
					dm.Key.Size2 = uint32(1 + r.IntN(3))
				}
			}
			if err := dt.Insert(lib.Clone(dm), nil); err != nil {
				rep.Violate("set %d: insert refused without target: %v", s, err)
			}
			model[lib.KeyID(dm.Key)] = dm
			keys = append(keys, dm)
			if r.IntN(10) == 0 {
				v := keys[r.IntN(len(keys))]
				if err := dt.Delete(lib.Clone(v)); err != nil {
					rep.Violate("set %d: delete failed: %v", s, err)
				}
				delete(model, lib.KeyID(v.Key))
			}
		}
		for q := 0; q < 14; q++ {
			var query []float32
			if len(keys) > 0 && r.IntN(3) == 0 {
				query = append(query, keys[r.IntN(len(keys))].Key.Feature...)
			} else {
				query = gen(1 + r.IntN(14))
				if r.IntN(2) == 0 {
					for i := range query {
						query[i] = -query[i]
					}
				}
			}
			cfg := &pb.SearchConfig{
				ScoreFuncName:  lib.ExactFuncs[r.IntN(len(lib.ExactFuncs))],
				HigherIsBetter: r.IntN(2) == 0,
				Limit:          []uint32{0, 1, 2, 3, 5, 10, 50, uint32(n), uint32(n) + 1, 1000, math.MaxUint32}[r.IntN(11)],
				Timeout:        600000,
				Filters:        pickFilters(r),
				GroupFilters:   pickFilters(r),
			}
			api := r.IntN(3)
			var got []*pb.ScoredDatum
			qd := lib.Datum(query, "q", "q", 0)
			switch api {
			case 0:
				got = dt.Search(qd, lib.Config(cfg), nil).List
			case 1:
				got = stream(dt, qd, cfg)
			case 2:
				res, err := dt.MultiAggregatedSearch([]*pb.Datum{qd}, lib.Config(cfg), nil)
				if err != nil {
					rep.Violate("set %d query %d: %v", s, q, err)
				}
				got = res
			}
			check(rep, fmt.Sprintf("set %d query %d api %d", s, q, api), model, query, cfg, got)
		}
		dt.Close()
	}
	// large data sets, with limits beyond their size: nothing may be capped on the way
	for s, n := range []int{1100, 2300, 11000, 5000, 21000}[:rep.N(3, 5)] {
		r := rep.Rng(fmt.Sprint("large", s))
		dt := lib.NewData("large", nil)
		model := map[string]*pb.Datum{}
		for i := 0; i < n; i++ {
			dm := lib.Datum([]float32{float32(i), r.Float32()}, "{}", "{}", uint64(i))
			if err := dt.Insert(lib.Clone(dm), nil); err != nil {
				rep.Violate("large set %d: insert refused without target: %v", s, err)
			}
			model[lib.KeyID(dm.Key)] = dm
		}
		for api := 0; api < 3; api++ {
			query := []float32{float32(r.IntN(n)), 0.5}
			cfg := &pb.SearchConfig{ScoreFuncName: "VectorDistance", HigherIsBetter: r.IntN(2) == 0, Timeout: 600000,
				Limit: []uint32{uint32(n) - 1, uint32(n), uint32(n) + 7, math.MaxUint32}[r.IntN(4)]}
			qd := lib.Datum(query, "q", "q", 0)
			var got []*pb.ScoredDatum
			switch api {
			case 0:
				got = dt.Search(qd, lib.Config(cfg), nil).List
			case 1:
				got = stream(dt, qd, cfg)
			case 2:
				res, err := dt.MultiAggregatedSearch([]*pb.Datum{qd}, lib.Config(cfg), nil)
				if err != nil {
					rep.Violate("large set %d: %v", s, err)
				}
				got = res
			}
			check(rep, fmt.Sprintf("large set %d api %d", s, api), model, query, cfg, got)
			rep.Count("large_set_queries", 1)
		}
		dt.Close()
	}
	rep.Done()
}

func stream(dt *data.Data, qd *pb.Datum, cfg *pb.SearchConfig) []*pb.ScoredDatum {
	ch := make(chan *pb.ScoredDatum, 8)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { dt.StreamSearch(qd, ch, &wg, lib.Config(cfg)) }()
	go func() { wg.Wait(); close(ch) }()
	var got []*pb.ScoredDatum
	for x := range ch {
		got = append(got, x)
	}
	return got
}

func check(rep *lib.Rep, where string, model map[string]*pb.Datum, query []float32, cfg *pb.SearchConfig, got []*pb.ScoredDatum) {
	ref := map[string]lib.Range{}
	for id, d := range model {
		if has(string(d.Value.Label), cfg.Filters) && has(string(d.Key.GroupLabel), cfg.GroupFilters) {
			ref[id] = lib.Score(cfg.ScoreFuncName, d.Key.Feature, query)
		}
	}
	want := len(ref)
	if uint64(cfg.Limit) < uint64(want) {
		want = int(cfg.Limit)
	}
	desc := fmt.Sprintf("%s func %s higher %v limit %d filters %v group filters %v query %v entries %d matching %d", where, cfg.ScoreFuncName, cfg.HigherIsBetter, cfg.Limit, cfg.Filters, cfg.GroupFilters, query, len(model), len(ref))
	if len(got) != want {
		rep.Violate("%s: %d results instead of %d", desc, len(got), want)
		return
	}
	seen := map[string]bool{}
	for i, g := range got {
		id := lib.KeyID(g.GetDatum().GetKey())
		rg, ok := ref[id]
		if !ok {
			rep.Violate("%s: result %d is not a matching live entry: %s", desc, i, id)
			return
		}
		if seen[id] {
			rep.Violate("%s: result %d is a duplicate: %s", desc, i, id)
			return
		}
		seen[id] = true
		if lib.ValID(g.Datum.Value) != lib.ValID(model[id].Value) {
			rep.Violate("%s: result %d has value %s instead of %s", desc, i, lib.ValID(g.Datum.Value), lib.ValID(model[id].Value))
			return
		}
		if !rg.Contains(g.Score) {
			rep.Violate("%s: result %d has score %v, true score %v", desc, i, g.Score, rg)
			return
		}
		if i > 0 && ((cfg.HigherIsBetter && got[i-1].Score < g.Score) || (!cfg.HigherIsBetter && got[i-1].Score > g.Score)) {
			rep.Violate("%s: results %d,%d out of order: %v %v", desc, i-1, i, got[i-1].Score, g.Score)
			return
		}
	}
	if len(got) > 0 && len(ref) > len(got) {
		worst := ref[lib.KeyID(got[len(got)-1].Datum.Key)]
		for _, g := range got {
			if x := ref[lib.KeyID(g.Datum.Key)]; lib.DefBetter(worst, x, cfg.HigherIsBetter) {
				worst = x
			}
		}
		var missed []string
		for id, x := range ref {
			if !seen[id] && lib.DefBetter(x, worst, cfg.HigherIsBetter) {
				missed = append(missed, fmt.Sprint(id, x))
			}
		}
		if len(missed) > 0 {
			sort.Strings(missed)
			rep.Violate("%s: %d better entries were left out, worst returned %v, e.g. %s", desc, len(missed), worst, missed[0])
			return
		}
	}
	sig := ""
	if len(model) > 1 {
		sig = desc
	}
	rep.Case(sig)
	rep.Count("results_checked", len(got))
	if len(cfg.Filters)+len(cfg.GroupFilters) > 0 {
		rep.Count("filtered_queries", 1)
	}
	if len(got) > 2 {
		rep.Sample(map[string]any{"query": desc, "returned": len(got), "best": got[0].Score, "last": got[len(got)-1].Score})
	}
}
