package c03

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"
	"time"

	"verif/harness/lib"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func better(h bool, a, b float64) bool {
	if h {
		return a > b
	}
	return a < b
}

type cand struct {
	d     *pb.Datum
	score float64
}

func TestGroups(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "grouped search")
	lib.Bubble(t, rep, func() {
		for c := 0; c < rep.N(450, 4000); c++ {
			one(rep, c, false)
			one(rep, c, true)
		}
	})
}

// one builds a local data set plus scripted sources with pairwise different scores, and recomputes the
// candidate set (best `limit` per query vector) and its groups or context scores independently.
func one(rep *lib.Rep, c int, ctx bool) {
	r := rep.Rng(fmt.Sprint("case", c, ctx))
	dt := lib.NewData(fmt.Sprint("g", c, ctx), nil)
	defer dt.Close()
	dim := 2 + r.IntN(4)
	nv := 1 + r.IntN(3)
	if r.IntN(30) == 0 {
		nv = []int{9, 12, 17}[r.IntN(3)]
	}
	queries := make([]*pb.Datum, nv)
	for i := range queries {
		queries[i] = lib.Datum(append(lib.GenVec(r, dim, 1), float32(i)), fmt.Sprint("q", i), "", 0)
	}
	cfg := &pb.SearchConfig{ScoreFuncName: lib.ExactFuncs[r.IntN(len(lib.ExactFuncs))], HigherIsBetter: r.IntN(2) == 0,
		Limit: uint32([]int{1, 2, 4, 8, 20, 100}[r.IntN(6)]), Timeout: 100000}
	if r.IntN(4) == 0 {
		cfg.ResultLimit = uint64(1 + r.IntN(6))
	}
	var context *pb.SearchContext
	if ctx {
		context = &pb.SearchContext{Prioritize: r.IntN(2) == 0}
		nc := r.IntN(4)
		if r.IntN(8) == 0 {
			nc = []int{5, 9, 17, 70}[r.IntN(4)]
		}
		if r.IntN(3) == 0 { // groups of entries that are scored with the context
			cfg.GroupLimit = uint32(1 + r.IntN(5))
		}
		for i := 0; i < nc; i++ {
			d := lib.Datum(lib.GenVec(r, dim, 1), []string{"", "a", "c"}[r.IntN(3)], []string{"", "a", "c"}[r.IntN(3)], []uint64{0, 1, 1 << 41, r.Uint64()}[r.IntN(4)])
			if r.IntN(4) == 0 {
				d.Value = nil
			}
			context.Datum = append(context.Datum, d)
		}
	} else {
		cfg.GroupLimit = uint32(1 + r.IntN(5))
		if r.IntN(4) == 0 {
			cfg.GroupLimit = uint32(5 + r.IntN(40))
		}
	}
	groups := []string{"", "a", "b", "bb", "c", "\x00", "d", "e"}[:1+r.IntN(8)]
	if r.IntN(4) == 0 { // long labels that differ only at the end, or only in bytes that are not text
		p := strings.Repeat("group-", 1+r.IntN(40))
		groups = []string{p, p + "1", p + "2", p + "\x00", p + "\xff", p + "\xfe", "0" + p}[:1+r.IntN(7)]
	}
	per := make([]map[string]cand, nv)
	for i := range per {
		per[i] = map[string]cand{}
	}
	size := r.IntN(25)
	if r.IntN(5) == 0 {
		size = r.IntN(150)
	}
	zeros := r.IntN(3) == 0
	for i := 0; i < size; i++ {
		v := lib.GenVec(r, dim, 1)
		if zeros && i < 2 { // a score of exactly zero for most functions
			v = append([]float32{}, queries[r.IntN(nv)].Key.Feature[:dim]...)
			if i == 1 {
				v = make([]float32, dim)
			}
		}
		d := lib.Datum(v, groups[r.IntN(len(groups))], fmt.Sprint("l", i), uint64(i))
		if err := dt.Insert(lib.Clone(d), nil); err != nil {
			rep.Violate("insert: %v", err)
		}
	}
	for i, q := range queries {
		for _, x := range dt.Search(q, &pb.SearchConfig{ScoreFuncName: cfg.ScoreFuncName, HigherIsBetter: cfg.HigherIsBetter, Limit: 10000}, nil).List {
			per[i][lib.KeyID(x.Datum.Key)] = cand{x.Datum, x.Score}
		}
	}
	pace := time.Duration(1)
	if r.IntN(8) == 0 { // participants that need minutes
		pace = 1200
		cfg.Timeout *= 600
		rep.Count("slow_searches", 1)
	}
	for s, ns := 0, r.IntN(4); s < ns; s++ {
		script := map[string][]cand{}
		for i, q := range queries {
			for k, nk := 0, r.IntN(20); k < nk; k++ {
				score := r.NormFloat64()
				if zeros && k == 7 {
					score = 0
				}
				x := cand{lib.Datum([]float32{float32(s), float32(k % 13), 1}, groups[k%13%len(groups)], fmt.Sprint(s, "-", k%13), uint64(k%13)), score}
				script[lib.KeyID(q.Key)] = append(script[lib.KeyID(q.Key)], x)
				id := lib.KeyID(x.d.Key)
				if o, ok := per[i][id]; !ok || better(cfg.HigherIsBetter, x.score, o.score) {
					per[i][id] = x
				}
			}
		}
		ds := map[string]time.Duration{}
		for _, q := range queries {
			ds[lib.KeyID(q.Key)] = pace * time.Duration(r.IntN(1000)) * time.Millisecond
		}
		dt.AddSource(&lib.Source{ID: fmt.Sprint("s", s), OnSearch: func(q *pb.Datum, _ *pb.SearchConfig, send func(*pb.ScoredDatum)) {
			time.Sleep(ds[lib.KeyID(q.Key)])
			for _, x := range script[lib.KeyID(q.Key)] {
				send(&pb.ScoredDatum{Datum: x.d, Score: x.score})
			}
		}})
	}
	res, err := dt.MultiAggregatedSearch(queries, lib.Config(cfg), context)
	if err != nil {
		rep.Violate("case %d: %v", c, err)
		return
	}
	// candidates: best limit of each query vector; a tie exactly at the cut makes the set ambiguous
	best := map[string]cand{}
	for i := range per {
		var l []cand
		for _, x := range per[i] {
			l = append(l, x)
		}
		sort.Slice(l, func(a, b int) bool { return better(cfg.HigherIsBetter, l[a].score, l[b].score) })
		if len(l) > int(cfg.Limit) {
			if l[cfg.Limit-1].score == l[cfg.Limit].score {
				rep.Count("skipped_ambiguous", 1)
				return
			}
			l = l[:cfg.Limit]
		}
		for _, x := range l {
			id := lib.KeyID(x.d.Key)
			if o, ok := best[id]; !ok || better(cfg.HigherIsBetter, x.score, o.score) {
				best[id] = x
			}
		}
	}
	desc := fmt.Sprintf("case %d: %s higher %v limit %d group limit %d result limit %d vectors %d context %v candidates %d", c, cfg.ScoreFuncName, cfg.HigherIsBetter, cfg.Limit, cfg.GroupLimit, cfg.ResultLimit, nv, ctx, len(best))
	if ctx && cfg.GroupLimit > 0 {
		desc += fmt.Sprintf(" prioritized %v context vectors %d", context.Prioritize, len(context.Datum))
		f := data.GetVectorComparisonFunction(cfg.ScoreFuncName)
		for id, x := range best {
			set := !context.Prioritize || len(context.Datum) == 0
			for _, c := range context.Datum {
				if y := f(x.d.Key.Feature, c.Key.Feature); !set || better(cfg.HigherIsBetter, y, x.score) {
					x.score, set = y, true
				}
			}
			best[id] = x
		}
		checkGroups(rep, desc, cfg, best, res)
		rep.Count("groups_with_context", 1)
	} else if ctx {
		checkContext(rep, desc, cfg, context, best, res)
	} else {
		checkGroups(rep, desc, cfg, best, res)
	}
}

func cut(cfg *pb.SearchConfig, n int) int {
	if n > int(cfg.Limit) {
		n = int(cfg.Limit)
	}
	if cfg.ResultLimit > 0 && uint64(n) > cfg.ResultLimit {
		n = int(cfg.ResultLimit)
	}
	return n
}

func checkGroups(rep *lib.Rep, desc string, cfg *pb.SearchConfig, best map[string]cand, res []*pb.ScoredDatum) {
	m := map[string][]cand{}
	for _, x := range best {
		g := string(x.d.Key.GroupLabel)
		m[g] = append(m[g], x)
	}
	type grp struct {
		rep   *pb.Datum
		score float64
		tie   bool
		n     int
	}
	gs := map[string]grp{}
	var scores []float64
	for g, l := range m {
		sort.Slice(l, func(a, b int) bool { return better(cfg.HigherIsBetter, l[a].score, l[b].score) })
		tie := len(l) > 1 && l[0].score == l[1].score
		if len(l) > int(cfg.GroupLimit) {
			l = l[:cfg.GroupLimit]
		}
		sum := 0.0
		for _, x := range l {
			sum += x.score
		}
		if !cfg.HigherIsBetter {
			sum = sum / float64(len(l)) / float64(len(l))
		}
		gs[g] = grp{l[0].d, sum, tie, len(l)}
		scores = append(scores, sum)
	}
	sort.Slice(scores, func(i, j int) bool { return better(cfg.HigherIsBetter, scores[i], scores[j]) })
	n := cut(cfg, len(scores))
	if len(res) != n {
		rep.Violate("%s: %d groups returned instead of %d", desc, len(res), n)
		return
	}
	seen := map[string]bool{}
	for i, x := range res {
		g := string(x.GetDatum().GetKey().GetGroupLabel())
		w, ok := gs[g]
		tol := 1e-9 * (1 + math.Abs(w.score))
		switch {
		case !ok:
			rep.Violate("%s: result %d has unknown group %q", desc, i, g)
			return
		case seen[g]:
			rep.Violate("%s: group %q appears twice", desc, g)
			return
		case math.Abs(x.Score-w.score) > tol:
			rep.Violate("%s: group %q has score %v instead of %v (%d members)", desc, g, x.Score, w.score, w.n)
			return
		case !w.tie && lib.DatumID(x.Datum) != lib.DatumID(w.rep):
			rep.Violate("%s: group %q is represented by %s instead of its best member %s", desc, g, lib.DatumID(x.Datum), lib.DatumID(w.rep))
			return
		case math.Abs(x.Score-scores[i]) > tol:
			rep.Violate("%s: rank %d has group score %v instead of %v", desc, i, x.Score, scores[i])
			return
		}
		seen[g] = true
	}
	sig := ""
	if len(gs) > 1 {
		sig = fmt.Sprint(desc, scores)
		rep.Sample(desc)
	}
	rep.Case(sig)
	rep.Count("groups_checked", len(res))
}

func checkContext(rep *lib.Rep, desc string, cfg *pb.SearchConfig, context *pb.SearchContext, best map[string]cand, res []*pb.ScoredDatum) {
	desc += fmt.Sprintf(" prioritized %v context vectors %d", context.Prioritize, len(context.Datum))
	ref := map[string]lib.Range{}
	for id, x := range best {
		var l []lib.Range
		if !context.Prioritize || len(context.Datum) == 0 { // an empty context changes nothing
			l = append(l, lib.Range{Lo: x.score, Ref: x.score, Hi: x.score})
		}
		for _, c := range context.Datum {
			l = append(l, lib.Score(cfg.ScoreFuncName, x.d.Key.Feature, c.Key.Feature))
		}
		o := l[0]
		for _, y := range l[1:] {
			if cfg.HigherIsBetter {
				o = lib.Range{Lo: math.Max(o.Lo, y.Lo), Ref: math.Max(o.Ref, y.Ref), Hi: math.Max(o.Hi, y.Hi)}
			} else {
				o = lib.Range{Lo: math.Min(o.Lo, y.Lo), Ref: math.Min(o.Ref, y.Ref), Hi: math.Min(o.Hi, y.Hi)}
			}
		}
		ref[id] = o
	}
	n := cut(cfg, len(ref))
	if len(res) != n {
		rep.Violate("%s: %d results instead of %d", desc, len(res), n)
		return
	}
	seen := map[string]bool{}
	for i, x := range res {
		id := lib.KeyID(x.GetDatum().GetKey())
		w, ok := ref[id]
		if !ok || seen[id] {
			rep.Violate("%s: result %d is unknown (%v) or a duplicate", desc, i, !ok)
			return
		}
		seen[id] = true
		if !w.Contains(x.Score) {
			rep.Violate("%s: result %d has score %v, expected %v", desc, i, x.Score, w)
			return
		}
		if i > 0 && better(cfg.HigherIsBetter, x.Score, res[i-1].Score) {
			rep.Violate("%s: results %d and %d out of order", desc, i-1, i)
			return
		}
	}
	if len(res) > 0 {
		last := res[len(res)-1].Score
		lr := lib.Range{Lo: last, Ref: last, Hi: last}
		for id, x := range ref {
			if !seen[id] && lib.DefBetter(x, lr, cfg.HigherIsBetter) {
				rep.Violate("%s: %s with score %v was left out, last returned %v", desc, id, x, last)
				return
			}
		}
	}
	sig := ""
	if len(ref) > 1 {
		sig = fmt.Sprint(desc, n)
		rep.Sample(desc)
	}
	rep.Case(sig)
	rep.Count("context_results_checked", len(res))
}
