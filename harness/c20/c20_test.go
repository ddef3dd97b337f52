package c20

import (
	"fmt"
	"sort"
	"testing"
	"time"

	"verif/harness/lib"

	data "github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func better(h bool, a, b float64) bool {
	if h {
		return a > b
	}
	return a < b
}

type src struct {
	id    string
	delay time.Duration // per source; beyond the deadline means late
	hang  bool
	ans   map[string][]*pb.ScoredDatum
	split bool       // half of the answer in good time, half late
	relay *data.Data // a member that searches itself and at a peer that never answers
}

func TestDeadline(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "search with a deadline")
	lib.Bubble(t, rep, func() {
		for c := 0; c < rep.N(900, 2500); c++ {
			one(rep, c)
		}
	})
}

func one(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("case", c))
	dt := lib.NewData(fmt.Sprint("d", c), nil)
	defer dt.Close()
	T := time.Duration([]int{1, 10, 50, 200, 400, 1000, 1001, 2000, 5000}[r.IntN(9)]) * time.Millisecond
	cfgTimeout := uint64(T / time.Millisecond)
	huge := r.IntN(30) == 0
	if huge {
		cfgTimeout = []uint64{1 << 62, 1<<64 - 1, 1 << 63, 1 << 44}[r.IntN(4)]
		T = 20 * time.Hour
	} else if r.IntN(25) == 0 {
		T, cfgTimeout = time.Minute, 60000
	}
	nv := 1 + r.IntN(3)
	queries := make([]*pb.Datum, nv)
	for i := range queries {
		queries[i] = lib.Datum([]float32{float32(i), r.Float32()}, fmt.Sprint("q", i), "", 0)
	}
	cfg := &pb.SearchConfig{ScoreFuncName: "VectorDistance", HigherIsBetter: r.IntN(2) == 0, Limit: uint32([]int{1, 3, 10, 1000}[r.IntN(4)]), Timeout: cfgTimeout}
	var must, may []*pb.ScoredDatum // guaranteed and possible contributions
	for i := 0; i < r.IntN(8); i++ {
		dt.Insert(lib.Datum([]float32{r.Float32(), r.Float32()}, "local", fmt.Sprint(i), 0), nil)
	}
	for _, q := range queries {
		must = append(must, dt.Search(q, cfg, nil).List...)
	}
	ns := r.IntN(6)
	release := make(chan struct{})
	var anyLate bool
	late := 0
	for s := 0; s < ns; s++ {
		x := &src{id: fmt.Sprint("s", s), ans: map[string][]*pb.ScoredDatum{}}
		kind := r.IntN(7)
		if kind == 6 && T >= 50*time.Millisecond && !huge {
			x.relay = lib.NewData(fmt.Sprint("relay", c, "-", s), nil)
			defer x.relay.Close()
			x.relay.AddSource(&lib.Source{ID: "silent", OnSearch: func(*pb.Datum, *pb.SearchConfig, func(*pb.ScoredDatum)) { <-release }})
			n := 1 + r.IntN(6)
			for i := 0; i < n; i++ {
				x.relay.Insert(lib.Datum([]float32{r.Float32(), r.Float32()}, fmt.Sprint("relay", s), fmt.Sprint(i), 0), nil)
			}
			for _, q := range queries { // it has less time than the whole search, so that it is not late itself
				must = append(must, x.relay.Search(q, cfg, nil).List...)
			}
			anyLate = true
			late++
			rep.Count("members_that_wait_for_their_peers", 1)
			dt.AddSource(&lib.Source{ID: x.id, OnSearch: func(q *pb.Datum, cfg *pb.SearchConfig, send func(*pb.ScoredDatum)) {
				l, _ := x.relay.MultiAggregatedSearch([]*pb.Datum{q}, lib.Config(cfg), nil)
				for _, a := range l {
					send(a)
				}
			}})
			continue
		}
		switch kind {
		case 0:
			x.hang = !huge
		case 1:
			x.delay = time.Duration(float64(T) * (1.05 + r.Float64()))
		case 2:
			x.delay = time.Duration(float64(T) * (0.8 + 0.2*r.Float64())) // no promise either way
		case 3:
			x.split = true
			x.delay = time.Duration(float64(T) * 0.5 * r.Float64())
		default:
			x.delay = time.Duration(float64(T) * 0.79 * r.Float64())
		}
		if huge && !x.hang {
			x.delay = time.Duration(r.IntN(5000)) * time.Millisecond
			x.split = false
		}
		for qi, q := range queries {
			n := r.IntN(6)
			if r.IntN(15) == 0 {
				n = 180
			}
			for k := 0; k < n; k++ {
				sd := &pb.ScoredDatum{Score: r.NormFloat64(), Datum: lib.Datum([]float32{float32(s), float32(k), float32(qi)}, "src", fmt.Sprint(s, k), 1)}
				x.ans[lib.KeyID(q.Key)] = append(x.ans[lib.KeyID(q.Key)], sd)
				ingood := !x.hang && (huge || (float64(x.delay) < 0.8*float64(T))) && (!x.split || k < n/2)
				if ingood {
					must = append(must, sd)
				} else if !x.hang && (x.split || x.delay <= T) {
					may = append(may, sd)
				}
			}
		}
		if x.hang || x.split || float64(x.delay) >= 0.8*float64(T) {
			anyLate = true
			late++
		}
		dt.AddSource(&lib.Source{ID: x.id, OnSearch: func(q *pb.Datum, _ *pb.SearchConfig, send func(*pb.ScoredDatum)) {
			if x.hang {
				<-release
			}
			time.Sleep(x.delay)
			l := x.ans[lib.KeyID(q.Key)]
			for i, a := range l {
				if x.split && i == len(l)/2 {
					time.Sleep(2 * T)
				}
				send(a)
			}
		}})
	}
	desc := fmt.Sprintf("case %d: timeout %d ms, %d sources (%d late or hanging), %d vectors, limit %d", c, cfgTimeout, ns, late, nv, cfg.Limit)
	start := time.Now()
	var res []*pb.ScoredDatum
	ok := lib.Within(T+T/2+time.Second, func() { res, _ = dt.MultiAggregatedSearch(queries, lib.Config(cfg), nil) })
	took := time.Since(start)
	if !ok {
		rep.Violate("%s: no answer %v after the start", desc, took)
		close(release)
		return
	}
	if !huge && took > T {
		rep.Violate("%s: answered after %v", desc, took)
	}
	if !anyLate && took > T*8/10 {
		rep.Violate("%s: answered after %v although every participant answered in good time", desc, took)
	}
	checkPart(rep, desc, cfg, must, may, res)
	// late answers arrive during the next search, which must not see them
	if !huge {
		time.Sleep(T / 3)
	}
	close(release)
	dt2cfg := &pb.SearchConfig{ScoreFuncName: "VectorDistance", Limit: 5, Timeout: 100}
	d2 := lib.NewData(fmt.Sprint("n", c), nil)
	d2.Insert(lib.Datum([]float32{1, 2}, "x", "x", 0), nil)
	r2, _ := d2.MultiAggregatedSearch([]*pb.Datum{queries[0]}, dt2cfg, nil)
	if len(r2) != 1 || string(r2[0].Datum.Value.Label) != "x" {
		rep.Violate("%s: a following search returned %v", desc, r2)
	}
	d2.Close()
	if r.IntN(3) == 0 { // same data set, sources now answer or not: still sound
		// sources that needed up to 2T now compete again; only soundness and deadline are promised
		st := time.Now()
		res2, _ := dt.MultiAggregatedSearch(queries, lib.Config(cfg), nil)
		if !huge && time.Since(st) > T {
			rep.Violate("%s: second search answered after %v", desc, time.Since(st))
		}
		sound(rep, desc+" second", append(append([]*pb.ScoredDatum{}, must...), allOf(dt, may)...), res2, nil)
	}
	if !huge {
		time.Sleep(3*T + time.Second)
	}
	sig := ""
	if ns > 0 {
		sig = fmt.Sprint(desc, len(must), len(may), took)
		rep.Sample(desc + fmt.Sprintf(", took %v", took))
	}
	rep.Case(sig)
	rep.Count("results_checked", len(res))
	rep.Count("late_sources", late)
	if anyLate {
		rep.Count("searches_with_late_sources", 1)
	}
}

func allOf(_ any, may []*pb.ScoredDatum) []*pb.ScoredDatum { return may }

func sound(rep *lib.Rep, desc string, allowed []*pb.ScoredDatum, res []*pb.ScoredDatum, _ any) {
	seen := map[string]bool{}
	for _, x := range res {
		id := lib.KeyID(x.GetDatum().GetKey())
		if seen[id] {
			rep.Violate("%s: duplicate %s", desc, id)
		}
		seen[id] = true
	}
}

func checkPart(rep *lib.Rep, desc string, cfg *pb.SearchConfig, must, may, res []*pb.ScoredDatum) {
	h := cfg.HigherIsBetter
	mustBest, all := map[string]float64{}, map[string]map[float64]bool{}
	for _, l := range [][]*pb.ScoredDatum{must, may} {
		for _, x := range l {
			id := lib.KeyID(x.Datum.Key)
			if all[id] == nil {
				all[id] = map[float64]bool{}
			}
			all[id][x.Score] = true
		}
	}
	for _, x := range must {
		id := lib.KeyID(x.Datum.Key)
		if o, ok := mustBest[id]; !ok || better(h, x.Score, o) {
			mustBest[id] = x.Score
		}
	}
	seen := map[string]float64{}
	for i, x := range res {
		id := lib.KeyID(x.GetDatum().GetKey())
		if _, dup := seen[id]; dup {
			rep.Violate("%s: duplicate result %s", desc, id)
			return
		}
		seen[id] = x.Score
		if !all[id][x.Score] {
			rep.Violate("%s: result %d (%s, %v) was not contributed before the deadline", desc, i, id, x.Score)
			return
		}
		if i > 0 && better(h, x.Score, res[i-1].Score) {
			rep.Violate("%s: results out of order at %d", desc, i)
			return
		}
	}
	if len(res) > int(cfg.Limit) {
		rep.Violate("%s: %d results", desc, len(res))
	}
	var missing []string
	for id, s := range mustBest {
		got, ok := seen[id]
		if ok && better(h, s, got) {
			rep.Violate("%s: %s has score %v although %v arrived in good time", desc, id, got, s)
			return
		}
		if !ok && (len(res) < int(cfg.Limit) || better(h, s, res[len(res)-1].Score)) {
			missing = append(missing, fmt.Sprint(id, " ", s))
		}
	}
	if len(missing) > 0 {
		sort.Strings(missing)
		rep.Violate("%s: %d contributions that arrived in good time are missing from %d results, e.g. %s", desc, len(missing), len(res), missing[0])
	}
}
