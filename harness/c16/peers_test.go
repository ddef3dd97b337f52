package c16

import (
	"fmt"
	"math"
	"testing"
	"time"

	"verif/harness/lib"

	pb "github.com/bgokden/veri/veriservice"
)

// TestPeers: answers of peers with any fields missing or extreme do not take the node down or hide its own entries.
func TestPeers(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "answers of hostile peers")
	lib.Bubble(t, rep, func() {
		for c := 0; c < rep.N(400, 4000); c++ {
			answers(rep, c)
		}
	})
}

func answers(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("peers", c))
	dt := lib.NewData(fmt.Sprint("p", c), nil)
	own := map[string]bool{}
	n := r.IntN(6)
	for i := 0; i < n; i++ {
		d := lib.Datum(lib.GenVec(r, 3, 1), fmt.Sprint("own", i), "own", 1)
		if dt.Insert(d, nil) == nil {
			own[lib.KeyID(d.Key)] = true
		}
	}
	sent := 0
	np := 1 + r.IntN(3)
	for p := 0; p < np; p++ {
		pr := rep.Rng(fmt.Sprint("peers", c, "-", p))
		var list []*pb.ScoredDatum
		k := 1 + pr.IntN(8)
		for i := 0; i < k; i++ {
			sd := &pb.ScoredDatum{Score: []float64{0, 1, -1, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, pr.NormFloat64()}[pr.IntN(8)], Datum: datum(pr)}
			if pr.IntN(4) == 0 {
				sd.Datum = nil
			}
			list = append(list, sd)
		}
		sent += k
		dt.AddSource(&lib.Source{ID: fmt.Sprint("s", p), OnSearch: func(_ *pb.Datum, _ *pb.SearchConfig, send func(*pb.ScoredDatum)) {
			for _, x := range list {
				send(x)
			}
		}, OnInfo: func() *pb.DataInfo {
			switch pr.IntN(4) {
			case 0:
				return nil
			case 1:
				return &pb.DataInfo{N: u64(pr), Avg: feature(pr), Hist: feature(pr), MaxDistance: math.NaN()}
			}
			return &pb.DataInfo{N: u64(pr)}
		}})
	}
	for s := 0; s < 4; s++ {
		cfg := &pb.SearchConfig{ScoreFuncName: lib.ExactFuncs[r.IntN(len(lib.ExactFuncs))], HigherIsBetter: r.IntN(2) == 0, Limit: 1000, Timeout: 5000}
		var sc *pb.SearchContext
		plain := true
		switch r.IntN(5) {
		case 0:
			cfg.GroupLimit, plain = uint32(1+r.IntN(3)), false
		case 1:
			sc, plain = &pb.SearchContext{Datum: datums(r), Prioritize: r.IntN(2) == 0}, false
		case 2:
			cfg.CacheDuration = 30
		case 3:
			cfg.ScoreFuncName, plain = "AnnoyAngularDistance", false // the index lags behind the content
		}
		var res []*pb.ScoredDatum
		var err error
		if !lib.Within(time.Minute, func() {
			res, err = dt.MultiAggregatedSearch([]*pb.Datum{lib.Datum(lib.GenVec(r, 3, 1), "q", "", 0)}, cfg, sc)
		}) {
			rep.Violate("peers %d: a search does not return", c)
			return
		}
		if err != nil {
			rep.Violate("peers %d: %v", c, err)
		}
		if plain {
			got := map[string]bool{}
			for _, x := range res {
				got[lib.KeyID(x.GetDatum().GetKey())] = true
			}
			for id := range own {
				if !got[id] {
					rep.Violate("peers %d: own entry %s is missing from %d results (limit 1000) because of the answers of peers", c, id, len(res))
				}
			}
		}
	}
	dt.Process(true)
	rep.Count("hostile_answers_of_peers", sent)
	rep.Case(fmt.Sprint("peers", c, n, sent))
	rep.Sample(fmt.Sprintf("peers %d: %d own entries, %d peers with %d answers", c, n, np, sent))
	if !lib.Within(time.Hour, func() { dt.Close() }) {
		rep.Violate("peers %d: close does not return", c)
	}
}
