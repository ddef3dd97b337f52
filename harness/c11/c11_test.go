package c11

import (
	"fmt"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"testing"

	"verif/harness/lib"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

var sum atomic.Uint64 // keeps reads of results alive

// touch reads everything a consumer could read
func touch(d *pb.Datum) {
	s := uint64(0)
	for _, f := range d.GetKey().GetFeature() {
		s += uint64(int64(f))
	}
	for _, b := range d.GetKey().GetGroupLabel() {
		s += uint64(b)
	}
	for _, b := range d.GetValue().GetLabel() {
		s += uint64(b)
	}
	s += d.GetValue().GetVersion()
	sum.Add(s)
}

func TestStress(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "concurrent use of a data set")
	rounds := rep.N(600, 2500)
	for c := 0; c < rounds; c++ {
		round(rep, c)
	}
	rep.Done()
}

var funcs = []string{"VectorDistance", "CosineSimilarity", "AngularDistance", "AnnoyVectorDistance", "AnnoyCosineSimilarity", "AnnoyAngularDistance", "VectorMultiplication", ""}

func round(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("round", c))
	ds := data.NewDataset(lib.TempDir("ds"))
	name := fmt.Sprint("s", c)
	cfg := &pb.DataConfig{Name: name, Version: 1, NoTarget: r.IntN(3) > 0, TargetN: 150, TargetUtilization: 0.4, ReplicationOnInsert: 1, EnforceReplicationOnInsert: r.IntN(2) == 0}
	dt, err := ds.GetOrCreateIfNotExists(cfg)
	if err != nil {
		rep.Violate("create: %v", err)
		return
	}
	other := lib.NewData("other", nil)
	mixed := r.IntN(2) == 0
	dim := 1 + r.IntN(16)
	hasSource := false
	if r.IntN(2) == 0 {
		hasSource = true
		dt.AddSource(&lib.Source{ID: "other",
			OnInsert: func(d *pb.Datum, ic *pb.InsertConfig) error { return other.Insert(d, ic) },
			OnInfo:   other.GetDataInfo,
			OnSearch: func(d *pb.Datum, sc *pb.SearchConfig, send func(*pb.ScoredDatum)) {
				for _, x := range other.Search(d, sc, nil).List {
					send(x)
				}
			}})
	}
	for i := 0; i < r.IntN(300); i++ {
		dt.Insert(lib.Datum(lib.GenVec(r, dim, 1), "g", `{"a":1}`, uint64(i)), nil)
	}
	clients := 4 + r.IntN(5)
	per := 25
	closeAt := -1
	if r.IntN(3) > 0 {
		closeAt = r.IntN(per)
	}
	version := atomic.Uint64{}
	version.Store(1)
	var wg sync.WaitGroup
	var ops atomic.Int64
	var kinds [16]atomic.Int64
	for g := 0; g < clients; g++ {
		wg.Add(1)
		gr := rand.New(rand.NewPCG(r.Uint64(), r.Uint64()))
		go func() {
			defer wg.Done()
			vec := func() []float32 {
				d := dim
				if mixed {
					d = []int{dim, 0, 1, dim + 1, 3 * dim, dim / 2}[gr.IntN(6)]
				}
				return lib.GenVec(gr, d, gr.IntN(4))
			}
			for s := 0; s < per; s++ {
				if g == 0 && s == closeAt {
					dt.Close()
					kinds[15].Add(1)
				}
				k := gr.IntN(15)
				kinds[k].Add(1)
				switch k {
				case 0, 1, 2, 3:
					var ic *pb.InsertConfig
					if gr.IntN(2) == 0 {
						ic = &pb.InsertConfig{TTL: uint64(gr.IntN(3)), Count: uint64(gr.IntN(2))}
					}
					dt.Insert(lib.Datum(vec(), fmt.Sprint("g", gr.IntN(3)), fmt.Sprintf(`{"a":%d}`, s), uint64(gr.IntN(4))), ic)
				case 4:
					dt.Delete(lib.Datum(vec(), fmt.Sprint("g", gr.IntN(3)), "", 0))
				case 5, 6, 7:
					sc := &pb.SearchConfig{ScoreFuncName: funcs[gr.IntN(len(funcs))], HigherIsBetter: gr.IntN(2) == 0, Limit: uint32(gr.IntN(30)), Timeout: 20000}
					if gr.IntN(3) == 0 {
						sc.Filters = []string{"a"}
					}
					q := lib.Datum(vec(), "q", "", 0)
					for _, x := range dt.Search(q, sc, nil).List {
						touch(x.Datum)
					}
					for _, x := range dt.SearchAnnoy(q, sc).List {
						touch(x.Datum)
					}
				case 8, 9:
					sc := &pb.SearchConfig{ScoreFuncName: funcs[gr.IntN(len(funcs))], HigherIsBetter: gr.IntN(2) == 0, Limit: uint32(1 + gr.IntN(30)), Timeout: uint64([]int{0, 1, 20000}[gr.IntN(3)]), CacheDuration: uint64(gr.IntN(2)), GroupLimit: uint32(gr.IntN(2)), Uuid: fmt.Sprint("u", s)}
					qs := []*pb.Datum{}
					for i := 0; i <= gr.IntN(3); i++ {
						qs = append(qs, lib.Datum(vec(), "q", "", 0))
					}
					var ctx *pb.SearchContext
					if gr.IntN(4) == 0 {
						ctx = &pb.SearchContext{Datum: []*pb.Datum{lib.Datum(vec(), "q", "", 0)}}
					}
					res, _ := dt.MultiAggregatedSearch(qs, sc, ctx)
					for _, x := range res {
						touch(x.Datum)
						sum.Add(uint64(int64(x.Score)))
					}
				case 10:
					ch := make(chan *pb.Datum, gr.IntN(5))
					go func() { dt.StreamAll(ch); close(ch) }()
					for d := range ch {
						touch(d)
					}
				case 11:
					i := dt.GetDataInfo()
					for _, x := range i.Avg {
						sum.Add(uint64(int64(x)))
					}
					for _, x := range i.Hist {
						sum.Add(uint64(int64(x)))
					}
					dt.CheckIfActive()
					dt.GetID()
				case 12:
					dt.Process(true)
				case 13:
					ds.CreateIfNotExists(&pb.DataConfig{Name: name, Version: version.Add(1), NoTarget: true, TargetN: uint64(gr.IntN(500)), TargetUtilization: 0.5})
					if x := dt.GetConfig(); x != nil {
						sum.Add(x.Version + x.TargetN)
					}
				case 14:
					if gr.IntN(2) == 0 {
						dt.AddSource(&lib.Source{ID: fmt.Sprint("s", gr.IntN(4))})
					} else {
						go dt.Run()
					}
				}
				ops.Add(1)
				rep.Count("operations", 1)
			}
		}()
	}
	wg.Wait()
	if got := ops.Load(); got != int64(clients*per) {
		rep.Violate("round %d: %d of %d operations completed", c, got, clients*per)
	}
	dt.Close()
	other.Close()
	k := ""
	for i := range kinds {
		k += fmt.Sprint(kinds[i].Load(), ",")
	}
	rep.Case(fmt.Sprint(c, clients, mixed, hasSource, closeAt, k))
	rep.Sample(fmt.Sprintf("round %d: %d clients, mixed dimensions %v, close at step %d, operations by kind %s", c, clients, mixed, closeAt, k))
}
