package c09

import (
	"fmt"
	"math"
	"sync"
	"testing"
	"time"

	"verif/harness/lib"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/protobuf/proto"
)

func entries(dt *data.Data) []*pb.Datum {
	var l []*pb.Datum
	ch := make(chan *pb.Datum, 10)
	go func() { dt.StreamAll(ch); close(ch) }()
	for d := range ch {
		l = append(l, d)
	}
	return l
}

func TestStats(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "statistics")
	lib.Bubble(t, rep, func() {
		for c := 0; c < rep.N(250, 800); c++ {
			one(rep, c)
		}
	})
}

func one(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("case", c))
	ds := data.NewDataset(lib.TempDir("ds"))
	name := fmt.Sprint("stats", c)
	cfg := &pb.DataConfig{Name: name, Version: uint64(r.IntN(5)), TargetN: uint64(r.IntN(3000)), TargetUtilization: r.Float64(), NoTarget: true, EnforceReplicationOnInsert: false}
	if r.IntN(4) == 0 {
		cfg.NoTarget, cfg.TargetN = false, 100000
	}
	dt, err := ds.GetOrCreateIfNotExists(cfg)
	if err != nil {
		rep.Violate("create: %v", err)
		return
	}
	var held, heldCopy []*pb.DataInfo // what was reported stays as it was reported
	identity := func() {
		i := dt.GetDataInfo()
		held, heldCopy = append(held, i), append(heldCopy, proto.Clone(i).(*pb.DataInfo))
		if i.Name != cfg.Name || i.Version != cfg.Version || i.TargetN != cfg.TargetN || i.TargetUtilization != cfg.TargetUtilization || i.NoTarget != cfg.NoTarget {
			rep.Violate("case %d: info %v of configuration %v", c, i, cfg)
		}
	}
	dim := 1 + r.IntN(20)
	flavour := r.IntN(4)
	scale := float32([]float64{1, 1, 1, 1e-3, 1e4}[r.IntN(5)])
	offset := float32([]float64{0, 0, 5, 100}[r.IntN(4)])
	ins := func(i int, ttl uint64, rr func() []float32) {
		d := lib.Datum(rr(), fmt.Sprint("g", i), fmt.Sprint(i), uint64(i))
		if err := dt.Insert(d, &pb.InsertConfig{TTL: ttl}); err != nil {
			rep.Violate("case %d: insert: %v", c, err)
		}
	}
	mixed := r.IntN(4) == 0
	vec := func() []float32 {
		d := dim
		if mixed && r.IntN(2) == 0 {
			d = r.IntN(dim + 1)
		}
		v := lib.GenVec(r, d, flavour)
		for i := range v {
			v[i] = v[i]*scale + offset*scale
		}
		return v
	}
	steps := 1 + r.IntN(5)
	total := 0
	for s := 0; s < steps; s++ {
		n := []int{0, 1, 2, 3, 10, 40, 100}[r.IntN(7)]
		if c%30 == 0 && s == 0 {
			n = []int{1500, 1500, 5000, 9000}[c/30%4]
		}
		for i := 0; i < n; i++ {
			ttl := uint64(0)
			if r.IntN(4) == 0 {
				ttl = uint64(5 + r.IntN(100))
			}
			ins(total, ttl, vec)
			total++
		}
		switch r.IntN(5) {
		case 0:
			dt.Process(true)
		case 1:
			time.Sleep(time.Duration(r.IntN(100)) * time.Second)
		case 2: // refreshes, inserts and listings at once
			var wg sync.WaitGroup
			for g := 0; g < 2; g++ {
				wg.Add(1)
				go func() { defer wg.Done(); dt.Process(true); dt.Process(true) }()
			}
			for k := 0; k < 10; k++ {
				ins(total, 0, vec)
				total++
			}
			wg.Wait()
		case 3:
			for k, d := range entries(dt) {
				if k%3 == 0 {
					dt.Delete(lib.Clone(d))
				}
			}
			dt.Process(true)
		case 4: // update of the configuration
			n := &pb.DataConfig{Name: name, Version: cfg.Version + 1, TargetN: 5000 + uint64(s), TargetUtilization: 0.3, NoTarget: true}
			ds.CreateIfNotExists(n)
			cfg = n
		}
		identity()
	}
	if r.IntN(8) == 0 {
		for _, d := range entries(dt) {
			dt.Delete(lib.Clone(d))
		}
	}
	time.Sleep(110 * time.Second) // everything with a time-to-live expires
	if r.IntN(5) < 2 {            // leave it to the background refresh
		time.Sleep(55 * time.Minute)
		rep.Count("background_refreshed", 1)
	} else {
		for k := 0; k < 5; k++ {
			dt.Process(true)
			identity()
		}
	}
	for k := range held {
		if !proto.Equal(held[k], heldCopy[k]) {
			rep.Violate("case %d: a report changed after it was returned: %v, was %v", c, held[k], heldCopy[k])
			return
		}
	}
	l := entries(dt)
	i := dt.GetDataInfo()
	desc := fmt.Sprintf("case %d: %d live entries, dimension %d", c, len(l), dim)
	if i.N != uint64(len(l)) {
		rep.Violate("%s: reported size %d", desc, i.N)
		return
	}
	if len(l) == 0 {
		rep.Case("")
		dt.Close()
		return
	}
	dim = 0 // of what is left
	for _, d := range l {
		dim = max(dim, len(d.Key.Feature))
	}
	if mixed {
		rep.Count("contents_of_mixed_dimension", 1)
	}
	if len(i.Avg) != dim {
		rep.Violate("%s: center has %d components", desc, len(i.Avg))
		return
	}
	nf := float64(len(l))
	mean, mabs := make([]float64, dim), make([]float64, dim)
	for _, d := range l {
		for j, x := range d.Key.Feature {
			mean[j] += float64(x) / nf
			mabs[j] += math.Abs(float64(x)) / nf
		}
	}
	eps := 1.0 / (1 << 23)
	tol2 := 0.0
	for j := range mean {
		tol := (nf+8)*eps*mabs[j]*2 + 1e-35
		tol2 += tol * tol
		if math.Abs(float64(i.Avg[j])-mean[j]) > tol {
			rep.Violate("%s: component %d of the center is %v instead of %v", desc, j, i.Avg[j], mean[j])
			return
		}
	}
	tol := math.Sqrt(tol2)
	dist := make([]float64, len(l))
	maxd := 0.0
	for k, d := range l {
		s := 0.0
		for j, x := range d.Key.Feature {
			s += (float64(x) - float64(i.Avg[j])) * (float64(x) - float64(i.Avg[j]))
		}
		dist[k] = math.Sqrt(s)
		maxd = math.Max(maxd, dist[k])
	}
	dtol := maxd*float64(dim+10)*eps + 1e-18 + 1e-3*tol // the center itself is checked above
	if math.Abs(i.MaxDistance-maxd) > dtol+tol {
		rep.Violate("%s: maximum distance is %v instead of %v", desc, i.MaxDistance, maxd)
		return
	}
	if len(i.Hist) != 64 {
		rep.Violate("%s: histogram has %d bins", desc, len(i.Hist))
		return
	}
	sum := 0.0
	for _, h := range i.Hist {
		sum += float64(h)
	}
	nontrivial := maxd > 100*(dtol+tol)
	if nontrivial {
		if math.Abs(sum-1) > nf*eps*4+1e-5 {
			rep.Violate("%s: histogram has total weight %v", desc, sum)
			return
		}
		lo, hi := make([]float64, 64), make([]float64, 64)
		bin := func(x float64) int { return int(math.Max(0, math.Min(63, math.Floor(x)))) }
		for _, x := range dist {
			a, b := bin((x-dtol-tol)/(maxd+dtol+tol)*64), bin((x+dtol+tol)/(maxd-dtol-tol)*64)
			if a == b {
				lo[a]++
			}
			for k := a; k <= b; k++ {
				hi[k]++
			}
		}
		for k := range lo {
			got := float64(i.Hist[k]) * nf
			if got < lo[k]-0.01-nf*eps*nf || got > hi[k]+0.01+nf*eps*nf {
				rep.Violate("%s: histogram bin %d holds %v of %v entries, expected between %v and %v", desc, k, got, nf, lo[k], hi[k])
				return
			}
		}
		rep.Case(fmt.Sprint(desc, maxd, sum))
		rep.Sample(fmt.Sprintf("%s: maximum distance %v, %d bins used", desc, maxd, used(i.Hist)))
	} else {
		rep.Case("")
	}
	rep.Count("entries_summarized", len(l))
	dt.Close()
}

func used(h []float32) int {
	n := 0
	for _, x := range h {
		if x > 0 {
			n++
		}
	}
	return n
}
