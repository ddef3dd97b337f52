package c30

import (
	"fmt"
	"math"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/lib"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

// link is a connection to another member; what passes through it is copied.
type link struct {
	*data.Data
	id   string
	sent *int
	down *bool
}

func (l *link) GetID() string { return l.id }
func (l *link) GetDataInfo() *pb.DataInfo {
	if *l.down {
		return nil
	}
	return l.Data.GetDataInfo()
}
func (l *link) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	if *l.down {
		return fmt.Errorf("not reachable")
	}
	time.Sleep(time.Millisecond)
	err := l.Data.Insert(lib.Clone(d), &pb.InsertConfig{TTL: c.GetTTL(), Count: c.GetCount()})
	if err == nil {
		*l.sent++
	}
	return err
}

func content(d *data.Data) map[string]*pb.Datum {
	l := d.Search(lib.Datum(nil, "", "", 0), &pb.SearchConfig{Limit: 1 << 20}, nil)
	m := map[string]*pb.Datum{}
	for _, x := range l.List {
		m[lib.DatumID(x.Datum)] = x.Datum
	}
	return m
}

func mean(m map[string]*pb.Datum, dim int) []float64 {
	s := make([]float64, dim)
	for _, d := range m {
		for i, v := range d.Key.Feature {
			s[i] += float64(v) / float64(len(m))
		}
	}
	return s
}

func dist(a, b []float64) float64 {
	s := 0.0
	for i := range a {
		s += (a[i] - b[i]) * (a[i] - b[i])
	}
	return math.Sqrt(s)
}

func TestSpread(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "spreading")
	lib.Bubble(t, rep, func() {
		for c := 0; c < rep.N(50, 120); c++ {
			spread(rep, c)
		}
	})
}

func spread(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("spread", c))
	nm := 2 + r.IntN(3)
	n := 40 + r.IntN([]int{30, 200, 700}[r.IntN(3)])
	if c%16 == 9 { // more members than one of them asks at a time
		nm, n = 8+r.IntN(4), 40+r.IntN(160)
	}
	dim := 1 + r.IntN(5)
	noTarget := r.IntN(2) == 0
	util := []float64{0, 0.1, 0.4, 0.9}[r.IntN(4)]
	scale := []float32{0.01, 1, 1, 100, 10000}[r.IntN(5)]
	desc := fmt.Sprintf("case %d: %d members, %d entries of %d dimensions and scale %v, no target %v, utilization %v", c, nm, n, dim, scale, noTarget, util)
	var ms []*data.Data
	for m := 0; m < nm; m++ {
		ms = append(ms, lib.NewData(fmt.Sprint("m", c, "-", m), func(x *pb.DataConfig) {
			x.TargetN, x.TargetUtilization, x.NoTarget = uint64(8*n), util, noTarget
		}))
		time.Sleep(time.Duration(r.IntN(20000)) * time.Millisecond)
	}
	sent := make([]int, nm)
	down := make([]bool, nm)
	know := func() { // as the periodic synchronization does
		for a := range ms {
			for b := range ms {
				if a != b {
					ms[a].AddSource(&link{Data: ms[b], id: fmt.Sprint("m", b), sent: &sent[b], down: &down[b]})
				}
			}
		}
	}
	know()
	all := map[string]*pb.Datum{}
	fill := func(m int, tag string, shift float32) {
		ttl := r.IntN(3)
		for i := 0; i < n; i++ {
			v := lib.GenVec(r, dim, 1)
			for j := range v {
				v[j] = (v[j] + shift) * scale
			}
			d := lib.Datum(v, "", fmt.Sprint(tag, i), uint64(i))
			var cfg *pb.InsertConfig
			if ttl == 0 || (ttl == 1 && i%2 == 0) {
				cfg = &pb.InsertConfig{TTL: 1000000}
			}
			if err := ms[m].Insert(lib.Clone(d), cfg); err != nil {
				rep.Violate("%s: insert: %v", desc, err)
			}
			all[lib.DatumID(d)] = d
		}
	}
	wait := func(d time.Duration) {
		for end := time.Now().Add(d); time.Now().Before(end); {
			time.Sleep(60 * time.Second)
			know()
		}
		time.Sleep(time.Duration(r.IntN(60)) * time.Second)
		synctest.Wait()
	}
	check := func(phase string) bool {
		full := mean(all, dim)
		maxd := 0.0
		for _, d := range all {
			maxd = math.Max(maxd, dist(full, vec(d)))
		}
		held := map[string]bool{}
		line := ""
		bad := ""
		for m := range ms {
			x := content(ms[m])
			for k := range x {
				held[k] = true
			}
			off := dist(mean(x, dim), full)
			line += fmt.Sprintf(" %d entries, centre off by %.3f of the radius;", len(x), off/maxd)
			if len(x) < len(all)/8 {
				bad = fmt.Sprintf("member %d holds only %d of %d entries", m, len(x), len(all))
			} else if off > 0.4*maxd {
				bad = fmt.Sprintf("the centre of member %d is off by %.2f of the radius", m, off/maxd)
			}
		}
		if len(held) != len(all) {
			bad = fmt.Sprintf("the members hold %d of %d entries together", len(held), len(all))
		}
		if bad != "" {
			rep.Violate("%s, %s: %s (%s; entries received %v)", desc, phase, bad, line, sent)
			return false
		}
		for m := range sent {
			rep.Count("entries_received", sent[m])
			sent[m] = 0
		}
		rep.Case(fmt.Sprint(c, phase, line))
		if c < 3 {
			rep.Sample(desc + ", " + phase + ":" + line)
		}
		return true
	}
	first := r.IntN(nm)
	late := -1
	if nm > 2 && r.IntN(2) == 0 { // one member cannot be reached for the first hours
		late = (first + 1) % nm
	}
	if late >= 0 {
		down[late] = true
		fill(first, "a", 0)
		wait(time.Duration(60+r.IntN(120)) * time.Minute)
		down[late] = false
	} else {
		fill(first, "a", 0)
	}
	wait(90 * time.Minute)
	ok := check("first content")
	if ok && r.IntN(2) == 0 { // content that looks different arrives somewhere
		fill(r.IntN(nm), "b", 6)
		wait(150 * time.Minute)
		ok = check("second content")
	}
	for i := range down {
		down[i] = true
	}
	time.Sleep(700 * time.Second)
	for _, m := range ms {
		m.Close()
	}
	time.Sleep(3 * time.Second)
}

func vec(d *pb.Datum) []float64 {
	f := make([]float64, len(d.Key.Feature))
	for i, v := range d.Key.Feature {
		f[i] = float64(v)
	}
	return f
}
