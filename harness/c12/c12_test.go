package c12

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/lib"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/protobuf/proto"
)

var names = []string{"a", "A", "b", "", "a/b", "a%2Fb", ".", "..", "a ", "ä", "a\x00", "%", "%2E", "../a", strings.Repeat("n", 300), "veriş", "a,b", "\n"}

func labels(dt *data.Data) []string {
	var l []string
	ch := make(chan *pb.Datum, 10)
	go func() { dt.StreamAll(ch); close(ch) }()
	for d := range ch {
		l = append(l, string(d.Value.Label))
	}
	sort.Strings(l)
	return l
}

type entry struct {
	cfg    *pb.DataConfig
	labels []string
}

func TestModel(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "registry")
	lib.Bubble(t, rep, func() {
		for c := 0; c < rep.N(250, 700); c++ {
			one(rep, c)
		}
		many(rep)
	})
}

// many: the registry has no upper bound on the number of data sets.
func many(rep *lib.Rep) {
	ds := data.NewDataset(lib.TempDir("ds"))
	k := rep.N(700, 3000)
	for i := 0; i < k; i++ {
		name := fmt.Sprint("set", i)
		if err := ds.CreateIfNotExists(&pb.DataConfig{Name: name, Version: uint64(1 + i%3), NoTarget: true}); err != nil {
			rep.Violate("creation of data set %d: %v", i, err)
			return
		}
		synctest.Wait()
		dt, err := ds.GetNoCreate(name)
		if err != nil || dt.GetConfig().Version != uint64(1+i%3) {
			rep.Violate("data set %d was created and is not there: %v", i, err)
			return
		}
	}
	if l := ds.DataConfigList(); len(l) != k {
		rep.Violate("%d of %d data sets are listed", len(l), k)
	}
	for i := 0; i < k; i++ {
		if i%3 == 0 {
			if err := ds.Delete(fmt.Sprint("set", i)); err != nil {
				rep.Violate("deletion of data set %d: %v", i, err)
			}
		}
	}
	for i := 0; i < k; i++ {
		if _, err := ds.GetNoCreate(fmt.Sprint("set", i)); (err != nil) != (i%3 == 0) {
			rep.Violate("data set %d of %d, deleted %v: %v", i, k, i%3 == 0, err)
			return
		}
	}
	rep.Case(fmt.Sprint("many", k))
	rep.Count("data_sets_at_once", k)
}

func sameCfg(a, b *pb.DataConfig) bool { return proto.Equal(a, b) }

func one(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("case", c))
	ds := data.NewDataset(lib.TempDir("ds"))
	use := []string{}
	for _, i := range r.Perm(len(names))[:2+r.IntN(4)] {
		use = append(use, names[i])
	}
	model := map[string]*entry{}
	hist := ""
	serial := 0
	base := uint64(0)
	if r.IntN(3) == 0 {
		base = []uint64{1 << 32, 1 << 53, 1<<63 - 3, 1<<64 - 7}[r.IntN(4)]
	}
	sinks := map[string]*atomic.Bool{}
	fail := func(format string, a ...any) {
		rep.Violate("case %d: %s; history %s", c, fmt.Sprintf(format, a...), hist)
	}
	check := func(name string, dt *data.Data) bool {
		m := model[name]
		if got := dt.GetConfig(); !sameCfg(got, m.cfg) {
			fail("%q has configuration %v instead of %v", name, got, m.cfg)
			return false
		}
		if i := dt.GetDataInfo(); i.Version != m.cfg.Version || i.Name != name {
			fail("%q reports name %q version %d", name, i.Name, i.Version)
			return false
		}
		want := append([]string{}, m.labels...)
		sort.Strings(want)
		if got := labels(dt); fmt.Sprint(got) != fmt.Sprint(want) {
			fail("%q holds %q instead of %q", name, got, want)
			return false
		}
		return true
	}
	for s := 0; s < 40; s++ {
		name := use[r.IntN(len(use))]
		switch x := r.IntN(12); x {
		case 0, 1, 2, 3:
			cfg := &pb.DataConfig{Name: name, Version: []uint64{0, base}[r.IntN(2)] + uint64(r.IntN(6)), TargetN: []uint64{0, 1000 + r.Uint64N(1000), 1000 + r.Uint64N(1000)}[r.IntN(3)], NoTarget: r.IntN(2) == 0, TargetUtilization: float64(r.IntN(10)) / 10, Retention: uint64(r.IntN(3) * 1000000), ReplicationOnInsert: uint32(r.IntN(2)), EnforceReplicationOnInsert: r.IntN(2) == 0}
			keep := proto.Clone(cfg).(*pb.DataConfig)
			hist += fmt.Sprintf("create(%q,v%d) ", name, cfg.Version)
			if m := model[name]; m == nil {
				model[name] = &entry{cfg: keep}
			} else if cfg.Version > m.cfg.Version {
				m.cfg = keep
			}
			if x < 2 {
				dt, err := ds.GetOrCreateIfNotExists(cfg)
				if err != nil {
					fail("create %q: %v", name, err)
					return
				}
				if !check(name, dt) {
					return
				}
			} else if err := ds.CreateIfNotExists(cfg); err != nil {
				fail("create %q: %v", name, err)
				return
			}
		case 4, 5:
			hist += fmt.Sprintf("get(%q) ", name)
			dt, err := ds.Get(name)
			if err != nil {
				fail("get %q: %v", name, err)
				return
			}
			if model[name] == nil {
				cfg := dt.GetConfig()
				if cfg.GetName() != name || cfg.GetVersion() != 0 {
					fail("new %q has configuration %v", name, cfg)
					return
				}
				model[name] = &entry{cfg: proto.Clone(cfg).(*pb.DataConfig)}
			}
			if !check(name, dt) {
				return
			}
		case 6, 7, 8:
			dt, err := ds.GetNoCreate(name)
			if (err == nil) != (model[name] != nil) {
				fail("lookup of %q: %v, should exist: %v", name, err, model[name] != nil)
				return
			}
			if err == nil {
				if !check(name, dt) {
					return
				}
				if r.IntN(6) == 0 { // a member that takes nothing until this data set is deleted
					if sinks[name] == nil {
						sinks[name] = &atomic.Bool{}
					}
					open := sinks[name]
					dt.AddSource(&lib.Source{ID: fmt.Sprint("m", r.IntN(3)), OnInsert: func(*pb.Datum, *pb.InsertConfig) error {
						if open.Load() {
							return nil
						}
						return errors.New("Node is in drain mode")
					}})
					hist += fmt.Sprintf("member(%q) ", name)
				}
				serial++
				l := fmt.Sprintf("%q-%d", name, serial)
				if err := dt.Insert(lib.Datum([]float32{float32(serial)}, "g", l, 1), nil); err == nil {
					model[name].labels = append(model[name].labels, l)
				} else if cfg := model[name].cfg; cfg.NoTarget || cfg.TargetN > 0 {
					fail("insert into %q: %v", name, err)
					return
				}
			}
		case 9:
			hist += fmt.Sprintf("delete(%q) ", name)
			if sinks[name] != nil {
				sinks[name].Store(true)
				delete(sinks, name)
			}
			err := ds.Delete(name)
			if (err == nil) != (model[name] != nil) {
				fail("delete of %q: %v, exists: %v", name, err, model[name] != nil)
				return
			}
			delete(model, name)
		case 10:
			hist += "save "
			ds.SaveIndex()
		case 11:
			d := time.Duration(r.IntN(100)) * time.Second
			time.Sleep(d)
			hist += fmt.Sprint("~", d, " ")
		}
		synctest.Wait() // background saves
		want := []string{}
		for n := range model {
			want = append(want, n)
		}
		sort.Strings(want)
		got := ds.List()
		sort.Strings(got)
		var cfgs []string
		for _, x := range ds.DataConfigList() {
			cfgs = append(cfgs, x.Name)
			if m := model[x.Name]; m != nil && !sameCfg(m.cfg, x) {
				fail("listing shows %v instead of %v", x, m.cfg)
				return
			}
		}
		sort.Strings(cfgs)
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) || fmt.Sprintf("%q", append([]string{}, cfgs...)) != fmt.Sprintf("%q", want) {
			fail("listings show %q and %q instead of %q", got, cfgs, want)
			return
		}
		rep.Count("steps", 1)
	}
	for name := range model {
		dt, err := ds.GetNoCreate(name)
		if err != nil {
			fail("%q: %v", name, err)
			return
		}
		if !check(name, dt) {
			return
		}
	}
	for name := range model {
		if sinks[name] != nil {
			sinks[name].Store(true)
		}
		ds.Delete(name)
	}
	rep.Case(hist)
	rep.Sample(fmt.Sprintf("%.300s", hist))
}

// TestConcurrent: creations, updates, deletes and listings at once.
func TestConcurrent(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "concurrent registry")
	n := rep.N(900, 9000)
	if rep.Stage == "race" {
		n = rep.N(250, 2500)
	}
	for c := 0; c < n; c++ {
		if c%2 == 0 {
			creators(rep, c)
		} else {
			deleters(rep, c)
		}
	}
	rep.Done()
}

func creators(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("creators", c))
	ds := data.NewDataset(lib.TempDir("ds"))
	use := []string{"x", "y"}[:1+r.IntN(2)]
	gs := 3 + r.IntN(5)
	var wg, bg sync.WaitGroup
	var mu sync.Mutex
	acked := map[string][]string{}
	maxV := map[string]uint64{}
	var stop atomic.Bool
	for _, name := range use { // versions never go back
		bg.Add(1)
		go func() {
			defer bg.Done()
			last := uint64(0)
			for !stop.Load() {
				if dt, err := ds.GetNoCreate(name); err == nil {
					v := dt.GetDataInfo().Version
					if v < last {
						rep.Violate("round %d: version of %q went from %d to %d", c, name, last, v)
						return
					}
					last = v
				}
				for _, x := range ds.DataConfigList() {
					if x.Name == name {
						if x.Version < last {
							rep.Violate("round %d: listed version of %q went from %d to %d", c, name, last, x.Version)
							return
						}
						last = x.Version
					}
				}
				rep.Count("version_observations", 1)
			}
		}()
	}
	var gate sync.WaitGroup
	gate.Add(gs)
	for g := 0; g < gs; g++ {
		wg.Add(1)
		gr := rand.New(rand.NewPCG(r.Uint64(), r.Uint64()))
		go func() {
			defer wg.Done()
			gate.Done()
			gate.Wait()
			for s := 0; s < 6; s++ {
				name := use[gr.IntN(len(use))]
				var dt *data.Data
				var err error
				v := uint64(gr.IntN(1000))
				if gr.IntN(3) == 0 {
					dt, err = ds.Get(name)
					v = 0
				} else {
					dt, err = ds.GetOrCreateIfNotExists(&pb.DataConfig{Name: name, Version: v, NoTarget: true})
				}
				if err != nil {
					rep.Violate("round %d: create %q: %v", c, name, err)
					return
				}
				l := fmt.Sprint(g, "-", s)
				if err := dt.Insert(lib.Datum([]float32{float32(g), float32(s)}, "g", l, 1), &pb.InsertConfig{Count: 1}); err == nil {
					mu.Lock()
					acked[name] = append(acked[name], l)
					mu.Unlock()
				} else {
					rep.Violate("round %d: insert into %q: %v", c, name, err)
				}
				mu.Lock()
				if v > maxV[name] {
					maxV[name] = v
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	stop.Store(true)
	bg.Wait()
	for _, name := range use {
		if len(acked[name]) == 0 {
			continue
		}
		dt, err := ds.GetNoCreate(name)
		if err != nil {
			rep.Violate("round %d: %q is gone: %v", c, name, err)
			continue
		}
		want := acked[name]
		sort.Strings(want)
		if got := labels(dt); fmt.Sprint(got) != fmt.Sprint(want) {
			rep.Violate("round %d: %q holds %v, but inserts through the handles returned for it were acknowledged for %v", c, name, got, want)
		}
		if got := dt.GetConfig().Version; got != maxV[name] {
			rep.Violate("round %d: %q has version %d after creations up to version %d", c, name, got, maxV[name])
		}
	}
	for _, name := range use {
		ds.Delete(name)
	}
	rep.Case(fmt.Sprint("creators", c, gs, acked, maxV))
	rep.Sample(fmt.Sprintf("round %d: %d creators of %v, final versions %v", c, gs, use, maxV))
}

func deleters(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("deleters", c))
	ds := data.NewDataset(lib.TempDir("ds"))
	n := 3 + r.IntN(10)
	keep := map[string]bool{}
	for i := 0; i < n; i++ {
		ds.CreateIfNotExists(&pb.DataConfig{Name: fmt.Sprint("d", i), NoTarget: true})
		if r.IntN(3) == 0 {
			keep[fmt.Sprint("d", i)] = true
		}
	}
	var wg, bg sync.WaitGroup
	var stop atomic.Bool
	for g := 0; g < 1+r.IntN(3); g++ {
		bg.Add(1)
		go func() {
			defer bg.Done()
			for !stop.Load() {
				switch g {
				case 0:
					ds.DataConfigList()
				case 1:
					ds.SaveIndex()
				case 2:
					ds.List()
					for name := range keep {
						ds.Get(name)
					}
				}
			}
		}()
	}
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := g; i < n; i += 2 {
				if name := fmt.Sprint("d", i); !keep[name] {
					if err := ds.Delete(name); err != nil {
						rep.Violate("round %d: delete %s: %v", c, name, err)
					}
				}
			}
		}()
	}
	wg.Wait()
	stop.Store(true)
	bg.Wait()
	got := map[string]bool{}
	for _, x := range ds.List() {
		got[x] = true
	}
	for i := 0; i < n; i++ {
		name := fmt.Sprint("d", i)
		if got[name] != keep[name] {
			rep.Violate("round %d: data set %s exists: %v, deleted: %v, while listing and saving", c, name, got[name], !keep[name])
		}
	}
	for name := range keep {
		ds.Delete(name)
	}
	rep.Case(fmt.Sprint("deleters", c, n, len(keep)))
}
