package c05

import (
	"fmt"
	"math"
	"math/rand/v2"
	"sync"
	"testing"
	"time"

	"verif/harness/lib"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

// ver is one version a key may currently have. Expiry has a resolution of one second.
type ver struct {
	val string
	at  time.Time
	ttl uint64 // 0: never
}

func (v ver) exp() time.Time {
	if v.ttl == 0 || v.ttl > 200*365*24*3600 {
		return time.Time{}
	}
	return v.at.Add(time.Duration(v.ttl) * time.Second)
}

// surely live, surely expired
func (v ver) live(now time.Time) bool {
	return v.exp().IsZero() || !now.After(v.exp().Add(-time.Second))
}
func (v ver) dead(now time.Time) bool {
	return !v.exp().IsZero() && !now.Before(v.exp().Add(time.Second))
}

func TestModel(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "time-to-live")
	lib.Bubble(t, rep, func() {
		if rep.Stage == "long" {
			for c := 0; c < rep.N(2, 10); c++ {
				one(rep, c, true)
			}
			return
		}
		for c := 0; c < rep.N(260, 600); c++ {
			one(rep, c, false)
		}
	})
}

func readAll(dt *data.Data, how int) map[string]string {
	got := map[string]string{}
	q := lib.Datum([]float32{1, 2}, "q", "", 0)
	cfg := &pb.SearchConfig{ScoreFuncName: "VectorDistance", Limit: 1000, Timeout: 1000}
	add := func(d *pb.Datum) { got[string(d.Key.GroupLabel)] = lib.ValID(d.Value) }
	switch how % 3 {
	case 0:
		for _, x := range dt.Search(q, lib.Config(cfg), nil).List {
			add(x.Datum)
		}
	case 1:
		ch := make(chan *pb.Datum, 10)
		go func() { dt.StreamAll(ch); close(ch) }()
		for d := range ch {
			add(d)
		}
	case 2:
		res, _ := dt.MultiAggregatedSearch([]*pb.Datum{q}, lib.Config(cfg), nil)
		for _, x := range res {
			add(x.Datum)
		}
	}
	return got
}

func pickTTL(r *rand.Rand, long bool) uint64 {
	if r.IntN(4) == 0 {
		return 0
	}
	if r.IntN(6) == 0 {
		return []uint64{1 << 62, math.MaxUint64, math.MaxInt64, 1 << 63, math.MaxInt64 - 10, 1 << 40, 1 << 33, 1 << 32, 1<<32 + 5, 1 << 31}[r.IntN(10)]
	}
	if long {
		return uint64(1 + r.IntN(10*24*3600))
	}
	return uint64([]int{1, 2, 3, 5, 9, 10, 11, 12, 20, 30, 60, 61, 120, 300, 601}[r.IntN(15)])
}

func one(rep *lib.Rep, c int, long bool) {
	r := rep.Rng(fmt.Sprint("case", c, long))
	dt := lib.NewData(fmt.Sprint("t", c), nil)
	defer dt.Close()
	state := map[string][]ver{} // key -> versions it may have; absent key: surely not there
	nk := 1 + r.IntN(6)
	steps := 20 + r.IntN(40)
	reads := 0
	hist := ""
	var seenLive, seenDead int
	for s := 0; s < steps; s++ {
		switch x := r.IntN(12); {
		case x < 4:
			k := fmt.Sprint("k", r.IntN(nk))
			v := uint64(r.IntN(3))
			if r.IntN(3) == 0 {
				v = uint64(1000 + s)
			}
			ttl := pickTTL(r, long)
			if cur := state[k]; len(cur) > 0 && r.IntN(3) == 0 { // same value and lifetime again, the usual refresh
				ttl = cur[len(cur)-1].ttl
			}
			d := lib.Datum([]float32{1, float32(len(k))}, k, fmt.Sprint("v", v), v)
			if cur := state[k]; len(cur) > 0 && r.IntN(2) == 0 {
				fmt.Sscanf(cur[len(cur)-1].val, "%d|", &v)
				d.Value.Version, d.Value.Label = v, []byte(fmt.Sprint("v", v))
			}
			var cfg *pb.InsertConfig
			if ttl != 0 || r.IntN(2) == 0 {
				cfg = &pb.InsertConfig{TTL: ttl}
			}
			nv := ver{lib.ValID(d.Value), time.Now(), ttl}
			if err := dt.Insert(lib.Clone(d), cfg); err != nil {
				rep.Violate("case %d: insert failed: %v", c, err)
			}
			hist += fmt.Sprintf("%s+%d/%d ", k, v, ttl)
			next := []ver{nv}
			for _, o := range state[k] {
				if o.val != nv.val || o.dead(time.Now()) {
					continue
				}
				a, b := o.exp(), nv.exp()
				same := a.IsZero() && b.IsZero()
				if !a.IsZero() && !b.IsZero() {
					diff := a.Sub(b)
					same = diff < 11*time.Second && diff > -11*time.Second
				}
				if same { // may be ignored
					next = append(next, o)
				}
			}
			state[k] = next
		case x == 4:
			k := fmt.Sprint("k", r.IntN(nk))
			dt.Delete(lib.Datum([]float32{1, float32(len(k))}, k, "", 0))
			delete(state, k)
			hist += k + "- "
		case x == 5:
			dt.Process(true)
			hist += "p "
		case x < 9:
			d := time.Duration(r.IntN(3000)) * time.Millisecond
			if r.IntN(3) == 0 {
				d = time.Duration(r.IntN(40000)) * time.Millisecond
			}
			if r.IntN(12) == 0 {
				d = time.Duration(r.IntN(700)) * time.Second
			}
			if long {
				d = time.Duration(r.IntN(30)) * time.Hour
			}
			time.Sleep(d)
			hist += fmt.Sprintf("~%v ", d)
		default: // go close to some expiry, then read
			var exps []time.Time
			for i := 0; i < nk; i++ {
				for _, v := range state[fmt.Sprint("k", i)] {
					if e := v.exp(); e.After(time.Now()) && (long && e.Sub(time.Now()) < 100*time.Hour || e.Sub(time.Now()) < 20*time.Minute) {
						exps = append(exps, e)
					}
				}
			}
			if len(exps) > 0 && r.IntN(2) == 0 {
				e := exps[r.IntN(len(exps))].Add(time.Duration([]int{-1000, 1000, -1001, 1001, -3000, 3000}[r.IntN(6)]) * time.Millisecond)
				if d := time.Until(e); d > 0 {
					time.Sleep(d)
				}
			}
		}
		how := r.IntN(3)
		got := readAll(dt, how)
		now := time.Now()
		reads++
		for k, v := range got {
			ok := false
			for _, o := range state[k] {
				if o.val == v && !o.dead(now) {
					ok = true
				}
			}
			if !ok {
				rep.Violate("case %d step %d: read kind %d returned %s=%s, allowed %v at %v; history %.1500s", c, s, how, k, v, state[k], now, hist)
			} else {
				seenLive++
			}
		}
		for k, vs := range state {
			if _, there := got[k]; there || len(vs) == 0 {
				continue
			}
			allLive := true
			for _, o := range vs {
				if !o.live(now) {
					allLive = false
				}
			}
			if allLive {
				rep.Violate("case %d step %d: read kind %d misses %s which is live: %v at %v; history %.1500s", c, s, how, k, vs, now, hist)
			} else {
				seenDead++
			}
		}
		if rep.Violations() > 0 {
			return
		}
	}
	sig := ""
	if seenLive > 0 && seenDead > 0 {
		sig = hist
		rep.Sample(fmt.Sprintf("%.300s", hist))
	}
	rep.Case(sig)
	rep.Count("reads", reads)
	rep.Count("live_observations", seenLive)
	rep.Count("expired_observations", seenDead)
}

// TestRevive re-inserts entries that have just expired while scans remove them. Virtual time stands still
// while the goroutines run, so every entry is certainly expired and every re-insert certainly newer.
func TestRevive(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "re-insert of expired entries")
	lib.Bubble(t, rep, func() {
		n := rep.N(700, 8000)
		if rep.Stage == "revive-race" {
			n = rep.N(100, 1500)
		}
		for c := 0; c < n; c++ {
			r := rep.Rng(fmt.Sprint("revive", c))
			dt := lib.NewData(fmt.Sprint("r", c), nil)
			nk := 1 + r.IntN(60)
			same := r.IntN(2) == 0 // re-insert the very same value
			for i := 0; i < nk; i++ {
				dt.Insert(lib.Datum([]float32{1, float32(i)}, fmt.Sprint("k", i), "v0", 0), &pb.InsertConfig{TTL: uint64(1 + r.IntN(3))})
			}
			time.Sleep(4*time.Second + time.Duration(r.IntN(900))*time.Millisecond)
			var wg sync.WaitGroup
			scanners := 1 + r.IntN(4)
			perm := r.Perm(nk)
			ttl := uint64([]int{0, 3, 30}[r.IntN(3)])
			for g := 0; g < scanners; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 6; k++ {
						readAll(dt, g+k)
						if k == 3 {
							dt.Process(true)
						}
					}
				}()
			}
			writers := 1 + r.IntN(3)
			for w := 0; w < writers; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j, i := range perm {
						if j%writers != w {
							continue
						}
						d := lib.Datum([]float32{1, float32(i)}, fmt.Sprint("k", i), "v0", 0)
						if !same {
							d.Value.Version, d.Value.Label = 1, []byte("v1")
						}
						if err := dt.Insert(d, &pb.InsertConfig{TTL: ttl}); err != nil {
							rep.Violate("round %d: insert failed: %v", c, err)
						}
					}
				}()
			}
			wg.Wait()
			want := "1|7631"
			if same {
				want = "0|7630"
			}
			for m := 0; m < 3; m++ {
				if m == 2 {
					time.Sleep(time.Second)
				}
				got := readAll(dt, m)
				for i := 0; i < nk; i++ {
					if got[fmt.Sprint("k", i)] != want {
						rep.Violate("round %d: entry k%d was re-inserted with time-to-live %d after its expiry, but reads show %q instead of %q (%d entries, %d scanners, %d writers)", c, i, ttl, got[fmt.Sprint("k", i)], want, nk, scanners, writers)
						break
					}
				}
			}
			rep.Case(fmt.Sprint(c, nk, same, scanners, writers, ttl))
			rep.Count("revived_entries", nk)
			dt.Close()
			time.Sleep(2 * time.Second)
		}
	})
}
