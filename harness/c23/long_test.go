package c23

import (
	"fmt"
	"math/rand/v2"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/lib"

	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	"github.com/bgokden/veri/util"
	pb "github.com/bgokden/veri/veriservice"
)

// held counts goroutines by where they were started, descriptors and temporary files. Garbage collection is off in
// virtual time, so the cleaners of caches, which end with their cache, are left out.
func heldNow() (map[string]int, int, int) {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	m := map[string]int{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "janitor") {
			continue
		}
		at := "main"
		if i := strings.LastIndex(g, "created by "); i >= 0 {
			at = strings.SplitN(g[i+11:], " in ", 2)[0]
			at = strings.SplitN(at, "\n", 2)[0]
		}
		m[at]++
	}
	fds, files := 0, 0
	if l, err := os.ReadDir("/proc/self/fd"); err == nil {
		fds = len(l)
	}
	if l, err := os.ReadDir(os.TempDir()); err == nil {
		files = len(l)
	}
	return m, fds, files
}

type longRun struct {
	name string
	// hour does what happens within about an hour
	hour func(r *rand.Rand, h int)
	// rest lets everything that is in flight end
	rest  time.Duration
	slack int
	hours int
}

func longRuns(rep *lib.Rep) []*longRun {
	closed := make([]string, 8) // nobody listens there
	for i := range closed {
		closed[i] = fmt.Sprintf("127.0.0.1:%d", 2+i)
	}
	cc := util.NewConnectionCache()
	n := node.NewNode(&node.NodeConfig{Port: 1, Folder: lib.TempDir("long"), AdvertisedIds: []string{"127.0.0.1:1"}})
	n.PeriodicTicker.Stop()
	dts := data.NewDataset(lib.TempDir("short"))
	steady := lib.NewData("steady", nil)
	synctest.Wait()
	for i := 0; i < 30; i++ {
		steady.Insert(lib.Datum([]float32{float32(i), 1, 2}, fmt.Sprint("g", i%3), "l", 1), nil)
	}
	uniq := 0
	return []*longRun{
		{name: "connections", hours: 6, slack: 40, rest: 2 * time.Minute, hour: func(r *rand.Rand, h int) {
			for t := time.Duration(0); t < time.Hour; {
				var wg sync.WaitGroup
				for k := 0; k < 1+r.IntN(4); k++ {
					addr := closed[r.IntN(3)]
					hold := time.Duration(r.IntN(2000)) * time.Millisecond
					wg.Add(1)
					go func() {
						defer wg.Done()
						c := cc.Get(addr)
						if c == nil {
							return
						}
						time.Sleep(hold)
						cc.Put(c)
						rep.Count("connections_borrowed", 1)
					}()
				}
				wg.Wait()
				d := time.Duration(1+r.IntN([]int{60, 700, 1400}[r.IntN(3)])) * time.Second
				time.Sleep(d)
				t += d
			}
		}},
		{name: "searches with peers that answer late", hours: 4, slack: 8, rest: 40 * time.Minute, hour: func(r *rand.Rand, h int) {
			for k := 0; k < 20; k++ {
				for s := 0; s < 3; s++ {
					steady.AddSource(&lib.Source{ID: fmt.Sprint("s", s), OnSearch: func(d *pb.Datum, _ *pb.SearchConfig, send func(*pb.ScoredDatum)) {
						time.Sleep(time.Duration(1+s*600) * time.Second)
						for i := 0; i < 150; i++ {
							send(&pb.ScoredDatum{Datum: lib.Datum([]float32{1, float32(i)}, "", "x", 1), Score: 1})
						}
					}})
				}
				steady.MultiAggregatedSearch([]*pb.Datum{lib.Datum([]float32{1, 2, 3}, "", "", 0), lib.Datum([]float32{1, 2, 4}, "", "", 0)},
					&pb.SearchConfig{Limit: 5, Timeout: uint64(100 + r.IntN(2000000)), CacheDuration: uint64(r.IntN(2) * 30)}, nil)
				rep.Count("searches_over_hours", 1)
				time.Sleep(3 * time.Minute)
			}
		}},
		{name: "a node and its peers", hours: 4, slack: 30, rest: 20 * time.Minute, hour: func(r *rand.Rand, h int) {
			for m := 0; m < 60; m++ {
				for i, a := range closed[:5] {
					if (h+i)%3 == 0 {
						continue // away in this hour
					}
					n.AddPeerElement(&pb.Peer{AddressList: []string{a}, Timestamp: uint64(time.Now().Unix()), ServiceList: []string{closed[7]},
						DataList: []*pb.DataConfig{{Name: fmt.Sprint("d", i%2), Version: 1, NoTarget: true}, {Name: "gone", Version: uint64(h), NoTarget: true, Retention: 100}}})
				}
				n.SyncWithPeers()
				n.JoinToPeers()
				n.Dataset.ReloadRuns()
				if m%7 == 0 {
					if d, err := n.Dataset.Get("d0"); err == nil {
						d.Insert(lib.Datum([]float32{float32(m % 5), float32(h % 3)}, "", "x", 1), &pb.InsertConfig{TTL: 400})
					}
				}
				rep.Count("minutes_with_peers", 1)
				time.Sleep(time.Minute)
			}
		}},
		{name: "data sets that are not used any more", hours: 5, slack: 8, rest: 5 * time.Minute, hour: func(r *rand.Rand, h int) {
			for k := 0; k < 12; k++ {
				uniq++
				d, err := dts.GetOrCreateIfNotExists(&pb.DataConfig{Name: fmt.Sprint("u", uniq), NoTarget: true, Retention: uint64(20 + r.IntN(200))})
				if err == nil {
					for i := 0; i < 3; i++ {
						d.Insert(lib.Datum([]float32{float32(i), 1}, "", "x", 1), nil)
					}
					if r.IntN(2) == 0 {
						d.Process(true)
					}
					rep.Count("data_sets_expired", 1)
				}
				time.Sleep(5 * time.Minute)
			}
		}},
	}
}

// TestLong: what a process holds after a warm-up of virtual hours, after one and after two more such periods.
func TestLong(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "resource check over hours")
	os.Stdout, _ = os.OpenFile("/dev/null", os.O_WRONLY, 0)
	lib.Bubble(t, rep, func() {
		for _, w := range longRuns(rep) {
			if o := os.Getenv("C23_ONLY"); o != "" && o != w.name {
				continue
			}
			hours := w.hours * rep.N(1, 4)
			h := 0
			period := func(n int) (map[string]int, int, int) {
				for k := 0; k < n; k++ {
					w.hour(rep.Rng(fmt.Sprint(w.name, h)), h)
					h++
				}
				time.Sleep(w.rest)
				synctest.Wait()
				return heldNow()
			}
			total := func(m map[string]int) (s int) {
				for _, x := range m {
					s += x
				}
				return
			}
			m0, f0, t0 := period(hours)
			m1, f1, t1 := period(hours)
			m2, f2, t2 := period(2 * hours)
			rep.Count("virtual_hours", 4*hours)
			grow := func(what string, a, b, c int) {
				if b > a+w.slack && c > b+w.slack {
					var l []string
					for k := range m2 {
						if m2[k] > m0[k]+3 {
							l = append(l, fmt.Sprintf("%s %d -> %d -> %d", k, m0[k], m1[k], m2[k]))
						}
					}
					sort.Strings(l)
					rep.Violate("%s: %s after %d, %d and %d hours: %d, %d, %d. Started by: %.2000s", w.name, what, hours, 2*hours, 4*hours, a, b, c, strings.Join(l, "; "))
				}
			}
			grow("goroutines", total(m0), total(m1), total(m2))
			grow("descriptors", f0, f1, f2)
			grow("temporary files", t0, t1, t2)
			rep.Case(fmt.Sprintf("%s %d", w.name, hours))
			rep.Sample(fmt.Sprintf("%s: goroutines %d, %d, %d; descriptors %d, %d, %d; files %d, %d, %d", w.name, total(m0), total(m1), total(m2), f0, f1, f2, t0, t1, t2))
			fmt.Fprintf(os.Stderr, "%s: goroutines %d %d %d descriptors %d %d %d files %d %d %d\n", w.name, total(m0), total(m1), total(m2), f0, f1, f2, t0, t1, t2)
		}
	})
}
