package c25

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/lib"

	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
)

const defaultRetention = 14 * 24 * time.Hour

type peer struct {
	added time.Time
	n     uint64
	up    bool
}

// set is the model of one data set.
type set struct {
	name      string
	known     bool // created or used and not known to be gone
	used      time.Time
	retention time.Duration // after the last use; negative: forever
	config    *pb.DataConfig
	entries   map[string]time.Time // datum id -> expiry, zero: none
	peers     []*peer
}

func (s *set) live(now time.Time) int {
	n := 0
	for _, e := range s.entries {
		if e.IsZero() || now.Before(e.Add(-2*time.Second)) {
			n++
		}
	}
	return n
}

// peerHolds is true when a registered, reachable peer has reported entries.
func (s *set) peerHolds(now time.Time) bool {
	for _, p := range s.peers {
		if p.up && p.n > 0 && now.Sub(p.added) < 9*time.Minute+50*time.Second {
			return true
		}
	}
	return false
}

func (s *set) maybePeer(now time.Time) bool {
	for _, p := range s.peers {
		if now.Sub(p.added) < 11*time.Minute {
			return true
		}
	}
	return false
}

func retention(c *pb.DataConfig) time.Duration {
	if c.Retention == 0 {
		return defaultRetention
	}
	if c.Retention > 1<<33 {
		return -1
	}
	return time.Duration(c.Retention) * time.Second
}

func TestRetention(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "maintenance")
	os.Stdout, _ = os.OpenFile("/dev/null", os.O_WRONLY, 0)
	lib.Bubble(t, rep, func() {
		n := rep.N(70, 200)
		if rep.Stage == "long" {
			n = rep.N(2, 4)
		}
		nd := node.NewNode(&node.NodeConfig{Port: 1, Folder: lib.TempDir("node")})
		nd.PeriodicTicker.Stop()
		for c := 0; c < n; c++ {
			history(rep, c, nd, rep.Stage == "long")
		}
	})
}

func contents(d *data.Data) map[string]bool {
	m := map[string]bool{}
	c := d.Search(lib.Datum(nil, "", "", 0), &pb.SearchConfig{Limit: 100000}, nil)
	for _, x := range c.List {
		m[lib.DatumID(x.Datum)] = true
	}
	return m
}

// stream receives what a data stream sends.
type stream struct {
	grpc.ServerStream
	n int
}

func (s *stream) Send(*pb.Datum) error     { s.n++; return nil }
func (s *stream) Context() context.Context { return context.Background() }

// history drives a data set list directly and through the request handlers of a node.
func history(rep *lib.Rep, c int, nd *node.Node, long bool) {
	r := rep.Rng(fmt.Sprint("history", c, long))
	dts := data.NewDataset(lib.TempDir("dataset"))
	nd.Dataset = dts
	ctx := context.Background()
	var sink atomic.Bool // lets the data sets be closed at the end
	sets := map[string]*set{}
	names := []string{"a", "b", "c"}[:1+r.IntN(3)]
	for _, n := range names {
		sets[n] = &set{name: n, entries: map[string]time.Time{}}
	}
	var trace []string
	logf := func(f string, a ...any) { trace = append(trace, fmt.Sprintf(f, a...)) }
	fail := func(f string, a ...any) {
		tail := trace
		if len(tail) > 30 {
			tail = tail[len(tail)-30:]
		}
		rep.Violate("history %d: %s; after: %s", c, fmt.Sprintf(f, a...), strings.Join(tail, "; "))
	}
	start := time.Now()
	uniq := 0
	use := func(s *set) {
		s.used = time.Now()
		if !s.known {
			s.known = true
			s.config = &pb.DataConfig{Name: s.name}
			s.entries = map[string]time.Time{}
			s.peers = nil
		}
		s.retention = retention(s.config)
	}
	// expire updates the model: what is long unused is gone
	alive := func(s *set) (must, mustNot bool) {
		now := time.Now()
		if !s.known {
			return false, false
		}
		if s.retention >= 0 && now.Sub(s.used) > s.retention+time.Second {
			return false, true
		}
		inTime := s.retention < 0 || now.Sub(s.used) < s.retention-time.Second
		return inTime && (s.live(now) > 0 || s.peerHolds(now)), false
	}
	observed, removed, kept := 0, 0, 0
	check := func() bool {
		list := map[string]bool{}
		for _, n := range dts.List() {
			list[n] = true
		}
		announced := map[string]bool{}
		for _, cf := range nd.GetNodeInfo().GetDataList() { // as every announcement to a peer does, it is no use
			announced[cf.Name] = true
		}
		for _, n := range names {
			s := sets[n]
			must, mustNot := alive(s)
			observed++
			if must {
				kept++
				if !list[n] {
					fail("data set %s is gone %v after its last use (retention %v, %d live entries, peer holds entries: %v)", n, time.Since(s.used), s.retention, s.live(time.Now()), s.peerHolds(time.Now()))
					return false
				}
				d, err := dts.GetNoCreate(n)
				if err != nil {
					fail("data set %s: %v", n, err)
					return false
				}
				have := contents(d)
				for id, e := range s.entries {
					if (e.IsZero() || time.Now().Before(e.Add(-2*time.Second))) && !have[id] {
						fail("data set %s lost the acknowledged entry %s", n, id)
						return false
					}
				}
			}
			if must && !announced[n] {
				fail("data set %s is not announced", n)
				return false
			}
			if mustNot && (list[n] || announced[n]) {
				fail("data set %s is still listed %v after its last use (retention %v)", n, time.Since(s.used), s.retention)
				return false
			}
			if !list[n] && s.known && !must {
				s.known = false
				removed++
			}
		}
		return true
	}
	// outcomes near a boundary are not predicted: bring the model in line with what is there
	steps := 25 + r.IntN(40)
	for i := 0; i < steps; i++ {
		s := sets[names[r.IntN(len(names))]]
		if must, mustNot := alive(s); mustNot {
			s.known = false
		} else if _, err := dts.GetNoCreate(s.name); err != nil && !must {
			s.known = false
		} else if err == nil && !s.known {
			fail("data set %s exists though nobody asked for it", s.name)
			return
		}
		switch op := r.IntN(20); {
		case op < 4: // creation request, possibly an update
			cfg := &pb.DataConfig{Name: s.name, NoTarget: true, Version: uint64(r.IntN(4)), Retention: []uint64{0, 30, 120, 600, 3600, 7200, 1 << 63, 40, 18446744074, 1 << 45, 1 << 34}[r.IntN(11)]}
			if long {
				cfg.Retention = []uint64{0, 0, 86400 * 3}[r.IntN(3)]
			}
			was := s.known
			var err error
			if r.IntN(2) == 0 {
				_, err = dts.GetOrCreateIfNotExists(cfg)
			} else {
				_, err = nd.CreateDataIfNotExists(ctx, cfg)
			}
			if err != nil {
				fail("create %s: %v", s.name, err)
				return
			}
			if !was {
				use(s)
				s.config = cfg
			} else if cfg.Version > s.config.Version {
				s.config = cfg
			}
			use(s)
			logf("create %s v%d retention %d", s.name, cfg.Version, cfg.Retention)
			synctest.Wait()
		case op < 10: // insert
			var d *data.Data
			if r.IntN(2) == 0 {
				var err error
				d, err = dts.Get(s.name)
				if err != nil {
					fail("get %s: %v", s.name, err)
					return
				}
				use(s)
				synctest.Wait()
			}
			uniq++
			x := lib.Datum([]float32{float32(uniq), 1}, "", fmt.Sprint("e", uniq), 1)
			id := lib.DatumID(x)
			ttl := []uint64{0, 0, 20, 100, 1000, 1 << 62}[r.IntN(6)]
			var err error
			if d != nil {
				err = d.Insert(x, &pb.InsertConfig{TTL: ttl, Count: 1})
			} else {
				_, err = nd.Insert(ctx, &pb.InsertionRequest{DataName: s.name, Datum: x, Config: &pb.InsertConfig{TTL: ttl, Count: 1}})
				use(s)
				synctest.Wait()
			}
			if err != nil {
				// the default configuration has a target, which is not the subject here
				if !strings.Contains(err.Error(), "target") {
					fail("insert into %s: %v", s.name, err)
					return
				}
				break
			}
			switch {
			case ttl == 0 || ttl > 1<<40:
				s.entries[id] = time.Time{}
			default:
				s.entries[id] = time.Now().Add(time.Duration(ttl) * time.Second)
			}
			logf("insert into %s ttl %d", s.name, ttl)
		case op < 12: // use without change
			var err error
			switch r.IntN(3) {
			case 0:
				_, err = dts.Get(s.name)
			case 1:
				_, err = nd.GetDataInfo(ctx, &pb.GetDataRequest{Name: s.name})
			case 2:
				st := &stream{}
				err = nd.DataStream(&pb.GetDataRequest{Name: s.name}, st)
				if n := s.live(time.Now()); err == nil && s.known && st.n < n {
					fail("the stream of %s has %d entries, %d are live", s.name, st.n, n)
				}
			}
			if err != nil {
				fail("get %s: %v", s.name, err)
				return
			}
			use(s)
			synctest.Wait()
			logf("use %s", s.name)
		case op == 12: // delete all entries
			if d, err := dts.GetNoCreate(s.name); err == nil {
				c := d.Search(lib.Datum(nil, "", "", 0), &pb.SearchConfig{Limit: 100000}, nil)
				for _, x := range c.List {
					d.Delete(x.Datum)
				}
				s.entries = map[string]time.Time{}
				logf("empty %s", s.name)
			}
		case op < 14: // refresh
			if d, err := dts.GetNoCreate(s.name); err == nil {
				d.Process(true)
				logf("refresh %s", s.name)
			}
		case op < 16: // a peer is registered
			d, err := dts.GetNoCreate(s.name)
			np := 1
			if r.IntN(2) == 0 {
				np = 2 + r.IntN(4)
			}
			for j := 0; err == nil && s.known && j < np; j++ {
				p := &peer{added: time.Now(), n: uint64(r.IntN(2) * (1 + r.IntN(1+r.IntN(2)*99))), up: r.IntN(3) > 0}
				err := d.AddSource(&lib.Source{ID: fmt.Sprint("p", i, "-", j),
					OnInfo: func() *pb.DataInfo {
						if !p.up {
							return nil
						}
						return &pb.DataInfo{N: p.n}
					},
					OnInsert: func(*pb.Datum, *pb.InsertConfig) error {
						if sink.Load() {
							return nil
						}
						return errors.New("refused")
					}})
				if err == nil {
					s.peers = append(s.peers, p)
				}
				logf("peer of %s: %d entries, reachable %v", s.name, p.n, p.up)
			}
		case op < 17: // peers change
			for _, p := range s.peers {
				p.n = uint64(r.IntN(2) * (1 + r.IntN(1+r.IntN(2)*99)))
				p.up = r.IntN(3) > 0
			}
			logf("peers of %s change", s.name)
		default:
			w := time.Duration(r.IntN(20)) * time.Second
			switch r.IntN(4) {
			case 0:
				w = time.Duration(r.IntN(900)) * time.Second
			case 1:
				if s.known && s.retention > 0 && (long || s.retention < 3*time.Hour) { // just before or after the end of the retention
					w = time.Until(s.used.Add(s.retention)) + time.Duration(r.IntN(7)-4)*3*time.Second
				}
			case 2:
				w = time.Duration(r.IntN(70)) * time.Minute
				if long {
					w *= 24
				}
			}
			if w < 0 {
				w = time.Second
			}
			// peers that refuse entries would keep an expiring data set busy: let them accept when something may end
			for _, x := range sets {
				if x.maybePeer(time.Now()) && x.retention >= 0 && time.Now().Add(w).After(x.used.Add(x.retention-5*time.Second)) {
					sink.Store(true)
				}
			}
			// maintenance runs every minute in between, or only at the end
			if r.IntN(2) == 0 {
				n := 0
				for end := time.Now().Add(w); time.Now().Before(end) && n < 12; n++ {
					time.Sleep(min(time.Minute, time.Until(end)))
					now := time.Now()
					busy := false
					for _, x := range sets { // an empty data set with peers: closing needs nothing
						busy = busy || x.peerHolds(now)
					}
					_ = busy
					dts.ReloadRuns()
					synctest.Wait()
				}
				if rest := w - time.Duration(n)*time.Minute; rest > 0 {
					time.Sleep(rest)
				}
				logf("wait %v with maintenance", w)
			} else {
				time.Sleep(w)
				logf("wait %v", w)
			}
			sink.Store(false)
		}
		if r.IntN(3) == 0 {
			if err := dts.ReloadRuns(); err != nil {
				fail("maintenance: %v", err)
			}
			logf("maintenance")
		}
		synctest.Wait()
		if !check() {
			break
		}
	}
	sink.Store(true)
	dts.Close()
	time.Sleep(2 * time.Second)
	rep.Count("states_compared", observed)
	rep.Count("had_to_exist", kept)
	rep.Count("removals", removed)
	rep.Count("virtual_hours", int(time.Since(start).Hours()))
	sig := ""
	if kept > 3 && removed > 0 {
		h := append([]string{}, trace...)
		sig = strings.Join(h, ";")
	}
	rep.Case(sig)
	rep.Sample(fmt.Sprintf("%d steps in %v: %d times a data set had to exist, %d removals", steps, time.Since(start), kept, removed))
}

// TestConcurrent: inserts into fresh, empty data sets race with maintenance; what is acknowledged stays.
func TestConcurrent(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "maintenance")
	os.Stdout, _ = os.OpenFile("/dev/null", os.O_WRONLY, 0)
	n := rep.N(150, 600)
	if rep.Stage == "race" {
		n = rep.N(40, 200)
	}
	for c := 0; c < n; c++ {
		r := rep.Rng(fmt.Sprint("concurrent", c))
		dts := data.NewDataset(lib.TempDir("dataset"))
		var mu sync.Mutex
		acked := map[string][]string{}
		var refused, removedSeen atomic.Int64
		stop := make(chan struct{})
		var wg, bg sync.WaitGroup
		for g := 0; g < 2; g++ {
			bg.Add(1)
			go func() {
				defer bg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					before := len(dts.DataConfigList())
					dts.ReloadRuns()
					if len(dts.DataConfigList()) < before {
						removedSeen.Add(1)
					}
				}
			}()
		}
		for g := 0; g < 4; g++ {
			wr := rand.New(rand.NewPCG(rep.Seed, r.Uint64()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 12; i++ {
					name := fmt.Sprint("n", wr.IntN(4), "-", i/4)
					d, err := dts.GetOrCreateIfNotExists(&pb.DataConfig{Name: name, NoTarget: true, Version: 1})
					if err != nil {
						refused.Add(1)
						continue
					}
					time.Sleep(time.Duration(wr.IntN(200)) * time.Microsecond)
					x := lib.Datum([]float32{float32(g), float32(i)}, "", fmt.Sprint(g, "/", i), 1)
					id := lib.DatumID(x)
					if err := d.Insert(x, nil); err != nil {
						refused.Add(1)
						continue
					}
					mu.Lock()
					acked[name] = append(acked[name], id)
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		time.Sleep(time.Duration(r.IntN(3)) * time.Millisecond)
		close(stop)
		bg.Wait()
		total := 0
		var ns []string
		for name := range acked {
			ns = append(ns, name)
		}
		sort.Strings(ns)
		for _, name := range ns {
			d, err := dts.GetNoCreate(name)
			if err != nil {
				rep.Violate("round %d: data set %s with %d acknowledged entries was removed by maintenance: %v", c, name, len(acked[name]), err)
				continue
			}
			have := contents(d)
			for _, id := range acked[name] {
				total++
				if !have[id] {
					rep.Violate("round %d: an entry of %s that was acknowledged during maintenance is lost: %s", c, name, id)
					break
				}
			}
		}
		dts.Close()
		rep.Count("acknowledged", total)
		rep.Count("refused", int(refused.Load()))
		rep.Count("removals_seen", int(removedSeen.Load()))
		rep.Case(fmt.Sprint(c, total, refused.Load(), removedSeen.Load()))
		rep.Sample(fmt.Sprintf("%d inserts acknowledged, %d refused, maintenance removed data sets in %d rounds", total, refused.Load(), removedSeen.Load()))
	}
	rep.Done()
}
