package c07

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/lib"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

type version struct {
	val string
	at  time.Time
	ttl uint64
}

func (v version) exp() time.Time { return v.at.Add(time.Duration(v.ttl) * time.Second) }

// remaining is what is left of the time-to-live
func (v version) remaining(now time.Time) time.Duration {
	if v.ttl == 0 {
		return 1000 * time.Hour
	}
	return v.exp().Sub(now)
}

type ack struct {
	peer string
	at   time.Time
	ttl  uint64
}

type world struct {
	mu     sync.Mutex
	rep    *lib.Rep
	desc   string
	hist   map[string][]version        // key -> acknowledged versions, last one is current
	gone   map[string]bool             // deleted by the client
	acks   map[string]map[string][]ack // key -> value -> acknowledgements of peers
	slack  time.Duration               // longest time a transfer may wait in a queue
	acked  int
	failed int
	strict bool
	rare   bool        // one transfer of a hundred fails
	sink   atomic.Bool // peers take everything, to end a case
	outage time.Time   // all peers refuse until then
	keys   sync.Map    // one lock per key: the order of versions of a key is known
}

func (w *world) current(k string) (version, bool) {
	h := w.hist[k]
	if len(h) == 0 || w.gone[k] {
		return version{}, false
	}
	return h[len(h)-1], true
}

// received checks one transfer as a peer sees it
func (w *world) received(peer string, d *pb.Datum, c *pb.InsertConfig, err error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	k, val := lib.KeyID(d.GetKey()), lib.ValID(d.GetValue())
	now := time.Now()
	var best *version
	for i := range w.hist[k] {
		v := &w.hist[k][i]
		if v.val != val {
			continue
		}
		ttl := uint64(0)
		if c != nil {
			ttl = c.TTL
		}
		if v.ttl == 0 && ttl == 0 {
			best = v
		}
		if v.ttl != 0 && ttl != 0 {
			rem := v.exp().Sub(now)
			got := time.Duration(ttl) * time.Second
			if got >= rem-2*time.Second && got <= rem+w.slack+2*time.Second {
				best = v
			}
		}
	}
	if best == nil {
		w.rep.Violate("%s: peer %s received %s=%s with config %v at %v, but the versions stored under that key are %v", w.desc, peer, k, val, c, now.Unix(), w.hist[k])
		return
	}
	if err != nil {
		w.failed++
		return
	}
	w.acked++
	if w.acks[k] == nil {
		w.acks[k] = map[string][]ack{}
	}
	w.acks[k][val] = append(w.acks[k][val], ack{peer, now, c.GetTTL()})
}

func content(dt *data.Data) map[string]string {
	m := map[string]string{}
	ch := make(chan *pb.Datum, 10)
	go func() { dt.StreamAll(ch); close(ch) }()
	for d := range ch {
		m[lib.KeyID(d.Key)] = lib.ValID(d.Value)
	}
	return m
}

// conserved: every current version is held locally or was acknowledged by a peer
func (w *world) conserved(where string, local map[string]string, closing bool) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	moved := 0
	for k := range w.hist {
		v, ok := w.current(k)
		now := time.Now()
		if !ok || v.remaining(now) < 12*time.Second { // a refresh that moves the expiry by less than ten seconds may be ignored
			continue
		}
		if closing && v.remaining(now) < 13*time.Second {
			continue
		}
		if !closing && local[k] == v.val {
			continue
		}
		moved++
		if len(w.acks[k][v.val]) == 0 {
			w.rep.Violate("%s %s: %s=%s (ttl %d, stored at %v) is not on the node and no peer acknowledged it; node holds %q; %d acknowledgements, %d failures overall", w.desc, where, k, v.val, v.ttl, v.at.Unix(), local[k], w.acked, w.failed)
			return moved
		}
	}
	for k, val := range local {
		ok := false
		for _, v := range w.hist[k] {
			ok = ok || v.val == val
		}
		if !ok {
			w.rep.Violate("%s %s: node holds %s=%s which was never inserted", w.desc, where, k, val)
		}
	}
	return moved
}

func TestConservation(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "rebalancing and close")
	lib.Bubble(t, rep, func() {
		n := rep.N(2500, 5000)
		if rep.Stage == "race" {
			n = rep.N(400, 800)
		}
		for c := 0; c < n; c++ {
			one(rep, c)
		}
	})
}

func one(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("case", c))
	target := []uint64{5, 10, 20, 50, 100}[r.IntN(5)]
	util := []float64{0, 0.2, 0.4, 0.5, 0.9, 1}[r.IntN(6)]
	noTarget := r.IntN(6) == 0
	dt := lib.NewData(fmt.Sprint("c", c), func(x *pb.DataConfig) {
		x.TargetN, x.TargetUtilization, x.NoTarget = target, util, noTarget
	})
	synctest.Wait() // the first background refresh is over
	np := 1 + r.IntN(4)
	w := &world{rep: rep, hist: map[string][]version{}, gone: map[string]bool{}, acks: map[string]map[string][]ack{}}
	good := r.IntN(np)
	closing := r.IntN(2) == 0
	delays := r.IntN(3) == 0
	crowd := c%9 == 4 // many peers, one of which accepts
	if crowd {
		np, delays, closing = 7+r.IntN(6), false, true
		good = r.IntN(np)
		rep.Count("cases_with_many_peers", 1)
	}
	w.desc = fmt.Sprintf("case %d: %d peers, target %d, utilization %v, no target %v, delays %v", c, np, target, util, noTarget, delays)
	ver := uint64(0)
	insert := func(i int, ttl uint64, fresh bool) {
		w.mu.Lock()
		ver++
		v := ver
		w.mu.Unlock()
		d := lib.Datum([]float32{float32(i), float32(i % 7), 1}, fmt.Sprint("g", i%3), fmt.Sprint("v", v), v)
		k := lib.KeyID(d.Key)
		kl, _ := w.keys.LoadOrStore(k, &sync.Mutex{})
		kl.(*sync.Mutex).Lock()
		defer kl.(*sync.Mutex).Unlock()
		if !fresh {
			w.mu.Lock()
			if cv, ok := w.current(k); ok {
				fmt.Sscanf(cv.val, "%d|", &v)
				d.Value.Version, d.Value.Label = v, []byte(fmt.Sprint("v", v))
			}
			w.mu.Unlock()
		}
		val := lib.ValID(d.Value)
		now := time.Now()
		var cfg *pb.InsertConfig
		if ttl != 0 {
			cfg = &pb.InsertConfig{TTL: ttl}
		}
		// a concurrent transfer may see the entry before the insert returns
		w.mu.Lock()
		w.hist[k] = append(w.hist[k], version{val, now, ttl})
		gone := w.gone[k]
		delete(w.gone, k)
		w.mu.Unlock()
		if err := dt.Insert(d, cfg); err != nil {
			w.mu.Lock()
			w.hist[k] = w.hist[k][:len(w.hist[k])-1]
			if gone {
				w.gone[k] = true
			}
			w.mu.Unlock()
		}
	}
	var srcs []*lib.Source
	for p := 0; p < np; p++ {
		id := fmt.Sprint("p", p)
		pr := rand.New(rand.NewPCG(r.Uint64(), r.Uint64()))
		var pm sync.Mutex
		mode := r.IntN(6)
		if crowd {
			mode = 2 + r.IntN(2)
		}
		if p == good {
			mode = []int{0, 0, 1, 5}[r.IntN(4)]
		}
		capacity := r.IntN(30)
		delay := time.Duration(0)
		if delays {
			delay = time.Duration(r.IntN(100)) * time.Millisecond
			w.slack += 200 * delay
		}
		different := r.IntN(2) == 0
		src := &lib.Source{ID: id}
		src.OnInfo = func() *pb.DataInfo {
			if mode == 3 && !w.sink.Load() {
				return nil // unreachable
			}
			info := &pb.DataInfo{N: uint64(capacity)}
			if different { // otherwise only single entries are exchanged
				info.Avg, info.Hist = []float32{-500, 3, 1}, []float32{1}
			}
			return info
		}
		src.OnInsert = func(d *pb.Datum, cfg *pb.InsertConfig) error {
			if w.sink.Load() {
				return nil
			}
			pm.Lock()
			x := pr.IntN(3)
			y := pr.IntN(100)
			pm.Unlock()
			time.Sleep(delay)
			var err error
			w.mu.Lock()
			out := time.Now().Before(w.outage)
			w.mu.Unlock()
			switch {
			case out:
				err = errors.New("Number of elements is over the target")
			case mode == 1 && x == 0:
				err = errors.New("Number of elements is over the target")
			case w.rare && y == 0:
				err = errors.New("connection reset")
			case mode == 2:
				err = errors.New("Node is in drain mode")
			case mode == 3:
				err = errors.New("connection refused")
			case mode == 4:
				pm.Lock()
				capacity--
				if capacity < 0 {
					err = errors.New("Number of elements is over the target")
				}
				pm.Unlock()
			case mode == 5 && y < 15 && !w.strict: // the client overwrites the entry while it is being transferred
				w.received(id, d, cfg, nil)
				if len(d.GetKey().GetFeature()) > 0 {
					insert(int(d.Key.Feature[0]), uint64([]int{0, 100, 5000}[y%3]), y%2 == 0)
				}
				return nil
			}
			w.received(id, d, cfg, err)
			return err
		}
		dt.AddSource(src)
		srcs = append(srcs, src)
	}
	steps := 2 + r.IntN(6)
	nk := 10 + r.IntN(120)
	ttls := []uint64{0, 0, 30, 100, 1000, 100000, 1 << 33}
	moved := 0
	for s := 0; s < steps && rep.Violations() == 0; s++ {
		ni := r.IntN(60)
		if r.IntN(2) == 0 {
			ni = r.IntN(6)
		}
		for i := 0; i < ni; i++ {
			insert(r.IntN(nk), ttls[r.IntN(len(ttls))], r.IntN(3) > 0)
		}
		if r.IntN(4) == 0 {
			i := r.IntN(nk)
			d := lib.Datum([]float32{float32(i), float32(i % 7), 1}, fmt.Sprint("g", i%3), "", 0)
			dt.Delete(d)
			w.mu.Lock()
			w.gone[lib.KeyID(d.Key)] = true
			w.mu.Unlock()
		}
		before := content(dt)
		exact := dt.GetDataInfo().N <= uint64(len(before)) && !delays // the published size is not too large
		switch r.IntN(4) {
		case 0: // concurrent inserts
			var wg sync.WaitGroup
			for g := 0; g < 2; g++ {
				gr := rand.New(rand.NewPCG(r.Uint64(), r.Uint64()))
				base := g * 1000
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 20; i++ {
						insert(base+gr.IntN(nk), ttls[gr.IntN(len(ttls))], gr.IntN(2) == 0)
					}
				}()
			}
			dt.Process(true)
			wg.Wait()
			exact = false
		case 1:
			time.Sleep(time.Duration(r.IntN(30)) * time.Second)
			exact = false
		default:
			dt.Process(true)
		}
		settle(w, delays)
		local := content(dt)
		moved += w.conserved(fmt.Sprint("step ", s), local, false)
		rep.Count("local_entries_checked", len(local))
		lost := len(before) - len(local)
		if noTarget && lost > 0 && exact {
			live := 0
			for k := range before {
				if v, ok := w.current(k); ok && v.remaining(time.Now()) > 2*time.Second {
					if _, there := local[k]; !there {
						live++
					}
				}
			}
			if live > 0 {
				rep.Violate("%s: %d entries were evicted although there is no target", w.desc, live)
			}
		}
		if exact && !noTarget && lost > 0 {
			rep.Count("evicting_refreshes_checked", 1)
		}
		if exact && !noTarget {
			floor := int(float64(target) * util)
			if len(local) < floor-1 && lost > 0 {
				// expired ones do not count
				evicted := 0
				for k := range before {
					if _, there := local[k]; !there {
						if v, ok := w.current(k); ok && v.remaining(time.Now()) > 2*time.Second {
							evicted++
						}
					}
				}
				if evicted > 0 && len(before)-evicted < floor-1 {
					rep.Violate("%s: eviction went from %d to %d entries, below the utilization of %d", w.desc, len(before), len(local), floor)
				}
			}
		}
	}
	if closing && rep.Violations() == 0 {
		for i, ni := 0, r.IntN(40); i < ni; i++ { // recent ones, not counted yet
			insert(r.IntN(nk), ttls[r.IntN(len(ttls))], true)
		}
		w.strict = true
		if c%40 < 2 { // nobody accepts for a while
			for _, src := range srcs {
				dt.AddSource(src) // known for another ten minutes
			}
			out := time.Duration(1+r.IntN(200)) * time.Second
			w.mu.Lock()
			w.outage = time.Now().Add(out)
			w.mu.Unlock()
			rep.Count("closes_during_an_outage", 1)
			w.desc += fmt.Sprintf(", everybody refuses for %v", out)
		}
		if c%50 == 7 && !delays { // much to hand over, of which little is left after the first rounds
			many := 300 + r.IntN(2500)
			for i := 0; i < many; i++ {
				insert(2000+i, ttls[r.IntN(2)*5], true)
			}
			w.mu.Lock()
			w.rare = true
			w.mu.Unlock()
			w.slack += time.Duration(many) * 100 * time.Millisecond
			for _, src := range srcs {
				dt.AddSource(src)
			}
			rep.Count("large_closes", 1)
		}
		held := len(content(dt))
		if !lib.Within(3*time.Hour, func() { dt.Close() }) {
			rep.Violate("%s: close did not return in 3 virtual hours although peer p%d accepts entries", w.desc, good)
			return
		}
		synctest.Wait()
		moved += w.conserved("close", map[string]string{}, true)
		rep.Count("graceful_closes", 1)
		rep.Count("entries_held_at_close", held)
	} else {
		// end it without a handover
		w.sink.Store(true)
		dt.Close()
	}
	time.Sleep(2 * time.Second)
	w.mu.Lock()
	defer w.mu.Unlock()
	rep.Count("acknowledged_transfers", w.acked)
	rep.Count("failed_transfers", w.failed)
	rep.Count("moved_entries", moved)
	if w.acked > 0 && moved > 0 {
		rep.Case(fmt.Sprint(w.desc, w.acked, w.failed, moved, closing))
		rep.Sample(fmt.Sprintf("%s; %d acknowledged, %d failed, %d current versions only on peers", w.desc, w.acked, w.failed, moved))
	} else {
		rep.Case("")
	}
}

// settle waits for background transfers
func settle(w *world, delays bool) {
	synctest.Wait()
	if delays {
		time.Sleep(9 * time.Second)
		synctest.Wait()
	}
}

// link is a connection between real members with virtual delays before and after each insert
type link struct {
	*data.Data
	id string
	mu sync.Mutex
	r  *rand.Rand
	w  *atomic.Bool
}

func (l *link) GetID() string { return l.id }
func (l *link) pause() {
	l.mu.Lock()
	d := time.Duration(l.r.IntN(4)) * time.Millisecond
	l.mu.Unlock()
	time.Sleep(d)
}
func (l *link) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	if l.w.Load() {
		return nil
	}
	l.pause()
	err := l.Data.Insert(lib.Clone(d), c)
	l.pause()
	return err
}

// TestMembers: real members evict to each other at the same time, with replicas on several of them.
func TestMembers(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "rebalancing between members")
	lib.Bubble(t, rep, func() {
		for c := 0; c < rep.N(1500, 3000); c++ {
			members(rep, c)
		}
	})
}

func members(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("members", c))
	nm := 2 + r.IntN(3)
	target := uint64(10 + r.IntN(60))
	util := []float64{0, 0.1, 0.3, 0.6}[r.IntN(4)]
	var ms []*data.Data
	var sink atomic.Bool
	for m := 0; m < nm; m++ {
		ms = append(ms, lib.NewData(fmt.Sprint("m", c, "-", m), func(x *pb.DataConfig) {
			x.TargetN, x.TargetUtilization, x.NoTarget = target, util, false
		}))
	}
	synctest.Wait()
	for a := range ms {
		for b := range ms {
			if a != b {
				ms[a].AddSource(&link{Data: ms[b], id: fmt.Sprint("m", b), r: rand.New(rand.NewPCG(r.Uint64(), r.Uint64())), w: &sink})
			}
		}
	}
	want := map[string]string{}
	n := 5 + r.IntN(60)
	for i := 0; i < n; i++ {
		d := lib.Datum([]float32{float32(i), float32(i % 5)}, "g", fmt.Sprint(i), uint64(i))
		ok := false
		for _, m := range r.Perm(nm)[:1+r.IntN(nm)] {
			var cfg *pb.InsertConfig
			if i%2 == 0 {
				cfg = &pb.InsertConfig{TTL: 5000}
			}
			ok = ms[m].Insert(lib.Clone(d), cfg) == nil || ok
		}
		if ok {
			want[lib.KeyID(d.Key)] = lib.ValID(d.Value)
		}
	}
	moves := 0
	last := make([]map[string]string, nm)
	check := func(where string, which []int) {
		for k, v := range want {
			held := false
			for _, m := range which {
				held = held || last[m][k] == v
			}
			if !held {
				rep.Violate("members %d %s: %s=%s is on none of the %d members (%d entries, target %d, utilization %v)", c, where, k, v, len(which), n, target, util)
				return
			}
		}
	}
	all := []int{}
	for m := range ms {
		all = append(all, m)
	}
	for s := 0; s < 3+r.IntN(4) && rep.Violations() == 0; s++ {
		var wg sync.WaitGroup
		for m := range ms {
			if r.IntN(4) == 0 {
				continue
			}
			off := time.Duration(r.IntN(6)) * time.Millisecond
			wg.Add(1)
			go func() { defer wg.Done(); time.Sleep(off); ms[m].Process(true) }()
		}
		wg.Wait()
		time.Sleep(5 * time.Second)
		synctest.Wait()
		for m := range ms {
			now := content(ms[m])
			for k := range last[m] {
				if _, ok := now[k]; !ok {
					moves++
				}
			}
			last[m] = now
		}
		check(fmt.Sprint("round ", s), all)
	}
	// one member leaves; the others are below their target or not, so it may have to wait for nobody
	leave := r.IntN(nm)
	room := false
	for m := range ms {
		if m != leave && ms[m].GetDataInfo().N < target {
			room = true
		}
	}
	if room && len(want) > 0 && rep.Violations() == 0 {
		done := lib.Within(5*time.Minute, func() { ms[leave].Close() })
		synctest.Wait()
		rest := []int{}
		for m := range ms {
			if m != leave || !done {
				rest = append(rest, m)
			}
			last[m] = content(ms[m])
		}
		check("after a member left", rest)
		rep.Count("members_left", 1)
	}
	sink.Store(true)
	for m := range ms {
		ms[m].Close()
	}
	time.Sleep(2 * time.Second)
	rep.Count("evictions_between_members", moves)
	if moves > 0 {
		rep.Case(fmt.Sprint(c, nm, n, target, util, moves))
	} else {
		rep.Case("")
	}
}
