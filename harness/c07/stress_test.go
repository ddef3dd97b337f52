package c07

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"verif/harness/lib"

	pb "github.com/bgokden/veri/veriservice"
)

// ledger is a peer that accepts everything and remembers what it was given.
type ledger struct {
	mu  sync.Mutex
	got map[string]map[uint64]bool
	n   int
}

func (l *ledger) source(pause func()) *lib.Source {
	return &lib.Source{ID: "peer", OnInfo: func() *pb.DataInfo { return &pb.DataInfo{} }, OnInsert: func(d *pb.Datum, c *pb.InsertConfig) error {
		pause()
		k := lib.KeyID(d.Key)
		l.mu.Lock()
		defer l.mu.Unlock()
		if l.got[k] == nil {
			l.got[k] = map[uint64]bool{}
		}
		l.got[k][d.Value.Version] = true
		l.n++
		return nil
	}}
}

func (l *ledger) has(k string, v uint64) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.got[k][v]
}

// TestStress: in real time, entries are overwritten while they are handed over, or inserted while the data set closes.
func TestStress(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "handover under load")
	for c := 0; c < rep.N(100, 1000); c++ {
		overwritten(rep, c)
	}
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(64)) // threads are then interrupted anywhere
	for c := 0; c < rep.N(300, 3000); c++ {
		closing(rep, c)
	}
	rep.Done()
}

func overwritten(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("overwritten", c))
	dt := lib.NewData(fmt.Sprint("o", c), func(x *pb.DataConfig) {
		x.NoTarget, x.TargetN, x.TargetUtilization = false, 1<<40, 0
	})
	l := &ledger{got: map[string]map[uint64]bool{}}
	spin := r.IntN(3)
	dt.AddSource(l.source(func() {
		if spin == 1 {
			runtime.Gosched()
		} else if spin == 2 {
			time.Sleep(time.Microsecond)
		}
	}))
	keys := 2 + r.IntN(7)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var checked, atPeer atomic.Int64
	for k := 0; k < keys; k++ {
		wg.Add(1)
		kr := rep.Rng(fmt.Sprint("overwritten", c, "-", k))
		ttl := uint64(0)
		if kr.IntN(2) == 0 {
			ttl = 100000
		}
		go func() {
			defer wg.Done()
			v := uint64(0)
			for {
				select {
				case <-stop:
					return
				default:
				}
				n := 1 + kr.IntN(2)
				if kr.IntN(8) == 0 {
					n = 1 + kr.IntN(40)
				}
				id := ""
				for i := 0; i < n; i++ {
					v++
					d := lib.Datum([]float32{float32(k), 1}, "g", "v", v)
					id = lib.KeyID(d.Key)
					if err := dt.Insert(d, &pb.InsertConfig{TTL: ttl}); err != nil {
						rep.Violate("stress %d: insert: %v", c, err)
						return
					}
				}
				want := lib.ValID(lib.Datum(nil, "", "v", v).Value)
				if content(dt)[id] != want { // if it is not here any more, it was acknowledged there before
					if !l.has(id, v) {
						rep.Violate("stress %d: version %d of %s is acknowledged, but it is neither here (%q) nor at the peer", c, v, id, content(dt)[id])
						return
					}
					atPeer.Add(1)
				}
				checked.Add(1)
			}
		}()
	}
	end := time.Now().Add(60 * time.Millisecond)
	for time.Now().Before(end) {
		dt.Process(true)
	}
	close(stop)
	wg.Wait()
	rep.Count("stress_versions_checked", int(checked.Load()))
	rep.Count("stress_versions_found_at_the_peer", int(atPeer.Load()))
	rep.Count("stress_transfers", l.n)
	sig := ""
	if l.n > 0 && checked.Load() > 0 {
		sig = fmt.Sprint("overwritten", c, keys, spin, l.n, checked.Load())
	}
	rep.Case(sig)
	if !lib.Within(60*time.Second, func() { dt.Close() }) {
		rep.Violate("stress %d: close does not return although the peer accepts everything", c)
	}
}

func closing(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("closing", c))
	dt := lib.NewData(fmt.Sprint("cl", c), nil)
	l := &ledger{got: map[string]map[uint64]bool{}}
	dt.AddSource(l.source(func() {}))
	writers := 4 + r.IntN(45)
	dim := []int{2, 2, 500, 20000}[r.IntN(4)] // an insert of a large entry takes longer
	var wg sync.WaitGroup
	type ack struct {
		k string
		v uint64
	}
	acked := make([][]ack, writers)
	var refused atomic.Int64
	for w := 0; w < writers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				f := make([]float32, dim)
				f[0], f[1] = float32(w), float32(i)
				d := lib.Datum(f, "g", "v", uint64(i))
				k := lib.KeyID(d.Key)
				if dt.Insert(d, nil) != nil {
					refused.Add(1)
					return
				}
				acked[w] = append(acked[w], ack{k, uint64(i)})
			}
		}()
	}
	time.Sleep(time.Duration(r.IntN(300)) * time.Microsecond)
	done := make(chan struct{})
	go func() { dt.Close(); close(done) }()
	wg.Wait()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		rep.Violate("stress closing %d: close does not return although the peer accepts everything", c)
		return
	}
	n := 0
	for _, l2 := range acked {
		for _, a := range l2 {
			n++
			if !l.has(a.k, a.v) {
				rep.Violate("stress closing %d: %s was acknowledged while the data set closed, but the peer never got it (%d writers, %d of them refused)", c, a.k[:16], writers, refused.Load())
				return
			}
		}
	}
	rep.Count("stress_inserts_acknowledged_around_close", n)
	rep.Count("stress_writers_refused", int(refused.Load()))
	sig := ""
	if n > 0 && refused.Load() > 0 {
		sig = fmt.Sprint("closing", c, dim, writers, n, refused.Load())
	}
	rep.Case(sig)
}
