package c07

import (
	"context"
	"fmt"
	"math/rand/v2"
	"os"
	"sync"
	"testing"
	"time"

	"verif/harness/lib"

	pb "github.com/bgokden/veri/veriservice"
)

func TestMember(t *testing.T) {
	if os.Getenv("MEMBER_DIR") != "" {
		lib.MemberMain()
	}
}

// TestWire: node processes that found each other rebalance and leave, with faults on the way.
func TestWire(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "rebalancing between processes")
	for c := 0; c < rep.N(10, 60); c++ {
		wire(rep, c)
	}
	rep.Done()
}

type sent struct {
	ttl uint64
	at  int64 // unix milliseconds before the insert
}

func wire(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("wire", c))
	k := 2 + r.IntN(3)
	target := uint64(20 + r.IntN(60))
	noTarget := r.IntN(3) == 0
	ms := lib.Cluster(rep, k, func(i int) *pb.DataConfig {
		return &pb.DataConfig{Name: "set", Version: 1, TargetN: target, TargetUtilization: 0.2, NoTarget: noTarget}
	})
	if ms == nil {
		rep.Violate("wire %d: %d members do not become sources of each other", c, k)
		return
	}
	defer func() {
		for _, m := range ms {
			m.Kill()
		}
	}()
	want := map[string]string{}
	sents := map[string][]sent{}
	n := 10 + r.IntN(80)
	for i := 0; i < n; i++ {
		d := lib.Datum([]float32{float32(i % 20), float32(r.IntN(3))}, "g", fmt.Sprint("v", i), uint64(i))
		at := ms[r.IntN(k)]
		ttl := uint64(0)
		if r.IntN(2) == 0 {
			ttl = uint64(1000 + r.IntN(100000))
		}
		if _, ok := want[lib.KeyID(d.Key)]; ok { // an overwrite at another member is another entry there
			continue
		}
		now := time.Now().UnixMilli()
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		_, err := at.Client.Insert(ctx, &pb.InsertionRequest{DataName: "set", Datum: d, Config: &pb.InsertConfig{TTL: ttl, Count: 1}})
		cancel()
		if err == nil {
			want[lib.KeyID(d.Key)] = lib.ValID(d.Value)
			sents[lib.KeyID(d.Key)] = append(sents[lib.KeyID(d.Key)], sent{ttl, now})
		}
	}
	for _, m := range ms { // what the client sent is not of interest
		m.Inserts()
	}
	alive := append([]*lib.Member{}, ms...)
	check := func(where string) bool {
		held := map[string]string{}
		for try := 0; try < 60; try++ { // an entry may move while members are read one by one; a lost one stays lost
			for _, m := range alive {
				cont, err := m.Content("set")
				if err != nil {
					rep.Violate("wire %d %s: listing a member: %v", c, where, err)
					return false
				}
				for x, v := range cont {
					held[x] = v
				}
			}
			missing := 0
			for x, v := range want {
				if held[x] != v {
					missing++
				}
			}
			if missing == 0 {
				break
			}
			rep.Count("listings_repeated", 1)
			if try < 59 {
				time.Sleep(200 * time.Millisecond)
				held = map[string]string{}
			}
		}
		for x, v := range want {
			if held[x] != v {
				rep.Violate("wire %d %s: entry %s=%s is on none of the %d remaining members (%d entries, target %d, no target %v)", c, where, x, v, len(alive), len(want), target, noTarget)
				return false
			}
		}
		// what was transferred carries key, value, time left and is marked as a replica
		moved := 0
		for _, m := range alive {
			ins, err := m.Inserts()
			if err != nil {
				rep.Violate("wire %d %s: %v", c, where, err)
				return false
			}
			for _, w := range ins {
				moved++
				if want[w.Key] != w.Val {
					rep.Violate("wire %d %s: a transfer carries %s=%s, stored was %q", c, where, w.Key, w.Val, want[w.Key])
				}
				if w.Count == 0 {
					rep.Violate("wire %d %s: a transfer of %s is sent like an insert of a client", c, where, w.Key)
				}
				ok := false
				for _, s := range sents[w.Key] {
					if s.ttl == 0 {
						ok = ok || w.TTL == 0
					} else {
						left := int64(s.ttl) - (w.At-s.at)/1000
						ok = ok || int64(w.TTL) >= left-30 && int64(w.TTL) <= int64(s.ttl)+1
					}
				}
				if !ok {
					rep.Violate("wire %d %s: a transfer of %s carries time-to-live %d, inserted with %v", c, where, w.Key, w.TTL, sents[w.Key])
				}
				rep.Count("transfers", 1)
				if w.Stored && !w.Acked {
					rep.Count("lost_acknowledgements", 1)
				}
			}
		}
		rep.Count("checks", 1)
		_ = moved
		return rep.Violations() == 0
	}
	if !check("after the inserts") {
		return
	}
	for s := 0; s < 2+r.IntN(3); s++ {
		for _, m := range alive {
			m.Faults([]float64{0, 0, 0.3, 1}[r.IntN(4)], []float64{0, 0, 0.3}[r.IntN(3)], []int{0, 3, 20}[r.IntN(3)])
		}
		var wg sync.WaitGroup
		for _, m := range alive {
			if r.IntN(4) > 0 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					m.Process("set")
				}()
			}
		}
		wg.Wait()
		time.Sleep(time.Duration(300+r.IntN(300)) * time.Millisecond) // transfers go on in the background; earlier checks are as good
		if !check(fmt.Sprint("round ", s)) {
			return
		}
	}
	// members leave, one after the other or two at a time, as long as the others have room
	leaving := 1 + r.IntN(k-1)
	if k-leaving < 1 {
		leaving = k - 1
	}
	if !noTarget {
		total := uint64(len(want))
		room := uint64(k-leaving) * target
		if total*3 > room { // replicas take room as well
			leaving = 0
		}
	}
	together := r.IntN(2) == 0
	for _, m := range alive {
		m.Faults([]float64{0, 0.2}[r.IntN(2)], []float64{0, 0.2}[r.IntN(2)], []int{0, 3}[r.IntN(2)])
	}
	order := r.Perm(k)[:leaving]
	left := func(m *lib.Member) bool {
		done := make(chan error, 1)
		go func() { done <- m.Close() }()
		select {
		case err := <-done:
			if err != nil {
				rep.Violate("wire %d: leaving: %v", c, err)
				return false
			}
			return true
		case <-time.After(90 * time.Second):
			return false
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	gone := map[*lib.Member]bool{}
	for _, i := range order {
		m := ms[i]
		f := func() {
			if left(m) {
				mu.Lock()
				gone[m] = true
				mu.Unlock()
			} else if rep.Violations() == 0 {
				rep.Violate("wire %d: a member with %d peers is still not closed after 90 s", c, k-1)
			}
		}
		if together {
			wg.Add(1)
			go func() { defer wg.Done(); f() }()
		} else {
			f()
			remove(&alive, gone)
			if !check("after a member left") {
				return
			}
			m.Kill()
		}
	}
	wg.Wait()
	remove(&alive, gone)
	ok := check("after members left")
	rep.Count("members_left", len(order))
	if ok {
		rep.Case(fmt.Sprint("wire", c, k, n, target, noTarget, leaving, together))
		rep.Sample(fmt.Sprintf("%d processes, %d entries, target %d (none: %v), %d left (together: %v)", k, len(want), target, noTarget, leaving, together))
	}
}

func remove(alive *[]*lib.Member, gone map[*lib.Member]bool) {
	var l []*lib.Member
	for _, m := range *alive {
		if !gone[m] {
			l = append(l, m)
		}
	}
	*alive = l
}

var _ = rand.Float64
