package c08

import (
	"context"
	"fmt"
	"os"
	"testing"
	"time"

	"verif/harness/lib"

	pb "github.com/bgokden/veri/veriservice"
)

func TestMember(t *testing.T) {
	if os.Getenv("MEMBER_DIR") != "" {
		lib.MemberMain()
	}
}

// TestWire: replicated inserts between node processes, with faults on the way and members that died.
func TestWire(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "replication between processes")
	for c := 0; c < rep.N(10, 60); c++ {
		wire(rep, c)
	}
	rep.Done()
}

func wire(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("wire", c))
	k := 1 + r.IntN(4)
	R := uint32(1 + r.IntN(4))
	enforce := r.IntN(5) > 0
	ms := lib.Cluster(rep, k, func(i int) *pb.DataConfig {
		return &pb.DataConfig{Name: "set", Version: 1, NoTarget: true, ReplicationOnInsert: R, EnforceReplicationOnInsert: enforce}
	})
	if ms == nil {
		rep.Violate("wire %d: %d members do not become sources of each other", c, k)
		return
	}
	defer func() {
		for _, m := range ms {
			m.Kill()
		}
	}()
	dead := map[int]bool{}
	begin := time.Now()
	for s := 0; s < 12 && rep.Violations() == 0; s++ {
		if time.Since(begin) > 40*time.Second { // before the periodic refresh sends entries as well
			break
		}
		fail := make([]float64, k)
		lose := make([]float64, k)
		for i, m := range ms {
			if dead[i] {
				continue
			}
			fail[i], lose[i] = []float64{0, 0, 0, 0.5, 1}[r.IntN(5)], []float64{0, 0, 0, 0.5}[r.IntN(4)]
			if err := m.Faults(fail[i], lose[i], []int{0, 2}[r.IntN(2)]); err != nil {
				rep.Violate("wire %d: %v", c, err)
				return
			}
		}
		at := r.IntN(k)
		if dead[at] {
			continue
		}
		ttl := uint64(r.IntN(2)) * []uint64{100 + r.Uint64N(100000), 1<<32 + 100, 1 << 41}[r.IntN(3)]
		count := uint64(r.IntN(4) / 3)
		d := lib.Datum([]float32{float32(s), float32(r.IntN(3)), 1}, fmt.Sprint("g", s%3), fmt.Sprint("v", s), uint64(s))
		var cfg *pb.InsertConfig
		if ttl > 0 || count > 0 || r.IntN(2) == 0 {
			cfg = &pb.InsertConfig{TTL: ttl, Count: count}
		}
		if count > 0 { // faults would hit the client itself
			ms[at].Faults(0, 0, 0)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
		_, err := ms[at].Client.Insert(ctx, &pb.InsertionRequest{DataName: "set", Datum: lib.Clone(d), Config: cfg})
		cancel()
		key, val := lib.KeyID(d.Key), lib.ValID(d.Value)
		copies, acked, sure, seen := 0, 0, 0, 0
		desc := ""
		for i, m := range ms {
			if dead[i] {
				continue
			}
			ins, ierr := m.Inserts()
			cont, cerr := m.Content("set")
			if ierr != nil || cerr != nil {
				rep.Violate("wire %d: member: %v %v", c, ierr, cerr)
				return
			}
			if cont[key] == val {
				copies++
			}
			if i != at && fail[i] == 0 && lose[i] == 0 {
				sure++
			}
			for _, w := range ins {
				if i == at && w.Count == count && w.Key == key {
					continue // the client's own
				}
				seen++
				if i == at {
					rep.Violate("wire %d step %d: the receiver of an insert got it back", c, s)
				}
				if w.Key != key || w.Val != val || w.TTL != ttl || w.Count == 0 {
					rep.Violate("wire %d step %d: a replica of %s=%s (ttl %d) is sent as %s=%s (ttl %d, hop count %d)", c, s, key, val, ttl, w.Key, w.Val, w.TTL, w.Count)
				}
				if w.Acked {
					acked++
				}
			}
		}
		desc = fmt.Sprintf("wire %d step %d: %d members (%d dead, %d peers sure to accept), replication %d enforced %v, hop count %d, %d copies, %d acknowledged replicas of %d sent, outcome %v", c, s, k, len(dead), sure, R, enforce, count, copies, acked, seen, err)
		switch {
		case !enforce || count > 0:
			if seen > 0 {
				rep.Violate("%s: forwarded", desc)
			}
			if err != nil || copies != 1 {
				rep.Violate("%s: not stored exactly at the receiver", desc)
			}
		case err == nil && (copies < int(R) || copies == 0):
			rep.Violate("%s: acknowledged with too few copies", desc)
		case err != nil && 1+acked >= int(R):
			rep.Violate("%s: failed although enough copies were acknowledged", desc)
		case err != nil && 1+sure >= int(R):
			rep.Violate("%s: failed although enough peers accept", desc)
		}
		rep.Count("wire_inserts", 1)
		rep.Count("wire_replicas", seen)
		if err != nil {
			rep.Count("wire_failed", 1)
		}
		if k > 1 && enforce {
			rep.Case(fmt.Sprint("wire", k, R, len(dead), sure, count, copies, acked, seen, err == nil))
		} else {
			rep.Case("")
		}
		rep.Sample(desc)
		if r.IntN(12) == 0 && len(dead)+2 < k {
			v := r.IntN(k)
			if !dead[v] {
				dead[v] = true
				ms[v].Kill()
			}
		}
	}
}
