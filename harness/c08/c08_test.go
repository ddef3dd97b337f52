package c08

import (
	"errors"
	"fmt"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/lib"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/protobuf/proto"
)

func content(dt *data.Data) map[string]string {
	m := map[string]string{}
	ch := make(chan *pb.Datum, 10)
	go func() { dt.StreamAll(ch); close(ch) }()
	for d := range ch {
		m[lib.KeyID(d.Key)] = lib.ValID(d.Value)
	}
	return m
}

type event struct {
	peer string
	id   string
	cfg  *pb.InsertConfig
	ok   bool
}

// TestScripted: one member with scripted peers, every insert compared with what the peers acknowledged.
func TestScripted(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "replicated insert")
	lib.Bubble(t, rep, func() {
		for c := 0; c < rep.N(4000, 20000); c++ {
			one(rep, c)
		}
	})
}

func one(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("case", c))
	R := []uint64{0, 1, 2, 2, 3, 3, 4, 5, 6, 7, 1 << 32, 1<<32 + 2, 1<<64 - 1}[r.IntN(13)]
	if r.IntN(8) > 0 && R > 7 {
		R = uint64(r.IntN(6))
	}
	enforce := r.IntN(6) > 0
	dt := lib.NewData(fmt.Sprint("r", c), func(x *pb.DataConfig) {
		x.ReplicationOnInsert, x.EnforceReplicationOnInsert = uint32(R), enforce
	})
	synctest.Wait()
	R = uint64(dt.GetConfig().ReplicationOnInsert)
	np := r.IntN(6)
	var mu sync.Mutex
	var log []event
	modes := make([]int, np)
	for p := 0; p < np; p++ {
		modes[p] = r.IntN(3)
		id := fmt.Sprint("p", p)
		slow := time.Duration(r.IntN(3)) * 100 * time.Millisecond
		dt.AddSource(&lib.Source{ID: id, OnInsert: func(d *pb.Datum, cfg *pb.InsertConfig) error {
			time.Sleep(slow)
			mu.Lock()
			defer mu.Unlock()
			ok := modes[p] == 0 || modes[p] == 2 && r.IntN(2) == 0
			log = append(log, event{id, lib.DatumID(d), cfg, ok})
			if !ok {
				return errors.New([]string{"Number of elements is over the target", "connection refused"}[p%2])
			}
			return nil
		}})
	}
	synctest.Wait()
	if r.IntN(60) == 0 { // a large member
		for i := 0; i < 300; i++ {
			dt.Insert(lib.Datum([]float32{float32(i), -1, -1}, "before", "", 1), &pb.InsertConfig{Count: 1})
		}
		dt.Process(true)
		time.Sleep(time.Minute)
		synctest.Wait()
		rep.Count("large_members", 1)
	}
	shared := &pb.InsertConfig{TTL: uint64(r.IntN(2) * 777)} // the caller reuses one config
	outcomes := ""
	version := dt.GetConfig().Version
	steps := 4 + r.IntN(5)
	for s := 0; s < steps; s++ {
		for p := range modes {
			if r.IntN(3) == 0 {
				mu.Lock()
				modes[p] = r.IntN(3)
				mu.Unlock()
			}
		}
		steady := 0
		for _, m := range modes {
			if m == 0 {
				steady++
			}
		}
		if r.IntN(6) == 0 { // the configuration changes
			version++
			R, enforce = uint64(r.IntN(6)), r.IntN(6) > 0
			next := proto.Clone(dt.GetConfig()).(*pb.DataConfig)
			next.Version, next.ReplicationOnInsert, next.EnforceReplicationOnInsert = version, uint32(R), enforce
			dt.Lock()
			dt.Config = next
			dt.Unlock()
			rep.Count("configuration_changes", 1)
		}
		d := lib.Datum([]float32{float32(r.IntN(4)), float32(s)}, fmt.Sprint("g", r.IntN(2)), fmt.Sprint("l", c, s), uint64(s))
		id := lib.DatumID(d)
		var cfg *pb.InsertConfig
		switch r.IntN(4) {
		case 0:
		case 1:
			cfg = &pb.InsertConfig{TTL: uint64(r.IntN(2)) * []uint64{60 + r.Uint64N(1000), 60 + r.Uint64N(1000), 40000 + r.Uint64N(40000), 1<<20 + 5, 1<<31 + 7, 1<<32 + 9, 1 << 40}[r.IntN(7)], Count: uint64(r.IntN(3))}
		default:
			cfg = shared
		}
		ttl, count := uint64(0), uint64(0)
		if cfg != nil {
			ttl, count = cfg.TTL, cfg.Count
		}
		mu.Lock()
		log = nil
		mu.Unlock()
		err := dt.Insert(lib.Clone(d), cfg)
		mu.Lock()
		ev := append([]event{}, log...)
		mu.Unlock()
		copies := uint64(0)
		stored := content(dt)[lib.KeyID(d.Key)] == lib.ValID(d.Value)
		if stored {
			copies++
		}
		seen := map[string]bool{}
		for _, e := range ev {
			if e.id != id {
				rep.Violate("case %d: peer %s received %s instead of %s", c, e.peer, e.id, id)
			}
			got := e.cfg.GetTTL()
			if got > ttl || got+2 < ttl || (ttl != 0) != (got != 0) {
				rep.Violate("case %d: time-to-live %d was replicated as %d", c, ttl, got)
			}
			if e.cfg.GetCount() == 0 {
				rep.Violate("case %d: a replica was sent as a client insert (hop count 0)", c)
			}
			if e.ok && !seen[e.peer] {
				copies++
				seen[e.peer] = true
			}
		}
		desc := fmt.Sprintf("case %d step %d: replication %d enforced %v, %d peers (%d surely accepting), hop count %d, copies %d, outcome %v", c, s, R, enforce, np, steady, count, copies, err)
		if cfg != nil && (cfg.TTL != ttl || cfg.Count != count) {
			rep.Violate("%s: the caller's config changed to %v", desc, cfg)
		}
		switch {
		case !enforce || count > 0:
			if len(ev) > 0 {
				rep.Violate("%s: forwarded to %d peers", desc, len(ev))
			}
			if err != nil || !stored {
				rep.Violate("%s: not stored", desc)
			}
		case err == nil && (copies < R || !stored):
			rep.Violate("%s: acknowledged with too few copies", desc)
		case err != nil && 1+uint64(steady) >= R:
			rep.Violate("%s: failed although enough peers accept", desc)
		case err != nil && copies >= R && stored:
			rep.Violate("%s: failed although there are enough copies", desc)
		}
		rep.Count("inserts", 1)
		rep.Count("replicas", int(copies))
		if err != nil {
			rep.Count("failed_inserts", 1)
		}
		if np > 0 && enforce {
			outcomes += fmt.Sprint(R, count, len(ev), copies, err == nil, ";")
		}
	}
	dt.Process(true) // rebalancing sends replicas, too
	synctest.Wait()
	time.Sleep(time.Second)
	mu.Lock()
	for _, e := range log {
		if e.cfg.GetCount() == 0 {
			rep.Violate("case %d: rebalancing sent an entry as a client insert (hop count 0)", c)
		}
	}
	for p := range modes {
		modes[p] = 0
	}
	mu.Unlock()
	dt.Close()
	rep.Case(outcomes)
	rep.Sample(outcomes)
}

type link struct {
	*data.Data
	id    string
	calls func(from, to int, count uint64)
	a, b  int
}

func (l *link) GetID() string { return l.id }
func (l *link) Insert(d *pb.Datum, cfg *pb.InsertConfig) error {
	l.calls(l.a, l.b, cfg.GetCount())
	return l.Data.Insert(lib.Clone(d), &pb.InsertConfig{TTL: cfg.GetTTL(), Count: cfg.GetCount()})
}

// TestMembers: several real members connected to each other; the number of real copies decides.
func TestMembers(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "replicated insert between members")
	lib.Bubble(t, rep, func() {
		for c := 0; c < rep.N(3000, 20000); c++ {
			r := rep.Rng(fmt.Sprint("members", c))
			nm := 1 + r.IntN(5)
			R := uint32(r.IntN(6))
			var ms []*data.Data
			full := make([]bool, nm)
			for m := 0; m < nm; m++ {
				full[m] = m > 0 && r.IntN(3) == 0
				ms = append(ms, lib.NewData(fmt.Sprint("m", c, "-", m), func(x *pb.DataConfig) {
					x.ReplicationOnInsert, x.EnforceReplicationOnInsert = R, true
					if full[m] {
						x.TargetN, x.NoTarget = 0, false
					}
				}))
			}
			synctest.Wait()
			sends := 0
			for a := range ms {
				for b := range ms {
					if a != b {
						ms[a].AddSource(&link{Data: ms[b], id: fmt.Sprint("m", b), a: a, b: b, calls: func(from, to int, count uint64) { sends++ }})
					}
				}
			}
			synctest.Wait()
			for s := 0; s < 6; s++ {
				at := r.IntN(nm)
				d := lib.Datum([]float32{float32(s), float32(c % 10)}, "g", fmt.Sprint(s), uint64(s))
				sends = 0
				err := ms[at].Insert(lib.Clone(d), &pb.InsertConfig{TTL: uint64(r.IntN(2) * 500)})
				copies, room := 0, 0
				for m := range ms {
					if content(ms[m])[lib.KeyID(d.Key)] == lib.ValID(d.Value) {
						copies++
					}
					if !full[m] {
						room++
					}
				}
				desc := fmt.Sprintf("members %d: %d members (%d with room), replication %d, insert at %d (full %v): outcome %v, %d copies, %d sends", c, nm, room, R, at, full[at], err, copies, sends)
				if err == nil && copies < int(R) {
					rep.Violate("%s: too few copies", desc)
				}
				if err == nil && copies == 0 {
					rep.Violate("%s: no copy", desc)
				}
				if err != nil && !full[at] && room >= int(R) {
					rep.Violate("%s: failed although enough members have room", desc)
				}
				if sends > nm-1 {
					rep.Violate("%s: replicas were forwarded again", desc)
				}
				rep.Count("member_inserts", 1)
				if nm > 1 {
					rep.Case(fmt.Sprint(nm, room, R, at, full, err == nil, copies, sends))
				} else {
					rep.Case("")
				}
			}
		}
	})
}
