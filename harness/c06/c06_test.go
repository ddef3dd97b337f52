package c06

import (
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/lib"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

func content(dt *data.Data) map[string]string {
	m := map[string]string{}
	ch := make(chan *pb.Datum, 10)
	go func() { dt.StreamAll(ch); close(ch) }()
	for d := range ch {
		m[lib.KeyID(d.Key)] = lib.ValID(d.Value)
	}
	return m
}

func same(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// TestAdmission runs in virtual time, so the background refresh happens only during waits.
func TestAdmission(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "capacity")
	lib.Bubble(t, rep, func() {
		for c := 0; c < rep.N(300, 3000); c++ {
			one(rep, c)
		}
	})
}

func one(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("case", c))
	targets := []uint64{0, 1, 2, 3, 5, 8, 20, 100, 1 << 40, 1<<64 - 1}
	cfg := &pb.DataConfig{Name: "cap", Version: 1, TargetN: targets[r.IntN(len(targets))], NoTarget: r.IntN(4) == 0, TargetUtilization: r.Float64() * 1.2}
	ds := data.NewDataset(lib.TempDir("ds"))
	dt, err := ds.GetOrCreateIfNotExists(cfg)
	if err != nil {
		rep.Violate("case %d: create: %v", c, err)
		return
	}
	synctest.Wait() // the first background refresh
	defer dt.Close()
	forwarded := 0
	if r.IntN(3) == 0 { // a peer, which must not see refused entries
		dt.AddSource(&lib.Source{ID: "peer", OnInsert: func(*pb.Datum, *pb.InsertConfig) error { forwarded++; return nil }})
		cfg.EnforceReplicationOnInsert, cfg.ReplicationOnInsert = true, uint32(r.IntN(3))
	}
	model := content(dt)
	accepted, refused, sig := 0, 0, ""
	for s, k := 0, 30+r.IntN(60); s < k; s++ {
		switch x := r.IntN(20); {
		case x < 13:
			d := lib.Datum([]float32{float32(r.IntN(30)), 1}, fmt.Sprint("g", r.IntN(2)), fmt.Sprint("l", s), uint64(s))
			if r.IntN(25) == 0 { // large, and unusual but valid
				switch r.IntN(6) {
				case 0:
					d.Value.Label = make([]byte, 70000)
				case 1:
					d.Key.GroupLabel = make([]byte, 70000)
				case 2:
					d.Key.Feature = make([]float32, 5000)
				case 3:
					d.Key.Feature = nil
				case 4:
					d.Value.Label = nil
					d.Value.Version = 1<<64 - 1
				case 5:
					d.Key.Dim1, d.Key.Dim2, d.Key.Size1, d.Key.Size2 = 0, 1<<32-1, 7, 1<<32-1
				}
			}
			if r.IntN(15) == 0 {
				d.Value = nil
			}
			if r.IntN(15) == 0 {
				d.Key = nil
			}
			valid := d.Key != nil && d.Value != nil
			n := dt.GetDataInfo().N
			full := !cfg.NoTarget && n >= cfg.TargetN
			fw := forwarded
			id, val := lib.KeyID(d.Key), lib.ValID(d.Value)
			var ic *pb.InsertConfig
			if r.IntN(3) == 0 {
				ic = &pb.InsertConfig{Count: uint64(r.IntN(3)), TTL: uint64(r.IntN(2) * 1000)}
			}
			err := dt.Insert(lib.Clone(d), ic)
			m := dt.GetDataInfo().N
			fullAfter := !cfg.NoTarget && m >= cfg.TargetN
			switch {
			case full && fullAfter && err == nil:
				rep.Violate("case %d step %d: insert accepted with %d of %d entries", c, s, n, cfg.TargetN)
				return
			case !full && !fullAfter && valid && err != nil:
				rep.Violate("case %d step %d: insert refused (%v) with %d entries, target %d, no target %v", c, s, err, n, cfg.TargetN, cfg.NoTarget)
				return
			case !valid && err == nil:
				rep.Violate("case %d step %d: insert without key or value accepted", c, s)
				return
			}
			if err == nil {
				model[id] = val
				accepted++
			} else {
				refused++
				if forwarded != fw {
					rep.Violate("case %d step %d: refused insert was sent to a peer", c, s)
					return
				}
			}
			if got := content(dt); !same(got, model) {
				rep.Violate("case %d step %d: after an insert with outcome %v the content is %v instead of %v", c, s, err, got, model)
				return
			}
			sig += fmt.Sprint(err == nil)[:1]
		case x < 17:
			dt.Process(true)
			synctest.Wait()                                // transfers go on in the background
			if got := content(dt); len(got) < len(model) { // moved to the peer, which acknowledged
				for k := range model {
					if _, ok := got[k]; !ok && forwarded > 0 {
						delete(model, k)
					}
				}
			}
			sig += "p"
		case x == 17:
			for k := range model {
				_ = k
			}
			d := lib.Datum([]float32{float32(r.IntN(30)), 1}, fmt.Sprint("g", r.IntN(2)), "", 0)
			dt.Delete(d)
			delete(model, lib.KeyID(d.Key))
			sig += "d"
		case x == 18: // new configuration with a higher version
			n := &pb.DataConfig{Name: "cap", Version: cfg.Version + 1, TargetN: targets[r.IntN(len(targets))], NoTarget: r.IntN(4) == 0, TargetUtilization: cfg.TargetUtilization,
				EnforceReplicationOnInsert: cfg.EnforceReplicationOnInsert, ReplicationOnInsert: cfg.ReplicationOnInsert}
			if err := ds.CreateIfNotExists(n); err != nil {
				rep.Violate("case %d: update: %v", c, err)
			}
			cfg = n
			sig += fmt.Sprint("c", n.TargetN)
		default:
			if forwarded == 0 {
				time.Sleep(time.Duration(r.IntN(90)) * time.Second)
				synctest.Wait() // a refresh may be due at this very instant
				model = content(dt)
			}
			sig += "s"
		}
	}
	rep.Count("accepted", accepted)
	rep.Count("refused", refused)
	if accepted > 0 && refused > 0 {
		rep.Case(sig)
		rep.Sample(sig)
	} else {
		rep.Case("")
	}
}
