package c04

import (
	"fmt"
	"math"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"verif/harness/lib"

	"github.com/anishathalye/porcupine"
	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

type in struct {
	op  byte // i(nsert) d(elete) r(ead)
	val string
}

// one register per key; "" is absent
var model = porcupine.Model{
	Init: func() interface{} { return "" },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		i := input.(in)
		switch i.op {
		case 'i':
			return true, i.val
		case 'd':
			return true, ""
		}
		return output.(string) == state.(string), state
	},
	Equal: func(a, b interface{}) bool { return a.(string) == b.(string) },
	DescribeOperation: func(input, output interface{}) string {
		i := input.(in)
		if i.op == 'r' {
			return fmt.Sprintf("read -> %q", output)
		}
		return fmt.Sprintf("%c %q", i.op, i.val)
	},
}

// keys that differ from each other in one field, in a way that is easy to confuse
func family(r *rand.Rand) []*pb.DatumKey {
	base := func() *pb.DatumKey {
		return &pb.DatumKey{Feature: []float32{1, 2, 3}, Dim1: 3, GroupLabel: []byte("g")}
	}
	mods := []func(k *pb.DatumKey){
		func(k *pb.DatumKey) {},
		func(k *pb.DatumKey) { k.Feature = []float32{1, 2, 3.0000002} },
		func(k *pb.DatumKey) { k.Feature = []float32{1, 2} },
		func(k *pb.DatumKey) { k.Feature = []float32{1, 2, 3, 0} },
		func(k *pb.DatumKey) { k.Feature = []float32{2, 1, 3} },
		func(k *pb.DatumKey) { k.GroupLabel = nil },
		func(k *pb.DatumKey) { k.GroupLabel = []byte("h") },
		func(k *pb.DatumKey) { k.GroupLabel = []byte("gg") },
		func(k *pb.DatumKey) { k.GroupLabel = []byte("g\x00") },
		func(k *pb.DatumKey) { k.Size1 = 1 },
		func(k *pb.DatumKey) { k.Size2 = 1 },
		func(k *pb.DatumKey) { k.Size1 = 1; k.Size2 = 1 },
		func(k *pb.DatumKey) { k.Dim1 = 4 },
		func(k *pb.DatumKey) { k.Dim2 = 3 },
		func(k *pb.DatumKey) { k.Dim1 = 0x03000000 },
		func(k *pb.DatumKey) { k.Size1 = 1 << 31 },
		func(k *pb.DatumKey) { k.Feature = []float32{0, 2, 3} },
		func(k *pb.DatumKey) { k.Feature = []float32{float32(math.Copysign(0, -1)), 2, 3} },
		func(k *pb.DatumKey) { k.GroupLabel = []byte("g\n") },
		func(k *pb.DatumKey) { k.GroupLabel = []byte(" g") },
		func(k *pb.DatumKey) { k.GroupLabel = []byte("G") },
		func(k *pb.DatumKey) { k.GroupLabel = make([]byte, 127) },
		func(k *pb.DatumKey) { k.GroupLabel = make([]byte, 128) },
	}
	n := 2 + r.IntN(5)
	var out []*pb.DatumKey
	for _, i := range r.Perm(len(mods))[:n] {
		k := base()
		mods[i](k)
		out = append(out, k)
	}
	return out
}

type rec struct {
	mu  sync.Mutex
	ops map[string][]porcupine.Operation
}

func (h *rec) add(key string, client int, i in, out string, call, ret int64) {
	h.mu.Lock()
	h.ops[key] = append(h.ops[key], porcupine.Operation{ClientId: client, Input: i, Call: call, Output: out, Return: ret})
	h.mu.Unlock()
}

func TestHistories(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "concurrent inserts, deletes and reads")
	rounds := rep.N(8000, 120000)
	if rep.Stage == "race" {
		rounds = rep.N(1500, 20000)
	}
	for c := 0; c < rounds; c++ {
		round(rep, c)
	}
	rep.Done()
}

func round(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("round", c))
	dt := lib.NewData("h", nil)
	defer dt.Close()
	keys := family(r)
	ids := make([]string, len(keys))
	for i, k := range keys {
		ids[i] = lib.KeyID(k)
	}
	h := &rec{ops: map[string][]porcupine.Operation{}}
	clients := 2 + r.IntN(5)
	per := 6 + r.IntN(10)
	start := time.Now()
	now := func() int64 { return int64(time.Since(start)) }
	var wg, bg sync.WaitGroup
	var stop atomic.Bool
	if r.IntN(2) == 0 { // background refreshes
		bg.Add(1)
		go func() {
			defer bg.Done()
			for !stop.Load() {
				dt.Process(true)
			}
		}()
	}
	var gate sync.WaitGroup
	gate.Add(clients)
	wide := r.IntN(2) == 0
	for cl := 0; cl < clients; cl++ {
		wg.Add(1)
		cr := rand.New(rand.NewPCG(r.Uint64(), r.Uint64()))
		go func() {
			defer wg.Done()
			gate.Done()
			gate.Wait()
			for s := 0; s < per; s++ {
				ki := cr.IntN(len(keys))
				if !wide {
					ki = 0
				}
				k := keys[ki]
				switch x := cr.IntN(10); {
				case x < 4:
					ver := uint64(c)<<32 | uint64(cl)<<16 | uint64(s)
					if cr.IntN(4) == 0 {
						ver = uint64(cr.IntN(2)) // equal values
					}
					label := fmt.Sprint("l", ver)
					switch cr.IntN(8) {
					case 0, 1: // the same label with different versions
						label = "same"
					case 2: // the same version with different labels
						ver = 7
					case 3: // no label, or a very long one
						label = ""
						if cr.IntN(300) == 0 {
							label = fmt.Sprintf("%070000d", s)
						}
					}
					d := lib.Clone(&pb.Datum{Key: k, Value: &pb.DatumValue{Version: ver, Label: []byte(label)}})
					v := lib.ValID(d.Value)
					var cfg *pb.InsertConfig
					if cr.IntN(3) == 0 {
						cfg = &pb.InsertConfig{TTL: uint64(3600 + cr.IntN(2000)*10)}
					}
					t0 := now()
					err := dt.Insert(d, cfg)
					t1 := now()
					if err != nil {
						rep.Violate("round %d: insert failed: %v", c, err)
					} else {
						h.add(ids[ki], cl, in{'i', v}, "", t0, t1)
					}
				case x < 6:
					d := lib.Clone(&pb.Datum{Key: k})
					switch cr.IntN(4) { // whatever value is named, the key is deleted
					case 0:
						d.Value = &pb.DatumValue{Version: uint64(cr.IntN(3))}
					case 1:
						d.Value = &pb.DatumValue{Version: 1 << 62, Label: []byte("other")}
					}
					t0 := now()
					err := dt.Delete(d)
					t1 := now()
					if err != nil {
						rep.Violate("round %d: delete failed: %v", c, err)
					} else {
						h.add(ids[ki], cl, in{'d', ""}, "", t0, t1)
					}
				default:
					read(rep, c, dt, cr.IntN(3), keys, ids, h, cl, now)
				}
				if cr.IntN(3) == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	wg.Wait()
	stop.Store(true)
	bg.Wait()
	for m := 0; m < 3; m++ {
		read(rep, c, dt, m, keys, ids, h, 99, now)
	}
	for id, ops := range h.ops {
		res, _ := porcupine.CheckOperationsVerbose(model, ops, 30*time.Second)
		overlap := 0
		for i := range ops {
			for j := range ops {
				if i != j && ops[i].Call < ops[j].Call && ops[j].Call < ops[i].Return && (ops[i].Input.(in).op != 'r' || ops[j].Input.(in).op != 'r') {
					overlap++
				}
			}
		}
		rep.Count("operations", len(ops))
		rep.Count("overlapping_conflicting_pairs", overlap)
		switch res {
		case porcupine.Illegal:
			s := ""
			for _, o := range ops {
				s += fmt.Sprintf("[%d..%d c%d %s] ", o.Call, o.Return, o.ClientId, model.DescribeOperation(o.Input, o.Output))
			}
			rep.Violate("round %d: history of key %s is not linearizable: %.3500s", c, id, s)
		case porcupine.Unknown:
			rep.Count("undecided_histories", 1)
		}
		sig := ""
		if len(ops) > 3 && overlap > 0 {
			sig = fmt.Sprint(c, id, len(ops), overlap)
			rep.Sample(fmt.Sprintf("round %d key %s: %d operations of %d clients, %d overlapping conflicting pairs", c, id, len(ops), clients, overlap))
		}
		rep.Case(sig)
	}
}

// read takes one snapshot and records it as one read per key of the family
func read(rep *lib.Rep, c int, dt *data.Data, how int, keys []*pb.DatumKey, ids []string, h *rec, cl int, now func() int64) {
	var got []*pb.Datum
	q := lib.Datum([]float32{1, 2, 3}, "q", "", 0)
	cfg := &pb.SearchConfig{ScoreFuncName: "VectorDistance", Limit: 1000, Timeout: 600000}
	t0 := now()
	switch how {
	case 0:
		for _, x := range dt.Search(q, lib.Config(cfg), nil).List {
			got = append(got, x.Datum)
		}
	case 1:
		ch := make(chan *pb.Datum, 1)
		go func() { dt.StreamAll(ch); close(ch) }()
		for d := range ch {
			got = append(got, d)
		}
	case 2:
		res, err := dt.MultiAggregatedSearch([]*pb.Datum{q}, lib.Config(cfg), nil)
		if err != nil {
			rep.Violate("round %d: search failed: %v", c, err)
			return
		}
		for _, x := range res {
			got = append(got, x.Datum)
		}
	}
	t1 := now()
	vals := map[string]string{}
	for _, d := range got {
		id := lib.KeyID(d.Key)
		if _, dup := vals[id]; dup {
			rep.Violate("round %d: one read (kind %d) returned key %s twice", c, how, id)
		}
		vals[id] = lib.ValID(d.Value)
	}
	known := map[string]bool{}
	for _, id := range ids {
		known[id] = true
		h.add(id, cl, in{'r', ""}, vals[id], t0, t1)
	}
	for id := range vals {
		if !known[id] {
			rep.Violate("round %d: a read returned key %s that was never inserted", c, id)
		}
	}
}
