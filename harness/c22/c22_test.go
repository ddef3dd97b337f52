package c22

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/lib"

	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
)

// stream is a scripted server stream: it records what is sent, how, and when.
type stream struct {
	grpc.ServerStream
	mu       sync.Mutex
	pace     func(i int) // consumer delay before the i-th entry is taken
	failAt   int         // -1: never
	got      []string
	busy     int32
	overlap  atomic.Bool
	finished atomic.Bool
	late     atomic.Bool
	failed   bool
}

func (s *stream) Context() context.Context { return context.Background() }
func (s *stream) Send(d *pb.Datum) error {
	if s.finished.Load() {
		s.late.Store(true)
	}
	if atomic.AddInt32(&s.busy, 1) > 1 {
		s.overlap.Store(true)
	}
	defer atomic.AddInt32(&s.busy, -1)
	s.mu.Lock()
	i := len(s.got)
	s.mu.Unlock()
	if s.pace != nil {
		s.pace(i)
	}
	if s.finished.Load() {
		s.late.Store(true)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.failAt >= 0 && i >= s.failAt {
		s.failed = true
		return errors.New("transport is closing")
	}
	s.got = append(s.got, lib.DatumID(d))
	return nil
}

// content tracks which versions of each key were ever stored and which keys have to be delivered.
type content struct {
	mu      sync.Mutex
	ever    map[string]map[string]bool // key -> acceptable datum ids
	keyOf   map[string]string
	must    map[string]bool // keys that stay live throughout
	mustNot map[string]bool // datum ids that were gone before the request
}

func newContent() *content {
	return &content{ever: map[string]map[string]bool{}, keyOf: map[string]string{}, must: map[string]bool{}, mustNot: map[string]bool{}}
}
func (c *content) store(d *pb.Datum) {
	c.mu.Lock()
	defer c.mu.Unlock()
	k, id := lib.KeyID(d.Key), lib.DatumID(d)
	if c.ever[k] == nil {
		c.ever[k] = map[string]bool{}
	}
	c.ever[k][id] = true
	c.keyOf[id] = k
	delete(c.mustNot, id)
}

func (c *content) judge(rep *lib.Rep, what string, got []string, complete bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	seen := map[string]int{}
	for _, id := range got {
		k, ok := c.keyOf[id]
		if !ok {
			rep.Violate("%s: delivered an entry that was never stored: %.200s", what, id)
			return
		}
		if c.mustNot[id] {
			rep.Violate("%s: delivered an entry that was gone before the request: %.200s", what, id)
			return
		}
		if seen[k]++; seen[k] > 1 {
			rep.Violate("%s: delivered twice: %.200s", what, id)
			return
		}
	}
	if !complete {
		return
	}
	miss := 0
	example := ""
	for k := range c.must {
		if seen[k] == 0 {
			miss++
			example = k
		}
	}
	if miss > 0 {
		rep.Violate("%s: %d of %d entries that were live throughout were not delivered, e.g. %.200s", what, miss, len(c.must), example)
	}
}

func datum(r *rand.Rand, i int, v uint64) *pb.Datum {
	d := lib.Datum([]float32{float32(i), float32(i % 7), 1}[:1+i%3], "", "", v)
	d.Key.Feature[0] = float32(i)
	if i%5 == 0 {
		d.Key.GroupLabel = []byte(fmt.Sprint("g", i%11))
	}
	d.Key.Size1 = uint32(i % 4)
	n := r.IntN(12)
	if r.IntN(40) == 0 {
		n = 5000
	}
	if r.IntN(1500) == 0 {
		n = 70000
	}
	d.Value.Label = make([]byte, n)
	for j := range d.Value.Label {
		d.Value.Label[j] = byte(r.Uint32())
	}
	return d
}

func size(r *rand.Rand) int {
	if r.IntN(50) == 0 {
		return 5000 + r.IntN(8000)
	}
	return []int{0, 1, 2, r.IntN(90), 99, 100, 101, 102, 100 + r.IntN(200), 300 + r.IntN(1500)}[r.IntN(10)]
}

// TestVirtual: consumers of any pace, down to minutes per entry, with entries expiring before and during the request.
func TestVirtual(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "stream")
	lib.Bubble(t, rep, func() {
		n := node.NewNode(&node.NodeConfig{Port: 1, Folder: lib.TempDir("node")})
		n.PeriodicTicker.Stop()
		for c := 0; c < rep.N(300, 600); c++ {
			virtual(rep, n, c)
		}
	})
}

func virtual(rep *lib.Rep, n *node.Node, c int) {
	r := rep.Rng(fmt.Sprint("virtual", c))
	name := fmt.Sprint("set", c)
	d, err := n.Dataset.GetOrCreateIfNotExists(&pb.DataConfig{Name: name, NoTarget: true, Version: 1})
	if err != nil {
		rep.Inconclusive("%v", err)
	}
	synctest.Wait()
	defer n.Dataset.Delete(name)
	ct := newContent()
	total := size(r)
	for i := 0; i < total; i++ {
		x := datum(r, i, 1)
		ttl := uint64(0)
		kind := r.IntN(10)
		switch kind {
		case 0:
			ttl = 5 // gone before
		case 1:
			ttl = 20 + uint64(r.IntN(4000)) // may go during the request
		case 2:
			ttl = 365 * 24 * 3600
		}
		ct.store(x)
		id, k := lib.DatumID(x), lib.KeyID(x.Key)
		if err := d.Insert(x, &pb.InsertConfig{TTL: ttl}); err != nil {
			rep.Violate("insert: %v", err)
			return
		}
		if kind == 0 {
			ct.mustNot[id] = true
		} else if kind != 1 {
			ct.must[k] = true
		}
		if r.IntN(12) == 0 { // overwrite before the request: only the newest version is stored
			y := datum(r, i, 2)
			y.Key = x.Key
			y = lib.Clone(y)
			ct.store(y)
			ct.mustNot[id] = true
			ct.must[k] = true
			d.Insert(y, nil)
		} else if r.IntN(12) == 0 {
			d.Delete(x)
			ct.mustNot[id] = true
			delete(ct.must, k)
		}
	}
	if r.IntN(4) == 0 { // the target is lowered below what is stored
		if err := n.Dataset.CreateIfNotExists(&pb.DataConfig{Name: name, TargetN: uint64(r.IntN(total + 1)), Version: 2, TargetUtilization: r.Float64()}); err != nil {
			rep.Violate("update: %v", err)
		}
		d.Process(true)
	}
	if r.IntN(3) == 0 {
		d.Process(true)
	}
	time.Sleep(10 * time.Second)
	s := &stream{failAt: -1}
	paceMs := []int{0, 1, 50, 1000, 60000}[r.IntN(5)]
	if total > 300 && paceMs > 1000 {
		paceMs = 1000
	}
	s.pace = func(i int) {
		if paceMs > 0 {
			time.Sleep(time.Duration(1+i%5*paceMs) * time.Millisecond / 2)
		}
	}
	if r.IntN(6) == 0 {
		s.failAt = r.IntN(total + 1)
	}
	what := fmt.Sprintf("case %d (%d entries, %d ms per entry, fails at %d)", c, total, paceMs, s.failAt)
	var rerr error
	done := lib.Within(240*time.Hour, func() { rerr = n.DataStream(&pb.GetDataRequest{Name: name}, s) })
	s.finished.Store(true)
	if !done {
		rep.Violate("%s: the request does not end", what)
		return
	}
	time.Sleep(10 * time.Minute)
	if s.overlap.Load() {
		rep.Violate("%s: two entries were sent at the same time on one stream", what)
	}
	if s.late.Load() {
		rep.Violate("%s: entries were sent after the request had ended", what)
	}
	if s.failed != (rerr != nil) {
		rep.Violate("%s: sending failed: %v, result of the request: %v", what, s.failed, rerr)
	}
	ct.judge(rep, what, s.got, !s.failed)
	rep.Count("entries_streamed", len(s.got))
	sig := ""
	if total > 1 {
		sig = fmt.Sprint(total, paceMs, s.failAt, len(s.got))
	}
	rep.Case(sig)
	rep.Sample(fmt.Sprintf("%s: %d delivered, %d had to be", what, len(s.got), len(ct.must)))
}

// TestConcurrent: streams while other clients insert, overwrite, delete, refresh and stream.
func TestConcurrent(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "stream")
	os.Stdout, _ = os.OpenFile("/dev/null", os.O_WRONLY, 0)
	l, err := lib.Listen()
	if err != nil {
		rep.Inconclusive("%v", err)
	}
	port := l.Addr().(*net.TCPAddr).Port
	n := node.NewNode(&node.NodeConfig{Port: uint32(port), Folder: lib.TempDir("node"), AdvertisedIds: []string{fmt.Sprintf("localhost:%d", port)}})
	srv := grpc.NewServer()
	pb.RegisterVeriServiceServer(srv, n)
	go srv.Serve(l)
	conn, err := grpc.Dial(fmt.Sprintf("localhost:%d", port), grpc.WithInsecure(), grpc.WithInitialWindowSize(65535), grpc.WithInitialConnWindowSize(65535))
	if err != nil {
		rep.Inconclusive("%v", err)
	}
	client := pb.NewVeriServiceClient(conn)
	cases := rep.N(150, 300)
	if rep.Stage == "race" {
		cases = rep.N(40, 100)
	}
	for c := 0; c < cases; c++ {
		concurrent(rep, n, client, c)
	}
	rep.Done()
}

func concurrent(rep *lib.Rep, n *node.Node, client pb.VeriServiceClient, c int) {
	r := rep.Rng(fmt.Sprint("concurrent", c))
	name := fmt.Sprint("set", c)
	d, err := n.Dataset.GetOrCreateIfNotExists(&pb.DataConfig{Name: name, NoTarget: true, Version: 1})
	if err != nil {
		rep.Inconclusive("%v", err)
	}
	defer n.Dataset.Delete(name)
	ct := newContent()
	total := size(r)
	if rep.Stage == "race" {
		total = min(total, 400)
	}
	for i := 0; i < total; i++ {
		x := datum(r, i, 1)
		ct.store(x)
		ct.must[lib.KeyID(x.Key)] = true
		if err := d.Insert(x, nil); err != nil {
			rep.Violate("insert: %v", err)
			return
		}
	}
	stop := make(chan struct{})
	var bg sync.WaitGroup
	loop := func(f func(r *rand.Rand, i int)) {
		br := rand.New(rand.NewPCG(rep.Seed, r.Uint64()))
		bg.Add(1)
		go func() {
			defer bg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				f(br, i)
				time.Sleep(time.Duration(br.IntN(200)) * time.Microsecond)
			}
		}()
	}
	var newKeys atomic.Int64
	if r.IntN(4) > 0 { // new keys, some of them deleted again
		loop(func(r *rand.Rand, i int) {
			x := datum(r, 100000+int(newKeys.Add(1)), 1)
			ct.store(x)
			d.Insert(lib.Clone(x), nil)
			if r.IntN(2) == 0 {
				d.Delete(x)
			}
		})
	}
	if r.IntN(4) > 0 && total > 0 { // overwrites of what is there
		loop(func(r *rand.Rand, i int) {
			x := datum(r, r.IntN(total), uint64(2+i))
			ct.store(x)
			d.Insert(lib.Clone(x), nil)
		})
	}
	if r.IntN(2) == 0 {
		loop(func(r *rand.Rand, i int) { d.Process(true); time.Sleep(time.Millisecond) })
	}
	k := 1 + r.IntN(4)
	var wg sync.WaitGroup
	delivered := int64(0)
	for j := 0; j < k; j++ {
		cr := rand.New(rand.NewPCG(rep.Seed, r.Uint64()))
		mode := r.IntN(4)
		every := 1 + r.IntN(60)
		pause := time.Duration(r.IntN(3)) * time.Millisecond
		what := fmt.Sprintf("case %d reader %d (%d entries, mode %d)", c, j, total, mode)
		wg.Add(1)
		go func() {
			defer wg.Done()
			switch mode {
			case 0: // the data set itself
				ch := make(chan *pb.Datum, cr.IntN(3))
				res := make(chan error, 1)
				go func() { err := d.StreamAll(ch); close(ch); res <- err }()
				var got []string
				for x := range ch {
					got = append(got, lib.DatumID(x))
					if len(got)%every == 0 {
						time.Sleep(pause)
					}
				}
				if err := <-res; err != nil {
					rep.Violate("%s: %v", what, err)
				}
				ct.judge(rep, what, got, true)
				atomic.AddInt64(&delivered, int64(len(got)))
			case 1: // scripted stream
				s := &stream{failAt: -1, pace: func(i int) {
					if i%every == 0 {
						time.Sleep(pause)
					}
				}}
				err := n.DataStream(&pb.GetDataRequest{Name: name}, s)
				s.finished.Store(true)
				if err != nil {
					rep.Violate("%s: %v", what, err)
				}
				s.mu.Lock()
				got := append([]string(nil), s.got...)
				s.mu.Unlock()
				ct.judge(rep, what, got, true)
				time.Sleep(2 * time.Millisecond)
				if s.late.Load() || s.overlap.Load() {
					rep.Violate("%s: sent after the end %v, sent concurrently %v", what, s.late.Load(), s.overlap.Load())
				}
				atomic.AddInt64(&delivered, int64(len(got)))
			default: // over the network
				ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
				defer cancel()
				st, err := client.DataStream(ctx, &pb.GetDataRequest{Name: name})
				if err != nil {
					rep.Violate("%s: %v", what, err)
					return
				}
				abandon := mode == 3 && cr.IntN(2) == 0
				var got []string
				for {
					x, err := st.Recv()
					if err == io.EOF {
						break
					}
					if err != nil {
						rep.Violate("%s: after %d entries: %v", what, len(got), err)
						return
					}
					got = append(got, lib.DatumID(x))
					if len(got)%every == 0 {
						time.Sleep(pause)
					}
					if abandon && len(got) > total/3 {
						rep.Count("abandoned_streams", 1)
						return
					}
				}
				ct.judge(rep, what, got, true)
				atomic.AddInt64(&delivered, int64(len(got)))
			}
		}()
	}
	wg.Wait()
	close(stop)
	bg.Wait()
	rep.Count("entries_streamed", int(delivered))
	rep.Count("keys_added_concurrently", int(newKeys.Load()))
	rep.Count("readers", k)
	sig := ""
	if total > 1 {
		sig = fmt.Sprint(c, total, k, delivered)
	}
	rep.Case(sig)
	rep.Sample(fmt.Sprintf("%d entries, %d readers, %d keys added meanwhile, %d delivered", total, k, newKeys.Load(), delivered))
}

var _ = data.NewData
