package c23

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	_ "unsafe" // linkname

	"verif/harness/lib"
	"verif/harness/native"

	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	"github.com/bgokden/veri/util"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
)

// The cache of connections reads the time through this variable of its library (made for tests).
//
//go:linkname cacheTime github.com/goburrow/cache.currentTime
var cacheTime func() time.Time

var cacheOffset atomic.Int64

// usage is what the process holds once everything in flight has ended.
type usage struct {
	goroutines, fds, files, maps int
	native                       int64
}

func measure() usage {
	runtime.GC()
	runtime.GC()
	u := usage{goroutines: runtime.NumGoroutine(), native: native.Live()}
	if l, err := os.ReadDir("/proc/self/fd"); err == nil {
		u.fds = len(l)
	}
	if l, err := os.ReadDir(os.TempDir()); err == nil {
		u.files = len(l)
	}
	if b, err := os.ReadFile("/proc/self/maps"); err == nil {
		u.maps = strings.Count(string(b), os.TempDir())
	}
	return u
}

// over names the resources that are above the bound.
func (u usage) over(b usage, slack int, nslack int64) []string {
	var l []string
	chk := func(name string, have, base int) {
		if have > base+slack {
			l = append(l, fmt.Sprintf("%s %d -> %d", name, base, have))
		}
	}
	chk("goroutines", u.goroutines, b.goroutines)
	chk("descriptors", u.fds, b.fds)
	chk("temporary files", u.files, b.files)
	chk("mapped index files", u.maps, b.maps)
	if u.native > b.native+nslack {
		l = append(l, fmt.Sprintf("native bytes %d -> %d", b.native, u.native))
	}
	return l
}

// settle waits until the usage is within the bound, or for a time far above what ending operations need.
func settle(b usage, slack int, nslack int64) (usage, []string) {
	var u usage
	var l []string
	for end := time.Now().Add(45 * time.Second); ; {
		u = measure()
		if l = u.over(b, slack, nslack); len(l) == 0 || time.Now().After(end) {
			return u, l
		}
		time.Sleep(200 * time.Millisecond)
	}
}

// quiet waits until two measurements in a row agree, which gives the base line after the warm-up.
func quiet() usage {
	u := measure()
	for i := 0; i < 60; i++ {
		time.Sleep(300 * time.Millisecond)
		v := measure()
		same := v.goroutines == u.goroutines && v.fds == u.fds && v.files == u.files
		u = v
		if same && i > 6 {
			break
		}
	}
	return u
}

type workload struct {
	name  string
	batch int
	par   int
	op    func(r *rand.Rand, i int)
	lsan  bool // cheap enough and useful under the leak sanitizer
	bound int  // of descriptors and goroutines, when it is not the usual one
	// bytes per operation below which native growth is not judged
	slack int64
}

type env struct {
	rep      *lib.Rep
	n        *node.Node
	peer     *node.Node
	cl       pb.VeriServiceClient
	busy     *data.Data
	slow     *data.Data
	plain    *data.Data
	addr     string
	peerAddr string
	uniq     atomic.Int64
}

func listen(rep *lib.Rep) (*node.Node, string, *grpc.Server) {
	l, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", lib.FreePort())) // on all of 127.0.0.0/8
	if err != nil {
		rep.Inconclusive("%v", err)
	}
	port := l.Addr().(*net.TCPAddr).Port
	addr := fmt.Sprintf("localhost:%d", port)
	n := node.NewNode(&node.NodeConfig{Port: uint32(port), Folder: lib.TempDir("node"), AdvertisedIds: []string{addr}})
	n.PeriodicTicker.Stop()
	srv := grpc.NewServer()
	pb.RegisterVeriServiceServer(srv, n)
	go srv.Serve(l)
	return n, addr, srv
}

func fill(r *rand.Rand, d *data.Data, n, dim int) {
	for i := 0; i < n; i++ {
		d.Insert(lib.Datum(lib.GenVec(r, dim, 1), fmt.Sprint("g", i%5), fmt.Sprint("e", i), 1), nil)
	}
}

func newEnv(rep *lib.Rep) *env {
	r := rep.Rng("env")
	e := &env{rep: rep}
	e.n, e.addr, _ = listen(rep)
	e.peer, e.peerAddr, _ = listen(rep)
	if _, err := e.peer.Dataset.GetOrCreateIfNotExists(&pb.DataConfig{Name: "far", NoTarget: true, Version: 1}); err != nil {
		rep.Inconclusive("%v", err)
	}
	if full, err := e.peer.Dataset.GetOrCreateIfNotExists(&pb.DataConfig{Name: "full", TargetN: 1, Version: 1}); err == nil {
		full.Insert(lib.Datum([]float32{1}, "", "f", 1), nil)
		full.Process(true)
	}
	conn, err := grpc.Dial(e.addr, grpc.WithInsecure())
	if err != nil {
		rep.Inconclusive("%v", err)
	}
	e.cl = pb.NewVeriServiceClient(conn)
	mk := func(name string) *data.Data {
		d, err := e.n.Dataset.GetOrCreateIfNotExists(&pb.DataConfig{Name: name, NoTarget: true, Version: 1})
		if err != nil {
			rep.Inconclusive("%v", err)
		}
		fill(r, d, 200, 8)
		d.Process(true)
		return d
	}
	e.busy, e.slow, e.plain = mk("busy"), mk("slow"), mk("plain")
	// peers of "slow": answer late, in pieces, or only after the deadline
	for i := 0; i < 3; i++ {
		late := []time.Duration{0, 30 * time.Millisecond, 200 * time.Millisecond}[i]
		e.slow.AddSource(&lib.Source{ID: fmt.Sprint("s", i),
			OnInsert: func(*pb.Datum, *pb.InsertConfig) error { return errors.New("refused") },
			OnSearch: func(d *pb.Datum, cfg *pb.SearchConfig, send func(*pb.ScoredDatum)) {
				for j := 0; j < 150; j++ {
					if j == 75 {
						time.Sleep(late)
					}
					send(&pb.ScoredDatum{Score: float64(j), Datum: lib.Datum([]float32{float32(j)}, "", "s", 1)})
				}
			}})
	}
	return e
}

func (e *env) q(r *rand.Rand) *pb.Datum { return lib.Datum(lib.GenVec(r, 8, 1), "", "", 0) }

func (e *env) search(ctx context.Context, name string, qs []*pb.Datum, cfg *pb.SearchConfig, give int) {
	cfg.DataName = name
	st, err := e.cl.SearchStream(ctx, &pb.SearchRequest{Datum: qs, Config: cfg})
	if err != nil {
		return
	}
	for i := 0; i < give; i++ {
		if _, err := st.Recv(); err != nil {
			return
		}
	}
}

func (e *env) workloads() []*workload {
	cacheTime = func() time.Time { return time.Now().Add(time.Duration(cacheOffset.Load())) }
	cc := util.NewConnectionCache()
	var held []*util.Connection
	return []*workload{
		{name: "index searches", batch: 1500, par: 4, lsan: true, slack: 24, op: func(r *rand.Rand, i int) {
			limit := uint32(1 + r.IntN(20))
			if i%50 == 0 {
				limit = 0
			}
			d := e.q(r)
			if i%7 == 0 {
				d.Key.Feature = d.Key.Feature[:r.IntN(8)]
			}
			e.plain.SearchAnnoy(d, &pb.SearchConfig{ScoreFuncName: "AnnoyAngularDistance", HigherIsBetter: true, Limit: limit, Filters: [][]string{nil, {"x"}}[i%2]})
		}},
		{name: "aggregated searches", batch: 400, par: 4, lsan: true, op: func(r *rand.Rand, i int) {
			f := []string{"VectorDistance", "AnnoyCosineSimilarity", "CosineSimilarity"}[i%3]
			qs := []*pb.Datum{e.q(r), e.q(r), e.q(r)}[:1+i%3]
			e.plain.MultiAggregatedSearch(qs, &pb.SearchConfig{ScoreFuncName: f, Limit: uint32(1 + r.IntN(300)), Timeout: 1000, CacheDuration: uint64(i % 2), GroupLimit: uint32(i % 3)}, nil)
		}},
		{name: "timed-out searches", batch: 150, par: 8, op: func(r *rand.Rand, i int) {
			qs := []*pb.Datum{e.q(r), e.q(r), e.q(r)}[:1+i%3]
			e.slow.MultiAggregatedSearch(qs, &pb.SearchConfig{ScoreFuncName: "VectorDistance", Limit: uint32(1 + r.IntN(400)), Timeout: uint64(i % 25), CacheDuration: uint64(i % 2)}, nil)
		}},
		{name: "network searches, some given up", batch: 150, par: 6, op: func(r *rand.Rand, i int) {
			ctx, cancel := context.WithTimeout(context.Background(), time.Duration(1+r.IntN(60))*time.Millisecond)
			defer cancel()
			e.search(ctx, []string{"slow", "plain", "missing"}[i%3], []*pb.Datum{e.q(r), e.q(r)}[:1+i%2], &pb.SearchConfig{ScoreFuncName: "VectorDistance", Limit: 300, Timeout: uint64(1 + r.IntN(50))}, r.IntN(20))
		}},
		{name: "refreshes", batch: 40, par: 1, lsan: true, slack: 256, op: func(r *rand.Rand, i int) {
			e.busy.Process(true)
			if i%4 == 0 {
				d := lib.Datum([]float32{1, 2, 3, 4, 5, 6, 7, 8}, "", "z", uint64(i))
				e.busy.Insert(d, nil)
			}
		}},
		{name: "concurrent refreshes", batch: 60, par: 3, lsan: true, slack: 256, op: func(r *rand.Rand, i int) {
			e.busy.Process(true)
			e.busy.SearchAnnoy(e.q(r), &pb.SearchConfig{ScoreFuncName: "AnnoyAngularDistance", Limit: 5})
		}},
		{name: "closed data sets", batch: 40, par: 4, lsan: true, slack: 256, op: func(r *rand.Rand, i int) {
			d := lib.NewData(fmt.Sprint("tmp", e.uniq.Add(1)), nil)
			fill(r, d, []int{0, 1, 40}[i%3], 4)
			if i%2 == 0 {
				d.Process(true)
			}
			d.AddSource(&lib.Source{ID: "x"})
			if i%5 == 0 { // refreshed while it is closed
				go d.Process(true)
			}
			d.Close()
		}},
		{name: "created and deleted data sets", batch: 40, par: 4, lsan: true, slack: 256, op: func(r *rand.Rand, i int) {
			name := fmt.Sprint("reg", e.uniq.Add(1))
			d, err := e.n.Dataset.Get(name)
			if err != nil {
				return
			}
			fill(r, d, []int{0, 1, 40}[i%3], 4)
			if i%2 == 0 {
				d.Process(true)
			}
			e.n.Dataset.Delete(name)
		}},
		{name: "emptied and refilled data sets", batch: 30, par: 1, lsan: true, slack: 256, op: func(r *rand.Rand, i int) {
			d := lib.Datum([]float32{1, 2}, "", "z", 1)
			v, _ := e.n.Dataset.Get("refilled")
			v.Insert(lib.Clone(d), nil)
			v.Process(true)
			v.Delete(d)
			v.Process(true)
		}},
		{name: "streams, some given up", batch: 80, par: 4, op: func(r *rand.Rand, i int) {
			ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
			defer cancel()
			st, err := e.cl.DataStream(ctx, &pb.GetDataRequest{Name: "plain"})
			if err != nil {
				return
			}
			for j := 0; i%2 == 0 || j < 5; j++ {
				if _, err := st.Recv(); err != nil {
					if err != io.EOF {
						e.rep.Count("stream_errors", 1)
					}
					return
				}
			}
		}},
		{name: "requests of all kinds", batch: 150, par: 4, op: func(r *rand.Rand, i int) {
			ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
			defer cancel()
			switch i % 5 {
			case 0:
				e.cl.Insert(ctx, &pb.InsertionRequest{DataName: "plain", Datum: lib.Datum([]float32{1, 1, 1, 1, 1, 1, 1, float32(i % 9)}, "", "r", 1)})
			case 1:
				e.cl.GetDataInfo(ctx, &pb.GetDataRequest{Name: "plain"})
			case 2:
				e.cl.CreateDataIfNotExists(ctx, &pb.DataConfig{Name: "plain", Version: 1})
			case 3:
				e.cl.Ping(ctx, &pb.PingRequest{})
			case 4:
				e.cl.AddPeer(ctx, &pb.AddPeerRequest{Peer: &pb.Peer{AddressList: []string{"localhost:1"}, Timestamp: uint64(time.Now().Unix())}})
			}
		}},
		{name: "requests to a peer", batch: 600, par: 3, bound: 14, op: func(r *rand.Rand, i int) {
			src := node.GetDataSourceClient(e.peer.GetNodeInfo(), "far", e.peerAddr, e.n.ConnectionCache)
			missing := node.GetDataSourceClient(e.peer.GetNodeInfo(), "missing", e.peerAddr, e.n.ConnectionCache)
			full := node.GetDataSourceClient(e.peer.GetNodeInfo(), "full", e.peerAddr, e.n.ConnectionCache)
			switch i % 6 {
			case 4: // refused
				if err := full.Insert(lib.Datum([]float32{1, 1, 1, float32(i % 9)}, "", "r", 1), &pb.InsertConfig{Count: 1}); err != nil {
					e.rep.Count("refused_by_a_peer", 1)
				}
			case 5: // an error instead of results
				ch := make(chan *pb.ScoredDatum, 10)
				var wg sync.WaitGroup
				wg.Add(1)
				if err := missing.StreamSearch(e.q(r), ch, &wg, &pb.SearchConfig{DataName: "missing", Limit: 3, Timeout: 1000}); err == nil {
					e.rep.Count("searches_that_fail_at_a_peer", 1)
				}
			case 0:
				src.GetDataInfo()
			case 1:
				src.Insert(lib.Datum([]float32{1, 1, 1, float32(i % 9)}, "", "r", 1), &pb.InsertConfig{Count: 1})
			case 2:
				ch := make(chan *pb.ScoredDatum, 10)
				var wg sync.WaitGroup
				wg.Add(1)
				go func() { src.StreamSearch(e.q(r), ch, &wg, &pb.SearchConfig{DataName: "far", Limit: 3, Timeout: 1000}) }()
				go func() { wg.Wait(); close(ch) }()
				for range ch {
				}
			case 3:
				e.n.SendPingRequest(e.peerAddr)
			}
		}},
		{name: "connections to many peers", batch: 400, par: 1, bound: 60, op: func(r *rand.Rand, i int) {
			// more peers than the cache of connections holds, each in use for a while
			addr := fmt.Sprintf("127.0.1.%d:%s", 1+i%200, e.peerAddr[strings.LastIndex(e.peerAddr, ":")+1:])
			if conn := e.n.ConnectionCache.Get(addr); conn != nil {
				ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
				if _, err := pb.NewVeriServiceClient(conn.Conn).Ping(ctx, &pb.PingRequest{}); err == nil {
					e.rep.Count("pings_of_many_peers", 1)
				}
				cancel()
				held = append(held, conn)
			}
			for len(held) > 150 || (i%200 == 199 && len(held) > 0) {
				e.n.ConnectionCache.Put(held[0])
				held = held[1:]
			}
		}},
		{name: "connections over hours", batch: 60, par: 1, bound: 24, op: func(r *rand.Rand, i int) {
			// time passes for the cache of connections only
			cacheOffset.Add(int64(time.Duration(1+r.IntN([]int{3, 12, 25}[r.IntN(3)])) * time.Minute))
			var wg sync.WaitGroup
			for k, nk := 0, 1+r.IntN(5); k < nk; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					addr := fmt.Sprintf("127.0.1.%d:%s", 1+(i+k)%3, e.peerAddr[strings.LastIndex(e.peerAddr, ":")+1:])
					conn := cc.Get(addr)
					if conn == nil {
						return
					}
					ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
					if _, err := pb.NewVeriServiceClient(conn.Conn).Ping(ctx, &pb.PingRequest{}); err == nil {
						e.rep.Count("pings_over_hours", 1)
					}
					cancel()
					cc.Put(conn)
				}()
			}
			wg.Wait()
			time.Sleep(2 * time.Millisecond)
		}},
		{name: "rounds of peer exchange", batch: 25, par: 2, op: func(r *rand.Rand, i int) {
			now := uint64(time.Now().Unix())
			info := e.peer.GetNodeInfo()
			e.n.AddPeerElement(info)
			e.n.AddPeerElement(&pb.Peer{AddressList: []string{"localhost:1"}, Timestamp: now, DataList: []*pb.DataConfig{{Name: "busy", Version: 1, NoTarget: true}}})
			e.n.SyncWithPeers()
			e.n.JoinToPeers()
			e.n.SendPingRequest(info.AddressList[0])
			e.n.SendPingRequest("localhost:1")
		}},
	}
}

func run(w *workload, seed uint64, from, count int) {
	var wg sync.WaitGroup
	for p := 0; p < w.par; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, uint64(from*100+p)))
			for i := from + p; i < from+count; i += w.par {
				w.op(r, i)
			}
		}()
	}
	wg.Wait()
}

// TestGrowth: after a warm-up, resources return to the same bound after one and after three more batches.
func TestGrowth(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "resource check")
	os.Stdout, _ = os.OpenFile("/dev/null", os.O_WRONLY, 0)
	e := newEnv(rep)
	for _, w := range e.workloads() {
		if o := os.Getenv("C23_ONLY"); o != "" && o != w.name {
			continue
		}
		batch := w.batch * rep.N(1, 6)
		run(w, rep.Seed, 0, batch)
		b := quiet()
		run(w, rep.Seed+1, batch, batch)
		slack := max(10, batch/8)
		if w.bound > 0 {
			slack = w.bound
		}
		nslack := int64(1 << 40)
		if w.slack > 0 {
			nslack = 48*1024 + w.slack*int64(batch)
		}
		u1, l1 := settle(b, slack, nslack)
		run(w, rep.Seed+2, 2*batch, 2*batch)
		u2, l2 := settle(b, slack, nslack)
		rep.Count("operations", 4*batch)
		if len(l2) > 0 && len(l1) > 0 && grows(u1, u2, b) {
			buf := make([]byte, 1<<17)
			k := runtime.Stack(buf, true)
			rep.Violate("%s: after %d and after %d more operations: %s; then %s. Goroutines: %.3000s", w.name, batch, 3*batch, strings.Join(l1, ", "), strings.Join(l2, ", "), frequent(string(buf[:k])))
		} else if len(l2) > 0 {
			// not proportional to the number of operations: one more look
			run(w, rep.Seed+3, 4*batch, 4*batch)
			u3, l3 := settle(b, slack, nslack)
			if len(l3) > 0 && grows(u2, u3, u1) {
				rep.Violate("%s: keeps growing: %s; then %s", w.name, strings.Join(l2, ", "), strings.Join(l3, ", "))
			}
		}
		rep.Case(fmt.Sprintf("%s %d", w.name, batch))
		rep.Sample(fmt.Sprintf("%s: warm %+v, after %d more %+v, after %d more %+v", w.name, b, batch, u1, 3*batch, u2))
		fmt.Fprintf(os.Stderr, "%s: %+v %+v %+v\n", w.name, b, u1, u2)
	}
	rep.Done()
}

func grows(u1, u2, b usage) bool {
	return u2.goroutines > u1.goroutines+5 || u2.fds > u1.fds+5 || u2.files > u1.files+5 || u2.maps > u1.maps+5 || u2.native-u1.native > (u1.native-b.native)/2
}

// frequent lists the most frequent goroutine states.
func frequent(s string) string {
	m := map[string]int{}
	for _, g := range strings.Split(s, "\n\n") {
		l := strings.SplitN(g, "\n", 4)
		if len(l) > 2 {
			m[l[1]+" <- "+strings.Join(l[3:], "")[:min(200, len(strings.Join(l[3:], "")))]]++
		}
	}
	out := ""
	for k, v := range m {
		if v > 5 {
			out += fmt.Sprintf("%d x %s\n", v, k)
		}
	}
	return out
}

// TestLeaks runs the workloads that use the native library; the leak sanitizer judges at exit.
func TestLeaks(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "resource check")
	os.Stdout, _ = os.OpenFile("/dev/null", os.O_WRONLY, 0)
	e := newEnv(rep)
	for _, w := range e.workloads() {
		if w.lsan {
			n := max(10, w.batch/10) * rep.N(1, 5)
			run(w, rep.Seed, 0, n)
			rep.Count("operations", n)
			rep.Case(fmt.Sprintf("%s %d", w.name, n))
			rep.Sample(fmt.Sprintf("%s: %d operations, then the leak sanitizer", w.name, n))
		}
	}
	for _, d := range []*data.Data{e.busy, e.plain} {
		d.Close()
	}
	time.Sleep(200 * time.Millisecond)
	runtime.GC()
	rep.Done()
}
