package c26

import (
	"context"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	_ "unsafe" // linkname

	"verif/harness/lib"

	"github.com/bgokden/veri/util"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
	"google.golang.org/grpc/connectivity"
	"google.golang.org/grpc/stats"
)

// The cache of connections reads the time through this variable of its library (made for tests).
//
//go:linkname cacheTime github.com/goburrow/cache.currentTime
var cacheTime func() time.Time

var cacheOffset atomic.Int64

// server answers with the address at which it was reached.
type server struct {
	pb.UnimplementedVeriServiceServer
	port  int
	srv   *grpc.Server
	mu    sync.Mutex
	up    bool
	epoch int64 // changes with every stop
	since time.Time
	conns atomic.Int64 // open connections
	peak  atomic.Int64
}

type addrKey struct{}

func (s *server) TagRPC(ctx context.Context, _ *stats.RPCTagInfo) context.Context { return ctx }
func (s *server) HandleRPC(context.Context, stats.RPCStats)                       {}
func (s *server) TagConn(ctx context.Context, i *stats.ConnTagInfo) context.Context {
	return context.WithValue(ctx, addrKey{}, i.LocalAddr.String())
}
func (s *server) HandleConn(_ context.Context, c stats.ConnStats) {
	switch c.(type) {
	case *stats.ConnBegin:
		s.peak.Store(max(s.peak.Load(), s.conns.Add(1)))
	case *stats.ConnEnd:
		s.conns.Add(-1)
	}
}

func (s *server) GetDataInfo(ctx context.Context, q *pb.GetDataRequest) (*pb.DataInfo, error) {
	a, _ := ctx.Value(addrKey{}).(string)
	return &pb.DataInfo{Name: a}, nil
}

// DataStream is a call that takes a while.
func (s *server) DataStream(q *pb.GetDataRequest, st pb.VeriService_DataStreamServer) error {
	a, _ := st.Context().Value(addrKey{}).(string)
	var n, ms int
	fmt.Sscanf(q.Name, "%d %d", &n, &ms)
	for i := 0; i < n; i++ {
		time.Sleep(time.Duration(ms) * time.Millisecond)
		if err := st.Send(&pb.Datum{Value: &pb.DatumValue{Label: []byte(a), Version: uint64(i)}}); err != nil {
			return err
		}
	}
	return nil
}

func (s *server) start() error {
	var l net.Listener
	var err error
	if s.port == 0 {
		s.port = lib.FreePort()
	}
	for i := 0; i < 100; i++ {
		if l, err = net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", s.port)); err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		return err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.port = l.Addr().(*net.TCPAddr).Port
	s.srv = grpc.NewServer(grpc.StatsHandler(s))
	pb.RegisterVeriServiceServer(s.srv, s)
	go s.srv.Serve(l)
	s.up, s.since = true, time.Now()
	return nil
}

func (s *server) stop() {
	s.mu.Lock()
	s.up = false
	s.epoch++
	srv := s.srv
	s.mu.Unlock()
	srv.Stop()
}

func (s *server) state() (bool, int64, time.Time) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.up, s.epoch, s.since
}

type world struct {
	rep     *lib.Rep
	cc      *util.ConnectionCache
	servers []*server
	calls   atomic.Int64
	streams atomic.Int64
	failed  atomic.Int64
	holders sync.Map // address -> *atomic.Int64
	maxHold atomic.Int64
}

func newWorld(rep *lib.Rep, n int) *world {
	w := &world{rep: rep, cc: util.NewConnectionCache()}
	for i := 0; i < n; i++ {
		s := &server{}
		if err := s.start(); err != nil {
			rep.Inconclusive("%v", err)
		}
		w.servers = append(w.servers, s)
	}
	return w
}

// use borrows a connection, makes a call and gives it back; ok tells whether the call succeeded.
func (w *world) use(r *rand.Rand, s *server, address string, long bool) (err error, borrowed bool) {
	c := w.cc.Get(address)
	if c == nil {
		return fmt.Errorf("no connection"), false
	}
	h, _ := w.holders.LoadOrStore(address, &atomic.Int64{})
	if n := h.(*atomic.Int64).Add(1); n > w.maxHold.Load() {
		w.maxHold.Store(n)
	}
	defer h.(*atomic.Int64).Add(-1)
	defer w.cc.Put(c)
	check := func(when string) bool {
		if st := c.Conn.GetState(); st == connectivity.Shutdown {
			w.rep.Violate("a connection to %s is shut down %s it is used", address, when)
			return false
		}
		return true
	}
	if !check("when") {
		return fmt.Errorf("shut down"), true
	}
	if c.Conn.Target() != address {
		w.rep.Violate("asked for %s, got a connection to %s", address, c.Conn.Target())
	}
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cl := pb.NewVeriServiceClient(c.Conn)
	if r.IntN(4) == 0 {
		time.Sleep(time.Duration(r.IntN(3000)) * time.Microsecond) // held before it is used
	}
	reached := func(a string) bool {
		if a != address {
			w.rep.Violate("a call meant for %s was served at %s", address, a)
			return false
		}
		return true
	}
	if !long {
		info, err := cl.GetDataInfo(ctx, &pb.GetDataRequest{Name: "x"})
		if err == nil {
			w.calls.Add(1)
			reached(info.Name)
		}
		check("while")
		return err, true
	}
	n := 1 + r.IntN(6)
	st, err := cl.DataStream(ctx, &pb.GetDataRequest{Name: fmt.Sprintf("%d %d", n, r.IntN(8))})
	if err != nil {
		check("while")
		return err, true
	}
	for i := 0; ; i++ {
		x, err := st.Recv()
		if err == io.EOF {
			if i != n {
				w.rep.Violate("a call to %s ended after %d of %d answers", address, i, n)
			}
			break
		}
		if err != nil {
			check("while")
			return err, true
		}
		reached(string(x.GetValue().GetLabel()))
	}
	check("while")
	w.streams.Add(1)
	return nil, true
}

func workers(n int, d time.Duration, seed uint64, f func(r *rand.Rand, g int)) {
	var wg sync.WaitGroup
	end := time.Now().Add(d)
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, uint64(g)))
			for time.Now().Before(end) {
				f(r, g)
			}
		}()
	}
	wg.Wait()
}

// TestSteady: all servers are up all the time, so every call has to succeed.
func TestSteady(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "connection pool")
	os.Stdout, _ = os.OpenFile("/dev/null", os.O_WRONLY, 0)
	cacheTime = func() time.Time { return time.Now().Add(time.Duration(cacheOffset.Load())) }
	for c := 0; c < rep.N(12, 60); c++ {
		r := rep.Rng(fmt.Sprint("steady", c))
		w := newWorld(rep, 1+r.IntN(3))
		hosts := []int{1, 2, 60, 160}[c%4] // more addresses than the cache keeps
		n := 4 + r.IntN(60)
		pause := []int{0, 500, 5000}[r.IntN(3)]
		longShare := r.IntN(3)
		over := make(chan struct{})
		var hours sync.WaitGroup
		if c%3 == 1 { // many hours pass for the cache
			hours.Add(1)
			jr := rand.New(rand.NewPCG(rep.Seed, r.Uint64()))
			go func() {
				defer hours.Done()
				for {
					select {
					case <-over:
						return
					case <-time.After(time.Duration(5+jr.IntN(30)) * time.Millisecond):
						cacheOffset.Add(int64(time.Duration(1+jr.IntN(25)) * time.Minute))
						rep.Count("time_jumps", 1)
					}
				}
			}()
		}
		workers(n, 600*time.Millisecond, rep.Seed+uint64(c), func(r *rand.Rand, g int) {
			s := w.servers[r.IntN(len(w.servers))]
			address := fmt.Sprintf("127.0.0.%d:%d", 1+r.IntN(hosts), s.port)
			if err, _ := w.use(r, s, address, r.IntN(3) < longShare); err != nil {
				rep.Violate("case %d: a call to %s failed though it is up: %v", c, address, err)
				time.Sleep(50 * time.Millisecond)
			}
			if pause > 0 {
				time.Sleep(time.Duration(r.IntN(pause)) * time.Microsecond)
			}
		})
		close(over)
		hours.Wait()
		for _, s := range w.servers {
			s.stop()
		}
		rep.Count("calls", int(w.calls.Load()))
		rep.Count("streams", int(w.streams.Load()))
		rep.Case(fmt.Sprint(c, hosts, n, pause, w.calls.Load()))
		rep.Sample(fmt.Sprintf("%d workers, %d addresses, %d servers: %d calls, %d streams, up to %d users of one address", n, hosts, len(w.servers), w.calls.Load(), w.streams.Load(), w.maxHold.Load()))
		rep.Count("case_max_users", int(w.maxHold.Load()))
	}
	rep.Done()
}

// TestRestart: servers stop and come back; while one is up its callers get through after a bounded number of attempts.
func TestRestart(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "connection pool")
	os.Stdout, _ = os.OpenFile("/dev/null", os.O_WRONLY, 0)
	n := rep.N(16, 80)
	if rep.Stage == "restart-race" {
		n = rep.N(6, 40)
	}
	sem := make(chan struct{}, 4)
	var all sync.WaitGroup
	for c := 0; c < n; c++ {
		all.Add(1)
		sem <- struct{}{}
		go func() {
			defer all.Done()
			defer func() { <-sem }()
			restart(rep, c)
		}()
	}
	all.Wait()
	rep.Done()
}

const attemptsAllowed = 12

func restart(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("restart", c))
	w := newWorld(rep, 1+r.IntN(2))
	hosts := 1 + r.IntN(2)
	n := []int{1, 2, 8, 30}[r.IntN(4)]
	longShare := r.IntN(3)
	stopAll := make(chan struct{})
	var wg sync.WaitGroup
	var worst, outages atomic.Int64
	for g := 0; g < n; g++ {
		wr := rand.New(rand.NewPCG(rep.Seed, r.Uint64()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			// consecutive failures against a server that has been up since before the first of them
			fails := map[string]int{}
			epochs := map[string]int64{}
			for {
				select {
				case <-stopAll:
					return
				default:
				}
				s := w.servers[wr.IntN(len(w.servers))]
				address := fmt.Sprintf("127.0.0.%d:%d", 1+wr.IntN(hosts), s.port)
				up, epoch, _ := s.state()
				err, _ := w.use(wr, s, address, wr.IntN(3) < longShare)
				up2, epoch2, _ := s.state()
				if err == nil {
					fails[address] = 0
				} else {
					w.failed.Add(1)
					if up && up2 && epoch == epoch2 && epochs[address] == epoch {
						fails[address]++
						if f := int64(fails[address]); f > worst.Load() {
							worst.Store(f)
						}
						if fails[address] > attemptsAllowed {
							rep.Violate("case %d: %d attempts in a row to reach %s failed though it is up again: %v", c, fails[address], address, err)
							return
						}
					} else {
						fails[address] = 0
					}
					epochs[address] = epoch2
				}
				time.Sleep(time.Duration(wr.IntN(4000)) * time.Microsecond)
			}
		}()
	}
	for k := 0; k < 3; k++ {
		time.Sleep(time.Duration(50+r.IntN(300)) * time.Millisecond)
		s := w.servers[r.IntN(len(w.servers))]
		s.stop()
		outages.Add(1)
		time.Sleep(time.Duration([]int{0, 20, 300, 1500, 3000}[r.IntN(5)]) * time.Millisecond)
		if err := s.start(); err != nil {
			rep.Inconclusive("%v", err)
		}
	}
	time.Sleep(300 * time.Millisecond)
	close(stopAll)
	wg.Wait()
	for _, s := range w.servers {
		s.stop()
	}
	rep.Count("calls", int(w.calls.Load()))
	rep.Count("streams", int(w.streams.Load()))
	rep.Count("failed_calls", int(w.failed.Load()))
	rep.Count("outages", int(outages.Load()))
	sig := ""
	if w.failed.Load() > 0 && w.calls.Load()+w.streams.Load() > 0 {
		sig = fmt.Sprint(c, w.calls.Load(), w.failed.Load())
	}
	rep.Case(sig)
	rep.Sample(fmt.Sprintf("%d workers, %d outages: %d calls, %d streams, %d failed, at most %d failed attempts in a row against a running server", n, outages.Load(), w.calls.Load(), w.streams.Load(), w.failed.Load(), worst.Load()))
	fmt.Fprintln(os.Stderr, c, n, "worst", worst.Load(), "failed", w.failed.Load(), "calls", w.calls.Load())
}
