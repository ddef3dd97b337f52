package c28

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"verif/harness/lib"

	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
)

// collector is a member that the servers announce themselves to, and that takes part as far as needed.
type collector struct {
	pb.UnimplementedVeriServiceServer
	addr    string
	srv     *grpc.Server
	mu      sync.Mutex
	joins   []*pb.Peer
	adds    int
	inserts []*pb.InsertionRequest
	at      []int64
	answer  string
	refuse  func() bool
}

func newCollector(rep *lib.Rep, answer string) *collector {
	l, err := lib.Listen()
	if err != nil {
		rep.Inconclusive("%v", err)
	}
	c := &collector{addr: fmt.Sprintf("localhost:%d", l.Addr().(*net.TCPAddr).Port), srv: grpc.NewServer(), answer: answer}
	pb.RegisterVeriServiceServer(c.srv, c)
	go c.srv.Serve(l)
	return c
}

func (c *collector) Join(ctx context.Context, q *pb.JoinRequest) (*pb.JoinResponse, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.joins = append(c.joins, q.GetPeer())
	return &pb.JoinResponse{Address: c.answer}, nil
}

func (c *collector) AddPeer(ctx context.Context, q *pb.AddPeerRequest) (*pb.AddPeerResponse, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.adds++
	return &pb.AddPeerResponse{}, nil
}

func (c *collector) GetDataInfo(ctx context.Context, q *pb.GetDataRequest) (*pb.DataInfo, error) {
	return &pb.DataInfo{Name: q.GetName()}, nil
}

func (c *collector) Insert(ctx context.Context, q *pb.InsertionRequest) (*pb.InsertionResponse, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.refuse != nil && c.refuse() {
		return nil, errors.New("refused")
	}
	c.inserts = append(c.inserts, q)
	c.at = append(c.at, time.Now().Unix())
	return &pb.InsertionResponse{}, nil
}

func (c *collector) joined(from int) []*pb.Peer {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]*pb.Peer{}, c.joins[from:]...)
}

func freePort(rep *lib.Rep) int {
	return lib.FreePort()
}

// process is one life of a server.
type process struct {
	cmd    *exec.Cmd
	done   chan struct{}
	err    error
	log    string
	port   int
	conn   *grpc.ClientConn
	client pb.VeriServiceClient
	begin  time.Time
}

func launch(rep *lib.Rep, home string, port int, env []string, args ...string) *process {
	p := &process{done: make(chan struct{}), port: port, log: filepath.Join(home, fmt.Sprintf("log%d", time.Now().UnixNano())), begin: time.Now()}
	p.cmd = exec.Command(os.Getenv("VERIF_SERVER"), append([]string{"serve", "-p", fmt.Sprint(port)}, args...)...)
	p.cmd.Dir = home
	p.cmd.Env = append(append(os.Environ(), "HOME="+home), env...)
	f, _ := os.Create(p.log)
	p.cmd.Stderr, p.cmd.Stdout = f, f
	if err := p.cmd.Start(); err != nil {
		rep.Inconclusive("%v", err)
	}
	f.Close()
	go func() { p.err = p.cmd.Wait(); close(p.done) }()
	return p
}

// up waits until the server answers.
func (p *process) up() error {
	conn, err := grpc.Dial(fmt.Sprintf("localhost:%d", p.port), grpc.WithInsecure())
	if err != nil {
		return err
	}
	p.conn, p.client = conn, pb.NewVeriServiceClient(conn)
	for i := 0; i < 600; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		_, err = p.client.Ping(ctx, &pb.PingRequest{})
		cancel()
		if err == nil {
			return nil
		}
		select {
		case <-p.done:
			return fmt.Errorf("the process ended: %v; %s", p.err, p.tail())
		case <-time.After(100 * time.Millisecond):
		}
	}
	return fmt.Errorf("no answer: %v; %s", err, p.tail())
}

func (p *process) tail() string {
	b, _ := os.ReadFile(p.log)
	if len(b) > 3000 {
		b = b[len(b)-3000:]
	}
	return string(b)
}

func (p *process) kill() {
	if p.conn != nil {
		p.conn.Close()
	}
	p.cmd.Process.Kill()
	<-p.done
}

func (p *process) wait(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

func TestLives(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "server lives")
	par(rep, rep.N(24, 120), 6, func(c int) { lives(rep, c) })
	rep.Done()
}

func par(rep *lib.Rep, n, width int, f func(c int)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, width)
	for c := 0; c < n; c++ {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			f(c)
		}()
	}
	wg.Wait()
}

func genName(r *rand.Rand) string {
	l := []string{"images", "Ünïcode ☃", "a b", "with/slash", "..", ".", "", "%2E", "new\nline", "quote\"s", "index.save", "tab\t", "a,b", "{}", "null", "<html>&amp;", "\u2028", "x" + strings.Repeat("y", r.IntN(300))}
	if r.IntN(3) == 0 {
		return fmt.Sprint("set", r.IntN(1000))
	}
	return l[r.IntN(len(l))]
}

func genConfig(r *rand.Rand, name string, version uint64) *pb.DataConfig {
	return &pb.DataConfig{Name: name, Version: version,
		TargetN:                    []uint64{0, 1, 1000, 1 << 62, ^uint64(0)}[r.IntN(5)],
		TargetUtilization:          []float64{0, 0.4, 1, 0.1 + 0.2, 1e-9, -1}[r.IntN(6)],
		NoTarget:                   r.IntN(2) == 0,
		ReplicationOnInsert:        uint32(r.IntN(2)),
		EnforceReplicationOnInsert: r.IntN(2) == 0,
		Retention:                  []uint64{0, 100000, 1 << 40, ^uint64(0)}[r.IntN(4)]}
}

func show(m map[string]*pb.DataConfig) string {
	var l []string
	for _, c := range m {
		l = append(l, fmt.Sprintf("{%v}", c))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func equal(a, b map[string]*pb.DataConfig) bool {
	if len(a) != len(b) {
		return false
	}
	for k, x := range a {
		if !proto.Equal(x, b[k]) {
			return false
		}
	}
	return true
}

func lives(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("lives", c))
	home := lib.TempDir("home")
	defer os.RemoveAll(home)
	var cols []*collector
	addrs := []string{}
	for i := 0; i < 2+c%3; i++ {
		cols = append(cols, newCollector(rep, []string{"", "localhost"}[i%2]))
		defer cols[i].srv.Stop()
		addrs = append(addrs, cols[i].addr)
	}
	dir := filepath.Join(home, "dir")
	kind := r.IntN(3)
	switch kind {
	case 1:
		dir = filepath.Join(home, "some", "nested", "dir")
	case 2:
		os.MkdirAll(dir, 0755)
	}
	foreign := map[string]string{}
	put := func(p, s string) {
		os.MkdirAll(filepath.Dir(p), 0755)
		os.WriteFile(p, []byte(s), 0644)
		foreign[p] = s
	}
	if kind == 2 {
		put(filepath.Join(dir, "notes.txt"), "mine")
		put(filepath.Join(dir, "sub", "deep", "x"), "mine, too")
	}
	model := map[string]*pb.DataConfig{} // what the next life has to know
	requested := map[string][]*pb.DataConfig{}
	graceful := true // the last life ended gracefully
	trace := ""
	fail := func(f string, a ...any) {
		rep.Violate("server %d (%s): %s", c, trace, fmt.Sprintf(f, a...))
	}
	nlives := 2 + r.IntN(3)
	signals, restarts := 0, 0
	for life := 0; life < nlives && rep.Violations() == 0; life++ {
		port := freePort(rep)
		// advertised addresses by flag, environment or configuration file
		var adv, want []string
		nadv := []int{0, 1, 1, 2, 3, 9}[r.IntN(6)]
		for i := 0; i < nadv; i++ {
			h := []string{"localhost", "10.0.0.1", "veri-1.example", "h" + fmt.Sprint(i)}[r.IntN(4)]
			if r.IntN(2) == 0 {
				h += ":" + fmt.Sprint([]int{1000 + r.IntN(5000), 1 + r.IntN(99), 443, 65535}[r.IntN(4)])
				want = append(want, h)
			} else {
				want = append(want, fmt.Sprintf("%s:%d", h, port))
			}
			adv = append(adv, h)
		}
		args := []string{"-d", dir, "-s", strings.Join(addrs, ",")}
		var env []string
		how := r.IntN(5)
		os.RemoveAll(filepath.Join(home, ".veri"))
		if len(adv) > 0 {
			list := strings.Join(adv, ",")
			switch how {
			case 0:
				args = append(args, "-b", list)
			case 1:
				env = append(env, "BROADCAST="+list)
			case 2:
				cf := filepath.Join(home, "config.yaml")
				os.WriteFile(cf, []byte(fmt.Sprintf("broadcast: %q\n", list)), 0644)
				args = append(args, "--config", cf)
			case 3:
				cf := filepath.Join(home, "other.yaml")
				os.WriteFile(cf, []byte(fmt.Sprintf("broadcast: %q\n", list)), 0644)
				env = append(env, "VERICONFIG="+cf)
			case 4: // the default place
				os.MkdirAll(filepath.Join(home, ".veri"), 0755)
				os.WriteFile(filepath.Join(home, ".veri", "config.yaml"), []byte(fmt.Sprintf("broadcast: %q\n", list)), 0644)
			}
		}
		trace += fmt.Sprintf(" start(adv %v by %d)", adv, how)
		var from []int
		for _, col := range cols {
			from = append(from, len(col.joined(0)))
		}
		// a start that fails must not harm anything
		if r.IntN(4) == 0 {
			l, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", port))
			if err == nil {
				p := launch(rep, home, port, env, "-d", dir)
				if !p.wait(60 * time.Second) {
					fail("still running 60 s after its port was found to be taken; %s", p.tail())
				}
				p.kill()
				l.Close()
				trace += " (failed start)"
			}
		}
		p := launch(rep, home, port, env, args...)
		if err := p.up(); err != nil {
			fail("does not serve: %v", err)
			p.kill()
			return
		}
		restarts++
		rep.Count("servers_up", 1)
		// it announces itself to every service, with its addresses and data sets
		for i, col := range cols {
			var js []*pb.Peer
			for e := time.Now().Add(60 * time.Second); time.Now().Before(e) && len(js) == 0; time.Sleep(20 * time.Millisecond) {
				js = col.joined(from[i])
			}
			if len(js) == 0 {
				fail("service %d of %d was not contacted within 60 s; %s", i, len(cols), p.tail())
				p.kill()
				return
			}
			peer := js[0]
			have := map[string]bool{}
			for _, a := range peer.GetAddressList() {
				have[a] = true
			}
			for _, a := range want {
				if !have[a] {
					fail("advertises %q instead of %q", peer.GetAddressList(), want)
				}
			}
			for _, a := range want {
				delete(have, a)
			}
			delete(have, fmt.Sprintf("localhost:%d", port)) // what the other service told it
			if len(have) > 0 {
				fail("advertises %q, given were %q", peer.GetAddressList(), want)
			}
			got := map[string]*pb.DataConfig{}
			for _, d := range peer.GetDataList() {
				got[d.GetName()] = d
			}
			n := len(got)
			delete(got, "busy") // created by inserts that were running when a signal arrived
			if n != len(peer.GetDataList()) {
				fail("announces a data set twice: %v", peer.GetDataList())
			}
			if graceful {
				if !equal(got, model) {
					fail("after a graceful end it knows %s, had %s", show(got), show(model))
				}
			} else {
				for n, x := range got { // killed: some complete earlier state
					known := false
					for _, q := range requested[n] {
						known = known || proto.Equal(q, x)
					}
					if !known {
						fail("after a kill it knows %v, which was never configured (%v)", x, requested[n])
					}
				}
				for n, x := range model {
					if y := got[n]; y == nil || y.GetVersion() < x.GetVersion() {
						fail("after a kill it knows %v, saved by an earlier graceful end was %v", y, x)
					}
				}
				if i == 1 {
					model = got
				}
			}
			rep.Count("announcements", 1)
		}
		graceful = true
		current := map[string]*pb.DataConfig{}
		for n, x := range model {
			current[n] = x
		}
		// requests
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
		steps := 1 + r.IntN(12)
		for s := 0; s < steps; s++ {
			switch r.IntN(4) {
			case 0, 1:
				name := genName(r)
				v := uint64(r.IntN(4))
				if r.IntN(4) == 0 {
					v = ^uint64(0) - uint64(r.IntN(3))
				}
				x := genConfig(r, name, v)
				requested[name] = append(requested[name], x)
				info, err := p.client.CreateDataIfNotExists(ctx, x)
				if err != nil {
					fail("creating %v: %v", x, err)
					break
				}
				if old := current[name]; old == nil || x.Version > old.Version {
					current[name] = x
				}
				if info.GetVersion() != current[name].Version || info.GetName() != name || info.GetTargetN() != current[name].TargetN {
					fail("creating %v is answered with %v, expected %v", x, info, current[name])
				}
				rep.Count("configs", 1)
			case 2:
				name := genName(r)
				d := lib.Datum([]float32{float32(r.IntN(9)), 1}, "", "l", uint64(s))
				if current[name] == nil {
					x := genConfig(r, name, 1)
					x.NoTarget, x.ReplicationOnInsert = true, 0
					requested[name] = append(requested[name], x)
					if _, err := p.client.CreateDataIfNotExists(ctx, x); err != nil {
						fail("creating %v: %v", x, err)
						break
					}
					current[name] = x
				}
				_, err := p.client.Insert(ctx, &pb.InsertionRequest{DataName: name, Datum: d, Config: &pb.InsertConfig{Count: 1}})
				if err != nil && (current[name].NoTarget || current[name].TargetN > 100) {
					fail("insert into %v: %v", current[name], err)
				}
				if err == nil {
					st, err := p.client.DataStream(ctx, &pb.GetDataRequest{Name: name})
					n := 0
					for err == nil {
						_, err = st.Recv()
						if err == nil {
							n++
						}
					}
					if err != io.EOF || n == 0 {
						fail("stream of %q: %v, %d entries", name, err, n)
					}
				}
				rep.Count("inserts", 1)
			case 3:
				put(filepath.Join(dir, "data", fmt.Sprint("foreign", r.IntN(5)), "f"), fmt.Sprint(s))
			}
		}
		// requests that are still running when the signal arrives
		var wg sync.WaitGroup
		if r.IntN(3) == 0 {
			for i := 0; i < 3; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						cx, ca := context.WithTimeout(ctx, 2*time.Second)
						_, err := p.client.Insert(cx, &pb.InsertionRequest{DataName: "busy", Datum: lib.Datum([]float32{float32(i)}, "", "l", 1), Config: &pb.InsertConfig{Count: 1}})
						ca()
						if err != nil {
							return
						}
					}
				}()
			}
			trace += " busy"
		}
		young := time.Since(p.begin) < 40*time.Second // before maintenance removes empty data sets
		end := r.IntN(5)
		if life == nlives-1 && end == 0 {
			end = 1
		}
		switch end {
		case 0:
			trace += " SIGKILL"
			time.Sleep(time.Duration(r.IntN(30)) * time.Millisecond)
			p.cmd.Process.Signal(syscall.SIGKILL)
			graceful = false
		default:
			sig := []os.Signal{syscall.SIGTERM, syscall.SIGINT}[r.IntN(2)]
			trace += " " + sig.String()
			p.cmd.Process.Signal(sig)
			if end == 4 { // impatient
				time.Sleep(time.Duration(r.IntN(3)) * time.Millisecond)
				p.cmd.Process.Signal(sig)
			}
			signals++
		}
		if !p.wait(100 * time.Second) {
			fail("still running 100 s after the signal; %s", p.tail())
		} else if graceful && p.err != nil {
			fail("ended by a termination signal with %v; %s", p.err, p.tail())
		}
		if graceful {
			model = current
		}
		cancel()
		wg.Wait()
		p.kill()
		if !young {
			rep.Count("slow", 1)
			return
		}
		for f, s := range foreign {
			b, err := os.ReadFile(f)
			if err != nil || string(b) != s {
				fail("file %s that the server did not create: %q %v", f, b, err)
			}
		}
	}
	if signals > 0 && restarts > 1 {
		rep.Case(fmt.Sprint("lives", c, trace))
		rep.Sample(trace)
	} else {
		rep.Case("")
	}
	rep.Count("signals", signals)
}

// TestHandover: a server that was synchronized by its own periodic task hands over its entries when it is terminated.
func TestHandover(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(400*time.Second, "handover")
	n := 5
	par(rep, n, n, func(c int) { handover(rep, c) })
	rep.Done()
}

func handover(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("handover", c))
	home := lib.TempDir("home")
	cols := []*collector{newCollector(rep, ""), newCollector(rep, "")}
	p := launch(rep, home, freePort(rep), nil, "-d", filepath.Join(home, "dir"), "-s", cols[0].addr)
	defer p.kill()
	if err := p.up(); err != nil {
		rep.Violate("handover %d: does not serve: %v", c, err)
		return
	}
	ctx, cancel := context.WithTimeout(context.Background(), 600*time.Second)
	defer cancel()
	names := []string{"set", "other"}[:1+r.IntN(2)]
	type item struct {
		val string
		ttl uint64
		at  int64
	}
	want := map[string]item{}
	var configs []*pb.DataConfig
	for _, name := range names {
		cfg := &pb.DataConfig{Name: name, Version: 3, NoTarget: r.IntN(2) == 0, TargetN: 1000, TargetUtilization: 0.4, Retention: 100000}
		configs = append(configs, cfg)
		if _, err := p.client.CreateDataIfNotExists(ctx, cfg); err != nil {
			rep.Violate("handover %d: create: %v", c, err)
			return
		}
		n := 20 + r.IntN(200)
		for i := 0; i < n; i++ {
			d := lib.Datum([]float32{float32(i), r.Float32()}, "g", fmt.Sprint("v", i), uint64(i))
			ttl := uint64(0)
			if r.IntN(2) == 0 {
				ttl = 5000 + uint64(r.IntN(10000))
			}
			if _, err := p.client.Insert(ctx, &pb.InsertionRequest{DataName: name, Datum: d, Config: &pb.InsertConfig{TTL: ttl, Count: 1}}); err != nil {
				rep.Violate("handover %d: insert: %v", c, err)
				return
			}
			want[name+"/"+lib.KeyID(d.Key)] = item{lib.ValID(d.Value), ttl, time.Now().Unix()}
		}
	}
	// the members keep announcing themselves until the server's periodic task tells them about each other
	synced := false
	for e := time.Now().Add(200 * time.Second); time.Now().Before(e) && !synced; time.Sleep(500 * time.Millisecond) {
		for _, col := range cols {
			if _, err := p.client.Join(ctx, &pb.JoinRequest{Peer: &pb.Peer{AddressList: []string{col.addr}, Timestamp: uint64(time.Now().Unix()), DataList: configs}}); err != nil {
				rep.Violate("handover %d: join: %v", c, err)
				return
			}
		}
		cols[0].mu.Lock()
		a := cols[0].adds
		cols[0].mu.Unlock()
		cols[1].mu.Lock()
		synced = a > 0 && cols[1].adds > 0
		cols[1].mu.Unlock()
		rep.Count("announced", 2)
	}
	if !synced {
		rep.Violate("handover %d: a server that was joined by two members did not tell them about each other within 200 s", c)
		return
	}
	time.Sleep(3 * time.Second)
	// some refuse some of the time
	for _, col := range cols {
		share := []float64{0, 0, 0.3}[r.IntN(3)]
		rr := rand.New(rand.NewPCG(r.Uint64(), 1))
		col.mu.Lock()
		col.refuse = func() bool { return rr.Float64() < share }
		col.mu.Unlock()
	}
	p.cmd.Process.Signal([]os.Signal{syscall.SIGTERM, syscall.SIGINT}[c%2])
	if !p.wait(100 * time.Second) {
		rep.Violate("handover %d: still running 100 s after the signal though both members accept entries; %s", c, p.tail())
		return
	}
	if p.err != nil {
		rep.Violate("handover %d: ended with %v; %s", c, p.err, p.tail())
	}
	got := map[string]bool{}
	transfers := 0
	for _, col := range cols {
		col.mu.Lock()
		for i, q := range col.inserts {
			k := q.GetDataName() + "/" + lib.KeyID(q.GetDatum().GetKey())
			w, ok := want[k]
			transfers++
			ttl := q.GetConfig().GetTTL()
			if !ok || w.val != lib.ValID(q.GetDatum().GetValue()) {
				rep.Violate("handover %d: handed over %s=%s, stored was %q", c, k, lib.ValID(q.GetDatum().GetValue()), w.val)
			} else if w.ttl == 0 && ttl != 0 || w.ttl != 0 && (int64(ttl) > int64(w.ttl)+1 || int64(ttl) < int64(w.ttl)-(col.at[i]-w.at)-30) {
				rep.Violate("handover %d: handed over %s with time-to-live %d, inserted with %d %d s before", c, k, ttl, w.ttl, col.at[i]-w.at)
			}
			got[k] = true
		}
		col.mu.Unlock()
	}
	lost := 0
	for k := range want {
		if !got[k] {
			lost++
		}
	}
	if lost > 0 {
		rep.Violate("handover %d: %d of %d entries were not handed over to any member before the server ended", c, lost, len(want))
	}
	rep.Count("handed_over", len(want)-lost)
	rep.Case(fmt.Sprint("handover", c, len(want), transfers))
	rep.Sample(fmt.Sprintf("%d entries in %d data sets, %d transfers", len(want), len(names), transfers))
}
