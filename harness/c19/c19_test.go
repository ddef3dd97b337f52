package c19

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"verif/harness/lib"

	"github.com/bgokden/veri/node"
	veriserviceserver "github.com/bgokden/veri/server"
	"github.com/bgokden/veri/state"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
)

// An event of the trace of one draining node. Times are nanoseconds since the start of the child.
type event struct {
	Op    string `json:"op"` // insert, ready, close, created
	Start int64  `json:"start"`
	End   int64  `json:"end"`
	OK    bool   `json:"ok"`
	Text  string `json:"text,omitempty"`
}

func healthy() int {
	w := httptest.NewRecorder()
	veriserviceserver.GetHeath(w, httptest.NewRequest("GET", "/health", nil))
	return w.Code
}

func probe() int {
	w := httptest.NewRecorder()
	veriserviceserver.GetReady(w, httptest.NewRequest("GET", "/ready", nil))
	return w.Code
}

// TestNode is one life of a node, ended by a graceful shutdown that takes a while because peers refuse entries.
func TestNode(t *testing.T) {
	out := os.Getenv("C19_OUT")
	if out == "" {
		return
	}
	log.SetOutput(io.Discard)
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
	seed, _ := strconv.ParseUint(os.Getenv("C19_SEED"), 10, 64)
	r := rand.New(rand.NewPCG(seed, 1))
	t0 := time.Now()
	var mu sync.Mutex
	var evs []event
	put := func(op string, start time.Time, ok bool, text string) {
		mu.Lock()
		evs = append(evs, event{op, start.Sub(t0).Nanoseconds(), time.Since(t0).Nanoseconds(), ok, text})
		mu.Unlock()
	}
	state.Health.Store(true) // as a server does when it starts
	s := time.Now()
	put("ready", s, probe() == 200, "")
	time.Sleep(time.Duration(r.IntN(5)) * time.Millisecond)
	s = time.Now()
	put("ready", s, probe() == 200, "")
	l, err := lib.Listen()
	if err != nil {
		panic("HARNESS " + err.Error())
	}
	port := l.Addr().(*net.TCPAddr).Port
	s = time.Now()
	n := node.NewNode(&node.NodeConfig{Port: uint32(port), Folder: filepath.Join(filepath.Dir(out), fmt.Sprint("node", seed)), AdvertisedIds: []string{fmt.Sprintf("localhost:%d", port)}})
	put("created", s, true, "")
	srv := grpc.NewServer()
	pb.RegisterVeriServiceServer(srv, n)
	go srv.Serve(l)
	conn, err := grpc.Dial(fmt.Sprintf("localhost:%d", port), grpc.WithInsecure())
	if err != nil {
		panic("HARNESS " + err.Error())
	}
	client := pb.NewVeriServiceClient(conn)
	for i := 0; i < 600; i++ {
		s := time.Now()
		ok := probe() == 200
		put("ready", s, ok, "")
		if ok {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	resync(r, n, put)
	// data sets; those with sources keep the shutdown busy
	var accept atomic.Bool
	names := []string{}
	for i := 0; i < 1+r.IntN(4); i++ {
		name := fmt.Sprint("set", i)
		names = append(names, name)
		d, err := n.Dataset.GetOrCreateIfNotExists(&pb.DataConfig{Name: name, NoTarget: true, Version: 1})
		if err != nil {
			panic("HARNESS " + err.Error())
		}
		for k := 0; k < 20; k++ {
			d.Insert(lib.Datum([]float32{float32(k), float32(i)}, "", "x", 1), nil)
		}
		d.AddSource(&lib.Source{ID: "p", OnInsert: func(d *pb.Datum, c *pb.InsertConfig) error {
			if accept.Load() {
				return nil
			}
			return errors.New("refused")
		}})
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	loop := func(f func(r *rand.Rand)) {
		wr := rand.New(rand.NewPCG(seed, r.Uint64()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				f(wr)
				time.Sleep(time.Duration(wr.IntN(4000)) * time.Microsecond)
			}
		}()
	}
	var fresh atomic.Int64
	ins := func(direct bool) func(r *rand.Rand) {
		return func(r *rand.Rand) {
			name := names[r.IntN(len(names))]
			if r.IntN(2) == 0 {
				name = fmt.Sprint("fresh", fresh.Add(1)%50)
			}
			q := &pb.InsertionRequest{DataName: name, Datum: lib.Datum([]float32{r.Float32(), 1}, "", "y", 2)}
			if strings.HasPrefix(name, "fresh") { // default configuration
				q.Config = &pb.InsertConfig{Count: 1}
			}
			if r.IntN(4) == 0 {
				q.Config = &pb.InsertConfig{TTL: 1000, Count: uint64(r.IntN(2))}
			}
			ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
			defer cancel()
			s := time.Now()
			var err error
			if direct {
				_, err = n.Insert(ctx, q)
			} else {
				_, err = client.Insert(ctx, q)
			}
			text := ""
			if err != nil {
				text = err.Error()
			}
			put("insert", s, err == nil, text)
		}
	}
	loop(ins(true))
	loop(ins(false))
	loop(func(*rand.Rand) { s := time.Now(); put("ready", s, probe() == 200, "") })
	loop(func(*rand.Rand) { s := time.Now(); put("ready", s, probe() == 200, "") })
	loop(func(*rand.Rand) {
		s, code := time.Now(), healthy()
		put("health", s, code == 200, fmt.Sprint(code))
	})
	loop(func(r *rand.Rand) {
		switch r.IntN(4) {
		case 0:
			n.Periodic()
			time.Sleep(20 * time.Millisecond)
		default:
			n.SyncWithPeers()
		}
	})
	time.Sleep(time.Duration(200+r.IntN(400)) * time.Millisecond)
	s = time.Now()
	closed := make(chan struct{})
	go func() { n.Close(); close(closed) }()
	time.Sleep(time.Duration(1800+r.IntN(600)) * time.Millisecond)
	accept.Store(true)
	select {
	case <-closed:
	case <-time.After(60 * time.Second):
		put("close", s, false, "close did not return")
	}
	put("close", s, true, "")
	time.Sleep(400 * time.Millisecond)
	close(stop)
	wg.Wait()
	mu.Lock()
	b, _ := json.Marshal(evs)
	os.WriteFile(out+".tmp", b, 0644)
	os.Rename(out+".tmp", out)
	os.Exit(0)
}

// resync withdraws readiness as a starting server does, and lets a synchronization hang on peers that do not answer:
// the probe may report ready only after it has ended.
func resync(r *rand.Rand, n *node.Node, put func(string, time.Time, bool, string)) {
	time.Sleep(50 * time.Millisecond) // the initial one is over
	var peers []net.Listener
	var mu sync.Mutex
	var conns []net.Conn
	for i := 0; i < 2; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic("HARNESS " + err.Error())
		}
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				mu.Lock()
				conns = append(conns, c)
				mu.Unlock()
			}
		}()
		peers = append(peers, l)
		n.AddPeerElement(&pb.Peer{AddressList: []string{l.Addr().String()}, Timestamp: uint64(time.Now().Unix())})
	}
	state.Ready.Store(false)
	done := make(chan struct{})
	go func() { n.SyncWithPeers(); close(done) }()
	for i := 0; i < 15; i++ {
		s := time.Now()
		ok := probe() == 200
		mu.Lock()
		hanging := len(conns) > 0
		mu.Unlock()
		if hanging || i < 3 {
			put("syncing", s, ok, "")
		}
		time.Sleep(time.Duration(1+r.IntN(20)) * time.Millisecond)
	}
	for _, l := range peers {
		l.Close()
	}
	mu.Lock()
	for _, c := range conns {
		c.Close()
	}
	mu.Unlock()
	s := time.Now()
	select {
	case <-done:
	case <-time.After(100 * time.Second):
		put("synced", s, false, "the synchronization did not end")
	}
	put("synced", s, probe() == 200, "")
}

func TestDrain(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "drain")
	n := rep.N(24, 200)
	if rep.Stage == "race" {
		n = rep.N(9, 60)
	}
	sem := make(chan struct{}, 4)
	var wg sync.WaitGroup
	for c := 0; c < n; c++ {
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			drain(rep, c)
		}()
	}
	wg.Wait()
	rep.Done()
}

func drain(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("drain", c))
	base := lib.TempDir("drain")
	out := filepath.Join(base, "trace")
	cmd := exec.Command(os.Args[0], "-test.run", "^TestNode$", "-test.timeout", "0")
	cmd.Env = append(os.Environ(), "C19_OUT="+out, fmt.Sprint("C19_SEED=", r.Uint64()))
	ef, _ := os.Create(filepath.Join(base, "err"))
	cmd.Stderr = ef
	cmd.Run()
	ef.Close()
	b, err := os.ReadFile(out)
	if err != nil {
		e, _ := os.ReadFile(filepath.Join(base, "err"))
		if strings.Contains(string(e), "HARNESS") {
			rep.Inconclusive("child: %.2000s", e)
		}
		rep.Violate("drain %d: the node went down: %.3000s", c, e)
		return
	}
	var evs []event
	json.Unmarshal(b, &evs)
	judge(rep, c, evs)
	os.RemoveAll(base)
}

// judge decides the trace specification.
func judge(rep *lib.Rep, c int, evs []event) {
	var created, closeStart, closeEnd int64 = -1, -1, -1
	for _, e := range evs {
		switch e.Op {
		case "created":
			created = e.Start
		case "close":
			if !e.OK {
				rep.Violate("drain %d: %s", c, e.Text)
			}
			closeStart, closeEnd = e.Start, e.End
		}
	}
	if created < 0 || closeStart < 0 {
		rep.Inconclusive("drain %d: incomplete trace", c)
	}
	// the flags are the first thing a shutdown sets; a full second is left for the scheduler
	drained := closeStart + int64(time.Second)
	firstRefused, firstUnready := int64(-1), int64(-1)
	ready, acc, refused, unready := 0, 0, 0, 0
	for _, e := range evs {
		switch e.Op {
		case "syncing":
			rep.Count("probes_while_synchronizing", 1)
			if e.OK {
				rep.Violate("drain %d: the probe reports ready while the node still synchronizes with its peers", c)
			}
		case "health":
			rep.Count("health_probes", 1)
			if !e.OK {
				rep.Violate("drain %d: the health probe of the running node reports %s (shutdown started: %v)", c, e.Text, e.End > closeStart)
			}
		case "synced":
			if !e.OK {
				rep.Violate("drain %d: not ready after the synchronization: %s", c, e.Text)
			}
		case "ready":
			if e.OK && e.End < created {
				rep.Violate("drain %d: the probe reports ready before the node exists", c)
			}
			if e.OK {
				ready++
			} else if e.Start > closeStart {
				unready++
				if firstUnready < 0 || e.End < firstUnready {
					firstUnready = e.End
				}
			}
		case "insert":
			if e.OK {
				acc++
			} else if e.Start > closeStart && strings.Contains(e.Text, "drain") {
				refused++
				if firstRefused < 0 || e.End < firstRefused {
					firstRefused = e.End
				}
			}
			// maintenance may remove an empty data set between its creation and the first insert, which then fails
			if !e.OK && e.End < closeStart && !strings.Contains(e.Text, "closed") {
				rep.Violate("drain %d: an insert before the shutdown failed: %s", c, e.Text)
			}
		}
	}
	if ready == 0 {
		rep.Violate("drain %d: the probe never reported ready", c)
	}
	ms := func(x int64) float64 { return float64(x-closeStart) / 1e6 }
	bad := 0
	for _, e := range evs {
		if e.Start < closeStart || bad > 2 {
			continue
		}
		switch {
		case e.Op == "ready" && e.OK && e.Start > drained:
			rep.Violate("drain %d: the probe reports ready %.1f ms after the shutdown started", c, ms(e.Start))
			bad++
		case e.Op == "ready" && e.OK && firstUnready >= 0 && e.Start > firstUnready:
			rep.Violate("drain %d: the probe reports ready again %.1f ms after the shutdown started (not ready since %.1f ms)", c, ms(e.Start), ms(firstUnready))
			bad++
		case e.Op == "insert" && e.OK && e.Start > drained:
			rep.Violate("drain %d: an insert was accepted %.1f ms after the shutdown started (which took %.1f ms)", c, ms(e.Start), ms(closeEnd))
			bad++
		case e.Op == "insert" && e.OK && firstRefused >= 0 && e.Start > firstRefused:
			rep.Violate("drain %d: an insert was accepted %.1f ms after the shutdown started, inserts were refused since %.1f ms", c, ms(e.Start), ms(firstRefused))
			bad++
		}
	}
	rep.Count("ready_probes", ready)
	rep.Count("unready_probes_after_shutdown", unready)
	rep.Count("inserts_accepted_before", acc)
	rep.Count("inserts_refused_after", refused)
	sig := ""
	if ready > 5 && unready > 5 && acc > 5 && refused > 5 {
		sig = fmt.Sprint(c, ready, unready, acc, refused)
	}
	rep.Case(sig)
	rep.Sample(fmt.Sprintf("%d probes ready before, %d not ready after, %d inserts accepted before, %d refused after, shutdown took %.0f ms", ready, unready, acc, refused, ms(closeEnd)))
}

// ---- the real server process with its HTTP probes

func get(path string) (int, error) {
	c := http.Client{Timeout: 20 * time.Second}
	resp, err := c.Get("http://127.0.0.1:8000" + path)
	if err != nil {
		return 0, err
	}
	io.Copy(io.Discard, resp.Body)
	resp.Body.Close()
	return resp.StatusCode, nil
}

func TestServer(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "server probes")
	if l, err := net.Listen("tcp", ":8000"); err != nil { // the probes have a fixed port
		rep.Count("port_8000_taken", 1)
		rep.Case("skipped")
		rep.Done()
	} else {
		l.Close()
	}
	for c := 0; c < rep.N(3, 15); c++ {
		server(rep, c)
	}
	rep.Done()
}

func server(rep *lib.Rep, c int) {
	base := lib.TempDir("server")
	port := lib.FreePort()
	cmd := exec.Command(os.Getenv("VERIF_SERVER"), "serve", "-p", fmt.Sprint(port), "-d", filepath.Join(base, "dir"), "-b", "localhost")
	ef, _ := os.Create(filepath.Join(base, "err"))
	cmd.Stderr = ef
	if err := cmd.Start(); err != nil {
		rep.Inconclusive("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	defer cmd.Process.Kill()
	up := false
	for i := 0; i < 600 && !up; i++ {
		code, err := get("/ready")
		up = err == nil && code == 200
		if !up {
			time.Sleep(50 * time.Millisecond)
		}
	}
	if !up {
		rep.Violate("server %d: not ready after 30 s", c)
		return
	}
	for _, p := range []string{"/", "/health"} {
		if code, err := get(p); err != nil || code != 200 {
			rep.Violate("server %d: probe %s of a running server: %d %v", c, p, code, err)
		}
	}
	conn, err := grpc.Dial(fmt.Sprintf("localhost:%d", port), grpc.WithInsecure())
	if err != nil {
		rep.Inconclusive("%v", err)
	}
	defer conn.Close()
	client := pb.NewVeriServiceClient(conn)
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	insert := func(name string, k int) error {
		_, err := client.Insert(ctx, &pb.InsertionRequest{DataName: name, Datum: lib.Datum([]float32{float32(k), 1}, "", "l", 1), Config: &pb.InsertConfig{Count: 1}})
		return err
	}
	for k := 0; k < 20; k++ {
		if err := insert("set", k); err != nil {
			rep.Violate("server %d: insert: %v", c, err)
		}
	}
	code, err := get("/ready")
	if err != nil || code != 200 {
		rep.Violate("server %d: not ready any more: %d %v", c, code, err)
	}
	cmd.Process.Signal([]os.Signal{syscall.SIGTERM, syscall.SIGINT}[c%2])
	refused := 0
	for e := time.Now().Add(5 * time.Second); time.Now().Before(e); { // until it is gone
		code, err := get("/ready")
		if err != nil {
			break
		}
		if code != 200 {
			refused++
		} else if refused > 0 {
			rep.Violate("server %d: ready again during the shutdown", c)
		}
	}
	select {
	case err := <-done:
		if err != nil {
			b, _ := os.ReadFile(filepath.Join(base, "err"))
			rep.Violate("server %d: the shutdown failed: %v %.2000s", c, err, b)
		}
	case <-time.After(60 * time.Second):
		rep.Violate("server %d: still running 60 s after the signal", c)
	}
	rep.Count("probes", 4)
	rep.Case(fmt.Sprint("server", c))
}
