package c20

import (
	"errors"
	"fmt"
	"net"
	"sync"
	"testing"
	"time"

	"verif/harness/lib"

	"github.com/bgokden/veri/node"
	"github.com/bgokden/veri/util"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
)

// peer is a scripted node that is asked over a real connection.
type peer struct {
	pb.UnimplementedVeriServiceServer
	kind    string
	delay   time.Duration
	ans     map[string][]*pb.ScoredDatum
	release chan struct{}
	srv     *grpc.Server
	addr    string

	mu    sync.Mutex
	asked map[string]int
	sent  []sentAt
	dead  time.Time
}

type sentAt struct {
	sd *pb.ScoredDatum
	at time.Time
}

func (p *peer) wait(d time.Duration) {
	select {
	case <-time.After(d):
	case <-p.release:
	}
}

func (p *peer) SearchStream(req *pb.SearchRequest, stream pb.VeriService_SearchStreamServer) error {
	id := ""
	if len(req.GetDatum()) > 0 {
		id = lib.KeyID(req.Datum[0].GetKey())
	}
	p.mu.Lock()
	p.asked[id]++
	p.mu.Unlock()
	p.wait(p.delay)
	if p.kind == "hang" {
		<-p.release
		return nil
	}
	l := p.ans[id]
	for i, a := range l {
		if i == len(l)/2 {
			switch p.kind {
			case "halves":
				p.wait(time.Hour)
			case "fails":
				return errors.New("out of memory")
			case "dies":
				p.mu.Lock()
				p.dead = time.Now()
				p.mu.Unlock()
				go p.srv.Stop()
				return nil
			}
		}
		if stream.Send(a) != nil {
			return nil
		}
		p.mu.Lock()
		p.sent = append(p.sent, sentAt{a, time.Now()})
		p.mu.Unlock()
	}
	return nil
}

// TestWire: peers behind real connections, in real time, with timeouts up to 16 seconds.
func TestWire(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "search over connections")
	n := rep.N(48, 400)
	sem := make(chan struct{}, 16)
	var wg sync.WaitGroup
	for c := 0; c < n; c++ {
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			for try := 0; try < 3 && !overWire(rep, c); try++ {
				rep.Count("repeated_because_of_load", 1)
			}
		}()
	}
	wg.Wait()
	rep.Done()
}

// canary measures how late timers are while a case runs.
func canary() (stop func() time.Duration) {
	end, res := make(chan struct{}), make(chan time.Duration)
	go func() {
		var worst time.Duration
		last := time.Now()
		for {
			time.Sleep(5 * time.Millisecond)
			if g := time.Since(last); g > worst {
				worst = g
			}
			last = time.Now()
			select {
			case <-end:
				res <- worst
				return
			default:
			}
		}
	}()
	return func() time.Duration { close(end); return <-res }
}

func overWire(rep *lib.Rep, c int) bool {
	r := rep.Rng(fmt.Sprint("wire", c))
	T := time.Duration([]int{900, 1500, 3000, 6000, 16000}[c%5]) * time.Millisecond
	dt := lib.NewData(fmt.Sprint("w", c), nil)
	nv := 1 + r.IntN(3)
	queries := make([]*pb.Datum, nv)
	for i := range queries {
		queries[i] = lib.Datum([]float32{float32(i), r.Float32()}, fmt.Sprint("q", i), "", 0)
	}
	cfg := &pb.SearchConfig{ScoreFuncName: "VectorDistance", HigherIsBetter: r.IntN(2) == 0, Limit: uint32([]int{3, 10, 5000}[r.IntN(3)]), Timeout: uint64(T / time.Millisecond), DataName: "set"}
	nl := r.IntN(8)
	for i := 0; i < nl; i++ {
		dt.Insert(lib.Datum([]float32{r.Float32(), r.Float32()}, "local", fmt.Sprint(i), 0), nil)
	}
	var must, may []*pb.ScoredDatum
	for _, q := range queries {
		must = append(must, dt.Search(q, cfg, nil).List...)
	}
	release := make(chan struct{})
	cc := util.NewConnectionCache()
	var peers []*peer
	kinds := ""
	np := 1 + r.IntN(5)
	var listeners []net.Listener
	for s := 0; s < np; s++ {
		p := &peer{kind: []string{"prompt", "prompt", "prompt", "late", "halves", "fails", "dies", "hang", "mute", "gone"}[r.IntN(10)], ans: map[string][]*pb.ScoredDatum{}, asked: map[string]int{}, release: release}
		if s == 0 {
			p.kind = "prompt"
		}
		p.delay = time.Duration(float64(T) * 0.7 * r.Float64())
		if s == 0 { // more than any fixed limit shorter than the timeout
			p.delay = time.Duration(float64(T) * (0.6 + 0.1*r.Float64()))
		}
		if p.kind == "late" {
			p.delay = time.Duration(float64(T) * (1.2 + r.Float64()))
		}
		kinds += " " + p.kind
		for qi, q := range queries {
			n := r.IntN(6)
			if r.IntN(10) == 0 {
				n = 300
			}
			for k := 0; k < n; k++ {
				sd := &pb.ScoredDatum{Score: r.NormFloat64(), Datum: lib.Datum([]float32{float32(s), float32(k), float32(qi)}, "src", fmt.Sprint(s, k), 1)}
				p.ans[lib.KeyID(q.Key)] = append(p.ans[lib.KeyID(q.Key)], sd)
				may = append(may, sd)
			}
		}
		ln, err := lib.Listen()
		if err != nil {
			rep.Inconclusive("listen: %v", err)
			return true
		}
		p.addr = ln.Addr().String()
		switch p.kind {
		case "gone":
			ln.Close()
		case "mute": // accepts connections and says nothing
			listeners = append(listeners, ln)
		default:
			p.srv = grpc.NewServer()
			pb.RegisterVeriServiceServer(p.srv, p)
			go p.srv.Serve(ln)
			peers = append(peers, p)
		}
		dt.AddSource(node.GetDataSourceClient(&pb.Peer{AddressList: []string{p.addr}}, "set", p.addr, cc))
	}
	defer func() {
		close(release)
		for _, p := range peers {
			p.srv.Stop()
		}
		for _, l := range listeners {
			l.Close()
		}
		// not closed: its entries have nowhere to go
	}()
	desc := fmt.Sprintf("wire %d: timeout %v, peers%s, %d vectors, limit %d", c, T, kinds, nv, cfg.Limit)
	stop := canary()
	start := time.Now()
	var res []*pb.ScoredDatum
	var serr error
	ok := lib.Within(T+20*time.Second, func() { res, serr = dt.MultiAggregatedSearch(queries, lib.Config(cfg), nil) })
	took := time.Since(start)
	worst := stop()
	if worst > 100*time.Millisecond {
		return false // times are not meaningful
	}
	if !ok {
		rep.Violate("%s: no answer %v after the start", desc, took)
		return true
	}
	if serr != nil {
		rep.Violate("%s: %v", desc, serr)
	}
	if took > T+700*time.Millisecond {
		rep.Violate("%s: answered after %v", desc, took)
	}
	inTime := 0
	for _, p := range peers {
		p.mu.Lock()
		for _, q := range queries {
			if p.asked[lib.KeyID(q.Key)] == 0 && p.kind != "dies" {
				rep.Violate("%s: the %s peer was not asked", desc, p.kind)
			}
		}
		if p.kind == "prompt" { // also if the search hung up before the answer
			for _, l := range p.ans {
				must = append(must, l...)
				inTime += len(l)
			}
			p.mu.Unlock()
			continue
		}
		for _, s := range p.sent {
			if s.at.Sub(start) < time.Duration(float64(T)*0.75) && (p.dead.IsZero() || p.dead.Sub(s.at) > 100*time.Millisecond) {
				must = append(must, s.sd)
				inTime++
			}
		}
		p.mu.Unlock()
	}
	checkPart(rep, desc, cfg, must, may, res)
	rep.Case(fmt.Sprint(desc, len(must), len(res)))
	rep.Sample(desc + fmt.Sprintf(", took %v, %d answers in good time", took, inTime))
	rep.Count("answers_in_good_time_over_the_wire", inTime)
	rep.Count("results_checked_over_the_wire", len(res))
	return true
}
