package c17

import (
	"context"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"verif/harness/lib"

	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
)

// member is a real node behind a server with counting interceptors.
type member struct {
	n        *node.Node
	addr     string
	srv      *grpc.Server
	client   pb.VeriServiceClient
	conn     *grpc.ClientConn
	mu       sync.Mutex
	searches map[string]int // by query identifier
	total    int
}

type countingStream struct {
	grpc.ServerStream
	m *member
}

func (s *countingStream) RecvMsg(x any) error {
	err := s.ServerStream.RecvMsg(x)
	if q, ok := x.(*pb.SearchRequest); ok && err == nil {
		s.m.mu.Lock()
		s.m.searches[q.GetConfig().GetUuid()]++
		s.m.total++
		s.m.mu.Unlock()
	}
	return err
}

func newMember(rep *lib.Rep, services []string) *member {
	l, err := lib.Listen()
	if err != nil {
		rep.Inconclusive("%v", err)
	}
	port := l.Addr().(*net.TCPAddr).Port
	m := &member{addr: fmt.Sprintf("localhost:%d", port), searches: map[string]int{}}
	m.srv = grpc.NewServer(grpc.StreamInterceptor(func(srv any, ss grpc.ServerStream, info *grpc.StreamServerInfo, h grpc.StreamHandler) error {
		if strings.HasSuffix(info.FullMethod, "/SearchStream") {
			return h(srv, &countingStream{ss, m})
		}
		return h(srv, ss)
	}))
	m.n = node.NewNode(&node.NodeConfig{Port: uint32(port), Folder: lib.TempDir("node"), AdvertisedIds: []string{m.addr}, ServiceList: services})
	pb.RegisterVeriServiceServer(m.srv, m.n)
	go m.srv.Serve(l)
	m.conn, err = grpc.Dial(m.addr, grpc.WithInsecure(), grpc.WithBlock(), grpc.WithTimeout(30*time.Second))
	if err != nil {
		rep.Inconclusive("%v", err)
	}
	m.client = pb.NewVeriServiceClient(m.conn)
	return m
}

func (m *member) stop() {
	m.conn.Close()
	m.srv.Stop()
	m.n.PeriodicTicker.Stop()
}

func (m *member) reset() {
	m.mu.Lock()
	m.searches, m.total = map[string]int{}, 0
	m.mu.Unlock()
}

func (m *member) search(q []*pb.Datum, cfg *pb.SearchConfig, sc *pb.SearchContext) ([]*pb.ScoredDatum, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	st, err := m.client.SearchStream(ctx, &pb.SearchRequest{Config: cfg, Datum: q, Context: sc})
	if err != nil {
		return nil, err
	}
	var l []*pb.ScoredDatum
	for {
		x, err := st.Recv()
		if err == io.EOF {
			return l, nil
		}
		if err != nil {
			return nil, err
		}
		l = append(l, x)
	}
}

func TestCluster(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "cluster search")
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
	n := rep.N(40, 200)
	if rep.Stage == "race" {
		n = rep.N(12, 60)
	}
	for c := 0; c < n; c++ {
		cluster(rep, c, false)
	}
	rep.Done()
}

// TestDiscovery: nodes that only know one service address find each other by joining and gossip.
func TestDiscovery(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "cluster search")
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
	for c := 0; c < rep.N(4, 20); c++ {
		cluster(rep, c, true)
	}
	rep.Done()
}

func cluster(rep *lib.Rep, c int, discovery bool) {
	r := rep.Rng(fmt.Sprint("cluster", c, discovery))
	k := 2 + r.IntN(3)
	ms := make([]*member, k)
	for i := range ms {
		var services []string
		if discovery && i > 0 {
			services = []string{ms[r.IntN(i)].addr}
		}
		ms[i] = newMember(rep, services)
	}
	defer func() {
		for _, m := range ms {
			m.stop()
		}
	}()
	name := "set"
	cfgD := func() *pb.DataConfig { return &pb.DataConfig{Name: name, NoTarget: true, TargetN: 1000, Version: 1} }
	union, err := data.NewData(&pb.DataConfig{Name: "union", NoTarget: true}, lib.TempDir("union"))
	if err != nil {
		rep.Inconclusive("%v", err)
	}
	defer union.Close()
	parts := make([]*data.Data, k)
	for i, m := range ms {
		if parts[i], err = m.n.Dataset.GetOrCreateIfNotExists(cfgD()); err != nil {
			rep.Violate("create: %v", err)
			return
		}
	}
	// content: most entries live on one node, some on several
	dim := 2 + r.IntN(4)
	groups := []string{"", "a", "b", "c", "d"}[:1+r.IntN(5)]
	total := r.IntN(60)
	structured := r.IntN(2) == 0
	where := map[string]map[int]bool{}
	var datums []*pb.Datum
	for i := 0; i < total; i++ {
		d := lib.Datum(lib.GenVec(r, dim, 1), groups[r.IntN(len(groups))], fmt.Sprint("e", i), uint64(i))
		if structured { // labels that filters apply to
			d.Value.Label = []byte(fmt.Sprintf(`{"n":%d,"%s":1}`, i, []string{"x", "y"}[r.IntN(2)]))
			d.Key.GroupLabel = []byte(fmt.Sprintf(`{"g":"%s","%s":1}`, d.Key.GroupLabel, []string{"x", "y"}[i%2]))
		}
		if !structured && i%7 == 3 {
			d.Value.Label = nil
		}
		datums = append(datums, d)
		on := map[int]bool{r.IntN(k): true}
		for r.IntN(4) == 0 {
			on[r.IntN(k)] = true
		}
		where[lib.KeyID(d.Key)] = on
		for j := range on {
			if err := parts[j].Insert(lib.Clone(d), nil); err != nil {
				rep.Violate("insert: %v", err)
			}
		}
	}
	// who asks whom
	edges := make([]map[int]bool, k)
	indeg := make([]int, k)
	if discovery {
		for i := range edges {
			edges[i] = map[int]bool{}
			for j := range ms {
				if j != i {
					edges[i][j] = true
				}
			}
		}
		known := func() bool {
			for _, p := range parts {
				if len(p.GetSources()) < k-1 {
					return false
				}
			}
			return true
		}
		rounds := 0
		for ; rounds < 25 && !known(); rounds++ {
			time.Sleep(1100 * time.Millisecond) // records have a resolution of one second
			for _, m := range ms {
				m.n.JoinToPeers()
			}
			for _, m := range ms {
				m.n.SyncWithPeers()
			}
			rep.Count("gossip_rounds", 1)
		}
		if !known() {
			for i, p := range parts {
				rep.Violate("discovery %d: after %d rounds of joining and gossip node %d of %d knows %d peers and %d sources", c, rounds, i, k, len(ms[i].n.PeerListItems()), len(p.GetSources()))
			}
			return
		}
		for i := range indeg {
			indeg[i] = k - 1
		}
	} else {
		shape := r.IntN(4)
		for i := range edges {
			edges[i] = map[int]bool{}
			for j := range ms {
				on := false
				switch shape {
				case 0: // full mesh
					on = i != j
				case 1: // ring
					on = j == (i+1)%k
				case 2: // random, possibly with a loop to itself
					on = r.IntN(2) == 0
				case 3: // chain in both directions
					on = j == i+1 || j == i-1
				}
				if on {
					edges[i][j] = true
					indeg[j]++
					parts[i].AddSource(node.GetDataSourceClient(&pb.Peer{AddressList: []string{ms[j].addr}}, name, ms[j].addr, ms[i].n.ConnectionCache))
				}
			}
		}
	}
	reach := func(from int) map[int]bool {
		seen := map[int]bool{from: true}
		for todo := []int{from}; len(todo) > 0; {
			x := todo[0]
			todo = todo[1:]
			for y := range edges[x] {
				if !seen[y] {
					seen[y] = true
					todo = append(todo, y)
				}
			}
		}
		return seen
	}
	for s := 0; s < 8; s++ {
		o := r.IntN(k)
		rs := reach(o)
		// the reference is one data set that holds everything reachable
		ref, err := data.NewData(&pb.DataConfig{Name: "ref", NoTarget: true}, lib.TempDir("ref"))
		if err != nil {
			rep.Inconclusive("%v", err)
		}
		size := 0
		for _, d := range datums {
			for j := range where[lib.KeyID(d.Key)] {
				if rs[j] {
					ref.Insert(lib.Clone(d), nil)
					size++
					break
				}
			}
		}
		nv := 1 + r.IntN(3)
		if r.IntN(12) == 0 {
			nv = 4 + r.IntN(40)
		}
		var qs []*pb.Datum
		for i := 0; i < nv; i++ {
			v := lib.GenVec(r, dim, 1)
			if len(datums) > 0 && i == 0 && r.IntN(2) == 0 { // what is asked for is there (only once: two would be tied)
				v = append([]float32{}, datums[r.IntN(len(datums))].Key.Feature...)
			}
			qs = append(qs, lib.Datum(v, "q", fmt.Sprint(i), 0))
		}
		cfg := func() *pb.SearchConfig { return nil }
		base := &pb.SearchConfig{DataName: name, ScoreFuncName: lib.ExactFuncs[r.IntN(len(lib.ExactFuncs))], HigherIsBetter: r.IntN(2) == 0, Limit: uint32([]int{1, 3, 10, 100}[r.IntN(4)]), Timeout: 60000}
		if r.IntN(3) == 0 {
			base.GroupLimit = uint32(1 + r.IntN(3))
		}
		if r.IntN(4) == 0 {
			base.ResultLimit = uint64(1 + r.IntN(5))
		}
		if structured && r.IntN(2) == 0 {
			if r.IntN(2) == 0 {
				base.Filters = []string{[]string{"x", "y", "n"}[r.IntN(3)]}
			}
			if r.IntN(2) == 0 {
				base.GroupFilters = []string{[]string{"x", "y", "g"}[r.IntN(3)]}
			}
			rep.Count("filtered_searches", 1)
		}
		uid := ""
		if r.IntN(2) == 0 {
			uid = fmt.Sprint("query", c, s)
		}
		cfg = func() *pb.SearchConfig {
			x := &pb.SearchConfig{DataName: base.DataName, ScoreFuncName: base.ScoreFuncName, HigherIsBetter: base.HigherIsBetter, Limit: base.Limit, Timeout: base.Timeout, GroupLimit: base.GroupLimit, ResultLimit: base.ResultLimit, Uuid: uid, Filters: base.Filters, GroupFilters: base.GroupFilters}
			return x
		}
		var sc *pb.SearchContext
		if base.GroupLimit == 0 && r.IntN(4) == 0 {
			sc = &pb.SearchContext{Datum: []*pb.Datum{lib.Datum(lib.GenVec(r, dim, 1), "c", "", 0)}, Prioritize: r.IntN(2) == 0}
		}
		for _, m := range ms {
			m.reset()
		}
		what := fmt.Sprintf("cluster %d search %d: %d nodes, edges %v, origin %d, %d reachable entries, %d query vectors, %v", c, s, k, edges, o, size, nv, base)
		got, err := ms[o].search(qs, cfg(), sc)
		if err != nil {
			rep.Violate("%s: %v", what, err)
			continue
		}
		rc := cfg()
		rc.Uuid = ""
		want, err := ref.MultiAggregatedSearch(qs, rc, sc)
		ref.Close()
		if err != nil {
			rep.Violate("%s: reference: %v", what, err)
			continue
		}
		if len(got) != len(want) {
			rep.Violate("%s: %d results, one node holding everything returns %d", what, len(got), len(want))
			continue
		}
		seen := map[string]bool{}
		for i := range got {
			g, w := got[i], want[i]
			id := lib.DatumID(g.Datum)
			if seen[id] {
				rep.Violate("%s: %s is returned twice", what, id)
			}
			seen[id] = true
			tol := 1e-9 * (1 + math.Abs(w.Score))
			if math.Abs(g.Score-w.Score) > tol || (id != lib.DatumID(w.Datum) && !tied(want, i)) {
				rep.Violate("%s: rank %d is %s with score %v, one node holding everything returns %s with %v", what, i, g.Datum.GetValue().GetLabel(), g.Score, w.Datum.GetValue().GetLabel(), w.Score)
				break
			}
		}
		// work is bounded: every node hears of a query vector at most once from each node that asks it
		for j, m := range ms {
			m.mu.Lock()
			bound := indeg[j] * nv
			if nv > 1 && edges[o][j] { // the origin may hear of its own query vectors from peers once more
				bound += nv
			}
			if j == o {
				bound++
			}
			if m.total > bound {
				rep.Violate("%s: node %d was asked %d times (bound %d): %v", what, j, m.total, bound, m.searches)
			}
			if !rs[j] && m.total > 0 {
				rep.Violate("%s: node %d cannot be reached but was asked", what, j)
			}
			rep.Count("search_requests", m.total)
			m.mu.Unlock()
		}
		if uid != "" { // the same identifier again, also several times at once, is not answered
			again, err := ms[o].search(qs, cfg(), sc)
			if err != nil || len(again) > 0 {
				rep.Violate("%s: the repeated query identifier got %d results, %v", what, len(again), err)
			}
			uid = fmt.Sprint("burst", c, s)
			var wg sync.WaitGroup
			var mu sync.Mutex
			full := 0
			for b := 0; b < 5; b++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					l, err := ms[o].search(qs, cfg(), sc)
					mu.Lock()
					if err == nil && len(l) > 0 {
						full++
						if len(l) != len(want) {
							rep.Violate("%s: one of five simultaneous requests with one identifier got %d results instead of %d", what, len(l), len(want))
						}
					}
					mu.Unlock()
				}()
			}
			wg.Wait()
			if full > 1 || (full == 0 && len(want) > 0) {
				rep.Violate("%s: %d of five simultaneous requests with one identifier were answered", what, full)
			}
			rep.Count("repeated_identifiers", 6)
		}
		sig := ""
		if size > 0 && len(rs) > 1 {
			sig = fmt.Sprint(c, s, edges, o, size, nv, base.Limit, base.GroupLimit, discovery)
		}
		rep.Case(sig)
		if s == 0 {
			rep.Sample(what)
		}
	}
}

// tied reports whether rank i shares its score with a neighbour or is the last one.
func tied(l []*pb.ScoredDatum, i int) bool {
	near := func(a, b float64) bool { return math.Abs(a-b) <= 1e-9*(1+math.Abs(a)) }
	return i == len(l)-1 || near(l[i].Score, l[i+1].Score) || (i > 0 && near(l[i].Score, l[i-1].Score))
}

// answers is a stream that only counts.
type answers struct {
	grpc.ServerStream
	n int
}

func (a *answers) Send(*pb.ScoredDatum) error { a.n++; return nil }

// TestRepeat: an identifier is remembered for minutes, whatever the options of the query and the other queries.
func TestRepeat(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "repeated query identifiers")
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
	lib.Bubble(t, rep, func() {
		for c := 0; c < rep.N(60, 400); c++ {
			repeat(rep, c)
		}
	})
}

func repeat(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("repeat", c))
	n := node.NewNode(&node.NodeConfig{Port: 1, Folder: lib.TempDir("node")})
	n.PeriodicTicker.Stop()
	dt, err := n.Dataset.GetOrCreateIfNotExists(&pb.DataConfig{Name: "d", NoTarget: true})
	if err != nil {
		rep.Inconclusive("%v", err)
	}
	for i := 0; i < 5; i++ {
		dt.Insert(lib.Datum([]float32{float32(i), 1}, "", fmt.Sprint(i), 0), nil)
	}
	first := map[string]time.Time{}
	ask := func(id string, cfg *pb.SearchConfig) int {
		cfg.Uuid = id
		a := &answers{}
		var qs []*pb.Datum
		for i, nq := 0, 1+r.IntN(3); i < nq; i++ {
			qs = append(qs, lib.Datum([]float32{r.Float32(), 1}, "", "", 0))
		}
		if err := n.SearchStream(&pb.SearchRequest{Datum: qs, Config: cfg}, a); err != nil {
			rep.Violate("repeat %d: %v", c, err)
		}
		return a.n
	}
	ids := 0
	for s := 0; s < 40; s++ {
		cfg := &pb.SearchConfig{DataName: "d", Limit: uint32(1 + r.IntN(8)), Timeout: uint64([]int{1, 50, 1000, 100000}[r.IntN(4)]), ScoreFuncName: lib.ExactFuncs[r.IntN(len(lib.ExactFuncs))]}
		if r.IntN(3) == 0 {
			cfg.CacheDuration = uint64(1 + r.IntN(100))
		}
		id := fmt.Sprint("id", r.IntN(6), "-", c)
		if r.IntN(3) == 0 { // another one, maybe similar
			ids++
			id = fmt.Sprint([]string{"", "x", id, "0", "id"}[r.IntN(5)], "-", ids)
		}
		at, known := first[id]
		age := time.Since(at)
		got := ask(id, cfg)
		switch {
		case !known && got == 0:
			rep.Violate("repeat %d: new query identifier %q was not answered", c, id)
		case known && age < 4*time.Minute+50*time.Second && got > 0:
			rep.Violate("repeat %d: query identifier %q was answered again after %v (timeout %d ms)", c, id, age, cfg.Timeout)
		case known && age < 4*time.Minute+50*time.Second:
			rep.Count("repeated_identifiers", 1)
			rep.Case(fmt.Sprint(c, id, age))
		}
		if !known || got > 0 {
			first[id] = time.Now()
		}
		if r.IntN(3) == 0 {
			time.Sleep(time.Duration(r.IntN([]int{2, 1000, 60000, 250000}[r.IntN(4)])) * time.Millisecond)
		}
	}
	n.Dataset.Close()
	time.Sleep(2 * time.Second)
}
