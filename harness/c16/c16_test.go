package c16

import (
	"context"
	"fmt"
	"io"
	"log"
	"math"
	"math/rand/v2"
	"net"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"verif/harness/lib"

	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
)

// TestNode is the node under attack. It refreshes its data sets and runs its periodic tasks all the time.
func TestNode(t *testing.T) {
	dir := os.Getenv("C16_DIR")
	if dir == "" {
		return
	}
	log.SetOutput(io.Discard)
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
	var port uint32
	fmt.Sscan(os.Getenv("C16_PORT"), &port)
	n := node.NewNode(&node.NodeConfig{Port: port, Folder: dir, AdvertisedIds: []string{fmt.Sprintf("localhost:%d", port)}})
	go func() {
		for i := 0; ; i++ {
			time.Sleep(150 * time.Millisecond)
			for _, name := range n.Dataset.List() {
				if d, err := n.Dataset.GetNoCreate(name); err == nil {
					d.Process(true)
				}
			}
			if i%5 == 4 {
				n.Periodic()
			}
		}
	}()
	n.Listen()
	os.Exit(9)
}

type child struct {
	cmd    *exec.Cmd
	port   int
	conn   *grpc.ClientConn
	client pb.VeriServiceClient
	exited chan struct{}
	errf   string
}

func startNode(rep *lib.Rep) *child {
	for try := 0; try < 5; try++ {
		l, err := lib.Listen()
		if err != nil {
			rep.Inconclusive("%v", err)
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		base := lib.TempDir("node")
		c := &child{port: port, exited: make(chan struct{}), errf: base + "/err"}
		c.cmd = exec.Command(os.Args[0], "-test.run", "^TestNode$", "-test.timeout", "0")
		c.cmd.Env = append(os.Environ(), "C16_DIR="+base, fmt.Sprint("C16_PORT=", port))
		f, _ := os.Create(c.errf)
		c.cmd.Stderr = f
		if err := c.cmd.Start(); err != nil {
			rep.Inconclusive("%v", err)
		}
		f.Close()
		if rep.Stage == "plain" { // an allocation sized by a request shows as a crash, not as an exhausted machine
			lim := syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30}
			syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(c.cmd.Process.Pid), 9, uintptr(unsafe.Pointer(&lim)), 0, 0, 0)
		}
		go func() { c.cmd.Wait(); close(c.exited) }()
		c.conn, err = grpc.Dial(fmt.Sprintf("127.0.0.1:%d", port), grpc.WithInsecure(), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(1<<28)))
		if err != nil {
			rep.Inconclusive("%v", err)
		}
		c.client = pb.NewVeriServiceClient(c.conn)
		for i := 0; i < 300; i++ {
			ctx, cancel := context.WithTimeout(context.Background(), time.Second)
			_, err := c.client.Ping(ctx, &pb.PingRequest{})
			cancel()
			if err == nil {
				return c
			}
			select {
			case <-c.exited:
				i = 300
			case <-time.After(100 * time.Millisecond):
			}
		}
		c.cmd.Process.Kill()
	}
	rep.Inconclusive("the node does not start")
	return nil
}

func (c *child) dead() bool {
	select {
	case <-c.exited:
		return true
	default:
		return false
	}
}

// generators of hostile fields

var names = []string{"h0", "h1", "h2", "", "..", "a/b", "h0", "h1", "never", "x\x00y", strings.Repeat("n", 300)}

func name(r *rand.Rand) string { return names[r.IntN(len(names))] }

func u64(r *rand.Rand) uint64 {
	return []uint64{0, 0, 1, 2, 10, 1000, 5000, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64, math.MaxUint64 - 1, 1 << 53, r.Uint64()}[r.IntN(15)]
}
func u32(r *rand.Rand) uint32 {
	return []uint32{0, 0, 1, 2, 10, 1000, 1 << 16, 1<<31 - 1, 1 << 31, math.MaxUint32, r.Uint32()}[r.IntN(11)]
}
func f32(r *rand.Rand) float32 {
	return []float32{0, 1, -1, float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Copysign(0, -1)), float32(r.NormFloat64())}[r.IntN(11)]
}
func feature(r *rand.Rand) []float32 {
	n := []int{0, 0, 1, 2, 3, 3, 3, 8, 100, 2000}[r.IntN(10)]
	f := make([]float32, n)
	wild := r.IntN(3) == 0
	for i := range f {
		if wild {
			f[i] = f32(r)
		} else {
			f[i] = float32(r.NormFloat64())
		}
	}
	return f
}

var labels = []string{"", "x", "{}", `{"a":1}`, `{"a":{"b":[1,2,{"c":null}]}}`, `{"a":`, "[[[[[[", "\xff\xfe", "null", strings.Repeat(`{"a":`, 2000), strings.Repeat("L", 70000)}
var paths = []string{"a", "", ".", "..", "a.b", "a.b.2.c", "#", "a.#", "a.#(x", "a.#(c==1)#", "@this", "@pretty:{", "@reverse|@", "*", "?", "\\", "a|b", "[a,b]", "{a", "@flatten|@join:", "~true", strings.Repeat("a.", 5000), "\x00", "@valid", "!", `#(a="`, `a.#(b>"x")#|#`}

func label(r *rand.Rand) []byte {
	if r.IntN(6) == 0 {
		return nil
	}
	return []byte(labels[r.IntN(len(labels))])
}
func pathList(r *rand.Rand) []string {
	var l []string
	for i := r.IntN(4); i > 0; i-- {
		l = append(l, paths[r.IntN(len(paths))])
	}
	return l
}

func key(r *rand.Rand) *pb.DatumKey {
	if r.IntN(7) == 0 {
		return nil
	}
	return &pb.DatumKey{Feature: feature(r), GroupLabel: label(r), Size1: u32(r), Size2: u32(r), Dim1: u32(r), Dim2: u32(r)}
}
func value(r *rand.Rand) *pb.DatumValue {
	if r.IntN(7) == 0 {
		return nil
	}
	return &pb.DatumValue{Version: u64(r), Label: label(r)}
}
func datum(r *rand.Rand) *pb.Datum {
	if r.IntN(10) == 0 {
		return nil
	}
	return &pb.Datum{Key: key(r), Value: value(r)}
}
func datums(r *rand.Rand) []*pb.Datum {
	var l []*pb.Datum
	for i := []int{0, 1, 1, 1, 2, 5, 40}[r.IntN(7)]; i > 0; i-- {
		d := datum(r)
		if d == nil { // absent elements of a list arrive as empty messages
			d = &pb.Datum{}
		}
		l = append(l, d)
	}
	return l
}
func config(r *rand.Rand) *pb.DataConfig {
	u := []float64{0, 0.4, 1, -1, 2, math.NaN(), math.Inf(1), 1e300}[r.IntN(8)]
	return &pb.DataConfig{Name: name(r), Version: u64(r), TargetN: u64(r), TargetUtilization: u, NoTarget: r.IntN(3) > 0, ReplicationOnInsert: u32(r), EnforceReplicationOnInsert: r.IntN(3) == 0, Retention: u64(r)}
}

var funcs = []string{"", "VectorDistance", "AnnoyVectorDistance", "AnnoyAngularDistance", "CosineSimilarity", "Annoy", "AnnoyX", "nope", "AnnoyCosineSimilarity", "VectorMultiplication", "QuickVectorDistance"}

func searchConfig(r *rand.Rand) *pb.SearchConfig {
	if r.IntN(12) == 0 {
		return nil
	}
	c := &pb.SearchConfig{ScoreFuncName: funcs[r.IntN(len(funcs))], HigherIsBetter: r.IntN(2) == 0, Timestamp: u64(r), Timeout: u64(r), Limit: u32(r), CacheDuration: u64(r), DataName: name(r), GroupLimit: u32(r), GroupScoreFuncName: funcs[r.IntN(len(funcs))], Filters: pathList(r), ResultLimit: u64(r), GroupFilters: pathList(r)}
	if r.IntN(2) == 0 { // a reasonable search with one or two hostile fields
		v := &pb.SearchConfig{ScoreFuncName: []string{"VectorDistance", "AnnoyVectorDistance"}[r.IntN(2)], Timeout: 1000, Limit: 10, DataName: []string{"h0", "h1", "h2"}[r.IntN(3)]}
		for k := 1 + r.IntN(2); k > 0; k-- {
			switch r.IntN(9) {
			case 0:
				v.Timeout = c.Timeout
			case 1:
				v.Limit = c.Limit
			case 2:
				v.CacheDuration = c.CacheDuration
			case 3:
				v.GroupLimit = c.GroupLimit
			case 4:
				v.ResultLimit = c.ResultLimit
			case 5:
				v.Filters = c.Filters
			case 6:
				v.GroupFilters = c.GroupFilters
			case 7:
				v.ScoreFuncName, v.HigherIsBetter = c.ScoreFuncName, c.HigherIsBetter
			case 8:
				v.Timestamp = c.Timestamp
			}
		}
		return v
	}
	if r.IntN(3) == 0 {
		c.GroupLimit = 0
	}
	if r.IntN(3) == 0 {
		c.Filters, c.GroupFilters = nil, nil
	}
	if r.IntN(3) == 0 {
		c.Uuid = []string{"u", "v", strings.Repeat("u", 3000)}[r.IntN(3)]
	}
	return c
}

// Addresses that lead nowhere: what peers do with entries is not what is tested here.
var addrs = []string{"localhost:1", "", ":", "127.0.0.1:2", "no host", "[::1]:3", "unix:///nowhere", ",", "localhost:99999", "127.0.0.1", strings.Repeat("a", 500) + ":1"}

func peer(r *rand.Rand) *pb.Peer {
	if r.IntN(8) == 0 {
		return nil
	}
	p := &pb.Peer{Version: "x", Ping: u64(r)}
	switch r.IntN(3) {
	case 0:
		p.Timestamp = u64(r)
	default:
		p.Timestamp = uint64(time.Now().Unix()) + uint64(r.IntN(100))
	}
	for i := r.IntN(3); i > 0; i-- {
		p.AddressList = append(p.AddressList, addrs[r.IntN(len(addrs))])
	}
	for i := r.IntN(3); i > 0; i-- {
		p.ServiceList = append(p.ServiceList, addrs[r.IntN(len(addrs))])
	}
	for i := r.IntN(4); i > 0; i-- {
		if r.IntN(6) == 0 {
			p.DataList = append(p.DataList, &pb.DataConfig{})
		} else {
			p.DataList = append(p.DataList, config(r))
		}
	}
	return p
}

func clean(m proto.Message) proto.Message { // strings have to be valid UTF-8 to be sent at all
	return m
}

// attack sends one hostile request and returns a description, whether it was answered, and its error.
func attack(r *rand.Rand, cl pb.VeriServiceClient, rejected func(*pb.InsertionRequest, error)) (string, bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	var m proto.Message
	var err error
	kind := ""
	switch r.IntN(14) {
	case 0, 1, 2:
		kind = "insert"
		q := &pb.InsertionRequest{Datum: datum(r), DataName: name(r)}
		if r.IntN(3) > 0 {
			q.Config = &pb.InsertConfig{TTL: u64(r), Count: u64(r)}
		}
		m = q
		_, err = cl.Insert(ctx, q)
		if rejected != nil {
			rejected(q, err)
		}
	case 3, 4, 5, 6, 7:
		kind = "search"
		q := &pb.SearchRequest{Config: searchConfig(r), Datum: datums(r)}
		if r.IntN(3) == 0 {
			q.Context = &pb.SearchContext{Datum: datums(r), Prioritize: r.IntN(2) == 0}
		}
		m = q
		var st pb.VeriService_SearchStreamClient
		if st, err = cl.SearchStream(ctx, q); err == nil {
			for {
				if _, err = st.Recv(); err != nil {
					break
				}
			}
			if err == io.EOF {
				err = nil
			}
		}
	case 8:
		kind = "create"
		q := config(r)
		m = q
		_, err = cl.CreateDataIfNotExists(ctx, q)
	case 9:
		kind = "info"
		q := &pb.GetDataRequest{Name: name(r)}
		m = q
		_, err = cl.GetDataInfo(ctx, q)
	case 10:
		kind = "stream"
		q := &pb.GetDataRequest{Name: name(r)}
		m = q
		var st pb.VeriService_DataStreamClient
		if st, err = cl.DataStream(ctx, q); err == nil {
			for {
				if _, err = st.Recv(); err != nil {
					break
				}
			}
			if err == io.EOF {
				err = nil
			}
		}
	case 11:
		kind = "join"
		q := &pb.JoinRequest{Peer: peer(r)}
		m = q
		_, err = cl.Join(ctx, q)
	case 12:
		kind = "addpeer"
		q := &pb.AddPeerRequest{Peer: peer(r)}
		m = q
		_, err = cl.AddPeer(ctx, q)
	case 13:
		kind = "other"
		if r.IntN(2) == 0 {
			q := &pb.PingRequest{Timestamp: u64(r)}
			m = q
			_, err = cl.Ping(ctx, q)
		} else {
			q := &pb.SearchRequest{Config: searchConfig(r), Datum: datums(r)}
			m = q
			cl.Search(ctx, q)
		}
	}
	s := kind + " " + prototext.MarshalOptions{}.Format(m)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s, ctx.Err() == nil
}

func TestHostile(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog*2, "hostile requests")
	rounds := rep.N(6, 24)
	per := rep.N(1500, 2500)
	if rep.Stage == "race" {
		rounds, per = rep.N(3, 12), rep.N(700, 1500)
	}
	for c := 0; c < rounds; c++ {
		round(rep, c, per)
	}
	rep.Done()
}

func round(rep *lib.Rep, c int, per int) {
	n := startNode(rep)
	defer func() { n.cmd.Process.Kill(); n.conn.Close() }()
	probe := fmt.Sprintf("probe-%d-%d", rep.Seed, c)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	_, err := n.client.CreateDataIfNotExists(ctx, &pb.DataConfig{Name: probe, NoTarget: true, Version: 7, TargetN: 5})
	cancel()
	if err != nil {
		rep.Violate("round %d: creating a data set failed: %v", c, err)
		return
	}
	model := map[string]*pb.Datum{}
	var mu sync.Mutex
	var trace []string
	inserted := map[string]bool{} // accepted hostile keys by data set
	refused := map[string]string{}
	workers := 4
	var wg sync.WaitGroup
	stop := make(chan struct{})
	var once sync.Once
	fail := func(format string, a ...any) {
		once.Do(func() {
			close(stop)
			if n.dead() || func() bool { time.Sleep(time.Second); return n.dead() }() {
				b, _ := os.ReadFile(n.errf)
				s := string(b)
				if i := strings.Index(s, "panic:"); i >= 0 {
					s = s[i:]
				} else if i := strings.Index(s, "fatal error:"); i >= 0 {
					s = s[i:]
				}
				rep.Violate("round %d: the node went down: %.2500s\nlast requests: %s", c, s, strings.Join(trace[max(0, len(trace)-6):], "\n"))
			} else {
				rep.Violate("round %d: %s; last requests: %s", c, fmt.Sprintf(format, a...), strings.Join(trace[max(0, len(trace)-6):], "\n"))
			}
		})
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rep.Rng(fmt.Sprint("attack", c, w))
			for i := 0; i < per/workers; i++ {
				select {
				case <-stop:
					return
				default:
				}
				s, answered := attack(r, n.client, func(q *pb.InsertionRequest, err error) {
					id := q.DataName + "/" + lib.KeyID(q.Datum.GetKey())
					mu.Lock()
					if err == nil {
						inserted[id] = true
						delete(refused, id)
					} else if !inserted[id] && !strings.Contains(err.Error(), "Replica") && q.Datum.GetKey() != nil {
						refused[id] = q.DataName
					}
					mu.Unlock()
				})
				mu.Lock()
				trace = append(trace, s)
				mu.Unlock()
				if n.dead() {
					fail("dead")
					return
				}
				if !answered {
					fail("a request was not answered within 100 s: %s", s)
					return
				}
				rep.Case(s)
				rep.Count(strings.SplitN(s, " ", 2)[0], 1)
				if i == 3 && w == 0 {
					rep.Sample(s[:min(len(s), 400)])
				}
			}
		}()
	}
	// valid requests go on meanwhile
	go func() {
		wg.Wait()
		once.Do(func() { close(stop) })
	}()
	r := rep.Rng(fmt.Sprint("probe", c))
	for done := false; !done; {
		select {
		case <-stop:
			done = true
		default:
		}
		if msg := valid(rep, r, n, probe, model); msg != "" {
			fail("%s", msg)
			break
		}
		rep.Count("valid_probes", 1)
		time.Sleep(5 * time.Millisecond)
	}
	wg.Wait()
	if n.dead() || rep.Violations() > 0 {
		fail("dead")
		return
	}
	// no trace of refused inserts
	for _, nm := range []string{"h0", "h1", "h2"} {
		l, err := streamAll(n.client, nm)
		if err != nil {
			continue
		}
		for _, d := range l {
			id := nm + "/" + lib.KeyID(d.Key)
			if refused[id] != "" && !inserted[id] {
				rep.Violate("round %d: an insert into %q was refused but its entry is there: %s", c, nm, id)
			}
		}
		rep.Count("hostile_entries_listed", len(l))
	}
}

func streamAll(cl pb.VeriServiceClient, name string) ([]*pb.Datum, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	st, err := cl.DataStream(ctx, &pb.GetDataRequest{Name: name})
	if err != nil {
		return nil, err
	}
	var l []*pb.Datum
	for {
		d, err := st.Recv()
		if err == io.EOF {
			return l, nil
		}
		if err != nil {
			return nil, err
		}
		l = append(l, d)
	}
}

// valid checks that a well-behaved client gets right answers.
func valid(rep *lib.Rep, r *rand.Rand, n *child, probe string, model map[string]*pb.Datum) string {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	if len(model) < 150 {
		d := lib.Datum(lib.GenVec(r, 4, 1), "g", fmt.Sprint("p", len(model)), uint64(len(model)))
		if _, err := n.client.Insert(ctx, &pb.InsertionRequest{Datum: d, DataName: probe}); err != nil {
			return fmt.Sprintf("a valid insert failed: %v", err)
		}
		model[lib.KeyID(d.Key)] = d
	}
	switch r.IntN(3) {
	case 0:
		l, err := streamAll(n.client, probe)
		if err != nil {
			return fmt.Sprintf("a valid listing failed: %v", err)
		}
		got := map[string]bool{}
		for _, d := range l {
			if got[lib.DatumID(d)] || model[lib.KeyID(d.Key)] == nil {
				return fmt.Sprintf("the listing holds an entry twice or one that was never inserted: %v", d)
			}
			got[lib.DatumID(d)] = true
		}
		if len(got) != len(model) {
			return fmt.Sprintf("the listing holds %d of %d entries", len(got), len(model))
		}
	case 1:
		info, err := n.client.GetDataInfo(ctx, &pb.GetDataRequest{Name: probe})
		if err != nil || info.GetName() != probe || info.GetVersion() != 7 || !info.GetNoTarget() || info.GetTargetN() != 5 || info.GetN() > uint64(len(model)) {
			return fmt.Sprintf("wrong data info: %v %v", info, err)
		}
	case 2:
		q := lib.GenVec(r, 4, 1)
		k := 1 + r.IntN(8)
		st, err := n.client.SearchStream(ctx, &pb.SearchRequest{Config: &pb.SearchConfig{DataName: probe, ScoreFuncName: "VectorDistance", Limit: uint32(k), Timeout: 60000}, Datum: []*pb.Datum{lib.Datum(q, "", "", 0)}})
		if err != nil {
			return fmt.Sprintf("a valid search failed: %v", err)
		}
		var got []*pb.ScoredDatum
		for {
			s, err := st.Recv()
			if err == io.EOF {
				break
			}
			if err != nil {
				return fmt.Sprintf("a valid search failed: %v", err)
			}
			got = append(got, s)
		}
		var ref []float64
		for _, d := range model {
			ref = append(ref, lib.Score("VectorDistance", d.Key.Feature, q).Ref)
		}
		sort.Float64s(ref)
		if len(got) != min(k, len(ref)) {
			return fmt.Sprintf("a valid search returned %d entries instead of %d", len(got), min(k, len(ref)))
		}
		for i, s := range got {
			if math.Abs(s.Score-ref[i]) > 1e-4*(1+ref[i]) || model[lib.KeyID(s.Datum.GetKey())] == nil {
				return fmt.Sprintf("a valid search returned score %v at rank %d instead of %v", s.Score, i, ref[i])
			}
		}
	}
	return ""
}
