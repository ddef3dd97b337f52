package lib

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"net"
	"os"
	"os/exec"
	"sync"
	"time"

	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
)

// WireInsert is an insert request seen by the server of a member.
type WireInsert struct {
	Name, Key, Val string
	TTL, Count     uint64
	At             int64 // unix milliseconds when it arrived
	Stored         bool  // the node acknowledged it
	Acked          bool  // the sender got the acknowledgement
}

type memberCmd struct {
	Op        string
	Name      string
	Fail      float64 // share of inserts that are refused before they reach the node
	Lose      float64 // share of inserts whose acknowledgement is lost
	Delay     int     // milliseconds at most, before and after an insert
	OnlyCount bool    // faults only hit replicas and transfers (hop count above 0)
}

type memberReply struct {
	Err     string
	N       int
	Inserts []WireInsert
}

// MemberMain is the life of a member process: a real node, driven by commands on standard input.
func MemberMain() {
	log.SetOutput(io.Discard)
	out := os.Stdout
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
	l, err := Listen()
	if err != nil {
		panic("HARNESS " + err.Error())
	}
	port := l.Addr().(*net.TCPAddr).Port
	var services []string
	if s := os.Getenv("MEMBER_SERVICE"); s != "" {
		services = []string{s}
	}
	n := node.NewNode(&node.NodeConfig{Port: uint32(port), Folder: os.Getenv("MEMBER_DIR"), AdvertisedIds: []string{fmt.Sprintf("localhost:%d", port)}, ServiceList: services})
	n.PeriodicTicker.Stop()
	var mu sync.Mutex
	var seen []WireInsert
	var faults memberCmd
	dice := func() float64 { mu.Lock(); defer mu.Unlock(); return rand.Float64() }
	srv := grpc.NewServer(grpc.UnaryInterceptor(func(ctx context.Context, req any, info *grpc.UnaryServerInfo, h grpc.UnaryHandler) (any, error) {
		q, ok := req.(*pb.InsertionRequest)
		if !ok {
			return h(ctx, req)
		}
		mu.Lock()
		f := faults
		mu.Unlock()
		w := WireInsert{Name: q.GetDataName(), Key: KeyID(q.GetDatum().GetKey()), Val: ValID(q.GetDatum().GetValue()), TTL: q.GetConfig().GetTTL(), Count: uint64(q.GetConfig().GetCount()), At: time.Now().UnixMilli()}
		if f.OnlyCount && w.Count == 0 {
			f = memberCmd{}
		}
		pause := func() {
			if f.Delay > 0 {
				time.Sleep(time.Duration(dice() * float64(f.Delay) * float64(time.Millisecond)))
			}
		}
		var resp any
		err := errors.New("injected refusal")
		pause()
		if dice() >= f.Fail {
			resp, err = h(ctx, req)
			w.Stored = err == nil
			pause()
			if err == nil && dice() < f.Lose {
				resp, err = nil, errors.New("injected loss of the acknowledgement")
			}
		}
		w.Acked = err == nil
		mu.Lock()
		seen = append(seen, w)
		mu.Unlock()
		return resp, err
	}))
	pb.RegisterVeriServiceServer(srv, n)
	go srv.Serve(l)
	var om sync.Mutex
	say := func(v any) {
		om.Lock()
		b, _ := json.Marshal(v)
		out.Write(append(b, '\n'))
		om.Unlock()
	}
	say(map[string]int{"port": port})
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		var c memberCmd
		if json.Unmarshal(in.Bytes(), &c) != nil {
			continue
		}
		var r memberReply
		switch c.Op {
		case "faults":
			mu.Lock()
			faults = c
			mu.Unlock()
		case "sync":
			n.JoinToPeers()
			n.SyncWithPeers()
		case "process":
			if d, err := n.Dataset.GetNoCreate(c.Name); err == nil {
				if err := d.Process(true); err != nil {
					r.Err = err.Error()
				}
			} else {
				r.Err = err.Error()
			}
		case "sources":
			if d, err := n.Dataset.GetNoCreate(c.Name); err == nil {
				r.N = len(d.GetSources())
			}
		case "close":
			if err := n.Close(); err != nil {
				r.Err = err.Error()
			}
		case "inserts":
			mu.Lock()
			r.Inserts = seen
			seen = nil
			mu.Unlock()
		}
		say(r)
	}
	os.Exit(0)
}

// Member is a member process as seen by the monitor.
type Member struct {
	Addr   string
	Client pb.VeriServiceClient
	conn   *grpc.ClientConn
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	mu     sync.Mutex
	errLog string
	gone   bool
}

// StartMember runs this test binary again as a member process (it needs a TestMember that calls MemberMain).
func StartMember(rep *Rep, service string) *Member {
	dir := TempDir("member")
	cmd := exec.Command(os.Args[0], "-test.run", "^TestMember$")
	cmd.Env = append(os.Environ(), "MEMBER_DIR="+dir+"/node", "MEMBER_SERVICE="+service)
	m := &Member{cmd: cmd, errLog: dir + "/stderr"}
	ef, _ := os.Create(m.errLog)
	cmd.Stderr = ef
	var err error
	m.in, err = cmd.StdinPipe()
	if err != nil {
		rep.Inconclusive("%v", err)
	}
	o, err := cmd.StdoutPipe()
	if err != nil {
		rep.Inconclusive("%v", err)
	}
	m.out = bufio.NewReader(o)
	if err := cmd.Start(); err != nil {
		rep.Inconclusive("%v", err)
	}
	ef.Close()
	var hello struct{ Port int }
	line, err := m.out.ReadBytes('\n')
	if err != nil || json.Unmarshal(line, &hello) != nil {
		b, _ := os.ReadFile(m.errLog)
		rep.Inconclusive("member did not start: %v %.2000s", err, b)
	}
	m.Addr = fmt.Sprintf("localhost:%d", hello.Port)
	m.conn, err = grpc.Dial(m.Addr, grpc.WithInsecure(), grpc.WithBlock(), grpc.WithTimeout(60*time.Second))
	if err != nil {
		rep.Inconclusive("%v", err)
	}
	m.Client = pb.NewVeriServiceClient(m.conn)
	return m
}

// Do runs one command; the error text is that of the node, a dead member is an error of the second kind.
func (m *Member) Do(c memberCmd) (memberReply, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	var r memberReply
	b, _ := json.Marshal(c)
	if _, err := m.in.Write(append(b, '\n')); err != nil {
		return r, m.died(err)
	}
	line, err := m.out.ReadBytes('\n')
	if err != nil {
		return r, m.died(err)
	}
	return r, json.Unmarshal(line, &r)
}

func (m *Member) died(err error) error {
	b, _ := os.ReadFile(m.errLog)
	if len(b) > 5000 {
		b = b[:5000]
	}
	return fmt.Errorf("member process died: %v\n%s", err, b)
}

func (m *Member) Sync() error { _, err := m.Do(memberCmd{Op: "sync"}); return err }
func (m *Member) Process(name string) error {
	_, err := m.Do(memberCmd{Op: "process", Name: name})
	return err
}
func (m *Member) Close() error { _, err := m.Do(memberCmd{Op: "close"}); return err }
func (m *Member) Sources(name string) (int, error) {
	r, err := m.Do(memberCmd{Op: "sources", Name: name})
	return r.N, err
}
func (m *Member) Inserts() ([]WireInsert, error) {
	r, err := m.Do(memberCmd{Op: "inserts"})
	return r.Inserts, err
}
func (m *Member) Faults(fail, lose float64, delay int) error {
	_, err := m.Do(memberCmd{Op: "faults", Fail: fail, Lose: lose, Delay: delay, OnlyCount: true})
	return err
}

// Kill ends the process at once.
func (m *Member) Kill() {
	if !m.gone {
		m.gone = true
		m.conn.Close()
		m.cmd.Process.Kill()
		m.cmd.Wait()
	}
}

// Content streams a data set of the member: key to value.
func (m *Member) Content(name string) (map[string]string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	st, err := m.Client.DataStream(ctx, &pb.GetDataRequest{Name: name})
	if err != nil {
		return nil, err
	}
	c := map[string]string{}
	for {
		d, err := st.Recv()
		if err == io.EOF {
			return c, nil
		}
		if err != nil {
			return nil, err
		}
		c[KeyID(d.Key)] = ValID(d.Value)
	}
}

// Cluster starts k members that find each other through the first one and share a data set.
func Cluster(rep *Rep, k int, cfg func(i int) *pb.DataConfig) []*Member {
	var ms []*Member
	for i := 0; i < k; i++ {
		s := ""
		if i > 0 {
			s = ms[0].Addr
		}
		ms = append(ms, StartMember(rep, s))
	}
	name := ""
	for i, m := range ms {
		c := cfg(i)
		name = c.Name
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
		if _, err := m.Client.CreateDataIfNotExists(ctx, c); err != nil {
			rep.Violate("creating data set %v: %v", c, err)
		}
		cancel()
	}
	for round := 0; round < 40; round++ {
		missing := false
		for _, m := range ms {
			if err := m.Sync(); err != nil {
				rep.Violate("%v", err)
				rep.Done()
			}
		}
		for _, m := range ms {
			n, err := m.Sources(name)
			if err != nil {
				rep.Violate("%v", err)
				rep.Done()
			}
			missing = missing || n < k-1
		}
		if !missing {
			return ms
		}
		time.Sleep(time.Duration(round) * 10 * time.Millisecond)
	}
	return nil
}
