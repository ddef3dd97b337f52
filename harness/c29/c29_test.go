package c29

import (
	"context"
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"verif/harness/lib"

	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/grpc"
)

func quiet() {
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
}

// ---- virtual time: who is a member follows from who announced itself lately

type vpeer struct {
	addrs []string
	sets  []string
	up    bool
	since time.Time // up since
	last  map[string]time.Time
	heard time.Time
	next  time.Time
}

func TestVirtual(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "membership in virtual time")
	quiet()
	lib.Bubble(t, rep, func() {
		for c := 0; c < rep.N(16, 40); c++ {
			virtual(rep, c)
		}
	})
}

func virtual(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("virtual", c))
	own := "127.0.0.1:1"
	n := node.NewNode(&node.NodeConfig{Port: 1, Folder: lib.TempDir("node"), AdvertisedIds: []string{own}})
	n.PeriodicTicker.Stop()
	names := []string{"a", "b", "c"}
	var peers []*vpeer
	k := 1 + r.IntN(3)
	if c%8 == 5 {
		k = 10 + r.IntN(40)
	}
	for i := 0; i < k; i++ {
		p := &vpeer{last: map[string]time.Time{}}
		for j, m := 0, 1+r.IntN(2); j < m; j++ {
			p.addrs = append(p.addrs, fmt.Sprintf("127.0.0.%d:%d", 2+i, 1+j))
		}
		if r.IntN(4) == 0 { // behind the same proxy as the node
			p.addrs = append(p.addrs, own)
			r.Shuffle(len(p.addrs), func(a, b int) { p.addrs[a], p.addrs[b] = p.addrs[b], p.addrs[a] })
		}
		for _, s := range names {
			if r.IntN(2) == 0 {
				p.sets = append(p.sets, s)
			}
		}
		peers = append(peers, p)
	}
	var hist []string
	logf := func(f string, a ...any) {
		hist = append(hist, fmt.Sprintf("%s ", time.Now().Format("15:04:05.000"))+fmt.Sprintf(f, a...))
		if len(hist) > 60 {
			hist = hist[1:]
		}
	}
	start := time.Now()
	stable := true // some peers come and go
	if r.IntN(3) > 0 {
		stable = false
	}
	nextSync := start.Add(60 * time.Second)
	nextProbe := start.Add(time.Duration(r.IntN(100)) * time.Second)
	end := start.Add(time.Duration(40+r.IntN(60)) * time.Minute)
	period := 60 * time.Second
	ok, gone, first := 0, 0, true
	for time.Now().Before(end) {
		// the next thing that happens
		at, what := nextSync, -1
		if nextProbe.Before(at) {
			at, what = nextProbe, -2
		}
		for i, p := range peers {
			if p.next.IsZero() {
				p.next = start.Add(time.Duration(r.IntN(120000)) * time.Millisecond)
			}
			if p.next.Before(at) {
				at, what = p.next, i
			}
		}
		time.Sleep(time.Until(at))
		switch {
		case what == -1:
			n.SyncWithPeers()
			if r.IntN(20) == 0 {
				n.Info()
			}
			logf("sync")
			nextSync = nextSync.Add(period)
		case what >= 0:
			p := peers[what]
			p.next = p.next.Add(time.Duration(50000+r.IntN(20000)) * time.Millisecond)
			if !stable && r.IntN(25) == 0 {
				p.up = false
				p.next = p.next.Add(time.Duration(r.IntN(40)) * time.Minute)
				logf("%v stops", p.addrs)
				break
			}
			if !p.up {
				p.up, p.since = true, time.Now()
			}
			if !stable && r.IntN(30) == 0 && len(p.sets) > 0 {
				p.sets = p.sets[1:]
			}
			rec := &pb.Peer{Timestamp: uint64(time.Now().Unix()) - uint64(r.IntN(2)*r.IntN(20)), AddressList: append([]string{}, p.addrs...)}
			r.Shuffle(len(rec.AddressList), func(a, b int) {
				rec.AddressList[a], rec.AddressList[b] = rec.AddressList[b], rec.AddressList[a]
			})
			for _, s := range p.sets {
				rec.DataList = append(rec.DataList, &pb.DataConfig{Name: s, NoTarget: true, Version: 1, TargetN: 100})
				p.last[s] = time.Now()
			}
			p.heard = time.Now()
			if r.IntN(2) == 0 {
				n.Join(context.Background(), &pb.JoinRequest{Peer: rec})
			} else {
				n.AddPeer(context.Background(), &pb.AddPeerRequest{Peer: rec})
			}
			logf("%v announces %v (timestamp %d)", rec.AddressList, p.sets, rec.Timestamp)
			rep.Count("announcements", 1)
		default:
			nextProbe = nextProbe.Add(time.Duration(1+r.IntN(90000)) * time.Millisecond)
			table := map[string]int{}
			for _, x := range n.PeerListItems() {
				l := append([]string{}, x.AddressList...)
				sort.Strings(l)
				table[strings.Join(l, ",")]++
			}
			now := time.Now()
			for _, p := range peers {
				l := append([]string{}, p.addrs...)
				sort.Strings(l)
				id := strings.Join(l, ",")
				if !p.heard.IsZero() && now.Sub(p.heard) < 4*time.Minute && table[id] != 1 {
					rep.Violate("membership %d: %v announced itself %v ago and has %d records\n%s", c, p.addrs, now.Sub(p.heard), table[id], strings.Join(hist, "\n"))
					return
				}
				if now.Sub(p.heard) > 20*time.Minute && table[id] > 0 {
					rep.Violate("membership %d: %v announced itself %v ago and is still in the table\n%s", c, p.addrs, now.Sub(p.heard), strings.Join(hist, "\n"))
					return
				}
			}
			for _, s := range names {
				d, err := n.Dataset.GetNoCreate(s)
				src := map[string]bool{}
				if err == nil {
					for _, x := range d.GetSources() {
						src[x.GetID()] = true
					}
				}
				for _, p := range peers {
					found := false
					for _, a := range p.addrs {
						found = found || (a != own && src[a])
					}
					lists := false
					for _, x := range p.sets {
						lists = lists || x == s
					}
					lately := now.Sub(p.heard)
					switch {
					case p.up && lists && now.Sub(p.since) > 135*time.Second && lately < 75*time.Second:
						if !found {
							rep.Violate("membership %d: %v has announced data set %s for %v without a break, last %v ago, but is not among its sources %v (data set: %v)\n%s", c, p.addrs, s, now.Sub(p.since), lately, src, err, strings.Join(hist, "\n"))
							return
						}
						ok++
						rep.Count("kept", 1)
					case now.Sub(p.last[s]) > 20*time.Minute:
						if found {
							rep.Violate("membership %d: %v announced data set %s %v ago and is still among its sources\n%s", c, p.addrs, s, now.Sub(p.last[s]), strings.Join(hist, "\n"))
							return
						}
						if !p.last[s].IsZero() {
							gone++
							rep.Count("dropped", 1)
						}
					}
				}
			}
			if first {
				first = false
			}
			rep.Count("probes", 1)
		}
	}
	sig := ""
	if ok > 0 {
		sig = fmt.Sprint(c, ok, gone, len(peers))
	}
	rep.Case(sig)
	rep.Sample(fmt.Sprintf("%d peers over %v: %d times a steady peer was found among the sources, %d times a silent one was not", len(peers), end.Sub(start), ok, gone))
	for _, s := range names {
		if d, err := n.Dataset.GetNoCreate(s); err == nil {
			d.Close()
		}
	}
	time.Sleep(3 * time.Second)
}

// ---- live clusters find themselves

type member struct {
	n       *node.Node
	port    int
	dir     string
	addr    string
	ids     []string
	service []string
	srv     *grpc.Server
	up      bool
}

func (m *member) start(l net.Listener) {
	m.srv = grpc.NewServer()
	m.n = node.NewNode(&node.NodeConfig{Port: uint32(m.port), Folder: m.dir, AdvertisedIds: m.ids, ServiceList: m.service})
	m.n.PeriodicTicker.Stop()
	pb.RegisterVeriServiceServer(m.srv, m.n)
	go m.srv.Serve(l)
	m.up = true
}

func (m *member) stop() {
	if m.up {
		m.srv.Stop()
		m.up = false
	}
}

func TestCluster(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "cluster formation")
	quiet()
	n := rep.N(16, 100)
	if rep.Stage == "race" {
		n = rep.N(6, 40)
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for c := 0; c < n; c++ {
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			cluster(rep, c)
			<-sem
		}()
	}
	wg.Wait()
	rep.Done()
}

func cluster(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("cluster", c))
	k := 2 + r.IntN(4)
	shape := r.IntN(4)
	var ms []*member
	var ls []net.Listener
	for i := 0; i < k; i++ {
		l, err := lib.Listen()
		if err != nil {
			rep.Inconclusive("%v", err)
		}
		m := &member{port: l.Addr().(*net.TCPAddr).Port, dir: lib.TempDir("node")}
		m.addr = fmt.Sprintf("localhost:%d", m.port)
		switch r.IntN(3) {
		case 0: // learns its address from others
		case 1:
			m.ids = []string{m.addr}
		case 2:
			m.ids = []string{fmt.Sprintf("127.0.0.1:%d", m.port)}
		}
		ms, ls = append(ms, m), append(ls, l)
	}
	for i, m := range ms {
		switch shape {
		case 0: // all know the first
			if i > 0 {
				m.service = []string{ms[0].addr}
			}
		case 1: // a chain
			if i > 0 {
				m.service = []string{ms[i-1].addr}
			}
		case 2: // a ring
			m.service = []string{ms[(i+1)%k].addr}
		case 3: // a random tree with further edges
			if i > 0 {
				m.service = []string{ms[r.IntN(i)].addr}
				if r.IntN(3) == 0 {
					m.service = append(m.service, ms[r.IntN(k)].addr)
				}
			}
		}
	}
	dead := 0
	if r.IntN(2) == 0 { // most of the configured addresses do not answer
		for _, m := range ms {
			for i, x := 0, r.IntN(20); i < x && len(m.service) > 0; i++ {
				m.service = append(m.service, fmt.Sprintf("127.0.0.1:%d", 2+i))
				dead++
			}
		}
	}
	what := fmt.Sprintf("cluster %d of %d nodes, shape %d, %d dead service addresses, advertised %v", c, k, shape, dead, func() (x [][]string) {
		for _, m := range ms {
			x = append(x, m.ids)
		}
		return
	}())
	for i, j := range r.Perm(k) {
		_ = i
		ms[j].start(ls[j])
	}
	defer func() {
		for _, m := range ms {
			m.stop()
			m.n.Dataset.Close()
		}
	}()
	// data sets appear on some nodes, with different configurations
	want := map[string]*pb.DataConfig{}
	create := func(m *member, s string) {
		v := uint64(1 + r.IntN(4))
		cfg := &pb.DataConfig{Name: s, Version: v, TargetN: 1000 + v, NoTarget: true, ReplicationOnInsert: uint32(v)}
		if _, err := m.n.CreateDataIfNotExists(context.Background(), cfg); err != nil {
			rep.Violate("%s: creating data set: %v", what, err)
		}
		if want[s] == nil || want[s].Version < v {
			want[s] = cfg
		}
	}
	for i, x := 0, 1+r.IntN(3); i < x; i++ {
		for j, y := 0, 1+r.IntN(2); j < y; j++ {
			create(ms[r.IntN(k)], fmt.Sprint("set", i))
		}
	}
	form := func(phase string, live []*member) bool {
		lack := ""
		const limit = 14
		for round := 0; round < limit; round++ {
			time.Sleep(1050 * time.Millisecond) // records have a resolution of one second
			for _, i := range r.Perm(len(live)) {
				live[i].n.JoinToPeers()
			}
			for _, i := range r.Perm(len(live)) {
				live[i].n.SyncWithPeers()
			}
			rep.Count("rounds", 1)
			lack = missing(live, want)
			if lack == "" {
				rep.Count(fmt.Sprintf("formed_in_%02d", round+1), 1)
				return true
			}
		}
		rep.Violate("%s, %s: after %d rounds of joining and gossip %s", what, phase, limit, lack)
		return false
	}
	if !form("first", ms) {
		return
	}
	rep.Case(fmt.Sprint("form", c, k, shape, len(want)))
	rep.Sample(what)
	// a data set and a newer configuration spread
	create(ms[r.IntN(k)], "later")
	up := want["set0"]
	nv := &pb.DataConfig{Name: "set0", Version: up.Version + 1, TargetN: 7, NoTarget: true}
	ms[r.IntN(k)].n.CreateDataIfNotExists(context.Background(), nv)
	want["set0"] = nv
	if !form("after an update", ms) {
		return
	}
	rep.Case(fmt.Sprint("update", c))
	if r.IntN(2) == 0 { // one node more, which knows only one of them
		l, err := lib.Listen()
		if err != nil {
			rep.Inconclusive("%v", err)
		}
		m := &member{port: l.Addr().(*net.TCPAddr).Port, dir: lib.TempDir("node"), service: []string{ms[r.IntN(k)].addr}}
		m.addr = fmt.Sprintf("localhost:%d", m.port)
		if r.IntN(2) == 0 {
			m.ids = []string{m.addr}
		}
		m.start(l)
		ms = append(ms, m)
		if !form("after one more joined", ms) {
			return
		}
		rep.Case(fmt.Sprint("join", c))
	} else { // one node is away and comes back
		x := ms[r.IntN(k)]
		x.stop()
		var rest []*member
		for _, m := range ms {
			if m.up {
				rest = append(rest, m)
			}
		}
		create(rest[r.IntN(len(rest))], "meanwhile")
		for _, m := range rest {
			m.n.JoinToPeers()
			m.n.SyncWithPeers()
		}
		rep.Count("rounds", 1)
		x.n.Dataset.Close()
		var l net.Listener
		for i := 0; i < 50 && l == nil; i++ {
			l, _ = net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", x.port))
			if l == nil {
				time.Sleep(100 * time.Millisecond)
			}
		}
		if l == nil {
			rep.Inconclusive("port %d is not free again", x.port)
		}
		if len(x.service) == 0 && r.IntN(2) == 0 {
			x.service = []string{rest[r.IntN(len(rest))].addr}
		}
		x.start(l)
		if !form("after a node came back", ms) {
			return
		}
		rep.Case(fmt.Sprint("return", c))
	}
}

// missing says what the nodes do not know of each other.
func missing(live []*member, want map[string]*pb.DataConfig) string {
	for i, m := range live {
		for s, cfg := range want {
			d, err := m.n.Dataset.GetNoCreate(s)
			if err != nil {
				return fmt.Sprintf("node %d has no data set %s: %v", i, s, err)
			}
			if g := d.GetConfig(); g.Version != cfg.Version || g.TargetN != cfg.TargetN || g.ReplicationOnInsert != cfg.ReplicationOnInsert || g.NoTarget != cfg.NoTarget {
				return fmt.Sprintf("node %d has data set %s with %v instead of %v", i, s, g, cfg)
			}
			src := map[string]bool{}
			for _, x := range d.GetSources() {
				src[x.GetID()] = true
			}
			for j, o := range live {
				if j != i && !src[o.addr] && !src[fmt.Sprintf("127.0.0.1:%d", o.port)] {
					return fmt.Sprintf("node %d does not know node %d (%s) as a source of %s: %v", i, j, o.addr, s, src)
				}
			}
		}
		for j, o := range live {
			known := false
			for _, p := range m.n.PeerListItems() {
				for _, a := range p.AddressList {
					known = known || strings.HasSuffix(a, fmt.Sprintf(":%d", o.port))
				}
			}
			if j != i && !known {
				return fmt.Sprintf("node %d has no record of node %d (%s)", i, j, o.addr)
			}
		}
	}
	return ""
}

var _ = rand.IntN
