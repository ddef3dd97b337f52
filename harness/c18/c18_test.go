package c18

import (
	"context"
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/lib"

	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	grpcPeer "google.golang.org/grpc/peer"
	"google.golang.org/protobuf/proto"
)

func setID(l []string) string {
	s := append([]string{}, l...)
	sort.Strings(s)
	return strings.Join(s, ",")
}

func shuffled(r *rand.Rand, l []string) []string {
	s := append([]string{}, l...)
	r.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
	return s
}

func quiet() {
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
}

func newNode(r *rand.Rand, own []string) *node.Node {
	n := node.NewNode(&node.NodeConfig{Port: 1, Folder: lib.TempDir("node"), AdvertisedIds: append([]string{}, own...)})
	n.PeriodicTicker.Stop() // the network is not part of this
	synctest.Wait()
	return n
}

func send(r *rand.Rand, n *node.Node, p *pb.Peer) error {
	ctx := context.Background()
	switch r.IntN(4) {
	case 0:
		addr := []net.Addr{&net.TCPAddr{IP: net.ParseIP("127.0.0.1"), Port: 9}, &net.TCPAddr{IP: net.ParseIP("::1"), Port: 9}, &net.TCPAddr{IP: net.ParseIP("10.1.2.3"), Port: 9}, &net.UnixAddr{Name: "", Net: "unix"}, &net.UnixAddr{Name: "@x", Net: "unix"}}[r.IntN(5)]
		_, err := n.Join(grpcPeer.NewContext(ctx, &grpcPeer.Peer{Addr: addr}), &pb.JoinRequest{Peer: p})
		return err
	case 1:
		_, err := n.Join(ctx, &pb.JoinRequest{Peer: p})
		return err
	case 2:
		return n.AddPeerElement(p)
	}
	_, err := n.AddPeer(ctx, &pb.AddPeerRequest{Peer: p})
	return err
}

type entry struct {
	p  *pb.Peer // private copy
	at time.Time
}

func TestTable(t *testing.T) {
	quiet()
	rep := lib.Start()
	lib.Bubble(t, rep, func() {
		owns := [][]string{{"localhost:10000"}, {"a:1", "b:2"}, {"c:3", "a:1", "b:2"}}
		nodes := []*node.Node{}
		for _, own := range owns {
			nodes = append(nodes, newNode(nil, own))
		}
		for c := 0; c < rep.N(1500, 12000); c++ {
			table(rep, c, nodes[c%3], owns[c%3])
		}
	})
}

func table(rep *lib.Rep, c int, n *node.Node, own []string) {
	r := rep.Rng(fmt.Sprint("table", c))
	time.Sleep(11*time.Minute + time.Duration(r.Int64N(int64(10*time.Second)))) // all earlier records are gone
	sets := [][]string{{"p:1"}, {"p:1", "p:2"}, {"p:2"}, {"q:1", "q:0", "q:2"}, {"q:0", "q:1"}, {}, own, shuffled(r, own), {own[0], "z:1"}, own[:1], {"a", "b:1"}}
	model := map[string]entry{}
	type sent struct{ live, copy *pb.Peer }
	var msgs []sent
	var trace []string
	accepted, refusedOld, refusedStale, selfMsgs := 0, 0, 0, 0
	steps := 10 + r.IntN(40)
	for s := 0; s < steps; s++ {
		switch r.IntN(6) {
		case 0:
			d := time.Duration(r.Int64N(int64([]time.Duration{time.Second, 20 * time.Second, 2 * time.Minute, 6 * time.Minute}[r.IntN(4)])))
			time.Sleep(d)
			trace = append(trace, fmt.Sprintf("wait %v", d))
		case 1: // a record that was seen earlier is checked again
			if len(msgs) > 0 {
				m := msgs[r.IntN(len(msgs))]
				fresh := m.live.Timestamp+300 > uint64(time.Now().Unix())
				id := setID(m.live.AddressList)
				self := id == setID(own)
				ok := n.CheckPeer(m.live)
				trace = append(trace, fmt.Sprintf("check %s@%d -> %v", id, m.live.Timestamp, ok))
				if ok != (fresh && !self) {
					rep.Violate("case %d: checking a record of %q gives %v (recent %v, self %v): %v", c, id, ok, fresh, self, trace)
					return
				}
				if e, have := model[id]; have && !fresh && e.p.Timestamp == m.live.Timestamp {
					delete(model, id) // it may be removed
				}
			}
		default:
			l := shuffled(r, sets[r.IntN(len(sets))])
			now := uint64(time.Now().Unix())
			ts := now
			switch r.IntN(8) {
			case 0:
				ts = now - 299
			case 1:
				ts = now - 300
			case 2:
				ts = now - 301
			case 3:
				ts = now - uint64(r.IntN(700))
			case 4:
				ts = now + uint64([]int{r.IntN(100), r.IntN(100), 299, 301, r.IntN(100000), 1 << 40}[r.IntN(6)])
			case 5:
				ts = 0
			case 6:
				if e, ok := model[setID(l)]; ok {
					ts = e.p.Timestamp + uint64(r.IntN(3)) - 1
				}
			}
			p := &pb.Peer{AddressList: l, Timestamp: ts, Version: fmt.Sprint("v", s), ServiceList: []string{"y", "x"}, DataList: []*pb.DataConfig{{Name: fmt.Sprint("d", s), Version: uint64(s)}}}
			cp := proto.Clone(p).(*pb.Peer)
			if err := send(r, n, p); err != nil {
				rep.Violate("case %d: a message failed: %v", c, err)
			}
			if !proto.Equal(p, cp) {
				rep.Violate("case %d: handling a message changed it: %v was %v", c, p, cp)
				return
			}
			msgs = append(msgs, sent{p, cp})
			id := setID(l)
			trace = append(trace, fmt.Sprintf("%s@now%+d", id, int64(ts)-int64(now)))
			e, have := model[id]
			if have && time.Since(e.at) >= 5*time.Minute {
				have = false
			}
			switch {
			case id == setID(own):
				selfMsgs++
			case have && e.p.Timestamp >= ts:
				refusedOld++
			case ts+300 > now:
				model[id] = entry{cp, time.Now()}
				accepted++
			default:
				refusedStale++
			}
		}
		// compare
		got := map[string]*pb.Peer{}
		for _, p := range n.PeerListItems() {
			id := setID(p.AddressList)
			if got[id] != nil {
				rep.Violate("case %d: two records of %q: %v", c, id, trace)
				return
			}
			got[id] = p
		}
		for id, p := range got {
			e, ok := model[id]
			if !ok {
				// a record that is too old by now may linger only if it was accepted before
				lingering := false
				for _, m := range msgs {
					lingering = lingering || (proto.Equal(m.copy, p) && id != setID(own) && !(p.Timestamp+300 > uint64(time.Now().Unix())))
				}
				if !lingering {
					rep.Violate("case %d: unexpected record of %q (own addresses %v): %v", c, id, own, trace)
					return
				}
				continue
			}
			if !proto.Equal(p, e.p) {
				rep.Violate("case %d: the record of %q is %v, the newest recent one received was %v: %v", c, id, p, e.p, trace)
				return
			}
		}
		for id, e := range model {
			if got[id] == nil && time.Since(e.at) < 5*time.Minute && e.p.Timestamp+300 > uint64(time.Now().Unix()) {
				rep.Violate("case %d: the record of %q is gone after %v: %v", c, id, time.Since(e.at), trace)
				return
			}
		}
		for _, m := range msgs {
			if !proto.Equal(m.live, m.copy) {
				rep.Violate("case %d: a received record was changed later: %v was %v", c, m.live, m.copy)
				return
			}
		}
	}
	rep.Count("accepted", accepted)
	rep.Count("refused_not_newer", refusedOld)
	rep.Count("refused_stale", refusedStale)
	rep.Count("own_records", selfMsgs)
	sig := ""
	if accepted > 1 && refusedOld+refusedStale > 0 {
		sig = fmt.Sprint(trace)
	}
	rep.Case(sig)
	if c < 2 {
		rep.Sample(trace)
	}
}

// TestConcurrent: many messages at once; the newest recent record of every address set wins.
func TestConcurrent(t *testing.T) {
	quiet()
	rep := lib.Start()
	n := rep.N(500, 2500)
	if rep.Stage == "race" {
		n = rep.N(150, 800)
	}
	lib.Bubble(t, rep, func() {
		own := []string{"me:1", "me:2"}
		nd := newNode(rep.Rng("x"), own)
		for c := 0; c < n; c++ {
			r := rep.Rng(fmt.Sprint("conc", c))
			sets := make([][]string, 2+r.IntN(3))
			for i := range sets {
				sets[i] = []string{fmt.Sprintf("n%d-%d:1", c, i), fmt.Sprintf("n%d-%d:2", c, i), fmt.Sprintf("n%d-%d:3", c, i)}
			}
			// old records that are no longer recent but still in the table
			var olds []*pb.Peer
			aged := r.IntN(2) == 0
			if aged {
				now := uint64(time.Now().Unix())
				for _, l := range sets {
					p := &pb.Peer{AddressList: shuffled(r, l), Timestamp: now - 200}
					olds = append(olds, p)
					nd.AddPeerElement(p)
				}
				time.Sleep(150 * time.Second)
			}
			now := uint64(time.Now().Unix())
			workers := 3 + r.IntN(4)
			newest := map[string]uint64{}
			var mu sync.Mutex
			var wg sync.WaitGroup
			stop := make(chan struct{})
			sentN := 0
			for w := 0; w < workers; w++ {
				wr := rep.Rng(fmt.Sprint("w", c, w))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 5; i++ {
						l := shuffled(wr, sets[wr.IntN(len(sets))])
						if wr.IntN(12) == 0 {
							l = shuffled(wr, own)
						}
						p := &pb.Peer{AddressList: l, Timestamp: now - uint64(wr.IntN(60)), Version: fmt.Sprint(w, i)}
						cp := proto.Clone(p).(*pb.Peer)
						id := setID(l)
						mu.Lock()
						newest[id] = max(newest[id], p.Timestamp)
						sentN++
						mu.Unlock()
						if err := send(wr, nd, p); err != nil {
							rep.Violate("round %d: %v", c, err)
						}
						if !proto.Equal(p, cp) {
							rep.Violate("round %d: handling a message changed it", c)
						}
						if len(olds) > 0 && wr.IntN(2) == 0 {
							nd.CheckPeer(olds[wr.IntN(len(olds))])
						}
						if wr.IntN(3) == 0 {
							nd.GetNodeInfo()
						}
					}
				}()
			}
			var ow sync.WaitGroup
			ow.Add(1)
			go func() { // what is visible never goes back
				defer ow.Done()
				last := map[string]uint64{}
				for {
					seen := map[string]bool{}
					for _, p := range nd.PeerListItems() {
						id := setID(p.AddressList)
						if seen[id] {
							rep.Violate("round %d: two records of %q", c, id)
						}
						seen[id] = true
						if p.Timestamp < last[id] {
							rep.Violate("round %d: the record of %q goes back from %d to %d", c, id, last[id], p.Timestamp)
						}
						last[id] = p.Timestamp
						rep.Count("records_observed", 1)
					}
					select {
					case <-stop:
						return
					default:
					}
				}
			}()
			wg.Wait()
			close(stop)
			ow.Wait()
			got := map[string]uint64{}
			for _, p := range nd.PeerListItems() {
				got[setID(p.AddressList)] = p.Timestamp
			}
			for id, ts := range newest {
				if id == setID(own) {
					if _, ok := got[id]; ok {
						rep.Violate("round %d: the node lists itself", c)
					}
					continue
				}
				if got[id] != ts {
					rep.Violate("round %d: the newest record of %q was %d, the table holds %d (aged %v)", c, id, ts, got[id], aged)
				}
			}
			rep.Count("messages", sentN)
			rep.Case(fmt.Sprint(c, workers, len(sets), aged))
			if c%20 == 19 {
				time.Sleep(10 * time.Minute)
			}
		}
	})
}
