package lib

import (
	"runtime/debug"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
)

// Bubble runs f in virtual time and ends the process with a summary afterwards. Garbage collection is off:
// finalizers of caches made inside the bubble would otherwise touch its channels from outside.
func Bubble(t *testing.T, rep *Rep, f func()) {
	debug.SetGCPercent(-1)
	synctest.Test(t, func(t *testing.T) {
		f()
		rep.Done()
	})
}

// Within runs f and reports whether it finished within d (virtual time inside a bubble).
func Within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

// Source is a scripted peer. It clones what passes through it, as the network would.
type Source struct {
	Mu       sync.Mutex
	ID       string
	OnSearch func(d *pb.Datum, cfg *pb.SearchConfig, send func(*pb.ScoredDatum))
	OnInsert func(d *pb.Datum, cfg *pb.InsertConfig) error
	OnInfo   func() *pb.DataInfo
	Searches int
	Inserts  int
	Infos    int
}

var _ data.DataSource = (*Source)(nil)

func (s *Source) StreamSearch(d *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, cfg *pb.SearchConfig) error {
	defer wg.Done()
	s.Mu.Lock()
	s.Searches++
	s.Mu.Unlock()
	if s.OnSearch != nil {
		s.OnSearch(Clone(d), cfg, func(x *pb.ScoredDatum) {
			out <- &pb.ScoredDatum{Score: x.Score, Datum: Clone(x.Datum)}
		})
	}
	return nil
}

func (s *Source) Insert(d *pb.Datum, cfg *pb.InsertConfig) error {
	s.Mu.Lock()
	s.Inserts++
	s.Mu.Unlock()
	var c *pb.InsertConfig
	if cfg != nil {
		c = &pb.InsertConfig{TTL: cfg.TTL, Count: cfg.Count}
	}
	if s.OnInsert != nil {
		return s.OnInsert(Clone(d), c)
	}
	return nil
}

func (s *Source) GetDataInfo() *pb.DataInfo {
	s.Mu.Lock()
	s.Infos++
	s.Mu.Unlock()
	if s.OnInfo != nil {
		return s.OnInfo()
	}
	return &pb.DataInfo{}
}

func (s *Source) GetID() string { return s.ID }
