// Package lib holds the reporting, generation and oracle helpers shared by the monitors.
package lib

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"sync"
	"time"
)

// Rep collects what a monitor observed and writes it as JSON lines to $VERIF_OUT.
type Rep struct {
	mu       sync.Mutex
	f        *os.File
	Stage    string
	Seed     uint64
	Thorough bool
	evals    int64
	distinct map[uint64]struct{}
	counts   map[string]int64
	samples  []any
	viol     int
	progress int64
	MaxViol  int
}

func Start() *Rep {
	if os.Getenv("VERIF_LOG") == "" {
		log.SetOutput(io.Discard)
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	r := &Rep{Stage: os.Getenv("VERIF_STAGE"), Seed: seed, Thorough: os.Getenv("VERIF_TIER") == "thorough",
		distinct: map[uint64]struct{}{}, counts: map[string]int64{}, MaxViol: 5}
	out := os.Getenv("VERIF_OUT")
	if out == "" {
		r.f = os.Stdout
	} else {
		f, err := os.OpenFile(out, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS:", err)
			os.Exit(3)
		}
		r.f = f
	}
	return r
}

func H(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }

// Rng returns a generator determined by the seed and the given name only.
func (r *Rep) Rng(name string) *rand.Rand { return rand.New(rand.NewPCG(r.Seed, H(name))) }

// N picks the case count of the tier.
func (r *Rep) N(quick, thorough int) int {
	if r.Thorough {
		return thorough
	}
	return quick
}

func (r *Rep) line(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		b = []byte(fmt.Sprintf(`{"type":"harness","msg":%q}`, err.Error()))
	}
	r.f.Write(append(b, '\n'))
}

// Case counts one evaluated case; sig identifies it for distinctness, "" marks a trivial one.
func (r *Rep) Case(sig string) {
	r.mu.Lock()
	r.evals++
	r.progress++
	if sig != "" {
		r.distinct[H(sig)] = struct{}{}
	}
	r.mu.Unlock()
}

func (r *Rep) Count(name string, d int) {
	r.mu.Lock()
	r.counts[name] += int64(d)
	r.progress++
	r.mu.Unlock()
}

func (r *Rep) GetCount(name string) int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.counts[name]
}

func (r *Rep) Sample(v any) {
	r.mu.Lock()
	if len(r.samples) < 3 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

// Violate records a violation; after MaxViol of them the run ends at once.
func (r *Rep) Violate(format string, a ...any) {
	r.mu.Lock()
	r.viol++
	n := r.viol
	r.line(map[string]any{"type": "violation", "stage": r.Stage, "seed": r.Seed, "msg": fmt.Sprintf(format, a...)})
	r.mu.Unlock()
	if n >= r.MaxViol {
		r.Done()
	}
}

// Known records an occurrence of a history listed in the known-findings file.
func (r *Rep) Known(id string, format string, a ...any) {
	r.mu.Lock()
	r.line(map[string]any{"type": "known", "id": id, "msg": fmt.Sprintf(format, a...)})
	r.mu.Unlock()
}

// Inconclusive aborts the run as an error of the check.
func (r *Rep) Inconclusive(format string, a ...any) {
	r.mu.Lock()
	r.line(map[string]any{"type": "inconclusive", "stage": r.Stage, "msg": fmt.Sprintf(format, a...)})
	r.mu.Unlock()
	os.Exit(3)
}

func (r *Rep) Violations() int { r.mu.Lock(); defer r.mu.Unlock(); return r.viol }

// Done writes the summary and ends the process.
func (r *Rep) Done() {
	r.mu.Lock()
	hs := make([]string, 0, len(r.distinct))
	for h := range r.distinct {
		hs = append(hs, strconv.FormatUint(h, 36))
	}
	r.line(map[string]any{"type": "summary", "stage": r.Stage, "evaluations": r.evals, "distinct": len(hs), "counts": r.counts, "samples": r.samples})
	r.f.Sync()
	os.Exit(0)
}

// NoProgress reports a violation if no case or count was recorded for d of wall-clock time.
// d has to be far above anything a loaded machine needs.
func (r *Rep) NoProgress(d time.Duration, what string) {
	go func() {
		last, at := int64(-1), time.Now()
		for {
			time.Sleep(time.Second)
			r.mu.Lock()
			p := r.progress
			r.mu.Unlock()
			if p != last {
				last, at = p, time.Now()
			} else if time.Since(at) > d {
				buf := make([]byte, 1<<18)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "NOPROGRESS\n%s\n", buf[:n])
				r.Violate("%s: no progress for %v (goroutine dump in the log)", what, d)
				r.Done()
			}
		}
	}()
}

// Watchdog is the time without any progress after which an operation counts as hung.
const Watchdog = 150 * time.Second
