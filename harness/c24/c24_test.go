package c24

import (
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"testing"
	"unsafe"

	"verif/harness/lib"

	"github.com/bgokden/veri/annoyindex"
)

// index is what the four kinds of native index have in common.
type index interface {
	AddItem(int, []float32)
	Build(int)
	Save(...interface{}) bool
	Unload()
	Load(...interface{}) bool
	GetDistance(int, int) float32
	GetNnsByItem(...interface{})
	GetNnsByVector(...interface{})
	GetNItems() int
	GetItem(int, *[]float32)
	OnDiskBuild(string) bool
	Verbose(bool)
}

const (
	angular = iota
	euclidean
	manhattan
	dot
)

var names = []string{"angular", "euclidean", "manhattan", "dot"}

func create(metric, f int) (index, func()) {
	switch metric {
	case angular:
		x := annoyindex.NewAnnoyIndexAngular(f)
		return x, func() { annoyindex.DeleteAnnoyIndexAngular(x) }
	case euclidean:
		x := annoyindex.NewAnnoyIndexEuclidean(f)
		return x, func() { annoyindex.DeleteAnnoyIndexEuclidean(x) }
	case manhattan:
		x := annoyindex.NewAnnoyIndexManhattan(f)
		return x, func() { annoyindex.DeleteAnnoyIndexManhattan(x) }
	}
	x := annoyindex.NewAnnoyIndexDotProduct(f)
	return x, func() { annoyindex.DeleteAnnoyIndexDotProduct(x) }
}

// takeInts and takeFloats copy a native result and free it.
func takeInts(p *[]int) []int {
	out := append([]int{}, *p...)
	annoyindex.Swig_free(*(*uintptr)(unsafe.Pointer(p)))
	return out
}
func takeFloats(p *[]float32) []float32 {
	out := append([]float32{}, *p...)
	annoyindex.Swig_free(*(*uintptr)(unsafe.Pointer(p)))
	return out
}

// rng is an interval for the reported value (distance, or product for dot).
type rng struct{ lo, hi float64 }

// ref computes in double precision what the metric says, with the error a single-precision evaluation may make.
func ref(metric int, a, b []float32) rng {
	const eps = 1.0 / (1 << 23)
	n := float64(len(a) + 8)
	var pq, ab, aa, bb, l1, l2 float64
	for i := range a {
		x, y := float64(a[i]), float64(b[i])
		pq += x * y
		ab += math.Abs(x * y)
		aa += x * x
		bb += y * y
		l1 += math.Abs(x - y)
		l2 += (x - y) * (x - y)
	}
	switch metric {
	case euclidean:
		d := math.Sqrt(l2)
		e := n*eps*d + 1e-18
		return rng{d - e, d + e}
	case manhattan:
		e := 2*n*eps*l1 + 1e-30
		return rng{l1 - e, l1 + e}
	case dot:
		e := n*eps*ab + 1e-30
		return rng{pq - e, pq + e}
	}
	if aa == 0 || bb == 0 {
		s := math.Sqrt2
		return rng{s - 1e-6, s + 1e-6}
	}
	d2 := 2 - 2*pq/math.Sqrt(aa*bb)
	e := 8 * n * eps
	return rng{math.Sqrt(math.Max(0, d2-e)) - 1e-6, math.Sqrt(math.Max(0, d2+e)) + 1e-6}
}

func worse(metric int, x, y rng) bool { // x is definitely worse than y
	if metric == dot {
		return x.hi < y.lo
	}
	return x.lo > y.hi
}

func value(r *rand.Rand, flavour int) float32 {
	switch flavour {
	case 0:
		return float32(r.IntN(5) - 2)
	case 1:
		return float32(r.NormFloat64())
	case 2:
		return float32(r.NormFloat64() * 1000)
	case 3:
		if r.IntN(3) == 0 {
			return float32(r.IntN(3) - 1)
		}
		return 0
	case 4:
		return float32(r.IntN(2))
	}
	return 5 + float32(r.NormFloat64()*0.01)
}

func TestIndex(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "index call")
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
	cases := rep.N(1200, 3000)
	if rep.Stage == "asan" {
		cases = rep.N(350, 900)
	}
	var wg sync.WaitGroup
	work := make(chan int)
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range work {
				one(rep, c)
			}
		}()
	}
	for c := 0; c < cases; c++ {
		work <- c
	}
	close(work)
	wg.Wait()
	rep.Done()
}

var dims = []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 100}

func one(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("index", c))
	metric := c % 4
	f := dims[r.IntN(len(dims))]
	count := []int{0, 1, 2, 3, 4, f, f + 1, f + 2, f + 3, f + 4, 10 + r.IntN(60), 100 + r.IntN(300), 100 + r.IntN(300), 1500}[r.IntN(14)]
	if rep.Stage == "asan" {
		count = min(count, 400)
	}
	flavour := r.IntN(6)
	trees := []int{-1, -1, 1, 2, 5, 10, 30}[r.IntN(7)]
	what := fmt.Sprintf("case %d: %s, dimension %d, %d items, flavour %d, %d trees", c, names[metric], f, count, flavour, trees)
	x, free := create(metric, f)
	file := filepath.Join(lib.TempDir("index"), "a.ann")
	defer os.RemoveAll(filepath.Dir(file))
	disk := r.IntN(3) == 0
	if disk {
		if !x.OnDiskBuild(file) {
			rep.Violate("%s: an index on disk could not be started", what)
		}
	}
	items := map[int][]float32{}
	order := r.Perm(count)
	gaps := r.IntN(5) == 0
	if r.IntN(2) == 0 {
		sort.Ints(order)
	}
	var distinct [][]float32
	for _, id := range order {
		if gaps && id != count-1 && r.IntN(3) == 0 { // the last one stays, so that the number of items is known
			continue
		}
		v := make([]float32, f)
		for i := range v {
			v[i] = value(r, flavour)
		}
		if len(distinct) > 0 && r.IntN(6) == 0 {
			v = append([]float32{}, distinct[r.IntN(len(distinct))]...)
		}
		distinct = append(distinct, v)
		if r.IntN(15) == 0 { // replaced before the build
			w := make([]float32, f)
			w[0] = 7
			x.AddItem(id, w)
		}
		in := append([]float32{}, v...)
		x.AddItem(id, in)
		items[id] = v
		for i := range in { // the caller may reuse its vector
			in[i] = -99
		}
	}
	x.Build(trees)
	check := func(x index, state string) [][]int {
		return query(rep, rep.Rng(fmt.Sprint("query", c)), what+", "+state, metric, f, x, items, count)
	}
	first := check(x, "built")
	same := func(state string, l [][]int) {
		for i := range first {
			if fmt.Sprint(first[i]) != fmt.Sprint(l[i]) {
				rep.Violate("%s: %s: answer %d was %v, is %v", what, state, i, first[i], l[i])
				return
			}
		}
	}
	states := 1
	if len(items) > 0 {
		if !disk {
			if !save(r, x, file) {
				rep.Violate("%s: could not be saved", what)
			}
			same("after saving", check(x, "saved"))
			states++
		}
		free()
		y, free2 := create(metric, f)
		if !load(r, y, file) {
			rep.Violate("%s: could not be loaded", what)
			return
		}
		same("after loading", check(y, "loaded"))
		states++
		if r.IntN(3) == 0 { // a loaded index does not change
			for i := 0; i < 3; i++ {
				y.AddItem(r.IntN(2*len(items)+2), lib.GenVec(r, f, 1))
			}
			y.Build(1 + r.IntN(3))
			same("after adding to a loaded one", check(y, "loaded, added"))
			states++
		}
		if r.IntN(3) == 0 { // a copy made from the loaded one
			file2 := file + "2"
			if !y.Save(file2) {
				rep.Violate("%s: a loaded index could not be saved", what)
			}
			y.Unload()
			if !y.Load(file2) {
				rep.Violate("%s: a copy could not be loaded", what)
				return
			}
			same("after copying", check(y, "copied"))
			states++
		}
		// a broken or missing file is refused, and a good one can be loaded afterwards
		if r.IntN(3) == 0 {
			y.Unload()
			bad := file + "bad"
			b, _ := os.ReadFile(file)
			switch r.IntN(4) { // nodes are several words long
			case 0:
				b = b[:r.IntN(3)]
			case 1:
				b = b[:len(b)-1-r.IntN(3)]
			case 2:
				b = b[:r.IntN(len(b)/4)*4+1+r.IntN(3)]
			case 3:
				b = append(b, make([]byte, 1+r.IntN(3))...)
			}
			os.WriteFile(bad, b, 0644)
			if load(r, y, bad) || load(r, y, file+"missing") {
				rep.Violate("%s: a broken file was loaded", what)
			}
			free2()
			y, free2 = create(metric, f)
			if !y.Load(file) {
				rep.Violate("%s: could not be loaded again", what)
				return
			}
			same("after loading again", check(y, "loaded again"))
		}
		free2()
	} else {
		free()
	}
	rep.Count("states", states)
	sig := ""
	if len(items) > 1 {
		sig = what
	}
	rep.Case(sig)
	rep.Sample(what)
}

func save(r *rand.Rand, x index, file string) bool {
	switch r.IntN(3) {
	case 0:
		return x.Save(file)
	case 1:
		return x.Save(file, false)
	}
	return x.Save(file, true)
}

func load(r *rand.Rand, x index, file string) bool {
	switch r.IntN(3) {
	case 0:
		return x.Load(file)
	case 1:
		return x.Load(file, false)
	}
	return x.Load(file, true)
}

// query asks a fixed series of questions and checks every answer against all items.
func query(rep *lib.Rep, r *rand.Rand, what string, metric, f int, x index, items map[int][]float32, count int) [][]int {
	if n := x.GetNItems(); n != count {
		rep.Violate("%s: %d items reported", what, n)
	}
	var ids []int
	for id := range items {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if len(ids) > 60 && r.IntN(10) > 0 {
			continue
		}
		var v []float32
		x.GetItem(id, &v)
		got := takeFloats(&v)
		if fmt.Sprint(got) != fmt.Sprint(items[id]) {
			rep.Violate("%s: item %d was %v, reads back as %v", what, id, items[id], got)
			return nil
		}
		rep.Count("items_read", 1)
	}
	for k := 0; k < 30 && len(ids) > 0; k++ {
		i, j := ids[r.IntN(len(ids))], ids[r.IntN(len(ids))]
		d := float64(x.GetDistance(i, j))
		if w := ref(metric, items[i], items[j]); !(d >= w.lo && d <= w.hi) {
			rep.Violate("%s: distance of %v and %v is %v, not in [%v, %v]", what, items[i], items[j], d, w.lo, w.hi)
			return nil
		}
		rep.Count("distances", 1)
	}
	type question struct {
		q         []float32
		item      int
		n, budget int
		dist      bool
	}
	var qs []question
	for k := 0; k < 14; k++ {
		q := question{item: -1, dist: r.IntN(3) > 0}
		q.n = []int{0, 1, 2, 5, 10, len(ids), len(ids) + 3, 1000}[r.IntN(8)]
		q.budget = []int{1 << 30, 1 << 30, 1 << 30, -1, -1, 0, 1, 10, 100}[r.IntN(9)]
		if len(ids) > 0 && r.IntN(2) == 0 {
			q.item = ids[r.IntN(len(ids))]
			q.q = items[q.item]
		} else {
			q.q = make([]float32, f)
			fl := r.IntN(6)
			for i := range q.q {
				q.q[i] = value(r, fl)
			}
		}
		qs = append(qs, q)
	}
	res := make([][]int, len(qs))
	var wg sync.WaitGroup
	for k := range qs { // an index is searched concurrently
		wg.Add(1)
		go func() {
			defer wg.Done()
			q := qs[k]
			var l []int
			var d []float32
			in := append([]float32{}, q.q...)
			switch {
			case q.item >= 0 && q.dist:
				x.GetNnsByItem(q.item, q.n, q.budget, &l, &d)
			case q.item >= 0:
				x.GetNnsByItem(q.item, q.n, q.budget, &l)
			case q.dist:
				x.GetNnsByVector(in, q.n, q.budget, &l, &d)
			default:
				x.GetNnsByVector(in, q.n, q.budget, &l)
			}
			res[k] = takeInts(&l)
			w := fmt.Sprintf("%s, query %v, n %d, budget %d", what, q.q, q.n, q.budget)
			if q.dist {
				dd := takeFloats(&d)
				if len(dd) != len(res[k]) {
					rep.Violate("%s: %d items with %d distances", w, len(res[k]), len(dd))
					return
				}
				for i, y := range dd {
					v, ok := items[res[k][i]]
					if !ok {
						continue
					}
					if z := ref(metric, q.q, v); !(float64(y) >= z.lo && float64(y) <= z.hi) {
						rep.Violate("%s: reported distance %v of item %d %v is not in [%v, %v]", w, y, res[k][i], v, z.lo, z.hi)
						return
					}
					if i > 0 && ((metric == dot && y > dd[i-1]) || (metric != dot && y < dd[i-1])) {
						rep.Violate("%s: distances are not in order: %v", w, dd)
						return
					}
				}
			}
			answer(rep, w, metric, q.q, q.n, q.budget == 1<<30, res[k], items)
		}()
	}
	wg.Wait()
	for k := range qs { // with a limited budget an answer depends on the order of the trees, which a file does not keep
		if qs[k].budget != 1<<30 {
			res[k] = nil
		}
	}
	return res
}

func answer(rep *lib.Rep, w string, metric int, q []float32, n int, all bool, l []int, items map[int][]float32) {
	rep.Count("queries", 1)
	if len(l) > n || (all && len(l) != min(n, len(items))) {
		rep.Violate("%s: %d of %d items returned", w, len(l), len(items))
		return
	}
	seen := map[int]bool{}
	for i, id := range l {
		v, ok := items[id]
		if !ok {
			rep.Violate("%s: item %d was never added", w, id)
			return
		}
		if seen[id] {
			rep.Violate("%s: item %d returned twice", w, id)
			return
		}
		seen[id] = true
		if i > 0 && worse(metric, ref(metric, q, items[l[i-1]]), ref(metric, q, v)) {
			rep.Violate("%s: item %d comes after item %d, which is farther", w, id, l[i-1])
			return
		}
	}
	if all && len(l) > 0 {
		last := ref(metric, q, items[l[len(l)-1]])
		for id, v := range items {
			if !seen[id] && worse(metric, last, ref(metric, q, v)) {
				rep.Violate("%s: item %d %v is nearer than the last one returned, %v", w, id, v, items[l[len(l)-1]])
				return
			}
		}
	}
}
