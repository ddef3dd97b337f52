package c13

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"maps"
	"math/rand/v2"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"verif/harness/lib"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"google.golang.org/protobuf/proto"
)

// The child works on a registry and logs what it is about to do and what is done; every log line is one write,
// so it survives the kill.
type rec struct {
	Ev    string           `json:"ev"` // begin-create, begin-delete, saved
	Cfg   *pb.DataConfig   `json:"cfg,omitempty"`
	Name  string           `json:"name,omitempty"`
	State []*pb.DataConfig `json:"state,omitempty"`
}

func TestChild(t *testing.T) {
	dir := os.Getenv("C13_DIR")
	if dir == "" {
		return
	}
	log.SetOutput(io.Discard)
	f, err := os.OpenFile(os.Getenv("C13_LOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		panic("HARNESS " + err.Error())
	}
	put := func(r rec) {
		b, _ := json.Marshal(r)
		f.Write(append(b, '\n'))
	}
	seed, _ := strconv.ParseUint(os.Getenv("C13_SEED"), 10, 64)
	r := rand.New(rand.NewPCG(seed, 5))
	ds := data.NewDataset(dir)
	model := map[string]*pb.DataConfig{}
	for _, c := range ds.DataConfigList() {
		model[c.Name] = proto.Clone(c).(*pb.DataConfig)
	}
	put(rec{Ev: "opened"})
	n, _ := strconv.Atoi(os.Getenv("C13_N"))
	for i := 0; ; i++ {
		for k := 0; k < 1+r.IntN(4); k++ {
			name := fmt.Sprintf("set %d", r.IntN(n))
			if r.IntN(10) == 0 {
				name = fmt.Sprintf("ünïcode/%d \"q\"\n", r.IntN(n))
			}
			if r.IntN(12) == 0 { // longer than usual buffers; at most a few of them
				name = fmt.Sprint(r.IntN(3), strings.Repeat("<&long>", 1+[]int{150, 700, 1200, 10000}[r.IntN(4)]))
			}
			if r.IntN(4) == 0 && model[name] != nil {
				put(rec{Ev: "begin-delete", Name: name})
				ds.Delete(name)
				delete(model, name)
				continue
			}
			c := &pb.DataConfig{Name: name, Version: uint64(i*10 + k + 1), TargetN: r.Uint64(), TargetUtilization: r.Float64(), NoTarget: r.IntN(2) == 0, ReplicationOnInsert: uint32(r.IntN(9)), EnforceReplicationOnInsert: r.IntN(2) == 0, Retention: uint64(1000000 + r.IntN(1000000))}
			if old := model[name]; old != nil {
				c.Version = old.Version + 1
			}
			put(rec{Ev: "begin-create", Cfg: c})
			if err := ds.CreateIfNotExists(proto.Clone(c).(*pb.DataConfig)); err != nil {
				put(rec{Ev: "error", Name: err.Error()})
			}
			model[name] = c
		}
		if err := ds.SaveIndex(); err != nil {
			put(rec{Ev: "error", Name: err.Error()})
			continue
		}
		st := []*pb.DataConfig{}
		for _, c := range model {
			st = append(st, c)
		}
		put(rec{Ev: "saved", State: st})
	}
}

// TestOpener only opens the registry and stays until it is killed.
func TestOpener(t *testing.T) {
	dir := os.Getenv("C13_DIR")
	if dir == "" {
		return
	}
	log.SetOutput(io.Discard)
	f, _ := os.OpenFile(os.Getenv("C13_LOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	f.WriteString("start\n")
	data.NewDataset(dir)
	f.WriteString("opened\n")
	time.Sleep(time.Hour)
}

// TestTrim opens the registry, deletes half of it, saves, and stays until it is killed.
func TestTrim(t *testing.T) {
	dir := os.Getenv("C13_DIR")
	if dir == "" {
		return
	}
	log.SetOutput(io.Discard)
	f, _ := os.OpenFile(os.Getenv("C13_LOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	ds := data.NewDataset(dir)
	st := []*pb.DataConfig{}
	for i, c := range ds.DataConfigList() {
		if i%2 == 0 {
			ds.Delete(c.Name)
		} else {
			st = append(st, c)
		}
	}
	ev := "saved"
	if err := ds.SaveIndex(); err != nil {
		ev = "error"
	}
	b, _ := json.Marshal(rec{Ev: ev, State: st})
	f.Write(append(b, '\n'))
	time.Sleep(time.Hour)
}

// TestLimited saves with a file size limit, so the save fails in the middle.
func TestLimited(t *testing.T) {
	dir := os.Getenv("C13_DIR")
	if dir == "" {
		return
	}
	log.SetOutput(io.Discard)
	signal.Ignore(syscall.SIGXFSZ)
	ds := data.NewDataset(dir)
	time.Sleep(300 * time.Millisecond) // saves after loading
	lim, _ := strconv.ParseUint(os.Getenv("C13_N"), 10, 64)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: lim, Max: lim})
	ds.CreateIfNotExists(&pb.DataConfig{Name: "late", Version: 1})
	err := ds.SaveIndex()
	time.Sleep(200 * time.Millisecond)
	if err != nil {
		os.Exit(7) // the save reported the failure
	}
	os.Exit(8)
}

// tmp is a folder on another file system, if there is one.
var tmp = sync.OnceValue(func() string {
	d, err := os.MkdirTemp("/dev/shm", "verif-c13-")
	if err != nil {
		return ""
	}
	return d
})

func start(test, dir, logf string, seed uint64, n int) *exec.Cmd {
	cmd := exec.Command(os.Args[0], "-test.run", "^"+test+"$", "-test.timeout", "0")
	cmd.Env = append(os.Environ(), "C13_DIR="+dir, "C13_LOG="+logf, fmt.Sprint("C13_SEED=", seed), fmt.Sprint("C13_N=", n))
	if d := tmp(); d != "" && seed%2 == 0 {
		cmd.Env = append(cmd.Env, "TMPDIR="+d)
	}
	if err := cmd.Start(); err != nil {
		panic("HARNESS " + err.Error())
	}
	return cmd
}

func readLog(f string) []rec {
	var l []rec
	b, _ := os.ReadFile(f)
	for _, line := range strings.Split(string(b), "\n") {
		var r rec
		if json.Unmarshal([]byte(line), &r) == nil && r.Ev != "" {
			l = append(l, r)
		}
	}
	return l
}

// TestLister opens the registry, logs what it holds, and works on until it is killed.
func TestLister(t *testing.T) {
	dir := os.Getenv("C13_DIR")
	if dir == "" {
		return
	}
	log.SetOutput(io.Discard)
	f, _ := os.OpenFile(os.Getenv("C13_LOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	ds := data.NewDataset(dir)
	b, _ := json.Marshal(rec{Ev: "saved", State: ds.DataConfigList()})
	f.Write(append(b, '\n'))
	time.Sleep(time.Hour)
}

// TestCreator makes and saves n data sets.
func TestCreator(t *testing.T) {
	dir := os.Getenv("C13_DIR")
	if dir == "" {
		return
	}
	log.SetOutput(io.Discard)
	f, _ := os.OpenFile(os.Getenv("C13_LOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	seed, _ := strconv.ParseUint(os.Getenv("C13_SEED"), 10, 64)
	n, _ := strconv.Atoi(os.Getenv("C13_N"))
	r := rand.New(rand.NewPCG(seed, 6))
	ds := data.NewDataset(dir)
	st := []*pb.DataConfig{}
	for i := 0; i < n; i++ {
		long := r.IntN(50)
		if r.IntN(n) < 2 {
			long = []int{1000, 4090, 5000, 9000, 70000}[r.IntN(5)]
		}
		x := &pb.DataConfig{Name: fmt.Sprint("n", i, strings.Repeat("x", long)), Version: uint64(1 + r.IntN(100)), TargetN: r.Uint64(), NoTarget: i%2 == 0, Retention: 1000000}
		st = append(st, proto.Clone(x).(*pb.DataConfig))
		if err := ds.CreateIfNotExists(x); err != nil {
			panic("HARNESS " + err.Error())
		}
	}
	ev := "saved"
	if err := ds.SaveIndex(); err != nil {
		ev = "error"
	}
	b, _ := json.Marshal(rec{Ev: ev, State: st})
	f.Write(append(b, '\n'))
	time.Sleep(time.Hour)
}

// dump runs a child until it has logged a state, and kills it (after pause) so that only one process uses the folder.
// A folder belongs to one process at a time.
func dump(test, dir string, seed uint64, n int, pause time.Duration) map[string]*pb.DataConfig {
	logf := filepath.Join(lib.TempDir("dump"), "log")
	cmd := start(test, dir, logf, seed, n)
	ok := waitFor(func() bool { b, _ := os.ReadFile(logf); return len(b) > 0 && b[len(b)-1] == '\n' })
	if ok {
		time.Sleep(pause)
	}
	cmd.Process.Kill()
	cmd.Wait()
	l := readLog(logf)
	os.RemoveAll(filepath.Dir(logf))
	if !ok || len(l) == 0 || l[0].Ev != "saved" {
		return nil
	}
	m := map[string]*pb.DataConfig{}
	for _, c := range l[0].State {
		m[c.Name] = c
	}
	return m
}

func reopen(dir string, pause time.Duration) map[string]*pb.DataConfig {
	return dump("TestLister", dir, 0, 0, pause)
}

func waitFor(f func() bool) bool {
	for t0 := time.Now(); time.Since(t0) < 60*time.Second; time.Sleep(500 * time.Microsecond) {
		if f() {
			return true
		}
	}
	return false
}

func TestKill(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "crash and reopen")
	for c := 0; c < rep.N(45, 600); c++ {
		kill(rep, c)
	}
	os.RemoveAll(tmp())
	rep.Done()
}

func kill(rep *lib.Rep, c int) {
	r := rep.Rng(fmt.Sprint("kill", c))
	base := lib.TempDir("kill")
	dir := filepath.Join(base, "node")
	os.MkdirAll(dir, 0755)
	n := []int{1, 3, 20, 200, 1500}[r.IntN(5)]
	state := map[string]*pb.DataConfig{} // what the folder is known to hold
	rounds := 1 + r.IntN(3)
	var sigs []string
	for k := 0; k < rounds; k++ {
		logf := filepath.Join(base, fmt.Sprint("log", k))
		cmd := start("TestChild", dir, logf, r.Uint64(), n)
		need := r.IntN(4)
		saves := func() int {
			b, _ := os.ReadFile(logf)
			return strings.Count(string(b), `{"ev":"saved"`)
		}
		if !waitFor(func() bool { return saves() >= need }) {
			cmd.Process.Kill()
			cmd.Wait()
			rep.Violate("case %d: no save completed in 60 s", c)
			return
		}
		// meanwhile a reader must never see a torn index
		for e := time.Now().Add(time.Duration(r.IntN(20000)) * time.Microsecond); time.Now().Before(e); {
			if b, err := os.ReadFile(filepath.Join(dir, "index.save")); err == nil && len(b) > 0 {
				checkFile(rep, c, b)
				rep.Count("index_reads_while_saving", 1)
			}
		}
		cmd.Process.Kill()
		cmd.Wait()
		l := readLog(logf)
		begun, begunAll, lastSaved := map[string]bool{}, map[string][]*pb.DataConfig{}, -1
		for i, x := range l {
			if x.Ev == "saved" {
				lastSaved = i
				state = map[string]*pb.DataConfig{}
				for _, y := range x.State {
					state[y.Name] = y
				}
			}
			if x.Ev == "error" {
				rep.Violate("case %d: an operation failed: %s", c, x.Name)
			}
		}
		for _, x := range l[lastSaved+1:] {
			switch x.Ev {
			case "begin-delete":
				begun[x.Name] = true
			case "begin-create":
				begunAll[x.Cfg.Name] = append(begunAll[x.Cfg.Name], x.Cfg)
			}
		}
		got := reopen(dir, time.Duration(r.IntN(20))*time.Millisecond)
		desc := fmt.Sprintf("case %d round %d: killed after %d log lines with %d data sets saved and %d operations in flight", c, k, len(l), len(state), len(l)-lastSaved-1)
		for name, want := range state {
			have := got[name]
			if have == nil {
				if !begun[name] {
					rep.Violate("%s: %q was saved and not deleted but is lost (%d recovered)", desc, name, len(got))
					return
				}
				continue
			}
			ok := proto.Equal(have, want)
			for _, y := range begunAll[name] {
				ok = ok || proto.Equal(have, y)
			}
			if !ok {
				rep.Violate("%s: %q has configuration %v, saved was %v", desc, name, have, want)
				return
			}
		}
		for name, have := range got {
			ok := state[name] != nil
			for _, y := range begunAll[name] {
				ok = ok || proto.Equal(have, y)
			}
			if !ok {
				rep.Violate("%s: %q is back although it was deleted or never created", desc, name)
				return
			}
		}
		state = got
		for name, x := range state {
			state[name] = proto.Clone(x).(*pb.DataConfig)
		}
		rep.Count("recovered_data_sets", len(got))
		sigs = append(sigs, fmt.Sprint(len(l), len(got)))
	}
	rep.Case(fmt.Sprint(c, sigs))
	rep.Sample(fmt.Sprintf("case %d: up to %d names, %d kills, log lines and recovered data sets per round %v", c, n, rounds, sigs))
	os.RemoveAll(base)
}

func checkFile(rep *lib.Rep, c int, b []byte) {
	if b[len(b)-1] != '\n' {
		rep.Violate("case %d: the index file ends in the middle of a line: %.200q", c, b[max(0, len(b)-200):])
		return
	}
	sc := bufio.NewScanner(strings.NewReader(string(b)))
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		var x pb.DataConfig
		if json.Unmarshal(sc.Bytes(), &x) != nil {
			rep.Violate("case %d: the index file holds a broken line: %.200q", c, sc.Text())
			return
		}
	}
}

// TestReopen: opening a folder, interrupted at any instant and repeated, keeps every data set.
func TestReopen(t *testing.T) {
	rep := lib.Start()
	rep.NoProgress(lib.Watchdog, "reopen")
	for c := 0; c < rep.N(16, 400); c++ {
		r := rep.Rng(fmt.Sprint("reopen", c))
		base := lib.TempDir("reopen")
		dir := filepath.Join(base, "node")
		os.MkdirAll(dir, 0755)
		n := []int{1, 5, 100, 300, 1000}[r.IntN(5)]
		want := dump("TestCreator", dir, r.Uint64(), n, 0)
		if len(want) != n {
			rep.Violate("reopen %d: creating and saving %d data sets failed", c, n)
			continue
		}
		kills := r.IntN(3)
		for k := 0; k < kills; k++ {
			logf := filepath.Join(base, fmt.Sprint("log", k))
			cmd := start("TestOpener", dir, logf, 0, 0)
			waitFor(func() bool { b, _ := os.ReadFile(logf); return len(b) > 0 })
			time.Sleep(time.Duration(r.IntN(30000)) * time.Microsecond)
			cmd.Process.Kill()
			cmd.Wait()
		}
		for k := 0; k < 2; k++ {
			got := reopen(dir, time.Duration(r.IntN(50))*time.Millisecond)
			for name, x := range want {
				if !proto.Equal(got[name], x) {
					rep.Violate("reopen %d: after %d interrupted and %d complete openings %q is %v instead of %v (%d of %d data sets)", c, kills, k+1, name, got[name], x, len(got), n)
					break
				}
			}
			if len(got) != n {
				rep.Violate("reopen %d: %d of %d data sets after %d openings", c, len(got), n, k+1)
			}
		}
		rep.Count("configurations_compared", 2*n)
		rep.Case(fmt.Sprint("reopen", c, n, kills))
		os.RemoveAll(base)
	}
	for c := 0; c < rep.N(4, 20); c++ { // creations and deletions are saved without being asked for
		r := rep.Rng(fmt.Sprint("background", c))
		dir := filepath.Join(lib.TempDir("background"), "node")
		ds := data.NewDataset(dir)
		model := map[string]*pb.DataConfig{}
		for k := 0; k < 5; k++ {
			what := ""
			if names := slices.Sorted(maps.Keys(model)); len(names) > 0 && r.IntN(2) == 0 {
				name := names[r.IntN(len(names))]
				ds.Delete(name)
				delete(model, name)
				what = fmt.Sprintf("deleting %q", name)
			} else {
				x := &pb.DataConfig{Name: fmt.Sprint("b", k, r.IntN(99)), Version: uint64(1 + r.IntN(9)), TargetN: r.Uint64(), Retention: 1000000}
				model[x.Name] = proto.Clone(x).(*pb.DataConfig)
				if err := ds.CreateIfNotExists(x); err != nil {
					rep.Violate("background %d: %v", c, err)
				}
				what = fmt.Sprintf("creating %q", x.Name)
			}
			var got map[string]*pb.DataConfig
			same := false
			for end := time.Now().Add(60 * time.Second); !same && time.Now().Before(end); time.Sleep(100 * time.Millisecond) {
				cp := filepath.Join(lib.TempDir("copy"), "node")
				os.CopyFS(cp, os.DirFS(dir))
				got = reopen(cp, 0)
				os.RemoveAll(filepath.Dir(cp))
				same = maps.EqualFunc(got, model, func(a, b *pb.DataConfig) bool { return proto.Equal(a, b) })
			}
			if !same {
				rep.Violate("background %d: 60 s after %s the folder holds %v instead of %v", c, what, slices.Sorted(maps.Keys(got)), slices.Sorted(maps.Keys(model)))
				break
			}
			rep.Count("background_saves", 1)
		}
		rep.Case(fmt.Sprint("background", c))
	}
	for c := 0; c < rep.N(12, 60); c++ { // several folders in one process have nothing to do with each other
		r := rep.Rng(fmt.Sprint("several", c))
		base := lib.TempDir("several")
		k := 2 + r.IntN(3)
		var wg sync.WaitGroup
		want := make([]map[string]*pb.DataConfig, k)
		for i := range want {
			want[i] = map[string]*pb.DataConfig{}
			ds := data.NewDataset(filepath.Join(base, fmt.Sprint("node", i)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 12; j++ {
					x := &pb.DataConfig{Name: fmt.Sprint("own", i, "-", j), Version: uint64(i + 1), TargetN: uint64(1000*i + j), Retention: 1000000}
					want[i][x.Name] = proto.Clone(x).(*pb.DataConfig)
					if err := ds.CreateIfNotExists(x); err != nil {
						rep.Violate("several %d: %v", c, err)
					}
					if err := ds.SaveIndex(); err != nil {
						rep.Violate("several %d: %v", c, err)
					}
				}
				time.Sleep(50 * time.Millisecond) // background saves
				if err := ds.SaveIndex(); err != nil {
					rep.Violate("several %d: %v", c, err)
				}
			}()
		}
		wg.Wait()
		for i := range want {
			cp := filepath.Join(lib.TempDir("copy"), "node")
			for try := 0; os.CopyFS(cp, os.DirFS(filepath.Join(base, fmt.Sprint("node", i)))) != nil && try < 100; try++ {
				os.RemoveAll(cp) // a file was just replaced
				time.Sleep(10 * time.Millisecond)
			}
			got := reopen(cp, 0)
			if !maps.EqualFunc(got, want[i], func(a, b *pb.DataConfig) bool { return proto.Equal(a, b) }) {
				rep.Violate("several %d: folder %d of %d holds %v instead of %v", c, i, k, slices.Sorted(maps.Keys(got)), slices.Sorted(maps.Keys(want[i])))
			}
			os.RemoveAll(filepath.Dir(cp))
		}
		rep.Case(fmt.Sprint("several", c, k))
		os.RemoveAll(base)
	}
	for c := 0; c < rep.N(4, 20); c++ { // a save that fails half way leaves the old index alone
		r := rep.Rng(fmt.Sprint("limit", c))
		base := lib.TempDir("limit")
		dir := filepath.Join(base, "node")
		os.MkdirAll(dir, 0755)
		want := dump("TestCreator", dir, r.Uint64(), 200, 0)
		cmd := start("TestLimited", dir, "", 0, 100+r.IntN(6000))
		err := cmd.Wait()
		code := cmd.ProcessState.ExitCode()
		if code != 7 && code != 8 {
			rep.Inconclusive("limited child: %v", err)
		}
		got := reopen(dir, time.Duration(r.IntN(4)*300)*time.Millisecond)
		for name, x := range want {
			if !proto.Equal(got[name], x) {
				rep.Violate("limit %d: %q is lost after a save that failed half way (child %d, %d data sets left)", c, name, code, len(got))
				break
			}
		}
		if code == 8 && got["late"] == nil {
			rep.Violate("limit %d: the save reported success but the data set is not in the index", c)
		}
		// what the failed save left behind has no effect later
		again := reopen(dir, 0)
		for name, x := range got {
			if !proto.Equal(again[name], x) {
				rep.Violate("limit %d: %q is lost at the second opening after a save that failed half way (%d of %d data sets left)", c, name, len(again), len(got))
				break
			}
		}
		left := dump("TestTrim", dir, 0, 0, 0)
		if left == nil {
			rep.Violate("limit %d: saving after deletions failed", c)
		}
		if now := reopen(dir, 0); !maps.EqualFunc(now, left, func(a, b *pb.DataConfig) bool { return proto.Equal(a, b) }) {
			rep.Violate("limit %d: %d data sets were left and saved after a save that failed half way, %d are there", c, len(left), len(now))
		}
		rep.Case(fmt.Sprint("limit", c))
		rep.Count("failed_saves", 1)
		os.RemoveAll(base)
	}
	os.RemoveAll(tmp())
	rep.Done()
}
