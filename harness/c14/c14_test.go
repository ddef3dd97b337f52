package c14

import (
	"context"
	"fmt"
	"math/rand/v2"
	"net"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/lib"

	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	"github.com/bgokden/veri/util"
	pb "github.com/bgokden/veri/veriservice"
)

const nobody = 65534

// confined re-runs this test as an unprivileged user who owns nothing but a scratch tree: the code under test
// decides what is removed, so it gets nothing real to remove.
func confined(t *testing.T) bool {
	if os.Getenv("C14_CONFINED") != "" {
		return true
	}
	dir := lib.TempDir("confined")
	if err := os.Chown(dir, nobody, nobody); err != nil {
		panic("HARNESS " + err.Error())
	}
	cmd := exec.Command(os.Args[0], "-test.run", "^"+t.Name()+"$", "-test.timeout", "0")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "C14_CONFINED=1", "VERIF_SCRATCH="+dir, "TMPDIR="+dir)
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody, NoSetGroups: true}}
	if err := cmd.Run(); err != nil {
		fmt.Fprintln(os.Stderr, "child:", err)
		os.Exit(3)
	}
	os.Exit(0)
	return false
}

func snapshot(root string) map[string]string {
	m := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			m[p] = "dir"
		} else if b, err := os.ReadFile(p); err == nil {
			m[p] = string(b)
		}
		return nil
	})
	return m
}

func write(p, s string) {
	os.MkdirAll(filepath.Dir(p), 0755)
	if err := os.WriteFile(p, []byte(s), 0644); err != nil && !strings.Contains(err.Error(), "name too long") {
		panic("HARNESS " + err.Error())
	}
}

var parts = []string{"..", ".", "", "a", "b", "x y", "..", "%2e%2e", "%2F", "ü", "...", "data", "index.save", "*", "~", "-rf", "\\", "a%2Fb", "..%2f"}

// alike is a different name that some way of making directory names could mix up with the given one
func alike(r *rand.Rand, s string) string {
	c := []func(string) string{strings.ToUpper, strings.ToLower, strings.TrimSpace, filepath.Clean,
		func(s string) string { return s + " " },
		func(s string) string { return s + "." },
		func(s string) string { return s + "/" },
		func(s string) string { return s + "\x00" },
		func(s string) string { return s + "2" },
		func(s string) string { return "/" + s },
		func(s string) string { return "./" + s },
		func(s string) string { return strings.ReplaceAll(s, "/", "_") },
		func(s string) string { return strings.ReplaceAll(s, "/", "-") },
		func(s string) string { return strings.ReplaceAll(s, "/", "") },
		func(s string) string { return strings.ReplaceAll(s, " ", "+") },
		func(s string) string { return strings.ReplaceAll(s, " ", "_") },
		func(s string) string { return strings.ReplaceAll(s, "..", "") },
		func(s string) string { return strings.ReplaceAll(s, "\u00fc", "u\u0308") },
		url.PathEscape, url.QueryEscape,
		func(s string) string { u, _ := url.PathUnescape(s); return u },
		func(s string) string { return s[:max(0, len(s)-1)] },
		filepath.Base,
	}
	for i := 0; i < 20; i++ {
		if x := c[r.IntN(len(c))](s); x != s {
			return x
		}
	}
	return s
}

func genName(r *rand.Rand) string {
	switch r.IntN(12) {
	case 0:
		return ""
	case 1:
		return "."
	case 2:
		return ".."
	case 3:
		return strings.Repeat("../", 1+r.IntN(6))
	case 4:
		return strings.Repeat("long", 20+r.IntN(200))
	case 5:
		return "/verif-no-such-directory/" + fmt.Sprint(r.IntN(9))
	case 6:
		return "plain" + fmt.Sprint(r.IntN(9))
	}
	n := 1 + r.IntN(5)
	s := ""
	ups := 0
	for i := 0; i < n; i++ {
		p := parts[r.IntN(len(parts))]
		if strings.HasPrefix(p, "..") {
			if ups++; ups > 6 { // the scratch tree is deeper than that
				continue
			}
		}
		s += p
		if r.IntN(5) > 0 {
			s += "/"
		}
	}
	return s
}

// tree is a scratch area with the data folder eight levels deep and witnesses at every level.
type tree struct {
	root, folder, data string
	bare               bool
}

func newTree(bare bool) *tree {
	root := lib.TempDir("tree")
	t := &tree{root: root, folder: filepath.Join(root, "1/2/3/4/5/6/7/node")}
	t.data = filepath.Join(t.folder, "data")
	os.MkdirAll(t.data, 0755)
	t.bare = bare
	if bare { // nothing but empty folders
		return t
	}
	p := t.data
	for len(p) >= len(root) {
		write(filepath.Join(p, "witness"), "w "+p)
		for _, x := range []string{"a", "b", "x y", "data2", "..."} {
			write(filepath.Join(p, x, "witness"), "w "+p+x)
		}
		write(filepath.Join(p, "a", "b", "deep"), "d")
		p = filepath.Dir(p)
	}
	return t
}

func within(p, dir string) bool { return p == dir || strings.HasPrefix(p, dir+"/") }

// compare reports everything that vanished or changed outside the allowed directories.
func (t *tree) compare(rep *lib.Rep, what string, before map[string]string, allowed map[string]bool) {
	after := snapshot(t.root)
	for p, c := range before {
		ok := false
		for a := range allowed {
			ok = ok || within(p, a)
		}
		base := filepath.Base(p)
		if ok || (strings.HasPrefix(base, "index.save") && filepath.Dir(p) == t.folder) {
			continue
		}
		if a, have := after[p]; !have {
			rep.Violate("%s: %s is gone", what, strings.TrimPrefix(p, t.root))
			return
		} else if a != c {
			rep.Violate("%s: %s was changed", what, strings.TrimPrefix(p, t.root))
			return
		}
	}
	rep.Count("paths_compared", len(before))
}

// own gives a data set a directory with content where it says it lives, and checks that this is a place of its own.
func (t *tree) own(rep *lib.Rep, name string, d *data.Data, owners map[string]string) bool {
	p := filepath.Clean(d.DBPath)
	if !strings.HasPrefix(p, t.data+"/") {
		rep.Violate("data set %q lives at %s, outside of the data folder", name, d.DBPath)
		return false
	}
	for q, other := range owners {
		if other != name && (within(p, q) || within(q, p)) {
			rep.Violate("data sets %q and %q share the directory %s", name, other, p)
			return false
		}
	}
	owners[p] = name
	if len(filepath.Base(p)) < 200 {
		os.MkdirAll(p, 0755)
		os.WriteFile(filepath.Join(p, "content"), []byte(name), 0644)
		if !t.bare { // names of files that something working on p could use
			for _, x := range []string{".tmp", ".bak", "~", ".old", ".lock", ".index", "-wal"} {
				if _, err := os.Lstat(p + x); err != nil {
					write(filepath.Join(p+x, "witness"), "w")
				}
			}
			write(filepath.Join(filepath.Dir(p), "."+filepath.Base(p), "witness"), "w")
		}
	}
	return true
}

func TestNames(t *testing.T) {
	confined(t)
	rep := lib.Start()
	lib.Bubble(t, rep, func() {
		for c := 0; c < rep.N(120, 400); c++ {
			r := rep.Rng(fmt.Sprint("names", c))
			tr := newTree(c%4 == 1)
			ds := data.NewDataset(tr.folder)
			owners, live := map[string]string{}, map[string]*data.Data{}
			var trace []string
			removed := 0
			for k, nk := 0, 4+r.IntN(16); k < nk; k++ {
				allowed := map[string]bool{}
				before := map[string]string{}
				what := ""
				switch r.IntN(7) {
				default:
					name := genName(r)
					if other, d := pick(r, live); d != nil && r.IntN(3) == 0 {
						name = alike(r, other)
					}
					what = fmt.Sprintf("create %q", name)
					before = snapshot(tr.root)
					cfg := &pb.DataConfig{Name: name, NoTarget: true, Version: 1, Retention: uint64([]int{0, 30, 3600}[r.IntN(3)])}
					if ds.CreateIfNotExists(cfg) == nil {
						if d, err := ds.GetNoCreate(name); err == nil {
							d.Insert(lib.Datum([]float32{1, 2, 3}, "", "x", 1), nil)
							if live[name] == nil {
								tr.own(rep, name, d, owners)
							}
							live[name] = d
						}
					}
					synctest.Wait()
				case 0:
					name, d := pick(r, live)
					if d == nil {
						continue
					}
					what = fmt.Sprintf("delete %q", name)
					allowed[filepath.Clean(d.DBPath)] = true
					before = snapshot(tr.root)
					ds.Delete(name)
					delete(live, name)
					delete(owners, filepath.Clean(d.DBPath))
					removed++
					synctest.Wait()
				case 1:
					name, d := pick(r, live)
					if d == nil {
						continue
					}
					what = fmt.Sprintf("close the data set %q", name)
					allowed[filepath.Clean(d.DBPath)] = true
					before = snapshot(tr.root)
					d.Close()
					synctest.Wait()
				case 2: // retention passes for some
					what = "retention passes"
					for p := range owners {
						allowed[p] = true
					}
					before = snapshot(tr.root)
					time.Sleep(time.Duration([]int{40, 70, 130, 3700}[r.IntN(4)]) * time.Second)
					ds.ReloadRuns()
					synctest.Wait()
					for name := range live {
						if _, err := ds.GetNoCreate(name); err != nil {
							delete(live, name) // its directory may still be removed later
							removed++
						}
					}
				case 3: // a data set outside of the registry
					name := genName(r)
					what = fmt.Sprintf("standalone %q created and closed", name)
					before = snapshot(tr.root)
					d, err := data.NewData(&pb.DataConfig{Name: name, NoTarget: true}, tr.data)
					if err == nil {
						if tr.own(rep, name, d, owners) {
							allowed[filepath.Clean(d.DBPath)] = true
						}
						synctest.Wait()
						d.Close()
						if live[name] == nil {
							delete(owners, filepath.Clean(d.DBPath))
						}
						removed++
					}
				}
				trace = append(trace, what)
				tr.compare(rep, fmt.Sprintf("case %d: %s (after %q)", c, what, trace), before, allowed)
			}
			before := snapshot(tr.root)
			allowed := map[string]bool{}
			for p := range owners {
				allowed[p] = true
			}
			ds.Close()
			synctest.Wait()
			tr.compare(rep, fmt.Sprintf("case %d: closing the registry (after %q)", c, trace), before, allowed)
			if removed > 0 {
				rep.Case(fmt.Sprint(trace))
				rep.Sample(trace)
			} else {
				rep.Case("")
			}
			rep.Count("removals", removed)
			os.RemoveAll(tr.root)
		}
	})
}

func pick(r *rand.Rand, m map[string]*data.Data) (string, *data.Data) {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) == 0 {
		return "", nil
	}
	sort.Strings(ks)
	k := ks[r.IntN(len(ks))]
	return k, m[k]
}

func freePort() int {
	return lib.FreePort()
}

// TestServer: however a server process ends, the directory it was given and everything around it survives.
func TestServer(t *testing.T) {
	confined(t)
	rep := lib.Start()
	bin := os.Getenv("VERIF_SERVER")
	for c := 0; c < rep.N(14, 80); c++ {
		r := rep.Rng(fmt.Sprint("server", c))
		tr := newTree(false)
		for _, n := range []string{"mine", "data/mine/inner", "other/x"} {
			write(filepath.Join(tr.folder, n), n)
		}
		port := freePort()
		var blocker net.Listener
		mode := c % 7
		dirArg := tr.folder
		name := []string{"port taken", "SIGTERM", "SIGINT", "SIGKILL", "SIGTERM with hostile data sets", "invalid port", "directory is read-only"}[mode]
		if mode == 0 {
			l, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", port))
			if err != nil {
				rep.Count("skipped", 1)
				continue
			}
			blocker = l
		}
		if mode == 5 {
			port = 70000 + r.IntN(1000)
		}
		if mode == 6 {
			os.Chmod(tr.folder, 0555)
			l, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", port))
			if err == nil {
				blocker = l
			}
		}
		if r.IntN(3) == 0 { // the same directory spelled differently
			dirArg = tr.folder + "/../node/."
		}
		before := snapshot(tr.root)
		cmd := exec.Command(bin, "serve", "-p", fmt.Sprint(port), "-d", dirArg)
		cmd.Dir = tr.root
		cmd.Env = append(os.Environ(), "HOME="+tr.root)
		if err := cmd.Start(); err != nil {
			rep.Inconclusive("start: %v", err)
		}
		done := make(chan struct{})
		go func() { cmd.Wait(); close(done) }()
		if mode >= 1 && mode <= 4 {
			up := false
			for i := 0; i < 600 && !up; i++ {
				time.Sleep(50 * time.Millisecond)
				if conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port)); err == nil {
					conn.Close()
					up = true
				}
				select {
				case <-done:
					i = 600
				default:
				}
			}
			if up && mode == 4 {
				hostile(rep, r, port)
			}
			rep.Count("servers_reached", b2i(up))
			cmd.Process.Signal([]os.Signal{nil, syscall.SIGTERM, syscall.SIGINT, syscall.SIGKILL, syscall.SIGTERM}[mode])
		}
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			cmd.Process.Kill()
			<-done
		}
		if blocker != nil {
			blocker.Close()
		}
		os.Chmod(tr.folder, 0755)
		tr.compare(rep, fmt.Sprintf("server %d (%s)", c, name), before, nil)
		rep.Case(fmt.Sprint(c, name, dirArg == tr.folder))
		rep.Sample(name)
		os.RemoveAll(tr.root)
	}
	rep.Done()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func hostile(rep *lib.Rep, r *rand.Rand, port int) {
	cc := util.NewConnectionCache()
	conn := cc.Get(fmt.Sprintf("localhost:%d", port))
	if conn == nil {
		return
	}
	client := pb.NewVeriServiceClient(conn.Conn)
	for i := 0; i < 15; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
		if _, err := client.CreateDataIfNotExists(ctx, &pb.DataConfig{Name: strings.ToValidUTF8(genName(r), "?"), NoTarget: true, Version: 1}); err == nil {
			rep.Count("hostile_names_created", 1)
		}
		cancel()
	}
}

var _ = node.IsRecent
