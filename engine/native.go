package main

// Native replay: the same harnesses compiled against the real code.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

type Native struct {
	dir  string
	bin  string
	done chan struct{}
	err  error
	wall float64
}

type NativeResult struct {
	Failures   []string  `json:"failures"`
	Panic      string    `json:"panic"`
	Obs        []ObsJSON `json:"obs"`
	Diverged   string    `json:"diverged"`
	AssumeFail bool      `json:"assume_fail"`
}

const replayMain = `package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"

	nd "%s"
%s)

var registry = map[string]func(){
%s}

type kase struct {
	Harness string
	Tier    int
	Inputs  []nd.Input
}

type result struct {
	Failures   []string  ` + "`json:\"failures\"`" + `
	Panic      string    ` + "`json:\"panic\"`" + `
	Obs        []nd.Obs  ` + "`json:\"obs\"`" + `
	Diverged   string    ` + "`json:\"diverged\"`" + `
	AssumeFail bool      ` + "`json:\"assume_fail\"`" + `
}

func run(k kase) (r result) {
	s := &nd.State{Inputs: k.Inputs, TierN: k.Tier}
	nd.S = s
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(nd.Stop); !ok {
				r.Panic = fmt.Sprint(p)
				if os.Getenv("REPLAY_STACK") != "" {
					fmt.Fprintln(os.Stderr, p)
					debug.PrintStack()
				}
			}
		}
		r.Failures, r.Obs, r.Diverged, r.AssumeFail = s.Failures, s.Obs, s.Diverged, s.AssumeFail
		if s.Diverged != "" || s.AssumeFail {
			r.Panic = "" // not the recorded run any more
		}
	}()
	f := registry[k.Harness]
	if f == nil {
		r.Diverged = "no such harness"
		return
	}
	f()
	return
}

func main() {
	out := os.NewFile(3, "results")
	var ks []kase
	if err := json.NewDecoder(os.Stdin).Decode(&ks); err != nil {
		panic(err)
	}
	e := json.NewEncoder(out)
	for _, k := range ks {
		if err := e.Encode(run(k)); err != nil {
			panic(err)
		}
	}
}
`

var cFuncRE = regexp.MustCompile(`C\.(wasmer_\w+)\(`)

func buildNative(repo, harnessDir string, hs []*Harness) *Native {
	n := &Native{done: make(chan struct{})}
	go func() {
		t0 := time.Now()
		n.err = n.build(repo, harnessDir, hs)
		n.wall = time.Since(t0).Seconds()
		close(n.done)
	}()
	return n
}

func (n *Native) build(repo, harnessDir string, hs []*Harness) error {
	dir, err := os.MkdirTemp("", "gosym-native-")
	if err != nil {
		return err
	}
	n.dir = dir
	// the wasmer stub
	src, _ := os.ReadFile(filepath.Join(repo, "wasmer", "bridge.go"))
	seen := map[string]bool{}
	var c strings.Builder
	for _, m := range cFuncRE.FindAllStringSubmatch(string(src), -1) {
		if seen[m[1]] {
			continue
		}
		seen[m[1]] = true
		switch {
		case m[1] == "wasmer_instance_context_data_get":
			fmt.Fprintf(&c, "void *%s(void *ctx) { return ctx; }\n", m[1])
		case strings.Contains(m[1], "import_object_cache"):
			fmt.Fprintf(&c, "unsigned %s() { return 1; }\n", m[1])
		default:
			fmt.Fprintf(&c, "void *%s() { return 0; }\n", m[1])
		}
	}
	if err := os.WriteFile(filepath.Join(dir, "stub.c"), []byte(c.String()), 0o644); err != nil {
		return err
	}
	lib := filepath.Join(dir, "libwasmer_linux_amd64.so")
	if out, err := exec.Command("gcc", "-shared", "-fPIC", "-o", lib, filepath.Join(dir, "stub.c")).CombinedOutput(); err != nil {
		return fmt.Errorf("gcc: %v: %s", err, out)
	}
	files, _, err := overlayFiles(harnessDir, repo)
	if err != nil {
		return err
	}
	pk := map[string]string{}
	var reg []string
	for _, h := range hs {
		if _, ok := pk[h.Pkg]; !ok {
			pk[h.Pkg] = fmt.Sprintf("h%d", len(pk))
		}
		reg = append(reg, fmt.Sprintf("\t%q: %s.%s,\n", h.Name, pk[h.Pkg], h.Name))
	}
	var imps []string
	for p, a := range pk {
		imps = append(imps, fmt.Sprintf("\t%s %q\n", a, p))
	}
	sort.Strings(imps)
	mainSrc := fmt.Sprintf(replayMain, ndPath, strings.Join(imps, ""), strings.Join(reg, ""))
	mp := filepath.Join(dir, "main.go")
	if err := os.WriteFile(mp, []byte(mainSrc), 0o644); err != nil {
		return err
	}
	files[filepath.Join(repo, "verifreplay", "main.go")] = mp
	ov, _ := json.Marshal(map[string]interface{}{"Replace": files})
	ovp := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovp, ov, 0o644); err != nil {
		return err
	}
	n.bin = filepath.Join(dir, "replay")
	cmd := exec.Command("go", "build", "-overlay", ovp, "-o", n.bin, "./verifreplay")
	cmd.Dir = repo
	cmd.Env = append(goEnv(), "CGO_LDFLAGS=-L"+dir+" -Wl,-rpath,"+dir)
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("building the replay binary: %v: %s", err, out)
	}
	return nil
}

func (n *Native) wait() error {
	<-n.done
	return n.err
}

func (n *Native) cleanup() {
	<-n.done
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

// run replays cases; a crash of the process is reported as a panic of the case
// that was running.
func (n *Native) run(cases []*Case) ([]NativeResult, error) {
	var all []NativeResult
	for len(cases) > 0 {
		rs, msg, err := n.runOnce(cases)
		if err != nil {
			return all, err
		}
		all = append(all, rs...)
		cases = cases[len(rs):]
		if len(cases) > 0 {
			all = append(all, NativeResult{Panic: "process ended: " + msg})
			cases = cases[1:]
		}
	}
	return all, nil
}

func (n *Native) runOnce(cases []*Case) ([]NativeResult, string, error) {
	b, err := json.Marshal(cases)
	if err != nil {
		return nil, "", err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, n.bin)
	cmd.Stdin = bytes.NewReader(b)
	var se bytes.Buffer
	cmd.Stderr = &se
	cmd.Stdout = nil
	cmd.Env = append(os.Environ(), "LD_LIBRARY_PATH="+n.dir, "GOMEMLIMIT=4GiB")
	r, w, err := os.Pipe()
	if err != nil {
		return nil, "", err
	}
	cmd.ExtraFiles = []*os.File{w}
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	w.Close()
	var rs []NativeResult
	d := json.NewDecoder(r)
	for {
		var x NativeResult
		if err := d.Decode(&x); err != nil {
			break
		}
		rs = append(rs, x)
	}
	r.Close()
	werr := cmd.Wait()
	msg := ""
	if werr != nil {
		msg = werr.Error() + ": " + tail(se.String(), 1500)
	}
	return rs, msg, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
