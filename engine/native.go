package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Native builds and runs the replay binary.
type Native struct {
	st    Setup
	tmp   string
	bin   string
	tier  int
	err   error
	built chan struct{}
	Runs  int64
	mu    sync.Mutex
	seq   int
	stopf context.CancelFunc
}

const runTmpl = `package run

import (
	"io"
	"log"
	"testing"
	"testing/synctest"

	"%s"
%s)

var fns = map[string]func(){
%s}

func TestVH(t *testing.T) {
	log.SetOutput(io.Discard)
	f := fns[vsym.Load()]
	synctest.Test(t, func(t *testing.T) {
		f()
		vsym.Finish("ok", "")
	})
}
`

func startNative(st Setup, ov map[string][]byte, fns []HarnessFn, tier int) *Native {
	n := &Native{st: st, tier: tier, built: make(chan struct{})}
	tmp, err := ioutil.TempDir("", "symgo")
	if err != nil {
		n.err = err
		close(n.built)
		return n
	}
	n.tmp = tmp
	imports, table := "", ""
	seen := map[string]bool{}
	for _, f := range fns {
		alias := "p_" + harnessDir(f.Dir)
		if !seen[f.Dir] {
			seen[f.Dir] = true
			p := modPath
			if f.Dir != "" {
				p += "/" + f.Dir
			}
			imports += fmt.Sprintf("\t%s %q\n", alias, p)
		}
		table += fmt.Sprintf("\t%q: %s.%s,\n", f.Name, alias, f.Name)
	}
	all := map[string][]byte{}
	for k, v := range ov {
		all[k] = v
	}
	all[filepath.Join(st.Repo, "zzv/run/run_test.go")] = []byte(fmt.Sprintf(runTmpl, vsymPath, imports, table))
	repl := map[string]string{}
	i := 0
	for k, v := range all {
		f := filepath.Join(tmp, fmt.Sprintf("f%d.go", i))
		i++
		if err := ioutil.WriteFile(f, v, 0644); err != nil {
			n.err = err
			close(n.built)
			return n
		}
		repl[k] = f
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ovf := filepath.Join(tmp, "overlay.json")
	ioutil.WriteFile(ovf, b, 0644)
	n.bin = filepath.Join(tmp, "run.test")
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
	n.stopf = cancel
	go func() {
		defer close(n.built)
		cmd := exec.CommandContext(ctx, filepath.Join(goRoot, "bin/go"), "test", "-c", "-vet=off", "-overlay", ovf, "-o", n.bin, "./zzv/run")
		cmd.Dir = st.Repo
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		if err != nil {
			n.err = fmt.Errorf("building the replay binary: %v\n%s", err, out)
		}
	}()
	return n
}

func (n *Native) close() {
	if n.stopf != nil {
		n.stopf()
	}
	if n.tmp != "" {
		<-n.built
		os.RemoveAll(n.tmp)
	}
}

// NatRes is the outcome of one native run.
type NatRes struct {
	Kind  string   `json:"kind"`
	Label string   `json:"label"`
	Outs  []OutEv  `json:"outs"`
	Reach []string `json:"reach"`
	Log   string   `json:"-"`
}

type replayInput struct {
	Harness string            `json:"harness"`
	Tier    int               `json:"tier"`
	Inputs  map[string]uint64 `json:"inputs"`
	Delays  map[string]int64  `json:"delays,omitempty"`
}

func (n *Native) run(h string, inputs map[string]uint64, delays map[string]int64) (*NatRes, error) {
	<-n.built
	if n.err != nil {
		return nil, n.err
	}
	n.mu.Lock()
	n.seq++
	id := n.seq
	n.Runs++
	n.mu.Unlock()
	inf := filepath.Join(n.tmp, fmt.Sprintf("in%d.json", id))
	outf := filepath.Join(n.tmp, fmt.Sprintf("out%d.json", id))
	b, _ := json.Marshal(replayInput{h, n.tier, inputs, delays})
	if err := ioutil.WriteFile(inf, b, 0644); err != nil {
		return nil, err
	}
	defer os.Remove(inf)
	defer os.Remove(outf)
	cmd := exec.Command(n.bin, "-test.run", "TestVH$", "-test.timeout", "0")
	cmd.Dir = n.tmp
	cmd.Env = append(os.Environ(), "VSYM_IN="+inf, "VSYM_OUT="+outf, "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOMEMLIMIT=2GiB")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &limitW{b: &out, n: 1 << 18}, &limitW{b: &out, n: 1 << 18}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	timedOut := false
	select {
	case <-done:
	case <-time.After(15 * time.Second):
		timedOut = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
	}
	if rb, err := ioutil.ReadFile(outf); err == nil && len(rb) > 0 {
		r := &NatRes{}
		if json.Unmarshal(rb, r) == nil {
			return r, nil
		}
	}
	txt := out.String()
	r := &NatRes{Log: txt}
	switch {
	case timedOut:
		r.Kind = "steps"
	case strings.Contains(txt, "deadlock: "), strings.Contains(txt, "all goroutines are asleep"):
		r.Kind = "deadlock"
	case strings.Contains(txt, "stack overflow"), strings.Contains(txt, "goroutine stack exceeds"):
		r.Kind = "overflow"
	case strings.Contains(txt, "panic: "), strings.Contains(txt, "fatal error: "):
		r.Kind = "panic"
	default:
		r.Kind = "exit"
	}
	return r, nil
}

type limitW struct {
	b *bytes.Buffer
	n int
}

func (l *limitW) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func sameOuts(a, b []OutEv) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].uf {
			continue
		}
		if a[i].Label != b[i].Label || len(a[i].Vals) != len(b[i].Vals) {
			return false
		}
		for j := range a[i].Vals {
			if a[i].Vals[j] != "?" && a[i].Vals[j] != b[i].Vals[j] {
				return false
			}
		}
	}
	return true
}
