package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"
)

// targetExpr is the Go expression of the function a contract is about.
func (p *Prog) targetExpr(c *Contract) string {
	f := c.Target
	q := func(o *types.Package) string {
		if o == p.tpkg {
			return ""
		}
		return o.Name()
	}
	recv := f.Signature.Recv()
	if recv == nil {
		if o := f.Origin(); o != nil {
			var as []string
			for _, a := range f.TypeArgs() {
				as = append(as, types.TypeString(a, q))
			}
			return o.Name() + "[" + strings.Join(as, ", ") + "]"
		}
		return f.Name()
	}
	return "(" + types.TypeString(recv.Type(), q) + ")." + f.Name()
}

// replayContracts runs the contracts as oracles on generated inputs of the
// real code and returns, per contract, an input that violates it.
func replayContracts(p *Prog, cs []string, seed int, secs float64) map[string]string {
	out := map[string]string{}
	tmp, err := os.MkdirTemp("", "govc-replay")
	if err != nil {
		return out
	}
	defer os.RemoveAll(tmp)
	byName := map[string]*Contract{}
	for _, c := range p.list {
		byName[c.Name] = c
	}
	var reg strings.Builder
	reg.WriteString("package raml\n\nvar vReps = []vRep{\n")
	var todo []string
	for _, n := range cs {
		c := byName[n]
		if c == nil || c.Target == nil || c.Iface {
			continue
		}
		fmt.Fprintf(&reg, "\t{%q, %s, %s},\n", n, n, p.targetExpr(c))
		todo = append(todo, n)
	}
	reg.WriteString("}\n")
	if len(todo) == 0 {
		return out
	}
	if len(todo) > 24 {
		todo = todo[:24]
	}
	repl := map[string]string{}
	put := func(name, content string) {
		f := filepath.Join(tmp, name)
		_ = os.WriteFile(f, []byte(content), 0o644)
		repl[filepath.Join(repoDir(), name)] = f
	}
	for _, fn := range p.ctrFiles {
		put(filepath.Base(fn), string(p.overlay[fn]))
	}
	drv, err := os.ReadFile(filepath.Join(verifDir(), "replay", "driver.go"))
	if err != nil {
		return out
	}
	put("zz_verif_replay_test.go", string(drv))
	put("zz_verif_replay_reg_test.go", reg.String())
	// the package's own tests are left out
	own, _ := filepath.Glob(filepath.Join(repoDir(), "*_test.go"))
	for _, o := range own {
		repl[o] = ""
	}
	ov, _ := json.Marshal(map[string]any{"Replace": repl})
	ovf := filepath.Join(tmp, "overlay.json")
	_ = os.WriteFile(ovf, ov, 0o644)
	bin := filepath.Join(tmp, "replay.test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, ".")
	cmd.Dir = repoDir()
	cmd.Env = goEnv()
	if b, err := cmd.CombinedOutput(); err != nil {
		if os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "replay build: %s\n", b)
		}
		return out
	}
	if v := os.Getenv("GOVC_REPLAY_SECS"); v != "" {
		fmt.Sscan(v, &secs)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for _, n := range todo {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs*float64(time.Second))+20*time.Second)
			defer cancel()
			wd := filepath.Join(tmp, "w", n)
			_ = os.MkdirAll(wd, 0o755)
			c := exec.CommandContext(ctx, bin, "-test.run", "^TestVReplay$", "-test.v")
			c.Dir = wd
			c.Env = append(os.Environ(), "VREPLAY="+n, fmt.Sprintf("VREPLAY_SECS=%g", secs), fmt.Sprintf("VERIF_SEED=%d", seed), "GOMEMLIMIT=2GiB", "GOMAXPROCS=2")
			var buf bytes.Buffer
			c.Stdout = &buf
			c.Stderr = &buf
			_ = c.Run()
			s := buf.String()
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "%s\n", strings.TrimSpace(strings.ReplaceAll(firstLines(s, 12), "=== RUN   TestVReplay\n", "")))
			}
			if i := strings.Index(s, "VREPLAY-FOUND\n"); i >= 0 {
				if j := strings.Index(s[i:], "\nVREPLAY-END"); j > 0 {
					mu.Lock()
					out[n] = s[i+len("VREPLAY-FOUND\n") : i+j]
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	return out
}
