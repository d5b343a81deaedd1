package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- per-contract reset

type baseState struct {
	termTab   map[string]*Term
	termCount int
	tagTab    map[string]int
	tagTypes  int
	varInfo   map[string]*VarInfo
	freshN    int
	ufDecls   map[string]string
}

func snapshotGlobals() *baseState {
	b := &baseState{termTab: map[string]*Term{}, termCount: termCount, tagTab: map[string]int{}, tagTypes: len(tagTypes), varInfo: map[string]*VarInfo{}, freshN: freshN, ufDecls: map[string]string{}}
	for k, v := range termTab {
		b.termTab[k] = v
	}
	for k, v := range tagTab {
		b.tagTab[k] = v
	}
	for k, v := range varInfo {
		c := *v
		c.Axioms = append([]*Term{}, v.Axioms...)
		b.varInfo[k] = &c
	}
	for k, v := range ufDecls {
		b.ufDecls[k] = v
	}
	return b
}

// restore makes the verification of a contract independent of earlier ones.
func (b *baseState) restore(p *Prog) {
	termTab = map[string]*Term{}
	for k, v := range b.termTab {
		termTab[k] = v
	}
	termCount = b.termCount
	tagTab = map[string]int{}
	for k, v := range b.tagTab {
		tagTab[k] = v
	}
	tagTypes = tagTypes[:b.tagTypes:b.tagTypes]
	varInfo = map[string]*VarInfo{}
	for k, v := range b.varInfo {
		c := *v
		c.Axioms = append([]*Term{}, v.Axioms...)
		varInfo[k] = &c
	}
	freshN = b.freshN
	ufDecls = map[string]string{}
	for k, v := range b.ufDecls {
		ufDecls[k] = v
	}
	keyTab = map[string]*keyMeta{}
	groupTab = map[string][]string{}
	epochN = 0
	cellN = 0
	allocVars = map[int]bool{}
	allocLB = map[int][]*Term{}
	symCache = map[int]map[string]bool{}
	gmapTab = map[*Term][]gent{}
	leafCache = map[string][]Leaf{}
	p.impl = map[string][]types.Type{}
	cloIDs = map[*ssa.Function]int{}
}

// ---------------------------------------------------------------- worker

func workerMain() {
	p, err := Load()
	out := bufio.NewWriter(os.Stdout)
	if err != nil {
		fmt.Fprintf(out, "ERR %s\n", strings.ReplaceAll(err.Error(), "\n", " "))
		out.Flush()
		return
	}
	base := snapshotGlobals()
	fmt.Fprintln(out, "READY")
	out.Flush()
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<24)
	byName := map[string]*Contract{}
	for _, c := range p.list {
		byName[c.Name] = c
	}
	for in.Scan() {
		f := strings.Fields(in.Text())
		if len(f) != 4 {
			continue
		}
		c := byName[f[0]]
		ot, _ := time.ParseDuration(f[1])
		ct, _ := time.ParseDuration(f[2])
		par, _ := strconv.Atoi(f[3])
		base.restore(p)
		r := verify(p, c, budget{ot, ct}, par)
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startWorker() (*worker, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(self, "worker")
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	o, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	w := &worker{cmd, in, bufio.NewReaderSize(o, 1<<20)}
	l, err := w.out.ReadString('\n')
	if err != nil {
		return nil, err
	}
	if !strings.HasPrefix(l, "READY") {
		return nil, fmt.Errorf("%s", strings.TrimSpace(strings.TrimPrefix(l, "ERR")))
	}
	return w, nil
}

// runContracts verifies the named contracts on a pool of worker processes.
func runContracts(names []string, b budget, nw, par int, deadline time.Time) (map[string]*FnReport, error) {
	res := map[string]*FnReport{}
	if len(names) == 0 {
		return res, nil
	}
	if nw > len(names) {
		nw = len(names)
	}
	ch := make(chan string, len(names))
	for _, n := range names {
		ch <- n
	}
	close(ch)
	var mu sync.Mutex
	var firstErr error
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			var err error
			for n := range ch {
				var r *FnReport
				for try := 0; try < 2 && r == nil; try++ {
					if time.Now().After(deadline) {
						r = &FnReport{Contract: n, Error: "not decided within the time of the check"}
						break
					}
					if w == nil {
						if w, err = startWorker(); err != nil {
							mu.Lock()
							firstErr = err
							mu.Unlock()
							return
						}
					}
					fmt.Fprintf(w.in, "%s %s %s %d\n", n, b.oblT, b.candT, par)
					proc := w.cmd.Process
					late := time.AfterFunc(time.Until(deadline), func() { _ = proc.Kill() })
					l, err := w.out.ReadBytes('\n')
					late.Stop()
					if err == nil {
						var q FnReport
						if json.Unmarshal(l, &q) == nil {
							r = &q
						}
					}
					if r == nil {
						_ = w.cmd.Process.Kill()
						_ = w.cmd.Wait()
						w = nil
					}
				}
				if r == nil {
					r = &FnReport{Contract: n, Error: "verifier process died"}
				}
				if os.Getenv("GOVC_PROGRESS") != "" {
					fmt.Fprintf(os.Stderr, "%s failed=%v %.1fs %s %s\n", n, r.failed(), r.Secs, b.oblT, r.Error)
					for _, o := range r.Obls {
						if !o.OK {
							fmt.Fprintf(os.Stderr, "   %s %s %s\n", o.Kind, o.Name, o.Pos)
						}
					}
				}
				mu.Lock()
				res[n] = r
				mu.Unlock()
			}
			if w != nil {
				_ = w.in.Close()
				_ = w.cmd.Wait()
			}
		}()
	}
	wg.Wait()
	if firstErr != nil && len(res) < len(names) {
		return res, firstErr
	}
	return res, nil
}

func (r *FnReport) failed() bool {
	if r.Error != "" {
		return true
	}
	for _, o := range r.Obls {
		if !o.OK {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- findings

type finding struct {
	prop, contract, obl, what string
}

var findRx = regexp.MustCompile(`^finding: property=(\S+) contract=(\S+) obligation="([^"]*)" (.*)$`)

func loadFindings() ([]finding, error) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		if m := findRx.FindStringSubmatch(l); m != nil {
			out = append(out, finding{m[1], m[2], m[3], m[4]})
		}
	}
	return out, nil
}

// ---------------------------------------------------------------- check

func checkMain(prop, tier string) int {
	start := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	p, err := Load()
	if err != nil {
		fmt.Fprintln(os.Stderr, "check cannot read the code:", err)
		return 2
	}
	var names []string
	all := prop == "C19"
	for _, c := range p.list {
		if all || contains(c.Props, prop) {
			names = append(names, c.Name)
		}
	}
	// long ones first
	cost := loadCosts()
	sort.SliceStable(names, func(i, j int) bool { return cost[names[i]] > cost[names[j]] })
	b := budget{10 * time.Second, time.Second}
	if tier == "thorough" {
		b = budget{90 * time.Second, 15 * time.Second}
	}
	t1, t2 := 240*time.Second, 420*time.Second // a check has to answer within 900 s
	if tier == "thorough" {
		t1, t2 = 3*time.Hour, 6*time.Hour
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	byName := map[string]*Contract{}
	for _, c := range p.list {
		byName[c.Name] = c
	}
	res := map[string]*FnReport{}
	todo := names
	for len(todo) > 0 {
		r, err := runContracts(todo, b, nw, 3, start.Add(t1))
		if err != nil {
			fmt.Fprintln(os.Stderr, "check failed:", err)
			return 2
		}
		todo = nil
		for _, n := range sortedKeys(r) {
			res[n] = r[n]
		}
		// contracts of helpers that belong to no property are verified along with their users
		for _, n := range sortedKeys(r) {
			for _, u := range r[n].Uses {
				if c := byName[u]; c != nil && res[u] == nil && !contains(todo, u) && len(c.Props) == 0 && !c.Iface && c.Target != nil {
					todo = append(todo, u)
				}
			}
		}
		names = append(names, todo...)
	}
	// a failure under load is tried again with more time and less parallelism
	var again []string
	for _, n := range names {
		if r := res[n]; r != nil && r.failed() && !strings.HasPrefix(r.Error, "outside") && relevantFail(r, prop) {
			again = append(again, n)
		}
	}
	inputs := map[string]string{}
	if len(again) > 0 {
		inputs = replayContracts(p, again, seed, 8)
		var rest []string
		for _, n := range again {
			if inputs[n] == "" {
				rest = append(rest, n)
			}
		}
		again = rest
	}
	if len(again) > 0 && len(again) <= 12 {
		b2 := budget{b.oblT + 10*time.Second, 3 * b.candT}
		res2, err := runContracts(again, b2, 2, 4, start.Add(t2))
		if err == nil {
			for n, r := range res2 {
				if r.Error == "" || res[n].Error != "" {
					res[n] = r
				}
			}
		}
	}
	finds, err := loadFindings()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	type viol struct {
		r *FnReport
		o OblRep
	}
	var viols []viol
	known := map[int]bool{}
	nObl, nOK, nInv := 0, 0, 0
	backs := map[string]int{}
	kinds := map[string]int{}
	notes := map[string]bool{}
	var fns []map[string]any
	solver := 0.0
	calls := 0
	for _, n := range names {
		r := res[n]
		if r == nil {
			continue
		}
		solver += r.SolverS
		calls += r.Calls
		nInv += r.Invs
		fo, fk := 0, 0
		for _, nt := range r.Notes {
			notes[nt] = true
		}
		for _, d := range r.Defines {
			notes["definition used as an assumption: "+d] = true
		}
		if r.Error != "" {
			o := OblRep{Kind: "translation", Name: "translation", Status: r.Error}
			nObl++
			if fi := match(finds, prop, n, "translation"); fi >= 0 {
				known[fi] = true
			} else {
				viols = append(viols, viol{r, o})
			}
			fns = append(fns, map[string]any{"contract": n, "function": r.Function, "error": r.Error})
			continue
		}
		for _, o := range r.Obls {
			if all && o.Kind != "nopanic" && o.Kind != "requires" {
				continue
			}
			nObl++
			fo++
			kinds[o.Kind]++
			if o.OK {
				nOK++
				fk++
				backs[o.Solver]++
				continue
			}
			if fi := match(finds, prop, n, o.Kind+" "+o.Name); fi >= 0 {
				known[fi] = true
				continue
			}
			viols = append(viols, viol{r, o})
		}
		fns = append(fns, map[string]any{"contract": n, "function": r.Function, "at": r.Pos, "obligations": fo, "discharged": fk, "loops": r.Loops, "invariants_proved": r.Invs, "seconds": round2(r.Secs)})
	}
	var dropped []string
	for _, n := range sortedKeys(p.dropped) {
		dropped = append(dropped, n+": "+p.dropped[n])
	}
	code := 0
	for _, i := range sortInts(known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, finds[i].contract, finds[i].what)
	}
	if nObl == 0 {
		viols = append(viols, viol{&FnReport{Contract: "(none)"}, OblRep{Kind: "coverage", Name: "no obligations generated", Status: "every contract of this property was dropped: " + strings.Join(dropped, "; ")}})
	}
	replayDir := filepath.Join(verifDir(), "replays")
	if len(viols) > 0 {
		code = 1
		_ = os.MkdirAll(replayDir, 0o755)
		var cs []string
		seenC := map[string]bool{}
		for _, v := range viols {
			if !seenC[v.r.Contract] {
				seenC[v.r.Contract] = true
				cs = append(cs, v.r.Contract)
			}
		}
		if len(inputs) == 0 {
			secs := 20.0
			if tier == "thorough" {
				secs = 90
			}
			inputs = replayContracts(p, cs, seed+7, secs)
		}
		file := filepath.Join(replayDir, prop+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: %d failed obligations\n", prop, len(viols))
		for _, v := range viols {
			fmt.Fprintf(&sb, "\nobligation: %s %q of %s (%s) at %s\nverifier: %s (%s)\n", v.o.Kind, v.o.Name, v.r.Function, v.r.Contract, v.o.Pos, v.o.Status, v.o.Solver)
		}
		found := false
		for _, c := range cs {
			if s := inputs[c]; s != "" {
				found = true
				fmt.Fprintf(&sb, "\nfailing input for %s (replayed on the real code):\n%s\n", c, s)
			}
		}
		_ = os.WriteFile(file, []byte(sb.String()), 0o644)
		for i, v := range viols {
			if i < 12 {
				fmt.Printf("failed obligation: %s %q of %s at %s: %s\n", v.o.Kind, v.o.Name, v.r.Contract, v.o.Pos, firstLines(v.o.Status, 1))
			}
		}
		line := fmt.Sprintf("VIOLATION property=%s replay=%s", prop, file)
		if !found {
			line += " no-failing-input-found"
		}
		fmt.Println(line)
	}
	var as []string
	for n := range notes {
		as = append(as, n)
	}
	sort.Strings(as)
	as = append(as, "partial correctness: termination and stack or memory exhaustion are not proved",
		"the Go type checker and SSA construction (golang.org/x/tools/go/ssa), this condition generator and the SMT solvers are trusted")
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "proof", "wall_s": round2(time.Since(start).Seconds()), "violations": len(viols),
		"assumptions": as,
		"coverage": map[string]any{
			"obligations": nObl, "discharged": nOK, "checker_cmd": fmt.Sprintf("bin/govc check -property %s -tier %s", prop, tier),
			"trusted_base":             []string{"govc (this repository)", "golang.org/x/tools/go/ssa v0.52.0", "z3 4.8.12", "z3-new", "cvc5 1.1.2"},
			"functions_under_contract": fns, "obligation_kinds": kinds, "back_ends": backs, "solver_seconds": round2(solver), "solver_calls": calls,
			"loop_invariants_proved": nInv, "contracts_without_target": dropped, "known_findings": len(known),
		},
	}
	evb, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", prop+".json"), evb, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d functions under contract, %d/%d obligations discharged, %.1fs\n", prop, len(fns), nOK, nObl, time.Since(start).Seconds())
	return code
}

func relevantFail(r *FnReport, prop string) bool {
	if prop != "C19" || r.Error != "" {
		return true
	}
	for _, o := range r.Obls {
		if !o.OK && (o.Kind == "nopanic" || o.Kind == "requires") {
			return true
		}
	}
	return false
}

func match(fs []finding, prop, contract, obl string) int {
	for i, f := range fs {
		if (f.prop == prop || prop == "C19") && f.contract == contract && f.obl == obl {
			return i
		}
	}
	return -1
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// loadCosts: recorded seconds per contract, used only for scheduling.
func loadCosts() map[string]float64 {
	out := map[string]float64{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "contracts", "costs.json"))
	if err == nil {
		_ = json.Unmarshal(b, &out)
	}
	return out
}
