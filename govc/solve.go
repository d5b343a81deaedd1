package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var termMu sync.Mutex

type budget struct {
	oblT  time.Duration
	candT time.Duration
}

func (x *Exec) assumFor(n int, alive map[*Term]bool) []*Term {
	var out []*Term
	for _, a := range x.assum[:n] {
		if a.Op == "=>" && a.Args[0].Op == "var" && strings.HasPrefix(a.Args[0].Name, "act!") {
			if !alive[a.Args[0]] {
				continue
			}
			out = append(out, a.Args[1])
			continue
		}
		out = append(out, a)
	}
	return out
}

func (x *Exec) vcAsserts(n int, alive map[*Term]bool, pc, goal *Term, extra []*Term) []*Term {
	as := x.assumFor(n, alive)
	as = append(as, extra...)
	as = append(as, pc, Not(goal))
	return relevant(as, 2)
}

// relevant keeps assumptions connected to the goal through shared symbols.
func relevant(as []*Term, keep int) []*Term {
	n := len(as)
	if n <= keep {
		return as
	}
	syms := make([]map[string]bool, n)
	for i, a := range as {
		syms[i] = symsOf(a)
	}
	in := map[string]bool{}
	used := make([]bool, n)
	var add func(m map[string]bool)
	add = func(m map[string]bool) {
		for s := range m {
			if in[s] {
				continue
			}
			in[s] = true
			if vi := varInfo[s]; vi != nil {
				for _, ax := range vi.Axioms {
					add(symsOf(ax))
				}
			}
		}
	}
	for i := n - keep; i < n; i++ {
		used[i] = true
		add(syms[i])
	}
	for changed := true; changed; {
		changed = false
		for i := 0; i < n-keep; i++ {
			if used[i] {
				continue
			}
			hit := len(syms[i]) == 0
			for s := range syms[i] {
				if in[s] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				add(syms[i])
				changed = true
			}
		}
	}
	var out []*Term
	for i, a := range as {
		if used[i] {
			out = append(out, a)
		}
	}
	return out
}

var symCache = map[int]map[string]bool{}

func symsOf(t *Term) map[string]bool {
	if m, ok := symCache[t.ID]; ok {
		return m
	}
	m := map[string]bool{}
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if t.Op == "var" {
			m[t.Name] = true
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	symCache[t.ID] = m
	return m
}

type job struct {
	asserts []*Term
	timeout time.Duration
	effort  int
	hint    string
	skip    func() bool // asked just before the solver is started
	done    func(SolveResult)
}

// runJobs discharges jobs in parallel.
func runJobs(jobs []job, par int) {
	if par < 1 {
		par = 1
	}
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	for i := range jobs {
		j := jobs[i]
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			if j.skip != nil && j.skip() {
				return
			}
			r := solve(j.asserts, j.timeout, j.effort, j.hint)
			j.done(r)
		}()
	}
	wg.Wait()
}

func (x *Exec) loopByID(id int) *LoopInst {
	for _, l := range x.allLoops {
		if l.id == id {
			return l
		}
	}
	return nil
}

// houdini finds the largest inductive subset of the candidate invariants.
// Loop nests are done in program order: a nest depends on itself and on
// what comes before it only.
// With hints only the invariants they name are tried.
func (x *Exec) houdini(b budget, par int, effort int, h *hints) (alive map[*Term]bool, nAlive int) {
	alive = map[*Term]bool{}
	keys := x.candKeys()
	for _, nest := range x.nests() {
		x.houdiniNest(nest, alive, b, par, effort, h, keys)
	}
	for _, c := range x.cands {
		if c.Alive {
			nAlive++
		}
	}
	return alive, nAlive
}

// nests groups the loops: a loop entered before the last back edge of an
// earlier one belongs to its group.
func (x *Exec) nests() [][]*LoopInst {
	var out [][]*LoopInst
	end := -1
	for _, li := range x.allLoops {
		if len(out) == 0 || li.seqIn > end {
			out = append(out, nil)
		}
		out[len(out)-1] = append(out[len(out)-1], li)
		if li.seqBack > end {
			end = li.seqBack
		}
	}
	return out
}

func (x *Exec) houdiniNest(nest []*LoopInst, alive map[*Term]bool, b budget, par int, effort int, h *hints, keys map[*Cand]string) {
	var cands []*Cand
	loopOf := map[*Cand]*LoopInst{}
	for _, li := range nest {
		for _, c := range li.cands {
			cands = append(cands, c)
			loopOf[c] = li
			c.Alive = h == nil || h.Alive[keys[c]]
			alive[c.Act] = c.Alive
		}
	}
	extraOf := func(c *Cand) []*Term {
		li := loopOf[c]
		var out []*Term
		for _, d := range li.cands {
			if alive[d.Act] {
				out = append(out, d.Assume)
			}
		}
		return out
	}
	// trivial goals first
	type key struct {
		c *Cand
		i int
	}
	triv := map[key]bool{}
	for _, c := range cands {
		for i, vc := range c.VCs {
			if vc.Goal == True {
				triv[key{c, i}] = true
			}
			if vc.Goal == False && i == 0 {
				c.Alive = false
				alive[c.Act] = false
			}
		}
	}
	okWith := map[key]string{} // the query proved
	for round := 0; round < 60; round++ {
		var jobs []job
		failed := map[*Cand]bool{}
		var mu sync.Mutex
		for _, c := range cands {
			c := c
			if !c.Alive {
				continue
			}
			for i, vc := range c.VCs {
				i, vc := i, vc
				if triv[key{c, i}] {
					continue
				}
				var extra []*Term
				if i > 0 {
					extra = extraOf(c)
				}
				as := x.vcAsserts(vc.NAssum, alive, vc.PC, vc.Goal, extra)
				// a proof found before is redone unless its query is the same
				var sb strings.Builder
				for _, a := range as {
					fmt.Fprintf(&sb, "%d,", a.ID)
				}
				sig := sb.String()
				if okWith[key{c, i}] == sig {
					continue
				}
				eff, to := 0, b.candT
				if strings.Contains(c.Desc, ": inv") || strings.Contains(c.Desc, ": elem") && strings.HasSuffix(c.Desc, " all") {
					eff = effort // given by the contract: expected to hold
					if eff > 0 {
						to = b.oblT
					}
				}
				hk := fmt.Sprintf("%s|%d", keys[c], i)
				hs := ""
				if h != nil {
					eff, to, hs = 1, min(b.oblT, 8*time.Second), h.Solver[hk]
				}
				jobs = append(jobs, job{as, to, eff, hs, nil, func(r SolveResult) {
					mu.Lock()
					defer mu.Unlock()
					if debug && r.Dur > time.Second {
						fmt.Fprintf(os.Stderr, "slow candidate %s vc %d: %s %s %v\n", c.Desc, i, r.Status, r.Solver, r.Dur)
					}
					if r.Status != "unsat" {
						if debugInv && strings.Contains(c.Desc, ": inv") {
							fn := fmt.Sprintf("/tmp/govc_cand_%s_%d_%d.smt2", sanitize2(c.Desc), i, round)
							fmt.Fprintf(os.Stderr, "candidate %s vc %d: %s %s (%s)\n", c.Desc, i, r.Status, r.Solver, fn)
							termMu.Lock()
							_ = os.WriteFile(fn, []byte(buildScript(as, true, "")+"(check-sat)\n(get-model)\n"), 0o644)
							termMu.Unlock()
						}
						failed[c] = true
					} else {
						okWith[key{c, i}] = sig
						x.candHint[hk] = r.hint()
					}
				}})
			}
		}
		t0 := time.Now()
		runJobs(jobs, par)
		if debug {
			fmt.Fprintf(os.Stderr, "houdini %s round %d: %d jobs, %d failed, %v\n", nest[0].name, round, len(jobs), len(failed), time.Since(t0))
		}
		if len(failed) == 0 {
			return
		}
		for c := range failed {
			c.Alive = false
			alive[c.Act] = false
		}
	}
	for _, c := range cands { // no fixpoint: keep nothing
		c.Alive = false
		alive[c.Act] = false
	}
}

var debug bool

// discharge proves the obligations left. After maxFail failures the rest is
// given up: the contract fails anyway.
func (x *Exec) discharge(b budget, par int, alive map[*Term]bool, h *hints, maxFail int) {
	var jobs []job
	var failures atomic.Int64
	keys := x.oblKeys()
	for _, o := range x.obls {
		o := o
		if o.OK {
			continue
		}
		if o.Goal == True {
			o.OK = true
			o.Res = SolveResult{Status: "unsat", Solver: "simplify"}
			continue
		}
		o.Res = SolveResult{Status: "not tried after other failures"}
		as := x.vcAsserts(o.NAssum, alive, o.PC, o.Goal, nil)
		eff := 1
		to := b.oblT
		if o.Kind == "reach" {
			eff = 0
			to = 3 * time.Second
		}
		hs := ""
		if h != nil {
			hs = h.Solver[keys[o]]
		}
		jobs = append(jobs, job{as, to, eff, hs, func() bool { return failures.Load() >= int64(maxFail) }, func(r SolveResult) {
			o.Res = r
			defer func() {
				if !o.OK {
					failures.Add(1)
				}
			}()
			if o.Kind == "reach" {
				o.OK = r.Status != "unsat"
			} else {
				o.OK = r.Status == "unsat"
			}
		}})
	}
	runJobs(jobs, par)
}

func (x *Exec) allOK() bool {
	for _, o := range x.obls {
		if !o.OK {
			return false
		}
	}
	return true
}

func notesOf(x *Exec) []string {
	var out []string
	for n := range x.notes {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// verify runs the whole pipeline for one contract.
func verify(p *Prog, c *Contract, b budget, par int) (rep *FnReport) {
	start := time.Now()
	rep = &FnReport{Contract: c.Name, Function: p.short(c.Target), Pos: p.pos(c.Target.Pos()), Props: c.Props}
	x := NewExec(p, c.TName)
	s0, n0 := solverTime, solverCalls
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					rep.Error = "outside the verifier's reach: " + u.msg
					return
				}
				if debug {
					panic(r)
				}
				rep.Error = fmt.Sprintf("internal error: %v", r)
			}
		}()
		x.build(c)
	}()
	rep.Notes = notesOf(x)
	rep.Uses = sortedKeys(x.uses)
	if x.top != nil {
		rep.Props = x.top.props
		for _, e := range x.top.ensures {
			if e.define {
				rep.Defines = append(rep.Defines, e.name)
			}
		}
	}
	if rep.Error == "" {
		t1 := time.Now()
		x.candHint = map[string]string{}
		var alive map[*Term]bool
		n := 0
		h := loadHints(c.Name)
		if h != nil {
			alive, n = x.houdini(b, par, 0, h)
			x.discharge(b, par, alive, h, 1)
		}
		if h == nil || !x.allOK() && len(x.cands) > 0 {
			alive, n = x.houdini(b, par, 0, nil)
		}
		if debug {
			fmt.Fprintf(os.Stderr, "%s: build %v, houdini %v, %d/%d invariants, %d obligations\n", c.Name, t1.Sub(start), time.Since(t1), n, len(x.cands), len(x.obls))
			if debugInv {
				for _, cd := range x.cands {
					if cd.Alive {
						fmt.Fprintf(os.Stderr, "   inv %s\n", cd.Desc)
					}
				}
			}
		}
		if h == nil || !x.allOK() && len(x.cands) > 0 {
			x.discharge(b, par, alive, nil, 1)
		}
		if !noRetry && !x.allOK() && len(x.cands) > 0 {
			// once more with every solver on the given invariants
			alive, n = x.houdini(b, par, 1, nil)
			x.discharge(b, par, alive, nil, 3)
		}
		if x.allOK() {
			x.saveHints(c.Name, x.candHint)
		}
		rep.Invs, rep.InvTried, rep.Loops = n, len(x.cands), len(x.allLoops)
		for _, cd := range x.cands {
			if cd.Alive {
				rep.InvNames = append(rep.InvNames, cd.Desc)
			}
		}
		for _, o := range x.obls {
			rep.Obls = append(rep.Obls, OblRep{Kind: o.Kind, Name: o.Name, Pos: o.Pos, Status: o.Res.Status, Solver: o.Res.Solver, OK: o.OK, Millis: o.Res.Dur.Milliseconds()})
			if !o.OK && debug {
				as := x.vcAsserts(o.NAssum, alive, o.PC, o.Goal, nil)
				fn := fmt.Sprintf("/tmp/govc_%s_%s.smt2", sanitize2(c.Name), sanitize2(o.Name))
				_ = os.WriteFile(fn, []byte(buildScript(as, !usesStrOps(as), "(set-option :produce-models true)\n")+"(check-sat)\n(get-model)\n"), 0o644)
			}
		}
	}
	rep.Secs = time.Since(start).Seconds()
	rep.SolverS = float64(solverTime-s0) / 1e9
	rep.Calls = int(solverCalls - n0)
	return rep
}

var debugInv, noRetry bool

func sanitize2(s string) string {
	s = sanitize(s)
	return strings.NewReplacer("/", "_", "*", "_").Replace(s)
}
