package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func prelude(abs bool) string {
	var sb strings.Builder
	if abs {
		sb.WriteString("(declare-sort Str 0)\n")
	} else {
		sb.WriteString("(define-sort Str () String)\n")
	}
	sb.WriteString(`(declare-datatypes ((Flt 0)) (((FNaN) (FPInf) (FNInf) (FFin (fr Real)))))
(declare-datatypes ((Val 0)) (((VNil) (VB (vbt Int) (vb Bool)) (VI (vit Int) (vi Int)) (VF (vft Int) (vf Flt)) (VS (vst Int) (vs Str)) (VR (vrt Int) (vr Int)) (VSl (vslt Int) (vslr Int) (vslo Int) (vsll Int) (vslc Int)))))
(define-fun f_lt ((a Flt) (b Flt)) Bool (and (not (= a FNaN)) (not (= b FNaN)) (or (and (= a FNInf) (not (= b FNInf))) (and (= b FPInf) (not (= a FPInf))) (and ((_ is FFin) a) ((_ is FFin) b) (< (fr a) (fr b))))))
(define-fun f_eq ((a Flt) (b Flt)) Bool (and (= a b) (not (= a FNaN))))
(define-fun f_le ((a Flt) (b Flt)) Bool (or (f_lt a b) (f_eq a b)))
(declare-fun f_rnd (Real) Real)
(define-fun r_trunc ((r Real)) Int (ite (>= r 0.0) (to_int r) (- (to_int (- r)))))
(define-fun i2f ((x Int)) Flt (FFin (ite (and (<= (- 9007199254740992) x) (<= x 9007199254740992)) (to_real x) (f_rnd (to_real x)))))
(define-fun f_trunc ((f Flt)) Flt (ite ((_ is FFin) f) (FFin (to_real (r_trunc (fr f)))) f))
(define-fun f_neg ((f Flt)) Flt (ite (= f FNaN) FNaN (ite (= f FPInf) FNInf (ite (= f FNInf) FPInf (FFin (- (fr f)))))))
(declare-fun f2i_u (Flt Int) Int)
(define-fun f2i ((f Flt) (lo Int) (hi Int)) Int (ite (and ((_ is FFin) f) (<= lo (r_trunc (fr f))) (<= (r_trunc (fr f)) hi)) (r_trunc (fr f)) (ite (and (<= lo (f2i_u f lo)) (<= (f2i_u f lo) hi)) (f2i_u f lo) lo)))
(declare-fun f_arith (Int Flt Flt) Flt)
`)
	// interface equality (comparable values)
	sb.WriteString(`(define-fun ifeq ((a Val) (b Val)) Bool (ite (and ((_ is VF) a) ((_ is VF) b)) (and (= (vft a) (vft b)) (f_eq (vf a) (vf b))) (= a b)))
`)
	// wfVal
	sb.WriteString("(define-fun wfVal ((v Val) (a Int)) Bool (and (=> ((_ is VR) v) (and (<= 0 (vr v)) (< (vr v) a))) (=> ((_ is VSl) v) (and (<= 0 (vslr v)) (< (vslr v) a) (= (vslo v) 0) (<= 0 (vsll v)) (<= (vsll v) (vslc v)) (=> (= (vslr v) 0) (= (vslc v) 0))))")
	sb.WriteString(" (=> ((_ is VI) v) (and")
	n := 0
	for _, t := range tagTypes {
		lo, hi := intRange(t)
		if lo == nil {
			continue
		}
		n++
		p := &printer{}
		fmt.Fprintf(&sb, " (=> (= (vit v) %d) (and (<= %s (vi v)) (<= (vi v) %s)))", tagID(t), p.expr(IntB(lo)), p.expr(IntB(hi)))
	}
	sb.WriteString(" true))")
	sb.WriteString("))\n")
	if abs {
		sb.WriteString(`(declare-fun s_concat (Str Str) Str)
(declare-fun s_len (Str) Int)
(assert (forall ((s Str)) (! (<= 0 (s_len s)) :pattern ((s_len s)))))
(declare-fun s_at (Str Int) Int)
(declare-fun s_sub (Str Int Int) Str)
(declare-fun s_lt (Str Str) Bool)
(declare-fun s_prefix (Str Str) Bool)
(declare-fun s_suffix (Str Str) Bool)
(declare-fun s_contains (Str Str) Bool)
(declare-fun s_index (Str Str) Int)
(declare-fun s_ofcode (Int) Str)
`)
	} else {
		sb.WriteString(`(define-fun s_concat ((a Str) (b Str)) Str (str.++ a b))
(define-fun s_len ((a Str)) Int (str.len a))
(define-fun s_at ((a Str) (i Int)) Int (str.to_code (str.at a i)))
(define-fun s_sub ((a Str) (i Int) (j Int)) Str (str.substr a i (- j i)))
(define-fun s_lt ((a Str) (b Str)) Bool (str.< a b))
(define-fun s_prefix ((p Str) (a Str)) Bool (str.prefixof p a))
(define-fun s_suffix ((p Str) (a Str)) Bool (str.suffixof p a))
(define-fun s_contains ((a Str) (b Str)) Bool (str.contains a b))
(define-fun s_index ((a Str) (b Str)) Int (str.indexof a b 0))
(define-fun s_ofcode ((c Int)) Str (str.from_code c))
`)
	}
	return sb.String()
}

// usesStrTheory reports whether any string operation beyond equality occurs.
func buildScript(asserts []*Term, abs bool, extra string) string {
	vars := map[string]*Term{}
	ufs := map[string]bool{}
	strs := map[string]bool{}
	seen := map[int]bool{}
	all := append([]*Term{}, asserts...)
	// transitive axioms
	done := map[string]bool{}
	pending := all
	var axs []*Term
	for len(pending) > 0 {
		for _, t := range pending {
			collectVars(t, seen, vars, ufs, strs)
		}
		pending = nil
		for _, n := range sortedKeys(vars) {
			if !done[n] {
				done[n] = true
				for _, a := range varInfo[n].Axioms {
					axs = append(axs, a)
					pending = append(pending, a)
				}
			}
		}
	}
	all = append(axs, asserts...)
	p := &printer{names: map[int]string{}, absStr: abs}
	var sb strings.Builder
	sb.WriteString("(set-option :print-success false)\n")
	sb.WriteString(extra)
	sb.WriteString(prelude(abs))
	for _, n := range sortedKeys(ufs) {
		if d, ok := ufDecls[n]; ok {
			fmt.Fprintf(&sb, "(declare-fun %s %s)\n", smtSym(n), d)
		}
	}
	for _, n := range sortedKeys(vars) {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", smtSym(n), vars[n].Sort)
	}
	if abs && len(strs) > 0 {
		ss := sortedKeys(strs)
		sb2 := ""
		for _, s := range ss {
			sym := smtSym("str:" + hexStr(s))
			fmt.Fprintf(&sb, "(declare-const %s Str)\n", sym)
			fmt.Fprintf(&sb, "(assert (= (s_len %s) %d))\n", sym, len(s))
			sb2 += " " + sym
		}
		if len(ss) > 1 {
			sb.WriteString("(assert (distinct" + sb2 + "))\n")
		}
		if !strs[""] {
		} else {
			fmt.Fprintf(&sb, "(assert (forall ((s Str)) (! (=> (= (s_len s) 0) (= s %s)) :pattern ((s_len s)))))\n", smtSym("str:"))
		}
	}
	// shared definitions for closed subterms
	cnt := map[int]int{}
	size := map[int]int{}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		cnt[t.ID]++
		if cnt[t.ID] > 1 {
			return
		}
		sz := 1
		for _, a := range t.Args {
			visit(a)
			sz += size[a.ID]
		}
		for _, pt := range t.Pats {
			for _, x := range pt {
				visit(x)
			}
		}
		if sz > 1000000 {
			sz = 1000000
		}
		size[t.ID] = sz
		order = append(order, t)
	}
	for _, a := range all {
		visit(a)
	}
	for _, t := range order {
		if cnt[t.ID] > 1 && t.closed() && len(t.Args) > 0 && size[t.ID] > 3 {
			s := p.raw(t)
			name := fmt.Sprintf("d!%d", t.ID)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", name, t.Sort, s)
			p.names[t.ID] = name
		}
	}
	for _, a := range all {
		fmt.Fprintf(&sb, "(assert %s)\n", p.expr(a))
	}
	return sb.String()
}

type SolveResult struct {
	Status string // unsat, sat, unknown, error
	Solver string
	Dur    time.Duration
	Out    string
	Model  string
	Theory bool
}

var (
	solverSem   = make(chan struct{}, 8)
	solverTime  int64
	solverCalls int64
	cacheDir    string // development only
)

type solverCfg struct {
	name string
	args []string
	abs  bool
}

func runSolver(name string, script string, timeout time.Duration, ctx context.Context) SolveResult {
	var key string
	if cacheDir != "" {
		h := sha256.Sum256([]byte(name + timeout.String() + script))
		key = filepath.Join(cacheDir, fmt.Sprintf("%x", h[:12]))
		if b, err := os.ReadFile(key); err == nil {
			s := string(b)
			return SolveResult{Status: s, Solver: name}
		}
	}
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return SolveResult{Status: "unknown", Solver: name}
	}
	start := time.Now()
	var cmd *exec.Cmd
	ctx2, cancel := context.WithTimeout(ctx, timeout+2*time.Second)
	defer cancel()
	switch name {
	case "z3":
		cmd = exec.CommandContext(ctx2, "z3", "-in", "-smt2", fmt.Sprintf("-t:%d", timeout.Milliseconds()))
	case "z3-new":
		cmd = exec.CommandContext(ctx2, "z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", timeout.Milliseconds()))
	case "z3-em":
		cmd = exec.CommandContext(ctx2, "z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", timeout.Milliseconds()), "smt.mbqi=false", "smt.auto_config=false")
	case "z3-mbqi":
		cmd = exec.CommandContext(ctx2, "z3", "-in", "-smt2", fmt.Sprintf("-t:%d", timeout.Milliseconds()), "smt.mbqi=false", "smt.auto_config=false")
	case "cvc5":
		cmd = exec.CommandContext(ctx2, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()), "--strings-exp", "--full-saturate-quant", "-")
	}
	sc := script
	if name == "cvc5" {
		sc = "(set-logic ALL)\n" + sc
	}
	cmd.Stdin = strings.NewReader(sc)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	d := time.Since(start)
	atomic.AddInt64(&solverTime, int64(d))
	atomic.AddInt64(&solverCalls, 1)
	o := out.String()
	st := "unknown"
	for _, line := range strings.Split(o, "\n") {
		line = strings.TrimSpace(line)
		if line == "unsat" || line == "sat" || line == "unknown" {
			st = line
			break
		}
		if strings.HasPrefix(line, "(error") {
			st = "error"
			break
		}
	}
	if key != "" && st != "error" {
		_ = os.WriteFile(key, []byte(st), 0o644)
	}
	return SolveResult{Status: st, Solver: name, Dur: d, Out: o}
}

// solve checks satisfiability of the conjunction of asserts with a portfolio.
func solve(asserts []*Term, timeout time.Duration, effort int, hint string) SolveResult {
	for _, a := range asserts {
		if a == False {
			return SolveResult{Status: "unsat", Solver: "simplify"}
		}
	}
	termMu.Lock()
	script := buildScript(asserts, true, "") + "(check-sat)\n"
	needTheory := usesStrOps(asserts)
	termMu.Unlock()
	first := timeout
	if effort > 0 && first > 5*time.Second {
		first = 5 * time.Second
	}
	bg := context.Background()
	if hint != "" {
		sv, sc := strings.TrimSuffix(hint, ":t"), script
		if sv != hint {
			sc = theoryScript(asserts)
		}
		if r := runSolver(sv, sc, timeout, bg); r.Status == "unsat" {
			r.Theory = sv != hint
			return r
		}
	}
	r := runSolver("z3-em", script, first, bg)
	if r.Status == "error" {
		dumpScript(script, r.Out)
		return r
	}
	if r.Status == "unsat" || (r.Status == "sat" && !needTheory) {
		return r
	}
	if effort == 0 {
		if needTheory {
			r := runSolver("z3-new", theoryScript(asserts), timeout, bg)
			r.Theory = true
			return r
		}
		return r
	}
	type res struct {
		r      SolveResult
		theory bool
	}
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	type cfg struct {
		name, script string
		theory       bool
	}
	var cfgs []cfg
	if r.Status != "sat" {
		for _, n := range []string{"z3", "z3-mbqi", "cvc5", "z3-new"} {
			cfgs = append(cfgs, cfg{n, script, false})
		}
	}
	if needTheory {
		ts := theoryScript(asserts)
		for _, n := range []string{"z3-new", "cvc5", "z3"} {
			cfgs = append(cfgs, cfg{n, ts, true})
		}
	}
	ch := make(chan res, len(cfgs))
	for _, c := range cfgs {
		c := c
		go func() { ch <- res{runSolver(c.name, c.script, timeout, ctx), c.theory} }()
	}
	for range cfgs {
		q := <-ch
		if q.r.Status == "unsat" || (q.r.Status == "sat" && q.theory == needTheory) {
			q.r.Theory = q.theory
			return q.r
		}
	}
	return r
}

func theoryScript(asserts []*Term) string {
	termMu.Lock()
	defer termMu.Unlock()
	return buildScript(asserts, false, "") + "(check-sat)\n"
}

var strOpNames = map[string]bool{"s_concat": true, "s_len": true, "s_at": true, "s_sub": true, "s_lt": true, "s_prefix": true, "s_suffix": true, "s_contains": true, "s_index": true, "s_ofcode": true}

func usesStrOps(ts []*Term) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t.ID] {
			return false
		}
		seen[t.ID] = true
		if t.Op == "app" && strOpNames[t.Name] {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	for _, t := range ts {
		if rec(t) {
			return true
		}
	}
	return false
}

var dumpOnce sync.Mutex

func dumpScript(script, out string) {
	dumpOnce.Lock()
	defer dumpOnce.Unlock()
	f := filepath.Join(os.TempDir(), "govc_err.smt2")
	_ = os.WriteFile(f, []byte(script), 0o644)
	fmt.Fprintf(os.Stderr, "solver error (%s): %s\n", f, firstLines(out, 3))
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func sortInts(m map[int]bool) []int {
	var o []int
	for k := range m {
		o = append(o, k)
	}
	sort.Ints(o)
	return o
}
