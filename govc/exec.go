package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Name   string
	Kind   string // ensures, nopanic, frame, requires, reach
	PC     *Term
	Goal   *Term
	NAssum int
	Pos    string
	Res    SolveResult
	OK     bool
	Clause string
}

type VC struct {
	PC, Goal *Term
	NAssum   int
}

type Cand struct {
	Desc   string
	Act    *Term
	Head   *Term
	Assume *Term
	VCs    []VC
	Alive  bool
	Loop   int
	subst  func(sub func(*Term) (*Term, bool))
}

type Exec struct {
	candHint map[string]string // solver that proved an invariant
	loopSeq  int
	curIter  *MapIter // map iteration of the loop whose invariants are being built
	curK     *Term
	P        *Prog
	assum    []*Term
	obls     []*Obl
	cands    []*Cand
	spec     int
	dry      int
	depth    int
	ce       *CE // contract being evaluated (collects clauses)
	top      *CE // contract of the function under verification
	fnName   string
	specRef  int64
	loops    []*LoopInst // active loops
	loopN    int
	stack    []*ssa.Function
	notes    map[string]bool
	safeN    map[string]int
	pre      *State
	unroll   int // >0: bounded mode (no invariants), used for counterexamples
	calls    int
	modCache map[string]map[string]bool
	allLoops []*LoopInst
	obSkip   bool
	uses     map[string]bool // contracts of callees relied on
}

func NewExec(p *Prog, name string) *Exec {
	return &Exec{P: p, fnName: name, notes: map[string]bool{}, safeN: map[string]int{}, uses: map[string]bool{}}
}

func (x *Exec) note(f string, a ...interface{}) {
	x.notes[fmt.Sprintf(f, a...)] = true
}

func (x *Exec) assume(st *State, t *Term) {
	if t == True {
		return
	}
	g := Implies(st.PC(), t)
	if g == True || !g.closed() {
		return
	}
	x.assum = append(x.assum, g)
}

// oblige records a proof obligation and then assumes it.
func (x *Exec) oblige(st *State, kind, clause string, goal *Term, pos token.Pos) {
	if x.spec > 0 {
		return
	}
	if goal == True {
		return
	}
	if st.decide(goal) == 1 {
		return
	}
	if x.dry == 0 {
		x.safeN[kind+clause]++
		n := x.safeN[kind+clause]
		nm := clause
		if kind == "nopanic" && n > 1 {
			nm = fmt.Sprintf("%s#%d", clause, n)
		}
		x.obls = append(x.obls, &Obl{Name: nm, Kind: kind, Clause: clause, PC: st.PC(), Goal: goal, NAssum: len(x.assum), Pos: x.P.pos(pos)})
	}
	if kind == "nopanic" || kind == "requires" {
		// execution continues only when the check passed
		st.addPC(goal)
	}
}

type frame struct {
	fn     *ssa.Function
	vals   map[ssa.Value]Value
	binds  []Value
	rets   []Ret
	info   *fnInfo
	insts  map[*ssa.BasicBlock]*LoopInst
	defers []*ssa.Defer
}

type Ret struct {
	Vals []Value
	St   *State
	Pos  token.Pos
}

type edge struct {
	from *ssa.BasicBlock
	st   *State
}

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	order []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loop
}

var infoCache = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := infoCache[fn]; ok {
		return i
	}
	info := &fnInfo{loops: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		info.order = append(info.order, post[i])
	}
	info.findLoops()
	// visit loop exits first so that a loop's blocks come before what follows it
	depth := func(b *ssa.BasicBlock) int {
		n := 0
		for _, l := range info.loops {
			if l.blocks[b] {
				n++
			}
		}
		return n
	}
	seen, post = map[*ssa.BasicBlock]bool{}, nil
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		ss := append([]*ssa.BasicBlock{}, b.Succs...)
		sort.SliceStable(ss, func(i, j int) bool { return depth(ss[i]) < depth(ss[j]) })
		for _, s := range ss {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	info.order = nil
	for i := len(post) - 1; i >= 0; i-- {
		info.order = append(info.order, post[i])
	}
	infoCache[fn] = info
	return info
}

func (info *fnInfo) findLoops() {
	in := map[*ssa.BasicBlock]bool{}
	for _, b := range info.order {
		in[b] = true
	}
	for _, b := range info.order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := info.loops[s]
				if l == nil {
					l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					info.loops[s] = l
				}
				// natural loop body
				var st []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					n := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range n.Preds {
						if !l.blocks[p] && in[p] {
							l.blocks[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
}

const maxDepth = 40

// run executes fn symbolically and returns the list of return sites.
func (x *Exec) run(fn *ssa.Function, args []Value, binds []Value, st *State) []Ret {
	if len(fn.Blocks) == 0 {
		unsup("function without body: %s", fn)
	}
	if x.depth > maxDepth {
		unsup("inlining too deep at %s", fn)
	}
	x.depth++
	x.stack = append(x.stack, fn)
	defer func() { x.depth--; x.stack = x.stack[:len(x.stack)-1] }()
	fr := &frame{fn: fn, vals: map[ssa.Value]Value{}, binds: binds, info: infoOf(fn), insts: map[*ssa.BasicBlock]*LoopInst{}}
	if len(args) != len(fn.Params) {
		unsup("argument count mismatch calling %s", fn)
	}
	for i, p := range fn.Params {
		fr.vals[p] = args[i]
	}
	in := map[*ssa.BasicBlock][]edge{}
	in[fn.Blocks[0]] = []edge{{nil, st}}
	x.execBlocks(fr, fr.info.order, in, nil)
	return fr.rets
}

// call runs fn and merges its return sites; ok is false if it never returns.
func (x *Exec) call(fn *ssa.Function, args []Value, binds []Value, st *State) (Value, *State, bool) {
	outerPC := st.pc
	_ = outerPC
	rets := x.run(fn, args, binds, st)
	var live []Ret
	for _, r := range rets {
		if !r.St.dead() {
			live = append(live, r)
		}
	}
	if len(live) == 0 {
		return nil, nil, false
	}
	var sts []*State
	for _, r := range live {
		sts = append(sts, r.St)
	}
	m, conds := x.mergeStates(sts)
	res := fn.Signature.Results()
	if res.Len() == 0 {
		return &Tup{}, m, true
	}
	tup := &Tup{}
	for i := 0; i < res.Len(); i++ {
		vs := make([]Value, len(live))
		for j, r := range live {
			vs[j] = r.Vals[i]
		}
		tup.E = append(tup.E, x.iteVals(conds, vs, res.At(i).Type()))
	}
	if res.Len() == 1 {
		return tup.E[0], m, true
	}
	return tup, m, true
}

func (x *Exec) execBlocks(fr *frame, order []*ssa.BasicBlock, in map[*ssa.BasicBlock][]edge, dryHead *ssa.BasicBlock) {
	for _, b := range order {
		es := in[b]
		var live []edge
		for _, e := range es {
			if !e.st.dead() {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			continue
		}
		var st *State
		if b == dryHead {
			st = live[0].st // phis are preset
		} else if l := fr.info.loops[b]; l != nil {
			if x.spec > 0 {
				unsup("loop in specification function %s", fr.fn)
			}
			st = x.enterLoop(fr, l, live)
		} else {
			var sts []*State
			for _, e := range live {
				sts = append(sts, e.st)
			}
			var conds []*Term
			st, conds = x.mergeStates(sts)
			x.phis(fr, b, live, conds)
		}
		x.execInstrs(fr, b, st, in)
	}
}

func predIndex(b *ssa.BasicBlock, from *ssa.BasicBlock, nth int) int {
	c := 0
	for i, p := range b.Preds {
		if p == from {
			if c == nth {
				return i
			}
			c++
		}
	}
	return -1
}

func (x *Exec) phiEdgeVals(fr *frame, phi *ssa.Phi, live []edge) []Value {
	vs := make([]Value, len(live))
	used := map[*ssa.BasicBlock]int{}
	for i, e := range live {
		pi := predIndex(phi.Block(), e.from, used[e.from])
		used[e.from]++
		vs[i] = x.val(fr, phi.Edges[pi], e.st)
	}
	return vs
}

func (x *Exec) phis(fr *frame, b *ssa.BasicBlock, live []edge, conds []*Term) {
	type pv struct {
		p *ssa.Phi
		v Value
	}
	var pvs []pv
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vs := x.phiEdgeVals(fr, phi, live)
		pvs = append(pvs, pv{phi, x.iteVals(conds, vs, phi.Type())})
	}
	for _, p := range pvs {
		fr.vals[p.p] = p.v
	}
}

func (x *Exec) addEdge(fr *frame, from, to *ssa.BasicBlock, st *State, in map[*ssa.BasicBlock][]edge) {
	if st.dead() {
		return
	}
	if to.Dominates(from) && fr.info.loops[to] != nil {
		// back edge
		if li := fr.insts[to]; li != nil {
			li.backs = append(li.backs, edge{from, st})
			if x.dry == 0 || li.real {
				x.backEdge(fr, li, edge{from, st})
			}
		}
		return
	}
	in[to] = append(in[to], edge{from, st})
}

func (x *Exec) execInstrs(fr *frame, b *ssa.BasicBlock, st *State, in map[*ssa.BasicBlock][]edge) {
	for _, ins := range b.Instrs {
		switch i := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := x.term(x.val(fr, i.Cond, st))
			if li := fr.insts[b]; li != nil && li.real {
				x.headerCond(fr, li, c)
			} else if li := x.innerHeader(fr, b); li != nil {
				x.headerCond(fr, li, c)
			}
			switch st.decide(c) {
			case 1:
				x.addEdge(fr, b, b.Succs[0], st, in)
				return
			case -1:
				x.addEdge(fr, b, b.Succs[1], st, in)
				return
			}
			s2 := st.clone()
			st.addPC(c)
			s2.addPC(Not(c))
			x.addEdge(fr, b, b.Succs[0], st, in)
			x.addEdge(fr, b, b.Succs[1], s2, in)
			return
		case *ssa.Jump:
			x.addEdge(fr, b, b.Succs[0], st, in)
			return
		case *ssa.Return:
			var vs []Value
			for _, r := range i.Results {
				vs = append(vs, x.val(fr, r, st))
			}
			fr.rets = append(fr.rets, Ret{vs, st, i.Pos()})
			return
		case *ssa.Panic:
			if x.spec == 0 {
				x.oblige(st, "nopanic", "explicit-panic", Not(st.PC()), i.Pos())
			}
			return
		default:
			var ok bool
			st, ok = x.instr(fr, ins, st)
			if !ok {
				return // no continuation
			}
			if st.dead() {
				return
			}
		}
	}
}

// innerHeader: loops whose exit test sits in a block other than the header (rare)
func (x *Exec) innerHeader(fr *frame, b *ssa.BasicBlock) *LoopInst { return nil }

// ---------------------------------------------------------------- values

func (x *Exec) term(v Value) *Term {
	switch t := v.(type) {
	case *Term:
		return t
	case *Ifc:
		return x.boxIfc(t)
	case *Clo:
		return x.cloTerm(t)
	}
	unsup("value is not a term: %T", v)
	return nil
}

var cloIDs = map[*ssa.Function]int{}

func (x *Exec) cloTerm(c *Clo) *Term {
	fn := c.Fn.(*ssa.Function)
	if _, ok := cloIDs[fn]; !ok {
		cloIDs[fn] = len(cloIDs) + 1
	}
	return IntT(int64(1000000 + cloIDs[fn]))
}

func (x *Exec) boxIfc(i *Ifc) *Term {
	if p, ok := i.V.(*Ptr); ok {
		// interior pointer escaping into an interface: opaque non-nil value
		if x.spec == 0 {
			x.note("interior pointer %s boxed as opaque value", p.Root+p.Path)
		}
		return box([]*Term{Fresh("iptr", SInt)}, i.T)
	}
	if isStructLike(i.T) {
		// boxed struct: content identified by an uninterpreted injection of its leaves
		return box([]*Term{UF("boxstruct:"+typeKey(i.T), SInt, x.toLeaves(i.V, i.T, nil)...)}, i.T)
	}
	return box(x.toLeaves(i.V, i.T, nil), i.T)
}

// toLeaves flattens a value; st is needed to materialise VarSl values.
func (x *Exec) toLeaves(v Value, t types.Type, st *State) []*Term {
	switch w := v.(type) {
	case *Term:
		return []*Term{w}
	case *Ifc:
		return []*Term{x.boxIfc(w)}
	case *Clo:
		return []*Term{x.cloTerm(w)}
	case *Tup:
		if isStructLike(t) {
			sts := subTypes(t)
			var out []*Term
			for i, e := range w.E {
				out = append(out, x.toLeaves(e, sts[i], st)...)
			}
			return out
		}
		var out []*Term
		for _, e := range w.E {
			out = append(out, e.(*Term))
		}
		return out
	case *VarSl:
		if st == nil {
			unsup("variadic slice used as value")
		}
		s := x.materialise(w, st)
		return x.toLeaves(s, t, st)
	case *Ptr:
		if w.Kind == "fld" && w.Path == "" {
			return []*Term{w.Base}
		}
		unsup("interior pointer used as value: %s%s", w.Root, w.Path)
	case *MapIter:
		unsup("map iterator as value")
	}
	unsup("toLeaves %T", v)
	return nil
}

func (x *Exec) materialise(v *VarSl, st *State) Value {
	r := x.newRef(st)
	ks := elemKeys(typeKey(v.Elem), "", v.Elem)
	n := len(v.Elems)
	for li, m := range ks {
		_, inner := arrParts(m.Sort)
		arr := Select(st.get(m), r)
		_ = inner
		for i, e := range v.Elems {
			ls := x.toLeaves(e, v.Elem, st)
			arr = Store(arr, IntT(int64(i)), ls[li])
		}
		st.set(m, Store(st.get(m), r, arr))
	}
	x.bumpVer(st, r, isDataGroup("E:"+typeKey(v.Elem)))
	return &Tup{E: []Value{r, IntT(0), IntT(int64(n)), IntT(int64(n))}}
}

func (x *Exec) newRef(st *State) *Term {
	if x.spec > 0 {
		x.specRef--
		return IntT(x.specRef - 1000)
	}
	r := st.alloc
	st.alloc = Add(st.alloc, IntT(1))
	return r
}

func isFreshRef(r *Term) bool {
	b, _ := splitOff(r)
	return b != nil && allocVars[b.ID]
}

// bumpVer marks that pre-existing memory may have changed.
func (x *Exec) bumpVer(st *State, r *Term, data bool) {
	if x.spec > 0 {
		return
	}
	if r != nil && isFreshRef(r) {
		return
	}
	if r != nil && x.pre != nil {
		st.ver = Ite(Le(x.pre.alloc, r), st.ver, Fresh("ver", SInt))
		if data {
			st.dver = Ite(Le(x.pre.alloc, r), st.dver, Fresh("dver", SInt))
		}
		return
	}
	st.ver = Fresh("ver", SInt)
	if data {
		st.dver = Fresh("dver", SInt)
	}
}

// isDataGroup: memory that plain data (decoded YAML or JSON) is made of.
func isDataGroup(g string) bool {
	return g == "E:any" || strings.HasPrefix(g, "M:map[") && strings.HasSuffix(g, "]any")
}

// untracked: memory that is not modelled (reads give arbitrary values).
var untracked = map[string]bool{"yaml.TypeError": true}

func (x *Exec) iteVal(c *Term, a, b Value, t types.Type) Value {
	if a == b || c == True {
		return a
	}
	if c == False {
		return b
	}
	switch av := a.(type) {
	case *Ptr:
		if bv, ok := b.(*Ptr); ok && av.Kind == bv.Kind && av.Root == bv.Root && av.Path == bv.Path && av.Cell == bv.Cell {
			if av.Kind == "cell" {
				if fmt.Sprint(av.CP) == fmt.Sprint(bv.CP) {
					return a
				}
			} else {
				n := *av
				if av.Base != nil {
					n.Base = Ite(c, av.Base, bv.Base)
				}
				if av.Idx != nil {
					n.Idx = Ite(c, av.Idx, bv.Idx)
				}
				return &n
			}
		}
	case *Clo:
		if bv, ok := b.(*Clo); ok && av.Fn == bv.Fn {
			same := len(av.Bind) == len(bv.Bind)
			for i := range av.Bind {
				if same && av.Bind[i] != bv.Bind[i] {
					pa, ok1 := av.Bind[i].(*Ptr)
					pb, ok2 := bv.Bind[i].(*Ptr)
					if !(ok1 && ok2 && pa.Kind == "cell" && pa.Cell == pb.Cell) {
						same = false
					}
				}
			}
			if same {
				return a
			}
		}
	case *Ifc:
		if bv, ok := b.(*Ifc); ok && types.Identical(av.T, bv.T) {
			if _, isPtr := av.V.(*Ptr); !isPtr {
				if _, isPtr := bv.V.(*Ptr); !isPtr {
					return &Ifc{av.T, x.iteVal(c, av.V, bv.V, av.T)}
				}
			}
		}
	case *Tup:
		if isStructLike(t) {
			bt, ok := b.(*Tup)
			if ok && len(bt.E) == len(av.E) {
				sts := subTypes(t)
				n := &Tup{}
				for i := range av.E {
					n.E = append(n.E, x.iteVal(c, av.E[i], bt.E[i], sts[i]))
				}
				return n
			}
		}
	case *VarSl:
		if bv, ok := b.(*VarSl); ok && len(av.Elems) == len(bv.Elems) {
			n := &VarSl{Elem: av.Elem}
			for i := range av.Elems {
				n.Elems = append(n.Elems, x.iteVal(c, av.Elems[i], bv.Elems[i], av.Elem))
			}
			return n
		}
	case *MapIter:
		if bv, ok := b.(*MapIter); ok && av == bv {
			return a
		}
	}
	if arr, ok := types.Unalias(t).Underlying().(*types.Array); ok {
		at, ok1 := a.(*Tup)
		bt, ok2 := b.(*Tup)
		if ok1 && ok2 {
			n := &Tup{}
			for i := range at.E {
				n.E = append(n.E, x.iteVal(c, at.E[i], bt.E[i], arr.Elem()))
			}
			return n
		}
	}
	la, lb := x.toLeaves(a, t, nil), x.toLeaves(b, t, nil)
	out := make([]*Term, len(la))
	for i := range la {
		out[i] = Ite(c, la[i], lb[i])
	}
	return fromLeaves(out, t)
}

func zeroLeaf(l Leaf) *Term {
	switch l.Sort {
	case SBool:
		return False
	case SInt:
		return IntT(0)
	case SStr:
		return StrT("")
	case SFlt:
		return Cons("FFin", SFlt, RealT(new(big.Rat)))
	case SVal:
		return VNil
	}
	panic("zeroLeaf " + l.Sort)
}

func (x *Exec) zero(t types.Type) Value {
	if arr, ok := types.Unalias(t).Underlying().(*types.Array); ok {
		n := &Tup{}
		for i := int64(0); i < arr.Len(); i++ {
			n.E = append(n.E, x.zero(arr.Elem()))
		}
		return n
	}
	var ts []*Term
	for _, l := range leaves(t) {
		ts = append(ts, zeroLeaf(l))
	}
	return fromLeaves(ts, t)
}

// freshVal creates an arbitrary well-typed value.
func (x *Exec) freshVal(prefix string, t types.Type, st *State, facts bool) Value {
	v, fs := x.freshVal2(prefix, t, st)
	if facts {
		for _, f := range fs {
			x.assume(&State{}, f)
		}
	}
	return v
}

func (x *Exec) freshVal2(prefix string, t types.Type, st *State) (Value, []*Term) {
	if arr, ok := types.Unalias(t).Underlying().(*types.Array); ok {
		n := &Tup{}
		var fs []*Term
		for i := int64(0); i < arr.Len(); i++ {
			v, f := x.freshVal2(prefix, arr.Elem(), st)
			n.E = append(n.E, v)
			fs = append(fs, f...)
		}
		return n, fs
	}
	ls := leaves(t)
	var ts, fs []*Term
	for _, l := range ls {
		if l.Kind == "soff" {
			ts = append(ts, IntT(0))
			continue
		}
		v := Fresh(prefix+l.Path, l.Sort)
		ts = append(ts, v)
		if f := leafFact(l, v, st.alloc); f != True {
			fs = append(fs, f)
		}
	}
	fs = append(fs, groupFacts(ls, ts)...)
	return fromLeaves(ts, t), fs
}

func (x *Exec) val(fr *frame, v ssa.Value, st *State) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return &Ptr{Kind: "glob", Root: c.Package().Pkg.Name() + "." + c.Name(), T: c.Type().(*types.Pointer).Elem()}
	case *ssa.Function:
		return &Clo{Fn: c}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == c {
				return fr.binds[i]
			}
		}
		unsup("free variable %s", c.Name())
	case *ssa.Builtin:
		return nil
	}
	if r, ok := fr.vals[v]; ok {
		return r
	}
	unsup("no value for %s (%T) in %s", v.Name(), v, fr.fn)
	return nil
}

func (x *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	if !ok {
		unsup("constant of type %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return BoolT(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		s := constant.ToInt(c.Value).ExactString()
		n, _ := new(big.Int).SetString(s, 10)
		return IntB(n)
	case b.Info()&types.IsFloat != 0:
		r, ok := new(big.Rat).SetString(constant.ToFloat(c.Value).ExactString())
		if !ok {
			unsup("float constant %s", c.Value)
		}
		return Cons("FFin", SFlt, RealT(r))
	case b.Info()&types.IsString != 0:
		return StrT(constant.StringVal(c.Value))
	}
	unsup("constant %s", c)
	return nil
}

// ---------------------------------------------------------------- memory

// ptrOf turns a pointer value into an address description of elem type t.
func (x *Exec) ptrOf(v Value, elem types.Type) *Ptr {
	switch p := v.(type) {
	case *Ptr:
		return p
	case *Term:
		return &Ptr{Kind: "fld", Base: p, Root: typeKey(elem), T: elem}
	}
	unsup("pointer %T", v)
	return nil
}

func (x *Exec) nilCheck(st *State, v Value, what string, pos token.Pos) {
	if x.spec > 0 {
		return
	}
	switch p := v.(type) {
	case *Term:
		x.oblige(st, "nopanic", "nil-deref "+what, Not(Eq(p, IntT(0))), pos)
	case *Ptr:
		if p.Kind == "fld" && p.Path == "" && p.Base != nil {
			x.oblige(st, "nopanic", "nil-deref "+what, Not(Eq(p.Base, IntT(0))), pos)
		}
	}
}

func (x *Exec) keysOf(p *Ptr, t types.Type) []*keyMeta {
	switch p.Kind {
	case "fld":
		return fldKeys(p.Root, p.Path, t)
	case "elem":
		return elemKeys(p.Root, p.Path, t)
	case "om":
		var out []*keyMeta
		for _, l := range leaves(t) {
			m := keyTab["O:"+p.Root+p.Path+l.Path]
			if m == nil {
				unsup("ordered map key O:%s%s%s", p.Root, p.Path, l.Path)
			}
			out = append(out, m)
		}
		return out
	case "glob":
		return globKeys(p.Root, t)
	}
	unsup("keysOf %s", p.Kind)
	return nil
}

func (x *Exec) load(st *State, p *Ptr, t types.Type) Value {
	switch p.Kind {
	case "cell":
		v, ok := st.cells[p.Cell]
		if !ok {
			unsup("cell %s not available", p.Cell.name)
		}
		ct := p.Cell.t
		for _, i := range p.CP {
			tp, ok := v.(*Tup)
			if !ok {
				unsup("cell path into %T", v)
			}
			v = tp.E[i]
			_ = ct
		}
		return v
	case "glob":
		if v := x.P.globalValue(x, p.Root, t, st); v != nil {
			return v
		}
		ks := globKeys(p.Root, t)
		if len(p.Path) > 0 {
			unsup("global field %s%s", p.Root, p.Path)
		}
		var ts []*Term
		for _, m := range ks {
			ts = append(ts, st.get(m))
		}
		return fromLeaves(ts, t)
	}
	if isArr(t) {
		unsup("load of array type %s", t)
	}
	if p.Kind == "fld" && untracked[p.Root] {
		return x.freshVal("untracked", t, st, true)
	}
	var ts []*Term
	for _, m := range x.keysOf(p, t) {
		if m.L.Kind == "soff" {
			ts = append(ts, IntT(0))
			continue
		}
		a := Select(st.get(m), p.Base)
		if p.Idx != nil {
			a = Select(a, p.Idx)
		}
		ts = append(ts, a)
	}
	return fromLeaves(ts, t)
}

func isArr(t types.Type) bool { _, ok := types.Unalias(t).Underlying().(*types.Array); return ok }

func (x *Exec) store(st *State, p *Ptr, t types.Type, v Value) {
	switch p.Kind {
	case "cell":
		st.cells[p.Cell] = updPath(st.cells[p.Cell], p.CP, v)
		return
	case "glob":
		ls := x.toLeaves(v, t, st)
		for i, m := range globKeys(p.Root, t) {
			st.set(m, ls[i])
		}
		x.bumpVer(st, nil, false)
		return
	}
	if p.Kind == "fld" && untracked[p.Root] {
		return
	}
	ls := x.toLeaves(v, t, st)
	for i, m := range x.keysOf(p, t) {
		if m.L.Kind == "soff" {
			if ls[i].Op != "int" || ls[i].Val.Sign() != 0 {
				unsup("slice with an offset stored in memory")
			}
			continue
		}
		h := st.get(m)
		if p.Idx != nil {
			st.set(m, Store(h, p.Base, Store(Select(h, p.Base), p.Idx, ls[i])))
		} else {
			st.set(m, Store(h, p.Base, ls[i]))
		}
	}
	if p.Kind == "fld" && "F:"+p.Root+p.Path == volCtx {
		return
	}
	x.bumpVer(st, p.Base, p.Kind != "fld" && isDataGroup("E:"+p.Root))
}

func updPath(old Value, path []int, v Value) Value {
	if len(path) == 0 {
		return v
	}
	t, ok := old.(*Tup)
	if !ok {
		unsup("update path into %T", old)
	}
	n := &Tup{E: append([]Value{}, t.E...)}
	n.E[path[0]] = updPath(t.E[path[0]], path[1:], v)
	return n
}

var cellN int

func newCell(name string, t types.Type) *CellID {
	cellN++
	return &CellID{cellN, name, t}
}

// escapes reports whether an allocation must live in the symbolic heap.
var escCache = map[*ssa.Alloc]bool{}

func escapes(a *ssa.Alloc) bool {
	if r, ok := escCache[a]; ok {
		return r
	}
	r := addrEscapes(a, map[ssa.Value]bool{})
	escCache[a] = r
	return r
}

func addrEscapes(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		switch i := r.(type) {
		case *ssa.Store:
			if i.Val == v {
				return true
			}
		case *ssa.UnOp:
			if i.Op != token.MUL {
				return true
			}
		case *ssa.FieldAddr:
			if _, ok := v.(*ssa.Alloc); ok || true {
				if addrEscapes(i, seen) {
					return true
				}
			}
		case *ssa.IndexAddr:
			if i.X != v {
				return true
			}
			if _, ok := i.Index.(*ssa.Const); !ok {
				return true
			}
			if addrEscapes(i, seen) {
				return true
			}
		case *ssa.Slice:
			// variadic argument arrays
			if !isArr(v.Type().Underlying().(*types.Pointer).Elem()) || i.Low != nil || i.High != nil {
				return true
			}
		case *ssa.MakeClosure:
			fn := i.Fn.(*ssa.Function)
			for bi, b := range i.Bindings {
				if b == v {
					if addrEscapes(fn.FreeVars[bi], seen) {
						return true
					}
				}
			}
		case *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- instructions

func fieldName(t types.Type, i int) (string, types.Type) {
	s := types.Unalias(t).Underlying().(*types.Struct)
	return s.Field(i).Name(), s.Field(i).Type()
}

func (x *Exec) fieldAddr(st *State, base Value, structT types.Type, i int, what string, pos token.Pos) Value {
	if tp, ok := base.(*Tup); ok { // *orderedmap.Pair
		m, idx := tp.E[0].(*Term), tp.E[1].(*Term)
		n, _ := isPair(types.NewPointer(structT))
		om := n
		_ = om
		fname, ft := fieldName(structT, i)
		root := "om[" + typeKey(n.TypeArgs().At(0)) + "," + typeKey(n.TypeArgs().At(1)) + "]"
		x.omKeysByArgs(n.TypeArgs().At(0), n.TypeArgs().At(1))
		if x.spec == 0 {
			ln := keyTab["O:"+root+".len"]
			x.oblige(st, "nopanic", "nil-deref pair", And(Le(IntT(0), idx), Lt(idx, Select(st.get(ln), m))), pos)
		}
		switch fname {
		case "Key":
			return &Ptr{Kind: "om", Base: m, Idx: idx, Root: root, Path: ".key", T: ft}
		case "Value":
			return &Ptr{Kind: "om", Base: m, Idx: idx, Root: root, Path: ".val", T: ft}
		}
		unsup("pair field %s", fname)
	}
	p := x.ptrOf(base, structT)
	x.nilCheck(st, base, what, pos)
	fname, ft := fieldName(structT, i)
	n := *p
	n.T = ft
	if p.Kind == "cell" {
		n.CP = append(append([]int{}, p.CP...), i)
	} else {
		n.Path = p.Path + "." + fname
	}
	return &n
}

func (x *Exec) omKeysByArgs(k, v types.Type) *omKeysT {
	root := "om[" + typeKey(k) + "," + typeKey(v) + "]"
	if x.P.omNamed[root] != nil {
		return omKeys(x.P.omNamed[root])
	}
	// instantiate
	g := x.P.omGeneric
	inst, err := types.Instantiate(nil, g, []types.Type{k, v}, false)
	if err != nil {
		unsup("instantiate ordered map: %v", err)
	}
	n := inst.(*types.Named)
	x.P.omNamed[root] = n
	return omKeys(n)
}

func ptrElem(t types.Type) types.Type {
	return types.Unalias(t).Underlying().(*types.Pointer).Elem()
}

func desc(v ssa.Value) string {
	// stable human-readable description of an SSA value
	switch i := v.(type) {
	case *ssa.Parameter:
		return i.Name()
	case *ssa.UnOp:
		if i.Op == token.MUL {
			return desc(i.X)
		}
	case *ssa.FieldAddr:
		fn, _ := fieldName(ptrElem(i.X.Type()), i.Field)
		return desc(i.X) + "." + fn
	case *ssa.Field:
		fn, _ := fieldName(i.X.Type(), i.Field)
		return desc(i.X) + "." + fn
	case *ssa.Extract:
		return desc(i.Tuple)
	case *ssa.TypeAssert:
		return desc(i.X) + ".(" + typeKey(i.AssertedType) + ")"
	case *ssa.Call:
		if f := i.Call.StaticCallee(); f != nil {
			return f.Name() + "()"
		}
		if i.Call.IsInvoke() {
			return i.Call.Method.Name() + "()"
		}
		return "call()"
	case *ssa.Const:
		return i.Name()
	case *ssa.IndexAddr:
		return desc(i.X) + "[]"
	case *ssa.Alloc:
		if i.Comment != "" {
			return i.Comment
		}
	case *ssa.Phi:
		if i.Comment != "" {
			return i.Comment
		}
	case *ssa.FreeVar:
		return i.Name()
	}
	return "value"
}

func (x *Exec) instr(fr *frame, ins ssa.Instruction, st *State) (*State, bool) {
	set := func(v ssa.Value, r Value) { fr.vals[v] = r }
	switch i := ins.(type) {
	case *ssa.DebugRef:
		return st, true
	case *ssa.Alloc:
		t := ptrElem(i.Type())
		if !escapes(i) {
			c := newCell(i.Comment, t)
			st.cells[c] = x.zero(t)
			set(i, &Ptr{Kind: "cell", Cell: c, T: t})
			return st, true
		}
		if isArr(t) {
			arr := types.Unalias(t).Underlying().(*types.Array)
			r := x.newRef(st)
			set(i, &Ptr{Kind: "arr", Base: r, T: t})
			for _, m := range elemKeys(typeKey(arr.Elem()), "", arr.Elem()) {
				_, in := arrParts(m.Sort)
				st.set(m, Store(st.get(m), r, ConstArr(in, zeroLeaf(m.L))))
			}
			return st, true
		}
		r := x.allocObj(st, t, nil)
		set(i, r)
	case *ssa.FieldAddr:
		set(i, x.fieldAddr(st, x.val(fr, i.X, st), ptrElem(i.X.Type()), i.Field, desc(i.X), i.Pos()))
	case *ssa.Field:
		v := x.val(fr, i.X, st)
		tp, ok := v.(*Tup)
		if !ok {
			unsup("field of %T", v)
		}
		set(i, tp.E[i.Field])
	case *ssa.UnOp:
		return x.unop(fr, i, st), true
	case *ssa.Store:
		pt := ptrElem(i.Addr.Type())
		a := x.val(fr, i.Addr, st)
		p := x.ptrOf(a, pt)
		if _, isT := a.(*Term); isT {
			x.nilCheck(st, a, desc(i.Addr), i.Pos())
		}
		x.store(st, p, pt, x.val(fr, i.Val, st))
	case *ssa.BinOp:
		set(i, x.binop(fr, i, st))
	case *ssa.ChangeType, *ssa.ChangeInterface:
		var src ssa.Value
		if c, ok := ins.(*ssa.ChangeType); ok {
			src = c.X
		} else {
			src = ins.(*ssa.ChangeInterface).X
		}
		set(ins.(ssa.Value), x.val(fr, src, st))
	case *ssa.Convert:
		set(i, x.convert(i.X.Type(), i.Type(), x.val(fr, i.X, st), st))
	case *ssa.MultiConvert:
		set(i, x.convert(i.X.Type(), i.Type(), x.val(fr, i.X, st), st))
	case *ssa.MakeInterface:
		v := x.val(fr, i.X, st)
		if vs, ok := v.(*VarSl); ok {
			v = x.materialise(vs, st)
		}
		set(i, &Ifc{i.X.Type(), v})
	case *ssa.MakeClosure:
		c := &Clo{Fn: i.Fn}
		for _, b := range i.Bindings {
			c.Bind = append(c.Bind, x.val(fr, b, st))
		}
		set(i, c)
	case *ssa.MakeMap:
		mt := types.Unalias(i.Type()).Underlying().(*types.Map)
		set(i, x.makeMap(st, mt))
	case *ssa.MakeSlice:
		et := types.Unalias(i.Type()).Underlying().(*types.Slice).Elem()
		n := x.term(x.val(fr, i.Len, st))
		cp := x.term(x.val(fr, i.Cap, st))
		x.oblige(st, "nopanic", "makeslice-len", And(Le(IntT(0), n), Le(n, cp)), i.Pos())
		r := x.newRef(st)
		for _, m := range elemKeys(typeKey(et), "", et) {
			_, in := arrParts(m.Sort)
			st.set(m, Store(st.get(m), r, ConstArr(in, zeroLeaf(m.L))))
		}
		set(i, &Tup{E: []Value{r, IntT(0), n, cp}})
	case *ssa.MakeChan:
		set(i, x.newRef(st))
	case *ssa.Slice:
		set(i, x.slice(fr, i, st))
	case *ssa.IndexAddr:
		set(i, x.indexAddr(fr, i, st))
	case *ssa.Index:
		v := x.val(fr, i.X, st)
		idx := x.term(x.val(fr, i.Index, st))
		if t, ok := v.(*Term); ok && t.Sort == SStr {
			x.oblige(st, "nopanic", "index "+desc(i.X), And(Le(IntT(0), idx), Lt(idx, sLen(t))), i.Pos())
			set(i, App("s_at", SInt, t, idx))
			return st, true
		}
		unsup("index of %T", v)
	case *ssa.Lookup:
		set(i, x.lookup(fr, i, st))
	case *ssa.MapUpdate:
		mt := types.Unalias(i.Map.Type()).Underlying().(*types.Map)
		m := x.term(x.val(fr, i.Map, st))
		x.oblige(st, "nopanic", "nil-map-write "+desc(i.Map), Not(Eq(m, IntT(0))), i.Pos())
		x.mapSet(st, mt, m, x.toLeaves(x.val(fr, i.Key, st), mt.Key(), st)[0], x.val(fr, i.Value, st))
	case *ssa.TypeAssert:
		set(i, x.typeAssert(fr, i, st))
	case *ssa.Extract:
		v := x.val(fr, i.Tuple, st)
		tp, ok := v.(*Tup)
		if !ok {
			unsup("extract from %T", v)
		}
		set(i, tp.E[i.Index])
	case *ssa.Range:
		set(i, x.rangeIter(fr, i, st))
	case *ssa.Next:
		set(i, x.next(fr, i, st))
	case *ssa.Call:
		v, st2, ok := x.doCall(fr, &i.Call, st, i.Pos(), i.Type())
		if !ok {
			return nil, false
		}
		set(i, v)
		return st2, true
	case *ssa.Defer:
		x.note("deferred call in %s ignored (resource release)", x.P.short(fr.fn))
	case *ssa.RunDefers:
	case *ssa.Go, *ssa.Send, *ssa.Select:
		unsup("concurrency instruction in %s", fr.fn)
	default:
		unsup("instruction %T in %s", ins, fr.fn)
	}
	return st, true
}

func sLen(t *Term) *Term {
	if t.Op == "str" {
		return IntT(int64(len(t.Name)))
	}
	return App("s_len", SInt, t)
}

func (x *Exec) allocObj(st *State, t types.Type, v Value) *Term {
	r := x.newRef(st)
	if n, ok := isOM(t); ok {
		x.omInit(st, omKeys(n), r)
		return r
	}
	if v == nil {
		v = x.zero(t)
	}
	p := &Ptr{Kind: "fld", Base: r, Root: typeKey(t), T: t}
	ls := x.toLeaves(v, t, st)
	for i, m := range x.keysOf(p, t) {
		st.set(m, Store(st.get(m), r, ls[i]))
	}
	return r
}

func (x *Exec) omInit(st *State, k *omKeysT, r *Term) {
	st.set(k.ln, Store(st.get(k.ln), r, IntT(0)))
	_, in := arrParts(k.idx.Sort)
	st.set(k.idx, Store(st.get(k.idx), r, ConstArr(in, IntT(-1))))
	_, kin := arrParts(k.key.Sort)
	st.set(k.key, Store(st.get(k.key), r, ConstArr(kin, zeroLeaf(k.key.L))))
	for _, m := range k.vals {
		_, vin := arrParts(m.Sort)
		st.set(m, Store(st.get(m), r, ConstArr(vin, zeroLeaf(m.L))))
	}
}

func (x *Exec) makeMap(st *State, mt *types.Map) *Term {
	k := mapKeys(mt)
	r := x.newRef(st)
	st.set(k.ln, Store(st.get(k.ln), r, IntT(0)))
	_, in := arrParts(k.dom.Sort)
	st.set(k.dom, Store(st.get(k.dom), r, ConstArr(in, False)))
	for _, m := range k.vals {
		_, vin := arrParts(m.Sort)
		st.set(m, Store(st.get(m), r, ConstArr(vin, zeroLeaf(m.L))))
	}
	return r
}

func (x *Exec) mapSet(st *State, mt *types.Map, m, key *Term, v Value) {
	k := mapKeys(mt)
	ls := x.toLeaves(v, mt.Elem(), st)
	dom := Select(st.get(k.dom), m)
	had := Select(dom, key)
	ln := Select(st.get(k.ln), m)
	st.set(k.ln, Store(st.get(k.ln), m, Ite(had, ln, Add(ln, IntT(1)))))
	st.set(k.dom, Store(st.get(k.dom), m, Store(dom, key, True)))
	for i, mm := range k.vals {
		st.set(mm, Store(st.get(mm), m, Store(Select(st.get(mm), m), key, ls[i])))
	}
	x.bumpVer(st, m, isDataGroup(k.ln.Group))
}

func (x *Exec) mapGet(st *State, mt *types.Map, m, key *Term) (Value, *Term) {
	k := mapKeys(mt)
	if ents := x.P.gmap(m); ents != nil {
		has := False
		var ts []*Term
		for _, l := range leaves(mt.Elem()) {
			ts = append(ts, zeroLeaf(l))
		}
		for i := len(ents) - 1; i >= 0; i-- {
			c := Eq(key, ents[i].key)
			has = Or(c, has)
			for j := range ts {
				ts[j] = Ite(c, ents[i].val[j], ts[j])
			}
		}
		return fromLeaves(ts, mt.Elem()), has
	}
	has := And(Not(Eq(m, IntT(0))), Select(Select(st.get(k.dom), m), key))
	var ts []*Term
	for _, mm := range k.vals {
		ts = append(ts, Ite(has, Select(Select(st.get(mm), m), key), zeroLeaf(mm.L)))
	}
	return fromLeaves(ts, mt.Elem()), has
}

func (x *Exec) omGet(st *State, k *omKeysT, m, key *Term) (Value, *Term) {
	idx := Select(Select(st.get(k.idx), m), key)
	has := Le(IntT(0), idx)
	var ts []*Term
	for _, mm := range k.vals {
		ts = append(ts, Ite(has, Select(Select(st.get(mm), m), idx), zeroLeaf(mm.L)))
	}
	return fromLeaves(ts, k.vt), has
}

func (x *Exec) omSet(st *State, k *omKeysT, m, key *Term, v Value) (Value, *Term) {
	old, has := x.omGet(st, k, m, key)
	ls := x.toLeaves(v, k.vt, st)
	idxA := Select(st.get(k.idx), m)
	i := Select(idxA, key)
	ln := Select(st.get(k.ln), m)
	pos := Ite(has, i, ln)
	st.set(k.idx, Store(st.get(k.idx), m, Store(idxA, key, pos)))
	st.set(k.key, Store(st.get(k.key), m, Store(Select(st.get(k.key), m), pos, key)))
	for j, mm := range k.vals {
		st.set(mm, Store(st.get(mm), m, Store(Select(st.get(mm), m), pos, ls[j])))
	}
	st.set(k.ln, Store(st.get(k.ln), m, Ite(has, ln, Add(ln, IntT(1)))))
	x.bumpVer(st, m, false)
	return old, has
}

func (x *Exec) unop(fr *frame, i *ssa.UnOp, st *State) *State {
	v := x.val(fr, i.X, st)
	switch i.Op {
	case token.MUL:
		t := ptrElem(i.X.Type())
		if _, ok := v.(*Term); ok {
			x.nilCheck(st, v, desc(i.X), i.Pos())
		}
		if p, ok := v.(*Ptr); ok && p.Kind == "arr" {
			unsup("array load")
		}
		fr.vals[i] = x.load(st, x.ptrOf(v, t), t)
	case token.NOT:
		fr.vals[i] = Not(x.term(v))
	case token.SUB:
		t := x.term(v)
		if t.Sort == SFlt {
			fr.vals[i] = App("f_neg", SFlt, t)
		} else {
			fr.vals[i] = x.wrap(Sub(IntT(0), t), i.Type())
		}
	default:
		unsup("unary %s", i.Op)
	}
	return st
}

// wrap reduces to the range of unsigned types; signed overflow is assumed absent.
func (x *Exec) wrap(t *Term, typ types.Type) *Term {
	lo, hi := intRange(typ)
	if lo == nil || t.Op == "int" && t.Val.Cmp(lo) >= 0 && t.Val.Cmp(hi) <= 0 {
		return t
	}
	b := types.Unalias(typ).Underlying().(*types.Basic)
	if b.Info()&types.IsUnsigned == 0 {
		x.note("signed machine arithmetic treated as mathematical (no overflow)")
		return t
	}
	mod := new(big.Int).Add(hi, big.NewInt(1))
	return mk("mod", SInt, "", t, IntB(mod))
}

func (x *Exec) binop(fr *frame, i *ssa.BinOp, st *State) Value {
	a, b := x.val(fr, i.X, st), x.val(fr, i.Y, st)
	switch i.Op {
	case token.EQL, token.NEQ:
		e := x.equal(a, b, i.X.Type(), i.Y.Type(), st, i.Pos(), desc(i.X)+"=="+desc(i.Y))
		if i.Op == token.NEQ {
			e = Not(e)
		}
		return e
	}
	ta, tb := x.term(a), x.term(b)
	switch ta.Sort {
	case SInt:
		switch i.Op {
		case token.ADD:
			return x.wrap(Add(ta, tb), i.Type())
		case token.SUB:
			return x.wrap(Sub(ta, tb), i.Type())
		case token.MUL:
			return x.wrap(Mul(ta, tb), i.Type())
		case token.QUO, token.REM:
			x.oblige(st, "nopanic", "division-by-zero", Not(Eq(tb, IntT(0))), i.Pos())
			// truncated division
			absT := func(t *Term) *Term { return Ite(Le(IntT(0), t), t, Sub(IntT(0), t)) }
			if ta.Op == "int" && tb.Op == "int" && tb.Val.Sign() != 0 {
				q, r := new(big.Int).QuoRem(ta.Val, tb.Val, new(big.Int))
				if i.Op == token.QUO {
					return IntB(q)
				}
				return IntB(r)
			}
			q := mk("div", SInt, "", absT(ta), absT(tb))
			neg := Not(Eq(Le(IntT(0), ta), Le(IntT(0), tb)))
			q = Ite(neg, Sub(IntT(0), q), q)
			if i.Op == token.QUO {
				return q
			}
			r := mk("mod", SInt, "", absT(ta), absT(tb))
			return Ite(Le(IntT(0), ta), r, Sub(IntT(0), r))
		case token.LSS:
			return Lt(ta, tb)
		case token.LEQ:
			return Le(ta, tb)
		case token.GTR:
			return Lt(tb, ta)
		case token.GEQ:
			return Le(tb, ta)
		case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
			r := UF("bitop:"+i.Op.String(), SInt, ta, tb)
			x.note("bit operations uninterpreted")
			return r
		}
	case SFlt:
		switch i.Op {
		case token.LSS:
			return App("f_lt", SBool, ta, tb)
		case token.LEQ:
			return App("f_le", SBool, ta, tb)
		case token.GTR:
			return App("f_lt", SBool, tb, ta)
		case token.GEQ:
			return App("f_le", SBool, tb, ta)
		}
		x.note("floating-point arithmetic uninterpreted")
		return App("f_arith", SFlt, IntT(int64(i.Op)), ta, tb)
	case SStr:
		switch i.Op {
		case token.ADD:
			return sConcat(ta, tb)
		case token.LSS:
			return App("s_lt", SBool, ta, tb)
		case token.GTR:
			return App("s_lt", SBool, tb, ta)
		case token.LEQ:
			return Not(App("s_lt", SBool, tb, ta))
		case token.GEQ:
			return Not(App("s_lt", SBool, ta, tb))
		}
	case SBool:
		switch i.Op {
		case token.AND:
			return And(ta, tb)
		case token.OR:
			return Or(ta, tb)
		}
	}
	unsup("binary %s on %s", i.Op, ta.Sort)
	return nil
}

func sConcat(a, b *Term) *Term {
	if a.Op == "str" && b.Op == "str" {
		return StrT(a.Name + b.Name)
	}
	if a.Op == "str" && a.Name == "" {
		return b
	}
	if b.Op == "str" && b.Name == "" {
		return a
	}
	return App("s_concat", SStr, a, b)
}

// equal models Go's == on two values.
func (x *Exec) equal(a, b Value, ta, tb types.Type, st *State, pos token.Pos, what string) *Term {
	// interface vs concrete comparisons are converted by ssa (MakeInterface) already
	if isIface(ta) {
		if ia, ok := a.(*Ifc); ok {
			if ib, ok := b.(*Ifc); ok {
				if !types.Identical(ia.T, ib.T) {
					return False
				}
			} else if tbT, ok := b.(*Term); ok && tbT == VNil {
				return False
			}
		}
		if ib, ok := b.(*Ifc); ok {
			if taT, ok := a.(*Term); ok && taT == VNil {
				_ = ib
				return False
			}
		}
		va, vb := x.term(a), x.term(b)
		if va == VNil || vb == VNil {
			return Eq(va, vb)
		}
		// comparing uncomparable dynamic types panics
		if x.spec == 0 {
			unc := func(v *Term) *Term { return x.uncomparable(v) }
			ua, ub := unc(va), unc(vb)
			if ua != False && ub != False {
				x.oblige(st, "nopanic", "uncomparable "+what, Not(And(ua, ub, x.sameTag(va, vb))), pos)
			}
		}
		return ifEq(va, vb)
	}
	if _, ok := isPair(ta); ok {
		// comparison with nil, or pair/pair
		pa, pb := a.(*Tup), b.(*Tup)
		na, nb := x.pairNil(pa, ta, st), x.pairNil(pb, ta, st)
		if isZeroPair(pb) {
			return na
		}
		if isZeroPair(pa) {
			return nb
		}
		return Or(And(na, nb), And(Not(na), Not(nb), Eq(pa.E[0].(*Term), pb.E[0].(*Term)), Eq(pa.E[1].(*Term), pb.E[1].(*Term))))
	}
	if isSlice(ta) { // only nil comparison possible
		la := x.sliceRef(a, st)
		lb := x.sliceRef(b, st)
		return Eq(la, lb)
	}
	switch av := a.(type) {
	case *Clo:
		if t, ok := b.(*Term); ok && t.Op == "int" && t.Val.Sign() == 0 {
			return False
		}
		_ = av
	case *Ptr:
		if t, ok := b.(*Term); ok && t.Op == "int" && t.Val.Sign() == 0 {
			if av.Kind == "fld" && av.Path == "" {
				return Eq(av.Base, t)
			}
			return False
		}
		if bp, ok := b.(*Ptr); ok && av.Kind == bp.Kind && av.Root == bp.Root && av.Path == bp.Path {
			if av.Kind == "cell" {
				return BoolT(av.Cell == bp.Cell && fmt.Sprint(av.CP) == fmt.Sprint(bp.CP))
			}
			e := Eq(av.Base, bp.Base)
			if av.Idx != nil {
				e = And(e, Eq(av.Idx, bp.Idx))
			}
			return e
		}
		return False
	case *Term:
		if bp, ok := b.(*Ptr); ok {
			_ = bp
			return x.equal(b, a, tb, ta, st, pos, what)
		}
		if _, ok := b.(*Clo); ok {
			return x.equal(b, a, tb, ta, st, pos, what)
		}
	}
	if isStructLike(ta) {
		pa, pb := a.(*Tup), b.(*Tup)
		var cs []*Term
		for i, ft := range subTypes(ta) {
			cs = append(cs, x.equal(pa.E[i], pb.E[i], ft, ft, st, pos, what))
		}
		return And(cs...)
	}
	va, vb := x.term(a), x.term(b)
	if va.Sort == SFlt {
		return App("f_eq", SBool, va, vb)
	}
	return Eq(va, vb)
}

func (x *Exec) sliceRef(v Value, st *State) *Term {
	switch s := v.(type) {
	case *Tup:
		return s.E[0].(*Term)
	case *VarSl:
		if len(s.Elems) == 0 {
			return IntT(0)
		}
		return IntT(-999999)
	}
	unsup("sliceRef %T", v)
	return nil
}

func isZeroPair(p *Tup) bool {
	m := p.E[0].(*Term)
	return m.Op == "int" && m.Val.Sign() == 0
}

func (x *Exec) pairNil(p *Tup, t types.Type, st *State) *Term {
	if isZeroPair(p) {
		return True
	}
	n, _ := isPair(t)
	k := x.omKeysByArgs(n.TypeArgs().At(0), n.TypeArgs().At(1))
	m, i := p.E[0].(*Term), p.E[1].(*Term)
	return Not(And(Le(IntT(0), i), Lt(i, Select(st.get(k.ln), m))))
}

func ifEq(a, b *Term) *Term {
	if a == VNil || b == VNil {
		return Eq(a, b)
	}
	// float payloads compare by float equality
	fa, fb := isCons_(a, "VF"), isCons_(b, "VF")
	if fa == False || fb == False {
		return Eq(a, b)
	}
	if fa == True && fb == True {
		return And(Eq(sel("vft", a), sel("vft", b)), App("f_eq", SBool, sel("vf", a), sel("vf", b)))
	}
	return App("ifeq", SBool, a, b)
}

func (x *Exec) uncomparable(v *Term) *Term {
	if v.Op == "cons" {
		switch v.Name {
		case "VSl":
			return True
		case "VR":
			id, ok := intLit(v.Args[0])
			if ok && id >= 1 && id <= len(tagTypes) {
				return BoolT(!types.Comparable(tagTypes[id-1]))
			}
		default:
			return False
		}
	}
	if v.Op == "ite" {
		a, b := x.uncomparable(v.Args[1]), x.uncomparable(v.Args[2])
		return Ite(v.Args[0], a, b)
	}
	// slices, or references tagged with a map/func type
	cs := []*Term{isCons_(v, "VSl")}
	for _, t := range x.P.uncompTags() {
		cs = append(cs, And(isCons_(v, "VR"), Eq(sel("vrt", v), tagT(t))))
	}
	return Or(cs...)
}

func intLit(t *Term) (int, bool) {
	if t.Op == "int" && t.Val.IsInt64() {
		return int(t.Val.Int64()), true
	}
	return 0, false
}

func (x *Exec) sameTag(a, b *Term) *Term {
	return Or(And(isCons_(a, "VSl"), isCons_(b, "VSl"), Eq(sel("vslt", a), sel("vslt", b))),
		And(isCons_(a, "VR"), isCons_(b, "VR"), Eq(sel("vrt", a), sel("vrt", b))))
}

func (x *Exec) convert(from, to types.Type, v Value, st *State) Value {
	fu, tu := types.Unalias(from).Underlying(), types.Unalias(to).Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		t := x.term(v)
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			return convInt(t, from, to)
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			if t.Op == "int" && t.Val.BitLen() <= 53 {
				return Cons("FFin", SFlt, RealT(new(big.Rat).SetInt(t.Val)))
			}
			return App("i2f", SFlt, t)
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			lo, hi := intRange(to)
			return App("f2i", SInt, t, IntB(lo), IntB(hi))
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if tb.Kind() == types.Float32 {
				return UF("f64to32", SFlt, t)
			}
			return t
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return t
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return App("s_ofcode", SStr, t)
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		// []byte -> string
		if !isSlice(from) {
			unsup("conversion %s -> string", from)
		}
		return x.bytesStr(v, st)
	}
	if fok && fb.Info()&types.IsString != 0 && isSlice(to) {
		et := tu.(*types.Slice).Elem()
		if typeKey(et) != "uint8" && typeKey(et) != "byte" {
			unsup("conversion %s -> %s", from, to)
		}
		return x.strBytes(x.term(v), et, st)
	}
	if types.Identical(fu, tu) {
		return v
	}
	if _, ok := fu.(*types.Pointer); ok {
		return v
	}
	unsup("conversion %s -> %s", from, to)
	return nil
}

// bytesStr is the text of a byte slice.
func (x *Exec) bytesStr(v Value, st *State) *Term {
	ref, off, ln, _ := x.asSlice(v, st)
	et := types.Typ[types.Uint8]
	m := elemKeys(typeKey(et), "", et)[0]
	return UF("bytes", SStr, Select(st.get(m), ref), off, ln)
}

// strBytes is a new byte slice holding s.
func (x *Exec) strBytes(s *Term, et types.Type, st *State) Value {
	r := x.newRef(st)
	n := sLen(s)
	m := elemKeys(typeKey(et), "", et)[0]
	_, srt := arrParts(st.get(m).Sort)
	a := Fresh("text", srt)
	st.set(m, Store(st.get(m), r, a))
	x.assume(st, Eq(UF("bytes", SStr, a, IntT(0), n), s))
	return &Tup{E: []Value{r, IntT(0), n, n}}
}

func convInt(t *Term, from, to types.Type) *Term {
	flo, fhi := intRange(from)
	tlo, thi := intRange(to)
	if t.Op == "int" && t.Val.Cmp(tlo) >= 0 && t.Val.Cmp(thi) <= 0 {
		return t
	}
	if flo != nil && flo.Cmp(tlo) >= 0 && fhi.Cmp(thi) <= 0 {
		return t
	}
	mod := new(big.Int).Add(new(big.Int).Sub(thi, tlo), big.NewInt(1))
	if tlo.Sign() == 0 {
		if flo != nil && fhi.Cmp(thi) <= 0 && flo.Cmp(new(big.Int).Neg(mod)) >= 0 {
			return Ite(Le(IntT(0), t), t, Add(t, IntB(mod)))
		}
		return mk("mod", SInt, "", t, IntB(mod))
	}
	if flo != nil && flo.Sign() >= 0 && fhi.Cmp(mod) < 0 {
		return Ite(Le(t, IntB(thi)), t, Sub(t, IntB(mod)))
	}
	m := mk("mod", SInt, "", t, IntB(mod))
	return Ite(Le(m, IntB(thi)), m, Sub(m, IntB(mod)))
}

func (x *Exec) slice(fr *frame, i *ssa.Slice, st *State) Value {
	v := x.val(fr, i.X, st)
	opt := func(s ssa.Value) *Term {
		if s == nil {
			return nil
		}
		return x.term(x.val(fr, s, st))
	}
	lo, hi, mx := opt(i.Low), opt(i.High), opt(i.Max)
	if p, ok := v.(*Ptr); ok {
		arrT := types.Unalias(p.T).Underlying().(*types.Array)
		n := IntT(arrT.Len())
		if p.Kind == "arr" {
			if lo == nil {
				lo = IntT(0)
			}
			if hi == nil {
				hi = n
			}
			return &Tup{E: []Value{p.Base, lo, Sub(hi, lo), Sub(n, lo)}}
		}
		tp := x.load(st, p, p.T).(*Tup)
		return &VarSl{Elems: append([]Value{}, tp.E...), Elem: arrT.Elem()}
	}
	if t, ok := v.(*Term); ok && t.Sort == SStr {
		if lo == nil {
			lo = IntT(0)
		}
		ln := sLen(t)
		if hi == nil {
			hi = ln
		}
		x.oblige(st, "nopanic", "slice-bounds "+desc(i.X), And(Le(IntT(0), lo), Le(lo, hi), Le(hi, ln)), i.Pos())
		if lo.Op == "int" && lo.Val.Sign() == 0 && hi == ln {
			return t
		}
		return App("s_sub", SStr, t, lo, hi)
	}
	if vs, ok := v.(*VarSl); ok {
		v = x.materialise(vs, st)
	}
	s, ok := v.(*Tup)
	if !ok {
		unsup("slice of %T", v)
	}
	ref, off, ln, cp := s.E[0].(*Term), s.E[1].(*Term), s.E[2].(*Term), s.E[3].(*Term)
	if lo == nil {
		lo = IntT(0)
	}
	if hi == nil {
		hi = ln
	}
	top := cp
	if mx != nil {
		top = mx
		x.oblige(st, "nopanic", "slice-bounds "+desc(i.X), And(Le(hi, mx), Le(mx, cp)), i.Pos())
	}
	x.oblige(st, "nopanic", "slice-bounds "+desc(i.X), And(Le(IntT(0), lo), Le(lo, hi), Le(hi, cp)), i.Pos())
	return &Tup{E: []Value{ref, Add(off, lo), Sub(hi, lo), Sub(top, lo)}}
}

func (x *Exec) indexAddr(fr *frame, i *ssa.IndexAddr, st *State) Value {
	v := x.val(fr, i.X, st)
	idx := x.term(x.val(fr, i.Index, st))
	switch s := v.(type) {
	case *Ptr: // pointer to array
		arrT := types.Unalias(s.T).Underlying().(*types.Array)
		if s.Kind == "arr" {
			x.oblige(st, "nopanic", "index "+desc(i.X), And(Le(IntT(0), idx), Lt(idx, IntT(arrT.Len()))), i.Pos())
			return &Ptr{Kind: "elem", Base: s.Base, Idx: idx, Root: typeKey(arrT.Elem()), T: arrT.Elem()}
		}
		n, ok := intLit(idx)
		if !ok {
			unsup("variable index into array")
		}
		np := *s
		np.CP = append(append([]int{}, s.CP...), n)
		np.T = arrT.Elem()
		return &np
	case *VarSl:
		if n, ok := intLit(idx); ok && n < len(s.Elems) {
			c := newCell("vararg", s.Elem)
			st.cells[c] = s.Elems[n]
			return &Ptr{Kind: "cell", Cell: c, T: s.Elem}
		}
		v = x.materialise(s, st)
	}
	s, ok := v.(*Tup)
	if !ok {
		unsup("index of %T", v)
	}
	et := types.Unalias(i.X.Type()).Underlying().(*types.Slice).Elem()
	ref, off, ln := s.E[0].(*Term), s.E[1].(*Term), s.E[2].(*Term)
	x.oblige(st, "nopanic", "index "+desc(i.X), And(Le(IntT(0), idx), Lt(idx, ln)), i.Pos())
	return &Ptr{Kind: "elem", Base: ref, Idx: Add(off, idx), Root: typeKey(et), T: et}
}

func (x *Exec) lookup(fr *frame, i *ssa.Lookup, st *State) Value {
	v := x.val(fr, i.X, st)
	if t, ok := v.(*Term); ok && t.Sort == SStr {
		idx := x.term(x.val(fr, i.Index, st))
		x.oblige(st, "nopanic", "index "+desc(i.X), And(Le(IntT(0), idx), Lt(idx, sLen(t))), i.Pos())
		if t.Op == "str" {
			if n, ok := intLit(idx); ok && n >= 0 && n < len(t.Name) {
				return IntT(int64(t.Name[n]))
			}
		}
		r := App("s_at", SInt, t, idx)
		return r
	}
	mt := types.Unalias(i.X.Type()).Underlying().(*types.Map)
	k := x.toLeaves(x.val(fr, i.Index, st), mt.Key(), st)[0]
	r, has := x.mapGet(st, mt, x.term(v), k)
	if i.CommaOk {
		return &Tup{E: []Value{r, has}}
	}
	return r
}

// ifaceImplementers: tags of known types implementing the interface
func (x *Exec) implements(v *Term, it *types.Interface, itName string) *Term {
	if it.NumMethods() == 0 {
		return Not(Eq(v, VNil))
	}
	if v.Op == "cons" {
		if v == VNil {
			return False
		}
		if id, ok := intLit(v.Args[0]); ok && id >= 1 && id <= len(tagTypes) {
			return BoolT(types.Implements(tagTypes[id-1], it))
		}
	}
	if v.Op == "ite" {
		return Ite(v.Args[0], x.implements(v.Args[1], it, itName), x.implements(v.Args[2], it, itName))
	}
	tag := Ite(isCons_(v, "VR"), sel("vrt", v), Ite(isCons_(v, "VSl"), sel("vslt", v), IntT(0)))
	var cs []*Term
	for _, t := range x.P.implTypes(it) {
		cs = append(cs, Eq(tag, tagT(t)))
	}
	// types outside the package: unknown
	other := And(isCons_(v, "VR"), Lt(IntT(100000), tag), UF("impl:"+itName, SBool, tag))
	return Or(append(cs, other)...)
}

func (x *Exec) typeAssert(fr *frame, i *ssa.TypeAssert, st *State) Value {
	v := x.val(fr, i.X, st)
	at := i.AssertedType
	var ok *Term
	var res Value
	if it, isI := types.Unalias(at).Underlying().(*types.Interface); isI {
		if ifc, k := v.(*Ifc); k {
			ok = BoolT(types.Implements(ifc.T, it))
			res = v
		} else {
			t := x.term(v)
			ok = x.implements(t, it, typeKey(at))
			res = t
		}
		if i.CommaOk {
			return &Tup{E: []Value{x.iteVal(ok, res, x.zero(at), at), ok}}
		}
		x.oblige(st, "nopanic", "type-assert "+desc(i.X)+".("+typeKey(at)+")", ok, i.Pos())
		return res
	}
	if ifc, k := v.(*Ifc); k {
		same := types.Identical(ifc.T, at)
		ok = BoolT(same)
		if same {
			res = ifc.V
		} else {
			res = x.zero(at)
		}
	} else {
		t := x.term(v)
		ok = isType(t, at)
		res = x.unboxT(t, at)
	}
	if i.CommaOk {
		r := res
		if ok != True {
			r = x.iteVal(ok, res, x.zero(at), at)
		}
		x.unboxFacts(st, v, at, ok)
		return &Tup{E: []Value{r, ok}}
	}
	x.oblige(st, "nopanic", "type-assert "+desc(i.X)+".("+typeKey(at)+")", ok, i.Pos())
	x.unboxFacts(st, v, at, ok)
	return res
}

// unboxFacts: the payload of a well-typed interface value is well-typed
func (x *Exec) unboxFacts(st *State, v Value, at types.Type, ok *Term) {
	t, isT := v.(*Term)
	if !isT || t.Op == "cons" || !t.closed() {
		return
	}
	if lo, _ := intRange(at); lo != nil {
		x.assume(st, Implies(ok, inRange(sel("vi", t), at)))
	}
}

func (x *Exec) unboxT(t *Term, at types.Type) Value {
	c, _, _, vs := boxCons(at)
	switch c {
	case "VSl":
		return &Tup{E: []Value{sel("vslr", t), IntT(0), sel("vsll", t), sel("vslc", t)}}
	case "VR":
		if isStructLike(at) {
			ls := leaves(at)
			var ts []*Term
			for _, l := range ls {
				ts = append(ts, UF("unbox:"+typeKey(at)+l.Path, l.Sort, sel(vs, t)))
			}
			return fromLeaves(ts, at)
		}
		return sel(vs, t)
	}
	return sel(vs, t)
}

// ---------------------------------------------------------------- map iteration

func (x *Exec) rangeIter(fr *frame, i *ssa.Range, st *State) Value {
	mt, ok := types.Unalias(i.X.Type()).Underlying().(*types.Map)
	if !ok {
		unsup("range over string")
	}
	k := mapKeys(mt)
	m := x.term(x.val(fr, i.X, st))
	freshN++
	name := fmt.Sprintf("mapit%d", freshN)
	K := Var(name+".keys", SArr(SInt, k.ks))
	n := Select(st.get(k.ln), m)
	dom := Select(st.get(k.dom), m)
	posName := name + ".pos"
	j := BVar("j", SInt)
	kj := Select(K, j)
	pos := func(t *Term) *Term { return UF(posName, SInt, t) }
	AddAxiom(K, Forall([]*Term{j}, Implies(And(Le(IntT(0), j), Lt(j, n)), And(Select(dom, kj), Eq(pos(kj), j))), []*Term{kj}))
	kv := BVar("k", k.ks)
	// guard: nil map has an empty domain
	AddAxiom(K, Forall([]*Term{kv}, Implies(And(Not(Eq(m, IntT(0))), Select(dom, kv)), And(Le(IntT(0), pos(kv)), Lt(pos(kv), n), Eq(Select(K, pos(kv)), kv))), []*Term{pos(kv)}, []*Term{Select(dom, kv)}))
	for _, f := range []*Term{Le(IntT(0), n), Implies(Eq(m, IntT(0)), Eq(n, IntT(0)))} {
		x.assume(&State{}, f)
	}
	x.note("maps are not resized while being ranged over")
	c := newCell("mapiter", types.Typ[types.Int])
	st.cells[c] = IntT(0)
	return &MapIter{M: m, MT: mt, K: K, Pos: c, N: n, PosFn: posName, Dom: dom}
}

func (x *Exec) next(fr *frame, i *ssa.Next, st *State) Value {
	it, ok := x.val(fr, i.Iter, st).(*MapIter)
	if !ok || i.IsString {
		unsup("next over string")
	}
	pos := st.cells[it.Pos].(*Term)
	has := Lt(pos, it.N)
	key := Select(it.K, pos)
	v, _ := x.mapGet(st, it.MT, it.M, key)
	// inside the iteration the key is present
	k := mapKeys(it.MT)
	var ts []*Term
	for _, mm := range k.vals {
		ts = append(ts, Select(Select(st.get(mm), it.M), key))
	}
	v = fromLeaves(ts, it.MT.Elem())
	st.cells[it.Pos] = Add(pos, IntT(1))
	kk := fromLeaves([]*Term{key}, it.MT.Key())
	if li := x.loopOf(fr, i.Block()); li != nil {
		li.iter = it
	}
	return &Tup{E: []Value{has, kk, v}}
}

func (x *Exec) loopOf(fr *frame, b *ssa.BasicBlock) *LoopInst { return fr.insts[b] }

func sortedCells(m map[*CellID]Value) []*CellID {
	var out []*CellID
	for c := range m {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}
