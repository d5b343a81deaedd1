package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modT struct {
	guard *Term
	match func(m *keyMeta) bool
	ref   *Term // nil: every object
	desc  string
	glob  bool
	p     *Ptr
	t     types.Type
}

type clause struct {
	name   string
	guard  *Term
	clo    *Clo
	term   *Term
	define bool
	local  bool // not given to callers
	pos    token.Pos
}

type specCopy struct {
	m   *keyMeta
	ref *Term
	val *Term
}

// CE is an evaluated contract.
type CE struct {
	fn        *ssa.Function
	st        *State
	base      []*Term
	pre       *State
	requires  []clause
	ensures   []clause
	mods      []modT
	modTypes  map[string]bool
	trusted   bool
	modAny    bool
	noWrites  [][2]string // struct fields nothing reachable writes
	news      bool
	elems     []*Clo
	elemKeys  []*Clo
	loopInvs  []*Clo
	props     []string
	copies    []specCopy
	inline    map[string]bool
	pureFuncs bool
	hooks     bool // may fire hooks
	notes     []string
}

// volatile memory: the hook registry and the ghost count of fired hooks. It
// plays no part in any other property, so a change of it is not a new version
// of the model.
const volCtx, volGhost = "F:raml.RAML.ctx", "raml.ghostN"

func isVolatile(m *keyMeta) bool {
	return m.Key == volCtx || m.Kind == "glob" && m.Root == volGhost
}

func (md modT) volatile() bool { return md.desc == volCtx || md.glob && md.desc == volGhost }

// allowed: may the contract change the object r at key m?
func (ce *CE) allowed(m *keyMeta, r *Term) *Term {
	if ce.modAny {
		return True
	}
	if ce.modTypes[m.Root] || ce.hooks && isVolatile(m) {
		return True
	}
	var cs []*Term
	for _, md := range ce.mods {
		if md.match(m) {
			if md.ref == nil || r == nil {
				cs = append(cs, md.guard)
			} else {
				cs = append(cs, And(md.guard, Eq(r, md.ref)))
			}
		}
	}
	return Or(cs...)
}

func (ce *CE) pure() bool {
	return !ce.modAny && len(ce.modTypes) == 0 && len(ce.mods) == 0 && !ce.hooks
}

// evalContract runs the contract function on the arguments.
func (x *Exec) evalContract(c *ssa.Function, args []Value, st *State) *CE {
	ce := &CE{fn: c, pre: st.clone(), modTypes: map[string]bool{}, inline: map[string]bool{}, base: append([]*Term{}, st.pc...)}
	savedCE := x.ce
	savedStack := x.stack
	savedTop := x.top
	x.ce = ce
	x.spec++
	x.stack = nil
	s := st.clone()
	defer func() { x.ce = savedCE; x.spec--; x.stack = savedStack; x.top = savedTop }()
	if len(c.Params) < len(args) {
		args = args[:len(c.Params)]
	}
	_, out, ok := x.call(c, args, nil, s)
	if !ok {
		unsup("contract %s does not return", c.Name())
	}
	ce.st = out
	return ce
}

func (x *Exec) guardOf(st *State) *Term { return And(pcMinus(st.pc, x.ce.base)...) }

// clauseState is the state in which a clause of ce is evaluated: the memory of
// st plus the specification-only copies and variables of the contract.
func (x *Exec) clauseState(ce *CE, st *State) *State {
	s := st.clone()
	if ce.st != nil {
		for c, v := range ce.st.cells {
			if _, ok := s.cells[c]; !ok {
				s.cells[c] = v
			}
		}
	}
	for _, cp := range ce.copies {
		s.set(cp.m, Store(s.get(cp.m), cp.ref, cp.val))
	}
	return s
}

// evalClause evaluates a clause closure in st with the given results.
func (x *Exec) evalClause(ce *CE, cl *Clo, res []Value, st *State) (*Term, []*Term) {
	x.spec++
	savedStack := x.stack
	savedCE := x.ce
	x.stack = nil
	x.ce = ce
	defer func() { x.spec--; x.stack = savedStack; x.ce = savedCE }()
	s := x.clauseState(ce, st)
	fn := cl.Fn.(*ssa.Function)
	if len(fn.Params) == 0 {
		res = nil
	}
	if len(fn.Params) != len(res) {
		unsup("clause of %s expects %d results, function has %d", ce.fn.Name(), len(fn.Params), len(res))
	}
	v, out, ok := x.call(fn, res, cl.Bind, s)
	if !ok {
		return False, nil
	}
	_ = out
	return x.term(v), nil
}

func (x *Exec) results(v Value, sig *types.Signature) []Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return []Value{v}
	}
	return v.(*Tup).E
}

// applyContract replaces a call by the callee's contract.
func (x *Exec) applyContract(c *ssa.Function, name string, args []Value, sig *types.Signature, st *State, pos token.Pos) (Value, *State, bool) {
	for i, a := range args {
		if vs, ok := a.(*VarSl); ok {
			args[i] = x.materialise(vs, st)
		}
	}
	x.uses[c.Name()] = true
	ce := x.evalContract(c, args, st)
	for _, r := range ce.requires {
		if r.define {
			continue
		}
		g := Implies(r.guard, r.term)
		x.oblige(st, "requires", name+": "+r.name, g, pos)
	}
	if st.dead() {
		return nil, nil, false
	}
	pre := st.clone()
	x.havocMods(ce, st)
	res := x.freshVal("r_"+sanitize(name), resultOf(sig), st, true)
	for _, e := range ce.ensures {
		if e.local {
			continue
		}
		t, _ := x.evalClause(ce, e.clo, x.results(res, sig), st)
		x.assume(st, Implies(e.guard, t))
	}
	_ = pre
	return res, st, true
}

// havocMods forgets what the callee may modify.
func (x *Exec) havocMods(ce *CE, st *State) {
	if ce.modAny {
		old := st.clone()
		x.havocAll(st)
		for _, nw := range ce.noWrites {
			for _, k := range sortedKeys(keyTab) {
				m := keyTab[k]
				if m.Kind != "fld" || m.Root != "raml."+nw[0] || !(m.Key == "F:"+m.Root+"."+nw[1] || strings.HasPrefix(m.Key, "F:"+m.Root+"."+nw[1]+"_")) {
					continue
				}
				b := newBases("NW:", m.Group, st.alloc)[k]
				r := BVar("r", SInt)
				sel := Select(b, r)
				AddAxiom(b, Forall([]*Term{r}, Implies(And(Le(IntT(0), r), Lt(r, old.alloc)), Eq(sel, Select(old.get(m), r))), []*Term{sel}))
				st.set(m, b)
			}
		}
		return
	}
	old := st.clone()
	x.newAlloc(st)
	defer func() {
		for _, k := range sortedKeys(keyTab) {
			m := keyTab[k]
			if ce.hooks && isVolatile(m) {
				st.set(m, newBases("HK:", m.Group, st.alloc)[k])
				continue
			}
			if m.Kind != "glob" {
				continue
			}
			for _, md := range ce.mods {
				if md.glob && md.match(m) {
					st.set(m, Ite(md.guard, newBases("M:", m.Group, st.alloc)[k], old.get(m)))
				}
			}
		}
	}()
	if anyNilRef(ce.mods) {
		e := newEpoch("frame", st.alloc)
		e.pre = old
		e.keep = func(m *keyMeta) bool {
			if ce.modTypes[m.Root] {
				return false
			}
			for _, md := range ce.mods {
				if md.match(m) {
					return false
				}
			}
			// any key of the same group?
			for _, k := range groupTab[m.Group] {
				mm := keyTab[k]
				for _, md := range ce.mods {
					if md.match(mm) {
						return false
					}
				}
			}
			return true
		}
		e.frame = func(m *keyMeta, nw, o *Term, pre *State) *Term {
			if ce.modTypes[m.Root] {
				return True
			}
			return x.frameGoal(m, nw, o, func(r *Term) *Term {
				return And(Le(IntT(0), r), Lt(r, old.alloc), Not(ce.allowed(m, r)))
			})
		}
		st.epoch = e
		st.heap = map[string]*Term{}
		st.ver = Fresh("ver", SInt)
		if ce.touchesData() {
			st.dver = Fresh("dver", SInt)
		}
		return
	}
	bump := len(ce.modTypes) > 0
	groups := map[string]bool{}
	for _, m := range keyTab {
		if ce.modTypes[m.Root] && m.Kind != "glob" {
			groups[m.Group] = true
		}
	}
	for _, g := range sortedKeys(groups) {
		bs := newBases("M:", g, st.alloc)
		for _, k := range sortedKeys(bs) {
			st.set(keyTab[k], bs[k])
		}
	}
	for _, md := range ce.mods {
		bump = bump || !md.volatile()
		if !md.glob {
			x.havocTarget(md, st)
		}
	}
	if bump {
		st.ver = Fresh("ver", SInt)
		if ce.touchesData() {
			st.dver = Fresh("dver", SInt)
		}
	}
}

// touchesData: plain data memory may change.
func (ce *CE) touchesData() bool {
	for _, m := range keyTab {
		if !isDataGroup(m.Group) {
			continue
		}
		if ce.modTypes[m.Root] {
			return true
		}
		for _, md := range ce.mods {
			if md.match(m) {
				return true
			}
		}
	}
	return false
}

func anyNilRef(ms []modT) bool {
	for _, m := range ms {
		if m.ref == nil && !m.glob {
			return true
		}
	}
	return false
}

// havocTarget gives one object arbitrary well-formed contents.
func (x *Exec) havocTarget(md modT, st *State) {
	groups := map[string]bool{}
	for _, k := range sortedKeys(keyTab) {
		if md.match(keyTab[k]) {
			groups[keyTab[k].Group] = true
		}
	}
	for _, g := range sortedKeys(groups) {
		bs := newBases("M:", g, st.alloc)
		for _, k := range sortedKeys(bs) {
			m := keyTab[k]
			if !md.match(m) || m.L.Kind == "soff" {
				continue
			}
			h := st.get(m)
			nv := Select(bs[k], md.ref)
			if md.guard != True {
				nv = Ite(md.guard, nv, Select(h, md.ref))
			}
			st.set(m, Store(h, md.ref, nv))
		}
	}
}

// modTarget turns an argument of vModifies into a description of memory.
func (x *Exec) modTarget(v Value, t types.Type, guard *Term, st *State) []modT {
	switch p := v.(type) {
	case *Ifc:
		return x.modTarget(p.V, p.T, guard, st)
	case *Ptr:
		if p.Kind == "glob" {
			globKeys(p.Root, p.T)
			return []modT{{guard: guard, glob: true, desc: p.Root, match: func(m *keyMeta) bool { return m.Kind == "glob" && m.Root == p.Root }}}
		}
		if p.Kind != "fld" {
			unsup("vModifies of a %s pointer", p.Kind)
		}
		fldKeys(p.Root, p.Path, p.T)
		pre := "F:" + p.Root + p.Path
		ref := p.Base
		return []modT{{guard: guard, ref: ref, desc: pre, match: func(m *keyMeta) bool {
			return m.Kind == "fld" && m.Root == p.Root && (m.Key == pre || strings.HasPrefix(m.Key, pre+".") || strings.HasPrefix(m.Key, pre+"#"))
		}}}
	case *Term:
		if p.Sort == SVal {
			unsup("vModifies of an interface value; convert it to its concrete type")
		}
		guard = And(guard, Not(Eq(p, IntT(0))))
		if n, ok := isOM(t); ok {
			k := omKeys(n)
			return []modT{{guard: guard, ref: p, desc: k.root, match: func(m *keyMeta) bool {
				return strings.HasPrefix(m.Kind, "om") && m.Root == k.root
			}}}
		}
		if mt, ok := types.Unalias(t).Underlying().(*types.Map); ok {
			k := mapKeys(mt)
			return []modT{{guard: guard, ref: p, desc: k.dom.Root, match: func(m *keyMeta) bool {
				return strings.HasPrefix(m.Kind, "map") && m.Root == k.dom.Root
			}}}
		}
		if pt, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
			root := typeKey(pt.Elem())
			fldKeys(root, "", pt.Elem())
			return []modT{{guard: guard, ref: p, desc: root, match: func(m *keyMeta) bool { return m.Kind == "fld" && m.Root == root }}}
		}
	case *Tup:
		if isSlice(t) {
			et := types.Unalias(t).Underlying().(*types.Slice).Elem()
			root := typeKey(et)
			elemKeys(root, "", et)
			guard = And(guard, Not(Eq(p.E[0].(*Term), IntT(0))))
			return []modT{{guard: guard, ref: p.E[0].(*Term), desc: "[]" + root, match: func(m *keyMeta) bool { return m.Kind == "elem" && m.Root == root }}}
		}
	}
	unsup("vModifies of %T (%s)", v, t)
	return nil
}

func (x *Exec) strArg(v Value) string {
	t := x.term(v)
	if t.Op != "str" {
		unsup("name argument must be a constant string")
	}
	return t.Name
}

func (x *Exec) varArgs(v Value, st *State) []Value {
	switch s := v.(type) {
	case *VarSl:
		return s.Elems
	case *Tup:
		if r, ok := s.E[0].(*Term); ok && r.Op == "int" && r.Val.Sign() == 0 {
			return nil
		}
	}
	unsup("variadic specification arguments must be listed")
	return nil
}

func closOf(v Value) *Clo {
	switch c := v.(type) {
	case *Clo:
		return c
	case *Ifc:
		return closOf(c.V)
	}
	unsup("expected a function literal")
	return nil
}

// evalQ evaluates a closure body at a (bound) argument in a throwaway state.
func (x *Exec) evalQ(c *Clo, st *State, args ...Value) *Term {
	s := st.clone()
	n := len(s.pc)
	_ = n
	v, _, ok := x.call(c.Fn.(*ssa.Function), args, c.Bind, s)
	if !ok {
		return True
	}
	return x.term(v)
}

// intrinsic interprets the specification vocabulary.
func (x *Exec) intrinsic(nm string, f *ssa.Function, args []Value, st *State, pos token.Pos) (Value, *State, bool) {
	unit := &Tup{}
	switch nm {
	case "vProp":
		if x.ce != nil {
			for _, a := range x.varArgs(args[0], st) {
				x.ce.props = append(x.ce.props, x.strArg(a))
			}
		}
		return unit, st, true
	case "vInline":
		for _, a := range x.varArgs(args[0], st) {
			x.ce.inline[x.strArg(a)] = true
		}
		return unit, st, true
	case "vPureFuncs":
		x.ce.pureFuncs = true
		return unit, st, true
	case "vNote":
		return unit, st, true
	case "vTrust": // an assumed contract: used at calls, not verified
		x.ce.trusted = true
		x.note("ASSUMED contract, body not verified: %s (%s)", strings.TrimPrefix(x.ce.fn.Name(), "contract_"), x.strArg(args[0]))
		return unit, st, true
	case "vRequires":
		x.ce.requires = append(x.ce.requires, clause{name: x.strArg(args[0]), guard: x.guardOf(st), term: x.term(args[1]), pos: pos})
		return unit, st, true
	case "vInvariant": // established elsewhere: assumed on entry, not asked of callers
		x.ce.requires = append(x.ce.requires, clause{name: x.strArg(args[0]), guard: x.guardOf(st), term: x.term(args[1]), pos: pos, define: true})
		return unit, st, true
	case "vEnsures", "vDefine", "vProve":
		x.ce.ensures = append(x.ce.ensures, clause{name: x.strArg(args[0]), guard: x.guardOf(st), clo: closOf(args[1]), define: nm == "vDefine", local: nm == "vProve", pos: pos})
		return unit, st, true
	case "vModifies":
		for _, a := range x.varArgs(args[0], st) {
			x.ce.mods = append(x.ce.mods, x.modTarget(a, nil, x.guardOf(st), st)...)
		}
		return unit, st, true
	case "vModifiesType":
		t := f.TypeArgs()[0]
		if n, ok := isOM(t); ok {
			x.ce.modTypes[omKeys(n).root] = true
		} else if mt, ok := types.Unalias(t).Underlying().(*types.Map); ok {
			x.ce.modTypes[mapKeys(mt).dom.Root] = true
		} else if sl, ok := types.Unalias(t).Underlying().(*types.Slice); ok {
			x.ce.modTypes[typeKey(sl.Elem())] = true
			elemKeys(typeKey(sl.Elem()), "", sl.Elem())
			if _, ok := types.Unalias(sl.Elem()).Underlying().(*types.Struct); ok {
				fldKeys(typeKey(sl.Elem()), "", sl.Elem())
			}
		} else {
			x.ce.modTypes[typeKey(t)] = true
			elemKeys(typeKey(t), "", t)
			if _, ok := types.Unalias(t).Underlying().(*types.Struct); ok {
				fldKeys(typeKey(t), "", t)
			}
		}
		return unit, st, true
	case "vHooks":
		x.ce.hooks = true
		if o := x.P.tpkg.Scope().Lookup("ghostN"); o != nil {
			globKeys(volGhost, o.Type())
		}
		if o := x.P.tpkg.Scope().Lookup("RAML"); o != nil {
			if s, ok := o.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == "ctx" {
						fldKeys("raml.RAML", ".ctx", s.Field(i).Type())
					}
				}
			}
		}
		return unit, st, true
	case "vDecOK", "vIsDec":
		t := f.TypeArgs()[0]
		tk := typeKey(t)
		if nm == "vDecOK" {
			return Eq(UF("yaml.DecErr:"+tk, SVal, x.term(args[0])), VNil), st, true
		}
		node := x.term(args[1])
		w := x.decoded(t, args[2], node)
		a, b := x.toLeaves(args[0], t, st), x.toLeaves(w, t, st)
		var cs []*Term
		for i := range a {
			cs = append(cs, Eq(a[i], b[i]))
		}
		return And(append(cs, Eq(UF("yaml.DecErr:"+tk, SVal, node), VNil))...), st, true
	case "vNoWrites":
		typ, field := x.strArg(args[0]), x.strArg(args[1])
		if o := x.P.tpkg.Scope().Lookup(typ); o != nil {
			if s, ok := o.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == field {
						fldKeys("raml."+typ, "."+field, s.Field(i).Type())
					}
				}
			}
		}
		x.ce.noWrites = append(x.ce.noWrites, [2]string{typ, field})
		return unit, st, true
	case "vModifiesAny":
		x.ce.modAny = true
		return unit, st, true
	case "vElem":
		x.ce.elems = append(x.ce.elems, closOf(args[0]))
		return unit, st, true
	case "vElemKey":
		x.ce.elemKeys = append(x.ce.elemKeys, closOf(args[0]))
		return unit, st, true
	case "vLoopInv":
		x.ce.loopInvs = append(x.ce.loopInvs, closOf(args[0]))
		return unit, st, true
	case "vForAll", "vExists":
		lo, hi := x.term(args[0]), x.term(args[1])
		j := BVar("q", SInt)
		b := x.evalQ(closOf(args[2]), st, j)
		rng := And(Le(lo, j), Lt(j, hi))
		if nm == "vForAll" {
			return Forall([]*Term{j}, Implies(rng, b)), st, true
		}
		return Exists([]*Term{j}, And(rng, b)), st, true
	case "vForAllKeys", "vExistsKey":
		mt := types.Unalias(f.Signature.Params().At(0).Type()).Underlying().(*types.Map)
		mm := x.term(args[0])
		if ents := x.P.gmap(mm); ents != nil {
			r := BoolT(nm == "vForAllKeys")
			for _, e := range ents {
				b := x.evalQ(closOf(args[1]), st, e.key)
				if nm == "vForAllKeys" {
					r = And(r, b)
				} else {
					r = Or(r, b)
				}
			}
			return r, st, true
		}
		k := mapKeys(mt)
		q := BVar("q", k.ks)
		has := And(Not(Eq(mm, IntT(0))), Select(Select(st.get(k.dom), mm), q))
		b := x.evalQ(closOf(args[1]), st, q)
		if nm == "vForAllKeys" {
			return Forall([]*Term{q}, Implies(has, b)), st, true
		}
		return Exists([]*Term{q}, And(has, b)), st, true
	case "vForAllStr", "vForAllRef", "vForAllVal", "vForAllInt":
		srt := map[string]string{"vForAllStr": SStr, "vForAllRef": SInt, "vForAllVal": SVal, "vForAllInt": SInt}[nm]
		q := BVar("q", srt)
		b := x.evalQ(closOf(args[len(args)-1]), st, q)
		if nm == "vForAllRef" {
			b = Implies(And(Le(IntT(1), q), Lt(q, st.alloc)), b)
		}
		return Forall([]*Term{q}, b), st, true
	case "vFresh": // allocated during the call
		pre := x.pre
		if x.ce != nil && x.ce.pre != nil {
			pre = x.ce.pre
		}
		r := x.refOf(args[0], st)
		return And(Le(pre.alloc, r), Lt(r, st.alloc)), st, true
	case "vSame", "vSameData": // same object / same value without inspection
		a, b := args[0], args[1]
		t := f.Signature.Params().At(0).Type()
		la, lb := x.toLeaves(a, t, st), x.toLeaves(b, t, st)
		var cs []*Term
		for i := range la {
			cs = append(cs, Eq(la[i], lb[i]))
		}
		return And(cs...), st, true
	case "vOMLen":
		k := x.omArg(f)
		return Ite(Eq(x.term(args[0]), IntT(0)), IntT(0), Select(st.get(k.ln), x.term(args[0]))), st, true
	case "vOMKey":
		k := x.omArg(f)
		return Select(Select(st.get(k.key), x.term(args[0])), x.term(args[1])), st, true
	case "vOMVal":
		k := x.omArg(f)
		var ts []*Term
		for _, m := range k.vals {
			ts = append(ts, Select(Select(st.get(m), x.term(args[0])), x.term(args[1])))
		}
		return fromLeaves(ts, k.vt), st, true
	case "vOMIdx":
		k := x.omArg(f)
		return Ite(Eq(x.term(args[0]), IntT(0)), IntT(-1), Select(Select(st.get(k.idx), x.term(args[0])), x.term(args[1]))), st, true
	case "vOMHas":
		k := x.omArg(f)
		return And(Not(Eq(x.term(args[0]), IntT(0))), Le(IntT(0), Select(Select(st.get(k.idx), x.term(args[0])), x.term(args[1])))), st, true
	case "vOMGet":
		k := x.omArg(f)
		v, _ := x.omGet(st, k, x.term(args[0]), x.term(args[1]))
		return v, st, true
	case "vVisited": // the keys a range loop over a map has handled so far
		it := x.curIter
		if it == nil {
			unsup("vVisited outside a loop over a map")
		}
		kt := x.toLeaves(args[0], it.MT.Key(), st)[0]
		pos := UF(it.PosFn, SInt, kt)
		return And(Select(it.Dom, kt), Eq(Select(it.K, pos), kt), Lt(pos, x.curK)), st, true
	case "vHasKey":
		mt := types.Unalias(f.Signature.Params().At(0).Type()).Underlying().(*types.Map)
		_, has := x.mapGet(st, mt, x.term(args[0]), x.term(args[1]))
		return has, st, true
	case "vSnapOM":
		k := x.omArg(f)
		r := x.newRef(st)
		src := x.term(args[0])
		for _, m := range append([]*keyMeta{k.ln, k.key, k.idx}, k.vals...) {
			x.specCopy(st, m, r, Select(st.get(m), src))
		}
		return Ite(Eq(src, IntT(0)), IntT(0), r), st, true
	case "vSnapMap":
		mt := types.Unalias(f.Signature.Params().At(0).Type()).Underlying().(*types.Map)
		k := mapKeys(mt)
		r := x.newRef(st)
		src := x.term(args[0])
		for _, m := range append([]*keyMeta{k.ln, k.dom}, k.vals...) {
			x.specCopy(st, m, r, Select(st.get(m), src))
		}
		return Ite(Eq(src, IntT(0)), IntT(0), r), st, true
	case "vSnapSlice":
		et := types.Unalias(f.Signature.Params().At(0).Type()).Underlying().(*types.Slice).Elem()
		ref, off, ln, cp := x.asSlice(args[0], st)
		r := x.newRef(st)
		for _, m := range elemKeys(typeKey(et), "", et) {
			x.specCopy(st, m, r, Select(st.get(m), ref))
		}
		return &Tup{E: []Value{Ite(Eq(ref, IntT(0)), IntT(0), r), off, ln, cp}}, st, true
	case "vSnapPtr": // copy of the struct pointed to
		et := ptrElem(f.Signature.Params().At(0).Type())
		r := x.newRef(st)
		src := x.term(args[0])
		for _, m := range fldKeys(typeKey(et), "", et) {
			if m.L.Kind == "soff" {
				continue
			}
			x.specCopy(st, m, r, Select(st.get(m), src))
		}
		return Ite(Eq(src, IntT(0)), IntT(0), r), st, true
	case "vOld": // evaluate in the pre-state
		s := x.clauseState(x.ce, x.ce.pre)
		v, _, ok := x.call(closOf(args[0]).Fn.(*ssa.Function), nil, closOf(args[0]).Bind, s)
		if !ok {
			unsup("vOld does not return")
		}
		return v, st, true
	case "vImplies":
		return Implies(x.term(args[0]), x.term(args[1])), st, true
	case "vIff":
		return Eq(x.term(args[0]), x.term(args[1])), st, true
	case "vTrunc":
		return App("f_trunc", SFlt, x.term(args[0])), st, true
	case "vIntEqFloat", "vUintEqFloat": // mathematical equality of an integer and a float
		return x.intEqFlt(x.term(args[0]), x.term(args[1])), st, true
	case "vIntLeFloat":
		return x.intCmpFlt(x.term(args[0]), x.term(args[1]), true), st, true
	case "vFloatLeInt":
		return x.intCmpFlt(x.term(args[1]), x.term(args[0]), false), st, true
	case "vIsWhole":
		fl := x.term(args[0])
		return And(mk("app", SBool, "(_ is FFin)", fl), Eq(App("f_trunc", SFlt, fl), fl)), st, true
	case "vBigLeFloat":
		return x.intCmpFlt(x.bigVal(args[0], st), x.term(args[1]), true), st, true
	case "vFloatLeBig":
		return x.intCmpFlt(x.bigVal(args[1], st), x.term(args[0]), false), st, true // f <= b
	case "vBigLeBig":
		return Le(x.bigVal(args[0], st), x.bigVal(args[1], st)), st, true
	case "vBigEq":
		return Eq(x.bigVal(args[0], st), x.bigVal(args[1], st)), st, true
	case "vBigLeInt":
		return Le(x.bigVal(args[0], st), x.term(args[1])), st, true
	case "vIntLeBig":
		return Le(x.term(args[0]), x.bigVal(args[1], st)), st, true
	case "vBigLeUint":
		return Le(x.bigVal(args[0], st), x.term(args[1])), st, true
	case "vUintLeBig":
		return Le(x.term(args[0]), x.bigVal(args[1], st)), st, true
	case "vIntEqUint":
		return Eq(x.term(args[0]), x.term(args[1])), st, true
	case "vIsNum":
		return isFinOrInf(x.numOf(args[0], f, 0, st)), st, true
	case "vNumIsInt":
		n := x.numOf(args[0], f, 0, st)
		return And(isFin(n), Eq(App("f_trunc", SFlt, n), n)), st, true
	case "vNumLe":
		return App("f_le", SBool, x.numOf(args[0], f, 0, st), x.numOf(args[1], f, 1, st)), st, true
	case "vNumEq":
		return App("f_eq", SBool, x.numOf(args[0], f, 0, st), x.numOf(args[1], f, 1, st)), st, true
	case "vHash64":
		return x.hash64(x.term(args[0])), st, true
	case "vComparable": // dynamic type supports ==
		return Not(x.uncomparable(x.term(args[0]))), st, true
	case "vRefID":
		return x.refOf(args[0], st), st, true
	case "vFuncID":
		if i, ok := args[0].(*Ifc); ok { // the function, whatever its named type
			return x.term(i.V), st, true
		}
		return x.term(args[0]), st, true
	case "vWasAllocated":
		return Lt(x.refOf(args[0], st), x.pre.alloc), st, true
	case "vDynType":
		v := x.term(args[0])
		return Ite(isCons_(v, "VR"), sel("vrt", v), Ite(isCons_(v, "VSl"), sel("vslt", v), Ite(isCons_(v, "VI"), sel("vit", v), Ite(isCons_(v, "VS"), sel("vst", v), Ite(isCons_(v, "VB"), sel("vbt", v), Ite(isCons_(v, "VF"), sel("vft", v), IntT(0))))))), st, true
	}
	if strings.HasPrefix(nm, "v") && len(nm) > 1 && nm[1] >= 'A' && nm[1] <= 'Z' && nm != "vValid" {
		if len(f.Blocks) == 0 {
			unsup("unknown specification primitive %s", nm)
		}
	}
	return nil, nil, false
}

func (x *Exec) specCopy(st *State, m *keyMeta, r, val *Term) {
	st.set(m, Store(st.get(m), r, val))
	if x.ce != nil {
		x.ce.copies = append(x.ce.copies, specCopy{m, r, val})
	}
}

func (x *Exec) bigVal(v Value, st *State) *Term {
	p := x.ptrOf(v, x.P.bigInt())
	return x.load(st, p, x.P.bigInt()).(*Term)
}

func (p *Prog) bigInt() types.Type   { return p.bigT("Int") }
func (p *Prog) bigFloat() types.Type { return p.bigT("Float") }

func (p *Prog) bigT(n string) types.Type {
	for _, imp := range allImports(p.tpkg, map[*types.Package]bool{}) {
		if imp.Path() == "math/big" {
			return imp.Scope().Lookup(n).Type()
		}
	}
	unsup("math/big not imported")
	return nil
}

func isFinOrInf(f *Term) *Term { return Not(Eq(f, Cons("FNaN", SFlt))) }

// numOf is the exact numeric value of a specification argument (NaN: not a number).
func (x *Exec) numOf(v Value, f *ssa.Function, i int, st *State) *Term {
	t := f.Signature.Params().At(i).Type()
	if ifc, ok := v.(*Ifc); ok {
		t, v = ifc.T, ifc.V
	}
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		switch ghostStruct(p.Elem()) {
		case "big":
			return Cons("FFin", SFlt, toReal(x.bigVal(v, st)))
		case "bigf":
			return x.load(st, x.ptrOf(v, p.Elem()), p.Elem()).(*Term)
		}
	}
	if b, ok := types.Unalias(t).Underlying().(*types.Basic); ok {
		if b.Info()&types.IsInteger != 0 {
			return Cons("FFin", SFlt, toReal(x.term(v)))
		}
		if b.Info()&types.IsFloat != 0 {
			return x.term(v)
		}
	}
	tm := x.term(v)
	if tm.Sort != SVal {
		unsup("number expected")
	}
	isT := func(k types.BasicKind) *Term { return isType(tm, types.Typ[k]) }
	ints := Or(isT(types.Int), isT(types.Int64), isT(types.Uint), isT(types.Uint64))
	return Ite(ints, Cons("FFin", SFlt, toReal(sel("vi", tm))), Ite(isT(types.Float64), sel("vf", tm), Cons("FNaN", SFlt)))
}

func toReal(i *Term) *Term { return mk("app", SReal, "to_real", i) }
func frOf(f *Term) *Term   { return mk("app", SReal, "fr", f) }
func isFin(f *Term) *Term  { return mk("app", SBool, "(_ is FFin)", f) }
func isK(k string, f *Term) *Term {
	return mk("app", SBool, "(_ is "+k+")", f)
}

func (x *Exec) intEqFlt(i, f *Term) *Term {
	return And(isFin(f), mk("=", SBool, "", toReal(i), frOf(f)))
}

// intCmpFlt: i <= f (le) or f <= i
func (x *Exec) intCmpFlt(i, f *Term, le bool) *Term {
	if le {
		return Or(isK("FPInf", f), And(isFin(f), mk("<=", SBool, "", toReal(i), frOf(f))))
	}
	return Or(isK("FNInf", f), And(isFin(f), mk("<=", SBool, "", frOf(f), toReal(i))))
}

func (x *Exec) refOf(v Value, st *State) *Term {
	switch t := v.(type) {
	case *Term:
		if t.Sort == SVal {
			return sel("vr", t)
		}
		return t
	case *Ifc:
		return x.refOf(t.V, st)
	case *Tup:
		return t.E[0].(*Term)
	case *Ptr:
		if t.Kind == "fld" {
			return t.Base
		}
	}
	unsup("refOf %T", v)
	return nil
}

func (x *Exec) omArg(f *ssa.Function) *omKeysT {
	n, ok := isOM(f.Signature.Params().At(0).Type())
	if !ok {
		unsup("%s needs an ordered map", f.Name())
	}
	return omKeys(n)
}

// ---------------------------------------------------------------- verification

type FnReport struct {
	Contract string   `json:"contract"`
	Function string   `json:"function"`
	Pos      string   `json:"pos"`
	Props    []string `json:"props"`
	Obls     []OblRep `json:"obligations"`
	Invs     int      `json:"invariants_proved"`
	InvTried int      `json:"invariants_tried"`
	InvNames []string `json:"invariant_names,omitempty"`
	Loops    int      `json:"loops"`
	Error    string   `json:"error,omitempty"`
	Notes    []string `json:"notes,omitempty"`
	Defines  []string `json:"defines,omitempty"`
	Uses     []string `json:"uses,omitempty"`
	Secs     float64  `json:"secs"`
	SolverS  float64  `json:"solver_secs"`
	Calls    int      `json:"solver_calls"`
	Vacuous  bool     `json:"vacuous,omitempty"`
}

type OblRep struct {
	Kind   string `json:"kind"`
	Name   string `json:"name"`
	Pos    string `json:"pos"`
	Status string `json:"status"`
	Solver string `json:"solver"`
	OK     bool   `json:"ok"`
	Millis int64  `json:"ms"`
}

// build symbolically executes the function and collects obligations.
func (x *Exec) build(c *Contract) {
	st := &State{heap: map[string]*Term{}, cells: map[*CellID]Value{}}
	a0 := Fresh("alloc0", SInt)
	allocVars[a0.ID] = true
	AddAxiom(a0, Le(IntT(1), a0))
	st.alloc = a0
	st.epoch = newEpoch("init", a0)
	st.ver = Fresh("ver0", SInt)
	st.dver = Fresh("dver0", SInt)
	var args []Value
	for _, p := range c.Target.Params {
		args = append(args, x.freshVal(p.Name(), p.Type(), st, true))
	}
	x.pre = st.clone()
	ce := x.evalContract(c.Fn, args, st)
	for _, nw := range ce.noWrites {
		w := x.P.writerOf(c.Target, nw[0], nw[1])
		o := &Obl{Name: fmt.Sprintf("no reachable function writes %s.%s", nw[0], nw[1]), Kind: "frame", Clause: "no writes", Goal: BoolT(w == ""), PC: True, Pos: x.P.pos(c.Target.Pos())}
		if w != "" {
			o.Name += " (" + w + ")"
		}
		x.obls = append(x.obls, o)
	}
	if ce.trusted {
		x.top = ce
		return
	}
	// contract evaluation must not disturb the real state
	for _, r := range ce.requires {
		if r.define {
			x.note("data invariant assumed on entry: %s", r.name)
		}
		x.assume(&State{}, Implies(r.guard, r.term))
		if r.guard == True {
			st.addPC(r.term)
		}
	}
	x.pre = st.clone()
	x.obls = append(x.obls, &Obl{Name: "preconditions satisfiable", Kind: "reach", Clause: "reach", PC: st.PC(), Goal: False, NAssum: len(x.assum)})
	ifc := x.ifaceContracts(c, args, st)
	x.top = ce
	x.calls = 0
	rets := x.run(c.Target, args, nil, st.clone())
	nEns := 0
	for _, e := range ce.ensures {
		if !e.define {
			nEns++
		}
	}
	for _, r := range rets {
		if r.St.dead() {
			continue
		}
		var rv []Value
		rt := c.Target.Signature.Results()
		for i, v := range r.Vals {
			if vs, ok := v.(*VarSl); ok {
				v = x.materialise(vs, r.St)
			}
			_ = rt.At(i)
			rv = append(rv, v)
		}
		x.ensuresObls(ce, rv, r, "")
		x.frameObls(ce, r)
		for _, ic := range ifc {
			x.ensuresObls(ic, rv, r, "interface: ")
			x.frameObls(ic, r)
		}
	}
	x.finalizeLoops()
}

func (x *Exec) ensuresObls(ce *CE, rv []Value, r Ret, pre string) {
	for _, e := range ce.ensures {
		if e.define {
			continue
		}
		t, _ := x.evalClause(ce, e.clo, rv, r.St)
		g := Implies(e.guard, t)
		goals := splitGoal(g, 48)
		for gi, gg := range goals {
			if gg == True {
				continue
			}
			nm := pre + e.name
			if len(goals) > 1 {
				nm = fmt.Sprintf("%s.%d", e.name, gi+1)
			}
			x.obls = append(x.obls, &Obl{Name: nm, Kind: "ensures", Clause: e.name, PC: r.St.PC(), Goal: gg, NAssum: len(x.assum), Pos: x.P.pos(r.Pos)})
		}
		if len(goals) == 1 && goals[0] == True {
			x.obls = append(x.obls, &Obl{Name: pre + e.name, Kind: "ensures", Clause: e.name, PC: r.St.PC(), Goal: True, NAssum: len(x.assum), Pos: x.P.pos(r.Pos), OK: true, Res: SolveResult{Status: "unsat", Solver: "simplify"}})
		}
	}
}

// ifaceContracts: contracts of the interface methods the target implements.
func (x *Exec) ifaceContracts(c *Contract, args []Value, st *State) []*CE {
	var out []*CE
	recv := c.Target.Signature.Recv()
	if recv == nil {
		return nil
	}
	for _, k := range sortedKeys(x.P.ifaceC) {
		i := strings.LastIndex(k, ".")
		if k[i+1:] != c.Target.Name() {
			continue
		}
		o := x.P.tpkg.Scope().Lookup(k[:i])
		if o == nil {
			continue
		}
		it, ok := o.Type().Underlying().(*types.Interface)
		if !ok || !types.Implements(recv.Type(), it) {
			continue
		}
		as := append([]Value{&Ifc{T: recv.Type(), V: args[0]}}, args[1:]...)
		out = append(out, x.evalContract(x.P.ifaceC[k], as, st))
	}
	return out
}

func (x *Exec) frameObls(ce *CE, r Ret) {
	if ce.modAny {
		return
	}
	bad := epochLeak(r.St.epoch, x.pre.epoch, map[*Epoch]bool{})
	if bad != "" {
		x.obls = append(x.obls, &Obl{Name: "frame (" + bad + ")", Kind: "frame", Clause: "frame", PC: r.St.PC(), Goal: False, NAssum: len(x.assum), Pos: x.P.pos(r.Pos)})
	}
	var goals []*Term
	var names []string
	for _, k := range sortedKeys(keyTab) {
		m := keyTab[k]
		nw, old := r.St.get(m), x.pre.get(m)
		if nw == old || ce.modTypes[m.Root] {
			continue
		}
		if m.Kind == "glob" {
			goals = append(goals, Or(ce.allowed(m, nil), Eq(nw, old)))
			names = append(names, k)
			continue
		}
		if ce.hooks && isVolatile(m) {
			continue
		}
		// strip stores to new or allowed objects
		if x.frameTrivial(ce, m, nw, old) {
			continue
		}
		goals = append(goals, x.frameGoal(m, nw, old, func(rr *Term) *Term {
			return And(Le(IntT(0), rr), Lt(rr, x.pre.alloc), Not(ce.allowed(m, rr)))
		}))
		names = append(names, k)
	}
	if len(goals) == 0 {
		x.obls = append(x.obls, &Obl{Name: "frame", Kind: "frame", Clause: "frame", PC: r.St.PC(), Goal: True, NAssum: len(x.assum), Pos: x.P.pos(r.Pos), OK: true, Res: SolveResult{Status: "unsat", Solver: "simplify"}})
		return
	}
	for i, g := range goals {
		x.obls = append(x.obls, &Obl{Name: "frame " + names[i], Kind: "frame", Clause: "frame", PC: r.St.PC(), Goal: g, NAssum: len(x.assum), Pos: x.P.pos(r.Pos)})
	}
}

// frameTrivial: nw differs from old only at new objects or allowed ones
func (x *Exec) frameTrivial(ce *CE, m *keyMeta, nw, old *Term) bool {
	seen := map[int]bool{}
	var rec func(t *Term, d int) bool
	rec = func(t *Term, d int) bool {
		if t == old || seen[t.ID] {
			return true
		}
		if d > 3000 {
			return false
		}
		ok := false
		switch t.Op {
		case "store":
			r := t.Args[1]
			ok = (x.newSince(r) || ce.allowed(m, r) == True) && rec(t.Args[0], d+1)
		case "ite":
			ok = rec(t.Args[1], d+1) && rec(t.Args[2], d+1)
		}
		if ok {
			seen[t.ID] = true
		}
		return ok
	}
	return rec(nw, 0)
}

// newSince: r is syntactically an address allocated after entry
func (x *Exec) newSince(r *Term) bool {
	b, c := splitOff(r)
	return b != nil && allocVars[b.ID] && c.Sign() >= 0
}

func epochLeak(e, pre *Epoch, seen map[*Epoch]bool) string {
	if e == pre || seen[e] {
		return ""
	}
	seen[e] = true
	switch e.kind {
	case "havoc":
		if e.onNew != nil || e.loop {
			return ""
		}
		return "unknown effect"
	case "frame":
		return epochLeak(e.pre.epoch, pre, seen)
	case "merge":
		for _, p := range e.parts {
			if r := epochLeak(p.epoch, pre, seen); r != "" {
				return r
			}
		}
	}
	return ""
}
