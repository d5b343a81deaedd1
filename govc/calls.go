package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func resultOf(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return types.NewTuple()
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (x *Exec) doCall(fr *frame, c *ssa.CallCommon, st *State, pos token.Pos, typ types.Type) (Value, *State, bool) {
	x.calls++
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, b, c, st, pos)
	}
	var args []Value
	if c.IsInvoke() {
		recv := x.val(fr, c.Value, st)
		for _, a := range c.Args {
			args = append(args, x.val(fr, a, st))
		}
		return x.invoke(recv, c.Value.Type(), c.Method, args, st, pos, desc(c.Value))
	}
	for _, a := range c.Args {
		args = append(args, x.val(fr, a, st))
	}
	if f := c.StaticCallee(); f != nil {
		var binds []Value
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			clo := x.val(fr, mc, st).(*Clo)
			binds = clo.Bind
		}
		return x.callFn(f, args, binds, st, pos)
	}
	fv := x.val(fr, c.Value, st)
	if clo, ok := fv.(*Clo); ok {
		return x.callFn(clo.Fn.(*ssa.Function), args, clo.Bind, st, pos)
	}
	return x.callUnknown(x.term(fv), c.Value.Type(), args, st, pos, desc(c.Value))
}

// callUnknown calls a function value whose target is not known.
func (x *Exec) callUnknown(fv *Term, ft types.Type, args []Value, st *State, pos token.Pos, what string) (Value, *State, bool) {
	x.oblige(st, "nopanic", "nil-func "+what, Not(Eq(fv, IntT(0))), pos)
	sig := types.Unalias(ft).Underlying().(*types.Signature)
	if n, ok := types.Unalias(ft).(*types.Named); ok {
		if c := x.P.fnTypeC[n.Obj().Name()]; c != nil {
			return x.applyContract(c, "func value "+n.Obj().Name(), append([]Value{fv}, args...), sig, st, pos)
		}
	}
	if x.spec > 0 {
		// a pure function value: uninterpreted in the function and its arguments
		as := []*Term{fv}
		for i, a := range args {
			as = append(as, x.toLeaves(a, sig.Params().At(i).Type(), st)...)
		}
		as = append(as, st.ver)
		return x.ufResult("callfn:"+typeKey(ft), resultOf(sig), as), st, true
	}
	if x.top != nil && x.top.pureFuncs {
		x.note("function values supplied by the caller are assumed not to modify the model (%s)", what)
		as := []*Term{fv}
		for i, a := range args {
			as = append(as, x.toLeaves(a, sig.Params().At(i).Type(), st)...)
		}
		as = append(as, st.ver)
		return x.ufResult("callfn:"+typeKey(ft), resultOf(sig), as), st, true
	}
	x.note("unknown function value %s: any effect", what)
	x.havocAll(st)
	return x.freshVal("ret", resultOf(sig), st, true), st, true
}

func (x *Exec) havocAll(st *State) {
	a := x.newAlloc(st)
	e := newEpoch("havoc", a)
	st.epoch = e
	st.heap = map[string]*Term{}
	st.ver = Fresh("ver", SInt)
	st.dver = Fresh("dver", SInt)
}

// newAlloc advances the allocation frontier by an unknown amount.
func (x *Exec) newAlloc(st *State) *Term {
	a := Fresh("alloc", SInt)
	allocVars[a.ID] = true
	AddAxiom(a, Le(st.alloc, a))
	allocLB[a.ID] = []*Term{st.alloc}
	r := BVar("r", SInt)
	g := UF("gen", SInt, r)
	AddAxiom(a, Forall([]*Term{r}, Implies(Lt(r, a), Le(g, a)), []*Term{g}))
	st.alloc = a
	return a
}

func (x *Exec) invoke(recv Value, rt types.Type, m *types.Func, args []Value, st *State, pos token.Pos, what string) (Value, *State, bool) {
	sig := m.Type().(*types.Signature)
	if ifc, ok := recv.(*Ifc); ok {
		if f := x.methodOf(ifc.T, m); f != nil {
			return x.callFn(f, append([]Value{ifc.V}, args...), nil, st, pos)
		}
		return x.extern(x.externName(ifc.T, m), nil, sig, append([]Value{ifc.V}, args...), st, pos)
	}
	v := x.term(recv)
	if v.Op == "cons" && v != VNil {
		if id, ok := intLit(v.Args[0]); ok && id >= 1 && id <= len(tagTypes) {
			t := tagTypes[id-1]
			if f := x.methodOf(t, m); f != nil {
				return x.callFn(f, append([]Value{x.unboxT(v, t)}, args...), nil, st, pos)
			}
		}
	}
	if x.spec == 0 {
		x.oblige(st, "nopanic", "nil-interface "+what+"."+m.Name(), Not(Eq(v, VNil)), pos)
	}
	iname := ""
	if n, ok := types.Unalias(rt).(*types.Named); ok {
		iname = n.Obj().Name()
		// method may come from an embedded interface
	}
	if x.spec == 0 {
		if c := x.P.ifaceC[iname+"."+m.Name()]; c != nil {
			return x.applyContract(c, iname+"."+m.Name(), append([]Value{recv}, args...), sig, st, pos)
		}
		if r := recvNamed(m); r != "" {
			if c := x.P.ifaceC[r+"."+m.Name()]; c != nil {
				return x.applyContract(c, r+"."+m.Name(), append([]Value{recv}, args...), sig, st, pos)
			}
		}
	}
	// interfaces of the package: the implementations are known
	if n, ok := types.Unalias(rt).(*types.Named); ok && n.Obj().Pkg() == x.P.tpkg {
		it := n.Underlying().(*types.Interface)
		return x.dispatch(v, it, iname, m, args, st, pos)
	}
	nm := "iface." + typeKey(rt) + "." + m.Name()
	return x.extern(nm, nil, sig, append([]Value{recv}, args...), st, pos)
}

func recvNamed(m *types.Func) string {
	r := m.Type().(*types.Signature).Recv()
	if r == nil {
		return ""
	}
	if n, ok := types.Unalias(r.Type()).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// dispatch splits on the dynamic type of v over the implementations in the package.
func (x *Exec) dispatch(v *Term, it *types.Interface, iname string, m *types.Func, args []Value, st *State, pos token.Pos) (Value, *State, bool) {
	x.note("implementations of interface %s are the ones in the package", iname)
	sig := m.Type().(*types.Signature)
	var sts []*State
	var vals []Value
	rest := st.clone()
	for _, t := range x.P.implTypes(it) {
		c := isType(v, t)
		if rest.decide(c) == -1 || c == False {
			continue
		}
		f := x.methodOf(t, m)
		if f == nil {
			continue
		}
		if !x.hasOwnMethod(t) {
			continue
		}
		s := rest.clone()
		s.addPC(c)
		if s.dead() {
			continue
		}
		r, s2, ok := x.callFn(f, append([]Value{x.unboxT(v, t)}, args...), nil, s, pos)
		rest.addPC(Not(c))
		if ok && !s2.dead() {
			sts = append(sts, s2)
			vals = append(vals, r)
		}
		if rest.dead() {
			break
		}
	}
	if len(sts) == 0 {
		return nil, nil, false
	}
	mst, conds := x.mergeStates(sts)
	rt := resultOf(sig)
	if sig.Results().Len() == 0 {
		return &Tup{}, mst, true
	}
	return x.iteVals(conds, vals, rt), mst, true
}

func (x *Exec) hasOwnMethod(t types.Type) bool {
	// skip value-receiver duplicates: only pointer types or plain non-struct named types
	if _, ok := types.Unalias(t).(*types.Pointer); ok {
		return true
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		return false
	}
	return true
}

func (x *Exec) methodOf(t types.Type, m *types.Func) *ssa.Function {
	s := x.P.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if s == nil {
		return nil
	}
	f := x.P.prog.MethodValue(s)
	if f == nil || len(f.Blocks) == 0 {
		return nil
	}
	return f
}

func (x *Exec) externName(t types.Type, m *types.Func) string {
	return "method." + typeKey(t) + "." + m.Name()
}

// callFn calls a statically known function.
func (x *Exec) callFn(f *ssa.Function, args []Value, binds []Value, st *State, pos token.Pos) (Value, *State, bool) {
	sig := f.Signature
	if x.P.inRepo(f) {
		root := f
		if o := f.Origin(); o != nil {
			root = o
		}
		if x.P.isContractFile(f) {
			nm := root.Name()
			if v, st2, ok := x.intrinsic(nm, f, args, st, pos); ok {
				return v, st2, st2 != nil
			}
			if strings.HasPrefix(nm, "U_") || strings.HasPrefix(nm, "UH_") {
				return x.uninterp(nm, f, args, st), st, true
			}
		}
		if x.spec == 0 {
			if c := x.P.contracts[f]; c != nil {
				if x.top == nil || !x.top.inline[f.Name()] {
					return x.applyContract(c, x.P.short(f), args, sig, st, pos)
				}
			}
		}
		if len(f.Blocks) > 0 {
			n := 0
			for _, s := range x.stack {
				if s == f {
					n++
				}
			}
			if n > 0 && !(x.spec > 0 && n < 4) {
				if x.spec > 0 {
					unsup("recursive specification function %s", f)
				}
				unsup("recursive function without contract: %s", x.P.short(f))
			}
			return x.call(f, args, binds, st)
		}
	}
	nm := externFnName(f)
	return x.extern(nm, f, sig, args, st, pos)
}

func externFnName(f *ssa.Function) string {
	g := f
	if o := f.Origin(); o != nil {
		g = o
	}
	if r := g.Signature.Recv(); r != nil {
		t := types.Unalias(r.Type())
		ptr := ""
		if p, ok := t.(*types.Pointer); ok {
			t = types.Unalias(p.Elem())
			ptr = "*"
		}
		if n, ok := t.(*types.Named); ok {
			pk := ""
			if n.Obj().Pkg() != nil {
				pk = n.Obj().Pkg().Path() + "."
			}
			return "(" + ptr + pk + n.Obj().Name() + ")." + g.Name()
		}
	}
	if g.Pkg != nil {
		return g.Pkg.Pkg.Path() + "." + g.Name()
	}
	if o := g.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path() + "." + g.Name()
	}
	return g.String()
}

// uninterp models U_ (pure) and UH_ (heap dependent) specification functions.
func (x *Exec) uninterp(nm string, f *ssa.Function, args []Value, st *State) Value {
	var as []*Term
	ps := f.Signature.Params()
	for i, a := range args {
		as = append(as, x.toLeaves(a, ps.At(i).Type(), st)...)
	}
	switch {
	case strings.HasPrefix(nm, "UH_json"):
		as = append(as, st.dver)
	case strings.HasPrefix(nm, "UH_"):
		as = append(as, st.ver)
	}
	if f.Origin() != nil {
		nm += ":" + typeKey(f.Signature)
	}
	return x.ufResult(nm, resultOf(f.Signature), as)
}

func (x *Exec) ufResult(nm string, rt types.Type, as []*Term) Value {
	var out []*Term
	for _, l := range leaves(rt) {
		if l.Kind == "soff" {
			out = append(out, IntT(0))
			continue
		}
		out = append(out, UF(nm+l.Path, l.Sort, as...))
	}
	return fromLeaves(out, rt)
}

func (x *Exec) asSlice(v Value, st *State) (ref, off, ln, cp *Term) {
	if vs, ok := v.(*VarSl); ok {
		v = x.materialise(vs, st)
	}
	s, ok := v.(*Tup)
	if !ok {
		unsup("slice value %T", v)
	}
	return s.E[0].(*Term), s.E[1].(*Term), s.E[2].(*Term), s.E[3].(*Term)
}

func (x *Exec) builtin(fr *frame, b *ssa.Builtin, c *ssa.CallCommon, st *State, pos token.Pos) (Value, *State, bool) {
	arg := func(i int) Value { return x.val(fr, c.Args[i], st) }
	switch b.Name() {
	case "len", "cap":
		v := arg(0)
		if b.Name() == "len" {
			return x.lenOf(v, c.Args[0].Type(), st), st, true
		}
		if vs, ok := v.(*VarSl); ok {
			return IntT(int64(len(vs.Elems))), st, true
		}
		return v.(*Tup).E[3], st, true
	case "append":
		return x.appendOp(c.Args[0].Type(), arg(0), arg(1), st), st, true
	case "copy":
		return x.copyOp(c.Args[0].Type(), arg(0), arg(1), st), st, true
	case "delete":
		mt := types.Unalias(c.Args[0].Type()).Underlying().(*types.Map)
		m := x.term(arg(0))
		key := x.toLeaves(arg(1), mt.Key(), st)[0]
		k := mapKeys(mt)
		dom := Select(st.get(k.dom), m)
		had := Select(dom, key)
		ln := Select(st.get(k.ln), m)
		st.set(k.ln, Store(st.get(k.ln), m, Ite(had, Sub(ln, IntT(1)), ln)))
		st.set(k.dom, Store(st.get(k.dom), m, Store(dom, key, False)))
		x.bumpVer(st, m, isDataGroup(k.ln.Group))
		return &Tup{}, st, true
	case "ssa:wrapnilchk":
		v := arg(0)
		x.nilCheck(st, v, "method receiver", pos)
		return v, st, true
	case "recover":
		return VNil, st, true
	case "print", "println":
		return &Tup{}, st, true
	case "min", "max":
		v := x.term(arg(0))
		for i := 1; i < len(c.Args); i++ {
			w := x.term(arg(i))
			if v.Sort != SInt {
				unsup("min/max on %s", v.Sort)
			}
			if b.Name() == "min" {
				v = Ite(Le(v, w), v, w)
			} else {
				v = Ite(Le(v, w), w, v)
			}
		}
		return v, st, true
	}
	unsup("builtin %s", b.Name())
	return nil, nil, false
}

func (x *Exec) lenOf(v Value, t types.Type, st *State) *Term {
	switch s := v.(type) {
	case *VarSl:
		return IntT(int64(len(s.Elems)))
	case *Term:
		if s.Sort == SStr {
			return sLen(s)
		}
		if mt, ok := types.Unalias(t).Underlying().(*types.Map); ok {
			if ents := x.P.gmap(s); ents != nil {
				return IntT(int64(len(ents)))
			}
			k := mapKeys(mt)
			return Select(st.get(k.ln), s)
		}
	case *Tup:
		if isSlice(t) {
			return s.E[2].(*Term)
		}
		return IntT(int64(len(s.E)))
	}
	unsup("len of %T", v)
	return nil
}

// appendOp models append with Go's in-place / reallocate behaviour.
func (x *Exec) appendOp(t types.Type, s, add Value, st *State) Value {
	et := types.Unalias(t).Underlying().(*types.Slice).Elem()
	if at, ok := add.(*Term); ok && at.Sort == SStr {
		unsup("append of a string")
	}
	if vs, ok := add.(*VarSl); ok && len(vs.Elems) == 0 {
		return s
	}
	if sv, ok := s.(*VarSl); ok {
		if av, ok := add.(*VarSl); ok && len(sv.Elems) > 0 {
			// literal capacity equals the length: always reallocated
			n := &VarSl{Elem: et, Elems: append(append([]Value{}, sv.Elems...), av.Elems...)}
			return x.materialise(n, st)
		}
	}
	ref, off, ln, cp := x.asSlice(s, st)
	if off.Op != "int" || off.Val.Sign() != 0 {
		unsup("append to a slice with an offset %s", off)
	}
	var k *Term
	var elems []Value
	var aref, aoff *Term
	if vs, ok := add.(*VarSl); ok {
		elems = vs.Elems
		k = IntT(int64(len(elems)))
	} else {
		aref, aoff, k, _ = x.asSlice(add, st)
	}
	newLen := Add(ln, k)
	// appending nothing returns the slice itself
	inplace := Le(newLen, cp)
	if cp.Op == "int" && cp.Val.Sign() == 0 {
		inplace = Eq(k, IntT(0))
	}
	if st.decide(inplace) == 1 {
		inplace = True
	} else if st.decide(inplace) == -1 {
		inplace = False
	}
	var nref, ncap *Term
	fresh := x.newRef(st)
	switch inplace {
	case True:
		nref, ncap = ref, cp
	case False:
		nref = fresh
		ncap = x.freshCap(st, newLen)
	default:
		if x.spec > 0 {
			nref, ncap = fresh, newLen // value semantics in specifications
			inplace = False
		} else if isFreshRef(ref) || (ref.Op == "int" && ref.Val.Sign() == 0) {
			nref, ncap = fresh, x.freshCap(st, newLen)
			// a fresh backing array nobody else can see: copying is unobservable
			// unless the array is shared by another slice header of this function
			nref = Ite(inplace, ref, fresh)
			ncap = Ite(inplace, cp, ncap)
		} else {
			nref = Ite(inplace, ref, fresh)
			ncap = Ite(inplace, cp, x.freshCap(st, newLen))
		}
	}
	if nref.Op == "ite" {
		// keep addresses atomic
		r := Fresh("apd", SInt)
		x.assume(&State{}, Eq(r, nref))
		nref = r
		c := Fresh("apdcap", SInt)
		x.assume(&State{}, Eq(c, ncap))
		ncap = c
	}
	for li, m := range elemKeys(typeKey(et), "", et) {
		h := st.get(m)
		src := Select(h, ref)
		var arr *Term
		if aref == nil {
			arr = src
			for j, e := range elems {
				arr = Store(arr, Add(ln, IntT(int64(j))), x.toLeaves(e, et, st)[li])
			}
		} else {
			_, inner := arrParts(m.Sort)
			arr = Fresh("apdarr", inner)
			i := BVar("i", SInt)
			a2 := Select(h, aref)
			s := Select(arr, i)
			AddAxiom(arr, Forall([]*Term{i}, Eq(s, Ite(And(Le(ln, i), Lt(i, newLen)), Select(a2, Add(aoff, Sub(i, ln))), Select(src, i))), []*Term{s}))
			// help instantiation from the appended side
			j := BVar("j", SInt)
			if aoff.Op == "int" && aoff.Val.Sign() == 0 {
				s2 := Select(a2, j)
				AddAxiom(arr, Forall([]*Term{j}, Implies(And(Le(IntT(0), j), Lt(j, k)), Eq(Select(arr, Add(ln, j)), s2)), []*Term{s2}))
			}
			q := BVar("q", SInt)
			s3 := Select(src, q)
			AddAxiom(arr, Forall([]*Term{q}, Implies(Lt(q, ln), Eq(Select(arr, q), s3)), []*Term{s3}))
		}
		st.set(m, Store(h, nref, arr))
	}
	if inplace != False {
		x.bumpVer(st, nref, isDataGroup("E:"+typeKey(et)))
	}
	return &Tup{E: []Value{nref, IntT(0), newLen, ncap}}
}

func (x *Exec) freshCap(st *State, ln *Term) *Term {
	c := Fresh("cap", SInt)
	x.assume(&State{}, And(Le(ln, c), Le(c, IntT(1<<51))))
	return c
}

func (x *Exec) copyOp(t types.Type, d, s Value, st *State) Value {
	et := types.Unalias(t).Underlying().(*types.Slice).Elem()
	if at, ok := s.(*Term); ok && at.Sort == SStr {
		unsup("copy of a string")
	}
	dref, doff, dl, _ := x.asSlice(d, st)
	sref, soff, sl, _ := x.asSlice(s, st)
	n := Ite(Le(sl, dl), sl, dl)
	for _, m := range elemKeys(typeKey(et), "", et) {
		h := st.get(m)
		_, inner := arrParts(m.Sort)
		arr := Fresh("cparr", inner)
		i := BVar("i", SInt)
		sv := Select(arr, i)
		AddAxiom(arr, Forall([]*Term{i}, Eq(sv, Ite(And(Le(doff, i), Lt(i, Add(doff, n))), Select(Select(h, sref), Add(soff, Sub(i, doff))), Select(Select(h, dref), i))), []*Term{sv}))
		st.set(m, Store(h, dref, arr))
	}
	x.bumpVer(st, dref, isDataGroup("E:"+typeKey(et)))
	return n
}

// ---------------------------------------------------------------- global maps

type gent struct {
	key *Term
	val []*Term
}

var gmapTab = map[*Term][]gent{}

func (p *Prog) gmap(t *Term) []gent { return gmapTab[t] }

func (x *Exec) globalMap(root string, t types.Type, mm *ssa.MakeMap, st *State) Value {
	v := Var("gmap:"+root, SInt)
	if gmapTab[v] != nil {
		return v
	}
	mt := types.Unalias(t).Underlying().(*types.Map)
	var ents []gent
	for _, r := range *mm.Referrers() {
		mu, ok := r.(*ssa.MapUpdate)
		if !ok {
			continue
		}
		kc, ok1 := mu.Key.(*ssa.Const)
		if !ok1 {
			return nil
		}
		var vl []*Term
		switch vc := mu.Value.(type) {
		case *ssa.Const:
			vl = x.toLeaves(x.constVal(vc), mt.Elem(), st)
		default:
			if len(leaves(mt.Elem())) != 0 {
				return nil
			}
		}
		ents = append(ents, gent{x.toLeaves(x.constVal(kc), mt.Key(), st)[0], vl})
	}
	gmapTab[v] = ents
	AddAxiom(v, Lt(v, IntT(-1000000)))
	return v
}

func (x *Exec) globalSlice(root string, t types.Type, sl *ssa.Slice, st *State) Value { return nil }

var _ = fmt.Sprint
