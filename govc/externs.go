package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var pureExtPkgs = []string{"strings.", "strconv.", "path/filepath.", "path.", "unicode.", "unicode/utf8.", "math.", "errors.Is", "errors.Unwrap", "errors.As", "time.Parse", "regexp.MatchString", "regexp.QuoteMeta"}

// extern models a function whose body is outside the code under verification.
func (x *Exec) extern(nm string, f *ssa.Function, sig *types.Signature, args []Value, st *State, pos token.Pos) (Value, *State, bool) {
	rt := resultOf(sig)
	note := func() { x.note("trusted model: %s", nm) }
	if strings.Contains(nm, "go-ordered-map") || (f != nil && f.Signature.Recv() != nil && isOMRecv(f)) {
		return x.omMethod(nm, f, sig, args, st, pos)
	}
	switch nm {
	case "fmt.Errorf", "errors.New":
		note()
		return x.newError(nm, st), st, true
	case "fmt.Sprintf", "fmt.Sprint":
		x.note("formatted strings are arbitrary (%s)", nm)
		if x.spec > 0 {
			return StrT("?"), st, true
		}
		if r := x.sprintf(args, st); r != nil {
			return r, st, true
		}
		return Fresh("sprintf", SStr), st, true
	case "github.com/acronis/go-stacktrace.New", "github.com/acronis/go-stacktrace.NewWrapped", "github.com/acronis/go-stacktrace.Wrap":
		note()
		if nm != "github.com/acronis/go-stacktrace.New" {
			i := 1
			if strings.HasSuffix(nm, ".Wrap") {
				i = 0
			}
			x.oblige(st, "nopanic", "nil-error passed to "+nm[strings.LastIndex(nm, ".")+1:], Not(Eq(x.term(args[i]), VNil)), pos)
		}
		if x.spec > 0 {
			unsup("stack trace in specification")
		}
		return x.newRef(st), st, true
	case "github.com/acronis/go-stacktrace.Unwrap":
		note()
		v, fs := x.freshVal2("unwrapped", rt, st)
		for _, q := range fs {
			x.assume(st, q)
		}
		tp := v.(*Tup)
		e := x.term(args[0])
		stT := sig.Results().At(0).Type()
		x.assume(st, Implies(tp.E[1].(*Term), Not(Eq(tp.E[0].(*Term), IntT(0)))))
		x.assume(st, Implies(Eq(e, VNil), Not(tp.E[1].(*Term))))
		x.assume(st, Implies(And(isType(e, stT), Not(Eq(sel("vr", e), IntT(0)))), tp.E[1].(*Term)))
		return v, st, true
	case "github.com/acronis/go-stacktrace.WithInfo", "github.com/acronis/go-stacktrace.WithPosition", "github.com/acronis/go-stacktrace.WithType", "github.com/acronis/go-stacktrace.WithLocation", "github.com/acronis/go-stacktrace.WithSeverity", "github.com/acronis/go-stacktrace.NewPosition", "github.com/acronis/go-stacktrace.Stringer":
		note()
		return x.freshVal("opt", rt, st, true), st, true
	case "errors.Is", "errors.As", "errors.Unwrap":
		note()
		if nm == "errors.As" {
			r := Fresh("errorsAs", SBool)
			x.assume(st, Implies(Eq(x.term(args[0]), VNil), Not(r)))
			return r, st, true
		}
		if nm == "errors.Is" {
			a, b := x.term(args[0]), x.term(args[1])
			return Or(Eq(a, b), And(Not(Eq(a, VNil)), UF("errors.Is", SBool, a, b))), st, true
		}
		uw := UF("errors.Unwrap", SVal, x.term(args[0]))
		x.assume(st, And(Implies(Eq(x.term(args[0]), VNil), Eq(uw, VNil)), App("wfVal", SBool, uw, st.alloc)))
		return uw, st, true
	case "strings.HasPrefix":
		return x.strPred("s_prefix", x.term(args[1]), x.term(args[0])), st, true
	case "strings.HasSuffix":
		return x.strPred("s_suffix", x.term(args[1]), x.term(args[0])), st, true
	case "strings.Contains":
		return x.strPred("s_contains", x.term(args[0]), x.term(args[1])), st, true
	case "strings.Index":
		return App("s_index", SInt, x.term(args[0]), x.term(args[1])), st, true
	case "strings.LastIndex":
		note()
		s, sep := x.term(args[0]), x.term(args[1])
		r := UF("strings.LastIndex", SInt, s, sep)
		if sep.Op == "str" && len(sep.Name) == 1 {
			n := IntT(1)
			x.assume(&State{}, And(Le(IntT(-1), r), Lt(r, Ite(Le(IntT(1), sLen(s)), sLen(s), IntT(1)))))
			x.assume(&State{}, Implies(Eq(r, IntT(-1)), Not(App("s_contains", SBool, s, sep))))
			x.assume(&State{}, Implies(Le(IntT(0), r), And(Eq(App("s_at", SInt, s, r), IntT(int64(sep.Name[0]))), Lt(r, sLen(s)),
				Not(App("s_contains", SBool, App("s_sub", SStr, s, Add(r, n), sLen(s)), sep)))))
		} else {
			x.assume(&State{}, And(Le(IntT(-1), r), Le(r, sLen(s)), Implies(Le(IntT(0), r), Le(Add(r, sLen(sep)), sLen(s)))))
		}
		return r, st, true
	case "strings.TrimSuffix":
		s, suf := x.term(args[0]), x.term(args[1])
		return Ite(App("s_suffix", SBool, suf, s), App("s_sub", SStr, s, IntT(0), Sub(sLen(s), sLen(suf))), s), st, true
	case "strings.TrimPrefix":
		s, p := x.term(args[0]), x.term(args[1])
		return Ite(App("s_prefix", SBool, p, s), App("s_sub", SStr, s, sLen(p), sLen(s)), s), st, true
	case "unicode/utf8.RuneCountInString":
		note()
		s := x.term(args[0])
		r := UF("utf8.RuneCount", SInt, s)
		x.assume(&State{}, And(Le(IntT(0), r), Le(r, sLen(s))))
		return r, st, true
	case "strconv.FormatUint", "strconv.FormatInt", "strconv.Itoa":
		note()
		var ts []*Term
		for _, a := range args {
			ts = append(ts, x.term(a))
		}
		r := UF(nm, SStr, ts...)
		x.assume(&State{}, Not(Eq(r, StrT(""))))
		return r, st, true
	case "regexp.Compile":
		note()
		s := x.term(args[0])
		e := UF("regexp.CompileErr", SVal, s)
		r := Fresh("regexp", SInt)
		x.newAlloc(st)
		x.assume(st, And(Le(IntT(0), r), Lt(r, st.alloc), Eq(Eq(r, IntT(0)), Not(Eq(e, VNil))), Implies(Eq(e, VNil), Eq(UF("regexp.src", SStr, r), s))))
		return &Tup{E: []Value{r, e}}, st, true
	case "(*regexp.Regexp).MatchString":
		note()
		x.nilCheck(st, args[0], "regexp", pos)
		return UF("regexp.Match", SBool, UF("regexp.src", SStr, x.term(args[0])), x.term(args[1])), st, true
	case "(*regexp.Regexp).String":
		note()
		x.nilCheck(st, args[0], "regexp", pos)
		return UF("regexp.src", SStr, x.term(args[0])), st, true
	case "time.Parse":
		note()
		return x.ufResult("time.Parse", rt, []*Term{x.term(args[0]), x.term(args[1])}), st, true
	case "context.Background":
		note()
		bg := UF("context.Background", SVal, IntT(0))
		q := BVar("q", SVal)
		x.assume(&State{}, Forall([]*Term{q}, Eq(UF("ctx.Value", SVal, bg, q), VNil), []*Term{UF("ctx.Value", SVal, bg, q)}))
		return bg, st, x.assumeOK(st, Not(Eq(bg, VNil)))
	case "context.WithValue":
		note()
		c, k, v := x.term(args[0]), x.term(args[1]), x.term(args[2])
		x.oblige(st, "nopanic", "context.WithValue of nil", And(Not(Eq(c, VNil)), Not(Eq(k, VNil))), pos)
		n := Fresh("ctx", SVal)
		x.assume(st, Not(Eq(n, VNil)))
		x.assume(st, Eq(UF("ctx.Value", SVal, n, k), v))
		q := BVar("q", SVal)
		x.assume(st, Forall([]*Term{q}, Implies(Not(Eq(q, k)), Eq(UF("ctx.Value", SVal, n, q), UF("ctx.Value", SVal, c, q))), []*Term{UF("ctx.Value", SVal, n, q)}))
		return n, st, true
	case "iface.context.Context.Value":
		note()
		r := UF("ctx.Value", SVal, x.term(args[0]), x.term(args[1]))
		x.assume(st, App("wfVal", SBool, r, st.alloc))
		return r, st, true
	case "reflect.DeepEqual":
		note()
		x.note("values compared by reflect.DeepEqual or marshalled to JSON are plain data: scalars, []any and maps to any")
		a, b := x.term(args[0]), x.term(args[1])
		return Ite(Or(isCons_(a, "VR"), isCons_(a, "VSl")), And(Not(Eq(b, VNil)), UF("reflect.DeepEqual", SBool, a, b, st.dver)), ifEq(a, b)), st, true
	case "reflect.ValueOf":
		note()
		return UF("reflect.ValueOf", SInt, x.term(args[0])), st, true
	case "(reflect.Value).Pointer":
		note()
		return UF("reflect.Pointer", SInt, x.term(args[0])), st, true
	case "iface.error.Error":
		return UF("error.Error", SStr, x.term(args[0])), st, true
	case "github.com/zeebo/xxh3.Hash":
		note()
		x.note("xxh3 hashes of different texts are assumed different")
		return x.hash64(x.bytesStr(args[0], st)), st, true
	case "encoding/json.Marshal":
		note()
		x.note("encoding/json.Marshal is a function of the value and the data memory it refers to")
		x.note("values compared by reflect.DeepEqual or marshalled to JSON are plain data: scalars, []any and maps to any")
		v := x.term(args[0])
		okT := UF("UH_jsonOK", SBool, v, st.dver)
		txt := x.strBytes(UF("UH_json", SStr, v, st.dver), types.Typ[types.Uint8], st).(*Tup)
		e := Fresh("jsonErr", SVal)
		x.assume(st, Eq(Eq(e, VNil), okT))
		z := x.zero(sig.Results().At(0).Type())
		return &Tup{E: []Value{x.iteVal(okT, txt, z, sig.Results().At(0).Type()), e}}, st, true
	case "math/big.NewInt":
		note()
		r := x.newRef(st)
		x.store(st, x.ptrOf(r, x.P.bigInt()), x.P.bigInt(), x.term(args[0]))
		return r, st, true
	}
	switch nm {
	case "math.IsNaN":
		return Eq(x.term(args[0]), Cons("FNaN", SFlt)), st, true
	case "math.IsInf":
		f, s := x.term(args[0]), x.term(args[1])
		return Or(And(Le(IntT(0), s), isK("FPInf", f)), And(Le(s, IntT(0)), isK("FNInf", f))), st, true
	case "math.Trunc":
		return App("f_trunc", SFlt, x.term(args[0])), st, true
	case "math/big.NewFloat":
		note()
		r := x.newRef(st)
		x.oblige(st, "nopanic", "big.NewFloat of NaN", Not(Eq(x.term(args[0]), Cons("FNaN", SFlt))), pos)
		x.store(st, x.ptrOf(r, x.P.bigFloat()), x.P.bigFloat(), x.term(args[0]))
		return r, st, true
	}
	if strings.HasPrefix(nm, "(*math/big.Float).") {
		note()
		x.note("big.Float values are exact (precision 64 holds every machine number)")
		return x.bigFloatMethod(strings.TrimPrefix(nm, "(*math/big.Float)."), sig, args, st, pos)
	}
	if strings.HasPrefix(nm, "(*math/big.Int).") {
		note()
		return x.bigMethod(strings.TrimPrefix(nm, "(*math/big.Int)."), sig, args, st, pos)
	}
	if strings.HasPrefix(nm, "(*github.com/acronis/go-stacktrace.StackTrace).") {
		note()
		x.nilCheck(st, args[0], "stack trace", pos)
		if p, ok := types.Unalias(rt).(*types.Pointer); ok && typeKey(p.Elem()) == "stacktrace.StackTrace" {
			return args[0], st, true
		}
		return x.freshVal("st", rt, st, true), st, true
	}
	if strings.HasPrefix(nm, "(*gopkg.in/yaml.v3.Node).") {
		return x.yamlNodeMethod(nm, f, sig, args, st, pos)
	}
	for _, p := range pureExtPkgs {
		if strings.HasPrefix(nm, p) && nm != "path/filepath.Walk" && nm != "strings.NewReader" {
			note()
			return x.pureExtern(nm, sig, args, st), st, true
		}
	}
	if r, s2, ok, done := x.externMore(nm, f, sig, args, st, pos); done {
		return r, s2, ok
	}
	// unknown: arbitrary results; memory handed over by pointer may change
	if x.spec > 0 {
		unsup("external function %s in specification", nm)
	}
	x.note("external function %s: arbitrary result, no effect on the model's memory", nm)
	x.newAlloc(st)
	return x.freshVal("ext", rt, st, true), st, true
}

func (x *Exec) hash64(s *Term) *Term {
	r := UF("xxh3.Hash", SInt, s)
	x.assume(&State{}, inRange(r, types.Typ[types.Uint64]))
	if r.closed() {
		x.assume(&State{}, Eq(UF("xxh3.inv", SStr, r), s))
	} else {
		q := BVar("q", SStr)
		h := UF("xxh3.Hash", SInt, q)
		x.assume(&State{}, Forall([]*Term{q}, And(Eq(UF("xxh3.inv", SStr, h), q), inRange(h, types.Typ[types.Uint64])), []*Term{h}))
	}
	return r
}

func (x *Exec) assumeOK(st *State, t *Term) bool { x.assume(&State{}, t); return true }

func isOMRecv(f *ssa.Function) bool {
	r := f.Signature.Recv()
	if r == nil {
		return false
	}
	if _, ok := isOM(r.Type()); ok {
		return true
	}
	_, ok := isPair(r.Type())
	return ok
}

func (x *Exec) newError(nm string, st *State) Value {
	if x.spec > 0 {
		return Cons("VR", SVal, IntT(200001), IntT(1))
	}
	r := x.newRef(st)
	return Cons("VR", SVal, IntT(200001), r)
}

// sprintf: deterministic in its arguments when these are simple
func (x *Exec) sprintf(args []Value, st *State) Value {
	if len(args) != 2 {
		return nil
	}
	vs, ok := args[1].(*VarSl)
	if !ok {
		return nil
	}
	ts := []*Term{x.term(args[0])}
	for _, e := range vs.Elems {
		if i, ok := e.(*Ifc); ok {
			if _, isB := types.Unalias(i.T).Underlying().(*types.Basic); !isB {
				return nil
			}
		} else {
			return nil
		}
		ts = append(ts, x.term(e))
	}
	return UF("sprintf"+strconv.Itoa(len(ts)), SStr, ts...)
}

func (x *Exec) strPred(op string, a, b *Term) *Term {
	if a.Op == "str" && b.Op == "str" {
		switch op {
		case "s_prefix":
			return BoolT(strings.HasPrefix(b.Name, a.Name))
		case "s_suffix":
			return BoolT(strings.HasSuffix(b.Name, a.Name))
		case "s_contains":
			return BoolT(strings.Contains(a.Name, b.Name))
		}
	}
	return App(op, SBool, a, b)
}

func (x *Exec) pureExtern(nm string, sig *types.Signature, args []Value, st *State) Value {
	var as []*Term
	for i, a := range args {
		var t types.Type
		if i < sig.Params().Len() {
			t = sig.Params().At(i).Type()
		}
		if vs, ok := a.(*VarSl); ok {
			for _, e := range vs.Elems {
				as = append(as, x.toLeaves(e, vs.Elem, st)...)
			}
			continue
		}
		as = append(as, x.toLeaves(a, t, st)...)
	}
	r := x.ufResult("ext:"+nm, resultOf(sig), as)
	ls := leaves(resultOf(sig))
	ts := x.toLeaves(r, resultOf(sig), st)
	for i, l := range ls {
		if l.Kind == "int" || l.Kind == "slen" || l.Kind == "scap" {
			if f := leafFact(l, ts[i], st.alloc); f != True {
				x.assume(&State{}, f)
			}
		}
	}
	return r
}

func (x *Exec) omMethod(nm string, f *ssa.Function, sig *types.Signature, args []Value, st *State, pos token.Pos) (Value, *State, bool) {
	x.note("trusted model: github.com/wk8/go-ordered-map")
	m := nm[strings.LastIndex(nm, ".")+1:]
	if i := strings.Index(m, "["); i >= 0 {
		m = m[:i]
	}
	if m == "New" {
		n, ok := isOM(sig.Results().At(0).Type())
		if !ok {
			unsup("ordered map constructor")
		}
		r := x.newRef(st)
		x.omInit(st, omKeys(n), r)
		return r, st, true
	}
	rt := f.Signature.Recv().Type()
	if pn, ok := isPair(rt); ok {
		if m != "Next" {
			unsup("ordered map pair method %s", m)
		}
		p := args[0].(*Tup)
		k := x.omKeysByArgs(pn.TypeArgs().At(0), pn.TypeArgs().At(1))
		mm, i := p.E[0].(*Term), p.E[1].(*Term)
		x.oblige(st, "nopanic", "nil-deref pair", And(Le(IntT(0), i), Lt(i, Select(st.get(k.ln), mm))), pos)
		return &Tup{E: []Value{mm, Add(i, IntT(1))}}, st, true
	}
	n, ok := isOM(rt)
	if !ok {
		unsup("ordered map method %s", nm)
	}
	k := omKeys(n)
	om := x.term(args[0])
	switch m {
	case "Len":
		return Ite(Eq(om, IntT(0)), IntT(0), Select(st.get(k.ln), om)), st, true
	case "Oldest":
		return &Tup{E: []Value{om, IntT(0)}}, st, true
	}
	x.nilCheck(st, om, "ordered map", pos)
	switch m {
	case "Get", "Load":
		v, has := x.omGet(st, k, om, x.toLeaves(args[1], k.kt, st)[0])
		return &Tup{E: []Value{v, has}}, st, true
	case "Value":
		v, _ := x.omGet(st, k, om, x.toLeaves(args[1], k.kt, st)[0])
		return v, st, true
	case "Set", "Store":
		v, has := x.omSet(st, k, om, x.toLeaves(args[1], k.kt, st)[0], args[2])
		return &Tup{E: []Value{v, has}}, st, true
	case "GetPair":
		idx := Select(Select(st.get(k.idx), om), x.toLeaves(args[1], k.kt, st)[0])
		return &Tup{E: []Value{om, idx}}, st, true
	}
	unsup("ordered map method %s", m)
	return nil, nil, false
}

func (x *Exec) bigMethod(m string, sig *types.Signature, args []Value, st *State, pos token.Pos) (Value, *State, bool) {
	bt := x.P.bigInt()
	x.nilCheck(st, args[0], "big.Int", pos)
	self := x.bigVal(args[0], st)
	set := func(v *Term) (Value, *State, bool) {
		x.store(st, x.ptrOf(args[0], bt), bt, v)
		return args[0], st, true
	}
	other := func(i int) *Term {
		x.nilCheck(st, args[i], "big.Int", pos)
		return x.bigVal(args[i], st)
	}
	two := func(t types.Type) *Term { return inRange(self, t) }
	switch m {
	case "Cmp":
		o := other(1)
		return Ite(Lt(self, o), IntT(-1), Ite(Eq(self, o), IntT(0), IntT(1))), st, true
	case "Sign":
		return Ite(Lt(self, IntT(0)), IntT(-1), Ite(Eq(self, IntT(0)), IntT(0), IntT(1))), st, true
	case "SetInt64", "SetUint64":
		return set(x.term(args[1]))
	case "Set":
		return set(other(1))
	case "IsInt64":
		return two(types.Typ[types.Int64]), st, true
	case "IsUint64":
		return two(types.Typ[types.Uint64]), st, true
	case "Int64":
		return convInt(self, types.Typ[types.UntypedNil], types.Typ[types.Int64]), st, true
	case "Uint64":
		return convInt(self, types.Typ[types.UntypedNil], types.Typ[types.Uint64]), st, true
	case "String":
		r := UF("big.String", SStr, self)
		x.assume(&State{}, Eq(UF("big.Parse", SInt, r, IntT(10)), self))
		return r, st, true
	case "SetString":
		s, b := x.term(args[1]), x.term(args[2])
		ok := UF("big.ParseOK", SBool, s, b)
		v := Ite(ok, UF("big.Parse", SInt, s, b), Fresh("bigundef", SInt))
		x.store(st, x.ptrOf(args[0], bt), bt, v)
		ref := x.refOf(args[0], st)
		return &Tup{E: []Value{Ite(ok, ref, IntT(0)), ok}}, st, true
	}
	unsup("big.Int method %s", m)
	return nil, nil, false
}

func (x *Exec) bigFloatMethod(m string, sig *types.Signature, args []Value, st *State, pos token.Pos) (Value, *State, bool) {
	bt := x.P.bigFloat()
	at := func(i int) *Term {
		x.nilCheck(st, args[i], "big.Float", pos)
		return x.load(st, x.ptrOf(args[i], bt), bt).(*Term)
	}
	self := at(0)
	set := func(v *Term) (Value, *State, bool) {
		x.store(st, x.ptrOf(args[0], bt), bt, v)
		return args[0], st, true
	}
	fin := func(i *Term) *Term { return Cons("FFin", SFlt, toReal(i)) }
	switch m {
	case "SetInt64", "SetUint64":
		return set(fin(x.term(args[1])))
	case "SetInt":
		x.nilCheck(st, args[1], "big.Int", pos)
		return set(fin(x.bigVal(args[1], st)))
	case "SetFloat64":
		x.oblige(st, "nopanic", "big.Float.SetFloat64 of NaN", Not(Eq(x.term(args[1]), Cons("FNaN", SFlt))), pos)
		return set(x.term(args[1]))
	case "Set":
		return set(at(1))
	case "Cmp":
		o := at(1)
		return Ite(App("f_lt", SBool, self, o), IntT(-1), Ite(Eq(self, o), IntT(0), IntT(1))), st, true
	case "Sign":
		z := fin(IntT(0))
		return Ite(App("f_lt", SBool, self, z), IntT(-1), Ite(Eq(self, z), IntT(0), IntT(1))), st, true
	case "IsInt":
		return And(isFin(self), Eq(App("f_trunc", SFlt, self), self)), st, true
	case "IsInf":
		return Or(isK("FPInf", self), isK("FNInf", self)), st, true
	case "Int":
		isF := isFin(self)
		z := x.refOf(args[1], st)
		n := x.newRef(st)
		ref := Ite(Eq(z, IntT(0)), n, z)
		ib := x.P.bigInt()
		r := mk("app", SInt, "r_trunc", frOf(self))
		if st.decide(Eq(z, IntT(0))) == 1 || z == IntT(0) {
			ref = n
		}
		x.store(st, x.ptrOf(ref, ib), ib, Ite(isF, r, x.load(st, x.ptrOf(ref, ib), ib).(*Term)))
		acc := Fresh("acc", SInt)
		return &Tup{E: []Value{Ite(isF, ref, IntT(0)), acc}}, st, true
	case "String", "Text":
		return x.pureExtern("(*math/big.Float)."+m, sig, append([]Value{self}, args[1:]...), st), st, true
	}
	unsup("big.Float method %s", m)
	return nil, nil, false
}

func (x *Exec) yamlNodeMethod(nm string, f *ssa.Function, sig *types.Signature, args []Value, st *State, pos token.Pos) (Value, *State, bool) {
	m := nm[strings.LastIndex(nm, ".")+1:]
	switch m {
	case "Decode":
		x.note("trusted model: yaml.Node.Decode is a function of the node and the target type")
		x.nilCheck(st, args[0], "yaml node", pos)
		node := x.term(args[0])
		ifc, ok := args[1].(*Ifc)
		if !ok {
			unsup("Decode into an unknown target")
		}
		pt, ok := types.Unalias(ifc.T).Underlying().(*types.Pointer)
		if !ok {
			unsup("Decode into non-pointer")
		}
		et := pt.Elem()
		if u := x.unmarshaler(ifc.T); u != nil {
			return x.callFn(u, []Value{ifc.V, args[0]}, nil, st, pos)
		}
		if u := x.unmarshaler(et); u != nil {
			if su, ok := nodeT(f); ok {
				for i := 0; i < su.NumFields(); i++ {
					if su.Field(i).Name() == "Kind" { // a mapping is not null
						x.assume(st, Implies(UF("yaml.DecNull", SBool, node), Not(Eq(x.term(x.load(st, &Ptr{Kind: "fld", Base: node, Root: "yaml.Node", Path: ".Kind", T: su.Field(i).Type()}, su.Field(i).Type())), IntT(4)))))
					}
				}
			}
			return x.decodeInto(u, ifc, et, node, True, st, pos)
		}
		tk := typeKey(et)
		e := UF("yaml.DecErr:"+tk, SVal, node)
		okT := Eq(e, VNil)
		p := x.ptrOf(ifc.V, et)
		old := x.load(st, p, et)
		x.newAlloc(st)
		nv := x.ufResult("yaml.Dec:"+tk, et, []*Term{node})
		ls := leaves(et)
		ts := x.toLeaves(nv, et, st)
		for i, l := range ls {
			if f := leafFact(l, ts[i], st.alloc); f != True {
				x.assume(&State{}, f)
			}
		}
		for _, g := range groupFacts(ls, ts) {
			x.assume(&State{}, g)
		}
		if _, ok := types.Unalias(et).Underlying().(*types.Pointer); ok {
			x.assume(&State{}, Implies(And(okT, Not(UF("yaml.DecNull", SBool, node))), Not(Eq(x.term(nv), IntT(0)))))
		}
		fv := x.freshVal("decfail", et, st, true)
		x.store(st, p, et, x.iteVal(okT, x.decoded(et, old, node), fv, et))
		return e, st, true
	case "IsZero", "ShortTag":
		return x.pureExtern(nm, sig, args, st), st, true
	}
	unsup("yaml.Node method %s", m)
	return nil, nil, false
}

// unmarshaler: UnmarshalYAML of a type of the package
func (x *Exec) unmarshaler(t types.Type) *ssa.Function {
	s := x.P.prog.MethodSets.MethodSet(t).Lookup(x.P.tpkg, "UnmarshalYAML")
	if s == nil {
		return nil
	}
	return x.P.prog.MethodValue(s)
}

func (x *Exec) uf(nm string, rt types.Type, as ...*Term) Value { return x.ufResult(nm, rt, as) }

// externMore: files, readers and decoders. The content of a file is a function
// of its path for the time of one call.
func (x *Exec) externMore(nm string, f *ssa.Function, sig *types.Signature, args []Value, st *State, pos token.Pos) (Value, *State, bool, bool) {
	note := func() { x.note("trusted model: %s (file contents are a function of the path)", nm) }
	anyT := types.Universe.Lookup("any").Type()
	errIf := func(ok *Term, hint string) *Term {
		e := Fresh(hint, SVal)
		x.assume(st, Eq(Eq(e, VNil), ok))
		return e
	}
	switch nm {
	case "sync/atomic.AddInt64", "sync/atomic.LoadInt64":
		x.note("trusted model: %s (operations on one model are sequential)", nm)
		t := types.Typ[types.Int64]
		p := x.ptrOf(args[0], t)
		v := x.load(st, p, t)
		if strings.HasSuffix(nm, "AddInt64") {
			v = x.wrap(Add(x.term(v), x.term(args[1])), t)
			x.store(st, p, t, v)
		}
		return v, st, true, true
	case "(*container/list.List).PushBack":
		x.note("the list of unresolved types is not modelled")
		return x.newRef(st), st, true, true
	case "strings.NewReader":
		note()
		r := x.newRef(st)
		ft := sig.Results().At(0).Type()
		src := UF("U_path", SStr, Cons("VR", SVal, IntT(int64(tagID(ft))), r))
		x.assume(st, And(Eq(UF("U_text", SStr, src), x.term(args[0])), UF("U_readOK", SBool, src)))
		return r, st, true, true
	case "(*os.File).Name":
		note()
		x.nilCheck(st, args[0], "file", pos)
		return UF("U_path", SStr, Cons("VR", SVal, IntT(int64(tagID(f.Signature.Recv().Type()))), x.term(args[0]))), st, true, true
	case "bufio.NewReader":
		note()
		r := x.newRef(st)
		x.assume(st, Eq(UF("dec.path", SStr, r), UF("U_path", SStr, x.term(args[0]))))
		return r, st, true, true
	case "(*bufio.Reader).ReadString":
		note()
		if d, ok := intLit(x.term(args[1])); !ok || d != 10 {
			return nil, nil, false, false
		}
		p := UF("dec.path", SStr, x.term(args[0]))
		txt := UF("U_text", SStr, p)
		return &Tup{E: []Value{UF("U_line", SStr, txt), errIf(And(UF("U_readOK", SBool, p), UF("U_lineOK", SBool, txt)), "readErr")}}, st, true, true
	case "os.Getwd":
		note()
		ok := UF("U_wdOK", SBool, IntT(0))
		return &Tup{E: []Value{UF("U_wd", SStr, IntT(0)), errIf(ok, "wdErr")}}, st, true, true
	case "os.Open", "os.OpenFile":
		note()
		if nm == "os.OpenFile" && x.term(args[1]) != IntT(0) {
			return nil, nil, false, false
		}
		p := x.term(args[0])
		ok := UF("U_opens", SBool, p)
		r := x.newRef(st)
		ft := sig.Results().At(0).Type()
		x.assume(st, Eq(UF("U_path", SStr, Cons("VR", SVal, IntT(int64(tagID(ft))), r)), p))
		return &Tup{E: []Value{Ite(ok, r, IntT(0)), errIf(ok, "openErr")}}, st, true, true
	case "io.ReadAll":
		note()
		p := UF("U_path", SStr, x.term(args[0]))
		ok := UF("U_readOK", SBool, p)
		txt := x.strBytes(UF("U_text", SStr, p), types.Typ[types.Uint8], st)
		return &Tup{E: []Value{txt, errIf(ok, "readErr")}}, st, true, true
	case "encoding/json.NewDecoder", "gopkg.in/yaml.v3.NewDecoder":
		note()
		r := x.newRef(st)
		x.assume(st, Eq(UF("dec.path", SStr, r), UF("U_path", SStr, x.term(args[0]))))
		return r, st, true, true
	case "(*encoding/json.Decoder).Decode", "encoding/json.Unmarshal":
		note()
		ifc, okI := args[1].(*Ifc)
		if !okI {
			return nil, nil, false, false
		}
		pt, okP := types.Unalias(ifc.T).Underlying().(*types.Pointer)
		if !okP {
			return nil, nil, false, false
		}
		var ok *Term
		var nv Value
		if nm == "encoding/json.Unmarshal" {
			s := x.bytesStr(args[0], st)
			ok, nv = UF("U_jsonTextOK", SBool, s), x.uf("U_jsonText", anyT, s)
		} else {
			p := UF("dec.path", SStr, x.term(args[0]))
			ok, nv = UF("U_jsonOK", SBool, p), x.uf("U_jsonData", anyT, p)
		}
		x.newAlloc(st)
		if !types.Identical(pt.Elem(), anyT) {
			ok = Fresh("jsonOK", SBool)
			nv = x.freshVal("json", pt.Elem(), st, true)
		} else {
			x.assume(st, App("wfVal", SBool, x.term(nv), st.alloc))
		}
		fv := x.freshVal("decfail", pt.Elem(), st, true)
		x.store(st, x.ptrOf(ifc.V, pt.Elem()), pt.Elem(), x.iteVal(ok, nv, fv, pt.Elem()))
		return errIf(ok, "jsonErr"), st, true, true
	case "(*gopkg.in/yaml.v3.Decoder).Decode":
		note()
		ifc, okI := args[1].(*Ifc)
		if !okI {
			return nil, nil, false, false
		}
		pt, okP := types.Unalias(ifc.T).Underlying().(*types.Pointer)
		p := UF("dec.path", SStr, x.term(args[0]))
		if okP {
			if u := x.unmarshaler(pt.Elem()); u != nil {
				root := UF("U_yamlRoot", SInt, p)
				x.newAlloc(st)
				x.assume(st, And(Lt(IntT(0), root), Lt(root, st.alloc)))
				r, s2, ok2 := x.decodeInto(u, ifc, pt.Elem(), root, UF("U_yamlOK", SBool, p), st, pos)
				return r, s2, ok2, true
			}
		}
		if !okP || typeKey(pt.Elem()) != "yaml.Node" {
			return nil, nil, false, false
		}
		ok := UF("U_yamlOK", SBool, p)
		nt := pt.Elem()
		root := UF("U_yamlRoot", SInt, p)
		su := types.Unalias(nt).Underlying().(*types.Struct)
		x.newAlloc(st)
		tp := x.freshVal("yamldoc", nt, st, true).(*Tup)
		nv := &Tup{E: append([]Value{}, tp.E...)}
		for i := 0; i < su.NumFields(); i++ {
			switch su.Field(i).Name() {
			case "Kind":
				nv.E[i] = IntT(1) // a document
			case "Content":
				et := types.Unalias(su.Field(i).Type()).Underlying().(*types.Slice).Elem()
				nv.E[i] = x.materialise(&VarSl{Elem: et, Elems: []Value{root}}, st)
			}
		}
		x.assume(st, And(Lt(IntT(0), root), Lt(root, st.alloc)))
		fv := x.freshVal("decfail", nt, st, true)
		x.store(st, x.ptrOf(ifc.V, nt), nt, x.iteVal(ok, nv, fv, nt))
		return errIf(ok, "yamlErr"), st, true, true
	}
	return nil, nil, false, false
}

// decodeInto decodes the node root into a pointer to a pointer to a type with
// its own UnmarshalYAML: a null document resets the pointer, any other is
// handed to UnmarshalYAML.
func (x *Exec) decodeInto(u *ssa.Function, ifc *Ifc, et types.Type, root, okText *Term, st *State, pos token.Pos) (Value, *State, bool) {
	p := x.ptrOf(ifc.V, et)
	isNull := UF("yaml.DecNull", SBool, root)
	var sts []*State
	var vals []Value
	s1 := st.clone()
	s1.addPC(Not(okText))
	if !s1.dead() {
		e := Fresh("yamlErr", SVal)
		x.assume(s1, Not(Eq(e, VNil)))
		sts, vals = append(sts, s1), append(vals, e)
	}
	s2 := st.clone()
	s2.addPC(And(okText, isNull))
	if !s2.dead() {
		x.store(s2, p, et, x.zero(et))
		sts, vals = append(sts, s2), append(vals, VNil)
	}
	s3 := st.clone()
	s3.addPC(And(okText, Not(isNull)))
	if !s3.dead() {
		v := x.load(s3, p, et)
		x.oblige(s3, "nopanic", "nil-target of Decode", Not(Eq(x.term(v), IntT(0))), pos)
		r, s4, ok := x.callFn(u, []Value{v, root}, nil, s3, pos)
		if ok && !s4.dead() {
			e := Fresh("yamlErr", SVal) // wrapped
			x.assume(s4, Eq(Eq(e, VNil), Eq(x.term(r), VNil)))
			sts, vals = append(sts, s4), append(vals, e)
		}
	}
	if len(sts) == 0 {
		return nil, nil, false
	}
	et2 := types.Universe.Lookup("error").Type()
	mst, conds := x.mergeStates(sts)
	return x.iteVals(conds, vals, et2), mst, true
}

// decoded: what decoding a node into a variable of type t holding old gives.
func (x *Exec) decoded(t types.Type, old Value, node *Term) Value {
	onNull := old
	switch types.Unalias(t).Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Slice:
		onNull = x.zero(t)
	}
	return x.iteVal(UF("yaml.DecNull", SBool, node), onNull, x.ufResult("yaml.Dec:"+typeKey(t), t, []*Term{node}), t)
}

// nodeT: the struct type a method's pointer receiver points to.
func nodeT(f *ssa.Function) (*types.Struct, bool) {
	pt, ok := types.Unalias(f.Signature.Recv().Type()).Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	s, ok := types.Unalias(pt.Elem()).Underlying().(*types.Struct)
	return s, ok
}
