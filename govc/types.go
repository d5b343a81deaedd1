package main

import (
	"regexp"
	"sync"

	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// Value is a symbolic Go value: *Term, *Tup, *Ptr, *Clo, *Ifc, *VarSl, *MapIter.
type Value interface{}

type Tup struct{ E []Value }

type CellID struct {
	id   int
	name string
	t    types.Type
}

type Ptr struct {
	Kind string // cell, fld, elem, om, glob
	Cell *CellID
	Base *Term      // fld: object ref; elem: slice ref; om: map ref
	Idx  *Term      // elem/om index
	Root string     // heap root key ("raml.BaseShape", "[]T", om type key, global name)
	Path string     // leaf path prefix below the root
	T    types.Type // type pointed to
	CP   []int      // cell: path of field indices / array indices
}

type Clo struct {
	Fn   interface{} // *ssa.Function
	Bind []Value
}

type Ifc struct {
	T types.Type
	V Value
}

type VarSl struct {
	Elems []Value
	Elem  types.Type
}

type MapIter struct {
	PosFn string
	Dom   *Term
	M     *Term
	MT    *types.Map
	K     *Term // array Int -> key
	Pos   *CellID
	N     *Term
	Str   bool
	StrV  *Term
}

type Leaf struct {
	Path string
	Sort string
	T    types.Type // type of the leaf's owner value (for facts)
	Kind string     // bool,int,str,flt,ref,val,sref,soff,slen,scap,func,pairm,pairi,opaque,big
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func qual(p *types.Package) string {
	if p == nil {
		return ""
	}
	return p.Name()
}

var aliasRe = regexp.MustCompile(`\b(any|byte|rune)\b`)
var typeKeys sync.Map

// canonAlias spells the predeclared aliases out.
func canonAlias(k string) string {
	return aliasRe.ReplaceAllStringFunc(k, func(s string) string {
		switch s {
		case "byte":
			return "uint8"
		case "rune":
			return "int32"
		}
		return "interface{}"
	})
}

func typeKey(t types.Type) string {
	if k, ok := typeKeys.Load(t); ok {
		return k.(string)
	}
	k := canonAlias(types.TypeString(types.Unalias(t), qual))
	typeKeys.Store(t, k)
	return k
}

// named external struct types treated as one opaque leaf or with a ghost model
func ghostStruct(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return ""
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return ""
	}
	switch o.Pkg().Path() + "." + o.Name() {
	case "math/big.Int":
		return "big"
	case "math/big.Float":
		return "bigf"
	}
	if o.Pkg().Path() == ramlPath || o.Pkg().Path() == "gopkg.in/yaml.v3" {
		return ""
	}
	if o.Pkg().Path() == "github.com/acronis/go-stacktrace" && o.Name() == "Position" {
		return ""
	}
	if _, ok := n.Underlying().(*types.Struct); ok {
		return "opaque"
	}
	return ""
}

var ramlPath = "github.com/acronis/go-raml/v2"

func isPair(t types.Type) (*types.Named, bool) {
	p, ok := types.Unalias(t).Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok {
		return nil, false
	}
	if n.Obj().Name() == "Pair" && n.Obj().Pkg() != nil && strings.Contains(n.Obj().Pkg().Path(), "go-ordered-map") {
		return n, true
	}
	return nil, false
}

func isOM(t types.Type) (*types.Named, bool) {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil, false
	}
	if n.Obj().Name() == "OrderedMap" && n.Obj().Pkg() != nil && strings.Contains(n.Obj().Pkg().Path(), "go-ordered-map") {
		return n, true
	}
	return nil, false
}

func omKV(n *types.Named) (types.Type, types.Type) { return n.TypeArgs().At(0), n.TypeArgs().At(1) }
func omRoot(n *types.Named) string {
	k, v := omKV(n)
	return "om[" + typeKey(k) + "," + typeKey(v) + "]"
}

var leafCache = map[string][]Leaf{}

func leaves(t types.Type) []Leaf {
	key := types.TypeString(types.Unalias(t), nil)
	if l, ok := leafCache[key]; ok {
		return l
	}
	l := leaves1(t, 0)
	leafCache[key] = l
	return l
}

func leaves1(t types.Type, depth int) []Leaf {
	if depth > 12 {
		unsup("type nesting too deep: %s", t)
	}
	t = types.Unalias(t)
	if g := ghostStruct(t); g == "big" {
		return []Leaf{{"", SInt, t, "big"}}
	} else if g == "bigf" {
		return []Leaf{{"", SFlt, t, "bigf"}}
	} else if g == "opaque" {
		return []Leaf{{"", SInt, t, "opaque"}}
	}
	if _, ok := isPair(t); ok {
		return []Leaf{{"#m", SInt, t, "ref"}, {"#i", SInt, t, "pairi"}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", SBool, t, "bool"}}
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{"", SInt, t, "int"}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{"", SFlt, t, "flt"}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", SStr, t, "str"}}
		case u.Kind() == types.UnsafePointer:
			return []Leaf{{"", SInt, t, "opaque"}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{"", SInt, t, "ref"}}
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return []Leaf{{"", SInt, t, "ref"}}
	case *types.Signature:
		return []Leaf{{"", SInt, t, "func"}}
	case *types.Slice:
		return []Leaf{{"#ref", SInt, t, "sref"}, {"#off", SInt, t, "soff"}, {"#len", SInt, t, "slen"}, {"#cap", SInt, t, "scap"}}
	case *types.Interface:
		return []Leaf{{"", SVal, t, "val"}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves1(f.Type(), depth+1) {
				l.Path = "." + f.Name() + l.Path
				out = append(out, l)
			}
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves1(u.At(i).Type(), depth+1) {
				l.Path = fmt.Sprintf(".%d%s", i, l.Path)
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		return []Leaf{{"", SInt, t, "opaque"}}
	}
	unsup("no representation for type %s", t)
	return nil
}

// sub-value structure of a type
func subTypes(t types.Type) []types.Type {
	t = types.Unalias(t)
	if ghostStruct(t) != "" {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		out := make([]types.Type, u.NumFields())
		for i := range out {
			out[i] = u.Field(i).Type()
		}
		return out
	case *types.Tuple:
		out := make([]types.Type, u.Len())
		for i := range out {
			out[i] = u.At(i).Type()
		}
		return out
	}
	return nil
}

func isStructLike(t types.Type) bool {
	t = types.Unalias(t)
	if ghostStruct(t) != "" {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Tuple:
		return true
	}
	return false
}

func isSlice(t types.Type) bool { _, ok := types.Unalias(t).Underlying().(*types.Slice); return ok }
func isIface(t types.Type) bool { _, ok := types.Unalias(t).Underlying().(*types.Interface); return ok }

// fromLeaves builds a Value of type t out of leaf terms.
func fromLeaves(ts []*Term, t types.Type) Value {
	v, rest := fromLeaves1(ts, t)
	if len(rest) != 0 {
		panic("fromLeaves: leftover for " + t.String())
	}
	return v
}
func fromLeaves1(ts []*Term, t types.Type) (Value, []*Term) {
	if isStructLike(t) {
		tup := &Tup{}
		for _, st := range subTypes(t) {
			var v Value
			v, ts = fromLeaves1(ts, st)
			tup.E = append(tup.E, v)
		}
		return tup, ts
	}
	n := len(leaves(t))
	if n == 1 {
		return ts[0], ts[1:]
	}
	tup := &Tup{}
	for i := 0; i < n; i++ {
		tup.E = append(tup.E, ts[i])
	}
	return tup, ts[n:]
}

// ---- type tags
var tagTab = map[string]int{}
var tagTypes []types.Type

func tagID(t types.Type) int {
	k := canonAlias(types.TypeString(types.Unalias(t), nil))
	if id, ok := tagTab[k]; ok {
		return id
	}
	id := len(tagTab) + 1
	tagTab[k] = id
	tagTypes = append(tagTypes, t)
	return id
}
func tagT(t types.Type) *Term { return IntT(int64(tagID(t))) }

// constructor used to box values of dynamic type t
func boxCons(t types.Type) (cons, tester, tagSel, valSel string) {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "VB", "(_ is VB)", "vbt", "vb"
		case u.Info()&types.IsInteger != 0:
			return "VI", "(_ is VI)", "vit", "vi"
		case u.Info()&types.IsFloat != 0:
			return "VF", "(_ is VF)", "vft", "vf"
		case u.Info()&types.IsString != 0:
			return "VS", "(_ is VS)", "vst", "vs"
		}
	case *types.Slice:
		return "VSl", "(_ is VSl)", "vslt", ""
	}
	return "VR", "(_ is VR)", "vrt", "vr"
}

func isCons_(v *Term, cons string) *Term {
	if v.Op == "cons" {
		return BoolT(v.Name == cons)
	}
	if v.Op == "ite" {
		a, b := isCons_(v.Args[1], cons), isCons_(v.Args[2], cons)
		if a == True || a == False || b == True || b == False {
			return Ite(v.Args[0], a, b)
		}
	}
	return mk("app", SBool, "(_ is "+cons+")", v)
}

var consFields = map[string][]string{
	"VB": {"vbt", "vb"}, "VI": {"vit", "vi"}, "VF": {"vft", "vf"}, "VS": {"vst", "vs"}, "VR": {"vrt", "vr"},
	"VSl": {"vslt", "vslr", "vslo", "vsll", "vslc"},
}
var selSort = map[string]string{"vbt": SInt, "vb": SBool, "vit": SInt, "vi": SInt, "vft": SInt, "vf": SFlt, "vst": SInt, "vs": SStr,
	"vrt": SInt, "vr": SInt, "vslt": SInt, "vslr": SInt, "vslo": SInt, "vsll": SInt, "vslc": SInt}

func sel(name string, v *Term) *Term {
	if v.Op == "cons" {
		for i, f := range consFields[v.Name] {
			if f == name {
				return v.Args[i]
			}
		}
	}
	if v.Op == "ite" {
		a, b := v.Args[1], v.Args[2]
		if a.Op == "cons" || b.Op == "cons" {
			// selector on the wrong constructor is unspecified: take the other branch
			has := func(t *Term) int {
				if t.Op != "cons" {
					return 0
				}
				for _, f := range consFields[t.Name] {
					if f == name {
						return 1
					}
				}
				return -1
			}
			if has(a) < 0 {
				return sel(name, b)
			}
			if has(b) < 0 {
				return sel(name, a)
			}
			return Ite(v.Args[0], sel(name, a), sel(name, b))
		}
	}
	return mk("app", selSort[name], name, v)
}

// isType: dynamic type of interface term v is exactly t
func isType(v *Term, t types.Type) *Term {
	c, _, ts, _ := boxCons(t)
	return And(isCons_(v, c), Eq(sel(ts, v), tagT(t)))
}

func box(leafs []*Term, t types.Type) *Term {
	c, _, _, _ := boxCons(t)
	args := append([]*Term{tagT(t)}, leafs...)
	return Cons(c, SVal, args...)
}

var VNil = Cons("VNil", SVal)

// ---- ranges
func intRange(t types.Type) (lo, hi *big.Int) {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	if !ok {
		return nil, nil
	}
	pow := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	one := big.NewInt(1)
	sgn := func(n uint) (*big.Int, *big.Int) {
		return new(big.Int).Neg(pow(n - 1)), new(big.Int).Sub(pow(n-1), one)
	}
	uns := func(n uint) (*big.Int, *big.Int) { return big.NewInt(0), new(big.Int).Sub(pow(n), one) }
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return sgn(64)
	case types.Int32, types.UntypedRune:
		return sgn(32)
	case types.Int16:
		return sgn(16)
	case types.Int8:
		return sgn(8)
	case types.Uint, types.Uint64, types.Uintptr:
		return uns(64)
	case types.Uint32:
		return uns(32)
	case types.Uint16:
		return uns(16)
	case types.Uint8:
		return uns(8)
	}
	return nil, nil
}

func inRange(x *Term, t types.Type) *Term {
	lo, hi := intRange(t)
	if lo == nil {
		return True
	}
	return And(Le(IntB(lo), x), Le(x, IntB(hi)))
}

// leafFact gives the type invariant of a leaf value (alloc bounds references).
func leafFact(l Leaf, x *Term, alloc *Term) *Term { return leafFactAt(l, x, alloc, nil) }

// leafFactAt: the value is stored in object r; objects that are allocated only
// later (r >= alloc) may refer to other later objects.
func leafFactAt(l Leaf, x *Term, alloc *Term, r *Term) *Term {
	// objects allocated later refer to objects that exist once their allocation is complete
	var gen *Term
	if r != nil {
		gen = UF("gen", SInt, r)
	}
	switch l.Kind {
	case "int":
		return inRange(x, l.T)
	case "ref", "sref":
		if r == nil {
			return And(Le(IntT(0), x), Lt(x, alloc))
		}
		return And(Le(IntT(0), x), Lt(x, Ite(Lt(r, alloc), alloc, gen)))
	case "func":
		return Le(IntT(0), x)
	case "soff":
		return Eq(x, IntT(0))
	case "slen", "scap":
		return And(Le(IntT(0), x), Le(x, IntT(1<<50)))
	case "val":
		if r == nil {
			return App("wfVal", SBool, x, alloc)
		}
		return App("wfVal", SBool, x, Ite(Lt(r, alloc), alloc, gen))
	}
	return True
}

// groupFacts: facts relating the leaves of one value (slices)
func groupFacts(ls []Leaf, xs []*Term) []*Term {
	var out []*Term
	for i, l := range ls {
		if l.Kind == "sref" {
			ref, ln, cp := xs[i], xs[i+2], xs[i+3]
			out = append(out, Le(ln, cp), Implies(Eq(ref, IntT(0)), And(Eq(ln, IntT(0)), Eq(cp, IntT(0)))))
		}
	}
	return out
}
