package raml

// Specification vocabulary. The verifier interprets calls of these functions
// symbolically; the bodies below run when a contract is replayed on a concrete
// input.

import (
	"math"
	"math/big"
	"reflect"

	orderedmap "github.com/wk8/go-ordered-map/v2"
	"github.com/zeebo/xxh3"
	"gopkg.in/yaml.v3"
)

type vClause struct {
	name   string
	cond   bool
	f      any
	define bool
}

type vRunT struct {
	requires []vClause
	ensures  []vClause
	modifies []any
	modTypes []reflect.Type
	modAny   bool
	hooks    bool
	props    []string
}

var vRun *vRunT

type vSkip struct{}

func vProp(ids ...string) {
	if vRun != nil {
		vRun.props = append(vRun.props, ids...)
	}
}
func vInline(fns ...string) {}
func vPureFuncs()           {}
func vNote(s string)        {}

// vTrust: the contract is assumed at calls; its function is not verified.
func vTrust(why string) {}
func vRequires(name string, c bool) {
	if vRun != nil {
		vRun.requires = append(vRun.requires, vClause{name: name, cond: c})
	}
}
func vEnsures(name string, f any) {
	if vRun != nil {
		vRun.ensures = append(vRun.ensures, vClause{name: name, f: f})
	}
}

// vProve is an ensures clause that callers are not given.
func vProve(name string, f any) { vEnsures(name, f) }
func vDefine(name string, f any) {
	if vRun != nil {
		vRun.ensures = append(vRun.ensures, vClause{name: name, f: f, define: true})
	}
}
func vModifies(targets ...any) {
	if vRun != nil {
		vRun.modifies = append(vRun.modifies, targets...)
	}
}
func vModifiesType[T any]() {
	if vRun != nil {
		var z *T
		vRun.modTypes = append(vRun.modTypes, reflect.TypeOf(z).Elem())
	}
}

// vNoWrites: of a contract that may change anything: nothing the function can
// reach writes that field of the struct type. Decided over the call graph.
func vNoWrites(typ, field string) {}
func vModifiesAny() {
	if vRun != nil {
		vRun.modAny = true
	}
}

// vHooks: the function may fire hooks. Registered hooks may change the hook
// registry and nothing else of the model.
func vHooks() {
	if vRun != nil {
		vRun.hooks = true
	}
}

// Set by the replay driver.
var (
	vRunStrs      func() []string
	vRunDump      func(x any) string
	vRunRan       func(n int) HookFunc
	vRunHookErr   func(n int) error
	vRunHookErrOf func(f HookFunc) error
)

// vDump is a text that is equal for structurally equal values.
func vDump(x any) string {
	if vRunDump == nil {
		panic(vSkip{})
	}
	return vRunDump(x)
}


func vElem(f func(i int) bool)        {}
func vElemKey(f any)                  {}
func vLoopInv(f any)                  {}
func vVisited[K comparable](k K) bool { panic(vSkip{}) }

func vForAll(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}
func vExists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}
func vForAllKeys[K comparable, V any](m map[K]V, f func(k K) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}
func vExistsKey[K comparable, V any](m map[K]V, f func(k K) bool) bool {
	for k := range m {
		if f(k) {
			return true
		}
	}
	return false
}
func vForAllStr(f func(s string) bool) bool {
	if vRunStrs == nil {
		panic(vSkip{})
	}
	for _, s := range vRunStrs() { // every string in reach and two others
		if !f(s) {
			return false
		}
	}
	return true
}
func vForAllVal(f func(v any) bool) bool    { panic(vSkip{}) }
func vForAllInt(f func(i int) bool) bool    { panic(vSkip{}) }
func vForAllRef[T any](f func(p *T) bool) bool {
	panic(vSkip{})
}
func vFresh(x any) bool { return true }
func vSame[T any](a, b T) bool {
	return vSameAny(any(a), any(b))
}

// vSameData: the same decoded value (decoding is a function; replayed, equal in structure).
func vSameData(a, b any) bool { return vDump(a) == vDump(b) }
func vSameAny(a, b any) bool { return vSameVal(reflect.ValueOf(a), reflect.ValueOf(b)) }
func vSameVal(va, vb reflect.Value) bool {
	if !va.IsValid() || !vb.IsValid() {
		return va.IsValid() == vb.IsValid()
	}
	if va.Type() != vb.Type() {
		return false
	}
	switch va.Kind() {
	case reflect.Interface:
		return vSameVal(va.Elem(), vb.Elem())
	case reflect.Map, reflect.Pointer, reflect.Func, reflect.Chan:
		return va.Pointer() == vb.Pointer()
	case reflect.Slice:
		return va.Len() == vb.Len() && va.IsNil() == vb.IsNil() && (va.Len() == 0 || va.Pointer() == vb.Pointer())
	case reflect.Float64:
		if math.IsNaN(va.Float()) && math.IsNaN(vb.Float()) {
			return true
		}
	case reflect.Struct:
		for i := 0; i < va.NumField(); i++ {
			if !vSameVal(va.Field(i), vb.Field(i)) {
				return false
			}
		}
		return true
	}
	return va.Comparable() && vb.Comparable() && va.Equal(vb)
}

func vOMLen[K comparable, V any](m *orderedmap.OrderedMap[K, V]) int {
	if m == nil {
		return 0
	}
	return m.Len()
}
func vOMKey[K comparable, V any](m *orderedmap.OrderedMap[K, V], i int) (k K) {
	if m == nil {
		return
	}
	for p := m.Oldest(); p != nil; p = p.Next() {
		if i == 0 {
			return p.Key
		}
		i--
	}
	return
}
func vOMVal[K comparable, V any](m *orderedmap.OrderedMap[K, V], i int) (v V) {
	if m == nil {
		return
	}
	for p := m.Oldest(); p != nil; p = p.Next() {
		if i == 0 {
			return p.Value
		}
		i--
	}
	return
}
func vOMIdx[K comparable, V any](m *orderedmap.OrderedMap[K, V], k K) int {
	if m == nil {
		return -1
	}
	i := 0
	for p := m.Oldest(); p != nil; p = p.Next() {
		if p.Key == k {
			return i
		}
		i++
	}
	return -1
}
func vOMHas[K comparable, V any](m *orderedmap.OrderedMap[K, V], k K) bool {
	if m == nil {
		return false
	}
	_, ok := m.Get(k)
	return ok
}
func vOMGet[K comparable, V any](m *orderedmap.OrderedMap[K, V], k K) (v V) {
	if m == nil {
		return
	}
	v, _ = m.Get(k)
	return
}
func vHasKey[K comparable, V any](m map[K]V, k K) bool { _, ok := m[k]; return ok }
func vSnapOM[K comparable, V any](m *orderedmap.OrderedMap[K, V]) *orderedmap.OrderedMap[K, V] {
	if m == nil {
		return nil
	}
	n := orderedmap.New[K, V]()
	for p := m.Oldest(); p != nil; p = p.Next() {
		n.Set(p.Key, p.Value)
	}
	return n
}
func vSnapMap[K comparable, V any](m map[K]V) map[K]V {
	if m == nil {
		return nil
	}
	n := map[K]V{}
	for k, v := range m {
		n[k] = v
	}
	return n
}
func vSnapSlice[T any](s []T) []T {
	if s == nil {
		return nil
	}
	return append(make([]T, 0, len(s)), s...)
}
func vSnapPtr[T any](p *T) *T {
	if p == nil {
		return nil
	}
	c := *p
	return &c
}
func vOld[T any](f func() T) T { panic(vSkip{}) }
func vImplies(a, b bool) bool  { return !a || b }
func vIff(a, b bool) bool      { return a == b }
func vTrunc(f float64) float64 { return math.Trunc(f) }
func vRefID(x any) int         { return 0 }
func vFuncID(f any) int        { return int(reflect.ValueOf(f).Pointer()) }
func vWasAllocated(x any) bool { return true }
func vDynType(x any) int       { panic(vSkip{}) }
func vComparable(x any) bool   { return x == nil || reflect.ValueOf(x).Comparable() }
func vIsWhole(f float64) bool  { return !math.IsNaN(f) && !math.IsInf(f, 0) && math.Trunc(f) == f }

// vInvariant is a data invariant of the model: assumed on entry, not demanded
// of callers (listed as an assumption in the evidence).
func vInvariant(name string, c bool) { vRequires(name, c) }

// vNumF is the exact numeric value of v (nil: not a number).
func vNumF(v any) *big.Float {
	f := new(big.Float).SetPrec(2000)
	switch n := v.(type) {
	case int:
		return f.SetInt64(int64(n))
	case int64:
		return f.SetInt64(n)
	case uint:
		return f.SetUint64(uint64(n))
	case uint64:
		return f.SetUint64(n)
	case float64:
		if math.IsNaN(n) {
			return nil
		}
		return f.SetFloat64(n)
	case *big.Int:
		return f.SetInt(n)
	case *big.Float:
		return n
	}
	return nil
}
func vIsNum(v any) bool { return vNumF(v) != nil }
func vNumIsInt(v any) bool {
	f := vNumF(v)
	return f != nil && f.IsInt()
}
func vNumLe(a, b any) bool {
	x, y := vNumF(a), vNumF(b)
	return x != nil && y != nil && x.Cmp(y) <= 0
}
func vNumEq(a, b any) bool {
	x, y := vNumF(a), vNumF(b)
	return x != nil && y != nil && x.Cmp(y) == 0
}

func vHash64(s string) uint64 { return xxh3.HashString(s) }

// vDecOK: the YAML node n decodes into a T.
func vDecOK[T any](n *yaml.Node) bool { var v T; return n.Decode(&v) == nil }

// vIsDec: v is what decoding n into a variable holding old gives.
func vIsDec[T any](v T, n *yaml.Node, old T) bool {
	w := old
	return n.Decode(&w) == nil && vDump(w) == vDump(v)
}
