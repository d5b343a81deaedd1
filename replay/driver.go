package raml

// Replay driver: runs contracts as oracles over generated inputs of the real
// code. It is used after the verifier has left an obligation undischarged, to
// look for a concrete failing input.

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
	"unsafe"

	orderedmap "github.com/wk8/go-ordered-map/v2"
	"gopkg.in/yaml.v3"
)

type vRep struct {
	name             string
	contract, target any
}

// ---------------------------------------------------------------- generator

type vGen struct {
	r     *rand.Rand
	raml  *RAML
	id    int64
	kind  string // kind of the first type generated
	rich  bool   // fill the model tables
	bases []*BaseShape
	stop  int
}

func (g *vGen) n(k int) int       { return g.r.Intn(k) }
func (g *vGen) p(pc int) bool     { return g.r.Intn(100) < pc }
func pick[T any](g *vGen, l ...T) T { return l[g.n(len(l))] }

func (g *vGen) str() string {
	return pick(g, "a", "b", "c", "ab", "lib", "T", "lib.T", "lib.a", "x.y.T", "", "é", "aé", "日本", "5", "abc", "a?", "/a/", "2020-01-02", "10:00:00", "a.raml", "sub/a.raml", `{"a": [1, "x"]}`, "{x", "2020-01-02T03:04:05", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05+01:00", "Mon, 02 Jan 2006 15:04:05 GMT", "Mon, 02 Jan 2006 15:04:05 UTC")
}

func (g *vGen) name() string { return pick(g, "a", "b", "c", "T", "ab", "lib.T", "lib.a", "lib", "d") }

func (g *vGen) f64() float64 {
	return pick(g, 0, 1, 2, 3, -1, 0.5, 1.5, 4, 9007199254740992, 9007199254740993, 9223372036854775808, 1e300, math.Inf(1), math.NaN(), -0.25)
}

func (g *vGen) big() *big.Int {
	s := pick(g, "0", "1", "2", "3", "-1", "5", "9007199254740993", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "100000000000000000000")
	b, _ := new(big.Int).SetString(s, 10)
	return b
}

func (g *vGen) anyv(d int) any {
	k := g.n(14)
	if d <= 0 && k >= 11 {
		k = g.n(11)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return g.p(50)
	case 2, 3:
		return pick(g, 0, 1, 2, 3, -1, 5, 9007199254740993)
	case 4:
		return pick[int64](g, 0, 1, 2, math.MaxInt64, math.MinInt64)
	case 5:
		return pick[uint64](g, 0, 1, 2, math.MaxUint64, 1<<63)
	case 6:
		return g.f64()
	case 7:
		return float64(g.n(4))
	case 8, 9, 10:
		return g.str()
	case 11, 12:
		m := map[string]any{}
		for i := g.n(4); i > 0; i-- {
			m[g.name()] = g.anyv(d - 1)
		}
		return m
	}
	l := make([]any, 0, 3)
	for i := g.n(4); i > 0; i-- {
		l = append(l, g.anyv(d-1))
	}
	return l
}

var vKinds = map[string]reflect.Type{
	"any": reflect.TypeOf(AnyShape{}), "string": reflect.TypeOf(StringShape{}), "integer": reflect.TypeOf(IntegerShape{}), "number": reflect.TypeOf(NumberShape{}),
	"boolean": reflect.TypeOf(BooleanShape{}), "file": reflect.TypeOf(FileShape{}), "datetime": reflect.TypeOf(DateTimeShape{}), "datetime-only": reflect.TypeOf(DateTimeOnlyShape{}),
	"date-only": reflect.TypeOf(DateOnlyShape{}), "time-only": reflect.TypeOf(TimeOnlyShape{}), "nil": reflect.TypeOf(NilShape{}), "object": reflect.TypeOf(ObjectShape{}),
	"array": reflect.TypeOf(ArrayShape{}), "union": reflect.TypeOf(UnionShape{}), "json": reflect.TypeOf(JSONShape{}), "recursive": reflect.TypeOf(RecursiveShape{}), "unknown": reflect.TypeOf(UnknownShape{}),
}
var vKindNames = []string{"any", "string", "integer", "number", "boolean", "file", "datetime", "datetime-only", "date-only", "time-only", "nil", "object", "array", "union", "string", "integer", "object", "array", "json", "recursive", "unknown"}

// base generates a type of the given kind ("" for any).
func (g *vGen) base(kind string, d int) *BaseShape {
	if kind == "" {
		if g.kind != "" && g.p(50) && d > 0 {
			kind = g.kind
		} else {
			kind = vKindNames[g.n(len(vKindNames))]
			for d <= 0 && (kind == "object" || kind == "array" || kind == "union" || kind == "recursive") {
				kind = vKindNames[g.n(11)]
			}
		}
		if (kind == "json" || kind == "unknown") && g.p(60) {
			kind = "string"
		}
	}
	if g.kind == "" {
		g.kind = kind
	}
	g.id++
	b := &BaseShape{ID: g.id, Name: g.name(), Type: kind, raml: g.raml, Location: pick(g, "/a.raml", "/b.raml")}
	if kind == "unknown" || g.p(5) {
		b.Type = g.name()
	}
	g.bases = append(g.bases, b)
	rv := reflect.ValueOf(b).Elem()
	for _, f := range []string{"DisplayName", "Description", "Example", "Examples", "Default", "Required", "CustomShapeFacets", "CustomShapeFacetDefinitions", "CustomDomainProperties"} {
		fv := rv.FieldByName(f)
		if fv.IsValid() && g.p(25) && (d > 0 || f == "Description" || f == "Required") {
			fv.Set(g.val(fv.Type(), d-1, f))
		}
	}
	for _, f := range []string{"CustomShapeFacets", "CustomShapeFacetDefinitions", "CustomDomainProperties"} {
		if fv := rv.FieldByName(f); fv.IsValid() && fv.IsNil() {
			fv.Set(g.val(fv.Type(), -2, f))
			if fv.IsNil() {
				fv.Set(newOM(fv.Type()))
			}
		}
	}
	if g.p(10) && d > 0 {
		for i := g.n(3); i > 0; i-- {
			b.Inherits = append(b.Inherits, g.base("", d-1))
		}
	}
	if g.p(5) && d > 0 {
		b.Alias = g.base("", d-1)
	}
	b.unwrapped = g.p(20)
	sv := reflect.New(vKinds[kind])
	st := sv.Elem()
	for i := 0; i < st.NumField(); i++ {
		f := reflect.NewAt(st.Field(i).Type(), st.Field(i).Addr().UnsafePointer()).Elem()
		if f.Type() == reflect.TypeOf(b) && st.Type().Field(i).Name == "BaseShape" {
			f.Set(reflect.ValueOf(b))
			continue
		}
		if st.Type().Field(i).Name == "Head" {
			f.Set(reflect.ValueOf(g.base("", d-1)))
			continue
		}
		f.Set(g.val(f.Type(), d-1, st.Type().Field(i).Name))
	}
	b.Shape = sv.Interface().(Shape)
	return b
}

func newOM(t reflect.Type) reflect.Value {
	v := reflect.New(t.Elem())
	if u, ok := v.Interface().(json.Unmarshaler); ok {
		if err := u.UnmarshalJSON([]byte("{}")); err != nil {
			panic(vSkip{})
		}
	}
	return v
}

func isOMType(t reflect.Type) bool {
	return t.Kind() == reflect.Pointer && strings.HasPrefix(t.Elem().Name(), "OrderedMap[")
}

type vErr string

func (e vErr) Error() string { return string(e) }

var vHookLog []struct {
	f   HookFunc
	err error
}

func vLog(f HookFunc, err error) error {
	vHookLog = append(vHookLog, struct {
		f   HookFunc
		err error
	}{f, err})
	ghostN++
	return err
}
func vHook1(context.Context, *RAML, ...any) error { return vLog(vHook1x, nil) }
func vHook2(context.Context, *RAML, ...any) error { return vLog(vHook2x, nil) }
func vHook3(context.Context, *RAML, ...any) error { return vLog(vHook3x, vErr("hook 3")) }
func vHook4(context.Context, *RAML, ...any) error { return vLog(vHook4x, vErr("hook 4")) }

var vHook1x, vHook2x, vHook3x, vHook4x HookFunc

func init() {
	vHook1x, vHook2x, vHook3x, vHook4x = vHook1, vHook2, vHook3, vHook4
	vRunRan = func(n int) HookFunc { return vHookLog[n].f }
	vRunHookErr = func(n int) error { return vHookLog[n].err }
	vRunHookErrOf = func(f HookFunc) error {
		switch vFuncID(f) {
		case vFuncID(vHook3x):
			return vErr("hook 3")
		case vFuncID(vHook4x):
			return vErr("hook 4")
		}
		return nil
	}
	vRunStrs = func() []string {
		if vCurStrs == nil {
			w := &vDumper{seen: map[vPtrKey]int{}, strs: map[string]bool{"~": true, "zz": true}}
			for _, a := range vCurVals {
				w.dump(a, 0)
			}
			for s := range w.strs {
				vCurStrs = append(vCurStrs, s)
			}
		}
		return vCurStrs
	}
	vRunDump = func(x any) string {
		w := &vDumper{seen: map[vPtrKey]int{}}
		w.dump(reflect.ValueOf(x), 0)
		return w.sb.String()
	}
}

var vCurStrs []string
var vCurVals []reflect.Value

func (g *vGen) model() *RAML {
	if g.raml == nil {
		g.raml = New(context.Background())
		if !g.rich {
			return g.raml
		}
		r := g.raml
		ctx := r.ctx
		for _, k := range []HookKey{"k1", "k2", HookKey(pick(g, vAllKeys...))} {
			var hs []HookFunc
			for i := g.n(4); i > 0; i-- {
				hs = append(hs, pick[HookFunc](g, vHook1x, vHook1x, vHook2x, vHook3x, vHook4x))
			}
			if len(hs) > 0 {
				ctx = context.WithValue(ctx, k, hs)
			}
		}
		r.ctx = ctx
		if g.p(5) {
			r.ctx = nil
		}
		rv := reflect.ValueOf(r).Elem()
		for i := 0; i < rv.NumField(); i++ {
			n := rv.Type().Field(i).Name
			if strings.HasPrefix(n, "fragment") || n == "domainExtensions" || n == "shapes" || n == "entryPoint" {
				f := reflect.NewAt(rv.Field(i).Type(), rv.Field(i).Addr().UnsafePointer()).Elem()
				v := g.val(f.Type(), 3, n)
				if v.Kind() == reflect.Map && v.IsNil() {
					continue
				}
				f.Set(v)
			}
		}
		r.idCounter = 100
	}
	return g.raml
}

var vAllKeys = []string{"k1", "k2", "a"}

func (g *vGen) val(t reflect.Type, d int, name string) reflect.Value {
	out := reflect.New(t).Elem()
	switch t {
	case reflect.TypeOf((*RAML)(nil)):
		return reflect.ValueOf(g.model())
	case reflect.TypeOf((*BaseShape)(nil)):
		if g.p(15) && name != "Base" || d < -3 {
			return out
		}
		return reflect.ValueOf(g.base("", d))
	case reflect.TypeOf((*big.Int)(nil)):
		if g.p(40) {
			return out
		}
		return reflect.ValueOf(g.big())
	case reflect.TypeOf((*regexp.Regexp)(nil)):
		if g.p(50) && name != "Pattern" {
			return out
		}
		return reflect.ValueOf(regexp.MustCompile(pick(g, "^a", "b$", "^$", ".", "^[ab]+$", "c")))
	case reflect.TypeOf((*yaml.Node)(nil)):
		return reflect.ValueOf(g.yaml(d+1, name))
	case reflect.TypeOf((HookFunc)(nil)):
		return reflect.ValueOf(pick[HookFunc](g, vHook1x, vHook2x, vHook3x, vHook4x))
	case reflect.TypeOf(json.Number("")):
		return reflect.ValueOf(json.Number(pick(g, "", "1", "2.5", "-3")))
	case reflect.TypeOf((*Node)(nil)):
		if g.p(10) && name != "Data" && name != "Extension" && name != "elem" {
			return out
		}
		g.id++
		return reflect.ValueOf(&Node{ID: fmt.Sprint(g.id), Value: g.anyv(d), raml: g.raml})
	case reflect.TypeOf((*Example)(nil)):
		if g.p(20) && name != "elem" {
			return out
		}
		e := &Example{Name: g.name(), Strict: g.p(80), raml: g.raml}
		if g.p(95) {
			e.Data = &Node{Value: g.anyv(d), raml: g.raml}
		}
		return reflect.ValueOf(e)
	case reflect.TypeOf(time.Duration(0)):
		return out
	}
	if isOMType(t) {
		if g.p(30) {
			return out
		}
		m := newOM(t)
		set := m.MethodByName("Set")
		if d > -1 {
			for i := g.n(4); i > 0; i-- {
				k := reflect.New(set.Type().In(0)).Elem()
				if k.Kind() == reflect.String {
					k.SetString(g.name())
					if name == "PatternProperties" {
						k.SetString("/" + g.name() + "/")
					}
				}
				v := g.val(set.Type().In(1), d-1, "elem")
				if v.Kind() == reflect.Pointer && v.IsNil() {
					continue
				}
				if f := v; f.Kind() == reflect.Struct && f.FieldByName("Base").IsValid() && f.FieldByName("Base").IsNil() {
					continue
				}
				set.Call([]reflect.Value{k, v})
			}
		}
		return m
	}
	switch t.Kind() {
	case reflect.Bool:
		out.SetBool(g.p(50))
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		out.SetInt(int64(g.n(5)))
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint8, reflect.Uint16:
		out.SetUint(uint64(pick(g, 0, 1, 2, 3, 4, 1, 2)))
		if t.Kind() == reflect.Uint64 && g.p(5) {
			out.SetUint(math.MaxUint64)
		}
	case reflect.Float64, reflect.Float32:
		out.SetFloat(g.f64())
	case reflect.String:
		switch {
		case name == "Format":
			out.SetString(pick(g, "rfc3339", "rfc2616", "int8", "int16", "int32", "int64", "int", "long", "float", "double", "zz"))
		case t.Name() == "HookKey":
			out.SetString(pick(g, "k1", "k2"))
		case strings.EqualFold(name, "location"):
			out.SetString(pick(g, "/a.raml", "/b.raml", "/c.raml"))
		case g.p(60):
			out.SetString(g.name())
		default:
			out.SetString(g.str())
		}
	case reflect.Pointer:
		for k, kt := range vKinds {
			if t.Elem() == kt {
				return reflect.ValueOf(g.base(k, d).Shape)
			}
		}
		pc := 40
		if t.Elem().Kind() == reflect.Struct {
			pc = 10
			if d < 1 {
				pc = 60
			}
			if d < -1 {
				pc = 100
			}
		}
		if g.p(pc) {
			return out
		}
		out.Set(reflect.New(t.Elem()))
		out.Elem().Set(g.val(t.Elem(), d, name))
	case reflect.Slice:
		if g.p(20) {
			return out
		}
		n := g.n(4)
		if d < 0 && n > 1 {
			n = 1
		}
		out.Set(reflect.MakeSlice(t, 0, n+1))
		for i := 0; i < n; i++ {
			v := g.val(t.Elem(), d-1, "elem")
			if v.Kind() == reflect.Pointer && v.IsNil() {
				continue
			}
			out.Set(reflect.Append(out, v))
		}
	case reflect.Map:
		if g.p(15) {
			return out
		}
		out.Set(reflect.MakeMap(t))
		if d < -1 {
			return out
		}
		for i := g.n(4); i > 0; i-- {
			kn := "key"
			if strings.HasPrefix(name, "fragment") {
				kn = "location"
			}
			k := g.val(t.Key(), 0, kn)
			v := g.val(t.Elem(), d-1, "elem")
			if (v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface || v.Kind() == reflect.Map) && v.IsNil() {
				continue
			}
			out.SetMapIndex(k, v)
		}
	case reflect.Struct:
		if t.PkgPath() == "container/list" || strings.HasPrefix(t.PkgPath(), "sync") {
			return out
		}
		for i := 0; i < t.NumField(); i++ {
			f := reflect.NewAt(t.Field(i).Type, out.Field(i).Addr().UnsafePointer()).Elem()
			f.Set(g.val(f.Type(), d-1, t.Field(i).Name))
		}
	case reflect.Interface:
		switch {
		case t.NumMethod() == 0:
			if v := g.anyv(d); v != nil {
				out.Set(reflect.ValueOf(v))
			}
		case t == reflect.TypeOf((*Shape)(nil)).Elem():
			if !g.p(3) {
				out.Set(reflect.ValueOf(g.base("", d).Shape))
			}
		case t == reflect.TypeOf((*error)(nil)).Elem():
			if g.p(50) {
				out.Set(reflect.ValueOf(errors.New("e")))
			}
		case t == reflect.TypeOf((*context.Context)(nil)).Elem():
			out.Set(reflect.ValueOf(context.Background()))
		case t == reflect.TypeOf((*Fragment)(nil)).Elem():
			ft := pick(g, reflect.TypeOf((*Library)(nil)), reflect.TypeOf((*Library)(nil)), reflect.TypeOf((*DataType)(nil)), reflect.TypeOf((*NamedExample)(nil)))
			v := reflect.New(ft.Elem())
			v.Elem().Set(g.val(ft.Elem(), d, name))
			out.Set(v)
		}
	}
	return out
}

// yaml generates a YAML node.
func (g *vGen) yaml(d int, name string) *yaml.Node {
	k := g.n(10)
	if d <= 0 {
		k = g.n(6)
	}
	sc := func(tag, v string) *yaml.Node { return &yaml.Node{Kind: yaml.ScalarNode, Tag: tag, Value: v, Line: 1, Column: 1} }
	switch {
	case k < 3:
		return sc("!!str", pick(g, g.str(), g.name(), "type", "properties", "string", "object", "a | b", "string[]", "a?", "/^a/", "//", "int64"))
	case k < 6:
		return pick(g, sc("!!int", pick(g, "0", "1", "2", "-1", "99999999999999999999", "0x10")), sc("!!float", pick(g, "1.5", "2", ".nan", ".inf", "1e400")), sc("!!bool", pick(g, "true", "false", "yes")), sc("!!null", pick(g, "", "null", "~")), sc("!!timestamp", "2020-01-02"), sc("!!binary", "aGk="), sc("!x", "q"), sc("!include", "nofile.yaml"), sc("!include", pick(g, "inc.yaml", "inc.json", "inc.txt", "sub/inc.yaml", "bad.yaml", "bad.json", "sub/n.yml", "../inc.txt")))
	case k < 8:
		n := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map", Line: 1, Column: 1}
		seen := map[string]bool{}
		for i := g.n(4); i > 0; i-- {
			key := sc("!!str", pick(g, g.name(), "type", "properties", "items", "minLength", "enum", "required", "facets", "(a)", "minimum", "value", "strict", "description", "/a/", "a?"))
			if seen[key.Value] && g.p(90) {
				continue
			}
			seen[key.Value] = true
			n.Content = append(n.Content, key, g.yaml(d-1, ""))
		}
		return n
	case k < 9:
		n := &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq", Line: 1, Column: 1}
		for i := g.n(4); i > 0; i-- {
			n.Content = append(n.Content, g.yaml(d-1, ""))
		}
		return n
	}
	if g.p(50) {
		return &yaml.Node{Kind: yaml.AliasNode, Value: "x", Alias: sc("!!str", "q")}
	}
	return &yaml.Node{Kind: yaml.DocumentNode, Content: []*yaml.Node{g.yaml(d-1, "")}}
}

// ---------------------------------------------------------------- dump

type vPtrKey struct {
	p unsafe.Pointer
	t reflect.Type
}

type vDumper struct {
	sb    strings.Builder
	seen  map[vPtrKey]int
	strs  map[string]bool
	n     int
	short bool
}

func (w *vDumper) str(s string) {
	if w.strs != nil {
		w.strs[s] = true
	}
}

func rw(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), v.Addr().UnsafePointer()).Elem()
	}
	return v
}

func (w *vDumper) dump(v reflect.Value, d int) {
	if !v.IsValid() {
		w.sb.WriteString("nil")
		return
	}
	if d > 60 || w.sb.Len() > 1<<20 {
		w.sb.WriteString("…")
		return
	}
	v = rw(v)
	t := v.Type()
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			w.sb.WriteString("nil")
			return
		}
		e := v.Elem()
		if k := e.Kind(); k != reflect.Pointer {
			fmt.Fprintf(&w.sb, "%s:", e.Type())
		}
		w.dump(e, d+1)
	case reflect.Pointer:
		if v.IsNil() {
			w.sb.WriteString("nil")
			return
		}
		switch x := v.Interface().(type) {
		case *big.Int:
			w.sb.WriteString("big " + x.String())
			return
		case *regexp.Regexp:
			w.sb.WriteString("/" + x.String() + "/")
			return
		case *RAML:
			if w.short {
				w.sb.WriteString("model")
				return
			}
		}
		if v.Elem().Kind() == reflect.Struct {
			k := vPtrKey{v.UnsafePointer(), t}
			if i, ok := w.seen[k]; ok {
				fmt.Fprintf(&w.sb, "#%d", i)
				return
			}
			w.n++
			w.seen[k] = w.n
			if !w.short {
				fmt.Fprintf(&w.sb, "#%d=", w.n)
			}
		}
		if isOMType(t) {
			w.sb.WriteString("{")
			if p := v.MethodByName("Oldest").Call(nil)[0]; true {
				for !p.IsNil() {
					w.dump(p.Elem().FieldByName("Key"), d+1)
					w.sb.WriteString(": ")
					w.dump(p.Elem().FieldByName("Value"), d+1)
					w.sb.WriteString(", ")
					p = p.MethodByName("Next").Call(nil)[0]
				}
			}
			w.sb.WriteString("}")
			return
		}
		w.sb.WriteString("&")
		w.dump(v.Elem(), d+1)
	case reflect.Struct:
		fmt.Fprintf(&w.sb, "%s{", strings.TrimPrefix(t.String(), "raml."))
		for i := 0; i < v.NumField(); i++ {
			f := rw(v.Field(i))
			if w.short && (f.IsZero() || t.Field(i).Name == "Position" || t.Field(i).Name == "raml" || t.Field(i).Name == "Location") {
				continue
			}
			if isOMType(f.Type()) && w.short && f.MethodByName("Len").Call(nil)[0].Int() == 0 {
				continue
			}
			fmt.Fprintf(&w.sb, "%s: ", t.Field(i).Name)
			w.dump(f, d+1)
			w.sb.WriteString(", ")
		}
		w.sb.WriteString("}")
	case reflect.Slice:
		if v.IsNil() {
			w.sb.WriteString("nil")
			return
		}
		w.sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			w.dump(v.Index(i), d+1)
			w.sb.WriteString(", ")
		}
		w.sb.WriteString("]")
	case reflect.Map:
		if v.IsNil() {
			w.sb.WriteString("nil")
			return
		}
		k := vPtrKey{v.UnsafePointer(), t}
		if i, ok := w.seen[k]; ok {
			fmt.Fprintf(&w.sb, "#%d", i)
			return
		}
		w.n++
		w.seen[k] = w.n
		type kv struct {
			s string
			v reflect.Value
		}
		var l []kv
		for _, k := range v.MapKeys() {
			q := vDumper{seen: map[vPtrKey]int{}, strs: w.strs}
			q.dump(k, 0)
			l = append(l, kv{q.sb.String(), v.MapIndex(k)})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].s < l[j].s })
		w.sb.WriteString("map{")
		for _, e := range l {
			w.sb.WriteString(e.s + ": ")
			w.dump(e.v, d+1)
			w.sb.WriteString(", ")
		}
		w.sb.WriteString("}")
	case reflect.String:
		w.str(v.String())
		w.sb.WriteString(strconv.Quote(v.String()))
	case reflect.Func:
		fmt.Fprintf(&w.sb, "func %x", v.Pointer())
	case reflect.UnsafePointer, reflect.Chan, reflect.Uintptr:
	default:
		fmt.Fprintf(&w.sb, "%v", v)
	}
}

// ---------------------------------------------------------------- run

func vCall(f reflect.Value, args []reflect.Value) (out []reflect.Value, pan any) {
	defer func() {
		if r := recover(); r != nil {
			pan = r
			if os.Getenv("VREPLAY_STACK") != "" {
				debug.PrintStack()
			}
		}
	}()
	if f.Type().IsVariadic() {
		return f.CallSlice(args), nil
	}
	return f.Call(args), nil
}

func vArgs(seed int64, ct reflect.Type) (args []reflect.Value, g *vGen, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	g = &vGen{r: rand.New(rand.NewSource(seed))}
	for i := 0; i < ct.NumIn(); i++ {
		switch ct.In(i) {
		case reflect.TypeOf((*RAML)(nil)), reflect.TypeOf((*Library)(nil)), reflect.TypeOf((*DataType)(nil)), reflect.TypeOf((*NamedExample)(nil)):
			g.rich = true
		}
	}
	if g.p(10) {
		g.rich = true
	}
	vHookLog, ghostN = nil, 0
	g.model()
	for i := 0; i < ct.NumIn(); i++ {
		d := 2
		if g.p(20) {
			d = 3
		}
		args = append(args, g.val(ct.In(i), d, "param"))
	}
	return args, g, true
}

func vShow(name string, args []reflect.Value) string {
	var sb strings.Builder
	sb.WriteString(name + "(")
	for i, a := range args {
		if i > 0 {
			sb.WriteString(", ")
		}
		w := &vDumper{seen: map[vPtrKey]int{}, short: true}
		w.dump(a, 0)
		sb.WriteString(w.sb.String())
	}
	sb.WriteString(")")
	return sb.String()
}

type vStat struct{ tried, met, evaluated, skipped int }

func vReplayOne(rep vRep, seed int64, st *vStat) string {
	cv, tv := reflect.ValueOf(rep.contract), reflect.ValueOf(rep.target)
	st.tried++
	args, _, ok := vArgs(seed, cv.Type())
	if !ok {
		return ""
	}
	vCurStrs, vCurVals = nil, args
	vRun = &vRunT{}
	_, pan := vCall(cv, args)
	run := vRun
	vRun = nil
	if pan != nil {
		if _, ok := pan.(vSkip); !ok {
			return ""
		}
		return ""
	}
	for _, c := range run.requires {
		if !c.cond {
			return ""
		}
	}
	st.met++
	pure := !run.modAny && len(run.modifies) == 0 && len(run.modTypes) == 0 && !run.hooks
	dump := func() string {
		w := &vDumper{seen: map[vPtrKey]int{}}
		for _, a := range args {
			w.dump(a, 0)
			w.sb.WriteString(";")
		}
		return w.sb.String()
	}
	var before string
	if pure {
		before = dump()
	}
	show := func(what string, res []reflect.Value) string {
		a2, _, _ := vArgs(seed, cv.Type())
		s := what + "\n  call " + vShow(strings.TrimPrefix(rep.name, "contract_"), a2)
		if res != nil {
			s += "\n  result " + vShow("", res)
		}
		return s + fmt.Sprintf("\n  generator seed %d", seed)
	}
	in := args
	res, pan := vCall(tv, in)
	if pan != nil {
		return show(fmt.Sprintf("the call panics: %v", pan), nil)
	}
	vCurStrs, vCurVals = nil, append(append([]reflect.Value{}, args...), res...)
	for _, c := range run.ensures {
		if c.define {
			continue
		}
		fv := reflect.ValueOf(c.f)
		var fin []reflect.Value
		for i := 0; i < fv.Type().NumIn(); i++ {
			if i < len(res) {
				fin = append(fin, res[i])
			}
		}
		if len(fin) != fv.Type().NumIn() {
			continue
		}
		o, pan := vCall(fv, fin)
		if pan != nil {
			st.skipped++
			continue
		}
		st.evaluated++
		if len(o) == 1 && o[0].Kind() == reflect.Bool && !o[0].Bool() {
			return show(fmt.Sprintf("ensures %q is false", c.name), res)
		}
	}
	if pure && dump() != before {
		return show("the call changes its arguments", res)
	}
	return ""
}

func TestVReplay(t *testing.T) {
	name := os.Getenv("VREPLAY")
	secs, _ := strconv.ParseFloat(os.Getenv("VREPLAY_SECS"), 64)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	_ = os.MkdirAll("sub", 0o755)
	for f, c := range map[string]string{"inc.yaml": "a: 1\nb: [x, 2020-01-01]\n", "inc.json": `{"q": 1.5}`, "inc.txt": "text\n", "sub/inc.yaml": "q: !include n.yml\n", "sub/n.yml": "[1, ~, {a: b}]\n", "bad.yaml": "a: [", "bad.json": "{", "sub/inc.txt": "sub"} {
		_ = os.WriteFile(f, []byte(c), 0o644)
	}
	for _, rep := range vReps {
		if rep.name != name {
			continue
		}
		var st vStat
		start := time.Now()
		one, _ := strconv.ParseInt(os.Getenv("VREPLAY_ONE"), 10, 64)
		for i := int64(1); time.Since(start).Seconds() < secs; i++ {
			s := seed*1000003 + i
			if one != 0 {
				s = one
			}
			if f := vReplayOne(rep, s, &st); f != "" {
				fmt.Printf("VREPLAY-FOUND\n%s\nVREPLAY-END\n", f)
				return
			}
			if one != 0 {
				break
			}
		}
		fmt.Printf("VREPLAY-NONE %s: %+v\n", name, st)
		return
	}
	fmt.Println("VREPLAY-UNKNOWN", name)
}

var _ = orderedmap.New[string, any]
