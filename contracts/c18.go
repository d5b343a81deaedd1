package raml

import (
	"bufio"
	"context"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/acronis/go-stacktrace"
	orderedmap "github.com/wk8/go-ordered-map/v2"
	"gopkg.in/yaml.v3"
)

// ---- C18: fragments

// What the file system holds: the path of an open file or reader, the first
// line of a text and whether it is ended by a newline.
func U_line(s string) string {
	l, _ := bufio.NewReader(strings.NewReader(s)).ReadString('\n')
	return l
}
func U_lineOK(s string) bool {
	_, err := bufio.NewReader(strings.NewReader(s)).ReadString('\n')
	return err == nil
}
// sHeadOf: the header of the text at p, apart from trailing blanks.
func sHeadOf(p string) string { return strings.TrimRight(U_line(U_text(p)), "\r\n ") }
func sHeadOK(p string) bool   { return U_readOK(p) && U_lineOK(U_text(p)) }

func sNamedKind(head string) (FragmentKind, bool) {
	switch head {
	case "#%RAML 1.0 Library":
		return FragmentLibrary, true
	case "#%RAML 1.0 DataType":
		return FragmentDataType, true
	case "#%RAML 1.0 NamedExample":
		return FragmentNamedExample, true
	}
	return FragmentUnknown, false
}

// sIsKind: the text at p is headed as a fragment of the kind.
func sIsKind(p string, kind FragmentKind) bool {
	k, ok := sNamedKind(sHeadOf(p))
	return sHeadOK(p) && ok && k == kind
}

func contract__IdentifyFragment(head string) {
	vProp("C18")
	k, ok := sNamedKind(head)
	vEnsures("exactly the known headers", func(kind FragmentKind, err error) bool {
		return (err == nil) == ok && (err != nil || kind == k)
	})
}

func contract__ReadHead(f io.ReadSeeker) {
	vProp("C18")
	vRequires("reader", f != nil)
	p := U_path(f)
	vEnsures("the first line", func(head string, err error) bool {
		return err != nil || sHeadOK(p) && head == sHeadOf(p)
	})
}

func contract__CheckFragmentKind(f *os.File, kind FragmentKind) {
	vProp("C18")
	vRequires("file", f != nil)
	p := U_path(f)
	vEnsures("only the kind asked for", func(err error) bool {
		return err != nil || sIsKind(p, kind) || kind == FragmentDataType && strings.HasSuffix(p, ".json")
	})
}

func sAbsPath(p string) string {
	if filepath.IsAbs(p) {
		return p
	}
	return filepath.Join(U_wd(0), p)
}

func contract__openFragmentFile(path string) {
	vProp("C15", "C18")
	p := sAbsPath(path)
	vEnsures("the file at the path", func(f *os.File, err error) bool { return err != nil || f != nil && U_path(f) == p })
	vEnsures("opened when it can be", func(f *os.File, err error) bool { return (err == nil) == sOpens(path) })
}

// ---- libraries

func sIsNull(n *yaml.Node) bool { return n.Tag == "!!null" }

// sUses: m links the first k pairs of c, unresolved.
func sUses(c []*yaml.Node, k int, loc string, m *orderedmap.OrderedMap[string, *LibraryLink]) bool {
	return vForAll(0, k, func(j int) bool {
		a := c[2*j].Value
		return vOMHas(m, a) && (vExists(j+1, k, func(i int) bool { return c[2*i].Value == a }) || vOMGet(m, a) != nil && vOMGet(m, a).Value == c[2*j+1].Value)
	}) && vForAllStr(func(a string) bool { return !vOMHas(m, a) || sHasName(c, k, a) }) && sNewLinks(m)
}
func sNewLinks(m *orderedmap.OrderedMap[string, *LibraryLink]) bool {
	return vForAll(0, vOMLen(m), func(i int) bool { return vFresh(vOMVal(m, i)) && vOMVal(m, i).Link == nil })
}

func contract_Library_unmarshalUses(l *Library, n *yaml.Node) {
	vProp("C18")
	vRequires("nodes", l != nil && n != nil)
	vInvariant("nodes present", sNodeOK(n))
	vModifies(&l.Uses)
	o, loc, c := l.Uses, l.Location, n.Content
	vLoopInv(func(k int) bool { return vFresh(l.Uses) && sUses(c, k, loc, l.Uses) })
	vEnsures("a map or nothing", func(err error) bool { return (err == nil) == (sIsNull(n) || n.Kind == yaml.MappingNode) })
	vEnsures("the uses", func(err error) bool {
		return (err != nil || sIsNull(n)) && l.Uses == o || err == nil && vFresh(l.Uses) && sUses(c, len(c)/2, loc, l.Uses)
	})
}

// sTypes: m has the types the first k pairs of c declare, and so has reg.
func sTypes(c []*yaml.Node, k int, loc string, m *orderedmap.OrderedMap[string, *BaseShape]) bool {
	return vForAll(0, k, func(j int) bool {
		a := c[2*j].Value
		return vOMHas(m, a) && (vExists(j+1, k, func(i int) bool { return c[2*i].Value == a }) ||
			U_isShape(c[2*j+1], a, loc, vOMGet(m, a)))
	}) && vForAllStr(func(a string) bool { return !vOMHas(m, a) || sHasName(c, k, a) })
}
func sRegistered(m *orderedmap.OrderedMap[string, *BaseShape], loc string, reg map[string]map[string]*BaseShape) bool {
	return vForAllStr(func(a string) bool { return !vOMHas(m, a) || vHasKey(reg[loc], a) && reg[loc][a] == vOMGet(m, a) })
}

// U_isTypesOf: the table m was made from the section n.
func U_isTypesOf(n *yaml.Node, m *orderedmap.OrderedMap[string, *BaseShape]) bool { panic(vSkip{}) }

func contract_Library_unmarshalTypes(l *Library, n *yaml.Node) {
	vProp("C14", "C18")
	vRequires("nodes", l != nil && l.raml != nil && n != nil)
	vInvariant("nodes present", sNodeOK(n) && vForAll(0, len(n.Content), func(j int) bool { return sNodeOK(n.Content[j]) }))
	vModifies(&l.Types)
	o, loc, c, r := l.Types, l.Location, n.Content, l.raml
	vInvariant("tables made", tablesOK(r.fragmentTypes))
	modModel(r)
	vLoopInv(func(k int) bool { return vFresh(l.Types) && sTypes(c, k, loc, l.Types) })
	vEnsures("a map or nothing", func(err error) bool { return err != nil || sIsNull(n) || n.Kind == yaml.MappingNode })
	vEnsures("table", func(err error) bool {
		return err != nil && (l.Types == o || vFresh(l.Types)) || err == nil && (sIsNull(n) && l.Types == o || !sIsNull(n) && vFresh(l.Types))
	})
	vProve("the types", func(err error) bool {
		return err != nil && (l.Types == o || vFresh(l.Types)) || err == nil && (sIsNull(n) && l.Types == o || !sIsNull(n) && vFresh(l.Types) && sTypes(c, len(c)/2, loc, l.Types))
	})
	vDefine("section", func(err error) bool { return err != nil || sIsNull(n) || U_isTypesOf(n, l.Types) })
}

func contract_Library_unmarshalAnnotationTypes(l *Library, n *yaml.Node) {
	vProp("C14", "C18")
	vRequires("nodes", l != nil && l.raml != nil && n != nil)
	vInvariant("nodes present", sNodeOK(n) && vForAll(0, len(n.Content), func(j int) bool { return sNodeOK(n.Content[j]) }))
	vModifies(&l.AnnotationTypes)
	o, loc, c, r := l.AnnotationTypes, l.Location, n.Content, l.raml
	vInvariant("tables made", tablesOK(r.fragmentAnnotationTypes))
	modModel(r)
	vLoopInv(func(k int) bool { return vFresh(l.AnnotationTypes) && sTypes(c, k, loc, l.AnnotationTypes) })
	vEnsures("a map or nothing", func(err error) bool { return err != nil || sIsNull(n) || n.Kind == yaml.MappingNode })
	vEnsures("table", func(err error) bool {
		return err != nil && (l.AnnotationTypes == o || vFresh(l.AnnotationTypes)) || err == nil && (sIsNull(n) && l.AnnotationTypes == o || !sIsNull(n) && vFresh(l.AnnotationTypes))
	})
	vProve("the types", func(err error) bool {
		return err != nil && (l.AnnotationTypes == o || vFresh(l.AnnotationTypes)) || err == nil && (sIsNull(n) && l.AnnotationTypes == o || !sIsNull(n) && vFresh(l.AnnotationTypes) && sTypes(c, len(c)/2, loc, l.AnnotationTypes))
	})
	vDefine("section", func(err error) bool { return err != nil || sIsNull(n) || U_isTypesOf(n, l.AnnotationTypes) })
}

func contract_Library_UnmarshalYAML(l *Library, n *yaml.Node) {
	vProp("C14", "C18")
	vRequires("nodes", l != nil && l.raml != nil && n != nil)
	vInvariant("nodes present", sNodeOK(n) && vForAll(0, len(n.Content), func(j int) bool {
		return sNodeOK(n.Content[j]) && vForAll(0, len(n.Content[j].Content), func(i int) bool { return sNodeOK(n.Content[j].Content[i]) })
	}))
	vInvariant("annotation table", l.CustomDomainProperties != nil)
	vModifies(&l.Uses, &l.Types, &l.AnnotationTypes, &l.Usage, l.CustomDomainProperties)
	u, t, a, c := l.Uses, l.Types, l.AnnotationTypes, n.Content
	modModel(l.raml)
	fu := func(k int) bool {
		return sLast(c, k, "uses", func(j int) bool { return sIsNull(c[2*j+1]) || vFresh(l.Uses) }, l.Uses == u) &&
			(l.Uses == u || vFresh(l.Uses) && sNewLinks(l.Uses))
	}
	ft := func(k int) bool {
		return sLast(c, k, "types", func(j int) bool {
			return sIsNull(c[2*j+1]) || vFresh(l.Types) && U_isTypesOf(c[2*j+1], l.Types)
		}, l.Types == t) && (l.Types == t || vFresh(l.Types))
	}
	fa := func(k int) bool {
		return sLast(c, k, "annotationTypes", func(j int) bool {
			return sIsNull(c[2*j+1]) || vFresh(l.AnnotationTypes) && U_isTypesOf(c[2*j+1], l.AnnotationTypes)
		}, l.AnnotationTypes == a) && (l.AnnotationTypes == a || vFresh(l.AnnotationTypes))
	}
	vLoopInv(func(k int) bool { return fu(k) })
	vLoopInv(func(k int) bool { return ft(k) })
	vLoopInv(func(k int) bool { return fa(k) })
	k := len(c) / 2
	vEnsures("a map", func(err error) bool { return err != nil || n.Kind == yaml.MappingNode })
	vEnsures("uses", func(err error) bool { return err != nil || fu(k) })
	vEnsures("types", func(err error) bool { return err != nil || ft(k) })
	vEnsures("annotation types", func(err error) bool { return err != nil || fa(k) })
	vEnsures("tables", func(err error) bool {
		return (l.Uses == u || vFresh(l.Uses)) && (l.Types == t || vFresh(l.Types)) && (l.AnnotationTypes == a || vFresh(l.AnnotationTypes))
	})
}

// sLinked: every use of m is the library loaded from its path, next to loc.
func sLinked(m *orderedmap.OrderedMap[string, *LibraryLink], k int, loc string, cache map[string]Fragment) bool {
	return vForAll(0, k, func(i int) bool {
		u := vOMVal(m, i)
		p := filepath.Join(filepath.Dir(loc), u.Value)
		return u.Link != nil && vHasKey(cache, p) && vSame(cache[p], Fragment(u.Link))
	})
}

func contract_RAML_decodeLibrary(r *RAML, f io.Reader, path string) {
	vProp("C18")
	vRequires("reader", r != nil && f != nil)
	had := vHasKey(r.fragmentsCache, path)
	modModelBut(r, path, true)
	vLoopInv(func(k int, lib *Library, st *stacktrace.StackTrace) bool {
		return st != nil || sLinked(lib.Uses, k, path, r.fragmentsCache)
	})
	vLoopInv(func(k int, lib *Library) bool { return had || vHasKey(r.fragmentsCache, path) && vSame(r.fragmentsCache[path], Fragment(lib)) })
	vEnsures("a new library", func(l *Library, err error) bool {
		return err != nil && l == nil || err == nil && vFresh(l) && l.Location == path && l.raml == r
	})
	vEnsures("registered", func(l *Library, err error) bool {
		return err != nil || had || vHasKey(r.fragmentsCache, path) && vSame(r.fragmentsCache[path], Fragment(l))
	})
	vEnsures("its libraries are loaded", func(l *Library, err error) bool {
		return err != nil || sLinked(l.Uses, vOMLen(l.Uses), path, r.fragmentsCache)
	})
}

// sFrag: f is a fragment.
func sFrag(f Fragment) bool {
	switch t := f.(type) {
	case *Library:
		return t != nil
	case *DataType:
		return t != nil
	case *NamedExample:
		return t != nil
	}
	return false
}

func contract_RAML_parseLibrary(r *RAML, path string) {
	vProp("C18")
	vRequires("model", r != nil)
	vInvariant("no empty entries", vForAllStr(func(p string) bool { return !vHasKey(r.fragmentsCache, p) || sFrag(r.fragmentsCache[p]) }))
	f := r.fragmentsCache[path]
	cached, right := f.(*Library)
	modModel(r)
	vEnsures("loaded once", func(l *Library, err error) bool { return f == nil || !right || err == nil && l == cached })
	vEnsures("no other kind", func(l *Library, err error) bool { return f == nil || right || err != nil })
	vEnsures("headed as a library", func(l *Library, err error) bool { return err != nil || f != nil || sIsKind(sAbsPath(path), FragmentLibrary) })
	vEnsures("registered", func(l *Library, err error) bool {
		return err != nil && l == nil || err == nil && l != nil && vHasKey(r.fragmentsCache, path) && vSame(r.fragmentsCache[path], Fragment(l))
	})
}

// ---- data types

func contract_DataType_UnmarshalYAML(dt *DataType, n *yaml.Node) {
	vProp("C14", "C18")
	vRequires("nodes", dt != nil && dt.raml != nil && n != nil)
	vInvariant("nodes present", sNodeOK(n) && vForAll(0, len(n.Content), func(j int) bool { return sNodeOK(n.Content[j]) }))
	vModifies(&dt.Uses, &dt.Usage, &dt.Shape)
	u, s := dt.Uses, dt.Shape
	modModel(dt.raml)
	vLoopInv(func(k int) bool { return dt.Uses == u || vFresh(dt.Uses) && sNewLinks(dt.Uses) })
	vLoopInv(func(k int, sv *yaml.Node) bool { return vFresh(sv) && (cap(sv.Content) == 0 || vFresh(sv.Content)) && sv.Kind == yaml.MappingNode })
	vLoopInv(func(k int, sv *yaml.Node) bool { return len(sv.Content)%2 == 0 })
	vLoopInv(func(k int, sv *yaml.Node) bool { return sNodes(sv.Content) })
	vEnsures("a map", func(err error) bool { return err != nil || n.Kind == yaml.MappingNode })
	vEnsures("a type named after the file", func(err error) bool {
		return err != nil && dt.Shape == s || err == nil && vFresh(dt.Shape) && dt.Shape.Name == filepath.Base(dt.Location) && dt.Shape.Location == dt.Location
	})
	vEnsures("links", func() bool { return dt.Uses == u || vFresh(dt.Uses) && sNewLinks(dt.Uses) })
}

func contract_RAML_MakeJSONDataType(r *RAML, text []byte, path string) {
	vProp("C18")
	vRequires("model", r != nil)
	modModel(r)
	vEnsures("a new data type", func(dt *DataType, err error) bool {
		return err != nil && dt == nil || err == nil && vFresh(dt) && dt.Location == path && dt.raml == r && dt.Uses != nil
	})
}

func contract_RAML_decodeDataType(r *RAML, f io.Reader, path string) {
	vProp("C18")
	vRequires("reader", r != nil && f != nil)
	had := vHasKey(r.fragmentsCache, path)
	modModelBut(r, path, true)
	vLoopInv(func(k int, dt *DataType) bool {
		return vForAll(0, vOMLen(dt.Uses), func(i int) bool { return vFresh(vOMVal(dt.Uses, i)) })
	})
	vLoopInv(func(k int, dt *DataType) bool { return sLinked(dt.Uses, k, path, r.fragmentsCache) })
	vLoopInv(func(k int, dt *DataType) bool { return had || vHasKey(r.fragmentsCache, path) && vSame(r.fragmentsCache[path], Fragment(dt)) })
	vEnsures("a new data type", func(dt *DataType, err error) bool {
		return err != nil && dt == nil || err == nil && vFresh(dt) && dt.Location == path && dt.raml == r
	})
	vEnsures("registered", func(dt *DataType, err error) bool {
		return err != nil || had || vHasKey(r.fragmentsCache, path) && (strings.HasSuffix(path, ".json") || vSame(r.fragmentsCache[path], Fragment(dt)))
	})
	vEnsures("its libraries are loaded", func(dt *DataType, err error) bool {
		return err != nil || strings.HasSuffix(path, ".json") || sLinked(dt.Uses, vOMLen(dt.Uses), path, r.fragmentsCache)
	})
}

func contract_RAML_parseDataType(r *RAML, path string) {
	vProp("C17", "C18")
	vRequires("model", r != nil)
	vInvariant("no empty entries", vForAllStr(func(p string) bool { return !vHasKey(r.fragmentsCache, p) || sFrag(r.fragmentsCache[p]) }))
	f := r.fragmentsCache[path]
	cached, right := f.(*DataType)
	e := U_hooksErr(r.ctx, HookKey(HookBeforeParseDataType), ghostN)
	modModel(r)
	vEnsures("a hook error stops the operation", func(dt *DataType, err error) bool { return e == nil || err != nil })
	vEnsures("loaded once", func(dt *DataType, err error) bool { return e != nil || f == nil || !right || err == nil && dt == cached })
	vEnsures("no other kind", func(dt *DataType, err error) bool { return f == nil || right || err != nil })
	vEnsures("headed as a data type", func(dt *DataType, err error) bool {
		return err != nil || f != nil || sIsKind(sAbsPath(path), FragmentDataType) || strings.HasSuffix(sAbsPath(path), ".json")
	})
	vEnsures("registered", func(dt *DataType, err error) bool {
		return err != nil && dt == nil || err == nil && dt != nil && vHasKey(r.fragmentsCache, path) &&
			(strings.HasSuffix(path, ".json") || vSame(r.fragmentsCache[path], Fragment(dt)))
	})
}

// ---- named examples

func contract_NamedExample_UnmarshalYAML(ne *NamedExample, n *yaml.Node) {
	vProp("C14", "C18")
	vRequires("nodes", ne != nil && ne.raml != nil && n != nil)
	vInvariant("nodes present", sNodeOK(n) && vForAll(0, len(n.Content), func(j int) bool { return sNodeOK(n.Content[j]) }))
	r := ne.raml
	vModifies(&ne.Map, &r.domainExtensions, r.domainExtensions)
	d := vRefID(r.domainExtensions)
	o, loc, c := ne.Map, ne.Location, n.Content
	vLoopInv(func(k int, m *orderedmap.OrderedMap[string, *Example]) bool { return m != nil && sExamples(c, k, loc, m) })
	vLoopInv(func(k int) bool { return vRefID(r.domainExtensions) == d || vFresh(r.domainExtensions) })
	vEnsures("a map", func(err error) bool { return err != nil || n.Kind == yaml.MappingNode })
	vEnsures("the examples", func(err error) bool {
		return err != nil && ne.Map == o || err == nil && vFresh(ne.Map) && sExamples(c, len(c)/2, loc, ne.Map)
	})
	vEnsures("registers grow", func() bool { return vRefID(r.domainExtensions) == d || vFresh(r.domainExtensions) })
}

func contract_RAML_decodeNamedExample(r *RAML, f io.Reader, path string) {
	vProp("C18")
	vRequires("reader", r != nil && f != nil)
	had := vHasKey(r.fragmentsCache, path)
	modModel(r)
	vEnsures("a new example", func(ne *NamedExample, err error) bool {
		return err != nil && ne == nil || err == nil && vFresh(ne) && ne.Location == path && ne.raml == r
	})
	vEnsures("registered", func(ne *NamedExample, err error) bool {
		return err != nil || had || vHasKey(r.fragmentsCache, path) && vSame(r.fragmentsCache[path], Fragment(ne))
	})
}

func contract_RAML_parseNamedExample(r *RAML, path string) {
	vProp("C18")
	vRequires("model", r != nil)
	vInvariant("no empty entries", vForAllStr(func(p string) bool { return !vHasKey(r.fragmentsCache, p) || sFrag(r.fragmentsCache[p]) }))
	f := r.fragmentsCache[path]
	cached, right := f.(*NamedExample)
	modModel(r)
	vEnsures("loaded once", func(ne *NamedExample, err error) bool { return f == nil || !right || err == nil && ne == cached })
	vEnsures("no other kind", func(ne *NamedExample, err error) bool { return f == nil || right || err != nil })
	vEnsures("headed as a named example", func(ne *NamedExample, err error) bool {
		return err != nil || f != nil || sIsKind(sAbsPath(path), FragmentNamedExample)
	})
	vEnsures("registered", func(ne *NamedExample, err error) bool {
		return err != nil && ne == nil || err == nil && ne != nil && vHasKey(r.fragmentsCache, path) && vSame(r.fragmentsCache[path], Fragment(ne))
	})
}

// ---- the entry point

func contract_RAML_resolveShapes(r *RAML) {
	vTrust("after the fragments are loaded: only that the entry point and the places of the fragments stay")
	vModifiesAny()
	vNoWrites("RAML", "entryPoint")
	vNoWrites("Library", "Location")
	vNoWrites("DataType", "Location")
	vNoWrites("NamedExample", "Location")
}
func contract_RAML_resolveDomainExtensions(r *RAML) {
	vTrust("after the fragments are loaded: only that the entry point and the places of the fragments stay")
	vModifiesAny()
	vNoWrites("RAML", "entryPoint")
	vNoWrites("Library", "Location")
	vNoWrites("DataType", "Location")
	vNoWrites("NamedExample", "Location")
}
func contract_RAML_UnwrapShapes(r *RAML) {
	vTrust("after the fragments are loaded: only that the entry point and the places of the fragments stay")
	vModifiesAny()
	vNoWrites("RAML", "entryPoint")
	vNoWrites("Library", "Location")
	vNoWrites("DataType", "Location")
	vNoWrites("NamedExample", "Location")
}
func contract_RAML_ValidateShapes(r *RAML) {
	vTrust("after the fragments are loaded: only that the entry point and the places of the fragments stay")
	vModifiesAny()
	vNoWrites("RAML", "entryPoint")
	vNoWrites("Library", "Location")
	vNoWrites("DataType", "Location")
	vNoWrites("NamedExample", "Location")
}

// sEntry: f is a fragment of the kind the header names, at path.
func sEntry(f Fragment, head, path string) bool {
	switch head {
	case "#%RAML 1.0 Library":
		l, ok := f.(*Library)
		return ok && l != nil && l.Location == path
	case "#%RAML 1.0 DataType":
		d, ok := f.(*DataType)
		return ok && d != nil && d.Location == path
	case "#%RAML 1.0 NamedExample":
		e, ok := f.(*NamedExample)
		return ok && e != nil && e.Location == path
	}
	return false
}
func sOpt(o ParseOpt) bool {
	_, a := o.(parseOptWithUnwrap)
	_, b := o.(parseOptWithValidate)
	return a || b
}
func sKnownHead(head string) bool { _, ok := sNamedKind(head); return ok }

func contract_RAML_parseFragment(r *RAML, f io.ReadSeeker, path string, o *parserOptions) {
	vProp("C18")
	vRequires("reader", r != nil && f != nil && o != nil)
	vModifiesAny()
	vHooks()
	p, e0 := U_path(f), r.entryPoint
	ok := sHeadOK(p) && sKnownHead(sHeadOf(p))
	vEnsures("only known headers", func(err error) bool { return err != nil || ok })
	vEnsures("the fragment its header names", func(err error) bool { return err != nil || sEntry(r.entryPoint, sHeadOf(p), path) })
	vEnsures("otherwise no entry point", func(err error) bool {
		return vSame(r.entryPoint, e0) || ok && sEntry(r.entryPoint, sHeadOf(p), path)
	})
}

func contract_RAML_ParseFromPath(r *RAML, path string, opts []ParseOpt) {
	vProp("C18")
	vRequires("model", r != nil)
	vInvariant("options", vForAll(0, len(opts), func(i int) bool { return sOpt(opts[i]) }))
	vModifiesAny()
	vHooks()
	p, e0 := sAbsPath(path), r.entryPoint
	ok := sHeadOK(p) && sKnownHead(sHeadOf(p))
	vEnsures("only known headers", func(err error) bool { return err != nil || ok })
	vEnsures("the fragment its header names", func(err error) bool { return err != nil || sEntry(r.entryPoint, sHeadOf(p), p) })
	vEnsures("otherwise no entry point", func(err error) bool {
		return vSame(r.entryPoint, e0) || ok && sEntry(r.entryPoint, sHeadOf(p), p)
	})
}

func contract_RAML_ParseFromString(r *RAML, content string, name, dir string, opts []ParseOpt) {
	vProp("C18")
	vRequires("model", r != nil)
	vInvariant("options", vForAll(0, len(opts), func(i int) bool { return sOpt(opts[i]) }))
	vModifiesAny()
	vHooks()
	e0, head := r.entryPoint, strings.TrimRight(U_line(content), "\r\n ")
	ok := U_lineOK(content) && sKnownHead(head)
	at := filepath.Join(dir, name)
	vEnsures("only known headers", func(err error) bool { return err != nil || ok })
	vEnsures("the fragment its header names", func(err error) bool { return err != nil || sEntry(r.entryPoint, head, at) })
	vEnsures("otherwise no entry point", func(err error) bool { return vSame(r.entryPoint, e0) || ok && sEntry(r.entryPoint, head, at) })
}

func contract__ParseFromPathCtx(ctx context.Context, path string, opts []ParseOpt) {
	vProp("C18")
	vInvariant("options", vForAll(0, len(opts), func(i int) bool { return sOpt(opts[i]) }))
	vModifiesAny()
	vHooks()
	p := sAbsPath(path)
	ok := sHeadOK(p) && sKnownHead(sHeadOf(p))
	vEnsures("a model of the fragment its header names", func(r *RAML, err error) bool {
		return err != nil || ok && r != nil && sEntry(r.entryPoint, sHeadOf(p), p)
	})
}

func contract__ParseFromStringCtx(ctx context.Context, content string, name, dir string, opts []ParseOpt) {
	vProp("C18")
	vInvariant("options", vForAll(0, len(opts), func(i int) bool { return sOpt(opts[i]) }))
	vModifiesAny()
	vHooks()
	head, at := strings.TrimRight(U_line(content), "\r\n "), filepath.Join(dir, name)
	ok := U_lineOK(content) && sKnownHead(head)
	vEnsures("a model of the fragment its header names", func(r *RAML, err error) bool {
		return err != nil || ok && r != nil && sEntry(r.entryPoint, head, at)
	})
}

func contract_RAML_SetEntryPoint(r *RAML, f Fragment) {
	vProp("C18")
	vRequires("model", r != nil)
	vModifies(&r.entryPoint)
	vEnsures("set", func(x *RAML) bool { return x == r && vSame(r.entryPoint, f) })
}
func contract_RAML_EntryPoint(r *RAML) {
	vProp("C18")
	vRequires("model", r != nil)
	e := r.entryPoint
	vEnsures("what was set", func(f Fragment) bool { return vSame(f, e) })
}
