package raml

import (
	"github.com/acronis/go-stacktrace"
	orderedmap "github.com/wk8/go-ordered-map/v2"
)

// ---- C08: validating a model reaches every item

// sQuiet: no registered hook reports an error.
func sQuiet() bool { return vForAllInt(func(i int) bool { return U_hookErr(i) == nil }) }

// UH_commons: facets, examples and defaults of the type and of every type
// nested in it are in order (defined by validateShapeCommons).
func UH_commons(b *BaseShape) bool { return (&RAML{}).validateShapeCommons(b) == nil }

// judges: the answer to an operation all of whose items are in order is no
// error, and no other answer is, as long as the hooks have no objections.
func judges(pass bool, ok func() bool) bool {
	return vImplies(pass, ok()) && vImplies(sQuiet() && ok(), pass)
}

// sParent: the type whose facet definitions p is under, if any.
func sParent(p *BaseShape) *BaseShape { return sFirst(p.Inherits) }
func sFirst(ps []*BaseShape) *BaseShape {
	if len(ps) == 0 {
		return nil
	}
	return ps[0]
}

// The custom facets p and its ancestors define; farther ancestors prevail.
func UH_hasDef(p *BaseShape, k string) bool {
	return p != nil && (vOMHas(p.CustomShapeFacetDefinitions, k) || UH_hasDef(sParent(p), k))
}
func UH_defBase(p *BaseShape, k string) *BaseShape {
	if UH_hasDef(sParent(p), k) {
		return UH_defBase(sParent(p), k)
	}
	return vOMGet(p.CustomShapeFacetDefinitions, k).Base
}
func UH_defReq(p *BaseShape, k string) bool {
	if UH_hasDef(sParent(p), k) {
		return UH_defReq(sParent(p), k)
	}
	return vOMGet(p.CustomShapeFacetDefinitions, k).Required
}

func sFacetAxioms() bool {
	return vForAllStr(func(k string) bool { return !UH_hasDef(nil, k) }) &&
		vForAllRef(func(p *BaseShape) bool {
			return vForAllStr(func(k string) bool {
				return UH_hasDef(p, k) == (UH_hasDef(sParent(p), k) || vOMHas(p.CustomShapeFacetDefinitions, k))
			}) && vForAllStr(func(k string) bool {
				return vImplies(UH_hasDef(sParent(p), k), UH_defBase(p, k) == UH_defBase(sParent(p), k) && UH_defReq(p, k) == UH_defReq(sParent(p), k)) &&
					vImplies(!UH_hasDef(sParent(p), k) && vOMHas(p.CustomShapeFacetDefinitions, k),
						UH_defBase(p, k) == vOMGet(p.CustomShapeFacetDefinitions, k).Base && UH_defReq(p, k) == vOMGet(p.CustomShapeFacetDefinitions, k).Required)
			})
		})
}

func sFacetTables() bool {
	return vForAllRef(func(p *BaseShape) bool {
		return vForAll(0, vOMLen(p.CustomShapeFacetDefinitions), func(i int) bool {
			return vOMVal(p.CustomShapeFacetDefinitions, i).Name == vOMKey(p.CustomShapeFacetDefinitions, i)
		})
	}) && vForAllRef(func(p *BaseShape) bool {
		return vForAll(0, vOMLen(p.CustomShapeFacetDefinitions), func(i int) bool {
			b := vOMVal(p.CustomShapeFacetDefinitions, i).Base
			return b != nil && b.Shape != nil
		})
	}) && vForAllRef(func(p *BaseShape) bool {
		return vForAll(0, len(p.Inherits), func(i int) bool { return p.Inherits[i] != nil })
	})
}

func sFacetOK(b, d *BaseShape, k string) bool {
	if vOMHas(b.CustomShapeFacets, k) {
		return UH_valid(UH_defBase(d, k).Shape, vOMGet(b.CustomShapeFacets, k).Value)
	}
	return !UH_defReq(d, k)
}

// sFacetsOK: no facet is defined again, those in force are set as they ask,
// and no others are.
func sFacetsOK(b *BaseShape) bool {
	d := sParent(b)
	return vForAllStr(func(k string) bool { return !(UH_hasDef(d, k) && vOMHas(b.CustomShapeFacetDefinitions, k)) }) &&
		vForAllStr(func(k string) bool { return !UH_hasDef(d, k) || sFacetOK(b, d, k) }) &&
		vForAll(0, vOMLen(b.CustomShapeFacets), func(i int) bool { return UH_hasDef(d, vOMKey(b.CustomShapeFacets, i)) })
}

func contract_RAML_validateShapeFacets(r *RAML, b *BaseShape) {
	vProp("C08")
	vRequires("type", r != nil && b != nil)
	vInvariant("kind present", b.Shape != nil)
	vInvariant("facet tables", sFacetTables())
	vInvariant("facet definitions in force", sFacetAxioms())
	vInvariant("tables made", b.CustomShapeFacets != nil && b.CustomShapeFacetDefinitions != nil)
	vInvariant("facet values", vForAll(0, vOMLen(b.CustomShapeFacets), func(i int) bool { return vOMVal(b.CustomShapeFacets, i) != nil }))
	vHooks()
	defs, d := b.CustomShapeFacetDefinitions, sParent(b)
	// between parents: what remains to be collected prevails
	vLoopInv(func(k int, m map[string]Property, in []*BaseShape) bool {
		return vForAllStr(func(k string) bool { return UH_hasDef(d, k) == (UH_hasDef(sFirst(in), k) || vHasKey(m, k)) })
	})
	vLoopInv(func(k int, m map[string]Property, in []*BaseShape) bool {
		return vForAllStr(func(k string) bool {
			return !UH_hasDef(sFirst(in), k) || UH_defBase(d, k) == UH_defBase(sFirst(in), k) && UH_defReq(d, k) == UH_defReq(sFirst(in), k)
		})
	})
	vLoopInv(func(k int, m map[string]Property, in []*BaseShape) bool {
		return vForAllStr(func(k string) bool {
			return UH_hasDef(sFirst(in), k) || !vHasKey(m, k) || UH_defBase(d, k) == m[k].Base && UH_defReq(d, k) == m[k].Required
		})
	})
	vLoopInv(func(k int, m map[string]Property, in []*BaseShape) bool {
		return vForAllStr(func(k string) bool { return !vHasKey(m, k) || !vOMHas(defs, k) })
	})
	vLoopInv(func(k int, m map[string]Property) bool {
		return vForAllStr(func(k string) bool { return !vHasKey(m, k) || m[k].Base != nil })
	})
	vLoopInv(func(k int, in []*BaseShape) bool {
		return vForAll(0, len(in), func(i int) bool { return in[i] != nil && vWasAllocated(in[i]) })
	})
	// among the definitions of one parent
	left := func(in []*BaseShape, i int, k string) bool {
		t := in[0].CustomShapeFacetDefinitions
		return vOMHas(t, k) && vOMIdx(t, k) >= i
	}
	vLoopInv(func(i int, m map[string]Property, in []*BaseShape) bool {
		return len(in) == 0 || vForAllStr(func(k string) bool {
			return UH_hasDef(d, k) == (UH_hasDef(sParent(in[0]), k) || left(in, i, k) || vHasKey(m, k))
		})
	})
	vLoopInv(func(i int, m map[string]Property, in []*BaseShape) bool {
		return len(in) == 0 || vForAllStr(func(k string) bool {
			return UH_hasDef(sParent(in[0]), k) || left(in, i, k) || !vHasKey(m, k) || UH_defBase(d, k) == m[k].Base && UH_defReq(d, k) == m[k].Required
		})
	})
	// over the definitions in force, over the facets set
	vLoopInv(func(k int, m map[string]Property) bool {
		return vForAllStr(func(k string) bool { return !vVisited(k) || sFacetOK(b, d, k) })
	})
	vElem(func(i int) bool { return UH_hasDef(d, vOMKey(b.CustomShapeFacets, i)) })
	vEnsures("custom facets", func(err error) bool { return judges(err == nil, func() bool { return sFacetsOK(b) }) })
}

// sExampleMap: the named examples of a type, included or given in place.
func sExampleMap(b *BaseShape) *orderedmap.OrderedMap[string, *Example] {
	if b.Examples.Link != nil {
		return b.Examples.Link.Map
	}
	return b.Examples.Map
}

func sExamplesOK(b *BaseShape) bool {
	return (b.Example == nil || UH_valid(b.Shape, b.Example.Data.Value)) &&
		(b.Examples == nil || vForAll(0, vOMLen(sExampleMap(b)), func(i int) bool { return UH_valid(b.Shape, vOMVal(sExampleMap(b), i).Data.Value) })) &&
		(b.Default == nil || UH_valid(b.Shape, b.Default.Value))
}

func contract_RAML_validateExamples(r *RAML, b *BaseShape) {
	vProp("C08")
	vRequires("type", r != nil && b != nil)
	vInvariant("kind present", b.Shape != nil)
	vInvariant("example values", b.Example == nil || b.Example.Data != nil)
	if b.Examples != nil {
		m := sExampleMap(b)
		vInvariant("examples present", vForAll(0, vOMLen(m), func(i int) bool { return vOMVal(m, i) != nil && vOMVal(m, i).Data != nil }))
		vElem(func(i int) bool { return UH_valid(b.Shape, vOMVal(m, i).Data.Value) })
	}
	vHooks()
	vEnsures("examples and default", func(err error) bool { return judges(err == nil, func() bool { return sExamplesOK(b) }) })
}

func sPropsGood(s *ObjectShape) bool {
	return vForAll(0, vOMLen(s.Properties), func(i int) bool { return UH_commons(vOMVal(s.Properties, i).Base) }) &&
		vForAll(0, vOMLen(s.PatternProperties), func(i int) bool { return UH_commons(vOMVal(s.PatternProperties, i).Base) })
}

func contract_RAML_validateObjectShape(r *RAML, s *ObjectShape) {
	vProp("C08")
	vRequires("type", r != nil && s != nil)
	vInvariant("property types", vForAll(0, vOMLen(s.Properties), func(i int) bool { return vOMVal(s.Properties, i).Base != nil }))
	vInvariant("pattern property types", vForAll(0, vOMLen(s.PatternProperties), func(i int) bool { return vOMVal(s.PatternProperties, i).Base != nil }))
	vHooks()
	vElem(func(i int) bool { return UH_commons(vOMVal(s.Properties, i).Base) })
	vElem(func(i int) bool { return UH_commons(vOMVal(s.PatternProperties, i).Base) })
	vEnsures("properties", func(err error) bool { return judges(err == nil, func() bool { return sPropsGood(s) }) })
}

func sNestedOK(b *BaseShape) bool {
	switch s := b.Shape.(type) {
	case *ObjectShape:
		return sPropsGood(s)
	case *ArrayShape:
		return s.Items == nil || UH_commons(s.Items)
	case *UnionShape:
		return vForAll(0, len(s.AnyOf), func(i int) bool { return UH_commons(s.AnyOf[i]) })
	}
	return true
}

func contract_RAML_validateShapeCommons(r *RAML, b *BaseShape) {
	vProp("C08")
	vRequires("type", r != nil && b != nil)
	vInvariant("kind present", b.Shape != nil)
	switch s := b.Shape.(type) {
	case *ObjectShape:
		vInvariant("object", s != nil)
	case *ArrayShape:
		vInvariant("array", s != nil && s.BaseShape != nil)
	case *UnionShape:
		vInvariant("union", s != nil && s.BaseShape != nil)
		vInvariant("members", vForAll(0, len(s.AnyOf), func(i int) bool { return s.AnyOf[i] != nil }))
		vElem(func(i int) bool { return UH_commons(s.AnyOf[i]) })
	}
	t := b.CustomShapeFacetDefinitions
	vInvariant("facet types", vForAll(0, vOMLen(t), func(i int) bool { return vOMVal(t, i).Base != nil }))
	vElem(func(i int) bool { return UH_commons(vOMVal(t, i).Base) })
	vHooks()
	vEnsures("the type and all types in it", func(err error) bool {
		return judges(err == nil, func() bool {
			return sFacetsOK(b) && sExamplesOK(b) && sNestedOK(b) && vForAll(0, vOMLen(t), func(i int) bool { return UH_commons(vOMVal(t, i).Base) })
		})
	})
	vDefine("verdict", func(err error) bool { return judges(err == nil, func() bool { return UH_commons(b) }) })
}

// ---- the walk over the model

func sTypeOK(b *BaseShape) bool { return UH_consistent(b.Shape) && UH_commons(b) }

func sTypesOK(m *orderedmap.OrderedMap[string, *BaseShape]) bool {
	return vForAll(0, vOMLen(m), func(i int) bool { return sTypeOK(vOMVal(m, i)) })
}

func sUnwrapped(m *orderedmap.OrderedMap[string, *BaseShape]) bool {
	return vForAll(0, vOMLen(m), func(i int) bool { return vOMVal(m, i) != nil && vOMVal(m, i).Shape != nil && vOMVal(m, i).unwrapped })
}

func contract_RAML_unwrapShape(r *RAML, b *BaseShape, cache map[int64]*BaseShape) {
	vProp("C08")
	vRequires("type", r != nil && b != nil)
	vInvariant("unwrapped before", b.unwrapped)
	vEnsures("itself", func(u *BaseShape, err *stacktrace.StackTrace) bool { return err == nil && u == b })
}

func contract_RAML_validateTypes(r *RAML, m *orderedmap.OrderedMap[string, *BaseShape], cache map[int64]*BaseShape) {
	vProp("C08")
	vRequires("model", r != nil)
	vInvariant("unwrapped before", sUnwrapped(m))
	vHooks()
	ep := r.entryPoint
	vInvariant("entry point", ep == nil || sFrag(ep))
	vLoopInv(func(k int, st *stacktrace.StackTrace) bool {
		return judges(st == nil, func() bool { return vForAll(0, k, func(i int) bool { return sTypeOK(vOMVal(m, i)) }) })
	})
	vEnsures("every type", func(err *stacktrace.StackTrace) bool { return judges(err == nil, func() bool { return sTypesOK(m) }) })
}

func contract_RAML_validateLibrary(r *RAML, f *Library, cache map[int64]*BaseShape) {
	vProp("C08")
	vRequires("library", r != nil && f != nil)
	vHooks()
	vEnsures("every type and annotation type", func(err *stacktrace.StackTrace) bool {
		return judges(err == nil, func() bool { return sTypesOK(f.Types) && sTypesOK(f.AnnotationTypes) })
	})
}

func contract_RAML_validateDataType(r *RAML, f *DataType, cache map[int64]*BaseShape) {
	vProp("C08")
	vRequires("data type", r != nil && f != nil)
	vInvariant("unwrapped before", f.Shape != nil && f.Shape.Shape != nil && f.Shape.unwrapped)
	vHooks()
	vEnsures("the type", func(err *stacktrace.StackTrace) bool {
		return judges(err == nil, func() bool { return sTypeOK(f.Shape) })
	})
}

func sFragmentOK(f Fragment) bool {
	switch t := f.(type) {
	case *Library:
		return sTypesOK(t.Types) && sTypesOK(t.AnnotationTypes)
	case *DataType:
		return sTypeOK(t.Shape)
	}
	return true
}

func sFragmentsOK(r *RAML) bool {
	return vForAllStr(func(p string) bool { return !vHasKey(r.fragmentsCache, p) || sFragmentOK(r.fragmentsCache[p]) })
}

func contract_RAML_validateFragments(r *RAML, cache map[int64]*BaseShape) {
	vProp("C08")
	vRequires("model", r != nil)
	vInvariant("no empty entries", vForAllStr(func(p string) bool { return !vHasKey(r.fragmentsCache, p) || sFrag(r.fragmentsCache[p]) }))
	vHooks()
	ep := r.entryPoint
	vInvariant("entry point", ep == nil || sFrag(ep))
	vLoopInv(func(k int, st *stacktrace.StackTrace) bool {
		return judges(st == nil, func() bool {
			return vForAllStr(func(p string) bool { return !vVisited(p) || sFragmentOK(r.fragmentsCache[p]) })
		})
	})
	vEnsures("every fragment", func(err *stacktrace.StackTrace) bool {
		return judges(err == nil, func() bool { return sFragmentsOK(r) })
	})
}

func sAnnotationsOK(r *RAML) bool {
	return vForAll(0, len(r.domainExtensions), func(i int) bool {
		e := r.domainExtensions[i]
		return UH_valid(e.DefinedBy.Shape, e.Extension.Value)
	})
}

func contract_RAML_validateDomainExtensions(r *RAML, cache map[int64]*BaseShape) {
	vProp("C08")
	vRequires("model", r != nil)
	es := r.domainExtensions
	vInvariant("annotations present", vForAll(0, len(es), func(i int) bool {
		e := es[i]
		return e != nil && e.Extension != nil && e.DefinedBy != nil && e.DefinedBy.Shape != nil
	}))
	vInvariant("unwrapped before", vForAll(0, len(es), func(i int) bool { return es[i].DefinedBy.unwrapped }))
	vHooks()
	ep := r.entryPoint
	vInvariant("entry point", ep == nil || sFrag(ep))
	vLoopInv(func(k int, st *stacktrace.StackTrace) bool {
		return judges(st == nil, func() bool {
			return vForAll(0, k, func(i int) bool { return UH_valid(es[i].DefinedBy.Shape, es[i].Extension.Value) })
		})
	})
	vEnsures("every annotation", func(err *stacktrace.StackTrace) bool {
		return judges(err == nil, func() bool { return sAnnotationsOK(r) })
	})
}

// ValidateShapes of a model unwrapped before (otherwise see c18.go).
func contract_RAML_ValidateShapes__unwrapped(r *RAML) {
	vProp("C08")
	vRequires("model", r != nil)
	vHooks()
	vEnsures("the whole model", func(err error) bool {
		return judges(err == nil, func() bool { return sFragmentsOK(r) && sAnnotationsOK(r) })
	})
}
