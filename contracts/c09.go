package raml

import (
	orderedmap "github.com/wk8/go-ordered-map/v2"
)

// ---- C09: copies of a type. Generated by tools/gen09.py.

// copying: a copy operation records every copied type in m, and changes
// nothing else.
func copying(m map[int64]*BaseShape) {
	vRequires("table of copies", m != nil)
	vInvariant("no empty entries", copiesSet(m))
	vModifies(m)
	d := vSnapMap(m)
	grow := func() bool {
		return vForAllInt(func(i int) bool {
			return !vHasKey(d, int64(i)) || vHasKey(m, int64(i)) && m[int64(i)] == d[int64(i)]
		})
	}
	vLoopInv(func(k int) bool { return grow() })
	vLoopInv(func(k int) bool { return copiesSet(m) })
	vEnsures("a type copied once stays", func() bool { return grow() })
	vEnsures("no empty entries", func() bool { return copiesSet(m) })
}

func copiesSet(m map[int64]*BaseShape) bool {
	return vForAllInt(func(i int) bool { return !vHasKey(m, int64(i)) || m[int64(i)] != nil })
}

// sCopied: c is the copy of n in this operation
func sCopied(m map[int64]*BaseShape, n, c *BaseShape) bool { return vHasKey(m, n.ID) && m[n.ID] == c }

func copiedProps(m map[int64]*BaseShape, a, b *orderedmap.OrderedMap[string, Property], k int) bool {
	return vFresh(b) && vOMLen(b) == k && vForAll(0, k, func(i int) bool {
		x, y := vOMVal(a, i), vOMVal(b, i)
		return vOMKey(b, i) == vOMKey(a, i) && y.Name == x.Name && y.Required == x.Required && sCopied(m, x.Base, y.Base)
	})
}

func copiedPats(m map[int64]*BaseShape, a, b *orderedmap.OrderedMap[string, PatternProperty], k int) bool {
	return vFresh(b) && vOMLen(b) == k && vForAll(0, k, func(i int) bool {
		x, y := vOMVal(a, i), vOMVal(b, i)
		return vOMKey(b, i) == vOMKey(a, i) && y.Pattern == x.Pattern && sCopied(m, x.Base, y.Base)
	})
}

func copiedShapes(m map[int64]*BaseShape, a, b []*BaseShape, k int) bool {
	return vFresh(b) && len(b) == len(a) && vForAll(0, k, func(i int) bool { return sCopied(m, a[i], b[i]) })
}

// sBases: the nested types of a table or list are set
func sBases(m *orderedmap.OrderedMap[string, Property]) bool {
	return vForAll(0, vOMLen(m), func(i int) bool { return vOMVal(m, i).Base != nil })
}

func sBasesP(m *orderedmap.OrderedMap[string, PatternProperty]) bool {
	return vForAll(0, vOMLen(m), func(i int) bool { return vOMVal(m, i).Base != nil })
}

func sBasesL(l []*BaseShape) bool {
	return vForAll(0, len(l), func(i int) bool { return l[i] != nil })
}

// sameTable: b is a new table with the entries of a's first k, in order
func sameTable[V any](a, b *orderedmap.OrderedMap[string, V], k int) bool {
	return vFresh(b) && vOMLen(b) == k && vForAll(0, k, func(i int) bool {
		return vOMKey(b, i) == vOMKey(a, i) && vSame(vOMVal(b, i), vOMVal(a, i))
	})
}

// sameBase: everything a copy keeps as it is
func sameBase(a, b *BaseShape) bool {
	return b.ID == a.ID && b.Name == a.Name && b.DisplayName == a.DisplayName && b.Description == a.Description &&
		b.Type == a.Type && b.TypeLabel == a.TypeLabel && b.Example == a.Example && b.Examples == a.Examples &&
		b.Default == a.Default && b.Required == a.Required && b.unwrapped == a.unwrapped && b.ShapeVisited == a.ShapeVisited &&
		b.raml == a.raml && b.Location == a.Location && vSame(b.Position, a.Position)
}

// U_isCopy: c is the copy of the kind-specific part s, made for base
func U_isCopy(s, c Shape, base *BaseShape) bool {
	return c != nil && c.Base() == base && c.IsScalar() == s.IsScalar()
}

func contract_Shape_clone(s Shape, base *BaseShape, m map[int64]*BaseShape) {
	vRequires("type", s != nil)
	copying(m)
	vDefine("the copy", func(c Shape) bool { return U_isCopy(s, c, base) })
	vEnsures("new, of the same kind", func(c Shape) bool { return c != nil && vFresh(c) && vDynType(c) == vDynType(s) })
}

func contract_Shape_cloneShallow(s Shape, base *BaseShape) {
	vRequires("type", s != nil)
	vDefine("the copy", func(c Shape) bool { return U_isCopy(s, c, base) })
	vEnsures("new, of the same kind", func(c Shape) bool { return c != nil && vFresh(c) && vDynType(c) == vDynType(s) })
}

func contract_IntegerShape_clone(s *IntegerShape, base *BaseShape, m map[int64]*BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vInvariant("no empty entries", copiesSet(m))
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*IntegerShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_IntegerShape_cloneShallow(s *IntegerShape, base *BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*IntegerShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_NumberShape_clone(s *NumberShape, base *BaseShape, m map[int64]*BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vInvariant("no empty entries", copiesSet(m))
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*NumberShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_NumberShape_cloneShallow(s *NumberShape, base *BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*NumberShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_StringShape_clone(s *StringShape, base *BaseShape, m map[int64]*BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vInvariant("no empty entries", copiesSet(m))
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*StringShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_StringShape_cloneShallow(s *StringShape, base *BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*StringShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_FileShape_clone(s *FileShape, base *BaseShape, m map[int64]*BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vInvariant("no empty entries", copiesSet(m))
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*FileShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_FileShape_cloneShallow(s *FileShape, base *BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*FileShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_BooleanShape_clone(s *BooleanShape, base *BaseShape, m map[int64]*BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vInvariant("no empty entries", copiesSet(m))
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*BooleanShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_BooleanShape_cloneShallow(s *BooleanShape, base *BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*BooleanShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_DateTimeShape_clone(s *DateTimeShape, base *BaseShape, m map[int64]*BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vInvariant("no empty entries", copiesSet(m))
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*DateTimeShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_DateTimeShape_cloneShallow(s *DateTimeShape, base *BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*DateTimeShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_DateTimeOnlyShape_clone(s *DateTimeOnlyShape, base *BaseShape, m map[int64]*BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vInvariant("no empty entries", copiesSet(m))
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*DateTimeOnlyShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_DateTimeOnlyShape_cloneShallow(s *DateTimeOnlyShape, base *BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*DateTimeOnlyShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_DateOnlyShape_clone(s *DateOnlyShape, base *BaseShape, m map[int64]*BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vInvariant("no empty entries", copiesSet(m))
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*DateOnlyShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_DateOnlyShape_cloneShallow(s *DateOnlyShape, base *BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*DateOnlyShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_TimeOnlyShape_clone(s *TimeOnlyShape, base *BaseShape, m map[int64]*BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vInvariant("no empty entries", copiesSet(m))
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*TimeOnlyShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_TimeOnlyShape_cloneShallow(s *TimeOnlyShape, base *BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*TimeOnlyShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_AnyShape_clone(s *AnyShape, base *BaseShape, m map[int64]*BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vInvariant("no empty entries", copiesSet(m))
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*AnyShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_AnyShape_cloneShallow(s *AnyShape, base *BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*AnyShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_NilShape_clone(s *NilShape, base *BaseShape, m map[int64]*BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vInvariant("no empty entries", copiesSet(m))
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*NilShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_NilShape_cloneShallow(s *NilShape, base *BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*NilShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_JSONShape_clone(s *JSONShape, base *BaseShape, m map[int64]*BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vInvariant("no empty entries", copiesSet(m))
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*JSONShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_JSONShape_cloneShallow(s *JSONShape, base *BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*JSONShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_UnknownShape_clone(s *UnknownShape, base *BaseShape, m map[int64]*BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vInvariant("no empty entries", copiesSet(m))
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*UnknownShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_UnknownShape_cloneShallow(s *UnknownShape, base *BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*UnknownShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_ArrayShape_clone(s *ArrayShape, base *BaseShape, m map[int64]*BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	copying(m)
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*ArrayShape)
		w := *t
		w.BaseShape = s.BaseShape
		w.Items = s.Items
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
	vEnsures("copied items", func(r Shape) bool {
		t, _ := r.(*ArrayShape)
		return s.Items == nil && t.Items == nil || s.Items != nil && sCopied(m, s.Items, t.Items)
	})
}

func contract_ArrayShape_cloneShallow(s *ArrayShape, base *BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*ArrayShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_ObjectShape_clone(s *ObjectShape, base *BaseShape, m map[int64]*BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil && sBases(s.Properties) && sBasesP(s.PatternProperties))
	copying(m)
	vLoopInv(func(k int, t *ObjectShape) bool { return copiedProps(m, s.Properties, t.Properties, k) })
	vLoopInv(func(k int, t *ObjectShape) bool {
		return s.Properties == nil && t.Properties == nil || s.Properties != nil && copiedProps(m, s.Properties, t.Properties, vOMLen(s.Properties))
	})
	vLoopInv(func(k int, t *ObjectShape) bool { return copiedPats(m, s.PatternProperties, t.PatternProperties, k) })
	vLoopInv(func(k int, t *ObjectShape) bool {
		w := *t
		w.BaseShape, w.Properties, w.PatternProperties = s.BaseShape, s.Properties, s.PatternProperties
		return vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*ObjectShape)
		w := *t
		w.BaseShape = s.BaseShape
		w.Properties, w.PatternProperties = s.Properties, s.PatternProperties
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
	vEnsures("copied properties in order", func(r Shape) bool {
		t, _ := r.(*ObjectShape)
		return s.Properties == nil && t.Properties == nil || s.Properties != nil && copiedProps(m, s.Properties, t.Properties, vOMLen(s.Properties))
	})
	vEnsures("copied pattern properties in order", func(r Shape) bool {
		t, _ := r.(*ObjectShape)
		return s.PatternProperties == nil && t.PatternProperties == nil || s.PatternProperties != nil && copiedPats(m, s.PatternProperties, t.PatternProperties, vOMLen(s.PatternProperties))
	})
}

func contract_ObjectShape_cloneShallow(s *ObjectShape, base *BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*ObjectShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_UnionShape_clone(s *UnionShape, base *BaseShape, m map[int64]*BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil && sBasesL(s.AnyOf))
	copying(m)
	vLoopInv(func(k int, t *UnionShape) bool { return copiedShapes(m, s.AnyOf, t.AnyOf, k) })
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*UnionShape)
		w := *t
		w.BaseShape = s.BaseShape
		w.AnyOf = s.AnyOf
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
	vEnsures("copied members", func(r Shape) bool {
		t, _ := r.(*UnionShape)
		return copiedShapes(m, s.AnyOf, t.AnyOf, len(s.AnyOf))
	})
}

func contract_UnionShape_cloneShallow(s *UnionShape, base *BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*UnionShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func contract_RecursiveShape_clone(s *RecursiveShape, base *BaseShape, m map[int64]*BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	copying(m)
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*RecursiveShape)
		w := *t
		w.BaseShape = s.BaseShape
		w.Head = s.Head
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
	vEnsures("copied head", func(r Shape) bool {
		t, _ := r.(*RecursiveShape)
		return s.Head == nil && t.Head == nil || s.Head != nil && sCopied(m, s.Head, t.Head)
	})
}

func contract_RecursiveShape_cloneShallow(s *RecursiveShape, base *BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*RecursiveShape)
		w := *t
		w.BaseShape = s.BaseShape
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})
}

func copyBase(s *BaseShape, m map[int64]*BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	copying(m)
	vInvariant("type", s.Shape != nil && sBases(s.CustomShapeFacetDefinitions) && sBasesL(s.Inherits) && (s.Link == nil || s.Link.Shape != nil))
	had := vHasKey(m, s.ID)
	old := m[s.ID]
	f, d, a := s.CustomShapeFacets, s.CustomShapeFacetDefinitions, s.CustomDomainProperties
	vLoopInv(func(k int, c *BaseShape) bool { return sCopied(m, s, c) })
	vLoopInv(func(k int, c *BaseShape) bool { return sameBase(s, c) })
	vLoopInv(func(k int, c *BaseShape) bool { return sameTable(f, c.CustomShapeFacets, k) })
	vLoopInv(func(k int, c *BaseShape) bool { return sameTable(f, c.CustomShapeFacets, vOMLen(f)) })
	vLoopInv(func(k int, c *BaseShape) bool { return copiedProps(m, d, c.CustomShapeFacetDefinitions, k) })
	vLoopInv(func(k int, c *BaseShape) bool { return copiedProps(m, d, c.CustomShapeFacetDefinitions, vOMLen(d)) })
	vLoopInv(func(k int, c *BaseShape) bool { return sameTable(a, c.CustomDomainProperties, k) })
	vLoopInv(func(k int, c *BaseShape) bool { return sameTable(a, c.CustomDomainProperties, vOMLen(a)) })
	vLoopInv(func(k int, c *BaseShape) bool { return c.Link == s.Link })
	vLoopInv(func(k int, c *BaseShape) bool {
		return s.Alias == nil && c.Alias == nil || s.Alias != nil && sCopied(m, s.Alias, c.Alias)
	})
	vLoopInv(func(k int, c *BaseShape) bool { return copiedShapes(m, s.Inherits, c.Inherits, k) })
	vEnsures("copied once", func(c *BaseShape) bool { return sCopied(m, s, c) && (!had || c == old) })
	vEnsures("new", func(c *BaseShape) bool { return c != nil && (had || vFresh(c)) })
	vEnsures("the same settings", func(c *BaseShape) bool { return had || sameBase(s, c) })
	vEnsures("own facets", func(c *BaseShape) bool { return had || sameTable(f, c.CustomShapeFacets, vOMLen(f)) })
	vEnsures("own annotations", func(c *BaseShape) bool { return had || sameTable(a, c.CustomDomainProperties, vOMLen(a)) })
	vEnsures("copied facet definitions", func(c *BaseShape) bool {
		return had || copiedProps(m, d, c.CustomShapeFacetDefinitions, vOMLen(d))
	})
	vEnsures("copied alias", func(c *BaseShape) bool {
		return had || s.Alias == nil && c.Alias == nil || s.Alias != nil && sCopied(m, s.Alias, c.Alias)
	})
	vEnsures("copied parents", func(c *BaseShape) bool {
		return had || s.Inherits == nil && c.Inherits == nil || s.Inherits != nil && copiedShapes(m, s.Inherits, c.Inherits, len(s.Inherits))
	})
	vEnsures("copied link", func(c *BaseShape) bool {
		return had || s.Link == nil && c.Link == nil || s.Link != nil && vFresh(c.Link) && c.Link != nil && sCopied(m, s.Link.Shape, c.Link.Shape) &&
			c.Link.ID == s.Link.ID && c.Link.Usage == s.Link.Usage && c.Link.Uses == s.Link.Uses && c.Link.Location == s.Link.Location && c.Link.raml == s.Link.raml
	})
	vEnsures("the kind is copied", func(c *BaseShape) bool {
		return had || c.Shape != nil && U_isCopy(s.Shape, c.Shape, c) && vFresh(c.Shape) && vDynType(c.Shape) == vDynType(s.Shape)
	})
}

func contract_BaseShape_clone(s *BaseShape, m map[int64]*BaseShape) { copyBase(s, m) }

func contract_BaseShape_Clone(s *BaseShape, m map[int64]*BaseShape) { copyBase(s, m) }

func contract_BaseShape_CloneDetached(s *BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.Shape != nil && sBases(s.CustomShapeFacetDefinitions) && sBasesL(s.Inherits) && (s.Link == nil || s.Link.Shape != nil))
	f, a := s.CustomShapeFacets, s.CustomDomainProperties
	vEnsures("new", func(c *BaseShape) bool { return c != nil && vFresh(c) && sameBase(s, c) })
	vEnsures("own tables", func(c *BaseShape) bool {
		return sameTable(f, c.CustomShapeFacets, vOMLen(f)) && sameTable(a, c.CustomDomainProperties, vOMLen(a))
	})
	vEnsures("the kind is copied", func(c *BaseShape) bool {
		return c.Shape != nil && U_isCopy(s.Shape, c.Shape, c) && vFresh(c.Shape) && vDynType(c.Shape) == vDynType(s.Shape)
	})
}

func contract_BaseShape_CloneShallow(s *BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.Shape != nil)
	f, d, a := s.CustomShapeFacets, s.CustomShapeFacetDefinitions, s.CustomDomainProperties
	vLoopInv(func(k int, c *BaseShape) bool { return sameTable(f, c.CustomShapeFacets, k) })
	vLoopInv(func(k int, c *BaseShape) bool { return sameTable(f, c.CustomShapeFacets, vOMLen(f)) })
	vLoopInv(func(k int, c *BaseShape) bool { return sameTable(d, c.CustomShapeFacetDefinitions, k) })
	vLoopInv(func(k int, c *BaseShape) bool { return sameTable(a, c.CustomDomainProperties, k) })
	vLoopInv(func(k int, c *BaseShape) bool { return sameTable(a, c.CustomDomainProperties, vOMLen(a)) })
	vEnsures("new", func(c *BaseShape) bool { return c != nil && vFresh(c) && sameBase(s, c) })
	vEnsures("the same types", func(c *BaseShape) bool {
		return c.Alias == s.Alias && c.Link == s.Link && vSame(c.Inherits, s.Inherits)
	})
	vEnsures("own tables", func(c *BaseShape) bool {
		return sameTable(f, c.CustomShapeFacets, vOMLen(f)) && sameTable(a, c.CustomDomainProperties, vOMLen(a)) &&
			sameTable(d, c.CustomShapeFacetDefinitions, vOMLen(d))
	})
	vEnsures("the kind is copied", func(c *BaseShape) bool {
		return c.Shape != nil && U_isCopy(s.Shape, c.Shape, c) && vFresh(c.Shape) && vDynType(c.Shape) == vDynType(s.Shape)
	})
}
