#!/usr/bin/env python3
"""writes contracts/c09.go: copies of a type"""
scalars="Integer Number String File Boolean DateTime DateTimeOnly DateOnly TimeOnly Any Nil".split()
plain=scalars+"JSON Unknown".split()
compl="Array Object Union Recursive".split()
out=['''package raml

import (
	orderedmap "github.com/wk8/go-ordered-map/v2"
)

// ---- C09: copies of a type. Generated by tools/gen09.py.

// copying: a copy operation records every copied type in m, and changes
// nothing else.
func copying(m map[int64]*BaseShape) {
	vRequires("table of copies", m != nil)
	vInvariant("no empty entries", copiesSet(m))
	vModifies(m)
	d := vSnapMap(m)
	grow := func() bool {
		return vForAllInt(func(i int) bool {
			return !vHasKey(d, int64(i)) || vHasKey(m, int64(i)) && m[int64(i)] == d[int64(i)]
		})
	}
	vLoopInv(func(k int) bool { return grow() })
	vLoopInv(func(k int) bool { return copiesSet(m) })
	vEnsures("a type copied once stays", func() bool { return grow() })
	vEnsures("no empty entries", func() bool { return copiesSet(m) })
}

func copiesSet(m map[int64]*BaseShape) bool {
	return vForAllInt(func(i int) bool { return !vHasKey(m, int64(i)) || m[int64(i)] != nil })
}

// sCopied: c is the copy of n in this operation
func sCopied(m map[int64]*BaseShape, n, c *BaseShape) bool { return vHasKey(m, n.ID) && m[n.ID] == c }

func copiedProps(m map[int64]*BaseShape, a, b *orderedmap.OrderedMap[string, Property], k int) bool {
	return vFresh(b) && vOMLen(b) == k && vForAll(0, k, func(i int) bool {
		x, y := vOMVal(a, i), vOMVal(b, i)
		return vOMKey(b, i) == vOMKey(a, i) && y.Name == x.Name && y.Required == x.Required && sCopied(m, x.Base, y.Base)
	})
}

func copiedPats(m map[int64]*BaseShape, a, b *orderedmap.OrderedMap[string, PatternProperty], k int) bool {
	return vFresh(b) && vOMLen(b) == k && vForAll(0, k, func(i int) bool {
		x, y := vOMVal(a, i), vOMVal(b, i)
		return vOMKey(b, i) == vOMKey(a, i) && y.Pattern == x.Pattern && sCopied(m, x.Base, y.Base)
	})
}

func copiedShapes(m map[int64]*BaseShape, a, b []*BaseShape, k int) bool {
	return vFresh(b) && len(b) == len(a) && vForAll(0, k, func(i int) bool { return sCopied(m, a[i], b[i]) })
}

// sBases: the nested types of a table or list are set
func sBases(m *orderedmap.OrderedMap[string, Property]) bool {
	return vForAll(0, vOMLen(m), func(i int) bool { return vOMVal(m, i).Base != nil })
}

func sBasesP(m *orderedmap.OrderedMap[string, PatternProperty]) bool {
	return vForAll(0, vOMLen(m), func(i int) bool { return vOMVal(m, i).Base != nil })
}

func sBasesL(l []*BaseShape) bool {
	return vForAll(0, len(l), func(i int) bool { return l[i] != nil })
}

// sameTable: b is a new table with the entries of a's first k, in order
func sameTable[V any](a, b *orderedmap.OrderedMap[string, V], k int) bool {
	return vFresh(b) && vOMLen(b) == k && vForAll(0, k, func(i int) bool {
		return vOMKey(b, i) == vOMKey(a, i) && vSame(vOMVal(b, i), vOMVal(a, i))
	})
}

// sameBase: everything a copy keeps as it is
func sameBase(a, b *BaseShape) bool {
	return b.ID == a.ID && b.Name == a.Name && b.DisplayName == a.DisplayName && b.Description == a.Description &&
		b.Type == a.Type && b.TypeLabel == a.TypeLabel && b.Example == a.Example && b.Examples == a.Examples &&
		b.Default == a.Default && b.Required == a.Required && b.unwrapped == a.unwrapped && b.ShapeVisited == a.ShapeVisited &&
		b.raml == a.raml && b.Location == a.Location && vSame(b.Position, a.Position)
}

// U_isCopy: c is the copy of the kind-specific part s, made for base
func U_isCopy(s, c Shape, base *BaseShape) bool { return c != nil && c.Base() == base && c.IsScalar() == s.IsScalar() }

func contract_Shape_clone(s Shape, base *BaseShape, m map[int64]*BaseShape) {
	vRequires("type", s != nil)
	copying(m)
	vDefine("the copy", func(c Shape) bool { return U_isCopy(s, c, base) })
	vEnsures("new, of the same kind", func(c Shape) bool { return c != nil && vFresh(c) && vDynType(c) == vDynType(s) })
}

func contract_Shape_cloneShallow(s Shape, base *BaseShape) {
	vRequires("type", s != nil)
	vDefine("the copy", func(c Shape) bool { return U_isCopy(s, c, base) })
	vEnsures("new, of the same kind", func(c Shape) bool { return c != nil && vFresh(c) && vDynType(c) == vDynType(s) })
}
''']
for k in scalars+["JSON","Unknown"]+compl:
    same='''
	vEnsures("the same facets", func(r Shape) bool {
		t, ok := r.(*%sShape)
		w := *t
		w.BaseShape = s.BaseShape%s
		return ok && vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})'''
    over={'Array':'w.Items = s.Items','Object':'w.Properties, w.PatternProperties = s.Properties, s.PatternProperties','Union':'w.AnyOf = s.AnyOf','Recursive':'w.Head = s.Head'}.get(k)
    deep=same%(k,'\n\t\t'+over if over else '')
    inv='s.BaseShape != nil'
    loops=''
    if k=='Array':
        deep+='''
	vEnsures("copied items", func(r Shape) bool {
		t, _ := r.(*ArrayShape)
		return s.Items == nil && t.Items == nil || s.Items != nil && sCopied(m, s.Items, t.Items)
	})'''
    if k=='Recursive':
        deep+='''
	vEnsures("copied head", func(r Shape) bool {
		t, _ := r.(*RecursiveShape)
		return s.Head == nil && t.Head == nil || s.Head != nil && sCopied(m, s.Head, t.Head)
	})'''
    if k=='Union':
        inv+=' && sBasesL(s.AnyOf)'
        loops='''
	vLoopInv(func(k int, t *UnionShape) bool { return copiedShapes(m, s.AnyOf, t.AnyOf, k) })'''
        deep+='''
	vEnsures("copied members", func(r Shape) bool {
		t, _ := r.(*UnionShape)
		return copiedShapes(m, s.AnyOf, t.AnyOf, len(s.AnyOf))
	})'''
    if k=='Object':
        inv+=' && sBases(s.Properties) && sBasesP(s.PatternProperties)'
        loops='''
	vLoopInv(func(k int, t *ObjectShape) bool { return copiedProps(m, s.Properties, t.Properties, k) })
	vLoopInv(func(k int, t *ObjectShape) bool {
		return s.Properties == nil && t.Properties == nil || s.Properties != nil && copiedProps(m, s.Properties, t.Properties, vOMLen(s.Properties))
	})
	vLoopInv(func(k int, t *ObjectShape) bool { return copiedPats(m, s.PatternProperties, t.PatternProperties, k) })
	vLoopInv(func(k int, t *ObjectShape) bool {
		w := *t
		w.BaseShape, w.Properties, w.PatternProperties = s.BaseShape, s.Properties, s.PatternProperties
		return vFresh(t) && t.BaseShape == base && vSame(w, *s)
	})'''
        deep+='''
	vEnsures("copied properties in order", func(r Shape) bool {
		t, _ := r.(*ObjectShape)
		return s.Properties == nil && t.Properties == nil || s.Properties != nil && copiedProps(m, s.Properties, t.Properties, vOMLen(s.Properties))
	})
	vEnsures("copied pattern properties in order", func(r Shape) bool {
		t, _ := r.(*ObjectShape)
		return s.PatternProperties == nil && t.PatternProperties == nil || s.PatternProperties != nil && copiedPats(m, s.PatternProperties, t.PatternProperties, vOMLen(s.PatternProperties))
	})'''
    hd='copying(m)' if k in compl else 'vInvariant("no empty entries", copiesSet(m))'
    out.append('''
func contract_%sShape_clone(s *%sShape, base *BaseShape, m map[int64]*BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", %s)
	%s%s%s
}

func contract_%sShape_cloneShallow(s *%sShape, base *BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.BaseShape != nil)%s
}
'''%(k,k,inv,hd,loops,deep,k,k,same%(k,'')))
out.append('''
func copyBase(s *BaseShape, m map[int64]*BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	copying(m)
	vInvariant("type", s.Shape != nil && sBases(s.CustomShapeFacetDefinitions) && sBasesL(s.Inherits) && (s.Link == nil || s.Link.Shape != nil))
	had := vHasKey(m, s.ID)
	old := m[s.ID]
	f, d, a := s.CustomShapeFacets, s.CustomShapeFacetDefinitions, s.CustomDomainProperties
	vLoopInv(func(k int, c *BaseShape) bool { return sCopied(m, s, c) })
	vLoopInv(func(k int, c *BaseShape) bool { return sameBase(s, c) })
	vLoopInv(func(k int, c *BaseShape) bool { return sameTable(f, c.CustomShapeFacets, k) })
	vLoopInv(func(k int, c *BaseShape) bool { return sameTable(f, c.CustomShapeFacets, vOMLen(f)) })
	vLoopInv(func(k int, c *BaseShape) bool { return copiedProps(m, d, c.CustomShapeFacetDefinitions, k) })
	vLoopInv(func(k int, c *BaseShape) bool { return copiedProps(m, d, c.CustomShapeFacetDefinitions, vOMLen(d)) })
	vLoopInv(func(k int, c *BaseShape) bool { return sameTable(a, c.CustomDomainProperties, k) })
	vLoopInv(func(k int, c *BaseShape) bool { return sameTable(a, c.CustomDomainProperties, vOMLen(a)) })
	vLoopInv(func(k int, c *BaseShape) bool { return c.Link == s.Link })
	vLoopInv(func(k int, c *BaseShape) bool {
		return s.Alias == nil && c.Alias == nil || s.Alias != nil && sCopied(m, s.Alias, c.Alias)
	})
	vLoopInv(func(k int, c *BaseShape) bool { return copiedShapes(m, s.Inherits, c.Inherits, k) })
	vEnsures("copied once", func(c *BaseShape) bool { return sCopied(m, s, c) && (!had || c == old) })
	vEnsures("new", func(c *BaseShape) bool { return c != nil && (had || vFresh(c)) })
	vEnsures("the same settings", func(c *BaseShape) bool { return had || sameBase(s, c) })
	vEnsures("own facets", func(c *BaseShape) bool { return had || sameTable(f, c.CustomShapeFacets, vOMLen(f)) })
	vEnsures("own annotations", func(c *BaseShape) bool { return had || sameTable(a, c.CustomDomainProperties, vOMLen(a)) })
	vEnsures("copied facet definitions", func(c *BaseShape) bool {
		return had || copiedProps(m, d, c.CustomShapeFacetDefinitions, vOMLen(d))
	})
	vEnsures("copied alias", func(c *BaseShape) bool {
		return had || s.Alias == nil && c.Alias == nil || s.Alias != nil && sCopied(m, s.Alias, c.Alias)
	})
	vEnsures("copied parents", func(c *BaseShape) bool {
		return had || s.Inherits == nil && c.Inherits == nil || s.Inherits != nil && copiedShapes(m, s.Inherits, c.Inherits, len(s.Inherits))
	})
	vEnsures("copied link", func(c *BaseShape) bool {
		return had || s.Link == nil && c.Link == nil || s.Link != nil && vFresh(c.Link) && c.Link != nil && sCopied(m, s.Link.Shape, c.Link.Shape) &&
			c.Link.ID == s.Link.ID && c.Link.Usage == s.Link.Usage && c.Link.Uses == s.Link.Uses && c.Link.Location == s.Link.Location && c.Link.raml == s.Link.raml
	})
	vEnsures("the kind is copied", func(c *BaseShape) bool {
		return had || c.Shape != nil && U_isCopy(s.Shape, c.Shape, c) && vFresh(c.Shape) && vDynType(c.Shape) == vDynType(s.Shape)
	})
}

func contract_BaseShape_clone(s *BaseShape, m map[int64]*BaseShape) { copyBase(s, m) }

func contract_BaseShape_Clone(s *BaseShape, m map[int64]*BaseShape) { copyBase(s, m) }

func contract_BaseShape_CloneDetached(s *BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.Shape != nil && sBases(s.CustomShapeFacetDefinitions) && sBasesL(s.Inherits) && (s.Link == nil || s.Link.Shape != nil))
	f, a := s.CustomShapeFacets, s.CustomDomainProperties
	vEnsures("new", func(c *BaseShape) bool { return c != nil && vFresh(c) && sameBase(s, c) })
	vEnsures("own tables", func(c *BaseShape) bool {
		return sameTable(f, c.CustomShapeFacets, vOMLen(f)) && sameTable(a, c.CustomDomainProperties, vOMLen(a))
	})
	vEnsures("the kind is copied", func(c *BaseShape) bool {
		return c.Shape != nil && U_isCopy(s.Shape, c.Shape, c) && vFresh(c.Shape) && vDynType(c.Shape) == vDynType(s.Shape)
	})
}

func contract_BaseShape_CloneShallow(s *BaseShape) {
	vProp("C09")
	vRequires("type", s != nil)
	vInvariant("type", s.Shape != nil)
	f, d, a := s.CustomShapeFacets, s.CustomShapeFacetDefinitions, s.CustomDomainProperties
	vLoopInv(func(k int, c *BaseShape) bool { return sameTable(f, c.CustomShapeFacets, k) })
	vLoopInv(func(k int, c *BaseShape) bool { return sameTable(f, c.CustomShapeFacets, vOMLen(f)) })
	vLoopInv(func(k int, c *BaseShape) bool { return sameTable(d, c.CustomShapeFacetDefinitions, k) })
	vLoopInv(func(k int, c *BaseShape) bool { return sameTable(a, c.CustomDomainProperties, k) })
	vLoopInv(func(k int, c *BaseShape) bool { return sameTable(a, c.CustomDomainProperties, vOMLen(a)) })
	vEnsures("new", func(c *BaseShape) bool { return c != nil && vFresh(c) && sameBase(s, c) })
	vEnsures("the same types", func(c *BaseShape) bool {
		return c.Alias == s.Alias && c.Link == s.Link && vSame(c.Inherits, s.Inherits)
	})
	vEnsures("own tables", func(c *BaseShape) bool {
		return sameTable(f, c.CustomShapeFacets, vOMLen(f)) && sameTable(a, c.CustomDomainProperties, vOMLen(a)) &&
			sameTable(d, c.CustomShapeFacetDefinitions, vOMLen(d))
	})
	vEnsures("the kind is copied", func(c *BaseShape) bool {
		return c.Shape != nil && U_isCopy(s.Shape, c.Shape, c) && vFresh(c.Shape) && vDynType(c.Shape) == vDynType(s.Shape)
	})
}
''')
open('/verif/contracts/c09.go','w').write(''.join(out))
