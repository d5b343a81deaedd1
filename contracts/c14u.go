package raml

import (
	"path/filepath"

	orderedmap "github.com/wk8/go-ordered-map/v2"
	"gopkg.in/yaml.v3"
)

// ---- C14: the declaration of a type as a whole

func sBaseFacet(name string) bool {
	switch name {
	case "type", "displayName", "description", "required", "facets", "example", "examples", "default", "allowedTargets":
		return true
	}
	return false
}

// sOther: a pair of that name belongs to the kind of the type.
func sOther(name string) bool { return !sBaseFacet(name) && !sIsAnno(name) }

func contract_BaseShape_decodeExample(s *BaseShape, n *yaml.Node) {
	vProp("C14")
	vRequires("type", s != nil && s.raml != nil && n != nil)
	vInvariant("nodes present", sNodeOK(n))
	r := s.raml
	vModifies(&s.Example, &r.domainExtensions, r.domainExtensions)
	d := vRefID(r.domainExtensions)
	o, e, loc := s.Example, s.Examples, s.Location
	vEnsures("refused if malformed or if there are examples", func(err error) bool { return (err == nil) == (e == nil && U_exampleOK(n, loc)) })
	vEnsures("the example", func(err error) bool {
		return err != nil && s.Example == o || err == nil && vFresh(s.Example) && U_isExample(n, "", loc, s.Example)
	})
	vEnsures("registers grow", func() bool { return vRefID(r.domainExtensions) == d || vFresh(r.domainExtensions) })
}

// sExamples: m has the examples the first k pairs of c declare.
func sExamples(c []*yaml.Node, k int, loc string, m *orderedmap.OrderedMap[string, *Example]) bool {
	return vForAll(0, k, func(j int) bool {
		a := c[2*j].Value
		return vOMHas(m, a) && (vExists(j+1, k, func(i int) bool { return c[2*i].Value == a }) || U_isExample(c[2*j+1], a, loc, vOMGet(m, a)))
	}) && vForAllStr(func(a string) bool { return !vOMHas(m, a) || sHasName(c, k, a) })
}

func contract_BaseShape_decodeExamples(s *BaseShape, n *yaml.Node) {
	vProp("C14")
	vRequires("type", s != nil && s.raml != nil && n != nil)
	vInvariant("nodes present", sNodeOK(n) && vForAll(0, len(n.Content), func(j int) bool { return sNodeOK(n.Content[j]) }))
	vModifies(&s.Examples)
	o, e, loc, r := s.Examples, s.Example, s.Location, s.raml
	c := n.Content
	inc := n.Kind == yaml.ScalarNode && n.Tag == "!include"
	modModel(r)
	vLoopInv(func(k int, m *orderedmap.OrderedMap[string, *Example]) bool { return m != nil && sExamples(c, k, loc, m) })
	vEnsures("refused if there is an example", func(err error) bool { return err != nil || e == nil })
	vEnsures("refused unless a map or an include", func(err error) bool { return err != nil || inc || n.Kind == yaml.MappingNode })
	vEnsures("the examples", func(err error) bool {
		return err != nil && s.Examples == o || err == nil && vFresh(s.Examples) && s.Examples.Location == loc &&
			(inc || s.Examples.Link == nil && s.Examples.Map != nil && sExamples(c, len(c)/2, loc, s.Examples.Map))
	})
	vEnsures("included examples", func(err error) bool {
		return err != nil || !inc || s.Examples.Map == nil && s.Examples.Link != nil &&
			vSame(r.fragmentsCache[filepath.Join(filepath.Dir(loc), n.Value)], Fragment(s.Examples.Link))
	})
}

// sDefs: m has the facets the first k pairs of c define, under the names of
// the properties they make.
func sDefs(c []*yaml.Node, k int, loc string, m *orderedmap.OrderedMap[string, Property]) bool {
	return vForAll(0, k, func(j int) bool {
		a, n := c[2*j].Value, c[2*j+1]
		b := sChomped(a)
		return vOMHas(m, b) && vOMGet(m, b).Name == b && isProp(vOMGet(m, b), n, a, loc) ||
			vOMHas(m, a) && vOMGet(m, a).Name == a && isProp(vOMGet(m, a), n, a, loc) ||
			vExists(j+1, k, func(i int) bool { return sCollide(c[2*i].Value, a) })
	})
}

func contract_BaseShape_decodeFacets(s *BaseShape, n *yaml.Node) {
	vProp("C14")
	vRequires("type", s != nil && s.raml != nil && n != nil)
	vInvariant("nodes present", sNodeOK(n) && vForAll(0, len(n.Content), func(j int) bool { return sNodeOK(n.Content[j]) }))
	vModifies(&s.CustomShapeFacetDefinitions)
	loc, c := s.Location, n.Content
	modModel(s.raml)
	null := n.Kind == yaml.ScalarNode && n.Tag == "!!null"
	vLoopInv(func(k int) bool { return vFresh(s.CustomShapeFacetDefinitions) && sDefs(c, k, loc, s.CustomShapeFacetDefinitions) })
	vEnsures("refused unless a map", func(err error) bool { return err != nil || n.Kind == yaml.MappingNode || null })
	old := s.CustomShapeFacetDefinitions
	vEnsures("table", func() bool { return s.CustomShapeFacetDefinitions == old || vFresh(s.CustomShapeFacetDefinitions) })
	vEnsures("the definitions", func(err error) bool {
		return err != nil || vFresh(s.CustomShapeFacetDefinitions) && sDefs(c, len(c)/2, loc, s.CustomShapeFacetDefinitions)
	})
}

func contract_BaseShape_decodeValueNode(s *BaseShape, key, n *yaml.Node) {
	vProp("C14")
	vRequires("type", s != nil && s.raml != nil && key != nil && n != nil)
	vInvariant("nodes present", sNodeOK(n))
	vInvariant("annotation table", s.CustomDomainProperties != nil)
	vModifies(&s.DisplayName, &s.Description, &s.Required, &s.CustomShapeFacetDefinitions, &s.Example, &s.Examples, &s.Default, s.CustomDomainProperties)
	dn, ds, rq, ex, exs, df, defs := s.DisplayName, s.Description, s.Required, s.Example, s.Examples, s.Default, s.CustomShapeFacetDefinitions
	t, t0 := s.CustomDomainProperties, vSnapOM(s.CustomDomainProperties)
	loc := s.Location
	modModel(s.raml)
	name := key.Value
	vEnsures("the type node", func(tn *yaml.Node, l []*yaml.Node, err error) bool {
		return err != nil || name == "type" && tn == n || name != "type" && tn == nil
	})
	vEnsures("facets of the kind are passed on", func(tn *yaml.Node, l []*yaml.Node, err error) bool {
		return err != nil || sOther(name) && len(l) == 2 && l[0] == key && l[1] == n || !sOther(name) && len(l) == 0
	})
	vEnsures("display name", func(tn *yaml.Node, l []*yaml.Node, err error) bool {
		return err != nil || name == "displayName" && vDecOK[*string](n) && vIsDec(s.DisplayName, n, dn) || name != "displayName" && s.DisplayName == dn
	})
	vEnsures("description", func(tn *yaml.Node, l []*yaml.Node, err error) bool {
		return err != nil || name == "description" && vDecOK[*string](n) && vIsDec(s.Description, n, ds) || name != "description" && s.Description == ds
	})
	vEnsures("required", func(tn *yaml.Node, l []*yaml.Node, err error) bool {
		return err != nil || name == "required" && vDecOK[*bool](n) && vIsDec(s.Required, n, rq) || name != "required" && s.Required == rq
	})
	vEnsures("default", func(tn *yaml.Node, l []*yaml.Node, err error) bool {
		return err != nil || name == "default" && s.Default != nil && U_isRoot(n, loc, s.Default) || name != "default" && s.Default == df
	})
	vEnsures("example", func(tn *yaml.Node, l []*yaml.Node, err error) bool {
		return err != nil || name == "example" && exs == nil && s.Example != nil && U_isExample(n, "", loc, s.Example) || name != "example" && s.Example == ex
	})
	vEnsures("examples", func(tn *yaml.Node, l []*yaml.Node, err error) bool {
		return err != nil || name == "examples" && ex == nil && s.Examples != nil || name != "examples" && s.Examples == exs
	})
	vProve("the examples", func(tn *yaml.Node, l []*yaml.Node, err error) bool {
		return err != nil || name != "examples" || n.Kind != yaml.MappingNode || sExamples(n.Content, len(n.Content)/2, loc, s.Examples.Map)
	})
	vProve("facet definitions", func(tn *yaml.Node, l []*yaml.Node, err error) bool {
		return err != nil || name == "facets" && sDefs(n.Content, len(n.Content)/2, loc, s.CustomShapeFacetDefinitions) || name != "facets" && s.CustomShapeFacetDefinitions == defs
	})
	vEnsures("facet table", func(tn *yaml.Node, l []*yaml.Node, err error) bool {
		return s.CustomShapeFacetDefinitions == defs || vFresh(s.CustomShapeFacetDefinitions)
	})
	vProve("annotation", func(tn *yaml.Node, l []*yaml.Node, err error) bool {
		a := sIsAnno(name)
		return err != nil || (!a || vOMHas(t, sAnnoName(name)) && isAnno(vOMGet(t, sAnnoName(name)), key, n, loc)) &&
			vForAllStr(func(x string) bool {
				return a && x == sAnnoName(name) || vOMHas(t, x) == vOMHas(t0, x) && (!vOMHas(t0, x) || vOMGet(t, x) == vOMGet(t0, x))
			})
	})
}

// ---- the declaration

// U_rank: the number of pairs of the kind among the first j pairs.
func U_rank(v []*yaml.Node, j int) int {
	n := 0
	for i := 0; i < j; i++ {
		if sOther(v[2*i].Value) {
			n++
		}
	}
	return n
}
func sRanks(v []*yaml.Node) bool {
	return U_rank(v, 0) == 0 && vForAll(0, len(v)/2, func(j int) bool {
		return U_rank(v, j+1) == U_rank(v, j)+b2i(sOther(v[2*j].Value))
	})
}

// sFacets: l has the pairs of the kind among the first k pairs of v, in order.
func sFacets(v []*yaml.Node, k int, l []*yaml.Node) bool {
	return len(l) == 2*U_rank(v, k) && vForAll(0, k, func(j int) bool {
		i := U_rank(v, j)
		return i >= 0 && i <= U_rank(v, k) && (!sOther(v[2*j].Value) || i < U_rank(v, k) && l[2*i] == v[2*j] && l[2*i+1] == v[2*j+1])
	})
}

// U_isFacetList: list l (an identity) has the facets of the kind that n declares.
func U_isFacetList(n *yaml.Node, l int) bool { panic(vSkip{}) }

// sTypeNode: t is the node that tells the type of the declaration n.
func sTypeNode(n, t *yaml.Node) bool {
	if n.Kind == yaml.ScalarNode || n.Kind == yaml.SequenceNode {
		return t == n
	}
	c := n.Content
	return sLast(c, len(c)/2, "type", func(j int) bool { return t == c[2*j+1] }, t == nil)
}

// U_isTypeNode: decoding n found t to be that node.
func U_isTypeNode(n, t *yaml.Node) bool { return sTypeNode(n, t) }

func contract_BaseShape_decode(s *BaseShape, n *yaml.Node) {
	vProp("C14")
	vRequires("type", s != nil && s.raml != nil && n != nil)
	c := n.Content
	vInvariant("nodes present", sNodeOK(n) && vForAll(0, len(c), func(j int) bool { return sNodeOK(c[j]) }))
	vInvariant("annotation table", s.CustomDomainProperties != nil)
	vInvariant("count of the pairs", sRanks(c))
	vModifies(&s.DisplayName, &s.Description, &s.Required, &s.CustomShapeFacetDefinitions, &s.Example, &s.Examples, &s.Default, s.CustomDomainProperties)
	defs := s.CustomShapeFacetDefinitions
	modModel(s.raml)
	vLoopInv(func(k int, t *yaml.Node) bool {
		return sLast(c, k, "type", func(j int) bool { return t == c[2*j+1] }, t == nil)
	})
	vLoopInv(func(k int, l []*yaml.Node) bool { return vFresh(l) })
	vLoopInv(func(k int, l []*yaml.Node) bool { return len(l) == 2*U_rank(c, k) })
	vLoopInv(func(k int, l []*yaml.Node) bool { return sFacets(c, k, l) })
	vLoopInv(func(k int) bool { return s.CustomShapeFacetDefinitions == defs || vFresh(s.CustomShapeFacetDefinitions) })
	inline := n.Kind == yaml.ScalarNode || n.Kind == yaml.SequenceNode
	vEnsures("a map, a name or a list of names", func(t *yaml.Node, l []*yaml.Node, err error) bool { return err != nil || inline || n.Kind == yaml.MappingNode })
	vEnsures("the node that tells the type", func(t *yaml.Node, l []*yaml.Node, err error) bool { return err != nil || sTypeNode(n, t) })
	vEnsures("the facets of the kind", func(t *yaml.Node, l []*yaml.Node, err error) bool {
		return err != nil || len(l)%2 == 0 && (inline && len(l) == 0 || !inline && sFacets(c, len(c)/2, l))
	})
	vDefine("the type node", func(t *yaml.Node, l []*yaml.Node, err error) bool { return err != nil || U_isTypeNode(n, t) })
	vDefine("the list of facets", func(t *yaml.Node, l []*yaml.Node, err error) bool { return err != nil || U_isFacetList(n, vRefID(l)) })
	vEnsures("facet table", func() bool { return s.CustomShapeFacetDefinitions == defs || vFresh(s.CustomShapeFacetDefinitions) })
}

// U_isKindOf: the facets of list l (an identity) make a type of the kind t.
func U_isKindOf(l int, t string) bool { panic(vSkip{}) }

// sInherits: bs are the types that the nodes c name.
func sInherits(c []*yaml.Node, k int, name, loc string, bs []*BaseShape) bool {
	return len(bs) == len(c) && vForAll(0, k, func(i int) bool { return bs[i] != nil && U_isShape(c[i], name, loc, bs[i]) })
}

// sTyped: the type node t, with the list l of facets, gives b the type named
// typ, or makes it the JSON type s.
func sTyped(t *yaml.Node, l int, name, loc string, b *BaseShape, typ string, s Shape) bool {
	if t.Kind == yaml.SequenceNode {
		return s == nil && len(t.Content) > 0 && typ == "composite" && sInherits(t.Content, len(t.Content), name, loc, b.Inherits)
	}
	if t.Kind != yaml.ScalarNode {
		return false
	}
	switch t.Tag {
	case "!!null":
		return s == nil && typ == "string"
	case "!include":
		return s == nil && typ == "" && b.Link != nil && b.TypeLabel == t.Value
	case "!!str":
		if t.Value == "" {
			return s == nil && U_isKindOf(l, typ)
		}
		if t.Value[0] == '{' {
			j, ok := s.(*JSONShape)
			return ok && j != nil && j.BaseShape == b && j.Raw == t.Value && b.Type == "json"
		}
		return s == nil && typ == t.Value
	}
	return false
}

func contract_RAML_makeShapeType(r *RAML, t *yaml.Node, l []*yaml.Node, name, loc string, b *BaseShape) {
	vProp("C14")
	vRequires("nodes", r != nil && t != nil && b != nil && len(l)%2 == 0)
	vInvariant("nodes present", sNodeOK(t) && vForAll(0, len(t.Content), func(j int) bool { return sNodeOK(t.Content[j]) }) && sNodes(l))
	vModifies(&b.Type, &b.TypeLabel, &b.Link, &b.Inherits)
	typ0, link, inh := b.Type, b.Link, vRefID(b.Inherits)
	modModel(r)
	vLoopInv(func(k int, bs []*BaseShape) bool { return vRefID(bs) != vRefID(r.shapes) })
	vLoopInv(func(k int, bs []*BaseShape) bool { return sInherits(t.Content, k, name, loc, bs) })
	vEnsures("the type it names", func(typ string, s Shape, err error) bool { return err != nil || sTyped(t, vRefID(l), name, loc, b, typ, s) })
	vEnsures("a list of its own", func(typ string, s Shape, err error) bool {
		return err != nil || t.Kind != yaml.SequenceNode || vRefID(b.Inherits) != vRefID(r.shapes)
	})
	vEnsures("nothing else", func(typ string, s Shape, err error) bool {
		return err != nil || (s != nil || b.Type == typ0) && (t.Tag == "!include" && t.Kind == yaml.ScalarNode || b.Link == link) && (t.Kind == yaml.SequenceNode || vRefID(b.Inherits) == inh)
	})
}

func sFreshBase(b *BaseShape, r *RAML, name, loc string) bool {
	return b != nil && vFresh(b) && b.raml == r && b.Name == name && b.Location == loc &&
		b.CustomShapeFacets != nil && b.CustomDomainProperties != nil
}

// sMade: b is what the type node t and the facet list l give.
func sMade(t *yaml.Node, l int, name, loc string, b *BaseShape) bool {
	if t == nil {
		return U_isKindOf(l, b.Type) && sKindName(b.Shape, b.Type) && U_isDecoded(b.Shape, l)
	}
	if j, ok := b.Shape.(*JSONShape); ok && t.Kind == yaml.ScalarNode && t.Tag == "!!str" && t.Value != "" && t.Value[0] == '{' {
		return sTyped(t, l, name, loc, b, b.Type, j)
	}
	return sTyped(t, l, name, loc, b, b.Type, nil) && sKindName(b.Shape, b.Type) && U_isDecoded(b.Shape, l)
}

func contract_RAML_makeNewShapeYAML(r *RAML, v *yaml.Node, name string, loc string) {
	vProp("C14", "C17")
	vRequires("node", r != nil && v != nil)
	c := v.Content
	vInvariant("nodes present", sNodeOK(v) && vForAll(0, len(c), func(j int) bool { return sNodeOK(c[j]) }))
	vInvariant("count of the pairs", sRanks(c))
	e := U_hooksErr(r.ctx, HookKey(HookBeforeRAMLMakeNewShapeYAML), ghostN)
	modModel(r)
	vEnsures("a hook error stops the operation", func(b *BaseShape, err error) bool { return e == nil || err != nil })
	vEnsures("a new type", func(b *BaseShape, err error) bool {
		return err != nil && b == nil || err == nil && sFreshBase(b, r, name, loc) && b.Shape != nil && sBaseOf(b.Shape) == b
	})
	vProve("of the declared kind, with its facets decoded", func(b *BaseShape, err error) bool {
		return err != nil || !vForAllInt(func(l int) bool {
			return !(U_isFacetList(v, l) && U_isTypeNode(v, nil) && sMade(nil, l, name, loc, b)) &&
				vForAllRef(func(t *yaml.Node) bool { return !(U_isFacetList(v, l) && U_isTypeNode(v, t) && sMade(t, l, name, loc, b)) })
		})
	})
	vDefine("made", func(b *BaseShape, err error) bool { return err != nil || U_isShape(v, name, loc, b) })
}
