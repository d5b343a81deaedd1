package raml

import (
	"path/filepath"

	orderedmap "github.com/wk8/go-ordered-map/v2"
	"gopkg.in/yaml.v3"
)

// ---- C14: declarations of types

// sBaseOf: the base a shape is part of.
func sBaseOf(s Shape) *BaseShape {
	switch t := s.(type) {
	case *ArrayShape:
		return t.BaseShape
	case *ObjectShape:
		return t.BaseShape
	case *StringShape:
		return t.BaseShape
	case *IntegerShape:
		return t.BaseShape
	case *NumberShape:
		return t.BaseShape
	case *BooleanShape:
		return t.BaseShape
	case *FileShape:
		return t.BaseShape
	case *DateTimeShape:
		return t.BaseShape
	case *DateTimeOnlyShape:
		return t.BaseShape
	case *DateOnlyShape:
		return t.BaseShape
	case *TimeOnlyShape:
		return t.BaseShape
	case *UnionShape:
		return t.BaseShape
	case *JSONShape:
		return t.BaseShape
	case *RecursiveShape:
		return t.BaseShape
	case *UnknownShape:
		return t.BaseShape
	case *AnyShape:
		return t.BaseShape
	case *NilShape:
		return t.BaseShape
	}
	return nil
}

// sKindName: s is the kind of type a declaration of the type name makes.
func sKindName(s Shape, name string) bool {
	switch s.(type) {
	case *ArrayShape:
		return name == "array"
	case *ObjectShape:
		return name == "object"
	case *StringShape:
		return name == "string"
	case *IntegerShape:
		return name == "integer"
	case *NumberShape:
		return name == "number"
	case *BooleanShape:
		return name == "boolean"
	case *FileShape:
		return name == "file"
	case *DateTimeShape:
		return name == "datetime"
	case *DateTimeOnlyShape:
		return name == "datetime-only"
	case *DateOnlyShape:
		return name == "date-only"
	case *TimeOnlyShape:
		return name == "time-only"
	case *UnionShape:
		return name == "union"
	case *JSONShape:
		return name == "json"
	case *AnyShape:
		return name == "any"
	case *NilShape:
		return name == "nil"
	case *UnknownShape:
		switch name {
		case "array", "object", "string", "integer", "number", "boolean", "file", "datetime", "datetime-only",
			"date-only", "time-only", "union", "json", "any", "nil":
			return false
		}
		return true
	}
	return false
}

// U_isDecoded: the facets of list l (an identity) have been decoded into s.
func U_isDecoded(s Shape, l int) bool { panic(vSkip{}) }

// U_isShape: the node n, declared under name in the fragment at loc, makes the type b.
func U_isShape(n *yaml.Node, name, loc string, b *BaseShape) bool {
	return b != nil && b.Name == name && b.Location == loc
}

func contract_Shape_unmarshalYAMLNodes(s Shape, v []*yaml.Node) {
	b := sBaseOf(s)
	vRequires("type", s != nil && b != nil)
	vRequires("model", b.raml != nil)
	o, ok := s.(*ObjectShape)
	vRequires("no properties yet", !ok || o.Properties == nil && o.PatternProperties == nil)
	vInvariant("nodes present", sNodes(v))
	vInvariant("custom facet table", b.CustomShapeFacets != nil)
	vModKind(s)
	vModifies(b.CustomShapeFacets)
	modModel(b.raml)
	vDefine("decoded", func(err error) bool { return err != nil || U_isDecoded(s, vRefID(v)) })
}

func contract_UnionShape_unmarshalYAMLNodes(s *UnionShape, v []*yaml.Node) {
	vProp("C14")
	vRequires("type", s != nil)
	vEnsures("no facets of its own", func(err error) bool { return err == nil })
}
func contract_JSONShape_unmarshalYAMLNodes(s *JSONShape, v []*yaml.Node) {
	vProp("C14")
	vRequires("type", s != nil)
	vEnsures("no facets of its own", func(err error) bool { return err == nil })
}
func contract_RecursiveShape_unmarshalYAMLNodes(s *RecursiveShape, v []*yaml.Node) {
	vProp("C14")
	vRequires("type", s != nil)
	vEnsures("no facets of its own", func(err error) bool { return err == nil })
}
func contract_UnknownShape_unmarshalYAMLNodes(s *UnknownShape, v []*yaml.Node) {
	vProp("C14")
	vRequires("type", s != nil)
	vModifies(&s.facets)
	vEnsures("facets kept until the kind is known", func(err error) bool { return err == nil && vSame(s.facets, v) })
}

func contract_RAML_MakeJSONShape(r *RAML, b *BaseShape, text string) {
	vProp("C14")
	vRequires("base", b != nil)
	vModifies(&b.Type)
	vEnsures("a JSON type", func(s *JSONShape, err error) bool {
		return b.Type == "json" && (err != nil || s != nil && vFresh(s) && s.BaseShape == b && s.Raw == text)
	})
}

func contract_RAML_MakeConcreteShapeYAML(r *RAML, b *BaseShape, kind string, v []*yaml.Node) {
	vProp("C14", "C17")
	vRequires("base", b != nil && r != nil && b.raml == r)
	vInvariant("nodes present", sNodes(v))
	vInvariant("custom facet table", b.CustomShapeFacets != nil)
	vModifies(&b.Type, &b.Shape, b.CustomShapeFacets)
	e := U_hooksErr(r.ctx, HookKey(HookBeforeRAMLMakeConcreteShapeYAML), ghostN)
	modModel(r)
	vEnsures("a hook error stops the operation", func(s Shape, err error) bool { return e == nil || err != nil && s == nil })
	vEnsures("a type of the named kind", func(s Shape, err error) bool {
		return err != nil || s != nil && vSame(b.Shape, s) && b.Type == kind && sKindName(s, kind) && sBaseOf(s) == b && vFresh(s)
	})
	vEnsures("its facets are decoded", func(s Shape, err error) bool { return err != nil || U_isDecoded(s, vRefID(v)) })
}

// ---- properties

func sOptName(name string) bool { return name != "" && name[len(name)-1] == '?' }
func sChomped(name string) string {
	if sOptName(name) {
		return name[:len(name)-1]
	}
	return name
}

func contract_RAML_chompImplicitOptional(r *RAML, name string) {
	vProp("C14")
	vEnsures("a trailing ? marks an optional property", func(n string, o bool) bool { return n == sChomped(name) && o == sOptName(name) })
}

// isProp: p is the property declared as name with the value n.
func isProp(p Property, n *yaml.Node, name, loc string) bool {
	if p.Base == nil || !U_isShape(n, name, loc, p.Base) {
		return false
	}
	if p.Base.Required == nil {
		return p.Name == sChomped(name) && p.Required == !sOptName(name)
	}
	return p.Name == name && p.Required == *p.Base.Required
}

func contract_RAML_makeProperty(r *RAML, name, pname string, v *yaml.Node, loc string, opt bool) {
	vProp("C14")
	vRequires("node", r != nil && v != nil)
	vRequires("name", pname == sChomped(name) && opt == sOptName(name))
	vInvariant("nodes present", sNodeOK(v))
	modModel(r)
	vEnsures("the property", func(p Property, err error) bool { return err != nil || vFresh(p.Base) && isProp(p, v, name, loc) })
}

func isPat(p PatternProperty, n *yaml.Node, name, loc string) bool {
	c := sChomped(name)
	return p.Base != nil && U_isShape(n, name, loc, p.Base) && p.Base.Required == nil && !sOptName(name) &&
		p.Pattern != nil && p.Pattern.String() == c[1:len(c)-1]
}

func sPatName(s string) bool { return len(s) > 1 && s[0] == '/' && s[len(s)-1] == '/' }

func contract_RAML_makePatternProperty(r *RAML, name, pname string, v *yaml.Node, loc string, opt bool) {
	vProp("C14")
	vRequires("node", r != nil && v != nil)
	vRequires("name", pname == sChomped(name) && opt == sOptName(name) && sPatName(pname))
	vInvariant("nodes present", sNodeOK(v))
	modModel(r)
	vEnsures("the pattern property, without a required marker", func(p PatternProperty, err error) bool {
		return err != nil || vFresh(p.Base) && isPat(p, v, name, loc)
	})
}

// sPropDone: the property declared as name with the value n is in the table it belongs to.
func sPropDone(ps *orderedmap.OrderedMap[string, Property], pp *orderedmap.OrderedMap[string, PatternProperty], name string, n *yaml.Node, loc string) bool {
	c := sChomped(name)
	if sPatName(c) {
		return vOMHas(pp, c) && isPat(vOMGet(pp, c), n, name, loc)
	}
	return vOMHas(ps, c) && isProp(vOMGet(ps, c), n, name, loc) && vOMGet(ps, c).Name == c ||
		vOMHas(ps, name) && isProp(vOMGet(ps, name), n, name, loc) && vOMGet(ps, name).Name == name
}

func contract_ObjectShape_unmarshalProperty(s *ObjectShape, name string, n *yaml.Node) {
	vProp("C14")
	vRequires("type", s != nil && s.BaseShape != nil && s.raml != nil && n != nil)
	vInvariant("nodes present", sNodeOK(n))
	vModifies(&s.Properties, &s.PatternProperties, s.Properties, s.PatternProperties)
	loc := s.Location
	ps, pp := vRefID(s.Properties), vRefID(s.PatternProperties)
	ps0, pp0 := vSnapOM(s.Properties), vSnapOM(s.PatternProperties)
	modModel(s.raml)
	c := sChomped(name)
	vEnsures("the property is declared", func(err error) bool {
		return err != nil || sPropDone(s.Properties, s.PatternProperties, name, n, loc)
	})
	vEnsures("other properties are kept", func(err error) bool {
		return vForAllStr(func(k string) bool {
			return k == c || k == name || vOMHas(s.Properties, k) == vOMHas(ps0, k) && (!vOMHas(ps0, k) || vSame(vOMGet(s.Properties, k), vOMGet(ps0, k)))
		})
	})
	vEnsures("other patterns are kept", func(err error) bool {
		return vForAllStr(func(k string) bool {
			return k == c && sPatName(c) || vOMHas(s.PatternProperties, k) == vOMHas(pp0, k) && (!vOMHas(pp0, k) || vSame(vOMGet(s.PatternProperties, k), vOMGet(pp0, k)))
		})
	})
	vEnsures("a pattern is not a property", func(err error) bool {
		return !sPatName(c) || vForAllStr(func(k string) bool {
			return vOMHas(s.Properties, k) == vOMHas(ps0, k) && (!vOMHas(ps0, k) || vSame(vOMGet(s.Properties, k), vOMGet(ps0, k)))
		})
	})
	vEnsures("tables", func(err error) bool {
		return (vRefID(s.Properties) == ps || vFresh(s.Properties)) && (vRefID(s.PatternProperties) == pp || vFresh(s.PatternProperties))
	})
}

func sCollide(a, b string) bool {
	return a == b || sChomped(a) == sChomped(b) || a == sChomped(b) || sChomped(a) == b
}

// sPropsDone: the first k pairs of c are declared; a later one of the same name wins.
func sPropsDone(c []*yaml.Node, k int, ps *orderedmap.OrderedMap[string, Property], pp *orderedmap.OrderedMap[string, PatternProperty], loc string) bool {
	return vForAll(0, k, func(j int) bool {
		return sPropDone(ps, pp, c[2*j].Value, c[2*j+1], loc) ||
			vExists(j+1, k, func(i int) bool { return sCollide(c[2*i].Value, c[2*j].Value) })
	})
}

func knownObject(name string) bool {
	switch name {
	case "additionalProperties", "discriminator", "discriminatorValue", "minProperties", "maxProperties", "properties":
		return true
	}
	return false
}

// pairOKObject: the value of the pair is well-formed (properties apart).
func pairOKObject(name string, n *yaml.Node, loc string) bool {
	switch name {
	case "additionalProperties":
		return vDecOK[*bool](n)
	case "discriminator":
		return vDecOK[*string](n)
	case "discriminatorValue":
		return vDecOK[any](n)
	case "minProperties", "maxProperties":
		return vDecOK[*uint64](n)
	case "properties":
		return n.Kind == yaml.MappingNode || n.Kind == yaml.ScalarNode && n.Tag == "!!null"
	}
	return U_rootOK(n, loc)
}

func contract_ObjectShape_unmarshalYAMLNode(s *ObjectShape, key, n *yaml.Node) {
	vProp("C14")
	vRequires("type", s != nil && s.BaseShape != nil && s.raml != nil && key != nil && n != nil)
	vInvariant("nodes present", sNodeOK(n) && vForAll(0, len(n.Content), func(j int) bool { return sNodeOK(n.Content[j]) }))
	vInvariant("custom facet table", s.CustomShapeFacets != nil)
	vModifies(&s.ObjectFacets, s.Properties, s.PatternProperties, s.CustomShapeFacets)
	o := s.ObjectFacets
	loc, c, c0 := s.Location, s.CustomShapeFacets, vSnapOM(s.CustomShapeFacets)
	ps, pp := vRefID(s.Properties), vRefID(s.PatternProperties)
	ps0, pp0 := vSnapOM(s.Properties), vSnapOM(s.PatternProperties)
	modModel(s.raml)
	name := key.Value
	v := n.Content
	vLoopInv(func(k int) bool { return sPropsDone(v, k, s.Properties, s.PatternProperties, loc) })
	vLoopInv(func(k int) bool {
		return (vRefID(s.Properties) == ps || vFresh(s.Properties)) && (vRefID(s.PatternProperties) == pp || vFresh(s.PatternProperties))
	})
	vEnsures("malformed values are errors", func(err error) bool {
		return (err != nil || pairOKObject(name, n, loc)) && (name == "properties" || err == nil || !pairOKObject(name, n, loc))
	})
	vEnsures("additionalProperties", func(err error) bool {
		return err != nil || name == "additionalProperties" && vIsDec(s.AdditionalProperties, n, o.AdditionalProperties) || name != "additionalProperties" && s.AdditionalProperties == o.AdditionalProperties
	})
	vEnsures("discriminator", func(err error) bool {
		return err != nil || name == "discriminator" && vIsDec(s.Discriminator, n, o.Discriminator) || name != "discriminator" && s.Discriminator == o.Discriminator
	})
	vEnsures("discriminatorValue", func(err error) bool {
		return err != nil || name == "discriminatorValue" && vIsDec(s.DiscriminatorValue, n, o.DiscriminatorValue) || name != "discriminatorValue" && vSame(s.DiscriminatorValue, o.DiscriminatorValue)
	})
	vEnsures("minProperties", func(err error) bool {
		return err != nil || name == "minProperties" && vIsDec(s.MinProperties, n, o.MinProperties) || name != "minProperties" && s.MinProperties == o.MinProperties
	})
	vEnsures("maxProperties", func(err error) bool {
		return err != nil || name == "maxProperties" && vIsDec(s.MaxProperties, n, o.MaxProperties) || name != "maxProperties" && s.MaxProperties == o.MaxProperties
	})
	vProve("properties", func(err error) bool {
		return err != nil || name != "properties" || sPropsDone(v, len(v)/2, s.Properties, s.PatternProperties, loc)
	})
	vProve("other facets leave the properties", func(err error) bool {
		return name == "properties" || vRefID(s.Properties) == ps && vRefID(s.PatternProperties) == pp && vForAllStr(func(k string) bool {
			return vOMHas(s.Properties, k) == vOMHas(ps0, k) && (!vOMHas(ps0, k) || vSame(vOMGet(s.Properties, k), vOMGet(ps0, k))) &&
				vOMHas(s.PatternProperties, k) == vOMHas(pp0, k) && (!vOMHas(pp0, k) || vSame(vOMGet(s.PatternProperties, k), vOMGet(pp0, k)))
		})
	})
	vProve("everything else is a custom facet", func(err error) bool {
		return err != nil || (knownObject(name) || vOMHas(c, name) && vOMGet(c, name) != nil && U_isRoot(n, loc, vOMGet(c, name))) &&
			vForAllStr(func(k string) bool {
				return !knownObject(name) && k == name || vOMHas(c, k) == vOMHas(c0, k) && (!vOMHas(c0, k) || vOMGet(c, k) == vOMGet(c0, k))
			})
	})
	vEnsures("tables", func(err error) bool {
		return (vRefID(s.Properties) == ps || vFresh(s.Properties)) && (vRefID(s.PatternProperties) == pp || vFresh(s.PatternProperties))
	})
}

func contract_ObjectShape_unmarshalYAMLNodes(s *ObjectShape, v []*yaml.Node) {
	vProp("C14")
	vRequires("type", s != nil && s.BaseShape != nil)
	vRequires("model", s.raml != nil)
	vInvariant("nodes present", sNodes(v) && vForAll(0, len(v), func(j int) bool {
		return sNodeOK(v[j]) && vForAll(0, len(v[j].Content), func(i int) bool { return sNodeOK(v[j].Content[i]) })
	}))
	vInvariant("custom facet table", s.CustomShapeFacets != nil)
	vRequires("no properties yet", s.Properties == nil && s.PatternProperties == nil)
	vModifies(&s.ObjectFacets, s.CustomShapeFacets)
	o := s.ObjectFacets
	loc := s.Location
	ps, pp := vRefID(s.Properties), vRefID(s.PatternProperties)
	modModel(s.raml)
	f0 := func(k int) bool {
		return sLast(v, k, "additionalProperties", func(j int) bool { return vIsDec(s.AdditionalProperties, v[2*j+1], o.AdditionalProperties) }, s.AdditionalProperties == o.AdditionalProperties)
	}
	f1 := func(k int) bool {
		return sLast(v, k, "discriminator", func(j int) bool { return vIsDec(s.Discriminator, v[2*j+1], o.Discriminator) }, s.Discriminator == o.Discriminator)
	}
	f2 := func(k int) bool {
		return sLast(v, k, "discriminatorValue", func(j int) bool { return vIsDec(s.DiscriminatorValue, v[2*j+1], o.DiscriminatorValue) }, vSame(s.DiscriminatorValue, o.DiscriminatorValue))
	}
	f3 := func(k int) bool {
		return sLast(v, k, "minProperties", func(j int) bool { return vIsDec(s.MinProperties, v[2*j+1], o.MinProperties) }, s.MinProperties == o.MinProperties)
	}
	f4 := func(k int) bool {
		return sLast(v, k, "maxProperties", func(j int) bool { return vIsDec(s.MaxProperties, v[2*j+1], o.MaxProperties) }, s.MaxProperties == o.MaxProperties)
	}
	vLoopInv(func(k int) bool { return f0(k) })
	vLoopInv(func(k int) bool { return f1(k) })
	vLoopInv(func(k int) bool { return f2(k) })
	vLoopInv(func(k int) bool { return f3(k) })
	vLoopInv(func(k int) bool { return f4(k) })
	vLoopInv(func(k int) bool {
		return (vRefID(s.Properties) == ps || vFresh(s.Properties)) && (vRefID(s.PatternProperties) == pp || vFresh(s.PatternProperties))
	})
	ok := func(j int) bool { return pairOKObject(v[2*j].Value, v[2*j+1], loc) }
	vElem(ok)
	n := len(v) / 2
	vEnsures("malformed values and dangling keys are errors", func(err error) bool {
		return (err != nil || len(v)%2 == 0 && vForAll(0, n, ok)) &&
			(err == nil || len(v)%2 != 0 || vExists(0, n, func(j int) bool { return !ok(j) || v[2*j].Value == "properties" }))
	})
	vEnsures("additionalProperties", func(err error) bool { return err != nil || f0(n) })
	vEnsures("discriminator", func(err error) bool { return err != nil || f1(n) })
	vEnsures("discriminatorValue", func(err error) bool { return err != nil || f2(n) })
	vEnsures("minProperties", func(err error) bool { return err != nil || f3(n) })
	vEnsures("maxProperties", func(err error) bool { return err != nil || f4(n) })
}

func knownArray(name string) bool {
	switch name {
	case "minItems", "maxItems", "items", "uniqueItems":
		return true
	}
	return false
}
func pairOKArray(name string, n *yaml.Node, loc string) bool {
	switch name {
	case "minItems", "maxItems":
		return vDecOK[*uint64](n)
	case "uniqueItems":
		return vDecOK[*bool](n)
	case "items":
		return true
	}
	return U_rootOK(n, loc)
}

func contract_ArrayShape_unmarshalYAMLNodes(s *ArrayShape, v []*yaml.Node) {
	vProp("C14")
	vRequires("type", s != nil && s.BaseShape != nil)
	vRequires("model", s.raml != nil)
	vInvariant("nodes present", sNodes(v) && vForAll(0, len(v), func(j int) bool { return sNodeOK(v[j]) }))
	vInvariant("custom facet table", s.CustomShapeFacets != nil)
	vModifies(&s.ArrayFacets, s.CustomShapeFacets)
	o := s.ArrayFacets
	loc, c, c0 := s.Location, s.CustomShapeFacets, vSnapOM(s.CustomShapeFacets)
	modModel(s.raml)
	f0 := func(k int) bool {
		return sLast(v, k, "minItems", func(j int) bool { return vIsDec(s.MinItems, v[2*j+1], o.MinItems) }, s.MinItems == o.MinItems)
	}
	f1 := func(k int) bool {
		return sLast(v, k, "maxItems", func(j int) bool { return vIsDec(s.MaxItems, v[2*j+1], o.MaxItems) }, s.MaxItems == o.MaxItems)
	}
	f2 := func(k int) bool {
		return sLast(v, k, "uniqueItems", func(j int) bool { return vIsDec(s.UniqueItems, v[2*j+1], o.UniqueItems) }, s.UniqueItems == o.UniqueItems)
	}
	f3 := func(k int) bool {
		return sLast(v, k, "items", func(j int) bool { return U_isShape(v[2*j+1], "items", loc, s.Items) }, s.Items == o.Items)
	}
	vLoopInv(func(k int) bool { return f0(k) })
	vLoopInv(func(k int) bool { return f1(k) })
	vLoopInv(func(k int) bool { return f2(k) })
	vLoopInv(func(k int) bool { return f3(k) })
	cus := func(k int) bool { return sCustom(v, k, loc, c, c0, knownArray) }
	vLoopInv(func(k int) bool { return cus(k) })
	ok := func(j int) bool { return pairOKArray(v[2*j].Value, v[2*j+1], loc) }
	vElem(ok)
	n := len(v) / 2
	vEnsures("malformed values and dangling keys are errors", func(err error) bool {
		return (err != nil || len(v)%2 == 0 && vForAll(0, n, ok)) &&
			(err == nil || len(v)%2 != 0 || vExists(0, n, func(j int) bool { return !ok(j) || v[2*j].Value == "items" }))
	})
	vEnsures("minItems", func(err error) bool { return err != nil || f0(n) })
	vEnsures("maxItems", func(err error) bool { return err != nil || f1(n) })
	vEnsures("uniqueItems", func(err error) bool { return err != nil || f2(n) })
	vEnsures("items", func(err error) bool { return err != nil || f3(n) })
	vEnsures("everything else is a custom facet", func(err error) bool { return err != nil || cus(n) })
}
