package raml

import (
	"encoding/json"
	"math/big"
	"regexp"
	"strconv"

	orderedmap "github.com/wk8/go-ordered-map/v2"
)

// ---- C10: JSON Schema conversion. Generated by tools/gen10.py.

func sFloNum(p *float64) json.Number {
	if p == nil {
		return ""
	}
	return json.Number(strconv.FormatFloat(*p, 'f', -1, 64))
}

func sIntNum(p *big.Int) json.Number {
	if p == nil {
		return ""
	}
	return json.Number(p.String())
}

func sPatStr(p *regexp.Regexp) string {
	if p == nil {
		return ""
	}
	return p.String()
}

// sMedia: JSON Schema has room for one media type, the first
func sMedia(l Nodes) string {
	if len(l) == 0 {
		return ""
	}
	s, _ := l[0].Value.(string)
	return s
}

func sDTFormat(f *string) string {
	if f == nil || *f == DateTimeFormatRFC3339 {
		return "date-time"
	}
	return ""
}

func sDTPattern(f *string) string {
	if f != nil && *f == DateTimeFormatRFC2616 {
		return "^(Mon|Tue|Wed|Thu|Fri|Sat|Sun), ([0-3][0-9]) " +
			"(Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec) ([0-9]{4})" +
			" ([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9] GMT$"
	}
	return ""
}

func sText(p *string) string {
	if p == nil {
		return ""
	}
	return *p
}

// sExamplesOf: the examples a type has, included ones too
func sExamplesOf(b *BaseShape) *orderedmap.OrderedMap[string, *Example] {
	if b.Examples == nil {
		return nil
	}
	if b.Examples.Link != nil {
		return b.Examples.Link.Map
	}
	return b.Examples.Map
}

func sEnumIs(l Nodes, e []any) bool {
	return (l == nil) == (e == nil) && len(e) == len(l) && vForAll(0, len(l), func(i int) bool { return vSame(e[i], l[i].Value) })
}

func sEnumSet(l Nodes) bool { return vForAll(0, len(l), func(i int) bool { return l[i] != nil }) }

// sExamplesAre: e is the type's example, or else its examples in order
func sExamplesAre(b *BaseShape, e []any) bool {
	if b.Example != nil {
		return len(e) == 1 && vSame(e[0], b.Example.Data.Value)
	}
	x := sExamplesOf(b)
	return len(e) == vOMLen(x) && (vOMLen(x) != 0 || e == nil) &&
		vForAll(0, vOMLen(x), func(i int) bool { return vSame(e[i], vOMVal(x, i).Data.Value) })
}

func sDefaultIs(b *BaseShape, v any) bool {
	return b.Default == nil && v == nil || b.Default != nil && vSame(v, b.Default.Value)
}

// sConv: a declared type, as the parser leaves it
func sConv(b *BaseShape) bool {
	return b != nil && b.Shape != nil && (b.Example == nil || b.Example.Data != nil) &&
		vForAll(0, vOMLen(sExamplesOf(b)), func(i int) bool {
			e := vOMVal(sExamplesOf(b), i)
			return e != nil && e.Data != nil
		}) &&
		vForAll(0, vOMLen(b.CustomDomainProperties), func(i int) bool {
			e := vOMVal(b.CustomDomainProperties, i)
			return e != nil && e.Extension != nil
		}) &&
		vForAll(0, vOMLen(b.CustomShapeFacets), func(i int) bool { return vOMVal(b.CustomShapeFacets, i) != nil }) &&
		vForAll(0, vOMLen(b.CustomShapeFacetDefinitions), func(i int) bool {
			e := vOMVal(b.CustomShapeFacetDefinitions, i)
			return e.Base != nil && e.Base.Shape != nil
		})
}

// sReqIs: r are the names of the first k properties that are required, in order
func sReqIs(m *orderedmap.OrderedMap[string, Property], k int, r []string) bool {
	none := func(lo, hi int) bool { return vForAll(lo, hi, func(j int) bool { return !vOMVal(m, j).Required }) }
	n := len(r)
	return vForAll(0, n, func(i int) bool {
		return vOMHas(m, r[i]) && vOMIdx(m, r[i]) < k && vOMGet(m, r[i]).Required
	}) && vForAll(1, n, func(i int) bool {
		return vOMIdx(m, r[i-1]) < vOMIdx(m, r[i]) && none(vOMIdx(m, r[i-1])+1, vOMIdx(m, r[i]))
	}) && (n > 0 || none(0, k)) && (n == 0 || none(0, vOMIdx(m, r[0])) && none(vOMIdx(m, r[n-1])+1, k))
}

func sIsText(v any) bool {
	_, ok := v.(string)
	return ok
}

func sUnslash(k string) string { return k[1 : len(k)-1] }

func sOr(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

// sShapeSet: s is not an empty pointer
func sShapeSet(s Shape) bool {
	switch t := s.(type) {
	case *ObjectShape:
		return t != nil
	case *ArrayShape:
		return t != nil
	case *StringShape:
		return t != nil
	case *NumberShape:
		return t != nil
	case *IntegerShape:
		return t != nil
	case *BooleanShape:
		return t != nil
	case *FileShape:
		return t != nil
	case *UnionShape:
		return t != nil
	case *NilShape:
		return t != nil
	case *AnyShape:
		return t != nil
	case *DateTimeShape:
		return t != nil
	case *DateTimeOnlyShape:
		return t != nil
	case *DateOnlyShape:
		return t != nil
	case *TimeOnlyShape:
		return t != nil
	case *JSONShape:
		return t != nil
	case *RecursiveShape:
		return t != nil
	}
	return s != nil
}

func sShapeKnown(s Shape) bool {
	switch s.(type) {
	case *ObjectShape, *ArrayShape, *StringShape, *NumberShape, *IntegerShape, *BooleanShape, *FileShape, *UnionShape, *NilShape, *AnyShape, *DateTimeShape, *DateTimeOnlyShape, *DateOnlyShape, *TimeOnlyShape, *JSONShape, *RecursiveShape:
		return true
	}
	return false
}

// ---- Plain

func U_schemaPlain(s Shape, r *JSONSchema) bool {
	c := &JSONSchemaConverter[*JSONSchema]{definitions: make(map[string]*JSONSchema)}
	return vDump(c.Visit(s)) == vDump(r)
}

func U_recastPlain(s *JSONSchema, r *JSONSchema) bool {
	c := &JSONSchemaConverter[*JSONSchema]{definitions: make(map[string]*JSONSchema)}
	return vDump(c.recast(s)) == vDump(r)
}

// convPlain: a converter of this dialect, whose definitions only grow
func convPlain(c *JSONSchemaConverter[*JSONSchema]) { convBasePlain(c, true) }

// convBasePlain: a schema without a base type adds no definitions
func convBasePlain(c *JSONSchemaConverter[*JSONSchema], typed bool) {
	vRequires("converter", c != nil && c.definitions != nil && c.opts.wrap == nil)
	if !typed {
		return
	}
	vModifies(c.definitions)
	d := vSnapMap(c.definitions)
	grow := func() bool {
		return vForAllStr(func(n string) bool { return !vHasKey(d, n) || vHasKey(c.definitions, n) && c.definitions[n] == d[n] })
	}
	vLoopInv(func(k int) bool { return grow() })
	vEnsures("definitions only grow", func() bool { return grow() })
}

// basePlain: the keywords every type has
func basePlain(b *BaseShape, r *JSONSchema) bool {
	g := &r.JSONSchemaGeneric
	return g.Title == sText(b.DisplayName) && g.Description == sText(b.Description) && sDefaultIs(b, g.Default) && sExamplesAre(b, g.Examples)
}

func zeroPlain(g *JSONSchemaGeneric[*JSONSchema]) bool {
	return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Type == "" && g.Title == "" && g.Description == "" && g.Default == nil && g.Required == nil && g.Enum == nil && g.Examples == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
}

func newPlain(r *JSONSchema) bool { return r != nil && vFresh(r) }

func propsPlain(m *orderedmap.OrderedMap[string, Property], k int, r *orderedmap.OrderedMap[string, *JSONSchema]) bool {
	return vFresh(r) && vOMLen(r) == k && vForAll(0, k, func(i int) bool {
		return vOMKey(r, i) == vOMKey(m, i) && U_schemaPlain(vOMVal(m, i).Base.Shape, vOMVal(r, i))
	})
}

func listPlain(l []*BaseShape, k int, r []*JSONSchema) bool {
	return vFresh(r) && len(r) == len(l) && vForAll(0, k, func(i int) bool { return U_schemaPlain(l[i].Shape, r[i]) })
}

func contract_JSONSchemaConverterPlain_finish(c *JSONSchemaConverter[*JSONSchema], core *JSONSchemaGeneric[*JSONSchema], base *BaseShape) {
	vProp("C10")
	convBasePlain(c, base != nil)
	vRequires("schema", core != nil)
	vInvariant("type", base == nil || sConv(base))
	vEnsures("new", func(r *JSONSchema) bool { return newPlain(r) })
	vEnsures("the same keywords", func(r *JSONSchema) bool { return vSame(r.JSONSchemaGeneric, *core) })
}

func contract_JSONSchemaConverterPlain_makeEmptySchema(c *JSONSchemaConverter[*JSONSchema]) {
	vProp("C10")
	convBasePlain(c, false)
	vEnsures("new", func(r *JSONSchema) bool { return newPlain(r) })
	vEnsures("empty", func(r *JSONSchema) bool { return zeroPlain(&r.JSONSchemaGeneric) })
}

func contract_JSONSchemaConverterPlain_makeSchemaFromBaseShape(c *JSONSchemaConverter[*JSONSchema], b *BaseShape) {
	vProp("C10")
	convPlain(c)
	vRequires("type", b != nil)
	vInvariant("type", sConv(b))
	x := sExamplesOf(b)
	vLoopInv(func(k int, g *JSONSchemaGeneric[*JSONSchema]) bool {
		return len(g.Examples) == k && (k != 0 || g.Examples == nil) && (k == 0 || vFresh(g.Examples)) &&
			vForAll(0, k, func(i int) bool { return vSame(g.Examples[i], vOMVal(x, i).Data.Value) })
	})
	vEnsures("new", func(r *JSONSchema) bool { return newPlain(r) })
	vEnsures("base keywords", func(r *JSONSchema) bool { return basePlain(b, r) })
	vEnsures("nothing else", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Type == "" && g.Required == nil && g.Enum == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterPlain_VisitStringShape(c *JSONSchemaConverter[*JSONSchema], s *StringShape) {
	vProp("C10")
	convPlain(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape) && sEnumSet(s.Enum))
	b := s.BaseShape
	vLoopInv(func(k int, g *JSONSchema) bool {
		return len(g.Enum) == len(s.Enum) && vFresh(g.Enum)
	})
	vLoopInv(func(k int, g *JSONSchema) bool {
		return vForAll(0, k, func(i int) bool { return vSame(g.Enum[i], s.Enum[i].Value) })
	})
	vEnsures("new", func(r *JSONSchema) bool { return newPlain(r) })
	vEnsures("base keywords", func(r *JSONSchema) bool { return basePlain(b, r) })
	vEnsures("type and facets", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "string" && g.MinLength == s.MinLength && g.MaxLength == s.MaxLength && g.Pattern == sPatStr(s.Pattern)
	})
	vEnsures("enumeration", func(r *JSONSchema) bool { return sEnumIs(s.Enum, r.Enum) })
	vEnsures("nothing else", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Required == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterPlain_VisitIntegerShape(c *JSONSchemaConverter[*JSONSchema], s *IntegerShape) {
	vProp("C10")
	convPlain(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape) && sEnumSet(s.Enum))
	b := s.BaseShape
	vLoopInv(func(k int, g *JSONSchema) bool {
		return len(g.Enum) == len(s.Enum) && vFresh(g.Enum)
	})
	vLoopInv(func(k int, g *JSONSchema) bool {
		return vForAll(0, k, func(i int) bool { return vSame(g.Enum[i], s.Enum[i].Value) })
	})
	vEnsures("new", func(r *JSONSchema) bool { return newPlain(r) })
	vEnsures("base keywords", func(r *JSONSchema) bool { return basePlain(b, r) })
	vEnsures("type and facets", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "integer" && g.Minimum == sIntNum(s.Minimum) && g.Maximum == sIntNum(s.Maximum) && g.MultipleOf == sFloNum(s.MultipleOf)
	})
	vEnsures("enumeration", func(r *JSONSchema) bool { return sEnumIs(s.Enum, r.Enum) })
	vEnsures("nothing else", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Required == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterPlain_VisitNumberShape(c *JSONSchemaConverter[*JSONSchema], s *NumberShape) {
	vProp("C10")
	convPlain(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape) && sEnumSet(s.Enum))
	b := s.BaseShape
	vLoopInv(func(k int, g *JSONSchema) bool {
		return len(g.Enum) == len(s.Enum) && vFresh(g.Enum)
	})
	vLoopInv(func(k int, g *JSONSchema) bool {
		return vForAll(0, k, func(i int) bool { return vSame(g.Enum[i], s.Enum[i].Value) })
	})
	vEnsures("new", func(r *JSONSchema) bool { return newPlain(r) })
	vEnsures("base keywords", func(r *JSONSchema) bool { return basePlain(b, r) })
	vEnsures("type and facets", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "number" && g.Minimum == sFloNum(s.Minimum) && g.Maximum == sFloNum(s.Maximum) && g.MultipleOf == sFloNum(s.MultipleOf)
	})
	vEnsures("enumeration", func(r *JSONSchema) bool { return sEnumIs(s.Enum, r.Enum) })
	vEnsures("nothing else", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Required == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterPlain_VisitBooleanShape(c *JSONSchemaConverter[*JSONSchema], s *BooleanShape) {
	vProp("C10")
	convPlain(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape) && sEnumSet(s.Enum))
	b := s.BaseShape
	vLoopInv(func(k int, g *JSONSchema) bool {
		return len(g.Enum) == len(s.Enum) && vFresh(g.Enum)
	})
	vLoopInv(func(k int, g *JSONSchema) bool {
		return vForAll(0, k, func(i int) bool { return vSame(g.Enum[i], s.Enum[i].Value) })
	})
	vEnsures("new", func(r *JSONSchema) bool { return newPlain(r) })
	vEnsures("base keywords", func(r *JSONSchema) bool { return basePlain(b, r) })
	vEnsures("type and facets", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "boolean"
	})
	vEnsures("enumeration", func(r *JSONSchema) bool { return sEnumIs(s.Enum, r.Enum) })
	vEnsures("nothing else", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Required == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterPlain_VisitFileShape(c *JSONSchemaConverter[*JSONSchema], s *FileShape) {
	vProp("C10")
	convPlain(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape) && (len(s.FileTypes) == 0 || s.FileTypes[0] != nil && sIsText(s.FileTypes[0].Value)))
	b := s.BaseShape
	vEnsures("new", func(r *JSONSchema) bool { return newPlain(r) })
	vEnsures("base keywords", func(r *JSONSchema) bool { return basePlain(b, r) })
	vEnsures("type and facets", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "string" && g.MinLength == s.MinLength && g.MaxLength == s.MaxLength && g.ContentEncoding == "base64" && g.ContentMediaType == sMedia(s.FileTypes)
	})
	vEnsures("nothing else", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.Format == "" && g.AdditionalProperties == nil && g.Required == nil && g.Enum == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterPlain_VisitDateTimeShape(c *JSONSchemaConverter[*JSONSchema], s *DateTimeShape) {
	vProp("C10")
	convPlain(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape))
	b := s.BaseShape
	vEnsures("new", func(r *JSONSchema) bool { return newPlain(r) })
	vEnsures("base keywords", func(r *JSONSchema) bool { return basePlain(b, r) })
	vEnsures("type and facets", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "string" && g.Format == sDTFormat(s.Format) && g.Pattern == sDTPattern(s.Format)
	})
	vEnsures("nothing else", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.AdditionalProperties == nil && g.Required == nil && g.Enum == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterPlain_VisitDateTimeOnlyShape(c *JSONSchemaConverter[*JSONSchema], s *DateTimeOnlyShape) {
	vProp("C10")
	convPlain(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape))
	b := s.BaseShape
	vEnsures("new", func(r *JSONSchema) bool { return newPlain(r) })
	vEnsures("base keywords", func(r *JSONSchema) bool { return basePlain(b, r) })
	vEnsures("type and facets", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "string" && g.Pattern == "^[0-9]{4}-(?:0[0-9]|1[0-2])-(?:[0-2][0-9]|3[01])T(?:[01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9]$"
	})
	vEnsures("nothing else", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Required == nil && g.Enum == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterPlain_VisitDateOnlyShape(c *JSONSchemaConverter[*JSONSchema], s *DateOnlyShape) {
	vProp("C10")
	convPlain(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape))
	b := s.BaseShape
	vEnsures("new", func(r *JSONSchema) bool { return newPlain(r) })
	vEnsures("base keywords", func(r *JSONSchema) bool { return basePlain(b, r) })
	vEnsures("type and facets", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "string" && g.Format == "date"
	})
	vEnsures("nothing else", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.AdditionalProperties == nil && g.Required == nil && g.Enum == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterPlain_VisitTimeOnlyShape(c *JSONSchemaConverter[*JSONSchema], s *TimeOnlyShape) {
	vProp("C10")
	convPlain(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape))
	b := s.BaseShape
	vEnsures("new", func(r *JSONSchema) bool { return newPlain(r) })
	vEnsures("base keywords", func(r *JSONSchema) bool { return basePlain(b, r) })
	vEnsures("type and facets", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "string" && g.Format == "time"
	})
	vEnsures("nothing else", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.AdditionalProperties == nil && g.Required == nil && g.Enum == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterPlain_VisitAnyShape(c *JSONSchemaConverter[*JSONSchema], s *AnyShape) {
	vProp("C10")
	convPlain(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape))
	b := s.BaseShape
	vEnsures("new", func(r *JSONSchema) bool { return newPlain(r) })
	vEnsures("base keywords", func(r *JSONSchema) bool { return basePlain(b, r) })
	vEnsures("nothing else", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Type == "" && g.Required == nil && g.Enum == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterPlain_VisitNilShape(c *JSONSchemaConverter[*JSONSchema], s *NilShape) {
	vProp("C10")
	convPlain(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape))
	b := s.BaseShape
	vEnsures("new", func(r *JSONSchema) bool { return newPlain(r) })
	vEnsures("base keywords", func(r *JSONSchema) bool { return basePlain(b, r) })
	vEnsures("type and facets", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "null"
	})
	vEnsures("nothing else", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Required == nil && g.Enum == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterPlain_VisitObjectShape(c *JSONSchemaConverter[*JSONSchema], s *ObjectShape) {
	vProp("C10")
	convPlain(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape) && vForAll(0, vOMLen(s.Properties), func(i int) bool { return vOMVal(s.Properties, i).Base != nil }) &&
		vForAll(0, vOMLen(s.PatternProperties), func(i int) bool {
			p := vOMKey(s.PatternProperties, i)
			return vOMVal(s.PatternProperties, i).Base != nil && len(p) > 1 && p == "/"+sUnslash(p)+"/"
		}))
	b := s.BaseShape
	vLoopInv(func(k int, g *JSONSchema) bool { return propsPlain(s.Properties, k, g.Properties) })
	vLoopInv(func(k int, g *JSONSchema) bool {
		return s.Properties != nil && propsPlain(s.Properties, vOMLen(s.Properties), g.Properties) || s.Properties == nil && g.Properties == nil
	})
	vLoopInv(func(k int, g *JSONSchema) bool {
		return len(g.Required) == 0 && g.Required == nil || vFresh(g.Required)
	})
	vLoopInv(func(k int, g *JSONSchema) bool { return sReqIs(s.Properties, k, g.Required) })
	vLoopInv(func(k int, g *JSONSchema) bool { return sReqIs(s.Properties, vOMLen(s.Properties), g.Required) })
	vLoopInv(func(k int, g *JSONSchema) bool { return g.PatternProperties == nil })
	vLoopInv(func(k int, g *JSONSchema) bool {
		return vFresh(g.PatternProperties) && vOMLen(g.PatternProperties) == k && vForAll(0, k, func(i int) bool {
			return vOMKey(s.PatternProperties, i) == "/"+vOMKey(g.PatternProperties, i)+"/" && U_schemaPlain(vOMVal(s.PatternProperties, i).Base.Shape, vOMVal(g.PatternProperties, i))
		})
	})
	vEnsures("new", func(r *JSONSchema) bool { return newPlain(r) })
	vEnsures("base keywords", func(r *JSONSchema) bool { return basePlain(b, r) })
	vEnsures("type and facets", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "object" && g.MinProperties == s.MinProperties && g.MaxProperties == s.MaxProperties && g.AdditionalProperties == s.AdditionalProperties
	})
	vEnsures("properties in order", func(r *JSONSchema) bool {
		return s.Properties == nil && r.Properties == nil || s.Properties != nil && propsPlain(s.Properties, vOMLen(s.Properties), r.Properties)
	})
	vEnsures("exactly the required names", func(r *JSONSchema) bool { return sReqIs(s.Properties, vOMLen(s.Properties), r.Required) })
	vEnsures("pattern properties", func(r *JSONSchema) bool {
		n := vOMLen(s.PatternProperties)
		return s.PatternProperties == nil && r.PatternProperties == nil || s.PatternProperties != nil && vFresh(r.PatternProperties) && vOMLen(r.PatternProperties) == n &&
			vForAll(0, n, func(i int) bool {
				return vOMKey(s.PatternProperties, i) == "/"+vOMKey(r.PatternProperties, i)+"/" && U_schemaPlain(vOMVal(s.PatternProperties, i).Base.Shape, vOMVal(r.PatternProperties, i))
			})
	})
	vEnsures("nothing else", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.Enum == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterPlain_VisitArrayShape(c *JSONSchemaConverter[*JSONSchema], s *ArrayShape) {
	vProp("C10")
	convPlain(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape) && (s.Items == nil || s.Items.Shape != nil))
	b := s.BaseShape
	vEnsures("new", func(r *JSONSchema) bool { return newPlain(r) })
	vEnsures("base keywords", func(r *JSONSchema) bool { return basePlain(b, r) })
	vEnsures("type and facets", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "array" && g.MinItems == s.MinItems && g.MaxItems == s.MaxItems && g.UniqueItems == s.UniqueItems
	})
	vEnsures("items", func(r *JSONSchema) bool {
		return s.Items == nil && r.Items == nil || s.Items != nil && U_schemaPlain(s.Items.Shape, r.Items)
	})
	vEnsures("nothing else", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Required == nil && g.Enum == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterPlain_VisitUnionShape(c *JSONSchemaConverter[*JSONSchema], s *UnionShape) {
	vProp("C10")
	convPlain(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape) && vForAll(0, len(s.AnyOf), func(i int) bool { return s.AnyOf[i] != nil }))
	b := s.BaseShape
	vLoopInv(func(k int, g *JSONSchema) bool { return listPlain(s.AnyOf, k, g.AnyOf) })
	vEnsures("new", func(r *JSONSchema) bool { return newPlain(r) })
	vEnsures("base keywords", func(r *JSONSchema) bool { return basePlain(b, r) })
	vEnsures("members", func(r *JSONSchema) bool { return listPlain(s.AnyOf, len(s.AnyOf), r.AnyOf) })
	vEnsures("nothing else", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Type == "" && g.Required == nil && g.Enum == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterPlain_VisitRecursiveShape(c *JSONSchemaConverter[*JSONSchema], s *RecursiveShape) {
	vProp("C10")
	convPlain(c)
	vRequires("type", s != nil)
	vInvariant("type", s.Head != nil && sConv(s.Head) && UH_base(s.Head.Shape) != nil)
	name := UH_base(s.Head.Shape).Name
	had := vHasKey(c.definitions, name)
	vEnsures("new", func(r *JSONSchema) bool { return newPlain(r) })
	vEnsures("a reference to the head", func(r *JSONSchema) bool { return r.Ref == "#/definitions/"+name && vHasKey(c.definitions, name) })
	vEnsures("the definition is the head's schema", func(r *JSONSchema) bool { return had || U_schemaPlain(s.Head.Shape, c.definitions[name]) })
	vEnsures("nothing else", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Type == "" && g.Title == "" && g.Description == "" && g.Default == nil && g.Required == nil && g.Enum == nil && g.Examples == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterPlain_Visit(c *JSONSchemaConverter[*JSONSchema], s Shape) {
	vProp("C10")
	convPlain(c)
	vInvariant("type", sShapeSet(s))
	vDefine("the schema of the type", func(r *JSONSchema) bool { return U_schemaPlain(s, r) })
	vEnsures("new", func(r *JSONSchema) bool { return !sShapeKnown(s) || newPlain(r) })
}

func contract_JSONSchemaConverterPlain_Convert(c *JSONSchemaConverter[*JSONSchema], s Shape) {
	vProp("C10")
	vRequires("converter", c != nil && c.opts.wrap == nil)
	vRequires("type", s != nil)
	vInvariant("type", sShapeSet(s) && UH_base(s) != nil)
	vModifies(&c.definitions)
	b := UH_base(s)
	vEnsures("only unwrapped types", func(r *JSONSchema, err error) bool { return (err == nil) == b.unwrapped })
	vEnsures("new", func(r *JSONSchema, err error) bool { return err != nil || newPlain(r) })
	vEnsures("a reference to the entry point", func(r *JSONSchema, err error) bool {
		return err != nil || r.Version == JSONSchemaVersion && r.Ref == "#/definitions/"+b.Name && vHasKey(r.Definitions, b.Name) && U_schemaPlain(s, r.Definitions[b.Name])
	})
	vEnsures("all definitions", func(r *JSONSchema, err error) bool {
		return err != nil || vFresh(r.Definitions) && vSame(r.Definitions, c.definitions)
	})
	vEnsures("nothing else", func(r *JSONSchema, err error) bool {
		if err != nil {
			return true
		}
		g := &r.JSONSchemaGeneric
		return g.ID == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Type == "" && g.Title == "" && g.Description == "" && g.Default == nil && g.Required == nil && g.Enum == nil && g.Examples == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func recastListPlain(a []*JSONSchema, k int, r []*JSONSchema) bool {
	return len(r) == len(a) && vFresh(r) && vForAll(0, k, func(i int) bool { return U_recastPlain(a[i], r[i]) })
}

func recastMapPlain(a *orderedmap.OrderedMap[string, *JSONSchema], k int, r *orderedmap.OrderedMap[string, *JSONSchema]) bool {
	return vFresh(r) && vOMLen(r) == k && vForAll(0, k, func(i int) bool {
		return vOMKey(r, i) == vOMKey(a, i) && U_recastPlain(vOMVal(a, i), vOMVal(r, i))
	})
}

func contract_JSONSchemaConverterPlain_recast(c *JSONSchemaConverter[*JSONSchema], src *JSONSchema) {
	vProp("C10")
	convBasePlain(c, false)
	vDefine("the schema, in this dialect", func(r *JSONSchema) bool { return U_recastPlain(src, r) })
	if src == nil {
		vEnsures("nil", func(r *JSONSchema) bool { return r == nil })
		return
	}
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchema]) bool { return recastListPlain(src.AnyOf, k, r.AnyOf) })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchema]) bool {
		return r.AnyOf == nil && len(src.AnyOf) == 0 || len(src.AnyOf) > 0 && recastListPlain(src.AnyOf, len(src.AnyOf), r.AnyOf)
	})
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchema]) bool { return r.AnyOf == nil })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchema]) bool { return recastListPlain(src.AllOf, k, r.AllOf) })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchema]) bool {
		return r.AllOf == nil && len(src.AllOf) == 0 || len(src.AllOf) > 0 && recastListPlain(src.AllOf, len(src.AllOf), r.AllOf)
	})
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchema]) bool { return r.AllOf == nil })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchema]) bool { return recastListPlain(src.OneOf, k, r.OneOf) })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchema]) bool {
		return r.OneOf == nil && len(src.OneOf) == 0 || len(src.OneOf) > 0 && recastListPlain(src.OneOf, len(src.OneOf), r.OneOf)
	})
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchema]) bool { return r.OneOf == nil })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchema]) bool {
		return recastMapPlain(src.Properties, k, r.Properties)
	})
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchema]) bool {
		return r.Properties == nil && vOMLen(src.Properties) == 0 || vOMLen(src.Properties) > 0 && recastMapPlain(src.Properties, vOMLen(src.Properties), r.Properties)
	})
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchema]) bool { return r.Properties == nil })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchema]) bool {
		return recastMapPlain(src.PatternProperties, k, r.PatternProperties)
	})
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchema]) bool {
		return r.PatternProperties == nil && vOMLen(src.PatternProperties) == 0 || vOMLen(src.PatternProperties) > 0 && recastMapPlain(src.PatternProperties, vOMLen(src.PatternProperties), r.PatternProperties)
	})
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchema]) bool { return r.PatternProperties == nil })
	defs := vSnapMap(src.Definitions)
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchema]) bool {
		return vFresh(r.Definitions) && vForAllStr(func(n string) bool {
			return vHasKey(r.Definitions, n) == vVisited(n) && (!vVisited(n) || U_recastPlain(defs[n], r.Definitions[n]))
		})
	})
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchema]) bool { return r.Definitions == nil })
	vLoopInv(func(k int) bool {
		return vForAllStr(func(n string) bool {
			return vHasKey(src.Definitions, n) == vHasKey(defs, n) && src.Definitions[n] == defs[n]
		})
	})
	vEnsures("new", func(r *JSONSchema) bool { return newPlain(r) })
	vEnsures("AnyOf", func(r *JSONSchema) bool {
		return r.AnyOf == nil && len(src.AnyOf) == 0 || len(src.AnyOf) > 0 && recastListPlain(src.AnyOf, len(src.AnyOf), r.AnyOf)
	})
	vEnsures("AllOf", func(r *JSONSchema) bool {
		return r.AllOf == nil && len(src.AllOf) == 0 || len(src.AllOf) > 0 && recastListPlain(src.AllOf, len(src.AllOf), r.AllOf)
	})
	vEnsures("OneOf", func(r *JSONSchema) bool {
		return r.OneOf == nil && len(src.OneOf) == 0 || len(src.OneOf) > 0 && recastListPlain(src.OneOf, len(src.OneOf), r.OneOf)
	})
	vEnsures("Properties", func(r *JSONSchema) bool {
		return r.Properties == nil && vOMLen(src.Properties) == 0 || vOMLen(src.Properties) > 0 && recastMapPlain(src.Properties, vOMLen(src.Properties), r.Properties)
	})
	vEnsures("PatternProperties", func(r *JSONSchema) bool {
		return r.PatternProperties == nil && vOMLen(src.PatternProperties) == 0 || vOMLen(src.PatternProperties) > 0 && recastMapPlain(src.PatternProperties, vOMLen(src.PatternProperties), r.PatternProperties)
	})
	vEnsures("Definitions", func(r *JSONSchema) bool {
		return r.Definitions == nil && len(src.Definitions) == 0 || vFresh(r.Definitions) && vForAllStr(func(n string) bool {
			return vHasKey(r.Definitions, n) == vHasKey(src.Definitions, n) && (!vHasKey(src.Definitions, n) || U_recastPlain(src.Definitions[n], r.Definitions[n]))
		})
	})
	vEnsures("every keyword", func(r *JSONSchema) bool {
		return vSame(r.Version, src.Version) && vSame(r.ID, src.ID) && vSame(r.Ref, src.Ref) && vSame(r.Comment, src.Comment) && vSame(r.Const, src.Const) && vSame(r.MultipleOf, src.MultipleOf) && vSame(r.Maximum, src.Maximum) && vSame(r.Minimum, src.Minimum) && vSame(r.MaxLength, src.MaxLength) && vSame(r.MinLength, src.MinLength) && vSame(r.Pattern, src.Pattern) && vSame(r.MaxItems, src.MaxItems) && vSame(r.MinItems, src.MinItems) && vSame(r.UniqueItems, src.UniqueItems) && vSame(r.MaxContains, src.MaxContains) && vSame(r.MinContains, src.MinContains) && vSame(r.MaxProperties, src.MaxProperties) && vSame(r.MinProperties, src.MinProperties) && vSame(r.ContentEncoding, src.ContentEncoding) && vSame(r.ContentMediaType, src.ContentMediaType) && vSame(r.Format, src.Format) && vSame(r.AdditionalProperties, src.AdditionalProperties) && vSame(r.Type, src.Type) && vSame(r.Title, src.Title) && vSame(r.Description, src.Description) && vSame(r.Default, src.Default) && vSame(r.Required, src.Required) && vSame(r.Enum, src.Enum) && vSame(r.Examples, src.Examples)
	})
	vEnsures("nested schemas", func(r *JSONSchema) bool {
		return U_recastPlain(src.Not, r.Not) && U_recastPlain(src.If, r.If) && U_recastPlain(src.Then, r.Then) && U_recastPlain(src.Else, r.Else) && U_recastPlain(src.Items, r.Items) && U_recastPlain(src.PropertyNames, r.PropertyNames)
	})
}

func contract_JSONSchemaConverterPlain_VisitJSONShape(c *JSONSchemaConverter[*JSONSchema], s *JSONShape) {
	vProp("C10")
	convPlain(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape))
	b, j := s.BaseShape, s.Schema
	vEnsures("new", func(r *JSONSchema) bool { return newPlain(r) })
	if j == nil {
		vEnsures("base keywords", func(r *JSONSchema) bool { return basePlain(b, r) })
		vEnsures("nothing else", func(r *JSONSchema) bool {
			g := &r.JSONSchemaGeneric
			return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Type == "" && g.Required == nil && g.Enum == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
		})
		return
	}
	vEnsures("base keywords of the type, or else of the schema", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Title == sOr(sText(b.DisplayName), j.Title) && g.Description == sOr(sText(b.Description), j.Description) &&
			(b.Default != nil && b.Default.Value != nil && vSame(g.Default, b.Default.Value) || (b.Default == nil || b.Default.Value == nil) && vSame(g.Default, j.Default)) &&
			(b.Example == nil && vOMLen(sExamplesOf(b)) == 0 && vSame(g.Examples, j.Examples) || (b.Example != nil || vOMLen(sExamplesOf(b)) > 0) && sExamplesAre(b, g.Examples))
	})
	vEnsures("the rest from the schema", func(r *JSONSchema) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && vSame(g.ID, j.ID) && vSame(g.Ref, j.Ref) && vSame(g.Comment, j.Comment) && vSame(g.Const, j.Const) && vSame(g.MultipleOf, j.MultipleOf) && vSame(g.Maximum, j.Maximum) && vSame(g.Minimum, j.Minimum) && vSame(g.MaxLength, j.MaxLength) && vSame(g.MinLength, j.MinLength) && vSame(g.Pattern, j.Pattern) && vSame(g.MaxItems, j.MaxItems) && vSame(g.MinItems, j.MinItems) && vSame(g.UniqueItems, j.UniqueItems) && vSame(g.MaxContains, j.MaxContains) && vSame(g.MinContains, j.MinContains) && vSame(g.MaxProperties, j.MaxProperties) && vSame(g.MinProperties, j.MinProperties) && vSame(g.ContentEncoding, j.ContentEncoding) && vSame(g.ContentMediaType, j.ContentMediaType) && vSame(g.Format, j.Format) && vSame(g.AdditionalProperties, j.AdditionalProperties) && vSame(g.Type, j.Type) && vSame(g.Required, j.Required) && vSame(g.Enum, j.Enum) && U_recastPlain(j.Not, g.Not) && U_recastPlain(j.If, g.If) && U_recastPlain(j.Then, g.Then) && U_recastPlain(j.Else, g.Else) && U_recastPlain(j.Items, g.Items) && U_recastPlain(j.PropertyNames, g.PropertyNames)
	})
	vEnsures("AnyOf", func(r *JSONSchema) bool {
		return r.AnyOf == nil && len(j.AnyOf) == 0 || len(j.AnyOf) > 0 && recastListPlain(j.AnyOf, len(j.AnyOf), r.AnyOf)
	})
	vEnsures("AllOf", func(r *JSONSchema) bool {
		return r.AllOf == nil && len(j.AllOf) == 0 || len(j.AllOf) > 0 && recastListPlain(j.AllOf, len(j.AllOf), r.AllOf)
	})
	vEnsures("OneOf", func(r *JSONSchema) bool {
		return r.OneOf == nil && len(j.OneOf) == 0 || len(j.OneOf) > 0 && recastListPlain(j.OneOf, len(j.OneOf), r.OneOf)
	})
	vEnsures("Properties", func(r *JSONSchema) bool {
		return r.Properties == nil && vOMLen(j.Properties) == 0 || vOMLen(j.Properties) > 0 && recastMapPlain(j.Properties, vOMLen(j.Properties), r.Properties)
	})
	vEnsures("PatternProperties", func(r *JSONSchema) bool {
		return r.PatternProperties == nil && vOMLen(j.PatternProperties) == 0 || vOMLen(j.PatternProperties) > 0 && recastMapPlain(j.PatternProperties, vOMLen(j.PatternProperties), r.PatternProperties)
	})
	vEnsures("Definitions", func(r *JSONSchema) bool {
		return r.Definitions == nil && len(j.Definitions) == 0 || vFresh(r.Definitions) && vForAllStr(func(n string) bool {
			return vHasKey(r.Definitions, n) == vHasKey(j.Definitions, n) && (!vHasKey(j.Definitions, n) || U_recastPlain(j.Definitions[n], r.Definitions[n]))
		})
	})
}

// ---- RAML

func U_schemaRAML(s Shape, r *JSONSchemaRAML) bool {
	c := &JSONSchemaConverter[*JSONSchemaRAML]{definitions: make(map[string]*JSONSchemaRAML), opts: JSONSchemaConverterOptions[*JSONSchemaRAML]{wrap: JSONSchemaWrapper}}
	return vDump(c.Visit(s)) == vDump(r)
}

func U_recastRAML(s *JSONSchema, r *JSONSchemaRAML) bool {
	c := &JSONSchemaConverter[*JSONSchemaRAML]{definitions: make(map[string]*JSONSchemaRAML), opts: JSONSchemaConverterOptions[*JSONSchemaRAML]{wrap: JSONSchemaWrapper}}
	return vDump(c.recast(s)) == vDump(r)
}

// convRAML: a converter of this dialect, whose definitions only grow
func convRAML(c *JSONSchemaConverter[*JSONSchemaRAML]) { convBaseRAML(c, true) }

// convBaseRAML: a schema without a base type adds no definitions
func convBaseRAML(c *JSONSchemaConverter[*JSONSchemaRAML], typed bool) {
	vRequires("converter", c != nil && c.definitions != nil && vFuncID(c.opts.wrap) == vFuncID(JSONSchemaWrapper))
	if !typed {
		return
	}
	vModifies(c.definitions)
	d := vSnapMap(c.definitions)
	grow := func() bool {
		return vForAllStr(func(n string) bool { return !vHasKey(d, n) || vHasKey(c.definitions, n) && c.definitions[n] == d[n] })
	}
	vLoopInv(func(k int) bool { return grow() })
	vEnsures("definitions only grow", func() bool { return grow() })
}

// baseRAML: the keywords every type has
func baseRAML(b *BaseShape, r *JSONSchemaRAML) bool {
	g := &r.JSONSchemaGeneric
	return g.Title == sText(b.DisplayName) && g.Description == sText(b.Description) && sDefaultIs(b, g.Default) && sExamplesAre(b, g.Examples) && restRAML(b, r)
}

func zeroRAML(g *JSONSchemaGeneric[*JSONSchemaRAML]) bool {
	return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Type == "" && g.Title == "" && g.Description == "" && g.Default == nil && g.Required == nil && g.Enum == nil && g.Examples == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
}

func newRAML(r *JSONSchemaRAML) bool { return r != nil && vFresh(r) }

func propsRAML(m *orderedmap.OrderedMap[string, Property], k int, r *orderedmap.OrderedMap[string, *JSONSchemaRAML]) bool {
	return vFresh(r) && vOMLen(r) == k && vForAll(0, k, func(i int) bool {
		return vOMKey(r, i) == vOMKey(m, i) && U_schemaRAML(vOMVal(m, i).Base.Shape, vOMVal(r, i))
	})
}

func listRAML(l []*BaseShape, k int, r []*JSONSchemaRAML) bool {
	return vFresh(r) && len(r) == len(l) && vForAll(0, k, func(i int) bool { return U_schemaRAML(l[i].Shape, r[i]) })
}

func contract_JSONSchemaConverterRAML_finish(c *JSONSchemaConverter[*JSONSchemaRAML], core *JSONSchemaGeneric[*JSONSchemaRAML], base *BaseShape) {
	vProp("C10")
	convBaseRAML(c, base != nil)
	vRequires("schema", core != nil)
	vInvariant("type", base == nil || sConv(base))
	vEnsures("new", func(r *JSONSchemaRAML) bool { return newRAML(r) })
	vEnsures("the same keywords", func(r *JSONSchemaRAML) bool { return vSame(r.JSONSchemaGeneric, *core) })
	vEnsures("annotations and facets", func(r *JSONSchemaRAML) bool {
		if base == nil {
			return nothingRAML(r)
		}
		return restRAML(base, r)
	})
}

func contract_JSONSchemaConverterRAML_makeEmptySchema(c *JSONSchemaConverter[*JSONSchemaRAML]) {
	vProp("C10")
	convBaseRAML(c, false)
	vEnsures("new", func(r *JSONSchemaRAML) bool { return newRAML(r) })
	vEnsures("empty", func(r *JSONSchemaRAML) bool { return zeroRAML(&r.JSONSchemaGeneric) && nothingRAML(r) })
}

func contract_JSONSchemaConverterRAML_makeSchemaFromBaseShape(c *JSONSchemaConverter[*JSONSchemaRAML], b *BaseShape) {
	vProp("C10")
	convRAML(c)
	vRequires("type", b != nil)
	vInvariant("type", sConv(b))
	x := sExamplesOf(b)
	vLoopInv(func(k int, g *JSONSchemaGeneric[*JSONSchemaRAML]) bool {
		return len(g.Examples) == k && (k != 0 || g.Examples == nil) && (k == 0 || vFresh(g.Examples)) &&
			vForAll(0, k, func(i int) bool { return vSame(g.Examples[i], vOMVal(x, i).Data.Value) })
	})
	vEnsures("new", func(r *JSONSchemaRAML) bool { return newRAML(r) })
	vEnsures("base keywords", func(r *JSONSchemaRAML) bool { return baseRAML(b, r) })
	vEnsures("nothing else", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Type == "" && g.Required == nil && g.Enum == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterRAML_VisitStringShape(c *JSONSchemaConverter[*JSONSchemaRAML], s *StringShape) {
	vProp("C10")
	convRAML(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape) && sEnumSet(s.Enum))
	b := s.BaseShape
	vLoopInv(func(k int, g *JSONSchemaRAML) bool {
		return len(g.Enum) == len(s.Enum) && vFresh(g.Enum)
	})
	vLoopInv(func(k int, g *JSONSchemaRAML) bool {
		return vForAll(0, k, func(i int) bool { return vSame(g.Enum[i], s.Enum[i].Value) })
	})
	vEnsures("new", func(r *JSONSchemaRAML) bool { return newRAML(r) })
	vEnsures("base keywords", func(r *JSONSchemaRAML) bool { return baseRAML(b, r) })
	vEnsures("type and facets", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "string" && g.MinLength == s.MinLength && g.MaxLength == s.MaxLength && g.Pattern == sPatStr(s.Pattern)
	})
	vEnsures("enumeration", func(r *JSONSchemaRAML) bool { return sEnumIs(s.Enum, r.Enum) })
	vEnsures("nothing else", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Required == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterRAML_VisitIntegerShape(c *JSONSchemaConverter[*JSONSchemaRAML], s *IntegerShape) {
	vProp("C10")
	convRAML(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape) && sEnumSet(s.Enum))
	b := s.BaseShape
	vLoopInv(func(k int, g *JSONSchemaRAML) bool {
		return len(g.Enum) == len(s.Enum) && vFresh(g.Enum)
	})
	vLoopInv(func(k int, g *JSONSchemaRAML) bool {
		return vForAll(0, k, func(i int) bool { return vSame(g.Enum[i], s.Enum[i].Value) })
	})
	vEnsures("new", func(r *JSONSchemaRAML) bool { return newRAML(r) })
	vEnsures("base keywords", func(r *JSONSchemaRAML) bool { return baseRAML(b, r) })
	vEnsures("type and facets", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "integer" && g.Minimum == sIntNum(s.Minimum) && g.Maximum == sIntNum(s.Maximum) && g.MultipleOf == sFloNum(s.MultipleOf)
	})
	vEnsures("enumeration", func(r *JSONSchemaRAML) bool { return sEnumIs(s.Enum, r.Enum) })
	vEnsures("nothing else", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Required == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterRAML_VisitNumberShape(c *JSONSchemaConverter[*JSONSchemaRAML], s *NumberShape) {
	vProp("C10")
	convRAML(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape) && sEnumSet(s.Enum))
	b := s.BaseShape
	vLoopInv(func(k int, g *JSONSchemaRAML) bool {
		return len(g.Enum) == len(s.Enum) && vFresh(g.Enum)
	})
	vLoopInv(func(k int, g *JSONSchemaRAML) bool {
		return vForAll(0, k, func(i int) bool { return vSame(g.Enum[i], s.Enum[i].Value) })
	})
	vEnsures("new", func(r *JSONSchemaRAML) bool { return newRAML(r) })
	vEnsures("base keywords", func(r *JSONSchemaRAML) bool { return baseRAML(b, r) })
	vEnsures("type and facets", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "number" && g.Minimum == sFloNum(s.Minimum) && g.Maximum == sFloNum(s.Maximum) && g.MultipleOf == sFloNum(s.MultipleOf)
	})
	vEnsures("enumeration", func(r *JSONSchemaRAML) bool { return sEnumIs(s.Enum, r.Enum) })
	vEnsures("nothing else", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Required == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterRAML_VisitBooleanShape(c *JSONSchemaConverter[*JSONSchemaRAML], s *BooleanShape) {
	vProp("C10")
	convRAML(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape) && sEnumSet(s.Enum))
	b := s.BaseShape
	vLoopInv(func(k int, g *JSONSchemaRAML) bool {
		return len(g.Enum) == len(s.Enum) && vFresh(g.Enum)
	})
	vLoopInv(func(k int, g *JSONSchemaRAML) bool {
		return vForAll(0, k, func(i int) bool { return vSame(g.Enum[i], s.Enum[i].Value) })
	})
	vEnsures("new", func(r *JSONSchemaRAML) bool { return newRAML(r) })
	vEnsures("base keywords", func(r *JSONSchemaRAML) bool { return baseRAML(b, r) })
	vEnsures("type and facets", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "boolean"
	})
	vEnsures("enumeration", func(r *JSONSchemaRAML) bool { return sEnumIs(s.Enum, r.Enum) })
	vEnsures("nothing else", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Required == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterRAML_VisitFileShape(c *JSONSchemaConverter[*JSONSchemaRAML], s *FileShape) {
	vProp("C10")
	convRAML(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape) && (len(s.FileTypes) == 0 || s.FileTypes[0] != nil && sIsText(s.FileTypes[0].Value)))
	b := s.BaseShape
	vEnsures("new", func(r *JSONSchemaRAML) bool { return newRAML(r) })
	vEnsures("base keywords", func(r *JSONSchemaRAML) bool { return baseRAML(b, r) })
	vEnsures("type and facets", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "string" && g.MinLength == s.MinLength && g.MaxLength == s.MaxLength && g.ContentEncoding == "base64" && g.ContentMediaType == sMedia(s.FileTypes)
	})
	vEnsures("nothing else", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.Format == "" && g.AdditionalProperties == nil && g.Required == nil && g.Enum == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterRAML_VisitDateTimeShape(c *JSONSchemaConverter[*JSONSchemaRAML], s *DateTimeShape) {
	vProp("C10")
	convRAML(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape))
	b := s.BaseShape
	vEnsures("new", func(r *JSONSchemaRAML) bool { return newRAML(r) })
	vEnsures("base keywords", func(r *JSONSchemaRAML) bool { return baseRAML(b, r) })
	vEnsures("type and facets", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "string" && g.Format == sDTFormat(s.Format) && g.Pattern == sDTPattern(s.Format)
	})
	vEnsures("nothing else", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.AdditionalProperties == nil && g.Required == nil && g.Enum == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterRAML_VisitDateTimeOnlyShape(c *JSONSchemaConverter[*JSONSchemaRAML], s *DateTimeOnlyShape) {
	vProp("C10")
	convRAML(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape))
	b := s.BaseShape
	vEnsures("new", func(r *JSONSchemaRAML) bool { return newRAML(r) })
	vEnsures("base keywords", func(r *JSONSchemaRAML) bool { return baseRAML(b, r) })
	vEnsures("type and facets", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "string" && g.Pattern == "^[0-9]{4}-(?:0[0-9]|1[0-2])-(?:[0-2][0-9]|3[01])T(?:[01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9]$"
	})
	vEnsures("nothing else", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Required == nil && g.Enum == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterRAML_VisitDateOnlyShape(c *JSONSchemaConverter[*JSONSchemaRAML], s *DateOnlyShape) {
	vProp("C10")
	convRAML(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape))
	b := s.BaseShape
	vEnsures("new", func(r *JSONSchemaRAML) bool { return newRAML(r) })
	vEnsures("base keywords", func(r *JSONSchemaRAML) bool { return baseRAML(b, r) })
	vEnsures("type and facets", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "string" && g.Format == "date"
	})
	vEnsures("nothing else", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.AdditionalProperties == nil && g.Required == nil && g.Enum == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterRAML_VisitTimeOnlyShape(c *JSONSchemaConverter[*JSONSchemaRAML], s *TimeOnlyShape) {
	vProp("C10")
	convRAML(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape))
	b := s.BaseShape
	vEnsures("new", func(r *JSONSchemaRAML) bool { return newRAML(r) })
	vEnsures("base keywords", func(r *JSONSchemaRAML) bool { return baseRAML(b, r) })
	vEnsures("type and facets", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "string" && g.Format == "time"
	})
	vEnsures("nothing else", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.AdditionalProperties == nil && g.Required == nil && g.Enum == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterRAML_VisitAnyShape(c *JSONSchemaConverter[*JSONSchemaRAML], s *AnyShape) {
	vProp("C10")
	convRAML(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape))
	b := s.BaseShape
	vEnsures("new", func(r *JSONSchemaRAML) bool { return newRAML(r) })
	vEnsures("base keywords", func(r *JSONSchemaRAML) bool { return baseRAML(b, r) })
	vEnsures("nothing else", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Type == "" && g.Required == nil && g.Enum == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterRAML_VisitNilShape(c *JSONSchemaConverter[*JSONSchemaRAML], s *NilShape) {
	vProp("C10")
	convRAML(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape))
	b := s.BaseShape
	vEnsures("new", func(r *JSONSchemaRAML) bool { return newRAML(r) })
	vEnsures("base keywords", func(r *JSONSchemaRAML) bool { return baseRAML(b, r) })
	vEnsures("type and facets", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "null"
	})
	vEnsures("nothing else", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Required == nil && g.Enum == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterRAML_VisitObjectShape(c *JSONSchemaConverter[*JSONSchemaRAML], s *ObjectShape) {
	vProp("C10")
	convRAML(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape) && vForAll(0, vOMLen(s.Properties), func(i int) bool { return vOMVal(s.Properties, i).Base != nil }) &&
		vForAll(0, vOMLen(s.PatternProperties), func(i int) bool {
			p := vOMKey(s.PatternProperties, i)
			return vOMVal(s.PatternProperties, i).Base != nil && len(p) > 1 && p == "/"+sUnslash(p)+"/"
		}))
	b := s.BaseShape
	vLoopInv(func(k int, g *JSONSchemaRAML) bool { return propsRAML(s.Properties, k, g.Properties) })
	vLoopInv(func(k int, g *JSONSchemaRAML) bool {
		return s.Properties != nil && propsRAML(s.Properties, vOMLen(s.Properties), g.Properties) || s.Properties == nil && g.Properties == nil
	})
	vLoopInv(func(k int, g *JSONSchemaRAML) bool {
		return len(g.Required) == 0 && g.Required == nil || vFresh(g.Required)
	})
	vLoopInv(func(k int, g *JSONSchemaRAML) bool { return sReqIs(s.Properties, k, g.Required) })
	vLoopInv(func(k int, g *JSONSchemaRAML) bool { return sReqIs(s.Properties, vOMLen(s.Properties), g.Required) })
	vLoopInv(func(k int, g *JSONSchemaRAML) bool { return g.PatternProperties == nil })
	vLoopInv(func(k int, g *JSONSchemaRAML) bool {
		return vFresh(g.PatternProperties) && vOMLen(g.PatternProperties) == k && vForAll(0, k, func(i int) bool {
			return vOMKey(s.PatternProperties, i) == "/"+vOMKey(g.PatternProperties, i)+"/" && U_schemaRAML(vOMVal(s.PatternProperties, i).Base.Shape, vOMVal(g.PatternProperties, i))
		})
	})
	vEnsures("new", func(r *JSONSchemaRAML) bool { return newRAML(r) })
	vEnsures("base keywords", func(r *JSONSchemaRAML) bool { return baseRAML(b, r) })
	vEnsures("type and facets", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "object" && g.MinProperties == s.MinProperties && g.MaxProperties == s.MaxProperties && g.AdditionalProperties == s.AdditionalProperties
	})
	vEnsures("properties in order", func(r *JSONSchemaRAML) bool {
		return s.Properties == nil && r.Properties == nil || s.Properties != nil && propsRAML(s.Properties, vOMLen(s.Properties), r.Properties)
	})
	vEnsures("exactly the required names", func(r *JSONSchemaRAML) bool { return sReqIs(s.Properties, vOMLen(s.Properties), r.Required) })
	vEnsures("pattern properties", func(r *JSONSchemaRAML) bool {
		n := vOMLen(s.PatternProperties)
		return s.PatternProperties == nil && r.PatternProperties == nil || s.PatternProperties != nil && vFresh(r.PatternProperties) && vOMLen(r.PatternProperties) == n &&
			vForAll(0, n, func(i int) bool {
				return vOMKey(s.PatternProperties, i) == "/"+vOMKey(r.PatternProperties, i)+"/" && U_schemaRAML(vOMVal(s.PatternProperties, i).Base.Shape, vOMVal(r.PatternProperties, i))
			})
	})
	vEnsures("nothing else", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.Enum == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterRAML_VisitArrayShape(c *JSONSchemaConverter[*JSONSchemaRAML], s *ArrayShape) {
	vProp("C10")
	convRAML(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape) && (s.Items == nil || s.Items.Shape != nil))
	b := s.BaseShape
	vEnsures("new", func(r *JSONSchemaRAML) bool { return newRAML(r) })
	vEnsures("base keywords", func(r *JSONSchemaRAML) bool { return baseRAML(b, r) })
	vEnsures("type and facets", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Type == "array" && g.MinItems == s.MinItems && g.MaxItems == s.MaxItems && g.UniqueItems == s.UniqueItems
	})
	vEnsures("items", func(r *JSONSchemaRAML) bool {
		return s.Items == nil && r.Items == nil || s.Items != nil && U_schemaRAML(s.Items.Shape, r.Items)
	})
	vEnsures("nothing else", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Required == nil && g.Enum == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterRAML_VisitUnionShape(c *JSONSchemaConverter[*JSONSchemaRAML], s *UnionShape) {
	vProp("C10")
	convRAML(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape) && vForAll(0, len(s.AnyOf), func(i int) bool { return s.AnyOf[i] != nil }))
	b := s.BaseShape
	vLoopInv(func(k int, g *JSONSchemaRAML) bool { return listRAML(s.AnyOf, k, g.AnyOf) })
	vEnsures("new", func(r *JSONSchemaRAML) bool { return newRAML(r) })
	vEnsures("base keywords", func(r *JSONSchemaRAML) bool { return baseRAML(b, r) })
	vEnsures("members", func(r *JSONSchemaRAML) bool { return listRAML(s.AnyOf, len(s.AnyOf), r.AnyOf) })
	vEnsures("nothing else", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Type == "" && g.Required == nil && g.Enum == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterRAML_VisitRecursiveShape(c *JSONSchemaConverter[*JSONSchemaRAML], s *RecursiveShape) {
	vProp("C10")
	convRAML(c)
	vRequires("type", s != nil)
	vInvariant("type", s.Head != nil && sConv(s.Head) && UH_base(s.Head.Shape) != nil)
	name := UH_base(s.Head.Shape).Name
	had := vHasKey(c.definitions, name)
	vEnsures("new", func(r *JSONSchemaRAML) bool { return newRAML(r) })
	vEnsures("a reference to the head", func(r *JSONSchemaRAML) bool { return r.Ref == "#/definitions/"+name && vHasKey(c.definitions, name) })
	vEnsures("the definition is the head's schema", func(r *JSONSchemaRAML) bool { return had || U_schemaRAML(s.Head.Shape, c.definitions[name]) })
	vEnsures("nothing else", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && g.ID == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Type == "" && g.Title == "" && g.Description == "" && g.Default == nil && g.Required == nil && g.Enum == nil && g.Examples == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func contract_JSONSchemaConverterRAML_Visit(c *JSONSchemaConverter[*JSONSchemaRAML], s Shape) {
	vProp("C10")
	convRAML(c)
	vInvariant("type", sShapeSet(s))
	vDefine("the schema of the type", func(r *JSONSchemaRAML) bool { return U_schemaRAML(s, r) })
	vEnsures("new", func(r *JSONSchemaRAML) bool { return !sShapeKnown(s) || newRAML(r) })
}

func contract_JSONSchemaConverterRAML_Convert(c *JSONSchemaConverter[*JSONSchemaRAML], s Shape) {
	vProp("C10")
	vRequires("converter", c != nil && vFuncID(c.opts.wrap) == vFuncID(JSONSchemaWrapper))
	vRequires("type", s != nil)
	vInvariant("type", sShapeSet(s) && UH_base(s) != nil)
	vModifies(&c.definitions)
	b := UH_base(s)
	vEnsures("only unwrapped types", func(r *JSONSchemaRAML, err error) bool { return (err == nil) == b.unwrapped })
	vEnsures("new", func(r *JSONSchemaRAML, err error) bool { return err != nil || newRAML(r) })
	vEnsures("a reference to the entry point", func(r *JSONSchemaRAML, err error) bool {
		return err != nil || r.Version == JSONSchemaVersion && r.Ref == "#/definitions/"+b.Name && vHasKey(r.Definitions, b.Name) && U_schemaRAML(s, r.Definitions[b.Name])
	})
	vEnsures("all definitions", func(r *JSONSchemaRAML, err error) bool {
		return err != nil || vFresh(r.Definitions) && vSame(r.Definitions, c.definitions)
	})
	vEnsures("nothing else", func(r *JSONSchemaRAML, err error) bool {
		if err != nil {
			return true
		}
		g := &r.JSONSchemaGeneric
		return g.ID == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Type == "" && g.Title == "" && g.Description == "" && g.Default == nil && g.Required == nil && g.Enum == nil && g.Examples == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
	})
}

func recastListRAML(a []*JSONSchema, k int, r []*JSONSchemaRAML) bool {
	return len(r) == len(a) && vFresh(r) && vForAll(0, k, func(i int) bool { return U_recastRAML(a[i], r[i]) })
}

func recastMapRAML(a *orderedmap.OrderedMap[string, *JSONSchema], k int, r *orderedmap.OrderedMap[string, *JSONSchemaRAML]) bool {
	return vFresh(r) && vOMLen(r) == k && vForAll(0, k, func(i int) bool {
		return vOMKey(r, i) == vOMKey(a, i) && U_recastRAML(vOMVal(a, i), vOMVal(r, i))
	})
}

func contract_JSONSchemaConverterRAML_recast(c *JSONSchemaConverter[*JSONSchemaRAML], src *JSONSchema) {
	vProp("C10")
	convBaseRAML(c, false)
	vDefine("the schema, in this dialect", func(r *JSONSchemaRAML) bool { return U_recastRAML(src, r) })
	if src == nil {
		vEnsures("nil", func(r *JSONSchemaRAML) bool { return r == nil })
		return
	}
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return recastListRAML(src.AnyOf, k, r.AnyOf) })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchemaRAML]) bool {
		return r.AnyOf == nil && len(src.AnyOf) == 0 || len(src.AnyOf) > 0 && recastListRAML(src.AnyOf, len(src.AnyOf), r.AnyOf)
	})
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return r.AnyOf == nil })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return recastListRAML(src.AllOf, k, r.AllOf) })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchemaRAML]) bool {
		return r.AllOf == nil && len(src.AllOf) == 0 || len(src.AllOf) > 0 && recastListRAML(src.AllOf, len(src.AllOf), r.AllOf)
	})
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return r.AllOf == nil })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return recastListRAML(src.OneOf, k, r.OneOf) })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchemaRAML]) bool {
		return r.OneOf == nil && len(src.OneOf) == 0 || len(src.OneOf) > 0 && recastListRAML(src.OneOf, len(src.OneOf), r.OneOf)
	})
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return r.OneOf == nil })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchemaRAML]) bool {
		return recastMapRAML(src.Properties, k, r.Properties)
	})
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchemaRAML]) bool {
		return r.Properties == nil && vOMLen(src.Properties) == 0 || vOMLen(src.Properties) > 0 && recastMapRAML(src.Properties, vOMLen(src.Properties), r.Properties)
	})
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return r.Properties == nil })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchemaRAML]) bool {
		return recastMapRAML(src.PatternProperties, k, r.PatternProperties)
	})
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchemaRAML]) bool {
		return r.PatternProperties == nil && vOMLen(src.PatternProperties) == 0 || vOMLen(src.PatternProperties) > 0 && recastMapRAML(src.PatternProperties, vOMLen(src.PatternProperties), r.PatternProperties)
	})
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return r.PatternProperties == nil })
	defs := vSnapMap(src.Definitions)
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchemaRAML]) bool {
		return vFresh(r.Definitions) && vForAllStr(func(n string) bool {
			return vHasKey(r.Definitions, n) == vVisited(n) && (!vVisited(n) || U_recastRAML(defs[n], r.Definitions[n]))
		})
	})
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return r.Definitions == nil })
	vLoopInv(func(k int) bool {
		return vForAllStr(func(n string) bool {
			return vHasKey(src.Definitions, n) == vHasKey(defs, n) && src.Definitions[n] == defs[n]
		})
	})
	vEnsures("new", func(r *JSONSchemaRAML) bool { return newRAML(r) })
	vEnsures("AnyOf", func(r *JSONSchemaRAML) bool {
		return r.AnyOf == nil && len(src.AnyOf) == 0 || len(src.AnyOf) > 0 && recastListRAML(src.AnyOf, len(src.AnyOf), r.AnyOf)
	})
	vEnsures("AllOf", func(r *JSONSchemaRAML) bool {
		return r.AllOf == nil && len(src.AllOf) == 0 || len(src.AllOf) > 0 && recastListRAML(src.AllOf, len(src.AllOf), r.AllOf)
	})
	vEnsures("OneOf", func(r *JSONSchemaRAML) bool {
		return r.OneOf == nil && len(src.OneOf) == 0 || len(src.OneOf) > 0 && recastListRAML(src.OneOf, len(src.OneOf), r.OneOf)
	})
	vEnsures("Properties", func(r *JSONSchemaRAML) bool {
		return r.Properties == nil && vOMLen(src.Properties) == 0 || vOMLen(src.Properties) > 0 && recastMapRAML(src.Properties, vOMLen(src.Properties), r.Properties)
	})
	vEnsures("PatternProperties", func(r *JSONSchemaRAML) bool {
		return r.PatternProperties == nil && vOMLen(src.PatternProperties) == 0 || vOMLen(src.PatternProperties) > 0 && recastMapRAML(src.PatternProperties, vOMLen(src.PatternProperties), r.PatternProperties)
	})
	vEnsures("Definitions", func(r *JSONSchemaRAML) bool {
		return r.Definitions == nil && len(src.Definitions) == 0 || vFresh(r.Definitions) && vForAllStr(func(n string) bool {
			return vHasKey(r.Definitions, n) == vHasKey(src.Definitions, n) && (!vHasKey(src.Definitions, n) || U_recastRAML(src.Definitions[n], r.Definitions[n]))
		})
	})
	vEnsures("every keyword", func(r *JSONSchemaRAML) bool {
		return vSame(r.Version, src.Version) && vSame(r.ID, src.ID) && vSame(r.Ref, src.Ref) && vSame(r.Comment, src.Comment) && vSame(r.Const, src.Const) && vSame(r.MultipleOf, src.MultipleOf) && vSame(r.Maximum, src.Maximum) && vSame(r.Minimum, src.Minimum) && vSame(r.MaxLength, src.MaxLength) && vSame(r.MinLength, src.MinLength) && vSame(r.Pattern, src.Pattern) && vSame(r.MaxItems, src.MaxItems) && vSame(r.MinItems, src.MinItems) && vSame(r.UniqueItems, src.UniqueItems) && vSame(r.MaxContains, src.MaxContains) && vSame(r.MinContains, src.MinContains) && vSame(r.MaxProperties, src.MaxProperties) && vSame(r.MinProperties, src.MinProperties) && vSame(r.ContentEncoding, src.ContentEncoding) && vSame(r.ContentMediaType, src.ContentMediaType) && vSame(r.Format, src.Format) && vSame(r.AdditionalProperties, src.AdditionalProperties) && vSame(r.Type, src.Type) && vSame(r.Title, src.Title) && vSame(r.Description, src.Description) && vSame(r.Default, src.Default) && vSame(r.Required, src.Required) && vSame(r.Enum, src.Enum) && vSame(r.Examples, src.Examples)
	})
	vEnsures("nested schemas", func(r *JSONSchemaRAML) bool {
		return U_recastRAML(src.Not, r.Not) && U_recastRAML(src.If, r.If) && U_recastRAML(src.Then, r.Then) && U_recastRAML(src.Else, r.Else) && U_recastRAML(src.Items, r.Items) && U_recastRAML(src.PropertyNames, r.PropertyNames) && nothingRAML(r)
	})
}

func contract_JSONSchemaConverterRAML_VisitJSONShape(c *JSONSchemaConverter[*JSONSchemaRAML], s *JSONShape) {
	vProp("C10")
	convRAML(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape))
	b, j := s.BaseShape, s.Schema
	vEnsures("new", func(r *JSONSchemaRAML) bool { return newRAML(r) })
	vEnsures("annotations and facets", func(r *JSONSchemaRAML) bool { return restRAML(b, r) })
	if j == nil {
		vEnsures("base keywords", func(r *JSONSchemaRAML) bool { return baseRAML(b, r) })
		vEnsures("nothing else", func(r *JSONSchemaRAML) bool {
			g := &r.JSONSchemaGeneric
			return g.Version == "" && g.ID == "" && g.Ref == "" && g.Comment == "" && g.Const == nil && g.MultipleOf == "" && g.Maximum == "" && g.Minimum == "" && g.MaxLength == nil && g.MinLength == nil && g.Pattern == "" && g.MaxItems == nil && g.MinItems == nil && g.UniqueItems == nil && g.MaxContains == nil && g.MinContains == nil && g.MaxProperties == nil && g.MinProperties == nil && g.ContentEncoding == "" && g.ContentMediaType == "" && g.Format == "" && g.AdditionalProperties == nil && g.Type == "" && g.Required == nil && g.Enum == nil && g.AnyOf == nil && g.AllOf == nil && g.OneOf == nil && g.Properties == nil && g.PatternProperties == nil && g.Definitions == nil && g.Not == nil && g.If == nil && g.Then == nil && g.Else == nil && g.Items == nil && g.PropertyNames == nil
		})
		return
	}
	vEnsures("base keywords of the type, or else of the schema", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Title == sOr(sText(b.DisplayName), j.Title) && g.Description == sOr(sText(b.Description), j.Description) &&
			(b.Default != nil && b.Default.Value != nil && vSame(g.Default, b.Default.Value) || (b.Default == nil || b.Default.Value == nil) && vSame(g.Default, j.Default)) &&
			(b.Example == nil && vOMLen(sExamplesOf(b)) == 0 && vSame(g.Examples, j.Examples) || (b.Example != nil || vOMLen(sExamplesOf(b)) > 0) && sExamplesAre(b, g.Examples))
	})
	vEnsures("the rest from the schema", func(r *JSONSchemaRAML) bool {
		g := &r.JSONSchemaGeneric
		return g.Version == "" && vSame(g.ID, j.ID) && vSame(g.Ref, j.Ref) && vSame(g.Comment, j.Comment) && vSame(g.Const, j.Const) && vSame(g.MultipleOf, j.MultipleOf) && vSame(g.Maximum, j.Maximum) && vSame(g.Minimum, j.Minimum) && vSame(g.MaxLength, j.MaxLength) && vSame(g.MinLength, j.MinLength) && vSame(g.Pattern, j.Pattern) && vSame(g.MaxItems, j.MaxItems) && vSame(g.MinItems, j.MinItems) && vSame(g.UniqueItems, j.UniqueItems) && vSame(g.MaxContains, j.MaxContains) && vSame(g.MinContains, j.MinContains) && vSame(g.MaxProperties, j.MaxProperties) && vSame(g.MinProperties, j.MinProperties) && vSame(g.ContentEncoding, j.ContentEncoding) && vSame(g.ContentMediaType, j.ContentMediaType) && vSame(g.Format, j.Format) && vSame(g.AdditionalProperties, j.AdditionalProperties) && vSame(g.Type, j.Type) && vSame(g.Required, j.Required) && vSame(g.Enum, j.Enum) && U_recastRAML(j.Not, g.Not) && U_recastRAML(j.If, g.If) && U_recastRAML(j.Then, g.Then) && U_recastRAML(j.Else, g.Else) && U_recastRAML(j.Items, g.Items) && U_recastRAML(j.PropertyNames, g.PropertyNames)
	})
	vEnsures("AnyOf", func(r *JSONSchemaRAML) bool {
		return r.AnyOf == nil && len(j.AnyOf) == 0 || len(j.AnyOf) > 0 && recastListRAML(j.AnyOf, len(j.AnyOf), r.AnyOf)
	})
	vEnsures("AllOf", func(r *JSONSchemaRAML) bool {
		return r.AllOf == nil && len(j.AllOf) == 0 || len(j.AllOf) > 0 && recastListRAML(j.AllOf, len(j.AllOf), r.AllOf)
	})
	vEnsures("OneOf", func(r *JSONSchemaRAML) bool {
		return r.OneOf == nil && len(j.OneOf) == 0 || len(j.OneOf) > 0 && recastListRAML(j.OneOf, len(j.OneOf), r.OneOf)
	})
	vEnsures("Properties", func(r *JSONSchemaRAML) bool {
		return r.Properties == nil && vOMLen(j.Properties) == 0 || vOMLen(j.Properties) > 0 && recastMapRAML(j.Properties, vOMLen(j.Properties), r.Properties)
	})
	vEnsures("PatternProperties", func(r *JSONSchemaRAML) bool {
		return r.PatternProperties == nil && vOMLen(j.PatternProperties) == 0 || vOMLen(j.PatternProperties) > 0 && recastMapRAML(j.PatternProperties, vOMLen(j.PatternProperties), r.PatternProperties)
	})
	vEnsures("Definitions", func(r *JSONSchemaRAML) bool {
		return r.Definitions == nil && len(j.Definitions) == 0 || vFresh(r.Definitions) && vForAllStr(func(n string) bool {
			return vHasKey(r.Definitions, n) == vHasKey(j.Definitions, n) && (!vHasKey(j.Definitions, n) || U_recastRAML(j.Definitions[n], r.Definitions[n]))
		})
	})
}

// restRAML: what the RAML dialect adds
func restRAML(b *BaseShape, r *JSONSchemaRAML) bool {
	a, d, f := b.CustomDomainProperties, b.CustomShapeFacetDefinitions, b.CustomShapeFacets
	return (r.Annotations == nil) == (vOMLen(a) == 0) && vOMLen(r.Annotations) == vOMLen(a) && annsUpTo(a, r.Annotations, vOMLen(a)) &&
		(r.FacetDefinitions == nil) == (vOMLen(d) == 0) && vOMLen(r.FacetDefinitions) == vOMLen(d) && facetDefsUpTo(d, r.FacetDefinitions, vOMLen(d)) &&
		(r.FacetData == nil) == (vOMLen(f) == 0) && vOMLen(r.FacetData) == vOMLen(f) && facetsUpTo(f, r.FacetData, vOMLen(f))
}

func annsUpTo(a *orderedmap.OrderedMap[string, *DomainExtension], r *orderedmap.OrderedMap[string, any], k int) bool {
	return vForAll(0, k, func(i int) bool {
		return vOMKey(r, i) == vOMKey(a, i) && vSame(vOMVal(r, i), vOMVal(a, i).Extension.Value)
	})
}

func facetsUpTo(a *orderedmap.OrderedMap[string, *Node], r *orderedmap.OrderedMap[string, any], k int) bool {
	return vForAll(0, k, func(i int) bool { return vOMKey(r, i) == vOMKey(a, i) && vSame(vOMVal(r, i), vOMVal(a, i).Value) })
}

func facetDefsUpTo(a *orderedmap.OrderedMap[string, Property], r *orderedmap.OrderedMap[string, *JSONSchemaRAML], k int) bool {
	return vForAll(0, k, func(i int) bool {
		return vOMKey(r, i) == vOMKey(a, i) && U_schemaRAML(vOMVal(a, i).Base.Shape, vOMVal(r, i))
	})
}

func nothingRAML(r *JSONSchemaRAML) bool {
	return r.Annotations == nil && r.FacetDefinitions == nil && r.FacetData == nil
}

func wrapped(core *JSONSchemaGeneric[*JSONSchemaRAML], b *BaseShape) {
	vEnsures("new", func(r *JSONSchemaRAML) bool { return newRAML(r) })
	vEnsures("the same keywords", func(r *JSONSchemaRAML) bool { return vSame(r.JSONSchemaGeneric, *core) })
	vEnsures("annotations and facets", func(r *JSONSchemaRAML) bool {
		if b == nil {
			return nothingRAML(r)
		}
		return restRAML(b, r)
	})
}

func contract__JSONSchemaWrapper(c *JSONSchemaConverter[*JSONSchemaRAML], core *JSONSchemaGeneric[*JSONSchemaRAML], b *BaseShape) {
	vProp("C10")
	convBaseRAML(c, b != nil)
	vRequires("schema", core != nil)
	vInvariant("type", b == nil || sConv(b))
	if b != nil {
		a, d, f := b.CustomDomainProperties, b.CustomShapeFacetDefinitions, b.CustomShapeFacets
		vLoopInv(func(k int, m *orderedmap.OrderedMap[string, any], p *orderedmap.Pair[string, *DomainExtension]) bool {
			return vFresh(m) && vOMLen(m) == k && annsUpTo(a, m, k)
		})
		vLoopInv(func(k int, m *orderedmap.OrderedMap[string, any], p *orderedmap.Pair[string, *Node]) bool {
			return vFresh(m) && vOMLen(m) == k && facetsUpTo(f, m, k)
		})
		vLoopInv(func(k int, m *orderedmap.OrderedMap[string, *JSONSchemaRAML]) bool {
			return vFresh(m) && vOMLen(m) == k && facetDefsUpTo(d, m, k)
		})
		vLoopInv(func(k int, w *JSONSchemaRAML) bool { return vFresh(w) && vSame(w.JSONSchemaGeneric, *core) })
		vLoopInv(func(k int, w *JSONSchemaRAML) bool {
			return w.Annotations == nil && vOMLen(a) == 0 || vOMLen(a) > 0 && vFresh(w.Annotations) && vOMLen(w.Annotations) == vOMLen(a) && annsUpTo(a, w.Annotations, vOMLen(a))
		})
		vLoopInv(func(k int, w *JSONSchemaRAML) bool {
			return w.FacetDefinitions == nil && vOMLen(d) == 0 || vOMLen(d) > 0 && vFresh(w.FacetDefinitions) && vOMLen(w.FacetDefinitions) == vOMLen(d) && facetDefsUpTo(d, w.FacetDefinitions, vOMLen(d))
		})
		vLoopInv(func(k int, w *JSONSchemaRAML) bool { return w.FacetData == nil })
		vLoopInv(func(k int, w *JSONSchemaRAML) bool { return w.FacetDefinitions == nil })
	}
	wrapped(core, b)
}

// contract__WrapperFunc: the wrapper of a RAML converter is JSONSchemaWrapper
func contract__WrapperFunc(fn WrapperFunc[*JSONSchemaRAML], c *JSONSchemaConverter[*JSONSchemaRAML], core *JSONSchemaGeneric[*JSONSchemaRAML], b *BaseShape) {
	vRequires("the RAML wrapper", vFuncID(fn) == vFuncID(JSONSchemaWrapper))
	convBaseRAML(c, b != nil)
	vRequires("schema", core != nil)
	vInvariant("type", b == nil || sConv(b))
	wrapped(core, b)
}
