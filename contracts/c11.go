package raml

import (
	"encoding/json"
	"strconv"

	orderedmap "github.com/wk8/go-ordered-map/v2"
)

// ---- C11: JSON Schema copies and maps. Generated by tools/gen11.py.

func sNum(p *uint64) json.Number {
	if p == nil {
		return ""
	}
	return json.Number(strconv.FormatUint(*p, 10))
}

func contract__uint64PtrToNumber(p *uint64) {
	vProp("C11")
	n := sNum(p)
	vEnsures("its decimal digits", func(r json.Number) bool { return r == n && (r == "") == (p == nil) })
}

func contract__boolPtr(p *bool) {
	vProp("C11")
	vEnsures("its value", func(r any) bool {
		if p == nil {
			return r == nil
		}
		b, ok := r.(bool)
		return ok && b == *p
	})
}

// the keyword k of m is set exactly when the field is, to its value

func mapStr(m map[string]any, k, s string) bool {
	v, ok := m[k].(string)
	return vHasKey(m, k) == (s != "") && (s == "" || ok && v == s)
}

func mapNum(m map[string]any, k string, s json.Number) bool {
	v, ok := m[k].(json.Number)
	return vHasKey(m, k) == (s != "") && (s == "" || ok && v == s)
}

func mapAny(m map[string]any, k string, v any) bool {
	return vHasKey(m, k) == (v != nil) && (v == nil || vSame(m[k], v))
}

func mapBool(m map[string]any, k string, p *bool) bool {
	v, ok := m[k].(bool)
	return vHasKey(m, k) == (p != nil) && (p == nil || ok && v == *p)
}

func mapAnys(m map[string]any, k string, l []any) bool {
	v, ok := m[k].([]any)
	return vHasKey(m, k) == (len(l) > 0) && (len(l) == 0 || ok && len(v) == len(l) &&
		vForAll(0, len(l), func(i int) bool { return vSame(v[i], l[i]) }))
}

func mapStrs(m map[string]any, k string, l []string) bool {
	v, ok := m[k].([]any)
	return vHasKey(m, k) == (len(l) > 0) && (len(l) == 0 || ok && len(v) == len(l) &&
		vForAll(0, len(l), func(i int) bool { return isStr(v[i], l[i]) }))
}

func isStr(v any, s string) bool {
	x, ok := v.(string)
	return ok && x == s
}

func copiedStrs(a, b []string) bool {
	return len(a) == len(b) && (a == nil) == (b == nil) && (b == nil || vFresh(b)) &&
		vForAll(0, len(a), func(i int) bool { return a[i] == b[i] })
}

func copiedAnys(a, b []any) bool {
	return len(a) == len(b) && (a == nil) == (b == nil) && (b == nil || vFresh(b)) &&
		vForAll(0, len(a), func(i int) bool { return vSame(a[i], b[i]) })
}

// ---- *JSONSchema

func UH_copyPlain(a, b *JSONSchema) bool               { return vDump(a) == vDump(b) }
func UH_mapPlain(a *JSONSchema, m map[string]any) bool { return vDump(a.Map()) == vDump(m) }

func subPlain(a, b *JSONSchema) bool {
	return (a == nil) == (b == nil) && UH_copyPlain(a, b) && (b == nil || vFresh(b))
}

func sameKeywordsPlain(a, b *JSONSchemaGeneric[*JSONSchema]) bool {
	return vSame(a.Version, b.Version) &&
		vSame(a.ID, b.ID) &&
		vSame(a.Ref, b.Ref) &&
		vSame(a.Comment, b.Comment) &&
		vSame(a.Type, b.Type) &&
		vSame(a.Const, b.Const) &&
		vSame(a.MultipleOf, b.MultipleOf) &&
		vSame(a.Maximum, b.Maximum) &&
		vSame(a.Minimum, b.Minimum) &&
		vSame(a.MaxLength, b.MaxLength) &&
		vSame(a.MinLength, b.MinLength) &&
		vSame(a.Pattern, b.Pattern) &&
		vSame(a.MaxItems, b.MaxItems) &&
		vSame(a.MinItems, b.MinItems) &&
		vSame(a.UniqueItems, b.UniqueItems) &&
		vSame(a.MaxContains, b.MaxContains) &&
		vSame(a.MinContains, b.MinContains) &&
		vSame(a.MaxProperties, b.MaxProperties) &&
		vSame(a.MinProperties, b.MinProperties) &&
		vSame(a.ContentEncoding, b.ContentEncoding) &&
		vSame(a.ContentMediaType, b.ContentMediaType) &&
		vSame(a.Format, b.Format) &&
		vSame(a.Title, b.Title) &&
		vSame(a.Description, b.Description) &&
		vSame(a.Default, b.Default) &&
		vSame(a.AdditionalProperties, b.AdditionalProperties)
}

func sameRestPlain(a, b *JSONSchemaGeneric[*JSONSchema]) bool {
	return vSame(a.Required, b.Required) &&
		vSame(a.Enum, b.Enum) &&
		vSame(a.Examples, b.Examples) &&
		vSame(a.AnyOf, b.AnyOf) &&
		vSame(a.AllOf, b.AllOf) &&
		vSame(a.OneOf, b.OneOf) &&
		vSame(a.Not, b.Not) &&
		vSame(a.If, b.If) &&
		vSame(a.Then, b.Then) &&
		vSame(a.Else, b.Else) &&
		vSame(a.Items, b.Items) &&
		vSame(a.PropertyNames, b.PropertyNames) &&
		vSame(a.Properties, b.Properties) &&
		vSame(a.PatternProperties, b.PatternProperties) &&
		vSame(a.Definitions, b.Definitions)
}

func copiedListPlain(a, b []*JSONSchema) bool {
	return len(a) == len(b) && (a == nil) == (b == nil) && (b == nil || vFresh(b)) &&
		vForAll(0, len(a), func(i int) bool { return subPlain(a[i], b[i]) })
}

func copiedMapPlain(a, b *orderedmap.OrderedMap[string, *JSONSchema]) bool {
	return (a == nil) == (b == nil) && (b == nil || vFresh(b)) && vOMLen(b) == vOMLen(a) && vForAll(0, vOMLen(a), func(i int) bool {
		return vOMKey(b, i) == vOMKey(a, i) && subPlain(vOMVal(a, i), vOMVal(b, i))
	})
}

func copiedDefsPlain(a, b map[string]*JSONSchema) bool {
	return (a == nil) == (b == nil) && (b == nil || vFresh(b)) && vForAllStr(func(k string) bool {
		return vHasKey(a, k) == vHasKey(b, k) && (!vHasKey(a, k) || subPlain(a[k], b[k]))
	})
}

func contract_JSONSchemaGenericPlain_ShallowCopy(js *JSONSchemaGeneric[*JSONSchema]) {
	vProp("C11")
	if js == nil {
		vEnsures("nil", func(r *JSONSchemaGeneric[*JSONSchema]) bool { return r == nil })
		return
	}
	vEnsures("new", func(r *JSONSchemaGeneric[*JSONSchema]) bool { return r != nil && vFresh(r) })
	vEnsures("every keyword", func(r *JSONSchemaGeneric[*JSONSchema]) bool { return sameKeywordsPlain(js, r) && sameRestPlain(js, r) })
}

func loopsPlain(js *JSONSchemaGeneric[*JSONSchema]) {
	anyOf, allOf, oneOf, p, pp, d := js.AnyOf, js.AllOf, js.OneOf, js.Properties, js.PatternProperties, js.Definitions
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchema]) bool { return listUpToPlain(anyOf, r.AnyOf, k) })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchema]) bool { return listUpToPlain(allOf, r.AllOf, k) })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchema]) bool { return listUpToPlain(oneOf, r.OneOf, k) })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchema]) bool { return mapUpToPlain(p, r.Properties, k) })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchema]) bool { return mapUpToPlain(pp, r.PatternProperties, k) })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchema]) bool {
		return vForAllStr(func(s string) bool {
			return vHasKey(r.Definitions, s) == vVisited(s) && (!vVisited(s) || subPlain(d[s], r.Definitions[s]))
		})
	})
}

func listUpToPlain(a, b []*JSONSchema, k int) bool {
	return vForAll(0, k, func(i int) bool { return subPlain(a[i], b[i]) })
}

func mapUpToPlain(a, b *orderedmap.OrderedMap[string, *JSONSchema], k int) bool {
	return vOMLen(b) == k && vForAll(0, k, func(i int) bool {
		return vOMKey(b, i) == vOMKey(a, i) && subPlain(vOMVal(a, i), vOMVal(b, i))
	})
}

func mapSubPlain(m map[string]any, k string, js *JSONSchema) bool {
	v, ok := m[k].(map[string]any)
	return vHasKey(m, k) == (js != nil) && (js == nil || ok && UH_mapPlain(js, v))
}

func isMapPlain(v any, js *JSONSchema) bool {
	m, ok := v.(map[string]any)
	return ok && (m == nil) == (js == nil) && UH_mapPlain(js, m)
}

func mapListPlain(m map[string]any, k string, l []*JSONSchema) bool {
	v, ok := m[k].([]any)
	return vHasKey(m, k) == (len(l) > 0) && (len(l) == 0 || ok && len(v) == len(l) &&
		vForAll(0, len(l), func(i int) bool { return isMapPlain(v[i], l[i]) }))
}

func mapOMPlain(m map[string]any, k string, l *orderedmap.OrderedMap[string, *JSONSchema]) bool {
	v, ok := m[k].(map[string]any)
	return vHasKey(m, k) == (vOMLen(l) > 0) && (vOMLen(l) == 0 || ok && vFresh(v) && !vSame(v, m) &&
		vForAll(0, vOMLen(l), func(i int) bool { return vHasKey(v, vOMKey(l, i)) && isMapPlain(v[vOMKey(l, i)], vOMVal(l, i)) }) &&
		vForAllStr(func(s string) bool { return !vHasKey(v, s) || vOMHas(l, s) }))
}

func mapDefsPlain(m map[string]any, k string, l map[string]*JSONSchema) bool {
	v, ok := m[k].(map[string]any)
	return vHasKey(m, k) == (len(l) > 0) && (len(l) == 0 || ok && vFresh(v) && !vSame(v, m) &&
		vForAllStr(func(s string) bool { return vHasKey(v, s) == vHasKey(l, s) && (!vHasKey(l, s) || isMapPlain(v[s], l[s])) }))
}

func mapLoopsPlain(js *JSONSchemaGeneric[*JSONSchema]) {
	req, anyOf, allOf, oneOf, p, pp, d := js.Required, js.AnyOf, js.AllOf, js.OneOf, js.Properties, js.PatternProperties, js.Definitions
	vLoopInv(func(k int, a []any) bool { return vForAll(0, k, func(i int) bool { return isStr(a[i], req[i]) }) })
	vLoopInv(func(k int, a []any) bool { return vForAll(0, k, func(i int) bool { return isMapPlain(a[i], anyOf[i]) }) })
	vLoopInv(func(k int, a []any) bool { return vForAll(0, k, func(i int) bool { return isMapPlain(a[i], allOf[i]) }) })
	vLoopInv(func(k int, a []any) bool { return vForAll(0, k, func(i int) bool { return isMapPlain(a[i], oneOf[i]) }) })
	vLoopInv(func(k int, m map[string]any) bool { return omMapUpToPlain(p, m, k) })
	vLoopInv(func(k int, m map[string]any) bool { return omMapUpToPlain(pp, m, k) })
	vLoopInv(func(k int, m map[string]any) bool {
		return vForAllStr(func(s string) bool {
			return vHasKey(m, s) == vVisited(s) && (!vVisited(s) || isMapPlain(m[s], d[s]))
		})
	})
}

func omMapUpToPlain(l *orderedmap.OrderedMap[string, *JSONSchema], m map[string]any, k int) bool {
	return vForAll(0, k, func(i int) bool { return vHasKey(m, vOMKey(l, i)) && isMapPlain(m[vOMKey(l, i)], vOMVal(l, i)) }) &&
		vForAllStr(func(s string) bool { return !vHasKey(m, s) || vOMHas(l, s) })
}

func contract_JSONSchemaGenericPlain_Map(js *JSONSchemaGeneric[*JSONSchema]) {
	vProp("C11")
	if js == nil {
		vEnsures("nil", func(r map[string]any) bool { return r == nil })
		return
	}
	mapLoopsPlain(js)
	vEnsures("new", func(r map[string]any) bool { return r != nil && vFresh(r) })
	ensMapPlain(js)
}

func ensMapPlain(js *JSONSchemaGeneric[*JSONSchema]) {
	vEnsures("$schema", func(m map[string]any) bool { return mapStr(m, "$schema", js.Version) })
	vEnsures("$id", func(m map[string]any) bool { return mapStr(m, "$id", js.ID) })
	vEnsures("$ref", func(m map[string]any) bool { return mapStr(m, "$ref", js.Ref) })
	vEnsures("$comment", func(m map[string]any) bool { return mapStr(m, "$comment", js.Comment) })
	vEnsures("type", func(m map[string]any) bool { return mapStr(m, "type", js.Type) })
	vEnsures("pattern", func(m map[string]any) bool { return mapStr(m, "pattern", js.Pattern) })
	vEnsures("contentEncoding", func(m map[string]any) bool { return mapStr(m, "contentEncoding", js.ContentEncoding) })
	vEnsures("contentMediaType", func(m map[string]any) bool { return mapStr(m, "contentMediaType", js.ContentMediaType) })
	vEnsures("format", func(m map[string]any) bool { return mapStr(m, "format", js.Format) })
	vEnsures("title", func(m map[string]any) bool { return mapStr(m, "title", js.Title) })
	vEnsures("description", func(m map[string]any) bool { return mapStr(m, "description", js.Description) })
	vEnsures("multipleOf", func(m map[string]any) bool { return mapNum(m, "multipleOf", js.MultipleOf) })
	vEnsures("maximum", func(m map[string]any) bool { return mapNum(m, "maximum", js.Maximum) })
	vEnsures("minimum", func(m map[string]any) bool { return mapNum(m, "minimum", js.Minimum) })
	vEnsures("maxLength", func(m map[string]any) bool { return mapNum(m, "maxLength", sNum(js.MaxLength)) })
	vEnsures("minLength", func(m map[string]any) bool { return mapNum(m, "minLength", sNum(js.MinLength)) })
	vEnsures("maxItems", func(m map[string]any) bool { return mapNum(m, "maxItems", sNum(js.MaxItems)) })
	vEnsures("minItems", func(m map[string]any) bool { return mapNum(m, "minItems", sNum(js.MinItems)) })
	vEnsures("maxContains", func(m map[string]any) bool { return mapNum(m, "maxContains", sNum(js.MaxContains)) })
	vEnsures("minContains", func(m map[string]any) bool { return mapNum(m, "minContains", sNum(js.MinContains)) })
	vEnsures("maxProperties", func(m map[string]any) bool { return mapNum(m, "maxProperties", sNum(js.MaxProperties)) })
	vEnsures("minProperties", func(m map[string]any) bool { return mapNum(m, "minProperties", sNum(js.MinProperties)) })
	vEnsures("uniqueItems", func(m map[string]any) bool { return mapBool(m, "uniqueItems", js.UniqueItems) })
	vEnsures("additionalProperties", func(m map[string]any) bool { return mapBool(m, "additionalProperties", js.AdditionalProperties) })
	vEnsures("const", func(m map[string]any) bool { return mapAny(m, "const", js.Const) })
	vEnsures("default", func(m map[string]any) bool { return mapAny(m, "default", js.Default) })
	vEnsures("enum", func(m map[string]any) bool { return mapAnys(m, "enum", js.Enum) })
	vEnsures("examples", func(m map[string]any) bool { return mapAnys(m, "examples", js.Examples) })
	vEnsures("required", func(m map[string]any) bool { return mapStrs(m, "required", js.Required) })
	vEnsures("anyOf", func(m map[string]any) bool { return mapListPlain(m, "anyOf", js.AnyOf) })
	vEnsures("allOf", func(m map[string]any) bool { return mapListPlain(m, "allOf", js.AllOf) })
	vEnsures("oneOf", func(m map[string]any) bool { return mapListPlain(m, "oneOf", js.OneOf) })
	vEnsures("not", func(m map[string]any) bool { return mapSubPlain(m, "not", js.Not) })
	vEnsures("if", func(m map[string]any) bool { return mapSubPlain(m, "if", js.If) })
	vEnsures("then", func(m map[string]any) bool { return mapSubPlain(m, "then", js.Then) })
	vEnsures("else", func(m map[string]any) bool { return mapSubPlain(m, "else", js.Else) })
	vEnsures("items", func(m map[string]any) bool { return mapSubPlain(m, "items", js.Items) })
	vEnsures("propertyNames", func(m map[string]any) bool { return mapSubPlain(m, "propertyNames", js.PropertyNames) })
	vEnsures("properties", func(m map[string]any) bool { return mapOMPlain(m, "properties", js.Properties) })
	vEnsures("patternProperties", func(m map[string]any) bool { return mapOMPlain(m, "patternProperties", js.PatternProperties) })
	vEnsures("definitions", func(m map[string]any) bool { return mapDefsPlain(m, "definitions", js.Definitions) })
	vEnsures("no other keyword", func(m map[string]any) bool {
		return vForAllStr(func(s string) bool {
			return !vHasKey(m, s) || s == "$schema" ||
				s == "$id" ||
				s == "$ref" ||
				s == "$comment" ||
				s == "type" ||
				s == "pattern" ||
				s == "contentEncoding" ||
				s == "contentMediaType" ||
				s == "format" ||
				s == "title" ||
				s == "description" ||
				s == "multipleOf" ||
				s == "maximum" ||
				s == "minimum" ||
				s == "maxLength" ||
				s == "minLength" ||
				s == "maxItems" ||
				s == "minItems" ||
				s == "maxContains" ||
				s == "minContains" ||
				s == "maxProperties" ||
				s == "minProperties" ||
				s == "uniqueItems" ||
				s == "additionalProperties" ||
				s == "const" ||
				s == "default" ||
				s == "enum" ||
				s == "examples" ||
				s == "required" ||
				s == "anyOf" ||
				s == "allOf" ||
				s == "oneOf" ||
				s == "not" ||
				s == "if" ||
				s == "then" ||
				s == "else" ||
				s == "items" ||
				s == "propertyNames" ||
				s == "properties" ||
				s == "patternProperties" ||
				s == "definitions"
		})
	})
}

func contract_JSONSchema_Map(js *JSONSchema) {
	vProp("C11")
	vDefine("map", func(r map[string]any) bool { return UH_mapPlain(js, r) })
	if js == nil {
		vEnsures("nil", func(r map[string]any) bool { return r == nil })
		return
	}
	vEnsures("new", func(r map[string]any) bool { return r != nil && vFresh(r) })
	g := &js.JSONSchemaGeneric
	vProve("$schema", func(m map[string]any) bool { return mapStr(m, "$schema", g.Version) })
	vProve("$id", func(m map[string]any) bool { return mapStr(m, "$id", g.ID) })
	vProve("$ref", func(m map[string]any) bool { return mapStr(m, "$ref", g.Ref) })
	vProve("$comment", func(m map[string]any) bool { return mapStr(m, "$comment", g.Comment) })
	vProve("type", func(m map[string]any) bool { return mapStr(m, "type", g.Type) })
	vProve("pattern", func(m map[string]any) bool { return mapStr(m, "pattern", g.Pattern) })
	vProve("contentEncoding", func(m map[string]any) bool { return mapStr(m, "contentEncoding", g.ContentEncoding) })
	vProve("contentMediaType", func(m map[string]any) bool { return mapStr(m, "contentMediaType", g.ContentMediaType) })
	vProve("format", func(m map[string]any) bool { return mapStr(m, "format", g.Format) })
	vProve("title", func(m map[string]any) bool { return mapStr(m, "title", g.Title) })
	vProve("description", func(m map[string]any) bool { return mapStr(m, "description", g.Description) })
	vProve("multipleOf", func(m map[string]any) bool { return mapNum(m, "multipleOf", g.MultipleOf) })
	vProve("maximum", func(m map[string]any) bool { return mapNum(m, "maximum", g.Maximum) })
	vProve("minimum", func(m map[string]any) bool { return mapNum(m, "minimum", g.Minimum) })
	vProve("maxLength", func(m map[string]any) bool { return mapNum(m, "maxLength", sNum(g.MaxLength)) })
	vProve("minLength", func(m map[string]any) bool { return mapNum(m, "minLength", sNum(g.MinLength)) })
	vProve("maxItems", func(m map[string]any) bool { return mapNum(m, "maxItems", sNum(g.MaxItems)) })
	vProve("minItems", func(m map[string]any) bool { return mapNum(m, "minItems", sNum(g.MinItems)) })
	vProve("maxContains", func(m map[string]any) bool { return mapNum(m, "maxContains", sNum(g.MaxContains)) })
	vProve("minContains", func(m map[string]any) bool { return mapNum(m, "minContains", sNum(g.MinContains)) })
	vProve("maxProperties", func(m map[string]any) bool { return mapNum(m, "maxProperties", sNum(g.MaxProperties)) })
	vProve("minProperties", func(m map[string]any) bool { return mapNum(m, "minProperties", sNum(g.MinProperties)) })
	vProve("uniqueItems", func(m map[string]any) bool { return mapBool(m, "uniqueItems", g.UniqueItems) })
	vProve("additionalProperties", func(m map[string]any) bool { return mapBool(m, "additionalProperties", g.AdditionalProperties) })
	vProve("const", func(m map[string]any) bool { return mapAny(m, "const", g.Const) })
	vProve("default", func(m map[string]any) bool { return mapAny(m, "default", g.Default) })
	vProve("enum", func(m map[string]any) bool { return mapAnys(m, "enum", g.Enum) })
	vProve("examples", func(m map[string]any) bool { return mapAnys(m, "examples", g.Examples) })
	vProve("required", func(m map[string]any) bool { return mapStrs(m, "required", g.Required) })
	vProve("anyOf", func(m map[string]any) bool { return mapListPlain(m, "anyOf", g.AnyOf) })
	vProve("allOf", func(m map[string]any) bool { return mapListPlain(m, "allOf", g.AllOf) })
	vProve("oneOf", func(m map[string]any) bool { return mapListPlain(m, "oneOf", g.OneOf) })
	vProve("not", func(m map[string]any) bool { return mapSubPlain(m, "not", g.Not) })
	vProve("if", func(m map[string]any) bool { return mapSubPlain(m, "if", g.If) })
	vProve("then", func(m map[string]any) bool { return mapSubPlain(m, "then", g.Then) })
	vProve("else", func(m map[string]any) bool { return mapSubPlain(m, "else", g.Else) })
	vProve("items", func(m map[string]any) bool { return mapSubPlain(m, "items", g.Items) })
	vProve("propertyNames", func(m map[string]any) bool { return mapSubPlain(m, "propertyNames", g.PropertyNames) })
	vProve("properties", func(m map[string]any) bool { return mapOMPlain(m, "properties", g.Properties) })
	vProve("patternProperties", func(m map[string]any) bool { return mapOMPlain(m, "patternProperties", g.PatternProperties) })
	vProve("definitions", func(m map[string]any) bool { return mapDefsPlain(m, "definitions", g.Definitions) })
	vProve("no other keyword", func(m map[string]any) bool {
		return vForAllStr(func(s string) bool {
			return !vHasKey(m, s) || s == "$schema" ||
				s == "$id" ||
				s == "$ref" ||
				s == "$comment" ||
				s == "type" ||
				s == "pattern" ||
				s == "contentEncoding" ||
				s == "contentMediaType" ||
				s == "format" ||
				s == "title" ||
				s == "description" ||
				s == "multipleOf" ||
				s == "maximum" ||
				s == "minimum" ||
				s == "maxLength" ||
				s == "minLength" ||
				s == "maxItems" ||
				s == "minItems" ||
				s == "maxContains" ||
				s == "minContains" ||
				s == "maxProperties" ||
				s == "minProperties" ||
				s == "uniqueItems" ||
				s == "additionalProperties" ||
				s == "const" ||
				s == "default" ||
				s == "enum" ||
				s == "examples" ||
				s == "required" ||
				s == "anyOf" ||
				s == "allOf" ||
				s == "oneOf" ||
				s == "not" ||
				s == "if" ||
				s == "then" ||
				s == "else" ||
				s == "items" ||
				s == "propertyNames" ||
				s == "properties" ||
				s == "patternProperties" ||
				s == "definitions"
		})
	})
}

func contract_JSONSchema_ShallowCopy(js *JSONSchema) {
	vProp("C11")
	if js == nil {
		vEnsures("nil", func(r *JSONSchema) bool { return r == nil })
		return
	}
	vEnsures("new", func(r *JSONSchema) bool { return r != nil && vFresh(r) })
	vEnsures("every keyword", func(r *JSONSchema) bool {
		return sameKeywordsPlain(&js.JSONSchemaGeneric, &r.JSONSchemaGeneric) && sameRestPlain(&js.JSONSchemaGeneric, &r.JSONSchemaGeneric)
	})
}

func contract_JSONSchemaGenericPlain_DeepCopy(js *JSONSchemaGeneric[*JSONSchema]) {
	vProp("C11")
	if js == nil {
		vEnsures("nil", func(r *JSONSchemaGeneric[*JSONSchema]) bool { return r == nil })
		return
	}
	loopsPlain(js)
	vEnsures("new", func(r *JSONSchemaGeneric[*JSONSchema]) bool { return r != nil && vFresh(r) })
	vEnsures("every keyword copied", func(r *JSONSchemaGeneric[*JSONSchema]) bool { return sameKeywordsPlain(js, r) })
	vEnsures("Required copied", func(r *JSONSchemaGeneric[*JSONSchema]) bool { return copiedStrs(js.Required, r.Required) })
	vEnsures("Enum copied", func(r *JSONSchemaGeneric[*JSONSchema]) bool { return copiedAnys(js.Enum, r.Enum) })
	vEnsures("Examples copied", func(r *JSONSchemaGeneric[*JSONSchema]) bool { return copiedAnys(js.Examples, r.Examples) })
	vEnsures("AnyOf copied", func(r *JSONSchemaGeneric[*JSONSchema]) bool { return copiedListPlain(js.AnyOf, r.AnyOf) })
	vEnsures("AllOf copied", func(r *JSONSchemaGeneric[*JSONSchema]) bool { return copiedListPlain(js.AllOf, r.AllOf) })
	vEnsures("OneOf copied", func(r *JSONSchemaGeneric[*JSONSchema]) bool { return copiedListPlain(js.OneOf, r.OneOf) })
	vEnsures("nested schemas copied", func(r *JSONSchemaGeneric[*JSONSchema]) bool { return subPlain(js.Not, r.Not) && subPlain(js.If, r.If) && subPlain(js.Then, r.Then) && subPlain(js.Else, r.Else) && subPlain(js.Items, r.Items) && subPlain(js.PropertyNames, r.PropertyNames) })
	vEnsures("Properties copied", func(r *JSONSchemaGeneric[*JSONSchema]) bool { return copiedMapPlain(js.Properties, r.Properties) })
	vEnsures("PatternProperties copied", func(r *JSONSchemaGeneric[*JSONSchema]) bool { return copiedMapPlain(js.PatternProperties, r.PatternProperties) })
	vEnsures("Definitions copied", func(r *JSONSchemaGeneric[*JSONSchema]) bool { return copiedDefsPlain(js.Definitions, r.Definitions) })
}

func contract_JSONSchema_DeepCopy(js *JSONSchema) {
	vProp("C11")
	vDefine("copy", func(r *JSONSchema) bool { return UH_copyPlain(js, r) })
	if js == nil {
		vEnsures("nil", func(r *JSONSchema) bool { return r == nil })
		return
	}
	vEnsures("new", func(r *JSONSchema) bool { return r != nil && vFresh(r) })
	vProve("every keyword copied", func(r *JSONSchema) bool { return sameKeywordsPlain(&js.JSONSchemaGeneric, &r.JSONSchemaGeneric) })
	vProve("Required copied", func(r *JSONSchema) bool { return copiedStrs(js.JSONSchemaGeneric.Required, r.JSONSchemaGeneric.Required) })
	vProve("Enum copied", func(r *JSONSchema) bool { return copiedAnys(js.JSONSchemaGeneric.Enum, r.JSONSchemaGeneric.Enum) })
	vProve("Examples copied", func(r *JSONSchema) bool { return copiedAnys(js.JSONSchemaGeneric.Examples, r.JSONSchemaGeneric.Examples) })
	vProve("AnyOf copied", func(r *JSONSchema) bool { return copiedListPlain(js.JSONSchemaGeneric.AnyOf, r.JSONSchemaGeneric.AnyOf) })
	vProve("AllOf copied", func(r *JSONSchema) bool { return copiedListPlain(js.JSONSchemaGeneric.AllOf, r.JSONSchemaGeneric.AllOf) })
	vProve("OneOf copied", func(r *JSONSchema) bool { return copiedListPlain(js.JSONSchemaGeneric.OneOf, r.JSONSchemaGeneric.OneOf) })
	vProve("nested schemas copied", func(r *JSONSchema) bool { return subPlain(js.JSONSchemaGeneric.Not, r.JSONSchemaGeneric.Not) && subPlain(js.JSONSchemaGeneric.If, r.JSONSchemaGeneric.If) && subPlain(js.JSONSchemaGeneric.Then, r.JSONSchemaGeneric.Then) && subPlain(js.JSONSchemaGeneric.Else, r.JSONSchemaGeneric.Else) && subPlain(js.JSONSchemaGeneric.Items, r.JSONSchemaGeneric.Items) && subPlain(js.JSONSchemaGeneric.PropertyNames, r.JSONSchemaGeneric.PropertyNames) })
	vProve("Properties copied", func(r *JSONSchema) bool { return copiedMapPlain(js.JSONSchemaGeneric.Properties, r.JSONSchemaGeneric.Properties) })
	vProve("PatternProperties copied", func(r *JSONSchema) bool { return copiedMapPlain(js.JSONSchemaGeneric.PatternProperties, r.JSONSchemaGeneric.PatternProperties) })
	vProve("Definitions copied", func(r *JSONSchema) bool { return copiedDefsPlain(js.JSONSchemaGeneric.Definitions, r.JSONSchemaGeneric.Definitions) })
}

// ---- *JSONSchemaRAML

func UH_copyRAML(a, b *JSONSchemaRAML) bool               { return vDump(a) == vDump(b) }
func UH_mapRAML(a *JSONSchemaRAML, m map[string]any) bool { return vDump(a.Map()) == vDump(m) }

func subRAML(a, b *JSONSchemaRAML) bool {
	return (a == nil) == (b == nil) && UH_copyRAML(a, b) && (b == nil || vFresh(b))
}

func sameKeywordsRAML(a, b *JSONSchemaGeneric[*JSONSchemaRAML]) bool {
	return vSame(a.Version, b.Version) &&
		vSame(a.ID, b.ID) &&
		vSame(a.Ref, b.Ref) &&
		vSame(a.Comment, b.Comment) &&
		vSame(a.Type, b.Type) &&
		vSame(a.Const, b.Const) &&
		vSame(a.MultipleOf, b.MultipleOf) &&
		vSame(a.Maximum, b.Maximum) &&
		vSame(a.Minimum, b.Minimum) &&
		vSame(a.MaxLength, b.MaxLength) &&
		vSame(a.MinLength, b.MinLength) &&
		vSame(a.Pattern, b.Pattern) &&
		vSame(a.MaxItems, b.MaxItems) &&
		vSame(a.MinItems, b.MinItems) &&
		vSame(a.UniqueItems, b.UniqueItems) &&
		vSame(a.MaxContains, b.MaxContains) &&
		vSame(a.MinContains, b.MinContains) &&
		vSame(a.MaxProperties, b.MaxProperties) &&
		vSame(a.MinProperties, b.MinProperties) &&
		vSame(a.ContentEncoding, b.ContentEncoding) &&
		vSame(a.ContentMediaType, b.ContentMediaType) &&
		vSame(a.Format, b.Format) &&
		vSame(a.Title, b.Title) &&
		vSame(a.Description, b.Description) &&
		vSame(a.Default, b.Default) &&
		vSame(a.AdditionalProperties, b.AdditionalProperties)
}

func sameRestRAML(a, b *JSONSchemaGeneric[*JSONSchemaRAML]) bool {
	return vSame(a.Required, b.Required) &&
		vSame(a.Enum, b.Enum) &&
		vSame(a.Examples, b.Examples) &&
		vSame(a.AnyOf, b.AnyOf) &&
		vSame(a.AllOf, b.AllOf) &&
		vSame(a.OneOf, b.OneOf) &&
		vSame(a.Not, b.Not) &&
		vSame(a.If, b.If) &&
		vSame(a.Then, b.Then) &&
		vSame(a.Else, b.Else) &&
		vSame(a.Items, b.Items) &&
		vSame(a.PropertyNames, b.PropertyNames) &&
		vSame(a.Properties, b.Properties) &&
		vSame(a.PatternProperties, b.PatternProperties) &&
		vSame(a.Definitions, b.Definitions)
}

func copiedListRAML(a, b []*JSONSchemaRAML) bool {
	return len(a) == len(b) && (a == nil) == (b == nil) && (b == nil || vFresh(b)) &&
		vForAll(0, len(a), func(i int) bool { return subRAML(a[i], b[i]) })
}

func copiedMapRAML(a, b *orderedmap.OrderedMap[string, *JSONSchemaRAML]) bool {
	return (a == nil) == (b == nil) && (b == nil || vFresh(b)) && vOMLen(b) == vOMLen(a) && vForAll(0, vOMLen(a), func(i int) bool {
		return vOMKey(b, i) == vOMKey(a, i) && subRAML(vOMVal(a, i), vOMVal(b, i))
	})
}

func copiedDefsRAML(a, b map[string]*JSONSchemaRAML) bool {
	return (a == nil) == (b == nil) && (b == nil || vFresh(b)) && vForAllStr(func(k string) bool {
		return vHasKey(a, k) == vHasKey(b, k) && (!vHasKey(a, k) || subRAML(a[k], b[k]))
	})
}

func contract_JSONSchemaGenericRAML_ShallowCopy(js *JSONSchemaGeneric[*JSONSchemaRAML]) {
	vProp("C11")
	if js == nil {
		vEnsures("nil", func(r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return r == nil })
		return
	}
	vEnsures("new", func(r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return r != nil && vFresh(r) })
	vEnsures("every keyword", func(r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return sameKeywordsRAML(js, r) && sameRestRAML(js, r) })
}

func loopsRAML(js *JSONSchemaGeneric[*JSONSchemaRAML]) {
	anyOf, allOf, oneOf, p, pp, d := js.AnyOf, js.AllOf, js.OneOf, js.Properties, js.PatternProperties, js.Definitions
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return listUpToRAML(anyOf, r.AnyOf, k) })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return listUpToRAML(allOf, r.AllOf, k) })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return listUpToRAML(oneOf, r.OneOf, k) })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return mapUpToRAML(p, r.Properties, k) })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return mapUpToRAML(pp, r.PatternProperties, k) })
	vLoopInv(func(k int, r *JSONSchemaGeneric[*JSONSchemaRAML]) bool {
		return vForAllStr(func(s string) bool {
			return vHasKey(r.Definitions, s) == vVisited(s) && (!vVisited(s) || subRAML(d[s], r.Definitions[s]))
		})
	})
}

func listUpToRAML(a, b []*JSONSchemaRAML, k int) bool {
	return vForAll(0, k, func(i int) bool { return subRAML(a[i], b[i]) })
}

func mapUpToRAML(a, b *orderedmap.OrderedMap[string, *JSONSchemaRAML], k int) bool {
	return vOMLen(b) == k && vForAll(0, k, func(i int) bool {
		return vOMKey(b, i) == vOMKey(a, i) && subRAML(vOMVal(a, i), vOMVal(b, i))
	})
}

func mapSubRAML(m map[string]any, k string, js *JSONSchemaRAML) bool {
	v, ok := m[k].(map[string]any)
	return vHasKey(m, k) == (js != nil) && (js == nil || ok && UH_mapRAML(js, v))
}

func isMapRAML(v any, js *JSONSchemaRAML) bool {
	m, ok := v.(map[string]any)
	return ok && (m == nil) == (js == nil) && UH_mapRAML(js, m)
}

func mapListRAML(m map[string]any, k string, l []*JSONSchemaRAML) bool {
	v, ok := m[k].([]any)
	return vHasKey(m, k) == (len(l) > 0) && (len(l) == 0 || ok && len(v) == len(l) &&
		vForAll(0, len(l), func(i int) bool { return isMapRAML(v[i], l[i]) }))
}

func mapOMRAML(m map[string]any, k string, l *orderedmap.OrderedMap[string, *JSONSchemaRAML]) bool {
	v, ok := m[k].(map[string]any)
	return vHasKey(m, k) == (vOMLen(l) > 0) && (vOMLen(l) == 0 || ok && vFresh(v) && !vSame(v, m) &&
		vForAll(0, vOMLen(l), func(i int) bool { return vHasKey(v, vOMKey(l, i)) && isMapRAML(v[vOMKey(l, i)], vOMVal(l, i)) }) &&
		vForAllStr(func(s string) bool { return !vHasKey(v, s) || vOMHas(l, s) }))
}

func mapDefsRAML(m map[string]any, k string, l map[string]*JSONSchemaRAML) bool {
	v, ok := m[k].(map[string]any)
	return vHasKey(m, k) == (len(l) > 0) && (len(l) == 0 || ok && vFresh(v) && !vSame(v, m) &&
		vForAllStr(func(s string) bool { return vHasKey(v, s) == vHasKey(l, s) && (!vHasKey(l, s) || isMapRAML(v[s], l[s])) }))
}

func mapLoopsRAML(js *JSONSchemaGeneric[*JSONSchemaRAML]) {
	req, anyOf, allOf, oneOf, p, pp, d := js.Required, js.AnyOf, js.AllOf, js.OneOf, js.Properties, js.PatternProperties, js.Definitions
	vLoopInv(func(k int, a []any) bool { return vForAll(0, k, func(i int) bool { return isStr(a[i], req[i]) }) })
	vLoopInv(func(k int, a []any) bool { return vForAll(0, k, func(i int) bool { return isMapRAML(a[i], anyOf[i]) }) })
	vLoopInv(func(k int, a []any) bool { return vForAll(0, k, func(i int) bool { return isMapRAML(a[i], allOf[i]) }) })
	vLoopInv(func(k int, a []any) bool { return vForAll(0, k, func(i int) bool { return isMapRAML(a[i], oneOf[i]) }) })
	vLoopInv(func(k int, m map[string]any) bool { return omMapUpToRAML(p, m, k) })
	vLoopInv(func(k int, m map[string]any) bool { return omMapUpToRAML(pp, m, k) })
	vLoopInv(func(k int, m map[string]any) bool {
		return vForAllStr(func(s string) bool {
			return vHasKey(m, s) == vVisited(s) && (!vVisited(s) || isMapRAML(m[s], d[s]))
		})
	})
}

func omMapUpToRAML(l *orderedmap.OrderedMap[string, *JSONSchemaRAML], m map[string]any, k int) bool {
	return vForAll(0, k, func(i int) bool { return vHasKey(m, vOMKey(l, i)) && isMapRAML(m[vOMKey(l, i)], vOMVal(l, i)) }) &&
		vForAllStr(func(s string) bool { return !vHasKey(m, s) || vOMHas(l, s) })
}

func contract_JSONSchemaGenericRAML_Map(js *JSONSchemaGeneric[*JSONSchemaRAML]) {
	vProp("C11")
	if js == nil {
		vEnsures("nil", func(r map[string]any) bool { return r == nil })
		return
	}
	mapLoopsRAML(js)
	vEnsures("new", func(r map[string]any) bool { return r != nil && vFresh(r) })
	ensMapRAML(js)
}

func ensMapRAML(js *JSONSchemaGeneric[*JSONSchemaRAML]) {
	vEnsures("$schema", func(m map[string]any) bool { return mapStr(m, "$schema", js.Version) })
	vEnsures("$id", func(m map[string]any) bool { return mapStr(m, "$id", js.ID) })
	vEnsures("$ref", func(m map[string]any) bool { return mapStr(m, "$ref", js.Ref) })
	vEnsures("$comment", func(m map[string]any) bool { return mapStr(m, "$comment", js.Comment) })
	vEnsures("type", func(m map[string]any) bool { return mapStr(m, "type", js.Type) })
	vEnsures("pattern", func(m map[string]any) bool { return mapStr(m, "pattern", js.Pattern) })
	vEnsures("contentEncoding", func(m map[string]any) bool { return mapStr(m, "contentEncoding", js.ContentEncoding) })
	vEnsures("contentMediaType", func(m map[string]any) bool { return mapStr(m, "contentMediaType", js.ContentMediaType) })
	vEnsures("format", func(m map[string]any) bool { return mapStr(m, "format", js.Format) })
	vEnsures("title", func(m map[string]any) bool { return mapStr(m, "title", js.Title) })
	vEnsures("description", func(m map[string]any) bool { return mapStr(m, "description", js.Description) })
	vEnsures("multipleOf", func(m map[string]any) bool { return mapNum(m, "multipleOf", js.MultipleOf) })
	vEnsures("maximum", func(m map[string]any) bool { return mapNum(m, "maximum", js.Maximum) })
	vEnsures("minimum", func(m map[string]any) bool { return mapNum(m, "minimum", js.Minimum) })
	vEnsures("maxLength", func(m map[string]any) bool { return mapNum(m, "maxLength", sNum(js.MaxLength)) })
	vEnsures("minLength", func(m map[string]any) bool { return mapNum(m, "minLength", sNum(js.MinLength)) })
	vEnsures("maxItems", func(m map[string]any) bool { return mapNum(m, "maxItems", sNum(js.MaxItems)) })
	vEnsures("minItems", func(m map[string]any) bool { return mapNum(m, "minItems", sNum(js.MinItems)) })
	vEnsures("maxContains", func(m map[string]any) bool { return mapNum(m, "maxContains", sNum(js.MaxContains)) })
	vEnsures("minContains", func(m map[string]any) bool { return mapNum(m, "minContains", sNum(js.MinContains)) })
	vEnsures("maxProperties", func(m map[string]any) bool { return mapNum(m, "maxProperties", sNum(js.MaxProperties)) })
	vEnsures("minProperties", func(m map[string]any) bool { return mapNum(m, "minProperties", sNum(js.MinProperties)) })
	vEnsures("uniqueItems", func(m map[string]any) bool { return mapBool(m, "uniqueItems", js.UniqueItems) })
	vEnsures("additionalProperties", func(m map[string]any) bool { return mapBool(m, "additionalProperties", js.AdditionalProperties) })
	vEnsures("const", func(m map[string]any) bool { return mapAny(m, "const", js.Const) })
	vEnsures("default", func(m map[string]any) bool { return mapAny(m, "default", js.Default) })
	vEnsures("enum", func(m map[string]any) bool { return mapAnys(m, "enum", js.Enum) })
	vEnsures("examples", func(m map[string]any) bool { return mapAnys(m, "examples", js.Examples) })
	vEnsures("required", func(m map[string]any) bool { return mapStrs(m, "required", js.Required) })
	vEnsures("anyOf", func(m map[string]any) bool { return mapListRAML(m, "anyOf", js.AnyOf) })
	vEnsures("allOf", func(m map[string]any) bool { return mapListRAML(m, "allOf", js.AllOf) })
	vEnsures("oneOf", func(m map[string]any) bool { return mapListRAML(m, "oneOf", js.OneOf) })
	vEnsures("not", func(m map[string]any) bool { return mapSubRAML(m, "not", js.Not) })
	vEnsures("if", func(m map[string]any) bool { return mapSubRAML(m, "if", js.If) })
	vEnsures("then", func(m map[string]any) bool { return mapSubRAML(m, "then", js.Then) })
	vEnsures("else", func(m map[string]any) bool { return mapSubRAML(m, "else", js.Else) })
	vEnsures("items", func(m map[string]any) bool { return mapSubRAML(m, "items", js.Items) })
	vEnsures("propertyNames", func(m map[string]any) bool { return mapSubRAML(m, "propertyNames", js.PropertyNames) })
	vEnsures("properties", func(m map[string]any) bool { return mapOMRAML(m, "properties", js.Properties) })
	vEnsures("patternProperties", func(m map[string]any) bool { return mapOMRAML(m, "patternProperties", js.PatternProperties) })
	vEnsures("definitions", func(m map[string]any) bool { return mapDefsRAML(m, "definitions", js.Definitions) })
	vEnsures("no other keyword", func(m map[string]any) bool {
		return vForAllStr(func(s string) bool {
			return !vHasKey(m, s) || s == "$schema" ||
				s == "$id" ||
				s == "$ref" ||
				s == "$comment" ||
				s == "type" ||
				s == "pattern" ||
				s == "contentEncoding" ||
				s == "contentMediaType" ||
				s == "format" ||
				s == "title" ||
				s == "description" ||
				s == "multipleOf" ||
				s == "maximum" ||
				s == "minimum" ||
				s == "maxLength" ||
				s == "minLength" ||
				s == "maxItems" ||
				s == "minItems" ||
				s == "maxContains" ||
				s == "minContains" ||
				s == "maxProperties" ||
				s == "minProperties" ||
				s == "uniqueItems" ||
				s == "additionalProperties" ||
				s == "const" ||
				s == "default" ||
				s == "enum" ||
				s == "examples" ||
				s == "required" ||
				s == "anyOf" ||
				s == "allOf" ||
				s == "oneOf" ||
				s == "not" ||
				s == "if" ||
				s == "then" ||
				s == "else" ||
				s == "items" ||
				s == "propertyNames" ||
				s == "properties" ||
				s == "patternProperties" ||
				s == "definitions"
		})
	})
}

func contract_JSONSchemaRAML_Map(js *JSONSchemaRAML) {
	vProp("C11")
	vDefine("map", func(r map[string]any) bool { return UH_mapRAML(js, r) })
	if js == nil {
		vEnsures("nil", func(r map[string]any) bool { return r == nil })
		return
	}
	vEnsures("new", func(r map[string]any) bool { return r != nil && vFresh(r) })
	g := &js.JSONSchemaGeneric
	vProve("$schema", func(m map[string]any) bool { return mapStr(m, "$schema", g.Version) })
	vProve("$id", func(m map[string]any) bool { return mapStr(m, "$id", g.ID) })
	vProve("$ref", func(m map[string]any) bool { return mapStr(m, "$ref", g.Ref) })
	vProve("$comment", func(m map[string]any) bool { return mapStr(m, "$comment", g.Comment) })
	vProve("type", func(m map[string]any) bool { return mapStr(m, "type", g.Type) })
	vProve("pattern", func(m map[string]any) bool { return mapStr(m, "pattern", g.Pattern) })
	vProve("contentEncoding", func(m map[string]any) bool { return mapStr(m, "contentEncoding", g.ContentEncoding) })
	vProve("contentMediaType", func(m map[string]any) bool { return mapStr(m, "contentMediaType", g.ContentMediaType) })
	vProve("format", func(m map[string]any) bool { return mapStr(m, "format", g.Format) })
	vProve("title", func(m map[string]any) bool { return mapStr(m, "title", g.Title) })
	vProve("description", func(m map[string]any) bool { return mapStr(m, "description", g.Description) })
	vProve("multipleOf", func(m map[string]any) bool { return mapNum(m, "multipleOf", g.MultipleOf) })
	vProve("maximum", func(m map[string]any) bool { return mapNum(m, "maximum", g.Maximum) })
	vProve("minimum", func(m map[string]any) bool { return mapNum(m, "minimum", g.Minimum) })
	vProve("maxLength", func(m map[string]any) bool { return mapNum(m, "maxLength", sNum(g.MaxLength)) })
	vProve("minLength", func(m map[string]any) bool { return mapNum(m, "minLength", sNum(g.MinLength)) })
	vProve("maxItems", func(m map[string]any) bool { return mapNum(m, "maxItems", sNum(g.MaxItems)) })
	vProve("minItems", func(m map[string]any) bool { return mapNum(m, "minItems", sNum(g.MinItems)) })
	vProve("maxContains", func(m map[string]any) bool { return mapNum(m, "maxContains", sNum(g.MaxContains)) })
	vProve("minContains", func(m map[string]any) bool { return mapNum(m, "minContains", sNum(g.MinContains)) })
	vProve("maxProperties", func(m map[string]any) bool { return mapNum(m, "maxProperties", sNum(g.MaxProperties)) })
	vProve("minProperties", func(m map[string]any) bool { return mapNum(m, "minProperties", sNum(g.MinProperties)) })
	vProve("uniqueItems", func(m map[string]any) bool { return mapBool(m, "uniqueItems", g.UniqueItems) })
	vProve("additionalProperties", func(m map[string]any) bool { return mapBool(m, "additionalProperties", g.AdditionalProperties) })
	vProve("const", func(m map[string]any) bool { return mapAny(m, "const", g.Const) })
	vProve("default", func(m map[string]any) bool { return mapAny(m, "default", g.Default) })
	vProve("enum", func(m map[string]any) bool { return mapAnys(m, "enum", g.Enum) })
	vProve("examples", func(m map[string]any) bool { return mapAnys(m, "examples", g.Examples) })
	vProve("required", func(m map[string]any) bool { return mapStrs(m, "required", g.Required) })
	vProve("anyOf", func(m map[string]any) bool { return mapListRAML(m, "anyOf", g.AnyOf) })
	vProve("allOf", func(m map[string]any) bool { return mapListRAML(m, "allOf", g.AllOf) })
	vProve("oneOf", func(m map[string]any) bool { return mapListRAML(m, "oneOf", g.OneOf) })
	vProve("not", func(m map[string]any) bool { return mapSubRAML(m, "not", g.Not) })
	vProve("if", func(m map[string]any) bool { return mapSubRAML(m, "if", g.If) })
	vProve("then", func(m map[string]any) bool { return mapSubRAML(m, "then", g.Then) })
	vProve("else", func(m map[string]any) bool { return mapSubRAML(m, "else", g.Else) })
	vProve("items", func(m map[string]any) bool { return mapSubRAML(m, "items", g.Items) })
	vProve("propertyNames", func(m map[string]any) bool { return mapSubRAML(m, "propertyNames", g.PropertyNames) })
	vProve("properties", func(m map[string]any) bool { return mapOMRAML(m, "properties", g.Properties) })
	vProve("patternProperties", func(m map[string]any) bool { return mapOMRAML(m, "patternProperties", g.PatternProperties) })
	vProve("definitions", func(m map[string]any) bool { return mapDefsRAML(m, "definitions", g.Definitions) })
	vProve("no other keyword", func(m map[string]any) bool {
		return vForAllStr(func(s string) bool {
			return !vHasKey(m, s) || s == "$schema" ||
				s == "$id" ||
				s == "$ref" ||
				s == "$comment" ||
				s == "type" ||
				s == "pattern" ||
				s == "contentEncoding" ||
				s == "contentMediaType" ||
				s == "format" ||
				s == "title" ||
				s == "description" ||
				s == "multipleOf" ||
				s == "maximum" ||
				s == "minimum" ||
				s == "maxLength" ||
				s == "minLength" ||
				s == "maxItems" ||
				s == "minItems" ||
				s == "maxContains" ||
				s == "minContains" ||
				s == "maxProperties" ||
				s == "minProperties" ||
				s == "uniqueItems" ||
				s == "additionalProperties" ||
				s == "const" ||
				s == "default" ||
				s == "enum" ||
				s == "examples" ||
				s == "required" ||
				s == "anyOf" ||
				s == "allOf" ||
				s == "oneOf" ||
				s == "not" ||
				s == "if" ||
				s == "then" ||
				s == "else" ||
				s == "items" ||
				s == "propertyNames" ||
				s == "properties" ||
				s == "patternProperties" ||
				s == "definitions" ||
				s == "x-annotations" ||
				s == "x-facet-definitions" ||
				s == "x-facet-data"
		})
	})
	anns, data, defs := js.Annotations, js.FacetData, js.FacetDefinitions
	vLoopInv(func(k int, m map[string]any) bool { return omAnyUpTo(anns, m, k) })
	vLoopInv(func(k int, m map[string]any) bool { return omAnyUpTo(data, m, k) })
	vLoopInv(func(k int, m map[string]any) bool { return omMapUpToRAML(defs, m, k) })
	vProve("x-annotations", func(m map[string]any) bool { return mapOMAny(m, "x-annotations", anns) })
	vProve("x-facet-data", func(m map[string]any) bool { return mapOMAny(m, "x-facet-data", data) })
	vProve("x-facet-definitions", func(m map[string]any) bool { return mapOMRAML(m, "x-facet-definitions", defs) })
}

func contract_JSONSchemaRAML_ShallowCopy(js *JSONSchemaRAML) {
	vProp("C11")
	if js == nil {
		vEnsures("nil", func(r *JSONSchemaRAML) bool { return r == nil })
		return
	}
	vEnsures("new", func(r *JSONSchemaRAML) bool { return r != nil && vFresh(r) })
	vEnsures("every keyword", func(r *JSONSchemaRAML) bool {
		return sameKeywordsRAML(&js.JSONSchemaGeneric, &r.JSONSchemaGeneric) && sameRestRAML(&js.JSONSchemaGeneric, &r.JSONSchemaGeneric)
	})
	anns, data, defs := js.Annotations, js.FacetData, js.FacetDefinitions
	vLoopInv(func(k int, r *JSONSchemaRAML) bool { return omSameUpTo(anns, r.Annotations, k) })
	vLoopInv(func(k int, r *JSONSchemaRAML) bool { return omSameUpTo(data, r.FacetData, k) })
	vLoopInv(func(k int, r *JSONSchemaRAML) bool { return omSameUpTo(defs, r.FacetDefinitions, k) })
	vProve("annotations copied", func(r *JSONSchemaRAML) bool { return omCopied(anns, r.Annotations) })
	vProve("facet data copied", func(r *JSONSchemaRAML) bool { return omCopied(data, r.FacetData) })
	vProve("facet definitions copied", func(r *JSONSchemaRAML) bool { return omCopied(defs, r.FacetDefinitions) })
}

func contract_JSONSchemaGenericRAML_DeepCopy(js *JSONSchemaGeneric[*JSONSchemaRAML]) {
	vProp("C11")
	if js == nil {
		vEnsures("nil", func(r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return r == nil })
		return
	}
	loopsRAML(js)
	vEnsures("new", func(r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return r != nil && vFresh(r) })
	vEnsures("every keyword copied", func(r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return sameKeywordsRAML(js, r) })
	vEnsures("Required copied", func(r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return copiedStrs(js.Required, r.Required) })
	vEnsures("Enum copied", func(r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return copiedAnys(js.Enum, r.Enum) })
	vEnsures("Examples copied", func(r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return copiedAnys(js.Examples, r.Examples) })
	vEnsures("AnyOf copied", func(r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return copiedListRAML(js.AnyOf, r.AnyOf) })
	vEnsures("AllOf copied", func(r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return copiedListRAML(js.AllOf, r.AllOf) })
	vEnsures("OneOf copied", func(r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return copiedListRAML(js.OneOf, r.OneOf) })
	vEnsures("nested schemas copied", func(r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return subRAML(js.Not, r.Not) && subRAML(js.If, r.If) && subRAML(js.Then, r.Then) && subRAML(js.Else, r.Else) && subRAML(js.Items, r.Items) && subRAML(js.PropertyNames, r.PropertyNames) })
	vEnsures("Properties copied", func(r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return copiedMapRAML(js.Properties, r.Properties) })
	vEnsures("PatternProperties copied", func(r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return copiedMapRAML(js.PatternProperties, r.PatternProperties) })
	vEnsures("Definitions copied", func(r *JSONSchemaGeneric[*JSONSchemaRAML]) bool { return copiedDefsRAML(js.Definitions, r.Definitions) })
}

func contract_JSONSchemaRAML_DeepCopy(js *JSONSchemaRAML) {
	vProp("C11")
	vDefine("copy", func(r *JSONSchemaRAML) bool { return UH_copyRAML(js, r) })
	if js == nil {
		vEnsures("nil", func(r *JSONSchemaRAML) bool { return r == nil })
		return
	}
	vEnsures("new", func(r *JSONSchemaRAML) bool { return r != nil && vFresh(r) })
	vProve("every keyword copied", func(r *JSONSchemaRAML) bool { return sameKeywordsRAML(&js.JSONSchemaGeneric, &r.JSONSchemaGeneric) })
	vProve("Required copied", func(r *JSONSchemaRAML) bool { return copiedStrs(js.JSONSchemaGeneric.Required, r.JSONSchemaGeneric.Required) })
	vProve("Enum copied", func(r *JSONSchemaRAML) bool { return copiedAnys(js.JSONSchemaGeneric.Enum, r.JSONSchemaGeneric.Enum) })
	vProve("Examples copied", func(r *JSONSchemaRAML) bool { return copiedAnys(js.JSONSchemaGeneric.Examples, r.JSONSchemaGeneric.Examples) })
	vProve("AnyOf copied", func(r *JSONSchemaRAML) bool { return copiedListRAML(js.JSONSchemaGeneric.AnyOf, r.JSONSchemaGeneric.AnyOf) })
	vProve("AllOf copied", func(r *JSONSchemaRAML) bool { return copiedListRAML(js.JSONSchemaGeneric.AllOf, r.JSONSchemaGeneric.AllOf) })
	vProve("OneOf copied", func(r *JSONSchemaRAML) bool { return copiedListRAML(js.JSONSchemaGeneric.OneOf, r.JSONSchemaGeneric.OneOf) })
	vProve("nested schemas copied", func(r *JSONSchemaRAML) bool { return subRAML(js.JSONSchemaGeneric.Not, r.JSONSchemaGeneric.Not) && subRAML(js.JSONSchemaGeneric.If, r.JSONSchemaGeneric.If) && subRAML(js.JSONSchemaGeneric.Then, r.JSONSchemaGeneric.Then) && subRAML(js.JSONSchemaGeneric.Else, r.JSONSchemaGeneric.Else) && subRAML(js.JSONSchemaGeneric.Items, r.JSONSchemaGeneric.Items) && subRAML(js.JSONSchemaGeneric.PropertyNames, r.JSONSchemaGeneric.PropertyNames) })
	vProve("Properties copied", func(r *JSONSchemaRAML) bool { return copiedMapRAML(js.JSONSchemaGeneric.Properties, r.JSONSchemaGeneric.Properties) })
	vProve("PatternProperties copied", func(r *JSONSchemaRAML) bool { return copiedMapRAML(js.JSONSchemaGeneric.PatternProperties, r.JSONSchemaGeneric.PatternProperties) })
	vProve("Definitions copied", func(r *JSONSchemaRAML) bool { return copiedDefsRAML(js.JSONSchemaGeneric.Definitions, r.JSONSchemaGeneric.Definitions) })
	anns, data, defs := js.Annotations, js.FacetData, js.FacetDefinitions
	vLoopInv(func(k int, r *JSONSchemaRAML) bool { return omSameUpTo(anns, r.Annotations, k) })
	vLoopInv(func(k int, r *JSONSchemaRAML) bool { return omSameUpTo(data, r.FacetData, k) })
	vLoopInv(func(k int, r *JSONSchemaRAML) bool { return mapUpToRAML(defs, r.FacetDefinitions, k) })
	vProve("annotations copied", func(r *JSONSchemaRAML) bool { return omCopied(anns, r.Annotations) })
	vProve("facet data copied", func(r *JSONSchemaRAML) bool { return omCopied(data, r.FacetData) })
	vProve("facet definitions copied", func(r *JSONSchemaRAML) bool { return copiedMapRAML(defs, r.FacetDefinitions) })
}

func mapOMAny(m map[string]any, k string, l *orderedmap.OrderedMap[string, any]) bool {
	v, ok := m[k].(map[string]any)
	return vHasKey(m, k) == (vOMLen(l) > 0) && (vOMLen(l) == 0 || ok && vFresh(v) && !vSame(v, m) &&
		vForAll(0, vOMLen(l), func(i int) bool { return vHasKey(v, vOMKey(l, i)) && vSame(v[vOMKey(l, i)], vOMVal(l, i)) }) &&
		vForAllStr(func(s string) bool { return !vHasKey(v, s) || vOMHas(l, s) }))
}

func omAnyUpTo(l *orderedmap.OrderedMap[string, any], m map[string]any, k int) bool {
	return vForAll(0, k, func(i int) bool { return vHasKey(m, vOMKey(l, i)) && vSame(m[vOMKey(l, i)], vOMVal(l, i)) }) &&
		vForAllStr(func(s string) bool { return !vHasKey(m, s) || vOMHas(l, s) })
}

func omSameUpTo[V any](a, b *orderedmap.OrderedMap[string, V], k int) bool {
	return vOMLen(b) == k && vForAll(0, k, func(i int) bool {
		return vOMKey(b, i) == vOMKey(a, i) && vSame(vOMVal(a, i), vOMVal(b, i))
	})
}

func omCopied[V any](a, b *orderedmap.OrderedMap[string, V]) bool {
	return (a == nil) == (b == nil) && (b == nil || vFresh(b)) && vOMLen(b) == vOMLen(a) && omSameUpTo(a, b, vOMLen(a))
}
