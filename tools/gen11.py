#!/usr/bin/env python3
"""writes contracts/c11.go: the same contracts for both schema dialects"""
scal="Version ID Ref Comment Type Const MultipleOf Maximum Minimum MaxLength MinLength Pattern MaxItems MinItems UniqueItems MaxContains MinContains MaxProperties MinProperties ContentEncoding ContentMediaType Format Title Description Default AdditionalProperties".split()
lists="Required Enum Examples".split()
subl="AnyOf AllOf OneOf".split()
subs="Not If Then Else Items PropertyNames".split()
oms="Properties PatternProperties".split()
out=['''package raml

import (
	"encoding/json"
	"strconv"

	orderedmap "github.com/wk8/go-ordered-map/v2"
)

// ---- C11: JSON Schema copies and maps. Generated by tools/gen11.py.

func sNum(p *uint64) json.Number {
	if p == nil {
		return ""
	}
	return json.Number(strconv.FormatUint(*p, 10))
}

func contract__uint64PtrToNumber(p *uint64) {
	vProp("C11")
	n := sNum(p)
	vEnsures("its decimal digits", func(r json.Number) bool { return r == n && (r == "") == (p == nil) })
}

func contract__boolPtr(p *bool) {
	vProp("C11")
	vEnsures("its value", func(r any) bool {
		if p == nil {
			return r == nil
		}
		b, ok := r.(bool)
		return ok && b == *p
	})
}

// the keyword k of m is set exactly when the field is, to its value

func mapStr(m map[string]any, k, s string) bool {
	v, ok := m[k].(string)
	return vHasKey(m, k) == (s != "") && (s == "" || ok && v == s)
}

func mapNum(m map[string]any, k string, s json.Number) bool {
	v, ok := m[k].(json.Number)
	return vHasKey(m, k) == (s != "") && (s == "" || ok && v == s)
}

func mapAny(m map[string]any, k string, v any) bool {
	return vHasKey(m, k) == (v != nil) && (v == nil || vSame(m[k], v))
}

func mapBool(m map[string]any, k string, p *bool) bool {
	v, ok := m[k].(bool)
	return vHasKey(m, k) == (p != nil) && (p == nil || ok && v == *p)
}

func mapAnys(m map[string]any, k string, l []any) bool {
	v, ok := m[k].([]any)
	return vHasKey(m, k) == (len(l) > 0) && (len(l) == 0 || ok && len(v) == len(l) &&
		vForAll(0, len(l), func(i int) bool { return vSame(v[i], l[i]) }))
}

func mapStrs(m map[string]any, k string, l []string) bool {
	v, ok := m[k].([]any)
	return vHasKey(m, k) == (len(l) > 0) && (len(l) == 0 || ok && len(v) == len(l) &&
		vForAll(0, len(l), func(i int) bool { return isStr(v[i], l[i]) }))
}

func isStr(v any, s string) bool {
	x, ok := v.(string)
	return ok && x == s
}

func copiedStrs(a, b []string) bool {
	return len(a) == len(b) && (a == nil) == (b == nil) && (b == nil || vFresh(b)) &&
		vForAll(0, len(a), func(i int) bool { return a[i] == b[i] })
}

func copiedAnys(a, b []any) bool {
	return len(a) == len(b) && (a == nil) == (b == nil) && (b == nil || vFresh(b)) &&
		vForAll(0, len(a), func(i int) bool { return vSame(a[i], b[i]) })
}
''']
TPL='''
// ---- @T

func UH_copy@D(a, b @T) bool               { return vDump(a) == vDump(b) }
func UH_map@D(a @T, m map[string]any) bool { return vDump(a.Map()) == vDump(m) }

func sub@D(a, b @T) bool {
	return (a == nil) == (b == nil) && UH_copy@D(a, b) && (b == nil || vFresh(b))
}

func sameKeywords@D(a, b @G) bool {
	return @SAMEK
}

func sameRest@D(a, b @G) bool {
	return @SAMER
}

func copiedList@D(a, b []@T) bool {
	return len(a) == len(b) && (a == nil) == (b == nil) && (b == nil || vFresh(b)) &&
		vForAll(0, len(a), func(i int) bool { return sub@D(a[i], b[i]) })
}

func copiedMap@D(a, b *orderedmap.OrderedMap[string, @T]) bool {
	return (a == nil) == (b == nil) && (b == nil || vFresh(b)) && vOMLen(b) == vOMLen(a) && vForAll(0, vOMLen(a), func(i int) bool {
		return vOMKey(b, i) == vOMKey(a, i) && sub@D(vOMVal(a, i), vOMVal(b, i))
	})
}

func copiedDefs@D(a, b map[string]@T) bool {
	return (a == nil) == (b == nil) && (b == nil || vFresh(b)) && vForAllStr(func(k string) bool {
		return vHasKey(a, k) == vHasKey(b, k) && (!vHasKey(a, k) || sub@D(a[k], b[k]))
	})
}

func copied@D(js @G, get func(r any) @G) {
}

func contract_JSONSchemaGeneric@D_ShallowCopy(js @G) {
	vProp("C11")
	if js == nil {
		vEnsures("nil", func(r @G) bool { return r == nil })
		return
	}
	vEnsures("new", func(r @G) bool { return r != nil && vFresh(r) })
	vEnsures("every keyword", func(r @G) bool { return sameKeywords@D(js, r) && sameRest@D(js, r) })
}

func loops@D(js @G) {
	anyOf, allOf, oneOf, p, pp, d := js.AnyOf, js.AllOf, js.OneOf, js.Properties, js.PatternProperties, js.Definitions
	vLoopInv(func(k int, r @G) bool { return listUpTo@D(anyOf, r.AnyOf, k) })
	vLoopInv(func(k int, r @G) bool { return listUpTo@D(allOf, r.AllOf, k) })
	vLoopInv(func(k int, r @G) bool { return listUpTo@D(oneOf, r.OneOf, k) })
	vLoopInv(func(k int, r @G) bool { return mapUpTo@D(p, r.Properties, k) })
	vLoopInv(func(k int, r @G) bool { return mapUpTo@D(pp, r.PatternProperties, k) })
	vLoopInv(func(k int, r @G) bool {
		return vForAllStr(func(s string) bool {
			return vHasKey(r.Definitions, s) == vVisited(s) && (!vVisited(s) || sub@D(d[s], r.Definitions[s]))
		})
	})
}

func listUpTo@D(a, b []@T, k int) bool {
	return vForAll(0, k, func(i int) bool { return sub@D(a[i], b[i]) })
}

func mapUpTo@D(a, b *orderedmap.OrderedMap[string, @T], k int) bool {
	return vOMLen(b) == k && vForAll(0, k, func(i int) bool {
		return vOMKey(b, i) == vOMKey(a, i) && sub@D(vOMVal(a, i), vOMVal(b, i))
	})
}

func mapSub@D(m map[string]any, k string, js @T) bool {
	v, ok := m[k].(map[string]any)
	return vHasKey(m, k) == (js != nil) && (js == nil || ok && UH_map@D(js, v))
}

func isMap@D(v any, js @T) bool {
	m, ok := v.(map[string]any)
	return ok && (m == nil) == (js == nil) && UH_map@D(js, m)
}

func mapList@D(m map[string]any, k string, l []@T) bool {
	v, ok := m[k].([]any)
	return vHasKey(m, k) == (len(l) > 0) && (len(l) == 0 || ok && len(v) == len(l) &&
		vForAll(0, len(l), func(i int) bool { return isMap@D(v[i], l[i]) }))
}

func mapOM@D(m map[string]any, k string, l *orderedmap.OrderedMap[string, @T]) bool {
	v, ok := m[k].(map[string]any)
	return vHasKey(m, k) == (vOMLen(l) > 0) && (vOMLen(l) == 0 || ok && vFresh(v) && !vSame(v, m) &&
		vForAll(0, vOMLen(l), func(i int) bool { return vHasKey(v, vOMKey(l, i)) && isMap@D(v[vOMKey(l, i)], vOMVal(l, i)) }) &&
		vForAllStr(func(s string) bool { return !vHasKey(v, s) || vOMHas(l, s) }))
}

func mapDefs@D(m map[string]any, k string, l map[string]@T) bool {
	v, ok := m[k].(map[string]any)
	return vHasKey(m, k) == (len(l) > 0) && (len(l) == 0 || ok && vFresh(v) && !vSame(v, m) &&
		vForAllStr(func(s string) bool { return vHasKey(v, s) == vHasKey(l, s) && (!vHasKey(l, s) || isMap@D(v[s], l[s])) }))
}

func mapLoops@D(js @G) {
	req, anyOf, allOf, oneOf, p, pp, d := js.Required, js.AnyOf, js.AllOf, js.OneOf, js.Properties, js.PatternProperties, js.Definitions
	vLoopInv(func(k int, a []any) bool { return vForAll(0, k, func(i int) bool { return isStr(a[i], req[i]) }) })
	vLoopInv(func(k int, a []any) bool { return vForAll(0, k, func(i int) bool { return isMap@D(a[i], anyOf[i]) }) })
	vLoopInv(func(k int, a []any) bool { return vForAll(0, k, func(i int) bool { return isMap@D(a[i], allOf[i]) }) })
	vLoopInv(func(k int, a []any) bool { return vForAll(0, k, func(i int) bool { return isMap@D(a[i], oneOf[i]) }) })
	vLoopInv(func(k int, m map[string]any) bool { return omMapUpTo@D(p, m, k) })
	vLoopInv(func(k int, m map[string]any) bool { return omMapUpTo@D(pp, m, k) })
	vLoopInv(func(k int, m map[string]any) bool {
		return vForAllStr(func(s string) bool {
			return vHasKey(m, s) == vVisited(s) && (!vVisited(s) || isMap@D(m[s], d[s]))
		})
	})
}

func omMapUpTo@D(l *orderedmap.OrderedMap[string, @T], m map[string]any, k int) bool {
	return vForAll(0, k, func(i int) bool { return vHasKey(m, vOMKey(l, i)) && isMap@D(m[vOMKey(l, i)], vOMVal(l, i)) }) &&
		vForAllStr(func(s string) bool { return !vHasKey(m, s) || vOMHas(l, s) })
}

func contract_JSONSchemaGeneric@D_Map(js @G) {
	vProp("C11")
	if js == nil {
		vEnsures("nil", func(r map[string]any) bool { return r == nil })
		return
	}
	mapLoops@D(js)
	vEnsures("new", func(r map[string]any) bool { return r != nil && vFresh(r) })
	ensMap@D(js)
}

func ensMap@D(js @G) {
@MAPENS}

func contract_@N_Map(js @T) {
	vProp("C11")
	vDefine("map", func(r map[string]any) bool { return UH_map@D(js, r) })
	if js == nil {
		vEnsures("nil", func(r map[string]any) bool { return r == nil })
		return
	}
	vEnsures("new", func(r map[string]any) bool { return r != nil && vFresh(r) })
	g := &js.JSONSchemaGeneric
@MAPTENS@MAPRAML}

func contract_@N_ShallowCopy(js @T) {
	vProp("C11")
	if js == nil {
		vEnsures("nil", func(r @T) bool { return r == nil })
		return
	}
	vEnsures("new", func(r @T) bool { return r != nil && vFresh(r) })
	vEnsures("every keyword", func(r @T) bool {
		return sameKeywords@D(&js.JSONSchemaGeneric, &r.JSONSchemaGeneric) && sameRest@D(&js.JSONSchemaGeneric, &r.JSONSchemaGeneric)
	})
@SHRAML}

func contract_JSONSchemaGeneric@D_DeepCopy(js @G) {
	vProp("C11")
	if js == nil {
		vEnsures("nil", func(r @G) bool { return r == nil })
		return
	}
	loops@D(js)
	vEnsures("new", func(r @G) bool { return r != nil && vFresh(r) })
@ENSG}

func contract_@N_DeepCopy(js @T) {
	vProp("C11")
	vDefine("copy", func(r @T) bool { return UH_copy@D(js, r) })
	if js == nil {
		vEnsures("nil", func(r @T) bool { return r == nil })
		return
	}
	vEnsures("new", func(r @T) bool { return r != nil && vFresh(r) })
@ENST}
'''

def mapens(T,D,top=False):
    R=[]
    kn={}
    def k(name): return name[0].lower()+name[1:]
    strs={'Version':'$schema','ID':'$id','Ref':'$ref','Comment':'$comment','Type':'type','Pattern':'pattern','ContentEncoding':'contentEncoding','ContentMediaType':'contentMediaType','Format':'format','Title':'title','Description':'description'}
    items=[]
    for f,key in strs.items(): items.append((key,'mapStr(m, "%s", js.%s)'%(key,f)))
    for f in ('MultipleOf','Maximum','Minimum'): items.append((k(f),'mapNum(m, "%s", js.%s)'%(k(f),f)))
    for f in 'MaxLength MinLength MaxItems MinItems MaxContains MinContains MaxProperties MinProperties'.split():
        items.append((k(f),'mapNum(m, "%s", sNum(js.%s))'%(k(f),f)))
    for f in ('UniqueItems','AdditionalProperties'): items.append((k(f),'mapBool(m, "%s", js.%s)'%(k(f),f)))
    for f in ('Const','Default'): items.append((k(f),'mapAny(m, "%s", js.%s)'%(k(f),f)))
    for f in ('Enum','Examples'): items.append((k(f),'mapAnys(m, "%s", js.%s)'%(k(f),f)))
    items.append(('required','mapStrs(m, "required", js.Required)'))
    for f in subl: items.append((k(f),'mapList%s(m, "%s", js.%s)'%(D,k(f),f)))
    for f in subs: items.append((k(f),'mapSub%s(m, "%s", js.%s)'%(D,k(f),f)))
    for f in oms: items.append((k(f),'mapOM%s(m, "%s", js.%s)'%(D,k(f),f)))
    items.append(('definitions','mapDefs%s(m, "definitions", js.Definitions)'%D))
    s=''.join('\tvEnsures("%s", func(m map[string]any) bool { return %s })\n'%(n,e) for n,e in items)
    keys=[n for n,_ in items]
    if D=='RAML' and top: keys+=['x-annotations','x-facet-definitions','x-facet-data']
    s+='\tvEnsures("no other keyword", func(m map[string]any) bool {\n\t\treturn vForAllStr(func(s string) bool {\n\t\t\treturn !vHasKey(m, s) || '+' ||\n\t\t\t\t'.join('s == "%s"'%q for q in keys)+'\n\t\t})\n\t})\n'
    return s

MAPR='''	anns, data, defs := js.Annotations, js.FacetData, js.FacetDefinitions
	vLoopInv(func(k int, m map[string]any) bool { return omAnyUpTo(anns, m, k) })
	vLoopInv(func(k int, m map[string]any) bool { return omAnyUpTo(data, m, k) })
	vLoopInv(func(k int, m map[string]any) bool { return omMapUpToRAML(defs, m, k) })
	vProve("x-annotations", func(m map[string]any) bool { return mapOMAny(m, "x-annotations", anns) })
	vProve("x-facet-data", func(m map[string]any) bool { return mapOMAny(m, "x-facet-data", data) })
	vProve("x-facet-definitions", func(m map[string]any) bool { return mapOMRAML(m, "x-facet-definitions", defs) })
'''
COPYR='''	anns, data, defs := js.Annotations, js.FacetData, js.FacetDefinitions
	vLoopInv(func(k int, r *JSONSchemaRAML) bool { return omSameUpTo(anns, r.Annotations, k) })
	vLoopInv(func(k int, r *JSONSchemaRAML) bool { return omSameUpTo(data, r.FacetData, k) })
	vLoopInv(func(k int, r *JSONSchemaRAML) bool { return @UPTO(defs, r.FacetDefinitions, k) })
	vProve("annotations copied", func(r *JSONSchemaRAML) bool { return omCopied(anns, r.Annotations) })
	vProve("facet data copied", func(r *JSONSchemaRAML) bool { return omCopied(data, r.FacetData) })
	vProve("facet definitions copied", func(r *JSONSchemaRAML) bool { return @ALL(defs, r.FacetDefinitions) })
'''
HELP='''
func mapOMAny(m map[string]any, k string, l *orderedmap.OrderedMap[string, any]) bool {
	v, ok := m[k].(map[string]any)
	return vHasKey(m, k) == (vOMLen(l) > 0) && (vOMLen(l) == 0 || ok && vFresh(v) && !vSame(v, m) &&
		vForAll(0, vOMLen(l), func(i int) bool { return vHasKey(v, vOMKey(l, i)) && vSame(v[vOMKey(l, i)], vOMVal(l, i)) }) &&
		vForAllStr(func(s string) bool { return !vHasKey(v, s) || vOMHas(l, s) }))
}

func omAnyUpTo(l *orderedmap.OrderedMap[string, any], m map[string]any, k int) bool {
	return vForAll(0, k, func(i int) bool { return vHasKey(m, vOMKey(l, i)) && vSame(m[vOMKey(l, i)], vOMVal(l, i)) }) &&
		vForAllStr(func(s string) bool { return !vHasKey(m, s) || vOMHas(l, s) })
}

func omSameUpTo[V any](a, b *orderedmap.OrderedMap[string, V], k int) bool {
	return vOMLen(b) == k && vForAll(0, k, func(i int) bool {
		return vOMKey(b, i) == vOMKey(a, i) && vSame(vOMVal(a, i), vOMVal(b, i))
	})
}

func omCopied[V any](a, b *orderedmap.OrderedMap[string, V]) bool {
	return (a == nil) == (b == nil) && (b == nil || vFresh(b)) && vOMLen(b) == vOMLen(a) && omSameUpTo(a, b, vOMLen(a))
}
'''

for D,N in(('Plain','JSONSchema'),('RAML','JSONSchemaRAML')):
    T='*'+N
    G='*JSONSchemaGeneric[%s]'%T
    def clauses(a,b,D=D):
        cs=[('every keyword','sameKeywords%s(%s, %s)'%(D,a,b))]
        for n in lists:
            cs.append((n,'%s(%s.%s, %s.%s)'%('copiedStrs' if n=='Required' else 'copiedAnys',a,n,b,n)))
        for n in subl: cs.append((n,'copiedList%s(%s.%s, %s.%s)'%(D,a,n,b,n)))
        cs.append(('nested schemas',' && '.join('sub%s(%s.%s, %s.%s)'%(D,a,n,b,n) for n in subs)))
        for n in oms: cs.append((n,'copiedMap%s(%s.%s, %s.%s)'%(D,a,n,b,n)))
        cs.append(('Definitions','copiedDefs%s(%s.Definitions, %s.Definitions)'%(D,a,b)))
        return cs
    def ens(cs,rt): return ''.join('\tvEnsures("%s copied", func(r %s) bool { return %s })\n'%(n,rt,e) for n,e in cs)
    s=TPL
    s=s.replace('@SAMEK',' &&\n\t\t'.join('vSame(a.%s, b.%s)'%(f,f) for f in scal))
    s=s.replace('@SAMER',' &&\n\t\t'.join('vSame(a.%s, b.%s)'%(f,f) for f in lists+subl+subs+oms+["Definitions"]))
    s=s.replace('@ENSG',ens(clauses('js','r'),G))
    s=s.replace('@ENST',ens([(n,e.replace('(js.J','(&js.J').replace(', r.J',', &r.J') if n=='every keyword' else e) for n,e in clauses('js.JSONSchemaGeneric','r.JSONSchemaGeneric')],T).replace('vEnsures(','vProve('))
    s=s.replace('func copied@D(js @G, get func(r any) @G) {\n}\n\n','')
    R=D=='RAML'
    s=s.replace('@MAPENS',mapens(T,D)).replace('@MAPTENS',mapens(T,D,True).replace('js.','g.').replace('vEnsures(','vProve(')).replace('@MAPRAML',MAPR if R else '').replace('@SHRAML',COPYR.replace('@UPTO','omSameUpTo').replace('@ALL','omCopied') if R else '')
    if R:
        i=s.rindex('}')
        s=s[:i]+COPYR.replace('@UPTO','mapUpToRAML').replace('@ALL','copiedMapRAML')+s[i:]+HELP
    out.append(s.replace('@D',D).replace('@T',T).replace('@G',G).replace('@N',N))
open('/verif/contracts/c11.go','w').write(''.join(out))
