#!/usr/bin/env python3
"""writes contracts/c10.go: the same contracts for both schema dialects"""
subs="Not If Then Else Items PropertyNames".split()
scal="Version ID Ref Comment Const MultipleOf Maximum Minimum MaxLength MinLength Pattern MaxItems MinItems UniqueItems MaxContains MinContains MaxProperties MinProperties ContentEncoding ContentMediaType Format AdditionalProperties Type Title Description Default".split()
lists="Required Enum Examples AnyOf AllOf OneOf".split()
refs="Properties PatternProperties Definitions".split()
base={"Title","Description","Default","Examples"}
strs=set("Version ID Ref Comment MultipleOf Maximum Minimum Pattern ContentEncoding ContentMediaType Format Type Title Description".split())
def zero(f):
    if f in strs: return 'g.%s == ""'%f
    return 'g.%s == nil'%f
def rest(used):
    return " && ".join(zero(f) for f in scal+lists+refs+subs if f not in used)

# kind -> (list of (keyword, go expression of expected value), special handled keywords)
def flo(f): return 'sFloNum(s.%s)'%f
def bign(f): return 'sIntNum(s.%s)'%f
kinds={
 'String':([('Type','"string"'),('MinLength','s.MinLength'),('MaxLength','s.MaxLength'),('Pattern','sPatStr(s.Pattern)')],['Enum']),
 'Integer':([('Type','"integer"'),('Minimum',bign('Minimum')),('Maximum',bign('Maximum')),('MultipleOf',flo('MultipleOf'))],['Enum']),
 'Number':([('Type','"number"'),('Minimum',flo('Minimum')),('Maximum',flo('Maximum')),('MultipleOf',flo('MultipleOf'))],['Enum']),
 'Boolean':([('Type','"boolean"')],['Enum']),
 'File':([('Type','"string"'),('MinLength','s.MinLength'),('MaxLength','s.MaxLength'),('ContentEncoding','"base64"'),('ContentMediaType','sMedia(s.FileTypes)')],[]),
 'DateTime':([('Type','"string"'),('Format','sDTFormat(s.Format)'),('Pattern','sDTPattern(s.Format)')],[]),
 'DateTimeOnly':([('Type','"string"'),('Pattern','"^[0-9]{4}-(?:0[0-9]|1[0-2])-(?:[0-2][0-9]|3[01])T(?:[01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9]$"')],[]),
 'DateOnly':([('Type','"string"'),('Format','"date"')],[]),
 'TimeOnly':([('Type','"string"'),('Format','"time"')],[]),
 'Any':([],[]),
 'Nil':([('Type','"null"')],[]),
 'Object':([('Type','"object"'),('MinProperties','s.MinProperties'),('MaxProperties','s.MaxProperties'),('AdditionalProperties','s.AdditionalProperties')],['Properties','PatternProperties','Required']),
 'Array':([('Type','"array"'),('MinItems','s.MinItems'),('MaxItems','s.MaxItems'),('UniqueItems','s.UniqueItems')],['Items']),
 'Union':([],['AnyOf']),
}
out=['''package raml

import (
	"encoding/json"
	"math/big"
	"regexp"
	"strconv"

	orderedmap "github.com/wk8/go-ordered-map/v2"
)

// ---- C10: JSON Schema conversion. Generated by tools/gen10.py.

func sFloNum(p *float64) json.Number {
	if p == nil {
		return ""
	}
	return json.Number(strconv.FormatFloat(*p, 'f', -1, 64))
}

func sIntNum(p *big.Int) json.Number {
	if p == nil {
		return ""
	}
	return json.Number(p.String())
}

func sPatStr(p *regexp.Regexp) string {
	if p == nil {
		return ""
	}
	return p.String()
}

// sMedia: JSON Schema has room for one media type, the first
func sMedia(l Nodes) string {
	if len(l) == 0 {
		return ""
	}
	s, _ := l[0].Value.(string)
	return s
}

func sDTFormat(f *string) string {
	if f == nil || *f == DateTimeFormatRFC3339 {
		return "date-time"
	}
	return ""
}

func sDTPattern(f *string) string {
	if f != nil && *f == DateTimeFormatRFC2616 {
		return "^(Mon|Tue|Wed|Thu|Fri|Sat|Sun), ([0-3][0-9]) " +
			"(Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec) ([0-9]{4})" +
			" ([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9] GMT$"
	}
	return ""
}

func sText(p *string) string {
	if p == nil {
		return ""
	}
	return *p
}

// sExamplesOf: the examples a type has, included ones too
func sExamplesOf(b *BaseShape) *orderedmap.OrderedMap[string, *Example] {
	if b.Examples == nil {
		return nil
	}
	if b.Examples.Link != nil {
		return b.Examples.Link.Map
	}
	return b.Examples.Map
}

func sEnumIs(l Nodes, e []any) bool {
	return (l == nil) == (e == nil) && len(e) == len(l) && vForAll(0, len(l), func(i int) bool { return vSame(e[i], l[i].Value) })
}

func sEnumSet(l Nodes) bool { return vForAll(0, len(l), func(i int) bool { return l[i] != nil }) }

// sExamplesAre: e is the type's example, or else its examples in order
func sExamplesAre(b *BaseShape, e []any) bool {
	if b.Example != nil {
		return len(e) == 1 && vSame(e[0], b.Example.Data.Value)
	}
	x := sExamplesOf(b)
	return len(e) == vOMLen(x) && (vOMLen(x) != 0 || e == nil) &&
		vForAll(0, vOMLen(x), func(i int) bool { return vSame(e[i], vOMVal(x, i).Data.Value) })
}

func sDefaultIs(b *BaseShape, v any) bool {
	return b.Default == nil && v == nil || b.Default != nil && vSame(v, b.Default.Value)
}

// sConv: a declared type, as the parser leaves it
func sConv(b *BaseShape) bool {
	return b != nil && b.Shape != nil && (b.Example == nil || b.Example.Data != nil) &&
		vForAll(0, vOMLen(sExamplesOf(b)), func(i int) bool {
			e := vOMVal(sExamplesOf(b), i)
			return e != nil && e.Data != nil
		}) &&
		vForAll(0, vOMLen(b.CustomDomainProperties), func(i int) bool {
			e := vOMVal(b.CustomDomainProperties, i)
			return e != nil && e.Extension != nil
		}) &&
		vForAll(0, vOMLen(b.CustomShapeFacets), func(i int) bool { return vOMVal(b.CustomShapeFacets, i) != nil }) &&
		vForAll(0, vOMLen(b.CustomShapeFacetDefinitions), func(i int) bool {
			e := vOMVal(b.CustomShapeFacetDefinitions, i)
			return e.Base != nil && e.Base.Shape != nil
		})
}

// sReqIs: r are the names of the first k properties that are required, in order
func sReqIs(m *orderedmap.OrderedMap[string, Property], k int, r []string) bool {
	none := func(lo, hi int) bool { return vForAll(lo, hi, func(j int) bool { return !vOMVal(m, j).Required }) }
	n := len(r)
	return vForAll(0, n, func(i int) bool {
		return vOMHas(m, r[i]) && vOMIdx(m, r[i]) < k && vOMGet(m, r[i]).Required
	}) && vForAll(1, n, func(i int) bool {
		return vOMIdx(m, r[i-1]) < vOMIdx(m, r[i]) && none(vOMIdx(m, r[i-1])+1, vOMIdx(m, r[i]))
	}) && (n > 0 || none(0, k)) && (n == 0 || none(0, vOMIdx(m, r[0])) && none(vOMIdx(m, r[n-1])+1, k))
}

func sIsText(v any) bool {
	_, ok := v.(string)
	return ok
}

func sUnslash(k string) string { return k[1 : len(k)-1] }
''']
tmpl='''
// ---- @D@

func U_schema@D@(s Shape, r @T@) bool {
	c := &JSONSchemaConverter[@T@]{definitions: make(map[string]@T@)@WRAPINIT@}
	return vDump(c.Visit(s)) == vDump(r)
}

func U_recast@D@(s *JSONSchema, r @T@) bool {
	c := &JSONSchemaConverter[@T@]{definitions: make(map[string]@T@)@WRAPINIT@}
	return vDump(c.recast(s)) == vDump(r)
}

// conv@D@: a converter of this dialect, whose definitions only grow
func conv@D@(c *JSONSchemaConverter[@T@]) { convBase@D@(c, true) }

// convBase@D@: a schema without a base type adds no definitions
func convBase@D@(c *JSONSchemaConverter[@T@], typed bool) {
	vRequires("converter", c != nil && c.definitions != nil && @WRAPOK@)
	if !typed {
		return
	}
	vModifies(c.definitions)
	d := vSnapMap(c.definitions)
	grow := func() bool {
		return vForAllStr(func(n string) bool { return !vHasKey(d, n) || vHasKey(c.definitions, n) && c.definitions[n] == d[n] })
	}
	vLoopInv(func(k int) bool { return grow() })
	vEnsures("definitions only grow", func() bool { return grow() })
}

// base@D@: the keywords every type has
func base@D@(b *BaseShape, r @T@) bool {
	g := &r.JSONSchemaGeneric
	return g.Title == sText(b.DisplayName) && g.Description == sText(b.Description) && sDefaultIs(b, g.Default) && sExamplesAre(b, g.Examples)@BASEX@
}

func zero@D@(g *JSONSchemaGeneric[@T@]) bool {
	return @ZEROALL@
}

func new@D@(r @T@) bool { return r != nil && vFresh(r) }

func props@D@(m *orderedmap.OrderedMap[string, Property], k int, r *orderedmap.OrderedMap[string, @T@]) bool {
	return vFresh(r) && vOMLen(r) == k && vForAll(0, k, func(i int) bool {
		return vOMKey(r, i) == vOMKey(m, i) && U_schema@D@(vOMVal(m, i).Base.Shape, vOMVal(r, i))
	})
}

func list@D@(l []*BaseShape, k int, r []@T@) bool {
	return vFresh(r) && len(r) == len(l) && vForAll(0, k, func(i int) bool { return U_schema@D@(l[i].Shape, r[i]) })
}

func contract_JSONSchemaConverter@D@_finish(c *JSONSchemaConverter[@T@], core *JSONSchemaGeneric[@T@], base *BaseShape) {
	vProp("C10")
	convBase@D@(c, base != nil)
	vRequires("schema", core != nil)
	vInvariant("type", base == nil || sConv(base))
	vEnsures("new", func(r @T@) bool { return new@D@(r) })
	vEnsures("the same keywords", func(r @T@) bool { return vSame(r.JSONSchemaGeneric, *core) })@FINX@
}

func contract_JSONSchemaConverter@D@_makeEmptySchema(c *JSONSchemaConverter[@T@]) {
	vProp("C10")
	convBase@D@(c, false)
	vEnsures("new", func(r @T@) bool { return new@D@(r) })
	vEnsures("empty", func(r @T@) bool { return zero@D@(&r.JSONSchemaGeneric)@NILX@ })
}

func contract_JSONSchemaConverter@D@_makeSchemaFromBaseShape(c *JSONSchemaConverter[@T@], b *BaseShape) {
	vProp("C10")
	conv@D@(c)
	vRequires("type", b != nil)
	vInvariant("type", sConv(b))
	x := sExamplesOf(b)
	vLoopInv(func(k int, g *JSONSchemaGeneric[@T@]) bool {
		return len(g.Examples) == k && (k != 0 || g.Examples == nil) && (k == 0 || vFresh(g.Examples)) &&
			vForAll(0, k, func(i int) bool { return vSame(g.Examples[i], vOMVal(x, i).Data.Value) })
	})
	vEnsures("new", func(r @T@) bool { return new@D@(r) })
	vEnsures("base keywords", func(r @T@) bool { return base@D@(b, r) })
	vEnsures("nothing else", func(r @T@) bool {
		g := &r.JSONSchemaGeneric
		return @RESTBASE@
	})
}
'''
visit='''
func contract_JSONSchemaConverter@D@_Visit@K@Shape(c *JSONSchemaConverter[@T@], s *@K@Shape) {
	vProp("C10")
	conv@D@(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape)@INV@)
	b := s.BaseShape@LOOPS@
	vEnsures("new", func(r @T@) bool { return new@D@(r) })
	vEnsures("base keywords", func(r @T@) bool { return base@D@(b, r) })@ENS@
	vEnsures("nothing else", func(r @T@) bool {
		g := &r.JSONSchemaGeneric
		return @REST@
	})
}
'''
tail='''
func contract_JSONSchemaConverter@D@_VisitRecursiveShape(c *JSONSchemaConverter[@T@], s *RecursiveShape) {
	vProp("C10")
	conv@D@(c)
	vRequires("type", s != nil)
	vInvariant("type", s.Head != nil && sConv(s.Head) && UH_base(s.Head.Shape) != nil)
	name := UH_base(s.Head.Shape).Name
	had := vHasKey(c.definitions, name)
	vEnsures("new", func(r @T@) bool { return new@D@(r) })
	vEnsures("a reference to the head", func(r @T@) bool { return r.Ref == "#/definitions/"+name && vHasKey(c.definitions, name) })
	vEnsures("the definition is the head's schema", func(r @T@) bool { return had || U_schema@D@(s.Head.Shape, c.definitions[name]) })
	vEnsures("nothing else", func(r @T@) bool {
		g := &r.JSONSchemaGeneric
		return @RESTREF@
	})
}

func contract_JSONSchemaConverter@D@_Visit(c *JSONSchemaConverter[@T@], s Shape) {
	vProp("C10")
	conv@D@(c)
	vInvariant("type", sShapeSet(s))
	vDefine("the schema of the type", func(r @T@) bool { return U_schema@D@(s, r) })
	vEnsures("new", func(r @T@) bool { return !sShapeKnown(s) || new@D@(r) })
@VISITS@}

func contract_JSONSchemaConverter@D@_Convert(c *JSONSchemaConverter[@T@], s Shape) {
	vProp("C10")
	vRequires("converter", c != nil && @WRAPOK@)
	vRequires("type", s != nil)
	vInvariant("type", sShapeSet(s) && UH_base(s) != nil)
	vModifies(&c.definitions)
	b := UH_base(s)
	vEnsures("only unwrapped types", func(r @T@, err error) bool { return (err == nil) == b.unwrapped })
	vEnsures("new", func(r @T@, err error) bool { return err != nil || new@D@(r) })
	vEnsures("a reference to the entry point", func(r @T@, err error) bool {
		return err != nil || r.Version == JSONSchemaVersion && r.Ref == "#/definitions/"+b.Name && vHasKey(r.Definitions, b.Name) && U_schema@D@(s, r.Definitions[b.Name])
	})
	vEnsures("all definitions", func(r @T@, err error) bool { return err != nil || vFresh(r.Definitions) && vSame(r.Definitions, c.definitions) })
	vEnsures("nothing else", func(r @T@, err error) bool {
		if err != nil {
			return true
		}
		g := &r.JSONSchemaGeneric
		return @RESTCONV@
	})
}

func recastList@D@(a []*JSONSchema, k int, r []@T@) bool {
	return len(r) == len(a) && vFresh(r) && vForAll(0, k, func(i int) bool { return U_recast@D@(a[i], r[i]) })
}

func recastMap@D@(a *orderedmap.OrderedMap[string, *JSONSchema], k int, r *orderedmap.OrderedMap[string, @T@]) bool {
	return vFresh(r) && vOMLen(r) == k && vForAll(0, k, func(i int) bool {
		return vOMKey(r, i) == vOMKey(a, i) && U_recast@D@(vOMVal(a, i), vOMVal(r, i))
	})
}

func contract_JSONSchemaConverter@D@_recast(c *JSONSchemaConverter[@T@], src *JSONSchema) {
	vProp("C10")
	convBase@D@(c, false)
	vDefine("the schema, in this dialect", func(r @T@) bool { return U_recast@D@(src, r) })
	if src == nil {
		vEnsures("nil", func(r @T@) bool { return r == nil })
		return
	}
@RLOOPS@	vEnsures("new", func(r @T@) bool { return new@D@(r) })
@RENS@}

func contract_JSONSchemaConverter@D@_VisitJSONShape(c *JSONSchemaConverter[@T@], s *JSONShape) {
	vProp("C10")
	conv@D@(c)
	vRequires("type", s != nil)
	vInvariant("type", sConv(s.BaseShape))
	b, j := s.BaseShape, s.Schema
	vEnsures("new", func(r @T@) bool { return new@D@(r) })@JSONX@
	if j == nil {
		vEnsures("base keywords", func(r @T@) bool { return base@D@(b, r) })
		vEnsures("nothing else", func(r @T@) bool {
			g := &r.JSONSchemaGeneric
			return @RESTBASE@
		})
		return
	}
	vEnsures("base keywords of the type, or else of the schema", func(r @T@) bool {
		g := &r.JSONSchemaGeneric
		return g.Title == sOr(sText(b.DisplayName), j.Title) && g.Description == sOr(sText(b.Description), j.Description) &&
			(b.Default != nil && b.Default.Value != nil && vSame(g.Default, b.Default.Value) || (b.Default == nil || b.Default.Value == nil) && vSame(g.Default, j.Default)) &&
			(b.Example == nil && vOMLen(sExamplesOf(b)) == 0 && vSame(g.Examples, j.Examples) || (b.Example != nil || vOMLen(sExamplesOf(b)) > 0) && sExamplesAre(b, g.Examples))
	})
	vEnsures("the rest from the schema", func(r @T@) bool {
		g := &r.JSONSchemaGeneric
		return @JREST@
	})
@JENS@}
'''
raml='''
// rest@D@: what the RAML dialect adds
func rest@D@(b *BaseShape, r @T@) bool {
	a, d, f := b.CustomDomainProperties, b.CustomShapeFacetDefinitions, b.CustomShapeFacets
	return (r.Annotations == nil) == (vOMLen(a) == 0) && vOMLen(r.Annotations) == vOMLen(a) && annsUpTo(a, r.Annotations, vOMLen(a)) &&
		(r.FacetDefinitions == nil) == (vOMLen(d) == 0) && vOMLen(r.FacetDefinitions) == vOMLen(d) && facetDefsUpTo(d, r.FacetDefinitions, vOMLen(d)) &&
		(r.FacetData == nil) == (vOMLen(f) == 0) && vOMLen(r.FacetData) == vOMLen(f) && facetsUpTo(f, r.FacetData, vOMLen(f))
}

func annsUpTo(a *orderedmap.OrderedMap[string, *DomainExtension], r *orderedmap.OrderedMap[string, any], k int) bool {
	return vForAll(0, k, func(i int) bool { return vOMKey(r, i) == vOMKey(a, i) && vSame(vOMVal(r, i), vOMVal(a, i).Extension.Value) })
}

func facetsUpTo(a *orderedmap.OrderedMap[string, *Node], r *orderedmap.OrderedMap[string, any], k int) bool {
	return vForAll(0, k, func(i int) bool { return vOMKey(r, i) == vOMKey(a, i) && vSame(vOMVal(r, i), vOMVal(a, i).Value) })
}

func facetDefsUpTo(a *orderedmap.OrderedMap[string, Property], r *orderedmap.OrderedMap[string, *JSONSchemaRAML], k int) bool {
	return vForAll(0, k, func(i int) bool { return vOMKey(r, i) == vOMKey(a, i) && U_schemaRAML(vOMVal(a, i).Base.Shape, vOMVal(r, i)) })
}

func nothingRAML(r *JSONSchemaRAML) bool { return r.Annotations == nil && r.FacetDefinitions == nil && r.FacetData == nil }

func wrapped(core *JSONSchemaGeneric[*JSONSchemaRAML], b *BaseShape) {
	vEnsures("new", func(r *JSONSchemaRAML) bool { return newRAML(r) })
	vEnsures("the same keywords", func(r *JSONSchemaRAML) bool { return vSame(r.JSONSchemaGeneric, *core) })
	vEnsures("annotations and facets", func(r *JSONSchemaRAML) bool {
		if b == nil {
			return nothingRAML(r)
		}
		return restRAML(b, r)
	})
}

func contract__JSONSchemaWrapper(c *JSONSchemaConverter[*JSONSchemaRAML], core *JSONSchemaGeneric[*JSONSchemaRAML], b *BaseShape) {
	vProp("C10")
	convBaseRAML(c, b != nil)
	vRequires("schema", core != nil)
	vInvariant("type", b == nil || sConv(b))
	if b != nil {
		a, d, f := b.CustomDomainProperties, b.CustomShapeFacetDefinitions, b.CustomShapeFacets
		vLoopInv(func(k int, m *orderedmap.OrderedMap[string, any], p *orderedmap.Pair[string, *DomainExtension]) bool {
			return vFresh(m) && vOMLen(m) == k && annsUpTo(a, m, k)
		})
		vLoopInv(func(k int, m *orderedmap.OrderedMap[string, any], p *orderedmap.Pair[string, *Node]) bool {
			return vFresh(m) && vOMLen(m) == k && facetsUpTo(f, m, k)
		})
		vLoopInv(func(k int, m *orderedmap.OrderedMap[string, *JSONSchemaRAML]) bool {
			return vFresh(m) && vOMLen(m) == k && facetDefsUpTo(d, m, k)
		})
		vLoopInv(func(k int, w *JSONSchemaRAML) bool { return vFresh(w) && vSame(w.JSONSchemaGeneric, *core) })
		vLoopInv(func(k int, w *JSONSchemaRAML) bool {
			return w.Annotations == nil && vOMLen(a) == 0 || vOMLen(a) > 0 && vFresh(w.Annotations) && vOMLen(w.Annotations) == vOMLen(a) && annsUpTo(a, w.Annotations, vOMLen(a))
		})
		vLoopInv(func(k int, w *JSONSchemaRAML) bool {
			return w.FacetDefinitions == nil && vOMLen(d) == 0 || vOMLen(d) > 0 && vFresh(w.FacetDefinitions) && vOMLen(w.FacetDefinitions) == vOMLen(d) && facetDefsUpTo(d, w.FacetDefinitions, vOMLen(d))
		})
		vLoopInv(func(k int, w *JSONSchemaRAML) bool { return w.FacetData == nil })
		vLoopInv(func(k int, w *JSONSchemaRAML) bool { return w.FacetDefinitions == nil })
	}
	wrapped(core, b)
}

// contract__WrapperFunc: the wrapper of a RAML converter is JSONSchemaWrapper
func contract__WrapperFunc(fn WrapperFunc[*JSONSchemaRAML], c *JSONSchemaConverter[*JSONSchemaRAML], core *JSONSchemaGeneric[*JSONSchemaRAML], b *BaseShape) {
	vRequires("the RAML wrapper", vFuncID(fn) == vFuncID(JSONSchemaWrapper))
	convBaseRAML(c, b != nil)
	vRequires("schema", core != nil)
	vInvariant("type", b == nil || sConv(b))
	wrapped(core, b)
}
'''
shapes="Object Array String Number Integer Boolean File Union Nil Any DateTime DateTimeOnly DateOnly TimeOnly JSON Recursive".split()
out.append("""
func sOr(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

// sShapeSet: s is not an empty pointer
func sShapeSet(s Shape) bool {
	switch t := s.(type) {
"""+"".join("\tcase *%sShape:\n\t\treturn t != nil\n"%k for k in shapes)+"""	}
	return s != nil
}

func sShapeKnown(s Shape) bool {
	switch s.(type) {
	case """+", ".join("*%sShape"%k for k in shapes)+""":
		return true
	}
	return false
}
""")
def dialect(D):
    T={'Plain':'*JSONSchema','RAML':'*JSONSchemaRAML'}[D]
    R=D=='RAML'
    def sub(t,**kw):
        kw=dict(D=D,T=T,
            WRAPOK='vFuncID(c.opts.wrap) == vFuncID(JSONSchemaWrapper)' if R else 'c.opts.wrap == nil',
            WRAPINIT=', opts: JSONSchemaConverterOptions[*JSONSchemaRAML]{wrap: JSONSchemaWrapper}' if R else '',
            BASEX=' && restRAML(b, r)' if R else '',
            NILX=' && nothingRAML(r)' if R else '',
            FINX='''
	vEnsures("annotations and facets", func(r *JSONSchemaRAML) bool {
		if base == nil {
			return nothingRAML(r)
		}
		return restRAML(base, r)
	})''' if R else '',
            JSONX='''
	vEnsures("annotations and facets", func(r *JSONSchemaRAML) bool { return restRAML(b, r) })''' if R else '',
            ZEROALL=rest(set()),RESTBASE=rest(base),RESTREF=rest({'Ref'}),RESTCONV=rest({'Ref','Version','Definitions'}),**kw)
        for k,v in kw.items(): t=t.replace('@%s@'%k,v)
        for k,v in kw.items(): t=t.replace('@%s@'%k,v)
        return t
    visits=''
    jens=[];rens=[];rloops=[]
    for f in ['AnyOf','AllOf','OneOf']:
        rl='''	vLoopInv(func(k int, r *JSONSchemaGeneric[@T@]) bool { return recastList@D@(src.%s, k, r.%s) })
	vLoopInv(func(k int, r *JSONSchemaGeneric[@T@]) bool { return r.%s == nil && len(src.%s) == 0 || len(src.%s) > 0 && recastList@D@(src.%s, len(src.%s), r.%s) })
	vLoopInv(func(k int, r *JSONSchemaGeneric[@T@]) bool { return r.%s == nil })
'''%((f,)*9)
        rloops.append(rl)
        e='''	vEnsures("%s", func(r @T@) bool { return r.%s == nil && len(@S@.%s) == 0 || len(@S@.%s) > 0 && recastList@D@(@S@.%s, len(@S@.%s), r.%s) })
'''%((f,)*7)
        rens.append(e.replace('@S@','src')); jens.append(e.replace('@S@','j'))
    for f in ['Properties','PatternProperties']:
        rloops.append('''	vLoopInv(func(k int, r *JSONSchemaGeneric[@T@]) bool { return recastMap@D@(src.%s, k, r.%s) })
	vLoopInv(func(k int, r *JSONSchemaGeneric[@T@]) bool { return r.%s == nil && vOMLen(src.%s) == 0 || vOMLen(src.%s) > 0 && recastMap@D@(src.%s, vOMLen(src.%s), r.%s) })
	vLoopInv(func(k int, r *JSONSchemaGeneric[@T@]) bool { return r.%s == nil })
'''%((f,)*9))
        e='''	vEnsures("%s", func(r @T@) bool { return r.%s == nil && vOMLen(@S@.%s) == 0 || vOMLen(@S@.%s) > 0 && recastMap@D@(@S@.%s, vOMLen(@S@.%s), r.%s) })
'''%((f,)*7)
        rens.append(e.replace('@S@','src')); jens.append(e.replace('@S@','j'))
    f='Definitions'
    rloops.append('''	defs := vSnapMap(src.Definitions)
	vLoopInv(func(k int, r *JSONSchemaGeneric[@T@]) bool {
		return vFresh(r.Definitions) && vForAllStr(func(n string) bool {
			return vHasKey(r.Definitions, n) == vVisited(n) && (!vVisited(n) || U_recast@D@(defs[n], r.Definitions[n]))
		})
	})
	vLoopInv(func(k int, r *JSONSchemaGeneric[@T@]) bool { return r.Definitions == nil })
	vLoopInv(func(k int) bool {
		return vForAllStr(func(n string) bool {
			return vHasKey(src.Definitions, n) == vHasKey(defs, n) && src.Definitions[n] == defs[n]
		})
	})
''')
    e='''	vEnsures("Definitions", func(r @T@) bool {
		return r.Definitions == nil && len(@S@.Definitions) == 0 || vFresh(r.Definitions) && vForAllStr(func(n string) bool {
			return vHasKey(r.Definitions, n) == vHasKey(@S@.Definitions, n) && (!vHasKey(@S@.Definitions, n) || U_recast@D@(@S@.Definitions[n], r.Definitions[n]))
		})
	})
'''
    rens.append(e.replace('@S@','src')); jens.append(e.replace('@S@','j'))
    same=[f for f in scal+['Required','Enum','Examples']]
    rens.append('''	vEnsures("every keyword", func(r @T@) bool {
		return %s
	})
	vEnsures("nested schemas", func(r @T@) bool {
		return %s@NILX@
	})
'''%(" && ".join("vSame(r.%s, src.%s)"%(f,f) for f in same)," && ".join("U_recast@D@(src.%s, r.%s)"%(f,f) for f in subs)))
    jr=[f for f in same if f not in base|{'Version'}]
    jrest='g.Version == "" && '+" && ".join("vSame(g.%s, j.%s)"%(f,f) for f in jr)+' && '+" && ".join("U_recast@D@(j.%s, g.%s)"%(f,f) for f in subs)
    out.append(sub(tmpl))
    for k,(kws,special) in kinds.items():
        ens='';loops='';inv=''
        if kws:
            ens+='''
	vEnsures("type and facets", func(r @T@) bool {
		g := &r.JSONSchemaGeneric
		return %s
	})'''%(" && ".join("g.%s == %s"%(a,b) for a,b in kws))
        if k=='File':
            inv=' && (len(s.FileTypes) == 0 || s.FileTypes[0] != nil && sIsText(s.FileTypes[0].Value))'
        if k in('String','Integer','Number','Boolean'):
            inv=' && sEnumSet(s.Enum)'
            loops='''
	vLoopInv(func(k int, g @T@) bool {
		return len(g.Enum) == len(s.Enum) && vFresh(g.Enum)
	})
	vLoopInv(func(k int, g @T@) bool {
		return vForAll(0, k, func(i int) bool { return vSame(g.Enum[i], s.Enum[i].Value) })
	})'''
            ens+='''
	vEnsures("enumeration", func(r @T@) bool { return sEnumIs(s.Enum, r.Enum) })'''
        if k=='Array':
            inv=' && (s.Items == nil || s.Items.Shape != nil)'
            ens+='''
	vEnsures("items", func(r @T@) bool { return s.Items == nil && r.Items == nil || s.Items != nil && U_schema@D@(s.Items.Shape, r.Items) })'''
        if k=='Union':
            inv=' && vForAll(0, len(s.AnyOf), func(i int) bool { return s.AnyOf[i] != nil })'
            loops='''
	vLoopInv(func(k int, g @T@) bool { return list@D@(s.AnyOf, k, g.AnyOf) })'''
            ens+='''
	vEnsures("members", func(r @T@) bool { return list@D@(s.AnyOf, len(s.AnyOf), r.AnyOf) })'''
        if k=='Object':
            inv=''' && vForAll(0, vOMLen(s.Properties), func(i int) bool { return vOMVal(s.Properties, i).Base != nil }) &&
		vForAll(0, vOMLen(s.PatternProperties), func(i int) bool {
			p := vOMKey(s.PatternProperties, i)
			return vOMVal(s.PatternProperties, i).Base != nil && len(p) > 1 && p == "/"+sUnslash(p)+"/"
		})'''
            loops='''
	vLoopInv(func(k int, g @T@) bool { return props@D@(s.Properties, k, g.Properties) })
	vLoopInv(func(k int, g @T@) bool { return s.Properties != nil && props@D@(s.Properties, vOMLen(s.Properties), g.Properties) || s.Properties == nil && g.Properties == nil })
	vLoopInv(func(k int, g @T@) bool { return len(g.Required) == 0 && g.Required == nil || vFresh(g.Required) })
	vLoopInv(func(k int, g @T@) bool { return sReqIs(s.Properties, k, g.Required) })
	vLoopInv(func(k int, g @T@) bool { return sReqIs(s.Properties, vOMLen(s.Properties), g.Required) })
	vLoopInv(func(k int, g @T@) bool { return g.PatternProperties == nil })
	vLoopInv(func(k int, g @T@) bool {
		return vFresh(g.PatternProperties) && vOMLen(g.PatternProperties) == k && vForAll(0, k, func(i int) bool {
			return vOMKey(s.PatternProperties, i) == "/"+vOMKey(g.PatternProperties, i)+"/" && U_schema@D@(vOMVal(s.PatternProperties, i).Base.Shape, vOMVal(g.PatternProperties, i))
		})
	})'''
            ens+='''
	vEnsures("properties in order", func(r @T@) bool {
		return s.Properties == nil && r.Properties == nil || s.Properties != nil && props@D@(s.Properties, vOMLen(s.Properties), r.Properties)
	})
	vEnsures("exactly the required names", func(r @T@) bool { return sReqIs(s.Properties, vOMLen(s.Properties), r.Required) })
	vEnsures("pattern properties", func(r @T@) bool {
		n := vOMLen(s.PatternProperties)
		return s.PatternProperties == nil && r.PatternProperties == nil || s.PatternProperties != nil && vFresh(r.PatternProperties) && vOMLen(r.PatternProperties) == n &&
			vForAll(0, n, func(i int) bool {
				return vOMKey(s.PatternProperties, i) == "/"+vOMKey(r.PatternProperties, i)+"/" && U_schema@D@(vOMVal(s.PatternProperties, i).Base.Shape, vOMVal(r.PatternProperties, i))
			})
	})'''
        used=base|{a for a,_ in kws}|set(special)
        out.append(sub(visit,K=k,ENS=ens,LOOPS=loops,INV=inv,REST=rest(used)))
    out.append(sub(tail,VISITS='',RLOOPS=''.join(rloops),RENS=''.join(rens),JREST=jrest,JENS=''.join(jens)))
    if R: out.append(sub(raml))
for D in ('Plain','RAML'): dialect(D)
open('/verif/contracts/c10.go','w').write(''.join(out))
