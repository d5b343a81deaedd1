OM="github.com/wk8/go-ordered-map/v2"
P='''func vp[T any](v T) *T { return &v }

func vbase(s Shape, b *BaseShape) *BaseShape {
	b.Shape = s
	b.CustomShapeFacets = orderedmap.New[string, *Node]()
	b.CustomShapeFacetDefinitions = orderedmap.New[string, Property]()
	b.CustomDomainProperties = orderedmap.New[string, *DomainExtension]()
	return b
}

func vstr(min, max uint64) *BaseShape {
	b := &BaseShape{ID: int64(min*100 + max + 7), Type: TypeString, unwrapped: true}
	s := &StringShape{BaseShape: b}
	s.MinLength, s.MaxLength = &min, &max
	return vbase(s, b)
}
'''
PARSE='''
func vparse(t *testing.T, files map[string]string, entry string) (*RAML, error) {
	d := t.TempDir()
	for n, c := range files {
		if err := os.WriteFile(filepath.Join(d, n), []byte(c), 0o600); err != nil {
			t.Fatal(err)
		}
	}
	return ParseFromPath(filepath.Join(d, entry))
}
'''
bugs=[
dict(id="c07-pattern-after-union",prop="C07",file="complex.go",
 edits=[('''				stacktrace.WithPosition(&prop.Base.Position),
				stacktrace.WithInfo("property", prop.Pattern.String()))
		}
''','''				stacktrace.WithPosition(&prop.Base.Position),
				stacktrace.WithInfo("property", prop.Pattern.String()))
		}
		if _, ok := prop.Base.Shape.(*UnionShape); ok && pair.Next() != nil {
			pair = pair.Next()
		}
''')],imports=["regexp",OM],decls=P,
 demo='''	ub := &BaseShape{}
	vbase(&UnionShape{BaseShape: ub}, ub)
	pp := orderedmap.New[string, PatternProperty]()
	pp.Set("/a/", PatternProperty{Pattern: regexp.MustCompile("a"), Base: ub})
	pp.Set("/b/", PatternProperty{Pattern: regexp.MustCompile("b"), Base: vstr(5, 1)})
	ob := &BaseShape{}
	vbase(&ObjectShape{BaseShape: ob, ObjectFacets: ObjectFacets{PatternProperties: pp}}, ob)
	if ob.Check() == nil {
		t.Fatal("contradictory pattern property accepted")
	}''',needs="a contradictory pattern property right behind one of a union type",breaks="the pattern property behind a union is not checked"),
dict(id="c08-default-beside-examples",prop="C08",file="validate.go",
 edits=[("	if base.Default != nil {\n		if err := base.Validate(","	if base.Default != nil && (base.Examples == nil || base.Examples.Link == nil) {\n		if err := base.Validate(")],
 imports=[OM],decls=P,
 demo='''	b := vstr(0, 3)
	b.Examples = &Examples{Link: &NamedExample{Map: orderedmap.New[string, *Example]()}}
	b.Default = &Node{Value: "too long"}
	if New(t.Context()).validateExamples(b) == nil {
		t.Fatal("invalid default accepted")
	}''',needs="an invalid default on a type whose examples are an included NamedExample",breaks="the default is not validated"),
dict(id="c08-grandparent-facet",prop="C08",file="validate.go",
 edits=[("	for {\n		if len(inherits) == 0 {\n			break","	for {\n		if len(inherits) == 0 || len(validationFacetDefs) > 0 && len(inherits[0].Inherits) == 0 && inherits[0].Link != nil {\n			break")],
 imports=[OM],decls=P,
 demo="""	g, p, c := vstr(0, 9), vstr(0, 9), vstr(0, 9)
	g.Link = &DataType{}
	g.CustomShapeFacetDefinitions.Set("f", Property{Name: "f", Base: vstr(0, 2), Required: true})
	p.CustomShapeFacetDefinitions.Set("e", Property{Name: "e", Base: vstr(0, 2)})
	p.Inherits = []*BaseShape{g}
	c.Inherits = []*BaseShape{p}
	if New(t.Context()).validateShapeFacets(c) == nil {
		t.Fatal("required custom facet of the grandparent is missing, but accepted")
	}""",needs="a required custom facet of the last ancestor, which links to a data type, with a nearer ancestor that defines another",breaks="the last ancestor's facet definitions are skipped"),
dict(id="c09-inherits-shared-single",prop="C09",file="shape.go",
 edits=[("		for i, v := range s.Inherits {\n			c.Inherits[i] = v.clone(clonedMap)\n		}","		for i, v := range s.Inherits {\n			c.Inherits[i] = v\n			if v.Link == nil || v.Alias != nil {\n				c.Inherits[i] = v.clone(clonedMap)\n			}\n		}")],
 imports=[OM],decls=P,
 demo='''	p, c := vstr(0, 9), vstr(1, 9)
	p.Link = &DataType{Shape: vstr(2, 9)}
	c.Inherits = []*BaseShape{p}
	if c.CloneDetached().Inherits[0] == p {
		t.Fatal("the copy shares its parent")
	}''',needs="a parent that links to an included data type and is not itself an alias",breaks="the copy shares its parent with the original"),
dict(id="c10-default-not-required",prop="C10",file="jsonschemaconv.go",
 edits=[("			if v.Required {\n","			if v.Required && (v.Base.Default == nil || v.Base.Required != nil) {\n")],
 imports=[OM],decls=P,
 demo='''	props := orderedmap.New[string, Property]()
	a := vstr(0, 3)
	a.Default = &Node{Value: "x"}
	props.Set("a", Property{Name: "a", Base: a, Required: true})
	ob := &BaseShape{Name: "o", unwrapped: true}
	vbase(&ObjectShape{BaseShape: ob, ObjectFacets: ObjectFacets{Properties: props}}, ob)
	conv, err := NewJSONSchemaConverter[*JSONSchemaRAML](WithWrapper(JSONSchemaWrapper))
	if err != nil {
		t.Fatal(err)
	}
	s, err := conv.Convert(ob.Shape)
	if err != nil {
		t.Fatal(err)
	}
	if r := s.Definitions["o"].Required; len(r) != 1 || r[0] != "a" {
		t.Fatalf("required %v", r)
	}''',needs="a required property that has a default and no explicit 'required' facet",breaks="the property is left out of the required names"),
dict(id="c11-anyof-single-shared",prop="C11",file="schema.go",
 edits=[("		for i, v := range js.OneOf {\n			newJs.OneOf[i] = v.DeepCopy()\n		}","		for i, v := range js.OneOf {\n			if newJs.OneOf[i] = v; i < len(js.OneOf)-1 || len(js.AnyOf) == 0 {\n				newJs.OneOf[i] = v.DeepCopy()\n			}\n		}")],
 demo='''	in := &JSONSchema{JSONSchemaGeneric: JSONSchemaGeneric[*JSONSchema]{Type: "string"}}
	s := &JSONSchemaGeneric[*JSONSchema]{AnyOf: []*JSONSchema{in}, OneOf: []*JSONSchema{in}}
	if c := s.DeepCopy(); c.OneOf[0] == in {
		t.Fatal("the copy shares a member of oneOf")
	}''',needs="a schema with both anyOf and oneOf",breaks="the last oneOf member is shared"),
dict(id="c12-fallback-local",prop="C12",file="fragment.go",
 edits=[("			rr, ok = lib.Link.Types.Get(after)\n","			rr, ok = lib.Link.Types.Get(after)\n			if !ok {\n				rr, ok = l.Types.Get(after)\n			}\n")],
 imports=[OM],decls=P,
 demo="""	r := New(t.Context())
	l, m := r.MakeLibrary("/a.raml"), r.MakeLibrary("/b.raml")
	l.Types.Set("T", vstr(0, 3))
	l.Uses.Set("m", &LibraryLink{Link: m})
	if s, err := l.GetReferenceType("m.T"); err == nil || s != nil {
		t.Fatalf("m.T found: %v", s)
	}""",needs="a qualified reference to a type the library does not declare while the referring library declares one of that name",breaks="it resolves to the local type"),
dict(id="c14-required-dropped",prop="C14",file="complex.go",
 edits=[("		if hasImplicitOptional {\n			finalName = nodeName\n		}\n		required = *shapeRequired","		if hasImplicitOptional {\n			finalName = nodeName\n		}\n		required = *shapeRequired && (!hasImplicitOptional || shape.Default == nil)")],
 imports=["os","path/filepath"],decls=PARSE,
 demo='''	r, err := vparse(t, map[string]string{"l.raml": "#%RAML 1.0 Library\\ntypes:\\n  T:\\n    properties:\\n      a?:\\n        type: string\\n        default: x\\n        required: true\\n"}, "l.raml")
	if err != nil {
		t.Fatal(err)
	}
	T, _ := r.EntryPoint().(*Library).Types.Get("T")
	p, ok := T.Shape.(*ObjectShape).Properties.Get("a?")
	if !ok || !p.Required {
		t.Fatalf("property a? %v %+v", ok, p)
	}''',needs="a property named with '?', declared required and with a default",breaks="an explicit 'required: true' is ignored"),
dict(id="c15-explicit-timestamp",prop="C15",file="node.go",
 edits=[("	case TagTimestamp:\n		return node.Value, nil","	case TagTimestamp:\n		if node.Style&yaml.TaggedStyle != 0 && node.Style != yaml.TaggedStyle {\n			var val any\n			err := node.Decode(&val)\n			return val, err\n		}\n		return node.Value, nil")],
 imports=["gopkg.in/yaml.v3"],
 demo="""	var n yaml.Node
	if err := yaml.Unmarshal([]byte("[!!timestamp '2020-01-02']"), &n); err != nil {
		t.Fatal(err)
	}
	v, err := yamlNodeToDataNode(&n, "/a.raml", false)
	if err != nil {
		t.Fatal(err)
	}
	if s, ok := v.([]any)[0].(string); !ok || s != "2020-01-02" {
		t.Fatalf("timestamp kept as %T", v.([]any)[0])
	}""",needs="a quoted scalar with an explicit timestamp tag",breaks="the timestamp is not kept as text"),
dict(id="c17-nil-hook-stops",prop="C17",file="raml.go",
 edits=[("		if hook == nil {\n			continue","		if hook == nil {\n			break")],
 imports=["context"],
 demo="""	r := New(t.Context())
	n := 0
	r.AppendHook("k", func(context.Context, *RAML, ...any) error { n++; return nil })
	r.AppendHook("k", nil)
	r.AppendHook("k", func(context.Context, *RAML, ...any) error { n++; return nil })
	if err := r.callHooks("k"); err != nil || n != 2 {
		t.Fatalf("%v, %d hooks ran", err, n)
	}""",needs="a nil hook between two others",breaks="the hooks behind a nil hook do not run"),
dict(id="c17-prepend-second",prop="C17",file="raml.go",
 edits=[("	hooks = append([]HookFunc{hook}, hooks...)","	if n := len(hooks); n > 2 {\n		hooks = append(hooks[:1:1], append([]HookFunc{hook}, hooks[1:]...)...)\n	} else {\n		hooks = append([]HookFunc{hook}, hooks...)\n	}")],
 imports=["context"],
 demo="""	r := New(t.Context())
	var log string
	mk := func(s string) HookFunc {
		return func(context.Context, *RAML, ...any) error { log += s; return nil }
	}
	for _, s := range []string{"d", "c", "b", "a"} {
		r.PrependHook("k", mk(s))
	}
	if err := r.callHooks("k"); err != nil || log != "abcd" {
		t.Fatalf("%v %s", err, log)
	}""",needs="prepending to three or more hooks",breaks="the prepended hook runs second"),
dict(id="c18-uses-empty-library",prop="C18",file="parse.go",
 edits=[("		include.Link = sublib\n	}\n	if st != nil","		if sublib != nil && sublib.Types.Len()+sublib.Uses.Len() == 0 {\n			continue\n		}\n		include.Link = sublib\n	}\n	if st != nil")],
 imports=["os","path/filepath"],decls=PARSE,
 demo="""	r, err := vparse(t, map[string]string{"l.raml": "#%RAML 1.0 Library\\nuses:\\n  a: m.raml\\n", "m.raml": "#%RAML 1.0 Library\\nannotationTypes:\\n  T: string\\n"}, "l.raml")
	if err != nil {
		t.Fatal(err)
	}
	for p := r.EntryPoint().(*Library).Uses.Oldest(); p != nil; p = p.Next() {
		if p.Value.Link == nil {
			t.Fatalf("uses %s leads nowhere", p.Key)
		}
	}""",needs="a used library that declares annotation types only",breaks="its alias has no library"),
dict(id="c18-head-trimspace",prop="C18",file="parse.go",
 edits=[('	head = strings.TrimRight(head, "\\r\\n ")','	head = strings.TrimSpace(head)')],
 imports=["strings"],
 demo="""	h, err := ReadHead(strings.NewReader("  #%RAML 1.0 Library\\nx: y\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if k, err := IdentifyFragment(h); err == nil {
		t.Fatalf("accepted as %v", k)
	}""",needs="a first line with blanks in front of the header",breaks="a document whose first line is not a header is accepted"),
dict(id="c20-array-empty-unique",prop="C20",file="complex.go",
 edits=[("	s.UniqueItems = ss.UniqueItems\n	return s, nil","	if s.UniqueItems = ss.UniqueItems; s.MaxItems != nil && *s.MaxItems == 0 {\n		s.MaxItems = nil\n	}\n	return s, nil")],
 imports=[OM],decls=P,
 demo='''	sb, tb := &BaseShape{}, &BaseShape{}
	vbase(&ArrayShape{BaseShape: sb, ArrayFacets: ArrayFacets{MaxItems: vp(uint64(0))}}, sb)
	vbase(&ArrayShape{BaseShape: tb}, tb)
	if _, err := tb.AliasTo(sb); err != nil {
		t.Fatal(err)
	}
	if tb.Validate([]any{1}) == nil {
		t.Fatal("the alias accepts what the source refuses")
	}''',needs="a source with maxItems: 0",breaks="the alias has no upper bound"),
]
