P='func vp[T any](v T) *T { return &v }\n'
bugs=[
dict(id="c02-unique-skips-null",prop="C02",file="complex.go",
 edits=[("		if validateUniqueItems {\n","		if validateUniqueItems && item != nil {\n")],decls=P,
 demo='''	b := &BaseShape{}
	b.Shape = &ArrayShape{BaseShape: b, ArrayFacets: ArrayFacets{UniqueItems: vp(true)}}
	if err := b.Validate([]any{nil, "a"}); err != nil {
		t.Fatalf("distinct items refused: %v", err)
	}
	if err := b.Validate([]any{"a", "a"}); err == nil {
		t.Fatal("duplicates accepted")
	}''',needs="uniqueItems and a null element among otherwise distinct elements",breaks="an array of distinct elements is refused when one of them is null"),
dict(id="c03-first-pattern-only",prop="C03",file="complex.go",
 edits=[("		if st == nil {\n			st = se\n		} else {\n			st = st.Append(se)\n		}\n	}\n	if st != nil {","		if st == nil {\n			st = se\n		} else {\n			st = st.Append(se)\n		}\n		if k == pp.Pattern.FindString(k) {\n			break\n		}\n	}\n	if st != nil {")],
 imports=["regexp","github.com/wk8/go-ordered-map/v2"],
 demo='''	mk := func(s Shape, b *BaseShape) *BaseShape { b.Shape = s; return b }
	sb, ib := &BaseShape{}, &BaseShape{}
	str := mk(&StringShape{BaseShape: sb}, sb)
	num := mk(&IntegerShape{BaseShape: ib}, ib)
	pp := orderedmap.New[string, PatternProperty]()
	pp.Set("/a/", PatternProperty{Pattern: regexp.MustCompile("^a.*$"), Base: str})
	pp.Set("/b/", PatternProperty{Pattern: regexp.MustCompile("b"), Base: num})
	ob := &BaseShape{}
	o := mk(&ObjectShape{BaseShape: ob, ObjectFacets: ObjectFacets{PatternProperties: pp}}, ob)
	if err := o.Validate(map[string]any{"ab": 1}); err != nil {
		t.Fatalf("valid against the second pattern but refused: %v", err)
	}''',needs="an undeclared property matched in full by a failing pattern property that is followed by another one it also matches",breaks="later matching pattern properties are not tried"),
dict(id="c03-required-after-optional",prop="C03",file="complex.go",
 edits=[("		if !pair.Value.Required {\n			continue\n		}","		if !pair.Value.Required && len(missing) > 0 {\n			continue\n		}\n		if !pair.Value.Required && pair.Next() != nil && !pair.Next().Value.Required {\n			break\n		}\n		if !pair.Value.Required {\n			continue\n		}")],
 imports=["github.com/wk8/go-ordered-map/v2"],
 demo='''	props := orderedmap.New[string, Property]()
	for i, n := range []string{"a", "b", "c"} {
		b := &BaseShape{}
		b.Shape = &StringShape{BaseShape: b}
		props.Set(n, Property{Name: n, Base: b, Required: i == 2})
	}
	ob := &BaseShape{}
	ob.Shape = &ObjectShape{BaseShape: ob, ObjectFacets: ObjectFacets{Properties: props}}
	if err := ob.Validate(map[string]any{"a": "x"}); err == nil {
		t.Fatal("required property missing but accepted")
	}''',needs="two optional properties in a row before a missing required one",breaks="a missing required property goes unnoticed"),
dict(id="c04-union-same-type-skip",prop="C04",file="complex.go",
 edits=[("	for _, item := range s.AnyOf {\n		err = item.Shape.validate(v, ctxPath)","	for i, item := range s.AnyOf {\n		if i > 1 && item.Type == s.AnyOf[i-1].Type && item.Type == s.AnyOf[i-2].Type {\n			continue\n		}\n		err = item.Shape.validate(v, ctxPath)")],
 imports=["regexp"],
 demo='''	var ms []*BaseShape
	for _, p := range []string{"^a$", "^b$", "^c$"} {
		b := &BaseShape{Type: TypeString}
		b.Shape = &StringShape{BaseShape: b, StringFacets: StringFacets{Pattern: regexp.MustCompile(p)}}
		ms = append(ms, b)
	}
	u := &BaseShape{}
	u.Shape = &UnionShape{BaseShape: u, UnionFacets: UnionFacets{AnyOf: ms}}
	for _, v := range []string{"a", "b", "c"} {
		if err := u.Validate(v); err != nil {
			t.Fatalf("%s refused: %v", v, err)
		}
	}''',needs="a union with three members of the same type in a row, and a value only the third admits",breaks="a member is never tried"),
dict(id="c05-enum-found-hoisted",prop="C05",file="scalars.go",
 edits=[("	for _, v := range target {\n		found := false\n","	found := false\n	for _, v := range target {\n		found = found && len(target) > len(source)\n")],
 demo='''	n := func(vs ...any) Nodes {
		var r Nodes
		for _, v := range vs {
			r = append(r, &Node{Value: v})
		}
		return r
	}
	pb, cb := &BaseShape{Type: TypeString}, &BaseShape{Type: TypeString}
	p := &StringShape{BaseShape: pb, EnumFacets: EnumFacets{Enum: n("a", "b")}}
	c := &StringShape{BaseShape: cb, EnumFacets: EnumFacets{Enum: n("a", "a", "z")}}
	if _, err := c.inherit(p); err == nil {
		t.Fatal("enum widened on inheritance")
	}''',needs="a child enumeration longer than the parent's whose first entries are compatible",breaks="a looser enumeration is accepted when inheriting"),
dict(id="c05-string-pattern-length",prop="C05",file="scalars.go",
 edits=[("	if s.Pattern == nil {\n		s.Pattern = ss.Pattern\n	}","	if s.Pattern == nil || s.MaxLength == ss.MaxLength && ss.Pattern != nil {\n		s.Pattern = ss.Pattern\n	}")],
 imports=["regexp"],
 demo='''	pb, cb := &BaseShape{Type: TypeString}, &BaseShape{Type: TypeString}
	m := uint64(5)
	p := &StringShape{BaseShape: pb, StringFacets: StringFacets{LengthFacets: LengthFacets{MaxLength: &m}, Pattern: regexp.MustCompile("x")}}
	c := &StringShape{BaseShape: cb, StringFacets: StringFacets{Pattern: regexp.MustCompile("y")}}
	if _, err := c.inherit(p); err != nil {
		t.Fatal(err)
	}
	if c.Pattern.String() != "y" {
		t.Fatal("own pattern lost")
	}''',needs="both types declare a pattern and the child takes its maximum length from the parent",breaks="the child's own pattern is replaced by the parent's"),
dict(id="c01-rfc2616-zone",prop="C01",file="scalars.go",
 edits=[("	if _, err := time.Parse(RFC2616, i)","	if _, err := time.Parse(time.RFC1123, i)")],
 demo='''	f := DateTimeFormatRFC2616
	b := &BaseShape{}
	b.Shape = &DateTimeShape{BaseShape: b, FormatFacets: FormatFacets{Format: &f}}
	if err := b.Validate("Sun, 28 Feb 2016 16:41:41 CET"); err == nil {
		t.Fatal("not an RFC 2616 date")
	}
	if err := b.Validate("Sun, 28 Feb 2016 16:41:41 GMT"); err != nil {
		t.Fatal(err)
	}''',needs="a datetime with rfc2616 format and a zone other than GMT",breaks="dates in other zones are accepted"),
]
