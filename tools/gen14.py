# generates contracts/c14s.go
SH=[ # shape, [(facet, kind, field, gotype)], frames
("String",[("minLength","dec","MinLength","*uint64"),("maxLength","dec","MaxLength","*uint64"),("pattern","re","Pattern",""),("enum","enum","Enum","")],"&s.StringFacets, &s.EnumFacets"),
("Integer",[("minimum","big","Minimum",""),("maximum","big","Maximum",""),("multipleOf","dec","MultipleOf","*float64"),("format","fmt","Format","SetOfIntegerFormats"),("enum","enum","Enum","")],"&s.IntegerFacets, &s.EnumFacets, &s.FormatFacets"),
("Number",[("minimum","dec","Minimum","*float64"),("maximum","dec","Maximum","*float64"),("multipleOf","dec","MultipleOf","*float64"),("format","fmt","Format","SetOfNumberFormats"),("enum","enum","Enum","")],"&s.NumberFacets, &s.EnumFacets, &s.FormatFacets"),
("File",[("minLength","dec","MinLength","*uint64"),("maxLength","dec","MaxLength","*uint64"),("fileTypes","ft","FileTypes","")],"&s.FileFacets, &s.LengthFacets"),
("Boolean",[("enum","enum","Enum","")],"&s.EnumFacets"),
("DateTime",[("format","fmt","Format","SetOfDateTimeFormats")],"&s.FormatFacets"),
("DateTimeOnly",[],""),("DateOnly",[],""),("TimeOnly",[],""),("Any",[],""),("Nil",[],""),
]
out=['package raml','','import "gopkg.in/yaml.v3"','','// Generated by tools/gen14.py.','']
w=out.append
for n,fs,fr in SH:
    names=", ".join('"%s"'%f[0] for f in fs)
    w(f'func known{n}(name string) bool {{')
    if fs:
        w(f'\tswitch name {{\n\tcase {names}:\n\t\treturn true\n\t}}')
    w('\treturn false\n}\n')
    w(f'// {n[0].lower()+n[1:]}PairOK: the value of the pair is well-formed.')
    w(f'func pairOK{n}(name string, n *yaml.Node, loc string) bool {{')
    w('\tswitch name {')
    for f,k,fld,t in fs:
        w(f'\tcase "{f}":')
        c={'dec':f'vDecOK[{t}](n)','re':'sPatternOK(n)','enum':'sEnumOK(n, loc)','big':'sBigOK(n)','fmt':f'vHasKey({t}, n.Value) && vDecOK[*string](n)','ft':'sFileTypesOK(n, loc)'}[k]
        w(f'\t\treturn {c}')
    w('\t}\n\treturn U_rootOK(n, loc)\n}\n')
    w(f'func contract_{n}Shape_unmarshalYAMLNodes(s *{n}Shape, v []*yaml.Node) {{')
    w('\tvProp("C14")')
    w('\tvInvariant("nodes present", sNodes(v))')
    if n=="File": w('\tvInvariant("child nodes present", vForAll(0, len(v), func(j int) bool { return sNodes(v[j].Content) }))')
    w('\tvRequires("type", s != nil && s.BaseShape != nil)')
    w('\tvInvariant("custom facet table", s.CustomShapeFacets != nil)')
    w(f'\tvModifies({fr+", " if fr else ""}s.CustomShapeFacets)')
    w('\tloc, c, c0 := s.Location, s.CustomShapeFacets, vSnapOM(s.CustomShapeFacets)')
    if fs:
        w('\t'+", ".join('o%d'%i for i in range(len(fs)))+' := '+", ".join('s.'+f[2] for f in fs))
    def clause(i,f):
        facet,k,fld,t=f
        same={'dec':f'vIsDec(s.{fld}, v[2*j+1], o{i})','re':f'isPattern(s.{fld}, v[2*j+1])','enum':f'isEnum(s.{fld}, v[2*j+1], loc)','big':f'isBig(s.{fld}, v[2*j+1])','fmt':f'vIsDec(s.{fld}, v[2*j+1], o{i})','ft':f'isEnum(s.{fld}, v[2*j+1], loc)'}[k]
        kept=f'vSame(s.{fld}, o{i})'
        return f'sLast(v, k, "{facet}", func(j int) bool {{ return {same} }}, {kept})'
    for i,f in enumerate(fs):
        w(f'\tf{i} := func(k int) bool {{ return {clause(i,f)} }}')
        w(f'\tvLoopInv(func(k int) bool {{ return f{i}(k) }})')
    w(f'\tcus := func(k int) bool {{ return sCustom(v, k, loc, c, c0, known{n}) }}')
    w('\tvLoopInv(func(k int) bool { return cus(k) })')
    w(f'\tok := func(j int) bool {{ return pairOK{n}(v[2*j].Value, v[2*j+1], loc) }}')
    w('\tvElem(ok)')
    if any(f[1] in('ft','enum') for f in fs) and n=="File":
        w('\tvLoopInv(func(k int, c []*yaml.Node, ft Nodes) bool { return vForAll(0, k, func(i int) bool { return ft[i] != nil && U_isRoot(c[i], loc, ft[i]) && U_rootOK(c[i], loc) && c[i].Tag == "!!str" }) })')
    w('\tn := len(v) / 2')
    w('\tvEnsures("malformed values and dangling keys are errors", func(err error) bool { return (err == nil) == (len(v)%2 == 0 && vForAll(0, n, ok)) })')
    for i,f in enumerate(fs):
        w(f'\tvEnsures("{f[0]}", func(err error) bool {{ return err != nil || f{i}(n) }})')
    w('\tvEnsures("everything else is a custom facet", func(err error) bool { return err != nil || cus(n) })')
    w('}\n')
open('/verif/contracts/c14s.go','w').write("\n".join(out))
