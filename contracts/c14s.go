package raml

import "gopkg.in/yaml.v3"

// Generated by tools/gen14.py.

func knownString(name string) bool {
	switch name {
	case "minLength", "maxLength", "pattern", "enum":
		return true
	}
	return false
}

// stringPairOK: the value of the pair is well-formed.
func pairOKString(name string, n *yaml.Node, loc string) bool {
	switch name {
	case "minLength":
		return vDecOK[*uint64](n)
	case "maxLength":
		return vDecOK[*uint64](n)
	case "pattern":
		return sPatternOK(n)
	case "enum":
		return sEnumOK(n, loc)
	}
	return U_rootOK(n, loc)
}

func contract_StringShape_unmarshalYAMLNodes(s *StringShape, v []*yaml.Node) {
	vProp("C14")
	vInvariant("nodes present", sNodes(v))
	vRequires("type", s != nil && s.BaseShape != nil)
	vInvariant("custom facet table", s.CustomShapeFacets != nil)
	vModifies(&s.StringFacets, &s.EnumFacets, s.CustomShapeFacets)
	loc, c, c0 := s.Location, s.CustomShapeFacets, vSnapOM(s.CustomShapeFacets)
	o0, o1, o2, o3 := s.MinLength, s.MaxLength, s.Pattern, s.Enum
	f0 := func(k int) bool {
		return sLast(v, k, "minLength", func(j int) bool { return vIsDec(s.MinLength, v[2*j+1], o0) }, vSame(s.MinLength, o0))
	}
	vLoopInv(func(k int) bool { return f0(k) })
	f1 := func(k int) bool {
		return sLast(v, k, "maxLength", func(j int) bool { return vIsDec(s.MaxLength, v[2*j+1], o1) }, vSame(s.MaxLength, o1))
	}
	vLoopInv(func(k int) bool { return f1(k) })
	f2 := func(k int) bool {
		return sLast(v, k, "pattern", func(j int) bool { return isPattern(s.Pattern, v[2*j+1]) }, vSame(s.Pattern, o2))
	}
	vLoopInv(func(k int) bool { return f2(k) })
	f3 := func(k int) bool {
		return sLast(v, k, "enum", func(j int) bool { return isEnum(s.Enum, v[2*j+1], loc) }, vSame(s.Enum, o3))
	}
	vLoopInv(func(k int) bool { return f3(k) })
	cus := func(k int) bool { return sCustom(v, k, loc, c, c0, knownString) }
	vLoopInv(func(k int) bool { return cus(k) })
	ok := func(j int) bool { return pairOKString(v[2*j].Value, v[2*j+1], loc) }
	vElem(ok)
	n := len(v) / 2
	vEnsures("malformed values and dangling keys are errors", func(err error) bool { return (err == nil) == (len(v)%2 == 0 && vForAll(0, n, ok)) })
	vEnsures("minLength", func(err error) bool { return err != nil || f0(n) })
	vEnsures("maxLength", func(err error) bool { return err != nil || f1(n) })
	vEnsures("pattern", func(err error) bool { return err != nil || f2(n) })
	vEnsures("enum", func(err error) bool { return err != nil || f3(n) })
	vEnsures("everything else is a custom facet", func(err error) bool { return err != nil || cus(n) })
}

func knownInteger(name string) bool {
	switch name {
	case "minimum", "maximum", "multipleOf", "format", "enum":
		return true
	}
	return false
}

// integerPairOK: the value of the pair is well-formed.
func pairOKInteger(name string, n *yaml.Node, loc string) bool {
	switch name {
	case "minimum":
		return sBigOK(n)
	case "maximum":
		return sBigOK(n)
	case "multipleOf":
		return vDecOK[*float64](n)
	case "format":
		return vHasKey(SetOfIntegerFormats, n.Value) && vDecOK[*string](n)
	case "enum":
		return sEnumOK(n, loc)
	}
	return U_rootOK(n, loc)
}

func contract_IntegerShape_unmarshalYAMLNodes(s *IntegerShape, v []*yaml.Node) {
	vProp("C14")
	vInvariant("nodes present", sNodes(v))
	vRequires("type", s != nil && s.BaseShape != nil)
	vInvariant("custom facet table", s.CustomShapeFacets != nil)
	vModifies(&s.IntegerFacets, &s.EnumFacets, &s.FormatFacets, s.CustomShapeFacets)
	loc, c, c0 := s.Location, s.CustomShapeFacets, vSnapOM(s.CustomShapeFacets)
	o0, o1, o2, o3, o4 := s.Minimum, s.Maximum, s.MultipleOf, s.Format, s.Enum
	f0 := func(k int) bool {
		return sLast(v, k, "minimum", func(j int) bool { return isBig(s.Minimum, v[2*j+1]) }, vSame(s.Minimum, o0))
	}
	vLoopInv(func(k int) bool { return f0(k) })
	f1 := func(k int) bool {
		return sLast(v, k, "maximum", func(j int) bool { return isBig(s.Maximum, v[2*j+1]) }, vSame(s.Maximum, o1))
	}
	vLoopInv(func(k int) bool { return f1(k) })
	f2 := func(k int) bool {
		return sLast(v, k, "multipleOf", func(j int) bool { return vIsDec(s.MultipleOf, v[2*j+1], o2) }, vSame(s.MultipleOf, o2))
	}
	vLoopInv(func(k int) bool { return f2(k) })
	f3 := func(k int) bool {
		return sLast(v, k, "format", func(j int) bool { return vIsDec(s.Format, v[2*j+1], o3) }, vSame(s.Format, o3))
	}
	vLoopInv(func(k int) bool { return f3(k) })
	f4 := func(k int) bool {
		return sLast(v, k, "enum", func(j int) bool { return isEnum(s.Enum, v[2*j+1], loc) }, vSame(s.Enum, o4))
	}
	vLoopInv(func(k int) bool { return f4(k) })
	cus := func(k int) bool { return sCustom(v, k, loc, c, c0, knownInteger) }
	vLoopInv(func(k int) bool { return cus(k) })
	ok := func(j int) bool { return pairOKInteger(v[2*j].Value, v[2*j+1], loc) }
	vElem(ok)
	n := len(v) / 2
	vEnsures("malformed values and dangling keys are errors", func(err error) bool { return (err == nil) == (len(v)%2 == 0 && vForAll(0, n, ok)) })
	vEnsures("minimum", func(err error) bool { return err != nil || f0(n) })
	vEnsures("maximum", func(err error) bool { return err != nil || f1(n) })
	vEnsures("multipleOf", func(err error) bool { return err != nil || f2(n) })
	vEnsures("format", func(err error) bool { return err != nil || f3(n) })
	vEnsures("enum", func(err error) bool { return err != nil || f4(n) })
	vEnsures("everything else is a custom facet", func(err error) bool { return err != nil || cus(n) })
}

func knownNumber(name string) bool {
	switch name {
	case "minimum", "maximum", "multipleOf", "format", "enum":
		return true
	}
	return false
}

// numberPairOK: the value of the pair is well-formed.
func pairOKNumber(name string, n *yaml.Node, loc string) bool {
	switch name {
	case "minimum":
		return vDecOK[*float64](n)
	case "maximum":
		return vDecOK[*float64](n)
	case "multipleOf":
		return vDecOK[*float64](n)
	case "format":
		return vHasKey(SetOfNumberFormats, n.Value) && vDecOK[*string](n)
	case "enum":
		return sEnumOK(n, loc)
	}
	return U_rootOK(n, loc)
}

func contract_NumberShape_unmarshalYAMLNodes(s *NumberShape, v []*yaml.Node) {
	vProp("C14")
	vInvariant("nodes present", sNodes(v))
	vRequires("type", s != nil && s.BaseShape != nil)
	vInvariant("custom facet table", s.CustomShapeFacets != nil)
	vModifies(&s.NumberFacets, &s.EnumFacets, &s.FormatFacets, s.CustomShapeFacets)
	loc, c, c0 := s.Location, s.CustomShapeFacets, vSnapOM(s.CustomShapeFacets)
	o0, o1, o2, o3, o4 := s.Minimum, s.Maximum, s.MultipleOf, s.Format, s.Enum
	f0 := func(k int) bool {
		return sLast(v, k, "minimum", func(j int) bool { return vIsDec(s.Minimum, v[2*j+1], o0) }, vSame(s.Minimum, o0))
	}
	vLoopInv(func(k int) bool { return f0(k) })
	f1 := func(k int) bool {
		return sLast(v, k, "maximum", func(j int) bool { return vIsDec(s.Maximum, v[2*j+1], o1) }, vSame(s.Maximum, o1))
	}
	vLoopInv(func(k int) bool { return f1(k) })
	f2 := func(k int) bool {
		return sLast(v, k, "multipleOf", func(j int) bool { return vIsDec(s.MultipleOf, v[2*j+1], o2) }, vSame(s.MultipleOf, o2))
	}
	vLoopInv(func(k int) bool { return f2(k) })
	f3 := func(k int) bool {
		return sLast(v, k, "format", func(j int) bool { return vIsDec(s.Format, v[2*j+1], o3) }, vSame(s.Format, o3))
	}
	vLoopInv(func(k int) bool { return f3(k) })
	f4 := func(k int) bool {
		return sLast(v, k, "enum", func(j int) bool { return isEnum(s.Enum, v[2*j+1], loc) }, vSame(s.Enum, o4))
	}
	vLoopInv(func(k int) bool { return f4(k) })
	cus := func(k int) bool { return sCustom(v, k, loc, c, c0, knownNumber) }
	vLoopInv(func(k int) bool { return cus(k) })
	ok := func(j int) bool { return pairOKNumber(v[2*j].Value, v[2*j+1], loc) }
	vElem(ok)
	n := len(v) / 2
	vEnsures("malformed values and dangling keys are errors", func(err error) bool { return (err == nil) == (len(v)%2 == 0 && vForAll(0, n, ok)) })
	vEnsures("minimum", func(err error) bool { return err != nil || f0(n) })
	vEnsures("maximum", func(err error) bool { return err != nil || f1(n) })
	vEnsures("multipleOf", func(err error) bool { return err != nil || f2(n) })
	vEnsures("format", func(err error) bool { return err != nil || f3(n) })
	vEnsures("enum", func(err error) bool { return err != nil || f4(n) })
	vEnsures("everything else is a custom facet", func(err error) bool { return err != nil || cus(n) })
}

func knownFile(name string) bool {
	switch name {
	case "minLength", "maxLength", "fileTypes":
		return true
	}
	return false
}

// filePairOK: the value of the pair is well-formed.
func pairOKFile(name string, n *yaml.Node, loc string) bool {
	switch name {
	case "minLength":
		return vDecOK[*uint64](n)
	case "maxLength":
		return vDecOK[*uint64](n)
	case "fileTypes":
		return sFileTypesOK(n, loc)
	}
	return U_rootOK(n, loc)
}

func contract_FileShape_unmarshalYAMLNodes(s *FileShape, v []*yaml.Node) {
	vProp("C14")
	vInvariant("nodes present", sNodes(v))
	vInvariant("child nodes present", vForAll(0, len(v), func(j int) bool { return sNodes(v[j].Content) }))
	vRequires("type", s != nil && s.BaseShape != nil)
	vInvariant("custom facet table", s.CustomShapeFacets != nil)
	vModifies(&s.FileFacets, &s.LengthFacets, s.CustomShapeFacets)
	loc, c, c0 := s.Location, s.CustomShapeFacets, vSnapOM(s.CustomShapeFacets)
	o0, o1, o2 := s.MinLength, s.MaxLength, s.FileTypes
	f0 := func(k int) bool {
		return sLast(v, k, "minLength", func(j int) bool { return vIsDec(s.MinLength, v[2*j+1], o0) }, vSame(s.MinLength, o0))
	}
	vLoopInv(func(k int) bool { return f0(k) })
	f1 := func(k int) bool {
		return sLast(v, k, "maxLength", func(j int) bool { return vIsDec(s.MaxLength, v[2*j+1], o1) }, vSame(s.MaxLength, o1))
	}
	vLoopInv(func(k int) bool { return f1(k) })
	f2 := func(k int) bool {
		return sLast(v, k, "fileTypes", func(j int) bool { return isEnum(s.FileTypes, v[2*j+1], loc) }, vSame(s.FileTypes, o2))
	}
	vLoopInv(func(k int) bool { return f2(k) })
	cus := func(k int) bool { return sCustom(v, k, loc, c, c0, knownFile) }
	vLoopInv(func(k int) bool { return cus(k) })
	ok := func(j int) bool { return pairOKFile(v[2*j].Value, v[2*j+1], loc) }
	vElem(ok)
	vLoopInv(func(k int, c []*yaml.Node, ft Nodes) bool {
		return vForAll(0, k, func(i int) bool {
			return ft[i] != nil && U_isRoot(c[i], loc, ft[i]) && U_rootOK(c[i], loc) && c[i].Tag == "!!str"
		})
	})
	n := len(v) / 2
	vEnsures("malformed values and dangling keys are errors", func(err error) bool { return (err == nil) == (len(v)%2 == 0 && vForAll(0, n, ok)) })
	vEnsures("minLength", func(err error) bool { return err != nil || f0(n) })
	vEnsures("maxLength", func(err error) bool { return err != nil || f1(n) })
	vEnsures("fileTypes", func(err error) bool { return err != nil || f2(n) })
	vEnsures("everything else is a custom facet", func(err error) bool { return err != nil || cus(n) })
}

func knownBoolean(name string) bool {
	switch name {
	case "enum":
		return true
	}
	return false
}

// booleanPairOK: the value of the pair is well-formed.
func pairOKBoolean(name string, n *yaml.Node, loc string) bool {
	switch name {
	case "enum":
		return sEnumOK(n, loc)
	}
	return U_rootOK(n, loc)
}

func contract_BooleanShape_unmarshalYAMLNodes(s *BooleanShape, v []*yaml.Node) {
	vProp("C14")
	vInvariant("nodes present", sNodes(v))
	vRequires("type", s != nil && s.BaseShape != nil)
	vInvariant("custom facet table", s.CustomShapeFacets != nil)
	vModifies(&s.EnumFacets, s.CustomShapeFacets)
	loc, c, c0 := s.Location, s.CustomShapeFacets, vSnapOM(s.CustomShapeFacets)
	o0 := s.Enum
	f0 := func(k int) bool {
		return sLast(v, k, "enum", func(j int) bool { return isEnum(s.Enum, v[2*j+1], loc) }, vSame(s.Enum, o0))
	}
	vLoopInv(func(k int) bool { return f0(k) })
	cus := func(k int) bool { return sCustom(v, k, loc, c, c0, knownBoolean) }
	vLoopInv(func(k int) bool { return cus(k) })
	ok := func(j int) bool { return pairOKBoolean(v[2*j].Value, v[2*j+1], loc) }
	vElem(ok)
	n := len(v) / 2
	vEnsures("malformed values and dangling keys are errors", func(err error) bool { return (err == nil) == (len(v)%2 == 0 && vForAll(0, n, ok)) })
	vEnsures("enum", func(err error) bool { return err != nil || f0(n) })
	vEnsures("everything else is a custom facet", func(err error) bool { return err != nil || cus(n) })
}

func knownDateTime(name string) bool {
	switch name {
	case "format":
		return true
	}
	return false
}

// dateTimePairOK: the value of the pair is well-formed.
func pairOKDateTime(name string, n *yaml.Node, loc string) bool {
	switch name {
	case "format":
		return vHasKey(SetOfDateTimeFormats, n.Value) && vDecOK[*string](n)
	}
	return U_rootOK(n, loc)
}

func contract_DateTimeShape_unmarshalYAMLNodes(s *DateTimeShape, v []*yaml.Node) {
	vProp("C14")
	vInvariant("nodes present", sNodes(v))
	vRequires("type", s != nil && s.BaseShape != nil)
	vInvariant("custom facet table", s.CustomShapeFacets != nil)
	vModifies(&s.FormatFacets, s.CustomShapeFacets)
	loc, c, c0 := s.Location, s.CustomShapeFacets, vSnapOM(s.CustomShapeFacets)
	o0 := s.Format
	f0 := func(k int) bool {
		return sLast(v, k, "format", func(j int) bool { return vIsDec(s.Format, v[2*j+1], o0) }, vSame(s.Format, o0))
	}
	vLoopInv(func(k int) bool { return f0(k) })
	cus := func(k int) bool { return sCustom(v, k, loc, c, c0, knownDateTime) }
	vLoopInv(func(k int) bool { return cus(k) })
	ok := func(j int) bool { return pairOKDateTime(v[2*j].Value, v[2*j+1], loc) }
	vElem(ok)
	n := len(v) / 2
	vEnsures("malformed values and dangling keys are errors", func(err error) bool { return (err == nil) == (len(v)%2 == 0 && vForAll(0, n, ok)) })
	vEnsures("format", func(err error) bool { return err != nil || f0(n) })
	vEnsures("everything else is a custom facet", func(err error) bool { return err != nil || cus(n) })
}

func knownDateTimeOnly(name string) bool {
	return false
}

// dateTimeOnlyPairOK: the value of the pair is well-formed.
func pairOKDateTimeOnly(name string, n *yaml.Node, loc string) bool {
	switch name {
	}
	return U_rootOK(n, loc)
}

func contract_DateTimeOnlyShape_unmarshalYAMLNodes(s *DateTimeOnlyShape, v []*yaml.Node) {
	vProp("C14")
	vInvariant("nodes present", sNodes(v))
	vRequires("type", s != nil && s.BaseShape != nil)
	vInvariant("custom facet table", s.CustomShapeFacets != nil)
	vModifies(s.CustomShapeFacets)
	loc, c, c0 := s.Location, s.CustomShapeFacets, vSnapOM(s.CustomShapeFacets)
	cus := func(k int) bool { return sCustom(v, k, loc, c, c0, knownDateTimeOnly) }
	vLoopInv(func(k int) bool { return cus(k) })
	ok := func(j int) bool { return pairOKDateTimeOnly(v[2*j].Value, v[2*j+1], loc) }
	vElem(ok)
	n := len(v) / 2
	vEnsures("malformed values and dangling keys are errors", func(err error) bool { return (err == nil) == (len(v)%2 == 0 && vForAll(0, n, ok)) })
	vEnsures("everything else is a custom facet", func(err error) bool { return err != nil || cus(n) })
}

func knownDateOnly(name string) bool {
	return false
}

// dateOnlyPairOK: the value of the pair is well-formed.
func pairOKDateOnly(name string, n *yaml.Node, loc string) bool {
	switch name {
	}
	return U_rootOK(n, loc)
}

func contract_DateOnlyShape_unmarshalYAMLNodes(s *DateOnlyShape, v []*yaml.Node) {
	vProp("C14")
	vInvariant("nodes present", sNodes(v))
	vRequires("type", s != nil && s.BaseShape != nil)
	vInvariant("custom facet table", s.CustomShapeFacets != nil)
	vModifies(s.CustomShapeFacets)
	loc, c, c0 := s.Location, s.CustomShapeFacets, vSnapOM(s.CustomShapeFacets)
	cus := func(k int) bool { return sCustom(v, k, loc, c, c0, knownDateOnly) }
	vLoopInv(func(k int) bool { return cus(k) })
	ok := func(j int) bool { return pairOKDateOnly(v[2*j].Value, v[2*j+1], loc) }
	vElem(ok)
	n := len(v) / 2
	vEnsures("malformed values and dangling keys are errors", func(err error) bool { return (err == nil) == (len(v)%2 == 0 && vForAll(0, n, ok)) })
	vEnsures("everything else is a custom facet", func(err error) bool { return err != nil || cus(n) })
}

func knownTimeOnly(name string) bool {
	return false
}

// timeOnlyPairOK: the value of the pair is well-formed.
func pairOKTimeOnly(name string, n *yaml.Node, loc string) bool {
	switch name {
	}
	return U_rootOK(n, loc)
}

func contract_TimeOnlyShape_unmarshalYAMLNodes(s *TimeOnlyShape, v []*yaml.Node) {
	vProp("C14")
	vInvariant("nodes present", sNodes(v))
	vRequires("type", s != nil && s.BaseShape != nil)
	vInvariant("custom facet table", s.CustomShapeFacets != nil)
	vModifies(s.CustomShapeFacets)
	loc, c, c0 := s.Location, s.CustomShapeFacets, vSnapOM(s.CustomShapeFacets)
	cus := func(k int) bool { return sCustom(v, k, loc, c, c0, knownTimeOnly) }
	vLoopInv(func(k int) bool { return cus(k) })
	ok := func(j int) bool { return pairOKTimeOnly(v[2*j].Value, v[2*j+1], loc) }
	vElem(ok)
	n := len(v) / 2
	vEnsures("malformed values and dangling keys are errors", func(err error) bool { return (err == nil) == (len(v)%2 == 0 && vForAll(0, n, ok)) })
	vEnsures("everything else is a custom facet", func(err error) bool { return err != nil || cus(n) })
}

func knownAny(name string) bool {
	return false
}

// anyPairOK: the value of the pair is well-formed.
func pairOKAny(name string, n *yaml.Node, loc string) bool {
	switch name {
	}
	return U_rootOK(n, loc)
}

func contract_AnyShape_unmarshalYAMLNodes(s *AnyShape, v []*yaml.Node) {
	vProp("C14")
	vInvariant("nodes present", sNodes(v))
	vRequires("type", s != nil && s.BaseShape != nil)
	vInvariant("custom facet table", s.CustomShapeFacets != nil)
	vModifies(s.CustomShapeFacets)
	loc, c, c0 := s.Location, s.CustomShapeFacets, vSnapOM(s.CustomShapeFacets)
	cus := func(k int) bool { return sCustom(v, k, loc, c, c0, knownAny) }
	vLoopInv(func(k int) bool { return cus(k) })
	ok := func(j int) bool { return pairOKAny(v[2*j].Value, v[2*j+1], loc) }
	vElem(ok)
	n := len(v) / 2
	vEnsures("malformed values and dangling keys are errors", func(err error) bool { return (err == nil) == (len(v)%2 == 0 && vForAll(0, n, ok)) })
	vEnsures("everything else is a custom facet", func(err error) bool { return err != nil || cus(n) })
}

func knownNil(name string) bool {
	return false
}

// nilPairOK: the value of the pair is well-formed.
func pairOKNil(name string, n *yaml.Node, loc string) bool {
	switch name {
	}
	return U_rootOK(n, loc)
}

func contract_NilShape_unmarshalYAMLNodes(s *NilShape, v []*yaml.Node) {
	vProp("C14")
	vInvariant("nodes present", sNodes(v))
	vRequires("type", s != nil && s.BaseShape != nil)
	vInvariant("custom facet table", s.CustomShapeFacets != nil)
	vModifies(s.CustomShapeFacets)
	loc, c, c0 := s.Location, s.CustomShapeFacets, vSnapOM(s.CustomShapeFacets)
	cus := func(k int) bool { return sCustom(v, k, loc, c, c0, knownNil) }
	vLoopInv(func(k int) bool { return cus(k) })
	ok := func(j int) bool { return pairOKNil(v[2*j].Value, v[2*j+1], loc) }
	vElem(ok)
	n := len(v) / 2
	vEnsures("malformed values and dangling keys are errors", func(err error) bool { return (err == nil) == (len(v)%2 == 0 && vForAll(0, n, ok)) })
	vEnsures("everything else is a custom facet", func(err error) bool { return err != nil || cus(n) })
}
