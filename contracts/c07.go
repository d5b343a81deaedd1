package raml

// ---- C07: contradictory type definitions are rejected

// UH_consistent: the verdict of a type on itself (defined by the check methods).
func UH_consistent(s Shape) bool { return s.check() == nil }

func contract_Shape_check(s Shape) {
	vRequires("receiver", s != nil)
	vDefine("verdict", func(err error) bool { return (err == nil) == UH_consistent(s) })
}

func contract_BaseShape_Check(s *BaseShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vInvariant("kind present", s.Shape != nil)
	vEnsures("verdict of the type itself", func(err error) bool { return (err == nil) == UH_consistent(s.Shape) })
}

func sMinMax(lo, hi *uint64) bool { return lo == nil || hi == nil || *lo <= *hi }

func sIsInt(v any) bool {
	switch v.(type) {
	case int, int64, uint, uint64:
		return true
	}
	return false
}

func sIsNumKind(v any) bool {
	_, ok := v.(float64)
	return ok || sIsInt(v)
}

func sIsStr(v any) bool {
	_, ok := v.(string)
	return ok
}

func sIsBool(v any) bool {
	_, ok := v.(bool)
	return ok
}

func sIntFormat(f string) bool {
	return f == "int8" || f == "int16" || f == "int32" || f == "int" || f == "int64" || f == "long"
}

// sScalar: the kinds a discriminator may have.
func sScalar(s Shape) bool {
	switch s.(type) {
	case *ArrayShape, *ObjectShape, *UnionShape, *JSONShape, *UnknownShape, *RecursiveShape:
		return false
	}
	return true
}

func contract_IntegerShape_check(s *IntegerShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vInvariant("base present", s.BaseShape != nil)
	vInvariant("enum nodes present", nodesOK(s.Enum))
	vElem(func(j int) bool { return sIsInt(s.Enum[j].Value) })
	vEnsures("verdict", func(err error) bool {
		return (err == nil) == ((s.Minimum == nil || s.Maximum == nil || vNumLe(s.Minimum, s.Maximum)) &&
			vForAll(0, len(s.Enum), func(j int) bool { return sIsInt(s.Enum[j].Value) }) &&
			(s.Format == nil || sIntFormat(*s.Format)))
	})
}

func contract_NumberShape_check(s *NumberShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vInvariant("base present", s.BaseShape != nil)
	vInvariant("enum nodes present", nodesOK(s.Enum))
	vInvariant("bounds are numbers", fltNum(s.Minimum) && fltNum(s.Maximum))
	vElem(func(j int) bool { return sIsNumKind(s.Enum[j].Value) })
	vEnsures("verdict", func(err error) bool {
		return (err == nil) == ((s.Minimum == nil || s.Maximum == nil || *s.Minimum <= *s.Maximum) &&
			vForAll(0, len(s.Enum), func(j int) bool { return sIsNumKind(s.Enum[j].Value) }))
	})
}

func contract_StringShape_check(s *StringShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vInvariant("base present", s.BaseShape != nil)
	vInvariant("enum nodes present", nodesOK(s.Enum))
	vElem(func(j int) bool { return sIsStr(s.Enum[j].Value) })
	vEnsures("verdict", func(err error) bool {
		return (err == nil) == (sMinMax(s.MinLength, s.MaxLength) &&
			vForAll(0, len(s.Enum), func(j int) bool { return sIsStr(s.Enum[j].Value) }))
	})
}

func contract_FileShape_check(s *FileShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vInvariant("base present", s.BaseShape != nil)
	vInvariant("file type nodes present", nodesOK(s.FileTypes))
	vElem(func(j int) bool { return sIsStr(s.FileTypes[j].Value) })
	vEnsures("verdict", func(err error) bool {
		return (err == nil) == (sMinMax(s.MinLength, s.MaxLength) &&
			vForAll(0, len(s.FileTypes), func(j int) bool { return sIsStr(s.FileTypes[j].Value) }))
	})
}

func contract_BooleanShape_check(s *BooleanShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vInvariant("base present", s.BaseShape != nil)
	vInvariant("enum nodes present", nodesOK(s.Enum))
	vElem(func(j int) bool { return sIsBool(s.Enum[j].Value) })
	vEnsures("verdict", func(err error) bool {
		return (err == nil) == vForAll(0, len(s.Enum), func(j int) bool { return sIsBool(s.Enum[j].Value) })
	})
}

func contract_ArrayShape_check(s *ArrayShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vInvariant("base present", s.BaseShape != nil)
	vInvariant("item type present", s.Items == nil || s.Items.Shape != nil)
	vEnsures("verdict", func(err error) bool {
		return (err == nil) == (sMinMax(s.MinItems, s.MaxItems) && (s.Items == nil || UH_consistent(s.Items.Shape)))
	})
}

func contract_UnionShape_check(s *UnionShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vInvariant("base present", s.BaseShape != nil)
	vInvariant("members present", vForAll(0, len(s.AnyOf), func(j int) bool { return s.AnyOf[j] != nil && s.AnyOf[j].Shape != nil }))
	vElem(func(j int) bool { return UH_consistent(s.AnyOf[j].Shape) })
	vEnsures("verdict", func(err error) bool {
		return (err == nil) == vForAll(0, len(s.AnyOf), func(j int) bool { return UH_consistent(s.AnyOf[j].Shape) })
	})
}

func sPatternsOK(s *ObjectShape) bool {
	return s.PatternProperties == nil || (s.AdditionalProperties == nil || *s.AdditionalProperties) &&
		vForAll(0, vOMLen(s.PatternProperties), func(j int) bool {
			return UH_consistent(vOMVal(s.PatternProperties, j).Base.Shape)
		})
}

func sDiscOK(s *ObjectShape) bool {
	if s.Discriminator == nil {
		return true
	}
	if !vOMHas(s.Properties, *s.Discriminator) {
		return false
	}
	b := vOMGet(s.Properties, *s.Discriminator).Base
	return sScalar(b.Shape) && (s.DiscriminatorValue == nil || UH_valid(b.Shape, s.DiscriminatorValue))
}

func sPropsOK(s *ObjectShape) bool {
	return s.Properties == nil || vForAll(0, vOMLen(s.Properties), func(j int) bool {
		return UH_consistent(vOMVal(s.Properties, j).Base.Shape)
	}) && sDiscOK(s)
}

func contract_ObjectShape_checkPatternProperties(s *ObjectShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vInvariant("properties present", objOK(s))
	vElem(func(j int) bool { return UH_consistent(vOMVal(s.PatternProperties, j).Base.Shape) })
	vEnsures("verdict", func(err error) bool { return (err == nil) == sPatternsOK(s) })
}

func contract_ObjectShape_checkProperties(s *ObjectShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vInvariant("properties present", objOK(s))
	vElem(func(j int) bool { return UH_consistent(vOMVal(s.Properties, j).Base.Shape) })
	vEnsures("verdict", func(err error) bool { return (err == nil) == sPropsOK(s) })
}

func contract_ObjectShape_check(s *ObjectShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vInvariant("properties present", objOK(s))
	vElem(func(j int) bool { return UH_consistent(vOMVal(s.Properties, j).Base.Shape) })
	vElem(func(j int) bool { return UH_consistent(vOMVal(s.PatternProperties, j).Base.Shape) })
	vEnsures("verdict", func(err error) bool {
		return (err == nil) == (sMinMax(s.MinProperties, s.MaxProperties) && sPatternsOK(s) && sPropsOK(s) &&
			(s.Discriminator == nil || s.Properties != nil))
	})
}

func contract_UnknownShape_check(s *UnknownShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vInvariant("base present", s.BaseShape != nil)
	vEnsures("never consistent", func(err error) bool { return err != nil })
}

func contract_DateTimeShape_check(s *DateTimeShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("nothing to contradict", func(err error) bool { return err == nil })
}

func contract_DateTimeOnlyShape_check(s *DateTimeOnlyShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("nothing to contradict", func(err error) bool { return err == nil })
}

func contract_DateOnlyShape_check(s *DateOnlyShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("nothing to contradict", func(err error) bool { return err == nil })
}

func contract_TimeOnlyShape_check(s *TimeOnlyShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("nothing to contradict", func(err error) bool { return err == nil })
}

func contract_AnyShape_check(s *AnyShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("nothing to contradict", func(err error) bool { return err == nil })
}

func contract_NilShape_check(s *NilShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("nothing to contradict", func(err error) bool { return err == nil })
}

func contract_JSONShape_check(s *JSONShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("nothing to contradict", func(err error) bool { return err == nil })
}

func contract_RecursiveShape_check(s *RecursiveShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("nothing to contradict", func(err error) bool { return err == nil })
}

// ---- the kinds a discriminator may have

func contract_Shape_IsScalar(s Shape) {
	vRequires("receiver", s != nil)
	vEnsures("scalar kind", func(r bool) bool { return r == sScalar(s) })
}

func contract_IntegerShape_IsScalar(s *IntegerShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("scalar kind", func(r bool) bool { return r == sScalar(s) })
}

func contract_NumberShape_IsScalar(s *NumberShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("scalar kind", func(r bool) bool { return r == sScalar(s) })
}

func contract_StringShape_IsScalar(s *StringShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("scalar kind", func(r bool) bool { return r == sScalar(s) })
}

func contract_FileShape_IsScalar(s *FileShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("scalar kind", func(r bool) bool { return r == sScalar(s) })
}

func contract_BooleanShape_IsScalar(s *BooleanShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("scalar kind", func(r bool) bool { return r == sScalar(s) })
}

func contract_DateTimeShape_IsScalar(s *DateTimeShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("scalar kind", func(r bool) bool { return r == sScalar(s) })
}

func contract_DateTimeOnlyShape_IsScalar(s *DateTimeOnlyShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("scalar kind", func(r bool) bool { return r == sScalar(s) })
}

func contract_DateOnlyShape_IsScalar(s *DateOnlyShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("scalar kind", func(r bool) bool { return r == sScalar(s) })
}

func contract_TimeOnlyShape_IsScalar(s *TimeOnlyShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("scalar kind", func(r bool) bool { return r == sScalar(s) })
}

func contract_AnyShape_IsScalar(s *AnyShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("scalar kind", func(r bool) bool { return r == sScalar(s) })
}

func contract_NilShape_IsScalar(s *NilShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("scalar kind", func(r bool) bool { return r == sScalar(s) })
}

func contract_ArrayShape_IsScalar(s *ArrayShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("scalar kind", func(r bool) bool { return r == sScalar(s) })
}

func contract_ObjectShape_IsScalar(s *ObjectShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("scalar kind", func(r bool) bool { return r == sScalar(s) })
}

func contract_UnionShape_IsScalar(s *UnionShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("scalar kind", func(r bool) bool { return r == sScalar(s) })
}

func contract_JSONShape_IsScalar(s *JSONShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("scalar kind", func(r bool) bool { return r == sScalar(s) })
}

func contract_UnknownShape_IsScalar(s *UnknownShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("scalar kind", func(r bool) bool { return r == sScalar(s) })
}

func contract_RecursiveShape_IsScalar(s *RecursiveShape) {
	vProp("C07")
	vRequires("receiver", s != nil)
	vEnsures("scalar kind", func(r bool) bool { return r == sScalar(s) })
}
