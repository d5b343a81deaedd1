package raml

import "reflect"

// ---- C20: an alias denotes the aliased type

// UH_aliases: s can be made an alias of source.
func UH_aliases(s, source Shape) bool {
	_, unknown := s.(*UnknownShape)
	return !unknown && reflect.TypeOf(s) == reflect.TypeOf(source)
}

// vModKind: the settings a shape holds itself (not its base, not what it points to).
func vModKind(s Shape) {
	if x, ok := s.(*ArrayShape); ok {
		vModifies(&x.ArrayFacets)
	}
	if x, ok := s.(*ObjectShape); ok {
		vModifies(&x.ObjectFacets)
	}
	if x, ok := s.(*StringShape); ok {
		vModifies(&x.EnumFacets, &x.StringFacets)
	}
	if x, ok := s.(*IntegerShape); ok {
		vModifies(&x.EnumFacets, &x.FormatFacets, &x.IntegerFacets)
	}
	if x, ok := s.(*NumberShape); ok {
		vModifies(&x.EnumFacets, &x.FormatFacets, &x.NumberFacets)
	}
	if x, ok := s.(*BooleanShape); ok {
		vModifies(&x.EnumFacets)
	}
	if x, ok := s.(*FileShape); ok {
		vModifies(&x.LengthFacets, &x.FileFacets)
	}
	if x, ok := s.(*DateTimeShape); ok {
		vModifies(&x.FormatFacets)
	}
	if x, ok := s.(*UnionShape); ok {
		vModifies(&x.EnumFacets, &x.UnionFacets)
	}
	if x, ok := s.(*JSONShape); ok {
		vModifies(&x.Schema, &x.Raw)
	}
	if x, ok := s.(*RecursiveShape); ok {
		vModifies(&x.Head)
	}
	if x, ok := s.(*UnknownShape); ok {
		vModifies(&x.facets)
	}
}

func contract_Shape_alias(s, source Shape) {
	vRequires("receiver and source", s != nil && source != nil)
	vModKind(s)
	same := UH_aliases(s, source)
	vDefine("same kind", func(r Shape, err error) bool { return (err == nil) == same })
}

func contract_BaseShape_AliasTo(s, source *BaseShape) {
	vProp("C20")
	vRequires("receiver and source", s != nil && source != nil)
	vInvariant("kinds present", s.Shape != nil && source.Shape != nil)
	vModKind(s.Shape)
	vModifies(&s.DisplayName, &s.Description, &s.Example, &s.Examples, &s.Inherits, &s.Alias, &s.Default, &s.Required,
		&s.CustomShapeFacets, &s.CustomShapeFacetDefinitions, &s.CustomDomainProperties)
	o := *source
	same := UH_aliases(s.Shape, source.Shape)
	vEnsures("refused exactly for another kind", func(r *BaseShape, err error) bool { return (err == nil) == same })
	vEnsures("result is the alias", func(r *BaseShape, err error) bool { return err != nil || r == s })
	vEnsures("takes over the declaration", func(r *BaseShape, err error) bool {
		return err != nil || s.DisplayName == o.DisplayName && s.Description == o.Description && s.Example == o.Example &&
			s.Examples == o.Examples && vSame(s.Inherits, o.Inherits) && s.Alias == o.Alias && s.Default == o.Default && s.Required == o.Required &&
			s.CustomShapeFacets == o.CustomShapeFacets && s.CustomShapeFacetDefinitions == o.CustomShapeFacetDefinitions &&
			s.CustomDomainProperties == o.CustomDomainProperties
	})
}

func contract_ArrayShape_alias(s *ArrayShape, source Shape) {
	vProp("C20")
	vRequires("receiver and source", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	p, same := source.(*ArrayShape)
	vInvariant("source present", !same || p != nil)
	vModifies(&s.ArrayFacets)
	o := vSnapPtr(p)
	vEnsures("refused exactly for another kind", func(r Shape, err error) bool { return (err == nil) == same && (err != nil || r == Shape(s)) })
	vEnsures("takes over every setting", func(r Shape, err error) bool {
		return err != nil || vSame(s.ArrayFacets, o.ArrayFacets)
	})
}

func contract_ObjectShape_alias(s *ObjectShape, source Shape) {
	vProp("C20")
	vRequires("receiver and source", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	p, same := source.(*ObjectShape)
	vInvariant("source present", !same || p != nil)
	vModifies(&s.ObjectFacets)
	o := vSnapPtr(p)
	vEnsures("refused exactly for another kind", func(r Shape, err error) bool { return (err == nil) == same && (err != nil || r == Shape(s)) })
	vEnsures("takes over every setting", func(r Shape, err error) bool {
		return err != nil || vSame(s.ObjectFacets, o.ObjectFacets)
	})
}

func contract_StringShape_alias(s *StringShape, source Shape) {
	vProp("C20")
	vRequires("receiver and source", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	p, same := source.(*StringShape)
	vInvariant("source present", !same || p != nil)
	vModifies(&s.EnumFacets, &s.StringFacets)
	o := vSnapPtr(p)
	vEnsures("refused exactly for another kind", func(r Shape, err error) bool { return (err == nil) == same && (err != nil || r == Shape(s)) })
	vEnsures("takes over every setting", func(r Shape, err error) bool {
		return err != nil || vSame(s.EnumFacets, o.EnumFacets) && vSame(s.StringFacets, o.StringFacets)
	})
}

func contract_IntegerShape_alias(s *IntegerShape, source Shape) {
	vProp("C20")
	vRequires("receiver and source", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	p, same := source.(*IntegerShape)
	vInvariant("source present", !same || p != nil)
	vModifies(&s.EnumFacets, &s.FormatFacets, &s.IntegerFacets)
	o := vSnapPtr(p)
	vEnsures("refused exactly for another kind", func(r Shape, err error) bool { return (err == nil) == same && (err != nil || r == Shape(s)) })
	vEnsures("takes over every setting", func(r Shape, err error) bool {
		return err != nil || vSame(s.EnumFacets, o.EnumFacets) && vSame(s.FormatFacets, o.FormatFacets) && vSame(s.IntegerFacets, o.IntegerFacets)
	})
}

func contract_NumberShape_alias(s *NumberShape, source Shape) {
	vProp("C20")
	vRequires("receiver and source", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	p, same := source.(*NumberShape)
	vInvariant("source present", !same || p != nil)
	vModifies(&s.EnumFacets, &s.FormatFacets, &s.NumberFacets)
	o := vSnapPtr(p)
	vEnsures("refused exactly for another kind", func(r Shape, err error) bool { return (err == nil) == same && (err != nil || r == Shape(s)) })
	vEnsures("takes over every setting", func(r Shape, err error) bool {
		return err != nil || vSame(s.EnumFacets, o.EnumFacets) && vSame(s.FormatFacets, o.FormatFacets) && vSame(s.NumberFacets, o.NumberFacets)
	})
}

func contract_BooleanShape_alias(s *BooleanShape, source Shape) {
	vProp("C20")
	vRequires("receiver and source", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	p, same := source.(*BooleanShape)
	vInvariant("source present", !same || p != nil)
	vModifies(&s.EnumFacets)
	o := vSnapPtr(p)
	vEnsures("refused exactly for another kind", func(r Shape, err error) bool { return (err == nil) == same && (err != nil || r == Shape(s)) })
	vEnsures("takes over every setting", func(r Shape, err error) bool {
		return err != nil || vSame(s.EnumFacets, o.EnumFacets)
	})
}

func contract_FileShape_alias(s *FileShape, source Shape) {
	vProp("C20")
	vRequires("receiver and source", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	p, same := source.(*FileShape)
	vInvariant("source present", !same || p != nil)
	vModifies(&s.LengthFacets, &s.FileFacets)
	o := vSnapPtr(p)
	vEnsures("refused exactly for another kind", func(r Shape, err error) bool { return (err == nil) == same && (err != nil || r == Shape(s)) })
	vEnsures("takes over every setting", func(r Shape, err error) bool {
		return err != nil || vSame(s.LengthFacets, o.LengthFacets) && vSame(s.FileFacets, o.FileFacets)
	})
}

func contract_DateTimeShape_alias(s *DateTimeShape, source Shape) {
	vProp("C20")
	vRequires("receiver and source", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	p, same := source.(*DateTimeShape)
	vInvariant("source present", !same || p != nil)
	vModifies(&s.FormatFacets)
	o := vSnapPtr(p)
	vEnsures("refused exactly for another kind", func(r Shape, err error) bool { return (err == nil) == same && (err != nil || r == Shape(s)) })
	vEnsures("takes over every setting", func(r Shape, err error) bool {
		return err != nil || vSame(s.FormatFacets, o.FormatFacets)
	})
}

func contract_DateTimeOnlyShape_alias(s *DateTimeOnlyShape, source Shape) {
	vProp("C20")
	vRequires("receiver and source", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	p, same := source.(*DateTimeOnlyShape)
	vInvariant("source present", !same || p != nil)
	vEnsures("refused exactly for another kind", func(r Shape, err error) bool { return (err == nil) == same && (err != nil || r == Shape(s)) })
}

func contract_DateOnlyShape_alias(s *DateOnlyShape, source Shape) {
	vProp("C20")
	vRequires("receiver and source", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	p, same := source.(*DateOnlyShape)
	vInvariant("source present", !same || p != nil)
	vEnsures("refused exactly for another kind", func(r Shape, err error) bool { return (err == nil) == same && (err != nil || r == Shape(s)) })
}

func contract_TimeOnlyShape_alias(s *TimeOnlyShape, source Shape) {
	vProp("C20")
	vRequires("receiver and source", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	p, same := source.(*TimeOnlyShape)
	vInvariant("source present", !same || p != nil)
	vEnsures("refused exactly for another kind", func(r Shape, err error) bool { return (err == nil) == same && (err != nil || r == Shape(s)) })
}

func contract_NilShape_alias(s *NilShape, source Shape) {
	vProp("C20")
	vRequires("receiver and source", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	p, same := source.(*NilShape)
	vInvariant("source present", !same || p != nil)
	vEnsures("refused exactly for another kind", func(r Shape, err error) bool { return (err == nil) == same && (err != nil || r == Shape(s)) })
}

func contract_AnyShape_alias(s *AnyShape, source Shape) {
	vProp("C20")
	vRequires("receiver and source", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	p, same := source.(*AnyShape)
	vInvariant("source present", !same || p != nil)
	vEnsures("refused exactly for another kind", func(r Shape, err error) bool { return (err == nil) == same && (err != nil || r == Shape(s)) })
}

func contract_UnionShape_alias(s *UnionShape, source Shape) {
	vProp("C20")
	vRequires("receiver and source", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	p, same := source.(*UnionShape)
	vInvariant("source present", !same || p != nil)
	vModifies(&s.EnumFacets, &s.UnionFacets)
	o := vSnapPtr(p)
	vEnsures("refused exactly for another kind", func(r Shape, err error) bool { return (err == nil) == same && (err != nil || r == Shape(s)) })
	vEnsures("takes over every setting", func(r Shape, err error) bool {
		return err != nil || vSame(s.EnumFacets, o.EnumFacets) && vSame(s.UnionFacets, o.UnionFacets)
	})
}

func contract_JSONShape_alias(s *JSONShape, source Shape) {
	vProp("C20")
	vRequires("receiver and source", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	p, same := source.(*JSONShape)
	vInvariant("source present", !same || p != nil)
	vModifies(&s.Schema, &s.Raw)
	o := vSnapPtr(p)
	vEnsures("refused exactly for another kind", func(r Shape, err error) bool { return (err == nil) == same && (err != nil || r == Shape(s)) })
	vEnsures("takes over every setting", func(r Shape, err error) bool {
		return err != nil || vSame(s.Schema, o.Schema) && vSame(s.Raw, o.Raw)
	})
}

func contract_RecursiveShape_alias(s *RecursiveShape, source Shape) {
	vProp("C20")
	vRequires("receiver and source", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	p, same := source.(*RecursiveShape)
	vInvariant("source present", !same || p != nil)
	vModifies(&s.Head)
	o := vSnapPtr(p)
	vEnsures("refused exactly for another kind", func(r Shape, err error) bool { return (err == nil) == same && (err != nil || r == Shape(s)) })
	vEnsures("takes over every setting", func(r Shape, err error) bool {
		return err != nil || vSame(s.Head, o.Head)
	})
}

func contract_UnknownShape_alias(s *UnknownShape, source Shape) {
	vProp("C20")
	vRequires("receiver", s != nil)
	vInvariant("base present", s.BaseShape != nil)
	vEnsures("refused", func(r Shape, err error) bool { return err != nil })
}
