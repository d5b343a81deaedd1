package raml

import (
	"reflect"
	"regexp"
)

// ---- C05: scalar inheritance; Base of every kind

func contract_Shape_Base(s Shape) {
	vRequires("receiver", s != nil)
	vDefine("base", func(r *BaseShape) bool { return r != nil && r == UH_base(s) })
}

func UH_base(s Shape) *BaseShape { return s.Base() }

// takes: a facet the child leaves out is the parent's, a declared one is kept.
func takes[T any](r, child, parent *T) bool {
	if child == nil {
		return r == parent
	}
	return r == child
}

func takesNodes(r, child, parent Nodes) bool {
	if child == nil {
		return vSame(r, parent)
	}
	return vSame(r, child)
}

func geU(child, parent *uint64) bool { return child == nil || parent == nil || *child >= *parent }
func leU(child, parent *uint64) bool { return child == nil || parent == nil || *child <= *parent }

func sameVal(a, b any) bool {
	if vIsNum(a) && vIsNum(b) {
		return vNumEq(a, b)
	}
	return reflect.DeepEqual(a, b)
}

func enumSub(child, parent Nodes) bool {
	return vForAll(0, len(child), func(i int) bool {
		return vExists(0, len(parent), func(j int) bool { return sameVal(child[i].Value, parent[j].Value) })
	})
}

func enumFits(child, parent Nodes) bool {
	return child == nil || parent == nil || enumSub(child, parent)
}

func contract__isSameValue(a, b any) {
	vProp("C05")
	vEnsures("equal by value", func(r bool) bool { return r == sameVal(a, b) })
}

func contract__isCompatibleEnum(source, target Nodes) {
	vProp("C05")
	vInvariant("enum nodes present", nodesOK(source) && nodesOK(target))
	vElem(func(i int) bool {
		return vExists(0, len(source), func(j int) bool { return sameVal(target[i].Value, source[j].Value) })
	})
	vLoopInv(func(k int, v *Node) bool {
		return vForAll(0, k, func(j int) bool { return !sameVal(v.Value, source[j].Value) })
	})
	vLoopInv(func(k int, v *Node, found bool) bool {
		return vImplies(!found, vForAll(0, k, func(j int) bool { return !sameVal(v.Value, source[j].Value) }))
	})
	vEnsures("subset", func(r bool) bool { return r == enumSub(target, source) })
}

func contract_IntegerShape_inherit(s *IntegerShape, source Shape) {
	vProp("C05")
	vRequires("receiver and parent", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	p, same := source.(*IntegerShape)
	vInvariant("parent present", !same || p != nil)
	vInvariant("enum nodes present", nodesOK(s.Enum) && (!same || nodesOK(p.Enum)))
	vModifies(&s.IntegerFacets, &s.EnumFacets, &s.FormatFacets)
	c := *s
	fits := same &&
		(c.Minimum == nil || p.Minimum == nil || vNumLe(p.Minimum, c.Minimum)) &&
		(c.Maximum == nil || p.Maximum == nil || vNumLe(c.Maximum, p.Maximum)) &&
		enumFits(c.Enum, p.Enum) &&
		(c.Format == nil || p.Format == nil || SetOfIntegerFormats[*c.Format] == SetOfIntegerFormats[*p.Format])
	vEnsures("merged or refused", func(r Shape, err error) bool { return (err == nil) == fits })
	o := vSnapPtr(p)
	vEnsures("merge keeps own facets and takes the rest", func(r Shape, err error) bool {
		return err != nil || r == Shape(s) &&
			takes(s.Minimum, c.Minimum, o.Minimum) && takes(s.Maximum, c.Maximum, o.Maximum) &&
			takes(s.MultipleOf, c.MultipleOf, o.MultipleOf) && takes(s.Format, c.Format, o.Format) &&
			takesNodes(s.Enum, c.Enum, o.Enum)
	})
}

func contract_NumberShape_inherit(s *NumberShape, source Shape) {
	vProp("C05")
	vRequires("receiver and parent", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	p, same := source.(*NumberShape)
	vInvariant("parent present", !same || p != nil)
	vInvariant("enum nodes present", nodesOK(s.Enum) && (!same || nodesOK(p.Enum)))
	vInvariant("bounds are numbers", fltNum(s.Minimum) && fltNum(s.Maximum) && (!same || fltNum(p.Minimum) && fltNum(p.Maximum)))
	vModifies(&s.NumberFacets, &s.EnumFacets, &s.FormatFacets)
	c := *s
	fits := same &&
		(c.Minimum == nil || p.Minimum == nil || *c.Minimum >= *p.Minimum) &&
		(c.Maximum == nil || p.Maximum == nil || *c.Maximum <= *p.Maximum) &&
		enumFits(c.Enum, p.Enum) &&
		(c.Format == nil || p.Format == nil || *c.Format == *p.Format)
	vEnsures("merged or refused", func(r Shape, err error) bool { return (err == nil) == fits })
	o := vSnapPtr(p)
	vEnsures("merge keeps own facets and takes the rest", func(r Shape, err error) bool {
		return err != nil || r == Shape(s) &&
			takes(s.Minimum, c.Minimum, o.Minimum) && takes(s.Maximum, c.Maximum, o.Maximum) &&
			takes(s.MultipleOf, c.MultipleOf, o.MultipleOf) && takes(s.Format, c.Format, o.Format) &&
			takesNodes(s.Enum, c.Enum, o.Enum)
	})
}

func fltNum(f *float64) bool { return f == nil || *f == *f }

func contract_StringShape_inherit(s *StringShape, source Shape) {
	vProp("C05")
	vRequires("receiver and parent", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	p, same := source.(*StringShape)
	vInvariant("parent present", !same || p != nil)
	vInvariant("enum nodes present", nodesOK(s.Enum) && (!same || nodesOK(p.Enum)))
	vModifies(&s.StringFacets, &s.EnumFacets)
	c := *s
	fits := same && geU(c.MinLength, p.MinLength) && leU(c.MaxLength, p.MaxLength) && enumFits(c.Enum, p.Enum)
	vEnsures("merged or refused", func(r Shape, err error) bool { return (err == nil) == fits })
	o := vSnapPtr(p)
	vEnsures("merge keeps own facets and takes the rest", func(r Shape, err error) bool {
		return err != nil || r == Shape(s) &&
			takes(s.MinLength, c.MinLength, o.MinLength) && takes(s.MaxLength, c.MaxLength, o.MaxLength) &&
			takes[regexp.Regexp](s.Pattern, c.Pattern, o.Pattern) && takesNodes(s.Enum, c.Enum, o.Enum)
	})
}

func contract_FileShape_inherit(s *FileShape, source Shape) {
	vProp("C05")
	vRequires("receiver and parent", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	p, same := source.(*FileShape)
	vInvariant("parent present", !same || p != nil)
	vInvariant("file type nodes present", nodesOK(s.FileTypes) && (!same || nodesOK(p.FileTypes)))
	vModifies(&s.LengthFacets, &s.FileFacets)
	c := *s
	fits := same && geU(c.MinLength, p.MinLength) && leU(c.MaxLength, p.MaxLength) && enumFits(c.FileTypes, p.FileTypes)
	vEnsures("merged or refused", func(r Shape, err error) bool { return (err == nil) == fits })
	o := vSnapPtr(p)
	vEnsures("merge keeps own facets and takes the rest", func(r Shape, err error) bool {
		return err != nil || r == Shape(s) &&
			takes(s.MinLength, c.MinLength, o.MinLength) && takes(s.MaxLength, c.MaxLength, o.MaxLength) &&
			takesNodes(s.FileTypes, c.FileTypes, o.FileTypes)
	})
}

func contract_BooleanShape_inherit(s *BooleanShape, source Shape) {
	vProp("C05")
	vRequires("receiver and parent", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	p, same := source.(*BooleanShape)
	vInvariant("parent present", !same || p != nil)
	vInvariant("enum nodes present", nodesOK(s.Enum) && (!same || nodesOK(p.Enum)))
	vModifies(&s.EnumFacets)
	c := *s
	fits := same && enumFits(c.Enum, p.Enum)
	vEnsures("merged or refused", func(r Shape, err error) bool { return (err == nil) == fits })
	o := vSnapPtr(p)
	vEnsures("merge keeps own facets and takes the rest", func(r Shape, err error) bool {
		return err != nil || r == Shape(s) && takesNodes(s.Enum, c.Enum, o.Enum)
	})
}

func contract_DateTimeShape_inherit(s *DateTimeShape, source Shape) {
	vProp("C05")
	vRequires("receiver and parent", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	p, same := source.(*DateTimeShape)
	vInvariant("parent present", !same || p != nil)
	vModifies(&s.FormatFacets)
	c := *s
	fits := same && (c.Format == nil || p.Format == nil || *c.Format == *p.Format)
	vEnsures("merged or refused", func(r Shape, err error) bool { return (err == nil) == fits })
	o := vSnapPtr(p)
	vEnsures("merge keeps own facets and takes the rest", func(r Shape, err error) bool {
		return err != nil || r == Shape(s) && takes(s.Format, c.Format, o.Format)
	})
}

func contract_DateTimeOnlyShape_inherit(s *DateTimeOnlyShape, source Shape) {
	vProp("C05")
	vRequires("receiver and parent", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	_, same := source.(*DateTimeOnlyShape)
	vEnsures("same kind only", func(r Shape, err error) bool { return (err == nil) == same && (err != nil || r == Shape(s)) })
}

func contract_DateOnlyShape_inherit(s *DateOnlyShape, source Shape) {
	vProp("C05")
	vRequires("receiver and parent", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	_, same := source.(*DateOnlyShape)
	vEnsures("same kind only", func(r Shape, err error) bool { return (err == nil) == same && (err != nil || r == Shape(s)) })
}

func contract_TimeOnlyShape_inherit(s *TimeOnlyShape, source Shape) {
	vProp("C05")
	vRequires("receiver and parent", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	_, same := source.(*TimeOnlyShape)
	vEnsures("same kind only", func(r Shape, err error) bool { return (err == nil) == same && (err != nil || r == Shape(s)) })
}

func contract_NilShape_inherit(s *NilShape, source Shape) {
	vProp("C05")
	vRequires("receiver and parent", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	_, same := source.(*NilShape)
	vEnsures("same kind only", func(r Shape, err error) bool { return (err == nil) == same && (err != nil || r == Shape(s)) })
}

func contract_AnyShape_inherit(s *AnyShape, source Shape) {
	vProp("C05")
	vRequires("receiver and parent", s != nil && source != nil)
	vInvariant("base present", s.BaseShape != nil)
	_, same := source.(*AnyShape)
	vEnsures("same kind only", func(r Shape, err error) bool { return (err == nil) == same && (err != nil || r == Shape(s)) })
}

// ---- Base

func contract_ArrayShape_Base(s *ArrayShape) {
	vProp("C05")
	vRequires("receiver", s != nil)
	vEnsures("own base", func(r *BaseShape) bool { return r == s.BaseShape })
}

func contract_ObjectShape_Base(s *ObjectShape) {
	vProp("C05")
	vRequires("receiver", s != nil)
	vEnsures("own base", func(r *BaseShape) bool { return r == s.BaseShape })
}

func contract_StringShape_Base(s *StringShape) {
	vProp("C05")
	vRequires("receiver", s != nil)
	vEnsures("own base", func(r *BaseShape) bool { return r == s.BaseShape })
}

func contract_IntegerShape_Base(s *IntegerShape) {
	vProp("C05")
	vRequires("receiver", s != nil)
	vEnsures("own base", func(r *BaseShape) bool { return r == s.BaseShape })
}

func contract_NumberShape_Base(s *NumberShape) {
	vProp("C05")
	vRequires("receiver", s != nil)
	vEnsures("own base", func(r *BaseShape) bool { return r == s.BaseShape })
}

func contract_BooleanShape_Base(s *BooleanShape) {
	vProp("C05")
	vRequires("receiver", s != nil)
	vEnsures("own base", func(r *BaseShape) bool { return r == s.BaseShape })
}

func contract_FileShape_Base(s *FileShape) {
	vProp("C05")
	vRequires("receiver", s != nil)
	vEnsures("own base", func(r *BaseShape) bool { return r == s.BaseShape })
}

func contract_DateTimeShape_Base(s *DateTimeShape) {
	vProp("C05")
	vRequires("receiver", s != nil)
	vEnsures("own base", func(r *BaseShape) bool { return r == s.BaseShape })
}

func contract_DateTimeOnlyShape_Base(s *DateTimeOnlyShape) {
	vProp("C05")
	vRequires("receiver", s != nil)
	vEnsures("own base", func(r *BaseShape) bool { return r == s.BaseShape })
}

func contract_DateOnlyShape_Base(s *DateOnlyShape) {
	vProp("C05")
	vRequires("receiver", s != nil)
	vEnsures("own base", func(r *BaseShape) bool { return r == s.BaseShape })
}

func contract_TimeOnlyShape_Base(s *TimeOnlyShape) {
	vProp("C05")
	vRequires("receiver", s != nil)
	vEnsures("own base", func(r *BaseShape) bool { return r == s.BaseShape })
}

func contract_NilShape_Base(s *NilShape) {
	vProp("C05")
	vRequires("receiver", s != nil)
	vEnsures("own base", func(r *BaseShape) bool { return r == s.BaseShape })
}

func contract_AnyShape_Base(s *AnyShape) {
	vProp("C05")
	vRequires("receiver", s != nil)
	vEnsures("own base", func(r *BaseShape) bool { return r == s.BaseShape })
}

func contract_UnionShape_Base(s *UnionShape) {
	vProp("C05")
	vRequires("receiver", s != nil)
	vEnsures("own base", func(r *BaseShape) bool { return r == s.BaseShape })
}

func contract_JSONShape_Base(s *JSONShape) {
	vProp("C05")
	vRequires("receiver", s != nil)
	vEnsures("own base", func(r *BaseShape) bool { return r == s.BaseShape })
}

func contract_UnknownShape_Base(s *UnknownShape) {
	vProp("C05")
	vRequires("receiver", s != nil)
	vEnsures("own base", func(r *BaseShape) bool { return r == s.BaseShape })
}

func contract_RecursiveShape_Base(s *RecursiveShape) {
	vProp("C05")
	vRequires("receiver", s != nil)
	vEnsures("own base", func(r *BaseShape) bool { return r == s.BaseShape })
}
