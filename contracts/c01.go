package raml

import (
	"math"
	"math/big"
	"time"
	"unicode/utf8"
)

// ---- C01: scalar value validation

func nodesOK(ns Nodes) bool {
	return vForAll(0, len(ns), func(j int) bool { return ns[j] != nil })
}

func sEnumHas(ns Nodes, v any) bool {
	return ns == nil || vExists(0, len(ns), func(j int) bool { return ns[j].Value == v })
}

func sEnumHasNum(ns Nodes, v any) bool {
	return ns == nil || vExists(0, len(ns), func(j int) bool { return vNumEq(ns[j].Value, v) })
}

func sBigBounds(v any, lo, hi *big.Int) bool {
	return (lo == nil || vNumLe(lo, v)) && (hi == nil || vNumLe(v, hi))
}

func sFltBounds(v any, lo, hi *float64) bool {
	return (lo == nil || math.IsNaN(*lo) || vNumLe(*lo, v)) && (hi == nil || math.IsNaN(*hi) || vNumLe(v, *hi))
}

func sLenBounds(n int, lo, hi *uint64) bool {
	return (lo == nil || *lo <= uint64(n)) && (hi == nil || uint64(n) <= *hi)
}

func sParses(layout, s string) bool {
	_, err := time.Parse(layout, s)
	return err == nil
}

func contract__exactNumber(v any) {
	vProp("C01")
	vEnsures("exact value", func(r *big.Float) bool {
		return (r != nil) == vIsNum(v) && (r == nil || vNumEq(r, v))
	})
}

func contract_StringShape_validate(s *StringShape, v any, p string) {
	vProp("C01")
	vRequires("receiver", s != nil)
	vInvariant("enum nodes present", nodesOK(s.Enum))
	vElem(func(j int) bool { return s.Enum[j].Value == v })
	vEnsures("verdict", func(err error) bool {
		i, ok := v.(string)
		return (err == nil) == (ok && sLenBounds(utf8.RuneCountInString(i), s.MinLength, s.MaxLength) &&
			(s.Pattern == nil || s.Pattern.MatchString(i)) && sEnumHas(s.Enum, i))
	})
}

func contract_IntegerShape_validate(s *IntegerShape, v any, p string) {
	vProp("C01")
	vRequires("receiver", s != nil)
	vInvariant("enum nodes present", nodesOK(s.Enum))
	vElem(func(j int) bool { return vNumEq(s.Enum[j].Value, v) })
	vEnsures("verdict", func(err error) bool {
		return (err == nil) == (vNumIsInt(v) && sBigBounds(v, s.Minimum, s.Maximum) && sEnumHasNum(s.Enum, v))
	})
}

func contract_NumberShape_validate(s *NumberShape, v any, p string) {
	vProp("C01")
	vRequires("receiver", s != nil)
	vInvariant("enum nodes present", nodesOK(s.Enum))
	vElem(func(j int) bool { return vNumEq(s.Enum[j].Value, v) })
	vEnsures("verdict", func(err error) bool {
		return (err == nil) == (vIsNum(v) && sFltBounds(v, s.Minimum, s.Maximum) && sEnumHasNum(s.Enum, v))
	})
}

func contract_BooleanShape_validate(s *BooleanShape, v any, p string) {
	vProp("C01")
	vRequires("receiver", s != nil)
	vInvariant("enum nodes present", nodesOK(s.Enum))
	vElem(func(j int) bool { return s.Enum[j].Value == v })
	vEnsures("verdict", func(err error) bool {
		i, ok := v.(bool)
		return (err == nil) == (ok && sEnumHas(s.Enum, i))
	})
}

func contract_FileShape_validate(s *FileShape, v any, p string) {
	vProp("C01")
	vRequires("receiver", s != nil)
	vEnsures("verdict", func(err error) bool {
		i, ok := v.(string)
		return (err == nil) == (ok && sLenBounds(len(i), s.MinLength, s.MaxLength))
	})
}

func contract_DateTimeShape_validate(s *DateTimeShape, v any, p string) {
	vProp("C01")
	vRequires("receiver", s != nil)
	vInvariant("format is a known one", s.Format == nil || *s.Format == DateTimeFormatRFC3339 || *s.Format == DateTimeFormatRFC2616)
	vEnsures("verdict", func(err error) bool {
		i, ok := v.(string)
		layout := time.RFC3339
		if s.Format != nil && *s.Format == DateTimeFormatRFC2616 {
			layout = "Mon, 02 Jan 2006 15:04:05 GMT"
		}
		return (err == nil) == (ok && sParses(layout, i))
	})
}

func contract_DateTimeOnlyShape_validate(s *DateTimeOnlyShape, v any, p string) {
	vProp("C01")
	vEnsures("verdict", func(err error) bool {
		i, ok := v.(string)
		return (err == nil) == (ok && sParses("2006-01-02T15:04:05", i))
	})
}

func contract_DateOnlyShape_validate(s *DateOnlyShape, v any, p string) {
	vProp("C01")
	vEnsures("verdict", func(err error) bool {
		i, ok := v.(string)
		return (err == nil) == (ok && sParses("2006-01-02", i))
	})
}

func contract_TimeOnlyShape_validate(s *TimeOnlyShape, v any, p string) {
	vProp("C01")
	vEnsures("verdict", func(err error) bool {
		i, ok := v.(string)
		return (err == nil) == (ok && sParses("15:04:05", i))
	})
}

func contract_NilShape_validate(s *NilShape, v any, p string) {
	vProp("C01")
	vEnsures("verdict", func(err error) bool { return (err == nil) == (v == nil) })
}

func contract_AnyShape_validate(s *AnyShape, v any, p string) {
	vProp("C01")
	vEnsures("verdict", func(err error) bool { return err == nil })
}
