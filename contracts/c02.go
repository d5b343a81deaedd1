package raml

import "encoding/json"

// ---- C02, C03, C04: validation of structured types

// UH_valid: the verdict of a type on a value (defined by the validate methods).
func UH_valid(s Shape, v any) bool { return s.validate(v, "$") == nil }

// UH_json: the JSON text of a value; UH_jsonOK: it has one.
func UH_json(v any) string {
	d, err := json.Marshal(v)
	if err != nil {
		return ""
	}
	return string(d)
}

func UH_jsonOK(v any) bool {
	_, err := json.Marshal(v)
	return err == nil
}

func contract_Shape_validate(s Shape, v any, p string) {
	vRequires("receiver", s != nil)
	vDefine("verdict", func(err error) bool { return (err == nil) == UH_valid(s, v) })
}

func contract_BaseShape_Validate(s *BaseShape, v any) {
	vProp("C04")
	vRequires("receiver", s != nil)
	vInvariant("kind present", s.Shape != nil)
	vEnsures("verdict of the type itself", func(err error) bool { return (err == nil) == UH_valid(s.Shape, v) })
}

func contract__hashInterfaceFast(v any) {
	vProp("C02")
	vEnsures("hash of the JSON text", func(h uint64, err error) bool {
		return (err == nil) == UH_jsonOK(v) && (err != nil || h == vHash64(UH_json(v)))
	})
}

func sCountOK(n uint64, lo, hi *uint64) bool {
	return (lo == nil || *lo <= n) && (hi == nil || n <= *hi)
}

func sDistinct(i []any, n int) bool {
	return vForAll(0, n, func(a int) bool {
		return vForAll(0, a, func(b int) bool { return UH_json(i[a]) != UH_json(i[b]) })
	})
}

func contract_ArrayShape_validate(s *ArrayShape, v any, p string) {
	vProp("C02")
	vRequires("receiver", s != nil)
	vInvariant("item type present", s.Items == nil || s.Items.Shape != nil)
	i, ok := v.([]any)
	uniq := s.UniqueItems != nil && *s.UniqueItems
	vElem(func(j int) bool { return s.Items == nil || UH_valid(s.Items.Shape, i[j]) })
	vElem(func(j int) bool { return !uniq || UH_jsonOK(i[j]) })
	vLoopInv(func(k int, m map[uint64]struct{}) bool {
		return vImplies(uniq, len(m) <= k &&
			vForAll(0, k, func(a int) bool { return vHasKey(m, vHash64(UH_json(i[a]))) }) &&
			(len(m) == k) == sDistinct(i, k) &&
			vForAllKeys(m, func(h uint64) bool {
				return vExists(0, k, func(a int) bool { return h == vHash64(UH_json(i[a])) })
			}))
	})
	vEnsures("verdict", func(err error) bool {
		return (err == nil) == (ok && sCountOK(uint64(len(i)), s.MinItems, s.MaxItems) &&
			(s.Items == nil || vForAll(0, len(i), func(j int) bool { return UH_valid(s.Items.Shape, i[j]) })) &&
			(!uniq || vForAll(0, len(i), func(j int) bool { return UH_jsonOK(i[j]) }) && sDistinct(i, len(i))))
	})
}

// ---- C03

func objOK(s *ObjectShape) bool {
	return s.BaseShape != nil && vForAll(0, vOMLen(s.Properties), func(j int) bool {
		b := vOMVal(s.Properties, j).Base
		return b != nil && b.Shape != nil
	}) && vForAll(0, vOMLen(s.PatternProperties), func(j int) bool {
		p := vOMVal(s.PatternProperties, j)
		return p.Pattern != nil && p.Base != nil && p.Base.Shape != nil
	})
}

func sPatHit(s *ObjectShape, j int, k string) bool {
	return vOMVal(s.PatternProperties, j).Pattern.MatchString(k)
}

func sPatOK(s *ObjectShape, j int, k string, v any) bool {
	return sPatHit(s, j, k) && UH_valid(vOMVal(s.PatternProperties, j).Base.Shape, v)
}

func sPatVerdict(s *ObjectShape, k string, v any) bool {
	n := vOMLen(s.PatternProperties)
	return !vExists(0, n, func(j int) bool { return sPatHit(s, j, k) }) ||
		vExists(0, n, func(j int) bool { return sPatOK(s, j, k, v) })
}

func sPropVerdict(s *ObjectShape, k string, v any) bool {
	if vOMHas(s.Properties, k) {
		return UH_valid(vOMGet(s.Properties, k).Base.Shape, v)
	}
	return (s.AdditionalProperties == nil || *s.AdditionalProperties) && sPatVerdict(s, k, v)
}

func sRequiredIn(s *ObjectShape, props map[string]any, j int) bool {
	return !vOMVal(s.Properties, j).Required || vHasKey(props, vOMKey(s.Properties, j))
}

func contract_ObjectShape_validatePatternProperty(s *ObjectShape, k string, item any, p string) {
	vProp("C03")
	vRequires("receiver", s != nil)
	vInvariant("properties present", objOK(s))
	vElem(func(j int) bool { return sPatHit(s, j, k) })
	vElem(func(j int) bool { return sPatOK(s, j, k, item) })
	vEnsures("verdict", func(found bool, err error) bool {
		return (err == nil) == sPatVerdict(s, k, item) &&
			found == vExists(0, vOMLen(s.PatternProperties), func(j int) bool { return sPatHit(s, j, k) })
	})
}

func contract_ObjectShape_validateProperty(s *ObjectShape, k string, item any, p string) {
	vProp("C03")
	vRequires("receiver", s != nil)
	vInvariant("properties present", objOK(s))
	vEnsures("verdict", func(found bool, err error) bool {
		return found == vOMHas(s.Properties, k) &&
			(err == nil) == (!found || UH_valid(vOMGet(s.Properties, k).Base.Shape, item))
	})
}

func contract_ObjectShape_findMissingRequired(s *ObjectShape, props map[string]any) {
	vProp("C03")
	vRequires("receiver", s != nil)
	vElem(func(j int) bool { return sRequiredIn(s, props, j) })
	vEnsures("empty exactly when nothing is missing", func(r []string) bool {
		return (len(r) == 0) == vForAll(0, vOMLen(s.Properties), func(j int) bool { return sRequiredIn(s, props, j) })
	})
}

func sObjVerdict(s *ObjectShape, m map[string]any) bool {
	return vForAll(0, vOMLen(s.Properties), func(j int) bool { return sRequiredIn(s, m, j) }) &&
		vForAllKeys(m, func(k string) bool { return sPropVerdict(s, k, m[k]) })
}

func contract_ObjectShape_validateProperties(s *ObjectShape, p string, m map[string]any) {
	vProp("C03")
	vRequires("receiver", s != nil)
	vInvariant("properties present", objOK(s))
	vElemKey(func(k string) bool { return sPropVerdict(s, k, m[k]) })
	vEnsures("verdict", func(err error) bool { return (err == nil) == sObjVerdict(s, m) })
}

func contract_ObjectShape_validate(s *ObjectShape, v any, p string) {
	vProp("C03")
	vRequires("receiver", s != nil)
	vInvariant("properties present", objOK(s))
	m, ok := v.(map[string]any)
	vElemKey(func(k string) bool { return sPropVerdict(s, k, m[k]) })
	vElem(func(j int) bool { return sRequiredIn(s, m, j) })
	vEnsures("verdict", func(err error) bool {
		return (err == nil) == (ok && sCountOK(uint64(len(m)), s.MinProperties, s.MaxProperties) && sObjVerdict(s, m))
	})
}

// ---- C04

func contract_UnionShape_validate(s *UnionShape, v any, p string) {
	vProp("C04")
	vRequires("receiver", s != nil)
	vInvariant("base present", s.BaseShape != nil)
	vInvariant("members present", vForAll(0, len(s.AnyOf), func(j int) bool { return s.AnyOf[j] != nil && s.AnyOf[j].Shape != nil }))
	vElem(func(j int) bool { return UH_valid(s.AnyOf[j].Shape, v) })
	vEnsures("verdict", func(err error) bool {
		return (err == nil) == vExists(0, len(s.AnyOf), func(j int) bool { return UH_valid(s.AnyOf[j].Shape, v) })
	})
}

func contract_RecursiveShape_validate(s *RecursiveShape, v any, p string) {
	vProp("C04")
	vRequires("receiver", s != nil)
	vInvariant("head present", s.Head != nil && s.Head.Shape != nil)
	vEnsures("verdict", func(err error) bool { return (err == nil) == UH_valid(s.Head.Shape, v) })
}

func contract_JSONShape_validate(s *JSONShape, v any, p string) {
	vProp("C04")
	vEnsures("verdict", func(err error) bool { return err == nil })
}

func contract_UnknownShape_validate(s *UnknownShape, v any, p string) {
	vProp("C04")
	vRequires("receiver", s != nil)
	vInvariant("base present", s.BaseShape != nil)
	vEnsures("never valid", func(err error) bool { return err != nil })
}
