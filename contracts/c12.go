package raml

import (
	"strings"

	orderedmap "github.com/wk8/go-ordered-map/v2"
)

// ---- C12: name resolution

type vTypes = *orderedmap.OrderedMap[string, *BaseShape]
type vUses = *orderedmap.OrderedMap[string, *LibraryLink]

func contract__CutLast(s, sep string) {
	vProp("C12")
	i := strings.LastIndex(s, sep)
	vEnsures("cut around the last separator", func(before, after string, found bool) bool {
		if i < 0 {
			return before == s && after == "" && !found
		}
		return before == s[:i] && after == s[i+len(sep):] && found
	})
}

func contract__CutReferenceName(refName string) {
	vProp("C12")
	i := strings.LastIndex(refName, ".")
	vEnsures("cut at the last dot", func(before, after string, found bool) bool {
		if i < 0 {
			return before == refName && after == "" && !found
		}
		return before == refName[:i] && after == refName[i+1:] && found
	})
}

// linked: every library of uses has been linked to its fragment.
func linked(u vUses) bool {
	return u != nil && vForAll(0, vOMLen(u), func(i int) bool {
		ll := vOMVal(u, i)
		return ll != nil && ll.Link != nil && ll.Link.Types != nil && ll.Link.AnnotationTypes != nil
	})
}

func sTypesOf(l *Library, ann bool) vTypes {
	if ann {
		return l.AnnotationTypes
	}
	return l.Types
}

// sQualified: the type that qualified name ref denotes through uses.
func sQualified(u vUses, ref string, ann bool) (*BaseShape, bool) {
	i := strings.LastIndex(ref, ".")
	if i < 0 || !vOMHas(u, ref[:i]) {
		return nil, false
	}
	ts := sTypesOf(vOMGet(u, ref[:i]).Link, ann)
	return vOMGet(ts, ref[i+1:]), vOMHas(ts, ref[i+1:])
}

func sLibRef(l *Library, ref string, ann bool) (*BaseShape, bool) {
	if own := sTypesOf(l, ann); vOMHas(own, ref) {
		return vOMGet(own, ref), true
	}
	return sQualified(l.Uses, ref, ann)
}

// sFragRef: the type that name ref denotes in fragment f.
func sFragRef(f any, ref string, ann bool) (*BaseShape, bool) {
	switch x := f.(type) {
	case *Library:
		return sLibRef(x, ref, ann)
	case *DataType:
		return sQualified(x.Uses, ref, ann)
	}
	return nil, false
}

func resolvesTo(want *BaseShape, ok bool) func(b *BaseShape, err error) bool {
	return func(b *BaseShape, err error) bool {
		if !ok {
			return err != nil && b == nil
		}
		return err == nil && b == want
	}
}

func contract_Library_GetReferenceType(l *Library, refName string) {
	vProp("C12")
	vRequires("receiver", l != nil)
	vInvariant("tables made", l.Types != nil && l.AnnotationTypes != nil)
	vInvariant("uses linked", linked(l.Uses))
	want, ok := sLibRef(l, refName, false)
	vEnsures("declared type or error", resolvesTo(want, ok))
}

func contract_Library_GetReferenceAnnotationType(l *Library, refName string) {
	vProp("C12")
	vRequires("receiver", l != nil)
	vInvariant("tables made", l.Types != nil && l.AnnotationTypes != nil)
	vInvariant("uses linked", linked(l.Uses))
	want, ok := sLibRef(l, refName, true)
	vEnsures("declared annotation type or error", resolvesTo(want, ok))
}

func contract_DataType_GetReferenceType(dt *DataType, refName string) {
	vProp("C12")
	vRequires("receiver", dt != nil)
	vInvariant("uses linked", linked(dt.Uses))
	want, ok := sQualified(dt.Uses, refName, false)
	vEnsures("declared type or error", resolvesTo(want, ok))
}

func contract_DataType_GetReferenceAnnotationType(dt *DataType, refName string) {
	vProp("C12")
	vRequires("receiver", dt != nil)
	vInvariant("uses linked", linked(dt.Uses))
	want, ok := sQualified(dt.Uses, refName, true)
	vEnsures("declared annotation type or error", resolvesTo(want, ok))
}

func contract_NamedExample_GetReferenceType(ne *NamedExample, refName string) {
	vProp("C12")
	vEnsures("no references", func(b *BaseShape, err error) bool { return b == nil && err != nil })
}

func contract_NamedExample_GetReferenceAnnotationType(ne *NamedExample, refName string) {
	vProp("C12")
	vEnsures("no references", func(b *BaseShape, err error) bool { return b == nil && err != nil })
}

func contract_Fragment_GetReferenceType(f Fragment, refName string) {
	vRequires("receiver", f != nil)
	want, ok := sFragRef(f, refName, false)
	vEnsures("declared type or error", resolvesTo(want, ok))
}

func contract_Fragment_GetReferenceAnnotationType(f Fragment, refName string) {
	vRequires("receiver", f != nil)
	want, ok := sFragRef(f, refName, true)
	vEnsures("declared annotation type or error", resolvesTo(want, ok))
}

func contract_RAML_GetFragment(r *RAML, location string) {
	vProp("C12", "C18")
	vRequires("receiver", r != nil)
	want := r.fragmentsCache[location]
	vEnsures("the loaded fragment", func(f Fragment) bool { return vSame(f, want) })
}

func contract_RAML_GetReferencedType(r *RAML, refName, location string) {
	vProp("C12")
	vRequires("receiver", r != nil)
	want, ok := sFragRef(r.fragmentsCache[location], refName, false)
	vEnsures("declared type or error", resolvesTo(want, ok))
}

func contract_RAML_GetReferencedAnnotationType(r *RAML, refName, location string) {
	vProp("C12")
	vRequires("receiver", r != nil)
	want, ok := sFragRef(r.fragmentsCache[location], refName, true)
	vEnsures("declared annotation type or error", resolvesTo(want, ok))
}

func contract_RAML_GetTypeFromFragmentPtr(r *RAML, location, typeName string) {
	vProp("C12")
	vRequires("receiver", r != nil)
	m := r.fragmentTypes
	ok := vHasKey(m, location) && vHasKey(m[location], typeName)
	want := m[location][typeName]
	vEnsures("declared type or error", resolvesTo(want, ok))
}

func contract_RAML_GetAnnotationTypeFromFragmentPtr(r *RAML, location, typeName string) {
	vProp("C12")
	vRequires("receiver", r != nil)
	m := r.fragmentAnnotationTypes
	ok := vHasKey(m, location) && vHasKey(m[location], typeName)
	want := m[location][typeName]
	vEnsures("declared annotation type or error", resolvesTo(want, ok))
}

// tablesOK: every location of a type table has a map.
func tablesOK(m map[string]map[string]*BaseShape) bool {
	return m != nil && vForAllKeys(m, func(k string) bool { return m[k] != nil }) &&
		vForAllStr(func(a string) bool {
			return vForAllStr(func(b string) bool {
				return a == b || !vHasKey(m, a) || !vHasKey(m, b) || !vSame(m[a], m[b])
			})
		})
}

// putIn: the table m, which was o with inner maps oi, now also binds name in
// location to shape, and every other name as before.
func putIn(m map[string]map[string]*BaseShape, location, name string, shape *BaseShape) bool {
	return vHasKey(m, location) && vHasKey(m[location], name) && m[location][name] == shape
}

func contract_RAML_PutTypeIntoFragment(r *RAML, name, location string, shape *BaseShape) {
	vProp("C12")
	vRequires("receiver", r != nil)
	m := r.fragmentTypes
	vInvariant("tables made", tablesOK(m))
	old := vSnapMap(m)
	here := m[location]
	oldHere := vSnapMap(here)
	vModifies(m)
	if here != nil {
		vModifies(here)
	}
	vEnsures("bound", func() bool { return putIn(m, location, name, shape) })
	vEnsures("other locations kept", func() bool {
		return vForAllStr(func(l string) bool {
			return l == location || vHasKey(m, l) == vHasKey(old, l) && vSame(m[l], old[l])
		})
	})
	vEnsures("other names kept", func() bool {
		return vForAllStr(func(n string) bool {
			return n == name || vHasKey(m[location], n) == vHasKey(oldHere, n) && m[location][n] == oldHere[n]
		})
	})
}

func contract_RAML_PutAnnotationTypeIntoFragment(r *RAML, name, location string, shape *BaseShape) {
	vProp("C12")
	vRequires("receiver", r != nil)
	m := r.fragmentAnnotationTypes
	vInvariant("tables made", tablesOK(m))
	old := vSnapMap(m)
	here := m[location]
	oldHere := vSnapMap(here)
	vModifies(m)
	if here != nil {
		vModifies(here)
	}
	vEnsures("bound", func() bool { return putIn(m, location, name, shape) })
	vEnsures("other locations kept", func() bool {
		return vForAllStr(func(l string) bool {
			return l == location || vHasKey(m, l) == vHasKey(old, l) && vSame(m[l], old[l])
		})
	})
	vEnsures("other names kept", func() bool {
		return vForAllStr(func(n string) bool {
			return n == name || vHasKey(m[location], n) == vHasKey(oldHere, n) && m[location][n] == oldHere[n]
		})
	})
}

func contract_RAML_PutFragment(r *RAML, location string, fragment Fragment) {
	vProp("C12", "C18")
	vRequires("receiver", r != nil)
	m := r.fragmentsCache
	vInvariant("cache made", m != nil)
	vModifies(m)
	had := vHasKey(m, location)
	old := m[location]
	all := vSnapMap(m)
	vEnsures("a location keeps its first fragment", func() bool {
		return vHasKey(m, location) && vSame(m[location], pickFrag(had, old, fragment))
	})
	vEnsures("other locations kept", func() bool {
		return vForAllStr(func(l string) bool {
			return l == location || vHasKey(m, l) == vHasKey(all, l) && vSame(m[l], all[l])
		})
	})
}

func pickFrag(c bool, a, b Fragment) Fragment {
	if c {
		return a
	}
	return b
}
