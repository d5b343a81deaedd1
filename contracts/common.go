package raml

import "gopkg.in/yaml.v3"

// ---- error helpers

func contract__GetYamlError(err error) {
	vEnsures("nil for nil", func(r *yaml.TypeError) bool { return err != nil || r == nil })
}

func contract__FixYamlError(err error) {
	vEnsures("an error stays an error", func(r error) bool { return (r == nil) == (err == nil) })
}

// modModel: reading declarations may register types, annotations and
// fragments; fragments already loaded stay as they are.
func modModel(r *RAML) { modModelBut(r, "", false) }

// modModelBut: the fragment at own, if but, is being replaced.
func modModelBut(r *RAML, own string, but bool) {
	vHooks()
	vRequires("model", r != nil)
	vInvariant("fragment tables", r.fragmentsCache != nil && r.fragmentTypes != nil && r.fragmentAnnotationTypes != nil)
	vModifies(&r.shapes, r.shapes, &r.idCounter, &r.domainExtensions, r.domainExtensions, r.fragmentsCache, r.fragmentTypes, r.fragmentAnnotationTypes)
	vModifiesType[map[string]*BaseShape]()
	c, s, d := vSnapMap(r.fragmentsCache), vRefID(r.shapes), vRefID(r.domainExtensions)
	kept := func() bool {
		return vForAllStr(func(p string) bool { return but && p == own || !vHasKey(c, p) || vHasKey(r.fragmentsCache, p) && vSame(r.fragmentsCache[p], c[p]) })
	}
	grow := func() bool { return vRefID(r.shapes) == s || vFresh(r.shapes) }
	grow2 := func() bool { return vRefID(r.domainExtensions) == d || vFresh(r.domainExtensions) }
	vLoopInv(func(k int) bool { return kept() })
	vLoopInv(func(k int) bool { return grow() })
	vLoopInv(func(k int) bool { return grow2() })
	vEnsures("loaded fragments are kept", func() bool { return kept() })
	vEnsures("registers grow", func() bool { return grow() && grow2() })
}
