package raml

import (
	"context"
	"errors"
	"path/filepath"
	"regexp"

	orderedmap "github.com/wk8/go-ordered-map/v2"
	"gopkg.in/yaml.v3"
)

// ---- annotations

func sIsAnno(s string) bool     { return s != "" && s[0] == '(' && s[len(s)-1] == ')' }
func sAnnoName(s string) string { return s[1 : len(s)-1] }

func contract__IsCustomDomainExtensionNode(s string) {
	vProp("C14")
	vEnsures("a name in parentheses", func(b bool) bool { return b == sIsAnno(s) })
}

// sAnnoOK: the pair is a well-formed annotation.
func sAnnoOK(key, val *yaml.Node, loc string) bool {
	return sAnnoName(key.Value) != "" && U_rootOK(val, loc)
}
func isAnno(d *DomainExtension, key, val *yaml.Node, loc string) bool {
	return d != nil && d.Name == sAnnoName(key.Value) && d.Location == loc && d.Extension != nil && U_isRoot(val, loc, d.Extension)
}

func contract_RAML_unmarshalCustomDomainExtension(r *RAML, loc string, key, val *yaml.Node) {
	vProp("C14")
	vRequires("nodes", r != nil && key != nil && val != nil && sIsAnno(key.Value))
	vModifies(&r.domainExtensions, r.domainExtensions)
	n, id := len(r.domainExtensions), vRefID(r.domainExtensions)
	ds := vSnapSlice(r.domainExtensions)
	vEnsures("malformed annotations are errors", func(name string, d *DomainExtension, err error) bool {
		return (err == nil) == sAnnoOK(key, val, loc)
	})
	vEnsures("the annotation", func(name string, d *DomainExtension, err error) bool {
		return err != nil || name == sAnnoName(key.Value) && vFresh(d) && isAnno(d, key, val, loc)
	})
	vEnsures("registered", func(name string, d *DomainExtension, err error) bool {
		e := r.domainExtensions
		return (vRefID(e) == id || vFresh(e)) && vForAll(0, n, func(i int) bool { return e[i] == ds[i] }) &&
			(err != nil && len(e) == n || err == nil && len(e) == n+1 && e[n] == d)
	})
}

// sAnnos: c is c0 with the annotations among the first k pairs set in order.
func sAnnos(v []*yaml.Node, k int, loc string, c, c0 *orderedmap.OrderedMap[string, *DomainExtension]) bool {
	return vForAll(0, k, func(j int) bool {
		s := v[2*j].Value
		return !sIsAnno(s) || vOMHas(c, sAnnoName(s)) && (vExists(j+1, k, func(i int) bool { return sIsAnno(v[2*i].Value) && sAnnoName(v[2*i].Value) == sAnnoName(s) }) ||
			isAnno(vOMGet(c, sAnnoName(s)), v[2*j], v[2*j+1], loc))
	})
}

// ---- examples

func contract_Example_decode(ex *Example, key, val *yaml.Node, loc string) {
	vProp("C14")
	vRequires("nodes", ex != nil && ex.raml != nil && key != nil && val != nil)
	vInvariant("annotation table", ex.CustomDomainProperties != nil)
	r := ex.raml
	vModifies(&ex.Strict, &ex.DisplayName, &ex.Description, ex.CustomDomainProperties, &r.domainExtensions, r.domainExtensions)
	strict, dn, ds, d := ex.Strict, ex.DisplayName, ex.Description, vRefID(r.domainExtensions)
	c, c0 := ex.CustomDomainProperties, vSnapOM(ex.CustomDomainProperties)
	name := key.Value
	vEnsures("malformed values are errors", func(err error) bool { return (err == nil) == sExPairOK(key, val, loc) })
	vEnsures("strict", func(err error) bool {
		return err != nil || name == "strict" && vIsDec(ex.Strict, val, strict) || name != "strict" && ex.Strict == strict
	})
	vEnsures("display name", func(err error) bool {
		return err != nil || name == "displayName" && vIsDec(ex.DisplayName, val, dn) || name != "displayName" && ex.DisplayName == dn
	})
	vEnsures("description", func(err error) bool {
		return err != nil || name == "description" && vIsDec(ex.Description, val, ds) || name != "description" && ex.Description == ds
	})
	vEnsures("annotation", func(err error) bool {
		a := sIsAnno(name)
		return err != nil || (!a || vOMHas(c, sAnnoName(name)) && isAnno(vOMGet(c, sAnnoName(name)), key, val, loc)) &&
			vForAllStr(func(s string) bool {
				return a && s == sAnnoName(name) || vOMHas(c, s) == vOMHas(c0, s) && (!vOMHas(c0, s) || vOMGet(c, s) == vOMGet(c0, s))
			})
	})
	vEnsures("registers grow", func() bool { return vRefID(r.domainExtensions) == d || vFresh(r.domainExtensions) })
}

// sExPairOK: the pair is well-formed in an example given with a value.
func sExPairOK(key, val *yaml.Node, loc string) bool {
	switch key.Value {
	case "strict":
		return vDecOK[bool](val)
	case "displayName", "description":
		return vDecOK[string](val)
	}
	return !sIsAnno(key.Value) || sAnnoOK(key, val, loc)
}

// sAnnoTab: c is c0 with the annotations among the first k pairs set in order.
func sAnnoTab(v []*yaml.Node, k int, loc string, c, c0 *orderedmap.OrderedMap[string, *DomainExtension]) bool {
	return sAnnos(v, k, loc, c, c0) && vForAllStr(func(s string) bool {
		return vExists(0, k, func(i int) bool { return sIsAnno(v[2*i].Value) && sAnnoName(v[2*i].Value) == s }) ||
			vOMHas(c, s) == vOMHas(c0, s) && (!vOMHas(c0, s) || vOMGet(c, s) == vOMGet(c0, s))
	})
}

// isFirst: the first of the pairs of v named name has the value n.
func isFirst(v []*yaml.Node, name string, n *yaml.Node) bool {
	return vExists(0, len(v)/2, func(j int) bool { return v[2*j].Value == name && v[2*j+1] == n && !sHasName(v, j, name) })
}

func sFillOK(v []*yaml.Node, loc string) bool {
	return vForAll(0, len(v)/2, func(j int) bool { return sExPairOK(v[2*j], v[2*j+1], loc) }) &&
		vForAll(0, len(v)/2, func(j int) bool {
			return v[2*j].Value != "value" || sHasName(v, j, "value") || U_rootOK(v[2*j+1], loc)
		})
}

// isFilled: ex holds what the mapping v with a value key gives.
func isFilled(ex *Example, v []*yaml.Node, loc string, strict bool, dn, ds string) bool {
	n := len(v) / 2
	return sLast(v, n, "strict", func(j int) bool { return vIsDec(ex.Strict, v[2*j+1], ex.Strict) }, ex.Strict == strict) &&
		sLast(v, n, "displayName", func(j int) bool { return vIsDec(ex.DisplayName, v[2*j+1], ex.DisplayName) }, ex.DisplayName == dn) &&
		sLast(v, n, "description", func(j int) bool { return vIsDec(ex.Description, v[2*j+1], ex.Description) }, ex.Description == ds) &&
		vForAll(0, n, func(j int) bool {
			return v[2*j].Value != "value" || sHasName(v, j, "value") || ex.Data != nil && U_isRoot(v[2*j+1], loc, ex.Data)
		})
}

func contract_Example_fill(ex *Example, loc string, value *yaml.Node) {
	vProp("C14")
	vRequires("nodes", ex != nil && ex.raml != nil && value != nil && len(value.Content)%2 == 0)
	vInvariant("nodes present", sNodes(value.Content))
	vInvariant("annotation table", ex.CustomDomainProperties != nil)
	vInvariant("sentinel", ErrValueKeyNotFound != nil)
	r := ex.raml
	vModifies(&ex.Strict, &ex.DisplayName, &ex.Description, &ex.Data, ex.CustomDomainProperties, &r.domainExtensions, r.domainExtensions)
	strict, dn, ds, d := ex.Strict, ex.DisplayName, ex.Description, vRefID(r.domainExtensions)
	c, c0 := ex.CustomDomainProperties, vSnapOM(ex.CustomDomainProperties)
	v := value.Content
	n := len(v) / 2
	vLoopInv(func(k int, vk *yaml.Node) bool { return vk == nil && !sHasName(v, k, "value") })
	vLoopInv(func(k int) bool {
		return sLast(v, k, "strict", func(j int) bool { return vIsDec(ex.Strict, v[2*j+1], ex.Strict) }, ex.Strict == strict)
	})
	vLoopInv(func(k int) bool {
		return sLast(v, k, "displayName", func(j int) bool { return vIsDec(ex.DisplayName, v[2*j+1], ex.DisplayName) }, ex.DisplayName == dn)
	})
	vLoopInv(func(k int) bool {
		return sLast(v, k, "description", func(j int) bool { return vIsDec(ex.Description, v[2*j+1], ex.Description) }, ex.Description == ds)
	})
	vLoopInv(func(k int) bool { return sAnnoTab(v, k, loc, c, c0) })
	vLoopInv(func(k int) bool { return vRefID(r.domainExtensions) == d || vFresh(r.domainExtensions) })
	vElem(func(j int) bool { return sExPairOK(v[2*j], v[2*j+1], loc) })
	if !sHasName(v, n, "value") {
		vEnsures("no value key", func(err error) bool { return vSame(err, ErrValueKeyNotFound) })
		vEnsures("nothing set", func() bool {
			return ex.Strict == strict && ex.DisplayName == dn && ex.Description == ds && vForAllStr(func(s string) bool {
				return vOMHas(c, s) == vOMHas(c0, s) && (!vOMHas(c0, s) || vOMGet(c, s) == vOMGet(c0, s))
			})
		})
	} else {
		vEnsures("malformed values are errors", func(err error) bool { return (err == nil) == sFillOK(v, loc) })
		vEnsures("the example", func(err error) bool { return err != nil || isFilled(ex, v, loc, strict, dn, ds) })
		vEnsures("annotations", func(err error) bool { return err != nil || sAnnoTab(v, n, loc, c, c0) })
		vDefine("not the sentinel", func(err error) bool { return err == nil || !errors.Is(err, ErrValueKeyNotFound) })
	}
	vEnsures("registers grow", func() bool { return vRefID(r.domainExtensions) == d || vFresh(r.domainExtensions) })
}

// U_exampleOK, U_isExample: a node stands for an example.
func U_exampleOK(n *yaml.Node, loc string) bool {
	_, err := vModel().makeExample(n, "", loc)
	return err == nil
}
func U_isExample(n *yaml.Node, name, loc string, ex *Example) bool {
	x, err := vModel().makeExample(n, name, loc)
	return err == nil && ex != nil && ex.Name == name && vDump(x.Data) == vDump(ex.Data)
}
func vModel() *RAML { return New(context.Background()) }

func contract_RAML_makeExample(r *RAML, n *yaml.Node, name string, loc string) {
	vProp("C14")
	vRequires("node", r != nil && n != nil)
	vInvariant("nodes present", sNodeOK(n))
	vInvariant("sentinel", ErrValueKeyNotFound != nil)
	vModifies(&r.domainExtensions, r.domainExtensions)
	v := n.Content
	d := vRefID(r.domainExtensions)
	vEnsures("a new example", func(ex *Example, err error) bool {
		return err != nil || vFresh(ex) && ex.Name == name && ex.Location == loc && ex.raml == r && ex.CustomDomainProperties != nil
	})
	if n.Kind == yaml.MappingNode && sHasName(v, len(v)/2, "value") {
		vEnsures("malformed values are errors", func(ex *Example, err error) bool { return (err == nil) == sFillOK(v, loc) })
		vEnsures("the example with its attributes", func(ex *Example, err error) bool { return err != nil || isFilled(ex, v, loc, true, "", "") })
		vEnsures("its annotations", func(ex *Example, err error) bool {
			return err != nil || sAnnoTab(v, len(v)/2, loc, ex.CustomDomainProperties, nil)
		})
	} else {
		vEnsures("malformed values are errors", func(ex *Example, err error) bool { return (err == nil) == U_rootOK(n, loc) })
		vEnsures("the bare value", func(ex *Example, err error) bool {
			return err != nil || ex.Data != nil && U_isRoot(n, loc, ex.Data) && ex.Strict && ex.DisplayName == "" && ex.Description == "" && vOMLen(ex.CustomDomainProperties) == 0
		})
	}
	vEnsures("registers grow", func() bool { return vRefID(r.domainExtensions) == d || vFresh(r.domainExtensions) })
	vDefine("verdict", func(ex *Example, err error) bool {
		return (err == nil) == U_exampleOK(n, loc) && (err != nil || U_isExample(n, name, loc, ex))
	})
}
