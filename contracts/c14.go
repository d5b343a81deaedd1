package raml

import (
	"math/big"
	"regexp"

	orderedmap "github.com/wk8/go-ordered-map/v2"
	"gopkg.in/yaml.v3"
)

// ---- C14: every declared facet is decoded into the type

// sNodes: a list of decoded YAML nodes.
func sNodes(v []*yaml.Node) bool {
	return vForAll(0, len(v), func(j int) bool { return v[j] != nil })
}

// sNodeOK: what the YAML decoder guarantees of a node.
func sNodeOK(n *yaml.Node) bool {
	return n != nil && sNodes(n.Content) && (n.Kind != yaml.MappingNode || len(n.Content)%2 == 0) &&
		(n.Kind != yaml.ScalarNode || len(n.Content) == 0)
}

// ---- the kind of an untyped declaration

func sKindOf(name string) string {
	switch name {
	case "minLength", "maxLength", "pattern":
		return "string"
	case "minimum", "maximum", "multipleOf":
		return "number"
	case "minItems", "maxItems", "uniqueItems", "items":
		return "array"
	case "minProperties", "maxProperties", "additionalProperties", "properties", "discriminator":
		return "object"
	case "fileTypes":
		return "file"
	}
	return ""
}

// sKindHas: one of the first k pairs of v has a facet of the kind.
func sKindHas(v []*yaml.Node, k int, kind string) bool {
	return vExists(0, k, func(j int) bool { return sKindOf(v[2*j].Value) == kind })
}
func sHasName(v []*yaml.Node, k int, name string) bool {
	return vExists(0, k, func(j int) bool { return v[2*j].Value == name })
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// sKindClash: facets of different kinds (length facets go with strings and files).
func sKindClash(v []*yaml.Node, k int) bool {
	s, f := sKindHas(v, k, "string"), sKindHas(v, k, "file")
	return b2i(s || f)+b2i(sKindHas(v, k, "number"))+b2i(sKindHas(v, k, "array"))+b2i(sKindHas(v, k, "object")) > 1 ||
		f && sHasName(v, k, "pattern")
}

// sKind: the kind the first k pairs call for ("" if none).
func sKind(v []*yaml.Node, k int, none string) string {
	switch {
	case sKindHas(v, k, "file"):
		return "file"
	case sKindHas(v, k, "string"):
		return "string"
	case sKindHas(v, k, "number"):
		return "number"
	case sKindHas(v, k, "array"):
		return "array"
	case sKindHas(v, k, "object"):
		return "object"
	}
	return none
}

func contract__identifyShapeType(v []*yaml.Node) {
	vProp("C14")
	vInvariant("nodes present", sNodes(v))
	vRequires("pairs", len(v)%2 == 0)
	vLoopInv(func(k int, t string) bool { return t == sKind(v, k, "") && !sKindClash(v, k) })
	vLoopInv(func(k int, so bool) bool { return so == sHasName(v, k, "pattern") })
	n := len(v) / 2
	vEnsures("conflicting facets are refused", func(t string, err error) bool { return (err != nil) == sKindClash(v, n) })
	vEnsures("the kind follows from the facets", func(t string, err error) bool { return err != nil || t == sKind(v, n, "string") })
	vDefine("kind of the list", func(t string, err error) bool { return err != nil || U_isKindOf(vRefID(v), t) })
}

// ---- values of facets

// U_rootOK, U_isRoot: a node stands for a data value; the Node d holds it.
func U_rootOK(n *yaml.Node, loc string) bool {
	_, err := (&RAML{}).makeRootNode(n, loc)
	return err == nil
}
func U_isRoot(n *yaml.Node, loc string, d *Node) bool {
	w, err := (&RAML{}).makeRootNode(n, loc)
	return err == nil && d != nil && vDump(w.Value) == vDump(d.Value)
}

func sEnumOK(n *yaml.Node, loc string) bool {
	return n.Kind == yaml.SequenceNode && vForAll(0, len(n.Content), func(j int) bool { return U_rootOK(n.Content[j], loc) })
}
func isEnum(e Nodes, n *yaml.Node, loc string) bool {
	return len(e) == len(n.Content) && vForAll(0, len(e), func(j int) bool { return e[j] != nil && U_isRoot(n.Content[j], loc, e[j]) })
}
func sFileTypesOK(n *yaml.Node, loc string) bool {
	return sEnumOK(n, loc) && vForAll(0, len(n.Content), func(j int) bool { return n.Content[j].Tag == "!!str" })
}

func contract_RAML_MakeEnum(r *RAML, n *yaml.Node, loc string) {
	vProp("C14")
	vInvariant("node", sNodeOK(n))
	vElem(func(j int) bool { return U_rootOK(n.Content[j], loc) })
	vLoopInv(func(k int, e Nodes) bool {
		return vForAll(0, k, func(j int) bool { return e[j] != nil && U_isRoot(n.Content[j], loc, e[j]) })
	})
	vEnsures("a list of values", func(e Nodes, err error) bool {
		return (err == nil) == sEnumOK(n, loc) && (err != nil || vFresh(e) && isEnum(e, n, loc))
	})
}

func sPatternOK(n *yaml.Node) bool {
	_, err := regexp.Compile(n.Value)
	return n.Tag == "!!str" && err == nil
}
func isPattern(p *regexp.Regexp, n *yaml.Node) bool { return p != nil && p.String() == n.Value }
func sBigOK(n *yaml.Node) bool {
	_, ok := new(big.Int).SetString(n.Value, 10)
	return n.Tag == "!!int" && ok
}
func isBig(p *big.Int, n *yaml.Node) bool {
	b, ok := new(big.Int).SetString(n.Value, 10)
	return p != nil && ok && p.Cmp(b) == 0
}

// ---- tables of facets

// sLast: the last of the first k pairs named name decides; without one, the
// facet is kept.
func sLast(v []*yaml.Node, k int, name string, same func(j int) bool, kept bool) bool {
	return vForAll(0, k, func(j int) bool {
		return v[2*j].Value != name || vExists(j+1, k, func(i int) bool { return v[2*i].Value == name }) || same(j)
	}) && (sHasName(v, k, name) || kept)
}

// sCustom: c is c0 with the first k pairs of unknown names set in order.
func sCustom(v []*yaml.Node, k int, loc string, c, c0 *orderedmap.OrderedMap[string, *Node], known func(string) bool) bool {
	return vForAll(0, k, func(j int) bool {
		s := v[2*j].Value
		return known(s) || vOMHas(c, s) && (vExists(j+1, k, func(i int) bool { return v[2*i].Value == s }) ||
			vOMGet(c, s) != nil && U_isRoot(v[2*j+1], loc, vOMGet(c, s)))
	}) && vForAllStr(func(s string) bool {
		return !known(s) && sHasName(v, k, s) || vOMHas(c, s) == vOMHas(c0, s) && (!vOMHas(c0, s) || vOMGet(c, s) == vOMGet(c0, s))
	})
}
