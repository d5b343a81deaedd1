package raml

import (
	"encoding/json"
	"io"
	"os"
	"path/filepath"

	"gopkg.in/yaml.v3"
)

// ---- C15: YAML data keeps its structure and values

// Files, as functions of the path for the time of one call.
func U_wd(int) string        { s, _ := os.Getwd(); return s }
func U_wdOK(int) bool        { _, err := os.Getwd(); return err == nil }
func U_opens(p string) bool  { f, err := os.Open(p); _ = f.Close(); return err == nil }
func U_readOK(p string) bool { _, err := os.ReadFile(p); return err == nil }
func U_text(p string) string { b, _ := os.ReadFile(p); return string(b) }
func U_path(r any) string {
	f, ok := r.(*os.File)
	if !ok {
		panic(vSkip{})
	}
	return f.Name()
}

func vDecodeJSON(p string) (v any, err error) {
	f, err := os.Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	err = json.NewDecoder(f).Decode(&v)
	return v, err
}
func U_jsonOK(p string) bool  { _, err := vDecodeJSON(p); return err == nil }
func U_jsonData(p string) any { v, _ := vDecodeJSON(p); return v }

func U_jsonTextOK(s string) bool { var v any; return json.Unmarshal([]byte(s), &v) == nil }
func U_jsonText(s string) any    { var v any; _ = json.Unmarshal([]byte(s), &v); return v }

func vDecodeYAML(p string) (n yaml.Node, err error) {
	f, err := os.Open(p)
	if err != nil {
		return n, err
	}
	defer f.Close()
	err = yaml.NewDecoder(f).Decode(&n)
	return n, err
}
func U_yamlOK(p string) bool { _, err := vDecodeYAML(p); return err == nil }
func U_yamlRoot(p string) *yaml.Node {
	n, err := vDecodeYAML(p)
	if err != nil || len(n.Content) == 0 {
		return &yaml.Node{}
	}
	return n.Content[0]
}

// sAbs: where a path leads.
func sAbs(p string) string {
	if filepath.IsAbs(p) {
		return p
	}
	return filepath.Join(U_wd(0), p)
}

func sOpens(p string) bool { return (filepath.IsAbs(p) || U_wdOK(0)) && U_opens(sAbs(p)) }

// UH_dataOK: a YAML node stands for a data value; UH_isData: for the value v.
func UH_dataOK(n *yaml.Node, loc string, inc bool) bool {
	_, err := yamlNodeToDataNode(n, loc, inc)
	return err == nil
}
func UH_isData(n *yaml.Node, loc string, inc bool, v any) bool {
	w, err := yamlNodeToDataNode(n, loc, inc)
	return err == nil && vDump(w) == vDump(v)
}

func contract__ReadRawFile(p string) {
	vProp("C15")
	vEnsures("opens the named file", func(r io.ReadCloser, err error) bool {
		return (err == nil) == sOpens(p) && (err != nil || r != nil && U_path(r) == sAbs(p))
	})
}

// sIncluded: the data an include stands for. raw: the file is taken as text
// unless it is YAML; a root include may also be JSON.
func sScalarData(n *yaml.Node, loc string, inc bool, v any, err error) bool {
	switch n.Tag {
	case "!!str", "!!timestamp":
		s, ok := v.(string)
		return err == nil && ok && s == n.Value
	case "!include":
		if inc {
			return err != nil
		}
		p := filepath.Join(filepath.Dir(loc), n.Value)
		a := sAbs(p)
		if !sOpens(p) {
			return err != nil
		}
		switch filepath.Ext(n.Value) {
		case ".yaml", ".yml":
			if !U_yamlOK(a) {
				return err != nil
			}
			r := U_yamlRoot(a)
			return (err == nil) == UH_dataOK(r, p, true) && (err != nil || UH_isData(r, p, true, v))
		}
		s, ok := v.(string)
		return (err == nil) == U_readOK(a) && (err != nil || ok && s == U_text(a))
	}
	var w any
	e := n.Decode(&w)
	return (err == nil) == (e == nil) && (err != nil || vSameData(v, w))
}

func contract__scalarNodeToDataNode(n *yaml.Node, loc string, inc bool) {
	vProp("C15")
	vRequires("node", n != nil)
	vEnsures("value", func(v any, err error) bool { return sScalarData(n, loc, inc, v, err) })
}

func sPairOK(n *yaml.Node, loc string, inc bool, j int) bool {
	return UH_dataOK(n.Content[2*j+1], loc, inc)
}

// sPairs: m holds the first k pairs of n, the last one of a key winning.
func sPairs(n *yaml.Node, loc string, inc bool, k int, m map[string]any) bool {
	return vForAll(0, k, func(i int) bool {
		s := n.Content[2*i].Value
		return vHasKey(m, s) && (vExists(i+1, k, func(j int) bool { return n.Content[2*j].Value == s }) ||
			UH_isData(n.Content[2*i+1], loc, inc, m[s]))
	}) && vForAllStr(func(s string) bool {
		return !vHasKey(m, s) || vExists(0, k, func(i int) bool { return n.Content[2*i].Value == s })
	})
}

func contract__yamlNodeToDataNode(n *yaml.Node, loc string, inc bool) {
	vProp("C15")
	vRequires("node", n != nil)
	vInvariant("child nodes present", vForAll(0, len(n.Content), func(j int) bool { return n.Content[j] != nil }))
	vInvariant("a document has a root", n.Kind != yaml.DocumentNode || len(n.Content) > 0)
	vDefine("verdict", func(v any, err error) bool {
		return (err == nil) == UH_dataOK(n, loc, inc) && (err != nil || UH_isData(n, loc, inc, v))
	})
	l := len(n.Content)
	switch n.Kind {
	case yaml.DocumentNode:
		c := n.Content[0]
		vEnsures("root", func(v any, err error) bool {
			return (err == nil) == UH_dataOK(c, loc, inc) && (err != nil || UH_isData(c, loc, inc, v))
		})
	case yaml.ScalarNode:
		vEnsures("scalar", func(v any, err error) bool { return sScalarData(n, loc, inc, v, err) })
	case yaml.MappingNode:
		vElem(func(j int) bool { return sPairOK(n, loc, inc, j) })
		vLoopInv(func(k int, m map[string]any) bool { return sPairs(n, loc, inc, k, m) })
		vEnsures("map", func(v any, err error) bool {
			m, ok := v.(map[string]any)
			return (err == nil) == (l%2 == 0 && vForAll(0, l/2, func(j int) bool { return sPairOK(n, loc, inc, j) })) &&
				(err != nil || ok && sPairs(n, loc, inc, l/2, m))
		})
	case yaml.SequenceNode:
		vElem(func(j int) bool { return UH_dataOK(n.Content[j], loc, inc) })
		vLoopInv(func(k int, a []any) bool {
			return vForAll(0, k, func(j int) bool { return UH_isData(n.Content[j], loc, inc, a[j]) })
		})
		vEnsures("list", func(v any, err error) bool {
			a, ok := v.([]any)
			return (err == nil) == vForAll(0, l, func(j int) bool { return UH_dataOK(n.Content[j], loc, inc) }) &&
				(err != nil || ok && len(a) == l && vForAll(0, l, func(j int) bool { return UH_isData(n.Content[j], loc, inc, a[j]) }))
		})
	default:
		vEnsures("refused", func(v any, err error) bool { return err != nil })
	}
}

func isDataNode(r *Node, n *yaml.Node, loc string, err error) bool {
	return (err == nil) == UH_dataOK(n, loc, false) && (err != nil || r != nil && UH_isData(n, loc, false, r.Value))
}

func contract_RAML_makeYamlNode(r *RAML, n *yaml.Node, loc string) {
	vProp("C15")
	vRequires("node", n != nil)
	vEnsures("a new node", func(d *Node, err error) bool { return err != nil || d != nil && vFresh(d) })
	vEnsures("value", func(d *Node, err error) bool { return isDataNode(d, n, loc, err) })
}

func sRootInclude(d *Node, n *yaml.Node, loc string, err error) bool {
	p := filepath.Join(filepath.Dir(loc), n.Value)
	a := sAbs(p)
	if !sOpens(p) {
		return err != nil
	}
	switch filepath.Ext(n.Value) {
	case ".yaml", ".yml":
		if !U_yamlOK(a) {
			return err != nil
		}
		return isDataNode(d, U_yamlRoot(a), p, err)
	case ".json":
		return (err == nil) == U_jsonOK(a) && (err != nil || d != nil && vSameData(d.Value, U_jsonData(a)))
	}
	return (err == nil) == U_readOK(a) && (err != nil || d != nil && vSame(d.Value, any(U_text(a))))
}

func contract_RAML_makeIncludedNode(r *RAML, n *yaml.Node, loc string) {
	vProp("C15")
	vRequires("node", n != nil)
	vEnsures("a new node", func(d *Node, err error) bool { return err != nil || d != nil && vFresh(d) })
	vEnsures("the content of the file", func(d *Node, err error) bool { return sRootInclude(d, n, loc, err) })
}

func contract_RAML_makeRootNode(r *RAML, n *yaml.Node, loc string) {
	vProp("C15")
	vRequires("node", n != nil)
	vEnsures("a new node", func(d *Node, err error) bool { return err != nil || d != nil && vFresh(d) })
	vDefine("verdict", func(d *Node, err error) bool {
		return (err == nil) == U_rootOK(n, loc) && (err != nil || U_isRoot(n, loc, d))
	})
	if n.Tag == "!include" {
		vEnsures("include", func(d *Node, err error) bool { return sRootInclude(d, n, loc, err) })
		return
	}
	if n.Value != "" && n.Value[0] == '{' {
		vEnsures("JSON text", func(d *Node, err error) bool {
			return (err == nil) == U_jsonTextOK(n.Value) && (err != nil || d != nil && vSameData(d.Value, U_jsonText(n.Value)))
		})
		return
	}
	vEnsures("YAML data", func(d *Node, err error) bool { return isDataNode(d, n, loc, err) })
}
