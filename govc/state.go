package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

type State struct {
	pc    []*Term
	heap  map[string]*Term
	epoch *Epoch
	alloc *Term
	cells map[*CellID]Value
	ver   *Term // version of all memory
	dver  *Term // version of plain data memory (elements of []any, entries of map[K]any)
}

func (s *State) clone() *State {
	n := &State{pc: append([]*Term{}, s.pc...), heap: make(map[string]*Term, len(s.heap)), epoch: s.epoch, alloc: s.alloc, cells: make(map[*CellID]Value, len(s.cells)), ver: s.ver, dver: s.dver}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	return n
}

func (s *State) PC() *Term { return And(s.pc...) }

func (s *State) dead() bool {
	for _, c := range s.pc {
		if c == False {
			return true
		}
	}
	return false
}

// assumePC adds c to the path condition.
func (s *State) addPC(c *Term) {
	if c == True {
		return
	}
	if c.Op == "and" {
		for _, a := range c.Args {
			s.addPC(a)
		}
		return
	}
	n := Not(c)
	for _, p := range s.pc {
		if p == c {
			return
		}
		if p == n {
			s.pc = []*Term{False}
			return
		}
	}
	s.pc = append(s.pc, c)
}

// decided by pc: 1 true, -1 false, 0 unknown
func (s *State) decide(c *Term) int {
	if c == True {
		return 1
	}
	if c == False {
		return -1
	}
	n := Not(c)
	for _, p := range s.pc {
		if p == c {
			return 1
		}
		if p == n {
			return -1
		}
	}
	return 0
}

// ---- heap keys

type keyMeta struct {
	Key   string
	Sort  string
	Kind  string // fld elem omlen omkey omval omidx mapdom mapval maplen glob
	L     Leaf
	Group string // keys havocked together
	Root  string
	KSort string // key sort for maps / ordered maps
	ownT  types.Type
}

var keyTab = map[string]*keyMeta{}
var groupTab = map[string][]string{}

func regKey(m *keyMeta) *keyMeta {
	if o, ok := keyTab[m.Key]; ok {
		return o
	}
	if m.Group == "" {
		m.Group = m.Key
	}
	keyTab[m.Key] = m
	groupTab[m.Group] = append(groupTab[m.Group], m.Key)
	return m
}

// keys for a leaf located at ptr root+path
func leafGroup(prefix string, l Leaf) string {
	if strings.HasPrefix(l.Kind, "s") && (l.Kind == "sref" || l.Kind == "soff" || l.Kind == "slen" || l.Kind == "scap") {
		return prefix + l.Path[:strings.LastIndex(l.Path, "#")] + "#"
	}
	return ""
}

func fldKeys(root, path string, t types.Type) []*keyMeta {
	var out []*keyMeta
	for _, l := range leaves(t) {
		out = append(out, regKey(&keyMeta{Key: "F:" + root + path + l.Path, Sort: SArr(SInt, l.Sort), Kind: "fld", L: l, Group: leafGroup("F:"+root+path, l), Root: root}))
	}
	return out
}
func elemKeys(root, path string, t types.Type) []*keyMeta {
	var out []*keyMeta
	for _, l := range leaves(t) {
		out = append(out, regKey(&keyMeta{Key: "E:" + root + path + l.Path, Sort: SArr(SInt, SArr(SInt, l.Sort)), Kind: "elem", L: l, Group: leafGroup("E:"+root+path, l), Root: root}))
	}
	return out
}

type omKeysT struct {
	root    string
	ln, idx *keyMeta
	key     *keyMeta
	vals    []*keyMeta
	kt, vt  types.Type
}

func omKeys(n *types.Named) *omKeysT {
	root := omRoot(n)
	kt, vt := omKV(n)
	kl := leaves(kt)
	if len(kl) != 1 {
		unsup("ordered map with composite key")
	}
	ks := kl[0].Sort
	g := "O:" + root
	r := &omKeysT{root: root, kt: kt, vt: vt}
	r.ln = regKey(&keyMeta{Key: g + ".len", Sort: SArr(SInt, SInt), Kind: "omlen", Group: g, Root: root, KSort: ks})
	r.key = regKey(&keyMeta{Key: g + ".key", Sort: SArr(SInt, SArr(SInt, ks)), Kind: "omkey", Group: g, Root: root, KSort: ks, L: kl[0]})
	r.idx = regKey(&keyMeta{Key: g + ".idx", Sort: SArr(SInt, SArr(ks, SInt)), Kind: "omidx", Group: g, Root: root, KSort: ks})
	for _, l := range leaves(vt) {
		r.vals = append(r.vals, regKey(&keyMeta{Key: g + ".val" + l.Path, Sort: SArr(SInt, SArr(SInt, l.Sort)), Kind: "omval", Group: g, Root: root, L: l, KSort: ks}))
	}
	return r
}

type mapKeysT struct {
	dom, ln *keyMeta
	vals    []*keyMeta
	kt, vt  types.Type
	ks      string
}

func mapKeys(mt *types.Map) *mapKeysT {
	g := "M:" + typeKey(mt)
	kl := leaves(mt.Key())
	if len(kl) != 1 {
		unsup("map with composite key %s", mt)
	}
	ks := kl[0].Sort
	r := &mapKeysT{kt: mt.Key(), vt: mt.Elem(), ks: ks}
	r.dom = regKey(&keyMeta{Key: g + ".dom", Sort: SArr(SInt, SArr(ks, SBool)), Kind: "mapdom", Group: g, KSort: ks, Root: g})
	r.ln = regKey(&keyMeta{Key: g + ".len", Sort: SArr(SInt, SInt), Kind: "maplen", Group: g, KSort: ks, Root: g})
	for _, l := range leaves(mt.Elem()) {
		r.vals = append(r.vals, regKey(&keyMeta{Key: g + ".val" + l.Path, Sort: SArr(SInt, SArr(ks, l.Sort)), Kind: "mapval", Group: g, L: l, KSort: ks, Root: g}))
	}
	return r
}

func globKeys(name string, t types.Type) []*keyMeta {
	var out []*keyMeta
	for _, l := range leaves(t) {
		out = append(out, regKey(&keyMeta{Key: "G:" + name + l.Path, Sort: l.Sort, Kind: "glob", L: l, Group: leafGroup("G:"+name, l), Root: name}))
	}
	return out
}

// newBases creates fresh base terms for all keys of the group of key, with the
// representation axioms of the modelled structures.
func newBases(prefix string, group string, alloc *Term) map[string]*Term {
	out := map[string]*Term{}
	for _, k := range groupTab[group] {
		out[k] = Fresh(prefix+k, keyTab[k].Sort)
	}
	for _, k := range groupTab[group] {
		baseAxioms(keyTab[k], out, alloc)
	}
	return out
}

func baseAxioms(m *keyMeta, bases map[string]*Term, alloc *Term) {
	b := bases[m.Key]
	get := func(suffix string) *Term {
		if t, ok := bases["O:"+m.Root+suffix]; ok {
			return t
		}
		return bases[m.Root+suffix]
	}
	switch m.Kind {
	case "fld":
		r := BVar("r", SInt)
		s := Select(b, r)
		f := leafFactAt(m.L, s, alloc, r)
		if f != True {
			AddAxiom(b, Forall([]*Term{r}, f, []*Term{s}))
		}
		if m.L.Kind == "slen" {
			cp := bases[strings.TrimSuffix(m.Key, "#len")+"#cap"]
			rf := bases[strings.TrimSuffix(m.Key, "#len")+"#ref"]
			if cp != nil && rf != nil {
				AddAxiom(b, Forall([]*Term{r}, And(Le(s, Select(cp, r)), Implies(Eq(Select(rf, r), IntT(0)), Eq(Select(cp, r), IntT(0)))), []*Term{s}))
			}
		}
	case "glob":
		f := leafFact(m.L, b, alloc)
		if f != True {
			AddAxiom(b, f)
		}
	case "elem", "omval":
		r, i := BVar("r", SInt), BVar("i", SInt)
		s := Select(Select(b, r), i)
		f := leafFactAt(m.L, s, alloc, r)
		if f != True {
			AddAxiom(b, Forall([]*Term{r, i}, f, []*Term{s}))
		}
		if m.L.Kind == "slen" {
			cp := bases[strings.TrimSuffix(m.Key, "#len")+"#cap"]
			rf := bases[strings.TrimSuffix(m.Key, "#len")+"#ref"]
			if cp != nil && rf != nil {
				c, rr := Select(Select(cp, r), i), Select(Select(rf, r), i)
				AddAxiom(b, Forall([]*Term{r, i}, And(Le(s, c), Implies(Eq(rr, IntT(0)), Eq(c, IntT(0)))), []*Term{s}))
			}
		}
	case "mapval":
		r, i := BVar("r", SInt), BVar("k", m.KSort)
		s := Select(Select(b, r), i)
		f := leafFactAt(m.L, s, alloc, r)
		if f != True {
			AddAxiom(b, Forall([]*Term{r, i}, f, []*Term{s}))
		}
	case "omlen":
		r := BVar("r", SInt)
		s := Select(b, r)
		AddAxiom(b, Forall([]*Term{r}, And(Le(IntT(0), s), Le(s, IntT(1<<50))), []*Term{s}))
		AddAxiom(b, Eq(Select(b, IntT(0)), IntT(0)))
	case "omkey":
		r, i := BVar("r", SInt), BVar("i", SInt)
		s := Select(Select(b, r), i)
		ln, idx := get(".len"), get(".idx")
		AddAxiom(b, Forall([]*Term{r, i}, Implies(And(Le(IntT(0), i), Lt(i, Select(ln, r))), Eq(Select(Select(idx, r), s), i)), []*Term{s}))
	case "omidx":
		r, k := BVar("r", SInt), BVar("k", m.KSort)
		s := Select(Select(b, r), k)
		ln, key := get(".len"), get(".key")
		AddAxiom(b, Forall([]*Term{r, k}, And(Le(IntT(-1), s), Lt(s, Select(ln, r)), Implies(Le(IntT(0), s), Eq(Select(Select(key, r), s), k))), []*Term{s}))
	case "maplen":
		r := BVar("r", SInt)
		s := Select(b, r)
		AddAxiom(b, Forall([]*Term{r}, And(Le(IntT(0), s), Le(s, IntT(1<<50))), []*Term{s}))
		AddAxiom(b, Eq(Select(b, IntT(0)), IntT(0)))
	case "mapdom":
		r, k := BVar("r", SInt), BVar("k", m.KSort)
		s := Select(Select(b, r), k)
		ln := get(".len")
		AddAxiom(b, Forall([]*Term{r, k}, Implies(s, Le(IntT(1), Select(ln, r))), []*Term{s}))
	}
}

// ---- epochs: lazily resolved heap contents

type Epoch struct {
	id     int
	kind   string // init, havoc, frame, merge
	alloc  *Term
	memo   map[string]*Term
	pre    *State                                            // frame
	frame  func(m *keyMeta, nw, old *Term, pre *State) *Term // frame axiom
	keep   func(m *keyMeta) bool                             // frame: key unchanged
	conds  []*Term
	parts  []*State
	loopID int
	onNew  func(m *keyMeta, t *Term)
	loop   bool
}

var epochN int

func newEpoch(kind string, alloc *Term) *Epoch {
	epochN++
	return &Epoch{id: epochN, kind: kind, alloc: alloc, memo: map[string]*Term{}}
}

func (e *Epoch) lookup(m *keyMeta) *Term {
	if t, ok := e.memo[m.Key]; ok {
		return t
	}
	switch e.kind {
	case "init", "havoc":
		pre := "H"
		if e.kind == "havoc" {
			pre = fmt.Sprintf("L%d", e.id)
		}
		for k, t := range newBases(pre, m.Group, e.alloc) {
			if _, ok := e.memo[k]; !ok {
				e.memo[k] = t
				if e.onNew != nil {
					e.onNew(keyTab[k], t)
				}
			}
		}
	case "frame":
		if e.keep != nil && e.keep(m) {
			t := e.pre.get(m)
			e.memo[m.Key] = t
			return t
		}
		bs := newBases(fmt.Sprintf("C%d", e.id), m.Group, e.alloc)
		for k, t := range bs {
			e.memo[k] = t
		}
		for _, k := range sortedKeys(bs) {
			if ax := e.frame(keyTab[k], bs[k], e.pre.get(keyTab[k]), e.pre); ax != nil && ax != True {
				AddAxiom(bs[k], ax)
			}
		}
	case "merge":
		t := e.parts[len(e.parts)-1].get(m)
		for i := len(e.parts) - 2; i >= 0; i-- {
			t = Ite(e.conds[i], e.parts[i].get(m), t)
		}
		e.memo[m.Key] = t
	}
	return e.memo[m.Key]
}

func (s *State) get(m *keyMeta) *Term {
	if t, ok := s.heap[m.Key]; ok {
		return t
	}
	return s.epoch.lookup(m)
}
func (s *State) set(m *keyMeta, t *Term) { s.heap[m.Key] = t }

// ---- path condition merging
func pcMinus(a, b []*Term) []*Term {
	in := map[*Term]bool{}
	for _, t := range b {
		in[t] = true
	}
	var out []*Term
	for _, t := range a {
		if !in[t] {
			out = append(out, t)
		}
	}
	return out
}

func pcCommon(pcs [][]*Term) []*Term {
	var out []*Term
	for _, t := range pcs[0] {
		ok := true
		for _, p := range pcs[1:] {
			f := false
			for _, q := range p {
				if q == t {
					f = true
					break
				}
			}
			if !f {
				ok = false
				break
			}
		}
		if ok {
			out = append(out, t)
		}
	}
	return out
}

// mergePCs returns the merged path condition.
func mergePCs(pcs [][]*Term) []*Term {
	common := pcCommon(pcs)
	var rests [][]*Term
	for _, p := range pcs {
		rests = append(rests, pcMinus(p, common))
	}
	for changed := true; changed; {
		changed = false
	outer:
		for i := 0; i < len(rests); i++ {
			for j := i + 1; j < len(rests); j++ {
				d1, d2 := pcMinus(rests[i], rests[j]), pcMinus(rests[j], rests[i])
				if len(d1) == 0 || len(d2) == 0 {
					// one subsumes the other
					if len(d1) == 0 {
						rests = append(rests[:j], rests[j+1:]...)
					} else {
						rests = append(rests[:i], rests[i+1:]...)
					}
					changed = true
					break outer
				}
				if len(d1) == 1 && len(d2) == 1 && d1[0] == Not(d2[0]) {
					m := pcMinus(rests[i], d1)
					rests = append(rests[:j], rests[j+1:]...)
					rests[i] = m
					changed = true
					break outer
				}
				// {a} or {not a, b...}  => {a or b...}
				if len(d1) == 1 && len(rests[i]) == 1 {
					for q, t := range rests[j] {
						if t == Not(d1[0]) {
							nr := append(append([]*Term{}, rests[j][:q]...), rests[j][q+1:]...)
							rests[j] = nr
							changed = true
							break outer
						}
					}
				}
				if len(d2) == 1 && len(rests[j]) == 1 {
					for q, t := range rests[i] {
						if t == Not(d2[0]) {
							nr := append(append([]*Term{}, rests[i][:q]...), rests[i][q+1:]...)
							rests[i] = nr
							changed = true
							break outer
						}
					}
				}
			}
		}
	}
	var ors []*Term
	for _, r := range rests {
		ors = append(ors, And(r...))
	}
	o := Or(ors...)
	st := &State{pc: common}
	st.addPC(o)
	return st.pc
}

// relConds gives, per state, the condition selecting it among the merged ones.
func relConds(pcs [][]*Term) []*Term {
	common := pcCommon(pcs)
	var out []*Term
	for _, p := range pcs {
		out = append(out, And(pcMinus(p, common)...))
	}
	return out
}

func (x *Exec) mergeStates(sts []*State) (*State, []*Term) {
	if len(sts) == 1 {
		return sts[0].clone(), []*Term{True}
	}
	// order: put shorter conditions first so ite conditions stay small
	var pcs [][]*Term
	for _, s := range sts {
		pcs = append(pcs, s.pc)
	}
	conds := relConds(pcs)
	out := &State{pc: mergePCs(pcs), heap: map[string]*Term{}, cells: map[*CellID]Value{}}
	n := len(sts)
	sameEpoch := true
	keys := map[string]bool{}
	for _, s := range sts {
		if s.epoch != sts[0].epoch {
			sameEpoch = false
		}
		for k := range s.heap {
			keys[k] = true
		}
	}
	iteT := func(f func(i int) *Term) *Term {
		t := f(n - 1)
		for i := n - 2; i >= 0; i-- {
			t = Ite(conds[i], f(i), t)
		}
		return t
	}
	ks := make([]string, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		m := keyTab[k]
		out.heap[k] = iteT(func(i int) *Term { return sts[i].get(m) })
	}
	if sameEpoch {
		out.epoch = sts[0].epoch
	} else {
		e := newEpoch("merge", nil)
		for i, s := range sts {
			e.conds = append(e.conds, conds[i])
			e.parts = append(e.parts, &State{heap: map[string]*Term{}, epoch: s.epoch})
		}
		out.epoch = e
	}
	out.alloc = iteT(func(i int) *Term { return sts[i].alloc })
	if out.alloc.Op == "ite" {
		// name it, so that freshness stays syntactic
		a := Fresh("alloc", SInt)
		allocVars[a.ID] = true
		r := BVar("r", SInt)
		g := UF("gen", SInt, r)
		AddAxiom(a, Forall([]*Term{r}, Implies(Lt(r, a), Le(g, a)), []*Term{g}))
		for _, s := range sts {
			if !s.alloc.closed() {
				unsup("allocation in a quantified context")
			}
			AddAxiom(a, Le(s.alloc, a))
			allocLB[a.ID] = append(allocLB[a.ID], s.alloc)
		}
		out.alloc = a
	}
	out.ver = iteT(func(i int) *Term { return sts[i].ver })
	out.dver = iteT(func(i int) *Term { return sts[i].dver })
	for c := range sts[0].cells {
		vs := make([]Value, n)
		ok := true
		for i, s := range sts {
			v, has := s.cells[c]
			if !has {
				ok = false
				break
			}
			vs[i] = v
		}
		if !ok {
			continue
		}
		out.cells[c] = x.iteVals(conds, vs, c.t)
	}
	// cells present only on some paths (allocated in a branch)
	for _, s := range sts[1:] {
		for c, v := range s.cells {
			if _, ok := out.cells[c]; !ok {
				out.cells[c] = v
			}
		}
	}
	for c, v := range sts[0].cells {
		if _, ok := out.cells[c]; !ok {
			out.cells[c] = v
		}
	}
	return out, conds
}

var allocVars = map[int]bool{}

func (x *Exec) iteVals(conds []*Term, vs []Value, t types.Type) Value {
	v := vs[len(vs)-1]
	for i := len(vs) - 2; i >= 0; i-- {
		v = x.iteVal(conds[i], vs[i], v, t)
	}
	return v
}
