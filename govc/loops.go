package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type headVar struct {
	name string
	t    types.Type
	val  Value   // value at the loop head
	syms []*Term // leaf terms at head
	ent  []*Term // leaf terms at entry
	lin  []*Term // per leaf: step when linear (nil: not)
	phi  *ssa.Phi
	cell *CellID
}

type candSrc struct {
	desc string
	head *Term
}

type LoopInst struct {
	id        int
	name      string
	real      bool
	fr        *frame
	l         *loop
	k         *Term
	entry     *State
	head      *State
	vars      []*headVar
	keys      []string // havocked keys
	epochH    bool
	backs     []edge
	iter      *MapIter
	nInit     int
	seqIn     int // order of loop entry and of the last back edge
	seqBack   int
	nHead     int
	entPC     *Term
	cands     []*Cand
	seen      map[*Term]bool
	allocE    *Term
	backN     []int
	backS     []*State
	backV     [][]*Term // per back edge: leaf terms of vars
	verH      *Term
	storeRefs map[string][]*Term // objects written in the loop that exist before it
	precise   map[*Term]*Term    // head bases of heaps of which the loop writes known objects only
}

// writtenOnly collects the objects written in heap term t over base: false if
// some write is neither to a loop-invariant object nor to one allocated in
// this iteration.
func writtenOnly(t, base *Term, marker int, refs *[]*Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == base || seen[t] {
			return true
		}
		seen[t] = true
		switch t.Op {
		case "store":
			r := t.Args[1]
			if b, c := splitOff(r); b != nil && allocVars[b.ID] && b.ID > marker && c.Sign() >= 0 {
				return walk(t.Args[0])
			}
			if usesNew(r, marker, map[*Term]bool{}) {
				return false
			}
			have := false
			for _, o := range *refs {
				have = have || o == r
			}
			if !have {
				*refs = append(*refs, r)
			}
			return walk(t.Args[0])
		case "ite":
			return walk(t.Args[1]) && walk(t.Args[2])
		}
		return false
	}
	return walk(t)
}

// storedAt lists the loop-invariant objects that heap term t writes.
func storedAt(t *Term, marker int, f func(r *Term)) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "store":
			if r := t.Args[1]; r.Sort == SInt && !usesNew(r, marker, map[*Term]bool{}) {
				f(r)
			}
			walk(t.Args[0])
		case "ite":
			walk(t.Args[1])
			walk(t.Args[2])
		}
	}
	walk(t)
}

// usesNew: does t mention a variable made after marker?
func usesNew(t *Term, marker int, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.Op == "var" && t.ID > marker {
		return true
	}
	for _, a := range t.Args {
		if usesNew(a, marker, seen) {
			return true
		}
	}
	return false
}

func (x *Exec) stackKey(fr *frame, head *ssa.BasicBlock) string {
	var sb strings.Builder
	for _, f := range x.stack {
		sb.WriteString(f.String())
		sb.WriteByte('/')
	}
	fmt.Fprintf(&sb, "#%d", head.Index)
	return sb.String()
}

func opaqueVal(v Value) bool {
	switch p := v.(type) {
	case *Ptr, *Clo, *MapIter, *VarSl:
		return true
	case *Tup:
		for _, e := range p.E {
			if opaqueVal(e) {
				return true
			}
		}
	}
	return false
}

// mkVar creates the head value of a phi or cell.
func (x *Exec) mkVar(name string, t types.Type, ent Value, st *State, lin []*Term, k *Term, facts *[]*Term) *headVar {
	hv := &headVar{name: name, t: t}
	if vs, ok := ent.(*VarSl); ok {
		ent = x.materialise(vs, st)
	}
	if isArr(t) {
		unsup("array variable in a loop")
	}
	hv.ent = x.toLeaves(ent, t, st)
	ls := leaves(t)
	for i, l := range ls {
		if lin != nil && lin[i] != nil && k != nil {
			hv.syms = append(hv.syms, Add(hv.ent[i], Mul(lin[i], k)))
			continue
		}
		if l.Kind == "soff" {
			// offsets stay what they were (checked at the back edges)
			hv.syms = append(hv.syms, hv.ent[i])
			continue
		}
		v := Fresh(name+l.Path, l.Sort)
		hv.syms = append(hv.syms, v)
		if f := leafFact(l, v, st.alloc); f != True {
			*facts = append(*facts, f)
		}
	}
	if lin == nil {
		*facts = append(*facts, groupFacts(ls, hv.syms)...)
	} else {
		for i, l := range ls {
			if l.Kind == "sref" && lin[i] == nil {
				*facts = append(*facts, groupFacts(ls[i:i+4], hv.syms[i:i+4])...)
			}
		}
	}
	hv.lin = lin
	hv.val = fromLeaves(hv.syms, t)
	return hv
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func isZeroStep(t *Term) bool { return t.Op == "int" && t.Val.Sign() == 0 }

func (x *Exec) enterLoop(fr *frame, l *loop, live []edge) *State {
	var sts []*State
	for _, e := range live {
		sts = append(sts, e.st)
	}
	entry, conds := x.mergeStates(sts)
	phis := phisOf(l.head)
	entVals := map[*ssa.Phi]Value{}
	for _, p := range phis {
		vs := x.phiEdgeVals(fr, p, live)
		entVals[p] = x.iteVals(conds, vs, p.Type())
	}
	var bodyOrder []*ssa.BasicBlock
	for _, b := range fr.info.order {
		if l.blocks[b] {
			bodyOrder = append(bodyOrder, b)
		}
	}
	skey := x.stackKey(fr, l.head)
	if x.modCache == nil {
		x.modCache = map[string]map[string]bool{}
	}
	modGroups := map[string]bool{}
	for g := range x.modCache[skey] {
		modGroups[g] = true
	}
	modCells := map[*CellID]bool{}
	epochH := modGroups["*"]
	constPhi := map[*ssa.Phi]bool{} // phis carrying the same opaque value around
	for _, p := range phis {
		if opaqueVal(entVals[p]) {
			if _, ok := entVals[p].(*VarSl); !ok {
				constPhi[p] = true
			}
		}
	}
	lins := map[string][]*Term{} // var name -> linear steps
	storeRefs := map[string][]*Term{}
	var preciseRefs map[string][]*Term
	for round := 0; ; round++ {
		marker := termCount
		if round > 12 {
			unsup("loop analysis does not stabilise in %s", fr.fn)
		}
		// ---- dry run with everything known-modified arbitrary
		na, no := len(x.assum), len(x.obls)
		nl := len(x.allLoops)
		x.dry++
		savedVals := fr.vals
		savedRets := fr.rets
		savedInsts := fr.insts
		fr.vals = map[ssa.Value]Value{}
		for k, v := range savedVals {
			fr.vals[k] = v
		}
		fr.insts = map[*ssa.BasicBlock]*LoopInst{}
		for k, v := range savedInsts {
			fr.insts[k] = v
		}
		li := &LoopInst{fr: fr, l: l, seen: map[*Term]bool{}}
		head := entry.clone()
		x.newAlloc(head)
		var facts []*Term
		if epochH {
			head.epoch = newEpoch("havoc", head.alloc)
			head.heap = map[string]*Term{}
		}
		head.ver = Fresh("ver", SInt)
		head.dver = Fresh("dver", SInt)
		for _, g := range sortedKeys(modGroups) {
			if g == "*" || epochH {
				continue
			}
			for k, t := range newBases("dry", g, head.alloc) {
				head.heap[k] = t
			}
		}
		var vars []*headVar
		for _, p := range phis {
			if constPhi[p] {
				fr.vals[p] = entVals[p]
				continue
			}
			hv := x.mkVar("p_"+p.Comment, p.Type(), entVals[p], head, nil, nil, &facts)
			hv.phi = p
			fr.vals[p] = hv.val
			vars = append(vars, hv)
		}
		for _, c := range sortedCells(entry.cells) {
			if modCells[c] {
				hv := x.mkVar("c_"+c.name, c.t, entry.cells[c], head, nil, nil, &facts)
				hv.cell = c
				head.cells[c] = hv.val
				vars = append(vars, hv)
			}
		}
		fr.insts[l.head] = li
		headSnap := head.clone()
		x.execBlocks(fr, bodyOrder, map[*ssa.BasicBlock][]edge{l.head: {{nil, head}}}, l.head)
		backs := li.backs
		// ---- what changed?
		changed := false
		newLins := map[string][]*Term{}
		varKey := func(hv *headVar) string {
			if hv.phi != nil {
				return "p" + hv.phi.Name()
			}
			return fmt.Sprintf("c%d", hv.cell.id)
		}
		backVal := func(hv *headVar, b edge) Value {
			if hv.phi != nil {
				pi := predIndex(hv.phi.Block(), b.from, 0)
				return x.val(fr, hv.phi.Edges[pi], b.st)
			}
			return b.st.cells[hv.cell]
		}
		for _, hv := range vars {
			steps := make([]*Term, len(hv.syms))
			for i := range steps {
				steps[i] = nil
			}
			for bi, b := range backs {
				bv := backVal(hv, b)
				if bv == nil {
					unsup("loop variable lost")
				}
				bl := x.toLeaves(bv, hv.t, b.st)
				for i := range bl {
					var step *Term
					if bl[i] == hv.syms[i] {
						step = IntT(0)
					} else if bl[i].Sort == SInt {
						base, c := splitOff(bl[i])
						if base == hv.syms[i] {
							step = IntB(c)
						}
					}
					if bi == 0 {
						steps[i] = step
					} else if steps[i] != step {
						steps[i] = nil
					}
					if step == nil {
						steps[i] = nil
					}
					if bi > 0 && step == nil {
						steps[i] = nil
					}
				}
			}
			// a leaf non-linear on any back edge stays nil
			for _, b := range backs {
				bl := x.toLeaves(backVal(hv, b), hv.t, b.st)
				for i := range bl {
					ok := bl[i] == hv.syms[i]
					if !ok && bl[i].Sort == SInt {
						base, _ := splitOff(bl[i])
						ok = base == hv.syms[i]
					}
					if !ok {
						steps[i] = nil
					}
				}
			}
			// a zero step on a non-integer leaf means "unchanged"
			for i := range steps {
				if steps[i] != nil && hv.syms[i].Sort != SInt && !isZeroStep(steps[i]) {
					steps[i] = nil
				}
			}
			newLins[varKey(hv)] = steps
		}
		for _, p := range phis {
			if constPhi[p] {
				for _, b := range backs {
					pi := predIndex(p.Block(), b.from, 0)
					if bv := x.val(fr, p.Edges[pi], b.st); !sameOpaque(bv, entVals[p]) {
						unsup("loop-carried opaque value %s in %s", p.Comment, fr.fn)
					}
				}
			}
		}
		for _, b := range backs {
			if b.st.epoch != headSnap.epoch && !epochH {
				epochH = true
				modGroups["*"] = true
				changed = true
			}
			if epochH {
				break
			}
			for k, t := range b.st.heap {
				m := keyTab[k]
				if modGroups[m.Group] {
					continue
				}
				if t != headSnap.get(m) {
					modGroups[m.Group] = true
					changed = true
				}
			}
		}
		for _, b := range backs {
			for _, c := range sortedCells(entry.cells) {
				if !modCells[c] && b.st.cells[c] != headSnap.cells[c] && !sameOpaque(b.st.cells[c], headSnap.cells[c]) {
					modCells[c] = true
					changed = true
				}
			}
		}
		storeRefs = map[string][]*Term{}
		for _, b := range backs {
			for _, k := range sortedKeys(b.st.heap) {
				storedAt(b.st.heap[k], marker, func(r *Term) {
					for _, o := range storeRefs[k] {
						if o == r {
							return
						}
					}
					storeRefs[k] = append(storeRefs[k], r)
				})
			}
		}
		preciseRefs = map[string][]*Term{}
		if !epochH {
			for g := range modGroups {
				refs := []*Term{}
				ok := true
				for _, k := range groupTab[g] {
					if keyTab[k].Kind == "glob" || headSnap.heap[k] == nil {
						ok = false
					}
					for _, b := range backs {
						ok = ok && b.st.epoch == headSnap.epoch && writtenOnly(b.st.get(keyTab[k]), headSnap.heap[k], marker, &refs)
					}
				}
				if ok && len(refs) <= 4 {
					preciseRefs[g] = refs
				}
			}
		}
		fr.vals = savedVals
		fr.rets = savedRets
		fr.insts = savedInsts
		x.dry--
		x.assum = x.assum[:na]
		x.obls = x.obls[:no]
		x.allLoops = x.allLoops[:nl]
		if !changed {
			lins = newLins
			break
		}
	}
	mc := map[string]bool{}
	for g := range modGroups {
		mc[g] = true
	}
	x.modCache[skey] = mc

	// ---- real head
	x.loopN++
	li := &LoopInst{precise: map[*Term]*Term{}, id: x.loopN, real: true, fr: fr, l: l, entry: entry, epochH: epochH, seen: map[*Term]bool{}, allocE: entry.alloc}
	li.name = fmt.Sprintf("%s.loop%d", x.P.short(fr.fn), x.loopN)
	li.k = Fresh("k", SInt)
	AddAxiom(li.k, Le(IntT(0), li.k))
	li.nInit = len(x.assum)
	x.loopSeq++
	li.seqIn = x.loopSeq
	li.entPC = entry.PC()
	head := entry.clone()
	x.newAlloc(head)
	var facts []*Term
	if epochH {
		head.epoch = newEpoch("havoc", head.alloc)
		head.epoch.loop = true
		head.heap = map[string]*Term{}
		head.ver = Fresh("ver", SInt)
		head.dver = Fresh("dver", SInt)
	}
	for g := range modGroups {
		if g == volCtx || g == "G:"+volGhost {
			continue
		}
		// conservative: memory written in the loop may be visible to UH_ functions
		head.ver = Fresh("ver", SInt)
		break
	}
	for g := range modGroups {
		if g == "*" || isDataGroup(g) {
			head.dver = Fresh("dver", SInt)
			break
		}
	}
	li.verH = head.ver
	if !epochH {
		for _, g := range sortedKeys(modGroups) {
			bs := newBases(fmt.Sprintf("L%d:", li.id), g, head.alloc)
			for _, k := range sortedKeys(bs) {
				head.heap[k] = bs[k]
				li.keys = append(li.keys, k)
			}
			if refs, ok := preciseRefs[g]; ok {
				// objects the loop does not write keep their value; those it
				// allocates are never read before they are allocated
				for _, k := range sortedKeys(bs) {
					h := entry.get(keyTab[k])
					for _, o := range refs {
						h = Store(h, o, Select(bs[k], o))
					}
					li.precise[bs[k]] = h
				}
			}
		}
	}
	for _, p := range phis {
		if constPhi[p] {
			fr.vals[p] = entVals[p]
			continue
		}
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		hv := x.mkVar("h_"+nm, p.Type(), entVals[p], head, lins["p"+p.Name()], li.k, &facts)
		hv.phi = p
		fr.vals[p] = hv.val
		li.vars = append(li.vars, hv)
	}
	for _, c := range sortedCells(entry.cells) {
		if modCells[c] {
			hv := x.mkVar("c_"+c.name, c.t, entry.cells[c], head, lins[fmt.Sprintf("c%d", c.id)], li.k, &facts)
			hv.cell = c
			head.cells[c] = hv.val
			li.vars = append(li.vars, hv)
		}
	}
	for _, f := range facts {
		x.assume(&State{}, f)
	}
	li.head = head.clone()
	fr.insts[l.head] = li
	li.storeRefs = storeRefs
	if x.dry == 0 {
		x.allLoops = append(x.allLoops, li)
		x.genCands(li)
	}
	li.nHead = len(x.assum)
	for _, k := range li.keys {
		if h := li.precise[head.heap[k]]; h != nil {
			head.heap[k] = h
		}
	}
	return head
}

func sameOpaque(a, b Value) bool {
	if a == b {
		return true
	}
	switch p := a.(type) {
	case *Ptr:
		q, ok := b.(*Ptr)
		return ok && p.Kind == q.Kind && p.Cell == q.Cell && p.Base == q.Base && p.Idx == q.Idx && p.Root == q.Root && p.Path == q.Path && fmt.Sprint(p.CP) == fmt.Sprint(q.CP)
	case *Clo:
		q, ok := b.(*Clo)
		if !ok || p.Fn != q.Fn || len(p.Bind) != len(q.Bind) {
			return false
		}
		for i := range p.Bind {
			if !sameOpaque(p.Bind[i], q.Bind[i]) {
				return false
			}
		}
		return true
	case *Tup:
		q, ok := b.(*Tup)
		if !ok || len(p.E) != len(q.E) {
			return false
		}
		for i := range p.E {
			if !sameOpaque(p.E[i], q.E[i]) {
				return false
			}
		}
		return true
	case *Ifc:
		q, ok := b.(*Ifc)
		return ok && types.Identical(p.T, q.T) && sameOpaque(p.V, q.V)
	}
	return false
}

func (x *Exec) backEdge(fr *frame, li *LoopInst, b edge) {
	if x.dry > 0 {
		return
	}
	var bl []*Term
	for _, hv := range li.vars {
		var v Value
		if hv.phi != nil {
			pi := predIndex(hv.phi.Block(), b.from, 0)
			v = x.val(fr, hv.phi.Edges[pi], b.st)
		} else {
			v = b.st.cells[hv.cell]
		}
		vs := x.toLeaves(v, hv.t, b.st)
		for i, l := range leaves(hv.t) {
			if l.Kind == "soff" && hv.syms[i] == hv.ent[i] && vs[i] != hv.ent[i] {
				unsup("slice offset of %s changes in a loop", hv.name)
			}
		}
		bl = append(bl, vs...)
	}
	li.backV = append(li.backV, bl)
	li.backS = append(li.backS, b.st.clone())
	li.backN = append(li.backN, len(x.assum))
	x.loopSeq++
	li.seqBack = x.loopSeq
}

// atHead gives a candidate as a statement about the loop head.
func (li *LoopInst) atHead(t *Term) *Term {
	if len(li.precise) == 0 {
		return t
	}
	return Subst(t, li.precise)
}

func (x *Exec) addCand(li *LoopInst, desc string, t *Term) {
	if t == nil || t == True || t == False || li.seen[t] || !t.closed() {
		return
	}
	li.seen[t] = true
	act := Fresh("act", SBool)
	c := &Cand{Desc: li.name + ": " + desc, Act: act, Head: t, Alive: true, Loop: li.id}
	li.cands = append(li.cands, c)
	x.cands = append(x.cands, c)
	c.Assume = Implies(li.entPC, li.atHead(t))
	x.assum = append(x.assum, Implies(act, c.Assume))
}

// headerCond receives the loop's exit test.
func (x *Exec) headerCond(fr *frame, li *LoopInst, c *Term) {
	if x.dry > 0 || x.spec > 0 {
		return
	}
	var atoms func(t *Term)
	atoms = func(t *Term) {
		switch t.Op {
		case "not", "and", "or":
			for _, a := range t.Args {
				atoms(a)
			}
		case "<", "<=":
			a, b := t.Args[0], t.Args[1]
			x.addCand(li, "bound", Le(a, b))
			x.addCand(li, "bound", Le(b, a))
		case "=":
			if t.Args[0].Sort == SInt {
				x.addCand(li, "bound", Le(t.Args[0], t.Args[1]))
				x.addCand(li, "bound", Le(t.Args[1], t.Args[0]))
			}
		}
	}
	atoms(c)
}

func (x *Exec) frameGoal(m *keyMeta, nw, old *Term, guard func(r *Term) *Term) *Term {
	if m.Kind == "glob" {
		return Eq(nw, old)
	}
	r := BVar("r", SInt)
	s := Select(nw, r)
	return Forall([]*Term{r}, Implies(guard(r), Eq(s, Select(old, r))), []*Term{s})
}

func (x *Exec) genCands(li *LoopInst) {
	// frame candidates
	for _, k := range li.keys {
		m := keyTab[k]
		h := li.head.heap[k]
		e := li.entry.get(m)
		if li.precise[h] != nil {
			continue
		}
		x.addCand(li, "frame-entry "+k, x.frameGoal(m, h, e, func(r *Term) *Term {
			return And(Le(IntT(0), r), Lt(r, li.allocE))
		}))
		if rs := li.storeRefs[k]; len(rs) > 0 && len(rs) <= 6 {
			x.addCand(li, "frame-others "+k, x.frameGoal(m, h, e, func(r *Term) *Term {
				gs := []*Term{Le(IntT(0), r), Lt(r, li.allocE)}
				for _, o := range rs {
					gs = append(gs, Not(Eq(r, o)))
				}
				return And(gs...)
			}))
		}
		if x.top != nil && x.pre != nil {
			p := x.pre.get(m)
			x.addCand(li, "frame "+k, x.frameGoal(m, h, p, func(r *Term) *Term {
				return And(Le(IntT(0), r), Lt(r, x.pre.alloc), Not(x.top.allowed(m, r)))
			}))
		}
	}
	if li.epochH && x.top != nil && x.pre != nil && !x.top.modAny {
		e := li.head.epoch
		e.onNew = func(m *keyMeta, t *Term) {
			p := x.pre.get(m)
			x.addCand(li, "frame "+m.Key, x.frameGoal(m, t, p, func(r *Term) *Term {
				return And(Le(IntT(0), r), Lt(r, x.pre.alloc), Not(x.top.allowed(m, r)))
			}))
		}
	}
	if li.verH != nil && li.verH != li.entry.ver {
		x.addCand(li, "version", Eq(li.verH, li.entry.ver))
	}
	if li.head.dver != li.entry.dver {
		x.addCand(li, "data version", Eq(li.head.dver, li.entry.dver))
	}
	// variables
	for _, hv := range li.vars {
		ls := leaves(hv.t)
		for i, l := range ls {
			s := hv.syms[i]
			if hv.lin != nil && hv.lin[i] != nil {
				continue
			}
			switch l.Kind {
			case "soff":
				x.addCand(li, hv.name+" offset 0", Eq(s, IntT(0)))
			case "ref", "sref":
				x.addCand(li, hv.name+" nil or new", Or(Eq(s, IntT(0)), Le(li.allocE, s)))
				x.addCand(li, hv.name+" non-nil", Not(Eq(s, IntT(0))))
				x.addCand(li, hv.name+" nil", Eq(s, IntT(0)))
			case "val":
				x.addCand(li, hv.name+" non-nil", Not(Eq(s, VNil)))
			case "slen":
				x.addCand(li, hv.name+" len=k", Eq(s, Add(hv.ent[i], li.k)))
				x.addCand(li, hv.name+" len<=k", Le(s, Add(hv.ent[i], li.k)))
				x.addCand(li, hv.name+" len grows", Le(hv.ent[i], s))
			case "int":
				x.addCand(li, hv.name+" grows", Le(hv.ent[i], s))
				x.addCand(li, hv.name+" shrinks", Le(s, hv.ent[i]))
				x.addCand(li, hv.name+" <= entry+k", Le(s, Add(hv.ent[i], li.k)))
			}
			if li.backs == nil && l.Sort == SBool {
				x.addCand(li, hv.name+" unchanged", Eq(s, hv.ent[i]))
			}
		}
	}
	if x.top == nil {
		return
	}
	k := li.k
	ck := x.spec
	x.spec++
	defer func() { x.spec = ck }()
	ev := func(c *Clo, args ...Value) *Term {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsupported); !ok {
					panic(r)
				}
			}
		}()
		st := x.clauseState(x.top, li.head)
		v, _, ok := x.call(c.Fn.(*ssa.Function), args, c.Bind, st)
		if !ok {
			return nil
		}
		return x.term(v)
	}
	if it := li.mapIter(x); it != nil {
		saved, savedK := x.curIter, x.curK
		x.curIter, x.curK = it, k
		defer func() { x.curIter, x.curK = saved, savedK }()
	}
	// position offsets: k itself
	for ei, el := range x.top.elems {
		name := fmt.Sprintf("elem%d", ei)
		j := BVar("j", SInt)
		b := ev(el, j)
		if b == nil {
			continue
		}
		rng := And(Le(IntT(0), j), Lt(j, k))
		x.elemTemplates(li, name, j, rng, b)
	}
	for ei, el := range x.top.elemKeys {
		it := li.mapIter(x)
		if it == nil {
			continue
		}
		fn := el.Fn.(*ssa.Function)
		kt := fn.Params[0].Type()
		if leaves(kt)[0].Sort != leaves(it.MT.Key())[0].Sort {
			continue
		}
		j := BVar("j", SInt)
		b := ev(el, Select(it.K, j))
		if b == nil {
			continue
		}
		rng := And(Le(IntT(0), j), Lt(j, k))
		x.elemTemplates(li, fmt.Sprintf("elemkey%d", ei), j, rng, b)
	}
	for ii, inv := range x.top.loopInvs {
		fn := inv.Fn.(*ssa.Function)
		var combos [][]Value
		combos = append(combos, nil)
		for pi, p := range fn.Params {
			var opts []Value
			if pi == 0 {
				opts = []Value{k}
			} else {
				for _, hv := range li.vars {
					if types.Identical(hv.t, p.Type()) {
						opts = append(opts, hv.val)
					}
				}
				// loop-invariant locals of that type: those the loop uses, or else any
				for pass := 0; pass < 2 && len(opts) == 0; pass++ {
					seen := map[string]bool{}
					var names []ssa.Value
					for v := range li.fr.vals {
						if pass == 1 || li.uses(v) {
							names = append(names, v)
						}
					}
					sort.Slice(names, func(a, b int) bool { return names[a].Name() < names[b].Name() })
					for _, v := range names {
						if types.Identical(v.Type(), p.Type()) {
							val := li.fr.vals[v]
							if val == nil || opaqueVal(val) {
								continue
							}
							key := fmt.Sprint(x.toLeavesSafe(val, p.Type()))
							if !seen[key] && len(opts) < 4 {
								seen[key] = true
								opts = append(opts, val)
							}
						}
					}
				}
			}
			var next [][]Value
			for _, c := range combos {
				for _, o := range opts {
					next = append(next, append(append([]Value{}, c...), o))
				}
			}
			combos = next
			if len(combos) > 16 {
				combos = combos[:16]
			}
		}
		for ci, c := range combos {
			if len(c) != len(fn.Params) {
				continue
			}
			if t := ev(inv, c...); t != nil {
				for _, p := range conjuncts(t) {
					if !li.concerns(p) {
						continue // says nothing about the loop
					}
					x.addCand(li, fmt.Sprintf("inv%d.%d", ii, ci), p)
				}
			}
		}
	}
}

// uses: is v, defined outside the loop, an operand inside it?
func (li *LoopInst) uses(v ssa.Value) bool {
	rs := v.Referrers()
	if rs == nil {
		return false
	}
	for _, r := range *rs {
		if li.l.blocks[r.Block()] {
			return true
		}
	}
	return false
}

// concerns: does t mention anything the loop changes, or its counter?
func (li *LoopInst) concerns(t *Term) bool {
	m := map[*Term]bool{li.k: true, li.head.alloc: true}
	for _, hv := range li.vars {
		for i, s := range hv.syms {
			if s != hv.ent[i] && s.Op == "var" {
				m[s] = true
			}
		}
	}
	for _, k := range li.keys {
		m[li.head.heap[k]] = true
	}
	if li.epochH {
		for _, b := range li.head.epoch.memo {
			m[b] = true
		}
	}
	if li.head.ver != li.entry.ver {
		m[li.head.ver] = true
	}
	if li.head.dver != li.entry.dver {
		m[li.head.dver] = true
	}
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if m[t] {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (x *Exec) toLeavesSafe(v Value, t types.Type) (out []int) {
	defer func() {
		if r := recover(); r != nil {
			out = nil
		}
	}()
	for _, l := range x.toLeaves(v, t, nil) {
		out = append(out, l.ID)
	}
	return out
}

// mapIter finds the map iterator driven by this loop.
func (li *LoopInst) mapIter(x *Exec) *MapIter {
	for b := range li.l.blocks {
		for _, ins := range b.Instrs {
			if n, ok := ins.(*ssa.Next); ok && !n.IsString && b == li.l.head {
				if it, ok := li.fr.vals[n.Iter].(*MapIter); ok {
					return it
				}
			}
		}
	}
	return nil
}

func (x *Exec) elemTemplates(li *LoopInst, name string, j, rng, b *Term) {
	all := Forall([]*Term{j}, Implies(rng, b))
	none := Forall([]*Term{j}, Implies(rng, Not(b)))
	x.addCand(li, name+" all", all)
	x.addCand(li, name+" none", none)
	for _, hv := range li.vars {
		ls := leaves(hv.t)
		for i, l := range ls {
			s := hv.syms[i]
			if hv.lin != nil && hv.lin[i] != nil {
				continue
			}
			var c *Term
			switch l.Kind {
			case "bool":
				c = s
			case "ref", "sref":
				c = Eq(s, IntT(0))
			case "val":
				c = Eq(s, VNil)
			case "slen":
				c = Eq(s, IntT(0))
			default:
				continue
			}
			for _, q := range []*Term{c, Not(c)} {
				nm := hv.name
				if q == c {
					nm = "zero:" + nm
				}
				x.addCand(li, name+" "+nm+" => all", Implies(q, all))
				x.addCand(li, name+" "+nm+" => none", Implies(q, none))
				x.addCand(li, name+" "+nm+" <= all", Implies(all, q))
				x.addCand(li, name+" "+nm+" <= none", Implies(none, q))
			}
		}
	}
}

// finalizeLoops builds the verification conditions of all candidates.
func (x *Exec) finalizeLoops() {
	for _, li := range x.allLoops {
		if len(li.cands) == 0 {
			continue
		}
		var syms []*Term
		var ent []*Term
		for _, hv := range li.vars {
			syms = append(syms, hv.syms...)
			ent = append(ent, hv.ent...)
		}
		mk := func(vals []*Term, st *State, k *Term) map[*Term]*Term {
			m := map[*Term]*Term{li.k: k}
			for i, s := range syms {
				if s.Op == "var" && s != vals[i] {
					m[s] = vals[i]
				}
			}
			for _, key := range li.keys {
				m[li.head.heap[key]] = st.get(keyTab[key])
			}
			if li.epochH {
				for _, key := range sortedKeys(li.head.epoch.memo) {
					m[li.head.epoch.memo[key]] = st.get(keyTab[key])
				}
			}
			m[li.head.alloc] = st.alloc
			if li.head.ver != li.entry.ver {
				m[li.head.ver] = st.ver
			}
			if li.head.dver != li.entry.dver {
				m[li.head.dver] = st.dver
			}
			return m
		}
		initM := mk(ent, li.entry, IntT(0))
		var backMs []map[*Term]*Term
		for bi := range li.backS {
			backMs = append(backMs, mk(li.backV[bi], li.backS[bi], Add(li.k, IntT(1))))
		}
		for _, c := range li.cands {
			c.VCs = append(c.VCs, VC{PC: li.entPC, Goal: Subst(c.Head, initM), NAssum: li.nInit})
			for bi := range li.backS {
				c.VCs = append(c.VCs, VC{PC: li.backS[bi].PC(), Goal: Subst(c.Head, backMs[bi]), NAssum: li.backN[bi]})
			}
		}
	}
}

// conjuncts splits a formula into conjuncts, also below implications.
func conjuncts(t *Term) []*Term {
	var out []*Term
	switch t.Op {
	case "and":
		for _, a := range t.Args {
			out = append(out, conjuncts(a)...)
		}
		return out
	case "=>":
		for _, c := range conjuncts(t.Args[1]) {
			out = append(out, Implies(t.Args[0], c))
		}
		return out
	case "or":
		for i, a := range t.Args {
			if a.Op == "and" {
				for _, c := range a.Args {
					as := append([]*Term{}, t.Args...)
					as[i] = c
					out = append(out, conjuncts(Or(as...))...)
				}
				return out
			}
		}
	}
	return []*Term{t}
}

// splitGoal splits a formula to be proved into at most max conjuncts.
func splitGoal(t *Term, max int) []*Term {
	gs := splitGoal1(t, 0)
	if len(gs) > max || len(gs) == 0 {
		if t.Op == "and" {
			return t.Args
		}
		return []*Term{t}
	}
	return gs
}

func splitGoal1(t *Term, depth int) []*Term {
	if depth > 12 {
		return []*Term{t}
	}
	var out []*Term
	switch t.Op {
	case "and":
		for _, a := range t.Args {
			out = append(out, splitGoal1(a, depth+1)...)
		}
		return out
	case "=>":
		for _, c := range splitGoal1(t.Args[1], depth+1) {
			out = append(out, Implies(t.Args[0], c))
		}
		return out
	case "not":
		a := t.Args[0]
		if a.Op == "or" {
			for _, q := range a.Args {
				out = append(out, splitGoal1(Not(q), depth+1)...)
			}
			return out
		}
		if a.Op == "and" {
			var ds []*Term
			for _, q := range a.Args {
				ds = append(ds, Not(q))
			}
			return splitOr(t, ds, depth)
		}
	case "or":
		return splitOr(t, t.Args, depth)
	case "forall":
		if len(t.BV) > 0 {
			cs := splitGoal1(t.Args[0], depth+1)
			if len(cs) > 1 {
				for _, c := range cs {
					out = append(out, Forall(t.BV, c))
				}
				return out
			}
		}
	}
	return []*Term{t}
}

// splitOr splits the disjunct that gives the most conjuncts.
func splitOr(t *Term, ds []*Term, depth int) []*Term {
	best, at := []*Term(nil), -1
	for i, d := range ds {
		if cs := splitGoal1(d, depth+1); len(cs) > 1 && len(cs) > len(best) {
			best, at = cs, i
		}
	}
	if at < 0 {
		return []*Term{t}
	}
	var out []*Term
	for _, c := range best {
		as := append([]*Term{}, ds...)
		as[at] = c
		out = append(out, Or(as...))
	}
	return out
}
