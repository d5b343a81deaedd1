package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The frame condition "no function this one can reach writes field F". Calls
// are followed conservatively: every function an instruction mentions, every
// method of the name at an interface call, every method of a type made into
// an interface, and at a call of a function value every function of the
// package that is used as a value.

type reach struct {
	p    *Prog
	seen map[*ssa.Function]bool
	all  bool
}

func (p *Prog) pkgFuncs() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || strings.HasPrefix(f.Name(), "contract_") {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, n := range sortedKeys(p.pkg.Members) {
		switch m := p.pkg.Members[n].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := p.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					add(p.prog.MethodValue(ms.At(i)))
				}
			}
		}
	}
	return out
}

func (r *reach) add(f *ssa.Function) {
	if f == nil || r.seen[f] {
		return
	}
	r.seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var ops [16]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if g, ok := (*o).(*ssa.Function); ok && (g.Pkg == nil || g.Pkg == r.p.pkg) {
					r.add(g)
				}
			}
			if mi, ok := in.(*ssa.MakeInterface); ok {
				r.methods(mi.X.Type(), "")
			}
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			if cc.IsInvoke() {
				for _, f := range r.p.pkgFuncs() {
					if f.Signature.Recv() != nil && f.Name() == cc.Method.Name() {
						r.add(f)
					}
				}
				continue
			}
			switch cc.Value.(type) {
			case *ssa.Function, *ssa.Builtin, *ssa.MakeClosure:
			default:
				r.values()
			}
		}
	}
}

// methods adds the methods of t.
func (r *reach) methods(t types.Type, name string) {
	ms := r.p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		f := r.p.prog.MethodValue(ms.At(i))
		if f != nil && (f.Pkg == nil || f.Pkg == r.p.pkg) {
			r.add(f)
		}
	}
}

// values adds every function used as a value.
func (r *reach) values() {
	if r.all {
		return
	}
	r.all = true
	for _, f := range r.p.pkgFuncs() {
		if f.Parent() != nil {
			r.add(f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for i, o := range in.Operands(ops[:0]) {
					g, ok := (*o).(*ssa.Function)
					if !ok || g.Pkg != nil && g.Pkg != r.p.pkg {
						continue
					}
					if c, call := in.(ssa.CallInstruction); call && i == 0 && c.Common().Value == ssa.Value(g) {
						continue
					}
					r.add(g)
				}
			}
		}
	}
}

// writerOf: a function reachable from f that may write the field of the
// struct type, "" if there is none.
func (p *Prog) writerOf(f *ssa.Function, typ, field string) string {
	r := &reach{p: p, seen: map[*ssa.Function]bool{}}
	r.add(f)
	for _, g := range p.pkgFuncs() {
		if r.seen[g] && writes(g, p.tpkg, typ, field) {
			return g.RelString(p.tpkg)
		}
	}
	for g := range r.seen { // wrappers and instances
		if writes(g, p.tpkg, typ, field) {
			return g.RelString(p.tpkg)
		}
	}
	return ""
}

func writes(f *ssa.Function, pkg *types.Package, typ, field string) bool {
	is := func(t types.Type) *types.Struct {
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || n.Obj().Name() != typ || n.Obj().Pkg() != pkg {
			return nil
		}
		s, _ := n.Underlying().(*types.Struct)
		return s
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.FieldAddr:
				pt, ok := types.Unalias(t.X.Type()).Underlying().(*types.Pointer)
				if !ok {
					continue
				}
				s := is(pt.Elem())
				if s == nil || s.Field(t.Field).Name() != field {
					continue
				}
				if al, ok := t.X.(*ssa.Alloc); ok && al.Heap {
					continue // the object made here
				}
				for _, u := range *t.Referrers() {
					switch u.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return true
					}
				}
			case *ssa.Store:
				if s := is(t.Val.Type()); s != nil {
					if _, ok := t.Addr.(*ssa.Alloc); ok {
						continue // the object made here
					}
					return true
				}
			}
		}
	}
	return false
}
