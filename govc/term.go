package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	Op    string
	Args  []*Term
	Sort  string
	ID    int
	Name  string  // for var/bvar/const literals
	BV    []*Term // bound vars of a quantifier
	Pats  [][]*Term
	bound map[int]bool // ids of free bvars
	Val   *big.Int     // for int literals
}

const (
	SBool = "Bool"
	SInt  = "Int"
	SStr  = "Str"
	SFlt  = "Flt"
	SVal  = "Val"
	SReal = "Real"
)

func SArr(a, b string) string { return "(Array " + a + " " + b + ")" }

func arrParts(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[len("(Array ") : len(s)-1]
	depth := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

var termTab = map[string]*Term{}
var termCount int

func mk(op, srt, name string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(srt)
	sb.WriteByte('|')
	sb.WriteString(name)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.ID)
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCount++
	t := &Term{Op: op, Args: args, Sort: srt, Name: name, ID: termCount}
	for _, a := range args {
		if len(a.bound) > 0 {
			if t.bound == nil {
				t.bound = map[int]bool{}
			}
			for b := range a.bound {
				t.bound[b] = true
			}
		}
	}
	if op == "bvar" {
		t.bound = map[int]bool{t.ID: true}
	}
	termTab[k] = t
	return t
}

func (t *Term) closed() bool { return len(t.bound) == 0 }

// ---- variables
type VarInfo struct {
	Axioms []*Term
}

var varInfo = map[string]*VarInfo{}
var freshN int

func Var(name, srt string) *Term {
	t := mk("var", srt, name)
	if varInfo[name] == nil {
		varInfo[name] = &VarInfo{}
	}
	return t
}

func Fresh(prefix, srt string) *Term {
	freshN++
	return Var(fmt.Sprintf("%s!%d", sanitize(prefix), freshN), srt)
}

func BVar(prefix, srt string) *Term {
	freshN++
	return mk("bvar", srt, fmt.Sprintf("%s?%d", sanitize(prefix), freshN))
}

func AddAxiom(v *Term, ax *Term) {
	vi := varInfo[v.Name]
	for _, a := range vi.Axioms {
		if a == ax {
			return
		}
	}
	vi.Axioms = append(vi.Axioms, ax)
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!', r == '-', r == '$', r == '?', r == '@', r == '*', r == '/':
			return r
		}
		return '_'
	}, s)
}

// ---- literals
var True = mk("true", SBool, "")
var False = mk("false", SBool, "")

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

func IntB(b *big.Int) *Term {
	t := mk("int", SInt, b.String())
	t.Val = new(big.Int).Set(b)
	return t
}
func IntT(i int64) *Term  { return IntB(big.NewInt(i)) }
func StrT(s string) *Term { return mk("str", SStr, s) }

// RealT from a rational
func RealT(r *big.Rat) *Term { return mk("real", SReal, r.RatString()) }

func isLit(t *Term) bool {
	return t.Op == "int" || t.Op == "str" || t.Op == "true" || t.Op == "false" || t.Op == "real"
}

// definitely distinct values
func distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if isLit(a) && isLit(b) {
		return true
	}
	ba, ca := splitOff(a)
	bb, cb := splitOff(b)
	if a.Sort == SInt && ba == bb && ca.Cmp(cb) != 0 {
		return true
	}
	if a.Sort == SInt && (refDistinct(a, b) || refDistinct(b, a)) {
		return true
	}
	if a.Sort == SInt && ba != nil && bb != nil && ba != bb && allocVars[ba.ID] && allocVars[bb.ID] &&
		(allocAbove(ba, ca, bb, cb) || allocAbove(bb, cb, ba, ca)) {
		return true
	}
	// Val constructors
	if a.Sort == SVal && b.Sort == SVal && isCons(a) && isCons(b) && a.Name != b.Name {
		return true
	}
	if a.Sort == SVal && isCons(a) && isCons(b) && a.Name == b.Name {
		for i := range a.Args {
			if distinct(a.Args[i], b.Args[i]) {
				return true
			}
		}
	}
	return false
}

func isCons(t *Term) bool { return t.Op == "cons" }

// refDistinct: a newly allocated address (frontier + n) differs from nil and
// from specification-only addresses; specification-only addresses differ from
// everything the program can hold.
func refDistinct(a, b *Term) bool {
	if b.Op != "int" || b.Val.Sign() > 0 {
		return false
	}
	if ba, ca := splitOff(a); ba != nil && allocVars[ba.ID] && ca.Sign() >= 0 {
		return true
	}
	if b.Val.Cmp(specBound) <= 0 {
		switch a.Op {
		case "var":
			return true
		case "bvar":
			return true
		case "select", "app":
			return true
		case "+":
			return true
		}
	}
	return false
}

// allocLB: earlier frontiers that an allocation frontier is not below.
var allocLB = map[int][]*Term{}

// allocAbove: is a+ca certainly greater than b+cb?
func allocAbove(a *Term, ca *big.Int, b *Term, cb *big.Int) bool {
	if ca.Sign() < 0 {
		return false
	}
	seen := map[int]bool{}
	var rec func(a *Term) bool
	rec = func(a *Term) bool {
		for _, lb := range allocLB[a.ID] {
			l, c := splitOff(lb)
			if l == nil {
				continue
			}
			if l == b {
				if c.Cmp(cb) > 0 {
					return true
				}
				continue
			}
			if !seen[l.ID] && c.Sign() >= 0 {
				seen[l.ID] = true
				if rec(l) {
					return true
				}
			}
		}
		return false
	}
	return rec(a)
}

var specBound = big.NewInt(-1000)

// splitOff decomposes t into base + const (base nil for literal)
func splitOff(t *Term) (*Term, *big.Int) {
	if t.Op == "int" {
		return nil, t.Val
	}
	if t.Op == "+" && len(t.Args) == 2 && t.Args[1].Op == "int" {
		return t.Args[0], t.Args[1].Val
	}
	return t, big.NewInt(0)
}

// ---- constructors with simplification
func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	}
	return mk("not", SBool, "", a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.Op == "true" {
			return true
		}
		if t.Op == "false" {
			return false
		}
		if t.Op == "and" {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.ID] {
			return true
		}
		if seen[Not(t).ID] {
			return false
		}
		seen[t.ID] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return mk("and", SBool, "", out...)
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.Op == "false" {
			return true
		}
		if t.Op == "true" {
			return false
		}
		if t.Op == "or" {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.ID] {
			return true
		}
		if seen[Not(t).ID] {
			return false
		}
		seen[t.ID] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return mk("or", SBool, "", out...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return mk("=>", SBool, "", a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	// ite(c, ite(c,x,y), z)
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sort mismatch %s vs %s", a.Sort, b.Sort))
	}
	if strings.HasPrefix(a.Sort, "(Array") {
		if t := mergeStores(c, a, b); t != nil {
			return t
		}
	}
	return mk("ite", a.Sort, "", c, a, b)
}

// mergeStores joins two arrays that differ by a few stores over a common one.
func mergeStores(c, a, b *Term) *Term {
	pos := map[*Term]int{}
	n := 0
	for t := a; ; t = t.Args[0] {
		pos[t] = n
		n++
		if t.Op != "store" || n > 40 {
			break
		}
	}
	m := 0
	base := b
	for ; ; base = base.Args[0] {
		if _, ok := pos[base]; ok {
			break
		}
		m++
		if base.Op != "store" || m > 40 {
			return nil
		}
	}
	var idx []*Term
	have := map[*Term]bool{}
	for _, ch := range []*Term{a, b} {
		for t := ch; t != base; t = t.Args[0] {
			if !have[t.Args[1]] {
				have[t.Args[1]] = true
				idx = append(idx, t.Args[1])
			}
		}
	}
	if len(idx) > 16 {
		return nil
	}
	out := base
	for i := len(idx) - 1; i >= 0; i-- {
		out = Store(out, idx[i], Ite(c, Select(a, idx[i]), Select(b, idx[i])))
	}
	return out
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if distinct(a, b) {
		return False
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sort mismatch %s vs %s: %s / %s", a.Sort, b.Sort, a.String(), b.String()))
	}
	if a.Sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.Op == "ite" && !isLit(a) && (isLit(b) || isCons(b)) {
		// push equality into ite when one side becomes decided
		x, y := Eq(a.Args[1], b), Eq(a.Args[2], b)
		if x == True || x == False || y == True || y == False {
			return Ite(a.Args[0], x, y)
		}
	}
	if b.Op == "ite" && (isLit(a) || isCons(a)) {
		return Eq(b, a)
	}
	if isCons(a) && isCons(b) && a.Name == b.Name && a.Sort == SVal {
		cs := []*Term{}
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("=", SBool, "", a, b)
}

func Add(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" {
		return IntB(new(big.Int).Add(a.Val, b.Val))
	}
	if a.Op == "int" {
		a, b = b, a
	}
	if b.Op == "int" {
		if b.Val.Sign() == 0 {
			return a
		}
		base, c := splitOff(a)
		if base != a && base != nil {
			return Add(base, IntB(new(big.Int).Add(c, b.Val)))
		}
	}
	if a.Op == "+" && len(a.Args) == 2 && a.Args[1].Op == "int" {
		// (x + c) + y => (x+y)+c
		return Add(Add(a.Args[0], b), a.Args[1])
	}
	if b.Op == "+" && len(b.Args) == 2 && b.Args[1].Op == "int" {
		return Add(Add(a, b.Args[0]), b.Args[1])
	}
	return mk("+", SInt, "", a, b)
}

func Sub(a, b *Term) *Term {
	if a == b {
		return IntT(0)
	}
	if b.Op == "int" {
		return Add(a, IntB(new(big.Int).Neg(b.Val)))
	}
	ba, ca := splitOff(a)
	bb, cb := splitOff(b)
	if ba == bb && ba != nil {
		return IntB(new(big.Int).Sub(ca, cb))
	}
	return mk("-", SInt, "", a, b)
}

func Mul(a, b *Term) *Term {
	if a.Op == "int" && a.Val.Sign() == 0 || b.Op == "int" && b.Val.Sign() == 0 {
		return IntT(0)
	}
	if a.Op == "int" && b.Op == "int" {
		return IntB(new(big.Int).Mul(a.Val, b.Val))
	}
	if a.Op == "int" && a.Val.Cmp(big.NewInt(1)) == 0 {
		return b
	}
	if b.Op == "int" && b.Val.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return mk("*", SInt, "", a, b)
}

func Lt(a, b *Term) *Term {
	if a == b {
		return False
	}
	ba, ca := splitOff(a)
	bb, cb := splitOff(b)
	if ba == bb {
		return BoolT(ca.Cmp(cb) < 0)
	}
	return mk("<", SBool, "", a, b)
}
func Le(a, b *Term) *Term {
	if a == b {
		return True
	}
	ba, ca := splitOff(a)
	bb, cb := splitOff(b)
	if ba == bb {
		return BoolT(ca.Cmp(cb) <= 0)
	}
	return mk("<=", SBool, "", a, b)
}

func Select(a, i *Term) *Term {
	_, rs := arrParts(a.Sort)
	for {
		switch a.Op {
		case "store":
			if a.Args[1] == i {
				return a.Args[2]
			}
			if distinct(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
		case "constarr":
			return a.Args[0]
		case "ite":
			// push select through ite if both sides simplify cheaply
			x, y := a.Args[1], a.Args[2]
			if d := iteDepth(a); d < 3 || d < 6 && (x.Op == "store" || y.Op == "store" || x.Op == "constarr" || y.Op == "constarr") {
				return Ite(a.Args[0], Select(x, i), Select(y, i))
			}
		}
		break
	}
	return mk("select", rs, "", a, i)
}

func iteDepth(a *Term) int {
	d := 0
	for a.Op == "ite" || a.Op == "store" {
		if a.Op == "ite" {
			d++
			a = a.Args[2]
		} else {
			a = a.Args[0]
		}
	}
	return d
}

func Store(a, i, v *Term) *Term {
	_, rs := arrParts(a.Sort)
	if rs != v.Sort {
		panic(fmt.Sprintf("store sort mismatch: %s <- %s", a.Sort, v.Sort))
	}
	if a.Op == "store" && a.Args[1] == i {
		return Store(a.Args[0], i, v)
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	// overwrite an earlier store at the same index when nothing in between may alias it
	for t, n := a, 0; t.Op == "store" && n < 40; t, n = t.Args[0], n+1 {
		if t.Args[1] == i {
			r := t.Args[0]
			var mid []*Term
			for u := a; u != t; u = u.Args[0] {
				mid = append(mid, u)
			}
			for k := len(mid) - 1; k >= 0; k-- {
				r = Store(r, mid[k].Args[1], mid[k].Args[2])
			}
			return mk("store", a.Sort, "", r, i, v)
		}
		if !distinct(t.Args[1], i) {
			break
		}
	}
	return mk("store", a.Sort, "", a, i, v)
}

func ConstArr(srt string, v *Term) *Term { return mk("constarr", srt, "", v) }

// App is an application of a named function symbol (defined or uninterpreted).
func App(name, srt string, args ...*Term) *Term {
	return mk("app", srt, name, args...)
}

// UF application: declares the function.
var ufDecls = map[string]string{} // name -> declaration
func UF(name, srt string, args ...*Term) *Term {
	name = sanitize(name)
	if len(args) == 0 {
		return Var(name, srt)
	}
	var as []string
	for _, a := range args {
		as = append(as, a.Sort)
	}
	d := "(" + strings.Join(as, " ") + ") " + srt
	if old, ok := ufDecls[name]; ok && old != d {
		// overload by sorts
		name = name + "$" + sanitize(strings.Join(as, "_"))
	}
	ufDecls[name] = d
	return mk("app", srt, name, args...)
}

func Cons(name, srt string, args ...*Term) *Term { return mk("cons", srt, name, args...) }

func Forall(bvs []*Term, body *Term, pats ...[]*Term) *Term { return quant("forall", bvs, body, pats) }
func Exists(bvs []*Term, body *Term) *Term                  { return quant("exists", bvs, body, nil) }

func quant(op string, bvs []*Term, body *Term, pats [][]*Term) *Term {
	if body == True || body == False {
		return body
	}
	var used []*Term
	for _, b := range bvs {
		if body.bound[b.ID] {
			used = append(used, b)
		}
	}
	if len(used) == 0 {
		return body
	}
	bvs = used
	args := append([]*Term{body}, bvs...)
	t := mk(op, SBool, patKey(pats), args...)
	t.BV = bvs
	t.Pats = pats
	nb := map[int]bool{}
	for k := range body.bound {
		nb[k] = true
	}
	for _, b := range bvs {
		delete(nb, b.ID)
	}
	t.bound = nb
	return t
}
func patKey(p [][]*Term) string {
	var sb strings.Builder
	for _, m := range p {
		for _, t := range m {
			fmt.Fprintf(&sb, "%d,", t.ID)
		}
		sb.WriteByte(';')
	}
	return sb.String()
}

// Subst replaces var/bvar terms.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t.ID]; ok {
			return r
		}
		var r *Term
		if t.Op == "forall" || t.Op == "exists" {
			var ps [][]*Term
			for _, p := range t.Pats {
				var q []*Term
				for _, x := range p {
					q = append(q, rec(x))
				}
				ps = append(ps, q)
			}
			r = quant(t.Op, t.BV, rec(t.Args[0]), ps)
		} else {
			changed := false
			na := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				na[i] = rec(a)
				if na[i] != a {
					changed = true
				}
			}
			if changed {
				r = rebuild(t, na)
			} else {
				r = t
			}
		}
		memo[t.ID] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Implies(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "=":
		return Eq(a[0], a[1])
	case "+":
		return Add(a[0], a[1])
	case "-":
		return Sub(a[0], a[1])
	case "*":
		return Mul(a[0], a[1])
	case "<":
		return Lt(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	}
	return mk(t.Op, t.Sort, t.Name, a...)
}

// freeVars collects "var" names in t (memoized across via seen).
func collectVars(t *Term, seen map[int]bool, vars map[string]*Term, ufs map[string]bool, strs map[string]bool) {
	if seen[t.ID] {
		return
	}
	seen[t.ID] = true
	switch t.Op {
	case "var":
		vars[t.Name] = t
	case "app":
		ufs[t.Name] = true
	case "str":
		strs[t.Name] = true
	}
	for _, a := range t.Args {
		collectVars(a, seen, vars, ufs, strs)
	}
	for _, p := range t.Pats {
		for _, x := range p {
			collectVars(x, seen, vars, ufs, strs)
		}
	}
}

func (t *Term) String() string {
	p := &printer{names: map[int]string{}}
	s := p.expr(t)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

// ---- printing
type printer struct {
	names  map[int]string
	absStr bool
}

func smtSym(n string) string { return "|" + n + "|" }

func (p *printer) expr(t *Term) string {
	if n, ok := p.names[t.ID]; ok {
		return n
	}
	return p.raw(t)
}

func smtStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			sb.WriteString(`""`)
		} else if c < 32 || c > 126 || c == '\\' {
			fmt.Fprintf(&sb, `\u{%x}`, c)
		} else {
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func (p *printer) sort(s string) string {
	if p.absStr {
		return s
	}
	return s // "Str" is declared via define-sort
}

func (p *printer) raw(t *Term) string {
	switch t.Op {
	case "var", "bvar":
		return smtSym(t.Name)
	case "true", "false":
		return t.Op
	case "int":
		if t.Val.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.Val).String() + ")"
		}
		return t.Name
	case "real":
		r, _ := new(big.Rat).SetString(t.Name)
		neg := r.Sign() < 0
		a := new(big.Rat).Abs(r)
		s := fmt.Sprintf("(/ %s.0 %s.0)", a.Num().String(), a.Denom().String())
		if neg {
			s = "(- " + s + ")"
		}
		return s
	case "str":
		if p.absStr {
			return smtSym("str:" + hexStr(t.Name))
		}
		return smtStr(t.Name)
	case "forall", "exists":
		var sb strings.Builder
		sb.WriteString("(" + t.Op + " (")
		for _, b := range t.BV {
			fmt.Fprintf(&sb, "(%s %s)", smtSym(b.Name), p.sort(b.Sort))
		}
		sb.WriteString(") ")
		if len(t.Pats) > 0 || debug {
			sb.WriteString("(! ")
		}
		sb.WriteString(p.expr(t.Args[0]))
		for _, pt := range t.Pats {
			sb.WriteString(" :pattern (")
			for i, x := range pt {
				if i > 0 {
					sb.WriteByte(' ')
				}
				sb.WriteString(p.raw2(x))
			}
			sb.WriteString(")")
		}
		if debug {
			fmt.Fprintf(&sb, " :qid q%d", t.ID)
		}
		if len(t.Pats) > 0 || debug {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return sb.String()
	case "constarr":
		return "((as const " + p.sort(t.Sort) + ") " + p.expr(t.Args[0]) + ")"
	case "app", "cons":
		n := t.Name
		if t.Op == "app" {
			if _, ok := ufDecls[n]; ok {
				n = smtSym(n)
			}
		}
		if len(t.Args) == 0 {
			return n
		}
		return "(" + n + p.args(t) + ")"
	}
	return "(" + t.Op + p.args(t) + ")"
}

// patterns must not be replaced by names of definitions that hide structure
func (p *printer) raw2(t *Term) string { return p.expr(t) }

func (p *printer) args(t *Term) string {
	var sb strings.Builder
	for _, a := range t.Args {
		sb.WriteByte(' ')
		sb.WriteString(p.expr(a))
	}
	return sb.String()
}

func hexStr(s string) string {
	ok := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-' || c == '.') {
			ok = false
			break
		}
	}
	if ok {
		return s
	}
	return fmt.Sprintf("%x", s)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
