package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Terms are hash-consed SMT terms with light simplification at construction.

const (
	SInt  = "Int"
	SReal = "Real"
	SBool = "Bool"
	SStr  = "Str"
	SSlc  = "Slc"
	SPtr  = "Ptr"
	SAny  = "Any"
	SFP   = "(_ FloatingPoint 11 53)"
)

type Term struct {
	id    int
	op    string // const var num true false not and or => ite = + * / div mod <= < select store app forall exists
	args  []*Term
	sort  string
	name  string // symbol for const/var/app
	num   *big.Rat
	bvars []*Term
	seq   int  // largest creation number of a constant inside
	bound bool // contains a bound variable
	quant bool // contains a quantifier
}

type Ctx struct {
	selIte  map[[2]*Term]*Term
	tab     map[string]*Term
	nextID  int
	seq     int
	fresh   map[string]int
	decls   map[string]*FuncDecl // uninterpreted functions
	dts     map[string]*Datatype // datatype sort name -> decl
	ctors   map[string]*Datatype // constructor -> decl
	sels    map[string]selInfo
	dtOrd   []string
	consts  map[string]*Term
	fp      bool
	strLits map[*Term]string
	trigs   map[*Term][][]*Term // explicit triggers of quantified formulas
}

type selInfo struct {
	dt  *Datatype
	idx int
}

type FuncDecl struct {
	name string
	args []string
	ret  string
}

type Datatype struct {
	name   string
	ctor   string
	fields []string // selector names
	sorts  []string
	short  []string
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, fresh: map[string]int{}, decls: map[string]*FuncDecl{},
		dts: map[string]*Datatype{}, ctors: map[string]*Datatype{}, sels: map[string]selInfo{}, consts: map[string]*Term{}, trigs: map[*Term][][]*Term{}, strLits: map[*Term]string{}}
	c.AddDatatype(&Datatype{name: SSlc, ctor: "mkSlc", fields: []string{"slc_ref", "slc_off", "slc_len", "slc_cap"}, sorts: []string{SInt, SInt, SInt, SInt}})
	c.AddDatatype(&Datatype{name: SPtr, ctor: "mkPtr", fields: []string{"ptr_ref", "ptr_idx"}, sorts: []string{SInt, SInt}})
	return c
}

func (c *Ctx) AddDatatype(d *Datatype) {
	if _, ok := c.dts[d.name]; ok {
		return
	}
	c.dts[d.name] = d
	c.ctors[d.ctor] = d
	for i, f := range d.fields {
		c.sels[f] = selInfo{d, i}
	}
	c.dtOrd = append(c.dtOrd, d.name)
}

func (c *Ctx) intern(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(t.name)
	b.WriteByte('|')
	b.WriteString(t.sort)
	if t.num != nil {
		b.WriteByte('|')
		b.WriteString(t.num.String())
	}
	for _, a := range t.args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	for _, a := range t.bvars {
		fmt.Fprintf(&b, ";%d", a.id)
	}
	k := b.String()
	if o, ok := c.tab[k]; ok {
		return o
	}
	c.nextID++
	t.id = c.nextID
	for _, a := range t.args {
		if a.seq > t.seq {
			t.seq = a.seq
		}
		t.bound = t.bound || a.bound
		t.quant = t.quant || a.quant
	}
	if t.op == "forall" || t.op == "exists" {
		t.quant = true
		// bound flag: does the body contain variables other than bvars?
		t.bound = c.hasFreeVarsExcept(t.args[0], t.bvars)
	}
	if t.op == "var" {
		t.bound = true
	}
	c.tab[k] = t
	return t
}

func (c *Ctx) hasFreeVarsExcept(t *Term, ex []*Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term, ex []*Term) bool
	rec = func(t *Term, ex []*Term) bool {
		if !t.bound && t.op != "var" {
			return false
		}
		if t.op == "var" {
			for _, e := range ex {
				if e == t {
					return false
				}
			}
			return true
		}
		if t.op == "forall" || t.op == "exists" {
			return rec(t.args[0], append(append([]*Term{}, ex...), t.bvars...))
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a, ex) {
				return true
			}
		}
		return false
	}
	return rec(t, ex)
}

func (c *Ctx) mk(op, sort string, args ...*Term) *Term {
	return c.intern(&Term{op: op, sort: sort, args: args})
}

func (c *Ctx) True() *Term  { return c.mk("true", SBool) }
func (c *Ctx) False() *Term { return c.mk("false", SBool) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True()
	}
	return c.False()
}

func (c *Ctx) Num(r *big.Rat, sort string) *Term {
	return c.intern(&Term{op: "num", sort: sort, num: r})
}
func (c *Ctx) Int(n int64) *Term { return c.Num(new(big.Rat).SetInt64(n), SInt) }
func (c *Ctx) RealI(n int64) *Term {
	return c.Num(new(big.Rat).SetInt64(n), SReal)
}

// Const returns a named constant (expanded componentwise for datatypes).
func (c *Ctx) Const(name, sort string) *Term {
	if dt, ok := c.dts[sort]; ok {
		args := make([]*Term, len(dt.sorts))
		for i, s := range dt.sorts {
			args[i] = c.Const(name+"."+shortField(dt.fields[i]), s)
		}
		return c.App(dt.ctor, sort, args...)
	}
	return c.RawConst(name, sort)
}

func (c *Ctx) RawConst(name, sort string) *Term {
	if t, ok := c.consts[name]; ok {
		if t.sort != sort {
			panic("sort clash for const " + name)
		}
		return t
	}
	c.seq++
	t := c.intern(&Term{op: "const", name: name, sort: sort, seq: c.seq})
	c.consts[name] = t
	return t
}

func shortField(f string) string {
	if i := strings.LastIndex(f, "_"); i >= 0 {
		return f[i+1:]
	}
	return f
}

func (c *Ctx) Fresh(prefix, sort string) *Term {
	prefix = sanitize(prefix)
	c.fresh[prefix]++
	return c.Const(fmt.Sprintf("%s!%d", prefix, c.fresh[prefix]), sort)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' || r == '$' || r == '~' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (c *Ctx) Var(name, sort string) *Term {
	return c.intern(&Term{op: "var", name: name, sort: sort})
}

func (c *Ctx) FreshVar(prefix, sort string) *Term {
	c.fresh["?"+prefix]++
	return c.Var(fmt.Sprintf("%s?%d", sanitize(prefix), c.fresh["?"+prefix]), sort)
}

func (c *Ctx) Declare(name, ret string, args ...string) {
	if _, ok := c.decls[name]; !ok {
		c.decls[name] = &FuncDecl{name, args, ret}
	}
}

// App builds a constructor, selector or uninterpreted function application.
func (c *Ctx) App(name, sort string, args ...*Term) *Term {
	if si, ok := c.sels[name]; ok && len(args) == 1 {
		a := args[0]
		if a.op == "app" && a.name == si.dt.ctor {
			return a.args[si.idx]
		}
		if a.op == "ite" {
			if isCtorTree(a.args[1], si.dt.ctor) || isCtorTree(a.args[2], si.dt.ctor) {
				return c.Ite(a.args[0], c.App(name, sort, a.args[1]), c.App(name, sort, a.args[2]))
			}
		}
	}
	if dt, ok := c.ctors[name]; ok {
		// mk(f0(x), f1(x), ...) = x
		var base *Term
		all := len(args) > 0
		for i, a := range args {
			if a.op == "app" && len(a.args) == 1 && a.name == dt.fields[i] {
				if base == nil {
					base = a.args[0]
				} else if base != a.args[0] {
					all = false
				}
			} else {
				all = false
			}
			if !all {
				break
			}
		}
		if all && base != nil {
			return base
		}
	}
	return c.intern(&Term{op: "app", name: name, sort: sort, args: args})
}

func isCtorTree(t *Term, ctor string) bool {
	if t.op == "app" && t.name == ctor {
		return true
	}
	return t.op == "ite" && (isCtorTree(t.args[1], ctor) || isCtorTree(t.args[2], ctor))
}

// Sel applies field i of datatype-sorted term t.
func (c *Ctx) Sel(t *Term, i int) *Term {
	dt := c.dts[t.sort]
	if dt == nil {
		panic("Sel on non-datatype sort " + t.sort)
	}
	return c.App(dt.fields[i], dt.sorts[i], t)
}

// Upd returns t with field i replaced.
func (c *Ctx) Upd(t *Term, i int, v *Term) *Term {
	dt := c.dts[t.sort]
	args := make([]*Term, len(dt.sorts))
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = c.Sel(t, j)
		}
	}
	return c.App(dt.ctor, t.sort, args...)
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return c.False()
	case "false":
		return c.True()
	case "not":
		return a.args[0]
	}
	return c.mk("not", SBool, a)
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		switch a.op {
		case "true":
			return true
		case "false":
			return false
		case "and":
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a] {
			return true
		}
		if seen[c.Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.False()
		}
	}
	switch len(out) {
	case 0:
		return c.True()
	case 1:
		return out[0]
	}
	return c.mk("and", SBool, out...)
}

func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		switch a.op {
		case "false":
			return true
		case "true":
			return false
		case "or":
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a] {
			return true
		}
		if seen[c.Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.True()
		}
	}
	switch len(out) {
	case 0:
		return c.False()
	case 1:
		return out[0]
	}
	// (a and x) or (not a and x) = x ; common for joins
	if len(out) == 2 {
		if f := c.factorOr(out[0], out[1]); f != nil {
			return f
		}
	}
	return c.mk("or", SBool, out...)
}

func (c *Ctx) factorOr(a, b *Term) *Term {
	conj := func(t *Term) []*Term {
		if t.op == "and" {
			return t.args
		}
		return []*Term{t}
	}
	ca, cb := conj(a), conj(b)
	inB := map[*Term]bool{}
	for _, x := range cb {
		inB[x] = true
	}
	var common, ra []*Term
	for _, x := range ca {
		if inB[x] {
			common = append(common, x)
			delete(inB, x)
		} else {
			ra = append(ra, x)
		}
	}
	if len(common) == 0 {
		return nil
	}
	var rb []*Term
	for _, x := range cb {
		if inB[x] {
			rb = append(rb, x)
		}
	}
	rest := c.Or(c.And(ra...), c.And(rb...))
	return c.And(append(common, rest)...)
}

func (c *Ctx) Implies(a, b *Term) *Term {
	switch {
	case a.op == "true":
		return b
	case a.op == "false" || b.op == "true":
		return c.True()
	case b.op == "false":
		return c.Not(a)
	case a == b:
		return c.True()
	}
	if b.op == "=>" {
		return c.Implies(c.And(a, b.args[0]), b.args[1])
	}
	return c.mk("=>", SBool, a, b)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts differ: %s vs %s", a.sort, b.sort))
	}
	switch {
	case cond.op == "true":
		return a
	case cond.op == "false":
		return b
	case a == b:
		return a
	}
	if cond.op == "not" {
		return c.Ite(cond.args[0], b, a)
	}
	if a.sort == SBool {
		if a.op == "true" {
			return c.Or(cond, b)
		}
		if a.op == "false" {
			return c.And(c.Not(cond), b)
		}
		if b.op == "true" {
			return c.Or(c.Not(cond), a)
		}
		if b.op == "false" {
			return c.And(cond, a)
		}
	}
	if a.op == "ite" && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// push ite into constructors so that fields stay separate
	if dt, ok := c.dts[a.sort]; ok && isCtor(a, dt) && isCtor(b, dt) {
		args := make([]*Term, len(dt.sorts))
		for i := range args {
			args[i] = c.Ite(cond, a.args[i], b.args[i])
		}
		return c.App(dt.ctor, a.sort, args...)
	}
	return c.mk("ite", a.sort, cond, a, b)
}

func isCtor(t *Term, dt *Datatype) bool { return t.op == "app" && t.name == dt.ctor }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts differ: %s vs %s (%s ; %s)", a.sort, b.sort, a, b))
	}
	if a == b {
		return c.True()
	}
	if a.sort == SBool {
		switch {
		case a.op == "true":
			return b
		case b.op == "true":
			return a
		case a.op == "false":
			return c.Not(b)
		case b.op == "false":
			return c.Not(a)
		}
	}
	if a.sort == SInt || a.sort == SReal {
		d := c.Sub(a, b)
		if d.op == "num" {
			return c.Bool(d.num.Sign() == 0)
		}
	}
	if dt, ok := c.dts[a.sort]; ok && (isCtor(a, dt) || isCtor(b, dt)) {
		var cs []*Term
		for i := range dt.sorts {
			cs = append(cs, c.Eq(c.Sel(a, i), c.Sel(b, i)))
		}
		return c.And(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", SBool, a, b)
}

// ---- arithmetic: linear combinations are kept in a canonical form ----

type lin struct {
	coef map[*Term]*big.Rat
	k    *big.Rat
}

func (c *Ctx) toLin(t *Term) *lin {
	l := &lin{coef: map[*Term]*big.Rat{}, k: new(big.Rat)}
	c.addLin(l, t, big.NewRat(1, 1))
	return l
}

func (c *Ctx) addLin(l *lin, t *Term, f *big.Rat) {
	switch t.op {
	case "num":
		l.k.Add(l.k, new(big.Rat).Mul(f, t.num))
	case "+":
		for _, a := range t.args {
			c.addLin(l, a, f)
		}
	case "*":
		if t.args[0].op == "num" {
			g := new(big.Rat).Mul(f, t.args[0].num)
			if len(t.args) == 2 {
				c.addLin(l, t.args[1], g)
			} else {
				c.addAtom(l, c.prodAtoms(t.args[1:], t.sort), g)
			}
			return
		}
		c.addAtom(l, t, f)
	default:
		c.addAtom(l, t, f)
	}
}

func (c *Ctx) addAtom(l *lin, t *Term, f *big.Rat) {
	if o, ok := l.coef[t]; ok {
		o.Add(o, f)
	} else {
		l.coef[t] = new(big.Rat).Set(f)
	}
}

func (c *Ctx) prodAtoms(as []*Term, sort string) *Term {
	if len(as) == 1 {
		return as[0]
	}
	s := append([]*Term{}, as...)
	sortTerms(s)
	return c.mk("*", sort, s...)
}

func sortTerms(s []*Term) { sort.Slice(s, func(i, j int) bool { return s[i].id < s[j].id }) }

func (c *Ctx) fromLin(l *lin, srt string) *Term {
	var ts []*Term
	for t, f := range l.coef {
		if f.Sign() != 0 {
			ts = append(ts, t)
		}
	}
	sortTerms(ts)
	var out []*Term
	for _, t := range ts {
		f := l.coef[t]
		if f.Cmp(big.NewRat(1, 1)) == 0 {
			out = append(out, t)
		} else {
			args := []*Term{c.Num(f, srt)}
			if t.op == "*" {
				args = append(args, t.args...)
			} else {
				args = append(args, t)
			}
			out = append(out, c.mk("*", srt, args...))
		}
	}
	if l.k.Sign() != 0 {
		out = append(out, c.Num(l.k, srt))
	}
	switch len(out) {
	case 0:
		return c.Num(new(big.Rat), srt)
	case 1:
		return out[0]
	}
	return c.mk("+", srt, out...)
}

func (c *Ctx) Add(as ...*Term) *Term {
	srt := as[0].sort
	l := &lin{coef: map[*Term]*big.Rat{}, k: new(big.Rat)}
	for _, a := range as {
		if a.sort != srt {
			panic("add sorts differ: " + srt + " " + a.sort + " in " + a.String())
		}
		c.addLin(l, a, big.NewRat(1, 1))
	}
	return c.fromLin(l, srt)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a.sort != b.sort {
		panic("sub sorts differ: " + a.sort + " " + b.sort)
	}
	l := c.toLin(a)
	c.addLin(l, b, big.NewRat(-1, 1))
	return c.fromLin(l, a.sort)
}

func (c *Ctx) Neg(a *Term) *Term {
	l := &lin{coef: map[*Term]*big.Rat{}, k: new(big.Rat)}
	c.addLin(l, a, big.NewRat(-1, 1))
	return c.fromLin(l, a.sort)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.sort != b.sort {
		panic("mul sorts differ: " + a.sort + " " + b.sort)
	}
	if a.op == "num" || b.op == "num" {
		if b.op == "num" {
			a, b = b, a
		}
		l := &lin{coef: map[*Term]*big.Rat{}, k: new(big.Rat)}
		c.addLin(l, b, a.num)
		return c.fromLin(l, a.sort)
	}
	// collect factors
	coef := big.NewRat(1, 1)
	var fs []*Term
	for _, x := range []*Term{a, b} {
		if x.op == "*" {
			for _, y := range x.args {
				if y.op == "num" {
					coef.Mul(coef, y.num)
				} else {
					fs = append(fs, y)
				}
			}
		} else {
			fs = append(fs, x)
		}
	}
	p := c.prodAtoms(fs, a.sort)
	if coef.Cmp(big.NewRat(1, 1)) == 0 {
		return p
	}
	return c.mk("*", a.sort, append([]*Term{c.Num(coef, a.sort)}, p.args...)...)
}

func (c *Ctx) Div(a, b *Term) *Term { // real division
	if b.op == "num" && b.num.Sign() != 0 {
		return c.Mul(c.Num(new(big.Rat).Inv(b.num), SReal), a)
	}
	if b.op == "num" {
		return c.mk("/", SReal, a, b)
	}
	// quotients by one divisor share its inverse, so that they combine linearly
	inv := c.mk("/", SReal, c.Num(big.NewRat(1, 1), SReal), b)
	l := c.toLin(a)
	if len(l.coef) > 4 {
		return c.Mul(inv, a)
	}
	r := c.Mul(c.Num(l.k, SReal), inv)
	for _, t := range sortedLin(l) {
		r = c.Add(r, c.Mul(c.Num(l.coef[t], SReal), c.Mul(t, inv)))
	}
	return r
}

func sortedLin(l *lin) []*Term {
	var ts []*Term
	for t, f := range l.coef {
		if f.Sign() != 0 {
			ts = append(ts, t)
		}
	}
	sortTerms(ts)
	return ts
}

// Le is kept in a canonical form: positive coefficients on both sides, the
// constant on one side, integer coefficients coprime.
func (c *Ctx) Le(a, b *Term) *Term {
	if a.sort != b.sort {
		panic("le sorts differ: " + a.sort + " " + b.sort)
	}
	l := c.toLin(b)
	c.addLin(l, a, big.NewRat(-1, 1))
	var ts []*Term
	for t, f := range l.coef {
		if f.Sign() == 0 {
			delete(l.coef, t)
		} else {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return c.Bool(l.k.Sign() >= 0)
	}
	sortTerms(ts)
	if a.sort == SInt {
		g := new(big.Int)
		frac := false
		for _, t := range ts {
			if !l.coef[t].IsInt() {
				frac = true
			}
			g.GCD(nil, nil, g, new(big.Int).Abs(l.coef[t].Num()))
		}
		if !frac && g.Sign() > 0 && g.Cmp(big.NewInt(1)) != 0 && l.k.IsInt() {
			q := new(big.Rat).SetInt(g)
			for _, t := range ts {
				l.coef[t].Quo(l.coef[t], q)
			}
			kq, _ := new(big.Int).DivMod(l.k.Num(), g, new(big.Int)) // floor
			l.k = new(big.Rat).SetInt(kq)
		}
	}
	lhs := &lin{coef: map[*Term]*big.Rat{}, k: new(big.Rat)}
	rhs := &lin{coef: map[*Term]*big.Rat{}, k: new(big.Rat)}
	for _, t := range ts {
		f := l.coef[t]
		if f.Sign() > 0 {
			rhs.coef[t] = f
		} else {
			lhs.coef[t] = new(big.Rat).Neg(f)
		}
	}
	if len(lhs.coef) == 0 {
		lhs.k = new(big.Rat).Neg(l.k)
	} else {
		rhs.k = l.k
	}
	return c.mk("<=", SBool, c.fromLin(lhs, a.sort), c.fromLin(rhs, a.sort))
}
func (c *Ctx) Lt(a, b *Term) *Term {
	if a.sort == SInt {
		return c.Le(c.Add(a, c.Int(1)), b)
	}
	return c.Not(c.Le(b, a))
}
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

func (c *Ctx) IDiv(a, b *Term) *Term { // SMT (Euclidean) div
	if a.op == "num" && b.op == "num" && b.num.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.num.Num(), b.num.Num(), new(big.Int))
		return c.Num(new(big.Rat).SetInt(q), SInt)
	}
	if b.op == "num" && b.num.Cmp(big.NewRat(1, 1)) == 0 {
		return a
	}
	return c.mk("div", SInt, a, b)
}
func (c *Ctx) IMod(a, b *Term) *Term {
	if a.op == "num" && b.op == "num" && b.num.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.num.Num(), b.num.Num(), new(big.Int))
		return c.Num(new(big.Rat).SetInt(m), SInt)
	}
	return c.mk("mod", SInt, a, b)
}

func (c *Ctx) ToReal(a *Term) *Term {
	if a.op == "num" {
		return c.Num(a.num, SReal)
	}
	switch a.op {
	case "+":
		as := make([]*Term, len(a.args))
		for i, x := range a.args {
			as[i] = c.ToReal(x)
		}
		return c.Add(as...)
	case "*":
		r := c.ToReal(a.args[0])
		for _, x := range a.args[1:] {
			r = c.Mul(r, c.ToReal(x))
		}
		return r
	case "ite":
		return c.Ite(a.args[0], c.ToReal(a.args[1]), c.ToReal(a.args[2]))
	}
	return c.mk("to_real", SReal, a)
}

func (c *Ctx) Floor(a *Term) *Term {
	if a.op == "num" {
		q, _ := new(big.Int).DivMod(a.num.Num(), a.num.Denom(), new(big.Int))
		return c.Num(new(big.Rat).SetInt(q), SInt)
	}
	if a.op == "to_real" {
		return a.args[0]
	}
	return c.mk("to_int", SInt, a)
}

// ---- arrays ----

func arrSort(idx, el string) string { return "(Array " + idx + " " + el + ")" }

func arrElem(s string) string {
	// "(Array K V)" -> V
	s = s[len("(Array "):]
	i := skipSort(s)
	rest := s[i+1:]
	return rest[:len(rest)-1]
}
func arrIdx(s string) string {
	s = s[len("(Array "):]
	return s[:skipSort(s)]
}
func skipSort(s string) int {
	if s[0] != '(' {
		return strings.IndexAny(s, " )")
	}
	d := 0
	for i, r := range s {
		if r == '(' {
			d++
		}
		if r == ')' {
			d--
			if d == 0 {
				return i + 1
			}
		}
	}
	panic("bad sort " + s)
}

// distinct reports whether a and b certainly differ.
func (c *Ctx) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.sort == SInt {
		d := c.Sub(a, b)
		return d.op == "num" && d.num.Sign() != 0
	}
	if a.sort == SStr && strings.HasPrefix(a.name, "lit$") && strings.HasPrefix(b.name, "lit$") {
		return a.op == "const" && b.op == "const"
	}
	return false
}

func (c *Ctx) Select(arr, idx *Term) *Term {
	if !strings.HasPrefix(arr.sort, "(Array ") {
		panic("select on " + arr.sort)
	}
	for arr.op == "store" {
		if arr.args[1] == idx {
			return arr.args[2]
		}
		if c.distinct(arr.args[1], idx) {
			arr = arr.args[0]
			continue
		}
		break
	}
	if arr.op == "constarr" {
		return arr.args[0]
	}
	// which object a merged memory holds is decided branch by branch
	if arr.op == "ite" && strings.HasPrefix(arrElem(arr.sort), "(Array ") {
		k := [2]*Term{arr, idx}
		if t := c.selIte[k]; t != nil {
			return t
		}
		t := c.Ite(arr.args[0], c.Select(arr.args[1], idx), c.Select(arr.args[2], idx))
		if c.selIte == nil {
			c.selIte = map[[2]*Term]*Term{}
		}
		c.selIte[k] = t
		return t
	}
	return c.mk("select", arrElem(arr.sort), arr, idx)
}

func (c *Ctx) Store(arr, idx, v *Term) *Term {
	if arrElem(arr.sort) != v.sort {
		panic("store sort: " + arr.sort + " <- " + v.sort)
	}
	if arr.op == "store" && arr.args[1] == idx {
		arr = arr.args[0]
	}
	if v.op == "select" && v.args[0] == arr && v.args[1] == idx {
		return arr
	}
	return c.mk("store", arr.sort, arr, idx, v)
}

func (c *Ctx) ConstArr(sort string, v *Term) *Term { return c.mk("constarr", sort, v) }

func (c *Ctx) Quant(op string, vars []*Term, body *Term) *Term {
	if len(vars) == 0 {
		return body
	}
	if body.op == "true" || body.op == "false" {
		return body
	}
	var used []*Term
	fv := c.freeVars(body)
	for _, v := range vars {
		if fv[v] {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	return c.intern(&Term{op: op, sort: SBool, args: []*Term{body}, bvars: used})
}
func (c *Ctx) Forall(vars []*Term, body *Term) *Term { return c.Quant("forall", vars, body) }
func (c *Ctx) Exists(vars []*Term, body *Term) *Term { return c.Quant("exists", vars, body) }

func (c *Ctx) freeVars(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.bound && t.op != "var" {
			return
		}
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "var" {
			out[t] = true
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		// names are unique per quantifier, so no shadowing to undo
	}
	rec(t)
	return out
}

// Subst replaces variables/constants by terms, rebuilding with simplification.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, args)
			if tr := c.trigs[t]; tr != nil && r.op == t.op {
				var nt [][]*Term
				for _, g := range tr {
					var ng []*Term
					for _, x := range g {
						ng = append(ng, rec(x))
					}
					nt = append(nt, ng)
				}
				c.trigs[r] = nt
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "not":
		return c.Not(args[0])
	case "and":
		return c.And(args...)
	case "or":
		return c.Or(args...)
	case "=>":
		return c.Implies(args[0], args[1])
	case "ite":
		return c.Ite(args[0], args[1], args[2])
	case "=":
		return c.Eq(args[0], args[1])
	case "+":
		return c.Add(args...)
	case "*":
		r := args[0]
		for _, a := range args[1:] {
			r = c.Mul(r, a)
		}
		return r
	case "/":
		return c.Div(args[0], args[1])
	case "div":
		return c.IDiv(args[0], args[1])
	case "mod":
		return c.IMod(args[0], args[1])
	case "<=":
		return c.Le(args[0], args[1])
	case "<":
		return c.Lt(args[0], args[1])
	case "select":
		return c.Select(args[0], args[1])
	case "store":
		return c.Store(args[0], args[1], args[2])
	case "to_real":
		return c.ToReal(args[0])
	case "to_int":
		return c.Floor(args[0])
	case "app":
		return c.App(t.name, t.sort, args...)
	case "forall", "exists":
		return c.Quant(t.op, t.bvars, args[0])
	}
	return c.intern(&Term{op: t.op, sort: t.sort, name: t.name, num: t.num, args: args, bvars: t.bvars})
}

// ---- printing ----

func ratSMT(r *big.Rat, sort string) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var s string
	if sort == SInt {
		s = a.Num().String()
	} else if a.IsInt() {
		s = a.Num().String() + ".0"
	} else {
		s = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + s + ")"
	}
	return s
}

func sym(s string) string {
	if strings.ContainsAny(s, " ()[]{}|;\"#',`:@") {
		return "|" + s + "|"
	}
	return s
}

func (t *Term) head() string {
	switch t.op {
	case "app":
		return sym(t.name)
	case "constarr":
		return "(as const " + t.sort + ")"
	default:
		return t.op
	}
}

func (t *Term) String() string { return printTerm(t, nil, 6) }

// printTerm prints t; names maps shared terms to symbols.
func printTerm(t *Term, names map[*Term]string, depth int) string {
	var b strings.Builder
	writeTerm(&b, t, names, depth)
	return b.String()
}

func writeTerm(b *strings.Builder, t *Term, names map[*Term]string, depth int) {
	if names != nil {
		if n, ok := names[t]; ok {
			b.WriteString(n)
			return
		}
	}
	switch t.op {
	case "const", "var":
		b.WriteString(sym(t.name))
		return
	case "num":
		b.WriteString(ratSMT(t.num, t.sort))
		return
	case "true", "false":
		b.WriteString(t.op)
		return
	case "forall", "exists":
		b.WriteString("(" + t.op + " (")
		for _, v := range t.bvars {
			b.WriteString("(" + sym(v.name) + " " + v.sort + ")")
		}
		b.WriteString(") ")
		tr := curTrigs[t]
		if len(tr) > 0 {
			b.WriteString("(! ")
		}
		writeTerm(b, t.args[0], names, depth)
		for _, g := range tr {
			b.WriteString(" :pattern (")
			for i, x := range g {
				if i > 0 {
					b.WriteByte(' ')
				}
				writeTerm(b, x, names, depth)
			}
			b.WriteString(")")
		}
		if len(tr) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
		return
	}
	if names == nil {
		if depth <= 0 {
			b.WriteString("…")
			return
		}
		depth--
	}
	if len(t.args) == 0 {
		b.WriteString(t.head())
		return
	}
	b.WriteString("(" + t.head())
	for _, a := range t.args {
		b.WriteByte(' ')
		writeTerm(b, a, names, depth)
	}
	b.WriteString(")")
}

func newRat(s string) (*big.Rat, bool) { return new(big.Rat).SetString(s) }

var curTrigs map[*Term][][]*Term
