package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// ---- evaluation of specification expressions to terms ----

// SVal is a specification value.
type SVal struct {
	t   *Term
	typ types.Type
	seq *SeqVal
	lit bool // integer literal, usable as a real
}

// SeqVal is a ghost sequence: a slice together with the contents of its array.
type SeqVal struct {
	arr, off, ln *Term
	elem         types.Type
}

type recInfo struct {
	fn     *PureFn
	sym    string
	ret    types.Type
	sort   string
	vars   []*Term // formal parameters, flattened
	body   *Term   // definition over vars
	ptypes []types.Type
	memKs  []string // memories the body reads, passed as further arguments
	defing bool
}

type modTarget struct {
	key  string // memory key
	ref  *Term
	idx  *Term // element, nil: a range or everything at ref
	lo   *Term
	hi   *Term
	path string // component within the element ("" = all)
	all  bool   // the whole memory
	name string
}

type specEnv struct {
	e     *Engine
	st    *State
	old   *State
	bind  map[string]SVal
	pkg   string
	rec   *recInfo // set while a recursive definition is translated
	depth int
}

type specErr struct{ msg string }

func (s specErr) Error() string { return s.msg }

func (v *specEnv) fail(x *Expr, f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf("%s: %s (in %s)", x.pos, fmt.Sprintf(f, a...), x)})
}

func (v *specEnv) tryEval(x *Expr) (r SVal, err error) {
	defer func() {
		if p := recover(); p != nil {
			if s, ok := p.(specErr); ok {
				err = s
				return
			}
			panic(p)
		}
	}()
	return v.eval(x), nil
}

func (v *specEnv) boolean(x *Expr) *Term {
	r := v.eval(x)
	if r.t == nil || r.t.sort != SBool {
		v.fail(x, "not a condition")
	}
	return r.t
}

var tInt = types.Typ[types.Int]
var tReal = types.Typ[types.Float64]
var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]

func (v *specEnv) with(name string, s SVal) *specEnv {
	n := *v
	n.bind = make(map[string]SVal, len(v.bind)+1)
	for k, x := range v.bind {
		n.bind[k] = x
	}
	n.bind[name] = s
	return &n
}

func (v *specEnv) real(s SVal) *Term {
	if s.t.sort == SInt {
		return v.e.c.ToReal(s.t)
	}
	return s.t
}

func (v *specEnv) coerce(x *Expr, a, b SVal) (SVal, SVal) {
	if a.t == nil || b.t == nil {
		v.fail(x, "sequence used as a value")
	}
	if a.t.sort == SReal && b.t.sort == SInt {
		b = SVal{t: v.e.c.ToReal(b.t), typ: a.typ}
	} else if a.t.sort == SInt && b.t.sort == SReal {
		a = SVal{t: v.e.c.ToReal(a.t), typ: b.typ}
	}
	return a, b
}

func (v *specEnv) eval(x *Expr) SVal {
	c := v.e.c
	switch x.op {
	case "num":
		r, ok := new(big.Rat).SetString(x.name)
		if !ok {
			v.fail(x, "bad number")
		}
		if strings.ContainsAny(x.name, ".e") {
			f, _ := r.Float64() // the float64 the program would use
			if q := new(big.Rat).SetFloat64(f); q != nil {
				r = q
			}
			return SVal{t: c.Num(r, SReal), typ: tReal}
		}
		return SVal{t: c.Num(r, SInt), typ: tInt, lit: true}
	case "str":
		return SVal{t: c.StrLit(x.name), typ: tString}
	case "ident":
		return v.ident(x)
	case "bin":
		return v.binary(x)
	case "un":
		switch x.name {
		case "-":
			a := v.eval(x.args[0])
			return SVal{t: c.Neg(a.t), typ: a.typ}
		case "!":
			return SVal{t: c.Not(v.boolean(x.args[0])), typ: tBool}
		case "*":
			a := v.eval(x.args[0])
			return v.deref(x, a)
		}
	case "cond":
		cd := v.boolean(x.args[0])
		a, b := v.eval(x.args[1]), v.eval(x.args[2])
		a, b = v.coerce(x, a, b)
		return SVal{t: c.Ite(cd, a.t, b.t), typ: a.typ}
	case "let":
		return v.with(x.name, v.eval(x.args[0])).eval(x.args[1])
	case "field":
		if x.args[0].op == "ident" {
			if _, ok := v.bind[x.args[0].name]; !ok {
				if r, ok := v.pkgMember(x.args[0].name, x.name); ok {
					return r
				}
			}
		}
		a := v.eval(x.args[0])
		return v.field(x, a, x.name)
	case "index":
		a := v.eval(x.args[0])
		i := v.eval(x.args[1])
		return v.index(x, a, i)
	case "slice":
		a := v.eval(x.args[0])
		lo := c.Int(0)
		if x.args[1] != nil {
			lo = v.eval(x.args[1]).t
		}
		if a.seq != nil {
			hi := a.seq.ln
			if x.args[2] != nil {
				hi = v.eval(x.args[2]).t
			}
			return SVal{seq: &SeqVal{a.seq.arr, c.Add(a.seq.off, lo), c.Sub(hi, lo), a.seq.elem}, typ: a.typ}
		}
		if a.t.sort != SSlc {
			v.fail(x, "not a slice")
		}
		hi := c.Sel(a.t, 2)
		if x.args[2] != nil {
			hi = v.eval(x.args[2]).t
		}
		return SVal{t: c.App("mkSlc", SSlc, c.Sel(a.t, 0), c.Add(c.Sel(a.t, 1), lo), c.Sub(hi, lo), c.Sub(c.Sel(a.t, 3), lo)), typ: a.typ}
	case "forall", "exists":
		nv := v
		var vars []*Term
		var guards []*Term
		for _, d := range x.vars {
			ty := v.typ(x, d.typ)
			srt := c.SortOf(ty)
			var val *Term
			if dt, ok := c.dts[srt]; ok {
				_ = dt
				val = v.e.build(srt, "", func(path, s string) *Term {
					t := c.FreshVar(d.name+path, s)
					vars = append(vars, t)
					return t
				})
			} else {
				val = c.FreshVar(d.name, srt)
				vars = append(vars, val)
			}
			if lo, hi, ok := intRange(ty); ok {
				guards = append(guards, c.Le(c.bigInt(lo), val), c.Lt(val, c.bigInt(hi)))
			}
			nv = nv.with(d.name, SVal{t: val, typ: ty})
		}
		b := nv.boolean(x.args[0])
		if x.op == "forall" {
			q := c.Forall(vars, c.Implies(c.And(guards...), b))
			if x, ok := c.expand(q, 8); ok {
				return SVal{t: x, typ: tBool}
			}
			if len(x.trigs) > 0 && q.op == "forall" && len(q.bvars) == len(vars) {
				var g []*Term
				for _, tx := range x.trigs {
					g = append(g, nv.eval(tx).t)
				}
				c.trigs[q] = [][]*Term{g}
			}
			return SVal{t: q, typ: tBool}
		}
		q := c.Exists(vars, c.And(append(guards, b)...))
		if x, ok := c.expand(q, 8); ok {
			q = x
		}
		return SVal{t: q, typ: tBool}
	case "call":
		return v.call(x)
	}
	v.fail(x, "cannot evaluate %s", x.op)
	return SVal{}
}

func (v *specEnv) typ(x *Expr, s string) types.Type {
	t, err := v.e.resolveType(s, v.pkg)
	if err != nil {
		v.fail(x, "%v", err)
	}
	return t
}

// resolveType turns type text into a Go type, seen from package pkg.
func (e *Engine) resolveType(s, pkg string) (types.Type, error) {
	switch {
	case strings.HasPrefix(s, "[]"):
		el, err := e.resolveType(s[2:], pkg)
		if err != nil {
			return nil, err
		}
		return types.NewSlice(el), nil
	case strings.HasPrefix(s, "*"):
		el, err := e.resolveType(s[1:], pkg)
		if err != nil {
			return nil, err
		}
		return types.NewPointer(el), nil
	case strings.HasPrefix(s, "map["):
		i := strings.Index(s, "]")
		k, err := e.resolveType(s[4:i], pkg)
		if err != nil {
			return nil, err
		}
		el, err := e.resolveType(s[i+1:], pkg)
		if err != nil {
			return nil, err
		}
		return types.NewMap(k, el), nil
	case strings.HasPrefix(s, "["):
		i := strings.Index(s, "]")
		var n int64
		fmt.Sscan(s[1:i], &n)
		el, err := e.resolveType(s[i+1:], pkg)
		if err != nil {
			return nil, err
		}
		return types.NewArray(el, n), nil
	}
	switch s {
	case "real":
		return tReal, nil
	case "rune":
		return types.Typ[types.Int32], nil
	case "byte":
		return types.Typ[types.Uint8], nil
	}
	for _, b := range types.Typ {
		if b.Name() == s {
			return b, nil
		}
	}
	name := s
	p := e.prog.spkgs[pkg]
	if i := strings.IndexByte(s, '.'); i >= 0 {
		name = s[i+1:]
		p = nil
		q := s[:i]
		for path, sp := range e.prog.spkgs {
			if sp.Pkg.Name() == q && (path == q || strings.HasSuffix(path, "/"+q)) {
				if p == nil || strings.HasPrefix(path, "geGoMetry") || strings.HasPrefix(path, "github.com/ungerik") {
					p = sp
				}
			}
		}
		// prefer the package the spec's package imports
		if sp := e.prog.spkgs[pkg]; sp != nil {
			for _, im := range sp.Pkg.Imports() {
				if im.Name() == q {
					p = e.prog.spkgs[im.Path()]
				}
			}
		}
	}
	if p == nil {
		return nil, fmt.Errorf("unknown type %s in %s", s, pkg)
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil, fmt.Errorf("unknown type %s in %s", s, pkg)
	}
	if tn, ok := o.(*types.TypeName); ok {
		return tn.Type(), nil
	}
	return nil, fmt.Errorf("%s is not a type", s)
}

func (v *specEnv) ident(x *Expr) SVal {
	c := v.e.c
	if b, ok := v.bind[x.name]; ok {
		return b
	}
	switch x.name {
	case "true":
		return SVal{t: c.True(), typ: tBool}
	case "false":
		return SVal{t: c.False(), typ: tBool}
	case "nil":
		return SVal{t: c.Int(0), typ: types.Typ[types.UntypedNil]}
	case "MaxFloat64":
		return SVal{t: v.e.maxFloat(), typ: tReal}
	case "Inf":
		return SVal{t: v.e.infinity(), typ: tReal}
	case "Pi":
		return SVal{t: v.e.pi(), typ: tReal}
	}
	if p := v.e.prog.spkgs[v.pkg]; p != nil {
		if r, ok := v.member(p.Pkg, x.name); ok {
			return r
		}
	}
	v.fail(x, "unknown name %s", x.name)
	return SVal{}
}

func (v *specEnv) member(p *types.Package, name string) (SVal, bool) {
	o := p.Scope().Lookup(name)
	switch o := o.(type) {
	case *types.Const:
		return SVal{t: v.e.constTerm(o.Val(), o.Type()), typ: o.Type()}, true
	case *types.Var:
		g := v.e.prog.spkgs[p.Path()].Var(name)
		cell := v.e.globalCell(g)
		if v.st != nil {
			if t, ok := v.st.cells[cell]; ok {
				return SVal{t: t, typ: o.Type()}, true
			}
		}
		return SVal{t: v.e.globalInit(v.st, cell), typ: o.Type()}, true
	}
	return SVal{}, false
}

func (v *specEnv) pkgMember(q, name string) (SVal, bool) {
	if sp := v.e.prog.spkgs[v.pkg]; sp != nil {
		for _, im := range sp.Pkg.Imports() {
			if im.Name() == q {
				return v.member(im, name)
			}
		}
	}
	for path, sp := range v.e.prog.spkgs {
		if sp.Pkg.Name() == q && strings.HasPrefix(path, "geGoMetry") {
			return v.member(sp.Pkg, name)
		}
	}
	return SVal{}, false
}

func (v *specEnv) needState(x *Expr) {
	if v.st == nil {
		v.fail(x, "reads memory where none is available")
	}
}

func (v *specEnv) deref(x *Expr, a SVal) SVal {
	pt, ok := a.typ.Underlying().(*types.Pointer)
	if !ok {
		v.fail(x, "not a pointer")
	}
	v.needState(x)
	return SVal{t: v.load(pt.Elem(), a.t), typ: pt.Elem()}
}

func (v *specEnv) load(el types.Type, ptr *Term) *Term {
	m := v.e.memFor(el)
	t := v.e.c.Select(v.e.c.Select(v.e.getMem(v.st, m.key), v.e.c.Sel(ptr, 0)), v.e.c.Sel(ptr, 1))
	v.wf(el, t)
	return t
}

func (v *specEnv) wf(el types.Type, t *Term) {
	if v.rec == nil && v.st != nil && !t.bound {
		v.e.assumeWF(v.st, el, t)
	}
}

func (v *specEnv) field(x *Expr, a SVal, name string) SVal {
	c := v.e.c
	if a.t == nil {
		v.fail(x, "field of a sequence")
	}
	t := a.typ
	if _, ok := t.Underlying().(*types.Pointer); ok {
		a = v.deref(x, a)
		t = a.typ
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		v.fail(x, "no field %s in %s", name, t)
	}
	c.SortOf(t)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return SVal{t: c.Sel(a.t, i), typ: st.Field(i).Type()}
		}
	}
	// promoted fields
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if r, err := v.tryField(x, SVal{t: c.Sel(a.t, i), typ: st.Field(i).Type()}, name); err == nil {
				return r
			}
		}
	}
	v.fail(x, "no field %s in %s", name, t)
	return SVal{}
}

func (v *specEnv) tryField(x *Expr, a SVal, name string) (r SVal, err error) {
	defer func() {
		if p := recover(); p != nil {
			if s, ok := p.(specErr); ok {
				err = s
				return
			}
			panic(p)
		}
	}()
	return v.field(x, a, name), nil
}

func (v *specEnv) index(x *Expr, a, i SVal) SVal {
	c := v.e.c
	if a.seq != nil {
		return SVal{t: c.Select(a.seq.arr, c.Add(a.seq.off, i.t)), typ: a.seq.elem}
	}
	switch u := a.typ.Underlying().(type) {
	case *types.Slice:
		v.needState(x)
		ptr := c.App("mkPtr", SPtr, c.Sel(a.t, 0), c.Add(c.Sel(a.t, 1), i.t))
		return SVal{t: v.load(u.Elem(), ptr), typ: u.Elem()}
	case *types.Array:
		return SVal{t: v.e.pathSel(a.t, PathElem{field: -1, idx: i.t}), typ: u.Elem()}
	case *types.Map:
		v.needState(x)
		raw := v.e.mapRaw(v.st, u, a.t, i.t)
		v.wf(u.Elem(), raw)
		return SVal{t: c.Ite(v.e.mapIn(v.st, u, a.t, i.t), raw, c.Zero(u.Elem())), typ: u.Elem()}
	case *types.Basic:
		if isString(a.typ) {
			return SVal{t: v.e.rune(a.t, i.t), typ: types.Typ[types.Int32]}
		}
	}
	v.fail(x, "cannot index %s", a.typ)
	return SVal{}
}

func (v *specEnv) binary(x *Expr) SVal {
	c := v.e.c
	B := func(t *Term) SVal { return SVal{t: t, typ: tBool} }
	switch x.name {
	case "&&":
		return B(c.And(v.boolean(x.args[0]), v.boolean(x.args[1])))
	case "||":
		return B(c.Or(v.boolean(x.args[0]), v.boolean(x.args[1])))
	case "==>":
		return B(c.Implies(v.boolean(x.args[0]), v.boolean(x.args[1])))
	case "<==>":
		return B(c.Eq(v.boolean(x.args[0]), v.boolean(x.args[1])))
	}
	a, b := v.eval(x.args[0]), v.eval(x.args[1])
	if x.name == "in" {
		mt, ok := b.typ.Underlying().(*types.Map)
		if !ok {
			v.fail(x, "in needs a map")
		}
		v.needState(x)
		return B(v.e.mapIn(v.st, mt, b.t, a.t))
	}
	if x.name == "==" || x.name == "!=" {
		r := v.equal(x, a, b)
		if x.name == "!=" {
			r = c.Not(r)
		}
		return B(r)
	}
	a, b = v.coerce(x, a, b)
	ty := a.typ
	if a.lit {
		ty = b.typ
	}
	lit := a.lit && b.lit
	switch x.name {
	case "+":
		if a.t.sort == SStr {
			return SVal{t: v.e.strCat(v.st, a.t, b.t), typ: tString}
		}
		return SVal{t: c.Add(a.t, b.t), typ: ty, lit: lit}
	case "-":
		return SVal{t: c.Sub(a.t, b.t), typ: ty, lit: lit}
	case "*":
		return SVal{t: c.Mul(a.t, b.t), typ: ty, lit: lit}
	case "/":
		if a.t.sort == SInt {
			// real division in specifications; integer division is written div(a, b)
			return SVal{t: c.Div(c.ToReal(a.t), c.ToReal(b.t)), typ: tReal}
		}
		return SVal{t: c.Div(a.t, b.t), typ: ty}
	case "%":
		return SVal{t: c.IMod(a.t, b.t), typ: tInt}
	case "<":
		return B(c.Lt(a.t, b.t))
	case "<=":
		return B(c.Le(a.t, b.t))
	case ">":
		return B(c.Lt(b.t, a.t))
	case ">=":
		return B(c.Le(b.t, a.t))
	}
	v.fail(x, "operator %s", x.name)
	return SVal{}
}

func (v *specEnv) equal(x *Expr, a, b SVal) *Term {
	c := v.e.c
	if a.typ == types.Typ[types.UntypedNil] {
		a, b = b, a
	}
	if b.typ == types.Typ[types.UntypedNil] {
		if a.t.sort == SSlc || a.t.sort == SPtr {
			return c.Eq(c.Sel(a.t, 0), c.Int(0))
		}
		return c.Eq(a.t, c.Int(0))
	}
	if a.seq != nil || b.seq != nil {
		a, b = v.seqOf(x, a), v.seqOf(x, b)
		k := c.FreshVar("k", SInt)
		return c.And(c.Eq(a.seq.ln, b.seq.ln), c.Forall([]*Term{k}, c.Implies(c.And(c.Le(c.Int(0), k), c.Lt(k, a.seq.ln)),
			c.Eq(c.Select(a.seq.arr, c.Add(a.seq.off, k)), c.Select(b.seq.arr, c.Add(b.seq.off, k))))))
	}
	a, b = v.coerce(x, a, b)
	if a.t.sort != b.t.sort {
		v.fail(x, "comparison of %s and %s", a.t.sort, b.t.sort)
	}
	if a.t.sort == SStr {
		return v.e.strEq(v.st, a.t, b.t)
	}
	return c.Eq(a.t, b.t)
}

// seqOf snapshots a slice as a ghost sequence.
func (v *specEnv) seqOf(x *Expr, a SVal) SVal {
	if a.seq != nil {
		return a
	}
	u, ok := a.typ.Underlying().(*types.Slice)
	if !ok {
		v.fail(x, "not a slice")
	}
	v.needState(x)
	m := v.e.memFor(u.Elem())
	return SVal{seq: &SeqVal{arr: v.e.c.Select(v.e.getMem(v.st, m.key), v.e.c.Sel(a.t, 0)), off: v.e.c.Sel(a.t, 1), ln: v.e.c.Sel(a.t, 2), elem: u.Elem()}, typ: a.typ}
}

func (v *specEnv) call(x *Expr) SVal {
	c := v.e.c
	R := func(t *Term) SVal { return SVal{t: t, typ: tReal} }
	I := func(t *Term) SVal { return SVal{t: t, typ: tInt} }
	B := func(t *Term) SVal { return SVal{t: t, typ: tBool} }
	arg := func(i int) SVal {
		if i >= len(x.args) {
			v.fail(x, "too few arguments")
		}
		return v.eval(x.args[i])
	}
	switch x.name {
	case "old":
		n := *v
		n.st = v.old
		return n.eval(x.args[0])
	case "len", "cap":
		a := arg(0)
		if a.seq != nil {
			return I(a.seq.ln)
		}
		switch u := a.typ.Underlying().(type) {
		case *types.Slice:
			if x.name == "cap" {
				return I(c.Sel(a.t, 3))
			}
			return I(c.Sel(a.t, 2))
		case *types.Array:
			return I(c.Int(u.Len()))
		}
		if isString(a.typ) {
			return I(v.e.blen(a.t))
		}
		v.fail(x, "len of %s", a.typ)
	case "nrunes":
		return I(v.e.rlen(arg(0).t))
	case "seq":
		return v.seqOf(x, arg(0))
	case "rune":
		return I(v.e.rune(arg(0).t, arg(1).t))
	case "abs":
		a := arg(0)
		z := c.Num(new(big.Rat), a.t.sort)
		return SVal{t: c.Ite(c.Le(z, a.t), a.t, c.Neg(a.t)), typ: a.typ}
	case "min", "max":
		a, b := v.coerce(x, arg(0), arg(1))
		if x.name == "min" {
			return SVal{t: c.Ite(c.Le(a.t, b.t), a.t, b.t), typ: a.typ}
		}
		return SVal{t: c.Ite(c.Le(b.t, a.t), a.t, b.t), typ: a.typ}
	case "real":
		return R(v.real(arg(0)))
	case "floor":
		return I(c.Floor(arg(0).t))
	case "div":
		return I(v.e.idiv(arg(0).t, arg(1).t))
	case "sqrt":
		a := v.real(arg(0))
		return R(v.e.sqrtOf(a))
	case "sin":
		s, _ := v.e.sinCos(v.real(arg(0)))
		return R(s)
	case "cos":
		_, cs := v.e.sinCos(v.real(arg(0)))
		return R(cs)
	case "f32":
		return R(v.e.f32(v.real(arg(0))))
	case "ref":
		a := arg(0)
		if a.t.sort == SSlc || a.t.sort == SPtr {
			return I(c.Sel(a.t, 0))
		}
		return I(a.t)
	case "off":
		return I(c.Sel(arg(0).t, 1))
	case "fresh":
		a := arg(0)
		r := a.t
		if a.t.sort == SSlc || a.t.sort == SPtr {
			r = c.Sel(a.t, 0)
		}
		return B(c.Le(v.old.next, r))
	case "allocated": // exists at entry
		a := arg(0)
		r := a.t
		if a.t.sort == SSlc || a.t.sort == SPtr {
			r = c.Sel(a.t, 0)
		}
		return B(c.Lt(r, v.old.next))
	case "closure": // closure(f): the function f as a value
		v.fail(x, "closures are not supported in specifications")
	}
	if p, ok := v.e.specs.pures[x.name]; ok {
		return v.pure(x, p)
	}
	v.fail(x, "unknown function %s", x.name)
	return SVal{}
}

func (v *specEnv) pure(x *Expr, p *PureFn) SVal {
	c := v.e.c
	if len(p.params) != len(x.args) {
		v.fail(x, "%s takes %d arguments", p.name, len(p.params))
	}
	args := make([]SVal, len(x.args))
	for i := range x.args {
		args[i] = v.eval(x.args[i])
		pt, err := v.e.resolveType(p.params[i].typ, p.pkg)
		if err != nil {
			v.fail(x, "%v", err)
		}
		if args[i].t != nil && args[i].t.sort == SInt && isFloat(pt) {
			args[i] = SVal{t: c.ToReal(args[i].t), typ: pt}
		}
		if args[i].lit {
			args[i].lit = false
		}
		if args[i].t != nil {
			if s := c.SortOf(pt); s != args[i].t.sort {
				v.fail(x, "argument %d of %s has sort %s, not %s", i, p.name, args[i].t.sort, s)
			}
			args[i].typ = pt
		}
	}
	if !p.rec && !p.opaque && !(p.sealed && !v.e.revealed(p.name)) {
		if v.depth > 40 {
			v.fail(x, "macro recursion in %s", p.name)
		}
		n := *v
		n.depth++
		n.pkg = p.pkg
		n.bind = map[string]SVal{}
		for i, d := range p.params {
			n.bind[d.name] = args[i]
		}
		r := n.eval(p.body)
		if rt, err := v.e.resolveType(p.ret, p.pkg); err == nil && isFloat(rt) && r.t.sort == SInt {
			r = SVal{t: c.ToReal(r.t), typ: rt}
		}
		return r
	}
	if p.sealed {
		v.e.sealedUsed = true
	}
	ri := v.e.recDef(p)
	flat := v.flatten(x, args, ri)
	return SVal{t: c.App(ri.sym, ri.sort, flat...), typ: ri.ret}
}

func (v *specEnv) flatten(x *Expr, args []SVal, ri *recInfo) []*Term {
	var flat []*Term
	for i := range args {
		switch u := ri.ptypes[i].Underlying().(type) {
		case *types.Slice:
			s := v.seqOf(x, args[i]).seq
			flat = append(flat, s.arr, s.off, s.ln)
		case *types.Map:
			if v.st == nil {
				v.fail(x, "map argument without a state")
			}
			dk, vk := v.e.mapKeys(u)
			flat = append(flat, v.e.c.Select(v.e.getMem(v.st, dk), args[i].t), v.e.c.Select(v.e.getMem(v.st, vk), args[i].t))
		default:
			flat = append(flat, v.leaves(args[i].t)...)
		}
	}
	for _, k := range ri.memKs {
		if v.st == nil {
			v.fail(x, "memory argument without a state")
		}
		flat = append(flat, v.e.getMem(v.st, k))
	}
	return flat
}

func (v *specEnv) leaves(t *Term) []*Term {
	d, ok := v.e.c.dts[t.sort]
	if !ok {
		return []*Term{t}
	}
	var out []*Term
	for i := range d.sorts {
		out = append(out, v.leaves(v.e.c.Sel(t, i))...)
	}
	return out
}

// revealed: the definition of a sealed function may be used.
func (e *Engine) revealed(name string) bool {
	return e.reveal[name] || e.reveal["*"]
}

// recDef declares a recursive (or opaque) specification function.
func (e *Engine) recDef(p *PureFn) *recInfo {
	if r, ok := e.recDefs[p.name]; ok {
		return r
	}
	c := e.c
	ri := &recInfo{fn: p, sym: "fn_" + p.name}
	ev := &specEnv{e: e, pkg: p.pkg, bind: map[string]SVal{}, rec: ri}
	rt, err := e.resolveType(p.ret, p.pkg)
	if err != nil {
		panic(specErr{p.pos + ": " + err.Error()})
	}
	ri.ret, ri.sort = rt, c.SortOf(rt)
	var sorts []string
	for _, d := range p.params {
		pt, err := e.resolveType(d.typ, p.pkg)
		if err != nil {
			panic(specErr{p.pos + ": " + err.Error()})
		}
		ri.ptypes = append(ri.ptypes, pt)
		mk := func(n, s string) *Term {
			t := c.Var("$"+p.name+"."+n, s)
			ri.vars = append(ri.vars, t)
			sorts = append(sorts, s)
			return t
		}
		switch u := pt.Underlying().(type) {
		case *types.Slice:
			a := mk(d.name+".arr", arrSort(SInt, c.SortOf(u.Elem())))
			o := mk(d.name+".off", SInt)
			l := mk(d.name+".len", SInt)
			ev.bind[d.name] = SVal{seq: &SeqVal{a, o, l, u.Elem()}, typ: pt}
		default:
			s := c.SortOf(pt)
			ev.bind[d.name] = SVal{t: e.build(s, "", func(path, srt string) *Term { return mk(d.name+path, srt) }), typ: pt}
		}
	}
	c.Declare(ri.sym, ri.sort, sorts...)
	e.recDefs[p.name] = ri
	if !p.opaque && !p.sealed {
		r := ev.eval(p.body)
		if ri.sort == SReal && r.t.sort == SInt {
			r.t = c.ToReal(r.t)
		}
		if r.t.sort != ri.sort {
			panic(specErr{p.pos + ": body sort"})
		}
		ri.body = r.t
	}
	return ri
}

func (e *Engine) recBySym(sym string) *recInfo {
	if !strings.HasPrefix(sym, "fn_") {
		return nil
	}
	return e.recDefs[sym[3:]]
}

// unfold is the definition of a recursive application.
func (e *Engine) unfold(app *Term) *Term {
	ri := e.recBySym(app.name)
	if ri == nil || ri.body == nil {
		return nil
	}
	m := map[*Term]*Term{}
	for i, a := range app.args {
		m[ri.vars[i]] = a
	}
	return e.c.Subst(ri.body, m)
}

// ---- special real functions ----

func (e *Engine) sqrtOf(a *Term) *Term {
	c := e.c
	if a.op == "num" {
		if a.num.Sign() == 0 {
			return a
		}
		n, d := a.num.Num(), a.num.Denom()
		rn, rd := new(big.Int).Sqrt(n), new(big.Int).Sqrt(d)
		if a.num.Sign() > 0 && new(big.Int).Mul(rn, rn).Cmp(n) == 0 && new(big.Int).Mul(rd, rd).Cmp(d) == 0 {
			return c.Num(new(big.Rat).SetFrac(rn, rd), SReal)
		}
	}
	c.Declare("sqrt", SReal, SReal)
	r := c.App("sqrt", SReal, a)
	if !r.bound && !e.wfDone[fmt.Sprintf("sqrt%d", r.id)] {
		if e.dry == 0 {
			e.wfDone[fmt.Sprintf("sqrt%d", r.id)] = true
		}
		e.assumeGlobal(c.Implies(c.Le(c.RealI(0), a), c.And(c.Le(c.RealI(0), r), c.Eq(c.Mul(r, r), a))))
		e.trusted["math.Sqrt: for x ≥ 0 the non-negative real with square x (rounding ignored)"] = true
	}
	return r
}

func (e *Engine) pi() *Term {
	p, _ := new(big.Rat).SetString("3.141592653589793238462643383279502884197169399375105820974944592307816406286")
	f, _ := p.Float64()
	return e.c.Num(new(big.Rat).SetFloat64(f), SReal)
}

func (e *Engine) sinCos(a *Term) (s, cs *Term) {
	c := e.c
	c.Declare("sin", SReal, SReal)
	c.Declare("cos", SReal, SReal)
	s, cs = c.App("sin", SReal, a), c.App("cos", SReal, a)
	k := fmt.Sprintf("sincos%d", a.id)
	if !a.bound && !e.wfDone[k] {
		if e.dry == 0 {
			e.wfDone[k] = true
		}
		one := c.RealI(1)
		e.assumeGlobal(c.Eq(c.Add(c.Mul(s, s), c.Mul(cs, cs)), one))
		e.assumeGlobal(c.And(c.Le(c.Neg(one), s), c.Le(s, one), c.Le(c.Neg(one), cs), c.Le(cs, one)))
		e.trusted["math.Sin, math.Cos: real functions with sin²x+cos²x = 1 and values in [-1,1]"] = true
	}
	return
}
