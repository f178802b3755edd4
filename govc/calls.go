package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- calls ----

func (e *Engine) call(fr *Frame, st *State, b *ssa.BasicBlock, cc *ssa.CallCommon, instr ssa.Instruction) (Val, bool) {
	if bi, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		var args []Val
		for _, a := range cc.Args {
			args = append(args, e.val(fr, st, a))
		}
		var rt types.Type
		if v, ok := instr.(ssa.Value); ok {
			rt = v.Type()
		}
		return e.builtin(st, bi.Name(), args, cc, rt), true
	}
	var fn *ssa.Function
	var free []Val
	var args []Val
	if cc.IsInvoke() {
		iv := e.val(fr, st, cc.Value)
		i, ok := iv.(*Iface)
		if !ok {
			if r, ok := e.invokeExternal(st, cc); ok {
				return r, true
			}
			panic(unsupported("call through an interface: " + cc.String()))
		}
		fn = e.prog.ssa.LookupMethod(i.typ, cc.Method.Pkg(), cc.Method.Name())
		args = append(args, i.v)
	} else if s := cc.StaticCallee(); s != nil && len(s.FreeVars) == 0 {
		fn = s
	} else {
		switch x := e.val(fr, st, cc.Value).(type) {
		case *Closure:
			fn, free = x.fn, x.bindings
		default:
			// a tagged function value known exactly
			if t, ok := x.(*Term); ok {
				for i, k := range e.funcIDs {
					if t == e.c.Int(int64(1000+i)) {
						fn, free = e.funcTags[k].fn, e.funcTags[k].bindings
					}
				}
			}
			if fn == nil {
				panic(unsupported("call of a function value: " + cc.String()))
			}
		}
	}
	for _, a := range cc.Args {
		args = append(args, e.val(fr, st, a))
	}
	if fn == nil {
		panic(unsupported("call: " + cc.String()))
	}
	return e.invoke(fr, st, b, fn, args, free, fmt.Sprintf("%d.%d", b.Index, instrIndex(b, instr)))
}

func instrIndex(b *ssa.BasicBlock, ins ssa.Instruction) int {
	for i, x := range b.Instrs {
		if x == ins {
			return i
		}
	}
	return -1
}

func (e *Engine) invoke(fr *Frame, st *State, b *ssa.BasicBlock, fn *ssa.Function, args, free []Val, site string) (Val, bool) {
	key := e.prog.specKey(fn)
	if con := e.specs.contracts[key]; con != nil && len(free) == 0 && !e.noCon[key] && !(e.con != nil && (e.con.inlineAll || e.con.inlines[fn.Name()])) && con.opts["callers"] != "inline" {
		return e.callContract(fr, st, fn, con, args), true
	}
	if len(fn.Blocks) > 0 && (e.repoFunc(fn)) {
		// wrappers (promoted methods, bound methods) and repository code
		e.inlined[fn.String()] = true
		caller := e.curLoop(fr, b)
		out, res, _ := e.execFunc(fn, args, free, st, fr, caller, site)
		if out == nil {
			return nil, false
		}
		*st = *out
		switch len(res) {
		case 0:
			return nil, true
		case 1:
			return res[0], true
		}
		return Tuple(res), true
	}
	return e.external(st, fn, args)
}

// repoFunc: functions whose bodies are part of what is verified.
func (e *Engine) repoFunc(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		if fn.Synthetic != "" {
			return true
		}
		if o := fn.Origin(); o != nil && o.Pkg != nil {
			return inRepo(o.Pkg.Pkg.Path())
		}
		if fn.Parent() != nil {
			return e.repoFunc(fn.Parent())
		}
		return false
	}
	return inRepo(fn.Pkg.Pkg.Path())
}

func inRepo(p string) bool {
	return strings.HasPrefix(p, "geGoMetry") || p == "nurbs" || strings.HasPrefix(p, "nurbs/") || strings.HasPrefix(p, "github.com/ungerik/go3d")
}

// ---- builtins ----

func (e *Engine) builtin(st *State, name string, args []Val, cc *ssa.CallCommon, rt types.Type) Val {
	c := e.c
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case *LazySlice:
			return c.Int(int64(x.n))
		case *ArrObj:
			return c.Int(x.n)
		}
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			t := e.asTermOf(st, args[0])
			if name == "cap" {
				return c.Sel(t, 3)
			}
			return c.Sel(t, 2)
		case *types.Array:
			return c.Int(u.Len())
		case *types.Pointer:
			return c.Int(u.Elem().Underlying().(*types.Array).Len())
		case *types.Map:
			t := e.asTermOf(st, args[0])
			dk, _ := e.mapKeys(u)
			c.Declare("card$"+sanitize(dk), SInt, arrElem(e.mems[dk].sort))
			r := c.App("card$"+sanitize(dk), SInt, c.Select(e.getMem(st, dk), t))
			e.assume(st, c.Le(c.Int(0), r))
			return r
		case *types.Basic:
			t := e.asTermOf(st, args[0])
			l := e.blen(t)
			e.assume(st, c.Le(c.Int(0), l))
			return l
		}
	case "append":
		return e.appendSlice(st, args[0], args[1], cc.Args[0].Type(), cc.Args[1].Type())
	case "copy":
		return e.copySlice(st, e.asTermOf(st, args[0]), args[1], cc.Args[0].Type(), cc.Args[1].Type())
	case "delete":
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		ref := e.asTermOf(st, args[0])
		if ref.op == "num" {
			return nil
		}
		e.mapDelete(st, mt, ref, e.asTermOf(st, args[1]))
		return nil
	case "min", "max":
		r := e.asTermOf(st, args[0])
		for _, a := range args[1:] {
			t := e.asTermOf(st, a)
			if name == "min" {
				r = c.Ite(c.Le(r, t), r, t)
			} else {
				r = c.Ite(c.Le(t, r), r, t)
			}
		}
		return r
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		return args[0]
	case "clear":
		if mt, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			ref := e.asTermOf(st, args[0])
			dk, _ := e.mapKeys(mt)
			d := e.getMem(st, dk)
			st.mem[dk] = c.Store(d, ref, c.ConstArr(arrElem(d.sort), c.False()))
			return nil
		}
	}
	panic(unsupported("builtin " + name))
}

func (e *Engine) appendSlice(st *State, sv, tv Val, stt, ttt types.Type) Val {
	c := e.c
	el := stt.Underlying().(*types.Slice).Elem()
	s := e.asTermOf(st, sv)
	ref, off, ln, cp := c.Sel(s, 0), c.Sel(s, 1), c.Sel(s, 2), c.Sel(s, 3)
	m := e.memFor(el)
	mem := e.getMem(st, m.key)
	old := c.Select(mem, ref)
	var n, arr *Term
	switch t := tv.(type) {
	case *LazySlice:
		n = c.Int(int64(t.n))
		arr = old
		for i := 0; i < t.n; i++ {
			arr = c.Store(arr, c.Add(off, ln, c.Int(int64(i))), c.Sel(t.st, i))
		}
	default:
		if isString(ttt) {
			panic(unsupported("append of a string"))
		}
		tt := e.asTermOf(st, tv)
		n = c.Sel(tt, 2)
		if n.op == "num" && n.num.Sign() == 0 {
			return s
		}
		src := c.Select(mem, c.Sel(tt, 0))
		if n.op == "num" && n.num.Num().Int64() <= 16 {
			arr = old
			for i := int64(0); i < n.num.Num().Int64(); i++ {
				arr = c.Store(arr, c.Add(off, ln, c.Int(i)), c.Select(src, c.Add(c.Sel(tt, 1), c.Int(i))))
			}
		} else {
			arr = c.Fresh("app", arrElem(mem.sort))
			k := c.FreshVar("k", SInt)
			lo := c.Add(off, ln)
			in := c.And(c.Le(lo, k), c.Lt(k, c.Add(lo, n)))
			e.assume(st, c.Forall([]*Term{k}, c.Eq(c.Select(arr, k),
				c.Ite(in, c.Select(src, c.Add(c.Sub(k, lo), c.Sel(tt, 1))), c.Select(old, k)))))
			// the appended part seen from the source
			e.assume(st, c.Forall([]*Term{k}, c.Implies(c.And(c.Le(c.Int(0), k), c.Lt(k, n)),
				c.Eq(c.Select(arr, c.Add(lo, k)), c.Select(src, c.Add(c.Sel(tt, 1), k))))))
		}
	}
	// The array of a reallocated slice is modelled with the same offset and the
	// same elements outside the slice; no slice expression may look beyond the length.
	nl := c.Add(ln, n)
	fits := c.Le(nl, cp)
	if cp.op == "num" && cp.num.Sign() == 0 && n.op == "num" && n.num.Sign() > 0 {
		fits = c.False()
	}
	fref := st.next
	ncap := c.Fresh("cap", SInt)
	e.assume(st, c.Le(nl, ncap))
	e.assume(st, c.Implies(c.Not(fits), c.Eq(e.asz(fref), c.Add(off, ncap))))
	st.next = c.Add(st.next, c.Int(1))
	r := c.Ite(fits, ref, fref)
	st.mem[m.key] = c.Store(mem, r, arr)
	return c.App("mkSlc", SSlc, r, off, nl, c.Ite(fits, cp, ncap))
}

func (e *Engine) copySlice(st *State, d *Term, sv Val, dt, stt types.Type) Val {
	c := e.c
	el := dt.Underlying().(*types.Slice).Elem()
	if isString(stt) {
		panic(unsupported("copy from a string"))
	}
	s := e.asTermOf(st, sv)
	m := e.memFor(el)
	mem := e.getMem(st, m.key)
	n := c.Ite(c.Le(c.Sel(d, 2), c.Sel(s, 2)), c.Sel(d, 2), c.Sel(s, 2))
	old, src := c.Select(mem, c.Sel(d, 0)), c.Select(mem, c.Sel(s, 0))
	arr := c.Fresh("copy", arrElem(mem.sort))
	k := c.FreshVar("k", SInt)
	lo := c.Sel(d, 1)
	in := c.And(c.Le(lo, k), c.Lt(k, c.Add(lo, n)))
	e.assume(st, c.Forall([]*Term{k}, c.Eq(c.Select(arr, k), c.Ite(in, c.Select(src, c.Add(c.Sub(k, lo), c.Sel(s, 1))), c.Select(old, k)))))
	st.mem[m.key] = c.Store(mem, c.Sel(d, 0), arr)
	return n
}

// ---- contracts at call sites ----

func hasRefs(t types.Type, depth int) bool {
	if depth > 4 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Array:
		return hasRefs(u.Elem(), depth+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasRefs(u.At(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

func holdsPointer(t types.Type, depth int) bool {
	if depth > 4 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Signature, *types.Interface, *types.Chan:
		return true
	case *types.Slice:
		return holdsPointer(u.Elem(), depth+1)
	case *types.Map:
		return holdsPointer(u.Elem(), depth+1) || holdsPointer(u.Key(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsPointer(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Array:
		return holdsPointer(u.Elem(), depth+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if holdsPointer(u.At(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

type spill struct {
	place *Place
	key   string
	elem  types.Type
	ptr   *Term
}

func (e *Engine) bindParams(con *Contract, fn *ssa.Function, args []*Term) map[string]SVal {
	b := map[string]SVal{}
	names := con.params
	i := 0
	if fn.Signature.Recv() != nil {
		if con.recv != "" && con.recv != "_" {
			b[con.recv] = SVal{t: args[0], typ: fn.Params[0].Type()}
		}
		i = 1
	}
	if len(names) != len(fn.Params)-i {
		panic(specErr{fmt.Sprintf("%s: %s has %d parameters, the contract names %d", con.pos, con.key, len(fn.Params)-i, len(names))})
	}
	for j, n := range names {
		if n != "_" {
			b[n] = SVal{t: args[i+j], typ: fn.Params[i+j].Type()}
		}
	}
	return b
}

func (e *Engine) bindResults(b map[string]SVal, con *Contract, fn *ssa.Function, res []*Term) {
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		s := SVal{t: res[i], typ: rs.At(i).Type()}
		b[fmt.Sprintf("result%d", i)] = s
		if rs.Len() == 1 {
			b["result"] = s
		}
		if i < len(con.results) && con.results[i] != "_" {
			b[con.results[i]] = s
		}
	}
}

func (e *Engine) callContract(fr *Frame, st *State, fn *ssa.Function, con *Contract, args []Val) Val {
	c := e.c
	e.used[con.key] = true
	if con.mayPanic {
		panic(unsupported("call of " + con.key + ", whose contract allows any panic"))
	}
	// pointers to local values are spilled to a scratch object for the call
	var spills []*spill
	terms := make([]*Term, len(args))
	savedMem := map[string]*Term{}
	escapes := holdsPointer(fn.Signature.Results(), 0) || con.modAll
	for i, a := range args {
		p, ok := a.(*Place)
		if !ok || p.cell == nil && len(p.path) == 0 {
			terms[i] = e.asTermOf(st, a)
			continue
		}
		if escapes && con.opts["retains"] != "no" {
			if p.cell != nil {
				if al, ok := cellAlloc[p.cell]; ok {
					panic(Restart{al})
				}
			}
			panic(unsupported("pointer to a component passed to " + con.key))
		}
		var sp *spill
		for _, s := range spills {
			if sameVal(s.place, p) {
				sp = s
			}
		}
		if sp == nil {
			el := p.typ()
			m := e.memFor(el)
			v := e.loadPlace(st, p)
			if _, ok := savedMem[m.key]; !ok {
				savedMem[m.key] = e.getMem(st, m.key)
			}
			ref := st.next
			st.next = c.Add(st.next, c.Int(1))
			e.assume(st, c.Eq(e.asz(ref), c.Int(1)))
			ptr := c.App("mkPtr", SPtr, ref, c.Int(0))
			e.storeHeap(st, el, ptr, v)
			sp = &spill{p, m.key, el, ptr}
			spills = append(spills, sp)
		}
		terms[i] = sp.ptr
	}
	bind := e.bindParams(con, fn, terms)
	pre := st.clone()
	env := &specEnv{e: e, st: st, old: pre, bind: bind, pkg: con.pkg}
	for i, r := range con.requires {
		t := env.boolean(r.e)
		n := fmt.Sprintf("precondition %d of %s", i+1, con.key)
		if r.label != "" {
			n = fmt.Sprintf("precondition %q of %s", r.label, con.key)
		}
		e.oblige(st, "requires", n, t)
		e.assume(st, t)
	}
	if con.panics != nil {
		e.mayPanicUnless(st, "panic", con.key+" does not panic", c.Not(env.boolean(con.panics.e)))
	}
	if e.con != nil && e.con.terminates && !con.terminates && con.trusted == "" {
		e.oblige(st, "term", con.key+" terminates", c.False())
	}
	targets := e.modTargets(con, env)
	spillOnly := map[string]bool{}
	for _, sp := range spills {
		spillOnly[sp.key] = true
	}
	for _, t := range targets {
		if t.all {
			spillOnly = map[string]bool{}
			break
		}
		isSpill := false
		for _, sp := range spills {
			if t.key == sp.key && t.ref == c.Sel(sp.ptr, 0) {
				isSpill = true
			}
		}
		if !isSpill {
			delete(spillOnly, t.key)
		}
	}
	alloc := con.modAll || len(targets) > 0 && con.opts["alloc"] != "no" || hasRefs(fn.Signature.Results(), 0)
	if onlyScalarTargets(e, targets) && !hasRefs(fn.Signature.Results(), 0) {
		alloc = false
	}
	e.havocTargets(st, targets, con.modAll)
	if alloc {
		n := c.Fresh("next", SInt)
		e.assume(st, c.Le(st.next, n))
		st.next = n
	}
	// results
	rs := fn.Signature.Results()
	res := make([]*Term, rs.Len())
	leaves := map[*Term]bool{}
	var same []*Term
	sameKey := ""
	if len(spills) == 0 && len(targets) == 0 && !con.modAll && e.valuePure(fn) {
		// equal arguments give equal results
		sameKey = con.key
		for _, t := range terms {
			sameKey += fmt.Sprintf(",%d", t.id)
		}
		same = e.pureRes[sameKey]
	}
	for i := range res {
		srt := c.SortOf(rs.At(i).Type())
		if same != nil {
			res[i] = same[i]
		} else {
			res[i] = c.Fresh("ret$"+fn.Name(), srt)
		}
		for _, p := range e.leafPaths(srt) {
			leaves[e.leafGet(res[i], p)] = true
		}
	}
	if sameKey != "" && same == nil {
		if e.pureRes == nil {
			e.pureRes = map[string][]*Term{}
		}
		e.pureRes[sameKey] = append([]*Term{}, res...)
	}
	// fresh values of modified locations may also be defined by the postcondition
	nb := map[string]SVal{}
	for k, v := range bind {
		nb[k] = v
	}
	e.bindResults(nb, con, fn, res)
	env2 := &specEnv{e: e, st: st, old: pre, bind: nb, pkg: con.pkg}
	var posts []*Term
	for _, en := range con.ensures {
		posts = append(posts, conjuncts(env2.boolean(en.e))...)
	}
	def := map[*Term]*Term{}
	mentions := func(t *Term) bool { return e.mentionsAny(t, leaves, def) }
	var rest []*Term
	for _, p := range posts {
		done := false
		if p.op == "=" {
			for k := 0; k < 2; k++ {
				l, r := p.args[k], p.args[1-k]
				if leaves[l] && def[l] == nil && !mentions(r) {
					def[l] = r
					done = true
					break
				}
			}
			if !done && p.args[0].sort != SBool { // linear: leaf = ... may be buried in a sum
				if l, r := e.solveLinear(p, leaves, def); l != nil && !mentions(r) {
					def[l] = r
					done = true
				}
			}
		} else if leaves[p] && def[p] == nil {
			def[p] = c.True()
			done = true
		} else if p.op == "not" && leaves[p.args[0]] && def[p.args[0]] == nil {
			def[p.args[0]] = c.False()
			done = true
		}
		if !done {
			rest = append(rest, p)
		}
	}
	if len(def) > 0 {
		for i := range rest {
			rest[i] = c.Subst(rest[i], def)
		}
		for i := range res {
			res[i] = c.Subst(res[i], def)
		}
	}
	for i := range res {
		e.assumeWF(st, rs.At(i).Type(), res[i])
	}
	for _, p := range rest {
		e.assume(st, p)
	}
	// spilled values come back
	var back []*Term
	for _, sp := range spills {
		m := e.memFor(sp.elem)
		back = append(back, c.Select(c.Select(e.getMem(st, m.key), c.Sel(sp.ptr, 0)), c.Int(0)))
	}
	for k := range spillOnly {
		st.mem[k] = savedMem[k]
	}
	if len(targets) > 0 || con.modAll {
		for i, sp := range spills {
			e.storePlace(st, sp.place, back[i])
		}
	}
	switch len(res) {
	case 0:
		return nil
	case 1:
		return res[0]
	}
	var out Tuple
	for _, r := range res {
		out = append(out, r)
	}
	return out
}

func onlyScalarTargets(e *Engine, ts []modTarget) bool {
	for _, t := range ts {
		if t.all {
			return false
		}
		m := e.mems[t.key]
		if m == nil || m.elem == nil || hasRefs(m.elem, 0) {
			return false
		}
	}
	return true
}

func (e *Engine) mentionsAny(t *Term, leaves map[*Term]bool, def map[*Term]*Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if leaves[t] {
			return true
		}
		if seen[t] || len(t.args) == 0 {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// solveLinear isolates a leaf with coefficient ±1 of a linear equation.
func (e *Engine) solveLinear(p *Term, leaves map[*Term]bool, def map[*Term]*Term) (*Term, *Term) {
	c := e.c
	if p.args[0].sort != SInt && p.args[0].sort != SReal {
		return nil, nil
	}
	l := c.toLin(c.Sub(p.args[0], p.args[1]))
	for t, k := range l.coef {
		if !leaves[t] || def[t] != nil {
			continue
		}
		if k.Cmp(big.NewRat(1, 1)) == 0 || k.Cmp(big.NewRat(-1, 1)) == 0 {
			rest := c.Sub(c.Sub(p.args[0], p.args[1]), c.Mul(c.Num(k, t.sort), t))
			if k.Sign() > 0 {
				rest = c.Neg(rest)
			}
			return t, rest
		}
	}
	return nil, nil
}

// modTargets evaluates the modifies clause in env (the entry state).
func (e *Engine) modTargets(con *Contract, env *specEnv) []modTarget {
	c := e.c
	var out []modTarget
	for _, x := range con.modifies {
		switch x.op {
		case "un": // *p
			a := env.eval(x.args[0])
			pt, ok := a.typ.Underlying().(*types.Pointer)
			if !ok {
				env.fail(x, "not a pointer")
			}
			m := e.memFor(pt.Elem())
			out = append(out, modTarget{key: m.key, ref: c.Sel(a.t, 0), idx: c.Sel(a.t, 1), name: x.String()})
		case "elems":
			a := env.eval(x.args[0])
			switch u := a.typ.Underlying().(type) {
			case *types.Slice:
				m := e.memFor(u.Elem())
				out = append(out, modTarget{key: m.key, ref: c.Sel(a.t, 0), lo: c.Sel(a.t, 1), hi: c.Add(c.Sel(a.t, 1), c.Sel(a.t, 2)), name: x.String()})
			case *types.Map:
				dk, vk := e.mapKeys(u)
				out = append(out, modTarget{key: dk, ref: a.t, name: x.String()}, modTarget{key: vk, ref: a.t, name: x.String()})
			default:
				env.fail(x, "cannot modify the elements of %s", a.typ)
			}
		case "field":
			a := env.eval(x.args[0])
			pt, ok := a.typ.Underlying().(*types.Pointer)
			if !ok {
				env.fail(x, "modifies p.f needs a pointer")
			}
			m := e.memFor(pt.Elem())
			su := pt.Elem().Underlying().(*types.Struct)
			path := ""
			for i := 0; i < su.NumFields(); i++ {
				if su.Field(i).Name() == x.name {
					path = fmt.Sprintf(".%d", i)
				}
			}
			if path == "" {
				env.fail(x, "no field %s", x.name)
			}
			out = append(out, modTarget{key: m.key, ref: c.Sel(a.t, 0), idx: c.Sel(a.t, 1), path: path, name: x.String()})
		case "call": // mem(T), spare(s)
			if x.name == "spare" {
				a := env.eval(x.args[0])
				u, ok := a.typ.Underlying().(*types.Slice)
				if !ok {
					env.fail(x, "spare needs a slice")
				}
				m := e.memFor(u.Elem())
				out = append(out, modTarget{key: m.key, ref: c.Sel(a.t, 0), lo: c.Add(c.Sel(a.t, 1), c.Sel(a.t, 2)), hi: c.Add(c.Sel(a.t, 1), c.Sel(a.t, 3)), name: x.String()})
				continue
			}
			ty, err := e.resolveType(x.args[0].name, con.pkg)
			if err != nil {
				env.fail(x, "%v", err)
			}
			if mt, ok := ty.Underlying().(*types.Map); ok {
				dk, vk := e.mapKeys(mt)
				out = append(out, modTarget{key: dk, all: true}, modTarget{key: vk, all: true})
				continue
			}
			m := e.memFor(ty)
			out = append(out, modTarget{key: m.key, all: true, name: x.String()})
		default:
			env.fail(x, "bad modifies target")
		}
	}
	return out
}

func (e *Engine) havocTargets(st *State, ts []modTarget, all bool) {
	c := e.c
	if all {
		for k := range e.mems {
			st.mem[k] = c.Fresh("mem$"+shortKey(k), e.mems[k].sort)
		}
		return
	}
	for _, t := range ts {
		mem := e.getMem(st, t.key)
		switch {
		case t.all:
			st.mem[t.key] = c.Fresh("mem$"+shortKey(t.key), mem.sort)
		case t.idx != nil:
			arr := c.Select(mem, t.ref)
			old := c.Select(arr, t.idx)
			m := e.mems[t.key]
			v := e.build(old.sort, "", func(path, srt string) *Term {
				if t.path == "" || path == t.path || strings.HasPrefix(path, t.path+".") {
					return c.Fresh("mod", srt)
				}
				return e.leafGet(old, path)
			})
			st.mem[t.key] = c.Store(mem, t.ref, c.Store(arr, t.idx, v))
			if m.elem != nil {
				defer func() { e.assumeWF(st, m.elem, v) }()
			}
		case t.lo != nil:
			arr := c.Select(mem, t.ref)
			h := c.Fresh("mod", arr.sort)
			k := c.FreshVar("k", SInt)
			e.assume(st, c.Forall([]*Term{k}, c.Implies(c.Not(c.And(c.Le(t.lo, k), c.Lt(k, t.hi))), c.Eq(c.Select(h, k), c.Select(arr, k)))))
			st.mem[t.key] = c.Store(mem, t.ref, h)
		default:
			h := c.Fresh("mod", arrElem(mem.sort))
			st.mem[t.key] = c.Store(mem, t.ref, h)
		}
	}
}

// frameException: may the object r of memory k be changed according to the root's modifies clause?
func (e *Engine) frameException(k string, r, idx *Term) *Term {
	c := e.c
	if e.con == nil {
		return nil
	}
	if e.con.modAll {
		return c.True()
	}
	var out []*Term
	for _, t := range e.frameMods {
		if t.key != k {
			continue
		}
		if t.all {
			return c.True()
		}
		out = append(out, c.Eq(r, t.ref))
	}
	return c.Or(out...)
}

// frameRefs lists the objects of memory k of which the root may change a part.
func (e *Engine) frameRefs(k string) (out []*Term) {
	seen := map[*Term]bool{}
	for _, t := range e.frameMods {
		if t.key == k && !t.all && !seen[t.ref] {
			seen[t.ref] = true
			out = append(out, t.ref)
		}
	}
	return
}

// frameInside: may element kv of the object ref of memory k be changed?
func (e *Engine) frameInside(k string, ref, kv *Term) *Term {
	c := e.c
	var exs []*Term
	for _, t := range e.frameMods {
		if t.key != k {
			continue
		}
		eqr := c.Eq(t.ref, ref)
		switch {
		case t.idx != nil:
			exs = append(exs, c.And(eqr, c.Eq(kv, t.idx)))
		case t.lo != nil:
			exs = append(exs, c.And(eqr, c.Le(t.lo, kv), c.Lt(kv, t.hi)))
		default:
			exs = append(exs, eqr)
		}
	}
	return c.Or(exs...)
}

func (e *Engine) deferCall(fr *Frame, st *State, x *ssa.Defer) {
	if f := x.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "os" {
		e.trusted["defer "+f.String()] = true
		return
	}
	panic(unsupported("defer " + x.Call.String()))
}

// ---- functions outside the repository ----

func (e *Engine) external(st *State, fn *ssa.Function, args []Val) (Val, bool) {
	c := e.c
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Path()
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		pk = fn.Origin().Pkg.Pkg.Path()
	}
	name := fn.Name()
	T := func(i int) *Term { return e.asTermOf(st, args[i]) }
	zero := c.RealI(0)
	if pk == "math" {
		switch name {
		case "Sqrt":
			x := T(0)
			if !(e.con != nil && e.con.allowDiv0) {
				e.mayPanicUnless(st, "div", "square root of a non-negative number", c.Le(zero, x))
			}
			return e.sqrtOf(x), true
		case "Abs":
			x := T(0)
			return c.Ite(c.Le(zero, x), x, c.Neg(x)), true
		case "Max":
			return c.Ite(c.Le(T(1), T(0)), T(0), T(1)), true
		case "Min":
			return c.Ite(c.Le(T(0), T(1)), T(0), T(1)), true
		case "Cos":
			_, cs := e.sinCos(T(0))
			return cs, true
		case "Sin":
			s, _ := e.sinCos(T(0))
			return s, true
		case "Sincos":
			s, cs := e.sinCos(T(0))
			return Tuple{s, cs}, true
		case "Floor":
			return c.ToReal(c.Floor(T(0))), true
		case "Ceil":
			return c.Neg(c.ToReal(c.Floor(c.Neg(T(0))))), true
		case "Trunc":
			x := T(0)
			return c.Ite(c.Le(zero, x), c.ToReal(c.Floor(x)), c.Neg(c.ToReal(c.Floor(c.Neg(x))))), true
		case "Inf":
			x := T(0)
			if x.op == "num" {
				if x.num.Sign() >= 0 {
					return e.infinity(), true
				}
				return c.Neg(e.infinity()), true
			}
			return c.Ite(c.Le(c.Int(0), x), e.infinity(), c.Neg(e.infinity())), true
		case "IsNaN":
			e.assumed["no NaN reaches the function (real arithmetic)"] = true
			return c.False(), true
		case "IsInf":
			x, s := T(0), T(1)
			inf := e.infinity()
			return c.Or(c.And(c.Le(c.Int(0), s), c.Eq(x, inf)), c.And(c.Le(s, c.Int(0)), c.Eq(x, c.Neg(inf)))), true
		case "Pow":
			if y := T(1); y.op == "num" && y.num.IsInt() && y.num.Num().Int64() >= 0 && y.num.Num().Int64() <= 8 {
				r := c.RealI(1)
				for i := int64(0); i < y.num.Num().Int64(); i++ {
					r = c.Mul(r, T(0))
				}
				return r, true
			}
		case "Hypot":
			return e.sqrtOf(c.Add(c.Mul(T(0), T(0)), c.Mul(T(1), T(1)))), true
		case "Signbit":
			return c.Lt(T(0), zero), true
		}
	}
	switch pk {
	case "fmt":
		switch name {
		case "Println", "Printf", "Print", "Fprintf", "Fprintln", "Fprint":
			e.trusted["fmt."+name+": no effect on program data"] = true
			return Tuple{c.Fresh("n", SInt), c.Fresh("err", SInt)}, true
		}
	case "log":
		if strings.HasPrefix(name, "Print") {
			e.trusted["log."+name+": no effect on program data"] = true
			return nil, true
		}
		if strings.HasPrefix(name, "Fatal") || strings.HasPrefix(name, "Panic") {
			e.panicSite(st)
			return nil, false
		}
	}
	if r, ok := e.externalStr(st, fn, pk, name, args); ok {
		return r, true
	}
	if r, ok := e.externalSort(st, pk, name, args); ok {
		return r, true
	}
	if r, ok, done := e.externalMisc(st, fn, pk, name, args); done {
		return r, ok
	}
	// scalar functions of the standard library: an unknown but fixed function
	sig := fn.Signature
	pure := sig.Recv() == nil && sig.Results().Len() >= 1 && (pk == "math" || pk == "strconv" || pk == "unicode" || pk == "math/bits")
	for i := 0; i < sig.Params().Len(); i++ {
		if !isScalar(sig.Params().At(i).Type()) {
			pure = false
		}
	}
	if pure {
		var as []*Term
		var ss []string
		for i := range args {
			as = append(as, T(i))
			ss = append(ss, as[i].sort)
		}
		e.trusted[fn.String()+": some fixed function of its arguments"] = true
		var out Tuple
		for i := 0; i < sig.Results().Len(); i++ {
			rt := sig.Results().At(i).Type()
			n := fmt.Sprintf("ext$%s.%s.%d", sanitize(pk), name, i)
			s := c.SortOf(rt)
			if _, isdt := c.dts[s]; isdt {
				panic(unsupported("call of " + fn.String()))
			}
			c.Declare(n, s, ss...)
			v := c.App(n, s, as...)
			e.assumeWF(st, rt, v)
			out = append(out, v)
		}
		if len(out) == 1 {
			return out[0], true
		}
		return out, true
	}
	panic(unsupported("call of " + fn.String()))
}

func (e *Engine) invokeExternal(st *State, cc *ssa.CallCommon) (Val, bool) {
	if cc.Method.Name() == "Error" && cc.Signature().Params().Len() == 0 {
		return e.c.Fresh("errtext", SStr), true
	}
	return nil, false
}
