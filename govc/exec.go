package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn     *ssa.Function
	vals   map[ssa.Value]Val
	li     *LoopInfo
	parent *Frame
	depth  int
	path   string
	rets   []retInfo
	free   []Val
	loops  map[*Loop]*loopCtx
	exits  map[*Loop][]*Term // conditions under which the loop continues, seen in a dry run
	caller *loopCtx
	cells  map[*ssa.Alloc]*Cell
}

type retInfo struct {
	st   *State
	vals []Val
}

type inEdge struct {
	pred *ssa.BasicBlock
	st   *State
}

func (e *Engine) curLoop(fr *Frame, b *ssa.BasicBlock) *loopCtx {
	for l := fr.li.inner[b]; l != nil; l = l.parent {
		if lc := fr.loops[l]; lc != nil {
			return lc
		}
	}
	return fr.caller
}

// execFunc runs fn on args from st and returns the merged state and results.
// A nil state means the function never returns normally.
func (e *Engine) execFunc(fn *ssa.Function, args []Val, free []Val, st *State, parent *Frame, caller *loopCtx, site string) (*State, []Val, []retInfo) {
	depth := 0
	path := ""
	if parent != nil {
		depth = parent.depth + 1
		path = parent.path + "/" + site
	}
	if depth > e.maxDepth {
		panic(unsupported("inlining too deep at " + fn.String()))
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body for " + fn.String()))
	}
	for _, f := range e.stackFns {
		if f == fn {
			panic(unsupported("recursion through " + fn.String() + " without a contract"))
		}
	}
	e.stackFns = append(e.stackFns, fn)
	defer func() { e.stackFns = e.stackFns[:len(e.stackFns)-1] }()
	fr := &Frame{fn: fn, vals: map[ssa.Value]Val{}, li: analyseLoops(fn), parent: parent, depth: depth, path: path,
		free: free, loops: map[*Loop]*loopCtx{}, exits: map[*Loop][]*Term{}, caller: caller, cells: map[*ssa.Alloc]*Cell{}}
	if fr.li.irred {
		panic(unsupported("irreducible control flow in " + fn.String()))
	}
	for i, p := range fn.Params {
		fr.vals[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.vals[f] = free[i]
	}
	in := map[*ssa.BasicBlock][]inEdge{fn.Blocks[0]: {{nil, st}}}
	e.runBlocks(fr, fr.li.order, in, nil)
	if len(fr.rets) == 0 {
		return nil, nil, nil
	}
	var ss []*State
	for _, r := range fr.rets {
		ss = append(ss, r.st)
	}
	out := e.mergeStates(ss)
	nres := fn.Signature.Results().Len()
	res := make([]Val, nres)
	for i := 0; i < nres; i++ {
		var vs []Val
		for _, r := range fr.rets {
			vs = append(vs, r.vals[i])
		}
		res[i] = e.mergeVals(ss, out.pc, vs)
	}
	return out, res, fr.rets
}

func (e *Engine) mergeVals(ss []*State, all *Term, vs []Val) Val {
	same := true
	for _, v := range vs[1:] {
		if !sameVal(v, vs[0]) {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	if t0, ok := vs[0].(Tuple); ok {
		out := make(Tuple, len(t0))
		for i := range t0 {
			var xs []Val
			for _, v := range vs {
				xs = append(xs, v.(Tuple)[i])
			}
			out[i] = e.mergeVals(ss, all, xs)
		}
		return out
	}
	r := e.asTerm(ss[len(ss)-1], vs[len(vs)-1])
	for i := len(ss) - 2; i >= 0; i-- {
		r = e.c.Ite(e.relCond(ss[i].pc, all), e.asTerm(ss[i], vs[i]), r)
	}
	return r
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *Place:
		y, ok := b.(*Place)
		if !ok || x.cell != y.cell || x.ptr != y.ptr || len(x.path) != len(y.path) {
			return false
		}
		for i := range x.path {
			if x.path[i].field != y.path[i].field || x.path[i].idx != y.path[i].idx {
				return false
			}
		}
		return true
	case *Closure:
		y, ok := b.(*Closure)
		if !ok || x.fn != y.fn || len(x.bindings) != len(y.bindings) {
			return false
		}
		for i := range x.bindings {
			if !sameVal(x.bindings[i], y.bindings[i]) {
				return false
			}
		}
		return true
	case nil:
		return b == nil
	}
	return a == b
}

// runBlocks executes blocks in order. dryLoop, when set, is the loop whose body
// is explored: edges leaving it are dropped, back edges to its header returned.
func (e *Engine) runBlocks(fr *Frame, order []*ssa.BasicBlock, in map[*ssa.BasicBlock][]inEdge, dryLoop *Loop) (back []inEdge) {
	push := func(from, to *ssa.BasicBlock, st *State) {
		if st.pc.op == "false" {
			return
		}
		if l := fr.li.byHeader[to]; l != nil && l.blocks[from] { // back edge
			if l == dryLoop {
				back = append(back, inEdge{from, st})
				return
			}
			if lc := fr.loops[l]; lc != nil {
				e.backEdge(fr, lc, from, st)
			}
			return
		}
		if dryLoop != nil && !dryLoop.blocks[to] {
			return
		}
		in[to] = append(in[to], inEdge{from, st})
	}
	for _, b := range order {
		if dryLoop != nil && !dryLoop.blocks[b] {
			continue
		}
		edges := in[b]
		if len(edges) == 0 {
			continue
		}
		var st *State
		if l := fr.li.byHeader[b]; l != nil && l != dryLoop {
			st = e.enterLoop(fr, l, edges)
		} else if l != nil && l == dryLoop {
			st = edges[0].st // header state prepared by the caller, phis already bound
		} else {
			var ss []*State
			for _, x := range edges {
				ss = append(ss, x.st)
			}
			st = e.mergeStates(ss)
			e.bindPhis(fr, b, edges, ss, st)
		}
		dead := false
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Phi); ok {
				continue
			}
			if ins.Pos().IsValid() {
				e.curPos = ins.Pos()
			}
			switch x := ins.(type) {
			case *ssa.If:
				cond := e.val(fr, st, x.Cond).(*Term)
				if dryLoop != nil || len(fr.loops) > 0 {
					for l := fr.li.inner[b]; l != nil; l = l.parent {
						if !l.blocks[b.Succs[0]] {
							fr.exits[l] = append(fr.exits[l], e.c.Not(cond))
						} else if !l.blocks[b.Succs[1]] {
							fr.exits[l] = append(fr.exits[l], cond)
						}
					}
				}
				s1, s2 := st.clone(), st.clone()
				s1.pc = e.c.And(st.pc, cond)
				s2.pc = e.c.And(st.pc, e.c.Not(cond))
				push(b, b.Succs[0], s1)
				push(b, b.Succs[1], s2)
			case *ssa.Jump:
				push(b, b.Succs[0], st)
			case *ssa.Return:
				var vs []Val
				for _, r := range x.Results {
					vs = append(vs, e.val(fr, st, r))
				}
				fr.rets = append(fr.rets, retInfo{st, vs})
			case *ssa.Panic:
				e.panicSite(st)
			default:
				if !e.instr(fr, st, b, ins) {
					dead = true
				}
			}
			if dead {
				break
			}
		}
	}
	return back
}

func (e *Engine) panicSite(st *State) {
	if e.con != nil && e.con.mayPanic {
		return
	}
	goal := e.c.False()
	if e.panicC != nil {
		goal = e.panicC
	}
	e.oblige(st, "panic", "panic only when permitted", goal)
}

func (e *Engine) bindPhis(fr *Frame, b *ssa.BasicBlock, edges []inEdge, ss []*State, st *State) {
	var phis []*ssa.Phi
	var vals []Val
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []Val
		for _, x := range edges {
			for i, pr := range b.Preds {
				if pr == x.pred {
					vs = append(vs, e.val(fr, x.st, p.Edges[i]))
					break
				}
			}
		}
		phis = append(phis, p)
		vals = append(vals, e.mergeVals(ss, st.pc, vs))
	}
	for i, p := range phis {
		fr.vals[p] = vals[i]
	}
}

// val evaluates an SSA operand.
func (e *Engine) val(fr *Frame, st *State, v ssa.Value) Val {
	if x, ok := fr.vals[v]; ok {
		return x
	}
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return &Place{cell: e.globalCell(x), base: x.Type().Underlying().(*types.Pointer).Elem()}
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Builtin:
		return x
	}
	panic(unsupported(fmt.Sprintf("value %s (%T) not defined on this path", v.Name(), v)))
}

func (e *Engine) constVal(k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		return e.c.Zero(t)
	}
	return e.constTerm(k.Value, t)
}

func (e *Engine) constTerm(v constant.Value, t types.Type) *Term {
	c := e.c
	switch {
	case isFloat(t):
		r := constRat(v)
		return c.Num(r, SReal)
	case isInteger(t):
		return c.Num(constRat(constant.ToInt(v)), SInt)
	case isString(t):
		return c.StrLit(constant.StringVal(v))
	}
	if v.Kind() == constant.Bool {
		return c.Bool(constant.BoolVal(v))
	}
	panic(unsupported("constant " + v.String()))
}

// constRat: the exact value of the float64 a constant denotes.
func constRat(v constant.Value) *big.Rat {
	if v.Kind() == constant.Int {
		r, _ := new(big.Rat).SetString(v.ExactString())
		return r
	}
	f, _ := constant.Float64Val(v)
	if math.IsInf(f, 0) {
		r, _ := new(big.Rat).SetString(v.ExactString())
		return r
	}
	return new(big.Rat).SetFloat64(f)
}

func (e *Engine) globalCell(g *ssa.Global) *Cell {
	if c, ok := e.globals[g]; ok {
		return c
	}
	c := e.newCell(g.Type().Underlying().(*types.Pointer).Elem(), g.String())
	c.glob = g
	e.globals[g] = c
	return c
}

// globalInit: the value of a package variable at function entry. A variable
// that is only assigned in its declaration has the declared value.
func (e *Engine) globalInit(st *State, c *Cell) *Term {
	g := c.glob
	if g == nil {
		panic(unsupported("cell " + c.name + " read before it is set"))
	}
	sorted := e.c.Const("glob$"+sanitize(g.String()), e.c.SortOf(c.typ))
	var init ssa.Value
	n := 0
	for _, fn := range e.prog.funcs {
		if fn.Pkg != g.Pkg && !ast_exported(g.Name()) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch x := ins.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						if x.Addr == ssa.Value(g) && fn.Name() == "init" {
							init = x.Val
							n++
						} else {
							return sorted
						}
					case *ssa.FieldAddr:
						// reading a component; writes through it are looked for below
						for _, r := range *x.Referrers() {
							if _, ok := r.(*ssa.UnOp); !ok {
								return sorted
							}
						}
					default:
						return sorted
					}
				}
			}
		}
	}
	if n > 1 {
		return sorted
	}
	if init == nil {
		return e.c.Zero(c.typ)
	}
	if t := e.evalInit(init); t != nil {
		return t
	}
	return sorted
}

func ast_exported(s string) bool { return s != "" && s[0] >= 'A' && s[0] <= 'Z' }

func (e *Engine) evalInit(v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x).(*Term)
	case *ssa.BinOp:
		a, b := e.evalInit(x.X), e.evalInit(x.Y)
		if a == nil || b == nil || a.op != "num" || b.op != "num" || !isFloat(x.Type()) {
			return nil
		}
		fa, _ := a.num.Float64()
		fb, _ := b.num.Float64()
		var r float64
		switch x.Op {
		case token.ADD:
			r = fa + fb
		case token.SUB:
			r = fa - fb
		case token.MUL:
			r = fa * fb
		case token.QUO:
			r = fa / fb
		default:
			return nil
		}
		return e.c.Num(new(big.Rat).SetFloat64(r), SReal)
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "math" {
			return nil
		}
		var as []float64
		for _, a := range x.Call.Args {
			t := e.evalInit(a)
			if t == nil || t.op != "num" {
				return nil
			}
			q, _ := t.num.Float64()
			as = append(as, q)
		}
		switch f.Name() {
		case "Nextafter":
			return e.c.Num(new(big.Rat).SetFloat64(math.Nextafter(as[0], as[1])), SReal)
		case "Inf":
			inf := e.infinity()
			if as[0] < 0 {
				return e.c.Neg(inf)
			}
			return inf
		}
	}
	return nil
}

func (e *Engine) maxFloat() *Term {
	return e.c.Num(new(big.Rat).SetFloat64(math.MaxFloat64), SReal)
}

// infinity is a real larger than twice every finite float64.
func (e *Engine) infinity() *Term {
	t := e.c.RawConst("float$Inf", SReal)
	if !e.wfDone["inf"] {
		if e.dry == 0 {
			e.wfDone["inf"] = true
		}
		two := e.c.Mul(e.c.RealI(4), e.maxFloat())
		e.facts = append(e.facts, &Fact{t: e.c.Lt(two, t)})
		e.assumed["the float64 value +Inf is modelled as a real above every finite value; no arithmetic on infinities"] = true
	}
	return t
}

// ---- instructions ----

// instr executes one non-control instruction; false means execution cannot continue.
func (e *Engine) instr(fr *Frame, st *State, b *ssa.BasicBlock, ins ssa.Instruction) bool {
	c := e.c
	switch x := ins.(type) {
	case *ssa.Alloc:
		el := x.Type().Underlying().(*types.Pointer).Elem()
		if at, ok := el.Underlying().(*types.Array); ok && (isSliced(x) && !lazyArray(x) || at.Len() > maxTuple) {
			ref := e.newRef(st, c.Int(at.Len()))
			m := e.memFor(at.Elem())
			st.mem[m.key] = c.Store(e.getMem(st, m.key), ref, c.ConstArr(arrSort(SInt, c.SortOf(at.Elem())), c.Zero(at.Elem())))
			fr.vals[x] = &ArrObj{ref: ref, n: at.Len(), elem: at.Elem()}
			return true
		}
		if e.heap[x] {
			ref := e.newRef(st, c.Int(1))
			m := e.memFor(el)
			st.mem[m.key] = c.Store(e.getMem(st, m.key), ref, c.ConstArr(arrSort(SInt, c.SortOf(el)), c.Zero(el)))
			fr.vals[x] = c.App("mkPtr", SPtr, ref, c.Int(0))
			return true
		}
		cell := fr.cells[x]
		if cell == nil {
			cell = e.newCell(el, fr.fn.Name()+"."+x.Comment)
			fr.cells[x] = cell
			cellAlloc[cell] = x
		}
		st.cells[cell] = c.Zero(el)
		fr.vals[x] = &Place{cell: cell, base: el}
	case *ssa.Store:
		av := e.val(fr, st, x.Addr)
		v := e.asTermOf(st, e.val(fr, st, x.Val))
		p := e.asPlace(av, x.Addr.Type())
		e.nilCheck(st, p)
		e.storePlace(st, p, v)
	case *ssa.UnOp:
		v := e.val(fr, st, x.X)
		switch x.Op {
		case token.MUL:
			if ao, ok := v.(*ArrObj); ok {
				fr.vals[x] = e.loadArr(st, ao, x.Type())
				break
			}
			p := e.asPlace(v, x.X.Type())
			e.nilCheck(st, p)
			fr.vals[x] = e.loadPlace(st, p)
		case token.SUB:
			fr.vals[x] = e.wrap(x.Type(), c.Neg(v.(*Term)))
		case token.NOT:
			fr.vals[x] = c.Not(v.(*Term))
		default:
			panic(unsupported("operator " + x.Op.String()))
		}
	case *ssa.BinOp:
		fr.vals[x] = e.binop(fr, st, x)
	case *ssa.ChangeType:
		fr.vals[x] = e.val(fr, st, x.X)
	case *ssa.ChangeInterface:
		fr.vals[x] = e.val(fr, st, x.X)
	case *ssa.Convert:
		fr.vals[x] = e.convert(st, e.val(fr, st, x.X), x.X.Type(), x.Type())
	case *ssa.MakeInterface:
		v := e.val(fr, st, x.X)
		fr.vals[x] = &Iface{v: v, typ: x.X.Type()}
	case *ssa.Extract:
		t := e.val(fr, st, x.Tuple).(Tuple)
		fr.vals[x] = t[x.Index]
	case *ssa.Field:
		v := e.asTermOf(st, e.val(fr, st, x.X))
		fr.vals[x] = c.Sel(v, x.Field)
	case *ssa.FieldAddr:
		v := e.val(fr, st, x.X)
		p := e.asPlace(v, x.X.Type())
		e.nilCheck(st, p)
		ft := x.Type().Underlying().(*types.Pointer).Elem()
		e.c.SortOf(p.typ())
		fr.vals[x] = &Place{cell: p.cell, ptr: p.ptr, base: p.base, path: append(append([]PathElem{}, p.path...), PathElem{field: x.Field, typ: ft})}
	case *ssa.IndexAddr:
		idx := e.val(fr, st, x.Index).(*Term)
		el := x.Type().Underlying().(*types.Pointer).Elem()
		switch xt := x.X.Type().Underlying().(type) {
		case *types.Slice:
			s := e.asTermOf(st, e.val(fr, st, x.X))
			e.mayPanicUnless(st, "index", "index in range", c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Sel(s, 2))))
			fr.vals[x] = &Place{ptr: c.App("mkPtr", SPtr, c.Sel(s, 0), c.Add(c.Sel(s, 1), idx)), base: el}
		case *types.Pointer:
			n := xt.Elem().Underlying().(*types.Array).Len()
			e.mayPanicUnless(st, "index", "index in range", c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Int(n))))
			v := e.val(fr, st, x.X)
			if ao, ok := v.(*ArrObj); ok {
				fr.vals[x] = &Place{ptr: c.App("mkPtr", SPtr, ao.ref, idx), base: el}
				break
			}
			p := e.asPlace(v, x.X.Type())
			e.nilCheck(st, p)
			e.c.SortOf(p.typ())
			fr.vals[x] = &Place{cell: p.cell, ptr: p.ptr, base: p.base, path: append(append([]PathElem{}, p.path...), PathElem{field: -1, idx: idx, typ: el})}
		default:
			panic(unsupported("IndexAddr on " + xt.String()))
		}
	case *ssa.Index:
		idx := e.val(fr, st, x.Index).(*Term)
		v := e.asTermOf(st, e.val(fr, st, x.X))
		if isString(x.X.Type()) {
			e.mayPanicUnless(st, "index", "index in range", c.And(c.Le(c.Int(0), idx), c.Lt(idx, e.blen(v))))
			c.Declare("byte_at", SInt, SStr, SInt)
			fr.vals[x] = c.App("byte_at", SInt, v, idx)
			break
		}
		n := x.X.Type().Underlying().(*types.Array).Len()
		e.mayPanicUnless(st, "index", "index in range", c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Int(n))))
		fr.vals[x] = e.pathSel(v, PathElem{field: -1, idx: idx})
	case *ssa.Slice:
		return e.sliceOp(fr, st, x)
	case *ssa.MakeSlice:
		n := e.val(fr, st, x.Len).(*Term)
		cp := e.val(fr, st, x.Cap).(*Term)
		e.mayPanicUnless(st, "make", "make length is not negative", c.And(c.Le(c.Int(0), n), c.Le(n, cp)))
		el := x.Type().Underlying().(*types.Slice).Elem()
		ref := e.newRef(st, cp)
		m := e.memFor(el)
		st.mem[m.key] = c.Store(e.getMem(st, m.key), ref, c.ConstArr(arrSort(SInt, c.SortOf(el)), c.Zero(el)))
		fr.vals[x] = c.App("mkSlc", SSlc, ref, c.Int(0), n, cp)
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		ref := e.newRef(st, nil)
		dk, _ := e.mapKeys(mt)
		ds := e.mems[dk].sort
		st.mem[dk] = c.Store(e.getMem(st, dk), ref, c.ConstArr(arrElem(ds), c.False()))
		fr.vals[x] = ref
	case *ssa.MapUpdate:
		mt := x.Map.Type().Underlying().(*types.Map)
		ref := e.asTermOf(st, e.val(fr, st, x.Map))
		k := e.asTermOf(st, e.val(fr, st, x.Key))
		v := e.asTermOf(st, e.val(fr, st, x.Value))
		e.mayPanicUnless(st, "nil", "map is not nil", c.Not(c.Eq(ref, c.Int(0))))
		e.mapSet(st, mt, ref, k, v)
	case *ssa.Lookup:
		if isString(x.X.Type()) {
			s := e.asTermOf(st, e.val(fr, st, x.X))
			idx := e.val(fr, st, x.Index).(*Term)
			e.mayPanicUnless(st, "index", "index in range", c.And(c.Le(c.Int(0), idx), c.Lt(idx, e.blen(s))))
			c.Declare("byte_at", SInt, SStr, SInt)
			v := c.App("byte_at", SInt, s, idx)
			e.assume(st, c.And(c.Le(c.Int(0), v), c.Lt(v, c.Int(256))))
			fr.vals[x] = v
			break
		}
		mt := x.X.Type().Underlying().(*types.Map)
		ref := e.asTermOf(st, e.val(fr, st, x.X))
		k := e.asTermOf(st, e.val(fr, st, x.Index))
		in := e.mapIn(st, mt, ref, k)
		v := e.mapGet(st, mt, ref, k)
		if x.CommaOk {
			fr.vals[x] = Tuple{v, in}
		} else {
			fr.vals[x] = v
		}
	case *ssa.Range:
		fr.vals[x] = e.rangeStart(fr, st, x)
	case *ssa.Next:
		fr.vals[x] = e.rangeNext(fr, st, x)
	case *ssa.MakeClosure:
		var bs []Val
		for _, bv := range x.Bindings {
			bs = append(bs, e.val(fr, st, bv))
		}
		fr.vals[x] = &Closure{fn: x.Fn.(*ssa.Function), bindings: bs}
	case *ssa.Call:
		res, ok := e.call(fr, st, b, x.Common(), x)
		if !ok {
			return false
		}
		fr.vals[x] = res
	case *ssa.Defer:
		e.deferCall(fr, st, x)
	case *ssa.RunDefers, *ssa.DebugRef:
	case *ssa.TypeAssert:
		v := e.val(fr, st, x.X)
		if i, ok := v.(*Iface); ok && types.Identical(i.typ, x.AssertedType) {
			if x.CommaOk {
				fr.vals[x] = Tuple{i.v, c.True()}
			} else {
				fr.vals[x] = i.v
			}
			break
		}
		panic(unsupported("type assertion"))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T (%s)", ins, ins)))
	}
	return true
}

// Iface is an interface value whose dynamic value is known.
type Iface struct {
	v   Val
	typ types.Type
}

func (e *Engine) asTermOf(st *State, v Val) *Term {
	if i, ok := v.(*Iface); ok {
		if t, ok := i.v.(*Term); ok && (t.sort == SInt || t.sort == SStr) {
			// interface values are opaque non-nil numbers
			e.c.Declare("iface$"+sanitize(typeKey(i.typ)), SInt, t.sort)
			r := e.c.App("iface$"+sanitize(typeKey(i.typ)), SInt, t)
			e.assume(st, e.c.Lt(e.c.Int(0), r))
			return r
		}
		r := e.c.Fresh("iface", SInt)
		e.assume(st, e.c.Lt(e.c.Int(0), r))
		return r
	}
	return e.asTerm(st, v)
}

func (e *Engine) loadArr(st *State, ao *ArrObj, t types.Type) *Term {
	s := e.c.SortOf(t)
	d := e.c.dts[s]
	var args []*Term
	m := e.memFor(ao.elem)
	arr := e.c.Select(e.getMem(st, m.key), ao.ref)
	for i := int64(0); i < ao.n; i++ {
		args = append(args, e.c.Select(arr, e.c.Int(i)))
	}
	return e.c.App(d.ctor, s, args...)
}

func (e *Engine) nilCheck(st *State, p *Place) {
	if p.cell != nil || p.ptr == nil {
		return
	}
	ref := e.c.Sel(p.ptr, 0)
	if e.wfDone[fmt.Sprintf("nn%d", ref.id)] {
		return
	}
	e.mayPanicUnless(st, "nil", "pointer is not nil", e.c.Not(e.c.Eq(ref, e.c.Int(0))))
}

func isSliced(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if _, ok := r.(*ssa.Slice); ok {
			return true
		}
	}
	return false
}

// lazyArray: a small array that is filled by constant-index stores and sliced whole,
// the slice being used only as the variadic part of append or of a formatting call.
func lazyArray(a *ssa.Alloc) bool {
	at := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if at.Len() > maxTuple || at.Len() == 0 {
		return false
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			if _, ok := x.Index.(*ssa.Const); !ok {
				return false
			}
			for _, rr := range *x.Referrers() {
				if s, ok := rr.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
					continue
				}
				if f, ok := rr.(*ssa.FieldAddr); ok && onlyStores(f) {
					continue
				}
				return false
			}
		case *ssa.Slice:
			if x.Low != nil || x.High != nil || x.Max != nil {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func onlyStores(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != v {
				return false
			}
		case *ssa.FieldAddr:
			if !onlyStores(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func lazyUse(s *ssa.Slice) bool {
	for _, r := range *s.Referrers() {
		c, ok := r.(*ssa.Call)
		if !ok {
			return false
		}
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(c.Call.Args) == 2 && c.Call.Args[1] == ssa.Value(s) && c.Call.Args[0] != ssa.Value(s) {
			continue
		}
		if f := c.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "fmt" {
			continue
		}
		return false
	}
	return true
}

func (e *Engine) sliceOp(fr *Frame, st *State, x *ssa.Slice) bool {
	c := e.c
	v := e.val(fr, st, x.X)
	var lo, hi *Term
	if x.Low != nil {
		lo = e.val(fr, st, x.Low).(*Term)
	} else {
		lo = c.Int(0)
	}
	if x.High != nil {
		hi = e.val(fr, st, x.High).(*Term)
	}
	switch xt := x.X.Type().Underlying().(type) {
	case *types.Pointer: // array
		at := xt.Elem().Underlying().(*types.Array)
		if ao, ok := v.(*ArrObj); ok {
			if hi == nil {
				hi = c.Int(ao.n)
			}
			mx := c.Int(ao.n)
			if x.Max != nil {
				mx = e.val(fr, st, x.Max).(*Term)
			}
			e.mayPanicUnless(st, "slice", "slice bounds in range", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, c.Int(ao.n))))
			fr.vals[x] = c.App("mkSlc", SSlc, ao.ref, lo, c.Sub(hi, lo), c.Sub(mx, lo))
			return true
		}
		p := e.asPlace(v, x.X.Type())
		if p.cell != nil && len(p.path) == 0 && x.Low == nil && x.High == nil {
			l := &LazySlice{cell: p.cell, st: st.cells[p.cell], n: int(at.Len()), elem: at.Elem()}
			if lazyUse(x) {
				fr.vals[x] = l
			} else {
				fr.vals[x] = e.materialise(st, l)
			}
			return true
		}
		panic(unsupported("slice of an array in place"))
	case *types.Slice:
		s := e.asTermOf(st, v)
		ln, cp := c.Sel(s, 2), c.Sel(s, 3)
		if hi == nil {
			hi = ln
		}
		mx := cp
		if x.Max != nil {
			mx = e.val(fr, st, x.Max).(*Term)
			e.mayPanicUnless(st, "slice", "slice bounds in range", c.And(c.Le(hi, mx), c.Le(mx, cp)))
		}
		e.mayPanicUnless(st, "slice", "slice bounds in range", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx)))
		if x.High != nil && hi != ln {
			// elements beyond the length are not modelled
			e.oblige(st, "reslice", "slice stays within the length", c.Le(hi, ln))
			e.assume(st, c.Le(hi, ln))
		}
		fr.vals[x] = c.App("mkSlc", SSlc, c.Sel(s, 0), c.Add(c.Sel(s, 1), lo), c.Sub(hi, lo), c.Sub(mx, lo))
		return true
	case *types.Basic: // string
		s := e.asTermOf(st, v)
		if hi == nil {
			hi = e.blen(s)
		}
		e.mayPanicUnless(st, "slice", "slice bounds in range", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, e.blen(s))))
		fr.vals[x] = e.substr(st, s, lo, hi)
		return true
	}
	panic(unsupported("slice expression"))
}

func (e *Engine) wrap(t types.Type, v *Term) *Term {
	if v.sort != SInt {
		return v
	}
	lo, hi, ok := intRange(t)
	if !ok {
		return v
	}
	c := e.c
	l, h := c.bigInt(lo), c.bigInt(hi)
	m := c.Sub(h, l)
	if v.op == "num" {
		return c.Add(c.IMod(c.Sub(v, l), m), l)
	}
	return c.Ite(c.And(c.Le(l, v), c.Lt(v, h)), v, c.Add(c.IMod(c.Sub(v, l), m), l))
}

func (e *Engine) idiv(a, b *Term) *Term {
	c := e.c
	if b.op == "num" && b.num.Sign() > 0 {
		if a.op == "num" && a.num.Sign() >= 0 {
			return c.IDiv(a, b)
		}
		return c.Ite(c.Le(c.Int(0), a), c.IDiv(a, b), c.Neg(c.IDiv(c.Neg(a), b)))
	}
	pos := c.Ite(c.Lt(c.Int(0), b), c.IDiv(a, b), c.Neg(c.IDiv(a, c.Neg(b))))
	na := c.Neg(a)
	neg := c.Ite(c.Lt(c.Int(0), b), c.Neg(c.IDiv(na, b)), c.IDiv(na, c.Neg(b)))
	return c.Ite(c.Le(c.Int(0), a), pos, neg)
}

func (e *Engine) irem(a, b *Term) *Term {
	c := e.c
	if b.op == "num" && b.num.Sign() > 0 {
		if a.op == "num" && a.num.Sign() >= 0 {
			return c.IMod(a, b)
		}
		return c.Ite(c.Le(c.Int(0), a), c.IMod(a, b), c.Neg(c.IMod(c.Neg(a), b)))
	}
	// the sign of the divisor does not matter
	ab := c.Ite(c.Lt(c.Int(0), b), b, c.Neg(b))
	return c.Ite(c.Le(c.Int(0), a), c.IMod(a, ab), c.Neg(c.IMod(c.Neg(a), ab)))
}

func (e *Engine) binop(fr *Frame, st *State, x *ssa.BinOp) Val {
	c := e.c
	av, bv := e.val(fr, st, x.X), e.val(fr, st, x.Y)
	if x.Op == token.EQL || x.Op == token.NEQ {
		r := e.eqVals(st, av, bv, x.X.Type())
		if x.Op == token.NEQ {
			r = c.Not(r)
		}
		return r
	}
	a, b := e.asTermOf(st, av), e.asTermOf(st, bv)
	t := x.X.Type()
	switch x.Op {
	case token.ADD:
		if isString(t) {
			return e.strCat(st, a, b)
		}
		return e.wrap(t, c.Add(a, b))
	case token.SUB:
		return e.wrap(t, c.Sub(a, b))
	case token.MUL:
		return e.wrap(t, c.Mul(a, b))
	case token.QUO:
		if isFloat(t) {
			if b.op != "num" || b.num.Sign() == 0 {
				if !(e.con != nil && e.con.allowDiv0) {
					e.mayPanicUnless(st, "div", "divisor is not zero", c.Not(c.Eq(b, c.RealI(0))))
				}
			}
			return c.Div(a, b)
		}
		e.mayPanicUnless(st, "idiv", "divisor is not zero", c.Not(c.Eq(b, c.Int(0))))
		return e.wrap(t, e.idiv(a, b))
	case token.REM:
		e.mayPanicUnless(st, "idiv", "divisor is not zero", c.Not(c.Eq(b, c.Int(0))))
		return e.irem(a, b)
	case token.SHL:
		if b.op == "num" && b.num.Num().Int64() < 63 && b.num.Sign() >= 0 {
			return e.wrap(t, c.Mul(a, c.Num(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(b.num.Num().Int64()))), SInt)))
		}
	case token.SHR:
		if b.op == "num" && b.num.Num().Int64() < 63 && b.num.Sign() >= 0 {
			return c.IDiv(a, c.Num(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(b.num.Num().Int64()))), SInt))
		}
	case token.AND:
		if b.op == "num" && b.num.Num().Int64() == 1 {
			return c.IMod(a, c.Int(2))
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isString(t) {
			c.Declare("str_lt", SBool, SStr, SStr)
			lt := func(p, q *Term) *Term { return c.App("str_lt", SBool, p, q) }
			switch x.Op {
			case token.LSS:
				return lt(a, b)
			case token.GTR:
				return lt(b, a)
			case token.LEQ:
				return c.Not(lt(b, a))
			default:
				return c.Not(lt(a, b))
			}
		}
		switch x.Op {
		case token.LSS:
			return c.Lt(a, b)
		case token.LEQ:
			return c.Le(a, b)
		case token.GTR:
			return c.Lt(b, a)
		default:
			return c.Le(b, a)
		}
	}
	panic(unsupported("operator " + x.Op.String() + " on " + t.String()))
}

func (e *Engine) eqVals(st *State, av, bv Val, t types.Type) *Term {
	c := e.c
	// comparisons with nil
	isNil := func(v Val) bool {
		tm, ok := v.(*Term)
		if !ok {
			return false
		}
		switch t.Underlying().(type) {
		case *types.Slice, *types.Pointer:
			r := c.Sel(tm, 0)
			return r.op == "num" && r.num.Sign() == 0
		case *types.Map, *types.Interface, *types.Signature, *types.Chan:
			return tm.op == "num" && tm.num.Sign() == 0
		}
		return false
	}
	if isNil(av) {
		av, bv = bv, av
	}
	if isNil(bv) {
		switch x := av.(type) {
		case *Place:
			if x.cell != nil || len(x.path) > 0 {
				return c.False()
			}
			av = x.ptr
		case *ArrObj, *Closure, *LazySlice, *Iface:
			return c.False()
		}
		tm := av.(*Term)
		if tm.sort == SSlc || tm.sort == SPtr {
			return c.Eq(c.Sel(tm, 0), c.Int(0))
		}
		return c.Eq(tm, c.Int(0))
	}
	pa, oka := av.(*Place)
	pb, okb := bv.(*Place)
	if oka && okb && (pa.cell != nil || pb.cell != nil) {
		if pa.cell != pb.cell {
			return c.False()
		}
		return c.Bool(sameVal(pa, pb))
	}
	if oka && pa.cell != nil || okb && pb.cell != nil {
		return c.False()
	}
	a, b := e.asTermOf(st, av), e.asTermOf(st, bv)
	if isString(t) {
		return e.strEq(st, a, b)
	}
	return c.Eq(a, b)
}

func (e *Engine) convert(st *State, v Val, from, to types.Type) Val {
	c := e.c
	ft, tt := from.Underlying(), to.Underlying()
	switch {
	case isFloat(from) && isFloat(to):
		if b := tt.(*types.Basic); b.Kind() == types.Float32 {
			if f := ft.(*types.Basic); f.Kind() != types.Float32 {
				return e.f32(v.(*Term))
			}
		}
		return v
	case isInteger(from) && isFloat(to):
		return c.ToReal(v.(*Term))
	case isFloat(from) && isInteger(to):
		x := v.(*Term)
		return e.wrap(to, c.Ite(c.Le(c.RealI(0), x), c.Floor(x), c.Neg(c.Floor(c.Neg(x)))))
	case isInteger(from) && isInteger(to):
		return e.wrap(to, v.(*Term))
	case isString(from) && isString(to):
		return v
	case isInteger(from) && isString(to):
		c.Declare("str_of_rune", SStr, SInt)
		s := c.App("str_of_rune", SStr, v.(*Term))
		e.assume(st, c.Eq(e.rlen(s), c.Int(1)))
		e.assume(st, c.Eq(e.rune(s, c.Int(0)), v.(*Term)))
		return s
	}
	if sl, ok := ft.(*types.Slice); ok && isString(to) {
		b := sl.Elem().Underlying().(*types.Basic)
		s := e.asTermOf(st, v)
		if b.Kind() == types.Int32 {
			return e.strOfRunes(st, s)
		}
		return e.strOfBytes(st, s)
	}
	if sl, ok := tt.(*types.Slice); ok && isString(from) {
		b := sl.Elem().Underlying().(*types.Basic)
		if b.Kind() == types.Int32 {
			return e.runesOfStr(st, v.(*Term), sl.Elem())
		}
		return e.bytesOfStr(st, v.(*Term), sl.Elem())
	}
	if c.SortOf(from) == c.SortOf(to) {
		return v
	}
	panic(unsupported("conversion " + from.String() + " to " + to.String()))
}

func (e *Engine) f32(x *Term) *Term {
	e.c.Declare("f32", SReal, SReal)
	return e.c.App("f32", SReal, x)
}

// ---- maps ----

func (e *Engine) mapKeys(mt *types.Map) (dom, val string) {
	ks, vs := e.c.SortOf(mt.Key()), e.c.SortOf(mt.Elem())
	k := typeKey(mt.Key()) + "," + typeKey(mt.Elem())
	dom, val = "MD:"+k, "MV:"+k
	e.memKeyOf(dom, arrSort(SInt, arrSort(ks, SBool)))
	e.memKeyOf(val, arrSort(SInt, arrSort(ks, vs)))
	e.mems[val].mapElem = mt.Elem()
	return
}

func (e *Engine) mapIn(st *State, mt *types.Map, ref, k *Term) *Term {
	dk, _ := e.mapKeys(mt)
	r := e.c.Select(e.c.Select(e.getMem(st, dk), ref), k)
	if ref.op == "num" && ref.num.Sign() == 0 {
		return e.c.False()
	}
	return r
}
func (e *Engine) mapRaw(st *State, mt *types.Map, ref, k *Term) *Term {
	_, vk := e.mapKeys(mt)
	return e.c.Select(e.c.Select(e.getMem(st, vk), ref), k)
}
func (e *Engine) mapGet(st *State, mt *types.Map, ref, k *Term) *Term {
	v := e.mapRaw(st, mt, ref, k)
	e.assumeWF(st, mt.Elem(), v)
	return e.c.Ite(e.mapIn(st, mt, ref, k), v, e.c.Zero(mt.Elem()))
}
func (e *Engine) mapSet(st *State, mt *types.Map, ref, k, v *Term) {
	c := e.c
	dk, vk := e.mapKeys(mt)
	d, m := e.getMem(st, dk), e.getMem(st, vk)
	st.mem[dk] = c.Store(d, ref, c.Store(c.Select(d, ref), k, c.True()))
	st.mem[vk] = c.Store(m, ref, c.Store(c.Select(m, ref), k, v))
}
func (e *Engine) mapDelete(st *State, mt *types.Map, ref, k *Term) {
	c := e.c
	dk, _ := e.mapKeys(mt)
	d := e.getMem(st, dk)
	st.mem[dk] = c.Store(d, ref, c.Store(c.Select(d, ref), k, c.False()))
}

// ---- range over strings and maps ----

// StrIter / MapIter keep the iteration state in ghost cells.
type StrIter struct {
	s    *Term
	cell *Cell // number of runes consumed
}
type MapIter struct {
	mt   *types.Map
	ref  *Term
	cell *Cell // set of visited keys
}

func (e *Engine) rangeStart(fr *Frame, st *State, x *ssa.Range) Val {
	c := e.c
	switch t := x.X.Type().Underlying().(type) {
	case *types.Map:
		ref := e.asTermOf(st, e.val(fr, st, x.X))
		cell := e.iterCell(fr, x, arrSort(c.SortOf(t.Key()), SBool))
		st.cells[cell] = c.ConstArr(cell.sort, c.False())
		return &MapIter{mt: t, ref: ref, cell: cell}
	case *types.Basic:
		s := e.asTermOf(st, e.val(fr, st, x.X))
		cell := e.iterCell(fr, x, SInt)
		st.cells[cell] = c.Int(0)
		e.assume(st, c.Le(c.Int(0), e.rlen(s)))
		return &StrIter{s: s, cell: cell}
	}
	panic(unsupported("range"))
}

func (e *Engine) iterCell(fr *Frame, x *ssa.Range, srt string) *Cell {
	// one ghost cell per range statement and frame
	for v, p := range fr.vals {
		if v == ssa.Value(x) {
			switch it := p.(type) {
			case *StrIter:
				return it.cell
			case *MapIter:
				return it.cell
			}
		}
	}
	cl := e.newCell(nil, "range")
	cl.ghost = true
	cl.sort = srt
	return cl
}

func (e *Engine) rangeNext(fr *Frame, st *State, x *ssa.Next) Val {
	c := e.c
	switch it := e.val(fr, st, x.Iter).(type) {
	case *StrIter:
		k := st.cells[it.cell]
		ok := c.Lt(k, e.rlen(it.s))
		st.cells[it.cell] = c.Ite(ok, c.Add(k, c.Int(1)), k)
		r := e.rune(it.s, k)
		e.assume(st, c.Implies(ok, c.And(c.Le(c.Int(0), r), c.Le(r, c.Int(0x10FFFF)))))
		return Tuple{ok, e.bpos(it.s, k), r}
	case *MapIter:
		seen := st.cells[it.cell]
		e.iterN++
		kt := it.mt.Key()
		ok := c.Fresh("mapok", SBool)
		key := c.Fresh("mapkey", c.SortOf(kt))
		e.assumeWF(st, kt, key)
		e.assume(st, c.Implies(ok, c.And(e.mapIn(st, it.mt, it.ref, key), c.Not(c.Select(seen, key)))))
		kv := c.FreshVar("k", c.SortOf(kt))
		e.assume(st, c.Implies(c.Not(ok), c.Forall([]*Term{kv}, c.Implies(e.mapIn(st, it.mt, it.ref, kv), c.Select(seen, kv)))))
		st.cells[it.cell] = c.Ite(ok, c.Store(seen, key, c.True()), seen)
		v := e.mapRaw(st, it.mt, it.ref, key)
		e.assumeWF(st, it.mt.Elem(), v)
		return Tuple{ok, key, v}
	}
	panic(unsupported("iteration"))
}

// bpos is the byte offset of rune k.
func (e *Engine) bpos(s, k *Term) *Term {
	e.c.Declare("bpos", SInt, SStr, SInt)
	return e.c.App("bpos", SInt, s, k)
}

var debug = os.Getenv("GOVC_DEBUG") != ""

func dbg(f string, a ...interface{}) {
	if debug {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func sortCells(m map[*Cell]*Term) []*Cell {
	var cs []*Cell
	for c := range m {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	return cs
}
