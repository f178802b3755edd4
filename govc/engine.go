package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- values ----

// Val is a symbolic value: *Term, *Place (an address), Tuple, *Closure, *LazySlice, *StrIter or *MapIter.
type Val interface{}
type Tuple []Val

type Closure struct {
	fn       *ssa.Function
	bindings []Val
}

// LazySlice is a slice over a local array whose elements are still register values.
type LazySlice struct {
	cell *Cell
	st   *Term // tuple value
	n    int
	elem types.Type
}

// ArrObj is the address of an array that lives in memory (it is sliced).
type ArrObj struct {
	ref  *Term
	n    int64
	elem types.Type
}

type Cell struct {
	id    int
	typ   types.Type
	name  string
	glob  *ssa.Global
	ghost bool
	sort  string
}

type PathElem struct {
	field int // tuple component, -1 if idx
	idx   *Term
	typ   types.Type // type of the component
}

// Place is an address: a local cell or a heap pointer, with a path of components.
type Place struct {
	cell *Cell
	ptr  *Term
	base types.Type // type of the object the path starts at
	path []PathElem
}

func (p *Place) typ() types.Type {
	if len(p.path) > 0 {
		return p.path[len(p.path)-1].typ
	}
	return p.base
}

type State struct {
	pc    *Term
	cells map[*Cell]*Term
	mem   map[string]*Term
	next  *Term
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, next: s.next, cells: make(map[*Cell]*Term, len(s.cells)), mem: make(map[string]*Term, len(s.mem))}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	return n
}

type Fact struct {
	t    *Term
	cand *Cand // nil: unconditional
	skip bool
	note string
}

type Cand struct {
	id    int
	desc  string
	loop  string
	alive bool
	user  bool
	named bool // an instance for the variables the contract names
}

type Obl struct {
	name   string // stable description
	kind   string // ensures, requires, index, nil, div, panic, frame, inv, term, lemma
	clause *Clause
	fn     string
	pos    string
	goal   *Term // pc => goal
	nfacts int
	cand   *Cand
	lc     *loopCtx // the loop of a preserved candidate
	entry  bool     // the entry half of an invariant candidate
	props  []string
	term   string // termination group
	choice int
	// result
	ok     bool
	by     string
	ms     int64
	detail string
	model  string
	deps   map[*Cand]bool
	known  bool
}

type memInfo struct {
	key     string
	sort    string
	elem    types.Type
	mapElem types.Type // of the values of a map
}

// Engine verifies one function against its contract.
type Engine struct {
	byName     bool             // the last template was instantiated with named variables
	valNames   map[*Term]string // source names of values, for metavariables
	asgNames   map[*ssa.Function]map[token.Pos]string
	instSk     map[*Term][]*Term // constants for the hypotheses of lemma instances
	c          *Ctx
	prog       *Program
	specs      *Specs
	fn         *ssa.Function
	con        *Contract
	facts      []*Fact
	obls       []*Obl
	cands      []*Cand
	dry        int
	quiet      int // obligations suppressed (evaluating closures in specifications)
	mems       map[string]*memInfo
	heap       map[*ssa.Alloc]bool
	loopMod    map[string]*modset
	panicC     *Term // entry-state condition under which the function panics; nil if never
	pre        *State
	ncell      int
	globals    map[*ssa.Global]*Cell
	funcTags   map[string]*Closure
	funcIDs    []string
	used       map[string]bool // contracts used
	trusted    map[string]bool // externals used
	assumed    map[string]bool
	inlined    map[string]bool
	noCon      map[string]bool // contracts not to be used (callee does not satisfy them)
	bind       map[string]SVal // spec names of the root
	results    []Val
	wfDone     map[string]bool
	mem0       map[string]bool
	seqApps    map[string]bool
	recDefs    map[string]*recInfo
	reveal     map[string]bool // sealed definitions in use
	sealedUsed bool
	loopCtxs   []*loopCtx
	maxDepth   int
	curPos     token.Pos
	stackFns   []*ssa.Function
	sumInst    map[string]bool
	noInit     bool
	iterN      int
	axioms     []*Fact
	termObls   map[string][]*Obl
	lemmasOn   map[string]bool
	frameMods  []modTarget
	nLoops     int
	nTermLoops int
	pureMemo   map[*ssa.Function]bool
	pureRes    map[string][]*Term
}

type Restart struct{ alloc *ssa.Alloc }

func NewEngine(prog *Program, specs *Specs) *Engine {
	e := &Engine{c: NewCtx(), prog: prog, specs: specs, mems: map[string]*memInfo{}, heap: map[*ssa.Alloc]bool{},
		loopMod: map[string]*modset{}, globals: map[*ssa.Global]*Cell{}, funcTags: map[string]*Closure{}, used: map[string]bool{},
		trusted: map[string]bool{}, assumed: map[string]bool{}, inlined: map[string]bool{}, noCon: map[string]bool{}, wfDone: map[string]bool{}, mem0: map[string]bool{},
		recDefs: map[string]*recInfo{}, reveal: map[string]bool{}, maxDepth: 12, termObls: map[string][]*Obl{}, lemmasOn: map[string]bool{}}
	return e
}

func (e *Engine) assume(st *State, f *Term) {
	t := e.c.Implies(st.pc, f)
	if t.op == "true" {
		return
	}
	e.facts = append(e.facts, &Fact{t: t})
}

func (e *Engine) assumeGlobal(f *Term) {
	if f.op == "true" {
		return
	}
	e.facts = append(e.facts, &Fact{t: f})
}

func (e *Engine) oblige(st *State, kind, name string, goal *Term) *Obl {
	if e.dry > 0 || e.quiet > 0 {
		return nil
	}
	g := e.c.Implies(st.pc, goal)
	pos := ""
	if e.curPos.IsValid() {
		p := e.prog.fset.Position(e.curPos)
		pos = fmt.Sprintf("%s:%d", trimRepo(p.Filename), p.Line)
	}
	o := &Obl{name: name, kind: kind, goal: g, nfacts: len(e.facts), pos: pos, fn: funcKey(e.fn)}
	e.obls = append(e.obls, o)
	return o
}

func trimRepo(s string) string {
	return strings.TrimPrefix(s, "/repo/")
}

// mayPanicUnless records that execution panics unless ok holds.
func (e *Engine) mayPanicUnless(st *State, kind, name string, ok *Term) {
	if ok.op == "true" {
		return
	}
	if !(e.con != nil && e.con.mayPanic) || kind == "div" {
		goal := ok
		if e.panicC != nil && kind != "div" {
			goal = e.c.Or(ok, e.panicC)
		}
		e.oblige(st, kind, name, goal)
	}
	if kind != "div" || true {
		e.assume(st, ok)
	}
}

// ---- memory ----

func (e *Engine) memFor(elem types.Type) *memInfo {
	key := "M:" + typeKey(elem)
	if m, ok := e.mems[key]; ok {
		return m
	}
	m := &memInfo{key: key, elem: elem, sort: arrSort(SInt, arrSort(SInt, e.c.SortOf(elem)))}
	e.mems[key] = m
	return m
}

func (e *Engine) memKeyOf(key string, srt string) {
	if _, ok := e.mems[key]; !ok {
		e.mems[key] = &memInfo{key: key, sort: srt}
	}
}

func (e *Engine) getMem(st *State, key string) *Term {
	if t, ok := st.mem[key]; ok {
		return t
	}
	m := e.mems[key]
	if m == nil {
		panic("no memory " + key)
	}
	t := e.c.RawConst("mem0$"+sanitize(shortKey(key)), m.sort)
	if e.dry == 0 && !e.mem0[key] && e.pre != nil {
		e.mem0[key] = true
		if f := e.memRefs(key, t, e.pre.next); f != nil {
			e.assumeGlobal(f)
		}
	}
	return t
}

// refsOf lists the references inside a value.
func (e *Engine) refsOf(t types.Type, v *Term, depth int, out *[]*Term) {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Pointer:
		*out = append(*out, e.c.Sel(v, 0))
	case *types.Map:
		*out = append(*out, v)
	case *types.Struct:
		for i := 0; i < u.NumFields() && depth < 3; i++ {
			e.refsOf(u.Field(i).Type(), e.c.Sel(v, i), depth+1, out)
		}
	}
}

// memRefs: what objects older than next hold refers to objects older than next.
func (e *Engine) memRefs(key string, mem, next *Term) *Term {
	return e.memRefsAt(key, mem, nil, next)
}

// memRefsAt: the same for one object's array, if arr is given.
func (e *Engine) memRefsAt(key string, mem, arr, next *Term) *Term {
	c := e.c
	m := e.mems[key]
	el := m.elem
	if el == nil {
		el = m.mapElem
	}
	if el == nil {
		return nil
	}
	var rs []*Term
	in := arrElem(mem.sort)
	r := c.FreshVar("r", SInt)
	k := c.FreshVar("k", arrIdx(in))
	at := arr
	if at == nil {
		at = c.Select(mem, r)
	}
	e.refsOf(el, c.Select(at, k), 0, &rs)
	if len(rs) == 0 {
		return nil
	}
	var fs []*Term
	for _, x := range rs {
		fs = append(fs, c.Lt(x, next))
	}
	var q *Term
	if arr != nil {
		q = c.Forall([]*Term{k}, c.And(fs...))
	} else {
		q = c.Forall([]*Term{r, k}, c.Implies(c.Lt(r, next), c.And(fs...)))
	}
	if q.op == "forall" {
		c.trigs[q] = [][]*Term{{c.Select(at, k)}}
	}
	return q
}

func (e *Engine) loadHeap(st *State, elem types.Type, ptr *Term) *Term {
	m := e.memFor(elem)
	v := e.c.Select(e.c.Select(e.getMem(st, m.key), e.c.Sel(ptr, 0)), e.c.Sel(ptr, 1))
	e.assumeWF(st, elem, v)
	return v
}

func (e *Engine) storeHeap(st *State, elem types.Type, ptr, v *Term) {
	m := e.memFor(elem)
	mem := e.getMem(st, m.key)
	ref := e.c.Sel(ptr, 0)
	st.mem[m.key] = e.c.Store(mem, ref, e.c.Store(e.c.Select(mem, ref), e.c.Sel(ptr, 1), v))
}

// assumeWF adds the facts every value of a Go type satisfies.
func (e *Engine) assumeWF(st *State, t types.Type, v *Term) {
	if v.bound {
		return
	}
	key := fmt.Sprintf("%d|%d|%s", v.id, st.pc.id, typeKey(t))
	if e.dry == 0 {
		if e.wfDone[key] {
			return
		}
		e.wfDone[key] = true
	}
	for _, f := range e.wf(st, t, v, 0) {
		e.assume(st, f)
	}
}

func (e *Engine) wf(st *State, t types.Type, v *Term, depth int) []*Term {
	c := e.c
	if lo, hi, ok := intRange(t); ok {
		if v.op == "num" {
			return nil
		}
		if b, isb := t.Underlying().(*types.Basic); isb && b.Kind() == types.Int32 {
			return []*Term{c.And(c.Le(c.bigInt(lo), v), c.Lt(v, c.bigInt(hi)))}
		}
		return []*Term{c.And(c.Le(c.bigInt(lo), v), c.Lt(v, c.bigInt(hi)))}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		ref, off, ln, cp := c.Sel(v, 0), c.Sel(v, 1), c.Sel(v, 2), c.Sel(v, 3)
		var fs []*Term
		fs = append(fs, c.Le(c.Int(0), ref), c.Lt(ref, st.next), c.Le(c.Int(0), off), c.Le(c.Int(0), ln), c.Le(ln, cp))
		fs = append(fs, c.Implies(c.Eq(ref, c.Int(0)), c.Eq(cp, c.Int(0))))
		fs = append(fs, c.Le(c.Add(off, cp), e.asz(ref)))
		return fs
	case *types.Pointer:
		ref, idx := c.Sel(v, 0), c.Sel(v, 1)
		return []*Term{c.Le(c.Int(0), ref), c.Lt(ref, st.next), c.Le(c.Int(0), idx),
			c.Implies(c.Eq(ref, c.Int(0)), c.Eq(idx, c.Int(0))),
			c.Implies(c.Not(c.Eq(ref, c.Int(0))), c.Lt(idx, e.asz(ref)))}
	case *types.Map, *types.Chan:
		return []*Term{c.Le(c.Int(0), v), c.Lt(v, st.next)}
	case *types.Interface:
		return []*Term{c.Le(c.Int(0), v)}
	case *types.Struct:
		if depth > 3 {
			return nil
		}
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, e.wf(st, u.Field(i).Type(), c.Sel(v, i), depth+1)...)
		}
		return fs
	case *types.Array:
		var fs []*Term
		if _, _, ok := intRange(u.Elem()); ok || !isScalar(u.Elem()) {
			d := c.dts[c.SortOf(t)]
			for i := range d.sorts {
				fs = append(fs, e.wf(st, u.Elem(), c.Sel(v, i), depth+1)...)
			}
		}
		return fs
	}
	if isString(t) {
		return []*Term{c.Le(c.Int(0), e.rlen(v)), c.Le(e.rlen(v), e.blen(v))}
	}
	return nil
}

func isScalar(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Basic:
		return true
	}
	return false
}

func (c *Ctx) bigInt(s string) *Term {
	r, ok := newRat(s)
	if !ok {
		panic("bad int " + s)
	}
	return c.Num(r, SInt)
}

// asz is the size of the array object a reference names.
func (e *Engine) asz(ref *Term) *Term {
	e.c.Declare("asz", SInt, SInt)
	return e.c.App("asz", SInt, ref)
}

func (e *Engine) rlen(s *Term) *Term {
	if l, ok := e.c.strLits[s]; ok {
		return e.c.Int(int64(len([]rune(l))))
	}
	e.c.Declare("rlen", SInt, SStr)
	return e.c.App("rlen", SInt, s)
}
func (e *Engine) blen(s *Term) *Term {
	if l, ok := e.c.strLits[s]; ok {
		return e.c.Int(int64(len(l)))
	}
	e.c.Declare("blen", SInt, SStr)
	return e.c.App("blen", SInt, s)
}
func (e *Engine) rune(s, i *Term) *Term {
	if l, ok := e.c.strLits[s]; ok && i.op == "num" {
		r := []rune(l)
		if k := int(i.num.Num().Int64()); k >= 0 && k < len(r) {
			return e.c.Int(int64(r[k]))
		}
	}
	e.c.Declare("rune_at", SInt, SStr, SInt)
	return e.c.App("rune_at", SInt, s, i)
}

// newRef allocates a fresh object of n elements.
func (e *Engine) newRef(st *State, n *Term) *Term {
	ref := st.next
	st.next = e.c.Add(st.next, e.c.Int(1))
	if n != nil {
		e.assume(st, e.c.Eq(e.asz(ref), n))
	}
	return ref
}

func (e *Engine) newCell(t types.Type, name string) *Cell {
	e.ncell++
	return &Cell{id: e.ncell, typ: t, name: name}
}

// ---- places ----

func (e *Engine) loadPlace(st *State, p *Place) *Term {
	var v *Term
	if p.cell != nil {
		v = st.cells[p.cell]
		if v == nil {
			v = e.globalInit(st, p.cell)
		}
	} else {
		v = e.loadHeap(st, p.base, p.ptr)
	}
	for _, pe := range p.path {
		v = e.pathSel(v, pe)
	}
	return v
}

func (e *Engine) pathSel(v *Term, pe PathElem) *Term {
	if pe.field >= 0 {
		return e.c.Sel(v, pe.field)
	}
	d := e.c.dts[v.sort]
	if pe.idx.op == "num" {
		return e.c.Sel(v, int(pe.idx.num.Num().Int64()))
	}
	r := e.c.Sel(v, len(d.sorts)-1)
	for i := len(d.sorts) - 2; i >= 0; i-- {
		r = e.c.Ite(e.c.Eq(pe.idx, e.c.Int(int64(i))), e.c.Sel(v, i), r)
	}
	return r
}

func (e *Engine) pathUpd(v *Term, path []PathElem, x *Term) *Term {
	if len(path) == 0 {
		return x
	}
	pe := path[0]
	if pe.field >= 0 {
		return e.c.Upd(v, pe.field, e.pathUpd(e.c.Sel(v, pe.field), path[1:], x))
	}
	d := e.c.dts[v.sort]
	if pe.idx.op == "num" {
		i := int(pe.idx.num.Num().Int64())
		return e.c.Upd(v, i, e.pathUpd(e.c.Sel(v, i), path[1:], x))
	}
	args := make([]*Term, len(d.sorts))
	for i := range args {
		o := e.c.Sel(v, i)
		args[i] = e.c.Ite(e.c.Eq(pe.idx, e.c.Int(int64(i))), e.pathUpd(o, path[1:], x), o)
	}
	return e.c.App(d.ctor, v.sort, args...)
}

func (e *Engine) storePlace(st *State, p *Place, x *Term) {
	if p.cell != nil {
		if len(p.path) == 0 {
			st.cells[p.cell] = x
			return
		}
		v := st.cells[p.cell]
		if v == nil {
			v = e.globalInit(st, p.cell)
		}
		st.cells[p.cell] = e.pathUpd(v, p.path, x)
		return
	}
	if len(p.path) == 0 {
		e.storeHeap(st, p.base, p.ptr, x)
		return
	}
	v := e.loadHeap(st, p.base, p.ptr)
	e.storeHeap(st, p.base, p.ptr, e.pathUpd(v, p.path, x))
}

// asPlace views a value of pointer type as a place.
func (e *Engine) asPlace(v Val, pt types.Type) *Place {
	switch x := v.(type) {
	case *Place:
		return x
	case *Term:
		el := pt.Underlying().(*types.Pointer).Elem()
		return &Place{ptr: x, base: el}
	}
	panic(unsupported(fmt.Sprintf("pointer value %T", v)))
}

// asTerm turns a value into a term that may be stored or merged.
func (e *Engine) asTerm(st *State, v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *Place:
		if x.cell != nil {
			if x.cell.glob != nil {
				panic(unsupported("address of global " + x.cell.name))
			}
			if a, ok := cellAlloc[x.cell]; ok {
				panic(Restart{a})
			}
			panic(unsupported("address of a local value escapes"))
		}
		if len(x.path) == 0 {
			return x.ptr
		}
		panic(unsupported("pointer to a component escapes"))
	case *LazySlice:
		return e.materialise(st, x)
	case *ArrObj:
		return e.c.App("mkPtr", SPtr, x.ref, e.c.Int(0))
	case *Closure:
		return e.closureTerm(st, x)
	case nil:
		return e.c.Int(0)
	}
	panic(unsupported(fmt.Sprintf("value %T used as a term", v)))
}

var cellAlloc = map[*Cell]*ssa.Alloc{}

func (e *Engine) materialise(st *State, l *LazySlice) *Term {
	c := e.c
	ref := e.newRef(st, c.Int(int64(l.n)))
	m := e.memFor(l.elem)
	arr := c.ConstArr(arrSort(SInt, c.SortOf(l.elem)), c.Zero(l.elem))
	v := l.st
	for i := 0; i < l.n; i++ {
		arr = c.Store(arr, c.Int(int64(i)), c.Sel(v, i))
	}
	st.mem[m.key] = c.Store(e.getMem(st, m.key), ref, arr)
	n := c.Int(int64(l.n))
	return c.App("mkSlc", SSlc, ref, c.Int(0), n, n)
}

// closureTerm: a function value as a number; the closure's bindings become part of the tag.
func (e *Engine) closureTerm(st *State, cl *Closure) *Term {
	k := cl.fn.String()
	for _, b := range cl.bindings {
		t := e.asTerm(st, b)
		k += fmt.Sprintf("|%d", t.id)
	}
	if _, ok := e.funcTags[k]; !ok {
		e.funcTags[k] = cl
		e.funcIDs = append(e.funcIDs, k)
	}
	for i, x := range e.funcIDs {
		if x == k {
			return e.c.Int(int64(1000 + i))
		}
	}
	return nil
}

// ---- merging ----

func (e *Engine) mergeStates(ss []*State) *State {
	if len(ss) == 1 {
		return ss[0].clone()
	}
	c := e.c
	var pcs []*Term
	for _, s := range ss {
		pcs = append(pcs, s.pc)
	}
	out := &State{pc: c.Or(pcs...), cells: map[*Cell]*Term{}, mem: map[string]*Term{}}
	conds := make([]*Term, len(ss))
	for i := range ss {
		conds[i] = e.relCond(ss[i].pc, out.pc)
	}
	pick := func(f func(s *State) *Term) *Term {
		v := f(ss[len(ss)-1])
		for i := len(ss) - 2; i >= 0; i-- {
			v = c.Ite(conds[i], f(ss[i]), v)
		}
		return v
	}
	keys := map[string]bool{}
	cells := map[*Cell]int{}
	for _, s := range ss {
		for k := range s.mem {
			keys[k] = true
		}
		for k := range s.cells {
			cells[k]++
		}
	}
	for _, k := range sortedKeys(keys) {
		out.mem[k] = pick(func(s *State) *Term { return e.getMem(s, k) })
	}
	var cl []*Cell
	for k := range cells {
		cl = append(cl, k)
	}
	sort.Slice(cl, func(i, j int) bool { return cl[i].id < cl[j].id })
	for _, k := range cl {
		if cells[k] != len(ss) {
			if k.glob != nil {
				out.cells[k] = pick(func(s *State) *Term {
					if s.cells[k] == nil {
						return e.globalInit(s, k)
					}
					return s.cells[k]
				})
			}
			continue
		}
		out.cells[k] = pick(func(s *State) *Term { return s.cells[k] })
	}
	out.next = pick(func(s *State) *Term { return s.next })
	return out
}

// relCond drops from p the conjuncts every branch shares.
func (e *Engine) relCond(p, all *Term) *Term {
	if p.op != "and" {
		return p
	}
	sh := map[*Term]bool{}
	if all.op == "and" {
		for _, a := range all.args {
			sh[a] = true
		}
	} else {
		sh[all] = true
	}
	var out []*Term
	for _, a := range p.args {
		if !sh[a] {
			out = append(out, a)
		}
	}
	return e.c.And(out...)
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
