package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// leafVar is one havocked component of the loop state: hdr is the constant
// that stands for it at the loop header of an arbitrary iteration.
type leafVar struct {
	key   string
	desc  string
	typ   types.Type // nil when unknown
	hdr   *Term      // value at the header (a constant, or the closed form)
	entry *Term
	get   func(st *State, phi map[*ssa.Phi]Val) *Term
	def   *Term // closed form in terms of entry and n, nil if havocked
	step  *Term
	hint  *Term // guessed step
}

type loopCtx struct {
	e      *Engine
	fr     *Frame
	loop   *Loop
	name   string
	entry  *State
	hdrSt  *State
	phiE   map[*ssa.Phi]Val
	n      *Term
	leaves []*leafVar
	cands  []*loopInv
	parent *loopCtx
	conts  []*Term // conditions under which the loop goes on
	decr   []*Term
	frames []*Term // next-values of the enclosing contexts
	hdrPhi map[*ssa.Phi]Val
	seq0   int
	whole  []string        // memories havocked entirely
	inner  bool            // contains further loops
	first  map[*Term]*Term // header values -> entry values
}

type loopInv struct {
	t    *Term
	cand *Cand
}

// modset: which parts of the state a loop changes.
type modset struct {
	leaves map[string]bool     // leaf keys of phis, cells, next
	mem    map[string]*memMods // memory key -> parts
	steps  map[string]*Term    // closed-form steps
	hints  map[string]*Term
}

type memMods struct {
	whole bool
	refs  map[*Term]*refMods
}
type refMods struct {
	whole bool
	idxs  map[*Term]map[string]bool // idx -> leaf suffixes
}

func newModset() *modset {
	return &modset{leaves: map[string]bool{}, mem: map[string]*memMods{}, steps: map[string]*Term{}, hints: map[string]*Term{}}
}

func termOf(e *Engine, st *State, v Val) *Term { return e.asTermOf(st, v) }

// leafPaths enumerates the scalar components of a sort.
func (e *Engine) leafPaths(srt string) []string {
	d, ok := e.c.dts[srt]
	if !ok {
		return []string{""}
	}
	var out []string
	for i, s := range d.sorts {
		for _, p := range e.leafPaths(s) {
			out = append(out, fmt.Sprintf(".%d%s", i, p))
		}
	}
	return out
}

func (e *Engine) leafGet(t *Term, path string) *Term {
	for path != "" {
		path = path[1:]
		i := strings.IndexByte(path, '.')
		var s string
		if i < 0 {
			s, path = path, ""
		} else {
			s, path = path[:i], path[i:]
		}
		var n int
		fmt.Sscan(s, &n)
		t = e.c.Sel(t, n)
	}
	return t
}

// build makes a value of sort srt whose leaf components come from f.
func (e *Engine) build(srt, path string, f func(path, srt string) *Term) *Term {
	d, ok := e.c.dts[srt]
	if !ok {
		return f(path, srt)
	}
	args := make([]*Term, len(d.sorts))
	for i, s := range d.sorts {
		args[i] = e.build(s, fmt.Sprintf("%s.%d", path, i), f)
	}
	return e.c.App(d.ctor, srt, args...)
}

func (e *Engine) leafType(t types.Type, path string) types.Type {
	for path != "" && t != nil {
		path = path[1:]
		i := strings.IndexByte(path, '.')
		var s string
		if i < 0 {
			s, path = path, ""
		} else {
			s, path = path[:i], path[i:]
		}
		var n int
		fmt.Sscan(s, &n)
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if n >= u.NumFields() {
				return nil
			}
			t = u.Field(n).Type()
		case *types.Array:
			t = u.Elem()
		default:
			return nil
		}
	}
	return t
}

func loopKey(fr *Frame, l *Loop) string {
	return fmt.Sprintf("%s|%s|%d", fr.path, fr.fn.String(), l.header.Index)
}

// enterLoop processes the entry edges of a loop and returns the state at its
// header in an arbitrary iteration.
func (e *Engine) enterLoop(fr *Frame, l *Loop, edges []inEdge) *State {
	c := e.c
	var ss []*State
	for _, x := range edges {
		ss = append(ss, x.st)
	}
	entry := e.mergeStates(ss)
	e.bindPhis(fr, l.header, edges, ss, entry)
	phiE := map[*ssa.Phi]Val{}
	var phis []*ssa.Phi
	for _, ins := range l.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		phiE[p] = fr.vals[p]
	}
	key := loopKey(fr, l)
	mods := e.loopMod[key]
	if mods == nil {
		mods = newModset()
		e.loopMod[key] = mods
	}
	// precise references are only meaningful for this entry; start over for them
	for _, mm := range mods.mem {
		if !mm.whole {
			mm.refs = map[*Term]*refMods{}
		}
	}
	mods.steps = map[string]*Term{}
	mods.hints = map[string]*Term{}
	seq0 := c.seq
	nf := len(e.facts)
	for round := 0; ; round++ {
		if round > 30 {
			panic(unsupported("loop analysis does not stabilise"))
		}
		lc := e.havoc(fr, l, entry, phiE, phis, mods, seq0, true)
		e.dry++
		fr.exits[l] = nil
		savedRets := fr.rets
		fr.loops[l] = lc
		in := map[*ssa.BasicBlock][]inEdge{l.header: {{nil, lc.hdrSt.clone()}}}
		back := e.runBlocks(fr, fr.li.order, in, l)
		fr.rets = savedRets
		e.dry--
		e.facts = e.facts[:nf]
		ch := e.diffLoop(fr, l, lc, mods, back, phis, seq0)
		if !ch {
			lc.conts = fr.exits[l]
			break
		}
	}
	conts := fr.exits[l]
	hdrOld := fr.loops[l]
	lc := e.havoc(fr, l, entry, phiE, phis, mods, seq0, false)
	lc.parent = e.curLoopParent(fr, l)
	for p := lc.parent; p != nil; p = p.parent {
		p.inner = true
	}
	// re-express the continuation conditions over the new header constants
	sub := map[*Term]*Term{}
	if hdrOld != nil && len(hdrOld.leaves) == len(lc.leaves) {
		for i := range lc.leaves {
			sub[hdrOld.leaves[i].hdr] = lc.leaves[i].hdr
		}
		sub[hdrOld.n] = lc.n
		for _, t := range conts {
			lc.conts = append(lc.conts, c.Subst(t, sub))
		}
	}
	fr.loops[l] = lc
	if e.dry == 0 {
		e.candidates(lc)
	}
	return lc.hdrSt.clone()
}

func (e *Engine) curLoopParent(fr *Frame, l *Loop) *loopCtx {
	for p := l.parent; p != nil; p = p.parent {
		if lc := fr.loops[p]; lc != nil {
			return lc
		}
	}
	return fr.caller
}

// havoc builds the header state.
func (e *Engine) havoc(fr *Frame, l *Loop, entry *State, phiE map[*ssa.Phi]Val, phis []*ssa.Phi, mods *modset, seq0 int, dry bool) *loopCtx {
	c := e.c
	e.nLoops++
	lc := &loopCtx{e: e, fr: fr, loop: l, entry: entry, phiE: phiE, hdrPhi: map[*ssa.Phi]Val{}, seq0: seq0}
	lc.name = fmt.Sprintf("%s#%d", fr.fn.Name(), l.header.Index)
	lc.n = c.Fresh("n", SInt)
	st := entry.clone()
	lc.hdrSt = st
	mk := func(key, desc string, typ types.Type, entryV *Term, srt string, get func(st *State, phi map[*ssa.Phi]Val) *Term) *Term {
		if !mods.leaves[key] {
			return entryV
		}
		lv := &leafVar{key: key, desc: desc, typ: typ, entry: entryV, get: get}
		if d := mods.steps[key]; d != nil {
			if srt == SInt {
				lv.def = c.Add(entryV, c.Mul(d, lc.n))
			} else {
				lv.def = c.Add(entryV, c.Mul(d, c.ToReal(lc.n)))
			}
			lv.step = d
			lv.hdr = lv.def
		} else {
			lv.hdr = c.Fresh(desc, srt)
		}
		lv.hint = mods.hints[key]
		lc.leaves = append(lc.leaves, lv)
		return lv.hdr
	}
	e.assumeIf(dry, st, c.Le(c.Int(0), lc.n))
	// next
	nx := mk("next", "next", nil, entry.next, SInt, func(s *State, _ map[*ssa.Phi]Val) *Term { return s.next })
	if nx != entry.next {
		st.next = nx
		e.assumeIf(dry, st, c.Le(entry.next, nx))
	}
	// phis
	for i, p := range phis {
		p := p
		ev := phiE[p]
		et, ok := e.tryTerm(entry, ev)
		if !ok {
			lc.hdrPhi[p] = ev
			fr.vals[p] = ev
			continue
		}
		name := p.Comment
		if name == "" {
			name = "phi"
		}
		v := e.build(et.sort, "", func(path, srt string) *Term {
			return mk(fmt.Sprintf("phi%d%s", i, path), name+path, e.leafType(p.Type(), path), e.leafGet(et, path), srt,
				func(s *State, ph map[*ssa.Phi]Val) *Term { return e.leafGet(e.asTermOf(s, ph[p]), path) })
		})
		fr.vals[p] = v
		lc.hdrPhi[p] = v
		if v != et && !dry {
			e.assumeWF(st, p.Type(), v)
		} else if v != et {
			e.assumeWF(st, p.Type(), v)
		}
	}
	// cells
	for _, cell := range sortCells(entry.cells) {
		cell := cell
		et := entry.cells[cell]
		v := e.build(et.sort, "", func(path, srt string) *Term {
			return mk(fmt.Sprintf("cell%d%s", cell.id, path), cell.name+path, e.leafType(cell.typ, path), e.leafGet(et, path), srt,
				func(s *State, _ map[*ssa.Phi]Val) *Term {
					x := s.cells[cell]
					if x == nil {
						x = et
					}
					return e.leafGet(x, path)
				})
		})
		st.cells[cell] = v
		if v != et && cell.typ != nil {
			e.assumeWF(st, cell.typ, v)
		}
	}
	// memories
	var ks []string
	for k := range mods.mem {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		k := k
		mm := mods.mem[k]
		em := e.getMem(entry, k)
		if mm.whole {
			h := c.Fresh("mem$"+shortKey(k), em.sort)
			st.mem[k] = h
			lc.leaves = append(lc.leaves, &leafVar{key: "mem:" + k, desc: "mem:" + k, hdr: h, entry: em,
				get: func(s *State, _ map[*ssa.Phi]Val) *Term { return e.getMem(s, k) }})
			lc.whole = append(lc.whole, k)
			if f := e.memRefs(k, h, st.next); f != nil {
				e.assume(st, f)
			}
			continue
		}
		cur := em
		for _, ref := range sortedTerms(mm.refs) {
			ref := ref
			rm := mm.refs[ref]
			if rm.whole {
				h := c.Fresh("arr$"+shortKey(k), arrElem(em.sort))
				cur = c.Store(cur, ref, h)
				if f := e.memRefsAt(k, cur, h, st.next); f != nil {
					e.assume(st, f)
				}
				lc.leaves = append(lc.leaves, &leafVar{key: fmt.Sprintf("mem:%s@%d", k, ref.id), desc: "arr:" + k, hdr: h, entry: c.Select(em, ref),
					get: func(s *State, _ map[*ssa.Phi]Val) *Term { return c.Select(e.getMem(s, k), ref) }})
				continue
			}
			arr := c.Select(em, ref)
			narr := arr
			for _, idx := range sortedTermsI(rm.idxs) {
				idx := idx
				lf := rm.idxs[idx]
				ev := c.Select(arr, idx)
				var et types.Type
				if m := e.mems[k]; m != nil {
					et = m.elem
				}
				v := e.build(ev.sort, "", func(path, srt string) *Term {
					if !lf[path] {
						return e.leafGet(ev, path)
					}
					lk := fmt.Sprintf("mem:%s@%d@%d%s", k, ref.id, idx.id, path)
					mods.leaves[lk] = true
					return mk(lk, "obj"+path, e.leafType(et, path), e.leafGet(ev, path), srt,
						func(s *State, _ map[*ssa.Phi]Val) *Term {
							return e.leafGet(c.Select(c.Select(e.getMem(s, k), ref), idx), path)
						})
				})
				narr = c.Store(narr, idx, v)
				if et != nil {
					e.assumeWF(st, et, v)
				}
			}
			cur = c.Store(cur, ref, narr)
		}
		st.mem[k] = cur
	}
	return lc
}

func (e *Engine) assumeIf(dry bool, st *State, f *Term) { e.assume(st, f) }

func (e *Engine) tryTerm(st *State, v Val) (t *Term, ok bool) {
	switch x := v.(type) {
	case *Term:
		return x, true
	case *Place:
		if x.cell == nil && len(x.path) == 0 {
			return x.ptr, true
		}
		return nil, false
	case *LazySlice:
		return e.materialise(st, x), true
	case *Iface:
		return e.asTermOf(st, x), true
	case *Closure:
		return e.closureTerm(st, x), true
	}
	return nil, false
}

func sortedTerms(m map[*Term]*refMods) []*Term {
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sortTerms(ts)
	return ts
}
func sortedTermsI(m map[*Term]map[string]bool) []*Term {
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sortTerms(ts)
	return ts
}

// diffLoop compares the states at the back edges with the header state and
// records what the loop changes. It reports whether anything new was found.
func (e *Engine) diffLoop(fr *Frame, l *Loop, lc *loopCtx, mods *modset, back []inEdge, phis []*ssa.Phi, seq0 int) bool {
	c := e.c
	changed := false
	note := func(key string, hdr, bk *Term) {
		if hdr == bk {
			return
		}
		if !mods.leaves[key] {
			mods.leaves[key] = true
			changed = true
		}
	}
	phiVals := func(x inEdge) map[*ssa.Phi]Val {
		m := map[*ssa.Phi]Val{}
		for _, p := range phis {
			for i, pr := range l.header.Preds {
				if pr == x.pred {
					m[p] = e.val(fr, x.st, p.Edges[i])
				}
			}
		}
		return m
	}
	for _, x := range back {
		pv := phiVals(x)
		note("next", lc.hdrSt.next, x.st.next)
		for i, p := range phis {
			ht, ok := e.tryTerm(lc.hdrSt, lc.hdrPhi[p])
			if !ok {
				if !sameVal(lc.hdrPhi[p], pv[p]) {
					panic(unsupported("a local address changes in a loop"))
				}
				continue
			}
			bt := e.asTermOf(x.st, pv[p])
			for _, path := range e.leafPaths(ht.sort) {
				note(fmt.Sprintf("phi%d%s", i, path), e.leafGet(ht, path), e.leafGet(bt, path))
			}
		}
		for _, cell := range sortCells(lc.entry.cells) {
			ht := lc.hdrSt.cells[cell]
			bt := x.st.cells[cell]
			if bt == nil {
				continue
			}
			for _, path := range e.leafPaths(ht.sort) {
				note(fmt.Sprintf("cell%d%s", cell.id, path), e.leafGet(ht, path), e.leafGet(bt, path))
			}
		}
	}
	if changed {
		return true
	}
	for _, x := range back {
		keys := map[string]bool{}
		for k := range x.st.mem {
			keys[k] = true
		}
		for _, k := range sortedKeys(keys) {
			hm, bm := e.getMem(lc.hdrSt, k), e.getMem(x.st, k)
			if hm == bm {
				continue
			}
			mm := mods.mem[k]
			if mm == nil {
				mm = &memMods{refs: map[*Term]*refMods{}}
				mods.mem[k] = mm
				changed = true
			}
			if mm.whole {
				continue
			}
			bases := map[*Term]bool{}
			for b := hm; ; b = b.args[0] {
				bases[b] = true
				if b.op != "store" {
					break
				}
			}
			writes := map[*Term][]*Term{}
			if !collectStores(bm, bases, writes, 0) {
				mm.whole = true
				changed = true
				continue
			}
			for ref := range writes {
				if ref.seq > seq0 {
					mm.whole = true
				}
			}
			if mm.whole {
				changed = true
				continue
			}
			for ref := range writes {
				rm := mm.refs[ref]
				if rm == nil {
					rm = &refMods{idxs: map[*Term]map[string]bool{}}
					mm.refs[ref] = rm
					changed = true
				}
				if rm.whole {
					continue
				}
				ha, ba := c.Select(hm, ref), c.Select(bm, ref)
				if ha == ba {
					continue
				}
				ab := map[*Term]bool{}
				for b := ha; ; b = b.args[0] {
					ab[b] = true
					if b.op != "store" {
						break
					}
				}
				iw := map[*Term][]*Term{}
				if !collectStores(ba, ab, iw, 0) {
					rm.whole = true
					changed = true
					continue
				}
				for idx := range iw {
					if idx.seq > seq0 {
						rm.whole = true
					}
				}
				if rm.whole {
					changed = true
					continue
				}
				for idx := range iw {
					lf := rm.idxs[idx]
					if lf == nil {
						lf = map[string]bool{}
						rm.idxs[idx] = lf
					}
					hv, bv := c.Select(ha, idx), c.Select(ba, idx)
					for _, path := range e.leafPaths(hv.sort) {
						if e.leafGet(hv, path) != e.leafGet(bv, path) && !lf[path] {
							lf[path] = true
							changed = true
						}
					}
				}
			}
		}
	}
	if changed {
		return true
	}
	// stable: look for leaves that advance by a constant
	for _, lv := range lc.leaves {
		if lv.hdr.sort != SInt && lv.hdr.sort != SReal || lv.step != nil || lv.key == "next" {
			continue
		}
		if _, tried := mods.hints[lv.key]; tried {
			continue
		}
		var step, hint *Term
		ok := len(back) > 0
		for _, x := range back {
			bv := lv.get(x.st, phiVals(x))
			d := c.Sub(bv, lv.hdr)
			if d.op == "num" {
				if step != nil && step != d {
					ok = false
				}
				step = d
				continue
			}
			ok = false
			// wrapped machine arithmetic: ite(in range, x, x mod m)
			if bv.op == "ite" && len(back) == 1 {
				if d := c.Sub(bv.args[1], lv.hdr); d.op == "num" {
					hint = d
				}
			}
		}
		if ok && step != nil {
			mods.steps[lv.key] = step
			changed = true
		} else if hint != nil {
			mods.hints[lv.key] = hint
		}
	}
	return changed
}

// collectStores walks a chain of stores and conditionals down to one of bases.
func collectStores(t *Term, bases map[*Term]bool, out map[*Term][]*Term, depth int) bool {
	if bases[t] {
		return true
	}
	if depth > 400 {
		return false
	}
	switch t.op {
	case "store":
		out[t.args[1]] = append(out[t.args[1]], t.args[2])
		return collectStores(t.args[0], bases, out, depth+1)
	case "ite":
		return collectStores(t.args[1], bases, out, depth+1) && collectStores(t.args[2], bases, out, depth+1)
	}
	return false
}

func (lc *loopCtx) phiVals(fr *Frame, st *State, pred *ssa.BasicBlock) map[*ssa.Phi]Val {
	m := map[*ssa.Phi]Val{}
	for p := range lc.phiE {
		for i, pr := range lc.loop.header.Preds {
			if pr == pred {
				m[p] = lc.e.val(fr, st, p.Edges[i])
			}
		}
	}
	return m
}

// backEdge emits the preservation obligations of a loop.
func (e *Engine) backEdge(fr *Frame, lc *loopCtx, pred *ssa.BasicBlock, st *State) {
	if e.dry > 0 {
		return
	}
	c := e.c
	pv := lc.phiVals(fr, st, pred)
	sub := map[*Term]*Term{}
	n1 := c.Add(lc.n, c.Int(1))
	sub[lc.n] = n1
	for _, lv := range lc.leaves {
		bv := lv.get(st, pv)
		if lv.def != nil {
			// the closed form must agree with what the body computes
			want := c.Subst(lv.def, map[*Term]*Term{lc.n: n1})
			if want != bv {
				e.oblige(st, "inv", fmt.Sprintf("loop %s: %s advances by a constant", lc.name, lv.desc), c.Eq(want, bv))
			}
			continue
		}
		sub[lv.hdr] = bv
	}
	for _, in := range lc.cands {
		g := c.Subst(in.t, sub)
		o := e.oblige(st, "inv", fmt.Sprintf("loop %s invariant preserved: %s", lc.name, in.cand.desc), g)
		if o != nil {
			o.cand, o.lc = in.cand, lc
		}
	}
	for i, d := range lc.decr {
		g := c.And(c.Le(c.Int(0), d), c.Lt(c.Subst(d, sub), d))
		o := e.oblige(st, "term", fmt.Sprintf("loop %s terminates (measure %d)", lc.name, i), g)
		if o != nil {
			o.term = lc.name + "@" + lc.fr.path
			o.choice = i
		}
	}
}

func (e *Engine) addCand(lc *loopCtx, t *Term, desc string, user bool) {
	if t.op == "true" || t.op == "false" {
		return
	}
	if !user && e.con != nil {
		for _, d := range strings.Split(e.con.opts["drop"], ",") {
			if d = strings.TrimSpace(d); d != "" && strings.Contains(desc, d) {
				return
			}
		}
	}
	for _, x := range lc.cands {
		if x.t == t {
			return
		}
	}
	if len(lc.cands) > 500 {
		return
	}
	cd := &Cand{id: len(e.cands), desc: desc, loop: lc.name, alive: true, user: user}
	e.cands = append(e.cands, cd)
	lc.cands = append(lc.cands, &loopInv{t, cd})
}

// candidates proposes invariants for a loop; those that are not inductive are dropped later.
func (e *Engine) candidates(lc *loopCtx) {
	c := e.c
	ent := lc.entry
	// where enclosing allocation levels stand
	levels := []*Term{ent.next}
	for p := lc.parent; p != nil; p = p.parent {
		levels = append(levels, p.hdrSt.next, p.entry.next)
	}
	levels = append(levels, e.pre.next)
	for _, lv := range lc.leaves {
		switch {
		case lv.hdr.sort == SInt && lv.def == nil && lv.key != "next" && !strings.HasSuffix(lv.key, ".ref"):
			if lv.hint != nil {
				e.addCand(lc, c.Eq(lv.hdr, c.Add(lv.entry, c.Mul(lv.hint, lc.n))), lv.desc+" closed form", false)
			}
			if _, ok := intTyped(lv.typ); ok || lv.typ == nil {
				e.addCand(lc, c.Le(lv.entry, lv.hdr), lv.desc+" not below entry", false)
				e.addCand(lc, c.Le(lv.hdr, lv.entry), lv.desc+" not above entry", false)
				e.addCand(lc, c.Le(c.Int(0), lv.hdr), lv.desc+" >= 0", false)
				e.addCand(lc, c.Le(lv.hdr, c.Add(lv.entry, lc.n)), lv.desc+" at most one per iteration", false)
			}
		}
	}
	// slices that change: same array or a fresh one
	for _, s := range e.slicesIn(lc) {
		h, en := s[0], s[1]
		ref, eref := c.Sel(h, 0), c.Sel(en, 0)
		if ref != eref {
			for _, lv := range uniq(levels) {
				e.addCand(lc, c.Or(c.Eq(ref, eref), c.Le(lv, ref)), "slice array is the original or fresh", false)
				e.addCand(lc, c.Le(lv, ref), "slice array is fresh", false)
			}
			e.addCand(lc, c.Or(c.Eq(ref, eref), c.Lt(c.Int(0), ref)), "slice array valid", false)
			e.addCand(lc, c.Implies(c.Eq(ref, eref), c.And(c.Eq(c.Sel(h, 1), c.Sel(en, 1)), c.Eq(c.Sel(h, 3), c.Sel(en, 3)))), "slice array kept with offset", false)
			e.addCand(lc, c.Eq(c.Sel(h, 1), c.Int(0)), "slice offset zero", false)
		}
		if c.Sel(h, 2) != c.Sel(en, 2) {
			e.addCand(lc, c.Le(c.Sel(en, 2), c.Sel(h, 2)), "slice does not shrink", false)
			e.addCand(lc, c.Le(c.Sel(h, 2), c.Add(c.Sel(en, 2), lc.n)), "slice grows by at most one", false)
		}
	}
	// loop conditions
	for _, k := range lc.conts {
		for _, cj := range conjuncts(k) {
			e.condCands(lc, cj)
		}
	}
	// memory frames
	rv := c.FreshVar("r", SInt)
	kv := c.FreshVar("k", SInt)
	var refs []*Term
	for _, k := range lc.whole {
		hm, em := lc.hdrSt.mem[k], e.getMem(ent, k)
		pm := e.getMem(e.pre, k)
		for _, r := range e.knownRefs(lc, k) {
			e.addCand(lc, c.Eq(c.Select(hm, r), c.Select(em, r)), "array untouched: "+k, false)
			refs = append(refs, r)
		}
		ex := e.frameException(k, rv, kv)
		if ex != nil {
			e.addCand(lc, c.Forall([]*Term{rv}, c.Implies(c.And(c.Lt(rv, e.pre.next), c.Not(ex)), c.Eq(c.Select(hm, rv), c.Select(pm, rv)))), "caller's memory untouched: "+k, false)
		}
		for _, r := range e.frameRefs(k) {
			if ex := e.frameInside(k, r, kv); ex.op != "true" {
				e.addCand(lc, c.Forall([]*Term{kv}, c.Implies(c.And(c.Le(c.Int(0), kv), c.Not(ex)), c.Eq(c.Select(c.Select(hm, r), kv), c.Select(c.Select(pm, r), kv)))), "caller's object untouched outside the listed part: "+k, false)
			}
		}
		for _, lv := range uniq(levels) {
			e.addCand(lc, c.Forall([]*Term{rv}, c.Implies(c.Lt(rv, lv), c.Eq(c.Select(hm, rv), c.Select(em, rv)))), "memory of earlier objects untouched: "+k, false)
		}
		// all but the arrays of slices that change here
		var exs []*Term
		for _, s := range e.slicesIn(lc) {
			exs = append(exs, c.Eq(rv, c.Sel(s[1], 0)))
		}
		if len(exs) > 0 {
			e.addCand(lc, c.Forall([]*Term{rv}, c.Implies(c.And(c.Lt(rv, ent.next), c.Not(c.Or(exs...))), c.Eq(c.Select(hm, rv), c.Select(em, rv)))), "other earlier memory untouched: "+k, false)
		}
		// elements already in a growing slice stay
		for _, s := range e.slicesOfElem(lc, k) {
			h, en := s[0], s[1]
			body := c.Implies(c.And(c.Le(c.Int(0), kv), c.Lt(kv, c.Sel(en, 2))),
				c.Eq(c.Select(c.Select(hm, c.Sel(h, 0)), c.Add(c.Sel(h, 1), kv)), c.Select(c.Select(em, c.Sel(en, 0)), c.Add(c.Sel(en, 1), kv))))
			e.addCand(lc, c.Forall([]*Term{kv}, body), "elements present at entry stay", false)
		}
	}
	// termination measures
	e.measures(lc)
	// templates of the contract
	if e.con != nil {
		for _, cl := range e.con.invariants {
			e.template(lc, cl, func(t *Term, d string) {
				n := len(lc.cands)
				e.addCand(lc, t, d, true)
				if len(lc.cands) > n {
					lc.cands[n].cand.named = e.byName
				}
			})
		}
		var user []*Term
		for _, cl := range e.con.decreases {
			e.template(lc, cl, func(t *Term, d string) { user = append(user, t) })
		}
		if len(user) > 0 {
			lc.decr = user
		}
	}
	// now emit: entry obligations, then the facts
	sub := map[*Term]*Term{lc.n: c.Int(0)}
	for _, lv := range lc.leaves {
		if lv.def == nil {
			sub[lv.hdr] = lv.entry
		}
	}
	lc.first = sub
	for _, in := range lc.cands {
		g := c.Subst(in.t, sub)
		o := e.oblige(lc.entry, "inv", fmt.Sprintf("loop %s invariant holds on entry: %s", lc.name, in.cand.desc), g)
		if o != nil {
			o.cand, o.entry = in.cand, true
		}
	}
	for _, in := range lc.cands {
		e.facts = append(e.facts, &Fact{t: c.Implies(lc.entry.pc, in.t), cand: in.cand})
	}
}

func uniq(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, t := range ts {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	return out
}

func intTyped(t types.Type) (types.Type, bool) {
	if t == nil {
		return nil, false
	}
	return t, isInteger(t)
}

func conjuncts(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

// condCands: what a continuation condition suggests about the header state.
func (e *Engine) condCands(lc *loopCtx, t *Term) {
	c := e.c
	first := c.Eq(lc.n, c.Int(0))
	var add func(t *Term, neg bool)
	add = func(t *Term, neg bool) {
		switch t.op {
		case "not":
			add(t.args[0], !neg)
		case "<=":
			a, b := t.args[0], t.args[1]
			if a.sort != SInt {
				return
			}
			if neg { // b < a, i.e. b+1 <= a
				a, b = c.Add(b, c.Int(1)), a
			}
			// the condition holds with a <= b when continuing; one step later a <= b+1 (unit steps)
			for d := int64(1); d <= 3; d++ {
				w := c.Le(a, c.Add(b, c.Int(d)))
				e.addCand(lc, w, fmt.Sprintf("loop bound +%d", d), false)
				e.addCand(lc, c.Or(w, first), fmt.Sprintf("loop bound +%d after the first iteration", d), false)
			}
			e.addCand(lc, c.Le(a, b), "loop condition itself", false)
		case "=":
			if t.args[0].sort == SInt && !neg {
				e.addCand(lc, t, "loop equality", false)
			}
			if t.args[0].sort == SInt && neg {
				a, b := t.args[0], t.args[1]
				e.addCand(lc, c.Le(a, b), "loop bound", false)
				e.addCand(lc, c.Le(b, a), "loop bound", false)
			}
		case "and", "or":
			for _, x := range t.args {
				add(x, neg)
			}
		}
	}
	add(t, false)
}

// slicesIn lists the changing slice values (header value, entry value) of a loop.
func (e *Engine) slicesIn(lc *loopCtx) [][2]*Term {
	var out [][2]*Term
	add := func(h, en *Term, t types.Type) { e.collectSlices(h, en, t, &out, nil, 0) }
	for p, ev := range lc.phiE {
		if et, ok := ev.(*Term); ok {
			if h, ok := lc.hdrPhi[p].(*Term); ok && h != et {
				add(h, et, p.Type())
			}
		}
	}
	for _, cell := range sortCells(lc.entry.cells) {
		if h, et := lc.hdrSt.cells[cell], lc.entry.cells[cell]; h != et && cell.typ != nil {
			add(h, et, cell.typ)
		}
	}
	e.memSlices(lc, func(h, en *Term, t types.Type) { add(h, en, t) })
	sort.Slice(out, func(i, j int) bool { return out[i][0].id < out[j][0].id })
	return out
}

// memSlices visits heap objects changed in place by the loop.
func (e *Engine) memSlices(lc *loopCtx, f func(h, en *Term, t types.Type)) {
	mods := e.loopMod[loopKey(lc.fr, lc.loop)]
	for k, mm := range mods.mem {
		if mm.whole {
			continue
		}
		m := e.mems[k]
		if m == nil || m.elem == nil {
			continue
		}
		for ref, rm := range mm.refs {
			if rm.whole {
				continue
			}
			for idx := range rm.idxs {
				h := e.c.Select(e.c.Select(e.getMem(lc.hdrSt, k), ref), idx)
				en := e.c.Select(e.c.Select(e.getMem(lc.entry, k), ref), idx)
				if h != en {
					f(h, en, m.elem)
				}
			}
		}
	}
}

func (e *Engine) collectSlices(h, en *Term, t types.Type, out *[][2]*Term, elem *string, depth int) {
	if depth > 3 || t == nil {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if elem == nil || *elem == "M:"+typeKey(u.Elem()) {
			*out = append(*out, [2]*Term{h, en})
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			a, b := e.c.Sel(h, i), e.c.Sel(en, i)
			if a != b {
				e.collectSlices(a, b, u.Field(i).Type(), out, elem, depth+1)
			}
		}
	}
}

func (e *Engine) slicesOfElem(lc *loopCtx, k string) [][2]*Term {
	var out [][2]*Term
	add := func(h, en *Term, t types.Type) { e.collectSlices(h, en, t, &out, &k, 0) }
	for p, ev := range lc.phiE {
		if et, ok := ev.(*Term); ok {
			if h, ok := lc.hdrPhi[p].(*Term); ok && h != et {
				add(h, et, p.Type())
			}
		}
	}
	for _, cell := range sortCells(lc.entry.cells) {
		if h, et := lc.hdrSt.cells[cell], lc.entry.cells[cell]; h != et && cell.typ != nil {
			add(h, et, cell.typ)
		}
	}
	e.memSlices(lc, add)
	sort.Slice(out, func(i, j int) bool { return out[i][0].id < out[j][0].id })
	return out
}

// scopeVals lists the values visible at a loop header with their Go types.
func (e *Engine) scopeVals(lc *loopCtx, phiOnly bool) []SVal {
	var out []SVal
	seen := map[*Term]bool{}
	var add func(t *Term, ty types.Type, depth int)
	add = func(t *Term, ty types.Type, depth int) {
		if t == nil || ty == nil || seen[t] || t.bound {
			return
		}
		if t.op == "num" || t.op == "true" || t.op == "false" {
			return
		}
		seen[t] = true
		out = append(out, SVal{t: t, typ: ty})
		if depth < 3 {
			if s, ok := ty.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					add(e.c.Sel(t, i), s.Field(i).Type(), depth+1)
				}
			}
		}
	}
	for _, ins := range lc.loop.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if t, ok := lc.hdrPhi[p].(*Term); ok {
			e.nameVal(t, p.Comment)
			add(t, p.Type(), 0)
		}
	}
	for _, cell := range sortCells(lc.entry.cells) {
		if h := lc.hdrSt.cells[cell]; cell.typ != nil && (h != lc.entry.cells[cell] || !phiOnly) && cell.glob == nil {
			e.nameVal(h, cell.name[strings.LastIndex(cell.name, ".")+1:])
			add(h, cell.typ, 0)
		}
	}
	e.memSlices(lc, func(h, en *Term, t types.Type) { add(h, t, 0) })
	if phiOnly {
		return out
	}
	// values computed before the loop
	fr := lc.fr
	for f, blk := fr, lc.loop.header; f != nil; f = f.parent {
		for _, p := range f.fn.Params {
			if t, ok := f.vals[p].(*Term); ok {
				e.nameVal(t, p.Name())
				add(t, p.Type(), 0)
			}
		}
		if f == fr {
			for d := blk.Idom(); d != nil; d = d.Idom() {
				for _, ins := range d.Instrs {
					if v, ok := ins.(ssa.Value); ok {
						if t, ok := f.vals[v].(*Term); ok {
							switch v.(type) {
							case *ssa.FieldAddr, *ssa.IndexAddr:
								continue
							case *ssa.Phi:
								e.nameVal(t, v.(*ssa.Phi).Comment)
							default:
								e.nameVal(t, e.assigned(f.fn)[v.Pos()])
							}
							add(t, v.Type(), 0)
						}
						if tp, ok := f.vals[v].(Tuple); ok {
							if tt, ok := v.Type().(*types.Tuple); ok {
								for i, x := range tp {
									if t, ok := x.(*Term); ok {
										add(t, tt.At(i).Type(), 0)
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

func (e *Engine) knownRefs(lc *loopCtx, k string) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	add := func(r *Term) {
		if r.op == "num" || seen[r] || r.seq > lc.seq0 {
			return
		}
		seen[r] = true
		out = append(out, r)
	}
	want := func(t types.Type) bool { return "M:"+typeKey(t) == k }
	for _, v := range e.scopeVals(lc, false) {
		switch u := v.typ.Underlying().(type) {
		case *types.Slice:
			if want(u.Elem()) {
				add(e.c.Sel(v.t, 0))
			}
		case *types.Pointer:
			if want(u.Elem()) {
				add(e.c.Sel(v.t, 0))
			}
			// slices inside the object
			if st, ok := u.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && want(sl.Elem()) {
						m := e.memFor(u.Elem())
						o := e.c.Select(e.c.Select(e.getMem(lc.entry, m.key), e.c.Sel(v.t, 0)), e.c.Sel(v.t, 1))
						add(e.c.Sel(e.c.Sel(o, i), 0))
					}
				}
			}
		case *types.Map:
			if strings.HasPrefix(k, "MD:") || strings.HasPrefix(k, "MV:") {
				if k[3:] == typeKey(u.Key())+","+typeKey(u.Elem()) {
					add(v.t)
				}
			}
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return out
}

// measures proposes termination measures from the continuation conditions.
func (e *Engine) measures(lc *loopCtx) {
	c := e.c
	add := func(t *Term) {
		if t.op == "num" || len(lc.decr) > 12 {
			return
		}
		for _, d := range lc.decr {
			if d == t {
				return
			}
		}
		lc.decr = append(lc.decr, t)
	}
	var rec func(t *Term, neg bool)
	rec = func(t *Term, neg bool) {
		switch t.op {
		case "not":
			rec(t.args[0], !neg)
		case "and", "or":
			for _, x := range t.args {
				rec(x, neg)
			}
		case "<=":
			if t.args[0].sort == SInt {
				a, b := t.args[0], t.args[1]
				if neg {
					a, b = b, a
				}
				add(c.Add(c.Sub(b, a), c.Int(1)))
			}
		case "=":
			if t.args[0].sort == SInt {
				add(c.Sub(t.args[0], t.args[1]))
				add(c.Sub(t.args[1], t.args[0]))
			}
		}
	}
	for _, k := range lc.conts {
		rec(k, false)
	}
}

// template instantiates a contract invariant with the values in scope.
func (e *Engine) template(lc *loopCtx, cl *Clause, emit func(t *Term, desc string)) {
	opts := make([][]SVal, len(cl.metas))
	e.byName = false
	for i, m := range cl.metas {
		if m.typ == "count" {
			for p := lc; p != nil; p = p.parent {
				opts[i] = append(opts[i], SVal{t: p.n, typ: types.Typ[types.Int]})
				if len(opts[i]) >= 3 {
					break
				}
			}
			continue
		}
		ty, err := e.resolveType(m.typ, e.con.pkg)
		if err != nil {
			panic(err)
		}
		var vals []SVal
		if m.mod == "outer" {
			// what the enclosing loops change
			seen := map[*Term]bool{}
			for p := lc.parent; p != nil; p = p.parent {
				vs := e.scopeVals(p, true)
				if isInteger(ty) {
					vs = append(vs, SVal{t: p.n, typ: types.Typ[types.Int]})
				}
				for _, v := range vs {
					if !seen[v.t] {
						seen[v.t] = true
						vals = append(vals, v)
					}
				}
			}
		} else {
			vals = e.scopeVals(lc, strings.HasSuffix(m.mod, "phi"))
		}
		if strings.HasPrefix(m.mod, "named") {
			// the variable of this name, if there is one; otherwise any value of the type
			var same []SVal
			for _, v := range vals {
				if e.valNames[v.t] == m.name {
					same = append(same, v)
				}
			}
			if len(same) > 0 {
				vals = same
				e.byName = true
			} else if e.declares(lc.fr.fn, m.name) {
				return // a variable of another loop
			} else if isInteger(ty) || e.c.SortOf(ty) == SReal {
				// it changes in a loop
				seen := map[*Term]bool{}
				vals = nil
				for p := lc; p != nil; p = p.parent {
					vs := e.scopeVals(p, true)
					if isInteger(ty) {
						vs = append(vs, SVal{t: p.n, typ: types.Typ[types.Int]})
					}
					for _, v := range vs {
						if !seen[v.t] {
							seen[v.t] = true
							vals = append(vals, v)
						}
					}
					if m.mod == "named phi" {
						break
					}
				}
			}
		}
		for _, v := range vals {
			if types.Identical(v.typ, ty) || types.Identical(v.typ.Underlying(), ty.Underlying()) && e.c.SortOf(ty) != SInt || e.c.SortOf(ty) == SReal && v.t.sort == SReal {
				opts[i] = append(opts[i], v)
			}
		}
		if isInteger(ty) && m.mod == "phi" {
			for p := lc; p != nil; p = p.parent {
				opts[i] = append(opts[i], SVal{t: p.n, typ: types.Typ[types.Int]})
				break
			}
		}
	}
	idx := make([]int, len(cl.metas))
	count := 0
	for i, o := range opts {
		if len(o) == 0 {
			dbg("template %s: nothing for %s", cl.e, cl.metas[i].name)
			return
		}
	}
	for {
		b := map[string]SVal{}
		for k, v := range e.bind {
			b[k] = v
		}
		dup := false
		for i, m := range cl.metas {
			b[m.name] = opts[i][idx[i]]
			for j := 0; j < i; j++ {
				if opts[i][idx[i]].t == opts[j][idx[j]].t {
					dup = true
				}
			}
		}
		if !dup {
			ev := &specEnv{e: e, st: lc.hdrSt, old: e.pre, bind: b, pkg: e.con.pkg}
			t, err := ev.tryEval(cl.e)
			if err == nil {
				d := cl.e.String()
				if debug {
					for _, m := range cl.metas {
						if t := b[m.name].t; t != nil {
							d += " [" + m.name + "=" + shortTerm(t) + "]"
						}
					}
				}
				emit(t.t, d)
			} else {
				dbg("template %s: %v", cl.e, err)
			}
			count++
			if count > 300 {
				return
			}
		}
		i := 0
		for ; i < len(idx); i++ {
			idx[i]++
			if idx[i] < len(opts[i]) {
				break
			}
			idx[i] = 0
		}
		if i == len(idx) {
			return
		}
	}
}

// shortTerm names a term for the debug listing.
func shortTerm(t *Term) string {
	if t.op == "const" || t.op == "var" {
		return t.name
	}
	if len(t.args) > 0 {
		return t.op + "(" + shortTerm(t.args[0]) + ")"
	}
	return t.op
}

func (e *Engine) nameVal(t *Term, name string) {
	if e.valNames == nil {
		e.valNames = map[*Term]string{}
	}
	if name != "" && t != nil && e.valNames[t] == "" {
		e.valNames[t] = name
	}
}

// assigned maps the positions of right-hand sides to the variables they are
// assigned to. Names only guide which instances of a template are tried.
func (e *Engine) assigned(fn *ssa.Function) map[token.Pos]string {
	if m, ok := e.asgNames[fn]; ok {
		return m
	}
	m := map[token.Pos]string{}
	if e.asgNames == nil {
		e.asgNames = map[*ssa.Function]map[token.Pos]string{}
	}
	e.asgNames[fn] = m
	if fn.Syntax() == nil {
		return m
	}
	note := func(l *ast.Ident, r ast.Expr) {
		switch x := ast.Unparen(r).(type) {
		case *ast.CallExpr:
			m[x.Lparen] = l.Name
		case *ast.BinaryExpr:
			m[x.OpPos] = l.Name
		default:
			m[r.Pos()] = l.Name
		}
	}
	ast.Inspect(fn.Syntax(), func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) == len(x.Rhs) {
				for i := range x.Lhs {
					if id, ok := x.Lhs[i].(*ast.Ident); ok {
						note(id, x.Rhs[i])
					}
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == len(x.Values) {
				for i := range x.Names {
					note(x.Names[i], x.Values[i])
				}
			}
		}
		return true
	})
	return m
}

// declares: the function has a variable of this name.
func (e *Engine) declares(fn *ssa.Function, name string) bool {
	if fn.Syntax() == nil {
		return false
	}
	found := false
	ast.Inspect(fn.Syntax(), func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if x.Tok == token.DEFINE {
				for _, l := range x.Lhs {
					if id, ok := l.(*ast.Ident); ok && id.Name == name {
						found = true
					}
				}
			}
		case *ast.RangeStmt:
			for _, l := range []ast.Expr{x.Key, x.Value} {
				if id, ok := l.(*ast.Ident); ok && id.Name == name {
					found = true
				}
			}
		case *ast.ValueSpec:
			for _, id := range x.Names {
				if id.Name == name {
					found = true
				}
			}
		}
		return !found
	})
	return found
}
