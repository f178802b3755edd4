package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// VC is what verifying one function (or lemma) comes down to.
type VC struct {
	key    string
	e      *Engine
	con    *Contract
	fn     *ssa.Function
	lemma  *Lemma
	err    error
	reqs   []*Term // precondition facts, for the vacuity check
	params []SVal
	rets   []*Term // path conditions of the returns
}

// genFunc generates the verification conditions of a function under contract.
func genFunc(prog *Program, specs *Specs, key string, noCon map[string]bool) *VC {
	vc := &VC{key: key, con: specs.contracts[key], fn: prog.funcs[key]}
	if vc.fn == nil {
		vc.err = gone{fmt.Sprintf("function %s does not exist", key)}
		return vc
	}
	heap := map[*ssa.Alloc]bool{}
	for try := 0; try < 20; try++ {
		e := NewEngine(prog, specs)
		e.heap = heap
		e.noCon = noCon
		vc.e = e
		for _, r := range vc.con.reveals {
			e.reveal[r] = true
		}
		if noCon["#reveal"] {
			e.reveal["*"] = true
		}
		restart, err := vc.run(e)
		if restart != nil {
			heap[restart.alloc] = true
			continue
		}
		vc.err = err
		return vc
	}
	vc.err = fmt.Errorf("too many escaping locals in %s", key)
	return vc
}

func (vc *VC) run(e *Engine) (restart *Restart, err error) {
	defer func() {
		if p := recover(); p != nil {
			switch x := p.(type) {
			case Restart:
				restart = &x
			case Unsupported:
				pos := ""
				if e.curPos.IsValid() {
					p := e.prog.fset.Position(e.curPos)
					pos = fmt.Sprintf(" at %s:%d", trimRepo(p.Filename), p.Line)
				}
				err = fmt.Errorf("%s%s", x.Error(), pos)
			case specErr:
				err = x
			default:
				panic(p)
			}
		}
	}()
	con, fn := vc.con, vc.fn
	vc.reqs, vc.params = nil, nil
	e.fn, e.con = fn, con
	c := e.c
	next0 := c.RawConst("next0", SInt)
	e.assumeGlobal(c.Le(c.Int(1), next0))
	st := &State{pc: c.True(), cells: map[*Cell]*Term{}, mem: map[string]*Term{}, next: next0}
	e.pre = st.clone()
	var args []Val
	var targs []*Term
	for _, p := range fn.Params {
		srt := c.SortOf(p.Type())
		t := c.Const("in$"+sanitize(p.Name()), srt)
		e.assumeWF(st, p.Type(), t)
		args = append(args, t)
		targs = append(targs, t)
		vc.params = append(vc.params, SVal{t: t, typ: p.Type()})
	}
	e.bind = e.bindParams(con, fn, targs)
	env := &specEnv{e: e, st: st, old: e.pre, bind: e.bind, pkg: con.pkg}
	for _, r := range con.requires {
		t := env.boolean(r.e)
		e.assume(st, t)
		vc.reqs = append(vc.reqs, t)
	}
	e.applyLemmas(con.uses)
	if con.panics != nil {
		e.panicC = env.boolean(con.panics.e)
	}
	e.frameMods = e.modTargets(con, env)
	// cells of globals read by the specification stay in the initial state
	_, _, rets := e.execFunc(fn, args, nil, st, nil, nil, "")
	e.curPos = fn.Pos()
	vc.rets = nil
	for ri, r := range rets {
		vc.rets = append(vc.rets, r.st.pc)
		tag := ""
		if len(rets) > 1 {
			tag = fmt.Sprintf(" (return %d)", ri+1)
		}
		b := map[string]SVal{}
		for k, v := range e.bind {
			b[k] = v
		}
		var res []*Term
		for _, v := range r.vals {
			res = append(res, e.asTermOf(r.st, v))
		}
		e.bindResults(b, con, fn, res)
		env := &specEnv{e: e, st: r.st, old: e.pre, bind: b, pkg: con.pkg}
		for i, h := range con.hints {
			t, err := env.tryEval(h.e)
			if err != nil || t.t == nil || t.t.op == "true" {
				dbg("hint %d: %v", i+1, err)
				continue
			}
			cd := &Cand{id: len(e.cands), desc: fmt.Sprintf("hint %d%s", i+1, tag), loop: "exit", alive: true, user: true}
			e.cands = append(e.cands, cd)
			if o := e.oblige(r.st, "hint", cd.desc, t.t); o != nil {
				o.cand = cd
				e.facts = append(e.facts, &Fact{t: c.Implies(r.st.pc, t.t), cand: cd})
			}
		}
		for i, en := range con.ensures {
			t := env.boolean(en.e)
			n := en.label
			if n == "" {
				n = fmt.Sprintf("postcondition %d", i+1)
			}
			if o := e.oblige(r.st, "ensures", n+tag, t); o != nil {
				o.clause = en
				o.props = en.props
			}
		}
		if e.panicC != nil {
			e.oblige(r.st, "panic", "panics when it must"+tag, c.Not(e.panicC))
		}
		e.frameObls(r.st, tag)
		if len(con.twice) > 0 {
			vc.runTwice(e, env, r.st, tag)
		}
	}
	return nil, nil
}

// runTwice calls the function a second time, after a first call that ended in
// state st1, and relates the two calls.
func (vc *VC) runTwice(e *Engine, env1 *specEnv, st1 *State, tag string) {
	c := e.c
	con, fn := vc.con, vc.fn
	st := st1.clone()
	var args []Val
	var targs []*Term
	for _, p := range fn.Params {
		t := c.Const("in2$"+sanitize(p.Name()), c.SortOf(p.Type()))
		e.assumeWF(st, p.Type(), t)
		args = append(args, t)
		targs = append(targs, t)
	}
	b2 := e.bindParams(con, fn, targs)
	entry := st.clone()
	env := &specEnv{e: e, st: st, old: entry, bind: b2, pkg: con.pkg}
	for _, r := range con.requires {
		e.assume(st, env.boolean(r.e))
	}
	pre := e.pre
	e.pre = entry
	defer func() { e.pre = pre }()
	_, _, rets := e.execFunc(fn, args, nil, st, nil, nil, "second")
	for ri, r := range rets {
		if len(rets) > 1 {
			tag += fmt.Sprintf(" (second return %d)", ri+1)
		}
		var res []*Term
		for _, v := range r.vals {
			res = append(res, e.asTermOf(r.st, v))
		}
		for i, cl := range con.twice {
			b := map[string]SVal{}
			for k, v := range env1.bind {
				b[k] = v
			}
			for j, n := range cl.params2 {
				if j < len(targs) {
					b[n] = SVal{t: targs[j], typ: fn.Params[j].Type()}
				}
			}
			for j, n := range cl.results2 {
				if j < len(res) {
					b[n] = SVal{t: res[j], typ: fn.Signature.Results().At(j).Type()}
				}
			}
			ev := &specEnv{e: e, st: r.st, old: pre, bind: b, pkg: con.pkg}
			n := cl.label
			if n == "" {
				n = fmt.Sprintf("relation of two calls %d", i+1)
			}
			if o := e.oblige(r.st, "ensures", n+tag, ev.boolean(cl.e)); o != nil {
				o.clause = cl
				o.props = cl.props
			}
		}
	}
}

// frameObls: nothing but what the contract lists has changed for the caller.
func (e *Engine) frameObls(st *State, tag string) {
	c := e.c
	if e.con.modAll {
		return
	}
	keys := map[string]bool{}
	for k := range st.mem {
		keys[k] = true
	}
	rv := c.FreshVar("r", SInt)
	for _, k := range sortedKeys(keys) {
		m0, m1 := e.getMem(e.pre, k), e.getMem(st, k)
		if m0 == m1 {
			continue
		}
		ex := e.frameException(k, rv, nil)
		if ex.op == "true" {
			continue
		}
		live := c.And(c.Le(c.Int(1), rv), c.Lt(rv, e.pre.next))
		same := c.Eq(c.Select(m1, rv), c.Select(m0, rv))
		if strings.HasPrefix(k, "MV:") { // values under absent keys do not matter
			dk := "MD:" + k[3:]
			kv := c.FreshVar("k", arrIdx(arrElem(m0.sort)))
			same = c.Forall([]*Term{kv}, c.Implies(c.Select(c.Select(e.getMem(e.pre, dk), rv), kv), c.Eq(c.Select(c.Select(m1, rv), kv), c.Select(c.Select(m0, rv), kv))))
		}
		e.oblige(st, "frame", "nothing else changes: "+k+tag, c.Forall([]*Term{rv}, c.Implies(c.And(live, c.Not(ex)), same)))
		// inside listed objects, only the listed elements
		byRef := map[*Term][]modTarget{}
		var order []*Term
		for _, t := range e.frameMods {
			if t.key == k {
				if byRef[t.ref] == nil {
					order = append(order, t.ref)
				}
				byRef[t.ref] = append(byRef[t.ref], t)
			}
		}
		for _, ref := range order {
			kv := c.FreshVar("k", arrIdx(arrElem(m0.sort)))
			a0, a1 := c.Select(m0, ref), c.Select(m1, ref)
			var exs []*Term
			whole := false
			fields := map[*Term][]string{}
			var fo []*Term
			for _, t := range e.frameMods { // any target may name the same object
				if t.key != k {
					continue
				}
				eqr := c.Eq(t.ref, ref)
				switch {
				case t.idx != nil:
					exs = append(exs, c.And(eqr, c.Eq(kv, t.idx)))
					if t.ref == ref {
						if fields[t.idx] == nil {
							fo = append(fo, t.idx)
						}
						fields[t.idx] = append(fields[t.idx], t.path)
					}
				case t.lo != nil:
					exs = append(exs, c.And(eqr, c.Le(t.lo, kv), c.Lt(kv, t.hi)))
				default:
					if t.ref == ref {
						whole = true
					}
					exs = append(exs, eqr)
				}
			}
			if whole {
				continue
			}
			e.oblige(st, "frame", "nothing else changes inside "+byRef[ref][0].name+tag,
				c.Forall([]*Term{kv}, c.Implies(c.And(c.Le(c.Int(0), kv), c.Not(c.Or(exs...))), c.Eq(c.Select(a1, kv), c.Select(a0, kv)))))
			for _, idx := range fo {
				v0, v1 := c.Select(a0, idx), c.Select(a1, idx)
				for _, p := range e.leafPaths(v0.sort) {
					ok := false
					for _, f := range fields[idx] {
						if f == "" || p == f || strings.HasPrefix(p, f+".") {
							ok = true
						}
					}
					if !ok {
						e.oblige(st, "frame", "component "+p+" of "+byRef[ref][0].name+" kept"+tag, c.Eq(e.leafGet(v1, p), e.leafGet(v0, p)))
					}
				}
			}
		}
	}
	var gs []*Cell
	for cell := range st.cells {
		if cell.glob != nil {
			gs = append(gs, cell)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].id < gs[j].id })
	for _, cell := range gs {
		v0 := e.pre.cells[cell]
		if v0 == nil {
			v0 = e.globalInit(e.pre, cell)
		}
		e.oblige(st, "frame", "package variable "+cell.name+" unchanged"+tag, c.Eq(st.cells[cell], v0))
	}
}

// applyLemmas adds proved lemmas as quantified facts.
func (e *Engine) applyLemmas(names []string) {
	for _, n := range names {
		if e.lemmasOn[n] {
			continue
		}
		e.lemmasOn[n] = true
		lm := e.specs.lemmas[n]
		if lm == nil {
			panic(specErr{"unknown lemma " + n})
		}
		t, _ := e.lemmaTerm(lm)
		e.assumeGlobal(t)
		if lm.axiom {
			e.assumed["axiom "+n] = true
		}
	}
}

// lemmaTerm is the universally quantified statement of a lemma.
func (e *Engine) lemmaTerm(lm *Lemma) (*Term, *specEnv) {
	c := e.c
	ev := &specEnv{e: e, pkg: lm.pkg, bind: map[string]SVal{}}
	ev.rec = &recInfo{}
	var vars []*Term
	for _, d := range lm.params {
		s, vs := e.lemmaParam(ev, lm, d, func(n, srt string) *Term { return c.FreshVar(n, srt) })
		vars = append(vars, vs...)
		ev.bind[d.name] = s
	}
	var hyp []*Term
	for _, r := range lm.requires {
		hyp = append(hyp, ev.boolean(r))
	}
	t := c.Implies(c.And(hyp...), ev.boolean(lm.ensures))
	q := c.Forall(vars, t)
	if q.op == "forall" && len(lm.trigs) > 0 {
		var tr []*Term
		for _, x := range lm.trigs {
			tr = append(tr, ev.eval(x).t)
		}
		c.trigs[q] = [][]*Term{tr}
	}
	return q, ev
}

func (e *Engine) lemmaParam(ev *specEnv, lm *Lemma, d VarDecl, mk func(n, srt string) *Term) (SVal, []*Term) {
	c := e.c
	ty, err := e.resolveType(d.typ, lm.pkg)
	if err != nil {
		panic(specErr{lm.pos + ": " + err.Error()})
	}
	var vs []*Term
	m := func(n, s string) *Term {
		t := mk(n, s)
		vs = append(vs, t)
		return t
	}
	if sl, ok := sliceOf(ty); ok {
		s := &SeqVal{m(d.name+".arr", arrSort(SInt, c.SortOf(sl))), m(d.name+".off", SInt), m(d.name+".len", SInt), sl}
		return SVal{seq: s, typ: ty}, vs
	}
	v := e.build(c.SortOf(ty), "", func(path, s string) *Term { return m(d.name+path, s) })
	return SVal{t: v, typ: ty}, vs
}

// genLemma generates the obligations of a lemma.
func genLemma(prog *Program, specs *Specs, lm *Lemma) (vc *VC) {
	vc = &VC{key: "lemma " + lm.name, lemma: lm, con: &Contract{opts: map[string]string{}}}
	e := NewEngine(prog, specs)
	vc.e = e
	defer func() {
		if p := recover(); p != nil {
			switch x := p.(type) {
			case Unsupported:
				vc.err = x
			case specErr:
				vc.err = x
			default:
				panic(p)
			}
		}
	}()
	c := e.c
	e.con = vc.con
	for _, r := range lm.reveals {
		e.reveal[r] = true
	}
	e.applyLemmas(lm.uses)
	ev := &specEnv{e: e, pkg: lm.pkg, bind: map[string]SVal{}, rec: &recInfo{}}
	var all []*Term
	for _, d := range lm.params {
		s, vs := e.lemmaParam(ev, lm, d, func(n, srt string) *Term { return c.RawConst("in$"+n, srt) })
		all = append(all, vs...)
		ev.bind[d.name] = s
	}
	st := &State{pc: c.True(), cells: map[*Cell]*Term{}, mem: map[string]*Term{}, next: c.RawConst("next0", SInt)}
	e.pre = st
	for _, r := range lm.requires {
		t := ev.boolean(r)
		vc.reqs = append(vc.reqs, t)
		e.assumeGlobal(t)
	}
	goal := ev.boolean(lm.ensures)
	if lm.induct != "" {
		// the lemma for smaller values of the induction variable (bounded below)
		n := ev.bind[lm.induct].t
		from := c.Int(0)
		if lm.from != nil {
			from = ev.eval(lm.from).t
		}
		sub := map[*Term]*Term{}
		var vars []*Term
		for _, a := range all {
			v := c.FreshVar("ih", a.sort)
			sub[a] = v
			vars = append(vars, v)
		}
		var hyp []*Term
		hyp = append(hyp, c.Subst(c.And(c.Le(from, n)), sub), c.Lt(c.Subst(n, sub), n))
		if lm.from != nil { // the measure of the instance is bounded by its own lower end
			hyp[0] = c.And(c.Subst(c.Le(from, n), sub), c.Eq(c.Subst(from, sub), from))
		}
		for _, r := range vc.reqs {
			hyp = append(hyp, c.Subst(r, sub))
		}
		// keep parameters fixed where the statement allows a simple instance: n-1 with everything else equal
		s1 := map[*Term]*Term{n: c.Sub(n, c.Int(1))}
		h1 := []*Term{c.Le(from, c.Sub(n, c.Int(1)))}
		for _, r := range vc.reqs {
			h1 = append(h1, c.Subst(r, s1))
		}
		e.assumeGlobal(c.Implies(c.And(h1...), c.Subst(goal, s1)))
		q := c.Forall(vars, c.Implies(c.And(hyp...), c.Subst(goal, sub)))
		if len(lm.trigs) > 0 && q.op == "forall" {
			var tr []*Term
			for _, x := range lm.trigs {
				tr = append(tr, c.Subst(ev.eval(x).t, sub))
			}
			c.trigs[q] = [][]*Term{tr}
			e.assumeGlobal(q)
		}
	}
	e.obls = append(e.obls, &Obl{name: lm.name, kind: "lemma", goal: goal, nfacts: len(e.facts), pos: lm.pos, fn: "lemma " + lm.name, props: lm.props})
	return vc
}
