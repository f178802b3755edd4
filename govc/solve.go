package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- printing queries ----

type printer struct {
	c     *Ctx
	names map[*Term]string
	defs  []*Term
}

// querySMT prints hypotheses and extra commands as an SMT-LIB script.
func querySMT(c *Ctx, hyps []*Term, more []*Term) (string, func(t *Term) string) {
	curTrigs = c.trigs
	var b strings.Builder
	count := map[*Term]int{}
	var order []*Term
	consts := map[*Term]bool{}
	funcs := map[string]bool{}
	sorts := map[string]bool{}
	boundSqrt, boundTrig := false, false
	var visit func(t *Term)
	visit = func(t *Term) {
		count[t]++
		if count[t] > 1 {
			return
		}
		sorts[t.sort] = true
		switch t.op {
		case "const":
			consts[t] = true
		case "app":
			if _, ok := c.decls[t.name]; ok {
				funcs[t.name] = true
				if t.bound && t.name == "sqrt" {
					boundSqrt = true
				}
				if t.bound && (t.name == "sin" || t.name == "cos") {
					boundTrig = true
					funcs["sin"], funcs["cos"] = true, true
				}
			}
			if d, ok := c.ctors[t.name]; ok {
				sorts[d.name] = true
			}
			if si, ok := c.sels[t.name]; ok {
				sorts[si.dt.name] = true
			}
		}
		for _, a := range t.args {
			visit(a)
		}
		for _, v := range t.bvars {
			sorts[v.sort] = true
		}
		if t.op == "forall" {
			for _, g := range c.trigs[t] {
				for _, x := range g {
					visit(x)
				}
			}
		}
		order = append(order, t) // children first
	}
	for _, h := range hyps {
		visit(h)
	}
	for _, h := range more {
		visit(h)
	}
	for f := range funcs {
		d := c.decls[f]
		sorts[d.ret] = true
		for _, s := range d.args {
			sorts[s] = true
		}
	}
	// datatypes in dependency order; a sort text mentioning a datatype needs it
	needed := map[string]bool{}
	var need func(s string)
	need = func(s string) {
		for _, w := range strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '(' || r == ')' }) {
			if d, ok := c.dts[w]; ok && !needed[w] {
				needed[w] = true
				for _, fs := range d.sorts {
					need(fs)
				}
			}
			if w == SStr {
				needed[SStr] = true
			}
		}
	}
	for s := range sorts {
		need(s)
	}
	if needed[SStr] {
		b.WriteString("(declare-sort Str 0)\n")
	}
	for _, n := range c.dtOrd {
		if !needed[n] {
			continue
		}
		d := c.dts[n]
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s", n, d.ctor)
		for i, f := range d.fields {
			fmt.Fprintf(&b, " (%s %s)", sym(f), d.sorts[i])
		}
		b.WriteString("))))\n")
	}
	var cs []*Term
	for t := range consts {
		cs = append(cs, t)
	}
	sortTerms(cs)
	var lits []string
	for _, t := range cs {
		fmt.Fprintf(&b, "(declare-const %s %s)\n", sym(t.name), t.sort)
		if strings.HasPrefix(t.name, "lit$") {
			lits = append(lits, sym(t.name))
		}
	}
	if len(lits) > 1 {
		fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(lits, " "))
	}
	var fs []string
	for f := range funcs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		d := c.decls[f]
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", sym(f), strings.Join(d.args, " "), d.ret)
	}
	if boundSqrt {
		b.WriteString("(assert (forall ((x Real)) (! (=> (<= 0.0 x) (and (<= 0.0 (sqrt x)) (= (* (sqrt x) (sqrt x)) x))) :pattern ((sqrt x)))))\n")
	}
	if boundTrig {
		b.WriteString("(assert (forall ((x Real)) (! (and (= (+ (* (sin x) (sin x)) (* (cos x) (cos x))) 1.0) (<= (- 1.0) (sin x) 1.0)) :pattern ((sin x)))))\n")
		b.WriteString("(assert (forall ((x Real)) (! (and (= (+ (* (sin x) (sin x)) (* (cos x) (cos x))) 1.0) (<= (- 1.0) (cos x) 1.0)) :pattern ((cos x)))))\n")
	}
	names := map[*Term]string{}
	for _, t := range order {
		if t.bound || len(t.args) == 0 || count[t] < 2 || t.op == "forall" || t.op == "exists" {
			continue
		}
		if len(t.args) == 1 && t.args[0].op == "const" {
			continue
		}
		if t.quant {
			continue
		}
		n := fmt.Sprintf("t!%d", t.id)
		var tb strings.Builder
		writeTerm(&tb, t, names, 0)
		names[t] = n
		fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.sort, tb.String())
	}
	pr := func(t *Term) string {
		curTrigs = c.trigs
		var tb strings.Builder
		writeTerm(&tb, t, names, 0)
		return tb.String()
	}
	return b.String(), pr
}

// ---- solvers ----

type solverCfg struct {
	name string
	bin  string
	args func(ms int) []string
}

var solvers = map[string]solverCfg{
	"z3-5.3": {"z3-5.3", "/usr/local/bin/z3-new", func(ms int) []string { return []string{"-in", fmt.Sprintf("-t:%d", ms), "-memory:3000"} }},
	"z3-4.8": {"z3-4.8", "/usr/bin/z3", func(ms int) []string { return []string{"-in", fmt.Sprintf("-t:%d", ms), "-memory:3000"} }},
	"cvc5":   {"cvc5", "/usr/bin/cvc5", func(ms int) []string { return []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-"} }},
}

func init() {
	look := func(k string, names ...string) {
		for _, n := range names {
			if p, err := exec.LookPath(n); err == nil {
				s := solvers[k]
				s.bin = p
				solvers[k] = s
				return
			}
		}
	}
	look("z3-5.3", "/usr/local/bin/z3-new", "z3-new", "z3")
	look("z3-4.8", "/usr/bin/z3", "z3")
	look("cvc5", "/usr/bin/cvc5", "cvc5")
}

var solverTime int64 // ns, summed over processes
var solverCalls int64

var procSem = make(chan struct{}, 8)

func runSolver(ctx context.Context, name, script string, ms int) (string, time.Duration) {
	procSem <- struct{}{}
	defer func() { <-procSem }()
	if ctx.Err() != nil {
		return "canceled", 0
	}
	cfg := solvers[name]
	cx, cancel := context.WithTimeout(ctx, time.Duration(ms+1500)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(cx, cfg.bin, cfg.args(ms)...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	_ = cmd.Run()
	d := time.Since(t0)
	atomic.AddInt64(&solverTime, int64(d))
	atomic.AddInt64(&solverCalls, 1)
	return out.String(), d
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
			return l
		}
	}
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if s == "" {
		return "timeout"
	}
	return s
}

// ---- preprocessing ----

// goalParts splits pc => (a and (b => c) ...) into separate (hypotheses, goal) pairs.
type part struct {
	hyps []*Term
	goal *Term
}

func (e *Engine) goalParts(t *Term) []part {
	c := e.c
	switch t.op {
	case "=>":
		var hs []*Term
		hs = append(hs, conjuncts(t.args[0])...)
		var out []part
		for _, p := range e.goalParts(t.args[1]) {
			out = append(out, part{append(append([]*Term{}, hs...), p.hyps...), p.goal})
		}
		return out
	case "and":
		var out []part
		for _, a := range t.args {
			out = append(out, e.goalParts(a)...)
		}
		return out
	case "forall":
		if x, ok := c.expand(t, 128); ok {
			return e.goalParts(x)
		}
		// skolemise
		m := map[*Term]*Term{}
		for _, v := range t.bvars {
			n := v.name
			if i := strings.IndexByte(n, '?'); i >= 0 {
				n = n[:i]
			}
			m[v] = c.Fresh("sk$"+n, v.sort)
		}
		return e.goalParts(c.Subst(t.args[0], m))
	case "=":
		if t.args[0].sort == SBool {
			a, b := t.args[0], t.args[1]
			return append(e.goalParts(c.Implies(a, b)), e.goalParts(c.Implies(b, a))...)
		}
		if strings.HasPrefix(t.args[0].sort, "(Array") {
			k := c.Fresh("ext", arrIdx(t.args[0].sort))
			return e.goalParts(c.Eq(c.Select(t.args[0], k), c.Select(t.args[1], k)))
		}
		if d, ok := c.dts[t.args[0].sort]; ok {
			var gs []*Term
			for i := range d.sorts {
				gs = append(gs, c.Eq(c.Sel(t.args[0], i), c.Sel(t.args[1], i)))
			}
			return e.goalParts(c.And(gs...))
		}
	case "or":
		// universally quantified disjuncts
		for i, a := range t.args {
			if a.op == "forall" {
				m := map[*Term]*Term{}
				for _, v := range a.bvars {
					m[v] = c.Fresh("sk", v.sort)
				}
				as := append([]*Term{}, t.args...)
				as[i] = c.Subst(a.args[0], m)
				return e.goalParts(c.Or(as...))
			}
		}
		// not p or q: p is a hypothesis
		var hs, rest []*Term
		for _, a := range t.args {
			if a.op == "not" {
				hs = append(hs, conjuncts(a.args[0])...)
			} else {
				rest = append(rest, a)
			}
		}
		if len(hs) > 0 && len(rest) == 1 {
			var out []part
			for _, p := range e.goalParts(rest[0]) {
				out = append(out, part{append(append([]*Term{}, hs...), p.hyps...), p.goal})
			}
			return out
		}
	case "true":
		return nil
	}
	return []part{{nil, t}}
}

// simplifyHyps uses the literals in known to simplify conditional facts,
// and substitutes constants defined by equations.
func (e *Engine) simplify(hyps []*Term, goal *Term) ([]*Term, *Term) {
	c := e.c
	for round := 0; round < 6; round++ {
		// flatten
		var flat []*Term
		seen := map[*Term]bool{}
		for _, h := range hyps {
			for _, x := range conjuncts(h) {
				if x.op == "true" || seen[x] {
					continue
				}
				if x.op == "false" {
					return []*Term{x}, goal
				}
				seen[x] = true
				flat = append(flat, x)
			}
		}
		hyps = flat
		// literals
		lit := map[*Term]*Term{}
		for _, h := range hyps {
			if h.quant && h.op != "forall" {
				continue
			}
			switch h.op {
			case "not":
				lit[h.args[0]] = c.False()
			case "=>", "or", "forall", "and":
			default:
				lit[h] = c.True()
			}
		}
		// definitions
		def := map[*Term]*Term{}
		isDef := map[*Term]bool{}
		defd := map[*Term]bool{}
		for _, h := range hyps {
			if h.op == "const" && h.sort == SBool {
				def[h] = c.True()
				isDef[h] = true
				continue
			}
			if h.op == "not" && h.args[0].op == "const" {
				def[h.args[0]] = c.False()
				isDef[h] = true
				continue
			}
			if h.op != "=" {
				continue
			}
			for k := 0; k < 2; k++ {
				l, r := h.args[k], h.args[1-k]
				if l.op == "const" && def[l] == nil && !strings.HasPrefix(l.name, "lit$") && l.name != "float$Inf" {
					if r.bound {
						continue
					}
					// resolve r through definitions made so far, and look for cycles
					r2 := c.Subst(r, def)
					if e.mentionsAny(r2, map[*Term]bool{l: true}, nil) {
						continue
					}
					// earlier definitions may mention l: substitute
					for d := range def {
						def[d] = c.Subst(def[d], map[*Term]*Term{l: r2})
					}
					def[l] = r2
					isDef[h] = true
					defd[l] = true
					break
				}
			}
		}
		changed := len(def) > 0
		if len(def) > 0 {
			var nh []*Term
			for _, h := range hyps {
				if isDef[h] {
					continue
				}
				nh = append(nh, c.Subst(h, def))
			}
			hyps = nh
			goal = c.Subst(goal, def)
		}
		// unit propagation into conditional facts
		lit2 := map[*Term]*Term{}
		for l, v := range lit {
			lit2[c.Subst(l, def)] = v
		}
		var nh []*Term
		for _, h := range hyps {
			switch h.op {
			case "=>", "or":
				m := lit2
				x := c.Subst(h, m)
				if x != h {
					changed = true
				}
				nh = append(nh, x)
			default:
				nh = append(nh, h)
			}
		}
		hyps = nh
		g2 := goal
		if goal.op != "const" {
			g2 = c.Subst(goal, lit2)
		}
		if g2 != goal {
			goal = g2
			changed = true
		}
		if !changed {
			break
		}
	}
	return hyps, goal
}

// recApps collects the ground recursive applications in ts.
func (e *Engine) recApps(ts []*Term, seen map[*Term]bool, out *[]*Term) {
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "app" && !t.bound && e.recBySym(t.name) != nil && e.recBySym(t.name).body != nil {
			*out = append(*out, t)
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, t := range ts {
		visit(t)
	}
}

func (e *Engine) unfoldings(ts []*Term, rounds int) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	cur := ts
	for i := 0; i < rounds; i++ {
		var apps []*Term
		e.recApps(cur, seen, &apps)
		cur = nil
		for _, a := range apps {
			eq := e.c.Eq(a, e.unfold(a))
			out = append(out, eq)
			cur = append(cur, eq)
		}
		if len(out) > 400 {
			break
		}
	}
	return out
}

// recAxioms: definitions as quantified axioms, for applications inside quantifiers.
func (e *Engine) recAxioms(ts []*Term) []*Term {
	used := map[string]bool{}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "app" && t.bound {
			used[t.name] = true
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, t := range ts {
		visit(t)
	}
	var out []*Term
	var ns []string
	for n := range e.recDefs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		ri := e.recDefs[n]
		if ri.body == nil || !used[ri.sym] {
			continue
		}
		app := e.c.App(ri.sym, ri.sort, ri.vars...)
		q := e.c.Forall(ri.vars, e.c.Eq(app, ri.body))
		if q.op == "forall" && len(q.bvars) == len(ri.vars) {
			e.c.trigs[q] = [][]*Term{{app}}
		}
		out = append(out, q)
	}
	return out
}

type query struct {
	hyps []*Term
	goal *Term
}

func (q *query) hasQuant() bool {
	for _, h := range q.hyps {
		if h.quant {
			return true
		}
	}
	return q.goal.quant
}

func (e *Engine) script(hyps []*Term, goal *Term, logic string, tail string) string {
	ng := e.c.Not(goal)
	decl, pr := querySMT(e.c, hyps, []*Term{ng})
	var b strings.Builder
	if logic != "" {
		b.WriteString("(set-logic " + logic + ")\n")
	}
	b.WriteString(decl)
	for _, h := range hyps {
		b.WriteString("(assert " + pr(h) + ")\n")
	}
	b.WriteString("(assert " + pr(ng) + ")\n")
	if tail == "" {
		tail = "(check-sat)\n"
	}
	b.WriteString(tail)
	return b.String()
}

// hypsFor collects the facts available to an obligation.
func (e *Engine) hypsFor(o *Obl) []*Term {
	var hs []*Term
	for _, f := range e.facts[:o.nfacts] {
		if f.cand != nil && !f.cand.alive {
			continue
		}
		hs = append(hs, f.t)
	}
	return hs
}

type job struct {
	label  string
	solver string
	script string
	ms     int
}

// prepared is an obligation part with its scripts.
type prepared struct {
	o       *Obl
	idx     int
	stage1  []job
	stage2  []job
	stage3  []job
	res     string
	by      string
	dur     time.Duration
	model   string
	trivial bool
	alt     *altProof
}

// altProof is a second way to prove the part of an obligation that several
// prepared ones belong to: from fewer hypotheses.
type altProof struct {
	once sync.Once
	ps   []*prepared
	ok   bool
	by   string
}

func (a *altProof) run() bool {
	a.once.Do(func() {
		a.ok = true
		for _, p := range a.ps {
			p.run()
			if p.res != "unsat" {
				a.ok = false
				return
			}
			if a.by == "" || a.by == "simplifier" {
				a.by = p.by
			}
		}
	})
	return a.ok
}

// softDeadline: after it only the short solver stages run.
var softDeadline = time.Now().Add(24 * time.Hour)

var dumpDir = os.Getenv("GOVC_DUMP")

func (e *Engine) prepare(o *Obl, thorough bool) []*prepared {
	base := e.hypsFor(o)
	return e.prepareParts(o, base, e.goalParts(o.goal), thorough, true)
}

func (e *Engine) prepareParts(o *Obl, base []*Term, goals []part, thorough bool, first bool) []*prepared {
	c := e.c
	var out []*prepared
	mult := 1
	if thorough {
		mult = 3
	}
	var parts []part
	var alts []*altProof
	for _, p := range goals {
		var alt *altProof
		if first && nonlinear(p.goal, map[*Term]bool{}) {
			all := append(append([]*Term{}, base...), p.hyps...)
			if few := e.sameRecs(all, p.goal); len(few) < len(all) {
				alt = &altProof{ps: e.prepareParts(o, few, []part{{nil, p.goal}}, thorough, false)}
				for _, q := range alt.ps {
					q.stage3 = nil
				}
			}
		}
		hyps, goal := e.simplify(append(append([]*Term{}, base...), p.hyps...), p.goal)
		if ps := e.caseSplit(hyps, goal, 4); len(ps) <= 12 {
			parts = append(parts, ps...)
		} else {
			parts = append(parts, part{hyps, goal})
		}
		for len(alts) < len(parts) {
			alts = append(alts, alt)
		}
	}
	for i, p := range parts {
		pr := &prepared{o: o, idx: i, alt: alts[i]}
		hyps, goal := p.hyps, p.goal
		if goal.op == "true" || len(hyps) == 1 && hyps[0].op == "false" {
			pr.trivial = true
			out = append(out, pr)
			continue
		}
		if e.polyProves(hyps, goal) {
			pr.trivial = true
			pr.by = "polynomial identity"
			out = append(out, pr)
			continue
		}
		unf := e.unfoldings([]*Term{goal}, 2)
		full := append(append([]*Term{}, hyps...), unf...)
		recAx := e.recAxioms(append(append([]*Term{}, hyps...), goal))
		li := e.lemmaInstances(hyps, append(append([]*Term{goal}, hyps...), unf...), 2, 120)
		unf = append(unf, li...)
		var qf []*Term
		for _, h := range append(append([]*Term{}, hyps...), unf...) {
			if !h.quant {
				qf = append(qf, h)
			}
		}
		nq := len(qf)
		var inst []*Term
		if nonlinear(goal, map[*Term]bool{}) || e.anyNonlinearOf(qf) {
			qf = append(qf, e.groundInstances(hyps, goal)...)
		}
		for _, t := range e.arrayInstances(append(append([]*Term{}, hyps...), unf...), goal, 200) {
			if !t.quant {
				qf = append(qf, t)
			}
			inst = append(inst, t)
		}
		nq = len(qf) - nq
		hasQ := len(qf)-nq != len(full)
		near := e.cone(qf, goal)
		if !goal.quant || goal.op == "exists" {
			s := e.script(near, goal, "", "")
			pr.stage1 = append(pr.stage1, job{"qf", "z3-5.3", s, 1500})
			if rel := e.sameRecs(near, goal); len(rel) < len(near) {
				s := e.script(rel, goal, "", "")
				pr.stage2 = append(pr.stage2, job{"rel", "z3-5.3", s, 4000})
				pr.stage3 = append(pr.stage3, job{"rel", "z3-5.3", s, 15000 * mult}, job{"rel", "z3-4.8", s, 15000 * mult})
			}
		}
		if hasQ {
			s := e.script(append(full, inst...), goal, "", "")
			if len(recAx) > 0 {
				s2 := e.script(append(append(append([]*Term{}, full...), recAx...), inst...), goal, "", "")
				pr.stage3 = append(pr.stage3, job{"rec", "z3-5.3", s2, 15000 * mult})
			}
			pr.stage2 = append(pr.stage2, job{"full", "z3-5.3", s, 3000})
			pr.stage3 = append(pr.stage3, job{"full", "z3-5.3", s, 20000 * mult}, job{"full", "cvc5", s, 20000 * mult}, job{"full", "z3-4.8", s, 20000 * mult})
		}
		if len(pr.stage1) > 0 {
			s := pr.stage1[0].script
			if len(near) != len(qf) {
				s = e.script(qf, goal, "", "")
			}
			pr.stage3 = append(pr.stage3, job{"qf", "cvc5", s, 15000 * mult}, job{"qf", "z3-4.8", s, 15000 * mult}, job{"qf", "z3-5.3", s, 15000 * mult})
			if sl := e.nraScript(near, goal); sl != "" {
				pr.stage2 = append(pr.stage2, job{"nra", "z3-5.3", sl, 3000})
				pr.stage3 = append(pr.stage3, job{"nra", "z3-5.3", sl, 15000 * mult}, job{"nra", "cvc5", sl, 15000 * mult})
			}
		}
		_ = c
		out = append(out, pr)
	}
	return out
}

// caseSplit distinguishes the cases of a nonlinear goal that reads updated
// memory or conditional values, so that each case is plain arithmetic.
func (e *Engine) caseSplit(hyps []*Term, goal *Term, depth int) []part {
	c := e.c
	if depth == 0 || goal.quant || goal.op == "true" || len(hyps) == 1 && hyps[0].op == "false" || !nonlinear(goal, map[*Term]bool{}) {
		return []part{{hyps, goal}}
	}
	var cond *Term
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if cond != nil || seen[t] || t.bound {
			return
		}
		seen[t] = true
		switch t.op {
		case "ite":
			if !t.args[0].quant {
				cond = t.args[0]
				return
			}
		case "select":
			if a := t.args[0]; a.op == "store" {
				if q := c.Eq(t.args[1], a.args[1]); q.op != "true" && q.op != "false" {
					cond = q
					return
				}
			}
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	visit(goal)
	if cond == nil {
		return []part{{hyps, goal}}
	}
	var out []part
	for _, l := range []*Term{cond, c.Not(cond)} {
		hs := append(append([]*Term{}, hyps...), l)
		if l.op == "=" && l.args[0].sort == SInt {
			if d := c.solveSkolem(l); d != nil {
				hs = append(hs, d)
			}
		}
		h2, g2 := e.simplify(hs, goal)
		out = append(out, e.caseSplit(h2, g2, depth-1)...)
	}
	return out
}

// solveSkolem turns a linear equation into a definition of a skolem constant.
func (c *Ctx) solveSkolem(eq *Term) *Term {
	d := c.Sub(eq.args[0], eq.args[1])
	if d.op != "+" {
		return nil
	}
	for _, a := range d.args {
		if a.op == "const" && strings.HasPrefix(a.name, "sk$") {
			return c.Eq(a, c.Sub(a, d))
		}
		if a.op == "*" && len(a.args) == 2 && a.args[0].op == "num" && a.args[0].num.Cmp(big.NewRat(-1, 1)) == 0 && a.args[1].op == "const" && strings.HasPrefix(a.args[1].name, "sk$") {
			return c.Eq(a.args[1], c.Add(a.args[1], d))
		}
	}
	return nil
}

func (e *Engine) anyNonlinearOf(ts []*Term) bool {
	seen := map[*Term]bool{}
	for _, t := range ts {
		if nonlinear(t, seen) {
			return true
		}
	}
	return false
}

// groundInstances instantiates the quantified hypotheses over indices with the
// index terms and skolem constants of the goal, so that the arithmetic solvers
// need no quantifiers.
func (e *Engine) groundInstances(hyps []*Term, goal *Term) []*Term {
	c := e.c
	var idx []*Term
	seenI := map[*Term]bool{}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		add := func(x *Term) {
			if !x.bound && x.sort == SInt && !seenI[x] {
				seenI[x] = true
				idx = append(idx, x)
			}
		}
		if t.op == "select" {
			add(t.args[1])
		}
		if t.op == "const" && strings.HasPrefix(t.name, "sk") && t.sort == SInt {
			add(t)
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	visit(goal)
	n := 0
	for _, h := range hyps {
		if !h.quant {
			visit(h)
			if n++; len(idx) > 12 {
				break
			}
		}
	}
	if len(idx) > 12 {
		idx = idx[:12]
	}
	var out []*Term
	for _, h := range hyps {
		if h.op != "forall" {
			continue
		}
		ok := len(h.bvars) <= 2
		for _, v := range h.bvars {
			ok = ok && v.sort == SInt
		}
		if !ok {
			continue
		}
		if len(h.bvars) == 1 {
			for _, x := range idx {
				t := c.Subst(h.args[0], map[*Term]*Term{h.bvars[0]: x})
				if !t.quant && t.op != "true" {
					out = append(out, t)
				}
			}
		} else if len(idx) <= 5 {
			for _, x := range idx {
				for _, y := range idx {
					t := c.Subst(h.args[0], map[*Term]*Term{h.bvars[0]: x, h.bvars[1]: y})
					if !t.quant && t.op != "true" {
						out = append(out, t)
					}
				}
			}
		}
		if len(out) > 200 {
			break
		}
	}
	return out
}

// cone keeps the hypotheses connected to the goal through shared constants.
func (e *Engine) cone(hyps []*Term, goal *Term) []*Term {
	syms := map[*Term]map[*Term]bool{}
	var collect func(t *Term, out map[*Term]bool, seen map[*Term]bool)
	collect = func(t *Term, out map[*Term]bool, seen map[*Term]bool) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "const" {
			out[t] = true
		}
		for _, a := range t.args {
			collect(a, out, seen)
		}
	}
	reach := map[*Term]bool{}
	collect(goal, reach, map[*Term]bool{})
	in := make([]bool, len(hyps))
	for _, h := range hyps {
		m := map[*Term]bool{}
		collect(h, m, map[*Term]bool{})
		syms[h] = m
	}
	for ch := true; ch; {
		ch = false
		for i, h := range hyps {
			if in[i] {
				continue
			}
			hit := len(syms[h]) == 0
			for s := range syms[h] {
				if reach[s] {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				ch = true
				for s := range syms[h] {
					reach[s] = true
				}
			}
		}
	}
	var out []*Term
	for i, h := range hyps {
		if in[i] {
			out = append(out, h)
		}
	}
	return out
}

// run decides a prepared part.
func (p *prepared) run() {
	if p.trivial {
		p.res = "unsat"
		if p.by == "" {
			p.by = "simplifier"
		}
		return
	}
	t0 := time.Now()
	defer func() { p.dur = time.Since(t0) }()
	ctx := context.Background()
	p.res = "unknown"
	for k, j := range append(append([]job{}, p.stage1...), p.stage2...) {
		if k == len(p.stage1) && p.alt != nil && p.alt.run() {
			p.res, p.by = "unsat", p.alt.by
			return
		}
		out, _ := runSolver(ctx, j.solver, j.script, j.ms)
		r := firstLine(out)
		if r == "unsat" {
			p.res, p.by = "unsat", j.solver
			return
		}
		if r != "sat" && r != "unknown" && r != "timeout" && r != "canceled" {
			dbg("solver %s says %q for %s", j.solver, r, p.o.name)
			p.model = r
		}
		if r == "sat" {
			p.res = "sat"
			if j.label == "full" || len(p.stage2) == 0 {
				// a definite counterexample to the obligation
				break
			}
		}
	}
	if p.res == "sat" && len(p.stage2) == 0 {
		return
	}
	if time.Now().After(softDeadline) {
		return
	}
	cctx, cancel := context.WithCancel(ctx)
	defer cancel()
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, j := range p.stage3 {
		wg.Add(1)
		go func(j job) {
			defer wg.Done()
			out, _ := runSolver(cctx, j.solver, j.script, j.ms)
			r := firstLine(out)
			mu.Lock()
			defer mu.Unlock()
			if r == "unsat" && p.res != "unsat" {
				p.res, p.by = "unsat", j.solver
				cancel()
			}
		}(j)
	}
	wg.Wait()
}

func dumpScript(name string, s string) {
	if dumpDir == "" {
		return
	}
	os.MkdirAll(dumpDir, 0o755)
	os.WriteFile(filepath.Join(dumpDir, sanitize(name)+".smt2"), []byte(s), 0o644)
}

// sameRecs leaves out the hypotheses about recursive functions the goal does not mention.
func (e *Engine) sameRecs(hyps []*Term, goal *Term) []*Term {
	recs := func(t *Term) map[string]bool {
		out := map[string]bool{}
		seen := map[*Term]bool{}
		var visit func(t *Term)
		visit = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == "app" && strings.HasPrefix(t.name, "fn_") {
				out[t.name] = true
			}
			for _, a := range t.args {
				visit(a)
			}
		}
		visit(t)
		return out
	}
	g := recs(goal)
	var out []*Term
	for _, h := range hyps {
		ok := true
		for n := range recs(h) {
			ok = ok && g[n]
		}
		if ok {
			out = append(out, h)
		}
	}
	return out
}
