package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"
)

// ---- polynomial reasoning over the reals ----
//
// polyProves decides whether an equation follows from the equations among
// the hypotheses by linear combination of polynomial multiples of them
// (bounded ideal membership, exact rational arithmetic).

type poly map[string]*pmono

type pmono struct {
	atoms []int // sorted term ids, with repetition
	k     *big.Rat
}

func monoKey(a []int) string {
	var b strings.Builder
	for _, x := range a {
		fmt.Fprintf(&b, "%d,", x)
	}
	return b.String()
}

const polyCap = 4000

type tooBig struct{}

func (p poly) add(a []int, k *big.Rat) {
	key := monoKey(a)
	if m, ok := p[key]; ok {
		m.k = new(big.Rat).Add(m.k, k)
		if m.k.Sign() == 0 {
			delete(p, key)
		}
		return
	}
	if k.Sign() != 0 {
		if len(p) > polyCap {
			panic(tooBig{})
		}
		p[key] = &pmono{a, new(big.Rat).Set(k)}
	}
}

func mergeAtoms(a, b []int) []int {
	r := make([]int, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i] <= b[j] {
			r = append(r, a[i])
			i++
		} else {
			r = append(r, b[j])
			j++
		}
	}
	r = append(r, a[i:]...)
	return append(r, b[j:]...)
}

func (p poly) mul(q poly) poly {
	r := poly{}
	for _, a := range p {
		for _, b := range q {
			r.add(mergeAtoms(a.atoms, b.atoms), new(big.Rat).Mul(a.k, b.k))
		}
	}
	return r
}

func (p poly) degree() int {
	d := 0
	for _, m := range p {
		if len(m.atoms) > d {
			d = len(m.atoms)
		}
	}
	return d
}

type expander struct {
	c     *Ctx
	memo  map[*Term]poly
	atoms map[int]*Term
}

func (x *expander) expand(t *Term) poly {
	if p, ok := x.memo[t]; ok {
		return p
	}
	var p poly
	switch t.op {
	case "num":
		p = poly{}
		p.add(nil, t.num)
	case "+":
		p = poly{}
		for _, a := range t.args {
			for _, m := range x.expand(a) {
				p.add(m.atoms, m.k)
			}
		}
	case "*":
		p = poly{}
		p.add(nil, big.NewRat(1, 1))
		for _, a := range t.args {
			p = x.trig(p.mul(x.expand(a)))
		}
	case "to_real":
		p = x.expand(t.args[0])
	default:
		p = poly{}
		x.atoms[t.id] = t
		p.add([]int{t.id}, big.NewRat(1, 1))
	}
	x.memo[t] = p
	return p
}

// trig rewrites sin(a)^2 as 1 - cos(a)^2.
func (x *expander) trig(p poly) poly {
	for {
		var hit *pmono
		at := -1
		for _, m := range p {
			for i := 0; i+1 < len(m.atoms); i++ {
				if m.atoms[i] == m.atoms[i+1] {
					if t := x.atoms[m.atoms[i]]; t != nil && t.op == "app" && t.name == "sin" {
						hit, at = m, i
					}
				}
			}
			if hit != nil {
				break
			}
		}
		if hit == nil {
			return p
		}
		cs := x.c.App("cos", SReal, x.atoms[hit.atoms[at]].args[0])
		x.atoms[cs.id] = cs
		rest := append(append([]int{}, hit.atoms[:at]...), hit.atoms[at+2:]...)
		k := hit.k
		delete(p, monoKey(hit.atoms))
		p.add(rest, k)
		p.add(mergeAtoms(rest, []int{cs.id, cs.id}), new(big.Rat).Neg(k))
	}
}

// divides returns b/a for monomials, if a divides b.
func cofactor(a, b []int) ([]int, bool) {
	var r []int
	i := 0
	for _, y := range b {
		if i < len(a) && a[i] == y {
			i++
		} else {
			r = append(r, y)
		}
	}
	return r, i == len(a)
}

// divisions collects the real divisions inside terms.
func divisions(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "/" && !t.bound {
			out = append(out, t)
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return out
}

// knownNonzero: q != 0 follows from a hypothesis literally.
func (e *Engine) knownNonzero(hyps []*Term, q *Term) bool {
	c := e.c
	zero := c.Num(new(big.Rat), q.sort)
	if c.Eq(q, zero).op == "false" {
		return true
	}
	ne := c.Not(c.Eq(q, zero))
	gt, lt := c.Lt(zero, q), c.Lt(q, zero)
	for _, h := range hyps {
		if h == ne || h == gt || h == lt {
			return true
		}
	}
	if q.op == "*" {
		for _, a := range q.args {
			if !e.knownNonzero(hyps, a) {
				return false
			}
		}
		return true
	}
	return false
}

func flatHyps(hyps []*Term) []*Term {
	var out []*Term
	for _, h := range hyps {
		out = append(out, conjuncts(h)...)
	}
	return out
}

func (e *Engine) polyProves(hyps []*Term, goal *Term) (ok bool) {
	if goal.op != "=" || goal.args[0].sort != SReal && goal.args[0].sort != SInt {
		return false
	}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(tooBig); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	deadline := time.Now().Add(2 * time.Second)
	x := &expander{e.c, map[*Term]poly{}, map[int]*Term{}}
	diff := func(t *Term) poly {
		p := poly{}
		for _, m := range x.expand(t.args[0]) {
			p.add(m.atoms, m.k)
		}
		for _, m := range x.expand(t.args[1]) {
			p.add(m.atoms, new(big.Rat).Neg(m.k))
		}
		return p
	}
	g := diff(goal)
	if len(g) == 0 {
		return true
	}
	hyps = flatHyps(hyps)
	var eqs []poly
	for _, h := range hyps {
		if h.op == "=" && !h.quant && (h.args[0].sort == SReal || h.args[0].sort == SInt) {
			if p := func() (p poly) {
				defer func() {
					if r := recover(); r != nil {
						if _, is := r.(tooBig); !is {
							panic(r)
						}
						p = nil
					}
				}()
				return diff(h)
			}(); len(p) > 0 && len(p) < 400 {
				eqs = append(eqs, p)
			}
		}
	}
	var denoms []poly
	for _, d := range divisions(append(append([]*Term{}, hyps...), goal)) {
		if !e.knownNonzero(hyps, d.args[1]) {
			continue
		}
		q := x.expand(d.args[1])
		dp := poly{}
		dp.add([]int{d.id}, big.NewRat(1, 1))
		p := dp.mul(q)
		for _, m := range x.expand(d.args[0]) {
			p.add(m.atoms, new(big.Rat).Neg(m.k))
		}
		if len(p) < 400 {
			eqs = append(eqs, p)
		}
		used := false
		for _, m := range g {
			for _, a := range m.atoms {
				if a == d.id {
					used = true
				}
			}
		}
		if used && len(q) < 60 {
			denoms = append(denoms, q)
		}
	}
	if len(eqs) == 0 {
		return false
	}
	if member(g, eqs, deadline) {
		return true
	}
	// cancel nonzero factors
	mul := g
	n := 0
	seen := map[string]bool{}
	for _, d := range denoms {
		k := polyKey(d)
		if seen[k] || n >= 3 {
			continue
		}
		seen[k] = true
		n++
		mul = mul.mul(d)
		if member(mul, eqs, deadline) {
			return true
		}
	}
	// nonzero literals among the hypotheses, one at a time
	for _, h := range hyps {
		if time.Now().After(deadline) {
			break
		}
		var z *Term
		if h.op == "not" && h.args[0].op == "=" && h.args[0].args[0].sort == SReal {
			z = h.args[0]
		}
		if z == nil {
			continue
		}
		zp := diff(z)
		if len(zp) < 30 && !seen[polyKey(zp)] {
			if member(g.mul(zp), eqs, deadline) {
				return true
			}
		}
	}
	return false
}

func polyKey(p poly) string {
	var ks []string
	for k, m := range p {
		ks = append(ks, k+":"+m.k.String())
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// member reports whether g is a combination of bounded multiples of eqs.
func member(g poly, eqs []poly, deadline time.Time) bool {
	maxDeg := g.degree() + 1
	for _, q := range eqs {
		if d := q.degree(); d > maxDeg {
			// allow equations of higher degree only through their smaller monomials
			_ = d
		}
	}
	const maxRows = 900
	targets := map[string][]int{}
	var order []string
	addT := func(a []int) {
		k := monoKey(a)
		if _, ok := targets[k]; !ok {
			targets[k] = a
			order = append(order, k)
		}
	}
	var gm [][]int
	for _, m := range g {
		gm = append(gm, m.atoms)
	}
	sort.Slice(gm, func(i, j int) bool { return monoKey(gm[i]) < monoKey(gm[j]) })
	for _, a := range gm {
		addT(a)
	}
	done := map[string]bool{}
	basis := map[string]poly{} // leading key -> row
	reduce := func(r poly) poly {
		r2 := poly{}
		for _, m := range r {
			r2.add(m.atoms, m.k)
		}
		for {
			var lead string
			for k := range r2 {
				if _, ok := basis[k]; ok && (lead == "" || k > lead) {
					lead = k
				}
			}
			if lead == "" {
				return r2
			}
			b := basis[lead]
			f := new(big.Rat).Neg(new(big.Rat).Quo(r2[lead].k, b[lead].k))
			for _, m := range b {
				r2.add(m.atoms, new(big.Rat).Mul(m.k, f))
			}
			if len(r2) > polyCap || time.Now().After(deadline) {
				return r2
			}
		}
	}
	addRow := func(r poly) {
		r = reduce(r)
		if len(r) == 0 {
			return
		}
		lead := ""
		ll := -1
		for k, m := range r {
			if len(m.atoms) > ll || len(m.atoms) == ll && k > lead {
				ll, lead = len(m.atoms), k
			}
		}
		// keep the basis reduced with respect to the new leading monomial
		for k, b := range basis {
			if m, ok := b[lead]; ok {
				f := new(big.Rat).Neg(new(big.Rat).Quo(m.k, r[lead].k))
				nb := poly{}
				for _, mm := range b {
					nb.add(mm.atoms, mm.k)
				}
				for _, mm := range r {
					nb.add(mm.atoms, new(big.Rat).Mul(mm.k, f))
				}
				basis[k] = nb
			}
		}
		basis[lead] = r
	}
	rows := 0
	for round := 0; round < 4; round++ {
		var fresh []poly
		pend := order
		order = nil
		for _, k := range pend {
			t := targets[k]
			for qi, q := range eqs {
				for _, m := range q {
					if len(m.atoms) == 0 {
						continue
					}
					cf, ok := cofactor(m.atoms, t)
					if !ok || len(cf)+q.degree() > maxDeg+2 {
						continue
					}
					rk := fmt.Sprintf("%d|%s", qi, monoKey(cf))
					if done[rk] {
						continue
					}
					done[rk] = true
					rows++
					if rows > maxRows || time.Now().After(deadline) {
						break
					}
					r := poly{}
					for _, mm := range q {
						r.add(mergeAtoms(mm.atoms, cf), mm.k)
					}
					fresh = append(fresh, r)
				}
			}
		}
		if len(fresh) == 0 {
			return false
		}
		for _, r := range fresh {
			var ks [][]int
			for _, m := range r {
				ks = append(ks, m.atoms)
			}
			sort.Slice(ks, func(i, j int) bool { return monoKey(ks[i]) < monoKey(ks[j]) })
			for _, a := range ks {
				addT(a)
			}
			addRow(r)
			if time.Now().After(deadline) {
				return false
			}
		}
		if len(reduce(g)) == 0 {
			return true
		}
		if rows > maxRows {
			return false
		}
	}
	return false
}

// ---- purified nonlinear real arithmetic ----

// nraScript abstracts every non-arithmetic term by a fresh real constant (ints
// become reals, which only weakens the hypotheses) and every other atom by a
// fresh Boolean, giving a quantifier-free problem over the reals.
func (e *Engine) nraScript(hyps []*Term, goal *Term) string {
	c := e.c
	if goal.quant {
		return ""
	}
	p := &purifier{c: c, memo: map[*Term]*Term{}, real: map[*Term]*Term{}}
	var hs []*Term
	for _, h := range hyps {
		if h.quant {
			continue
		}
		hs = append(hs, p.formula(h))
	}
	g := p.formula(goal)
	if !p.nonlin {
		return ""
	}
	hs = append(hs, p.extra...)
	decl, pr := querySMT(c, hs, []*Term{c.Not(g)})
	var b strings.Builder
	b.WriteString("(set-logic QF_NRA)\n")
	b.WriteString(decl)
	for _, h := range hs {
		if h.op != "true" {
			b.WriteString("(assert " + pr(h) + ")\n")
		}
	}
	b.WriteString("(assert " + pr(c.Not(g)) + ")\n(check-sat)\n")
	return b.String()
}

type purifier struct {
	c      *Ctx
	memo   map[*Term]*Term
	real   map[*Term]*Term
	extra  []*Term
	nonlin bool
	n      int
}

func (p *purifier) atom(t *Term, sort string) *Term {
	if k, ok := p.real[t]; ok {
		return k
	}
	p.n++
	k := p.c.RawConst(fmt.Sprintf("pur$%s%d", sort[:1], p.n), sort)
	p.real[t] = k
	return k
}

func (p *purifier) num(t *Term) (r *Term) {
	if m, ok := p.memo[t]; ok {
		return m
	}
	defer func() { p.memo[t] = r }()
	c := p.c
	switch t.op {
	case "num":
		return c.Num(t.num, SReal)
	case "+":
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = p.num(a)
		}
		return c.Add(as...)
	case "*":
		if t.args[0].op != "num" || len(t.args) > 2 {
			p.nonlin = true
		}
		r := p.num(t.args[0])
		for _, a := range t.args[1:] {
			r = c.Mul(r, p.num(a))
		}
		return r
	case "to_real":
		return p.num(t.args[0])
	case "ite":
		return c.Ite(p.formula(t.args[0]), p.num(t.args[1]), p.num(t.args[2]))
	case "/":
		p.nonlin = true
		k := p.atom(t, SReal)
		n, d := p.num(t.args[0]), p.num(t.args[1])
		p.extra = append(p.extra, c.Or(c.Eq(d, c.RealI(0)), c.Eq(c.Mul(k, d), n)))
		return k
	}
	return p.atom(t, SReal)
}

func (p *purifier) formula(t *Term) (r *Term) {
	if m, ok := p.memo[t]; ok {
		return m
	}
	defer func() { p.memo[t] = r }()
	c := p.c
	switch t.op {
	case "true", "false":
		return t
	case "not":
		return c.Not(p.formula(t.args[0]))
	case "and", "or":
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = p.formula(a)
		}
		if t.op == "and" {
			return c.And(as...)
		}
		return c.Or(as...)
	case "=>":
		return c.Implies(p.formula(t.args[0]), p.formula(t.args[1]))
	case "ite":
		return c.Ite(p.formula(t.args[0]), p.formula(t.args[1]), p.formula(t.args[2]))
	case "<=":
		return c.Le(p.num(t.args[0]), p.num(t.args[1]))
	case "=":
		switch t.args[0].sort {
		case SReal, SInt:
			return c.Eq(p.num(t.args[0]), p.num(t.args[1]))
		case SBool:
			return c.Eq(p.formula(t.args[0]), p.formula(t.args[1]))
		}
	}
	return p.atom(t, SBool)
}
