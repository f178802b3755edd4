package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---- ground instances of quantified facts ----
//
// The solvers find instances by matching terms; an index written i in a
// quantified fact and off+n-1-k at its use does not match. Here such instances
// are computed by solving the index equation. Adding an instance of a fact that
// is already a hypothesis is always sound.

type instPattern struct {
	key  string
	v    *Term // bound variable
	rest *Term // index = v + rest, or rest - v
	neg  bool
}

// accKey names what is accessed, and the index, if t is an indexed access.
func accKey(t *Term, arr *Term) (string, *Term) {
	if t.op == "select" {
		return fmt.Sprintf("a%d", arr.id), t.args[1]
	}
	if t.op == "app" && len(t.args) > 0 {
		for i := len(t.args) - 1; i >= 0; i-- {
			if t.args[i].sort == SInt {
				var b strings.Builder
				b.WriteString(t.name)
				for j, a := range t.args {
					if j != i {
						fmt.Fprintf(&b, ",%d", a.id)
					}
				}
				return b.String(), t.args[i]
			}
		}
	}
	return "", nil
}

func (e *Engine) arrayInstances(hyps []*Term, goal *Term, limit int) []*Term {
	c := e.c
	// ground accesses
	acc := map[string]map[*Term]bool{}
	// strings known to be equal share their accesses
	strEqs := false
	same := map[string][]string{}
	for _, h := range hyps {
		if h.op == "=" && h.args[0].sort == SStr && !h.bound {
			strEqs = true
			a, b := fmt.Sprintf("rune_at,%d", h.args[0].id), fmt.Sprintf("rune_at,%d", h.args[1].id)
			same[a] = append(same[a], b)
			same[b] = append(same[b], a)
		}
	}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	var addArr func(arr, idx *Term, depth int)
	var note func(k string, idx *Term)
	note = func(k string, idx *Term) {
		if acc[k] == nil {
			acc[k] = map[*Term]bool{}
		}
		if acc[k][idx] {
			return
		}
		acc[k][idx] = true
		for _, o := range same[k] {
			note(o, idx)
		}
	}
	addArr = func(arr, idx *Term, depth int) {
		note(fmt.Sprintf("a%d", arr.id), idx)
		if depth > 30 {
			return
		}
		switch arr.op {
		case "store":
			addArr(arr.args[0], idx, depth+1)
		case "ite":
			addArr(arr.args[1], idx, depth+1)
			addArr(arr.args[2], idx, depth+1)
		case "select": // the array of an object in an updated memory
			for m, n := arr.args[0], 0; n < 12; n++ {
				if m.op == "store" {
					addArr(m.args[2], idx, depth+1)
					m = m.args[0]
					if t := c.Select(m, arr.args[1]); t.op != "select" || t.args[0] != m {
						addArr(t, idx, depth+1)
						break
					}
					note(fmt.Sprintf("a%d", c.Select(m, arr.args[1]).id), idx)
					continue
				}
				break
			}
		}
	}
	visit = func(t *Term) {
		if seen[t] || (t.op == "forall" || t.op == "exists") && !strEqs {
			return
		}
		seen[t] = true
		if !t.bound {
			if t.op == "select" && t.args[1].sort == SInt {
				addArr(t.args[0], t.args[1], 0)
			} else if t.op == "app" {
				if _, ok := c.decls[t.name]; ok {
					if k, i := accKey(t, nil); k != "" {
						note(k, i)
					}
				}
			}
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	visit(goal)
	// patterns
	type quantified struct {
		h   *Term
		pat map[*Term][]instPattern
	}
	var qs []quantified
	for _, h := range hyps {
		if h.op != "forall" || len(h.bvars) > 2 {
			continue
		}
		isVar := map[*Term]bool{}
		ok := true
		for _, v := range h.bvars {
			isVar[v] = true
			ok = ok && v.sort == SInt
		}
		if !ok {
			continue
		}
		q := quantified{h, map[*Term][]instPattern{}}
		ps := map[*Term]bool{}
		var find func(t *Term)
		find = func(t *Term) {
			if ps[t] || !t.bound {
				return
			}
			ps[t] = true
			for _, a := range t.args {
				find(a)
			}
			var k string
			var idx *Term
			switch {
			case t.op == "select" && !t.args[0].bound && t.args[1].sort == SInt:
				k, idx = accKey(t, t.args[0])
			case t.op == "app":
				if _, ok := c.decls[t.name]; !ok {
					return
				}
				k, idx = accKey(t, nil)
				if k == "" {
					return
				}
				for _, a := range t.args {
					if a != idx && a.bound {
						return
					}
				}
			default:
				return
			}
			if idx == nil || !idx.bound {
				return
			}
			l := c.toLin(idx)
			var v *Term
			neg := false
			for x, co := range l.coef {
				if !x.bound {
					continue
				}
				if v != nil || !isVar[x] {
					return
				}
				if co.Cmp(big.NewRat(1, 1)) == 0 {
					v = x
				} else if co.Cmp(big.NewRat(-1, 1)) == 0 {
					v, neg = x, true
				} else {
					return
				}
			}
			if v == nil {
				return
			}
			rest := c.Sub(idx, v)
			if neg {
				rest = c.Add(idx, v)
			}
			q.pat[v] = append(q.pat[v], instPattern{k, v, rest, neg})
		}
		find(h.args[0])
		if len(q.pat) == len(h.bvars) {
			qs = append(qs, q)
		}
	}
	var out []*Term
	done := map[*Term]bool{}
	all := false
	for round := 0; round < 14; round++ {
		var fresh []*Term
		for _, q := range qs {
			vals := make([][]*Term, len(q.h.bvars))
			for i, v := range q.h.bvars {
				m := map[*Term]bool{}
				for _, p := range q.pat[v] {
					for t := range acc[p.key] {
						if p.neg {
							m[c.Sub(p.rest, t)] = true
						} else {
							m[c.Sub(t, p.rest)] = true
						}
					}
				}
				for t := range m {
					vals[i] = append(vals[i], t)
				}
				sort.Slice(vals[i], func(a, b int) bool { return vals[i][a].id < vals[i][b].id })
				max := 30
				if len(q.h.bvars) > 1 {
					max = 8
				}
				if len(vals[i]) > max {
					vals[i] = vals[i][:max]
				}
			}
			emit := func(m map[*Term]*Term) {
				t := c.Subst(q.h.args[0], m)
				if t.op == "true" || done[t] || t.bound {
					return
				}
				done[t] = true
				fresh = append(fresh, t)
			}
			for _, x := range vals[0] {
				if len(vals) == 1 {
					emit(map[*Term]*Term{q.h.bvars[0]: x})
					continue
				}
				for _, y := range vals[1] {
					emit(map[*Term]*Term{q.h.bvars[0]: x, q.h.bvars[1]: y})
				}
			}
			if len(out)+len(fresh) > limit {
				break
			}
		}
		out = append(out, fresh...)
		if len(out) > limit || all && (len(fresh) == 0 || round > 11) {
			break
		}
		if !all && (len(fresh) == 0 || round >= 9) {
			// what the goal leads to is complete; now the accesses of the facts
			all = true
			if round < 9 {
				round = 9
			}
			for _, h := range hyps {
				visit(h)
			}
		}
		for _, t := range fresh {
			visit(t)
		}
	}
	return out
}

// constRange finds constant bounds for the integer variable v among facts.
func (c *Ctx) constRange(v *Term, facts []*Term) (lo, hi int64, ok bool) {
	haveLo, haveHi := false, false
	for _, f := range facts {
		if f.op != "<=" {
			continue
		}
		l := c.toLin(f.args[1])
		c.addLin(l, f.args[0], big.NewRat(-1, 1)) // 0 <= l
		var t *Term
		n := 0
		for x, co := range l.coef {
			if co.Sign() != 0 {
				t = x
				n++
			}
		}
		if n != 1 || t != v || !l.k.IsInt() || !l.k.Num().IsInt64() {
			continue
		}
		k := l.k.Num().Int64()
		switch {
		case l.coef[v].Cmp(big.NewRat(1, 1)) == 0: // v >= -k
			if !haveLo || -k > lo {
				lo = -k
			}
			haveLo = true
		case l.coef[v].Cmp(big.NewRat(-1, 1)) == 0: // v <= k
			if !haveHi || k < hi {
				hi = k
			}
			haveHi = true
		}
	}
	return lo, hi, haveLo && haveHi
}

// expand turns a quantifier over one integer in a small constant range into
// the conjunction or disjunction of its instances.
func (c *Ctx) expand(q *Term, max int64) (*Term, bool) {
	if q.op != "forall" && q.op != "exists" || len(q.bvars) != 1 || q.bvars[0].sort != SInt {
		return q, false
	}
	v, body := q.bvars[0], q.args[0]
	var facts []*Term
	if q.op == "exists" {
		facts = conjuncts(body)
	} else if body.op == "=>" {
		facts = conjuncts(body.args[0])
	} else {
		return q, false
	}
	lo, hi, ok := c.constRange(v, facts)
	if !ok || hi-lo >= max {
		return q, false
	}
	var parts []*Term
	for i := lo; i <= hi; i++ {
		parts = append(parts, c.Subst(body, map[*Term]*Term{v: c.Int(i)}))
	}
	if q.op == "exists" {
		return c.Or(parts...), true
	}
	return c.And(parts...), true
}
