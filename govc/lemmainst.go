package main

// ---- instances of lemmas at the terms that occur ----
//
// A lemma over sequences or memories is a quantified fact with a trigger. Here
// the trigger is matched against the terms of a query, so that the arithmetic
// solvers get the instances without quantifiers. A quantified hypothesis of the
// lemma becomes a hypothesis about a fresh constant: the instance
// (forall k. P(k)) => Q is weakened to P(sk) => Q for a new sk, which is what
// its negation normal form says (exists k. not P(k)) or Q.

func (e *Engine) match(pat, t *Term, isVar map[*Term]bool, m map[*Term]*Term) bool {
	if isVar[pat] {
		if b, ok := m[pat]; ok {
			return b == t
		}
		if pat.sort != t.sort {
			return false
		}
		m[pat] = t
		return true
	}
	if !pat.bound {
		return pat == t
	}
	if pat.op != t.op || pat.name != t.name || len(pat.args) != len(t.args) || pat.sort != t.sort {
		return false
	}
	for i := range pat.args {
		if !e.match(pat.args[i], t.args[i], isVar, m) {
			return false
		}
	}
	return true
}

func (e *Engine) lemmaInstances(hyps, ground []*Term, rounds, limit int) []*Term {
	c := e.c
	var qs []*Term
	for _, h := range hyps {
		if h.op != "forall" || len(c.trigs[h]) == 0 {
			continue
		}
		simple := len(h.bvars) <= 2
		for _, v := range h.bvars {
			simple = simple && v.sort == SInt
		}
		if !simple {
			qs = append(qs, h)
		}
	}
	if len(qs) == 0 {
		return nil
	}
	byName := map[string][]*Term{}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] || t.op == "forall" || t.op == "exists" {
			return
		}
		seen[t] = true
		if !t.bound && t.op == "app" {
			byName[t.name] = append(byName[t.name], t)
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, t := range ground {
		visit(t)
	}
	done := map[*Term]bool{}
	var out []*Term
	for r := 0; r < rounds; r++ {
		var fresh []*Term
		for _, q := range qs {
			isVar := map[*Term]bool{}
			for _, v := range q.bvars {
				isVar[v] = true
			}
			for _, trig := range c.trigs[q] {
				var rec func(i int, m map[*Term]*Term)
				rec = func(i int, m map[*Term]*Term) {
					if len(out)+len(fresh) > limit {
						return
					}
					if i == len(trig) {
						if len(m) != len(q.bvars) {
							return
						}
						t := e.weakenInst(c.Subst(q.args[0], m), m)
						if t != nil && t.op != "true" && !done[t] {
							done[t] = true
							fresh = append(fresh, t)
						}
						return
					}
					p := trig[i]
					if p.op != "app" {
						return
					}
					for _, t := range byName[p.name] {
						m2 := map[*Term]*Term{}
						for k, v := range m {
							m2[k] = v
						}
						if e.match(p, t, isVar, m2) {
							rec(i+1, m2)
						}
					}
				}
				rec(0, map[*Term]*Term{})
			}
		}
		out = append(out, fresh...)
		if len(fresh) == 0 {
			break
		}
		for _, t := range fresh {
			visit(t)
		}
	}
	return out
}

// weakenInst makes an instance of a lemma quantifier-free where it can.
func (e *Engine) weakenInst(t *Term, m map[*Term]*Term) *Term {
	c := e.c
	if t.op != "=>" {
		if t.quant {
			return nil
		}
		return t
	}
	var hs []*Term
	for _, h := range conjuncts(t.args[0]) {
		if h.op == "forall" {
			key := h
			sk, ok := e.instSk[key]
			if !ok {
				for _, v := range h.bvars {
					sk = append(sk, c.Fresh("sk$l", v.sort))
				}
				if e.instSk == nil {
					e.instSk = map[*Term][]*Term{}
				}
				e.instSk[key] = sk
			}
			s := map[*Term]*Term{}
			for i, v := range h.bvars {
				s[v] = sk[i]
			}
			h = c.Subst(h.args[0], s)
		}
		if h.quant {
			return nil
		}
		hs = append(hs, h)
	}
	g := t.args[1]
	if g.quant {
		return nil
	}
	return c.Implies(c.And(hs...), g)
}
