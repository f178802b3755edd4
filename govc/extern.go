package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- strings ----
//
// A string is an element of an uninterpreted sort with its number of runes
// (rlen), its runes (rune_at) and its number of bytes (blen). The operations
// below are described by these, for strings that hold valid UTF-8.

// strFact records a fact about the term t; if t is part of a quantified
// formula, the fact is quantified too.
func (e *Engine) strFact(t, f *Term) {
	c := e.c
	fv := c.freeVars(f)
	if len(fv) == 0 {
		e.assumeGlobal(f)
		return
	}
	var vs []*Term
	for v := range fv {
		vs = append(vs, v)
	}
	sortTerms(vs)
	q := c.Forall(vs, f)
	if q.op == "forall" {
		tv := c.freeVars(t)
		if len(tv) == len(vs) {
			c.trigs[q] = [][]*Term{{t}}
		}
	}
	e.assumeGlobal(q)
}

func (e *Engine) rawRune(s, i *Term) *Term {
	e.c.Declare("rune_at", SInt, SStr, SInt)
	return e.c.App("rune_at", SInt, s, i)
}

// litFacts: the runes of a literal.
func (e *Engine) litFacts(s *Term) {
	l, ok := e.c.strLits[s]
	if !ok {
		return
	}
	for i, r := range []rune(l) {
		if i > 60 {
			break
		}
		e.assumeGlobal(e.c.Eq(e.rawRune(s, e.c.Int(int64(i))), e.c.Int(int64(r))))
	}
}

func (e *Engine) strWF(s *Term) {
	if _, ok := e.c.strLits[s]; ok {
		return
	}
	e.strFact(s, e.c.And(e.c.Le(e.c.Int(0), e.rlen(s)), e.c.Le(e.rlen(s), e.blen(s))))
}

// strCat is concatenation, kept in left-nested form.
func (e *Engine) strCat(st *State, a, b *Term) *Term {
	c := e.c
	la, oka := c.strLits[a]
	lb, okb := c.strLits[b]
	switch {
	case oka && la == "":
		return b
	case okb && lb == "":
		return a
	case oka && okb:
		return c.StrLit(la + lb)
	case b.op == "app" && b.name == "strcat":
		return e.strCat(st, e.strCat(st, a, b.args[0]), b.args[1])
	}
	if okb && a.op == "app" && a.name == "strcat" {
		if l, ok := c.strLits[a.args[1]]; ok {
			return e.strCat(st, a.args[0], c.StrLit(l+lb))
		}
	}
	e.assumed["strings hold valid UTF-8"] = true
	c.Declare("strcat", SStr, SStr, SStr)
	t := c.App("strcat", SStr, a, b)
	e.strWF(a)
	e.strWF(b)
	na, nb := e.rlen(a), e.rlen(b)
	e.strFact(t, c.And(c.Eq(e.rlen(t), c.Add(na, nb)), c.Eq(e.blen(t), c.Add(e.blen(a), e.blen(b)))))
	i := c.FreshVar("i", SInt)
	in := func(n *Term) *Term { return c.And(c.Le(c.Int(0), i), c.Lt(i, n)) }
	if oka {
		for k, r := range []rune(la) {
			e.strFact(t, c.Eq(e.rawRune(t, c.Int(int64(k))), c.Int(int64(r))))
		}
	} else {
		e.strFact(t, c.Forall([]*Term{i}, c.Implies(in(na), c.Eq(e.rawRune(t, i), e.rawRune(a, i)))))
	}
	if okb {
		for k, r := range []rune(lb) {
			e.strFact(t, c.Eq(e.rawRune(t, c.Add(na, c.Int(int64(k)))), c.Int(int64(r))))
		}
	} else {
		e.strFact(t, c.Forall([]*Term{i}, c.Implies(in(nb), c.Eq(e.rawRune(t, c.Add(na, i)), e.rawRune(b, i)))))
	}
	return t
}

// strEq is equality: two strings with the same runes are the same.
func (e *Engine) strEq(st *State, a, b *Term) *Term {
	c := e.c
	q := c.Eq(a, b)
	if q.op == "true" || q.op == "false" {
		return q
	}
	if _, ok := c.strLits[a]; ok {
		a, b = b, a
	}
	if l, ok := c.strLits[b]; ok {
		// equal to a literal: rune by rune
		rs := []rune(l)
		if _, both := c.strLits[a]; !both && len(rs) <= 40 {
			fs := []*Term{c.Eq(e.rlen(a), c.Int(int64(len(rs))))}
			for i, r := range rs {
				fs = append(fs, c.Eq(e.rawRune(a, c.Int(int64(i))), c.Int(int64(r))))
			}
			e.strFact(q, c.Eq(q, c.And(fs...)))
		}
		return q
	}
	c.Declare("strdiff", SInt, SStr, SStr)
	d := c.App("strdiff", SInt, a, b)
	e.strFact(d, c.Or(q, c.Not(c.Eq(e.rlen(a), e.rlen(b))),
		c.And(c.Le(c.Int(0), d), c.Lt(d, e.rlen(a)), c.Not(c.Eq(e.rawRune(a, d), e.rawRune(b, d))))))
	return q
}

// itoa is the decimal representation of an integer.
func (e *Engine) itoa(n *Term) *Term {
	c := e.c
	if n.op == "num" {
		return c.StrLit(n.num.Num().String())
	}
	e.trusted["strconv.Itoa: one string of digits, possibly after a minus sign, per integer"] = true
	c.Declare("itoa", SStr, SInt)
	c.Declare("atoi", SInt, SStr)
	t := c.App("itoa", SStr, n)
	e.strFact(t, c.And(c.Eq(c.App("atoi", SInt, t), n), c.Le(c.Int(1), e.rlen(t)), c.Eq(e.blen(t), e.rlen(t))))
	i := c.FreshVar("i", SInt)
	r := e.rawRune(t, i)
	e.strFact(t, c.Forall([]*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, e.rlen(t))),
		c.Or(c.And(c.Le(c.Int('0'), r), c.Le(r, c.Int('9'))), c.And(c.Eq(i, c.Int(0)), c.Eq(r, c.Int('-')), c.Lt(n, c.Int(0)))))))
	return t
}

// constLen is the length of a slice value if it is a known small constant.
func constLen(n *Term) (int, bool) {
	if n.op != "num" || n.num.Sign() < 0 || n.num.Num().Int64() > 64 {
		return 0, false
	}
	return int(n.num.Num().Int64()), true
}

func (e *Engine) elemAt(st *State, el types.Type, s *Term, i *Term) *Term {
	c := e.c
	m := e.memFor(el)
	return c.Select(c.Select(e.getMem(st, m.key), c.Sel(s, 0)), c.Add(c.Sel(s, 1), i))
}

func (e *Engine) externalStr(st *State, fn *ssa.Function, pk, name string, args []Val) (Val, bool) {
	c := e.c
	T := func(i int) *Term { return e.asTermOf(st, args[i]) }
	switch pk + "." + name {
	case "strconv.Itoa":
		return e.itoa(T(0)), true
	case "strconv.FormatInt":
		if b := T(1); b.op == "num" && b.num.Num().Int64() == 10 {
			return e.itoa(T(0)), true
		}
	case "strings.Join":
		s := T(0)
		n, ok := constLen(c.Sel(s, 2))
		if !ok {
			return nil, false
		}
		e.trusted["strings.Join: the elements with the separator between them"] = true
		r := c.StrLit("")
		for i := 0; i < n; i++ {
			if i > 0 {
				r = e.strCat(st, r, T(1))
			}
			r = e.strCat(st, r, e.elemAt(st, types.Typ[types.String], s, c.Int(int64(i))))
		}
		return r, true
	}
	return nil, false
}

func (e *Engine) externalSort(st *State, pk, name string, args []Val) (Val, bool) {
	c := e.c
	switch pk + "." + name {
	case "sort.Ints", "sort.Float64s", "slices.Sort":
		var el types.Type = types.Typ[types.Int]
		if name == "Float64s" {
			el = types.Typ[types.Float64]
		}
		if name == "Sort" {
			return nil, false
		}
		s := e.asTermOf(st, args[0])
		e.trusted["sort."+name+": a sorted permutation"] = true
		old, nw := e.permute(st, el, s)
		i, j := c.FreshVar("i", SInt), c.FreshVar("j", SInt)
		off, n := c.Sel(s, 1), c.Sel(s, 2)
		_ = old
		if k, ok := constLen(n); ok {
			for a := 0; a+1 < k; a++ {
				e.assume(st, c.Le(c.Select(nw, c.Add(off, c.Int(int64(a)))), c.Select(nw, c.Add(off, c.Int(int64(a+1))))))
			}
		} else {
			e.assume(st, c.Forall([]*Term{i, j}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, j), c.Lt(j, n)),
				c.Le(c.Select(nw, c.Add(off, i)), c.Select(nw, c.Add(off, j))))))
		}
		return nil, true
	}
	return nil, false
}

// permute replaces the elements of slice s by some permutation of them.
func (e *Engine) permute(st *State, el types.Type, s *Term) (old, nw *Term) {
	c := e.c
	m := e.memFor(el)
	mem := e.getMem(st, m.key)
	ref, off, n := c.Sel(s, 0), c.Sel(s, 1), c.Sel(s, 2)
	old = c.Select(mem, ref)
	if k, ok := constLen(n); ok {
		p := make([]*Term, k)
		nw = old
		for a := 0; a < k; a++ {
			p[a] = c.Fresh("perm", SInt)
			e.assume(st, c.And(c.Le(c.Int(0), p[a]), c.Lt(p[a], c.Int(int64(k)))))
			for b := 0; b < a; b++ {
				e.assume(st, c.Not(c.Eq(p[a], p[b])))
			}
			v := c.Select(old, c.Add(off, c.Int(int64(k-1))))
			for b := k - 2; b >= 0; b-- {
				v = c.Ite(c.Eq(p[a], c.Int(int64(b))), c.Select(old, c.Add(off, c.Int(int64(b)))), v)
			}
			f := c.Fresh("sorted", old0(v))
			e.assume(st, c.Eq(f, v))
			nw = c.Store(nw, c.Add(off, c.Int(int64(a))), f)
		}
		st.mem[m.key] = c.Store(mem, ref, nw)
		return
	}
	nw = c.Fresh("sorted", old.sort)
	perm := c.Fresh("perm", arrSort(SInt, SInt))
	inv := c.Fresh("perminv", arrSort(SInt, SInt))
	i := c.FreshVar("i", SInt)
	in := func(x *Term) *Term { return c.And(c.Le(c.Int(0), x), c.Lt(x, n)) }
	pi := c.Select(perm, i)
	ii := c.Select(inv, i)
	e.assume(st, c.Forall([]*Term{i}, c.Implies(in(i), c.And(in(pi), c.Eq(c.Select(inv, pi), i), c.Eq(c.Select(nw, c.Add(off, i)), c.Select(old, c.Add(off, pi)))))))
	e.assume(st, c.Forall([]*Term{i}, c.Implies(in(i), c.And(in(ii), c.Eq(c.Select(perm, ii), i)))))
	e.assume(st, c.Forall([]*Term{i}, c.Implies(c.Not(c.And(c.Le(off, i), c.Lt(i, c.Add(off, n)))), c.Eq(c.Select(nw, i), c.Select(old, i)))))
	st.mem[m.key] = c.Store(mem, ref, nw)
	return
}

func old0(v *Term) string { return v.sort }

func (e *Engine) externalMisc(st *State, fn *ssa.Function, pk, name string, args []Val) (v Val, ok, done bool) {
	return nil, false, false
}

func (e *Engine) substr(st *State, s, lo, hi *Term) *Term { panic(unsupported("substring")) }
func (e *Engine) strOfRunes(st *State, s *Term) *Term     { panic(unsupported("string of runes")) }
func (e *Engine) strOfBytes(st *State, s *Term) *Term     { panic(unsupported("string of bytes")) }
func (e *Engine) runesOfStr(st *State, s *Term, el types.Type) *Term {
	panic(unsupported("runes of a string"))
}
func (e *Engine) bytesOfStr(st *State, s *Term, el types.Type) *Term {
	panic(unsupported("bytes of a string"))
}

var _ = fmt.Sprint
var _ = strconv.Itoa
var _ = strings.Join
