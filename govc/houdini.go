package main

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"
)

// houdini finds the largest set of candidate invariants that hold on entry
// and are preserved together.
func (e *Engine) houdini() {
	c := e.c
	var obls []*Obl
	for _, o := range e.obls {
		if o.cand != nil {
			if o.goal.op == "true" {
				o.ok = true
				continue
			}
			obls = append(obls, o)
		}
	}
	if len(obls) == 0 {
		return
	}
	proved := map[*Obl]bool{}
	nonlin := map[*Term]bool{}
	isNL := func(t *Term) bool {
		if v, ok := nonlin[t]; ok {
			return v
		}
		v := nonlinear(t, map[*Term]bool{})
		nonlin[t] = v
		return v
	}
	for round := 0; round < 60; round++ {
		if round == 1 {
			e.firstIteration(obls)
			// nothing proved so far may rest on what was dropped
			for o := range proved {
				for cd := range o.deps {
					if !cd.alive {
						delete(proved, o)
						break
					}
				}
				if o.deps == nil {
					delete(proved, o)
				}
			}
		}
		groups := map[string][]*Obl{}
		var order []string
		for _, o := range obls {
			if !o.cand.alive || proved[o] || round == 0 && !o.entry {
				continue
			}
			pc := o.goal
			id := 0
			if pc.op == "=>" {
				id = pc.args[0].id
			}
			k := fmt.Sprintf("%d|%d|%v|%v", o.nfacts, id, o.cand.user, isNL(o.goal))
			if len(groups[k]) == 0 {
				order = append(order, k)
			}
			groups[k] = append(groups[k], o)
		}
		if len(order) == 0 {
			if round == 0 {
				continue
			}
			break
		}
		t0 := time.Now()
		type batch struct {
			obls   []*Obl
			script string
		}
		var bs []*batch
		for _, k := range order {
			g := groups[k]
			for len(g) > 0 {
				n := len(g)
				if n > 12 {
					n = 12
				}
				bs = append(bs, &batch{obls: g[:n]})
				g = g[n:]
			}
		}
		build := func(b *batch) {
			var hyps []*Term
			var sels []*Term
			for _, f := range e.facts[:b.obls[0].nfacts] {
				if isNL(f.t) {
					continue
				}
				if f.cand != nil {
					if !f.cand.alive {
						continue
					}
					s := c.RawConst(fmt.Sprintf("sel$%d", f.cand.id), SBool)
					sels = append(sels, s)
					hyps = append(hyps, c.Implies(s, f.t))
					continue
				}
				hyps = append(hyps, f.t)
			}
			var ngs []*Term
			for _, o := range b.obls {
				ngs = append(ngs, c.Not(o.goal))
			}
			all := append(append([]*Term{}, hyps...), ngs...)
			hyps = append(hyps, e.unfoldings(all, 2)...)
			hyps = append(hyps, e.recAxioms(all)...)
			decl, pr := querySMT(c, append(append([]*Term{}, hyps...), sels...), ngs)
			var w strings.Builder
			w.WriteString("(set-option :produce-unsat-cores true)\n")
			w.WriteString(decl)
			for _, h := range hyps {
				w.WriteString("(assert " + pr(h) + ")\n")
			}
			var ss []string
			for _, s := range sels {
				ss = append(ss, sym(s.name))
			}
			for i := range b.obls {
				fmt.Fprintf(&w, "(echo \"R %d\")\n(push)\n(assert %s)\n(check-sat-assuming (%s))\n(get-unsat-core)\n(pop)\n", i, pr(ngs[i]), strings.Join(ss, " "))
			}
			b.script = w.String()
		}
		for _, b := range bs {
			build(b)
		}
		var wg sync.WaitGroup
		outs := make([]string, len(bs))
		for i, b := range bs {
			wg.Add(1)
			go func(i int, b *batch) {
				defer wg.Done()
				outs[i] = runBatch(b.script, b.obls[0].cand.user && !isNL(b.obls[0].goal))
			}(i, b)
		}
		wg.Wait()
		dbg("houdini round %d: %d batches, %.1fs", round, len(bs), time.Since(t0).Seconds())
		removed := map[*Cand]bool{}
		var retry []*Obl
		for i, b := range bs {
			dumpScript(fmt.Sprintf("houdini-%s-%d-%d", e.fn.Name(), round, i), b.script)
			res := parseBatch(outs[i], len(b.obls))
			for j, o := range b.obls {
				r := res[j]
				if r.status == "unsat" {
					proved[o] = true
					o.deps = map[*Cand]bool{}
					for _, n := range r.core {
						var id int
						fmt.Sscanf(n, "sel$%d", &id)
						o.deps[e.cands[id]] = true
					}
					continue
				}
				if r.status != "sat" && r.status != "unknown" {
					dbg("houdini: %s", r.status)
				}
				if o.kind == "hint" || o.cand.user && r.status != "sat" || e.anyNonlinear(o.goal) && (o.cand.user || arithmetic(o.goal)) {
					retry = append(retry, o)
					continue
				}
				dbg("houdini drops %s (%s; %s)", o.cand.desc, o.name, r.status)
				removed[o.cand] = true
			}
		}
		for _, o := range e.refuted(retry) {
			dbg("houdini drops %s (%s; refuted)", o.cand.desc, o.name)
			removed[o.cand] = true
		}
		// only look at the hard ones once the easy failures are gone
		if len(removed) == 0 && len(retry) > 0 {
			th := time.Now()
			var ps []*prepared
			byO := map[*Obl][]*prepared{}
			for _, o := range retry {
				pp := e.prepare(o, false)
				for _, p := range pp {
					for k := range p.stage3 {
						if p.stage3[k].ms > hardLimit && !o.cand.named {
							p.stage3[k].ms = hardLimit
						}
					}
				}
				byO[o] = pp
				ps = append(ps, pp...)
			}
			dbg("houdini: prepared %d, %.1fs", len(retry), time.Since(th).Seconds())
			runAll(ps)
			dbg("houdini: %d hard ones, %.1fs", len(retry), time.Since(th).Seconds())
			for oi, o := range retry {
				ok := true
				for _, p := range byO[o] {
					if dumpDir != "" {
						for k, j := range append(append(append([]job{}, p.stage1...), p.stage2...), p.stage3...) {
							dumpScript(fmt.Sprintf("hard-%s-%d-%d-%d-%d-%s", e.fn.Name(), round, oi, p.idx, k, j.label), "; "+o.name+"\n; "+p.res+" "+p.by+"\n"+j.script)
						}
					}
					if p.res != "unsat" {
						ok = false
					}
				}
				if ok {
					proved[o] = true
					o.deps = nil // depends on all
				} else {
					dbg("houdini drops %s (%s) after full attempt", o.cand.desc, o.name)
					removed[o.cand] = true
				}
			}
		}
		if len(removed) == 0 && len(retry) == 0 && round > 0 {
			break
		}
		for cd := range removed {
			cd.alive = false
		}
		for o := range proved {
			if o.deps == nil && len(removed) > 0 {
				delete(proved, o)
				continue
			}
			for cd := range o.deps {
				if removed[cd] {
					delete(proved, o)
					break
				}
			}
		}
	}
	for _, o := range obls {
		o.ok = proved[o]
		for cd := range o.deps {
			if o.ok && o.cand.alive && !cd.alive {
				panic("an invariant rests on a dropped one")
			}
		}
	}
}

// firstIteration drops the candidates of innermost loops that already fail
// after one iteration from the loop's entry state: a cheap filter, which never
// makes a candidate an assumption.
func (e *Engine) firstIteration(obls []*Obl) {
	c := e.c
	t0 := time.Now()
	type key struct {
		lc *loopCtx
		nf int
		pc *Term
	}
	groups := map[key][]*Obl{}
	var order []key
	for _, o := range obls {
		if o.lc == nil || o.lc.inner || !o.cand.alive || o.lc.first == nil {
			continue
		}
		k := key{o.lc, o.nfacts, nil}
		if o.goal.op == "=>" {
			k.pc = o.goal.args[0]
		}
		if len(groups[k]) == 0 {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	type batch struct {
		obls   []*Obl
		script string
	}
	var bs []*batch
	for _, k := range order {
		own := map[*Cand]bool{}
		for _, in := range k.lc.cands {
			own[in.cand] = true
		}
		var base []*Term
		for _, f := range e.facts[:k.nf] {
			if f.cand != nil && (own[f.cand] || !f.cand.alive) {
				continue
			}
			t := c.Subst(f.t, k.lc.first)
			if t.op == "true" || nonlinear(t, map[*Term]bool{}) {
				continue
			}
			base = append(base, t)
		}
		g := groups[k]
		for len(g) > 0 {
			n := len(g)
			if n > 6 {
				n = 6
			}
			b := &batch{obls: g[:n]}
			g = g[n:]
			var ngs []*Term
			for _, o := range b.obls {
				ngs = append(ngs, c.Not(c.Subst(o.goal, k.lc.first)))
			}
			hyps := append([]*Term{}, base...)
			all := append(append([]*Term{}, hyps...), ngs...)
			hyps = append(hyps, e.unfoldings(all, 2)...)
			hyps = append(hyps, e.recAxioms(all)...)
			decl, pr := querySMT(c, hyps, ngs)
			var w strings.Builder
			w.WriteString(decl)
			for _, h := range hyps {
				w.WriteString("(assert " + pr(h) + ")\n")
			}
			for i := range ngs {
				fmt.Fprintf(&w, "(echo \"R %d\")\n(push)\n(assert %s)\n(check-sat)\n(pop)\n", i, pr(ngs[i]))
			}
			b.script = "(set-option :timeout 200)\n" + w.String()
			bs = append(bs, b)
		}
	}
	var wg sync.WaitGroup
	outs := make([]string, len(bs))
	for i, b := range bs {
		wg.Add(1)
		go func(i int, b *batch) {
			defer wg.Done()
			outs[i], _ = runSolver(context.Background(), "z3-5.3", b.script, 20000)
		}(i, b)
	}
	wg.Wait()
	nd := 0
	for i, b := range bs {
		dumpScript(fmt.Sprintf("first-%s-%d", e.fn.Name(), i), b.script)
		res := parseBatch(outs[i], len(b.obls))
		for j, o := range b.obls {
			if res[j].status == "sat" && o.cand.alive {
				o.cand.alive = false
				nd++
			}
		}
	}
	dbg("first iteration: %d batches, %d dropped, %.1fs", len(bs), nd, time.Since(t0).Seconds())
}

func (e *Engine) anyNonlinear(t *Term) bool { return nonlinear(t, map[*Term]bool{}) }

func nonlinear(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.op {
	case "*":
		n := 0
		for _, a := range t.args {
			if a.op != "num" {
				n++
			}
		}
		if n > 1 {
			return true
		}
	case "/":
		return true
	}
	for _, a := range t.args {
		if nonlinear(a, seen) {
			return true
		}
	}
	return false
}

func runBatch(script string, mbqi bool) string {
	s := "(set-option :timeout 1000)\n" + script
	if !mbqi {
		s = "(set-option :smt.mbqi false)\n" + s
	}
	out, _ := runSolver(context.Background(), "z3-5.3", s, 60000)
	return out
}

type batchRes struct {
	status string
	core   []string
}

func parseBatch(out string, n int) []batchRes {
	res := make([]batchRes, n)
	for i := range res {
		res[i].status = "unknown"
	}
	cur := -1
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "R ") {
			fmt.Sscanf(l, "R %d", &cur)
			continue
		}
		if cur < 0 || cur >= n {
			if strings.HasPrefix(l, "(error") {
				dbg("%s", l)
			}
			continue
		}
		switch {
		case l == "sat" || l == "unsat" || l == "unknown":
			res[cur].status = l
		case strings.HasPrefix(l, "(error"):
			if !strings.Contains(l, "unsat core") && !strings.Contains(l, "core is not available") {
				dbg("%s", l)
			}
		case strings.HasPrefix(l, "("):
			res[cur].core = strings.Fields(strings.ReplaceAll(strings.Trim(l, "()"), "|", ""))
		}
	}
	return res
}

func runAll(ps []*prepared) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 12)
	for _, p := range ps {
		wg.Add(1)
		go func(p *prepared) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			p.run()
		}(p)
	}
	wg.Wait()
}

// discharge decides every obligation of a VC.
func (vc *VC) discharge(thorough bool) {
	e := vc.e
	e.houdini()
	var ps []*prepared
	byO := map[*Obl][]*prepared{}
	groups := map[string]map[int][]*Obl{}
	for _, o := range e.obls {
		if o.cand != nil {
			continue
		}
		if o.term != "" {
			if groups[o.term] == nil {
				groups[o.term] = map[int][]*Obl{}
			}
			groups[o.term][o.choice] = append(groups[o.term][o.choice], o)
			if vc.con == nil || !vc.con.terminates {
				o.ok = true
				o.kind = "skip"
				continue
			}
		}
		pp := e.prepare(o, thorough)
		byO[o] = pp
		ps = append(ps, pp...)
	}
	runAll(ps)
	for _, o := range e.obls {
		pp, ok := byO[o]
		if !ok {
			continue
		}
		o.ok = true
		bys := map[string]bool{}
		for _, p := range pp {
			if p.res != "unsat" {
				o.ok = false
				o.detail = p.res
				if p.model != "" {
					o.detail += " " + p.model
				}
				for _, j := range append(append([]job{}, p.stage2...), p.stage1...) {
					o.model = j.script
					dumpScript(fmt.Sprintf("%s-%s-%d", vc.key, o.name, p.idx), j.script)
					break
				}
			} else {
				bys[p.by] = true
			}
			o.ms += p.dur.Milliseconds()
		}
		o.by = strings.Join(sortedKeys(bys), "+")
		if len(pp) == 0 {
			o.by = "simplifier"
		}
	}
	// termination: one measure per loop is enough
	for _, g := range groups {
		good := -1
		for ch, os := range g {
			all := true
			for _, o := range os {
				all = all && o.ok
			}
			if all && (good < 0 || ch < good) {
				good = ch
			}
		}
		if good >= 0 {
			for ch, os := range g {
				if ch != good {
					for _, o := range os {
						o.kind = "skip"
						o.ok = true
					}
				}
			}
		}
	}
}

// arithmetic: the goal, under its path condition, compares numbers.
func arithmetic(t *Term) bool {
	for t.op == "=>" {
		t = t.args[1]
	}
	switch t.op {
	case "<", "<=", "=":
		return t.args[0].sort == SInt || t.args[0].sort == SReal
	}
	return false
}

// refuted finds obligations over products of inputs that fail already for some
// fixed values of these inputs, which makes them linear.
func (e *Engine) refuted(obls []*Obl) []*Obl {
	c := e.c
	type job struct {
		o      *Obl
		script string
		out    string
	}
	var jobs []*job
	for _, o := range obls {
		if !e.anyNonlinear(o.goal) || o.kind == "hint" {
			continue
		}
		m := map[*Term]*Term{}
		e.productInputs(o.goal, m, map[*Term]bool{})
		if len(m) == 0 {
			continue
		}
		goal := c.Subst(o.goal, m)
		if e.anyNonlinear(goal) {
			continue
		}
		var hyps []*Term
		ok := true
		for _, f := range e.facts[:o.nfacts] {
			if f.cand != nil && !f.cand.alive {
				continue
			}
			t := c.Subst(f.t, m)
			if e.anyNonlinear(t) {
				ok = false
				break
			}
			hyps = append(hyps, t)
		}
		if !ok {
			continue
		}
		hyps, goal = e.simplify(hyps, goal)
		jobs = append(jobs, &job{o: o, script: "(set-option :timeout 1000)\n" + e.script(hyps, goal, "", "")})
	}
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			j.out, _ = runSolver(context.Background(), "z3-5.3", j.script, 3000)
		}(j)
	}
	wg.Wait()
	var out []*Obl
	for i, j := range jobs {
		dumpScript(fmt.Sprintf("refute-%s-%d", e.fn.Name(), i), j.script)
		if firstLine(j.out) == "sat" {
			out = append(out, j.o)
		}
	}
	if len(jobs) > 0 {
		dbg("houdini: %d of %d refuted", len(out), len(jobs))
	}
	return out
}

// productInputs collects the integer inputs that occur in products, with a value for each.
func (e *Engine) productInputs(t *Term, m map[*Term]*Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "*" {
		for _, a := range t.args {
			if a.op == "to_real" {
				a = a.args[0]
			}
			if a.op == "const" && a.sort == SInt && strings.HasPrefix(a.name, "in$") && m[a] == nil {
				m[a] = e.c.Int(int64(3 + len(m)))
			}
		}
	}
	for _, a := range t.args {
		e.productInputs(a, m, seen)
	}
}

// hardLimit bounds a solver's time (ms) on a candidate invariant.
const hardLimit = 6000
