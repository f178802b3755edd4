package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// cmdCheck decides one property on the current tree.

type funcResult struct {
	key     string
	vc      *VC
	err     error
	failed  []*Obl
	vacuous bool
	ms      int64
}

func (r *funcResult) good() bool { return r.err == nil && len(r.failed) == 0 && !r.vacuous }

type checker struct {
	specs    *Specs
	progs    map[string]*Program
	thorough bool
	memo     map[string]*funcResult
	vacQ     int
}

func (c *checker) verify(key string, noCon map[string]bool) *funcResult {
	ks := key + "|"
	for _, k := range sortedKeys(noCon) {
		ks += k + ","
	}
	if r, ok := c.memo[ks]; ok {
		return r
	}
	t0 := time.Now()
	r := &funcResult{key: key}
	c.memo[ks] = r
	var pkg string
	con := c.specs.contracts[key]
	lm := c.specs.lemmas[key]
	if con != nil {
		pkg = con.pkg
	} else if lm != nil {
		pkg = lm.pkg
	} else {
		r.err = fmt.Errorf("no contract for %s", key)
		return r
	}
	p, err := progFor(c.progs, c.specs, pkg)
	if err != nil {
		fmt.Println("error:", err)
		os.Exit(2)
	}
	var vc *VC
	if con != nil {
		vc = genFunc(p, c.specs, key, noCon)
	} else {
		vc = genLemma(p, c.specs, lm)
	}
	r.vc = vc
	if vc.err != nil {
		r.err = vc.err
		return r
	}
	vc.discharge(c.thorough)
	for _, o := range vc.e.obls {
		if o.cand == nil && o.kind != "skip" && !o.ok {
			r.failed = append(r.failed, o)
		}
	}
	if con != nil && len(r.failed) == 0 {
		r.vacuous = c.vacuous(vc)
	}
	r.ms = time.Since(t0).Milliseconds()
	dbg("%s: %d failed, %d ms", key, len(r.failed), r.ms)
	return r
}

// vacuous: the assumptions contradict each other, or no return can be reached.
func (c *checker) vacuous(vc *VC) bool {
	e := vc.e
	if len(vc.rets) == 0 {
		return true
	}
	c.vacQ++
	var hs []*Term
	for _, f := range e.facts {
		if f.cand != nil && !f.cand.alive {
			continue
		}
		hs = append(hs, f.t)
	}
	goal := e.c.Not(e.c.Or(vc.rets...))
	if goal.op == "true" {
		return true
	}
	s := e.script(hs, goal, "", "")
	dumpScript("vacuity-"+vc.key, s)
	out, _ := runSolver(context.Background(), "z3-5.3", s, 1500)
	return firstLine(out) == "unsat"
}

// relevant: the failing obligation bears on the property.
func relevant(o *Obl, prop string) bool {
	if o.kind != "ensures" {
		return true
	}
	for _, p := range o.props {
		if p == prop {
			return true
		}
	}
	return false
}

type finding struct {
	prop, fn, obl, text string
}

func loadFindings(path string) (fs []finding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		// known: property=<id> function=<key> obligation="<name>" <what fails>
		var f finding
		rest := strings.TrimSpace(strings.TrimPrefix(l, "known:"))
		for _, k := range []string{"property=", "function=", "obligation="} {
			i := strings.Index(rest, k)
			if i < 0 {
				continue
			}
			v := rest[i+len(k):]
			if strings.HasPrefix(v, `"`) {
				v = v[1:]
				j := strings.Index(v, `"`)
				if j < 0 {
					continue
				}
				rest = strings.TrimSpace(rest[:i] + v[j+1:])
				v = v[:j]
			} else {
				j := strings.IndexByte(v, ' ')
				if j < 0 {
					j = len(v)
				}
				rest = strings.TrimSpace(rest[:i] + v[j:])
				v = v[:j]
			}
			switch k {
			case "property=":
				f.prop = v
			case "function=":
				f.fn = v
			case "obligation=":
				f.obl = v
			}
		}
		f.text = rest
		fs = append(fs, f)
	}
	return
}

func cmdCheck(args []string) {
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fl.String("prop", "", "property")
	tier := fl.String("tier", "", "quick or thorough")
	out := fl.String("out", "/verif/evidence", "evidence directory")
	known := fl.String("known", "/verif/known_findings.txt", "known findings")
	fl.Parse(args)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := os.Getenv("VERIF_SEED")
	if seed == "" {
		seed = "1"
	}
	seedN, _ := strconv.Atoi(seed)
	t0 := time.Now()
	softDeadline = t0.Add(420 * time.Second)
	if *tier == "thorough" {
		softDeadline = t0.Add(3 * time.Hour)
	}
	specs, err := LoadSpecs(specDir())
	if err != nil {
		fmt.Println("error:", err)
		os.Exit(2)
	}
	c := &checker{specs: specs, progs: map[string]*Program{}, thorough: *tier == "thorough", memo: map[string]*funcResult{}}

	// the functions and lemmas that state the property
	var roots []string
	for _, k := range specs.order {
		con := specs.contracts[k]
		is := false
		for _, e := range con.ensures {
			is = is || e.hasProp(*prop)
		}
		for _, e := range con.twice {
			is = is || e.hasProp(*prop)
		}
		for _, p := range con.safeProps {
			is = is || p == *prop
		}
		if is {
			roots = append(roots, k)
		}
	}
	for _, n := range specs.lemOrder {
		for _, p := range specs.lemmas[n].props {
			if p == *prop {
				roots = append(roots, n)
			}
		}
	}
	if len(roots) == 0 {
		fmt.Println("error: no contract states", *prop)
		os.Exit(2)
	}
	isRoot := map[string]bool{}
	for _, r := range roots {
		isRoot[r] = true
	}

	// verify the roots and every contract their proofs use; a callee that does
	// not satisfy its contract is inlined instead
	noCon := map[string]bool{}
	var done map[string]*funcResult
	for round := 0; ; round++ {
		done = map[string]*funcResult{}
		queue := append([]string{}, roots...)
		for len(queue) > 0 {
			k := queue[0]
			queue = queue[1:]
			if done[k] != nil {
				continue
			}
			r := c.verify(k, subset(c, k, noCon))
			done[k] = r
			queue = append(queue, uses(c, r)...)
		}
		changed := false
		for k, r := range done {
			if !isRoot[k] && !r.good() && !noCon[k] && specs.contracts[k] != nil {
				noCon[k] = true
				changed = true
			}
		}
		if !changed || round > 6 {
			break
		}
	}
	// a failing root gets a second chance with its callees inlined
	for _, k := range roots {
		r := done[k]
		if r.good() || r.vc == nil || specs.contracts[k] == nil {
			continue
		}
		var fail []*Obl
		for _, o := range r.failed {
			if relevant(o, *prop) {
				fail = append(fail, o)
			}
		}
		if r.err == nil && len(fail) == 0 && !r.vacuous {
			continue
		}
		nc := map[string]bool{}
		for n := range noCon {
			nc[n] = true
		}
		more := false
		for _, u := range uses(c, r) {
			if specs.contracts[u] != nil && !nc[u] && specs.contracts[u].trusted == "" && u != k {
				nc[u] = true
				more = true
			}
		}
		if time.Now().After(softDeadline) || !more && !r.vc.e.sealedUsed {
			continue
		}
		r2 := c.verify(k, nc)
		if !r2.good() && r.vc.e.sealedUsed {
			nc["#reveal"] = true
			r2 = c.verify(k, nc)
		}
		if r2.good() {
			done[k] = r2
			// what it uses now must hold as well
			ok := true
			for _, u := range uses(c, r2) {
				if done[u] == nil {
					ru := c.verify(u, noCon)
					done[u] = ru
					ok = ok && ru.good()
				}
			}
			if !ok {
				done[k] = r
			}
		}
	}

	// report
	type failure struct {
		key  string
		obl  string
		kind string
		text string
		o    *Obl
	}
	var fails []failure
	findings := loadFindings(*known)
	knownHit := map[string]bool{}
	var skipped []string
	for _, k := range roots {
		if r := done[k]; r.err != nil && inapplicable(r.err) {
			skipped = append(skipped, k+": "+r.err.Error())
		}
	}
	for _, k := range roots {
		r := done[k]
		if r.err != nil && inapplicable(r.err) && len(skipped) < len(roots) {
			// the code this contract was written for was restructured; the
			// property is decided by the others
			continue
		}
		if r.err != nil {
			fails = append(fails, failure{k, "contract applies", "error", r.err.Error(), nil})
			continue
		}
		if r.vacuous {
			fails = append(fails, failure{k, "some return is reachable", "vacuity", "no return can be reached, or the assumptions contradict each other", nil})
		}
		for _, o := range r.failed {
			if relevant(o, *prop) {
				fails = append(fails, failure{k, o.name, o.kind, fmt.Sprintf("%s: %s obligation %q not discharged (%s)", o.pos, o.kind, o.name, o.detail), o})
			}
		}
	}
	// lemmas and other non-contract dependencies that fail cannot be inlined
	for _, k := range sortedResults(done) {
		r := done[k]
		if !isRoot[k] && !r.good() && specs.lemmas[k] != nil {
			fails = append(fails, failure{k, "lemma " + k, "lemma", "lemma not proved", nil})
		}
	}
	var open []failure
	for _, f := range fails {
		hit := false
		for _, kf := range findings {
			if kf.prop == *prop && kf.fn == f.key && strings.HasPrefix(f.obl, kf.obl) {
				hit = true
				if !knownHit[kf.text] {
					knownHit[kf.text] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, kf.text)
				}
			}
		}
		if !hit {
			open = append(open, f)
		}
	}
	violations := 0
	var searchRuns int
	if len(open) > 0 {
		violations = 1
		dir := filepath.Join(*out, "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, *prop+".txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n\nobligations not discharged:\n", *prop)
		byPkg := map[string][]string{}
		seen := map[string]bool{}
		for _, f := range open {
			fmt.Fprintf(&b, "  %s: %s\n", f.key, f.text)
			if con := specs.contracts[f.key]; con != nil && !seen[f.key] {
				seen[f.key] = true
				byPkg[con.pkg] = append(byPkg[con.pkg], f.key)
			}
		}
		found := false
		for _, pkg := range sortedKeysS(byPkg) {
			p := c.progs[specs.module[pkg]]
			if p == nil {
				continue
			}
			keys := byPkg[pkg]
			secs := 12.0
			if float64(len(keys))*secs > 90 {
				secs = 90 / float64(len(keys))
			}
			reps, msg := searchCounterexamples(p, specs, pkg, keys, secs, seed)
			for _, r := range reps {
				if !r.Violation {
					searchRuns += r.Accepted
					continue
				}
				rel := false
				for _, x := range r.Props {
					rel = rel || x == *prop
				}
				if !rel {
					continue
				}
				if !found {
					fmt.Fprintf(&b, "\nfailing inputs, found by running the contract on the code (seed %s; the search is deterministic, 'govc search <function>' repeats it):\n", seed)
				}
				found = true
				fmt.Fprintf(&b, "\n%s violates %q (%s)\n  input:  %s\n  result: %s\n", r.Key, r.Clause, r.Kind, r.Input, r.Output)
			}
			if msg != "" {
				fmt.Fprintf(&b, "\ncounterexample search in %s: %s\n", pkg, msg)
			}
		}
		for _, f := range open {
			if f.o != nil && f.o.model != "" && b.Len() < 400000 {
				fmt.Fprintf(&b, "\n---- %s: %s: verifier's query (solvers answered %s)\n%s\n", f.key, f.obl, f.o.detail, f.o.model)
			}
		}
		os.WriteFile(path, []byte(b.String()), 0o644)
		for i, f := range open {
			if i < 20 {
				fmt.Printf("not discharged: %s: %s\n", f.key, f.text)
			}
		}
		if found {
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, path)
		}
	}
	writeEvidence(c, *prop, *tier, seedN, *out, done, roots, noCon, t0, violations, searchRuns, len(knownHit), skipped)
	if violations > 0 {
		os.Exit(1)
	}
	fmt.Printf("%s: every obligation discharged (%d functions and lemmas, %.0f s)\n", *prop, len(done), time.Since(t0).Seconds())
}

// subset keeps the exclusions that matter for k, so that results are shared.
func subset(c *checker, k string, noCon map[string]bool) map[string]bool {
	if len(noCon) == 0 {
		return noCon
	}
	if r, ok := c.memo[k+"|"]; ok && r.vc != nil && r.vc.e != nil {
		hit := false
		for u := range r.vc.e.used {
			hit = hit || noCon[u]
		}
		if !hit {
			return map[string]bool{}
		}
	}
	m := map[string]bool{}
	for n := range noCon {
		if n != k {
			m[n] = true
		}
	}
	return m
}

// uses lists the contracts and lemmas a proof relies on.
func uses(c *checker, r *funcResult) []string {
	var out []string
	if r.vc == nil || r.vc.e == nil {
		return nil
	}
	for _, k := range sortedKeys(r.vc.e.used) {
		if con := c.specs.contracts[k]; con != nil && con.trusted == "" && k != r.key {
			out = append(out, k)
		}
	}
	for _, n := range sortedKeys(r.vc.e.lemmasOn) {
		if lm := c.specs.lemmas[n]; lm != nil && !lm.axiom {
			out = append(out, n)
		}
	}
	return out
}

func sortedResults(m map[string]*funcResult) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func sortedKeysS(m map[string][]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func writeEvidence(c *checker, prop, tier string, seed int, dir string, done map[string]*funcResult, roots []string, noCon map[string]bool, t0 time.Time, violations, searchRuns, knownN int, skipped []string) {
	os.MkdirAll(dir, 0o755)
	obls, disch := 0, 0
	by := map[string]int{}
	trusted := map[string]bool{}
	assumed := map[string]bool{}
	inl := map[string]bool{}
	invs := 0
	type fe struct {
		Function    string         `json:"function"`
		Root        bool           `json:"states_property"`
		Obligations int            `json:"obligations"`
		Discharged  int            `json:"discharged"`
		Invariants  int            `json:"loop_invariants"`
		Kinds       map[string]int `json:"kinds"`
		Ms          int64          `json:"ms"`
		Inlined     bool           `json:"contract_not_used,omitempty"`
		Error       string         `json:"error,omitempty"`
	}
	var fes []fe
	for _, k := range sortedResults(done) {
		r := done[k]
		f := fe{Function: k, Kinds: map[string]int{}, Ms: r.ms, Inlined: noCon[k]}
		for _, x := range roots {
			f.Root = f.Root || x == k
		}
		if r.err != nil {
			f.Error = r.err.Error()
		} else {
			e := r.vc.e
			for _, o := range e.obls {
				if o.cand != nil || o.kind == "skip" {
					continue
				}
				f.Obligations++
				f.Kinds[o.kind]++
				if o.ok {
					f.Discharged++
					b := o.by
					if b == "" {
						b = "simplifier"
					}
					by[b]++
				}
			}
			for _, cd := range e.cands {
				if cd.alive {
					f.Invariants++
				}
			}
			for t := range e.trusted {
				trusted[t] = true
			}
			for t := range e.assumed {
				assumed[t] = true
			}
			for t := range e.inlined {
				inl[t] = true
			}
			for u := range e.used {
				if con := c.specs.contracts[u]; con != nil && con.trusted != "" {
					trusted["contract of "+u+": "+con.trusted] = true
				}
			}
		}
		obls += f.Obligations
		disch += f.Discharged
		invs += f.Invariants
		fes = append(fes, f)
	}
	base := []string{
		"govc: SSA construction (golang.org/x/tools/go/ssa), symbolic execution, memory model, simplifier and polynomial normaliser",
		"z3 5.3, z3 4.8, cvc5 1.1",
	}
	base = append(base, sortedKeys(trusted)...)
	as := []string{
		"float64 arithmetic is treated as real arithmetic (rounding, overflow, NaN and signed zero are outside the model)",
		"int and int64 arithmetic is treated as mathematical (no overflow); smaller integer types wrap exactly",
		"memory allocation succeeds, goroutine interference is excluded",
	}
	as = append(as, sortedKeys(assumed)...)
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations":               obls,
			"discharged":                disch,
			"checker_cmd":               "/verif/check.sh " + prop + " " + tier,
			"trusted_base":              base,
			"functions_under_contract":  fes,
			"obligations_by_back_end":   by,
			"loop_invariants_proved":    invs,
			"functions_inlined":         sortedKeys(inl),
			"solver_calls":              solverCalls,
			"solver_time_s":             float64(solverTime) / 1e9,
			"vacuity_queries":           c.vacQ,
			"counterexample_runs":       searchRuns,
			"known_findings_reproduced": knownN,
			"contracts_not_applicable":  skipped,
		},
		"assumptions": as,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644)
}
