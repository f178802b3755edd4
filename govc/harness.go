package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// The counterexample search: when an obligation is not proved, the function's
// contract is evaluated on the real code for seeded inputs, in the package
// itself (go test -overlay), to find an input that violates it.

//go:embed spec.go
var specSource string

//go:embed zz/interp.go.txt
var interpSource string

type RunReport struct {
	Key, Clause, Kind, Input, Output string
	Props                            []string
	Runs, Accepted                   int
	Violation                        bool
}

// goName is the Go expression of a function, seen from its package.
func goName(key, pkg string) string {
	return strings.TrimPrefix(key, pkg+".")
}

func identsOf(x *Expr, specs *Specs, out map[string]bool, seen map[string]bool) {
	if x == nil {
		return
	}
	if x.op == "ident" {
		out[x.name] = true
	}
	if x.op == "call" {
		if p := specs.pures[x.name]; p != nil && !seen[p.name] {
			seen[p.name] = true
			identsOf(p.body, specs, out, seen)
		}
	}
	for _, a := range x.args {
		identsOf(a, specs, out, seen)
	}
}

// searchCounterexamples runs the contracts of keys (all of one package).
func searchCounterexamples(prog *Program, specs *Specs, pkg string, keys []string, secs float64, seed string) ([]RunReport, string) {
	scratch, err := os.MkdirTemp("", "govc-run")
	if err != nil {
		return nil, err.Error()
	}
	defer os.RemoveAll(scratch)
	pk := prog.pkgs[pkg]
	if pk == nil || len(pk.GoFiles) == 0 {
		return nil, "package not loaded"
	}
	dir := filepath.Dir(pk.GoFiles[0])
	modPath := pk.Module.Path
	modDir := prog.dir
	overlay := map[string]string{}
	write := func(name, src string) string {
		p := filepath.Join(scratch, name)
		os.WriteFile(p, []byte(src), 0o644)
		return p
	}
	overlay[filepath.Join(modDir, "zzgovc", "spec.go")] = write("spec.go.txt", strings.Replace(specSource, "package main", "package zzgovc", 1))
	overlay[filepath.Join(modDir, "zzgovc", "interp.go")] = write("interp.go.txt", interpSource)
	if old, _ := filepath.Glob(filepath.Join(dir, "*_test.go")); old != nil {
		for _, f := range old {
			overlay[f] = ""
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"math/rand\"\n\t\"testing\"\n\tzzgovc \"%s/zzgovc\"\n", pk.Name, modPath)
	code := ""
	imported := map[string]bool{"math/rand": true, "testing": true}
	for _, l := range strings.Split(specs.gocode[pkg], "\n") {
		if strings.HasPrefix(strings.TrimSpace(l), "import ") {
			q := strings.Trim(strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(l), "import ")), `"`)
			if !imported[q] {
				imported[q] = true
				fmt.Fprintf(&b, "\t%q\n", q)
			}
			continue
		}
		code += l + "\n"
	}
	b.WriteString(")\n\nvar _ = rand.Intn\n\n" + code + "\nfunc TestZZGovc(t *testing.T) {\n\tzzgovc.Main(t, []zzgovc.Target{\n")
	scope := pk.Types.Scope()
	n := 0
	for _, k := range keys {
		con := specs.contracts[k]
		if con == nil || prog.funcs[k] == nil || con.trusted != "" || con.opts["search"] == "no" {
			continue
		}
		n++
		ids := map[string]bool{}
		seen := map[string]bool{}
		for _, c := range con.requires {
			identsOf(c.e, specs, ids, seen)
		}
		for _, c := range con.ensures {
			identsOf(c.e, specs, ids, seen)
		}
		if con.panics != nil {
			identsOf(con.panics.e, specs, ids, seen)
		}
		var gl []string
		for id := range ids {
			switch scope.Lookup(id).(type) {
			case *types.Const, *types.Var:
				shadow := false
				for _, p := range append(append([]string{con.recv}, con.params...), con.results...) {
					shadow = shadow || p == id
				}
				if !shadow {
					gl = append(gl, fmt.Sprintf("%q: %s", id, id))
				}
			}
		}
		sort.Strings(gl)
		fmt.Fprintf(&b, "\t\t{Key: %q, Fn: %s, Globals: map[string]interface{}{%s}", k, goName(funcKey(prog.funcs[k]), pkg), strings.Join(gl, ", "))
		if con.gen != "" {
			fmt.Fprintf(&b, ", Gen: func(r *rand.Rand) []interface{} {\n%s\n}", con.gen)
		}
		b.WriteString("},\n")
	}
	b.WriteString("\t})\n}\n")
	if n == 0 {
		return nil, ""
	}
	overlay[filepath.Join(dir, "zz_govc_test.go")] = write("zz_govc_test.go.txt", b.String())
	oj, _ := json.Marshal(map[string]interface{}{"Replace": overlay})
	of := write("overlay.json", string(oj))
	env, err := goEnv(repoDir(), moduleRel(modDir), scratch)
	if err != nil {
		return nil, err.Error()
	}
	outFile := filepath.Join(scratch, "out.jsonl")
	env = append(env, "GOVC_SPECS="+specDir(), "GOVC_OUT="+outFile, fmt.Sprintf("GOVC_SECS=%g", secs), "VERIF_SEED="+seed, "GOMEMLIMIT=4GiB")
	cmd := exec.Command("timeout", "-k", "5", fmt.Sprintf("%d", int(secs*float64(n))+90), "go", "test", "-vet=off", "-count=1", "-overlay", of, "-run", "TestZZGovc$", ".")
	cmd.Dir = dir
	cmd.Env = env
	t0 := time.Now()
	out, rerr := cmd.CombinedOutput()
	dbg("counterexample search %s: %v in %.1fs", pkg, rerr, time.Since(t0).Seconds())
	var reps []RunReport
	if data, err := os.ReadFile(outFile); err == nil {
		for _, l := range strings.Split(string(data), "\n") {
			if strings.TrimSpace(l) == "" {
				continue
			}
			var r RunReport
			if json.Unmarshal([]byte(l), &r) == nil {
				reps = append(reps, r)
			}
		}
	}
	msg := ""
	if rerr != nil {
		msg = string(out)
		if len(msg) > 3000 {
			msg = msg[:3000]
		}
	}
	return reps, msg
}

func moduleRel(dir string) string {
	r, err := filepath.Rel(repoDir(), dir)
	if err != nil {
		return "."
	}
	return r
}

// specDir holds the contract files, beside the directory of the engine's source.
func specDir() string {
	if d := os.Getenv("GOVC_SPECDIR"); d != "" {
		return d
	}
	return "/verif/contracts"
}
