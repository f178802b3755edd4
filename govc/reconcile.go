package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A refactoring may rename a function or turn a value receiver into a pointer.
// contracts/signatures.txt records the signature every function had when its
// contract was written; a contract whose function is gone is applied to the one
// new function of the package with the same signature, if there is one.

func sigString(fn *ssa.Function) string {
	var b strings.Builder
	sg := fn.Signature
	if r := sg.Recv(); r != nil {
		b.WriteString("(" + strings.TrimPrefix(types.TypeString(r.Type(), nil), "*") + ") ")
	}
	tup := func(t *types.Tuple) {
		b.WriteString("(")
		for i := 0; i < t.Len(); i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(types.TypeString(t.At(i).Type(), nil))
		}
		b.WriteString(")")
	}
	tup(sg.Params())
	tup(sg.Results())
	return b.String()
}

func sigFile() string { return filepath.Join(specDir(), "signatures.txt") }

func loadSigs() map[string]string {
	out := map[string]string{}
	data, _ := os.ReadFile(sigFile())
	for _, l := range strings.Split(string(data), "\n") {
		if k, v, ok := strings.Cut(l, "\t"); ok {
			out[k] = v
		}
	}
	return out
}

// cmdSigs rewrites the signature file for the current tree (development aid).
func cmdSigs() {
	specs, err := LoadSpecs(specDir())
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	progs := map[string]*Program{}
	lines := map[string]bool{}
	for _, pkg := range specs.pkgs() {
		p, err := progFor(progs, specs, pkg)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for k, fn := range p.funcs {
			if fn.Pkg != nil && fn.Pkg.Pkg.Path() == pkg {
				lines[k+"\t"+sigString(fn)] = true
			}
		}
	}
	var ls []string
	for l := range lines {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	os.WriteFile(sigFile(), []byte(strings.Join(ls, "\n")+"\n"), 0o644)
}

func (s *Specs) pkgs() []string {
	var out []string
	for p := range s.module {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

// reconcile finds the functions of contracts whose function is gone.
func (p *Program) reconcile(specs *Specs) {
	p.alias = map[string]string{}
	sigs := loadSigs()
	for _, key := range specs.order {
		con := specs.contracts[key]
		if p.funcs[key] != nil || p.spkgs[con.pkg] == nil {
			continue
		}
		// the other kind of receiver
		name := strings.TrimPrefix(key, con.pkg+".")
		other := ""
		if strings.HasPrefix(name, "(*") {
			other = con.pkg + "." + strings.Replace(strings.TrimPrefix(name, "(*"), ")", "", 1)
		} else if i := strings.IndexByte(name, '.'); i > 0 {
			other = con.pkg + ".(*" + name[:i] + ")" + name[i:]
		}
		if fn := p.funcs[other]; other != "" && fn != nil {
			p.funcs[key] = fn
			p.alias[funcKey(fn)] = key
			continue
		}
		want, ok := sigs[key]
		if !ok {
			continue
		}
		var found []*ssa.Function
		for k, fn := range p.funcs {
			if fn.Pkg == nil || fn.Pkg.Pkg.Path() != con.pkg || len(fn.Blocks) == 0 {
				continue
			}
			if _, old := sigs[k]; !old && k == funcKey(fn) && sigString(fn) == want {
				found = append(found, fn)
			}
		}
		if len(found) == 1 {
			p.funcs[key] = found[0]
			p.alias[funcKey(found[0])] = key
		}
	}
}

// specKey is the key of the contract that applies to a function.
func (p *Program) specKey(fn *ssa.Function) string {
	k := funcKey(fn)
	if a, ok := p.alias[k]; ok {
		return a
	}
	return k
}

// gone: the function of a contract does not exist any more.
type gone struct{ s string }

func (g gone) Error() string { return g.s }

// inapplicable: the contract cannot be read against the current declarations.
func inapplicable(err error) bool {
	switch err.(type) {
	case gone, specErr:
		return true
	}
	return false
}
