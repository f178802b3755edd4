package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded repository: typed syntax and SSA of every package of
// one module of /repo, built from its current working tree.
type Program struct {
	fset  *token.FileSet
	pkgs  map[string]*packages.Package // import path -> package
	ssa   *ssa.Program
	spkgs map[string]*ssa.Package
	funcs map[string]*ssa.Function // key -> function; key = pkgpath + "." + name or pkgpath + ".(*T).name"
	dir   string
	alias map[string]string // function -> contract it stands for
}

// goEnv returns the environment go runs in, offline, with a copy of the module files.
func goEnv(repo, module, scratch string) ([]string, error) {
	dir := filepath.Join(repo, module)
	name := "root"
	if module != "." && module != "" {
		name = strings.ReplaceAll(module, "/", "_")
	}
	if err := os.MkdirAll(scratch, 0o755); err != nil {
		return nil, err
	}
	mod := filepath.Join(scratch, name+".mod")
	b, err := os.ReadFile(filepath.Join(dir, "go.mod"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(mod, b, 0o644); err != nil {
		return nil, err
	}
	sum := filepath.Join(scratch, name+".sum")
	os.Remove(sum)
	if b, err := os.ReadFile(filepath.Join(dir, "go.sum")); err == nil {
		if err := os.WriteFile(sum, b, 0o644); err != nil {
			return nil, err
		}
	}
	env := os.Environ()
	set := func(k, v string) {
		out := env[:0]
		for _, e := range env {
			if !strings.HasPrefix(e, k+"=") {
				out = append(out, e)
			}
		}
		env = append(out, k+"="+v)
	}
	set("GOFLAGS", "-mod=mod -modfile="+mod)
	set("GOPROXY", "off")
	set("GOTOOLCHAIN", "local")
	set("GOWORK", "off")
	set("GOSUMDB", "off")
	if os.Getenv("HOME") == "" {
		set("HOME", "/root")
	}
	set("GOPATH", envOr("GOPATH", "/root/go"))
	set("GOMODCACHE", envOr("GOMODCACHE", "/root/go/pkg/mod"))
	return env, nil
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func LoadProgram(repo, module, scratch string, patterns []string) (*Program, error) {
	env, err := goEnv(repo, module, scratch)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: filepath.Join(repo, module),
		Env: env,
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("package errors: %s", strings.Join(errs, "; "))
	}
	sprog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.NaiveForm&0)
	sprog.Build()
	p := &Program{ssa: sprog, pkgs: map[string]*packages.Package{}, spkgs: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, dir: cfg.Dir}
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		p.pkgs[pk.PkgPath] = pk
		if p.fset == nil {
			p.fset = pk.Fset
		}
	})
	for _, sp := range sprog.AllPackages() {
		p.spkgs[sp.Pkg.Path()] = sp
	}
	for fn := range ssautil.AllFunctions(sprog) {
		if fn.Synthetic != "" && !strings.HasPrefix(fn.Name(), "init") {
			continue
		}
		if k := funcKey(fn); k != "" {
			p.funcs[k] = fn
		}
	}
	// unreferenced functions and methods too
	for _, sp := range p.spkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				p.funcs[funcKey(m)] = m
			case *ssa.Type:
				if n, ok := m.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						if f := sprog.FuncValue(n.Method(i)); f != nil {
							p.funcs[funcKey(f)] = f
						}
					}
				}
			}
		}
	}
	return p, nil
}

func funcKey(fn *ssa.Function) string {
	if fn.Pkg == nil {
		return ""
	}
	pk := fn.Pkg.Pkg.Path()
	if fn.Parent() != nil {
		return ""
	}
	if recv := fn.Signature.Recv(); recv != nil {
		t := recv.Type()
		star := ""
		if pt, ok := t.(*types.Pointer); ok {
			star = "*"
			t = pt.Elem()
		}
		n, ok := t.(*types.Named)
		if !ok {
			return ""
		}
		if star != "" {
			return pk + ".(*" + n.Obj().Name() + ")." + fn.Name()
		}
		return pk + "." + n.Obj().Name() + "." + fn.Name()
	}
	return pk + "." + fn.Name()
}

// Loop describes one natural loop.
type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
	depth  int
}

type LoopInfo struct {
	byHeader map[*ssa.BasicBlock]*Loop
	inner    map[*ssa.BasicBlock]*Loop // innermost loop of a block
	order    []*ssa.BasicBlock         // reverse post order
	rpo      map[*ssa.BasicBlock]int
	irred    bool
}

func analyseLoops(fn *ssa.Function) *LoopInfo {
	li := &LoopInfo{byHeader: map[*ssa.BasicBlock]*Loop{}, inner: map[*ssa.BasicBlock]*Loop{}, rpo: map[*ssa.BasicBlock]int{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) == 0 {
		return li
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo[post[i]] = len(li.order)
		li.order = append(li.order, post[i])
	}
	for _, b := range li.order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHeader[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] && seen[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			} else if li.rpo[s] <= li.rpo[b] {
				li.irred = true
			}
		}
	}
	var ls []*Loop
	for _, l := range li.byHeader {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) > len(ls[j].blocks)
		}
		return li.rpo[ls[i].header] < li.rpo[ls[j].header]
	})
	for _, l := range ls { // big to small: innermost wins last
		for b := range l.blocks {
			if o := li.inner[b]; o != nil && b == l.header {
				l.parent = o
				l.depth = o.depth + 1
			}
		}
		for b := range l.blocks {
			li.inner[b] = l
		}
	}
	return li
}
