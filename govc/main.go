package main

import (
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: govc func|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "func":
		cmdFunc(os.Args[2:])
	case "search":
		cmdSearch(os.Args[2:])
	case "sigs":
		cmdSigs()
	case "check":
		cmdCheck(os.Args[2:])
	}
}

// cmdFunc verifies the named functions and prints every obligation (development aid).
func cmdFunc(args []string) {
	specs, err := LoadSpecs(specDir())
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	progs := map[string]*Program{}
	keys := expandKeys(specs, args)
	for _, key := range keys {
		con := specs.contracts[key]
		if con == nil {
			if lm := specs.lemmas[key]; lm != nil {
				p, err := progFor(progs, specs, lm.pkg)
				if err != nil {
					fmt.Println(err)
					os.Exit(2)
				}
				vc := genLemma(p, specs, lm)
				report(vc, time.Now())
				continue
			}
			fmt.Println("no contract for", key)
			continue
		}
		p, err := progFor(progs, specs, con.pkg)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		t0 := time.Now()
		vc := genFunc(p, specs, key, map[string]bool{})
		report(vc, t0)
	}
}

func report(vc *VC, t0 time.Time) {
	if vc.err != nil {
		fmt.Printf("%s: ERROR %v\n", vc.key, vc.err)
		return
	}
	vc.discharge(false)
	fmt.Printf("== %s: %d facts, %d obligations, %d candidates, %.1fs\n", vc.key, len(vc.e.facts), len(vc.e.obls), len(vc.e.cands), time.Since(t0).Seconds())
	for _, o := range vc.e.obls {
		if o.cand != nil || o.kind == "skip" {
			continue
		}
		s := "ok  "
		if !o.ok {
			s = "FAIL"
		}
		if !o.ok || os.Getenv("GOVC_V") != "" {
			fmt.Printf("  %s %-9s %s [%s] by %s %dms %s\n", s, o.kind, o.name, o.pos, o.by, o.ms, o.detail)
		}
	}
	if os.Getenv("GOVC_V") != "" {
		for _, cd := range vc.e.cands {
			if cd.alive {
				fmt.Printf("  inv  %s: %s\n", cd.loop, cd.desc)
			}
		}
	}
}

func progFor(progs map[string]*Program, specs *Specs, pkg string) (*Program, error) {
	mod := specs.module[pkg]
	if p := progs[mod]; p != nil {
		return p, nil
	}
	p, err := LoadProgram(repoDir(), mod, "/tmp/govc-scratch", []string{"./..."})
	if err != nil {
		return nil, err
	}
	p.reconcile(specs)
	progs[mod] = p
	return p, nil
}

// repoDir is the tree under verification; the development override is never set by the registered commands.
func repoDir() string {
	if d := os.Getenv("GOVC_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// cmdSearch runs the counterexample search on the named functions (development aid).
func cmdSearch(args []string) {
	specs, err := LoadSpecs(specDir())
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	progs := map[string]*Program{}
	for _, key := range expandKeys(specs, args) {
		con := specs.contracts[key]
		if con == nil {
			fmt.Println("no contract for", key)
			continue
		}
		p, err := progFor(progs, specs, con.pkg)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		reps, msg := searchCounterexamples(p, specs, con.pkg, []string{key}, 2, "1")
		for _, r := range reps {
			fmt.Printf("%+v\n", r)
		}
		if msg != "" {
			fmt.Println(msg)
		}
	}
}

func expandKeys(specs *Specs, args []string) []string {
	var keys []string
	for _, a := range args {
		if strings.HasSuffix(a, "/...") {
			for _, k := range specs.order {
				if strings.HasPrefix(k, strings.TrimSuffix(a, "/...")+".") {
					keys = append(keys, k)
				}
			}
			continue
		}
		keys = append(keys, a)
	}
	return keys
}
