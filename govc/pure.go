package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// valuePure: the function's results depend on its arguments only, and it has
// no effects: it neither reads nor writes memory other than its own locals.
func (e *Engine) valuePure(fn *ssa.Function) bool {
	if e.pureMemo == nil {
		e.pureMemo = map[*ssa.Function]bool{}
	}
	if r, ok := e.pureMemo[fn]; ok {
		return r
	}
	e.pureMemo[fn] = false
	r := e.valuePure1(fn)
	e.pureMemo[fn] = r
	return r
}

func (e *Engine) valuePure1(fn *ssa.Function) bool {
	if len(fn.FreeVars) > 0 {
		return false
	}
	for _, p := range fn.Params {
		if !scalarValue(p.Type(), 0) {
			return false
		}
	}
	if fn.Pkg != nil && !e.repoFunc(fn) {
		pk := fn.Pkg.Pkg.Path()
		return pk == "math"
	}
	if len(fn.Blocks) == 0 {
		return false
	}
	local := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.Alloc:
				return true
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			default:
				return false
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.BinOp, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.Panic, *ssa.DebugRef:
			case *ssa.MakeInterface: // argument of panic
			case *ssa.UnOp:
				if x.Op.String() == "*" && !local(x.X) {
					return false
				}
			case *ssa.Store:
				if !local(x.Addr) {
					return false
				}
			case *ssa.Call:
				f := x.Call.StaticCallee()
				if f == nil || !e.valuePure(f) {
					return false
				}
			default:
				return false
			}
		}
	}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if !scalarValue(rs.At(i).Type(), 0) {
			return false
		}
	}
	return true
}

// scalarValue: a number, boolean or string, or a struct or array of them.
func scalarValue(t types.Type, depth int) bool {
	if depth > 5 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !scalarValue(u.Field(i).Type(), depth+1) {
				return false
			}
		}
		return true
	case *types.Array:
		return scalarValue(u.Elem(), depth+1)
	}
	return false
}
