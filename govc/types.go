package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Sorts of Go types. Structs and small arrays become datatypes whose
// selectors are fields; everything stored in memory has one of these sorts.

const maxTuple = 64

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func (c *Ctx) SortOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsFloat != 0:
			return SReal
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			return SInt
		}
	case *types.Slice:
		return SSlc
	case *types.Pointer:
		return SPtr
	case *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return SInt
	case *types.Struct:
		n := "T_" + sanitize(shortKey(typeKey(t)))
		if _, ok := c.dts[n]; ok {
			return n
		}
		d := &Datatype{name: n, ctor: "mk_" + n}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			d.fields = append(d.fields, fmt.Sprintf("%s_%s", n, f.Name()))
			d.sorts = append(d.sorts, c.SortOf(f.Type()))
			d.short = append(d.short, f.Name())
		}
		if u.NumFields() == 0 {
			d.fields = []string{n + "_unit"}
			d.sorts = []string{SInt}
			d.short = []string{"unit"}
		}
		c.AddDatatype(d)
		return n
	case *types.Array:
		n := "A_" + fmt.Sprint(u.Len()) + "_" + sanitize(shortKey(typeKey(u.Elem())))
		if _, ok := c.dts[n]; ok {
			return n
		}
		if u.Len() > maxTuple || u.Len() == 0 {
			panic(unsupported("array of length " + fmt.Sprint(u.Len())))
		}
		d := &Datatype{name: n, ctor: "mk_" + n}
		es := c.SortOf(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			d.fields = append(d.fields, fmt.Sprintf("%s_%d", n, i))
			d.sorts = append(d.sorts, es)
			d.short = append(d.short, fmt.Sprint(i))
		}
		c.AddDatatype(d)
		return n
	case *types.Tuple:
		if u.Len() == 0 {
			return SInt
		}
	}
	panic(unsupported("type " + t.String()))
}

func shortKey(s string) string {
	return strings.ReplaceAll(s, "geGoMetry/", "")
}

type Unsupported struct{ msg string }

func (u Unsupported) Error() string    { return "unsupported: " + u.msg }
func unsupported(s string) Unsupported { return Unsupported{s} }

// Zero value of a type.
func (c *Ctx) Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch c.SortOf(t) {
		case SBool:
			return c.False()
		case SInt:
			return c.Int(0)
		case SReal:
			return c.RealI(0)
		case SStr:
			return c.StrLit("")
		}
	case *types.Slice:
		return c.App("mkSlc", SSlc, c.Int(0), c.Int(0), c.Int(0), c.Int(0))
	case *types.Pointer:
		return c.App("mkPtr", SPtr, c.Int(0), c.Int(0))
	case *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return c.Int(0)
	case *types.Struct:
		s := c.SortOf(t)
		d := c.dts[s]
		var args []*Term
		for i := 0; i < u.NumFields(); i++ {
			args = append(args, c.Zero(u.Field(i).Type()))
		}
		if len(args) == 0 {
			args = append(args, c.Int(0))
		}
		return c.App(d.ctor, s, args...)
	case *types.Array:
		s := c.SortOf(t)
		d := c.dts[s]
		var args []*Term
		for range d.sorts {
			args = append(args, c.Zero(u.Elem()))
		}
		return c.App(d.ctor, s, args...)
	}
	panic(unsupported("zero of " + t.String()))
}

// StrLit is the constant for a string literal; literals are pairwise distinct.
func (c *Ctx) StrLit(s string) *Term {
	n := "lit$" + fmt.Sprintf("%x", s)
	t := c.RawConst(n, SStr)
	if c.strLits == nil {
		c.strLits = map[*Term]string{}
	}
	c.strLits[t] = s
	return t
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// intRange returns the bounds of sized integer types whose wrap-around is
// modelled; int, int64, rune and uintptr count as mathematical integers.
func intRange(t types.Type) (lo, hi string, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Uint8:
		return "0", "256", true
	case types.Uint16:
		return "0", "65536", true
	case types.Uint32:
		return "0", "4294967296", true
	case types.Uint64, types.Uint, types.Uintptr:
		return "0", "18446744073709551616", true
	case types.Int8:
		return "-128", "128", true
	case types.Int16:
		return "-32768", "32768", true
	case types.Int32:
		return "-2147483648", "2147483648", true
	}
	return
}

func sliceOf(t types.Type) (types.Type, bool) {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem(), true
	}
	return nil, false
}
