package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---- specification language: syntax ----

type Expr struct {
	op    string // num str ident bin un field index slice call forall exists cond let old
	name  string
	args  []*Expr
	vars  []VarDecl
	trigs []*Expr
	pos   string
}

type VarDecl struct {
	name string
	typ  string // type text
	mod  string // for metavariables: "", "phi"
}

func (e *Expr) String() string {
	if e == nil {
		return "<nil>"
	}
	switch e.op {
	case "num", "ident":
		return e.name
	case "str":
		return fmt.Sprintf("%q", e.name)
	case "bin":
		return "(" + e.args[0].String() + " " + e.name + " " + e.args[1].String() + ")"
	case "un":
		return e.name + e.args[0].String()
	case "field":
		return e.args[0].String() + "." + e.name
	case "index":
		return e.args[0].String() + "[" + e.args[1].String() + "]"
	case "slice":
		s := e.args[0].String() + "["
		if e.args[1] != nil {
			s += e.args[1].String()
		}
		s += ":"
		if e.args[2] != nil {
			s += e.args[2].String()
		}
		return s + "]"
	case "call":
		var as []string
		for _, a := range e.args {
			as = append(as, a.String())
		}
		return e.name + "(" + strings.Join(as, ", ") + ")"
	case "forall", "exists":
		var vs []string
		for _, v := range e.vars {
			vs = append(vs, v.name+" "+v.typ)
		}
		return "(" + e.op + " " + strings.Join(vs, ", ") + " :: " + e.args[0].String() + ")"
	case "cond":
		return "(" + e.args[0].String() + " ? " + e.args[1].String() + " : " + e.args[2].String() + ")"
	case "let":
		return "(let " + e.name + " = " + e.args[0].String() + " in " + e.args[1].String() + ")"
	}
	return "?" + e.op
}

type Clause struct {
	props []string
	label string
	e     *Expr
	pos   string
	metas []VarDecl
	src   string

	params2, results2 []string // names of the second call of a twice clause
}

func (c *Clause) hasProp(p string) bool {
	for _, x := range c.props {
		if x == p {
			return true
		}
	}
	return false
}

// Contract of one function of the repository.
type Contract struct {
	key        string // function key
	pkg        string
	recv       string // receiver name in the spec, "" if none
	params     []string
	results    []string
	requires   []*Clause
	ensures    []*Clause
	modifies   []*Expr
	modAll     bool
	panics     *Clause // panics exactly when
	invariants []*Clause
	decreases  []*Clause
	asserts    []*Clause
	uses       []string // lemmas made available
	reveals    []string // sealed definitions made available
	hints      []*Clause
	twice      []*Clause // relations between two calls
	terminates bool
	mayPanic   bool   // panic freedom is not claimed
	inlineAll  bool   // callees inlined
	trusted    string // reason, for external functions
	safeProps  []string
	allowDiv0  bool
	noauto     bool
	gen        string // Go generator code for the counterexample search
	inlines    map[string]bool
	timeout    int
	pos        string
	runtime    bool
	norun      map[string]bool
	goCode     string
	opts       map[string]string
}

type PureFn struct {
	name   string
	pkg    string
	params []VarDecl
	ret    string
	body   *Expr
	rec    bool
	opaque bool // no definition: uninterpreted
	sealed bool // an uninterpreted symbol except where revealed
	pos    string
	goBody string
}

type Lemma struct {
	name     string
	pkg      string
	params   []VarDecl
	requires []*Expr
	ensures  *Expr
	induct   string // induction variable
	from     *Expr
	trigs    []*Expr
	uses     []string
	reveals  []string
	axiom    bool
	pos      string
	props    []string
}

type GlobalSpec struct {
	name string
	pkg  string
	e    *Expr
}

type SpecFile struct {
	contracts []*Contract
	pures     []*PureFn
	lemmas    []*Lemma
}

// Specs is everything read from the contract files.
type Specs struct {
	contracts map[string]*Contract
	order     []string
	pures     map[string]*PureFn
	lemmas    map[string]*Lemma
	lemOrder  []string
	module    map[string]string // package path -> module dir
	gocode    map[string]string // package -> Go helper code for runtime checks
	goimports map[string][]string
}

// ---- lexer ----

type tok struct {
	k    string // id num str op eof
	s    string
	line int
}

type lexer struct {
	file string
	toks []tok
	p    int
}

var ops = []string{"<==>", "==>", "...", "::", "<=", ">=", "==", "!=", "&&", "||", ":=",
	"+", "-", "*", "/", "%", "<", ">", "!", "(", ")", "[", "]", "{", "}", ",", ".", ":", "?", "=", "&", "$"}

func lexSpec(file, src string) *lexer {
	l := &lexer{file: file}
	line := 1
	rs := []rune(src)
	i := 0
	for i < len(rs) {
		c := rs[i]
		switch {
		case c == '\n':
			line++
			i++
		case unicode.IsSpace(c):
			i++
		case c == '/' && i+1 < len(rs) && rs[i+1] == '/':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case unicode.IsLetter(c) || c == '_' || c == '$':
			j := i + 1
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_') {
				j++
			}
			l.toks = append(l.toks, tok{"id", string(rs[i:j]), line})
			i = j
		case unicode.IsDigit(c):
			j := i
			for j < len(rs) && (unicode.IsDigit(rs[j]) || rs[j] == '.' && j+1 < len(rs) && unicode.IsDigit(rs[j+1]) || rs[j] == 'e' || (rs[j] == '-' || rs[j] == '+') && rs[j-1] == 'e') {
				j++
			}
			l.toks = append(l.toks, tok{"num", string(rs[i:j]), line})
			i = j
		case c == '\'':
			// rune literal
			j := i + 1
			if rs[j] == '\\' {
				j++
			}
			var v rune = rs[j]
			if rs[i+1] == '\\' {
				switch rs[j] {
				case 'n':
					v = '\n'
				case 't':
					v = '\t'
				case 'r':
					v = '\r'
				}
			}
			l.toks = append(l.toks, tok{"num", fmt.Sprint(int(v)), line})
			i = j + 2
		case c == '`':
			j := i + 1
			for j < len(rs) && rs[j] != '`' {
				if rs[j] == '\n' {
					line++
				}
				j++
			}
			l.toks = append(l.toks, tok{"raw", string(rs[i+1 : j]), line})
			i = j + 1
		case c == '"':
			j := i + 1
			var b strings.Builder
			for j < len(rs) && rs[j] != '"' {
				if rs[j] == '\\' {
					j++
				}
				b.WriteRune(rs[j])
				j++
			}
			l.toks = append(l.toks, tok{"str", b.String(), line})
			i = j + 1
		default:
			found := false
			end := i + 4
			if end > len(rs) {
				end = len(rs)
			}
			rest := string(rs[i:end])
			for _, o := range ops {
				if strings.HasPrefix(rest, o) {
					l.toks = append(l.toks, tok{"op", o, line})
					i += len([]rune(o))
					found = true
					break
				}
			}
			if !found {
				panic(fmt.Sprintf("%s:%d: bad character %q", file, line, c))
			}
		}
	}
	l.toks = append(l.toks, tok{"eof", "", line})
	return l
}

func (l *lexer) peek() tok { return l.toks[l.p] }
func (l *lexer) peekN(n int) tok {
	if l.p+n < len(l.toks) {
		return l.toks[l.p+n]
	}
	return l.toks[len(l.toks)-1]
}
func (l *lexer) next() tok { t := l.toks[l.p]; l.p++; return t }
func (l *lexer) is(s string) bool {
	t := l.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (l *lexer) accept(s string) bool {
	if l.is(s) {
		l.p++
		return true
	}
	return false
}
func (l *lexer) expect(s string) {
	if !l.accept(s) {
		l.fail("expected %q, found %q", s, l.peek().s)
	}
}
func (l *lexer) fail(f string, a ...interface{}) {
	panic(fmt.Sprintf("%s:%d: %s", l.file, l.peek().line, fmt.Sprintf(f, a...)))
}
func (l *lexer) ident() string {
	t := l.next()
	if t.k != "id" {
		l.p--
		l.fail("expected identifier, found %q", t.s)
	}
	return t.s
}
func (l *lexer) where() string { return fmt.Sprintf("%s:%d", filepath.Base(l.file), l.peek().line) }

// ---- expression parser ----

func (l *lexer) expr() *Expr { return l.parseCond() }

func (l *lexer) mk(op, name string, args ...*Expr) *Expr {
	return &Expr{op: op, name: name, args: args, pos: l.where()}
}

func (l *lexer) parseCond() *Expr {
	if l.is("forall") || l.is("exists") {
		return l.quant()
	}
	if l.is("let") {
		l.next()
		n := l.ident()
		l.expect("=")
		v := l.parseIff()
		l.expect("in")
		b := l.expr()
		return l.mk("let", n, v, b)
	}
	c := l.parseIff()
	if l.accept("?") {
		a := l.parseCond()
		l.expect(":")
		b := l.parseCond()
		return l.mk("cond", "", c, a, b)
	}
	return c
}

func (l *lexer) quant() *Expr {
	op := l.ident()
	e := &Expr{op: op, pos: l.where()}
	e.vars = l.varDecls("::")
	l.expect("::")
	if l.accept("{") {
		for {
			e.trigs = append(e.trigs, l.expr())
			if !l.accept(",") {
				break
			}
		}
		l.expect("}")
	}
	e.args = []*Expr{l.expr()}
	return e
}

// varDecls parses "a, b int, c []r3.Vector".
func (l *lexer) varDecls(end string) []VarDecl {
	var out []VarDecl
	var pending []string
	for !l.is(end) {
		pending = append(pending, l.ident())
		if l.accept(",") {
			continue
		}
		if l.is(end) {
			l.fail("missing type for %v", pending)
		}
		mod := ""
		if l.is("phi") {
			l.next()
			mod = "phi"
		} else if l.is("named") {
			l.next()
			mod = "named"
			if l.is("phi") {
				l.next()
				mod = "named phi"
			}
		} else if l.is("outer") {
			l.next()
			mod = "outer"
		}
		t := l.typeText()
		for _, n := range pending {
			out = append(out, VarDecl{n, t, mod})
		}
		pending = nil
		if !l.accept(",") {
			break
		}
	}
	return out
}

func (l *lexer) typeText() string {
	switch {
	case l.accept("["):
		if l.accept("]") {
			return "[]" + l.typeText()
		}
		n := l.next().s
		l.expect("]")
		return "[" + n + "]" + l.typeText()
	case l.accept("*"):
		return "*" + l.typeText()
	case l.is("map"):
		l.next()
		l.expect("[")
		k := l.typeText()
		l.expect("]")
		return "map[" + k + "]" + l.typeText()
	}
	n := l.ident()
	if l.is(".") {
		l.next()
		n += "." + l.ident()
	}
	return n
}

func (l *lexer) parseIff() *Expr {
	a := l.parseImp()
	for l.accept("<==>") {
		b := l.parseImp()
		a = l.mk("bin", "<==>", a, b)
	}
	return a
}
func (l *lexer) parseImp() *Expr {
	a := l.parseOr()
	if l.accept("==>") {
		var b *Expr
		if l.is("forall") || l.is("exists") || l.is("let") {
			b = l.parseCond()
		} else {
			b = l.parseImp()
		}
		return l.mk("bin", "==>", a, b)
	}
	return a
}
func (l *lexer) parseOr() *Expr {
	a := l.parseAnd()
	for l.accept("||") {
		a = l.mk("bin", "||", a, l.operand(l.parseAnd))
	}
	return a
}
func (l *lexer) operand(f func() *Expr) *Expr {
	if l.is("forall") || l.is("exists") || l.is("let") {
		return l.parseCond()
	}
	return f()
}
func (l *lexer) parseAnd() *Expr {
	a := l.parseCmp()
	for l.accept("&&") {
		a = l.mk("bin", "&&", a, l.operand(l.parseCmp))
	}
	return a
}
func (l *lexer) parseCmp() *Expr {
	a := l.parseAdd()
	var out *Expr
	for {
		t := l.peek()
		if t.k == "op" && (t.s == "==" || t.s == "!=" || t.s == "<" || t.s == "<=" || t.s == ">" || t.s == ">=") || t.k == "id" && t.s == "in" && l.inAllowed() {
			l.next()
			b := l.parseAdd()
			c := l.mk("bin", t.s, a, b)
			if out == nil {
				out = c
			} else {
				out = l.mk("bin", "&&", out, c)
			}
			a = b
			continue
		}
		break
	}
	if out != nil {
		return out
	}
	return a
}

// "in" also ends a let binding; bindings therefore use parentheses around membership tests.
func (l *lexer) inAllowed() bool { return !l.inLet() }
func (l *lexer) inLet() bool {
	// scan back for an unmatched "let ... =" before this token at the same depth
	d := 0
	for i := l.p - 1; i >= 0; i-- {
		s := l.toks[i].s
		if l.toks[i].k == "op" {
			if s == ")" || s == "]" {
				d++
			} else if s == "(" || s == "[" {
				if d == 0 {
					return false
				}
				d--
			}
		}
		if d == 0 && l.toks[i].k == "id" {
			if s == "in" || isClauseWord(s) {
				return false
			}
			if s == "let" {
				return true
			}
		}
	}
	return false
}

func (l *lexer) parseAdd() *Expr {
	a := l.parseMul()
	for l.is("+") || l.is("-") {
		o := l.next().s
		a = l.mk("bin", o, a, l.parseMul())
	}
	return a
}
func (l *lexer) parseMul() *Expr {
	a := l.parseUn()
	for l.is("*") || l.is("/") || l.is("%") {
		o := l.next().s
		a = l.mk("bin", o, a, l.parseUn())
	}
	return a
}
func (l *lexer) parseUn() *Expr {
	for _, o := range []string{"-", "!", "*", "&"} {
		if l.is(o) {
			l.next()
			return l.mk("un", o, l.parseUn())
		}
	}
	return l.parsePost()
}
func (l *lexer) parsePost() *Expr {
	t := l.next()
	var e *Expr
	switch {
	case t.k == "num":
		e = l.mk("num", t.s)
	case t.k == "str":
		e = l.mk("str", t.s)
	case t.k == "op" && t.s == "(":
		e = l.expr()
		l.expect(")")
	case t.k == "id":
		e = l.mk("ident", t.s)
	default:
		l.p--
		l.fail("unexpected %q in expression", t.s)
	}
	for {
		switch {
		case l.accept("."):
			e = l.mk("field", l.ident(), e)
		case l.accept("["):
			if l.accept(":") {
				var hi *Expr
				if !l.is("]") {
					hi = l.expr()
				}
				l.expect("]")
				e = l.mk("slice", "", e, nil, hi)
				continue
			}
			i := l.expr()
			if l.accept(":") {
				var hi *Expr
				if !l.is("]") {
					hi = l.expr()
				}
				l.expect("]")
				e = l.mk("slice", "", e, i, hi)
				continue
			}
			l.expect("]")
			e = l.mk("index", "", e, i)
		case l.is("(") && (e.op == "ident" || e.op == "field" && e.args[0].op == "ident"):
			l.next()
			name := e.name
			if e.op == "field" {
				name = e.args[0].name + "." + e.name
			}
			c := l.mk("call", name)
			for !l.is(")") {
				c.args = append(c.args, l.expr())
				if !l.accept(",") {
					break
				}
			}
			l.expect(")")
			e = c
		default:
			return e
		}
	}
}

// ---- file parser ----

var clauseWords = map[string]bool{"package": true, "func": true, "pure": true, "rec": true, "lemma": true, "axiom": true,
	"requires": true, "ensures": true, "modifies": true, "panics": true, "invariant": true, "decreases": true,
	"terminates": true, "trusted": true, "allow": true, "gen": true, "inline": true, "safe": true, "use": true,
	"gocode": true, "induction": true, "trigger": true, "opaque": true, "sealed": true, "reveal": true, "hint": true, "runtime": true, "extern": true, "option": true}

func isClauseWord(s string) bool { return clauseWords[s] }

func (l *lexer) props() []string {
	var ps []string
	if l.accept("[") {
		for !l.is("]") {
			ps = append(ps, l.ident())
			if !l.accept(",") {
				break
			}
		}
		l.expect("]")
	}
	return ps
}

func (l *lexer) clause() *Clause {
	c := &Clause{pos: l.where()}
	c.props = l.props()
	if l.peek().k == "str" {
		c.label = l.next().s
	}
	c.e = l.expr()
	return c
}

func (s *Specs) parseFile(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	l := lexSpec(file, string(b))
	pkg := ""
	for l.peek().k != "eof" {
		where := l.where()
		switch w := l.ident(); w {
		case "package":
			t := l.next()
			pkg = t.s
			mod := "."
			if l.peek().k == "str" {
				mod = l.next().s
			}
			s.module[pkg] = mod
		case "gocode":
			t := l.next()
			s.gocode[pkg] += t.s + "\n"
		case "pure", "rec", "opaque", "sealed":
			p := &PureFn{pkg: pkg, rec: w == "rec", opaque: w == "opaque", sealed: w == "sealed", pos: where}
			p.name = l.ident()
			l.expect("(")
			p.params = l.varDecls(")")
			l.expect(")")
			p.ret = l.typeText()
			if !p.opaque {
				l.expect("=")
				p.body = l.expr()
			}
			if l.peek().k == "raw" {
				p.goBody = l.next().s
			}
			if _, dup := s.pures[p.name]; dup {
				return fmt.Errorf("%s: %s is defined twice", where, p.name)
			}
			s.pures[p.name] = p
		case "lemma", "axiom":
			lm := &Lemma{pkg: pkg, pos: where, axiom: w == "axiom"}
			lm.props = l.props()
			lm.name = l.ident()
			l.expect("(")
			lm.params = l.varDecls(")")
			l.expect(")")
			for {
				if l.accept("requires") {
					lm.requires = append(lm.requires, l.expr())
				} else if l.accept("ensures") {
					e := l.expr()
					if lm.ensures == nil {
						lm.ensures = e
					} else {
						lm.ensures = l.mk("bin", "&&", lm.ensures, e)
					}
				} else if l.accept("induction") {
					lm.induct = l.ident()
					if l.accept(":=") {
						lm.from = l.expr()
					}
				} else if l.accept("trigger") {
					for {
						lm.trigs = append(lm.trigs, l.expr())
						if !l.accept(",") {
							break
						}
					}
				} else if l.accept("reveal") {
					lm.reveals = append(lm.reveals, l.ident())
					for l.accept(",") {
						lm.reveals = append(lm.reveals, l.ident())
					}
				} else if l.accept("use") {
					lm.uses = append(lm.uses, l.ident())
					for l.accept(",") {
						lm.uses = append(lm.uses, l.ident())
					}
				} else {
					break
				}
			}
			s.lemmas[lm.name] = lm
			s.lemOrder = append(s.lemOrder, lm.name)
		case "func", "extern":
			c := &Contract{pkg: pkg, pos: where, inlines: map[string]bool{}, norun: map[string]bool{}, opts: map[string]string{}}
			key := pkg
			if l.accept("(") {
				c.recv = l.ident()
				star := l.accept("*")
				tn := l.ident()
				l.expect(")")
				if star {
					key += ".(*" + tn + ")"
				} else {
					key += "." + tn
				}
			}
			key += "." + l.ident()
			c.key = key
			l.expect("(")
			for !l.is(")") {
				c.params = append(c.params, l.ident())
				if !l.accept(",") {
					break
				}
			}
			l.expect(")")
			if l.accept("(") {
				for !l.is(")") {
					c.results = append(c.results, l.ident())
					if !l.accept(",") {
						break
					}
				}
				l.expect(")")
			}
			l.clauses(c)
			if _, dup := s.contracts[key]; dup {
				return fmt.Errorf("%s: second contract for %s", where, key)
			}
			s.contracts[key] = c
			s.order = append(s.order, key)
		default:
			l.p--
			l.fail("unexpected %q", w)
		}
	}
	return nil
}

func (l *lexer) clauses(c *Contract) {
	for {
		where := l.where()
		start := l.p
		switch {
		case l.accept("requires"):
			c.requires = append(c.requires, l.clause())
		case l.accept("ensures"):
			cl := l.clause()
			cl.src = l.text(start, l.p)
			c.ensures = append(c.ensures, cl)
		case l.accept("twice"): // relates two calls: twice (params2) (results2) clause
			var ns [2][]string
			for k := range ns {
				l.expect("(")
				for !l.is(")") {
					ns[k] = append(ns[k], l.ident())
					if !l.accept(",") {
						break
					}
				}
				l.expect(")")
			}
			cl := l.clause()
			cl.src = l.text(start, l.p)
			cl.params2, cl.results2 = ns[0], ns[1]
			c.twice = append(c.twice, cl)
		case l.accept("modifies"):
			for {
				if l.is("everything") {
					l.next()
					c.modAll = true
				} else {
					c.modifies = append(c.modifies, l.modTarget())
				}
				if !l.accept(",") {
					break
				}
			}
		case l.accept("panics"):
			c.panics = l.clause()
		case l.accept("invariant"):
			cl := &Clause{pos: where}
			if l.accept("[") {
				cl.metas = l.varDecls("]")
				l.expect("]")
			}
			cl.e = l.expr()
			c.invariants = append(c.invariants, cl)
		case l.accept("decreases"):
			cl := &Clause{pos: where}
			if l.accept("[") {
				cl.metas = l.varDecls("]")
				l.expect("]")
			}
			cl.e = l.expr()
			c.decreases = append(c.decreases, cl)
		case l.accept("terminates"):
			c.terminates = true
		case l.accept("trusted"):
			c.trusted = l.next().s
		case l.accept("safe"):
			c.safeProps = l.props()
		case l.accept("allow"):
			switch w := l.ident(); w {
			case "div0":
				c.allowDiv0 = true
			case "panic":
				c.mayPanic = true
			default:
				l.fail("allow %s", w)
			}
		case l.accept("option"):
			k := l.ident()
			c.opts[k] = l.next().s
		case l.accept("inline"):
			if l.accept("*") {
				c.inlineAll = true
				continue
			}
			for {
				c.inlines[l.ident()] = true
				if !l.accept(",") {
					break
				}
			}
		case l.accept("use"):
			for {
				c.uses = append(c.uses, l.ident())
				if !l.accept(",") {
					break
				}
			}
		case l.accept("reveal"):
			for {
				c.reveals = append(c.reveals, l.ident())
				if !l.accept(",") {
					break
				}
			}
		case l.accept("hint"):
			c.hints = append(c.hints, l.clause())
		case l.accept("gen"):
			c.gen = l.next().s
		case l.accept("runtime"):
			c.goCode = l.next().s
		default:
			return
		}
	}
}

func (l *lexer) text(a, b int) string {
	var s []string
	for _, t := range l.toks[a:b] {
		s = append(s, t.s)
	}
	return strings.Join(s, " ")
}

// modTarget: *p, p.f, s[*], mem(T), spare(s): the array elements between length and capacity
func (l *lexer) modTarget() *Expr {
	if l.accept("*") {
		return l.mk("un", "*", l.parsePost())
	}
	t := l.ident()
	e := l.mk("ident", t)
	for {
		if l.accept(".") {
			e = l.mk("field", l.ident(), e)
		} else if l.accept("[") {
			l.expect("*")
			l.expect("]")
			e = l.mk("elems", "", e)
		} else if l.accept("(") {
			e = l.mk("call", t)
			if t == "spare" {
				e.args = []*Expr{l.expr()}
			} else {
				e.args = []*Expr{l.mk("ident", l.typeText())}
			}
			l.expect(")")
		} else {
			return e
		}
	}
}

func LoadSpecs(dir string) (sp *Specs, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok {
				err = fmt.Errorf("%s", s)
				return
			}
			panic(r)
		}
	}()
	sp = &Specs{contracts: map[string]*Contract{}, pures: map[string]*PureFn{}, lemmas: map[string]*Lemma{}, module: map[string]string{}, gocode: map[string]string{}}
	fs, err := filepath.Glob(filepath.Join(dir, "*.spec"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	for _, f := range fs {
		if err := sp.parseFile(f); err != nil {
			return nil, err
		}
	}
	return sp, nil
}
