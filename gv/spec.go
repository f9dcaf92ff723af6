package main

// Specification language: lexer, parser (AST only; evaluation is in eval.go).

import (
	"fmt"
	"os"
	"strings"
	"unicode"
)

type tok struct {
	k    string // id num str op eof
	s    string
	line int
}

type Ex struct {
	op   string // lit:int lit:real lit:str id field idx call un bin quant ite
	s    string
	a    []*Ex
	vars []QVar
	pats [][]*Ex
	line int
}
type QVar struct {
	name string
	sort string
}

func (e *Ex) String() string {
	switch e.op {
	case "int", "real", "id":
		return e.s
	case "str":
		return fmt.Sprintf("%q", e.s)
	case "field":
		return e.a[0].String() + "." + e.s
	case "idx":
		return e.a[0].String() + "[" + e.a[1].String() + "]"
	case "call":
		var xs []string
		for _, x := range e.a {
			xs = append(xs, x.String())
		}
		return e.s + "(" + strings.Join(xs, ", ") + ")"
	case "un":
		return e.s + e.a[0].String()
	case "bin":
		return "(" + e.a[0].String() + " " + e.s + " " + e.a[1].String() + ")"
	case "ite":
		return "(" + e.a[0].String() + " ? " + e.a[1].String() + " : " + e.a[2].String() + ")"
	case "forall", "exists":
		var xs []string
		for _, v := range e.vars {
			xs = append(xs, v.name+": "+v.sort)
		}
		return "(" + e.op + " " + strings.Join(xs, ", ") + " :: " + e.a[0].String() + ")"
	}
	return "?" + e.op
}

// ghost statement
type Stmt struct {
	why string
	kind string // use assert unfold assume havoc let
	name string
	e    *Ex
	vars []QVar // use forall
	pats [][]*Ex
	line int
}

type LoopSpec struct {
	key       string
	invs      []Named
	decreases *Ex
	unroll    int
	begin     []Stmt // after assuming the invariant
	end       []Stmt // at back edges before re-establishing
	init      []Stmt // before first establishing
	after     []Stmt // at exits
	file      string
	line      int
	used      bool
}
type Named struct {
	name string
	e    *Ex
	line int
}
type AtSpec struct {
	where  string // return | call:<name>#k
	before bool
	stmts  []Stmt
	used   bool
}
type FuncSpec struct {
	key      string
	params   []string
	results  []string
	requires []Named
	ensures  []Named
	modifies []string
	allocs   []string
	mayPanic *Ex
	returns  *Ex     // the result, as an expression over the entry state (functions without effects)
	panics   []Named // must hold if the function returns normally is ensures; here: conditions under which it must panic
	loops    map[string]*LoopSpec
	ats      []*AtSpec
	entry    []Stmt
	opts     map[string]bool
	inline   map[string]bool
	lets     []Stmt
	props    []string
	file     string
	line     int
	trusted  string
	split    []Named
}
type FunDef struct {
	name   string
	params []QVar
	ret    string
	body   *Ex // nil: uninterpreted
	rec    bool
	macro  bool

	arrIdx  string
	arrBody *Ex
}
type DataDef struct {
	name   string
	fields []QVar
}
type Lemma struct {
	name     string
	params   []QVar
	requires []*Ex
	ensures  []*Ex
	induct   string
	base     *Ex
	dec      *Ex
	ord      int
	body     []Stmt
	axiom    string // non-empty: trusted, with reason
	props    []string
	cases    []*Ex
	line     int
	file     string
}

type Specs struct {
	funcs  map[string]*FuncSpec
	forder []string
	defs   map[string]*FunDef
	dorder []string
	lemmas map[string]*Lemma
	lorder []string
	datas  []*DataDef
	ghosts []QVar
}

type parser struct {
	file string
	toks []tok
	p    int
}

func lexSpec(file, src string) []tok {
	var out []tok
	line := 1
	rs := []rune(src)
	i := 0
	for i < len(rs) {
		c := rs[i]
		switch {
		case c == '\n':
			line++
			i++
		case unicode.IsSpace(c):
			i++
		case c == '/' && i+1 < len(rs) && rs[i+1] == '/':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case unicode.IsLetter(c) || c == '_' || c == '$':
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '$') {
				j++
			}
			out = append(out, tok{"id", string(rs[i:j]), line})
			i = j
		case unicode.IsDigit(c):
			j := i
			for j < len(rs) && (unicode.IsDigit(rs[j]) || rs[j] == '_') {
				j++
			}
			if j+1 < len(rs) && rs[j] == '.' && unicode.IsDigit(rs[j+1]) {
				j++
				for j < len(rs) && unicode.IsDigit(rs[j]) {
					j++
				}
			}
			out = append(out, tok{"num", strings.ReplaceAll(string(rs[i:j]), "_", ""), line})
			i = j
		case c == '"':
			j := i + 1
			var b strings.Builder
			for j < len(rs) && rs[j] != '"' {
				if rs[j] == '\\' {
					j++
					if rs[j] == 't' {
						rs[j] = '\t'
					} else if rs[j] == 'n' {
						rs[j] = '\n'
					}
				}
				b.WriteRune(rs[j])
				j++
			}
			out = append(out, tok{"str", b.String(), line})
			i = j + 1
		default:
			ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", ".."}
			found := false
			for _, o := range ops {
				if strings.HasPrefix(string(rs[i:min(len(rs), i+4)]), o) {
					out = append(out, tok{"op", o, line})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				out = append(out, tok{"op", string(c), line})
				i++
			}
		}
	}
	out = append(out, tok{"eof", "", line})
	return out
}

func (p *parser) peek() tok { return p.toks[p.p] }
func (p *parser) next() tok { t := p.toks[p.p]; p.p++; return t }
func (p *parser) fail(msg string) {
	panic(fmt.Sprintf("%s:%d: %s (at %q)", p.file, p.peek().line, msg, p.peek().s))
}
func (p *parser) is(s string) bool { t := p.peek(); return t.k != "str" && t.s == s }
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected " + s)
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != "id" {
		p.p--
		p.fail("expected identifier")
	}
	return t.s
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *parser) expr() *Ex {
	if p.is("forall") || p.is("exists") {
		return p.quant()
	}
	e := p.bin(1)
	if p.accept("?") {
		a := p.expr()
		p.expect(":")
		b := p.expr()
		return &Ex{op: "ite", a: []*Ex{e, a, b}, line: e.line}
	}
	return e
}
func (p *parser) quant() *Ex {
	t := p.next()
	e := &Ex{op: t.s, line: t.line}
	e.vars = p.qvars()
	for p.accept("{") {
		var pat []*Ex
		for {
			pat = append(pat, p.expr())
			if !p.accept(",") {
				break
			}
		}
		p.expect("}")
		e.pats = append(e.pats, pat)
	}
	p.expect("::")
	e.a = []*Ex{p.expr()}
	return e
}
func (p *parser) qvars() []QVar {
	var vs []QVar
	for {
		names := []string{p.ident()}
		for p.accept(",") {
			names = append(names, p.ident())
			if p.is(":") {
				break
			}
		}
		p.expect(":")
		s := p.sort()
		for _, n := range names {
			vs = append(vs, QVar{n, s})
		}
		if !p.accept(",") {
			break
		}
	}
	return vs
}

// sort syntax: int | real | bool | string | [K]V | a.B
func (p *parser) sort() string {
	if p.accept("[") {
		if p.accept("]") {
			return "[]" + p.sort()
		}
		k := ""
		if p.peek().k == "num" {
			k = p.next().s
		} else {
			k = p.sort()
		}
		p.expect("]")
		v := p.sort()
		return "[" + k + "]" + v
	}
	if p.accept("*") {
		return "*" + p.sort()
	}
	return p.fkey()
}
func (p *parser) bin(min int) *Ex {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := binPrec[t.s]
		if t.k != "op" || !ok || pr < min {
			return l
		}
		p.next()
		var r *Ex
		if t.s == "==>" { // right assoc
			if p.is("forall") || p.is("exists") {
				r = p.quant()
			} else {
				r = p.bin(pr)
			}
		} else if p.is("forall") || p.is("exists") {
			r = p.quant()
		} else {
			r = p.bin(pr + 1)
		}
		// chained comparison a <= b < c
		if pr == 5 && l.op == "bin" && binPrec[l.s] == 5 {
			r2 := &Ex{op: "bin", s: t.s, a: []*Ex{l.a[1], r}, line: t.line}
			l = &Ex{op: "bin", s: "&&", a: []*Ex{l, r2}, line: t.line}
			continue
		}
		l = &Ex{op: "bin", s: t.s, a: []*Ex{l, r}, line: t.line}
	}
}
func (p *parser) unary() *Ex {
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-" || t.s == "*") {
		p.next()
		return &Ex{op: "un", s: t.s, a: []*Ex{p.unary()}, line: t.line}
	}
	return p.postfix()
}
func (p *parser) postfix() *Ex {
	t := p.next()
	var e *Ex
	switch {
	case t.k == "num":
		if strings.Contains(t.s, ".") {
			e = &Ex{op: "real", s: t.s, line: t.line}
		} else {
			e = &Ex{op: "int", s: t.s, line: t.line}
		}
	case t.k == "str":
		e = &Ex{op: "str", s: t.s, line: t.line}
	case t.k == "id":
		if p.is("(") {
			p.next()
			e = &Ex{op: "call", s: t.s, line: t.line}
			for !p.is(")") {
				e.a = append(e.a, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
		} else {
			e = &Ex{op: "id", s: t.s, line: t.line}
		}
	case t.s == "(":
		e = p.expr()
		p.expect(")")
		// block chained-comparison merging across parentheses
		if e.op == "bin" && binPrec[e.s] == 5 {
			e = &Ex{op: "un", s: "()", a: []*Ex{e}, line: t.line}
		}
	default:
		p.p--
		p.fail("unexpected token in expression")
	}
	for {
		if p.accept(".") {
			n := p.ident()
			e = &Ex{op: "field", s: n, a: []*Ex{e}, line: t.line}
		} else if p.accept("[") {
			i := p.expr()
			p.expect("]")
			e = &Ex{op: "idx", a: []*Ex{e, i}, line: t.line}
		} else {
			return e
		}
	}
}

func (p *parser) fkey() string {
	s := p.ident()
	for {
		if p.accept(".") {
			s += "." + p.ident()
		} else {
			return s
		}
	}
}

func (p *parser) stmts() []Stmt {
	var out []Stmt
	if p.accept("{") {
		for !p.accept("}") {
			out = append(out, p.stmt())
		}
		return out
	}
	return []Stmt{p.stmt()}
}
func (p *parser) stmt() Stmt {
	t := p.peek()
	k := p.ident()
	s := Stmt{kind: k, line: t.line}
	switch k {
	case "use", "unfold":
		if p.accept("forall") {
			p.expect("(")
			s.vars = p.qvars()
			p.expect(")")
			for p.accept("{") {
				var pat []*Ex
				for {
					pat = append(pat, p.expr())
					if !p.accept(",") {
						break
					}
				}
				p.expect("}")
				s.pats = append(s.pats, pat)
			}
		}
		s.e = p.expr()
	case "assert":
		if p.peek().k == "id" && p.toks[p.p+1].s == ":" {
			s.name = p.ident()
			p.expect(":")
		}
		s.e = p.expr()
	case "assume": // recorded as trusted
		s.name = p.ident()
		p.expect(":")
		s.e = p.expr()
		s.why = p.next().s
	case "let", "snap":
		s.name = p.ident()
		if k == "let" {
			p.expect("=")
			s.e = p.expr()
		}
	default:
		p.fail("unknown ghost statement " + k)
	}
	p.expect(";")
	return s
}

func (p *parser) named(prefix string, n int) Named {
	nm := fmt.Sprintf("%s%d", prefix, n)
	if p.peek().k == "id" && p.toks[p.p+1].k == "op" && p.toks[p.p+1].s == ":" {
		nm = p.ident()
		p.expect(":")
	}
	ln := p.peek().line
	e := p.expr()
	p.expect(";")
	return Named{nm, e, ln}
}

func (sp *Specs) parseFile(file string) {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	p := &parser{file: file, toks: expandTemplates(file, lexSpec(file, string(src)))}
	for p.peek().k != "eof" {
		t := p.peek()
		switch p.ident() {
		case "func":
			sp.parseFunc(p)
		case "lemma", "axiom":
			l := &Lemma{file: file, line: t.line}
			isAx := t.s == "axiom"
			l.name = p.ident()
			p.expect("(")
			if !p.is(")") {
				l.params = p.qvars()
			}
			p.expect(")")
			p.expect("{")
			for !p.accept("}") {
				switch k := p.ident(); k {
				case "requires":
					l.requires = append(l.requires, p.expr())
					p.expect(";")
				case "ensures":
					l.ensures = append(l.ensures, p.expr())
					p.expect(";")
				case "decreases":
					l.dec = p.expr()
					p.expect(";")
				case "induction":
					l.induct = p.ident()
					p.expect("from")
					l.base = p.expr()
					p.expect(";")
				case "trusted":
					l.axiom = p.next().s
					p.expect(";")
				case "cases":
					for {
						l.cases = append(l.cases, p.expr())
						if !p.accept(",") {
							break
						}
					}
					p.expect(";")
				case "prop":
					for !p.accept(";") {
						l.props = append(l.props, p.next().s)
					}
				default:
					p.p--
					l.body = append(l.body, p.stmt())
				}
			}
			if isAx && l.axiom == "" {
				panic(fmt.Sprintf("%s:%d: axiom %s needs a trusted reason", file, t.line, l.name))
			}
			if sp.lemmas[l.name] != nil {
				panic("duplicate lemma " + l.name)
			}
			l.ord = len(sp.lorder)
			sp.lemmas[l.name] = l
			sp.lorder = append(sp.lorder, l.name)
		case "function", "rec", "macro":
			d := &FunDef{rec: t.s == "rec", macro: t.s == "macro"}
			d.name = p.ident()
			p.expect("(")
			if d.macro {
				for !p.is(")") {
					d.params = append(d.params, QVar{p.ident(), ""})
					if !p.accept(",") {
						break
					}
				}
			} else if !p.is(")") {
				d.params = p.qvars()
			}
			p.expect(")")
			if p.accept(":") {
				d.ret = p.sort()
			}
			if p.accept("=") {
				d.body = p.expr()
			}
			p.expect(";")
			if sp.defs[d.name] != nil {
				panic("duplicate definition " + d.name)
			}
			sp.defs[d.name] = d
			sp.dorder = append(sp.dorder, d.name)
		case "datatype":
			d := &DataDef{name: p.ident()}
			p.expect("{")
			d.fields = p.qvars()
			p.expect("}")
			sp.datas = append(sp.datas, d)
		case "ghost":
			n := p.ident()
			p.expect(":")
			sp.ghosts = append(sp.ghosts, QVar{n, p.sort()})
			p.expect(";")
		case "arrfun": // array-valued function given pointwise
			d := &FunDef{}
			d.name = p.ident()
			p.expect("(")
			if !p.is(")") {
				d.params = p.qvars()
			}
			p.expect(")")
			p.expect(":")
			d.ret = p.sort()
			p.expect("[")
			d.arrIdx = p.ident()
			p.expect("]")
			p.expect("=")
			d.arrBody = p.expr()
			p.expect(";")
			if sp.defs[d.name] != nil {
				panic("duplicate definition " + d.name)
			}
			sp.defs[d.name] = d
			sp.dorder = append(sp.dorder, d.name)
		default:
			p.p--
			p.fail("unknown top-level item")
		}
	}
}

func (sp *Specs) parseFunc(p *parser) {
	f := &FuncSpec{loops: map[string]*LoopSpec{}, opts: map[string]bool{}, inline: map[string]bool{}, file: p.file, line: p.peek().line}
	f.key = p.fkey()
	if p.accept("@") { // variants of one function
		f.key += "@" + p.ident()
	}
	p.expect("{")
	for !p.accept("}") {
		switch k := p.ident(); k {
		case "params":
			for !p.accept(";") {
				f.params = append(f.params, p.ident())
				p.accept(",")
			}
		case "results":
			for !p.accept(";") {
				f.results = append(f.results, p.ident())
				p.accept(",")
			}
		case "requires":
			f.requires = append(f.requires, p.named("requires", len(f.requires)))
		case "ensures":
			f.ensures = append(f.ensures, p.named("ensures", len(f.ensures)))
		case "returns":
			e := p.expr()
			p.expect(";")
			f.returns = e
			f.ensures = append(f.ensures, Named{"returns", &Ex{op: "bin", s: "==", a: []*Ex{{op: "id", s: "result", line: e.line}, {op: "call", s: "old", a: []*Ex{e}, line: e.line}}, line: e.line}, e.line})
		case "panics_if": // panics exactly when: normal return implies not cond, and panic implies cond
			e := p.expr()
			p.expect(";")
			f.mayPanic = e
			f.ensures = append(f.ensures, Named{"no_return_when_panic_condition", &Ex{op: "un", s: "!", a: []*Ex{{op: "call", s: "old", a: []*Ex{e}}}}, e.line})
		case "may_panic":
			f.mayPanic = p.expr()
			p.expect(";")
		case "split":
			f.split = append(f.split, p.named("split", len(f.split)))
		case "modifies":
			for !p.accept(";") {
				if p.peek().k == "str" {
					f.modifies = append(f.modifies, p.next().s)
				} else {
					f.modifies = append(f.modifies, p.fkey())
				}
				p.accept(",")
			}
		case "allocs": // further components the function may write freshly
			for !p.accept(";") {
				if p.peek().k == "str" {
					f.allocs = append(f.allocs, p.next().s)
				} else {
					f.allocs = append(f.allocs, p.fkey())
				}
				p.accept(",")
			}
		case "option":
			for !p.accept(";") {
				f.opts[p.ident()] = true
				p.accept(",")
			}
		case "inline":
			for !p.accept(";") {
				f.inline[p.fkey()] = true
				p.accept(",")
			}
		case "prop":
			for !p.accept(";") {
				f.props = append(f.props, p.next().s)
				p.accept(",")
			}
		case "trusted":
			f.trusted = p.next().s
			p.expect(";")
		case "entry":
			f.entry = append(f.entry, p.stmts()...)
		case "at":
			a := &AtSpec{}
			switch w := p.ident(); w {
			case "return":
				a.where = "return"
			case "before", "after":
				a.before = w == "before"
				p.expect("call")
				n := p.fkey()
				if p.accept("#") {
					n += "#" + p.next().s
				}
				a.where = "call:" + n
			default:
				p.fail("bad at")
			}
			a.stmts = p.stmts()
			f.ats = append(f.ats, a)
		case "loop":
			l := &LoopSpec{file: p.file, line: p.peek().line}
			l.key = p.next().s
			p.expect("{")
			for !p.accept("}") {
				switch k := p.ident(); k {
				case "invariant":
					l.invs = append(l.invs, p.named("inv", len(l.invs)))
				case "decreases":
					l.decreases = p.expr()
					p.expect(";")
				case "unroll":
					fmt.Sscan(p.next().s, &l.unroll)
					p.expect(";")
				case "begin":
					l.begin = append(l.begin, p.stmts()...)
				case "end":
					l.end = append(l.end, p.stmts()...)
				case "init":
					l.init = append(l.init, p.stmts()...)
				case "after":
					l.after = append(l.after, p.stmts()...)
				default:
					p.p--
					p.fail("bad loop item")
				}
			}
			if o := f.loops[l.key]; o != nil { // a second part of the same loop
				o.invs = append(o.invs, l.invs...)
				o.begin = append(o.begin, l.begin...)
				o.end = append(o.end, l.end...)
				o.init = append(o.init, l.init...)
				o.after = append(o.after, l.after...)
				if l.decreases != nil {
					o.decreases = l.decreases
				}
			} else {
				f.loops[l.key] = l
			}
		default:
			p.p--
			p.fail("bad function item")
		}
	}
	if sp.funcs[f.key] != nil {
		panic("duplicate contract " + f.key)
	}
	sp.funcs[f.key] = f
	sp.forder = append(sp.forder, f.key)
}

// before: lemma a may be used in the proof of b (it comes first, or is an axiom)
func (sp *Specs) before(a, b *Lemma) bool { return a.axiom != "" || a.ord < b.ord }

type tpl struct {
	params []string
	body   []tok
}

var templates = map[string]tpl{}

// expandTemplates: "template name(a, b) { ... }" defines a text that
// "expand name(x, y);" stands for, with x and y (token lists without top-level
// commas) for a and b, also in the files after it.
func expandTemplates(file string, in []tok) []tok {
	ts := templates
	var out []tok
	closing := func(i int, toks []tok) int { // index of the bracket that closes toks[i]
		d := 0
		for ; i < len(toks); i++ {
			if toks[i].k != "op" {
				continue
			}
			switch toks[i].s {
			case "(", "{", "[":
				d++
			case ")", "}", "]":
				d--
				if d == 0 {
					return i
				}
			}
		}
		panic(specErr{file + ": unbalanced template"})
	}
	split := func(toks []tok) [][]tok {
		var r [][]tok
		var cur []tok
		d := 0
		for _, t := range toks {
			if t.k == "op" {
				switch t.s {
				case "(", "{", "[":
					d++
				case ")", "}", "]":
					d--
				}
			}
			if t.k == "op" && t.s == "," && d == 0 {
				r = append(r, cur)
				cur = nil
				continue
			}
			cur = append(cur, t)
		}
		if cur != nil {
			r = append(r, cur)
		}
		return r
	}
	var run func(toks []tok, depth int)
	run = func(toks []tok, depth int) {
		if depth > 10 {
			panic(specErr{file + ": templates nest too deeply"})
		}
		for i := 0; i < len(toks); i++ {
			t := toks[i]
			if t.k == "id" && (t.s == "template" || t.s == "expand") && i+2 < len(toks) && toks[i+1].k == "id" && toks[i+2].s == "(" {
				name := toks[i+1].s
				e := closing(i+2, toks)
				args := split(toks[i+3 : e])
				if t.s == "template" {
					var ps []string
					for _, a := range args {
						ps = append(ps, a[0].s)
					}
					b := closing(e+1, toks)
					ts[name] = tpl{ps, toks[e+2 : b]}
					i = b
					continue
				}
				tp, ok := ts[name]
				if !ok || len(args) != len(tp.params) {
					panic(specErr{fmt.Sprintf("%s:%d: no template %s with %d arguments", file, t.line, name, len(args))})
				}
				var body []tok
				for _, b := range tp.body {
					hit := false
					if b.k == "id" {
						for k, p := range tp.params {
							if b.s == p {
								body = append(body, args[k]...)
								hit = true
							}
						}
					}
					if !hit {
						body = append(body, b)
					}
				}
				run(body, depth+1)
				i = e
				if i+1 < len(toks) && toks[i+1].s == ";" {
					i++
				}
				continue
			}
			out = append(out, t)
		}
	}
	run(in, 0)
	return out
}
