package main

// Evaluation of specification expressions and ghost statements.

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SV struct {
	t   *Term
	typ types.Type
	p   *Ptr // pointer into a slice element or local variable
}

type evalCtx struct {
	x       *Exec
	fr      *Frame
	st      *State
	old     *State
	li      *LoopInst
	vars    map[string]SV
	results []SV
	noLocal bool
}

type specErr struct{ msg string }

func (c *evalCtx) fail(e *Ex, f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf("spec line %d: %s: %s", e.line, e, fmt.Sprintf(f, a...))})
}

func (x *Exec) evalSpec(fr *Frame, st *State, e *Ex, li *LoopInst) SV {
	return x.evalIn(&evalCtx{x: x, fr: fr, st: st, old: x.old, li: li, vars: x.lets}, e)
}
func (x *Exec) evalBool(fr *Frame, st *State, e *Ex, li *LoopInst) *Term {
	v := x.evalSpec(fr, st, e, li)
	if v.t.sort != SBool {
		panic(specErr{fmt.Sprintf("spec line %d: %s is not boolean", e.line, e)})
	}
	return v.t
}
func (x *Exec) evalIn(c *evalCtx, e *Ex) SV { return c.eval(e) }

func (c *evalCtx) with(vars map[string]SV) *evalCtx {
	n := *c
	n.vars = map[string]SV{}
	for k, v := range c.vars {
		n.vars[k] = v
	}
	for k, v := range vars {
		n.vars[k] = v
	}
	return &n
}
func (c *evalCtx) in(st *State) *evalCtx {
	n := *c
	n.st = st
	return &n
}

// ---- sorts ------------------------------------------------------------------

func (w *World) resolveSort(s string) (Sort, types.Type) {
	switch s {
	case "int":
		return SInt, types.Typ[types.Int]
	case "real":
		return SReal, types.Typ[types.Float64]
	case "bool":
		return SBool, types.Typ[types.Bool]
	case "string":
		return SStr, types.Typ[types.String]
	case "slice":
		return SSlice, nil
	case "opq":
		return SOpq, nil
	case "iface":
		return SIface, nil
	}
	if strings.HasPrefix(s, "[") && s[1] != ']' && (s[1] < '0' || s[1] > '9') {
		d := 0
		for i := range s {
			switch s[i] {
			case '[':
				d++
			case ']':
				d--
				if d == 0 {
					k, _ := w.resolveSort(s[1:i])
					v, _ := w.resolveSort(s[i+1:])
					return arrSort(k, v), nil
				}
			}
		}
	}
	if d, ok := dtypes[s]; ok {
		return d.Name, nil
	}
	if t := w.goType(s); t != nil {
		return sortOf(t), t
	}
	panic(specErr{"unknown sort " + s})
}
func (w *World) goType(s string) types.Type {
	if strings.HasPrefix(s, "*") {
		t := w.goType(s[1:])
		if t == nil {
			return nil
		}
		return types.NewPointer(t)
	}
	switch s {
	case "int":
		return types.Typ[types.Int]
	case "string":
		return types.Typ[types.String]
	case "bool":
		return types.Typ[types.Bool]
	}
	if strings.HasPrefix(s, "[") {
		i := strings.IndexByte(s, ']')
		t := w.goType(s[i+1:])
		if t == nil {
			return nil
		}
		if i == 1 {
			return types.NewSlice(t)
		}
		n := int64(0)
		fmt.Sscan(s[1:i], &n)
		return types.NewArray(t, n)
	}
	if i := strings.IndexByte(s, '.'); i > 0 {
		if p, ok := w.pkgs[s[:i]]; ok {
			if o := p.Pkg.Scope().Lookup(s[i+1:]); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
	}
	// the type of a function's parameter: pkg.Func.param
	if i := strings.LastIndexByte(s, '.'); i > 0 {
		if f := w.allFuncs()[s[:i]]; f != nil {
			for _, p := range f.Params {
				if p.Name() == s[i+1:] {
					return p.Type()
				}
			}
		}
	}
	return nil
}

var sortGo = map[Sort]types.Type{}

// ---- name lookup ----------------------------------------------------------------

func (c *evalCtx) local(name string) (SV, bool) {
	fr := c.fr
	blk := (*ssa.BasicBlock)(nil)
	if c.li != nil && c.li.fr == fr {
		blk = c.li.header
	} else if fr != nil {
		blk = fr.block
	}
	for fr != nil {
		var best *ssa.Alloc
		for a := range fr.cells {
			if a.Comment != name {
				continue
			}
			if c.li != nil && c.li.atEnd && c.li.fr == fr {
				ok := true
				for _, p := range blk.Preds {
					if blk.Dominates(p) && !a.Block().Dominates(p) {
						ok = false
					}
				}
				if !ok {
					continue
				}
			} else if blk != nil && a.Block() != nil && !a.Block().Dominates(blk) {
				continue
			}
			if v, ok := fr.cells[a].(*Ptr); ok {
				if _, ok := c.st.cells[v.cell]; !ok {
					continue
				}
			}
			if best == nil || a.Pos() > best.Pos() {
				best = a
			}
		}
		if best != nil {
			el := best.Type().Underlying().(*types.Pointer).Elem()
			switch v := fr.cells[best].(type) {
			case *Ptr:
				val := c.st.cells[v.cell]
				if val == nil {
					return SV{}, false
				}
				return c.sv(val, el), true
			case *Term: // heap object: the variable's value
				return SV{t: Select(c.x.comp(c.st, memCt(el)), v), typ: el}, true
			}
		}
		for i, f := range fr.fn.FreeVars {
			if f.Name() == name {
				pt, ok := f.Type().Underlying().(*types.Pointer)
				if !ok {
					break
				}
				p := c.x.asPtr(fr.free[i], f.Type())
				return c.sv(c.x.load(c.st, p), pt.Elem()), true
			}
		}
		fr = fr.parent
		if fr != nil {
			blk = fr.block
		}
	}
	return SV{}, false
}
func (c *evalCtx) sv(v Value, t types.Type) SV {
	if cl, ok := v.(*Closure); ok {
		return SV{t: c.x.closureTerm(c.st, cl), typ: t}
	}
	return SV{t: c.x.term(c.st, v), typ: t}
}

func (c *evalCtx) ident(e *Ex) SV {
	n := e.s
	if v, ok := c.vars[n]; ok {
		return v
	}
	switch n {
	case "true":
		return SV{t: tTrue, typ: types.Typ[types.Bool]}
	case "false":
		return SV{t: tFalse, typ: types.Typ[types.Bool]}
	case "nil":
		return SV{t: intT(0), typ: nil}
	case "next":
		return SV{t: c.x.next(c.st), typ: types.Typ[types.Int]}
	case "result":
		if len(c.results) >= 1 {
			return c.results[0]
		}
	case "$i", "$i1", "$i2":
		return c.rangeIdx(e, n)
	case "$visited":
		if c.li == nil || c.li.iter == nil {
			c.fail(e, "no map iteration here")
		}
		return SV{t: c.x.term(c.st, c.st.cells[c.li.iter.visited]), typ: nil}
	case "$dom":
		if c.li == nil || c.li.iter == nil {
			c.fail(e, "no map iteration here")
		}
		return SV{t: c.li.iter.dom0, typ: nil}
	case "$pos":
		if c.li == nil || c.li.iter == nil || c.li.iter.pos == nil {
			c.fail(e, "no string iteration here")
		}
		return SV{t: c.x.term(c.st, c.st.cells[c.li.iter.pos]), typ: types.Typ[types.Int]}
	}
	if strings.HasPrefix(n, "result") {
		var i int
		if _, err := fmt.Sscanf(n, "result%d", &i); err == nil && i < len(c.results) {
			return c.results[i]
		}
	}
	if c.fr != nil && !c.noLocal {
		if v, ok := c.local(n); ok {
			return v
		}
	}
	if v, ok := c.x.params[n]; ok {
		return v
	}
	if d, ok := c.x.w.specs.defs[n]; ok && len(d.params) == 0 {
		return c.callDef(e, d, nil)
	}
	c.fail(e, "unknown name %q", n)
	return SV{}
}

func (c *evalCtx) rangeIdx(e *Ex, n string) SV {
	li := c.li
	if li == nil {
		c.fail(e, "not in a loop")
	}
	depth := 0
	if len(n) > 2 {
		depth = int(n[2] - '0')
	}
	// enclosing loops of the same frame, innermost first
	hdr := li.header
	fr := li.fr
	for d := 0; ; d++ {
		if d == depth {
			break
		}
		var best *ssa.BasicBlock
		for h, body := range fr.li.body {
			if h != hdr.Index && body[hdr.Index] {
				if best == nil || len(body) < len(fr.li.body[best.Index]) {
					best = fr.fn.Blocks[h]
				}
			}
		}
		if best == nil {
			// caller's loop
			if fr.parent == nil {
				c.fail(e, "no enclosing loop")
			}
			fr = fr.parent
			for h, body := range fr.li.body {
				if body[fr.block.Index] {
					if best == nil || len(body) < len(fr.li.body[best.Index]) {
						best = fr.fn.Blocks[h]
					}
				}
			}
			if best == nil {
				c.fail(e, "no enclosing loop")
			}
		}
		hdr = best
	}
	for _, in := range hdr.Instrs {
		if u, ok := in.(*ssa.UnOp); ok {
			if a, ok := u.X.(*ssa.Alloc); ok && a.Comment == "rangeindex" {
				p := fr.cells[a].(*Ptr)
				v := c.x.term(c.st, c.st.cells[p.cell])
				return SV{t: Add(v, intT(1)), typ: types.Typ[types.Int]}
			}
		}
	}
	c.fail(e, "loop has no range index")
	return SV{}
}

// ---- expressions -----------------------------------------------------------------

func (c *evalCtx) evalT(e *Ex) *Term { return c.eval(e).t }

func (c *evalCtx) eval(e *Ex) SV {
	switch e.op {
	case "int":
		n, _ := new(big.Int).SetString(e.s, 10)
		return SV{t: bigT(n), typ: types.Typ[types.Int]}
	case "real":
		r, _ := new(big.Rat).SetString(e.s)
		return SV{t: realT(r), typ: types.Typ[types.Float64]}
	case "str":
		return SV{t: strLit(e.s), typ: types.Typ[types.String]}
	case "id":
		return c.ident(e)
	case "un":
		v := c.eval(e.a[0])
		switch e.s {
		case "!":
			return SV{t: Not(v.t), typ: v.typ}
		case "-":
			return SV{t: Neg(v.t), typ: v.typ}
		case "()":
			return v
		case "*":
			return c.deref(e, v)
		}
	case "bin":
		return c.bin(e)
	case "ite":
		cnd := c.evalT(e.a[0])
		a, b := c.eval(e.a[1]), c.eval(e.a[2])
		a, b = c.coerce(a, b)
		return SV{t: Ite(cnd, a.t, b.t), typ: a.typ}
	case "forall", "exists":
		return c.quant(e)
	case "field":
		return c.field(e)
	case "idx":
		return c.index(e)
	case "call":
		return c.call(e)
	}
	c.fail(e, "cannot evaluate")
	return SV{}
}

func (c *evalCtx) deref(e *Ex, v SV) SV {
	pt, ok := v.typ.(*types.Pointer)
	if !ok && v.typ != nil {
		pt, ok = v.typ.Underlying().(*types.Pointer)
	}
	if !ok {
		c.fail(e, "dereference of non-pointer")
	}
	if v.p != nil {
		return c.sv(c.x.load(c.st, v.p), pt.Elem())
	}
	return SV{t: Select(c.x.comp(c.st, memCt(pt.Elem())), v.t), typ: pt.Elem()}
}

func (c *evalCtx) coerce(a, b SV) (SV, SV) {
	if a.t.sort == SReal && b.t.sort == SInt {
		if n, ok := b.t.intLit(); ok {
			b = SV{t: realT(new(big.Rat).SetInt(n)), typ: a.typ}
		} else {
			b = SV{t: mk("to_real", SReal, b.t), typ: a.typ}
		}
	} else if b.t.sort == SReal && a.t.sort == SInt {
		y, x := c.coerce(b, a)
		return x, y
	}
	if a.t == intT(0) && b.t.sort == SIface {
		a = SV{t: nilIface(), typ: b.typ}
	}
	if b.t == intT(0) && a.t.sort == SIface {
		b = SV{t: nilIface(), typ: a.typ}
	}
	if b.t == intT(0) && a.t.sort == SSlice {
		a = SV{t: Acc(sliceDT, 0, a.t), typ: nil}
	}
	return a, b
}

func (c *evalCtx) bin(e *Ex) SV {
	B := types.Typ[types.Bool]
	switch e.s {
	case "&&":
		return SV{t: And(c.evalT(e.a[0]), c.evalT(e.a[1])), typ: B}
	case "||":
		return SV{t: Or(c.evalT(e.a[0]), c.evalT(e.a[1])), typ: B}
	case "==>":
		return SV{t: Implies(c.evalT(e.a[0]), c.evalT(e.a[1])), typ: B}
	case "<==>":
		return SV{t: Eq(c.evalT(e.a[0]), c.evalT(e.a[1])), typ: B}
	}
	a, b := c.eval(e.a[0]), c.eval(e.a[1])
	a, b = c.coerce(a, b)
	if a.t.sort != b.t.sort {
		c.fail(e, "operands have sorts %s and %s", a.t.sort, b.t.sort)
	}
	switch e.s {
	case "==":
		return SV{t: Eq(a.t, b.t), typ: B}
	case "!=":
		return SV{t: Ne(a.t, b.t), typ: B}
	case "<":
		return SV{t: Lt(a.t, b.t), typ: B}
	case "<=":
		return SV{t: Le(a.t, b.t), typ: B}
	case ">":
		return SV{t: Lt(b.t, a.t), typ: B}
	case ">=":
		return SV{t: Le(b.t, a.t), typ: B}
	case "+":
		if a.t.sort == SStr {
			return SV{t: strCat(a.t, b.t), typ: a.typ}
		}
		return SV{t: Add(a.t, b.t), typ: a.typ}
	case "-":
		return SV{t: Sub(a.t, b.t), typ: a.typ}
	case "*":
		return SV{t: Mul(a.t, b.t), typ: a.typ}
	case "/":
		if a.t.sort == SInt {
			return SV{t: TDiv(a.t, b.t), typ: a.typ}
		}
		return SV{t: RDiv(a.t, b.t), typ: a.typ}
	case "%":
		return SV{t: TMod(a.t, b.t), typ: a.typ}
	}
	c.fail(e, "operator %s", e.s)
	return SV{}
}

func (c *evalCtx) quant(e *Ex) SV {
	vs := map[string]SV{}
	var bs []*Term
	for _, v := range e.vars {
		s, t := c.x.w.resolveSort(v.sort)
		b := bvar(v.name, s)
		bs = append(bs, b)
		vs[v.name] = SV{t: b, typ: t}
	}
	n := c.with(vs)
	body := n.evalT(e.a[0])
	var pats [][]*Term
	for _, p := range e.pats {
		var ts []*Term
		for _, pe := range p {
			ts = append(ts, n.evalT(pe))
		}
		pats = append(pats, ts)
	}
	bs, pats, body = absIndex(bs, pats, body)
	if e.op == "forall" {
		return SV{t: Forall(bs, pats, body), typ: types.Typ[types.Bool]}
	}
	return SV{t: Exists(bs, body), typ: types.Typ[types.Bool]}
}

func anyOf(m map[*Term]bool, bs []*Term) bool {
	for _, b := range bs {
		if m[b] {
			return true
		}
	}
	return false
}

// absIndex lets the bound index variables run over positions of the backing
// array, so that "array at variable" is a usable pattern.
func absIndex(bs []*Term, pats [][]*Term, body *Term) ([]*Term, [][]*Term, *Term) {
	nb := append([]*Term{}, bs...)
	for i, b := range bs {
		if b.sort != SInt {
			continue
		}
		var rest *Term
		plain := false
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] || !t.bv[b] {
				return
			}
			seen[t] = true
			if t.op == "select" && t.args[1].bv[b] {
				if t.args[1] == b {
					plain = true
				} else if r := Sub(t.args[1], b); rest == nil && !anyOf(r.bv, bs) {
					rest = r
				}
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		if len(pats) > 0 {
			for _, p := range pats {
				for _, t := range p {
					walk(t)
				}
			}
		} else {
			walk(body)
		}
		if plain || rest == nil {
			continue
		}
		k := bvar("k", SInt)
		m := map[*Term]*Term{b: Sub(k, rest)}
		body = Subst(body, m)
		var np [][]*Term
		for _, p := range pats {
			var q []*Term
			for _, t := range p {
				q = append(q, Subst(t, m))
			}
			np = append(np, q)
		}
		pats = np
		nb[i] = k
	}
	return nb, pats, body
}

func (c *evalCtx) field(e *Ex) SV {
	v := c.eval(e.a[0])
	return c.fieldOf(e, v, e.s)
}
func (c *evalCtx) fieldOf(e *Ex, v SV, name string) SV {
	t := v.typ
	if t != nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if s, ok := p.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == name {
						var m *Term
						if v.p != nil {
							m = c.x.term(c.st, c.x.load(c.st, v.p))
						} else {
							m = Select(c.x.comp(c.st, memCt(p.Elem())), v.t)
						}
						return SV{t: Acc(structDT(p.Elem()), i, m), typ: s.Field(i).Type()}
					}
				}
			}
		}
	}
	if d, ok := dtypes[v.t.sort]; ok {
		for i, f := range d.Fields {
			if f.Acc == d.Name+"."+name || f.Acc == name {
				ft := f.Typ
				if g, ok := sortGo[v.t.sort]; ok {
					if s, ok := g.Underlying().(*types.Struct); ok {
						ft = s.Field(i).Type()
					}
				} else if t != nil {
					if s, ok := t.Underlying().(*types.Struct); ok {
						ft = s.Field(i).Type()
					}
				}
				return SV{t: Acc(d, i, v.t), typ: ft}
			}
		}
	}
	c.fail(e, "no field %s (sort %s, type %v)", name, v.t.sort, v.typ)
	return SV{}
}

func (c *evalCtx) index(e *Ex) SV {
	v := c.eval(e.a[0])
	i := c.eval(e.a[1])
	if strings.HasPrefix(v.t.sort, "(Array ") {
		k, vs := splitArr(v.t.sort)
		if k != i.t.sort {
			c.fail(e, "index sort %s, want %s", i.t.sort, k)
		}
		return SV{t: Select(v.t, i.t), typ: sortGo[vs]}
	}
	if v.typ != nil {
		switch u := v.typ.Underlying().(type) {
		case *types.Slice:
			r, o, _, _ := c.x.sliceParts(v.t)
			return SV{t: Select(Select(c.x.comp(c.st, arrCt(u.Elem())), r), Add(o, i.t)), typ: u.Elem()}
		case *types.Map:
			_, mv := mapCt(u)
			return SV{t: Select(Select(c.x.comp(c.st, mv), v.t), i.t), typ: u.Elem()}
		case *types.Array:
			return SV{t: arrGet(dtypes[v.t.sort], v.t, i.t), typ: u.Elem()}
		}
	}
	c.fail(e, "cannot index sort %s", v.t.sort)
	return SV{}
}

func (c *evalCtx) callDef(e *Ex, d *FunDef, args []SV) SV {
	if len(args) != len(d.params) {
		c.fail(e, "%s takes %d arguments", d.name, len(d.params))
	}
	w := c.x.w
	if d.macro {
		vs := map[string]SV{}
		for i, p := range d.params {
			vs[p.name] = args[i]
		}
		n := c.with(vs)
		return n.eval(d.body)
	}
	rs, rt := w.resolveSort(d.ret)
	if d.body != nil && !d.rec {
		vs := map[string]SV{}
		for i, p := range d.params {
			s, t := w.resolveSort(p.sort)
			a := args[i]
			if s == SReal && a.t.sort == SInt {
				a, _ = c.coerce(a, SV{t: realT(new(big.Rat)), typ: nil})
			}
			if a.t.sort != s {
				c.fail(e, "argument %s of %s has sort %s, want %s", p.name, d.name, a.t.sort, s)
			}
			if t == nil {
				t = a.typ
			}
			vs[p.name] = SV{t: a.t, typ: t}
		}
		n := &evalCtx{x: c.x, st: c.st, old: c.old, vars: vs, noLocal: true}
		r := n.eval(d.body)
		if r.t.sort == SInt && rs == SReal {
			r, _ = c.coerce(r, SV{t: realT(new(big.Rat)), typ: nil})
		}
		if r.t.sort != rs {
			c.fail(e, "%s returns %s, declared %s", d.name, r.t.sort, rs)
		}
		return SV{t: r.t, typ: rt}
	}
	var ss []Sort
	var ts []*Term
	for i, p := range d.params {
		s, _ := w.resolveSort(p.sort)
		ss = append(ss, s)
		a := args[i]
		if s == SReal && a.t.sort == SInt {
			a, _ = c.coerce(a, SV{t: realT(new(big.Rat)), typ: nil})
		}
		if a.t.sort != s {
			c.fail(e, "argument %s of %s has sort %s, want %s", p.name, d.name, a.t.sort, s)
		}
		ts = append(ts, a.t)
	}
	declFun("f."+d.name, rs, ss...)
	return SV{t: app("f."+d.name, ts...), typ: rt}
}

func (c *evalCtx) call(e *Ex) SV {
	w := c.x.w
	x := c.x
	I, B := types.Typ[types.Int], types.Typ[types.Bool]
	switch e.s {
	case "old":
		if c.old == nil {
			c.fail(e, "old() not available here")
		}
		n := *c
		n.st = c.old
		if c.fr != nil {
			// parameters take their entry values
			n.vars = map[string]SV{}
			for k, v := range c.vars {
				n.vars[k] = v
			}
			for k, v := range x.params {
				if _, bound := c.vars[k]; !bound {
					n.vars[k] = v
				}
			}
		}
		return n.eval(e.a[0])
	case "entry":
		if c.li == nil {
			c.fail(e, "entry() outside a loop")
		}
		return c.in(c.li.entry).eval(e.a[0])
	case "at":
		s, ok := x.snaps[e.a[0].s]
		if !ok {
			c.fail(e, "no snapshot %s", e.a[0].s)
		}
		return c.in(s).eval(e.a[1])
	}
	if d, ok := w.specs.defs[e.s]; ok {
		var args []SV
		for _, a := range e.a {
			args = append(args, c.eval(a))
		}
		return c.callDef(e, d, args)
	}
	if d, ok := ctorOf["mk_"+e.s]; ok {
		var ts []*Term
		for i, a := range e.a {
			v := c.eval(a)
			if d.Fields[i].Sort == SReal && v.t.sort == SInt {
				v, _ = c.coerce(v, SV{t: realT(new(big.Rat)), typ: nil})
			}
			ts = append(ts, v.t)
		}
		return SV{t: Ctor(d, ts...), typ: nil}
	}
	arg := func(i int) SV {
		if i >= len(e.a) {
			c.fail(e, "missing argument")
		}
		return c.eval(e.a[i])
	}
	switch e.s {
	case "len":
		v := arg(0)
		switch {
		case v.t.sort == SSlice:
			return SV{t: Acc(sliceDT, 2, v.t), typ: I}
		case v.t.sort == SStr:
			return SV{t: strLen(v.t), typ: I}
		case v.typ != nil:
			if mt, ok := v.typ.Underlying().(*types.Map); ok {
				return SV{t: x.mapLen(c.st, mt, v.t), typ: I}
			}
		}
		c.fail(e, "len of sort %s", v.t.sort)
	case "cap":
		return SV{t: Acc(sliceDT, 3, arg(0).t), typ: I}
	case "off":
		return SV{t: Acc(sliceDT, 1, arg(0).t), typ: I}
	case "ref":
		v := arg(0)
		if v.t.sort == SSlice {
			return SV{t: Acc(sliceDT, 0, v.t), typ: I}
		}
		return SV{t: v.t, typ: I}
	case "arr": // raw contents of the backing array
		v := arg(0)
		sl, ok := v.typ.Underlying().(*types.Slice)
		if !ok {
			c.fail(e, "arr of non-slice")
		}
		cn := arrCt(sl.Elem())
		noteGo(sl.Elem())
		return SV{t: Select(x.comp(c.st, cn), Acc(sliceDT, 0, v.t)), typ: nil}
	case "rat":
		return SV{t: Select(x.comp(c.st, "Rat"), arg(0).t), typ: types.Typ[types.Float64]}
	case "bigint":
		return SV{t: Select(x.comp(c.st, "BigInt"), arg(0).t), typ: I}
	case "buf":
		return SV{t: Select(x.comp(c.st, "Buf"), arg(0).t), typ: types.Typ[types.String]}
	case "rats":
		return SV{t: x.comp(c.st, "Rat"), typ: nil}
	case "heap":
		return SV{t: x.comp(c.st, e.a[0].s), typ: nil}
	case "mem": // mem(p) struct value
		return c.deref(e, arg(0))
	case "has":
		m, k := arg(0), arg(1)
		mt := m.typ.Underlying().(*types.Map)
		_, ok := x.mapGet(c.st, mt, m.t, k.t)
		return SV{t: ok, typ: B}
	case "mapdom":
		m := arg(0)
		d, _ := mapCt(m.typ.Underlying().(*types.Map))
		return SV{t: Select(x.comp(c.st, d), m.t), typ: nil}
	case "mapval":
		m := arg(0)
		_, v := mapCt(m.typ.Underlying().(*types.Map))
		return SV{t: Select(x.comp(c.st, v), m.t), typ: nil}
	case "permof":
		return SV{t: permOf(arg(0).t, arg(1).t, arg(2).t, arg(3).t), typ: B}
	case "permfwd", "perminv":
		permOf(arg(0).t, arg(1).t, arg(2).t, arg(3).t)
		_, es := splitArr(arg(0).t.sort)
		return SV{t: app(e.s+"."+sanit(es), arg(0).t, arg(1).t, arg(2).t, arg(3).t), typ: nil}
	case "store":
		return SV{t: Store(arg(0).t, arg(1).t, arg(2).t), typ: nil}
	case "real":
		v, _ := c.coerce(arg(0), SV{t: realT(new(big.Rat)), typ: types.Typ[types.Float64]})
		return SV{t: v.t, typ: types.Typ[types.Float64]}
	case "ediv":
		return SV{t: IDiv(arg(0).t, arg(1).t), typ: I}
	case "emod":
		return SV{t: IMod(arg(0).t, arg(1).t), typ: I}
	case "floor":
		return SV{t: mk("to_int", SInt, arg(0).t), typ: I}
	case "isnil":
		v := arg(0)
		if v.t.sort == SIface {
			return SV{t: Eq(v.t, nilIface()), typ: B}
		}
		if v.t.sort == SSlice {
			return SV{t: Eq(Acc(sliceDT, 0, v.t), intT(0)), typ: B}
		}
		return SV{t: Eq(v.t, intT(0)), typ: B}
	case "callfn":
		f := arg(0)
		var ts []*Term
		for i := 1; i < len(e.a); i++ {
			ts = append(ts, arg(i).t)
		}
		sig, ok := f.typ.Underlying().(*types.Signature)
		if !ok {
			c.fail(e, "callfn on non-function")
		}
		rs := x.fnApply(sig, f.t, ts)
		return SV{t: rs[0], typ: sig.Results().At(0).Type()}
	case "callfn1":
		f := arg(0)
		var ts []*Term
		for i := 1; i < len(e.a); i++ {
			ts = append(ts, arg(i).t)
		}
		sig := f.typ.Underlying().(*types.Signature)
		rs := x.fnApply(sig, f.t, ts)
		return SV{t: rs[1], typ: sig.Results().At(1).Type()}
	case "substr":
		return SV{t: x.subStr(c.st, arg(0).t, arg(1).t, arg(2).t), typ: types.Typ[types.String]}
	case "hastype": // hastype(v, "pkg.Type"): the dynamic type of an interface value
		v := arg(0).t
		return SV{t: And(Ne(v, nilIface()), hasType(v, sanit(e.a[1].s))), typ: types.Typ[types.Bool]}
	case "box":
		v := arg(0)
		return SV{t: x.box(c.st, &IfaceV{v.typ, v.t}), typ: nil}
	case "jsonfield": // jsonfield(v, "name"): what encoding/json writes under a name for a boxed struct
		return c.jsonField(e, arg(0).t, e.a[1].s)
	case "new": // struct value of a Go type: new("pkg.Type", fields...)
		t := w.goType(e.a[0].s)
		if t == nil {
			c.fail(e, "unknown type %s", e.a[0].s)
		}
		noteGo(t)
		var d *DType
		if at, ok := t.Underlying().(*types.Array); ok {
			d = arrayDT(at)
		} else {
			d = structDT(t)
		}
		var ts []*Term
		for i := 1; i < len(e.a); i++ {
			ts = append(ts, arg(i).t)
		}
		if len(ts) != len(d.Fields) {
			c.fail(e, "wrong number of fields")
		}
		return SV{t: Ctor(d, ts...), typ: t}
	case "u": // uninterpreted model function: u("name", "sort", args...)
		rs, rt := w.resolveSort(e.a[1].s)
		var ts []*Term
		var ss []Sort
		for i := 2; i < len(e.a); i++ {
			t := arg(i).t
			ts = append(ts, t)
			ss = append(ss, t.sort)
		}
		declFun(e.a[0].s, rs, ss...)
		return SV{t: app(e.a[0].s, ts...), typ: rt}
	}
	c.fail(e, "unknown function %s", e.s)
	return SV{}
}

func noteGo(t types.Type) {
	if isStructT(t) && repoStruct(t) {
		d := structDT(t)
		if _, ok := sortGo[d.Name]; !ok {
			sortGo[d.Name] = t
			s := t.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				noteGo(s.Field(i).Type())
			}
		}
	}
}

func (x *Exec) mapLen(st *State, mt *types.Map, m *Term) *Term {
	d, _ := mapCt(mt)
	dom := Select(x.comp(st, d), m)
	f := "card." + sanit(sortOf(mt.Key()))
	declFun(f, SInt, dom.sort)
	l := app(f, dom)
	if l.bv == nil {
		x.rawFact(Le(intT(0), l))
	}
	return Ite(Eq(m, intT(0)), intT(0), l)
}

// ---- ghost statements ------------------------------------------------------------------

func (x *Exec) ghost(fr *Frame, st *State, ss []Stmt, li *LoopInst) {
	c := &evalCtx{x: x, fr: fr, st: st, old: x.old, li: li, vars: x.lets}
	x.ghostIn(c, ss)
}
func (x *Exec) ghostIn(c *evalCtx, ss []Stmt) {
	for _, s := range ss {
		c.vars = x.lets
		switch s.kind {
		case "let":
			x.lets[s.name] = c.eval(s.e)
		case "snap":
			x.snaps[s.name] = c.st.clone()
		case "assert":
			n := s.name
			if n == "" {
				n = fmt.Sprintf("assert@%d", s.line)
			}
			x.obligeAssume(c.st, "assert", n, c.evalT(s.e))
		case "assume":
			x.w.trusted["assumed in "+x.fname()+": "+s.name] = s.why
			x.fact(c.st, c.evalT(s.e))
		case "unfold":
			if len(s.vars) > 0 {
				n, bs, pats := c.binders(s)
				x.fact(c.st, Forall(absIndex(bs, pats, n.unfold(s.e))))
			} else {
				x.fact(c.st, c.unfold(s.e))
			}
		case "use":
			if len(s.vars) > 0 {
				n, bs, pats := c.binders(s)
				req, ens := n.useLemma(s.e)
				x.fact(c.st, Forall(absIndex(bs, pats, Implies(req, ens))))
			} else {
				req, ens := c.useLemma(s.e)
				nm := "requires of lemma"
				if s.e.op == "call" {
					nm = "requires of lemma " + s.e.s
				}
				x.oblige(c.st, "lemma-use", fmt.Sprintf("%s@%d", nm, s.line), req)
				x.fact(c.st, Implies(req, ens))
			}
		}
	}
}

func (c *evalCtx) unfold(e *Ex) *Term {
	if e.op != "call" {
		c.fail(e, "unfold needs a call")
	}
	d := c.x.w.specs.defs[e.s]
	if d != nil && d.macro && len(e.a) == len(d.params) {
		vs := map[string]SV{}
		for i, p := range d.params {
			vs[p.name] = c.eval(e.a[i])
		}
		return c.with(vs).unfold(d.body)
	}
	if d == nil || !d.rec {
		c.fail(e, "unfold of a non-recursive function")
	}
	var args []SV
	for _, a := range e.a {
		args = append(args, c.eval(a))
	}
	l := c.callDef(e, d, args)
	vs := map[string]SV{}
	for i, p := range d.params {
		_, t := c.x.w.resolveSort(p.sort)
		a := args[i]
		if l.t.args[i].sort != a.t.sort {
			a = SV{t: l.t.args[i], typ: t}
		}
		vs[p.name] = SV{t: a.t, typ: t}
	}
	n := &evalCtx{x: c.x, st: c.st, old: c.old, vars: vs, noLocal: true}
	r := n.eval(d.body)
	ll, rr := c.coerce(l, r)
	return Eq(ll.t, rr.t)
}

func (c *evalCtx) useLemma(e *Ex) (req, ens *Term) {
	if e.op == "bin" && e.s == "==>" {
		cond := c.evalT(e.a[0])
		req, ens = c.useLemma(e.a[1])
		return Implies(cond, req), Implies(cond, ens)
	}
	if e.op != "call" {
		c.fail(e, "use needs a lemma")
	}
	l := c.x.w.specs.lemmas[e.s]
	if l == nil {
		c.fail(e, "unknown lemma %s", e.s)
	}
	if c.x.used != nil {
		c.x.used["lemma "+l.name] = true
	}
	if l.axiom != "" {
		c.x.w.trusted["axiom "+l.name] = l.axiom
	}
	if len(e.a) != len(l.params) {
		c.fail(e, "lemma %s takes %d arguments", l.name, len(l.params))
	}
	vs := map[string]SV{}
	for i, p := range l.params {
		s, t := c.x.w.resolveSort(p.sort)
		v := c.eval(e.a[i])
		if s == SReal && v.t.sort == SInt {
			v, _ = c.coerce(v, SV{t: realT(new(big.Rat)), typ: nil})
		}
		if v.t.sort != s {
			c.fail(e, "lemma argument %s has sort %s, want %s", p.name, v.t.sort, s)
		}
		vs[p.name] = SV{t: v.t, typ: t}
	}
	n := &evalCtx{x: c.x, st: c.st, old: c.old, vars: vs, noLocal: true}
	req, ens = tTrue, tTrue
	if c.x.lemma != nil {
		if l == c.x.lemma {
			// the lemma itself, for a smaller measure
			if l.dec == nil {
				c.fail(e, "recursive use needs a decreases clause")
			}
			m, m0 := n.evalT(l.dec), c.x.lemmaDec
			req = And(Le(intT(0), m0), Lt(m, m0))
		} else if !c.x.w.specs.before(l, c.x.lemma) {
			c.fail(e, "lemma %s is used before it is proved", l.name)
		}
	}
	for _, r := range l.requires {
		req = And(req, n.evalT(r))
	}
	for _, r := range l.ensures {
		ens = And(ens, n.evalT(r))
	}
	return
}

// verifyLemma produces the obligations of a lemma
func (w *World) verifyLemma(l *Lemma) (obls []*Obl, x *Exec, err error) {
	x = newExec(w, nil, nil)
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case execErr:
				err = fmt.Errorf("%s", e.msg)
			case specErr:
				err = fmt.Errorf("%s", e.msg)
			default:
				panic(e)
			}
		}
	}()
	st := &State{pc: tTrue, cells: map[*Cell]Value{}, heap: map[string]*Term{}, regs: map[ssa.Value]Value{}}
	vs := map[string]SV{}
	for _, p := range l.params {
		s, t := w.resolveSort(p.sort)
		vs[p.name] = SV{t: freshConst(p.name, s), typ: t}
	}
	x.lets = vs
	c := &evalCtx{x: x, st: st, old: st, vars: vs, noLocal: true}
	for _, r := range l.requires {
		x.fact(st, c.evalT(r))
	}
	x.lemma = l
	if l.dec != nil {
		x.lemmaDec = c.evalT(l.dec)
	}
	if l.induct != "" {
		v := vs[l.induct]
		base := c.evalT(l.base)
		prev := c.with(map[string]SV{l.induct: {t: Sub(v.t, intT(1)), typ: v.typ}})
		req, ens := tTrue, tTrue
		for _, r := range l.requires {
			req = And(req, prev.evalT(r))
		}
		for _, r := range l.ensures {
			ens = And(ens, prev.evalT(r))
		}
		x.fact(st, Implies(And(Lt(base, v.t), req), ens))
		// well-founded: the induction variable is at least its base
		x.oblige(st, "lemma", l.name+".base", Le(base, v.t))
	}
	x.ghostIn(c, l.body)
	c.vars = x.lets
	x.cover(st, l.name+" consistent")
	for i, r := range l.ensures {
		g := c.evalT(r)
		x.oblige(st, "lemma", fmt.Sprintf("%s.ensures%d", l.name, i), g)
	}
	return x.obls, x, nil
}

// binders evaluates the bound variables and patterns of a quantified ghost statement
func (c *evalCtx) binders(s Stmt) (*evalCtx, []*Term, [][]*Term) {
	vs := map[string]SV{}
	var bs []*Term
	for _, v := range s.vars {
		so, t := c.x.w.resolveSort(v.sort)
		b := bvar(v.name, so)
		bs = append(bs, b)
		vs[v.name] = SV{t: b, typ: t}
	}
	n := c.with(vs)
	var pats [][]*Term
	for _, p := range s.pats {
		var ts []*Term
		for _, pe := range p {
			ts = append(ts, n.evalT(pe))
		}
		pats = append(pats, ts)
	}
	return n, bs, pats
}

func (x *Exec) fname() string {
	if x.spec != nil {
		return x.spec.key
	}
	return "a lemma"
}

// jsonField is the value of the field of a boxed struct (or pointer to one) that
// encoding/json writes under the given name: an arbitrary value when there is none.
func (c *evalCtx) jsonField(e *Ex, v *Term, name string) SV {
	x := c.x
	none := SV{t: freshConst("nojson", SStr), typ: types.Typ[types.String]}
	dyn, ok := boxDyn[v]
	if !ok {
		return none
	}
	un := app("unbox."+sanit(types.TypeString(dyn, func(p *types.Package) string { return p.Name() })), v)
	var val *Term
	if p, ok := dyn.Underlying().(*types.Pointer); ok {
		dyn = p.Elem()
		val = Select(x.comp(c.st, memCt(dyn)), un)
	} else {
		val = un
	}
	st, ok := dyn.Underlying().(*types.Struct)
	if !ok {
		return none
	}
	found := -1
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() || f.Embedded() {
			continue
		}
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		parts := strings.Split(tag, ",")
		if tag == "-" {
			continue
		}
		n := parts[0]
		if n == "" {
			n = f.Name()
		}
		if n != name {
			continue
		}
		if found >= 0 || len(parts) > 2 || len(parts) == 2 && parts[1] != "omitempty" {
			return none
		}
		// omitempty leaves a member out: harmless for an empty string (a missing member is read back as ""), not for a number
		if b, isb := f.Type().Underlying().(*types.Basic); len(parts) == 2 && !(isb && b.Info()&types.IsString != 0) {
			return none
		}
		found = i
	}
	if found < 0 {
		return none
	}
	return SV{t: Acc(structDT(dyn), found, val), typ: st.Field(found).Type()}
}

// boxDyn remembers the type boxed by a term
var boxDyn = map[*Term]types.Type{}
