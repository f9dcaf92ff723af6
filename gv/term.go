package main

// SMT terms: hash-consed, sorted, with light simplification.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort = string

const (
	SInt   Sort = "Int"
	SReal  Sort = "Real"
	SBool  Sort = "Bool"
	SStr   Sort = "Str"   // Go strings: uninterpreted, ordered through rank
	SIface Sort = "Iface" // interface values
	SOpq   Sort = "Opq"   // values the encoding does not look into
	SSlice Sort = "Slice"
)

func arrSort(k, v Sort) Sort { return "(Array " + k + " " + v + ")" }

// splitArr splits "(Array K V)".
func splitArr(s Sort) (Sort, Sort) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[7 : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

type Term struct {
	id   int
	op   string
	args []*Term
	sort Sort
	vars []*Term // quantifier binders
	pats [][]*Term
	bv   map[*Term]bool // free bound variables
	size int
}

type DType struct {
	Name   string
	Ctor   string
	Fields []DField
}
type DField struct {
	Acc  string
	Sort Sort
	Typ  types.Type // Go type, where there is one
}

type FDecl struct {
	Name string
	Args []Sort
	Ret  Sort
}

var (
	termTab  = map[string]*Term{}
	dtypes   = map[string]*DType{}
	dtOrder  []string
	ctorOf   = map[string]*DType{} // ctor name -> dt
	accOf    = map[string][2]interface{}{}
	fdecls   = map[string]*FDecl{}
	freshCnt = 0
	strLits  = map[string]*Term{}
	strNames = map[string]string{}
)

func mk(op string, sort Sort, args ...*Term) *Term { return mkq(op, sort, nil, nil, args...) }

func mkq(op string, sort Sort, vars []*Term, pats [][]*Term, args ...*Term) *Term {
	if len(pats) > 0 {
		// terms that no longer mention a bound variable are no triggers, and
		// triggers that do not mention all variables cannot be used
		var ok [][]*Term
		for _, p := range pats {
			var np []*Term
			seen := map[*Term]bool{}
			for _, t := range p {
				hit := false
				for _, v := range vars {
					if t.bv[v] {
						hit, seen[v] = true, true
					}
				}
				if hit {
					np = append(np, t)
				}
			}
			if len(seen) == len(vars) {
				ok = append(ok, np)
			}
		}
		pats = ok
	}
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(sort)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	if vars != nil {
		b.WriteByte('#')
		for _, v := range vars {
			b.WriteString(strconv.Itoa(v.id) + " ")
		}
		for _, p := range pats {
			b.WriteByte('!')
			for _, t := range p {
				b.WriteString(strconv.Itoa(t.id) + " ")
			}
		}
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{id: len(termTab) + 1, op: op, args: args, sort: sort, vars: vars, pats: pats, size: 1}
	for _, a := range args {
		t.size += a.size
		for v := range a.bv {
			if t.bv == nil {
				t.bv = map[*Term]bool{}
			}
			t.bv[v] = true
		}
	}
	for _, p := range pats {
		for _, a := range p {
			for v := range a.bv {
				if t.bv == nil {
					t.bv = map[*Term]bool{}
				}
				t.bv[v] = true
			}
		}
	}
	for _, v := range vars {
		delete(t.bv, v)
	}
	if len(t.bv) == 0 {
		t.bv = nil
	}
	if t.size > 1<<40 {
		t.size = 1 << 40
	}
	termTab[k] = t
	return t
}

func sanit(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' || r == '!' || r == '@' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func declFun(name string, ret Sort, args ...Sort) {
	if f, ok := fdecls[name]; ok {
		if f.Ret != ret || len(f.Args) != len(args) {
			panic("redeclared " + name)
		}
		return
	}
	fdecls[name] = &FDecl{name, args, ret}
}

func freshConst(hint string, s Sort) *Term {
	freshCnt++
	n := sanit(hint) + "!" + strconv.Itoa(freshCnt)
	declFun(n, s)
	return mk(n, s)
}
func namedConst(n string, s Sort) *Term {
	declFun(n, s)
	return mk(n, s)
}
func bvar(hint string, s Sort) *Term {
	freshCnt++
	t := mk("?"+sanit(hint)+"."+strconv.Itoa(freshCnt), s)
	t.bv = map[*Term]bool{t: true}
	return t
}
func app(f string, args ...*Term) *Term {
	d, ok := fdecls[f]
	if !ok {
		panic("undeclared function " + f)
	}
	if len(d.Args) != len(args) {
		panic(fmt.Sprintf("arity of %s: want %d got %d", f, len(d.Args), len(args)))
	}
	for i := range args {
		if args[i].sort != d.Args[i] {
			panic(fmt.Sprintf("sort of arg %d of %s: want %s got %s (%s)", i, f, d.Args[i], args[i].sort, args[i]))
		}
	}
	return mk(f, d.Ret, args...)
}

func regDT(name string, fields []DField) *DType {
	if d, ok := dtypes[name]; ok {
		return d
	}
	d := &DType{Name: name, Ctor: "mk_" + name, Fields: fields}
	dtypes[name] = d
	dtOrder = append(dtOrder, name)
	ctorOf[d.Ctor] = d
	for i, f := range fields {
		accOf[f.Acc] = [2]interface{}{d, i}
	}
	return d
}

var tTrue = mk("true", SBool)
var tFalse = mk("false", SBool)

func intT(n int64) *Term { return bigT(big.NewInt(n)) }
func bigT(n *big.Int) *Term {
	return mk("#"+n.String(), SInt)
}
func realT(r *big.Rat) *Term { return mk("%"+r.RatString(), SReal) }

func (t *Term) intLit() (*big.Int, bool) {
	if t.sort == SInt && strings.HasPrefix(t.op, "#") {
		n, ok := new(big.Int).SetString(t.op[1:], 10)
		return n, ok
	}
	return nil, false
}
func (t *Term) realLit() (*big.Rat, bool) {
	if t.sort == SReal && strings.HasPrefix(t.op, "%") {
		n, ok := new(big.Rat).SetString(t.op[1:])
		return n, ok
	}
	return nil, false
}
func (t *Term) isLit() bool {
	return strings.HasPrefix(t.op, "#") || strings.HasPrefix(t.op, "%") || t == tTrue || t == tFalse || strings.HasPrefix(t.op, "str!")
}

func strLit(s string) *Term {
	if t, ok := strLits[s]; ok {
		return t
	}
	n := fmt.Sprintf("str!%d.%s", len(strLits), sanit(s))
	if len(n) > 40 {
		n = n[:40]
	}
	declFun(n, SStr)
	t := mk(n, SStr)
	strLits[s] = t
	strNames[n] = s
	return t
}

func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == tTrue || seen[x] {
			return true
		}
		if x == tFalse {
			return false
		}
		if x.op == "and" {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", SBool, out...)
}
func Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x == tFalse || seen[x] {
			continue
		}
		if x == tTrue || seen[Not(x)] {
			return tTrue
		}
		if x.op == "or" {
			for _, a := range x.args {
				if seen[Not(a)] {
					return tTrue
				}
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		seen[x] = true
		out = append(out, x)
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	// (and A b) or (and A (not b))  ==> A
	if len(out) == 2 {
		a, b := conjs(out[0]), conjs(out[1])
		if len(a) == len(b) {
			var common []*Term
			var da, db []*Term
			inb := map[*Term]bool{}
			for _, x := range b {
				inb[x] = true
			}
			ina := map[*Term]bool{}
			for _, x := range a {
				ina[x] = true
				if inb[x] {
					common = append(common, x)
				} else {
					da = append(da, x)
				}
			}
			for _, x := range b {
				if !ina[x] {
					db = append(db, x)
				}
			}
			if len(da) == 1 && len(db) == 1 && Not(da[0]) == db[0] {
				return And(common...)
			}
		}
	}
	return mk("or", SBool, out...)
}
func conjs(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}
func Not(x *Term) *Term {
	switch {
	case x == tTrue:
		return tFalse
	case x == tFalse:
		return tTrue
	case x.op == "not":
		return x.args[0]
	}
	return mk("not", SBool, x)
}
func Implies(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return Not(a)
	}
	return mk("=>", SBool, a, b)
}
func Ite(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.sort != b.sort {
		panic("ite sorts " + a.sort + " / " + b.sort)
	}
	if a.sort == SBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return Not(c)
		}
		if a == tTrue {
			return Or(c, b)
		}
		if b == tFalse {
			return And(c, a)
		}
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if a == b {
		return a
	}
	return mk("ite", a.sort, c, a, b)
}
func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s = %s", a.sort, b.sort, a, b))
	}
	if a.isLit() && b.isLit() {
		return tFalse
	}
	if a.sort == SBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
	}
	if da, ok := ctorOf[a.op]; ok {
		if db, ok := ctorOf[b.op]; ok && da == db {
			var es []*Term
			for i := range a.args {
				es = append(es, Eq(a.args[i], b.args[i]))
			}
			return And(es...)
		}
	}
	// ite(c, lit1, lit2) = lit
	if b.isLit() && a.op == "ite" {
		x, y := Eq(a.args[1], b), Eq(a.args[2], b)
		if (x == tTrue || x == tFalse) || (y == tTrue || y == tFalse) {
			return Ite(a.args[0], x, y)
		}
	}
	if a.isLit() && !b.isLit() {
		return Eq(b, a)
	}
	if !b.isLit() && a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, a, b)
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func Add(xs ...*Term) *Term {
	s := xs[0].sort
	var out []*Term
	if s == SInt {
		c := new(big.Int)
		for _, x := range xs {
			ys := []*Term{x}
			if x.op == "+" {
				ys = x.args
			}
			for _, y := range ys {
				if n, ok := y.intLit(); ok {
					c.Add(c, n)
				} else {
					out = append(out, y)
				}
			}
		}
		// cancel x + (-x)
		for i := 0; i < len(out); i++ {
			for j := 0; j < len(out); j++ {
				if i != j && out[j].op == "*" && len(out[j].args) == 2 && out[j].args[0] == intT(-1) && out[j].args[1] == out[i] {
					if i > j {
						i, j = j, i
					}
					out = append(append(append([]*Term{}, out[:i]...), out[i+1:j]...), out[j+1:]...)
					i = -1
					break
				}
			}
		}
		if len(out) == 0 {
			return bigT(c)
		}
		if c.Sign() != 0 {
			out = append(out, bigT(c))
		}
	} else {
		c := new(big.Rat)
		for _, x := range xs {
			ys := []*Term{x}
			if x.op == "+" {
				ys = x.args
			}
			for _, y := range ys {
				if n, ok := y.realLit(); ok {
					c.Add(c, n)
				} else {
					out = append(out, y)
				}
			}
		}
		if len(out) == 0 {
			return realT(c)
		}
		if c.Sign() != 0 {
			out = append(out, realT(c))
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("+", s, out...)
}
func Neg(a *Term) *Term {
	if a.sort == SInt {
		return Mul(intT(-1), a)
	}
	return Mul(realT(big.NewRat(-1, 1)), a)
}
func Sub(a, b *Term) *Term {
	if a == b {
		if a.sort == SInt {
			return intT(0)
		}
		return realT(new(big.Rat))
	}
	return Add(a, Neg(b))
}
func Mul(a, b *Term) *Term {
	if a.sort != b.sort {
		panic("mul sorts")
	}
	if a.sort == SInt {
		x, ok1 := a.intLit()
		y, ok2 := b.intLit()
		if ok1 && ok2 {
			return bigT(new(big.Int).Mul(x, y))
		}
		if ok2 {
			a, b, x, ok1 = b, a, y, true
		}
		if ok1 {
			if x.Sign() == 0 {
				return intT(0)
			}
			if x.IsInt64() && x.Int64() == 1 {
				return b
			}
			if b.op == "*" {
				if y, ok := b.args[0].intLit(); ok && len(b.args) == 2 {
					return Mul(bigT(new(big.Int).Mul(x, y)), b.args[1])
				}
			}
			if b.op == "+" {
				var ys []*Term
				for _, t := range b.args {
					ys = append(ys, Mul(a, t))
				}
				return Add(ys...)
			}
		}
	} else {
		x, ok1 := a.realLit()
		y, ok2 := b.realLit()
		if ok1 && ok2 {
			return realT(new(big.Rat).Mul(x, y))
		}
		if ok2 {
			a, b, x, ok1 = b, a, y, true
		}
		if ok1 {
			if x.Sign() == 0 {
				return realT(new(big.Rat))
			}
			if x.Cmp(big.NewRat(1, 1)) == 0 {
				return b
			}
			if b.op == "*" {
				if y, ok := b.args[0].realLit(); ok && len(b.args) == 2 {
					return Mul(realT(new(big.Rat).Mul(x, y)), b.args[1])
				}
			}
			if b.op == "+" {
				var ys []*Term
				for _, t := range b.args {
					ys = append(ys, Mul(a, t))
				}
				return Add(ys...)
			}
		}
	}
	return mk("*", a.sort, a, b)
}

func RDiv(a, b *Term) *Term {
	if y, ok := b.realLit(); ok && y.Sign() != 0 {
		return Mul(realT(new(big.Rat).Inv(y)), a)
	}
	return mk("/", SReal, a, b)
}

// mathematical (floor/Euclidean for positive divisor) div and mod
func IDiv(a, b *Term) *Term {
	x, ok1 := a.intLit()
	y, ok2 := b.intLit()
	if ok1 && ok2 && y.Sign() > 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(x, y, m)
		return bigT(q)
	}
	if ok2 && y.IsInt64() && y.Int64() == 1 {
		return a
	}
	return mk("div", SInt, a, b)
}
func IMod(a, b *Term) *Term {
	x, ok1 := a.intLit()
	y, ok2 := b.intLit()
	if ok1 && ok2 && y.Sign() > 0 {
		return bigT(new(big.Int).Mod(x, y))
	}
	return mk("mod", SInt, a, b)
}

// Go's truncating division
func TDiv(a, b *Term) *Term {
	if y, ok := b.intLit(); ok && y.Sign() > 0 {
		if x, ok := a.intLit(); ok {
			return bigT(new(big.Int).Quo(x, y))
		}
		return Ite(Le(intT(0), a), IDiv(a, b), Neg(IDiv(Neg(a), b)))
	}
	return Ite(Eq(Le(intT(0), a), Lt(intT(0), b)), IDiv(absT(a), absT(b)), Neg(IDiv(absT(a), absT(b))))
}
func absT(a *Term) *Term { return Ite(Le(intT(0), a), a, Neg(a)) }
func TMod(a, b *Term) *Term {
	if y, ok := b.intLit(); ok && y.Sign() > 0 {
		if x, ok := a.intLit(); ok {
			return bigT(new(big.Int).Rem(x, y))
		}
		return Ite(Le(intT(0), a), IMod(a, b), Neg(IMod(Neg(a), b)))
	}
	return Sub(a, Mul(b, TDiv(a, b)))
}

func Lt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if x, ok := a.intLit(); ok {
		if y, ok := b.intLit(); ok {
			return boolT(x.Cmp(y) < 0)
		}
	}
	if x, ok := a.realLit(); ok {
		if y, ok := b.realLit(); ok {
			return boolT(x.Cmp(y) < 0)
		}
	}
	if a.sort == SStr {
		declRank()
		return mk("<", SBool, app("rank", a), app("rank", b))
	}
	if a.sort != b.sort {
		panic("lt sorts " + a.sort + " " + b.sort)
	}
	if a.sort == SInt {
		return Not(Le(b, a))
	}
	return mk("<", SBool, a, b)
}
func Le(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if x, ok := a.intLit(); ok {
		if y, ok := b.intLit(); ok {
			return boolT(x.Cmp(y) <= 0)
		}
	}
	if x, ok := a.realLit(); ok {
		if y, ok := b.realLit(); ok {
			return boolT(x.Cmp(y) <= 0)
		}
	}
	if a.sort == SStr {
		return Not(Lt(b, a))
	}
	if a.sort != b.sort {
		panic("le sorts " + a.sort + " " + b.sort)
	}
	return mk("<=", SBool, a, b)
}
func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func declRank() {
	declFun("rank", SReal, SStr)
	declFun("unrank", SStr, SReal)
}

// definitely different by syntax
func distinctSyn(a, b *Term) bool {
	if a.isLit() && b.isLit() && a != b {
		return true
	}
	if a.sort == SInt {
		d := Sub(a, b)
		if n, ok := d.intLit(); ok && n.Sign() != 0 {
			return true
		}
	}
	if da, ok := ctorOf[a.op]; ok {
		if db, ok := ctorOf[b.op]; ok && da == db {
			for i := range a.args {
				if distinctSyn(a.args[i], b.args[i]) {
					return true
				}
			}
		}
	}
	return false
}

func Select(a, i *Term) *Term {
	_, v := splitArr(a.sort)
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if distinctSyn(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "const-array" {
		return a.args[0]
	}
	return mk("select", v, a, i)
}
func Store(a, i, v *Term) *Term {
	k, vs := splitArr(a.sort)
	if k != i.sort || vs != v.sort {
		panic(fmt.Sprintf("store sorts: %s [%s]=%s", a.sort, i.sort, v.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", a.sort, a, i, v)
}
func ConstArr(k Sort, v *Term) *Term { return mk("const-array", arrSort(k, v.sort), v) }

func Ctor(d *DType, args ...*Term) *Term {
	if len(args) != len(d.Fields) {
		panic("ctor arity " + d.Name)
	}
	for i, a := range args {
		if a.sort != d.Fields[i].Sort {
			panic(fmt.Sprintf("ctor %s field %s: %s vs %s", d.Name, d.Fields[i].Acc, d.Fields[i].Sort, a.sort))
		}
	}
	// eta: mk(acc0 x, acc1 x, ...) = x
	if len(args) > 0 && args[0].op == d.Fields[0].Acc {
		x := args[0].args[0]
		ok := true
		for i := range args {
			if args[i].op != d.Fields[i].Acc || args[i].args[0] != x {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return mk(d.Ctor, d.Name, args...)
}
func Acc(d *DType, i int, t *Term) *Term {
	if t.sort != d.Name {
		panic(fmt.Sprintf("acc %s on %s", d.Fields[i].Acc, t.sort))
	}
	if t.op == d.Ctor {
		return t.args[i]
	}
	if t.op == "ite" {
		a, b := t.args[1], t.args[2]
		if a.op == d.Ctor || b.op == d.Ctor {
			return Ite(t.args[0], Acc(d, i, a), Acc(d, i, b))
		}
	}
	return mk(d.Fields[i].Acc, d.Fields[i].Sort, t)
}

func Forall(vars []*Term, pats [][]*Term, body *Term) *Term {
	if body == tTrue || len(vars) == 0 {
		return body
	}
	return mkq("forall", SBool, vars, pats, body)
}
func Exists(vars []*Term, body *Term) *Term {
	if body == tFalse || len(vars) == 0 {
		return body
	}
	return mkq("exists", SBool, vars, nil, body)
}

// substitution of bound variables (or constants) by terms
func Subst(t *Term, m map[*Term]*Term) *Term { return substIn(t, m, map[*Term]*Term{}) }
func substIn(t *Term, m, cache map[*Term]*Term) *Term {
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := cache[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		var pats [][]*Term
		for _, p := range t.pats {
			var np []*Term
			for _, a := range p {
				na := rec(a)
				ch = ch || na != a
				np = append(np, na)
			}
			pats = append(pats, np)
		}
		r := t
		if ch {
			r = rebuild(t, args, pats)
		}
		cache[t] = r
		return r
	}
	return rec(t)
}
func rebuild(t *Term, a []*Term, pats [][]*Term) *Term {
	switch t.op {
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "not":
		return Not(a[0])
	case "=>":
		return Implies(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "=":
		return Eq(a[0], a[1])
	case "+":
		return Add(a...)
	case "*":
		return Mul(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "<":
		return Lt(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "forall":
		return Forall(t.vars, pats, a[0])
	case "exists":
		return Exists(t.vars, a[0])
	case "div":
		return IDiv(a[0], a[1])
	case "mod":
		return IMod(a[0], a[1])
	}
	if d, ok := ctorOf[t.op]; ok {
		return Ctor(d, a...)
	}
	if x, ok := accOf[t.op]; ok {
		return Acc(x[0].(*DType), x[1].(int), a[0])
	}
	return mkq(t.op, t.sort, t.vars, pats, a...)
}

// ---- printing -------------------------------------------------------------

func litStr(t *Term) (string, bool) {
	if n, ok := t.intLit(); ok {
		if n.Sign() < 0 {
			return "(- " + new(big.Int).Neg(n).String() + ")", true
		}
		return n.String(), true
	}
	if r, ok := t.realLit(); ok {
		neg := r.Sign() < 0
		a := new(big.Rat).Abs(r)
		s := a.Num().String() + ".0"
		if !a.IsInt() {
			s = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
		}
		if neg {
			s = "(- " + s + ")"
		}
		return s, true
	}
	return "", false
}

func q(s string) string {
	if strings.HasPrefix(s, "?") {
		return "|" + s + "|"
	}
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.$!@=<>+-*/", r)) {
			return "|" + s + "|"
		}
	}
	return s
}

func (t *Term) String() string { return printTerm(t, nil) }

func printTerm(t *Term, named map[*Term]string) string {
	var b strings.Builder
	var rec func(t *Term, top bool)
	rec = func(t *Term, top bool) {
		if !top {
			if n, ok := named[t]; ok {
				b.WriteString(n)
				return
			}
		}
		if s, ok := litStr(t); ok {
			b.WriteString(s)
			return
		}
		if t.op == "forall" || t.op == "exists" {
			b.WriteString("(" + t.op + " (")
			for _, v := range t.vars {
				b.WriteString("(" + q(v.op) + " " + v.sort + ")")
			}
			b.WriteString(") ")
			if len(t.pats) > 0 {
				b.WriteString("(! ")
			}
			rec(t.args[0], false)
			if len(t.pats) > 0 {
				for _, p := range t.pats {
					b.WriteString(" :pattern (")
					for i, x := range p {
						if i > 0 {
							b.WriteByte(' ')
						}
						rec(x, false)
					}
					b.WriteByte(')')
				}
				b.WriteByte(')')
			}
			b.WriteByte(')')
			return
		}
		if t.op == "const-array" {
			b.WriteString("((as const " + t.sort + ") ")
			rec(t.args[0], false)
			b.WriteByte(')')
			return
		}
		if len(t.args) == 0 {
			b.WriteString(q(t.op))
			return
		}
		b.WriteString("(" + q(t.op))
		for _, a := range t.args {
			b.WriteByte(' ')
			rec(a, false)
		}
		b.WriteByte(')')
	}
	rec(t, true)
	return b.String()
}

// fAxioms: axioms added to a query whenever the function occurs in it
var fAxioms = map[string][]*Term{}

// Query renders a complete SMT-LIB script that is unsat iff facts entail goal.
func Query(facts []*Term, goal *Term) string {
	roots := append(append([]*Term{}, facts...), Not(goal))
	// count uses of closed compound terms
	cnt := map[*Term]int{}
	var order []*Term
	usedF := map[string]bool{}
	sorts := map[string]bool{}
	lits := map[string]bool{}
	var noteSort func(s Sort)
	noteSort = func(s Sort) {
		if sorts[s] {
			return
		}
		sorts[s] = true
		if strings.HasPrefix(s, "(Array ") {
			k, v := splitArr(s)
			noteSort(k)
			noteSort(v)
			return
		}
		if d, ok := dtypes[s]; ok {
			for _, f := range d.Fields {
				noteSort(f.Sort)
			}
		}
	}
	var visit func(t *Term)
	visit = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		noteSort(t.sort)
		for _, v := range t.vars {
			noteSort(v.sort)
		}
		if f, ok := fdecls[t.op]; ok {
			if !usedF[t.op] {
				usedF[t.op] = true
				for _, s := range f.Args {
					noteSort(s)
				}
			}
			if _, ok := strNames[t.op]; ok {
				lits[t.op] = true
			}
		}
		for _, a := range t.args {
			visit(a)
		}
		for _, p := range t.pats {
			for _, a := range p {
				visit(a)
			}
		}
		order = append(order, t)
	}
	for _, r := range roots {
		visit(r)
	}
	axDone := map[string]bool{}
	facts = append([]*Term{}, facts...)
	for ch := true; ch; {
		ch = false
		var us []string
		for f := range usedF {
			if len(fAxioms[f]) > 0 && !axDone[f] {
				us = append(us, f)
			}
		}
		sort.Strings(us)
		for _, f := range us {
			axDone[f] = true
			ch = true
			for _, a := range fAxioms[f] {
				facts = append(facts, a)
				visit(a)
			}
		}
	}
	usesRank := usedF["rank"]
	if usesRank {
		usedF["unrank"] = true
	}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	for _, s := range []Sort{SStr, SIface, SOpq} {
		if sorts[s] || usesRank && s == SStr {
			b.WriteString("(declare-sort " + s + " 0)\n")
		}
	}
	done := map[string]bool{}
	var emitDT func(n string)
	emitDT = func(n string) {
		d, ok := dtypes[n]
		if !ok || done[n] {
			return
		}
		done[n] = true
		var dep func(s Sort)
		dep = func(s Sort) {
			if strings.HasPrefix(s, "(Array ") {
				k, v := splitArr(s)
				dep(k)
				dep(v)
				return
			}
			emitDT(s)
		}
		for _, f := range d.Fields {
			dep(f.Sort)
		}
		b.WriteString("(declare-datatypes ((" + d.Name + " 0)) (((" + d.Ctor)
		for _, f := range d.Fields {
			b.WriteString(" (" + f.Acc + " " + f.Sort + ")")
		}
		b.WriteString("))))\n")
	}
	for _, n := range dtOrder {
		if sorts[n] {
			emitDT(n)
		}
	}
	var names []string
	for n := range usedF {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := fdecls[n]
		b.WriteString("(declare-fun " + q(n) + " (" + strings.Join(f.Args, " ") + ") " + f.Ret + ")\n")
	}
	if usesRank {
		b.WriteString("(assert (forall ((s Str)) (! (= (unrank (rank s)) s) :pattern ((rank s)))))\n")
	}
	if len(lits) > 1 {
		var ls []string
		for l := range lits {
			ls = append(ls, q(l))
		}
		sort.Strings(ls)
		b.WriteString("(assert (distinct " + strings.Join(ls, " ") + "))\n")
	}
	named := map[*Term]string{}
	for _, t := range order {
		if t.bv != nil || len(t.args) == 0 {
			continue
		}
		if cnt[t] > 1 && t.size > 3 || t.size > 200 && t.op != "forall" && t.op != "exists" && cnt[t] > 1 {
			n := "$t" + strconv.Itoa(t.id)
			b.WriteString("(define-fun " + n + " () " + t.sort + " " + printTerm(t, named) + ")\n")
			named[t] = n
		}
	}
	for _, f := range facts {
		if n, ok := named[f]; ok {
			b.WriteString("(assert " + n + ")\n")
		} else {
			b.WriteString("(assert " + printTerm(f, named) + ")\n")
		}
	}
	g := Not(goal)
	if n, ok := named[g]; ok {
		b.WriteString("(assert " + n + ")\n")
	} else {
		b.WriteString("(assert " + printTerm(g, named) + ")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}
