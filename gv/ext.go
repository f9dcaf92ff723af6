package main

// Models of the standard library and of Go's builtins. Everything here is
// trusted; each use is recorded in World.trusted and reported as evidence.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value

type pureModel struct {
	facts func(x *Exec, st *State, args []*Term, res []*Term) *Term
}

func init() {
	compSort["Rat"] = arrSort(SInt, SReal)
	compSort["BigInt"] = arrSort(SInt, SInt)
	compSort["string"] = arrSort(SInt, SStr)
	compSort["Buf"] = arrSort(SInt, SStr)
	compSort["trace"] = arrSort(SInt, SInt) // abstract history of an object known only by its interface
	compSort["rpos"] = arrSort(SInt, SInt)
}

func (x *Exec) useModel(name string) {
	x.w.trusted["model "+name] = "standard library behaviour as documented (gv/ext.go)"
}

func realZero() *Term { return realT(new(big.Rat)) }

func (x *Exec) nonNil(st *State, what string, t *Term) {
	x.obligeAssume(st, "no-panic", "nil dereference: "+what, Ne(t, intT(0)))
}
func (x *Exec) ratAt(st *State, what string, v Value) *Term {
	t := x.term(st, v)
	x.nonNil(st, what, t)
	return Select(x.comp(st, "Rat"), t)
}
func (x *Exec) setRat(st *State, z Value, v *Term) Value {
	t := x.term(st, z)
	x.nonNil(st, "receiver", t)
	x.setComp(st, "Rat", Store(x.comp(st, "Rat"), t, v), t)
	return t
}
func (x *Exec) newRat(st *State, v *Term) *Term {
	r := x.newRef(st)
	x.setComp(st, "Rat", Store(x.comp(st, "Rat"), r, v), r)
	return r
}
func (x *Exec) newInt(st *State, v *Term) *Term {
	r := x.newRef(st)
	x.setComp(st, "BigInt", Store(x.comp(st, "BigInt"), r, v), r)
	return r
}
func toReal(t *Term) *Term {
	if n, ok := t.intLit(); ok {
		return realT(new(big.Rat).SetInt(n))
	}
	return mk("to_real", SReal, t)
}

func declRat() {
	declFun("rnum", SInt, SReal)
	declFun("rden", SInt, SReal)
	declFun("f64", SReal, SReal)
	declFun("f64exact", SBool, SReal)
	declFun("ratparse", SReal, SStr)
	declFun("ratparse_ok", SBool, SStr)
}

func sgn(a, b *Term) *Term {
	return Ite(Lt(a, b), intT(-1), Ite(Lt(b, a), intT(1), intT(0)))
}

func ratBin(f func(x *Exec, st *State, a, b *Term) *Term) model {
	return func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
		a, b := x.ratAt(st, "operand", args[1]), x.ratAt(st, "operand", args[2])
		return x.setRat(st, args[0], f(x, st, a, b))
	}
}
func ratUn(f func(x *Exec, st *State, a *Term) *Term) model {
	return func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
		a := x.ratAt(st, "operand", args[1])
		return x.setRat(st, args[0], f(x, st, a))
	}
}

func (x *Exec) stop(st *State) { st.pc = tFalse }

var models map[string]model
var pureModels map[string]pureModel

func init() {
	models = map[string]model{
		"math/big.NewRat": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			a, b := x.term(st, args[0]), x.term(st, args[1])
			x.obligeAssume(st, "no-panic", "NewRat with zero denominator", Ne(b, intT(0)))
			return x.newRat(st, RDiv(toReal(a), toReal(b)))
		},
		"math/big.NewInt": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			return x.newInt(st, x.term(st, args[0]))
		},
		"(*math/big.Rat).Add": ratBin(func(x *Exec, st *State, a, b *Term) *Term { return Add(a, b) }),
		"(*math/big.Rat).Sub": ratBin(func(x *Exec, st *State, a, b *Term) *Term { return Sub(a, b) }),
		"(*math/big.Rat).Mul": ratBin(func(x *Exec, st *State, a, b *Term) *Term { return Mul(a, b) }),
		"(*math/big.Rat).Quo": ratBin(func(x *Exec, st *State, a, b *Term) *Term {
			x.obligeAssume(st, "no-panic", "Rat division by zero", Ne(b, realZero()))
			return RDiv(a, b)
		}),
		"(*math/big.Rat).Neg": ratUn(func(x *Exec, st *State, a *Term) *Term { return Neg(a) }),
		"(*math/big.Rat).Set": ratUn(func(x *Exec, st *State, a *Term) *Term { return a }),
		"(*math/big.Rat).Abs": ratUn(func(x *Exec, st *State, a *Term) *Term { return Ite(Lt(a, realZero()), Neg(a), a) }),
		"(*math/big.Rat).Inv": ratUn(func(x *Exec, st *State, a *Term) *Term {
			x.obligeAssume(st, "no-panic", "Rat inverse of zero", Ne(a, realZero()))
			return RDiv(realT(big.NewRat(1, 1)), a)
		}),
		"(*math/big.Rat).Cmp": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			return sgn(x.ratAt(st, "receiver", args[0]), x.ratAt(st, "operand", args[1]))
		},
		"(*math/big.Rat).Sign": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			return sgn(x.ratAt(st, "receiver", args[0]), realZero())
		},
		"(*math/big.Rat).IsInt": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			a := x.ratAt(st, "receiver", args[0])
			return mk("is_int", SBool, a)
		},
		"(*math/big.Rat).SetInt64": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			return x.setRat(st, args[0], toReal(x.term(st, args[1])))
		},
		"(*math/big.Rat).SetFrac64": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			b := x.term(st, args[2])
			x.obligeAssume(st, "no-panic", "SetFrac64 with zero denominator", Ne(b, intT(0)))
			return x.setRat(st, args[0], RDiv(toReal(x.term(st, args[1])), toReal(b)))
		},
		"(*math/big.Rat).SetFrac": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			a, b := x.term(st, args[1]), x.term(st, args[2])
			x.nonNil(st, "operand", a)
			x.nonNil(st, "operand", b)
			av, bv := Select(x.comp(st, "BigInt"), a), Select(x.comp(st, "BigInt"), b)
			x.obligeAssume(st, "no-panic", "SetFrac with zero denominator", Ne(bv, intT(0)))
			return x.setRat(st, args[0], RDiv(toReal(av), toReal(bv)))
		},
		"(*math/big.Rat).SetInt": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			a := x.term(st, args[1])
			x.nonNil(st, "operand", a)
			return x.setRat(st, args[0], toReal(Select(x.comp(st, "BigInt"), a)))
		},
		"(*math/big.Rat).SetFloat64": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			declFun("isfinite", SBool, SReal)
			f := x.term(st, args[1])
			fin := app("isfinite", f)
			x.nonNil(st, "receiver", x.term(st, args[0]))
			z := x.setRat(st, args[0], Ite(fin, f, Select(x.comp(st, "Rat"), x.term(st, args[0]))))
			return Ite(fin, z.(*Term), intT(0))
		},
		"go.starlark.net/starlark.UnpackArgs": unpackArgs,
		"(go.starlark.net/starlark.Int).BigInt": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			v := x.term(st, args[0])
			declFun("starlark.int", SInt, v.sort)
			return x.newInt(st, app("starlark.int", v))
		},
		"(*math/big.Rat).SetString": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			declRat()
			s := x.term(st, args[1])
			ok := app("ratparse_ok", s)
			z := x.setRat(st, args[0], Ite(ok, app("ratparse", s), freshConst("undef", SReal)))
			return Tuple{Ite(ok, z.(*Term), intT(0)), ok}
		},
		"(*math/big.Rat).Float64": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			declRat()
			a := x.ratAt(st, "receiver", args[0])
			return Tuple{app("f64", a), app("f64exact", a)}
		},
		"(*math/big.Rat).Num":   ratPart("rnum"),
		"(*math/big.Rat).Denom": ratPart("rden"),
		"(*math/big.Int).Cmp": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			a, b := x.term(st, args[0]), x.term(st, args[1])
			x.nonNil(st, "receiver", a)
			x.nonNil(st, "operand", b)
			h := x.comp(st, "BigInt")
			return sgn(Select(h, a), Select(h, b))
		},
		"(*math/big.Int).Sign": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			a := x.term(st, args[0])
			x.nonNil(st, "receiver", a)
			return sgn(Select(x.comp(st, "BigInt"), a), intT(0))
		},
		"(*math/big.Int).Mul": intBin(func(x *Exec, st *State, a, b *Term) *Term { return Mul(a, b) }),
		"(*math/big.Int).Add": intBin(func(x *Exec, st *State, a, b *Term) *Term { return Add(a, b) }),
		"(*math/big.Int).Sub": intBin(func(x *Exec, st *State, a, b *Term) *Term { return Sub(a, b) }),
		"(*math/big.Int).Neg": intUn(func(a *Term) *Term { return Neg(a) }),
		"(*math/big.Int).Abs": intUn(func(a *Term) *Term { return Ite(Lt(a, intT(0)), Neg(a), a) }),
		"(*math/big.Int).SetInt64": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			return x.setInt(st, args[0], x.term(st, args[1]))
		},
		"(*math/big.Int).Set": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			a := x.term(st, args[1])
			x.nonNil(st, "operand", a)
			return x.setInt(st, args[0], Select(x.comp(st, "BigInt"), a))
		},
		"(*math/big.Int).Mod": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			a, b := x.term(st, args[1]), x.term(st, args[2])
			x.nonNil(st, "operand", a)
			x.nonNil(st, "operand", b)
			h := x.comp(st, "BigInt")
			bv := Select(h, b)
			x.obligeAssume(st, "no-panic", "division by zero", Ne(bv, intT(0)))
			return x.setInt(st, args[0], IMod(Select(h, a), bv)) // Euclidean, like SMT-LIB mod
		},
		"(*math/big.Int).Rem": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value { // truncated
			a, b := x.term(st, args[1]), x.term(st, args[2])
			x.nonNil(st, "operand", a)
			x.nonNil(st, "operand", b)
			h := x.comp(st, "BigInt")
			av, bv := Select(h, a), Select(h, b)
			x.obligeAssume(st, "no-panic", "division by zero", Ne(bv, intT(0)))
			return x.setInt(st, args[0], Ite(Lt(av, intT(0)), Neg(IMod(Neg(av), bv)), IMod(av, bv)))
		},
		"(*math/big.Int).BitLen": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			declFun("bitlen", SInt, SInt)
			a := x.term(st, args[0])
			x.nonNil(st, "receiver", a)
			n := app("bitlen", Select(x.comp(st, "BigInt"), a))
			x.fact(st, Le(intT(0), n))
			return n
		},
		"sort.Slice": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			return x.sortModel(st, args, false)
		},
		"sort.SliceStable": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			return x.sortModel(st, args, true)
		},
		"sort.Strings": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			s := x.term(st, args[0])
			B, off, n := x.permute(st, types.Typ[types.String], s, nil)
			i, j := bvar("i", SInt), bvar("j", SInt)
			x.fact(st, Forall([]*Term{i, j}, [][]*Term{{Select(B, i), Select(B, j)}}, Implies(And(Le(off, i), Lt(i, j), Lt(j, Add(off, n))), Le(Select(B, i), Select(B, j)))))
			return Tuple{}
		},
		"log.Fatal": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value { x.stop(st); return Tuple{} },
		"os.Exit":   func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value { x.stop(st); return Tuple{} },
		"(*bufio.Reader).ReadRune": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			r := x.term(st, args[0])
			x.nonNil(st, "reader", r)
			declFun("input", SInt, SInt, SInt)
			declFun("inputlen", SInt, SInt)
			declFun("runesize", SInt, SInt)
			p := Select(x.comp(st, "rpos"), r)
			more := Lt(p, app("inputlen", r))
			ch := app("input", r, p)
			x.fact(st, And(Le(intT(0), ch), Le(ch, intT(0x10ffff)), Le(intT(0), p)))
			x.setComp(st, "rpos", Store(x.comp(st, "rpos"), r, Ite(more, Add(p, intT(1)), p)), r)
			eof := namedConst("glob.io.EOF", SIface)
			x.fact(st, Ne(eof, nilIface()))
			return Tuple{Ite(more, ch, intT(0)), Ite(more, app("runesize", ch), intT(0)), Ite(more, nilIface(), eof)}
		},
		"(*os.File).Close": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			return freshConst("err", SIface)
		},
		"os.Open": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			f, e := x.newRef(st), freshConst("err", SIface)
			declFun("file.name", SStr, SInt)
			x.fact(st, Eq(app("file.name", f), x.term(st, args[0])))
			return Tuple{f, e}
		},
		"bufio.NewReader": func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
			declFun("inputlen", SInt, SInt)
			r := x.newRef(st)
			x.setComp(st, "rpos", Store(x.comp(st, "rpos"), r, intT(0)), r)
			x.fact(st, Le(intT(0), app("inputlen", r)))
			if iv, ok := args[0].(*IfaceV); ok && iv.dyn.String() == "*os.File" {
				declFun("file.name", SStr, SInt)
				declFun("reader.name", SStr, SInt)
				x.fact(st, Eq(app("reader.name", r), app("file.name", x.term(st, iv.v))))
			}
			return r
		},
		"(*bytes.Buffer).WriteRune":       bufWriteRune,
		"(*strings.Builder).WriteRune":    bufWriteRune,
		"(*bytes.Buffer).WriteString":     bufWriteString,
		"(*strings.Builder).WriteString":  bufWriteString,
		"(*bytes.Buffer).String":          bufString,
		"(*strings.Builder).String":       bufString,
		"(*bytes.Buffer).Len":             bufLen,
		"(*strings.Builder).Len":          bufLen,
		"fmt.Sprintf":                     sprintfModel,
		"fmt.Errorf":                      errorfModel,
		"errors.New":                      errorfModel,
		"fmt.Fprintf":                     fprintfModel,
		"(*regexp.Regexp).String":         regexString,
		"regexp.MustCompile":              mustCompile,
		"regexp.Compile":                  regexCompile,
		"unicode/utf8.RuneCountInString":  runeCount,
		"unicode/utf8.DecodeRuneInString": decodeRune,
	}
	none := pureModel{}
	pureModels = map[string]pureModel{
		"(*regexp.Regexp).MatchString": none, "(*regexp.Regexp).ReplaceAllString": none, "(*regexp.Regexp).FindStringSubmatch": {submatchFacts}, "(*regexp.Regexp).FindString": {findFacts},
		"strconv.Atoi": {atoiFacts}, "strconv.ParseInt": none, "strconv.ParseFloat": none, "strings.EqualFold": none,
		"strings.HasPrefix": {prefixFacts}, "strings.Join": none, "strings.Repeat": none, "strings.ReplaceAll": none, "strings.Split": {splitFacts}, "strings.SplitN": {splitFacts},
		"strings.Title": none, "strings.ToUpper": none, "strings.TrimSpace": none, "strings.TrimSuffix": none, "strings.TrimPrefix": none, "strings.Contains": none,
		"unicode.IsDigit": {digitFacts}, "unicode.IsLetter": {negFacts}, "unicode.IsPrint": {negFacts}, "unicode.IsSpace": {spaceFacts}, "unicode.ToUpper": none,
		"path/filepath.Join": none, "strconv.FormatFloat": none, "strconv.FormatInt": none, "strconv.Itoa": none, "path/filepath.Dir": none, "math.Abs": none, "math.Pow": none, "time.Date": none, "(time.Time).Format": none, "(time.Time).Year": none, "(time.Time).Month": none, "(time.Time).Day": none,
		"github.com/antzucaro/matchr.JaroWinkler": none, "(*go.starlark.net/starlark.Builtin).Name": none,
	}
}

func intBin(f func(x *Exec, st *State, a, b *Term) *Term) model {
	return func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
		a, b := x.term(st, args[1]), x.term(st, args[2])
		x.nonNil(st, "operand", a)
		x.nonNil(st, "operand", b)
		h := x.comp(st, "BigInt")
		return x.setInt(st, args[0], f(x, st, Select(h, a), Select(h, b)))
	}
}
// unpackArgs: starlark.UnpackArgs(name, args, kwargs, "param", &variable, ...) gives each
// variable the value of its parameter (by position or name), or leaves its default.
func unpackArgs(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
	cs, ok := args[3].(*CellSlice)
	if !ok {
		x.fail("UnpackArgs with an unknown list of parameters")
	}
	ca := st.cells[cs.cell].(*CellArr)
	ta, tk := x.term(st, args[1]), x.term(st, args[2])
	e := freshConst("unpackerr", SIface)
	noErr := Eq(e, nilIface())
	var ms []*Term
	for i := 0; i+1 < len(ca.elems); i += 2 {
		niv, ok1 := ca.elems[i].(*IfaceV)
		piv, ok2 := ca.elems[i+1].(*IfaceV)
		if !ok1 || !ok2 {
			x.fail("UnpackArgs with an unknown list of parameters")
		}
		nt := x.term(st, niv.v)
		name, ok := strNames[nt.op]
		if !ok {
			x.fail("UnpackArgs with an unknown parameter name")
		}
		pt, ok := piv.dyn.Underlying().(*types.Pointer)
		if !ok {
			x.fail("UnpackArgs without a pointer")
		}
		p := x.asPtr(piv.v, piv.dyn)
		old := x.term(st, x.load(st, p))
		fn := "unpack." + sanit(old.sort)
		declFun(fn, old.sort, sliceDT.Name, sliceDT.Name, SInt, SStr, old.sort)
		v := app(fn, ta, tk, intT(int64(i/2)), strLit(strings.TrimRight(name, "?")), old)
		x.store(st, p, Ite(noErr, v, freshConst("unset", old.sort)))
		_ = pt
		if !strings.HasSuffix(name, "?") && old.sort == SIface {
			ms = append(ms, Ne(v, nilIface()))
		}
	}
	// a given Starlark value is never a nil interface
	x.fact(st, Implies(noErr, And(ms...)))
	return e
}
func intUn(f func(a *Term) *Term) model {
	return func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
		a := x.term(st, args[1])
		x.nonNil(st, "operand", a)
		return x.setInt(st, args[0], f(Select(x.comp(st, "BigInt"), a)))
	}
}
func (x *Exec) setInt(st *State, z Value, v *Term) Value {
	t := x.term(st, z)
	x.nonNil(st, "receiver", t)
	x.setComp(st, "BigInt", Store(x.comp(st, "BigInt"), t, v), t)
	return t
}
func ratPart(fn string) model {
	return func(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
		declRat()
		a := x.ratAt(st, "receiver", args[0])
		if a.bv == nil {
			n, d := app("rnum", a), app("rden", a)
			z := realZero()
			x.rawFact(And(Lt(intT(0), d), Eq(Eq(n, intT(0)), Eq(a, z)), Eq(Lt(n, intT(0)), Lt(a, z)), Eq(toReal(n), mk("*", SReal, a, toReal(d)))))
		}
		return x.newInt(st, app(fn, a))
	}
}

// permute gives the window of a slice an arbitrary permutation
func (x *Exec) permute(st *State, el types.Type, s *Term, stable func(P func(*Term) *Term, B *Term, off, n *Term)) (B, off, n *Term) {
	ref, off, n, _ := x.sliceParts(s)
	c := arrCt(el)
	H := x.comp(st, c)
	A := Select(H, ref)
	B = freshConst("sorted", A.sort)
	hi := Add(off, n)
	x.fact(st, permOf(A, B, off, hi))
	x.setComp(st, c, Store(H, ref, B), ref)
	if stable != nil {
		stable(func(j *Term) *Term { return permFwd(A, B, off, hi, j) }, B, off, n)
	}
	return
}

// permOf: B is A with the positions lo..hi-1 permuted. permfwd gives the position in
// A of an element of B, perminv the other way round.
func permOf(A, B, lo, hi *Term) *Term {
	_, es := splitArr(A.sort)
	pn := "permof." + sanit(es)
	if _, ok := fdecls[pn]; !ok {
		ia := arrSort(SInt, SInt)
		declFun(pn, SBool, A.sort, A.sort, SInt, SInt)
		declFun("permfwd."+sanit(es), ia, A.sort, A.sort, SInt, SInt)
		declFun("perminv."+sanit(es), ia, A.sort, A.sort, SInt, SInt)
		a, b, l, h, j := bvar("A", A.sort), bvar("B", A.sort), bvar("lo", SInt), bvar("hi", SInt), bvar("j", SInt)
		po := app(pn, a, b, l, h)
		in := func(t *Term) *Term { return And(Le(l, t), Lt(t, h)) }
		p, q := permFwd(a, b, l, h, j), Select(app("perminv."+sanit(es), a, b, l, h), j)
		qp := Select(app("perminv."+sanit(es), a, b, l, h), p)
		pq := permFwd(a, b, l, h, q)
		vs := []*Term{a, b, l, h, j}
		fAxioms[pn] = append(fAxioms[pn],
			Forall(vs, [][]*Term{{po, Select(b, j)}, {po, p}}, Implies(po, Ite(in(j), And(in(p), Eq(qp, j), Eq(Select(b, j), Select(a, p))), Eq(Select(b, j), Select(a, j))))),
			Forall(vs, [][]*Term{{po, Select(a, j)}, {po, q}}, Implies(And(po, in(j)), And(in(q), Eq(pq, j), Eq(Select(a, j), Select(b, q))))))
	}
	return app(pn, A, B, lo, hi)
}
func permFwd(A, B, lo, hi, j *Term) *Term {
	_, es := splitArr(A.sort)
	return Select(app("permfwd."+sanit(es), A, B, lo, hi), j)
}

func (x *Exec) sortModel(st *State, args []Value, stable bool) Value {
	iv, ok := args[0].(*IfaceV)
	if !ok {
		x.fail("sort of unknown slice")
	}
	el := iv.dyn.Underlying().(*types.Slice).Elem()
	s := x.term(st, iv.v)
	cl, ok := args[1].(*Closure)
	if !ok {
		x.fail("sort with unknown comparison")
	}
	// the comparison may run in any permuted state
	pre := st.clone()
	var P func(*Term) *Term
	B, off, n := x.permute(st, el, s, func(p func(*Term) *Term, _, _, _ *Term) { P = p })
	hi := Add(off, n)
	less := func(s *State, i, j *Term) *Term {
		r, ok := x.pureCall(s, cl, []Value{Sub(i, off), Sub(j, off)})
		if !ok || len(r) != 1 {
			x.fail("comparison function of sort is not pure")
		}
		return r[0]
	}
	_ = pre
	in := func(t *Term) *Term { return And(Le(off, t), Lt(t, hi)) }
	if x.dry == 0 && x.noObl == 0 {
		a, b, c := freshConst("si", SInt), freshConst("sj", SInt), freshConst("sk", SInt)
		lab, lba, lbc, lac, laa := less(st, a, b), less(st, b, a), less(st, b, c), less(st, a, c), less(st, a, a)
		g := Implies(And(in(a), in(b), in(c)), And(Not(laa), Implies(lab, Not(lba)), Implies(And(lab, lbc), lac), Implies(And(Not(lab), Not(lbc)), Not(lac))))
		x.oblige(st, "sort-order", "comparison is a strict weak order", g)
		// no panic inside the comparison: index bounds hold for indexes within the slice
		x.pureCheck(st, cl, []Value{Sub(a, off), Sub(b, off)}, And(in(a), in(b)))
	}
	i, j := bvar("i", SInt), bvar("j", SInt)
	l := less(st, j, i)
	body := Not(l)
	if stable {
		l2 := less(st, i, j)
		body = And(body, Implies(Not(l2), Lt(P(i), P(j))))
	}
	x.fact(st, Forall([]*Term{i, j}, [][]*Term{{Select(B, i), Select(B, j)}}, Implies(And(Le(off, i), Lt(i, j), Lt(j, hi)), body)))
	return Tuple{}
}

// pureCheck executes a closure for its no-panic obligations only
func (x *Exec) pureCheck(st *State, cl *Closure, args []Value, cond *Term) {
	s := st.clone()
	s.pc = And(s.pc, cond)
	savedSpec := x.spec
	sp := &FuncSpec{loops: map[string]*LoopSpec{}, opts: map[string]bool{}, inline: map[string]bool{}}
	if savedSpec != nil {
		sp.mayPanic = savedSpec.mayPanic
	}
	x.spec = sp
	n := len(x.facts)
	fr := &Frame{fn: cl.fn, args: args, free: cl.binds, key: fmt.Sprintf("chk%p", cl.fn)}
	x.runFn(fr, s)
	x.facts = x.facts[:n]
	x.spec = savedSpec
}

// ---- text buffers ------------------------------------------------------------

func declBuf() {
	declStr()
	declFun("runestr", SStr, SInt)
}
func bufWriteRune(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
	declBuf()
	r := x.term(st, args[0])
	x.nonNil(st, "buffer", r)
	h := x.comp(st, "Buf")
	c := x.term(st, args[1])
	x.setComp(st, "Buf", Store(h, r, strCat(Select(h, r), app("runestr", c))), r)
	return Tuple{freshConst("n", SInt), nilIface()}
}
func bufWriteString(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
	declBuf()
	r := x.term(st, args[0])
	x.nonNil(st, "buffer", r)
	h := x.comp(st, "Buf")
	x.setComp(st, "Buf", Store(h, r, strCat(Select(h, r), x.term(st, args[1]))), r)
	return Tuple{freshConst("n", SInt), nilIface()}
}
func bufString(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
	r := x.term(st, args[0])
	return Select(x.comp(st, "Buf"), r)
}
func bufLen(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
	r := x.term(st, args[0])
	return x.strLenF(st, Select(x.comp(st, "Buf"), r))
}

// boxedArgs returns the elements of a literal ...interface{} slice
func (x *Exec) boxedArgs(st *State, v Value) ([]*Term, bool) {
	cs, ok := v.(*CellSlice)
	if !ok {
		if t, ok := v.(*Term); ok && t == zeroTerm(types.NewSlice(types.Typ[types.Int])) {
			return nil, true
		}
		return nil, false
	}
	ca := st.cells[cs.cell].(*CellArr)
	var out []*Term
	for _, e := range ca.elems {
		if iv, ok := e.(*IfaceV); ok {
			if _, isP := iv.dyn.Underlying().(*types.Pointer); isP {
				out = append(out, freshConst("fmtarg", SIface))
				continue
			}
			if _, isB := iv.v.(*Term); !isB {
				out = append(out, freshConst("fmtarg", SIface))
				continue
			}
		}
		out = append(out, x.term(st, e))
	}
	return out, true
}
func sprintfModel(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
	f := x.term(st, args[0])
	as, ok := x.boxedArgs(st, args[1])
	if !ok {
		return freshConst("sprintf", SStr)
	}
	n := fmt.Sprintf("sprintf.%d", len(as))
	ss := []Sort{SStr}
	for range as {
		ss = append(ss, SIface)
	}
	declFun(n, SStr, ss...)
	return app(n, append([]*Term{f}, as...)...)
}
func errorfModel(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
	e := freshConst("error", SIface)
	x.fact(st, Ne(e, nilIface()))
	return e
}
func fprintfModel(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
	return Tuple{freshConst("n", SInt), freshConst("err", SIface)}
}
func regexString(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
	declFun("regex.src", SStr, SInt)
	return app("regex.src", x.term(st, args[0]))
}
func mustCompile(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
	declFun("regex.of", SInt, SStr)
	declFun("regex.valid", SBool, SStr)
	s := x.term(st, args[0])
	x.oblige(st, "no-panic", "regexp.MustCompile of an invalid expression", Or(app("regex.valid", s), x.panicCond()))
	x.fact(st, app("regex.valid", s))
	r := app("regex.of", s)
	x.fact(st, And(Lt(intT(0), r), Lt(r, x.next(st))))
	return r
}
func regexCompile(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
	declFun("regex.of", SInt, SStr)
	declFun("regex.valid", SBool, SStr)
	s := x.term(st, args[0])
	ok := app("regex.valid", s)
	r := app("regex.of", s)
	x.fact(st, Implies(ok, And(Lt(intT(0), r), Lt(r, x.next(st)))))
	e := freshConst("error", SIface)
	x.fact(st, Eq(Eq(e, nilIface()), ok))
	return Tuple{Ite(ok, r, intT(0)), e}
}
func runeCount(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
	declFun("runecount", SInt, SStr)
	s := x.term(st, args[0])
	l := app("runecount", s)
	if s.bv == nil {
		x.rawFact(And(Le(intT(0), l), Eq(Eq(l, intT(0)), Eq(s, strLit("")))))
	}
	return l
}
func decodeRune(x *Exec, fr *Frame, st *State, in *ssa.Call, args []Value) Value {
	s := x.term(st, args[0])
	x.strLenF(st, s)
	// position 0 of the (possibly sliced) string
	r, w := x.runeFacts(s, intT(0))
	return Tuple{Ite(Eq(s, strLit("")), intT(0xfffd), r), Ite(Eq(s, strLit("")), intT(0), w)}
}

// ---- uninterpreted pure functions -----------------------------------------------

func (x *Exec) pureExt(st *State, name string, m pureModel, sig *types.Signature, args []Value) Value {
	x.w.trusted["function "+name] = "deterministic, total and without side effects"
	short := "x." + sanit(strings.NewReplacer("(*", "", ")", "", "math/", "", "unicode/", "").Replace(name))
	var ts []*Term
	var ss []Sort
	var ats []types.Type
	if sig.Recv() != nil {
		ats = append(ats, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ats = append(ats, sig.Params().At(i).Type())
	}
	var raw []*Term
	for i, a := range args {
		t := x.term(st, a)
		raw = append(raw, t)
		if sl, ok := ats[i].Underlying().(*types.Slice); ok {
			r, o, l, _ := x.sliceParts(t)
			ts = append(ts, Select(x.comp(st, arrCt(sl.Elem())), r), o, l)
			continue
		}
		ts = append(ts, t)
	}
	if strings.HasPrefix(name, "(*") {
		x.nonNil(st, "receiver of "+name, raw[0])
	}
	for _, t := range ts {
		ss = append(ss, t.sort)
	}
	var out []Value
	var res []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		fn := short
		if sig.Results().Len() > 1 {
			fn = fmt.Sprintf("%s.%d", short, i)
		}
		if sl, ok := rt.Underlying().(*types.Slice); ok {
			es := sortOf(sl.Elem())
			declFun(fn+".arr", arrSort(SInt, es), ss...)
			declFun(fn+".len", SInt, ss...)
			ref := x.newRef(st)
			c := arrCt(sl.Elem())
			x.setComp(st, c, Store(x.comp(st, c), ref, app(fn+".arr", ts...)), ref)
			l := app(fn+".len", ts...)
			x.fact(st, Le(intT(0), l))
			v := Ctor(sliceDT, Ite(Eq(l, intT(0)), intT(0), ref), intT(0), l, l)
			out = append(out, v)
			res = append(res, v)
			continue
		}
		declFun(fn, sortOf(rt), ss...)
		v := app(fn, ts...)
		x.wfVal(st, rt, v)
		out = append(out, v)
		res = append(res, v)
	}
	if m.facts != nil {
		ok := true
		for _, r := range res {
			ok = ok && r.bv == nil
		}
		if ok {
			x.fact(st, m.facts(x, st, ts, res))
		}
	}
	return ret(out)
}

func atoiFacts(x *Exec, st *State, a, r []*Term) *Term { return tTrue }
func prefixFacts(x *Exec, st *State, a, r []*Term) *Term {
	s, p := a[0], a[1]
	x.strLenF(st, s)
	x.strLenF(st, p)
	declStr()
	// s has prefix p  <=>  s is at least as long and its first len(p) bytes are p
	return And(Implies(r[0], Le(strLen(p), strLen(s))), Eq(r[0], And(Le(strLen(p), strLen(s)), Eq(x.subStrRaw(s, intT(0), strLen(p)), p))))
}
func (x *Exec) subStrRaw(s, lo, hi *Term) *Term {
	declStr()
	if lo == intT(0) && hi == strLen(s) {
		return s
	}
	if lo == hi {
		return strLit("")
	}
	return app("substr", s, lo, hi)
}
// splitFacts: parts of a string at a non-empty literal separator
func splitFacts(x *Exec, st *State, a, r []*Term) *Term {
	sep, ok := strNames[a[1].op]
	if !ok || sep == "" {
		return tTrue
	}
	l := Acc(sliceDT, 2, r[0])
	if len(a) < 3 {
		return Le(intT(1), l)
	}
	n, ok := a[2].intLit()
	if !ok || n.Sign() <= 0 {
		return tTrue
	}
	fs := []*Term{Le(intT(1), l), Le(l, intT(n.Int64()))}
	if n.Int64() == 2 {
		A := Select(x.comp(st, arrCt(types.Typ[types.String])), Acc(sliceDT, 0, r[0]))
		p0, p1 := Select(A, intT(0)), Select(A, intT(1))
		fs = append(fs, Implies(Eq(l, intT(1)), Eq(p0, a[0])), Implies(Eq(l, intT(2)), Eq(a[0], strCat(p0, strCat(a[1], p1)))))
	}
	return And(fs...)
}
func digitFacts(x *Exec, st *State, a, r []*Term) *Term {
	c := a[0]
	// for the ASCII range
	return And(Implies(Lt(c, intT(0)), Not(r[0])), Implies(And(Le(intT(0), c), Lt(c, intT(128))), Eq(r[0], And(Le(intT('0'), c), Le(c, intT('9'))))))
}
func negFacts(x *Exec, st *State, a, r []*Term) *Term { return Implies(Lt(a[0], intT(0)), Not(r[0])) }
func spaceFacts(x *Exec, st *State, a, r []*Term) *Term {
	c := a[0]
	return And(Implies(Lt(c, intT(0)), Not(r[0])), Implies(And(Le(intT(0), c), Lt(c, intT(128))), Eq(r[0], Or(And(Le(intT(9), c), Le(c, intT(13))), Eq(c, intT(32))))))
}

// ---- builtins ----------------------------------------------------------------------

func blitFn(arr Sort) string {
	_, es := splitArr(arr)
	n := "blit." + sanit(es)
	if _, ok := fdecls[n]; !ok {
		declFun(n, arr, arr, SInt, arr, SInt, SInt)
		D, S := bvar("D", arr), bvar("S", arr)
		d, s, k, j := bvar("d", SInt), bvar("s", SInt), bvar("k", SInt), bvar("j", SInt)
		b := app(n, D, d, S, s, k)
		fAxioms[n] = append(fAxioms[n], Forall([]*Term{D, d, S, s, k, j}, [][]*Term{{Select(b, j)}},
			Eq(Select(b, j), Ite(And(Le(d, j), Lt(j, Add(d, k))), Select(S, Add(j, Sub(s, d))), Select(D, j)))))
		fAxioms[n] = append(fAxioms[n], Forall([]*Term{D, d, S, s, k, j}, [][]*Term{{b, Select(S, j)}},
			Implies(And(Le(s, j), Lt(j, Add(s, k))), Eq(Select(b, Add(j, Sub(d, s))), Select(S, j)))))
	}
	return n
}

func (x *Exec) builtin(fr *Frame, st *State, name string, c *ssa.CallCommon, args []Value, in *ssa.Call) Value {
	switch name {
	case "recover":
		if x.panicVal != nil {
			return x.panicVal
		}
		return nilIface()
	case "ssa:deferstack":
		return namedConst("deferstack", SOpq)
	case "len", "cap":
		switch t := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			if cs, ok := args[0].(*CellSlice); ok {
				return intT(int64(cs.n))
			}
			s := x.term(st, args[0])
			i := 2
			if name == "cap" {
				i = 3
			}
			return Acc(sliceDT, i, s)
		case *types.Basic:
			return x.strLenF(st, x.term(st, args[0]))
		case *types.Map:
			return x.mapLen(st, t, x.term(st, args[0]))
		case *types.Array:
			return intT(t.Len())
		}
		x.fail("len of %s", c.Args[0].Type())
	case "append":
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		s := x.term(st, args[0])
		ref, off, n, cp := x.sliceParts(s)
		cc := arrCt(el)
		var m *Term
		A := Select(x.comp(st, cc), ref)
		var A2 *Term
		if cs, ok := args[1].(*CellSlice); ok {
			m = intT(int64(cs.n))
			A2 = A
			ca := st.cells[cs.cell].(*CellArr)
			for i, e := range ca.elems {
				A2 = Store(A2, Add(off, n, intT(int64(i))), x.term(st, e))
			}
		} else {
			if isStr(c.Args[1].Type()) {
				x.fail("append of a string to bytes")
			}
			t := x.term(st, args[1])
			r2, o2, l2, _ := x.sliceParts(t)
			m = l2
			A2 = app(blitFn(A.sort), A, Add(off, n), Select(x.comp(st, cc), r2), o2, l2)
		}
		fits := Le(Add(n, m), cp)
		fresh := x.newRef(st)
		target := Ite(fits, ref, fresh)
		if ref == intT(0) || ref == fresh {
			// append to a nil slice literal
			if m != intT(0) && ref == intT(0) && cp == intT(0) {
				if k, ok := m.intLit(); ok && k.Sign() > 0 {
					target, fits = fresh, tFalse
				}
			}
		}
		if x.wr != nil && (target == fresh || x.wr.allocs[ref]) {
			x.wr.allocs[target] = true
		}
		x.setComp(st, cc, Store(x.comp(st, cc), target, A2), target)
		ncap := freshConst("cap", SInt)
		x.fact(st, Le(Add(n, m), ncap))
		return Ctor(sliceDT, target, off, Add(n, m), Ite(fits, cp, ncap))
	case "copy":
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		cc := arrCt(el)
		if isStr(c.Args[1].Type()) {
			x.fail("copy from a string")
		}
		d, s := x.term(st, args[0]), x.term(st, args[1])
		dr, do, dn, _ := x.sliceParts(d)
		sr, so, sn, _ := x.sliceParts(s)
		n := Ite(Le(dn, sn), dn, sn)
		H := x.comp(st, cc)
		x.setComp(st, cc, Store(H, dr, app(blitFn(Select(H, dr).sort), Select(H, dr), do, Select(H, sr), so, n)), dr)
		return n
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		m, k := x.term(st, args[0]), x.term(st, args[1])
		d, _ := mapCt(mt)
		hd := x.comp(st, d)
		x.setComp(st, d, Store(hd, m, Store(Select(hd, m), k, tFalse)), m)
		return Tuple{}
	case "print", "println":
		return Tuple{}
	}
	x.fail("builtin %s", name)
	return nil
}
func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---- package variables -----------------------------------------------------------------

func (w *World) scanGlobals() {
	w.globals = map[*ssa.Global]*globInfo{}
	get := func(g *ssa.Global) *globInfo {
		i := w.globals[g]
		if i == nil {
			i = &globInfo{constant: true}
			w.globals[g] = i
		}
		return i
	}
	var root func(v ssa.Value) *ssa.Global
	root = func(v ssa.Value) *ssa.Global {
		switch v := v.(type) {
		case *ssa.Global:
			return v
		case *ssa.FieldAddr:
			return root(v.X)
		case *ssa.IndexAddr:
			return root(v.X)
		}
		return nil
	}
	for _, f := range w.allWithAnon() {
		isInit := f.Name() == "init" && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if g := root(in.Addr); g != nil {
						gi := get(g)
						if !isInit {
							gi.constant = false
							continue
						}
						gi.stores = append(gi.stores, in)
					}
					if g, ok := in.Val.(*ssa.Global); ok {
						get(g).constant = false // address escapes
					}
				case ssa.CallInstruction:
					for _, a := range in.Common().Args {
						if g := root(a); g != nil {
							get(g).constant = false
						}
					}
				}
			}
		}
	}
}

func (w *World) allWithAnon() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, f := range w.allFuncs() {
		add(f)
	}
	for _, p := range w.pkgs {
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
				add(f)
			}
		}
	}
	return out
}

func (x *Exec) globVal(st *State, g *ssa.Global) Value {
	gi := x.w.globals[g]
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if gi == nil {
		gi = &globInfo{constant: true}
		if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), repoPrefix) {
			gi.val = zeroTerm(t)
		}
		x.w.globals[g] = gi
	}
	if !gi.constant {
		x.fail("package variable %s is assigned outside its declaration", g.Name())
	}
	if gi.val != nil {
		if len(gi.val.args) == 0 && strings.HasPrefix(gi.val.op, "glob.") || gi.val.op == "regex.of" {
			return x.globFacts(st, gi, t)
		}
		return gi.val
	}
	name := "glob." + g.Pkg.Pkg.Name() + "." + g.Name()
	switch u := t.Underlying().(type) {
	case *types.Array:
		d := arrayDT(u)
		elems := make([]*Term, len(d.Fields))
		for i := range elems {
			elems[i] = zeroTerm(u.Elem())
		}
		stores := gi.stores
		if len(stores) == 1 {
			if u, is := stores[0].Val.(*ssa.UnOp); is {
				if a, is := u.X.(*ssa.Alloc); is {
					stores = nil
					for _, r := range *a.Referrers() {
						if ia, is := r.(*ssa.IndexAddr); is {
							for _, r2 := range *ia.Referrers() {
								if s, is := r2.(*ssa.Store); is && s.Addr == ia {
									stores = append(stores, s)
								}
							}
						}
					}
				}
			}
		}
		ok := len(stores) > 0
		for _, s := range stores {
			ia, is1 := s.Addr.(*ssa.IndexAddr)
			if !is1 {
				ok = false
				break
			}
			c, is2 := ia.Index.(*ssa.Const)
			v, is3 := s.Val.(*ssa.Const)
			if !is2 || !is3 {
				ok = false
				break
			}
			elems[c.Int64()] = x.constTerm(v)
		}
		if ok {
			gi.val = Ctor(d, elems...)
			return gi.val
		}
	case *types.Basic:
		if len(gi.stores) == 1 {
			if c, ok := gi.stores[0].Val.(*ssa.Const); ok {
				gi.val = x.constTerm(c)
				return gi.val
			}
		}
	}
	if src, ok := literalRegexp(t, gi); ok {
		re, err := regexp.Compile(src)
		if err != nil {
			x.fail("package variable %s: %v", g.Name(), err)
		}
		declFun("regex.of", SInt, SStr)
		gi.val = app("regex.of", strLit(src))
		regexSubs[gi.val] = re.NumSubexp()
		return x.globFacts(st, gi, t)
	}
	v := namedConst(name, sortOf(t))
	x.w.trusted["variable "+g.Pkg.Pkg.Name()+"."+g.Name()] = "package variable never reassigned; initial value treated as an unknown constant"
	gi.val = v
	return x.globFacts(st, gi, t)
}
// regexSubs: compiled literal expressions and their number of groups
var regexSubs = map[*Term]int{}

func literalRegexp(t types.Type, gi *globInfo) (string, bool) {
	if t.String() != "*regexp.Regexp" || len(gi.stores) != 1 {
		return "", false
	}
	c, ok := gi.stores[0].Val.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "regexp.MustCompile" {
		return "", false
	}
	k, ok := c.Call.Args[0].(*ssa.Const)
	if !ok {
		return "", false
	}
	return constant.StringVal(k.Value), true
}

// submatchFacts: the groups of a literal expression that matches
func submatchFacts(x *Exec, st *State, a, r []*Term) *Term {
	n, ok := regexSubs[a[0]]
	if !ok {
		return tTrue
	}
	l := Acc(sliceDT, 2, r[0])
	return Or(Eq(l, intT(0)), Eq(l, intT(int64(n+1))))
}

func findFacts(x *Exec, st *State, a, r []*Term) *Term {
	f := Le(x.strLenF(st, r[0]), x.strLenF(st, a[1]))
	if a[0].op == "regex.of" {
		if src, ok := strNames[a[0].args[0].op]; ok && strings.HasPrefix(src, "^") && !strings.Contains(src, "|") {
			f = And(f, Eq(x.subStrRaw(a[1], intT(0), strLen(r[0])), r[0])) // found at the start
		}
	}
	return f
}

func (x *Exec) globFacts(st *State, gi *globInfo, t types.Type) *Term {
	v := gi.val
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map:
		x.fact(st, And(Lt(intT(0), v), Lt(v, x.next0())))
	case *types.Interface:
		x.fact(st, Ne(v, nilIface()))
	}
	return v
}
