package main

// Forward symbolic execution of go/ssa (NaiveForm) functions, producing proof
// obligations.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Name  string
	Kind  string
	Pos   string
	facts []*Term
	goal  *Term
	Props []string
}

type World struct {
	funcTab map[string]*ssa.Function
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package // by package name
	specs   *Specs
	fset    *token.FileSet
	touch   map[*ssa.Function]map[string]bool
	touchIn map[*ssa.Function]bool
	globals map[*ssa.Global]*globInfo
	trusted map[string]string // used assumptions
	axioms  []*Term
	axName  []string
}

type globInfo struct {
	constant bool
	val      *Term
	stores   []*ssa.Store
}

type Exec struct {
	w       *World
	top     *ssa.Function
	spec    *FuncSpec
	facts   []*Term
	obls    []*Obl
	recovered bool  // panics are recovered by the function under verification
	panicVal  *Term // what recover() returns, nil outside of a panic
	wrField int // field of the object being written, -1: the whole object
	dryHead []*ssa.BasicBlock
	dry     int
	wr      *writeSet
	old     *State
	params  map[string]SV
	results []SV
	snaps   map[string]*State

	lemma    *Lemma // being proved
	lemmaDec *Term
	lets     map[string]SV
	loopOrd  map[string]int
	loopN    int
	depth    int
	calls    map[string]int
	touched  map[string]bool
	loopStk  []*LoopInst
	curPos   token.Pos
	noObl    int
	inlined  map[string]bool
	used     map[string]bool
}

type writeSet struct {
	cells  map[*Cell]bool
	heaps  map[string]bool
	fresh  map[string]bool // comps with only fresh writes so far (true) or not (false)
	allocs map[*Term]bool
	alloc  bool
	newC   map[*Cell]bool
	unk    map[string]bool                   // written at unknown objects
	refs   map[string]map[*Term]map[int]bool // objects written, and which fields of them (-1: all)
	freshW map[string]bool                   // written at objects a callee created
}

type Frame struct {
	fn     *ssa.Function
	parent *Frame
	cells  map[*ssa.Alloc]Value
	args   []Value
	free   []Value
	key    string
	block  *ssa.BasicBlock
	st     *State
	isTop  bool
	edges  map[[2]int]*State
	rets   []retInfo
	nret   int
	defers []*ssa.Defer
	rec    *ssa.Defer // the deferred call that recovers from panics
	recSt  *State
	onRet  func(st *State, res []Value) // called for every return, before the merge
	loops  map[int]*LoopInst
	li     *loopInfo
	names  map[string]SV // parameter names given by contracts
}
type retInfo struct {
	st  *State
	res []Value
}
type LoopInst struct {
	ord     int
	fr      *Frame
	header  *ssa.BasicBlock
	spec    *LoopSpec
	entry   *State
	dec0    *Term
	iter    *MapIter
	unrollK int
	atEnd   bool
}

type execErr struct{ msg string }

func (x *Exec) fail(f string, a ...interface{}) {
	p := ""
	if x.curPos.IsValid() {
		p = x.w.pos(x.curPos) + ": "
	}
	panic(execErr{p + fmt.Sprintf(f, a...)})
}
func (w *World) pos(p token.Pos) string {
	q := w.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, "/repo/"), q.Line)
}

func (x *Exec) fact(st *State, t *Term) {
	if t == tTrue {
		return
	}
	x.facts = append(x.facts, Implies(st.pc, t))
}
func (x *Exec) rawFact(t *Term) {
	if t != tTrue {
		x.facts = append(x.facts, t)
	}
}
func (x *Exec) oblige(st *State, kind, name string, goal *Term) {
	if x.dry > 0 || x.noObl > 0 {
		return
	}
	if goal == tTrue || st.pc == tFalse {
		goal = tTrue
	}
	pos := ""
	if x.curPos.IsValid() {
		pos = x.w.pos(x.curPos)
	}
	g := Implies(st.pc, goal)
	fs := make([]*Term, len(x.facts))
	copy(fs, x.facts)
	x.obls = append(x.obls, &Obl{Name: name, Kind: kind, Pos: pos, facts: fs, goal: g})
}

// obligeAssume states an obligation and uses it afterwards.
func (x *Exec) obligeAssume(st *State, kind, name string, goal *Term) {
	if kind != "no-panic" || !x.recovered { // a recovered panic ends in panicReturn
		x.oblige(st, kind, name, goal)
	}
	x.fact(st, goal)
	if goal == tFalse && x.dry == 0 && x.noObl == 0 {
		st.pc = tFalse
	}
}

// registerComps makes the heap components of all types declared in the repository known
func (w *World) registerComps() {
	seen := map[types.Type]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		if n, ok := types.Unalias(t).(*types.Named); ok {
			if n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), repoPrefix) || n.TypeParams().Len() > 0 {
				return
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			walk(u.Elem())
		case *types.Slice:
			walk(u.Elem())
			arrCt(u.Elem())
		case *types.Map:
			walk(u.Elem())
			walk(u.Key())
			mapCt(u)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type())
			}
			noteGo(t)
			if _, ok := t.(*types.Named); ok {
				memCt(t)
			}
		}
	}
	var ns []string
	for n := range w.pkgs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		sc := w.pkgs[n].Pkg.Scope()
		if !strings.HasPrefix(w.pkgs[n].Pkg.Path(), repoPrefix) {
			continue
		}
		for _, o := range sc.Names() {
			if tn, ok := sc.Lookup(o).(*types.TypeName); ok {
				walk(tn.Type())
			}
		}
	}
}

// ---- heap ------------------------------------------------------------------

func (x *Exec) comp(st *State, c string) *Term {
	if t, ok := st.heap[c]; ok {
		return t
	}
	s, ok := compSort[c]
	if !ok {
		x.w.registerComps()
		s, ok = compSort[c]
	}
	if !ok {
		x.fail("unknown heap component %s", c)
	}
	t := namedConst("H0."+sanit(c), s)
	// the initial component is shared by all states of this execution
	st.heap[c] = t
	x.heapWF(c, t, x.next0())
	return t
}
func (x *Exec) next0() *Term { return namedConst("next0", SInt) }

var heapWFDone = map[string]bool{}

// heapWF: every reference stored in the component is allocated
func (x *Exec) heapWF(c string, h, next *Term) {
	s := compSort[c]
	_, v := splitArr(s)
	if strings.HasPrefix(c, "[]") {
		if _, ok := dtypes[elemSort(v)]; !ok && elemTypeOfComp[c] == nil {
			return
		}
		et := elemTypeOfComp[c]
		if et == nil {
			return
		}
		r, i := bvar("r", SInt), bvar("i", SInt)
		e := Select(Select(h, r), i)
		f := refFacts(et, e, next)
		if f != tTrue {
			x.rawFact(Forall([]*Term{r, i}, [][]*Term{{e}}, f))
		}
		return
	}
	if et := memTypeOfComp[c]; et != nil {
		r := bvar("r", SInt)
		e := Select(h, r)
		f := refFacts(et, e, next)
		if f != tTrue {
			x.rawFact(Forall([]*Term{r}, [][]*Term{{e}}, f))
		}
	}
	if strings.HasPrefix(c, "map:") {
		if mt := mapTypeOfComp[c]; mt != nil {
			k, _ := splitArr(v)
			r, i := bvar("r", SInt), bvar("k", k)
			e := Select(Select(h, r), i)
			f := refFacts(mt.Elem(), e, next)
			if f != tTrue {
				x.rawFact(Forall([]*Term{r, i}, [][]*Term{{e}}, f))
			}
		}
	}
}
func elemSort(v Sort) Sort {
	if strings.HasPrefix(v, "(Array ") {
		_, e := splitArr(v)
		return e
	}
	return v
}

// refFacts: facts that hold of every Go value of type t in a heap with next
func refFacts(t types.Type, e, next *Term) *Term {
	if isRat(t) || isBigInt(t) || isBuf(t) {
		return tTrue
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map:
		return And(Le(intT(0), e), Lt(e, next))
	case *types.Slice:
		sr, so, sl, sc := Acc(sliceDT, 0, e), Acc(sliceDT, 1, e), Acc(sliceDT, 2, e), Acc(sliceDT, 3, e)
		return And(Le(intT(0), sr), Lt(sr, next), Le(intT(0), so), Le(intT(0), sl), Le(sl, sc),
			Implies(Eq(sr, intT(0)), Eq(sc, intT(0))))
	case *types.Struct:
		if !repoStruct(t) {
			return tTrue
		}
		d := structDT(t)
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, refFacts(u.Field(i).Type(), Acc(d, i, e), next))
		}
		return And(fs...)
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			return Le(intT(0), e)
		}
		return tTrue
	}
	return tTrue
}

func (x *Exec) setComp(st *State, c string, t *Term, ref *Term) {
	st.heap[c] = t
	x.noteWrite(c, ref)
}
func (x *Exec) noteWrite(c string, ref *Term) {
	if x.touched != nil {
		x.touched[c] = true
	}
	if x.wr != nil {
		isFresh := ref != nil && x.wr.allocs[ref]
		if old, ok := x.wr.fresh[c]; ok {
			x.wr.fresh[c] = old && isFresh
		} else {
			x.wr.fresh[c] = isFresh
		}
		if ref == nil {
			x.wr.unk[c] = true
		} else {
			x.wr.addRef(c, ref, x.wrField)
		}
		x.wr.heaps[c] = true
	}
}
func (x *Exec) next(st *State) *Term {
	if t, ok := st.heap["next"]; ok {
		return t
	}
	st.heap["next"] = x.next0()
	return st.heap["next"]
}
func (x *Exec) newRef(st *State) *Term {
	r := x.next(st)
	st.heap["next"] = Add(r, intT(1))
	if x.touched != nil {
		x.touched["next"] = true
	}
	if x.wr != nil {
		x.wr.alloc = true
		x.wr.allocs[r] = true
		x.wr.heaps["next"] = true
	}
	return r
}
func (x *Exec) bumpNext(st *State) {
	n := x.next(st)
	m := freshConst("next", SInt)
	x.fact(st, Le(n, m))
	st.heap["next"] = m
	if x.touched != nil {
		x.touched["next"] = true
	}
	if x.wr != nil {
		x.wr.alloc = true
		x.wr.heaps["next"] = true
	}
}

func (x *Exec) setCell(st *State, c *Cell, v Value) {
	st.cells[c] = v
	if x.wr != nil {
		x.wr.cells[c] = true
	}
}

// ---- pointers ----------------------------------------------------------------

// asPtr turns a pointer value into an address
func (x *Exec) asPtr(v Value, pt types.Type) *Ptr {
	if p, ok := v.(*Ptr); ok {
		return p
	}
	el := pt.Underlying().(*types.Pointer).Elem()
	t := x.term(nil, v)
	return &Ptr{comp: memCt(el), ref: t, root: el, typ: el}
}

func (x *Exec) nilCheck(st *State, p *Ptr, what string) {
	if p.cell == nil && p.glob == nil && p.idx == nil {
		x.obligeAssume(st, "no-panic", "nil dereference: "+what, Ne(p.ref, intT(0)))
	}
}

func (x *Exec) loadRoot(st *State, p *Ptr) Value {
	switch {
	case p.cell != nil:
		v, ok := st.cells[p.cell]
		if !ok {
			x.fail("unset cell %s", p.cell.name)
		}
		return v
	case p.glob != nil:
		return x.globVal(st, p.glob)
	case p.idx != nil:
		return Select(Select(x.comp(st, p.comp), p.ref), p.idx)
	default:
		return Select(x.comp(st, p.comp), p.ref)
	}
}

func (x *Exec) load(st *State, p *Ptr) Value {
	v := x.loadRoot(st, p)
	for _, e := range p.path {
		v = x.proj(st, v, e)
	}
	if t, ok := v.(*Term); ok && p.cell == nil {
		if f := refFacts(p.typ, t, x.next(st)); f != tTrue && t.bv == nil {
			x.fact(st, f)
		}
	}
	return v
}

func (x *Exec) proj(st *State, v Value, e pathEl) Value {
	if e.idx != nil {
		if ca, ok := v.(*CellArr); ok {
			n, ok := e.idx.intLit()
			if !ok {
				x.fail("symbolic index into literal array")
			}
			return ca.elems[n.Int64()]
		}
		t := x.term(st, v)
		d := dtypes[t.sort]
		return arrGet(d, t, e.idx)
	}
	t := x.term(st, v)
	return Acc(dtypes[t.sort], e.field, t)
}
func arrGet(d *DType, t, idx *Term) *Term {
	if n, ok := idx.intLit(); ok {
		if n.Sign() < 0 || n.Cmp(big.NewInt(int64(len(d.Fields)))) >= 0 {
			return freshConst("outofrange", d.Fields[0].Sort)
		}
		return Acc(d, int(n.Int64()), t)
	}
	r := Acc(d, len(d.Fields)-1, t)
	for i := len(d.Fields) - 2; i >= 0; i-- {
		r = Ite(Eq(idx, intT(int64(i))), Acc(d, i, t), r)
	}
	return r
}
func arrSet(d *DType, t, idx, v *Term) *Term {
	var as []*Term
	for i := range d.Fields {
		as = append(as, Ite(Eq(idx, intT(int64(i))), v, Acc(d, i, t)))
	}
	return Ctor(d, as...)
}

func (x *Exec) update(st *State, root Value, path []pathEl, v Value) Value {
	if len(path) == 0 {
		return v
	}
	e := path[0]
	if e.idx != nil {
		if ca, ok := root.(*CellArr); ok {
			n, ok := e.idx.intLit()
			if !ok {
				x.fail("symbolic index into literal array")
			}
			na := &CellArr{append([]Value{}, ca.elems...)}
			na.elems[n.Int64()] = x.update(st, ca.elems[n.Int64()], path[1:], v)
			return na
		}
		t := x.term(st, root)
		d := dtypes[t.sort]
		inner := x.update(st, arrGet(d, t, e.idx), path[1:], v)
		return arrSet(d, t, e.idx, x.term(st, inner))
	}
	t := x.term(st, root)
	d := dtypes[t.sort]
	inner := x.term(st, x.update(st, Acc(d, e.field, t), path[1:], v))
	var as []*Term
	for i := range d.Fields {
		if i == e.field {
			as = append(as, inner)
		} else {
			as = append(as, Acc(d, i, t))
		}
	}
	return Ctor(d, as...)
}

func (x *Exec) store(st *State, p *Ptr, v Value) {
	if p.cell != nil && len(p.path) == 0 {
		if cs, ok := v.(*CellSlice); ok {
			v = x.materialise(st, cs)
		}
		x.setCell(st, p.cell, v)
		return
	}
	if p.glob != nil {
		x.fail("store to package variable %s", p.glob.Name())
	}
	var root Value
	if len(p.path) > 0 {
		root = x.loadRoot(st, p)
	}
	nv := x.update(st, root, p.path, v)
	if p.cell != nil {
		x.setCell(st, p.cell, nv)
		return
	}
	t := x.term(st, nv)
	h := x.comp(st, p.comp)
	if len(p.path) > 0 && p.path[0].idx == nil {
		x.wrField = p.path[0].field
		defer func() { x.wrField = -1 }()
	}
	if p.idx != nil {
		x.setComp(st, p.comp, Store(h, p.ref, Store(Select(h, p.ref), p.idx, t)), p.ref)
	} else {
		x.setComp(st, p.comp, Store(h, p.ref, t), p.ref)
	}
}

// term converts a value to an SMT term
func (x *Exec) term(st *State, v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *Ptr:
		if v.cell == nil && v.glob == nil && v.idx == nil && len(v.path) == 0 {
			return v.ref
		}
		if v.idx != nil && len(v.path) == 0 {
			// interior pointer to a slice element
			declFun("elemptr", SInt, SInt, SInt)
			return app("elemptr", v.ref, v.idx)
		}
		x.fail("address of a local or field used as a value")
	case *CellSlice:
		if st == nil {
			x.fail("array literal without state")
		}
		return x.materialise(st, v)
	case *CellArr:
		if len(v.elems) > 0 {
			d := dtypes[fmt.Sprintf("A%d_%s", len(v.elems), "x")]
			_ = d
		}
		x.fail("array literal used as value")
	case *IfaceV:
		return x.box(st, v)
	case *Closure:
		return x.closureTerm(st, v)
	case *Poison:
		x.fail("use of value merged from incompatible paths: %s", v.why)
	case *MapIter:
		x.fail("iterator used as value")
	case nil:
		x.fail("missing value")
	}
	x.fail("cannot turn %T into a term", v)
	return nil
}

// hasType: the dynamic type of an interface value
func hasType(t *Term, name string) *Term {
	declFun("typetag", SInt, SIface)
	k, ok := typeTags[name]
	if !ok {
		k = int64(len(typeTags) + 1)
		typeTags[name] = k
	}
	return Eq(app("typetag", t), intT(k))
}

var typeTags = map[string]int64{}

func (x *Exec) box(st *State, v *IfaceV) *Term {
	t := x.term(st, v.v)
	n := "box." + sanit(types.TypeString(v.dyn, func(p *types.Package) string { return p.Name() }))
	declFun(n, SIface, t.sort)
	b := app(n, t)
	boxDyn[b] = v.dyn
	// boxing is injective
	un := "un" + n
	declFun(un, t.sort, SIface)
	if t.bv == nil {
		x.rawFact(Ne(b, nilIface()))
		x.rawFact(Eq(app(un, b), t))
		x.rawFact(hasType(b, n[4:]))
	} else {
		v := bvar("v", t.sort)
		bv := app(n, v)
		x.rawFact(Forall([]*Term{v}, [][]*Term{{bv}}, And(Ne(bv, nilIface()), Eq(app(un, bv), v))))
	}
	return b
}

func (x *Exec) materialise(st *State, cs *CellSlice) *Term {
	ca := st.cells[cs.cell].(*CellArr)
	ref := x.newRef(st)
	c := arrCt(cs.elem)
	a := freshConst("lit", arrSort(SInt, sortOf(cs.elem)))
	for i, e := range ca.elems {
		a = Store(a, intT(int64(i)), x.term(st, e))
	}
	x.setComp(st, c, Store(x.comp(st, c), ref, a), ref)
	n := intT(int64(cs.n))
	return Ctor(sliceDT, ref, intT(0), n, n)
}

// component helpers remembering Go types
var elemTypeOfComp = map[string]types.Type{}
var memTypeOfComp = map[string]types.Type{}
var mapTypeOfComp = map[string]*types.Map{}

func arrCt(t types.Type) string {
	c := arrC(t)
	elemTypeOfComp[c] = t
	return c
}
func memCt(t types.Type) string {
	c := memC(t)
	memTypeOfComp[c] = t
	return c
}
func mapCt(t *types.Map) (string, string) {
	d, v := mapC(t)
	mapTypeOfComp[v] = t
	return d, v
}

// ---- merging -------------------------------------------------------------------

func (x *Exec) mergeVal(c *Term, a, b Value, sa, sb *State) Value {
	if sameVal(a, b) {
		return a
	}
	if a == nil || b == nil {
		return nil
	}
	if ta, ok := a.(Tuple); ok {
		if tb, ok := b.(Tuple); ok && len(ta) == len(tb) {
			var r Tuple
			for i := range ta {
				r = append(r, x.mergeVal(c, ta[i], tb[i], sa, sb))
			}
			return r
		}
	}
	if pa, ok := a.(*Ptr); ok {
		if pb, ok := b.(*Ptr); ok && pa.comp == pb.comp && pa.cell == pb.cell && pa.glob == pb.glob && len(pa.path) == len(pb.path) && (pa.idx == nil) == (pb.idx == nil) && pa.cell == nil && pa.glob == nil {
			same := true
			for i := range pa.path {
				if pa.path[i].field != pb.path[i].field || pa.path[i].idx != pb.path[i].idx {
					same = false
				}
			}
			if same {
				n := *pa
				n.ref = Ite(c, pa.ref, pb.ref)
				if pa.idx != nil {
					n.idx = Ite(c, pa.idx, pb.idx)
				}
				return &n
			}
		}
	}
	if ia, ok := a.(*IfaceV); ok {
		if ib, ok := b.(*IfaceV); ok && types.Identical(ia.dyn, ib.dyn) {
			v := x.mergeVal(c, ia.v, ib.v, sa, sb)
			if _, bad := v.(*Poison); !bad {
				return &IfaceV{ia.dyn, v}
			}
		}
	}
	if ca, ok := a.(*CellArr); ok {
		if cb, ok := b.(*CellArr); ok && len(ca.elems) == len(cb.elems) {
			r := &CellArr{}
			for i := range ca.elems {
				if ca.elems[i] == nil || cb.elems[i] == nil {
					r.elems = append(r.elems, &Poison{"array element"})
					continue
				}
				r.elems = append(r.elems, x.mergeVal(c, ca.elems[i], cb.elems[i], sa, sb))
			}
			return r
		}
	}
	ta, ok1 := x.tryTerm(sa, a)
	tb, ok2 := x.tryTerm(sb, b)
	if ok1 && ok2 && ta.sort == tb.sort {
		return Ite(c, ta, tb)
	}
	return &Poison{fmt.Sprintf("%T/%T", a, b)}
}
func (x *Exec) tryTerm(st *State, v Value) (t *Term, ok bool) {
	switch v.(type) {
	case *Term, *IfaceV:
	case *Ptr:
		p := v.(*Ptr)
		if p.cell != nil || p.glob != nil || len(p.path) > 0 || p.idx != nil {
			return nil, false
		}
	default:
		return nil, false
	}
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(execErr); is {
				t, ok = nil, false
				return
			}
			panic(e)
		}
	}()
	return x.term(st, v), true
}

func (x *Exec) merge(ss []*State) *State {
	var live []*State
	for _, s := range ss {
		if s != nil && (s.pc != tFalse || x.dry > 0) {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		if len(ss) > 0 && ss[0] != nil {
			return ss[0]
		}
		return nil
	}
	r := live[0]
	for _, s := range live[1:] {
		r = x.merge2(r, s)
	}
	return r
}

// distinguishing condition: a holds on a's side, its negation on b's
func (x *Exec) merge2(a, b *State) *State {
	ca, cb := conjs(a.pc), conjs(b.pc)
	inb := map[*Term]bool{}
	for _, t := range cb {
		inb[t] = true
	}
	var da []*Term
	for _, t := range ca {
		if !inb[t] {
			da = append(da, t)
		}
	}
	cond := And(da...)
	n := &State{pc: Or(a.pc, b.pc), cells: map[*Cell]Value{}, heap: map[string]*Term{}, regs: map[ssa.Value]Value{}}
	if x.dry > 0 && (a.pc == tFalse || b.pc == tFalse) {
		n.pc = Or(a.pc, b.pc)
		if a.pc == tFalse && b.pc != tFalse {
			cond = tFalse
		}
	}
	if cond == tTrue || cond == tFalse {
		if x.dry > 0 {
			cond = freshConst("m", SBool)
		} else if cond == tTrue {
			// a's path condition is implied by b's; use the negated difference of b
			ina := map[*Term]bool{}
			for _, t := range ca {
				ina[t] = true
			}
			var db []*Term
			for _, t := range cb {
				if !ina[t] {
					db = append(db, t)
				}
			}
			cond = Not(And(db...))
		}
	}
	for c, va := range a.cells {
		if vb, ok := b.cells[c]; ok {
			n.cells[c] = x.mergeVal(cond, va, vb, a, b)
		}
	}
	var named []*Cell
	for c, v := range n.cells {
		if t, ok := v.(*Term); ok && t.op == "ite" {
			named = append(named, c)
		}
	}
	sort.Slice(named, func(i, j int) bool {
		ti, tj := n.cells[named[i]].(*Term), n.cells[named[j]].(*Term)
		return ti.id < tj.id
	})
	for _, c := range named {
		n.cells[c] = x.nameTerm(c.name, n.cells[c].(*Term))
	}
	for c, va := range a.regs {
		if vb, ok := b.regs[c]; ok {
			if v := x.mergeVal(cond, va, vb, a, b); v != nil {
				n.regs[c] = v
			}
		}
	}
	hs := map[string]bool{}
	for c := range a.heap {
		hs[c] = true
	}
	for c := range b.heap {
		hs[c] = true
	}
	var hn []string
	for c := range hs {
		hn = append(hn, c)
	}
	sort.Strings(hn)
	for _, c := range hn {
		if c == "next" {
			n.heap[c] = Ite(cond, x.next(a), x.next(b))
			continue
		}
		n.heap[c] = x.nameTerm("H."+c, Ite(cond, x.comp(a, c), x.comp(b, c)))
	}
	return n
}

// nameTerm gives a merged value a name, so that it can occur in patterns
func (x *Exec) nameTerm(hint string, t *Term) *Term {
	if x.dry > 0 || t.op != "ite" || t.bv != nil || t.sort == SBool || t.size < 8 {
		return t
	}
	if dt, ok := dtypes[t.sort]; ok && dt != nil && t.sort != SSlice {
		return t
	}
	c := freshConst(hint, t.sort)
	x.rawFact(Eq(c, t))
	return c
}

// ---- loops -----------------------------------------------------------------------

type loopInfo struct {
	rpo   []*ssa.BasicBlock
	order map[int]int
	body  map[int]map[int]bool // header index -> blocks
	isHdr map[int]bool
}

var loopCache = map[*ssa.Function]*loopInfo{}

func loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	li := &loopInfo{order: map[int]int{}, body: map[int]map[int]bool{}, isHdr: map[int]bool{}}
	seen := map[int]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i].Index] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.order[post[i].Index] = len(li.rpo)
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if li.order[s.Index] <= li.order[b.Index] {
				if !s.Dominates(b) {
					panic(execErr{"irreducible control flow in " + fn.String()})
				}
				h := s.Index
				li.isHdr[h] = true
				if li.body[h] == nil {
					li.body[h] = map[int]bool{h: true}
				}
				var up func(b *ssa.BasicBlock)
				up = func(b *ssa.BasicBlock) {
					if li.body[h][b.Index] {
						return
					}
					li.body[h][b.Index] = true
					for _, p := range b.Preds {
						if seen[p.Index] {
							up(p)
						}
					}
				}
				up(b)
			}
		}
	}
	loopCache[fn] = li
	return li
}

// ---- function bodies ------------------------------------------------------------------

func (x *Exec) runFn(fr *Frame, st *State) (*State, []Value) {
	if len(fr.fn.Blocks) == 0 {
		x.fail("function %s has no body", fr.fn)
	}
	if x.depth > 40 {
		x.fail("inlining too deep (recursion without contract?) at %s", fr.fn)
	}
	x.depth++
	defer func() { x.depth-- }()
	fr.cells = map[*ssa.Alloc]Value{}
	fr.edges = map[[2]int]*State{}
	fr.loops = map[int]*LoopInst{}
	fr.li = loopsOf(fr.fn)
	// registers are per-frame; keep caller registers separate
	saved := st.regs
	st = st.clone()
	st.regs = map[ssa.Value]Value{}
	for i, p := range fr.fn.Params {
		st.regs[p] = fr.args[i]
	}
	for i, f := range fr.fn.FreeVars {
		st.regs[f] = fr.free[i]
	}
	fr.st = st
	x.runBlocks(fr, fr.li.rpo, st, nil)
	if len(fr.rets) == 0 {
		d := st.clone()
		d.pc = tFalse
		d.regs = saved
		var res []Value
		rs := fr.fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			res = append(res, x.freshVal(d, rs.At(i).Type(), "noret"))
		}
		return d, res
	}
	if fr.onRet != nil {
		for _, r := range fr.rets {
			if r.st.pc != tFalse {
				fr.onRet(r.st.clone(), r.res)
			}
		}
		if fr.rec != nil {
			x.panicReturn(fr)
		}
	}
	// merge returns
	for i := range fr.rets {
		for j, v := range fr.rets[i].res {
			fr.rets[i].st.regs = map[ssa.Value]Value{}
			_ = j
			_ = v
		}
	}
	ms := fr.rets[0].st
	res := append([]Value{}, fr.rets[0].res...)
	for _, r := range fr.rets[1:] {
		if x.dry == 0 {
			if r.st.pc == tFalse {
				continue
			}
			if ms.pc == tFalse {
				ms, res = r.st, append([]Value{}, r.res...)
				continue
			}
		}
		// carry results through a tuple cell
		rc := &Cell{name: "ret"}
		a, b := ms.clone(), r.st.clone()
		a.cells[rc], b.cells[rc] = Tuple(res), Tuple(r.res)
		ms = x.merge2(a, b)
		res = append([]Value{}, ms.cells[rc].(Tuple)...)
		delete(ms.cells, rc)
	}
	ms = ms.clone()
	ms.regs = saved
	return ms, res
}

// runBlocks executes the given blocks in reverse postorder; region restricts
// to a loop body (dry runs and unrolling).
func (x *Exec) runBlocks(fr *Frame, blocks []*ssa.BasicBlock, entry *State, region map[int]bool) {
	for _, b := range blocks {
		if region != nil && !region[b.Index] {
			continue
		}
		var ins []*State
		first := b == blocks[0] || region != nil && entry != nil && b.Index == minOrder(fr.li, region)
		if first && entry != nil {
			ins = append(ins, entry)
			entry = nil
		} else {
			for pi, p := range b.Preds {
				if fr.li.order[p.Index] >= fr.li.order[b.Index] && fr.li.isHdr[b.Index] {
					continue // back edge
				}
				if s, ok := fr.edges[[2]int{p.Index, b.Index}]; ok && s != nil {
					// phi values
					s2 := s
					if hasPhi(b) {
						s2 = s.clone()
						for _, in := range b.Instrs {
							ph, ok := in.(*ssa.Phi)
							if !ok {
								break
							}
							s2.regs[ph] = x.val(fr, s, ph.Edges[pi])
						}
					}
					ins = append(ins, s2)
				}
			}
		}
		if len(ins) == 0 {
			continue
		}
		st := x.merge(ins)
		if st == nil || st.pc == tFalse && x.dry == 0 {
			continue
		}
		st = st.clone()
		if fr.li.isHdr[b.Index] && !(first && region != nil) {
			st = x.enterLoop(fr, b, st)
			if st == nil {
				continue
			}
		}
		x.runBlock(fr, b, st)
	}
}
func minOrder(li *loopInfo, region map[int]bool) int {
	best, bi := -1, -1
	for i := range region {
		if best == -1 || li.order[i] < best {
			best, bi = li.order[i], i
		}
	}
	return bi
}
func hasPhi(b *ssa.BasicBlock) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	_, ok := b.Instrs[0].(*ssa.Phi)
	return ok
}

func (x *Exec) loopSpec(fr *Frame, b *ssa.BasicBlock) (*LoopSpec, int) {
	k := fmt.Sprintf("%s@%d", fr.key, b.Index)
	ord, ok := x.loopOrd[k]
	if !ok {
		ord = x.loopN
		x.loopN++
		x.loopOrd[k] = ord
	}
	if x.spec == nil {
		return nil, ord
	}
	return x.spec.loops[fmt.Sprintf("%d", ord)], ord
}

func (x *Exec) enterLoop(fr *Frame, b *ssa.BasicBlock, st *State) *State {
	ls, ord := x.loopSpec(fr, b)
	li := &LoopInst{ord: ord, fr: fr, header: b, spec: ls, entry: st.clone()}
	fr.loops[b.Index] = li
	region := fr.li.body[b.Index]
	if x.dry > 0 {
		if n := len(x.dryHead); n > 0 && x.dryHead[n-1] == b {
			return st
		}
		// inner loop: what it writes, then go on from an arbitrary iteration
		ws := x.dryRun(fr, b, st, li, region)
		return x.havocLoop(st, ws)
	}
	if ls != nil && ls.unroll > 0 {
		return x.unrollLoop(fr, b, st, li, region)
	}
	name := fmt.Sprintf("loop%d", ord)
	for _, in := range b.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if it, ok := st.regs[nx.Iter].(*MapIter); ok {
				li.iter = it
			}
		}
	}
	if ls != nil {
		ls.used = true
		if len(ls.init) > 0 {
			x.ghost(fr, st, ls.init, li)
		}
	}
	ws := x.dryRun(fr, b, st, li, region)
	if ls != nil {
		for _, inv := range ls.invs {
			g := x.evalBool(fr, st, inv.e, li)
			x.obligeAssume(st, "invariant-init", name+"."+inv.name, g)
		}
	}
	// havoc
	mark := freshCnt
	nextE := x.next(st)
	hs := x.havocLoop(st, ws)
	// second pass over the unknown state: which objects are written
	ws2 := x.dryRun(fr, b, hs, li, region)
	for c := range ws2.heaps {
		if !ws.heaps[c] {
			x.fail("loop writes %s only in later iterations", c)
		}
	}
	for c := range ws2.cells {
		if _, ok := st.cells[c]; ok && !ws.cells[c] {
			x.fail("loop assigns %s only in later iterations", c.name)
		}
	}
	x.propagate(ws2)
	var hcs []string
	for c := range ws.heaps {
		if c != "next" {
			hcs = append(hcs, c)
		}
	}
	sort.Strings(hcs)
	for _, c := range hcs {
		o, n := x.comp(st, c), hs.heap[c]
		if ws2.heaps[c] && ws2.unk[c] {
			continue
		}
		// all written objects are known: new ones, and some that do not change in the loop
		var stable []*Term
		fresh, ok := ws2.freshW[c], true
		fields := map[int]bool{}
		for ref, fs := range ws2.refs[c] {
			if ws2.allocs[ref] {
				fresh = true
				continue
			}
			for k := range constsOf(ref) {
				if freshNo(k) > mark {
					ok = false
				}
			}
			for f := range fs {
				fields[f] = true
			}
			stable = append(stable, ref)
		}
		sort.Slice(stable, func(i, j int) bool { return stable[i].id < stable[j].id })
		r := bvar("r", SInt)
		cond := tTrue
		if fresh {
			cond = Lt(r, nextE)
		}
		if ok {
			cnd := cond
			for _, sr := range stable {
				cnd = And(cnd, Ne(r, sr))
			}
			x.fact(hs, Forall([]*Term{r}, [][]*Term{{Select(n, r)}}, Implies(cnd, Eq(Select(n, r), Select(o, r)))))
		}
		if fields[-1] || len(fields) == 0 {
			continue
		}
		_, vs := splitArr(n.sort)
		d := dtypes[vs]
		elem := false
		if d == nil && strings.HasPrefix(vs, "(Array ") {
			_, es := splitArr(vs)
			d, elem = dtypes[es], true
		}
		if d == nil {
			continue
		}
		if !ok || len(stable) > 3 {
			stable = []*Term{r}
		}
		for _, sr := range stable {
			for f := range d.Fields {
				if fields[f] {
					continue
				}
				a, b := Select(n, sr), Select(o, sr)
				k := bvar("k", SInt)
				var vars []*Term
				if sr == r {
					vars = append(vars, r)
				}
				if elem {
					a, b = Select(a, k), Select(b, k)
					vars = append(vars, k)
				}
				g := Eq(Acc(d, f, a), Acc(d, f, b))
				if sr == r {
					g = Implies(cond, g)
				}
				if len(vars) > 0 {
					g = Forall(vars, [][]*Term{{a}}, g)
				}
				x.fact(hs, g)
			}
		}
	}
	if x.touched != nil {
		for c := range ws.heaps {
			x.touched[c] = true
		}
	}
	x.autoLoopFacts(fr, b, hs, li)
	if ls != nil {
		for _, inv := range ls.invs {
			x.fact(hs, x.evalBool(fr, hs, inv.e, li))
		}
		if ls.decreases != nil {
			li.dec0 = x.evalSpec(fr, hs, ls.decreases, li).t
		}
		if len(ls.begin) > 0 {
			x.ghost(fr, hs, ls.begin, li)
		}
	}
	return hs
}

// dryRun executes a loop body once, only to collect what it writes.
func (x *Exec) dryRun(fr *Frame, b *ssa.BasicBlock, st *State, li *LoopInst, region map[int]bool) *writeSet {
	ws := newWriteSet()
	savedWr, savedFacts, savedCalls := x.wr, len(x.facts), x.calls
	savedEdges, savedRets := fr.edges, fr.rets
	fr.edges, fr.rets = map[[2]int]*State{}, nil
	x.calls = map[string]int{}
	x.wr = ws
	x.dry++
	savedLoops := fr.loops
	fr.loops = map[int]*LoopInst{b.Index: li}
	x.dryHead = append(x.dryHead, b)
	ds := st.clone()
	x.runBlocks(fr, fr.li.rpo, ds, region)
	x.dryHead = x.dryHead[:len(x.dryHead)-1]
	fr.loops = savedLoops
	x.dry--
	x.wr = savedWr
	x.facts = x.facts[:savedFacts]
	fr.edges, fr.rets = savedEdges, savedRets
	x.calls = savedCalls
	return ws
}

func newWriteSet() *writeSet {
	return &writeSet{cells: map[*Cell]bool{}, heaps: map[string]bool{}, fresh: map[string]bool{}, allocs: map[*Term]bool{}, newC: map[*Cell]bool{},
		unk: map[string]bool{}, refs: map[string]map[*Term]map[int]bool{}, freshW: map[string]bool{}}
}

// propagate adds the writes of an inner piece of code to the write set being collected
func (x *Exec) propagate(ws *writeSet) {
	if x.wr == nil {
		return
	}
	for c := range ws.cells {
		x.wr.cells[c] = true
	}
	for c := range ws.heaps {
		x.wr.heaps[c] = true
		if c != "next" {
			if o, ok := x.wr.fresh[c]; ok {
				x.wr.fresh[c] = o && ws.fresh[c]
			} else {
				x.wr.fresh[c] = ws.fresh[c]
			}
		}
	}
	for c := range ws.unk {
		x.wr.unk[c] = true
	}
	for c := range ws.freshW {
		x.wr.freshW[c] = true
	}
	for c, rs := range ws.refs {
		for r, fs := range rs {
			for f := range fs {
				x.wr.addRef(c, r, f)
			}
		}
	}
	x.wr.alloc = x.wr.alloc || ws.alloc
	for a := range ws.allocs {
		x.wr.allocs[a] = true
	}
}
func (w *writeSet) addRef(c string, r *Term, f int) {
	if w.refs[c] == nil {
		w.refs[c] = map[*Term]map[int]bool{}
	}
	if w.refs[c][r] == nil {
		w.refs[c][r] = map[int]bool{}
	}
	w.refs[c][r][f] = true
}

// havocLoop: the state at the head of a loop in some later iteration
func (x *Exec) havocLoop(st *State, ws *writeSet) *State {
	hs := st.clone()
	if ws.alloc {
		x.bumpNext(hs)
	}
	var cells []*Cell
	for c := range ws.cells {
		if _, ok := st.cells[c]; ok {
			cells = append(cells, c)
		}
	}
	sort.Slice(cells, func(i, j int) bool {
		if cells[i].name != cells[j].name {
			return cells[i].name < cells[j].name
		}
		return fmt.Sprint(cells[i].typ) < fmt.Sprint(cells[j].typ)
	})
	for _, c := range cells {
		old := st.cells[c]
		switch o := old.(type) {
		case *Closure, *MapIter:
			x.fail("loop reassigns function value %s", c.name)
		case *CellArr:
			hs.cells[c] = &CellArr{make([]Value, len(o.elems))}
			continue
		case *IfaceV:
			_ = o
		}
		var v *Term
		if c.typ != nil {
			v = freshConst(c.name, sortOf(c.typ))
			x.fact(hs, refFacts(c.typ, v, x.next(hs)))
		} else {
			v = freshConst(c.name, x.term(st, old).sort)
		}
		hs.cells[c] = v
	}
	var hcs []string
	for c := range ws.heaps {
		if c != "next" {
			hcs = append(hcs, c)
		}
	}
	sort.Strings(hcs)
	for _, c := range hcs {
		x.comp(st, c)
		n := freshConst("H."+c, compSort[c])
		hs.heap[c] = n
		x.heapWF(c, n, x.next(hs))
	}
	return hs
}
func freshNo(c *Term) int {
	i := strings.LastIndexByte(c.op, '!')
	if i < 0 {
		return 0
	}
	n, err := strconv.Atoi(c.op[i+1:])
	if err != nil {
		return 0
	}
	return n
}

// autoLoopFacts: range index bounds and map-iteration facts
func (x *Exec) autoLoopFacts(fr *Frame, b *ssa.BasicBlock, st *State, li *LoopInst) {
	// rangeindex pattern: t0 = *rangeindex; t1 = t0 + 1; *rangeindex = t1; t2 = t1 < tlen; if t2
	var idx *ssa.Alloc
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.UnOp:
			if a, ok := in.X.(*ssa.Alloc); ok && in.Op == token.MUL && a.Comment == "rangeindex" {
				idx = a
			}
		case *ssa.BinOp:
			if in.Op == token.LSS && idx != nil {
				if p, ok := fr.cells[idx].(*Ptr); ok {
					i, ok1 := st.cells[p.cell].(*Term)
					n, ok2 := st.regs[in.Y].(*Term)
					if ok1 && ok2 {
						x.fact(st, And(Le(intT(-1), i), Implies(Le(intT(0), n), Lt(i, n))))
					} else if ok1 {
						x.fact(st, Le(intT(-1), i))
						if c, isC := in.Y.(*ssa.Const); isC {
							x.fact(st, Lt(i, x.constTerm(c)))
						}
					}
				}
			}
		case *ssa.Next:
			if it, ok := st.regs[in.Iter].(*MapIter); ok && it.visited != nil {
				vis := x.term(st, st.cells[it.visited])
				k := bvar("k", sortOf(it.m.Key()))
				x.fact(st, Forall([]*Term{k}, [][]*Term{{Select(vis, k)}}, Implies(Select(vis, k), Select(it.dom0, k))))
				li.iter = it
			} else if ok && it.pos != nil {
				p := x.term(st, st.cells[it.pos])
				declStr()
				x.fact(st, And(Le(intT(0), p), Le(p, app("strlen", it.strv))))
				li.iter = it
			}
		}
	}
}

func (x *Exec) backEdge(fr *Frame, h *ssa.BasicBlock, st *State) {
	li := fr.loops[h.Index]
	if x.dry > 0 || li == nil {
		return
	}
	if li.spec == nil || st.pc == tFalse {
		return
	}
	name := fmt.Sprintf("loop%d", li.ord)
	if len(li.spec.end) > 0 {
		li.atEnd = true
		x.ghost(fr, st, li.spec.end, li)
		li.atEnd = false
	}
	x.cover(st, name+" body end reachable")
	n := len(x.facts)
	for _, inv := range li.spec.invs {
		g := x.evalBool(fr, st, inv.e, li)
		x.obligeAssume(st, "invariant-kept", name+"."+inv.name, g)
	}
	if li.dec0 != nil {
		d := x.evalSpec(fr, st, li.spec.decreases, li).t
		x.oblige(st, "termination", name+".decreases", And(Le(intT(0), li.dec0), Lt(d, li.dec0)))
	}
	x.facts = x.facts[:n]
}

// unrollLoop runs the loop body k times; leaving states are collected, and an
// obligation states that no further iteration is needed.
func (x *Exec) unrollLoop(fr *Frame, b *ssa.BasicBlock, st *State, li *LoopInst, region map[int]bool) *State {
	li.spec.used = true
	exits := map[[2]int][]*State{}
	cur := st
	for k := 0; ; k++ {
		if k >= li.spec.unroll {
			x.oblige(cur, "unwinding", fmt.Sprintf("loop%d.unwinding", li.ord), tFalse)
			break
		}
		saved := fr.edges
		fr.edges = map[[2]int]*State{}
		li.unrollK = k + 1
		x.runBlocks(fr, fr.li.rpo, cur.clone(), region)
		var backs []*State
		for e, s := range fr.edges {
			if e[1] == b.Index {
				continue
			}
			if !region[e[1]] {
				exits[e] = append(exits[e], s)
			}
		}
		var keys [][2]int
		for e := range fr.edges {
			if e[1] == b.Index && region[e[0]] {
				keys = append(keys, e)
			}
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i][0] < keys[j][0] })
		for _, e := range keys {
			s := fr.edges[e]
			if s.pc != tFalse {
				backs = append(backs, s)
			}
		}
		fr.edges = saved
		if len(backs) == 0 {
			break
		}
		cur = x.merge(backs)
		if cur == nil || cur.pc == tFalse {
			break
		}
	}
	for e, ss := range exits {
		m := x.merge(ss)
		if m != nil {
			fr.edges[e] = m
		}
	}
	return nil
}

func (x *Exec) setEdge(fr *Frame, from, to *ssa.BasicBlock, st *State) {
	if fr.li.isHdr[to.Index] && fr.li.order[to.Index] <= fr.li.order[from.Index] {
		li := fr.loops[to.Index]
		if li != nil && li.spec != nil && li.spec.unroll > 0 && x.dry == 0 {
			fr.edges[[2]int{from.Index, to.Index}] = st
			return
		}
		x.backEdge(fr, to, st)
		return
	}
	// leaving loops: ghost "after"
	if x.dry == 0 {
		for h, li := range fr.loops {
			if li.spec != nil && len(li.spec.after) > 0 && fr.li.body[h][from.Index] && !fr.li.body[h][to.Index] && st.pc != tFalse {
				x.ghost(fr, st, li.spec.after, li)
			}
		}
	}
	k := [2]int{from.Index, to.Index}
	if o, ok := fr.edges[k]; ok && o != nil {
		st = x.merge2(o, st)
	}
	fr.edges[k] = st
}

func (x *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, st *State) {
	fr.block = b
	fr.st = st
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			x.curPos = in.Pos()
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := x.term(st, x.val(fr, st, in.Cond))
			t, e := st.clone(), st
			t.pc = And(st.pc, c)
			e.pc = And(st.pc, Not(c))
			if x.dry > 0 {
				if t.pc == tFalse || e.pc == tFalse {
					t.pc, e.pc = st.pc, st.pc
				}
			}
			if b.Succs[0] == b.Succs[1] {
				x.setEdge(fr, b, b.Succs[0], x.merge2(t, e))
			} else {
				x.setEdge(fr, b, b.Succs[0], t)
				x.setEdge(fr, b, b.Succs[1], e)
			}
			return
		case *ssa.Jump:
			x.setEdge(fr, b, b.Succs[0], st)
			return
		case *ssa.Return:
			var res []Value
			for _, r := range in.Results {
				v := x.val(fr, st, r)
				if cs, ok := v.(*CellSlice); ok {
					v = x.materialise(st, cs)
				}
				res = append(res, v)
			}
			if st.pc != tFalse || x.dry > 0 {
				fr.rets = append(fr.rets, retInfo{st, res})
			}
			return
		case *ssa.Panic:
			x.doPanic(fr, st, "explicit panic")
			return
		default:
			x.instr(fr, st, in)
			if st.pc == tFalse && x.dry == 0 {
				return
			}
		}
	}
}

// panicCond is the condition (over the entry state) under which the function under
// verification is allowed to panic
func (x *Exec) panicCond() *Term {
	if x.recovered {
		return tTrue
	}
	if x.spec == nil || x.spec.mayPanic == nil {
		return tFalse
	}
	return x.evalIn(&evalCtx{x: x, st: x.old, vars: x.params, old: x.old}, x.spec.mayPanic).t
}
func (x *Exec) doPanic(fr *Frame, st *State, why string) {
	if x.dry > 0 {
		return
	}
	x.oblige(st, "no-panic", why, x.panicCond())
}

func (x *Exec) val(fr *Frame, st *State, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Global:
		return &Ptr{glob: v, root: v.Type().Underlying().(*types.Pointer).Elem(), typ: v.Type().Underlying().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return &Builtin{v.Name()}
	}
	r, ok := st.regs[v]
	if !ok {
		x.fail("value %s of %s not available", v.Name(), fr.fn)
	}
	return r
}

func (x *Exec) constVal(c *ssa.Const) Value { return x.constTerm(c) }
func (x *Exec) constTerm(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return zeroTerm(t)
	}
	return constToTerm(c.Value, t)
}
func constToTerm(v constant.Value, t types.Type) *Term {
	switch sortOf(t) {
	case SBool:
		return boolT(constant.BoolVal(v))
	case SStr:
		return strLit(constant.StringVal(v))
	case SInt:
		n, ok := new(big.Int).SetString(constant.ToInt(v).ExactString(), 10)
		if !ok {
			panic(execErr{"constant " + v.String()})
		}
		return bigT(n)
	case SReal:
		r, ok := new(big.Rat).SetString(constant.ToFloat(v).ExactString())
		if !ok {
			panic(execErr{"constant " + v.String()})
		}
		return realT(r)
	}
	panic(execErr{"constant of type " + t.String()})
}

// freshVal: an arbitrary value of a Go type, with well-formedness facts
func (x *Exec) freshVal(st *State, t types.Type, hint string) *Term {
	v := freshConst(hint, sortOf(t))
	x.fact(st, refFacts(t, v, x.next(st)))
	return v
}

func (x *Exec) instr(fr *Frame, st *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		x.alloc(fr, st, in)
	case *ssa.Store:
		p := x.asPtr(x.val(fr, st, in.Addr), in.Addr.Type())
		x.nilCheck(st, p, in.Addr.Name())
		x.store(st, p, x.val(fr, st, in.Val))
	case *ssa.UnOp:
		st.regs[in] = x.unop(fr, st, in)
	case *ssa.BinOp:
		st.regs[in] = x.binop(fr, st, in)
	case *ssa.FieldAddr:
		p := x.asPtr(x.val(fr, st, in.X), in.X.Type())
		x.nilCheck(st, p, in.X.Name())
		stt := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		ft := stt.Field(in.Field).Type()
		if isRat(ft) || isBigInt(ft) || isBuf(ft) {
			x.fail("embedded big number or buffer field")
		}
		n := *p
		n.path = append(append([]pathEl{}, p.path...), pathEl{field: in.Field, typ: ft})
		n.typ = ft
		st.regs[in] = &n
	case *ssa.Field:
		v := x.term(st, x.val(fr, st, in.X))
		st.regs[in] = Acc(dtypes[v.sort], in.Field, v)
		x.wfVal(st, in.Type(), st.regs[in])
	case *ssa.IndexAddr:
		st.regs[in] = x.indexAddr(fr, st, in)
	case *ssa.Index:
		x.index(fr, st, in)
	case *ssa.Lookup:
		x.lookup(fr, st, in)
	case *ssa.MapUpdate:
		mt := in.Map.Type().Underlying().(*types.Map)
		m := x.term(st, x.val(fr, st, in.Map))
		x.obligeAssume(st, "no-panic", "assignment to nil map", Ne(m, intT(0)))
		x.mapSet(st, mt, m, x.term(st, x.val(fr, st, in.Key)), x.term(st, x.val(fr, st, in.Value)))
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		r := x.newRef(st)
		d, v := mapCt(mt)
		x.setComp(st, d, Store(x.comp(st, d), r, ConstArr(sortOf(mt.Key()), tFalse)), r)
		x.setComp(st, v, Store(x.comp(st, v), r, freshConst("mapinit", arrSort(sortOf(mt.Key()), sortOf(mt.Elem())))), r)
		st.regs[in] = r
	case *ssa.MakeSlice:
		et := in.Type().Underlying().(*types.Slice).Elem()
		n := x.term(st, x.val(fr, st, in.Len))
		c := x.term(st, x.val(fr, st, in.Cap))
		x.obligeAssume(st, "no-panic", "make: negative length or len > cap", And(Le(intT(0), n), Le(n, c)))
		r := x.newRef(st)
		ac := arrCt(et)
		x.setComp(st, ac, Store(x.comp(st, ac), r, ConstArr(SInt, zeroTerm(et))), r)
		st.regs[in] = Ctor(sliceDT, r, intT(0), n, c)
	case *ssa.Slice:
		st.regs[in] = x.sliceOp(fr, st, in)
	case *ssa.MakeInterface:
		v := x.val(fr, st, in.X)
		if cs, ok := v.(*CellSlice); ok {
			v = x.materialise(st, cs)
		}
		st.regs[in] = &IfaceV{in.X.Type(), v}
	case *ssa.ChangeInterface:
		st.regs[in] = x.val(fr, st, in.X)
	case *ssa.ChangeType:
		st.regs[in] = x.val(fr, st, in.X)
	case *ssa.Convert:
		st.regs[in] = x.convert(fr, st, in)
	case *ssa.MakeClosure:
		cl := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			cl.binds = append(cl.binds, x.val(fr, st, b))
		}
		st.regs[in] = cl
	case *ssa.TypeAssert:
		x.typeAssert(fr, st, in)
	case *ssa.Extract:
		v := x.val(fr, st, in.Tuple)
		tp, ok := v.(Tuple)
		if !ok {
			x.fail("extract from %T", v)
		}
		st.regs[in] = tp[in.Index]
	case *ssa.Range:
		x.rangeStart(fr, st, in)
	case *ssa.Next:
		x.rangeNext(fr, st, in)
	case *ssa.Call:
		x.call(fr, st, in)
	case *ssa.Defer:
		x.deferCall(fr, st, in)
	case *ssa.RunDefers:
		x.runDefers(fr, st, in.Block())
	default:
		x.fail("unsupported instruction %T", in)
	}
}

func (x *Exec) wfVal(st *State, t types.Type, v Value) {
	if tt, ok := v.(*Term); ok && tt.bv == nil {
		x.fact(st, refFacts(t, tt, x.next(st)))
	}
}

func (x *Exec) alloc(fr *Frame, st *State, in *ssa.Alloc) {
	el := in.Type().Underlying().(*types.Pointer).Elem()
	if isRat(el) || isBigInt(el) || isBuf(el) || (in.Heap && isStructT(el) && repoStruct(el)) {
		r := x.newRef(st)
		c := memCt(el)
		x.setComp(st, c, Store(x.comp(st, c), r, zeroTerm(el)), r)
		st.regs[in] = r
		fr.cells[in] = r
		return
	}
	c, ok := fr.cells[in].(*Ptr)
	if !ok {
		c = &Ptr{cell: &Cell{name: in.Comment, typ: el}, root: el, typ: el}
		fr.cells[in] = c
	}
	if at, ok := el.Underlying().(*types.Array); ok && (in.Comment == "varargs" || in.Comment == "slicelit") {
		ca := &CellArr{}
		for i := int64(0); i < at.Len(); i++ {
			ca.elems = append(ca.elems, zeroTerm(at.Elem()))
		}
		x.setCell(st, c.cell, ca)
	} else {
		x.setCell(st, c.cell, zeroTerm(el))
	}
	if x.wr != nil {
		x.wr.newC[c.cell] = true
	}
	st.regs[in] = c
}
func isStructT(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

func (x *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) Value {
	switch in.Op {
	case token.MUL:
		p := x.asPtr(x.val(fr, st, in.X), in.X.Type())
		x.nilCheck(st, p, in.X.Name())
		return x.load(st, p)
	case token.NOT:
		return Not(x.term(st, x.val(fr, st, in.X)))
	case token.SUB:
		return Neg(x.term(st, x.val(fr, st, in.X)))
	}
	x.fail("unary %s", in.Op)
	return nil
}

func (x *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) Value {
	av, bv := x.val(fr, st, in.X), x.val(fr, st, in.Y)
	// interface / function / pointer comparisons against nil
	if in.Op == token.EQL || in.Op == token.NEQ {
		var r *Term
		ia, oka := av.(*IfaceV)
		ib, okb := bv.(*IfaceV)
		switch {
		case oka && isNilConst(in.Y) || okb && isNilConst(in.X):
			r = tFalse
		case oka && okb && types.Identical(ia.dyn, ib.dyn):
			r = Eq(x.term(st, ia.v), x.term(st, ib.v))
		default:
			if c, ok := av.(*Closure); ok && isNilConst(in.Y) {
				_ = c
				r = tFalse
				break
			}
			if sl, ok := in.X.Type().Underlying().(*types.Slice); ok {
				_ = sl
				t := x.term(st, av)
				if isNilConst(in.X) {
					t = x.term(st, bv)
				}
				r = Eq(Acc(sliceDT, 0, t), intT(0))
				break
			}
			r = Eq(x.term(st, av), x.term(st, bv))
		}
		if in.Op == token.NEQ {
			r = Not(r)
		}
		return r
	}
	a, b := x.term(st, av), x.term(st, bv)
	switch in.Op {
	case token.ADD:
		if a.sort == SStr {
			return strCat(a, b)
		}
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		return Mul(a, b)
	case token.QUO:
		if a.sort == SInt {
			x.obligeAssume(st, "no-panic", "division by zero", Ne(b, intT(0)))
			return TDiv(a, b)
		}
		return RDiv(a, b)
	case token.REM:
		x.obligeAssume(st, "no-panic", "division by zero", Ne(b, intT(0)))
		return TMod(a, b)
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.GEQ:
		return Le(b, a)
	}
	x.fail("binary operator %s", in.Op)
	return nil
}
func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// ---- strings -------------------------------------------------------------------

func declStr() {
	declFun("strlen", SInt, SStr)
	declFun("strat", SInt, SStr, SInt)
	declFun("concat", SStr, SStr, SStr)
	declFun("substr", SStr, SStr, SInt, SInt)
}
func strCat(a, b *Term) *Term {
	declStr()
	if a == strLit("") {
		return b
	}
	if b == strLit("") {
		return a
	}
	if sa, ok := strNames[a.op]; ok {
		if sb, ok := strNames[b.op]; ok {
			return strLit(sa + sb)
		}
	}
	// right-associate
	if a.op == "concat" {
		return strCat(a.args[0], strCat(a.args[1], b))
	}
	return app("concat", a, b)
}
func strLen(s *Term) *Term {
	declStr()
	if n, ok := strNames[s.op]; ok {
		return intT(int64(len(n)))
	}
	if s.op == "concat" {
		return Add(strLen(s.args[0]), strLen(s.args[1]))
	}
	return app("strlen", s)
}
func (x *Exec) strLenF(st *State, s *Term) *Term {
	l := strLen(s)
	if s.bv == nil {
		x.rawFact(Le(intT(0), l))
		x.rawFact(Eq(Eq(l, intT(0)), Eq(s, strLit(""))))
	}
	return l
}
func (x *Exec) subStr(st *State, s, lo, hi *Term) *Term {
	declStr()
	if lo == intT(0) && hi == strLen(s) {
		return s
	}
	if lo == hi {
		return strLit("")
	}
	if n, ok := strNames[s.op]; ok {
		if l, ok := lo.intLit(); ok {
			if h, ok := hi.intLit(); ok && l.Sign() >= 0 && l.Cmp(h) <= 0 && h.Int64() <= int64(len(n)) {
				return strLit(n[l.Int64():h.Int64()])
			}
		}
	}
	// suffix of suffix
	if s.op == "substr" && hi == strLen(s) {
		// substr(substr(s0,a,b),lo,len) = substr(s0,a+lo,b), for lo within range
		return app("substr", s.args[0], Add(s.args[1], lo), s.args[2])
	}
	r := app("substr", s, lo, hi)
	if r.bv == nil {
		x.fact(st, Implies(And(Le(intT(0), lo), Le(lo, hi), Le(hi, strLen(s))), Eq(app("strlen", r), Sub(hi, lo))))
	}
	return r
}

// ---- indexing ------------------------------------------------------------------------

func (x *Exec) sliceParts(t *Term) (ref, off, ln, cp *Term) {
	return Acc(sliceDT, 0, t), Acc(sliceDT, 1, t), Acc(sliceDT, 2, t), Acc(sliceDT, 3, t)
}

func (x *Exec) indexAddr(fr *Frame, st *State, in *ssa.IndexAddr) Value {
	base := x.val(fr, st, in.X)
	idx := x.term(st, x.val(fr, st, in.Index))
	switch bt := in.X.Type().Underlying().(type) {
	case *types.Slice:
		if cs, ok := base.(*CellSlice); ok {
			x.obligeAssume(st, "no-panic", "index out of range", And(Le(intT(0), idx), Lt(idx, intT(int64(cs.n)))))
			return &Ptr{cell: cs.cell, root: nil, path: []pathEl{{idx: idx, typ: cs.elem}}, typ: cs.elem}
		}
		s := x.term(st, base)
		r, o, l, _ := x.sliceParts(s)
		x.obligeAssume(st, "no-panic", "index out of range", And(Le(intT(0), idx), Lt(idx, l)))
		return &Ptr{comp: arrCt(bt.Elem()), ref: r, idx: Add(o, idx), root: bt.Elem(), typ: bt.Elem()}
	case *types.Pointer:
		at := bt.Elem().Underlying().(*types.Array)
		p := x.asPtr(base, in.X.Type())
		x.obligeAssume(st, "no-panic", "index out of range", And(Le(intT(0), idx), Lt(idx, intT(at.Len()))))
		n := *p
		n.path = append(append([]pathEl{}, p.path...), pathEl{idx: idx, typ: at.Elem()})
		n.typ = at.Elem()
		return &n
	}
	x.fail("IndexAddr on %s", in.X.Type())
	return nil
}
func (x *Exec) index(fr *Frame, st *State, in *ssa.Index) {
	base := x.val(fr, st, in.X)
	idx := x.term(st, x.val(fr, st, in.Index))
	switch bt := in.X.Type().Underlying().(type) {
	case *types.Array:
		x.obligeAssume(st, "no-panic", "index out of range", And(Le(intT(0), idx), Lt(idx, intT(bt.Len()))))
		st.regs[in] = x.proj(st, base, pathEl{idx: idx, typ: bt.Elem()})
		return
	case *types.Basic:
		s := x.term(st, base)
		x.obligeAssume(st, "no-panic", "string index out of range", And(Le(intT(0), idx), Lt(idx, x.strLenF(st, s))))
		st.regs[in] = app("strat", s, idx)
		return
	}
	x.fail("index on %s", in.X.Type())
}

func (x *Exec) mapGet(st *State, mt *types.Map, m, k *Term) (v, ok *Term) {
	d, vc := mapCt(mt)
	ok = Select(Select(x.comp(st, d), m), k)
	if m.op != "next0" {
		ok = And(Ne(m, intT(0)), ok)
	}
	v = Ite(ok, Select(Select(x.comp(st, vc), m), k), zeroTerm(mt.Elem()))
	return
}
func (x *Exec) mapSet(st *State, mt *types.Map, m, k, v *Term) {
	d, vc := mapCt(mt)
	hd, hv := x.comp(st, d), x.comp(st, vc)
	x.setComp(st, d, Store(hd, m, Store(Select(hd, m), k, tTrue)), m)
	x.setComp(st, vc, Store(hv, m, Store(Select(hv, m), k, v)), m)
}

func (x *Exec) lookup(fr *Frame, st *State, in *ssa.Lookup) {
	if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
		m := x.term(st, x.val(fr, st, in.X))
		k := x.term(st, x.val(fr, st, in.Index))
		v, okt := x.mapGet(st, mt, m, k)
		x.wfVal(st, mt.Elem(), v)
		if in.CommaOk {
			st.regs[in] = Tuple{v, okt}
		} else {
			st.regs[in] = v
		}
		return
	}
	// string index
	s := x.term(st, x.val(fr, st, in.X))
	idx := x.term(st, x.val(fr, st, in.Index))
	x.obligeAssume(st, "no-panic", "string index out of range", And(Le(intT(0), idx), Lt(idx, x.strLenF(st, s))))
	declStr()
	st.regs[in] = app("strat", s, idx)
}

func (x *Exec) sliceOp(fr *Frame, st *State, in *ssa.Slice) Value {
	base := x.val(fr, st, in.X)
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.term(st, x.val(fr, st, v))
	}
	switch bt := in.X.Type().Underlying().(type) {
	case *types.Pointer: // array
		at := bt.Elem().Underlying().(*types.Array)
		if a, ok := in.X.(*ssa.Alloc); ok && a.Comment == "makeslice" && in.Low == nil && in.Max == nil {
			// make with constant sizes
			r := x.newRef(st)
			ac := arrCt(at.Elem())
			x.setComp(st, ac, Store(x.comp(st, ac), r, ConstArr(SInt, zeroTerm(at.Elem()))), r)
			return Ctor(sliceDT, r, intT(0), get(in.High, intT(at.Len())), intT(at.Len()))
		}
		p := x.asPtr(base, in.X.Type())
		if p.cell != nil && len(p.path) == 0 {
			if ca, ok := st.cells[p.cell].(*CellArr); ok && in.Low == nil && in.High == nil {
				return &CellSlice{cell: p.cell, n: len(ca.elems), elem: at.Elem()}
			}
		}
		x.fail("slicing an array variable")
	case *types.Slice:
		s := x.term(st, base)
		r, o, l, c := x.sliceParts(s)
		lo := get(in.Low, intT(0))
		hi := get(in.High, l)
		if in.Max != nil {
			x.fail("three-index slice")
		}
		// Only re-slicing within the length is modelled (growing into spare
		// capacity is a failed obligation).
		x.obligeAssume(st, "no-panic", "slice bounds out of range", And(Le(intT(0), lo), Le(lo, hi), Le(hi, l)))
		return Ctor(sliceDT, r, Add(o, lo), Sub(hi, lo), Sub(c, lo))
	case *types.Basic:
		s := x.term(st, base)
		n := x.strLenF(st, s)
		lo := get(in.Low, intT(0))
		hi := get(in.High, n)
		x.obligeAssume(st, "no-panic", "slice bounds out of range", And(Le(intT(0), lo), Le(lo, hi), Le(hi, n)))
		return x.subStr(st, s, lo, hi)
	}
	x.fail("slice of %s", in.X.Type())
	return nil
}

func (x *Exec) convert(fr *Frame, st *State, in *ssa.Convert) Value {
	v := x.term(st, x.val(fr, st, in.X))
	from, to := sortOf(in.X.Type()), sortOf(in.Type())
	ft, tt := in.X.Type().Underlying(), in.Type().Underlying()
	switch {
	case from == to && from != SOpq && from != SSlice:
		return v
	case from == SInt && to == SReal:
		if n, ok := v.intLit(); ok {
			return realT(new(big.Rat).SetInt(n))
		}
		return mk("to_real", SReal, v)
	case from == SReal && to == SInt:
		// truncation towards zero
		fl := mk("to_int", SInt, v)
		return Ite(Le(mk("%0", SReal), v), fl, Neg(mk("to_int", SInt, Neg(v))))
	case from == SInt && to == SStr:
		declFun("runestr", SStr, SInt)
		return app("runestr", v)
	case from == SStr && to == SSlice:
		r := x.newRef(st)
		el := tt.(*types.Slice).Elem()
		c := arrCt(el)
		n := "bytesof"
		ln := x.strLenF(st, v)
		if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			n = "runesof"
			declFun("runecount", SInt, SStr)
			ln = app("runecount", v)
			x.rawFact(And(Le(intT(0), ln), Eq(Eq(ln, intT(0)), Eq(v, strLit("")))))
		}
		declFun(n, arrSort(SInt, SInt), SStr)
		x.setComp(st, c, Store(x.comp(st, c), r, app(n, v)), r)
		return Ctor(sliceDT, r, intT(0), ln, ln)
	case from == SSlice && to == SStr:
		el := ft.(*types.Slice).Elem()
		n := "strof." + sanit(typeKey(el))
		c := arrCt(el)
		declFun(n, SStr, arrSort(SInt, SInt), SInt, SInt)
		rr, o, l, _ := x.sliceParts(v)
		return app(n, Select(x.comp(st, c), rr), o, l)
	}
	x.fail("conversion %s -> %s", in.X.Type(), in.Type())
	return nil
}

func (x *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) {
	v := x.val(fr, st, in.X)
	if iv, ok := v.(*IfaceV); ok {
		match := false
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			match = types.Implements(iv.dyn, it)
		} else {
			match = types.Identical(iv.dyn, in.AssertedType)
		}
		var rv Value = iv.v
		if types.IsInterface(in.AssertedType) {
			rv = iv
		}
		if in.CommaOk {
			if match {
				st.regs[in] = Tuple{rv, tTrue}
			} else {
				st.regs[in] = Tuple{zeroTerm(in.AssertedType), tFalse}
			}
		} else {
			x.obligeAssume(st, "no-panic", "type assertion", boolT(match))
			st.regs[in] = rv
		}
		return
	}
	t := x.term(st, v)
	n := sanit(types.TypeString(in.AssertedType, func(p *types.Package) string { return p.Name() }))
	declFun("is."+n, SBool, SIface)
	is := And(Ne(t, nilIface()), app("is."+n, t))
	if !types.IsInterface(in.AssertedType) {
		is = And(Ne(t, nilIface()), hasType(t, n))
	}
	var val *Term
	if types.IsInterface(in.AssertedType) {
		val = t
	} else {
		declFun("unbox."+n, sortOf(in.AssertedType), SIface)
		val = app("unbox."+n, t)
		x.wfVal(st, in.AssertedType, val)
	}
	if in.CommaOk {
		st.regs[in] = Tuple{Ite(is, val, zeroTerm(in.AssertedType)), is}
	} else {
		x.obligeAssume(st, "no-panic", "type assertion", is)
		st.regs[in] = val
	}
}

// ---- range over maps and strings ------------------------------------------------------

func (x *Exec) rangeStart(fr *Frame, st *State, in *ssa.Range) {
	if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
		m := x.term(st, x.val(fr, st, in.X))
		d, _ := mapCt(mt)
		dom := Ite(Eq(m, intT(0)), ConstArr(sortOf(mt.Key()), tFalse), Select(x.comp(st, d), m))
		it := &MapIter{visited: &Cell{name: "visited"}, ref: m, m: mt, dom0: dom}
		x.setCell(st, it.visited, ConstArr(sortOf(mt.Key()), tFalse))
		st.regs[in] = it
		return
	}
	s := x.term(st, x.val(fr, st, in.X))
	it := &MapIter{strv: s, pos: &Cell{name: "strpos"}}
	x.setCell(st, it.pos, intT(0))
	st.regs[in] = it
}
func declRune() {
	declStr()
	declFun("runeat", SInt, SStr, SInt)  // rune starting at byte position
	declFun("runelen", SInt, SStr, SInt) // its width
}
func (x *Exec) runeFacts(s, p *Term) (r, w *Term) {
	declRune()
	r, w = app("runeat", s, p), app("runelen", s, p)
	if s.bv == nil && p.bv == nil {
		x.rawFact(Implies(And(Le(intT(0), p), Lt(p, strLen(s))), And(Le(intT(1), w), Le(w, intT(4)), Le(Add(p, w), strLen(s)), Le(intT(0), r), Le(r, intT(0x10ffff)))))
	}
	return
}
func (x *Exec) rangeNext(fr *Frame, st *State, in *ssa.Next) {
	it := x.val(fr, st, in.Iter).(*MapIter)
	if it.strv != nil {
		p := x.term(st, st.cells[it.pos])
		ok := Lt(p, x.strLenF(st, it.strv))
		r, w := x.runeFacts(it.strv, p)
		st.regs[in] = Tuple{ok, p, r}
		x.setCell(st, it.pos, Ite(ok, Add(p, w), p))
		return
	}
	ks := sortOf(it.m.Key())
	k := freshConst("key", ks)
	ok := freshConst("more", SBool)
	d, vc := mapCt(it.m)
	dom := Select(x.comp(st, d), it.ref)
	vis := x.term(st, st.cells[it.visited])
	x.fact(st, Implies(ok, And(Ne(it.ref, intT(0)), Select(it.dom0, k), Select(dom, k), Not(Select(vis, k)))))
	q := bvar("k", ks)
	x.fact(st, Implies(Not(ok), Forall([]*Term{q}, [][]*Term{{Select(vis, q)}, {Select(it.dom0, q)}, {Select(dom, q)}}, Implies(And(Ne(it.ref, intT(0)), Select(it.dom0, q), Select(dom, q)), Select(vis, q)))))
	v := Select(Select(x.comp(st, vc), it.ref), k)
	x.wfVal(st, it.m.Key(), k)
	x.wfVal(st, it.m.Elem(), v)
	st.regs[in] = Tuple{ok, k, v}
	x.setCell(st, it.visited, Ite(ok, Store(vis, k, tTrue), vis))
}
