package main

// Calls: builtins, inlining, contracts, closures, deferred calls.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// funcKey names a function the way contracts do: pkg.Func or pkg.Type.Method
func funcKey(f *ssa.Function) string {
	if f.Parent() != nil {
		n := f.Name()
		return funcKey(f.Parent()) + "$" + n[strings.LastIndexByte(n, '$')+1:]
	}
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Name() + "."
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pk = f.Object().Pkg().Name() + "."
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return pk + n.Obj().Name() + "." + f.Name()
		}
	}
	return pk + f.Name()
}

func fullName(f *ssa.Function) string { return f.RelString(nil) }

func newExec(w *World, f *ssa.Function, sp *FuncSpec) *Exec {
	return &Exec{wrField: -1, w: w, top: f, spec: sp, snaps: map[string]*State{}, lets: map[string]SV{}, params: map[string]SV{},
		loopOrd: map[string]int{}, calls: map[string]int{}, inlined: map[string]bool{}, used: map[string]bool{}}
}

func inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), repoPrefix)
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return strings.HasPrefix(f.Object().Pkg().Path(), repoPrefix)
	}
	return false
}

func (x *Exec) call(fr *Frame, st *State, in *ssa.Call) {
	st.regs[in] = x.doCall(fr, st, &in.Call, in)
}
func (x *Exec) deferCall(fr *Frame, st *State, in *ssa.Defer) {
	if x.inLoop(fr, in.Block()) {
		x.fail("defer inside a loop")
	}
	fr.defers = append(fr.defers, in)
	if !recovers(in) {
		return
	}
	if !fr.isTop || fr.rec != nil {
		x.fail("recover in an inlined function, or twice")
	}
	// from here on a panic ends the function through its deferred calls
	fr.rec = in
	fr.recSt = st.clone()
	x.recovered = x.dry == 0
}

func (x *Exec) inLoop(fr *Frame, b *ssa.BasicBlock) bool {
	for _, body := range fr.li.body {
		if body[b.Index] {
			return true
		}
	}
	return false
}

// recovers: the deferred function literal calls recover
func recovers(d *ssa.Defer) bool {
	mc, ok := d.Call.Value.(*ssa.MakeClosure)
	var f *ssa.Function
	if ok {
		f = mc.Fn.(*ssa.Function)
	} else if f, ok = d.Call.Value.(*ssa.Function); !ok {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// runDefers runs the deferred calls registered on every path to block b, last one first
func (x *Exec) runDefers(fr *Frame, st *State, b *ssa.BasicBlock) {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		if d.Block() != b && !d.Block().Dominates(b) {
			if reaches(d.Block(), b) {
				x.fail("conditional defer")
			}
			continue
		}
		x.doCall(fr, st, &d.Call, nil)
	}
}
func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(c *ssa.BasicBlock) bool
	walk = func(c *ssa.BasicBlock) bool {
		if c == b {
			return true
		}
		if seen[c] {
			return false
		}
		seen[c] = true
		for _, s := range c.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(a)
}

// panicReturn: the return after a recovered panic. Everything the function may
// write has an arbitrary value.
func (x *Exec) panicReturn(fr *Frame) {
	st := fr.recSt.clone()
	if x.dry > 0 || st.pc == tFalse || fr.fn.Recover == nil {
		return
	}
	if len(fr.defers) > 0 && fr.defers[len(fr.defers)-1] != fr.rec {
		x.fail("defer after the one that recovers")
	}
	mod := map[string]bool{}
	all := map[string]bool{}
	for _, m := range x.spec.modifies {
		mod[m], all[m] = true, true
	}
	for t := range x.w.touchSet(fr.fn) {
		all[t] = true
	}
	next0 := x.next0()
	x.bumpNext(st)
	var cs []string
	for cn := range all {
		if cn != "next" {
			cs = append(cs, cn)
		}
	}
	sort.Strings(cs)
	for _, cn := range cs {
		o := x.comp(st, cn)
		n := freshConst("H."+cn, compSort[cn])
		if !mod[cn] {
			r := bvar("r", SInt)
			x.fact(st, Forall([]*Term{r}, [][]*Term{{Select(n, r)}}, Implies(Lt(r, next0), Eq(Select(n, r), Select(o, r)))))
		}
		st.heap[cn] = n
		x.heapWF(cn, n, x.next(st))
	}
	for c, v := range st.cells {
		if t, ok := v.(*Term); ok {
			st.cells[c] = freshConst("panicked."+c.name, t.sort)
		}
	}
	x.panicVal = freshConst("panicval", SIface)
	x.fact(st, Ne(x.panicVal, nilIface()))
	x.runDefers(fr, st, fr.rec.Block())
	x.panicVal = nil
	fr.block = fr.fn.Recover
	for _, in := range fr.fn.Recover.Instrs {
		if r, ok := in.(*ssa.Return); ok {
			var res []Value
			for _, v := range r.Results {
				res = append(res, x.val(fr, st, v))
			}
			fr.onRet(st, res)
			return
		}
		x.instr(fr, st, in)
	}
}

func ret(vs []Value) Value {
	if len(vs) == 1 {
		return vs[0]
	}
	return Tuple(vs)
}

func (x *Exec) doCall(fr *Frame, st *State, c *ssa.CallCommon, in *ssa.Call) Value {
	var args []Value
	for _, a := range c.Args {
		args = append(args, x.val(fr, st, a))
	}
	if c.IsInvoke() {
		recv := x.val(fr, st, c.Value)
		if iv, ok := recv.(*IfaceV); ok {
			// known dynamic type
			m := x.w.prog.LookupMethod(iv.dyn, c.Method.Pkg(), c.Method.Name())
			if m != nil {
				return x.callFn(fr, st, m, append([]Value{iv.v}, args...), nil, in)
			}
		}
		x.obligeAssume(st, "no-panic", "nil interface call", Ne(x.term(st, recv), nilIface()))
		key := ifaceKey(c)
		return x.callKey(fr, st, key, c, append([]Value{recv}, args...), in)
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		return x.builtin(fr, st, v.Name(), c, args, in)
	case *ssa.Function:
		return x.callFn(fr, st, v, args, nil, in)
	}
	f := x.val(fr, st, c.Value)
	if cl, ok := f.(*Closure); ok && cl.fn != nil {
		return x.callFn(fr, st, cl.fn, args, cl.binds, in)
	}
	// unknown function value: deterministic, without effect on the heap under verification
	t := x.term(st, f)
	var ts []*Term
	for _, a := range args {
		ts = append(ts, x.term(st, a))
	}
	x.w.trusted["callback"] = "functions passed as parameters of verified functions are deterministic, do not panic and do not write memory the verified code reads"
	rs := x.fnApply(c.Signature(), t, ts)
	var vs []Value
	for i, r := range rs {
		x.wfVal(st, c.Signature().Results().At(i).Type(), r)
		vs = append(vs, r)
	}
	return ret(vs)
}
func ifaceKey(c *ssa.CallCommon) string {
	t := types.Unalias(c.Value.Type())
	if n, ok := t.(*types.Named); ok {
		pk := ""
		if n.Obj().Pkg() != nil {
			pk = n.Obj().Pkg().Name() + "."
		}
		return pk + n.Obj().Name() + "." + c.Method.Name()
	}
	return "iface." + c.Method.Name()
}

func sigName(sig *types.Signature) string {
	var b strings.Builder
	for i := 0; i < sig.Params().Len(); i++ {
		b.WriteString(sanit(sortOf(sig.Params().At(i).Type())) + ".")
	}
	b.WriteString("to")
	for i := 0; i < sig.Results().Len(); i++ {
		b.WriteString("." + sanit(sortOf(sig.Results().At(i).Type())))
	}
	return b.String()
}

// fnApply: application of an opaque function value
func (x *Exec) fnApply(sig *types.Signature, f *Term, args []*Term) []*Term {
	var out []*Term
	ss := []Sort{f.sort}
	for _, a := range args {
		ss = append(ss, a.sort)
	}
	for i := 0; i < sig.Results().Len(); i++ {
		n := fmt.Sprintf("apply%d.%s", i, sigName(sig))
		declFun(n, sortOf(sig.Results().At(i).Type()), ss...)
		out = append(out, app(n, append([]*Term{f}, args...)...))
	}
	return out
}

// closureTerm gives a closure an opaque name together with its meaning as a
// function of its arguments in the current state.
func (x *Exec) closureTerm(st *State, cl *Closure) *Term {
	if cl.term != nil {
		return cl.term
	}
	cl.term = freshConst("fn", SOpq)
	sig := cl.fn.Signature
	var bs []*Term
	var args []Value
	for i := 0; i < sig.Params().Len(); i++ {
		b := bvar("a", sortOf(sig.Params().At(i).Type()))
		bs = append(bs, b)
		args = append(args, b)
	}
	if len(bs) == 0 || !capturedConstant(cl.fn) {
		return cl.term
	}
	var bt []*Term
	bt = append(bt, bs...)
	if sp := x.w.contract(funcKey(cl.fn)); sp != nil && (sp.returns != nil || len(sp.ensures) > 0) {
		// a closure under contract: its result is what the contract says
		vars := map[string]SV{}
		for i, b := range bt {
			vars[cl.fn.Params[i].Name()] = SV{t: b, typ: sig.Params().At(i).Type()}
		}
		for i, f := range cl.fn.FreeVars {
			pt := f.Type().Underlying().(*types.Pointer)
			v := x.load(st, x.asPtr(cl.binds[i], f.Type()))
			if _, isCl := v.(*Closure); !isCl {
				vars[f.Name()] = SV{t: x.term(st, v), typ: pt.Elem()}
			}
		}
		c := &evalCtx{x: x, st: st, old: st, vars: vars, noLocal: true}
		if x.used != nil {
			x.used["func "+sp.key] = true
		}
		pre := tTrue
		for _, r := range sp.requires {
			pre = And(pre, c.eval(r.e).t)
		}
		ap := x.fnApply(sig, cl.term, bt)
		for i, a := range ap {
			c.results = append(c.results, SV{t: a, typ: sig.Results().At(i).Type()})
		}
		post := tTrue
		if sp.returns != nil {
			post = Eq(ap[0], c.eval(sp.returns).t)
		}
		for _, r := range sp.ensures {
			post = And(post, c.eval(r.e).t)
		}
		if readsHeap(st, pre) || readsHeap(st, post) {
			return cl.term
		}
		for i := range ap {
			x.rawFact(Forall(bs, [][]*Term{{ap[i]}}, Implies(pre, post)))
		}
		return cl.term
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(execErr); !ok {
				panic(e)
			}
			// meaning not available
		}
	}()
	res, ok := x.pureCall(st, cl, args)
	if !ok {
		return cl.term
	}
	for _, r := range res {
		if readsHeap(st, r) {
			return cl.term
		}
	}
	ap := x.fnApply(sig, cl.term, bt)
	for i := range ap {
		x.rawFact(Forall(bs, [][]*Term{{ap[i]}}, Eq(ap[i], res[i])))
	}
	return cl.term
}

// readsHeap: a value that depends on the heap at the time the closure is made
// is not a function of the arguments alone, the heap may have changed when the
// closure is called.
func readsHeap(st *State, t *Term) bool {
	hs := map[*Term]bool{}
	for k, h := range st.heap {
		if k != "next" {
			hs[h] = true
		}
	}
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if hs[t] {
			return true
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// capturedConstant: every captured variable is stored to at most once (its
// initialisation) in all of the functions that can see it.
func capturedConstant(fn *ssa.Function) bool {
	parent := fn.Parent()
	if parent == nil {
		return true
	}
	root := parent
	for root.Parent() != nil {
		root = root.Parent()
	}
	// stores by variable identity: follow free variables to the alloc
	stores := map[ssa.Value]int{}
	var resolve func(v ssa.Value) ssa.Value
	resolve = func(v ssa.Value) ssa.Value {
		fv, ok := v.(*ssa.FreeVar)
		if !ok {
			return v
		}
		f := fv.Parent()
		for i, g := range f.FreeVars {
			if g != fv {
				continue
			}
			for _, b := range f.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
						return resolve(mc.Bindings[i])
					}
				}
			}
		}
		return v
	}
	escapes := map[ssa.Value]bool{}
	plain := func(v ssa.Value) {
		for _, ref := range *v.Referrers() {
			switch r := ref.(type) {
			case *ssa.Store:
				if r.Addr == v && r.Val != v {
					continue
				}
			case *ssa.UnOp, *ssa.MakeClosure, *ssa.DebugRef:
				continue
			}
			escapes[resolve(v)] = true
		}
	}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		for _, fv := range f.FreeVars {
			plain(fv)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok {
					plain(a)
				}
				if s, ok := in.(*ssa.Store); ok {
					stores[resolve(s.Addr)]++
				}
			}
		}
		for _, a := range f.AnonFuncs {
			scan(a)
		}
	}
	scan(root)
	for _, fv := range fn.FreeVars {
		if stores[resolve(fv)] > 1 || escapes[resolve(fv)] {
			return false
		}
	}
	return true
}

// pureCall executes a function symbolically on (possibly bound-variable)
// arguments, requiring that it writes nothing; no obligations are produced.
func (x *Exec) pureCall(st *State, cl *Closure, args []Value) ([]*Term, bool) {
	x.noObl++
	defer func() { x.noObl-- }()
	savedWr, savedT := x.wr, x.touched
	x.wr = newWriteSet()
	x.touched = map[string]bool{}
	defer func() { x.wr, x.touched = savedWr, savedT }()
	s := st.clone()
	pc := s.pc
	s.pc = tTrue
	nf := len(x.facts)
	fr := &Frame{fn: cl.fn, args: args, free: cl.binds, key: fmt.Sprintf("pure%p", cl.fn)}
	savedSpec := x.spec
	x.spec = nil
	out, res := x.runFn(fr, s)
	x.spec = savedSpec
	// facts mentioning bound variables would be ill-formed outside; drop those
	var keep []*Term
	for _, f := range x.facts[nf:] {
		if f.bv == nil {
			keep = append(keep, Implies(pc, f))
		}
	}
	x.facts = append(x.facts[:nf], keep...)
	for h := range x.wr.heaps {
		if h != "next" && !x.wr.fresh[h] {
			return nil, false
		}
	}
	for c := range x.wr.cells {
		if _, ok := st.cells[c]; ok {
			return nil, false
		}
	}
	_ = out
	var ts []*Term
	for _, r := range res {
		ts = append(ts, x.term(s, r))
	}
	return ts, true
}

func (x *Exec) callFn(fr *Frame, st *State, f *ssa.Function, args []Value, free []Value, in *ssa.Call) Value {
	if f.Synthetic != "" && f.Origin() != nil {
		x.fail("generic function %s", f)
	}
	key := funcKey(f)
	name := fullName(f)
	if m, ok := models[name]; ok {
		x.useModel(name)
		sn := shortName(name)
		n := x.nextCall(sn)
		x.atCall(fr, st, sn, n, true, nil)
		r := m(x, fr, st, in, args)
		x.atCall(fr, st, sn, n, false, nil)
		return r
	}
	if m, ok := pureModels[name]; ok {
		sn := shortName(name)
		n := x.nextCall(sn)
		bind := func() {
			ec := &evalCtx{x: x, fr: fr, st: st, old: x.old, vars: x.lets}
			off := len(args) - f.Signature.Params().Len()
			for i := 0; i < f.Signature.Params().Len(); i++ {
				x.lets["$"+f.Signature.Params().At(i).Name()] = ec.sv(args[i+off], f.Signature.Params().At(i).Type())
			}
		}
		x.atCall(fr, st, sn, n, true, bind)
		r := x.pureExt(st, name, m, f.Signature, args)
		x.atCall(fr, st, sn, n, false, func() {
			bind()
			if f.Signature.Results().Len() == 1 {
				ec := &evalCtx{x: x, fr: fr, st: st, old: x.old, vars: x.lets}
				x.lets["$result"] = ec.sv(r, f.Signature.Results().At(0).Type())
			}
		})
		return r
	}
	if f.Parent() == nil {
		if sp := x.w.contract(key); sp != nil && (x.spec == nil || !x.spec.inline[key]) && !(x.spec != nil && x.spec.opts["inlineall"]) {
			return x.callContract(fr, st, sp, f, args, in)
		}
	}
	if len(f.Blocks) > 0 && (inRepo(f) || f.Synthetic != "") {
		n := x.nextCall(key)
		x.atCall(fr, st, key, n, true, nil)
		pos := 0
		if in != nil {
			pos = int(in.Pos())
		}
		if f.Parent() == nil {
			x.inlined[key] = true
		}
		nf := &Frame{fn: f, parent: fr, args: args, free: free, key: fmt.Sprintf("%s/%d:%s", fr.key, pos, f.Name())}
		savedBlock := fr.block
		s2, res := x.runFn(nf, st)
		fr.block = savedBlock
		// write back
		st.pc, st.cells, st.heap = s2.pc, s2.cells, s2.heap
		x.atCall(fr, st, key, n, false, nil)
		return ret(res)
	}
	x.fail("call of %s: no body, contract or model", name)
	return nil
}

func (x *Exec) callKey(fr *Frame, st *State, key string, c *ssa.CallCommon, args []Value, in *ssa.Call) Value {
	if m, ok := models["iface:"+key]; ok {
		x.useModel("interface method " + key)
		return m(x, fr, st, in, args)
	}
	if sp := x.w.contract(key); sp != nil {
		names := append([]string{"self"}, sigNames(c.Signature())...)
		bind := func() {
			ec := &evalCtx{x: x, fr: fr, st: st, old: x.old, vars: x.lets}
			x.lets["$self"] = SV{t: x.term(st, args[0])}
			for i := 0; i < c.Signature().Params().Len(); i++ {
				x.lets["$"+names[i+1]] = ec.sv(args[i+1], c.Signature().Params().At(i).Type())
			}
		}
		n := x.nextCall(key)
		x.atCall(fr, st, key, n, true, bind)
		r := x.callContractSig(fr, st, sp, key, c.Signature(), names, args, nil)
		x.atCall(fr, st, key, n, false, bind)
		return r
	}
	x.fail("interface method %s: no contract or model", key)
	return nil
}
func sigNames(sig *types.Signature) []string {
	var out []string
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, sig.Params().At(i).Name())
	}
	return out
}

func (w *World) contract(key string) *FuncSpec {
	if sp, ok := w.specs.funcs[key]; ok {
		return sp
	}
	return nil
}

func (x *Exec) nextCall(key string) int {
	n := x.calls[key]
	x.calls[key] = n + 1
	return n
}

func (x *Exec) atCall(fr *Frame, st *State, key string, n int, before bool, bind func()) {
	if x.spec == nil || x.dry > 0 {
		return
	}
	short := key
	for _, a := range x.spec.ats {
		if a.before != before || !strings.HasPrefix(a.where, "call:") {
			continue
		}
		w := a.where[5:]
		if w == short || w == fmt.Sprintf("%s#%d", short, n) {
			a.used = true
			if bind != nil {
				bind()
			}
			var li *LoopInst
			// innermost enclosing loop instance
			for f := fr; f != nil && li == nil; f = f.parent {
				best := -1
				for h, l := range f.loops {
					if f.li.body[h][f.block.Index] && (best == -1 || len(f.li.body[h]) < len(f.li.body[best])) {
						best, li = h, l
					}
				}
			}
			x.ghost(fr, st, a.stmts, li)
		}
	}
}

func (x *Exec) callContract(fr *Frame, st *State, sp *FuncSpec, f *ssa.Function, args []Value, in *ssa.Call) Value {
	names := sp.params
	if len(names) == 0 {
		for _, p := range f.Params {
			names = append(names, p.Name())
		}
	}
	var touched map[string]bool
	if len(f.Blocks) > 0 && sp.trusted == "" {
		touched = x.w.touchSet(f)
	}
	key := funcKey(f)
	n := x.nextCall(key)
	// the arguments are named $param in ghost statements at the call
	bind := func() {
		c := &evalCtx{x: x, fr: fr, st: st, old: x.old, vars: x.lets}
		var ts []types.Type
		if r := f.Signature.Recv(); r != nil {
			ts = append(ts, r.Type())
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			ts = append(ts, f.Signature.Params().At(i).Type())
		}
		for i, t := range ts {
			if i < len(names) {
				x.lets["$"+names[i]] = c.sv(args[i], t)
			}
		}
	}
	x.atCall(fr, st, key, n, true, bind)
	r := x.callContractSig(fr, st, sp, key, f.Signature, names, args, touched)
	x.atCall(fr, st, key, n, false, func() {
		bind()
		c := &evalCtx{x: x, fr: fr, st: st, old: x.old, vars: x.lets}
		rs := f.Signature.Results()
		if t, ok := r.(Tuple); ok {
			for i := range t {
				x.lets[fmt.Sprintf("$result%d", i)] = c.sv(t[i], rs.At(i).Type())
			}
		} else if rs.Len() == 1 {
			x.lets["$result"] = c.sv(r, rs.At(0).Type())
		}
	})
	return r
}

func (x *Exec) callContractSig(fr *Frame, st *State, sp *FuncSpec, key string, sig *types.Signature, names []string, args []Value, touched map[string]bool) Value {
	if sp.trusted != "" {
		x.w.trusted["contract "+key] = sp.trusted
	}
	if x.used != nil {
		x.used["func "+sp.key] = true
	}
	vars := map[string]SV{}
	var ptypes []types.Type
	if r := sig.Recv(); r != nil {
		ptypes = append(ptypes, r.Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ptypes = append(ptypes, sig.Params().At(i).Type())
	}
	if len(ptypes) < len(args) { // interface receivers
		ptypes = append([]types.Type{nil}, ptypes...)
	}
	for i, a := range args {
		if i >= len(names) {
			break
		}
		if p, ok := a.(*Ptr); ok && (p.cell != nil || p.idx != nil || len(p.path) > 0) {
			for _, m := range sp.modifies {
				if m == memCt(p.typ) {
					x.fail("pointer to a part of an object passed to %s, which writes through it", key)
				}
			}
			t := freshConst("part", SInt)
			x.fact(st, Ne(t, intT(0)))
			vars[names[i]] = SV{t, ptypes[i], p}
			continue
		}
		vars[names[i]] = SV{t: x.term(st, a), typ: ptypes[i]}
		if ptypes[i] != nil {
			x.noteT(ptypes[i])
		}
	}
	c := &evalCtx{x: x, st: st, old: st, vars: vars, noLocal: true}
	for _, r := range sp.requires {
		x.obligeAssume(st, "precondition", key+"."+r.name, c.eval(r.e).t)
	}
	if sp.mayPanic != nil {
		cond := c.eval(sp.mayPanic).t
		if x.dry == 0 {
			x.oblige(st, "no-panic", key+" may panic", Implies(cond, x.panicCond()))
		}
	}
	if sp.returns != nil && len(sp.modifies) == 0 && sig.Results().Len() == 1 {
		v := c.eval(sp.returns)
		if v.t.sort == SBool || v.t.sort == sortOf(sig.Results().At(0).Type()) {
			return v.t
		}
	}
	old := st.clone()
	// effects
	mod := map[string]bool{}
	for _, m := range sp.modifies {
		mod[m] = true
	}
	all := map[string]bool{}
	for m := range mod {
		all[m] = true
	}
	for t := range touched {
		all[t] = true
	}
	for _, t := range sp.allocs {
		all[t] = true
		all["next"] = true
	}
	next0 := x.next(st)
	if all["next"] || sp.opts["allocates"] || len(sp.modifies) > 0 {
		x.bumpNext(st)
	}
	var cs []string
	for cn := range all {
		if cn != "next" {
			cs = append(cs, cn)
		}
	}
	sort.Strings(cs)
	for _, cn := range cs {
		o := x.comp(st, cn)
		n := freshConst("H."+cn, compSort[cn])
		if !mod[cn] {
			r := bvar("r", SInt)
			x.fact(st, Forall([]*Term{r}, [][]*Term{{Select(n, r)}}, Implies(Lt(r, next0), Eq(Select(n, r), Select(o, r)))))
			x.noteWriteFresh(cn)
		} else {
			x.noteWrite(cn, nil)
		}
		st.heap[cn] = n
		x.heapWF(cn, n, x.next(st))
	}
	var res []Value
	var rsv []SV
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := x.freshVal(st, t, "ret."+sanit(key))
		res = append(res, v)
		rsv = append(rsv, SV{t: v, typ: t})
	}
	c2 := &evalCtx{x: x, st: st, old: old, vars: vars, results: rsv, noLocal: true}
	if len(sp.results) > 0 {
		for i, n := range sp.results {
			vars[n] = rsv[i]
		}
	}
	for _, e := range sp.ensures {
		x.fact(st, c2.eval(e.e).t)
	}
	return ret(res)
}

func (x *Exec) noteWriteFresh(c string) {
	if x.touched != nil {
		x.touched[c] = true
	}
	if x.wr != nil {
		if _, ok := x.wr.fresh[c]; !ok {
			x.wr.fresh[c] = true
		}
		x.wr.freshW[c] = true
		x.wr.heaps[c] = true
	}
}

func (x *Exec) noteT(t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if isStructT(u.Elem()) && repoStruct(u.Elem()) {
			noteGo(u.Elem())
		}
	case *types.Struct:
		if repoStruct(t) {
			noteGo(t)
		}
	case *types.Slice:
		x.noteT(u.Elem())
	}
}

// touchSet computes the heap components a function (with its callees) may touch.
func (w *World) touchSet(f *ssa.Function) map[string]bool {
	if t, ok := w.touch[f]; ok {
		return t
	}
	if w.touchIn[f] {
		return map[string]bool{}
	}
	w.touchIn[f] = true
	defer delete(w.touchIn, f)
	x := newExec(w, f, nil)
	if sp := w.contract(funcKey(f)); sp != nil {
		x.spec = &FuncSpec{key: sp.key, inline: sp.inline, loops: map[string]*LoopSpec{}, opts: sp.opts}
	}
	x.dry = 1
	x.touched = map[string]bool{}
	x.wr = newWriteSet()
	st := x.startState()
	args := x.symArgs(st, f)
	fr := &Frame{fn: f, args: args, key: "touch", isTop: true}
	x.runFn(fr, st)
	w.touch[f] = x.touched
	return x.touched
}

func (x *Exec) startState() *State {
	st := &State{pc: tTrue, cells: map[*Cell]Value{}, heap: map[string]*Term{}, regs: map[ssa.Value]Value{}}
	st.heap["next"] = x.next0()
	x.rawFact(Lt(intT(0), x.next0()))
	return st
}
func (x *Exec) symArgs(st *State, f *ssa.Function) []Value {
	var args []Value
	for _, p := range f.Params {
		x.noteT(p.Type())
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			args = append(args, freshConst("fn."+p.Name(), SOpq))
			continue
		}
		args = append(args, x.freshVal(st, p.Type(), p.Name()))
	}
	return args
}

// verifyFunc produces the obligations of a function under contract
func (w *World) verifyFunc(f *ssa.Function, sp *FuncSpec) (obls []*Obl, x *Exec, err error) {
	x = newExec(w, f, sp)
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case execErr:
				err = fmt.Errorf("%s", e.msg)
			case specErr:
				err = fmt.Errorf("%s", e.msg)
			case string:
				err = fmt.Errorf("internal: %s", e)
			default:
				panic(e)
			}
			obls = x.obls
		}
	}()
	st := x.startState()
	args := x.symArgs(st, f)
	names := sp.params
	if len(names) == 0 {
		for _, p := range f.Params {
			names = append(names, p.Name())
		}
	}
	for i, p := range f.Params {
		t, ok := args[i].(*Term)
		if ok {
			x.params[names[i]] = SV{t: t, typ: p.Type()}
		}
		_ = p
	}
	var free []Value
	for _, v := range f.FreeVars {
		pt, ok := v.Type().Underlying().(*types.Pointer)
		if !ok {
			return nil, x, fmt.Errorf("free variable %s", v.Name())
		}
		cell := &Cell{name: v.Name(), typ: pt.Elem()}
		val := x.freshVal(st, pt.Elem(), v.Name())
		st.cells[cell] = val
		free = append(free, &Ptr{cell: cell, root: pt.Elem(), typ: pt.Elem()})
		x.params[v.Name()] = SV{t: val, typ: pt.Elem()}
		for i, p := range f.Params {
			if p.Name() == v.Name() {
				_ = i
				return nil, x, fmt.Errorf("parameter and free variable share the name %s", v.Name())
			}
		}
	}
	x.old = st
	c := &evalCtx{x: x, st: st, old: st, vars: x.params, noLocal: true}
	for _, r := range sp.requires {
		x.fact(st, c.eval(r.e).t)
	}
	for k, v := range x.params {
		x.lets[k] = v
	}
	x.old = st.clone()
	if len(sp.entry) > 0 {
		x.ghostIn(&evalCtx{x: x, st: st, old: x.old, vars: x.lets, noLocal: true}, sp.entry)
	}
	// parameters in loop specs mean current values unless bound by let
	for k := range x.params {
		delete(x.lets, k)
	}
	if sp.opts["cover"] {
		// handled by the driver
		_ = sp
	}
	fr := &Frame{fn: f, args: args, free: free, key: "top", isTop: true}
	x.curPos = f.Pos()
	mod := map[string]bool{}
	for _, m := range sp.modifies {
		mod[m] = true
	}
	for _, a := range sp.ats {
		if a.where == "return" {
			a.used = true
		}
	}
	lets0 := map[string]SV{}
	fr.onRet = func(end *State, res []Value) {
		if x.dry > 0 {
			return
		}
		if fr.nret == 0 {
			for k, v := range x.lets {
				lets0[k] = v
			}
		}
		fr.nret++
		savedPos := x.curPos
		x.curPos = f.Pos()
		defer func() { x.curPos = savedPos }()
		x.results = nil
		for i := range res {
			t := f.Signature.Results().At(i).Type()
			x.noteT(t)
			x.results = append(x.results, SV{t: x.term(end, res[i]), typ: t})
		}
		vars := map[string]SV{}
		for k, v := range lets0 {
			vars[k] = v
		}
		for k, v := range x.params {
			vars[k] = v
		}
		for i, n := range sp.results {
			vars[n] = x.results[i]
		}
		x.lets = map[string]SV{}
		for k, v := range vars {
			x.lets[k] = v
		}
		mark := len(x.facts)
		ec := &evalCtx{x: x, fr: fr, st: end, old: x.old, vars: x.lets, results: x.results}
		for _, a := range sp.ats {
			if a.where == "return" {
				x.ghostIn(ec, a.stmts)
			}
		}
		x.cover(end, fmt.Sprintf("return %d reachable", fr.nret))
		for _, e := range sp.ensures {
			g := ec.eval(e.e).t
			x.oblige(end, "postcondition", e.name, g)
		}
		// frame
		var cs []string
		for c := range end.heap {
			cs = append(cs, c)
		}
		sort.Strings(cs)
		for _, cn := range cs {
			if cn == "next" || mod[cn] {
				continue
			}
			o := x.comp(x.old, cn)
			if o == end.heap[cn] {
				continue
			}
			r := bvar("r", SInt)
			x.oblige(end, "frame", cn, Forall([]*Term{r}, nil, Implies(And(Lt(r, x.next0()), Le(intT(0), r)), Eq(Select(end.heap[cn], r), Select(o, r)))))
		}
		x.facts = x.facts[:mark:mark]
	}
	end, _ := x.runFn(fr, st)
	x.curPos = f.Pos()
	for k, l := range sp.loops {
		if !l.used {
			return x.obls, x, fmt.Errorf("%s: loop %s of the contract was not found in the code", sp.key, k)
		}
	}
	for _, a := range sp.ats {
		if !a.used {
			return x.obls, x, fmt.Errorf("%s: contract refers to %s, which the code does not contain", sp.key, a.where)
		}
	}
	// reachability of a normal return, checked as a vacuity guard
	x.obls = append(x.obls, &Obl{Name: "normal return reachable", Kind: "cover", facts: append([]*Term{}, x.facts...), goal: Not(end.pc)})
	return x.obls, x, nil
}

// shortName turns (*math/big.Rat).Add into big.Rat.Add
func shortName(n string) string {
	n = strings.NewReplacer("(", "", ")", "", "*", "").Replace(n)
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		n = n[i+1:]
	}
	return n
}
