package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var loadPatterns = []string{"./book", "./loader", "./script", "./cmd/app", "./cmd/export", "./cmd/register", "./cmd/reports", "./cmd/utils", "./cmd/importer", "./cmd/accounts", "./cmd/currencies"}

func loadWorld(dir string) (*World, error) {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=readonly")}
	ps, err := packages.Load(cfg, loadPatterns...)
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, sps := ssautil.Packages(ps, ssa.NaiveForm|ssa.GlobalDebug)
	prog.Build()
	w := &World{prog: prog, pkgs: map[string]*ssa.Package{}, fset: prog.Fset, touch: map[*ssa.Function]map[string]bool{}, touchIn: map[*ssa.Function]bool{}, globals: map[*ssa.Global]*globInfo{}, trusted: map[string]string{}}
	for _, p := range sps {
		w.pkgs[p.Pkg.Name()] = p
	}
	return w, nil
}

// allFuncs: every function declared in the loaded packages, by contract key
func (w *World) allFuncs() map[string]*ssa.Function {
	if w.funcTab != nil {
		return w.funcTab
	}
	out := map[string]*ssa.Function{}
	defer func() {
		var anon func(f *ssa.Function)
		anon = func(f *ssa.Function) {
			for _, a := range f.AnonFuncs {
				out[funcKey(a)] = a
				anon(a)
			}
		}
		var fs []*ssa.Function
		for _, f := range out {
			fs = append(fs, f)
		}
		for _, f := range fs {
			anon(f)
		}
		w.funcTab = out
	}()
	for _, p := range w.pkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				out[funcKey(m)] = m
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := w.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := w.prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" && f.Pkg == p {
							out[funcKey(f)] = f
						}
					}
				}
			}
		}
	}
	return out
}

func cmdExterns(w *World) {
	use := map[string][]string{}
	for k, f := range w.allFuncs() {
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						cc := c.Common()
						if cc.IsInvoke() {
							use["iface:"+ifaceKey(cc)] = append(use["iface:"+ifaceKey(cc)], k)
						} else if g, ok := cc.Value.(*ssa.Function); ok && !inRepo(g) {
							use[fullName(g)] = append(use[fullName(g)], k)
						} else if g, ok := cc.Value.(*ssa.Builtin); ok {
							use["builtin:"+g.Name()] = append(use["builtin:"+g.Name()], k)
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				walk(a)
			}
		}
		walk(f)
	}
	var ns []string
	for n := range use {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		m := map[string]bool{}
		var l []string
		for _, u := range use[n] {
			if !m[u] {
				m[u] = true
				l = append(l, u)
			}
		}
		sort.Strings(l)
		if len(l) > 6 {
			l = append(l[:6], "...")
		}
		fmt.Println(n, "<-", strings.Join(l, " "))
	}
}

func (w *World) loadSpecs(files []string) (err error) {
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case string:
				err = fmt.Errorf("%s", e)
			case specErr:
				err = fmt.Errorf("%s", e.msg)
			default:
				panic(e)
			}
		}
	}()
	sp := &Specs{funcs: map[string]*FuncSpec{}, defs: map[string]*FunDef{}, lemmas: map[string]*Lemma{}}
	for _, f := range files {
		sp.parseFile(f)
	}
	w.specs = sp
	for _, d := range sp.datas {
		var fs []DField
		for _, f := range d.fields {
			s, t := w.resolveSort(f.sort)
			fs = append(fs, DField{d.name + "." + f.name, s, t})
		}
		dt := regDT(d.name, fs)
		_ = dt
	}
	for _, g := range sp.ghosts {
		s, _ := w.resolveSort(g.sort)
		compSort[g.name] = arrSort(SInt, s)
	}
	for _, n := range sp.dorder {
		d := sp.defs[n]
		if d.arrBody == nil {
			continue
		}
		x := newExec(w, nil, nil)
		vs := map[string]SV{}
		var bs []*Term
		var args []SV
		for _, p := range d.params {
			s, t := w.resolveSort(p.sort)
			b := bvar(p.name, s)
			bs = append(bs, b)
			vs[p.name] = SV{t: b, typ: t}
			args = append(args, SV{t: b, typ: t})
		}
		rs, _ := w.resolveSort(d.ret)
		ks, _ := splitArr(rs)
		k := bvar(d.arrIdx, ks)
		c := &evalCtx{x: x, st: &State{pc: tTrue, heap: map[string]*Term{}}, vars: vs, noLocal: true}
		ap := c.callDef(&Ex{op: "call", s: n}, d, args)
		vs[d.arrIdx] = SV{t: k, typ: nil}
		body := c.eval(d.arrBody)
		sel := Select(ap.t, k)
		if body.t.sort == SInt && sel.sort == SReal {
			body.t = toReal(body.t)
		}
		fAxioms["f."+n] = []*Term{Forall(append(append([]*Term{}, bs...), k), [][]*Term{{sel}}, Eq(sel, body.t))}
	}
	return nil
}

type Report struct {
	Results   []*Result         `json:"results"`
	Errors    map[string]string `json:"errors"`
	Functions []string          `json:"functions"`
	Lemmas    []string          `json:"lemmas"`
	Inlined   []string          `json:"inlined"`
	Trusted   map[string]string `json:"trusted"`
	Seconds   float64           `json:"seconds"`
}

func hasProp(ps []string, p string) bool {
	for _, q := range ps {
		if q == p {
			return true
		}
	}
	return false
}

// coverAll adds vacuity checks
var coverAll bool

func (x *Exec) cover(st *State, name string) {
	if coverAll && x.dry == 0 {
		x.obls = append(x.obls, &Obl{Name: name, Kind: "cover", facts: append([]*Term{}, x.facts...), goal: Not(st.pc)})
	}
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/specs", "contract directory")
	only := flag.String("only", "", "comma-separated contract keys")
	prop := flag.String("prop", "", "property id")
	jsonOut := flag.String("json", "", "report file")
	work := flag.String("work", "", "directory for solver files")
	quick := flag.Int("quick", 5, "first timeout (s)")
	slow := flag.Int("slow", 30, "portfolio timeout (s)")
	deadline := flag.Int("deadline", 0, "seconds after which no long solver runs are started")
	workers := flag.Int("j", 8, "parallel solvers")
	verbose := flag.Bool("v", false, "print every obligation")
	deps := flag.Bool("deps", true, "also verify the contracts and lemmas used")
	flag.BoolVar(&coverAll, "cover", false, "also look for contradictions at every return, loop end and lemma")
	filter := flag.String("filter", "", "only obligations whose name contains this")
	list := flag.Bool("externs", false, "list external functions")
	dump := flag.String("dump", "", "print SSA of a function")
	flag.Parse()
	t0 := time.Now()
	w, err := loadWorld(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	if *list {
		cmdExterns(w)
		return
	}
	funcs := w.allFuncs()
	if *dump != "" {
		f := funcs[*dump]
		if f == nil {
			fmt.Println("no such function")
			os.Exit(2)
		}
		f.WriteTo(os.Stdout)
		for _, a := range f.AnonFuncs {
			a.WriteTo(os.Stdout)
		}
		return
	}
	w.scanGlobals()
	files, _ := filepath.Glob(filepath.Join(*specs, "*.gvs"))
	sort.Strings(files)
	if err := w.loadSpecs(files); err != nil {
		fmt.Fprintln(os.Stderr, "specs:", err)
		os.Exit(2)
	}
	rep := &Report{Errors: map[string]string{}, Trusted: w.trusted}
	want := map[string]bool{}
	var todo []string
	add := func(k string) {
		if !want[k] {
			want[k] = true
			todo = append(todo, k)
		}
	}
	if *only != "" {
		for _, k := range strings.Split(*only, ",") {
			if w.specs.lemmas[k] != nil {
				add("lemma " + k)
			} else if w.specs.funcs[k] != nil {
				add("func " + k)
			} else {
				fmt.Fprintln(os.Stderr, "no contract or lemma", k)
				os.Exit(2)
			}
		}
	} else {
		for _, k := range w.specs.forder {
			if *prop == "" || hasProp(w.specs.funcs[k].props, *prop) {
				add("func " + k)
			}
		}
		for _, k := range w.specs.lorder {
			if *prop == "" || hasProp(w.specs.lemmas[k].props, *prop) {
				add("lemma " + k)
			}
		}
	}
	inl := map[string]bool{}
	for i := 0; i < len(todo); i++ {
		k := todo[i]
		var obls []*Obl
		var x *Exec
		var err error
		name := strings.SplitN(k, " ", 2)[1]
		if strings.HasPrefix(k, "func ") {
			sp := w.specs.funcs[name]
			if sp.trusted != "" {
				continue
			}
			f := funcs[strings.SplitN(name, "@", 2)[0]]
			if f == nil || len(f.Blocks) == 0 {
				rep.Errors[name] = "the function this contract is about no longer exists"
				rep.Functions = append(rep.Functions, name)
				continue
			}
			rep.Functions = append(rep.Functions, name)
			obls, x, err = w.verifyFunc(f, sp)
		} else {
			l := w.specs.lemmas[name]
			if l.axiom != "" {
				continue
			}
			rep.Lemmas = append(rep.Lemmas, name)
			obls, x, err = w.verifyLemma(l)
		}
		if err != nil {
			rep.Errors[name] = err.Error()
		}
		for f := range x.inlined {
			inl[f] = true
		}
		if *deps {
			var us []string
			for u := range x.used {
				us = append(us, u)
			}
			sort.Strings(us)
			for _, u := range us {
				add(u)
			}
		}
		for _, o := range obls {
			if *filter != "" && !slices.ContainsFunc(strings.Split(*filter, "|"), func(f string) bool {
				return strings.Contains(o.Name, f) || strings.Contains(o.Kind, f) || strings.Contains(o.Pos, f)
			}) {
				continue
			}
			rep.Results = append(rep.Results, &Result{Obl: o, Func: name, Kind: o.Kind, Name: o.Name, Pos: o.Pos})
		}
	}
	for f := range inl {
		rep.Inlined = append(rep.Inlined, f)
	}
	sort.Strings(rep.Inlined)
	dir := *work
	if dir == "" {
		dir, _ = os.MkdirTemp("", "gv")
		defer os.RemoveAll(dir)
	}
	tg := time.Since(t0)
	solveAll(rep.Results, dir, *workers, *quick, *slow, 12, *deadline)
	rep.Seconds = time.Since(t0).Seconds()
	bad := 0
	for _, r := range rep.Results {
		if r.Status != "discharged" {
			bad++
		}
		if *verbose || r.Status != "discharged" {
			fmt.Printf("%-10s %-12s %s: %s [%s] %s %.2fs\n", r.Status, r.Backend, r.Func, r.Name, r.Kind, r.Pos, r.Time)
		}
	}
	for k, e := range rep.Errors {
		fmt.Printf("ERROR      %s: %s\n", k, e)
	}
	fmt.Printf("%d functions, %d lemmas, %d obligations, %d not discharged, %d errors, generation %.1fs, total %.1fs\n", len(rep.Functions), len(rep.Lemmas), len(rep.Results), bad, len(rep.Errors), tg.Seconds(), rep.Seconds)
	if *jsonOut != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*jsonOut, b, 0o644)
	}
	if bad > 0 || len(rep.Errors) > 0 {
		os.Exit(1)
	}
}
