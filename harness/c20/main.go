package main

import (
	"fmt"
	"math/big"
	"os"
	"regexp"
	"sort"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/verifharness/lib"
)

type op struct {
	s     string
	model func(m lib.M, ps []lib.IPrice) (lib.M, []lib.IPrice)
	bad   bool
	dep   bool
}

func post(f func(m lib.M) lib.M) func(lib.M, []lib.IPrice) (lib.M, []lib.IPrice) {
	return func(m lib.M, ps []lib.IPrice) (lib.M, []lib.IPrice) { return f(m), ps }
}

func mapP(m lib.M, f func(p lib.P) lib.P) lib.M {
	n := m.Clone()
	for i := range n {
		n[i] = f(n[i])
	}
	return n
}

func good(r *lib.R) op {
	re := strings.ReplaceAll(r.Regex(), "/", "")
	rx := regexp.MustCompile(re)
	to := r.Repl()
	switch r.Intn(7) {
	case 0:
		alt, s := "", ""
		if r.Chance(2) {
			alt = r.Acct()
			s = alt + "/"
		}
		return op{s: fmt.Sprintf("map=/%s/%s/%s", re, to, s), model: post(func(m lib.M) lib.M {
			return mapP(m, func(p lib.P) lib.P {
				if rx.MatchString(p.Acct) {
					p.Acct = rx.ReplaceAllString(p.Acct, to)
				} else if alt != "" {
					p.Acct = alt
				}
				return p
			})
		})}
	case 1:
		fs := []string{"1", "0.5", "0", "2", "0.25", "100", "1.75", "00.5", ".5", "1.", "0.1", "0.3", "33.333333333333", "1.1"}[r.Intn(14)]
		fr, _ := new(big.Rat).SetString("0" + fs + "0")
		if !strings.Contains(fs, ".") {
			fr, _ = new(big.Rat).SetString(fs)
		}
		// a factor is a float64: the nearest number to the one written
		if f, _ := fr.Float64(); true {
			fr = new(big.Rat).SetFloat64(f)
		}
		return op{s: fmt.Sprintf("move=/%s/%s/%s/", re, to, fs), model: post(func(m lib.M) lib.M {
			n := m.Clone()
			for _, p := range m.Norm() {
				if rx.MatchString(p.Acct) {
					q := p
					q.Val = new(big.Rat).Mul(p.Val, new(big.Rat).Neg(fr))
					n = append(n, q)
					q.Acct = rx.ReplaceAllString(p.Acct, to)
					q.Val = new(big.Rat).Mul(p.Val, fr)
					n = append(n, q)
				}
			}
			return n
		})}
	case 2:
		k := []int{1, 2, 3, 6, 12, 13}[r.Intn(6)]
		return op{s: fmt.Sprintf("depreciate=/%s/%s/%d/", re, to, k), dep: true, model: post(func(m lib.M) lib.M {
			n := m.Clone()
			for _, p := range m.Norm() {
				if !rx.MatchString(p.Acct) {
					continue
				}
				add := func(acct string, d int, num, den int64) {
					q := p
					q.Acct, q.Date = acct, d
					q.Val = new(big.Rat).Mul(p.Val, big.NewRat(num, den))
					n = append(n, q)
				}
				h := rx.ReplaceAllString(p.Acct, to)
				add(p.Acct, p.Date, -1, 1)
				add(h, p.Date, 1, 1)
				for i := 0; i < k; i++ {
					d := p.Date
					if i > 0 {
						d = lib.FloorDate(d, 1, i)
					}
					add(h, d, -1, int64(k))
					add(p.Acct, d, 1, int64(k))
				}
			}
			return n
		})}
	case 3:
		by := r.Pick("yearly", "quarterly", "monthly", "none")
		s := by
		if r.Chance(3) {
			s = strings.ToUpper(by)
		}
		return op{s: "combine=" + s, model: post(func(m lib.M) lib.M {
			return mapP(m, func(p lib.P) lib.P { p.Date = lib.FloorBy(p.Date, by); p.Payee = ""; return p })
		})}
	case 4, 5:
		d := r.NearDate()
		for d < 10000101 {
			d = r.NearDate()
		}
		s := fmt.Sprintf(r.Pick("%04d-%02d-%02d", "%04d/%02d/%02d", "%04d%02d%02d"), d/10000, d/100%100, d%100)
		if r.Chance(8) {
			d = d/10000*10000 + 101
			s = fmt.Sprint(d / 10000)
		}
		since := r.Chance(2)
		n := "asof="
		if since {
			n = "since="
		}
		return op{s: n + s, model: post(func(m lib.M) lib.M {
			var o lib.M
			for _, p := range m {
				if (p.Date >= d) == since {
					o = append(o, p)
				}
			}
			return o
		})}
	}
	c := r.Pick("^X Y$", "EUR", "U", "[£$]", "^USD$", "Z", "^(.)")
	cx := regexp.MustCompile(c)
	ct := r.Pick("EUR", "$", "U", "Q$0", "GBP", "£")
	f := func(s string) string {
		if cx.MatchString(s) {
			return cx.ReplaceAllString(s, ct)
		}
		return s
	}
	return op{s: fmt.Sprintf("mapccy=/%s/%s/", c, ct), model: func(m lib.M, ps []lib.IPrice) (lib.M, []lib.IPrice) {
		var qs []lib.IPrice
		for _, p := range ps {
			p.Unit, p.CCY = f(p.Unit), f(p.CCY)
			qs = append(qs, p)
		}
		return mapP(m, func(p lib.P) lib.P { p.CCY = f(p.CCY); return p }), qs
	}}
}

var bads = []string{"", "map", "map=", "map=/a/", "map=a/b/", "map=/a/b", "map=/a/b/c", "map=/(/b/", "map=/[/b/c/", "map=//b/", "map=/a//", "map=/a/b/c/d/", "map=/a/b//",
	"move=/a/b/", "move=/a/b/x/", "move=/a/b/-1/", "move=/a/b/1.2.3/", "move=/a/b/./", "move=/(/b/1/", "move=/a/b/1", "move=/a/b/1e5/", "move=/a/b/ 1/",
	"asof=", "asof=x", "asof=2020-13-01", "asof=2020-02-30", "since=", "since=yesterday", "since=2019-02-29", "asof=2020-00-01", "since=2020-04-31", "asof=0",
	"combine=", "combine=daily", "combine=weekly", "combine=month", "combine=all ", "combine=monthly ",
	"depreciate=/a/b/", "depreciate=/a/b/1.5/", "depreciate=/a/b/x/", "depreciate=/*/b/2/", "depreciate=/a/b/./", "depreciate=/a/b/99999999999999999999/", "depreciate=/a/b/-2/", "depreciate=/a/b/0/",
	"mapccy=", "mapccy=/a/", "mapccy=/(/b/", "mapccy=/a/b/c/", "mapccy=a/b/", "mapccy=/a//",
	"foo=/a/b/", "Map=/a/b/", "maps=/a/b/", "=x", "unknownmacro", "1map=/a/b/", " map=/a/b/", "map =/a/b/"}

func snapshot(b *book.Book) (lib.M, []string) {
	var ps []string
	for _, pair := range b.GetPricePairs() {
		for _, p := range b.GetPriceList(pair.Unit, pair.CCY) {
			ps = append(ps, fmt.Sprint(pair.Unit, " ", pair.CCY, " ", int(p.GetDate()), " ", p.GetPrice().RatString()))
		}
	}
	sort.Strings(ps)
	return lib.Flat(lib.ReadTrans(b.Transactions())), ps
}

func judge(b *book.Book, m lib.M, ps []lib.IPrice) string {
	got, gp := snapshot(b)
	if p := lib.SamePosts(got, m.Norm(), false); p != "" {
		return p
	}
	var w []string
	for _, p := range ps {
		w = append(w, fmt.Sprint(p.Unit, " ", p.CCY, " ", p.Date, " ", p.Val.RatString()))
	}
	sort.Strings(w)
	if strings.Join(gp, "; ") != strings.Join(w, "; ") {
		return fmt.Sprintf("prices are %v, expected %v", gp, w)
	}
	return ""
}

func ops(r *lib.R) string {
	in := r.Input()
	if len(in.Trans) > 30 {
		in.Trans = in.Trans[:30]
	}
	in.Log(r)
	b := in.Build()
	m, ps := in.Model(), in.Prices
	a := &app.App{Macros: map[string][]string{}, Lang: "en", Divider: ":"}
	var strs []string
	failed, dep := false, false
	n := 1 + r.N(4)
	for i := 0; i < n; i++ {
		next := func() op {
			if r.Chance(9) {
				return op{s: bads[r.Intn(len(bads))], bad: true}
			}
			o := good(r)
			for o.dep && (dep || len(m) > 60) {
				o = good(r)
			}
			dep = dep || o.dep
			return o
		}
		apply := func(o op) {
			if failed {
				return
			}
			if o.bad {
				failed = true
				return
			}
			m, ps = o.model(m, ps)
			m = m.Norm()
		}
		if r.Chance(4) {
			// a macro, perhaps of a macro
			name := r.Pick("mac", "m2", "map=/a/b/", "x y") + fmt.Sprint(i)
			var list []string
			for k := r.N(3); k > 0; k-- {
				o := next()
				list = append(list, o.s)
				apply(o)
			}
			a.Macros[name] = list
			if r.Chance(4) {
				a.Macros["outer"+name] = []string{name}
				name = "outer" + name
			}
			strs = append(strs, name)
			continue
		}
		o := next()
		strs = append(strs, o.s)
		apply(o)
	}
	r.Logf("operations %q, macros %q", strs, a.Macros)
	err := a.BookOps(b, strs...)
	if failed != (err != nil) {
		return fmt.Sprintf("error %v, expected one: %v", err, failed)
	}
	return judge(b, m, ps)
}

// invalid: one invalid string
func invalid(r *lib.R) string {
	in := r.Input()
	if len(in.Trans) > 10 {
		in.Trans = in.Trans[:10]
	}
	in.Log(r)
	b := in.Build()
	s := bads[r.Intn(len(bads))]
	r.Logf("%q", s)
	a := &app.App{Lang: "en", Divider: ":"}
	if err := a.BookOps(b, s, "map=/^.*$/Gone/"); err == nil {
		return "no error"
	}
	return judge(b, in.Model(), in.Prices)
}

func main() {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = f
	}
	lib.Main(lib.Case{Name: "ops", Run: ops}, lib.Case{Name: "invalid", Run: invalid})
}
