package lib

import (
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"github.com/mescanne/goledger/book"
)

// P is a posting of the model.
type P struct {
	Date                          int
	Payee, TNote, Acct, CCY, Note string
	Val                           *big.Rat
}

func (p P) String() string {
	return fmt.Sprintf("%d %q %s %s %s", p.Date, p.Payee, p.Acct, p.CCY, p.Val.RatString())
}

// M is a book of the model: postings in the order given.
type M []P

func (m M) Clone() M {
	n := make(M, len(m))
	copy(n, m)
	for i := range n {
		n[i].Val = new(big.Rat).Set(m[i].Val)
	}
	return n
}

func less(a, b P) bool {
	if a.Date != b.Date {
		return a.Date < b.Date
	}
	if a.Payee != b.Payee {
		return a.Payee < b.Payee
	}
	if a.Acct != b.Acct {
		return a.Acct < b.Acct
	}
	return a.CCY < b.CCY
}

type key struct {
	d       int
	p, a, c string
}

// Norm: the normal form: one posting per key with the exact sum, none zero, sorted.
func (m M) Norm() M {
	idx := map[key]int{}
	var n M
	for _, p := range m {
		k := key{p.Date, p.Payee, p.Acct, p.CCY}
		if i, ok := idx[k]; ok {
			n[i].Val = new(big.Rat).Add(n[i].Val, p.Val)
			continue
		}
		idx[k] = len(n)
		q := p
		q.Val = new(big.Rat).Set(p.Val)
		n = append(n, q)
	}
	var o M
	for _, p := range n {
		if p.Val.Sign() != 0 {
			o = append(o, p)
		}
	}
	sort.SliceStable(o, func(i, j int) bool { return less(o[i], o[j]) })
	return o
}

// Trans: maximal runs of equal date and payee of a normalised book.
func (m M) Trans() []M {
	var t []M
	for i, p := range m {
		if i == 0 || m[i-1].Date != p.Date || m[i-1].Payee != p.Payee {
			t = append(t, nil)
		}
		t[len(t)-1] = append(t[len(t)-1], p)
	}
	return t
}

// Input is a declared book: transactions and prices.
type Input struct {
	Trans  []ITrans
	Prices []IPrice
}
type ITrans struct {
	Date        int
	Payee, Note string
	Posts       []IPost
}
type IPost struct {
	Acct, CCY, Note string
	Val             *big.Rat
}
type IPrice struct {
	Date      int
	Unit, CCY string
	Val       *big.Rat
}

// Model: what Builder has to make of the input (payees made distinct).
func (in *Input) Model() M {
	used := map[string]bool{}
	var m M
	for _, t := range in.Trans {
		payee := t.Payee
		for i := 2; used[fmt.Sprint(t.Date, " ", payee)]; i++ {
			payee = fmt.Sprintf("%s (%d)", t.Payee, i)
		}
		used[fmt.Sprint(t.Date, " ", payee)] = true
		for _, p := range t.Posts {
			m = append(m, P{t.Date, payee, t.Note, p.Acct, p.CCY, p.Note, new(big.Rat).Set(p.Val)})
		}
	}
	return m
}

func (in *Input) Log(r *R) {
	for _, t := range in.Trans {
		var s []string
		for _, p := range t.Posts {
			s = append(s, fmt.Sprintf("%s %s %s", p.Acct, p.CCY, p.Val.RatString()))
		}
		r.Logf("transaction %d %q %q: %s", t.Date, t.Payee, t.Note, strings.Join(s, "; "))
	}
	for _, p := range in.Prices {
		r.Logf("price %d %s %s %s", p.Date, p.Unit, p.CCY, p.Val.RatString())
	}
}

// Feed declares the input to a builder.
func (in *Input) Feed(b *book.Builder) {
	for _, p := range in.Prices {
		b.AddPrice(book.Date(p.Date), p.Unit, p.CCY, new(big.Rat).Set(p.Val))
	}
	for _, t := range in.Trans {
		b.NewTransaction(book.Date(t.Date), t.Payee, t.Note)
		for _, p := range t.Posts {
			b.AddPosting(p.Acct, p.CCY, new(big.Rat).Set(p.Val), p.Note)
		}
	}
}

func (in *Input) Build() *book.Book {
	b := book.NewBookBuilder()
	in.Feed(b)
	return b.Build()
}

// Balanced: a random transaction that sums to zero in each currency.
func (r *R) Trans() ITrans {
	t := ITrans{Date: r.NearDate(), Payee: r.Payee(), Note: r.Note()}
	open := map[string]*big.Rat{}
	var order []string
	n := 1 + r.N(2+r.Size/4)
	two := r.Chance(3)
	if two {
		n = 1
	}
	long := r.Chance(150)
	if long {
		n = 40 + r.Intn(100)
	}
	for i := 0; i < n; i++ {
		p := IPost{r.Acct(), r.CCY(), r.Note(), r.Amount()}
		if long && r.Intn(4) > 0 {
			p.Acct = fmt.Sprint(p.Acct, ":", i)
		}
		t.Posts = append(t.Posts, p)
		if open[p.CCY] == nil {
			open[p.CCY] = new(big.Rat)
			order = append(order, p.CCY)
		}
		open[p.CCY].Add(open[p.CCY], p.Val)
	}
	for _, c := range order {
		if open[c].Sign() == 0 && r.Chance(2) {
			continue
		}
		rest := new(big.Rat).Neg(open[c])
		if !two && r.Chance(5) {
			// in two parts
			a := r.Amount()
			t.Posts = append(t.Posts, IPost{r.Acct(), c, r.Note(), a})
			rest.Sub(rest, a)
		}
		t.Posts = append(t.Posts, IPost{r.Acct(), c, r.Note(), rest})
	}
	r.Shuffle(len(t.Posts), func(i, j int) { t.Posts[i], t.Posts[j] = t.Posts[j], t.Posts[i] })
	return t
}

// Input: a random balanced book with prices
func (r *R) Input() *Input {
	in := &Input{}
	n := r.N(2 + r.Size)
	if r.Chance(60) {
		n = 80 + r.Intn(150)
	}
	for i := 0; i < n; i++ {
		in.Trans = append(in.Trans, r.Trans())
	}
	in.Prices = r.Prices()
	return in
}

func (r *R) Prices() []IPrice {
	var ps []IPrice
	used := map[string]bool{}
	for i := r.N(1 + r.Size/2); i > 0; i-- {
		u, c := r.CCY(), r.CCY()
		if u == c {
			continue
		}
		for k := 1 + r.N(3); k > 0; k-- {
			d := r.NearDate()
			if s := fmt.Sprint(d, u, c); used[s] {
				continue
			} else {
				used[s] = true
			}
			v := r.NonZero()
			ps = append(ps, IPrice{d, u, c, v.Abs(v)})
		}
	}
	return ps
}

// Price oracle: (rate, kind) with kind exact, inferred, range, none
func (in *Input) Price(d int, unit, ccy string) (*big.Rat, string) {
	if unit == ccy {
		return big.NewRat(1, 1), "Exact"
	}
	if v, k, ok := in.direct(d, unit, ccy); ok {
		return v, k
	}
	if v, k, ok := in.direct(d, ccy, unit); ok {
		return new(big.Rat).Inv(v), k
	}
	return big.NewRat(1, 1), "None"
}

func (in *Input) direct(d int, unit, ccy string) (*big.Rat, string, bool) {
	var lo, hi *IPrice
	for i := range in.Prices {
		p := &in.Prices[i]
		if p.Unit != unit || p.CCY != ccy {
			continue
		}
		if p.Date == d {
			return p.Val, "Exact", true
		}
		if p.Date < d && (lo == nil || p.Date > lo.Date) {
			lo = p
		}
		if p.Date > d && (hi == nil || p.Date < hi.Date) {
			hi = p
		}
	}
	switch {
	case lo == nil && hi == nil:
		return nil, "", false
	case lo == nil:
		return hi.Val, "OutOfRange", true
	case hi == nil:
		return lo.Val, "OutOfRange", true
	}
	a, b, x := ToDays(lo.Date), ToDays(hi.Date), ToDays(d)
	v := new(big.Rat).Sub(hi.Val, lo.Val)
	v.Mul(v, big.NewRat(int64(x-a), int64(b-a)))
	return v.Add(v, lo.Val), "Inferred", true
}

// ReadTrans: the content of real transactions
func ReadTrans(ts []book.Transaction) []M {
	var out []M
	for _, t := range ts {
		var m M
		for _, p := range t {
			m = append(m, P{int(p.GetDate()), p.GetPayee(), p.GetTransactionNote(), p.GetAccount(), p.GetCCY(), p.GetPostNote(), new(big.Rat).Set(p.GetAmount())})
		}
		out = append(out, m)
	}
	return out
}

func Flat(ts []M) M {
	var m M
	for _, t := range ts {
		m = append(m, t...)
	}
	return m
}

// Balanced: every transaction sums to zero in each currency
func Balanced(ts []M) string {
	for _, t := range ts {
		sum := map[string]*big.Rat{}
		for _, p := range t {
			if sum[p.CCY] == nil {
				sum[p.CCY] = new(big.Rat)
			}
			sum[p.CCY].Add(sum[p.CCY], p.Val)
		}
		for c, v := range sum {
			if v.Sign() != 0 {
				return fmt.Sprintf("transaction %d %q has a balance of %s %s: %v", t[0].Date, t[0].Payee, c, v.RatString(), t)
			}
		}
	}
	return ""
}

// SameKeys compares keys and amounts in order; notes too if asked
func SamePosts(got, want M, notes bool) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Sprintf("posting missing: %v", want[i])
		case i >= len(want):
			return fmt.Sprintf("posting too much: %v", got[i])
		}
		g, w := got[i], want[i]
		if g.Date != w.Date || g.Payee != w.Payee || g.Acct != w.Acct || g.CCY != w.CCY || g.Val.Cmp(w.Val) != 0 {
			return fmt.Sprintf("posting %d is %v, expected %v", i, g, w)
		}
		if notes && (g.Note != w.Note || g.TNote != w.TNote) {
			return fmt.Sprintf("posting %d (%v) has notes %q, %q, expected %q, %q", i, g, g.TNote, g.Note, w.TNote, w.Note)
		}
	}
	return ""
}

// Totals compares the sums per key, whatever the order and grouping
func SameSums(got, want M) string {
	sum := func(m M) map[key]*big.Rat {
		s := map[key]*big.Rat{}
		for _, p := range m {
			k := key{p.Date, p.Payee, p.Acct, p.CCY}
			if s[k] == nil {
				s[k] = new(big.Rat)
			}
			s[k].Add(s[k], p.Val)
		}
		return s
	}
	g, w := sum(got), sum(want)
	zero := new(big.Rat)
	for _, p := range want {
		k := key{p.Date, p.Payee, p.Acct, p.CCY}
		v := g[k]
		if v == nil {
			v = zero
		}
		if v.Cmp(w[k]) != 0 {
			return fmt.Sprintf("%d %q %s %s: amount %s, expected %s", k.d, k.p, k.a, k.c, v.RatString(), w[k].RatString())
		}
	}
	for _, p := range got {
		k := key{p.Date, p.Payee, p.Acct, p.CCY}
		if w[k] == nil && g[k].Sign() != 0 {
			return fmt.Sprintf("%d %q %s %s: amount %s, expected nothing", k.d, k.p, k.a, k.c, g[k].RatString())
		}
	}
	return ""
}

// Normal checks normal form, grouping and balances of real transactions
func Normal(ts []book.Transaction) string {
	bal := map[[2]string]*big.Rat{}
	var prev *book.Posting
	for ti, t := range ts {
		if len(t) == 0 {
			return fmt.Sprintf("transaction %d has no postings", ti)
		}
		for i := range t {
			p := &t[i]
			if p.GetAmount().Sign() == 0 {
				return fmt.Sprintf("posting with zero amount: %v", *p)
			}
			if i > 0 && (p.GetDate() != t[0].GetDate() || p.GetPayee() != t[0].GetPayee()) {
				return fmt.Sprintf("transaction %d mixes date or payee: %v and %v", ti, t[0], *p)
			}
			if i == 0 && prev != nil && p.GetDate() == prev.GetDate() && p.GetPayee() == prev.GetPayee() {
				return fmt.Sprintf("transaction %d has the same date and payee as the one before: %v", ti, *p)
			}
			if prev != nil {
				a := P{Date: int(prev.GetDate()), Payee: prev.GetPayee(), Acct: prev.GetAccount(), CCY: prev.GetCCY()}
				b := P{Date: int(p.GetDate()), Payee: p.GetPayee(), Acct: p.GetAccount(), CCY: p.GetCCY()}
				if !less(a, b) {
					return fmt.Sprintf("postings not in order or twice: %v then %v", *prev, *p)
				}
			}
			k := [2]string{p.GetAccount(), p.GetCCY()}
			if bal[k] == nil {
				bal[k] = new(big.Rat)
			}
			bal[k].Add(bal[k], p.GetAmount())
			if p.GetBalance() == nil || p.GetBalance().Cmp(bal[k]) != 0 {
				return fmt.Sprintf("balance of %v is %v, expected %s", *p, p.GetBalance(), bal[k].RatString())
			}
			prev = p
		}
	}
	return ""
}

// ---- operations: each has a real and a model side

type Op struct {
	Name  string
	Real  func(b *book.Book)
	Model func(m M) M
	Kind  string
}

var regexes = []string{"^Asset(:.*)?$", "^Expense:(.*)$", "Food", "^(Income|Equity)", ":", "^A$", "(.*):([^:]*)$", "^.*$", "Bank", "B", "^X$", "[aeiou]"}
var repls = []string{"Holding", "X:$1", "Asset:Bank", "Expense:Food", "A", "$1", "Equity"}

func (r *R) Regex() string { return regexes[r.Intn(min(len(regexes), 3+r.Size))] }
func (r *R) Repl() string  { return repls[r.Intn(min(len(repls), 3+r.Size))] }

func mapP(m M, f func(p P) P) M {
	n := m.Clone()
	for i := range n {
		n[i] = f(n[i])
	}
	return n
}

func scale(p P, acct string, date int, f *big.Rat) P {
	q := p
	q.Acct, q.Date = acct, date
	q.Val = new(big.Rat).Mul(p.Val, f)
	return q
}

func (r *R) OpMap() Op {
	s, t, alt := r.Regex(), r.Pick(append(repls, "")...), ""
	if r.Chance(4) {
		alt = r.Acct()
	}
	re := regexp.MustCompile(s)
	return Op{fmt.Sprintf("RegexAccounts(%q, %q, %q)", s, t, alt), func(b *book.Book) { b.RegexAccounts(s, t, alt) }, func(m M) M {
		return mapP(m, func(p P) P {
			if !re.MatchString(p.Acct) {
				if alt != "" {
					p.Acct = alt
				}
			} else if t != "" {
				p.Acct = re.ReplaceAllString(p.Acct, t)
			}
			return p
		})
	}, "map"}
}

func (r *R) OpMove() Op {
	s, t := r.Regex(), r.Repl()
	f := []float64{0, 1, 0.5, 0.25, 0.2, 2, 1.5, 0.1, 100, 3}[r.Intn(10)]
	re := regexp.MustCompile(s)
	fr := new(big.Rat).SetFloat64(f)
	return Op{fmt.Sprintf("AdjustPost(%q, %q, %v)", s, t, f), func(b *book.Book) { b.AdjustPost(s, t, f) }, func(m M) M {
		n := m.Clone()
		for _, p := range m.Norm() {
			if re.MatchString(p.Acct) {
				n = append(n, scale(p, p.Acct, p.Date, new(big.Rat).Neg(fr)), scale(p, re.ReplaceAllString(p.Acct, t), p.Date, fr))
			}
		}
		return n
	}, "move"}
}

func (r *R) OpDepreciate() Op {
	s, t := r.Regex(), r.Repl()
	n := []int{1, 2, 3, 4, 7, 12, 24}[r.Intn(7)]
	by := r.Pick("monthly", "monthly", "quarterly", "yearly")
	re := regexp.MustCompile(s)
	months := map[string]int{"monthly": 1, "quarterly": 3, "yearly": 12}[by]
	return Op{fmt.Sprintf("Depreciate(%q, %q, %q, %d)", s, t, by, n), func(b *book.Book) { b.Depreciate(s, t, by, int64(n)) }, func(m M) M {
		o := m.Clone()
		one, part := big.NewRat(1, 1), big.NewRat(1, int64(n))
		for _, p := range m.Norm() {
			if !re.MatchString(p.Acct) {
				continue
			}
			h := re.ReplaceAllString(p.Acct, t)
			o = append(o, scale(p, p.Acct, p.Date, new(big.Rat).Neg(one)), scale(p, h, p.Date, one))
			for k := 0; k < n; k++ {
				d := p.Date
				if k > 0 {
					d = FloorDate(p.Date, months, k)
				}
				o = append(o, scale(p, h, d, new(big.Rat).Neg(part)), scale(p, p.Acct, d, part))
			}
		}
		return o
	}, "depreciate"}
}

func (r *R) OpSplit() Op {
	by := r.Pick("monthly", "quarterly", "yearly", "none")
	return Op{fmt.Sprintf("SplitBy(%q)", by), func(b *book.Book) { b.SplitBy(by) }, func(m M) M {
		return mapP(m, func(p P) P { p.Date = FloorBy(p.Date, by); p.Payee = ""; return p })
	}, "combine"}
}

func (r *R) OpRegexCCY() Op {
	s, t := r.Pick("^X Y$", "EUR", "U", "[£$]", "^USD$", "Z"), r.Pick("EUR", "$", "U", "Q$0")
	re := regexp.MustCompile(s)
	return Op{fmt.Sprintf("RegexCCY(%q, %q)", s, t), func(b *book.Book) { b.RegexCCY(s, t) }, func(m M) M {
		return mapP(m, func(p P) P {
			if re.MatchString(p.CCY) {
				p.CCY = re.ReplaceAllString(p.CCY, t)
			}
			return p
		})
	}, "mapccy"}
}

func (r *R) OpConvert(in *Input) Op {
	c := r.CCY()
	return Op{fmt.Sprintf("MapAmount(convert to %s)", c), func(b *book.Book) {
		b.MapAmount(func(date book.Date, ccy string) (*big.Rat, string) {
			rate, _ := b.GetPrice(date, ccy, c)
			return rate, c
		})
	}, func(m M) M {
		return mapP(m, func(p P) P {
			rate, _ := in.Price(p.Date, p.CCY, c)
			p.Val = new(big.Rat).Mul(p.Val, rate)
			p.CCY = c
			return p
		})
	}, "convert"}
}

func (r *R) OpScale() Op {
	by := r.Pick("monthly", "daily", "quarterly", "yearly", "none")
	return Op{fmt.Sprintf("AdjustBy(%q)", by), func(b *book.Book) {
		ts := b.Transactions()
		if len(ts) == 0 || ts[0].GetDate() == ts[len(ts)-1].GetDate() {
			return
		}
		b.AdjustBy(by)
	}, func(m M) M {
		n := m.Norm()
		if len(n) == 0 || n[0].Date == n[len(n)-1].Date || by == "none" {
			return m
		}
		days := int64(ToDays(n[len(n)-1].Date) - ToDays(n[0].Date))
		var f *big.Rat
		switch by {
		case "monthly":
			f = big.NewRat(365, 12*days)
		case "quarterly":
			f = big.NewRat(365, 4*days)
		case "yearly":
			f = big.NewRat(365, days)
		case "daily":
			f = big.NewRat(1, days)
		}
		return mapP(m, func(p P) P { p.Val = new(big.Rat).Mul(p.Val, f); return p })
	}, "scale"}
}

func keep(m M, f func(t M) bool) M {
	var o M
	for _, t := range m.Norm().Trans() {
		if f(t) {
			o = append(o, t...)
		}
	}
	return o
}

func (r *R) filterDate() int {
	if r.Chance(8) {
		return 0
	}
	return r.NearDate()
}

func (r *R) OpAsof() Op {
	d := r.filterDate()
	return Op{fmt.Sprintf("FilterByDateAsof(%d)", d), func(b *book.Book) { b.FilterByDateAsof(book.Date(d)) }, func(m M) M {
		return keep(m, func(t M) bool { return d == 0 || t[0].Date < d })
	}, "asof"}
}

func (r *R) OpSince() Op {
	d := r.filterDate()
	return Op{fmt.Sprintf("FilterByDateSince(%d)", d), func(b *book.Book) { b.FilterByDateSince(book.Date(d)) }, func(m M) M {
		return keep(m, func(t M) bool { return d == 0 || t[0].Date >= d })
	}, "since"}
}

func (r *R) OpByAcct() Op {
	a := r.Acct()
	return Op{fmt.Sprintf("FilterByAccount(%q)", a), func(b *book.Book) { b.FilterByAccount(a) }, func(m M) M {
		return keep(m, func(t M) bool {
			for _, p := range t {
				if p.Acct == a {
					return true
				}
			}
			return false
		})
	}, "account"}
}

func (r *R) OpDedup() Op {
	ref := r.Input()
	return Op{fmt.Sprintf("RemoveDuplicatesOf(%v)", ref.Model().Norm()), func(b *book.Book) { b.RemoveDuplicatesOf(ref.Build()) }, func(m M) M {
		known := map[string]bool{}
		for _, p := range ref.Model().Norm() {
			known[fmt.Sprint(p.Date, p.Payee)] = true
		}
		return keep(m, func(t M) bool { return !known[fmt.Sprint(t[0].Date, t[0].Payee)] })
	}, "dedup"}
}

// OpReclassify is only modelled up to the choice: the harness of C16 checks it
func (r *R) OpReclassify() Op {
	ref := r.Input()
	acct := r.Acct()
	return Op{fmt.Sprintf("ReclassifyByAccount(ref of %d transactions, %q)", len(ref.Trans), acct), func(b *book.Book) {
		b.ReclassifyByAccount(ref.Build(), acct, Similar)
	}, nil, "reclassify"}
}

// Similar: a simple similarity for reclassification
func Similar(a, b string) float64 {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	if len(a)+len(b) == 0 {
		return 1
	}
	return float64(2*n) / float64(len(a)+len(b))
}

func (r *R) Op(in *Input) Op {
	switch r.Intn(12) {
	case 0:
		return r.OpMap()
	case 1:
		return r.OpMove()
	case 2:
		return r.OpDepreciate()
	case 3:
		return r.OpSplit()
	case 4:
		return r.OpRegexCCY()
	case 5:
		return r.OpConvert(in)
	case 6:
		return r.OpScale()
	case 7:
		return r.OpAsof()
	case 8:
		return r.OpSince()
	case 9:
		return r.OpByAcct()
	case 10:
		return r.OpDedup()
	}
	return r.OpMap()
}

// Seq runs a random sequence of operations on the real book and the model.
// After each operation judge is called (with the model before and after).
func (r *R) Seq(kinds string, judge func(b *book.Book, in *Input, before, after M, op Op) string) string {
	in := r.Input()
	in.Log(r)
	b := in.Build()
	m := in.Model()
	if p := judge(b, in, m, m, Op{Name: "load", Kind: "load"}); p != "" {
		return "after loading: " + p
	}
	prices := &Input{Prices: in.Prices}
	dep := false
	for n := r.N(3); n >= 0; n-- {
		op := r.Op(prices)
		if kinds != "" {
			for try := 0; !strings.Contains(kinds, op.Kind) && try < 60; try++ {
				op = r.Op(prices)
			}
		}
		if op.Kind == "depreciate" {
			if dep || len(m) > 200 {
				continue
			}
			dep = true
		}
		if len(m) > 4000 {
			break
		}
		r.Logf("%s", op.Name)
		op.Real(b)
		before := m
		m = op.Model(m)
		if p := judge(b, in, before, m, op); p != "" {
			return "after " + op.Name + ": " + p
		}
		if op.Kind == "mapccy" {
			break // prices follow, not modelled further
		}
		m = m.Norm()
	}
	return ""
}

// JDate reads a date of JSON output
type JDate int

func (d *JDate) UnmarshalJSON(b []byte) error {
	var y, m, dd int
	if _, err := fmt.Sscanf(string(b), "\"%d-%d-%dT00:00:00", &y, &m, &dd); err != nil {
		return fmt.Errorf("date %s: %v", b, err)
	}
	*d = JDate(y*10000 + m*100 + dd)
	return nil
}

// SamePrices: the recorded prices of the book are those of the input
func SamePrices(b *book.Book, in *Input) string {
	n := 0
	for _, pair := range b.GetPricePairs() {
		pl := b.GetPriceList(pair.Unit, pair.CCY)
		for _, p := range pl {
			n++
			found := false
			for _, q := range in.Prices {
				if q.Date == int(p.GetDate()) && q.Unit == pair.Unit && q.CCY == pair.CCY && q.Val.Cmp(p.GetPrice()) == 0 {
					found = true
				}
			}
			if !found {
				return fmt.Sprintf("price of %s on %d: %s %s was not given", pair.Unit, p.GetDate(), pair.CCY, p.GetPrice().RatString())
			}
		}
	}
	if n != len(in.Prices) {
		return fmt.Sprintf("%d prices, expected %d", n, len(in.Prices))
	}
	return ""
}
