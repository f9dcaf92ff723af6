package main

import (
	"fmt"
	"math/big"
	"os"
	"regexp"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/verifharness/lib"
)

type snap struct {
	trans []lib.M
	bals  []string
}

func take(b *book.Book) snap {
	ts := b.Transactions()
	s := snap{trans: lib.ReadTrans(ts)}
	for _, t := range ts {
		for _, p := range t {
			s.bals = append(s.bals, p.GetBalance().RatString())
		}
	}
	return s
}

func (s snap) same(o snap) string {
	if len(s.trans) != len(o.trans) {
		return fmt.Sprintf("%d transactions after the report, %d before", len(o.trans), len(s.trans))
	}
	for i := range s.trans {
		if p := lib.SamePosts(o.trans[i], s.trans[i], true); p != "" {
			return "the report changed the book: " + p
		}
	}
	if strings.Join(s.bals, " ") != strings.Join(o.bals, " ") {
		return "the report changed the balances of the book"
	}
	return ""
}

func accumulate(r *lib.R) string {
	in := r.Input()
	in.Log(r)
	b := in.Build()
	m := in.Model()
	if r.Chance(3) {
		op := r.OpSplit()
		r.Logf("%s", op.Name)
		op.Real(b)
		m = op.Model(m)
	}
	m = m.Norm()
	base := r.CCY()
	div := ":"
	if r.Chance(6) {
		div = r.Pick("::", "/", "s", "e", ":F")
	}
	var credit *regexp.Regexp
	if r.Chance(2) {
		credit = regexp.MustCompile(r.Regex())
	}
	hidden := ""
	if r.Chance(3) {
		hidden = r.Acct()
	}
	r.Logf("Accumulate(%q, %q, %v, %q)", base, div, credit, hidden)
	before := take(b)
	if p := (snap{trans: m.Trans()}).sameTrans(before); p != "" {
		return p
	}
	groups := m.Trans()
	got := lib.ReadTrans(b.Accumulate(base, div, credit, hidden))
	if p := before.same(take(b)); p != "" {
		return p
	}
	if p := lib.Normal(b.Transactions()); p != "" {
		return "after the report: " + p
	}
	sign := func(acct string, v *big.Rat) *big.Rat {
		if credit != nil && credit.MatchString(acct) {
			return new(big.Rat).Neg(v)
		}
		return v
	}
	type ac struct{ a, c string }
	seen := map[ac]bool{}
	var all []ac
	for _, p := range m {
		k := ac{p.Acct, p.CCY}
		if !seen[k] {
			seen[k] = true
			all = append(all, k)
		}
	}
	if len(got) != len(groups) {
		return fmt.Sprintf("%d groups in the report, expected %d", len(got), len(groups))
	}
	var shown map[string]bool
	for i, g := range groups {
		t := got[i]
		d, payee := g[0].Date, g[0].Payee
		for _, p := range t {
			if p.Date != d || p.Payee != payee {
				return fmt.Sprintf("group %d of the report has %v, expected %d %q", i, p, d, payee)
			}
			if hidden != "" && p.Acct == hidden {
				return fmt.Sprintf("the hidden account is shown: %v", p)
			}
		}
		used := make([]bool, len(t))
		take := func(a, c string, v *big.Rat) bool {
			for j := range t {
				if !used[j] && t[j].Acct == a && t[j].CCY == c && t[j].Val.Cmp(v) == 0 {
					used[j] = true
					return true
				}
			}
			return false
		}
		for _, k := range all {
			if hidden != "" && k.a == hidden {
				continue
			}
			v := new(big.Rat)
			for _, p := range g {
				if p.Acct == k.a && p.CCY == k.c {
					v.Add(v, p.Val)
				}
			}
			if !take(k.a, k.c, sign(k.a, v)) {
				return fmt.Sprintf("group %d %q does not show %s %s with %s", d, payee, k.a, k.c, v.RatString())
			}
		}
		// the rest are subtotals
		subs := map[string]bool{}
		for j, p := range t {
			if used[j] {
				continue
			}
			if p.CCY != base {
				return fmt.Sprintf("subtotal in another currency: %v", p)
			}
			if subs[p.Acct] {
				return fmt.Sprintf("subtotal twice: %v", p)
			}
			subs[p.Acct] = true
			sum := new(big.Rat)
			for _, q := range g {
				if q.Acct == p.Acct || strings.HasPrefix(q.Acct, p.Acct+div) {
					rate, _ := in.Price(d, q.CCY, base)
					sum.Add(sum, new(big.Rat).Mul(q.Val, rate))
				}
			}
			if p.Val.Cmp(sign(p.Acct, sum)) != 0 {
				return fmt.Sprintf("subtotal %v in group %d %q, expected %s", p, d, payee, sign(p.Acct, sum).RatString())
			}
		}
		if i > 0 && len(subs) != len(shown) {
			return fmt.Sprintf("group %d %q shows other subtotals (%v) than the group before (%v)", d, payee, subs, shown)
		}
		for k := range subs {
			if i > 0 && !shown[k] {
				return fmt.Sprintf("group %d %q shows a subtotal for %s, the group before does not", d, payee, k)
			}
		}
		shown = subs
	}
	return ""
}

func (s snap) sameTrans(o snap) string {
	if len(s.trans) != len(o.trans) {
		return fmt.Sprintf("%d transactions in the book, expected %d", len(o.trans), len(s.trans))
	}
	for i := range s.trans {
		if p := lib.SamePosts(o.trans[i], s.trans[i], false); p != "" {
			return "in the book: " + p
		}
	}
	return ""
}

func main() {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = f // warnings of the report
	}
	lib.Main(lib.Case{Name: "accumulate", Run: accumulate})
}
