package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"sort"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/verifharness/lib"
)

func want(m lib.M, re *regexp.Regexp, nonzero bool) []string {
	type k struct{ a, c string }
	sum := map[k]*big.Rat{}
	for _, p := range m {
		x := k{p.Acct, p.CCY}
		if sum[x] == nil {
			sum[x] = new(big.Rat)
		}
		sum[x].Add(sum[x], p.Val)
	}
	on := map[string]bool{}
	for x, v := range sum {
		on[x.a] = on[x.a] || v.Sign() != 0 || !nonzero
	}
	s := []string{}
	for a, ok := range on {
		if ok && re.MatchString(a) {
			s = append(s, a)
		}
	}
	sort.Strings(s)
	return s
}

func judge(b *book.Book, m lib.M, re string, nz bool) string {
	got := b.Accounts(re, nz)
	w := want(m.Norm(), regexp.MustCompile(re), nz)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", w) {
		return fmt.Sprintf("Accounts(%q, %v) is %q, expected %q", re, nz, got, w)
	}
	return ""
}

func sequence(r *lib.R) string {
	return r.Seq("", func(b *book.Book, in *lib.Input, before, after lib.M, op lib.Op) string {
		return judge(b, after, r.Regex(), r.Chance(2))
	})
}

// closing: books in which accounts come back to zero, by currency
func closing(r *lib.R) string {
	in := &lib.Input{}
	for n := r.N(2 + r.Size/2); n > 0; n-- {
		t := lib.ITrans{Date: r.NearDate(), Payee: r.Payee()}
		for k := 1 + r.N(2); k > 0; k-- {
			a, b := lib.Accts[r.Intn(4)], lib.Accts[r.Intn(5)]
			v := big.NewRat(int64(1+r.Intn(2)), 1)
			if r.Chance(2) {
				v.Neg(v)
			}
			c := lib.CCYs[r.Intn(3)]
			t.Posts = append(t.Posts, lib.IPost{Acct: a, CCY: c, Val: v}, lib.IPost{Acct: b, CCY: c, Val: new(big.Rat).Neg(v)})
		}
		in.Trans = append(in.Trans, t)
	}
	in.Log(r)
	b := in.Build()
	for k := 0; k < 3; k++ {
		if p := judge(b, in.Model(), r.Pick("", "^.*$", r.Regex()), r.Chance(2)); p != "" {
			return p
		}
	}
	return ""
}

func command(r *lib.R) string {
	in := r.LedgerInput().Clean()
	text := in.Text(r, true)
	r.Logf("%s", text)
	a := &app.App{Ledger: lib.WriteText("acc.ledger", text), All: r.Chance(2)}
	args := []string{"accts", "--json"}
	re := "^.*$"
	if r.Chance(2) {
		re = r.Regex()
		args = append(args, re)
	}
	r.Logf("all %v %q", a.All, args)
	out, err := lib.Run(a, args...)
	if err != nil {
		return err.Error()
	}
	got := []string{}
	if err := json.Unmarshal([]byte(out), &got); err != nil {
		return "output is not JSON: " + err.Error()
	}
	if w := want(in.Model().Norm(), regexp.MustCompile(re), !a.All); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", w) {
		return fmt.Sprintf("lists %q, expected %q", got, w)
	}
	return ""
}

func main() {
	lib.Main(lib.Case{Name: "closing", Run: closing}, lib.Case{Name: "sequence", Run: sequence}, lib.Case{Name: "command", Run: command})
}
