package main

import (
	"fmt"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/verifharness/lib"
)

type sim struct {
	name string
	f    func(a, b string) float64
}

func sims(r *lib.R) sim {
	switch r.Intn(7) {
	case 0:
		return sim{"equal", func(a, b string) float64 {
			if a == b {
				return 1
			}
			return 0
		}}
	case 1:
		return sim{"zero", func(a, b string) float64 { return 0 }}
	case 2:
		return sim{"one", func(a, b string) float64 { return 1 }}
	case 3:
		return sim{"negative", func(a, b string) float64 { return -1 }}
	case 4:
		return sim{"first letter, asymmetric", func(a, b string) float64 {
			if a == "" || b == "" || a[0] != b[0] {
				return -0.5
			}
			return float64(len(b)) / 100
		}}
	case 5:
		return sim{"tiny", func(a, b string) float64 { return lib.Similar(a, b) * 1e-12 }}
	}
	return sim{"prefix", lib.Similar}
}

func counter(t lib.M, acct string) int {
	if len(t) != 2 {
		return -1
	}
	if t[0].Acct == acct {
		return 1
	}
	if t[1].Acct == acct {
		return 0
	}
	return -1
}

func two(r *lib.R, n int, accts []string, payees []string) *lib.Input {
	in := r.Input()
	if r.Chance(2) {
		in.Trans = nil
	}
	for ; n > 0; n-- {
		t := r.Trans()
		t.Payee = payees[r.Intn(len(payees))]
		v := r.NonZero()
		t.Posts = []lib.IPost{{Acct: accts[0], CCY: "£", Val: v}, {Acct: accts[r.Intn(len(accts))], CCY: "£", Note: r.Note(), Val: neg(v)}}
		if r.Chance(4) {
			t.Posts[0], t.Posts[1] = t.Posts[1], t.Posts[0]
		}
		in.Trans = append(in.Trans, t)
	}
	return in
}

func reclassify(r *lib.R) string {
	accts := []string{"Asset:Bank", "Expense:Food", "Expense", "Income:Job", "AA", "Zed"}[:2+r.N(4)]
	payees := []string{"Shop", "Shop A", "Bank", "a", "", "Rent", "Rental"}[:1+r.N(6)]
	in := two(r, r.N(3+r.Size/2), accts, payees)
	ref := two(r, r.N(3+r.Size), accts, payees)
	acct := accts[0]
	if r.Chance(8) {
		acct = r.Acct()
	}
	s := sims(r)
	in.Log(r)
	r.Logf("reference:")
	ref.Log(r)
	r.Logf("reclassify %s by %s", acct, s.name)
	b, rb := in.Build(), ref.Build()
	b.ReclassifyByAccount(rb, acct, s.f)
	rm := ref.Model().Norm()
	if p := lib.SamePosts(lib.Flat(lib.ReadTrans(rb.Transactions())), rm, true); p != "" {
		return "the reference book changed: " + p
	}
	if p := lib.Normal(rb.Transactions()); p != "" {
		return "the reference book: " + p
	}
	count := map[string]map[string]int{}
	for _, t := range rm.Trans() {
		c := counter(t, acct)
		if c < 0 {
			continue
		}
		if count[t[0].Payee] == nil {
			count[t[0].Payee] = map[string]int{}
		}
		count[t[0].Payee][t[c].Acct]++
	}
	after := map[string]lib.M{}
	ts := lib.ReadTrans(b.Transactions())
	for _, t := range ts {
		after[fmt.Sprint(t[0].Date, t[0].Payee)] = t
	}
	before := in.Model().Norm().Trans()
	for _, t := range before {
		a := after[fmt.Sprint(t[0].Date, t[0].Payee)]
		delete(after, fmt.Sprint(t[0].Date, t[0].Payee))
		c := counter(t, acct)
		if c < 0 {
			if p := lib.SamePosts(a, t, true); p != "" {
				return "a transaction that is not concerned changed: " + p
			}
			continue
		}
		best := 0.0
		for p := range count {
			if d := s.f(t[0].Payee, p); d > best {
				best = d
			}
		}
		allowed := map[string]bool{}
		for p, as := range count {
			if best == 0 || s.f(t[0].Payee, p) != best {
				continue
			}
			max := 0
			for _, n := range as {
				if n > max {
					max = n
				}
			}
			for x, n := range as {
				if n == max {
					allowed[x] = true
				}
			}
		}
		if best == 0 {
			allowed[t[c].Acct] = true
		}
		ok := false
		for x := range allowed {
			w := t.Clone()
			w[c].Acct = x
			if lib.SamePosts(a, w.Norm(), true) == "" {
				ok = true
			}
		}
		if !ok {
			return fmt.Sprintf("transaction %v became %v, allowed counter accounts %v", t, a, allowed)
		}
	}
	for _, t := range after {
		return fmt.Sprintf("transaction %v was not there before", t)
	}
	_ = book.Date(0)
	return ""
}

func main() {
	lib.Main(lib.Case{Name: "reclassify", Run: reclassify})
}
