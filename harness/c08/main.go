package main

import (
	"fmt"

	"github.com/mescanne/goledger/verifharness/lib"
)

func dedup(r *lib.R) string {
	in, ref := r.Input(), r.Input()
	// share some transactions
	for i := range in.Trans {
		if len(ref.Trans) > 0 && r.Chance(2) {
			t := ref.Trans[r.Intn(len(ref.Trans))]
			in.Trans[i].Date = t.Date
			if r.Chance(2) {
				in.Trans[i].Payee = t.Payee
			}
		}
	}
	r.Logf("book:")
	in.Log(r)
	r.Logf("reference:")
	ref.Log(r)
	b, rb := in.Build(), ref.Build()
	refWant := lib.Flat(lib.ReadTrans(rb.Transactions()))
	known := map[string]bool{}
	for _, p := range ref.Model().Norm() {
		known[fmt.Sprint(p.Date, "/", p.Payee)] = true
	}
	var want lib.M
	for _, p := range in.Model().Norm() {
		if !known[fmt.Sprint(p.Date, "/", p.Payee)] {
			want = append(want, p)
		}
	}
	b.RemoveDuplicatesOf(rb)
	if p := lib.SamePosts(lib.Flat(lib.ReadTrans(b.Transactions())), want, true); p != "" {
		return p
	}
	if p := lib.SamePosts(lib.Flat(lib.ReadTrans(rb.Transactions())), refWant, true); p != "" {
		return "the reference book changed: " + p
	}
	// a second reference book
	if r.Chance(3) {
		other := r.Input()
		r.Logf("second reference:")
		other.Log(r)
		for _, p := range other.Model().Norm() {
			known[fmt.Sprint(p.Date, "/", p.Payee)] = true
		}
		b.RemoveDuplicatesOf(other.Build())
		var w2 lib.M
		for _, p := range want {
			if !known[fmt.Sprint(p.Date, "/", p.Payee)] {
				w2 = append(w2, p)
			}
		}
		if p := lib.SamePosts(lib.Flat(lib.ReadTrans(b.Transactions())), w2, true); p != "" {
			return "second reference: " + p
		}
	}
	return ""
}

func main() { lib.Main(lib.Case{Name: "dedup", Run: dedup}) }
