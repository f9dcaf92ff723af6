package main

import (
	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/verifharness/lib"
)

func seq(r *lib.R) string {
	return r.Seq("asof since account", func(b *book.Book, in *lib.Input, before, after lib.M, op lib.Op) string {
		return lib.SamePosts(lib.Flat(lib.ReadTrans(b.Transactions())), after.Norm(), true)
	})
}

// boundary: filter dates at and next to the dates of transactions
func boundary(r *lib.R) string {
	in := r.Input()
	in.Log(r)
	if len(in.Trans) == 0 {
		return ""
	}
	b := in.Build()
	m := in.Model().Norm()
	d := in.Trans[r.Intn(len(in.Trans))].Date
	n := lib.ToDays(d) + r.Intn(3) - 1
	if n < 0 {
		return ""
	}
	d = lib.FromDays(n)
	var want lib.M
	before := r.Chance(2)
	r.Logf("date %d, before=%v", d, before)
	for _, p := range m {
		if (p.Date < d) == before {
			want = append(want, p)
		}
	}
	if before {
		b.FilterByDateAsof(book.Date(d))
	} else {
		b.FilterByDateSince(book.Date(d))
	}
	return lib.SamePosts(lib.Flat(lib.ReadTrans(b.Transactions())), want, true)
}

func main() {
	lib.Main(lib.Case{Name: "sequence", Run: seq}, lib.Case{Name: "boundary", Run: boundary})
}
