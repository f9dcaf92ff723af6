package main

import (
	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/verifharness/lib"
)

func seq(r *lib.R) string {
	return r.Seq("", func(b *book.Book, in *lib.Input, before, after lib.M, op lib.Op) string {
		ts := b.Transactions()
		if p := lib.Normal(ts); p != "" {
			return p
		}
		if op.Kind != "mapccy" && op.Kind != "convert" {
			return lib.SamePosts(lib.Flat(lib.ReadTrans(ts)), after.Norm(), false)
		}
		return ""
	})
}

// load: many postings with equal keys
func load(r *lib.R) string {
	in := r.Input()
	if r.Chance(2) && len(in.Trans) > 0 {
		for i := range in.Trans {
			in.Trans[i].Date = 20200101 + r.Intn(1+r.Size/8)
			for j := range in.Trans[i].Posts {
				in.Trans[i].Posts[j].Acct = r.Pick("A", "B", "A:B")
			}
		}
	}
	in.Log(r)
	b := in.Build()
	for k := 0; k < 2; k++ { // reading twice must not change anything
		ts := b.Transactions()
		if p := lib.Normal(ts); p != "" {
			return p
		}
		if p := lib.SamePosts(lib.Flat(lib.ReadTrans(ts)), in.Model().Norm(), false); p != "" {
			return p
		}
	}
	return ""
}

func main() {
	lib.Main(lib.Case{Name: "load", Run: load}, lib.Case{Name: "sequence", Run: seq})
}
