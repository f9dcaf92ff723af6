package main

import (
	"fmt"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/verifharness/lib"
)

func seq(r *lib.R) string {
	return r.Seq("", func(b *book.Book, in *lib.Input, before, after lib.M, op lib.Op) string {
		return lib.Balanced(lib.ReadTrans(b.Transactions()))
	})
}

// one operation at a time, and combinations without reading in between
func raw(r *lib.R) string {
	in := r.Input()
	in.Log(r)
	b := in.Build()
	prices := &lib.Input{Prices: in.Prices}
	dep := 0
	for n := r.N(4); n >= 0; n-- {
		op := r.Op(prices)
		if r.Chance(6) {
			op = r.OpReclassify()
		}
		if op.Kind == "depreciate" {
			if dep++; dep > 1 {
				continue
			}
		}
		r.Logf("%s", op.Name)
		op.Real(b)
		// without forcing the normal form, too
		if op.Kind == "mapccy" {
			break
		}
	}
	if p := lib.Balanced(lib.ReadTrans(b.Transactions())); p != "" {
		return fmt.Sprintf("at the end: %s", p)
	}
	return ""
}

func main() {
	lib.Main(lib.Case{Name: "sequence", Run: seq}, lib.Case{Name: "operations", Run: raw})
}
