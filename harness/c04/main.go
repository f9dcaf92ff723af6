package main

import (
	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/verifharness/lib"
)

func with(kinds string) func(r *lib.R) string {
	return func(r *lib.R) string {
		return r.Seq(kinds, func(b *book.Book, in *lib.Input, before, after lib.M, op lib.Op) string {
			return lib.SameSums(lib.Flat(lib.ReadTrans(b.Transactions())), after)
		})
	}
}

func main() {
	lib.Main(
		lib.Case{Name: "map", Run: with("map ")},
		lib.Case{Name: "move", Run: with("move")},
		lib.Case{Name: "depreciate", Run: with("depreciate")},
		lib.Case{Name: "combine", Run: with("combine")},
		lib.Case{Name: "convert", Run: with("convert mapccy")},
		lib.Case{Name: "mixed", Run: with("map move depreciate combine convert mapccy scale")},
	)
}
