package main

import (
	"fmt"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/verifharness/lib"
)

func sameBook(b *book.Book, in *lib.Input) string {
	got := lib.ReadTrans(b.Transactions())
	want := in.Model().Norm()
	if p := lib.SamePosts(lib.Flat(got), want, false); p != "" {
		return p
	}
	// notes, where the key was declared once
	type key struct {
		d       int
		p, a, c string
	}
	n := map[key]int{}
	for _, p := range in.Model() {
		n[key{p.Date, p.Payee, p.Acct, p.CCY}]++
	}
	for i, p := range lib.Flat(got) {
		if p.TNote != want[i].TNote || (n[key{p.Date, p.Payee, p.Acct, p.CCY}] == 1 && p.Note != want[i].Note) {
			return fmt.Sprintf("posting %v has notes %q, %q, expected %q, %q", p, p.TNote, p.Note, want[i].TNote, want[i].Note)
		}
	}
	return lib.SamePrices(b, in)
}
