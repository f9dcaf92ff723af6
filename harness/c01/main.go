package main

import (
	"fmt"
	"math/big"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/verifharness/lib"
)

func try(f func()) (msg interface{}) {
	defer func() { msg = recover() }()
	f()
	return nil
}

func open(t lib.ITrans) bool {
	sum := map[string]*big.Rat{}
	for _, p := range t.Posts {
		if sum[p.CCY] == nil {
			sum[p.CCY] = new(big.Rat)
		}
		sum[p.CCY].Add(sum[p.CCY], p.Val)
	}
	for _, v := range sum {
		if v.Sign() != 0 {
			return true
		}
	}
	return false
}

// accept: balanced books are accepted and hold what was declared
func accept(r *lib.R) string {
	in := r.Input()
	// many transactions of the same date and payee
	if r.Chance(3) {
		for i := range in.Trans {
			in.Trans[i].Date = 20200101 + r.Intn(2)
			in.Trans[i].Payee = r.Pick("Shop", "Shop (2)", "Shop (3)", "Shop (2) (2)", "")
		}
	}
	in.Log(r)
	var b *book.Book
	if e := try(func() { b = in.Build() }); e != nil {
		return fmt.Sprintf("a balanced book is rejected: %v", e)
	}
	got := lib.Flat(lib.ReadTrans(b.Transactions()))
	want := in.Model()
	if p := lib.SameSums(got, want); p != "" {
		return p
	}
	if p := lib.SamePosts(got, want.Norm(), false); p != "" {
		return p
	}
	return lib.Balanced(lib.ReadTrans(b.Transactions()))
}

// reject: one transaction is not balanced
func reject(r *lib.R) string {
	in := r.Input()
	if len(in.Trans) == 0 {
		in.Trans = append(in.Trans, r.Trans())
	}
	k := r.Intn(len(in.Trans))
	t := &in.Trans[k]
	i := r.Intn(len(t.Posts))
	var d *big.Rat
	switch r.Intn(4) {
	case 0:
		// by very little
		d = new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(1+r.Intn(25))), nil))
	default:
		d = r.NonZero()
	}
	if r.Chance(2) {
		d.Neg(d)
	}
	if r.Chance(4) {
		// the other way round in another currency
		t.Posts = append(t.Posts, lib.IPost{Acct: r.Acct(), CCY: t.Posts[i].CCY + "'", Val: new(big.Rat).Neg(d)})
	}
	t.Posts[i].Val = new(big.Rat).Add(t.Posts[i].Val, d)
	if r.Chance(4) && len(in.Trans) > 1 {
		// the next transaction makes up for it
		o := &in.Trans[(k+1)%len(in.Trans)]
		o.Posts = append(o.Posts, lib.IPost{Acct: r.Acct(), CCY: t.Posts[i].CCY, Val: new(big.Rat).Neg(d)})
	}
	first := -1
	for j := range in.Trans {
		if open(in.Trans[j]) {
			first = j
			break
		}
	}
	in.Log(r)
	if first < 0 {
		return ""
	}
	b := book.NewBookBuilder()
	for j, t := range in.Trans {
		if e := try(func() { b.NewTransaction(book.Date(t.Date), t.Payee, t.Note) }); e != nil {
			if j <= first {
				return fmt.Sprintf("transaction %d rejected but those before it are balanced: %v", j, e)
			}
			return ""
		} else if j > first {
			return fmt.Sprintf("transaction %d accepted although %d is not balanced", j, first)
		}
		for _, p := range t.Posts {
			b.AddPosting(p.Acct, p.CCY, new(big.Rat).Set(p.Val), p.Note)
		}
	}
	if e := try(func() { b.Build() }); e == nil {
		return "the book is completed although the last transaction is not balanced"
	}
	return ""
}

// file: the same through ledger files
func file(r *lib.R) string {
	in := r.LedgerInput()
	bad := false
	if len(in.Trans) > 0 && r.Chance(2) {
		t := &in.Trans[r.Intn(len(in.Trans))]
		if len(t.Posts) > 0 {
			p := &t.Posts[r.Intn(len(t.Posts))]
			p.Val = new(big.Rat).Add(p.Val, big.NewRat(int64(1+r.Intn(5)), 100))
			bad = open(*t)
		}
	}
	text := in.Text(r, bad)
	r.Logf("%s", text)
	b, err := lib.LoadText(text)
	if bad {
		if err == nil {
			return "a ledger with a transaction that is not balanced is accepted"
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("a balanced ledger is rejected: %v", err)
	}
	return lib.SamePosts(lib.Flat(lib.ReadTrans(b.Transactions())), in.Clean().Model().Norm(), false)
}

func main() {
	lib.Main(lib.Case{Name: "accept", Run: accept}, lib.Case{Name: "reject", Run: reject}, lib.Case{Name: "file", Run: file})
}
