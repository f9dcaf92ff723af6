package main

import (
	"fmt"
	"math/big"

	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/verifharness/lib"
)

func places(v *big.Rat) int {
	p := big.NewInt(1)
	for k := 0; ; k++ {
		if new(big.Int).Rem(p, v.Denom()).Sign() == 0 {
			return k
		}
		if k > 400 {
			return -1
		}
		p.Mul(p, big.NewInt(10))
	}
}

func places0(in *lib.Input) map[string]int {
	w := map[string]int{}
	for _, t := range in.Trans {
		for _, p := range t.Posts {
			k := places(p.Val)
			if o, ok := w[p.CCY]; !ok || k > o || k < 0 {
				if ok && o < 0 {
					continue
				}
				w[p.CCY] = k
			}
		}
	}
	return w
}

func decimals(r *lib.R) string {
	var in *lib.Input
	if r.Chance(2) {
		in = r.LedgerInput().Clean()
	} else {
		in = r.Input()
	}
	in.Log(r)
	b := in.Build()
	got := b.GetCCYDecimals()
	want := places0(in)
	for c, k := range want {
		if k >= 0 && got[c] != k {
			return fmt.Sprintf("%d decimals for %s, expected %d", got[c], c, k)
		}
		if _, ok := got[c]; !ok {
			return "no decimals for " + c
		}
	}
	for c := range got {
		if _, ok := want[c]; !ok {
			return "decimals for " + c + ", which does not occur"
		}
	}
	return ""
}

// single: one currency, a few amounts with special denominators
func single(r *lib.R) string {
	in := &lib.Input{}
	for n := 1 + r.N(2); n > 0; n-- {
		d := big.NewInt(1)
		for k := r.N(1 + r.Size/2); k > 0; k-- {
			d.Mul(d, big.NewInt([]int64{2, 5, 10}[r.Intn(3)]))
		}
		v := new(big.Rat).SetFrac(big.NewInt(int64(1+r.Intn(3000))), d)
		in.Trans = append(in.Trans, lib.ITrans{Date: 20200101, Payee: "x", Posts: []lib.IPost{{Acct: "A", CCY: "£", Val: v}, {Acct: "B", CCY: "£", Val: new(big.Rat).Neg(v)}}})
	}
	in.Log(r)
	if got, want := in.Build().GetCCYDecimals()["£"], places0(in)["£"]; got != want {
		return fmt.Sprintf("%d decimals, expected %d", got, want)
	}
	return ""
}

func export(r *lib.R) string {
	in := r.LedgerInput()
	text := in.Text(r, false)
	in = in.Clean()
	// prices that need no more decimals than the amounts
	dec := places0(in)
	var ps []lib.IPrice
	for _, p := range in.Prices {
		d, ok := dec[p.CCY]
		if !ok {
			d = 2
		}
		if places(p.Val) <= d {
			ps = append(ps, p)
		}
	}
	in.Prices = ps
	if len(ps) < 4 {
		c := r.LedgerCCY(in)
		d, ok := dec[c]
		if !ok {
			d = 2
		}
		p := lib.IPrice{Date: r.NearDate(), Unit: lib.LedgerCCYs[r.Intn(len(lib.LedgerCCYs))], CCY: c, Val: new(big.Rat).SetFrac(big.NewInt(int64(1+r.Intn(5000))), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(d)), nil))}
		dup := false
		for _, q := range in.Prices {
			dup = dup || q.Date == p.Date && q.Unit == p.Unit && q.CCY == p.CCY
		}
		if !dup {
			in.Prices = append(in.Prices, p)
		}
	}
	text = in.Text(r, true)
	r.Logf("%s", text)
	f := lib.WriteText("exp.ledger", text)
	b1, err := lib.LoadFile(f)
	if err != nil {
		return "not loaded: " + err.Error()
	}
	m := lib.Flat(lib.ReadTrans(b1.Transactions()))
	lang := r.Pick("en", "de", "nl", "fr", "en_GB.UTF-8", "de-CH", "xx", "hi", "ar")
	args := []string{"export"}
	prices := true
	if r.Chance(3) {
		args = []string{"report", "--type", "Ledger", "--splitby", "skip"}
		prices = false
	}
	out, err := lib.Run(&app.App{Ledger: f, Lang: lang}, args...)
	if err != nil {
		return fmt.Sprintf("%v: %v", args, err)
	}
	r.Logf("goledger --lang %s %v: %s", lang, args, out)
	b2, err := lib.LoadText(out)
	if err != nil {
		return "the exported ledger is not loaded: " + err.Error()
	}
	if p := lib.SamePosts(lib.Flat(lib.ReadTrans(b2.Transactions())), m, true); p != "" {
		return "after export and load: " + p
	}
	if prices {
		if p := lib.SamePrices(b2, in); p != "" {
			return "after export and load: " + p
		}
	}
	return ""
}

// ccy: the listed decimals
func ccy(r *lib.R) string {
	in := r.LedgerInput().Clean()
	text := in.Text(r, true)
	r.Logf("%s", text)
	out, err := lib.Run(&app.App{Ledger: lib.WriteText("ccy.ledger", text)}, "ccy")
	if err != nil {
		return err.Error()
	}
	want := ""
	dec := places0(in)
	for _, c := range lib.SortedKeys(dec) {
		want += fmt.Sprintf("%s => %d decimals\n", c, dec[c])
	}
	if out != want {
		return fmt.Sprintf("ccy prints %q, expected %q", out, want)
	}
	return ""
}

func main() {
	lib.Main(lib.Case{Name: "export", Run: export}, lib.Case{Name: "decimals", Run: decimals}, lib.Case{Name: "single", Run: single}, lib.Case{Name: "ccy", Run: ccy})
}
