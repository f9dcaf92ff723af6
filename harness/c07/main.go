package main

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/verifharness/lib"
)

func input(r *lib.R) *lib.Input {
	in := &lib.Input{}
	used := map[string]bool{}
	pairs := 1 + r.N(3)
	for k := 0; k < pairs; k++ {
		u, c := r.CCY(), r.CCY()
		for try := 0; u == c && try < 20; try++ {
			c = lib.CCYs[r.Intn(len(lib.CCYs))]
		}
		if u == c {
			continue
		}
		n := 1 + r.N(2+r.Size)
		if r.Chance(40) {
			n = 60 + r.Intn(100)
		}
		for i := 0; i < n; i++ {
			d := r.NearDate()
			if i > 0 && len(in.Prices) > 0 && r.Chance(4) {
				d = lib.FromDays(lib.ToDays(in.Prices[len(in.Prices)-1].Date) + 1)
			}
			if s := fmt.Sprint(d, u, "/", c); used[s] || d > 99990101 {
				continue
			} else {
				used[s] = true
			}
			v := r.NonZero()
			in.Prices = append(in.Prices, lib.IPrice{Date: d, Unit: u, CCY: c, Val: v.Abs(v)})
		}
	}
	return in
}

func queryDates(r *lib.R, in *lib.Input) []int {
	ds := []int{r.Date(), r.NearDate()}
	for i := 0; i < 6 && len(in.Prices) > 0; i++ {
		n := lib.ToDays(in.Prices[r.Intn(len(in.Prices))].Date) + r.Intn(7) - 3
		if n >= 0 && n < 3652059 {
			ds = append(ds, lib.FromDays(n))
		}
	}
	return ds
}

func query(r *lib.R) string {
	in := input(r)
	in.Log(r)
	b := in.Build()
	for _, d := range queryDates(r, in) {
		us := append([]string{}, lib.CCYs[:3]...)
		if len(in.Prices) > 0 {
			p := in.Prices[r.Intn(len(in.Prices))]
			us = append(us, p.Unit, p.CCY)
		}
		for _, u := range us {
			for _, c := range us {
				want, wk := in.Price(d, u, c)
				got, pt := b.GetPrice(book.Date(d), u, c)
				if got.Cmp(want) != 0 || pt.String() != wk {
					r.Logf("query %d %s %s", d, u, c)
					return fmt.Sprintf("price of %s in %s on %d is %s (%s), expected %s (%s)", u, c, d, got.RatString(), pt, want.RatString(), wk)
				}
			}
		}
	}
	// queries must not change the prices
	for _, p := range in.Prices {
		if got, _ := b.GetPrice(book.Date(p.Date), p.Unit, p.CCY); got.Cmp(p.Val) != 0 {
			return fmt.Sprintf("price of %s in %s on %d is %s after the queries, expected %s", p.Unit, p.CCY, p.Date, got.RatString(), p.Val.RatString())
		}
	}
	return ""
}

func iterate(r *lib.R) string {
	in := input(r)
	in.Log(r)
	if len(in.Prices) == 0 {
		return ""
	}
	b := in.Build()
	p := in.Prices[r.Intn(len(in.Prices))]
	pl := b.GetPriceList(p.Unit, p.CCY)
	var ds []int
	for k := 0; k < 3; k++ {
		ds = append(ds, queryDates(r, in)...)
	}
	ds = append(ds, ds[0])
	sort.Ints(ds)
	it := pl.GetIterator()
	for _, d := range ds {
		want, wk := in.Price(d, p.Unit, p.CCY)
		got, pt := it.GetPrice(book.Date(d))
		if got.Cmp(want) != 0 || pt.String() != wk {
			r.Logf("iterate %s %s over %v", p.Unit, p.CCY, ds)
			return fmt.Sprintf("iterator price on %d is %s (%s), expected %s (%s)", d, got.RatString(), pt, want.RatString(), wk)
		}
		got, pt = pl.GetPrice(book.Date(d))
		if got.Cmp(want) != 0 || pt.String() != wk {
			r.Logf("query %s %s on %d", p.Unit, p.CCY, d)
			return fmt.Sprintf("list price on %d is %s (%s), expected %s (%s)", d, got.RatString(), pt, want.RatString(), wk)
		}
	}
	// the list itself: every recorded price once, by date
	n := 0
	for _, q := range in.Prices {
		if q.Unit == p.Unit && q.CCY == p.CCY {
			n++
		}
	}
	if len(pl) != n {
		return fmt.Sprintf("%d prices of %s in %s, expected %d", len(pl), p.Unit, p.CCY, n)
	}
	for i := range pl {
		if i > 0 && pl[i-1].GetDate() >= pl[i].GetDate() {
			return fmt.Sprintf("prices out of order: %d then %d", pl[i-1].GetDate(), pl[i].GetDate())
		}
		var _ *big.Rat = pl[i].GetPrice()
	}
	return ""
}

func main() {
	lib.Main(lib.Case{Name: "query", Run: query}, lib.Case{Name: "iterate", Run: iterate})
}
