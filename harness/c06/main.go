package main

import (
	"fmt"
	"math"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/verifharness/lib"
)

func one(d int) string {
	D := book.Date(d)
	n := lib.ToDays(d)
	if got := D.AsDays(); got != n {
		return fmt.Sprintf("AsDays(%d) = %d, expected %d", d, got, n)
	}
	if got := book.GetDateFromDays(n); int(got) != d {
		return fmt.Sprintf("GetDateFromDays(%d) = %d, expected %d", n, int(got), d)
	}
	y := d / 10000
	if got := book.YearIsLeapYear(y - 1); got != lib.Leap(y) {
		return fmt.Sprintf("YearIsLeapYear(%d) = %v", y-1, got)
	}
	want := float64(y-1) + float64(n-lib.ToDays(y*10000+101))/float64(lib.ToDays((y+1)*10000+101)-lib.ToDays(y*10000+101))
	if got := D.AsYears(); math.Abs(got-want) > 1e-9 {
		return fmt.Sprintf("AsYears(%d) = %v, expected %v", d, got, want)
	}
	if next := lib.FromDays(n + 1); !(D.AsYears() < book.Date(next).AsYears()) {
		return fmt.Sprintf("AsYears(%d) = %v, not below AsYears(%d) = %v", d, D.AsYears(), next, book.Date(next).AsYears())
	}
	if got := book.GetDate(y, d/100%100, d%100); int(got) != d {
		return fmt.Sprintf("GetDate(%d) = %d", d, int(got))
	}
	return ""
}

// every day of the first 800 years, and then all others in steps
func days(r *lib.R) string {
	base := r.Intn(3652059)
	r.Logf("2000 days from %d", base)
	for n := base; n < base+2000 && n < 3652059; n++ {
		if p := one(lib.FromDays(n)); p != "" {
			return p
		}
	}
	return ""
}

func edges(r *lib.R) string {
	y := 1 + r.Intn(9997)
	r.Logf("year %d", y)
	for m := 1; m <= 12; m++ {
		for _, d := range []int{1, 2, 27, 28, lib.MonthDays(y, m)} {
			if p := one(y*10000 + m*100 + d); p != "" {
				return p
			}
		}
	}
	return ""
}

func floors(r *lib.R) string {
	d := r.Date()
	diff := r.Intn(61) - 30
	if r.Chance(6) {
		diff = r.Intn(2001) - 1000
	}
	if diff < 0 && (d/10000)*12+diff*12 < 24 {
		diff = -diff
	}
	r.Logf("date %d diff %d", d, diff)
	D := book.Date(d)
	for _, k := range []struct {
		by string
		m  int
		f  func(int) book.Date
	}{{"yearly", 12, D.FloorYear}, {"quarterly", 3, D.FloorQuarter}, {"monthly", 1, D.FloorMonth}} {
		want := lib.FloorDate(d, k.m, diff)
		if want/10000 > 9999 || want < 10101 {
			continue
		}
		if got := k.f(diff); int(got) != want {
			return fmt.Sprintf("%s floor of %d with offset %d = %d, expected %d", k.by, d, diff, int(got), want)
		}
		if got := D.FloorDiff(k.by, diff); int(got) != want {
			return fmt.Sprintf("FloorDiff(%d, %s, %d) = %d, expected %d", d, k.by, diff, int(got), want)
		}
		if got := D.Floor(k.by); int(got) != lib.FloorDate(d, k.m, 0) {
			return fmt.Sprintf("Floor(%d, %s) = %d", d, k.by, int(got))
		}
	}
	if D.Floor("none") != D {
		return fmt.Sprintf("Floor(%d, none) = %d", d, int(D.Floor("none")))
	}
	return ""
}

func diffs(r *lib.R) string {
	a, b := r.Date(), r.Date()
	r.Logf("%d %d", a, b)
	A, B := book.Date(a), book.Date(b)
	if got := A.DaysSince(B); got != lib.ToDays(a)-lib.ToDays(b) {
		return fmt.Sprintf("DaysSince(%d, %d) = %d, expected %d", a, b, got, lib.ToDays(a)-lib.ToDays(b))
	}
	if got := B.AddDays(A.DaysSince(B)); got != A {
		return fmt.Sprintf("%d plus the days between them is %d, expected %d", b, int(got), a)
	}
	k := r.Intn(4000) - 2000
	if n := lib.ToDays(a) + k; n >= 0 && n < 3652059 {
		if got := A.AddDays(k); int(got) != lib.FromDays(n) {
			return fmt.Sprintf("AddDays(%d, %d) = %d, expected %d", a, k, int(got), lib.FromDays(n))
		}
	}
	if a < b && !(A.AsYears() < B.AsYears()) {
		return fmt.Sprintf("AsYears(%d) = %v, not below AsYears(%d) = %v", a, A.AsYears(), b, B.AsYears())
	}
	return ""
}

// all: every day once, in 366 cases
func all(r *lib.R) string { return "" }

func main() {
	k := -1
	lib.Main(
		lib.Case{Name: "edges", Run: edges},
		lib.Case{Name: "every-day", Max: 366, Run: func(r *lib.R) string {
			k++
			r.Logf("days %d to %d", k*10000, k*10000+9999)
			for n := k * 10000; n < (k+1)*10000 && n < 3651695; n++ {
				if p := one(lib.FromDays(n)); p != "" {
					return p
				}
			}
			return ""
		}},
		lib.Case{Name: "days", Run: days},
		lib.Case{Name: "floors", Run: floors},
		lib.Case{Name: "differences", Run: diffs},
	)
}
