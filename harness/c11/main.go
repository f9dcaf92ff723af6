package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/cmd/register"
	"github.com/mescanne/goledger/verifharness/lib"
)

func entries(r *lib.R) book.RegistryReport {
	n := r.N(3 + r.Size)
	if r.Chance(50) {
		n = 100 + r.Intn(60)
	}
	var rep book.RegistryReport
	d := r.NearDate()
	for i := 0; i < n; i++ {
		if r.Chance(2) {
			d = lib.FromDays(lib.ToDays(d) + r.Intn(1+r.Intn(40)))
			if d > 99990000 {
				break
			}
		}
		rep = append(rep, &book.RegistryEntry{Date: book.Date(d), Account: fmt.Sprintf("A%d", i), Payee: fmt.Sprintf("p%d", i), CounterAccount: "C",
			Amount: big.NewRat(int64(i), 1), CCY: "£", Balance: big.NewRat(int64(i*i), 1), Note: fmt.Sprint("n", i), TNote: fmt.Sprint("t", i),
			BaseCCY: "£", BaseAmount: big.NewRat(1, 1), BaseBalance: big.NewRat(2, 1)})
	}
	return rep
}

func dateStr(d int) string {
	if d == 0 {
		return ""
	}
	return fmt.Sprintf("%04d-%02d-%02d", d/10000, d/100%100, d%100)
}

func near(r *lib.R, rep book.RegistryReport) int {
	if r.Chance(3) {
		return 0
	}
	if len(rep) == 0 || r.Chance(6) {
		return r.Date()
	}
	n := lib.ToDays(int(rep[r.Intn(len(rep))].Date)) + r.Intn(3) - 1
	if n < 0 {
		n = 0
	}
	return lib.FromDays(n)
}

func want(rep book.RegistryReport, lo, hi int) book.RegistryReport {
	var w book.RegistryReport
	for _, e := range rep {
		if (lo == 0 || int(e.Date) >= lo) && (hi == 0 || int(e.Date) < hi) {
			w = append(w, e)
		}
	}
	return w
}

func same(got, w book.RegistryReport) string {
	for i := 0; i < len(got) || i < len(w); i++ {
		if i >= len(got) {
			return fmt.Sprintf("entry %s (%d) missing", w[i].Account, w[i].Date)
		}
		if i >= len(w) {
			return fmt.Sprintf("entry %s (%d) too much", got[i].Account, got[i].Date)
		}
		if got[i] != w[i] {
			return fmt.Sprintf("entry %d is %s (%d), expected %s (%d)", i, got[i].Account, got[i].Date, w[i].Account, w[i].Date)
		}
	}
	return ""
}

func window(r *lib.R) string {
	rep := entries(r)
	lo, hi := near(r, rep), near(r, rep)
	var ds []int
	for _, e := range rep {
		ds = append(ds, int(e.Date))
	}
	r.Logf("entries on %v, begin %q, end %q", ds, dateStr(lo), dateStr(hi))
	w := want(rep, lo, hi)
	cp := append(book.RegistryReport{}, rep...)
	rep.FilterByDate(dateStr(lo), dateStr(hi))
	_ = cp
	return same(rep, w)
}

func limit(w book.RegistryReport, count int, asc bool) book.RegistryReport {
	if count > 0 && count < len(w) {
		w = w[:count]
	}
	if count < 0 && -count < len(w) {
		w = w[len(w)+count:]
	}
	if !asc {
		var v book.RegistryReport
		for i := len(w) - 1; i >= 0; i-- {
			v = append(v, w[i])
		}
		w = v
	}
	return w
}

type jent struct {
	Date                  lib.JDate
	Account, Payee, Note  string
	CounterAccount, TNote string
	Amount, Balance       float64
}

func show(r *lib.R) string {
	rep := entries(r)
	count := r.Intn(2*len(rep)+5) - len(rep) - 2
	if r.Chance(4) {
		count = []int{0, 1, -1, 2, -2, len(rep), -len(rep)}[r.Intn(7)]
	}
	asc := r.Chance(2)
	typ := r.Pick("JSON", "CSV", "Text")
	r.Logf("%d entries, count %d, asc %v, type %s", len(rep), count, asc, typ)
	orig := append(book.RegistryReport{}, rep...)
	w := limit(orig, count, asc)
	var out bytes.Buffer
	a := &app.App{Lang: "en", Divider: ":", Output: &out}
	bp := a.NewBookPrinter(map[string]int{"£": 0})
	if err := register.ShowReport(bp, rep, typ, count, asc, true, true); err != nil {
		return err.Error()
	}
	if p := same(rep, orig); p != "" {
		return "showing changed the register: " + p
	}
	var accts []string
	switch typ {
	case "JSON":
		var es []jent
		if err := json.Unmarshal(out.Bytes(), &es); err != nil {
			return "output is not JSON: " + err.Error()
		}
		for i, e := range es {
			accts = append(accts, e.Account)
			if i < len(w) {
				x := w[i]
				f, _ := x.Amount.Float64()
				if int(e.Date) != int(x.Date) || e.Payee != x.Payee || e.Note != x.Note || e.TNote != x.TNote || e.Amount != f {
					return fmt.Sprintf("entry %d is %+v, expected %s", i, e, x.Account)
				}
			}
		}
	default:
		for i, l := range strings.Split(strings.TrimSuffix(out.String(), "\n"), "\n") {
			if i == 0 {
				continue
			}
			if typ == "CSV" {
				accts = append(accts, strings.Split(l, ",")[2])
			} else {
				accts = append(accts, strings.Fields(l)[2])
			}
		}
	}
	for i := 0; i < len(accts) || i < len(w); i++ {
		if i >= len(accts) {
			return fmt.Sprintf("entry %d (%s) missing in the output", i, w[i].Account)
		}
		if i >= len(w) || accts[i] != w[i].Account {
			return fmt.Sprintf("output line %d is %s, expected %d lines", i, accts[i], len(w))
		}
	}
	return ""
}

func command(r *lib.R) string {
	in := &lib.Input{}
	n := 1 + r.N(2+r.Size/2)
	for i := 0; i < n; i++ {
		d := r.NearDate()
		v := big.NewRat(int64(1+i), 1)
		in.Trans = append(in.Trans, lib.ITrans{Date: d, Payee: "p" + strconv.Itoa(i), Posts: []lib.IPost{{Acct: "A", CCY: "£", Val: v}, {Acct: "B", CCY: "£", Val: new(big.Rat).Neg(v)}}})
	}
	in.Log(r)
	m := in.Model().Norm()
	var all []int
	for _, p := range m {
		if p.Acct == "A" {
			all = append(all, p.Date)
		}
	}
	pick := func() int {
		if r.Chance(3) {
			return 0
		}
		n := lib.ToDays(all[r.Intn(len(all))]) + r.Intn(3) - 1
		return clampDay(n)
	}
	lo, hi := pick(), pick()
	count := r.Intn(2*n+3) - n - 1
	asc := r.Chance(2)
	f := lib.WriteText("win.ledger", in.Text(r, true))
	var out bytes.Buffer
	a := &app.App{Ledger: f, BaseCCY: "£", Divider: ":", Lang: "en", All: true, Output: &out}
	cmd := a.LoadCommand()
	register.Add(cmd, a, &register.RegisterReport{Type: "JSON"})
	args := []string{"register", "--count=" + strconv.Itoa(count), "--asc=" + strconv.FormatBool(asc)}
	if r.Chance(2) {
		args = append(args, "--combined")
	}
	if lo != 0 {
		args = append(args, "--begin", dateStr(lo))
	}
	if hi != 0 {
		args = append(args, "--asof", dateStr(hi))
	}
	args = append(args, "^A$")
	r.Logf("goledger %v", args)
	cmd.SetArgs(args)
	if err := cmd.Execute(); err != nil {
		return "register: " + err.Error()
	}
	o := strings.TrimPrefix(out.String(), "\nA\n")
	var es []jent
	if err := json.Unmarshal([]byte(o), &es); err != nil {
		return "output is not JSON: " + err.Error()
	}
	var w lib.M
	var ws book.RegistryReport
	for _, p := range m {
		if p.Acct == "A" && (lo == 0 || p.Date >= lo) && (hi == 0 || p.Date < hi) {
			w = append(w, p)
			ws = append(ws, &book.RegistryEntry{Date: book.Date(p.Date), Payee: p.Payee})
		}
	}
	ws = limit(ws, count, asc)
	if len(ws) != len(es) {
		return fmt.Sprintf("%d entries shown, expected %d", len(es), len(ws))
	}
	for i := range es {
		if int(es[i].Date) != int(ws[i].Date) || es[i].Payee != ws[i].Payee {
			return fmt.Sprintf("entry %d is %d %s, expected %d %s", i, es[i].Date, es[i].Payee, ws[i].Date, ws[i].Payee)
		}
	}
	return ""
}

func main() {
	lib.Main(lib.Case{Name: "window", Run: window}, lib.Case{Name: "show", Run: show}, lib.Case{Name: "command", Run: command})
}

func clampDay(n int) int {
	if n < 0 {
		n = 0
	}
	d := lib.FromDays(n)
	if d > 99991231 {
		d = 99991231
	}
	return d
}
