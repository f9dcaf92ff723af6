package main

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/cmd/export"
	"github.com/mescanne/goledger/cmd/register"
	"github.com/mescanne/goledger/verifharness/lib"
)

func input(r *lib.R) *lib.Input {
	in := r.Input()
	odd := []string{"a,b", "q\"q", "<x> & y", "é世", "semi;colon", "line\nbreak", " lead", "\ttab", "'", "\\", "null"}
	for i := range in.Trans {
		t := &in.Trans[i]
		if r.Chance(5) {
			t.Payee = r.Pick(odd...)
		}
		if r.Chance(4) {
			t.Note = r.Pick(odd...)
		}
		for j := range t.Posts {
			p := &t.Posts[j]
			if r.Chance(5) {
				p.Note = r.Pick(odd...)
			}
			if r.Chance(12) {
				p.Acct = r.Pick("A,B", "A\"B", "A B", "Ä")
			}
		}
	}
	return in
}

func num(v *big.Rat) float64 {
	f, _ := v.Float64()
	return f
}

type jt struct {
	Date        lib.JDate
	Payee, Note string
	Posts       []struct {
		Account, CCY, Note string
		Amount             float64
	}
}

func jsonOut(r *lib.R) string {
	in := input(r)
	in.Log(r)
	b := in.Build()
	var out bytes.Buffer
	a := &app.App{Lang: "en", Output: &out}
	if err := a.NewBookPrinter(b.GetCCYDecimals()).PrintJSON(b.Transactions(), r.Chance(2)); err != nil {
		return err.Error()
	}
	var ts []jt
	if err := json.Unmarshal(out.Bytes(), &ts); err != nil {
		return "output is not JSON: " + err.Error()
	}
	if p := has(out.Bytes(), "posts", "date", "posts"); p != "" {
		return p
	}
	return compare(ts, in.Model().Norm().Trans())
}

// has: every object of a JSON array has these members (whatever their case)
func has(data []byte, sub string, keys ...string) string {
	var os []map[string]json.RawMessage
	if err := json.Unmarshal(data, &os); err != nil {
		return err.Error()
	}
	for i, o := range os {
		low := map[string]json.RawMessage{}
		for k, v := range o {
			low[strings.ToLower(k)] = v
		}
		for _, k := range keys {
			if _, ok := low[k]; !ok {
				return fmt.Sprintf("JSON record %d has no %q: %v", i, k, o)
			}
		}
		if sub != "" {
			if p := has(low[sub], "", "account", "ccy", "amount"); p != "" {
				return p
			}
		}
	}
	return ""
}

func compare(ts []jt, want []lib.M) string {
	if len(ts) != len(want) {
		return fmt.Sprintf("%d transactions, expected %d", len(ts), len(want))
	}
	for i, t := range ts {
		w := want[i]
		if int(t.Date) != w[0].Date || t.Payee != w[0].Payee || t.Note != w[0].TNote || len(t.Posts) != len(w) {
			return fmt.Sprintf("transaction %d is %d %q %q with %d postings, expected %d %q %q with %d", i, t.Date, t.Payee, t.Note, len(t.Posts), w[0].Date, w[0].Payee, w[0].TNote, len(w))
		}
		for j, p := range t.Posts {
			if p.Account != w[j].Acct || p.CCY != w[j].CCY || p.Note != w[j].Note || p.Amount != num(w[j].Val) {
				return fmt.Sprintf("posting %d of transaction %d is %+v, expected %v note %q", j, i, p, w[j], w[j].Note)
			}
		}
	}
	return ""
}

func csvOut(r *lib.R) string {
	in := input(r)
	in.Log(r)
	b := in.Build()
	var out bytes.Buffer
	a := &app.App{Lang: "en", Output: &out}
	if err := export.ShowCSV(a.NewBookPrinter(b.GetCCYDecimals()), b); err != nil {
		return err.Error()
	}
	rows, err := csv.NewReader(&out).ReadAll()
	if err != nil {
		return "output is not CSV: " + err.Error()
	}
	col := map[string]int{}
	for i, h := range rows[0] {
		col[h] = i
	}
	rows = rows[1:]
	m := in.Model().Norm()
	if len(rows) != len(m) {
		return fmt.Sprintf("%d rows, expected %d", len(rows), len(m))
	}
	for i, row := range rows {
		w := m[i]
		f, err := strconv.ParseFloat(row[col["amount"]], 64)
		if row[col["date"]] != date(w.Date) || row[col["payee"]] != w.Payee || row[col["transaction_note"]] != w.TNote || row[col["account"]] != w.Acct ||
			row[col["currency"]] != w.CCY || row[col["post_note"]] != w.Note || err != nil || f != num(w.Val) {
			return fmt.Sprintf("row %d is %q, expected %v, notes %q %q", i, row, w, w.TNote, w.Note)
		}
	}
	return ""
}

func date(d int) string { return fmt.Sprintf("%04d/%02d/%02d", d/10000, d/100%100, d%100) }

// amt: an amount, sometimes zero
func amt(r *lib.R) *big.Rat {
	if r.Chance(4) {
		return new(big.Rat)
	}
	return r.Amount()
}

// registers: entries with all fields different
func registers(r *lib.R) string {
	var rep book.RegistryReport
	odd := []string{"", "a,b", "q\"q", "<x>", "é", "x;y"}
	for i := r.N(2 + r.Size/2); i > 0; i-- {
		s := func(k string) string { return k + strconv.Itoa(i) + r.Pick(odd...) }
		rep = append(rep, &book.RegistryEntry{Date: book.Date(r.NearDate()), Account: s("acct"), Payee: s("payee"), CounterAccount: s("c"), Amount: r.Amount(), CCY: s("ccy"),
			Balance: amt(r), Note: s("note"), TNote: s("tnote"), BaseCCY: s("base"), BaseAmount: r.Amount(), BaseBalance: amt(r),
			BaseSource: []book.PriceType{book.PriceTypeExact, book.PriceTypeTrade, book.PriceTypeInferred}[r.Intn(3)]})
		r.Logf("%+v", *rep[len(rep)-1])
	}
	var out bytes.Buffer
	a := &app.App{Lang: "en", Output: &out}
	bp := a.NewBookPrinter(nil)
	if err := register.ShowReport(bp, rep, "JSON", 0, true, true, true); err != nil {
		return err.Error()
	}
	var js []struct {
		Date                                             lib.JDate
		Account, Payee, CounterAccount, CCY, Note, TNote string
		BaseCCY, BaseSource                              string
		Amount, Balance, BaseAmount, BaseBalance         float64
	}
	if err := json.Unmarshal(out.Bytes(), &js); err != nil {
		return "output is not JSON: " + err.Error()
	}
	if p := has(out.Bytes(), "", "date", "amount", "balance", "baseamount", "basebalance", "account", "ccy"); p != "" {
		return p
	}
	if len(js) != len(rep) {
		return fmt.Sprintf("%d JSON entries, expected %d", len(js), len(rep))
	}
	for i, j := range js {
		e := rep[i]
		if int(j.Date) != int(e.Date) || j.Account != e.Account || j.Payee != e.Payee || j.CounterAccount != e.CounterAccount || j.CCY != e.CCY || j.Note != e.Note || j.TNote != e.TNote ||
			j.BaseCCY != e.BaseCCY || j.BaseSource != e.BaseSource.String() || j.Amount != num(e.Amount) || j.Balance != num(e.Balance) || j.BaseAmount != num(e.BaseAmount) || j.BaseBalance != num(e.BaseBalance) {
			return fmt.Sprintf("JSON entry %d is %+v, expected %+v", i, j, *e)
		}
	}
	out.Reset()
	if err := register.ShowReport(bp, rep, "CSV", 0, true, true, true); err != nil {
		return err.Error()
	}
	rows, err := csv.NewReader(&out).ReadAll()
	if err != nil {
		return "output is not CSV: " + err.Error()
	}
	if len(rows) != len(rep)+1 {
		return fmt.Sprintf("%d CSV rows, expected %d", len(rows)-1, len(rep))
	}
	col := map[string]int{}
	for i, h := range rows[0] {
		col[h] = i
	}
	for i, row := range rows[1:] {
		e := rep[i]
		f, err1 := strconv.ParseFloat(row[col["amount"]], 64)
		g, err2 := strconv.ParseFloat(row[col["balance"]], 64)
		if row[col["date"]] != date(int(e.Date)) || row[col["payee"]] != e.Payee || row[col["account"]] != e.Account || row[col["counterAccount"]] != e.CounterAccount ||
			row[col["ccy"]] != e.CCY || err1 != nil || err2 != nil || f != num(e.Amount) || g != num(e.Balance) {
			return fmt.Sprintf("CSV row %d is %q, expected %+v", i, row, *e)
		}
	}
	return ""
}

// commands on a ledger file
func command(r *lib.R) string {
	in := r.LedgerInput()
	text := in.Text(r, true)
	r.Logf("%s", text)
	f := lib.WriteText("out.ledger", text)
	b, err := lib.LoadFile(f)
	if err != nil {
		return "not loaded: " + err.Error()
	}
	want := lib.ReadTrans(b.Transactions())
	args := []string{"export", "--type", "Json"}
	if r.Chance(2) {
		args = []string{"report", "--type", "Json", "--splitby", "skip"}
	}
	if r.Chance(2) {
		args = append(args, "--jsonpretty")
	}
	out, err := lib.Run(&app.App{Ledger: f}, args...)
	if err != nil {
		return err.Error()
	}
	var ts []jt
	if err := json.Unmarshal([]byte(out), &ts); err != nil {
		return "output is not JSON: " + err.Error()
	}
	if p := compare(ts, want); p != "" {
		return fmt.Sprint(args, ": ", p)
	}
	if out, err = lib.Run(&app.App{Ledger: f}, "export", "--type", "CSV"); err != nil {
		return err.Error()
	}
	rows, err := csv.NewReader(strings.NewReader(out)).ReadAll()
	if err != nil {
		return "output is not CSV: " + err.Error()
	}
	if m := lib.Flat(want); len(rows) != len(m)+1 {
		return fmt.Sprintf("%d rows, expected %d", len(rows)-1, len(m))
	}
	return ""
}

func main() {
	lib.Main(lib.Case{Name: "json", Run: jsonOut}, lib.Case{Name: "csv", Run: csvOut}, lib.Case{Name: "registers", Run: registers}, lib.Case{Name: "command", Run: command})
}
