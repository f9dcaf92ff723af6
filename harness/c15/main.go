package main

import (
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"os"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/script"
	"github.com/mescanne/goledger/verifharness/lib"
	"go.starlark.net/starlark"
)

type amount struct {
	v   starlark.Value
	rat *big.Rat // nil: malformed or missing
}

func amt(r *lib.R) amount {
	v := r.Decimal()
	switch r.Intn(8) {
	case 0:
		n := new(big.Int).Set(v.Num())
		if !n.IsInt64() || r.Chance(2) {
			return amount{starlark.MakeBigInt(n), new(big.Rat).SetInt(n)}
		}
		return amount{starlark.MakeInt64(n.Int64()), new(big.Rat).SetInt(n)}
	case 1:
		f, _ := v.Float64()
		return amount{starlark.Float(f), new(big.Rat).SetFloat64(f)}
	case 2:
		f := []float64{0.1, -0.3, 1e300, 5e-324, 123456789.125, 0, 1.0 / 3}[r.Intn(7)]
		return amount{starlark.Float(f), new(big.Rat).SetFloat64(f)}
	case 3:
		if r.Chance(2) {
			bad := []starlark.Value{starlark.String(""), starlark.String("abc"), starlark.String("1,5"), starlark.String("1.2.3"), starlark.String("--1"), starlark.String("£5"), starlark.String(" 5"),
				starlark.None, starlark.Bool(true), starlark.NewList(nil), starlark.Float(math.NaN()), starlark.Float(math.Inf(1)), starlark.Float(math.Inf(-1)), starlark.NewDict(1), starlark.Tuple{}}
			return amount{bad[r.Intn(len(bad))], nil}
		}
	}
	k := 0
	for p := big.NewInt(1); new(big.Int).Rem(p, v.Denom()).Sign() != 0; k++ {
		p.Mul(p, big.NewInt(10))
	}
	return amount{starlark.String(v.FloatString(k + r.N(2))), v}
}

func denom(r *lib.R) (starlark.Value, int64, bool) {
	switch r.Intn(6) {
	case 0:
		return starlark.MakeInt(0), 0, false
	case 1:
		n := int64(r.Intn(2000)) - 1000
		return starlark.MakeInt64(n), n, n != 0
	}
	n := []int64{1, 10, 100, 1000, 3, 7, 100000000}[r.Intn(7)]
	return starlark.MakeInt64(n), n, true
}

// date as text
func date(r *lib.R) (string, int) {
	if r.Chance(6) {
		return r.Pick("", "2020-13-01", "2020-02-30", "x", "2019-02-29", "2020-00-10", "2020-01-00", "2020-1-32", "20200132", "32/01/2020", "2020-01-01T00:00:00", "12020-01-01", "2020-01-01 "), 0
	}
	d := r.NearDate()
	if r.Chance(4) {
		d = r.Date()
	}
	if d < 10000101 {
		d += 10000000
		if !lib.ValidDate(d) {
			d = 20200229
		}
	}
	return fmt.Sprintf(r.Pick("%04d-%02d-%02d", "%04d/%02d/%02d"), d/10000, d/100%100, d%100), d
}

func add(r *lib.R) string {
	bb := book.NewBookBuilder()
	dacct, dccy, dcacct := "Asset:Bank", "£", "Imbalance"
	f := script.GetBuilderFunction(bb, dacct, dccy, dcacct)
	th := &starlark.Thread{Name: "t"}
	want := &lib.Input{}
	for n := 1 + r.N(1+r.Size/3); n > 0; n-- {
		var kw []starlark.Tuple
		set := func(k string, v starlark.Value) {
			kw = append(kw, starlark.Tuple{starlark.String(k), v})
		}
		ds, d := date(r)
		payee := r.Payee()
		a := amt(r)
		ok := d != 0 && a.rat != nil
		set("date", starlark.String(ds))
		set("desc", starlark.String(payee))
		set("amt", a.v)
		acct, ccy, cacct := dacct, dccy, dcacct
		dn := int64(1)
		if r.Chance(3) {
			ccy = r.CCY()
			set("ccy", starlark.String(ccy))
		}
		if r.Chance(3) {
			v, n, good := denom(r)
			set("denom", v)
			dn = n
			ok = ok && good
		}
		if r.Chance(3) {
			acct = r.Acct()
			set("account", starlark.String(acct))
		}
		ccy2, acct2 := dccy, ""
		var a2 *amount
		dn2 := int64(1)
		if r.Chance(3) {
			x := amt(r)
			a2 = &x
			set("amt2", x.v)
			if x.v != starlark.None || r.Chance(2) {
				acct2 = r.Acct()
				if r.Chance(8) {
					acct2 = ""
				} else {
					set("account2", starlark.String(acct2))
				}
			}
			if r.Chance(2) {
				ccy2 = r.CCY()
				set("ccy2", starlark.String(ccy2))
			} else if ccy != dccy {
				ccy2 = ccy
				set("ccy2", starlark.String(ccy2))
			}
			if r.Chance(3) {
				v, n, good := denom(r)
				set("denom2", v)
				dn2 = n
				ok = ok && good
			}
			if x.v == starlark.None && acct2 == "" {
				a2 = nil
				if dn2 == 0 {
					// whether an unused denominator counts is not said
					dn2 = 1
					kw = kw[:len(kw)-1]
					ok = d != 0 && a.rat != nil && dn != 0
				}
			} else {
				ok = ok && x.rat != nil && acct2 != ""
			}
		}
		if r.Chance(3) {
			cacct = r.Acct()
			set("caccount", starlark.String(cacct))
		}
		note, lnote := "", ""
		if r.Chance(3) {
			note = r.Note()
			set("note", starlark.String(note))
		}
		if r.Chance(3) {
			lnote = r.Note()
			set("lnote", starlark.String(lnote))
		}
		r.Logf("add(%v)", kw)
		_, err := starlark.Call(th, f, nil, kw)
		if ok != (err == nil) {
			return fmt.Sprintf("add: error %v, expected success: %v", err, ok)
		}
		if err != nil {
			continue
		}
		v := new(big.Rat).Mul(a.rat, big.NewRat(1, dn))
		t := lib.ITrans{Date: d, Payee: payee, Note: note, Posts: []lib.IPost{{Acct: acct, CCY: ccy, Note: lnote, Val: v}, {Acct: cacct, CCY: ccy, Val: new(big.Rat).Neg(v)}}}
		if a2 != nil {
			v2 := new(big.Rat).Mul(a2.rat, big.NewRat(1, dn2))
			t.Posts = append(t.Posts, lib.IPost{Acct: acct2, CCY: ccy2, Val: v2}, lib.IPost{Acct: cacct, CCY: ccy2, Val: new(big.Rat).Neg(v2)})
		}
		want.Trans = append(want.Trans, t)
	}
	ts := lib.ReadTrans(bb.Build().Transactions())
	if p := lib.Balanced(ts); p != "" {
		return p
	}
	return lib.SamePosts(lib.Flat(ts), want.Model().Norm(), false)
}

// records in CSV reach the script unchanged
func records(r *lib.R) string {
	cols := 1 + r.N(4)
	header := r.Chance(2)
	delim := r.Pick(",", ";", "\t", "|")
	cell := func() string {
		s := r.Pick("", "a", "10.50", "x,y", "q\"q", "é", "2020-01-01", "a;b", "two words", "line\nbreak", "x ", "|", "-5", "'", "#c")
		return s
	}
	var hdr []string
	for j := 0; j < cols; j++ {
		hdr = append(hdr, fmt.Sprintf("%s%d", r.Pick("h", "Date", "x y"), j))
	}
	var rows [][]string
	for n := r.N(2 + r.Size/2); n > 0; n-- {
		row := make([]string, cols)
		for j := range row {
			row[j] = cell()
		}
		if cols == 1 && row[0] == "" {
			row[0] = "z" // an empty line is no record
		}
		rows = append(rows, row)
	}
	var sb strings.Builder
	w := csv.NewWriter(&sb)
	w.Comma = []rune(delim)[0]
	if header {
		w.Write(hdr)
	}
	for _, row := range rows {
		w.Write(row)
	}
	w.Flush()
	r.Logf("header %v, delimiter %q: %s", header, delim, sb.String())
	v, err := script.GetReadCSV(delim, header)(strings.NewReader(sb.String()))
	if err != nil {
		return err.Error()
	}
	l, ok := v.(*starlark.List)
	if !ok || l.Len() != len(rows) {
		return fmt.Sprintf("%d records, expected %d", l.Len(), len(rows))
	}
	for i, row := range rows {
		if header {
			d, ok := l.Index(i).(*starlark.Dict)
			if !ok || d.Len() != cols {
				return fmt.Sprintf("record %d is %v", i, l.Index(i))
			}
			for j := range row {
				g, _, _ := d.Get(starlark.String(hdr[j]))
				if g != starlark.String(row[j]) {
					return fmt.Sprintf("record %d field %s is %v, expected %q", i, hdr[j], g, row[j])
				}
			}
		} else {
			e, ok := l.Index(i).(*starlark.List)
			if !ok || e.Len() != cols {
				return fmt.Sprintf("record %d is %v", i, l.Index(i))
			}
			for j := range row {
				if e.Index(j) != starlark.String(row[j]) {
					return fmt.Sprintf("record %d field %d is %v, expected %q", i, j, e.Index(j), row[j])
				}
			}
		}
	}
	return ""
}

func value(r *lib.R, depth int) interface{} {
	switch k := r.Intn(8); {
	case k == 0:
		return r.Chance(2)
	case k == 1:
		f, _ := r.Decimal().Float64()
		return f
	case k == 2 && depth > 0:
		l := []interface{}{}
		for n := r.N(3); n > 0; n-- {
			l = append(l, value(r, depth-1))
		}
		return l
	case k <= 4 && depth > 0:
		m := map[string]interface{}{}
		for n := r.N(4); n > 0; n-- {
			m[r.Pick("a", "b", "Date", "é", "", "x y")] = value(r, depth-1)
		}
		return m
	}
	return r.Pick("", "text", "10.5", "é\"", "true", "null")
}

func compare(v interface{}, s starlark.Value, path string) string {
	switch x := v.(type) {
	case bool:
		if s != starlark.Bool(x) {
			return fmt.Sprintf("%s is %v, expected %v", path, s, x)
		}
	case float64:
		if f, ok := s.(starlark.Float); !ok || float64(f) != x {
			if i, ok := s.(starlark.Int); !ok || float64(i.Float()) != x {
				return fmt.Sprintf("%s is %v, expected %v", path, s, x)
			}
		}
	case string:
		if s != starlark.String(x) {
			return fmt.Sprintf("%s is %v, expected %q", path, s, x)
		}
	case []interface{}:
		l, ok := s.(*starlark.List)
		if !ok || l.Len() != len(x) {
			return fmt.Sprintf("%s is %v, expected a list of %d", path, s, len(x))
		}
		for i := range x {
			if p := compare(x[i], l.Index(i), fmt.Sprintf("%s[%d]", path, i)); p != "" {
				return p
			}
		}
	case map[string]interface{}:
		d, ok := s.(*starlark.Dict)
		if !ok || d.Len() != len(x) {
			return fmt.Sprintf("%s is %v, expected %d fields", path, s, len(x))
		}
		for k := range x {
			e, found, _ := d.Get(starlark.String(k))
			if !found {
				return fmt.Sprintf("%s.%s is missing", path, k)
			}
			if p := compare(x[k], e, path+"."+k); p != "" {
				return p
			}
		}
	}
	return ""
}

func jsonData(r *lib.R) string {
	v := value(r, 3)
	b, _ := json.Marshal(v)
	r.Logf("%s", b)
	s, err := script.ReadJSON(strings.NewReader(string(b)))
	if err != nil {
		return err.Error()
	}
	return compare(v, s, "data")
}

// command: the import command on a CSV file
func command(r *lib.R) string {
	in := &lib.Input{}
	var sb strings.Builder
	w := csv.NewWriter(&sb)
	w.Write([]string{"When", "What", "Much"})
	seen := map[string]bool{}
	dn := []int64{1, 100, 10}[r.Intn(3)]
	for n := r.N(3 + r.Size/2); n > 0; n-- {
		d := r.NearDate()
		p := fmt.Sprintf("%s%d", r.Pick("Shop ", "Bank, plc ", "x"), r.Intn(1000))
		if seen[fmt.Sprint(d, p)] {
			continue
		}
		seen[fmt.Sprint(d, p)] = true
		v := big.NewRat(int64(r.Intn(100000)-50000), 100)
		w.Write([]string{fmt.Sprintf("%04d-%02d-%02d", d/10000, d/100%100, d%100), p, v.FloatString(2)})
		v = new(big.Rat).Mul(v, big.NewRat(1, dn))
		in.Trans = append(in.Trans, lib.ITrans{Date: d, Payee: p, Posts: []lib.IPost{{Acct: "Asset:Bank", CCY: "£", Val: v}, {Acct: "Todo", CCY: "£", Val: new(big.Rat).Neg(v)}}})
	}
	w.Flush()
	code := fmt.Sprintf("[add(date=r['When'], desc=r['What'], amt=r['Much'], denom=%d) for r in data]", dn)
	r.Logf("%s\n%s", code, sb.String())
	data := lib.WriteText("imp.csv", sb.String())
	main := lib.WriteText("imp.ledger", "2001/01/01 first\n  A  £0.0001\n  B\n")
	out, err := lib.Run(&app.App{Ledger: main, BaseCCY: "£"}, "import", "--format", "csv:header", "--acct", "Asset:Bank", "--cacct", "Todo", "--code", code, data)
	if err != nil {
		return "import: " + err.Error()
	}
	b, err := lib.LoadText(out)
	if err != nil {
		return "the output of the import is not loaded: " + err.Error() + out
	}
	return lib.SamePosts(lib.Flat(lib.ReadTrans(b.Transactions())), in.Model().Norm(), false)
}

func main() {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = f
	}
	lib.Main(lib.Case{Name: "add", Run: add}, lib.Case{Name: "records", Run: records}, lib.Case{Name: "json", Run: jsonData}, lib.Case{Name: "command", Run: command})
}
