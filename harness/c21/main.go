package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/cmd/utils"
	"github.com/mescanne/goledger/verifharness/lib"
)

// twice runs f several times and compares what comes out
func twice(what string, f func() string) string {
	first := f()
	for i := 0; i < 5; i++ {
		if s := f(); s != first {
			return fmt.Sprintf("%s: run %d differs:\n%s\nfrom the first run:\n%s", what, i+2, s, first)
		}
	}
	return ""
}

func show(out string, err error) string {
	if err != nil {
		return out + "\nerror: " + err.Error()
	}
	return out
}

// many: a ledger with several currencies and prices
func many(r *lib.R) *lib.Input {
	in := r.LedgerInput().Clean()
	if r.Chance(2) {
		in.Prices = append(in.Prices, r.LedgerInput().Prices...)
	}
	return in
}

func command(r *lib.R) string {
	in := many(r)
	text := in.Text(r, true)
	f := lib.WriteText("main.ledger", text)
	args := []string{}
	switch r.Intn(6) {
	case 0, 1:
		args = []string{"export", "--type", r.Pick("Ledger", "Json", "Beancount", "CSV")}
	case 2:
		args = []string{"report", "--type", r.Pick("Text", "Ledger", "Json", "Beancount", "Html")}
		if r.Chance(2) {
			args = append(args, "--sum")
		}
	case 3:
		args = []string{"ccy"}
	case 4:
		args = []string{"accts"}
	case 5:
		args = []string{"register", r.Acct(), "--type", r.Pick("Text", "Json", "CSV")}
	}
	base := r.LedgerCCY(in)
	r.Logf("base currency %s, %v on\n%s", base, args, text)
	return twice(strings.Join(args, " "), func() string {
		return show(lib.Run(&app.App{Ledger: f, BaseCCY: base, Colour: false}, args...))
	})
}

// unbalanced: the message of a transaction that does not balance
func unbalanced(r *lib.R) string {
	in := many(r)
	for i := range in.Trans {
		for j := range in.Trans[i].Posts {
			if r.Chance(4) {
				in.Trans[i].Posts[j].Val = r.NonZero()
			}
		}
	}
	in.Log(r)
	return twice("building", func() (s string) {
		defer func() {
			if e := recover(); e != nil {
				s = fmt.Sprint("rejected: ", e)
			}
		}()
		bb := book.NewBookBuilder()
		in.Feed(bb)
		return fmt.Sprint(lib.Flat(lib.ReadTrans(bb.Build().Transactions())))
	})
}

// importing: reclassification and duplicate removal on import
func importing(r *lib.R) string {
	var sb strings.Builder
	payees := []string{"Shop A", "Shop B", "Shop C", "Landlord", "Land"}[:2+r.Intn(4)]
	accts := []string{"Expense:Food", "Expense:Home", "Expense:Fun", "Income", "Asset:Cash"}[:2+r.Intn(4)]
	for n := 2 + r.N(4+r.Size); n > 0; n-- {
		fmt.Fprintf(&sb, "2020/01/%02d %s\n  Asset:Bank  £%d\n  %s\n\n", 1+r.Intn(28), payees[r.Intn(len(payees))], 1+r.Intn(9), accts[r.Intn(len(accts))])
	}
	main := lib.WriteText("main.ledger", sb.String())
	var cs strings.Builder
	for n := 1 + r.N(4); n > 0; n-- {
		fmt.Fprintf(&cs, "2020-01-%02d,%s,%d\n", 1+r.Intn(28), payees[r.Intn(len(payees))], 1+r.Intn(9))
	}
	data := lib.WriteText("imp.csv", cs.String())
	r.Logf("%s\n%s", sb.String(), cs.String())
	code := "[add(date=r[0], desc=r[1], amt=r[2]) for r in data]"
	return twice("import", func() string {
		return show(lib.Run(&app.App{Ledger: main, BaseCCY: "£"}, "import", "--format", "csv", "--acct", "Asset:Bank", "--cacct", "Todo", "--code", code, data))
	})
}

// operations: the same operations on the same book
func operations(r *lib.R) string {
	in := r.Input()
	in.Log(r)
	var ops []string
	for n := r.N(3); n > 0; n-- {
		re := strings.ReplaceAll(r.Regex(), "/", "")
		ops = append(ops, r.Pick("map=/"+re+"/"+r.Repl()+"/", "combine="+r.Pick("yearly", "monthly", "none"), "mapccy=/^./"+r.Pick("U", "EUR")+"/", "move=/"+re+"/"+r.Acct()+"/0.5/"))
	}
	r.Logf("%q", ops)
	return twice("operations", func() string {
		b := in.Build()
		a := &app.App{Lang: "en", Divider: ":"}
		s := ""
		if err := a.BookOps(b, ops...); err != nil {
			s = err.Error()
		}
		for _, p := range b.GetPricePairs() {
			s += fmt.Sprint(p.Unit, "/", p.CCY, ";")
			for _, q := range b.GetPriceList(p.Unit, p.CCY) {
				s += fmt.Sprint(int(q.GetDate()), q.GetPrice().RatString(), " ")
			}
		}
		for _, x := range b.Accounts("", true) {
			s += x + ";"
		}
		for _, t := range b.Transactions() {
			for _, p := range t {
				s += fmt.Sprint(int(p.GetDate()), p.GetPayee(), p.GetAccount(), p.GetCCY(), p.GetAmount().RatString(), p.GetBalance().RatString(), p.GetPostNote(), p.GetTransactionNote(), "\n")
			}
		}
		return s
	})
}

func config(r *lib.R) string {
	s := "csv:"
	for n := r.N(5); n > 0; n-- {
		s += fmt.Sprintf("k%d=%d,", n, n)
	}
	s = strings.TrimRight(s, ",")
	r.Logf("%q", s)
	return twice("configuration", func() string {
		var c utils.CLIConfig
		if err := c.Set(s); err != nil {
			return err.Error()
		}
		return c.String()
	})
}

func main() {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = f
	}
	lib.Main(lib.Case{Name: "operations", Run: operations}, lib.Case{Name: "command", Run: command}, lib.Case{Name: "unbalanced", Run: unbalanced}, lib.Case{Name: "importing", Run: importing}, lib.Case{Name: "config", Run: config})
}
