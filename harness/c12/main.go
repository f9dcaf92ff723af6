package main

import (
	"fmt"
	"math/big"
	"path/filepath"
	"strings"

	"github.com/mescanne/goledger/verifharness/lib"
)

// same compares a loaded book with the model
func same(in *lib.Input, text string, r *lib.R) string {
	b, err := lib.LoadText(text)
	if err != nil {
		return "not loaded: " + err.Error()
	}
	return sameBook(b, in)
}

func load(r *lib.R) string {
	in := r.LedgerInput()
	text := in.Text(r, false)
	r.Logf("%s", text)
	return same(in.Clean(), text, r)
}

// number: one posting with a number written in an unusual way
func number(r *lib.R) string {
	digits := func(n int) string {
		s := ""
		for i := 0; i < n; i++ {
			s += string(rune('0' + r.Intn(10)))
		}
		return s
	}
	ip := digits(r.Intn(1 + r.Size))
	if r.Chance(6) {
		ip = r.Pick("9223372036854775807", "9223372036854775808", "18446744073709551616", "00000000000000000000000001", "2147483648", "4294967296", "922337203685477580")
	}
	fp := ""
	if r.Chance(2) {
		fp = digits(r.Intn(1 + r.Size))
	}
	if len(ip)+len(fp) == 0 {
		ip = "0"
	}
	v, _ := new(big.Rat).SetString("0" + ip + "." + fp + "0")
	txt := ""
	for i, c := range ip {
		if i > 0 && r.Chance(5) {
			txt += ","
		}
		txt += string(c)
	}
	if fp != "" || (len(ip) > 0 && r.Chance(8)) {
		txt += "." + fp
	}
	if r.Chance(2) {
		v.Neg(v)
		txt = "-" + txt
	}
	ccy := r.Pick("£", "$", "EUR", "\"X Y\"", "\"1A\"")
	c := strings.Trim(ccy, "\"")
	amt := ccy + r.Pick("", " ") + txt
	if r.Chance(3) {
		amt = txt + r.Pick("", " ") + ccy
	}
	text := fmt.Sprintf("2020/01/01 x\n  A  %s\n  B\n", amt)
	r.Logf("%s", text)
	in := &lib.Input{Trans: []lib.ITrans{{Date: 20200101, Payee: "x", Posts: []lib.IPost{{Acct: "A", CCY: c, Val: v}, {Acct: "B", CCY: c, Val: new(big.Rat).Neg(v)}}}}}
	return same(in, text, r)
}

// include: the same text in several files
func include(r *lib.R) string {
	in := r.LedgerInput()
	var main strings.Builder
	lib.WriteText("inc/unused.ledger", "")
	parts := &lib.Input{}
	for i, t := range in.Trans {
		one := &lib.Input{Trans: []lib.ITrans{t}}
		if i == 0 {
			one.Prices = in.Prices
		}
		parts.Trans = append(parts.Trans, t)
		text := one.Text(r, false)
		if r.Chance(2) {
			name := fmt.Sprintf("inc/f%d.ledger", i)
			if r.Chance(3) {
				name = fmt.Sprintf("g%d.ledger", i)
			}
			lib.WriteText(name, text)
			r.Logf("%s: %s", name, text)
			fmt.Fprintf(&main, "include %s\n", name)
		} else {
			if !strings.HasSuffix(text, "\n") {
				text += "\n"
			}
			main.WriteString(text)
		}
	}
	f := lib.WriteText("main.ledger", main.String())
	r.Logf("%s", main.String())
	if r.Chance(4) {
		f = filepath.Join(filepath.Dir(f), ".", filepath.Base(f))
	}
	b, err := lib.LoadFile(f)
	if err != nil {
		return "not loaded: " + err.Error()
	}
	in = in.Clean()
	return sameBook(b, in)
}

// aliases: names given, changed and used in any order, also across included files
func aliases(r *lib.R) string {
	in := &lib.Input{}
	names := []string{"a", "b", "c", "d", "e"}
	files := 0
	var write func(known map[string]string, depth int) string
	write = func(known map[string]string, depth int) string {
		var sb strings.Builder
		here := map[string]string{}
		for k, v := range known {
			here[k] = v
		}
		n := 1 + r.Intn(4+r.Size)
		for i := 0; i < n; i++ {
			switch {
			case r.Chance(2):
				k, v := names[r.Intn(len(names))], names[r.Intn(len(names))]
				here[k] = v
				fmt.Fprintf(&sb, "%s %s=%s\n", r.Pick("alias", "Alias", "ALIAS"), k, v)
			case depth < 3 && r.Chance(4):
				files++
				name := fmt.Sprintf("al%d.ledger", files)
				text := write(here, depth+1)
				r.Logf("%s: %s", name, text)
				lib.WriteText(name, text)
				fmt.Fprintf(&sb, "include %s\n", name)
			default:
				t := lib.ITrans{Date: 20200101, Payee: fmt.Sprintf("p%d", len(in.Trans))}
				k, l := names[r.Intn(len(names))], names[r.Intn(len(names))]
				v := big.NewRat(int64(1+r.Intn(9)), 1)
				fmt.Fprintf(&sb, "2020/01/01 %s\n  %s  £%s\n  %s\n", t.Payee, k, v.RatString(), l)
				full := func(s string) string {
					if f, ok := here[s]; ok {
						return f
					}
					return s
				}
				t.Posts = []lib.IPost{{Acct: full(k), CCY: "£", Val: v}, {Acct: full(l), CCY: "£", Val: new(big.Rat).Neg(v)}}
				in.Trans = append(in.Trans, t)
			}
		}
		return sb.String()
	}
	text := write(map[string]string{}, 0)
	r.Logf("%s", text)
	f := lib.WriteText("main.ledger", text)
	b, err := lib.LoadFile(f)
	if err != nil {
		return "not loaded: " + err.Error()
	}
	return sameBook(b, in.Clean())
}

// malformed: a mistake in a well-formed file is an error
func malformed(r *lib.R) string {
	in := r.LedgerInput()
	text := in.Text(r, false)
	good := strings.TrimSuffix(text, "\n") + "\n\n"
	top := []string{"2019/13/01 x", "2019/02/30 x", "2019/00/10 x", "2019/01/00 x", "2019 x", "2019/01 x", "0/1/1 x",
		"P 2019/02/30 00:00:00 EUR £5", "P 2019/01/01 00:00:00 EUR", "P 2019/01/01 00:00:00 EUR 5", "P 2019/01/01 00:00:00 EUR £", "P 2019/01/01 00:00:00 EUR £5 6",
		"xyz", "alias a", "include", "incl x", "p 2019/01/01 00:00:00 EUR £5x.", "%x", "20190101 x", "include nosuchfile.ledger", "20/ x"}
	post := []string{"  A  10", "  A  £", "  A  £1.2.3", "  A  £--1", "  A  £5 6", "  A  -", "  A  \"£", "  A  £-", "  A  .", "  A  £1 2 ; x", "  £5", "  £5 A", "  A  5 £ 6", "  A  £5 x", "  A  £ .",
		"  A  £5\n  B  £-4", "  A  £5", "  A £5\n  B  $-5"}
	var bad string
	if r.Chance(2) {
		bad = r.Pick(top...)
	} else {
		bad = "2019/06/01 bad\n" + r.Pick(post...)
		if !strings.Contains(bad, "\n  B") && !strings.HasSuffix(bad, "A  £5") {
			bad += "\n  Z\n"
		}
	}
	text = good + bad + "\n"
	if r.Chance(2) {
		text += "\n2019/07/01 good\n  A  £1\n  B\n"
	} else if r.Chance(3) {
		text = strings.TrimSuffix(text, "\n")
	}
	r.Logf("%s", text)
	if _, err := lib.LoadText(good); err != nil {
		return "not loaded: " + err.Error()
	}
	if b, err := lib.LoadText(text); err == nil {
		return fmt.Sprintf("no error for %q; loaded %d transactions", bad, len(b.Transactions()))
	}
	return ""
}

func main() {
	lib.Main(lib.Case{Name: "load", Run: load}, lib.Case{Name: "number", Run: number}, lib.Case{Name: "include", Run: include}, lib.Case{Name: "aliases", Run: aliases}, lib.Case{Name: "malformed", Run: malformed})
}
