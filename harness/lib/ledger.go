package lib

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/loader"
)

// Scratch is a directory of this run; it is removed by the check driver.
var Scratch = func() string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		d, _ = os.MkdirTemp("", "verifh")
	}
	return d
}()

// LoadText loads ledger text through a file.
func LoadText(text string) (*book.Book, error) {
	return LoadFile(WriteText("in.ledger", text))
}

func WriteText(name, text string) string {
	f := filepath.Join(Scratch, name)
	os.MkdirAll(filepath.Dir(f), 0o755)
	if err := os.WriteFile(f, []byte(text), 0o644); err != nil {
		panic(err)
	}
	return f
}

// LoadFile is what App.LoadBook does; a rejection at the end is an error too.
func LoadFile(f string) (b *book.Book, err error) {
	bb := book.NewBookBuilder()
	if err := loader.ParseFile(bb, f); err != nil {
		return nil, err
	}
	defer func() {
		if e := recover(); e != nil {
			b, err = nil, fmt.Errorf("%v", e)
		}
	}()
	return bb.Build(), nil
}

// Decimal: an exact decimal fraction
func (r *R) Decimal() *big.Rat {
	if r.Chance(12) {
		return new(big.Rat)
	}
	digits := 1 + r.Intn(6)
	if r.Chance(8) {
		digits = 10 + r.Intn(30)
	}
	n := new(big.Int)
	for i := 0; i < digits; i++ {
		n.Mul(n, big.NewInt(10))
		n.Add(n, big.NewInt(int64(r.Intn(10))))
	}
	if r.Chance(12) && len(LitInts) > 0 {
		n.SetInt64(LitInts[r.Intn(len(LitInts))])
	}
	k := []int{0, 0, 1, 2, 2, 2, 3, 4, 6, 8}[r.Intn(10)]
	if r.Chance(20) {
		k = r.Intn(25)
	}
	d := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(k)), nil)
	v := new(big.Rat).SetFrac(n, d)
	if r.Chance(2) {
		v.Neg(v)
	}
	return v
}

var LedgerCCYs = []string{"£", "$", "EUR", "GBP", "X Y", "BTC", "€", "M&S", "A1", "A-B", "é", "x;y", "£,", "a.b", "%", "A@B", "Ünit"}
var ledgerAccts = []string{"Asset:Bank", "Expense:Food", "Income:Job", "Equity", "A", "B:C", "Asset:Bank2", "R&D", "O'Neil", "a_b:c", "Expense", "P", "D", "include", "X9"}
var ledgerPayees = []string{"Shop", "Shop (2)", "Bank of X", "", "a", "Rent & more", "Zed's", "Café", "x-y", "10/10", "*star", "a;b", "P", "a  b", "* x"}
var ledgerNotes = []string{"", "", "n", "note one", "a;b", "\"q\"", "x  y", "10", "é"}

// LedgerInput: a balanced book that can be written as ledger text
func (r *R) LedgerInput() *Input {
	in := &Input{}
	for n := r.N(2 + r.Size/2); n >= 0; n-- {
		t := ITrans{Date: r.NearDate(), Payee: r.Pick(ledgerPayees...), Note: r.Pick(ledgerNotes...)}
		open := map[string]*big.Rat{}
		var order []string
		add := func(p IPost) {
			if open[p.CCY] == nil {
				open[p.CCY] = new(big.Rat)
				order = append(order, p.CCY)
			}
			open[p.CCY].Add(open[p.CCY], p.Val)
			t.Posts = append(t.Posts, p)
		}
		for k := r.N(3); k >= 0; k-- {
			add(IPost{r.Pick(ledgerAccts...), LedgerCCYs[r.Intn(min(len(LedgerCCYs), 1+r.Size))], r.Pick(ledgerNotes...), r.Decimal()})
		}
		elide := r.Chance(2)
		a, note := r.Pick(ledgerAccts...), r.Pick(ledgerNotes...)
		for _, c := range order {
			if open[c].Sign() == 0 {
				continue
			}
			p := IPost{a, c, note, new(big.Rat).Neg(open[c])}
			if elide {
				p.Note = "\x00" + note // marks a posting without amount
			} else {
				p.Acct, p.Note = r.Pick(ledgerAccts...), r.Pick(ledgerNotes...)
			}
			t.Posts = append(t.Posts, p)
		}
		in.Trans = append(in.Trans, t)
	}
	used := map[string]bool{}
	for n := r.N(4); n > 0; n-- {
		p := IPrice{r.NearDate(), r.Pick(LedgerCCYs...), r.Pick(LedgerCCYs...), r.Decimal()}
		if s := fmt.Sprint(p.Date, p.Unit, "/", p.CCY); p.Val.Sign() > 0 && !used[s] {
			used[s] = true
			in.Prices = append(in.Prices, p)
		}
	}
	return in
}

// Clean removes the marks of postings without amount.
func (in *Input) Clean() *Input {
	out := &Input{Prices: in.Prices}
	for _, t := range in.Trans {
		u := t
		u.Posts = nil
		for _, p := range t.Posts {
			p.Note = strings.TrimPrefix(p.Note, "\x00")
			u.Posts = append(u.Posts, p)
		}
		out.Trans = append(out.Trans, u)
	}
	return out
}

func bareCCY(c string) bool { return !strings.ContainsAny(c, "; @-.0123456789\t\"") && c != "" }

func (r *R) ccyText(c string) string {
	if bareCCY(c) && !r.Chance(6) {
		return c
	}
	return "\"" + c + "\""
}

func (r *R) number(v *big.Rat, sign bool) string {
	k := 0
	p := new(big.Int).Set(big.NewInt(1))
	for new(big.Int).Rem(p, v.Denom()).Sign() != 0 {
		p.Mul(p, big.NewInt(10))
		k++
	}
	k += []int{0, 0, 0, 1, 2}[r.Intn(5)]
	s := new(big.Rat).Abs(v).FloatString(k)
	ip, fp := s, ""
	if i := strings.IndexByte(s, '.'); i >= 0 {
		ip, fp = s[:i], s[i:]
	}
	if r.Chance(3) {
		g := ""
		for len(ip) > 3 {
			g = "," + ip[len(ip)-3:] + g
			ip = ip[:len(ip)-3]
		}
		ip += g
	}
	if r.Chance(10) {
		ip = "00" + ip
	}
	if r.Chance(10) && ip == "0" && fp != "" {
		ip = ""
	}
	if r.Chance(10) && fp == "" {
		fp = "."
	}
	s = ip + fp
	if sign && v.Sign() < 0 {
		s = "-" + s
	}
	return s
}

// amountText: currency and number in one of the accepted forms
func (r *R) amountText(v *big.Rat, ccy string) string {
	c := r.ccyText(ccy)
	neg := v.Sign() < 0
	switch r.Intn(4) {
	case 0:
		return r.number(v, true) + r.Pick(" ", "") + c
	case 1:
		if neg {
			return "-" + c + r.Pick(" ", "") + r.number(v, false)
		}
	case 2:
		if neg && strings.HasPrefix(c, "\"") {
			return "-" + c + " " + r.number(v, false)
		}
	}
	return c + r.Pick(" ", "", "  ") + r.number(v, true)
}

func (r *R) dateText(d int) string {
	y, m, dd := d/10000, d/100%100, d%100
	if r.Chance(4) {
		return fmt.Sprintf("%d/%d/%d", y, m, dd)
	}
	return fmt.Sprintf("%04d/%02d/%02d", y, m, dd)
}

func (r *R) payeeText(p string) string {
	if strings.Contains(p, ";") || (strings.HasPrefix(p, "*")) || (!strings.Contains(p, "\"") && r.Chance(8)) {
		return "\"" + p + "\""
	}
	return p
}

// Lines of a transaction
func (r *R) transText(t ITrans, alias map[string]string, explicit bool) string {
	var sb strings.Builder
	sb.WriteString(r.dateText(t.Date) + " ")
	if r.Chance(4) {
		sb.WriteString("* ")
	}
	sb.WriteString(r.payeeText(t.Payee))
	if t.Note != "" {
		sb.WriteString(r.Pick(" ; ", ";", "  ;  ") + t.Note)
	}
	sb.WriteString("\n")
	done := false
	for _, p := range t.Posts {
		note := p.Note
		elided := strings.HasPrefix(note, "\x00")
		note = strings.TrimPrefix(note, "\x00")
		if elided && !explicit && done {
			continue
		}
		a := p.Acct
		for k, v := range alias {
			if v == a && r.Chance(2) {
				a = k
			}
		}
		sb.WriteString(r.Pick(" ", "  ", "\t") + r.wrap(a))
		if elided && !explicit {
			done = true
		} else {
			sb.WriteString(r.Pick(" ", "  ", "\t") + r.amountText(p.Val, p.CCY))
			if r.Chance(10) {
				sb.WriteString(" @ " + r.Pick("£5", "5 $", "EUR 1.25"))
			}
		}
		if note != "" {
			sb.WriteString(r.Pick(" ; ", ";", "  ;  ") + note)
		} else if r.Chance(10) {
			sb.WriteString("  ")
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

func (r *R) wrap(a string) string {
	if r.Chance(30) {
		return "[" + a + "]"
	}
	return a
}

func (r *R) priceText(p IPrice) string {
	return fmt.Sprintf("P %s %s %s %s\n", r.dateText(p.Date), r.Pick("00:00:00", "1:2:3", "12:30:00"), r.ccyText(p.Unit), r.amountText(p.Val, p.CCY))
}

// Text writes the input as ledger text. With explicit, no amount is left out.
func (in *Input) Text(r *R, explicit bool) string {
	var sb strings.Builder
	alias := map[string]string{}
	if r.Chance(3) {
		for k, v := range map[string]string{"short": "Asset:Bank", "f": "Expense:Food"} {
			if r.Chance(2) {
				alias[k] = v
				fmt.Fprintf(&sb, "%s %s%s=%s%s\n", r.Pick("alias", "ALIAS", "Alias"), k, r.Pick("", " "), r.Pick("", " "), v)
			}
		}
	}
	ps := in.Prices
	for _, t := range in.Trans {
		for len(ps) > 0 && r.Chance(2) {
			sb.WriteString(r.priceText(ps[0]))
			ps = ps[1:]
		}
		if r.Chance(5) {
			sb.WriteString(r.Pick("\n", "; comment\n", "  ; indented comment\n", "   \n", "D £1,000.00\n", "= rule\n"))
		}
		sb.WriteString(r.transText(t, alias, explicit))
		if r.Chance(2) {
			sb.WriteString("\n")
		}
	}
	for _, p := range ps {
		sb.WriteString(r.priceText(p))
	}
	s := sb.String()
	if r.Chance(6) {
		s = strings.TrimSuffix(s, "\n")
	}
	return s
}

// LedgerCCY: a currency, often one that the input uses
func (r *R) LedgerCCY(in *Input) string {
	if len(in.Trans) > 0 && r.Chance(2) {
		t := in.Trans[r.Intn(len(in.Trans))]
		if len(t.Posts) > 0 {
			return t.Posts[r.Intn(len(t.Posts))].CCY
		}
	}
	return LedgerCCYs[r.Intn(len(LedgerCCYs))]
}

func SortedKeys(m map[string]int) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}
