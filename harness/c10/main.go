package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/cmd/register"
	"github.com/mescanne/goledger/verifharness/lib"
)

// implied: the rate of a transaction: two postings of one account, one in each
// currency, in opposite directions
func implied(t lib.M, base, ccy string) *big.Rat {
	for i := 0; i < len(t); {
		j := i
		for j < len(t) && t[j].Acct == t[i].Acct {
			j++
		}
		if j-i == 2 {
			a, b := t[i], t[i+1]
			if a.CCY == base && b.CCY == ccy {
				a, b = b, a
			}
			if a.CCY == ccy && b.CCY == base && a.Val.Sign() != b.Val.Sign() {
				q := new(big.Rat).Quo(b.Val, a.Val)
				return q.Neg(q)
			}
		}
		i = j
	}
	return nil
}

// ambiguous: several accounts imply a rate
func ambiguous(t lib.M, base, ccy string) bool {
	n := 0
	for i := 0; i < len(t); {
		j := i
		for j < len(t) && t[j].Acct == t[i].Acct {
			j++
		}
		if implied(t[i:j], base, ccy) != nil {
			n++
		} else if j-i > 2 {
			has := 0
			for k := i; k < i+2; k++ {
				if t[k].CCY == base || t[k].CCY == ccy {
					has++
				}
			}
			if has == 2 {
				n += 2 // the first two of more than two currencies in the account
			}
		}
		i = j
	}
	return n > 1
}

// judge compares entries with what the model of the book requires
func judge(m lib.M, in *lib.Input, rep book.RegistryReport, base string, re *regexp.Regexp, split bool) string {
	bal := map[string]*big.Rat{}
	baseBal := new(big.Rat)
	k := 0
	for _, t := range m.Trans() {
		for _, p := range t {
			if !re.MatchString(p.Acct) {
				continue
			}
			var cs lib.M
			sum := new(big.Rat)
			for _, c := range t {
				if c.Acct != p.Acct && c.CCY == p.CCY && c.Val.Sign() == -p.Val.Sign() {
					cs = append(cs, c)
					sum.Add(sum, c.Val)
				}
			}
			type ent struct {
				acct string
				amt  *big.Rat
			}
			var want []ent
			for _, c := range cs {
				a := new(big.Rat).Mul(p.Val, c.Val)
				want = append(want, ent{c.Acct, a.Quo(a, sum)})
			}
			if !split && len(cs) > 1 {
				var l []string
				for _, c := range cs {
					l = append(l, c.Acct)
				}
				want = []ent{{strings.Join(l, ";"), p.Val}}
			}
			total := new(big.Rat)
			for _, w := range want {
				if k >= len(rep) {
					return fmt.Sprintf("entry missing for %v against %s", p, w.acct)
				}
				e := rep[k]
				k++
				if int(e.Date) != p.Date || e.Payee != p.Payee || e.Account != p.Acct || e.CCY != p.CCY || e.CounterAccount != w.acct || e.Amount.Cmp(w.amt) != 0 {
					return fmt.Sprintf("entry %d is %d %q %s %s against %s %s, expected %v against %s %s", k-1, e.Date, e.Payee, e.Account, e.CCY, e.CounterAccount, e.Amount.RatString(), p, w.acct, w.amt.RatString())
				}
				if e.Note != p.Note || e.TNote != p.TNote {
					return fmt.Sprintf("entry %d has notes %q %q, expected %q %q", k-1, e.TNote, e.Note, p.TNote, p.Note)
				}
				total.Add(total, e.Amount)
				if bal[p.CCY] == nil {
					bal[p.CCY] = new(big.Rat)
				}
				bal[p.CCY].Add(bal[p.CCY], e.Amount)
				if e.Balance.Cmp(bal[p.CCY]) != 0 {
					return fmt.Sprintf("entry %d (%s %s) has balance %s, expected %s", k-1, p.CCY, e.Amount.RatString(), e.Balance.RatString(), bal[p.CCY].RatString())
				}
				rate, src := big.NewRat(1, 1), "Exact"
				if p.CCY != base {
					if r := implied(t, base, p.CCY); r != nil {
						rate, src = r, book.PriceType(book.PriceTypeTrade).String()
					} else {
						rate, src = in.Price(p.Date, p.CCY, base)
					}
				}
				b := new(big.Rat).Mul(e.Amount, rate)
				if e.BaseCCY != base {
					return fmt.Sprintf("entry %d has base currency %q, expected %q", k-1, e.BaseCCY, base)
				}
				if !ambiguous(t, base, p.CCY) && (e.BaseAmount.Cmp(b) != 0 || e.BaseSource.String() != src) {
					return fmt.Sprintf("entry %d (%s %s on %d) has base amount %s (%s), expected %s (%s)", k-1, p.CCY, e.Amount.RatString(), p.Date, e.BaseAmount.RatString(), e.BaseSource, b.RatString(), src)
				}
				baseBal.Add(baseBal, e.BaseAmount)
				if e.BaseBalance.Cmp(baseBal) != 0 {
					return fmt.Sprintf("entry %d has base balance %s, expected %s", k-1, e.BaseBalance.RatString(), baseBal.RatString())
				}
			}
			if len(want) > 0 && total.Cmp(p.Val) != 0 {
				return fmt.Sprintf("entries for %v sum to %s", p, total.RatString())
			}
		}
	}
	if k != len(rep) {
		return fmt.Sprintf("%d entries, expected %d", len(rep), k)
	}
	return ""
}

func extract(r *lib.R) string {
	in := r.Input()
	if r.Chance(2) {
		// more transactions that imply a rate
		for n := r.N(4); n > 0; n-- {
			t := r.Trans()
			c1, c2 := lib.CCYs[r.Intn(3)], lib.CCYs[r.Intn(3)]
			if c1 == c2 {
				continue
			}
			a := r.Acct()
			v1, v2 := r.NonZero(), r.NonZero()
			v1.Abs(v1)
			v2.Neg(v2.Abs(v2))
			t.Posts = append(t.Posts, lib.IPost{Acct: a, CCY: c1, Val: v1}, lib.IPost{Acct: a, CCY: c2, Val: v2},
				lib.IPost{Acct: r.Acct(), CCY: c1, Val: new(big.Rat).Neg(v1)}, lib.IPost{Acct: r.Acct(), CCY: c2, Val: new(big.Rat).Neg(v2)})
			if r.Chance(3) {
				c3, v3 := lib.CCYs[r.Intn(3)], r.NonZero()
				t.Posts = append(t.Posts, lib.IPost{Acct: a, CCY: c3, Val: v3}, lib.IPost{Acct: r.Acct(), CCY: c3, Val: new(big.Rat).Neg(v3)})
			}
			in.Trans = append(in.Trans, t)
		}
	}
	in.Log(r)
	b := in.Build()
	re := regexp.MustCompile(r.Regex())
	base, split := r.CCY(), r.Chance(2)
	r.Logf("ExtractRegister(%q, %v, %v)", base, re, split)
	m := in.Model().Norm()
	if p := judge(m, in, b.ExtractRegister(base, re, split), base, re, split); p != "" {
		return p
	}
	// the notes and amounts of the book stay
	if p := lib.SamePosts(lib.Flat(lib.ReadTrans(b.Transactions())), m, true); p != "" {
		return "the register changed the book: " + p
	}
	return ""
}

// command: the register command for each account
func command(r *lib.R) string {
	in := r.Input()
	for i := range in.Trans {
		in.Trans[i].Payee = strings.TrimSpace(in.Trans[i].Payee)
		in.Trans[i].Note = ""
		for j := range in.Trans[i].Posts {
			p := &in.Trans[i].Posts[j]
			p.Note = ""
		}
	}
	in.Prices = nil
	if len(in.Trans) > 25 {
		in.Trans = in.Trans[:25]
	}
	// amounts with finite decimals only
	for i := range in.Trans {
		for j := range in.Trans[i].Posts {
			p := &in.Trans[i].Posts[j]
			if d := new(big.Int).Set(p.Val.Denom()); new(big.Int).Rem(big.NewInt(1000000000000), d).Sign() != 0 {
				return ""
			}
		}
	}
	in.Log(r)
	f := lib.WriteText("reg.ledger", in.Text(r, true))
	var out bytes.Buffer
	a := &app.App{Ledger: f, BaseCCY: "£", Divider: ":", Lang: "en", All: true, Output: &out}
	cmd := a.LoadCommand()
	register.Add(cmd, a, &register.RegisterReport{Asc: true, Type: "JSON", Split: true})
	args := []string{"register"}
	mm := in.Model()
	if r.Chance(3) {
		// accounts with characters that mean something in patterns
		to := r.Pick("A.B", "A+", "A(1)", "A[x]", "A.*", "Asset:C*sh")
		args = append(args, "map=/^Asset:Cash$/"+to+"/")
		for i := range mm {
			if mm[i].Acct == "Asset:Cash" {
				mm[i].Acct = to
			}
		}
	}
	r.Logf("%v", args)
	cmd.SetArgs(append(args, ".*"))
	if err := cmd.Execute(); err != nil {
		return "register: " + err.Error()
	}
	m := mm.Norm()
	var accts []string
	known := map[string]bool{}
	for _, p := range m {
		if !known[p.Acct] {
			known[p.Acct] = true
			accts = append(accts, p.Acct)
		}
	}
	sort.Strings(accts)
	rest := out.String()
	for _, acct := range accts {
		head := "\n" + acct + "\n"
		if !strings.HasPrefix(rest, head) {
			return fmt.Sprintf("expected the heading of account %q at %.60q", acct, rest)
		}
		rest = rest[len(head):]
		d := json.NewDecoder(strings.NewReader(rest))
		var es []struct {
			Date                    lib.JDate
			Account, Counteraccount string
			CCY                     string
			Amount, Balance         float64
			Payee                   string
		}
		if err := d.Decode(&es); err != nil {
			return "register output is not JSON: " + err.Error()
		}
		rest = rest[d.InputOffset():]
		k := 0
		bal := map[string]*big.Rat{}
		for _, t := range m.Trans() {
			for _, p := range t {
				if p.Acct != acct {
					continue
				}
				sum := new(big.Rat)
				for _, c := range t {
					if c.Acct != p.Acct && c.CCY == p.CCY && c.Val.Sign() == -p.Val.Sign() {
						sum.Add(sum, c.Val)
					}
				}
				for _, c := range t {
					if c.Acct == p.Acct || c.CCY != p.CCY || c.Val.Sign() != -p.Val.Sign() {
						continue
					}
					v := new(big.Rat).Mul(p.Val, c.Val)
					v.Quo(v, sum)
					if bal[p.CCY] == nil {
						bal[p.CCY] = new(big.Rat)
					}
					bal[p.CCY].Add(bal[p.CCY], v)
					if k >= len(es) {
						return fmt.Sprintf("register of %s: entry missing for %v", acct, p)
					}
					e := es[k]
					k++
					fv, _ := v.Float64()
					fb, _ := bal[p.CCY].Float64()
					if int(e.Date) != p.Date || e.Account != acct || e.Counteraccount != c.Acct || e.CCY != p.CCY || e.Payee != p.Payee || e.Amount != fv || e.Balance != fb {
						return fmt.Sprintf("register of %s: entry %+v, expected %v against %s, balance %v", acct, e, p, c.Acct, fb)
					}
				}
			}
		}
		if k != len(es) {
			return fmt.Sprintf("register of %s has %d entries, expected %d", acct, len(es), k)
		}
	}
	if rest != "" {
		return fmt.Sprintf("more output: %.80q", rest)
	}
	return ""
}

func main() {
	lib.Main(lib.Case{Name: "extract", Run: extract}, lib.Case{Name: "command", Run: command})
}
