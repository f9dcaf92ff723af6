package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
	"unicode"

	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/verifharness/lib"
)

// item of a string: an escape sequence (kept), or a character, shown or not
type item struct {
	text string
	show bool
	esc  bool
}

var chars = []string{"a", "b", "Z", "0", " ", "é", "€", "世", "界", "\t", "~", "m", "[", ";", "\u00a0", "\u0301", "ß", "😀", "%", "\"", "\ufffd",
	"\n", "\r", "\x00", "\x7f", "\u200b", "\u2028", "\x07", "\u00ad", "\ufeff"}
var escs = []string{"\033[0m", "\033[0;34m", "\033[4m", "\033[0;31m", "\033m", "\033[1;31;40m", "\033é世m", "\033\tm", "\033 m"}

func str(r *lib.R, n int) []item {
	var s []item
	for i := 0; i < n; i++ {
		switch {
		case r.Chance(6):
			s = append(s, item{escs[r.Intn(len(escs))], false, true})
		case r.Chance(5):
			s = append(s, mk(string(rune(r.Intn(0x3000)))))
		case r.Chance(8):
			s = append(s, mk(string(rune(0x20+r.Intn(0x1fff0)))))
		default:
			s = append(s, mk(chars[r.Intn(len(chars))]))
		}
	}
	if r.Chance(10) {
		// an escape that does not end
		t := "\033["
		for k := r.N(3); k > 0; k-- {
			t += r.Pick("0", ";", "3", "é")
		}
		s = append(s, item{t, false, true})
	}
	return s
}

func mk(c string) item {
	ru := []rune(c)[0]
	if ru == 0x1b {
		return mk("x")
	}
	return item{c, ru == '\t' || unicode.IsPrint(ru), false}
}

func text(s []item) string {
	var sb strings.Builder
	for _, i := range s {
		sb.WriteString(i.text)
	}
	return sb.String()
}

func width(s []item) int {
	n := 0
	for _, i := range s {
		if i.show {
			n++
		}
	}
	return n
}

func pad(s []item, max int, left bool) string {
	var sb strings.Builder
	n := 0
	for _, i := range s {
		if i.esc {
			sb.WriteString(i.text)
			continue
		}
		if !i.show {
			continue
		}
		n++
		if n <= max {
			if i.text == "\t" {
				sb.WriteString(" ")
			} else {
				sb.WriteString(i.text)
			}
		}
	}
	if n >= max {
		return sb.String()
	}
	p := strings.Repeat(" ", max-n)
	if left {
		return sb.String() + p
	}
	return p + sb.String()
}

func cell(r *lib.R) string {
	s := str(r, r.N(2+r.Size))
	if r.Chance(300) {
		s = str(r, 300+r.Intn(3000))
	}
	t := text(s)
	max := r.N(4 + r.Size)
	if r.Chance(3) {
		max = width(s) + r.Intn(3) - 1
	}
	if max < 0 {
		max = 0
	}
	r.Logf("%q padded to %d", t, max)
	if g := app.Length(t); g != width(s) {
		return fmt.Sprintf("length is %d, expected %d", g, width(s))
	}
	for _, left := range []bool{true, false} {
		if g, w := app.PadString(t, max, left), pad(s, max, left); g != w {
			return fmt.Sprintf("padded (left %v) is %q, expected %q", left, g, w)
		}
		g := app.PadString(t, max, left)
		if n := app.Length(g); n != max && !strings.Contains(t, "\033[") {
			return fmt.Sprintf("padded to %d instead of %d", n, max)
		}
	}
	if g, w := app.ColumnString(t).Pad(max), pad(s, max, true); g != w || app.ColumnString(t).Length() != width(s) {
		return fmt.Sprintf("column is %q, expected %q", g, w)
	}
	if g, w := app.ColumnRightString(t).Pad(max), pad(s, max, false); g != w || app.ColumnRightString(t).Length() != width(s) {
		return fmt.Sprintf("right column is %q, expected %q", g, w)
	}
	return ""
}

// combine several columns into one
func combine(r *lib.R) string {
	cols, rows := 1+r.N(3), 1+r.N(4)
	all := make([][][]item, cols)
	in := make([][]string, cols)
	w := 0
	for j := range all {
		for i := 0; i < rows; i++ {
			s := str(r, r.N(6))
			if n := len(s); n > 0 && s[n-1].esc {
				s = append(s, item{"m", true, false})
				if strings.HasSuffix(s[n-1].text, "m") {
					s = s[:n]
				} else {
					s[n] = item{"", false, true}
					s[n-1].text += "m"
				}
			}
			all[j] = append(all[j], s)
			in[j] = append(in[j], text(s))
			if width(s) > w {
				w = width(s)
			}
		}
	}
	max := 0
	if r.Chance(2) {
		max = 1 + r.Intn(8)
		if max < w {
			w = max
		}
	}
	r.Logf("Combine(%q, %d)", in, max)
	got, err := app.Combine(in, max)
	if err != nil {
		return err.Error()
	}
	for i := 0; i < rows; i++ {
		var c []string
		for j := range all {
			c = append(c, pad(all[j][i], w, false))
		}
		if g := got[i]; g != strings.Join(c, " ") {
			return fmt.Sprintf("row %d is %q, expected %q", i, g, strings.Join(c, " "))
		}
	}
	if len(got) != rows {
		return "number of rows"
	}
	return ""
}

// table: widths and shrinking
func table(r *lib.R) string {
	cols, rows := 1+r.N(5), 1+r.N(5)
	shrink := make([]bool, cols)
	for j := range shrink {
		shrink[j] = r.Chance(2)
	}
	data := make([][]app.ColumnValue, rows)
	txt := make([][]string, rows)
	its := make([][][]item, rows)
	nat := make([]int, cols)
	right := make([]bool, cols)
	for j := range right {
		right[j] = r.Chance(3)
	}
	for i := range data {
		if i > 0 && r.Chance(8) {
			continue
		}
		for j := 0; j < cols; j++ {
			var s []item
			for k := r.N(1 + r.Size); k > 0; k-- {
				if r.Chance(8) {
					s = append(s, item{escs[r.Intn(4)], false, true})
				} else {
					s = append(s, mk(r.Pick("a", "b", "é", "世", "x", "1", " ", "\t")))
				}
			}
			if right[j] {
				data[i] = append(data[i], app.ColumnRightString(text(s)))
			} else {
				data[i] = append(data[i], app.ColumnString(text(s)))
			}
			its[i] = append(its[i], s)
			txt[i] = append(txt[i], text(s))
			if width(s) > nat[j] {
				nat[j] = width(s)
			}
		}
	}
	total, sw := cols-1, 0
	for j, n := range nat {
		total += n
		if shrink[j] {
			sw += n
		}
	}
	term := -1
	if !r.Chance(5) {
		term = 1 + r.Intn(total+6)
	}
	r.Logf("columns %q, shrink %v, terminal %d", txt, shrink, term)
	app.SetTermWidth(term)
	var out bytes.Buffer
	a := &app.App{Lang: "en", Divider: ":", Output: &out}
	a.NewBookPrinter(nil).PrintColumns(data, shrink)
	lines := strings.Split(out.String(), "\n")
	if len(lines) != rows+1 || lines[rows] != "" {
		return fmt.Sprintf("%d lines for %d rows", len(lines)-1, rows)
	}
	want := total
	fits := term > 0 && total > term
	if fits {
		want = term
		if total-sw > term {
			// not even the other columns fit
			want = -1
		}
		if sw == 0 {
			want = total
		}
	}
	first := -1
	for i, l := range lines[:rows] {
		if data[i] == nil {
			if l != "" {
				return fmt.Sprintf("separator line %q", l)
			}
			continue
		}
		if first < 0 {
			first = app.Length(l)
		}
		if n := app.Length(l); n != first {
			return fmt.Sprintf("line %d has width %d, line 0 %d", i, n, first)
		}
	}
	if want >= 0 && first != want {
		return fmt.Sprintf("table of width %d, expected %d", first, want)
	}
	// find the widths from the first row: columns that do not shrink keep theirs
	if want < 0 {
		return ""
	}
	// each line must be the cells padded to some widths: natural where not shrunk
	ws := append([]int{}, nat...)
	left := first - total
	var free []int
	for j := range ws {
		if shrink[j] && left < 0 {
			free = append(free, j)
		}
	}
	if len(free) == 0 || len(free) > 1 {
		if len(free) > 1 {
			return tableFree(its, data, lines, nat, shrink, right, first)
		}
	} else {
		ws[free[0]] += left
	}
	for i := range data {
		if data[i] == nil {
			continue
		}
		if w := row(its[i], ws, right); w != lines[i] {
			return fmt.Sprintf("line %d is %q, expected %q", i, lines[i], w)
		}
	}
	return ""
}

func row(s [][]item, ws []int, right []bool) string {
	var c []string
	for j := range s {
		c = append(c, pad(s[j], ws[j], !right[j]))
	}
	return strings.Join(c, " ")
}

// tableFree: some distribution of the widths over the shrinkable columns fits
// all lines
func tableFree(its [][][]item, data [][]app.ColumnValue, lines []string, nat []int, shrink, right []bool, total int) string {
	ws := append([]int{}, nat...)
	found := false
	n := 0
	var try func(j, left int)
	try = func(j, left int) {
		n++
		if found || left < 0 || n > 20000 {
			return
		}
		if j == len(ws) {
			if left != 0 {
				return
			}
			for i := range data {
				if data[i] != nil && row(its[i], ws, right) != lines[i] {
					return
				}
			}
			found = true
			return
		}
		if !shrink[j] {
			ws[j] = nat[j]
			try(j+1, left-nat[j])
			return
		}
		for w := 0; w <= nat[j] && !found; w++ {
			ws[j] = w
			try(j+1, left-w)
		}
	}
	try(0, total-len(ws)+1)
	if !found && n <= 20000 {
		return fmt.Sprintf("no widths of the shrinkable columns (natural %v, shrink %v) explain the lines %q", nat, shrink, lines)
	}
	return ""
}

// money columns: symbol on the left, number on the right, width as asked
func money(r *lib.R) string {
	var out bytes.Buffer
	a := &app.App{Lang: "en", Divider: ":", Output: &out, Colour: r.Chance(2)}
	bp := a.NewBookPrinter(map[string]int{"£": 2, "EUR": r.Intn(5)})
	sym := r.Pick("£", "EUR", "X", "\"X Y\"", "€", "$")
	amt := r.Amount()
	c := bp.GetColumnMoney(sym, amt)
	n := app.Length(bp.FormatSymbol(sym)) + app.Length(bp.FormatNumber(sym, amt))
	w := n + r.N(12)
	r.Logf("money %s %s in %d", sym, amt.RatString(), w)
	if c.Length() != n {
		return fmt.Sprintf("length %d, expected %d", c.Length(), n)
	}
	g := strip(c.Pad(w))
	if want := bp.FormatSymbol(sym) + strings.Repeat(" ", w-n) + bp.FormatNumber(sym, amt); g != want {
		return fmt.Sprintf("padded to %q, expected %q", g, want)
	}
	_ = big.NewRat
	return ""
}

func strip(s string) string {
	for {
		i := strings.Index(s, "\033")
		if i < 0 {
			return s
		}
		j := strings.Index(s[i:], "m")
		s = s[:i] + s[i+j+1:]
	}
}

func main() {
	lib.Main(lib.Case{Name: "cell", Run: cell}, lib.Case{Name: "combine", Run: combine}, lib.Case{Name: "table", Run: table}, lib.Case{Name: "money", Run: money})
}
