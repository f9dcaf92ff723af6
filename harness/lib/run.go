// Package lib runs the bounded searches: random cases derived from (seed,
// check, index), growing in size, judged by oracles that are independent of the
// code under test.
package lib

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/big"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// R is the source of choices of one case.
type R struct {
	*rand.Rand
	Size  int  // grows from 1
	Tight bool // short names that collide when joined
	log   []string
	sig   string
}

// Logf records a part of the input of the case.
func (r *R) Logf(f string, a ...interface{}) {
	if len(r.log) < 400 {
		r.log = append(r.log, fmt.Sprintf(f, a...))
	}
}

// Case is one check: it returns "" if the property held on the case.
type Case struct {
	Name string
	Run  func(r *R) string
	// Max is the number of different cases (0: unlimited)
	Max int
}

type failure struct {
	Check   string   `json:"check"`
	Index   int      `json:"index"`
	Seed    int64    `json:"seed"`
	Input   []string `json:"input"`
	Problem string   `json:"problem"`
}

type report struct {
	Evaluations int            `json:"evaluations"`
	Distinct    int            `json:"distinct_nontrivial"`
	PerCheck    map[string]int `json:"per_check"`
	Samples     []interface{}  `json:"samples"`
	Failure     *failure       `json:"failure,omitempty"`
}

// Lits: literals of the source under test, as extra values to try.
var (
	LitInts []int64
	LitStrs []string
)

func hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func newR(seed int64, name string, i int) *R {
	size := 1 + i/40
	if size > 30 {
		size = 1 + int(hash(fmt.Sprint(name, i))%40)
	}
	r := &R{Rand: rand.New(rand.NewSource(int64(hash(fmt.Sprintf("%d/%s/%d", seed, name, i))))), Size: size}
	r.Tight = i%9 == 5
	return r
}

var (
	curName  atomic.Value
	curIdx   int64
	curStart int64
	curR     atomic.Value
)

func runCase(c *Case, r *R) (out string) {
	defer func() {
		if e := recover(); e != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			var keep []string
			for _, l := range st {
				if strings.Contains(l, "goledger") && strings.Contains(l, ".go:") && !strings.Contains(l, "verifharness") {
					keep = append(keep, strings.TrimSpace(l))
				}
			}
			if len(keep) > 4 {
				keep = keep[:4]
			}
			out = fmt.Sprintf("panic: %v at %s", e, strings.Join(keep, " < "))
		}
	}()
	return c.Run(r)
}

// Main runs the cases for the time budget and reports the first failure.
func Main(cases ...Case) {
	seed := flag.Int64("seed", 1, "seed")
	budget := flag.Float64("budget", 20, "seconds")
	out := flag.String("out", "", "report file")
	only := flag.String("case", "", "name:index of one case to run")
	lits := flag.String("lits", "", "file of literals")
	trace := flag.String("trace", "", "file that receives the running case")
	flag.Parse()
	debug.SetGCPercent(200)
	if *lits != "" {
		if b, err := os.ReadFile(*lits); err == nil {
			var l struct {
				Ints []int64
				Strs []string
			}
			if json.Unmarshal(b, &l) == nil {
				LitInts, LitStrs = l.Ints, l.Strs
			}
		}
	}
	rep := &report{PerCheck: map[string]int{}}
	finish := func(f *failure) {
		rep.Failure = f
		b, _ := json.MarshalIndent(rep, "", " ")
		if *out != "" {
			os.WriteFile(*out, b, 0o644)
		} else {
			os.Stdout.Write(b)
			fmt.Println()
		}
		if f != nil {
			os.Exit(1)
		}
		os.Exit(0)
	}
	// watchdog: cases that do not end or eat the memory
	atomic.StoreInt64(&curStart, time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			var ms runtime.MemStats
			el := time.Duration(time.Now().UnixNano() - atomic.LoadInt64(&curStart))
			bad := ""
			if el > 15*time.Second {
				bad = "the operation does not end within 15 s"
			} else if el > time.Second {
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 3<<30 {
					bad = "the operation uses more than 3 GB of memory"
				}
			}
			if bad != "" {
				r := curR.Load().(*R)
				f := &failure{Check: curName.Load().(string), Index: int(atomic.LoadInt64(&curIdx)), Seed: *seed, Problem: bad}
				f.Input = append(f.Input, r.log...)
				finish(f)
			}
		}
	}()
	one := func(c *Case, i int) *failure {
		r := newR(*seed, c.Name, i)
		curName.Store(c.Name)
		curR.Store(r)
		atomic.StoreInt64(&curIdx, int64(i))
		atomic.StoreInt64(&curStart, time.Now().UnixNano())
		if *trace != "" {
			os.WriteFile(*trace, []byte(fmt.Sprintf("%s:%d", c.Name, i)), 0o644)
		}
		p := runCase(c, r)
		atomic.StoreInt64(&curStart, time.Now().UnixNano())
		rep.Evaluations++
		rep.PerCheck[c.Name]++
		if len(r.log) > 0 {
			rep.Distinct++
			if len(rep.Samples) < 6 && rep.PerCheck[c.Name]%7 == 3 {
				l := r.log
				if len(l) > 12 {
					l = l[:12]
				}
				rep.Samples = append(rep.Samples, map[string]interface{}{"check": c.Name, "index": i, "input": append([]string{}, l...)})
			}
		}
		if p != "" {
			return &failure{c.Name, i, *seed, r.log, p}
		}
		return nil
	}
	if *only != "" {
		k := strings.LastIndex(*only, ":")
		idx := 0
		fmt.Sscan((*only)[k+1:], &idx)
		for i := range cases {
			if cases[i].Name == (*only)[:k] {
				finish(one(&cases[i], idx))
			}
		}
		fmt.Fprintln(os.Stderr, "no such case")
		os.Exit(3)
	}
	end := time.Now().Add(time.Duration(*budget * float64(time.Second)))
	next := make([]int, len(cases))
	for time.Now().Before(end) {
		ran := false
		for i := range cases {
			c := &cases[i]
			// a slice of the time for each check in turn
			stop := time.Now().Add(150 * time.Millisecond)
			for k := 0; k < 400 && time.Now().Before(stop); k++ {
				if c.Max > 0 && next[i] >= c.Max {
					break
				}
				ran = true
				if f := one(c, next[i]); f != nil {
					finish(f)
				}
				next[i]++
			}
		}
		if !ran {
			break
		}
	}
	finish(nil)
}

// ---- choices

func (r *R) Pick(s ...string) string { return s[r.Intn(len(s))] }

func (r *R) Chance(n int) bool { return r.Intn(n) == 0 }

func (r *R) N(max int) int {
	if max <= 0 {
		return 0
	}
	return r.Intn(max + 1)
}

var (
	Accts  = []string{"Asset:Bank", "Asset:Bank:Current", "Asset:Cash", "Expense:Food", "Expense:Food:Out", "Income:Job", "Equity", "Asset", "Liability:Card", "Expense", "AssetX", "Asset:Ba", "A", "B", "B:C", "B:C:D"}
	CCYs   = []string{"£", "$", "EUR", "USD", "X Y", "BTC", "€", "GBP"}
	Payees = []string{"Shop", "Shop (2)", "Bank", "", "a", "Rent", "Zed", "Shop (3)", "shop", "Shop (2) (2)"}
	Notes  = []string{"", "n", "note one", "second", "x:y"}
)

// tight names: few letters, so that names are prefixes of each other and joined names collide
func (r *R) tight(parts ...string) string {
	s := parts[r.Intn(len(parts)-1)]
	for r.Chance(2) && len(s) < 4 {
		s += parts[r.Intn(len(parts))]
	}
	return s
}

func (r *R) Acct() string {
	if r.Tight {
		return r.tight("A", "AB", "B", "A:B", "a", ":B")
	}
	if r.Chance(12) {
		return Accts[r.Intn(len(Accts))] + ":" + r.Pick("P", "Q", "R1", "Food", "Out")
	}
	return Accts[r.Intn(min(len(Accts), 3+r.Size))]
}
func (r *R) CCY() string {
	if r.Tight {
		return r.tight("A", "B", "AB", "b", "A")
	}
	return CCYs[r.Intn(min(len(CCYs), 1+r.Size))]
}
func (r *R) Payee() string {
	if r.Tight {
		return r.tight("", "A", "B", " ", "AB", "A")
	}
	return Payees[r.Intn(min(len(Payees), 2+r.Size))]
}
func (r *R) Note() string { return Notes[r.Intn(len(Notes))] }

// Amount: a rational; mostly decimal
func (r *R) Amount() *big.Rat {
	switch r.Intn(14) {
	case 0:
		return big.NewRat(0, 1)
	case 1:
		return big.NewRat(int64(r.Intn(40)-20), int64(1+r.Intn(12)))
	case 2:
		a := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(r.Intn(30))), nil)
		a.Add(a, big.NewInt(int64(r.Intn(1000))))
		if r.Chance(2) {
			a.Neg(a)
		}
		d := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(r.Intn(12))), nil)
		return new(big.Rat).SetFrac(a, d)
	case 3:
		if len(LitInts) > 0 {
			return big.NewRat(LitInts[r.Intn(len(LitInts))], 1)
		}
	case 4, 5:
		return big.NewRat(int64(r.Intn(7)-3), 1)
	case 6:
		return big.NewRat(int64(r.Intn(20000)-10000), 1000)
	}
	return big.NewRat(int64(r.Intn(20000)-10000), 100)
}

func (r *R) NonZero() *big.Rat {
	for {
		if a := r.Amount(); a.Sign() != 0 {
			return a
		}
	}
}

// Date: a valid calendar date as yyyymmdd
func (r *R) Date() int {
	var y int
	switch r.Intn(8) {
	case 0:
		y = 1 + r.Intn(9998)
	case 1:
		y = []int{1, 4, 100, 400, 1600, 1900, 1999, 2000, 2001, 2100, 2400, 9999}[r.Intn(12)]
	default:
		y = 2018 + r.Intn(4)
	}
	m := 1 + r.Intn(12)
	if r.Chance(4) {
		m = []int{1, 2, 12, 3}[r.Intn(4)]
	}
	d := 1 + r.Intn(MonthDays(y, m))
	if r.Chance(4) {
		d = []int{1, MonthDays(y, m)}[r.Intn(2)]
	}
	return y*10000 + m*100 + d
}

// NearDate: dates close together, so that they collide and neighbour
func (r *R) NearDate() int {
	if r.Chance(10) {
		return r.Date()
	}
	k := 2 + r.Size
	if k > 700 {
		k = 700
	}
	return FromDays(ToDays(20191228) + r.Intn(k))
}

// ---- calendar oracle (independent: counts days one month at a time)

func Leap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func MonthDays(y, m int) int {
	switch m {
	case 2:
		if Leap(y) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

var yearStart = func() []int {
	t := make([]int, 10502)
	for y := 1; y < 10501; y++ {
		t[y+1] = t[y] + 365
		if Leap(y) {
			t[y+1]++
		}
	}
	return t
}()

func ToDays(d int) int {
	y, m, dd := d/10000, d/100%100, d%100
	n := yearStart[y]
	for k := 1; k < m; k++ {
		n += MonthDays(y, k)
	}
	return n + dd - 1
}

func FromDays(n int) int {
	y := sort.Search(len(yearStart)-2, func(i int) bool { return yearStart[i+2] > n }) + 1
	n -= yearStart[y]
	m := 1
	for n >= MonthDays(y, m) {
		n -= MonthDays(y, m)
		m++
	}
	return y*10000 + m*100 + n + 1
}

func ValidDate(d int) bool {
	y, m, dd := d/10000, d/100%100, d%100
	return y >= 1 && m >= 1 && m <= 12 && dd >= 1 && dd <= MonthDays(y, m)
}

// FloorDate: first day of the period (months long) that is diff periods away
func FloorDate(d, months, diff int) int {
	k := (d/10000)*12 + d/100%100 - 1
	k = (k/months + diff) * months
	return (k/12)*10000 + (k%12+1)*100 + 1
}

func FloorBy(d int, by string) int {
	switch by {
	case "yearly":
		return FloorDate(d, 12, 0)
	case "quarterly":
		return FloorDate(d, 3, 0)
	case "monthly":
		return FloorDate(d, 1, 0)
	}
	return d
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
