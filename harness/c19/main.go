package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/mescanne/goledger/cmd/utils"
	"github.com/mescanne/goledger/verifharness/lib"
)

var words = []string{"csv", "json", "header", "delim", "true", "false", "TRUE", "False", "a", "é", "1", "-5", "x y", ":", "a:b", "=", "a=b", "", "12345678901234567890", "007", "+3", " 1", "0x10", "tRuE", "t", "1.0"}

func config(r *lib.R) string {
	w := func() string {
		s := words[r.Intn(len(words))]
		if len(lib.LitStrs) > 0 && r.Chance(6) {
			s = lib.LitStrs[r.Intn(len(lib.LitStrs))]
		}
		return strings.ReplaceAll(s, ",", "")
	}
	typ := strings.ReplaceAll(w(), ":", "")
	s := typ
	want := map[string]string{}
	bad := false
	n := r.N(4)
	var args []string
	for i := 0; i < n; i++ {
		k := strings.ReplaceAll(w(), "=", "")
		if i == 0 && n == 1 && k == "" {
			k = "k"
		}
		v := "true"
		arg := k
		if !r.Chance(3) {
			v = w()
			arg = k + "=" + v
		}
		if _, ok := want[k]; ok {
			bad = true
		}
		want[k] = v
		args = append(args, arg)
	}
	if n > 0 {
		s += ":" + strings.Join(args, ",")
	}
	r.Logf("%q", s)
	cfg := &utils.CLIConfig{}
	if r.Chance(3) {
		cfg.Set("old:x=1,header=false")
	}
	err := cfg.Set(s)
	if bad {
		if err == nil {
			return "a repeated key is accepted"
		}
		return ""
	}
	if err != nil {
		return err.Error()
	}
	if cfg.ConfigType != typ || len(cfg.Params) != len(want) {
		return fmt.Sprintf("read as type %q with %q, expected %q with %q", cfg.ConfigType, cfg.Params, typ, want)
	}
	for k, v := range want {
		if g, ok := cfg.Params[k]; !ok || g != v {
			return fmt.Sprintf("read as type %q with %q, expected %q with %q", cfg.ConfigType, cfg.Params, typ, want)
		}
	}
	// lookups
	for _, k := range append(keys(want), "missing", w()) {
		v, ok := want[k]
		if g := cfg.GetStringDefault(k, "dflt"); ok && g != v || !ok && g != "dflt" {
			return fmt.Sprintf("string %q is %q, stored %q", k, g, v)
		}
		d := r.Chance(2)
		g, err := cfg.GetBoolDefault(k, d)
		switch l := strings.ToLower(v); {
		case !ok:
			if err != nil || g != d {
				return fmt.Sprintf("bool %q is %v, %v, default %v", k, g, err, d)
			}
		case l == "true" || l == "false":
			if err != nil || g != (l == "true") {
				return fmt.Sprintf("bool %q is %v, %v, stored %q", k, g, err, v)
			}
		default:
			if err == nil {
				return fmt.Sprintf("bool %q is %v, stored %q", k, g, v)
			}
		}
		dn := r.Intn(100)
		gi, err := cfg.GetIntDefault(k, dn)
		n, bad := strconv.Atoi(v)
		switch {
		case !ok:
			if err != nil || gi != dn {
				return fmt.Sprintf("int %q is %v, %v, default %v", k, gi, err, dn)
			}
		case bad != nil:
			if err == nil {
				return fmt.Sprintf("int %q is %v, stored %q", k, gi, v)
			}
		default:
			if err != nil || gi != n {
				return fmt.Sprintf("int %q is %v, %v, stored %q", k, gi, err, v)
			}
		}
	}
	// what is printed reads back the same
	if typ != "" && !strings.ContainsAny(s, "\n") {
		c2 := &utils.CLIConfig{}
		if err := c2.Set(cfg.String()); err != nil || c2.ConfigType != typ || fmt.Sprintf("%q", c2.Params) != fmt.Sprintf("%q", cfg.Params) {
			return fmt.Sprintf("printed as %q, which is read as %q with %q", cfg.String(), c2.ConfigType, c2.Params)
		}
	}
	return ""
}

func keys(m map[string]string) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

var vals = []string{"Text", "JSON", "CSV", "Ledger", "none", "Yearly", "É", "straße", "ı", "k"}

func cased(r *lib.R, s string) string {
	var sb strings.Builder
	for _, c := range s {
		switch r.Intn(3) {
		case 0:
			sb.WriteString(strings.ToUpper(string(c)))
		case 1:
			sb.WriteString(strings.ToLower(string(c)))
		default:
			sb.WriteRune(c)
		}
	}
	return sb.String()
}

func enum(r *lib.R) string {
	var list []string
	for _, v := range vals {
		if r.Chance(2) {
			list = append(list, v)
		}
	}
	in := vals[r.Intn(len(vals))]
	switch r.Intn(5) {
	case 0:
		in += r.Pick(" ", "x", ",", "\x00")
	case 1:
		in = r.Pick("", " ", "Tex", "ext", ",")
	case 2, 3:
		in = cased(r, in)
	}
	want := ""
	found := false
	for _, v := range list {
		if strings.EqualFold(v, in) {
			want, found = v, true
			break
		}
	}
	r.Logf("%q of %q", in, list)
	old := r.Pick("old", "", "Text")
	cur := old
	e := utils.NewEnum(&cur, list, "x")
	err := e.Set(in)
	if found && (err != nil || cur != want || e.String() != want) {
		return fmt.Sprintf("set to %q, %v, expected %q", cur, err, want)
	}
	if !found && (err == nil || cur != old) {
		return fmt.Sprintf("set to %q, %v, expected an error and %q", cur, err, old)
	}
	sl := []string{"first"}
	es := utils.NewEnumSlice(&sl, list, "x")
	err = es.Set(in)
	if found && (err != nil || len(sl) != 2 || sl[0] != "first" || sl[1] != want) {
		return fmt.Sprintf("list set to %q, %v, expected %q added", sl, err, want)
	}
	if !found && (err == nil || len(sl) != 1) {
		return fmt.Sprintf("list set to %q, %v, expected an error", sl, err)
	}
	return ""
}

func main() {
	lib.Main(lib.Case{Name: "config", Run: config}, lib.Case{Name: "enum", Run: enum})
}
