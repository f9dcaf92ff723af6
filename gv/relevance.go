package main

// Selecting hypotheses for an obligation. Any subset of the hypotheses is
// sound; small ones are much faster to work with.

var constCache = map[*Term]map[*Term]bool{}

func isConst(t *Term) bool {
	if len(t.args) != 0 || t.vars != nil {
		return false
	}
	if _, ok := fdecls[t.op]; !ok {
		return false
	}
	_, lit := strNames[t.op]
	return !lit
}

// constsOf: the free constants of a term
func constsOf(t *Term) map[*Term]bool {
	if c, ok := constCache[t]; ok {
		return c
	}
	var c map[*Term]bool
	if isConst(t) {
		c = map[*Term]bool{t: true}
	} else {
		n := 0
		for _, a := range t.args {
			s := constsOf(a)
			if len(s) == 0 {
				continue
			}
			n++
			if n == 1 {
				c = s
				continue
			}
			if n == 2 {
				d := make(map[*Term]bool, len(c)+len(s))
				for k := range c {
					d[k] = true
				}
				c = d
			}
			for k := range s {
				c[k] = true
			}
		}
	}
	constCache[t] = c
	return c
}

// quantConsts: the constants inside the quantified parts of a term; q tells
// whether there are any quantified parts
var quantCache = map[*Term]map[*Term]bool{}
var hasQCache = map[*Term]bool{}

func hasQuant(t *Term) bool {
	if t.vars != nil {
		return true
	}
	if v, ok := hasQCache[t]; ok {
		return v
	}
	r := false
	for _, a := range t.args {
		if hasQuant(a) {
			r = true
			break
		}
	}
	hasQCache[t] = r
	return r
}

func quantConsts(t *Term, out map[*Term]bool) {
	if !hasQuant(t) {
		return
	}
	if t.vars != nil {
		for k := range constsOf(t) {
			out[k] = true
		}
		return
	}
	for _, a := range t.args {
		quantConsts(a, out)
	}
}

func relevant(facts []*Term, goal *Term, level int) []*Term {
	if level < 0 {
		return facts
	}
	S := map[*Term]bool{}
	for k := range constsOf(goal) {
		S[k] = true
	}
	// definitions of constants: c == t
	for ch := true; ch; {
		ch = false
		for _, f := range facts {
			g := f
			if g.op == "=>" && len(g.args) == 2 {
				g = g.args[1]
			}
			if g.op == "=" && len(g.args) == 2 && !hasQuant(g) {
				for i := 0; i < 2; i++ {
					if c := g.args[i]; isConst(c) && S[c] {
						for k := range constsOf(g.args[1-i]) {
							if !S[k] {
								S[k] = true
								ch = true
							}
						}
					}
				}
			}
		}
	}
	qc := make([]map[*Term]bool, len(facts))
	for i, f := range facts {
		if hasQuant(f) {
			qc[i] = map[*Term]bool{}
			quantConsts(f, qc[i])
		}
	}
	subset := func(m map[*Term]bool) bool {
		for k := range m {
			if !S[k] {
				return false
			}
		}
		return true
	}
	for l := 0; l < level; l++ {
		add := map[*Term]bool{}
		for i := range facts {
			if qc[i] == nil || subset(qc[i]) {
				continue
			}
			miss := 0
			for k := range qc[i] {
				if !S[k] {
					miss++
				}
			}
			if miss <= 2 && miss < len(qc[i]) {
				for k := range qc[i] {
					add[k] = true
				}
			}
		}
		for k := range add {
			S[k] = true
		}
	}
	var out []*Term
	for i, f := range facts {
		if qc[i] == nil || subset(qc[i]) {
			out = append(out, f)
		}
	}
	return out
}

// ---- case splits on merged paths

type mergeDef struct {
	cond  *Term
	names []*Term
	defs  []*Term // the ite terms
}

// mergesIn lists the path merges whose merged values the goal depends on, latest first.
func mergesIn(facts []*Term, goal *Term) []mergeDef {
	S := map[*Term]bool{}
	for k := range constsOf(goal) {
		S[k] = true
	}
	var out []mergeDef
	seen := map[*Term]int{}
	used := map[*Term]bool{}
	for ch := true; ch; {
		ch = false
		for i := len(facts) - 1; i >= 0; i-- {
			f := facts[i]
			if f.op != "=" || used[f] {
				continue
			}
			c, d := f.args[0], f.args[1]
			if !isConst(c) {
				c, d = d, c
			}
			if !isConst(c) || d.op != "ite" || !S[c] {
				continue
			}
			used[f] = true
			ch = true
			for k := range constsOf(d) {
				S[k] = true
			}
			if n, ok := seen[d.args[0]]; ok {
				out[n].names = append(out[n].names, c)
				out[n].defs = append(out[n].defs, d)
				continue
			}
			seen[d.args[0]] = len(out)
			out = append(out, mergeDef{d.args[0], []*Term{c}, []*Term{d}})
		}
	}
	return out
}

func condMap(m map[*Term]*Term, c *Term, val bool) {
	if c == tTrue || c == tFalse {
		return
	}
	if val {
		m[c] = tTrue
	} else {
		m[c] = tFalse
	}
	switch c.op {
	case "not":
		condMap(m, c.args[0], !val)
	case "and":
		if val {
			for _, a := range c.args {
				condMap(m, a, true)
			}
		}
	case "or":
		if !val {
			for _, a := range c.args {
				condMap(m, a, false)
			}
		}
	}
}

func splitCase(facts []*Term, goal *Term, d mergeDef, val bool) ([]*Term, *Term) {
	m := map[*Term]*Term{}
	condMap(m, d.cond, val)
	for i, c := range d.names {
		if val {
			m[c] = d.defs[i].args[1]
		} else {
			m[c] = d.defs[i].args[2]
		}
	}
	// the values themselves may contain the condition
	cache := map[*Term]*Term{}
	var out []*Term
	for _, f := range facts {
		if g := substIn(f, m, cache); g != tTrue {
			out = append(out, g)
		}
	}
	cf := d.cond
	if !val {
		cf = Not(cf)
	}
	return append(out, cf), substIn(goal, m, cache)
}

// splitCases: the obligation as a list of obligations, one per combination of
// the latest k merges
func splitCases(facts []*Term, goal *Term, k int) ([][]*Term, []*Term) {
	fs, gs := [][]*Term{facts}, []*Term{goal}
	for ; k > 0; k-- {
		var nf [][]*Term
		var ng []*Term
		any := false
		for i := range fs {
			ms := mergesIn(fs[i], gs[i])
			if len(ms) == 0 {
				nf, ng = append(nf, fs[i]), append(ng, gs[i])
				continue
			}
			any = true
			for _, v := range []bool{true, false} {
				f, g := splitCase(fs[i], gs[i], ms[0], v)
				if g == tTrue {
					continue
				}
				bad := false
				for _, x := range f {
					bad = bad || x == tFalse
				}
				if bad {
					continue
				}
				nf, ng = append(nf, f), append(ng, g)
			}
		}
		fs, gs = nf, ng
		if !any {
			break
		}
	}
	return fs, gs
}
