package main

// Discharging obligations with a portfolio of SMT solvers.

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type Result struct {
	Obl     *Obl    `json:"-"`
	Func    string  `json:"func"`
	Kind    string  `json:"kind"`
	Name    string  `json:"name"`
	Pos     string  `json:"pos"`
	Status  string  `json:"status"` // discharged | failed | refuted
	Backend string  `json:"backend"`
	Time    float64 `json:"time"`
	Output  string  `json:"output,omitempty"`
	File    string  `json:"file,omitempty"`
}

type solverCfg struct {
	name string
	cmd  []string
}

func solverList(timeout int) []solverCfg {
	t := fmt.Sprint(timeout)
	return []solverCfg{
		{"z3-new", []string{"z3-new", "-T:" + t, "smt.mbqi=false", "auto_config=false"}},
		{"cvc5", []string{"cvc5", "--tlimit=" + t + "000", "--lang=smt2"}},
		{"z3-new-mbqi", []string{"z3-new", "-T:" + t}},
		{"z3-4.8", []string{"z3", "-T:" + t, "smt.mbqi=false", "auto_config=false"}},
	}
}

// slots: no more solver processes at once than there are cores, so that a time
// limit means the same however many obligations are open
var slots chan struct{}

func runSolver(ctx context.Context, c solverCfg, file string) (string, string) {
	if slots != nil {
		select {
		case slots <- struct{}{}:
			defer func() { <-slots }()
		case <-ctx.Done():
			return "unknown", "cancelled"
		}
	}
	cmd := exec.CommandContext(ctx, c.cmd[0], append(append([]string{}, c.cmd[1:]...), file)...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	o := strings.TrimSpace(out.String())
	for _, l := range strings.Split(o, "\n") {
		switch strings.TrimSpace(l) {
		case "unsat", "sat", "unknown":
			return strings.TrimSpace(l), o
		}
		if strings.HasPrefix(l, "(error") {
			return "error", o
		}
	}
	return "unknown", o
}

// Query shares the term tables
var queryMu sync.Mutex

func solveOne(r *Result, dir string, n int, quick, slow int) {
	t0 := time.Now()
	defer func() { r.Time = time.Since(t0).Seconds() }()
	o := r.Obl
	if o.goal == tTrue {
		r.Status, r.Backend = "discharged", "simplifier"
		return
	}
	file := filepath.Join(dir, fmt.Sprintf("o%04d.smt2", n))
	head := "; " + r.Func + " " + r.Kind + " " + r.Name + " " + r.Pos + "\n"
	queryMu.Lock()
	txt := Query(o.facts, o.goal)
	levels := []string{}
	if o.Kind != "cover" {
		var sets [][]*Term
		for l := 0; l < 2; l++ {
			fs := relevant(o.facts, o.goal, l)
			if len(fs) == len(o.facts) || len(sets) > 0 && len(fs) == len(sets[len(sets)-1]) {
				continue
			}
			sets = append(sets, fs)
			lf := filepath.Join(dir, fmt.Sprintf("o%04d.l%d.smt2", n, l))
			os.WriteFile(lf, []byte(head+Query(fs, o.goal)), 0o644)
			levels = append(levels, lf)
		}
	}
	queryMu.Unlock()
	os.WriteFile(file, []byte(head+txt), 0o644)
	r.File = file
	if o.Kind == "cover" {
		// the negation must not be provable: unsat here means a contradiction
		cs := solverList(3)
		res, out := runSolver(context.Background(), cs[0], file)
		r.Backend, r.Output = cs[0].name, out
		if res == "unsat" {
			r.Status = "failed"
		} else if res == "error" {
			r.Status = "failed"
		} else {
			r.Status = "discharged"
		}
		return
	}
	// first quickly, with the closest hypotheses before all of them
	for _, f := range append(append([]string{}, levels...), file) {
		cs := solverList(quick)
		res, out := runSolver(context.Background(), cs[0], f)
		if res == "unsat" {
			r.Status, r.Backend = "discharged", cs[0].name
			return
		}
		r.Output = cs[0].name + ": " + out
		if res == "error" {
			r.Status = "failed"
			return
		}
	}
	// then split by the paths that were merged
	var split []string
	queryMu.Lock()
	if fs, gs := splitCases(o.facts, o.goal, 3); len(fs) > 1 {
		for i := range fs {
			for l := 0; l < 2; l++ {
				sf := filepath.Join(dir, fmt.Sprintf("o%04d.s%d.l%d.smt2", n, i, l))
				os.WriteFile(sf, []byte(head+Query(relevant(fs[i], gs[i], l), gs[i])), 0o644)
			}
			split = append(split, filepath.Join(dir, fmt.Sprintf("o%04d.s%d", n, i)))
		}
	}
	queryMu.Unlock()
	if len(split) > 0 {
		all, bk := true, ""
		for _, f := range split {
			ok := false
			for _, c := range solverList(quick)[:2] {
				for l := 0; l < 2 && !ok; l++ {
					if res, _ := runSolver(context.Background(), c, fmt.Sprintf("%s.l%d.smt2", f, l)); res == "unsat" {
						ok, bk = true, c.name
					}
				}
				if ok {
					break
				}
			}
			if !ok {
				all = false
				break
			}
		}
		if all {
			r.Status, r.Backend, r.Output = "discharged", bk, ""
			return
		}
	}
	cs := solverList(slow)
	type job struct {
		c    solverCfg
		file string
		all  bool
	}
	var jobs []job
	// the same query under other seeds and instantiation limits often succeeds
	vary := func(seed string) solverCfg {
		v := cs[0]
		v.name += "-seed" + seed
		v.cmd = append(append([]string{}, v.cmd...), "smt.random_seed="+seed, "smt.case_split=3")
		if seed == "2" {
			v.cmd = append(v.cmd[:len(v.cmd)-1], "smt.qi.eager_threshold=30")
		}
		return v
	}
	for _, f := range append(append([]string{}, levels...), file) {
		jobs = append(jobs, job{cs[0], f, f == file}, job{cs[1], f, f == file}, job{vary("1"), f, false}, job{vary("2"), f, false})
	}
	jobs = append(jobs, job{cs[2], file, true}, job{cs[3], file, true})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type ans struct {
		name, res, out string
		all            bool
	}
	ch := make(chan ans, len(jobs))
	for _, j := range jobs {
		j := j
		go func() {
			res, out := runSolver(ctx, j.c, j.file)
			ch <- ans{j.c.name, res, out, j.all}
		}()
	}
	sat := ""
	for range jobs {
		a := <-ch
		if a.res == "unsat" {
			r.Status, r.Backend, r.Output = "discharged", a.name, ""
			return
		}
		if a.res == "sat" && a.all {
			sat = a.name
		}
		if !a.all {
			continue
		}
		if len(a.out) > 300 {
			a.out = a.out[:300]
		}
		r.Output += "\n" + a.name + ": " + a.out
	}
	r.Status = "failed"
	if sat != "" {
		r.Status, r.Backend = "refuted", sat
	}
}

func solveAll(rs []*Result, dir string, workers, quick, slow int, stopEarly, deadline int) {
	os.MkdirAll(dir, 0o755)
	// rendering uses shared tables only for reading, but terms created while
	// rendering are not; render under a lock inside solveOne through Query
	began := time.Now()
	slots = make(chan struct{}, workers)
	var wg sync.WaitGroup
	ch := make(chan int)
	var mu sync.Mutex
	failed := 0
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := range ch {
				mu.Lock()
				sl := slow
				if stopEarly > 0 && failed >= stopEarly {
					sl = 2
				}
				if deadline > 0 && time.Since(began) > time.Duration(deadline)*time.Second {
					sl = 2
				}
				mu.Unlock()
				solveOne(rs[n], dir, n, quick, sl)
				if rs[n].Status != "discharged" {
					mu.Lock()
					failed++
					mu.Unlock()
				}
			}
		}()
	}
	for i := range rs {
		ch <- i
	}
	close(ch)
	wg.Wait()
}
