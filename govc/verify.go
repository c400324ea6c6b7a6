package main

// Verification units: a function body checked against a contract.

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Unit struct {
	ct *Contract
	fn *ssa.Function
}

func (u Unit) name(P *Program) string {
	n := P.Key(u.fn)
	if len(u.fn.TypeArgs()) > 0 {
		var a []string
		for _, t := range u.fn.TypeArgs() {
			a = append(a, typeName(t))
		}
		n += "[" + strings.Join(a, ",") + "]"
	}
	if u.ct.Kind == "iface" || u.ct.Kind == "dyncall" {
		n += " as " + u.ct.Key
	}
	return n
}

type UnitResult struct {
	name    string
	ct      *Contract
	vcs     []*VC
	err     string
	used    map[string]bool
	notes   map[string]bool
	returns int
	covered bool
	skip    bool // implementer or candidate outside the precondition
	invs    int
	steps   int
	genMs   int64
}

func (r *UnitResult) failed() []string {
	var out []string
	if r.err != "" {
		out = append(out, r.name+": obligations not generated: "+r.err)
	}
	seen := map[string]bool{}
	for _, v := range r.vcs {
		if v.Res != Unsat {
			s := fmt.Sprintf("%s: %s %s", r.name, v.Kind, v.Clause)
			if v.Where != "" {
				s += " (" + v.Where + ")"
			}
			if !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
		}
	}
	if r.err == "" && !r.covered {
		out = append(out, r.name+": vacuous: no return of the function is reachable under the precondition")
	}
	return out
}

type Verifier struct {
	P          *Program
	C          *Contracts
	pool       *Pool
	prop       string
	ms         int
	unitBudget time.Duration
	cache      map[string]*UnitResult
	noContract map[string]bool
	verbose    bool
	noRetry    bool
	deadline   time.Time
	failures   int64
}

// units of a contract.
func (V *Verifier) units(ct *Contract) ([]Unit, error) {
	switch ct.Kind {
	case "func":
		fs := V.P.byKey[ct.Key]
		if len(fs) == 0 {
			return nil, fmt.Errorf("function %s does not exist", ct.Key)
		}
		var us []Unit
		for _, f := range fs {
			us = append(us, Unit{ct, f})
		}
		return us, nil
	case "iface":
		name := strings.TrimPrefix(ct.Key, "iface ")
		i := strings.LastIndex(name, ".")
		tn, m := name[:i], name[i+1:]
		parts := strings.SplitN(tn, ".", 2)
		p := V.P.tpkgs[parts[0]]
		if p == nil {
			return nil, fmt.Errorf("no package %s", parts[0])
		}
		o := p.Scope().Lookup(parts[1])
		if o == nil {
			return nil, fmt.Errorf("no type %s", tn)
		}
		it, ok := o.Type().Underlying().(*types.Interface)
		if !ok {
			return nil, fmt.Errorf("%s is not an interface", tn)
		}
		var us []Unit
		for _, f := range V.P.impls(it, types.TypeString(o.Type(), nil), m) {
			if f.Blocks == nil {
				continue
			}
			if f.Synthetic != "" && strings.Contains(f.Synthetic, "wrapper") {
				continue // promoted or pointer wrappers: the wrapped method is checked
			}
			us = append(us, Unit{ct, f})
		}
		return us, nil
	case "dyncall":
		var us []Unit
		for _, k := range sortedKeys(V.P.fvals) {
			for _, f := range V.P.fvals[k] {
				s := f.Signature
				kk := "dyncall " + sigName(s)
				if kk == ct.Key {
					us = append(us, Unit{ct, f})
				}
			}
		}
		return us, nil
	}
	return nil, nil
}

var unitSerial int64

func (V *Verifier) run(u Unit) (r *UnitResult) {
	P := V.P
	ct, f := u.ct, u.fn
	t0 := time.Now()
	r = &UnitResult{name: u.name(P), ct: ct}
	ex := &Exec{P: P, C: V.C, pool: V.pool, prefix: fmt.Sprintf("u%d!", atomic.AddInt64(&unitSerial, 1)), rootKey: r.name, rootFn: f,
		prop: V.prop, closures: map[*Term]Val{}, used: map[string]bool{}, noContract: V.noContract, safe: ct.Safe && propApplies(ct.Props, V.prop),
		maxSteps: 4000000, deadline: t0.Add(V.unitBudget)}
	if !V.deadline.IsZero() && ex.deadline.After(V.deadline) {
		ex.deadline = V.deadline
	}
	defer func() {
		r.vcs = ex.vcs
		r.used = ex.used
		r.notes = ex.assumed
		r.invs = ex.invCount
		r.steps = ex.steps
		r.genMs = time.Since(t0).Milliseconds()
		if x := recover(); x != nil {
			if e, ok := x.(unsupported); ok {
				r.err = string(e)
				return
			}
			r.err = fmt.Sprintf("internal error: %v\n%s", x, debug.Stack())
		}
	}()
	st := newState(ex.prefix)
	fr := &Frame{fn: f, env: map[ssa.Value]Val{}}
	vars := map[string]SVal{}
	var args []Val
	for i, p := range f.Params {
		v := ex.freshVal(st, p.Type(), p.Name())
		fr.env[p] = v
		args = append(args, v)
		if i == 0 && f.Signature.Recv() != nil && v.K == 's' {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				st.assume(Not(Eq(v.T, tZero)))
			}
		}
	}
	var selfT *Term
	for _, p := range f.FreeVars {
		v := ex.freshVal(st, p.Type(), "free_"+p.Name())
		if v.K == 's' && isRefType(p.Type()) {
			st.assume(Not(Eq(v.T, tZero)))
		}
		fr.env[p] = v
	}
	if f.Package() != nil {
		st.assume(Sym("in!"+f.Package().Pkg.Name(), SBool))
	}
	ps := ct.Params
	switch ct.Kind {
	case "func":
		if len(ps) != len(args) {
			panic(unsupported(fmt.Sprintf("contract has %d parameters, code has %d", len(ps), len(args))))
		}
		for i, p := range f.Params {
			vars[ps[i]] = SVal{args[i], p.Type()}
		}
	case "iface":
		if len(ps) != len(args) {
			panic(unsupported(fmt.Sprintf("contract has %d parameters, code has %d", len(ps), len(args))))
		}
		for i, p := range f.Params {
			if i == 0 {
				self := args[0]
				vars[ps[0]] = SVal{sv(ex.box(st, self, p.Type())), p.Type()}
				// the contract sees the interface value
				vars[ps[0]] = SVal{vars[ps[0]].V, ifaceTypeOf(V, ct)}
				continue
			}
			vars[ps[i]] = SVal{args[i], p.Type()}
		}
	case "dyncall":
		fv := Val{K: 'f', Fn: f}
		for _, p := range f.FreeVars {
			fv.F = append(fv.F, fr.env[p])
		}
		selfT = ex.closureTermPure(st, fv)
		vars[ps[0]] = SVal{sv(selfT), f.Signature}
		for i, p := range f.Params {
			vars[ps[i+1]] = SVal{args[i], p.Type()}
		}
	}
	ex.rootParams = vars
	env := &SpecEnv{ex: ex, st: st, old: st, vars: vars, pkg: ct.Pkg}
	for _, q := range ct.Requires {
		if q.appliesTo(V.prop) {
			st.assume(env.bool(q.E))
		}
	}
	if rr, _ := ex.check(st, nil, 3000, false); rr == Unsat {
		if ct.Kind != "func" {
			r.skip, r.covered = true, true
			return
		}
		panic(unsupported("precondition is unsatisfiable"))
	}
	ex.old = st.clone()
	var ends []*State
	fr.ret = func(st *State, res []Val) {
		if ex.collect > 0 {
			return
		}
		r.returns++
		ex.curGrp = r.returns
		defer func() { ex.curGrp = 0 }()
		ends = append(ends, st)
		if ct.NoReturn {
			ex.oblige(st, "noreturn", "does not return", "", tFalse)
			return
		}
		pv := packRes(res)
		// results as plain values
		pv = ex.plain(st, pv)
		env2 := &SpecEnv{ex: ex, st: st, old: ex.old, vars: map[string]SVal{}, ovars: vars, pkg: ct.Pkg}
		for n, v := range vars {
			env2.vars[n] = v
		}
		bindResults(env2, ct, f.Signature, pv)
		for i, q := range ct.Ensures {
			if q.Def || !q.appliesTo(V.prop) {
				continue
			}
			lbl := q.Label
			if lbl == "" {
				lbl = fmt.Sprint(i)
			}
			t := env2.bool(q.E)
			ex.oblige(st, "ensures", lbl, "", t)
		}
	}
	ex.enterFn(st, fr)
	if ct.NoReturn {
		r.covered = true
		return
	}
	// cover: at least one return reachable
	sort.SliceStable(ends, func(i, j int) bool { return len(ends[i].pc) < len(ends[j].pc) })
	for _, e := range ends {
		if rr, _ := ex.check(e, nil, 1000, false); rr != Unsat {
			r.covered = true
			break
		}
	}
	return
}

func ifaceTypeOf(V *Verifier, ct *Contract) types.Type {
	name := strings.TrimPrefix(ct.Key, "iface ")
	i := strings.LastIndex(name, ".")
	parts := strings.SplitN(name[:i], ".", 2)
	return V.P.tpkgs[parts[0]].Scope().Lookup(parts[1]).Type()
}

func (ex *Exec) plain(st *State, v Val) Val {
	switch v.K {
	case 't':
		n := Val{K: 't'}
		for _, f := range v.F {
			n.F = append(n.F, ex.plain(st, f))
		}
		return n
	case 'a', 'f', 'p':
		return sv(ex.scalar(st, v))
	}
	return v
}

func (ex *Exec) closureTermPure(st *State, v Val) *Term {
	return ex.closureTerm(st, v)
}

func (V *Verifier) discharge(rs []*UnitResult) {
	type job struct{ vcs []*VC }
	var jobs []job
	ex := &Exec{P: V.P, C: V.C, pool: V.pool, prop: V.prop, closures: map[*Term]Val{}, used: map[string]bool{}}
	for _, r := range rs {
		grp := map[int]int{}
		for _, vc := range r.vcs {
			if vc.By != "" {
				continue
			}
			if i, ok := grp[vc.grp]; ok && vc.grp != 0 {
				jobs[i].vcs = append(jobs[i].vcs, vc)
				continue
			}
			grp[vc.grp] = len(jobs)
			jobs = append(jobs, job{[]*VC{vc}})
		}
	}
	one := func(vc *VC) {
		t0 := time.Now()
		// part by part, with the quantifiers over strings made ground
		ground := func() bool {
			n, by := len(vc.Asserts)-1, ""
			for _, g := range conjuncts(vc.Goal) {
				as := append(append([]*Term{}, vc.Asserts[:n]...), Not(g))
				var r Result
				if r, by = V.pool.Check(ex.groundQuery(as, Not(g)), times(V.ms), false); r != Unsat {
					if os.Getenv("GOVC_DEBUG") != "" {
						fmt.Println("GROUND", r, vc.Clause, g)
					}
					return false
				}
			}
			vc.Res, vc.By = Unsat, by
			return true
		}
		hard := hasStrForall(vc.Goal) || ex.C.hasPrefix(vc.Goal)
		if hard && ground() {
			vc.ms = time.Since(t0).Milliseconds()
			return
		}
		q := ex.lemmasFor(vc.Asserts, vc.Goal)
		vc.Res, vc.By = V.pool.Check(q, V.ms, true)
		if vc.Res != Unsat && !hard && anyStrForall(vc.Asserts[:len(vc.Asserts)-1]) {
			ground()
		}
		if vc.Res != Unsat && atomic.LoadInt64(&V.failures) >= 6 {
			// enough has failed to decide; the rest is only listed
			if vc.By == "" {
				vc.By = "?"
			}
			vc.ms = time.Since(t0).Milliseconds()
			return
		}
		defer func() {
			if vc.Res != Unsat {
				atomic.AddInt64(&V.failures, 1)
			}
		}()
		if vc.Res != Unsat {
			n := len(q)
			for _, sk := range []bool{true, false} {
				rounds := 6
				if sk {
					rounds = 4
				}
				if q2 := ex.withLemmasN(vc.Asserts, rounds, sk); vc.Res != Unsat && len(q2) > n {
					if r, by := V.pool.Check(q2, V.ms, true); r == Unsat || vc.Res == Sat {
						vc.Res, vc.By = r, by
					}
				}
			}
		}
		if vc.Res == Unknown && !V.noRetry {
			vc.Res, vc.By = V.pool.Check(q, V.ms*4, true)
		}
		vc.ms = time.Since(t0).Milliseconds()
		if vc.By == "" {
			vc.By = "?"
		}
	}
	var wg sync.WaitGroup
	ch := make(chan job)
	for i := 0; i < cap(V.pool.free); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				if !V.deadline.IsZero() && time.Now().After(V.deadline) {
					for _, vc := range j.vcs {
						vc.Res, vc.By = Unknown, "time budget used up"
					}
					continue
				}
				if len(j.vcs) > 1 {
					// all obligations of one state at once
					t0 := time.Now()
					last := j.vcs[len(j.vcs)-1]
					as := append([]*Term{}, last.Asserts[:len(last.Asserts)-1]...)
					var gs []*Term
					for _, vc := range j.vcs {
						gs = append(gs, vc.Goal)
					}
					q := ex.lemmasFor(append(as, Not(And(gs...))), gs...)
					if r, by := V.pool.Check(q, V.ms, false); r == Unsat {
						for i, vc := range j.vcs {
							vc.Res, vc.By = Unsat, by
							if i == 0 {
								vc.ms = time.Since(t0).Milliseconds()
							}
						}
						continue
					}
				}
				for _, vc := range j.vcs {
					one(vc)
				}
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

// verifyAll: all contracts reachable from the roots of the property.
func (V *Verifier) verifyAll() (results []*UnitResult, dropped []string, errs []string) {
	V.noContract = map[string]bool{}
	for iter := 0; iter < 12; iter++ {
		atomic.StoreInt64(&V.failures, 0)
		res, er := V.closure()
		// helper contracts that do not hold are dropped; their callers see the body instead
		again := false
		for _, r := range res {
			if r.ct.Helper && !r.ct.isRoot(V.prop) && len(r.failed()) > 0 && !V.noContract[r.ct.Key] {
				V.noContract[r.ct.Key] = true
				dropped = append(dropped, r.ct.Key)
				again = true
				if V.verbose {
					fmt.Printf("  DROP %s %s\n", r.name, r.err)
					for _, vc := range r.vcs {
						if vc.Res != Unsat {
							fmt.Printf("    FAIL %s %s %s [%s %s]\n   path: %s\n   goal: %s\n", vc.Kind, vc.Clause, vc.Where, vc.Res, vc.By, strings.Join(vc.Path, "; "), vc.Goal.show(7))
							break
						}
					}
				}
			}
		}
		for _, e := range er {
			if e.ct.Helper && !e.ct.isRoot(V.prop) && !V.noContract[e.ct.Key] {
				V.noContract[e.ct.Key] = true
				dropped = append(dropped, e.ct.Key)
				again = true
				if V.verbose {
					fmt.Printf("  DROP %s %s\n", e.ct.Key, e.err)
				}
			}
		}
		if !again {
			for _, e := range er {
				errs = append(errs, e.ct.Key+": "+e.err)
			}
			return res, dropped, errs
		}
		// forget cached results that relied on a dropped contract
		for k, r := range V.cache {
			for _, d := range dropped {
				if r.used[d] || r.ct.Key == d {
					delete(V.cache, k)
				}
			}
		}
	}
	return nil, dropped, []string{"helper contracts do not stabilise"}
}

type unitErr struct {
	ct  *Contract
	err string
}

func (V *Verifier) closure() (results []*UnitResult, errs []unitErr) {
	var todo []*Contract
	seen := map[string]bool{}
	push := func(ct *Contract) {
		if ct == nil || seen[ct.Key] || V.noContract[ct.Key] || ct.Kind == "extern" || ct.Trusted {
			return
		}
		seen[ct.Key] = true
		todo = append(todo, ct)
	}
	for _, ct := range V.C.List {
		if ct.isRoot(V.prop) && propApplies(ct.Only, V.prop) {
			push(ct)
		}
	}
	// generation of what the roots are likely to need starts at once
	type future struct {
		done chan bool
		r    *UnitResult
	}
	futs := map[string]*future{}
	sem := make(chan bool, 8)
	start := func(u Unit) *future {
		n := u.name(V.P)
		if f := futs[n]; f != nil {
			return f
		}
		f := &future{done: make(chan bool)}
		futs[n] = f
		if f.r = V.cache[n]; f.r != nil {
			close(f.done)
			return f
		}
		go func() {
			sem <- true
			f.r = V.run(u)
			<-sem
			if V.verbose {
				fmt.Printf("  generated %-60s %4d obligations, %d returns, %d invariants, %d steps, %d ms %s\n", f.r.name, len(f.r.vcs), f.r.returns, f.r.invs, f.r.steps, f.r.genMs, firstLine(f.r.err))
			}
			close(f.done)
		}()
		return f
	}
	defer func() {
		for _, f := range futs {
			<-f.done
		}
	}()
	for pass := 0; pass < 2; pass++ {
		for _, ct := range V.C.List {
			if ct.Kind == "func" && !ct.Trusted && !V.noContract[ct.Key] && ct.isRoot(V.prop) == (pass == 0) && propApplies(ct.Only, V.prop) && len(ct.Only) > 0 {
				if u, err := V.units(ct); err == nil {
					for _, x := range u {
						start(x)
					}
				}
			}
		}
	}
	for _, r := range V.lemmas() {
		if V.cache[r.name] == nil {
			V.cache[r.name] = r
		}
		results = append(results, V.cache[r.name])
	}
	for len(todo) > 0 {
		batch := todo
		todo = nil
		var us []Unit
		for _, ct := range batch {
			u, err := V.units(ct)
			if err != nil {
				errs = append(errs, unitErr{ct, err.Error()})
				continue
			}
			if len(u) == 0 {
				errs = append(errs, unitErr{ct, "no function to check"})
			}
			us = append(us, u...)
		}
		rs := make([]*UnitResult, len(us))
		var fresh []*UnitResult
		var fs []*future
		for _, u := range us {
			fs = append(fs, start(u))
		}
		for i, f := range fs {
			<-f.done
			rs[i] = f.r
		}
		// every interface or dynamic-call contract covers at least one function
		for _, ct := range batch {
			n, cov := 0, 0
			for i, u := range us {
				if u.ct == ct {
					n++
					if !rs[i].skip {
						cov++
					}
				}
			}
			if n > 0 && cov == 0 {
				errs = append(errs, unitErr{ct, "no function satisfies the precondition"})
			}
		}
		for i, u := range us {
			if V.cache[u.name(V.P)] == nil {
				V.cache[u.name(V.P)] = rs[i]
				fresh = append(fresh, rs[i])
			}
		}
		V.discharge(fresh)
		// what failed once is tried again with more time before it counts
		again := 0
		for i, u := range us {
			for _, r := range fresh {
				if r == rs[i] && len(r.failed()) > 0 && r.genMs < 90000 && again < 6 && (V.deadline.IsZero() || time.Until(V.deadline) > 2*time.Minute) {
					again++
					atomic.StoreInt64(&slowFactor, 3)
					n := V.run(u)
					V.discharge([]*UnitResult{n})
					atomic.StoreInt64(&slowFactor, 1)
					if len(n.failed()) == 0 {
						if V.verbose {
							fmt.Printf("  second attempt: %s\n", n.name)
						}
						V.cache[u.name(V.P)] = n
						rs[i] = n
					}
					break
				}
			}
		}
		results = append(results, rs...)
		for _, r := range rs {
			for k := range r.used {
				push(V.C.ByKey[k])
			}
		}
	}
	sort.Slice(results, func(i, j int) bool { return results[i].name < results[j].name })
	return
}

func firstLine(s string) string {
	if i := strings.Index(s, "\n"); i >= 0 {
		return s[:i]
	}
	return s
}

var slowFactor int64

// times: a solver budget, longer on a second attempt.
func times(ms int) int {
	if n := atomic.LoadInt64(&slowFactor); n > 1 {
		return ms * int(n)
	}
	return ms
}
