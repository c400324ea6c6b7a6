package main

// Facts added to queries: theory lemmas for strings and arrays, frame facts of havocs,
// unfoldings of recursive specification functions, declared axioms.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
)

type unfolded struct {
	facts []*Term
}

var (
	unfoldMu  sync.Mutex
	unfoldTab = map[int]*unfolded{}
)

// unfold gives the defining equation of a recursive specification application.
func (ex *Exec) unfold(t *Term) []*Term {
	unfoldMu.Lock()
	if u, ok := unfoldTab[t.id]; ok {
		unfoldMu.Unlock()
		return u.facts
	}
	unfoldMu.Unlock()
	f := ex.C.Fns[strings.TrimPrefix(t.Name, "spec!")]
	if f == nil || f.Kind != "rec" {
		return nil
	}
	regs := ex.C.recRegions(ex, f)
	d := &Exec{P: ex.P, C: ex.C, pool: ex.pool, prefix: fmt.Sprintf("unf%d!", t.id), closures: map[*Term]Val{}, noPrune: true, used: map[string]bool{}}
	st := newState(d.prefix)
	st.noPre = true
	st.pc = nil
	k := 0
	vars := map[string]SVal{}
	for i, p := range f.Params {
		v := buildVal(f.PTypes[i], func() *Term { a := t.Args[k]; k++; return a })
		vars[p] = SVal{v, f.PTypes[i]}
	}
	for _, r := range regs {
		st.heap[r] = t.Args[k]
		k++
	}
	env := &SpecEnv{ex: d, st: st, old: st, vars: vars, pkg: f.Pkg}
	v := env.eval(f.Body)
	b := env.norm(v)
	facts := append([]*Term{}, st.pc...)
	facts = append(facts, Eq(t, b.T))
	unfoldMu.Lock()
	unfoldTab[t.id] = &unfolded{facts}
	unfoldMu.Unlock()
	return facts
}

var axiomCache sync.Map

type axiomInst struct {
	f    *Term
	syms map[string]bool
}

func (C *Contracts) axiomTerms(ex *Exec) []axiomInst {
	if v, ok := axiomCache.Load(ex.prop); ok {
		return v.([]axiomInst)
	}
	var out []axiomInst
	for _, a := range C.Axioms {
		if !propApplies(a.Props, ex.prop) {
			continue
		}
		d := &Exec{P: ex.P, C: C, pool: ex.pool, prefix: "ax!", closures: map[*Term]Val{}, noPrune: true, used: map[string]bool{}}
		st := newState("ax!")
		st.noPre = true
		vars := map[string]SVal{}
		var bs []*Term
		for i, n := range a.Vars {
			k := 0
			v := buildVal(a.Types[i], func() *Term {
				l := leaves(a.Types[i])[k]
				k++
				b := Bound(fmt.Sprintf("%s%s!ax", n, l.Suf), l.S)
				bs = append(bs, b)
				return b
			})
			vars[n] = SVal{v, a.Types[i]}
		}
		env := &SpecEnv{ex: d, st: st, old: st, vars: vars, pkg: a.Pkg, depth: 1}
		body := env.bool(a.E)
		var pats []*Term
		syms := map[string]bool{}
		for _, t := range a.Trig {
			p := env.norm(env.eval(t)).T
			pats = append(pats, p)
			if p.Op == "app" {
				syms[p.Name] = true
			}
		}
		f := body
		if len(bs) > 0 {
			f = Forall(bs, body, pats...)
		}
		if a.Local {
			f = Imp(Sym("in!"+a.Pkg.Name(), SBool), f)
		}
		out = append(out, axiomInst{f, syms})
	}
	axiomCache.Store(ex.prop, out)
	return out
}

const unfoldRounds = 2

func (ex *Exec) withLemmas(asserts []*Term) []*Term {
	return ex.withLemmasN(asserts, unfoldRounds, false)
}

func (ex *Exec) withLemmasN(asserts []*Term, rounds int, skolem bool) []*Term {
	out := append([]*Term{}, asserts...)
	have := map[int]bool{}
	for _, a := range out {
		have[a.id] = true
	}
	seen := map[int]bool{}
	add := func(t *Term) {
		if t.Op == "true" || have[t.id] || t.bnd {
			return
		}
		have[t.id] = true
		out = append(out, t)
	}
	lits := map[string]*Term{}
	doneFrame := map[[2]int]bool{}
	doneQ := map[int]bool{}
	doneEqLit := map[int]bool{}
	unf := map[int]bool{}
	syms := map[string]bool{}
	prefixes := map[string][]*Term{}
	var strSk, strAll []*Term
	strDone := map[[2]int]bool{}

	frame := func(h, i *Term) {
		// walk the chain below a select
		var walk func(h *Term, d int)
		walk = func(h *Term, d int) {
			if d > 40 {
				return
			}
			switch h.Op {
			case "store":
				walk(h.Args[0], d+1)
			case "ite":
				walk(h.Args[1], d+1)
				walk(h.Args[2], d+1)
			case "sym":
				m := h.meta
				if m == nil || m.any {
					return
				}
				k := [2]int{h.id, i.id}
				if doneFrame[k] {
					return
				}
				doneFrame[k] = true
				if i.bnd {
					if doneQ[h.id] {
						return
					}
					doneQ[h.id] = true
					b := Bound("fr!i", SInt)
					s1 := mk("select", "", selSort(h), h, b)
					s2 := mk("select", "", selSort(h), m.prev, b)
					cs := []*Term{Le(b, m.top)}
					for _, w := range m.wr {
						cs = append(cs, Not(Eq(b, w)))
					}
					add(Forall([]*Term{b}, Imp(And(cs...), Eq(s1, s2)), s1))
				} else {
					cs := []*Term{Le(i, m.top)}
					for _, w := range m.wr {
						cs = append(cs, Not(Eq(i, w)))
					}
					s1 := mk("select", "", selSort(h), h, i)
					add(Imp(And(cs...), Eq(s1, Select(m.prev, i))))
				}
				walk(m.prev, d+1)
			}
		}
		walk(h, 0)
	}

	divs := map[int][]*Term{}
	var chrs []*Term
	start := 0
	var pendingUnf []*Term
	visitNew := func() {
		for start < len(out) {
			var rec func(t *Term)
			rec = func(t *Term) {
				if seen[t.id] {
					return
				}
				seen[t.id] = true
				for _, a := range t.Args {
					rec(a)
				}
				if t.isL {
					lits[t.Name] = t
				}
				switch t.Op {
				case "=":
					a, b := t.Args[0], t.Args[1]
					if a.S == SStr {
						if a.isL {
							a, b = b, a
						}
						if b.isL && !a.bnd && !doneEqLit[t.id] {
							doneEqLit[t.id] = true
							cs := []*Term{Eq(SLen(a), Int(int64(len(b.lit))))}
							if len(b.lit) <= 24 {
								for i := 0; i < len(b.lit); i++ {
									cs = append(cs, Eq(SAt(a, Int(int64(i))), Int(int64(b.lit[i]))))
								}
								add(Eq(t, And(cs...)))
							} else {
								add(Imp(t, And(cs...)))
							}
						}
					}
				case "select":
					frame(t.Args[0], t.Args[1])
					if t.Args[0].Op == "app" {
						ex.arrLemma(t.Args[0], t.Args[1], add)
					}
				case "mod", "div":
					if !t.bnd && t.Args[1].Op != "int" {
						modLemmas(t, divs, add)
					}
				case "forall":
					// a witness for its negation, so that recursive functions applied to
					// the bound variable are unfolded there
					if skolem && !t.bnd && ex.hasBoundRec(t.Args[0]) {
						m := map[*Term]*Term{}
						for _, b := range t.Args[1:] {
							if b.Op == "bound" {
								m[b] = Sym(fmt.Sprintf("sk!%d!%s", t.id, b.Name), b.S)
							}
						}
						add(Or(t, Not(subst(t.Args[0], m))))
						for _, b := range t.Args[1:] {
							if b.Op == "bound" && b.S == SStr {
								strSk = append(strSk, m[b])
							}
						}
					}
					if skolem && !t.bnd && len(t.Args) == 2 && t.Args[1].Op == "bound" && t.Args[1].S == SStr && ex.hasBoundRec(t.Args[0]) {
						strAll = append(strAll, t)
					}
				case "store":
				case "app":
					syms[t.Name] = true
					if t.bnd {
						// lemmas only for ground terms
						return
					}
					switch {
					case t.Name == "slen":
						add(Le(tZero, t))
					case t.Name == "sat":
						s, i := t.Args[0], t.Args[1]
						add(Le(tZero, t))
						add(Le(t, Int(255)))
						if s.Op == "app" {
							switch s.Name {
							case "ssub":
								x, a, b := s.Args[0], s.Args[1], s.Args[2]
								add(Imp(And(Le(tZero, a), Le(tZero, i), Lt(i, Sub(b, a)), Le(b, SLen(x))), Eq(t, SAt(x, Add(a, i)))))
							case "cat":
								x, y := s.Args[0], s.Args[1]
								add(Imp(And(Le(tZero, i), Lt(i, SLen(x))), Eq(t, SAt(x, i))))
								add(Imp(And(Le(SLen(x), i), Lt(i, Add(SLen(x), SLen(y)))), Eq(t, SAt(y, Sub(i, SLen(x))))))
							}
						}
						if s.isL && len(s.lit) <= 32 {
							for k := 0; k < len(s.lit); k++ {
								add(Imp(Eq(i, Int(int64(k))), Eq(t, Int(int64(s.lit[k])))))
							}
						}
					case t.Name == "ssub":
						x, a, b := t.Args[0], t.Args[1], t.Args[2]
						add(Imp(And(Le(tZero, a), Le(a, b), Le(b, SLen(x))), Eq(App("slen", SInt, t), Sub(b, a))))
					case t.Name == "cat":
						add(Eq(App("slen", SInt, t), Add(SLen(t.Args[0]), SLen(t.Args[1]))))
					case t.Name == "chr":
						c := t.Args[0]
						chrs = append(chrs, t)
						add(Eq(App("slen", SInt, t), tOne))
						add(Imp(And(Le(tZero, c), Le(c, Int(255))), Eq(App("sat", SInt, t, tZero), c)))
					case t.Name == "utf8":
						add(Le(tOne, SLen(t)))
						add(Le(SLen(t), Int(4)))
					case strings.HasPrefix(t.Name, "shift!"), strings.HasPrefix(t.Name, "acat!"):
						if !doneQ[t.id] {
							doneQ[t.id] = true
							b := Bound("ar!i", SInt)
							_, vs := arrParts(t.S)
							s1 := mk("select", "", vs, t, b)
							var r *Term
							if strings.HasPrefix(t.Name, "shift!") {
								r = Select(t.Args[0], Add(b, t.Args[1]))
							} else {
								base, n, src, off, m := t.Args[0], t.Args[1], t.Args[2], t.Args[3], t.Args[4]
								r = Ite(And(Le(n, b), Lt(b, Add(n, m))), Select(src, Add(Sub(b, n), off)), Select(base, b))
							}
							add(Forall([]*Term{b}, Eq(s1, r), s1))
						}
					case strings.HasPrefix(t.Name, "spec!"):
						if !unf[t.id] {
							unf[t.id] = true
							pendingUnf = append(pendingUnf, t)
							if f := ex.C.Fns[strings.TrimPrefix(t.Name, "spec!")]; f != nil && f.Prefix && !ex.noPrefix {
								for _, o := range prefixes[t.Name] {
									if l := ex.C.prefixLemma(f, o, t); l != nil {
										add(l)
									}
								}
								prefixes[t.Name] = append(prefixes[t.Name], t)
							}
						}
					}
				}
			}
			rec(out[start])
			start++
		}
	}
	visitNew()
	for r := 0; r < rounds && len(pendingUnf) > 0; r++ {
		cur := pendingUnf
		pendingUnf = nil
		sort.Slice(cur, func(i, j int) bool { return cur[i].id < cur[j].id })
		for _, t := range cur {
			for _, f := range ex.unfold(t) {
				add(f)
			}
		}
		visitNew()
		// statements about all strings, at the witnesses
		for again := true; again; {
			again = false
			for _, t := range strAll {
				for _, w := range strSk {
					if k := [2]int{t.id, w.id}; !strDone[k] {
						strDone[k] = true
						again = true
						add(Imp(t, subst(t.Args[0], map[*Term]*Term{t.Args[1]: w})))
					}
				}
			}
			visitNew()
		}
	}
	// axioms
	for _, a := range ex.C.axiomTerms(ex) {
		use := len(a.syms) == 0
		for s := range a.syms {
			if syms[s] {
				use = true
			}
		}
		if use {
			add(a.f)
		}
	}
	visitNew()
	for _, c := range chrs {
		for _, n := range sortedKeys(lits) {
			if l := lits[n]; len(l.lit) == 1 {
				add(Imp(Eq(c.Args[0], Int(int64(l.lit[0]))), Eq(c, l)))
			}
		}
	}
	visitNew()
	if len(lits) > 1 || (len(lits) == 1 && (syms["slen"] || syms["sat"])) {
		for _, n := range sortedKeys(lits) {
			l := lits[n]
			var id int
			fmt.Sscanf(n, "lit!%d", &id)
			out = append(out, mk("=", "", SBool, App("strid", SInt, l), Int(int64(id))))
			if syms["slen"] {
				out = append(out, mk("=", "", SBool, App("slen", SInt, l), Int(int64(len(l.lit)))))
			}
			if syms["sat"] && len(l.lit) <= 24 {
				for k := 0; k < len(l.lit); k++ {
					out = append(out, mk("=", "", SBool, App("sat", SInt, l, Int(int64(k))), Int(int64(l.lit[k]))))
				}
			}
		}
	}
	return out
}

func (ex *Exec) arrLemma(h, i *Term, add func(*Term)) {
	if i.bnd {
		return
	}
	_, vs := arrParts(h.S)
	s1 := mk("select", "", vs, h, i)
	switch {
	case strings.HasPrefix(h.Name, "shift!"):
		add(Eq(s1, Select(h.Args[0], Add(i, h.Args[1]))))
	case strings.HasPrefix(h.Name, "acat!"):
		base, n, src, off, m := h.Args[0], h.Args[1], h.Args[2], h.Args[3], h.Args[4]
		add(Eq(s1, Ite(And(Le(n, i), Lt(i, Add(n, m))), Select(src, Add(Sub(i, n), off)), Select(base, i))))
	}
}

func selSort(h *Term) Sort {
	_, v := arrParts(h.S)
	return v
}

// modLemmas: facts about Euclidean division by a positive divisor that is not a constant,
// which the solvers' non-linear arithmetic does not find by itself. They are theorems of
// integer arithmetic: x = y*div + mod with 0 <= mod < y, and for x = n + d the quotients
// are equal, or differ by one, when mod(n,y)+d stays inside [0,y), [y,2y) or [-y,0).
func modLemmas(t *Term, divs map[int][]*Term, add func(*Term)) {
	x, y := t.Args[0], t.Args[1]
	for _, o := range divs[y.id] {
		if o == x {
			return
		}
	}
	pos := Lt(tZero, y)
	md := func(a *Term) *Term { return mk("mod", "", SInt, a, y) }
	dv := func(a *Term) *Term { return mk("div", "", SInt, a, y) }
	add(Imp(pos, And(Le(tZero, md(x)), Lt(md(x), y))))
	add(Imp(pos, Eq(x, Add(Mul(y, dv(x)), md(x)))))
	add(Imp(And(pos, Le(tZero, x), Lt(x, y)), And(Eq(md(x), x), Eq(dv(x), tZero))))
	add(Imp(And(pos, Eq(x, y)), And(Eq(md(x), tZero), Eq(dv(x), tOne))))
	if len(divs[y.id]) < 12 {
		for _, n := range divs[y.id] {
			for k := 0; k < 2; k++ {
				a, b := x, n
				if k == 1 {
					a, b = n, x
				}
				s := Add(md(b), Sub(a, b))
				add(Imp(And(pos, Le(tZero, s), Lt(s, y)), And(Eq(dv(a), dv(b)), Eq(md(a), s))))
				add(Imp(And(pos, Le(y, s), Lt(s, Mul(Int(2), y))), And(Eq(dv(a), Add(dv(b), tOne)), Eq(md(a), Sub(s, y)))))
			}
		}
	}
	divs[y.id] = append(divs[y.id], x)
}

func (ex *Exec) hasBoundRec(t *Term) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if !t.bnd || seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.Op == "app" {
			if f := ex.C.Fns[strings.TrimPrefix(t.Name, "spec!")]; f != nil && f.Kind == "rec" {
				return true
			}
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// prefixLemma: two applications of a prefix function on slices that agree on the first n elements.
// Proved by induction once per function (prefixUnit).
func (C *Contracts) prefixLemma(f *SpecFn, a, b *Term) *Term {
	n := len(f.Regions)
	for i := 4; i < len(a.Args)-n; i++ {
		if a.Args[i] != b.Args[i] {
			return nil
		}
	}
	if a.Args[0] == b.Args[0] && a.Args[1] == b.Args[1] && a.Args[3] != b.Args[3] && n == 0 {
		return nil
	}
	i := Bound("pf!i", SInt)
	ea, eb := C.prefixElem(f, a, i), C.prefixElem(f, b, i)
	eq := tTrue
	if ea != eb {
		eq = Forall([]*Term{i}, Imp(And(Le(tZero, i), Lt(i, a.Args[3])), Eq(ea, eb)))
	}
	return Imp(And(Eq(a.Args[3], b.Args[3]), eq), Eq(a, b))
}

func (C *Contracts) prefixElem(f *SpecFn, a, i *Term) *Term {
	el := f.PTypes[0].Underlying().(*types.Slice).Elem()
	l := leaves(el)[0]
	h := Sym("H:"+elemRegion(el, l.Suf), ArrSort(SInt, ArrSort(SInt, l.S)))
	if len(f.Regions) > 0 {
		h = a.Args[len(a.Args)-1]
	}
	return Select(Select(h, a.Args[0]), Add(a.Args[1], i))
}

// prefixUnit is the induction step of the lemma above.
func (V *Verifier) prefixUnit(f *SpecFn) *UnitResult {
	r := &UnitResult{name: "lemma " + f.Name, ct: &Contract{Key: "lemma " + f.Name, Kind: "lemma"}, covered: true, used: map[string]bool{}, notes: map[string]bool{}, returns: 1}
	sl, ok := f.PTypes[0].Underlying().(*types.Slice)
	if !ok || len(leaves(sl.Elem())) != 1 || len(f.Regions) > 1 || len(f.Regions) == 1 && f.Regions[0] != elemRegion(sl.Elem(), leaves(sl.Elem())[0].Suf) {
		r.err = "not a function of the first elements of a slice"
		return r
	}
	var rest []*Term
	for i := 2; i < len(f.PTypes); i++ {
		for j, l := range leaves(f.PTypes[i]) {
			rest = append(rest, Sym(fmt.Sprintf("pl!%d!%d", i, j), l.S))
		}
	}
	n := Sym("pl!n", SInt)
	mkApp := func(s string, n *Term) *Term {
		args := []*Term{Sym("pl!arr"+s, SInt), Sym("pl!off"+s, SInt), Sym("pl!len"+s, SInt), n}
		args = append(args, rest...)
		for _, g := range f.Regions {
			args = append(args, Sym("pl!H"+s, V.P.rsort[g]))
		}
		return App("spec!"+f.Name, leaves(f.Res)[0].S, args...)
	}
	a, b := mkApp("a", n), mkApp("b", n)
	a1, b1 := mkApp("a", Sub(n, tOne)), mkApp("b", Sub(n, tOne))
	i := Bound("pf!i", SInt)
	ea, eb := V.C.prefixElem(f, a, i), V.C.prefixElem(f, b, i)
	as := []*Term{
		Imp(Lt(tZero, n), Eq(a1, b1)),
		Forall([]*Term{i}, Imp(And(Le(tZero, i), Lt(i, n)), Eq(ea, eb))),
		// and at the last element
		Imp(Lt(tZero, n), Eq(V.C.prefixElem(f, a, Sub(n, tOne)), V.C.prefixElem(f, b, Sub(n, tOne)))),
	}
	g := Eq(a, b)
	r.vcs = []*VC{{Fn: r.name, Clause: "depends on the first elements only", Kind: "lemma", Asserts: append(as, Not(g)), Goal: g}}
	return r
}

// lemmas: the prefix functions in use.
func (V *Verifier) lemmas() []*UnitResult {
	var out []*UnitResult
	var names []string
	for n := range V.C.Fns {
		names = append(names, n)
	}
	sort.Strings(names)
	ex := &Exec{P: V.P, C: V.C, pool: V.pool, prop: V.prop, closures: map[*Term]Val{}, used: map[string]bool{}, noPrefix: true}
	for _, n := range names {
		f := V.C.Fns[n]
		if !f.Prefix {
			continue
		}
		r := V.prefixUnit(f)
		for _, vc := range r.vcs {
			vc.Res, vc.By = V.pool.Check(ex.withLemmas(vc.Asserts), V.ms, true)
		}
		out = append(out, r)
	}
	return out
}

// hasPrefix: the term uses a prefix function.
func (C *Contracts) hasPrefix(t *Term) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.Op == "app" && strings.HasPrefix(t.Name, "spec!") {
			if f := C.Fns[t.Name[5:]]; f != nil && f.Prefix {
				return true
			}
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// lemmasFor: the query with the facts that goals of this kind need.
func (ex *Exec) lemmasFor(asserts []*Term, goals ...*Term) []*Term {
	for _, g := range goals {
		if ex.C.hasPrefix(g) {
			return ex.withLemmasN(asserts, 3, true)
		}
	}
	return ex.withLemmas(asserts)
}

// hasStrForall: the term quantifies over strings.
func hasStrForall(t *Term) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.Op == "forall" {
			for _, b := range t.Args[1:] {
				if b.Op == "bound" && b.S == SStr {
					return true
				}
			}
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}
