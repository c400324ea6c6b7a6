package main

import (
	"fmt"
	"sort"
	"strings"
)

// A query whose goals quantify over strings, made ground. Quantifiers that assert existence get a
// witness, and a statement that holds for all strings (all indices) is replaced by its instances at
// the witnesses and at the terms the query names. Replacing a positive statement by instances of it
// only weakens the query, so "unsat" carries over to the original one.

type grounder struct {
	strs, ints   []*Term
	haveS, haveI map[int]bool
}

func (g *grounder) str(t *Term) {
	if !t.bnd && !g.haveS[t.id] && len(g.strs) < 24 {
		g.haveS[t.id] = true
		g.strs = append(g.strs, t)
	}
}

func (g *grounder) int(t *Term) {
	if !t.bnd && !g.haveI[t.id] && len(g.ints) < 64 {
		g.haveI[t.id] = true
		g.ints = append(g.ints, t)
	}
}

type polKey struct {
	id  int
	pol bool
}

// walk rebuilds the term; f decides what becomes of a closed quantifier.
func walkPol(t *Term, pol bool, cache map[polKey]*Term, f func(t *Term, pol bool) (*Term, bool)) *Term {
	k := polKey{t.id, pol}
	if r, ok := cache[k]; ok {
		return r
	}
	r := t
	switch t.Op {
	case "not":
		r = Not(walkPol(t.Args[0], !pol, cache, f))
	case "and", "or":
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = walkPol(a, pol, cache, f)
		}
		if t.Op == "and" {
			r = And(as...)
		} else {
			r = Or(as...)
		}
	case "ite":
		if t.S == SBool {
			a, b := walkPol(t.Args[1], pol, cache, f), walkPol(t.Args[2], pol, cache, f)
			if a != t.Args[1] || b != t.Args[2] {
				r = Ite(t.Args[0], a, b)
			}
		}
	case "forall":
		if !t.bnd {
			if n, again := f(t, pol); n != t {
				r = n
				if again {
					r = walkPol(n, pol, cache, f)
				}
			}
		}
	}
	cache[k] = r
	return r
}

func boundVars(t *Term) (vs []*Term) {
	for _, b := range t.Args[1:] {
		if b.Op == "bound" {
			vs = append(vs, b)
		}
	}
	return
}

func (g *grounder) skolem(t *Term) *Term {
	m := map[*Term]*Term{}
	for _, b := range boundVars(t) {
		sk := Sym(fmt.Sprintf("gk!%d!%s", t.id, b.Name), b.S)
		m[b] = sk
		if b.S == SStr {
			g.str(sk)
		} else if b.S == SInt {
			g.int(sk)
		}
	}
	return subst(t.Args[0], m)
}

func (g *grounder) exists(as []*Term) []*Term {
	cache := map[polKey]*Term{}
	out := make([]*Term, len(as))
	for i, a := range as {
		out[i] = walkPol(a, true, cache, func(t *Term, pol bool) (*Term, bool) {
			if pol {
				return t, false
			}
			return g.skolem(t), true
		})
	}
	return out
}

// names collects the strings used as keys and the indices of elements.
func (g *grounder) names(as []*Term) {
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.Op == "select" {
			i := t.Args[1]
			if i.S == SStr {
				g.str(i)
			} else if t.Args[0].Op == "select" && i.S == SInt {
				if i.Op == "+" {
					ad := addends(i)
					for k := range ad {
						// an element at offset ad[k]
						r := tZero
						for j, a := range ad {
							if j != k {
								r = Add(r, a)
							}
						}
						g.int(r)
					}
				} else {
					g.int(i)
				}
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	for _, a := range as {
		rec(a)
	}
}

func (g *grounder) insts(t *Term, sort Sort, at []*Term) *Term {
	vs := boundVars(t)
	if len(vs) != 1 || vs[0].S != sort {
		return nil
	}
	var out []*Term
	for _, w := range at {
		out = append(out, subst(t.Args[0], map[*Term]*Term{vs[0]: w}))
	}
	return And(out...)
}

func (ex *Exec) groundQuery(asserts []*Term, goal *Term) []*Term {
	g := &grounder{haveS: map[int]bool{}, haveI: map[int]bool{}}
	// the goal first: its witnesses come first
	as := append([]*Term{}, asserts...)
	sort.SliceStable(as, func(i, j int) bool { return as[i] == goal && as[j] != goal })
	as = g.exists(as)
	g.names(as[:1])
	g.names(as)
	strsDone := func(as []*Term) []*Term {
		cache := map[polKey]*Term{}
		var out []*Term
		for _, a := range as {
			out = append(out, walkPol(a, true, cache, func(t *Term, pol bool) (*Term, bool) {
				if !pol {
					return g.skolem(t), true
				}
				if r := g.insts(t, SStr, g.strs); r != nil {
					return r, true
				}
				return t, false
			}))
		}
		return out
	}
	as = strsDone(as)
	g.names(as[:1])
	as = ex.withLemmasN(as, 3, false)
	as = g.exists(as)
	cache := map[polKey]*Term{}
	out := []*Term{}
	for _, a := range as {
		if b := a; b.Op == "forall" && (strings.HasPrefix(b.Name, "fr!") || strings.HasPrefix(b.Name, "ar!")) {
			out = append(out, a)
			continue
		}
		out = append(out, walkPol(a, true, cache, func(t *Term, pol bool) (*Term, bool) {
			if !pol {
				return g.skolem(t), true
			}
			if r := g.insts(t, SStr, g.strs); r != nil {
				return r, true
			}
			if strings.HasSuffix(t.Name, "!ax") {
				return t, false
			}
			if r := g.insts(t, SInt, g.ints); r != nil {
				return r, true
			}
			return t, false
		}))
	}
	return out
}

func anyStrForall(ts []*Term) bool {
	for _, t := range ts {
		if hasStrForall(t) {
			return true
		}
	}
	return false
}

func conjuncts(t *Term) []*Term {
	if t.Op != "and" {
		return []*Term{t}
	}
	var out []*Term
	for _, a := range t.Args {
		out = append(out, conjuncts(a)...)
	}
	return out
}

func addends(t *Term) []*Term {
	if t.Op != "+" {
		return []*Term{t}
	}
	var out []*Term
	for _, a := range t.Args {
		out = append(out, addends(a)...)
	}
	return out
}

// branchQuery: for deciding branches, statements with a quantifier count only at the terms that
// match their pattern.
func (ex *Exec) branchQuery(as []*Term) []*Term {
	sel := map[int][]*Term{}
	have := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if have[t.id] {
			return
		}
		have[t.id] = true
		if t.Op == "select" && !t.bnd {
			sel[t.Args[0].id] = append(sel[t.Args[0].id], t.Args[1])
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	for _, a := range as {
		rec(a)
	}
	g := &grounder{haveS: map[int]bool{}, haveI: map[int]bool{}}
	cache := map[polKey]*Term{}
	out := make([]*Term, 0, len(as))
	for _, a := range as {
		out = append(out, walkPol(a, true, cache, func(t *Term, pol bool) (*Term, bool) {
			if !pol {
				return g.skolem(t), true
			}
			vs := boundVars(t)
			if len(vs) != 1 {
				return tTrue, false
			}
			p := t.Args[len(t.Args)-1]
			if p.Op != "pats" || len(p.Args) != 1 || p.Args[0].Op != "select" || p.Args[0].Args[1] != vs[0] {
				return tTrue, false
			}
			r := tTrue
			for _, w := range sel[p.Args[0].Args[0].id] {
				r = And(r, subst(t.Args[0], map[*Term]*Term{vs[0]: w}))
			}
			return r, true
		}))
	}
	return out
}
