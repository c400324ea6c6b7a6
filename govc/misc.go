package main

// Initial states and facts about package-level variables.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

var recMu sync.Mutex

func newState(prefix string) *State {
	st := &State{known: map[int]bool{}, eqc: map[int]*Term{}, heap: map[string]*Term{}, cells: map[int]Val{}, pend: map[*Term]*pendObj{}}
	ser := int(atomic.AddInt64(&freshSerial, 1))
	top := Sym(fmt.Sprintf("%stop0!%d", prefix, ser), SInt)
	internMu.Lock()
	top.fr, top.hp, top.pre = ser, true, ser
	internMu.Unlock()
	st.top = top
	st.assume1raw(Le(tZero, top))
	return st
}

func bigFromString(s string) (*big.Int, bool) { return new(big.Int).SetString(s, 10) }

// InitInfo: the state of the read-only globals after package initialisation.
type InitInfo struct {
	vals  map[*ssa.Global]Val
	facts []*Term
	heap  map[*ssa.Package]map[string]*Term
	byRef map[int][]*Term // fresh reference id -> facts mentioning it
	order []*Term         // fresh references in allocation order
	errs  []string
}

func freshRefsOf(t *Term, out map[*Term]bool, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.fr > 0 {
		out[t] = true
	}
	for _, a := range t.Args {
		freshRefsOf(a, out, seen)
	}
}

// runInits executes the package initialisers symbolically.
func (P *Program) runInits(C *Contracts, pool *Pool) {
	P.init = &InitInfo{vals: map[*ssa.Global]Val{}, heap: map[*ssa.Package]map[string]*Term{}, byRef: map[int][]*Term{}}
	for _, p := range P.pkgs {
		f := p.Func("init")
		if f == nil || f.Blocks == nil {
			continue
		}
		P.runInit(p, f, C, pool)
	}
}

func (P *Program) runInit(p *ssa.Package, f *ssa.Function, C *Contracts, pool *Pool) {
	ex := &Exec{P: P, C: C, pool: pool, prefix: "init:" + p.Pkg.Name() + "!", closures: map[*Term]Val{}, used: map[string]bool{},
		noContract: map[string]bool{}, initMode: true, maxSteps: 200000, noPrune: true}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				P.init.errs = append(P.init.errs, fmt.Sprintf("init of %s: %s", p.Pkg.Path(), u))
				return
			}
			panic(r)
		}
	}()
	st := newState(ex.prefix)
	// zero values of the package's globals
	for _, m := range p.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		t := deref(g.Type())
		if _, isArr := t.Underlying().(*types.Array); isArr {
			continue
		}
		zs := flat(zeroVal(t))
		for i, l := range leaves(t) {
			st.heap[globRegion(g, l.Suf)] = zs[i]
		}
	}
	fr := &Frame{fn: f, env: map[ssa.Value]Val{}}
	var outs []*State
	fr.ret = func(st *State, res []Val) { outs = append(outs, st) }
	ex.enterFn(st, fr)
	if len(outs) != 1 {
		P.init.errs = append(P.init.errs, fmt.Sprintf("init of %s: %d outcomes", p.Pkg.Path(), len(outs)))
		return
	}
	s := outs[0]
	facts := append(append([]*Term{}, s.pc...), ex.allPendFacts(s)...)
	I := P.init
	for _, t := range facts {
		refs := map[*Term]bool{}
		freshRefsOf(t, refs, map[int]bool{})
		for r := range refs {
			I.byRef[r.id] = append(I.byRef[r.id], t)
		}
	}
	I.heap[p] = s.heap
	for t, v := range ex.closures {
		_ = t
		_ = v
	}
	for _, m := range p.Members {
		g, ok := m.(*ssa.Global)
		if !ok || !P.globInitOnly[g] {
			continue
		}
		t := deref(g.Type())
		if _, isArr := t.Underlying().(*types.Array); isArr {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupported); !ok {
						panic(r)
					}
				}
			}()
			gl := &Loc{kind: "global", region: globRegion(g, ""), T: t}
			ls := leaves(t)
			i := 0
			I.vals[g] = buildVal(t, func() *Term { l := ls[i]; i++; return s.heap[gl.region+l.Suf] })
		}()
	}
}

// loadInitGlobal returns the value of a global that only package initialisation writes.
func (ex *Exec) loadInitGlobal(st *State, l *Loc) (Val, bool) {
	I := ex.P.init
	if I == nil || ex.initMode || ex.recDummy {
		return Val{}, false
	}
	v, ok := I.vals[l.glob]
	if !ok || l.region != globRegion(l.glob, "") {
		return Val{}, false
	}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		rs := map[*Term]bool{}
		freshRefsOf(t, rs, map[int]bool{})
		for r := range rs {
			if seen[r] {
				continue
			}
			seen[r] = true
			st.assume1raw(Lt(tZero, r))
			st.assume1raw(Le(r, st.top))
			for _, f := range I.byRef[r.id] {
				if f.Op == "<=" || f.Op == "not" && f.Args[0].Op == "<=" {
					continue // allocation order of initialisation
				}
				if mentionsMutable(ex.P, f) {
					continue
				}
				st.assume1raw(f)
				visit(f)
			}
		}
	}
	termsOf(v, visit)
	if mt, isMap := deref(l.glob.Type()).Underlying().(*types.Map); isMap && v.K == 's' && ex.P.globalMapReadOnly(l.glob) {
		heap := I.heap[l.glob.Pkg]
		regs := []string{mapDomRegion(mt)}
		for _, lf := range leaves(mt.Elem()) {
			regs = append(regs, mapValRegion(mt, lf.Suf))
		}
		for _, r := range regs {
			h := heap[r]
			if h == nil {
				continue
			}
			c := Select(h, v.T)
			cur := Select(ex.heapGet(st, r, ex.P.rsort[r]), v.T)
			visit(c)
			if cur != c {
				st.assume1raw(Eq(cur, c))
			}
		}
	}
	return v, true
}

// mentionsMutable: the term reads an initialisation-time version of a mutable region.
func mentionsMutable(P *Program, t *Term) bool {
	found := false
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if found || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.Op == "sym" && strings.Contains(t.Name, "H0:") {
			found = true
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	return found
}

// evalNoRec evaluates a recursive specification function's body with calls to
// recursive functions replaced by opaque values (used to find the regions it reads).
func (ex *Exec) evalNoRec(env *SpecEnv, g *SpecFn) {
	env.eval(g.Body)
}
