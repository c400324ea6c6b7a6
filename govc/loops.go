package main

// Loops: cut at the header, invariants found by Houdini over templates.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type LoopCtx struct {
	header     *ssa.BasicBlock
	blocks     map[*ssa.BasicBlock]bool
	collecting bool
	onBack     func(st *State, fr *Frame, from *ssa.BasicBlock)
}

func isLoopHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func loopBlocks(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	m := map[*ssa.BasicBlock]bool{h: true}
	var stack []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !m[p] {
			m[p] = true
			stack = append(stack, p)
		}
	}
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for _, p := range b.Preds {
			if !m[p] {
				m[p] = true
				stack = append(stack, p)
			}
		}
	}
	return m
}

type candInv struct {
	text string
	eval func(st *State, fr *Frame) *Term
}

// loopEffects: regions the loop may write, and local cells.
func (ex *Exec) loopEffects(st *State, fr *Frame, blocks map[*ssa.BasicBlock]bool) (map[string]*havoc, map[int]bool) {
	hs := map[string]*havoc{}
	cells := map[int]bool{}
	inLoop := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && in.Block() != nil && in.Parent() == fr.fn && blocks[in.Block()]
	}
	var addVal func(h *havoc, v ssa.Value, seen map[ssa.Value]bool)
	emitTerm := func(h *havoc, v Val) {
		switch v.K {
		case 's', 'p':
			h.wr = append(h.wr, v.T)
		case 'l':
			h.wr = append(h.wr, v.arr())
		case 'a':
			if v.L.base != nil {
				h.wr = append(h.wr, v.L.base)
			} else if v.L.kind != "cell" {
				h.any = true
			}
		default:
			h.any = true
		}
	}
	addVal = func(h *havoc, v ssa.Value, seen map[ssa.Value]bool) {
		if seen[v] {
			return
		}
		seen[v] = true
		if !inLoop(v) {
			if x, ok := fr.env[v]; ok {
				emitTerm(h, x)
				return
			}
			if _, ok := v.(*ssa.Const); ok {
				return
			}
			h.any = true
			return
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				addVal(h, e, seen)
			}
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		case *ssa.ChangeInterface:
			addVal(h, x.X, seen)
		case *ssa.MakeInterface:
			addVal(h, x.X, seen)
		case *ssa.ChangeType:
			addVal(h, x.X, seen)
		case *ssa.UnOp:
			// load: of a loop-invariant field/cell/global not written by the loop
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				if !inLoop(a.X) {
					if bv, ok := fr.env[a.X]; ok && bv.K == 's' {
						stt := deref(a.X.Type())
						f := stt.Underlying().(*types.Struct).Field(a.Field)
						reg := fieldRegion(stt, "."+f.Name())
						h.wr = append(h.wr, nil) // placeholder resolved below
						h.wr = h.wr[:len(h.wr)-1]
						ex.deferredLoads = append(ex.deferredLoads, deferredLoad{h: h, region: reg, base: bv.T})
						return
					}
				}
			case *ssa.Alloc:
				if !inLoop(a) {
					if bv, ok := fr.env[a]; ok && bv.K == 'a' && bv.L.kind == "cell" {
						ex.deferredLoads = append(ex.deferredLoads, deferredLoad{h: h, cell: bv.L.cell, isCell: true})
						return
					}
				}
			case *ssa.FreeVar:
				if bv, ok := fr.env[a]; ok && bv.K == 'a' && bv.L.kind == "cell" {
					ex.deferredLoads = append(ex.deferredLoads, deferredLoad{h: h, cell: bv.L.cell, isCell: true})
					return
				}
			}
			h.any = true
		default:
			h.any = true
		}
	}
	get := func(r string) *havoc {
		h := hs[r]
		if h == nil {
			h = &havoc{sort: ex.P.rsort[r]}
			hs[r] = h
		}
		return h
	}
	ex.deferredLoads = nil
	capturedCall := false
	for b := range blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				root := x.Addr
				for {
					if fa, ok := root.(*ssa.FieldAddr); ok {
						root = fa.X
						continue
					}
					break
				}
				if v, ok := fr.env[root]; ok && v.K == 'a' && v.L.kind == "cell" && !inLoop(root) {
					cells[v.L.cell] = true
				}
			case ssa.CallInstruction:
				c := x.Common()
				if _, isB := c.Value.(*ssa.Builtin); !isB {
					if c.StaticCallee() == nil || len(c.StaticCallee().FreeVars) > 0 {
						capturedCall = true
					}
					for _, a := range c.Args {
						if v, ok := fr.env[a]; ok && v.K == 'a' && v.L.kind == "cell" {
							cells[v.L.cell] = true
						}
					}
				}
			}
			ex.P.instrEffects(fr.fn, in, func(region string, vals []ssa.Value, orig []string) {
				h := get(region)
				for _, o := range orig {
					switch {
					case o == "fresh":
					case o == "global":
						h.glob = true
					case strings.HasPrefix(o, "p"):
						// origin relative to this function's parameters
						ts, any, _ := ex.originTerms(st, o, fr.fn, frameArgs(fr), nil)
						if strings.Contains(o, "/") {
							any = true
						}
						h.wr = append(h.wr, ts...)
						h.any = h.any || any
					default:
						h.any = true
					}
				}
				for _, v := range vals {
					addVal(h, v, map[ssa.Value]bool{})
				}
			}, func() {})
		}
	}
	if capturedCall {
		for v, x := range fr.env {
			if a, ok := v.(*ssa.Alloc); ok && x.K == 'a' && x.L.kind == "cell" {
				for _, r := range *a.Referrers() {
					if mc, ok := r.(*ssa.MakeClosure); ok && !closureOnlyReads(mc, a) {
						cells[x.L.cell] = true
					}
				}
			}
		}
	}
	for _, d := range ex.deferredLoads {
		if d.isCell {
			if cells[d.cell] {
				d.h.any = true
			} else {
				emitTerm(d.h, st.cells[d.cell])
			}
			continue
		}
		if ex.P.rsort[d.region] == "" && ex.P.rsort[d.region+".arr"] != "" {
			d.region += ".arr"
		}
		if hs[d.region] != nil || ex.P.rsort[d.region] == "" {
			d.h.any = true
			continue
		}
		d.h.wr = append(d.h.wr, Select(ex.heapGet(st, d.region, ex.P.rsort[d.region]), d.base))
	}
	return hs, cells
}

type deferredLoad struct {
	h      *havoc
	region string
	base   *Term
	cell   int
	isCell bool
}

func frameArgs(fr *Frame) []Val {
	var out []Val
	for _, p := range fr.fn.Params {
		out = append(out, fr.env[p])
	}
	return out
}

func (ex *Exec) procLoop(st *State, fr *Frame, from, h *ssa.BasicBlock) {
	blocks := loopBlocks(h)
	pi := predIndex(from, h)
	entry := st
	frEntry := fr
	// entry values of the phis
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	entryVals := make([]Val, len(phis))
	for i, p := range phis {
		entryVals[i] = ex.val(st, fr, p.Edges[pi])
	}
	frE := frEntry.clone()
	for i, p := range phis {
		frE.env[p] = entryVals[i]
	}
	if debugOn {
		fmt.Println("LOOP in", ex.P.Key(fr.fn), "depth", len(fr.loops), "collect", ex.collect)
	}
	hs, cells := ex.loopEffects(entry, frEntry, blocks)

	havocked := func() (*State, *Frame) {
		s := entry.clone()
		f := frEntry.clone()
		ex.applyHavoc(s, hs)
		for c := range cells {
			s.cells[c] = ex.rehavoc(s, s.cells[c], "cell")
		}
		for i, p := range phis {
			switch entryVals[i].K {
			case 'a', 'f', 'p':
				// addresses and closures as loop-carried values
				same := true
				for j, e := range p.Edges {
					if j != pi && e != ssa.Value(p) {
						if x, ok := f.env[e]; !ok || !sameVal(x, entryVals[i]) {
							same = false
						}
					}
				}
				if same {
					f.env[p] = entryVals[i]
					continue
				}
			}
			self := true
			for _, e := range backEdges(h, p, blocks) {
				if e != ssa.Value(p) {
					self = false
				}
			}
			if self {
				f.env[p] = entryVals[i]
				continue
			}
			f.env[p] = ex.freshVal(s, p.Type(), "phi_"+p.Comment)
		}
		return s, f
	}

	cands := ex.candidates(entry, frE, phis, blocks)
	// entry check
	var live []candInv
	var eg []*Term
	var ec []candInv
	for _, c := range cands {
		if t := ex.safeEval(c, entry, frE); t != nil {
			eg = append(eg, entry.simp(t))
			ec = append(ec, c)
		}
	}
	for i, ok := range ex.provable(entry, eg) {
		if ok {
			live = append(live, ec[i])
		}
	}
	for {
		s, f := havocked()
		for _, c := range live {
			if t := ex.safeEval(c, s, f); t != nil {
				s.assume(t)
			}
		}
		type back struct {
			st *State
			fr *Frame
		}
		var backs []back
		lc := &LoopCtx{header: h, blocks: blocks, collecting: true}
		lc.onBack = func(st *State, fr *Frame, from *ssa.BasicBlock) {
			b := fr.clone()
			bi := predIndex(from, h)
			var vals []Val
			for _, p := range phis {
				vals = append(vals, ex.val(st, b, p.Edges[bi]))
			}
			for i, p := range phis {
				b.env[p] = vals[i]
			}
			backs = append(backs, back{st, b})
		}
		f.loops = append(append([]*LoopCtx{}, frEntry.loops...), lc)
		saveRet := f.ret
		f.ret = func(*State, []Val) {}
		ex.collect++
		ex.runBody(s, f, h, len(phis))
		ex.collect--
		_ = saveRet
		drop := map[int]bool{}
		for _, b := range backs {
			var goals []*Term
			var idx []int
			for i, c := range live {
				if drop[i] {
					continue
				}
				t := ex.safeEval(c, b.st, b.fr)
				if t == nil {
					drop[i] = true
					continue
				}
				g := b.st.simp(t)
				if g.Op == "true" {
					continue
				}
				goals = append(goals, g)
				idx = append(idx, i)
			}
			if len(goals) == 0 {
				continue
			}
			// all at once first
			var easy, hard, left []*Term
			var ei, hi, li []int
			for i, g := range goals {
				if hasStrForall(g) || ex.C.hasPrefix(g) {
					hard, hi = append(hard, g), append(hi, idx[i])
				} else {
					easy, ei = append(easy, g), append(ei, idx[i])
				}
			}
			if len(easy) > 0 {
				if r, _ := ex.check(b.st, []*Term{Not(And(easy...))}, times(2000), false); r != Unsat {
					left, li = append(left, easy...), append(li, ei...)
				}
			}
			if len(hard) > 1 {
				ng := Not(And(hard...))
				as := append(append([]*Term{}, b.st.pc...), ex.allPendFacts(b.st)...)
				if r, _ := ex.pool.Check(ex.groundQuery(append(as, ng), ng), times(3000), false); r != Unsat {
					left, li = append(left, hard...), append(li, hi...)
				}
			} else {
				left, li = append(left, hard...), append(li, hi...)
			}
			if len(left) == 0 {
				continue
			}
			idx = li
			for j, ok := range ex.provable(b.st, left) {
				g := left[j]
				if !ok {
					drop[idx[j]] = true
					if d := os.Getenv("GOVC_DUMPINV"); d != "" && strings.Contains(live[idx[j]].text, d) {
						fmt.Println("DROP", live[idx[j]].text, "path", b.st.path)
						fmt.Println(printQuery(ex.withLemmas(append(append([]*Term{}, b.st.pc...), Not(g)))))
					}
				}
			}
		}
		if len(drop) == 0 {
			break
		}
		var nl []candInv
		for i, c := range live {
			if !drop[i] {
				nl = append(nl, c)
			}
		}
		live = nl
	}
	if debugOn {
		for _, c := range live {
			fmt.Println("   INV", c.text)
		}
	}
	if ex.collect == 0 {
		ex.invCount += len(live)
	}
	// final pass
	s, f := havocked()
	for _, c := range live {
		if t := ex.safeEval(c, s, f); t != nil {
			s.assume(t)
		}
	}
	lc := &LoopCtx{header: h, blocks: blocks}
	lc.onBack = func(st *State, fr *Frame, from *ssa.BasicBlock) {}
	f.loops = append(append([]*LoopCtx{}, frEntry.loops...), lc)
	ex.runBody(s, f, h, len(phis))
}

// provable decides which of the goals follow from the state, in parallel.
func (ex *Exec) provable(st *State, goals []*Term) []bool {
	out := make([]bool, len(goals))
	var wg sync.WaitGroup
	for i, g := range goals {
		if g.Op == "true" {
			out[i] = true
			continue
		}
		as := append(append([]*Term{}, st.pc...), ex.allPendFacts(st)...)
		var gq []*Term
		g, pc := g, append([]*Term{}, as...)
		if hasStrForall(g) || ex.C.hasPrefix(g) {
			gq = ex.groundQuery(append(append([]*Term{}, as...), Not(g)), Not(g))
		}
		as = ex.lemmasFor(append(as, Not(g)), g)
		ms := 1500
		if ex.C.hasPrefix(g) || hasStrForall(g) {
			ms = 8000
		}
		wg.Add(1)
		go func(i int, as []*Term) {
			defer wg.Done()
			if gq != nil {
				if r, _ := ex.pool.Check(gq, times(6000), false); r == Unsat {
					out[i] = true
					return
				}
			}
			r, _ := ex.pool.Check(as, times(ms), false)
			out[i] = r == Unsat
			if !out[i] && gq == nil && anyStrForall(pc) {
				r, _ := ex.pool.Check(ex.groundQuery(append(append([]*Term{}, pc...), Not(g)), Not(g)), times(3000), false)
				out[i] = r == Unsat
			}
		}(i, as)
	}
	wg.Wait()
	return out
}

func (ex *Exec) runBody(st *State, fr *Frame, h *ssa.BasicBlock, nphi int) {
	ex.runFrom(st, fr, h, nphi)
}

func (ex *Exec) safeEval(c candInv, st *State, fr *Frame) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.eval(st, fr)
}

// candidates instantiates the invariant templates over values in scope.
func (ex *Exec) candidates(entry *State, frE *Frame, phis []*ssa.Phi, blocks map[*ssa.BasicBlock]bool) []candInv {
	var out []candInv
	type scopeVar struct {
		v   ssa.Value
		fr  *Frame
		own bool
		phi bool
	}
	// values in scope: phis of this loop, the frame's values defined outside the loop, callers' values
	var scope []scopeVar
	for _, p := range phis {
		scope = append(scope, scopeVar{p, nil, true, true})
	}
	isPhi := map[ssa.Value]bool{}
	for _, p := range phis {
		isPhi[p] = true
	}
	addFrame := func(fr *Frame, own bool) {
		var vs []ssa.Value
		for v := range fr.env {
			if isPhi[v] {
				continue
			}
			if in, ok := v.(ssa.Instruction); ok && own && blocks[in.Block()] {
				continue
			}
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool {
			if vs[i].Name() != vs[j].Name() {
				return len(vs[i].Name()) < len(vs[j].Name()) || len(vs[i].Name()) == len(vs[j].Name()) && vs[i].Name() < vs[j].Name()
			}
			return vs[i].Pos() < vs[j].Pos()
		})
		for _, v := range vs {
			scope = append(scope, scopeVar{v, fr, own, false})
		}
	}
	addFrame(frE, true)
	for fr := frE.parent; fr != nil; fr = fr.parent {
		addFrame(fr, false)
	}
	valOf := func(s scopeVar, cur *Frame) (Val, bool) {
		if s.own {
			v, ok := cur.env[s.v]
			return v, ok
		}
		v, ok := s.fr.env[s.v]
		return v, ok
	}
	for _, pool := range ex.C.Pools {
		if !pool.appliesTo(ex.prop) {
			continue
		}
		// choose values for metavariables
		choices := make([][]scopeVar, len(pool.Vars))
		feasible := true
		for i, mv := range pool.Vars {
			seen := map[string]bool{}
			for _, s := range scope {
				if mv.Phi && !s.phi {
					continue
				}
				if !typeMatches(mv, s.v.Type()) {
					continue
				}
				v, ok := valOf(s, frE)
				if !ok || v.K == 'f' || v.K == 'r' || v.K == 'p' {
					continue
				}
				if v.K == 'a' {
					if !(v.L.kind == "cell") {
						continue
					}
					continue
				}
				// same value twice is useless (unless a phi)
				if !s.phi {
					key := ""
					termsOf(v, func(t *Term) { key += fmt.Sprint(t.id, ",") })
					if seen[key] {
						continue
					}
					seen[key] = true
					// constants are not interesting as metavariables
				}
				choices[i] = append(choices[i], s)
			}
			if len(choices[i]) > 14 {
				choices[i] = choices[i][:14]
			}
			if len(choices[i]) == 0 {
				feasible = false
			}
		}
		if !feasible {
			continue
		}
		var rec func(i int, pick []scopeVar)
		count := 0
		rec = func(i int, pick []scopeVar) {
			if count > 400 {
				return
			}
			if i == len(pool.Vars) {
				pk := append([]scopeVar{}, pick...)
				for _, inv := range pool.Invs {
					inv := inv
					count++
					name := inv.Text
					for j, mv := range pool.Vars {
						name += fmt.Sprintf(" [%s=%s]", mv.Name, pk[j].v.Name())
					}
					out = append(out, candInv{text: name, eval: func(st *State, fr *Frame) *Term {
						env := &SpecEnv{ex: ex, st: st, old: ex.old, entry: entry, vars: map[string]SVal{}, evars: map[string]SVal{}, pkg: pool.Pkg}
						for n, v := range ex.rootParams {
							env.vars[n] = v
						}
						for j, mv := range pool.Vars {
							v, ok := valOf(pk[j], fr)
							if !ok {
								panic(unsupported("scope"))
							}
							env.vars[mv.Name] = SVal{V: v, T: pk[j].v.Type()}
							if ev, ok := valOf(pk[j], frE); ok {
								env.evars[mv.Name] = SVal{V: ev, T: pk[j].v.Type()}
							}
						}
						return env.bool(inv.E)
					}})
				}
				return
			}
			for _, c := range choices[i] {
				dup := false
				for _, p := range pick {
					if p.v == c.v && p.fr == c.fr {
						dup = true
					}
				}
				if dup {
					continue
				}
				rec(i+1, append(pick, c))
			}
		}
		rec(0, nil)
	}
	return out
}

func typeMatches(mv MetaVar, t types.Type) bool {
	if mv.AnySlice {
		_, ok := t.Underlying().(*types.Slice)
		return ok
	}
	if types.Identical(mv.T, t) {
		return true
	}
	if mv.Under {
		return types.Identical(mv.T.Underlying(), t.Underlying())
	}
	return false
}

// backEdges: the values a header phi takes from inside the loop.
func backEdges(h *ssa.BasicBlock, p *ssa.Phi, blocks map[*ssa.BasicBlock]bool) []ssa.Value {
	var out []ssa.Value
	for i, b := range h.Preds {
		if blocks[b] {
			out = append(out, p.Edges[i])
		}
	}
	return out
}
