package main

// Calls: builtins, inlining, contracts, dynamic dispatch, havoc by inferred effects.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxInlineDepth = 14

type kont func(st *State, fr *Frame, v Val)

func (ex *Exec) call(st *State, fr *Frame, x *ssa.Call, k kont) {
	c := &x.Call
	where := ex.pos(x.Pos())
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		ex.builtin(st, fr, bi.Name(), c, x, where, k)
		return
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, ex.val(st, fr, a))
	}
	if c.IsInvoke() {
		ex.invoke(st, fr, c, ex.val(st, fr, c.Value), args, where, k)
		return
	}
	ex.callValue(st, fr, c, ex.val(st, fr, c.Value), args, where, k)
}

func (ex *Exec) callValue(st *State, fr *Frame, c *ssa.CallCommon, fv Val, args []Val, where string, k kont) {
	if fv.K == 's' {
		if v, ok := ex.closures[fv.T]; ok {
			fv = v
		} else if fv.T.Op == "ite" {
			cond := st.simp(fv.T.Args[0])
			if cond.Op == "true" {
				ex.callValue(st, fr, c, sv(fv.T.Args[1]), args, where, k)
				return
			}
			if cond.Op == "false" {
				ex.callValue(st, fr, c, sv(fv.T.Args[2]), args, where, k)
				return
			}
			st2, fr2 := st.clone(), fr.clone()
			if st.assume1(cond) {
				ex.callValue(st, fr, c, sv(fv.T.Args[1]), args, where, k)
			}
			if st2.assume1(Not(cond)) {
				ex.callValue(st2, fr2, c, sv(fv.T.Args[2]), args, where, k)
			}
			return
		}
	}
	if fv.K == 'f' {
		ex.callFn(st, fr, fv.Fn, args, fv.F, c, where, k)
		return
	}
	// unknown function value
	ex.checkSafe(st, "call of nil function", where, Not(Eq(fv.T, tZero)))
	sig := c.Signature()
	cands := ex.P.fvals[sigKey(sig)]
	key := "dyncall " + sigName(sig)
	if ct := ex.contract(key); ct != nil {
		all := append([]Val{fv}, args...)
		ts := []types.Type{c.Value.Type()}
		for i := 0; i < sig.Params().Len(); i++ {
			ts = append(ts, sig.Params().At(i).Type())
		}
		ex.applyContract(st, fr, ct, ts, all, sig, func(st *State) map[string]*havoc { return ex.effectTerms(st, cands, nil, args, nil) }, where, k)
		return
	}
	ex.havocCall(st, fr, cands, nil, args, nil, sig, where, k)
}

func (ex *Exec) invoke(st *State, fr *Frame, c *ssa.CallCommon, recv Val, args []Val, where string, k kont) {
	ex.checkSafe(st, "method call on nil interface", where, Not(Eq(recv.T, tZero)))
	it := c.Value.Type().Underlying().(*types.Interface)
	impls := ex.P.impls(it, types.TypeString(c.Value.Type(), nil), c.Method.Name())
	sig := c.Signature()
	key := "iface " + typeName(c.Value.Type()) + "." + c.Method.Name()
	dyn := App("dyn", SInt, recv.T)
	if d, ok := st.eqc[dyn.id]; ok {
		for _, f := range impls {
			if d == Int(int64(ex.P.Tag(f.Signature.Recv().Type()))) || recvTag(ex.P, f) == int(d.N.Int64()) {
				if ex.contract(key) == nil || ex.contract(ex.P.Key(f)) != nil {
					ex.callFn(st, fr, f, append([]Val{ex.unbox(st, recv.T, recvType(f))}, args...), nil, c, where, k)
					return
				}
			}
		}
	}
	all := append([]Val{recv}, args...)
	if ct := ex.contract(key); ct != nil {
		ts := []types.Type{c.Value.Type()}
		for i := 0; i < sig.Params().Len(); i++ {
			ts = append(ts, sig.Params().At(i).Type())
		}
		ex.applyContract(st, fr, ct, ts, all, sig, func(st *State) map[string]*havoc { return ex.effectTerms(st, impls, nil, all, nil) }, where, k)
		return
	}
	// dispatch over the implementers when they are few and small
	if ex.P.repoIface(c.Value.Type()) && len(impls) > 0 && len(impls) <= 16 && allSmall(impls) && !ex.anyOpaque(impls) {
		type oc struct {
			st *State
			v  Val
		}
		var outs []oc
		base := len(st.pc)
		pre := st
		for _, f := range impls {
			s2 := st.clone()
			tag := Int(int64(recvTag(ex.P, f)))
			if !s2.assume(Eq(dyn, tag)) {
				continue
			}
			ex.callFn(s2, fr.clone(), f, append([]Val{ex.unbox(s2, recv.T, recvType(f))}, args...), nil, c, where, func(st *State, fr *Frame, v Val) {
				outs = append(outs, oc{st, v})
			})
		}
		var os []outcome
		for _, o := range outs {
			os = append(os, outcome{o.st, o.v})
		}
		ex.resume(pre, base, os, fr, k)
		return
	}
	if len(impls) == 0 || !ex.P.repoIface(c.Value.Type()) {
		ex.note("unmodelled external method " + typeName(c.Value.Type()) + "." + c.Method.Name() + ": arbitrary result, no effect on the modelled heap")
	}
	ex.havocCall(st, fr, impls, nil, all, nil, sig, where, k)
}

func recvType(f *ssa.Function) types.Type {
	if f.Signature.Recv() != nil {
		return f.Signature.Recv().Type()
	}
	return f.Params[0].Type()
}
func recvTag(P *Program, f *ssa.Function) int { return P.Tag(recvType(f)) }

func allSmall(fs []*ssa.Function) bool {
	for _, f := range fs {
		if len(f.Blocks) > 3 {
			return false
		}
	}
	return true
}

func (ex *Exec) anyOpaque(fs []*ssa.Function) bool {
	for _, f := range fs {
		if ex.C.Opaque[ex.P.Key(f)] {
			return true
		}
	}
	return false
}

func (fr *Frame) onStack(f *ssa.Function) bool {
	for x := fr; x != nil; x = x.parent {
		if x.fn == f {
			return true
		}
	}
	return false
}

// contract returns the contract in force for key under the current property, or nil.
func (ex *Exec) contract(key string) *Contract {
	ct := ex.C.ByKey[key]
	if ct == nil || ex.noContract[key] {
		return nil
	}
	if !ct.appliesTo(ex.prop) {
		return nil
	}
	return ct
}

func (ex *Exec) callFn(st *State, fr *Frame, f *ssa.Function, args, binds []Val, c *ssa.CallCommon, where string, k kont) {
	key := ex.P.Key(f)
	sig := f.Signature
	if ct := ex.contract(key); ct != nil && !ex.initMode {
		var ts []types.Type
		if f.Blocks != nil && len(f.Params) == len(args) {
			for _, p := range f.Params {
				ts = append(ts, p.Type())
			}
		} else {
			if sig.Recv() != nil {
				ts = append(ts, sig.Recv().Type())
			}
			for i := 0; i < sig.Params().Len(); i++ {
				ts = append(ts, sig.Params().At(i).Type())
			}
		}
		ex.applyContract(st, fr, ct, ts, args, sig, func(st *State) map[string]*havoc {
			if f.Blocks == nil || !ex.P.inRepo(f) {
				return ex.externWrites(st, ct, args)
			}
			return ex.effectTerms(st, []*ssa.Function{f}, f, args, binds)
		}, where, k)
		return
	}
	if f.Blocks == nil || !ex.P.inRepo(f) {
		if isNoReturn(key) {
			return
		}
		ex.note("unmodelled external function " + key + ": arbitrary result, no effect on the modelled heap")
		ex.havocCall(st, fr, nil, nil, args, nil, sig, where, k)
		return
	}
	if ex.initMode && strings.HasSuffix(f.Name(), "init") {
		k(st, fr, zeroVal(sig.Results()))
		return
	}
	if ex.C.Opaque[key] || fr.onStack(f) || fr.depth >= maxInlineDepth || len(f.Blocks) > 150 {
		ex.havocCall(st, fr, []*ssa.Function{f}, f, args, binds, sig, where, k)
		return
	}
	// inline
	nf := &Frame{fn: f, env: map[ssa.Value]Val{}, parent: fr, depth: fr.depth + 1, site: where}
	if len(f.Params) != len(args) || len(f.FreeVars) != len(binds) {
		panic(unsupported("argument shape for " + key))
	}
	for i, p := range f.Params {
		nf.env[p] = args[i]
	}
	for i, p := range f.FreeVars {
		nf.env[p] = binds[i]
	}
	pre := st.clone()
	base := len(st.pc)
	var outs []outcome
	nf.ret = func(st *State, res []Val) {
		outs = append(outs, outcome{st, packRes(res)})
	}
	ex.enterFn(st, nf)
	ex.resume(pre, base, outs, fr, k)
}

func packRes(res []Val) Val {
	if len(res) == 1 {
		return res[0]
	}
	return Val{K: 't', F: res}
}

func (ex *Exec) enterFn(st *State, fr *Frame) {
	b := fr.fn.Blocks[0]
	if isLoopHeader(b) {
		panic(unsupported("entry block is a loop header"))
	}
	ex.runFrom(st, fr, b, 0)
}

type outcome struct {
	st *State
	v  Val
}

// resume continues after a call with the collected outcomes, merging those with equal heaps.
func (ex *Exec) resume(pre *State, base int, outs []outcome, fr *Frame, k kont) {
	if len(outs) == 0 {
		return
	}
	if len(outs) == 1 {
		k(outs[0].st, fr.clone(), outs[0].v)
		return
	}
	var groups [][]outcome
	for _, o := range outs {
		done := false
		for gi, g := range groups {
			if ex.mergeable(pre, g[0].st, o.st) && valMergeable(g[0].v, o.v) {
				groups[gi] = append(g, o)
				done = true
				break
			}
		}
		if !done {
			groups = append(groups, []outcome{o})
		}
	}
	for _, g := range groups {
		if len(g) == 1 {
			k(g[0].st, fr.clone(), g[0].v)
			continue
		}
		st := pre.clone()
		// heaps may have more initialised regions
		for r, h := range g[0].st.heap {
			if _, ok := st.heap[r]; !ok {
				st.heap[r] = h
			}
		}
		for _, o := range g[1:] {
			for r, h := range o.st.heap {
				if _, ok := st.heap[r]; !ok {
					st.heap[r] = h
				}
			}
		}
		var ds []*Term
		v := g[0].v
		// facts common to all outcomes are assumed outright
		common := map[int]bool{}
		for _, f := range g[0].st.pc[base:] {
			common[f.id] = true
		}
		for _, o := range g[1:] {
			here := map[int]bool{}
			for _, f := range o.st.pc[base:] {
				here[f.id] = true
			}
			for id := range common {
				if !here[id] {
					delete(common, id)
				}
			}
		}
		for _, f := range g[0].st.pc[base:] {
			if common[f.id] {
				st.assume1raw(f)
			}
		}
		for i, o := range g {
			var fs []*Term
			for _, f := range o.st.pc[base:] {
				if !common[f.id] {
					fs = append(fs, f)
				}
			}
			c := And(fs...)
			ds = append(ds, c)
			if i > 0 {
				v = ex.iteVal(c, o.v, v)
			}
		}
		st.assume1raw(Or(ds...))
		k(st, fr.clone(), v)
	}
}

func valMergeable(a, b Val) bool {
	if a.K != b.K {
		return false
	}
	if a.K == 't' || a.K == 'l' {
		if len(a.F) != len(b.F) {
			return false
		}
		for i := range a.F {
			if !valMergeable(a.F[i], b.F[i]) {
				return false
			}
		}
		return true
	}
	return a.K == 's'
}

func (ex *Exec) mergeable(pre, a, b *State) bool {
	if a.top != b.top || a.top != pre.top {
		return false
	}
	for r, h := range a.heap {
		if h2, ok := b.heap[r]; ok && h2 != h {
			return false
		}
		if hp, ok := pre.heap[r]; ok && hp != h {
			return false
		}
		if _, ok := pre.heap[r]; !ok && h.Op != "sym" {
			return false
		}
	}
	for r, h := range b.heap {
		if hp, ok := pre.heap[r]; ok && hp != h {
			return false
		}
		if _, ok := pre.heap[r]; !ok && h.Op != "sym" {
			return false
		}
	}
	// local cells of the callee do not matter; the caller's must be untouched
	for c, v := range pre.cells {
		if !sameVal(a.cells[c], v) || !sameVal(b.cells[c], v) {
			return false
		}
	}
	if len(a.pend) != len(pre.pend) || len(b.pend) != len(pre.pend) {
		return false
	}
	for r, p := range pre.pend {
		for _, q := range []*pendObj{a.pend[r], b.pend[r]} {
			if q == nil || len(q.vals) != len(p.vals) {
				return false
			}
			for f, v := range p.vals {
				if q.vals[f] != v {
					return false
				}
			}
		}
	}
	return true
}

func sameVal(a, b Val) bool {
	if a.K != b.K || a.T != b.T || a.Fn != b.Fn || len(a.F) != len(b.F) {
		return false
	}
	if (a.L == nil) != (b.L == nil) {
		return false
	}
	if a.L != nil && (a.L.kind != b.L.kind || a.L.cell != b.L.cell || a.L.base != b.L.base || a.L.idx != b.L.idx || a.L.region != b.L.region) {
		return false
	}
	for i := range a.F {
		if !sameVal(a.F[i], b.F[i]) {
			return false
		}
	}
	return true
}

func isNoReturn(key string) bool {
	switch key {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "runtime.Goexit":
		return true
	}
	return false
}

// ---- havoc

type havoc struct {
	sort Sort
	leaf Leaf
	wr   []*Term
	any  bool
	glob bool
}

// effectTerms: regions (with written references) that calling one of fs may modify.
func (ex *Exec) effectTerms(st *State, fs []*ssa.Function, one *ssa.Function, args, binds []Val) map[string]*havoc {
	out := map[string]*havoc{}
	for _, f := range fs {
		e := ex.P.effects[f]
		if e == nil {
			continue
		}
		b := binds
		if one == nil {
			b = nil
		}
		for r, os := range e.W {
			h := out[r]
			if h == nil {
				h = &havoc{sort: ex.P.rsort[r]}
				out[r] = h
			}
			for o := range os {
				a := args
				if one == nil && len(f.Params) != len(args) {
					a = nil
				}
				ts, any, glob := ex.originTerms(st, o, f, a, b)
				h.wr = append(h.wr, ts...)
				h.any = h.any || any
				h.glob = h.glob || glob
			}
		}
	}
	return out
}

func (ex *Exec) originTerms(st *State, o string, f *ssa.Function, args, binds []Val) (ts []*Term, any, glob bool) {
	if o == "fresh" {
		return nil, false, false
	}
	if o == "global" {
		return nil, false, true
	}
	name, rest := o, ""
	if i := strings.Index(o, "/"); i >= 0 {
		name, rest = o[:i], o[i+1:]
	}
	var v Val
	var k int
	switch {
	case strings.HasPrefix(name, "*fv"):
		fmt.Sscanf(name, "*fv%d", &k)
		if k >= len(binds) || binds[k].K != 'a' {
			return nil, true, false
		}
		v = ex.load(st, binds[k].L)
	case strings.HasPrefix(name, "fv"):
		fmt.Sscanf(name, "fv%d", &k)
		if k >= len(binds) {
			return nil, true, false
		}
		v = binds[k]
		if v.K == 'a' && v.L.kind == "cell" {
			return nil, false, false
		}
	case strings.HasPrefix(name, "p"):
		fmt.Sscanf(name, "p%d", &k)
		if k >= len(args) {
			return nil, true, false
		}
		v = args[k]
	default:
		return nil, true, false
	}
	switch v.K {
	case 's', 'p':
	case 'l':
		v = v.F[0]
	case 'a':
		if v.L.kind == "field" || v.L.kind == "elem" {
			return []*Term{v.L.base}, false, false
		}
		return nil, true, false
	default:
		return nil, true, false
	}
	if rest == "" {
		return []*Term{v.T}, false, false
	}
	s := ex.P.rsort[rest]
	if s == "" && ex.P.rsort[rest+".arr"] != "" {
		rest += ".arr"
		s = ex.P.rsort[rest]
	}
	if s == "" {
		return nil, true, false
	}
	// the path is only meaningful if the callee does not itself overwrite it
	if e := ex.P.effects[f]; e != nil && e.W[rest] != nil {
		return nil, true, false
	}
	return []*Term{Select(ex.heapGet(st, rest, s), v.T)}, false, false
}

func (ex *Exec) externWrites(st *State, ct *Contract, args []Val) map[string]*havoc {
	out := map[string]*havoc{}
	for _, w := range ct.Writes {
		for i, p := range ct.Params {
			if p != w.Param {
				continue
			}
			for _, r := range w.Regions {
				h := out[r]
				if h == nil {
					h = &havoc{sort: ex.P.rsort[r]}
					out[r] = h
				}
				if args[i].K == 's' {
					h.wr = append(h.wr, args[i].T)
				} else {
					h.any = true
				}
			}
		}
	}
	return out
}

func (ex *Exec) applyHavoc(st *State, hs map[string]*havoc) {
	oldTop := st.top
	ex.bumpTop(st)
	for _, r := range sortedKeys(hs) {
		h := hs[r]
		if strings.HasPrefix(r, "G:") {
			st.heap[r] = ex.sym("H:"+r, h.sort)
			continue
		}
		if !ex.P.mutable[r] {
			continue
		}
		if h.sort == "" {
			panic(unsupported("no sort for region " + r))
		}
		prev := ex.heapGet(st, r, h.sort)
		n := ex.sym("H:"+r, h.sort)
		n.meta = &havocMeta{prev: prev, top: oldTop, wr: h.wr, any: h.any || h.glob && !strings.HasPrefix(r, "G:")}
		st.heap[r] = n
	}
}

func (ex *Exec) havocCall(st *State, fr *Frame, fs []*ssa.Function, one *ssa.Function, args, binds []Val, sig *types.Signature, where string, k kont) {
	for _, a := range args {
		ex.escapeArg(st, a)
	}
	for _, a := range binds {
		ex.escapeArg(st, a)
	}
	hs := ex.effectTerms(st, fs, one, args, binds)
	ex.havocCells(st, args)
	ex.havocCells(st, binds)
	ex.applyHavoc(st, hs)
	k(st, fr, ex.resultVal(st, sig))
}

func (ex *Exec) havocCells(st *State, vs []Val) {
	for _, v := range vs {
		if v.K == 'a' && v.L.kind == "cell" {
			c := st.cells[v.L.cell]
			_ = c
			st.cells[v.L.cell] = ex.rehavoc(st, c, "cell")
		}
		if v.K == 'f' {
			ex.havocCells(st, v.F)
		}
	}
}

// rehavoc: same shape, unknown contents.
func (ex *Exec) rehavoc(st *State, v Val, hint string) Val {
	switch v.K {
	case 's':
		return sv(ex.sym(hint, v.T.S))
	case 't', 'l':
		n := Val{K: v.K}
		for _, f := range v.F {
			n.F = append(n.F, ex.rehavoc(st, f, hint))
		}
		if v.K == 'l' {
			st.assume1raw(Le(tZero, n.len()))
			st.assume1raw(Le(tZero, n.off()))
		}
		return n
	}
	return sv(ex.sym(hint, SInt))
}

func (ex *Exec) escapeArg(st *State, v Val) {
	switch v.K {
	case 'a':
		if v.L.base != nil {
			ex.escape(st, v.L.base)
		}
	case 'f':
		for _, b := range v.F {
			ex.escapeArg(st, b)
		}
	default:
		termsOf(v, func(t *Term) { ex.escape(st, t) })
	}
}

func (ex *Exec) resultVal(st *State, sig *types.Signature) Val {
	n := sig.Results().Len()
	if n == 1 {
		return ex.freshVal(st, sig.Results().At(0).Type(), "res")
	}
	v := Val{K: 't'}
	for i := 0; i < n; i++ {
		v.F = append(v.F, ex.freshVal(st, sig.Results().At(i).Type(), "res"))
	}
	return v
}

// applyContract: check requires, havoc, assume ensures.
func (ex *Exec) applyContract(st *State, fr *Frame, ct *Contract, pts []types.Type, args []Val, sig *types.Signature, effects func(*State) map[string]*havoc, where string, k kont) {
	ex.used[ct.Key] = true
	if len(ct.Params) != len(args) {
		panic(unsupported(fmt.Sprintf("contract %s: %d parameters, code has %d", ct.Key, len(ct.Params), len(args))))
	}
	vars := map[string]SVal{}
	for i, p := range ct.Params {
		a := args[i]
		if a.K == 'a' || a.K == 'f' || a.K == 'p' {
			if a.K == 'a' && a.L.kind == "cell" {
				// address of a local passed to a contract: only its identity is visible
			}
			vars[p] = SVal{V: sv(ex.scalar(st, a)), T: pts[i]}
			continue
		}
		vars[p] = SVal{V: a, T: pts[i]}
	}
	env := &SpecEnv{ex: ex, st: st, old: st, vars: vars, pkg: ct.Pkg}
	for i, r := range ct.Requires {
		if r.Def {
			continue // assumed in the function, not checked here
		}
		if !r.appliesTo(ex.prop) {
			continue
		}
		t := env.bool(r.E)
		lbl := r.Label
		if lbl == "" {
			lbl = fmt.Sprint(i)
		}
		ex.oblige(st, "requires", ct.Key+" requires "+lbl, where, t)
		st.assume(t)
	}
	pre := st.clone()
	for _, a := range args {
		ex.escapeArg(st, a)
	}
	hs := effects(st)
	ex.havocCells(st, args)
	ex.applyHavoc(st, hs)
	if ct.NoReturn {
		return
	}
	res := ex.resultVal(st, sig)
	env2 := &SpecEnv{ex: ex, st: st, old: pre, vars: map[string]SVal{}, pkg: ct.Pkg}
	for n, v := range vars {
		env2.vars[n] = v
	}
	bindResults(env2, ct, sig, res)
	for _, e := range ct.Ensures {
		if !e.appliesTo(ex.prop) {
			continue
		}
		st.assume(env2.bool(e.E))
	}
	if !ex.noPrune && st.pc[len(st.pc)-1].Op == "false" {
		return
	}
	k(st, fr, res)
}

func bindResults(env *SpecEnv, ct *Contract, sig *types.Signature, res Val) {
	n := sig.Results().Len()
	if n != len(ct.Results) && len(ct.Results) > 0 {
		panic(unsupported(fmt.Sprintf("contract %s: %d results named, code has %d", ct.Key, len(ct.Results), n)))
	}
	for i := range ct.Results {
		v := res
		if n != 1 {
			v = res.F[i]
		}
		env.vars[ct.Results[i]] = SVal{V: v, T: sig.Results().At(i).Type()}
	}
}

// ---- builtins

func (ex *Exec) builtin(st *State, fr *Frame, name string, c *ssa.CallCommon, x *ssa.Call, where string, k kont) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, ex.val(st, fr, a))
	}
	switch name {
	case "len":
		v := args[0]
		switch {
		case v.K == 'l':
			k(st, fr, sv(v.len()))
		case v.K == 'p':
			k(st, fr, v.F[0])
		case v.K == 's' && isStringT(c.Args[0].Type()):
			t := SLen(v.T)
			st.assume1raw(Le(tZero, t))
			k(st, fr, sv(t))
		default:
			t := App("maplen", SInt, v.T)
			t = ex.sym("maplen", SInt)
			st.assume1raw(Le(tZero, t))
			k(st, fr, sv(t))
		}
	case "cap":
		t := ex.sym("cap", SInt)
		if args[0].K == 'l' {
			st.assume1raw(Le(args[0].len(), t))
		}
		k(st, fr, sv(t))
	case "append":
		k(st, fr, ex.appendVal(st, args[0], args[1], c.Args[0].Type().Underlying().(*types.Slice).Elem(), c.Args[1].Type()))
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		ks := mapKeySort(mt)
		rd := mapDomRegion(mt)
		h := ex.heapGet(st, rd, ArrSort(SInt, ArrSort(ks, SBool)))
		m := args[0].T
		st.heap[rd] = Store(h, m, Store(Select(h, m), ex.mapKey(st, mt, args[1]), tFalse))
		k(st, fr, sv(tZero))
	case "print", "println":
		k(st, fr, sv(tZero))
	case "panic":
		if ex.safe {
			ex.oblige(st, "safety", "explicit panic is unreachable", where, tFalse)
		}
	case "ssa:wrapnilchk":
		k(st, fr, args[0])
	case "min", "max":
		r := args[0].T
		for _, a := range args[1:] {
			if name == "min" {
				r = Ite(Le(r, a.T), r, a.T)
			} else {
				r = Ite(Le(a.T, r), r, a.T)
			}
		}
		k(st, fr, sv(r))
	case "copy":
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		for _, lf := range leaves(el) {
			r := elemRegion(el, lf.Suf)
			ex.applyHavoc(st, map[string]*havoc{r: {sort: ArrSort(SInt, ArrSort(SInt, lf.S)), wr: []*Term{args[0].arr()}}})
		}
		k(st, fr, sv(ex.sym("copy_n", SInt)))
	default:
		panic(unsupported("builtin " + name))
	}
}

// appendVal: the result always gets a fresh backing array (see the aliasing assumption).
func (ex *Exec) appendVal(st *State, s, t Val, el types.Type, tt types.Type) Val {
	ex.note("append never writes into a backing array that another live slice sees (slices are used linearly)")
	if s.K == 's' && s.T == tZero {
		s = mkSlice(tZero, tZero, tZero)
	}
	if t.K == 's' { // append([]byte, string...)
		if isStringT(tt) {
			r := ex.freshVal(st, types.NewSlice(el), "appstr")
			st.assume(Eq(r.len(), Add(s.len(), SLen(t.T))))
			return r
		}
		t = mkSlice(tZero, tZero, tZero)
	}
	n := t.len()
	if n == tZero {
		return s
	}
	r := ex.freshRef(st, "arr")
	p := &pendObj{typ: el, vals: map[string]*Term{}, isArr: true}
	for _, lf := range leaves(el) {
		region := elemRegion(el, lf.Suf)
		base := ex.shiftContent(st, s, region, lf.S)
		src := ex.elemContent(st, t.arr(), region, lf.S)
		var c *Term
		if n.Op == "int" && n.N.IsInt64() && n.N.Int64() <= 64 {
			c = base
			for i := int64(0); i < n.N.Int64(); i++ {
				e := Select(src, Add(t.off(), Int(i)))
				st.leafFacts(e, lf)
				ex.escape(st, e)
				c = Store(c, Add(s.len(), Int(i)), e)
			}
		} else {
			c = App("acat!"+string(lf.S), ArrSort(SInt, lf.S), base, s.len(), src, t.off(), n)
		}
		if ex.P.mutable[region] {
			h := ex.heapGet(st, region, ArrSort(SInt, ArrSort(SInt, lf.S)))
			st.heap[region] = Store(h, r, c)
		} else {
			p.vals[region] = c
		}
	}
	st.pend[r] = p
	res := mkSlice(r, tZero, Add(s.len(), n))
	if n.Op == "int" {
		return res
	}
	// appending nothing returns the slice itself
	z := Eq(n, tZero)
	return mkSlice(Ite(z, s.arr(), r), Ite(z, s.off(), tZero), Add(s.len(), n))
}

func (ex *Exec) shiftContent(st *State, s Val, region string, so Sort) *Term {
	c := ex.elemContent(st, s.arr(), region, so)
	if s.off() == tZero {
		return c
	}
	return App("shift!"+string(so), ArrSort(SInt, so), c, s.off())
}

var _ = sort.Strings

// sigName is a signature without receiver and parameter names.
func sigName(s *types.Signature) string {
	anon := func(t *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < t.Len(); i++ {
			vs = append(vs, types.NewVar(0, nil, "", t.At(i).Type()))
		}
		return types.NewTuple(vs...)
	}
	return typeName(types.NewSignatureType(nil, nil, nil, anon(s.Params()), anon(s.Results()), s.Variadic()))
}
