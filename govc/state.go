package main

// Symbolic values and states.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val struct {
	K  byte // 's' scalar, 't' struct or tuple, 'l' slice (F=arr,off,len), 'a' address, 'f' closure, 'p' pointer to array backing, 'r' iterator
	T  *Term
	F  []Val
	L  *Loc
	Fn *ssa.Function
}

type Loc struct {
	kind   string // cell, field, elem, global
	cell   int
	base   *Term // object reference / backing array
	idx    *Term
	region string // region prefix for field/elem/global
	path   []int  // path of field indices inside a cell
	T      types.Type
	glob   *ssa.Global
}

func sv(t *Term) Val { return Val{K: 's', T: t} }

func mkSlice(arr, off, n *Term) Val {
	return Val{K: 'l', F: []Val{sv(arr), sv(off), sv(n)}}
}

func (v Val) arr() *Term { return v.F[0].T }
func (v Val) off() *Term { return v.F[1].T }
func (v Val) len() *Term { return v.F[2].T }

type pendObj struct {
	typ   types.Type
	vals  map[string]*Term // region -> value (immutable regions only)
	isArr bool
}

type State struct {
	pc    []*Term
	known map[int]bool
	eqc   map[int]*Term
	heap  map[string]*Term
	top   *Term
	cells map[int]Val
	pend  map[*Term]*pendObj
	path  []string
	noPre bool
}

func (st *State) clone() *State {
	n := &State{noPre: st.noPre, pc: st.pc[:len(st.pc):len(st.pc)], top: st.top, path: st.path[:len(st.path):len(st.path)]}
	n.known = make(map[int]bool, len(st.known)+8)
	for k, v := range st.known {
		n.known[k] = v
	}
	n.eqc = make(map[int]*Term, len(st.eqc)+8)
	for k, v := range st.eqc {
		n.eqc[k] = v
	}
	n.heap = make(map[string]*Term, len(st.heap)+4)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.cells = make(map[int]Val, len(st.cells)+2)
	for k, v := range st.cells {
		n.cells[k] = v
	}
	n.pend = make(map[*Term]*pendObj, len(st.pend)+2)
	for k, v := range st.pend {
		p := &pendObj{typ: v.typ, isArr: v.isArr, vals: make(map[string]*Term, len(v.vals))}
		for a, b := range v.vals {
			p.vals[a] = b
		}
		n.pend[k] = p
	}
	return n
}

// assume adds a fact. It reports false when the state became trivially infeasible.
func (st *State) assume(t *Term) bool {
	t = st.simp(t)
	return st.assume1(t)
}

func (st *State) assume1(t *Term) bool {
	switch t.Op {
	case "true":
		return true
	case "false":
		st.pc = append(st.pc, tFalse)
		return false
	case "and":
		ok := true
		for _, a := range t.Args {
			if !st.assume1(a) {
				ok = false
			}
		}
		return ok
	}
	if st.known[t.id] {
		return true
	}
	st.known[t.id] = true
	st.known[Not(t).id] = false
	if t.Op == "=" && isConst(t.Args[1]) {
		st.eqc[t.Args[0].id] = t.Args[1]
	}
	st.pc = append(st.pc, t)
	return true
}

// simp simplifies a boolean term under the known literals.
func (st *State) simp(t *Term) *Term {
	if t.S != SBool {
		return t
	}
	return st.simp1(t, 0)
}

func (st *State) simp1(t *Term, d int) *Term {
	if d > 6 {
		return t
	}
	if v, ok := st.known[t.id]; ok {
		if v {
			return tTrue
		}
		return tFalse
	}
	switch t.Op {
	case "not":
		return Not(st.simp1(t.Args[0], d+1))
	case "and", "or":
		if len(t.Args) > 40 {
			return t
		}
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = st.simp1(a, d+1)
		}
		if t.Op == "and" {
			return And(args...)
		}
		return Or(args...)
	case "=":
		if t.Args[0].S == SBool {
			return Eq(st.simp1(t.Args[0], d+1), st.simp1(t.Args[1], d+1))
		}
		if isConst(t.Args[1]) {
			if c, ok := st.eqc[t.Args[0].id]; ok {
				return Eq(c, t.Args[1])
			}
		}
	case "ite":
		if t.S == SBool {
			return Ite(st.simp1(t.Args[0], d+1), st.simp1(t.Args[1], d+1), st.simp1(t.Args[2], d+1))
		}
	case "<=":
		a, b := t.Args[0], t.Args[1]
		if c, ok := st.eqc[a.id]; ok {
			a = c
		}
		if c, ok := st.eqc[b.id]; ok {
			b = c
		}
		if a != t.Args[0] || b != t.Args[1] {
			return Le(a, b)
		}
	}
	return t
}

// ---- typed symbolic values

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, signed := 64, true
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32, types.UntypedRune:
		bits = 32
	case types.Uint8:
		bits, signed = 8, false
	case types.Uint16:
		bits, signed = 16, false
	case types.Uint32:
		bits, signed = 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		signed = false
	}
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Lsh(one, uint(bits-1))
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, one)
	} else {
		lo = big.NewInt(0)
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
	}
	return lo, hi, true
}

func isRefType(t types.Type) bool {
	if t == nil {
		return true // slice backing array
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// leafFacts: what the type says about a leaf term.
func (st *State) leafFacts(t *Term, l Leaf) {
	if isConst(t) || t.fr > 0 {
		return
	}
	if l.T == nil {
		if strings.HasSuffix(l.Suf, ".arr") {
			st.assume1raw(And(Le(tZero, t), Le(t, st.top)))
			st.markPre(t)
		} else {
			st.assume1raw(Le(tZero, t))
		}
		return
	}
	if isRefType(l.T) {
		if t.Op != "ite" {
			st.assume1raw(And(Le(tZero, t), Le(t, st.top)))
			st.markPre(t)
		}
		return
	}
	if lo, hi, ok := intRange(l.T); ok {
		if t.Op == "sym" || t.Op == "select" || t.Op == "app" {
			st.assume1raw(And(Le(IntB(lo), t), Le(t, IntB(hi))))
		}
	}
}

func (st *State) assume1raw(t *Term) {
	if t.Op == "and" {
		for _, a := range t.Args {
			st.assume1raw(a)
		}
		return
	}
	if t.Op == "true" || st.known[t.id] {
		return
	}
	st.known[t.id] = true
	st.known[Not(t).id] = false
	st.pc = append(st.pc, t)
}

func (st *State) markPre(t *Term) {
	if st.noPre || t.Op == "int" || t.fr > 0 {
		return
	}
	ser := 0
	if st.top.fr > 0 {
		ser = st.top.fr
	}
	internMu.Lock()
	if !t.hp || t.pre > ser {
		t.hp, t.pre = true, ser
	}
	internMu.Unlock()
}

// buildVal assembles a value of type t from leaf terms.
func buildVal(t types.Type, next func() *Term) Val {
	if _, ok := sortOf(t); ok {
		return sv(next())
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		a := next()
		o := next()
		n := next()
		return mkSlice(a, o, n)
	case *types.Struct:
		v := Val{K: 't'}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, buildVal(u.Field(i).Type(), next))
		}
		return v
	case *types.Tuple:
		v := Val{K: 't'}
		for i := 0; i < u.Len(); i++ {
			v.F = append(v.F, buildVal(u.At(i).Type(), next))
		}
		return v
	}
	return sv(next())
}

func zeroLeaf(s Sort) *Term {
	switch s {
	case SBool:
		return tFalse
	case SStr:
		return StrLit("")
	case SFlt:
		return Sym("flt!0", SFlt)
	}
	return tZero
}

func zeroVal(t types.Type) Val {
	ls := leaves(t)
	i := 0
	return buildVal(t, func() *Term { l := ls[i]; i++; return zeroLeaf(l.S) })
}

// flat lists the leaf terms of a value (which must contain no addresses).
func flat(v Val) []*Term {
	switch v.K {
	case 's':
		return []*Term{v.T}
	case 't', 'l':
		var out []*Term
		for _, f := range v.F {
			out = append(out, flat(f)...)
		}
		return out
	}
	panic(unsupported("flatten value of kind " + string(v.K)))
}

type unsupported string

func (u unsupported) Error() string { return string(u) }

func termsOf(v Val, f func(*Term)) {
	if v.T != nil {
		f(v.T)
	}
	for _, x := range v.F {
		termsOf(x, f)
	}
	if v.L != nil && v.L.base != nil {
		f(v.L.base)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = fmt.Sprint
