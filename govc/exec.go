package main

// Path-wise symbolic execution of SSA functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debugOn = os.Getenv("GOVC_DEBUG") != ""

type VC struct {
	Fn      string // function under contract
	Clause  string // clause label
	Kind    string // ensures, requires, safety, invariant
	Where   string
	Asserts []*Term
	Goal    *Term
	Path    []string
	Res     Result
	By      string
	ms      int64
	grp     int // obligations of one state
}

type Exec struct {
	noPrefix      bool
	curGrp        int
	P             *Program
	C             *Contracts
	pool          *Pool
	prefix        string
	rootKey       string
	rootFn        *ssa.Function
	prop          string
	collect       int
	vcs           []*VC
	nsym          int
	ncell         int
	closures      map[*Term]Val
	paths         int
	maxPaths      int
	safe          bool
	used          map[string]bool
	noContract    map[string]bool // helper contracts that were dropped (inlined instead)
	old           *State
	init          *InitInfo
	initMode      bool
	invStats      map[string]int
	dropped       []string
	steps         int
	maxSteps      int
	rootParams    map[string]SVal
	cover         int
	assumed       map[string]bool
	strExt        bool
	noPrune       bool
	deferredLoads []deferredLoad
	invCount      int
	recDummy      bool
	deadline      time.Time
}

var freshSerial int64

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	parent *Frame
	depth  int
	loops  []*LoopCtx
	defers []deferred
	ret    func(st *State, res []Val)
	site   string
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.env = make(map[ssa.Value]Val, len(fr.env)+8)
	for k, v := range fr.env {
		n.env[k] = v
	}
	n.loops = fr.loops[:len(fr.loops):len(fr.loops)]
	n.defers = fr.defers[:len(fr.defers):len(fr.defers)]
	return &n
}

func (ex *Exec) sym(hint string, s Sort) *Term {
	ex.nsym++
	return Sym(fmt.Sprintf("%s%s!%d", ex.prefix, hint, ex.nsym), s)
}

// freshRef allocates a new reference above top.
func (ex *Exec) freshRef(st *State, hint string) *Term {
	t := ex.sym("new_"+hint, SInt)
	ser := int(atomic.AddInt64(&freshSerial, 1))
	internMu.Lock()
	t.fr, t.hp, t.pre = ser, true, ser
	internMu.Unlock()
	st.assume1raw(Lt(st.top, t))
	st.assume1raw(Lt(tZero, t))
	st.top = t
	return t
}

// bumpTop: unknown allocations happened.
func (ex *Exec) bumpTop(st *State) {
	t := ex.sym("top", SInt)
	ser := int(atomic.AddInt64(&freshSerial, 1))
	internMu.Lock()
	t.fr = ser // a reference-like bound: no earlier reference exceeds it
	internMu.Unlock()
	st.assume1raw(Le(st.top, t))
	st.top = t
}

func (ex *Exec) freshVal(st *State, t types.Type, hint string) Val {
	ls := leaves(t)
	i := 0
	return buildVal(t, func() *Term {
		l := ls[i]
		i++
		x := ex.sym(hint+l.Suf, l.S)
		st.leafFacts(x, l)
		return x
	})
}

// ---- heap access

func (ex *Exec) regionSort(kind string, s Sort, m *types.Map) Sort {
	switch kind {
	case "elem":
		return ArrSort(SInt, ArrSort(SInt, s))
	case "global":
		return s
	case "map":
		return ArrSort(SInt, ArrSort(mapKeySort(m), s))
	}
	return ArrSort(SInt, s)
}

func mapKeySort(m *types.Map) Sort {
	if s, ok := sortOf(m.Key()); ok {
		return s
	}
	return SInt
}

func (ex *Exec) heapGet(st *State, region string, s Sort) *Term {
	if h, ok := st.heap[region]; ok {
		return h
	}
	var h *Term
	if ex.P.mutable[region] {
		h = Sym(ex.prefix+"H0:"+region, s)
	} else {
		h = Sym("H:"+region, s) // immutable after construction: one version for all
	}
	st.heap[region] = h
	return h
}

// readLeaf reads one leaf of an object field / array element / cell / global.
func (ex *Exec) readLeaf(st *State, l *Loc, leaf Leaf) *Term {
	region := l.region + leaf.Suf
	switch l.kind {
	case "field", "ptr":
		if p, ok := st.pend[l.base]; ok && !ex.P.mutable[region] {
			if v, ok := p.vals[region]; ok {
				return v
			}
			return zeroLeaf(leaf.S)
		}
		h := ex.heapGet(st, region, ArrSort(SInt, leaf.S))
		t := Select(h, l.base)
		st.leafFacts(t, leaf)
		return t
	case "elem":
		c := ex.elemContent(st, l.base, region, leaf.S)
		t := Select(c, l.idx)
		st.leafFacts(t, leaf)
		return t
	case "global":
		h := ex.heapGet(st, region, leaf.S)
		st.leafFacts(h, leaf)
		return h
	}
	panic(unsupported("read " + l.kind))
}

func (ex *Exec) elemContent(st *State, arr *Term, region string, s Sort) *Term {
	if p, ok := st.pend[arr]; ok && !ex.P.mutable[region] {
		if v, ok := p.vals[region]; ok {
			return v
		}
		return ConstArr(ArrSort(SInt, s), zeroLeaf(s))
	}
	return Select(ex.heapGet(st, region, ArrSort(SInt, ArrSort(SInt, s))), arr)
}

func (ex *Exec) writeLeaf(st *State, l *Loc, leaf Leaf, v *Term) {
	region := l.region + leaf.Suf
	switch l.kind {
	case "field", "ptr":
		if !ex.P.mutable[region] {
			p, ok := st.pend[l.base]
			if !ok {
				panic(unsupported("store to constructed field " + region))
			}
			p.vals[region] = v
			return
		}
		st.heap[region] = Store(ex.heapGet(st, region, ArrSort(SInt, leaf.S)), l.base, v)
	case "elem":
		if !ex.P.mutable[region] {
			p, ok := st.pend[l.base]
			if !ok {
				panic(unsupported("store to constructed element " + region))
			}
			p.vals[region] = Store(ex.elemContent(st, l.base, region, leaf.S), l.idx, v)
			return
		}
		h := ex.heapGet(st, region, ArrSort(SInt, ArrSort(SInt, leaf.S)))
		st.heap[region] = Store(h, l.base, Store(Select(h, l.base), l.idx, v))
	case "global":
		st.heap[region] = v
	default:
		panic(unsupported("write " + l.kind))
	}
}

func (ex *Exec) load(st *State, l *Loc) Val {
	if l.kind == "cell" {
		v, ok := st.cells[l.cell]
		if !ok {
			panic(unsupported("unknown cell"))
		}
		for _, i := range l.path {
			v = v.F[i]
		}
		return v
	}
	if l.kind == "global" && l.glob != nil && l.region == globRegion(l.glob, "") && l.glob.Pkg != nil && !ex.P.repoPkg[l.glob.Pkg.Pkg] && l.glob.Object() != nil {
		// a variable of a dependency: assumed constant
		if _, ok := sortOf(l.glob.Object().Type()); ok {
			return sv(ex.extGlobal(st, l.glob.Object()))
		}
	}
	if l.kind == "global" && len(l.region) > 0 && l.glob != nil && ex.P.globInitOnly[l.glob] {
		if v, ok := ex.loadInitGlobal(st, l); ok {
			return v
		}
	}
	ls := leaves(l.T)
	i := 0
	return buildVal(l.T, func() *Term {
		lf := ls[i]
		i++
		return ex.readLeaf(st, l, lf)
	})
}

func setPath(v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	out := v
	out.F = append([]Val{}, v.F...)
	out.F[path[0]] = setPath(v.F[path[0]], path[1:], nv)
	return out
}

func (ex *Exec) store(st *State, l *Loc, v Val) {
	if l.kind == "cell" {
		st.cells[l.cell] = setPath(st.cells[l.cell], l.path, v)
		return
	}
	ts := ex.flatStore(st, v)
	ls := leaves(l.T)
	if len(ts) != len(ls) {
		panic(unsupported(fmt.Sprintf("store shape %s: %d vs %d", l.region, len(ts), len(ls))))
	}
	for i, lf := range ls {
		ex.writeLeaf(st, l, lf, ts[i])
	}
	for _, t := range ts {
		ex.escape(st, t)
	}
}

// flatStore flattens a value for storing in the heap (closures become references).
func (ex *Exec) flatStore(st *State, v Val) []*Term {
	switch v.K {
	case 't', 'l':
		var out []*Term
		for _, f := range v.F {
			out = append(out, ex.flatStore(st, f)...)
		}
		return out
	}
	return []*Term{ex.scalar(st, v)}
}

// scalar turns a value into its one-term representation.
func (ex *Exec) scalar(st *State, v Val) *Term {
	switch v.K {
	case 's', 'p':
		return v.T
	case 'f':
		return ex.closureTerm(st, v)
	case 'a':
		if v.L.kind == "cell" && len(v.L.path) == 0 {
			return ex.materialise(st, v.L)
		}
		if v.L.kind == "field" || v.L.kind == "elem" || v.L.kind == "global" || v.L.kind == "cell" {
			// interior pointer: opaque
			args := []*Term{}
			if v.L.base != nil {
				args = append(args, v.L.base)
			}
			if v.L.idx != nil {
				args = append(args, v.L.idx)
			}
			t := App("addr!"+v.L.region+fmt.Sprint(len(args)), SInt, args...)
			if len(args) == 0 {
				t = Sym(ex.prefix+"addr!"+v.L.region+fmt.Sprint(v.L.cell), SInt)
			}
			st.assume1raw(Lt(tZero, t))
			return t
		}
		if v.L.kind == "ptr" {
			return v.L.base
		}
	}
	panic(unsupported("scalar of " + string(v.K)))
}

// materialise: the address of a local cell escapes; treat as an opaque object.
func (ex *Exec) materialise(st *State, l *Loc) *Term {
	ex.note("address of a local variable escapes into opaque code; its later contents are taken as unknown")
	t := Sym(fmt.Sprintf("%scelladdr!%d", ex.prefix, l.cell), SInt)
	st.assume1raw(Lt(tZero, t))
	// its contents may change arbitrarily from now on
	st.cells[l.cell] = ex.freshLike(st, st.cells[l.cell], l.T)
	return t
}

func (ex *Exec) freshLike(st *State, v Val, t types.Type) Val {
	if t == nil {
		return v
	}
	return ex.freshVal(st, t, "cell")
}

func (ex *Exec) note(s string) {
	if ex.assumed == nil {
		ex.assumed = map[string]bool{}
	}
	ex.assumed[s] = true
}

func (ex *Exec) closureTerm(st *State, v Val) *Term {
	key := ex.P.Key(v.Fn)
	var t *Term
	if strings.HasSuffix(v.Fn.Name(), "$bound") && len(v.F) == 1 {
		r := ex.scalar(st, v.F[0])
		t = App("bound!"+key, SInt, r)
		st.assume1raw(Lt(tZero, t))
		st.assume1raw(Eq(App("fnid", SInt, t), Int(int64(ex.P.fnID(v.Fn)))))
		st.assume1raw(Eq(App("fnrecv", SInt, t), r))
		ex.escape(st, r)
	} else if len(v.F) == 0 {
		t = Sym("fn!"+key, SInt)
		st.assume1raw(Lt(tZero, t))
		st.assume1raw(Eq(App("fnid", SInt, t), Int(int64(ex.P.fnID(v.Fn)))))
	} else {
		t = ex.freshRef(st, "closure")
		st.assume1raw(Eq(App("fnid", SInt, t), Int(int64(ex.P.fnID(v.Fn)))))
	}
	ex.closures[t] = v
	return t
}

var fnIDs sync.Map
var fnCount int64

func (P *Program) fnID(f *ssa.Function) int {
	// every mention of x.m makes its own wrapper: they are one function
	var k interface{} = f
	if strings.HasPrefix(f.Synthetic, "bound") && f.Object() != nil {
		k = f.Object()
	}
	if v, ok := fnIDs.Load(k); ok {
		return v.(int)
	}
	v, _ := fnIDs.LoadOrStore(k, int(atomic.AddInt64(&fnCount, 1)))
	return v.(int)
}

// escape finalises pending objects whose reference becomes reachable.
func (ex *Exec) escape(st *State, t *Term) {
	if len(st.pend) == 0 {
		return
	}
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if _, ok := st.pend[t]; ok {
			ex.finalise(st, t)
		}
		if t.Op == "select" {
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
}

func (ex *Exec) escapeVal(st *State, v Val) { termsOf(v, func(t *Term) { ex.escape(st, t) }) }

func (ex *Exec) finalise(st *State, r *Term) {
	p := st.pend[r]
	delete(st.pend, r)
	for _, f := range ex.pendFacts(st, r, p) {
		st.assume1raw(f)
	}
	for _, v := range p.vals {
		ex.escape(st, v)
	}
}

func (ex *Exec) pendFacts(st *State, r *Term, p *pendObj) []*Term {
	var out []*Term
	if p.isArr {
		for _, lf := range leaves(p.typ) {
			region := elemRegion(p.typ, lf.Suf)
			if ex.P.mutable[region] {
				continue
			}
			v, ok := p.vals[region]
			if !ok {
				v = ConstArr(ArrSort(SInt, lf.S), zeroLeaf(lf.S))
			}
			out = append(out, Eq(Select(ex.heapGet(st, region, ArrSort(SInt, ArrSort(SInt, lf.S))), r), v))
		}
		return out
	}
	for _, lf := range leaves(p.typ) {
		region := fieldRegion(p.typ, lf.Suf)
		if ex.P.mutable[region] {
			continue
		}
		v, ok := p.vals[region]
		if !ok {
			v = zeroLeaf(lf.S)
		}
		out = append(out, Eq(Select(ex.heapGet(st, region, ArrSort(SInt, lf.S)), r), v))
	}
	return out
}

// allPendFacts: facts about still-unescaped objects (for queries only).
func (ex *Exec) allPendFacts(st *State) []*Term {
	var rs []*Term
	for r := range st.pend {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
	var out []*Term
	for _, r := range rs {
		out = append(out, ex.pendFacts(st, r, st.pend[r])...)
	}
	return out
}

// newObject allocates a struct object.
func (ex *Exec) newObject(st *State, t types.Type) *Term {
	r := ex.freshRef(st, typeName(t))
	st.assume1raw(Eq(App("dyn", SInt, r), Int(int64(ex.P.Tag(types.NewPointer(t))))))
	st.pend[r] = &pendObj{typ: t, vals: map[string]*Term{}}
	for _, lf := range leaves(t) {
		region := fieldRegion(t, lf.Suf)
		if ex.P.mutable[region] {
			h := ex.heapGet(st, region, ArrSort(SInt, lf.S))
			st.heap[region] = Store(h, r, zeroLeaf(lf.S))
		}
	}
	return r
}

// newArray allocates a backing array of zero elements.
func (ex *Exec) newArray(st *State, el types.Type) *Term {
	r := ex.freshRef(st, "arr")
	st.pend[r] = &pendObj{typ: el, vals: map[string]*Term{}, isArr: true}
	for _, lf := range leaves(el) {
		region := elemRegion(el, lf.Suf)
		if ex.P.mutable[region] {
			h := ex.heapGet(st, region, ArrSort(SInt, ArrSort(SInt, lf.S)))
			st.heap[region] = Store(h, r, ConstArr(ArrSort(SInt, lf.S), zeroLeaf(lf.S)))
		}
	}
	return r
}

// ---- running

func (ex *Exec) step() {
	ex.steps++
	if ex.maxSteps > 0 && ex.steps > ex.maxSteps {
		panic(unsupported("step budget exceeded"))
	}
	if ex.steps%64 == 0 && !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
		panic(unsupported("time budget exceeded"))
	}
}

func (ex *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	if x, ok := fr.env[v]; ok {
		return x
	}
	switch c := v.(type) {
	case *ssa.Const:
		return ex.constVal(c)
	case *ssa.Global:
		return Val{K: 'a', L: &Loc{kind: "global", region: globRegion(c, ""), T: deref(c.Type()), glob: c}}
	case *ssa.Function:
		return Val{K: 'f', Fn: c}
	case *ssa.Builtin:
		return sv(tZero)
	}
	panic(unsupported(fmt.Sprintf("no value for %s (%T) in %s", v.Name(), v, fr.fn)))
}

func (ex *Exec) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return sv(tTrue)
		}
		return sv(tFalse)
	case constant.String:
		return sv(StrLit(constant.StringVal(c.Value)))
	case constant.Int:
		if s, _ := sortOf(c.Type()); s == SFlt {
			return sv(Sym("flt!"+c.Value.ExactString(), SFlt))
		}
		n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return sv(IntB(n))
	case constant.Float:
		if s, _ := sortOf(c.Type()); s == SInt {
			n, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			return sv(IntB(n))
		}
		return sv(Sym("flt!"+c.Value.ExactString(), SFlt))
	}
	panic(unsupported("constant " + c.String()))
}

func (ex *Exec) jump(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	for len(fr.loops) > 0 {
		L := fr.loops[len(fr.loops)-1]
		if to == L.header {
			L.onBack(st, fr, from)
			return
		}
		if L.blocks[to] {
			break
		}
		// leaving L
		if L.collecting {
			return
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	if isLoopHeader(to) {
		ex.procLoop(st, fr, from, to)
		return
	}
	ex.enterBlock(st, fr, from, to)
}

func (ex *Exec) enterBlock(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	// phis, in parallel
	pi := predIndex(from, to)
	var vals []Val
	n := 0
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, ex.val(st, fr, p.Edges[pi]))
		n++
	}
	for i := 0; i < n; i++ {
		fr.env[to.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	ex.runFrom(st, fr, to, n)
}

func predIndex(from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	panic("pred")
}

func (ex *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := ex.P.fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/internals/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// runFrom executes instructions of b starting at index i.
func (ex *Exec) runFrom(st *State, fr *Frame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		ex.step()
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.If:
			c := st.simp(ex.val(st, fr, x.Cond).T)
			t, f := b.Succs[0], b.Succs[1]
			switch c.Op {
			case "true":
				ex.jump(st, fr, b, t)
				return
			case "false":
				ex.jump(st, fr, b, f)
				return
			}
			st2, fr2 := st.clone(), fr.clone()
			pos := ex.pos(condPos(x))
			if st.assume1(c) && ex.feasible(st) {
				st.path = append(st.path, pos+" true")
				ex.jump(st, fr, b, t)
			}
			if st2.assume1(Not(c)) && ex.feasible(st2) {
				st2.path = append(st2.path, pos+" false")
				ex.jump(st2, fr2, b, f)
			}
			return
		case *ssa.Jump:
			ex.jump(st, fr, b, b.Succs[0])
			return
		case *ssa.Return:
			var res []Val
			for _, r := range x.Results {
				res = append(res, ex.val(st, fr, r))
			}
			fr.ret(st, res)
			return
		case *ssa.Panic:
			if ex.safe {
				ex.oblige(st, "safety", "explicit panic is unreachable", ex.pos(x.Pos()), tFalse)
			}
			return
		case *ssa.RunDefers:
			idx := i
			ex.runDefers(st, fr, func(st *State, fr *Frame) { ex.runFrom(st, fr, b, idx+1) })
			return
		case *ssa.Defer:
			d := deferred{call: &x.Call}
			if !x.Call.IsInvoke() {
				d.fn = ex.val(st, fr, x.Call.Value)
			} else {
				d.fn = ex.val(st, fr, x.Call.Value)
			}
			for _, a := range x.Call.Args {
				d.args = append(d.args, ex.val(st, fr, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.Call:
			idx := i
			ex.call(st, fr, x, func(st *State, fr *Frame, v Val) {
				fr.env[x] = v
				ex.runFrom(st, fr, b, idx+1)
			})
			return
		case *ssa.TypeAssert:
			if !x.CommaOk {
				v := ex.val(st, fr, x.X)
				ok := ex.typeTest(st, v.T, x.AssertedType)
				ex.checkSafe(st, "type assertion", ex.pos(x.Pos()), ok)
				fr.env[x] = ex.unbox(st, v.T, x.AssertedType)
				continue
			}
			v := ex.val(st, fr, x.X)
			ok := st.simp(ex.typeTest(st, v.T, x.AssertedType))
			r := ex.unbox(st, v.T, x.AssertedType)
			if ok.Op == "false" {
				r = zeroVal(x.AssertedType)
			} else if ok.Op != "true" {
				r = ex.iteVal(ok, r, zeroVal(x.AssertedType))
			}
			fr.env[x] = Val{K: 't', F: []Val{r, sv(ok)}}
		default:
			if !ex.simple(st, fr, in) {
				panic(unsupported(fmt.Sprintf("instruction %T %s", in, in)))
			}
		}
	}
}

func condPos(x *ssa.If) token.Pos {
	if in, ok := x.Cond.(ssa.Instruction); ok && in.Pos().IsValid() {
		return in.Pos()
	}
	for i := len(x.Block().Instrs) - 1; i >= 0; i-- {
		if p := x.Block().Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return token.NoPos
}

func (ex *Exec) runDefers(st *State, fr *Frame, k func(*State, *Frame)) {
	if len(fr.defers) == 0 {
		k(st, fr)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	next := func(st *State, fr *Frame, _ Val) { ex.runDefers(st, fr, k) }
	if d.call.IsInvoke() {
		ex.invoke(st, fr, d.call, d.fn, d.args, "defer", next)
		return
	}
	if bi, ok := d.call.Value.(*ssa.Builtin); ok {
		_ = bi
		next(st, fr, sv(tZero))
		return
	}
	ex.callValue(st, fr, d.call, d.fn, d.args, "defer", next)
}

const feasMs = 300

func (ex *Exec) feasible(st *State) bool {
	if ex.noPrune {
		return true
	}
	r, _ := ex.check(st, nil, feasMs, false)
	return r != Unsat
}

// check decides pc and pending facts (and extra).
func (ex *Exec) check(st *State, extra []*Term, ms int, full bool) (Result, string) {
	as := append(append([]*Term{}, st.pc...), ex.allPendFacts(st)...)
	as = append(as, extra...)
	as = ex.withLemmas(as)
	if extra == nil && ms == feasMs {
		as = ex.branchQuery(as)
	}
	return ex.pool.Check(as, ms, full)
}

func (ex *Exec) checkSafe(st *State, what, where string, cond *Term) {
	c := st.simp(cond)
	if c.Op == "true" {
		return
	}
	if ex.safe {
		ex.oblige(st, "safety", what, where, c)
	}
	st.assume(cond)
}

func (ex *Exec) oblige(st *State, kind, clause, where string, goal *Term) {
	if ex.collect > 0 || ex.initMode {
		return
	}
	g := st.simp(goal)
	vc := &VC{Fn: ex.rootKey, Clause: clause, Kind: kind, Where: where, Goal: g, Path: st.path, grp: ex.curGrp}
	if g.Op == "true" {
		vc.Res, vc.By = Unsat, "simplifier"
		backendCount("simplifier")
	} else {
		as := append(append([]*Term{}, st.pc...), ex.allPendFacts(st)...)
		vc.Asserts = append(as, Not(g))
	}
	ex.vcs = append(ex.vcs, vc)
}

// ---- type tests and boxing

func (ex *Exec) typeTest(st *State, x *Term, t types.Type) *Term {
	if it, ok := t.Underlying().(*types.Interface); ok {
		// disjunction over implementers in the repo, plus unknown external types
		var ds []*Term
		for _, c := range ex.P.concrete {
			if types.Implements(c, it) {
				ds = append(ds, Eq(App("dyn", SInt, x), Int(int64(ex.P.Tag(c)))))
			}
		}
		if !ex.P.repoIface(t) {
			ds = append(ds, App("extimpl!"+typeName(t), SBool, App("dyn", SInt, x)))
		}
		return And(Not(Eq(x, tZero)), Or(ds...))
	}
	return And(Not(Eq(x, tZero)), Eq(App("dyn", SInt, x), Int(int64(ex.P.Tag(t)))))
}

func (ex *Exec) unbox(st *State, x *Term, t types.Type) Val {
	if types.IsInterface(t) {
		return sv(x)
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return sv(x)
	}
	ls := leaves(t)
	i := 0
	return buildVal(t, func() *Term {
		l := ls[i]
		i++
		r := App("unbox!"+typeName(t)+l.Suf, l.S, x)
		st.leafFacts(r, l)
		return r
	})
}

func (ex *Exec) box(st *State, v Val, t types.Type) *Term {
	tag := Int(int64(ex.P.Tag(t)))
	if _, ok := t.Underlying().(*types.Pointer); ok {
		p := ex.scalar(st, v)
		if p.fr > 0 {
			return p
		}
		if p == tZero {
			r := Sym("typednil!"+typeName(t), SInt)
			st.assume1raw(Lt(tZero, r))
			st.assume1raw(Eq(App("dyn", SInt, r), tag))
			return r
		}
		// a nil pointer in an interface would be a typed nil; assumed not to occur
		st.assume1raw(Imp(Not(Eq(p, tZero)), Eq(App("dyn", SInt, p), tag)))
		if !st.known[Not(Eq(p, tZero)).id] {
			ex.note("pointers converted to interfaces are non-nil (no typed nils)")
			st.assume1raw(Not(Eq(p, tZero)))
		}
		return p
	}
	ts := ex.flatStore(st, v)
	for _, x := range ts {
		ex.escape(st, x)
	}
	var r *Term
	if len(ts) == 0 {
		r = Sym("box!"+typeName(t), SInt)
	} else {
		r = App("box!"+typeName(t), SInt, ts...)
	}
	st.assume1raw(And(Lt(tZero, r), Eq(App("dyn", SInt, r), tag)))
	for i, l := range leaves(t) {
		st.assume1raw(Eq(App("unbox!"+typeName(t)+l.Suf, l.S, r), ts[i]))
	}
	return r
}

func (ex *Exec) iteVal(c *Term, a, b Val) Val {
	if a.K == 't' || a.K == 'l' {
		v := Val{K: a.K}
		if len(a.F) != len(b.F) {
			panic(unsupported("ite shape"))
		}
		for i := range a.F {
			v.F = append(v.F, ex.iteVal(c, a.F[i], b.F[i]))
		}
		return v
	}
	if a.K == 's' && b.K == 's' {
		if a.T == b.T {
			return a
		}
		return sv(Ite(c, a.T, b.T))
	}
	panic(unsupported("ite of " + string(a.K) + string(b.K)))
}

// ---- integer helpers

func wrapInt(t *Term, ty types.Type) *Term {
	lo, hi, ok := intRange(ty)
	if !ok {
		return t
	}
	return wrapRange(t, lo, hi)
}

func wrapRange(t *Term, lo, hi *big.Int) *Term {
	if t.Op == "int" {
		if t.N.Cmp(lo) >= 0 && t.N.Cmp(hi) <= 0 {
			return t
		}
		size := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
		m := new(big.Int).Mod(new(big.Int).Sub(t.N, lo), size)
		return IntB(m.Add(m, lo))
	}
	size := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	in := And(Le(IntB(lo), t), Le(t, IntB(hi)))
	return Ite(in, t, Add(EMod(Sub(t, IntB(lo)), IntB(size)), IntB(lo)))
}

func convInt(t *Term, from, to types.Type) *Term {
	fl, fh, ok1 := intRange(from)
	tl, th, ok2 := intRange(to)
	if !ok1 || !ok2 {
		return t
	}
	if tl.Cmp(fl) <= 0 && th.Cmp(fh) >= 0 {
		return t
	}
	return wrapRange(t, tl, th)
}

func tdiv(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.N.Sign() != 0 {
		return IntB(new(big.Int).Quo(a.N, b.N))
	}
	return Ite(Le(tZero, a), EDiv(a, b), Neg(EDiv(Neg(a), b)))
}

func trem(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.N.Sign() != 0 {
		return IntB(new(big.Int).Rem(a.N, b.N))
	}
	return Ite(Le(tZero, a), EMod(a, b), Neg(EMod(Neg(a), b)))
}

func is64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr, types.UntypedInt:
		return true
	}
	return false
}

func isStringT(t types.Type) bool { s, _ := sortOf(t); return s == SStr }
func isFloatT(t types.Type) bool  { s, _ := sortOf(t); return s == SFlt }

func (ex *Exec) eqVal(st *State, a, b Val, t types.Type) *Term {
	if a.K == 't' {
		var cs []*Term
		for i := range a.F {
			cs = append(cs, ex.eqVal(st, a.F[i], b.F[i], nil))
		}
		return And(cs...)
	}
	if a.K == 'l' || b.K == 'l' {
		// comparison with nil
		if a.K == 'l' && b.K == 'l' {
			if b.arr() == tZero {
				return Eq(a.arr(), tZero)
			}
			return Eq(b.arr(), tZero)
		}
		if a.K == 'l' {
			return Eq(a.arr(), tZero)
		}
		return Eq(b.arr(), tZero)
	}
	if a.K == 'f' && b.K == 's' && b.T == tZero || b.K == 'f' && a.K == 's' && a.T == tZero {
		return tFalse
	}
	if a.K == 'a' && a.L.kind != "ptr" && b.K == 's' && b.T == tZero || b.K == 'a' && b.L.kind != "ptr" && a.K == 's' && a.T == tZero {
		return tFalse
	}
	return Eq(ex.scalar(st, a), ex.scalar(st, b))
}

func (ex *Exec) binop(st *State, op token.Token, a, b Val, ta, tres types.Type, where string) Val {
	switch op {
	case token.EQL:
		return sv(ex.eqVal(st, a, b, ta))
	case token.NEQ:
		return sv(Not(ex.eqVal(st, a, b, ta)))
	}
	if isStringT(ta) {
		switch op {
		case token.ADD:
			return sv(SCat(a.T, b.T))
		}
		lt := App("slt", SBool, a.T, b.T)
		gt := App("slt", SBool, b.T, a.T)
		switch op {
		case token.LSS:
			return sv(lt)
		case token.GTR:
			return sv(gt)
		case token.LEQ:
			return sv(Not(gt))
		case token.GEQ:
			return sv(Not(lt))
		}
	}
	if isFloatT(ta) {
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return sv(App("f"+op.String(), SBool, a.T, b.T))
		}
		return sv(App("f"+op.String(), SFlt, a.T, b.T))
	}
	x, y := a.T, b.T
	switch op {
	case token.LSS:
		return sv(Lt(x, y))
	case token.LEQ:
		return sv(Le(x, y))
	case token.GTR:
		return sv(Lt(y, x))
	case token.GEQ:
		return sv(Le(y, x))
	}
	w := func(t *Term) Val {
		if is64(tres) {
			if t.Op != "int" {
				ex.note("64-bit integer arithmetic is mathematical (no overflow)")
				return sv(t)
			}
		}
		return sv(wrapInt(t, tres))
	}
	if ta != nil {
		if s, _ := sortOf(ta); s == SBool {
			switch op {
			case token.AND, token.LAND:
				return sv(And(x, y))
			case token.OR, token.LOR:
				return sv(Or(x, y))
			}
		}
	}
	switch op {
	case token.ADD:
		return w(Add(x, y))
	case token.SUB:
		return w(Sub(x, y))
	case token.MUL:
		return w(Mul(x, y))
	case token.QUO:
		ex.checkSafe(st, "division by zero", where, Not(Eq(y, tZero)))
		return w(tdiv(x, y))
	case token.REM:
		ex.checkSafe(st, "division by zero", where, Not(Eq(y, tZero)))
		return w(trem(x, y))
	case token.SHL:
		if y.Op == "int" && y.N.Cmp(big.NewInt(64)) < 0 {
			return w(Mul(x, IntB(new(big.Int).Lsh(big.NewInt(1), uint(y.N.Int64())))))
		}
	case token.SHR:
		if y.Op == "int" && y.N.Cmp(big.NewInt(64)) < 0 {
			return sv(EDiv(x, IntB(new(big.Int).Lsh(big.NewInt(1), uint(y.N.Int64())))))
		}
	case token.AND:
		// mask by 2^k-1 on a non-negative value
		if y.Op == "int" && x.Op == "int" {
			return sv(IntB(new(big.Int).And(x.N, y.N)))
		}
	case token.OR:
		if y.Op == "int" && x.Op == "int" {
			return sv(IntB(new(big.Int).Or(x.N, y.N)))
		}
	}
	r := App("bit"+op.String(), SInt, x, y)
	st.leafFacts(r, Leaf{"", SInt, tres})
	return sv(r)
}

// simple executes a non-branching instruction.
func (ex *Exec) simple(st *State, fr *Frame, in ssa.Instruction) bool {
	V := func(v ssa.Value) Val { return ex.val(st, fr, v) }
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := deref(x.Type())
		if at, ok := t.Underlying().(*types.Array); ok {
			r := ex.newArray(st, at.Elem())
			fr.env[x] = Val{K: 'p', T: r, F: []Val{sv(Int(at.Len()))}}
			return true
		}
		if _, ok := t.Underlying().(*types.Struct); ok && x.Heap {
			fr.env[x] = sv(ex.newObject(st, t))
			return true
		}
		ex.ncell++
		st.cells[ex.ncell] = zeroVal(t)
		fr.env[x] = Val{K: 'a', L: &Loc{kind: "cell", cell: ex.ncell, T: t}}
	case *ssa.BinOp:
		fr.env[x] = ex.binop(st, x.Op, V(x.X), V(x.Y), x.X.Type(), x.Type(), ex.pos(x.Pos()))
	case *ssa.UnOp:
		v := V(x.X)
		switch x.Op {
		case token.MUL:
			fr.env[x] = ex.deref(st, v, x.X.Type(), ex.pos(x.Pos()))
		case token.NOT:
			fr.env[x] = sv(Not(v.T))
		case token.SUB:
			if isFloatT(x.Type()) {
				fr.env[x] = sv(App("fneg", SFlt, v.T))
			} else if is64(x.Type()) {
				fr.env[x] = sv(Neg(v.T))
			} else {
				fr.env[x] = sv(wrapInt(Neg(v.T), x.Type()))
			}
		case token.XOR:
			fr.env[x] = sv(App("bitnot", SInt, v.T))
		default:
			return false
		}
	case *ssa.ChangeInterface:
		fr.env[x] = V(x.X)
	case *ssa.ChangeType:
		fr.env[x] = V(x.X)
	case *ssa.Convert:
		fr.env[x] = ex.convert(st, V(x.X), x.X.Type(), x.Type())
	case *ssa.Extract:
		tv := V(x.Tuple)
		fr.env[x] = tv.F[x.Index]
	case *ssa.Field:
		fr.env[x] = V(x.X).F[x.Field]
	case *ssa.FieldAddr:
		v := V(x.X)
		stt := deref(x.X.Type())
		f := stt.Underlying().(*types.Struct).Field(x.Field)
		switch v.K {
		case 'a':
			l := *v.L
			l.T = f.Type()
			if l.kind == "cell" {
				l.path = append(append([]int{}, l.path...), x.Field)
			} else {
				l.region += "." + f.Name()
			}
			fr.env[x] = Val{K: 'a', L: &l}
		case 's':
			ex.checkSafe(st, "nil dereference", ex.pos(x.Pos()), Not(Eq(v.T, tZero)))
			fr.env[x] = Val{K: 'a', L: &Loc{kind: "field", base: v.T, region: fieldRegion(stt, "."+f.Name()), T: f.Type()}}
		default:
			return false
		}
	case *ssa.IndexAddr:
		v := V(x.X)
		i := V(x.Index).T
		switch v.K {
		case 'l':
			ex.checkSafe(st, "index out of range", ex.pos(x.Pos()), And(Le(tZero, i), Lt(i, v.len())))
			el := x.X.Type().Underlying().(*types.Slice).Elem()
			fr.env[x] = Val{K: 'a', L: &Loc{kind: "elem", base: v.arr(), idx: Add(v.off(), i), region: elemRegion(el, ""), T: el}}
		case 'p':
			at := deref(x.X.Type()).Underlying().(*types.Array)
			fr.env[x] = Val{K: 'a', L: &Loc{kind: "elem", base: v.T, idx: i, region: elemRegion(at.Elem(), ""), T: at.Elem()}}
		default:
			return false
		}
	case *ssa.Index:
		v := V(x.X)
		if isStringT(x.X.Type()) {
			i := V(x.Index).T
			ex.checkSafe(st, "index out of range", ex.pos(x.Pos()), And(Le(tZero, i), Lt(i, SLen(v.T))))
			r := SAt(v.T, i)
			st.leafFacts(r, Leaf{"", SInt, types.Typ[types.Uint8]})
			fr.env[x] = sv(r)
			return true
		}
		return false
	case *ssa.Lookup:
		m := V(x.X)
		if isStringT(x.X.Type()) {
			i := V(x.Index).T
			ex.checkSafe(st, "index out of range", ex.pos(x.Pos()), And(Le(tZero, i), Lt(i, SLen(m.T))))
			r := SAt(m.T, i)
			st.leafFacts(r, Leaf{"", SInt, types.Typ[types.Uint8]})
			fr.env[x] = sv(r)
			return true
		}
		mt := x.X.Type().Underlying().(*types.Map)
		ok, v := ex.mapGet(st, mt, m.T, ex.mapKey(st, mt, V(x.Index)))
		if x.CommaOk {
			fr.env[x] = Val{K: 't', F: []Val{v, sv(ok)}}
		} else {
			fr.env[x] = v
		}
	case *ssa.MakeClosure:
		v := Val{K: 'f', Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			v.F = append(v.F, V(b))
		}
		fr.env[x] = v
	case *ssa.MakeInterface:
		fr.env[x] = sv(ex.box(st, V(x.X), x.X.Type()))
	case *ssa.MakeMap:
		r := ex.freshRef(st, "map")
		mt := x.Type().Underlying().(*types.Map)
		ks := mapKeySort(mt)
		h := ex.heapGet(st, mapDomRegion(mt), ArrSort(SInt, ArrSort(ks, SBool)))
		st.heap[mapDomRegion(mt)] = Store(h, r, ConstArr(ArrSort(ks, SBool), tFalse))
		fr.env[x] = sv(r)
	case *ssa.MakeSlice:
		el := x.Type().Underlying().(*types.Slice).Elem()
		n := V(x.Len).T
		ex.checkSafe(st, "makeslice length", ex.pos(x.Pos()), Le(tZero, n))
		var r *Term
		if ex.P.filled[x] {
			r = ex.freshRef(st, "arr")
		} else {
			r = ex.newArray(st, el)
		}
		fr.env[x] = mkSlice(r, tZero, n)
	case *ssa.MapUpdate:
		mt := x.Map.Type().Underlying().(*types.Map)
		m := V(x.Map)
		ex.checkSafe(st, "assignment to nil map", ex.pos(x.Pos()), Not(Eq(m.T, tZero)))
		ex.mapPut(st, mt, m.T, ex.mapKey(st, mt, V(x.Key)), V(x.Value))
	case *ssa.Slice:
		v := V(x.X)
		lo := tZero
		if x.Low != nil {
			lo = V(x.Low).T
		}
		switch v.K {
		case 'p':
			n := v.F[0].T
			hi := n
			if x.High != nil {
				hi = V(x.High).T
			}
			fr.env[x] = mkSlice(v.T, lo, Sub(hi, lo))
		case 'l':
			hi := v.len()
			if x.High != nil {
				hi = V(x.High).T
			}
			// stronger than Go's own rule (hi <= cap): slicing within the length
			ex.checkSafe(st, "slice bounds", ex.pos(x.Pos()), And(Le(tZero, lo), Le(lo, hi), Le(hi, v.len())))
			fr.env[x] = mkSlice(v.arr(), Add(v.off(), lo), Sub(hi, lo))
		case 's':
			hi := SLen(v.T)
			if x.High != nil {
				hi = V(x.High).T
			}
			ex.checkSafe(st, "slice bounds", ex.pos(x.Pos()), And(Le(tZero, lo), Le(lo, hi), Le(hi, SLen(v.T))))
			fr.env[x] = sv(SSub(v.T, lo, hi))
		default:
			return false
		}
	case *ssa.Store:
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok && ex.P.filled[ia.X] {
			break
		}
		a := V(x.Addr)
		v := V(x.Val)
		ex.storeTo(st, a, v, x.Addr.Type(), ex.pos(x.Pos()))
	case *ssa.Range:
		fr.env[x] = Val{K: 'r', F: []Val{V(x.X)}}
	case *ssa.Next:
		it := V(x.Iter)
		tt := x.Type().(*types.Tuple)
		ok := ex.sym("next_ok", SBool)
		v := Val{K: 't', F: []Val{sv(ok)}}
		rng := x.Iter.(*ssa.Range)
		if mt, isMap := rng.X.Type().Underlying().(*types.Map); isMap {
			k := ex.freshVal(st, mt.Key(), "next_k")
			kt := ex.mapKey(st, mt, k)
			has, mv := ex.mapGet(st, mt, it.F[0].T, kt)
			st.assume(Imp(ok, has))
			v.F = append(v.F, k)
			if tt.Len() > 2 {
				v.F = append(v.F, mv)
			}
		} else {
			idx := ex.sym("next_i", SInt)
			st.assume(Imp(ok, And(Le(tZero, idx), Lt(idx, SLen(it.F[0].T)))))
			r := ex.sym("next_r", SInt)
			st.assume(And(Le(tZero, r), Le(r, Int(0x10ffff))))
			v.F = append(v.F, sv(idx), sv(r))
		}
		// blank components have invalid types; keep shape
		for len(v.F) < tt.Len() {
			v.F = append(v.F, sv(tZero))
		}
		fr.env[x] = v
	case *ssa.Go:
		ex.note("goroutine launch ignored")
	default:
		return false
	}
	return true
}

func (ex *Exec) storeTo(st *State, a, v Val, at types.Type, where string) {
	switch a.K {
	case 'a':
		ex.store(st, a.L, v)
	case 's':
		ex.checkSafe(st, "nil dereference", where, Not(Eq(a.T, tZero)))
		t := deref(at)
		if _, ok := t.Underlying().(*types.Struct); ok {
			ex.store(st, &Loc{kind: "field", base: a.T, region: fieldRegion(t, ""), T: t}, v)
		} else {
			ex.store(st, &Loc{kind: "ptr", base: a.T, region: cellRegion(t, ""), T: t}, v)
		}
	case 'p':
		panic(unsupported("array store"))
	default:
		panic(unsupported("store address"))
	}
}

func (ex *Exec) deref(st *State, v Val, pt types.Type, where string) Val {
	switch v.K {
	case 'a':
		return ex.load(st, v.L)
	case 's':
		ex.checkSafe(st, "nil dereference", where, Not(Eq(v.T, tZero)))
		t := deref(pt)
		if _, ok := t.Underlying().(*types.Struct); ok {
			return ex.load(st, &Loc{kind: "field", base: v.T, region: fieldRegion(t, ""), T: t})
		}
		return ex.load(st, &Loc{kind: "ptr", base: v.T, region: cellRegion(t, ""), T: t})
	case 'p':
		return sv(App("arrval", SInt, v.T))
	}
	panic(unsupported("deref"))
}

func (ex *Exec) mapKey(st *State, mt *types.Map, k Val) *Term {
	if k.K == 's' || k.K == 'f' || k.K == 'a' {
		return ex.scalar(st, k)
	}
	return App("key!"+typeName(mt.Key()), SInt, flat(k)...)
}

func (ex *Exec) mapGet(st *State, mt *types.Map, m, k *Term) (*Term, Val) {
	ks := mapKeySort(mt)
	dom := Select(ex.heapGet(st, mapDomRegion(mt), ArrSort(SInt, ArrSort(ks, SBool))), m)
	ok := And(Not(Eq(m, tZero)), Select(dom, k))
	ls := leaves(mt.Elem())
	i := 0
	v := buildVal(mt.Elem(), func() *Term {
		l := ls[i]
		i++
		h := ex.heapGet(st, mapValRegion(mt, l.Suf), ArrSort(SInt, ArrSort(ks, l.S)))
		t := Select(Select(h, m), k)
		if !t.bnd {
			st.leafFacts(t, l)
		}
		return Ite(ok, t, zeroLeaf(l.S))
	})
	return ok, v
}

func (ex *Exec) mapPut(st *State, mt *types.Map, m, k *Term, v Val) {
	ks := mapKeySort(mt)
	rd := mapDomRegion(mt)
	h := ex.heapGet(st, rd, ArrSort(SInt, ArrSort(ks, SBool)))
	st.heap[rd] = Store(h, m, Store(Select(h, m), k, tTrue))
	ts := ex.flatStore(st, v)
	for i, l := range leaves(mt.Elem()) {
		r := mapValRegion(mt, l.Suf)
		h := ex.heapGet(st, r, ArrSort(SInt, ArrSort(ks, l.S)))
		st.heap[r] = Store(h, m, Store(Select(h, m), k, ts[i]))
		ex.escape(st, ts[i])
	}
}

func (ex *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fs, ok1 := sortOf(from)
	ts, ok2 := sortOf(to)
	if !ok1 || !ok2 {
		// string <-> []byte/[]rune
		if ok1 && fs == SStr {
			n := ex.freshVal(st, to, "bytes")
			st.assume(Eq(n.len(), SLen(v.T)))
			st.assume(Eq(App("bytesof", SStr, n.arr(), n.off(), n.len()), v.T))
			return n
		}
		if ok2 && ts == SStr {
			if n := v.len(); n.Op == "int" && n.N.IsInt64() && n.N.Int64() <= 8 {
				el := from.Underlying().(*types.Slice).Elem()
				if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					r := StrLit("")
					for i := int64(0); i < n.N.Int64(); i++ {
						c := ex.load(st, &Loc{kind: "elem", base: v.arr(), idx: Add(v.off(), Int(i)), region: elemRegion(el, ""), T: el})
						if i == 0 {
							r = SChr(c.T)
						} else {
							r = SCat(r, SChr(c.T))
						}
					}
					return sv(r)
				}
			}
			return sv(App("bytesof", SStr, v.arr(), v.off(), v.len()))
		}
		return v
	}
	switch {
	case fs == SInt && ts == SInt:
		if _, _, isI := intRange(from); isI {
			return sv(convInt(v.T, from, to))
		}
		return v
	case fs == SInt && ts == SStr:
		// rune to string
		c := v.T
		return sv(Ite(And(Le(tZero, c), Lt(c, Int(128))), SChr(c), App("utf8", SStr, c)))
	case fs == SInt && ts == SFlt:
		return sv(App("i2f!"+typeName(to.Underlying()), SFlt, v.T))
	case fs == SFlt && ts == SInt:
		r := App("f2i!"+typeName(to.Underlying()), SInt, v.T)
		st.leafFacts(r, Leaf{"", SInt, to})
		return sv(r)
	case fs == SFlt && ts == SFlt:
		if types.Identical(from.Underlying(), to.Underlying()) {
			return v
		}
		return sv(App("f2f!"+typeName(to.Underlying()), SFlt, v.T))
	}
	return v
}
