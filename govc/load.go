package main

// Loading /repo as SSA; classification of heap regions; effect (frame) inference.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	filled       map[ssa.Value]bool // slices with loopFilled stores
	fset         *token.FileSet
	prog         *ssa.Program
	pkgs         []*ssa.Package
	repoPkg      map[*types.Package]bool
	tpkgs        map[string]*types.Package // by package name, repo packages first
	funcs        []*ssa.Function           // all functions with bodies in repo packages
	byKey        map[string][]*ssa.Function
	mutable      map[string]bool // regions that are written after construction
	effects      map[*ssa.Function]*Effects
	implCache    map[string][]*ssa.Function
	fvals        map[string][]*ssa.Function // signature -> address-taken functions
	concrete     []types.Type               // named repo types (and pointers) with methods
	globInitOnly map[*ssa.Global]bool
	rsort        map[string]Sort
	init         *InitInfo
	externW      map[string][]externWrite
	tagTab       map[string]int
	tagTypes     []types.Type
}

const repoMod = "github.com/gabivlj/candice"

func LoadProgram(dir string, patterns []string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedExportFile | packages.NeedModule,
		Dir:   dir,
		Env:   append(os.Environ(), "GOFLAGS=-mod=readonly -buildvcs=false", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
		Tests: false,
	}
	// Only repo packages need syntax: load with export data for the dependencies.
	cfg.Mode &^= packages.NeedDeps
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	for _, p := range initial {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load %s: %v", p.PkgPath, e)
		}
	}
	prog, pkgs := ssautil.Packages(initial, ssa.InstantiateGenerics)
	P := &Program{prog: prog, fset: prog.Fset, repoPkg: map[*types.Package]bool{}, tpkgs: map[string]*types.Package{},
		byKey: map[string][]*ssa.Function{}, mutable: map[string]bool{}, effects: map[*ssa.Function]*Effects{},
		implCache: map[string][]*ssa.Function{}, fvals: map[string][]*ssa.Function{}, tagTab: map[string]int{}, rsort: map[string]Sort{}}
	for i, p := range pkgs {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", initial[i].PkgPath)
		}
		P.pkgs = append(P.pkgs, p)
		P.repoPkg[p.Pkg] = true
		P.tpkgs[p.Pkg.Name()] = p.Pkg
	}
	prog.Build()
	var addDeps func(p *types.Package)
	seen := map[*types.Package]bool{}
	addDeps = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		if _, ok := P.tpkgs[p.Name()]; !ok || strings.Contains(p.Path(), "llir/llvm") && !P.repoPkg[P.tpkgs[p.Name()]] {
			P.tpkgs[p.Name()] = p
		}
		for _, q := range p.Imports() {
			addDeps(q)
		}
	}
	for _, p := range P.pkgs {
		addDeps(p.Pkg)
	}
	// all functions
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if f.Blocks == nil || !P.inRepo(f) {
			continue
		}
		if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue // generic origin; instances are analysed
		}
		P.funcs = append(P.funcs, f)
	}
	sort.Slice(P.funcs, func(i, j int) bool { return P.funcs[i].RelString(nil) < P.funcs[j].RelString(nil) })
	for _, f := range P.funcs {
		P.byKey[P.Key(f)] = append(P.byKey[P.Key(f)], f)
	}
	P.collectTypes()
	P.collectFuncValues()
	return P, nil
}

// Analyse classifies regions and infers effects (after the contracts are known).
// Only the code that can run while a function under contract runs matters: the packages with
// active contracts and the packages they import. (A value of another package that reaches them
// through an interface or a function value is outside this: a listed assumption.)
func (P *Program) Analyse(C *Contracts) {
	scope := map[*types.Package]bool{}
	var add func(p *types.Package)
	add = func(p *types.Package) {
		if p == nil || scope[p] || !P.repoPkg[p] {
			return
		}
		scope[p] = true
		for _, q := range p.Imports() {
			add(q)
		}
	}
	for _, c := range C.ByKey {
		add(c.Pkg)
	}
	if len(scope) > 0 {
		var fs []*ssa.Function
		for _, f := range P.funcs {
			g := f
			for g.Parent() != nil {
				g = g.Parent()
			}
			if g.Origin() != nil {
				g = g.Origin()
			}
			if g.Pkg == nil || scope[g.Pkg.Pkg] {
				fs = append(fs, f)
			}
		}
		P.funcs = fs
		var cs []types.Type
		for _, t := range P.concrete {
			if n, ok := deref(t).(*types.Named); !ok || n.Obj().Pkg() == nil || scope[n.Obj().Pkg()] {
				cs = append(cs, t)
			}
		}
		P.concrete = cs
		P.fvals = map[string][]*ssa.Function{}
		P.collectFuncValues()
	}
	P.classifyRegions()
	P.classifyGlobals()
	P.inferEffects()
}

func (P *Program) inRepo(f *ssa.Function) bool {
	g := f
	for g.Parent() != nil {
		g = g.Parent()
	}
	if g.Origin() != nil {
		g = g.Origin()
	}
	if g.Pkg != nil {
		return P.repoPkg[g.Pkg.Pkg]
	}
	if o := g.Object(); o != nil && o.Pkg() != nil {
		return P.repoPkg[o.Pkg()]
	}
	// synthetic wrappers (bound methods, thunks)
	if g.Synthetic != "" && g.Signature.Recv() != nil {
		if n, ok := deref(g.Signature.Recv().Type()).(*types.Named); ok {
			return n.Obj().Pkg() != nil && P.repoPkg[n.Obj().Pkg()]
		}
	}
	return false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// Key names a function: pkg.Func, pkg.(*T).Method, with generics' origin names.
func (P *Program) Key(f *ssa.Function) string {
	if f.Parent() != nil {
		name := f.Name()
		return P.Key(f.Parent()) + name[strings.LastIndex(name, "$"):]
	}
	g := f
	if f.Origin() != nil {
		g = f.Origin()
	}
	pkg := ""
	if g.Pkg != nil {
		pkg = g.Pkg.Pkg.Name()
	} else if o := g.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Name()
	}
	if r := g.Signature.Recv(); r != nil {
		t := r.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			star = "*"
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() != nil {
				pkg = n.Obj().Pkg().Name()
			}
			return fmt.Sprintf("%s.(%s%s).%s", pkg, star, n.Obj().Name(), g.Name())
		}
	}
	return pkg + "." + g.Name()
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (P *Program) Tag(t types.Type) int {
	n := types.TypeString(t, nil)
	internMu.Lock()
	defer internMu.Unlock()
	if k, ok := P.tagTab[n]; ok {
		return k
	}
	k := len(P.tagTab) + 1
	P.tagTab[n] = k
	P.tagTypes = append(P.tagTypes, t)
	return k
}

func (P *Program) collectTypes() {
	for _, p := range P.pkgs {
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				t := tn.Type()
				if types.IsInterface(t) {
					continue
				}
				if nt, ok := t.(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				P.concrete = append(P.concrete, types.NewPointer(t), t)
			}
		}
	}
}

func sigKey(s *types.Signature) string {
	return sigName(s)
}

func (P *Program) collectFuncValues() {
	add := func(f *ssa.Function) {
		s := f.Signature
		k := sigKey(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()))
		for _, g := range P.fvals[k] {
			if g == f || strings.HasPrefix(f.Synthetic, "bound") && g.Synthetic == f.Synthetic && f.Object() != nil && g.Object() == f.Object() {
				return
			}
		}
		P.fvals[k] = append(P.fvals[k], f)
	}
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
					continue
				}
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
					for _, a := range c.Common().Args {
						if g, ok := a.(*ssa.Function); ok {
							add(g)
						}
					}
					_ = callee
					continue
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
			}
		}
	}
	for _, v := range P.fvals {
		sort.Slice(v, func(i, j int) bool { return v[i].RelString(nil) < v[j].RelString(nil) })
	}
}

// implementers of an interface method among the repo types.
func (P *Program) impls(it *types.Interface, itName, method string) []*ssa.Function {
	k := itName + "." + method
	internMu.Lock()
	if r, ok := P.implCache[k]; ok {
		internMu.Unlock()
		return r
	}
	internMu.Unlock()
	var out []*ssa.Function
	for _, t := range P.concrete {
		if !types.Implements(t, it) {
			continue
		}
		if _, isPtr := t.(*types.Pointer); isPtr {
			// if the value type implements it too, pointer forms still possible
		}
		sel := P.prog.MethodSets.MethodSet(t).Lookup(pkgOfMethod(it, method), method)
		if sel == nil {
			continue
		}
		if f := P.prog.MethodValue(sel); f != nil {
			out = append(out, f)
		}
	}
	internMu.Lock()
	P.implCache[k] = out
	internMu.Unlock()
	return out
}

func pkgOfMethod(it *types.Interface, m string) *types.Package {
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == m {
			return it.Method(i).Pkg()
		}
	}
	return nil
}

// ---- leaves of a type

type Leaf struct {
	Suf string
	S   Sort
	T   types.Type // scalar type of the leaf (nil for slice parts)
}

func sortOf(t types.Type) (Sort, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool, true
		case u.Info()&types.IsString != 0:
			return SStr, true
		case u.Info()&types.IsInteger != 0:
			return SInt, true
		case u.Info()&types.IsFloat != 0:
			return SFlt, true
		}
		return SInt, true
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
		return SInt, true
	case *types.Array:
		return SInt, true // opaque
	}
	return "", false
}

func leaves(t types.Type) []Leaf {
	if s, ok := sortOf(t); ok {
		return []Leaf{{"", s, t}}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return []Leaf{{".arr", SInt, nil}, {".off", SInt, nil}, {".len", SInt, nil}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				out = append(out, Leaf{"." + u.Field(i).Name() + l.Suf, l.S, l.T})
			}
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				out = append(out, Leaf{fmt.Sprintf(".%d%s", i, l.Suf), l.S, l.T})
			}
		}
		return out
	}
	return []Leaf{{"", SInt, t}}
}

// Region base names.
func fieldRegion(structT types.Type, path string) string { return "F:" + typeName(structT) + path }
func elemRegion(elem types.Type, path string) string     { return "E:" + typeName(elem) + path }
func cellRegion(t types.Type, path string) string        { return "C:" + typeName(t) + path }
func globRegion(g *ssa.Global, path string) string {
	return "G:" + g.Pkg.Pkg.Name() + "." + g.Name() + path
}
func mapDomRegion(m *types.Map) string { return "MD:" + typeName(m.Key()) + ":" + typeName(m.Elem()) }
func mapValRegion(m *types.Map, path string) string {
	return "MV:" + typeName(m.Key()) + ":" + typeName(m.Elem()) + path
}

// ---- addresses

// addrInfo describes the region and base of an address value.
type addrInfo struct {
	kind   string // field, elem, cell, global, local, unknown
	base   ssa.Value
	region string // region prefix
	typ    types.Type
}

func addrOf(v ssa.Value) addrInfo {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := deref(x.X.Type())
		f := st.Underlying().(*types.Struct).Field(x.Field)
		switch inner := x.X.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr:
			a := addrOf(inner)
			if a.kind != "unknown" {
				a.region += "." + f.Name()
				a.typ = f.Type()
				return a
			}
		case *ssa.Global:
			return addrInfo{"global", inner, globRegion(inner, "."+f.Name()), f.Type()}
		}
		return addrInfo{"field", x.X, fieldRegion(st, "."+f.Name()), f.Type()}
	case *ssa.IndexAddr:
		var el types.Type
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			el = u.Elem()
		case *types.Pointer:
			el = u.Elem().Underlying().(*types.Array).Elem()
		}
		return addrInfo{"elem", x.X, elemRegion(el, ""), el}
	case *ssa.Global:
		return addrInfo{"global", x, globRegion(x, ""), deref(x.Type())}
	case *ssa.Alloc:
		t := deref(x.Type())
		if _, ok := t.Underlying().(*types.Struct); ok {
			// whole-struct store
			return addrInfo{"structalloc", x, fieldRegion(t, ""), t}
		}
		return addrInfo{"cell", x, cellRegion(t, ""), t}
	case *ssa.FreeVar:
		t := deref(x.Type())
		return addrInfo{"cell", x, cellRegion(t, ""), t}
	}
	if pt, ok := v.Type().Underlying().(*types.Pointer); ok {
		t := pt.Elem()
		if _, ok := t.Underlying().(*types.Struct); ok {
			return addrInfo{"structptr", v, fieldRegion(t, ""), t}
		}
		return addrInfo{"cell", v, cellRegion(t, ""), t}
	}
	return addrInfo{kind: "unknown"}
}

// classifyRegions finds the regions written after construction.
func (P *Program) classifyRegions() {
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					a := addrOf(x.Addr)
					mark := false
					switch a.kind {
					case "field", "elem":
						mark = !P.constructing(a.base, x) && !(a.kind == "elem" && P.loopFilled(a.base, x))
					case "structalloc":
						mark = !P.constructing(a.base, x)
					case "structptr":
						mark = true
					case "cell":
						mark = true
					case "global":
						mark = true
					}
					for _, l := range leaves(a.typ) {
						if mark {
							P.mutable[a.region+l.Suf] = true
						}
						switch a.kind {
						case "elem":
							P.rsort[a.region+l.Suf] = ArrSort(SInt, ArrSort(SInt, l.S))
						case "global":
							P.rsort[a.region+l.Suf] = l.S
						default:
							P.rsort[a.region+l.Suf] = ArrSort(SInt, l.S)
						}
					}
				case *ssa.MapUpdate:
					m := x.Map.Type().Underlying().(*types.Map)
					P.markMap(m)
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "delete":
							m := x.Common().Args[0].Type().Underlying().(*types.Map)
							P.markMap(m)
						case "copy", "clear":
							if s, ok := x.Common().Args[0].Type().Underlying().(*types.Slice); ok {
								for _, l := range leaves(s.Elem()) {
									P.mutable[elemRegion(s.Elem(), l.Suf)] = true
									P.rsort[elemRegion(s.Elem(), l.Suf)] = ArrSort(SInt, ArrSort(SInt, l.S))
								}
							}
						}
					}
				}
			}
		}
	}
}

func (P *Program) markMap(m *types.Map) {
	ks := SInt
	if s, ok := sortOf(m.Key()); ok {
		ks = s
	}
	P.mutable[mapDomRegion(m)] = true
	P.rsort[mapDomRegion(m)] = ArrSort(SInt, ArrSort(ks, SBool))
	for _, l := range leaves(m.Elem()) {
		P.mutable[mapValRegion(m, l.Suf)] = true
		P.rsort[mapValRegion(m, l.Suf)] = ArrSort(SInt, ArrSort(ks, l.S))
	}
}

// loopFilled: base is a slice made here and only filled (never read) before anything else sees it:
// its elements are written once as far as the rest of the program can tell. Its content is left unknown.
func (P *Program) loopFilled(base ssa.Value, st *ssa.Store) bool {
	root, ok := base.(*ssa.MakeSlice)
	if !ok {
		return false
	}
	for _, ref := range *root.Referrers() {
		if ia, ok := ref.(*ssa.IndexAddr); ok {
			for _, r := range *ia.Referrers() {
				if y, ok := r.(*ssa.Store); (!ok || y.Addr != ssa.Value(ia)) && !isDebug(r) {
					return false
				}
			}
			continue
		}
		if escapes(ref, root) && reaches(ref, st, root) {
			return false
		}
	}
	if P.filled == nil {
		P.filled = map[ssa.Value]bool{}
	}
	P.filled[root] = true
	return true
}

func isDebug(i ssa.Instruction) bool { _, ok := i.(*ssa.DebugRef); return ok }

// constructing: base is a local allocation (or freshly made slice) that has not escaped
// when the store executes.
func (P *Program) constructing(base ssa.Value, st *ssa.Store) bool {
	root := base
	switch x := root.(type) {
	case *ssa.Alloc, *ssa.MakeSlice:
		_ = x
	default:
		return false
	}
	if reaches(st, st, root.(ssa.Instruction)) {
		return false // repeated store: the object's fields are not write-once
	}
	for _, ref := range *root.Referrers() {
		if ref == ssa.Instruction(st) {
			continue
		}
		if !escapes(ref, root) {
			continue
		}
		if reaches(ref, st, root.(ssa.Instruction)) {
			return false
		}
	}
	return true
}

func escapes(ref ssa.Instruction, root ssa.Value) bool {
	switch x := ref.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr:
		// address used only for load/store (recursively)
		v := ref.(ssa.Value)
		for _, r := range *v.Referrers() {
			switch y := r.(type) {
			case *ssa.Store:
				if y.Val == v {
					return true
				}
			case *ssa.UnOp:
			case *ssa.FieldAddr:
				if escapes(y, v) {
					return true
				}
			case *ssa.DebugRef:
			default:
				return true
			}
		}
		return false
	case *ssa.UnOp, *ssa.DebugRef:
		return false
	case *ssa.Store:
		return x.Val == root
	case ssa.CallInstruction:
		if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			return false
		}
	}
	return true
}

// reaches: can control go from instruction a to instruction b without passing through stop?
func reaches(a, b, stop ssa.Instruction) bool {
	idx := func(i ssa.Instruction) int {
		for k, x := range i.Block().Instrs {
			if x == i {
				return k
			}
		}
		return -1
	}
	ab, bb, sb := a.Block(), b.Block(), stop.Block()
	ai, bi, si := idx(a), idx(b), idx(stop)
	if ab == bb && ai < bi && !(sb == ab && si > ai && si < bi) {
		return true
	}
	if sb == ab && si > ai {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(x *ssa.BasicBlock) bool
	dfs = func(x *ssa.BasicBlock) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if x == bb {
			if !(sb == x && si < bi) {
				return true
			}
		}
		if x == sb {
			return false
		}
		for _, s := range x.Succs {
			if dfs(s) {
				return true
			}
		}
		return false
	}
	for _, s := range ab.Succs {
		if dfs(s) {
			return true
		}
	}
	return false
}

// ---- globals written only by package initialisation

func (P *Program) classifyGlobals() {
	P.globInitOnly = map[*ssa.Global]bool{}
	bad := map[*ssa.Global]bool{}
	for _, f := range P.funcs {
		isInit := f.Synthetic == "package initializer"
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if x.Addr == ssa.Value(g) && isInit {
							continue
						}
					}
					bad[g] = true
				}
			}
		}
	}
	for _, p := range P.pkgs {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && !bad[g] {
				P.globInitOnly[g] = true
			}
		}
	}
}

// globalMapReadOnly: the map held by g is only read (lookup, range, len) outside init.
func (P *Program) globalMapReadOnly(g *ssa.Global) bool {
	if !P.globInitOnly[g] {
		return false
	}
	for _, f := range P.funcs {
		if f.Synthetic == "package initializer" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.X != ssa.Value(g) {
					continue
				}
				for _, r := range *u.Referrers() {
					switch y := r.(type) {
					case *ssa.Lookup:
						if y.X != ssa.Value(u) {
							return false
						}
					case *ssa.Range, *ssa.DebugRef:
					case ssa.CallInstruction:
						if bi, ok := y.Common().Value.(*ssa.Builtin); ok && bi.Name() == "len" {
							continue
						}
						return false
					default:
						return false
					}
				}
			}
		}
	}
	return true
}

// ---- effects

// Effects: region -> set of origins ("p0", "p0.f", "fresh", "any", "fv0").
type Effects struct {
	W       map[string]map[string]bool
	unknown bool // may call code we know nothing about (external, with callbacks)
	ext     bool // writes external-library regions
}

func newEffects() *Effects { return &Effects{W: map[string]map[string]bool{}} }

func (e *Effects) add(r, o string) bool {
	m := e.W[r]
	if m == nil {
		m = map[string]bool{}
		e.W[r] = m
	}
	if m[o] {
		return false
	}
	m[o] = true
	return true
}

// origins of a pointer-like value inside f.
func (P *Program) origins(v ssa.Value) []string {
	set := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, o := range P.origin1(v, rec) {
			set[o] = true
		}
	}
	rec(v)
	var out []string
	for o := range set {
		out = append(out, o)
	}
	sort.Strings(out)
	return out
}

func (P *Program) origin1(v ssa.Value, rec func(ssa.Value)) []string {
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return []string{fmt.Sprintf("p%d", i)}
			}
		}
	case *ssa.FreeVar:
		for i, p := range x.Parent().FreeVars {
			if p == x {
				return []string{fmt.Sprintf("fv%d", i)}
			}
		}
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return []string{"fresh"}
	case *ssa.Const:
		return nil
	case *ssa.Phi:
		for _, e := range x.Edges {
			rec(e)
		}
		return nil
	case *ssa.ChangeInterface:
		rec(x.X)
		return nil
	case *ssa.MakeInterface:
		rec(x.X)
		return nil
	case *ssa.ChangeType:
		rec(x.X)
		return nil
	case *ssa.TypeAssert:
		if !x.CommaOk {
			rec(x.X)
			return nil
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			rec(ta.X)
			return nil
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			// load of a field of a parameter, or of a captured variable
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				if p, ok := a.X.(*ssa.Parameter); ok {
					st := deref(a.X.Type())
					f := st.Underlying().(*types.Struct).Field(a.Field)
					reg := fieldRegion(st, "."+f.Name())
					for _, l := range leaves(f.Type()) {
						P.rsort[reg+l.Suf] = ArrSort(SInt, l.S)
					}
					for _, o := range P.origin1(p, rec) {
						return []string{o + "/" + reg}
					}
				}
			case *ssa.FreeVar:
				// captured variable: value of the cell
				for _, r := range *a.Referrers() {
					switch r.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return []string{"any"}
					}
				}
				for i, p := range a.Parent().FreeVars {
					if p == a {
						return []string{fmt.Sprintf("*fv%d", i)}
					}
				}
			case *ssa.Alloc:
				// a local variable: union over stored values when it does not escape to others' writes
				ok := true
				var vals []ssa.Value
				for _, r := range *a.Referrers() {
					switch y := r.(type) {
					case *ssa.Store:
						if y.Addr == ssa.Value(a) {
							vals = append(vals, y.Val)
						} else {
							ok = false
						}
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.MakeClosure:
						if !closureOnlyReads(y, a) {
							ok = false
						}
					default:
						ok = false
					}
				}
				if ok {
					for _, v := range vals {
						rec(v)
					}
					return nil
				}
			case *ssa.Global:
				if P.globInitOnly[a] {
					return []string{"g:" + a.Pkg.Pkg.Name() + "." + a.Name()}
				}
			}
		}
	case *ssa.Global:
		return []string{"g&:" + x.Name()}
	}
	return []string{"any"}
}

func closureOnlyReads(mc *ssa.MakeClosure, a ssa.Value) bool {
	fn := mc.Fn.(*ssa.Function)
	for i, b := range mc.Bindings {
		if b != a {
			continue
		}
		fv := fn.FreeVars[i]
		for _, r := range *fv.Referrers() {
			switch y := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				if !closureOnlyReads(y, fv) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

func (P *Program) inferEffects() {
	for _, f := range P.funcs {
		P.effects[f] = newEffects()
	}
	for changed := true; changed; {
		changed = false
		for _, f := range P.funcs {
			if P.stepEffects(f) {
				changed = true
			}
		}
	}
}

func (P *Program) stepEffects(f *ssa.Function) bool {
	e := P.effects[f]
	changed := false
	add := func(r, o string) {
		if o == "fresh" {
			if e.add(r, "fresh") {
				changed = true
			}
			return
		}
		if e.add(r, o) {
			changed = true
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			P.instrEffects(f, in, func(region string, vals []ssa.Value, orig []string) {
				for _, o := range orig {
					add(region, o)
				}
				for _, v := range vals {
					for _, o := range P.origins(v) {
						add(region, o)
					}
				}
			}, func() {
				if !e.ext {
					e.ext = true
					changed = true
				}
			})
		}
	}
	return changed
}

// instrEffects reports the regions an instruction may write, with the base values or origins.
func (P *Program) instrEffects(f *ssa.Function, in ssa.Instruction, emit func(region string, vals []ssa.Value, orig []string), ext func()) {
	switch x := in.(type) {
	case *ssa.Store:
		a := addrOf(x.Addr)
		for _, l := range leaves(a.typ) {
			r := a.region + l.Suf
			if !P.mutable[r] {
				continue
			}
			switch a.kind {
			case "global":
				emit(r, nil, []string{"global"})
			case "cell":
				if _, isAlloc := a.base.(*ssa.Alloc); isAlloc {
					continue // local variable
				}
				emit(r, []ssa.Value{a.base}, nil)
			default:
				emit(r, []ssa.Value{a.base}, nil)
			}
		}
	case *ssa.Alloc:
		// construction initialises mutable fields of a fresh object
		t := deref(x.Type())
		if _, ok := t.Underlying().(*types.Struct); ok {
			for _, l := range leaves(t) {
				if r := fieldRegion(t, l.Suf); P.mutable[r] {
					emit(r, nil, []string{"fresh"})
				}
			}
		}
	case *ssa.MakeMap:
		m := x.Type().Underlying().(*types.Map)
		P.markMap(m)
		emit(mapDomRegion(m), nil, []string{"fresh"})
		for _, l := range leaves(m.Elem()) {
			emit(mapValRegion(m, l.Suf), nil, []string{"fresh"})
		}
	case *ssa.MakeSlice:
		el := x.Type().Underlying().(*types.Slice).Elem()
		for _, l := range leaves(el) {
			if r := elemRegion(el, l.Suf); P.mutable[r] {
				emit(r, nil, []string{"fresh"})
			}
		}
	case *ssa.MapUpdate:
		m := x.Map.Type().Underlying().(*types.Map)
		emit(mapDomRegion(m), []ssa.Value{x.Map}, nil)
		for _, l := range leaves(m.Elem()) {
			emit(mapValRegion(m, l.Suf), []ssa.Value{x.Map}, nil)
		}
	case ssa.CallInstruction:
		c := x.Common()
		if bi, ok := c.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "delete":
				m := c.Args[0].Type().Underlying().(*types.Map)
				emit(mapDomRegion(m), []ssa.Value{c.Args[0]}, nil)
			case "append":
				el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
				for _, l := range leaves(el) {
					if r := elemRegion(el, l.Suf); P.mutable[r] {
						emit(r, nil, []string{"fresh"})
					}
				}
			case "copy", "clear":
				if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
					for _, l := range leaves(s.Elem()) {
						emit(elemRegion(s.Elem(), l.Suf), []ssa.Value{c.Args[0]}, nil)
					}
				}
			}
			return
		}
		callees, external := P.callees(c)
		if external != "" {
			ext()
			var all []ssa.Value
			if c.IsInvoke() {
				all = append(all, c.Value)
			}
			all = append(all, c.Args...)
			for _, w := range P.externW[external] {
				if w.idx < len(all) {
					emit(w.region, []ssa.Value{all[w.idx]}, nil)
				}
			}
		}
		for _, g := range callees {
			ge := P.effects[g]
			if ge == nil {
				ext()
				continue
			}
			if ge.ext {
				ext()
			}
			// argument values aligned with g's parameters
			var args []ssa.Value
			if c.IsInvoke() {
				args = append([]ssa.Value{c.Value}, c.Args...)
			} else {
				args = c.Args
			}
			var binds []ssa.Value
			if mc, ok := c.Value.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(g) {
				binds = mc.Bindings
			}
			for r, os := range ge.W {
				for o := range os {
					vals, orig := P.mapOrigin(o, g, args, binds)
					emit(r, vals, orig)
				}
			}
		}
	}
}

// mapOrigin translates a callee origin to caller values/origins.
func (P *Program) mapOrigin(o string, g *ssa.Function, args, binds []ssa.Value) (vals []ssa.Value, orig []string) {
	switch {
	case o == "fresh" || o == "any" || o == "global" || strings.HasPrefix(o, "g:") || strings.HasPrefix(o, "g&:"):
		return nil, []string{o}
	case strings.HasPrefix(o, "p"):
		rest := ""
		name := o
		if i := strings.Index(o, "/"); i >= 0 {
			name, rest = o[:i], o[i:]
		}
		var k int
		fmt.Sscanf(name, "p%d", &k)
		if k >= len(args) || len(args) != len(g.Params) {
			return nil, []string{"any"}
		}
		if rest == "" {
			return []ssa.Value{args[k]}, nil
		}
		if strings.Count(rest, "/") > 1 {
			return nil, []string{"any"}
		}
		// the path is evaluated in the caller's state at the call: keep it when the argument is a parameter
		for _, ao := range P.origins(args[k]) {
			if ao == "any" || ao == "fresh" || strings.HasPrefix(ao, "*") || strings.HasPrefix(ao, "fv") || strings.Contains(ao, "/") || strings.HasPrefix(ao, "g") {
				orig = append(orig, "any")
				continue
			}
			orig = append(orig, ao+rest)
		}
		return nil, orig
	case strings.HasPrefix(o, "*fv"):
		var k int
		fmt.Sscanf(o, "*fv%d", &k)
		if k < len(binds) {
			if al, ok := binds[k].(*ssa.Alloc); ok {
				var vs []ssa.Value
				single := true
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
						vs = append(vs, s.Val)
					} else if mc, ok := r.(*ssa.MakeClosure); ok && !closureOnlyReads(mc, al) {
						single = false
					}
				}
				if single {
					return vs, nil
				}
			}
		}
		return nil, []string{"any"}
	case strings.HasPrefix(o, "fv"):
		var k int
		fmt.Sscanf(o, "fv%d", &k)
		if k < len(binds) {
			if _, ok := binds[k].(*ssa.Alloc); ok {
				return nil, nil // caller's local cell
			}
			return []ssa.Value{binds[k]}, nil
		}
		return nil, []string{"any"}
	}
	return nil, []string{"any"}
}

// callees resolves a call to repo functions; external names a callee outside the repo.
func (P *Program) callees(c *ssa.CallCommon) (fs []*ssa.Function, external string) {
	if c.IsInvoke() {
		it := c.Value.Type().Underlying().(*types.Interface)
		fs = P.impls(it, types.TypeString(c.Value.Type(), nil), c.Method.Name())
		if !P.repoIface(c.Value.Type()) {
			external = typeName(c.Value.Type()) + "." + c.Method.Name()
		}
		return
	}
	if f := c.StaticCallee(); f != nil {
		if f.Blocks == nil || !P.inRepo(f) {
			return nil, P.Key(f)
		}
		return []*ssa.Function{f}, ""
	}
	return P.fvals[sigKey(c.Signature())], ""
}

func (P *Program) repoIface(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return P.repoPkg[n.Obj().Pkg()]
	}
	return false
}
