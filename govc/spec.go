package main

// Contract files: parsing and evaluation of specification expressions.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type Clause struct {
	E     ast.Expr
	Text  string
	Label string
	Props []string
	Def   bool // introduces a ghost relation: assumed by callers, nothing to check
}

func (c Clause) appliesTo(prop string) bool { return propApplies(c.Props, prop) }

func propApplies(ps []string, prop string) bool {
	if len(ps) == 0 {
		return true
	}
	for _, p := range ps {
		if p == prop {
			return true
		}
	}
	return false
}

type WriteSpec struct {
	Param   string
	Regions []string
}

type Contract struct {
	Key       string
	Kind      string // func, iface, extern, dyncall
	Pkg       *types.Package
	Params    []string
	Results   []string
	Requires  []Clause
	Ensures   []Clause
	Writes    []WriteSpec
	rawWrites []string
	Helper    bool
	Safe      bool
	NoReturn  bool
	Trusted   bool
	Prune     bool
	Props     []string // root for these properties
	Only      []string // contract in force only for these properties
	File      string
	Line      int
}

func (c *Contract) appliesTo(prop string) bool {
	if !propApplies(c.Only, prop) {
		return false
	}
	if c.NoReturn || c.Trusted || c.Kind == "extern" {
		return true
	}
	for _, e := range c.Ensures {
		if e.appliesTo(prop) {
			return true
		}
	}
	for _, e := range c.Requires {
		if e.appliesTo(prop) {
			return true
		}
	}
	return c.Safe && propApplies(c.Props, prop) && len(c.Props) > 0
}

func (c *Contract) isRoot(prop string) bool {
	for _, p := range c.Props {
		if p == prop {
			return true
		}
	}
	return false
}

type SpecFn struct {
	Name    string
	Params  []string
	PTypes  []types.Type
	Res     types.Type
	Body    ast.Expr
	Kind    string // macro, rec, uf
	Prefix  bool   // f(s, n, ...) depends on the first n elements of s only (proved)
	Pkg     *types.Package
	Regions []string // mutable regions read by a rec body (hidden arguments)
	regDone bool
	Text    string
}

type MetaVar struct {
	Name     string
	T        types.Type
	AnySlice bool
	Phi      bool
	Under    bool
}

type InvT struct {
	E    ast.Expr
	Text string
}

type InvPool struct {
	Vars  []MetaVar
	Invs  []InvT
	Pkg   *types.Package
	Props []string
}

func (p *InvPool) appliesTo(prop string) bool { return propApplies(p.Props, prop) }

type AxiomT struct {
	Local bool
	Vars  []string
	Types []types.Type
	Trig  []ast.Expr
	E     ast.Expr
	Pkg   *types.Package
	Text  string
	Props []string
}

type Contracts struct {
	P       *Program
	ByKey   map[string]*Contract
	List    []*Contract
	Fns     map[string]*SpecFn
	Pools   []*InvPool
	Axioms  []*AxiomT
	Opaque  map[string]bool
	Trusted []string // textual list of assumptions
}

// ---- parsing

type rawLine struct {
	text string
	file string
	line int
}

func readContractLines(dir string) ([]rawLine, error) {
	fs, err := filepath.Glob(filepath.Join(dir, "*.gvc"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	var out []rawLine
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		cur := ""
		start := 0
		depth := 0
		for i, l := range strings.Split(string(b), "\n") {
			if k := strings.Index(l, "//"); k >= 0 && !inQuote(l, k) {
				l = l[:k]
			}
			t := strings.TrimSpace(l)
			if t == "" && cur == "" {
				continue
			}
			if cur == "" {
				start = i + 1
			}
			cur += " " + t
			depth = parenDepth(cur)
			if depth > 0 || strings.HasSuffix(t, "&&") || strings.HasSuffix(t, "||") || strings.HasSuffix(t, "=") || strings.HasSuffix(t, "\\") {
				cur = strings.TrimSuffix(cur, "\\")
				continue
			}
			out = append(out, rawLine{strings.TrimSpace(cur), filepath.Base(f), start})
			cur = ""
		}
		if strings.TrimSpace(cur) != "" {
			out = append(out, rawLine{strings.TrimSpace(cur), filepath.Base(f), start})
		}
		out = append(out, rawLine{"endfile", filepath.Base(f), 0})
	}
	return out, nil
}

func inQuote(l string, k int) bool {
	q := byte(0)
	for i := 0; i < k; i++ {
		c := l[i]
		if q != 0 {
			if c == '\\' {
				i++
			} else if c == q {
				q = 0
			}
		} else if c == '"' || c == '\'' || c == '`' {
			q = c
		}
	}
	return q != 0
}

func parenDepth(s string) int {
	d := 0
	q := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if q != 0 {
			if c == '\\' {
				i++
			} else if c == q {
				q = 0
			}
			continue
		}
		switch c {
		case '"', '\'', '`':
			q = c
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
	}
	return d
}

func (C *Contracts) errf(l rawLine, f string, a ...interface{}) error {
	return fmt.Errorf("%s:%d: %s (in %q)", l.file, l.line, fmt.Sprintf(f, a...), l.text)
}

// LoadContracts reads every contract file of dir; blocks under "only" that do not name
// prop are skipped (prop "" reads all).
func LoadContracts(P *Program, dir, prop string) (C *Contracts, err error) {
	C = &Contracts{P: P, ByKey: map[string]*Contract{}, Fns: map[string]*SpecFn{}, Opaque: map[string]bool{}}
	lines, err := readContractLines(dir)
	if err != nil {
		return nil, err
	}
	var cur *Contract
	var pool *InvPool
	var pkg *types.Package
	var only []string
	var group []*Contract
	for _, l := range lines {
		word, rest, _ := strings.Cut(l.text, " ")
		rest = strings.TrimSpace(rest)
		if prop != "" && only != nil && word != "endfile" && word != "package" && word != "only" {
			skip := true
			for _, o := range only {
				if o == prop {
					skip = false
				}
			}
			if skip {
				continue
			}
		}
		switch word {
		case "endfile":
			cur, pool, only = nil, nil, nil
		case "package":
			pkg = P.tpkgs[rest]
			if pkg == nil {
				return nil, C.errf(l, "no package %s", rest)
			}
			cur, pool = nil, nil
		case "only":
			only = strings.Fields(strings.ReplaceAll(rest, ",", " "))
			if rest == "-" {
				only = nil
			}
		case "spec", "rec", "uf", "prefixrec":
			cur, pool = nil, nil
			f := &SpecFn{Kind: map[string]string{"spec": "macro", "rec": "rec", "uf": "uf", "prefixrec": "rec"}[word], Pkg: pkg, Text: l.text, Prefix: word == "prefixrec"}
			head, body := rest, ""
			if word != "uf" {
				i := strings.Index(rest, " = ")
				if i < 0 {
					return nil, C.errf(l, "no body")
				}
				head, body = rest[:i], rest[i+3:]
			}
			i := strings.Index(head, "(")
			j := strings.LastIndex(head, ")")
			f.Name = strings.TrimSpace(head[:i])
			if err := C.parseParams(head[i+1:j], pkg, &f.Params, &f.PTypes); err != nil {
				return nil, C.errf(l, "%v", err)
			}
			f.Res, err = C.parseType(strings.TrimSpace(head[j+1:]), pkg)
			if err != nil {
				return nil, C.errf(l, "%v", err)
			}
			if word != "uf" {
				if f.Body, err = parseExpr(body); err != nil {
					return nil, C.errf(l, "%v", err)
				}
			}
			if C.Fns[f.Name] != nil {
				return nil, C.errf(l, "duplicate %s", f.Name)
			}
			C.Fns[f.Name] = f
		case "axiom", "typeinv":
			// a typeinv is only used for the functions of the package it is stated in
			cur, pool = nil, nil
			i, j := strings.Index(rest, "("), strings.Index(rest, ")")
			a := &AxiomT{Pkg: pkg, Text: l.text, Local: word == "typeinv"}
			if err := C.parseParams(rest[i+1:j], pkg, &a.Vars, &a.Types); err != nil {
				return nil, C.errf(l, "%v", err)
			}
			r := strings.TrimSpace(rest[j+1:])
			if strings.HasPrefix(r, "{") {
				k := strings.Index(r, "}")
				for _, t := range strings.Split(r[1:k], ";") {
					e, err := parseExpr(t)
					if err != nil {
						return nil, C.errf(l, "%v", err)
					}
					a.Trig = append(a.Trig, e)
				}
				r = r[k+1:]
			}
			if a.E, err = parseExpr(r); err != nil {
				return nil, C.errf(l, "%v", err)
			}
			C.Axioms = append(C.Axioms, a)
			C.Trusted = append(C.Trusted, word+" "+rest)
		case "funcs":
			// funcs (*T).{a, b, c}(params) flags: one contract per function, sharing the clauses
			pool, cur = nil, nil
			i, j := strings.Index(rest, "{"), strings.Index(rest, "}")
			if i < 0 || j < i {
				return nil, C.errf(l, "funcs without a list")
			}
			group = nil
			for _, n := range strings.Split(rest[i+1:j], ",") {
				c := &Contract{Kind: "func", Pkg: pkg, File: l.file, Line: l.line, Only: only}
				if err := C.parseHead(c, "func", rest[:i]+strings.TrimSpace(n)+rest[j+1:], pkg); err != nil {
					return nil, C.errf(l, "%v", err)
				}
				if old := C.ByKey[c.Key]; old != nil {
					return nil, C.errf(l, "duplicate contract %s", c.Key)
				}
				C.ByKey[c.Key] = c
				C.List = append(C.List, c)
				group = append(group, c)
			}
			cur = group[0]
			continue
		case "also":
			// also f or also (*T).{a, b}: more clauses for contracts given above
			pool, cur, group = nil, nil, nil
			var roots []string
			for {
				k := strings.LastIndex(rest, " ")
				if k < 0 || len(rest)-k != 4 || rest[k+1] != 'C' {
					break
				}
				roots = append(roots, rest[k+1:])
				rest = strings.TrimRight(rest[:k], " ,")
			}
			names := []string{rest}
			if i, j := strings.Index(rest, "{"), strings.Index(rest, "}"); i >= 0 && j > i {
				names = nil
				for _, n := range strings.Split(rest[i+1:j], ",") {
					names = append(names, rest[:i]+strings.TrimSpace(n)+rest[j+1:])
				}
			}
			for _, n := range names {
				key := C.fnKey(n, pkg)
				if strings.HasPrefix(n, "dyncall ") {
					key = "dyncall " + strings.Trim(n[8:], "\"")
				}
				c := C.ByKey[key]
				if c == nil {
					return nil, C.errf(l, "no contract for %s", n)
				}
				c.Props = append(c.Props, roots...)
				group = append(group, c)
			}
			cur = group[0]
		case "func", "iface", "extern", "dyncall":
			pool = nil
			group = nil
			cur = &Contract{Kind: word, Pkg: pkg, File: l.file, Line: l.line, Only: only}
			if err := C.parseHead(cur, word, rest, pkg); err != nil {
				return nil, C.errf(l, "%v", err)
			}
			if old := C.ByKey[cur.Key]; old != nil {
				return nil, C.errf(l, "duplicate contract %s", cur.Key)
			}
			C.ByKey[cur.Key] = cur
			C.List = append(C.List, cur)
		case "requires", "ensures", "defines", "assumes":
			if cur == nil {
				return nil, C.errf(l, "clause outside a contract")
			}
			c := Clause{Def: word == "defines" || word == "assumes"}
			if strings.HasPrefix(rest, "[") {
				k := strings.Index(rest, "]")
				for _, w := range strings.Fields(strings.ReplaceAll(rest[1:k], ",", " ")) {
					if len(w) == 3 && w[0] == 'C' && w[1] >= '0' && w[1] <= '9' {
						c.Props = append(c.Props, w)
					} else {
						c.Label = w
					}
				}
				rest = strings.TrimSpace(rest[k+1:])
			}
			c.Text = rest
			if c.E, err = parseExpr(rest); err != nil {
				return nil, C.errf(l, "%v", err)
			}
			to := []*Contract{cur}
			if group != nil {
				to = group
			}
			for _, cc := range to {
				if word == "assumes" {
					C.Trusted = append(C.Trusted, cc.Key+" assumes "+rest)
				}
				if word == "requires" || word == "assumes" {
					cc.Requires = append(cc.Requires, c)
				} else {
					cc.Ensures = append(cc.Ensures, c)
				}
			}
		case "writes":
			cur.rawWrites = append(cur.rawWrites, rest)
		case "opaque":
			cur, pool = nil, nil
			C.Opaque[C.fnKey(rest, pkg)] = true
		case "pool":
			cur = nil
			pool = &InvPool{Pkg: pkg, Props: only}
			i, j := strings.Index(rest, "("), strings.LastIndex(rest, ")")
			if j < len(rest)-1 {
				pool.Props = strings.Fields(strings.Trim(strings.ReplaceAll(rest[j+1:], ",", " "), " []"))
			}
			for _, p := range splitTop(rest[i+1 : j]) {
				p = strings.TrimSpace(p)
				if p == "" {
					continue
				}
				mv := MetaVar{}
				fs := strings.Fields(p)
				mv.Name = fs[0]
				ts := fs[1]
				if ts == "phi" {
					mv.Phi = true
					ts = fs[2]
				}
				if ts == "slice" {
					mv.AnySlice = true
				} else if mv.T, err = C.parseType(ts, pkg); err != nil {
					// the type no longer exists: drop the pool
					mv.T = types.Typ[types.Invalid]
					err = nil
				}
				pool.Vars = append(pool.Vars, mv)
			}
			C.Pools = append(C.Pools, pool)
		case "inv":
			e, err := parseExpr(rest)
			if err != nil {
				return nil, C.errf(l, "%v", err)
			}
			pool.Invs = append(pool.Invs, InvT{e, rest})
		default:
			return nil, C.errf(l, "unknown directive %q", word)
		}
	}
	return C, C.resolveWrites()
}

type externWrite struct {
	idx    int
	region string
}

// resolveWrites turns "writes p F:pkg.Type.field ..." into regions.
func (C *Contracts) resolveWrites() error {
	C.P.externW = map[string][]externWrite{}
	for _, ct := range C.List {
		for _, w := range ct.rawWrites {
			fs := strings.Fields(strings.ReplaceAll(w, ",", " "))
			pi := -1
			for i, p := range ct.Params {
				if p == fs[0] {
					pi = i
				}
			}
			if pi < 0 {
				return fmt.Errorf("%s: writes: no parameter %s", ct.Key, fs[0])
			}
			ws := WriteSpec{Param: fs[0]}
			for _, f := range fs[1:] {
				// pkg.Type.field
				parts := strings.Split(strings.TrimPrefix(f, "F:"), ".")
				if len(parts) != 3 || C.P.tpkgs[parts[0]] == nil {
					return fmt.Errorf("%s: writes: bad region %s", ct.Key, f)
				}
				tn, ok := C.P.tpkgs[parts[0]].Scope().Lookup(parts[1]).(*types.TypeName)
				if !ok {
					return fmt.Errorf("%s: writes: no type %s", ct.Key, f)
				}
				stt, ok := tn.Type().Underlying().(*types.Struct)
				if !ok {
					return fmt.Errorf("%s: writes: %s not a struct", ct.Key, f)
				}
				found := false
				for i := 0; i < stt.NumFields(); i++ {
					if stt.Field(i).Name() == parts[2] {
						found = true
						for _, l := range leaves(stt.Field(i).Type()) {
							r := fieldRegion(tn.Type(), "."+parts[2]+l.Suf)
							C.P.mutable[r] = true
							C.P.rsort[r] = ArrSort(SInt, l.S)
							ws.Regions = append(ws.Regions, r)
							C.P.externW[ct.Key] = append(C.P.externW[ct.Key], externWrite{pi, r})
						}
					}
				}
				if !found {
					return fmt.Errorf("%s: writes: no field %s", ct.Key, f)
				}
			}
			ct.Writes = append(ct.Writes, ws)
		}
	}
	return nil
}

func splitTop(s string) []string {
	var out []string
	d := 0
	last := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[last:i])
				last = i + 1
			}
		}
	}
	if strings.TrimSpace(s[last:]) != "" {
		out = append(out, s[last:])
	}
	return out
}

func (C *Contracts) parseParams(s string, pkg *types.Package, names *[]string, ts *[]types.Type) error {
	for _, p := range splitTop(s) {
		p = strings.TrimSpace(p)
		n, t, _ := strings.Cut(p, " ")
		ty, err := C.parseType(strings.TrimSpace(t), pkg)
		if err != nil {
			return err
		}
		*names = append(*names, n)
		*ts = append(*ts, ty)
	}
	return nil
}

func (C *Contracts) fnKey(s string, pkg *types.Package) string {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "(") || !strings.Contains(s, ".") {
		return pkg.Name() + "." + s
	}
	return s
}

// head: name(params) (results) flags
func (C *Contracts) parseHead(c *Contract, kind, s string, pkg *types.Package) error {
	name := ""
	rest := s
	if kind == "dyncall" {
		// dyncall "signature" (params) (results)
		i := strings.Index(s[1:], "\"") + 1
		c.Key = "dyncall " + s[1:i]
		rest = strings.TrimSpace(s[i+1:])
	} else {
		start := 0
		if strings.HasPrefix(s, "(") {
			start = strings.Index(s, ")") + 1
		}
		i := strings.Index(s[start:], "(") + start
		if k := strings.Index(s, ".("); k >= 0 && k < i+1 && kind == "extern" {
			// pkg.(*T).Method
			e := strings.Index(s[k:], ")") + k + 1
			i = strings.Index(s[e:], "(") + e
		}
		name = strings.TrimSpace(s[:i])
		rest = s[i:]
		switch kind {
		case "func":
			c.Key = C.fnKey(name, pkg)
		case "iface":
			if strings.Count(name, ".") == 1 {
				name = pkg.Name() + "." + name
			}
			c.Key = "iface " + name
		case "extern":
			c.Key = name
		}
	}
	read := func() ([]string, error) {
		rest = strings.TrimSpace(rest)
		if !strings.HasPrefix(rest, "(") {
			return nil, nil
		}
		j := strings.Index(rest, ")")
		var out []string
		for _, p := range strings.Split(rest[1:j], ",") {
			p = strings.TrimSpace(p)
			if p != "" {
				out = append(out, strings.Fields(p)[0])
			}
		}
		rest = rest[j+1:]
		return out, nil
	}
	var err error
	if c.Params, err = read(); err != nil {
		return err
	}
	if c.Results, err = read(); err != nil {
		return err
	}
	if n := len(c.Params); n > 0 && c.Params[n-1] == "..." {
		c.Params = c.Params[:n-1]
		for _, f := range C.P.byKey[c.Key] {
			for len(c.Params) < len(f.Params) {
				c.Params = append(c.Params, fmt.Sprintf("_%d", len(c.Params)))
			}
		}
	}
	for _, w := range strings.Fields(strings.ReplaceAll(rest, ",", " ")) {
		switch w {
		case "helper":
			c.Helper = true
		case "safe":
			c.Safe = true
		case "noreturn":
			c.NoReturn = true
		case "trusted":
			c.Trusted = true
		default:
			if len(w) == 3 && w[0] == 'C' {
				c.Props = append(c.Props, w)
			} else {
				return fmt.Errorf("unknown flag %q", w)
			}
		}
	}
	return nil
}

func parseExpr(s string) (ast.Expr, error) {
	e, err := parser.ParseExpr(strings.TrimSpace(s))
	if err != nil {
		return nil, fmt.Errorf("%v in %q", err, s)
	}
	return e, nil
}

func (C *Contracts) parseType(s string, pkg *types.Package) (types.Type, error) {
	e, err := parseExpr(s)
	if err != nil {
		return nil, err
	}
	return C.typeOf(e, pkg)
}

var ghostArr = types.NewNamed(types.NewTypeName(0, nil, "heapref", nil), types.Typ[types.Int], nil)

func (C *Contracts) typeOf(e ast.Expr, pkg *types.Package) (types.Type, error) {
	switch x := e.(type) {
	case *ast.Ident:
		if x.Name == "ref" {
			return types.NewPointer(types.Typ[types.Int]), nil
		}
		if o := types.Universe.Lookup(x.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type(), nil
			}
		}
		if pkg != nil {
			if tn, ok := pkg.Scope().Lookup(x.Name).(*types.TypeName); ok {
				return tn.Type(), nil
			}
		}
		return nil, fmt.Errorf("no type %s", x.Name)
	case *ast.SelectorExpr:
		id, ok := x.X.(*ast.Ident)
		if !ok {
			return nil, fmt.Errorf("bad type")
		}
		p := C.P.tpkgs[id.Name]
		if p == nil {
			return nil, fmt.Errorf("no package %s", id.Name)
		}
		if tn, ok := p.Scope().Lookup(x.Sel.Name).(*types.TypeName); ok {
			return tn.Type(), nil
		}
		return nil, fmt.Errorf("no type %s.%s", id.Name, x.Sel.Name)
	case *ast.StarExpr:
		t, err := C.typeOf(x.X, pkg)
		if err != nil {
			return nil, err
		}
		return types.NewPointer(t), nil
	case *ast.ParenExpr:
		return C.typeOf(x.X, pkg)
	case *ast.ArrayType:
		t, err := C.typeOf(x.Elt, pkg)
		if err != nil {
			return nil, err
		}
		return types.NewSlice(t), nil
	case *ast.MapType:
		k, err := C.typeOf(x.Key, pkg)
		if err != nil {
			return nil, err
		}
		v, err := C.typeOf(x.Value, pkg)
		if err != nil {
			return nil, err
		}
		return types.NewMap(k, v), nil
	case *ast.IndexExpr:
		g, err := C.typeOf(x.X, pkg)
		if err != nil {
			return nil, err
		}
		a, err := C.typeOf(x.Index, pkg)
		if err != nil {
			return nil, err
		}
		return types.Instantiate(nil, g, []types.Type{a}, false)
	case *ast.IndexListExpr:
		g, err := C.typeOf(x.X, pkg)
		if err != nil {
			return nil, err
		}
		var as []types.Type
		for _, i := range x.Indices {
			a, err := C.typeOf(i, pkg)
			if err != nil {
				return nil, err
			}
			as = append(as, a)
		}
		return types.Instantiate(nil, g, as, false)
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil), nil
	}
	return nil, fmt.Errorf("bad type expression %T", e)
}

// ---- evaluation

type SVal struct {
	V Val
	T types.Type // nil: untyped nil
}

type SpecEnv struct {
	ex    *Exec
	st    *State
	old   *State
	entry *State
	vars  map[string]SVal
	evars map[string]SVal // values of the metavariables at loop entry
	ovars map[string]SVal
	pkg   *types.Package
	depth int
	track map[string]bool // mutable regions read
}

func (e *SpecEnv) with(vars map[string]SVal) *SpecEnv {
	n := *e
	n.vars = vars
	return &n
}

func (e *SpecEnv) bool(x ast.Expr) *Term {
	v := e.eval(x)
	if v.V.T == nil || v.V.T.S != SBool {
		panic(unsupported("specification is not boolean"))
	}
	return v.V.T
}

var (
	tInt  = types.Typ[types.Int]
	tBool = types.Typ[types.Bool]
	tStr  = types.Typ[types.String]
)

func (e *SpecEnv) bad(f string, a ...interface{}) {
	panic(unsupported("spec: " + fmt.Sprintf(f, a...)))
}

func (e *SpecEnv) term(x ast.Expr) *Term {
	v := e.eval(x)
	if v.V.K == 's' {
		return v.V.T
	}
	return e.ex.scalar(e.st, v.V)
}

func (e *SpecEnv) eval(x ast.Expr) SVal {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT, token.CHAR:
			v := constant.MakeFromLiteral(x.Value, x.Kind, 0)
			return SVal{e.ex.constVal2(v), tInt}
		case token.STRING:
			v := constant.MakeFromLiteral(x.Value, x.Kind, 0)
			return SVal{sv(StrLit(constant.StringVal(v))), tStr}
		}
	case *ast.Ident:
		switch x.Name {
		case "true":
			return SVal{sv(tTrue), tBool}
		case "false":
			return SVal{sv(tFalse), tBool}
		case "nil":
			return SVal{sv(tZero), nil}
		}
		if v, ok := e.vars[x.Name]; ok {
			if v.V.K == 'a' {
				return SVal{e.ex.load(e.st, v.V.L), v.V.L.T}
			}
			return v
		}
		if f := e.ex.C.Fns[x.Name]; f != nil && len(f.Params) == 0 {
			return e.callSpec(f, nil)
		}
		if e.pkg != nil {
			if o := e.pkg.Scope().Lookup(x.Name); o != nil {
				return e.object(o)
			}
		}
		e.bad("unknown name %s", x.Name)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, isVar := e.vars[id.Name]; !isVar {
				if p := e.ex.P.tpkgs[id.Name]; p != nil {
					if o := p.Scope().Lookup(x.Sel.Name); o != nil {
						return e.object(o)
					}
					e.bad("no %s.%s", id.Name, x.Sel.Name)
				}
			}
		}
		return e.field(e.eval(x.X), x.Sel.Name)
	case *ast.TypeAssertExpr:
		v := e.eval(x.X)
		t, err := e.ex.C.typeOf(x.Type, e.pkg)
		if err != nil {
			e.bad("%v", err)
		}
		return SVal{e.ex.unbox(e.st, v.V.T, t), t}
	case *ast.IndexExpr:
		b := e.eval(x.X)
		i := e.eval(x.Index)
		return e.index(b, i)
	case *ast.SliceExpr:
		b := e.eval(x.X)
		lo := tZero
		if x.Low != nil {
			lo = e.term(x.Low)
		}
		if b.V.K == 's' {
			hi := SLen(b.V.T)
			if x.High != nil {
				hi = e.term(x.High)
			}
			return SVal{sv(SSub(b.V.T, lo, hi)), b.T}
		}
		hi := b.V.len()
		if x.High != nil {
			hi = e.term(x.High)
		}
		return SVal{mkSlice(b.V.arr(), Add(b.V.off(), lo), Sub(hi, lo)), b.T}
	case *ast.UnaryExpr:
		v := e.eval(x.X)
		switch x.Op {
		case token.NOT:
			return SVal{sv(Not(v.V.T)), tBool}
		case token.SUB:
			return SVal{sv(Neg(v.V.T)), v.T}
		}
	case *ast.BinaryExpr:
		switch x.Op {
		case token.LAND:
			a := e.bool(x.X)
			if a.Op == "false" {
				return SVal{sv(tFalse), tBool}
			}
			return SVal{sv(And(a, e.bool(x.Y))), tBool}
		case token.LOR:
			a := e.bool(x.X)
			if a.Op == "true" {
				return SVal{sv(tTrue), tBool}
			}
			return SVal{sv(Or(a, e.bool(x.Y))), tBool}
		}
		a, b := e.eval(x.X), e.eval(x.Y)
		return e.binary(x.Op, a, b)
	case *ast.CallExpr:
		return e.call(x)
	}
	e.bad("expression %T", x)
	return SVal{}
}

func (ex *Exec) constVal2(v constant.Value) Val {
	switch v.Kind() {
	case constant.Int:
		n, _ := bigFromString(v.ExactString())
		return sv(IntB(n))
	case constant.String:
		return sv(StrLit(constant.StringVal(v)))
	case constant.Bool:
		if constant.BoolVal(v) {
			return sv(tTrue)
		}
		return sv(tFalse)
	case constant.Float:
		return sv(Sym("flt!"+v.ExactString(), SFlt))
	}
	panic(unsupported("constant"))
}

func (e *SpecEnv) object(o types.Object) SVal {
	switch o := o.(type) {
	case *types.Const:
		return SVal{e.ex.constVal2(o.Val()), o.Type()}
	case *types.Var:
		for _, p := range e.ex.P.pkgs {
			if p.Pkg == o.Pkg() {
				if g := p.Var(o.Name()); g != nil {
					return SVal{e.ex.load(e.st, &Loc{kind: "global", region: globRegion(g, ""), T: deref(g.Type()), glob: g}), o.Type()}
				}
			}
		}
		// global of a dependency
		return SVal{sv(e.ex.extGlobal(e.st, o)), o.Type()}
	}
	e.bad("object %s", o)
	return SVal{}
}

// extGlobal: the value of an external package-level variable (assumed constant).
func (ex *Exec) extGlobal(st *State, o types.Object) *Term {
	s, ok := sortOf(o.Type())
	if !ok {
		panic(unsupported("external global " + o.String()))
	}
	return Sym("G:"+o.Pkg().Name()+"."+o.Name(), s)
}

func (e *SpecEnv) note(region string) {
	if e.track != nil && e.ex.P.mutable[region] {
		e.track[region] = true
	}
}

func (e *SpecEnv) field(b SVal, name string) SVal {
	if b.T == nil {
		e.bad("field %s of nil", name)
	}
	obj, idx, _ := types.LookupFieldOrMethod(b.T, true, nil, name)
	if obj == nil {
		// unexported: need the package
		t := deref(b.T)
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			obj, idx, _ = types.LookupFieldOrMethod(b.T, true, n.Obj().Pkg(), name)
		}
	}
	f, ok := obj.(*types.Var)
	if !ok {
		e.bad("no field %s in %s", name, b.T)
	}
	cur := b
	for _, i := range idx {
		if pt, ok := cur.T.Underlying().(*types.Pointer); ok {
			st := pt.Elem()
			fl := st.Underlying().(*types.Struct).Field(i)
			if cur.V.K == 'a' {
				l := *cur.V.L
				l.T = fl.Type()
				l.region += "." + fl.Name()
				cur = SVal{e.ex.load(e.st, &l), fl.Type()}
				continue
			}
			l := &Loc{kind: "field", base: cur.V.T, region: fieldRegion(st, "."+fl.Name()), T: fl.Type()}
			for _, lf := range leaves(fl.Type()) {
				e.note(l.region + lf.Suf)
			}
			cur = SVal{e.loadq(l), fl.Type()}
			continue
		}
		stt := cur.T.Underlying().(*types.Struct)
		cur = SVal{cur.V.F[i], stt.Field(i).Type()}
	}
	_ = f
	return cur
}

// loadq loads without recording facts when the base contains bound variables.
func (e *SpecEnv) loadq(l *Loc) Val {
	if l.base != nil && l.base.bnd || l.idx != nil && l.idx.bnd {
		ls := leaves(l.T)
		i := 0
		return buildVal(l.T, func() *Term {
			lf := ls[i]
			i++
			region := l.region + lf.Suf
			if l.kind == "elem" {
				return Select(e.ex.elemContent(e.st, l.base, region, lf.S), l.idx)
			}
			return Select(e.ex.heapGet(e.st, region, ArrSort(SInt, lf.S)), l.base)
		})
	}
	return e.ex.load(e.st, l)
}

func (e *SpecEnv) index(b, i SVal) SVal {
	if b.T == nil {
		e.bad("index of nil")
	}
	switch u := b.T.Underlying().(type) {
	case *types.Basic:
		return SVal{sv(SAt(b.V.T, i.V.T)), tInt}
	case *types.Slice:
		l := &Loc{kind: "elem", base: b.V.arr(), idx: Add(b.V.off(), i.V.T), region: elemRegion(u.Elem(), ""), T: u.Elem()}
		for _, lf := range leaves(u.Elem()) {
			e.note(l.region + lf.Suf)
		}
		return SVal{e.loadq(l), u.Elem()}
	case *types.Map:
		k := e.ex.mapKey(e.st, u, i.V)
		e.noteMap(u)
		_, v := e.ex.mapGet(e.st, u, b.V.T, k)
		return SVal{v, u.Elem()}
	}
	e.bad("index of %s", b.T)
	return SVal{}
}

func (e *SpecEnv) noteMap(u *types.Map) {
	e.note(mapDomRegion(u))
	for _, l := range leaves(u.Elem()) {
		e.note(mapValRegion(u, l.Suf))
	}
}

func (e *SpecEnv) binary(op token.Token, a, b SVal) SVal {
	switch op {
	case token.EQL, token.NEQ:
		t := e.equal(a, b)
		if op == token.NEQ {
			t = Not(t)
		}
		return SVal{sv(t), tBool}
	}
	if a.V.K != 's' || b.V.K != 's' {
		e.bad("operands of %s", op)
	}
	x, y := a.V.T, b.V.T
	switch op {
	case token.LSS:
		return SVal{sv(Lt(x, y)), tBool}
	case token.LEQ:
		return SVal{sv(Le(x, y)), tBool}
	case token.GTR:
		return SVal{sv(Lt(y, x)), tBool}
	case token.GEQ:
		return SVal{sv(Le(y, x)), tBool}
	case token.ADD:
		if x.S == SStr {
			return SVal{sv(SCat(x, y)), a.T}
		}
		return SVal{sv(Add(x, y)), tInt}
	case token.SUB:
		return SVal{sv(Sub(x, y)), tInt}
	case token.MUL:
		return SVal{sv(Mul(x, y)), tInt}
	case token.QUO:
		return SVal{sv(EDiv(x, y)), tInt}
	case token.REM:
		return SVal{sv(EMod(x, y)), tInt}
	}
	e.bad("operator %s", op)
	return SVal{}
}

func (e *SpecEnv) equal(a, b SVal) *Term {
	if a.V.K == 'l' && b.V.K == 'l' {
		return And(Eq(a.V.arr(), b.V.arr()), Eq(a.V.off(), b.V.off()), Eq(a.V.len(), b.V.len()))
	}
	return e.ex.eqVal(e.st, a.V, b.V, nil)
}

func (e *SpecEnv) at(st *State, vars map[string]SVal) *SpecEnv {
	n := *e
	n.st = st
	n.vars = vars
	return &n
}

func (e *SpecEnv) call(x *ast.CallExpr) SVal {
	if id, ok := x.Fun.(*ast.Ident); ok {
		switch id.Name {
		case "old":
			vars := e.vars
			if e.ovars != nil {
				vars = e.ovars
			}
			return e.at(e.old, vars).eval(x.Args[0])
		case "entry":
			vars := e.vars
			if e.evars != nil {
				vars = map[string]SVal{}
				for k, v := range e.vars {
					vars[k] = v
				}
				for k, v := range e.evars {
					vars[k] = v
				}
			}
			if e.entry == nil {
				e.bad("entry outside a loop")
			}
			return e.at(e.entry, vars).eval(x.Args[0])
		case "len":
			v := e.eval(x.Args[0])
			if v.V.K == 'l' {
				return SVal{sv(v.V.len()), tInt}
			}
			return SVal{sv(SLen(v.V.T)), tInt}
		case "ite":
			c := e.bool(x.Args[0])
			if c.Op == "true" {
				return e.eval(x.Args[1])
			}
			if c.Op == "false" {
				return e.eval(x.Args[2])
			}
			a, b := e.eval(x.Args[1]), e.eval(x.Args[2])
			t := a.T
			if t == nil {
				t = b.T
			}
			return SVal{e.ex.iteVal(c, e.norm(a), e.norm(b)), t}
		case "imp":
			a := e.bool(x.Args[0])
			if a.Op == "false" {
				return SVal{sv(tTrue), tBool}
			}
			return SVal{sv(Imp(a, e.bool(x.Args[1]))), tBool}
		case "iff":
			return SVal{sv(Eq(e.bool(x.Args[0]), e.bool(x.Args[1]))), tBool}
		case "typeis":
			v := e.eval(x.Args[0])
			t, err := e.ex.C.typeOf(x.Args[1], e.pkg)
			if err != nil {
				e.bad("%v", err)
			}
			return SVal{sv(e.ex.typeTest(e.st, v.V.T, t)), tBool}
		case "dyn":
			return SVal{sv(App("dyn", SInt, e.term(x.Args[0]))), tInt}
		case "fresh":
			v := e.term(x.Args[0])
			return SVal{sv(Lt(e.old.top, v)), tBool}
		case "allocated":
			v := e.term(x.Args[0])
			return SVal{sv(And(Lt(tZero, v), Le(v, e.st.top))), tBool}
		case "has":
			m := e.eval(x.Args[0])
			u := m.T.Underlying().(*types.Map)
			e.noteMap(u)
			ok, _ := e.ex.mapGet(e.st, u, m.V.T, e.ex.mapKey(e.st, u, e.eval(x.Args[1]).V))
			return SVal{sv(ok), tBool}
		case "forall":
			// forall(i, lo, hi, body)
			nm := x.Args[0].(*ast.Ident).Name
			lo, hi := e.term(x.Args[1]), e.term(x.Args[2])
			e.ex.nsym++
			bv := Bound(fmt.Sprintf("%s!%d", nm, e.depth), SInt)
			n := e.bind(nm, SVal{sv(bv), tInt})
			n.depth++
			body := n.bool(x.Args[3])
			return SVal{sv(forallInt(bv, lo, hi, body)), tBool}
		case "allstr":
			// allstr(k, body): for every string k
			nm := x.Args[0].(*ast.Ident).Name
			bv := Bound(fmt.Sprintf("%s!%d", nm, e.depth), SStr)
			n := e.bind(nm, SVal{sv(bv), tStr})
			n.depth++
			return SVal{sv(Forall([]*Term{bv}, n.bool(x.Args[1]))), tBool}
		case "allref":
			// allref(r, T, body): for every reference r of type T
			nm := x.Args[0].(*ast.Ident).Name
			t, err := e.ex.C.typeOf(x.Args[1], e.pkg)
			if err != nil {
				e.bad("%v", err)
			}
			so, _ := sortOf(t)
			bv := Bound(fmt.Sprintf("%s!%d", nm, e.depth), so)
			n := e.bind(nm, SVal{sv(bv), t})
			n.depth++
			return SVal{sv(Forall([]*Term{bv}, n.bool(x.Args[2]))), tBool}
		case "int", "uint32", "uint", "int64", "uint8", "byte", "string", "uint64":
			return e.eval(x.Args[0])
		case "wrap32":
			return SVal{sv(wrapInt(e.term(x.Args[0]), types.Typ[types.Uint32])), tInt}
		case "toint64":
			return SVal{sv(convInt(e.term(x.Args[0]), types.Typ[types.Uint64], types.Typ[types.Int64])), tInt}
		case "chr":
			return SVal{sv(SChr(e.term(x.Args[0]))), tStr}
		case "runestr":
			c := e.term(x.Args[0])
			return SVal{sv(Ite(And(Le(tZero, c), Lt(c, Int(128))), SChr(c), App("utf8", SStr, c))), tStr}
		case "fnid":
			// fnid(x) == fnconst("pkg.(*T).m$bound")
			return SVal{sv(App("fnid", SInt, e.term(x.Args[0]))), tInt}
		case "fnrecv":
			t, err := e.ex.C.typeOf(x.Args[1], e.pkg)
			if err != nil {
				e.bad("%v", err)
			}
			return SVal{sv(App("fnrecv", SInt, e.term(x.Args[0]))), t}
		case "fnconst":
			key := constant.StringVal(constant.MakeFromLiteral(x.Args[0].(*ast.BasicLit).Value, token.STRING, 0))
			// a method value: "pkg.(*T).m$bound"; a name the code does not have is nobody's
			if m := strings.TrimSuffix(key, "$bound"); m != key {
				for _, k := range sortedKeys(e.ex.P.fvals) {
					for _, f := range e.ex.P.fvals[k] {
						if o, ok := f.Object().(*types.Func); ok && strings.HasPrefix(f.Synthetic, "bound") {
							if g := e.ex.P.prog.FuncValue(o); g != nil && e.ex.P.Key(g) == m {
								return SVal{sv(Int(int64(e.ex.P.fnID(f)))), tInt}
							}
						}
					}
				}
				h := fnv.New32()
				h.Write([]byte(key))
				return SVal{sv(Int(-2 - int64(h.Sum32()))), tInt}
			}
			fs := e.ex.P.byKey[key]
			if len(fs) == 0 {
				e.bad("no function %s", key)
			}
			return SVal{sv(Int(int64(e.ex.P.fnID(fs[0])))), tInt}
		case "samefield":
			// samefield(T, field): the region is unchanged since old
			e.bad("samefield")
		case "let":
			// let(name, value, body)
			nm := x.Args[0].(*ast.Ident).Name
			v := e.eval(x.Args[1])
			n := e.bind(nm, v)
			return n.eval(x.Args[2])
		case "ptr":
			// ptr(x, *T): reinterpret a reference
			t, err := e.ex.C.typeOf(x.Args[1], e.pkg)
			if err != nil {
				e.bad("%v", err)
			}
			return SVal{sv(e.term(x.Args[0])), t}
		}
		if f := e.ex.C.Fns[id.Name]; f != nil {
			var args []SVal
			for _, a := range x.Args {
				args = append(args, e.eval(a))
			}
			return e.callSpec(f, args)
		}
		e.bad("unknown function %s", id.Name)
	}
	e.bad("call")
	return SVal{}
}

func (e *SpecEnv) norm(v SVal) Val {
	if v.V.K == 's' || v.V.K == 't' || v.V.K == 'l' {
		return v.V
	}
	return sv(e.ex.scalar(e.st, v.V))
}

func (e *SpecEnv) callSpec(f *SpecFn, args []SVal) SVal {
	if len(args) != len(f.Params) {
		e.bad("%s: %d arguments", f.Name, len(args))
	}
	for i, a := range args {
		// a pointer passed as an interface value: its dynamic type is its static type
		if a.T == nil || f.PTypes[i] == nil || !types.IsInterface(f.PTypes[i]) || a.V.K != 's' || a.V.T.bnd {
			continue
		}
		if _, ok := a.T.Underlying().(*types.Pointer); ok {
			p := e.ex.scalar(e.st, a.V)
			if p != tZero && p.fr == 0 {
				e.st.assume1raw(Imp(Not(Eq(p, tZero)), Eq(App("dyn", SInt, p), Int(int64(e.ex.P.Tag(a.T))))))
			}
		}
	}
	switch f.Kind {
	case "macro":
		vars := map[string]SVal{}
		for i, p := range f.Params {
			t := args[i].T
			if t == nil || types.IsInterface(f.PTypes[i]) || isRefType(f.PTypes[i]) {
				t = f.PTypes[i]
			}
			vars[p] = SVal{args[i].V, t}
		}
		n := *e
		n.vars = vars
		n.evars = nil
		n.ovars = nil
		n.pkg = f.Pkg
		n.depth = e.depth + 1
		if n.depth > 60 {
			e.bad("macro recursion in %s", f.Name)
		}
		r := n.eval(f.Body)
		if r.T == nil || isRefType(f.Res) {
			r.T = f.Res
		}
		return r
	}
	var ts []*Term
	for i, a := range args {
		v := e.norm(a)
		if a.T == nil && f.PTypes[i] != nil {
			if _, ok := f.PTypes[i].Underlying().(*types.Slice); ok {
				v = mkSlice(tZero, tZero, tZero)
			}
		}
		ts = append(ts, flat(v)...)
	}
	if f.Kind == "rec" {
		for _, r := range e.ex.C.recRegions(e.ex, f) {
			e.note(r)
			ts = append(ts, e.ex.heapGet(e.st, r, e.ex.P.rsort[r]))
		}
	}
	ls := leaves(f.Res)
	if len(ls) != 1 {
		e.bad("%s: result must be scalar", f.Name)
	}
	var t *Term
	if len(ts) == 0 {
		t = Sym("spec!"+f.Name, ls[0].S)
	} else {
		t = App("spec!"+f.Name, ls[0].S, ts...)
	}
	return SVal{sv(t), f.Res}
}

// recRegions: the mutable heap regions a recursive specification function reads.
func (C *Contracts) recRegions(ex *Exec, f *SpecFn) []string { return f.Regions }

// computeRecRegions fills Regions of all recursive specification functions.
func (C *Contracts) computeRecRegions(P *Program, pool *Pool) error {
	direct := map[*SpecFn]map[string]bool{}
	callees := map[*SpecFn]map[*SpecFn]bool{}
	var names []string
	for n := range C.Fns {
		names = append(names, n)
	}
	sort.Strings(names)
	var firstErr error
	for _, n := range names {
		g := C.Fns[n]
		if g.Kind != "rec" {
			continue
		}
		d := &Exec{P: P, C: C, pool: pool, prefix: "dummy!" + n + "!", closures: map[*Term]Val{}, recDummy: true, noPrune: true, used: map[string]bool{}}
		st := newState(d.prefix)
		vars := map[string]SVal{}
		for i, p := range g.Params {
			vars[p] = SVal{d.freshVal(st, g.PTypes[i], p), g.PTypes[i]}
		}
		env := &SpecEnv{ex: d, st: st, old: st, vars: vars, pkg: g.Pkg, track: map[string]bool{}}
		func() {
			defer func() {
				if r := recover(); r != nil {
					u, ok := r.(unsupported)
					if !ok {
						panic(r)
					}
					if firstErr == nil {
						firstErr = fmt.Errorf("rec %s: %s", n, u)
					}
				}
			}()
			env.eval(g.Body)
		}()
		direct[g] = env.track
		callees[g] = map[*SpecFn]bool{}
		seen := map[*SpecFn]bool{}
		var calls func(n ast.Node)
		calls = func(n ast.Node) {
			ast.Inspect(n, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok {
						if h := C.Fns[id.Name]; h != nil && h.Kind == "rec" {
							callees[g][h] = true
						} else if h != nil && h.Kind == "macro" && !seen[h] {
							seen[h] = true
							calls(h.Body)
						}
					}
				}
				if id, ok := n.(*ast.Ident); ok {
					if h := C.Fns[id.Name]; h != nil && h.Kind == "macro" && len(h.Params) == 0 && !seen[h] {
						seen[h] = true
						calls(h.Body)
					}
				}
				return true
			})
		}
		calls(g.Body)
	}
	for changed := true; changed; {
		changed = false
		for g, cs := range callees {
			for h := range cs {
				for r := range direct[h] {
					if !direct[g][r] {
						direct[g][r] = true
						changed = true
					}
				}
			}
		}
	}
	for g, rs := range direct {
		g.Regions = sortedKeys(rs)
		g.regDone = true
	}
	return firstErr
}

// forallInt builds a bounded quantifier. When the variable only indexes one array at a
// fixed offset the quantifier ranges over absolute positions, so that it has a pattern.
func forallInt(bv, lo, hi, body *Term) *Term {
	var off *Term
	okOff := true
	var sels []*Term
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] || !t.bnd {
			return
		}
		seen[t.id] = true
		for _, a := range t.Args {
			rec(a)
		}
		if t.Op == "select" || t.Op == "app" && t.Name == "sat" {
			i := t.Args[1]
			if t.Args[0].bnd || !i.bnd {
				return
			}
			var o *Term
			switch {
			case i == bv:
				o = tZero
			case i.Op == "+" && i.Args[1] == bv && !i.Args[0].bnd:
				o = i.Args[0]
			case i.Op == "+" && i.Args[0] == bv && !i.Args[1].bnd:
				o = i.Args[1]
			default:
				return
			}
			if off == nil {
				off = o
			} else if off != o {
				okOff = false
			}
			sels = append(sels, t)
		}
	}
	rec(body)
	if okOff && off != nil && off != tZero {
		// i = j - off
		m := map[*Term]*Term{Add(off, bv): bv, bv: Sub(bv, off)}
		body = subst(body, m)
		lo, hi = Add(off, lo), Add(off, hi)
		seen = map[int]bool{}
		sels, off = nil, nil
		rec(body)
	}
	full := Imp(And(Le(lo, bv), Lt(bv, hi)), body)
	if okOff && len(sels) > 0 {
		// the innermost application is the pattern
		return Forall([]*Term{bv}, full, sels[0])
	}
	return Forall([]*Term{bv}, full)
}

// bind: the environment with one more name, in the current state and in the earlier ones.
func (e *SpecEnv) bind(nm string, v SVal) *SpecEnv {
	with := func(m map[string]SVal) map[string]SVal {
		if m == nil {
			return nil
		}
		r := map[string]SVal{}
		for k, w := range m {
			r[k] = w
		}
		r[nm] = v
		return r
	}
	n := *e
	n.vars, n.ovars, n.evars = with(e.vars), with(e.ovars), with(e.evars)
	return &n
}
