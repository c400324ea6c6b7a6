package main

// SMT terms: hash-consed DAG with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
	SFlt  Sort = "Flt"
)

func ArrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// arrParts splits an array sort into key and value sorts.
func arrParts(s Sort) (Sort, Sort) {
	str := strings.TrimSuffix(strings.TrimPrefix(string(s), "(Array "), ")")
	depth := 0
	for i, c := range str {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(str[:i]), Sort(str[i+1:])
			}
		}
	}
	panic("bad array sort " + string(s))
}

type Term struct {
	Op   string // "sym","int","true","false","app", or builtin operator
	Name string // symbol / function name
	Args []*Term
	S    Sort
	N    *big.Int
	id   int
	fr   int  // >0: fresh reference constant with this serial
	pre  int  // for reference symbols that existed before: bound on fresh serial (valid if >=0 and hasPre)
	hp   bool // hasPre
	bnd  bool // contains bound variable
	meta *havocMeta
	lit  string // for string literal symbols
	isL  bool
}

type havocMeta struct {
	prev *Term
	top  *Term   // refs <= top are kept ...
	wr   []*Term // ... unless listed here
	any  bool
}

var (
	internMu  sync.Mutex
	internTab = map[string]*Term{}
	termCount int
)

func mk(op, name string, s Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(string(s))
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	key := sb.String()
	internMu.Lock()
	defer internMu.Unlock()
	if t, ok := internTab[key]; ok {
		return t
	}
	termCount++
	t := &Term{Op: op, Name: name, Args: args, S: s, id: termCount}
	for _, a := range args {
		if a.bnd {
			t.bnd = true
		}
	}
	if op == "bound" {
		t.bnd = true
	}
	if op == "forall" {
		t.bnd = false
		// closed if all bound occurrences are its own variable
		t.bnd = hasOtherBound(t)
	}
	internTab[key] = t
	return t
}

func hasOtherBound(t *Term) bool {
	var rec func(x *Term, names map[string]bool, seen map[int]bool) bool
	rec = func(x *Term, names map[string]bool, seen map[int]bool) bool {
		if x != t && (!x.bnd || seen[x.id]) {
			return false
		}
		seen[x.id] = true
		if x.Op == "bound" {
			return !names[x.Name]
		}
		if x.Op == "forall" {
			inner := map[string]bool{}
			for n := range names {
				inner[n] = true
			}
			for _, n := range strings.Split(x.Name, ",") {
				inner[n] = true
			}
			names, seen = inner, map[int]bool{}
		}
		for _, a := range x.Args {
			if rec(a, names, seen) {
				return true
			}
		}
		return false
	}
	return rec(t, map[string]bool{}, map[int]bool{})
}

var (
	tTrue  = mk("true", "", SBool)
	tFalse = mk("false", "", SBool)
)

func IntB(n *big.Int) *Term {
	t := mk("int", n.String(), SInt)
	if t.N == nil {
		internMu.Lock()
		t.N = new(big.Int).Set(n)
		internMu.Unlock()
	}
	return t
}
func Int(n int64) *Term { return IntB(big.NewInt(n)) }

var tZero = Int(0)
var tOne = Int(1)

func Sym(name string, s Sort) *Term { return mk("sym", name, s) }
func Bound(name string, s Sort) *Term {
	return mk("bound", name, s)
}

func App(name string, s Sort, args ...*Term) *Term {
	return mk("app", name, s, args...)
}

func (t *Term) isConstInt() bool { return t.Op == "int" }

// String literal constants.
var litMu sync.Mutex
var litTab = map[string]int{}

func StrLit(s string) *Term {
	litMu.Lock()
	id, ok := litTab[s]
	if !ok {
		id = len(litTab) + 1
		litTab[s] = id
	}
	litMu.Unlock()
	t := mk("sym", fmt.Sprintf("lit!%d", id), SStr)
	internMu.Lock()
	t.lit, t.isL = s, true
	internMu.Unlock()
	return t
}

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.Args[0]
	}
	return mk("not", "", SBool, a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.Op == "false" {
			return false
		}
		if t.Op == "true" || seen[t.id] {
			return true
		}
		if t.Op == "and" {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "", SBool, out...)
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.Op == "true" {
			return false
		}
		if t.Op == "false" || seen[t.id] {
			return true
		}
		if t.Op == "or" {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return tTrue
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", "", SBool, out...)
}

func Imp(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c.Op == "true" || a == b {
		return a
	}
	if c.Op == "false" {
		return b
	}
	if a.S == SBool {
		if a.Op == "true" && b.Op == "false" {
			return c
		}
		if a.Op == "false" && b.Op == "true" {
			return Not(c)
		}
		if a.Op == "true" {
			return Or(c, b)
		}
		if a.Op == "false" {
			return And(Not(c), b)
		}
		if b.Op == "true" {
			return Or(Not(c), a)
		}
		if b.Op == "false" {
			return And(c, a)
		}
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	return mk("ite", "", a.S, c, a, b)
}

func isConst(t *Term) bool {
	return t.Op == "int" || t.isL || t.Op == "true" || t.Op == "false"
}

// distinctSyn reports terms that are certainly different.
func distinctSyn(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.Op == "int" && b.Op == "int" {
		return true
	}
	if a.isL && b.isL {
		return true
	}
	if a.fr > 0 && b.fr > 0 {
		return true
	}
	if a.fr > 0 && (b.Op == "int" && b.N.Sign() <= 0 || b.hp && b.pre < a.fr) {
		return true
	}
	if b.fr > 0 && (a.Op == "int" && a.N.Sign() <= 0 || a.hp && a.pre < b.fr) {
		return true
	}
	// x+c vs x+d
	ab, ac := splitAdd(a)
	bb, bc := splitAdd(b)
	if a.S == SInt && ab == bb && ac.Cmp(bc) != 0 {
		return true
	}
	return false
}

func splitAdd(t *Term) (*Term, *big.Int) {
	if t.Op == "+" && len(t.Args) == 2 && t.Args[1].Op == "int" {
		return t.Args[0], t.Args[1].N
	}
	return t, big.NewInt(0)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.S != b.S {
		panic(fmt.Sprintf("Eq sort mismatch %s %s: %s / %s", a.S, b.S, a, b))
	}
	if distinctSyn(a, b) {
		return tFalse
	}
	if a.S == SBool {
		if a.Op == "true" {
			return b
		}
		if b.Op == "true" {
			return a
		}
		if a.Op == "false" {
			return Not(b)
		}
		if b.Op == "false" {
			return Not(a)
		}
	}
	// ite over constants: push comparison in
	if isConst(b) && a.Op == "ite" && (isConst(a.Args[1]) || isConst(a.Args[2])) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if isConst(a) && b.Op == "ite" && (isConst(b.Args[1]) || isConst(b.Args[2])) {
		return Ite(b.Args[0], Eq(b.Args[1], a), Eq(b.Args[2], a))
	}
	if isConst(a) || (!isConst(b) && a.id > b.id) {
		a, b = b, a
	}
	return mk("=", "", SBool, a, b)
}

func Add(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" {
		return IntB(new(big.Int).Add(a.N, b.N))
	}
	if a.Op == "int" {
		a, b = b, a
	}
	if b.Op == "int" {
		if b.N.Sign() == 0 {
			return a
		}
		if a.Op == "+" && len(a.Args) == 2 && a.Args[1].Op == "int" {
			return Add(a.Args[0], IntB(new(big.Int).Add(a.Args[1].N, b.N)))
		}
		return mk("+", "", SInt, a, b)
	}
	if b.Op == "+" && len(b.Args) == 2 && b.Args[1].Op == "int" {
		return Add(Add(a, b.Args[0]), b.Args[1])
	}
	if a.Op == "+" && len(a.Args) == 2 && a.Args[1].Op == "int" {
		return Add(Add(a.Args[0], b), a.Args[1])
	}
	if a.Op == "-" && len(a.Args) == 2 && a.Args[1] == b {
		return a.Args[0]
	}
	if b.Op == "-" && len(b.Args) == 2 && b.Args[1] == a {
		return b.Args[0]
	}
	return mk("+", "", SInt, a, b)
}

func Sub(a, b *Term) *Term {
	if a == b {
		return tZero
	}
	if b.Op == "int" {
		return Add(a, IntB(new(big.Int).Neg(b.N)))
	}
	ab, ac := splitAdd(a)
	bb, bc := splitAdd(b)
	if ac.Sign() != 0 || bc.Sign() != 0 {
		return Add(Sub(ab, bb), IntB(new(big.Int).Sub(ac, bc)))
	}
	return mk("-", "", SInt, a, b)
}

func Mul(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" {
		return IntB(new(big.Int).Mul(a.N, b.N))
	}
	if a.Op == "int" {
		a, b = b, a
	}
	if b.Op == "int" {
		if b.N.Sign() == 0 {
			return tZero
		}
		if b.N.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		return mk("*", "", SInt, a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("*", "", SInt, a, b)
}

// Euclidean div/mod of SMT-LIB.
func EDiv(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.N.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.N, b.N, new(big.Int))
		return IntB(q)
	}
	if b.Op == "int" && b.N.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return mk("div", "", SInt, a, b)
}
func EMod(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.N.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.N, b.N, new(big.Int))
		return IntB(m)
	}
	return mk("mod", "", SInt, a, b)
}

func Neg(a *Term) *Term { return Sub(tZero, a) }

func Lt(a, b *Term) *Term { return Not(Le(b, a)) }
func Le(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Op == "int" && b.Op == "int" {
		if a.N.Cmp(b.N) <= 0 {
			return tTrue
		}
		return tFalse
	}
	ab, ac := splitAdd(a)
	bb, bc := splitAdd(b)
	if ab == bb {
		if ac.Cmp(bc) <= 0 {
			return tTrue
		}
		return tFalse
	}
	return mk("<=", "", SBool, a, b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Select(h, i *Term) *Term {
	_, v := arrParts(h.S)
	for {
		if h.Op == "store" {
			if h.Args[1] == i {
				return h.Args[2]
			}
			if distinctSyn(h.Args[1], i) {
				h = h.Args[0]
				continue
			}
		}
		if h.Op == "constarr" {
			return h.Args[0]
		}
		if h.meta != nil && !h.meta.any && i.hp && h.meta.top != nil && h.meta.top.fr > 0 && i.pre <= h.meta.top.fr {
			// reference known to predate the havoc
			ok := true
			for _, w := range h.meta.wr {
				if !distinctSyn(w, i) {
					ok = false
				}
			}
			if ok {
				h = h.meta.prev
				continue
			}
		}
		break
	}
	return mk("select", "", v, h, i)
}

func Store(h, i, v *Term) *Term {
	if h.Op == "store" && h.Args[1] == i {
		h = h.Args[0]
	}
	if v.Op == "select" && v.Args[0] == h && v.Args[1] == i {
		return h
	}
	return mk("store", "", h.S, h, i, v)
}

func ConstArr(s Sort, v *Term) *Term { return mk("constarr", "", s, v) }

func Forall(vars []*Term, body *Term, pats ...*Term) *Term {
	if body.Op == "true" || body.Op == "false" {
		return body
	}
	var names []string
	for _, v := range vars {
		names = append(names, v.Name)
	}
	args := append([]*Term{body}, vars...)
	if len(pats) > 0 {
		args = append(args, mk("pats", "", SBool, pats...))
	}
	return mk("forall", strings.Join(names, ","), SBool, args...)
}

func subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := cache[t.id]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		cache[t.id] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "=":
		return Eq(a[0], a[1])
	case "+":
		return Add(a[0], a[1])
	case "-":
		return Sub(a[0], a[1])
	case "*":
		return Mul(a[0], a[1])
	case "div":
		return EDiv(a[0], a[1])
	case "mod":
		return EMod(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "app":
		return AppS(t.Name, t.S, a...)
	}
	return mk(t.Op, t.Name, t.S, a...)
}

// AppS: application with simplification for the known string functions.
func AppS(name string, s Sort, a ...*Term) *Term {
	switch name {
	case "slen":
		return SLen(a[0])
	case "sat":
		return SAt(a[0], a[1])
	case "cat":
		return SCat(a[0], a[1])
	case "ssub":
		return SSub(a[0], a[1], a[2])
	case "chr":
		return SChr(a[0])
	}
	return App(name, s, a...)
}

// ---- strings
func SLen(s *Term) *Term {
	if s.isL {
		return Int(int64(len(s.lit)))
	}
	if s.Op == "app" {
		switch s.Name {
		case "cat":
			return Add(SLen(s.Args[0]), SLen(s.Args[1]))
		case "chr":
			return tOne
		}
	}
	return App("slen", SInt, s)
}

func SAt(s, i *Term) *Term {
	if s.isL && i.Op == "int" && i.N.IsInt64() {
		k := i.N.Int64()
		if k >= 0 && k < int64(len(s.lit)) {
			return Int(int64(s.lit[k]))
		}
	}
	if s.Op == "app" && s.Name == "chr" && i == tZero {
		return s.Args[0]
	}
	return App("sat", SInt, s, i)
}

func SCat(a, b *Term) *Term {
	if a.isL && a.lit == "" {
		return b
	}
	if b.isL && b.lit == "" {
		return a
	}
	if a.isL && b.isL {
		return StrLit(a.lit + b.lit)
	}
	// right-associate
	if a.Op == "app" && a.Name == "cat" {
		return SCat(a.Args[0], SCat(a.Args[1], b))
	}
	if a.isL && b.Op == "app" && b.Name == "cat" && b.Args[0].isL {
		return SCat(StrLit(a.lit+b.Args[0].lit), b.Args[1])
	}
	return App("cat", SStr, a, b)
}

func SSub(s, a, b *Term) *Term {
	if a == tZero && b == SLen(s) {
		return s
	}
	if s.isL && a.Op == "int" && b.Op == "int" {
		x, y := a.N.Int64(), b.N.Int64()
		if 0 <= x && x <= y && y <= int64(len(s.lit)) {
			return StrLit(s.lit[x:y])
		}
	}
	return App("ssub", SStr, s, a, b)
}

func SChr(c *Term) *Term {
	if c.Op == "int" && c.N.IsInt64() && c.N.Int64() >= 0 && c.N.Int64() < 256 {
		return StrLit(string([]byte{byte(c.N.Int64())}))
	}
	return App("chr", SStr, c)
}

// ---- printing

func (t *Term) String() string { return t.show(6) }

func (t *Term) show(d int) string {
	switch t.Op {
	case "sym", "bound":
		if t.isL {
			return fmt.Sprintf("%q", t.lit)
		}
		return t.Name
	case "int":
		return t.Name
	case "true", "false":
		return t.Op
	}
	if d == 0 {
		return "…"
	}
	var p []string
	for _, a := range t.Args {
		p = append(p, a.show(d-1))
	}
	op := t.Op
	if op == "app" {
		op = t.Name
	}
	if op == "forall" {
		op = "forall[" + t.Name + "]"
	}
	return "(" + op + " " + strings.Join(p, " ") + ")"
}

func smtName(n string) string {
	return "|" + strings.ReplaceAll(n, "|", "!") + "|"
}

// printQuery renders the assertions as SMT-LIB2 commands (declarations included).
func printQuery(asserts []*Term) string {
	var sb strings.Builder
	refs := map[int]int{}
	order := []*Term{}
	seen := map[int]bool{}
	syms := map[string]*Term{}
	funs := map[string]*Term{}
	var walk func(t *Term)
	walk = func(t *Term) {
		refs[t.id]++
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.Args {
			walk(a)
		}
		switch t.Op {
		case "sym":
			syms[t.Name+"/"+string(t.S)] = t
		case "app":
			k := t.Name
			if len(t.Args) == 0 {
				syms[t.Name+"/"+string(t.S)] = t
			} else {
				funs[k] = t
			}
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		walk(a)
	}
	sb.WriteString("(declare-sort Str 0)\n(declare-sort Flt 0)\n")
	var keys []string
	for k := range syms {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		t := syms[k]
		fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", smtName(t.Name), t.S)
	}
	keys = keys[:0]
	for k := range funs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		t := funs[k]
		var as []string
		for _, a := range t.Args {
			as = append(as, string(a.S))
		}
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", smtName(t.Name), strings.Join(as, " "), t.S)
	}
	names := map[int]string{}
	var render func(t *Term, sb *strings.Builder)
	body := func(t *Term, sb *strings.Builder) {
		switch t.Op {
		case "sym", "bound":
			sb.WriteString(smtName(t.Name))
		case "int":
			if t.N.Sign() < 0 {
				fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(t.N).String())
			} else {
				sb.WriteString(t.N.String())
			}
		case "true", "false":
			sb.WriteString(t.Op)
		case "constarr":
			fmt.Fprintf(sb, "((as const %s) ", t.S)
			render(t.Args[0], sb)
			sb.WriteString(")")
		case "app":
			if len(t.Args) == 0 {
				sb.WriteString(smtName(t.Name))
				return
			}
			sb.WriteString("(" + smtName(t.Name))
			for _, a := range t.Args {
				sb.WriteByte(' ')
				render(a, sb)
			}
			sb.WriteByte(')')
		case "forall":
			sb.WriteString("(forall (")
			var pats *Term
			for _, v := range t.Args[1:] {
				if v.Op == "pats" {
					pats = v
					continue
				}
				fmt.Fprintf(sb, "(%s %s)", smtName(v.Name), v.S)
			}
			sb.WriteString(") ")
			if pats != nil {
				sb.WriteString("(! ")
			}
			render(t.Args[0], sb)
			if pats != nil {
				sb.WriteString(" :pattern (")
				for _, p := range pats.Args {
					render(p, sb)
					sb.WriteByte(' ')
				}
				sb.WriteString("))")
			}
			sb.WriteByte(')')
		default:
			sb.WriteString("(" + t.Op)
			for _, a := range t.Args {
				sb.WriteByte(' ')
				render(a, sb)
			}
			sb.WriteByte(')')
		}
	}
	render = func(t *Term, sb *strings.Builder) {
		if n, ok := names[t.id]; ok {
			sb.WriteString(n)
			return
		}
		body(t, sb)
	}
	for _, t := range order {
		if len(t.Args) > 0 && refs[t.id] > 1 && !t.bnd && t.Op != "pats" {
			n := fmt.Sprintf("d!%d", t.id)
			fmt.Fprintf(&sb, "(define-fun %s () %s ", n, t.S)
			body(t, &sb)
			sb.WriteString(")\n")
			names[t.id] = n
		}
	}
	for _, a := range asserts {
		sb.WriteString("(assert ")
		render(a, &sb)
		sb.WriteString(")\n")
	}
	return sb.String()
}
