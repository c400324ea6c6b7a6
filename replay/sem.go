package main

// Oracle for the static rules: random programs over a subset of the language, judged by an
// independent checker, against the real parser and semantic analysis.

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/gabivlj/candice/internals/lexer"
	"github.com/gabivlj/candice/internals/parser"
	"github.com/gabivlj/candice/internals/semantic"
)

// types are their canonical spelling; "" is no value
type gE struct {
	op   string // int cast var add cmp ref deref field index call struct array lambda block inc
	name string
	t    string
	n    int
	k    []*gE
	fn   *gF
	body *gB
}
type gS struct {
	op   string // decl assign if switch for ret break continue block expr
	name string
	t    string // declared type, "" = inferred
	kon  bool
	e    *gE
	e2   *gE
	cs   []*gE
	bs   []*gB
	els  *gB
	init *gS
	post *gS
}
type gB struct{ ss []*gS }
type gF struct {
	name string
	ps   []gPar
	ret  string
	body *gB
}
type gPar struct{ name, t string }
type gP struct {
	consts []*gS
	fs     []*gF
}

func ftype(f *gF) string {
	var o []string
	for _, p := range f.ps {
		o = append(o, p.t)
	}
	s := "func(" + strings.Join(o, ", ") + ")"
	if f.ret != "" {
		s += " " + f.ret
	}
	return s
}

// splitF gives the parameter types and the result of a function type
func splitF(t string) (ps []string, ret string, ok bool) {
	if !strings.HasPrefix(t, "func(") {
		return nil, "", false
	}
	d, st := 0, 5
	for i := 4; i < len(t); i++ {
		switch t[i] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				if i > 5 {
					ps = append(ps, t[st:i])
				}
				return ps, strings.TrimSpace(t[i+1:]), true
			}
		case ',':
			if d == 1 {
				ps = append(ps, t[st:i])
				st = i + 2
			}
		}
	}
	return nil, "", false
}

func (e *gE) String() string {
	switch e.op {
	case "int":
		return fmt.Sprint(e.n)
	case "cast":
		return "(" + e.k[0].String() + " as " + e.t + ")"
	case "var":
		return e.name
	case "add":
		return "(" + e.k[0].String() + " " + e.name + " " + e.k[1].String() + ")"
	case "cmp":
		return "(" + e.k[0].String() + " " + e.name + " " + e.k[1].String() + ")"
	case "ref":
		if o := e.k[0].String(); o[0] == '&' {
			return "&(" + o + ")"
		}
		return "&" + e.k[0].String()
	case "deref":
		return "(*" + e.k[0].String() + ")"
	case "inc":
		return e.name + e.k[0].String()
	case "field":
		return e.k[0].String() + "." + e.name
	case "index":
		return e.k[0].String() + "[" + e.k[1].String() + "]"
	case "call":
		var o []string
		for _, a := range e.k[1:] {
			o = append(o, a.String())
		}
		return e.k[0].String() + "(" + strings.Join(o, ", ") + ")"
	case "struct":
		var o []string
		for i, a := range e.k {
			o = append(o, string(rune('a'+i))+": "+a.String())
		}
		return "@" + e.t + "{" + strings.Join(o, ", ") + "}"
	case "array":
		var o []string
		for _, a := range e.k {
			o = append(o, a.String())
		}
		return e.t + "{" + strings.Join(o, ", ") + "}"
	case "lambda":
		return "func(" + e.fn.params() + ") " + e.fn.ret + " " + e.fn.body.str("  ")
	case "block":
		return ":" + e.t + " " + e.body.str("  ")
	}
	return "?"
}

func (f *gF) params() string {
	var o []string
	for _, p := range f.ps {
		o = append(o, p.name+" "+p.t)
	}
	return strings.Join(o, ", ")
}

func (b *gB) str(ind string) string {
	var o strings.Builder
	o.WriteString("{\n")
	for _, s := range b.ss {
		o.WriteString(ind + "  " + s.str(ind+"  ") + "\n")
	}
	o.WriteString(ind + "}")
	return o.String()
}

func (s *gS) str(ind string) string {
	switch s.op {
	case "decl":
		c := ""
		if s.kon {
			c = "const "
		}
		if s.t == "" {
			return c + s.name + " := " + s.e.String() + ";"
		}
		return c + s.name + " : " + s.t + " = " + s.e.String() + ";"
	case "assign":
		if s.e2.op == "deref" {
			return "*" + s.e2.k[0].String() + " = " + s.e.String() + ";"
		}
		return s.e2.String() + " = " + s.e.String() + ";"
	case "if":
		o := ""
		for i := range s.bs {
			if i > 0 {
				o += " else "
			}
			o += "if " + s.cs[i].String() + " " + s.bs[i].str(ind)
		}
		if s.els != nil {
			o += " else " + s.els.str(ind)
		}
		return o
	case "switch":
		o := "switch " + s.e.String() + " {\n"
		for i := range s.bs {
			o += ind + "  case " + s.cs[i].String() + " " + s.bs[i].str(ind+"  ") + "\n"
		}
		if s.els != nil {
			o += ind + "  default " + s.els.str(ind+"  ") + "\n"
		}
		return o + ind + "}"
	case "for":
		if s.init != nil {
			p := ""
			if s.post != nil {
				p = strings.TrimSuffix(s.post.str(ind), ";") + " "
			}
			return "for " + s.init.str(ind) + " " + s.e.String() + "; " + p + s.bs[0].str(ind)
		}
		if s.e != nil {
			return "for " + s.e.String() + " " + s.bs[0].str(ind)
		}
		return "for " + s.bs[0].str(ind)
	case "ret":
		if s.e == nil {
			return "return;"
		}
		return "return " + s.e.String() + ";"
	case "break", "continue":
		return s.op + ";"
	case "block":
		return s.bs[0].str(ind)
	case "expr":
		return s.e.String() + ";"
	}
	return "?"
}

const semPrelude = "struct S0 {\n a i32\n b i64\n}\nstruct S1 {\n a i32\n b i64\n}\nunion U0 {\n i i32\n j i64\n}\n"

func (p *gP) String() string {
	var o strings.Builder
	o.WriteString(semPrelude)
	for _, c := range p.consts {
		o.WriteString(c.str("") + "\n")
	}
	for _, f := range p.fs {
		o.WriteString("func " + f.name + "(" + f.params() + ") " + f.ret + " " + f.body.str("") + "\n")
	}
	return o.String()
}

// ---------------------------------------------------------------- the checker

type gVar struct {
	t   string
	kon bool
	fn  int // 0: global
}
type gScope struct {
	vars []map[string]gVar
	fn   int
	nfn  int
	loop bool
	ret  string
	con  bool // a constant is expected
	err  string
}

func (c *gScope) fail(f string, a ...interface{}) {
	if c.err == "" {
		c.err = fmt.Sprintf(f, a...)
	}
}
func (c *gScope) push()                  { c.vars = append(c.vars, map[string]gVar{}) }
func (c *gScope) pop()                   { c.vars = c.vars[:len(c.vars)-1] }
func (c *gScope) add(n string, v gVar)   { c.vars[len(c.vars)-1][n] = v }
func (c *gScope) get(n string) (gVar, bool) {
	for i := len(c.vars) - 1; i >= 0; i-- {
		if v, ok := c.vars[i][n]; ok {
			return v, true
		}
	}
	return gVar{}, false
}

func isInt(t string) bool {
	switch t {
	case "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "i1":
		return true
	}
	return false
}
func isNum(t string) bool { return isInt(t) || t == "f32" || t == "f64" }

const bad = "?"

func (c *gScope) expr(e *gE) string {
	switch e.op {
	case "int":
		return "i32"
	case "cast":
		if t := c.expr(e.k[0]); t == bad {
			return bad
		} else if !isNum(t) || !isNum(e.t) {
			c.fail("cast %s to %s", t, e.t)
			return bad
		}
		return e.t
	case "var":
		v, ok := c.get(e.name)
		if !ok {
			c.fail("undefined %s", e.name)
			return bad
		}
		if c.con && !v.kon {
			c.fail("%s is not constant", e.name)
		}
		return v.t
	case "add":
		a, b := c.expr(e.k[0]), c.expr(e.k[1])
		if a == bad || b == bad {
			return bad
		}
		if a != "" && a[0] == '*' && isInt(b) && e.name != "*" {
			return a
		}
		if a != b || !isNum(a) && !(a == "*i8" && e.name == "+") {
			c.fail("operands %s %s", a, b)
			return bad
		}
		return a
	case "cmp":
		a, b := c.expr(e.k[0]), c.expr(e.k[1])
		if a == bad || b == bad {
			return bad
		}
		if a != b || !isNum(a) && !strings.HasPrefix(a, "*") {
			c.fail("operands %s %s", a, b)
			return bad
		}
		return "i1"
	case "ref":
		t := c.expr(e.k[0])
		if c.con {
			c.fail("reference in a constant")
		}
		if t == bad {
			return bad
		}
		return "*" + t
	case "deref":
		t := c.expr(e.k[0])
		if c.con {
			c.fail("dereference in a constant")
		}
		if t == bad || t[0] != '*' {
			c.fail("deref of %s", t)
			return bad
		}
		return t[1:]
	case "inc":
		if c.con {
			c.fail("mutation in a constant")
		}
		t := c.expr(e.k[0])
		c.mutable(e.k[0])
		if !isNum(t) {
			c.fail("++ of %s", t)
			return bad
		}
		if e.k[0].op == "int" {
			c.fail("++ of a literal")
		}
		return t
	case "field":
		t := c.expr(e.k[0])
		if t == bad {
			return bad
		}
		if t[0] == '*' && c.con {
			c.fail("pointer field in a constant")
		}
		t = strings.TrimPrefix(t, "*")
		if t != "S0" && t != "S1" {
			c.fail("field of %s", t)
			return bad
		}
		if e.name == "a" {
			return "i32"
		}
		return "i64"
	case "index":
		t, i := c.expr(e.k[0]), c.expr(e.k[1])
		if t == bad || i == bad {
			return bad
		}
		if !isNum(i) {
			c.fail("index of type %s", i)
		}
		if t[0] == '*' {
			return t[1:]
		}
		if t[0] == '[' {
			return t[strings.IndexByte(t, ']')+1:]
		}
		c.fail("index into %s", t)
		return bad
	case "call":
		if c.con {
			c.fail("call in a constant")
		}
		t := c.expr(e.k[0])
		ps, ret, ok := splitF(t)
		if !ok {
			c.fail("call of %s", t)
			return bad
		}
		if len(ps) != len(e.k)-1 {
			c.fail("%d arguments for %s", len(e.k)-1, t)
		}
		for i, a := range e.k[1:] {
			at := c.expr(a)
			if i < len(ps) && at != ps[i] {
				c.fail("argument %s for %s", at, ps[i])
			}
		}
		return ret
	case "struct":
		for i, a := range e.k {
			if at := c.expr(a); at != []string{"i32", "i64"}[i] {
				c.fail("field value %s", at)
			}
		}
		return e.t
	case "array":
		el := e.t[strings.IndexByte(e.t, ']')+1:]
		for _, a := range e.k {
			if at := c.expr(a); at != el {
				c.fail("element %s for %s", at, el)
			}
		}
		if len(e.k) > int(e.t[1]-'0') {
			c.fail("too many elements")
		}
		return e.t
	case "lambda":
		f := e.fn
		of, ol, or, oc := c.fn, c.loop, c.ret, c.con
		c.nfn++
		c.fn, c.loop, c.ret = c.nfn, false, f.ret
		c.function(f)
		c.fn, c.loop, c.ret, c.con = of, ol, or, oc
		return ftype(f)
	case "block":
		or, oc := c.ret, c.con
		c.ret = e.t
		c.block(e.body)
		if !bRets(e.body) {
			c.fail("block without a value on some path")
		}
		c.ret, c.con = or, oc
		return e.t
	}
	return bad
}

// mutable: the storage an expression names must not be a constant's own
func (c *gScope) mutable(e *gE) {
	switch e.op {
	case "var":
		if v, ok := c.get(e.name); ok && v.kon {
			c.fail("mutation of constant %s", e.name)
		}
	case "field", "index":
		c.mutable(e.k[0])
	}
}

func (c *gScope) function(f *gF) {
	c.push()
	for _, p := range f.ps {
		c.add(p.name, gVar{p.t, false, c.fn})
	}
	c.stmts(f.body)
	if f.ret != "" && !bRets(f.body) {
		c.fail("function without a value on some path")
	}
	c.pop()
}

func (c *gScope) block(b *gB) {
	c.push()
	c.stmts(b)
	c.pop()
}

func (c *gScope) stmts(b *gB) {
	for _, s := range b.ss {
		c.stmt(s)
		if sRets(s) {
			return
		}
	}
}

func bRets(b *gB) bool {
	for _, s := range b.ss {
		if sRets(s) {
			return true
		}
	}
	return false
}

func sRets(s *gS) bool {
	switch s.op {
	case "ret":
		return true
	case "block":
		return bRets(s.bs[0])
	case "if", "switch":
		if s.els == nil || !bRets(s.els) {
			return false
		}
		for _, b := range s.bs {
			if !bRets(b) {
				return false
			}
		}
		return true
	}
	return false
}

// coerce: may a value of type t be stored in a location of type want
func coerce(want, t string) bool {
	return want == t || want == "U0" && (t == "i32" || t == "i64") || t == "U0" && (want == "i32" || want == "i64") || want != "" && t != "" && want[0] == '*' && t[0] == '*' && coerce(want[1:], t[1:])
}

func (c *gScope) stmt(s *gS) {
	switch s.op {
	case "decl":
		oc := c.con
		c.con = s.kon
		t := c.expr(s.e)
		c.con = oc
		if t == bad {
			return
		}
		if t == "" {
			c.fail("declaration without a value")
			return
		}
		if s.t != "" {
			if !coerce(s.t, t) {
				c.fail("declared %s, value %s", s.t, t)
			}
			t = s.t
		}
		c.add(s.name, gVar{t, s.kon, c.fn})
	case "assign":
		r := c.expr(s.e)
		l := c.expr(s.e2)
		c.mutable(s.e2)
		if r != bad && l != bad && !coerce(l, r) {
			c.fail("assigned %s to %s", r, l)
		}
	case "if":
		for i := range s.bs {
			if t := c.expr(s.cs[i]); !isNum(t) {
				c.fail("condition %s", t)
			}
			c.block(s.bs[i])
		}
		if s.els != nil {
			c.block(s.els)
		}
	case "switch":
		t := c.expr(s.e)
		for i := range s.bs {
			oc := c.con
			c.con = true
			k := c.expr(s.cs[i])
			c.con = oc
			if k != t {
				c.fail("case %s for %s", k, t)
			}
			c.block(s.bs[i])
		}
		if s.els != nil {
			c.block(s.els)
		}
	case "for":
		c.push()
		if s.init != nil {
			c.stmt(s.init)
		}
		if s.e != nil {
			if t := c.expr(s.e); !isNum(t) {
				c.fail("condition %s", t)
			}
		}
		if s.post != nil {
			c.stmt(s.post)
		}
		o := c.loop
		c.loop = true
		c.block(s.bs[0])
		c.loop = o
		c.pop()
	case "ret":
		t := ""
		if s.e != nil {
			t = c.expr(s.e)
		}
		if t != c.ret {
			c.fail("return of %s, expected %s", t, c.ret)
		}
	case "break", "continue":
		if !c.loop {
			c.fail("%s outside a loop", s.op)
		}
	case "block":
		c.block(s.bs[0])
	case "expr":
		c.expr(s.e)
	}
}

func (p *gP) judge() string {
	c := &gScope{}
	c.push()
	for _, f := range p.fs {
		c.add(f.name, gVar{ftype(f), false, 0})
	}
	for _, k := range p.consts {
		c.stmt(k)
	}
	for _, f := range p.fs {
		c.nfn++
		c.fn, c.loop, c.ret = c.nfn, false, f.ret
		c.function(f)
	}
	return c.err
}

// ---------------------------------------------------------------- generator

type gGen struct {
	r     *rand.Rand
	sc    []map[string]gVar
	fn    int
	nfn   int
	ret   string
	loop  bool
	depth int
	focus string
	eps   float64
	fns   []*gF
}

func (g *gGen) p(x float64) bool { return g.r.Float64() < x }
func (g *gGen) oops() bool       { return g.p(g.eps) }

func (g *gGen) typ(d int) string {
	base := []string{"i32", "i32", "i64", "i8", "u32", "u8", "i16", "f64", "S0", "S1"}
	if g.focus == "C09" && d > 0 && g.p(0.5) {
		switch g.r.Intn(4) {
		case 0:
			return "*" + g.typ(d-1)
		case 1:
			return fmt.Sprintf("[%d]%s", 1+g.r.Intn(3), g.typ(d-1))
		default:
			n := g.r.Intn(3)
			var ps []string
			for i := 0; i < n; i++ {
				ps = append(ps, g.typ(d-1))
			}
			t := "func(" + strings.Join(ps, ", ") + ")"
			if g.p(0.7) {
				t += " " + g.typ(d-1)
			}
			return t
		}
	}
	if g.focus != "C09" {
		return base[g.r.Intn(4)]
	}
	return base[g.r.Intn(len(base))]
}

var semNames = []string{"a", "b", "c", "d"}

func (g *gGen) name() string { return semNames[g.r.Intn(len(semNames))] }

// vars visible with type t ("" any)
func (g *gGen) vars(t string, ok func(v gVar) bool) []string {
	var o []string
	seen := map[string]bool{}
	for i := len(g.sc) - 1; i >= 0; i-- {
		for _, n := range append(append([]string{}, semNames...), "K0", "K1", "p0", "p1", "q0", "q1", "i0", "f0", "f1", "f2") {
			v, has := g.sc[i][n]
			if !has || seen[n] {
				continue
			}
			seen[n] = true
			if (t == "" || v.t == t) && (ok == nil || ok(v)) {
				o = append(o, n)
			}
		}
	}
	return o
}

func lit(t string, n int) *gE {
	if t == "i32" {
		return &gE{op: "int", n: n}
	}
	return &gE{op: "cast", t: t, k: []*gE{{op: "int", n: n}}}
}

func v(n string) *gE { return &gE{op: "var", name: n} }

// mutate a type slightly
func (g *gGen) near(t string) string {
	if ps, ret, ok := splitF(t); ok {
		switch g.r.Intn(4) {
		case 0:
			ps = append(ps, "i32")
		case 1:
			if len(ps) > 0 {
				ps = ps[:len(ps)-1]
			}
		case 2:
			if len(ps) > 0 {
				i := g.r.Intn(len(ps))
				ps = append([]string{}, ps...)
				ps[i] = g.near(ps[i])
			}
		default:
			if ret == "" {
				ret = "i32"
			} else {
				ret = g.near(ret)
			}
		}
		s := "func(" + strings.Join(ps, ", ") + ")"
		if ret != "" {
			s += " " + ret
		}
		return s
	}
	switch {
	case t[0] == '*':
		if g.p(0.3) {
			return t[1:]
		}
		return "*" + g.near(t[1:])
	case t[0] == '[':
		i := strings.IndexByte(t, ']')
		if g.p(0.5) {
			return fmt.Sprintf("[%d]%s", 1+(int(t[1]-'0'))%3, t[i+1:])
		}
		return t[:i+1] + g.near(t[i+1:])
	case t == "S0":
		return "S1"
	case t == "i32":
		return []string{"u32", "i64", "*i32"}[g.r.Intn(3)]
	}
	return g.typ(0)
}

func (g *gGen) expr(t string, d int) *gE {
	if g.oops() && (g.focus == "C09" || g.focus == "C08") {
		t = g.near(t)
	}
	if g.focus == "C08" && g.p(0.75) || g.p(0.35) {
		if g.focus == "C08" && g.oops() {
			return v(g.name())
		}
		if vs := g.vars(t, nil); len(vs) > 0 {
			return v(vs[g.r.Intn(len(vs))])
		}
	}
	if d > 0 && g.p(0.25) && (g.focus == "C10" || g.focus == "C20" || g.focus == "C08") && !strings.HasPrefix(t, "func") {
		return g.blockExpr(t, d-1)
	}
	if d > 0 && isNum(t) {
		switch g.r.Intn(9) {
		case 0:
			return &gE{op: "add", name: []string{"+", "-", "*"}[g.r.Intn(3)], k: []*gE{g.expr(t, d-1), g.expr(t, d-1)}}
		case 1:
			if vs := g.vars("*"+t, nil); len(vs) > 0 {
				return &gE{op: "deref", k: []*gE{v(vs[g.r.Intn(len(vs))])}}
			}
		case 2:
			if t == "i32" || t == "i64" {
				n := "a"
				if t == "i64" {
					n = "b"
				}
				st := []string{"S0", "S1", "*S0", "*S1"}[g.r.Intn(4)]
				if vs := g.vars(st, nil); len(vs) > 0 {
					return &gE{op: "field", name: n, k: []*gE{v(vs[g.r.Intn(len(vs))])}}
				}
			}
		case 3:
			for _, at := range []string{"[1]", "[2]", "[3]"} {
				if vs := g.vars(at+t, nil); len(vs) > 0 {
					return &gE{op: "index", k: []*gE{v(vs[g.r.Intn(len(vs))]), lit("i32", 0)}}
				}
			}
		case 4, 5:
			// a call of some function value
			vs := g.vars("", func(x gVar) bool { _, r, ok := splitF(x.t); return ok && r == t })
			if len(vs) > 0 {
				return g.call(vs[g.r.Intn(len(vs))], d-1)
			}
		}
	}
	switch {
	case isNum(t):
		return lit(t, g.r.Intn(9))
	case t == "S0" || t == "S1":
		return &gE{op: "struct", t: t, k: []*gE{g.expr("i32", d-1), g.expr("i64", d-1)}}
	case t[0] == '[':
		el := t[strings.IndexByte(t, ']')+1:]
		n := int(t[1] - '0')
		if g.oops() && g.focus == "C09" {
			n++
		}
		e := &gE{op: "array", t: t}
		for i := 0; i < n; i++ {
			e.k = append(e.k, g.expr(el, d-1))
		}
		return e
	case t[0] == '*':
		if vs := g.vars(t[1:], nil); len(vs) > 0 {
			return &gE{op: "ref", k: []*gE{v(vs[g.r.Intn(len(vs))])}}
		}
		return &gE{op: "ref", k: []*gE{g.value(t[1:], d-1)}}
	}
	if ps, ret, ok := splitF(t); ok {
		return g.lambda(ps, ret, d-1)
	}
	return lit("i32", 1)
}

// value: something that is not a variable reference (references to it are still typed)
func (g *gGen) value(t string, d int) *gE {
	if isNum(t) {
		return lit(t, 1)
	}
	return g.expr(t, d)
}

func (g *gGen) call(f string, d int) *gE {
	t := ""
	for i := len(g.sc) - 1; i >= 0 && t == ""; i-- {
		if x, ok := g.sc[i][f]; ok {
			t = x.t
		}
	}
	ps, _, _ := splitF(t)
	e := &gE{op: "call", k: []*gE{v(f)}}
	for _, p := range ps {
		e.k = append(e.k, g.expr(p, d))
	}
	if g.focus == "C09" && g.oops() {
		if g.p(0.5) && len(ps) > 0 {
			e.k = e.k[:len(e.k)-1]
		} else {
			e.k = append(e.k, lit("i32", 1))
		}
	}
	return e
}

func (g *gGen) lambda(ps []string, ret string, d int) *gE {
	f := &gF{ret: ret}
	for i, p := range ps {
		f.ps = append(f.ps, gPar{fmt.Sprintf("q%d", i), p})
	}
	of, ol, or := g.fn, g.loop, g.ret
	g.nfn++
	g.fn, g.loop, g.ret = g.nfn, false, ret
	g.sc = append(g.sc, map[string]gVar{})
	for _, p := range f.ps {
		g.sc[len(g.sc)-1][p.name] = gVar{p.t, false, g.fn}
	}
	f.body = g.block(d, ret != "")
	g.sc = g.sc[:len(g.sc)-1]
	g.fn, g.loop, g.ret = of, ol, or
	return &gE{op: "lambda", fn: f}
}

func (g *gGen) blockExpr(t string, d int) *gE {
	or := g.ret
	g.ret = t
	e := &gE{op: "block", t: t, body: g.block(d, true)}
	g.ret = or
	return e
}

func (g *gGen) cond(d int) *gE {
	t := []string{"i32", "i64"}[g.r.Intn(2)]
	return &gE{op: "cmp", name: []string{"==", "<", "!="}[g.r.Intn(3)], k: []*gE{g.expr(t, d-1), g.expr(t, d-1)}}
}

// block of statements; must: it should return on every path
func (g *gGen) block(d int, must bool) *gB {
	g.sc = append(g.sc, map[string]gVar{})
	b := &gB{}
	n := g.r.Intn(4)
	if g.focus == "C08" {
		n += 1
	}
	for i := 0; i < n; i++ {
		b.ss = append(b.ss, g.stmt(d))
	}
	if must && !(g.focus == "C10" && g.oops()) && !bRets(b) {
		b.ss = append(b.ss, g.finish(d))
		if g.p(0.1) {
			b.ss = append(b.ss, g.stmt(d-1))
		}
	}
	g.sc = g.sc[:len(g.sc)-1]
	return b
}

// finish: a statement that returns on every path (up to injected faults)
func (g *gGen) finish(d int) *gS {
	if d > 0 && g.p(0.5) {
		switch g.r.Intn(3) {
		case 0:
			s := &gS{op: "if", els: g.block(d-1, true)}
			for i := 0; i < 1+g.r.Intn(3); i++ {
				s.cs = append(s.cs, g.cond(d-1))
				s.bs = append(s.bs, g.block(d-1, true))
			}
			if g.focus == "C10" && g.oops() {
				s.els = nil
			}
			return s
		case 1:
			s := g.swtch(d, true)
			s.els = g.block(d-1, true)
			if g.focus == "C10" && g.oops() {
				s.els = nil
			}
			return s
		default:
			return &gS{op: "block", bs: []*gB{g.block(d-1, true)}}
		}
	}
	if g.ret == "" {
		return &gS{op: "ret"}
	}
	return &gS{op: "ret", e: g.expr(g.ret, d-1)}
}

func (g *gGen) swtch(d int, must bool) *gS {
	t := []string{"i32", "i64"}[g.r.Intn(2)]
	s := &gS{op: "switch", e: g.expr(t, d-1)}
	for i := 0; i < g.r.Intn(3); i++ {
		k := lit(t, i)
		if g.focus == "C19" {
			k = g.konst(t, 1)
		}
		s.cs = append(s.cs, k)
		s.bs = append(s.bs, g.block(d-1, must))
	}
	return s
}

// konst: a constant expression (up to injected faults)
func (g *gGen) konst(t string, d int) *gE {
	if g.oops() && g.focus == "C19" {
		return g.expr(t, d)
	}
	vs := g.vars(t, func(x gVar) bool { return x.kon && x.fn == 0 || x.kon && x.fn == g.fn })
	if len(vs) > 0 && g.p(0.6) {
		return v(vs[g.r.Intn(len(vs))])
	}
	if d > 0 && isNum(t) && g.p(0.4) {
		return &gE{op: "add", name: "+", k: []*gE{g.konst(t, d-1), g.konst(t, d-1)}}
	}
	return lit(t, g.r.Intn(9))
}

func (g *gGen) stmt(d int) *gS {
	if d <= 0 {
		if g.p(0.5) {
			return g.decl(0)
		}
		return g.assign(0)
	}
	if (g.focus == "C20" && g.p(0.25)) && (g.loop || g.oops()) {
		return &gS{op: []string{"break", "continue"}[g.r.Intn(2)]}
	}
	if g.focus == "C10" && g.p(0.1) || g.p(0.02) {
		return g.finish(d - 1)
	}
	switch g.r.Intn(10) {
	case 0, 1, 2:
		return g.decl(d)
	case 3, 4:
		return g.assign(d)
	case 5:
		s := &gS{op: "if"}
		for i := 0; i < 1+g.r.Intn(2); i++ {
			s.cs = append(s.cs, g.cond(d-1))
			s.bs = append(s.bs, g.block(d-1, false))
		}
		if g.p(0.5) {
			s.els = g.block(d-1, false)
		}
		return s
	case 6:
		s := g.swtch(d, false)
		if g.p(0.5) {
			s.els = g.block(d-1, false)
		}
		return s
	case 7, 8:
		s := &gS{op: "for"}
		g.sc = append(g.sc, map[string]gVar{})
		switch g.r.Intn(3) {
		case 0:
			n := g.name()
			if g.focus != "C08" {
				n = "i0"
			}
			s.init = &gS{op: "decl", name: n, e: lit("i32", 0)}
			g.sc[len(g.sc)-1][n] = gVar{"i32", false, g.fn}
			s.e = &gE{op: "cmp", name: "<", k: []*gE{v(n), lit("i32", 3)}}
			s.post = &gS{op: "assign", e2: v(n), e: &gE{op: "add", name: "+", k: []*gE{v(n), lit("i32", 1)}}}
		case 1:
			s.e = g.cond(d - 1)
		}
		ol := g.loop
		g.loop = true
		s.bs = []*gB{g.block(d-1, false)}
		g.loop = ol
		g.sc = g.sc[:len(g.sc)-1]
		return s
	default:
		return &gS{op: "block", bs: []*gB{g.block(d-1, false)}}
	}
}

func (g *gGen) decl(d int) *gS {
	t := g.typ(2)
	if g.p(0.2) && d > 0 && g.focus != "C09" {
		t = "func(i32) " + g.typ(0)
		if g.p(0.3) {
			t = "func(i32)"
		}
	}
	s := &gS{op: "decl", name: g.name(), t: t}
	if g.focus == "C19" && g.p(0.4) {
		t = []string{"i32", "i64"}[g.r.Intn(2)]
		s.t = t
		s.kon = true
		s.e = g.konst(t, 1)
	} else {
		s.e = g.expr(t, d)
	}
	if g.p(0.4) {
		s.t = ""
	}
	if g.focus == "C09" && g.p(0.05) {
		s.t = "U0"
		s.e = g.expr([]string{"i32", "i64"}[g.r.Intn(2)], 0)
		t = "U0"
	}
	g.sc[len(g.sc)-1][s.name] = gVar{t, s.kon, g.fn}
	return s
}

func (g *gGen) assign(d int) *gS {
	ok := func(x gVar) bool { return (!x.kon || g.focus == "C19" && g.oops()) && x.fn == g.fn }
	if g.focus == "C19" {
		ok = func(x gVar) bool { return !x.kon || g.oops() }
	}
	vs := g.vars("", ok)
	if len(vs) == 0 {
		return g.decl(d)
	}
	n := vs[g.r.Intn(len(vs))]
	t := ""
	for i := len(g.sc) - 1; i >= 0 && t == ""; i-- {
		if x, ok := g.sc[i][n]; ok {
			t = x.t
		}
	}
	if g.focus == "C19" && isNum(t) && g.p(0.3) {
		return &gS{op: "expr", e: &gE{op: "inc", name: []string{"++", "--"}[g.r.Intn(2)], k: []*gE{v(n)}}}
	}
	e2 := v(n)
	if t == "S0" || t == "S1" {
		if g.p(0.5) {
			e2, t = &gE{op: "field", name: "a", k: []*gE{e2}}, "i32"
		}
	} else if t[0] == '[' && g.p(0.5) {
		e2, t = &gE{op: "index", k: []*gE{e2, lit("i32", 0)}}, t[strings.IndexByte(t, ']')+1:]
	} else if t[0] == '*' && g.p(0.5) {
		e2, t = &gE{op: "deref", k: []*gE{e2}}, t[1:]
	}
	if strings.HasPrefix(t, "func") && g.focus != "C09" {
		return g.decl(d)
	}
	return &gS{op: "assign", e2: e2, e: g.expr(t, d)}
}

func genSem(r *rand.Rand, focus string, eps float64) *gP {
	g := &gGen{r: r, focus: focus, eps: eps}
	g.sc = []map[string]gVar{{}}
	p := &gP{}
	if focus == "C19" || g.p(0.3) {
		p.consts = append(p.consts, &gS{op: "decl", kon: true, name: "K0", e: lit("i32", 3)},
			&gS{op: "decl", kon: true, name: "K1", t: "i64", e: lit("i64", 4)})
		g.sc[0]["K0"], g.sc[0]["K1"] = gVar{"i32", true, 0}, gVar{"i64", true, 0}
	}
	n := 1 + r.Intn(2)
	for i := 0; i < n; i++ {
		f := &gF{name: fmt.Sprintf("f%d", i)}
		for j := 0; j < r.Intn(3); j++ {
			f.ps = append(f.ps, gPar{fmt.Sprintf("p%d", j), g.typ(1)})
		}
		if g.p(0.7) {
			f.ret = g.typ(1)
			if f.ret[0] == '[' || strings.HasPrefix(f.ret, "func") {
				f.ret = "i32"
			}
		}
		p.fs = append(p.fs, f)
		g.sc[0][f.name] = gVar{ftype(f), false, 0}
	}
	for _, f := range p.fs {
		g.nfn++
		g.fn, g.loop, g.ret = g.nfn, false, f.ret
		g.sc = append(g.sc[:1], map[string]gVar{})
		for _, q := range f.ps {
			g.sc[1][q.name] = gVar{q.t, false, g.fn}
		}
		f.body = g.block(2+r.Intn(2), f.ret != "")
	}
	p.fs = append(p.fs, &gF{name: "main", body: &gB{}})
	return p
}

// ---------------------------------------------------------------- driver

// analyze runs the real front end: accepted, or why not
func analyze(src string) (why string) {
	defer func() {
		if x := recover(); x != nil {
			why = fmt.Sprintf("panic: %v", x)
		}
	}()
	src, done := withModule(src)
	defer done()
	pr := parser.New(lexer.New(src))
	root := pr.Parse()
	if len(pr.Errors) > 0 {
		return fmt.Sprint("parse: ", pr.Errors[0])
	}
	semantic.ResetPaths()
	s := semantic.New()
	s.Analyze(root)
	if len(s.Errors) > 0 {
		return fmt.Sprint("semantic: ", s.Errors[0])
	}
	return ""
}

func semProp(focus, rule string, eps []float64, fixed []semCase) *Prop {
	return &Prop{
		Rule:    rule,
		Timeout: 20 * time.Second,
		Gen: func(r *rand.Rand, deep bool, emit func(group, in string) bool) {
			for _, c := range fixed {
				g := "ok"
				if !c.ok {
					g = "rejected:" + c.why
				}
				if !emit(g, c.src) {
					return
				}
			}
			for {
				// several seeds per case would hide which one fails: one program per case
				p := genSem(r, focus, eps[r.Intn(len(eps))])
				why := p.judge()
				g := "ok"
				if why != "" {
					g = "rejected:" + why
					if i := strings.IndexAny(why, " "); i > 0 {
						g = "rejected:" + why[:i]
					}
				}
				if !emit(g, p.String()) {
					return
				}
			}
		},
		Check: func(group, in string) string {
			got := analyze(in)
			if group == "ok" && got != "" {
				return "a program that follows the rules is rejected: " + got + "\n" + in
			}
			if group != "ok" && got == "" {
				return "a program that breaks a rule (" + strings.TrimPrefix(group, "rejected:") + ") is accepted:\n" + in
			}
			return ""
		},
	}
}

type semCase struct {
	src string
	ok  bool
	why string
}

func init() {
	props["C10"] = semProp("C10", "random functions, lambdas and block expressions with nested if/else-if/else, switch and loops; accepted exactly when every path of every value-returning body returns (independent checker)", []float64{0, 0.05, 0.2}, nil)
	props["C20"] = semProp("C20", "random nestings of loops, conditionals, switches, blocks and lambdas with break and continue; accepted exactly when each is inside a loop of its own function (independent checker)", []float64{0, 0.1, 0.3}, nil)
	props["C19"] = semProp("C19", "random programs with global and local constants, constant initialisers and case labels, assignments and ++/--; accepted exactly when no constant is mutated and constant contexts are constant (independent checker); families of declarations, mutations and initialisers, imported ones included", []float64{0, 0.05, 0.2}, constCases())
	props["C08"] = semProp("C08", "random nested scopes declaring the same few names with different types; accepted exactly when every use resolves to a visible declaration of the right type (independent checker)", []float64{0, 0.05, 0.2}, scopeCases())
	props["C09"] = semProp("C09", "random expressions over pointer, array, struct and function types; accepted exactly when all types agree structurally (independent checker)", []float64{0, 0.03, 0.1}, nil)
}
