package main

// Oracles for the grouping of expressions (C06) and for literals (C07).

import (
	"fmt"
	"math/big"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"github.com/gabivlj/candice/internals/ast"
	"github.com/gabivlj/candice/internals/ctypes"
	"github.com/gabivlj/candice/internals/lexer"
	"github.com/gabivlj/candice/internals/ops"
	"github.com/gabivlj/candice/internals/parser"
)

// ---- expected tree: split a space-separated text at its loosest, last operator

var exprLevel = map[string]int{"=": 1, ",": 2, "&&": 3, "||": 3, "==": 4, "!=": 4, ">=": 4, ">": 4, "<": 4, "<=": 4, "+": 5, "-": 5,
	"^": 6, "&": 6, "|": 6, "<<": 6, ">>": 6, "*": 7, "/": 7, "%": 7, "as": 8, "(": 10, "[": 12, ".": 13}
var exprBin = []string{"&&", "||", "==", "!=", ">=", ">", "<", "<=", "+", "-", "^", "&", "|", "<<", ">>", "*", "/", "%", "."}
var exprPre = []string{"!", "&", "-", "+", "*", "++", "--"}

type xitem struct {
	kind byte // 'p' prefix, 'a' operand, 'b' binary, 's' suffix
	text string
	lvl  int
	args []string // rendered
}

type xparser struct {
	t []string
	i int
}

func (x *xparser) group() []string { // tokens up to the matching bracket; x.i is after the opening one
	d := 1
	st := x.i
	for {
		switch x.t[x.i] {
		case "(", "[", "{":
			d++
		case ")", "]", "}":
			d--
		}
		x.i++
		if d == 0 {
			return x.t[st : x.i-1]
		}
	}
}

func splitCommas(t []string) (out [][]string) {
	if len(t) == 0 {
		return nil
	}
	d, st := 0, 0
	for i, s := range t {
		switch s {
		case "(", "[", "{":
			d++
		case ")", "]", "}":
			d--
		case ",":
			if d == 0 {
				out = append(out, t[st:i])
				st = i + 1
			}
		}
	}
	return append(out, t[st:])
}

func wantList(t []string) string {
	var o []string
	for _, g := range splitCommas(t) {
		o = append(o, wantExpr(g))
	}
	return strings.Join(o, " ")
}

func wantExpr(t []string) string {
	x := &xparser{t: t}
	var its []xitem
	operand := true
	for x.i < len(t) {
		s := t[x.i]
		x.i++
		if operand {
			switch {
			case s == "(":
				its = append(its, xitem{kind: 'a', text: wantExpr(x.group())})
				operand = false
			case s == "@cast":
				x.i += 3 // ( TYPE ,
				ty := t[x.i-2]
				its = append(its, xitem{kind: 'a', text: "(cast " + ty + " " + wantExpr(x.group()) + ")"})
				operand = false
			case s[0] == '@': // @S { a : e , b : e }
				x.i++
				var o []string
				for _, g := range splitCommas(x.group()) {
					o = append(o, g[0]+":"+wantExpr(g[2:]))
				}
				its = append(its, xitem{kind: 'a', text: "(struct " + s[1:] + " " + strings.Join(o, " ") + ")"})
				operand = false
			case s[0] == '[' && len(s) > 1: // [2]i32 { e , e }
				x.i++
				its = append(its, xitem{kind: 'a', text: "(array " + s + " " + wantList(x.group()) + ")"})
				operand = false
			case (s[0] >= 0x61 && s[0] <= 0x7a || s[0] == 0x5f) || isD(s[0]):
				its = append(its, xitem{kind: 'a', text: s})
				operand = false
			default:
				its = append(its, xitem{kind: 'p', text: s, lvl: 9})
			}
			continue
		}
		switch s {
		case "(":
			its = append(its, xitem{kind: 's', text: "call", lvl: 10, args: []string{wantList(x.group())}})
		case "[":
			its = append(its, xitem{kind: 's', text: "index", lvl: 12, args: []string{wantExpr(x.group())}})
		case "as":
			its = append(its, xitem{kind: 's', text: "cast " + t[x.i], lvl: 8})
			x.i++
		default:
			its = append(its, xitem{kind: 'b', text: s, lvl: exprLevel[s]})
			operand = true
		}
	}
	return wantItems(its)
}

func wantItems(its []xitem) string {
	at, low := -1, 99
	for i, it := range its {
		if i > 0 && it.kind != 'a' && it.kind != 'p' && it.lvl < low {
			low = it.lvl
		}
		// a call, index or cast takes all that is before it: it is the root only as the last item
		if (it.kind == 'b' || it.kind == 's' && i == len(its)-1) && (at < 0 || it.lvl <= its[at].lvl) {
			at = i
		}
	}
	if its[0].kind == 'p' && low > 9 {
		return "(" + its[0].text + " " + wantItems(its[1:]) + ")"
	}
	if at < 0 {
		return its[0].text
	}
	if its[at].text == "," {
		var o []string
		st := 0
		for i, it := range its {
			if it.kind == 'b' && it.text == "," {
				o = append(o, wantItems(its[st:i]))
				st = i + 1
			}
		}
		return "(, " + strings.Join(append(o, wantItems(its[st:])), " ") + ")"
	}
	if its[at].kind == 's' {
		r := "(" + its[at].text + " " + wantItems(its[:at])
		for _, a := range its[at].args {
			r += " " + a
		}
		return strings.TrimRight(r, " ") + ")"
	}
	return "(" + its[at].text + " " + wantItems(its[:at]) + " " + wantItems(its[at+1:]) + ")"
}

// ---- the tree the code builds

func opText(o ops.Operation) string {
	switch o {
	case ops.TempAssign:
		return "="
	}
	return o.String()
}

func gotList(es []ast.Expression) string {
	var o []string
	for _, e := range es {
		o = append(o, gotExpr(e))
	}
	return strings.Join(o, " ")
}

func gotExpr(e ast.Expression) string {
	switch t := e.(type) {
	case *ast.Identifier:
		return ast.RetrieveID(t.Name)
	case *ast.Integer:
		return fmt.Sprint(t.Value)
	case *ast.BinaryOperation:
		return "(" + opText(t.Operation) + " " + gotExpr(t.Left) + " " + gotExpr(t.Right) + ")"
	case *ast.PrefixOperation:
		return "(" + opText(t.Operation) + " " + gotExpr(t.Right) + ")"
	case *ast.IndexAccess:
		return "(index " + gotExpr(t.Left) + " " + gotExpr(t.Access) + ")"
	case *ast.Call:
		return strings.TrimRight("(call "+gotExpr(t.Left)+" "+gotList(t.Parameters), " ") + ")"
	case *ast.BuiltinCall:
		return "(" + t.Name + " " + typeText(t.TypeParameters[0]) + " " + gotList(t.Parameters) + ")"
	case *ast.CommaExpressions:
		return "(, " + gotList(t.Expressions) + ")"
	case *ast.ArrayLiteral:
		return "(array " + typeText(t.Node.Type) + " " + gotList(t.Values) + ")"
	case *ast.StructLiteral:
		var o []string
		for _, v := range t.Values {
			o = append(o, v.Name+":"+gotExpr(v.Expression))
		}
		return "(struct " + ast.RetrieveID(t.Name) + " " + strings.Join(o, " ") + ")"
	}
	return fmt.Sprintf("%T", e)
}

func typeText(t ctypes.Type) string {
	switch x := t.(type) {
	case *ctypes.Integer:
		return fmt.Sprint("i", x.BitSize)
	case *ctypes.UInteger:
		return fmt.Sprint("u", x.BitSize)
	case *ctypes.Float:
		return fmt.Sprint("f", x.BitSize)
	case *ctypes.Pointer:
		return "*" + typeText(x.Inner)
	case *ctypes.Array:
		return fmt.Sprintf("[%d]%s", x.Length, typeText(x.Inner))
	}
	return fmt.Sprintf("%T", t)
}

// groups: expr "E" parsed in x := E; stmt "L = R" as a statement
func checkExpr(group, in string) (out string) {
	src := "func main() {\n" + in + " ;\n}\n"
	if group != "stmt" {
		src = "func main() {\n x := " + in + " ;\n}\n"
	}
	want := wantExpr(strings.Fields(in))
	p := parser.New(lexer.New(src))
	prog := p.Parse()
	if len(p.Errors) > 0 {
		return fmt.Sprintf("rejected (%s), expected %s", strings.Split(p.Errors[0].Error(), "\n")[0], want)
	}
	ss := prog.Statements[0].(*ast.FunctionDeclarationStatement).Block.Statements
	if len(ss) != 1 {
		return fmt.Sprintf("%d statements instead of one", len(ss))
	}
	var got string
	switch s := ss[0].(type) {
	case *ast.DeclarationStatement:
		got = gotExpr(s.Expression)
	case *ast.AssignmentStatement:
		got = "(= " + gotExpr(s.Left) + " " + gotExpr(s.Expression) + ")"
	case *ast.ExpressionStatement:
		got = gotExpr(s.Expression)
	default:
		got = fmt.Sprintf("%T", s)
	}
	if got != want {
		return "grouped as " + got + ", expected " + want
	}
	return ""
}

var exprNames = []string{"a", "b", "c", "d", "e", "f"}
var exprTypes = []string{"i32", "i64", "u8", "f32", "*i32", "[3]i8", "**u16"}

func pick(r *rand.Rand, s []string) string { return s[r.Intn(len(s))] }

func randOperand(r *rand.Rand, d int, afterDot bool) string {
	if afterDot {
		return pick(r, exprNames)
	}
	k := r.Intn(12)
	if d <= 0 {
		k = k % 5
	}
	switch {
	case k < 4:
		return pick(r, exprNames)
	case k == 4:
		return strconv.Itoa(r.Intn(50))
	case k < 9:
		return "( " + randExpr(r, d-1) + " )"
	case k == 9:
		return "@cast ( " + pick(r, exprTypes) + " , " + randExpr(r, d-1) + " )"
	case k == 10:
		return "@S { p : " + randExpr(r, d-1) + " , q : " + randExpr(r, d-1) + " }"
	}
	return "[2]i32 { " + randExpr(r, d-1) + " , " + randExpr(r, d-1) + " }"
}

func randExpr(r *rand.Rand, d int) string {
	var o []string
	n := 1 + r.Intn(5)
	dot, as := false, false
	for i := 0; i < n; i++ {
		if !dot {
			for r.Intn(5) == 0 {
				o = append(o, pick(r, exprPre))
			}
		}
		o = append(o, randOperand(r, d, dot))
		as = false
		for r.Intn(4) == 0 {
			switch r.Intn(3) {
			case 0:
				if d > 0 {
					s := "("
					for j := r.Intn(3); j > 0; j-- {
						s += " " + randExpr(r, d-1)
						if j > 1 {
							s += " ,"
						}
					}
					o = append(o, s+" )")
					as = false
				}
			case 1:
				o = append(o, "[ "+randExpr(r, d-2)+" ]")
				as = false
			case 2:
				o = append(o, "as "+pick(r, exprTypes))
				as = true
			}
		}
		if i+1 < n {
			b := pick(r, exprBin)
			for as && b == "." {
				b = pick(r, exprBin)
			}
			dot = b == "."
			o = append(o, b)
		}
	}
	return strings.Join(o, " ")
}

func randTarget(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return pick(r, exprNames)
	case 1:
		return "* " + pick(r, exprNames)
	case 2:
		return pick(r, exprNames) + " [ " + randExpr(r, 1) + " ]"
	}
	return pick(r, exprNames) + " . " + pick(r, exprNames)
}

func genExpr(r *rand.Rand, deep bool, emit func(g, in string) bool) {
	infix := append(append([]string{}, exprBin...), "( x )", "[ x ]", "as i32")
	step := func(first, op, nm string) string {
		if len(op) > 3 {
			return first + " " + op
		}
		return first + " " + op + " " + nm
	}
	bad := func(ops ...string) bool {
		for i := 1; i < len(ops); i++ {
			if ops[i-1] == "as i32" && ops[i] == "." {
				return true
			}
		}
		return false
	}
	for _, pre := range append([]string{""}, exprPre...) {
		for _, a := range infix {
			emit("one", strings.TrimSpace(pre+" "+step("a", a, "b")))
			for _, q := range exprPre {
				if len(a) < 3 && a != "." {
					emit("pre", strings.TrimSpace(pre+" a "+a+" "+q+" b"))
				}
			}
			for _, b := range infix {
				if !bad(a, b) {
					emit("two", strings.TrimSpace(pre+" "+step(step("a", a, "b"), b, "c")))
				}
			}
		}
	}
	for _, a := range infix {
		for _, b := range infix {
			if bad(a, b) {
				continue
			}
			t := step(step("a", a, "b"), b, "c")
			emit("stmt", "x = "+t)
			emit("stmt", "x , y = a , "+t)
			emit("stmt", "x , y , z = "+t+" , a , b")
			emit("list", "f ( "+t+" , "+t+" )")
			emit("list", "[2]i32 { "+t+" , a }")
			emit("list", "@S { p : "+t+" , q : a }")
			emit("list", t+" , a , "+t)
			emit("list", "( "+t+" ) + a")
			emit("list", "a [ "+t+" ]")
			if len(a) <= 2 && a != "." {
				emit("list", "a "+strings.Fields(a)[0]+" ( "+t+" )")
			}
			for _, c := range infix {
				if !bad(b, c) && !emit("three", step(t, c, "d")) {
					return
				}
			}
		}
	}
	for {
		d := 1 + r.Intn(3)
		ok := true
		switch r.Intn(5) {
		case 0:
			ok = emit("stmt", randTarget(r)+" = "+randExpr(r, d))
		case 1:
			ok = emit("stmt", randTarget(r)+" , "+randTarget(r)+" = "+randExpr(r, d)+" , "+randExpr(r, d))
		case 2:
			ok = emit("random", randExpr(r, d)+" , "+randExpr(r, d))
		default:
			ok = emit("random", randExpr(r, d))
		}
		if !ok {
			return
		}
	}
}

// ---- literals

func checkLiteral(group, in string) string {
	if group == "len" {
		n, _ := new(big.Int).SetString(in, 10)
		p := parser.New(lexer.New("func main() { x : [" + in + "]i8 = y; }"))
		prog := p.Parse()
		fits := n.Cmp(big.NewInt(1<<31-1)) <= 0
		if fits != (len(p.Errors) == 0) {
			return fmt.Sprintf("array length %s: accepted=%v", in, len(p.Errors) == 0)
		}
		if fits {
			d := prog.Statements[0].(*ast.FunctionDeclarationStatement).Block.Statements[0].(*ast.DeclarationStatement)
			if a, ok := d.Type.(*ctypes.Array); !ok || big.NewInt(a.Length).Cmp(n) != 0 {
				return fmt.Sprintf("array length %s: got %s", in, typeText(d.Type))
			}
		}
		return ""
	}
	p := parser.New(lexer.New("func main() { x := " + in + "; }"))
	prog := p.Parse()
	var e ast.Expression
	if len(p.Errors) == 0 {
		e = prog.Statements[0].(*ast.FunctionDeclarationStatement).Block.Statements[0].(*ast.DeclarationStatement).Expression
	}
	got := "rejected"
	switch t := e.(type) {
	case nil:
	case *ast.Integer:
		v := fmt.Sprint(t.Value)
		if u, ok := t.Node.Type.(*ctypes.UInteger); ok && u.BitSize == 64 {
			v = fmt.Sprint(uint64(t.Value))
		}
		got = typeText(t.Node.Type) + " " + v
	case *ast.Float:
		got = typeText(t.Node.Type) + " " + strconv.FormatFloat(t.Value, 'g', -1, 64)
	case *ast.StringLiteral:
		got = typeText(t.Node.Type) + " " + strconv.Quote(t.Value)
	default:
		got = fmt.Sprintf("%T", e)
	}
	want := ""
	switch group {
	case "int":
		base, d := 10, in
		if strings.HasPrefix(in, "0x") {
			base, d = 16, in[2:]
		} else if strings.HasPrefix(in, "0b") {
			base, d = 2, in[2:]
		}
		v, ok := new(big.Int).SetString(d, base)
		switch {
		case !ok || v.BitLen() > 64:
			want = "rejected"
		case v.BitLen() == 64:
			want = "u64 " + v.String()
		case v.BitLen() > 31:
			want = "i64 " + v.String()
		default:
			want = "i32 " + v.String()
		}
	case "char":
		want = fmt.Sprint("i8 ", in[1])
	case "float":
		f, err := strconv.ParseFloat(in, 64)
		want = "f32 " + strconv.FormatFloat(f, 'g', -1, 64)
		if err != nil {
			want = "rejected"
		}
	case "string":
		want = "*i8 " + strconv.Quote(in[1:len(in)-1])
	}
	if got != want {
		return fmt.Sprintf("literal %s: got %s, expected %s", in, got, want)
	}
	return ""
}

func genLiteral(r *rand.Rand, deep bool, emit func(g, in string) bool) {
	one := big.NewInt(1)
	num := func(v *big.Int) {
		if v.Sign() >= 0 {
			emit("int", v.Text(10))
			emit("int", "0x"+v.Text(16))
			emit("int", "0x"+strings.ToUpper(v.Text(16)))
			emit("int", "0b"+v.Text(2))
			emit("int", "00"+v.Text(10))
			emit("int", "0x0"+v.Text(16))
			emit("len", v.Text(10))
			emit("len", "0"+v.Text(10))
		}
	}
	for b := uint(0); b <= 70; b++ {
		v := new(big.Int).Lsh(one, b)
		for d := int64(-2); d <= 2; d++ {
			num(new(big.Int).Add(v, big.NewInt(d)))
		}
	}
	for d := 1; d <= 24; d++ {
		v := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(d)), nil)
		num(v)
		num(new(big.Int).Sub(v, one))
	}
	emit("int", "0x")
	emit("int", "0b")
	for c := 1; c < 256; c++ {
		if c != '\'' && c != '\\' {
			emit("char", "'"+string([]byte{byte(c)})+"'")
		}
		if c != '"' && c != '\\' {
			emit("string", `"a`+string([]byte{byte(c)})+`z"`)
		}
	}
	emit("string", `""`)
	for _, f := range []string{"0.0", "1.5", "0.1", "3.14159265358979", "123456789.123456789", "00.50", "1.0000000000000000001", "9007199254740993.0", "0.000000000000000000000000000001"} {
		emit("float", f)
	}
	for {
		v := new(big.Int).Rand(r, new(big.Int).Lsh(one, uint(1+r.Intn(68))))
		num(v)
		if !emit("float", fmt.Sprintf("%d.%d", r.Intn(1<<uint(1+r.Intn(30))), r.Intn(1<<uint(1+r.Intn(30))))) {
			return
		}
	}
}

func init() {
	props["C06"] = &Prop{Rule: "every expression of two and (without prefixes) three operators over all binary operators, call, index and as, with every prefix operator; in assignments, lists, calls, literals; then random expressions of depth up to 3; compared with an independent grouping by the loosest, last operator",
		Gen: genExpr, Check: checkExpr, Timeout: 10 * time.Second}
	props["C07"] = &Prop{Rule: "integer literals around every power of two up to 2^70 and of ten up to 10^24 in three bases, array lengths, every one-byte character and string, floats; then random ones; compared with big-integer arithmetic",
		Gen: genLiteral, Check: checkLiteral, Timeout: 10 * time.Second}
}
