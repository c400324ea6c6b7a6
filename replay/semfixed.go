package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// Small systematic families of programs: every way of declaring crossed with every way of using.

const modSrc = `const MK : i32 = 3;
const MA : [2]i32 = [2]i32{1, 2};
mx : i32 = 4;
func mf() i32 { return 1; }
`

// withModule gives the program a module to import: IMPORT stands for the import statement
func withModule(src string) (string, func()) {
	if !strings.Contains(src, "IMPORT") {
		return src, func() {}
	}
	d, err := os.MkdirTemp("", "verifmod")
	if err != nil {
		return src, func() {}
	}
	os.WriteFile(filepath.Join(d, "m.cd"), []byte(modSrc), 0o644)
	wd, _ := os.Getwd()
	rel, err := filepath.Rel(wd, d)
	if err != nil {
		rel = d
	}
	return strings.Replace(src, "IMPORT", fmt.Sprintf("import m, %q;", rel+"/m.cd"), 1), func() { os.RemoveAll(d) }
}

func constCases() (cs []semCase) {
	add := func(src, why string) { cs = append(cs, semCase{src, why == "", why}) }
	prog := func(g, body string) string {
		return "struct S { a i32 b [2]i32 p *i32 }\nfunc id(a i32) i32 { return a; }\n" + g + "\nfunc main() i32 {\n" + body + "\nreturn 0;\n}\n"
	}
	arr, str := "[2]i32{1, 2}", "@S{a: 1, b: [2]i32{1, 2}, p: @cast(*i32, 0)}"
	// ways to mutate a value of the given kind
	muts := map[string][]string{
		"i32": {"X = 5;", "++X;", "--X;"},
		"arr": {"X[0] = 5;", "++X[1];", "--X[0];", "X = " + arr + ";", "X[id(1)] = 2;"},
		"str": {"X.a = 5;", "++X.a;", "X.b[1] = 5;", "--X.b[0];", "X.b = " + arr + ";", "X = " + str + ";"},
	}
	init := map[string]string{"i32": "7", "arr": arr, "str": str}
	typ := map[string]string{"i32": "i32", "arr": "[2]i32", "str": "S"}
	for _, k := range []string{"i32", "arr", "str"} {
		for _, m := range muts[k] {
			for _, con := range []bool{true, false} {
				why, kw := "", ""
				if con {
					why, kw = "mutation", "const "
				}
				m := strings.ReplaceAll(m, "X", "x")
				u, t := init[k], typ[k]
				add(prog("", kw+"x := "+u+";\n"+m), why)
				add(prog("", kw+"x : "+t+" = "+u+";\n"+m), why)
				add(prog("", kw+"x, y := "+u+", 1;\n"+m), why)
				add(prog("", kw+"y, x := 1, "+u+";\n"+m), why)
				add(prog("", kw+"z, y, x := 1, 2, "+u+";\n"+m), why)
				// in scopes further in
				add(prog("", kw+"x := "+u+";\nif 1 { "+m+" }"), why)
				add(prog("", kw+"x := "+u+";\nfor i := 0; i < 3; i = i + 1 { "+m+" }"), why)
				add(prog("", kw+"x := "+u+";\nswitch 1 { case 1 { "+m+" } }"), why)
				add(prog("", kw+"x := "+u+";\nif 0 { } else if 1 { } else { "+m+" }"), why)
				// a variable of the same name in an inner scope, and after it
				add(prog("", kw+"x := "+u+";\nif 1 { x := "+u+"; "+m+" }"), "")
				add(prog("", kw+"x := "+u+";\nif 1 { x := 1; x = 2; }\n"+m), why)
				add(prog("", "x := "+u+";\nif 1 { "+kw+"x := "+u+"; }\n"+m), "")
				add(prog("", "x := "+u+";\nif 1 { "+kw+"x := "+u+"; "+m+" }"), why)
				if con {
					// read while something else is modified
					add(prog("", "const x := 1;\na := "+arr+";\na[x] = x;\n++a[x];"), "")
				}
			}
		}
	}
	// captured
	for _, m := range []string{"x = 5;", "++x;", "--x;"} {
		add(prog("", "const x := 7;\ng := func() i32 { "+m+" return x; };"), "mutation")
		add(prog("", "x := 7;\ng := func() i32 { "+m+" return x; };"), "")
		add(prog("", "const x := 7;\ng := func() i32 { h := func() i32 { "+m+" return 1; }; return x; };"), "mutation")
		add(prog("", "const x := 7;\ng := func() i32 { return x; };\n"+m), "mutation")
		add(prog("", "const x := 7;\ng := func() i32 { y := x; "+m+" return y; };"), "mutation")
		add(prog("", "const x := 7;\ng := func(x i32) i32 { "+m+" return x; };"), "")
	}
	// global
	add(prog("const x : i32 = 3;", "x = 4;"), "mutation")
	add(prog("const x : i32 = 3;", "++x;"), "mutation")
	add(prog("const x : i32 = 3;\nfunc f() i32 { x = 3; return x; }", ""), "mutation")
	add(prog("const x : i32 = 3;", "x := 4; x = 5;"), "")
	// imported
	for _, m := range []string{"m.MK = 4;", "++m.MK;", "m.MA[0] = 4;", "--m.MA[1];"} {
		add(prog("IMPORT", m), "mutation")
	}
	add(prog("IMPORT", "m.mx = 4;"), "")
	add(prog("IMPORT", "const y := m.mx;"), "constant")
	add(prog("IMPORT", "const y := m.MK;"), "")
	add(prog("IMPORT", "switch 3 { case m.mx { } }"), "constant")
	add(prog("IMPORT", "switch 3 { case m.MK { } }"), "")
	add(prog("IMPORT", "const y := m.mf();"), "constant")
	// the initialiser of a constant and the label of a case; V stands for the variable or constant used
	for _, e := range []struct{ e, t string }{
		{"V", "i32"}, {"V + 1", "i32"}, {"1 + V", "i32"}, {"-V", "i32"}, {"1 * (2 + V)", "i32"}, {"V << 2", "i32"}, {"2 & V", "i32"},
		{"@cast(i32, V)", "i32"}, {"V < 3", ""}, {"3 == V", ""}, {"!V", ""}, {"1 && V", ""}, {"[2]i32{1, V}[0]", "i32"}, {"[2]i32{V, 1}[0]", "i32"},
		{"A[V]", "i32"}, {"[2]i32{V, 1}", ""}, {"[2]i32{1, V}", ""}, {"@S{a: V, b: [2]i32{1, 2}, p: @cast(*i32, 0)}", ""},
		{"@S{a: 1, b: [2]i32{1, V}, p: @cast(*i32, 0)}", ""}, {"@S{a: V, b: [2]i32{1, V}, p: @cast(*i32, 0)}.a", "i32"}, {"V as i64", ""},
	} {
		for _, con := range []bool{true, false} {
			why, kw := "constant", ""
			if con {
				why, kw = "", "const "
			}
			x := strings.ReplaceAll(e.e, "V", "v")
			x = strings.ReplaceAll(x, "A", "ca")
			d := "const ca := " + arr + ";\n" + kw + "v := 1;\n"
			add(prog("", d+"const k := "+x+";"), why)
			if e.t != "" {
				add(prog("", d+"const k : i32 = "+x+";"), why)
				add(prog("", d+"switch 1 { case "+x+" { } }"), why)
				add(prog("", d+"switch 1 { case 1 { } case "+x+" { } default { } }"), why)
			}
			add(prog("", d+"k := "+x+";"), "")
		}
	}
	for _, e := range []string{"id(1)", "*P", "&c", "*PS[0]", "++v", "--v", "id(1) + 1", "1 + id(1)", "A[id(1)]", "[2]i32{1, id(1)}", "@alloc(i32, 1)", "*(*PP)", "-id(1)", "@cast(i64, id(1))",
		"@S{a: id(1), b: [2]i32{1, 2}, p: @cast(*i32, 0)}", "[1]*i32{&v}"} {
		x := strings.NewReplacer("PS", "ps", "PP", "pp", "P", "p", "A", "ca").Replace(e)
		if e[0] == '@' {
			x = e
		}
		d := "const ca := " + arr + ";\nconst p := @cast(*i32, 0);\nconst ps := [1]*i32{@cast(*i32, 0)};\nconst pp := @cast(**i32, 0);\nconst c := 1;\nv := 1;\n"
		add(prog("", d+"const k := "+x+";"), "constant")
		add(prog("", d+"k := "+x+";"), "")
	}
	return
}

// scopeCases: every construct that opens a scope, with a name declared in it, and uses of that name
// inside it and after it.
func scopeCases() (out []semCase) {
	add := func(src string, ok bool) { out = append(out, semCase{src: src, ok: ok, why: "scope"}) }
	const v64 = "(2 as i64)"
	decls := []string{"x : i64 = " + v64 + ";", "x := " + v64 + ";", "const x := " + v64 + ";", "x, w := " + v64 + ", " + v64 + ";", "w, x := " + v64 + ", " + v64 + ";"}
	ends := []string{"", "return 1;"}
	opens := []string{
		"{ D E }", "if 1 == 1 { D E }", "if 1 == 1 { } else { D E }", "if 1 == 2 { } else if 1 == 1 { D E }", "for i := 0; i < 2; i = i + 1 { D E }", "for 1 == 1 { D E }",
		"switch 1 { case 1 { D E } }", "switch 1 { case 2 { } default { D E } }", "switch 1 { case 1 { D E } case 2 { } default { } }",
		"q0 := func(p i32) i32 { D return 1; };", "q0 := :i32 { D return 1; };", "if 1 == 1 { { D E } }", "for i := 0; i < 2; i = i + 1 { if i == 1 { D E } }",
		"if 1 == 1 { D if 1 == 2 { D E } }", "{ { D } D }",
	}
	hdr := []string{"for x := " + v64 + "; x < x; x = x { }", "for x : i64 = " + v64 + "; x < x; x = x { return 1; }", "q0 := func(x i64) i64 { return x; };"}
	main := func(body string) string { return "func main() i32 {\n" + body + "\nreturn 0;\n}\n" }
	for _, d := range decls {
		for _, o := range opens {
			for _, e := range ends {
				if (!strings.Contains(o, "E") || o == "{ D E }") && e != "" {
					// what follows a block that returns is not looked at
					continue
				}
				in := strings.NewReplacer("D", d+" y9 : i64 = x; ", "E", e).Replace(o)
				add(main(in), true)
				add(main(in+"\nz : i64 = x;"), false)
				add(main("x : i32 = 1;\n"+in+"\nz : i32 = x;"), true)
				add(main("x : i32 = 1;\n"+in+"\nz : i64 = x;"), false)
				add("x : i32 = 1;\n"+main(in+"\nz : i64 = x;"), false)
			}
		}
	}
	for _, in := range hdr {
		add(main(in), true)
		add(main(in+"\nz : i64 = x;"), false)
		add(main("x : i32 = 1;\n"+in+"\nz : i32 = x;"), true)
		add(main("x : i32 = 1;\n"+in+"\nz : i64 = x;"), false)
	}
	for _, f := range []string{"func f(x i64) i64 { return x; }", "func f() i32 { x := " + v64 + "; return 1; }", "func f() i32 { if 1 == 1 { x := " + v64 + "; return 1; } return 2; }", "func f(a i32, x i64) { x = x; }"} {
		g := "\nfunc g() i64 { return x; }\n"
		for _, p := range []string{f + g + main(""), g + f + "\n" + main(""), f + "\n" + main("z : i64 = x;"), main("z : i64 = x;") + f} {
			add(p, false)
		}
		add(f+"\n"+main("x := 1; z : i32 = x;"), true)
	}
	return
}
