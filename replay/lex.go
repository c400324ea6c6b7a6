package main

// Oracle for the tokeniser: an independent tokeniser for the language, and generators of
// source text built from lexemes and of arbitrary bytes.

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/gabivlj/candice/internals/lexer"
	"github.com/gabivlj/candice/internals/token"
)

type otok struct {
	kind, lit string
	line      uint32 // line of the first byte
	lineEnd   uint32
	illegal   bool
}

var okeys = map[string]string{"func": "FUNCTION", "pub": "pub", "true": "TRUE", "false": "FALSE", "if": "IF", "else": "ELSE",
	"for": "FOR", "return": "RETURN", "struct": "STRUCT", "import": "IMPORT", "break": "BREAK", "extern": "EXTERN",
	"continue": "CONTINUE", "type": "type", "as": "AS", "union": "union", "switch": "SWITCH", "case": "CASE", "default": "DEFAULT", "const": "CONSTANT"}

var oops = []string{"==", "!=", "<=", ">=", "<<", ">>", "&&", "||", "++", "--", "..",
	"@", "&", "|", "^", ",", "+", "-", "!", "*", "/", "<", ">", ".", "%", "(", ")", "{", "}", "[", "]", ";", ":", "="}

func isW(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\n' }
func isA(c byte) bool { return c == '_' || c|32 >= 'a' && c|32 <= 'z' && c < 128 }
func isD(c byte) bool { return c >= '0' && c <= '9' }

func oracleLex(s string) []otok {
	var out []otok
	i := 0
	lineAt := func(p int) uint32 { return uint32(1 + strings.Count(s[:p], "\n")) }
	for {
		for i < len(s) {
			if isW(s[i]) {
				i++
			} else if strings.HasPrefix(s[i:], "//") {
				k := strings.IndexByte(s[i:], '\n')
				if k < 0 {
					i = len(s)
				} else {
					i += k + 1
				}
			} else {
				break
			}
		}
		if i >= len(s) {
			out = append(out, otok{kind: "EOF", line: lineAt(len(s)), lineEnd: lineAt(len(s))})
			return out
		}
		st := i
		t := otok{line: lineAt(i)}
		c := s[i]
		switch {
		case isA(c):
			for i < len(s) && (isA(s[i]) || isD(s[i])) {
				i++
			}
			t.lit = s[st:i]
			t.kind = "IDENT"
			if k, ok := okeys[t.lit]; ok {
				t.kind = k
			}
		case isD(c):
			if c == '0' && i+1 < len(s) && (s[i+1] == 'x' || s[i+1] == 'b') {
				set := "01"
				t.kind = "BINARY"
				if s[i+1] == 'x' {
					set, t.kind = "0123456789abcdefABCDEF", "HEX"
				}
				i += 2
				for i < len(s) && strings.IndexByte(set, s[i]) >= 0 {
					i++
				}
			} else {
				t.kind = "INT"
				for i < len(s) && isD(s[i]) {
					i++
				}
				if i+1 < len(s) && s[i] == '.' && isD(s[i+1]) {
					t.kind = "FLOAT"
					i++
					for i < len(s) && isD(s[i]) {
						i++
					}
				}
			}
			t.lit = s[st:i]
		case c == '"':
			i++
			var b []byte
			for i < len(s) && s[i] != '"' {
				if s[i] == '\\' && i+1 < len(s) {
					i++
					if s[i] == 'n' {
						b = append(b, '\n')
					} else {
						b = append(b, s[i])
					}
				} else if s[i] == '\\' {
					// a lone backslash at the end of the text: unspecified contents
					t.illegal = true
				} else {
					b = append(b, s[i])
				}
				i++
			}
			i++
			if i > len(s) {
				i = len(s)
			}
			t.kind, t.lit = "STRING", string(b)
		case c == '\'':
			j := i + 1
			if j < len(s) && s[j] == '\\' && j+2 < len(s) && s[j+2] == '\'' {
				v := s[j+1]
				switch v {
				case 'n':
					v = '\n'
				case 't':
					v = '\t'
				case 'r':
					v = '\r'
				}
				t.kind, t.lit = "CHAR", string([]byte{v})
				i = j + 3
			} else if j+1 < len(s) && s[j] != '\\' && s[j+1] == '\'' {
				t.kind, t.lit = "CHAR", s[j:j+1]
				i = j + 2
			} else {
				t.kind = "ILLEGAL"
				t.illegal = true
				out = append(out, t)
				return out // where it resumes is not specified
			}
		case c == '#':
			j := i + 1
			for j < len(s) && (isA(s[j]) || isD(s[j])) {
				j++
			}
			if s[i+1:j] == "if" {
				t.kind = "#IF"
				t.lit = "#"
				i = j
			} else {
				t.kind = "ILLEGAL"
				t.illegal = true
				out = append(out, t)
				return out
			}
		default:
			for _, o := range oops {
				if strings.HasPrefix(s[i:], o) {
					t.kind, t.lit = o, o
					break
				}
			}
			if t.kind == "" {
				t.kind = "ILLEGAL"
				t.lit = s[i : i+1]
				i++
			} else {
				i += len(t.lit)
			}
		}
		t.lineEnd = lineAt(i)
		out = append(out, t)
	}
}

func checkLex(what string) func(g, in string) string {
	return func(g, in string) string {
		if strings.IndexByte(in, 0) >= 0 {
			return ""
		}
		l := lexer.New(in)
		want := oracleLex(in)
		for k, w := range want {
			t := l.NextToken()
			at := fmt.Sprintf("token %d: got %s %q line %d, want %s %q line %d", k, t.Type, t.Literal, t.Line, w.kind, w.lit, w.line)
			if string(t.Type) != w.kind {
				if what == "line" {
					return ""
				}
				return at
			}
			if what == "tok" && !w.illegal && w.kind != "STRING" && w.kind != "CHAR" && t.Literal != w.lit {
				return at
			}
			if what == "lit" && !w.illegal && (w.kind == "STRING" || w.kind == "CHAR") && t.Literal != w.lit {
				return at
			}
			if what == "line" && (t.Line < w.line || t.Line > w.lineEnd && !w.illegal) {
				return at
			}
			if w.illegal {
				break
			}
		}
		// the tokeniser ends: EOF is reached and repeated
		for k := 0; k < len(in)+8; k++ {
			if l.NextToken().Type == token.EOF {
				for j := 0; j < 3; j++ {
					if t := l.NextToken(); t.Type != token.EOF {
						return fmt.Sprintf("token %s after the end of the text", t.Type)
					}
				}
				return ""
			}
		}
		return "the end of the text is never reported"
	}
}

var lexemes = append(append([]string{"a", "x1", "_z", "iffy", "If", "func1", "0", "7", "10", "0x1F", "0xg", "0b101", "0b2", "1.5", "1..2", "1.x", "00.50",
	"\"\"", "\"ab\"", "\"a\\nb\"", "\"q\\\"r\"", "\"\\\\\"", "\"é√\"", "\"x\\ty\"", "\"two\nlines\"", "'a'", "'\\n'", "'\\t'", "'\\r'", "'\\\\'", "'\\''", "'\"'", "' '", "'é'", "''", "'ab'", "'",
	"#if", "#fi", "# if", "// c\n", "// c \"x\" 'y'\n", "//\n//\n", "/ /", "///", "$", "~", "`", "?", "\\", "é", "\n", "\r\n", "\t", " ", "\"open", "//end"}, oops...), keysOf(okeys)...)

func keysOf(m map[string]string) []string {
	var o []string
	for _, k := range strings.Fields("func pub true false if else for return struct import break extern continue type as union switch case default const") {
		if _, ok := m[k]; ok {
			o = append(o, k)
		}
	}
	return o
}

func genLex(r *rand.Rand, deep bool, emit func(g, in string) bool) {
	emit("empty", "")
	for c := 1; c < 256; c++ {
		emit("byte", string([]byte{byte(c)}))
		emit("quoted", "\""+string([]byte{byte(c)})+"\" x")
		emit("char", "'"+string([]byte{byte(c)})+"' x")
		emit("escchar", "'\\"+string([]byte{byte(c)})+"' x")
		emit("escquoted", "\"a\\"+string([]byte{byte(c)})+"b\" x")
		for d := 1; d < 256; d++ {
			if !emit("pair", string([]byte{byte(c), byte(d)})) {
				return
			}
		}
	}
	// contents of literals: all words over a small alphabet
	al := []string{"a", "n", "t", "\\", "\"", "'", "\n", "\xe9"}
	var words func(pre string, k int) bool
	words = func(pre string, k int) bool {
		if !emit("strword", "\""+pre+"\" x") || len(pre) <= 4 && !emit("charword", "'"+pre+"' x") {
			return false
		}
		if k > 0 {
			for _, c := range al {
				if !words(pre+c, k-1) {
					return false
				}
			}
		}
		return true
	}
	if !words("", 5) {
		return
	}
	// beginnings of tokens, numbers and comments: all words over their characters
	for _, set := range []string{"0123xb.afFgZ_ ", "/ \n\rx\"", "=!<>&|+-.*/^%", "#if_ 0\n"} {
		var w2 func(pre string, k int) bool
		w2 = func(pre string, k int) bool {
			if !emit("word", pre) || !emit("word", pre+" x") {
				return false
			}
			if k > 0 {
				for i := range set {
					if !w2(pre+set[i:i+1], k-1) {
						return false
					}
				}
			}
			return true
		}
		n := 4
		if len(set) < 9 {
			n = 6
		}
		if !w2("", n) {
			return
		}
	}
	for _, a := range lexemes {
		emit("one", a)
		for _, b := range lexemes {
			emit("two", a+b)
			emit("two", a+" "+b)
			if !emit("two", a+"\n"+b+"\n") {
				return
			}
		}
	}
	for {
		var b strings.Builder
		n := 1 + r.Intn(30)
		for i := 0; i < n; i++ {
			switch r.Intn(12) {
			case 0:
				b.WriteByte(byte(1 + r.Intn(255)))
			case 1:
				b.WriteByte(" \n\t\r"[r.Intn(4)])
			case 2:
				b.WriteString("\"")
				for k := r.Intn(6); k > 0; k-- {
					b.WriteString([]string{"a", "n", "\\n", "\\\"", "\\\\", "\xc3\xa9", "\n", " ", "//", "\\t", "\xff"}[r.Intn(11)])
				}
				b.WriteString("\"")
			default:
				b.WriteString(lexemes[r.Intn(len(lexemes))])
				if r.Intn(3) == 0 {
					b.WriteByte(" \n"[r.Intn(2)])
				}
			}
		}
		if !emit("random", b.String()) {
			return
		}
	}
}

func init() {
	const rule = "every 1- and 2-byte text, every byte inside string and char literals with and without a backslash, every pair of lexemes with three separators, then random sequences of up to 30 lexemes and bytes; compared token by token with an independent tokeniser"
	props["C01"] = &Prop{Rule: rule, Gen: genLex, Check: checkLex("tok"), Timeout: 10 * time.Second}
	props["C02"] = &Prop{Rule: rule, Gen: genLex, Check: checkLex("lit"), Timeout: 10 * time.Second}
	props["C03"] = &Prop{Rule: rule, Gen: genLex, Check: checkLex("line"), Timeout: 10 * time.Second}
}
