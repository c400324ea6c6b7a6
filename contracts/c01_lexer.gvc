package lexer
only C01,C02,C03

// ---- the language's lexical grammar, written over the source text and byte offsets.
// The source text holds no NUL byte; at() gives 0 past the end.
spec at(s string, p int) int = ite(0 <= p && p < len(s), int(s[p]), 0)
spec nonul(s string) bool = forall(k, 0, len(s), int(s[k]) != 0)
spec space(c int) bool = c == ' ' || c == '\t' || c == '\r' || c == '\n'
spec letter(c int) bool = 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || c == '_'
spec digit(c int) bool = '0' <= c && c <= '9'
spec hexdig(c int) bool = digit(c) || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F'
rec wsEnd(s string, p int) int = ite(space(at(s, p)), wsEnd(s, p+1), p)
rec lineEnd(s string, p int) int = ite(at(s, p) == 0 || at(s, p) == '\n', p, lineEnd(s, p+1))
// just after the comment that starts at p
spec afterComment(s string, p int) int = let(e, lineEnd(s, p), ite(at(s, e) == 0, e, e+1))
spec comment(s string, p int) bool = at(s, p) == '/' && at(s, p+1) == '/'
rec skippedC(s string, q int) int = ite(comment(s, q), skippedC(s, wsEnd(s, afterComment(s, q))), q)
spec skipped(s string, p int) int = skippedC(s, wsEnd(s, p))
rec identEnd(s string, p int) int = ite(letter(at(s, p)) || digit(at(s, p)), identEnd(s, p+1), p)
rec digEnd(s string, p int) int = ite(digit(at(s, p)), digEnd(s, p+1), p)
rec hexEnd(s string, p int) int = ite(hexdig(at(s, p)), hexEnd(s, p+1), p)
rec binEnd(s string, p int) int = ite(at(s, p) == '0' || at(s, p) == '1', binEnd(s, p+1), p)
// the closing quote (or the end of the text) of the string whose contents start at p
rec strEnd(s string, p int) int = ite(at(s, p) == 0 || at(s, p) == '"', p, ite(at(s, p) == '\\', strEnd(s, p+2), strEnd(s, p+1)))
// the contents, after what has been read already
rec strVal(s string, p int, acc string) string = ite(at(s, p) == 0 || at(s, p) == '"', acc,
   ite(at(s, p) == '\\', strVal(s, p+2, acc + ite(at(s, p+1) == 'n', "\n", chr(at(s, p+1)))), strVal(s, p+1, acc + chr(at(s, p)))))
// number of newlines among the first p bytes
rec nls(s string, p int) int = ite(p <= 0, 0, nls(s, p-1) + ite(at(s, p-1) == '\n', 1, 0))

spec isHex(s string, p int) bool = at(s, p) == '0' && at(s, p+1) == 'x'
spec isBin(s string, p int) bool = at(s, p) == '0' && at(s, p+1) == 'b'
spec isFloat(s string, p int) bool = let(d, digEnd(s, p), at(s, d) == '.' && digit(at(s, d+1)))
spec numEnd(s string, p int) int = ite(isHex(s, p), hexEnd(s, p+2), ite(isBin(s, p), binEnd(s, p+2),
   ite(isFloat(s, p), digEnd(s, digEnd(s, p)+1), digEnd(s, p))))
spec numKind(s string, p int) string = ite(isHex(s, p), "HEX", ite(isBin(s, p), "BINARY", ite(isFloat(s, p), "FLOAT", "INT")))
spec kw(x string) string = ite(x == "func", "FUNCTION", ite(x == "pub", "pub", ite(x == "true", "TRUE", ite(x == "false", "FALSE",
   ite(x == "if", "IF", ite(x == "else", "ELSE", ite(x == "for", "FOR", ite(x == "return", "RETURN", ite(x == "struct", "STRUCT",
   ite(x == "import", "IMPORT", ite(x == "break", "BREAK", ite(x == "extern", "EXTERN", ite(x == "continue", "CONTINUE", ite(x == "type", "type",
   ite(x == "as", "AS", ite(x == "union", "union", ite(x == "switch", "SWITCH", ite(x == "case", "CASE", ite(x == "default", "DEFAULT",
   ite(x == "const", "CONSTANT", "IDENT"))))))))))))))))))))
spec one(c int) bool = c == '@' || c == ':' || c == '[' || c == ']' || c == '%' || c == ';' || c == '(' || c == ')' || c == '*' || c == '/' ||
   c == '^' || c == ',' || c == '{' || c == '}'
// first byte of an operator that doubles, or takes '='
spec dbl(c int, d int) bool = c == d && (c == '.' || c == '+' || c == '-' || c == '<' || c == '>' || c == '&' || c == '|' || c == '=') ||
   d == '=' && (c == '!' || c == '<' || c == '>')
spec op1(c int) bool = c == '.' || c == '=' || c == '!' || c == '+' || c == '-' || c == '<' || c == '>' || c == '&' || c == '|'
spec escval(c int) int = ite(c == 'n', 10, ite(c == 't', 9, ite(c == 'r', 13, c)))
// a well-formed char literal at p: its length, else 0
spec charLen(s string, p int) int = ite(at(s, p+1) == '\\' && p+3 < len(s) && at(s, p+3) == '\'', 4,
   ite(at(s, p+1) != '\\' && p+2 < len(s) && at(s, p+2) == '\'', 3, 0))
spec charVal(s string, p int) int = ite(at(s, p+1) == '\\', escval(at(s, p+2)), at(s, p+1))

spec wf(l *Lexer) bool = l.readPosition == l.position + 1 && 0 <= l.position && int(l.ch) == at(l.input, l.position) &&
   nonul(l.input) && len(l.input) < 4000000000
spec lines(l *Lexer) bool = int(l.line) == 1 + nls(l.input, l.position) && nls(l.input, l.position) >= 0 && nls(l.input, l.position) <= l.position &&
   nls(l.input, l.position) <= len(l.input)

func New(input) (l) C01 C02 C03
requires nonul(input) && len(input) < 4000000000
ensures [wf] l != nil && wf(l) && l.position == 0 && l.input == input
ensures [C03 lines] lines(l)

func (*Lexer).NextToken(l) (t) C01 C02 C03
requires wf(l) && lines(l)
ensures [wf] wf(l) && l.input == old(l.input)
ensures [C03 lines] lines(l)
ensures [C03 linestart] let(s, l.input, let(p, skipped(s, old(l.position)), 1 + nls(s, p) <= int(t.Line) && int(t.Line) <= 1 + nls(s, l.position)))
ensures [C03 progress] l.position >= skipped(l.input, old(l.position))
ensures [C01 end] let(s, l.input, let(p, skipped(s, old(l.position)), imp(at(s, p) == 0, t.Type == "EOF")))
ensures [C01 ident] let(s, l.input, let(p, skipped(s, old(l.position)), imp(letter(at(s, p)),
   t.Literal == s[p:identEnd(s, p)] && t.Type == kw(s[p:identEnd(s, p)]) && l.position == identEnd(s, p))))
ensures [C01 number] let(s, l.input, let(p, skipped(s, old(l.position)), imp(digit(at(s, p)),
   t.Literal == s[p:numEnd(s, p)] && t.Type == numKind(s, p) && l.position == numEnd(s, p))))
ensures [C01 one] let(s, l.input, let(p, skipped(s, old(l.position)), imp(one(at(s, p)), t.Type == chr(at(s, p)) && t.Literal == chr(at(s, p)) && l.position == p+1)))
ensures [C01 op1] let(s, l.input, let(p, skipped(s, old(l.position)), imp(op1(at(s, p)) && !dbl(at(s, p), at(s, p+1)),
   t.Type == chr(at(s, p)) && t.Literal == chr(at(s, p)) && l.position == p+1)))
ensures [C01 op2] let(s, l.input, let(p, skipped(s, old(l.position)), imp(dbl(at(s, p), at(s, p+1)),
   t.Type == chr(at(s, p)) + chr(at(s, p+1)) && t.Literal == chr(at(s, p)) + chr(at(s, p+1)) && l.position == p+2)))
ensures [C01 macro] let(s, l.input, let(p, skipped(s, old(l.position)), imp(at(s, p) == '#' && s[p+1:identEnd(s, p+1)] == "if", t.Type == "#IF" && l.position == identEnd(s, p+1))))
ensures [C01 badmacro] let(s, l.input, let(p, skipped(s, old(l.position)), imp(at(s, p) == '#' && s[p+1:identEnd(s, p+1)] != "if", t.Type == "ILLEGAL")))
ensures [C01 illegal] let(s, l.input, let(c, at(s, skipped(s, old(l.position))), imp(c != 0 && !letter(c) && !digit(c) && !one(c) && !op1(c) && c != '#' && c != '"' && c != '\'', t.Type == "ILLEGAL")))
ensures [C01 illegalend] let(s, l.input, let(p, skipped(s, old(l.position)), let(c, at(s, p), imp(c != 0 && !letter(c) && !digit(c) && !one(c) && !op1(c) && c != '#' && c != '"' && c != '\'', l.position == p+1))))
ensures [C01,C02 string] let(s, l.input, let(p, skipped(s, old(l.position)), imp(at(s, p) == '"', t.Type == "STRING" && l.position == strEnd(s, p+1)+1)))
ensures [C01,C02 char] let(s, l.input, let(p, skipped(s, old(l.position)), imp(at(s, p) == '\'' && charLen(s, p) > 0, t.Type == "CHAR" && l.position == p + charLen(s, p))))
ensures [C01,C02 badchar] let(s, l.input, let(p, skipped(s, old(l.position)), imp(at(s, p) == '\'' && charLen(s, p) == 0, t.Type == "ILLEGAL")))
ensures [C02 stringval] let(s, l.input, let(p, skipped(s, old(l.position)), imp(at(s, p) == '"', t.Literal == strVal(s, p+1, ""))))
ensures [C02 charval] let(s, l.input, let(p, skipped(s, old(l.position)), imp(at(s, p) == '\'' && charLen(s, p) > 0, t.Literal == chr(charVal(s, p)))))

func (*Lexer).skipWhiteSpace(l) helper
requires wf(l)
requires [C03] lines(l)
ensures wf(l) && l.input == old(l.input) && l.position == wsEnd(l.input, old(l.position)) && l.position >= old(l.position) && !space(at(l.input, l.position))
ensures [C03] lines(l)

func (*Lexer).readString(l) (r) helper
requires wf(l) && at(l.input, l.position) == '"'
requires [C03] lines(l)
ensures wf(l) && l.input == old(l.input) && l.position == strEnd(l.input, old(l.position) + 1) && l.position > old(l.position) && (int(l.ch) == 0 || int(l.ch) == '"')
ensures [C02] r == strVal(l.input, old(l.position) + 1, "")
ensures [C03] lines(l) && l.line >= old(l.line)

func (*Lexer).parseNumericToken(l) (t) helper
requires wf(l) && digit(int(l.ch))
requires [C03] lines(l)
ensures wf(l) && l.input == old(l.input) && l.position == numEnd(l.input, old(l.position))
ensures t.Type == numKind(l.input, old(l.position)) && t.Literal == l.input[old(l.position):l.position]
ensures [C03] lines(l) && t.Line == l.line && l.position >= old(l.position)

// ---- loop invariants
pool (l *Lexer)
inv wf(l)
inv l.input == entry(l.input)
inv l.line == entry(l.line)
inv wsEnd(l.input, l.position) == entry(wsEnd(l.input, l.position))
inv lineEnd(l.input, l.position) == entry(lineEnd(l.input, l.position))
inv identEnd(l.input, l.position) == entry(identEnd(l.input, l.position))
inv digEnd(l.input, l.position) == entry(digEnd(l.input, l.position))
inv hexEnd(l.input, l.position) == entry(hexEnd(l.input, l.position))
inv binEnd(l.input, l.position) == entry(binEnd(l.input, l.position))
inv strEnd(l.input, l.position) == entry(strEnd(l.input, l.position))
inv skippedC(l.input, l.position) == entry(skippedC(l.input, l.position))
inv !space(at(l.input, l.position))
inv l.position >= entry(l.position)
inv lines(l)
inv l.line >= entry(l.line)
inv nls(l.input, l.position) == entry(nls(l.input, l.position))
inv l.position <= len(l.input)
pool (l *Lexer, s phi string) C02
inv strVal(l.input, l.position, s) == entry(strVal(l.input, l.position, s))
