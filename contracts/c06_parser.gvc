package parser
only C06,C07

// ---- the language's precedence levels: a higher level binds tighter
spec prec(k string) int = ite(k == "=", 1, ite(k == ",", 2, ite(k == "&&" || k == "||", 3,
   ite(k == "==" || k == "!=" || k == ">=" || k == ">" || k == "<" || k == "<=", 4, ite(k == "+" || k == "-", 5,
   ite(k == "^" || k == "&" || k == "|" || k == "<<" || k == ">>", 6, ite(k == "*" || k == "/" || k == "%", 7,
   ite(k == "AS", 8, ite(k == "!", 9, ite(k == "(", 10, ite(k == "[", 12, ite(k == ".", 13, ite(k == "++" || k == "--", 21, 0)))))))))))))
spec binop(k string) bool = k == "=" || k == "&&" || k == "||" || k == "==" || k == "!=" || k == ">=" || k == ">" || k == "<" || k == "<=" ||
   k == "+" || k == "-" || k == "^" || k == "&" || k == "|" || k == "<<" || k == ">>" || k == "*" || k == "/" || k == "%" || k == "."
spec infix(k string) bool = binop(k) || k == "(" || k == "[" || k == "AS" || k == ","
spec prefixop(k string) bool = k == "!" || k == "&" || k == "-" || k == "+" || k == "*" || k == "++" || k == "--"
spec number(k string) bool = k == "INT" || k == "HEX" || k == "BINARY"
// the operation an operator token stands for
spec opOf(k string) int = ite(k == "=", int(ops.TempAssign), ite(k == "&&", int(ops.AND), ite(k == "||", int(ops.OR), ite(k == "==", int(ops.Equals), ite(k == "!=", int(ops.NotEquals),
   ite(k == ">=", int(ops.GreaterThanEqual), ite(k == ">", int(ops.GreaterThan), ite(k == "<", int(ops.LessThan), ite(k == "<=", int(ops.LessThanEqual),
   ite(k == "+", int(ops.Add), ite(k == "-", int(ops.Subtract), ite(k == "^", int(ops.BinaryXOR), ite(k == "&", int(ops.BinaryAND), ite(k == "|", int(ops.BinaryOR),
   ite(k == "<<", int(ops.LeftShift), ite(k == ">>", int(ops.RightShift), ite(k == "*", int(ops.Multiply), ite(k == "/", int(ops.Divide), ite(k == "%", int(ops.Modulo),
   ite(k == ".", int(ops.Dot), ite(k == "!", int(ops.Bang), ite(k == "++", int(ops.AddOne), ite(k == "--", int(ops.SubtractOne), -1)))))))))))))))))))))))
// the level of an operation
spec lvl(o int) int = ite(o == int(ops.TempAssign), 1, ite(o == int(ops.AND) || o == int(ops.OR), 3,
   ite(o == int(ops.Equals) || o == int(ops.NotEquals) || o == int(ops.GreaterThanEqual) || o == int(ops.GreaterThan) || o == int(ops.LessThan) || o == int(ops.LessThanEqual), 4,
   ite(o == int(ops.Add) || o == int(ops.Subtract), 5,
   ite(o == int(ops.BinaryXOR) || o == int(ops.BinaryAND) || o == int(ops.BinaryOR) || o == int(ops.LeftShift) || o == int(ops.RightShift), 6,
   ite(o == int(ops.Multiply) || o == int(ops.Divide) || o == int(ops.Modulo), 7, ite(o == int(ops.Dot), 13, 0)))))))

// an operand as the prefix parser returned it: a literal, a name, a prefixed or parenthesised expression, ...
uf atom(e ast.Expression) bool
// e may stand to the left of an operator of level q: what it is made of binds at least as tightly
spec fits(e ast.Expression, q int) bool = atom(e) || ite(typeis(e, *ast.BinaryOperation), q <= lvl(int(e.(*ast.BinaryOperation).Operation)), imp(typeis(e, *ast.CommaExpressions), q <= 2))
// an operand, or operators of levels above p down to its first operand
rec chain(e ast.Expression, p int) bool = atom(e) || ite(typeis(e, *ast.BinaryOperation), p < lvl(int(e.(*ast.BinaryOperation).Operation)) && chain(e.(*ast.BinaryOperation).Left, p),
   ite(typeis(e, *ast.Call), p < 10 && chain(e.(*ast.Call).Left, p), ite(typeis(e, *ast.IndexAccess), p < 12 && chain(e.(*ast.IndexAccess).Left, p),
   typeis(e, *ast.BuiltinCall) && p < 8 || typeis(e, *ast.CommaExpressions) && p < 2)))
// every operator in e has operands that bind tighter, on its left as tightly at least
rec tree(e ast.Expression) bool =
   ite(typeis(e, *ast.BinaryOperation), let(b, e.(*ast.BinaryOperation), tree(b.Left) && fits(b.Left, lvl(int(b.Operation))) && tree(b.Right) && chain(b.Right, lvl(int(b.Operation)))),
   ite(typeis(e, *ast.Call), tree(e.(*ast.Call).Left) && fits(e.(*ast.Call).Left, 10),
   ite(typeis(e, *ast.IndexAccess), tree(e.(*ast.IndexAccess).Left) && fits(e.(*ast.IndexAccess).Left, 12) && tree(e.(*ast.IndexAccess).Access),
   ite(typeis(e, *ast.PrefixOperation), tree(e.(*ast.PrefixOperation).Right) && chain(e.(*ast.PrefixOperation).Right, 9), true))))
spec spine(e ast.Expression, p int) bool = tree(e) && chain(e, p)
spec items(xs []ast.Expression, from int) bool = forall(i, from, len(xs), spine(xs[i], 2))

spec ok(p *Parser) bool = len(p.Errors) == 0
spec quiet(k string) bool = !infix(k)
// the parser stopped where an operand of level q ends
spec stop(p *Parser, q int) bool = prec(p.currentToken.Type) <= q || quiet(p.currentToken.Type)

spec infixId(k string) int = ite(k == "(", fnconst("parser.(*Parser).parseCall$bound"), ite(k == "[", fnconst("parser.(*Parser).parseIndex$bound"),
   ite(k == "AS", fnconst("parser.(*Parser).parseAs$bound"), ite(k == ",", fnconst("parser.(*Parser).parseCommaInfix$bound"), fnconst("parser.(*Parser).parseInfix$bound")))))
spec prefixId(k string) int = ite(prefixop(k), fnconst("parser.(*Parser).parsePrefixExpression$bound"), ite(number(k), fnconst("parser.(*Parser).parseInteger$bound"),
   ite(k == "CHAR", fnconst("parser.(*Parser).parseCharLiteral$bound"), ite(k == "FLOAT", fnconst("parser.(*Parser).parseFloat$bound"), ite(k == "STRING", fnconst("parser.(*Parser).parseString$bound"),
   ite(k == "IDENT", fnconst("parser.(*Parser).parseIdentifierExpression$bound"), ite(k == "(", fnconst("parser.(*Parser).parseParenthesisPrefix$bound"),
   ite(k == "[", fnconst("parser.(*Parser).parseStaticArray$bound"), ite(k == "@", fnconst("parser.(*Parser).parseAt$bound"), ite(k == "FUNCTION", fnconst("parser.(*Parser).parseAnonymousFunction$bound"),
   ite(k == ":", fnconst("parser.(*Parser).parseBlockExpression$bound"), -1)))))))))))
spec prefixed(k string) bool = prefixId(k) != -1
spec handlers(p *Parser) bool = allstr(k, iff(has(p.infixFunc, k), infix(k)) && imp(infix(k), p.infixFunc[k] != nil && fnrecv(p.infixFunc[k], *Parser) == p && fnid(p.infixFunc[k]) == infixId(k))) &&
   allstr(k, iff(has(p.prefixFunc, k), prefixed(k)) && imp(prefixed(k), p.prefixFunc[k] != nil && fnrecv(p.prefixFunc[k], *Parser) == p && fnid(p.prefixFunc[k]) == prefixId(k)))

spec more(p *Parser) bool = len(p.Errors) >= len(old(p.Errors))
spec sameTokens(p *Parser) bool = p.currentToken == old(p.currentToken) && p.peekToken == old(p.peekToken)
spec stop2(p *Parser, e ast.Expression) bool = fits(e, prec(p.currentToken.Type)) || quiet(p.currentToken.Type)
// what a prefix handler builds from the token k
spec prefixNode(r ast.Expression, k string) bool =
   ite(prefixop(k), typeis(r, *ast.PrefixOperation) && int(r.(*ast.PrefixOperation).Operation) == opOf(k) && spine(r.(*ast.PrefixOperation).Right, 9),
   ite(number(k) || k == "CHAR", typeis(r, *ast.Integer), ite(k == "FLOAT", typeis(r, *ast.Float), ite(k == "STRING", typeis(r, *ast.StringLiteral), ite(k == "IDENT", typeis(r, *ast.Identifier),
   ite(k == "(", spine(r, 0), ite(k == "[", typeis(r, *ast.ArrayLiteral) && items(r.(*ast.ArrayLiteral).Values, 0),
   ite(k == "@", ite(typeis(r, *ast.StructLiteral), forall(i, 0, len(r.(*ast.StructLiteral).Values), spine(r.(*ast.StructLiteral).Values[i].Expression, 2)), typeis(r, *ast.BuiltinCall) && items(r.(*ast.BuiltinCall).Parameters, 0)),
   ite(k == "FUNCTION", typeis(r, *ast.AnonymousFunction), imp(k == ":", typeis(r, *ast.ExpressionBlock)))))))))))
spec prefixShape(p *Parser, r ast.Expression, k string) bool = tree(r) && prefixNode(r, k) && imp(prefixop(k), stop(p, 9))
// what an infix handler builds from the expression before it and the token k
spec infixShape(p *Parser, e ast.Expression, r ast.Expression, k string) bool =
   tree(r) && ite(binop(k), typeis(r, *ast.BinaryOperation) && let(b, r.(*ast.BinaryOperation), b.Left == e && int(b.Operation) == opOf(k) && spine(b.Right, prec(k))) && stop(p, prec(k)),
   ite(k == "(", typeis(r, *ast.Call) && r.(*ast.Call).Left == e && items(r.(*ast.Call).Parameters, 0),
   ite(k == "[", typeis(r, *ast.IndexAccess) && r.(*ast.IndexAccess).Left == e && spine(r.(*ast.IndexAccess).Access, 0),
   ite(k == "AS", typeis(r, *ast.BuiltinCall) && let(b, r.(*ast.BuiltinCall), b.Name == "cast" && len(b.TypeParameters) == 1 && len(b.Parameters) == 1 && b.Parameters[0] == e),
   imp(k == ",", typeis(r, *ast.CommaExpressions) && let(c, r.(*ast.CommaExpressions), len(c.Expressions) >= 2 && c.Expressions[0] == e && items(c.Expressions, 1)) && stop(p, 2))))))

// ---- literals: what the digits denote in a base
uf numeral(s string, base int) bool
uf val(s string, base int) int
uf fval(s string) float64
uf fnumeral(s string) bool
axiom (s string, b int) {val(s, b)} val(s, b) >= 0
extern strconv.ParseInt(s, base, bits) (i, err)
ensures imp(bits == 64 && numeral(s, base) && val(s, base) <= 9223372036854775807, err == nil && int(i) == val(s, base))
ensures imp(bits == 64 && numeral(s, base) && val(s, base) > 9223372036854775807, typeis(err, *strconv.NumError) && err.(*strconv.NumError).Err == strconv.ErrRange)
ensures imp(bits == 64 && !numeral(s, base), typeis(err, *strconv.NumError) && err.(*strconv.NumError).Err != strconv.ErrRange)
ensures imp(bits == 32 && numeral(s, base) && val(s, base) <= 2147483647, err == nil && int(i) == val(s, base))
ensures imp(bits == 32 && !(numeral(s, base) && val(s, base) <= 2147483647), err != nil)
extern strconv.ParseUint(s, base, bits) (i, err)
ensures imp(bits == 64 && numeral(s, base) && val(s, base) <= 18446744073709551615, err == nil && int(i) == val(s, base))
ensures imp(bits == 64 && !(numeral(s, base) && val(s, base) <= 18446744073709551615), err != nil)
extern strconv.ParseFloat(s, bits) (f, err)
ensures imp(fnumeral(s), err == nil && f == fval(s))
ensures imp(!fnumeral(s), err != nil)
spec digits(t token.Token) string = ite(t.Type == "INT", t.Literal, t.Literal[2:])
spec base(t token.Token) int = ite(t.Type == "INT", 10, ite(t.Type == "HEX", 16, 2))
// the node for a literal token: the value the token spells, the first of i32, i64, u64 that holds it
spec literal(r ast.Expression, t token.Token) bool =
   ite(number(t.Type), let(v, val(digits(t), base(t)), numeral(digits(t), base(t)) && v <= 18446744073709551615 && typeis(r, *ast.Integer) && let(n, r.(*ast.Integer),
      int(n.Value) == toint64(v) && ite(v > 9223372036854775807, typeis(n.Node.Type, *ctypes.UInteger) && n.Node.Type.(*ctypes.UInteger).BitSize == 64,
      typeis(n.Node.Type, *ctypes.Integer) && n.Node.Type.(*ctypes.Integer).BitSize == ite(v > 2147483647, 64, 32)))),
   ite(t.Type == "CHAR", typeis(r, *ast.Integer) && let(n, r.(*ast.Integer), int(n.Value) == int(t.Literal[0]) && typeis(n.Node.Type, *ctypes.Integer) && n.Node.Type.(*ctypes.Integer).BitSize == 8),
   ite(t.Type == "FLOAT", fnumeral(t.Literal) && typeis(r, *ast.Float) && let(n, r.(*ast.Float), n.Value == fval(t.Literal) && typeis(n.Node.Type, *ctypes.Float) && n.Node.Type.(*ctypes.Float).BitSize == 32),
   imp(t.Type == "STRING", typeis(r, *ast.StringLiteral) && let(n, r.(*ast.StringLiteral), n.Value == t.Literal && typeis(n.Node.Type, *ctypes.Pointer) &&
      typeis(n.Node.Type.(*ctypes.Pointer).Inner, *ctypes.Integer) && n.Node.Type.(*ctypes.Pointer).Inner.(*ctypes.Integer).BitSize == 8)))))

opaque lexer.(*Lexer).NextToken
opaque lexer.(*Lexer).RetrieveLine
opaque ast.CreateIdentifier
opaque ast.RetrieveID
opaque random.RandomString
opaque eval.EvaluateConstantExpression
opaque ctypes.LiteralToType

func New(l) (p) C06 C07
ensures [table] handlers(p)

func (*Parser).Parse(p) (r) C06 C07
requires handlers(p)
ensures more(p)

funcs (*Parser).{parseStatement,parseTypeDefinition,parsePublicFunction,parseGenericTypeDefinition,parseImport,skipSemicolon,parseReturn,parseExpressionStatement,parseFunctionDeclaration,parseIdTypePairs,parseStruct,parseUnion,parseIdentifierStatement,parseMultipleDeclarations,parseDeclaration,parseTypes,parseBlock,parseIf,parseBuiltinCallTypes,parseMacroIf,parseFor,parseExtern,afterFixDoubleErrorStatement,parseCaseStatement,parseSwitchStatement}(p, ...) helper
requires handlers(p)
ensures more(p)

func (*Parser).parseType(p) (r) C07
requires handlers(p)
ensures more(p)
ensures [C07 length] imp(ok(p) && old(p.currentToken.Type) == "[", let(d, old(p.peekToken.Literal), typeis(r, *ctypes.Array) && old(p.peekToken.Type) == "INT" &&
   numeral(d, 10) && val(d, 10) <= 2147483647 && int(r.(*ctypes.Array).Length) == val(d, 10)))

func (*Parser).afterFixDoubleError(p, prev) (r) helper
ensures !ok(p) && more(p)
func (*Parser).checkPrefixErrors(p) helper
ensures more(p) && imp(ok(p), p.currentToken == old(p.currentToken))
funcs (*Parser).{addErrorMessage}(p, ...) helper
ensures !ok(p) && more(p)
ensures sameTokens(p)
func (*Parser).expect(p, k) helper
ensures imp(ok(p), p.currentToken.Type == k) && more(p) && sameTokens(p)
func (*Parser).expectWithMessage(p, k, m) helper
ensures imp(ok(p), p.currentToken.Type == k) && more(p) && sameTokens(p)

// ---- expressions
func (*Parser).parseExpression(p, q) (r) C06
requires handlers(p)
requires 0 <= q && q < 21
ensures more(p)
ensures [C06 shape] imp(ok(p), spine(r, q))
ensures [C06 stop] imp(ok(p), stop(p, q))

func (*Parser).parsePrefix(p) (r) helper
requires handlers(p)
defines atom(r)
ensures more(p)
ensures [C06] imp(ok(p), prefixShape(p, r, old(p.currentToken.Type)))
ensures [C07] imp(ok(p), literal(r, old(p.currentToken)))

dyncall "func() ast.Expression" (f) (r)
requires let(p, fnrecv(f, *Parser), handlers(p) && imp(ok(p), fnid(f) == prefixId(p.currentToken.Type)))
ensures let(p, fnrecv(f, *Parser), more(p))
ensures [C06 operand] let(p, fnrecv(f, *Parser), imp(ok(p), prefixShape(p, r, old(p.currentToken.Type))))
ensures [C07 accepts] let(p, fnrecv(f, *Parser), let(t, old(p.currentToken), imp(old(ok(p)) && (number(t.Type) && numeral(digits(t), base(t)) && val(digits(t), base(t)) <= 18446744073709551615 ||
   t.Type == "CHAR" || t.Type == "STRING" || t.Type == "FLOAT" && fnumeral(t.Literal)), ok(p))))
ensures [C07 literal] let(p, fnrecv(f, *Parser), imp(ok(p), literal(r, old(p.currentToken))))

dyncall "func(ast.Expression) ast.Expression" (f, e) (r)
requires let(p, fnrecv(f, *Parser), handlers(p) && infix(p.currentToken.Type) && fnid(f) == infixId(p.currentToken.Type))
requires [C06] let(p, fnrecv(f, *Parser), imp(ok(p), tree(e) && fits(e, prec(p.currentToken.Type))))
ensures let(p, fnrecv(f, *Parser), more(p))
ensures [C06 operator] let(p, fnrecv(f, *Parser), imp(ok(p), infixShape(p, e, r, old(p.currentToken.Type))))

func (*Parser).parseBuiltinCallParameters(p, req) (xs) helper
requires handlers(p)
ensures more(p)
ensures [C06] imp(ok(p), items(xs, 0))

func (*Parser).parseStructLiteral(p, m) (r) helper
requires handlers(p)
ensures more(p)
ensures [C06] imp(ok(p), prefixNode(r, "@"))

func (*Parser).parsePossibleAssignment(p) (r) C06
requires handlers(p)
ensures more(p)
ensures [C06 assign] imp(ok(p), imp(typeis(r, *ast.AssignmentStatement), let(a, r.(*ast.AssignmentStatement), tree(a.Left) && fits(a.Left, 1) && spine(a.Expression, 1))))

pool (p *Parser, q int, e phi ast.Expression)
inv more(p)
inv imp(ok(p), spine(e, q))
inv imp(ok(p), stop2(p, e))
pool (p *Parser, xs phi []ast.Expression)
inv imp(ok(p), items(xs, 0))
inv imp(ok(p), items(xs, 1))
pool (p *Parser, vs phi []ast.StructValue)
inv imp(ok(p), forall(i, 0, len(vs), spine(vs[i].Expression, 2)))
pool (p *Parser)
inv more(p)
pool (p *Parser, c *ast.CommaExpressions, e ast.Expression)
inv len(c.Expressions) >= 1 && c.Expressions[0] == e
inv len(c.Expressions) >= 2 || p.currentToken.Type == ","
inv imp(ok(p), items(c.Expressions, 1))
inv imp(ok(p), stop(p, 2))
