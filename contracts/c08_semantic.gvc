package semantic
only C08,C10,C19,C20

// the table of builtins holds methods of the analyser that owns it
spec handlers(s *Semantic) bool = allstr(k, imp(has(s.builtinHandlers, k), fnrecv(s.builtinHandlers[k], *Semantic) == s))

// what a name means at this point
spec look(s *Semantic, n string) *SemanticType = ite(has(s.variables.values, n) && len(s.variables.values[n]) > 0, s.variables.values[n][len(s.variables.values[n])-1], nil)

// ---- what every step of the analysis leaves alone
spec keep(s *Semantic) bool = s.insideBreakableBlock == old(s.insideBreakableBlock) &&
   s.currentFunctionBeingAnalyzed == old(s.currentFunctionBeingAnalyzed) &&
   s.currentAnonymousFunctionBeingAnalyzed == old(s.currentAnonymousFunctionBeingAnalyzed) &&
   s.currentExpectedReturnType == old(s.currentExpectedReturnType) &&
   len(s.Errors) >= len(old(s.Errors))
// programs without @unreachable: that builtin is the only expression that ends a path
uf unreachables() bool
spec sameReturns(s *Semantic) bool = imp(!unreachables(), s.returns == old(s.returns))

// ---- a statement that returns on every path through it
rec rets(t ast.Statement) bool = ite(typeis(t, *ast.ReturnStatement), true,
   ite(typeis(t, *ast.Block), blockRets(t.(*ast.Block)),
   ite(typeis(t, *ast.MacroBlock), blockRets(t.(*ast.MacroBlock).Block),
   ite(typeis(t, *ast.IfStatement), t.(*ast.IfStatement).Else != nil && blockRets(t.(*ast.IfStatement).Block) && blockRets(t.(*ast.IfStatement).Else) &&
      forall(i, 0, len(t.(*ast.IfStatement).ElseIfs), blockRets(t.(*ast.IfStatement).ElseIfs[i].Block)),
   ite(typeis(t, *ast.SwitchStatement), t.(*ast.SwitchStatement).Default != nil && blockRets(t.(*ast.SwitchStatement).Default) &&
      forall(i, 0, len(t.(*ast.SwitchStatement).Cases), blockRets(t.(*ast.SwitchStatement).Cases[i].Block)), false)))))
spec anyRets(ss []ast.Statement, n int) bool = !forall(i, 0, n, !rets(ss[i]))
rec blockRets(b *ast.Block) bool = !forall(i, 0, len(b.Statements), !rets(b.Statements[i]))

opaque (*Semantic).getCurrentStatementLineFormatted
opaque (*Semantic).formatExpression
opaque (*Semantic).formatLine
opaque logger.Warning
opaque (*Semantic).TranslateName
opaque ast.RetrieveID
opaque parser.New
opaque parser.(*Parser).Parse
opaque lexer.New
opaque ast.RetrieveRightID

funcs (*Semantic).{analyzeExpression,analyzeReadExpression,analyzeIndexAccess,analyzeCommaExpressions,analyzeStructLiteral,analyzeArrayLiteral,analyzeFunctionCall,analyzeIdentifier,analyzePrefixOperation,analyzeBinaryOperation,analyzeFieldAccess,analyzeArithmetic,analyzeShiftOperation,analyzeModuleAccess,analyzeBuiltinCall,analyzeInteger,analyzeFloat}(s, ...) helper
requires [C10,C20] imp(!unreachables(), !s.returns)
requires handlers(s)
ensures keep(s)
ensures [C10,C20] sameReturns(s)

funcs (*Semantic).{retrieveModule,retrieveTypeFromStruct,areTypesEqual,areTypesEqualIncludingUnions,checkPossibleCommaTypeEquality,existsTypeInUnion,swapTypes,replaceAnonymous,findFunctionInAllModules,replaceAnonymousFunctionParameterTypes,wrapInOperators,checkDereferenceErrors,checkDereferenceOnArithmeticErrors,typeMismatchBlameArithmeticExpressionError,throwInvalidOperationForConstant,expectStatementInsideFunction,warningWithStatement,enterFrame,leaveFrame}(s, ...) helper
ensures keep(s)
ensures [C10,C20] s.returns == old(s.returns)
func (*Semantic).UnwrapAnonymous(s, t) (r) helper
ensures keep(s)
ensures [C10,C20] s.returns == old(s.returns)
ensures imp(!typeis(t, *ctypes.Anonymous), r == t)
funcs (*Semantic).{error,errorWithStatement,errorWithExpression,typeMismatchError,cantOperateThisOperationError,typeMismatchBlameBinaryExpressionError}(s, ...) helper
ensures keep(s)
ensures len(s.Errors) > 0
ensures [C10,C20] s.returns == old(s.returns)

funcs (*Semantic).{analyzeCast,analyzeAlloc,analyzeRealloc,analyzeSizeOf,analyzePrintln,analyzeFree,analyzeAsm,analyzeAddCompilerFlag}(s, ...) helper
requires [C10,C20] imp(!unreachables(), !s.returns)
requires handlers(s)
ensures keep(s)
ensures [C10,C20] sameReturns(s)
func (*Semantic).analyzeUnreachable(s, c) (r) helper trusted
ensures keep(s)
ensures [C10,C20] s.returns && unreachables()

dyncall "func(*ast.BuiltinCall) ctypes.Type" (f, b) (r)
requires [C10,C20] let(s, fnrecv(f, *Semantic), imp(!unreachables(), !s.returns))
requires handlers(fnrecv(f, *Semantic))
ensures keep(fnrecv(f, *Semantic))
ensures [C10,C20] sameReturns(fnrecv(f, *Semantic))

func (*Semantic).analyzeStatement(s, t) helper C10,C20
requires [C10,C20] imp(!unreachables(), !s.returns)
requires handlers(s)
ensures keep(s)
ensures [C10,C20 returns] imp(!unreachables() && len(s.Errors) == 0, s.returns == rets(t))
ensures [C10,C20] imp(!unreachables() && (t == nil || typeis(t, *ast.DeclarationStatement) || typeis(t, *ast.AssignmentStatement) || typeis(t, *ast.ExpressionStatement) || typeis(t, *ast.MultipleDeclarationStatement)), !s.returns)
func (*Semantic).analyzeBlock(s, b) helper C10,C20
requires [C10,C20] imp(!unreachables(), !s.returns)
requires handlers(s)
ensures keep(s)
ensures [C10,C20 returns] imp(!unreachables() && len(s.Errors) == 0, s.returns == blockRets(b))
func (*Semantic).analyzeIfStatement(s, t) helper
requires [C10,C20] imp(!unreachables(), !s.returns)
requires handlers(s)
ensures keep(s)
ensures [C10,C20 returns] imp(!unreachables() && len(s.Errors) == 0, s.returns == rets(t))
func (*Semantic).analyzeSwitchStatement(s, t) helper
requires [C10,C20] imp(!unreachables(), !s.returns)
requires handlers(s)
ensures keep(s)
ensures [C10,C20 returns] imp(!unreachables() && len(s.Errors) == 0, s.returns == rets(t))
func (*Semantic).analyzeReturnStatement(s, t) helper
requires [C10,C20] imp(!unreachables(), !s.returns)
requires handlers(s)
ensures keep(s)
ensures [C10,C20 returns] s.returns
funcs (*Semantic).{analyzeForStatement,analyzeDeclarationStatement,analyzeMultipleDeclarationStatement,analyzeAssigmentStatement,analyzeFunctionStatement}(s, t) helper
requires [C10,C20] imp(!unreachables(), !s.returns)
requires handlers(s)
ensures keep(s)
ensures [C10,C20 returns] sameReturns(s)
func (*Semantic).analyzeFunctionType(s, tok, fun, block) helper C10,C20
requires [C10,C20] imp(!unreachables(), !s.returns)
requires handlers(s)
ensures keep(s)
ensures [C10,C20 returns] sameReturns(s)
ensures [C10,C20 allpaths] imp(!unreachables() && len(s.Errors) == 0 && fun.Return != ctypes.VoidType, block != nil && blockRets(block))

func (*Semantic).analyzeAnonymousFunction(s, e) (r) helper C10,C20
requires handlers(s)
ensures keep(s)
ensures [C10,C20] sameReturns(s)
ensures [C10 allpaths] imp(!unreachables() && len(s.Errors) == 0 && e.FunctionType.Return != ctypes.VoidType, e.Block != nil && blockRets(e.Block))
func (*Semantic).analyzeExpressionBlock(s, e) (r) helper C10,C20
requires [C10,C20] imp(!unreachables(), !s.returns)
requires handlers(s)
ensures keep(s)
ensures [C10,C20] sameReturns(s)
ensures [C10 allpaths] imp(!unreachables() && len(s.Errors) == 0, blockRets(e.Block))
// a function declared at the top level or inside another one
also (*Semantic).analyzeFunctionStatement
ensures [C10 allpaths] imp(!unreachables() && len(s.Errors) == 0 && t.FunctionType.Return != ctypes.VoidType, t.Block != nil && blockRets(t.Block))

// the parser only builds loops with these initialisers and steps (checked on the parser below)
spec forInit(t *ast.ForStatement) bool = t.InitializerStatement == nil || typeis(t.InitializerStatement, *ast.DeclarationStatement) || typeis(t.InitializerStatement, *ast.AssignmentStatement)
spec forStep(t *ast.ForStatement) bool = t.Operation == nil || typeis(t.Operation, *ast.AssignmentStatement) || typeis(t.Operation, *ast.ExpressionStatement) || typeis(t.Operation, *ast.MultipleDeclarationStatement)
typeinv (t *ast.ForStatement) {t.InitializerStatement} forInit(t)
typeinv (t *ast.ForStatement) {t.Operation} forStep(t)

funcs (*Semantic).{predefineTypes,predefineFunctions,fillTypes,analyzeTypeDefinition,analyzeExternStatement,analyzeGenericTypeDefinition,analyzeStructStatement,analyzeUnionStatement}(s, ...) helper
requires handlers(s)
ensures keep(s)
ensures handlers(s)
ensures [C10,C20] s.returns == old(s.returns)
// an import is analysed by an analyser of its own; it only adds to the modules and errors of this one
func (*Semantic).analyzeImport(s, i) trusted
requires handlers(s)
ensures keep(s)
ensures handlers(s)
ensures [C10,C20] s.returns == old(s.returns)
func (*Semantic).Analyze(s, p) C08,C10,C20
requires handlers(s)
ensures handlers(s)
func New() (s) C08,C10,C20
ensures handlers(s)
ensures [C10,C20] !s.returns

pool (s *Semantic)
inv handlers(s)
inv s.insideBreakableBlock == entry(s.insideBreakableBlock)
inv s.currentFunctionBeingAnalyzed == entry(s.currentFunctionBeingAnalyzed)
inv s.currentAnonymousFunctionBeingAnalyzed == entry(s.currentAnonymousFunctionBeingAnalyzed)
inv s.currentExpectedReturnType == entry(s.currentExpectedReturnType)
inv len(s.Errors) >= entry(len(s.Errors))
pool (s *Semantic) C10,C20
inv s.returns == entry(s.returns)
inv imp(!unreachables(), s.returns == entry(s.returns))
pool (s *Semantic, ss []ast.Statement, i phi int) C10,C20
inv imp(!unreachables() && len(s.Errors) == 0, s.returns == anyRets(ss, i+1))
inv i >= -1 && i < len(ss)
pool (s *Semantic, t *ast.IfStatement, i phi int, d phi bool) C10,C20
inv imp(!unreachables() && len(s.Errors) == 0, d == (entry(d) && forall(j, 0, i+1, blockRets(t.ElseIfs[j].Block))))
inv i >= -1 && i < len(t.ElseIfs)
pool (s *Semantic, t *ast.SwitchStatement, i phi int, d phi bool) C10,C20
inv imp(!unreachables() && len(s.Errors) == 0, d == (entry(d) && forall(j, 0, i+1, blockRets(t.Cases[j].Block))))
inv i >= -1 && i < len(t.Cases)

only C20
// ---- every break and continue that can be reached is inside a loop of its own function
rec brk(t ast.Statement, in bool) bool = ite(typeis(t, *ast.BreakStatement) || typeis(t, *ast.ContinueStatement), in,
   ite(typeis(t, *ast.Block), blockBrk(t.(*ast.Block), in),
   ite(typeis(t, *ast.MacroBlock), blockBrk(t.(*ast.MacroBlock).Block, in),
   ite(typeis(t, *ast.IfStatement), blockBrk(t.(*ast.IfStatement).Block, in) && (t.(*ast.IfStatement).Else == nil || blockBrk(t.(*ast.IfStatement).Else, in)) &&
      forall(i, 0, len(t.(*ast.IfStatement).ElseIfs), blockBrk(t.(*ast.IfStatement).ElseIfs[i].Block, in)),
   ite(typeis(t, *ast.SwitchStatement), (t.(*ast.SwitchStatement).Default == nil || blockBrk(t.(*ast.SwitchStatement).Default, in)) &&
      forall(i, 0, len(t.(*ast.SwitchStatement).Cases), blockBrk(t.(*ast.SwitchStatement).Cases[i].Block, in)),
   ite(typeis(t, *ast.ForStatement), blockBrk(t.(*ast.ForStatement).Block, true),
   ite(typeis(t, *ast.FunctionDeclarationStatement), t.(*ast.FunctionDeclarationStatement).Block == nil || blockBrk(t.(*ast.FunctionDeclarationStatement).Block, false), true)))))))
rec dead(ss []ast.Statement, j int) bool = !forall(i, 0, j, !rets(ss[i]))
rec blockBrk(b *ast.Block, in bool) bool = forall(j, 0, len(b.Statements), dead(b.Statements, j) || brk(b.Statements[j], in))

also (*Semantic).{analyzeStatement,analyzeIfStatement,analyzeSwitchStatement,analyzeForStatement,analyzeFunctionStatement}
ensures [breaks] imp(!unreachables() && len(s.Errors) == 0, brk(t, s.insideBreakableBlock))
also (*Semantic).analyzeBlock
ensures [breaks] imp(!unreachables() && len(s.Errors) == 0, blockBrk(b, s.insideBreakableBlock))
also (*Semantic).analyzeAnonymousFunction
ensures [breaks] imp(!unreachables() && len(s.Errors) == 0 && e.Block != nil, blockBrk(e.Block, false))
also (*Semantic).analyzeExpressionBlock
ensures [breaks] imp(!unreachables() && len(s.Errors) == 0, blockBrk(e.Block, s.insideBreakableBlock))
also (*Semantic).analyzeFunctionType
ensures [breaks] imp(!unreachables() && len(s.Errors) == 0 && block != nil, blockBrk(block, false))
pool (s *Semantic, ss []ast.Statement, i phi int)
inv imp(!unreachables() && len(s.Errors) == 0, forall(j, 0, i+1, dead(ss, j) || brk(ss[j], s.insideBreakableBlock)))
pool (s *Semantic, t *ast.IfStatement, i phi int)
inv imp(!unreachables() && len(s.Errors) == 0, forall(j, 0, i+1, blockBrk(t.ElseIfs[j].Block, s.insideBreakableBlock)))
pool (s *Semantic, t *ast.SwitchStatement, i phi int)
inv imp(!unreachables() && len(s.Errors) == 0, forall(j, 0, i+1, blockBrk(t.Cases[j].Block, s.insideBreakableBlock)))
only -

only C10,C20
// ---- the whole program: statements at the top level are not inside a function or a loop
spec inFn(s *Semantic) bool = s.currentFunctionBeingAnalyzed != nil || s.currentAnonymousFunctionBeingAnalyzed != nil
also (*Semantic).expectStatementInsideFunction
ensures imp(!inFn(s), len(s.Errors) > 0)
also (*Semantic).{analyzeStatement,analyzeReturnStatement}
ensures [outside] imp(!inFn(s) && len(s.Errors) == 0 && !unreachables(), !s.returns)
also (*Semantic).{analyzeBlock,analyzeIfStatement,analyzeSwitchStatement}
ensures [outside] imp(!inFn(s), len(s.Errors) > 0)
also (*Semantic).Analyze
requires !s.returns && !s.insideBreakableBlock && !inFn(s)
ensures [C20 breaks] imp(!unreachables() && len(s.Errors) == 0, forall(i, 0, len(p.Statements), brk(p.Statements[i], false)))
also New
ensures !s.insideBreakableBlock && !inFn(s)
pool (s *Semantic)
inv imp(!inFn(s) && len(s.Errors) == 0 && !unreachables(), !s.returns)
pool (s *Semantic, ss []ast.Statement, i phi int) C20
inv imp(!unreachables() && len(s.Errors) == 0, forall(j, 0, i+1, brk(ss[j], s.insideBreakableBlock)))
inv i >= -1 && i < len(ss)
only -

only C10,C20
package parser
opaque (*Parser).parseBlock
opaque (*Parser).parseStatement
opaque (*Parser).parseExpression
opaque (*Parser).parseType
opaque (*Parser).expect
opaque (*Parser).addErrorMessage
opaque (*Parser).nextToken
func (*Parser).parsePossibleAssignment(p) (r) helper C10,C20
ensures typeis(r, *ast.AssignmentStatement) || typeis(r, *ast.ExpressionStatement) || typeis(r, *ast.MultipleDeclarationStatement)
func (*Parser).parseFor(p) (r) C10,C20
ensures typeis(r, *ast.ForStatement) && forInit(r.(*ast.ForStatement)) && forStep(r.(*ast.ForStatement))
only -

only C19
package semantic
// konst(e): e was analysed where a constant is expected, without an error; target(e): where it is modified
uf konst(e ast.Expression) bool
uf target(e ast.Expression) bool
spec flags(s *Semantic) bool = s.expectConstantExpression == old(s.expectConstantExpression) && s.expectNonConstantExpression == old(s.expectNonConstantExpression)
spec ok(s *Semantic) bool = len(s.Errors) == 0
spec tree(s *Semantic) bool = imp(ok(s), allref(x, *ast.BinaryOperation, imp(old(allocated(x)), x.Left == old(x.Left) && x.Right == old(x.Right))))

also (*Semantic).{analyzeExpression,analyzeIndexAccess,analyzeCommaExpressions,analyzeStructLiteral,analyzeArrayLiteral,analyzeFunctionCall,analyzeIdentifier,analyzePrefixOperation,analyzeBinaryOperation,analyzeFieldAccess,analyzeArithmetic,analyzeShiftOperation,analyzeModuleAccess,analyzeBuiltinCall,analyzeInteger,analyzeFloat,retrieveModule,retrieveTypeFromStruct,areTypesEqual,areTypesEqualIncludingUnions,checkPossibleCommaTypeEquality,existsTypeInUnion,swapTypes,replaceAnonymous,findFunctionInAllModules,replaceAnonymousFunctionParameterTypes,wrapInOperators,checkDereferenceErrors,checkDereferenceOnArithmeticErrors,typeMismatchBlameArithmeticExpressionError,throwInvalidOperationForConstant,expectStatementInsideFunction,warningWithStatement,enterFrame,leaveFrame,UnwrapAnonymous,error,errorWithStatement,errorWithExpression,typeMismatchError,cantOperateThisOperationError,typeMismatchBlameBinaryExpressionError,analyzeCast,analyzeAlloc,analyzeRealloc,analyzeSizeOf,analyzePrintln,analyzeFree,analyzeAsm,analyzeAddCompilerFlag,analyzeUnreachable,analyzeStatement,analyzeBlock,analyzeIfStatement,analyzeSwitchStatement,analyzeReturnStatement,analyzeForStatement,analyzeDeclarationStatement,analyzeMultipleDeclarationStatement,analyzeAssigmentStatement,analyzeFunctionStatement,analyzeFunctionType,analyzeAnonymousFunction,analyzeExpressionBlock}
ensures flags(s)
ensures tree(s)
also (*Semantic).analyzeReadExpression
ensures flags(s)
ensures tree(s)
ensures imp(ok(s) && s.expectConstantExpression, konst(_1))
also dyncall "func(*ast.BuiltinCall) ctypes.Type"
ensures flags(fnrecv(f, *Semantic))
ensures tree(fnrecv(f, *Semantic))
also (*Semantic).throwInvalidOperationForConstant
ensures imp(s.expectConstantExpression, !ok(s))

also (*Semantic).analyzeExpression
defines imp(ok(s) && s.expectConstantExpression, konst(_1))
defines imp(ok(s) && s.expectNonConstantExpression, target(_1))

// a name used where it is modified is not a constant, one used where a constant is expected is
also (*Semantic).analyzeIdentifier C19
ensures [identifier] let(v, old(look(s, _1.Name)), imp(ok(s) && !old(has(s.modules, _1.Name)) , v != nil && imp(s.expectNonConstantExpression, !v.IsConstant) && imp(s.expectConstantExpression, v.IsConstant)))
ensures [capture] let(v, old(look(s, _1.Name)), imp(ok(s) && !old(has(s.modules, _1.Name)) , look(s, old(_1.Name)) != nil && look(s, old(_1.Name)).IsConstant == old(v.IsConstant)))
// the same for the variables and constants of an imported module
also (*Semantic).analyzeModuleAccess C19
ensures [module] imp(ok(s), typeis(_2.Right, *ast.Identifier) && let(v, look(_1, _2.Right.(*ast.Identifier).Name), v != nil && imp(s.expectNonConstantExpression, !v.IsConstant) && imp(s.expectConstantExpression, v.IsConstant)))
also (*Semantic).analyzeAssigmentStatement C19
ensures [assigned] imp(ok(s), target(old(t.Left)))
also (*Semantic).analyzePrefixOperation C19
ensures [step] imp(ok(s) && (_1.Operation == ops.AddOne || _1.Operation == ops.SubtractOne), target(_1.Right) && !s.expectConstantExpression)
ensures [constant] imp(ok(s) && s.expectConstantExpression, konst(_1.Right) && _1.Operation != ops.BinaryAND && _1.Operation != ops.Multiply)
ensures [target] imp(ok(s) && s.expectNonConstantExpression, target(_1.Right))
also (*Semantic).analyzeBinaryOperation C19
ensures [constant] imp(ok(s) && s.expectConstantExpression, konst(old(_1.Left)) && imp(_1.Operation != ops.Dot, konst(old(_1.Right))))
ensures [target] imp(ok(s) && s.expectNonConstantExpression, target(old(_1.Left)))
also (*Semantic).{analyzeArithmetic,analyzeFieldAccess}
ensures [constant] imp(ok(s) && s.expectConstantExpression, konst(old(_1.Left)))
ensures [target] imp(ok(s) && s.expectNonConstantExpression, target(old(_1.Left)))
also (*Semantic).analyzeArithmetic
ensures [constant] imp(ok(s) && s.expectConstantExpression, konst(old(_1.Right)))
also (*Semantic).{analyzeFunctionCall,analyzeAlloc,analyzeRealloc,analyzePrintln,analyzeFree,analyzeAsm} C19
ensures [constant] imp(ok(s), !s.expectConstantExpression)
also (*Semantic).analyzeCast C19
ensures [constant] imp(ok(s) && s.expectConstantExpression, konst(_1.Parameters[0]))
also (*Semantic).analyzeIndexAccess C19
ensures [constant] imp(ok(s) && s.expectConstantExpression, konst(_1.Left) && konst(_1.Access))
ensures [target] imp(ok(s) && s.expectNonConstantExpression, target(_1.Left))
also (*Semantic).analyzeCommaExpressions C19
ensures [constant] imp(ok(s) && s.expectConstantExpression, forall(i, 0, len(_1.Expressions), konst(_1.Expressions[i])))
ensures [target] imp(ok(s) && s.expectNonConstantExpression, forall(i, 0, len(_1.Expressions), target(_1.Expressions[i])))
also (*Semantic).analyzeArrayLiteral C19
ensures [constant] imp(ok(s) && s.expectConstantExpression, forall(i, 0, len(_1.Values), konst(_1.Values[i])))
also (*Semantic).analyzeStructLiteral C19
ensures [constant] imp(ok(s) && s.expectConstantExpression, forall(i, 0, len(_1.Values), konst(_1.Values[i].Expression)))
also (*Semantic).analyzeDeclarationStatement C19
ensures [constant] imp(ok(s) && t.Constant, konst(old(t.Expression)))
ensures [declared] imp(ok(s), look(s, t.Name) != nil && look(s, t.Name).IsConstant == t.Constant)
also (*Semantic).analyzeMultipleDeclarationStatement C19
ensures [declared] imp(ok(s), forall(i, 0, len(t.Names), look(s, t.Names[i]) != nil && look(s, t.Names[i]).IsConstant == t.Constant))
also (*Semantic).analyzeSwitchStatement C19
ensures [constant] imp(ok(s), forall(i, 0, len(t.Cases), konst(t.Cases[i].Case)))
pool (s *Semantic)
inv s.expectConstantExpression == entry(s.expectConstantExpression)
inv s.expectNonConstantExpression == entry(s.expectNonConstantExpression)
inv imp(len(s.Errors) == 0, allref(x, *ast.BinaryOperation, imp(entry(allocated(x)), x.Left == entry(x.Left) && x.Right == entry(x.Right))))
pool (s *Semantic, es []ast.Expression, i phi int)
inv imp(len(s.Errors) == 0 && s.expectConstantExpression, forall(j, 0, i+1, konst(es[j])))
inv imp(len(s.Errors) == 0 && s.expectNonConstantExpression, forall(j, 0, i+1, target(es[j])))
inv i >= -1 && i < len(es)
pool (s *Semantic, t *ast.StructLiteral, i phi int)
inv imp(len(s.Errors) == 0 && s.expectConstantExpression, forall(j, 0, i+1, konst(t.Values[j].Expression)))
inv i >= -1 && i < len(t.Values)
pool (s *Semantic, t *ast.SwitchStatement, i phi int)
inv imp(len(s.Errors) == 0, forall(j, 0, i+1, konst(t.Cases[j].Case)))
inv i >= -1 && i < len(t.Cases)
pool (s *Semantic, t *ast.MultipleDeclarationStatement, i phi int)
inv forall(j, 0, i+1, look(s, t.Names[j]) != nil && look(s, t.Names[j]).IsConstant == t.Constant)
inv i >= -1 && i < len(t.Names)
only -

only C08
package semantic
// ---- scopes: the stack of declared names and, for every name, the declarations it has had
spec stk(s *Semantic) []string = s.variables.stack
spec decls(s *Semantic, k string) []*SemanticType = s.variables.values[k]
spec vlen(s *Semantic, k string) int = ite(has(s.variables.values, k), len(s.variables.values[k]), 0)
// how often a name is on the stack; where the innermost open scope starts
prefixrec cnt(st []string, n int, k string) int = ite(n <= 0, 0, cnt(st, n-1, k) + ite(st[n-1] == k, 1, 0))
prefixrec top(st []string, n int) int = ite(n <= 0, -1, ite(st[n-1] == "<main-frame>", n-1, top(st, n-1)))
spec bal(s *Semantic) bool = allstr(k, vlen(s, k) == cnt(stk(s), len(stk(s)), k))
// nothing declared before is touched
spec keeps(s *Semantic) bool = len(stk(s)) >= len(old(stk(s))) && forall(i, 0, len(old(stk(s))), stk(s)[i] == old(stk(s)[i])) &&
   allstr(k, vlen(s, k) >= old(vlen(s, k)) && forall(i, 0, old(vlen(s, k)), decls(s, k)[i] == old(decls(s, k)[i])))
spec ext(s *Semantic) bool = keeps(s) && allref(r, *SemanticType, imp(old(allocated(r)), r.Type == old(r.Type))) && top(stk(s), len(stk(s))) == old(top(stk(s), len(stk(s))))
spec ext0(s *Semantic) bool = keeps(s) && allref(r, *SemanticType, imp(old(allocated(r)), r.Type == old(r.Type)))
spec same(s *Semantic) bool = ext(s) && len(stk(s)) == len(old(stk(s))) && allstr(k, vlen(s, k) == old(vlen(s, k)) && look(s, k) == old(look(s, k)))
also (*Semantic).{analyzeExpression,analyzeIndexAccess,analyzeCommaExpressions,analyzeStructLiteral,analyzeArrayLiteral,analyzeFunctionCall,analyzeIdentifier,analyzePrefixOperation,analyzeBinaryOperation,analyzeFieldAccess,analyzeArithmetic,analyzeBuiltinCall,replaceAnonymousFunctionParameterTypes,analyzeCast,analyzeAlloc,analyzeRealloc,analyzePrintln,analyzeFree,analyzeAsm,analyzeAddCompilerFlag,analyzeStatement,analyzeBlock,analyzeIfStatement,analyzeSwitchStatement,analyzeReturnStatement,analyzeForStatement,analyzeDeclarationStatement,analyzeMultipleDeclarationStatement,analyzeAssigmentStatement,analyzeFunctionStatement,analyzeFunctionType,analyzeAnonymousFunction,analyzeExpressionBlock}
requires bal(s)
ensures [bal] bal(s)
ensures [ext] ext(s)
also (*Semantic).{analyzeBlock,analyzeForStatement,analyzeFunctionStatement,analyzeFunctionType,analyzeAnonymousFunction,analyzeExpressionBlock} C08
ensures [restored] same(s)
also dyncall "func(*ast.BuiltinCall) ctypes.Type"
requires bal(fnrecv(f, *Semantic))
ensures bal(fnrecv(f, *Semantic))
ensures ext(fnrecv(f, *Semantic))
also (*Semantic).enterFrame C08
requires bal(s)
ensures [bal] bal(s)
ensures [keeps] ext0(s)
ensures len(stk(s)) == old(len(stk(s))) + 1 && stk(s)[old(len(stk(s)))] == "<main-frame>" && top(stk(s), len(stk(s))) == old(len(stk(s)))
also (*Semantic).leaveFrame C08
requires bal(s)
ensures [bal] bal(s)
ensures len(stk(s)) == old(top(stk(s), len(stk(s)))) && forall(i, 0, len(stk(s)), stk(s)[i] == old(stk(s)[i]))
ensures allref(r, *SemanticType, imp(old(allocated(r)), r.Type == old(r.Type)))
ensures allstr(k, vlen(s, k) <= old(vlen(s, k)) && forall(i, 0, vlen(s, k), decls(s, k)[i] == old(decls(s, k)[i])))
also (*Semantic).analyzeReadExpression
requires bal(s)
ensures [bal] bal(s)
ensures [ext] ext(s)
also (*Semantic).{predefineFunctions,fillTypes,analyzeExternStatement,analyzeImport}
requires bal(s)
ensures [bal] bal(s)
ensures [ext] ext(s)
also (*Semantic).Analyze C08
requires bal(s)
ensures [scopes] bal(s)
also New
ensures [bal] bal(s)
// names in programs are made of letters, digits, _ and - : no name is the mark of a scope
also (*Semantic).analyzeIdentifier
assumes _1.Name != "<main-frame>"
also (*Semantic).analyzeDeclarationStatement
assumes t.Name != "<main-frame>"
also (*Semantic).analyzeMultipleDeclarationStatement
assumes forall(i, 0, len(t.Names), t.Names[i] != "<main-frame>")
also (*Semantic).replaceAnonymousFunctionParameterTypes
assumes forall(i, 0, len(_1.Names), _1.Names[i] != "<main-frame>")
also (*Semantic).analyzeExternStatement
assumes _1.Type.(*ctypes.Function).Name != "<main-frame>"
also (*Semantic).predefineFunctions
assumes forall(i, 0, len(_1), imp(typeis(_1[i], *ast.FunctionDeclarationStatement), _1[i].(*ast.FunctionDeclarationStatement).FunctionType.Name != "<main-frame>"))
// before the bodies, exactly the functions of the file are declared
rec funs(ss []ast.Statement, n int) int = ite(n <= 0, 0, funs(ss, n-1) + ite(typeis(ss[n-1], *ast.FunctionDeclarationStatement), 1,
   ite(typeis(ss[n-1], *ast.MacroBlock), blockFuns(ss[n-1].(*ast.MacroBlock).Block), 0)))
rec blockFuns(b *ast.Block) int = funs(b.Statements, len(b.Statements))
also (*Semantic).predefineFunctions C08
ensures [exact] len(stk(s)) == old(len(stk(s))) + funs(_1, len(_1))
ensures [declared] forall(i, 0, len(_1), imp(typeis(_1[i], *ast.FunctionDeclarationStatement), vlen(s, _1[i].(*ast.FunctionDeclarationStatement).FunctionType.Name) > 0))
pool (s *Semantic, statements []ast.Statement, i phi int)
inv len(stk(s)) == entry(len(stk(s))) + funs(statements, i+1)
inv forall(j, 0, i+1, imp(typeis(statements[j], *ast.FunctionDeclarationStatement), vlen(s, statements[j].(*ast.FunctionDeclarationStatement).FunctionType.Name) > 0))
inv i >= -1 && i < len(statements)
// a use of a name means its innermost declaration
also (*Semantic).analyzeIdentifier C08
ensures [use] imp(len(s.Errors) == 0 && !old(has(s.modules, _1.Name)), old(look(s, _1.Name)) != nil && _1.Type == old(look(s, _1.Name).Type))
// a declaration is visible from there on
also (*Semantic).analyzeDeclarationStatement C08
ensures [declared] imp(len(s.Errors) == 0, look(s, t.Name) != nil && look(s, t.Name).Type == t.Type)
also (*Semantic).analyzeMultipleDeclarationStatement C08
ensures [declared] imp(len(s.Errors) == 0, forall(i, 0, len(t.Names), look(s, t.Names[i]) != nil))
also (*Semantic).replaceAnonymousFunctionParameterTypes C08
ensures [declared] forall(i, 0, len(_1.Parameters), look(s, _1.Names[i]) != nil)
pool (s *Semantic)
inv bal(s)
inv len(stk(s)) >= len(entry(stk(s))) && forall(i, 0, len(entry(stk(s))), stk(s)[i] == entry(stk(s)[i]))
inv allstr(k, vlen(s, k) >= entry(vlen(s, k)) && forall(i, 0, entry(vlen(s, k)), decls(s, k)[i] == entry(decls(s, k)[i])))
inv top(stk(s), len(stk(s))) == entry(top(stk(s), len(stk(s))))
inv allref(r, *SemanticType, imp(entry(allocated(r)), r.Type == entry(r.Type)))
pool (s *Semantic, key phi string)
inv len(stk(s)) <= len(entry(stk(s))) && forall(i, 0, len(stk(s)), stk(s)[i] == entry(stk(s)[i]))
inv allstr(k, vlen(s, k) <= entry(vlen(s, k)) && forall(i, 0, vlen(s, k), decls(s, k)[i] == entry(decls(s, k)[i])))
inv ite(key == "<main-frame>", len(stk(s)) == entry(top(stk(s), len(stk(s)))), top(stk(s), len(stk(s))) == entry(top(stk(s), len(stk(s)))))
pool (s *Semantic, t *ast.MultipleDeclarationStatement, i phi int)
inv forall(j, 0, i+1, look(s, t.Names[j]) != nil)
inv i >= -1 && i < len(t.Names)
pool (s *Semantic, t *ctypes.Function, i phi int)
inv forall(j, 0, i+1, look(s, t.Names[j]) != nil)
inv i >= -1 && i < len(t.Parameters)
only -
