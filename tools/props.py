#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept in step with MANIFEST.json)."""
import json, sys, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p("C01","Lexing is lossless, total and maximal-munch",
  "For every source text the lexer terminates, and the values of the tokens it emits, concatenated in order, are exactly the text read so far: the whole text followed by one end-of-file token, or a prefix of it followed by a single error token. Every token is the longest one that can start at its place, has the kind its text determines (a word is a keyword exactly when it is a reserved word; a string literal closes on the line it opens on and contains only the escapes r, n, backslash and quote) and carries the number of the line it starts on.",
  ["inputs"],"every input string, valid UTF-8 or not, of any length",
  "TestLex samples 21 short texts and checks token kinds only, never values, lines or that the tokens cover the text.",
  ["lex/lex.go"],[("next/peek/emit keep 0<=start<=pos<=len(input)","lex/lex.go"),("lexText, lexString, lexComment, lexInteger, lexIdentifier, lexSpace scanning loops","lex/lex.go"),("key keyword table","lex/lex.go")],
  [("Lexer.start,pos,width","scan window","lex/lex.go"),("tokens channel","emitted stream","lex/lex.go")],["tokens returned by NextToken"])

p("C02","Expressions parse by operator precedence and associativity",
  "For every sequence of operands and operators accepted as an expression, the tree built groups operators exactly as the precedence table says (call and type-call, then member and index, unary, * and /, + and -, shifts, comparisons, ==, &, ^, |, and, then or together with ?:), operators of one level group to the left, a ternary's else branch extends as far right as it can, and parentheses override. Operands and operators appear in the tree in source order, each exactly once, and each operator token yields its own operation.",
  ["inputs"],"every expression token sequence, of any nesting depth",
  "The E2E tests evaluate a few dozen expressions; wrong grouping of an operator pair they do not combine is invisible.",
  ["parse.go","lex/lex.go"],[("Pratt loop in parseExpr","parse.go"),("infix/prefix parser tables","parse.go"),("Kind.Precedence, Kind.Associativity","lex/lex.go")],
  [("Parser.pos","next token","parse.go")],["AST given to the type checker","results printed by the compiled program"])

p("C03","No malformed or truncated file is accepted",
  "For every token sequence, parsing terminates without crashing, and it reports no error only if every token of the file was consumed as part of a construct of the grammar; whenever a required token is missing or the file ends early, at least one syntax error is reported. A file that follows the grammar gets no syntax error. Declarations parsed before the first error are those written in the file, in order.",
  ["inputs"],"every token sequence ending in end-of-file, including all truncations of valid programs",
  "The tests only parse valid programs.",
  ["parse.go"],[("need/match/next/syntaxError/onUnexpectedEof","parse.go"),("Parse top-level loop","parse.go")],
  [("Parser.errs","reported errors","parse.go"),("Parser.discard","error suppression","parse.go")],["errors returned by Compile"])

p("C04","Type identity and generic binding are consistent",
  "Two types are interchangeable exactly when they are the same type: same kind, same struct or enum name with pairwise identical type arguments, identical element types, identical parameter and result types, or the very same type parameter. In a generic call every occurrence of a type parameter stands for one and the same type, and the type of the call's result is the declared result type with exactly those bindings substituted.",
  ["programs"],"every pair of types of any depth and every generic signature and argument list",
  "tests/generics.clara samples a dozen instantiations and contains no program that must be rejected.",
  ["symtab.go","typecheck.go"],[("MatchesImpl, Matches, PolyMatch","symtab.go"),("substituteType, matchFuncCallByType, findUnboundTypeParameters","typecheck.go")],
  [("bound","type-parameter bindings","typecheck.go")],["errors returned by Compile","static type of an expression"])

p("C05","Only well-typed programs are accepted",
  "If the compiler reports no error then every expression and statement obeys its typing rule: arithmetic, bitwise and range operands are int; comparison operands are int; logical operands and all conditions are bool; ternary branches and array-literal elements agree; an index is an int applied to an array; a returned or assigned value has the declared type and its target is a variable, element or writable field; a selected field exists in the struct; a match is over an enum, names each of its cases exactly once with the right number of variables. Conversely a program obeying the rules is not rejected by them, and an error found in any sub-expression is never lost.",
  ["programs"],"every syntax tree, of any size, over any symbol table",
  "No test compiles an ill-typed program.",
  ["typecheck.go","semantic.go","ast.go"],[("typeCheck and typeCheck* helpers","typecheck.go"),("operatorTypes","semantic.go"),("isAddressable/isReadOnly","ast.go")],
  [("Node.typ","static type","ast.go")],["errors returned by Compile"])

p("C06","A function with a result always returns one",
  "The compiler accepts a block function that declares a result only if every path through its body ends in a return: the last statement is a return, an if chain with a final else whose every branch ends so, or a match whose every case ends so. Such a function is never rejected for a missing return.",
  ["programs"],"every function body, of any nesting",
  "The tests contain only functions that return.",
  ["ast.go","semantic.go"],[("isTerminating","ast.go"),("processFnType","semantic.go")],(),["errors returned by Compile","value returned by the compiled function"])

p("C07","Names resolve to the innermost visible declaration",
  "Every use of a name refers to the declaration in the innermost enclosing scope that has one, and every function body, loop body, branch and match case is a scope of its own whose variables are not visible outside it; redeclaring a name in the same scope is an error and never replaces the first declaration. Function overloads of one name all stay reachable, in declaration order.",
  ["programs"],"every scope tree and every sequence of declarations and look-ups",
  "Only a handful of shadowing cases are tested.",
  ["symtab.go","typecheck.go","semantic.go"],[("SymTab.Define/Resolve/ResolveAll/Child/Owns","symtab.go"),("scope opening in typeCheck, typeCheckCase, typeCheckFor","typecheck.go"),("overload chain in processFnType","semantic.go")],
  [("SymTab.symbols,parent","scope contents and chain","symtab.go")],["symbol attached to an identifier"])

p("C08","A closure captures exactly its free variables",
  "For every local function, the set of variables captured in its environment is exactly the set of variables it uses anywhere in its body that are declared outside it and are not global; each captured use reads or writes the closure's own slot holding the value at creation, and no other variable is redirected. A function using no outside variable is compiled without an environment.",
  ["programs"],"every function body and nesting of local functions",
  "tests/closures.clara samples about ten bodies; a use in a position they do not contain (an index, say) is unseen.",
  ["closures.go","walk.go","ast.go"],[("freeVarChecker, clIdentifyFreeVars, clRewriteFreeVars, rewriteAnonFnAndClosures","closures.go"),("Walk","walk.go")],
  [("freeVarChecker.free","captured set","closures.go")],["output of the compiled program"])

p("C09","Integer and boolean operators compute 63-bit semantics",
  "In every compiled program + - * / & | ^ ~ unary minus << >> on int yield the two's-complement 63-bit result (division truncating toward zero, right shift arithmetic, shift counts taken modulo 64, overflow wrapping), the comparisons order signed values, and/or/not give the logical result, and a literal denotes its own value or is rejected if it does not fit in 63 bits. Operands are evaluated left to right, each exactly once, whatever expressions they are.",
  ["programs","inputs"],"every operator, every operand expression and all 2^126 pairs of operand values",
  "tests/arith.clara and bits.clara sample about 60 constant expressions.",
  ["codegen.go","semantic.go"],[("genExpr operator cases, tagAs/untagAs, ins table","codegen.go"),("foldConstants","semantic.go")],
  [("rax","expression result, int tagged in bit 0","codegen.go")],["output of the compiled program"])

p("C10","Calls deliver every argument intact and keep the stack aligned",
  "In every compiled call each argument, evaluated left to right exactly once, reaches the callee as the value its expression had, whatever the later arguments are (nested calls, divisions, shifts, closures); parameters read the argument of their position; and the stack pointer is restored afterwards and is 16-byte aligned at every call. Values being computed around the call are unaffected by it.",
  ["programs"],"every call expression with up to the maximum number of arguments, in every nesting",
  "The tests combine few argument expressions; clobbering by a particular pair is unseen.",
  ["codegen.go","closures.go"],[("genFnCall, SpillRegisters, RestoreRegisters, RegisterInUse, save/restore","codegen.go"),("genFunc parameter copy, genFnEntry/genFnExit","codegen.go"),("invokeDynamic call sites","closures.go")],
  [("function.sp","words pushed","codegen.go"),("function.reg","argument registers in use","codegen.go")],["output of the compiled program"])

p("C11","Array accesses are bounds checked",
  "In every compiled program, reading or writing an array element with an index i touches exactly element i when 0 <= i < length, and stops the program with an index-out-of-bounds panic reporting that index and length otherwise, before any memory is touched; this holds for every index including negative ones. An array's length is the number of elements it was created with and is never negative.",
  ["programs","inputs"],"every array access, every 63-bit index and length",
  "tests/panic/ioob.clara tries one index.",
  ["codegen.go","install/lib/arrays.clara","install/lib/runtime.clara"],[("genExpr opArray, genIoobTrampoline","codegen.go"),("array constructors","install/lib/arrays.clara")],(),["output and exit status of the compiled program"])

p("C12","At every allocation point the GC sees every live pointer",
  "At every call in a compiled function after which a collection could happen, the stack map attached to the call lists every stack slot that holds a pointer-typed parameter, initialised variable in scope, or saved temporary that is used afterwards, and lists no slot that has not been initialised; the heap maps of structs, enum cases and arrays list exactly their pointer fields. Hence no object reachable from live variables is ever freed or misread.",
  ["programs","histories"],"every function body, every call site, every point of evaluation",
  "The only GC test fails in this environment; a wrong map shows only if a collection happens at that point and the memory is reused.",
  ["gc.go","codegen.go","semantic.go"],[("GcState, GcTypes","gc.go"),("NewGcMap, SpillRegisters, genAssignStmt, genStmtList, genConstructor, genTypeInfoTable","codegen.go"),("lowerForStatement","semantic.go")],
  [("GcState.roots,scopes","live pointer slots","gc.go")],["stack maps in the emitted assembly","output of the compiled program"])

p("C13","Constructed values read back as constructed",
  "Constructing a struct or enum value and then reading any field, or matching on it, yields exactly the values it was constructed with, in their declared positions; assigning one field changes that field only; a match runs exactly the case whose constructor built the value, with each case variable bound to the argument of its position. This holds for every number, order and type of fields and cases.",
  ["programs"],"every struct and enum declaration and every constructor argument",
  "Tests use a few small structs and enums.",
  ["codegen.go","semantic.go","ast.go"],[("genConstructor, genExpr opDot, genAssignStmt","codegen.go"),("processTopLevelTypes field offsets, lowerMatchStatement, generateStructConstructor","semantic.go"),("generateStruct","ast.go"),("substituteType","typecheck.go")],
  [("Symbol.Addr","field offset","symtab.go"),("EnumConsFunc.Tag","case number","symtab.go")],["output of the compiled program"])

p("C14","Control flow executes as written",
  "In every compiled program exactly the branch whose condition is the first true one runs, in if/elseif/else chains and in ternaries; a while body repeats exactly while its condition holds; a for loop evaluates its array once and visits its elements in order, a range a .. b visits a to b-1 upwards and a range ending in the literal 0 visits a-1 down to 0 (a above the least int); statements run in order and nothing after an executed return runs.",
  ["programs"],"every nesting of control statements with arbitrary conditions and bodies",
  "Tests sample a few loops and branches.",
  ["codegen.go","semantic.go"],[("genIfElseIfElseStmts, genWhileStmt, genExpr opTernary, genStmtList, genReturnStmt","codegen.go"),("lowerForStatement","semantic.go")],(),["output of the compiled program"])

p("C15","Emitted assembly means what code generation asked for",
  "For every instruction stream, the peephole optimiser's output has the same effect on memory, on the stack and on every register except the one intermediate register it elides, and it never merges across a label, directive or non-adjacent instruction nor produces a memory-to-memory move. Every operand, constant, string literal, GC map and header is written as assembler text denoting exactly that operand or value, and distinct literals get distinct storage.",
  ["programs","inputs"],"every instruction sequence and operand; every literal text",
  "Tests exercise the operand shapes of about 25 programs.",
  ["peep.go","asm.go","gc.go"],[("peep.ins, peep.write and forwarding methods","peep.go"),("memOp/reg/litOp/symOp Print, gasWriter","asm.go"),("readOnlyGcHeader","gc.go")],
  [("peep.i,ops","pending instruction","peep.go")],["assembly file"])

p("C16","String and byte operations are correct and memory safe",
  "For all strings and byte arrays the library's length, byte, get, set, Equals, IndexOf, Substring, append, conversion and buffer operations return the mathematically expected result (bytes read as -128..127, the empty string found at 0), leave their arguments unchanged (except the one being written, and there only the addressed bytes), and never read or write outside the object: an index or range outside it, negative ones included, panics.",
  ["inputs"],"every string, byte array, index and buffer history",
  "tests/strings.clara samples 76 IndexOf pairs and a few appends; tests/panic has one index.",
  ["install/lib/strings.clara","install/lib/bytes.clara","install/lib/arrays.clara"],[("bytes get/set","install/lib/bytes.clara"),("copyArray","install/lib/arrays.clara"),("Equals, IndexOf, append, byteBuffer","install/lib/strings.clara")],(),["output of the compiled program"])

p("C17","A hash map behaves as a finite map",
  "For every hasher consistent with the matcher, including ones returning negative or colliding values, and every sequence of operations: get returns the value of the latest put of an equal key unless removed since, put and remove return the previous value, size is the number of distinct keys present, foreach visits every entry exactly once, and resizing changes none of this.",
  ["histories","inputs"],"every history of put/get/remove/contains/foreach and every hash function",
  "tests/maps.clara performs 8 operations on one key and never resizes or collides.",
  ["install/lib/map.clara","install/lib/list.clara","install/lib/functional.clara"],[("search/indexFor/put/remove/resize","install/lib/map.clara"),("find/remove/append","install/lib/list.clara")],
  [("map.buckets,size,threshold","table","install/lib/map.clara")],["output of the compiled program"])

p("C18","List, option and result operations satisfy their laws",
  "For every list: toList keeps order and elements, append puts the value in front, reverse reverses, map/foreach/reduce apply the function to each element in order exactly once, find returns the first match and remove takes out only the first match and keeps the order of the rest. For every option and result: map, then, filter, peek, orElse, isSome and isNone act on the contained value exactly as their case demands and pass the other case through unchanged.",
  ["inputs"],"every list of any length, every function argument",
  "Tests touch toList, foreach and reduce on one list.",
  ["install/lib/list.clara","install/lib/functional.clara"],[("list functions","install/lib/list.clara"),("option/result functions","install/lib/functional.clara")],(),["output of the compiled program"])

p("C19","Integer library functions are exact for every int",
  "For every 63-bit integer, its decimal text is the exact decimal numeral (minus sign, no leading zeros) and its binary text the exact 63-digit two's-complement bit pattern, split by a middle dot above every eighth bit; mod returns the remainder with the sign of the dividend; the string hash equals 32-bit FNV-1a of the string's bytes; bool text is true or false.",
  ["inputs"],"all 2^63 integers, all moduli, all strings",
  "tests/core.clara samples 18 values.",
  ["install/lib/core.clara","install/lib/hash.clara"],[("toString, toBinary, mod","install/lib/core.clara"),("fnv1a","install/lib/hash.clara")],(),["output of the compiled program"])

p("C20","A collection frees exactly the unmarked blocks",
  "For every heap and stack: marking visits each block reachable through listed roots and pointer fields, marks it exactly once and follows only pointer fields of its type; sweeping frees exactly the unmarked blocks, clears every mark and leaves the block list holding exactly the survivors in order; allocation returns a zeroed, unmarked block of the requested size and type linked into that list. The collector changes no object other than its mark.",
  ["histories","inputs"],"every heap graph, block list and sequence of allocations",
  "The one GC test cannot run here and checks only that memory does not run out.",
  ["install/lib/gc.clara","install/lib/mem.clara","install/lib/runtime.clara"],[("gcMark, gcMarkPointer, gcSweep, setMark/clearMark/typeId","install/lib/gc.clara"),("claralloc","install/lib/mem.clara")],
  [("block.next,header","heap list and mark","install/lib/mem.clara")],["output of the compiled program"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80
    n=x["statement"].count(". ")+1
    assert n<=3,(x["id"],n)
