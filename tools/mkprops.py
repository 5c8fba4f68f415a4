#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Kept as the readable source of that file.
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe:a["observe_at"]=observe
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
LEX,PAR,RES,TC,MC,KC,NC="ticc/src/compiler/lexer.rs","ticc/src/compiler/parser.rs","ticc/src/compiler/resolve.rs","ticc/src/compiler/typeck.rs","ticc/src/compiler/matchck.rs","ticc/src/compiler/kindck.rs","ticc/src/compiler/numck.rs"
GEN="ticc/src/codegen/gen_core.rs"; OPT="ticc/src/codegen/opt.rs"; LIB="ticc/src/lib.rs"
BC,LA,TW,HP,CP="ticc-eval/src/bytecode.rs","ticc-eval/src/lambda.rs","ticc-eval/src/treewalk.rs","ticc-eval/src/heap.rs","ticc-eval/src/compile.rs"
LSP="ticc-lsp/src/main.rs"; LU="ticc-lsp/src/utils.rs"; LH="ticc-lsp/src/handlers.rs"

p("C01","Analysis is total: any text gets answers, never a crash or hang",
"For every source text, well formed or not (nesting expressions and types at most a few hundred levels deep), asking for diagnostics, highlighting tokens, hover, go-to-definition, references or completions (at every offset of the text) terminates without crashing. Every position in an answer lies inside the text, on character boundaries and with start not after end; a text that is not a valid program gets at least one error.",
["inputs"],"all source texts and all cursor offsets: every short character string over an alphabet with one representative of each lexical class, every short token sequence, and every single-token deletion, duplication, insertion, replacement and truncation of a corpus covering the whole grammar",
"The suite compiles about a hundred hand written programs, almost all syntactically valid; an editor sends every intermediate text of a user's typing, and error recovery has to be total on all of them.",
[LEX,PAR,"ticc/src/compiler/syntax.rs","ticc-syntax/src/lib.rs","ticc-syntax/src/cursor.rs","ticc/src/api.rs",RES,TC,MC],
[("error recovery that always consumes input","parse_one_item and recovery sets in "+PAR),("cursor lookup of the node at an offset","ticc-syntax/src/cursor.rs"),("queries over partially built syntax","ticc/src/api/*.rs")],
["CompilationUnit::{diagnostics,tokens,info,find_definition,find_references,completions}"])
p("C02","Answers depend only on the text, not on which questions were asked before",
"For a fixed text and fixed imports, each diagnostics, token, hover, definition, reference or completion answer, the emitted intermediate code and every run result are the same whatever queries were asked before it and however often it is repeated. In particular querying early positions first, so that the rest is analysed later, changes nothing.",
["histories"],"all sequences of queries (kind x offset) up to a bound, on every program of a corpus that exercises every item kind, declarations depending on earlier ones, ill-typed declarations and imports",
"Analysis is lazy and resumable item by item; tests ask one question per program and so never see a resumed analysis.",
[LIB,"ticc/src/compiler.rs","ticc/src/api.rs","ticc/src/api/info.rs","ticc/src/api/navigation.rs","ticc/src/api/completion.rs"],
[("incremental compilation up to an offset, resumed with scope and definitions rebuilt from finished items","compile_up_to in "+LIB),("definition set","DefSet in ticc/src/compiler.rs")],
["CompilationUnit public queries"],[("items","analysed prefix of the text",LIB)])
p("C03","Highlighting tokens are exactly the lexical tokens of the text",
"The highlighting tokens of a text come in source order, do not overlap, and are exactly the lexical tokens of the text with maximal munch: keywords, operators, names, holes, numbers, strings and comments with their exact extent and category. In a valid program every name declared in it or exposed by its imports is categorised by what it refers to: value, type, type variable, constructor or module.",
["inputs"],"all character strings up to a length over a representative alphabet, all pairs and triples of tokens with and without separating space, and every valid program of the corpus",
"A handful of lexer inputs are tested; token boundaries depend on every neighbouring pair of characters.",
[LEX,"ticc/src/api/tokens.rs","ticc-syntax/src/lib.rs"],[("longest-match lexer","logos rules in "+LEX),("token classification from syntax and resolution","ticc/src/api/tokens.rs")],
["CompilationUnit::tokens"])
p("C04","A text is accepted by the parser exactly when the grammar derives it",
"A program is free of syntax errors exactly when its token sequence is derivable from the published grammar of imports, type, value and expression forms, and otherwise an error is reported at the first token (or the end of the text) at which it stops being the beginning of a derivable one. Operators group by the documented precedence and associativity (pipe lowest, then comparisons, then additive, then multiplicative, application tightest, all left associative), so that the printed result of any operator chain is that of its fully parenthesised reading.",
["programs"],"all token sequences up to a bounded length, all items and expressions derivable up to a bounded size, all short character sequences inside of and between tokens, single-token mutants, omitted and repeated ranges of tokens, and all operator chains up to a bounded length over every operator",
"The grammar file and parser are only compared on the programs in the test tree; grouping errors only show for specific operator pairs.",
[PAR,"ticc/grammar.txt",GEN],[("recursive descent with precedence levels",PAR)],["CompilationUnit::diagnostics","CompilationUnit::interpret"])
p("C05","Names resolve lexically: definitions, references and undefined-name errors",
"Every use of a name refers to the innermost enclosing or latest preceding declaration of that name in the right namespace (value, type, constructor or module), and a use without such a declaration is reported as an error exactly at that name. Go-to-definition from a use or declaration leads to that declaration, and find-references returns exactly the uses that refer to it and no others (the language server adds the declaration when asked to).",
["programs"],"all programs up to a bound over a tiny set of names forced to collide (shadowing by let, lambda, pattern, type parameter, later item, import) and every cursor offset in them",
"Tests contain a few scoping examples with mostly distinct names; wrong resolution needs colliding names in particular nesting.",
[RES,"ticc/src/compiler.rs","ticc/src/api/navigation.rs","ticc/src/api.rs"],[("nested scopes with parent links","Scope in ticc/src/compiler.rs"),("symbol lookup at an offset","ticc/src/api/navigation.rs")],
["find_definition","find_references","diagnostics"])
p("C06","Completions offer exactly the names that would resolve at the cursor",
"At the position of any name use, the completion list contains each declaration that may be written there, that is those in scope of the kind the syntactic position asks for (values, types, constructors, modules, or exports of the named module), exactly once, and contains nothing that would be an undefined name there.",
["programs"],"all programs up to a bound over colliding names and all name-use positions in them, including module-qualified ones",
"Completion has no tests of contents beyond trivial ones, and contents depend on everything in scope at each position.",
["ticc/src/api/completion.rs",RES],[("scope reconstruction at the cursor","ticc/src/api/completion.rs")],["CompilationUnit::completions"])
p("C07","Hover shows the type the type system assigns",
"In a program without errors, hovering over a name or expression shows its type and, at a declared name, the declared or inferred type, as the type system defines them; hovering over a type name shows how many parameters it takes. The shown type is valid syntax for that type when it can be written with the names declared in the program (types of other modules that the program does not name may be shown as ???).",
["programs"],"all well typed programs up to a bound over polymorphic, recursive and higher order types, and all offsets in them",
"Hover tests cover a few positions; printing and lookup are specific to the kind of node under the cursor.",
["ticc/src/api/info.rs",TC,"ticc/src/error.rs"],[("types recorded per syntax node",TC),("type printing","ticc/src/error.rs")],["CompilationUnit::info"])
p("C08","Accepted programs never go wrong",
"A program reported free of errors compiles and runs in every runner, optimised or not, to either a result, a message naming one of its holes, or an endless computation the source spells out: never an internal failure, and the typed intermediate code is valid after generation and after every optimisation pass.",
["programs"],"all programs up to a bound over a grammar of type declarations, annotations with type variables, lets, lambdas, folds, matches, applications, operators and holes; constructors of up to 70 fields and functions capturing up to 70 variables",
"Soundness quantifies over all accepted programs; the suite checks about a hundred.",
[TC,KC,MC,NC,GEN,"ticc-core/src/verify.rs",OPT,"ticc-eval/src/tagged.rs"],[("inference and unification",TC),("intermediate code verifier run after each pass","ticc-core/src/verify.rs")],["interpret","emit_ir"])
p("C09","Type checking accepts exactly the well typed programs",
"A syntactically valid program whose names all resolve is reported as erroneous exactly when no typing exists under the language's rules: monomorphic inference with rank-1 polymorphism only where a type annotation declares it, nominal data types with the declared number of parameters, folded views only from fold functions, constructor patterns with the right number of fields, integers in range.",
["programs"],"all programs up to a bound over annotations (int, bool, string, functions, data types with 0-2 parameters, type variables), nested polymorphic lets, folds and matches",
"The suite lists a few dozen rejected programs; a missing or superfluous rejection shows only for particular type combinations.",
[TC,KC,NC,"ticc/src/compiler/ir.rs",LIB],[("unifier with occurs check and rollback",TC),("kind check",KC),("literal check",NC)],["CompilationUnit::diagnostics"])
p("C10","Match coverage: exhaustive, non-redundant matches and only those are accepted",
"A match is accepted exactly when it scrutinises a data type and names every constructor of it exactly once, in any order: a missing constructor is reported on the match and each duplicate case on that case, naming the constructors concerned (those that are not named are counted). Evaluation of an accepted match always takes the case of the value's constructor and binds its fields in order.",
["programs"],"all sequences of cases up to a bound over all data types of up to four constructors, including folded scrutinees, same-named constructors of shadowing types, imported and module-qualified constructors, and nested matches",
"Only a few case lists are tested.",
[MC,TC,GEN],[("coverage check over resolved constructors",MC)],["diagnostics","interpret"])
p("C11","Evaluation follows the language definition",
"Running an accepted program prints, for each exported value in source order, the value that the language definition gives it: strict left-nested evaluation, lexical closures, 64 bit wrapping arithmetic with division by zero giving 0 and remainder by zero giving the dividend, structural data, and the documented intrinsics.",
["programs"],"all well typed programs up to a bound over integers, booleans, strings, functions, data, lets with shadowing, folds, iteration and imports, compared with an independent reference evaluator",
"Expected outputs exist for a few dozen programs.",
[GEN,LA,BC,TW,CP,"ticc/src/interpreter.rs"],[("translation to core",GEN),("three interpreters","ticc-eval/src")],["interpret"])
p("C12","All runners agree",
"For every accepted program the bytecode, closure and tree-walking runners print the same result, or all of them stop with a message naming a hole of the program.",
["programs"],"all accepted programs up to a bound, each run by every runner on unoptimised and optimised code, including self tail calls, many captured variables, multi-argument calls and partially applied constructors",
"Runners are only compared on test programs; compile-time specialisations depend on the arity and shape of each node.",
[LA,BC,TW,CP,HP],[("stack-slot compiler and self tail calls",CP),("specialised closures by shape",LA)],["interpret"])
p("C13","Optimisation preserves results",
"For every accepted program the optimised program prints what the unoptimised one prints; it may skip a hole whose value is never needed, but never stops at a hole when the unoptimised program does not.",
["programs"],"all accepted programs up to a bound, with every combination of redex shapes (beta, let, match of known constructor, match of match, nested lambdas, unused and multiply used bindings, shadowed names, recursion) nested two deep",
"Passes interact; the suite only has the programs somebody thought of.",
[OPT]+["ticc/src/codegen/opt/%s.rs"%x for x in ("inline","inline_simple","dce","merge_match","move_match","reduce_apply","reduce_pi","saturate")],[("pass pipeline iterated to a fixpoint",OPT)],["interpret with optimize on and off"])
p("C14","Fold is structural recursion over any data type",
"Applying a fold function to a value of any declared data type computes the function's body with every recursive field replaced by the fold of that field, once per field, and every other field unchanged, and always terminates. This holds whatever the order and number of constructors, of recursive and plain fields, and of type parameters, and for folds nested in one another or returning functions.",
["programs"],"all data type declarations up to a bound (constructors, fields, recursive positions, parameters), all values of them up to a bounded height, and a set of algebras that distinguishes every field and constructor",
"A few lists and trees are tested.",
[GEN,TC],[("recursive worker rebuilding the value with folded fields","fold lambda in "+GEN)],["interpret"])
p("C15","Garbage collection is invisible",
"The result of a program run by the bytecode runner does not depend on when collections happen or how much memory was in use: any placement of allocations relative to heap exhaustion, any sharing between live values, any object size and number of fields, and any string length give the result of the other runners.",
["schedules","programs"],"all offsets of the first collection relative to each allocation of a program (by prefixing every amount of garbage and live data up to the heap period), for programs with every kind of allocation and every kind of root live across it",
"The heap starts small and the collection point depends on exact sizes, so tests hit a few arbitrary points.",
[HP,BC],[("mark in address order, slide to the top, pointer bitmap per object",HP),("roots: stack, constants, booleans",BC)],["interpret(Bytecode)"],[("heap","bump-allocated objects",HP)])
p("C16","Emitted intermediate code is faithful and complete",
"The textual intermediate code emitted for an accepted program denotes the program that is run: read back by the rules of its syntax (names with unique numbers, operator precedence with parentheses, quoted strings) and evaluated, every exported definition has the value that running the program prints.",
["programs"],"all accepted programs up to a bound, optimised and not, with every operator pair, literals, nested lets, lambdas, matches and type applications",
"Output text is only compared with itself.",
["ticc-core/src/pretty.rs","formatter/src/lib.rs"],[("precedence driven printer","ticc-core/src/pretty.rs"),("layout with sticky tokens","formatter/src/lib.rs")],["emit_ir"])
p("C17","Modules expose exactly their exports, in the right namespaces",
"Importing a module makes visible exactly what it exports: exposed names and module-qualified names resolve to the exported value, type or constructor of that name in the namespace asked for, anything else is an error at the name, and unexported names of the module never leak. Types keep their identity through any chain or diamond of imports, and equally named declarations of different modules stay distinct.",
["configurations","programs"],"all two- and three-module programs up to a bound: every subset of export markers, every exposed list, every use form, chains, diamonds and shadowing imports",
"A handful of import scenarios are tested.",
[RES,"ticc/src/import.rs",LIB,"ticc/src/builtin.rs"],[("export tables per namespace","ticc/src/import.rs"),("import resolution",RES)],["diagnostics","interpret"])
p("C18","Import graphs load, and cycles and missing files are reported",
"For every set of source files, running the compiler on one of them loads each transitively imported file relative to its importer and always terminates; it refuses to run exactly when an import reached that way names a missing file or closes a cycle, and then reports exactly the imports at fault in the file it stops at. A program whose graph is acyclic and complete runs as if the modules were evaluated in dependency order, and how a path is spelled (for example with ./ or ../) makes no difference.",
["configurations"],"all directed graphs of imports over up to three files plus a missing one, with self imports and path spellings",
"Two or three shapes of graph are tested.",
["ticc/src/main.rs"],[("file resolver with the chain of files being loaded","ticc/src/main.rs")],["ticc binary on a directory of files"])
p("C19","Language server state equals a fresh start after any editing history",
"After any sequence of opening, changing and closing documents that import each other, the latest published diagnostics of every open document, and every answer to hover, definition, references, completion and highlighting requests, are those of a server freshly started on the current contents (of the open documents, and of the disk for others). Changing one document refreshes every open document that depends on it, directly or through others; an import that is part of an import cycle, and only such an import, is marked as one, however the cycle came about.",
["histories"],"all sequences of open, change and close up to a bound over two and three documents and contents that import each other, break and repair each other, form cycles, or vanish",
"Protocol tests script a few short sessions with one document.",
[LSP,LH,LU,"ticc-lsp/src/diagnostics.rs"],[("cached units and dependency tracking",LSP),("refresh of dependents",LSP)],["ticc-lsp over stdio"],[("documents","open text and compiled unit per document",LSP)])
p("C20","Language server positions are UTF-16 line and character positions",
"Positions in requests and answers of the language server count lines and UTF-16 code units exactly as the protocol demands, for any text with multi-byte characters and any mix of line endings, at every position including line ends, positions past a line end (clamped) and past the last line, and whatever positions were asked before.",
["inputs","histories"],"all texts up to a bounded length over characters of 1 to 4 bytes and line breaks, all line/character pairs in and beyond them, and all orders of asking two positions",
"Tests use ASCII text.",
[LU],[("incremental line table",LU)],["ticc-lsp over stdio"])
p("C21","Language server answers every request and stays alive",
"The language server answers each request with exactly one response carrying its id, in any document state (never opened, open, changed, closed, erroneous), at any position, and continues serving after malformed programs, unknown files, wrong parameters and unsupported methods; it ends only on shutdown and exit or end of input.",
["histories"],"all sequences up to a bound of document events and of every request type at in-range and out-of-range positions on known, closed and unknown documents",
"Tests only send requests for open documents.",
[LSP,LH],[("request dispatch",LSP)],["ticc-lsp over stdio"])
p("C22","Semantic tokens sent to the editor decode to the document's tokens",
"The delta-encoded semantic tokens sent for any document decode to its highlighting tokens: in order, on the right lines and UTF-16 columns, with the right lengths and token types from the announced legend, for any text including multi-byte characters.",
["inputs"],"all short sequences of tokens, line breaks, indentation and multi-byte comments and strings",
"One or two small documents are tested.",
["ticc-lsp/src/semantic_tokens.rs",LU,LSP],[("delta encoding","ticc-lsp/src/semantic_tokens.rs")],["ticc-lsp textDocument/semanticTokens/full"])
p("C23","Program entry: main maps input bytes to output bytes, or explains why not",
"Running a program on input passes exactly the input bytes to the exported value main and outputs exactly the bytes it returns (a terminal gets a line feed after them); a program without exported main, or whose main is not a function from string to string, is refused with that explanation, whatever other declarations named main it contains. No other outcome than output, a hole message or this refusal is possible for an accepted program.",
["inputs","programs"],"all declaration lists up to a bound of (exported or not) main with each type shape, shadowed or repeated, and all inputs up to a bounded length over representative bytes including non-UTF-8 and zero bytes",
"Main is exercised by a few puzzle programs with ASCII input.",
["ticc/src/interpreter.rs","ticc/src/main.rs",LIB],[("selection of the exported main and its type check","ticc/src/interpreter.rs")],["interpret_main","ticc binary"])
p("C24","The standard library computes what its names say",
"Every exported function of the option, result, list, string, int and array modules computes its mathematical definition on all arguments, including empty lists, out-of-range indices, zero, maximal integers and strings with separators at the ends; sorting returns a sorted permutation.",
["inputs"],"all arguments from bounded domains: all integers of a boundary set pairwise, all lists up to a length over a small alphabet, all strings up to a length over an alphabet with separators, all indices in and out of range",
"The suite has 20 assertions about a few of the 100 functions.",
["ticc/src/std/%s.tic"%x for x in("list","string","int","array","option","result","intrinsics")],[("library source","ticc/src/std")],["interpret"])
p("C25","Arithmetic and literals are exact at every edge, in every runner",
"Integer literals from 0 to 2^64-1 denote their value and anything else written as a number is rejected; each operator gives the mathematically defined 64 bit wrapping result and each comparison the unsigned order, for all operands, whether computed by the optimiser or at run time, in every runner, nested in every way.",
["inputs"],"all pairs and triples of operands from a boundary set (0, 1, 2, powers of two and neighbours, maxima) under every operator, constant and not, and all literal texts near the limits and with bad characters",
"A few small sums are tested.",
[NC,LA,BC,TW,"ticc/src/compiler/lexer.rs"],[("wrapping and checked arithmetic",TW),("literal check",NC)],["interpret","diagnostics"])
p("C26","Unused declarations are reported exactly",
"A program gets an unused warning exactly at each declared value, parameter, pattern variable, constructor, type or exposed name that is neither used (an exposed name in any of the namespaces it is exported in), exported nor prefixed with an underscore; using a constructor counts as a use of its type. Warnings never make a program fail.",
["programs"],"all programs up to a bound over colliding names, each declaration used, unused, exported or underscored, including names exposed from imports in several namespaces",
"A few programs with warnings are tested.",
["ticc/src/lint/unused.rs",RES],[("set of used symbols","ticc/src/lint/unused.rs")],["diagnostics"])
p("C27","Compiling on several threads gives single-threaded answers",
"Compiling and running programs concurrently from several threads, sharing imported modules and the lazily built standard library, gives each thread the answers it gets alone: no deadlock, no crash, no mixed-up declarations, under every interleaving.",
["schedules"],"all interleavings at every module lookup of two and three compilations that share imports and race to build the standard library for the first time",
"Tests run single compilations; the process-wide tables are initialised once per process in one order.",
["ticc/src/builtin.rs",LIB,"ticc/src/compiler/ir.rs"],[("mutex-guarded lazily compiled modules","LazyModule in ticc/src/builtin.rs"),("atomic symbol and module counters","Symbol::fresh, ModuleKey::fresh_key")],["CompilationUnit from several threads"])
p("C28","The command line tool produces what is asked for, or nothing and a reason",
"For an accepted program --check writes nothing, and --emit-ir, --eval and --run put the intermediate representation, the exported values or the output of main in the chosen place (standard output, the given file, or for --emit-ir the input's name with extension cir) and change no other file; choice of runner, optimisation of an evaluation, verification, stack size and timing do not change that output. When the source cannot be read, the program or a file it imports has errors, main stops or is missing, the input cannot be read, the output cannot be written or the arguments make no sense, the tool writes no part of a result and leaves existing files alone, explains itself on standard error and exits with a code other than 0 (1 when the arguments are understood). Diagnostics name the file, line and column at which the error or warning starts whatever characters and line ends precede it, --stack gives deeply recursive programs room in every runner, and nothing makes the tool crash.",
["configurations","inputs"],"the full product of modes, check, runners, optimisation, verification, stack sizes, timing and output places, over a set of programs of every kind (clean, with warnings, each kind of error, in an imported file, with holes, with and without main, not text, missing), and source names",
"No test runs the command line tool with more than one or two options, on a failing program, or looks at the files it leaves.",
["ticc/src/main.rs"],[("argument handling, diagnostics printing and output","ticc/src/main.rs")],["ticc binary"])
p("C29","Verification accepts exactly the well typed intermediate programs",
"An intermediate program passes verification exactly when each name and type variable is bound once and used only in scope, calls, constructors, intrinsics, operators, type applications and matches get the right number of arguments of the right types, branches agree, and each definition has its declared type. A program that passes, with complete matches and function-valued recursion, runs without an internal failure and with the same result in all three runners, and its printed form is that program.",
["programs"],"all intermediate programs up to a number of nodes over small sets of names and types, right and wrong, and every single change of name, type or shape of larger right ones",
"Tests only verify programs the compiler generates, never a wrong one, so a verifier that accepts everything passes them.",
["ticc-core/src/verify.rs","ticc-core/src/ir.rs","ticc-core/src/pretty.rs",BC,"ticc-eval/src/compile.rs",LA,TW],[("scope and type checks","ticc-core/src/verify.rs")],["ticc_core::assert_valid","ticc_eval runners"])
p("C30","The formatter prints exactly what it is given, laid out by its rules",
"For every sequence of formatter operations the text has each token once, in order, separated by one space unless one of the two is sticky towards the other or a line ends between them, and line breaks exactly where asked (large ones only directly in a node that is large or contains a large node), never at the beginning and never two in a row. A line is indented by four spaces per level of the innermost indenting node around its first token that printed a token before (directly, not inside a nested indenting node), where a node's level is one more than that of the indenting node around it if that one has broken a line before, and the same otherwise.",
["histories"],"all sequences of formatter operations (every kind of token, line break, white space, node) up to a length, and deeper ones over fewer operations and inside nodes already open",
"The formatter has no tests of its own; it is seen only through a few printed programs.",
["formatter/src/lib.rs"],[("layout state","RawBuilder in formatter/src/lib.rs"),("large nodes","FormatNode::mark_large in formatter/src/lib.rs")],["FormatBuilder"])
p("C31","Syntax trees keep every part of the text in its place",
"For every sequence of builder operations that nests properly, the tree has exactly the nodes, tokens and trivia added, in order and under the right node, with the right kinds and identifiers, and so do its traversals, in preorder and each once. Each element's span and text are where it was added, counted from the start position given; a node's full span goes from where it was started to the end of the last thing in it, and its span leaves out trivia around the first and last token or node directly in it.",
["histories"],"all sequences of builder operations up to a length, with characters of one to four bytes, empty tokens and nodes, from two start positions, and deeper nesting over fewer operations",
"Syntax trees have no tests of their own.",
["ticc-syntax/src/lib.rs","ticc-syntax/src/cursor.rs","ticc-syntax/src/pos.rs"],[("spans of nodes","SyntaxBuilder::finish_node_internal in ticc-syntax/src/lib.rs"),("traversals","ticc-syntax/src/cursor.rs")],["SyntaxBuilder","cursor::SyntaxNode"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    n=x["statement"].count('. ')+1
    assert n<=3,(x["id"],n)
print(len(P))
