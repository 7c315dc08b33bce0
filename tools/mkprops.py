import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or ["exit status, stdout (correct/incomplete) and stderr error position of the ethos binary"],hook_needed=None)))
p("C01","A step is accepted exactly when its rule matches and yields the conclusion",
"For every declared proof rule and every step, the step is accepted if and only if its arguments and the formulas its premises prove match the rule's patterns in order with one consistent substitution, every :requires pair evaluates to two identical ground values, the instantiated conclusion is a closed Bool formula, and it is identical to the stated conclusion when one is given. An accepted step makes its name stand for a proof of exactly that instantiated conclusion, so later premises see that formula and nothing else. A wrong number, order or kind of premises or arguments (including for a rule with no arguments and no premises) is rejected.",
["inputs","programs","histories"],"all rules, all steps, all proof histories that lead to them",
"tests are a fixed set of proofs that must succeed; a step that must be refused is almost never tested, and no finite list covers rules x instantiations",
["src/state.cpp","src/cmd_parser.cpp","src/type_checker.cpp"],
[("notifyStep assembles and evaluates the rule application","src/state.cpp"),("STEP command compares stated and proved conclusion","src/cmd_parser.cpp"),("match and evaluateProgram","src/type_checker.cpp")])
p("C02","Local assumptions are discharged by step-pop and never usable after it",
"assume-push opens a local scope with one assumption; step-pop requires an open scope, applies its rule to that scope's assumption, and closes exactly that scope, so that afterwards every name bound since the matching assume-push (the assumption included) is unusable or means what it meant before. Rules with an :assumption can be applied only by step-pop, and step-pop applies only rules with an :assumption. Hence whatever is proved at level zero depends only on level-zero assumptions, whatever interleaving of assumptions, steps, definitions, declarations, push and pop occurred in between.",
["histories","inputs"],"all sequences of commands with nested local scopes",
"tests contain a handful of well-nested uses; leaking a local assumption only shows on a proof that must be refused",
["src/state.cpp","src/cmd_parser.cpp"],
[("pushAssumptionScope/popAssumptionScope","src/state.cpp"),("STEP_POP binds the name after popping","src/cmd_parser.cpp")],
[dict(name="d_assumptionsSizeCtx, d_assumptions",meaning="stack of local assumptions",where="src/state.h")])
p("C03","With a reference file, only referenced assertions can be assumed",
"Once a reference problem file is given (by the reference command or the --reference option), every assume of a proof, at any level and any later time, is accepted if and only if its formula is an assertion of that file or the defining equation of a define-fun in it, after the optional normalization program has been applied to the reference assertions. assume-push is never validated, later include commands or files do not switch validation off, and at most one reference is accepted. Without a reference, every well-formed assume is accepted.",
["histories","inputs","configurations"],"all reference files, normalization programs, orders of include/reference/assume and command line settings",
"tests use a few fixed reference files and never an assumption that must be refused",
["src/state.cpp","src/cmd_parser.cpp","src/main.cpp"],
[("addAssumption / addReferenceAssert / includeFile","src/state.cpp"),("REFERENCE, ASSUME, ASSERT, DEFINE_FUN commands","src/cmd_parser.cpp")],
[dict(name="d_hasReference, d_referenceAsserts, d_referenceNf",meaning="active reference problem",where="src/state.h")])
p("C04","The answer is correct, incomplete or an error, and never wrong about sorry",
"The checker prints correct and exits 0 only if every command was accepted and no accepted step used a rule marked :sorry; it prints incomplete and exits 0 if every command was accepted and some accepted step (at any level, in any included file, popped or not) used a rule marked :sorry. The first rejected command makes it exit with an error naming that command's position and print neither answer, and nothing after it is executed. exit stops the reading of its file at once.",
["histories","inputs"],"all command sequences and files",
"tests only check that runs exit with status 0",
["src/main.cpp","src/cmd_parser.cpp","src/state.cpp","src/base/check.cpp"],
[("main prints the answer","src/main.cpp"),("hasOnlyCorrect.../sorry attribute and rule statistics","src/state.cpp"),("parseError","src/lexer.cpp")])
p("C05","Programs rewrite by the first matching case, deterministically",
"Applying a program to ground arguments returns the evaluated right-hand side of the first case (in order of declaration) whose patterns match all the arguments with a consistent assignment of the parameters; if no case matches, the application stays unevaluated and is an ordinary stuck value. A program application with a non-ground or unevaluated argument is not run. The result does not depend on evaluation history: repeating an application, evaluating other applications before it or sharing subterms never changes it.",
["programs","inputs","histories"],"all programs, arguments and evaluation orders",
"each test runs a few fixed programs on a few arguments and only checks the final answer; overlapping cases, non-linear patterns, stuck calls and repeated evaluation are sampled barely",
["src/type_checker.cpp","src/expr.cpp"],
[("evaluateProgramInternal, match, evaluate with its caches","src/type_checker.cpp")])
p("C06","Core evaluation operators behave as specified",
"eo::ite returns the chosen branch only for a condition that evaluates to true or false and never evaluates the other branch; eo::requires returns its third argument only if its first two are identical values; eo::eq, eo::is_eq, eo::is_ok, eo::is_var/is_z/is_q/is_bin/is_str/is_bool, eo::typeof, eo::nameof and eo::cons-style operators return exactly the documented value. On arguments outside their domain they stay unevaluated, and an unevaluated term is never treated as a value by any of them.",
["inputs","programs"],"all terms as arguments, nested arbitrarily, inside and outside programs",
"tests check a few successful evaluations; stuck conditions, branches that must not be run and mixed nesting are not enumerated",
["src/type_checker.cpp","src/state.cpp"],
[("evaluateIteInternal/evaluateRequires/evaluateLiteralOpInternal","src/type_checker.cpp")])
p("C07","Arithmetic, Boolean, bit-vector and string operators compute the exact values",
"For literal arguments, and, or, xor, not, add, neg, mul, qdiv, zdiv, zmod, is_neg, gt, len, concat, extract, find, to_z, to_q, to_bin and to_str return exactly the mathematical value of the documented function over unbounded integers, rationals, fixed-width bit-vectors and strings of code points. Partial cases (division by zero, indices out of range, widths or code points out of range, mixed literal kinds) follow the documentation: they yield the documented default or stay unevaluated. Results are normalized literals identical to the literal written directly.",
["inputs"],"all literals of all kinds, any magnitude and width, all operators and argument counts",
"tests check about a hundred fixed operand tuples; boundaries, negative numbers, width zero, big numbers and mixed kinds are mostly absent",
["src/literal.cpp","src/util/bitvector.cpp","src/util/integer.cpp","src/util/rational.cpp","src/util/string.cpp","src/type_checker.cpp"],
[("Literal::evaluate and value classes","src/literal.cpp"),("evaluateLiteralOpInternal","src/type_checker.cpp")])
p("C08","List operators treat an operator's applications as lists with nil",
"For every operator declared with a list-like attribute (right or left associative, fixed or parametric nil), eo::nil, cons, list_len, list_concat, list_nth, list_find, list_rev, list_erase, list_erase_all, list_setof, list_diff, list_inter, list_minclude, list_meq, list_repeat-style counting and list_singleton_elim return what the same functions return on the sequence of elements, for right- and left-associative operators alike. They stay unevaluated when an argument is not a list of that operator.",
["inputs","programs"],"all element sequences (with repetitions), all list attributes, all operators",
"tests use a few short lists, nearly all right-associative, and mainly without repeated elements",
["src/type_checker.cpp","src/util.cpp"],
[("evaluateListOpInternal/getNAryChildren/prependNAryChildren","src/type_checker.cpp")])
p("C09","N-ary applications desugar as the declared attribute prescribes",
"An application of a symbol to any number of arguments denotes exactly the curried term its attribute (right-assoc, left-assoc, their -nil and -non-singleton-nil variants, chainable, pairwise, binder, arg-list, or none) prescribes, including :list parameters in tail and other positions, parametric nil terminators, single arguments and partial applications. The curried operator _ applies without any desugaring. Attributes without list meaning never change the term.",
["inputs","programs"],"all attributes, argument counts, argument shapes and :list markings",
"tests exercise few argument counts per attribute and never compare with the fully explicit term in refused form",
["src/state.cpp","src/expr_parser.cpp","src/attr.cpp"],
[("mkExpr / mkApplyAttr","src/state.cpp")])
p("C10","Ill-typed terms are rejected and well-typed terms have their declared type",
"A term is accepted as a term of type T exactly when the typing rules give it type T: each argument of an application must have the declared (instantiated, evaluated) argument type, dependent and quoted parameters are instantiated by the actual arguments, literals have the type declared for their category, and formulas, types and definitions are checked where the language requires a given type. Over-application, under-applied conclusions, type mismatches and type computations that do not evaluate are rejected. Which type a term gets does not depend on what was typed before it.",
["inputs","programs","histories"],"all declarations and all terms over them",
"tests only contain well-typed input",
["src/type_checker.cpp","src/expr_parser.cpp"],
[("getTypeInternal/getTypeAppInternal","src/type_checker.cpp"),("typeCheck, parseType, parseFormula","src/expr_parser.cpp")])
p("C11","Names resolve to the right declaration, and scopes restore the previous meaning",
"At every point a name denotes what the most recent declaration or definition visible there gave it; leaving a scope (rule, program or definition parameters, let, binder, local assumption) restores exactly the meanings before it. An overloaded symbol denotes, in an application, the most recently declared overload whose application is well typed, or with eo::as the overload of the requested type. Names never bound, or bound only in a closed scope, are rejected.",
["histories","inputs"],"all sequences of declarations, shadowings and scopes",
"tests shadow and overload only in a few ways and never use a name that must be unknown",
["src/state.cpp","src/expr_parser.cpp"],
[("bind/popScope/getOverload","src/state.cpp")],
[dict(name="d_symTable, d_decls, d_overloads",meaning="symbol table and its undo stacks",where="src/state.h")])
p("C12","Terms that are written alike are identical, and different terms never are",
"Two closed terms are identical for matching, side conditions and conclusions exactly when their elaborated structure is the same: definitions and let are transparent, bound variables are determined by name and type, literals by category and value, and separately declared symbols always differ even with the same name. This does not depend on how, when or how often the terms were built or discarded.",
["inputs","histories"],"all pairs of terms and construction histories",
"tests never assert that two terms are different, and none exercises reuse after terms were discarded",
["src/state.cpp","src/expr.cpp"],
[("mkExprInternal hash-consing trie, mkLiteral, getBoundVar, garbage collection","src/state.cpp")])
p("C13","Exactly the well-formed rule, program, definition and constant declarations pass",
"A rule, program, definition or constant declaration is accepted if and only if it is well formed: patterns contain no computed subterms and apply the declared program with its declared arity, every variable of a right-hand side or conclusion occurs in the patterns, side conditions bind nothing new, attributes fit the declared type, rules are declared outside local scopes and once per name, a program is defined once with the type of its forward declaration and has at least one argument. A rejected declaration is reported at that command.",
["inputs","histories"],"all declarations",
"tests contain only well-formed declarations",
["src/cmd_parser.cpp","src/expr_parser.cpp","src/state.cpp"],
[("DECLARE_RULE, PROGRAM, DEFINE, DECLARE_CONST commands and typeCheckProgramPair","src/cmd_parser.cpp")])
p("C14","Including files is idempotent, path-relative and leaves no other effect",
"include executes the commands of the file, resolved relative to the including file, as if written in its place, and exactly once per distinct file however often and by whichever path it is included; a missing file or an include inside a local scope is rejected. Everything the file declares (symbols, rules, programs, literal types, sorry marks) is then available to the includer. Errors inside it are errors of the run.",
["inputs","histories","configurations"],"all include graphs (repeated, nested, diamond, cyclic) and directory layouts",
"tests include a fixed set of signature files from one directory layout",
["src/state.cpp","src/cmd_parser.cpp"],
[("includeFile and the included-file set","src/state.cpp")])
p("C15","Literals denote their value and category in every file class and option setting",
"A literal token denotes the numeral, decimal, rational, binary, hexadecimal or string it spells, and is accepted only if well formed; in proof and reference files decimals are read as rationals, hexadecimals as binaries and, if requested, numerals as rationals exactly as the normalization options say, while signature files are never normalized. Equal values of one category are one literal regardless of spelling. Strings keep every character and escape sequence they spell.",
["inputs","configurations"],"all literal spellings x file class x option setting",
"tests have a few spellings in the default configuration",
["src/lexer.cpp","src/expr_parser.cpp","src/literal.cpp","src/util/string.cpp","src/main.cpp","src/state.cpp"],
[("Lexer tokenization","src/lexer.cpp"),("parseExpr literal cases","src/expr_parser.cpp"),("mkLiteral","src/state.cpp")])
p("C16","Datatype declarations provide exactly their constructors, selectors and testers",
"declare-datatype(s) makes available, with the types the declaration implies, the types, constructors, selectors, testers and updaters it lists and nothing else, for plain, mutually recursive and parametric datatypes; constructors whose type arguments are not determined must be annotated with as. eo::dt_constructors and eo::dt_selectors return exactly the declared constructors of a type and selectors of a constructor in declaration order, and stay unevaluated on other terms.",
["inputs"],"all datatype declarations and uses",
"tests have a few datatypes and only well-typed uses",
["src/expr_parser.cpp","src/cmd_parser.cpp","src/type_checker.cpp"],
[("parseDatatypesDef / parseConstructorDefinitionList","src/expr_parser.cpp"),("evaluateLiteralOp dt operators","src/type_checker.cpp")])
p("C17","Premise lists and explicit conclusions are built from exactly the given proofs",
"A rule with :premise-list receives as one formula the combination, under its operator, of the formulas proved by all given premises in order (the nil terminator for none), and a rule with :conclusion-explicit receives the stated conclusion as its last argument and proves it; a step of such a rule without a stated conclusion is rejected. These combine with :assumption, :args and :requires without changing each other's positions.",
["inputs","programs"],"all combinations of rule features, premise counts and orders",
"tests use each feature on a few fixed premise counts",
["src/state.cpp","src/cmd_parser.cpp"],
[("notifyStep","src/state.cpp")])
p("C18","Opaque arguments are hidden from applications and matched as part of the symbol",
"A constant with :opaque arguments must be applied to them first, as in (f a) before any ordinary argument, and the resulting symbol is atomic: its opaque arguments never count as children for matching, list or n-ary processing while different opaque arguments give different symbols. Its type is instantiated by the opaque arguments.",
["inputs","programs"],"all opaque declarations and patterns",
"tests cover two or three declarations",
["src/state.cpp","src/type_checker.cpp","src/cmd_parser.cpp"],
[("APPLY_OPAQUE handling","src/state.cpp")])
p("C19","Term hashing and comparison are consistent and stable within a run",
"Within a run eo::hash of a ground term always returns the same numeral and different terms get different numerals; eo::cmp is a strict total order over ground terms, irreflexive, antisymmetric, transitive, the same every time it is asked, and the order of the hashes as documented. Neither depends on which other terms were built or discarded in between, and programs and rules that use them see the same values.",
["histories","inputs"],"all terms and all evaluation histories of a run",
"a test can only observe one history; stability under term reuse needs adversarial sequences",
["src/state.cpp","src/type_checker.cpp"],
[("getHash and COMPARE/HASH evaluation","src/type_checker.cpp"),("d_hashMap","src/state.h")])
p("C20","Reporting options and build flavour never change a verdict",
"Statistics (all, compact), letified printing, traces and the release or debug flavour change only what is printed besides the answer; whether a run is accepted, which command is rejected, and the answer correct or incomplete are the same in all of them. Options that change the language (let parsing, literal normalization, the separate rule table) change exactly that. The statistics give, for each rule used, the number of its accepted steps.",
["configurations","inputs"],"all inputs x all option combinations x build flavours",
"tests run one configuration each",
["src/main.cpp","src/state.cpp","src/stats.cpp"],
[("Options and main argument processing","src/main.cpp"),("stats","src/stats.cpp")])
p("C21","Binders, bound variables and eo::var denote variables fixed by name and type",
"A binder application with a variable list denotes the application of the binder to the list of the variables built with its declared list constructor, whose variables are the ones eo::var builds from the same name and type, and these are in scope exactly in the body; a binder applied to an ordinary first argument is an ordinary application. eo::is_var, eo::nameof and eo::typeof of such a variable return the facts it was built from. A define with arguments is replaced by its body with the actual arguments substituted for the parameters simultaneously.",
["inputs","programs"],"all binder declarations, variable lists and bodies, all macro definitions and calls",
"tests use a few quantified formulas and macros",
["src/expr_parser.cpp","src/state.cpp","src/type_checker.cpp"],
[("binder parsing, mkBinderList, getBoundVar","src/state.cpp"),("LAMBDA beta-reduction in mkExpr","src/state.cpp")])
p("C22","push, pop and reset restore and clear the checker state",
"pop undoes exactly the declarations and definitions made since the matching push and is rejected without one or across an open local assumption; reset returns to the initial state, in which the built-in symbols work, nothing declared before is visible, while the set of included files, the reference and its assertions stay. Neither makes an unproved formula usable nor hides that a :sorry rule was used.",
["histories"],"all interleavings of push, pop, reset with declarations, assumptions and steps",
"only a couple of tests use push/pop at all and none reset after declarations",
["src/state.cpp","src/cmd_parser.cpp"],
[("pushScope/popScope/reset","src/state.cpp")])
p("C23","Every input is answered or refused: no crash, released memory or internal error",
"For every input whose evaluation terminates and whose nesting fits the stack, be it well formed, ill formed, truncated or arbitrary text, the checker ends with an answer or with an error message at the first command it does not accept. Whatever scopes, redeclarations, overloads, binders, discarded terms and evaluations came before, it never crashes, never fails one of its internal assertions, never uses a term that it has released and never reads or writes outside its memory or has otherwise undefined behaviour.",
["inputs","histories"],"all texts, all histories of commands that build and discard terms",
"tests are almost all well-formed files in a build without memory checks; use of a released term needs a particular history, and malformed text is hardly tested at all",
["src/state.cpp","src/expr.cpp","src/expr_trie.h","src/lexer.cpp","src/expr_parser.cpp","src/cmd_parser.cpp","src/type_checker.cpp"],
[("reference counts of terms, State::markDeleted","src/state.cpp"),("ExprTrie::remove","src/expr_trie.h"),("Lexer and the parsers' stacks","src/expr_parser.cpp")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P),[ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])
