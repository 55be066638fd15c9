TPL = "core/src/typed/template/mod.rs"
REP = "core/src/typed/template/repetition.rs"
SEQ = "core/src/sequence.rs"
CHO = "core/src/choice.rs"
TR = "core/src/typed/tracker.rs"
TRAITS = "core/src/typed/traits.rs"
POS = "core/src/position.rs"
AUT = ("abstract interpretation of the type-checked MIR to a finite effect automaton, "
       "compared for equality with the automaton of a reference behaviour")
NOTE = ("Static and for all inputs: every path of every listed implementation is covered, with unbounded loops widened. "
        "Const parameters are checked on a grid. Trusted: rustc's MIR, the modelling of core/std/pest::Stack operations "
        "(models/lib.rs, lib/vocab.py), and the reference behaviours. An effect outside of the vocabulary is reported as "
        "undecided in the evidence, not as a violation.")
PROPS = []
NA = []


def P(id, title, statement, over, qtext, why, files, mech, technique=AUT, note=NOTE):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                      files=files, mech=mech, technique=technique, note=note))


def N(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                   files=files, mech=mech, reason=reason))


P("C01", "Checking agrees with parsing",
  "For every grammar expression, input, start position and stack, the allocation-free check succeeds exactly when the "
  "tree-building parse succeeds, ends at the same position, and leaves the stack in the same state.",
  ["programs", "inputs", "histories"],
  "every kind of grammar expression (all arities and bounds), every input, every initial stack",
  "The two are separate hand-written or macro-generated implementations for some 300 node kinds; the tests run a few inputs "
  "and mostly through the parsing entry only.",
  [TPL, REP, SEQ, CHO, TRAITS, "core/src/typed/unicode.rs"],
  [("paired try_parse_with_partial / check_with_partial implementations", TPL)])
P("C02", "Failed attempts leave no trace on the stack",
  "Whenever an expression that contains stack operations fails inside an alternative, an optional, a repetition or a predicate, "
  "the stack visible to what is tried next is the one from before that attempt; when it succeeds (outside of a predicate) "
  "its stack changes are kept. Every saved stack state is either restored or discarded exactly once on every path.",
  ["programs", "inputs", "histories"],
  "every combination of successes and failures of the sub-expressions, for every arity of choice and any number of iterations",
  "Needs a failing alternative that had already changed the stack, at each alternative index, in both the parsing and checking "
  "paths; tests exercise a couple of PUSH/POP grammars.",
  [CHO, REP, TPL, "core/src/typed/wrapper.rs"],
  [("snapshot / restore / clear_snapshot around each attempt", CHO)])
P("C03", "Choice is ordered and exhaustive",
  "A choice tries its alternatives strictly in the order written, each from the position where the choice started, and stops at the "
  "first that succeeds, returning that alternative with its content and end position; it fails only after every alternative failed.",
  ["programs", "inputs"], "every arity from 2 to 16 and every pattern of failures before the first success",
  "Each arity is expanded separately by a macro; tests reach small arities and few success patterns.",
  [CHO], [("choice! macro instances Choice2..Choice16", CHO)])
P("C04", "Sequence threads positions in order with trivia between",
  "A sequence matches its elements in the order written, each starting where the previous one (and the implicit trivia between the two) "
  "ended; trivia is skipped exactly once before every element but the first, never before the first or after the last. It fails as soon as one element fails, and "
  "returns every element in place.",
  ["programs", "inputs"], "every arity from 2 to 16, every pattern of failures",
  "Each arity is a macro instance with its own trivia positions; tests sample a few arities and rarely observe where trivia starts.",
  [SEQ], [("sequence! macro instances Sequence2..Sequence16", SEQ)])
P("C05", "Repetition honours its bounds and backtracks its last attempt",
  "A repetition with bounds MIN and MAX accepts greedily as many iterations as match up to MAX, never more, and fails exactly "
  "when fewer than MIN matched; trivia is skipped only between iterations. The end position is that of the last matched "
  "iteration: trivia consumed before an iteration that then fails is given back.",
  ["programs", "inputs"], "every bound and every number of iterations",
  "Bounds are const parameters and the number of iterations is unbounded; tests use a handful of each.",
  [REP], [("RepMinMax parsing loops", REP)])
P("C06", "Predicates consume nothing",
  "A positive or negative predicate succeeds exactly when its expression would (respectively would not) match at the current position, "
  "always from that same position; on success parsing continues at the position where the predicate started and with the stack from before it.",
  ["programs", "inputs", "histories"], "every expression under the predicate, every outcome",
  "The effect of a leaked position or stack change shows only in what is parsed afterwards.",
  [TPL], [("Positive / Negative nodes", TPL)])
P("C07", "Optional never fails and restores on absence",
  "An optional expression always succeeds; if its content matches, the result holds it and parsing continues after it, and if not, "
  "nothing is consumed, the stack is as before, and the result is empty.",
  ["programs", "inputs", "histories"], "every expression, either outcome",
  "Tests sample optional expressions without stack effects.",
  [TPL, TRAITS], [("TypedNode for Option", TRAITS)])
P("C08", "Stack built-ins follow stack discipline",
  "PUSH pushes exactly the text its content matched, and only on success; PEEK matches the top, POP matches the top and removes it only if it matched, DROP removes the "
  "top without consuming, PEEK_ALL and POP_ALL match all entries from the top down, and slices match exactly the requested entries from the bottom up. "
  "Empty stacks and out-of-range slices make the expression fail rather than panic, with nothing consumed.",
  ["programs", "inputs", "histories"], "every stack depth, slice bound (negative included), and content",
  "The result depends on the history of the stack; the tests cover a few depths and slices.",
  [TPL, "core/src/typed/wrapper.rs"], [("PUSH, PEEK, PEEK_ALL, PeekSlice1/2, Pop, PopAll, Drop nodes", TPL)])
P("C09", "Terminals match exactly what they denote",
  "Each terminal accepts exactly its denotation at the current position: a literal its exact text (case-insensitively for the insensitive form), a range one character between its "
  "bounds inclusive, ANY one character, SOI only offset zero, EOI only the end, NEWLINE one of the three line endings with the longest first; "
  "on success parsing continues right after the match and on failure the expression fails.",
  ["programs", "inputs"], "every input, position, literal and range",
  "Tests sample ASCII inputs at few positions.",
  [TPL, POS], [("terminal nodes", TPL), ("match_* primitives of Position", POS)])
PATHS = ("abstract interpretation of the type-checked MIR into guarded paths over canonical terms, "
         "compared path by path with a reference function")
PNOTE = ("Static and for all inputs: every path of each function is covered; counts are covered on a small grid. Trusted: rustc's MIR, the "
         "modelling of core/std operations (lib/values.py, models/lib.rs), and the reference functions. A path that leaves the "
         "vocabulary is reported as undecided in the evidence, not as a violation.")
P("C10", "Positions and spans always lie on character boundaries",
  "Whatever an application or a parse does through the public interface, every position and both ends of every span lie on a UTF-8 character boundary "
  "within their input, and no safe public operation can create one that does not.",
  ["inputs", "histories"], "every input including multi-byte text, every sequence of operations",
  "A wrong offset needs multi-byte text at one particular place; the unsafe constructors rely on an argument about all their callers.",
  [POS, "core/src/span.rs"], [("Position::new_unchecked, Span::new_unchecked and all their callers", POS), ("offset updates of match_* and skip", POS)],
  technique="provenance (dataflow) analysis of every offset stored into a position or span, on all paths of all functions that create or modify one",
  note=PNOTE)
P("C11", "Position and span primitives move exactly over the text they match",
  "Matching a string, a character by range or predicate, or skipping n characters advances a position by exactly the matched text on success and leaves it unchanged on failure; "
  "constructing, splitting, narrowing, merging and reading spans and positions returns exactly the offsets and text they denote, rejecting offsets out of range or inside a character.",
  ["inputs"], "every input, offset and argument",
  "All parsing rests on these; the tests use short ASCII samples.",
  [POS, "core/src/span.rs"], [("match_string, match_insensitive, match_range, match_char_by, skip", POS), ("Span::new, split, as_str, merge_spans", "core/src/span.rs")],
  technique=PATHS, note=PNOTE)
P("C12", "Whole-input entry points start fresh and demand the end of input",
  "A whole-input parse or check starts at offset zero with an empty stack and a fresh error tracker, and succeeds exactly when the expression matches, with the trailing trivia its entry point asks for, up to the end of the input; "
  "a partial parse succeeds exactly when a prefix matches and returns where that prefix ends. Every failure is reported as an error built from the furthest failures of that same run.",
  ["inputs", "programs"], "every entry point, input and grammar expression",
  "A dozen entry points repeat the same plumbing; the tests go through two or three of them.",
  [TRAITS], [("try_parse, try_parse_partial, check, check_partial and the typed parser entry points", TRAITS)])
P("C13", "Errors report the furthest failure",
  "An error lies at the furthest position at which any attempt failed, and lists exactly the attempts recorded at that position: what was recorded at earlier positions is dropped, what was recorded at the same position is kept. "
  "Each attempt is attributed to the innermost enclosing rule that started at that position, as expected or, under a negative predicate, as unexpected.",
  ["histories", "inputs"], "every sequence of recording operations, rule nesting and polarity",
  "The tracker is a small state machine whose outcome depends on the order of attempts; tests compare a few messages.",
  [TR], [("Tracker::record_during, record_result, positive/negative_during, collect", TR)],
  technique=PATHS, note=PNOTE)
P("C14", "Failure tracking follows the structure of the grammar",
  "Every expression reports its attempts to the error tracker exactly once, in both parsing and checking: predicates switch the polarity for exactly the extent of their content, "
  "rules open exactly one scope at their own start position, and stack errors are reported where they occur. The tracker never influences which input matches.",
  ["programs", "inputs"], "every kind of node, every outcome of its parts",
  "A missing or doubled report shows only in the wording of an error for a particular failing input.",
  [TPL, TR, CHO, SEQ, REP], [("calls of Tracker in every try_parse_with_partial / check_with_partial", TPL)])
P("C16", "Pair trees list every matched rule in order",
  "The pair tree of a parse contains, for every node, exactly the pairs of its matched children in input order, none dropped, repeated or moved; a rule contributes one pair with its own rule, its span's offsets and its children, while a silent rule contributes nothing, neither a pair of its own nor those inside it. "
  "Converting a pair tree to another rule type keeps its shape.",
  ["inputs", "programs"], "every kind of node, every alternative matched, repetition counts from zero to three",
  "One implementation per arity and node kind; a swapped or skipped child shows only for that arity.",
  [TRAITS, TPL, SEQ, CHO, REP, "core/src/token/mod.rs"], [("for_each_child_pair of every node", TRAITS), ("as_pair_tree, Pair::convert", "core/src/token/mod.rs")],
  technique=PATHS, note=PNOTE)
P("C17", "Accessors return the child they name",
  "The accessor of alternative i of a choice (counting from zero, as the variants do) returns its content exactly when alternative i matched; the tuple view of a sequence lists its elements in grammar order; iterating a repetition visits "
  "every matched element in order; dereferencing a wrapper gives its content.",
  ["programs", "inputs"], "every arity, every alternative, repetition counts from zero to three",
  "More than a thousand macro-generated accessors; the tests call a few.",
  [SEQ, CHO, REP, TPL], [("choice_N, as_tuple, into_tuple, iter, into_iter, deref", CHO)],
  technique=PATHS, note=PNOTE)
P("C18", "Character-class rules denote their classes",
  "Each ASCII class rule accepts exactly the characters of its class, and each Unicode property rule accepts a character exactly when the property of the same name holds for it.",
  ["inputs", "programs"], "all code points for the ASCII classes, every listed property for the Unicode ones",
  "Some 260 rules built by a macro from a list of names; tests sample one or two.",
  ["core/src/typed/template/ascii.rs", "core/src/typed/unicode.rs"], [("ASCII class aliases and Unicode property nodes", "core/src/typed/unicode.rs")],
  technique="evaluation of the type aliases to code-point sets, and comparison of the MIR automaton of each property node with the predicate of its name", note=NOTE)

P("C20", "Equality, order and hash of positions and spans agree",
  "Two positions are equal exactly when they denote the same offset of the same input, and two spans exactly when both of their ends do; equal ones hash alike. "
  "Positions of one input are ordered by their offsets.",
  ["inputs"], "every pair of positions or spans, of one input or of two",
  "Hand-written implementations; a field left out shows only for values that agree on all others.",
  [POS, "core/src/span.rs"], [("PartialEq, Ord, Hash of Position and Span", POS)], technique=PATHS, note=PNOTE)
GENR = "generator/src/typed/generator.rs"
META = "meta/src/parser.rs"
MODL = "generator/src/typed/module.rs"
OUTP = "generator/src/typed/output.rs"
GETT = "generator/src/typed/getter.rs"
TYP = ("query over the type-checked program the derive macro generates for witness grammars: the generated types are compared term by term "
       "with types derived by an independent reader of the grammar")
TYPN = ("Static: the generated program is type-checked and inspected, never run. Bounded by the witness grammars under /verif/witness (about 400 rules that cover each "
        "construct in each position), hence a set of type-level witnesses rather than a proof for every grammar. Trusted: rustc, and the independent reader lib/pestgram.py.")
REJ = "compile-fail witnesses: grammars for which the derive must make compilation fail, one verdict each from the compiler"
REJN = ("Bounded by the listed grammars (witness/reject.txt), each of which isolates one fault in one position. The verdict is rustc's; nothing is run. "
        "That valid grammars are accepted is checked by the other properties.")
P("C15", "Generated rules parse their content once and record their span",
  "A generated rule matches exactly what its content matches, from the same position and with the same stack effects, in both parsing and checking; its span runs from where it started to where its content ended. "
  "A rule that is not silent shows up in pair trees as exactly one pair with its own rule name and that span, around the pairs of its content; a silent one shows up with nothing, neither itself nor the pairs inside it.",
  ["programs", "inputs"], "every rule of the witness grammars, imported ones included, under every enclosing enumeration of rules",
  "One implementation is generated per rule and enclosing grammar; tests run a handful of grammars.",
  [GENR, OUTP], [("create_rule and the rule implementations it emits", GENR)],
  technique=AUT + "; applied to the implementations generated for witness grammars", note=TYPN)
P("C30", "Operators of the grammar language lower to their meaning",
  "The parser generated for a rule has the structure its text denotes: precedence and grouping of `|`, the three kinds of sequencing, predicates, and all postfix repetitions, with their bounds and kind of trivia, "
  "whatever the layout, comments and optional leading bars of the grammar. Nothing is dropped, reordered or regrouped in a way that changes what matches.",
  ["programs"], "every operator in every position of the witness grammars, all arities from 2 to 18",
  "The number of operator combinations is far beyond the grammars in the test suite, and a wrong lowering still compiles.",
  [GENR, META, "meta/src/grammar.pest"], [("process_expr, collect_sequence, collect_choices", GENR), ("parse_node, parse_term, parse_postfix", META)],
  technique=TYP, note=TYPN)
P("C31", "Literals in a grammar denote the text they spell",
  "String, raw string, case-insensitive and character-range literals of a grammar become terminals for exactly the text they spell, with every escape decoded "
  "(quotes, backslash, control escapes, two-digit hexadecimal, Unicode) and everything else, multi-byte text included, taken as is.",
  ["programs"], "every escape in every kind of literal, in every position",
  "Literals with quotes, pounds, and Unicode escapes at the limits are rare in tests.",
  [META, GENR, OUTP], [("unescape, parse_string, parse_raw_string, parse_char_range", META), ("string wrappers", OUTP)],
  technique=TYP, note=TYPN)
P("C32", "Malformed grammars are rejected at compile time",
  "A grammar that is not in the grammar format never yields a parser: syntax errors, unknown or out-of-range escapes, empty or reversed or overflowing repetition bounds, "
  "and imports of missing, malformed or cyclic files all make the compilation fail.",
  ["programs"], "each kind of fault in each position where the format can go wrong",
  "Each fault needs its own grammar, and a fault that is silently accepted yields a parser that matches something else.",
  [META, "meta/src/grammar.pest", GENR], [("parse, parse_bounded_repeat, unescape", META)], technique=REJ, note=REJN)
P("C34", "Parameters are substituted exactly",
  "Calling a rule that has parameters gives the structure of its definition with each parameter replaced, simultaneously and at every occurrence, by the corresponding argument; "
  "a silent rule with parameters is expanded in place likewise, at any depth of nesting.",
  ["programs"], "parameters under every operator and in every argument position, nested and permuted calls",
  "A missed occurrence or captured name shows only for that operator or that spelling of the arguments.",
  [GENR, META, MODL], [("inline_silent_rules_with_args", GENR), ("ParseExpr::replace", META), ("RuleGenerics::call", MODL)],
  technique=TYP, note=TYPN)
P("C35", "References that cannot be resolved are rejected",
  "A reference to a rule, module, built-in, parameter or trivia rule that does not exist, a call with missing, superfluous or unexpected arguments, or a name defined twice makes the compilation fail, "
  "wherever it occurs in the grammar; it is never ignored.",
  ["programs"], "each kind of bad reference in each position of an expression",
  "The same checks have to happen in every position; a reference that is skipped silently changes what matches.",
  [MODL, GENR], [("ModuleSystem::resolve, RuleGenerics::call", MODL)], technique=REJ, note=REJN)
P("C36", "Imported rules are the rules of the imported file",
  "A path through an import refers to the rule of that name in the imported file, at any depth, under its original or its new name, and keeps its meaning there: "
  "its own references and its own trivia rules are resolved in the file that defines it. Several grammar sources of one parser behave as one.",
  ["programs"], "nested, renamed and repeated imports of the witness grammars",
  "Needs several files that define different things under the same names.",
  [META, MODL, GENR], [("_parse, mod_path_to_fs_path", META), ("ModuleSystem", MODL)], technique=TYP, note=TYPN)
P("C37", "Options of the derive do what they say",
  "`no_getter` removes the accessors, `no_pair` the pair interface, `rules_mod` renames the module of rules (of imported grammars too), and `box_rules_only_if_needed` boxes only recursive rules; "
  "each changes nothing else, and without them accessors and pairs are there and every rule is boxed.",
  ["programs"], "every rule of the witness grammars with and without each option",
  "The options are switches in the generator that few tests turn on.",
  ["generator/src/typed/attr.rs", GENR], [("Config and its uses", GENR)], technique=TYP, note=TYPN)
P("C38", "Every valid grammar compiles, whatever its names",
  "A valid grammar yields code that compiles, and in which every name means what the grammar says, even when rules are named like Rust keywords, prelude types or items of the generated code, "
  "when rules are recursive, and when the parser type has generic parameters. (Names that the generated code reserves, like `EOI` or `self`, are not available to rules.)",
  ["programs"], "rules named like keywords, prelude items, runtime types; recursive and imported grammars; all kinds of parser types",
  "The generated code mixes user names with fixed ones; a clash needs that very name.",
  [GENR, OUTP], [("generate_typed and the names it emits", GENR)], technique=TYP, note=TYPN)
P("C39", "Code generation is deterministic",
  "The code generated for a grammar depends on nothing but the grammar, the files it imports and the options: not on the iteration order of hash tables, the clock, randomness, addresses, or other expansions in the same build.",
  ["schedules", "programs"], "every call in the grammar reader, the generator and the derive",
  "The order of a hash table differs between runs, so a test that passes once says nothing.",
  [OUTP, GENR, META], [("Tracker, Output and the tables they iterate over", OUTP)],
  technique="effect query over all calls, loops and statics of the type-checked MIR: order-revealing operations on hash tables, non-deterministic sources, and state that outlives an expansion",
  note="Static, over every function of the three crates. Iteration over a hash table whose result is only stored in another table, sorted, or put in an error message is exempt; "
       "loops over a hash table that append to nothing are undecided. Trusted: rustc's MIR; third-party crates are not followed.")
P("C40", "Built-in names denote the built-in rules",
  "Every built-in of the grammar language (`pest::any`, `soi`, `eoi`, `newline`, the ASCII classes, the stack operations with their arguments and slices, the Unicode properties) denotes the runtime rule of that meaning, "
  "by its full path, through an imported module, or under a new name.",
  ["programs"], "every built-in, each way of naming it",
  "The table of built-ins has dozens of entries; tests use a few.",
  [MODL], [("make_global", MODL)], technique=TYP, note=TYPN)
P("C43", "Accessors by rule name find every occurrence",
  "The accessor a generated rule has for each rule it mentions returns all nodes of that rule in the content and nothing else, in the order of the grammar: optional ones as options, repeated ones as lists, several mentions as tuples, "
  "alternatives as options. References under a negative predicate are exempt.",
  ["programs", "inputs"], "every rule and mention in the witness grammars, every alternative, absent and present options, up to two repetitions",
  "Accessors are assembled from the shape of the expression; tests call a few of them on one input.",
  [GETT, GENR], [("GetterByName and its assembly", GETT)],
  technique="abstract interpretation of the generated accessors on symbolic contents of every shape the grammar allows", note=TYPN)
P("C44", "The enumeration of rules lists exactly the rules",
  "The generated enumeration has one variant for the end of input, one for each rule that is generated, and one per imported grammar that wraps that grammar's enumeration; conversions from an imported grammar's rules keep the rule, "
  "and the derived type offers the parsing entry points for it.",
  ["programs"], "every witness grammar and every grammar it imports",
  "Tests match on a few variants of small grammars.",
  ["generator/src/common.rs", OUTP, GENR], [("generate_rule_enum", "generator/src/common.rs")], technique=TYP, note=TYPN)
P("C45", "Errors in a grammar name tokens by their own text",
  "When an error in a grammar file lists what was expected there, a token that is shown in backquotes is shown as the text that the grammar format defines for it, never as the text of another token.",
  ["inputs"], "every rule of the grammar format",
  "The table repeats the grammar file by hand; no test goes through it.",
  ["meta/src/error.rs", "meta/src/grammar.pest"], [("rename_meta_rule", "meta/src/error.rs")],
  technique="abstract interpretation of the naming function on each rule, compared with the literals in the rule's definition in grammar.pest", note=PNOTE)
P("C47", "Editing a grammar file triggers a rebuild",
  "Every grammar file a parser is derived from, files imported at any depth included, is embedded in the generated code, so that changing one rebuilds the parser.",
  ["programs", "histories"], "every witness parser",
  "Only visible in a second, incremental build.",
  ["generator/src/common.rs", META, GENR], [("generate_include", "generator/src/common.rs"), ("dependencies", META)], technique=TYP, note=TYPN)
P("C49", "Comments become documentation",
  "The documentation comments of a grammar and of each of its rules appear, in order and complete, on the generated enumeration and on the variant of that rule, and nowhere else.",
  ["programs"], "every documented and undocumented item of the witness grammars",
  "Documentation is never read by tests.",
  [META, "generator/src/common.rs"], [("parse_rule_doc, parse_grammar_doc", META)], technique=TYP, note=TYPN)

P("C19", "Parsing depends on nothing but its input",
  "Parsing or checking a text gives the same outcome whenever, wherever and however often it is done: it reads nothing but the grammar, the text, the start and the stack it is given, "
  "keeps nothing for later parses, and has no effect besides its result, that stack and that tracker. In particular parsers may be used from several threads at once.",
  ["histories", "schedules", "inputs"], "every function of the runtime and every function generated for the witness grammars; every earlier or concurrent parse",
  "Hidden state shows only in a certain sequence of parses, usually of texts at one address; tests parse each text once.",
  ["core/src", GENR], [("TypedNode implementations and everything they call", TPL)],
  technique="effect query over all calls and statics of the type-checked MIR of the runtime and of the generated programs: statics with interior mutability, thread-locals, I/O, clocks, addresses",
  note="Static, over every function of the runtime and of the code generated for the witness grammars. Trusted: rustc's MIR; pest 2's Stack and the standard library's pure functions, which are listed by path.")
P("C21", "Parse results copy, compare and hash by their contents",
  "Parse results can be cloned, compared, hashed (generated rules all but hashed) and debug-printed; a copy equals its original in every field, two results are equal exactly if all their fields are, and equal ones hash alike.",
  ["programs", "inputs"], "every node type of the runtime, every type it contains, every generated rule of the witness grammars; every pair of values",
  "A comparison that leaves out a field differs from the right one only for values that agree on all others.",
  [TPL, REP, SEQ, CHO, GENR], [("derive lists of the node types and of generated rules", TPL)],
  technique="query over the implementations of the type-checked program: derived ones are structural, hand-written ones are summarised as guarded paths that must go by the fields", note=PNOTE)

P("C22", "Parse results can be shared between threads and borrow only the text",
  "Parse results, pair trees, positions and spans can be sent to other threads and shared between them, whatever the grammar, and hold on to nothing but the text that was parsed: "
  "they outlive the parser, the stack and the tracker.",
  ["programs", "schedules"], "every node type of the runtime, every type it contains, every rule generated for the witness grammars",
  "A result that is bound to its thread behaves the same in every test that stays on one.",
  [TPL, REP, SEQ, CHO, GENR, POS, "core/src/span.rs", "core/src/token/mod.rs"], [("fields of the node types and of generated rules", TPL)],
  technique="query over the field types of all result types in the type-checked program", note=PNOTE)

NT = "meta/src/parser.rs"
N("C60", "Parsing terminates",
  "Parsing any text with any accepted grammar ends.",
  ["programs", "inputs"], "every grammar and text", "Tests use grammars that terminate.",
  [TPL, REP], [("unbounded repetition; rules that refer to themselves", REP)],
  "Termination is a property of the user's grammar here: the generator accepts left recursion and repetitions of expressions that match nothing, and by design says nothing about either, so no rule over this "
  "repository's source can bound the number of steps. That each loop of the runtime makes one step per matched repetition is part of C05.")
N("C61", "Reading a grammar and parsing a text take time linear in their length",
  "The time to read a grammar or parse a text grows linearly with its length.",
  ["inputs"], "every grammar and text", "Tests use short ones.",
  [NT, TPL], [("the grammar of grammars; backtracking in choices", NT)],
  "Running time is a runtime quantity that depends on how often alternatives are retried; no static bound is in reach. (It is in fact exponential in the nesting of parentheses of a grammar, see DESIGN.md.)")
N("C62", "Line and column numbers are those of the text",
  "The line and column that a position reports, and the line it returns, are those of that offset in the text, whatever mix of line endings it has.",
  ["inputs"], "every text and offset", "Tests use short texts with few line endings.",
  [POS, "core/src/span.rs"], [("line_col, line_of, Lines, LinesSpan", POS)],
  "The result is a count over the whole text, kept by a loop whose state is numeric and unbounded; a sound abstraction loses the count. What is independent of the count (that these functions do not panic on valid "
  "positions as far as slicing goes, and that their results lie on character boundaries) is part of C10.")
N("C63", "Error messages show the right part of the text",
  "A formatted error or span shows the lines it refers to, marks exactly the columns of the span, and never panics.",
  ["inputs"], "every text and span", "Tests compare a few messages.",
  ["core/src/formatter.rs", "core/src/span.rs"], [("FormatOption, Partition2, snippet layout", "core/src/formatter.rs")],
  "The layout depends on display widths and line counts computed at run time from the text (unicode-width tables included); deciding the marked columns statically would need those values.")
N("C64", "Deep nesting does not exhaust the stack",
  "A text that nests deeply is parsed or rejected, without overflowing the call stack.",
  ["inputs"], "every nesting depth", "Tests nest a few levels.",
  [TPL, GENR], [("recursive descent", GENR)],
  "Generated parsers recurse once per level of nesting by design and have no depth limit, so the stack needed is unbounded in the input: there is nothing that a static analysis could show to hold.")
