#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, assumptions=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": m, "where": ", ".join(files[:4])} for m in mech]}})

GEN = ["lalr1_lib/src/grammar.rs", "lalr1_lib/src/state.rs", "lalr1_lib/src/production.rs",
       "alalr1_lib/src/grammar.rs", "alalr1_lib/src/state.rs", "alalr1_lib/src/production.rs"]
DRV = ["lalr1/src/lib.rs", "alalr1/src/lib.rs"]
LEX = ["lexan/src/analyzer.rs", "lexan/src/lexicon.rs", "lexan/src/matcher.rs", "lexan/src/lib.rs"]
SYM = ["lalr1_lib/src/symbol.rs", "lalr1_lib/src/symbol/non_terminal.rs", "lalr1_lib/src/symbol/terminal.rs",
       "lalr1_lib/src/symbol/tag.rs", "alalr1_lib/src/symbol.rs", "alalr1_lib/src/symbol/non_terminal.rs",
       "alalr1_lib/src/symbol/terminal.rs", "alalr1_lib/src/symbol/tag.rs"]
FE = ["lalr1_lib/src/parser.laps", "lalr1_lib/src/parser.rs", "alalr1_lib/src/parser.alaps", "alalr1_lib/src/parser.rs"]
ONLYCALC = "The existing tests run one hand-copied calculator parser over a handful of expressions and never call a generator; "

p("C01", "Generated parsers accept exactly the language of their grammar",
  "For every specification that a generator accepts without any conflict and without error productions, the generated parser parses a text without reporting an error exactly when the text's token sequence (including the empty one) is derivable from the first declared non-terminal. This holds for both generators, whatever the grammar's shape (empty productions, left, right and mutual recursion, unused symbols).",
  ["programs", "inputs"], "All conflict-free specifications; all texts over their tokens.",
  ONLYCALC + "language exactness is a statement over all grammars and all token sequences.",
  GEN + SYM + DRV, ["LR(0) state construction, FIRST sets, look-ahead propagation and state merging", "emitted action and goto tables", "shift/reduce driver loop"])
p("C02", "Semantic actions replay a rightmost derivation with the right attributes",
  "During a parse that reports no error, the semantic actions executed are exactly those of the rightmost derivation of the input in reverse, each once and in order, with $n denoting the attribute produced by the n-th right-hand-side symbol (token attributes carry the token's kind, lexeme and location). $$ starts as a copy of $1, or as the attribute default if the right-hand side is empty, and whatever $$ holds after the action is what the enclosing production sees; productions without an action just yield that initial value.",
  ["programs", "inputs"], "All accepted specifications with and without actions; all texts that parse without error.",
  ONLYCALC + "the calculator only observes arithmetic results of a dozen expressions.",
  GEN[:3] + GEN[3:] + DRV, ["emitted semantic action code ($$, $n expansion)", "attribute stack push/pop in the driver"])
p("C03", "Tables are the LALR(1) tables: no phantom or missed conflicts",
  "The states, shifts, gotos and reductions in a generated parser are exactly those of the LALR(1) automaton of the grammar (the canonical LR(1) collection with equal cores merged), up to renumbering, for every grammar whose used symbols all derive some text. Consequently a grammar that is LALR(1) is always accepted with zero conflicts, and one that is not is never accepted as conflict-free.",
  ["programs"], "All grammars, including ones whose states are merged repeatedly, in any order of declaration.",
  "No test constructs an automaton; look-ahead errors only show on grammars where two contexts share a core.",
  GEN + SYM, ["closure, goto and equivalent-state merging with reprocessing", "FIRST/transparency computation"])
p("C04", "Precedence and associativity decide shift/reduce conflicts as declared",
  "A shift/reduce conflict is resolved by comparing the look-ahead token's declared precedence with the production's (given by its %prec tag or token, otherwise by its first right-hand-side token): later-declared levels bind tighter and the tighter side wins, and at equal precedence a left-associative production is reduced while otherwise the token is shifted. Such resolutions by differing precedence or left associativity are never counted as conflicts and affect no other token or state.",
  ["programs", "inputs"], "All grammars with any assignment of precedence levels, associativities and %prec tags; all operator texts.",
  ONLYCALC + "the calculator has one fixed operator table compiled in long ago.",
  GEN + SYM, ["shift/reduce conflict resolution per state", "precedence numbering of %left/%right/%nonassoc lines, %prec tags"])
p("C05", "Unresolved conflicts are counted and enforced against the declared numbers",
  "A specification is accepted only if the number of shift/reduce and reduce/reduce conflicts left to the default rule equals the number it declares with %shift_reduce and %reduce_reduce (zero if not declared), separately for each kind, unless the corresponding ignore option is given; otherwise generation fails with a message giving the actual and expected numbers and no parser is produced. The ignore options never change the parser that is generated.",
  ["programs", "configurations"], "All grammars with conflicts, all declared counts, all four combinations of ignore options.",
  "No test runs a generator on a conflicting grammar.",
  GEN + ["lalr1_gen/src/main.rs", "alalr1_gen/src/main.rs"] + FE, ["conflict counters and comparison with declared expectations", "command line ignore flags"])
p("C06", "Reduce/reduce conflicts: first declared wins, predicates choose in order",
  "When several productions could be reduced on the same token, the generated parser reduces the one declared first, except that a production ending in the error symbol gives way. In the augmented dialect, productions guarded by predicates are tried in declaration order and the first whose predicate is true (evaluated on the attributes of its own right-hand side and the look-ahead) is reduced, an unguarded one being the fallback and a syntax error arising if nothing applies; a conflict decided by predicates is not counted.",
  ["programs", "inputs"], "All grammars with two or more productions competing for a token; all predicate outcomes.",
  "No test has a reduce/reduce conflict, and the only predicate in the repository guards a warning.",
  GEN + FE, ["reduce/reduce resolution", "emitted predicate chains and $n/$? expansion in predicates"])
p("C07", "Errors are reported once, at the offending token, with the exact expected set",
  "Whenever the parser meets a token for which its current state has no action, or text the lexer cannot accept, exactly one report is made, naming that very token (kind, lexeme, location) or lexical error and exactly the tokens for which the current state does have an action (whatever predicates would say); input discarded while recovering is not reported. The parse result is success if and only if nothing was reported, and otherwise it is the last error reported.",
  ["programs", "inputs"], "All grammars (with and without error productions); all token sequences with any number of errors at any position.",
  ONLYCALC + "the tests make no assertion about expected sets and only one about an error result.",
  DRV + GEN, ["error branch of the driver loop", "emitted expected-token table"])
p("C08", "Error recovery resumes at the nearest enclosing viable state",
  "After an error, the parser takes the offending token or, discarding as few as possible, the first one after it (the end marker included) at which some state on its stack is viable, i.e. has a production that is complete once the error symbol is accepted there and that may be followed by that token; it unwinds to the topmost viable state and continues there with the error as the error symbol's attribute. As long as nothing has been shifted or discarded since the previous recovery only states enclosing that recovery are eligible, otherwise every state down to and including the bottom one is, so a later error can be recovered at the same place again. If no state is viable at any remaining token, the parse ends with that error.",
  ["programs", "inputs"], "All grammars with error productions at any nesting depth; all inputs with one or several errors.",
  ONLYCALC + "it has one error production and two erroneous inputs.",
  DRV + GEN, ["search for a viable recovery state and stack unwinding", "emitted recovery and error-goto tables"])
p("C09", "Parsing always terminates without panicking",
  "For every generated parser of an accepted conflict-free grammar and every text, valid or not, parsing ends after finitely many steps with a result; it never panics, never loops, and never leaves the stack inconsistent, however many errors the text contains.",
  ["programs", "inputs"], "All accepted grammars including ones with error productions; all texts including empty, blank and garbage ones.",
  "Termination under error recovery depends on combinations of grammar shape and error position that a sample of inputs does not reach.",
  DRV + GEN, ["driver loop and recovery progress", "emitted tables are total where the driver consults them"])
p("C10", "Injected text is read next, nested last-in first-out, then reading resumes",
  "Text injected into a token stream (directly or from a semantic action) is tokenised under its own label and delivered completely before the interrupted text resumes with the token that was current at the moment of injection, to any nesting depth and at any point including the very end of input. Injecting text with no tokens in it (blank or only skipped text) never changes what is delivered.",
  ["histories", "inputs"], "All interleavings of reading and injecting, to any depth, including blank injections and injection while at the last or end token.",
  "Tests inject twice at fixed points of one text.",
  LEX[:1] + DRV + FE, ["stack of token streams", "injection closure handed to semantic actions", "%inject in the specification language"])
p("C11", "Tokens are the longest match; literals win ties, tied patterns are errors",
  "At each position (after skipping) the token is the longest match among all literals and patterns; a literal is preferred over patterns matching the same length, and two or more patterns tied at a length greater than any literal's give an ambiguity error naming exactly those patterns, spanning that text. A pattern matches only text starting at the current position, whatever operators it contains, and the order in which tokens were declared never matters.",
  ["inputs", "configurations"], "All lexicons (any overlap among literals, patterns and skips); all texts.",
  "Tests use one lexicon and one text.",
  LEX, ["literal trie", "anchored pattern matching", "tie-breaking in the token step"])
p("C12", "Tokens, skipped text and unexpected text tile the input exactly",
  "Reading a text to the end yields lexemes which, together with the skipped stretches between them, reproduce the text exactly, with nothing lost, repeated or reordered. Unacceptable text is reported as an error carrying exactly the stretch from there up to the next position at which some token or skip could match, and reading then resumes there.",
  ["inputs", "configurations"], "All lexicons; all texts, including ones full of unexpected characters.",
  "Tests check a few lexemes in one text.",
  LEX, ["index bookkeeping", "search for the next acceptable position"])
p("C13", "Locations give the true line and offset of every token and error",
  "Each token, lexical error and end-of-input marker carries the label of its own source text, the 1-based line number (lines end at newline, also when preceded by carriage return) and the 1-based byte offset within that line of its first character, no matter how lines are split among skipped text, tokens and errors; the end marker is located at the end of the text exhausted last. The location prints as label:line:offset, quoting a label containing blanks and omitting an empty one.",
  ["inputs", "histories"], "All texts with any mixture of line endings in tokens, skips and unexpected text; across injections.",
  "One test increments over one newline; mixed line endings inside a token are never tried.",
  LEX[:1], ["line/offset update when advancing", "location formatting"])
p("C14", "The lexer is total: it always advances and never panics on any UTF-8 text",
  "For any lexicon that is accepted and any UTF-8 text, including multi-byte characters nobody expected and patterns that can match the empty string, reading tokens reaches the end of input after at most as many results as there are characters, without panicking; no token or error is ever empty.",
  ["inputs", "configurations"], "All accepted lexicons; all UTF-8 texts.",
  "All test texts are ASCII and no test pattern can match nothing.",
  LEX, ["handling of zero-length matches", "byte/character boundary handling in the resynchronisation scan"])
p("C15", "A lexicon is accepted exactly when it is unambiguous and well formed",
  "Building a lexical analyser succeeds if and only if all token handles, including the end marker, are distinct, all patterns among literals, regular expressions and skips are distinct and non-empty, and every regular expression is valid by itself; otherwise it fails at construction naming the kind of a fault that is present.",
  ["configurations"], "All combinations of literals, patterns, skips and end marker.",
  "Tests try eight fixed lexicons derived from one.",
  LEX, ["lexicon validation"])
p("C16", "Token stream protocol: idempotent peek, one end marker, independent streams",
  "Looking at the current token any number of times returns the same thing; each advance moves by exactly one item, the combined read-and-advance operations being equivalent to their parts. After the last token exactly one end marker is delivered and from then on an 'advanced when empty' error at the end's location (a text without tokens starts out in that condition, which parsers treat as the end marker), and any number of streams made from one analyser proceed independently.",
  ["histories", "schedules"], "All sequences of stream operations on any number of streams from one analyser.",
  "The tests make one fixed sequence of calls on one stream.",
  LEX[:1], ["front/advance/front_advance/advance_front/is_empty", "shared lexicon"])
p("C17", "Generation is deterministic and independent of history",
  "Generating a parser from a given specification text yields the same output byte for byte on every run, in whatever process, and no matter how many other specifications were processed, successfully or not, earlier or concurrently in the same process. The parser so generated is always a working one.",
  ["histories", "schedules", "programs"], "All sequences (and concurrent schedules) of generations within one process, and all repetitions across processes.",
  "No test generates even once; history dependence needs two or more generations in one process.",
  ["lalr1_lib/src/production.rs", "alalr1_lib/src/production.rs", "lalr1_lib/src/grammar.rs", "alalr1_lib/src/grammar.rs", "lalr1_lib/src/lib.rs", "alalr1_lib/src/lib.rs"],
  ["production numbering", "ordered collections used for emission", "library entry points"])
p("C18", "Faulty specifications are diagnosed at the right place, never crash or generate",
  "A specification with a fault (syntax error, duplicate token name or definition, duplicate skip rule or one equal to a token's pattern, empty literal or pattern, duplicate tag, doubly set precedence, unknown literal, malformed regular expression, symbol never defined, non-terminal named like a token) is refused with a diagnostic at the fault's own location, which names what is at fault and, where it contradicts an earlier definition, that definition's place, and yields no parser; it never crashes the generator. A specification without such faults is never refused for one, and every independent semantic fault is diagnosed, not just the first.",
  ["programs"], "All specification texts, with any combination of faults in any order.",
  "No test feeds the generators a specification at all.",
  FE + SYM + GEN[:1] + GEN[3:4], ["front-end semantic actions and symbol table", "error counting gate before table construction"])
p("C19", "Presentation does not matter: layout, includes, aliases and dialect",
  "Rearranging white space and comments, moving whole declarations or rules into a file pulled in by %inject (wherever the language lets one stand), naming a literal token by its text or its name, and swapping the order of the configuration directives never changes the generated parser's behaviour. The plain and augmented generators produce behaviourally identical parsers for a specification without predicates.",
  ["programs", "configurations"], "All specifications and all such rearrangements of them.",
  "No test compares two presentations of a specification.",
  FE + GEN, ["skip rules and injection in the specification language", "literal/name symbol resolution", "the two copies of the generator"])
p("C20", "The generators' own parsers are what they would generate from their grammars",
  "Each generator accepts the specification of its own specification language that ships with it, and the parser it generates from it behaves identically to the one it is built with, so the language accepted is the one documented by that grammar.",
  ["programs", "inputs"], "All inputs to the front end; both generators.",
  "Nothing compares the checked-in parsers with their grammars.",
  FE, ["checked-in front-end parser tables and actions versus the shipped grammar files"])
p("C21", "Command line: no clobbering, faithful exit status, output only on success",
  "An existing output or report file is never overwritten unless forced, nor the parser by its own report; the output path defaults to the specification's, and the report's to the output's, with the usual extension in place of the last one. The exit status is zero exactly when parser and report were written, and otherwise tells whether arguments and files (1), reading and parsing (2), the specification (4) or writing (6, 7) failed, naming the conflicts found and expected where they differ; a run that fails never does so silently, and names a file that is in the way or cannot be written. A run that is refused or finds the specification faulty leaves existing output and report untouched and creates none; options are independent of each other and of their order.",
  ["configurations", "histories"], "All option combinations, pre-existing file states and successive runs, with good and faulty specifications.",
  "No test executes the programs.",
  ["lalr1_gen/src/main.rs", "alalr1_gen/src/main.rs", "lalr1_lib/src/grammar.rs", "alalr1_lib/src/grammar.rs"],
  ["option handling, overwrite check, exit codes, write order"])
p("C22", "Generated code compiles and its token names and lexemes are faithful",
  "Every accepted specification (whose names are usable Rust identifiers not reserved for generated code, i.e. not beginning with AA or aa nor equal to lexan, lalr1, alalr1 or OrderedSet) yields code that compiles when placed in a crate providing the declared attribute and target types, whatever characters its literals and patterns contain. The generated lexer recognises exactly the declared literals (in which \\\" stands for a quote) and patterns and skips the declared skips, and tokens print as their declared literal text, quotes included, or else their name.",
  ["programs"], "All accepted specifications; literals with quotes, backslashes, braces, hashes, percent signs or non-ASCII text.",
  "The only generated code compiled in the tests is one example whose literals are harmless.",
  ["lalr1_lib/src/grammar.rs", "alalr1_lib/src/grammar.rs", "lalr1_lib/src/state.rs", "alalr1_lib/src/state.rs"] + FE,
  ["emission of enums, display code, lexicon tables", "literal escapes"])
p("C23", "The automaton report describes the generated parser",
  "The report written next to a generated parser lists exactly that parser's states, each with its items and their look-aheads, its shifts, gotos and reductions, its error recovery state, and the conflicts no precedence settled, and further the grammar's productions with their precedences, and each symbol with its FIRST set, so that simulating the report by hand predicts the parser's behaviour.",
  ["programs"], "All accepted specifications.",
  "No test reads a report.",
  GEN + SYM, ["description text of symbols, productions and states"])

p("C24", "Warnings name exactly what is unused or likely to clash",
  "For a specification without faults the generator warns, by name, once and at the place of definition, of every token used in no production, every tag no %prec refers to, every non-terminal but the first that no production uses, and every token or tag whose name begins with aa or AA, and of nothing else; warnings never cause a refusal.",
  ["programs"], "All sound specifications with any of their symbols unused.",
  "No test looks at diagnostics.",
  FE + SYM + GEN[:1] + GEN[3:4], ["usage tracking of tokens, tags and non-terminals", "name checks"])
p("C25", "The library's entry points generate what the programs do",
  "Making a parser generator from the path or the text of a specification succeeds exactly when the program without options would generate a parser from it (conflicts other than those declared are always refused), with an error of the corresponding kind otherwise; writing the parser then yields the same code as the program, overwrites what was there and touches nothing else.",
  ["configurations", "histories"], "All specifications, through both entry points of both libraries, interleaved with runs of the programs.",
  "No test uses the library entry points.",
  ["lalr1_lib/src/lib.rs", "alalr1_lib/src/lib.rs", "lalr1_lib/src/grammar.rs", "alalr1_lib/src/grammar.rs"],
  ["ParserGenerator::new, TryFrom<&str>, write_parser_code_to_file"])
p("C26", "A refusal for conflicts shows exactly the conflicting states",
  "When a specification is refused because its shift/reduce or reduce/reduce conflicts are not those declared, what is shown along with the refusal (by the programs, and in the library's error) describes exactly the states that have unsettled conflicts of that kind: each with its items and their look-aheads, what the parser would do there, and every such conflict with its tokens and the productions concerned.",
  ["programs"], "All specifications refused for conflicts, through both libraries and programs.",
  "No test provokes a conflict and looks at what is shown.",
  GEN, ["describe_sr_conflict_states, describe_rr_conflict_states, state descriptions, recording of unsettled conflicts"])
p("C27", "What tokens and lexical errors say of themselves is what they are",
  "Printed, a token shows its kind, its text and its place; unexpected text shows the text and its place; an ambiguity shows every kind that matched, the text and the place; reading past the end shows the place. Kinds, text and place appear unaltered and complete, whatever they consist of, in a wording that depends only on the sort of item.",
  ["programs", "inputs"], "All lexicons, texts, labels and kinds.",
  "Tests look at the fields of a few items, never at what they print.",
  LEX[:1], ["Display of Token, List and Location, messages of Error"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
