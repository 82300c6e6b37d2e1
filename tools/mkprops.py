#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays valid)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

NFA="lapex-lexer/src/nfa/mod.rs"; ALPH="lapex-lexer/src/alphabet.rs"; AUT="lapex-automaton/src/lib.rs"
LEX="lapex-lexer/src/lib.rs"; RLEX="lapex-rust-codegen/src/lexer/mod.rs"; CLEX="lapex-cpp-codegen/src/lexer/mod.rs"
CLEXT="lapex-cpp-codegen/src/lexer/lexer.cpp.tpl"; IN="lapex-input/src/lib.rs"; GEN="lapex-input-gen/src/lib.rs"
GRM="lapex-input-gen/src/lapex.lapex"; BOOT="lapex-input-bootstrap/src/lib.rs"; GB="lapex-parser/src/grammar_builder.rs"
UTIL="lapex-parser/src/util.rs"; LL="lapex-parser/src/ll_parser/mod.rs"; LR="lapex-parser/src/lr_parser/mod.rs"
ITEM="lapex-parser/src/lr_parser/item.rs"; RLR="lapex-rust-codegen/src/lr_parser/mod.rs"; RGLR="lapex-rust-codegen/src/glr_parser/mod.rs"
RLIB="lapex-rust-codegen/src/lib.rs"; CLL="lapex-cpp-codegen/src/ll_parser/mod.rs"; CLLT="lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl"
CLR="lapex-cpp-codegen/src/lr_parser/mod.rs"; CLRA="lapex-cpp-codegen/src/lr_parser/action_goto.rs"; CLRT="lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl"
LIB="lapex/src/lib.rs"; ERR="lapex/src/errors.rs"; CLI="lapex-cli/src/main.rs"; CG="lapex-codegen/src/lib.rs"; TPL="lapex-codegen/src/templating.rs"

NOTESTS = "The 7 stable tests parse single escaped characters and print four repetition NFAs without asserting anything about them; "

p("C01", "Token patterns match exactly the texts their regular expressions denote",
  "A token rule with a /regex/ pattern matches a non-empty text (free of U+0000) if and only if the regular expression denotes that text in full: concatenation, alternation, groups, character classes and ranges, negated classes, '.', Unicode, escapes, and the repetitions ?, *, +, {n}, {n,} and {n,m}. A token rule with a \"literal\" matches exactly the characters written between its quotes. This holds whatever other token rules stand in the same grammar.",
  ["programs","inputs"], "every set of token rules, every text over Unicode without U+0000",
  NOTESTS+"no test ever runs an automaton, and the space of pattern shapes (nested and bounded repetitions, shared character ranges between rules) times texts is infinite.",
  [NFA,ALPH,AUT,GEN], [("Thompson-style construction per pattern shape",NFA),("partition of the code points into alphabet ranges",ALPH),("powerset construction",AUT),("regex syntax tree to pattern conversion",GEN)],
  ["the deterministic automaton built for the token rules", "the token stream of the generated lexer"])

p("C02", "The Rust lexer returns the longest viable prefix and the preferred token",
  "On any input without U+0000, each call of a generated Rust lexer consumes the longest prefix of the remaining input that some token text starts with; if that prefix is a token text the call returns the token rule of highest precedence among those that match it, and otherwise it returns an error. At the end of the input it returns end-of-file.",
  ["programs","inputs","histories"], "every token rule set without precedence ties, every UTF-8 text without U+0000, every sequence of next() calls including calls after errors",
  NOTESTS+"no generated lexer is run by a test except on the bundled grammar file during the build.",
  [RLEX,AUT,LEX,ALPH], [("state/alphabet match emitted by the lexer code generator",RLEX),("powerset construction",AUT),("selection of the accepting rule",LEX)],
  ["return values of Lexer::next, Lexer::slice in the compiled generated lexer"])

p("C03", "Lexer spans tile the input without loss, overlap or split characters",
  "In a generated Rust lexer the span after each call starts where the previous one ended, spans lie on character boundaries and slice() is exactly the input text of the span; so the slices of all calls concatenate to exactly the input consumed. Once end-of-file is returned the span is empty at the end of the input and every further call returns end-of-file again.",
  ["inputs","histories"], "every UTF-8 text without U+0000 (multi-byte characters included), every call history, with and without lexical errors in it",
  NOTESTS+"span bookkeeping over multi-byte text and after errors is never observed.",
  [RLEX], [("start/position bookkeeping in the emitted lexer",RLEX)], ["Lexer::span, Lexer::slice"],
  [("start, position","byte offsets of the current token","emitted lexer")])

p("C04", "Ambiguous token precedence is refused, never resolved silently",
  "Generating a lexer fails if some text is matched by two or more token rules that share the highest precedence among the rules matching that text, the error names such tied rules, and no lexer is then written; otherwise generation does not fail for precedence reasons. Precedence is the number written in brackets if present, else twice the length for a literal and the length of the shortest matching text for a pattern, so an unannotated literal always wins over an unannotated pattern.",
  ["programs"], "every set of token rules with and without explicit precedences",
  NOTESTS+"precedence resolution has no test; ties may hide in one automaton state among hundreds.",
  [LEX,IN,ERR,LIB], [("resolution per accepting automaton state",LEX),("default precedence computation",IN),("error reporting",ERR)],
  ["result of generation", "rendered error text", "accepting rule per automaton state"])

p("C05", "The C++ lexer agrees with the token rules and rejects malformed UTF-8",
  "A generated C++ lexer returns, call by call, the same tokens, errors and end-of-file as the token rules prescribe (and as the Rust lexer returns), with start() and end() of a returned token giving its bounds counted in code points. A malformed UTF-8 sequence makes it return the error token at that point and on every later call, never a token that spans the malformed bytes.",
  ["programs","inputs"], "every token rule set without ties, every byte string without NUL bytes (valid or malformed UTF-8)",
  "No test compiles or runs any generated C++.",
  [CLEX,CLEXT], [("emitted alphabet and state switches",CLEX),("branchless UTF-8 decoder",CLEXT)], ["Lexer::next/start/end in the compiled C++ lexer"])

p("C06", "Reading a grammar file yields exactly the rules written in it",
  "For a well-formed grammar text (free of U+0000), the rules delivered to the generator are exactly those written: every token, production and entry declaration with its name, explicit precedence or tag, and pattern structure (alternation binding weaker than concatenation, both weaker than ?, * and +). Spaces, tabs, line breaks and the order of unrelated declarations change nothing; texts that are not well-formed are not silently read as some other grammar.",
  ["inputs"], "every grammar text in the input language, every layout of it, and mutilated texts",
  "No test parses a grammar text with the production front end; only the bundled file is read, by the bootstrap front end, during the build.",
  [GEN,GRM,IN], [("visitor that builds rules from the parse",GEN),("the grammar of grammars",GRM)], ["the rule set returned by the front end"])

p("C07", "Source positions and diagnostics quote exactly the offending rule",
  "The source span of every rule read from a grammar file (line and column counted in characters, from 1) covers exactly that rule's text from its keyword to its semicolon, in files with any line structure and any non-ASCII text. Error messages for precedence ties and grammar conflicts quote exactly the text and the starting line and column of rules that take part in the reported problem.",
  ["inputs"], "every grammar text of fewer than 65536 lines and columns, with multi-byte characters, rules sharing a line, rules spanning several lines",
  "Spans are never checked by a test, and wrong ones show only in error messages for particular layouts.",
  [GEN,IN,ERR], [("line/column counting in the token source",GEN),("span to substring conversion",IN),("diagnostic rendering",ERR)], ["spans of rules", "rendered errors"],
  [("line, col","position counters of the front end",GEN)])

p("C08", "The bootstrap and the self-generated front end read grammars alike",
  "On every grammar text that both front ends support, the bootstrap front end and the front end generated by the system itself deliver the same tokens, productions and entry up to the order of declarations, and lead to lexers and parsers for the same language.",
  ["inputs"], "every grammar text in the common subset of both input dialects",
  "The two are never compared; the bootstrap one is used only at build time on one file.",
  [BOOT,GEN,GRM], [("nom parser",BOOT),("generated LR(1) parser",GEN)], ["rule sets of both front ends"])

p("C09", "Rewriting productions to plain rules preserves the language",
  "The plain context-free rules the generator derives from productions with groups, alternatives, ?, *, + and the empty pattern generate exactly the token sequences that the written productions describe, for the entry and for every other named production. A grammar that uses an undeclared name, declares a token twice, or gives a token and a production the same name is refused.",
  ["programs","inputs"], "every rule set, every token sequence",
  "No test builds a grammar from a rule set.",
  [GB,"lapex-parser/src/grammar.rs"], [("pattern transformation with fresh non-terminals",GB),("symbol resolution and duplicate detection",GB)], ["rules of the derived grammar"])

p("C10", "LL(1) generation succeeds exactly for LL(1) grammars",
  "Generating an LL(1) parser succeeds if and only if no production choice of the grammar needs more than one token of lookahead, that is, the alternatives of each non-terminal of the derived plain rules (X* becoming R = nothing | X R, X+ becoming R = X | X R, X? becoming R = X | nothing) have disjoint predictive token sets. For a grammar that is not LL(1) no parser is written.",
  ["programs"], "every reduced grammar",
  "The LL test module is empty.",
  [LL,UTIL], [("FIRST sets",UTIL),("FOLLOW sets and table insertion with conflict check",LL)], ["result of table generation", "table entries"])

p("C11", "LR conflicts are reported exactly when the grammar is outside the class",
  "Generating an LR(0), LALR(1) or LR(1) parser fails with a conflict report if and only if the grammar is not in that class; so no ambiguous grammar is ever accepted, every LR(0) grammar is accepted as LALR, and every LALR grammar as LR(1). A conflict report always names at least one genuine shift/reduce or reduce/reduce conflict, and no parser is written with it.",
  ["programs"], "every reduced grammar",
  "No test generates an LR table.",
  [LR,ITEM,UTIL], [("item set closure and lookahead computation",LR),("LALR merging of states",LR),("conflict search",LR)], ["result of table generation"])

p("C12", "Generated Rust LR parsers accept exactly the grammar's language",
  "A generated Rust LR(0), LALR or LR(1) parser returns success on a token sequence terminated by end-of-file if and only if the whole sequence is a sentence of the grammar. It never accepts a proper prefix, never panics and always terminates.",
  ["programs","inputs"], "every grammar of the class, every finite token sequence followed by end-of-file",
  "Generated parsers are never run by a test on anything; acceptance is a property of all sentences and all non-sentences.",
  [LR,ITEM,UTIL,RLR], [("action/goto table construction",LR),("emitted action and goto functions and parse loop",RLR)], ["return value of Parser::parse in the compiled parser"])

p("C13", "Rust LR visitor callbacks spell out a correct derivation, each token once",
  "During a successful parse by a generated Rust LR parser the visitor receives one shift per input token, in input order and with that token's own data, and reduce callbacks such that replaying them bottom-up rebuilds a parse tree of the grammar for exactly that input, ending in the entry production. Each reduce callback is the one belonging to the production reduced (numbered or tagged), and the parser takes each token from its source exactly once and takes none after end-of-file or after a rejected token.",
  ["programs","inputs","histories"], "every grammar of the class, every input",
  "No test implements a visitor on a generated parser; wrong arity, order or callback choice needs specific productions to show.",
  [RLR,LR], [("reduction arity and visitor dispatch",RLR),("lookahead queue",RLR)], ["Visitor::shift, Visitor::reduce_*", "token function calls"])

p("C14", "Syntax errors are reported at the first token that cannot continue",
  "When the input is not a sentence, a generated Rust LR or GLR parser has shifted exactly the longest prefix that some sentence starts with and reports the token right after it as the unexpected one (for GLR the recorded tokens of that prefix may be withheld from the visitor). For LR(1) the reported expected list is exactly the set of tokens that may follow that prefix; for every algorithm it never contains the rejected token.",
  ["programs","inputs"], "every reduced grammar of the class, every non-sentence",
  "No test looks at an error value.",
  [RLR,RGLR,LR], [("error arms of the emitted action function",RLR),("error combination across stacks",RGLR)], ["ParserError values", "shift callbacks before the error"])

p("C15", "Generated Rust GLR parsers accept exactly the grammar's language",
  "A generated Rust GLR parser returns success on a token sequence terminated by end-of-file if and only if the sequence is a sentence of the grammar, for every context-free grammar, with conflicts or ambiguous included, that has no cyclic or hidden left-recursive derivation. It neither panics nor returns an error on a sentence, however many parse trees it has.",
  ["programs","inputs"], "every grammar without cycles and hidden left recursion, every finite token sequence",
  "GLR parsers are never run by a test.",
  [RGLR,LR], [("stack forking, reduction and unwinding in the emitted graph-structured stack",RGLR),("LALR table with conflicts kept",LR)], ["return value of Parser::parse"])

p("C16", "A GLR parse replays exactly one correct derivation to the visitor",
  "During a successful parse by a generated Rust GLR parser the visitor receives exactly one shift per token, in order and with that token's own data, and reduce callbacks that rebuild one correct parse tree of the whole input; nothing from abandoned alternatives is ever delivered, duplicated, lost or reordered. While a parse is undecided callbacks may be held back, but everything delivered before a later syntax error is still consistent with the input read so far.",
  ["programs","inputs","histories"], "every grammar without cycles and hidden left recursion, every input, every point where alternatives fork and die",
  "GLR parsers are never run by a test.",
  [RGLR], [("per-stack callback records, forked and flushed",RGLR)], ["Visitor callbacks"],
  [("recorded","callbacks held back per stack","emitted parser")])

p("C17", "Generated C++ LL(1) parsers accept exactly the language and report its tree",
  "A generated C++ LL(1) parser returns normally on a token sequence terminated by end-of-file if and only if the sequence is a sentence of the grammar, and throws a std::runtime_error otherwise, without having passed on any token beyond the longest viable prefix. Its enter, token and exit callbacks are properly nested and describe, for the named productions, a parse tree of the input, with every token delivered once, in order and with its own data.",
  ["programs","inputs"], "every LL(1) grammar, every finite token sequence",
  "No generated C++ is compiled or run by a test.",
  [CLL,CLLT,LL,UTIL], [("emitted production switch",CLL),("predictive parse loop",CLLT)], ["Visitor callbacks and exceptions of the compiled C++ parser"])

p("C18", "Generated C++ LR parsers accept exactly the language, with the Rust callbacks",
  "A generated C++ LR(0), LALR or LR(1) parser returns normally on a token sequence terminated by end-of-file if and only if the sequence is a sentence of the grammar and throws a std::runtime_error otherwise, naming the first token that cannot continue. Its visitor receives the same sequence of shifts and reductions as the visitor of the Rust parser generated from the same grammar.",
  ["programs","inputs"], "every grammar of the class, every finite token sequence",
  "No generated C++ is compiled or run by a test.",
  [CLR,CLRA,CLRT,LR], [("emitted action, goto and reduction switches",CLRA),("parse loop",CLRT)], ["Visitor callbacks and exceptions of the compiled C++ parser"])

p("C19", "Generation is deterministic",
  "Generating twice from the same grammar text with the same options yields byte-identical output files, in the same or in different processes and whatever the target directory, environment and memory layout.",
  ["programs","schedules","configurations"], "every grammar, algorithm and language; every process run (hash seeds and address layout vary)",
  "Hash-order or address-order dependence shows only across processes, which no test compares.",
  [LR,ITEM,RLR,RGLR,CLR,CG], [("ordered maps and sets; ordering of items by rule",ITEM)], ["output files"])

p("C20", "Everything the generator accepts, it turns into code that compiles",
  "When generation reports success, the emitted Rust modules and C++ sources compile on their own with the usual main program around them, for any legal token and production names (underscores, digits and keywords of the target language included) that stay distinct under the documented name mangling. The emitted type, token and callback names follow that mangling, so a hand-written visitor keeps compiling when the grammar is regenerated.",
  ["programs"], "every accepted grammar, with names distinct under the mangling of the language (Rust: words joined in camel case; C++: upper case) and not of the generator's own anonN form nor the C++ lexer's own ERR and EOF",
  "No test compiles generated code except for the one bundled grammar.",
  [RLIB,RLEX,RLR,RGLR,CLEX,CLL,CLR], [("name conversion",RLIB)], ["compiler verdict on emitted files"])

p("C21", "A failed write is never reported as success",
  "If any output file could not be created or written completely (full disk, size limit, missing directory or permission), the generator does not report success. When it does report success every output file is complete, that is, identical to the one an undisturbed run writes.",
  ["fault_sequences","crash_points"], "every output file, every byte offset at which writing can start to fail",
  "No test injects an I/O fault.",
  [CG,LIB,CLI], [("per-file buffered writer",LIB),("writer handling",CG)], ["exit status and output files under injected faults"])

p("C22", "The command line does what its options say and reports failure in its status",
  "The generate command exits with status zero if and only if it wrote a complete set of files for the requested language and algorithm; on any refusal it exits non-zero, prints a diagnostic to standard error and writes no parser. --no-lexer omits only the lexer files and leaves the others unchanged, --table adds only the table file, and nothing outside the target directory is created or modified.",
  ["configurations","inputs"], "every combination of algorithm, language, --no-lexer, --table, valid and invalid grammar files",
  "No test runs the command.",
  [CLI,LIB], [("argument handling and error printing",CLI),("generation pipeline",LIB)], ["exit status, standard error, directory contents"])

p("C23", "The printed table is the parser's table",
  "The file written with --table lists every rule of the grammar with its number and, for each state and symbol, the action of the generated parser: shift targets, reduced rules, accept, errors, and 'c' where several actions remain. Driving a parser from the printed table gives the same verdict and the same reductions as the generated parser on every input.",
  ["programs","inputs"], "every grammar and LR-family algorithm, every token sequence",
  "No test prints a table.",
  [LR], [("table rendering",LR)], ["text of the table file"])

p("C24", "Parsers carry nothing over from one parse to the next",
  "A generated parser object can be used for several parses: each call reads one end-of-file terminated token sequence from its source and gives the same verdict and callbacks as a fresh parser, whatever happened in earlier calls, including failed ones. Several parser and lexer objects used side by side do not influence one another.",
  ["histories","schedules"], "every sequence of parses on one object, sentences and non-sentences mixed; concurrent use of separate objects",
  "No test parses more than once.",
  [RLR,RGLR,CLRT,CLLT], [("parse-local stack and lookahead",RLR)], ["verdict and callbacks per parse"])

p("C25", "Token source errors are passed on unchanged",
  "When the token source of a generated Rust GLR parser returns an error, parse returns exactly that error as its lexer error without taking further tokens, and the visitor has received nothing that contradicts the tokens delivered before. A C++ parser that is handed the lexer's error token throws and does not deliver it to the visitor.",
  ["fault_sequences","inputs"], "every grammar, every input, an error at every token position",
  "No test injects a token source error.",
  [RGLR,CLRA,CLL], [("error conversion around the token function",RGLR)], ["ParserError::LexerError, token function call count"])

p("C26", "Templates are filled in exactly",
  "Instantiating a code template writes the template text unchanged except that every placeholder is replaced, in place and in order, by exactly what its registered writer emits. A failing writer makes the instantiation fail, and a placeholder without a writer never yields output silently. A text handed over under a file name reaches the writer registered for that name, else a default one, complete and flushed, and any failure on the way is reported.",
  ["inputs","fault_sequences"], "every template text and set of substitutions, a write fault at every byte offset",
  "No test touches the template code.",
  [TPL,CG], [("streaming replacement",TPL)], ["bytes written"])

p("C27", "No undefined behaviour in the generator or in the code it emits",
  "Running the generator on any grammar, and running the emitted lexers and parsers on any input, exhibits no undefined behaviour: no invalid, dangling or misaligned access in the generator's unsafe code, and no out-of-bounds access, use-after-free, leak of parser memory, integer or enum misuse in the emitted C++, even on arbitrary bytes and on failing parses.",
  ["programs","inputs"], "every grammar; every byte string and every token sequence including error tokens",
  "Ordinary test runs do not detect undefined behaviour.",
  [RLR,RGLR,CLR,LR,CLEXT,CLRT,CLLT], [("raw rule pointers",CLR),("fixed decode buffer",CLEXT)], ["sanitizer and interpreter reports"])

p("C28", "The debug command's verdict matches the grammar",
  "The debug command prints that the source file was successfully parsed if and only if the token sequence of the file is a sentence of the grammar, lists on success the shifts and reductions of a correct derivation of it, and leaves neither its scratch directory nor any other file behind.",
  ["programs","inputs"], "every grammar usable with the default algorithm, every source text",
  "No test runs the command.",
  [CLI,RGLR], [("scratch project and its driver program",CLI),("debug visitor",RGLR)], ["standard output and error of the command", "temporary directory contents"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
