SIM = 'deterministic simulation with fault injection: '
NOTE = 'Seeded search over simulated histories, not exhaustive: a clean run is evidence for the seeds explored. Trusts the reference model in /verif/sim, g++ and AddressSanitizer.'
PENDING = 'No check built yet in this revision of the framework (planned; see DESIGN.md).'

prop('C01', 'Forked parser states never affect one another',
 'Copying a parser state at any moment gives an independent parse: whatever the copies then do (parse on, fork again, look at lookahead, be destroyed, in any order and interleaving) each one produces exactly the actions, results and accept/reject outcome it would have produced alone on the same input. No state sees symbols, stack entries or results of another.',
 ['schedules', 'histories', 'inputs'], 'for every grammar, input, fork point and every interleaving of process/parse/look/fork/destroy over the forks of one session',
 'Tests run one state to the end, or copy a state once; they never interleave several forks that share the token buffer and the stack storage.',
 ['TameParse/Lr/parser.h', 'TameParse/Lr/parser.tcc', 'TameParse/Lr/parser_stack.h'], [('per-state stack reference over shared storage', 'TameParse/Lr/parser_stack.h'), ('shared session lookahead with per-state offset', 'TameParse/Lr/parser.tcc look/next')], ['parser actions called (shift/reduce) per state', 'process()/parse() results'], 
 claim=SIM + 'seeded interleavings of forked parser states over shared sessions with failing token reads, every step compared with the same parse run alone', note=NOTE)
prop('C02', 'A parse session reads each token exactly once, in order, when needed',
 'However many states share a session and however their work interleaves, each token is requested from the source exactly once and in order, no token is requested before some state needs it, and nothing is requested after the source reported its end. Every state sees every token, a token is kept until the last state that could still see it has passed it, and it is destroyed exactly once, at the latest when the last state goes.',
 ['schedules', 'histories', 'inputs', 'fault_sequences'], 'for every interleaving of states of a session, every grammar and every input, including inputs that throw while being read',
 'Tests use one state reading a complete in-memory token list; nothing observes when tokens are requested or released.',
 ['TameParse/Lr/parser.h', 'TameParse/Lr/parser.tcc'], [('session state list and trimming of the lookahead buffer', 'TameParse/Lr/parser.tcc'), ('reference counted lexeme containers', 'TameParse/Dfa/lexeme.h')], ['calls of the token source', 'live token objects'], 
 claim=SIM + 'seeded interleavings of slow and fast states, look-ahead and failing reads; token demand and token lifetime compared with the demand of the lone runs', note=NOTE)
prop('C03', 'Parser stack references are persistent snapshots',
 'A parser stack reference keeps showing exactly the entries pushed and not popped through it (and through the reference it was copied from, up to the copy), whatever is done to other references: pushing, popping, copying, assigning, destroying, in any order and to any depth. A push or copy that fails (an item copy that throws, memory exhausted) changes no reference; storage is reclaimed, and when the last reference is destroyed every item is released exactly once.',
 ['histories', 'fault_sequences'], 'for every history of operations over any number of references, and every point at which an item copy or an allocation fails',
 'Tests exercise a handful of fixed push/pop/copy sequences below the initial capacity, without failing copies or allocations and without destroying an original before its copy.',
 ['TameParse/Lr/parser_stack.h'], [('entries linked to the entry below, reference list, garbage collection of unused entries', 'TameParse/Lr/parser_stack.h')], ['entries seen through each reference', 'live items', 'live heap blocks'],
 claim=SIM + 'seeded histories of stack operations with injected copy and allocation failures, checked against an immutable-list model', note=NOTE)
prop('C04', 'Tokens do not depend on how the input is delivered',
 'A lexer built from regular expressions cuts the text into the same lexemes (symbol, content, offset, line and column) for every kind of source (symbol streams, character readers, wide and byte streams, UTF-8) and every way the source is chunked: each lexeme is the longest match, the lowest symbol on a tie, a single symbol when nothing matches. The lexemes concatenate to exactly the text, and nothing is taken from the source beyond what is needed to decide the lexeme returned.',
 ['inputs', 'schedules', 'programs'], 'for every well-formed set of regular expressions over the basic plane, every text, every source type and every chunking of it',
 'Tests lex short fixed strings from a complete string stream with a few fixed expressions.',
 ['TameParse/Dfa/lexer.h', 'TameParse/Dfa/lexer.cpp', 'TameParse/Dfa/dfa_lexer.h', 'TameParse/Dfa/ndfa.cpp', 'TameParse/Dfa/ndfa_regex.cpp', 'TameParse/Dfa/remapped_symbol_map.cpp', 'TameParse/Dfa/symbol_table.h', 'TameParse/Dfa/position.h', 'TameParse/Util/utf8reader.h', 'TameParse/Util/stringreader.h'], [('buffering lexeme stream over the state machine', 'TameParse/Dfa/basic_lexer.h dfa_stream'), ('character source adapters', 'TameParse/Dfa/basic_lexer.h')], ['lexemes read from a lexeme stream', 'symbols taken from the source'],
 claim=SIM + 'seeded delivery schedules (source kind, chunk sizes) over generated lexers and texts, checked against an independent longest-match reference', note=NOTE)
prop('C05', 'A read fault while lexing loses, repeats or invents nothing',
 'If the source throws while a lexeme is being read, the exception reaches the caller, and reading on (when the source recovers) continues as if the fault had not happened: the lexemes are those of the undisturbed text, none lost, repeated, split or moved. If the source ends early, at any symbol, the lexemes are exactly those of the text that arrived.',
 ['fault_sequences', 'inputs'], 'for every text and every sequence of throwing reads and early ends, at every symbol position',
 'No test makes a source fail or end in the middle of a lexeme.',
 ['TameParse/Dfa/basic_lexer.h', 'TameParse/Dfa/dfa_lexer.h', 'TameParse/Dfa/lexer.h'], [('symbols stay buffered until their lexeme is returned', 'TameParse/Dfa/basic_lexer.h dfa_stream')], ['lexemes read before and after the fault', 'exceptions seen by the caller'],
 claim=SIM + 'seeded read errors and early ends at chosen symbols of the source, checked against the reference lexing of the delivered text', note=NOTE)
prop('C06', 'One lexer serves any number of interleaved lexing sessions',
 'A single lexer object can drive any number of lexing sessions at once, interleaved at any read, one started inside a read of another, or abandoned half way: each session produces exactly the lexemes it would produce alone. A finished session releases its source and everything it allocated.',
 ['schedules', 'histories', 'inputs'], 'for every set of texts and every interleaving of their sessions at the granularity of single symbol reads, including nested and abandoned sessions',
 'Every test runs one session at a time to its end.',
 ['TameParse/Dfa/lexer.h', 'TameParse/Dfa/lexer.cpp', 'TameParse/Dfa/basic_lexer.h', 'TameParse/Dfa/dfa_lexer.h'], [('immutable tables shared, all run state in the stream', 'TameParse/Dfa/basic_lexer.h')], ['lexemes of each session', 'live sources and heap blocks'],
 claim=SIM + 'seeded cooperative scheduling of several lexing sessions at read granularity, checked per session against the reference', note=NOTE)

prop('C07', 'A compiled language is the one its definition files describe',
 'For every valid definition, the compiled lexer cuts any text into the symbols the definition gives it (keywords before lexer symbols before ignored ones, weak ones first, lexer symbols expanded, case modes applied), and the compiled parser accepts exactly the texts the grammar allows, with the grammar\'s tree, conflicts being resolved as the precedence blocks and conflict attributes say and reported otherwise. Inheritance, imports, `|=` additions, `replace`, comments, layout and the order of the blocks have exactly their documented meaning. How the files and the texts are delivered makes no difference, and a read of the text that fails and is repeated changes nothing.',
 ['inputs', 'programs', 'schedules', 'fault_sequences'], 'for every valid definition spread over any number of languages and files, every text, every chunking of both and every sequence of failing reads of the text',
 'Tests compile a few fixed definitions held in memory and look at single features; no test combines inheritance, replacement, case modes, weak symbols and precedence or compares whole languages with their meaning.',
 ['TameParse/Language/parser.cpp', 'TameParse/Compiler/import_stage.cpp', 'TameParse/Compiler/language_stage.cpp', 'TameParse/Compiler/lexer_stage.cpp', 'TameParse/Compiler/lr_parser_stage.cpp', 'TameParse/Lr/precedence_rewriter.cpp', 'TameParse/Compiler/conflict_attribute_rewriter.cpp', 'TameParse/Dfa/ndfa_regex.cpp', 'TameParse/Lr/lalr_builder.cpp', 'TameParse/Lr/weak_symbols.cpp'], [('symbols, rules and attributes of a language and the languages it inherits from', 'TameParse/Compiler/language_stage.cpp'), ('lexer built from the symbols of each kind', 'TameParse/Compiler/lexer_stage.cpp'), ('conflicts resolved by rewriting parser actions', 'TameParse/Lr/precedence_rewriter.cpp')], ['errors reported by the stages', 'conflicts reported', 'tokens of texts', 'accept or reject and tree of texts'],
 claim=SIM + 'seeded definition projects delivered in chunks, texts lexed and parsed interleaved under seeded chunking and read failures, compared with a reference reading of the same definition (reference inheritance, NFA lexing, LALR construction with precedence)', note=NOTE)

prop('C08', 'Every test in a definition file gets the right verdict',
 'With --run-tests and with --test the tool exits with zero exactly if every test comes out as the definition says: each text of a positive test is a sentence of the language from the start symbol the test names, each text of a negative test is not, whether the text stands in the definition (with its escapes) or in a file it names; the text on the standard input (UTF-8, with --test or the tracing variant of it) is a sentence of the language, and otherwise the error is reported at the first symbol that cannot stand there. Every test is run, and each test that goes wrong is reported. How the files are delivered makes no difference; a file (or standard input) that cannot be opened or read to its end, or is not UTF-8, never counts as a test that went right.',
 ['inputs', 'programs', 'fault_sequences'], 'for every valid definition, every set of tests and input files over it, every chunking and every sequence of short, interrupted and failing reads',
 'The existing tests never run the test stage: no test definition is executed through the tool, none reads its text from a file, and no read fails.',
 ['TameParse/Compiler/test_stage.cpp', 'TameParse/Language/parser.cpp', 'TameParse/Language/test_block.cpp', 'TameParse/Compiler/lr_parser_stage.cpp', 'parsetool/main.cpp', 'parsetool/boost_console.cpp'], [('each test definition parsed from its start symbol', 'TameParse/Compiler/test_stage.cpp'), ('strings and identifiers of tests read from the definition', 'TameParse/Language/parser.cpp')], ['exit code', 'messages per test', 'files opened'],
 claim=SIM + 'the real tool with --run-tests or --test over a simulated disk with short, interrupted and failing reads and missing files; exit code and messages compared with reference verdicts', note=NOTE)

prop('C09', 'Imports bring in every file exactly once, whatever the import graph',
 'For every arrangement of imports (chains, diamonds, cycles, a file importing itself, one file named in several ways, a missing file) the tool opens each file that can be reached exactly once and no other file, and always finishes. The result is the one the flattened project gives: the same verdict, the same generated files. A file that cannot be found is reported as an error and the tool fails.',
 ['inputs', 'programs', 'schedules'], 'for every import graph over any number of files and directories, every spelling of their names and every way reads are cut up',
 'No test imports a file: the tests compile single definitions held in memory.',
 ['TameParse/Compiler/import_stage.cpp', 'TameParse/Compiler/parser_stage.cpp', 'parsetool/boost_console.cpp'], [('worklist of files still to be imported, set of files already seen', 'TameParse/Compiler/import_stage.cpp'), ('absolute and relative file names', 'parsetool/boost_console.cpp')], ['files opened (system calls)', 'exit code', 'generated files', 'messages'],
 claim=SIM + 'the real tool over a simulated disk with seeded import graphs and delivery schedules; opened files compared with a reference walk, results with the flattened project', note=NOTE)
prop('C10', 'A definition that could not be read completely is never taken for complete',
 'If opening or reading any input file (the definition, an import, a test file) fails, at whatever point of the file, the tool reports an error and exits non-zero: it never takes the part that happened to be read for the whole. Reads that are merely short or interrupted change nothing at all. Running it again once the fault is gone gives exactly the result of an undisturbed run.',
 ['fault_sequences', 'inputs'], 'for every project and every sequence of failing, short or interrupted opens and reads, at every system call the tool makes for its input',
 'Tests never read definitions from files, and no read they make ever fails.',
 ['parsetool/boost_console.cpp', 'TameParse/Compiler/parser_stage.cpp', 'TameParse/Compiler/test_stage.cpp', 'TameParse/Compiler/import_stage.cpp', 'TameParse/Language/parser.cpp'], [('input streams opened and closed through the console', 'parsetool/boost_console.cpp'), ('stream state examined after parsing', 'TameParse/Compiler/parser_stage.cpp')], ['exit code', 'messages', 'files on the disk afterwards'],
 claim=SIM + 'the real tool over a simulated disk with seeded open and read failures, interruptions and short reads, compared with the undisturbed run and with a rerun', note=NOTE)
prop('C11', 'The tool exits with success only if its complete output is on the disk',
 'Exit code zero means that every generated file is on the disk complete and correct; if creating, writing or closing an output file fails, or the disk fills up, at any point, the tool reports it and exits non-zero. Short and interrupted writes change nothing. Whatever the fault, or if the tool dies at any moment, the input files are untouched, no file other than the outputs is created or changed, and simply running the tool again gives the complete output.',
 ['fault_sequences', 'crash_points', 'inputs'], 'for every project, every sequence of failing, short or interrupted writes, every disk size and every system call at which the process may die',
 'No test writes a generated parser to a file, and nothing ever fails or dies while writing.',
 ['parsetool/boost_console.cpp', 'parsetool/main.cpp', 'TameParse/Compiler/output_stage.cpp', 'TameParse/Compiler/OutputStages/cplusplus.cpp'], [('output streams opened through the console and checked when they are closed', 'parsetool/boost_console.cpp'), ('header and source written one after the other', 'TameParse/Compiler/OutputStages/cplusplus.cpp')], ['exit code', 'messages', 'files on the disk afterwards'],
 claim=SIM + 'the real tool over a simulated disk with seeded open, write and close failures, full disks and crashes at chosen system calls, followed by reruns on the surviving disk', note=NOTE)
prop('C12', 'The output depends on the definition files and options, on nothing else',
 'The same definition files and options give the same exit code, messages and generated files (apart from the date line) every time: independent of memory layout and contents, of the time, of locale and environment variables, of how reads are cut up, of what the process compiled before, and of other compilations interleaved with it in the same process.',
 ['histories', 'schedules', 'configurations', 'inputs'], 'for every project, every heap layout, clock and environment, every sequence of compilations in a process and every interleaving of several of them',
 'Each test runs once, in one process, with one heap layout.',
 ['TameParse/Compiler/output_stage.cpp', 'TameParse/Compiler/OutputStages/cplusplus.cpp', 'TameParse/Compiler/language_stage.cpp', 'TameParse/Lr/lalr_builder.cpp', 'TameParse/ContextFree/grammar.cpp', 'TameParse/Dfa/ndfa.cpp', 'TameParse/Language/parser.cpp'], [('ordered containers keyed by item and rule identifiers, never by address', 'TameParse/ContextFree/grammar.h, TameParse/Lr/lr_item_set.h'), ('static tables shared by all compilations', 'TameParse/Language/parser.cpp')], ['exit code', 'messages', 'generated files'],
 claim=SIM + 'the real tool repeated under seeded heap layouts, memory garbage, clocks, compilation histories and system-call interleavings; outputs compared byte for byte', note=NOTE)
prop('C13', 'The generated C++ parser does what the language compiled in memory does',
 'For every definition the tool compiles, the C++ it writes compiles, and its lexer, parser tables and typed syntax tree give, for every text however it is cut up and wherever reading it fails and is retried, exactly the tokens, parser actions, verdict and tree that the same definition gives when it is compiled in memory. Positions and symbol numbers agree too. The copies of a generated parser state parse on independently of each other.',
 ['programs', 'inputs', 'fault_sequences', 'schedules'], 'for every definition the tool compiles, every text and read failure, and every interleaving and copying of generated parsers',
 'The only generated parser the tests ever run is the one for definition files; no test compiles the output for another language or compares its tables, names and tree with the compiler that made it.',
 ['TameParse/Compiler/OutputStages/cplusplus.cpp', 'TameParse/Compiler/output_stage.cpp', 'TameParse/Lr/ast_parser.h', 'TameParse/Lr/parser_tables.cpp', 'TameParse/Dfa/hard_coded_symbol_table.h', 'TameParse/Dfa/state_machine.h', 'TameParse/Util/syntax_ptr.h'], [('tables written as C arrays and used in place', 'TameParse/Compiler/OutputStages/cplusplus.cpp, TameParse/Lr/parser_tables.h'), ('class per symbol, member per item, reduce actions that build them', 'TameParse/Compiler/OutputStages/cplusplus.cpp')], ['compiled generated source', 'token sequence', 'action sequence', 'typed tree and positions'],
 claim=SIM + 'parsers generated by the real tool, compiled and run under seeded chunking, read failures, interleaving and forks, in lock step with the same definition compiled in memory', note=NOTE)
prop('C14', 'A damaged or wrong definition is diagnosed, never a crash or a silent failure',
 'Whatever bytes the definition files contain, the tool finishes and stays memory safe, without an uncaught exception: it exits with zero after writing the requested output and reporting no error, or it exits non-zero with a message about the input, and it never blames itself (an internal or compiler bug). A definition file that is not valid UTF-8 is never taken for the part before the first bad byte. No input file is changed, and a failed run says so even when warnings are suppressed. (Running the tests of a grammar that is cyclic, or has a guard that begins with itself, may be endless: only compiling it may not.)',
 ['inputs', 'fault_sequences', 'programs'], 'for every project and every damage to its files: lost, repeated, swapped and overwritten blocks, lines, tokens, names and expressions, flipped bits, truncation and foreign bytes, under every combination of options',
 'Tests compile a few valid definitions and a few deliberate errors; each error alone, none through the real tool.',
 ['TameParse/Language/parser.cpp', 'TameParse/Language/definition.tp', 'TameParse/Compiler/language_stage.cpp', 'TameParse/Compiler/lexer_stage.cpp', 'TameParse/Compiler/lr_parser_stage.cpp', 'TameParse/Compiler/test_stage.cpp', 'TameParse/Dfa/ndfa_regex.cpp', 'TameParse/Dfa/ndfa.cpp', 'TameParse/ContextFree/grammar.cpp', 'TameParse/Lr/lalr_builder.cpp', 'parsetool/main.cpp'], [('errors counted by the console decide the exit code', 'TameParse/Compiler/console.cpp, parsetool/main.cpp'), ('every stage reports through the console', 'TameParse/Compiler')], ['exit code', 'messages', 'AddressSanitizer', 'CPU time', 'files on the disk afterwards'],
 claim=SIM + 'the real tool over a simulated disk whose files suffered seeded storage damage, under AddressSanitizer and a CPU budget', note=NOTE)

prop('C15', 'What a parse commits is a derivation of exactly the tokens delivered',
 'Whatever the input, and wherever it ends or fails to be read, a parse only ever commits a derivation: every reduction matches a rule of the grammar with the results of the actions before it in order, and the tokens shifted are, in order and once each, the tokens the source delivered (ignored symbols excepted). Conflicts are reported exactly for the grammars that are not LALR(1); for every other grammar the parser accepts exactly the sentences of the grammar and rejects at the first token that no sentence can continue with, where a weak symbol counts as its strong equivalent wherever it cannot be used as itself. A guard is passed only where the tokens ahead match it, and evaluating it consumes nothing and calls no action.',
 ['inputs', 'fault_sequences', 'programs'], 'for every grammar (EBNF items, guards, ignored and weak symbols included), every token stream, every early end and every read failure followed by a retry',
 'Tests parse a few sentences of a few grammars and look at accept or reject; they do not check the actions, and read errors never occur.',
 ['TameParse/Lr/parser_state.h', 'TameParse/Lr/parser.h', 'TameParse/Lr/lalr_builder.cpp', 'TameParse/ContextFree/grammar.cpp', 'TameParse/ContextFree/ebnf_items.cpp', 'TameParse/ContextFree/guard.cpp'], [('shift/reduce loop and guard evaluation over the session look-ahead', 'TameParse/Lr/parser_state.h process, check_guard'), ('FIRST and closure computations', 'TameParse/ContextFree/grammar.cpp')], ['shift and reduce calls', 'accept/reject', 'position of the rejected token'],
 claim=SIM + 'seeded token streams with early ends and failing reads over generated grammars; committed actions checked as a derivation and against an Earley reference', note=NOTE)

prop('C16', 'Shared handles keep objects alive and unchanged, no longer than needed',
 'Whatever is done with handles to shared objects (create, adopt, borrow, clone, copy, assign, also from a handle inside the object that is let go, cast, destroy, in any order), every handle refers to the object last put into it, an owned object is destroyed exactly once, when its last handle goes, and a borrowed one never. A creation or clone that fails for lack of memory changes nothing and leaves nothing behind. Clones of grammar items, rules, lexemes and syntax tree nodes hold what the originals hold, and the comparison operators on objects and on handles are one consistent strict order in which equal means equal contents.',
 ['histories', 'fault_sequences', 'inputs'], 'for every history of operations on any number of handles, every failing clone or allocation, and every item, rule, lexeme and tree node built by them',
 'Tests copy a handle once or twice; none assigns from inside the object being replaced, none makes a clone or an allocation fail, and comparisons are tried on a few simple items.',
 ['TameParse/Util/container.h', 'TameParse/Util/syntax_ptr.h', 'TameParse/ContextFree/item.cpp', 'TameParse/ContextFree/rule.cpp', 'TameParse/ContextFree/guard.cpp', 'TameParse/ContextFree/ebnf_items.cpp', 'TameParse/ContextFree/standard_items.cpp', 'TameParse/Dfa/lexeme.cpp', 'TameParse/Util/astnode.cpp'], [('counted references shared by handles', 'TameParse/Util/container.h'), ('items that own rules that refer back to them', 'TameParse/ContextFree/ebnf_items.cpp')], ['object each handle refers to', 'constructions and destructions', 'results of comparisons', 'contents of items and rules'],
 claim=SIM + 'seeded histories of handle operations with failing clones and allocations on a poisoning heap, against a model of counted cells and term trees', note=NOTE)

prop('C17', 'Running out of memory loses nothing that is still in use',
 'If memory runs out while a lexer is compiled, a lexeme read, a parse step made, a state copied or lookahead inspected, the caller gets the exception and everything else goes on as if it had not happened: compiling and reading can be tried again and give the same lexemes, none lost, repeated or changed; looking and copying can be tried again; every other state of the session performs exactly the parse it would have performed alone, missing no token; and sessions and tokens are still released when the last state goes.',
 ['fault_sequences', 'schedules', 'histories', 'inputs'], 'for every lexer, grammar and input, every interleaving of states and every allocation that fails',
 'No test makes an allocation fail.',
 ['TameParse/Dfa/basic_lexer.h', 'TameParse/Dfa/lexer.cpp', 'TameParse/Lr/parser.h', 'TameParse/Lr/parser_state.h', 'TameParse/Lr/parser_stack.h', 'TameParse/Util/container.h'], [('symbols buffered while a lexeme is read', 'TameParse/Dfa/basic_lexer.h'), ('lookahead shared by the states of a session', 'TameParse/Lr/parser_state.h'), ('stack storage shared by states', 'TameParse/Lr/parser_stack.h')], ['exceptions', 'lexemes after a retry', 'actions of the other states', 'tokens requested and released'],
 claim=SIM + 'lexing and interleaved forked parsing sessions in which chosen allocations fail; lexemes compared with a reference lexer, surviving states compared with the same parse run alone', note=NOTE)

prop('C18', 'Symbol sets and symbol maps follow the algebra of sets',
 'Unions, exclusions, complements, merges and comparisons of symbol sets, and the deduplication of overlapping sets into disjoint ones, contain exactly the symbols set algebra says, for every combination of ranges.',
 ['inputs'], 'for every pair of symbol sets',
 'Tests try a few dozen combinations of ranges.',
 ['TameParse/Dfa/symbol_set.cpp', 'TameParse/Dfa/symbol_map.cpp', 'TameParse/Dfa/range.h', 'TameParse/Dfa/remapped_symbol_map.cpp'], [('sorted list of ranges', 'TameParse/Dfa/symbol_set.cpp')], ['contents of the sets'],
 na='Pure functions of their arguments: there is no schedule, fault, time or delivery the result could depend on, so simulation adds nothing to input generation. What users see of it (which texts a lexer matches) is decided by C04 and C07 through the whole lexer compiler.')

prop('C19', 'Messages show grammar items, states and conflicts as they are',
 'The text that error messages and --show-parser print for items, rules, states and conflicts names exactly the symbols, rules and positions of the grammar they describe.',
 ['inputs'], 'for every grammar',
 'A few fixed strings are compared.',
 ['TameParse/Language/formatter.cpp', 'TameParse/Compiler/lr_parser_stage.cpp'], [('formatter', 'TameParse/Language/formatter.cpp')], ['message text'],
 na='Pure rendering of a finished data structure: no schedule, fault, time or delivery can influence it, and there is no specification of the wording beyond the code. That messages are the same in every environment is part of C12, that a failure has one part of C14.')
