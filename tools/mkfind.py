#!/usr/bin/env python3
"""Writes known_findings.json (run by hand after a fix commit or a new recorded finding)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K1 = 'a test whose start symbol is not defined in its language makes --run-tests run a parser without tables (null pointer) after the error was reported'
F = [
 dict(property='C14', status='known', plan='corpus/C14/known-test-of-undefined-symbol.plan', **{'class': 'memory:SEGV'}, texts=['test_stage::compile()', 'address points to the zero page'], what=K1),
 dict(property='C12', status='known', plan='corpus/C12/known-test-of-undefined-symbol.plan', **{'class': 'memory:SEGV'}, texts=['test_stage::compile()', 'address points to the zero page'], what=K1),
 dict(property='C14', status='known', plan='corpus/C14/known-long-test-name.plan', **{'class': 'tool-threw'}, texts=['basic_string::_M_create'], what='--run-tests throws (and reports a compiler failure) when "<language>.<test>.<n>" is longer than 54 characters'),
 dict(property='C13', status='known', plan='corpus/C13/known-forks-share-lists.plan', **{'class': 'forks-share-lists'}, texts=['the forks added their elements to the same list'], what='copies of a generated parser state that is inside a closure append to the same list node: both trees contain the elements of both'),
 dict(property='C07', status='known', plan='corpus/C07/known-weak-symbol-of-two-strong.plan', **{'class': 'split-weak-rejected'}, texts=['a weak symbol that matches the texts of several strong symbols is not accepted'], what='a weak symbol that also matches the texts of two or more strong symbols is split into several symbols, and the grammar has no actions for the new ones: texts that use the weak symbol as itself are rejected (a TODO in weak_symbols.cpp; generated parsers would need to know the new symbols as well)'),
 dict(property='C14', status='known', plan='corpus/C14/known-test-file-not-utf8.plan', **{'class': 'test-text-ignored'}, texts=['the test that reads t.txt passes'], what='a test that reads a file which is not valid UTF-8 is judged on the part before the first bad byte (test_stage.cpp, which counts as a test file)'),
]
FIXED = '''C03 fbecda9 references to a parser stack were linked in one direction only: destroying the original first left a copy using freed entries
C04 8e65429 utf8reader decoded every multi-byte sequence wrongly
C04 cfba125 stringreader stopped being good before its last character was taken, which was lost
C04 f4a56dd newline symbols were missing from offsets
C04 07a06a5 characters above 127 from byte streams were sign extended
C04 4c21ad5 overlapping symbol ranges were widened when split: characters outside the expression matched
C04 db61b16 a repeated expression leaked into the alternatives and expressions next to it
C04 ed55b72 an exclusive upper bound on a page boundary cleared the following page of the symbol table
C04 402e353 the second half of surrogate pairs was matched against the high range
C04 b1c0126 the compacted lexer merged accepting states with states that do not accept
C01 e80d768 use after free of the look-ahead while a nested guard is evaluated
C15 6c5bc91 FIRST sets of rules that begin with possibly empty or mutually recursive items were incomplete
C15 e8b8eba weak symbols whose only actions in a state were reductions lost the shift of their strong equivalent: sentences were rejected
C13 5758c8d the last level of a hard coded symbol table was looked up with the whole symbol
C13 ee32990 generated lexers had no table entry for states without transitions
C13 FIXMEM generated classes declared members of one name with the type of another item, or twice: the source did not compile
C13 FIXPOS the empty closures of generated ASTs had no usable position
C13 FIXCTR rules that only differ in their guards got constructors with the same parameters: the source did not compile
C10 2147f86 a read error in a definition file was taken for its end
C11 6566d6f output files that could not be written were not reported
C10 FIXREAD a read error in a test file was taken for its end and the test run on the part that was read
C09 91259aa a file named in two ways was imported twice
C14 8e994d0 a file name that cannot be represented escaped as an exception
C14 b798490 a symbol defined by its use was reported as a compiler bug when never matched
C14 e4765b8 a symbol used only in a guard was removed as unused and reported as a bug
C14 1671398 accept/reduce conflicts went unreported
C14 90ab038 a reversed character range made the tool loop for ever
C14 FIXINH languages that inherit from each other recursed until the stack overflowed
C14 FIXLEX lexer symbols defined in terms of each other recursed until the stack overflowed
C14 FIXGRD a guard that starts with itself recursed until the stack overflowed
C07 73158f3 a string or regular expression that ends in an escaped backslash ran on to the next quote: the definition was rejected or read as another
C07 45ace4b a comment that ends in **/ ran on to the end of the next comment: what stands between them was ignored
C16 1066b6d use after free when a handle is assigned from a handle inside the object it lets go
C16 caf00ec >= and <= of handles compared the handle with itself
C16 51eabb1 a clone leaked if its reference could not be allocated
C16 becc01f the rules added to EBNF alternatives leaked
C16 a3a45cd two AST nodes could each be less than the other
C17 7b025e1 a symbol was lost if the buffer of the lexer could not grow
C17 fd12bed a lexer whose compilation ran out of memory was unusable ever after
C17 2039203 a token was lost to every state of a session if it could not be stored
C15 cc0d5c9 the rule of AST nodes for tokens was uninitialised memory
C07 3b6c99a the halves of a surrogate pair in a regular expression were taken for two characters
C14 65dbc6c a definition file was taken for the part before the first byte that is not UTF-8
C07 5908935 case insensitive ranges of characters matched characters that are not in them in either case
C08 593061e with --test, standard input was taken to end at the first byte outside ASCII, and read errors for its end
C08 95a6705 -T test-trace crashed if the input ended too early
C12 f3927fb the tool aborted (Uncaught exception) if LANG or LC_ALL named a locale that isn't installed
C04 ccb68c7 {unicode-letter} and its like only knew the first and last of the CJK, Hangul and private use characters'''.split('\n')
import subprocess
log = {l.split(' ', 1)[1]: l.split(' ', 1)[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], stdout=subprocess.PIPE).stdout.decode().splitlines()}
for tag, sub in (('FIXPOS', 'fix: give empty closures in generated ASTs the position of the symbol after them'), ('FIXMEM', 'fix: give members of generated AST classes names that are unique for their type'), ('FIXCTR', 'fix: tell constructors of generated AST classes apart when rules only differ in their guards'), ('FIXREAD', 'fix: report read errors in every file the tool reads'), ('FIXINH', 'fix: report languages that inherit from themselves instead of recursing forever'), ('FIXLEX', 'fix: report lexer symbols that are defined in terms of themselves'), ('FIXGRD', 'fix: finish computing the initial symbols of a guard that starts with itself')):
    FIXED = [f.replace(tag, log[sub][:7]) for f in FIXED]
have = {f.split(' ')[1] for f in FIXED}; miss = [h for s, h in log.items() if s.startswith('fix:') and h[:7] not in have and 'Revert "%s"' % s not in log]
if miss: print('fix commits without an entry:', miss)
json.dump({'findings': F, 'fixed': ['fixed: property=' + f for f in FIXED]}, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
