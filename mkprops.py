#!/usr/bin/env python3
# Source of properties.jsonl (one place to edit; run: python3 mkprops.py)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe,hook_needed=hook)))
T='core/src/typed/template/mod.rs'; R='core/src/typed/template/repetition.rs'; TR='core/src/typed/traits.rs'
CH='core/src/choice.rs'; SQ='core/src/sequence.rs'; TK='core/src/typed/tracker.rs'
p('C01','Abandoned attempts leave no trace on the match stack',
 'When an alternative of a choice, an optional element, an iteration of a repetition or a lookahead is abandoned, at any depth and for any reason (including a sub-parser that fails after it has pushed or popped), parsing goes on with exactly the match-stack contents that existed when that attempt began. A lookahead never changes the stack whether it succeeds or fails. Pushes and pops of attempts that succeed stay in effect until, and only until, an enclosing attempt is abandoned.',
 ['programs','fault_sequences','histories'],'every composition of the public parser combinators, every input, every pattern of sub-parser outcomes (match, clean failure, failure after dirtying the stack, cancellation at any step), every initial stack',
 'The tests run a few fixed stack grammars on inputs that match or fail in one place; they never compose several levels of abandoned attempts with pushes and pops before the failure, nor observe the stack between steps.',
 [CH,T,R,TR,SQ],[dict(name='snapshot / clear_snapshot / restore around each attempt',where=CH),dict(name='restore_on_none',where=T),dict(name='optional node',where=TR)],
 ['stack argument seen by every sub-parser call','stack argument after a successful partial parse or check'],[dict(name='stack',meaning='spans pushed by the grammar, with snapshots',where='pest2::Stack passed by &mut')])
p('C02','Checking and parsing always agree',
 'For any parser and input, the check-only entry points accept exactly when the tree-building entry points do, stop at the same position, leave the same stack and, on failure, report the same error. This holds for the whole-input, the partial and the resumable (caller-supplied position, stack and tracker) variants, and whatever outcomes the sub-parsers produce.',
 ['programs','inputs','fault_sequences'],'all compositions of combinators and built-in parsers, all inputs, start positions and initial stacks, all sub-parser outcome patterns',
 'Every combinator implements parsing and checking twice by hand; the tests call mostly one of the two on a handful of inputs and never compare stack or error report.',
 [TR,CH,SQ,T,R,'core/src/lib.rs'],[dict(name='duplicated try_parse_* / check_* implementations',where=TR)],
 ['TypedNode::try_parse, try_parse_partial, try_parse_with, try_parse_with_partial against check, check_partial, check_with, check_with_partial'])
p('C03','Parsing follows ordered-choice PEG semantics exactly',
 'A choice takes its first matching alternative, a sequence matches its elements in order with the given trivia between consecutive elements only, a repetition is greedy within its bounds with trivia between iterations only and never consumed after the last one, an optional element never fails, and a lookahead consumes nothing; built-in parsers match what their documentation says. The returned tree and end position describe exactly that derivation, a whole-input parse succeeds only if nothing is left over, and a partial parse reports where it stopped.',
 ['programs','inputs','fault_sequences'],'all compositions up to the sizes generated, all inputs, all sub-parser outcome patterns including transient ones',
 'Tests use single combinators on one or two strings; wrong backtracking, bounds or trivia handling only shows for particular nestings and particular failures part way through.',
 [CH,SQ,R,T,TR,'core/src/position.rs'],[dict(name='combinator evaluation',where=T),dict(name='repetition loops',where=R),dict(name='end-of-input requirement',where=TR)],
 ['results of the TypedNode entry points','sub-parser calls (position and order)'])
p('C04','Errors report the furthest failure with the right expectations',
 'When a parse fails, the reported position is the furthest position at which a rule that tried no further rule (or an erroneous stack operation) was attempted. The report lists, grouped by the nearest enclosing rule that started elsewhere, exactly the rules attempted there that were expected but did not match, or matched where they must not, and the stack errors raised there; nothing from abandoned attempts further back appears. A whole-input parse stopped by left-over input expects the end of input.',
 ['programs','inputs','fault_sequences','histories'],'all rule nestings, lookahead polarities, inputs and sub-parser failure patterns',
 'The tests compare a few fixed error messages; which attempts must be dropped, kept or re-attributed depends on the whole history of successes, failures and lookaheads before the error.',
 [TK,TR,T],[dict(name='attempt tracking and reset on progress',where=TK)],['Error returned by try_parse / check','Tracker::finish and Tracker::collect'],
 [dict(name='attempts',meaning='enclosing rule -> expected, unexpected, special',where=TK)])
p('C05','The pair view mirrors the successful derivation only',
 'After a successful parse the pair view contains exactly one pair for every non-silent rule application that is part of the final derivation, with its rule and exact span, and none for abandoned attempts, lookaheads, trivia or anything inside a silent rule. Children lie inside their parent, in input order and without overlap. Asking for the pairs again, or through any container of the same nodes, gives the same answer.',
 ['programs','inputs','fault_sequences'],'all rule nestings inside all combinators, all failure patterns before success',
 'The tests print the pairs of a few fixed parses; pairs left over or lost after partially successful, abandoned attempts are not reached.',
 [TR,CH,SQ,R,T,'core/src/token/mod.rs'],[dict(name='pair containers of every node type',where=TR)],['PairTree::as_pair_tree','PairContainer::for_each_child_pair, for_self_or_for_each_child_pair, vec_children_pairs'])
p('C06','Parses are isolated from each other',
 'A parse gives the same result, error and stack effects whether it runs alone or interleaved step by step with other parses of other grammars and inputs on other threads, nested inside a sub-parser of another parse, or after another parse panicked or was abandoned half way. A panic in one parse never corrupts another.',
 ['schedules','fault_sequences','crash_points'],'all interleavings of the sub-parser steps of several concurrent and nested parses, panic or cancellation of any of them at any step',
 'The tests run each parse alone to completion; shared hidden state would show only under particular interleavings, nesting or a panic half way.',
 [TR,TK,T,R,'core/src/span.rs','core/src/position.rs'],[dict(name='all parse state is in the position, stack and tracker arguments',where=TR)],['results of TypedNode entry points'])
p('C07','Parsing terminates with bounded retries and honours cancellation',
 'If the bodies of unbounded repetitions consume input or eventually fail, every parse ends, and it attempts each alternative at most once per entry, each repetition body at most once after its last success and never more often than its upper bound, and each sequence element only after the previous one succeeded. If from some step on every sub-parser refuses, the parse ends after at most the still untried alternatives of the constructs then active. No combination of combinator, input and sub-parser outcome makes the library itself panic.',
 ['programs','inputs','fault_sequences','crash_points'],'all compositions, all inputs, refusal of all sub-parsers from any step on',
 'Tests only use grammars that end quickly; superfluous retries, reparsing, hangs or panics appear for particular outcomes deep inside nested constructs.',
 [CH,SQ,R,T,TR],[dict(name='early return on first match / first failure',where=CH),dict(name='bounded iteration',where=R)],['number and order of sub-parser calls'])
p('C08','Output sinks: rendering is faithful up to the first refused write',
 'Rendering a position, span, pair, parsed tree, error report or grammar expression to a writer or through user formatting callbacks succeeds exactly when the writer and callbacks accept everything. The complete rendering of a span or position shows the numbered lines it touches (the middle of more than five abridged), control characters made visible and markers under its ends, with every spanned text, marker and number handed to its callback in order. If one refuses, rendering stops at once, reports the failure, never panics, and what was accepted before is a prefix of what a fault-free rendering produces. Repeating the rendering on a healthy writer produces the full, identical text.',
 ['inputs','fault_sequences','crash_points'],'all texts and spans, every write index at which the sink or a callback refuses, every sink capacity (short sinks)',
 'The tests render to strings, which never fail; a swallowed error, a write after a refused one or a panic on the failure path needs a refusing sink.',
 ['core/src/formatter.rs','core/src/span.rs','core/src/position.rs','core/src/token/mod.rs','meta/src/parser.rs'],[dict(name='error propagation through the formatter',where='core/src/formatter.rs')],['return value of the display calls','bytes received by the sink','callback invocations'])
p('C09','Grammar loading never yields a wrong or partial grammar under I/O faults',
 'Loading a grammar whose files can all be read in full gives the same grammar however the storage delivers it: short reads, interrupted system calls and misleading size hints change nothing. If any needed file is missing, unreadable, not text, or syntactically broken, or fails half way through reading, loading fails with an error that is reported to the caller; it never returns a grammar with missing rules and never takes the process down. The work a load takes does not explode with the nesting of expressions. A later load, once the storage is healthy again, gives the full grammar.',
 ['fault_sequences','inputs','crash_points'],'all import graphs generated, all fault kinds at every system call index, any subset of files',
 'The tests load good files from a healthy disk; no test makes a read fail, return short, or corrupts an imported file.',
 ['meta/src/parser.rs','generator/src/config.rs'],[dict(name='recursive import loading',where='meta/src/parser.rs'),dict(name='grammar collection for derive',where='generator/src/config.rs')],['parser::parse result','derive_typed_parser result'])
p('C10','Imports resolve to exactly the files and rules written',
 'Loading a root grammar reads every file reachable through its imports once and only once, however often, by however many routes and under however many spellings of its path it is imported, and each import name denotes exactly the rules stored in that file; all importers see the same version even if a file changes on disk while the load runs. Import cycles end with an error instead of looping. The loaded rules, their order, arguments, documentation and structure are those stored in the files, and the place (file and range) recorded with each rule and node is where its text is.',
 ['programs','inputs','histories','fault_sequences'],'all import graphs (trees, diamonds, chains, parent-directory references, cycles) and grammars generated; file replacement at any read index',
 'The tests load two fixed import layouts; shared, nested, renamed or cyclic imports and concurrent edits of the files are not covered.',
 ['meta/src/parser.rs','meta/src/grammar.pest'],[dict(name='per-load module cache',where='meta/src/parser.rs')],['GrammarModule returned by parser::parse','file system calls made'])
p('C11','Recorded dependencies are exactly the files a grammar was read from',
 'The dependency set of a loaded grammar contains every file whose content influenced it, directly or through any chain of imports, and no other file, whatever order files are met in and however often they are shared. Generated code refers to the root grammar file and to each of those files, so that a later edit to any of them is noticed by the build.',
 ['programs','histories'],'all import graphs and load orders generated',
 'The tests check one small import tree; dependencies lost through a shared or cached import need diamond-shaped graphs in a particular order.',
 ['meta/src/parser.rs','generator/src/typed/output.rs','generator/src/typed/generator.rs','generator/src/common.rs'],[dict(name='dependency collection during import',where='meta/src/parser.rs')],['GrammarModule::dependencies','include statements in generated code'])
p('C12','Code generation is deterministic',
 'Generating a parser from the same grammar files gives the same code, token for token, in every process, on every thread, under every hash seed, and regardless of what was generated before or at the same time.',
 ['schedules','configurations','histories'],'all hash seeds, thread interleavings at I/O points and prior generation histories; all grammars generated',
 'The expected-output tests compare one grammar at a time with whatever hash seed the process happened to get; order dependence shows only for larger grammars under some seeds or histories.',
 ['generator/src/typed/module.rs','generator/src/typed/output.rs','generator/src/typed/generator.rs','meta/src/parser.rs'],[dict(name='ordered maps for emitted items',where='generator/src/typed/output.rs')],['token stream returned by derive_typed_parser'])
p('C13','Generated parsers accept exactly the language of their grammar',
 'A parser generated from a grammar accepts an input, stops at a position, or fails with an error exactly as the grammar text says, including operator precedence, trivia, repetition bounds, literals and escapes, ranges, stack operations, lookaheads, silent rules, rules with arguments, nested modules and imported files. This holds with sub-parsers supplied by the user as rule arguments, whatever outcomes those produce.',
 ['programs','inputs','fault_sequences'],'randomly generated single and multi-file grammars, inputs derived from and around their languages, outcome patterns of user-supplied sub-parsers',
 'The tests compile a handful of grammars and try one or two inputs each.',
 ['meta/src/grammar.pest','meta/src/parser.rs','generator/src/typed/generator.rs','generator/src/typed/module.rs','generator/src/typed/output.rs','derive/src/lib.rs'],[dict(name='translation of expressions to node types',where='generator/src/typed/generator.rs')],['try_parse / check entry points of generated rules'])
p('C14','Generated accessors and pairs return exactly what was matched',
 'For every successful parse with a generated parser, each accessor named after a rule (or argument) used in a rule body returns exactly the matched nodes of that rule in that body, in input order, shaped by the surrounding sequence, choice, optional and repetition constructs. The rule spans, and the pair view with its rule names across modules, agree with that same derivation.',
 ['programs','inputs','fault_sequences'],'randomly generated grammars, inputs and sub-parser outcome patterns',
 'The tests exercise accessors on a few hand-written shapes only.',
 ['generator/src/typed/getter.rs','generator/src/typed/generator.rs','core/src/typed/traits.rs'],[dict(name='accessor path generation',where='generator/src/typed/getter.rs')],['generated accessor methods','PairTree::as_pair_tree of generated rules'])
p('C15','A damaged or meaningless grammar is refused, never half accepted',
 'If stored grammar text was damaged or carelessly edited (torn, lost, stale or flipped writes, lost or swapped files, lines, tokens or rules lost, doubled or changed) so that it does not parse, refers to a rule, module, built-in or trivia that does not exist, defines a rule or trivia twice, gives a rule the name of an import, or calls something with a number or kind of arguments it does not take, then deriving a parser fails with a reason and produces no code. If the text still means something, code is produced that has every rule of every module. Once the text is repaired, deriving gives exactly the code it gave before the damage, in the same process.',
 ['fault_sequences','histories','programs'],'all grammars generated, all kinds and places of damage, one to five damages in a row before the repair',
 'The tests derive good grammars only; no test shows a damaged one being refused.',
 ['generator/src/typed/module.rs','generator/src/typed/generator.rs','generator/src/config.rs','meta/src/parser.rs'],[dict(name='resolution of names and arguments',where='generator/src/typed/module.rs'),dict(name='trivia must be defined',where='generator/src/typed/generator.rs')],['derive_typed_parser: code or refusal'])
p('C90','Position and span arithmetic','Line and column numbers, line extraction, span splitting, merging and slicing agree with the text.',['inputs'],'all texts and offsets','The tests use a few strings.',
 ['core/src/position.rs','core/src/span.rs'],[dict(name='offset arithmetic',where='core/src/position.rs')],['Position and Span methods'])
p('C91','Unicode property tables','Each built-in unicode class matches exactly the characters of the Unicode property it names.',['inputs'],'all characters','The tests do not enumerate characters.',
 ['core/src/typed/unicode.rs','pest/src/bin/unicode.rs'],[dict(name='tables of the pest 2 dependency',where='core/src/typed/unicode.rs')],['unicode node types'])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert x['title'] and len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+'\n')
