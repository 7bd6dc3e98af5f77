ENG_T = 'explicit-state model checking of a reference model of the rule engine, every explored trace replayed on the real engine'
ENG_N = ('Exhaustive within the stated menus and sizes: every (grammar, input, options) combination is executed on an explicit-state reference model, '
         'and each model trace is replayed on the real parser + engine and compared. Trusts the reference model (written from the manual and the pinned code, '
         'bound to the code by this replay and by agreement on the repository\'s own test corpus); orders the code leaves unspecified are compared as multisets or skipped and counted.')
EX_T = 'exhaustive bounded enumeration of executions of the real code'
def eng(id, title, statement, quant, why, files, mech, over=('programs', 'inputs')):
    return dict(id=id, title=title, statement=statement, over=list(over), quant=quant, why=why, files=files, mech=mech, technique=ENG_T, level='model_checking', note=ENG_N)
R = 'src/GrammarApplicator_runRules.cpp'; M = 'src/GrammarApplicator_matchSet.cpp'; X = 'src/GrammarApplicator_runContextualTest.cpp'; TP = 'src/TextualParser.cpp'
P = []
P.append(eng('C01', 'Set expressions match exactly the readings their algebra denotes',
  'A rule or test applies to exactly the readings that its tag list or set expression denotes: a list matches when one of its entries has all its tags on the reading, and union, concatenation, difference and fail-fast combine those matches as documented. Naming a set, nesting it in others, merging equal sets or writing it inline never changes what it matches.',
  'all set expressions up to three operands over the menu of lists/composites and operators, all small cohorts, as rule target, as context and through named sets',
  'The tests fix a few dozen set expressions; the set optimiser rewrites, merges and hashes sets, so any combination of operands may be the one that is merged wrongly.',
  ['src/Grammar.cpp', 'src/Set.cpp', 'src/TagTrie.hpp', M, TP],
  [('set merging and content-hash sharing', 'src/Grammar.cpp addSet/appendToSet'), ('trie matching of tag lists', M + ' doesSetMatchReading*'), ('tag trie', 'src/TagTrie.hpp')]))
P.append(eng('C02', 'Contextual tests hold exactly where their positions and options say',
  'A contextual test holds exactly when the cohorts designated by its position (offset, scan, absolute, barriers, careful C, NOT/NEGATE/NONE/ALL, LINK chains, templates, sub-readings, look-into-deleted, spanning options) satisfy its set. Scans stop at the first match or barrier, never leave the window unless the test says so, and an absent position never counts as a match.',
  'all single tests over the position/option grammar, all two-step LINK chains, barriers, templates and OR combinations over the menu, on all small windows',
  'Position modifiers multiply; the tests pin a few dozen of several thousand combinations and each combination takes its own path through the scanner.',
  [X, M, 'src/ContextualTest.cpp', TP],
  [('context scanning', X + ' runSingleTest/runContextualTest'), ('careful and NOT semantics', M + ' doesSetMatchCohortCareful'), ('templates and OR', X + ' runContextualTest_tmpl')]))
P.append(eng('C03', 'SELECT, REMOVE and IFF keep the right readings and never the last one out',
  'SELECT keeps exactly the matching readings, REMOVE discards exactly them, IFF does one or the other depending on its context, each only when target and context hold for that cohort; RESTORE brings back what was set aside. No cohort ever loses its last reading unless the rule is marked unsafe, and what happens in one cohort does not depend on an earlier one except through the tests the grammar writes.',
  'all one- and two-rule grammars over the menu of removal rules, flags, targets and contexts, all windows of up to three small cohorts, with and without trace',
  'Tests sample single rules on hand-written sentences; the interplay of flags, order of cohorts and earlier removals is a product space.',
  [R, TP, 'src/Cohort.hpp'],
  [('reading removal', R + ' runRulesOnSingleWindow removeReading/select handling'), ('target/context caching', R + ' runSingleRule')]))
P.append(eng('C04', 'Tag-editing rules change exactly the tags they name',
  'ADD, MAP, APPEND, REPLACE, SUBSTITUTE, COPY, UNMAP and their BEFORE/AFTER/EXCEPT forms change exactly the readings they select and exactly the tags they name, in the order written; mapping prefixes, immutability of mapped readings, removal of duplicate readings and NOMAPPED/ITERATE behave as documented. Everything the rule does not name is preserved.',
  'all one- and two-rule grammars over the menu of tag-editing rules, tag lists, targets and anchors, all cohorts of up to two small readings, with and without trace',
  'Interactions (editing a mapped reading, editing into a duplicate, editing the anchor itself) form a product space of which tests sample little.',
  [R, 'src/GrammarApplicator.cpp', 'src/Reading.cpp'],
  [('tag list edits', R + ' SUBSTITUTE/COPY/REPLACE handling'), ('reading hashes', 'src/GrammarApplicator_reflow.cpp reflowReading/addTagToReading/delTagFromReading'), ('mapping split', 'src/GrammarApplicator_reflow.cpp splitMappings')]))
P.append(eng('C05', 'Cohort-level rules keep the window a consistent sequence',
  'ADDCOHORT, REMCOHORT, COPYCOHORT, SPLITCOHORT, MERGECOHORTS, MOVE, SWITCH and DELIMIT produce exactly the documented sequence of cohorts, lose or duplicate none, and every later rule sees each resulting cohort exactly once at its new position, whichever cohort was being visited. Dependencies and relations follow the cohorts they belong to.',
  'all one- and two-rule (thorough: three-rule) grammars over the menu of cohort operations, on all small windows',
  'Structural edits happen while the engine iterates over the same structures; bugs need a particular edit at a particular position followed by another rule.',
  [R, 'src/SingleWindow.cpp', 'src/Cohort.cpp', 'src/interval_vector.hpp'],
  [('cohort edits during iteration', R + ' runRulesOnSingleWindow/reset_cohorts'), ('window numbering', 'src/GrammarApplicator_runRules.cpp reindex'), ('rule-to-cohort index', R + ' updateRuleToCohorts')]))
P.append(eng('C06', 'Dependency rules and dependency tests agree on one tree',
  'After any sequence of SETPARENT, SETCHILD, REMPARENT and SWITCHPARENT each cohort has the one parent the last successful rule gave it, no rule closes a loop unless allowed, and a refused attachment changes nothing. The p, c, s, descendant, ancestor and leftmost/rightmost tests see exactly that tree, from both ends, immediately, and it is what is printed.',
  'every parent assignment on up to four cohorts x every dependency position and option; every attach rule form x targets x contexts; all pairs (thorough: triples) of attach, detach and structural rules',
  'The tree is stored twice (parent number, child set) and updated from many rules; agreement after every history is an invariant over histories.',
  ['src/GrammarApplicator_reflow.cpp', R, X, 'src/CohortIterator.cpp'],
  [('attach and loop detection', 'src/GrammarApplicator_reflow.cpp attachParentChild/wouldParentChildLoop'), ('dependency tests', X + ' runDependencyTest, src/CohortIterator.cpp')]))
P.append(eng('C07', 'Named relations are created, removed and followed exactly as the rules say',
  'ADDRELATION(S), SETRELATION(S) and REMRELATION(S), with REVERSE and NEAREST and their sub-reading and context options, add, replace or remove exactly the named relations between exactly the cohorts selected; relations read from the input are kept, those to unknown numbers survive unharmed; r: tests with any name, regex, * and position modifier (left, right, leftmost, rightmost, self, ALL/NONE/NOT, LINK) see exactly the relations present at that moment; and what is printed (R: and ID: tags) is exactly the resulting relation graph.',
  'all relation graphs of up to two arcs over three cohorts x every r: position and modifier; every relation rule form x names x targets x contexts; all pairs of relation rules, relation tests and structural rules',
  'Relations are a mutable labelled graph stored as ids inside cohorts; agreement of tests and output with it must hold after every history of edits.',
  [R, X, TP, 'src/Cohort.cpp', 'src/CohortIterator.cpp'],
  [('relation edits', 'src/Cohort.cpp addRelation/setRelation/remRelation, ' + R), ('relation tests', X + ' runRelationTest'), ('relation input/output', 'src/GrammarApplicator.cpp pipe/print, src/GrammarApplicator_reflow.cpp')]))
P.append(eng('C08', 'Sections, iteration, jumps and options run the documented rules in order',
  'Rules run in the documented order: before-sections once, each section repeated together with all earlier ones until nothing changes, after-sections once, null-sections never unless jumped to. ITERATE, NOITERATE, REPEAT, JUMP, anchors and named sections act as documented, rules that failed are tried again as soon as anything they depend on has changed, and command line options (sections, rules, name patterns, max runs, disabled rule kinds) select exactly the rules they name.',
  'all programs of up to four (thorough: five) items over section headers, anchors and mutually enabling rules with iteration flags and jumps; every selection option over a fixed program and over all small programs; every target form x every kind of change that can make a failed target match',
  'The order of rule application is a fixpoint computation with caches of failed rules; a wrong order or a missed retry needs a particular program shape to show.',
  ['src/GrammarApplicator_runRules.cpp', 'src/GrammarApplicator.cpp', 'src/Grammar.cpp', TP],
  [('section scheduling', R + ' runGrammarOnSingleWindow/runRulesOnSingleWindow'), ('retry caches', R + ' updateValidRules, index_ruleCohort_no'), ('rule selection', 'src/GrammarApplicator.cpp setOptions/index'), ('anchors', TP + ' JUMP/ANCHOR handling')]))
P.append(eng('C09', 'Every kind of tag matches exactly the tags its notation denotes',
  'Literal, case-insensitive, regular-expression, line, META and numeric tags match exactly the readings their notation denotes, alone, in composites, in differences and as context, also after earlier rules changed the reading. Numeric comparisons follow the operator table of the manual, MIN and MAX and arithmetic refer to the cohort as it is now, and escapes denote the characters they stand for.',
  'every tag pattern of the menu x every small cohort over a tag menu, in thirteen grammar shapes; all pairs of patterns; all pairs of numeric operators x values; MIN/MAX/arithmetic under all pairs of removing or editing rules over three readings',
  'Matching of special tags goes through several caches keyed by hashes and through a table of operator pairs; the tests sample single tags on fixed input.',
  [M, 'src/Tag.cpp', 'src/parser_helpers.hpp', 'src/MathParser.hpp', 'src/Cohort.cpp'],
  [('tag matching', M + ' doesTagMatchReading/doesTagMatchRegexp/doesTagMatchIcase'), ('numeric tags', 'src/Tag.cpp parseNumeric, src/MathParser.hpp'), ('extremes', 'src/Cohort.cpp updateMinMax')]))
P.append(eng('C10', 'Unified sets and generated tags use exactly what the match supplied',
  '$$LIST tag unification, &&SET set unification and the values captured by regular expressions ($1..$9, including nested and optional groups, case markers %u %U %l %L and {LIST} references) are bound by the first successful match of a rule application, must be the same in every further test of that application, and generate exactly the documented tags in every rule action that uses them; nothing bound by a failed test, an earlier cohort, an earlier reading or an earlier rule is visible afterwards.',
  'all rules over one, two and three unified sets or tags x positions x cohorts; all capture patterns x templates; all pairs of rules for isolation',
  'Unification state is global mutable state saved and restored around recursive matching; leaks need a failed partial match at one place followed by a success elsewhere.',
  [M, 'src/GrammarApplicator_reflow.cpp', R],
  [('unification', M + ' doesSetMatchReading/doesTagMatchReading'), ('captures and varstrings', 'src/GrammarApplicator_reflow.cpp generateVarstringTag, ' + M + ' doesTagMatchRegexp'), ('isolation between applications', R + ' runSingleRule')]))
P.append(eng('C11', 'Variables and stream commands take effect exactly at their documented point',
  'SETVAR/REMVAR stream commands take effect with the window they precede, VAR and LVAR tests see exactly the variables (and, in other windows, the window-local ones) then set, SETVARIABLE/REMVARIABLE change them from that rule on and with OUTPUT report them before the window; FLUSH empties all buffered windows and the variables, IGNORE/RESUME/EXIT pass, resume and stop processing, and no command or text line is lost or reordered against the cohorts around it.',
  'all streams of up to six (thorough: seven) items over commands, cohorts, delimiters and text; every form of variable test x every variable state; all programs of up to three rules that set, remove and test variables',
  'Commands interact with windows that are still buffered; the order of application is a property of every stream, and the variables are hidden state that persists over windows.',
  ['src/GrammarApplicator_runGrammar.cpp', 'src/GrammarApplicator.cpp', 'src/Window.cpp', M, R],
  [('stream commands', 'src/GrammarApplicator_runGrammar.cpp'), ('variable tests', M + ' doesTagMatchReading T_VARIABLE'), ('variable rules', R + ' K_SETVARIABLE/K_REMVARIABLE'), ('output', 'src/GrammarApplicator.cpp printSingleWindow')]))
P.append(eng('C12', 'Windows are cut, and seen across, exactly as delimiters and limits say',
  'The input stream is cut into windows exactly after hard delimiters, after soft delimiters once the soft limit is reached, at the hard limit, at delimiting text, and (with --dep-delimit) where dependency numbers restart or jump; each window is run once, in order, with the documented number of windows of look-behind and look-ahead; spanning tests (W < > and --always-span) reach cohorts of other windows exactly when allowed, and no cohort or text is lost, duplicated or moved by the cutting.',
  'all streams of up to seven (thorough: nine) cohorts over ordinary, soft- and hard-delimiter cohorts x declarations x limits x buffer sizes; all streams of cohorts, delimiters and text lines x text delimiters; all sequences of dependency numbers x distances; all spanning tests over all sequences of up to four (thorough: five) windows x buffer sizes',
  'Where a window ends depends on the whole history of the stream and on look-back; tests sample a few streams with default limits.',
  ['src/GrammarApplicator_runGrammar.cpp', 'src/GrammarApplicator_reflow.cpp', 'src/Window.cpp', X],
  [('window cutting', 'src/GrammarApplicator_runGrammar.cpp runGrammarOnText'), ('splitting', 'src/GrammarApplicator_reflow.cpp delimitAt/reflowDependencyWindow'), ('spanning tests', X), ('window buffer', 'src/Window.cpp')]))
P.append(eng('C13', 'Enclosures are hidden, restored one by one, and seen by the right tests only',
  'With PARENTHESES every matched enclosure is taken out of the window, rules run on the rest, then enclosures are put back left to right one at a time with all rules rerun each time; L, R, _LEFT_, _RIGHT_, _PAREN_, _ENCL_ and the ENCL_INNER/OUTER/FINAL/ANY options hold exactly for the active enclosure, whatever rules edit the window meanwhile, and the output keeps all cohorts in input order.',
  'all sequences of up to six (thorough: seven) cohorts over two kinds of parentheses, words and delimiters and up to nine (ten) over one kind; all pairs of editing rules with enclosures',
  'Nesting, unmatched, crossing and adjacent enclosures form a combinatorial space; the one test has one sentence and no rule that edits the window.',
  ['src/GrammarApplicator_runRules.cpp', X, M],
  [('wrapping and unwrapping', R + ' runGrammarOnWindow'), ('L/R tests', X + ' runParenthesisTest'), ('magic tags', M + ' doesTagMatchReading'), ('enclosure options', R + ' runRulesOnSingleWindow')]))
P.append(eng('C14', 'WITH runs its inner rules on exactly what it captured; PROTECT shields readings',
  'A WITH rule runs its inner rules, in order, on its target and on the cohorts its context tests captured (_C1_..., jC1..., _TARGET_, _MARK_), for every cohort the WITH matches, whatever the inner rules add, remove, move or make newly applicable; nested blocks see only their own level, and rules after the block are not affected by it. PROTECT makes readings that no removing or editing rule changes until UNPROTECT.',
  'all WITH rules over the menu of targets and context lists x all single inner rules, pairs (thorough: triples), two-level nestings, flags and following rules, on all small windows; all PROTECT/UNPROTECT rules combined with every kind of other rule, in pairs and triples',
  'The tests have two WITH grammars; which cohorts the inner rules see depends on contexts that may be absent, on edits made by earlier inner rules and on the loop that surrounds them.',
  [R, TP, M],
  [('nested rules', R + ' runSingleRule and K_WITH'), ('context references', M + ' doesTagMatchReading T_CONTEXT'), ('protection', R + ' immutable readings')]))
P.append(dict(id='C15', title='A grammar compiled to binary behaves exactly like its text',
  statement='Compiling a grammar to the binary format and running the result gives, for every input and every option, exactly the output of running the text grammar; compiling it again from the binary loses nothing either, and writing a grammar does not change the grammar in memory.',
  over=['programs', 'inputs'], quant='every grammar of every menu of C01..C14 (all rule types, flags, contexts, set forms, tag forms) plus all pairs of 20 grammar-level declarations with 93 rule bodies, each run on several inputs',
  why='The writer and the reader enumerate every field of every grammar object by hand; the tests compile the few hundred sample grammars, while a forgotten field only matters for grammars that use it in a way that changes the output.',
  files=['src/BinaryGrammar_write.cpp', 'src/BinaryGrammar_read.cpp', 'src/Grammar.cpp', 'src/TagTrie.hpp'],
  mech=[('serialisation of tags, sets, contexts, rules', 'src/BinaryGrammar_write.cpp'), ('deserialisation and re-indexing', 'src/BinaryGrammar_read.cpp'), ('grammar reindex', 'src/Grammar.cpp reindex')],
  technique=EX_T + ' (all menu programs, text and binary side by side)', level='exploration',
  note='Exhaustive over the stated menus; the oracle is the text grammar itself run by the same engine, so it does not depend on the reference model. Grammars the parser rejects are decided by C17.'))
P.append(dict(id='C16', title='A grammar written back as text behaves exactly like the original',
  statement='--grammar-out writes a grammar that is accepted again and that gives, for every input, exactly the output of the original (apart from rule line numbers in traces), whether it is written before or after the grammar was run; writing the rewritten grammar again loses nothing either.',
  over=['programs', 'inputs'], quant='every grammar of every menu of C01..C14 (all rule types, flags, contexts, templates, set forms, tag forms, anchors and sections) plus all pairs of 20 grammar-level declarations with 93 rule bodies, each run on several inputs',
  why='The writer prints every construct of the grammar language by hand from the compiled objects; a construct it forgets or prints in another order changes the grammar silently, and only for inputs that exercise it.',
  files=['src/GrammarWriter.cpp', 'src/TextualParser.cpp', 'src/Tag.cpp'],
  mech=[('printing of rules, contexts, sets and tags', 'src/GrammarWriter.cpp'), ('tag escaping', 'src/Tag.cpp toUString'), ('parsing', 'src/TextualParser.cpp')],
  technique=EX_T + ' (all menu programs, original and rewritten side by side)', level='exploration',
  note='Exhaustive over the stated menus; the oracle is the original grammar run by the same engine. Only text grammars are rewritten: a binary grammar has no set names, so text written from it is not claimed. Runs with --trace or with rules selected by line number are left out because line numbers differ.'))
P.append(dict(id='C17', title='What was processed before never changes what comes out',
  statement='Running a grammar on a text gives the same output whatever was run before with the same grammar object or (for grammars without dependencies, relations and variables) the same applicator; and a FLUSH between two texts in one stream gives exactly the outputs of the two texts on their own, apart from the running numbers of cohorts.',
  over=['programs', 'histories'], quant='every grammar of every menu of C01..C14 plus all pairs of 20 grammar-level declarations with 93 rule bodies; every input alone, after every other in both directions with one grammar and with one applicator, and every input followed by FLUSH and another',
  why='Caches (regular-expression, set and context results, indices, captured groups, unification, pools) live as long as the applicator or the grammar and must be invalidated in every path; a stale entry shows only for a particular succession of inputs.',
  files=['src/GrammarApplicator.cpp', 'src/GrammarApplicator_runGrammar.cpp', 'src/GrammarApplicator_matchSet.cpp', 'src/Window.cpp', 'src/Reading.cpp', 'src/Cohort.cpp'],
  mech=[('caches and indices', 'src/GrammarApplicator.cpp resetIndexes, src/GrammarApplicator_matchSet.cpp index_readingSet_*'), ('object pools', 'src/Reading.cpp, src/Cohort.cpp alloc_*/free_*'), ('flush', 'src/GrammarApplicator_runGrammar.cpp')],
  technique=EX_T + ' (all menu programs over all orders of their inputs)', level='exploration',
  note='Exhaustive over the stated menus; the oracle is the same engine run on each text alone. Left out: re-use of an applicator with dependencies, relations or variables (remembered on purpose) and, for FLUSH, tests that look at the numbers of the >>> cohort.'))
P.append(dict(id='C18', title='Options that only add information never change what the grammar does',
  statement='--trace (with all its variants), --profile, --debug-rules, --verbose, --dump-ast and --print-ids only add information: taking away what they add (trace tokens, lines of deleted readings and removed cohorts, IDs, or anything not on standard output) leaves exactly the output of the plain run, and --deleted changes nothing for input without deleted readings.',
  over=['programs', 'inputs', 'configurations'], quant='every grammar of every menu of C01..C14 plus all pairs of 20 grammar-level declarations with 93 rule bodies, with and without each of these options',
  why='Tracing, profiling and debugging run inside the rule loop, print windows in the middle of a rule and keep extra lists of readings; each of them has branches in the code that changes cohorts and merges readings. No test compares a traced run with a plain one.',
  files=['src/GrammarApplicator.cpp', 'src/GrammarApplicator.hpp', 'src/GrammarApplicator_reflow.cpp', 'src/GrammarApplicator_runRules.cpp', 'src/Profiler.hpp', 'src/TextualParser.cpp'],
  mech=[('tracing', 'src/GrammarApplicator.cpp printReading/printTrace, src/GrammarApplicator_reflow.cpp mergeReadings'), ('profiling', 'src/GrammarApplicator.hpp addProfilingExample, src/GrammarApplicator_runRules.cpp'), ('debugging', 'src/GrammarApplicator.hpp printDebugRule')],
  technique=EX_T + ' (all menu programs with and without each option)', level='exploration',
  note='Exhaustive over the stated menus; the oracle is the plain run of the same engine. Readings that differ only in mapping tags are merged on output unless different rules touched them, so where the plain comparison fails the two outputs are compared one mapping tag at a time, as sets of tags.'))
P.append(dict(id='C19', title='The physical form of the input (chunks, line ends, lengths) never matters',
  statement='The output is the same whether the input arrives in one piece or byte by byte, with LF or CRLF line ends, with or without a newline at the end, with single or repeated spaces and tabs between and after tags, with readings indented by tabs or spaces, with blank lines in between, and however long its lines, word forms, tags and gaps are.',
  over=['programs', 'inputs', 'configurations'], quant='every grammar of every menu of C01..C14 plus all pairs of 20 declarations with 93 rule bodies, on inputs in seven physical forms; all line lengths in ranges around each doubling of the line buffer (thorough: all lengths to 5000 and around every doubling to 65536) x nine shapes of line x with and without a final newline',
  why='Lines are read into growing buffers in segments, compacted, and converted from UTF-8 with surrogates carried over between reads; mistakes show only at particular lengths and at the end of the stream.',
  files=['src/uextras.cpp', 'src/GrammarApplicator_runGrammar.cpp'],
  mech=[('line buffer', 'src/uextras.cpp get_line_clean/u_fgets/u_fgetc'), ('parsing of lines', 'src/GrammarApplicator_runGrammar.cpp')],
  technique=EX_T + ' (all menu inputs in all forms, all line lengths around buffer sizes)', level='exploration',
  note='Exhaustive over the stated menus and lengths; the oracle is the run on the canonical form, and for the line lengths a known output. Blank lines are copied to the output and ignored in the comparison; grammars with TEXT-DELIMITERS, for which blank lines are text, are left out of that form.'))
P.append(dict(id='C20', title='The format of the stream makes no difference to what the grammar does',
  statement='A text gives the same result whether it is fed in the native CG format or, converted, as JSONL, Niceline, FST, Apertium or binary stream, and the result is the same text whichever of these formats it is written in: the same windows, cohorts, readings, sub-readings, tags, mapping tags, text, variables, dependencies and relations, as far as the format has a place for them. No format makes the program exit or crash on what another accepts.',
  over=['programs', 'inputs', 'configurations'], quant='every grammar of every menu of C01..C14 plus all pairs of 20 declarations with 93 rule bodies, on their inputs, x 5 further input formats x 5 further output formats',
  why='Every format has a reader and a writer of its own which repeat the logic of windows, look-ahead, limits, sub-readings, mapping tags and commands; tests feed all formats but one a handful of texts. A difference shows only with the right grammar on the right text.',
  files=['src/BinaryApplicator.cpp', 'src/JsonlApplicator.cpp', 'src/NicelineApplicator.cpp', 'src/FSTApplicator.cpp', 'src/ApertiumApplicator.cpp', 'src/FormatConverter.cpp', 'src/GrammarApplicator_runGrammar.cpp'],
  mech=[('readers', 'runGrammarOnText of each applicator'), ('writers', 'printCohort/printReading/printSingleWindow of each applicator')],
  technique=EX_T + ' (all menu programs in every input and output format)', level='exploration',
  note='Exhaustive over the stated menus; the oracle is the same engine on the CG form. A format is compared on a text only if converting there and back keeps the text. Left out: traces and --dep-original (only CG can carry them), relations in JSONL and Apertium and dependencies in FST (no place for them), the numbers of dependencies that span windows, --dep-delimit in other formats, limits in JSONL and Apertium (which do not look back), readings without base form, and the order of mapping tags and of readings.'))
P.append(dict(id='C22', title='No damage to a stream makes the program crash, hang or misuse memory',
  statement='Whatever happens to an input stream - cut off at any point, bytes lost, repeated, changed or inserted, lines lost, repeated or moved - in any of the seven input formats (and with automatic detection), vislcg3 and cg-conv either process it to the end or refuse it with an error: they never crash, fail an internal assertion, loop for ever, or read or write memory outside their own objects, and never exit with success in the middle.',
  over=['inputs', 'crash_points'], quant='every cut, every cut-off front, every lost, doubled, changed (to 21 significant bytes) and inserted byte, every moved, doubled and lost range of lines of 16+ base streams that use every construct of the formats; for binary streams every changed byte and length (thorough: every pair of bytes); each processed several ways',
  why='Tests feed well-formed streams only. The readers index raw line buffers, trust lengths and numbers from the stream and reuse them as hash-map keys; the failures need one particular damaged byte.',
  files=['src/GrammarApplicator_runGrammar.cpp', 'src/NicelineApplicator.cpp', 'src/FSTApplicator.cpp', 'src/ApertiumApplicator.cpp', 'src/JsonlApplicator.cpp', 'src/BinaryApplicator.cpp', 'src/PlaintextApplicator.cpp', 'src/FormatConverter.cpp', 'src/uextras.cpp', 'src/Tag.cpp'],
  mech=[('readers', 'runGrammarOnText of each applicator'), ('line buffers', 'src/uextras.cpp get_line_clean'), ('numbers in tags', 'src/Tag.cpp parseTagRaw')],
  technique='exhaustive fault enumeration on the implementation: every damage of the stated kinds, under address and undefined-behaviour sanitizers (bounded model checking of the real code with a fault injector)', level='fault_enumeration',
  note='Exhaustive over the stated damages of the base streams. Built with assertions on. An error message with exit code 1, or an exception for bytes that are not UTF-8, counts as refusing the stream; memory leaks are not judged.'))
P.append(dict(id='C23', title='No damage to a grammar makes the loader crash, hang or misuse memory',
  statement='Whatever happens to a grammar - text cut off at any point, bytes lost, repeated, changed or inserted, tokens lost, repeated, exchanged, replaced by others or made longer than any buffer - it is either loaded, and can then be written as text and as binary and loaded again, or refused with an error message: the program never crashes, fails an internal assertion, loops for ever, or reads or writes memory outside its own objects. A binary grammar that was cut off, or whose header was changed, is refused.',
  over=['inputs', 'programs', 'crash_points'], quant='every cut, cut-off front, lost, doubled, changed (23 significant bytes) and inserted byte, every lost, exchanged, replaced (32 tokens) and lengthened (5 lengths x 3 shapes) token, every cut followed by every token of 6 grammars that use every construct of the language; thorough: also every lost range of tokens, every token replaced by every other and lost ranges of bytes; every cut and every changed header byte of the binary forms',
  why='Tests load correct grammars and a few with one typical error. The parser moves raw pointers over the text, looks behind and ahead of them and copies tokens into fixed buffers; the failures need one particular damage.',
  files=['src/TextualParser.cpp', 'src/parser_helpers.hpp', 'src/inlines.hpp', 'src/Grammar.cpp', 'src/Set.cpp', 'src/Tag.cpp', 'src/MathParser.hpp', 'src/options_parser.hpp', 'src/BinaryGrammar_read.cpp', 'src/BinaryGrammar_write.cpp', 'src/GrammarWriter.cpp'],
  mech=[('parser', 'src/TextualParser.cpp parseFromUChar'), ('tags', 'src/parser_helpers.hpp parseTag'), ('binary reader', 'src/BinaryGrammar_read.cpp parse_grammar')],
  technique='exhaustive fault enumeration on the implementation: every damage of the stated kinds, under address and undefined-behaviour sanitizers (bounded model checking of the real code with a fault injector)', level='fault_enumeration',
  note='Exhaustive over the stated damages of the base grammars. Built with assertions on. Binary grammars with changed contents (beyond the header) are not claimed: they are the output of a compiler, with no checksum. Memory leaks are not judged; exit code 1 with a message counts as refusal.'))
P.append(dict(id='C26', title='Sets and maps keep exactly their members through every history of operations',
  statement='The sets and maps that hold variables, cohort numbers, dependency and relation numbers, tags, children and rule lists (hash tables, sorted vectors, interval vectors and tag filters) contain exactly what was put in and not taken out, whatever the keys and however often entries were added, replaced and removed: lookups, sizes, iteration in both directions, bounds, range operations, intersections and removal while iterating always agree with the mathematical set or map, and no operation ever fails to end.',
  over=['histories'], quant='every operation in every reachable internal representation (slots and erased slots, intervals, elements) of small key sets, and around every growth threshold',
  why='A table behaves differently only after a particular history: erased slots that fill a table, growth at a threshold, intervals that meet. Tests use few keys and never look at the container.',
  files=['src/flat_unordered_map.hpp', 'src/flat_unordered_set.hpp', 'src/sorted_vector.hpp', 'src/interval_vector.hpp', 'src/bloomish.hpp'],
  mech=[('hash tables', 'src/flat_unordered_map.hpp, src/flat_unordered_set.hpp'), ('sorted vectors', 'src/sorted_vector.hpp'), ('rule lists', 'src/interval_vector.hpp'), ('tag filters', 'src/bloomish.hpp')],
  technique='explicit-state model checking of the real containers: breadth-first search over complete internal representations, each operation compared with std::set / std::map', level='model_checking',
  note='The hash tables of three keys are closed under all operations; larger ones are explored to the stated bounds. Which of several equivalent elements a range insertion keeps is not specified.'))
NA = []
HOOKS = None
