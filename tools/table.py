GA = 'src/GrammarApplicator'
IN = 'src/GrammarApplicator.cpp'
RR = 'src/GrammarApplicator_runRules.cpp'
RG = 'src/GrammarApplicator_runGrammar.cpp'
CT = 'src/GrammarApplicator_runContextualTest.cpp'
MS = 'src/GrammarApplicator_matchSet.cpp'
RF = 'src/GrammarApplicator_reflow.cpp'
TESTS = 'The existing tests are some 300 fixed pairs of grammar and input with recorded output; '
NOTE = ('Bounded random exploration of the real programs, judged by an independent oracle; evidence counts what was observed. '
        'Trusts the oracle and the generator in /verif; finds violations, does not prove their absence.')

ENG = 'reference-engine monitor: the whole traced output of random grammars over random streams compared with an independent interpreter'
MDL = (NOTE + ' The oracle is a reference engine written for this purpose; cases it does not model or whose outcome rests on an unspecified order '
       'are discarded and counted.')

prop('P01', 'SELECT, REMOVE and IFF keep and discard exactly the readings they should',
     'For every cohort, SELECT discards exactly the readings that do not match, REMOVE exactly those that do, and IFF does the one or the other as its '
     'contextual tests hold or not; never the last reading unless marked UNSAFE, never a protected one, and each according to its flags (DELAYED, '
     'IGNORED, IMMEDIATE, UNMAPLAST, NOMAPPED, wordform prefix, …). What was discarded is traced as discarded by that rule.',
     ['programs', 'inputs'], 'For all grammars of these rules and all streams of ambiguous cohorts.',
     TESTS + 'each shows one rule on one or two cohorts.', [RR, MS, 'src/Reading.cpp'],
     [('runSingleRule', RR), ('SELECT, REMOVE and IFF callbacks', RR)], ['traced output of vislcg3'], ENG, MDL)

prop('P02', 'A set matches exactly the readings and cohorts its definition describes',
     'A LIST matches a reading that has all tags of one of its elements; OR, +, -, ^, \\, ∩ and ∆ combine sets as documented; numeric tags compare values '
     '(with MIN and MAX taken over the cohort), regular expressions and case-insensitive tags match as such, wordforms, baseforms, static tags, fail-fast '
     'tags and SET: tags match where they should; the same set gives the same answer wherever and however often it is used.',
     ['inputs', 'programs'], 'For all sets and all readings.',
     TESTS + 'a set is matched against a handful of readings, so index, bloom-filter and caching errors that need a particular mix are not seen.',
     [MS, 'src/Set.cpp', 'src/Tag.cpp', 'src/TagTrie.hpp', 'src/Grammar.cpp'],
     [('doesSetMatchReading, doesTagMatchReading', MS), ('trie functions', 'src/TagTrie.hpp'), ('Grammar::addSet, reindex', 'src/Grammar.cpp')],
     ['tags that probe rules add to every reading a set matches'], ENG.replace('random grammars', 'probe rules for random sets'), MDL)

prop('P03', 'A contextual test holds exactly where its definition says it does',
     'Positions relative and absolute, scans (*, **), barriers (BARRIER, CBARRIER), spans (W, <, >), careful mode (C), NOT and NEGATE, LINK chains, OR groups, '
     'ALL and NONE, pass-origin, self, marks and attachment, jumps, looks at deleted, delayed and ignored readings, and active and inactive readings: a test '
     'holds for a cohort exactly if the positions described hold a match, and links continue from where it was found.',
     ['programs', 'inputs'], 'For all contextual tests, at every cohort of every window.',
     TESTS + 'a test with three operators has been seen at a few cohorts only.', [CT, MS, 'src/CohortIterator.cpp', 'src/ContextualTest.cpp'],
     [('runContextualTest, runSingleTest', CT), ('TopologyLeftIter, TopologyRightIter', 'src/CohortIterator.cpp')],
     ['tags that probe rules add to every cohort at which a test holds'], ENG.replace('random grammars', 'random tests'), MDL)

prop('P04', 'Tag-editing rules change exactly the tags they name, where they name them',
     'ADD, MAP, REPLACE, SUBSTITUTE, APPEND, COPY (with EXCEPT, BEFORE, AFTER), UNMAP, RESTORE, PROTECT and UNPROTECT leave every reading with exactly the '
     'tags in the order the rule asks for; mapping splits readings; MAP and REPLACE seal a reading against further mapping; nothing else in the cohort or '
     'window changes, and later rules and sets see the edited readings.',
     ['programs', 'inputs'], 'For all grammars of these rules and all streams.',
     TESTS + 'each rule is seen on one or two readings.', [RR, GA + '.cpp', 'src/Reading.cpp'],
     [('ADD, MAP, REPLACE, SUBSTITUTE, APPEND, COPY callbacks', RR), ('splitMappings, addTagToReading, reflowReading', RF)],
     ['traced output of vislcg3'], ENG, MDL)

prop('P05', 'Rules run in the order, sections and number of times asked for',
     'BEFORE-SECTIONS, sections (each repeated with those before it until nothing changes) and AFTER-SECTIONS run in order; within a section every rule runs '
     'over the window in grammar order, starting over as its flags (ITERATE, NOITERATE, REPEAT, IMMEDIATE) say; JUMP, ANCHOR, WITH and variables steer this as '
     'documented; and the command line\'s --sections, --rules, --rule, --no-mappings, --no-corrections, --no-before-sections, --no-sections, '
     '--no-after-sections, --single-run and --max-runs select what they name. A rule that could apply to a cohort is never passed over.',
     ['programs', 'inputs', 'configurations'], 'For all grammars, streams and those options.',
     TESTS + 'hardly any use these options, and whether a rule was wrongly skipped needs an independent account of what should have run.',
     [RR, RG, 'src/main.cpp', 'src/interval_vector.hpp', 'src/Grammar.cpp'],
     [('runGrammarOnSingleWindow, runRulesOnSingleWindow', RR), ('index_ruleCohort_no, updateValidRules', RR), ('option handling', 'src/main.cpp')],
     ['traced output of vislcg3'], ENG, MDL)

prop('P06', 'Cohort rules add, remove, move, split, merge and copy exactly what they say',
     'ADDCOHORT, REMCOHORT, MOVE, SWITCH, SPLITCOHORT, MERGECOHORTS, COPYCOHORT and DELIMIT leave the window with exactly the cohorts, readings, order and '
     'window bounds the rule asks for; no other cohort or text is lost, doubled or moved; positions, dependencies and relations stay consistent, and '
     'removed cohorts are traced.',
     ['programs', 'inputs'], 'For all grammars of these rules and all streams.',
     TESTS + 'each shows one rule at one place in a window.', [RR, RF, 'src/SingleWindow.cpp', 'src/Cohort.cpp'],
     [('callbacks of these rules', RR), ('rem_cohort, add_cohort, delimitAt', RR)], ['traced output of vislcg3'], ENG, MDL)

prop('P07', 'Dependency rules attach and detach as asked, and tests follow the tree',
     'Dependencies in the input are kept as they are; SETPARENT, SETCHILD, REMPARENT and SWITCHPARENT change exactly the links they name, never making a loop '
     'unless allowed to; and the tests p, c, s, pp, cc and their variants hold exactly where the current tree says, also after cohorts were added, moved or removed.',
     ['programs', 'inputs'], 'For all trees, grammars of these rules, and streams.',
     TESTS + 'trees have a few nodes.', [RF, CT, RR, 'src/CohortIterator.cpp'],
     [('attachParentChild, wouldParentChildLoop, reflowDependencyWindow', RF), ('runDependencyTest', CT)], ['traced output and the printed tree'], ENG, MDL)

prop('P08', 'Relation rules change exactly the named relations, and tests follow them',
     'Relations in the input are kept; ADDRELATION, SETRELATION, REMRELATION and their two-way forms change exactly the relations they name between '
     'exactly the cohorts found; and r: tests hold exactly where a named (or any) relation leads to a match.',
     ['programs', 'inputs'], 'For all relation graphs, grammars of these rules, and streams.',
     TESTS + 'graphs have two or three edges.', [RF, CT, RR, 'src/Cohort.cpp'],
     [('addRelation, setRelation, remRelation', 'src/Cohort.cpp'), ('runRelationTest', CT), ('reflowRelationWindow', RF)],
     ['traced output and the printed relations'], ENG, MDL)

prop('P09', 'Rules and tests touch exactly the sub-readings they address',
     'SUB:n and SUB:* rules, and /n positions in tests, act on and look at the sub-reading so many levels in (or from the innermost, if negative), or any; '
     'where there is none they do not apply; the rest of the reading stays as it was, and readings are kept, removed and printed with their sub-readings.',
     ['programs', 'inputs'], 'For all readings with sub-readings, and all grammars of SELECT, REMOVE, IFF and tag-editing rules.',
     TESTS + 'two of them have sub-readings.', [RR, CT, 'src/Reading.cpp', IN],
     [('get_sub_reading', CT), ('runSingleRule', RR), ('printReading', IN)], ['traced output of vislcg3'], ENG, MDL)

prop('P10', 'Unification, captures and templates keep one consistent choice',
     '$$ sets match only if every use in the rule finds the same tags, && sets only if they find the same sets; regular-expression captures fill variable '
     'strings with what was matched for that reading; templates, also with position overrides and links, hold exactly if one of their alternatives does in their place.',
     ['programs', 'inputs'], 'For all such grammars and all streams.',
     TESTS + 'each feature is seen on one or two cohorts.', [MS, CT, RR, 'src/Tag.cpp'],
     [('doesSetMatchReading_trie, unification stores', MS), ('generateVarstringTag', GA + '.cpp'), ('runContextualTest_tmpl, posOutputHelper', CT)],
     ['traced output of vislcg3'], ENG, MDL)

prop('P27', 'Parentheses enclose, hide and reveal exactly what lies between them',
     'Cohorts between a left and the matching right parenthesis are out of sight until the rules have run on the rest, then one enclosure after another '
     'is revealed and the rules run again; L, R, _LEFT_, _RIGHT_, _ENCL_, ENCL_INNER, ENCL_OUTER and the like refer to the enclosure at hand; every cohort is printed, in order.',
     ['inputs', 'programs'], 'For all bracketings, also nested, unbalanced or crossing ones.',
     TESTS + 'one nests.', [RG, RR, CT],
     [('runGrammarOnWindow (enclosures)', RR), ('runParenthesisTest', CT)], ['traced output of vislcg3'], ENG, MDL)

prop('P11', 'A grammar means the same in every serialisation',
     'A grammar gives the same analysis of every text whether it is read as text, as the binary grammar written by cg-comp or by '
     'vislcg3 --grammar-bin, as a binary that was loaded and written again, or as the text written by --grammar-out. '
     'Rule lines and names shown in traces are also the same from text and binary.',
     ['programs', 'inputs'], 'For all valid grammars and all inputs.',
     TESTS + 'they compare text with binary only for the constructs and inputs they happen to contain, and do not run --grammar-out.',
     ['src/BinaryGrammar_write.cpp', 'src/BinaryGrammar_read.cpp', 'src/GrammarWriter.cpp', 'src/TextualParser.cpp', 'src/Grammar.cpp'],
     [('BinaryGrammar::writeBinaryGrammar', 'src/BinaryGrammar_write.cpp'), ('BinaryGrammar::parse_grammar', 'src/BinaryGrammar_read.cpp'),
      ('GrammarWriter::writeGrammar', 'src/GrammarWriter.cpp'), ('Grammar::reindex', 'src/Grammar.cpp')],
     ['output of vislcg3 over the same stream with each serialisation', 'exit status of cg-comp and vislcg3'],
     'differential runtime monitor: five serialisations of a random grammar compared on random streams', NOTE)

prop('P12', 'Untouched material passes through, disambiguation only removes readings',
     'Input whose cohorts no rule can apply to comes out as it went in, in canonical layout: every cohort, reading, sub-reading, tag, '
     'mark-up line and blank in the same order. Under a grammar of only SELECT, REMOVE and IFF rules, every cohort and every text line '
     'comes out once and in order, each output reading is one of that cohort\'s input readings, and no cohort that had readings is left '
     'without one unless a rule marked UNSAFE removed it.',
     ['inputs', 'programs'], 'For all input documents, and all grammars of the named kinds.',
     TESTS + 'none feeds arbitrary text, and none states what must not change.',
     [IN, RG, RR, 'src/Cohort.cpp', 'src/Reading.cpp', 'src/uextras.cpp'],
     [('runGrammarOnText', RG), ('printSingleWindow, printCohort, printReading', IN), ('SELECT and REMOVE callbacks', RR)],
     ['standard output of vislcg3 compared with the input'],
     'conservation monitor: output traced back to the input cohort by cohort, reading by reading', NOTE)

prop('P13', 'Every stream format carries the same analyses',
     'Within what a format can express, converting a stream to another format and back yields the same cohorts and readings: word forms, '
     'base forms, tags in order, sub-readings, mapping tags, and where the format has them static tags and deleted readings. Analysing '
     'a stream given in any input format yields the analysis that the same stream yields in the CG format.',
     ['inputs', 'programs'], 'For all streams, chains of formats, and grammars, within what the formats can hold.',
     TESTS + 'conversion tests are a few fixed files per format, and analysis of non-CG input is barely tested.',
     ['src/FormatConverter.cpp', 'src/FSTApplicator.cpp', 'src/NicelineApplicator.cpp', 'src/ApertiumApplicator.cpp', 'src/JsonlApplicator.cpp',
      'src/BinaryApplicator.cpp', IN],
     [('FormatConverter::runGrammarOnText', 'src/FormatConverter.cpp'), ('runGrammarOnText of each applicator', 'src/JsonlApplicator.cpp'),
      ('BinaryApplicator::readWindow', 'src/BinaryApplicator.cpp')],
     ['standard output of cg-conv and vislcg3 in every format'],
     'round trip and differential monitor: chains of random conversions and back, and analyses of a stream and of its conversion, compared', NOTE)

prop('P15', 'Window bounds and visibility follow delimiters, limits and --num-windows',
     'The input is cut into windows exactly at the grammar\'s delimiters, at text delimiters when those are asked for, at soft '
     'delimiters once the soft limit is reached, and at the hard limit. Positions are counted within those windows, and tests that '
     'may span windows see exactly the configured number of windows to either side.',
     ['inputs', 'configurations'], 'For all streams of cohorts, sets of delimiters, soft and hard limits and numbers of windows.',
     TESTS + 'two of them exercise soft limits, none varies the window count or the place of the limits.',
     [RG, CT, 'src/Window.cpp', 'src/SingleWindow.cpp'],
     [('runGrammarOnText (delimiting)', RG), ('runSingleTest, runContextualTest (spanning)', CT), ('Window::shuffleWindowsDown', 'src/Window.cpp')],
     ['tags that probe rules add to every cohort'],
     'probe-rule monitor: what each cohort sees compared with an independently computed segmentation', NOTE)

prop('P16', 'Stream commands and variables take effect exactly where they stand',
     'SETVAR, REMVAR and FLUSH in the stream change the variables seen by the rules from the following window on (and not before), rule-set '
     'variables last until they are removed or flushed, and --cmdargs style and rule OUTPUT variables come out where they should. Everything between IGNORE '
     'and RESUME is passed through unanalysed, EXIT ends the analysis there, and no text is lost, repeated or reordered by any command.',
     ['histories', 'inputs'], 'For all sequences of windows, commands and text.',
     TESTS + 'one contains each command once or twice in a fixed order.',
     [RG, RR, IN],
     [('runGrammarOnText (command parsing)', RG), ('SETVARIABLE and REMVARIABLE', RR), ('printStreamCommand, printSingleWindow', IN)],
     ['whole output of vislcg3'],
     'trace-specification monitor: the output of a history of commands compared with an independent interpretation', NOTE)

prop('P17', 'Tracing and profiling never change the analysis, and the trace tells the truth',
     'Output with --trace (in any of its forms), --profile, -v or with --trace combined with other output options, less what the option adds, is the '
     'output without it. Every trace names a rule that exists with that type on that line, and every reading that was removed is listed with the '
     'rule that removed it.',
     ['programs', 'inputs', 'configurations'], 'For all grammars, inputs and combinations of these options.',
     TESTS + 'most are run with --trace only, so what tracing changes is not seen.',
     [IN, RR, 'src/Profiler.cpp'],
     [('printTrace, printReading', IN), ('hit_by bookkeeping', RR), ('profiling context', 'src/Profiler.cpp')],
     ['standard output with and without the option', 'trace tokens'],
     'differential monitor with a trace checker (rule, line, effect) over recorded traces', NOTE)

prop('P18', 'The analysis of a text depends on that text and the grammar alone',
     'The same grammar and input give the same output bytes on every run. A text analysed after another one, separated by FLUSH, comes out as '
     'it does on its own; and with a grammar that neither looks beyond its window nor sets variables, each window\'s analysis is the same '
     'whatever comes before or after it.',
     ['histories', 'inputs', 'programs'], 'For all grammars and all sequences of texts given to one process.',
     TESTS + 'each is one run of one text, so state carried from one text to the next is never compared.',
     [RG, RR, IN, 'src/Window.cpp', 'src/pool.hpp', 'src/Cohort.cpp', 'src/Reading.cpp'],
     [('per-window and per-stream resets', RG), ('object pools and their clear functions', 'src/Cohort.cpp'), ('index caches', MS)],
     ['outputs of separate runs, joined runs, permuted runs'],
     'metamorphic history monitor: joined, permuted and repeated texts compared with separate runs', NOTE)

prop('P20', 'cg-mwesplit splits fully disambiguated multi-word cohorts and nothing else',
     'A cohort whose readings all carry a word form tag on their main reading comes apart into one cohort per word form tag, the deepest sub-reading '
     'first; each part keeps its own readings, tags and untagged sub-readings, blanks at the edges of a word form become the text between the parts, '
     'and the text that followed the cohort follows the last part. A cohort with some or no such readings, or whose readings disagree on the words, '
     'is left as it was (with a warning where it looks like a mistake), as is everything else in the stream.',
     ['inputs'], 'For all streams of cohorts with and without word form tags.',
     TESTS + 'one input file with a few cohorts covers cg-mwesplit.', ['src/MweSplitApplicator.cpp'],
     [('MweSplitApplicator::splitMwe', 'src/MweSplitApplicator.cpp'), ('MweSplitApplicator::maybeWfTag', 'src/MweSplitApplicator.cpp')],
     ['standard output and warnings of cg-mwesplit'],
     'reference monitor: the output of cg-mwesplit on random streams compared with an independent splitter', NOTE)

prop('P21', 'A relabelled grammar means the same as its source with the tags replaced',
     'cg-relabel replaces a tag by another tag, by a list of alternatives, or by a set expression everywhere in the sets of a compiled grammar; running '
     'the relabelled grammar yields what running the source grammar with the replacement written out yields. Relabel rules it cannot apply are skipped '
     'with a warning and leave the grammar as it was.',
     ['programs', 'inputs'], 'For all grammars and relabellings of ordinary tags, and all streams with old and new tags.',
     TESTS + 'three small grammars cover cg-relabel.', ['src/Relabeller.cpp', 'src/Relabeller.hpp', 'src/TagTrie.hpp'],
     [('Relabeller::relabelAsList', 'src/Relabeller.cpp'), ('Relabeller::relabelAsSet', 'src/Relabeller.cpp'), ('trie_copy', 'src/Relabeller.hpp')],
     ['output of vislcg3 with the relabelled binary grammar'],
     'metamorphic monitor: relabelled binaries of random grammars compared in operation with sources rewritten from their syntax tree', NOTE)

prop('P22', 'The C library gives what the programs give',
     'A grammar loaded by libcg3 from a file or a buffer, as text or binary, and run on sentences built through its functions, or on whole streams, '
     'yields the readings, removed readings, rule traces, dependencies and tag texts that vislcg3 yields for the same stream, with every applicator option; '
     'format converters, the multi-word splitter and format detection do what the programs do; a sentence copied to another grammar\'s applicator is '
     'analysed as its printed form would be.',
     ['programs', 'inputs', 'configuration'], 'For all grammars, sentences, applicator options and ways of loading.',
     TESTS + 'one small C program covers the library.', ['src/libcg3.cpp', 'src/cg3.h', 'src/FormatConverter.cpp', 'src/MweSplitApplicator.cpp'],
     [('cg3_sentence_runrules', 'src/libcg3.cpp'), ('cg3_reading_addtag', 'src/libcg3.cpp'), ('cg3_applicator_setoption', 'src/libcg3.cpp'),
      ('cg3_run_grammar_on_text_fns', 'src/libcg3.cpp'), ('cg3_sentence_copy', 'src/libcg3.cpp')],
     'state of sentences dumped through the API by a driver, output of vislcg3, cg-conv and cg-mwesplit',
     'metamorphic monitor: the driver for the C API and the programs compared on random grammars, sentences, options and streams', NOTE)

prop('P23', 'Valid grammars and input cause no memory errors or undefined behaviour',
     'Running any valid grammar over any well-formed stream in any supported format, with any documented output, window or trace options, '
     'and converting, compiling, relabelling or profiling it, never accesses memory out of bounds, after it was freed or through a null '
     'pointer, never aborts, and never relies on undefined behaviour.',
     ['programs', 'inputs', 'configurations'], 'For all valid grammars, well-formed streams and option combinations.',
     TESTS + 'they are not run under sanitizers, and combine constructs and options sparsely.',
     ['src'],
     [('whole engine', 'src'), ('object pools', 'src/pool.hpp'), ('text buffers', 'src/inlines.hpp')],
     ['AddressSanitizer and UndefinedBehaviorSanitizer reports', 'death by signal'],
     'AddressSanitizer and UBSan on the real programs over generated grammars, streams and options', NOTE + ' Sees only executed paths.')

