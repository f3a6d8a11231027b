prop("C01", "A compiled dictionary means exactly what its XML source says",
     "For every valid dictionary and direction, the file lt-comp writes relates exactly the pairs of strings that the entries, paradigms, identities, groups, regular expressions and direction/alternative/variant restrictions (r, i, alt, v, vl, vr with options -a, -v, -l, -r) denote: no pair is lost, added or changed. Each pair carries the least total of its entries' weights, sections keep their names and types, and the declared letters are kept. In separable dictionaries <w/>, <t/>, <d/> and <f/> denote the wildcards and word boundaries they are documented as, and every entry ends a word. Optimisation of the automaton never changes any of this.",
     ["inputs", "programs", "configurations"],
     "All dictionaries (entries, nested paradigms, regular expressions, weights, restrictions), both directions, all option settings.",
     "The tests compile a few dozen fixed dictionaries and look at a few words each; the guarantee is over all combinations of paradigm nesting, weights, filters and letters, and over everything the automaton must not accept.",
     ["lttoolbox/compiler.cc", "lttoolbox/transducer.cc", "lttoolbox/regexp_compiler.cc", "lttoolbox/alphabet.cc", "lttoolbox/entry_token.cc", "lttoolbox/compression.cc"],
     [("Compiler::procEntry / insertEntryTokens / matchTransduction", "lttoolbox/compiler.cc"), ("Transducer::minimize / determinize", "lttoolbox/transducer.cc"), ("RegexpCompiler", "lttoolbox/regexp_compiler.cc")])
prop("C02", "lt-expand lists exactly the pairs of the dictionary, with their directions",
     "For every dictionary, lt-expand prints one line for each pair of strings that the entries and paradigms denote (regular expressions are kept as text), and no other line. The separator says whether the pair holds in both directions, for analysis only or for generation only: a combination is as restricted as the most restricted entry in it, counting r, alt, v, vl and vr. Special characters of the text are escaped.",
     ["inputs", "programs", "configurations"], "All dictionaries and option settings of lt-expand.",
     "Tests expand a handful of files; restrictions met in several nested paradigms combine in too many ways to sample.",
     ["lttoolbox/expander.cc"], [("Expander::procEntry / combine / append", "lttoolbox/expander.cc")])
prop("C13", "lt-trim keeps exactly the analyses the bilingual dictionary knows",
     "Trimming an analyser with a bilingual dictionary keeps a pair of the analyser, unchanged and with its weight, if and only if every part of its analysis (parts are joined by '+') begins with the left side of a bilingual entry followed only by further tags, an invariable '#' part being compared with the '#' part of that entry. Nothing is added; sections matched by name (-s) are trimmed only against the section of that name. In a separable dictionary every word of an entry is such a part, and a wildcard stands for any one character or any one tag. (Of the parts before the last it is enough that the bilingual dictionary has something beginning so.)",
     ["inputs", "programs"], "All pairs of analyser and bilingual dictionary, with multiwords, joined analyses, compound tags, weights, several sections.",
     "Tests trim small fixed pairs; what must disappear and what must survive is a property of every pair of dictionaries.",
     ["lttoolbox/transducer.cc", "lttoolbox/lt_trim.cc"], [("Transducer::trim / moveLemqsLast / appendDotStar", "lttoolbox/transducer.cc"), ("FSTProcessor / section matching", "lttoolbox/lt_trim.cc")])
prop("C14", "lt-compose computes the composition of two dictionaries",
     "Composing two compiled dictionaries, whatever their alphabets, gives, for each section of the first, exactly the pairs (x, z) for which some y is related to x by that section and to z by the second dictionary (all its sections together), weights added and the least kept; -i composes on the other side, -a also lets the second dictionary rewrite only the end of a string. The result does not depend on how many jobs run or how they are scheduled.",
     ["inputs", "programs", "schedules"], "All pairs of dictionaries (epsilons on either side, weights, several sections), both modes, one or many jobs.",
     "Tests compose a few fixed files with one schedule.",
     ["lttoolbox/transducer.cc", "lttoolbox/lt_compose.cc"], [("Transducer::compose", "lttoolbox/transducer.cc")])
prop("C15", "lt-append unites two compiled dictionaries without changing either",
     "Appending two compiled dictionaries yields their sections with exactly the pairs and weights each had, and the union of their letters, whatever the two files' symbol tables look like. When both have a section of the same name, the second one's replaces the first's, or with -k the first one's is kept.",
     ["inputs", "programs"], "All pairs of compiled dictionaries, whatever the order in which their symbols were numbered.",
     "Tests append two fixed files.",
     ["lttoolbox/lt_append.cc", "lttoolbox/transducer.cc", "lttoolbox/alphabet.cc"], [("Transducer::updateAlphabet / Alphabet::createLoopbackSymbols", "lttoolbox/transducer.cc")])
prop("C16", "lt-invert swaps the two sides of a compiled dictionary and nothing else",
     "For every compiled dictionary, lt-invert writes one that relates y to x exactly when the input relates x to y, with the same weights, sections and letters; inverting twice gives back the original relation.",
     ["inputs", "programs"], "All compiled dictionaries, with letters outside the basic plane, tags, weights, epsilons.",
     "Tests invert one fixed file.",
     ["lttoolbox/lt_invert.cc", "lttoolbox/transducer.cc"], [("Transducer::invert / Alphabet::operator()", "lttoolbox/transducer.cc")])
prop("C17", "Unified compilation followed by lt-restrict equals direct compilation",
     "For every dictionary and every setting of direction, alternative and variants, compiling it once in unified mode (u) and restricting the result with lt-restrict gives the relation that direct compilation with the same setting gives.",
     ["inputs", "programs", "configurations"], "All dictionaries with r/alt/v/vl/vr restrictions in entries and paradigms, all option settings.",
     "Tests check one dictionary and a few settings.",
     ["lttoolbox/lt_restrict.cc", "lttoolbox/compiler.cc", "lttoolbox/transducer.cc"], [("Compiler::symbolFilters", "lttoolbox/compiler.cc"), ("lt_restrict main", "lttoolbox/lt_restrict.cc")])
prop("C18", "Equivalent characters (ACX) add spellings, and only those",
     "With an ACX file, the analyser accepts, besides each original spelling, exactly the spellings obtained by replacing characters by their declared equivalents, each with the same analyses and weights. This holds for lt-comp with an ACX file and for lt-apply-acx on a compiled dictionary.",
     ["inputs", "programs"], "All dictionaries and all ACX files.",
     "Tests use one dictionary with one ACX file.",
     ["lttoolbox/acx.cc", "lttoolbox/compiler.cc", "lttoolbox/lt_apply_acx.cc", "lttoolbox/transducer.cc"], [("Transducer::applyACX", "lttoolbox/transducer.cc"), ("Compiler::matchTransduction", "lttoolbox/compiler.cc")])
prop("C05", "Analysis reports the longest dictionary match, with all and only its readings",
     "For every dictionary and every text, lt-proc splits the text from left to right: at each point where a word can begin it takes the longest stretch that some entry matches (a match of a standard section must not be followed by a letter; inconditional, preblank and postblank sections have their own rule), and prints a lexical unit ^surface/reading...$ whose readings are exactly the analyses the dictionary relates to that stretch, in order of weight. A stretch of letters that nothing matches is printed as ^word/*word$, and other characters are copied.",
     ["inputs", "programs"], "All dictionaries (several sections of all types, multiwords, overlapping words), all texts.",
     "Tests analyse a few dozen words; overlapping entries, section types, punctuation inside words and failed long matches combine without end.",
     ["lttoolbox/fst_processor.cc", "lttoolbox/state.cc", "lttoolbox/node.cc", "lttoolbox/trans_exe.cc"],
     [("FSTProcessor::analysis / isLastBlankTM / classifyFinals", "lttoolbox/fst_processor.cc"), ("State::step / epsilonClosure / filterFinals", "lttoolbox/state.cc")])
prop("C06", "Analysis loses, repeats or reorders nothing of the text",
     "For every dictionary and every well-formed text stream, removing the lexical-unit markup from lt-proc's analysis gives back the input: each character appears exactly once and in order, in a surface form or between units, and every formatting blank [...] and word-bound blank [[...]] comes out exactly once, in order, next to its word. This includes escaped characters, ignored characters, letters outside the BMP, look-ahead that fails, text at the end of the input, and nulls with -z.",
     ["inputs", "programs", "histories"], "All dictionaries, all texts (blanks, escapes, line ends, any script), any sequence of null-separated texts.",
     "Tests look at a few inputs; loss happens only at particular meetings of look-ahead, blanks and ends of input.",
     ["lttoolbox/fst_processor.cc", "lttoolbox/buffer.h", "lttoolbox/input_file.cc"],
     [("FSTProcessor::readAnalysis / printSpace / blankqueue", "lttoolbox/fst_processor.cc"), ("Buffer", "lttoolbox/buffer.h"), ("InputFile", "lttoolbox/input_file.cc")])
prop("C07", "Upper case matches lower case, never the reverse, and results keep text case",
     "Unless -c is given, an upper-case letter of the text matches its lower-case form in the dictionary (never the reverse), and the readings are written in the case pattern of the text (lower, First, ALL); with -w they keep the dictionary's case; with -c only the exact case matches. This holds for every script with case, in analysis of every dictionary and text.",
     ["inputs", "programs", "configurations"], "All dictionaries with upper- and lower-case entries, all case patterns of text, options -c and -w.",
     "Tests try two or three words.",
     ["lttoolbox/fst_processor.cc", "lttoolbox/state.cc"], [("State::step_case / filterFinals", "lttoolbox/state.cc"), ("FSTProcessor::analysis", "lttoolbox/fst_processor.cc")])
prop("C08", "Generation writes the surface forms the dictionary gives, and marks the rest",
     "For every generator and every stream of lexical units, lt-proc -g (and -n, -d, -l, -b with its marks, -C) replaces each unit by a surface form that the dictionary relates to it, in the case of the unit; a unit the dictionary does not know is written with the mark of the mode (# lemma, @ untranslated, * unknown), or without it in the clean mode; all text, blanks and word-bound blanks between units are kept as they were, and everything printed is escaped exactly once.",
     ["inputs", "programs", "configurations"], "All dictionaries and all well-formed unit streams, in every generation mode.",
     "Tests generate a few forms per mode.",
     ["lttoolbox/fst_processor.cc", "lttoolbox/stream_reader.cc", "lttoolbox/state.cc"],
     [("FSTProcessor::generation", "lttoolbox/fst_processor.cc"), ("StreamReader", "lttoolbox/stream_reader.cc")])
prop("C09", "Lexical transfer translates the longest known tag prefix and keeps the rest",
     "For every bilingual dictionary and every stream of lexical units, lt-proc -b (-o, -O, -g with it) writes each unit followed by exactly the translations of the longest prefix of its lemma and tags the dictionary knows, with the tags beyond the prefix appended to each translation; a unit with no translation is followed by @ and itself. The source side, the case, all text and all blanks between units are kept.",
     ["inputs", "programs", "configurations"], "All bilingual dictionaries, all unit streams (several readings, joined units, empty units, escapes, any script).",
     "Tests translate a few units.",
     ["lttoolbox/fst_processor.cc", "lttoolbox/stream_reader.cc", "lttoolbox/state.cc"],
     [("FSTProcessor::bilingual", "lttoolbox/fst_processor.cc"), ("StreamReader", "lttoolbox/stream_reader.cc")])
prop("C10", "Postgeneration and transliteration: longest match, termination, the rest kept",
     "For every rule dictionary and every text, lt-proc -p, -t and -x rewrite the text from left to right by the longest rule that matches (rules may span several words), go on after what was rewritten, and end; what no rule matches is copied unchanged. Blanks between words are kept in order even when a rule joins or splits words, word-bound blanks stay with their words and are merged when words are joined, and -p removes the '~' marks.",
     ["inputs", "programs"], "All rule dictionaries (growing, shrinking, word-joining and word-splitting rules) and all texts.",
     "Tests try a few rules; non-termination and lost blanks need particular rule combinations.",
     ["lttoolbox/fst_processor.cc", "lttoolbox/state.cc", "lttoolbox/input_file.cc"],
     [("FSTProcessor::transliteration / readTransliterationWord", "lttoolbox/fst_processor.cc"), ("State::step_case_override", "lttoolbox/state.cc")])
prop("C12", "Weights order the readings, and -N, -L, -W select and show exactly them",
     "For every weighted dictionary and every text, the readings of a word come out by increasing total weight (the sum along the best path), each once; -N n keeps the best n readings, -L n the best n weight classes, and -W prints each reading's weight <W:x> and changes nothing else.",
     ["inputs", "programs", "configurations"], "All weighted dictionaries and texts, all values of -N and -L, with and without -W.",
     "Tests check a few words with one or two weights.",
     ["lttoolbox/state.cc", "lttoolbox/transducer.cc", "lttoolbox/compiler.cc"], [("State::NFinals / filterFinalsArray", "lttoolbox/state.cc")])
prop("C11", "With -z every text is answered at its null, by that text alone",
     "In null-flush mode (lt-proc -z, every processing mode), when a client has written a text and its null the complete answer and its null come out without any further input; the answer is the one a fresh process gives to that text, whatever texts came before; a last text that ends at the end of the input instead of a null gets the same answer, and the tool then ends normally.",
     ["histories", "inputs", "schedules"], "All sequences of texts in a session, in every mode of lt-proc, all dictionaries.",
     "Tests send two or three fixed texts; state left over from an earlier text shows only after particular sequences.",
     ["lttoolbox/fst_processor.cc", "lttoolbox/input_file.cc", "lttoolbox/stream_reader.cc", "lttoolbox/lt_proc.cc"],
     [("FSTProcessor::analysis_wrapper_null_flush / generation / bilingual / transliteration", "lttoolbox/fst_processor.cc"), ("StreamReader::next", "lttoolbox/stream_reader.cc")])
prop("C23", "lt-proc -e decomposes unknown words into as few known parts as possible",
     "With -e, words that have an analysis of their own are analysed as without it (entries marked compound-only-L never count). An unknown word is decomposed if and only if it is a sequence of dictionary words, all but the last marked compound-only-L and the last marked compound-R, with no more joints than -M allows; the readings printed are exactly those of the decompositions with the fewest joints, parts joined by '+', weights added, control tags hidden. Compounds whose parts contain a blank are found as well, whatever came before. Nothing of the text is lost. (Words for which lt-proc reports too many combinations may be given up.)",
     ["inputs", "programs", "configurations", "histories"], "All dictionaries with compound marks, all texts, all values of -M.",
     "Tests decompose a few words; the guarantee is over all segmentations of all words.",
     ["lttoolbox/fst_processor.cc", "lttoolbox/state.cc"], [("FSTProcessor::compoundAnalysis / analysis", "lttoolbox/fst_processor.cc"), ("State::restartFinals / pruneCompounds", "lttoolbox/state.cc")])
prop("C25", "Ignored (ICX) and restored (RCX) characters only change how words match",
     "With -i, every character listed in any of the ICX files disappears from the text before it is analysed (not inside superblanks), and nothing else does; the soft hyphen is ignored by default unless -I or -r is given. With -r, a listed character of the text also matches each character it may be restored to (a listed capital also those of its small letter, when case does not matter), for any script; the surface form printed is always that of the text, every reading reachable by some restoration is printed, and no reading that no restoration reaches.",
     ["inputs", "programs", "configurations"], "All dictionaries, all ICX/RCX files, all texts, in all combinations of -i, -r, -I, -c and -w.",
     "Tests cover one ICX and one RCX file with ASCII or Latin-1 letters.",
     ["lttoolbox/fst_processor.cc", "lttoolbox/state.cc", "lttoolbox/lt_proc.cc"], [("FSTProcessor::parseICX / parseRCX / readAnalysis / analysis", "lttoolbox/fst_processor.cc"), ("State::step(int, set<int>)", "lttoolbox/state.cc")])
prop("C03", "lt-print writes a compiled dictionary as text that means the same",
     "For every compiled dictionary, lt-print (with and without -H) writes one AT&T transducer per non-empty section whose pairs and weights are exactly those of the section; compiling that text with lt-comp gives the union of the sections back (swapped for rl), divided into words and what begins with punctuation unless -S is given; lt-print -a lists exactly the letters and the tags. (Domain: the letter epsilon is not written without -H, where it stands for the empty symbol.)",
     ["inputs", "programs", "configurations"], "All dictionaries, both directions, with and without -H and -S.",
     "Tests print a few small dictionaries; escapes, weights, empty sections and non-BMP letters are not combined.",
     ["lttoolbox/lt_print.cc", "lttoolbox/transducer.cc", "lttoolbox/att_compiler.cc"], [("Transducer::show / escapeSymbol", "lttoolbox/transducer.cc"), ("AttCompiler::parse / write", "lttoolbox/att_compiler.cc")])
prop("C26", "lt-comp compiles AT&T transducers to exactly the pairs they describe",
     "A text in AT&T format (states in any numbering, lines in any order, any spelling of the empty symbol, space and tab, symbols of several characters, tags, optional weights, several transducers separated by dashes) compiles to exactly the set of pairs with their least weights that its paths spell out; the source of the first line is the initial state, the separated transducers are united, rl swaps the sides, all characters but punctuation and spaces become letters in both cases. Unless -S is given, pairs whose input begins with punctuation go to an inconditional section and the others to the standard one; transducers that would match without reading a letter or punctuation are refused. (Domain of the division: every arc out of an initial state reads a letter or punctuation, and none leads back to it.)",
     ["inputs", "programs", "configurations"], "All AT&T texts without cycles of empty symbols, in all combinations of lr/rl, -H, -S.",
     "Tests compile about ten fixed files, each with states in order.",
     ["lttoolbox/att_compiler.cc", "lttoolbox/lt_comp.cc"], [("AttCompiler::parse / classify_forwards / extract_transducer", "lttoolbox/att_compiler.cc")])
prop("C19", "lt-merge joins the marked units without loss, and lt-merge -u undoes it",
     "For every well-formed stream, lt-merge replaces each run of units from one tagged MERGE_BEG to the next one tagged MERGE_END (or to the end of the text, when none follows) by a single unit ^form/form<MERGED>$ whose form holds, escaped once more, all the forms and all the blanks between them, in order; everything else is copied unchanged. lt-merge -u replaces each unit tagged MERGED by the plain text of its last reading with that one level of escapes removed, so that no text, blank or escape is lost or added between the two. Nulls are answered at once, files and standard input behave alike. (A reading's leading * @ # = % counts as a mark; unmerging drops it.)",
     ["inputs", "configurations"], "All streams of lexical units, both tools, null-separated or ended by the end of the input.",
     "Tests try seven one-line streams; escapes in blanks, unclosed merges and files are not tried.",
     ["lttoolbox/fst_processor.cc", "lttoolbox/lt_merge.cc", "lttoolbox/stream_reader.cc"], [("FSTProcessor::quoteMerge / quoteUnmerge", "lttoolbox/fst_processor.cc"), ("StreamReader::next", "lttoolbox/stream_reader.cc")],
     tech="TLA+ specification; TLC model checking, behaviours replayed, and trace validation")
prop("C22", "lt-paradigm lists exactly the pairs whose analysis matches the pattern",
     "For every compiled dictionary and every pattern (characters, tags, * for any letters, <*> for any tags, <*|a|b>, <*-a-b>, <|a|b>), lt-paradigm prints a line analysis:surface for each pair of the dictionary, in any section, whose analysis the whole pattern matches, and no other line; -a takes the analyses from the right side, -e keeps a tag out of <*> and <*-a>, -s sorts the lines and prints each once. A tag the dictionary does not have matches nothing. Each pattern's list ends with the separator the pattern had. (Domain: finite dictionaries, analyses without '+', both sides non-empty.)",
     ["inputs", "programs", "configurations"], "All dictionaries without cycles and all patterns.",
     "Tests try about ten patterns on two dictionaries.",
     ["lttoolbox/lt_paradigm.cc", "lttoolbox/transducer.cc", "lttoolbox/symbol_iter.cc"], [("process / expand / split_tag", "lttoolbox/lt_paradigm.cc"), ("Transducer::trim", "lttoolbox/transducer.cc")])
prop("C30", "The library's biltrans and lookup calls translate as lt-proc -b does",
     "FSTProcessor::biltrans, biltransWithQueue and biltransWithoutQueue give, for every word and every bilingual dictionary, the translations of the longest prefix of the word the dictionary knows (WithoutQueue: of the whole word only; WithQueue: a word without tags too), each followed by the rest of the word, in the case of the word; the length WithQueue reports is that of the rest; a leading = is kept, a word marked * is returned unchanged and a word without translation gets an @. lookup gives the readings of the whole word or reports that there are none. Calls do not influence later ones. Whether the word is given between ^ and $ makes no other difference.",
     ["inputs", "programs", "histories"], "All dictionaries, all words, all sequences of calls on one loaded dictionary, with the options for case, weights, -N and -L.",
     "No test of the repository calls these functions except lookup with a few words.",
     ["lttoolbox/fst_processor.cc", "lttoolbox/state.cc"], [("FSTProcessor::biltrans / biltransWithQueue / biltransWithoutQueue / lookup", "lttoolbox/fst_processor.cc")],
     observe=["return values of the library's public functions"])
prop("C31", "Pattern lists classify every lexical form by the first pattern that matches it",
     "A PatternList filled by any history of insertions (single patterns and sequences joined by +, with lemmas and tags given or left open by *) and turned into a MatchExe classifies every sequence of letters and tags by the smallest number of the patterns that match it and are not banned, and as nothing when none does: * in a lemma stands for one or more letters, * among the tags for one or more tags, and a queue (a blank, _ or # and letters) may follow. The MatchExe from memory, from a copy, from a file and from a serialised stream classify alike, and matching one form does not influence the next.",
     ["inputs", "programs", "histories"], "All histories of insertions, all forms, all sets of banned numbers, and any sequence of forms matched with one MatchState.",
     "No test of the repository uses PatternList, MatchExe or MatchState; apertium's tagger and transfer modules rely on them.",
     ["lttoolbox/pattern_list.cc", "lttoolbox/match_exe.cc", "lttoolbox/match_state.cc", "lttoolbox/match_node.cc"], [("PatternList::insert / buildTransducer / write / read / serialise", "lttoolbox/pattern_list.cc"), ("MatchState::step / classifyFinals", "lttoolbox/match_state.cc"), ("MatchExe::MatchExe", "lttoolbox/match_exe.cc")],
     observe=["return values of the library's public functions"])
prop("C33", "The stream reader takes every Apertium stream apart without loss",
     "For every stream, well formed or cut short, StreamReader::next (on an InputFile) finds one after another all units ^...$ with the blank before them ([...] blocks and escaped characters included), the word-bound blank bound to them, every reading with its mark, its text as written and its letters and tags, and the chunk contents in braces; a word-bound blank bound to no word is part of the blank. It reports each null where it stands, also inside a unit or blank that was not closed, and the end of the input exactly once, last. Tags the alphabet lacks are added if asked for, and otherwise stand for no symbol.",
     ["inputs", "histories"], "All streams, alphabets and settings of the reader.",
     "No test of the repository uses StreamReader or InputFile directly; the streams of the lt-proc tests are well formed.",
     ["lttoolbox/stream_reader.cc", "lttoolbox/input_file.cc"], [("StreamReader::next", "lttoolbox/stream_reader.cc"), ("InputFile::readBlank / readBlock / finishWBlank / get / peek / unget", "lttoolbox/input_file.cc")],
     observe=["public functions and members of StreamReader"])
prop("C32", "The string functions of the library do what they say for all strings",
     "StringUtils: trim removes the spaces at both ends and nothing else; split gives the non-empty pieces between the delimiters (split_escaped: those not escaped by a backslash), and join puts pieces together again; substitute replaces every occurrence; tolower, toupper and totitle follow Unicode's mappings, also when the result is longer; getcase looks at the first and last letter, copycase gives a string the case of another, caseequal ignores case and nothing else; startswith, endswith, itoa and stoi mean what they say; merge_wblanks joins two word-bound blanks without losing either. All of this holds for characters outside the BMP and for parts of longer strings, and no call fails or reads beyond its strings.",
     ["inputs"], "All strings of Unicode characters.",
     "No test of the repository calls these functions.",
     ["lttoolbox/string_utils.cc"], [("StringUtils", "lttoolbox/string_utils.cc")],
     tech="TLA+ specification; TLC model checking of the functions on all short strings, and trace validation of the library", observe=["return values of the library's public functions"])
prop("C34", "Incomplete and invalid files are refused, all along the tool chain",
     "Whatever is written, cut short and built, in whatever order: a tool that is given a file that is not complete - a compiled file, a dictionary or a list of characters that ends before its end, at whatever byte, that is missing, or a compiled file whose header announces features that only a later version knows - or a dictionary that is not valid (not well formed, undefined symbol or paradigm, missing or unknown elements, malformed regular expression) ends with an error, and neither crashes nor hangs nor reports success. What a tool leaves behind that ended with an error is never taken for a compiled file by a later tool; lt-comp leaves the file it should have written as it was. A tool that cannot write all of its output (full disk, no such directory) ends with an error as well. So no result that a tool delivers rests on an incomplete or invalid file.",
     ["inputs", "crash points", "histories"], "All dictionaries, all points at which a file can be cut or a write fail, all histories of building.",
     "Tests give the tools complete files only; a few check that one wrong entry is refused.",
     ["lttoolbox/file_utils.cc", "lttoolbox/compression.cc", "lttoolbox/trans_exe.cc", "lttoolbox/compiler.cc", "lttoolbox/expander.cc", "lttoolbox/regexp_compiler.cc", "lttoolbox/fst_processor.cc", "lttoolbox/acx.cc"],
     [("readTransducerSet / writeTransducerSet / closeOutTextFile", "lttoolbox/file_utils.cc"), ("Compiler::parse, procEntry, requireAttribute", "lttoolbox/compiler.cc"), ("Expander::step", "lttoolbox/expander.cc"), ("RegexpCompiler::error", "lttoolbox/regexp_compiler.cc"), ("FSTProcessor::parseICX / parseRCX", "lttoolbox/fst_processor.cc"), ("load_xml", "lttoolbox/xml_walk_util.cc")],
     tech="TLA+ specification; TLC model checking of all histories of a small store of files, and trace validation of the tools under injected faults", observe=["exit status", "files written"])
prop("C35", "However a tool is called, the same request has the same result",
     "The arguments of every tool may be written in any order and spelling: options anywhere among the files, short ones alone, joined, with their value attached or in the next argument, long ones in full or abbreviated, with = or with the value in the next argument; -- ends the options. Inputs and outputs may be files or the standard streams (an argument left out, or '-' for compiled files and for the output), whether those are files or pipes. Calls that ask for the same thing have the same result, byte for byte, in the file or on the stream it was asked for, and the inputs stay as they were; of repeated -N, -L and -M of lt-proc the last counts, of -i, of -e of lt-paradigm and of -s of lt-trim all do. Unknown and ambiguous options, missing values, too few or too many files, contradictory modes of lt-proc, counts that are not positive, a direction lt-comp does not know, and inputs that do not exist are refused with a non-zero status; a call that is no request writes nothing.",
     ["inputs", "programs"], "All command lines of the twelve tools of the chain.",
     "Tests call each tool in one or two fixed ways, always with files.",
     ["lttoolbox/cli.cc", "lttoolbox/file_utils.cc", "lttoolbox/lt_proc.cc", "lttoolbox/lt_comp.cc", "lttoolbox/lt_trim.cc", "lttoolbox/lt_paradigm.cc"],
     [("CLI::parse_args", "lttoolbox/cli.cc"), ("openInBinFile / openOutBinFile / openOutTextFile / readTransducerSet / writeTransducerSet", "lttoolbox/file_utils.cc"), ("main, getOptVal", "lttoolbox/lt_proc.cc")],
     tech="TLA+ specification; TLC model checking of all short command lines, each replayed on the real tool, and trace validation of the tools", observe=["exit status", "standard output", "files written"])
prop("C27", "Everything written to a compiled file is read back exactly, whatever its size",
     "Numbers (below 2^30), weights (30 bits of mantissa, any exponent, the infinities), strings of any characters, and alphabets are coded by the documented variable-length coding, identically by every writer; each reader gets back what was written and stops where the next item begins, so items can follow each other in any order. The same holds for the serialised form of numbers, strings, weights and alphabets. Dictionaries keep their meaning in their file whatever the number of states, tags and pairs. Files without headers, as earlier versions wrote them, mean the same to every tool.",
     ["inputs", "programs", "histories"], "All numbers, weights, strings, alphabets and sequences of them; dictionaries of any size.",
     "Tests use dictionaries whose numbers fit in one or two bytes, and ASCII names; the coding changes at 2^6, 2^14, 2^22, 2^26 and at the sign of mantissa and exponent.",
     ["lttoolbox/compression.cc", "lttoolbox/serialiser.h", "lttoolbox/deserialiser.h", "lttoolbox/alphabet.cc", "lttoolbox/transducer.cc", "lttoolbox/trans_exe.cc"],
     [("Compression::multibyte_write/read, long_multibyte_write/read, string_write/read", "lttoolbox/compression.cc"), ("Serialiser / Deserialiser", "lttoolbox/serialiser.h"), ("Alphabet::write / read / serialise / deserialise", "lttoolbox/alphabet.cc")],
     tech="TLA+ specification; TLC model checking of the coding, and trace validation of the library and the tools", observe=["return values of the library's public functions", "compiled files", "output of lt-proc"])
prop("C28", "Operations on transducers keep or change their language exactly as they should",
     "For every weighted transducer (any states, cycles, empty arcs, weights): determinize, minimize, joinFinals, copying, writing and reading, serialising, and moving to another alphabet keep its language (the strings of symbol pairs it accepts, each with its least weight); reverse, optional, oneOrMore, zeroOrMore, unionWith, invert, deleteSymbols, epsilonizeSymbols, and building from sequences of pairs and other transducers change it exactly as their names say. determinize and minimize leave no two arcs of a state with the same pair and weight; minimize of a finite language without weights leaves the least number of states.",
     ["inputs", "programs", "histories"], "All weighted automata and all sequences of operations on them.",
     "Tests reach these operations only through small acyclic dictionaries; cycles with weights, unreachable final states and operations after one another are not tried.",
     ["lttoolbox/transducer.cc", "lttoolbox/alphabet.cc"], [("Transducer::determinize / minimize / reverse / joinFinals / insertTransducer / unionWith / ...", "lttoolbox/transducer.cc")],
     tech="TLA+ specification; TLC model checking of the constructions, all small automata replayed on the library, and trace validation", observe=["public functions of the Transducer class"])
