FINDINGS += [
 {"property": "C06", "key": "lookahead-over-2048",
  "what": "lt-proc loses text when a match attempt looks ahead over more than 2048 characters and fails (fixed-size ring buffer; "
          "input: dictionary entries 'c' and a 2201-character word, text = the first 2200 characters of that word)"},
]
FIXED += [
 ("analyse what follows the last match at the end", "C06", "text after the last match was lost at the end of the input or before a null"),
 ("a simple space inside a multiword", "C06", "a space inside a multiword was also written after it"),
 ("queued blanks stand for spaces only", "C06", "blanks came out at the wrong place after escaped spaces and other blank characters"),
 ("notice the end of the input after an ignored character", "C06", "a text ending in an ignored character was followed by a non-character"),
 ("a shorter match in another section", "C05", "a shorter match in a postblank or preblank section decided the blank around the longest match"),
 ("do not cut characters outside the BMP in two", "C06", "a character outside the BMP that begins no word was cut in two"),
 ("lt-proc -c does not fall back", "C07", "lt-proc -c matched unknown words in lower case"),
 ("keep the case of words written in scripts outside the BMP", "C07", "upper and title case were lost for scripts outside the BMP"),
 ("an unclosed blank does not swallow the null", "C06", "an unclosed blank swallowed the null after it and wrote U+FFFF at the end"),
]
FIXED += [
 ("generation does not escape what is already escaped", "C08", "escaped characters of a lexical unit came out escaped twice in generation"),
 ("lt-proc -C does not drop untranslated words", "C08", "lt-proc -C dropped the @-marked words -b would print"),
 ("lexical transfer keeps the %, = and #", "C09", "lexical transfer dropped the first character of units beginning with %, = or #"),
 ("generation looks up lexical units that begin with #", "C08", "lexical units beginning with # were never looked up in generation"),
 ("transliteration resumes after what it has rewritten", "C10", "matches were missed after a rewriting, and some rules made lt-proc -p loop for ever"),
 ("transliteration to letters outside the BMP", "C10", "letters outside the BMP written by a transliteration rule were cut in two"),
 ("an escaped space in the input of postgeneration", "C10", "an escaped space in the input of lt-proc -p crashed it or displaced blanks"),
 ("no non-character at the end of postgeneration", "C10", "U+FFFF was written at the end of the input without final newline"),
]
FIXED += [
 ("parts of a compound keep what they write", "C23", "what a part of a compound writes before reading anything was lost"),
 ("compounds with letters outside the BMP", "C23", "words with letters outside the BMP were never decomposed"),
 ("whether a compound may contain a blank", "C23", "whether a compound with a blank was found depended on the word before it"),
 ("lt-proc -e does not take a word that can only begin", "C23", "lt-proc -e printed units without a reading (^word$) for words that only begin compounds"),
 ("a failed compound with letters outside the BMP", "C23", "lt-proc -e looped for ever on a failed compound with letters outside the BMP"),
 ("the fewest parts of a compound are counted", "C23", "an incomplete path hid all decompositions of a word"),
]
FIXED += [
 ("ignored and restored characters outside the BMP", "C25", "characters outside the BMP in ICX and RCX files were cut to half a surrogate pair"),
 ("restored characters: the lower case of a letter outside ASCII", "C25", "a listed capital outside ASCII was not restored like its small letter"),
 ("lt-proc -I and -r do not ignore the soft hyphen", "C25", "the soft hyphen was ignored although -I or -r was given, when -i was given too"),
]
FINDINGS += [{"property": "C26", "key": "att-initial-epsilon-meets-punctuation",
  "what": "lt-comp puts words into the inconditional section when, in an ATT file, an arc that reads nothing leaves the initial state for a state that an arc reading punctuation also reaches (input: 0 1 . . / 0 1 @0@ @0@ / 1 2 a a / 2: 'a' becomes inconditional)"}]
FIXED += [
 ("lt-print -a writes letters outside the BMP", "C03", "lt-print -a cut letters outside the BMP"),
 ("letters outside the BMP in transducers in ATT format", "C26", "letters outside the BMP of an ATT file were cut in the alphabet"),
 ("the source of the first line of an ATT file", "C26", "an ATT file whose initial state is not 0 compiled to another language"),
 ("a state that an ATT file declares final twice", "C26", "the first weight of a state declared final twice was kept instead of the least"),
 ("do not lose paths of an ATT file", "C26", "words beginning with punctuation were lost, depending on the order of the lines of an ATT file"),
 ("lt-print does not give up on a dictionary with an empty", "C03", "lt-print failed on a dictionary with an empty section"),
]
FIXED += [
 ("lt-merge reads its input file also when", "C19", "lt-merge ignored its input file when no output file was given (and waited for standard input)"),
 ("lt-merge: escape the blanks inside a merged unit", "C19", "a blank with an escape inside a merge lost it: the stream after lt-merge -u was not well-formed"),
 ("lt-merge: keep the first character of a form", "C19", "lt-merge lost the first character of a form beginning with %, #, = or *"),
 ("lt-merge: write the units of a merge that the end", "C19", "lt-merge lost all text of a merge that was not closed before the end of the input"),
]
FIXED += [
 ("lt-paradigm: letters outside the BMP", "C22", "a letter outside the BMP in a pattern was ignored"),
 ("lt-paradigm: a pattern with a tag that the dictionary", "C22", "a tag unknown to the dictionary matched the empty string"),
]

FIXED += [
 ("the biltrans functions look at the whole word", "C30", "biltrans(word, false) ignored the last character of the word"),
 ("biltrans and lookup match upper case letters", "C30", "biltrans and lookup did not find words written with capitals"),
 ("biltrans and lookup of words with letters outside the BMP", "C30", "letters outside the BMP were looked up as two surrogates"),
 ("the biltrans functions append everything after", "C30", "text between the longest match and the first tag was lost from the translation"),
 ("biltrans and lookup take the case", "C30", "the case was taken from tags, from the delimiter or from the last letter"),
 ("deserialise strings that are not ASCII", "C27", "a deserialised string with letters outside ASCII was cut"),
 ("deserialise all symbol pairs", "C27", "a deserialised alphabet lost its last pairs or read beyond them"),
]

FIXED += [
 ("minimize a transducer none of whose final states", "C28", "minimize ended the program when no final state could be reached"),
 ("a cycle through the initial state does not lead", "C28", "unionWith accepted strings of neither transducer when the initial state was on a cycle"),
]
FIXED += [
 ("lt-expand accepts comments inside pairs", "C02", "lt-expand refused dictionaries with a comment inside <p>, which lt-comp compiles"),
]
FIXED += [
 ("a part of a compound whose tag is written early", "C23", "compounds were missed (or found where none can start) when a part writes its compound tag before its last letters are read, e.g. a part longer than its analysis"),
]
FIXED += [
 ("a MatchState can be copy-constructed", "C31", "MatchState(MatchState const &) used its own uninitialised buffer pointer: a copy crashed"),
 ("lemmas with letters outside the BMP in pattern lists", "C31", "a pattern whose lemma has letters outside the BMP matched nothing"),
]
FIXED += [
 ("lt-trim always looks for an invariable part after a +", "C13", "when the bilingual dictionary has an entry without tags, the part before a + could be forgotten, and an invariable part was accepted although the bilingual dictionary only has it with another part"),
]
FIXED += [
 ("StringUtils::trim does not read past the end", "C32", "StringUtils::trim of a string of spaces that is part of a longer string did not end, or looked at what follows it"),
 ("upper case can be up to three times as long", "C32", "StringUtils::toupper (and copycase) ended the program for strings such as U+0390 or U+FB03, whose upper case is three times as long"),
]
FIXED += [
 ("lt-comp refuses a dictionary that ends too early", "C34", "lt-comp exited with status 0 and wrote a partial dictionary when the XML file was cut between entries"),
 ("lt-tmxcomp refuses a file that ends too early", "C34", "lt-tmxcomp exited with status 0 when the XML file was cut"),
 ("lt-expand refuses a dictionary that ends too early", "C34", "lt-expand did not end, or exited with status 0, when the XML file was cut"),
 ("compiled files that end too early are refused", "C34", "compiled files cut at almost any byte were accepted as smaller dictionaries; lt-proc crashed on some"),
 ("lt-proc refuses lists of characters that end too early", "C34", "lt-proc -i / -r used the first part of an XML file that was cut"),
 ("a closing parenthesis without an opening one", "C34", "<re>a)b</re> was compiled as <re>a</re>"),
 ("a compiled file that cannot be written completely", "C34", "with a full disk the tools exited with status 0 and left an incomplete compiled file"),
 ("the tools that write text fail when", "C34", "with a full disk lt-print, lt-expand, lt-paradigm, lt-merge and lt-proc exited with status 0"),
 ("lt-comp gives every separable path an end of its own", "C01", "in separable dictionaries the shared <$> transition made other paths final and lost weights"),
 ("lt-trim keeps separable entries that end in <d/>", "C13", "lt-trim rejected every separable entry that ends in <d/>"),
 ("lt-trim does not take <w/> for a tag", "C13", "lt-trim accepted any text in a separable entry after a word the bidix knows"),
 ("lt-trim accepts any tags between a lemma and its invariable part", "C13", "with a bidix entry a#b without tags, a<v>#b was kept but a#b and a<v><sg>#b were not"),
 ("lt-compose keeps tags that only the second dictionary has", "C14", "a tag that the first dictionary does not have was left out of the composition"),
]
FIXED += [
 ("compiled dictionaries can be read from a pipe", "C35", "a compiled dictionary given on standard input through a pipe was taken for the old format and read wrongly"),
 ("a compiled dictionary written to the standard output", "C35", "a compiled dictionary written to standard output had the sizes of its sections printed into it"),
 ("long options that are abbreviated or unknown", "C35", "abbreviated and unknown long options crashed the tools"),
]
