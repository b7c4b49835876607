P = []
def prop(id, title, statement, over, quant, why, files, mech, note, **k):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note, **k))
GEN = " Bounded: exhaustive over the stated input sizes by symbolic execution, nothing is claimed outside. Trusts clang's IR for the shipped sources, the engine's libc/loader models, z3; malloc failure is out of scope."
prop("C01", "UTF-8 decoding accepts exactly the well-formed sequences",
 "Decoding bytes as UTF-8 yields exactly the characters of its well-formed sequences (no overlong forms, surrogates, values above U+10FFFF or truncated sequences), and every byte that is not part of one is rejected on its own and counted as one input error, or becomes the substitute of a following error codec. The decoder options relax precisely what they document: surrogate-pair joining, raw surrogates, overlong forms, overlong NUL, and 5/6-byte forms. A sequence cut off by another byte or by the end of input never influences how the following bytes are decoded.",
 ["inputs", "configurations"], "all byte strings (checked: every string up to 5-6 bytes) in every combination of decoder options listed",
 "The suite decodes about 25 hand-picked strings; acceptance is a statement about all byte strings, and the state kept after an aborted sequence only shows for particular tails.",
 ["modules/from/_UTF-8.c", "modules/from/ASCII.txt", "modules/from/ANY.c", "src/libbsdconv.c"],
 [("UTF-8 state machine and option handling", "modules/from/_UTF-8.c"), ("codec fallback and error accounting of the input phase", "src/libbsdconv.c:bsdconv")],
 "Every path of decoder, engine and error codec for all strings up to 5 bytes (strict) and 3-4/6 bytes (options, restricted first byte) is compared with a reference decoder written from the standard." + GEN)
prop("C02", "UTF-8 encoding is exact and UTF-8 to UTF-8 is the identity",
 "Every Unicode scalar value other than NUL is encoded as its unique shortest UTF-8 form. Converting well-formed NUL-free UTF-8 to UTF-8 reproduces it byte for byte with no errors counted, and in ill-formed input only the ill-formed bytes are lost.",
 ["inputs"], "all sequences of scalar values / all byte strings (checked: up to 3 scalar values, up to 5 bytes)",
 "Tests encode a few CJK words; a wrong boundary or bit in one plane or length class is not sampled.",
 ["modules/to/_UTF-8.c", "modules/from/_UTF-8.c", "modules/to/ASCII.txt", "src/libbsdconv.c"],
 [("UTF-8 encoder", "modules/to/_UTF-8.c:cbconv"), ("ASCII part of the codec list", "modules/to/ASCII.txt")],
 "All scalar values (symbolic 21-bit) through the real encoder against a reference encoder; all byte strings up to 5 bytes for the identity." + GEN)
prop("C03", "UTF-16 and UCS-2 conversion is exact in both byte orders",
 "Encoding to UTF-16 (big or little endian) gives each scalar value's code unit or surrogate pair in that byte order, and decoding well-formed UTF-16 restores exactly the same scalar values. UCS-2 output encodes the BMP and counts one output error for every character beyond it. An unpaired lead surrogate or a truncated final unit is always counted as an input error and never decoded into a character together with stale bytes.",
 ["inputs"], "all scalar sequences (1..3) and all byte strings of length 1..8 without a lone trail surrogate",
 "The suite has no UTF-16 case at all; surrogate arithmetic and byte order are value properties over the full code space.",
 ["modules/from/UTF-16BE.c", "modules/from/UTF-16LE.c", "modules/to/UTF-16BE.c", "modules/to/UTF-16LE.c", "modules/to/UCS-2BE.c", "modules/to/UCS-2LE.c"],
 [("surrogate composition", "modules/from/UTF-16BE.c:cbconv, UTF-16LE.c:cbconv"), ("surrogate decomposition", "modules/to/UTF-16BE.c:cbconv, UTF-16LE.c:cbconv")],
 "Complete symbolic comparison with reference transformation formats within the bounds." + GEN)
prop("C04", "UTF-32 conversion is exact in both byte orders",
 "Every scalar value including NUL survives encoding to and decoding from UTF-32 in either byte order unchanged, and in a truncated input exactly the bytes of the incomplete unit are counted as input errors.",
 ["inputs"], "all scalar sequences (1..3), all byte strings of length 1..9 and 12 made of scalar units",
 "The suite has no UTF-32 case; leading-zero stripping, NUL and byte order are value properties.",
 ["modules/from/UTF-32BE.c", "modules/from/UTF-32LE.c", "modules/to/UTF-32BE.c", "modules/to/UTF-32LE.c"],
 [("leading-zero stripping", "modules/from/UTF-32BE.c:cbconv, UTF-32LE.c:cbconv"), ("padding", "modules/to/UTF-32BE.c:cbconv, UTF-32LE.c:cbconv")],
 "Complete symbolic comparison with the reference within the bounds." + GEN)
prop("C05", "GB18030 conversion follows the GB18030 standard",
 "GB18030 decoding and encoding agree with the published mapping for every scalar value: two-byte codes, four-byte codes of the BMP ranges and the linear four-byte area for the supplementary planes. Every scalar value except NUL can be written, is written as its unique code, and decodes back; byte sequences that are not codes (four-byte codes past U+10FFFF, wrong trail bytes, truncated codes) are rejected as input errors and never turned into another character.",
 ["inputs"], "all scalar values, alone and followed by another; all byte strings of 1-2 bytes, all 4-byte strings of the four-byte form, 3 and 5 byte strings with four-byte leads",
 "The suite converts one or two GB18030 words; 1.1 million four-byte codes are arithmetic plus a 24,000-row table.",
 ["modules/from/_GB18030.c", "modules/to/_GB18030.c", "modules/from/_GB18030.txt", "modules/from/alias", "modules/from/_GBK.txt", "src/libbsdconv.c"],
 [("four-byte decoding", "modules/from/_GB18030.c:cbconv"), ("four-byte encoding", "modules/to/_GB18030.c:cbconv"), ("codec list fallback", "src/libbsdconv.c:bsdconv")],
 "Every path compared with Python's gb18030 mapping (BMP) and the linear formula." + GEN)
prop("C06", "Splitting the input over several calls changes nothing",
 "A conversion may be fed in blocks of any size, including empty ones: the concatenated output, and the error and other counters, are the same as for the whole input in one call, for every module that keeps state between characters (multi-byte decoders, table look-up of multi-character keys, normalization, case folding, counting, string extraction, escapes, replacement, padding, two-phase conversions). Flushing with no data after the last block is equivalent to flushing with it.",
 ["inputs", "histories"], "all inputs of the stated sizes, all cut positions",
 "Tests feed whole strings; a lost or repeated state at a block boundary only shows for particular cuts, and the CLI cuts at fixed sizes nobody tests at.",
 ["src/libbsdconv.c", "modules/from/_UTF-8.c", "modules/from/ESCAPE.c", "modules/inter/STRINGS.c", "modules/inter/_NFC.c", "modules/inter/BIG5-DEFRAG.c", "modules/inter/REPLACE.c"],
 [("pending input and candidate matches kept across calls", "src/libbsdconv.c:bsdconv"), ("per-module private state", "modules/*/*.c")],
 "Symbolic input and every cut: split run and whole run of the real code compared byte for byte, for about 100 conversions." + GEN)
prop("C08", "An instance initialized again behaves like a new one",
 "Whatever an instance was used for, and wherever that use was abandoned - in the middle of a character, with output not collected, flushed or not, in one call or many - after bsdconv_init it converts exactly like a newly created instance: same output, same number of errors counted, for every module that keeps state. Initializing twice does no harm, and destroying an instance in the middle of a conversion releases everything.",
 ["inputs", "histories"], "about 140 conversions; first use: every text of 1-2 bytes or 3 characters, and about 60 prefixes that leave a state behind, abandoned in four ways; second use: every text of 1-2 bytes",
 "Programs convert many strings with one instance; tests create a new one for each string, so a state that survives bsdconv_init is never seen.",
 ["src/libbsdconv.c", "modules/from/_JIS.c", "modules/from/CP950-UDA.c", "modules/inter/_NFC.c", "modules/inter/_NF-ORDER.c", "modules/inter/STRINGS.c", "modules/inter/WHITESPACE-DERAIL.c"],
 [("bsdconv_init", "src/libbsdconv.c:bsdconv_init"), ("per-module initialization", "modules/*/*.c:cbinit")],
 "Reused and new instance run on the same symbolic second text after a symbolic first one; outputs and counters compared on every path." + GEN)
prop("C10", "Conversion strings: structure, packing and editing",
 "A conversion string is read as conversions separated by '|', phases by ':' and codecs by ',', each with an optional argument list after '#', and is refused exactly when a codec has no name. bsdconv_pack returns a conversion string equivalent to the instance: same structure, same arguments, same behaviour. bsdconv_insert_phase, bsdconv_insert_codec, bsdconv_replace_phase and bsdconv_replace_codec return the conversion with exactly that change, everything else untouched; positions count from 0, negative ones from the end, inserting past the end appends, and there is no result for a phase or codec that does not exist.",
 ["inputs", "configurations"], "every string up to 7 bytes; every position in every conversion of up to 4 phases with up to 2-3 codecs with arbitrary names; equivalence of packed instances for all inputs of 2 bytes",
 "The API test edits one conversion at one position per function; positions at and beyond the ends, arguments and chained conversions are not covered.",
 ["src/libbsdconv.c", "src/libbsdconv_util.c", "doc/api.rst"],
 [("conversion parser", "src/libbsdconv.c:bsdconv_unpack"), ("printer", "src/libbsdconv.c:bsdconv_pack"), ("editing", "src/libbsdconv_util.c:bsdconv_insert_phase, bsdconv_insert_codec, bsdconv_replace_phase, bsdconv_replace_codec, bsdconv_get_phase_index, bsdconv_get_codec_index")],
 "Symbolic strings, names and positions; results compared with an independent list model." + GEN)
prop("C11", "Counters and the key-value store of an instance behave as maps",
 "bsdconv_counter returns one counter per name, regardless of case, which starts at zero, stays at the same address for the life of the instance and is changed only by the conversion, its owner or a reset; resetting one counter leaves the others alone, resetting all clears every one, and bsdconv_init leaves them. The key-value store returns for every key the value set last, reports presence exactly for keys set and not deleted, and deleting one key affects no other. Instances share neither.",
 ["inputs", "histories"], "all triples of counter names of 1-2 characters; every sequence of up to 4 store operations on three arbitrary keys after up to 3 insertions",
 "A map is a statement about histories of operations; the suite has no test of the store at all and reads two counters.",
 ["src/libbsdconv_hash.c", "src/libbsdconv_counter.c", "doc/api.rst"],
 [("linked list store", "src/libbsdconv_hash.c:bsdconv_hash_get, bsdconv_hash_set, bsdconv_hash_del"), ("counter list", "src/libbsdconv_counter.c:bsdconv_counter, bsdconv_counter_reset")],
 "Symbolic keys and operations; after every one the store and the counters are compared with a reference map, and the memory is accounted for." + GEN)
prop("C12", "Compiled conversion tables mean what their sources say",
 "Every table module behaves as its table source specifies: the longest listed key (the first codec of a list that has any match wins) is replaced by the listed value, everything else is not matched; case-insensitive rows match both cases; multi-character keys of output and intermediate tables match greedily on whole characters; nothing that is not listed is ever produced.",
 ["inputs"], "every byte string up to 3 bytes (entity names up to 7) for input tables; every scalar value, for multi-character tables every pair with a key character, for output and intermediate tables",
 "The tables hold several hundred thousand rows; tests look at a few dozen. A wrong compile or look-up shows only for particular keys and their prefixes.",
 ["src/bsdconv-mktable.c", "src/libbsdconv.c", "modules/from/*.txt", "modules/inter/*.txt", "modules/to/*.txt"],
 [("table compiler", "src/bsdconv-mktable.c"), ("state machine interpreter with longest match", "src/libbsdconv.c:bsdconv")],
 "The built tables are executed by the real engine symbolically and compared with tries generated by an independent reader of the table sources." + GEN)
prop("C13", "ESCAPE reads and writes percent and backslash escapes",
 "Reading: %XX, \\xXX and \\OOO (octal up to 377) become bytes, %uXXXX and \\uXXXX characters, exactly as documented, and any text that is not a complete escape is rejected byte by byte; an incomplete or aborted escape never influences what follows. Writing: the selected item type is written with the documented prefix, base and suffix, other items are rejected, and bytes as well as the characters U+0100..U+FFFF that are written can be read back unchanged.",
 ["inputs", "configurations"], "every string up to 5 bytes, escapes with every tail up to 7-8 bytes; every scalar value and byte in each mode",
 "State machine over arbitrary bytes with state kept between characters; tests show a handful of well-formed escapes.",
 ["modules/from/ESCAPE.c", "modules/to/ESCAPE.c"],
 [("escape reader", "modules/from/ESCAPE.c:cbconv"), ("escape writer", "modules/to/ESCAPE.c:cbconv")],
 "Item-by-item comparison with a reference reader/writer on every path." + GEN)
prop("C14", "Numeric character references are read and written exactly",
 "&#D; and &#xH; are read as the character with that number for every scalar value in decimal or hexadecimal with any leading zeros; references without digits, beyond U+10FFFF (whatever the number of digits), or unterminated are rejected byte by byte. The decimal and hexadecimal writers give each character's reference, and reading it back gives the character.",
 ["inputs"], "every string up to 5 bytes, every reference-like string up to 10-14 bytes over the relevant alphabets; every scalar value written",
 "Bounds and wrap-around of an accumulating parser; tests show two references.",
 ["modules/from/ASCII-NUMERIC-HTML-ENTITY.c", "modules/to/ESCAPE.c", "modules/to/alias"],
 [("reader", "modules/from/ASCII-NUMERIC-HTML-ENTITY.c:cbconv"), ("writers", "modules/to/ESCAPE.c:cbconv")],
 "Item-by-item comparison with a reference reader on every path." + GEN)
prop("C23", "The textual notation of internal characters is lossless",
 "The bsdconv notation (hexadecimal items, keyword items, comma separated) written for any list of internal items of any type and length reads back as exactly the same list; reading accepts upper and lower case digits and separators and never produces an item that is not written in the text.",
 ["inputs"], "every list of up to 3 items of the stated sizes; every string up to 5 bytes, longer ones over the notation's alphabet",
 "Round trip over arbitrary binary items; tests print a few Unicode characters.",
 ["modules/from/BSDCONV.c", "modules/to/BSDCONV.c", "modules/from/BSDCONV-KEYWORD.txt", "modules/to/BSDCONV-KEYWORD.txt"],
 [("reader", "modules/from/BSDCONV.c:cbconv"), ("writer", "modules/to/BSDCONV.c:cbconv")],
 "Item lists compared on every path." + GEN)
prop("C26", "bsdconv_create accepts or refuses any conversion cleanly",
 "For any conversion string bsdconv_create either returns an instance that can be used and destroyed, or NULL with everything it allocated, opened or mapped released; it never misuses memory. White space is ignored. Malformed hexadecimal data, unknown options, options without their value and unknown modules are refused; the same holds when a module file is missing or cannot be opened or mapped, at whatever point of the creation that happens, and when a later module refuses after earlier ones have been set up. After a refusal bsdconv_error tells what is wrong: a malformed conversion or an unknown module. A created instance can be destroyed before it was initialized.",
 ["inputs", "configurations", "faults"], "every argument text of up to 2-4 characters after each option of each module with arguments; every module with state followed by one that refuses; every single failure of the first 71 attempts to open or map a module file",
 "Conversions are typed by users and built by programs; tests only create valid ones, with all files present.",
 ["src/libbsdconv.c", "src/libbsdconv_util.c", "src/libbsdconv_module.c", "src/libbsdconv_filter.c", "modules/inter/STRINGS.c", "modules/inter/INSERT.c", "modules/inter/REPLACE.c", "modules/to/ESCAPE.c"],
 [("creation and its error paths", "src/libbsdconv.c:bsdconv_create, loadcodec"), ("hexadecimal data", "src/libbsdconv_util.c:str2data, str2datum"), ("module arguments", "modules/*/*.c:cbcreate")],
 "Memory errors, live heap blocks and acceptance are decided on every path of the real creation code with symbolic argument bytes and a symbolic fault position." + GEN)
prop("C27", "Legacy code pages agree with the published mappings",
 "The code pages and East Asian encodings decode and encode every code for which the published mapping is not disputed exactly as published (CP1251-1258, CP874, ISO-8859-1, IBM-37, CP936/GBK, CP949, CP950, CP932, Shift-JIS, GB2312, JIS X 0208/0212), and a decoded character written back gives a code of the same character.",
 ["inputs"], "every 1- and 2-byte (where they exist) code and every BMP scalar value",
 "Tens of thousands of codes per encoding; tests look at a few words.",
 ["modules/from/*.txt", "modules/to/*.txt", "modules/from/alias", "modules/to/alias", "src/libbsdconv.c", "src/bsdconv-mktable.c"],
 [("tables", "modules/from/_CP*.txt, modules/to/_CP*.txt"), ("codec lists", "modules/from/alias, modules/to/alias")],
 "The built modules are executed symbolically and compared with tries generated from Python's codecs; codes where vendors are known to differ are skipped and listed in the check." + GEN)
prop("C15", "Hangul syllables decompose and compose exactly",
 "Every precomposed Hangul syllable decomposes into its leading consonant, vowel and (if any) trailing consonant, and every sequence of such jamo composes into the syllables the Unicode algorithm prescribes, also through NFD, NFC, NFKD and NFKC; every other character and every item that is not a character passes through in place and in order, and nothing held back is lost or merged with something behind an intervening item.",
 ["inputs"], "all sequences of scalar values and other items up to the stated length",
 "11172 syllables and a composition automaton with held state; the suite shows two syllables.",
 ["modules/inter/_NF-HANGUL-DECOMPOSITION.c", "modules/inter/_NF-HANGUL-COMPOSITION.c", "modules/inter/alias"],
 [("decomposition arithmetic", "modules/inter/_NF-HANGUL-DECOMPOSITION.c:cbconv"), ("composition automaton", "modules/inter/_NF-HANGUL-COMPOSITION.c:cbconv")],
 "All paths compared with the Unicode algorithm." + GEN)
prop("C16", "NFC, NFD, NFKC and NFKD produce the Unicode normalization forms",
 "For every sequence of characters, NFD, NFKD, NFC and NFKC give the normalization form defined by the Unicode Standard: full (canonical or compatibility) decomposition, canonical ordering of combining marks by class (stable within a class), and canonical composition with blocking and composition exclusions. Items that are not characters pass through in place and separate the sequences around them.",
 ["inputs"], "every scalar value alone and next to each of 20 representative characters; every string of 3 representatives and of 4 over 7 of them",
 "Normalization interacts across a whole combining sequence; the suite has one example per form.",
 ["modules/inter/_NFD.txt", "modules/inter/_NFKD.txt", "modules/inter/_NFC.c", "modules/inter/_NF-ORDER.c", "modules/inter/_NF-CCC.h", "modules/inter/_NF-HANGUL-COMPOSITION.c", "modules/inter/_NF-HANGUL-DECOMPOSITION.c"],
 [("canonical ordering", "modules/inter/_NF-ORDER.c"), ("canonical composition", "modules/inter/_NFC.c"), ("decomposition tables", "modules/inter/_NFD.txt, _NFKD.txt")],
 "All paths through the whole chain compared with a reference normalizer over tries generated from unicodedata." + GEN)
prop("C17", "Filters and scorers classify every character as documented",
 "Each filter accepts exactly the characters of the Unicode blocks or code set it is named after (and the type filters exactly the items of their type), whatever the character's value; SCORE with a given scorer adds exactly the documented weight of each character and nothing for items that are not characters.",
 ["inputs"], "every item with a 21-bit value, every other item up to 3 bytes, for all filters and scorers",
 "About 60 filters defined by ranges; the suite exercises one or two characters of a few.",
 ["modules/filter/*.c", "modules/scorer/*.c", "modules/inter/SCORE.c", "src/libbsdconv_filter.c", "src/libbsdconv_scorer.c"],
 [("range tests", "modules/filter/*.c:cbfilter, modules/scorer/*.c:cbscorer"), ("loading and dispatch", "src/libbsdconv_filter.c, src/libbsdconv_scorer.c")],
 "Every boundary decided symbolically against a list of the ranges." + GEN)
prop("C18", "Display width is counted, limited and padded correctly",
 "WIDTH counts every character as full, half or ambiguous width following East Asian Width (combining and control characters included as documented by the tables); TRIM-WIDTH#N passes the longest prefix whose width does not exceed N, with ambiguous characters one or two columns as requested; AMBIGUOUS-PAD puts a padding space after each ambiguous character, and AMBIGUOUS-UNPAD removes exactly that, so that padding followed by unpadding restores the text. Items that are not characters pass through, and bsdconv_ctl() switches the padding of exactly the phase it is addressed to.",
 ["inputs", "configurations"], "every scalar value alone and with neighbours, strings of selected characters",
 "Width is a table over all of Unicode combined with counters and limits; tests show one string.",
 ["modules/inter/WIDTH.c", "modules/inter/TRIM-WIDTH.c", "modules/inter/AMBIGUOUS-PAD.c", "modules/inter/AMBIGUOUS-UNPAD.c", "modules/inter/*.h", "src/libbsdconv.c"],
 [("width classes", "modules/inter/WIDTH.c"), ("limit", "modules/inter/TRIM-WIDTH.c:cbconv"), ("padding", "modules/inter/AMBIGUOUS-*PAD.c:cbconv"), ("control", "src/libbsdconv.c:bsdconv_ctl")],
 "All paths compared with a reference over page tables generated from unicodedata." + GEN)
prop("C19", "White space taken out by WHITESPACE-DERAIL is put back by WHITESPACE-RERAIL",
 "WHITESPACE-DERAIL removes exactly tabs, line feeds, carriage returns and spaces and passes the rest in order; WHITESPACE-RERAIL re-inserts them at the same character offset of the text it sees, in the original order. With steps between that keep the number of characters the white space comes back where it was; with steps that join or drop characters no white space is lost or repeated.",
 ["inputs"], "every list of 3 to 4 characters and other items, strings of 5 to 6 over small alphabets",
 "Two cooperating modules with a shared queue and flush interplay; one example in the suite.",
 ["modules/inter/WHITESPACE-DERAIL.c", "modules/inter/WHITESPACE-RERAIL.c", "modules/inter/WHITESPACE.h", "src/libbsdconv.c"],
 [("queue shared by two phases", "modules/inter/WHITESPACE-*.c"), ("flush of pending phases", "src/libbsdconv.c:bsdconv")],
 "All paths compared with a reference." + GEN)
prop("C28", "Case, width and newline mappings agree with Unicode",
 "UPPER, LOWER and CASEFOLD map every character as the Unicode Standard's case mappings prescribe (full mappings where a character expands), FULL and HALF exchange exactly the full- and half-width forms of each character, and UNIX, MAC, WIN and NL2BR rewrite every CR LF, CR or LF as one newline of the target convention; every other character is left alone.",
 ["inputs"], "every scalar value alone and next to each of a few others; newline strings up to 4 characters",
 "About 4000 mapping rows over all of Unicode; the suite converts one word.",
 ["modules/inter/UPPER.txt", "modules/inter/LOWER.txt", "modules/inter/CASEFOLD.txt", "modules/inter/FULL.txt", "modules/inter/HALF.txt", "modules/inter/UNIX.txt", "modules/inter/MAC.txt", "modules/inter/WIN.txt", "modules/inter/NL2BR.txt"],
 [("mapping tables", "modules/inter/*.txt"), ("longest match in the intermediate phase", "src/libbsdconv.c:bsdconv")],
 "The built tables are executed symbolically and compared with tries generated from Python's Unicode data." + GEN)
prop("C24", "ISO-2022-JP designations and the user-defined areas of CP950 are decoded exactly",
 "JIS reads every byte in the character set last designated: ESC ( B selects ASCII, ESC ( J and ESC ( I the JIS X 0201 Roman and katakana sets (katakana in 7 or 8 bits), ESC $ @ and ESC $ B JIS X 0208 and ESC $ ( D JIS X 0212; designations produce no output, stay in force until the next one, and survive a cut of the input but not bsdconv_init(). A byte that is not part of a character of the designated set is ASCII or one input error; a character cut short by a designation is not lost. CP950-UDA maps every pair of its four areas (rows of 157, trail bytes 40-7E and A1-FE) linearly to U+E000-U+F848 and rejects everything else.",
 ["inputs", "histories"], "up to 3 arbitrary bytes behind every designation, symbolic designations between graphic bytes, every string of 3 bytes for CP950-UDA, cut anywhere, after any earlier conversion listed",
 "The designation is hidden state that outlives the sequence, the call and (wrongly) the conversion; there is no test for either module.",
 ["modules/from/_JIS.c", "modules/from/_JIS0201.txt", "modules/from/_JIS0208.txt", "modules/from/_JIS0212.txt", "modules/from/CP950-UDA.c", "src/libbsdconv.c"],
 [("designation and character state", "modules/from/_JIS.c:cbconv"), ("linear formula", "modules/from/CP950-UDA.c:cbconv"), ("sequence bookkeeping", "src/libbsdconv.c:bsdconv (F_LOOPBACK)")],
 "All paths compared with a reference decoder over tries generated from Python's euc_jp codec." + GEN)
prop("C22", "In a list of codecs the first that matches wins with its longest key; what none recognizes is counted",
 "In every phase a list of codecs separated by commas is tried in order at each position: the first codec that recognizes something there is used, with the longest of its keys that matches, whatever longer key a later codec has; then the next position follows that key. Where no codec matches, the input phase drops one byte and counts one input error, an intermediate phase passes the item on unchanged, and the output phase drops the item and counts one output error. This holds through several phases and chained conversions, and however the input is cut.",
 ["inputs", "configurations", "histories"], "every text of 4 to 5 characters over 5 letters, through lists over random tables with overlapping keys, cut anywhere",
 "Back-tracking out of a partly matched key, in one codec and then in the next one, interacts with buffering and cuts; tests list codecs with disjoint keys.",
 ["src/libbsdconv.c", "src/libbsdconv_module.c", "src/bsdconv-mktable.c"],
 [("three phase loops: match, submatch, fallback", "src/libbsdconv.c:bsdconv"), ("tables", "src/bsdconv-mktable.c")],
 "All paths of the real library with the built tables, compared with a reference matcher over the same table texts." + GEN)
prop("C09", "The output mode decides where the output goes, never what it is",
 "Whatever mode is chosen for each call, the bytes delivered are the conversion's output, in order, each byte once: HOLD keeps it for later calls, AUTOMALLOC delivers all of it (with the requested room behind it), a caller's buffer is filled with as many whole pieces as fit and never beyond its size and the rest follows in later calls, without a buffer the size needed is reported, FILE and FD write all of it (also when write() is interrupted or takes only a part), NULL discards it, and PASS hands it to another instance so that two chained instances give what the conversion joined with | gives. The error counters do not depend on the mode and all memory is released.",
 ["inputs", "histories", "fault schedules"], "inputs of up to 5 bytes, 1 to 3 calls cut anywhere, a symbolic mode in every call, buffers of 0 to 7 bytes, any split of the first writes",
 "Tests use one mode for a whole conversion; the list of pending output is shared state between calls in different modes.",
 ["src/libbsdconv.c", "src/bsdconv.h"],
 [("delivery", "src/libbsdconv.c:bsdconv (output)"), ("chained input", "src/libbsdconv.c:bsdconv (input), src/bsdconv.h:dup_data_rt")],
 "All paths, with a twin instance that takes everything after every call as the reference." + GEN)
prop("C20", "REPLACE, INSERT, STRINGS, COUNT, PASS and NULL do what their arguments say",
 "REPLACE#from=to replaces the leftmost, non-overlapping occurrences of the listed items; INSERT puts the given items before and after every item; STRINGS keeps exactly the maximal runs of at least MIN-LEN items its filter accepts, framed as requested; COUNT adds one to the named counter for every item its filter accepts and changes nothing; PASS accepts up to LIMIT items of its filter and leaves the others to the next codec; NULL removes everything. Items marked by an output PASS#MARK are recognized as items by PASS#UNMARK of the conversion behind it. Everything else passes unchanged and in order, also at the end of the input and in a second conversion.",
 ["inputs", "configurations", "histories"], "every list of 2-3 arbitrary items, of 6 items out of 3 to 5 relevant ones, about 50 argument combinations",
 "These modules are stateful over the whole text (cursor, runs, limits); the suite has one example for each.",
 ["modules/inter/REPLACE.c", "modules/inter/INSERT.c", "modules/inter/STRINGS.c", "modules/inter/COUNT.c", "modules/inter/PASS.c", "modules/inter/NULL.c", "modules/to/PASS.c", "modules/from/PASS.c", "src/libbsdconv.c"],
 [("match cursor", "modules/inter/REPLACE.c:cbconv"), ("runs", "modules/inter/STRINGS.c:cbconv, cbflush"), ("limits and marks", "modules/*/PASS.c")],
 "All paths compared with a reference that interprets the same arguments." + GEN)
prop("C07", "No module reads or writes outside its memory, leaks or hangs, whatever it is given",
 "Every FROM module given any bytes, and every INTER and TO module given any item (characters of any length and value, items of other types, of any order), finishes every call, touches only memory it owns and has initialized, keeps every decision and every output byte independent of uninitialized or stale memory, and has released everything when the instance is destroyed; this holds when the input is cut anywhere and the output is taken in between. The error counters and the output are the same on every run.",
 ["inputs", "histories"], "every input of 3 to 4 bytes through each FROM module, every one and two items through each INTER and TO module, long items through TO modules",
 "About 170 modules with fixed-size output estimates and stack buffers; the suite feeds valid text to about a third of them.",
 ["modules/from/*.c", "modules/inter/*.c", "modules/to/*.c", "src/libbsdconv.c", "src/bsdconv.h"],
 [("output buffers sized from the item", "modules/to/*.c:cbconv, src/bsdconv.h:DATA_MALLOC"), ("state kept between bytes", "modules/from/*.c:cbconv"), ("data rows handed on and released", "src/libbsdconv.c:bsdconv")],
 "Every load and store of the real code is checked on every path against the objects allocated so far; leaks by counting live objects at the end; a sample of paths is replayed natively with the same output." + GEN)
prop("C21", "EBCDIC text with shift states is decoded and encoded consistently",
 "IBM-930, 933, 935, 937 and 939 input is read as single bytes until SO and as pairs until SI; a byte that begins no pair there counts as itself if it can, otherwise as one input error, and the bytes behind it keep their meaning (a shift in particular is never swallowed). Output puts exactly the two-byte codes between SO and SI, ends in the single-byte state, counts every character that has no code as one output error (or leaves it to the next codec) without losing its neighbours, and never writes a character as a shift code. Everything decoded from a page can be encoded again and decodes to the same text. Shift states survive a cut of the input but not bsdconv_init().",
 ["inputs", "histories"], "input of 1-4 bytes around shifts cut anywhere, every scalar value and every short item next to double-byte characters, every sequence of 6 over single, double and unmapped ones",
 "The shift state interacts with back-tracking, flush and error handling; there is no test of these code pages.",
 ["modules/from/EBCDIC.c", "modules/to/EBCDIC.c", "modules/from/IBM-930.txt", "modules/from/IBM-933.txt", "modules/from/IBM-935.txt", "modules/from/IBM-937.txt", "modules/from/IBM-939.txt", "modules/to/IBM-930.txt", "modules/to/IBM-933.txt", "modules/to/IBM-935.txt", "modules/to/IBM-937.txt", "modules/to/IBM-939.txt", "src/libbsdconv.c"],
 [("input shift state", "modules/from/EBCDIC.c:cbconv"), ("output shift state and its end", "modules/to/EBCDIC.c:cbconv, cbflush"), ("dead end behind a pending phase", "src/libbsdconv.c:bsdconv")],
 "All paths compared with a reference state machine over tries read from the table sources; output parsed back by a reference parser." + GEN)
prop("C25", "The command line tool replaces a file whole or not at all and reports every failure",
 "bsdconv -i FILE... leaves each file, at every moment (so also when it is killed), either as it was or as its complete conversion, keeping mode and owner; when opening, reading, writing, closing or renaming fails it keeps the original, removes its temporary file and exits with a non-zero status and a message, files before that one being converted and those behind it untouched. Without -i the conversions of the files (or of standard input) are printed in order, and a read or write error makes the exit status non-zero. Files do not influence each other: each is converted as on its own, and its counters are its own.",
 ["inputs", "fault schedules", "crash points", "configurations"], "one to three files with arbitrary short contents, also across input blocks, any one or two operations failing, the state after every operation",
 "Crash and fault points cannot be enumerated by running the tool on healthy files, and the tests run it on one pipe.",
 ["src/bsdconv.c", "src/libbsdconv.c"],
 [("in-place replacement", "src/bsdconv.c:main"), ("block loop and counters", "src/bsdconv.c:bsdconv_file"), ("output to a stream", "src/libbsdconv.c:bsdconv (BSDCONV_FILE)")],
 "The tool's own source compiled into the harness with its file operations renamed to a stand-in file system; all paths over contents and faults." + GEN)
prop("C29", "Instances do not influence each other",
 "Whatever conversions two instances carry out (the same one, the same modules with other arguments, or others), each delivers the output and the counters it delivers when it is alone: when their calls alternate in any order and their input is cut anywhere, when one is created, used and destroyed during the other's life, and when one runs (a call of it, or its whole life) while the other is inside a call, as happens when different threads use different instances.",
 ["inputs", "interleavings", "histories"], "short texts (arbitrary bytes behind a prefix, or small alphabets for every module that keeps a state) cut anywhere, every order of two and two calls, and every allocation or release inside a call as the place where the other instance runs",
 "State shared between instances shows only when two of them are in the middle of something; the tests use one instance per process.",
 ["src/libbsdconv.c", "src/libbsdconv_module.c", "src/libbsdconv_counter.c", "src/libbsdconv_hash.c", "modules/from/*.c", "modules/inter/*.c", "modules/to/*.c"],
 [("per-codec state", "modules/*/*.c:cbcreate, cbinit (priv)"), ("shared loading of modules and tables", "src/libbsdconv_module.c:loadcodec"), ("counters and pools", "src/libbsdconv.c:bsdconv_create, bsdconv_init")],
 "All paths over texts, cuts, call orders and switching points; switches inside a call happen at allocations and releases only." + GEN)
prop("C30", "bsdconv-mktable compiles any table source to what it says",
 "A table compiled by bsdconv-mktable from any well-formed source does, when the library uses it in the input, intermediate or output phase, exactly what the lines of the source say: text is replaced by the data of its longest key (lists of items as such), of lines with the same key the first plain one counts, else the first ? one; a ! line matches ASCII letters in both cases behind an exact line; a * stands for any byte; a ? line hands over to the module's callback with the line's own data, whatever other ? lines there are, and keys longer than it still work; separators, line ends, remarks and blank lines do not matter. Text that is no key is counted (input, output) or passed on (intermediate).",
 ["inputs", "configurations"], "every table of 2 to 4 lines with keys of 1 to 3 over two letters, and every text of 2 to 3 bytes or characters through it in each phase",
 "The order of lines decides how states are split, shared and converted; the tests use shipped tables with one order, and the ends of keys they do not have in common.",
 ["src/bsdconv-mktable.c", "src/libbsdconv.c", "src/libbsdconv_module.c"],
 [("states, sharing and levels", "src/bsdconv-mktable.c:main"), ("shared data and callbacks", "src/bsdconv-mktable.c:hash, hash_callback"), ("use of the table", "src/libbsdconv.c:bsdconv")],
 "The tool's own source, compiled into the harness with its file operations renamed, writes the table to memory from which the library loads it; all paths over table sources and texts, compared with a reference that reads the lines." + GEN)
prop("C31", "Modules are found by their names: list, check, aliases and loading agree",
 "bsdconv_modules_list names exactly the modules and aliases of a type that are installed, in order of their bytes, and only the aliases where the directory cannot be read; bsdconv_module_check says yes exactly to the modules installed, in any mixture of cases, and no to everything else: empty names, names with path separators or dots, over-long names and types that do not exist. Every name that is listed can be used in a conversion, an alias means what the alias file says - in any mixture of cases and with its arguments handed to every module it stands for -, and no other name stands for a module. A name too long for a path is refused, and looking for modules never changes the working directory of the process or leaks a directory or file.",
 ["inputs", "configurations"], "every directory of up to 3 entries of 16 kinds, every name of up to 4 bytes, every installed alias in three spellings",
 "Names are arbitrary bytes from users and directories come in any order; the tests list modules once, and check two names.",
 ["src/libbsdconv.c", "src/libbsdconv_module.c", "src/libbsdconv_util.c", "src/libbsdconv_filter.c", "src/libbsdconv_scorer.c"],
 [("list", "src/libbsdconv_module.c:bsdconv_modules_list"), ("check", "src/libbsdconv_module.c:bsdconv_module_check"), ("aliases", "src/libbsdconv_util.c:bsdconv_solve_alias"), ("path of a module", "src/libbsdconv_util.c:getModulePath")],
 "List and check run over a stand-in module directory with symbolic entries, aliases and loading over the installed one, on all paths; compared with a reference that reads the entries and the alias files." + GEN)
prop("C32", "Logs and trained scores record exactly what passed",
 "BSDCONV-LOG in the input writes every byte and in the output every item of the conversion to its file, in order and whatever the chunks, passes all of it on unchanged, and is refused as a module when its file is not named or cannot be opened; BSDCONV-OUTPUT writes every item of the conversion to the standard stream it is told to use and nothing to the other one. SCORE-TRAIN adds to the score of each character it passes exactly one per appearance (up to three), of no other, passes the text on unchanged and closes its file, SCORE#WITH=TRAINED counts the scores of the characters as the file has them, or nothing where it has none or is missing.",
 ["inputs", "chunkings", "faults"], "every text of up to 3 characters or bytes, every cut, two earlier scores, four ways to name the file, up to 2 opens failing",
 "A log that loses an item or a score added to a neighbour is invisible in the converted text, which is all the tests look at.",
 ["modules/from/BSDCONV-LOG.c", "modules/to/BSDCONV-LOG.c", "modules/to/BSDCONV-OUTPUT.c", "modules/inter/SCORE-TRAIN.c", "modules/inter/SCORE.c"],
 [("log of the input", "modules/from/BSDCONV-LOG.c:cbconv"), ("log of the output", "modules/to/BSDCONV-LOG.c:cbconv"), ("items on a standard stream", "modules/to/BSDCONV-OUTPUT.c:cbcreate, cbconv"), ("training", "modules/inter/SCORE-TRAIN.c:cbconv"), ("scoring", "modules/inter/SCORE.c:cbconv")],
 "The modules run with stand-in files that record opens, seeks, reads, writes and closes; all paths over texts, cuts and failing opens are compared with a reference that counts." + GEN)
prop("C33", "bsdconv-man shows the page that is asked for and bsdconv-completion every name that fits",
 "bsdconv-man prints the page of exactly the module that is named, whole and whatever it contains or how the name is spelled, the page it is redirected to, what an alias stands for, or that there is no page or no such module, also when the modules lie below a relative path, and answers every other use with its usage and a failure. bsdconv-completion prints, for any beginning of a conversion, every module that can follow in its phase exactly once, each as a continuation of what was typed, and nothing else.",
 ["inputs", "configurations"], "every page of up to 3 bytes and around the size of a buffer, every name of up to 2 bytes, every beginning of up to 4 characters",
 "Neither tool is run by the tests; pages may be empty or longer than a buffer, names unknown, and arguments empty.",
 ["src/bsdconv-man.c", "src/bsdconv-completion.c"],
 [("page, redirection, alias", "src/bsdconv-man.c:man"), ("arguments", "src/bsdconv-man.c:main"), ("suggestions", "src/bsdconv-completion.c:main, item_in_array")],
 "Both tools' own sources are compiled into the harness with input and output renamed; all paths over pages, names and beginnings, compared with a reference." + GEN)
prop("C34", "ANY, RAW and the HTML links put out what they are asked for",
 "ANY stands for everything it is given with exactly the data of its argument - the last of several, nothing for DROP, a question mark without one -, in the input as in the output and behind other modules of a list, and counts each replacement exactly once in the counter that is named, in IERR or OERR for ERROR alone, and in none without it. RAW puts out the data of every item without its type. The ASCII-HTML modules put out a link that spells the code of the character, and leave everything they have no link for to be counted as an error.",
 ["inputs", "configurations"], "all pairs of items of up to 4 arbitrary bytes, all 3 byte inputs cut anywhere, 14 arguments",
 "The modules take whatever the others leave, which is any type and any length; the tests use one character and one argument.",
 ["modules/to/ANY.c", "modules/from/ANY.c", "modules/to/RAW.c", "modules/to/ASCII-HTML-INFO.c", "modules/to/ASCII-HTML-UNICODE-IMG.c"],
 [("replacement of output", "modules/to/ANY.c:cbconv"), ("replacement of input", "modules/from/ANY.c:cbconv"), ("raw data", "modules/to/RAW.c:cbconv"), ("links", "modules/to/ASCII-HTML-INFO.c:cbconv, modules/to/ASCII-HTML-UNICODE-IMG.c:cbconv")],
 "Arbitrary items enter through PASS, arbitrary bytes through ANY itself; all paths compared with the data of the argument and the spelled link." + GEN)
prop("C35", "Control sequences are cut out of the text whole and never split a character",
 "ANSI-CONTROL takes a control sequence - an escape character, [ and everything up to a letter other than O, at most 30 bytes; or an escape character and one other byte - out of the input as one item, wherever the input is cut into chunks, and leaves everything else, sequences that do not end included, to the codecs behind it; text behind an unfinished sequence is read as if nothing had been before it. BIG5-DEFRAG passes all items on in their order, but for the sequences between a byte above 7F and the next item that is none: they follow that item. ANSI-CONTROL as an output puts out what was taken.",
 ["inputs", "chunkings"], "every string of up to 5 bytes, sequences of 27 to 33 bytes, combinations of up to 4 characters and sequences, every cut, two texts in a row; items of up to 3 arbitrary bytes",
 "Terminal text arrives in arbitrary pieces, with sequences between the two bytes of a character; the tests know one short sequence in one piece.",
 ["modules/from/ANSI-CONTROL.c", "modules/inter/BIG5-DEFRAG.c", "modules/to/PASS.c", "modules/filter/ANSI.c", "src/libbsdconv.c"],
 [("recognition", "modules/from/ANSI-CONTROL.c:cbconv"), ("reordering", "modules/inter/BIG5-DEFRAG.c:cbconv,cbflush")],
 "All paths over symbolic bytes compared with a recognizer and a reordering written from the description; the input cut anywhere and flushed between texts." + GEN)
prop("C36", "Bonus tables change the score and nothing else",
 "ZH-BONUS and ZH-BONUS-PHRASE leave every text as it is and add to the counter SCORE exactly the sum of the bonuses their tables list for the characters and phrases that occur in it, the phrases taken from the left; characters that only begin like a listed one are not taken for it, and a list of both prefers the first.",
 ["inputs"], "every entry, the beginnings of entries before every character, every character before entries, every single character",
 "The score decides between encodings and has to be exact for the whole repertoire; no test looks at it.",
 ["modules/inter/BONUS.c", "modules/inter/ZH-BONUS.c", "modules/inter/ZH-BONUS-PHRASE.c", "modules/inter/ZH-BONUS.txt", "modules/inter/ZH-BONUS-PHRASE.txt", "src/libbsdconv.c"],
 [("bonus", "modules/inter/BONUS.c:cbconv"), ("callbacks of tables", "src/libbsdconv.c:bsdconv")],
 "The listed sources are read by an independent parser into a reference trie; all paths over symbolic characters compared with it in text and score." + GEN)
prop("C37", "An instance can be used for any number of texts without growing",
 "However often an instance is used - begun anew for every text, some of them given up half way - each text gives exactly the same output and the same counts as a new instance gives for it, and the memory the instance holds does not depend on how much it has converted before; while a text goes on, and its output is taken piece by piece, codecs that hold nothing back need no more memory for more text; and destroying it releases everything.",
 ["inputs", "histories"], "28 conversions over all kinds of codecs, 200 to 1500 uses of one instance, a text with one arbitrary byte",
 "Servers keep instances for as long as they run; a growth by one item for each text is released in the end and so is no leak that a tool or a test would show.",
 ["src/libbsdconv.c", "src/bsdconv.h", "modules/inter/TRIM-WIDTH.c", "modules/inter/ALIAS-FROM.c", "modules/inter/_NFC.c"],
 [("pool of items", "src/bsdconv.h:DATA_MALLOC, DATUM_FREE, dup_data_rt"), ("inner instances", "modules/inter/TRIM-WIDTH.c:cbconv"), ("begin anew", "src/libbsdconv.c:bsdconv_init")],
 "All paths over the byte and the history; the count of live allocations is compared after 20 uses and at the end, output and counters with those of a new instance." + GEN)
