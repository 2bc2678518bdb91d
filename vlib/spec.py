"""Texts of the properties; tools/gen.py writes properties.jsonl and MANIFEST.json from them."""
HL = ['src/main/cpp/lang/*.cpp', 'include/ulight/impl/highlighter.hpp', 'include/ulight/impl/highlight.hpp', 'src/main/cpp/ulight.cpp']
TESTS = 'The tests highlight a few hundred fixed files and compare with stored tokens; '
SPEC = {}


def P(pid, title, statement, over, text, why, files, mech, state=(), note=None):
    SPEC[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, note=note)


P('H01', 'Every call to the highlighter ends with a documented status',
  'Highlighting any byte string in any supported language, with any flags and with properly set up buffers, terminates and returns a status. The status is "ok", or "bad text" for a source that is not well-formed UTF-8; it is never "internal error" or "bad code", and no memory is left allocated.',
  ['inputs', 'configurations'], 'every source text, every language, every combination of flags',
  TESTS + 'no fixed set of files reaches the truncated, nested and ill-formed inputs on which a hand-written scanner stops making progress or trips over its own assertion.',
  HL, [('Progress and range assertions of the highlighters', 'include/ulight/impl/highlighter.hpp: Highlighter_Base::advance, emit'), ('Conversion of exceptions to statuses', 'src/main/cpp/ulight.cpp: ulight_source_to_tokens')])
P('H02', 'Tokens are non-empty, in range, ordered, disjoint and of a defined type',
  'Every token handed to the caller has a positive length, lies within the source, starts no earlier than the end of the token before it, and carries a defined highlight type other than "none".',
  ['inputs', 'configurations'], 'every source text, every language, every combination of flags',
  TESTS + 'they do not check the tokens of any other source, and truncated literals, comments and escapes are where a length runs past the end.',
  HL, [('Emission of tokens', 'include/ulight/impl/highlighter.hpp: Highlighter_Base::emit'), ('Scanners that compute lengths', 'src/main/cpp/lang/*.cpp: match_* functions')])
P('H03', 'Highlighting touches only the source, the token buffer and memory it owns',
  'While highlighting, the library reads only the bytes of the source it was given and static data, writes only to the token buffer and memory it allocated itself, never uses an uninitialised value, and frees what it allocates. It does not rely on the source being null-terminated.',
  ['inputs', 'configurations'], 'every source text in an exactly sized buffer, every language, flags and token buffer capacity',
  TESTS + 'an out-of-bounds read of one byte goes unnoticed without a sanitizer, and happens only on sources that end in the middle of a construct.',
  HL, [('Bounds of string views', 'src/main/cpp/lang/*.cpp'), ('Buffer capacity', 'include/ulight/impl/buffer.hpp: Non_Owning_Buffer')])
P('H04', 'The result does not depend on the size of the token buffer',
  'For a given source, language and flags, the status is the same for every token buffer capacity of at least one, and where it is ok, so is the sequence of tokens delivered.',
  ['inputs', 'configurations'], 'every source text, every language, flags, every pair of buffer capacities',
  'The tests use one buffer size; a highlighter that changes or looks at tokens already handed over only misbehaves when a flush happens in exactly that place.',
  HL + ['include/ulight/impl/buffer.hpp'], [('Flushing', 'include/ulight/impl/buffer.hpp: Non_Owning_Buffer::flush'), ('Changing the last token', 'include/ulight/impl/highlighter.hpp: emit with coalescing')])
P('H05', 'The flush callback sees each token once, in full buffers, then one rest',
  'The flush callback is invoked with the caller\'s data pointer, the caller\'s buffer and a count between one and the capacity; every call but the last delivers a full buffer, nothing is delivered twice or lost, and nothing is read back from the buffer afterwards. Neither the memory around the buffer nor the caller\'s settings are modified.',
  ['inputs', 'configurations', 'histories'], 'every source text, every language, flags, buffer capacity and sequence of flushes',
  'The tests collect tokens with one buffer size and never look at the individual calls.',
  HL + ['include/ulight/impl/buffer.hpp'], [('Flush protocol', 'include/ulight/impl/buffer.hpp: push_back, emplace_back, flush'), ('Final flush', 'src/main/cpp/ulight.cpp: ulight_source_to_tokens')])
P('H06', 'Coalescing merges touching tokens of one type and changes nothing else',
  'With the coalescing flag, every byte is highlighted as without it, the status is the same, and there are never more tokens. When nothing is flushed in between and the language embeds no other language, no two touching tokens of the result have the same type.',
  ['inputs', 'configurations'], 'every source text, every language, strict or not',
  TESTS + 'each of them is run with one fixed setting of the flags, so the two results are never compared.',
  HL, [('Coalescing', 'include/ulight/impl/highlighter.hpp: Highlighter_Base::emit'), ('Flag conversion', 'src/main/cpp/ulight.cpp: to_options')])
P('H07', 'Highlighting is a function of source, language and flags alone',
  'Repeating a call, also after highlighting other text in another language, gives the same status and tokens. Languages that are documented to be the same (TeX and LaTeX; JSON with and without comments, for text without a slash) give the same tokens, and plain text gives none.',
  ['inputs', 'histories'], 'every source text, every language, every earlier call',
  'The tests highlight each file once; hidden state between calls would only show for particular pairs of sources.',
  HL, [('Absence of static state', 'src/main/cpp/lang/*.cpp'), ('Dispatch by language', 'include/ulight/impl/highlight.hpp')])
API = ['src/main/cpp/ulight.cpp', 'include/ulight/ulight.h', 'include/ulight/ulight.hpp']
P('H08', 'HTML output is the source with its tokens as elements, escaped',
  'The HTML conversion delivers exactly the source text, with "<", ">" and "&" escaped, in which every token is enclosed in an element of the given tag name, whose attribute of the given name is the short string of the token type. It ends with the same status as tokenizing. The text callback gets the caller\'s data pointer, the caller\'s buffer and full buffers, but for the last.',
  ['inputs', 'configurations'], 'every source text, every language, flags, tag and attribute names, token and text buffer capacities',
  'The tests compare the HTML of their fixed files, with one buffer size and the default names; losing text around a flush or at the end needs a particular length.',
  API + ['include/ulight/impl/buffer.hpp'], [('Conversion', 'src/main/cpp/ulight.cpp: ulight_source_to_html'), ('Escaping', 'src/main/cpp/ulight.cpp: append_html_escaped')])
P('H09', 'Bad arguments are reported as documented and nothing else happens',
  'With an invalid language, "bad lang"; with missing or empty buffers or callbacks, "bad buffer"; with a missing source, tag or attribute name, "bad state" is returned (any of them, if several are wrong), with an error text and without any callback; if nothing is wrong, none of them is. A fresh state has the documented defaults whatever its memory held, and creating one fails exactly when memory runs out.',
  ['inputs', 'configurations', 'fault_sequences'], 'every combination of missing and present members of the state, every numeric language value',
  'The tests never pass bad arguments.',
  API, [('Checks', 'src/main/cpp/ulight.cpp: ulight_source_to_tokens, ulight_source_to_html'), ('Defaults', 'src/main/cpp/ulight.cpp: ulight_init, ulight_new')])
P('H10', 'A failure in the middle is reported and leaves nothing behind',
  'If an allocation fails while highlighting, or a callback of the caller throws std::bad_alloc, the call returns "bad alloc"; if a callback throws anything else, "internal error"; in both cases with an error text, without invoking a callback again, and all memory it had allocated is freed. Otherwise it returns neither. The state object can be used again afterwards.',
  ['inputs', 'fault_sequences'], 'every source text, every language, every single failing allocation or callback, tokens and HTML',
  'No test makes an allocation or a callback fail.',
  HL, [('Translation of exceptions', 'src/main/cpp/ulight.cpp: ulight_source_to_tokens, ulight_source_to_html'), ('Memory resource', 'include/ulight/impl/memory.hpp')])
P('H12', 'The C++ wrapper stores what it is given and behaves like the C functions',
  'Each setter of ulight::State changes exactly the members it is named after, to the values given, and leaves all others; each getter returns them; callbacks are invoked with exactly the arguments given. Highlighting through the wrapper gives the same status and tokens as the C function.',
  ['inputs', 'histories'], 'every state, every operation, every argument',
  'The tests use a few of the setters once each, always in the same order.',
  ['include/ulight/ulight.hpp', 'include/ulight/function_ref.hpp'], [('Setters and getters', 'include/ulight/ulight.hpp: State'), ('Callbacks', 'include/ulight/function_ref.hpp: Function_Ref')])
P('R01', 'Languages are found by the names and file extensions documented for them',
  'Looking up a name gives the language for which the README lists it, and none for any other text; a path is looked up by what follows its last dot; the published list is sorted and complete. Every valid language has its display name, and no other value has one. The char8_t variants and the C++ functions agree.',
  ['inputs'], 'every name, path and language value',
  'The tests look up a few names; a binary search over a list fails for particular names only.',
  API, [('Lookup', 'src/main/cpp/ulight.cpp: ulight_get_lang, ulight_lang_from_path'), ('Tables', 'src/main/cpp/ulight.cpp: ulight_lang_list, ulight_lang_display_names')])
P('R02', 'Highlight type strings are as documented, and distinct',
  'The long string of every highlight type is its enumerator in lower case with hyphens; short strings consist of lower-case letters, digits and underscores; no two types share a string; all are null-terminated; values that are no highlight type have none. All variants agree.',
  ['inputs'], 'every pair of type values',
  'The tests never look at most of the 135 types; themes silently stop applying when two of them share a string.',
  API, [('Table', 'include/ulight/ulight.hpp: ULIGHT_HIGHLIGHT_TYPE_ENUM_DATA')])
P('H13', 'Tokens of a well-formed source never cut a code point in two',
  'When the source is well-formed UTF-8, highlighting it succeeds and every token begins and ends between two code points, so that each piece of highlighted text is itself well-formed.',
  ['inputs', 'configurations'], 'every well-formed UTF-8 source, every language, flags',
  TESTS + 'which are mostly ASCII; a scanner that steps over "the next character" by one byte goes unnoticed.',
  HL, [('Advancing by a code point', 'src/main/cpp/lang/*.cpp: utf8::decode_and_length_or_replacement'), ('Errors and escapes of a fixed length', 'src/main/cpp/lang/*.cpp: emit_and_advance(1, Highlight_Type::error)')])
JF = ['src/main/cpp/lang/json.cpp', 'include/ulight/json.hpp']
P('J01', 'The JSON parser accepts exactly the JSON grammar',
  'Parsing succeeds exactly for the texts of the JSON grammar (RFC 8259), and, when comments are allowed, for those with JavaScript line and block comments where whitespace may stand. The other options do not change what is accepted.',
  ['inputs', 'configurations'], 'every text, every combination of parsing options',
  'The tests parse a handful of documents; a grammar is decided by the infinitely many near misses, such as text after the value, misplaced commas and malformed numbers.',
  JF, [('Recursive descent', 'src/main/cpp/lang/json.cpp: parser')])
P('J02', 'JSON events describe the accepted document exactly',
  'For an accepted document, the visitor sees exactly the document\'s values, member names, string pieces, escapes, numbers and comments, in order and properly nested, each with its exact text, offset, line and offset within the line. Escapes are reported with the value they stand for, encoded on request, and numbers are converted from exactly their own text.',
  ['inputs', 'configurations'], 'every accepted document, every combination of parsing options',
  'The tests compare the events of a few documents, without most of the positions.',
  JF, [('Visitor calls', 'src/main/cpp/lang/json.cpp: parser'), ('Position tracking', 'src/main/cpp/lang/json.cpp: advance')])
P('J03', 'A failed JSON parse reports exactly one error, at the right place',
  'Parsing returns failure exactly when it has reported one error, which is the last event; what was reported before it is correct. The position of the error lies in the source and its line and offset in the line match its offset; a comment that is not allowed, and nothing else, is reported as such.',
  ['inputs', 'configurations'], 'every text, every combination of parsing options',
  'The tests provoke a few kinds of error in one place each.',
  JF, [('Error reporting', 'src/main/cpp/lang/json.cpp: error calls'), ('Position tracking', 'src/main/cpp/lang/json.cpp: advance')])
P('J04', 'The JSON parser touches only its input and frees what it allocates',
  'Parsing terminates, reads only the bytes of the text it was given and leaves no memory allocated, whatever the text and options.',
  ['inputs', 'configurations'], 'every text in an exactly sized buffer, every combination of parsing options',
  'The tests parse null-terminated literals without a sanitizer.',
  JF, [('Bounds of string views', 'src/main/cpp/lang/json.cpp'), ('Number conversion', 'src/main/cpp/lang/json.cpp: parse numbers')])
P('J05', 'JSON highlighting classifies every character of a valid document correctly',
  'In a valid JSON document (JSON with comments, for that language), every character of a member name, string, escape, number, literal, bracket, separator and comment is highlighted with the type of that construct, whitespace is not highlighted, and nothing is marked as an error.',
  ['inputs', 'configurations'], 'every valid document, strict or not',
  TESTS + 'which has a handful of JSON files.',
  JF, [('JSON highlighter', 'src/main/cpp/lang/json.cpp: Highlighter')])

UF = ['include/ulight/impl/unicode.hpp', 'include/ulight/impl/unicode_algorithm.hpp']
P('U01', 'One UTF-8 sequence is decoded and encoded as Unicode specifies',
  'Decoding the start of a text succeeds exactly when a well-formed UTF-8 sequence (Unicode Table 3-7) stands there and gives its code point and length; otherwise the kind of error is right and the replacing variants give U+FFFD and skip the maximal ill-formed part. Encoding a code point gives the shortest sequence, which decodes to it again.',
  ['inputs'], 'every byte string, every code point',
  'The tests decode a dozen sequences; overlong forms, surrogates, truncation and the limits of each length are separate cases.',
  UF, [('Decoding', 'include/ulight/impl/unicode.hpp: decode_and_length'), ('Validity by bit masks', 'include/ulight/impl/unicode.hpp: is_valid, sequence_length'), ('Encoding', 'include/ulight/impl/unicode.hpp: encode8_unchecked')])
P('U02', 'Validation, iteration and search agree with decoding one sequence at a time',
  'A text is judged valid exactly when it is a sequence of well-formed UTF-8 sequences; iterating over a valid text gives its code points in order and fails for an invalid one; finding, counting and testing code points by a predicate gives what decoding step by step, with replacement, gives.',
  ['inputs'], 'every byte string, every predicate that compares with a code point',
  'The tests use a few short texts.',
  UF, [('Iteration', 'include/ulight/impl/unicode.hpp: Code_Point_Iterator, Code_Point_View, is_valid'), ('Search', 'include/ulight/impl/unicode_algorithm.hpp')])
P('U03', 'Character properties match the Unicode standard',
  'XID_Start, XID_Continue, surrogates, noncharacters, private use characters, scalar values and the ASCII classes derived from them are decided for every 32-bit value as Unicode 15.1 defines them.',
  ['inputs'], 'every 32-bit value',
  'The tests look at a few characters; one wrong bound in a table of hundreds of ranges goes unnoticed.',
  ['include/ulight/impl/unicode_chars.hpp', 'src/main/cpp/chars.cpp'], [('Tables of ranges', 'src/main/cpp/chars.cpp: XID_Start, XID_Continue_Minus_XID_Start'), ('Predicates', 'include/ulight/impl/unicode_chars.hpp')])

# ------------------------------------------------------------------ what the highlighters are built of, files and the tool
P('A01', 'ASCII classes, character sets and ASCII text search mean what they say',
  'Every ASCII predicate holds for exactly the characters of its documented class, for bytes and for 32-bit characters alike, and agrees with its character set; case conversion changes exactly the ASCII letters. Set operations, comparison, and adding or removing elements and ranges give the set-theoretic result for every character. Searching, measuring and comparing ASCII text, also without regard to case, gives what looking at one character after the other gives.',
  ['inputs'], 'every character, every content of two sets, every text',
  'The tests look at no set operations and at few characters; one wrong boundary in a class or one wrong shift in a bitset changes what many highlighters accept.',
  ['include/ulight/impl/ascii_chars.hpp', 'include/ulight/impl/charset.hpp', 'include/ulight/impl/ascii_algorithm.hpp'],
  [('Character sets', 'include/ulight/impl/charset.hpp: Charset'), ('Predicates', 'include/ulight/impl/ascii_chars.hpp: is_ascii_*'), ('Search', 'include/ulight/impl/ascii_algorithm.hpp: find_if, length_if, compare_to_lower')])
P('N01', 'Numeric literals are recognised, divided and evaluated as specified',
  'A run of digits of a base ends at the first other character, and its separators are erroneous exactly when leading, trailing or repeated where that is not allowed; a number with a base suffix is recognised exactly when it has one. A common number consists of an allowed sign, prefix, digits, fraction, exponent and suffix, each as long as the text allows; something that has neither prefix nor digits, or no prefix and a separator first (like an identifier), is no number; it is erroneous exactly when a required part is missing or separators are misplaced. Integer literals are accepted exactly when the whole text is one and its value fits, and then give that value.',
  ['inputs', 'configurations'], 'every text, base and combination of options',
  'The tests parse a few literals; the combinations of prefix, missing digits, separators, exponents and suffixes, and the limits of 64 bits, are separate cases.',
  ['include/ulight/impl/numbers.hpp', 'src/main/cpp/parse_utils.cpp', 'include/ulight/impl/parse_utils.hpp'],
  [('Digits', 'src/main/cpp/parse_utils.cpp: match_separated_digits, match_digits'), ('Common numbers', 'src/main/cpp/parse_utils.cpp: match_common_number; include/ulight/impl/numbers.hpp: match_suffix_number'), ('Integer literals', 'include/ulight/impl/parse_utils.hpp: parse_uinteger_literal, parse_integer_literal')])
P('L01', 'Lines, blank lines, enclosed text and escapes end where specified',
  'A line ends before the first LF, CR or CRLF; the first sequence of blank lines is found and covers whole lines only; enclosed text ends with the first closing character or suffix, and otherwise at the end, not terminated; an escape of each common kind has the length of its digits or braces and is erroneous exactly when digits are missing, wrong or not terminated, without ever ending inside a code point.',
  ['inputs'], 'every text, every delimiter',
  'The tests cover blank lines and a few line ends only.',
  ['include/ulight/impl/parse_utils.hpp', 'include/ulight/impl/escapes.hpp', 'src/main/cpp/parse_utils.cpp'],
  [('Lines', 'src/main/cpp/parse_utils.cpp: find_blank_line_sequence, match_crlf_line'), ('Escapes', 'include/ulight/impl/escapes.hpp: match_common_escape'), ('Enclosed text', 'include/ulight/impl/parse_utils.hpp: match_enclosed')])
P('B01', 'Buffers deliver every element once; function references call their target',
  'Whatever sequence of elements, ranges, flushes and clears a buffer is given, its callback receives every element that was not cleared exactly once and in order, always from the start of the buffer; it is called only when the buffer is full or on request, never without elements, and size, room and last element are always right. A function reference calls the function, object or member it was made of with the given arguments and returns its result, also when copied; an empty one says so.',
  ['inputs', 'histories'], 'every sequence of operations, every element and argument',
  'The tests never use the buffer directly and call function references in one or two ways.',
  ['include/ulight/impl/buffer.hpp', 'include/ulight/function_ref.hpp'],
  [('Buffer', 'include/ulight/impl/buffer.hpp: Non_Owning_Buffer'), ('References', 'include/ulight/function_ref.hpp: Function_Ref')])
P('D01', 'A line diff is a shortest one and its hunks turn one text into the other',
  'Splitting at line ends gives the lines of a text, and the edit script between two sequences of lines turns the first into the second with as few insertions and deletions as possible. The printed diff is empty exactly for equal texts; otherwise its hunks are in order, do not touch, have as much context as asked for, count their lines correctly and reproduce both texts; colours add nothing but colour codes.',
  ['inputs'], 'every pair of texts, every amount of context',
  'The tests diff a handful of texts; hunk headers, merging of hunks and the ends of texts are off-by-one territory.',
  ['include/ulight/impl/string_diff.hpp'],
  [('Edit script', 'include/ulight/impl/string_diff.hpp: shortest_edit_script'), ('Hunks', 'include/ulight/impl/string_diff.hpp: print_lines_diff')])
P('I01', 'Files are loaded whole or not at all, and closed exactly once',
  'Loading a file gives exactly its bytes, or the documented error: when it cannot be opened, when reading fails, or, for text, when it is not well-formed; what the vector already held stays. Every file that was opened is closed exactly once, by the object that owns it, whatever is moved, swapped, released or assigned.',
  ['inputs', 'fault_sequences', 'histories'], 'every file content and length, every failure, every sequence of ownership operations',
  'The tests load existing files only; failing reads, block boundaries and ownership are not tested.',
  ['include/ulight/impl/io.hpp', 'src/main/cpp/io.cpp'],
  [('Reading in blocks', 'src/main/cpp/io.cpp: file_to_bytes_chunked'), ('Ownership', 'include/ulight/impl/io.hpp: Unique_File')])
P('C01', 'The command line tool succeeds exactly when the whole output was written',
  'The tool exits with success exactly when the language was recognised, the file loaded, and the whole HTML of it written, to the named file or standard output, and then there is no message. Otherwise it exits with failure and a message, and the output file is not even opened unless the input was loaded. All files are closed.',
  ['inputs', 'fault_sequences'], 'every file content, path, and failure of opening, reading or writing',
  'There are no tests of the tool; ignoring a failed write makes a truncated page look like success.',
  ['src/main/cpp/main.cpp', 'src/main/cpp/io.cpp'],
  [('Exit status', 'src/main/cpp/main.cpp: main'), ('Writing', 'src/main/cpp/main.cpp: on_flush_text_lambda')])

P('K01', 'Comments extend exactly to their end, and leave everything else alone',
  'In each of 19 languages, a comment extends to the end its language defines (the line end or first closing delimiter, nested, continued or with a long bracket where the language has these) or the end of the source; its delimiters are highlighted as comment-delim and all else in it as comment. What is before and after is highlighted exactly as if a space stood there instead.',
  ['inputs'], 'every content of the comment and what follows it',
  'The tests have a few comments per language; where a comment ends at a quote, star, CR, backslash, nested or half a delimiter is the typical mistake, and then all code after it is wrong.',
  ['src/main/cpp/lang', 'src/main/cpp/parse_utils.cpp'],
  [('C++', 'src/main/cpp/lang/cpp.cpp: match_line_comment, match_block_comment'), ('JavaScript', 'src/main/cpp/lang/js.cpp: match_line_comment, highlight_block_comment'), ('Lua', 'src/main/cpp/lang/lua.cpp: match_block_comment'), ('YAML', 'src/main/cpp/lang/yaml.cpp: consume_comment'), ('Rust, Kotlin', 'src/main/cpp/parse_utils.cpp: match_enclosed_nested')])
P('K02', 'String literals extend exactly to their end, and leave everything else alone',
  'In each of 19 languages, a string literal (plain, raw, multi-line, prefixed, of each delimiter) extends to its first closing delimiter that is not escaped, the line end where its language does not allow lines in it, or the end of the source. Delimiters, prefixes, text and simple escapes in it are highlighted as such; what is before and after is highlighted exactly as after any other string of that kind.',
  ['inputs'], 'every content of the string and what follows it',
  'The tests have a few strings per language; a quote after a backslash, an incomplete escape or a CRLF can swallow the closing quote and turn the rest of the file inside out.',
  ['src/main/cpp/lang', 'include/ulight/impl/escapes.hpp'],
  [('C++', 'src/main/cpp/lang/cpp.cpp: consume_char_sequence_and_suffix, consume_raw_string_and_suffix'), ('JavaScript', 'src/main/cpp/lang/js.cpp: match_string_literal, consume_template'), ('Python', 'src/main/cpp/lang/python.cpp: consume_string'), ('Bash', 'src/main/cpp/lang/bash.cpp: consume_double_quoted_string'), ('Escapes', 'include/ulight/impl/escapes.hpp: match_common_escape')])
P('K03', 'Exactly the words that a language defines as keywords are highlighted as such',
  'In eleven languages, a word (of letters, digits and underscores) is highlighted as a control flow keyword, other keyword, builtin type, Boolean, null or self-reference if its language defines it as that, and as a name if it is not a keyword of its language, whatever comes before or after it. In C and C++, keywords of compilers and of the other language are highlighted as well, except in strict mode. In NASM, registers and types are recognised in either case, operands of jumps are labels, and in CSS, functions are names of functions, except for url.',
  ['inputs'], 'every word',
  'The tests use a fraction of the keywords, and hardly a word that resembles one; an omitted, misspelt or misplaced entry in the (binary searched) tables shows only for that word.',
  ['src/main/cpp/lang', 'include/ulight/impl/lang'],
  [('C++', 'src/main/cpp/lang/cpp.cpp: expect_identifier_or_keyword'), ('JavaScript', 'src/main/cpp/lang/js.cpp: js_token_type_by_code'), ('Tables', 'include/ulight/impl/lang/{cpp,js,java,kotlin,rust,python,lua}.hpp'), ('LLVM', 'src/main/cpp/lang/llvm.cpp: classify_keyword'), ('NASM', 'src/main/cpp/lang/nasm.cpp: consume_identifier'), ('Leading underscores', 'src/main/cpp/parse_utils.cpp: match_common_number')])
P('K04', 'Numbers extend exactly to their end and are divided into their parts',
  'In 13 languages, every numeric literal that the language allows is highlighted as a number from its first to its last character: its digits as such, separators, the point and exponents as delimiters, prefixes and suffixes as decoration (Lua, YAML and CSS: as a whole), and no part of it as an error. What follows, such as an operator, the dots of a range or a member access, is not highlighted as a part of it.',
  ['inputs'], 'every numeric literal',
  'The tests use a few literals per language; which separators, empty parts and suffixes are allowed, and what a point or letter after digits means, differs in each language.',
  ['src/main/cpp/lang', 'include/ulight/impl/numbers.hpp', 'src/main/cpp/parse_utils.cpp'],
  [('Common numbers', 'src/main/cpp/parse_utils.cpp: match_common_number'), ('C and C++', 'src/main/cpp/lang/cpp.cpp: highlight_pp_number'), ('Lua', 'src/main/cpp/lang/lua.cpp: match_number'), ('CSS', 'src/main/cpp/lang/css.cpp: match_number, consume_numeric_token'), ('NASM', 'src/main/cpp/lang/nasm.cpp: expect_number'), ('Rust', 'src/main/cpp/lang/rust.cpp: match_number'), ('Kotlin', 'src/main/cpp/lang/kotlin.cpp: match_number'), ('LLVM', 'src/main/cpp/lang/llvm.cpp: expect_number')])
P('K05', 'Embedded code is highlighted like the same code elsewhere, up to its end',
  'Code within a string or markup (template literals and JSX in JavaScript, templates in Kotlin strings, substitutions in Bash, scripts and style sheets in HTML) is highlighted exactly like the same code outside of it, between two delimiters highlighted as such. It ends at the delimiter that its language defines, and not at one within a string, comment, block or nested template, and what surrounds it is highlighted as it would be with other code in between. References to names in strings ($name) extend exactly to the end of the name, and any other $ is text; elements like textarea contain only text and character references.',
  ['inputs'], 'every piece of code and every context',
  'The tests have hardly any nested delimiters; every combination of outer and inner construct is one where the highlighter must keep the right state and come back to it.',
  ['src/main/cpp/lang'],
  [('JavaScript templates', 'src/main/cpp/lang/js.cpp: consume_template, consume_js_before_closing_brace'), ('JSX', 'src/main/cpp/lang/js.cpp: consume_jsx_children_and_closing_tag, match_jsx_braced'), ('Kotlin', 'src/main/cpp/lang/kotlin.cpp: consume_brace_balanced_tokens'), ('Bash', 'src/main/cpp/lang/bash.cpp: consume_substitution, consume_commands'), ('HTML', 'src/main/cpp/lang/html.cpp: consume_nested_css_or_js, match_raw_text')])

P('K06', 'Operators and brackets are highlighted one by one, each as such',
  'In 13 programming languages, a sequence of operators, brackets and punctuation is divided as its language does it, which takes the longest operator first, and each is exactly one token: operators are highlighted as such, brackets by their kind (also digraphs), and punctuation as a symbol. None of it is highlighted as an error or as a part of the words before or after it. This holds for operators that contain a word (!in), and for those characters (%, $) that may also begin a name.',
  ['inputs'], 'every sequence of operators',
  'The tests use about half of the operators, mostly between blanks; what is taken as one token depends on the order in which prefixes are tried, and shows only where operators meet.',
  ['src/main/cpp/lang', 'include/ulight/impl/lang'],
  [('C and C++', 'src/main/cpp/lang/cpp.cpp: match_preprocessing_op_or_punc'), ('JavaScript', 'src/main/cpp/lang/js.cpp: match_operator_or_punctuation'), ('Bash', 'src/main/cpp/lang/bash.cpp: match_operator'), ('Kotlin', 'src/main/cpp/lang/kotlin.cpp'), ('NASM', 'src/main/cpp/lang/nasm.cpp: match_operator'), ('LLVM', 'src/main/cpp/lang/llvm.cpp: match_operator'), ('Rust', 'src/main/cpp/lang/rust.cpp: match_punctuation'), ('Tables', 'include/ulight/impl/lang/*.hpp')])
P('K07', 'Tags, references and declarations of markup are divided into their parts',
  'In HTML, XML and JSX, the names of elements, the names of attributes and their values (in quotes or without) are each highlighted as such, whatever permitted characters they consist of and wherever blanks are permitted, and text is not highlighted as markup. References to characters and entities are highlighted as one in text and values, and nothing else is. Doctypes, CDATA sections, processing instructions and the declarations of XML extend exactly to their end, with their names, keywords and literals told apart, and leave what follows alone.' ,
  ['inputs'], 'every name, value, text and reference',
  'The tests have one or two tags of each kind with ordinary names and values; whether a character belongs to a name or ends it matters only for the unusual ones, and an end that is missed shows in what follows.',
  ['src/main/cpp/lang/html.cpp', 'src/main/cpp/lang/xml.cpp', 'src/main/cpp/lang/js.cpp'],
  [('HTML', 'src/main/cpp/lang/html.cpp: expect_start_tag_permissive, expect_attribute, match_character_reference'), ('XML', 'src/main/cpp/lang/xml.cpp: expect_attribute, expect_doctype_decl, expect_markup_decl'), ('JSX', 'src/main/cpp/lang/js.cpp: match_jsx_tag_impl')])

P('K08', 'Names with a mark are highlighted as names of their kind, up to their end',
  'A name with a mark is highlighted as a name of its kind, with its mark, whatever permitted characters it consists of, and the character after it is not a part of it. This holds for identifiers, attributes, metadata, comdats and labels in LLVM; lifetimes, labels, raw identifiers and macros in Rust; annotations in Java and Kotlin; private names in JavaScript and TypeScript; attributes in Lua; anchors, aliases and tags in YAML; id, class and pseudo-class selectors, at-rules, properties, functions, hexadecimal colors and !important in CSS. It holds as well for options in Bash, labels and directives in NASM, directives in C and C++, commands and escapes in TeX and LaTeX, directives in COWEL, and non-terminals in EBNF.',
  ['inputs'], 'every name with a mark',
  'The tests use a few ordinary names of each kind; which characters belong to a name and which end it differs from language to language and from kind to kind, and matters for unusual names only.',
  ['src/main/cpp/lang/llvm.cpp', 'src/main/cpp/lang/css.cpp', 'src/main/cpp/lang/rust.cpp', 'src/main/cpp/lang/yaml.cpp', 'src/main/cpp/lang/java.cpp', 'src/main/cpp/lang/kotlin.cpp', 'src/main/cpp/lang/nasm.cpp', 'src/main/cpp/lang/tex.cpp'],
  [('LLVM', 'src/main/cpp/lang/llvm.cpp: consume_identifier, consume_prefixed_attribute, expect_label'), ('CSS', 'src/main/cpp/lang/css.cpp: consume_ident_like_token'), ('Rust', 'src/main/cpp/lang/rust.cpp: expect_lifetime_token, expect_macro'), ('YAML', 'src/main/cpp/lang/yaml.cpp: match_anchor, match_alias, consume_tag')])

P('K09', 'Parts of a style sheet, document, script or diff are highlighted by their place',
  'In CSS, names are highlighted as selectors, properties, values or parts of at-rules according to where they stand, after any sequence of nested and closed rules, at-rules and declarations. In YAML, what precedes a colon is highlighted as a key, and what follows it, a dash or a document marker as a value, in block and flow collections nested in any way, where each value is a string unless the entire value is a number, boolean or null. In Bash, the first word of each command is highlighted as a command and further ones as options or arguments, and in a diff each line by the mark it begins with, regardless of other lines.',
  ['inputs'], 'every sequence of rules, entries, commands or lines',
  'What a name is depends on everything before it; the tests contain a few ordinary sequences in each language.',
  ['src/main/cpp/lang/css.cpp', 'src/main/cpp/lang/yaml.cpp', 'src/main/cpp/lang/bash.cpp', 'src/main/cpp/lang/diff.cpp'],
  [('CSS', 'src/main/cpp/lang/css.cpp: Highlighter, Context'), ('YAML', 'src/main/cpp/lang/yaml.cpp: consume_block_node, try_consume_block_mapping_key, consume_flow_mapping, consume_plain_scalar'), ('Bash', 'src/main/cpp/lang/bash.cpp: Highlighter'), ('diffs', 'src/main/cpp/lang/diff.cpp: choose_line_highlight')])
P('K10', 'Markdown is divided into blocks and spans as CommonMark defines them',
  'In Markdown, a line is highlighted as a heading, thematic break, fence, list item, block quote, indented code or text exactly if CommonMark makes it one, with the marks of the block and its content told apart. Headings need one to six #, followed by a blank or the end of the line, and their closing sequence is not a part of them; fenced code ends at a line with a fence of at least the same length and kind. Within text, code spans extend from a run of backticks to the next one of the same length, a backslash makes an escape of ASCII punctuation only, and the marks of emphasis, links, images and autolinks are told apart from their text and destination.',
  ['inputs'], 'every heading, thematic break, fence, list marker, block quote, code span, emphasis, link and escape',
  'The tests take some examples from the CommonMark specification; whether a line with blanks, markers and lengths in any other combination is one block or another is left to chance.',
  ['src/main/cpp/lang/markdown.cpp'],
  [('blocks and spans', 'src/main/cpp/lang/markdown.cpp: consume_block_line, expect_atx_heading, expect_thematic_break, expect_fenced_code_open, expect_list_marker, expect_blockquote, consume_inline_content')])

# property -> why it is not claimed
NOT_CLAIMED = {}
LEVEL_NOTE = ('Bounded: the solver (with path exploration over the LLVM IR of the sources) decides the assertion for every value of the symbolic bytes; '
              'bounds, cut-short jobs and functions encoded are in the evidence file. Trusts the symbolic executor, its runtime models, clang -O1 and Z3; '
              'sampled paths and every counterexample are replayed on a native build.')
