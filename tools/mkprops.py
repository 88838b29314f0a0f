#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the authoritative wording lives here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "where": w} for n, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
ALG="src/Ystring/Algorithms.cpp"; ALGH="include/Ystring/Algorithms.hpp"; UTIL="src/Ystring/AlgorithmUtilities.cpp"; UTILH="src/Ystring/AlgorithmUtilities.hpp"
DEC="include/Ystring/DecodeUtf8.hpp"; ENC="src/Ystring/EncodeUtf8.hpp"

p("C01","Every call stays inside its arguments' memory and free of undefined behaviour",
"For every byte string (well-formed, malformed, truncated, with embedded NULs, not NUL-terminated), every byte offset not beyond the end of the string, every index including the extreme values of its type, and every pattern, set and code point argument, each public function reads only the bytes of its arguments, writes only to its result or to the buffer range it was handed, leaves its read-only inputs unchanged and leaks nothing. No call executes undefined behaviour or lets its result depend on uninitialised memory. Every view or range it returns lies inside the string it was given (or is empty).",
["inputs"],"all byte strings x all in-range offsets, all index values, all patterns, for every public function",
"The tests run ~300 literal, NUL-terminated, almost always well-formed strings without any sanitizer; an over-read past the last byte or a shift past the word size changes nothing they look at.",
[DEC,ENC,ALG,UTIL,"src/Ystring/Unescape.cpp","src/Ystring/Normalize.cpp","src/Ystring/ConvertCase.cpp","src/Ystring/CharClass.cpp","src/Ystring/Escape.cpp"],
[("length check before multi-byte decoding","decode_next / decode_prev"),("in-place rewriting that never outruns its read position","unescape(char*, size_t)"),("bounded binary searches in constant tables","get_char_class, convert, find_composed, find_decomposed")],
["every public entry point"])
p("C02","UTF-8 and UTF-32 conversions are exact inverses",
"For every sequence of code points 0..10FFFF, encoding produces exactly the standard shortest UTF-8 bytes, and decoding those bytes - as a whole, step by step forwards, step by step backwards, or by popping from either end - gives back exactly the same sequence and the same boundaries. Appending a code point adds exactly its encoding and nothing else. A value above 10FFFF never adds bytes to any string, and appending one throws.",
["inputs"],"all code point sequences; every single code point exhaustively",
"Tests encode eleven code points and decode a dozen; they cannot cover 1.1 million code points, nor sequences where neighbours interact.",
[ENC,DEC,"src/Ystring/Utf32.cpp",ALG],[("length classes of a code point","get_utf8_encoded_length"),("lead/continuation bit layout","encode_utf8, decode_next, decode_prev")],["to_utf32, from_utf32, append, decode_next, decode_prev, pop_utf8_codepoint, pop_last_utf8_codepoint"])
p("C03","Malformed UTF-8 is always detected, never decoded into something else",
"A byte string counts as well-formed exactly when it is a sequence of lead bytes each followed by exactly the continuation bytes it announces (00-7F: 0, C0-DF: 1, E0-EF: 2, F0-F7: 3); the validity test says so, and decoding one step forwards or backwards succeeds exactly at such a sequence and otherwise reports failure with the position unmoved. Conversion of a well-formed string to UTF-32 gives the value of every sequence, in order. Operations that must decode the whole string (conversion to UTF-32, case conversion, composing, decomposing, counting characters, reversing, an unsuccessful search for a code point or character class) throw the library's exception, and no other, when the string is malformed, and never throw it for a well-formed string of code points up to 10FFFF. Functions documented to throw on malformed text do so when they reach it.",
["inputs"],"all byte strings, in particular every string over lead/continuation/illegal bytes up to length 4 exhaustively by byte class",
"The tests have some thirty malformed literals, nearly all with the error at the edge of the string.",
[DEC,ALG,"src/Ystring/Utf32.cpp"],[("INVALID_CHAR result with restored iterator","decode_next, decode_prev"),("conversion of INVALID_CHAR to YstringException","safe_decode_next, safe_decode_prev"),("validity scan","is_valid_utf8")],["is_valid_utf8, decode_next, decode_prev, safe_decode_*, to_utf32, contains, count_chars, reverse, to_upper/lower/title, to_composed, to_decomposed"])
p("C04","Repairing malformed UTF-8 yields valid text and loses nothing valid",
"Replacing invalid UTF-8 always yields a well-formed string in which every well-formed sequence outside the malformed parts survives unchanged and in order, and each malformed part - a lead byte together with the continuation bytes following it up to the number it announces, or a byte that cannot start a sequence together with all continuation bytes following it - has become exactly one replacement character. A well-formed string comes back unchanged, so repairing twice equals repairing once. The in-place and the copying variant agree.",
["inputs"],"all byte strings x all replacement code points 0..10FFFF",
"Two literals with one malformed spot in the middle are tested; adjacent, leading, trailing and nested malformed parts are not.",
[ALG,DEC],[("resynchronisation after an error","replace_invalid_utf8 using skip_next")],["replace_invalid_utf8 (both overloads)"])
p("C05","Stepping over UTF-8 always progresses and keeps to sequence boundaries",
"On well-formed text, skipping or removing one code point from the front or the back moves by exactly one code point, so any number of forward and backward steps lands on the same boundaries. On malformed text every step on a non-empty rest succeeds, moves by at least one byte, stays inside the string, never skips past a byte that can start a sequence, and forward takes a lead byte with at most the continuation bytes it announces (a byte that cannot start a sequence takes all following continuation bytes); backward takes a run of continuation bytes together with the lead byte that announces at least that many, and otherwise only the continuation bytes in excess of what the lead byte announces. Stepping on an empty rest reports false and changes nothing.",
["inputs","histories"],"all byte strings and all interleavings of front and back steps on them",
"Tests cover about twenty literals in one direction; alternating steps and long continuation runs are not covered.",
[DEC],[("lead byte classification with bounded continuation scan","skip_next, skip_prev"),("view shrinking","remove_utf8_codepoint, remove_last_utf8_codepoint, pop_*")],["skip_next, skip_prev, remove_utf8_codepoint, remove_last_utf8_codepoint, pop_utf8_codepoint, pop_last_utf8_codepoint"])
p("C06","Character classification agrees with the Unicode 16 database for every value",
"For every 32-bit value the reported character class is the general category the Unicode 16.0 database assigns to that code point (ranges given by First/Last entries included), and Unassigned for everything the database does not list, including all values above 10FFFF. Every predicate (letter, alphanumeric, cased, lower, upper, number, mark, punctuation, symbol, separator, control, format, surrogate, graphical, visible, whitespace, newline, hex digit) holds exactly for the code points of the classes its documentation names.",
["inputs"],"all 2^32 values (0..10FFFF exhaustively, beyond sampled and at wrap-around points)",
"Tests look up nine code points in a compressed table of 2200 entries with several encodings.",
["src/Ystring/CharClass.cpp","src/Ystring/CharClassTables.hpp","include/Ystring/CodepointPredicates.hpp","tools/unicode_character_tables/make_char_class_file.py"],[("compressed range table and its decoder","get_char_class, decode_char_class")],["get_char_class, is_* predicates"])
p("C07","Code point case mappings agree with the Unicode 16 database",
"For every 32-bit value, mapping a single code point to upper, lower or title case gives the simple mapping of the Unicode 16.0 database, and the code point itself where the database has none, including for values above 10FFFF.",
["inputs"],"all 2^32 values (0..10FFFF exhaustively, beyond sampled)",
"Tests map nine code points; the tables mix bit sets, offsets and exceptions per block of 32.",
["src/Ystring/ConvertCase.cpp","src/Ystring/CharMappingTypes.hpp","src/Ystring/UpperCaseTables.hpp","src/Ystring/LowerCaseTables.hpp","src/Ystring/TitleCaseTables.hpp"],[("compact bit-set mapping then exception list","convert, CompactCharMapping::get")],["to_upper, to_lower, to_title (char32_t)"])
p("C08","String case conversion applies the mappings character by character",
"For every well-formed string of code points up to 10FFFF, the upper (lower) case copy is the concatenation of every code point's upper (lower) case mapping in order, except that sharp s (DF) becomes SS in upper case. In the title-case copy a letter not directly preceded by a letter gets its title-case mapping (sharp s becomes Ss), a letter directly preceded by a letter its lower-case mapping, and everything else is unchanged. Nothing is dropped, duplicated or reordered, whatever the growth or shrinkage of the encoded length.",
["inputs"],"all well-formed strings",
"Tests convert six short strings; length-changing mappings, non-BMP letters and word-boundary state across long strings are not covered.",
["src/Ystring/ConvertCase.cpp"],[("per code point loop with word state","to_lower, to_title, to_upper (string_view)")],["to_lower, to_title, to_upper (string)"])
p("C09","Decomposition expands every code point fully and changes nothing else",
"For every well-formed string, the decomposed copy is the concatenation, in order, of each code point's full recursive expansion under the database's two-code-point canonical decompositions; code points without one are copied unchanged. The single code point variant gives the same expansion, for every 32-bit value. Decomposing is idempotent and never changes the decomposed form of a composed string.",
["inputs"],"all well-formed strings; every code point exhaustively",
"Tests decompose three code points, none with more than two levels.",
["src/Ystring/Normalize.cpp","src/Ystring/NormalizationTables.hpp"],[("recursive table lookup into a growing buffer","decompose_char, get_decomposed_size")],["to_decomposed, decompose"])
p("C10","Composition merges exactly the composable neighbours and loses nothing",
"For every well-formed string, the composed copy is obtained by scanning left to right and replacing the current code point and its successor by their canonical composition whenever the database has one (and continuing with the result), leaving every other code point in place and in order. Composing is idempotent, and decomposing the composed string gives the same result as decomposing the original.",
["inputs"],"all well-formed strings",
"Tests compose three strings in which a composed character is followed by at least two plain ones; every other arrangement is untested.",
["src/Ystring/Normalize.cpp","src/Ystring/NormalizationTables.hpp"],[("copy-run bookkeeping around composed characters","to_composed, find_composed")],["to_composed"])
p("C11","Substring search returns the true first or last occurrence",
"For all byte strings s and c and every offset not beyond the end, searching forwards from the offset gives the leftmost occurrence of a non-empty c that starts at or after the offset, and searching backwards gives the rightmost occurrence that ends at or before it; the range returned is exactly that occurrence, and is empty when there is none or c is empty. Prefix and suffix tests are true exactly when c equals the first or last bytes of s. Testing for a code point is true exactly when a well-formed s contains it.",
["inputs"],"all pairs of byte strings and all offsets",
"Tests search two literals for five needles; self-overlapping needles, partial matches at the end and offsets inside matches are not covered.",
[ALG,UTILH],[("std::search and its backwards counterpart","find_first, find_last, search_last")],["find_first, find_last, starts_with, ends_with, contains"])
p("C12","Searching for characters or newlines finds the first or last one exactly",
"For every well-formed string, every offset on a code point boundary and every list, set or predicate, the forward search returns the first code point at or after the offset that satisfies it, with its exact byte range, and the backward search the last one ending at or before the offset; if none exists the range is empty and the code point is the invalid value. The newline searches do the same for LF, VT, FF, CR, NEL, LS and PS, and report an adjacent CR LF pair as one newline two bytes long when the search meets its CR (forwards) or its LF (backwards).",
["inputs"],"all well-formed strings, boundary offsets, character lists, sets and predicates",
"Tests use about ten literals and never combine offsets with multi-byte characters or CR LF at an offset.",
[ALG,ALGH],[("decode loop with remembered previous position","find_first_where, find_last_where"),("CR LF pairing","find_first_newline, find_last_newline")],["find_first_of, find_last_of, find_first_where, find_last_where, find_first_newline, find_last_newline"])
p("C13","Splitting and joining lose and invent nothing",
"For every string and separator (substring, character list, newlines or a custom finder), splitting cuts at exactly the successive leftmost separator matches, so the parts interleaved with those separators reproduce the string, and joining the parts of a substring split with the separator gives the string back. With a limit of n at most n cuts are made and the uncut remainder is the last part; when empty parts are ignored exactly the empty ones are absent and only non-empty ones count towards the limit. A token iterator yields the same parts and the separators between them, and its remainder is always the text after the current separator.",
["inputs"],"all strings, separators, limits and flags",
"Tests split three literals with at most four settings and never look at a token.",
[ALGH,"include/Ystring/TokenIterator.hpp",ALG],[("token iterator state machine","TokenIterator::next/part/token/remainder"),("limit and remainder handling","split_where")],["split, split_lines, split_where, join, TokenIterator"])
p("C14","Trimming removes exactly the matching characters at the ends",
"For every well-formed string and every character list or predicate, trimming an end removes exactly the maximal run of matching code points at that end and nothing else, and the result is a sub-view of the input. Trimming both ends equals trimming one end after the other in either order.",
["inputs"],"all well-formed strings, lists and predicates",
"Five literals with one character set are tested.",
[ALGH,ALG],[("search for the first/last non-matching character","trim_start_where, trim_end_where")],["trim, trim_start, trim_end, trim_where, trim_start_where, trim_end_where"])
p("C15","Replacing substrings replaces exactly the chosen occurrences",
"For all byte strings, replacing with a positive limit n replaces the first n non-overlapping occurrences found from the left, with a negative limit -n the first n found from the right, and without a limit all occurrences found from the left; all other bytes are kept in place and replacement text is never searched again. An empty search string matches nowhere, so the string comes back unchanged. Replacing a code point equals replacing its encoding, and throws if either code point is above 10FFFF.",
["inputs"],"all byte strings s, from, to and all non-zero limits including the extreme values",
"Tests have six calls; overlapping occurrences, occurrences at the very end, empty patterns and extreme limits are not covered.",
[ALG,UTIL],[("forward copy loop and backward match list","replace, find_last_n")],["replace, replace_codepoint"])
p("C16","Code point indexing follows slice arithmetic in both directions",
"For every well-formed string of n code points, index i >= 0 denotes the i-th code point and i < 0 the one at n+i; looking up a position or a code point gives exactly its offset, range and value, and an index out of range gives the documented not-found result. A substring from start to end is exactly the code points from start up to but excluding end, with negative indices counted from the end of the string, both clamped to the string, and an empty result when end is not after start; it is a sub-view of the input.",
["inputs"],"all well-formed strings x all pairs of index values including the extremes",
"Tests call these on one or two literals with a handful of index pairs; the mixed-sign and equal-negative combinations are almost absent.",
[ALG,UTIL],[("skip loops and capped positions","get_codepoint, get_codepoint_pos, get_codepoint_substring_range")],["get_codepoint, get_codepoint_pos, get_codepoint_substring, count_codepoints"])
p("C17","Characters with combining marks stay whole in counting, indexing and reversing",
"Every well-formed string divides uniquely into characters - a code point followed by all combining marks after it - and counting, forward and backward stepping, positions, ranges and substrings by (negative or positive) character index all agree with that division, following slice arithmetic with clamping as for code points. Reversing yields exactly the same characters in opposite order, each intact, so the code points of the result are a permutation of the input's and the length is unchanged.",
["inputs"],"all well-formed strings (leading marks, long mark runs, marks from every script) x all index values",
"Tests use three literals with one or two marks; leading marks, mark runs and mixed-sign index pairs are missing.",
[ALG,UTIL],[("greedy mark grouping","get_next_char_range, get_prev_char_range"),("capped char positions","get_char_substring_range")],["count_chars, get_char_pos, get_char_range, get_char_substring, get_next_char_range, get_prev_char_range, reverse"])
p("C18","Insertions and replacements by index edit exactly the addressed place",
"Inserting a code point or string at a character or code point index yields the input with exactly that text added at the addressed boundary (negative indices counted from the end), and throws the library's exception when the index addresses no boundary (except that inserting an empty text always gives the input). Replacing a range of characters or code points yields the text before the range, the replacement, and the text after it, where the range is the one the corresponding substring function returns. Everything outside the edited place is byte-for-byte unchanged.",
["inputs"],"all well-formed strings x all indices and index pairs x all inserted texts",
"Tests edit four literals with non-negative or trivially negative indices.",
[ALG,UTIL],[("offset based splice","insert_at_offset, replace_subrange")],["insert_char, insert_chars, insert_codepoint, insert_codepoints, replace_chars, replace_codepoints"])
p("C19","Case-insensitive comparison is a consistent total order on upper-cased text",
"For all well-formed strings, comparing case-insensitively has the sign of the lexicographic comparison of the two sequences of upper-case-mapped code points (a proper prefix is less), equality holds exactly when that is zero and less-than exactly when it is negative. Hence the comparison is reflexive, antisymmetric and transitive, equal strings are interchangeable, and single code points up to 10FFFF compare the same way.",
["inputs"],"all pairs and triples of well-formed strings",
"Tests compare three pairs; order laws over triples and rare mappings are untested.",
[ALG,"include/Ystring/CaseInsensitive.hpp"],[("lock-step decode and mapped comparison","case_insensitive::compare, equal, less")],["case_insensitive::compare, equal, less; case_insensitive_compare/equal/less and function objects"])
p("C20","Case-insensitive search finds the true first or last match",
"For all well-formed strings and every boundary offset, case-insensitive search returns the leftmost match at or after the offset (or the rightmost one ending at or before it) of the code point sequence of a non-empty pattern under equality of upper-case mappings, with the exact byte range matched in the searched string, whose byte length may differ from the pattern's; otherwise the range is empty. Prefix, suffix and character-list searches use the same equality. An exact occurrence is always also a case-insensitive one.",
["inputs"],"all pairs of well-formed strings, boundary offsets and lists",
"Tests use one 9-character literal; repeated prefixes, length-changing case pairs and offsets are untested.",
[ALG,UTILH],[("mismatch scan in both directions","next_case_insensitive_mismatch, prev_case_insensitive_mismatch")],["case_insensitive::find_first, find_last, find_first_of, find_last_of, starts_with, ends_with"])
p("C21","Case-insensitive replace and split act on exactly the case-insensitive matches",
"For all well-formed strings, case-insensitive replacing with limit n (or -n) replaces the first n successive non-overlapping case-insensitive matches from the left (or from the right), or all of them without a limit, keeping every other byte; an empty search string changes nothing. Case-insensitive splitting cuts at exactly the successive leftmost case-insensitive matches of the separator string or characters, with the same limit and empty-part rules as exact splitting.",
["inputs"],"all well-formed strings, patterns, limits and flags",
"Tests have three replace calls and one split call.",
[ALG],[("repeated search on the remaining text","case_insensitive::replace, case_insensitive::split")],["case_insensitive::replace, case_insensitive::split"])
p("C22","JSON escaping is exact and reversible",
"For every byte string, the escaped text contains no control character below 20 and no unescaped quote, and reading it back as the body of a JSON string (or with this library's unescape) gives exactly the original bytes; only control characters, quotes and backslashes are changed, using the short JSON escapes for BS, FF, LF, CR, TAB, quote and backslash and a four-digit hexadecimal escape for the rest. The test for, and the search for, escapable characters agree with what escaping changes, from every offset.",
["inputs"],"all byte strings",
"A single literal is tested.",
["src/Ystring/Escape.cpp","src/Ystring/Unescape.cpp"],[("escape table","escape_json, find_first_escapable_char")],["escape_json, has_escapable_chars, find_first_escapable_char"])
p("C23","Unescaping translates every escape sequence and rejects incomplete ones",
"For every string, unescaping replaces each complete escape sequence - backslash followed by a, b, f, n, r, t or v; x with two or more hexadecimal digits; u with exactly four (a high surrogate escape directly followed by a low one forming one code point); U with exactly eight; one to three octal digits; or any other ASCII character standing for itself - by the UTF-8 encoding of its value and copies all other bytes unchanged. An incomplete or invalid sequence anywhere, including at the very end, throws the library's exception; a value that is no code point never produces bytes. The in-place variant gives the same result, never writes outside the given range and never returns a length greater than the input's; the search and test for escape sequences report exactly the first complete sequence at or after an offset.",
["inputs"],"all byte strings, in particular every truncation of every escape form",
"Tests unescape eight literals; truncated sequences at the end of the string and surrogate escapes followed by other escapes are untested.",
["src/Ystring/Unescape.cpp"],[("sequence delimiting","find_first_escaped_char, find_end_of_hex_sequence"),("in-place compaction","unescape(char*, size_t)"),("surrogate pairing","parse_utf16, combine_surrogate_pair")],["unescape (both), find_first_escaped_char, has_escaped_chars"])
p("C24","Incremental unescaping consumes exactly one character per call or nothing",
"Each call returns the next code point, unescaped if the text starts with an escape sequence (the same forms as whole-string unescaping, but x takes one to eight digits, a backslash may also precede a non-ASCII character standing for itself, and backslash-newline pairs in front are skipped), and moves the start of the view past exactly the bytes that code point came from; the flag tells whether an escape was translated. On an empty rest it returns nothing. On malformed UTF-8 or an invalid sequence it throws the library's exception and leaves the view at the start of the offending character, so repeated calls visit every character exactly once, in order.",
["inputs","histories"],"all byte strings and all sequences of calls on them",
"Tests walk five literals; errors in the middle, truncated escapes and the flag are not covered.",
["src/Ystring/Unescape.cpp"],[("view backup and restore","unescape_next"),("digit-limited parsing","extract_hex_char, extract_oct_char, extract_utf16_char")],["unescape_next"])
p("C25","Code point sets contain exactly what was put in",
"After any sequence of added code points, strings of code points and ranges, the set contains exactly the code points of those additions (all others when negated), regardless of order, adjacency and overlap. Case-insensitive membership holds exactly for the code points whose upper-case mapping equals that of some member; the same two rules hold for plain lists of code points.",
["inputs","histories"],"all sequences of additions and all queried code points",
"There is no test of this type at all.",
["src/Ystring/Char32Set.cpp","include/Ystring/CodepointSet.hpp"],[("range merging on append","CodepointSet::add_codepoint"),("range scan","contains, case_insensitive_contains")],["CodepointSet::add_*, contains, case_insensitive_contains; contains/case_insensitive_contains on u32string_view"],[("ranges, negated","CodepointSet")])
p("C26","Calls are independent of history and of other threads",
"Any number of threads may call any functions at the same time on shared read-only inputs without data races, and every call returns exactly what it returns when made alone. The result of a call depends only on its arguments: not on earlier calls, their order, their failures, the address or alignment of its arguments, or the program's locale.",
["schedules","histories"],"all concurrent schedules and all call histories over the public functions",
"The tests are single-threaded and call each function a few times in a fixed order.",
["src/Ystring/ConvertCase.cpp","src/Ystring/CharClass.cpp","src/Ystring/Normalize.cpp",ALG,"src/Ystring/Unescape.cpp"],[("no mutable static state, constexpr tables","all of src/Ystring")],["every public entry point, under ThreadSanitizer and in shuffled histories"])
p("C27","A failing call changes nothing",
"When an operation that modifies an argument fails - because of malformed text, an invalid code point or escape, or because memory runs out at any point - it throws the library's exception (or std::bad_alloc), and the string, view or iterator it was given is exactly as it was before the call (incremental unescaping may have skipped backslash-newline pairs, and the contents of the character buffer of in-place unescaping are left open). A memory failure at any allocation inside any public function surfaces as std::bad_alloc with nothing leaked, and repeating the call afterwards gives the normal result.",
["fault_sequences","inputs"],"every position of an allocation failure within every call, and every kind of invalid argument",
"No test injects allocation failures, and only one looks at an argument after a failure.",
[DEC,ALG,"src/Ystring/Unescape.cpp","src/Ystring/Char32Set.cpp"],[("iterator restore on error","decode_next, decode_prev, unescape_next"),("build first, modify last","append, replace_invalid_utf8")],["append, replace_invalid_utf8(std::string&), pop_*, safe_decode_*, unescape_next, CodepointSet::add_*; all functions under allocation faults"])
p("C28","Every call finishes within work bounded by the size of its input",
"Every public function terminates on every input, and the number of steps it takes and the memory it allocates grow at most in proportion to its input (times the pattern or set size for searches, plus the size of the output). In particular no empty pattern, malformed text, deep decomposition, long run of marks or continuation bytes, or extreme index or limit makes a call loop forever or degrade to quadratic work in the length of the text.",
["inputs"],"all inputs, with lengths scaled up to hundreds of kilobytes",
"Tests use strings of at most a few dozen bytes, none of them adversarial.",
[ALG,DEC,"src/Ystring/Normalize.cpp","src/Ystring/Unescape.cpp"],[("each loop consumes input","decode and search loops"),("bounded retry of the decomposition buffer","to_decomposed")],["every public entry point, measured in executed control-flow edges and allocated bytes"])
p("C29","The table generators encode any Unicode database faithfully",
"For every character database in UnicodeData format with code points in ascending order and the usual entries for ASCII - any assignment of general categories, First/Last ranges, explicit simple case mappings and unambiguous two-code-point canonical decompositions (first part below 100000, second part U+0300 or above and not itself decomposable), at least one of each - the tables the generators emit make the library's lookups return exactly the database's classes, case mappings, decompositions and compositions. For the shipped database they give the same lookups as the tables the library is built with.",
["programs","inputs"],"all character databases the generators accept",
"The generators are not run by any test; the library tests look at a few dozen entries of one fixed output.",
["tools/unicode_character_tables/make_char_class_file.py","tools/unicode_character_tables/make_case_convert_file.py","tools/unicode_character_tables/make_normalization_file.py","tools/unicode_character_tables/codegen.py","src/Ystring/CharClass.cpp","src/Ystring/ConvertCase.cpp","src/Ystring/Normalize.cpp"],[("range merging and alternating-case compression","make_char_class_file.py"),("per-32 bit sets","make_case_convert_file.py")],["generated headers compiled into the library's own lookup code"])
p("C30","Results stay exact for texts of any size",
"For strings of any length - tens of thousands of bytes, code points, characters, lines or parts, and beyond 2^16, 2^31 or 2^32 of them - every size, count, byte offset, index, limit and length that is given or returned is exact: the result is the one that follows from the same definition for a short string of the same composition, with nothing wrapped around, truncated to a narrower type, clamped, split at a buffer boundary or lost. This holds for the position of a match near the end of the text, for counts of code points and characters, for negative indexes and limits of that magnitude, for runs of marks, continuation bytes or separators of that length, and for results that are themselves that long.",
["inputs"],"all lengths, in particular those around and beyond powers of two up to 2^32",
"The longest string in the tests has a few dozen bytes: a counter of 8, 16 or 32 bits, or a fixed buffer that is too short, changes nothing.",
[ALG,UTIL,UTILH,DEC,"src/Ystring/Normalize.cpp","src/Ystring/Unescape.cpp","src/Ystring/Escape.cpp","src/Ystring/ConvertCase.cpp","src/Ystring/Utf32.cpp","include/Ystring/Subrange.hpp"],
[("size_t offsets and counts","all search, count and position functions"),("output growing with the input","replace, split, join, normalization, case conversion, escaping")],["count_*, find_*, get_*_pos, *_substring, starts/ends_with, split, replace, join, trim, to_*, escape_json, unescape, skip_*, TokenIterator on texts P + n times U + S"])
p("C31","Results are the same in every conforming build of the library",
"For the same arguments every public function gives the same result, or fails in the same way, however library and caller are compiled: with gcc or clang, with or without optimisation, as C++20 or later, with signed or unsigned plain char, with or without the standard library's checks, and whatever was on the stack and the heap before the call. No result depends on the order in which a compiler evaluates arguments, on the range of char, on an uninitialised value or on undefined or unspecified behaviour.",
["inputs","configurations"],"all arguments of all public functions, in all supported build configurations",
"The tests run in one configuration (here gcc, signed char); what differs in another isn't seen.",
["src/Ystring/Unescape.cpp","src/Ystring/Escape.cpp",DEC,ENC,"src/Ystring/CharClass.cpp","src/Ystring/ConvertCase.cpp",ALG,ALGH],
[("uint8_t casts before comparing bytes","decode, escape and unescape functions"),("explicit sequencing of calls that move iterators","decode_next, unescape_next, parse_utf16")],["every public entry point, in programs built by different compilers and options"])
p("C32","Predicates, finders and iterators supplied by the caller are used as promised",
"Functions that run the caller's code - find_first_where, find_last_where, the trim_..._where functions, split_where, TokenIterator, join and the decoding and skipping templates - give for every predicate, finder and iterator exactly the result their definitions say, whatever type it has and whatever state it keeps. find_first_where and find_last_where consult the predicate once for each code point, in order, up to the result and no further; trimming only ever hands it code points of the text, a bounded number of times; a finder is handed exactly the rests of the text that follow the previous tokens, in order; join goes once over a range, single-pass ranges and temporary values included; byte iterators are never read or moved outside their range, and any char-like value type gives the same result. What the caller's code throws reaches the caller of the library unchanged, with nothing leaked, and leaves a token iterator where it was, so that the step can be repeated. Such code may itself call the library.",
["inputs","histories","fault_sequences"],"all predicates, finders and iterators, including stateful and throwing ones, on all texts",
"Tests use a handful of stateless lambdas and vectors of strings; no callback throws, counts, keeps state or calls the library.",
[ALGH,DEC,"include/Ystring/TokenIterator.hpp"],[("stops at the first match","find_first_where, find_last_where"),("advances only after the finder returned","TokenIterator::next"),("one pass, elements appended as they are","join")],["find_first_where, find_last_where, trim_where, trim_start_where, trim_end_where, split_where, TokenIterator, join, decode_*, skip_*, safe_decode_*"])
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P))
