#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "src/Ystring/Algorithms.cpp"; AH = "include/Ystring/Algorithms.hpp"; AU = "src/Ystring/AlgorithmUtilities.cpp"
AUH = "src/Ystring/AlgorithmUtilities.hpp"; D = "include/Ystring/DecodeUtf8.hpp"; E = "src/Ystring/EncodeUtf8.hpp"
P = []
def prop(id, title, statement, text, why, files, mech, observe, over=("inputs",), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

prop("Y01", "Every code point is encoded as its unique shortest UTF-8 form",
 "Every code point from 0 to 0x10FFFF (surrogates included) is encoded as the shortest UTF-8 sequence of 1-4 bytes, is appended after the existing content without touching it, and decodes back to the same code point both forwards and backwards. Values above 0x10FFFF are never encoded: append raises YstringException and leaves the string as it was, and from_utf32 emits nothing for them.",
 "all 2^21 code points and values above, appended to any string", "Tests encode eleven code points and append two.",
 [E, A, "src/Ystring/Utf32.cpp"], [("encoded length thresholds and bit packing", E), ("append rejects length 0", A)], ["append", "from_utf32", "decode_next", "decode_prev"])
prop("Y02", "Conversion to and from UTF-32 is pointwise and lossless",
 "to_utf32 yields exactly the code points of the text in order and raises YstringException when any byte is malformed; from_utf32 yields the concatenation of the encodings of its code points, skipping values above 0x10FFFF. Consequently to_utf32(from_utf32(u)) = u for every sequence of code points, and from_utf32(to_utf32(s)) = s for every text in shortest-form UTF-8.",
 "every byte string; every sequence of 32-bit values", "Tests convert one five-character string each way.",
 ["src/Ystring/Utf32.cpp", D, E], [("decode loop with throw on malformed", "src/Ystring/Utf32.cpp")], ["to_utf32", "from_utf32"])
prop("Y03", "Forward decoding accepts exactly well-formed units and never moves on failure",
 "At any position of any byte string, forward decoding succeeds exactly when a lead byte (0xxxxxxx, 110xxxxx, 1110xxxx, 11110xxx) is followed inside the string by precisely the continuation bytes (10xxxxxx) it announces; it then returns their combined value and advances past exactly those bytes. Otherwise it reports an invalid character (safe and popping variants raise YstringException, or report absence at the end of the text), and the position or view is left unchanged, without reading beyond the end.",
 "every byte string, every window and every position in it, including positions inside a unit", "Tests decode about twenty fixed sequences from their start; positions inside text, window ends and restore after partial failure are barely sampled.",
 [D], [("decode_next restores the iterator", D), ("pop_utf8_codepoint", D)], ["decode_next", "safe_decode_next", "pop_utf8_codepoint"], ("inputs", "histories"), [("it / str", "cursor position", D)])
prop("Y04", "Backward decoding is the mirror image of forward decoding",
 "At any position of any byte string, backward decoding succeeds exactly when some well-formed unit ends at that position and begins no earlier than the start of the window; it returns the value forward decoding gives for that unit and moves to its first byte. Otherwise it reports an invalid character (safe and popping variants raise YstringException, or report absence at the start) and leaves the position or view unchanged, without reading before the start.",
 "every byte string, every window and every position", "Tests decode backwards only from the end of about twenty fixed sequences.",
 [D], [("decode_prev restores the iterator", D), ("pop_last_utf8_codepoint", D)], ["decode_prev", "safe_decode_prev", "pop_last_utf8_codepoint"], ("inputs", "histories"), [("it / str", "cursor position", D)])
prop("Y05", "Skipping always progresses and partitions text alike in both directions",
 "Skipping forward passes one byte sequence: an ASCII byte, a lead byte with at most as many following continuation bytes as it announces, or a stray run (a continuation or illegal byte together with all continuation bytes directly after it); it never fails before the end of the text and never leaves it. Skipping backwards from the end of any text visits exactly the boundaries of that forward partition in reverse, the removing variants drop exactly the skipped bytes from the view, and on well-formed text the boundaries are those of decoding.",
 "every byte string, valid or not", "Tests skip over about twenty fixed strings.",
 [D], [("skip_next", D), ("skip_prev", D)], ["skip_next", "skip_prev", "remove_utf8_codepoint", "remove_last_utf8_codepoint"], ("inputs", "histories"), [("it / str", "cursor position", D)])
prop("Y06", "Validation and repair of malformed UTF-8 are exact, total and idempotent",
 "is_valid_utf8 is true exactly when the text is a concatenation of well-formed units. replace_invalid_utf8 keeps every well-formed unit byte for byte and in order and puts exactly one replacement character in place of each malformed sequence (a bad lead byte with the continuation bytes belonging to it, or a stray run), so its result is always valid and repairing again or repairing valid text changes nothing. The in-place overload leaves the string equal to what the copying overload returns.",
 "every byte string and every valid replacement character", "Tests repair one malformed string with one bad sequence.",
 [A, D], [("replace_invalid_utf8 loop", A), ("is_valid_utf8", A)], ["is_valid_utf8", "replace_invalid_utf8"])
prop("Y07", "Substring search finds exactly the first or last occurrence in range",
 "find_first returns the leftmost occurrence of the pattern starting at or after the byte offset, find_last the rightmost occurrence lying wholly before the offset, and each occurrence has the pattern's length; when there is none the result is empty, positioned at the text's end and start respectively. starts_with and ends_with hold exactly when the pattern is a byte prefix or suffix; an empty pattern is a prefix and suffix of every text but is never 'found'.",
 "every text, pattern and offset not beyond the end (any offset for find_last)", "Tests use one 14-byte text and never pass an offset to find_last.",
 [A, AUH], [("std::search", A), ("search_last", AUH)], ["find_first", "find_last", "starts_with", "ends_with"])
prop("Y08", "Code point search finds the nearest member, reporting malformed bytes it meets",
 "contains, find_first_of/find_first_where and find_last_of/find_last_where examine code points one by one, forwards from the byte offset or backwards from it, and return the byte range and value of the first one that belongs to the given characters, code point set or predicate. If none does, the range is empty and the value is the invalid-character marker (contains gives false). A malformed sequence raises YstringException exactly when it is met before a match.",
 "every text, character collection (list, set, negated set, predicate) and offset", "Tests search two short texts with one character list.",
 [A, AH, "src/Ystring/Char32Set.cpp"], [("find_first_where / find_last_where", AH)], ["contains", "find_first_of", "find_last_of", "find_first_where", "find_last_where"])
prop("Y09", "Newline search and line splitting know every newline form and keep CRLF whole",
 "The newlines are LF, VT, FF, CR, NEL (U+0085), LS (U+2028), PS (U+2029) and the pair CR LF, which counts as one two-byte newline when both lie in the searched range. find_first_newline and find_last_newline return the byte range of the first newline from the offset or the last one before it, or an empty range. split_lines cuts the text at exactly these newlines from left to right, honouring the split limit and the option to drop empty parts.",
 "every text, offset and split parameters", "Tests use LF, CR, CRLF and PS in short ASCII texts; VT, FF, NEL and LS are never used.",
 [A], [("NEWLINES table and CRLF look-ahead/behind", A)], ["find_first_newline", "find_last_newline", "split_lines"])
prop("Y10", "Text divides into the same characters from either end",
 "A character is a code point with all combining marks (general category M) following it; marks at the start of the text form one character. count_chars, get_char_pos, get_char_range, get_next_char_range and get_prev_char_range all refer to this one division, with non-negative positions counted from the start and negative ones from the end; positions beyond the text give npos or an empty range at the text's end (start). Malformed bytes raise YstringException exactly when the scan towards the position meets them.",
 "every text, every position and every byte offset on a boundary", "Tests cover four short strings with at most two marks.",
 [A, "src/Ystring/CharClass.cpp"], [("get_next_char_range / get_prev_char_range", A)], ["count_chars", "get_char_pos", "get_char_range", "get_next_char_range", "get_prev_char_range"])
prop("Y11", "Code point positions count the same from start and end",
 "count_codepoints and get_codepoint_pos count the sequences of the skipping partition (the code points, on well-formed text): position n >= 0 is the offset where sequence n starts, with the text's length for n equal to the count, position -n is the offset of the n-th sequence from the end, and any position farther out is npos. get_codepoint returns the byte range and value of the code point there, an empty range and the invalid-character marker when there is none, and raises YstringException if the bytes there are malformed.",
 "every text and every signed position", "Tests use one 12-code-point text.",
 [A, D], [("get_codepoint, get_codepoint_pos", A)], ["count_codepoints", "get_codepoint", "get_codepoint_pos"])
prop("Y12", "Substrings by index are the slice between two resolved positions",
 "get_codepoint_substring and get_char_substring return the part of the text from the start index up to but excluding the end index, where indexes count code points or characters, negative indexes count from the end, and indexes outside the text are capped to its ends. When the end does not lie after the start the result is empty; the result is always a contiguous part of the given text.",
 "every text and every pair of signed indexes", "Tests cover a dozen index pairs on one text, no pair with a negative start and a positive inner end, and no mixed pair for characters.",
 [AU, A], [("get_char_substring_range / get_codepoint_substring_range", AU)], ["get_codepoint_substring", "get_char_substring"])
prop("Y13", "Insertion adds exactly the given text at the addressed position",
 "insert_codepoint(s) and insert_char(s) return the text with the given code point or string inserted at the addressed code point or character boundary (negative from the end) and nothing else changed, so that removing it restores the text. A position outside the text raises YstringException, except that inserting an empty string returns the text as is; an unencodable code point raises YstringException.",
 "every text, position and insertion", "Tests insert at five positions in one text per function.",
 [A, AU], [("insert_at_offset", AU)], ["insert_char", "insert_chars", "insert_codepoint", "insert_codepoints"])
prop("Y14", "Replacing an index range changes that range only",
 "replace_codepoints and replace_chars return the text with the slice addressed by the two indexes (resolved as for substrings: negative from the end, capped to the text, empty when the end is not after the start) exchanged for the replacement, and everything before and after it unchanged. An empty slice makes it an insertion at the start index; no pair of indexes raises an error on well-formed text.",
 "every text, every pair of signed indexes, every replacement", "Tests use three index pairs on one text.",
 [A, AU], [("replace_subrange", AU)], ["replace_codepoints", "replace_chars"])
prop("Y15", "Replace exchanges exactly the chosen non-overlapping occurrences",
 "replace and replace_codepoint exchange at most |n| non-overlapping occurrences of the pattern, chosen from the left when the limit n is positive and from the right when it is negative, and leave all other bytes unchanged; zero exchanges nothing. An empty pattern never matches and the call always terminates; replace_codepoint raises YstringException when either code point cannot be encoded.",
 "every text, pattern, replacement and signed limit", "Tests use three calls each, with patterns that cannot overlap themselves.",
 [A, AU], [("replace forward/backward branches", A), ("find_last_n", AU)], ["replace", "replace_codepoint"])
prop("Y16", "Splitting loses nothing, honours its limits, and joining undoes it",
 "split (on a separator string, on characters, or by a token finder) cuts the text at the successive leftmost tokens; without options the parts and tokens interleaved are the whole text, and joining parts cut at a separator string with that separator restores it. With max_splits n at most n parts are cut off and the rest of the text is the last part (zero gives the whole text); with ignore_empty the empty parts are dropped and do not count towards the limit. join puts the delimiter between consecutive items and nowhere else.",
 "every text, separator, character collection, limit and list of items", "Tests use two texts and three parameter sets.",
 [AH, A], [("split_where", AH), ("join", AH)], ["split", "split_where", "join"])
prop("Y17", "The token iterator walks the text token by token without loss or overlap",
 "Each successful advance exposes the part before the next token, the token itself and the remainder after it, which concatenate to the text left by the previous step; before the first advance everything is remainder. When no further token exists one last advance exposes the rest as a part with empty token and remainder and the iterator tests false; advancing after that reports the end and changes nothing.",
 "every text, every token finder, every number of advances and every interleaving of observations", "No test uses the iterator directly, and none observes the token.",
 ["include/Ystring/TokenIterator.hpp"], [("TokenIterator::next/part/token/remainder", "include/Ystring/TokenIterator.hpp")], ["TokenIterator"], ("inputs", "histories"), [("m_str, m_token", "rest of the text and current token", "include/Ystring/TokenIterator.hpp")])
prop("Y18", "Trimming removes the maximal matching ends and nothing else",
 "trim_start and trim_end (and their predicate variants) remove the longest run of code points belonging to the given characters or satisfying the predicate at that end of the text; trim removes both. The result is a contiguous part of the text whose end code points do not match, is empty when all match, and trimming again changes nothing; malformed bytes raise YstringException exactly when met before the first non-matching code point.",
 "every text and character collection or predicate", "Tests use five texts and one character list; the predicate variants and the default characters are unused.",
 [AH, A], [("trim_*_where", AH)], ["trim", "trim_start", "trim_end", "trim_where", "trim_start_where", "trim_end_where"])
prop("Y19", "Reverse reverses characters and keeps each one intact",
 "reverse returns the text's characters (code points with their combining marks) in opposite order, each with its bytes unchanged. The result has the same length and, unless the text starts with a combining mark, reversing it again restores the text; malformed text raises YstringException.",
 "every text", "One test reverses one three-byte text.",
 [A], [("reverse", A)], ["reverse"])
prop("Y20", "Case mapping of every code point is Unicode 16.0's simple mapping",
 "to_lower, to_upper and to_title of a single code point return the simple lower, upper or title case mapping the Unicode 16.0 character database gives for it, and the code point itself when the database gives none, including all values outside Unicode.",
 "every 32-bit value", "Tests check about ten letters of Latin script.",
 ["src/Ystring/ConvertCase.cpp", "src/Ystring/LowerCaseTables.hpp", "src/Ystring/UpperCaseTables.hpp", "src/Ystring/TitleCaseTables.hpp", "src/Ystring/CharMappingTypes.hpp"], [("segment lookup, then sorted mapping lookup", "src/Ystring/ConvertCase.cpp")], ["to_lower", "to_upper", "to_title"])
prop("Y21", "Case conversion of text is pointwise; sharp s expands and words are title-cased",
 "to_lower and to_upper of a text convert every code point with its single code point mapping in order, except that upper-casing turns U+00DF into SS. to_title title-cases a letter that does not directly follow a letter (U+00DF becoming Ss), lower-cases letters that do, and keeps everything else. Malformed text, and code points that cannot be encoded, raise YstringException.",
 "every text", "Tests convert two or three short texts per function.",
 ["src/Ystring/ConvertCase.cpp"], [("string conversion loops", "src/Ystring/ConvertCase.cpp")], ["to_lower", "to_upper", "to_title"])
prop("Y22", "Case-insensitive comparison is one consistent total preorder",
 "compare, equal and less (on texts and on code points, functions and function objects) agree with one order: the lexicographic order of the texts' upper-cased code points, a proper prefix being less. Hence compare is 0 exactly when equal holds and negative exactly when less holds, the order is transitive and antisymmetric, and swapping the arguments swaps the sign; a malformed byte raises YstringException when the comparison reaches it.",
 "every pair and triple of texts and of code points up to U+10FFFF", "Tests compare three pairs.",
 [A, "include/Ystring/CaseInsensitive.hpp"], [("case_insensitive::compare/equal/less", A)], ["case_insensitive::compare", "equal", "less", "case_insensitive_compare"])
prop("Y23", "Case-insensitive search finds exactly the occurrences equal ignoring case",
 "The case-insensitive find_first, find_last, starts_with, ends_with, find_first_of and find_last_of give the nearest byte range (or prefix/suffix answer) whose code points equal the pattern's, or belong to the characters, when both are upper-cased code point by code point; the range covers the matched text, whose byte length may differ from the pattern's. Without a match, or with an empty pattern to find, the result is empty; malformed bytes met on the way raise YstringException.",
 "every text, pattern, character collection and offset", "Tests use one text in Latin script; pattern and match always have the same byte length.",
 [A, AUH], [("next/prev_case_insensitive_mismatch", AUH)], ["case_insensitive::find_first", "find_last", "starts_with", "ends_with", "find_first_of", "find_last_of"])
prop("Y24", "Case-insensitive replace and split act on exactly the case-insensitive matches",
 "case_insensitive::replace exchanges at most |n| non-overlapping case-insensitive occurrences, from the left for positive and from the right for negative limits, leaving all other bytes unchanged, and case_insensitive::split cuts at the successive leftmost case-insensitive matches of the separator or characters under the same limit and ignore-empty rules as split. Empty patterns match nothing.",
 "every text, pattern, replacement, limit and parameters", "Tests use three replacements and one split.",
 [A], [("case_insensitive::replace and split", A)], ["case_insensitive::replace", "case_insensitive::split"])
prop("Y25", "Character class and predicates agree with Unicode 16.0 for every code point",
 "get_char_class returns exactly one class for every 32-bit value: the general category Unicode 16.0 assigns to the code point (ranges given by first and last entries included), and unassigned for everything else. Each predicate (letter, mark, number, upper, lower, whitespace, newline, hex digit, ...) is true for exactly the code points of its documented classes and characters.",
 "every 32-bit value and every predicate", "Tests query nine code points and one predicate.",
 ["src/Ystring/CharClass.cpp", "src/Ystring/CharClassTables.hpp", "include/Ystring/CodepointPredicates.hpp", "tools/unicode_character_tables/make_char_class_file.py"], [("range table lookup and decoding", "src/Ystring/CharClass.cpp")], ["get_char_class", "is_letter", "is_mark", "is_whitespace", "is_newline"])
prop("Y26", "Decomposition fully expands every canonical pair and keeps the rest",
 "decompose gives, for every code point that has a two-element canonical decomposition in Unicode 16.0, that decomposition with its first element expanded repeatedly until it no longer decomposes, and the code point itself otherwise. to_decomposed applies this to every code point of a text in order and keeps the bytes of all others; it terminates for every text, is idempotent, and raises YstringException on malformed bytes.",
 "every code point and every text", "Tests decompose two characters; none needs more than three code points.",
 ["src/Ystring/Normalize.cpp", "src/Ystring/NormalizationTables.hpp"], [("decompose_char with growing buffer", "src/Ystring/Normalize.cpp")], ["decompose", "to_decomposed"])
prop("Y27", "Composition merges exactly the composable pairs and never loses text",
 "to_composed reads the text from left to right, merging the current character with the next code point whenever the two are the canonical decomposition of a code point in Unicode 16.0, and copies every other code point's bytes unchanged and in order. It keeps the text canonically the same: decomposing the composed text gives what decomposing the original gives, and composing a decomposed character gives it back.",
 "every text", "Tests compose three texts with one composed character each, none directly followed by exactly one other character.",
 ["src/Ystring/Normalize.cpp", "src/Ystring/NormalizationTables.hpp"], [("copy-range bookkeeping in to_composed", "src/Ystring/Normalize.cpp"), ("find_composed", "src/Ystring/Normalize.cpp")], ["to_composed", "to_decomposed"])
prop("Y28", "JSON escaping is complete, minimal and reversible",
 "escape_json replaces exactly the control bytes below 0x20, the double quote and the backslash: by their two-character escapes where JSON has one (b f n r t quote backslash), otherwise by backslash-u and four upper case hexadecimal digits; all other bytes are kept in order. Unescaping the result gives the original bytes. has_escapable_chars and find_first_escapable_char tell exactly whether and where (from an offset) the first such byte is.",
 "every byte string", "One test escapes one nine-byte text.",
 ["src/Ystring/Escape.cpp"], [("escape_json", "src/Ystring/Escape.cpp")], ["escape_json", "find_first_escapable_char", "has_escapable_chars"])
prop("Y29", "Unescaping translates exactly complete escape sequences and stays in bounds",
 "unescape replaces each escape sequence by the UTF-8 encoding of its character (two or more hex digits after x, four after u with surrogate pairs combined, eight after U, one to three octal digits, the control letters a b f n r t v, any other ASCII character for itself; a value above 0x10FFFF yields nothing) and keeps every other byte; the in-place overload writes the same bytes and returns their number. A sequence that is truncated, has too few digits or a value beyond 32 bits, or a backslash before a non-ASCII byte raises YstringException, wherever in the text it stands, and nothing outside the text is read. find_first_escaped_char and has_escaped_chars report the first sequence from an offset and its extent.",
 "every byte string and offset", "Tests unescape five texts and never place an octal, u or U sequence that is cut off by the end of the text.",
 ["src/Ystring/Unescape.cpp"], [("find_first_escaped_char", "src/Ystring/Unescape.cpp"), ("in-place write", "src/Ystring/Unescape.cpp")], ["unescape", "find_first_escaped_char", "has_escaped_chars"])
prop("Y30", "Incremental unescaping consumes exactly one character or nothing",
 "unescape_next first passes over backslash-newline pairs, then returns the next code point, decoding an escape sequence (one to eight hex digits after x, four after u with surrogate pairs combined, eight after U, up to three octal digits, the control letters, any other character for itself) or a plain UTF-8 character, says which of the two it was, and moves the view past exactly the bytes used. At the end of the text it returns nothing. If the next character is malformed it raises YstringException and leaves the view as it was before the call.",
 "every byte string and every sequence of calls", "Tests walk six short texts and one invalid sequence.",
 ["src/Ystring/Unescape.cpp"], [("unescape_next with backup", "src/Ystring/Unescape.cpp")], ["unescape_next"], ("inputs", "histories"), [("str", "view of the text not yet consumed", "src/Ystring/Unescape.cpp")])
prop("Y31", "A code point set contains exactly what was added",
 "After any sequence of additions of ranges, code points and code point lists, a code point is contained exactly when it was added (or, for a negated set, exactly when it was not), independently of the order of additions. Case-insensitively it is contained exactly when some code point with the same upper case form was added (negation again inverting the answer). Printing a set lists its ranges and single code points in order of addition, successive code points added one after another forming a range, with a caret first when negated.",
 "every sequence of additions and every queried code point", "No test uses the set directly.",
 ["src/Ystring/Char32Set.cpp", "include/Ystring/CodepointSet.hpp"], [("add_codepoint merging", "src/Ystring/Char32Set.cpp"), ("contains / case_insensitive_contains", "src/Ystring/Char32Set.cpp")], ["CodepointSet", "contains", "case_insensitive_contains"], ("inputs", "histories"), [("ranges, negated", "membership", "include/Ystring/CodepointSet.hpp")])
prop("Y32", "Every operation terminates with a result or YstringException on any bytes",
 "For any byte strings, well-formed or not, any limits, any signed positions and any offsets within the text, every function of the library returns or raises YstringException, in time proportionate to its input: it never crashes, hangs, raises another exception type, or reads or writes outside the given text. A raised exception leaves the caller's strings and views unchanged, except a buffer being unescaped in place.",
 "every function and every argument within its documented range", "Tests call functions almost only with valid UTF-8 and check three exceptions.",
 [A, AH, AU, AUH, D, "src/Ystring/Unescape.cpp", "src/Ystring/Escape.cpp", "src/Ystring/Normalize.cpp"], [("safe_decode_* throw", D), ("bounds capping", AU)], ["all public functions"], ("inputs", "histories"))
prop("Y33", "Results depend only on the arguments: no hidden state, any order, any thread",
 "Every function gives the same answer for the same arguments whatever calls were made before it, on other texts or with other arguments, and whatever other threads are calling at the same time on their own data; such calls do not race for memory either. Editing a text by any sequence of operations therefore gives the text obtained by applying them one by one.",
 "every history of calls and every interleaving of threads working on their own data", "Tests call each function in one fixed order in one thread, each test starting afresh.",
 [A, AU, "src/Ystring/Normalize.cpp", "src/Ystring/ConvertCase.cpp", "src/Ystring/Unescape.cpp"], [("no mutable globals; value semantics", A)], ["all public functions"], ("histories", "schedules"))
T = "tools/unicode_character_tables"
prop("Y34", "Tables generated from any Unicode data file make the library follow that file",
 "When the table headers in src/Ystring are replaced by those that tools/unicode_character_tables/make_files.sh writes for a Unicode data file, the library gives exactly the character classes, upper, lower and title case mappings, decompositions and compositions which that file states, for every code point, and text functions behave accordingly. In particular, regenerating from the bundled UnicodeData16.0.0.txt gives Unicode 16.0 again. The data file may arrange classes, ranges, case mappings (above ASCII) and two-element decompositions in any way its format allows.",
 "every well-formed Unicode data file and every code point in it", "The scripts have no tests at all, and the library's tests see one version of the tables only.",
 [T + "/make_char_class_file.py", T + "/make_case_convert_file.py", T + "/make_normalization_file.py", T + "/codegen.py", T + "/make_files.sh", "src/Ystring/CharClass.cpp", "src/Ystring/CharMappingTypes.hpp"],
 [("class ranges, alternating case and paired entries", T + "/make_char_class_file.py"), ("compact 32-code-point segments", T + "/make_case_convert_file.py"), ("sorted pair tables", T + "/make_normalization_file.py")],
 ["make_files.sh", "get_char_class", "to_lower", "to_upper", "to_title", "decompose", "to_composed", "to_decomposed"])
prop("Y35", "Ranges, byte views and class constants are plain faithful values",
 "A Subrange keeps the offset and length it was made from (directly or from iterators of any kind), its end is offset plus length, it counts as true exactly when its length is not 0, two are equal exactly when both numbers are, it prints them both, and a default one is empty at SIZE_MAX. Conversion between char and char8_t views keeps address and size. Every character class constant is a distinct bit, and the group constants are the unions of their classes.",
 "every pair of ranges, every text and every class constant", "Tests compare ranges for equality with expected values and never look at ends, printing, or the constants.",
 ["include/Ystring/Subrange.hpp", "src/Ystring/Subrange.cpp", AH, "include/Ystring/CharClass.hpp"], [("value type", "include/Ystring/Subrange.hpp")], ["Subrange", "operator<<", "to_string_view", "to_u8string_view", "CharClass"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]; assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
