#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
H = "include/u5e/"
P = "src/u5e/props/"
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "state": state or [],
                        "mechanism": [{"name": a, "where": b} for a, b in mech],
                        "observe_at": observe or [], "hook_needed": None}}
L = []
add = lambda *a, **k: L.append(prop(*a, **k))

add("C01", "Reading UTF-8 yields exactly the encoded codepoint",
    "In well-formed UTF-8 text, dereferencing an iterator (const or mutable) that is on any octet of a codepoint yields exactly the Unicode scalar value those octets encode, and it leaves the iterator on that same codepoint. It holds for every scalar value U+0000..U+10FFFF except surrogates, for every kind of underlying octet storage, signed or unsigned.",
    ["inputs"], "every scalar value, every octet offset inside its encoding, every position in every text",
    "The tests read a dozen characters, always from their first octet; there are 1,112,064 scalar values and 4.4 million (value, offset) pairs.",
    [H+"utf8_iterator.hpp", H+"utf8_util.hpp", H+"codepoint.hpp"],
    [("current_codepoint, rewind_to_start_of_codepoint", H+"utf8_iterator.hpp"), ("octet classification, codepoint_size", H+"utf8_util.hpp")],
    ["*it for utf8_const_iterator and utf8_iterator"])
add("C02", "Writing a codepoint stores exactly its UTF-8 encoding",
    "Assigning a Unicode scalar value through a mutable UTF-8 iterator that is on the first octet of a codepoint of existing text (with room for the new encoding) stores exactly the shortest UTF-8 form of that value there and touches no other octet. The iterator is left inside the codepoint just written, so reading it back gives the value and incrementing it moves to the octet right after the encoding.",
    ["inputs"], "every scalar value, written over any previous content",
    "The tests write a few characters; the size boundaries (U+007F/U+0080, U+07FF/U+0800, U+FFFF/U+10000) and U+0000 are not all among them.",
    [H+"utf8_iterator.hpp", H+"utf8_util.hpp"],
    [("proxyobject::operator=", H+"utf8_iterator.hpp"), ("encoded_size", H+"utf8_util.hpp")],
    ["*it = codepoint"])
add("C03", "UTF-8 iterators step by exactly one codepoint",
    "On well-formed UTF-8 text, incrementing an iterator that is on any octet of a codepoint moves it to the first octet of the next codepoint, or to the end after the last one; decrementing moves it to the first octet of the previous codepoint, also from the end. The prefix forms return the moved iterator, and the postfix forms return an iterator on the codepoint where it was before.",
    ["inputs"], "every text, every position, every octet offset within the codepoint, every combination of neighbouring encoded lengths",
    "The tests walk a few fixed strings from codepoint starts; they do not step from the middle of a codepoint or across all length combinations.",
    [H+"utf8_iterator.hpp", H+"utf8_util.hpp"],
    [("forward_one_codepoint, rewind_one_codepoint", H+"utf8_iterator.hpp"), ("operator++, operator--", H+"utf8_iterator.hpp")])
add("C04", "UTF-8 iterators are equal when on the same codepoint",
    "Two UTF-8 iterators on the same well-formed text compare equal exactly when both are on an octet of the same codepoint, or both are at the end. The comparison is symmetric, inequality is its negation, and comparing moves neither iterator.",
    ["inputs"], "every pair of positions (any octet of any codepoint, or the end) in every text",
    "Tests compare iterators at codepoint starts and at the end of fixed strings.",
    [H+"utf8_iterator.hpp"], [("operator==, operator!=", H+"utf8_iterator.hpp")])
add("C05", "UTF-8 iteration never touches octets outside the text",
    "Reading, incrementing, decrementing (when there is a previous codepoint) and comparing UTF-8 iterators on well-formed text access only octets of that text: in particular nothing at or after its end and nothing before its beginning.",
    ["inputs"], "every well-formed text in a buffer of exactly its size, every position including the end, every operation",
    "Tests run over NUL-terminated literals, where a read one past the end cannot be noticed.",
    [H+"utf8_iterator.hpp", H+"utf8_util.hpp"], [("operator==, rewind_one_codepoint, forward_one_codepoint", H+"utf8_iterator.hpp")])
add("C06", "The UTF-8 bounds check gives the exact verdict",
    "The bounds check accepts a range of octets exactly when iterating it cannot leave it: the range is empty, or its first octet is not a continuation octet and no leading octet in it announces more octets than remain before the end. It reads only octets of the range and changes nothing.",
    ["inputs"], "every sequence of octets, well-formed or not, of every length",
    "The tests check four short strings; the verdict depends on the octets at each of the last seven positions.",
    [H+"utf8_bounds.hpp", H+"utf8_util.hpp"], [("check", H+"utf8_bounds.hpp")])
add("C07", "Bounds enforcement repairs exactly what the check rejects",
    "Enforcing bounds replaces by '?' exactly the continuation octets before the first non-continuation octet and the leading octets that announce more octets than remain, and changes no other octet and no octet outside the range. It returns true exactly when nothing had to be changed, and the bounds check accepts the range afterwards.",
    ["inputs"], "every sequence of octets, well-formed or not, of every length",
    "The tests enforce a handful of short strings.",
    [H+"utf8_bounds.hpp", H+"utf8_util.hpp"], [("enforce", H+"utf8_bounds.hpp")])
add("C08", "Octets accepted by the bounds check are safe to iterate",
    "For any sequence of octets that the bounds check accepts, however malformed inside, reading and incrementing an iterator anywhere before the end, and decrementing one that is past the first codepoint, access only octets of the range and leave the iterator within the range.",
    ["inputs"], "every octet sequence accepted by the check, every position",
    "Tests never iterate malformed text.",
    [H+"utf8_bounds.hpp", H+"utf8_iterator.hpp"], [("check", H+"utf8_bounds.hpp"), ("rewind_to_start_of_codepoint", H+"utf8_iterator.hpp")])
add("C09", "Grapheme cluster break lookup matches the Unicode data",
    "For every integer, the grapheme cluster break lookup returns the value that the bundled Unicode GraphemeBreakProperty data assigns to that codepoint, and OTHER for codepoints the data does not list and for values that are not codepoints.",
    ["inputs"], "all 2^32 argument values",
    "Tests look up some of the 1,300 ranges; a range border, a table row or the search could be off for any other value.",
    [P+"grapheme_cluster_break.cpp", P+"grapheme_cluster_break_data.hpp", P+"GraphemeBreakProperty.txt"],
    [("resolve over the sorted range table", P+"grapheme_cluster_break.cpp")])
add("C10", "Grapheme boundaries follow the pairwise UAX #29 rules",
    "Between two adjacent codepoints there is a grapheme boundary exactly when the extended grapheme cluster rules GB3 to GB999 of Unicode 9.0, read on the two codepoints alone, say so: an emoji modifier never breaks from a preceding Extend (GB10), and two regional indicators never break (GB12, GB13).",
    ["inputs"], "every pair of codepoints, that is all 18 x 18 pairs of classes",
    "The tests exercise a fraction of the 324 class pairs with one representative each.",
    [H+"basic_grapheme_iterator.hpp", P+"grapheme_cluster_break.cpp"], [("is_grapheme_boundary", H+"basic_grapheme_iterator.hpp")])
add("C11", "Grapheme iteration partitions the text at the boundaries",
    "Iterating the graphemes of a UTF-8 or UTF-32 string or string view from begin to end visits consecutive, non-empty, non-overlapping spans that start at the beginning of the text and finish at its end, and a span ends exactly at the first following boundary of the pairwise rules. Prefix and postfix increment return the new and the previous position, and an empty text has no graphemes.",
    ["inputs"], "every text of every length in the four storage types, every grapheme of it",
    "Tests iterate a few short strings; the property quantifies over unbounded text.",
    [H+"basic_grapheme_iterator.hpp", H+"basic_grapheme.hpp", H+"basic_encodedstring.hpp"],
    [("find_end_of_grapheme, operator++", H+"basic_grapheme_iterator.hpp")],
    ["grapheme_begin(), grapheme_end(), ++, *"])
add("C12", "The grapheme at any position is the segment that contains it",
    "A grapheme iterator built at an arbitrary codepoint position of a text designates exactly the span, of the pairwise segmentation of the text, that contains this position; built at the end of the text it is the end iterator. An iterator built from explicit start and end keeps exactly those.",
    ["inputs"], "every text, every position in it",
    "Tests build grapheme iterators at a position in the middle of a grapheme for a few strings only.",
    [H+"basic_grapheme_iterator.hpp"], [("find_start_of_grapheme, find_end_of_grapheme", H+"basic_grapheme_iterator.hpp")])
add("C13", "Grapheme iterator comparison is by grapheme",
    "A grapheme iterator equals a codepoint iterator exactly when that is on a codepoint of its grapheme, or both are at the same position; two grapheme iterators on the same text are equal exactly when they are on the same grapheme, or both at the end. Inequality is the negation, and comparing changes neither operand.",
    ["inputs"], "every text, every pair of positions",
    "Tests compare at the end of the iteration and in a few spots.",
    [H+"basic_grapheme_iterator.hpp"], [("operator==, operator!=", H+"basic_grapheme_iterator.hpp")])
add("C14", "Combining class lookup matches the Unicode data",
    "For every integer, the canonical combining class lookup returns the class in the bundled UnicodeData for that codepoint and 0 for everything the data does not list; the combining order predicate holds exactly when the first argument's class is lower than the second's.",
    ["inputs"], "all 2^32 argument values; all pairs for the predicate",
    "Tests look up a couple of the 700 marks.",
    [P+"canonical_combining_class.cpp", P+"canonical_combining_class_data.hpp", P+"UnicodeData.txt", H+"canonical_combining_order.hpp"],
    [("resolve over the sorted table", P+"canonical_combining_class.cpp")])
add("C15", "Canonical decomposition lookup matches the Unicode data",
    "For every integer, the canonical decomposition lookup returns the full (recursive) canonical decomposition that Unicode 9.0 defines for that codepoint (the bundled UnicodeData, and the algorithmic one of Hangul syllables), terminated by 0, and nothing for a codepoint that does not decompose.",
    ["inputs"], "all 2^32 argument values, every element of every mapping",
    "Tests look up three of 2,060 mappings.",
    [P+"canonical_decomposition_mapping.cpp", P+"canonical_decomposition_mapping_data.hpp", P+"canonical_decomposition_mapping_data.pl", P+"UnicodeData.txt"],
    [("resolve over the sorted table", P+"canonical_decomposition_mapping.cpp")])
add("C16", "Compatibility decomposition lookup matches the Unicode data",
    "For every integer, the compatibility decomposition lookup returns the full (recursive) compatibility decomposition that Unicode 9.0 defines for that codepoint (the bundled UnicodeData with any compatibility tag, and the algorithmic one of Hangul syllables), terminated by 0, and nothing for a codepoint that does not decompose.",
    ["inputs"], "all 2^32 argument values, every element of every mapping",
    "Tests look up three mappings.",
    [P+"compatibility_and_canonical_decomposition_mapping.cpp", P+"compatibility_and_canonical_decomposition_mapping_data.hpp", P+"compatibility_and_canonical_decomposition_mapping_data.pl", P+"UnicodeData.txt"],
    [("resolve over the sorted table", P+"compatibility_and_canonical_decomposition_mapping.cpp")])
add("C17", "Composition lookup matches the Unicode data",
    "For every pair of integers, the canonical composition lookup succeeds exactly when Unicode 9.0 has a primary composite for that pair (from the bundled UnicodeData: a canonical pair decomposition, not listed in CompositionExclusions, not a singleton and not a non-starter decomposition; or an algorithmic Hangul composition), and then stores that composite; otherwise it stores nothing.",
    ["inputs"], "all 2^64 pairs of argument values",
    "Tests look up two of the 940 pairs.",
    [P+"canonical_composition_mapping.cpp", P+"canonical_composition_mapping_data.hpp", P+"canonical_composition_mapping_data.pl", P+"CompositionExclusions.txt", P+"UnicodeData.txt"],
    [("resolve over the sorted table", P+"canonical_composition_mapping.cpp")])
add("C18", "Decomposing one codepoint appends its decomposition",
    "The canonical and the compatibility decomposition operation append to the output exactly the codepoints of the respective decomposition lookup, or the codepoint itself when there is none, after everything that was there. They return how many codepoints were appended.",
    ["inputs"], "every codepoint (U+0000 included), every previous output content",
    "Tests decompose one codepoint.",
    [H+"codepoint_decomposition.hpp", H+"canonical_decomposition.hpp", H+"compatibility_and_canonical_decomposition.hpp"],
    [("codepoint_decomposition", H+"codepoint_decomposition.hpp")])
add("C19", "Canonical ordering sorts marks stably within each run",
    "In every normalization form the decomposed codepoints are put in canonical order: each maximal run of codepoints with a non-zero combining class is stably sorted by combining class, and codepoints of class zero stay where they are, so that no mark moves across a starter.",
    ["inputs"], "every sequence of codepoints of every length",
    "Tests order one or two marks; runs with equal classes, several runs and long runs are not sampled.",
    [H+"canonical_combining_order.hpp", H+"normalization_form_d.hpp", H+"normalization_form_c.hpp", H+"normalization_form_kd.hpp", H+"normalization_form_kc.hpp"],
    [("canonical ordering step of the normalization forms", H+"canonical_combining_order.hpp")])
add("C20", "Canonical composition follows the Unicode algorithm",
    "Composing a canonically ordered sequence yields exactly the result of the Unicode canonical composition algorithm: from left to right, each codepoint that is not blocked from the last starter and has a primary composite with it is merged into it, and every other codepoint is kept in order. The count grows by exactly the number of merged codepoints, and the returned iterator is the end of the result.",
    ["inputs"], "every canonically ordered sequence of codepoints of every length",
    "Tests compose a few pairs; blocking, several marks, chains of compositions and starter-starter compositions need specific sequences.",
    [H+"canonical_composition.hpp", P+"canonical_composition_mapping.cpp"], [("canonical_composition", H+"canonical_composition.hpp")])
add("C21", "Forms D and KD append the normalized grapheme",
    "Normalization form D (KD) of a grapheme appends to the output, in its encoding and after what was there, exactly the canonical (compatibility) decompositions of the grapheme's codepoints, in text order, put in canonical order; it returns the number of codepoints appended. The result does not depend on whether input or output is UTF-8 or UTF-32.",
    ["inputs"], "every grapheme (any number of codepoints), every previous output, all input and output encodings",
    "Tests normalize three fixed strings.",
    [H+"normalization_form_d.hpp", H+"normalization_form_kd.hpp", H+"filter.hpp", H+"canonical_decomposition.hpp", H+"basic_encodedstring.hpp"],
    [("normalization_form_d, normalization_form_kd", H)])
add("C22", "Forms C and KC append the normalized, composed grapheme",
    "Normalization form C (KC) of a grapheme appends to the output, in its encoding and after what was there, exactly the canonical composition of the grapheme's normalization form D (KD); it returns the number of codepoints appended. The result does not depend on whether input or output is UTF-8 or UTF-32.",
    ["inputs"], "every grapheme (any number of codepoints), every previous output, all input and output encodings",
    "Tests normalize three fixed strings.",
    [H+"normalization_form_c.hpp", H+"normalization_form_kc.hpp", H+"canonical_composition.hpp", H+"basic_encodedstring.hpp"],
    [("normalization_form_c, normalization_form_kc", H)])
add("C23", "Filter applies the operation once per element, in order",
    "Filtering a range calls the given operation exactly once for each element (codepoint or grapheme) from the first to the last, in order, each time with that element and the caller's output object, and nothing else writes to the output. It returns the sum of the values the operation returned, 0 for an empty range.",
    ["inputs", "programs"], "every range of every length, over codepoints and over graphemes in every storage type, every operation",
    "One test filters one string with one operation.",
    [H+"filter.hpp"], [("filter", H+"filter.hpp")])
add("C24", "Conversion from UTF-32 appends each codepoint's encoding",
    "Appending a UTF-32 range to an encoded string adds, after what was there, exactly the target encoding of each codepoint of the range in order: its shortest UTF-8 form, or the codepoint itself for UTF-32. Nothing else in the string changes, and reading the appended part back gives the same codepoints.",
    ["inputs"], "every sequence of Unicode scalar values (U+0000 included) of every length, every previous content",
    "Reached only through three normalization tests with a handful of characters.",
    [H+"utf8.hpp", H+"utf32ne.hpp", H+"basic_encodedstring.hpp"], [("append_from_utf32ne", H+"utf8.hpp")])
add("C25", "Appending a range copies whole codepoints or graphemes",
    "Appending a range given by codepoint iterators to a string of the same encoding adds exactly the codepoints from the one the first iterator is on up to, not including, the one the last is on, even when an iterator is inside a UTF-8 codepoint; given by grapheme iterators it adds exactly the graphemes from the first up to, not including, the last. What was in the string before is kept, and the string itself is returned.",
    ["inputs"], "every source text, every pair of positions in it, every previous content, string and view sources in both encodings",
    "One example truncates one string.",
    [H+"basic_encodedstring.hpp", H+"utf8.hpp", H+"utf32ne.hpp"], [("append overloads, native_const_iterator", H+"basic_encodedstring.hpp")])
add("C26", "An encoded string exposes exactly its native string",
    "Construction from, and assignment of, an encoded string or view give it exactly the source's native content and leave the source alone; its codepoint, native and grapheme begin and end positions are exactly the begin and end of that content, and asking for them changes nothing. A grapheme keeps exactly the begin and end it was built from.",
    ["inputs"], "every content of every length in the four storage types",
    "Tests use these on fixed literals; assignment is never instantiated.",
    [H+"basic_encodedstring.hpp", H+"basic_grapheme.hpp"], [("constructors, operator=, *_begin, *_end", H+"basic_encodedstring.hpp")])
add("C27", "Normalization tables make the normal forms stable",
    "The property tables are mutually consistent, so that normalizing twice equals normalizing once: every codepoint inside a decomposition has no further decomposition and each decomposition is in canonical order; every composite decomposes canonically to the decomposition of its pair; and a composition pair always starts with a class zero codepoint.",
    ["inputs"], "every codepoint and every pair of codepoints",
    "Idempotence is not tested at all; it rests on all 6,500 rows of four tables taken together.",
    [P+"canonical_decomposition_mapping_data.hpp", P+"compatibility_and_canonical_decomposition_mapping_data.hpp", P+"canonical_composition_mapping_data.hpp", P+"canonical_combining_class_data.hpp"],
    [("the four lookups", P)])
add("C28", "Normalizing by grapheme equals normalizing the whole text",
    "No normalization step can reach across a grapheme boundary: a codepoint whose decomposition starts with a non-zero combining class never begins a grapheme except at the start of text or after a control, and there is never a boundary between two codepoints whose decompositions, put side by side, would compose. So normalizing each grapheme and concatenating gives the normal form of the whole text.",
    ["inputs"], "every pair of adjacent codepoints",
    "It ties four tables and the boundary rules together over all pairs; tests normalize a few short texts.",
    [H+"basic_grapheme_iterator.hpp", H+"normalization_form_d.hpp", H+"normalization_form_c.hpp", P+"grapheme_cluster_break_data.hpp"],
    [("is_grapheme_boundary and the lookups", H+"basic_grapheme_iterator.hpp")])
add("C29", "Reverse iteration visits the same codepoints backwards",
    "A reverse iterator over a text reads exactly the codepoint before its position, and reading leaves it where it is. Incrementing it moves it by exactly one codepoint towards the beginning and decrementing by one towards the end; two of them are equal exactly when they are at the same codepoint (or both at the same end). None of this accesses octets outside the text or memory that is gone.",
    ["inputs"], "every text, every position (any octet of a codepoint, or the end), const and mutable iterators of the four storage types",
    "No test uses a reverse iterator at all.",
    [H+"basic_encodedstring.hpp", H+"utf8_iterator.hpp"],
    [("reverse_iterator, const_reverse_iterator", H+"basic_encodedstring.hpp"), ("reference typedef, operator--, operator*", H+"utf8_iterator.hpp")])
add("C30", "A codepoint is exactly its 32 bit value",
    "A codepoint made from, or assigned, an integer or another codepoint holds exactly that 32 bit value and converts back to exactly it; a default one is 0, and assignment returns the codepoint assigned to. Two codepoints, or a codepoint and an integer in either order, compare equal exactly when the values are equal (and unequal or less by value), and comparing or copying changes neither.",
    ["inputs"], "every 32 bit value and every pair of them",
    "Tests compare a few characters; there are 2^64 pairs of values.",
    [H+"codepoint.hpp", H+"codepoint_traits.hpp"],
    [("constructors, operator=, operator int, operator==", H+"codepoint.hpp")])
add("C31", "UTF-8 octets and lengths are classified exactly",
    "Every octet is classified by its leading bits alone: below 0x80 a 7 bit character, 0x80 to 0xBF a continuation, 0xC0 and above the start of a sequence that announces as many octets as it has leading one bits; any other octet counts as one octet long. The length computed for a codepoint U+0000 to U+10FFFF is that of its shortest UTF-8 form.",
    ["inputs"], "all 256 octets and all codepoints U+0000..U+10FFFF",
    "Tests see the octets of a dozen characters; each boundary between lengths must be right.",
    [H+"utf8_util.hpp"], [("is_7bit_character, is_codepoint_continuation, is_codepoint_start, codepoint_size, encoded_size", H+"utf8_util.hpp")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in L:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(L), "properties")
