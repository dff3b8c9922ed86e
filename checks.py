"""What each check runs, and within which bounds.

quick/thorough: harness:parameter jobs. covers: marks every run must reach (non-vacuity). cross_check: share of the
verdicts reached by enumerating small domains that is also put to the solver (quick tier)."""
LEAVES = "leaf types: bool, char, str, all ten integers, compacts of the five unsigned integers (also through single-field wrappers), bit sequences of all eight store/order formats"
NAMES1 = "fields all named, all unnamed or mixed; field and variant names of types are a few fixed ones, variant indexes are not consecutive"
OPAQUE = "The digits of symbolic numbers inside error texts are not modelled (nothing the property states depends on them)"

CHECKS = {
    "C01": {
        "quick": ["h_c01:0", "h_c01:1", "h_c01:2", "h_c01:3"] + ["h_c01_big:0", "h_c01_big:1", "h_c01_big:2", "h_c01_big:3"],
        "thorough": ["h_c01:0", "h_c01:1", "h_c01:2", "h_c01:3"] + ["h_c01_big:0", "h_c01_big:1", "h_c01_big:2", "h_c01_big:3"],
        "covers": {"h_c01": [1], "h_c01_big": [1]},
        "bounds": "8 layouts (Display, alternate, compact, pretty with white-space indents and leading indent, plain writer, printers of the parts); leaves: bools, any ASCII char or one per class outside, strings of up to 3 characters, integers within 255 of 9 boundary numbers with either sign, bit sequences of up to 9 bits; names: any 2 or 3 ASCII characters, one non-ASCII character, 14 fixed ones; composites and variants of up to 2 entries, nesting of up to 3 containers; optionally followed by other text; big values: texts, names and bit sequences of 3 to 300, composites and variants of 3 to 130 entries, nests of 4 to 33 levels, with any character (ASCII, or one per class) at one of four places; every number within 2 of each power of two and of ten",
        "outside": "texts, names and values of other sizes and with more than one part of them changed at once; characters outside ASCII other than one per class (9 classes)",
    },
    "C02": {
        "quick": ["h_c02:5", "h_c02:6", "h_c02:12", "h_c02:13", "h_c02:20"] + ["h_c02_big:0", "h_c02_big:1", "h_c02_big:2"],
        "thorough": ["h_c02:%d" % n for n in (1, 2, 3, 4, 5, 6, 7, 11, 12, 13, 14, 20)] + ["h_c02_big:0", "h_c02_big:1", "h_c02_big:2", "h_c02_big:10"],
        "covers": {"h_c02": [1, 2], "h_c02_big": [1, 2]},
        "bounds": "every ASCII text of 5 or 6 characters (thorough: up to 7); every text of 2 or 3 (4) ASCII characters and one non-ASCII character of 9 classes anywhere; 16 texts covering all of the syntax with any one character inserted, replaced, removed, or the text cut after it; texts of one construct repeated 20 to 130 (thorough: 19 to 300) times with any character put into it, 39-digit numbers next to the limits with any character replaced, nests of up to 40 levels around any character",
        "outside": "longer texts other than the mutated templates; nesting deeper than the stack holds",
    },
    "C03": {
        "quick": ["h_c03:4", "h_c03:5", "h_c03:13", "h_c03:20"] + ["h_c03_big:0", "h_c03_big:1", "h_c03_big:2"],
        "thorough": ["h_c03:%d" % n for n in (1, 2, 3, 4, 5, 6, 7, 11, 12, 13, 14, 20)] + ["h_c03_big:0", "h_c03_big:1", "h_c03_big:2", "h_c03_big:10"],
        "covers": {"h_c03": [1, 2], "h_c03_big": [1, 2]},
        "bounds": "every ASCII text of 4 or 5 characters (thorough: up to 7); every text of 3 (4) ASCII characters and one non-ASCII character of 9 classes anywhere; 16 texts covering all of the syntax (128-bit boundary numbers, escapes, names) with any one character inserted, replaced, removed, or the text cut after it; compared with a reference parser written from the documented syntax; texts of one construct repeated 20 to 130 (thorough: 19 to 300) times with any character put into it, 39-digit numbers next to the limits with any character replaced, nests of up to 40 levels around any character",
        "outside": "longer texts other than the mutated templates",
    },
    "C04": {
        "quick": ["h_c04:0", "h_c04:1", "h_c04:4", "h_c04_fmt:1", "h_c04_fmt:2"] + ["h_c04:7", "h_c04_fmt:10", "h_c04_fmt:11"],
        "thorough": ["h_c04:0", "h_c04:1", "h_c04:3", "h_c04:4", "h_c04:5", "h_c04:6", "h_c04_fmt:1", "h_c04_fmt:2", "h_c04_fmt:3"] + ["h_c04:7", "h_c04_fmt:10", "h_c04_fmt:11"],
        "covers": {"h_c04": [1, 2, 3], "h_c04_fmt": [1, 2]},
        "bounds": "two custom parsers recognising texts by their first character, which decline (also having moved their cursor), fail at a place, fail over a range, or take one or two characters, on 9 texts with multi-byte characters around, those with any character replaced or cut there, and any text of 3 (thorough: 5) ASCII characters followed by others; two custom formatters accepting by shape or number, with any number 0..3, on values of nesting up to 2 (3), with each of three layouts; failing formatters; custom parsers after 40 to 130 entries (up to 800 bytes in), taking up to 301 characters; formatters on values of 40 entries or 20 levels",
        "outside": "more than two custom parsers or formatters; parsers with state",
    },
    "C05": {
        "quick": ["h_c05:3", "h_c05:4", "h_c05:12", "h_c05:13", "h_c05:24", "h_c05:25", "h_c05:30", "h_c05_fmt:3"] + ["h_c05_big:0"],
        "thorough": ["h_c05:%d" % n for n in (2, 3, 4, 5, 12, 13, 14, 24, 25, 26, 30)] + ["h_c05_fmt:3", "h_c05_fmt:4"] + ["h_c05_big:0"],
        "covers": {"h_c05": [1, 2, 3, 4, 5], "h_c05_fmt": [1, 2], "h_c05_big": [1, 2]},
        "bounds": "every text of 3 or 4 (thorough: 5) ASCII characters; 0x and every 4 or 5 (6) ASCII characters; 0x and up to 3 (4) with one non-ASCII character; a 20-character literal with any character replaced; each also inside a larger text; values of up to 3 (4) entries, any bytes, the last one any 128-bit number or of another kind, in every shape of container; literals of 3 to 300 bytes with any character at one of four places, parsed alone and as the last of as many entries",
        "outside": "longer literals other than with one character replaced; values of more than 4 entries that are not all bytes",
    },
    "C06": {
        "quick": ["h_c06:0", "h_c06:1", "h_c06:2", "h_c06:4", "h_c06:11", "h_c06:12"] + ["h_c06:5"],
        "thorough": ["h_c06:0", "h_c06:1", "h_c06:2", "h_c06:3", "h_c06:4", "h_c06:11", "h_c06:12"] + ["h_c06:5"],
        "covers": {"h_c06": [1, 2, 3]}, "cross_check": 0,
        "bounds": "every text of up to 2 ASCII characters and a non-ASCII one; addresses of 8 network prefixes (one and two bytes, valid or not) with payloads of 8 lengths up to 33 bytes, with right and wrong checksums, followed by 9 kinds of text; the shortest encodings (0 to 3 bytes before the checksum, any first byte, with a whole, half and missing checksum); 7 addresses or words followed by any two ASCII characters; 3 short addresses with any one character replaced by any ASCII character, and a full-size one with one of 4 (thorough: any) replaced; base58 and blake2b are computed exactly; payloads of 34 to 200 bytes with an extra leading 1 or trailing character",
        "outside": "two characters of an address changed at once (collisions of the two-byte checksum exist and would count as valid)",
    },
    "C07": {
        "quick": ["h_c07:0", "h_c07:1", "h_c07:2", "h_c07:3"] + ["h_c07_u256:0", "h_c07_big:0", "h_c07_big:1", "h_c07_big:2", "h_c07_big:3", "h_c07_big:9"],
        "thorough": ["h_c07:0", "h_c07:1", "h_c07:2", "h_c07:3"] + ["h_c07_u256:0", "h_c07_big:0", "h_c07_big:1", "h_c07_big:2", "h_c07_big:3", "h_c07_big:9"],
        "covers": {"h_c07": [1], "h_c07_big": [1]},
        "bounds": LEAVES + "; containers (sequence, array, tuple, struct, enum) of up to 2 parts around them; containers in containers, three deep; sequences of up to 2, strings of up to 2 characters, 9 bits; all numbers; " + NAMES1 + "; sequences, texts, bits and arrays of 3 to 300, texts and bits of 16383 to 16385 entries, structs, tuples and enums of 3 to 40 fields or variants, nests of 4 to 17 levels, with one part of four symbolic; any 256-bit number in final position",
        "outside": "sequences and texts of other lengths and with more than one entry symbolic; compact encodings of more than 16 bytes; 256-bit numbers followed by anything (the decoder takes them to the end: see DESIGN.md); recursive types (see C08)",
    },
    "C08": {
        "quick": ["h_c08:9", "h_c08:13", "h_c08:23", "h_c08:34", "h_c08:45", "h_c08:55"] + ["h_c08_big:0", "h_c08_big:1"],
        "thorough": ["h_c08:9", "h_c08:13", "h_c08:14", "h_c08:57", "h_c08:23", "h_c08:24", "h_c08:33", "h_c08:34", "h_c08:45", "h_c08:46"] + ["h_c08_big:0", "h_c08_big:1"],
        "covers": {"h_c08": [1, 2], "h_c08_big": [1, 2]},
        "bounds": "all byte strings of up to 3 bytes (9 for leaf types, 4 for containers three deep, 5 for three recursive types and for texts, characters and bits in containers; thorough: up to 7) against the types of C07; plain decoder, tracing decoder, field list (of a struct of all named, unnamed or mixed fields, or of one field); every allocation at most 1024 + 512 * length bytes; inputs of up to 6 bytes and 0 or 9 more claiming lengths of up to 2^32; numbers and compacts from all inputs of up to 18 bytes, 256-bit ones of 31 to 33",
        "outside": "longer inputs; sequences of elements that take no bytes; nesting deeper than the stack holds",
    },
    "C09": {
        "quick": ["h_c09:0", "h_c09:1", "h_c09_kinds:0", "h_c09_kinds:1"] + ["h_c09_big:0", "h_c09_big:1"],
        "covers": {"h_c09": [1, 2], "h_c09_kinds": [1, 2], "h_c09_big": [1, 2]}, "assumptions": [OPAQUE],
        "bounds": "all 2^129 integer values against all ten integer types and five compacts, up to three single-field tuple/struct layers on the type, in the compact and on the value; every kind of primitive (any bool, char, strings of up to 3 characters, 256-bit number, up to 10 bits) against 16 kinds of type with up to three layers; strings of 7 to 16384 characters with any one of them at four places, bit sequences of 8 to 300, 256-bit numbers to arrays of 0 to 64 bytes; all integers through up to 15 layers on either side and 5 inside a compact",
        "outside": "arrays of one element as wrappers",
    },
    "C10": {
        "quick": ["h_c10:%d" % n for n in (111, 211, 311, 112, 121, 122, 212, 221)] + ["h_c10_bits:3"] + ["h_c10_big:0", "h_c10_big:1", "h_c10_big:2", "h_c10_big:3"],
        "thorough": ["h_c10:%d" % n for n in (111, 211, 311, 112, 121, 122, 212, 221, 222, 132)] + ["h_c10_bits:3", "h_c10_bits:5"] + ["h_c10_big:0", "h_c10_big:1", "h_c10_big:2", "h_c10_big:3"],
        "covers": {"h_c10": [1, 2], "h_c10_bits": [1, 2], "h_c10_big": [1, 2]}, "assumptions": [OPAQUE],
        "bounds": "values and types nested up to 2 deep with 1 or 2 (3 at depth 1) parts (thorough: both 2 deep with 2 parts, and types 3 deep), all shapes, named fields in different orders and with different names, extra fields; bit sequences from up to 3 (5) entries of any kind; all numbers in a byte, all numbers for bits; compared with the set of all encodings the matching rules allow; sequences, arrays, tuples and bits of 3 to 300 entries (of the right number, one more and one less), structs and variants of 4 to 40 fields (moved, missing, renamed, extra), up to 5 layers on either side; 2 to 5 named fields in any order, one renamed, missing or more; with any byte",
        "outside": "wider and deeper values and types; duplicate field names (the library takes the last); which of several possible ways of skipping layers is taken",
    },
    "C11": {
        "quick": ["h_c11:212", "h_c11:221", "h_c11_work:112", "h_c11_work:212", "h_c11_recursive:6", "h_c11_recursive:10", "h_c11_kids:8"] + ["h_c11_big:0", "h_c11_big:1", "h_c11_big:2", "h_c11_big:3"],
        "thorough": ["h_c11:212", "h_c11:221", "h_c11:122", "h_c11_work:112", "h_c11_work:120", "h_c11_work:212", "h_c11_work:308", "h_c11_recursive:6", "h_c11_recursive:10", "h_c11_recursive:14", "h_c11_kids:8"] + ["h_c11_big:0", "h_c11_big:1", "h_c11_big:2", "h_c11_big:3"],
        "covers": {"h_c11": [1, 2], "h_c11_work": [1, 2], "h_c11_recursive": [1, 2], "h_c11_big": [1, 2]}, "assumptions": [OPAQUE],
        "bounds": "values and types as in C10, any three bytes in the output before; work (types looked up) at most 20 (d+1)^2 for values of single entries nested d = 12 deep, of all namings, against all types nested up to 2 (thorough: 3) deep and two types that contain themselves; the big values and types of C10 after 0 to 300 bytes of output",
        "outside": "wider nests; work other than type lookups",
    },
    "C12": {
        "quick": ["h_c12:9", "h_c12:13", "h_c12:33", "h_c12:45", "h_c12:56", "h_c12:102", "h_c12:113", "h_c12:123"] + ["h_c12_big:10", "h_c12_big:1", "h_c12_big:2", "h_c12_big:9"],
        "thorough": ["h_c12:%d" % n for n in (9, 13, 14, 23, 34, 46, 57, 102, 103, 113, 114, 123, 124, 133)] + ["h_c12_big:10", "h_c12_big:1", "h_c12_big:2", "h_c12_big:9", "h_c12_big:0"],
        "covers": {"h_c12": [1, 2, 3, 4], "h_c12_big": [1, 2]},
        "bounds": "all byte strings of up to 3 bytes (9 for leaf types, 3 for containers three deep, 5 for recursive types, 6 for texts, characters and bits in containers; thorough: one more, and containers in containers) against the types of C07; the error text (path, what was decoded so far) against a reference decoder, for containers and containers in containers of bool, u8, str, char and compacts; the big types of C07 with whole encodings and ones cut in the middle, one byte short and empty, with the path of the error",
        "outside": "other long inputs, deeper types",
    },
    "C13": {
        "quick": ["h_c13:0", "h_c13:1", "h_c13:2", "h_c13:13", "h_c13:23", "h_c13:34", "h_c13_encode:112", "h_c13_encode:211"] + ["h_c13_big:0", "h_c13_big:1"],
        "thorough": ["h_c13:0", "h_c13:1", "h_c13:2", "h_c13:13", "h_c13:14", "h_c13:23", "h_c13:24", "h_c13:33", "h_c13:34", "h_c13_encode:112", "h_c13_encode:211", "h_c13_encode:212"] + ["h_c13_big:0", "h_c13_big:1"],
        "covers": {"h_c13": [1, 2], "h_c13_encode": [1, 2, 3], "h_c13_big": [1, 2]}, "assumptions": [OPAQUE],
        "bounds": "lists of up to 2 fields (3 of simple types), named, unnamed or mixed, of leaf types and containers of them; every encoding of them (sequences of up to 2, 3 bits, 1 character) and all byte strings of up to 3 bytes (4 for containers three deep; thorough: 4); decode_as_fields, and the DecodeAsFields impls of Composite and Value; encoding of values as in C10; lists of 4 to 40 fields, decoded whole and cut, encoded with fields moved, missing and extra; values of 2 to 5 named fields in any order, one of another name, encoded to lists of as many",
        "outside": "other long lists, deeper types",
    },
    "C14": {
        "quick": ["h_c14:0", "h_c14:1", "h_c14:2", "h_c14:3"] + ["h_c14_big:0", "h_c14_big:1", "h_c14_big:2", "h_c14_big:9"],
        "covers": {"h_c14": [1], "h_c14_big": [1]},
        "bounds": "types and encodings as in C07 (sequences of up to 2, 3 bits, 1 character); plain and tracing decoders with ids, the visitor without; the big types of C07",
        "outside": "other sizes",
    },
    "C15": {
        "quick": ["h_c15:%d" % n for n in range(4)],
        "covers": {"h_c15": [1, 2]}, "assumptions": [OPAQUE],
        "bounds": "all 2^128 numbers of both signs; all twelve integer types; the number itself and in options, tuples, sequences, arrays, maps, structs, tuple and struct variants; the three serializable types",
        "outside": "places deeper than one level",
    },
    "C16": {
        "quick": ["h_c16:0", "h_c16:1", "h_c16:2", "h_c16:10", "h_c16:11", "h_c16_bad:0", "h_c16_bad:1", "h_c16_bad:2", "h_c16_derived:1"] + ["h_c16:20", "h_c16:21"],
        "thorough": ["h_c16:0", "h_c16:1", "h_c16:2", "h_c16:3", "h_c16:10", "h_c16:11", "h_c16:12", "h_c16_bad:0", "h_c16_bad:1", "h_c16_bad:2", "h_c16_bad:3", "h_c16_derived:1", "h_c16_derived:2"] + ["h_c16:20", "h_c16:21"],
        "covers": {"h_c16": [1], "h_c16_bad": [1], "h_c16_derived": [1]}, "assumptions": [OPAQUE],
        "bounds": "all types of serde's data model nested up to 2 (thorough: 3) deep with up to 2 parts, and all data of them (any number, bool, char, strings of up to 1 character, up to 2 items or bytes); struct fields in reverse order with one more anywhere; floats and 6 kinds of wrong key at up to 2 (3) levels; one large derived struct with a derived enum in it, any contents; sequences, maps, tuples, bytes and texts of 3 to 300 entries, data nested 4 to 33 deep, with one part symbolic",
        "outside": "newtype structs and variants (serialized as composites of one, deserialized from the bare value: they do not round trip, by the library's design); deeper types, longer data",
    },
    "C17": {
        "quick": ["h_c17:%d" % (10 * n + l) for n in range(13) for l in (1, 2 if n in (0, 1, 4) else 0)] + ["h_c17_form:0", "h_c17_form:1"] + ["h_c17:8", "h_c17:9", "h_c17:38", "h_c17:59", "h_c17_form:8", "h_c17_form:9"],
        "thorough": ["h_c17:%d" % (10 * n + 2) for n in range(13)] + ["h_c17:3", "h_c17_form:0", "h_c17_form:1", "h_c17_form:2"] + ["h_c17:8", "h_c17:9", "h_c17:38", "h_c17:59", "h_c17_form:8", "h_c17_form:9", "h_c17:18", "h_c17:19", "h_c17:28", "h_c17:29", "h_c17:38", "h_c17:39", "h_c17:48", "h_c17:49", "h_c17:58", "h_c17:59", "h_c17:68", "h_c17:69", "h_c17:78", "h_c17:79", "h_c17:88", "h_c17:89", "h_c17:98", "h_c17:99", "h_c17:108", "h_c17:109", "h_c17:118", "h_c17:119", "h_c17:128", "h_c17:129"],
        "covers": {"h_c17": [1, 2], "h_c17_form": [1, 2, 3, 4]}, "assumptions": [OPAQUE],
        "bounds": "values of all shapes nested up to 2 (thorough: 3) deep with up to 2 entries, all numbers, bools, chars, strings of up to 1 character, up to 2 bits, keys with the special one among them; the value itself, its parts, and it as a field, element, map entry, option, newtype, variant field; the form it is serialized to, nested up to 1 (2) deep with any 256-bit numbers; values of 3 to 300 entries or characters, or 3 to 130 levels or entries",
        "outside": "composites that have further fields after the special key; other sizes",
    },
    "C18": {
        "quick": ["h_c18:1", "h_c18:31", "h_c18:22", "h_c18:13", "h_c18:14"] + ["h_c18_big:0", "h_c18_big:1"],
        "thorough": ["h_c18:1", "h_c18:31", "h_c18:41", "h_c18:22", "h_c18:32", "h_c18:13", "h_c18:14", "h_c18:23"] + ["h_c18_big:0", "h_c18_big:1"],
        "covers": {"h_c18": [1, 2, 3, 4], "h_c18_big": [1, 2, 3, 4]},
        "bounds": "all positions, and names of up to 2 ASCII characters, empty or not, and one with a character outside; in values and containers of all kinds with up to 3 (thorough: 4) entries of any such names; lookups after lookups, up to 3, in values nested up to 4 deep with up to 2 (3) entries and names of any one ASCII character; every location type and every indexable type; any position, and names differing in any one of their first three characters, in values of 17 to 300 entries, with names occurring twice; chains of 5 to 40 lookups",
        "outside": "longer names, wider values",
    },
    "C19": {
        "quick": ["h_c19:0", "h_c19_build:3", "h_c19_context:21", "h_c19_context:32", "h_c19_context:23", "h_c19_context:14", "h_c19_macro:0"] + ["h_c19_build:10", "h_c19_context:100", "h_c19_context:101", "h_c19_context:102"],
        "thorough": ["h_c19:0", "h_c19_build:4", "h_c19_context:31", "h_c19_context:32", "h_c19_context:33", "h_c19_context:24", "h_c19_context:14", "h_c19_macro:0"] + ["h_c19_build:10", "h_c19_context:100", "h_c19_context:101", "h_c19_context:102"],
        "covers": {"h_c19": [1], "h_c19_build": [1, 2], "h_c19_context": [1], "h_c19_macro": [1]},
        "bounds": "all numbers of all twelve integer types, bools, chars, strings of up to 3 characters, 256-bit numbers, up to 9 bits; containers of up to 3 (thorough: 4) entries with any contents and names of up to 2 characters; values nested up to 4 deep or 3 wide with any contexts, mapped by a family of injective functions; 36 uses of the macro covering its grammar, any contents; containers of 9 to 300 entries; contexts in values of up to 130 entries or levels",
        "outside": "functions of contexts with state of their own; other uses of the macro",
    },
    "C20": {
        "quick": ["h_c20:0", "h_c20:1", "h_c20_variant:0", "h_c20_variant:1"] + ["h_c20:20", "h_c20:21"],
        "thorough": ["h_c20:0", "h_c20:1", "h_c20:2", "h_c20_variant:0", "h_c20_variant:1"] + ["h_c20:20", "h_c20:21"],
        "covers": {"h_c20": [1, 2], "h_c20_variant": [1, 2, 3, 4, 5]}, "assumptions": [OPAQUE],
        "bounds": "all trees of serde's data model nested up to 1 (thorough: 2) deep with up to 2 entries, every claimed size that is below 4 or at least 2^14 (or none); every allocation at most 2 MiB; sequences, maps, bytes and texts of 3 to 300 entries, nests of 4 to 33 levels, claiming 6 sizes",
        "outside": "deeper trees; keys that are bytes other than one free byte and fixed ones; claimed sizes from 4 to 2^14",
    },
    "C21": {
        "quick": ["h_c21:%d" % n for n in range(7)],
        "covers": {"h_c21": [1, 2]}, "cross_check": 0.1,
        "bounds": "7 combinations of layout and indents, with and without contexts and a custom formatter, and Display, alternate Display, to_string, to_writer and the printers of the parts; leaves as in C01 and 256-bit numbers; names as in C01; composites and variants of up to 2 entries, nesting of up to 3 containers; 3 to 17 entries or levels; four entries side by side, two of them containers of 0 to 3; any ASCII character as context; writers that take up to 0, 1, 2, 5, 9, 14 or 99 bytes",
        "outside": "other indents; larger values; width, fill and precision given to Display",
    },
    "C22": {
        "quick": ["h_c22:%d" % n for n in range(5)],
        "covers": {"h_c22": [1]}, "assumptions": [OPAQUE],
        "bounds": "types of 7 kinds of container of two parts (one of them a number) nested up to 2 deep around bool, u8, compact, text and bits; one named part around one of these; sequences of 2 or 3 entries; 3 to 257 entries, named or not; any numbers out of range, 5 kinds of part that does not fit, anywhere",
        "outside": "containers of one unnamed part (either side may be a layer to skip); what the error says besides its location",
    },
}
NOT_APPLICABLE = {}
