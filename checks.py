"""What each check explores, and the bounds it states."""

_VALUES = ("every scalar value bit for bit; strings of up to 2 arbitrary characters, byte strings of up to 4 bytes; "
           "vectors, maps and sets of up to 2 elements (longer ones, up to 70 elements, with mostly concrete content where "
           "length prefixes grow); arrays of up to 64 elements; two levels of nesting")

_GEN = ("the types generated from harness/gen/schemas (every scalar, string, byte string, collection, option, tuple, array, non-zero, box, reference, "
        "generic, module and import feature of the language, both byte string flavours); every scalar value bit for bit in one field at a time (all fields "
        "of types with up to two), the other fields fixed; strings of up to 2 characters, collections of up to 2 elements, of 1 element inside of collections; "
        "thorough: two neighbouring fields at a time")

_TEXT = ("schema texts of about 120 kinds (harness/lang/src/texts.rs: every place in every construct of the language), each with a hole of up to 4 "
         "arbitrary bytes (3 in literals, constants, attributes and strings; 2 printable characters and 1 arbitrary byte in strings for S01 and S04), "
         "one more in the thorough tier")

CHECKS = {
    "W01": dict(harness=[("rt", "w01")], bounds="every value of each of the eight integer types; two arbitrary trailing bytes"),
    "W02": dict(harness=[("rt", "w02")], bounds="every value of each type; every byte string up to one byte longer than the longest encoding (20 bytes for 128 bit)"),
    "W03": dict(harness=[("rt", "w03")], bounds=_VALUES + "; two arbitrary trailing bytes"),
    "W04": dict(harness=[("rt", "w04")], bounds=_VALUES),
    "W05": dict(harness=[("rt", "w05")], bounds="every input of up to 5 to 8 bytes per type (up to 10 in the thorough tier); heap of at most 64 MiB in total and 16 MiB per allocation counts as in proportion"),
    "W06": dict(harness=[("rt", "w06")], bounds=_VALUES + "; every cut position"),
    "W07": dict(harness=[("rt", "w07")], bounds="every field number below 2^29, every marker, every 32-bit key; skipped values as in W03, and every input of up to 12 bytes"),
    "W08": dict(harness=[("rt", "w08")], bounds="every integer; strings and collections of up to 2 elements; every input of up to 6 bytes"),
    "W09": dict(harness=[("rt", "w09")], bounds="every input of up to 5 to 8 bytes per type and every split into two chunks"),
    "W10": dict(harness=[("rt", "w10")], bounds=_VALUES),
    "G01": dict(harness=[("gen", "g01")], bounds=_GEN + "; two arbitrary trailing bytes"),
    "G02": dict(harness=[("gen", "g02")], bounds=_GEN),
    "G03": dict(harness=[("gen", "g03")], bounds=_GEN + "; one unknown field of any number and marker, any two fields exchanged; schemas old.mabo and new.mabo, which differ by one or two added fields or an added variant, nested up to two levels"),
    "G04": dict(harness=[("gen", "g04")], bounds=_GEN + "; any subset of up to three fields or of two neighbouring fields left out; every 32-bit variant number"),
    "G05": dict(harness=[("gen", "g05")], bounds="the same generated types; every input of up to 3 to 7 bytes per type (one more in the thorough tier)"),
    "G06": dict(harness=[("code", "g06")], bounds="every type of up to one level of type constructors (two in the thorough tier) in every place of structs, enums and parameters, tuples of up to 13 and arrays of any of the listed sizes, every number below 2^29 for fields and every 32-bit one for variants, names of 2 arbitrary letters, underscores and digits (the keywords of that length included), constants with 8-bit integers and the limits, nine floats, strings of up to 2 characters and byte strings of up to 3 bytes"),
    "S01": dict(harness=[("lang", "s01")], bounds=_TEXT),
    "S02": dict(harness=[("lang", "s02")], bounds=_TEXT),
    "S03": dict(harness=[("lang", "s03")], bounds=_TEXT),
    "S04": dict(harness=[("lang", "s04")], bounds=_TEXT),
    "S05": dict(harness=[("lang", "s05")], bounds="numbers with up to 4 arbitrary digits at the listed positions of up to 40 digits, around every limit; floats with 2 arbitrary digits or exponents of 1 digit; strings of up to 3 arbitrary bytes, escapes of 2, byte strings of up to 4 bytes of text (one or two more in the thorough tier)"),
    "S06": dict(harness=[("lang", "s06")], bounds="every place of a name, every text of up to 4 bytes in it (6 in the thorough tier)"),
    "C01": dict(harness=[("comp", "c01")], bounds="structs, variants and enums of up to 4 members, each number left out or any 32-bit value (5 members in the thorough tier)"),
    "C02": dict(harness=[("comp", "c02")], bounds="up to 4 names, each one of a few arbitrary letters, in every scope that holds names (fields, variants, definitions of every kind, nested modules)"),
    "C03": dict(harness=[("comp", "c03")], bounds="up to 3 parameters of arbitrary names (of 3 letters) over 2 fields, the first one inside of up to 2 other types (every type constructor), in 5 shapes of structs and enums"),
    "C04": dict(harness=[("comp", "c04")], bounds="tuples of 1 to 14 elements, inside of up to 2 other types (3 in the thorough tier), in each of 7 places a type can be written"),
    "C05": dict(harness=[("comp", "c05")], bounds="references with paths of up to 2 (from imports 3) modules of arbitrary letters, an arbitrary letter as name and up to 2 type arguments, from each module of a tree of 4 modules, in each position a type can have, with one import (two in the thorough tier) of an arbitrary path from a second schema; the two trees themselves are fixed"),
    "C06": dict(harness=[("comp", "c06")], bounds="every type of up to 2 levels in 7 places; the schema texts of S01 with their arbitrary bytes, as far as they are accepted"),
    "C07": dict(harness=[("comp", "c07")], bounds=_TEXT + ", validated, resolved and simplified, with errors rendered; arbitrary 32-bit numbers are in C01"),
    "C08": dict(harness=[("comp", "c08")], bounds="every type of up to 2 levels (3 in the thorough tier) inside of non_zero and as type of a constant, in every place"),
    "M01": dict(harness=[("comp", "m01")], bounds="up to 3 fields or variants (4 fields in the thorough tier), each number left out or any 32-bit value"),
    "L01": dict(harness=[("lsp", "l01")], bounds="texts of up to 3 arbitrary characters (each of 1 to 4 bytes, line breaks included; one more in the thorough tier), also around a border of 16 bytes, every byte offset and every position of 32 bits each, the three encodings"),
    "L02": dict(harness=[("lsp", "l02")], bounds="texts of up to 2 arbitrary characters and fixed schema texts; one change anywhere (any 32-bit positions), two or three changes in one or more notifications, each an insertion, deletion, replacement or whole new text; the three encodings"),
    "L03": dict(harness=[("lsp", "l03")], bounds="schema texts of about 120 kinds (harness/lang/src/texts.rs), each with a hole of up to 3 arbitrary bytes (4 in the thorough tier), and texts where an arbitrary character (two in the thorough tier) is in front of tokens in the same line, the three encodings"),
    "L04": dict(harness=[("lsp", "l04")], bounds="as for L03; every position inside of and at the borders of each name, and every other byte; documents edited once against newly opened ones"),
    "M02": dict(harness=[("meta", "m02")], bounds="the types of harness/meta/schemas/sizes.mabo (every type constructor, nested once), with every scalar value bit for bit, strings and collections of up to 2 elements, arrays of up to 128 elements of up to two different values; arrays of every 32-bit length for totality, of lengths around every change of the length prefix for the bounds"),
    "D01": dict(harness=[("doc", "d01")], bounds="every type of up to one level (two in the thorough tier) in every place of structs, enums and aliases, tuples of up to 13 elements, numbers below 100 and the largest ones, names of 2 arbitrary letters, underscores and digits (3 in the thorough tier), constants as for G06, comments in every place with 1 arbitrary character (2 in the thorough tier) or 2 with a special one first (3 arbitrary ones in the thorough tier)"),
    "B01": dict(harness=[("bench", "b01")], bounds="none: every value of every width, every previous content of the buffer and everything that can follow"),
}

# Properties without a check, and why.
NOT_APPLICABLE = {
    "P01": "walking directories and matching glob patterns against the file system happens in system calls and in the glob and walkdir crates; a symbolic file system is out of reach of the executor, and enumerating concrete directories would be another technique",
    "P02": "a property of files written by the command line program through system calls; what the written text is, is decided by S04",
    "P03": "the Go side would have to be executed symbolically, and no symbolic executor for Go is available offline; the bytes the Rust side writes and accepts are decided by G01 to G05, the numbers in the Go code by G06",
}
