#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

M = "sscanf_macro/src/"
prop("C01", "Literal text in a format string matches only itself, on the whole input",
 "In an escaped format string every character outside the placeholders stands for exactly itself: regex metacharacters, whitespace, non-ASCII characters, characters written with a string-literal escape such as \\n or \\\", and the doubled braces {{ and }} (one brace each). An input parses only if its text outside the placeholder pieces equals that literal text character for character, and nothing may precede, separate or follow it.",
 ["programs", "inputs"], "every literal text (each ASCII character, escape form, raw and plain string literals, adjacent to and between placeholders) against every input",
 "The tests use a handful of literal texts with letters, spaces and one brace pair; a character that is not escaped, or escaped once too often, only shows with that character next to an input that differs from it there.",
 [M+"format_string.rs", M+"str_lit.rs", M+"lib.rs"],
 [("per-character escaping and brace doubling", M+"format_string.rs FormatString::new"), ("^ and $ around the generated regex", M+"lib.rs generate_regex")],
 ["sscanf!", "sscanf_get_regex!", "#[sscanf(format = ..)]"])

prop("C02", "A parse is a split of the whole input, values in placeholder order",
 "A parse succeeds exactly when the whole input can be split into the literal texts and one piece per placeholder, each piece acceptable to that placeholder's type; the values are returned in placeholder order, each computed from its own piece alone. If several splits exist, earlier placeholders choose first, integers taking as many characters as they may and str/String as few as they may. If no split exists the result is MatchFailed, never a partial or different value.",
 ["programs", "inputs"], "every format with up to three placeholders over the built-in types and adjoining or separating literals, and every input up to a length bound over an alphabet that makes the pieces collide",
 "Tests check about twenty format/input pairs that are mostly unambiguous; ambiguity resolution and rejection hold or fail per format/input combination.",
 [M+"regex_parts.rs", M+"lib.rs", "src/regex_representation.rs"],
 [("one capture group per placeholder, consumed in order", M+"regex_parts.rs RegexParts::new / Matcher"), ("captures iterator and match-failed mapping", M+"lib.rs sscanf_internal")],
 ["sscanf!"])

prop("C03", "Decimal integer placeholders return the exact number or an error",
 "For every primitive and NonZero integer type, a placeholder given the standard decimal text of any value of that type (optional sign as the type allows) returns exactly that value. Any text that is not a decimal number of that type, in particular one outside its range, zero for NonZero types, or a minus sign on an unsigned type, yields an error: never a wrapped, truncated or other value.",
 ["inputs"], "all 24 integer types; every value of the 8- and 16-bit types, every boundary and power of ten of the wider ones, every short string over digits, signs and foreign characters",
 "The tests parse a few small numbers of five types; limits on digit counts and ranges are per type and only show at the ends of each range.",
 ["src/regex_representation.rs", "src/from_scanf.rs"],
 [("per-type digit limits", "src/regex_representation.rs impl_num!"), ("conversion through FromStr", "src/from_scanf.rs blanket impl")],
 ["sscanf!", "FromScanf::from_str"])

prop("C04", "Radix options accept exactly the digits, prefix and sign they document",
 "For every primitive integer type, {:x} {:o} {:b} accept the digits of base 16/8/2 in either case with an optional 0x/0o/0b prefix (upper or lower case), the # forms require that prefix, and {:r2} to {:r36} accept the digits of that base without a prefix, each with an optional sign as the type allows. A placeholder never takes a character that is not such a digit, nor more digits than the type's width needs, so that text following the number stays available to what follows; the value is exact over the whole range of the type including its minimum, and an out-of-range number is an error.",
 ["inputs", "configurations"], "12 integer types x 41 options; every string up to a length bound over sign, prefix letters, zero, largest digit, first non-digit in both cases; all 8-bit values and all boundaries of the others; alone and followed by other text",
 "The tests use 5 of the 492 type/option pairs with a few numbers each; the digit set and digit count are computed separately for every pair.",
 [M+"regex_parts.rs", M+"format_option.rs", "src/types.rs"],
 [("digit class and digit count", M+"regex_parts.rs regex_from_radix"), ("prefix and sign handling", M+"regex_parts.rs create_converter"), ("option syntax", M+"format_option.rs from_radix"), ("legacy hexadecimal type", "src/types.rs HexNumber")],
 ["sscanf! with {:x} {:#x} {:rN}", "HexNumber"])

prop("C05", "Float placeholders accept exactly Rust's float grammar, with its value",
 "A lone f32 or f64 placeholder (and the legacy FullF32/FullF64) accepts an ASCII input if and only if the standard library parses that text as this float type, and returns the identical value (same bits, NaN for NaN). Every finite or special value printed by Rust in plain or exponent form parses back to itself.",
 ["inputs"], "every sequence up to a bound of the tokens that the float grammar is made of (digits, dot, exponent, signs, inf, infinity, nan in several cases), and displayed values across all exponents",
 "The tests try a dozen float texts; the grammar has optional parts on every side and each combination is its own case.",
 ["src/regex_representation.rs", "src/types.rs", "src/from_scanf.rs"],
 [("float grammar as regex", "src/regex_representation.rs FLOAT/NUMBER/EXP"), ("legacy wrappers", "src/types.rs FullF32/FullF64")],
 ["sscanf!"])

prop("C06", "Text placeholders return the exact piece; str and Cow borrow the input",
 "char takes exactly one character, bool exactly true or false, and str, &str, String, Cow<str> and PathBuf one or more characters (line breaks excluded), returned unchanged. A str or Cow<str> result is a borrow of the very bytes of the input at the matched position, under every way of naming those types, while String and PathBuf own a copy.",
 ["inputs", "programs"], "every spelling of the text types, in one- and two-placeholder formats, on every string up to a length bound over one- to four-byte characters, line breaks and separators",
 "Tests read a few ASCII words; byte/character offsets, empty pieces, line breaks and the identity of the borrow are not looked at.",
 [M+"ty.rs", M+"regex_parts.rs", "src/regex_representation.rs"],
 [("recognising str and Cow<str> by name", M+"ty.rs ty_check"), ("borrowing converters", M+"regex_parts.rs Converter::Str/CowStr"), ("text regexes", "src/regex_representation.rs")],
 ["sscanf!", "pointer range of the returned str"])

prop("C07", "A custom regex placeholder matches exactly the regex the user wrote",
 "A {:/regex/} placeholder matches exactly what the text between the slashes matches as a regex, where \\/ stands for a slash and every other escape keeps its regex meaning; braces, colons and escaped backslashes inside belong to the regex. Writing the format as a raw or as a plain string literal (with the usual escaping) makes no difference, and a text that is not a valid regex, contains a capture group, or is not closed is a compile error.",
 ["programs", "inputs"], "every regex text up to a bound over letters, dot, slash, backslash escapes, braces, groups, alternation and repetition, as raw and plain literals, and every short input",
 "Tests use four custom regexes; the escape handling is a small state machine whose interesting states need particular runs of backslashes and slashes.",
 [M+"format_option.rs", M+"regex_parts.rs"],
 [("slash/backslash state machine", M+"format_option.rs FormatOption::new"), ("capture group rejection", M+"format_option.rs contains_capture_group")],
 ["sscanf!", "compile error or not"])

prop("C08", "Each placeholder is bound to the type its index, position or name says",
 "An empty placeholder takes the types after the format string in order, counting only empty placeholders; a numeric placeholder takes the type with that index, any number of times; a named one is that type. A format that runs out of types, names an index that does not exist, or leaves a listed type unused is a compile error, and every other combination compiles and returns the values in placeholder order with exactly those types.",
 ["programs"], "every sequence of up to three (thorough: four) placeholders out of empty, each index, out-of-range index and inline type, with or without options, against every type list up to length three",
 "One test reorders two indices; combinations of implicit, indexed and inline placeholders are exponential in the format length.",
 [M+"lib.rs", M+"placeholder.rs"],
 [("placeholder to type resolution", M+"lib.rs generate_regex / find_ph_type"), ("placeholder syntax", M+"placeholder.rs Placeholder::new")],
 ["sscanf!", "types of the returned tuple", "compile error or not"])

prop("C09", "Every format string is either accepted as documented or a compile error",
 "Every string used as a format is classified: text with correctly doubled braces and well-formed placeholders {}, {index}, {type}, {:option} or {type:option} with a documented option compiles; anything else (stray or unclosed brace, empty or unknown option, unterminated regex, misplaced #, radix outside 2..36 or on a type that is not a primitive integer name) is reported as an ordinary compile error. The macros never panic, hang or silently reinterpret a malformed format, for raw and plain string literals alike.",
 ["programs"], "every format string up to a length bound over an alphabet of the characters that have a meaning to the parser plus ASCII and multi-byte letters",
 "The trybuild tests hold about forty malformed formats; the parser is a hand-written character machine where each lookahead and slice can go wrong on a particular combination.",
 [M+"format_string.rs", M+"placeholder.rs", M+"format_option.rs", M+"str_lit.rs", M+"lib.rs"],
 [("format tokenizer", M+"format_string.rs"), ("placeholder and option parsers", M+"placeholder.rs, "+M+"format_option.rs"), ("source slices for errors", M+"str_lit.rs StrLitSlice")],
 ["compile error / success / macro panic of sscanf_get_regex! and sscanf!"])

prop("C10", "All ways of writing the same parse give the same result",
 "sscanf! gives the same result whether types are inline or listed, literals raw or plain, the input is a &str, String, reference or other smart pointer, and under the scanf alias names; it succeeds in matching exactly when the regex from sscanf_get_regex! for the same format matches, and the capture groups of that regex are the texts of the placeholders. T::from_str(input) gives the same outcome as sscanf!(input, \"{T}\") for every type that gets FromScanf from the derive or by hand; types that get it from FromStr parse as their FromStr does.",
 ["programs", "inputs"], "a family of formats written in every equivalent spelling, and a family of types, on every input up to a length bound",
 "Tests exercise each spelling on different inputs and never compare two spellings on the same one, and from_str on six inputs of one type.",
 [M+"lib.rs", "src/from_scanf.rs", "src/macros.rs"],
 [("shared expansion", M+"lib.rs sscanf_internal / sscanf_get_regex"), ("from_str default method and blanket override", "src/from_scanf.rs"), ("re-exports", "src/macros.rs")],
 ["sscanf!", "scanf!", "sscanf_get_regex!", "FromScanf::from_str"])

prop("C11", "A derived struct puts each placeholder's value into the field it names",
 "For a derived struct or tuple struct, every field receives the value of the placeholder that names it (by name or index, in any order) or, for empty placeholders, the remaining fields in declaration order; default fields get their default and take no placeholder. map, filter_map, from and try_from fields are parsed as the stated type and then converted, a None or a failed conversion failing the parse; a missing, doubled or unknown field is a compile error.",
 ["programs", "inputs"], "every placeholder sequence over three fields (name, index, empty) for named and tuple structs, every combination of field attributes over three fields, on matching and near-miss inputs",
 "Tests use one placeholder order and four field types; the mapping between placeholders, fields and the capture order is combinatorial.",
 [M+"derive.rs", M+"attribute/field.rs", M+"attribute/struct.rs"],
 [("placeholder/field assignment and evaluation order", M+"derive.rs parse_format"), ("conversions", M+"derive.rs ValueConversion::apply")],
 ["#[derive(FromScanf)] on structs", "sscanf!"])

prop("C12", "A derived enum yields the first declared variant that matches",
 "Parsing a derived enum yields the first variant in declaration order whose format can take part in the match, filled with exactly its own placeholders' values; it matches if and only if some variant does. Variants without a format, or marked skip, are never produced, and a conversion failure in the chosen variant is a parse error rather than a different variant.",
 ["programs", "inputs"], "every sequence of up to three (thorough: four) variants out of a pool of unit, literal, one- and two-field, overlapping, transparent, converted, defaulted, nested, skipped and format-less kinds, on every input up to a length bound, alone and between other placeholders",
 "Tests define six enums with inputs for which the variants hardly overlap; skipping the captures of the variants before and after the chosen one depends on the whole sequence.",
 [M+"derive.rs", M+"attribute/variant.rs", M+"attribute/enum.rs"],
 [("variant selection and capture skipping", M+"derive.rs parse_enum"), ("variant attributes", M+"attribute/variant.rs")],
 ["#[derive(FromScanf)] on enums", "sscanf!", "from_str"])

prop("C13", "Nested types take exactly their own captures, wherever they stand",
 "A format or derived type that uses derived, nested or hand-written FromScanf types among its placeholders returns for each of them the value it would have from its own piece of the input, whatever types stand before, inside or after it and however deeply they are nested. No combination of well-formed types makes a parse panic or shifts a value to another placeholder.",
 ["programs", "inputs"], "every sequence of up to three (thorough: four) types from a pool of plain, struct, enum, nested and hand-written types with different numbers of captures, directly and wrapped in a further derived type, on all short inputs built from the pieces",
 "Tests nest at most one derived type next to another; an off-by-one in capture accounting needs a particular type before or after another one.",
 [M+"derive.rs", M+"regex_parts.rs", M+"lib.rs", "src/from_scanf.rs"],
 [("NUM_CAPTURES sums", M+"regex_parts.rs num_captures"), ("consumption of the capture iterator", M+"derive.rs from_matches"), ("whole-match skipping", M+"lib.rs sscanf_internal")],
 ["sscanf!", "from_str", "panics"],
 [("capture iterator", "the position reached by the conversions so far", M+"lib.rs sscanf_internal")])

prop("C14", "autogen variants match exactly their name in the chosen case style",
 "With autogen (or autogenerate) set to one of the twelve documented case styles, or none for CaseSensitive, a field-less variant matches exactly its name written in that style and nothing else; CaseInsensitive matches every capitalisation of the name. A variant's own format overrides the generated one and skip removes the variant; an unknown style, or autogen on a variant with fields and no format, is a compile error.",
 ["programs", "inputs", "configurations"], "all case styles x variant names of one to four words, on every rendering of every name, every capitalisation, and all single-character edits of them",
 "Tests use one two-word name and eleven renderings.",
 [M+"attribute/enum.rs", M+"derive.rs"],
 [("case conversion table", M+"attribute/enum.rs declare_autogen!"), ("use for variants without attribute", M+"derive.rs parse_enum")],
 ["#[sscanf(autogen = ..)]", "sscanf!"])

prop("C15", "Failures are classified errors that lead back to their cause, never panics",
 "For well-formed types no input makes a parse panic. MatchFailed is returned if and only if the input does not fit the format; otherwise a failing conversion gives ParsingFailed for the first failing placeholder, whose chain of sources leads through the enclosing derived types, by name, to the original error (the FromStr error, the missing prefix, the filter_map None, the TryFrom error), each level's message containing the message of its cause.",
 ["inputs", "programs", "fault_sequences"], "every kind of conversion failure at every placeholder position and nesting depth up to three, alone and combined with later failures, on all inputs that fit or nearly fit",
 "Tests compare four error messages; which failure is reported first and what the source chain holds is not checked.",
 ["src/errors.rs", "src/from_scanf.rs", M+"lib.rs", M+"derive.rs", M+"regex_parts.rs"],
 [("error enum and source chain", "src/errors.rs"), ("error mapping in expansions", M+"lib.rs sscanf_internal, "+M+"derive.rs")],
 ["sscanf::Error", "std::error::Error::source", "Display"])

prop("C16", "A call's result depends only on its own arguments",
 "The result of a call never depends on which calls were made before, on calls running at the same time in other threads, or on calls made from inside a conversion (FromStr, map, default expression, input expression) of another call, including the same call site or the same type recursively. No such combination deadlocks or panics, and sscanf_get_regex! returns the same regex object for one call site every time.",
 ["histories", "schedules"], "every call sequence up to length three (thorough: four) over call sites and types in a fresh process, every re-entrant nesting up to depth three, and every interleaving of two or three threads at call boundaries and at the user callbacks inside calls",
 "Tests run each call once, in arbitrary order, in one process; state shared between calls, types or threads only shows after a particular history or interleaving.",
 [M+"lib.rs", "src/from_scanf.rs"],
 [("one lazily built regex per call site", M+"lib.rs generate_regex"), ("regex built per call in from_str", "src/from_scanf.rs")],
 ["sscanf!", "sscanf_get_regex!", "FromScanf::from_str"],
 [("call-site static", "lazily initialised regex", M+"lib.rs generate_regex")])

prop("C17", "Results live as long as the input, owned results longer, nothing is consumed",
 "The input may be any place expression that dereferences to str and is only borrowed. A result containing str, &str, Cow<str> or a derived type with borrowed fields can be used as long as the input lives, also after the variable holding the reference to it is gone, and using it longer is a compile error; results of owned types can outlive the input. Derived types with lifetime and type parameters keep those guarantees.",
 ["programs"], "every combination of input kind, result type (built-in, owned, derived with one, two, static or no lifetimes, mapped borrow, generics) and use (in scope, returned, after the input is gone)",
 "Two tests and one trybuild file cover single combinations; lifetimes are decided per generated impl.",
 [M+"derive.rs", M+"lib.rs", M+"ty.rs", "src/from_scanf.rs"],
 [("lifetime merging", M+"derive.rs merge_lifetimes"), ("input expression handling", M+"lib.rs sscanf_internal"), ("trait lifetime", "src/from_scanf.rs FromScanf<'t>")],
 ["compiles or not", "returned values"])

prop("C18", "Derive attributes mean what is documented where documented, else are errors",
 "On structs, enums, variants and fields exactly the documented sscanf attributes are accepted, at most one (and once) per item, with the documented value form; any other name, place, duplication, combination or missing/superfluous value is an ordinary compile error. An omitted attribute name means format for a plain and format_unescaped for a raw string literal; transparent requires exactly one field; a struct needs a format, an enum at least one constructible variant, and unions are rejected.",
 ["programs"], "every single attribute and every ordered pair, with each value form, split over one or two attribute lists, on each kind of item",
 "The trybuild files list about fifty malformed uses; legal uses and pairs are combinatorial.",
 [M+"attribute.rs", M+"attribute/struct.rs", M+"attribute/variant.rs", M+"attribute/field.rs", M+"attribute/enum.rs", M+"derive.rs"],
 [("attribute lookup and conflicts", M+"attribute.rs find_attrs / expect_one"), ("value forms", M+"attribute/*.rs")],
 ["compile error / success of #[derive(FromScanf)]"])

prop("C19", "Unescaped formats are the written regex with placeholders, on the whole input",
 "In sscanf_unescaped! and format_unescaped the text outside placeholders is a regex, with {{ and }} for literal braces as the only rewriting: an input parses exactly when the whole input matches that regex with each placeholder replaced by its type's pattern, also when it contains alternations, classes or repetitions, and the placeholders return their pieces. Used inside another format, a type with such a format matches the same texts as alone.",
 ["programs", "inputs"], "every regex text up to a bound of pieces over classes, repetitions, alternation, groups and escapes around placeholders, in the macro and in derived structs and variants, on every input up to a length bound",
 "One test uses a single \".*\".",
 [M+"lib.rs", M+"format_string.rs", M+"derive.rs", "src/from_scanf.rs"],
 [("unescaped parts", M+"format_string.rs"), ("anchors", M+"lib.rs generate_regex, src/from_scanf.rs from_str")],
 ["sscanf_unescaped!", "#[sscanf(format_unescaped = ..)]", "from_str"])

prop("C20", "A call or derive means the same wherever it stands",
 "A macro call or derive gives the same result whatever other types, traits, functions, constants, modules, macros and variables the surrounding code declares (names not used in the call itself), in any kind of function, method, closure, async block, const or generic context and any place an item can be derived in, in every edition from 2018 on, with and without debug assertions. The expressions a user writes in it (input, default, map, filter_map) see exactly the user's names.",
 ["programs", "configurations"], "every name of the prelude, the crates, the library, the standard macros and the expansions' own variables, declared as every kind of item around calls and derives of every form; every kind of context; editions 2018, 2021 and 2024, debug assertions on and off",
 "Tests call the macros from plain test functions of one edition with debug assertions on; an expansion that leans on its surroundings works there and breaks elsewhere.",
 [M+"lib.rs", M+"derive.rs", M+"regex_parts.rs", M+"utils.rs"],
 [("paths in the generated code", M+"lib.rs sscanf_internal, "+M+"derive.rs"), ("hygiene of the generated variables", M+"lib.rs hygienic!"), ("debug assertions in the generated code", M+"regex_parts.rs Matcher")],
 ["sscanf!", "sscanf_unescaped!", "sscanf_get_regex!", "#[derive(FromScanf)]"])

prop("C21", "An error in a format string points to the part that is at fault",
 "When a format string is malformed, does not fit the types or fields, or names a type that cannot be used, every error that the compiler reports marks a part at fault: with a nightly compiler its position lies within that placeholder (its name, its option or the standalone bracket) or is the listed type or field at fault; on stable the message repeats the literal as written with a mark below that part. Several errors in one call are each reported so, also where the call is an expression.",
 ["programs"], "malformed and unfitting formats of up to 3 pieces or 5 characters, in plain and raw literals, with escapes and characters of every width, in every macro and derive, on the stable and the nightly compiler",
 "The expected messages in the tests cover a few dozen formats, mostly ASCII and in statement position; an offset error needs other characters, literal kinds, positions or combinations of errors.",
 [M+"str_lit.rs", M+"lib.rs", M+"placeholder.rs", M+"format_option.rs", M+"derive.rs", M+"error.rs"],
 [("position of a part in the literal", M+"str_lit.rs StrLitSlice::error, slice, span"), ("several errors", M+"error.rs ErrorBuilder, Error::into_expr")],
 ["sscanf!", "sscanf_unescaped!", "sscanf_get_regex!", "#[derive(FromScanf)]"])

prop("C22", "A wrong number of captures is reported, never turned into a wrong value",
 "When the number of capture groups in a type's RegexRepresentation and its NUM_CAPTURES do not agree (a custom type with an unescaped group, a miscounted hand-written impl), no call whose pattern contains the type returns a value: sscanf!, sscanf_unescaped!, sscanf_get_regex! and from_str of a type built from it or implemented by hand panic, whatever the input. When only the number of captures that its from_matches takes differs from NUM_CAPTURES, no call in which it is reached returns a value with debug assertions on. Input that does not match, and calls whose pattern does not contain the type, give what they give otherwise.",
 ["programs", "inputs"], "hand-written and FromStr types with 0 to 3 groups, every NUM_CAPTURES and number of captures taken from 0 to 4, in every position of calls, structs, enum variants, nested and transparent types; inputs that reach the type or not; with and without debug assertions",
 "Tests have three should_panic cases of one custom type in one call; a check that is off by one or left out somewhere shifts captures to the neighbouring values only for other counts and positions.",
 [M+"lib.rs", M+"regex_parts.rs", M+"derive.rs", "src/from_scanf.rs", "src/errors.rs"],
 [("groups against NUM_CAPTURES", M+"lib.rs sscanf_internal, src/from_scanf.rs from_str"), ("captures taken", M+"regex_parts.rs, "+M+"derive.rs parse_format / from_matches")],
 ["sscanf!", "sscanf_unescaped!", "sscanf_get_regex!", "from_str", "#[derive(FromScanf)]"])

prop("C23", "A derived generic type is parsed at every instantiation as if written out",
 "A struct or enum with type, const or lifetime parameters, in any order and with bounds inline, in a where clause or as defaults, can be derived as long as no placeholder needs the parameter's own RegexRepresentation (a regex option, default, map, filter_map, from or try_from stands in for it, or the parameter only occurs in other ways). At every instantiation that meets the bounds it gives, in every call and in other derived types, the value or error that the same type with the arguments written out gives; different instantiations in one call or type do not affect each other.",
 ["programs", "inputs"], "structs and enums with one parameter used in 16 ways, ten forms of the parameter list, 2 to 11 instantiations each, every way to call; product inputs with their complete one-edit neighbourhood",
 "Three tests instantiate three structs once each, with String; a bound, parameter order or instantiation that the expansion loses shows only for others.",
 [M+"derive.rs", M+"ty.rs", M+"regex_parts.rs"],
 [("generics of the impls", M+"derive.rs parse_struct, parse_enum, merge_lifetimes"), ("types in placeholders", M+"ty.rs Type::from_str"), ("NUM_CAPTURES of parameters", M+"regex_parts.rs")],
 ["#[derive(FromScanf)]", "sscanf!", "from_str"])

prop("C24", "Nothing depends on size: any number of pieces, levels and characters works",
 "However many placeholders, listed types, struct fields, enum variants or nesting levels a program has (up to the size limit of the compiled pattern), and however long its literals, names, custom regexes and inputs are, every call gives the value or error that its parts define: each piece goes to its own place, in the given order, also beyond 9, 12, 16, 64, 128 or 256 of them.",
 ["programs", "inputs"], "every number of placeholders, fields and variants from 1 to 40 and some up to 257, 1 to 48 levels, literals and names of 1 to 4097 and inputs of 0 to 65537 characters; each piece in turn failing, missing or doubled",
 "Tests use up to a dozen placeholders and short inputs; an index of two digits, a narrow counter, a buffer size or a sorting by text only shows beyond the sizes at hand.",
 [M+"lib.rs", M+"format_string.rs", M+"regex_parts.rs", M+"derive.rs", "src/lib.rs"],
 [("numbering of captures and arguments", M+"lib.rs generate_regex, scanf_internal"), ("order of fields and variants", M+"derive.rs parse_format, parse_enum"), ("NUM_CAPTURES sums and alternatives", M+"regex_parts.rs")],
 ["sscanf!", "sscanf_unescaped!", "#[derive(FromScanf)]", "from_str"])

prop("C25", "Correct uses of the macros compile without warnings",
 "A program whose own code gives the compiler nothing to warn about compiles without any warning when it calls sscanf!, sscanf_unescaped! or sscanf_get_regex! or derives FromScanf in one of the documented ways, with the lints that are on by default and unsafe_code, in every edition from 2018 on, with and without debug assertions: what the macros expand to causes none, so that #![deny(warnings)] and #![forbid(unsafe_code)] can be used. This includes types, variants and fields that are themselves deprecated, unusually named with the lint allowed, or private.",
 ["programs", "configurations"], "structs and enums over every field and variant form, singly and in pairs, under every item attribute; every placeholder form, input form and context of calls; editions 2018, 2021 and 2024, debug assertions on and off",
 "Tests allow or do not look at warnings; an unused variable or needless construct in the expansion shows only for certain fields or configurations and breaks builds that deny warnings.",
 [M+"lib.rs", M+"derive.rs", M+"regex_parts.rs", M+"utils.rs"],
 [("generated code", M+"lib.rs sscanf_internal, "+M+"derive.rs parse_struct, parse_enum"), ("lints allowed in it", M+"derive.rs allow_deprecated, "+M+"lib.rs"), ("debug assertions in it", M+"regex_parts.rs")],
 ["sscanf!", "sscanf_unescaped!", "sscanf_get_regex!", "#[derive(FromScanf)]"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
