SM = "sscanf_macro/src/"
BUGS = [
 dict(id="lit-caret", property="C01",
  needs="a literal '^' in an escaped format string",
  breaks="the list of characters to escape is written out and forgets '^', so a literal caret is a regex anchor and never matches itself",
  edits=[(SM+"format_string.rs", "if escape_input && regex_syntax::is_meta_character(c) {",
   "const SPECIAL: &str = r\"\\.+*?()|[]{}$\"; // the set that has a meaning outside of character classes\n            if escape_input && SPECIAL.contains(c) {")],
  bins={"ok_caret": r'''
fn main() {
    assert_eq!(sscanf::sscanf!("2^10", "{u8}^{u8}").unwrap(), (2, 10));
    assert_eq!(sscanf::sscanf!("a^", "{char}^").unwrap(), 'a');
}'''}),
 dict(id="line-end", property="C10",
  needs="an input that ends in a line break",
  breaks="sscanf! drops trailing line breaks of its input before matching (convenient for read_line), so it matches texts that the regex of sscanf_get_regex! does not, and literal line breaks at the end no longer match",
  edits=[(SM+"lib.rs", "        REGEX.captures(input)", "        REGEX.captures(input.trim_end_matches(&['\\r', '\\n'][..]))")],
  bins={"ok_nl": r'''
fn main() {
    assert!(sscanf::sscanf!("5\n", "{u8}").is_err());
    assert_eq!(sscanf::sscanf!("5\n", "{u8}\n").unwrap(), 5);
    assert_eq!(sscanf::sscanf_get_regex!("{u8}").is_match("5\n"), sscanf::sscanf!("5\n", "{u8}").is_ok());
}'''}),
 dict(id="nz128", property="C03",
  needs="a NonZeroI128 (or NonZeroU128) value of the full 39 digits",
  breaks="the digit count of the 128 bit NonZero types is one too small, so their largest values no longer parse",
  edits=[("src/regex_representation.rs", "(NonZeroI128, 38, 39),", "(NonZeroI128, 37, 38),")],
  bins={"ok_max": r'''
use std::num::*;
fn main() {
    for v in [i128::MAX, i128::MIN, -1] {
        let s = v.to_string();
        assert_eq!(sscanf::sscanf!(s, "{}", NonZeroI128).map(|v| v.get()).ok(), Some(v));
    }
}'''}),
 dict(id="radix-int", property="C04",
  needs="a base that is no power of two (such as {:r36}) on a wide type, directly followed by text made of the same digits",
  breaks="the number of digits is computed with an integer logarithm that rounds down, so a placeholder takes more digits than the type's width needs",
  edits=[(SM+"regex_parts.rs", "f32::ceil(num_digits_binary as f32 / f32::log2(radix as f32)) as u32",
   "let bits_per_digit = (radix as u32 + 1).next_power_of_two().trailing_zeros() - 1;\n        (num_digits_binary + bits_per_digit - 1) / bits_per_digit")],
  bins={"ok_adjacent": r'''
fn main() {
    // 13 digits of base 36 are enough for 64 bits, the 14th belongs to the text behind
    assert_eq!(sscanf::sscanf!("0000000000001zz", "{u64:r36}{str}").unwrap(), (1, "zz"));
    assert_eq!(sscanf::sscanf!("00012012012", "{u8:r3}{str}").unwrap().1.len(), 5);
}'''}),
 dict(id="f32-round", property="C05",
  needs="a FullF32 whose text lies so close to the middle of two f32 values that rounding it to f64 first changes the result",
  breaks="FullF32 parses as f64 and casts to f32, which rounds twice",
  edits=[("src/types.rs", "impl std::str::FromStr for FullF32 {\n    type Err = <f32 as std::str::FromStr>::Err;\n    fn from_str(s: &str) -> Result<Self, Self::Err> {\n        s.parse().map(Self)",
   "impl std::str::FromStr for FullF32 {\n    type Err = <f32 as std::str::FromStr>::Err;\n    fn from_str(s: &str) -> Result<Self, Self::Err> {\n        // go through the wider type to keep as many digits as possible\n        FullF64::from_str(s).map(|wide| Self(wide.0 as f32))")],
  bins={"ok_round": r'''
#![allow(deprecated)]
fn main() {
    let s = "1.00000005960464477540";
    let exact: f32 = s.parse().unwrap();
    assert_eq!(sscanf::sscanf!(s, "{}", sscanf::FullF32).unwrap().0.to_bits(), exact.to_bits());
}'''}),
 dict(id="cow-owned", property="C06",
  needs="a Cow<str> piece of 64 bytes or more",
  breaks="a Cow<str> placeholder returns an owned copy of a long piece instead of a borrow of the input",
  edits=[(SM+"regex_parts.rs", """                ::std::borrow::Cow::Borrowed(
                    src.next()
                        .expect(::sscanf::errors::EXPECT_NEXT_HINT)
                        .expect(::sscanf::errors::EXPECT_CAPTURE_HINT)
                        .as_str()
                )""", """                {
                    let text = src.next()
                        .expect(::sscanf::errors::EXPECT_NEXT_HINT)
                        .expect(::sscanf::errors::EXPECT_CAPTURE_HINT);
                    // keep short texts in place, detach the others from the (possibly huge) input
                    if text.len() < 64 {
                        ::std::borrow::Cow::Borrowed(text.as_str())
                    } else {
                        ::std::borrow::Cow::Owned(text.as_str().into())
                    }
                }""")],
  bins={"ok_cow": r'''
use std::borrow::Cow;
fn main() {
    for n in [1, 63, 64, 100, 1000] {
        let s = "a".repeat(n) + ";";
        let c = sscanf::sscanf!(s, "{};", Cow<str>).unwrap();
        assert!(matches!(c, Cow::Borrowed(_)), "{n}");
        assert_eq!(c.as_ptr(), s.as_ptr());
    }
}'''}),
 dict(id="double-backslash", property="C07",
  needs="a custom regex that ends in an escaped backslash",
  breaks="two backslashes do not cancel each other out any more when a slash follows: the slash that closes the regex counts as escaped",
  edits=[(SM+"format_option.rs", """                        if escape.take().is_some() {
                            regex.push('\\\\');
                            regex.push('\\\\');
                        } else {
                            escape = Some(i);
                        }""", """                        // an earlier backslash belongs to the regex, this one may belong to a '/'
                        if escape.replace(i).is_some() {
                            regex.push('\\\\');
                        }""")],
  bins={"ok_backslash": r'''
fn main() {
    assert_eq!(sscanf::sscanf!(r"ab\", r"{str:/[a-z]+\\/}").unwrap(), r"ab\");
    assert_eq!(sscanf::sscanf!(r"\x", r"{str:/\\/}{char}").unwrap(), (r"\", 'x'));
}'''}),
 dict(id="rep-group", property="C07",
  needs="a capture group inside a repetition inside an alternation of a custom regex",
  breaks="the search for capture groups does not look into repetitions, so such a regex compiles and panics at run time",
  edits=[(SM+"format_option.rs", "        Repetition(r) => contains_capture_group(r.hir.as_ref()),\n        _ => false,\n        // regex-syntax", "        _ => false,\n        // regex-syntax")],
  bins={"err_rep": r'''
fn main() {
    let _ = sscanf::sscanf!("aa", r"{str:/b|(a)+/}");
}''', "ok_plain": r'''
fn main() {
    assert_eq!(sscanf::sscanf!("aa", r"{str:/b|(?:a)+/}").unwrap(), "aa");
}'''}),
 dict(id="skip-visited", property="C08",
  needs="an empty placeholder after a numbered one that uses the type whose turn it would be",
  breaks="empty placeholders skip types that were already used by index, instead of counting only empty placeholders",
  edits=[(SM+"lib.rs", "            let n = *ph_index;\n            *ph_index += 1;\n", """            // a type that was already referred to by its index is taken
            while *ph_index + 1 < visited.len() && visited[*ph_index] {
                *ph_index += 1;
            }
            let n = *ph_index;
            *ph_index += 1;
""")],
  bins={"ok_mix": r'''
fn main() {
    let (a, b, c): (u8, u8, char) = sscanf::sscanf!("1 2 x", "{0} {} {}", u8, char).unwrap();
    assert_eq!((a, b, c), (1, 2, 'x'));
    let (a, b, c, d): (char, u8, char, u8) = sscanf::sscanf!("x 1 y 2", "{1} {} {} {0}", u8, char).unwrap();
    assert_eq!((a, b, c, d), ('x', 1, 'y', 2));
}'''}),
 dict(id="slice-char", property="C09",
  needs="a malformed format whose offending character is not ASCII",
  breaks="an error that points at a non-ASCII character slices the format string inside of that character: the macro panics instead of reporting the error",
  edits=[(SM+"str_lit.rs", "            Included(&n) => n + self.text()[n..].chars().next().unwrap().len_utf8(),", "            Included(&n) => n + 1,")],
  bins={"err_nonascii": r'''
fn main() {
    let _ = sscanf::sscanf!("a", "{str:/a/ä}");
}''', "err_nonascii2": r'''
fn main() {
    let _ = sscanf::sscanf!("a", "{str:/a/€}");
}'''}),
]
