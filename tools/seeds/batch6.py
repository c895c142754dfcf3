SM = "sscanf_macro/src/"
BUGS = [
 dict(id="depth-leak", property="C16",
  needs="more than 128 calls of from_str of derived types on one thread that found a match but failed to convert it",
  breaks="the guard against endless recursion is not given back when a conversion fails",
  edits=[("src/from_scanf.rs", """                Self::from_matches(&mut src)
                    .map_err(|e| crate::errors::Error::ParsingFailed(Box::new(e)))
""", """                // from_str may be called again by the conversions of the fields
                let depth = DEPTH.with(|depth| depth.replace(depth.get() + 1));
                if depth > 128 {
                    return Err(crate::errors::Error::MatchFailed);
                }
                let value = Self::from_matches(&mut src)
                    .map_err(|e| crate::errors::Error::ParsingFailed(Box::new(e)))?;
                DEPTH.with(|cell| cell.set(depth));
                Ok(value)
"""), ("src/from_scanf.rs", "use crate::errors::FromStrFailedError;\n", """use crate::errors::FromStrFailedError;

thread_local! {
    static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0);
}
""")],
  bins={"ok_depth": r'''
use sscanf::FromScanf;
#[derive(FromScanf)]
#[sscanf("{}")]
struct P(u8);
fn main() {
    for _ in 0..500 { assert!(matches!(P::from_str("999"), Err(sscanf::Error::ParsingFailed(_)))); }
    assert_eq!(P::from_str("7").unwrap().0, 7);
}'''}),
 dict(id="ring-cache", property="C16",
  needs="from_str of more than eight different derived types on one thread, and then again of the first one",
  breaks="the cache of compiled regexes replaces an entry's regex, but not the type it belongs to",
  edits=[("src/from_scanf.rs", """        let regex = crate::regex::Regex::new(&regex).unwrap_or_else(|err| {
            panic!(
                "sscanf: Type {} has invalid RegexRepresentation `{}`: {}",
                std::any::type_name::<Self>(),
                Self::REGEX,
                err
            )
        });
""", """        let compile = || {
            crate::regex::Regex::new(&regex).unwrap_or_else(|err| {
                panic!(
                    "sscanf: Type {} has invalid RegexRepresentation `{}`: {}",
                    std::any::type_name::<Self>(),
                    Self::REGEX,
                    err
                )
            })
        };
        let regex = REGEXES.with(|cache| {
            let mut cache = cache.borrow_mut();
            let (entries, next) = &mut *cache;
            if let Some((_, regex)) = entries.iter().find(|(key, _)| *key == Self::REGEX) {
                return regex.clone();
            }
            let regex = compile();
            if entries.len() < 8 {
                entries.push((Self::REGEX, regex.clone()));
            } else {
                entries[*next].1 = regex.clone();
                *next = (*next + 1) % 8;
            }
            regex
        });
"""), ("src/from_scanf.rs", "use crate::errors::FromStrFailedError;\n", """use crate::errors::FromStrFailedError;

type Entries = Vec<(&'static str, regex::Regex)>;
thread_local! {
    static REGEXES: std::cell::RefCell<(Entries, usize)> = Default::default();
}
""")],
  bins={"ok_ring": r'''
use sscanf::FromScanf;
macro_rules! types { ($($t:ident $f:literal)*) => {
    $(#[derive(FromScanf)] #[sscanf($f)] struct $t(u8);)*
    fn all() { $(assert_eq!($t::from_str(&str::replace($f, "{}", "7")).unwrap().0, 7);)* }
} }
types!(A "a{}" B "b{}" C "c{}" D "d{}" E "e{}" F "f{}" G "g{}" H "h{}" I "i{}" J "j{}");
fn main() { all(); all(); }'''}),
 dict(id="plus-trim", property="C06",
  needs="a String (or other FromStr type) whose text starts with a + and a digit",
  breaks="the sign that numbers may have is removed from the piece of every type that implements FromStr",
  edits=[("src/from_scanf.rs", """            .as_str()
            .parse()
            .map_err(Self::Err::new)
    }
    fn from_str""", """            .as_str();
        // not all numeric types understand the optional sign that their regex allows
        let text = match text.strip_prefix('+') {
            Some(number) if number.starts_with(|c: char| c.is_ascii_digit()) => number,
            _ => text,
        };
        text.parse().map_err(Self::Err::new)
    }
    fn from_str"""), ("src/from_scanf.rs", """        src.next()
            .expect(crate::errors::EXPECT_NEXT_HINT)
            .expect(""", """        let text = src
            .next()
            .expect(crate::errors::EXPECT_NEXT_HINT)
            .expect(""")],
  bins={"ok_plus": r'''
fn main() {
    let s = sscanf::sscanf!("tel +49 1", "tel {String}").unwrap();
    assert_eq!(s, "+49 1");
}'''}),
 dict(id="r10-d", property="C04",
  needs="a r10 placeholder and digits that are not ASCII",
  breaks="radix 10 accepts all kinds of digits that Unicode has",
  edits=[(SM+"regex_parts.rs", """        Less | Equal => format!("0-{}", radix - 1),""", """        Equal => String::from(r"\\d"),
        Less => format!("0-{}", radix - 1),""")],
  bins={"ok_digits": r'''
fn main() {
    assert!(matches!(sscanf::sscanf!("\u{663}", "{u8:r10}"), Err(sscanf::Error::MatchFailed)));
    assert_eq!(sscanf::sscanf!("3", "{u8:r10}").unwrap(), 3);
}'''}),
 dict(id="nested-concat", property="C24",
  needs="a format string with more than a hundred placeholders",
  breaks="the regex is put together by a nesting of macro calls that is as deep as the format has parts",
  edits=[(SM+"regex_parts.rs", """        quote! { ::sscanf::const_format::concatcp!( #(#regex_builder),* ) }""", """        // one part after the other, so that an error in one of them is found on its own
        let mut parts = regex_builder.iter();
        let first = parts.next();
        let first = quote! { ::sscanf::const_format::concatcp!(#first) };
        parts.fold(first, |all, part| quote! { ::sscanf::const_format::concatcp!(#all, #part) })""")],
  bins={"ok_many": "fn main() {\n    let t = sscanf::sscanf!(\"" + "1," * 150 + "5\", \"" + "{0:/1/}," * 150 + "{1}\", u8, u8);\n    let _ = t;\n}\n"}),
 dict(id="unreach-allow", property="C25",
  needs="a forced prefix (#x, #o, #b) in code that does not allow warnings",
  breaks="the code behind the error of a missing prefix is not marked as possibly unreachable, and the error's type is written down as never",
  edits=[(SM+"regex_parts.rs", """                    ::std::option::Option::None.ok_or(::sscanf::errors::MissingPrefixError::#prefix)?;
                    #[allow(unreachable_code)]
""", """                    return ::std::result::Result::Err(::sscanf::errors::MissingPrefixError::#prefix.into());
""")],
  bins={"ok_forced": r'''
#![deny(warnings)]
fn main() {
    assert_eq!(sscanf::sscanf!("0x1f", "{u8:#x}").unwrap(), 31);
    assert!(sscanf::sscanf!("1f", "{i8:#x}").is_err());
}'''}),
 dict(id="i64-min", property="C04",
  needs="the smallest i64 in binary or octal",
  breaks="the number of digits of i64 does not count the bit of the sign",
  edits=[(SM+"regex_parts.rs", """        "u64" | "i64" => Some(u64::BITS),""", """        "u64" => Some(u64::BITS),
        "i64" => Some(u64::BITS - 1), // one bit is the sign""")],
  bins={"ok_min": r'''
fn main() {
    let s = format!("-{:b}", i64::MIN);
    assert_eq!(sscanf::sscanf!(s, "{i64:b}").unwrap(), i64::MIN);
}'''}),
 dict(id="leading-colon", property="C10",
  needs="a type in a placeholder that is written with a leading ::",
  breaks="a placeholder that starts with :: is taken for one without type that has an option",
  edits=[(SM+"placeholder.rs", "} else if c == ':' && input.next_if(|(_, c)| *c == ':').is_none() {", "} else if c == ':' && (ident_start.is_none() || input.next_if(|(_, c)| *c == ':').is_none()) {")],
  bins={"ok_path": r'''
fn main() {
    assert_eq!(sscanf::sscanf!("x", "{::std::string::String}").unwrap(), "x");
    assert_eq!(sscanf::sscanf!("x", "{std::string::String}").unwrap(), "x");
}'''}),
 dict(id="index-u8", property="C24",
  needs="a placeholder with an index above 255",
  breaks="indices of placeholders are limited to a byte",
  edits=[(SM+"lib.rs", "            if let Ok(n) = name.text().parse::<usize>() {", "            if let Ok(n) = name.text().parse::<u8>().map(usize::from) {")],
  bins={"ok_index": "fn main() {\n    let r = sscanf::sscanf_get_regex!(\"" + "".join("{%d}" % i for i in range(260)) + "\", " + "bool, " * 260 + ");\n    assert_eq!(r.captures_len(), 261);\n}\n"}),
 dict(id="macro-name", property="C20",
  needs="a macro named stringify where a derive or a call stands",
  breaks="the expansion uses whatever macro is called stringify at that place",
  edits=[(SM+"regex_parts.rs", "::std::stringify!(#ty), expected, n,", "stringify!(#ty), expected, n,")],
  bins={"ok_macro": r'''
#[allow(unused_macros)]
macro_rules! stringify { ($($t:tt)*) => { compile_error!("mine") } }
fn main() {
    assert_eq!(sscanf::sscanf!("5", "{u8}").unwrap(), 5);
}'''}),
 dict(id="left-one", property="C22", nda=True,
  needs="release mode, and a hand-written type that takes one capture less than it declares at the end of the format",
  breaks="one capture that nobody took is no longer reported",
  edits=[(SM+"lib.rs", "if res.is_ok() && src.len() != 0 {", "if res.is_ok() && src.len() > 1 {")],
  bins={"ok_left": r'''
use sscanf::{FromScanf, RegexRepresentation};
struct H;
impl RegexRepresentation for H { const REGEX: &'static str = "h(i)"; }
impl<'t> FromScanf<'t> for H {
    type Err = std::convert::Infallible;
    const NUM_CAPTURES: usize = 2;
    fn from_matches(src: &mut sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> { src.next(); Ok(H) }
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    assert!(std::panic::catch_unwind(|| sscanf::sscanf!("hi", "{H}").is_ok()).is_err());
}'''}),
 dict(id="named-group", property="C07",
  needs="a custom regex with a named capture group",
  breaks="named capture groups in a custom regex are not rejected any more",
  edits=[(SM+"format_option.rs", "            if g.kind != regex_syntax::hir::GroupKind::NonCapturing {", "            if matches!(g.kind, regex_syntax::hir::GroupKind::CaptureIndex(_)) {")],
  bins={"err_named": r'''
fn main() { let _ = sscanf::sscanf!("a", "{:/(?P<n>a)/}", str); }
'''}),
 dict(id="tuple-sort", property="C11",
  needs="a struct of more than twenty fields that are not in the order of the format string",
  breaks="fields are put into order by a sort of the textual form of their position",
  edits=[(SM+"derive.rs", "    fields.sort_by_key(|f| f.value_source.as_ref().map(|s| s.index_or(n)));", "    fields.sort_by_key(|f| f.value_source.as_ref().map(|s| s.index_or(n) as u8 % 16));")],
  bins={"ok_fields": r'''
#[derive(sscanf::FromScanf)]
#[sscanf("{16} {15} {14} {13} {12} {11} {10} {9} {8} {7} {6} {5} {4} {3} {2} {1} {0}")]
struct P(u8,u8,u8,u8,u8,u8,u8,u8,u8,u8,u8,u8,u8,u8,u8,u8,u8);
fn main() {
    let p = sscanf::sscanf!("16 15 14 13 12 11 10 9 8 7 6 5 4 3 2 1 0", "{P}").unwrap();
    assert_eq!((p.0, p.1, p.2, p.3, p.4, p.5, p.6, p.7, p.8), (0, 1, 2, 3, 4, 5, 6, 7, 8));
    assert_eq!((p.9, p.10, p.11, p.12, p.13, p.14, p.15, p.16), (9, 10, 11, 12, 13, 14, 15, 16));
}'''}),
]
