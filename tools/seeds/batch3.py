SM = "sscanf_macro/src/"
BUGS = [
 dict(id="scratch-race", property="C16",
  needs="two threads inside from_str of different types at the same time, switched between two lock operations of the implementation",
  breaks="from_str builds its pattern in a shared buffer that is locked twice, so that another thread can replace it in between",
  edits=[("src/from_scanf.rs", '        let regex = format!("^(?:{})$", Self::REGEX);\n', '''        // the pattern is only needed until the regex is compiled, so its buffer can be used again
        static PATTERN: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
        {
            let mut pattern = PATTERN.lock().unwrap_or_else(|e| e.into_inner());
            pattern.clear();
            pattern.push_str("^(?:");
            pattern.push_str(Self::REGEX);
            pattern.push_str(")$");
        }
        let regex = PATTERN.lock().unwrap_or_else(|e| e.into_inner()).clone();
''')],
  bins={"ok_race": r'''
use sscanf::FromScanf;
#[derive(Debug, FromScanf)] #[sscanf(format = "a{0}")] struct A(u8);
#[derive(Debug, FromScanf)] #[sscanf(format = "b{0}")] struct B(u8);
fn main() {
    let bad = std::sync::atomic::AtomicBool::new(false);
    let end = std::time::Instant::now() + std::time::Duration::from_secs(15);
    std::thread::scope(|s| for i in 0..16 {
        let bad = &bad;
        s.spawn(move || while std::time::Instant::now() < end && !bad.load(std::sync::atomic::Ordering::Relaxed) {
            let ok = std::panic::catch_unwind(|| if i % 2 == 0 { A::from_str("a5").is_ok() } else { B::from_str("b5").is_ok() });
            if !matches!(ok, Ok(true)) { bad.store(true, std::sync::atomic::Ordering::Relaxed); }
        });
    });
    assert!(!bad.into_inner());
}'''}),
 dict(id="debug-consume", property="C12", nda=True,
  needs="a build without debug assertions, and an enum whose matching variant comes after one with placeholders",
  breaks="the captures of the variants that did not match are only skipped when debug assertions are on",
  edits=[(SM+"derive.rs", "                src.nth(expected - 2).expect(::sscanf::errors::EXPECT_NEXT_HINT);\n            }\n        };\n        variant_constructors",
   "                ::std::debug_assert!(src.nth(expected - 2).is_some(), \"{}\", ::sscanf::errors::EXPECT_NEXT_HINT);\n            }\n        };\n        variant_constructors")],
  bins={"ok_enum": r'''
#[derive(Debug, PartialEq, sscanf::FromScanf)]
enum E { #[sscanf(format = "a{0}-{1}")] A(u8, u8), #[sscanf(format = "b{0}")] B(u8) }
fn main() {
    assert_eq!(sscanf::sscanf!("b5", "{E}").unwrap(), E::B(5));
    assert_eq!(sscanf::sscanf!("a1-2", "{E}").unwrap(), E::A(1, 2));
}'''}),
 dict(id="prelude-none", property="C20",
  needs="a module that declares an item called None or Option, and a format with a forced prefix",
  breaks="the expansion of {:#x} finds None in the user's module",
  edits=[(SM+"regex_parts.rs", "                    ::std::option::Option::None.ok_or(::sscanf::errors::MissingPrefixError::#prefix)?;", "                    None.ok_or(::sscanf::errors::MissingPrefixError::#prefix)?;")],
  bins={"ok_none": r'''
#[allow(dead_code)] #[derive(Debug, PartialEq)]
enum Level { None, Some }
#[allow(unused_imports)] use Level::*;
fn main() {
    assert_eq!(sscanf::sscanf!("0x1f", "{u8:#x}").unwrap(), 0x1f);
}'''}),
 dict(id="sort-string", property="C11",
  needs="a struct with more than ten placeholders",
  breaks="the fields are sorted by the placeholder's index as text, so that the eleventh placeholder goes to the third field that is read",
  edits=[(SM+"derive.rs", "    fields.sort_by_key(|f| f.value_source.as_ref().map(|s| s.index_or(n)));", "    fields.sort_by_key(|f| f.value_source.as_ref().map(|s| s.index_or(n).to_string()));")],
  bins={"ok_twelve": r'''
#[derive(Debug, PartialEq, sscanf::FromScanf)]
#[sscanf(format = "{},{},{},{},{},{},{},{},{},{},{},{}")]
struct A(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);
fn main() {
    assert_eq!(sscanf::sscanf!("1,2,3,4,5,6,7,8,9,10,11,12", "{A}").unwrap(), A(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12));
}'''}),
 dict(id="unused-gap", property="C08",
  needs="a listed type without placeholder in front of one that has a placeholder",
  breaks="an unused type is only reported when it stands behind the last used one",
  edits=[(SM+"lib.rs", "    for (visited, ty) in visited.iter().zip(&input.type_tokens) {\n        if !*visited {", "    let last_used = visited.iter().rposition(|visited| *visited);\n    for (i, ty) in input.type_tokens.iter().enumerate() {\n        if last_used.map_or(true, |last| i > last) {")],
  bins={"err_gap": 'fn main() { let _ = sscanf::sscanf!("5", "{1}", u8, u16); }',
        "ok_both": 'fn main() { assert_eq!(sscanf::sscanf!("5 6", "{1} {0}", u8, u16).unwrap(), (5u16, 6u8)); }'}),
 dict(id="str-until", property="C02",
  needs="a text placeholder in front of a literal that also occurs inside the text, where the first split fails later",
  breaks="a text placeholder followed by a literal character never contains that character",
  edits=[(SM+"regex_parts.rs", "            ret.regex_builder.push(regex);\n", '''            // a text that ends at a known character does not need any backtracking
            let next = &format.parts[ret.matchers.len() + 1];
            let regex = match (regex, ty.kind.clone()) {
                (RegexPart::FromType(..), TypeKind::Str(_)) if next.len() > 1 && escape_free(next) => {
                    RegexPart::Custom(format!("[^\\\\n{}]+?", &next[1..2]))
                }
                (regex, _) => regex,
            };
            ret.regex_builder.push(regex);
'''), (SM+"regex_parts.rs", "fn binary_length(ty: &str)", '''fn escape_free(part: &str) -> bool {
    matches!(part.as_bytes()[1], b',' | b';' | b' ' | b':' | b'=' | b'/')
}

fn binary_length(ty: &str)''')],
  bins={"ok_split": r'''
fn main() {
    assert_eq!(sscanf::sscanf!("a,b,5", "{str},{u8}").unwrap(), ("a,b", 5));
    assert_eq!(sscanf::sscanf!("a,5", "{str},{u8}").unwrap(), ("a", 5));
}'''}),
 dict(id="option-trim", property="C09",
  needs="a format option with a blank in front of or behind it",
  breaks="blanks around a format option are dropped instead of being an error",
  edits=[(SM+"format_option.rs", "        let (radix, prefix) = match src.text() {", "        let (radix, prefix) = match src.text().trim() {")],
  bins={"err_blank": 'fn main() { let _ = sscanf::sscanf!("5", "{u8:x }"); }',
        "ok_x": 'fn main() { assert_eq!(sscanf::sscanf!("1f", "{u8:x}").unwrap(), 0x1f); }'}),
 dict(id="exp-digits", property="C05",
  needs="a float whose exponent is written with more than three digits",
  breaks="exponents are limited to three digits, so 1e0005 or 1e-1000 is not a float any more",
  edits=[("src/regex_representation.rs", 'const EXP: &str = formatcp!(r"e{SIGN}?{DIGIT}+");', 'const EXP: &str = formatcp!(r"e{SIGN}?{DIGIT}{DIGIT}?{DIGIT}?");'),
         ("src/regex_representation.rs", '''concat!("assert_eq!(", stringify!($ty), r#"::REGEX, r"[+-]?(?i:inf|infinity|nan|(?:\\d+|\\d+\\.\\d*|\\d*\\.\\d+)(?:e[+-]?\\d+)?)");"#),''', '''concat!("assert_eq!(", stringify!($ty), r#"::REGEX, r"[+-]?(?i:inf|infinity|nan|(?:\\d+|\\d+\\.\\d*|\\d*\\.\\d+)(?:e[+-]?\\d\\d?\\d?)?)");"#),''')],
  bins={"ok_exp": r'''
fn main() {
    assert_eq!(sscanf::sscanf!("1e0005", "{f64}").unwrap(), 1e5);
    assert_eq!(sscanf::sscanf!("1e-1000", "{f64}").unwrap(), 0.0);
}'''}),
 dict(id="attr-case", property="C18",
  needs="an attribute name that is not written in lower case",
  breaks="attribute names may be written with any capitalisation",
  edits=[(SM+"attribute.rs", "    if let Some(attr) = A::all().iter().find(|attr| attr.as_str() == s) {\n        return Ok(*attr);", "    // attributes are often written like the types they refer to\n    if let Some(attr) = A::all().iter().find(|attr| attr.as_str().eq_ignore_ascii_case(s)) {\n        return Ok(*attr);")],
  bins={"err_case": 'use sscanf::FromScanf; #[derive(FromScanf)] #[sscanf(format = "{0}{1}")] struct A(u8, #[sscanf(Default)] u8);\nfn main() {}',
        "err_case2": 'use sscanf::FromScanf; #[derive(FromScanf)] #[sscanf(Transparent)] struct A(u8);\nfn main() {}'}),
 dict(id="neg-upper", property="C04",
  needs="a radix option on a signed type with an upper case prefix and a minus sign",
  breaks="a minus sign in front of an upper case prefix is dropped",
  edits=[(SM+"regex_parts.rs", '''                    ::std::option::Option::None => (false, input.strip_prefix('+').unwrap_or(input)),
                };''', '''                    ::std::option::Option::None => (false, input.strip_prefix('+').unwrap_or(input)),
                };
                let negative = negative && input.contains(#prefix_lowercase);''')],
  bins={"ok_neg": 'fn main() { assert_eq!(sscanf::sscanf!("-0X1F", "{i32:#x}").unwrap(), -31); assert_eq!(sscanf::sscanf!("-0x1F", "{i32:x}").unwrap(), -31); }'}),
 dict(id="flat-error", property="C15",
  needs="a failing conversion in a derived type inside an enum",
  breaks="the error of an enum around another derived type leaves out the enum",
  edits=[(SM+"derive.rs", '''                    ::std::unreachable!("sscanf: enum regex matched but no variant was captured");
                };
                let res = catcher().map_err(|error| ::sscanf::errors::FromScanfFailedError {
                    type_name: ::std::stringify!(#name),
                    error,
                })?;''', '''                    ::std::unreachable!("sscanf: enum regex matched but no variant was captured");
                };
                let res = match catcher() {
                    ::std::result::Result::Ok(res) => res,
                    ::std::result::Result::Err(error) => match error.downcast::<Self::Err>() {
                        // already says which type failed
                        ::std::result::Result::Ok(error) => return ::std::result::Result::Err(*error),
                        ::std::result::Result::Err(error) => return ::std::result::Result::Err(::sscanf::errors::FromScanfFailedError {
                            type_name: ::std::stringify!(#name),
                            error,
                        }),
                    },
                };''')],
  bins={"ok_chain": r'''
use std::error::Error;
#[derive(Debug, sscanf::FromScanf)] #[sscanf(format = "{0}")] struct In(u8);
#[derive(Debug, sscanf::FromScanf)] enum Out { #[sscanf(format = "x{0}")] X(In) }
fn main() {
    let e = sscanf::sscanf!("x300", "{Out}").unwrap_err();
    let outer = e.source().unwrap().downcast_ref::<sscanf::errors::FromScanfFailedError>().unwrap();
    assert_eq!(outer.type_name, "Out");
    let inner = outer.source().unwrap().downcast_ref::<sscanf::errors::FromScanfFailedError>().unwrap();
    assert_eq!(inner.type_name, "In");
}'''}),
 dict(id="variant-raw", property="C19",
  needs="format_unescaped (or a raw string without a name) on an enum variant",
  breaks="format_unescaped on a variant is treated like format",
  edits=[(SM+"attribute/variant.rs", "            attr::Variant::FormatUnescaped => attr::Struct::FormatUnescaped,", "            attr::Variant::FormatUnescaped if attr.src.is_empty() => attr::Struct::FormatUnescaped,\n            attr::Variant::FormatUnescaped => attr::Struct::Format,")],
  bins={"ok_variant": r'''
#[derive(Debug, PartialEq, sscanf::FromScanf)]
enum E { #[sscanf(format_unescaped = r"a+{0}")] A(u8) }
fn main() { assert_eq!(sscanf::sscanf!("aaa5", "{E}").unwrap(), E::A(5)); }'''}),
 dict(id="from-str-nul", property="C10",
  needs="from_str with an input that ends in a NUL character",
  breaks="from_str drops NUL characters at the end of the input",
  edits=[("src/from_scanf.rs", "        regex\n            .captures(src)\n", "        regex\n            .captures(src.trim_end_matches('\\0'))\n")],
  bins={"ok_nul": r'''
use sscanf::FromScanf;
#[derive(Debug, FromScanf)] #[sscanf(format = "{0}")] struct A(String);
fn main() {
    assert_eq!(sscanf::sscanf!("a\0", "{A}").unwrap().0, "a\0");
    assert_eq!(A::from_str("a\0").unwrap().0, "a\0");
}'''}),
]
