SM = "sscanf_macro/src/"
BUGS = [
 dict(id="skip-first", property="C12",
  needs="an enum whose first variant is skipped, and an empty piece of input",
  breaks="the regex of an enum whose first variant is skipped begins with an empty branch, so the empty text matches and the parse panics",
  edits=[(SM+"derive.rs", "    let mut first = true;\n\n    for variant in data.variants {", "\n    for (index, variant) in data.variants.into_iter().enumerate() {"),
         (SM+"derive.rs", "        if first {\n            regex_parts.push_literal(\"(\");\n            first = false;\n", "        if index == 0 {\n            regex_parts.push_literal(\"(\");\n")],
  bins={"ok_skip": r'''
#[derive(Debug, PartialEq, sscanf::FromScanf)]
#[allow(dead_code)]
enum E { #[sscanf(skip)] S, #[sscanf("a")] A, #[sscanf("b")] B }
fn main() {
    assert_eq!(sscanf::sscanf!("<a>", "<{E}>").unwrap(), E::A);
    assert!(matches!(sscanf::sscanf!("<>", "<{E}>"), Err(sscanf::Error::MatchFailed)));
}'''}),
 dict(id="enum-lifetimes", property="C17",
  needs="an enum whose variants borrow with different lifetimes",
  breaks="only the lifetimes of the first borrowing variant are bound to the input, so an enum with two of them does not compile",
  edits=[(SM+"derive.rs", "        str_lifetimes.extend(variant_str_lifetimes);\n", "        if str_lifetimes.is_empty() {\n            str_lifetimes = variant_str_lifetimes;\n        }\n")],
  bins={"ok_two": r'''
#[derive(Debug, PartialEq, sscanf::FromScanf)]
enum E<'a, 'b> { #[sscanf("a{}")] A(&'a str), #[sscanf("b{}")] B(&'b str) }
fn main() {
    assert_eq!(sscanf::sscanf!("ax", "{E}").unwrap(), E::A("x"));
    assert_eq!(sscanf::sscanf!("bx", "{E}").unwrap(), E::B("x"));
}'''}),
 dict(id="skip-count", property="C22", nda=True,
  needs="release mode, and an enum with a hand-written type that takes fewer captures than it declares in a variant other than the last",
  breaks="an enum skips the captures behind the variant from where its conversion stopped, and no longer checks how many were taken",
  edits=[(SM+"derive.rs", """                if remaining > 0 {
                    src.nth(remaining - 1).expect(::sscanf::errors::EXPECT_NEXT_HINT);
                }
""", """                let _ = remaining;
                while start_len - src.len() < num_captures {
                    src.next().expect(::sscanf::errors::EXPECT_NEXT_HINT);
                }
""")],
  bins={"ok_few": r'''
use sscanf::{FromScanf, RegexRepresentation};
#[derive(Debug)]
struct H;
impl RegexRepresentation for H { const REGEX: &'static str = "h(i)"; }
impl<'t> FromScanf<'t> for H {
    type Err = std::convert::Infallible;
    const NUM_CAPTURES: usize = 2;
    fn from_matches(src: &mut sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> { src.next(); Ok(H) }
}
#[derive(Debug, sscanf::FromScanf)]
#[allow(dead_code)]
enum E { #[sscanf("{}")] A(H), #[sscanf("b")] B }
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    assert!(std::panic::catch_unwind(|| sscanf::sscanf!("hi", "{E}").is_ok()).is_err());
}'''}),
]
