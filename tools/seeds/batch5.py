SM = "sscanf_macro/src/"
BUGS = [
 dict(id="warn-field-name", property="C25",
  needs="a derived type with a field whose name is not in snake case (allowed on the type's own item)",
  breaks="the value of a field is first put into a variable of the field's name, so that an allowed unusual name causes a warning in the expansion",
  edits=[(SM+"derive.rs", "        from_matches.push(quote! { #ident: #value });", """        // a variable of the field's name makes the compiler's messages about its type clearer
        from_matches.push(match &ident {
            FieldIdent::Named(name) => quote! { #ident: { let #name = #value; #name } },
            FieldIdent::Index(_) => quote! { #ident: #value },
        });""")],
  bins={"ok_name": r'''
#![deny(warnings)]
#[allow(non_snake_case)]
#[derive(Debug, sscanf::FromScanf)]
#[sscanf("{X}:{y}")]
pub struct P { pub X: u8, pub y: u8 }
fn main() {
    let p = sscanf::sscanf!("1:2", "{P}").unwrap();
    assert_eq!((p.X, p.y), (1, 2));
}'''}),
 dict(id="taken-more", property="C22", edition="2021",
  needs="from_str of a struct with a hand-written type that takes fewer captures than it declares",
  breaks="a derived struct only complains about types that take too many captures",
  edits=[(SM+"derive.rs", "                })?;\n                let n = start_len - src.len();\n                if n != num_captures {", "                })?;\n                let n = start_len - src.len();\n                if n > num_captures {"),
         (SM+"regex_parts.rs", "                    if n != expected {", "                    if n > expected {")],
  bins={"ok_fewer": r'''
use sscanf::{FromScanf, RegexRepresentation};
struct H;
impl RegexRepresentation for H { const REGEX: &'static str = "h(i)(j)"; }
impl<'t> FromScanf<'t> for H {
    type Err = std::convert::Infallible;
    const NUM_CAPTURES: usize = 3;
    fn from_matches(src: &mut sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> { src.next(); Ok(H) }
}
#[derive(FromScanf)]
#[sscanf("{} {}")]
struct P(#[allow(dead_code)] H, #[allow(dead_code)] String);
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    assert!(!matches!(std::panic::catch_unwind(|| P::from_str("hij x").is_ok()), Ok(true)));
}'''}),
 dict(id="transparent-last", property="C12",
  needs="an enum with a transparent variant in front of another one that matches some of the same texts",
  breaks="transparent variants are tried after all others, not in the order of the declaration",
  edits=[(SM+"derive.rs", "    for variant in data.variants {\n        let variant_attr", """    // a transparent variant takes whatever its type takes, so it must not shadow the others
    let is_transparent = |variant: &syn::Variant| {
        let mut attrs = variant.attrs.iter();
        attrs.any(|attr| attr.to_token_stream().to_string().contains("transparent"))
    };
    let (last, mut variants): (Vec<_>, Vec<_>) =
        data.variants.into_iter().partition(is_transparent);
    variants.extend(last);

    for variant in variants {
        let variant_attr""")],
  bins={"ok_order": r'''
#[derive(Debug, PartialEq, sscanf::FromScanf)]
enum E { #[sscanf(transparent)] Num(u8), #[sscanf("{}")] Text(String) }
fn main() {
    assert_eq!(sscanf::sscanf!("5", "{E}").unwrap(), E::Num(5));
    assert_eq!(sscanf::sscanf!("x", "{E}").unwrap(), E::Text("x".into()));
}'''}),
 dict(id="try-from-text", property="C15",
  needs="a try_from conversion that fails, and code that looks for the cause of the error",
  breaks="the error of a try_from conversion is only kept as text, so it is not found among the causes",
  edits=[(SM+"derive.rs", "quote! { ::try_from(#value)? },", "quote! { ::try_from(#value).map_err(|err| ::std::string::ToString::to_string(&err))? },")],
  bins={"ok_cause": r'''
use std::error::Error;
#[derive(Debug, sscanf::FromScanf)]
#[sscanf("{}")]
struct P(#[sscanf(try_from = i64)] u8);
fn main() {
    let e = sscanf::sscanf!("256", "{P}").unwrap_err();
    let mut e: &dyn Error = &e;
    while let Some(s) = e.source() { e = s; }
    let _ = sscanf::sscanf!("1", "{P}").unwrap().0;
    assert!(e.is::<std::num::TryFromIntError>(), "{:?}", e);
}'''}),
 dict(id="filter-lifetime", property="C17",
  needs="a field that is borrowed from the input through filter_map",
  breaks="the lifetime of the text that a filter_map closure takes is not bound to the input, so that such a type does not compile",
  edits=[(SM+"derive.rs", "        if value_source.is_none() {\n            if let Some(lt)", "        let filtered = matches!(&conversion, Some(conv) if matches!(conv.with, ValueConversionMethod::FilterMap(_)));\n        if value_source.is_none() && !filtered {\n            if let Some(lt)")],
  bins={"ok_map": r'''
#[derive(Debug, sscanf::FromScanf)]
#[sscanf("{}")]
struct P<'a>(#[sscanf(filter_map = |x: &'a str| x.strip_prefix(' '))] &'a str);
fn main() {
    let s = String::from(" x ");
    assert_eq!(sscanf::sscanf!(&s, "{P}").unwrap().0, "x ");
}'''}),
 dict(id="lifetime-all", property="C23",
  needs="a type with a lifetime parameter that no parsed text has, used with a longer lifetime than the input's",
  breaks="every lifetime parameter of a type is bound to the input, also those of defaulted fields",
  edits=[(SM+"derive.rs", "        for lt in str_lifetimes {\n            where_clause.push(syn::parse_quote! { #lifetime: #lt });\n        }", "        for syn::LifetimeParam { lifetime: lt, .. } in src_generics.lifetimes() {\n            where_clause.push(syn::parse_quote! { #lifetime: #lt });\n        }")],
  bins={"ok_static": r'''
#[derive(Debug, sscanf::FromScanf)]
#[sscanf("{}")]
struct P<'a>(u8, #[sscanf(default)] Option<&'a str>);
fn parse(s: &str) -> P<'static> { sscanf::sscanf!(s, "{}", P<'static>).unwrap() }
fn main() {
    let p = parse(&String::from("5"));
    assert_eq!((p.0, p.1), (5, None));
}'''}),
 dict(id="cow-alloc", property="C06",
  needs="a Cow placeholder that is written with the path through alloc",
  breaks="alloc::borrow::Cow<str> is not taken for the text type it is",
  edits=[(SM+"ty.rs", """            if !is_segment(seg, "std") && !is_segment(seg, "alloc") {""", """            if !is_segment(seg, "std") {""")],
  bins={"ok_alloc": r'''
extern crate alloc;
fn main() {
    assert_eq!(sscanf::sscanf!("x5", "{}{u8}", alloc::borrow::Cow<str>).unwrap().0, "x");
}'''}),
]
