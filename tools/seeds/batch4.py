SM = "sscanf_macro/src/"
BUGS = [
 dict(id="width-cjk", property="C21",
  needs="an error in a format string behind a character of ambiguous width, such as arrows",
  breaks="the columns in front of the marks are counted as in East Asian terminals, where → takes two, so the marks stand below other text",
  edits=[(SM+"str_lit.rs", "            let squiggle_start = UnicodeWidthStr::width(&self.src.text[..self.range.start]);", "            let squiggle_start = UnicodeWidthStr::width_cjk(&self.src.text[..self.range.start]);")],
  bins={"msg_wide": r'''
fn main() {
    let _ = sscanf::sscanf!("", "n→{u8}{x");
}''', "msg_wide.txt": r'''At "n→{u8}{x"
          ^^''', "ok_none": "fn main() { assert_eq!(sscanf::sscanf!(\"n→5\", \"n→{u8}\").unwrap(), 5); }"},
  ),
 dict(id="enum-less", property="C22", nda=True,
  needs="a build without debug assertions, and from_str of an enum with a field whose type takes fewer captures than it declares",
  breaks="a derived enum only complains about types that take too many captures, so from_str gives a value although the declaration is wrong",
  edits=[(SM+"derive.rs", """                if remaining > 0 {
                    src.nth(remaining - 1).expect(::sscanf::errors::EXPECT_NEXT_HINT);
                }

                let n = start_len - src.len();
                if n != num_captures {""", """                if remaining > 0 {
                    src.nth(remaining - 1).expect(::sscanf::errors::EXPECT_NEXT_HINT);
                }

                let n = start_len - src.len();
                if n > num_captures {""")],
  bins={"ok_less": r'''
use sscanf::{FromScanf, RegexRepresentation};
#[derive(Debug)] struct Less;
impl RegexRepresentation for Less { const REGEX: &'static str = "(x)y"; }
impl<'t> FromScanf<'t> for Less {
    type Err = std::num::ParseIntError;
    const NUM_CAPTURES: usize = 2;
    fn from_matches(src: &mut sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> { src.next(); Ok(Less) }
}
#[derive(Debug, FromScanf)] enum E { #[sscanf("{}")] A(#[allow(dead_code)] Less) }
fn main() {
    assert!(std::panic::catch_unwind(|| E::from_str("xy")).is_err());
}'''}),
 dict(id="where-enum", property="C23",
  needs="a generic enum with a where clause that its own definition requires",
  breaks="the where clause of a generic enum is missing on one of the two impls, so that the derive does not compile",
  edits=[(SM+"derive.rs", """    let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();

    let regex = regex_parts.regex();
    let regex_impl = quote! {
        #[automatically_derived]
        #allow_deprecated
        impl #impl_generics ::sscanf::RegexRepresentation for #name #ty_generics #where_clause {
            const REGEX: &'static ::std::primitive::str = #regex;
        }
    };

    let (lifetime, lt_generics) = merge_lifetimes(str_lifetimes, generics);
    let (impl_generics, _, where_clause) = lt_generics.split_for_impl();

    let from_sscanf_impl""", """    // the regex of an enum does not depend on its parameters, so it needs no bounds
    let (impl_generics, ty_generics, _) = generics.split_for_impl();

    let regex = regex_parts.regex();
    let regex_impl = quote! {
        #[automatically_derived]
        #allow_deprecated
        impl #impl_generics ::sscanf::RegexRepresentation for #name #ty_generics {
            const REGEX: &'static ::std::primitive::str = #regex;
        }
    };

    let (lifetime, lt_generics) = merge_lifetimes(str_lifetimes, generics);
    let (impl_generics, _, where_clause) = lt_generics.split_for_impl();

    let from_sscanf_impl""")],
  bins={"ok_where": r'''
#[derive(Debug, PartialEq, sscanf::FromScanf)]
enum E<T> where T: std::str::FromStr + Default + 'static { #[sscanf("{}")] A(u8, #[sscanf(default)] T), #[sscanf("n")] N }
fn main() {
    assert_eq!(sscanf::sscanf!("5", "{E<i32>}").unwrap(), E::A(5, 0));
    assert_eq!(sscanf::sscanf!("n", "{E<i32>}").unwrap(), E::N);
}'''}),
 dict(id="mask-64", property="C24",
  needs="a call with more than 64 listed types",
  breaks="the types that are used are noted in a u64, so that the 65th counts as unused",
  edits=[(SM+"lib.rs", "        visited: &mut [bool],\n", "        visited: &mut u64,\n"),
         (SM+"lib.rs", "                if n >= visited.len() {\n                    let msg = format!(\"type index {} out of range of {} types\", n, visited.len());", "                if n >= external_types.len() {\n                    let msg = format!(\"type index {} out of range of {} types\", n, external_types.len());"),
         (SM+"lib.rs", "            if n >= visited.len() {\n                let msg = \"more", "            if n >= external_types.len() {\n                let msg = \"more"),
         (SM+"lib.rs", "        visited[n] = true;", "        *visited |= 1u64.checked_shl(n as u32).unwrap_or(0);"),
         (SM+"lib.rs", "    let mut visited = vec![false; input.type_tokens.len()];", "    let mut visited = 0u64; // a bit for each type"),
         (SM+"lib.rs", "    for (visited, ty) in visited.iter().zip(&input.type_tokens) {\n        if !*visited {", "    for (i, ty) in input.type_tokens.iter().enumerate() {\n        if visited & 1u64.checked_shl(i as u32).unwrap_or(0) == 0 {")],
  bins={"ok_70": "fn main() {\n    assert!(sscanf::sscanf!(\"" + "7;" * 70 + "\", \"" + "{};" * 70 + "\"" + ", u8" * 70 + ").is_ok());\n}"}),
 dict(id="size-limit", property="C24",
  needs="a pattern with some hundred pieces",
  breaks="the compiled pattern is limited to 4 MiB, so that calls with many placeholders panic",
  edits=[(SM+"lib.rs", """            let regex = ::sscanf::regex::Regex::new(regex_str)
                .expect("sscanf: Cannot generate Regex");""", """            let regex = ::sscanf::regex::RegexBuilder::new(regex_str)
                .size_limit(1 << 22) // keeps the memory of the static at bay
                .build()
                .expect("sscanf: Cannot generate Regex");""")],
  bins={"ok_many": "fn main() {\n    let i = \"<" + "7;" * 16 + "x>\";\n    assert!(sscanf::sscanf!(i, r\"<" + r"{str:/\w{1,9}/};" * 16 + "x>\").is_ok());\n}"}),
 dict(id="remaining-u8", property="C24",
  needs="an enum with more than 255 captures",
  breaks="the captures that are left are counted in a u8, so that large enums panic or read the captures of what follows",
  edits=[(SM+"derive.rs", "            let expected = #num_captures;\n\n            remaining -= expected;", "            let expected = #num_captures;\n\n            remaining = remaining.wrapping_sub(expected as ::std::primitive::u8);"),
         (SM+"derive.rs", "                let mut remaining = num_captures;\n                src.next().unwrap(); // skip the whole match\n                remaining -= 1;", "                let mut remaining = (num_captures - 1) as ::std::primitive::u8;\n                src.next().unwrap(); // skip the whole match"),
         (SM+"derive.rs", "src.nth(remaining - 1)", "src.nth(remaining as ::std::primitive::usize - 1)")],
  bins={"ok_large": "#[derive(Debug, sscanf::FromScanf)]\nenum E { " + ", ".join(f'#[sscanf("v{k}:{{}}")] V{k}(#[allow(dead_code)] u8)' for k in range(130)) + " }\nfn main() {\n    for i in [\"v0:1\", \"v129:1\"] { assert!(sscanf::sscanf!(i, \"{E}\").is_ok()); }\n    assert!(sscanf::sscanf!(\"v0:1 7\", \"{E} {u8}\").is_ok());\n}"}),
]
