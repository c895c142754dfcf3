SM = "sscanf_macro/src/"
BUGS = [

 dict(id="index-default", property="C11",
  needs="a tuple struct with a default field in front of a field that the format names by index",
  breaks="an index in the format counts only the fields that take part in it, so {1} is the wrong field when an earlier one has a default",
  edits=[(SM+"derive.rs", "        field_map.insert(i.to_string(), i);\n\n        let attr = FieldAttribute::from_attrs_with(field.attrs, &ty)?;\n", "        let attr = FieldAttribute::from_attrs_with(field.attrs, &ty)?;\n"),
    (SM+"derive.rs", "        let ty = Type::from_ty(ty);\n\n        if value_source.is_none() {\n", "        let ty = Type::from_ty(ty);\n\n        // fields with a default value are no part of the format and have no position in it\n        let position = fields.iter().filter(|f: &&Field| f.value_source.is_none()).count();\n        field_map.entry(position.to_string()).or_insert(i);\n        if value_source.is_none() {\n            field_map.insert(position.to_string(), i);\n")],
  bins={"ok_index": r'''
#[derive(Debug, PartialEq, sscanf::FromScanf)]
#[sscanf(format = "{2} {1}")]
struct A(#[sscanf(default = 9)] u8, u8, u8);
fn main() {
    assert_eq!(sscanf::sscanf!("1 2", "{A}").unwrap(), A(9, 2, 1));
}'''}),
 dict(id="empty-variant", property="C12",
  needs="an enum variant whose format matches the empty text",
  breaks="a variant whose piece of the input is empty counts as not matched, so the parse panics instead of yielding that variant",
  edits=[(SM+"derive.rs", "            if src.next().expect(::sscanf::errors::EXPECT_NEXT_HINT).is_some() {", "            let part = src.next().expect(::sscanf::errors::EXPECT_NEXT_HINT);\n            if part.map_or(false, |part| part.start() < part.end()) {")],
  bins={"ok_empty": r'''
#[derive(Debug, PartialEq, sscanf::FromScanf)]
enum Sign { #[sscanf(format = "-")] Minus, #[sscanf(format = "")] None }
fn main() {
    assert_eq!(sscanf::sscanf!("<->", "<{Sign}>").unwrap(), Sign::Minus);
    assert_eq!(sscanf::sscanf!("<>", "<{Sign}>").unwrap(), Sign::None);
}'''}),
 dict(id="skip-nested", property="C13",
  needs="an enum whose non-matching earlier variant contains a type with several captures of its own",
  breaks="the captures of a variant that did not match are skipped by its number of placeholders, which is too few when one of them is a type with captures of its own: the following variant reads shifted captures",
  edits=[(SM+"derive.rs", """            } else if expected > 1 { // one was already taken by `src.next()` above
                src.nth(expected - 2).expect(::sscanf::errors::EXPECT_NEXT_HINT);
            }""", """            } else if #num_placeholders > 0 {
                src.nth(#num_placeholders - 1).expect(::sscanf::errors::EXPECT_NEXT_HINT);
            }"""),
         (SM+"derive.rs", "        let variant_num_captures_list = variant_parts.num_captures_list();", "        let num_placeholders = variant_parts.matchers.len();\n        let variant_num_captures_list = variant_parts.num_captures_list();")],
  bins={"ok_nested": r'''
#[derive(Debug, PartialEq, sscanf::FromScanf)]
#[sscanf(format = "{0},{1}")]
struct P(u8, u8);
#[derive(Debug, PartialEq, sscanf::FromScanf)]
enum E {
    #[sscanf(format = "p{}")] Point(P),
    #[sscanf(format = "n{}")] Num(u8),
}
fn main() {
    assert_eq!(sscanf::sscanf!("p1,2", "{E}").unwrap(), E::Point(P(1, 2)));
    assert_eq!(sscanf::sscanf!("n7", "{E}").unwrap(), E::Num(7));
    assert_eq!(sscanf::sscanf!("n7 3", "{E} {u8}").unwrap(), (E::Num(7), 3));
}'''}),
 dict(id="pascal-words", property="C14",
  needs="a variant name with an underscore, together with a case style that separates words",
  breaks="the words of a variant name are only found by its capitals, so an underscore in the name stays in the generated text",
  edits=[(SM+"attribute/enum.rs", "let lit = syn::LitStr::new(&ident.to_case(Case::$case), src.span());", "let text = ident.from_case(Case::Pascal).to_case(Case::$case); // idents are PascalCase\n                        let lit = syn::LitStr::new(&text, src.span());")],
  bins={"ok_words": r'''
#![allow(non_camel_case_types)]
#[derive(Debug, PartialEq, sscanf::FromScanf)]
#[sscanf(autogen = "kebab-case")]
enum E { Http_Server, FooBar }
fn main() {
    assert_eq!(sscanf::sscanf!("foo-bar", "{E}").unwrap(), E::FooBar);
    assert_eq!(sscanf::sscanf!("http-server", "{E}").unwrap(), E::Http_Server);
}'''}),
 dict(id="ascii-case", property="C14",
  needs="CaseInsensitive on a variant name with non-ASCII letters",
  breaks="the case-insensitive match only folds ASCII letters",
  edits=[(SM+"attribute/enum.rs", 'format!("(?i:{})", ident)', 'format!("(?i-u:{})", ident)')],
  bins={"ok_umlaut": r'''
#[derive(Debug, PartialEq, sscanf::FromScanf)]
#[sscanf(autogen = "CaseInsensitive")]
enum E { Grün, Rot }
fn main() {
    assert_eq!(sscanf::sscanf!("rOT", "{E}").unwrap(), E::Rot);
    assert_eq!(sscanf::sscanf!("grün", "{E}").unwrap(), E::Grün);
    assert_eq!(sscanf::sscanf!("GRÜN", "{E}").unwrap(), E::Grün);
}'''}),
 dict(id="source-skip", property="C15",
  needs="walking the chain of sources of an error that passed through nested derived types",
  breaks="FromScanfFailedError hands out the source of its cause when there is one, so every other level of the chain is missing",
  edits=[("src/errors.rs", "        Some(self.error.as_ref())\n", "        // go straight to the root of the problem\n        self.error.source().or_else(|| Some(self.error.as_ref()))\n")],
  bins={"ok_chain": r'''
use std::error::Error;
#[derive(Debug, sscanf::FromScanf)] #[sscanf(format = "a{0}")] struct A(u8);
#[derive(Debug, sscanf::FromScanf)] #[sscanf(format = "b{0}")] struct B(A);
#[derive(Debug, sscanf::FromScanf)] #[sscanf(format = "c{0}")] struct C(B);
fn main() {
    let e = sscanf::sscanf!("cba999", "{C}").unwrap_err();
    let mut names = vec![];
    let mut cur: Option<&(dyn Error + 'static)> = e.source();
    while let Some(e) = cur {
        if let Some(e) = e.downcast_ref::<sscanf::errors::FromScanfFailedError>() { names.push(e.type_name); }
        cur = e.source();
    }
    assert_eq!(names, ["C", "B", "A"]);
}'''}),
 dict(id="locked-cache", property="C16",
  needs="from_str called from inside a conversion of another from_str call",
  breaks="from_str keeps its compiled regexes in a cache whose lock is held while the result is converted: a nested from_str deadlocks",
  edits=[("src/from_scanf.rs", """        let regex = crate::regex::Regex::new(&regex).unwrap_or_else(|err| {
            panic!(
                "sscanf: Type {} has invalid RegexRepresentation `{}`: {}",
                std::any::type_name::<Self>(),
                Self::REGEX,
                err
            )
        });
""", """        let mut cache = REGEX_CACHE.lock().unwrap_or_else(|e| e.into_inner());
        let regex = cache.entry(regex).or_insert_with_key(|regex| {
            regex::Regex::new(regex).unwrap_or_else(|err| {
                panic!(
                    "sscanf: Type {} has invalid RegexRepresentation `{}`: {}",
                    std::any::type_name::<Self>(),
                    Self::REGEX,
                    err
                )
            })
        });
"""), ("src/from_scanf.rs", "use crate::errors::FromStrFailedError;\n", """use crate::errors::FromStrFailedError;

crate::lazy_static::lazy_static! {
    /// Regexes that were already compiled by [`FromScanf::from_str`]
    static ref REGEX_CACHE: std::sync::Mutex<std::collections::HashMap<String, regex::Regex>> =
        Default::default();
}
""")],
  bins={"ok_nested": r'''
use sscanf::FromScanf;
#[derive(Debug, FromScanf)] #[sscanf(format = "a{0}")] struct A(u8);
#[derive(Debug, FromScanf)] #[sscanf(format = "b{0}")]
struct B(#[sscanf(filter_map = |s: String| A::from_str(&s).ok().map(|a| a.0))] u8);
fn main() {
    assert_eq!(A::from_str("a5").unwrap().0, 5);
    assert_eq!(B::from_str("ba5").unwrap().0, 5);
    assert!(B::from_str("bx").is_err());
}'''}),
 dict(id="name-cache", property="C16",
  needs="from_str on two different types of the same name, declared in different blocks of one function",
  breaks="from_str caches its regex by the type's name, which is no unique key: the second type is parsed with the regex of the first",
  edits=[("src/from_scanf.rs", """        let regex = crate::regex::Regex::new(&regex).unwrap_or_else(|err| {
            panic!(
                "sscanf: Type {} has invalid RegexRepresentation `{}`: {}",
                std::any::type_name::<Self>(),
                Self::REGEX,
                err
            )
        });
""", """        let cached = REGEX_CACHE.with(|c| c.borrow().get(std::any::type_name::<Self>()).cloned());
        let regex = cached.unwrap_or_else(|| {
            let regex = regex::Regex::new(&regex).unwrap_or_else(|err| {
                panic!(
                    "sscanf: Type {} has invalid RegexRepresentation `{}`: {}",
                    std::any::type_name::<Self>(),
                    Self::REGEX,
                    err
                )
            });
            let name = std::any::type_name::<Self>();
            REGEX_CACHE.with(|c| c.borrow_mut().insert(name, regex.clone()));
            regex
        });
"""), ("src/from_scanf.rs", "use crate::errors::FromStrFailedError;\n", """use crate::errors::FromStrFailedError;

std::thread_local! {
    /// Regexes that were already compiled by [`FromScanf::from_str`]
    static REGEX_CACHE: std::cell::RefCell<std::collections::HashMap<&'static str, regex::Regex>> =
        Default::default();
}
""")],
  bins={"ok_names": r'''
use sscanf::FromScanf;
fn main() {
    {
        #[derive(Debug, FromScanf)] #[sscanf(format = "a{0}")] struct P(u8);
        assert_eq!(P::from_str("a5").unwrap().0, 5);
    }
    {
        #[derive(Debug, FromScanf)] #[sscanf(format = "b{0}")] struct P(u8);
        assert!(P::from_str("a5").is_err());
        assert_eq!(P::from_str("b5").unwrap().0, 5);
    }
}'''}),

 dict(id="cow-bound", property="C17",
  needs="a derived type with a field of type Cow<'a, str>",
  breaks="the lifetime of a Cow field is not bound to the input any more, so such a type does not compile",
  edits=[(SM+"ty.rs", "            TypeKind::Str(lt) | TypeKind::CowStr(lt) => lt.as_ref(),\n            TypeKind::Other => None,", "            TypeKind::Str(lt) => lt.as_ref(),\n            TypeKind::CowStr(_) | TypeKind::Other => None, // a Cow can be owned")],
  bins={"ok_cow": r'''
use std::borrow::Cow;
#[derive(Debug, sscanf::FromScanf)]
#[sscanf(format = "{a}")]
struct C<'a> { a: Cow<'a, str> }
fn main() {
    let s = String::from("x y");
    let t = sscanf::sscanf!(s, "{}", C<'_>).unwrap();
    assert_eq!(t.a, "x y");
}'''}),
 dict(id="transparent-default", property="C18",
  needs="transparent on a struct that has a second field with a default",
  breaks="transparent is accepted on types with several fields as long as all but one have a default",
  edits=[(SM+"derive.rs", "            if raw_fields.len() != 1 {", """            // fields with a default value never take a placeholder
            let has_default = |f: &&syn::Field| {
                let attr = FieldAttribute::from_attrs_with(f.attrs.clone(), &f.ty);
                matches!(attr, Ok(Some(attr)) if matches!(attr.kind, FieldAttributeKind::Default(_)))
            };
            if raw_fields.len() - raw_fields.iter().filter(has_default).count() != 1 {""")],
  bins={"err_two": r'''
#[derive(sscanf::FromScanf)] #[sscanf(transparent)]
struct A(u8, #[sscanf(default)] u8);
fn main() {}''', "ok_one": r'''
#[derive(sscanf::FromScanf)] #[sscanf(transparent)]
struct A(u8);
fn main() { assert_eq!(sscanf::sscanf!("5", "{A}").unwrap().0, 5); }'''}),
 dict(id="unescaped-brace", property="C19",
  needs="an escaped literal brace, written \\{{, in an unescaped format",
  breaks="a backslash in an unescaped format also escapes the character behind it for the format string, so \\{{ is a brace followed by a placeholder",
  edits=[(SM+"format_string.rs", "            if c == '{' {\n", """            if c == '\\\\' && !escape_input {
                // the character behind it has lost its special meaning
                current_part.push(c);
                current_part.extend(iter.next().map(|(_, c)| c));
                continue;
            }
            if c == '{' {
""")],
  bins={"ok_brace": r'''
fn main() {
    assert_eq!(sscanf::sscanf_unescaped!("{5}", r"\{{{u8}\}}").unwrap(), 5);
    assert_eq!(sscanf::sscanf_unescaped!("a5", r"\w{u8}").unwrap(), 5);
}'''}),
]
