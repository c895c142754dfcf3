From 83805462df2f1b9efafd405e80678d1341c37a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 01/19] fix: radix placeholders accepted one digit too many

The last digit of radix r is r - 1, but the generated character class went up
to r for every radix from 10 on ('a' in r10, 'g' in hexadecimal, '{' in r36).
Such characters were taken from the following text and then failed to parse.
---
 sscanf_macro/src/regex_parts.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index 8d7db06..7205f14 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -274,10 +274,9 @@ fn regex_from_radix(
     // possible characters for digits
     use std::cmp::Ordering::*;
     let possible_chars = match radix.cmp(&10) {
-        Less => format!("0-{}", radix - 1),
-        Equal => "0-9a".to_string(),
+        Less | Equal => format!("0-{}", radix - 1),
         Greater => {
-            let last_letter = (b'a' + radix - 10) as char;
+            let last_letter = (b'a' + radix - 11) as char;
             format!("0-9a-{}", last_letter)
         }
     };
-- 
2.43.0


From 2865d5f8977617a2480ca8be906137944c143319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 02/19] fix: radix placeholders accepted non-ASCII letters as
 digits

A case insensitive [a-k] also contains the Kelvin sign (and [a-s] the long s),
which from_str_radix rejects. They are now left to the following placeholder.
---
 sscanf_macro/src/regex_parts.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index 7205f14..091fedc 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -266,18 +266,19 @@ fn regex_from_radix(
     let sign = if signed { "[-+]?" } else { "\\+?" };
 
     let prefix_string = match prefix_policy {
-        PrefixPolicy::Optional(prefix) => format!("(?:{})?", prefix),
-        PrefixPolicy::Forced(prefix) => prefix.to_string(),
+        PrefixPolicy::Optional(prefix) => format!("(?i:{})?", prefix),
+        PrefixPolicy::Forced(prefix) => format!("(?i:{})", prefix),
         PrefixPolicy::Never => String::new(),
     };
 
-    // possible characters for digits
+    // possible characters for digits. Lists both cases instead of using the i flag, because that would
+    // include non-ASCII characters like the Kelvin sign for 'k'
     use std::cmp::Ordering::*;
     let possible_chars = match radix.cmp(&10) {
         Less | Equal => format!("0-{}", radix - 1),
         Greater => {
             let last_letter = (b'a' + radix - 11) as char;
-            format!("0-9a-{}", last_letter)
+            format!("0-9a-{}A-{}", last_letter, last_letter.to_ascii_uppercase())
         }
     };
 
@@ -291,7 +292,7 @@ fn regex_from_radix(
     };
 
     let regex = format!(
-        "(?i:{sign}{prefix}[{digits}]{{1,{n}}})",
+        "{sign}{prefix}[{digits}]{{1,{n}}}",
         sign = sign,
         prefix = prefix_string,
         digits = possible_chars,
-- 
2.43.0


From 3144eba41ed32ba9517bae7369a1873bcfc40ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 03/19] fix: FromScanf::from_str did not anchor alternations

With a REGEX like a|b the generated ^a|b$ accepted anything starting with a or
ending with b, unlike sscanf!(input, "{Type}").
---
 src/from_scanf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/from_scanf.rs b/src/from_scanf.rs
index 596840f..fbd906a 100644
--- a/src/from_scanf.rs
+++ b/src/from_scanf.rs
@@ -248,7 +248,7 @@ where
     where
         Self: crate::RegexRepresentation,
     {
-        let regex = format!("^{}$", Self::REGEX);
+        let regex = format!("^(?:{})$", Self::REGEX);
         #[allow(unused_qualifications)] // would complain about the `crate::` prefix, but we
         // specifically want the bundled regex rather than whatever a user has renamed to `regex`
         let regex = crate::regex::Regex::new(&regex).unwrap_or_else(|err| {
-- 
2.43.0


From 72bbf5cc223c4c8c8adda38d1493a8485d09f3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 04/19] fix: sscanf_unescaped did not anchor alternations

sscanf_unescaped!("axyz", "a|b") matched, because the ^ and $ were only
applied to the first and last branch.
---
 sscanf_macro/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index 0340920..f54002e 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -197,8 +197,10 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
 
 fn generate_regex(input: &ScanfInner, escape_input: bool) -> Result<(TokenStream, Vec<Matcher>)> {
     let mut format = FormatString::new(input.fmt.to_slice(), escape_input)?;
-    format.parts[0].insert(0, '^');
-    format.parts.last_mut().unwrap().push('$');
+    // the group keeps a `|` in an unescaped format from limiting the anchors to its branches
+    let (start, end) = if escape_input { ("^", "$") } else { ("^(?:", ")$") };
+    format.parts[0].insert_str(0, start);
+    format.parts.last_mut().unwrap().push_str(end);
 
     // inner function to use ?-operator. This should be a closure, but those can't have lifetimes
     fn find_ph_type<'a>(
-- 
2.43.0


From 772687114582b9648747ceab72250a777f6053fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 05/19] fix: escape sequences in plain string literals were not
 resolved

---
 sscanf_macro/src/format_option.rs | 19 ---------------
 sscanf_macro/src/format_string.rs |  2 +-
 sscanf_macro/src/str_lit.rs       | 40 +++++++++++++++++++++++++++++++
 3 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/sscanf_macro/src/format_option.rs b/sscanf_macro/src/format_option.rs
index ee8a8e3..ef09193 100644
--- a/sscanf_macro/src/format_option.rs
+++ b/sscanf_macro/src/format_option.rs
@@ -67,25 +67,6 @@ impl<'a> FormatOption<'a> {
                             break;
                         }
                     } else if c == '\\' {
-                        if !src.is_raw() {
-                            let (_, next) = input
-                                .next()
-                                .ok_or_else(|| src.slice(i..).error("unexpected end of regex"))?;
-                            // the above error is probably not possible, since a single \ at
-                            // the end of a non-raw string would escape the closing " and the
-                            // compiler would already complain about that.
-                            // the check is still here just in case
-
-                            if next != '\\' {
-                                // regular escaped char (\n, \t, etc)
-                                if escape.take().is_some() {
-                                    regex.push('\\');
-                                }
-                                regex.push('\\');
-                                regex.push(next);
-                                continue;
-                            }
-                        }
                         if escape.take().is_some() {
                             regex.push('\\');
                             regex.push('\\');
diff --git a/sscanf_macro/src/format_string.rs b/sscanf_macro/src/format_string.rs
index 4f673ca..7ddffbc 100644
--- a/sscanf_macro/src/format_string.rs
+++ b/sscanf_macro/src/format_string.rs
@@ -12,7 +12,7 @@ impl<'a> FormatString<'a> {
         let mut current_part = String::new();
 
         // keep the iterator as a variable to allow peeking and advancing in a sub-function
-        let mut iter = src.text().char_indices().peekable();
+        let mut iter = src.char_indices().peekable();
 
         while let Some((i, c)) = iter.next() {
             if c == '{' {
diff --git a/sscanf_macro/src/str_lit.rs b/sscanf_macro/src/str_lit.rs
index 46c1f81..475eb51 100644
--- a/sscanf_macro/src/str_lit.rs
+++ b/sscanf_macro/src/str_lit.rs
@@ -75,6 +75,46 @@ impl<'a> StrLitSlice<'a> {
         self.src.is_raw()
     }
 
+    /// The characters that the slice stands for, with the position of each in [`Self::text`].
+    /// In a non-raw literal, the text contains escape sequences which are resolved here.
+    pub fn char_indices(&self) -> impl Iterator<Item = (usize, char)> {
+        let mut chars = vec![];
+        let mut iter = self.text().char_indices().peekable();
+        while let Some((i, c)) = iter.next() {
+            if c != '\\' || self.is_raw() {
+                chars.push((i, c));
+                continue;
+            }
+            // the compiler has already checked that all escape sequences are valid
+            let c = match iter.next().unwrap().1 {
+                'n' => '\n',
+                'r' => '\r',
+                't' => '\t',
+                '0' => '\0',
+                kind @ 'x' | kind @ 'u' => {
+                    // \x41 or \u{41}
+                    let rest = &self.text()[i + 2..];
+                    let len = match kind {
+                        'x' => 2,
+                        _ => rest.find('}').unwrap() + 1,
+                    };
+                    let digits = iter.by_ref().take(len).map(|(_, c)| c);
+                    let code = digits.filter_map(|c| c.to_digit(16));
+                    let code = code.fold(0, |code, digit| code * 16 + digit);
+                    std::char::from_u32(code).unwrap()
+                }
+                '\r' | '\n' => {
+                    // line continuation
+                    while iter.next_if(|(_, c)| c.is_ascii_whitespace()).is_some() {}
+                    continue;
+                }
+                c => c, // \\, \' and \"
+            };
+            chars.push((i, c));
+        }
+        chars.into_iter()
+    }
+
     #[track_caller]
     pub fn slice<R>(&'_ self, range: R) -> StrLitSlice<'a>
     where
-- 
2.43.0


From 2243bfd3fefcf75c704da471d43d7761cfad9818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 06/19] fix: keep identifier hygiene of inputs and types that
 come from a macro_rules

Respanning the content of groups gave the user's input expression and the
generated `src` the hygiene of an unrelated token, so that sscanf!($i, ..) or a
type passed as $t failed with "cannot find value".
---
 sscanf_macro/src/utils.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sscanf_macro/src/utils.rs b/sscanf_macro/src/utils.rs
index d066afb..3178120 100644
--- a/sscanf_macro/src/utils.rs
+++ b/sscanf_macro/src/utils.rs
@@ -75,7 +75,7 @@ pub fn list_items<T>(items: &[T], mut display: impl FnMut(&T) -> String) -> Stri
     }
 }
 
-/// Extension trait for [`TokenStream`] that allows setting the span of all tokens in the stream.
+/// Extension trait for [`TokenStream`] that allows setting the span of all (outer) tokens in the stream.
 pub trait TokenStreamExt {
     fn set_span(&mut self, span: Span);
     fn with_span(self, span: Span) -> Self;
@@ -88,9 +88,8 @@ impl TokenStreamExt for TokenStream {
     fn with_span(self, span: Span) -> Self {
         self.into_iter()
             .map(|mut t| {
-                if let proc_macro2::TokenTree::Group(ref mut g) = t {
-                    *g = proc_macro2::Group::new(g.delimiter(), g.stream().with_span(span));
-                }
+                // The content of groups keeps its span: it determines what identifiers refer to, and would
+                // mix up the user's variables and ours if some of the tokens come from a `macro_rules!`
                 t.set_span(span);
                 t
             })
-- 
2.43.0


From 5e95154c7a85ea9304982d4ff17b8786f522a77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:55 +0000
Subject: [PATCH 07/19] fix: accept generic types in `from` and `try_from`

The documentation says that they take a type; `Foo<u8>` is no expression.
---
 sscanf_macro/src/attribute.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/attribute.rs b/sscanf_macro/src/attribute.rs
index 768655d..3e9bae8 100644
--- a/sscanf_macro/src/attribute.rs
+++ b/sscanf_macro/src/attribute.rs
@@ -178,6 +178,20 @@ fn find_match<A: Attr>(s: &str, src: &TokenStream) -> syn::Result<A> {
     Err(syn::Error::new_spanned(src, msg)) // checked in tests/fail/derive_struct_attributes.rs
 }
 
+/// Parses the value of an attribute that takes a type. Types like `Foo<u8>` are not valid expressions.
+fn parse_type_or_expr(input: ParseStream) -> syn::Result<syn::Expr> {
+    use syn::parse::discouraged::Speculative;
+
+    let fork = input.fork();
+    match fork.parse::<syn::Type>() {
+        Ok(ty) if fork.is_empty() || fork.peek(Token![,]) => {
+            input.advance_to(&fork);
+            Ok(syn::Expr::Verbatim(ty.into_token_stream()))
+        }
+        _ => input.parse(),
+    }
+}
+
 pub struct Attribute<A: Attr> {
     kind: A,
     value: Option<syn::Expr>,
@@ -236,7 +250,10 @@ impl<A: Attr> Attribute<A> {
                 let msg = "expected an expression after `=`";
                 return Err(syn::Error::new_spanned(eq_sign, msg)); // checked in tests/fail/derive_struct_attributes.rs
             }
-            let expr = input.parse::<syn::Expr>()?;
+            let expr = match attr.to_string().as_str() {
+                "from" | "try_from" => parse_type_or_expr(input)?,
+                _ => input.parse::<syn::Expr>()?,
+            };
             src.extend(quote! { #eq_sign #expr });
             value = Some(expr);
         }
-- 
2.43.0


From 98d444deebc1d367df09924fdd333c1f24af3a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 08/19] fix: reject a value for the `skip` attribute

Like for `transparent`; it was silently ignored.
---
 sscanf_macro/src/attribute/variant.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/attribute/variant.rs b/sscanf_macro/src/attribute/variant.rs
index 50aa6ff..6540385 100644
--- a/sscanf_macro/src/attribute/variant.rs
+++ b/sscanf_macro/src/attribute/variant.rs
@@ -10,7 +10,13 @@ pub enum VariantAttributeKind {
 impl FromAttribute<attr::Variant> for VariantAttributeKind {
     fn from_attribute(attr: Attribute<attr::Variant>, _: ()) -> Result<Self> {
         let struct_kind = match attr.kind {
-            attr::Variant::Skip => return Ok(Self::Skip),
+            attr::Variant::Skip => {
+                if let Some(value) = attr.value.as_ref() {
+                    let msg = format!("attribute `{}` does not take a value", attr.kind);
+                    return Error::err_spanned(value, msg);
+                }
+                return Ok(Self::Skip);
+            }
             attr::Variant::Format => attr::Struct::Format,
             attr::Variant::FormatUnescaped => attr::Struct::FormatUnescaped,
             attr::Variant::Transparent => attr::Struct::Transparent,
-- 
2.43.0


From a29caa884e8c55dfdf760cb77cfcb7168ddd3bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 09/19] fix: paths to Ok, str, usize and the std macros do not
 depend on what the user's module declares

The expansions named these by their bare names, so that a user item of the same name (such as an
enum variant import `use MyStatus::Ok`) broke them or changed their meaning.
---
 sscanf_macro/src/derive.rs      | 24 ++++++++++++------------
 sscanf_macro/src/lib.rs         |  6 +++---
 sscanf_macro/src/regex_parts.rs |  4 ++--
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index 5f8d17a..c93c5f4 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -113,7 +113,7 @@ impl ValueConversion {
                 quote::quote_spanned! {span=> {
                     let f: fn(#from) -> ::std::option::Option<#to> = #closure;
                     f(#value).ok_or(::sscanf::errors::FilterMapNoneError {
-                        field_name: stringify!(#field_name)
+                        field_name: ::std::stringify!(#field_name)
                     })?
                 }}
             }
@@ -361,7 +361,7 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
         #[automatically_derived]
         impl #impl_generics ::sscanf::FromScanf<#lifetime> for #name #ty_generics #where_clause {
             type Err = ::sscanf::errors::FromScanfFailedError;
-            const NUM_CAPTURES: usize = #num_captures;
+            const NUM_CAPTURES: ::std::primitive::usize = #num_captures;
             fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, Self::Err> {
                 let start_len = src.len();
                 src.next().unwrap(); // skip the whole match
@@ -370,17 +370,17 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
                     ::std::result::Result::Ok(#name #from_matches)
                 };
                 let res = catcher().map_err(|error| ::sscanf::errors::FromScanfFailedError {
-                    type_name: stringify!(#name),
+                    type_name: ::std::stringify!(#name),
                     error,
                 })?;
                 let n = start_len - src.len();
                 if n != Self::NUM_CAPTURES {
-                    panic!(
+                    ::std::panic!(
                         "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
-                        stringify!(#name), Self::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
+                        ::std::stringify!(#name), Self::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
                     );
                 }
-                Ok(res)
+                ::std::result::Result::Ok(res)
             }
         }
     };
@@ -503,7 +503,7 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
         impl #impl_generics ::sscanf::FromScanf<#lifetime> for #name #ty_generics #where_clause {
             type Err = ::sscanf::errors::FromScanfFailedError;
 
-            const NUM_CAPTURES: usize = #(#num_captures_list)+*;
+            const NUM_CAPTURES: ::std::primitive::usize = #(#num_captures_list)+*;
 
             fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, Self::Err> {
                 let start_len = src.len();
@@ -514,10 +514,10 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
                 let mut catcher = || -> ::std::result::Result<Self, ::std::boxed::Box<dyn ::std::error::Error>> {
                     #(#variant_constructors)*
 
-                    unreachable!("sscanf: enum regex matched but no variant was captured");
+                    ::std::unreachable!("sscanf: enum regex matched but no variant was captured");
                 };
                 let res = catcher().map_err(|error| ::sscanf::errors::FromScanfFailedError {
-                    type_name: stringify!(#name),
+                    type_name: ::std::stringify!(#name),
                     error,
                 })?;
 
@@ -527,12 +527,12 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
 
                 let n = start_len - src.len();
                 if n != Self::NUM_CAPTURES {
-                    panic!(
+                    ::std::panic!(
                         "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
-                        stringify!(#name), Self::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
+                        ::std::stringify!(#name), Self::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
                     );
                 }
-                Ok(res)
+                ::std::result::Result::Ok(res)
             }
         }
     };
diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index f54002e..b55fb9a 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -170,7 +170,7 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
     let ret = quote! {{
         #regex
         #[allow(clippy::needless_borrow)]
-        let input: &str = #src_str;
+        let input: &::std::primitive::str = #src_str;
         #[allow(clippy::needless_question_mark)]
         REGEX.captures(input)
             .ok_or_else(|| ::sscanf::errors::Error::MatchFailed)
@@ -185,7 +185,7 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
                 let res = matcher().map_err(|e| ::sscanf::errors::Error::ParsingFailed(e));
 
                 if res.is_ok() && src.len() != 0 {
-                    panic!("sscanf: {} captures generated, but {} were taken",
+                    ::std::panic!("sscanf: {} captures generated, but {} were taken",
                         REGEX.captures_len(), REGEX.captures_len() - src.len()
                     );
                 }
@@ -270,7 +270,7 @@ fn generate_regex(input: &ScanfInner, escape_input: bool) -> Result<(TokenStream
             const NUM_CAPTURES: ::std::primitive::usize = #num_captures;
 
             if regex.captures_len() != NUM_CAPTURES {
-                panic!(
+                ::std::panic!(
                     "sscanf: Regex has {} capture groups, but {} were expected.{}",
                     regex.captures_len(), NUM_CAPTURES, ::sscanf::errors::WRONG_CAPTURES_HINT
                 );
diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index 091fedc..0e4fab8 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -136,9 +136,9 @@ impl ToTokens for Matcher {
                     let n = start_len - src.len();
                     let expected = #num_captures;
                     if n != expected {
-                        panic!(
+                        ::std::panic!(
                             "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
-                            stringify!(#ty), expected, n, ::sscanf::errors::WRONG_CAPTURES_HINT
+                            ::std::stringify!(#ty), expected, n, ::sscanf::errors::WRONG_CAPTURES_HINT
                         );
                     }
                 }
-- 
2.43.0


From 794f51f16b39db66db45ce66e7071a720e560cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 10/19] fix: the user's expressions do not see the variables of
 the expansion, nor the expansion the user's

---
 sscanf_macro/src/derive.rs      |  6 +++---
 sscanf_macro/src/lib.rs         | 15 ++++++++++++---
 sscanf_macro/src/regex_parts.rs | 10 +++++-----
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index c93c5f4..1a60e1a 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -357,7 +357,7 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
     let (impl_generics, _, where_clause) = lt_generics.split_for_impl();
 
     let num_captures = regex_parts.num_captures();
-    let from_sscanf_impl = quote! {
+    let from_sscanf_impl = hygienic! {
         #[automatically_derived]
         impl #impl_generics ::sscanf::FromScanf<#lifetime> for #name #ty_generics #where_clause {
             type Err = ::sscanf::errors::FromScanfFailedError;
@@ -459,7 +459,7 @@ Use `#[sscanf(format = \"...\")]` to specify a format for a variant with fields
 
         str_lifetimes.extend(variant_str_lifetimes);
 
-        let matcher = quote! {
+        let matcher = hygienic! {
             let expected = #num_captures;
 
             remaining -= expected;
@@ -498,7 +498,7 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
     let (lifetime, lt_generics) = merge_lifetimes(str_lifetimes, generics);
     let (impl_generics, _, where_clause) = lt_generics.split_for_impl();
 
-    let from_sscanf_impl = quote! {
+    let from_sscanf_impl = hygienic! {
         #[automatically_derived]
         impl #impl_generics ::sscanf::FromScanf<#lifetime> for #name #ty_generics #where_clause {
             type Err = ::sscanf::errors::FromScanfFailedError;
diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index b55fb9a..8adc8c3 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -9,6 +9,11 @@ pub(crate) use syn::{
     Token,
 };
 
+/// `quote!` whose local variables are invisible to the user's expressions within it, and the other way around
+macro_rules! hygienic {
+    ($($tokens:tt)*) => { quote::quote_spanned! { Span::mixed_site()=> $($tokens)* } };
+}
+
 mod attribute;
 mod error;
 mod format_option;
@@ -167,10 +172,8 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
         // gets an appropriate error message if they try to use a non-string input
         quote! { ::std::primitive::str::get(#param, ..).unwrap() }
     };
-    let ret = quote! {{
+    let ret = hygienic! {{
         #regex
-        #[allow(clippy::needless_borrow)]
-        let input: &::std::primitive::str = #src_str;
         #[allow(clippy::needless_question_mark)]
         REGEX.captures(input)
             .ok_or_else(|| ::sscanf::errors::Error::MatchFailed)
@@ -192,6 +195,12 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
                 res
             })
     }};
+    // the input is evaluated outside of the block with the REGEX, so that it does not see it
+    let ret = hygienic! {{
+        #[allow(clippy::needless_borrow)]
+        let input: &::std::primitive::str = #src_str;
+        #ret
+    }};
     ret.into()
 }
 
diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index 0e4fab8..28f3961 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -82,13 +82,13 @@ pub enum Converter {
 impl ToTokens for Converter {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         match self {
-            Converter::Str => tokens.extend(quote! {
+            Converter::Str => tokens.extend(hygienic! {
                 src.next()
                    .expect(::sscanf::errors::EXPECT_NEXT_HINT)
                    .expect(::sscanf::errors::EXPECT_CAPTURE_HINT)
                    .as_str()
             }),
-            Converter::CowStr => tokens.extend(quote! {
+            Converter::CowStr => tokens.extend(hygienic! {
                 ::std::borrow::Cow::Borrowed(
                     src.next()
                         .expect(::sscanf::errors::EXPECT_NEXT_HINT)
@@ -99,7 +99,7 @@ impl ToTokens for Converter {
             Converter::FromType(ty, span) => {
                 let call = span.apply(
                     quote! { ::sscanf::FromScanf },
-                    quote! { ::from_matches(&mut *src) },
+                    hygienic! { ::from_matches(&mut *src) },
                 );
                 tokens.extend(quote! {
                     {
@@ -124,7 +124,7 @@ impl ToTokens for Matcher {
         let ty = &self.ty;
         let num_captures = &self.num_captures;
         let converter = &self.converter;
-        tokens.extend(quote! {
+        tokens.extend(hygienic! {
             {
                 #[cfg(debug_assertions)]
                 let start_len = src.len();
@@ -304,7 +304,7 @@ fn regex_from_radix(
     let ty = ty.inner();
     let span = ty.span();
 
-    let get_input = quote! { src.next()
+    let get_input = hygienic! { src.next()
         .expect(::sscanf::errors::EXPECT_NEXT_HINT)
         .expect(::sscanf::errors::EXPECT_CAPTURE_HINT)
         .as_str()
-- 
2.43.0


From d4f2630c366bc4a4c5b57a0fdf308237ff2f51aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:52 +0000
Subject: [PATCH 11/19] fix: several errors of one macro call are reported as
 such in expressions

---
 sscanf_macro/src/error.rs | 5 +++++
 sscanf_macro/src/lib.rs   | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/error.rs b/sscanf_macro/src/error.rs
index 1a78cc1..09741e3 100644
--- a/sscanf_macro/src/error.rs
+++ b/sscanf_macro/src/error.rs
@@ -18,6 +18,11 @@ impl Error {
     pub fn err_spanned<T: quote::ToTokens, U: Display, R>(tokens: T, message: U) -> Result<R> {
         Err(Self::new_spanned(tokens, message))
     }
+    /// The errors as a single expression. Without the block, an expression would end after the first of them.
+    pub fn into_expr(self) -> TokenStream {
+        let errors = self.0;
+        quote::quote! {{ #errors }}
+    }
     pub fn builder() -> ErrorBuilder {
         ErrorBuilder::new()
     }
diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index 8adc8c3..fde5ee2 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -128,7 +128,7 @@ pub fn sscanf_get_regex(input: TokenStream1) -> TokenStream1 {
     let input = syn::parse_macro_input!(input as ScanfInner);
     let (regex, _) = match generate_regex(&input, true) {
         Ok(v) => v,
-        Err(e) => return e.into(),
+        Err(e) => return e.into_expr().into(),
     };
     let ret = quote! {{
         #regex
@@ -161,7 +161,7 @@ pub fn derive_from_sscanf(input: TokenStream1) -> TokenStream1 {
 fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
     let (regex, matcher) = match generate_regex(&input.inner, escape_input) {
         Ok(v) => v,
-        Err(e) => return e.into(),
+        Err(e) => return e.into_expr().into(),
     };
     let src_str = {
         let src_str = input.src_str;
-- 
2.43.0


From ebd75bc3c4f1af271d94a157ea4dde39172109c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:17 +0000
Subject: [PATCH 12/19] fix: from_str reports a wrong number of capture groups
 like sscanf! does

---
 src/from_scanf.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/from_scanf.rs b/src/from_scanf.rs
index fbd906a..4c99209 100644
--- a/src/from_scanf.rs
+++ b/src/from_scanf.rs
@@ -260,6 +260,16 @@ where
             )
         });
 
+        if regex.captures_len() != Self::NUM_CAPTURES {
+            panic!(
+                "sscanf: Regex of type {} has {} capture groups, but {} were expected.{}",
+                std::any::type_name::<Self>(),
+                regex.captures_len(),
+                Self::NUM_CAPTURES,
+                crate::errors::WRONG_CAPTURES_HINT
+            );
+        }
+
         regex
             .captures(src)
             .ok_or_else(|| crate::errors::Error::MatchFailed)
-- 
2.43.0


From 569f896581ef46507c4385ccecfd6154257c93ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:29 +0000
Subject: [PATCH 13/19] fix: deriving for a deprecated type or enum variant
 causes no deprecation warning

---
 sscanf_macro/src/derive.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index 1a60e1a..c36e337 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -324,12 +324,23 @@ fn merge_lifetimes(
     (lifetime, lifetimed_generics)
 }
 
+/// The generated code has to name the type and its variants, even if they are deprecated
+fn allow_deprecated<'a>(
+    attrs: impl IntoIterator<Item = &'a syn::Attribute>,
+) -> Option<TokenStream> {
+    attrs
+        .into_iter()
+        .any(|attr| attr.path().is_ident("deprecated"))
+        .then(|| quote! { #[allow(deprecated)] })
+}
+
 pub fn parse_struct(
     name: &syn::Ident,
     generics: &syn::Generics,
     attrs: Vec<syn::Attribute>,
     data: syn::DataStruct,
 ) -> Result<TokenStream> {
+    let allow_deprecated = allow_deprecated(&attrs);
     let attr = StructAttribute::from_attrs(attrs)?
         .ok_or_else(|| {
             let mut msg = "FromScanf: structs must have a format string as an attribute.
@@ -348,6 +359,7 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
     let regex = regex_parts.regex();
     let regex_impl = quote! {
         #[automatically_derived]
+        #allow_deprecated
         impl #impl_generics ::sscanf::RegexRepresentation for #name #ty_generics #where_clause {
             const REGEX: &'static ::std::primitive::str = #regex;
         }
@@ -359,6 +371,7 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
     let num_captures = regex_parts.num_captures();
     let from_sscanf_impl = hygienic! {
         #[automatically_derived]
+        #allow_deprecated
         impl #impl_generics ::sscanf::FromScanf<#lifetime> for #name #ty_generics #where_clause {
             type Err = ::sscanf::errors::FromScanfFailedError;
             const NUM_CAPTURES: ::std::primitive::usize = #num_captures;
@@ -397,6 +410,8 @@ pub fn parse_enum(
     attrs: Vec<syn::Attribute>,
     data: syn::DataEnum,
 ) -> Result<TokenStream> {
+    let variant_attrs = data.variants.iter().flat_map(|variant| &variant.attrs);
+    let allow_deprecated = allow_deprecated(attrs.iter().chain(variant_attrs));
     let attr = EnumAttribute::from_attrs(attrs)?;
     let autogen = attr.as_ref().and_then(|attr| match attr.kind {
         EnumAttributeKind::AutoGen(kind) => Some((kind, attr.src.clone())),
@@ -490,6 +505,7 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
     let regex = regex_parts.regex();
     let regex_impl = quote! {
         #[automatically_derived]
+        #allow_deprecated
         impl #impl_generics ::sscanf::RegexRepresentation for #name #ty_generics #where_clause {
             const REGEX: &'static ::std::primitive::str = #regex;
         }
@@ -500,6 +516,7 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
 
     let from_sscanf_impl = hygienic! {
         #[automatically_derived]
+        #allow_deprecated
         impl #impl_generics ::sscanf::FromScanf<#lifetime> for #name #ty_generics #where_clause {
             type Err = ::sscanf::errors::FromScanfFailedError;
 
-- 
2.43.0


From 1e6e2f399efff90812a27cec0cb374fb7148a452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:31 +0000
Subject: [PATCH 14/19] fix: field types and closures that come through a
 macro_rules macro are recognised

$t:ty and $e:expr are passed inside of invisible delimiters, so that &'a str and Cow<'a, str> were
taken for types without lifetime, and the closure of map and filter_map was not found.
---
 sscanf_macro/src/attribute/field.rs |  6 +++++-
 sscanf_macro/src/ty.rs              | 20 +++++++++++++++-----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/sscanf_macro/src/attribute/field.rs b/sscanf_macro/src/attribute/field.rs
index db1ce7d..444358a 100644
--- a/sscanf_macro/src/attribute/field.rs
+++ b/sscanf_macro/src/attribute/field.rs
@@ -32,7 +32,11 @@ impl FromAttribute<attr::Field, &'_ syn::Type> for FieldAttributeKind {
                 }
                 closure_hint.push('`');
 
-                let mapper = attr.value_as::<syn::Expr>(closure_format, Some(&closure_hint))?; // checked in tests/fail/derive_field_attributes.rs
+                let mut mapper = attr.value_as::<syn::Expr>(closure_format, Some(&closure_hint))?; // checked in tests/fail/derive_field_attributes.rs
+                while let syn::Expr::Group(group) = mapper {
+                    // an expression that comes from a `macro_rules!` macro (`$e:expr`) is inside of invisible delimiters
+                    mapper = *group.expr;
+                }
                 let mapper = if let syn::Expr::Closure(closure) = mapper {
                     closure
                 } else {
diff --git a/sscanf_macro/src/ty.rs b/sscanf_macro/src/ty.rs
index 42b9180..cdc6972 100644
--- a/sscanf_macro/src/ty.rs
+++ b/sscanf_macro/src/ty.rs
@@ -126,8 +126,15 @@ pub mod ty_check {
         let ty = ty.to_token_stream().to_string();
         possible.iter().any(|p| p.to_string() == ty)
     }
+    /// A type that comes from a `macro_rules!` macro (`$t:ty`) is inside of invisible delimiters
+    fn ungroup(mut ty: &syn::Type) -> &syn::Type {
+        while let syn::Type::Group(group) = ty {
+            ty = &group.elem;
+        }
+        ty
+    }
     pub fn get_str(ty: &syn::Type) -> Option<Option<syn::Lifetime>> {
-        match ty {
+        match ungroup(ty) {
             syn::Type::Path(ref ty) => {
                 if is_str_path(ty) {
                     Some(None)
@@ -137,7 +144,7 @@ pub mod ty_check {
             }
             syn::Type::Reference(ref ty) => {
                 if ty.mutability.is_none()
-                    && matches!(*ty.elem, syn::Type::Path(ref inner) if is_str_path(inner))
+                    && matches!(ungroup(&ty.elem), syn::Type::Path(inner) if is_str_path(inner))
                 {
                     Some(ty.lifetime.clone())
                 } else {
@@ -173,8 +180,11 @@ pub mod ty_check {
             } else {
                 None
             };
-            if !matches!(ty, syn::GenericArgument::Type(syn::Type::Path(ref inner)) if is_str_path(inner))
-            {
+            let inner = match ty {
+                syn::GenericArgument::Type(ty) => ungroup(ty),
+                _ => return None,
+            };
+            if !matches!(inner, syn::Type::Path(inner) if is_str_path(inner)) {
                 return None;
             }
             if args.next().is_some() {
@@ -207,7 +217,7 @@ pub mod ty_check {
         }
     }
     pub fn get_cow_str(ty: &syn::Type) -> Option<Option<syn::Lifetime>> {
-        match ty {
+        match ungroup(ty) {
             syn::Type::Path(ref ty) => get_cow_str_path(ty),
             _ => None,
         }
-- 
2.43.0


From cc6414cdc9cb47c95d7f914cfdb36d31199fe6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:31 +0000
Subject: [PATCH 15/19] fix: raw identifiers stand for their name in format
 strings and autogen

An autogen variant r#type matched the text "r#type", and a field r#type could not be written as {type}.
---
 sscanf_macro/src/derive.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index c36e337..89deace 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -1,5 +1,7 @@
 use std::collections::{HashMap, HashSet};
 
+use syn::ext::IdentExt;
+
 use crate::*;
 
 pub struct Field {
@@ -148,6 +150,7 @@ fn parse_format(
         let mut ty = field.ty;
         let ident = if let Some(ident) = field.ident {
             field_map.insert(ident.to_string(), i);
+            field_map.insert(ident.unraw().to_string(), i); // `r#type` can be written as `type`
             FieldIdent::Named(ident)
         } else {
             FieldIdent::from_index(i, ty.span())
@@ -447,7 +450,7 @@ pub fn parse_enum(
 Use `#[sscanf(format = \"...\")]` to specify a format for a variant with fields or `#[sscanf(skip)]` to skip a variant";
                 return Error::err_spanned(variant.fields, msg); // checked in tests/fail/derive_enum_attributes.rs
             }
-            autogen.create_struct_attr(&variant.ident.to_string(), src.clone())
+            autogen.create_struct_attr(&variant.ident.unraw().to_string(), src.clone())
         } else {
             continue;
         };
-- 
2.43.0


From ab179b0bdaf051c847c71f854bd1274c3c9a87b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:40 +0000
Subject: [PATCH 16/19] fix: a comment at the end of a regex with the x flag
 does not swallow what follows the regex

{:/(?x) [0-9]+ # digits/} compiled, but its closing parenthesis became part of the comment, so that
every call panicked because of an invalid regex.
---
 sscanf_macro/src/format_option.rs | 10 ++++++++++
 sscanf_macro/src/format_string.rs |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/sscanf_macro/src/format_option.rs b/sscanf_macro/src/format_option.rs
index ef09193..7d3c18d 100644
--- a/sscanf_macro/src/format_option.rs
+++ b/sscanf_macro/src/format_option.rs
@@ -113,6 +113,10 @@ Either make them non-capturing by adding '?:' after the '(' or remove/escape the
                     }
                 }
 
+                if ends_in_comment(&regex) {
+                    regex.push('\n');
+                }
+
                 let kind = FormatOptionKind::Regex(regex);
                 Ok((Self { src, kind }, close_bracket_index))
             }
@@ -177,6 +181,12 @@ Hint: Regex format options must start and end with '/'";
     }
 }
 
+/// Checks if a regex with the `x` flag ends in a comment, which would include anything behind the regex
+pub fn ends_in_comment(regex: &str) -> bool {
+    let is_valid = |regex: &str| regex_syntax::Parser::new().parse(regex).is_ok();
+    is_valid(regex) && !is_valid(&format!("(?:{})", regex))
+}
+
 fn contains_capture_group(hir: &regex_syntax::hir::Hir) -> bool {
     use regex_syntax::hir::HirKind::*;
     match hir.kind() {
diff --git a/sscanf_macro/src/format_string.rs b/sscanf_macro/src/format_string.rs
index 7ddffbc..c875ca9 100644
--- a/sscanf_macro/src/format_string.rs
+++ b/sscanf_macro/src/format_string.rs
@@ -42,6 +42,9 @@ impl<'a> FormatString<'a> {
         }
 
         parts.push(current_part);
+        if !escape_input && ends_in_comment(&parts.join(".")) {
+            parts.last_mut().unwrap().push('\n');
+        }
         Ok(Self {
             placeholders,
             parts,
-- 
2.43.0


From 089a3aff34240102d6f5da5c2ea99d0ccc07bd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:27 +0000
Subject: [PATCH 17/19] fix: a constant NUM_CAPTURES of the deriving type does
 not replace the one of FromScanf

Self::NUM_CAPTURES preferred an inherent constant of that name, so that every successful parse panicked.
---
 sscanf_macro/src/derive.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index 89deace..c0f41db 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -379,6 +379,8 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
             type Err = ::sscanf::errors::FromScanfFailedError;
             const NUM_CAPTURES: ::std::primitive::usize = #num_captures;
             fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, Self::Err> {
+                // not `Self::NUM_CAPTURES`, because the type might have a constant of that name
+                let num_captures = <Self as ::sscanf::FromScanf<#lifetime>>::NUM_CAPTURES;
                 let start_len = src.len();
                 src.next().unwrap(); // skip the whole match
 
@@ -390,10 +392,10 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
                     error,
                 })?;
                 let n = start_len - src.len();
-                if n != Self::NUM_CAPTURES {
+                if n != num_captures {
                     ::std::panic!(
                         "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
-                        ::std::stringify!(#name), Self::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
+                        ::std::stringify!(#name), num_captures, n, ::sscanf::errors::WRONG_CAPTURES_HINT
                     );
                 }
                 ::std::result::Result::Ok(res)
@@ -526,8 +528,10 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
             const NUM_CAPTURES: ::std::primitive::usize = #(#num_captures_list)+*;
 
             fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, Self::Err> {
+                // not `Self::NUM_CAPTURES`, because the type might have a constant of that name
+                let num_captures = <Self as ::sscanf::FromScanf<#lifetime>>::NUM_CAPTURES;
                 let start_len = src.len();
-                let mut remaining = Self::NUM_CAPTURES;
+                let mut remaining = num_captures;
                 src.next().unwrap(); // skip the whole match
                 remaining -= 1;
 
@@ -546,10 +550,10 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
                 }
 
                 let n = start_len - src.len();
-                if n != Self::NUM_CAPTURES {
+                if n != num_captures {
                     ::std::panic!(
                         "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
-                        ::std::stringify!(#name), Self::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
+                        ::std::stringify!(#name), num_captures, n, ::sscanf::errors::WRONG_CAPTURES_HINT
                     );
                 }
                 ::std::result::Result::Ok(res)
-- 
2.43.0


From 35ef13de5622ce56f74dcec18fe1c5ed5d62f10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:10 +0000
Subject: [PATCH 18/19] fix: a string literal with a suffix is an error instead
 of a format that ends with the suffix

---
 sscanf_macro/src/str_lit.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/str_lit.rs b/sscanf_macro/src/str_lit.rs
index 475eb51..f41cbfe 100644
--- a/sscanf_macro/src/str_lit.rs
+++ b/sscanf_macro/src/str_lit.rs
@@ -197,7 +197,13 @@ impl<'a> StrLitSlice<'a> {
 
 impl Parse for StrLit {
     fn parse(input: ParseStream) -> syn::Result<Self> {
-        input.parse().map(Self::new)
+        let lit: syn::LitStr = input.parse()?;
+        if !lit.suffix().is_empty() {
+            // would otherwise be read as a part of the content
+            let msg = format!("suffix `{}` on a string literal is invalid", lit.suffix());
+            return Err(syn::Error::new(lit.span(), msg));
+        }
+        Ok(Self::new(lit))
     }
 }
 
-- 
2.43.0


From c227dbd3a81c5ecbf76bb7459c4e005b0bcc3ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:17 +0000
Subject: [PATCH 19/19] fix: a line continuation keeps the white space that it
 keeps in every other string

---
 sscanf_macro/src/str_lit.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/str_lit.rs b/sscanf_macro/src/str_lit.rs
index f41cbfe..84bce5f 100644
--- a/sscanf_macro/src/str_lit.rs
+++ b/sscanf_macro/src/str_lit.rs
@@ -104,8 +104,9 @@ impl<'a> StrLitSlice<'a> {
                     std::char::from_u32(code).unwrap()
                 }
                 '\r' | '\n' => {
-                    // line continuation
-                    while iter.next_if(|(_, c)| c.is_ascii_whitespace()).is_some() {}
+                    // line continuation, which skips these four characters but no other whitespace
+                    let skipped = [' ', '\t', '\n', '\r'];
+                    while iter.next_if(|(_, c)| skipped.contains(c)).is_some() {}
                     continue;
                 }
                 c => c, // \\, \' and \"
-- 
2.43.0

