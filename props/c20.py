"""C20: a call or derive means the same wherever it stands: whatever is declared around it, in every edition and build mode."""
import re
from lib.core import raw
from lib.gen import Sites
from lib import dtypes
from lib.dtypes import st, fld, ph, cls, rep

D = "#[derive(::std::fmt::Debug, ::sscanf::FromScanf)] "
SOME, NONE, STR = "::std::option::Option::Some", "::std::option::Option::None", "::std::primitive::str"
# types with every kind of field source and conversion; nothing is named by a name of the prelude
A = D + ('#[sscanf("{c}:{b}/{a}~{d}.{f}{e:/[xy]+/}")] pub struct A<\'x> { pub a: u8, #[sscanf(map = |v: u8| v as u32 + 1)] pub b: u32, '
         '#[sscanf(filter_map = |v: i16| if v % 2 == 0 { SOME(v / 2) } else { NONE })] pub c: i16, #[sscanf(try_from = i16)] pub d: u8, pub e: &\'x str, #[sscanf(from = u8)] pub f: u64, '
         '#[sscanf(default)] pub g: u8, #[sscanf(default = 4)] pub h: u8 } ').replace("SOME", SOME).replace("NONE", NONE)
E = D + 'pub enum E<\'x> { #[sscanf("a{}{:r3}")] A(u8, i16), #[sscanf("b{x}{y}")] B { y: u8, x: ::std::borrow::Cow<\'x, str> }, #[sscanf(format_unescaped = "c+")] C, N(u8), #[sscanf(transparent)] T(F) } '
F = D + '#[sscanf(autogen = "snake_case")] pub enum F { FooBar, #[sscanf("{}")] Num(i8), #[sscanf(skip)] No, X } '
NF = {"name": "F", "enum": [st(["foo_bar"], "FooBar", "unit"), st([ph("i8")], "Num", "tuple", fld(0, 0)), st(["x"], "X", "unit")]}
XY = {"re": rep(cls("xy")), "conv": "str"}
NA = st([ph("i16"), ":", ph("u8"), "/", ph("u8"), "~", ph("i16"), ".", ph("u8"), ph(XY)], "A", "named",
        fld("a", 2), fld("b", 1, "inc"), fld("c", 0, "even"), fld("d", 3, "u8"), fld("e", 5), fld("f", 4), fld("g", const="0"), fld("h", const="4"))
NE = {"name": "E", "enum": [st(["a", ph("u8"), ph("i16:r3")], "A", "tuple", fld(0, 0), fld(1, 1)), st(["b", ph("str"), ph("u8")], "B", "named", fld("y", 1), fld("x", 0)),
                            st([{"pat": rep({"l": "c"})}], "C", "unit"), st([ph(NF)], "T", "tuple", fld(0, 0))]}
A_IN = ["2:1/3~4.5xy", "-4:0/255~0.7x", "3:1/3~4.5xy", "2:1/3~-4.5x", "2:300/3~4.5y"]
E_IN = ["a1-2", "a7+12", "bab1", "b\u00e9300", "ccc", "foo_bar", "-128", "x", "a9", ""]
# the same with no primitive named either
A2 = D + '#[sscanf("{1}{0}")] pub struct A2(pub ::std::primitive::u8, #[sscanf(map = |v: ::std::primitive::u8| v + 1)] pub ::std::primitive::u8, #[sscanf(default = 4)] pub ::std::primitive::u8); '
E2 = D + 'pub enum E2 { #[sscanf("a{}")] A(::std::string::String), #[sscanf("b{x}")] B { #[sscanf(try_from = ::std::primitive::i16)] x: ::std::primitive::u8 } } '
NA2 = st([ph("u8"), ph("u8")], "A2", "tuple", fld(0, 1), fld(1, 0, "inc"), fld(2, const="4"))
NE2 = {"name": "E2", "enum": [st(["a", ph("str")], "A", "tuple", fld(0, 0)), st(["b", ph("i16")], "B", "named", fld("x", 0, "u8"))]}

G = "pub fn g<'i>(i: &'i ::std::primitive::str) -> ::std::result::Result<%s, ::sscanf::Error> { %s } "
# name: (declarations, result type, call, items, inputs, words the user's text refers to)
U1 = {"u8", "i8", "i16", "u16", "u32", "u64", "str"}
BASE = {
    "derived": (A + E + F, "(A<'i>, E<'i>)", '::sscanf::sscanf!(i, "{A}|{}", E)', [ph(NA), "|", ph(NE)], [{"product": [A_IN, ["|"], E_IN]}, {"product": [[A_IN[0]], ["|"], E_IN[:4]], "edits": "2:|a"}], U1 | {"A", "E", "F"}),
    "plain": ("", "(u8, i8, i16, u16, ::std::borrow::Cow<'i, str>, &'i str, ::std::string::String)",
              '::sscanf::sscanf!(i, "{u8:x} {i8:#b} {i16:r7} {:#o} {} {:/[a-c]+/}{{{}", u16, ::std::borrow::Cow<str>, str, ::std::string::String)',
              [ph("u8:x"), " ", ph("i8:#b"), " ", ph("i16:r7"), " ", ph("u16:#o"), " ", ph("str"), " ", ph({"re": rep(cls("ac")), "conv": "str"}), "{", ph("str")],
              [{"product": [["ff", "0Xa", "100"], [" "], ["0b1", "-0B10000000", "0b10000000", "1"], [" "], ["-6", "66"], [" "], ["0o17"], [" "], ["a b"], [" "], ["abc"], ["{"], ["x"]]}], U1),
    "unescaped": ("", "(u8, char, f32, bool)", '::sscanf::sscanf_unescaped!(i, "(?:a|b)+{}.{char}{2}.{bool}", u8, char, f32)'.replace("{char}", "{}"),
                  [{"pat": rep(cls("ab"))}, ph("u8"), {"pat": "."}, ph("char"), ph("f32"), {"pat": "."}, ph("bool")],
                  [{"product": [["a", "bab", ""], ["1", "300"], ["-", "\n"], ["x", "5"], ["1.5", "inf", "-2e3"], [";"], ["true", "false", "no"]]}], {"u8", "char", "f32", "bool"}),
    "paths": (A2 + E2, "(A2, E2, ::std::primitive::u8, ::std::num::NonZeroI8, ::std::path::PathBuf)",
              '::sscanf::sscanf!(i, "{A2},{E2},{::std::primitive::u8},{},{}", ::std::num::NonZeroI8, ::std::path::PathBuf)',
              [ph(NA2), ",", ph(NE2), ",", ph("u8"), ",", ph("NonZeroI8"), ",", ph("PathBuf")],
              [{"product": [["12", "255"], [","], ["aX", "b7", "b-7"], [","], ["3", "256"], [","], ["-4", "0"], [","], ["/x"]]}], {"A2", "E2"}),
    "regex": ("", None, '::sscanf::sscanf_get_regex!("{u8}-{}", ::std::string::String)', [ph({"text": "u8"}), "-", ph({"text": "str"})], [{"product": [["1", "x", ""], ["-"], ["a", ""]], "edits": "1-"}], {"u8"}),
}
PRELUDE_NAMES = ("Ok Err Some None Option Result Box String Vec ToString ToOwned From Into TryFrom TryInto FromIterator Default Iterator DoubleEndedIterator ExactSizeIterator IntoIterator Extend Clone Copy Debug Display Drop "
                 "Fn FnMut FnOnce AsyncFn AsyncFnMut AsyncFnOnce Send Sync Sized Unpin AsRef AsMut PartialEq Eq PartialOrd Ord Hash drop size_of align_of").split()
PRIMITIVES = "bool char str u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64".split()
CRATES = "std core alloc sscanf sscanf_macro regex lazy_static const_format proc_macro test".split()
LIBRARY = ("Cow Borrowed Owned Error Regex Captures SubCaptureMatches Match FromScanf RegexRepresentation FromStr FromStrFailedError FromScanfFailedError FilterMapNoneError MissingPrefixError MatchFailed ParsingFailed errors "
           "primitive result option borrow convert fmt num path string Deref Infallible Self_ PhantomData concatcp Lazy OnceLock LazyLock Once Mutex").split()
MACROS = ("panic stringify unreachable format concat matches assert assert_eq assert_ne debug_assert debug_assert_eq debug_assert_ne vec write writeln print println eprintln dbg todo unimplemented cfg env option_env line column file module_path include include_str "
          "include_bytes compile_error format_args const_format_args thread_local try_ lazy_static concatcp formatcp sscanf scanf sscanf_unescaped sscanf_get_regex __lazy_static_internal __lazy_static_create hygienic quote addr_of ready matches pin").split()
LOCALS = ("src input value cap caps captures regex matcher matchers res result ret start_len n expected remaining catcher err e error f iter it regex_str REGEX NUM_CAPTURES no_sign negative no_sign_prefix s m x i text len start end first "
          "next field variant output ok parsed re converter default from_matches from_str type_name field_name tmp v val args self_ this").split()
KINDS = {
    "struct": "pub struct %s;", "type": "pub struct %s { pub a: () }", "alias": "pub type %s = ();", "enum": "pub enum %s { A }", "trait": "pub trait %s { fn a(&self) {} }", "union": "pub union %s { pub a: () }",
    "mod": "pub mod %s { pub struct A; }", "fn": "pub fn %s() {}", "const": "pub const %s: () = ();", "static": "pub static %s: () = ();", "variant": "pub enum Sh { %s } pub use self::Sh::*;", "tuple": "pub struct %s(pub u128);",
    "use": "pub mod sh { pub struct %s; } use self::sh::*;", "import": "pub mod sh { pub fn %s() {} } use self::sh::%s;",
}
TYPE_KINDS = {"struct", "type", "alias", "enum", "trait", "union", "mod", "tuple", "use", "variant"}
VALUE_KINDS = {"struct", "const", "static", "variant", "tuple", "use"}
MACRO = 'macro_rules! %s { ($($t:tt)*) => { compile_error!("not the macro of this name") } }'

ON = "fn on<T>(f: impl std::future::Future<Output = T>) -> T { let mut f = std::pin::pin!(f); match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) { std::task::Poll::Ready(v) => v, _ => panic!() } } "
# (observed expression, declarations): @C(@i) is the call on i, @R the type of its result, @G the same with a lifetime 'g, @T the type of its value
CONTEXTS = [(e, "") for e in [
    "res(@C(@i))", "{ let r: @R = @C(@i); res(r) }", "res((|i: &'i str| @C(@i))(i))", "res((move |i: &'i str| -> @R { @C(@i) })(i))", "match @C(@i) { r => res(r) }", "match @C(@i) { Ok(v) => res(Ok(v)), Err(e) => res::<@T>(Err(e)) }",
    "if let Ok(v) = @C(@i) { res(Ok(v)) } else { res(@C(@i)) }", "{ let Ok(v) = @C(@i) else { return res(@C(@i)) }; res(Ok(v)) }", "{ let r = loop { break @C(@i); }; res(r) }", "'a: { break 'a res(@C(@i)) }", "{ for _ in 0..2 { let _ = @C(@i); } res(@C(@i)) }",
    "{ let mut n = 0; let mut r; while { r = Some(@C(@i)); n += 1; n < 3 } {} res(r.unwrap()) }", "{ let r; r = @C(@i); res(r) }", "{ let (a, b) = (@C(@i), @C(@i)); assert_eq!(format!(\"{:?}\", a), format!(\"{:?}\", b)); res(a) }", "{ let [a, _b] = [@C(@i), @C(@i)]; res(a) }",
    "{ let mut v: Vec<@R> = [i, i].iter().map(|i| @C(@i)).collect(); res(v.pop().unwrap()) }", "res(Some(i).map(|i| @C(@i)).unwrap())", "{ #[allow(unused)] let r = @C(@i); res(r) }", "unsafe { res(@C(@i)) }", "res(vec![@C(@i)].pop().unwrap())", "return res(@C(@i))",
    "{ let _ = format!(\"{:?}\", @C(@i)); assert!(matches!(@C(@i), _)); res(@C(@i)) }", "std::thread::scope(|s| s.spawn(|| res(@C(@i))).join().unwrap())", "{ let f: &dyn Fn(&'i str) -> @R = &|i| @C(@i); f(i); res(f(i)) }", "{ let f: Box<dyn Fn() -> @R + 'i> = Box::new(move || @C(@i)); f(); res(f()) }",
    "{ @C(@i).ok(); let _ = @C(@i); res(@C(@i)) }", "{ let _x = @C(@i).is_ok() && @C(@i).is_err(); res(@C(@i)) }", "res({ @C(@i) })", "res((@C(@i)))", "res(match () { () if @C(@i).is_ok() => @C(@i), () => @C(@i) })", "{ let i = &i; res(@C(@i)) }", "{ let mut i = i; let r = @C(@i); i = \"\"; let _ = i; res(r) }",
    "{ static N: std::sync::OnceLock<u8> = std::sync::OnceLock::new(); N.get_or_init(|| { let _ = @C(@i); 1 }); res(@C(@i)) }", "{ struct X<'a>(&'a str, std::cell::RefCell<Option<O>>); impl Drop for X<'_> { fn drop(&mut self) { let i = self.0; *self.1.borrow_mut() = Some(res(@C(@i))); } } drop(X(i, Default::default())); res(@C(@i)) }",
]] + [
    ("res(on(async { @C(@i) }))", ON), ("res(on(async move { let i = i; on(async {}); let r = @C(@i); async {}.await; r }))", ON), ("res(on(g(i)))", ON + "async fn g<'g>(i: &'g str) -> @G { async {}.await; @C(@i) }"), ("res(on(g(i)))", ON + "async fn g<'g>(i: &'g str) -> @G { let v = @C(@i)?; async {}.await; Ok(v) }"),
    ("res(g(i, [0u8; 3]))", "fn g<'g, X: Copy, const N: usize>(i: &'g str, _: [X; N]) -> @G { @C(@i) }"), ("res(X.g(i))", "struct X; impl X { fn g<'g>(&self, i: &'g str) -> @G { @C(@i) } }"), ("res(X(i).g())", "struct X<'g>(&'g str); impl<'g> X<'g> { fn g(&self) -> @G { let i = self.0; @C(@i) } }"),
    ("res(i.g())", "trait X { fn s(&self) -> &str; fn g<'g>(&'g self) -> @G { let i = self.s(); @C(@i) } } impl X for str { fn s(&self) -> &str { self } }"), ("res(i.g())", "trait X { fn g<'g>(&'g self) -> @G; } impl X for str { fn g<'g>(&'g self) -> @G { @C(@self) } }"),
    ("res(X::<u8>::g(i))", "struct X<T>(T); impl<T: Default> X<T> { const K: u8 = 1; fn g<'g>(i: &'g str) -> @G { let _ = Self::K; @C(@i) } }"), ("res(X(i).next().unwrap())", "struct X<'g>(&'g str); impl<'g> Iterator for X<'g> { type Item = @G; fn next(&mut self) -> Option<@G> { let i = self.0; Some(@C(@i)) } }"),
    ("res(g(i))", "fn g<'g>(i: &'g str) -> @G { Ok(@C(@i)?) }"), ("res(g(i).map_err(|e| *e.downcast::<sscanf::Error>().unwrap()))", "fn g<'g>(i: &'g str) -> Result<@H, Box<dyn std::error::Error>> { Ok(@C(@i)?) }"), ("res(g(i, 3))", "fn g<'g>(i: &'g str, n: u8) -> @G { if n > 0 { g(i, n - 1) } else { @C(@i) } }"),
    ("res(g(i))", "#[inline(always)] #[must_use] pub(crate) fn g<'g>(i: &'g str) -> @G { return @C(@i); }"), ("res(g(&i))", "fn g<'g>(i: &&'g str) -> @G { @C(@i) }"), ("res(g(i))", "fn g<'g>(i: &'g (impl AsRef<str> + ?Sized)) -> @G { let i = i.as_ref(); @C(@i) }"),
    ("res(g(i))", "fn g<'g, X: std::ops::Deref<Target = str> + 'g>(i: X) -> @G where X: Copy + Into<&'g str> { let i: &'g str = i.into(); @C(@i) }"), ("res(unsafe { g(i) })", "unsafe fn g<'g>(i: &'g str) -> @G { @C(@i) }"), ("res(g(i))", "extern \"C\" fn g<'g>(i: &'g str) -> @G { @C(@i) }"),
    ("res(m::g(i))", "mod m { use crate::pre::*; pub fn g<'g>(i: &'g str) -> @G { @C(@i) } }"), ("res(F(i))", "static F: fn(&str) -> Result<(), sscanf::Error> = |i| @C(@i).map(|_| ());") if False else ("res(g(i))", "fn g<'g>(i: &'g str) -> @G { fn h<'g>(i: &'g str) -> @G { @C(@i) } h(i) }"),
]
OWNED = [("res(std::thread::spawn({ let i = i.to_string(); move || @C(@i).map_err(|e| e.to_string()) }).join().unwrap().map_err(|_| @C(@i).unwrap_err()))", ""), ("{ let i = i.to_string(); let r = @C(@i); drop(i); res(r) }", ""),
         ("res(g(i))", "fn g(i: &str) -> @R { let i = String::from(i); @C(@i) }"), ("{ thread_local!(static T: std::cell::RefCell<String> = Default::default()); T.with(|t| { *t.borrow_mut() = i.into(); let i = t.borrow(); res(@C(@i)) }) }", "")]
ALL_MODES = [(e, d) for e in ("2018", "2021", "2024") for d in (True, False)]


def main(ck):
    S = Sites()

    def add(shadow, base, **kw):
        decls, ret, callx, items, specs, _ = BASE[base]
        if ret:
            S.add("res(q::g(i))", items, specs, decl="mod q { " + shadow + decls + G % (ret, callx) + "}", src=f"[{shadow}] {callx}", **kw)
        else:
            S.add("groups(q::g(), i, &[1, 2], 3)", items, specs, decl="mod q { " + shadow + f"pub fn g() -> &'static ::sscanf::regex::Regex {{ {callx} }} }}", src=f"[{shadow}] {callx}", **kw)

    def chunks(xs):
        xs = list(dict.fromkeys(xs))
        n = 1 if ck.thorough else 12
        return [xs[k:k + n] for k in range(0, len(xs), n)]

    # names declared around the call
    for base, b in BASE.items():
        add("", base)
        for kind, decl in KINDS.items():
            # lower-case values would also stand for the variables of any macro, and types named as primitives for those in the macros of const_format
            names = [n for n in PRELUDE_NAMES + CRATES + LIBRARY if not (kind in TYPE_KINDS and n in b[5]) and (kind not in VALUE_KINDS or n[0].isupper())]
            names += [n for n in PRIMITIVES if kind in ("fn", "import") or (kind == "mod" and n not in b[5])]
            for c in chunks(names):
                # declared one by one, or imported from one place
                if kind in ("variant", "use", "import"):
                    inner, head, tail = {"variant": ("%s,", "pub enum Sh", "pub use self::Sh::*;"), "use": ("pub struct %s;", "pub mod sh", "use self::sh::*;"),
                                         "import": ("pub fn %s() {}", "pub mod sh", "use self::sh::{" + ", ".join(c) + "};")}[kind]
                    add(head + " { " + " ".join(inner.replace("%s", n) for n in c) + " } " + tail + " ", base)
                else:
                    add(" ".join(decl.replace("%s", n) for n in c) + " ", base)
        for c in chunks(MACROS):
            m = " ".join(MACRO.replace("%s", n) for n in c)
            add(m + " ", base)
            c = [n for n in c if n not in ("cfg", "thread_local")]  # are attributes as well
            m = " ".join(MACRO.replace("%s", n) for n in c)
            if c:
                add("mod mm { " + m + " pub(crate) use {" + ", ".join(c) + "}; } use self::mm::{" + ", ".join(c) + "}; ", base)
        for c in chunks(LOCALS):
            add(" ".join(f"pub fn {n}() {{}}" for n in c) + " ", base)
    in_t = lambda d: "mod t { use self::u::*; " + (d if "mod u " in d else "mod u {} " + d) + " }"
    # the user's expressions see the user's names, whatever they are; fields and functions may have any name
    U8STR = {"product": [["1", "255", "256", "0b1", "-1", "0xf", ""], ["-"], ["a", ""]]}
    TWO = [{"product": [["1", "2", "255", "300"], [":"], ["1", "2", "100"]]}]
    for n in dict.fromkeys(LOCALS):
        for u in ("u8", "u8:x", "i8:#b"):
            f, node = f'"{{{u}}}-{{str}}"', [ph(u), "-", ph("str")]
            for pre, e in [(f"let {n} = i;", n), (f"let {n} = (1, [i]);", f"{n}.1[0]"), (f"fn {n}(i: &str) -> &str {{ i }}", f"{n}(i)"), (f"struct {n}; impl {n} {{ fn {n}(&self) -> String {{ self.{n}.into() }} }}", None),
                           (f"let i = String::from(i); let {n} = &i;", f"&{n}[..]"), (f"let {n} = |x| x;", f"{n}(i)"), (f"macro_rules! {n} {{ ($i:expr) => {{ $i }} }}", f"{n}!(i)")]:
                if e and n not in e.split("(")[-1]:
                    S.add(f"{{ {pre} let r = sscanf::sscanf!({e}, {f}); crate::pre::res(r) }}", node, [U8STR])
            S.add(f"go(i, |{n}| crate::pre::res(sscanf::sscanf!({n}, {f})))", node, [U8STR], decl="fn go<'i>(i: &'i str, f: impl Fn(&'i str) -> O) -> O { f(i) }")
        for sig, attr, ty, fy in [("() -> u8 { 7 }", f"default = {n}()", "u8", fld("y", const="7")), ("(x: u8) -> u32 { x as u32 + 1 }", f"map = |zz: u8| {n}(zz)", "u32", fld("y", 1, "inc")),
                                  ("(x: i16) -> Option<i16> { if x % 2 == 0 { Some(x / 2) } else { None } }", f"filter_map = |zz: i16| {n}(zz)", "i16", fld("y", 1, "even")),
                                  (None, f"map = |{n}: u8| {n} as u32 + 1", "u32", fld("y", 1, "inc")), (None, f"filter_map = |{n}: i16| if {n} % 2 == 0 {{ Some({n} / 2) }} else {{ None }}", "i16", fld("y", 1, "even"))]:
            decl = f"mod u {{ pub fn {n}{sig} }} " if sig else ""
            const = "const" in fy
            fmt, y = ("{x}:{z}", "u8") if const else ("{x}:{y}", "i16" if ty == "i16" else "u8")
            fx = [fld("x", 0), fy] + ([fld("z", 1)] if const else [])
            body = f"{{ x: u8, #[sscanf({attr})] y: {ty}" + (", z: u8 }" if const else " }")
            node = st([ph("u8"), ":", ph(y)], "T", "named", *fx)
            S.add('res(sscanf::sscanf!(i, "{t::T}"))', [ph(node)], TWO, decl=in_t(decl + f'#[derive(Debug, sscanf::FromScanf)] #[sscanf("{fmt}")] pub struct T {body}'))
            V = dict(node, name="V")
            S.add('res(sscanf::sscanf!(i, "{t::T}"))', [ph({"name": "T", "enum": [st(["z"], "Z", "unit"), V]})], TWO + [{"list": ["z"]}],
                  decl=in_t(decl + f'#[derive(Debug, sscanf::FromScanf)] pub enum T {{ #[sscanf("z")] Z, #[sscanf("{fmt}")] V {body} }}'))
        node = st([ph("u8"), ":", ph("i16")], "T", "named", fld(n, 1), fld("y_", 0))
        S.add('res(sscanf::sscanf!(i, "{t::T}"))', [ph(node)], TWO, decl=in_t(f'#[derive(Debug, sscanf::FromScanf)] #[sscanf("{{}}:{{{n}}}")] pub struct T {{ {n}: i16, y_: u8 }}'))
        S.add('res(sscanf::sscanf!(i, "{t::T}"))', [ph({"name": "T", "enum": [dict(node, name="V")]})], TWO, decl=in_t(f'#[derive(Debug, sscanf::FromScanf)] pub enum T {{ #[sscanf("{{}}:{{{n}}}")] V {{ {n}: i16, y_: u8 }} }}'))
    # the types' own constants and functions, and those of user traits that everything implements, of the names of what the library's traits have
    MEMBERS = [f"pub const {n}: usize = 77;" for n in ("NUM_CAPTURES", "REGEX", "BITS", "MAX", "A", "B")] + [f"pub const {n}: &'static str = \"zz\";" for n in ("NUM_CAPTURES", "REGEX")] + \
        [f"pub fn {n}() {{}}" for n in ("from_matches", "from_str", "default", "from", "try_from", "from_str_radix", "REGEX", "NUM_CAPTURES", "parse", "new", "unwrap", "captures", "from_sscanf", "A", "T")] + \
        [f"pub fn {n}(&self) -> u8 {{ 7 }}" for n in ("parse", "next", "len", "as_str", "into", "try_into", "map_err", "source", "to_string", "clone", "fmt", "unwrap", "deref", "as_ref", "from_matches")] + \
        [f"pub fn {n}<X>(_: X) -> u8 {{ 7 }}" for n in ("from_matches", "from_str", "from", "try_from", "default")]
    HAND = ("#[derive(Debug, PartialEq)] pub struct H(pub u8); impl sscanf::RegexRepresentation for H { const REGEX: &'static str = \"[0-9]\"; } impl<'t> sscanf::FromScanf<'t> for H { type Err = std::num::ParseIntError; const NUM_CAPTURES: usize = 1; "
            "fn from_matches(s: &mut sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> { Ok(H(s.next().unwrap().unwrap().as_str().parse()?)) } } "
            "#[derive(Debug, PartialEq)] pub struct F(pub u8); impl std::str::FromStr for F { type Err = std::num::ParseIntError; fn from_str(s: &str) -> Result<Self, Self::Err> { s.parse().map(F) } } impl sscanf::RegexRepresentation for F { const REGEX: &'static str = \"[0-9]\"; } "
            "#[derive(Debug, Default)] pub struct D(pub u8); #[derive(Debug)] pub struct N(pub u8); impl From<u8> for N { fn from(x: u8) -> Self { N(x) } } #[derive(Debug)] pub struct M(pub u8); impl std::convert::TryFrom<u8> for M { type Error = std::convert::Infallible; fn try_from(x: u8) -> Result<Self, Self::Error> { Ok(M(x)) } } ")
    one = {"re": {"s": [["0", "9"]]}, "conv": "u8"}
    wrap1 = lambda n: {"ph": st([ph(one)], n, "tuple", fld(0, 0))}
    DERIVED = ("#[derive(Debug, sscanf::FromScanf)] #[sscanf(\"{:/[0-9]/}\")] pub struct S(pub u8); #[derive(Debug, sscanf::FromScanf)] pub enum E { #[sscanf(\"a{:/[0-9]/}\")] A(u8), #[sscanf(\"b\")] B } "
               "#[derive(Debug, sscanf::FromScanf)] #[sscanf(\"{s}{e}{h}{f}{n}{m}\")] pub struct T { pub s: S, pub e: E, pub h: H, pub f: F, #[sscanf(default)] pub d: D, #[sscanf(from = u8)] pub n: N, #[sscanf(try_from = u8)] pub m: M } ")
    eT = {"name": "E", "enum": [st(["a", ph(one)], "A", "tuple", fld(0, 0)), st(["b"], "B", "unit")]}
    # n takes as many digits as it may, at most three
    nT = st([wrap1("S"), ph(eT), wrap1("H"), wrap1("F"), ph(st([ph("u8")], "N", "tuple", fld(0, 0))), ph(st([ph("u8")], "M", "tuple", fld(0, 0)))], "T", "named", fld("s", 0), fld("e", 1), fld("h", 2), fld("f", 3), fld("d", const="D(0)"), fld("n", 4), fld("m", 5))
    SP = [{"product": [["1", "x", ""], ["a2", "b", ""], ["3", ""], ["4"], ["5", "25"], ["6", "256", ""]], "edits": ""}]
    for mem in MEMBERS:
        own = [t for t in ("S", "E", "H", "F", "D", "N", "M", "T") if not (t == "E" and (" A" in mem or " B" in mem))]
        fam = "".join(f"#[allow(dead_code)] impl {t} {{ {mem} }} " for t in own)
        alone = [f"#[allow(dead_code)] impl {t} {{ {mem} }} " for t in own] if ck.thorough else []
        tr = [f"pub trait Tr {{ {mem.replace('pub ', '')} }} impl<X: ?Sized> Tr for X {{}} "] if "&self" not in mem else []
        for extra in [fam] + alone + tr:
            d = in_t("mod u { } " + HAND + DERIVED + extra)
            for e, it in (('res(sscanf::sscanf!(i, "{t::T}"))', [ph(nT)]), ("res(<t::T as sscanf::FromScanf>::from_str(i))", [ph(nT)]), ('res({ use t::*; sscanf::sscanf!(i, "{T}{}", str) })', [ph(nT), ph("str")])):
                S.add(e, it, SP, decl=d)
    base = len(S.sites)
    # where calls can stand
    P = dtypes.POOL
    CALLS = [("{u8}-{str}", "(u8, &'i str)", [ph("u8"), "-", ph("str")], [dict(U8STR, edits="1-")]),
             ("{P};{E}", "(P, E)", [ph("@P"), ";", ph("@E")], [{"product": [P["P"]["pieces"] + P["P"]["bad"], [";"], P["E"]["pieces"] + P["E"]["bad"]]}]),
             ("{L}{u8:x}", "(L<'i>, u8)", [ph("@L"), ph("u8:x")], [{"product": [P["L"]["pieces"], ["0x1", "ff", "100", ""]]}]),
             ("{i16:#b}", "i16", [ph("i16:#b")], [{"list": ["0b1", "-0b1", "0b", "1", "-0b1000000000000000", "0b1000000000000000"]}]),
             ("a}}", "()", ["a}"], [{"list": ["a}", "a}}", "a", ""]}])]
    for f, ty, items, specs in CALLS:
        for mac, lit in (("sscanf", raw(f)), ("sscanf_unescaped", raw(f))):
            M = f"sscanf::{mac}!"
            R = f"Result<{ty}, sscanf::Error>"
            gl = ty.replace("'i", "'g")
            owned = "'" not in ty
            for e, decl in CONTEXTS + (OWNED if owned else []):
                e, decl = ((x or "").replace("@C(", f"{M}(").replace("@R", R).replace("@T", ty).replace("@G", f"Result<{gl}, sscanf::Error>").replace("@H", gl) for x in (e, decl))
                e, decl = (re.sub(r"@(\w+)\)", lambda m: m.group(1) + ", " + lit + ")", x) for x in (e, decl))
                S.add(e, items, specs, decl=decl)
    # where types can be derived
    TY = '#[derive(Debug, sscanf::FromScanf)] #[sscanf("{a}/{b}")] %s struct T { %s a: u8, #[sscanf(map = |x: u8| x as u32 + 1)] %s b: u32 }'
    TE = '#[derive(Debug, sscanf::FromScanf)] %s enum T { %s #[sscanf("{a}/{b}")] %s V { a: u8, #[sscanf(map = |x: u8| x as u32 + 1)] b: u32 } }'
    nt = st([ph("u8"), "/", ph("u8")], "T", "named", fld("a", 0), fld("b", 1, "inc"))
    IN = [{"product": [["1", "255", "256"], ["/"], ["0", "255", "256", ""]], "edits": "/1"}]
    C = 'res(sscanf::sscanf!(i, "{T}"))'
    for T, node in ((TY, nt), (TE, {"name": "T", "enum": [dict(nt, name="V")]})):
        plain = T % ("", "", "")
        for e, decl in [(C, plain), (f"{{ {plain} {C} }}", ""), (f"(|| {{ {plain} {C} }})()", ""), (f"{{ const _: () = {{ {plain} }}; res(sscanf::sscanf!(i, \"{{u8}}/{{}}\", u8).map(|_| ())) }}", None), (f"{{ mod m {{ {T % ('pub', '', '')} }} use m::T; {C} }}", ""),
                        (f"{{ mod m {{ {T % ('pub', '', '')} }} res(sscanf::sscanf!(i, \"{{m::T}}\")) }}", ""), (f"{{ mod m {{ {T % ('pub(crate)', '', '')} }} res(sscanf::sscanf!(i, \"{{}}\", self::@m::m::T)) }}", None),
                        ("g::<u8>(i)", f"fn g<X>(i: &str) -> O {{ {plain} {C} }}"), ("X.g(i)", f"struct X; impl X {{ fn g(&self, i: &str) -> O {{ {plain} {C} }} }}"), (f"{{ macro_rules! d {{ () => {{ {plain} }} }} d!(); {C} }}", ""),
                        (f"{{ macro_rules! d {{ ($($t:tt)*) => {{ $($t)* }} }} d!({plain}); {C} }}", ""), (f"{{ macro_rules! d {{ ($t:item) => {{ $t }} }} d!{{{plain}}} {C} }}", ""), (f"{{ macro_rules! d {{ ($l:literal) => {{ {plain.replace(chr(34) + '{a}/{b}' + chr(34), '$l')} }} }} d!(\"{{a}}/{{b}}\"); {C} }}", ""),
                        (f"if true {{ {plain} {C} }} else {{ O::No }}", ""), (f"{{ {C} }}", plain.replace("Debug, sscanf::FromScanf", "Debug, Clone, PartialEq, sscanf::FromScanf, PartialOrd, Default") if T is TY else plain.replace("Debug,", "Debug, Clone, PartialEq, PartialOrd,")),
                        (C, plain.replace("#[derive(Debug, sscanf::FromScanf)]", "#[cfg_attr(all(), derive(sscanf::FromScanf))] #[derive(Debug)]")), (C, plain.replace("#[derive(Debug, sscanf::FromScanf)]", "#[derive(sscanf::FromScanf)] #[derive(Debug)]")), (C, plain.replace("sscanf::FromScanf", "FromScanf").join(["use sscanf::FromScanf; ", ""])),
                        (C, "use sscanf::*; " + plain.replace("sscanf::FromScanf", "FromScanf")), (C, "use sscanf::FromScanf as Parse; " + plain.replace("sscanf::FromScanf", "Parse")),
                        (C, T % ("#[allow(dead_code)] #[doc = \"a {} b\"] #[must_use]", "/** x {y} */ #[allow(unused)]", "#[doc(hidden)]")), (C, T % ("", "#[cfg(any())] #[sscanf(foo)] zz: u8," if T is TY else "#[cfg(any())] #[sscanf(foo)] Zz(u8),", "")),
                        ("{ fn f(i: &str) -> O { " + plain + C + " } fn g(i: &str) -> O { " + plain.replace("a}/{b", "b}/{a") + C + " } let _ = g(i); f(i) }", "")]:
            if decl is not None:
                S.add(e, [ph(node)], IN, decl=decl)
    GEN = [("<X>", "<u8>", "std::marker::PhantomData<X>", ""), ("<X: Clone + Default>", "<String>", "X", ""), ("<X>", "<Vec<u8>>", "Vec<X>", ""), ("<X = u8>", "", "std::marker::PhantomData<X>", ""), ("<const LEN: usize>", "<3>", "std::marker::PhantomData<[u8; LEN]>", ""),
           ("<const LEN: usize = 2>", "", "std::marker::PhantomData<[u8; LEN]>", ""), ("<'x>", "<'static>", "std::marker::PhantomData<&'x u8>", ""), ("<'x, 'y: 'x>", "<'static, 'static>", "std::marker::PhantomData<(&'x u8, &'y u8)>", ""),
           ("<'x, X: 'x + ?Sized>", "<'static, str>", "std::marker::PhantomData<&'x X>", ""), ("<X>", "<u8>", "std::marker::PhantomData<X>", "where X: std::fmt::Debug + Copy,"), ("<X, Y>", "<u8, i8>", "std::marker::PhantomData<(X, Y)>", "where X: Copy, Y: From<i8>"),
           ("<'x, X, const LEN: usize>", "<'static, u8, 4>", "std::marker::PhantomData<&'x [X; LEN]>", "where X: 'x"), ("<X: Iterator>", "<std::vec::IntoIter<u8>>", "std::marker::PhantomData<X::Item>", ""), ("<X>", "<u8>", "std::marker::PhantomData<X>", "where u8: Copy, X: Copy"), ("<X>", "<u8>", "Option<X>", "where")]
    for params, args, ty, where in GEN:
        use = "T" + args
        for body, q in ((f'#[sscanf("<{{}}>")] struct T{params} {where} {{ a: u8, #[sscanf(default)] p: {ty} }}', True), (f'enum T{params} {where} {{ #[sscanf("<{{}}>")] T {{ a: u8, #[sscanf(default)] p: {ty} }} }}', False)):
            d = "#[derive(sscanf::FromScanf)] " + body
            d += " mod d { #[derive(Debug)] pub struct T(pub u8); }"
            get = ".map(|t| d::T(t.a))" if q else ".map(|t| match t { T::T { a, .. } => d::T(a) })"
            node = st(["<", ph("u8"), ">"], "T", "tuple", fld(0, 0))
            S.add(f'res({{ let r: Result<{use}, sscanf::Error> = sscanf::sscanf!(i, "{{}}", {use}); r }}{get})', [ph(node if q else {"name": "T", "enum": [node]})], [{"product": [["<"], ["1", "255", "256", ""], [">"]], "edits": "<1"}], decl=d)
    sites = []
    for n, s in enumerate(S.sites):
        # what stands around the call: all modes; what is declared around it: the modes in turn
        if n >= base or ck.thorough:
            for m in ALL_MODES:
                sites.append(dict(s, id=f"{s['id']}m{m[0]}{'d' if m[1] else 'n'}", mode=m, src=f"[edition {m[0]}, debug assertions {'on' if m[1] else 'off'}] " + s["src"]))
        else:
            sites.append(dict(s, mode=ALL_MODES[n % len(ALL_MODES)]))
    ck.run_sites(sites, S.inputs, types=dtypes.TYPES, prelude=dtypes.CODE)
    return ck.finish(
        "five base programs (derived structs and enums with every kind of field, all built-in placeholders, unescaped, fully qualified, get_regex) with every name of the prelude, the primitives, the crates, the library, the standard macros "
        "and the expansions' variables declared around them as %d kinds of items (those the program itself names left out); every variable name of the expansions as the user's variable, function, macro, parameter or field in input, default, map and filter_map; "
        "%d contexts of calls (functions, methods, closures, async, const, generic, trait and impl items, macros) x formats; places to derive in; generic derives; x editions 2018, 2021, 2024 x debug assertions on/off. "
        "Each compiled program runs on all its inputs against the same model" % (len(KINDS), len(CONTEXTS) + len(OWNED)))
