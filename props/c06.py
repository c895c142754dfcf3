"""C06: text placeholders return the exact piece; str and Cow borrow the input."""
import itertools
from lib.core import rs
from lib.gen import Sites

DOTS = {"r": [".", 1, None, False]}
GREEDY = {"r": [".", 1, None, True]}
AT = {"re": DOTS, "conv": "str@"}

# kind -> (spellings, Rust type, observation of a value v, model)
KINDS = {
    "str": (["str", "&str", "std::primitive::str", "core::primitive::str", "primitive::str", "&std::primitive::str", "::std::primitive::str",
             "::core::primitive::str", "&primitive::str"], "&str", "at(i, {v})", AT),
    "cow": (["Cow<str>", "std::borrow::Cow<str>", "borrow::Cow<str>", "::std::borrow::Cow<str>", "alloc::borrow::Cow<str>",
             "Cow<'_, str>", "std::borrow::Cow<'_, str>", "Cow<primitive::str>"],
            "Cow<str>", "cow(i, {v})", AT),
    "string": (["String", "std::string::String"], "String", "own(i, &{v})", {"re": DOTS, "conv": "str"}),
    "char": (["char", "std::primitive::char"], "char", "format!(\"{{:?}}\", {v})", "char"),
    "bool": (["bool", "std::primitive::bool"], "bool", "format!(\"{{:?}}\", {v})", "bool"),
    "path": (["PathBuf", "std::path::PathBuf"], "PathBuf", "own(i, {v}.to_str().unwrap())", {"re": GREEDY, "conv": "str"}),
}
PRELUDE = """
pub use std::borrow::{self, Cow}; pub use std::path::PathBuf; pub use std::primitive; pub extern crate alloc;
fn off(i: &str, s: &str) -> usize { (s.as_ptr() as usize).wrapping_sub(i.as_ptr() as usize) }
#[derive(sscanf::FromScanf)] #[sscanf("own")] pub struct Own0;
#[derive(sscanf::FromScanf)] #[sscanf("own")] pub struct Own1<A: ?Sized>(#[sscanf(default)] std::marker::PhantomData<A>);
#[derive(sscanf::FromScanf)] #[sscanf("own")] pub struct Own2<A: ?Sized, B: ?Sized>(#[sscanf(default)] std::marker::PhantomData<A>, #[sscanf(default)] std::marker::PhantomData<B>);
impl std::fmt::Debug for Own0 { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("Own") } }
impl<A: ?Sized> std::fmt::Debug for Own1<A> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("Own") } }
impl<A: ?Sized, B: ?Sized> std::fmt::Debug for Own2<A, B> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("Own") } }
pub fn at(i: &str, s: &str) -> String { format!("{:?}", format!("{}:{}", off(i, s), s)) }
pub fn cow(i: &str, s: Cow<str>) -> String { match s { Cow::Borrowed(s) => at(i, s), Cow::Owned(s) => format!("owned {s:?}") } }
pub fn own(i: &str, s: &str) -> String { if !s.is_empty() && off(i, s) <= i.len() { format!("borrowed {s:?}") } else { format!("{s:?}") } }
"""


TRICKY = ["+", "-", "0", "1", "4", "0x", "1e", ".", ",", "_", " ", "\t", '"', "'", "\\", "\\n", "\r\n", "\r", "%20", "&amp;", "{", "}", "{{", "#", "$", "~", "/", "//", "..", "\0", "\x1b", "\x7f", "\u0085", "\ufeff", "\u200b", "e\u0301", "ß", "İ", "ﬁ", "A", "Z", "z", "null", "NaN"]


def observe(kinds, fmt, args=(), inp="i"):
    a = "".join(", " + x for x in args)
    vs = [f"v{k}" for k in range(len(kinds))]
    pat = vs[0] if len(vs) == 1 else "(" + ", ".join(vs) + ")"
    ty = ", ".join(KINDS[k][1] for k in kinds)
    ty = ty if len(vs) == 1 else f"({ty})"
    obs = [KINDS[k][2].replace("{v}", v).replace("{{", "{").replace("}}", "}") for k, v in zip(kinds, vs)]
    shown = "{}" if len(vs) == 1 else "(" + ", ".join("{}" for _ in vs) + ")"
    return (f"let r: Result<{ty}, sscanf::Error> = sscanf::sscanf!({inp}, {rs(fmt)}{a}); "
            f"match r {{ Ok({pat}) => O::Ok(format!(\"{shown}\", {', '.join(obs)})), Err(e) => vrt::err(e) }}")


def main(ck):
    S = Sites()
    th = ck.thorough
    alpha = "aé日😀\n\r: t"
    one = [{"alpha": alpha, "max": 5 if th else 4}, {"tokens": ["true", "false", "True", "TRUE", "t", "\n", "\t", "\0", "\u2028", "\u0301", "\u00a0", "tru", "e"], "max": 3},
           # texts that some conversion might take for more than text
           {"tokens": TRICKY, "max": 3 if th else 2}, {"product": [TRICKY, TRICKY, ["1", "a", " "], ["", "1"]]} if not th else {"list": ["0"]},
           {"list": ["atrue:", "afalse:", "x" * 5000, "é" * 3000, "a\u0301\u0302", "\ufeff", "\u202e"]}]
    two = [{"alpha": "aé😀\n:", "max": 6 if th else 5}, {"tokens": ["true", "false", ":", "😀", "é", "\n"], "max": 5}]
    two_small = [{"alpha": "aé😀\n:", "max": 5 if th else 4}, {"tokens": ["true", "false", ":", "é", "😀"], "max": 4}]

    def add(kinds, fmt, items, specs, args=(), **kw):
        code = observe(kinds, fmt, args)
        S.add(code, items, specs, src=f"sscanf!(input, {rs(fmt)}{''.join(', ' + a for a in args)})", **kw)

    for k, (spell, _, _, node) in KINDS.items():
        for sp in spell:
            add([k], "{" + sp + "}", [{"ph": node}], one)
            add([k], "a{" + sp + "}:", ["a", {"ph": node}, ":"], one)
            add([k], "{}", [{"ph": node}], one, [sp])
            add([k], "{0}", [{"ph": node}], one, [sp])
            add([k, k], "{0}:{0}", [{"ph": node}, ":", {"ph": node}], two, [sp])
    # in derived types and next to others
    tr = [{"product": [["<"], TRICKY, TRICKY, ["", "1", "a"], [":"], ["x", "+1", " "], [">"]]}]
    for k, (spell, _, _, node) in KINDS.items():
        if k not in ("bool", "char"):
            add([k, "string"], "<{}:{}>", ["<", {"ph": node}, ":", {"ph": KINDS["string"][3]}, ">"], tr, [spell[0], "String"])
    for k, l in itertools.product(KINDS, repeat=2):
        for sp, tp in itertools.product(KINDS[k][0], KINDS[l][0]) if th else zip(KINDS[k][0][:4], (KINDS[l][0] * 4)[:4]):
            for sep in ["", ":", "é"]:
                add([k, l], "{}" + sep + "{}", [{"ph": KINDS[k][3]}, sep, {"ph": KINDS[l][3]}], two if sp == KINDS[k][0][0] else two_small, [sp, tp])
    for ks in itertools.product(KINDS, repeat=3):
        fmt = "{" + "}:{".join(KINDS[k][0][0] for k in ks) + "}"
        items = [{"ph": KINDS[ks[0]][3]}, ":", {"ph": KINDS[ks[1]][3]}, ":", {"ph": KINDS[ks[2]][3]}]
        good = {"bool": ["true", "false"], "char": ["😀", "\n"]}
        add(ks, fmt, items, [{"alpha": "a😀:\n", "max": 6 if th else 5}, {"product": [good.get(ks[0], ["a", "é日"]), [":"], good.get(ks[1], ["a", "é日"]), [":"], good.get(ks[2], ["a", "é日"])], "edits": ":a\n"}])
        fmt = fmt.replace(":", "")
        if sum(k in ("str", "cow", "string", "path") for k in ks) < 3 or th:
            add(ks, fmt, [{"ph": KINDS[k][3]} for k in ks], [{"alpha": "a😀\n", "max": 5}, {"tokens": ["true", "false", "a", "é"], "max": 4}])
    # with a custom regex: still a borrow of the matched bytes
    for k in ("str", "cow", "string"):
        for sp in KINDS[k][0]:
            node = dict(KINDS[k][3], re={"r": [{"s": [["a"], ["é"], ["\n"]]}, 0, None, True]})
            add([k], "{" + sp + ":/[aé\n]*/}", [{"ph": node}], one)
            add([k, "str"], "{" + sp + ":/[aé\n]*/}{str}", [{"ph": node}, {"ph": AT}], two)
    # derived fields borrow from the input as well
    for fty, k in [("&'a str", "str"), ("Cow<'a, str>", "cow"), ("std::borrow::Cow<'a, str>", "cow"), ("String", "string"), ("PathBuf", "path"), ("char", "char"), ("bool", "bool")]:
        lt = "<'a>" if "'a" in fty else ""
        for fmt, pre in [("{}", []), ("<{}", ["<"]), ("é{0}:", ["é"])]:
            items = pre + [{"ph": KINDS[k][3]}] + ([":"] if fmt.endswith(":") else [])
            obs = KINDS[k][2].replace("{v}", "v.0").replace("{{", "{").replace("}}", "}")
            for outer, oi in [("{S}", []), ("a{S}", ["a"])]:
                S.add(f"match sscanf::sscanf!(i, {rs(outer)}) {{ Ok(v) => O::Ok({obs}), Err(e) => vrt::err(e) }}", oi + items,
                      [{"product": [["", "a"], ["", "<", "é"], ["", "true", "false", "😀", "aé:", "日"], ["", ":"]], "edits": "é<a:\n"}],
                      decl=f"#[derive(sscanf::FromScanf)] #[sscanf(format = {rs(fmt)})] struct S{lt}({fty});")
    # types of the user that only look like one of those
    own = lambda n, params: f"pub use crate::pre::Own{params} as {n};"
    OWN = {"ph": {"items": ["own"], "name": "Own", "kind": "unit", "fields": []}}
    LOOK = [("o::str", "mod o { @str0 }"), ("o::primitive::str", "mod o { pub mod primitive { @str0 } }"), ("o::std::primitive::str", "mod o { pub mod std { pub mod primitive { @str0 } } }"),
            ("std::str", "mod std { @str0 }"), ("core::str", "mod core { @str0 }"), ("std::x::str", "mod std { pub mod x { @str0 } }"), ("primitive::x", "mod primitive { @x0 }"),
            ("o::Cow<str>", "mod o { @Cow1 }"), ("o::Cow<'_, str>", None), ("o::borrow::Cow<str>", "mod o { pub mod borrow { @Cow1 } }"), ("o::std::borrow::Cow<str>", "mod o { pub mod std { pub mod borrow { @Cow1 } } }"),
            ("Cow<u8>", "@Cow1"), ("Cow", "@Cow0"), ("Cow<str, u8>", "@Cow2"), ("Cow<u8, str>", "@Cow2"), ("Cow<str, str>", "@Cow2"), ("Cow<&'static str>", "@Cow1"), ("Cow<String>", "@Cow1"), ("Cow<[u8]>", "@Cow1"), ("Cow<(str,)>", "@Cow1"), ("Cow<Box<str>>", "@Cow1"), ("Cow<Cow<str>>", "@Cow1"),
            ("borrow::Cow<u8>", "mod borrow { @Cow1 }"), ("borrow::Cow", "mod borrow { @Cow0 }"), ("borrow::Cow<str, u8>", "mod borrow { @Cow2 }"), ("std::borrow::Cow<u8>", "mod std { pub mod borrow { @Cow1 } }"), ("std::Cow<str>", "mod std { @Cow1 }"), ("alloc::Cow<str>", "mod alloc { @Cow1 }"),
            ("std::x::Cow<str>", "mod std { pub mod x { @Cow1 } }"), ("std::borrow::x::Cow<str>", "mod std { pub mod borrow { pub mod x { @Cow1 } } }"), ("borrow::x::Cow<str>", "mod borrow { pub mod x { @Cow1 } }"), ("x::borrow::Cow<str>", "mod x { pub mod borrow { @Cow1 } }"), ("core::borrow::Cow<str>", None),
            ("Cow2<str>", "@Cow21"), ("cow<str>", "#[allow(non_camel_case_types)] @cow1"), ("borrow::Cox<str>", "mod borrow { @Cox1 }"), ("std::borrow::Co<str>", "mod std { pub mod borrow { @Co1 } }"), ("Borrow::Cow<str>", "#[allow(non_snake_case)] mod Borrow { @Cow1 }"),
            ("Box<str>", "@Box1"), ("Str", "@Str0"), ("String", "@String0"), ("PathBuf", "@PathBuf0"), ("str2", "@str20"), ("std::String", "mod std { @String0 }"), ("o::String", "mod o { @String0 }"), ("o::char", "mod o { @char0 }"), ("o::PathBuf", "mod o { @PathBuf0 }"), ("o::bool", "mod o { @bool0 }")]
    import re
    nest = [{"list": ["own", "own ", "own1", "1", "", "o", "Own", "ownown", "own-own"]}]
    for ty, decl in LOOK:
        if not decl:
            continue
        decl = re.sub(r"@(\w+?)(\d)(?!\w)", lambda m: "#[allow(non_camel_case_types)] " + own(m[1], int(m[2])), decl)
        S.add(f"res(sscanf::sscanf!(i, {rs('{' + ty + '}')}))", [OWN], nest, decl=decl, src=f"{{{ty}}} with {decl[:60]}", deep=True)
        S.add(f"res(sscanf::sscanf!(i, \"{{}}-{{0}}\", {ty}))", [OWN, "-", OWN], nest, decl=decl, src=f"{{}}, {ty} with {decl[:60]}", deep=True)
        st_ = {"items": [OWN, "-", OWN], "name": "S", "kind": "tuple", "fields": [{"name": "0", "src": 0}, {"name": "1", "src": 1}]}
        S.add('res(sscanf::sscanf!(i, "{S}"))', [{"ph": st_}], nest, decl=decl + f'#[derive(Debug, ::sscanf::FromScanf)] #[sscanf("{{}}-{{}}")] pub struct S({ty}, {ty}); ', src=f"struct S({ty}, {ty})", deep=True)
    ck.run_sites(S.sites, S.inputs, prelude=PRELUDE)
    # types that cannot be parsed
    progs = []
    for ty in ("&mut str", "&u8", "&String", "&&str", "&[u8]", "[u8]", "&Cow<'_, str>", "&char", "&mut u8", "*const str", "Box<str>", "std::rc::Rc<str>", "Option<String>", "Cow<'_, [u8]>", "Cow<[u8]>", "Cow<'_, std::path::Path>", "std::borrow::Cow<[u8]>",
               "borrow::Cow<'_, [u8]>", "Cow<'_, std::ffi::OsStr>", "(str,)", "(String,)", "[char; 1]", "&'static u8", "&std::path::Path", "&'static mut str", "std::path::Path", "std::ffi::OsString", "std::ffi::OsStr", "()", "(char, char)", "fn(u8)", "Vec<char>",
               "std::borrow::Cow<'_, str, u8>", "Cow<'_, '_, str>", "std::x::Cow<str>", "borrow::x::Cow<str>", "core::borrow::Cow<str>", "std::Cow<str>", "alloc::Cow<str>", "Cow<str>::Owned", "std::str", "core::str", "::primitive::str", "x::str", "std::x::str", "primitive::x", "&x::str", "&std::str", "std::primitive::x::str", "&'static &'static str", "&Box<str>"):
        for code in ([f"let _ = sscanf::sscanf!(i, {rs('{' + ty + '}')});"] if not ty.startswith("::") else []) + [f"let _ = sscanf::sscanf!(i, \"{{}}\", {ty});", f"let _ = sscanf::sscanf!(i, \"{{u8}} {{0}}\", {ty});"]:
            progs.append({"code": "#[allow(unused)] fn f<'i>(i: &'i str) { " + code + " }", "src": code, "accept": False, "why": "a type that cannot be parsed"})
        fty = ty.replace("'_", "'a").replace("&", "&'a ").replace("&'a 'static", "&'static")
        if fty.startswith("&'a '") or "Cow<str" in fty or "Cow<[" in fty:
            continue
        for body in (f'#[sscanf("{{}}")] pub struct S<\'a>({fty}, #[sscanf(default)] std::marker::PhantomData<&\'a u8>);', f'pub enum S<\'a> {{ #[sscanf("{{x}}")] A {{ x: {fty}, #[sscanf(default)] p: std::marker::PhantomData<&\'a u8> }} }}'):
            progs.append({"code": "#[derive(sscanf::FromScanf)] " + body, "src": body, "accept": False, "why": "a type that cannot be parsed"})
    ck.check_verdicts(progs, prelude=PRELUDE)
    return ck.finish(
        "Every spelling of str, &str, Cow<str>, String, char, bool, PathBuf as single placeholder, all pairs and triples of them with "
        "and without separators, with custom regexes and as derived fields; every string up to length 4-5 (5-6) over 1- to 4-byte "
        "characters, line breaks and separators. Observed: the value, and the byte offset of the borrow in the input. 45 types of the user whose paths resemble those names; 51 types that cannot be parsed.")
