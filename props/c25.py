"""C25: correct uses cause no warnings (with the default lints and unsafe_code) in any edition, with and without debug assertions."""
import concurrent.futures as cf
import itertools
import json
import os
import subprocess
from lib import core
from lib.core import rs, raw

HEAD = """#![warn(unsafe_code)]
#![allow(unused_crate_dependencies)]
pub mod pre {
    pub use std::borrow::Cow; pub use std::path::PathBuf; pub use sscanf::{sscanf, sscanf_unescaped, sscanf_get_regex, FromScanf};
    #[derive(Debug, Clone, Default, PartialEq, sscanf::FromScanf)] #[sscanf("o{}")] pub struct Own(pub u8);
    #[derive(Debug, Clone, PartialEq, sscanf::FromScanf)] #[sscanf("{}")] pub struct Bor<'b>(pub &'b str);
    #[derive(Debug, Clone, PartialEq, sscanf::FromScanf)] #[sscanf(autogen)] pub enum En { A, B }
    #[derive(Debug, Clone, PartialEq, sscanf::FromScanf)] pub enum Ev<'b> { #[sscanf("a{x}")] A { x: u8 }, #[sscanf("b{}")] B(&'b str) }
    pub fn twice(x: u8) -> u16 { 2 * u16::from(x) }
}
"""
# type, attribute, whether it takes a placeholder, lifetime
FIELDS = [(t, "", True) for t in ("u8", "i128", "usize", "f32", "char", "bool", "String", "&'a str", "Cow<'a, str>", "std::borrow::Cow<'a, str>", "PathBuf", "std::num::NonZeroU8", "Own", "crate::pre::Own", "En")] + [
    ("u8", "default", False), ("Option<&'a str>", "default", False), ("Vec<u8>", "default = vec![1]", False), ("u8", "default = { let x = 1; x + 1 }", False), ("u8", "default = 5", False), ("String", "default = String::new()", False), ("fn(u8) -> u16", "default = twice", False), ("u8", "default = if cfg!(unix) { 1 } else { 2 }", False),
    ("Option<u8>", "default = \"5\".parse().ok()", False), ("u8", "default = (|| 5)()", False), ("u8", "default = match 1 { 1 => 2, _ => 3 }", False), ("u8", "default = u8::MAX", False), ("[u8; 2]", "default = [1, 2]", False), ("(u8, u8)", "default = (1, 2)", False), ("()", "default = ()", False),
    ("u8", "map = |x: u8| x", True), ("u16", "map = |x: u8| x.into()", True), ("u16", "map = |x: u8| { let y = u16::from(x); y * 2 }", True), ("u16", "map = |x: u8| -> u16 { 1 + u16::from(x) }", True), ("u8", "map = |_: u8| 5", True), ("u8", "map = |_x: u8| 5", True), ("u8", "map = |mut x: u8| { x += 1; x }", True), ("usize", "map = |x: &str| x.len()", True), ("usize", "map = |s: String| s.len()", True),
    ("u16", "map = |x: u8| twice(x)", True), ("Box<str>", "map = |x: &str| x.into()", True), ("&'a str", "map = |x: &'a str| x.trim()", True), ("Cow<'a, str>", "map = |x: &'a str| x.into()", True), ("&'a str", "filter_map = |x: &'a str| x.strip_prefix(' ')", True), ("(u8, u8)", "map = |x: u8| (x, x)", True), ("u8", "map = |x: Own| x.0", True), ("bool", "map = |x: En| matches!(x, En::A)", True), ("u16", "map = |x: u8| x as u16", True), ("i32", "map = |x: u8| if x > 3 { 1 } else { -1 }", True),
    ("u8", "filter_map = |x: u8| Some(x)", True), ("u8", "filter_map = |x: u8| x.checked_add(1)", True), ("u8", "filter_map = |x: u8| if x > 3 { Some(x) } else { None }", True), ("char", "filter_map = |x: String| { let mut c = x.chars(); c.next() }", True), ("Cow<'a, str>", "filter_map = |x: &str| Some(x.to_string().into())", True), ("u8", "filter_map = |_: u8| None", True),
    ("u16", "from = u8", True), ("String", "from = &str", True), ("Box<str>", "from = String", True), ("u8", "from = u8", True), ("u8", "try_from = i64", True), ("char", "try_from = u32", True), ("u16", "try_from = u8", True), ("std::num::NonZeroU8", "try_from = u8", True)]
VARIANTS = [("V", '"v@"'), ("V()", '"v@"'), ("V {}", '"v@"'), ("V(u8)", '"v@{}"'), ("V(u8, &'a str)", '"v@{1}{0}"'), ("V { x: u8, y: String }", '"v@{y}{x:x}"'), ("V { x: u8 }", "transparent"), ("V(Own)", "transparent"), ("V(Cow<'a, str>)", 'format = "v@{}"'), ("V(u8)", "skip"), ("V", "skip"), ("V(u8)", ""), ("V", ""),
            ("#[deprecated] V", '"v@"'), ("#[deprecated = \"gone\"] V { x: u8 }", '"v@{}"'), ("#[deprecated] V(u8)", "transparent"), ("#[deprecated] V(u8)", "skip"), ("V(#[deprecated] u8)", '"v@{}"'), ("V { #[deprecated] x: u8, #[deprecated] #[sscanf(default)] y: u8 }", '"v@{x}"'),
            ("V(#[sscanf(default)] u8)", '"v@"'), ("V(#[sscanf(map = |x: u8| twice(x))] u16)", '"v@{}"'), ("V { #[sscanf(filter_map = |x: u8| Some(x))] x: u8, y: Own }", 'r"v@{}(?:z)?{x}"'), ("V(#[sscanf(from = u8)] u32, En)", 'format_unescaped = "v@{}|{}"'), ("V(&'a str)", '"v@{:/a+/}"'), ("V(char)", '"v@{:/./}"')]
ITEM = ["", "#[non_exhaustive]", "#[repr(C)]", "#[must_use]", "#[derive(PartialEq, Debug)]", "#[doc = \"text\"]", "#[doc(hidden)]", "#[allow(clippy::all)]", "#[derive(Clone)] #[derive(Debug)]", "#[deny(unused)]", "#[forbid(unsafe_code)]", "#[deprecated]", "#[deprecated(note = \"gone\")] #[deny(deprecated)]"]
FMTS = [("", "", "()"), ("a", "", "()"), ("{u8}", "", "u8"), ("{str}", "", "&str"), ("{}", "u8", "u8"), ("{}", "&str", "&str"), ("{}", "std::borrow::Cow<str>", "Cow<'_, str>"), ("{0}{0}", "char", "(char, char)"), ("{1}-{0}", "u8, Own", "(Own, u8)"), ("{}{}", "u8, crate::pre::Own", "(u8, Own)"),
        ("{u8:x}", "", "u8"), ("{u8:#x}", "", "u8"), ("{i16:#b}", "", "i16"), ("{i16:o#}", "", "i16"), ("{i64:#o}", "", "i64"), ("{u8:r7}", "", "u8"), ("{i128:r36}", "", "i128"), ("{:x}", "usize", "usize"), ("{String:/[^a]*?/}", "", "String"), ("{:/a|b/}", "&str", "&str"), ("{Own}", "", "Own"), ("{Bor}", "", "Bor<'_>"), ("{En}{Ev}", "", "(En, Ev<'_>)"), ("{Bor<'_>}", "", "Bor<'_>"),
        ("{{{u8}}}", "", "u8"), ("é\\n{f64}\\u{1f600}", "", "f64"), ("{std::num::NonZeroU8}{PathBuf}", "", "(std::num::NonZeroU8, PathBuf)"), ("{Own:/o[0-9]/}", "", None), ("{u8},{u8},{u8},{u8},{u8},{u8},{u8},{u8},{u8},{u8},{u8},{u8}", "", "(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)")]
INPUTS = ["i", "&i", "&*i", "i.trim()", "&i[..]", "{ i }", "[\"5\", i][usize::from(i.is_empty())]", "std::str::from_utf8(i.as_bytes()).unwrap()", "if i.is_empty() { \"a\" } else { i }", "match i { \"\" => \"a\", x => x }", "i.lines().next().unwrap_or_default()", "{ let j = i; j }"]
CTX = ["pub fn f(i: &str) { let _ = @; }", "pub fn f(i: &str) -> bool { @.is_ok() }", "pub fn f(i: &str) { if let Ok(v) = @ { let _ = v; } }", "pub fn f(i: &str) { match @ { Ok(_) => (), Err(_) => () } }", "pub fn f(i: &str) -> Result<(), sscanf::Error> { @?; Ok(()) }", "pub fn f(i: &str) -> Result<(), Box<dyn std::error::Error>> { let _v = @?; Ok(()) }",
       "pub fn f(i: &str) { while @.is_ok() {} }", "pub fn f(i: &str) -> usize { (0..3).filter(|_| @.is_ok()).count() }", "pub fn f(i: &str) { let g = || @.is_ok(); g(); }", "pub async fn f(i: &str) -> bool { async {}.await; @.is_ok() }", "pub fn f(i: &str) { drop(@) }", "pub fn f(i: &str) -> String { format!(\"{:?}\", @) }", "pub fn f(i: &str) { assert!(@.is_ok()); }",
       "pub fn f(i: &str) { let Ok(_) = @ else { return }; }", "pub fn f(i: &str) { let _ = (@, @); }", "pub fn f(i: &str) { for _ in @.iter() {} }", "pub fn f(i: &str) -> bool { return @.is_ok(); }", "pub struct S<'x>(pub &'x str); impl S<'_> { pub fn f(&self) -> bool { let i = self.0; @.is_ok() } }", "pub trait T { fn t(&self) -> &str; fn f(&self) -> bool { let i = self.t(); @.is_ok() } }",
       "macro_rules! m { ($i:ident) => { { let i = $i; @.is_ok() } } } pub fn f(i: &str) -> bool { m!(i) }", "pub fn f(i: &str) { let _ = @.map(|_| ()).map_err(|e| e.to_string()); }", "pub fn f<T: AsRef<str>>(i: T) -> bool { let i = i.as_ref(); @.is_ok() }", "pub fn f(i: &str) -> bool { loop { break @.is_ok(); } }", "pub fn f(i: &str) { let _x = { @.ok() }; }", "pub fn f(i: &str) -> bool { unused(i); @.is_ok() } fn unused(_: &str) {}",
       "pub fn f(i: &str) { std::thread::scope(|s| { s.spawn(|| @.is_ok()); }) }", "pub fn f(i: &str, src: &str, input: &str) -> bool { src == input && @.is_ok() }", "#[deny(warnings)] pub fn f(i: &str) -> bool { @.is_err() }", "#[forbid(unsafe_code)] pub mod q { use crate::pre::*; pub fn f(i: &str) -> bool { @.is_err() } }", "pub const F: fn(&str) -> bool = |i| @.is_ok();", "pub static F: fn(&str) -> bool = |i| @.is_ok();"]


def programs(T):
    out = []

    def lts(s):
        return "<'a>" if "'a" in s else ""

    def der(body, attr="", item=""):
        out.append(f"{item} #[derive(FromScanf)] {attr} {body}")

    def field(f, named=None):
        t, a, _ = f
        # a closure's type names the lifetime of the struct
        return (f"#[sscanf({a})] " if a else "") + "pub " + (f"{named}: " if named else "") + t
    for u in ("S;", "S();", "S {}"):
        for item in ITEM:
            for a in ('#[sscanf("x")]', '#[sscanf(format = "")]', '#[sscanf(format_unescaped = "(?:x|y)")]', '#[sscanf(r"x")]'):
                der("pub struct " + u, a, item)
    k = 0
    for n in (1, 2, 3):
        for fs in itertools.product(FIELDS, repeat=n):
            k += 1
            if n == 2 and not T and k % 3 or n == 3 and k % (101 if T else 797):
                continue
            text = "".join(t + a for t, a, _ in fs)
            lt = "<'a>" if "'a" in text else ""
            src = [x for x in range(n) if fs[x][2]]
            forms = [("tuple", "".join("{}-" for _ in src)), ("named", "".join("{f%d}-" % x for x in src[::-1])), ("tuple", "".join("{%d} " % x for x in src[::-1])), ("named", "".join("{}," for _ in src))]
            if n == 1:
                forms += [("tuple", "T"), ("named", "T")] * bool(src)
            for j, (kind, fmt) in enumerate(forms):
                if n > 1 and j != k % 4:
                    continue
                a = "#[sscanf(transparent)]" if fmt == "T" else f"#[sscanf({rs(fmt) if k % 2 else 'format = ' + rs(fmt)})]"
                body = f"pub struct S{lt}(" + ", ".join(field(f) for f in fs) + ");" if kind == "tuple" else f"pub struct S{lt} {{ " + ", ".join(field(f, f"f{x}") for x, f in enumerate(fs)) + " }"
                der(body, a, ITEM[k % len(ITEM)] if "repr" not in ITEM[k % len(ITEM)] and "PartialEq" not in ITEM[k % len(ITEM)] and "Clone" not in ITEM[k % len(ITEM)] else "")
    # options on a field
    for t, o in [(t, o) for t in ("u8", "i64") for o in ("x", "#x", "b#", "o", "r3", "#o", "/[0-9]/")] + [(t, "/a+/") for t in ("String", "&'a str", "Cow<'a, str>", "PathBuf", "char")]:
        der(f"pub struct S{lts(t)}(pub {t});", f'#[sscanf("{{:{o}}}")]')
        der(f"pub struct S{lts(t)} {{ pub a: {t}, pub b: {t} }}", f'#[sscanf("{{b:{o}}}|{{a:{o}}}")]')
        der(f"pub struct S{lts(t)} {{ #[deprecated] pub a: {t}, #[deprecated] pub b: {t} }}", f'#[sscanf("{{b:{o}}}|{{a:{o}}}")]', "#[deprecated]")
    # names
    for nm in ("src", "n", "res", "value", "f", "e", "input", "cap", "matcher", "start_len", "catcher", "remaining", "expected", "error", "r#type", "r#fn", "_x", "x_", "lt", "regex"):
        der(f"pub struct S {{ pub {nm}: u8, #[sscanf(default)] pub b: u8 }}", f'#[sscanf("{{}}")]')
        der(f"pub struct S {{ #[sscanf(map = |{nm}: u8| {nm})] pub {nm}: u8 }}", '#[sscanf("{}")]')
        der(f'pub enum S {{ #[sscanf("{{}}")] A {{ #[sscanf(filter_map = |{nm}: u8| Some({nm}))] {nm}: u8 }} }}')
        der(f"pub struct S<'{nm.replace('r#', '')}x>(pub &'{nm.replace('r#', '')}x str);", '#[sscanf("{}")]')
    for attr, d in (("#[allow(non_snake_case)]", "pub struct S { pub Ab: u8, pub cD: &'a str }"), ("#[allow(non_camel_case_types)]", "pub struct some_type { pub a: u8, pub b: &'a str }"), ("#[allow(non_camel_case_types)]", "pub enum some_type { #[sscanf(\"{}\")] variant_a(u8), #[sscanf(\"b\")] variant_b { } }"), ("#[allow(non_snake_case, non_camel_case_types)]", "pub enum s { #[sscanf(\"{A}\")] v { A: u8 } }")):
        name = d.split()[2]
        der(d.replace(" " + name + " ", f" {name}{lts(d)} ", 1), ('#[sscanf("{}:{}")]' if "struct" in d else ""), attr)
    # generics
    for g, use, bound in (("<T>", "T", ""), ("<T: Default>", "T", ""), ("<T>", "T", "where T: Default"), ("<'a, T: 'a>", "std::marker::PhantomData<&'a T>", ""), ("<const N: usize>", "std::marker::PhantomData<[u8; N]>", ""), ("<T: ?Sized>", "std::marker::PhantomData<T>", ""), ("<T = u8>", "T", ""), ("<'a>", "Option<&'a u8>", ""), ("<'a, 'b: 'a>", "std::marker::PhantomData<(&'a u8, &'b u8)>", ""), ("<T, U>", "Vec<(T, U)>", "where T: Clone,")):
        b = bound if use != "T" or "Default" in g + bound else "where T: Default"
        der(f"pub struct S{g}(#[sscanf(default)] pub {use}, pub u8) {b};", '#[sscanf("{}")]')
        der(f"pub struct S{g} {b} {{ #[sscanf(default)] pub a: {use}, pub b: u8 }}", '#[sscanf("{b}")]')
        der(f'pub enum S{g} {b} {{ #[sscanf("{{}}")] A(u8, #[sscanf(default)] {use}), #[sscanf("{{y}}")] B {{ #[sscanf(default)] x: {use}, y: Own }} }}')
    # enums
    for n in (1, 2, 3):
        for vs in itertools.product(VARIANTS, repeat=n):
            k += 1
            if n == 3 and k % (7 if T else 41):
                continue
            if all(a in ("skip", "") for _, a in vs):
                continue
            body = ", ".join((f"#[sscanf({a.replace('@', 'abc'[x])})] " if a else "") + v.replace("V", "V" + "ABC"[x], 1) for x, (v, a) in enumerate(vs))
            der(f"pub enum S{lts(body)} {{ {body} }}", "", ITEM[k % len(ITEM)] if not any(w in ITEM[k % len(ITEM)] for w in ("repr", "PartialEq", "Clone", "Debug")) else "")
    for cs in ("", ' = "CaseSensitive"', ' = "CaseInsensitive"', *(f' = "{c}"' for c in ("lower case", "UPPER CASE", "lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"))):
        for vs in ("A", "A, B", "A, #[deprecated] B", "#[deprecated] #[sscanf(\"x\")] A, B, #[deprecated] #[sscanf(skip)] C", "AbC, #[sscanf(skip)] B(u8), D", "A, #[sscanf(\"{}\")] B(u8)", "A = 3, B = 5", "A(), B {}", "#[sscanf(skip)] A, B"):
            for item in ITEM:
                if "= 3" not in vs or "repr" not in item:
                    der(f"pub enum S {{ {vs} }}", f"#[sscanf(autogen{cs})]", item)
    # private ones that are used
    for body in ("struct P(u8);", "struct P { a: u8 }", "enum P { #[sscanf(\"{}\")] A(u8) }"):
        a = "" if "enum" in body else '#[sscanf("{}")]'
        read = {"struct P(": "v.0", "struct P ": "v.a", "enum P { ": "{ let P::A(x) = v; x }"}[body[:9]]
        out.append(f"#[derive(FromScanf)] {a} {body} pub fn f(i: &str) -> u8 {{ let v = sscanf!(i, \"{{P}}\").unwrap(); {read} }}")
        out.append(f"pub fn f(i: &str) -> u8 {{ #[derive(FromScanf)] {a} {body} let v = P::from_str(i).unwrap(); {read} }}")
        out.append(f"#[derive(FromScanf)] {a} {body} pub fn f(i: &str) -> u8 {{ let v: P = sscanf!(i, \"{{}}\", P).unwrap(); {read} }}")
    # calls
    for x, (fmt, args, ret) in enumerate(FMTS):
        lit = '"' + fmt + '"'
        lits = [lit] + ([raw(fmt)] if "\\" not in fmt else [])
        for m in ("sscanf", "sscanf_unescaped"):
            for l in lits:
                if m == "sscanf_unescaped" and "{{" in fmt:
                    continue
                for j, i in enumerate(INPUTS):
                    call = f"{m}!({i}, {l}{', ' + args if args else ''})"
                    for c, ctx in enumerate(CTX):
                        if not T and (x + j + c) % 5 and i != "i" or ("static" in ctx or "const" in ctx) and i != "i":
                            continue
                        if "$i" in ctx and i != "i":
                            continue
                        out.append(ctx.replace("@", call))
                if ret and m == "sscanf":
                    r = ret.replace("&str", "&'i str").replace("'_", "'i")
                    out.append(f"pub fn f<'i>(i: &'i str) -> Result<{r}, sscanf::Error> {{ {m}!(i, {l}{', ' + args if args else ''}) }}" if "'i" in r else f"pub fn f(i: &str) -> Result<{ret}, sscanf::Error> {{ {m}!(i, {l}{', ' + args if args else ''}) }}")
        for l in lits:
            out.append(f"pub fn f(i: &str) -> bool {{ sscanf_get_regex!({l}{', ' + args if args else ''}).is_match(i) }}")
            out.append(f"pub fn f() -> &'static sscanf::regex::Regex {{ sscanf_get_regex!({l}{', ' + args if args else ''}) }}")
            out.append(f"pub fn f() -> usize {{ let re = sscanf_get_regex!({l}{', ' + args if args else ''}); re.captures_len() }}")
    for t in ("u8", "Own", "En", "String", "f64"):
        out.append(f"pub fn f(i: &str) -> Result<{t}, sscanf::Error> {{ <{t} as FromScanf>::from_str(i) }}")
        out.append(f"pub fn f(i: &str) -> bool {{ use sscanf::FromScanf as _; {t}::from_str(i).is_ok() }}")
        out.append(f"pub fn f() -> &'static str {{ <{t} as sscanf::RegexRepresentation>::REGEX }}")
    return list(dict.fromkeys(out))


def run(ck, progs, name, edition, debug):
    src = os.path.join(ck.work, f"{name}.rs")
    at = {}
    with open(src, "w") as f:
        f.write(HEAD)
        n = HEAD.count("\n")
        for k, p in enumerate(progs):
            use = "" if p.startswith("use ") else "#[allow(unused_imports)] use crate::pre::*; "
            f.write(f"pub mod m{k} {{ {use}{p} }}\n")
            n += 1
            at[n] = k
        # something to warn about, to see that the lints are on
        f.write("pub mod control { pub fn f() { let x = 1; } }\n")
        at[n + 1] = "control"
    cmd = [x for x in ck.rustc_cmd(src, os.path.join(ck.work, name + ".rmeta"), mode=(edition, debug)) if x not in ("--cap-lints", "allow", "-A", "warnings")]
    p = subprocess.run(cmd + ["--crate-type", "lib", "--emit=metadata", "--cap-lints", "warn"], env=core.ENV, capture_output=True, text=True, errors="replace", timeout=800, preexec_fn=core.limit_memory)
    got = [[] for _ in progs]
    control = []
    for line in p.stderr.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("level") not in ("error", "warning") or m["message"].startswith("aborting due") or not m["spans"] and "emitted" in m["message"]:
            continue
        lines = []
        core.span_lines(m, os.path.basename(src), lines)
        ks = [at[x] for x in lines if x in at]
        text = m["level"] + ": " + m["message"] + (f" [{m['code']['code']}]" if m.get("code") else "")
        if ks and set(ks) == {"control"}:
            control.append(text)
        elif ks:
            got[ks[0]].append(text)
        else:
            got[0].append("(not in a program) " + text + " " + m.get("rendered", "")[:600])
    if not any(got) and not control:
        raise core.CheckError("the lints are not on: " + p.stderr[-500:])
    if p.returncode not in (0, 1):
        got[0].append(f"rustc ended with {p.returncode}: {p.stderr[-300:]}")
    return got


def main(ck):
    progs = programs(ck.thorough)
    ck.build_base()
    modes = [(e, d) for d in (True, False) for e in ("2021", "2018", "2024")]
    jobs = []
    for mi, (e, d) in enumerate(modes):
        mine = progs if ck.thorough or mi in (0, 3) else progs[mi % 4::4]
        for j in range(0, len(mine), 400):
            jobs.append((mine[j:j + 400], f"w{len(jobs)}", e, d))
    seen = 0
    with cf.ThreadPoolExecutor(core.JOBS) as ex:
        for (mine, name, e, d), got in zip(jobs, ex.map(lambda j: run(ck, *j), jobs)):
            for p, g in zip(mine, got):
                seen += 1
                if g:
                    ck.violation(p, f"edition {e}, debug assertions {'on' if d else 'off'}", "the program compiles without warnings", "; ".join(dict.fromkeys(g))[:400], {"c25": p, "edition": e, "debug": d}, kind="warning")
            if len(ck.cov["samples"]) < 12:
                ck.cov["samples"].append({"program": mine[len(mine) // 2], "edition": e, "debug_assertions": d, "warnings": got[len(mine) // 2]})
    ck.cov["states"] = len(progs)
    ck.cov["transitions"] = seen
    ck.cov["traces_validated_against_impl"] = seen
    if os.environ.get("C25_DUMP"):
        import re, collections
        h = collections.defaultdict(list)
        for v in ck.violations:
            h[re.sub(r"`[^`]*`", "`_`", v["got"])[:160]].append(v)
        for m, vs in sorted(h.items(), key=lambda x: -len(x[1])):
            print(len(vs), m, "\n      ", "\n       ".join(v["program"][:230] + " :: " + v["got"][:150] + v["input"] for v in vs[:: max(1, len(vs) // 2)][:3]))
    ck.log(f"{len(progs)} programs, {seen} compilations, violations {len(ck.violations)}")
    return ck.finish(
        f"Structs of one field and every third (every) pair of {len(FIELDS)} field forms, in order, reversed, by name and by index; enums of one, two and some of three out of {len(VARIANTS)} variant forms; autogen in every casing; generics; names of the expansion's own variables; "
        f"{len(FMTS)} formats in two macros, raw and plain, {len(INPUTS)} forms of the input and {len(CTX)} contexts (every fifth combination; all); with the lints that are on by default and unsafe_code, in editions 2018, 2021 and 2024, with and without debug assertions.")
