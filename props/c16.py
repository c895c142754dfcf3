"""C16: a call's result depends only on its own arguments (histories, re-entrancy, interleavings)."""
import json
import os
import subprocess
import time
from lib.core import ENV, MODES, CheckError, PreludeRejected, rs
from lib.dtypes import POOL, st, fld, ph, rep, cls, D09, DER, TYPES, CODE

PRE = CODE + r"""
pub use vrt::hist::{cb, same};
#[derive(Debug)] pub struct Cb(pub u8);
impl std::str::FromStr for Cb { type Err = std::num::ParseIntError; fn from_str(s: &str) -> Result<Self, Self::Err> { cb(); let v = s.parse()?; cb(); Ok(Cb(v)) } }
impl sscanf::RegexRepresentation for Cb { const REGEX: &'static str = r"[0-9]+"; }
#[derive(Debug)] pub struct CbT(pub u8);
impl std::convert::TryFrom<i16> for CbT { type Error = std::num::TryFromIntError; fn try_from(v: i16) -> Result<Self, Self::Error> { cb(); Ok(CbT(std::convert::TryFrom::try_from(v)?)) } }
#[derive(Debug)] pub struct CbF(pub u8);
impl std::convert::From<u8> for CbF { fn from(v: u8) -> Self { cb(); CbF(v) } }
#[derive(Debug)] pub struct CbH<'a>(pub &'a str, pub bool);
impl sscanf::RegexRepresentation for CbH<'_> { const REGEX: &'static str = r"(?:[a-c]|(d))+"; }
impl<'t> sscanf::FromScanf<'t> for CbH<'t> { type Err = std::convert::Infallible; const NUM_CAPTURES: usize = 2;
  fn from_matches(src: &mut sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> { let w = src.next().unwrap().unwrap(); cb(); let d = src.next().unwrap().is_some(); Ok(CbH(w.as_str(), d)) } }
#[derive(Debug, sscanf::FromScanf)] #[sscanf("{b}/{a}/{t}/{f}")]
pub struct CbS { #[sscanf(map = |v: u8| { cb(); v as u32 + 1 })] pub a: u32, #[sscanf(filter_map = |v: i16| { cb(); if v % 2 == 0 { Some(v / 2) } else { None } })] pub b: i16,
  #[sscanf(try_from = i16)] pub t: CbT, #[sscanf(from = u8)] pub f: CbF, #[sscanf(default = { cb(); 9 })] pub d: u8 }
#[derive(Debug, sscanf::FromScanf)]
pub enum CbE { #[sscanf("c{}")] A(Cb), #[sscanf("d{}{}")] B(CbH<'static2>, u8), #[sscanf("r{}")] R(Rec) }
pub struct Der<'a>(pub &'a str);
impl std::ops::Deref for Der<'_> { type Target = str; fn deref(&self) -> &str { cb(); self.0 } }
// a type whose conversion parses the rest of its text with the very same type
#[derive(Debug)] pub struct Rec(pub u8, pub Option<Box<Rec>>);
impl std::str::FromStr for Rec { type Err = sscanf::Error; fn from_str(s: &str) -> Result<Self, Self::Err> { cb(); rec(s) } }
impl sscanf::RegexRepresentation for Rec { const REGEX: &'static str = r"[0-9(]+\)*"; }
pub fn rec(s: &str) -> Result<Rec, sscanf::Error> { if s.contains('(') { sscanf::sscanf!(s, "{u8:/[0-9]/}({Rec})").map(|(a, b)| Rec(a, Some(Box::new(b)))) } else { sscanf::sscanf!(s, "{u8}").map(|a| Rec(a, None)) } }
pub mod m1 { #[derive(Debug, sscanf::FromScanf)] #[sscanf("v{}")] pub struct V(pub u8); }
pub mod m2 { #[derive(Debug, sscanf::FromScanf)] #[sscanf("v{}")] pub struct V(pub char); }
#[derive(Debug, sscanf::FromScanf)] #[sscanf("g{v:/[0-9a]+/}")] pub struct Ge<X> where X: std::str::FromStr + 'static, <X as std::str::FromStr>::Err: std::error::Error { pub v: X }
""".replace("B(CbH<'static2>, u8), ", "B(CbF2, u8), ").replace("pub struct Der", "#[derive(Debug, sscanf::FromScanf)] #[sscanf(\"{}\")] pub struct CbF2(#[sscanf(map = |s: char| { cb(); s })] pub char);\npub struct Der", 1)

MANY = 72
MANY_TYPES = r"""
macro_rules! many_types { ($($t:ident $f:literal)*) => {
  $(#[derive(Debug, sscanf::FromScanf)] #[sscanf($f)] pub struct $t(pub u8);)*
  pub fn many(i: &str) -> O { let mut s = String::new(); for _ in 0..2 { $( let text = $f.split('{').next().unwrap().to_string() + i; match <$t as sscanf::FromScanf>::from_str(&text) { Ok(v) => s += &v.0.to_string(), Err(_) => s.push('!') } )* } O::Ok(s) }
} }
many_types!(@);
pub fn few(i: &str) -> O { let mut s = String::new(); for _ in 0..3 { match <T0 as sscanf::FromScanf>::from_str(&format!("m0-{i}")) { Ok(v) => s += &v.0.to_string(), Err(_) => s.push('!') } } O::Ok(s) }
"""
RECP = {"c": [rep(cls("09", "(")), rep({"l": ")"}, 0)]}


def main(ck):
    ops, sites = [], []

    def site(code, items, inputs, tags="", want=None, decl="", fail=()):
        k = len(sites)
        sites.append({"id": f"s{k}", "code": code, "decl": decl, "src": (decl + " " + code).strip()})
        for n, i in enumerate(inputs):
            o = {"site": f"s{k}", "items": items, "input": i, "src": code, "tags": tags.split()}
            if want is not None:
                o["want"] = want
            if n:
                o["tags"] = [t for t in o["tags"] if t in ("cb", "core2", "core3")]
            ops.append(o)

    S = "sscanf::sscanf!"
    u8c = {"re": rep(D09), "conv": "Cb"}
    cbh = {"re": rep(cls("ad")), "conv": "CbH"}
    V1, V2 = st(["v", ph("u8")], "V", "tuple", fld(0, 0)), st(["v", ph("char")], "V", "tuple", fld(0, 0))
    cbs = st([ph("i16"), "/", ph("u8"), "/", ph("i16"), "/", ph("u8")], "CbS", "named", fld("a", 1, "inc"), fld("b", 0, "even"), fld("t", 2, "CbT"), fld("f", 3, "CbF"), fld("d", const="9"))
    cbe = {"name": "CbE", "enum": [st(["c", ph(u8c)], "A", "tuple", fld(0, 0)), st(["d", ph(st([ph("char")], "CbF2", "tuple", fld(0, 0))), ph("u8")], "B", "tuple", fld(0, 0), fld(1, 1)),
                                  st(["r", ph({"re": RECP, "conv": "Rec"})], "R", "tuple", fld(0, 0))]}
    # the same literal with different types, the same types with different literals
    site(f'res({S}(i, "{{}}-{{}}", u8, String))', [ph("u8"), "-", ph("str")], ["1-2", "300-x", "x"], "core small")
    site(f'res({S}(i, "{{}}-{{}}", char, u16))', [ph("char"), "-", ph("u16")], ["1-2", "a-70000", "ab"], "core")
    site(f'res({S}(i, "{{}}-{{}}", str, &str))', [ph("str"), "-", ph("str")], ["1-2", "--a"], "")
    site(f'res(sscanf::sscanf_unescaped!(i, ".{{}}-{{}}", u8, String))', [{"pat": "."}, ph("u8"), "-", ph("str")], ["11-2", "1-2"], "")
    site(f'res({S}(i, ".{{}}-{{}}", u8, String))', [".", ph("u8"), "-", ph("str")], [".1-2", "11-2"], "")
    # types of the same name, generic types
    site(f'res({S}(i, "{{m1::V}}"))', [ph(V1)], ["v1", "va", "v300"], "core")
    site(f'res({S}(i, "{{m2::V}}"))', [ph(V2)], ["v1", "va", "v300"], "core")
    for m, v in (("m1", V1), ("m2", V2)):
        site(f"res(<{m}::V as sscanf::FromScanf>::from_str(i))", [ph(v)], ["v1", "va"], "core small" if m == "m2" else "core")
    show = "match %s { Ok(v) => format!(\"{v:?}\"), Err(sscanf::Error::MatchFailed) => \"no\".into(), Err(_) => \"bad\".to_string() }"
    for first, second, i, want in (("u8", "char", "v1", "V(1)V('1')"), ("u8", "char", "va", "noV('a')"), ("char", "u8", "v30", "noV(30)"), ("String", "u8", "v300", 'V("300")bad')):
        a, b = ("{ " + DER + f'#[sscanf("v{{}}")] struct V({t}); ' + show % "<V as sscanf::FromScanf>::from_str(i)" + " }" for t in (first, second))
        site(f"let a = {a}; let b = {b}; O::Ok(a + &b)", None, [i], "core" if i in ("v1", "va") else "", want=want)
        a, b = ("{ " + DER + f'#[sscanf("v{{}}")] struct V({t}); ' + show % 'sscanf::sscanf!(i, "{V}")' + " }" for t in (first, second))
        site(f"let a = {a}; let b = {b}; O::Ok(a + &b)", None, [i], "", want=want)
    for x, conv in (("u8", "u8"), ("String", "str"), ("char", "char")):
        node = st(["g", ph({"re": rep(cls("09", "a")), "conv": conv})], "Ge", "named", fld("v", 0))
        site(f"res(<Ge<{x}> as sscanf::FromScanf>::from_str(i))", [ph(node)], ["g1", "ga"], "")
        site(f'res({S}(i, "{{Ge<{x}>}}"))', [ph(node)], ["g1", "ga"], "")
    for t in ("L", "N", "E", "M"):
        site(f'res({S}(i, "{{{POOL[t]["ty"]}}}"))', [ph("@" + t)], POOL[t]["pieces"][:2] + POOL[t]["bad"][:1], "")
        site(f'res(<{POOL[t]["ty"]} as sscanf::FromScanf>::from_str(i))', [ph("@" + t)], POOL[t]["pieces"][:1], "")
    site(f'let mut v = vec![]; for p in i.split(\',\') {{ v.push(match {S}(p, "{{u8}}") {{ Ok(n) => n.to_string(), Err(e) => vrt::explore::show(&vrt::err(e)) }}); }} O::Ok(v.join(","))', None, ["1,300,x,2,1"], "core",
         want="1,ParsingFailed(number too large to fit in target type),MatchFailed,2,1")
    # the regex object
    site('let r = sscanf::sscanf_get_regex!("{}-{}", u8, String); same(1, r); groups(r, i, &[1, 2], 3)', [ph({"text": "u8"}), "-", ph({"text": "str"})], ["1-2", "x"], "core small")
    site('let r = sscanf::sscanf_get_regex!("{}-{}", char, u16); same(2, r); groups(r, i, &[1, 2], 3)', [ph({"text": "char"}), "-", ph({"text": "u16"})], ["1-2", "x"], "core")
    site('let f = || sscanf::sscanf_get_regex!("{u8}"); same(3, f()); cb(); same(3, f()); groups(f(), i, &[1], 2)', [ph({"text": "u8"})], ["1"], "cb")
    # user code inside calls
    site(f'res({S}(i, "{{Cb}}"))', [ph(u8c)], ["7", "300", "x"], "core small cb")
    site(f'res({S}(i, "{{Cb}}"))', [ph(u8c)], ["7"], "cb")
    site(f'res({S}(i, "{{Cb}}-{{}}-{{Cb}}", String))', [ph(u8c), "-", ph("str"), "-", ph(u8c)], ["7-a-8", "300-a-8", "7-a-300"], "core cb")
    site(f'res({S}(i, "{{}}-{{}}", u8, Cb))', [ph("u8"), "-", ph(u8c)], ["1-2"], "cb")
    site(f'res({S}(i, "{{CbH}}{{CbH}}"))', [ph(cbh), ph(cbh)], ["abdc", "aa"], "cb core")
    site(f'res({S}(i, "{{CbS}}"))', [ph(cbs)], ["4/1/2/3", "3/1/2/3", "4/1/300/3"], "core cb")
    site("res(<CbS as sscanf::FromScanf>::from_str(i))", [ph(cbs)], ["4/1/2/3", "4/1/-2/3"], "cb small core")
    site(f'res({S}(i, "{{CbE}}{{u8}}"))', [ph(cbe), ph("u8")], ["c77", "dx51", "r1(2)3", "c3003"], "cb core")
    site("res(<CbE as sscanf::FromScanf>::from_str(i))", [ph(cbe)], ["c7", "dx5", "r1(2(3))"], "cb")
    site("res(rec(i))", [ph({"re": {"c": [rep(cls("09", "(")), rep({"l": ")"}, 0)]}, "conv": "Rec0"})], ["1(2(3))", "1", "1(2(300))"], "cb core small")
    site(f'res({S}({{ cb(); i }}, "{{u8}}{{Cb}}"))', [ph("u8"), ph(u8c)], ["12"], "cb core")
    site(f'let d = Der(i); res({S}(d, "{{u8}}"))', [ph("u8")], ["12", "300"], "cb core")
    site(f'let d = Box::new(Der(i)); res({S}(*d, "{{str}}{{Cb}}"))', [ph("str"), ph(u8c)], ["x2"], "cb")
    site(f'res(sscanf::sscanf_unescaped!(i, "(?:a|{{Cb}})*b{{Cb}}").map_err(|e| e))', [{"pat": {"r": [{"a": [{"l": "a"}, {"ph": u8c}]}, 0, None, True]}}, "b", ph(u8c)], ["aa1b2"], "cb")
    # more types than any cache will have room for
    many = " ".join(f"T{k} 'm{k}-{{}}'".replace("'", '"') for k in range(MANY))
    site("many(i)", None, ["7"], "once", want="7" * (2 * MANY))
    site("few(i)", None, ["7", "x"][:1], want="777")
    pre = PRE + MANY_TYPES.replace("@", many)
    base = ck.build_base()
    src = os.path.join(ck.work, "hist.rs")
    exes = {}
    for s in sites:
        s["items"] = None
    ranges = ck.render(sites, pre, src)
    text = open(src).read().replace("vrt::explore::main(", "vrt::hist::main(")
    open(src, "w").write(text)
    for mode in MODES:
        exe = os.path.join(ck.out, f"hist{mode[0]}{'d' if mode[1] else 'n'}.bin")
        exes[mode] = exe
        ok, errs, un = ck.compile(src, exe, ranges, mode=mode)
        if not ok:
            if errs:
                k, m = sorted(errs.items())[0]
                s = next(x for x in sites if x["id"] == k)
                ck.violation(s["src"], None, "the program compiles", "rejected: " + m[0], {"hist": True}, kind="rejected")
                return ck.finish("nothing: the program does not compile")
            try:
                ck.blame(pre, "hist: " + "".join(un)[:2000], mode)
            except PreludeRejected as e:
                ck.prelude_rejected(e)
                return ck.finish("nothing: the declarations do not compile")
    tag = lambda t: [k for k, o in enumerate(ops) if t in o["tags"]]
    spec = {"types": TYPES, "ops": ops, "core": tag("core"), "small": tag("small"), "callbacks": tag("cb"), "once": tag("once"), "count": bool(os.environ.get("COUNT")), "deep": ck.thorough, "cap": 100000 if ck.thorough else 3000,
            "preemptions": dict(zip(("two threads", "two threads, 2+1 calls", "two threads, 2+2 calls", "three threads", "two threads, nested"), (99, 3, 2, 3, 3) if ck.thorough else (2, 1, 1, 2, 1)))}
    path = os.path.join(ck.out, "spec.json")
    json.dump(spec, open(path, "w"), ensure_ascii=False)
    if os.environ.get("HIST_REPLAY"):
        return max(subprocess.run([exe, path, os.environ["HIST_REPLAY"]], env=ENV).returncode for exe in exes.values())
    runs = {}
    for mode, exe in exes.items():
        # preemption inside calls: fewer pairs in the second mode
        spec["less"] = bool(runs)
        # (on a busy machine, what is not done by then is left out and counted)
        spec["seconds"] = (9000 if ck.thorough else 380) if not runs else (5000 if ck.thorough else max(60, 760 - int(time.time() - ck.t0)))
        json.dump(spec, open(path, "w"), ensure_ascii=False)
        # in a session of its own, to end its workers with it
        p = subprocess.Popen([exe, path], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
        try:
            out, err = p.communicate(timeout=20000 if ck.thorough else 600)
        except subprocess.TimeoutExpired:
            raise CheckError("hist does not come to an end")
        finally:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
        if os.environ.get('COUNT'):
            print(err, len(ops), [(t, len(tag(t))) for t in ('core', 'small', 'cb')])
            return
        if p.returncode:
            raise CheckError(f"hist ended with {p.returncode}: {err[-1500:]}")
        runs[mode] = json.loads(out)
        if runs[mode]["violations"]:
            break
        ck.log(mode, runs[mode]["families"], {k: v for k, v in runs[mode].items() if isinstance(v, int)})
    name = lambda sc: sc + "  where " + ", ".join(f"{k}: {o['src']} on {o['input']!r}" for k, o in enumerate(ops) if k in {int(x) for x in __import__('re').findall(r"(?<![@\d,#*])\d+", sc.split("#")[0])})
    seen = set()
    for mode, r in runs.items():
        for sc, got in r["violations"]:
            if sc not in seen:
                seen.add(sc)
                ck.violation(name(sc), None, "every call gives the result it has alone", got, {"hist": [os.path.basename(exes[mode]), os.path.basename(path), sc]}, kind="history")
    ck.extra_violations = sum(r["nviol"] - len(r["violations"]) for r in runs.values())
    total = {k: sum(r[k] for r in runs.values()) for k in ("points", "calls", "schedules", "scenarios", "capped")}
    ck.cov.update(states=total["points"], transitions=total["calls"], traces_validated_against_impl=total["schedules"], scenarios=total["scenarios"], schedules=total["schedules"], calls=total["calls"],
                  operations=len(ops), scenarios_with_capped_schedules=total["capped"])
    r = next(iter(runs.values()))
    ck.cov["samples"] = [{"scenario": name(s)} for s in r["samples"]]
    left = sum(sum(r["families"].values()) + len(ops) - r["scenarios"] for r in runs.values()) if not ck.violations else 0
    ck.cov["scenarios left out for lack of time"] = left
    ck.exhaustive = total["capped"] == 0 and left == 0
    if not ck.violations:
        for exe in exes.values():
            os.unlink(exe)
    ck.assumptions.append("threads are switched where user code runs inside a call, between calls, and at every instruction of the program that has a LOCK prefix, is an XCHG, or has an operand in writable static data; not at plain accesses to the heap and not inside libc")
    return ck.finish(
        "Compiled with and without debug assertions: 94 operations (call sites with the same literal or the same types, types of the same name, generic types, from_str, sscanf_get_regex, user code in FromStr, closures, conversions, defaults, Deref, input expressions, "
        "hand-written and recursive types; accepted, failing and not matching inputs at the same address), each scenario in a fresh process: each call 300 times followed by every other (thorough: 1000), each with a panic at each point of user code or in threads as often, all calls in every rotation, 72 types in one call; all histories a;b;a, a;b;c;a over 20; at every point where user code runs, "
        "every call nested there, run there in a thread, or a panic there followed by other calls, calls nested twice, recursion to depth 7; two threads of one call each with all schedules of up to 2 preemptions, 2+1, 2+2 and nested calls "
        "and three threads with fewer (thorough: 3; single calls without bound). Pairs of calls where at every instruction of the first that works on shared memory (atomics, locks, static data) "
        "the other thread makes its whole call, the first time the regexes are used and later; pairs where the second is preempted at each of its own such instructions as well.")
