"""C17: borrowed results live as long as the input, owned ones longer; the input is only borrowed."""
import itertools
from lib.core import rs, raw
from lib.gen import Sites
from lib.dtypes import st, fld, ph

D = "#[derive(Debug, sscanf::FromScanf)] "
PRE = "pub use std::borrow::Cow; pub extern crate alloc; use std::marker::PhantomData as PD;" + "\n".join(D + x for x in [
    '#[sscanf("<{}>")] pub struct L1<\'a>(pub &\'a str);',
    '#[sscanf("{b}{a}")] pub struct L2<\'x> { pub a: Cow<\'x, str>, pub b: char }',
    '#[sscanf("{b:/</}{a}")] pub struct L3<\'a, \'b> { pub a: &\'a str, pub b: Cow<\'b, str> }',
    'pub enum LE<\'a> { #[sscanf("({}")] B(u8), #[sscanf("<{}")] A(&\'a str), #[sscanf("x{a}{b}")] C { a: Cow<\'a, str>, b: &\'a str } }',
    'pub enum LE2<\'b, \'a> { #[sscanf("<{}")] A(&\'a str), #[sscanf("({}")] B(&\'b str) }',
    '#[sscanf("{}")] pub struct LM<\'a>(#[sscanf(map = |s: &\'a str| s.trim_matches(\'<\'))] pub &\'a str);',
    '#[sscanf("{s}")] pub struct LF<\'a> { #[sscanf(filter_map = |s: &\'a str| s.strip_prefix(\'<\'))] pub s: &\'a str }',
    '#[sscanf("{t}{s}")] pub struct LG<\'a, T: Default + From<u8>> { pub s: &\'a str, #[sscanf(map = |c: char| T::from(c as u8))] pub t: T }',
    '#[sscanf("{}{}")] pub struct LP<\'a, \'c>(pub &\'a ::std::primitive::str, pub ::std::borrow::Cow<\'c, core::primitive::str>);',
    '#[sscanf("{}{}")] pub struct LP2<\'a>(pub alloc::borrow::Cow<\'a, str>, pub &\'a std::primitive::str);',
    '#[sscanf("{}")] pub struct LB<\'a: \'b, \'b>(pub &\'a str, #[sscanf(default = "x")] pub &\'b str);',
    '#[sscanf("{}")] pub struct LC<\'a, const K: usize>(#[sscanf(map = |s: &\'a str| [s; K])] pub [&\'a str; K]);',
    '#[sscanf(transparent)] pub struct LT<\'a>(pub &\'a str);',
    'pub enum LTE<\'a> { #[sscanf(transparent)] A(Cow<\'a, str>) }',
    '#[sscanf("{}")] pub struct LW<\'a, T>(pub &\'a str, #[sscanf(default = PD)] pub PD<T>) where T: Clone;',
    '#[sscanf("{}")] pub struct LD<\'a, T = u8>(pub &\'a str, #[sscanf(default = PD)] pub PD<T>);',
    '#[sscanf("{}")] pub struct LV<\'a>(#[sscanf(map = |s: &\'a str| s.chars().map(|_| s).collect())] pub Vec<&\'a str>);',
    '#[sscanf(format_unescaped = "<?{}")] pub struct LU<\'a>(pub &\'a str);',
    '#[sscanf("{}")] pub struct LS(pub &\'static str);',
    '#[sscanf("{0}{1}")] pub struct LS2<\'a>(pub Cow<\'static, str>, pub &\'a str);',
    '#[sscanf("{}{}")] pub struct LO(pub char, pub String);',
    '#[sscanf("{}")] pub struct LN(#[sscanf(map = |s: &str| s.len())] pub usize);',
    '#[sscanf("{}")] pub struct LN2(#[sscanf(from = &str)] pub String, #[sscanf(default)] pub u8);',
    '#[sscanf("{:/.+?/}")] pub struct LT2<T: std::str::FromStr + sscanf::RegexRepresentation + \'static>(pub T) where T::Err: std::error::Error;',
    '#[sscanf("{}")] pub struct LI(pub LO, #[sscanf(default)] pub u8);',
    '#[sscanf("{}")] pub struct LZ<\'z>(pub String, #[sscanf(default)] pub Option<&\'z str>);',
    'pub enum LZE<\'z> { #[sscanf("<{}")] A(String, #[sscanf(default = Cow::Borrowed("z"))] Cow<\'z, str>), #[sscanf("x")] X, #[sscanf(skip)] Y(&\'z str) }',
    '#[sscanf("{b}")] pub struct LZ2<\'a, \'z> { #[sscanf(default = &[])] pub a: &\'z [u8], pub b: &\'a str }',
    '#[sscanf("{}")] pub struct LZM<\'z>(#[sscanf(map = |s: &str| if s.is_empty() { "e" } else { "n" })] pub &\'z str);',
    '#[sscanf("{}")] pub struct LZF<\'y, \'z>(#[sscanf(filter_map = |s: &\'y str| s.strip_prefix(\'<\'))] pub &\'y str, #[sscanf(default = None)] pub Option<fn(&\'z str) -> &\'z str>);',
    'pub enum LEO { #[sscanf("<{}")] A(String), #[sscanf("x")] X }',
]) + """
#[derive(Debug)] pub struct HB<'a>(pub &'a str);
impl<'a> sscanf::RegexRepresentation for HB<'a> { const REGEX: &'static str = ".+?"; }
impl<'t> sscanf::FromScanf<'t> for HB<'t> { type Err = std::convert::Infallible; const NUM_CAPTURES: usize = 1;
  fn from_matches(src: &mut sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> { Ok(HB(src.next().unwrap().unwrap().as_str())) } }
#[derive(Debug)] pub struct FO(pub usize);
impl std::str::FromStr for FO { type Err = std::num::ParseIntError; fn from_str(s: &str) -> Result<Self, Self::Err> { Ok(FO(s.len())) } }
impl sscanf::RegexRepresentation for FO { const REGEX: &'static str = ".+?"; }
pub struct Hold { pub s: String, pub n: (u8, String), pub b: Box<str> }
pub struct Der(pub String, pub u8);
impl std::ops::Deref for Der { type Target = str; fn deref(&self) -> &str { &self.0 } }
pub static TXT: &str = "<ab>"; pub static OWN: std::sync::LazyLock<String> = std::sync::LazyLock::new(|| "<ab>".to_string()); pub const CT: &str = "<ab>";
pub fn us<T: std::fmt::Debug>(_: &T) {} pub fn rd<T: ?Sized>(_: &T) {} pub fn mt<T>(_: &mut T) {} pub fn stc<T: 'static>(_: &T) {} pub fn idf<T>(t: T) -> T { t }
pub fn ov<'t, T: sscanf::FromScanf<'t> + sscanf::RegexRepresentation>(s: &'t str) -> T { T::from_str(s).ok().unwrap() }
"""
# type in a placeholder, Rust type with lifetime holes, kind: b(orrowed) o(wned) s(tatic input needed)
TY = {
    "u8": ("u8:/.*/", "u8", "o"), "String": ("String", "String", "o"), "LO": ("LO", "LO", "o"), "LN": ("LN", "LN", "o"), "LN2": ("LN2", "LN2", "o"),
    "LT2": ("LT2<FO>", "LT2<FO>", "o"), "LI": ("LI", "LI", "o"), "LEO": ("LEO", "LEO", "o"), "FO": ("FO", "FO", "o"), "2o": ("char}{String", "(char, String)", "o"),
    "str": ("str", "&{0} str", "b"), "&str": ("&str", "&{0} str", "b"), "Cow": ("Cow<str>", "Cow<{0}, str>", "b"), "Cow2": ("std::borrow::Cow<str>", "Cow<{0}, str>", "b"),
    "2b": ("char}{str", "(char, &{0} str)", "b"), "2c": ("Cow<str>}{str", "(Cow<{0}, str>, &{1} str)", "b"),
    "L1": ("L1", "L1<{0}>", "b"), "L2": ("L2", "L2<{0}>", "b"), "L3": ("L3", "L3<{0}, {1}>", "b"), "LE": ("LE", "LE<{0}>", "b"), "LE2": ("LE2", "LE2<{0}, {1}>", "b"),
    "LM": ("LM", "LM<{0}>", "b"), "LF": ("LF", "LF<{0}>", "b"), "LG": ("LG<u16>", "LG<{0}, u16>", "b"), "LP": ("LP", "LP<{0}, {1}>", "b"), "LP2": ("LP2", "LP2<{0}>", "b"),
    "LB": ("LB", "LB<{0}, {0}>", "b"), "LC": ("LC<2>", "LC<{0}, 2>", "b"), "LT": ("LT", "LT<{0}>", "b"), "LTE": ("LTE", "LTE<{0}>", "b"), "LW": ("LW<u8>", "LW<{0}, u8>", "b"),
    "LD": ("LD", "LD<{0}>", "b"), "LV": ("LV", "LV<{0}>", "b"), "LU": ("LU", "LU<{0}>", "b"), "HB": ("HB", "HB<{0}>", "b"),
    "LZ": ("LZ", "LZ<'static>", "o"), "LZt": ("LZ<'static>", "LZ<'static>", "o"), "LZE": ("LZE", "LZE<'static>", "o"), "LZ2": ("LZ2", "LZ2<{0}, 'static>", "b"), "LZ2t": ("LZ2<'_, 'static>", "LZ2<{0}, 'static>", "b"),
    "LZM": ("LZM", "LZM<'static>", "o"), "LZF": ("LZF", "LZF<{0}, 'static>", "b"),
    "LS": ("LS", "LS", "s"), "LS2": ("LS2", "LS2<{0}>", "s"),
}
# owner's initial value, inner let, input expression; v borrows o (w), r borrows o (R), v depends on r (r),
# mut: through &mut, drop: r has a destructor that uses the borrow, st: the input is static, fieldonly: the rest of o stays free
S_ = 'String::from("<ab>")'
HOLD = f'Hold {{ s: {S_}, n: (1, {S_}), b: "<ab>".into() }}'
INP = []


def inp(o, let, expr, flags):
    INP.append((o, let, expr, set(flags.split())))


for e in ["o", "&o", "o.as_str()", "&o[..]", "&&o", "o[..]", "(o)", "{ &o }", "*&o", "o.trim()", "(|| &o)()", "Cow::Borrowed(&o[..]).as_ref().to_owned().len().to_string().as_str().len().checked_add(0).map(|_| &o).unwrap()"]:
    inp(S_, "", e, "w")
for t in ["Box::<str>::from(\"<ab>\")", "std::rc::Rc::<str>::from(\"<ab>\")", "std::sync::Arc::<str>::from(\"<ab>\")", "Cow::<'static, str>::from(\"<ab>\")", f"Cow::<'static, str>::from({S_})",
          f"Box::new({S_})", f"std::rc::Rc::new({S_})", f"Der({S_}, 1)", f"std::mem::ManuallyDrop::new({S_})", f"Box::new(Box::<str>::from(\"<ab>\"))"]:
    for e in ["o", "&o", "*o", "&*o"]:
        inp(t, "", e, "w")
for let, es in [("let r = &o[..];", ["r", "*r", "&r", "&&r", "r[..]", "&r[0..]", "{ r }", "if true { r } else { \"x\" }", "match r { \"zz\" => \"x\", k => k }", "loop { break r }", "unsafe { r }", "(|| r)()", "(move |k| k)(r)", "idf(r)", "r.trim()", "r as &str", "r.get(..).unwrap()", "Some(r).unwrap()", "[r, \"x\"][0]", "(r, 1).0", "{ let q = r; q }", "<str as AsRef<str>>::as_ref(r)"]),
                ("let r = &o;", ["r", "*r", "&*r", "&**r", "r.as_str()", "&r[..]"]), ("let r = &&o;", ["r", "*r", "**r"]), ("let r: &Der = &Der(String::new(), 0); let r: &str = if r.1 == 0 { &o } else { \"\" };", ["r"]),
                ("let r = Box::new(&o[..]);", ["r", "*r", "**r"]), ("let r = std::rc::Rc::new(&o[..]);", ["r", "*r", "**r", "&r"]), ("let r = Cow::Borrowed(&o[..]);", []), ("let r = vec![&o[..]];", ["r[0]", "*r[0]", "r.first().unwrap()"]),
                ("let r = (0, &o[..]);", ["r.1", "*r.1"]), ("let r = [&o[..], \"\"];", ["r[0]"]), ("let r = Some(&o[..]);", ["r.unwrap()", "r.as_ref().unwrap()"])]:
    for e in es:
        inp(S_, let, e, "w R")
inp(S_, "let r = Cow::Borrowed(&o[..]);", "r", "w R r")
inp(S_, "let r = &mut o;", "r", "w R r mut")
for e in ["*r", "&*r", "&r[..]", "r.as_str()", "**r"]:
    inp(S_, "let r = &mut o;", e, "w R mut r" if e in () else "w R mut")
for let, es in [("let r = o.clone();", ["r", "&r", "r[..]"]), ("let r = o.clone().into_boxed_str();", ["r", "*r"]), ("let r: std::rc::Rc<str> = o.as_str().into();", ["r", "&*r"]), ("let r = [o.clone()];", ["r[0]", "&r[0]"]),
                ("let r = Der(o.clone(), 1);", ["r", "*r", "&r"]), ("let r = Cow::<str>::Owned(o.clone());", ["r", "&r"]), ("let r = Some(o.clone());", ["r.as_ref().unwrap()", "r.as_deref().unwrap()"])]:
    for e in es:
        inp(S_, let, e, "r")
for e in ["r", "*r", "&r", "&*r"]:
    inp(f"std::cell::RefCell::new({S_})", "let r = o.borrow();", e, "r R drop")
    inp(f"std::sync::Mutex::new({S_})", "let r = o.lock().unwrap();", e, "r R drop")
for e in ["o.s", "&o.s", "o.n.1", "o.b", "*o.b", "o.s[..]", "(o.s)"]:
    inp(HOLD, "", e, "w field")
for e in ["r.s", "&r.s", "r.n.1", "r.b", "*r.b", "r.s[..]"]:
    inp(HOLD, "let r = &o;", e, "w R")
inp(HOLD, "let r = &o.s;", "r", "w R field")
inp(HOLD, "let r = &o.s;", "*r", "w R field")
for t in [f"vec![{S_}]", f"[{S_}, String::new()]"]:
    for e in ["o[0]", "&o[0]", "o[0][..]", "o[idf(0)]", "o.iter().next().unwrap()"]:
        inp(t, "", e, "w")
inp(f"std::collections::BTreeMap::from([(1, {S_})])", "", "o[&1]", "w")
for e in ['"<ab>"', "TXT", "CT", "OWN", "&*OWN", "(CT)", "&TXT[..]", "*TXT", "{ CT }", 'concat!("<a", "b>")', 'if true { TXT } else { "x" }']:
    inp(S_, "", e, "st")
for e in ["r", "*r"]:
    inp(S_, "let r = TXT;", e, "st")
    inp(S_, "let r: &'static String = Box::leak(Box::new(o.clone()));", e, "st")


def expected(i, kind, evs):
    """None if the program is fine, or why it must be rejected"""
    fl = i[3]
    hasr = bool(i[1])
    vo = kind != "o" and "w" in fl  # v borrows o
    vr = kind != "o" and "r" in fl  # v borrows r
    if kind == "s" and "st" not in fl:
        return "the input is not static"
    if "E" not in evs:
        evs = evs + ("E",)
    E = evs.index("E")
    ro = "R" in fl
    gone = False
    for p, e in enumerate(evs):
        v_later = any(x in "US" for x in evs[p + 1:])
        r_later = any(x == "Q" for x in evs[p + 1:]) or ("drop" in fl and E > p)
        if e == "S" and (vo or vr):
            return "not static"
        if e in "DMRN":
            if gone:
                return "o was moved"
            conflict = (vo and v_later) or (ro and r_later)
            if "RefGuard" in fl:
                pass
            if ro and vr and v_later:
                conflict = True
            if conflict and (e in "DM" or (e == "R" and "mut" in fl) or (e == "N" and "field" not in fl)):
                return f"o is borrowed at event {p}"
        if e == "D":
            gone = True
        if e == "E" and vr and v_later:
            return "r is gone"
    return None


EV = {"U": "us(&v);", "S": "stc(&v);", "D": "drop(o);", "M": "mt(&mut o);", "R": "rd(&o);", "Q": "rd(&r);", "E": "}", "N": "o.n.0 = 3;"}
# for Hold: which disjoint field is written; o.n.1 is the input in one case, and n.0 is disjoint from it as well


def program(i, t, evs, call):
    o, let, e, fl = i
    body = "".join(EV[x] for x in evs) + ("" if "E" in evs else "}")
    return f"pub fn f() {{ let mut o = {o}; let v; {{ {let} v = {call}; {body} }}"


def seqs(n, alphabet):
    for k in range(n + 1):
        for s in itertools.product(alphabet, repeat=k):
            if s.count("E") > 1 or s.count("S") > 1 or s.count("D") > 1 or any(a == b for a, b in zip(s, s[1:])):
                continue
            if "E" in s and "Q" in s[s.index("E"):]:
                continue
            yield s


def sscanf(e, t, macro="sscanf"):
    return f'sscanf::{macro}!({e}, "{{{TY[t][0]}}}").unwrap()'


def main(ck):
    progs = []
    keys = set()

    def add(code, accept, why=""):
        if code not in keys:
            keys.add(code)
            progs.append({"code": code, "src": code, "accept": accept, "why": why})

    # A: events. REPR: one input of each borrowing behaviour
    repr_ = {}
    for i in INP:
        repr_.setdefault((frozenset(i[3]), bool(i[1])), i)
    some = [tuple(x) for x in ["U", "S", "DU", "MU", "RU", "EU", "EDU", "UDR", "UED", "UQ", "MQ", "DQ", "NU"]]
    for k, i in enumerate(INP):
        al = "USDMRE" + ("Q" if i[1] else "") + ("N" if i[0] == HOLD else "")
        for j, (t, (_, _, kind)) in enumerate(TY.items()):
            here = [x for x in some if set(x) <= set(al)]
            if t in ("u8", "L1") and i in repr_.values():
                here = [x for x in seqs(3, al) if ck.thorough or len(x) < 3 or x[-1] in "US" and (t == "L1" or "S" not in x)]
            elif t not in ("L1",) and not ck.thorough:
                # the other types: with every 5th input, the sequences in turn
                here = [x for m, x in enumerate(here) if (k + j) % 5 == 0 and (k // 5 + m) % 2 == 0]
            for evs in here:
                why = expected(i, kind, evs)
                add(program(i, t, evs, sscanf(i[2], t)), why is None, why)
    nA = len(progs)
    # B: signatures
    lts = ["'a", "'b", "'static"]
    for t, (phs, ty, kind) in TY.items():
        holes = 2 if "{1}" in ty else 1 if "{0}" in ty else 0
        for lin, intype, bound in itertools.product(["'a", "'static"], ["str", "String", "Hold"], ["", "where 'a: 'b", "where 'b: 'a"]):
            for assign in itertools.product(lts, repeat=holes):
                rt = ty.format(*assign)
                ok = all(lin == "'static" or x == lin or (x == "'b" and bound == "where 'a: 'b") for x in assign) and (kind != "s" or lin == "'static")
                s = {"str": "s", "String": "s", "Hold": "s.s"}[intype]
                calls = [f'sscanf::sscanf!({s}, "{{{phs}}}").ok()']
                if t not in ("u8", "2o", "str", "&str", "Cow", "Cow2", "2b", "2c") and intype == "str" and (bound == "" or ck.thorough):
                    calls += [f"<{ty.format(*['_' and chr(39) + '_'] * 2)} as sscanf::FromScanf>::from_str(s).ok()" if holes else f"<{rt} as sscanf::FromScanf>::from_str(s).ok()",
                              f'Some(ov::<{rt}>(s))']
                if intype == "str" and (bound == "" or ck.thorough):
                    calls += [f'sscanf::sscanf_unescaped!(s, "{{{phs}}}").ok()']
                if intype != "str" and bound and not ck.thorough:
                    continue
                for c in calls:
                    add(f"pub fn f<'a, 'b>(s: &{lin} {intype}, t: &'b u8) -> Option<{rt}> {bound} {{ {c} }}", ok, "lifetime in the signature")
        el = ty.format("'_", "'_")
        if kind != "s":
            add(f'pub fn f(s: &str) -> Option<{el}> {{ sscanf::sscanf!(s, "{{{phs}}}").ok() }}', True)
            add(f'pub fn f(s: &mut String) -> Option<{el}> {{ sscanf::sscanf!(*s, "{{{phs}}}").ok() }}', True)
            add(f'pub fn f(s: &mut String) -> Option<{el}> {{ sscanf::sscanf!(s, "{{{phs}}}").ok() }}', kind == "o", "through a local variable")
            add(f'pub fn f(s: String) -> Option<{ty.format(*["%sstatic" % chr(39)] * 2)}> {{ sscanf::sscanf!(s, "{{{phs}}}").ok() }}', kind == "o", "local input")
            # parser structs
            for self_, ret in itertools.product(["&self", "&mut self", "self", "&'s self"], ["'i", "'_", "'s"]):
                if ret == "'_" and self_ == "self" and holes:
                    continue
                rt = ty.format(ret, ret)
                g = "<'s>" if "'s" in self_ + (rt if holes else "") else ""
                if g and self_ != "&'s self":
                    continue
                add(f"pub struct P<'i> {{ rest: &'i str, n: u8 }} impl<'i> P<'i> {{ pub fn go{g}({self_}) -> Option<{rt}> {{ sscanf::sscanf!(self.rest, \"{{{phs}}}\").ok() }} }}", True)
            for ret in ["'i", "'_"]:
                rt = ty.format(ret, ret)
                add(f"pub struct P<'i> {{ own: String, n: &'i u8 }} impl<'i> P<'i> {{ pub fn go(&self) -> Option<{rt}> {{ sscanf::sscanf!(self.own, \"{{{phs}}}\").ok() }} }}", ret == "'_" or not holes, "borrowed from self")
            # generic inputs
            add(f'pub fn f<S: std::ops::Deref<Target = str>>(s: &S) -> Option<{el}> {{ sscanf::sscanf!(s, "{{{phs}}}").ok() }}', True)
            add(f'pub fn f<S: std::ops::Deref<Target = str>>(s: S) {{ let v = sscanf::sscanf!(s, "{{{phs}}}").unwrap(); us(&v); drop(s); }}', True)
            add(f'pub fn f<S: std::ops::Deref<Target = str>>(s: S) {{ let v = sscanf::sscanf!(s, "{{{phs}}}").unwrap(); drop(s); us(&v); }}', kind == "o", "use after drop")
            add(f'pub fn f<S: AsRef<str> + ?Sized>(s: &S) -> Option<{el}> {{ sscanf::sscanf!(s.as_ref(), "{{{phs}}}").ok() }}', True)
            add(f'pub fn f(s: impl AsRef<str>) -> impl std::fmt::Debug {{ sscanf::sscanf!(s.as_ref(), "{{{phs}}}").ok() }}', kind == "o", "local input")
            # loops and closures
            coll = f'let mut out = vec![]; for line in text.lines() {{ out.push(sscanf::sscanf!(line, "{{{phs}}}").unwrap()); }}'
            add(f'pub fn f(text: String) {{ {coll} us(&out); }}', True)
            add(f'pub fn f(text: String) {{ {coll} drop(text); us(&out); }}', kind == "o", "use after drop")
            add(f'pub fn f(text: String) {{ let mut out = vec![]; for line in text.lines() {{ let own = line.to_string(); out.push(sscanf::sscanf!(own, "{{{phs}}}").unwrap()); }} us(&out); }}', kind == "o", "the copy is gone")
            add(f'pub fn f(text: &str) -> Result<Vec<{el}>, sscanf::Error> {{ text.lines().map(|l| sscanf::sscanf!(l, "{{{phs}}}")).collect() }}', True)
            add(f'pub fn f(text: Vec<String>) -> Result<Vec<{ty.format(*["%sstatic" % chr(39)] * 2)}>, sscanf::Error> {{ text.iter().map(|l| sscanf::sscanf!(l, "{{{phs}}}")).collect() }}', kind == "o", "local input")
            add(f'pub fn f(text: String) {{ let c = || sscanf::sscanf!(text, "{{{phs}}}").unwrap(); us(&c()); us(&c()); rd(&text); }}', True)
            add(f'pub fn f(text: String) {{ let v = std::thread::spawn(move || sscanf::sscanf!(text, "{{{phs}}}").unwrap()).join().unwrap(); us(&v); }}', kind == "o", "result leaves the thread")
            add(f'pub fn f(text: String) {{ std::thread::scope(|s| {{ let v = s.spawn(|| sscanf::sscanf!(text, "{{{phs}}}").unwrap()).join().unwrap(); us(&v); }}); rd(&text); }}', True)
            if t not in ("u8", "2o", "str", "&str", "Cow", "Cow2", "2b", "2c"):
                ow = ty.format("'static", "'static")
                add(f"pub fn g<T: for<'x> sscanf::FromScanf<'x> + sscanf::RegexRepresentation>(s: String) -> T {{ T::from_str(&s).ok().unwrap() }} pub fn f() {{ us(&g::<{ow}>(String::new())); }}", kind == "o" or None, "not for every input")
        # the error is independent of the input
        add(f'pub fn f() {{ let e = {{ let s = {S_}; sscanf::sscanf!(s, "{{{phs}}}").map(drop).unwrap_err() }}; stc(&e); us(&e); }}' if kind != "s" else
            f'pub fn f() {{ let e = sscanf::sscanf!("", "{{{phs}}}").map(drop).unwrap_err(); stc(&e); us(&e); }}', True)
    ck.log(f"{nA} event programs, {len(progs) - nA} signatures")
    ck.check_verdicts(progs, PRE, expand_only=False)

    # run-time: the input is evaluated once, is still there afterwards, and each form gives the same result
    S = Sites()
    nd = {"str": "str", "String": "str", "Cow": "str", "L1": st(["<", ph("str"), ">"], "L1", "tuple", fld(0, 0)),
          "L3": st([ph({"re": {"l": "<"}, "conv": "str"}), ph("str")], "L3", "named", fld("a", 1), fld("b", 0)),
          "LO": st([ph("char"), ph("str")], "LO", "tuple", fld(0, 0), fld(1, 1)),
          "LE": {"name": "LE", "enum": [st(["(", ph("u8")], "B", "tuple", fld(0, 0)), st(["<", ph("str")], "A", "tuple", fld(0, 0)), st(["x", ph("str"), ph("str")], "C", "named", fld("a", 0), fld("b", 1))]},
          "LS": st([ph("str")], "LS", "tuple", fld(0, 0)), "LT": st([ph("str")], "LT", "tuple", fld(0, 0)),
          "LTE": {"name": "LTE", "enum": [st([ph("str")], "A", "tuple", fld(0, 0))]}, "LI": st([ph(st([ph("char"), ph("str")], "LO", "tuple", fld(0, 0), fld(1, 1)))], "LI", "tuple", fld(0, 0), fld(1, const="0"))}
    spec = [{"unframed": True, "alpha": "<>(x1é", "max": 5 if ck.thorough else 4}]
    for (o, let, e, fl), t in itertools.product(INP, nd):
        # all forms with str, the other types with every third form
        if t != "str" and not ck.thorough and (INP.index((o, let, e, fl)) + list(nd).index(t)) % 4:
            continue
        if "st" in fl or "CT" in e or (TY[t][2] == "s"):
            continue
        oo = o.replace(S_, "String::from(i)").replace('"<ab>"', "i").replace("Cow::<'static, str>", "Cow::<str>")
        for macro in ("sscanf", "sscanf_unescaped"):
            S.add(f"let n = std::cell::Cell::new(0); let mut o = {oo}; {let} let ret = res(sscanf::{macro}!({{ n.set(n.get() + 1); &({e}) }}, \"{{{TY[t][0]}}}\")); "
                  f"let two = res(sscanf::{macro}!({e}, \"{{{TY[t][0]}}}\")); {'rd(&r);' if let else ''} "
                  "if n.get() != 1 { return O::Panic(format!(\"input evaluated {} times\", n.get())); } if format!(\"{ret:?}\") != format!(\"{two:?}\") { return O::Panic(format!(\"block {ret:?}, directly {two:?}\")); } ret",
                  [ph(nd[t])], spec, may_be_empty=True)
    for t in nd:
        for e in ["i", "*i", "&i", "i[..]", "{ i }"]:
            S.add(f"let i: &'static str = Box::leak(i.to_string().into_boxed_str()); res(sscanf::sscanf!({e}, \"{{{TY[t][0]}}}\"))", [ph(nd[t])], spec, may_be_empty=True)
    ck.run_sites(S.sites, S.inputs, prelude=PRE)
    ck.assumptions.append("rustc's borrow checker decides what a program may do with a value; the expected verdict comes from a model of loans on the owner and on the variable holding the input")
    return ck.finish(
        f"{nA} programs: 165 input expressions (places, references, smart pointers, &mut, fields, elements, guards, custom Deref, blocks, statics) x 35 result types x sequences of events after the call "
        "(use, use as 'static, drop / change / read the owner, use / end of the variable holding the input, change of a sibling field): all sequences up to length 3 for each kind of borrow with an owned and a borrowed result, "
        "13 sequences for every input; every assignment of 'a, 'b, 'static to the lifetimes of every result type in function signatures, parser structs, loops, closures, threads, generic inputs; "
        "errors outlive the input; at run time each input form is evaluated once, stays usable and gives the model's result.")
