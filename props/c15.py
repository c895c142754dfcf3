"""C15: failures are classified errors that lead back to their cause, never panics."""
import itertools
from lib.core import rs, raw
from lib.gen import Sites, call
from lib.dtypes import POOL, st, fld, ph, rep, cls, D09, DER, TYPES, CODE, HAND, NOXERR

PRE = CODE + """
#[derive(Debug)] pub struct Deep(pub u8, pub Option<Box<Deep>>);
impl std::fmt::Display for Deep { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { match &self.1 { Some(d) => write!(f, "level {} of {}", self.0, d), None => write!(f, "root {}", self.0) } } }
impl std::error::Error for Deep { fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { match &self.1 { Some(d) => Some(&**d), None => None } } }
pub fn deep(n: u8) -> Deep { let mut d = Deep(n, None); for k in 0..n { d = Deep(k + 100, Some(Box::new(d))); } d }
#[derive(Debug)] pub struct FD(pub u8);
impl std::str::FromStr for FD { type Err = Deep; fn from_str(s: &str) -> Result<Self, Deep> { match s.strip_prefix("!") { Some(k) => Err(deep(k.len() as u8)), None => Ok(FD(s.len() as u8)) } } }
impl sscanf::RegexRepresentation for FD { const REGEX: &'static str = "!?\\\\+*"; }
#[derive(Debug)] pub struct FT(pub u8);
impl std::convert::TryFrom<char> for FT { type Error = Deep; fn try_from(c: char) -> Result<Self, Deep> { if c.is_ascii_digit() { Ok(FT(c as u8 - 48)) } else { Err(deep(2)) } } }
#[derive(Debug)] pub struct HD<'a>(pub &'a str);
impl<'a> sscanf::RegexRepresentation for HD<'a> { const REGEX: &'static str = "(?:~|(%))(%?)"; }
impl<'t> sscanf::FromScanf<'t> for HD<'t> { type Err = Box<Deep>; const NUM_CAPTURES: usize = 3;
  fn from_matches(src: &mut sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> { let w = src.next().unwrap().unwrap(); let a = src.next().unwrap(); if a.is_some() && src.len() > 0 { if w.as_str() == "%" { src.next(); return Err(Box::new(deep(1))); } } src.next().unwrap(); Ok(HD(w.as_str())) } }
"""
BOOLISH = {"re": rep(cls("az")), "conv": "bool"}
# kind: text in a format, type of a field, option in a derived format, field attribute, node, map, good, bad
K = {
    "u8": ("u8", "u8", "", "", "u8", None, ["7", "+0"], ["300", "٣"]),
    "i16": ("i16", "i16", "", "", "i16", None, ["-7"], ["-40000", "99999"]),
    "i8x": ("i8:x", "i8", ":x", "", "i8:x", None, ["-0x80", "7"], ["0x80", "-FF"]),
    "u8b": ("u8:#b", "u8", ":#b", "", "u8:#b", None, ["0b1"], []),
    "i8r3": ("i8:r3", "i8", ":r3", "", "i8:r3", None, ["-11202"], ["11202"]),
    "nz": ("std::num::NonZeroI8", "std::num::NonZeroI8", "", "", "NonZeroI8", None, ["-5"], ["999"]),
    "nz0": ("std::num::NonZeroU8:/[0-9]*/", "std::num::NonZeroU8", ":/[0-9]*/", "", {"re": rep(D09, 0), "conv": "NonZeroU8"}, None, ["5"], ["0", "", "256"]),
    "chars": ("char:/[ab]*/", "char", ":/[ab]*/", "", {"re": rep(cls("ab"), 0), "conv": "char"}, None, ["a"], ["", "ab"]),
    "boolish": ("bool:/[a-z]+/", "bool", ":/[a-z]+/", "", BOOLISH, None, ["true"], ["tru"]),
    "floaty": ("f32:/[0-9.e]*/", "f32", ":/[0-9.e]*/", "", {"re": rep(cls("09", ".", "e"), 0), "conv": "f32"}, None, ["1.5e3"], ["", "1e", "."]),
    "nox": ("NoX", "NoX", "", "", "@W", None, ["kn"], ["kx"]),
    "fd": ("FD", "FD", "", "", {"re": {"c": [{"r": [{"l": "!"}, 0, 1, True]}, rep({"l": "+"}, 0)]}, "conv": "FD"}, None, ["+", ""], ["!", "!+", "!+++"]),
    "ho": ("HO", "HO", "", "", "@HO", None, ["on", "o2"], ["o3"]),
    "hd": ("HD", None, "", "", {"re": {"c": [{"a": [{"l": "~"}, {"l": "%"}]}, {"r": [{"l": "%"}, 0, 1, True]}]}, "conv": "HD"}, None, ["~", "~%", "%%"], ["%"]),
    "str": ("str", "String", "", "", "str", None, ["x"], []),
    "filter": (None, "i16", "", "#[sscanf(filter_map = |v: i16| if v % 2 == 0 { Some(v / 2) } else { None })]", "i16", "even", ["4"], ["3", "99999"]),
    "try": (None, "u8", "", "#[sscanf(try_from = i16)]", "i16", "u8", ["9"], ["-1", "300", "-40000"]),
    "tryft": (None, "FT", "", "#[sscanf(try_from = char)]", "char", "FT", ["9"], ["z"]),
    "from": (None, "i32", "", "#[sscanf(from = i16)]", "i16", None, ["9"], ["99999"]),
    "mapx": (None, "u32", ":x", "#[sscanf(map = |v: u8| v as u32 + 1)]", "u8:x", "inc", ["9"], ["0x100"]),
    "U": ("U", "U", "", "", "@U", None, ["u7"], ["u300"]),
    "E": ("E", "E", "", "", "@E", None, ["a", "bc7"], ["b300", "xc400"]),
    "N": ("N", "N", "", "", "@N", None, ["[a|1,2]"], ["[b300|1,200]", "[a|1,200]"]),
    "M": ("M", "M", "", "", "@M", None, ["1;2;3;4"], ["1;3;3;-4", "1;2;3;-4", "1;2;300;-4"]),
    "R": ("R", "R", "", "", "@R", None, ["0xFr1"], ["1r1212"]),
}
K = {k: v for k, v in K.items()}

# wrappers: (declaration, node, prefix pieces, suffix pieces) for a type or, at the innermost level, for a kind


def wrap(how, n, field, node, m):
    """field: (attribute, type, option)"""
    a, t, o = field
    f = lambda name, src: fld(name, src, m)
    if how == "tuple":
        return (f'#[sscanf("({{{o}}})")] pub struct {n}({a} {t});', st(["(", ph(node), ")"], n, "tuple", f(0, 0)), ["("], [")"])
    if how == "named":
        # fails later as well; the fields in another order than the placeholders
        return (f'#[sscanf("{{q}}<{{v{o}}}>{{p}}")] pub struct {n} {{ p: u8, {a} v: {t}, q: i8, #[sscanf(default)] d: u8 }}',
                st([ph("i8"), "<", ph(node), ">", ph("u8")], n, "named", fld("p", 2), f("v", 1), fld("q", 0), fld("d", const="0")), ["1<", "200<"], [">1", ">256"])
    if how == "trans" and not o:
        return (f"#[sscanf(transparent)] pub struct {n}({a} {t});", st([ph(node)], n, "tuple", f(0, 0)), [""], [""])
    if how == "first":
        return (f'pub enum {n} {{ #[sscanf("1{{{o}}}")] A({a} {t}), #[sscanf("{{}}{{}}")] B(char, U), #[sscanf("{{}}")] C(String) }}',
                {"name": n, "enum": [st(["1", ph(node)], "A", "tuple", f(0, 0)), st([ph("char"), ph("@U")], "B", "tuple", fld(0, 0), fld(1, 1)), st([ph("str")], "C", "tuple", fld(0, 0))]}, ["1", "2"], [""])
    if how == "last":
        return (f'pub enum {n} {{ #[sscanf("({{}}")] A(u8), #[sscanf(".{{}}-{{}}")] B(E, u8), #[sscanf(".{{v{o}}}")] C {{ {a} v: {t} }}, N }}',
                {"name": n, "enum": [st(["(", ph("u8")], "A", "tuple", fld(0, 0)), st([".", ph("@E"), "-", ph("u8")], "B", "tuple", fld(0, 0), fld(1, 1)), st([".", ph(node)], "C", "named", f("v", 0))]}, ["."], ["", "-4", "-400"])
    if how == "tvar" and not o:
        return (f"pub enum {n} {{ #[sscanf(transparent)] A {{ {a} v: {t} }}, #[sscanf(\"none\")] B }}", {"name": n, "enum": [st([ph(node)], "A", "named", f("v", 0)), st(["none"], "B", "unit")]}, [""], [""])
    return None


WRAPS = ["tuple", "named", "trans", "first", "last", "tvar"]


def main(ck):
    S = Sites()
    # A: every sequence of kinds in a format; first failing placeholder
    inline = [k for k in K if K[k][0]]
    for n in (1, 2, 3):
        pool = inline if n < 3 else (inline if ck.thorough else ["u8", "i8x", "chars", "fd", "hd", "str", "E", "M"])
        for seq in itertools.product(pool, repeat=n):
            fmt = " ".join("{%s}" % K[k][0] for k in seq)
            items, prod = [], []
            for j, k in enumerate(seq):
                if j:
                    items.append(" ")
                    prod.append([" "])
                items.append(ph(K[k][4]))
                prod.append(K[k][6][:2 if n > 2 else 9] + K[k][7][:2 if n > 2 else 9])
            S.add(call(raw(fmt)), items, [{"product": prod, "edits": "1 " if n < 3 else ""}], deep=True, src=f"sscanf!(input, {raw(fmt)})")
    # B: every kind inside one to three derived types
    deepk = list(K) if ck.thorough else ["u8", "filter", "tryft", "hd", "E"]
    for k, (_, ty, opt, attr, node, m, good, bad) in K.items():
        if ty is None:
            continue
        for depth in (1, 2, 3):
            if depth == 3 and k not in deepk:
                continue
            for hows in itertools.product(WRAPS, repeat=depth):
                decls, field, cur, mm, prod = "", (attr, ty, opt), node, m, [good[:2] + bad[:2]]
                for d, how in enumerate(hows):
                    w = wrap(how, f"L{d}", field, cur, mm)
                    if w is None:
                        break
                    decls += DER + w[0] + " "
                    cur, mm, field = w[1], None, ("", f"L{d}", "")
                    prod = [w[2]] + prod + [w[3]]
                else:
                    n = f"L{depth - 1}"
                    src = decls.replace(DER, "")
                    S.add(f'res(sscanf::sscanf!(i, "{{u8}}:{{{n}}}"))', [ph("u8"), ":", ph(cur)], [{"product": [["5", "256"], [":"]] + prod}], decl=decls, deep=True, src=f"{{u8}}:{{{n}}} with " + src)
                    if depth < 3:
                        S.add(f"res(<{n} as sscanf::FromScanf>::from_str(i))", [ph(cur)], [{"product": prod, "edits": "1" if depth < 2 else ""}], decl=decls, deep=True, src="from_str: " + src)
    # C: no input makes a call panic, and an input that does not fit is MatchFailed
    for k, v in K.items():
        if v[0] is None:
            continue
        alpha = "".join(dict.fromkeys("".join(v[6] + v[7]) + "é\n9"))
        S.add(call(raw("{%s}" % v[0])), [ph(v[4])], [{"alpha": alpha[:9], "max": 6 if ck.thorough else 4}, {"product": [v[6] + v[7]], "edits": alpha + "٣\r\0𝟙😀\u0301 "}], deep=True, src="{%s} on all short texts" % v[0])
    for n, t in POOL.items():
        alpha = "".join(dict.fromkeys("".join(t["pieces"] + t["bad"]) + "é\n9"))
        S.add(f'res(sscanf::sscanf!(i, "{{{t["ty"]}}}"))', [ph("@" + n)], [{"alpha": alpha[:9], "max": 5 if ck.thorough else 4}, {"product": [t["pieces"] + t["bad"]], "edits": alpha + "٣\r\0𝟙😀\u0301 "}], deep=True, may_be_empty=True, src="{%s} on all short texts" % t["ty"])
    ck.run_sites(S.sites, S.inputs, types=TYPES, prelude=PRE)
    return ck.finish(
        "25 kinds of placeholders and fields that can fail (integers, radixes, non-zero, char/bool/float/NonZero with a wider regex, FromStr with error chains, hand-written, filter_map, try_from, from, map, nested) "
        "in every format of one and two (three: 8 kinds) and inside every one and two (three: 5 kinds) of six derived wrappers, failing pieces at every subset of the positions; "
        "names along the chain and the original message compared; all short texts over each type's alphabet for panics.")
