"""C08: each placeholder is bound to the type its index, position or name says."""
import itertools
from lib.core import rs, raw
from lib.gen import Sites, call, ret_of
from lib import fmtref
from lib.bindgen import model_items

PATS = {"[0-9]": {"s": [["0", "9"]]}, "[1-3]+": {"r": [{"s": [["1", "3"]]}, 1, None, True]}}
LISTS = [[], ["u8"], ["i16"], ["u8", "i16"], ["u8", "u8"], ["u8", "i16", "u32"], ["char", "u8", "char"]]
PLAIN = ["{}", "{0}", "{1}", "{2}", "{3}", "{char}", "{u16}"]
OPTED = ["{:x}", "{0:x}", "{1:#b}", "{2:r3}", "{i64:o}", "{:/[0-9]/}", "{0:/[1-3]+/}", "{str:/[0-9]/}", "{3:x}"]
KNOWN = {t: 1 for t in ("u8", "i16", "u16", "u32", "i64", "char", "str", "f32", "bool", "String")}


def main(ck):
    fmts = []
    for n in range(0, 4):
        fmts += itertools.product(PLAIN, repeat=n)
    for n in (1, 2):
        fmts += itertools.product(PLAIN + OPTED, repeat=n)
    three = PLAIN[:4] + ["{char}", "{:x}", "{0:x}", "{1:#b}", "{:/[0-9]/}"]
    fmts += itertools.product(three, repeat=3)
    if ck.thorough:
        fmts += itertools.product(PLAIN + OPTED, repeat=3)
        fmts += itertools.product(PLAIN + ["{:x}", "{0:x}"], repeat=4)
    fmts = list(dict.fromkeys(fmts))
    progs, S = [], Sites()
    for f in fmts:
        text = " ".join(f)
        parsed = fmtref.parse(text)
        for types in LISTS:
            if len(f) == 4 and len(types) == 1 and types[0] == "i16":
                continue
            try:
                bound, why = fmtref.bind(parsed, types, KNOWN, lambda b: True), ""
            except fmtref.Bad as e:
                bound, why = None, str(e)
            args = "".join(", " + t for t in types)
            if bound is None:
                k = len(progs) % 4
                m = ["sscanf::sscanf!(i, ", "sscanf::sscanf_get_regex!(", "sscanf::sscanf_unescaped!(i, ", "sscanf::sscanf!(i, "][k]
                progs.append({"code": f"fn f(i: &str) {{ let _ = {m}{rs(text)}{args}{',' if k == 3 else ''}); }}",
                              "src": f"{m}{rs(text)}{args})", "accept": False, "why": why})
                continue
            items, tys = model_items(bound, PATS)
            vals = [["1", "13"], ["2", "-2"], ["3", "0x3"], ["0b1", "2"]]
            prod = [x for k in range(len(tys)) for x in ([[" "]] if k else []) + [vals[k]]]
            if len(S.sites) % 5 == 0:
                progs.append({"code": f"fn f(i: &str) {{ let _: &sscanf::regex::Regex = sscanf::sscanf_get_regex!({rs(text)}{args}); }}",
                              "src": f"sscanf_get_regex!({rs(text)}{args})", "accept": True})
            S.add(call(rs(text), types, ret=ret_of(tys)), items, [{"product": prod, "edits": "1 x"}, {"list": ["", "1", "1 2", "1 2 3", "1 1 1", "9 8 7", "2 0b1 1", "a b c", "1 2 3 4"]}],
                  src=f"sscanf!(input, {rs(text)}{args})", may_be_empty=True)
    # long type lists, indices with more digits, any order
    names = ["u8", "i16", "u32", "char", "i64", "u16"] * 2
    for perm in range(24):
        order = [(k * 5 + perm) % 12 for k in range(12)]
        if perm % 3 == 1:
            order = order[::-1]
        if perm % 3 == 2:
            order = [order[k // 2] if k % 2 else 11 - k // 2 for k in range(12)]
            order += [k for k in range(12) if k not in order]
        text = " ".join("{%d}" % k for k in order)
        if perm % 4 == 3:
            text += " {} {}"
        parsed = fmtref.parse(text)
        bound = fmtref.bind(parsed, names, KNOWN, lambda b: True)
        items, tys = model_items(bound, PATS)
        ins = " ".join(str(k % 10) for k in range(len(tys)))
        if len(tys) <= 12:
            S.add(call(rs(text), names, ret=ret_of(tys)), items, [{"product": [[ins]], "edits": "1 "}], src=f"sscanf!(input, {rs(text)}, ...)")
    for text, types in [("{12}", names + ["u8"]), ("{} {1} {}", ["u8", "i16"]), ("{1} {} {0} {}", ["u8", "i16"]), ("{2} {} {}", ["u8", "i16", "u32"]), ("{} {} {1}", ["u8", "i16", "u32"])]:
        try:
            bound = fmtref.bind(fmtref.parse(text), types, KNOWN, lambda b: True)
            acc, why = True, ""
        except fmtref.Bad as e:
            acc, why = False, str(e)
        progs.append({"code": f"fn f(i: &str) {{ let _ = sscanf::sscanf!(i, {rs(text)}, {', '.join(types)}); }}", "src": f"sscanf!(input, {rs(text)}, {', '.join(types)})", "accept": acc, "why": why})
    ck.check_verdicts(progs)
    ck.run_sites(S.sites, S.inputs)
    return ck.finish(
        "Every sequence of up to 3 (4) placeholders out of 7 plain and 9 with options (implicit, each index, out-of-range, inline type) against 7 type "
        "lists of length 0-3, and permuted lists of 12: compile error exactly when the binder says so (other macros in rotation); else the "
        "result has exactly the bound types (statically) and the values in order, on sample values with all one-character edits.")
