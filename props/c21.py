"""C21: an error in a format string points to the part of it that is at fault."""
import concurrent.futures as cf
import itertools
import json
import os
import re
import subprocess
import zlib
from lib import core, fmtref
from lib.core import rs, raw

WIDTH = {"界": 2, "\u0301": 0, "😀": 2}
NOT = {"crate::NoT", "Vec<u8>", "(u8,u8)"}
KNOWN = {"u8", "str", "i16", "String"} | NOT
TYPES = [[], ["u8"], ["u8", "i16"], ["String", "u8", "i16"], ["crate::NoT"], ["str", "Vec<u8>"], ["crate::NoT", "i16"]]
FIELDS = {"named": [(["a", "b"], ["u8", "String"]), (["a", "b"], ["crate::NoT", "u8"])], "tuple": [(["0", "1"], ["u8", "String"]), (["0", "1"], ["u8", "Vec<u8>"])]}


def width(s):
    return sum(WIDTH.get(c, 1) for c in s)


def units(lit):
    """what a literal stands for, and where each character of it is in the literal as written"""
    h = re.match(r'r(#*)"', lit)
    if h:
        st, end = len(h.group(0)), len(lit) - 1 - len(h.group(1))
        return lit[st:end], [(i, i + 1) for i in range(st, end)] + [(end, end)]
    out, pos, i, end = "", [], 1, len(lit) - 1
    while i < end:
        if lit[i] != "\\":
            out += lit[i]
            pos.append((i, i + 1))
            i += 1
            continue
        m = re.compile(r'\\(?:x(..)|u\{([0-9a-f]+)\}|\n\s*|(.))').match(lit, i)
        if m.group(0)[1] != "\n":
            out += chr(int(m.group(1) or m.group(2), 16)) if m.group(3) is None else {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(m.group(3), m.group(3))
            pos.append((i, m.end()))
        i = m.end()
    return out, pos + [(end, end)]


def bind(parsed, where, types, ok, fields=None):
    """(parts at fault, as positions in the text; indices of the types or fields at fault) or None if something is unspecified"""
    parts, bad, used, nxt, srcs = [], set(), set(), 0, {}
    order = [(p, w) for p, w in zip([p for p in parsed if p[0] == "ph"], where)]
    if fields:
        # named ones take their fields first
        order = [o for o in order if o[0][1]] + [o for o in order if not o[0][1]]
    for (_, name, opt), (st, ne, end) in order:
        t = None
        if opt and opt[0] == "regex" and not ok[opt[1]]:
            parts.append((ne, end))
        if name == "":
            free = [k for k in range(len(types)) if k not in used] if fields else list(range(nxt, len(types)))
            nxt += 1
            if not free:
                parts.append((st, end))
                continue
            t = free[0]
        elif fields:
            if name not in fields and (not name.isascii() or name.isdigit() or name != name.strip()) and "".join(name.split()).lstrip("+0") in fields + [""]:
                return None
            if name not in fields and not (name.isascii() and name.isdigit() and fields[0] == "a" and int(name) < len(fields)):
                if name.isascii() and name.isdigit() and int(name) < len(fields):
                    return None
                parts.append((st + 1, ne))
                continue
            t = fields.index(name) if name in fields else int(name)
            if t in srcs:
                parts += [srcs[t], (st, end)]
            srcs[t] = (st, end)
        elif name.isascii() and name.isdigit():
            if name != str(int(name)):
                return None
            if int(name) >= len(types):
                parts.append((st + 1, ne))
                continue
            t = int(name)
        else:
            if name != name.strip() or name.lstrip("+").isdigit() or "//" in name or "/*" in name:
                return None
            if name not in KNOWN:
                parts.append((st + 1, ne))
                continue
        used.add(t)
        # a type without the traits
        if t is None and name in NOT:
            parts.append((st + 1, ne))
        elif t is not None and types[t] in NOT:
            bad.add(t)
        ty = name if t is None else types[t]
        if opt and opt[0] == "radix" and ty not in fmtref.INTS:
            parts.append((st, end))
            if t is not None:
                bad.add(t)
    return parts, bad | ({k for k in range(len(types)) if k not in used})


def main(ck):
    lits = {}

    def add(text, forms, esc=None):
        for f in forms:
            lit = {"raw": lambda: raw(text), "plain": lambda: rs(text), "raw2": lambda: f'r##"{text}"##', "esc": lambda: '"' + "".join("\\u{%x}" % ord(c) if not c.isalnum() and c not in "{}:/#" else c for c in text) + '"', "lit": lambda: esc}[f]()
            lits[lit] = 1

    FORMS = ["raw", "plain", "raw2"]
    ok_t = ["a", "é", "界", "e\u0301", "😀", "→", "{{", "}}", "\\", '"', "{}", "{0}", "{1}", "{u8}", "{u8:x}", "{str:/a/}", "{a}", "{b:x}"]
    bad_t = ["}", "{7}", "{nope}", "{Vec<}", "{u8 u8}", "{u8:}", "{:}", "{u8:q}", "{:é}", "{u8:r}", "{u8:r1}", "{u8:r40}", "{u8:#q}", "{u8:x#q}", "{:/(/}", "{str:/a(b)/}", "{str:/界[/}", "{/a/}", "{str:/a/b}", "{str:/é/é}",
             "{:/a}", "{:/a\\}", "{:/a/", "{", "{é", "{u8", "{u8:", "{:x", "{str:x}", "{String:#x}", "{:/", "{界:/(/}", "{crate::NoT}", "{Vec<u8>}", "{crate::NoT:/(/}"]
    k = 0
    for n in (1, 2, 3):
        for t in itertools.product(ok_t + bad_t, repeat=n):
            nb = sum(x in bad_t for x in t)
            if not nb and "{}" not in t and "{1}" not in t and "{0}" not in t:
                continue
            k += 1
            if n == 3 and not ck.thorough and (nb > 1 or k % 3):
                continue
            add("".join(t), [FORMS[k % 3]] if n == 3 else FORMS)
    for n in (1, 2, 3, 4, 5):
        for t in itertools.product("{}:/xa" if n == 5 else "{}:/xé#r1", repeat=n):
            k += 1
            t = "".join(t)
            if ("{" in t or "}" in t) and (ck.thorough or n < 4 or k % 2):
                add(t, [FORMS[k % 3]] if n > 3 else FORMS)
    # escape sequences in front of, inside and behind the part at fault, and literals over several lines
    esc = ["\\n", "\\x41", "\\u{754c}", "\\u{65}", '\\"', "\\\\", "\\\n   ", "\n", "é"]
    for a, b, c in itertools.product([""] + esc, bad_t + ["{}{}"], [""] + esc):
        b = b.replace("\\", "\\\\")
        lits['"' + a + b + c + '"'] = 1
        lits['"' + a + "{}" + b + c + '"'] = 1
        for q in range(1, len(b)) if len(a) < 3 and not c else ():
            if b[q] != "\\" and b[q - 1] != "\\":
                lits['"' + a + b[:q] + (a or "\\u{754c}") + b[q:] + '"'] = 1
    parsed, bodies = {}, []
    for lit in lits:
        text, pos = units(lit)
        where, head, syn = [], [], None
        try:
            fmtref.parse(text, where, head)
        except fmtref.Bad as e:
            # the placeholders in front of it may have faults of their own
            syn = e.at
        except fmtref.Unspecified:
            continue
        parsed[lit] = (text, pos, head, where, syn)
        bodies += fmtref.regexes(head)
    ok = ck.regex_ok(bodies)
    # programs: pieces of text; ("lit", ..) and ("type", n, ..) are the places that errors may point to
    progs, nofault, unspec = [], 0, 0
    k = 0
    for lit, (text, pos, p, where, syn) in parsed.items():
        for kind in ["sscanf", "scanf", "sscanf_get_regex", "sscanf_unescaped", "rules", "named", "tuple", "enum", "unescaped", "bare"]:
            k += 1
            types, fields = TYPES[(k // 10 + len(kind)) % len(TYPES)], None
            if kind in ("named", "tuple", "enum", "unescaped", "bare"):
                fields, types = FIELDS["tuple" if kind in ("tuple", "enum") else "named"][k % 5 == 4 or k % 5 == 1]
                if "std::" in lit:
                    continue
            # two macros and one derived type for each
            if not ck.thorough and k % 10 not in [(j * 7 + zlib.crc32(lit.encode())) % 10 for j in range(3)]:
                continue
            b = bind(p, where, types, ok, fields)
            if b is None:
                unspec += 1
                continue
            parts, bad = b
            if syn:
                # what stands behind the fault may concern the types that seem to be unused
                parts = parts + [syn]
            if not parts and not bad:
                nofault += 1
                continue
            if kind in ("named", "unescaped", "bare", "tuple", "enum"):
                attr = {"named": "format = ", "tuple": "format = ", "unescaped": "format_unescaped = ", "bare": "", "enum": ""}[kind]
                fl = [(f"{f}: {t}" if fields[0] == "a" else t) for f, t in zip(fields, types)]
                q = "{}" if fields[0] == "a" else "()"
                flds = [("type", 0, fl[0]), ", ", ("type", 1, fl[1])]
                if kind == "enum":
                    pieces = ["#[derive(sscanf::FromScanf)] enum T { #[sscanf(", ("lit", lit), ")] V(", *flds, ") }"]
                else:
                    pieces = ["#[derive(sscanf::FromScanf)] #[sscanf(" + attr, ("lit", lit), ")] struct T" + q[0], *flds, q[1] + ("" if q == "{}" else ";")]
            else:
                args = []
                for n, t in enumerate(types):
                    args += [", ", ("type", n, t)]
                if kind == "rules":
                    pieces = ["macro_rules! m { ($f:literal $($t:tt)*) => { sscanf::sscanf!(\"\", $f $($t)*) } } fn f() { let _ = m!(", ("lit", lit), *args, "); }"]
                else:
                    pieces = [f"fn f(i: &str) {{ let _ = sscanf::{kind}!(" + ("" if kind == "sscanf_get_regex" else "i, "), ("lit", lit), *args, "); }"]
            src = "".join(x if isinstance(x, str) else x[-1] for x in pieces)
            progs.append({"pieces": pieces, "src": src, "lit": lit, "parts": [(pos[s][0], pos[e - 1][1] if e < len(text) else pos[e][0]) for s, e in parts if e > s], "bad": sorted(bad),
                          "skip": any(len(text[a + 1:b].encode()) == 2 and not text[a + 1:b].isascii() for a, b, _ in where)})
    ck.cov["formats"] = len(parsed)
    ck.cov["programs_without_fault_or_not_specified"] = nofault + unspec
    ck.build_base()
    nightly = ck.build_nightly()
    for channel in ["stable"] + ["nightly"] * bool(nightly):
        verify(ck, progs, channel, nightly)
    if not nightly:
        ck.assumptions.append("no nightly toolchain that builds the tree: only the messages of the stable compiler are checked")
    ck.assumptions.append("on nightly, formats with a type name that is a single two-byte character are left out (the compiler panics)")
    ck.assumptions.append("on the stable compiler, the mark below a literal of several lines is not checked")
    return ck.finish(
        "Every malformed sequence of up to 3 pieces out of 15 well-formed and 34 faulty ones, every malformed string of up to 4 (5) characters, every fault next to every escape sequence, "
        "in raw and plain literals, each in two macros and one derived type (out of ten call forms): every error that the stable compiler reports has the literal with a mark below a part at "
        "fault in its message, and every error that a nightly compiler reports has that part as its position; or it is at a type that is at fault.")


def verify(ck, progs, channel, nightly):
    n = 0
    if channel == "nightly":
        # the compiler itself panics when a two-byte character is the position of a `::`
        progs = [p for p in progs if not p["skip"]]
    shards = [progs[j::core.JOBS] for j in range(core.JOBS)]

    def work(j):
        return run(ck, shards[j], f"{channel}{j}", channel, nightly)

    seen = errors = 0
    with cf.ThreadPoolExecutor(core.JOBS) as ex:
        for shard, res in zip(shards, ex.map(work, range(core.JOBS))):
            for p, ds in zip(shard, res):
                seen += bool(ds)
                for d in ds:
                    errors += 1
                    why = judge(p, d, channel)
                    if why:
                        ck.violation(p["src"], channel, "the error points to " + " or ".join([repr(p["lit"][a:b]) for a, b in p["parts"]] + [f"type {n}" for n in p["bad"]]), why, {"c21": p, "channel": channel}, kind="position")
                if len(ck.cov["samples"]) < 12 and ds and not n % 3001:
                    ck.cov["samples"].append({"program": p["src"], "channel": channel, "error": ds[0]["text"][:200], "at": ds[0]["at"]})
                n += 1
    ck.cov["states"] += len({p["src"] for p in progs})
    ck.cov["transitions"] += errors
    ck.cov["traces_validated_against_impl"] += seen
    ck.cov[f"errors_{channel}"] = errors
    ck.log(f"{channel}: {len(progs)} programs, {seen} with errors, {errors} errors, violations {len(ck.violations)}")


def judge(p, d, channel):
    """what is wrong with the error, or None"""
    for at in d["at"]:
        if at is None:
            return "an error outside of the call: " + d["text"][:200]
        what, a, b = at
        if what == "type":
            if a not in p["bad"]:
                return f"type {a} is marked: " + d["text"][:200]
        elif what == "lit":
            if channel == "nightly":
                if not any(s <= a < b <= e for s, e in p["parts"]):
                    return f"{p['lit'][a:b]!r} (at {a}) is marked: " + d["text"][:200]
                continue
            if (a, b) != (0, len(p["lit"])):
                return f"{p['lit'][a:b]!r} is marked: " + d["text"][:200]
            if d["code"]:
                continue
            if "\n" in p["lit"]:
                continue
            m = re.search(r"(?:^|\n)At " + re.escape(p["lit"]) + r"\n( *)(\^+)\s*$", d["text"])
            if not m:
                return "no mark in the message: " + d["text"][:300]
            s0, e0 = len(m.group(1)) - 3, len(m.group(1)) - 3 + len(m.group(2))
            if not any(width(p["lit"][:s]) <= s0 and e0 <= width(p["lit"][:e]) for s, e in p["parts"]):
                return f"columns {s0}..{e0} of {p['lit']} are marked: " + d["text"][:300]
        else:
            return f"{what!r} is marked: " + d["text"][:200]
    return None


def run(ck, progs, tag, channel, nightly):
    """the errors of each program"""
    src = os.path.join(ck.work, tag + ".rs")
    out = os.path.join(ck.work, tag + ".rmeta")
    errors = [[] for _ in progs]
    live = list(range(len(progs)))
    for _ in range(20):
        text = "#![allow(warnings)]\nextern crate sscanf; extern crate vrt; pub struct NoT;\n"
        off = len(text.encode())
        parts, places = [text], []
        for j in live:
            s = f"mod m{j} {{ "
            start = off
            off += len(s)
            parts.append(s)
            for x in progs[j]["pieces"]:
                t = x if isinstance(x, str) else x[-1]
                nb = len(t.encode())
                if not isinstance(x, str):
                    places.append((off, off + nb, j, x))
                off += nb
                parts.append(t)
            parts.append(" }\n")
            off += 3
            places.append((start, off, j, None))
        parts.append("fn main() {}\n")
        with open(src, "w") as f:
            f.write("".join(parts))
        cmd = ck.rustc_cmd(src, out, ("--emit=metadata",)) if channel == "stable" else ck.rustc_nightly(src, out, nightly)
        env = core.ENV if channel == "stable" else dict(core.ENV, RUSTUP_TOOLCHAIN="nightly", RUSTC_ICE="0")
        try:
            r = subprocess.run(cmd, env=env, capture_output=True, text=True, errors="replace", timeout=600, preexec_fn=core.limit_memory)
        except subprocess.TimeoutExpired:
            raise core.CheckError("the compiler does not come to an end")
        places.sort(key=lambda x: (x[0], -x[1]))
        starts = [x[0] for x in places]
        got = set()
        unmapped = []
        for line in r.stderr.splitlines():
            if not line.startswith("{"):
                continue
            m = json.loads(line)
            if m.get("level") != "error" or m["message"].startswith("aborting due to"):
                continue
            ats, who = [], None
            for sp in m["spans"]:
                if not sp["is_primary"]:
                    continue
                hit = locate(sp, os.path.basename(src), places, starts, progs)
                if hit:
                    who = hit[0]
                    ats.append(hit[1])
            if who is None:
                unmapped.append(m.get("rendered") or m["message"])
                continue
            got.add(who)
            errors[who].append({"text": m["message"], "code": (m.get("code") or {}).get("code"), "at": ats})
        if r.returncode == 0:
            return errors
        if not got:
            raise core.CheckError("errors, but in no program: " + "".join(unmapped)[:2000] + r.stderr[-500:])
        live = [j for j in live if j not in got]
    raise core.CheckError("batch does not come to compile")


def locate(sp, base, places, starts, progs):
    """(program, place) of a span; a place is (kind, start, end): characters of the literal, or the number of the type"""
    import bisect
    if not sp["file_name"].endswith(base):
        exp = sp.get("expansion")
        return locate(exp["span"], base, places, starts, progs) if exp else None
    a, b = sp["byte_start"], sp["byte_end"]
    k = bisect.bisect_right(starts, a) - 1
    while k >= 0:
        s, e, j, x = places[k]
        if s <= a and b <= e:
            if x is None:
                whole = "".join(y if isinstance(y, str) else y[-1] for y in progs[j]["pieces"])
                head = f"mod m{j} {{ ".encode()
                return j, ((head + whole.encode())[a - s:b - s].decode(errors="replace"), 0, 0)
            if x[0] == "type":
                return j, ("type", x[1], x[1])
            t = x[-1].encode()
            try:
                return j, ("lit", len(t[:a - s].decode()), len(t[:b - s].decode()))
            except UnicodeDecodeError:
                return j, ("half a character", 0, 0)
        if x is None and e <= a:
            return None
        k -= 1
    return None
