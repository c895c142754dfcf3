#!/usr/bin/env python3
"""Systematic single-point changes to /repo, to find what the checks miss (a working aid, no check uses it).

mutate.py list                  writes the changes to DIR/list.json
mutate.py survive N             builds and tests each in N trees; DIR/alive.json are those that pass the stable tests
mutate.py check ID.. -- Cnn..   runs checks on one of them, each in a mount namespace of its own
"""
import json, os, re, subprocess, sys, shutil, threading, queue
DIR = "/tmp/mut"
FILES = ["sscanf_macro/src/" + f for f in ("lib.rs", "attribute.rs", "attribute/enum.rs", "attribute/field.rs", "attribute/struct.rs", "attribute/variant.rs", "derive.rs", "format_option.rs", "format_string.rs", "placeholder.rs", "regex_parts.rs", "str_lit.rs", "utils.rs", "error.rs", "ty.rs", "types.rs")] + [
    "src/from_scanf.rs", "src/regex_representation.rs", "src/errors.rs", "src/types.rs", "src/lib.rs"]
OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ 1\b", ""), (r" \+ 1\b", " + 2"), (r" - 1\b", ""), (r" - 2\b", " - 1"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\bif !", "if "), (r"\bif (?!let\b|!)([^{]+) \{", r"if !(\1) {"), (r"&& !", "&& "), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"!(\w+)\.is_empty\(\)", r"\1.is_empty()"),
       (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"), (r"\.rev\(\)", ""), (r"\.trim\(\)", ""), (r"\.trim_start\(\)", ""), (r"\.trim_end\(\)", ""), (r"\.skip\(1\)", ""), (r"\.skip\((\d)\)", ".skip(0)"),
       (r"::std::", ""), (r"::sscanf::", "sscanf::"), (r"\.to_lowercase\(\)", ".to_uppercase()"), (r"\.to_uppercase\(\)", ".to_lowercase()"), (r"\bany\(", "all("), (r"\ball\(", "any("),
       (r"\.peek\(\)", ".clone().next()"), (r"\.next\(\)", ".next_back()"), (r"\.chars\(\)", ".chars().rev()"), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.cloned\(\)", ""), (r"starts_with", "ends_with"), (r"find\(", "rfind("), (r"rfind\(", "find("),
       (r"strip_prefix", "strip_suffix"), (r"\.\.=", ".."), (r"(?<![.=])\.\.(?![.=])", "..="), (r"(?<![\w.{,])(\d+)(?![\w.,}])", lambda m: str(int(m[1]) + 1)), (r"\b(\d+) =>", lambda m: str(int(m[1]) + 1) + " =>"),
       (r"'([^'\\])'(?=[ ),:=|;])", lambda m: "'" + ("#" if m[1] != "#" else "@") + "'"), (r"\.len_utf8\(\)", ".len_utf8() + 1"), (r"\bOk\(\)", "Err(())"), (r"Some\((\w+)\) =>", "None =>"), (r"\breturn None;", ""), (r"unwrap_or\(true\)", "unwrap_or(false)")]


def mutants():
    out = []
    for f in FILES:
        path = os.path.join("/repo", f)
        if not os.path.exists(path):
            continue
        lines = open(path).read().split("\n")
        for n, l in enumerate(lines):
            if re.match(r"#\[cfg\(test\)\]|#\[test\]", l.strip()):
                break
            t = l.strip()
            if not t or t.startswith(("//", "#!", "use ", "#[doc", "pub use")):
                continue
            seen = set()

            def put(new, what):
                if new != l and new not in seen:
                    seen.add(new)
                    out.append({"id": f"m{len(out)}", "file": f, "line": n, "old": l, "new": new, "op": what})
            for pat, rep in OPS:
                for m in re.finditer(pat, l):
                    try:
                        new = l[:m.start()] + m.expand(rep) + l[m.end():] if isinstance(rep, str) else l[:m.start()] + rep(m) + l[m.end():]
                    except Exception:
                        continue
                    put(new, pat)
            # regexes and formats inside literals
            for m in re.finditer(r'"[^"]*"', l):
                lit = m[0]
                for pat, rep in ((r"\?", ""), (r"\+", "*"), (r"\*", "+"), (r"\\d", "."), (r"\^", ""), (r"\$(?=[\")])", ""), (r"\|", ""), (r"\?:", ""), (r"\d+", lambda k: str(int(k[0]) + 1)), (r"\[\+-\]", "[-]"), (r"(?<=\w)\w(?=\")", "")):
                    if len(lit) > 60 and not re.search(r"\\d|\?:", lit):
                        continue
                    for k in re.finditer(pat, lit):
                        r = rep(k) if callable(rep) else rep
                        put(l[:m.start()] + lit[:k.start()] + r + lit[k.end():] + l[m.end():], "lit " + pat)
            # statements left out
            if re.match(r"^[a-z_][\w.]*(\.\w+\(|\(| = | \+= | -= |! ?\()", t) and t.endswith(";") and not t.startswith(("let ", "return", "pub ", "mod ")):
                put(re.match(r"\s*", l)[0] + "();", "left out")
            if t.endswith("?;") and not t.startswith("let"):
                put(re.match(r"\s*", l)[0] + "();", "left out")
            if re.match(r"^\.(\w+)\(.*\)$", t):
                put("", "left out")
    for k, m in enumerate(out):
        m["id"] = f"m{k}"
    return out


def tree(k):
    d = f"{DIR}/t{k}"
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    return d


def ns(binds, cmd, **kw):
    script = "".join(f"mount --bind {a} {b} && " for a, b in binds) + cmd
    return subprocess.run(["unshare", "-m", "sh", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def apply(d, m):
    p = f"{d}/repo/{m['file']}"
    orig = open("/repo/" + m["file"]).read()
    lines = orig.split("\n")
    assert lines[m["line"]] == m["old"]
    lines[m["line"]] = m["new"]
    open(p, "w").write("\n".join(lines))
    return p, orig


def survive(n):
    ms = json.load(open(f"{DIR}/list.json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    q = queue.Queue()
    for m in ms:
        q.put(m)
    done = []
    lock = threading.Lock()

    def work(k):
        d = tree(k)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            p, orig = apply(d, m)
            try:
                o = f"{d}/o.json"
                if os.path.exists(o):
                    os.unlink(o)
                try:
                    os.makedirs(d + "/logs", exist_ok=True)
                    r = ns([(d + "/repo", "/repo"), (d + "/logs", "/opt/vp/logs")], f"cd /repo && timeout 120 bash /opt/vp/build.sh > {d}/b.log 2>&1 && timeout 120 bash /opt/vp/test.sh {o} > {d}/t.log 2>&1", timeout=300)
                except subprocess.TimeoutExpired:
                    pass
                try:
                    m["alive"] = stable <= set(json.load(open(o))["passed"])
                    m["built"] = True
                except (OSError, ValueError):
                    m["alive"] = m["built"] = False
            finally:
                open(p, "w").write(orig)
            with lock:
                done.append(m)
                if len(done) % 20 == 0:
                    print(len(done), len(ms), sum(x["alive"] for x in done), flush=True)
                    json.dump([x for x in done if x["alive"]], open(f"{DIR}/alive.json", "w"), indent=1)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    json.dump([x for x in done if x["alive"]], open(f"{DIR}/alive.json", "w"), indent=1)
    print(len(done), "built", sum(x["built"] for x in done), "alive", sum(x["alive"] for x in done))


def check(ids, props):
    ms = {m["id"]: m for m in json.load(open(f"{DIR}/alive.json"))}
    d = tree("c")
    subprocess.run(["rsync", "-a", "--delete", "--exclude", ".git", "/verif/", d + "/verif/"]) if shutil.which("rsync") else subprocess.run(f"mkdir -p {d}/verif && cp -a /verif/. {d}/verif/", shell=True)
    for i in ids:
        m = ms[i]
        p, orig = apply(d, m)
        try:
            caught = None
            for c in props:
                try:
                    r = ns([(d + "/repo", "/repo"), (d + "/verif", "/verif")], f"cd /verif && timeout 880 python3 check.py {c}", timeout=900)
                except subprocess.TimeoutExpired:
                    print(i, c, "TIMEOUT", flush=True)
                    continue
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    caught = c
                    break
                if r.returncode:
                    print(i, c, "rc", r.returncode, r.stdout[-300:], flush=True)
            print("CAUGHT" if caught else "MISSED", i, caught, m["file"], m["line"] + 1, m["old"].strip(), "=>", m["new"].strip(), flush=True)
        finally:
            open(p, "w").write(orig)


if __name__ == "__main__":
    os.makedirs(DIR, exist_ok=True)
    a = sys.argv[1:]
    if a[0] == "list":
        ms = mutants()
        json.dump(ms, open(f"{DIR}/list.json", "w"), indent=1)
        print(len(ms))
    elif a[0] == "survive":
        survive(int(a[1]))
    else:
        k = a.index("--")
        check(a[1:k], a[k + 1:])
