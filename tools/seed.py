#!/usr/bin/env python3
"""Make, confirm and try planted bugs.

  seed.py make  SPECFILE [ID..]   write seeded/<id>/ from a spec, confirm build+tests+demo
  seed.py check [ID..]            run the check of the bug's property (or -p all) against it
A spec file is Python defining BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)],
bins={name: source})].  Names starting with ok_ must compile and run, err_ must not compile.
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
DEMO = r'''#!/bin/bash
# bins/ok_*.rs have to compile and run through, bins/err_*.rs must be rejected by the compiler,
# bins/msg_*.rs must be rejected with the consecutive lines of bins/msg_*.txt among the messages
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src/bin"
cp "$here"/bins/*.rs "$tmp/src/bin/"
cp "$here/Cargo.lock.demo" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "@EDITION@"
[workspace]
[dependencies]
sscanf = { path = "/repo" }
[profile.dev]
debug = 0
debug-assertions = @DA@
incremental = false
T
cd "$tmp" || exit 2
export CARGO_TARGET_DIR="$tmp/target" RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset RUSTFLAGS
rc=0
cargo build -q --offline --lib 2>/dev/null
for f in src/bin/*.rs; do
    n=$(basename "$f" .rs)
    timeout 200 cargo build -q --offline --bin "$n" > "$n.log" 2>&1
    b=$?
    case $n in
        ok_*)
            if [ $b -ne 0 ]; then echo "$n: does not compile"; tail -n 20 "$n.log"; rc=1; continue; fi
            timeout 60 "$CARGO_TARGET_DIR/debug/$n" || { echo "$n: failed"; rc=1; } ;;
        err_*)
            if [ $b -eq 0 ]; then echo "$n: compiles, but should not"; rc=1; fi
            if [ $b -ge 124 ] || grep -q 'panicked\|internal compiler error' "$n.log"; then echo "$n: no ordinary error"; rc=1; fi ;;
        msg_*)
            if [ $b -eq 0 ]; then echo "$n: compiles, but should not"; rc=1; fi
            python3 - "$here/bins/$n.txt" "$n.log" <<'P' || { echo "$n: other message"; cat "$n.log"; rc=1; }
import sys
want, got = (open(f).read().rstrip("\n").split("\n") for f in sys.argv[1:])
# a line that starts with blanks has to be as far to the right of the first one as it is in the file
same = lambda i: all(g.endswith(w) and (w[:1] != " " or len(g) - len(w) == len(got[i]) - len(want[0])) for w, g in zip(want, got[i:]))
sys.exit(not any(map(same, range(len(got) - len(want) + 1))))
P
            ;;
    esac
done
exit $rc
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def clean():
    sh(["git", "-C", R, "checkout", "--", "."])

def stable(out):
    base = json.load(open("/opt/vp/BASELINE.json"))
    res = json.load(open(out))
    def flat(d):
        return d
    want = base["stable"]
    got = res.get("passed") or []
    return [t for t in want if t not in got], len(want)

def make(spec, ids):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        if ids and b["id"] not in ids:
            continue
        clean()
        d = f"{V}/seeded/{b['id']}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/bins")
        for n, s in b["bins"].items():
            open(f"{d}/bins/{n}" + ("" if n.endswith(".txt") else ".rs"), "w").write(s.lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO.replace("@EDITION@", b.get("edition", "2021")).replace("@DA@", "false" if b.get("nda") else "true"))
        os.chmod(d + "/demo.sh", 0o755)
        lock = open(f"{V}/rt/Cargo.lock").read()
        import re
        lock = re.sub(r'name = "vrt"\nversion = "0.1.0"\ndependencies = \[\n "regex",\n "sscanf",\n\]', 'name = "demo"\nversion = "0.1.0"\ndependencies = [\n "sscanf",\n]', lock)
        assert '"demo"' in lock
        open(d + "/Cargo.lock.demo", "w").write(lock)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        r = sh(["bash", d + "/demo.sh"], cwd=R)
        msg = []
        if r.returncode != 0:
            msg.append("DEMO FAILS UNPATCHED " + r.stdout[-1500:])
        for f, old, new in b["edits"]:
            p = f"{R}/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "-C", R, "diff"]).stdout
        open(d + "/patch.diff", "w").write(diff)
        r = sh(["bash", "/opt/vp/build.sh"])
        if r.returncode != 0:
            msg.append("BUILD " + r.stdout[-1500:])
        else:
            r = sh(["bash", "/opt/vp/test.sh", "/tmp/seed_o.json"])
            missing, n = stable("/tmp/seed_o.json")
            if missing:
                msg.append(f"TESTS broken: {missing[:6]}")
            r = sh(["bash", d + "/demo.sh"], cwd=R)
            if r.returncode == 0:
                msg.append("DEMO PASSES PATCHED")
        clean()
        print(b["id"], "OK" if not msg else "\n   ".join(msg), flush=True)

def check(ids, props=None):
    for i in ids or sorted(os.listdir(V + "/seeded")):
        d = f"{V}/seeded/{i}"
        m = json.load(open(d + "/meta.json"))
        ps = props or [m["property"]]
        clean()
        r = sh(["git", "-C", R, "apply", d + "/patch.diff"])
        assert r.returncode == 0, r.stdout
        out = []
        for p in ps:
            r = sh(["python3", f"{V}/check.py", p], cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
            out.append(f"{p}:{'caught' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode}")
            if r.returncode not in (0, 1) or (r.returncode == 1 and not v):
                out.append(r.stdout[-800:])
        clean()
        print(i, "(" + m["property"] + ")", *out, flush=True)

if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2], sys.argv[3:])
    else:
        a = sys.argv[2:]
        props = None
        if "-p" in a:
            k = a.index("-p")
            props = a[k + 1].split(",")
            if props == ["all"]:
                props = [f"C{n:02}" for n in range(1, 40) if os.path.exists(f"{V}/props/c{n:02}.py")]
            a = a[:k] + a[k + 2:]
        check(a, props)
