#!/usr/bin/env python3
"""python3 replay.py out/Cnn/KEY.json: runs one recorded violation again against /repo's tree.
Exit 1 if it still fails, 0 if the requirement is met now."""
import json
import os
import subprocess
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import core

v = json.load(open(sys.argv[1]))
print(json.dumps({k: v[k] for k in ("property", "program", "input", "required", "got")}, indent=1, ensure_ascii=False))
ck = core.Check(v["property"] + "-replay")
c = v["context"]
if "hist" in c:
    # the program is generated again from props/c16.py
    if not isinstance(c["hist"], list):
        sys.exit("run check.py C16 again")
    env = dict(os.environ, HIST_REPLAY=c["hist"][2])
    sys.exit(subprocess.run([sys.executable, "check.py", "C16"], cwd=core.VERIF, env=env).returncode)
if "c21" in c:
    from props import c21
    nightly = ck.build_nightly() if c["channel"] == "nightly" else None
    errors = c21.run(ck, [c["c21"]], "r", c["channel"], nightly)[0]
    wrong = [w for w in (c21.judge(c["c21"], d, c["channel"]) for d in errors) if w]
    print("now:", wrong or [d["text"] for d in errors])
    sys.exit(1 if wrong else 0)
if "c25" in c:
    from props import c25
    ck.build_base()
    got = c25.run(ck, [c["c25"]], "r", c["edition"], c["debug"])[0]
    print("now:", got)
    sys.exit(1 if got else 0)
if "site" not in c:
    try:
        ok, msgs = ck.verdicts([c["prog"]], c.get("prelude", ""))[0]
    except (core.PreludeRejected, core.CompilerDies) as e:
        print("now: rejected:", e.args[1])
        sys.exit(1)
    print("now:", "accepted" if ok else f"rejected: {msgs}")
    bad = ok != c["accept"] or any("panicked" in m for m in msgs)
    sys.exit(1 if bad else 0)
s = c["site"]
try:
    exe, live, rejected = ck.build_shard(0, [s], c["prelude"], tuple(s.get("mode") or core.MODES[0]))
except (core.PreludeRejected, core.CompilerDies) as e:
    print("now: rejected:", e.args[1])
    sys.exit(1)
except core.CheckError as e:
    print(e)
    sys.exit(2)
if rejected:
    print("now: rejected:", rejected[0][1])
    sys.exit(1)
spec = os.path.join(ck.work, "spec.json")
json.dump({"types": c["types"], "inputs": [], "sites": [{k: s[k] for k in ("id", "items") if k in s} | {"in": [], "deep": bool(s.get("deep")), "coarse": bool(s.get("coarse")), "fault": s.get("fault")}]}, open(spec, "w"))
if v["input"] is None:
    print("now: compiles")
    sys.exit(0)
p = subprocess.run([exe, spec, s["id"], v["input"]], capture_output=True, text=True)
print(p.stdout)
sys.exit(0 if json.loads(p.stdout.splitlines()[-1])["nviol"] == 0 else 1)
