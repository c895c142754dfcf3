"""Machinery shared by all checks: builds /repo's macros, compiles enumerated programs against them,
runs the explorer, collects verdicts, writes evidence."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import threading
import time
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
JOBS = max(2, min(8, os.cpu_count() or 4))

ENV = dict(os.environ)
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "TRYBUILD", "CARGO_BUILD_RUSTFLAGS"):
    ENV.pop(k, None)
ENV.update(
    RUSTUP_TOOLCHAIN="1.90.0",
    CARGO_NET_OFFLINE="true",
    RUSTC_WRAPPER="",
    RUST_BACKTRACE="0",
    CARGO_INCREMENTAL="0",
    CARGO_TERM_COLOR="never",
    HOME=os.environ.get("HOME", "/root"),
)
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/local/bin:/usr/bin:/bin")


class CheckError(Exception):
    """the check itself could not do its work"""


def rs(s):
    """a Rust plain string literal"""
    out = ['"']
    for c in s:
        if c in '"\\':
            out.append("\\" + c)
        elif c == "\n":
            out.append("\\n")
        elif c == "\r":
            out.append("\\r")
        elif c == "\t":
            out.append("\\t")
        elif c == "\0":
            out.append("\\0")
        else:
            out.append(c)
    out.append('"')
    return "".join(out)


def raw(s):
    """a Rust raw string literal"""
    n = 0
    while '"' + "#" * n in s:
        n += 1
    h = "#" * n
    return f'r{h}"{s}"{h}'


# how a program is compiled: edition, debug assertions
MODES = [("2021", True), ("2021", False)]


def mode_of(text):
    """every program is compiled in one of the modes, always in the same one"""
    return MODES[zlib.crc32(text.encode()) % 2]


class CompilerDies(Exception):
    """macro expansion of one program does not come to an end, or takes the compiler down"""


class PreludeRejected(Exception):
    """the well-formed declarations that all programs of a check share do not compile against this tree"""


# what every program sees through `use crate::pre::*` (a glob on the crate root would be quadratic)
PRELUDE = """#![allow(warnings)]
extern crate sscanf; extern crate vrt;
pub mod pre {
pub use vrt::{groups, res, O};
%s
}
"""


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER") or "quick"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED") or 1)
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work", prop)
        self.out = os.path.join(VERIF, "out", prop)
        for d in (self.work, self.out):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.exhaustive = True
        self.base = None
        self.base_lock = threading.Lock()
        self.known = self._known()

    # ---------------------------------------------------------------------------------- base build
    def build_base(self):
        """builds the tree twice: with debug assertions (what the tests run) and without (what users release)"""
        with self.base_lock:
            if not self.base:
                self.forget_other_tree(TARGET)
                with cf.ThreadPoolExecutor(2) as ex:
                    self.base = dict(zip((True, False), ex.map(self._build_base, ("dev", "nda"))))
                self.log("base built")
        return self.base

    @staticmethod
    def forget_other_tree(target):
        """cargo goes by file times: what was built from files of other contents (a copy with older times) is built again"""
        h = hashlib.sha256()
        for top, dirs, files in os.walk(REPO):
            dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "tests"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".md")):
                    h.update(os.path.join(top, f).encode() + b"\0" + open(os.path.join(top, f), "rb").read() + b"\0")
        os.makedirs(target, exist_ok=True)
        with open(os.path.join(target, "tree.lock"), "a") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            stamp = os.path.join(target, "tree")
            if not os.path.exists(stamp) or open(stamp).read() != h.hexdigest():
                for d in glob.glob(os.path.join(target, "*", ".fingerprint", "sscanf*")):
                    shutil.rmtree(d, ignore_errors=True)
                with open(stamp, "w") as f:
                    f.write(h.hexdigest())

    def _build_base(self, profile):
        cmd = ["cargo", "build", "--offline", "--locked", "--message-format=json", "--profile", profile]
        env = dict(ENV, CARGO_TARGET_DIR=TARGET)
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, "rt"), env=env, capture_output=True, text=True)
        libs = {}
        msgs = []
        for line in p.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    if f.endswith(".rlib"):
                        libs[m["target"]["name"].replace("-", "_")] = f
            elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                msgs.append(m["message"]["rendered"])
        if p.returncode:
            raise CheckError("the harness does not build against /repo:\n" + "".join(msgs) + p.stderr[-3000:])
        return {"vrt": libs["vrt"], "sscanf": libs["sscanf"], "deps": os.path.join(TARGET, "debug" if profile == "dev" else profile, "deps")}

    def build_nightly(self):
        """the tree, built by a nightly compiler (whose macros can point into a literal), if there is one that does"""
        cmd = ["cargo", "build", "--offline", "--locked", "--message-format=json"]
        env = dict(ENV, CARGO_TARGET_DIR=TARGET + "-nightly", RUSTUP_TOOLCHAIN="nightly")
        self.forget_other_tree(TARGET + "-nightly")
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, "rt"), env=env, capture_output=True, text=True)
        if p.returncode:
            return None
        libs, dirs = {}, set()
        for line in p.stdout.splitlines():
            m = json.loads(line) if line.startswith("{") else {}
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    dirs.add(os.path.dirname(f))
                    if f.endswith(".rmeta") or f.endswith(".rlib") and not os.path.exists(f[:-4] + "rmeta"):
                        libs[m["target"]["name"].replace("-", "_")] = f
        return {"vrt": libs["vrt"], "sscanf": libs["sscanf"], "deps": sorted(dirs)}

    def rustc_nightly(self, src, out, libs):
        return ["rustc", "--edition", "2021", "--crate-name", "gen", "--cap-lints", "allow", "-A", "warnings", "--emit=metadata", "--error-format=json", *["-Ldependency=" + d for d in libs["deps"]],
                "--extern", "sscanf=" + libs["sscanf"], "--extern", "vrt=" + libs["vrt"], "-o", out, src]

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, file=sys.stderr, flush=True)

    def rustc_cmd(self, src, out, extra=(), mode=MODES[0]):
        edition, debug = mode
        b = self.build_base()[debug]
        return [
            "rustc", "--edition", edition, "-C", "debug-assertions=" + ("on" if debug else "off"), "-C", "overflow-checks=" + ("on" if debug else "off"), "--crate-name", "gen", "--cap-lints", "allow", "-A", "warnings",
            "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "codegen-units=4",
            "--error-format=json", "-L", "dependency=" + b["deps"],
            "--extern", "sscanf=" + b["sscanf"], "--extern", "vrt=" + b["vrt"],
            "-o", out, src, *extra,
        ]

    def compile(self, src, out, ranges, extra=(), timeout=None, mode=MODES[0]):
        """Compiles src; returns (ok, {key: [messages]}, unmapped messages)."""
        timeout = timeout or (1200 if self.thorough else 240)
        try:
            p = subprocess.run(self.rustc_cmd(src, out, extra, mode), env=ENV, capture_output=True, text=True,
                               timeout=timeout, errors="replace", preexec_fn=limit_memory)
        except subprocess.TimeoutExpired:
            return False, {}, ["TIMEOUT"]
        if p.returncode not in (0, 1, 101):
            # killed by a signal: a macro that overflows the stack or takes all memory
            return False, {}, [f"CRASH {p.returncode}"]
        errs, unmapped = {}, []
        for line in p.stderr.splitlines():
            if not line.startswith("{"):
                continue
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("level") not in ("error", "error: internal compiler error"):
                continue
            if m["message"].startswith("aborting due to"):
                continue
            keys = set()
            lines = []
            span_lines(m, os.path.basename(src), lines)
            for n in lines:
                k = ranges(n)
                if k is not None:
                    keys.add(k)
                    break
            text = m["message"]
            for c in m.get("children", ()):
                if c.get("level") == "help" and "message: " in c.get("message", ""):
                    text += " | " + c["message"]
            for k in keys:
                errs.setdefault(k, []).append(text)
            if not keys:
                unmapped.append(m.get("rendered") or text)
        if p.returncode != 0 and not errs and not unmapped:
            unmapped.append(p.stderr[-2000:] or f"rustc ended with {p.returncode}")
        return p.returncode == 0, errs, unmapped

    def blame(self, prelude, why, mode=MODES[0]):
        """A compilation failed outside of the enumerated programs: either their shared declarations (all well-formed,
        they compile on the unchanged tree) are rejected, which is a violation, or the check cannot be carried out."""
        src = os.path.join(self.work, "prelude%d.rs" % threading.get_ident())
        with open(src, "w") as f:
            f.write(PRELUDE % prelude + "fn main() {}\n")
        ok, errs, unmapped = self.compile(src, src + ".rmeta", lambda n: None, ("--emit=metadata",), mode=mode)
        if not ok and unmapped and unmapped != ["TIMEOUT"] and any("error" in u for u in unmapped):
            raise PreludeRejected(prelude, unmapped[0])
        raise CheckError(why)

    def culprit(self, what, render, items, name, timeout=25, mode=MODES[0]):
        """The compiler hangs or dies on `items`: halves them, expanding macros only, until one is left."""
        src = os.path.join(self.work, "bisect_%s.rs" % name)

        def dies(sub):
            render(sub, src)
            with open(src, "a") as f:
                f.write('compile_error!("@expanded");\n')
            _, _, un = self.compile(src, src + ".rmeta", lambda n: None, ("--emit=metadata",), timeout, mode)
            return bool(un) and (un[0] == "TIMEOUT" or un[0].startswith("CRASH"))

        if not dies(items):
            raise CheckError(f"the compiler ended with {what} on {len(items)} programs, but not while expanding macros")
        while len(items) > 1:
            half = items[:len(items) // 2]
            items = half if dies(half) else items[len(items) // 2:]
        raise CompilerDies(items[0], what)

    def prelude_rejected(self, e):
        prelude, msg = e.args
        line = re.search(r"^ *\d+ *\|(.*)$", msg, re.M)
        if not any(v["kind"] == "declarations" for v in self.violations):
            self.violation((line.group(1).strip() if line else "the declarations shared by all programs")[:300], None,
                           "the declaration compiles", "rejected: " + msg[:300], {"prelude": prelude, "prog": {"code": ""}, "accept": True},
                           kind="declarations")

    # ------------------------------------------------------------------------------ program shards
    def render(self, sites, prelude, path):
        """Writes the source of a shard. Each site is a module with `pub fn f(i: &str) -> O`."""
        parts = [PRELUDE % prelude]
        line = parts[0].count("\n") + 1
        starts = []
        for s in sites:
            code = (f"mod {s['id']} {{ use crate::pre::*; {s.get('decl', '')} "
                    f"pub fn f<'i>(i: &'i str) -> O {{ {s['code']} }} }}\n")
            starts.append((line, s["id"]))
            parts.append(code)
            line += code.count("\n")
        end = line
        parts.append("fn main() { vrt::explore::main(&[%s]); }\n"
                     % ",".join(f'("{s["id"]}",{s["id"]}::f)' for s in sites))
        with open(path, "w") as f:
            f.write("".join(parts))
        return finder(starts, end)

    def build_shard(self, n, sites, prelude, mode=MODES[0]):
        """Compiles a shard, dropping sites that do not compile. Returns (exe, [rejected])."""
        src = os.path.join(self.work, f"s{n}.rs")
        exe = os.path.join(self.work, f"s{n}.bin")
        rejected = []
        live = list(sites)
        for _ in range(12):
            ok, errs, unmapped = self.compile(src, exe, self.render(live, prelude, src), mode=mode)
            if ok:
                return exe, live, rejected
            if unmapped and (unmapped[0] == "TIMEOUT" or unmapped[0].startswith("CRASH")):
                self.culprit(unmapped[0], lambda sub, p: self.render(sub, prelude, p), live, f"s{n}", mode=mode)
            if not errs:
                self.blame(prelude, "shard does not compile and no site is to blame:\n" + "".join(unmapped)[:3000], mode)
            for s in live:
                if s["id"] in errs:
                    rejected.append((s, errs[s["id"]]))
            live = [s for s in live if s["id"] not in errs]
        # each attempt may show one error only; those found have to be reported
        return None, [], rejected

    def run_sites(self, sites, inputs, types=None, prelude="", per_shard=None, timeout=700):
        """Every site is required to compile; then to agree with its model on all its inputs.
        sites: id, code (Rust expression of type O over i), decl, items (model), in (input indices), src (shown)"""
        types = types or {}
        self.build_base()
        for s in sites:
            s.setdefault("mode", mode_of(s.get("decl", "") + s["code"]))
        if self.thorough or len(sites) <= 1600:
            # both ways
            sites = sites + [dict(s, id=s["id"] + "n", mode=MODES[1 - MODES.index(s["mode"])]) for s in sites if s["mode"] in MODES and not s.get("one_mode")]
        groups = {}
        for s in sites:
            groups.setdefault(tuple(s["mode"]), []).append(s)
        shards = []
        for mode, g in sorted(groups.items()):
            nsh = -(-JOBS // len(groups)) if per_shard is None else max(1, -(-len(g) // per_shard))
            nsh = min(nsh, len(g))
            shards += [(mode, g[k::nsh]) for k in range(nsh)]
        for mode, g in groups.items():
            name = f"sites compiled in edition {mode[0]} " + ("with" if mode[1] else "without") + " debug assertions"
            self.cov[name] = self.cov.get(name, 0) + len(g)
        agg = {"sites": 0, "runs": 0, "ok": 0, "fail": 0, "nomatch": 0}
        vac = []

        def work(k):
            mode, sh = shards[k]
            exe, live, rejected = self.build_shard(k, sh, prelude, mode)
            if exe is None:
                return k, {**agg, "states": 0, "transitions": 0, "nviol": 0, "violations": [], "samples": []}, rejected, live
            spec = os.path.join(self.work, f"s{k}.json")
            used = sorted({n for s in live for n in s["in"]})
            pos = {n: j for j, n in enumerate(used)}
            with open(spec, "w") as f:
                json.dump({
                    "types": types,
                    "inputs": [inputs[n] for n in used],
                    "sites": [{"id": s["id"], "items": s["items"], "in": [pos[n] for n in s["in"]],
                               "deep": bool(s.get("deep")), "coarse": bool(s.get("coarse")), "may_be_empty": bool(s.get("may_be_empty")), "fault": s.get("fault")}
                              for s in live],
                }, f, ensure_ascii=False)
            try:
                p = subprocess.run([exe, spec], env=ENV, capture_output=True, text=True, timeout=timeout,
                                   errors="replace")
                end = p.returncode
                stderr = p.stderr
            except subprocess.TimeoutExpired as e:
                end = "timeout"
                stderr = (e.stderr or b"").decode(errors="replace")
            if end != 0:
                # a hang or an abort of the code under test: name the site, if there is one
                m = re.findall(r"^@(\S+)", stderr, re.M)
                return k, {"sites": 0, "runs": 0, "crash": (m[-1] if m else None, end, stderr[-800:])}, rejected, live
            res = json.loads(p.stdout)
            os.unlink(exe)
            return k, res, rejected, live

        try:
            with cf.ThreadPoolExecutor(JOBS) as ex:
                results = list(ex.map(work, range(len(shards))))
        except PreludeRejected as e:
            self.prelude_rejected(e)
            return agg
        except CompilerDies as e:
            s, what = e.args
            self.violation(s["src"], None, "the program compiles", f"the compiler ended with {what}",
                           {"prelude": prelude, "types": types, "site": s}, kind="macro hang")
            return agg
        byid = {s["id"]: s for s in sites}
        ctx = lambda s: {"prelude": prelude, "types": types, "site": s}
        for k, res, rejected, live in results:
            for s, msgs in rejected:
                self.violation(s["src"], None, "the program compiles", "rejected: " + " / ".join(msgs[:2]),
                               ctx(s), kind="rejected")
            if "crash" in res:
                sid, end, tail = res["crash"]
                if sid is None:
                    raise CheckError(f"shard {k} ended with {end}: {tail}")
                self.violation(byid[sid]["src"], None, "the call returns", f"the process ended with {end}",
                               ctx(byid[sid]), kind="crash")
                continue
            for key in agg:
                agg[key] += res[key]
            self.cov["states"] += res["states"]
            self.cov["transitions"] += res["transitions"]
            self.cov["traces_validated_against_impl"] += res["runs"]
            for v in res["violations"]:
                s = byid[v["site"]]
                self.violation(s["src"], v["input"], v["want"], v["got"], ctx(s))
            extra = res["nviol"] - len(res["violations"])
            self.extra_violations = getattr(self, "extra_violations", 0) + max(0, extra)
            for smp in res["samples"]:
                if smp.get("vacuous"):
                    vac.append(byid[smp["site"]]["src"])
                elif len(self.cov["samples"]) < 12:
                    self.cov["samples"].append({"program": byid[smp["site"]]["src"], "input": smp["input"],
                                                "result": smp["result"]})
        for key, v in agg.items():
            name = {"sites": "call_sites", "ok": "model_ok", "fail": "model_parse_failed",
                    "nomatch": "model_match_failed"}.get(key)
            if name:
                self.cov[name] = self.cov.get(name, 0) + v
        if vac:
            self.cov["sites_without_accepted_input"] = self.cov.get("sites_without_accepted_input", 0) + len(vac)
            self.cov.setdefault("sites_without_accepted_input_examples", vac[:3])
        self.log(f"{agg['sites']} sites, {agg['runs']} runs, {agg['ok']} ok, {agg['fail']} fail; "
                 f"{len(vac)} vacuous {vac[:3]}; violations {len(self.violations)}")
        return agg

    def regex_ok(self, bodies):
        """{body: is it a regex without capture groups}"""
        bodies = sorted(set(bodies))
        src, exe, spec = (os.path.join(self.work, "rx." + x) for x in ("rs", "bin", "json"))
        with open(src, "w") as f:
            f.write("extern crate vrt; fn main() { vrt::rx::main() }\n")
        ok, errs, un = self.compile(src, exe, lambda n: None)
        if not ok:
            raise CheckError("rx helper: " + "".join(un))
        with open(spec, "w") as f:
            json.dump(bodies, f, ensure_ascii=False)
        r = json.loads(subprocess.run([exe, spec], capture_output=True, text=True, check=True).stdout)
        return dict(zip(bodies, map(bool, r)))

    # -------------------------------------------------------------------------------- verdicts
    def verdicts(self, progs, prelude="", per_shard=4000, expand_only=True, timeout=None, tag="v", full=None):
        """The compiler's verdict on each program: a list of (accepted, messages), one per program.
        progs: list of dicts with `code`: items at module level (each is put in its own module).
        Round 0 only expands macros (a deliberate error stops the compiler before type checking); the
        following rounds compile what is left, without what was rejected, until nothing is rejected.
        full(j): whether program j has to go through the later rounds (otherwise passing expansion is enough)."""
        self.build_base()
        n = len(progs)
        groups = {}
        for j, p in enumerate(progs):
            groups.setdefault(tuple(p.get("mode") or mode_of(p["code"])), []).append(j)
        shards = []
        for mode, g in sorted(groups.items()):
            nsh = min(len(g), max(-(-JOBS // len(groups)), -(-len(g) // per_shard)))
            shards += [(mode, g[k::nsh]) for k in range(nsh)]
        verdict = [None] * n

        def work(k):
            mode, idx = shards[k]
            stage = 0 if expand_only else 1
            for rnd in range(40):
                src = os.path.join(self.work, f"{tag}{k}.rs")
                out = os.path.join(self.work, f"{tag}{k}.rmeta")
                head = PRELUDE % prelude
                line = head.count("\n") + 1
                starts, parts = [], [head]
                for j in idx:
                    code = f"mod m{j} {{ use crate::pre::*; {progs[j]['code']} }}\n"
                    starts.append((line, j))
                    parts.append(code)
                    line += code.count("\n")
                end = line
                if stage == 0:
                    parts.append('compile_error!("@expanded");\n')
                parts.append("fn main() {}\n")
                with open(src, "w") as f:
                    f.write("".join(parts))
                t = time.time()
                ok, errs, unmapped = self.compile(src, out, finder(starts, end), ("--emit=metadata",), timeout, mode)
                if os.environ.get("VERIF_DEBUG"):
                    self.log(f"shard {k} round {rnd} stage {stage}: {len(idx)} programs, {len(errs)} errors, {time.time() - t:.1f}s")
                if unmapped and (unmapped[0] == "TIMEOUT" or unmapped[0].startswith("CRASH")):
                    def render(sub, path):
                        with open(path, "w") as f:
                            f.write(head + "".join(f"mod m{j} {{ use crate::pre::*; {q['code']} }}\n" for j, q in enumerate(sub)) + "fn main() {}\n")
                    self.culprit(unmapped[0], render, [progs[j] for j in idx], f"{tag}{k}", mode=mode)
                for j, msgs in errs.items():
                    verdict[j] = (False, msgs)
                idx = [j for j in idx if j not in errs]
                if stage == 0:
                    if not any("@expanded" in u for u in unmapped):
                        self.blame(prelude, "expansion round failed: " + "".join(unmapped)[:2000], mode)
                    stage = 1
                    if full:
                        for j in idx:
                            if not full(j):
                                verdict[j] = (True, [])
                        idx = [j for j in idx if full(j)]
                    if not idx:
                        return
                    continue
                if ok:
                    for j in idx:
                        verdict[j] = (True, [])
                    return
                if not errs:
                    self.blame(prelude, "batch does not compile and no program is to blame: " + "".join(unmapped)[:3000], mode)
                if not idx:
                    return
            for j in idx:  # each attempt may show one error only; those found have to be reported
                verdict[j] = (None, ["undecided"])

        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(work, range(len(shards))))
        return verdict

    def check_verdicts(self, progs, prelude="", full=None, **kw):
        """progs: code, src (shown), accept (bool). Predicted rejections that expand are compiled in full."""
        need = lambda j: progs[j]["accept"] is False or (progs[j]["accept"] and (full is None or full(j)))
        try:
            vs = self.verdicts(progs, prelude, full=need, **kw)
        except PreludeRejected as e:
            self.prelude_rejected(e)
            return [(None, [])] * len(progs)
        except CompilerDies as e:
            p, what = e.args
            self.violation(p["src"], None, "accepted" if p["accept"] else "an ordinary compile error",
                           f"the compiler ended with {what}", {"prog": {"code": p["code"]}, "prelude": prelude, "accept": p["accept"]}, kind="macro hang")
            return [(None, [])] * len(progs)
        acc = rej = 0
        if any(v[0] is None for v in vs) and not any(v[0] is not None and p["accept"] is not None and v[0] != p["accept"] for p, v in zip(progs, vs)):
            raise CheckError("batch does not come to compile")
        for p, (ok, msgs) in zip(progs, vs):
            if ok is None:
                continue
            ctx = {"prog": {"code": p["code"], "mode": p.get("mode")}, "prelude": prelude, "accept": p["accept"]}
            if any("panicked" in m or "TIMEOUT" == m for m in msgs):
                self.violation(p["src"], None, "accepted" if p["accept"] else "an ordinary compile error",
                               "macro panic or hang: " + msgs[0][:200], ctx, kind="macro panic")
            elif p["accept"] is not None and ok != p["accept"]:
                self.violation(p["src"], None, "accepted" if p["accept"] else f"a compile error ({p.get('why', '')})",
                               "accepted" if ok else "rejected: " + msgs[0][:200], ctx, kind="verdict")
            acc += ok
            rej += not ok
        self.cov["programs_accepted"] = self.cov.get("programs_accepted", 0) + acc
        self.cov["programs_rejected"] = self.cov.get("programs_rejected", 0) + rej
        self.cov["traces_validated_against_impl"] += len(progs)
        # each program is a node of the tree of programs, reached by extending or changing another one
        n = len({p["src"] for p in progs})
        self.cov["states"] += n
        self.cov["transitions"] += n
        for p, (ok, msgs) in list(zip(progs, vs))[:: max(1, len(progs) // 4)][:4]:
            self.cov["samples"].append({"program": p["src"][:300], "verdict": "accepted" if ok else "rejected: " + msgs[0][:120]})
        self.log(f"{len(progs)} verdicts: {acc} accepted, {rej} rejected; violations {len(self.violations)}")
        return vs

    # ------------------------------------------------------------------------------ violations
    def _known(self):
        known = {}
        path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == self.prop:
                    known[m.group(2)] = m.group(3).strip()
        return known

    def violation(self, program, inp, want, got, context, kind="differs"):
        key = hashlib.sha256(json.dumps([program, inp, want]).encode()).hexdigest()[:12]
        if key in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {self.known[key]}")
            self.cov["known_findings"] = self.cov.get("known_findings", 0) + 1
            return
        self.violations.append({"key": key, "property": self.prop, "kind": kind, "program": program, "input": inp,
                                "required": want, "got": got, "context": context})

    def finish(self, rule, level="model_checking", wall_extra=None):
        shown = 0
        kinds = {}
        for v in self.violations:
            kinds[v["kind"]] = kinds.get(v["kind"], 0) + 1
        for v in sorted(self.violations, key=lambda v: (len(v["program"]), len(v["input"] or ""))):
            if shown >= 10:
                break
            path = os.path.join(self.out, f"{v['key']}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1, ensure_ascii=False)
            print(f"VIOLATION property={self.prop} replay={path}")
            inp = "" if v["input"] is None else f" input {v['input']!r}:"
            print(f"  {v['program'][:300]} --{inp} required {v['required'][:200]}, got {v['got'][:300]}")
            shown += 1
        total = len(self.violations) + getattr(self, "extra_violations", 0)
        if total > shown:
            print(f"  ... and {total - shown} more violations")
        self.cov["rule"] = rule
        self.cov["exhaustive"] = self.exhaustive
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": self.cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": total,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        shutil.rmtree(self.work, ignore_errors=True)
        self.log(f"done: {total} violations; {json.dumps({k: v for k, v in self.cov.items() if isinstance(v, int)})}")
        return 1 if total else 0


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def finder(starts, end):
    import bisect
    lines = [a for a, _ in starts]

    def find(n):
        if n >= end or not lines or n < lines[0]:
            return None
        return starts[bisect.bisect_right(lines, n) - 1][1]
    return find


def span_lines(m, base, out):
    """source lines that a diagnostic points at, the primary span first, through expansions"""
    def one(sp):
        exp = sp.get("expansion")
        if sp.get("file_name", "").endswith(base):
            out.append(sp["line_start"])
        if exp:
            one(exp["span"])
    spans = m.get("spans", [])
    for sp in [s for s in spans if s.get("is_primary")] + [s for s in spans if not s.get("is_primary")]:
        one(sp)
    for c in m.get("children", ()):
        for sp in c.get("spans", []):
            one(sp)
