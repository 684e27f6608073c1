#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its compiled code.

    check.py PROPERTY [--tier quick|thorough] [--only HARNESS]

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken, and
the counterexample fails natively too. Exit 2: no verdict.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
T0 = time.time()
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
Z3 = [
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so",
    "/usr/lib/x86_64-linux-gnu/libz3.so.4",
    "/usr/lib/x86_64-linux-gnu/libz3.so",
]
JOBS = str(os.cpu_count() or 8)
# Further builds of /repo that a property is decided for: (harnesses, rustflags).
# The portable control groups of swiss tables are what Miri is given.
VARIANTS = {"Z07": {"portable": "--cfg miri -A explicit_builtin_cfgs_in_flags"}}


def functions(fs):
    """Encoded functions without their generic arguments, with the number of instances."""
    n = {}
    for f in fs:
        out, depth = "", 0
        for i, c in enumerate(f):
            if c == "<":
                depth += 1
            elif c == ">" and f[i - 1] != "-":
                depth -= 1
            elif depth == 0:
                out += c
        n[out] = n.get(out, 0) + 1
    return [k if v == 1 else f"{k} x{v}" for k, v in sorted(n.items())]


def env(**kw):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    e.update(kw)
    return e


class Fail(Exception):
    pass


def run(cmd, what, cwd=V, timeout=600, **kw):
    p = subprocess.run(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise Fail(f"{what} failed ({p.returncode}):\n" + "\n".join(p.stdout.splitlines()[-60:]))
    return p.stdout


def fresh(t):
    """Cargo trusts modification times; forget what it built in `t` from another state of /repo."""
    h = hashlib.sha256()
    for d, ds, fs in os.walk("/repo"):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as r:
                    h.update(r.read())
    m = f"{t}/.repo-state"
    if os.path.exists(m) and open(m).read() == h.hexdigest():
        return
    for f in glob.glob(f"{t}/*/.fingerprint/*musli*") + glob.glob(f"{t}/*/*/.fingerprint/*musli*"):
        shutil.rmtree(f, ignore_errors=True)
    os.makedirs(t, exist_ok=True)
    with open(m, "w") as w:
        w.write(h.hexdigest())


def build_engine():
    t = f"{V}/build/engine"
    run(["cargo", "build", "--release", "--offline", "-q"], "building symex", cwd=f"{V}/symex", CARGO_TARGET_DIR=t)
    return f"{t}/release/symex"


def flags(prop, variant):
    f = VARIANTS.get(prop.upper(), {}).get(variant)
    return {"RUSTFLAGS": f} if f else {}


def build_ir(feature, deep, variant):
    """LLVM IR of harness + musli + what they use of core/alloc/std, one module."""
    t = f"{V}/build/sym{variant and '-' + variant}"
    fresh(t)
    d = f"{t}/debug/deps"
    for f in glob.glob(f"{d}/*vh*.bc") + glob.glob(f"{d}/*vh*.o") + glob.glob(f"{d}/*vh*.ll"):
        os.remove(f)
    os.utime(f"{V}/harness/src/lib.rs")
    feats = feature + (",thorough" if deep else "")
    run(
        ["cargo", "rustc", "--offline", "-q", "--lib", "--crate-type", "cdylib", "--features", feats, "--",
         "--cfg", "symex", "-C", "save-temps", "-C", "linker=/bin/true"],
        "compiling the harness against /repo", cwd=f"{V}/harness", CARGO_TARGET_DIR=t, **flags(feature, variant))
    bc = sorted(glob.glob(f"{d}/*.lto.after-restriction.bc"), key=os.path.getmtime)
    if not bc:
        raise Fail("no LTO bitcode was written")
    root = subprocess.run(["rustc", "--print", "sysroot"], env=env(), stdout=subprocess.PIPE, text=True).stdout.strip()
    opt = glob.glob(f"{root}/lib/rustlib/*/bin/opt")
    if not opt:
        raise Fail("no opt in the toolchain")
    ll = f"{t}/{feature}.ll"
    run([opt[0], "-passes=globaldce,default<O1>", "-S", bc[-1], "-o", ll], "opt")
    for f in glob.glob(f"{d}/*vh*.bc") + glob.glob(f"{d}/*vh*.o"):
        os.remove(f)
    return ll


def build_native(feature, deep, profile, variant):
    t = f"{V}/build/{profile}{variant and '-' + variant}"
    fresh(t)
    feats = feature + (",thorough" if deep else "")
    run(["cargo", "build", "--offline", "-q", "--bin", "replay", "--profile", profile, "--features", feats],
        f"building the native replay ({profile})", cwd=f"{V}/harness", CARGO_TARGET_DIR=t, **flags(feature, variant))
    return f"{t}/{profile}/replay"


def replay(binary, cases, secs=10):
    """[(harness, hex)] -> [verdict]"""
    if not cases:
        return []
    n = max(1, min(8, len(cases) // 8))
    chunks = [cases[i::n] for i in range(n)]

    def one(ch):
        s = "".join(f"{h} {x}\n" for h, x in ch)
        p = subprocess.run([binary, str(secs)], input=s, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
        r = [l.split(" ", 2)[2] if l.count(" ") >= 2 else "?" for l in p.stdout.splitlines()]
        return r + ["?"] * (len(ch) - len(r))

    out = [None] * len(cases)
    with cf.ThreadPoolExecutor(n) as ex:
        for i, r in enumerate(ex.map(one, chunks)):
            for k, v in enumerate(r[: len(chunks[i])]):
                out[i + k * n] = v
    return out


def miri(feature, deep, h, x):
    feats = feature + (",thorough" if deep else "")
    fresh(f"{V}/build/miri")
    try:
        p = subprocess.run(
            ["cargo", "miri", "run", "-q", "--offline", "--bin", "replay", "--features", feats, "--", "--one", h, x],
            cwd=f"{V}/harness", env=env(RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu", CARGO_TARGET_DIR=f"{V}/build/miri",
                                        MIRIFLAGS="-Zmiri-ignore-leaks -Zmiri-permissive-provenance"),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return "?"
    if "Undefined Behavior" in p.stdout:
        m = re.search(r"error: (Undefined Behavior.*)", p.stdout)
        return "violation miri: " + m.group(1)
    for l in p.stdout.splitlines():
        if l.startswith(("ok ", "violation ", "assume", "known ")):
            return l
    return "? " + p.stdout[-300:]


def main():
    args = sys.argv[1:]
    prop = args[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    keep = None
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
            i += 1
        elif args[i] == "--only":
            only = args[i + 1]
            i += 1
        elif args[i] == "--covers":
            keep = args[i + 1]
            i += 1
        i += 1
    deep = tier == "thorough"
    feature = prop.lower()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(f"{V}/evidence/replays", exist_ok=True)
    os.makedirs(f"{V}/build", exist_ok=True)
    for f in glob.glob(f"{V}/evidence/replays/{prop}-*"):
        os.remove(f)
    known = [k for k in json.load(open(f"{V}/known-findings.json"))["findings"] if k["property"] == prop]

    z3 = sum((["--z3", z] for z in Z3), [])
    errors, viols, findings, incomplete = [], [], {}, []
    hs, H, R, fns, cases, mismatch, t_build = [], {}, {}, {}, [], [], 0
    for variant in ["", *VARIANTS.get(prop, {})]:
        t0 = time.time()
        with cf.ThreadPoolExecutor(3) as ex:
            fe = ex.submit(build_engine)
            fi = ex.submit(build_ir, feature, deep, variant)
            fn = ex.submit(build_native, feature, deep, "nat", variant)
            engine, ll, nat = fe.result(), fi.result(), fn.result()
        t_build += time.time() - t0

        hv = [h for h in run([engine, "--ll", ll, "--list"] + z3, "listing harnesses").split() if h.startswith(f"h_{feature}_")]
        if only:
            hv = [h for h in hv if only in h]
        if not hv:
            raise Fail("no harnesses")
        out = f"{V}/build/sym/{feature}.json"
        wall = 640 if deep else 330
        if prop in VARIANTS:
            wall //= 1 + len(VARIANTS[prop])
        run([engine, "--ll", ll, "--json", out, "--jobs", JOBS, "--wall", str(wall), "--secs", str(wall * 8),
             "--samples", "48" if not deep else "200"] + z3 + hv, "symex", timeout=wall + 200)
        r = json.load(open(out))
        for k, v in r.items():
            if isinstance(v, int):
                R[k] = R.get(k, 0) + v
        R["solver"] = r["solver"]
        fns.update((f, 1) for f in r["functions"])
        name = lambda h: h + (variant and "@" + variant)
        hs += [name(h) for h in hv]

        # The models of completed paths, run natively: must behave as predicted.
        cv, want = [], []
        for h in hv:
            s = H[name(h)] = r["harnesses"][h]
            for x, tr in s["samples"]:
                cv.append((h, x))
                want.append(f"ok {tr}")
            for k, (n, x) in s["known"].items():
                cv.append((h, x))
                want.append(f"known {k}")
        got = replay(nat, cv)
        cases += cv
        mismatch += [(c, w, g) for c, w, g in zip(cv, want, got) if w != g]

        rel = None
        for h in hv:
            for k, (n, x) in r["harnesses"][h]["known"].items():
                e = [f for f in known if f.get("number") == int(k)]
                if e:
                    findings[int(k)] = e[0]
                else:
                    viols.append((name(h), x, "known-condition", f"condition {k} is not listed in known-findings.json", [], "native: known condition", nat))
            for v in r["harnesses"][h]["violations"]:
                x = v["input"]
                d = replay(nat, [(h, x)], 20)[0]
                ok = d.startswith("violation")
                how = f"dev: {d}"
                if rel is None:
                    try:
                        rel = build_native(feature, deep, "rel", variant)
                    except Fail as e:
                        errors.append(str(e))
                        rel = False
                if rel:
                    d2 = replay(rel, [(h, x)], 20)[0]
                    how += f"; release: {d2}"
                    ok = ok or d2.startswith("violation")
                if not ok:
                    d3 = miri(feature, deep, h, x)
                    how += f"; miri: {d3}"
                    ok = d3.startswith("violation")
                if not ok:
                    errors.append(f"counterexample of {h} does not fail natively: {v['kind']} {v['msg']} input={x} ({how})")
                    continue
                e = [f for f in known if f.get("harness") == h and f.get("kind") == v["kind"] and any(f["at"] in s for s in v["stack"][:8])]
                if e:
                    findings[e[0]["number"]] = e[0]
                else:
                    viols.append((name(h), x, v["kind"], v["msg"], v["stack"], how, nat))
    r = R
    if mismatch and not viols:
        for c, w, g in mismatch[:5]:
            errors.append(f"native run disagrees with the symbolic one: {c[0]} {c[1]}: expected {w}, got {g}")
    base = json.load(open(f"{V}/covers.json")) if os.path.exists(f"{V}/covers.json") else {}
    for h in hs:
        s = H[h]
        if not s["complete"] and s["stopped"] != "violations":
            incomplete.append(f"{h}: stopped by {s['stopped']} after {s['paths']} paths")
        if s["aborts"]:
            incomplete.append(f"{h}: paths that are not executable symbolically: {s['aborts']}")
        if s["unknown"]:
            incomplete.append(f"{h}: {s['unknown']} solver queries without an answer")
        if not s["violations"]:
            need = base.get(h.split("@")[0], {}).get(tier, [])
            miss = [c for c in need if str(c) not in s["covers"]]
            if miss and s["complete"]:
                errors.append(f"{h}: vacuous: situations {miss} are no longer reached")
            if not s["ok"] and not s["known"]:
                errors.append(f"{h}: vacuous: no path completes")
    if keep:
        json.dump({h: sorted(int(c) for c in H[h]["covers"]) for h in hs}, open(keep, "w"))

    wall_s = time.time() - T0
    tot = lambda k: sum(H[h][k] for h in hs)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("branches"),
            "traces_validated_against_impl": len(cases) - len(mismatch),
            "samples": [f"{h} input={x} -> path completed, trace {t}, same natively" for h in hs for x, t in H[h]["samples"][:2]][:60] or ["none"],
            "exhaustive": not incomplete and not viols and not errors,
            "rule": "states = complete execution paths explored symbolically; transitions = symbolic branch decisions on them; every feasible path within the harness bounds is explored unless listed under incomplete",
            "harnesses": {
                h: {k: H[h][k] for k in ("complete", "paths", "ok", "assume", "insts", "branches", "bytes", "unknown", "cpu_ms", "covers", "known")}
                for h in hs
            },
            "instructions_executed": tot("insts"),
            "solver": {k: r[k] for k in ("solver", "queries", "cached", "domain", "sat", "unsat", "unknown", "solver_ms")},
            "functions_encoded": functions(fns),
            "incomplete": incomplete,
            "known_findings_met": sorted(findings),
            "build_s": round(t_build, 1),
        },
        "assumptions": [
            "bounds: every symbolic input byte string has the length stated per harness (bytes = most symbolic bytes on a path); loops are unrolled as far as these inputs drive them",
            "target x86_64, rustc stable, opt-level 1 with overflow checks and debug assertions; LLVM semantics as implemented by symex",
            "errors are reported through a context that drops messages; formatting of messages is not executed",
            "allocation succeeds up to 8 MiB per object",
        ],
        "wall_s": round(wall_s, 2),
        "violations": len(viols),
    }
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop} {tier}: {len(hs)} harnesses, {tot('paths')} paths, {tot('branches')} branches, {tot('insts')} instructions, "
          f"{r['queries']} queries ({r['cached']} cached, plus {r['domain']} byte domain verdicts, {r['sat']} sat, {r['unsat']} unsat, {r['unknown']} unknown), "
          f"solver {r['solver_ms']} ms, {len(cases)} paths replayed natively, build {t_build:.1f} s, total {wall_s:.1f} s")
    for l in incomplete:
        print("INCOMPLETE:", l)
    for k, f in sorted(findings.items()):
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    for n, (h, x, kind, msg, st, how, nat) in enumerate(viols):
        path = f"{V}/evidence/replays/{prop}-{n}.txt"
        with open(path, "w") as f:
            f.write(f"property {prop}\nharness {h}\ninput {x}\n{kind}: {msg}\nnative: {how}\nstack:\n" + "\n".join("  " + s for s in st) + "\n")
            f.write(f"replay: echo '{h.split('@')[0]} {x}' | {nat}\n")
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {h}: {kind}: {msg} input={x} ({how})")
        for s in st[:6]:
            print("   ", s)
    for e in errors:
        print("ERROR:", e)
    if viols:
        sys.exit(1)
    if errors:
        sys.exit(2)


if __name__ == "__main__":
    try:
        main()
    except Fail as e:
        print("ERROR:", e)
        sys.exit(2)
