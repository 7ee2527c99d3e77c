#!/usr/bin/env python3
"""Decides the properties of ethnum (see DESIGN.md).

    check.py ID [--tier quick|thorough]     decide one property
    check.py --replay FILE                  replay a violation
    check.py --setup                        build everything once
"""
import argparse
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shlex
import shutil
import signal
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known-findings.txt")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import literals  # noqa: E402
import scale  # noqa: E402
from props import PROPS  # noqa: E402

CONFIGS = {
    # name: (cargo profile, features, description)
    "nat-dbg": ("dbg", [], "native intrinsics, debug assertions and overflow checks on"),
    "nat-rel": ("release", [], "native intrinsics, release"),
    "llvm-dbg": ("dbg", ["llvm"], "LLVM intrinsics, debug assertions and overflow checks on"),
    "llvm-rel": ("release", ["llvm"], "LLVM intrinsics, release"),
}
T0 = time.time()


class CheckError(Exception):
    """The check could not be carried out: exit 2, never a verdict."""


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def env_for(toolchain="1.90.0"):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST", "MIRI"))}
    e.update(
        HOME="/root",
        PATH=os.environ.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"),
        RUSTUP_TOOLCHAIN=toolchain,
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="0",
        CARGO_TERM_COLOR="never",
        RUST_BACKTRACE="0",
    )
    if os.path.exists("/usr/bin/clang-20"):
        e["CLANG"] = "/usr/bin/clang-20"
    return e


# ---------------------------------------------------------------- building

def source_hash():
    """Of everything of /repo that the harness is built from."""
    h = hashlib.sha256()
    paths = [os.path.join(REPO, "Cargo.toml")]
    for base in ("src", "intrinsics"):
        for d, dirs, names in os.walk(os.path.join(REPO, base)):
            dirs[:] = sorted(x for x in dirs if x != "target")
            paths += [os.path.join(d, n) for n in sorted(names)]
    for p in paths:
        h.update(p.encode())
        try:
            h.update(hashlib.sha256(open(p, "rb").read()).digest())
        except OSError:
            h.update(b"?")
    return h.hexdigest()


def cargo(args, target, toolchain="1.90.0", cwd=None, extra=None, timeout=None):
    e = env_for(toolchain)
    e["CARGO_TARGET_DIR"] = target
    e.update(extra or {})
    return subprocess.run(
        ["cargo"] + args, cwd=cwd or os.path.join(VERIF, "harness"), env=e,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout,
    )


def freshen(target, cwd=None, toolchain="1.90.0", clean=("ethnum", "ethnum-intrinsics"), extra=()):
    """Throws away what was built from other sources: cargo itself only looks
    at modification times."""
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "ethnum.sources")
    now = source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != now and old is not None:
        for k in clean:
            cargo(["clean", "--offline", "-p", k] + list(extra), target, toolchain, cwd)
    open(stamp, "w").write(now)


def build(cfg, bins):
    profile, features, _ = CONFIGS[cfg]
    target = os.path.join(BUILD, cfg)
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".check-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        freshen(target, extra=["--profile", profile])
        args = ["build", "--offline", "--locked", "--profile", profile]
        if features:
            args += ["--features", ",".join(features)]
        for b in bins:
            args += ["--bin", b]
        r = cargo(args, target)
        if r.returncode and "E0080" not in r.stdout:
            # Once more from scratch, in case something stale was in the way.
            for k in ("ethnum", "ethnum-intrinsics", "mc"):
                cargo(["clean", "--offline", "-p", k, "--profile", profile], target)
            r = cargo(args, target)
        return r.returncode, r.stdout


def build_all(bins, configs):
    with cf.ThreadPoolExecutor(len(configs)) as ex:
        return dict(zip(configs, ex.map(lambda c: build(c, bins), configs)))


def binary(cfg, b):
    return os.path.join(BUILD, cfg, CONFIGS[cfg][0], b)


# ---------------------------------------------------------------- the scaled model

def scaled_model(which, tier):
    """Explores the scaled model of the native intrinsics (tools/scale.py).
    Returns (facts for the evidence, pairs to look at in the real code).  The
    model is derived from the sources by rewriting, and code that cannot be
    rewritten has no model: nothing that happens here is a verdict."""
    gen = os.path.join(BUILD, "scaled-gen")
    target = os.path.join(BUILD, "scaled")
    facts = {"built": False, "word_bits": 8, "operations": [], "wrong": 0}
    os.makedirs(gen, exist_ok=True)
    with open(os.path.join(gen, ".check-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        try:
            facts["blocks_traced"] = scale.generate(REPO, os.path.join(gen, "gen.rs"))
        except Exception as e:
            facts["why"] = "no model of these sources: %s" % e
            return facts, []
        try:
            r = cargo(["build", "--offline", "--release"], target, cwd=os.path.join(VERIF, "scaled"), extra={"SCALED_GEN": gen}, timeout=240)
        except subprocess.TimeoutExpired:
            facts["why"] = "the model does not build in time"
            return facts, []
        if r.returncode:
            facts["why"] = "no model of these sources: " + clip("; ".join(re.findall(r"^error.*", r.stdout, re.M)), 400)
            return facts, []
    facts["built"] = True
    t = time.time()
    _, out = run_child([os.path.join(target, "release", "scaled"), which, str(os.cpu_count() or 8)], 240 if tier == "quick" else 3600)
    pairs, seen = [], set()
    for block in out.split("END\n")[:-1]:
        lines = block.splitlines()
        m = re.match(r"OP (\S+) pairs (\d+) paths (\d+) wrong (\d+) panics (\d+)$", lines[0])
        if not m:
            continue
        facts["operations"].append({"operation": m.group(1), "pairs": int(m.group(2)), "paths": int(m.group(3)), "wrong": int(m.group(4))})
        facts["wrong"] += int(m.group(4))
        bad = [x[2:] for x in lines[1:] if x.startswith("B ")]
        good = [x[2:] for x in lines[1:] if x.startswith("W ")]
        step = max(1, len(bad) // 4000)
        for x in bad[::step] + good:
            if x not in seen:
                seen.add(x)
                pairs.append(x)
    facts["pairs_explored"] = sum(o["pairs"] for o in facts["operations"])
    facts["paths"] = sum(o["paths"] for o in facts["operations"])
    facts["pairs_lifted"] = len(pairs)
    facts["wall_s"] = round(time.time() - t, 1)
    return facts, pairs


# ---------------------------------------------------------------- exploring

def write_dict(path):
    lits = literals.literals(REPO)
    with open(path, "w") as f:
        for v in sorted(lits)[:400]:
            f.write("%x\n" % v)
    return len(lits)


def run_child(cmd, timeout):
    """(exit code or None on timeout, output)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", env=env_for(), start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


def lift_of(dictf):
    return os.path.join(os.path.dirname(dictf), "lift.txt")


def one_case(cfg, b, tier, dictf, space, index, timeout=90, trace=False):
    cmd = [binary(cfg, b), "--tier", tier, "--dict", dictf, "--lift", lift_of(dictf), "--space", space, "--index", str(index)]
    if trace:
        cmd.append("--trace")
    return run_child(cmd, timeout)


def explore(cfg, b, tier, dictf, cap, work):
    """Runs one explorer.  Returns (report or None, violations)."""
    out = os.path.join(work, "%s.%s.json" % (b, cfg))
    slots = os.path.join(work, "%s.%s.slots" % (b, cfg))
    for p in (out, slots):
        if os.path.exists(p):
            os.unlink(p)
    cmd = [binary(cfg, b), "--tier", tier, "--dict", dictf, "--lift", lift_of(dictf), "--cap", "%.0f" % cap,
           "--slots", slots, "--out", out, "--workers", str(os.cpu_count() or 8)]
    rc, text = run_child(cmd, cap + 240)
    rep = None
    if os.path.exists(out):
        try:
            rep = json.load(open(out))
        except ValueError:
            rep = None
    viol = []

    def case(space, index, op, args, want, got):
        return {"config": cfg, "bin": b, "tier": tier, "space": space, "index": index,
                "op": op, "args": args, "want": want, "got": got}

    if rc in (0, 1) and rep and "spaces" in rep:
        for f in rep["fails"]:
            viol.append(case(f["space"], f["index"], f["op"], f["args"], f["want"], f["got"]))
        return rep, viol
    # Killed by a signal, or stuck: find the case, and make sure that it is
    # the case that does it.
    suspects = []
    if rep and "hang" in rep:
        suspects.append((rep["hang"]["space"], rep["hang"]["index"]))
    if rc is not None and rc != 97 and rc < 0 or rc is None:
        try:
            raw = open(slots, "rb").read()
        except OSError:
            raw = b""
        for w in range(0, len(raw) - 63, 64):
            sp, ix, ticks, busy = struct.unpack_from("<4Q", raw, w)
            if busy or ticks:
                suspects.append(("#%d" % sp, ix))
    seen = set()
    for sp, ix in suspects:
        if (sp, ix) in seen:
            continue
        seen.add((sp, ix))
        r1, t1 = one_case(cfg, b, tier, dictf, sp, ix)
        r2, _ = one_case(cfg, b, tier, dictf, sp, ix) if r1 not in (0, 2) else (r1, "")
        if r1 == r2 and (r1 is None or r1 < 0 or r1 == 1):
            if r1 == 1:
                m = re.search(r"^FAIL .*$", t1, re.M)
                got = m.group(0) if m else "failure"
            else:
                got = "no answer within 90 s" if r1 is None else "process killed by signal %d" % -r1
            viol.append(case(sp, ix, "case", "(case %s of %s)" % (ix, sp), "a result", got))
            break
    if not viol:
        raise CheckError("%s (%s) ended with %s and no case that explains it:\n%s" % (b, cfg, rc, text[-2000:]))
    return None, viol


def differing_case(b, tier, dictf, space, cfgs, work):
    """The first case of a space on which two builds differ."""
    files = []
    for c in cfgs:
        f = os.path.join(work, "digests.%s" % c)
        rc, out = run_child([binary(c, b), "--tier", tier, "--dict", dictf, "--space", space, "--digests", f], 600)
        if rc != 0:
            raise CheckError("digests of %s in %s: %s %s" % (space, c, rc, out[-500:]))
        files.append(open(f, "rb").read())
    a, z = files
    if len(a) != len(z):
        raise CheckError("digest files differ in length")
    for i in range(0, len(a), 8):
        if a[i:i + 8] != z[i:i + 8]:
            traces = []
            for c in cfgs:
                _, t = one_case(c, b, tier, dictf, space, i // 8, trace=True)
                traces.append([x for x in t.splitlines() if x.startswith("TRACE ")])
            diff = [(x, y) for x, y in zip(*traces) if x != y]
            return i // 8, diff
    return None


# ---------------------------------------------------------------- reporting

def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) (\{.*\})\s*$", line)
            if m and m.group(1) == prop:
                out.append(json.loads(m.group(2)))
    return out


def is_known(v, known):
    return any(k.get("op") == v.get("op") and k.get("args") == v.get("args")
               and k.get("config", v.get("config")) == v.get("config") for k in known)


def write_replay(prop, v, n):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, "%s-%d.json" % (prop, n))
    if v.get("space") == "model paths":
        with open(os.path.join(BUILD, "work", prop, "lift.txt")) as f:
            v["lift"] = f.read()
    v = dict(v, property=prop, replay_cmd="python3 check.py --replay %s" % os.path.relpath(p, VERIF))
    json.dump(v, open(p, "w"), indent=1)
    return os.path.relpath(p, VERIF)


def finish(prop, tier, level, coverage, assumptions, viol):
    known = known_findings(prop)
    new, old = [], []
    for v in viol:
        (old if is_known(v, known) else new).append(v)
    for v in old:
        print("KNOWN-FINDING: property=%s %s %s expected %s got %s" % (prop, v["op"], v["args"], v["want"], v["got"]))
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level, "coverage": coverage, "assumptions": assumptions,
        "wall_s": round(time.time() - T0, 2), "violations": len(new),
    }
    os.makedirs(EVID, exist_ok=True)
    text = json.dumps(ev, indent=1)
    while len(text) > 60000 and coverage.get("samples"):
        coverage["samples"] = coverage["samples"][: len(coverage["samples"]) // 2]
        text = json.dumps(ev, indent=1)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        f.write(text)
    for n, v in enumerate(new[:5]):
        path = write_replay(prop, v, n)
        log("%s [%s]: %s %s: expected %s, got %s" % (prop, v.get("config"), v["op"], v["args"], v["want"], v["got"]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    if new:
        return 1
    log("%s: held on everything explored (%s)" % (prop, tier))
    return 0


def clip(s, n=300):
    return s if len(s) <= n else s[:n] + "..."


# ---------------------------------------------------------------- the explorers

def decide_explore(prop, spec, tier):
    bins = spec["bins"]
    configs = spec.get("configs", list(CONFIGS))
    work = os.path.join(BUILD, "work", prop)
    os.makedirs(work, exist_ok=True)
    dictf = os.path.join(work, "dict.txt")
    nlits = write_dict(dictf)
    model = None
    with open(lift_of(dictf), "w") as f:
        if spec.get("scaled"):
            model, pairs = scaled_model(spec["scaled"], tier)
            f.write("".join(x + "\n" for x in pairs))
            log("scaled model:", json.dumps({k: v for k, v in model.items() if k != "operations"}))
    res = build_all(bins, configs)
    viol = []
    for c, (rc, text) in res.items():
        if rc:
            errs = re.findall(r"^error.*(?:\n(?!warning|error).*)*", text, re.M)
            if spec.get("const_eval") and "error[E0080]" in text:
                e = [x for x in errs if "E0080" in x]
                where = re.search(r"--> (src/bin/\S+)", e[0])
                viol.append({"config": c, "bin": bins[0], "tier": tier, "op": "compile-time literal",
                             "args": where.group(1) if where else "", "want": "a constant", "got": clip(e[0], 600), "build": True})
            else:
                raise CheckError("build of %s for %s failed:\n%s" % (bins, c, text[-4000:]))
    log("built", ", ".join(configs))
    if viol:
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": spec["rule"], "samples": [viol[0]["got"]], "states": 0, "transitions": 0, "traces_validated_against_impl": 0}
        return finish(prop, tier, spec["level"], cov, spec["assumptions"], viol[:1])
    total = 700.0 if tier == "quick" else 6 * 3600.0
    runs = []
    for k, c in enumerate(configs):
        for j, b in enumerate(bins):
            left = total - (time.time() - T0)
            cap = max(20.0, left / ((len(configs) - k) * len(bins) - j))
            rep, v = explore(c, b, tier, dictf, cap, work)
            if rep:
                n = sum(s["evaluations"] for s in rep["spaces"])
                log("%s %s: %d comparisons in %d spaces, %.1f s%s" % (
                    b, c, n, len(rep["spaces"]), rep["wall_s"],
                    "" if all(s["complete"] for s in rep["spaces"]) else " (capped)"))
                runs.append((c, b, rep))
            viol += v
        if viol:
            break
    # Builds must agree with each other where a space says so by its digest.
    differential = 0
    if not viol:
        by = {}
        for c, b, rep in runs:
            for s in rep["spaces"]:
                if s["digest"] and s["complete"]:
                    key = (b, s["space"])
                    if "@profile" in s["space"]:
                        key += (c.split("-")[1],)
                    by.setdefault(key, []).append((c, s["digest"], s["cases"]))
        for key, lst in by.items():
            differential += lst[0][2] * (len(lst) - 1)
            odd = [x for x in lst[1:] if x[1] != lst[0][1]]
            if odd:
                pairc = (lst[0][0], odd[0][0])
                found = differing_case(key[0], tier, dictf, key[1], pairc, work)
                if not found:
                    raise CheckError("digests of %s differ and no case does" % (key,))
                i, diff = found
                x = diff[0] if diff else ("", "")
                viol.append({"config": pairc[1], "other": pairc[0], "bin": key[0], "tier": tier, "space": key[1], "index": i,
                             "op": "agreement of builds", "args": clip(x[0].replace("TRACE ", "").split(" -> ")[0], 400) or "(case %d of %s)" % (i, key[1]),
                             "want": "%s: %s" % (pairc[0], clip(x[0].split(" -> ")[-1])), "got": "%s: %s" % (pairc[1], clip(x[1].split(" -> ")[-1]))})
    samples = []
    if runs:
        c, b, rep = runs[0]
        for k, s in enumerate(rep["spaces"]):
            if s["cases"] and len(samples) < 40:
                i = (s["cases"] * 5) // 8
                rc, t = one_case(c, b, tier, dictf, s["space"], i, trace=True)
                tr = [clip(x[6:]) for x in t.splitlines() if x.startswith("TRACE ")]
                step = max(1, len(tr) // 3)
                samples.append({"space": s["space"], "case": i, "checked": len(tr), "trace": tr[::step][:3]})
    evals = sum(s["evaluations"] for _, _, r in runs for s in r["spaces"])
    by_space = {}
    for c, b, r in runs:
        for s in r["spaces"]:
            e = by_space.setdefault((b, s["space"]), {"space": s["space"], "what": s["what"], "cases": s["cases"],
                                                     "nontrivial": 0, "outcomes": s["outcomes"], "complete": True, "runs": {}})
            e["nontrivial"] = max(e["nontrivial"], s["nontrivial_cases"])
            e["complete"] = e["complete"] and s["complete"]
            e["runs"][c] = {"covered": s["covered"], "evaluations": s["evaluations"]}
            if s["outcomes"] != e["outcomes"]:
                e["runs"][c]["outcomes"] = s["outcomes"]
    spaces = list(by_space.values())
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": sum(e["nontrivial"] for e in spaces),
        "rule": spec["rule"],
        "samples": samples,
        "exhaustive": bool(runs) and all(e["complete"] for e in spaces) and len(runs) == len(configs) * len(bins),
        "executions_per_configuration": {c: sum(s["covered"] for cc, _, r in runs if cc == c for s in r["spaces"]) for c in configs if any(cc == c for cc, _, _ in runs)},
        "configurations": {c: CONFIGS[c][2] for c in configs},
        "source_literals_in_alphabet": nlits,
        "reference_model_selftest_checks": runs[0][2]["model_selftest"] if runs else 0,
        "differential_cases": differential,
        "spaces": spaces,
    }
    if model:
        lifted = [s for _, _, r in runs for s in r["spaces"] if s["space"] == "model paths"]
        model["lifted_cases_executed_on_the_real_code"] = sum(s["covered"] for s in lifted)
        if model["wrong"] and not viol:
            model["note"] = "the model fails on pairs on which the real code, lifted in every way, does not: the rewriting does not fit these sources"
        cov["scaled_model"] = model
    if spec.get("races") and not viol:
        import miri
        facts, viol = miri.races(sys.modules[__name__], tier, 300.0 if tier == "quick" else 3600.0)
        cov["two_threads_at_the_same_time"] = facts
    if spec["level"] == "model_checking":
        st = lambda key: sum(s["outcomes"].get(key, 0) for cc, _, r in runs for s in r["spaces"])
        cov["states"] = st("states")
        cov["transitions"] = st("transitions")
        cov["traces_validated_against_impl"] = st("traces")
    return finish(prop, tier, spec["level"], cov, spec["assumptions"], viol)


# ---------------------------------------------------------------- other modes

def replay(path):
    v = json.load(open(path))
    if v.get("kind") == "miri":
        import miri
        return miri.replay(sys.modules[__name__], v)
    b, c = v["bin"], v["config"]
    work = os.path.join(BUILD, "work", "replay")
    os.makedirs(work, exist_ok=True)
    dictf = os.path.join(work, "dict.txt")
    write_dict(dictf)
    with open(lift_of(dictf), "w") as f:
        f.write(v.get("lift", ""))
    rcs = []
    for cfg in [x for x in (v.get("other"), c) if x]:
        rc, text = build(cfg, [b])
        if rc:
            print(text[-3000:])
            return 1
        if v.get("build"):
            print("builds")
            continue
        rc, out = one_case(cfg, b, v["tier"], dictf, v["space"], v["index"], trace=bool(v.get("other")))
        print("== %s: exit %s" % (cfg, rc))
        print(out)
        rcs.append((rc, out))
    if v.get("other"):
        return 0 if rcs[0][1] == rcs[1][1] else 1
    return 0 if all(rc == 0 for rc, _ in rcs) else 1


def setup():
    bins = sorted({b for p in PROPS.values() if p["kind"] == "explore" for b in p["bins"]})
    ok = True
    # The slow, ethnum-independent dependencies once per configuration.
    for c, (rc, text) in build_all(bins, list(CONFIGS)).items():
        log("build", c, "ok" if rc == 0 else "FAILED")
        if rc:
            print(text[-3000:])
            ok = False
    log("scaled model", scaled_model("shift", "quick")[0]["built"])
    if any(p["kind"] == "miri" for p in PROPS.values()):
        import miri
        ok = miri.setup(sys.modules[__name__]) and ok
    return 0 if ok else 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        return setup()
    if a.replay:
        return replay(a.replay)
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = PROPS[a.prop]
    try:
        if spec["kind"] == "explore":
            return decide_explore(a.prop, spec, tier)
        if spec["kind"] == "miri":
            import miri
            return miri.decide(sys.modules[__name__], a.prop, spec, tier)
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (a.prop, e), flush=True)
        return 2
    return 2


if __name__ == "__main__":
    sys.exit(main())
