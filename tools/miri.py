"""Exploration under the Miri interpreter: C20 (undefined behaviour), C22
(byte order) and C23 (pointer size).  Also the large spaces of other explorers under AddressSanitizer
and the standard library's precondition checks, for C20.

`interp` (harness/src/bin/interp.rs) calls nearly the whole API over small
alphabets and prints a digest per case; it is run in parts, in parallel."""
import concurrent.futures as cf
import os
import re
import shutil
import signal
import subprocess
import time

import literals

HOST = "x86_64-unknown-linux-gnu"
BIG = "s390x-unknown-linux-gnu"
NARROW = "i686-unknown-linux-gnu"
# Spaces of interp where results depend on the target, and are compared with
# their definition.
DEFINED = ("order", "pointers")
# name: (target, cargo profile)
MODES = {
    "miri-x86_64-debug": (HOST, "dbg"),
    "miri-x86_64-release": (HOST, "release"),
    "miri-s390x-debug": (BIG, "dbg"),
    "miri-s390x-release": (BIG, "release"),
    "miri-i686-debug": (NARROW, "dbg"),
    "miri-i686-release": (NARROW, "release"),
}
WHAT = {
    "miri-x86_64-debug": "Miri, little endian, debug assertions and overflow checks on",
    "miri-x86_64-release": "Miri, little endian, debug assertions and overflow checks off",
    "miri-s390x-debug": "Miri, big endian (s390x), debug assertions and overflow checks on",
    "miri-s390x-release": "Miri, big endian (s390x), debug assertions and overflow checks off",
    "miri-i686-debug": "Miri, 32-bit pointers (i686), debug assertions and overflow checks on",
    "miri-i686-release": "Miri, 32-bit pointers (i686), debug assertions and overflow checks off",
    "asan": "native, AddressSanitizer, debug assertions, overflow checks and unsafe-precondition checks on",
}
FLAGS = "-Zmiri-ignore-leaks"
# Where only results matter: no aliasing model, no validity checks.
FAST = FLAGS + " -Zmiri-disable-stacked-borrows -Zmiri-disable-validation"
TREE = FLAGS + " -Zmiri-tree-borrows"


def environment(mod, mode, flags=FLAGS):
    e = mod.env_for("nightly")
    e["CARGO_TARGET_DIR"] = os.path.join(mod.BUILD, mode)
    e["MIRIFLAGS"] = flags
    e["MIRI_SYSROOT"] = os.path.join(mod.BUILD, "miri-sysroot-" + MODES[mode][0])
    return e


def sysroot(mod, target):
    """Built once, in setup; outside the user's cache."""
    root = os.path.join(mod.BUILD, "miri-sysroot-" + target)
    if os.path.isdir(os.path.join(root, "lib")):
        return True
    cache = os.path.join(mod.BUILD, "miri-cache-" + target)
    e = mod.env_for("nightly")
    e["XDG_CACHE_HOME"] = cache
    r = subprocess.run(["cargo", "miri", "setup", "--target", target, "--print-sysroot"],
                       env=e, cwd=os.path.join(mod.VERIF, "harness"),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    path = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ""
    if r.returncode or not os.path.isdir(path):
        print(r.stderr[-2000:])
        return False
    if os.path.isdir(root):
        shutil.rmtree(root)
    shutil.copytree(path, root)
    shutil.rmtree(cache, ignore_errors=True)
    return True


def miri_cmd(mode, args):
    target, profile = MODES[mode]
    return ["cargo", "miri", "run", "--offline", "--locked", "--quiet", "--profile", profile,
            "--target", target, "--bin", "interp", "--"] + args


def run(mod, mode, args, flags=FLAGS, timeout=600):
    p = subprocess.Popen(miri_cmd(mode, args), env=environment(mod, mode, flags),
                         cwd=os.path.join(mod.VERIF, "harness"), stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return None, out, err


def build(mod, mode):
    if not sysroot(mod, MODES[mode][0]):
        raise mod.CheckError("no Miri sysroot for " + MODES[mode][0])
    target = os.path.join(mod.BUILD, mode)
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "ethnum.sources")
    now = mod.source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old is not None and old != now:
        # (cargo itself only looks at modification times)
        shutil.rmtree(os.path.join(target, "miri"), ignore_errors=True)
    open(stamp, "w").write(now)
    rc, out, err = run(mod, mode, ["--case", "9999:0"])
    if rc != 0 or "END" not in out:
        raise mod.CheckError("build for %s failed:\n%s" % (mode, err[-4000:]))


def undefined(err):
    """The complaint, if Miri's output is one about undefined behaviour."""
    m = re.search(r"^error: (Undefined Behavior: .*)$", err, re.M)
    if m:
        where = re.findall(r"--> (\S+)", err[m.end():])
        mine = [w for w in where if "/repo/" in w or w.startswith("/repo")]
        return "%s (%s)" % (m.group(1), (mine or where or ["?"])[0])
    if "unsafe precondition(s) violated" in err:
        m = re.search(r"unsafe precondition\(s\) violated[^\n]*", err)
        return m.group(0)
    return None


class Part:
    def __init__(self):
        self.digests, self.fails, self.spaces, self.ub = {}, {}, {}, []
        self.tree, self.done = False, True


def parse(part, out):
    last = None
    for line in out.splitlines():
        w = line.split(" ", 3)
        if line.startswith("S "):
            n, name, what = line.split(" ", 4)[2:]
            part.spaces.setdefault(int(w[1]), dict(space=name.replace("_", " "), n=int(n), what=what, cases=0, evaluations=0, nontrivial=0))
        elif line.startswith("B "):
            last = (int(w[1]), int(w[2]))
        elif line.startswith("D "):
            part.digests[(int(w[1]), int(w[2]))] = w[3]
        elif line.startswith("F "):
            part.fails.setdefault((int(w[1]), int(w[2])), w[3])
        elif line.startswith("E "):
            s = part.spaces[int(w[1])]
            c, e, non = (int(x) for x in line.split()[2:5])
            s["cases"] += c
            s["evaluations"] += e
            s["nontrivial"] += non
    return last


def run_part(mod, mode, base, k, n, deadline, first):
    part = Part()
    args = base + ["--part", "%d/%d" % (k, n)]
    start = []
    flags = first
    for _ in range(6):
        left = deadline - time.time()
        if left < 5:
            part.done = False
            return part
        rc, out, err = run(mod, mode, args + start, flags, left)
        last = parse(part, out)
        if rc == 0 and out.rstrip().endswith("END"):
            return part
        if rc is None:
            part.done = False
            return part
        ub = undefined(err)
        if not ub or last is None:
            raise mod.CheckError("%s ended with %s at case %s:\n%s" % (mode, rc, last, err[-3000:]))
        # Once more, on its own.
        case = "%d:%d" % last
        rc2, out2, err2 = run(mod, mode, base + ["--case", case], flags, 300)
        alone = undefined(err2)
        if alone and "tacked Borrows" in err2 and flags != TREE:
            # Only what is wrong under both aliasing models counts.
            rc3, out3, err3 = run(mod, mode, base + ["--case", case], TREE, 300)
            alone = undefined(err3)
            if not alone:
                flags, part.tree = TREE, True
                start = ["--from", case]
                continue
        if not alone:
            raise mod.CheckError("%s: %s in case %s, but not on its own" % (mode, ub, case))
        tr = [x for x in out2.splitlines() if x.startswith("TRACE")]
        part.ub.append((last, alone, mod.clip(tr[-1][6:]) if tr else ""))
        if len(part.ub) >= 2:
            return part
        start = ["--from", "%d:%d" % (last[0], last[1] + 1)]
    return part


def explore(mod, mode, tier, lits, deadline, without=(), flags=FLAGS, only=None):
    build(mod, mode)
    base = ["--tier", tier, "--lits", ",".join(lits)]
    if without:
        base += ["--without", ",".join(without)]
    if only:
        base += ["--only", only]
    n = 24 if tier == "quick" else 160
    whole = Part()
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        stop = []

        def go(k):
            if stop:
                p = Part()
                p.done = False
                return p
            p = run_part(mod, mode, base, k, n, deadline, flags)
            if p.ub:
                stop.append(1)
            return p

        for p in ex.map(go, range(n)):
            whole.digests.update(p.digests)
            whole.fails.update(p.fails)
            whole.ub += p.ub
            whole.tree = whole.tree or p.tree
            whole.done = whole.done and p.done
            for i, s in p.spaces.items():
                w = whole.spaces.setdefault(i, dict(s, cases=0, evaluations=0, nontrivial=0))
                for key in ("cases", "evaluations", "nontrivial"):
                    w[key] += s[key]
    mod.log("%s: %d calls in %d cases%s%s" % (mode, sum(s["evaluations"] for s in whole.spaces.values()), len(whole.digests),
                                               "" if whole.done else " (capped)", " (tree borrows)" if whole.tree else ""))
    return whole, base


def native(mod, base, profile="dbg"):
    rc, text = mod.build("nat-" + ("dbg" if profile == "dbg" else "rel"), ["interp"])
    if rc:
        raise mod.CheckError("native build of interp failed:\n" + text[-3000:])
    exe = mod.binary("nat-" + ("dbg" if profile == "dbg" else "rel"), "interp")
    p = subprocess.run([exe] + base + ["--part", "0/1"], env=mod.env_for(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=600)
    part = Part()
    parse(part, p.stdout)
    if p.returncode:
        raise mod.CheckError("native interp: %s %s" % (p.returncode, p.stderr[-1000:]))
    return part


def trace(mod, mode, base, case):
    if mode is None:
        exe = mod.binary("nat-dbg", "interp")
        p = subprocess.run([exe] + base + ["--case", "%d:%d" % case], env=mod.env_for(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=600)
        out = p.stdout
    else:
        _, out, _ = run(mod, mode, base + ["--case", "%d:%d" % case])
    return [x[6:] for x in out.splitlines() if x.startswith("TRACE ")]


# ---------------------------------------------------------------- sanitizer

def asan_build(mod, bins):
    target = os.path.join(mod.BUILD, "asan")
    mod.freshen(target, toolchain="nightly", extra=["--profile", "dbg", "--target", HOST])
    args = ["build", "--offline", "--locked", "--profile", "dbg", "--target", HOST]
    for b in bins:
        args += ["--bin", b]
    return mod.cargo(args, target, "nightly", extra={"RUSTFLAGS": "-Zsanitizer=address"})


def asan_explore(mod, bins, tier, dictf, deadline, work):
    r = asan_build(mod, bins)
    if r.returncode:
        raise mod.CheckError("sanitizer build failed:\n" + r.stdout[-3000:])
    mod.CONFIGS["asan"] = ("dbg", [], WHAT["asan"])
    keep = mod.binary
    mod.binary = lambda cfg, b: os.path.join(mod.BUILD, "asan", HOST, "dbg", b) if cfg == "asan" else keep(cfg, b)
    os.environ["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0"
    runs, viol = [], []
    for j, b in enumerate(bins):
        cap = max(15.0, (deadline - time.time()) / (len(bins) - j))
        rep, v = mod.explore("asan", b, tier, dictf, cap, work)
        if rep:
            runs.append((b, rep))
            mod.log("asan %s: %d comparisons, %.1f s%s" % (b, sum(s["evaluations"] for s in rep["spaces"]), rep["wall_s"],
                                                         "" if all(s["complete"] for s in rep["spaces"]) else " (capped)"))
        # Wrong results are other properties' business.
        viol += [x for x in v if "killed by signal" in x["got"]]
        if viol:
            break
    for v in viol:
        rc, t = mod.one_case("asan", v["bin"], tier, dictf, v["space"], v["index"])
        m = re.search(r"ERROR: AddressSanitizer: [^\n]*|unsafe precondition\(s\) violated[^\n]*", t)
        if m:
            v["got"] = m.group(0)
        v["want"] = "no undefined behaviour"
        v["kind"] = "asan"
    return runs, viol


# ---------------------------------------------------------------- two threads

def races(mod, tier, seconds):
    """Every two groups of functions at the same time.  Miri orders accesses
    by the synchronisation between them, not by the schedule it happened to
    run, so one schedule of each pair stands for all of them as long as the
    code does not synchronise.  Returns (facts for the evidence, violations)."""
    mode = "miri-x86_64-debug"
    whole, base = explore(mod, mode, tier, [], time.time() + seconds, only="threads")
    viol = []

    def case(c, op, args, want, got):
        return {"kind": "miri", "config": mode, "bin": "interp", "tier": tier, "space": "threads", "index": c[1],
                "case": "%d:%d" % c, "base": base, "op": op, "args": args, "want": want, "got": got}

    for c, what, _ in whole.ub:
        if "ata race" in what:
            viol.append(case(c, "two threads at the same time", "(pair %d of groups)" % c[1], "no conflicting accesses", what))
    ref = native(mod, base)
    for c in sorted(whole.digests):
        if whole.digests[c] != ref.digests.get(c):
            viol.append(case(c, "two threads at the same time", "(pair %d of groups)" % c[1], "the digest of native execution, " + str(ref.digests.get(c)), whole.digests[c]))
    facts = {"what": WHAT[mode], "pairs_of_groups": len(whole.digests), "calls": sum(s["evaluations"] for s in whole.spaces.values()), "complete": whole.done and not whole.ub}
    return facts, viol[:3]


# ---------------------------------------------------------------- deciding

# property: (target, what x86_64 is, what the target is, ...)
TARGETS = {
    "C22": ("s390x", "little endian", "big endian", "byte orders"),
    "C23": ("i686", "64-bit pointers", "32-bit pointers", "pointer sizes"),
}


def decide(mod, prop, spec, tier):
    quick = tier == "quick"
    t0 = time.time()
    total = 420.0 if quick else 5 * 3600.0
    work = os.path.join(mod.BUILD, "work", prop)
    os.makedirs(work, exist_ok=True)
    dictf = os.path.join(work, "dict.txt")
    mod.write_dict(dictf)
    lits = [x.strip() for x in open(dictf)]
    if quick:
        # The largest and the oddest ones first; the small ones are there.
        lits = [x for x in lits if int(x, 16) > 300][-16:]
    viol, spaces, samples, evals, cases, non, executions = [], [], [], 0, 0, 0, {}
    complete = True
    extra = {}
    if prop == "C20":
        modes = ["miri-x86_64-debug", "miri-x86_64-release"]
    else:
        cpu, here, there, odd = TARGETS[prop]
        modes = ["miri-%s-debug" % cpu] + ([] if quick else ["miri-%s-release" % cpu])
    for m, mode in enumerate(modes):
        deadline = t0 + total * (m + 1) / (len(modes) + (1 if prop == "C20" else 0.2))
        whole, base = explore(mod, mode, tier, lits, deadline, without=("threads",), flags=FLAGS if prop == "C20" else FAST)
        complete = complete and whole.done
        executions[mode] = len(whole.digests)

        def case(c, op, args, want, got):
            return {"kind": "miri", "config": mode, "bin": "interp", "tier": tier, "space": whole.spaces[c[0]]["space"], "index": c[1],
                    "case": "%d:%d" % c, "base": base, "op": op, "args": args, "want": want, "got": got}

        if prop == "C20":
            for c, what, near in whole.ub:
                viol.append(case(c, "undefined behaviour", "(case %d of %s%s)" % (c[1], whole.spaces[c[0]]["space"], ", after " + near if near else ""), "none", what))
        else:
            ref = native(mod, base, MODES[mode][1])
            for c, what, near in whole.ub:
                build(mod, "miri-x86_64-debug")
                _, _, err = run(mod, "miri-x86_64-debug", base + ["--case", "%d:%d" % c])
                if not undefined(err):
                    viol.append(case(c, "undefined behaviour with %s only" % there, "(case %d of %s)" % (c[1], whole.spaces[c[0]]["space"]), "none", what))
            compared = 0
            for c in sorted(whole.digests):
                name = whole.spaces[c[0]]["space"]
                f, g = whole.fails.get(c), ref.fails.get(c)
                if f and (name in DEFINED or f != g):
                    viol.append(case(c, "execution with " + there, "(case %d of %s)" % (c[1], name), g or "no failure", mod.clip(f, 500)))
                elif name not in DEFINED:
                    compared += 1
                    if whole.digests[c] != ref.digests.get(c):
                        a, b = trace(mod, None, base, c), trace(mod, mode, base, c)
                        d = [(x, y) for x, y in zip(a, b) if x != y] or [("", "")]
                        viol.append(case(c, "agreement of " + odd, mod.clip(d[0][0].split(" -> ")[0], 400), here + ": " + mod.clip(d[0][0].split(" -> ")[-1]),
                                         there + ": " + mod.clip(d[0][1].split(" -> ")[-1])))
                if len(viol) >= 5:
                    break
            extra["differential_cases"] = extra.get("differential_cases", 0) + compared
        for i, s in sorted(whole.spaces.items()):
            spaces.append(dict(s, configuration=mode, complete=s["cases"] == s["n"]))
        evals += sum(s["evaluations"] for s in whole.spaces.values())
        cases += len(whole.digests)
        if m == 0:
            non += sum(s["nontrivial"] for s in whole.spaces.values())
            for i, s in sorted(whole.spaces.items()):
                c = (i, (s["n"] * 5) // 8)
                if c in whole.digests and len(samples) < 14:
                    native_trace = os.path.exists(mod.binary("nat-dbg", "interp"))
                    if native_trace:
                        tr = [mod.clip(x) for x in trace(mod, None, base, c)]
                        samples.append({"space": s["space"], "case": c[1], "calls": len(tr), "trace": tr[:: max(1, len(tr) // 3)][:3]})
                    else:
                        samples.append({"space": s["space"], "case": c[1], "digest": whole.digests[c]})
        if viol:
            break
    if prop == "C20" and not viol:
        runs, v = asan_explore(mod, spec["asan"], tier, dictf, t0 + total, work)
        viol += v
        for b, rep in runs:
            for s in rep["spaces"]:
                evals += s["evaluations"]
                cases += s["covered"]
                complete = complete and s["complete"]
                spaces.append({"space": b + ": " + s["space"], "n": s["cases"], "cases": s["covered"], "evaluations": s["evaluations"], "configuration": "asan", "complete": s["complete"]})
            executions["asan"] = executions.get("asan", 0) + sum(s["covered"] for s in rep["spaces"])
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": non,
        "rule": spec["rule"],
        "samples": samples or ["none"],
        "exhaustive": complete and not viol,
        "executions_per_configuration": executions,
        "configurations": {k: WHAT[k] for k in executions},
        "source_literals_in_alphabet": len(lits),
        "spaces": spaces,
    }
    cov.update(extra)
    return mod.finish(prop, tier, spec["level"], cov, spec["assumptions"], viol)


def replay(mod, v):
    if v.get("kind") == "asan":
        work = os.path.join(mod.BUILD, "work", "replay")
        os.makedirs(work, exist_ok=True)
        dictf = os.path.join(work, "dict.txt")
        mod.write_dict(dictf)
        r = asan_build(mod, [v["bin"]])
        if r.returncode:
            print(r.stdout[-3000:])
            return 1
        exe = os.path.join(mod.BUILD, "asan", HOST, "dbg", v["bin"])
        os.environ["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0"
        rc, out = mod.run_child([exe, "--tier", v["tier"], "--dict", dictf, "--space", v["space"], "--index", str(v["index"])], 300)
        print(out[-6000:])
        return 0 if rc in (0, 1) else 1
    build(mod, v["config"])
    rc, out, err = run(mod, v["config"], v["base"] + ["--case", v["case"]])
    print(out[-6000:])
    print(err[-6000:])
    if rc:
        return 1
    if v["op"].startswith(("agreement", "execution with", "two threads")):
        mod.build("nat-dbg", ["interp"])
        want = native(mod, v["base"])
        c = tuple(int(x) for x in v["case"].split(":"))
        p = Part()
        parse(p, out)
        print("native digest", want.digests.get(c), "here", p.digests.get(c))
        return 1 if p.fails.get(c) or (v["space"] not in DEFINED and p.digests.get(c) != want.digests.get(c)) else 0
    return 0


def setup(mod):
    ok = True
    try:
        for mode in ("miri-x86_64-debug", "miri-x86_64-release", "miri-s390x-debug", "miri-i686-debug"):
            build(mod, mode)
            mod.log("build", mode, "ok")
        rc, text = mod.build("nat-dbg", ["interp"])
        from props import PROPS
        r = asan_build(mod, PROPS["C20"]["asan"])
        mod.log("build asan", "ok" if r.returncode == 0 else "FAILED\n" + r.stdout[-2000:])
        ok = rc == 0 and r.returncode == 0
    except mod.CheckError as e:
        print(e)
        ok = False
    return ok
