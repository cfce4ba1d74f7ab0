#!/usr/bin/env python3
"""Builds scclust from /repo's working tree together with one property's model checking harness,
explores the harness's bounded space on all cores, and writes the evidence.

  check.py <property> [quick|thorough]      explore (exit 0 held, 1 violation, 2 no verdict)
  check.py --replay <replay file>           run one recorded case again
  check.py --setup                          check that the toolchain needed is there
"""
import concurrent.futures as cf
import json, os, re, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
H = os.path.join(HERE, "harness")
sys.path.insert(0, HERE)
from props import PROPS, COMMON_ASSUMPTIONS  # noqa: E402

NPROC = os.cpu_count() or 8
CAP = {"quick": 420.0, "thorough": 780.0}
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow,nonnull-attribute,vla-bound", "-fno-sanitize-recover=all"]


class NoVerdict(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def configure(work, args):
    """Runs the repository's own configure script out of tree and returns the configured tree."""
    tree, out, bind = (os.path.join(work, d) for d in ("src_tree", "out", "bin"))
    for d in (tree, out, bind):
        os.makedirs(d)
    with open(os.path.join(bind, "ed"), "w") as f:
        f.write("#!/bin/sh\nsed 's/^q$/Q/' | /usr/bin/ed \"$@\"\n")
    os.chmod(os.path.join(bind, "ed"), 0o755)
    for n in ("configure", "dist_info", "LICENSE", "README.md", "doxyrefs.bib", "examples", "include", "src", "templates"):
        s = os.path.join(REPO, n)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(tree, n), ignore=shutil.ignore_patterns("*.o"))
        elif os.path.exists(s):
            shutil.copy2(s, os.path.join(tree, n))
    for g in ("include/scclust.h", "src/scclust_types.h"):
        p = os.path.join(tree, g)
        if os.path.exists(p):
            os.remove(p)
    env = dict(os.environ, PATH=bind + ":" + os.environ["PATH"], LC_ALL="C.UTF-8")
    rc, txt = sh(["../src_tree/configure"] + args, cwd=out, env=env)
    if rc != 0 or not os.path.exists(os.path.join(out, "include/scclust.h")):
        raise NoVerdict("configure failed:\n" + txt[-3000:])
    return out


def lib_sources(out):
    with open(os.path.join(out, "Makefile")) as f:
        names = re.findall(r"^\t(\w+)\.o\b", f.read(), re.M)
    src = [os.path.join(out, "src", n + ".c") for n in names if n != "digraph_debug"]
    src = [s for s in src if os.path.exists(s)]
    if not src:
        src = [os.path.join(out, "src", n) for n in sorted(os.listdir(os.path.join(out, "src"))) if n.endswith(".c") and n != "digraph_debug.c"]
    return src


def build(work, run, prop):
    """One run: a configuration of the library and a harness linked with it. Known findings become definitions for the harness."""
    known = ["-DKNOWN_" + key for key, _ in known_findings(prop)]
    os.makedirs(work)
    out = configure(work, run.get("configure", []))
    for fn, subs in run.get("edit", {}).items():
        p = os.path.join(out, fn)
        with open(p) as f:
            s = f.read()
        for a, b in subs:
            s2 = re.sub(a, b, s, flags=re.M)
            if s2 == s:
                raise NoVerdict("cannot apply the configuration edit %r to %s" % (a, fn))
            s = s2
        with open(p, "w") as f:
            f.write(s)
    san = run.get("san", SAN)
    cc = run.get("cc", "gcc")
    jobs, objs = [], []
    inc = ["-I", out, "-I", os.path.join(out, "src"), "-I", H]
    if run.get("cxx_sources"):
        inc += ["-I", os.path.join(out, "..", "src_tree", os.path.dirname(run["cxx_sources"][0]))]
    assert_def = [] if run.get("assert") else ["-DNDEBUG"]
    for s in lib_sources(out):
        o = os.path.join(work, "lib_" + os.path.basename(s) + ".o")
        objs.append(o)
        jobs.append([cc, "-std=c99", "-O1", "-g", "-w"] + assert_def + san + run.get("libdefs", []) +
                    ["-include", os.path.join(H, "vf_alloc.h")] + inc + ["-c", s, "-o", o])
    for s in run.get("cxx_sources", []):
        o = os.path.join(work, "x_" + os.path.basename(s) + ".o")
        objs.append(o)
        p = os.path.join(out, s) if os.path.exists(os.path.join(out, s)) else os.path.join(out, "..", "src_tree", s)
        jobs.append(["g++", "-std=c++11", "-O1", "-g", "-w"] + san + run.get("cxxflags", []) + inc + ["-c", p, "-o", o])
    for s in ["vf.c", "vf_alloc.c"] + run["src"]:
        o = os.path.join(work, "h_" + s + ".o")
        objs.append(o)
        comp = ["g++", "-std=c++11"] if s.endswith(".cpp") else [cc, "-std=gnu11"]
        jobs.append(comp + ["-O2", "-g", "-w", "-DVF_NO_REDIRECT"] + run.get("hsan", []) + run.get("defs", []) + known + inc + ["-c", os.path.join(H, s), "-o", o])
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for rc, txt in ex.map(lambda j: sh(j), jobs):
            if rc != 0:
                raise NoVerdict("compilation failed:\n" + txt[-4000:])
    exe = os.path.join(work, "harness")
    linker = "g++" if (run.get("cxx_sources") or any(s.endswith(".cpp") for s in run["src"])) else cc
    rc, txt = sh([linker] + san + objs + ["-o", exe] + run.get("link", []) + ["-lm", "-lpthread"])
    if rc != 0:
        raise NoVerdict("linking failed:\n" + txt[-4000:])
    return exe


def run_env():
    e = dict(os.environ)
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS"):
        e.pop(k, None)
    return e


def run_shard(exe, work, i, n, tier, seed, cap, extra):
    out, fail, err = (os.path.join(work, "%s.%d" % (x, i)) for x in ("out", "fail", "err"))
    cmd = [exe, "--tier", tier, "--shard", "%d/%d" % (i, n), "--out", out, "--fail", fail, "--cap", str(cap), "--seed", str(seed)] + extra
    if os.environ.get("VF_SCENARIO"):  # for development
        cmd += ["--scenario", os.environ["VF_SCENARIO"]]
    with open(err, "w") as e:
        try:
            rc = subprocess.run(cmd, stdout=e, stderr=e, env=run_env(), timeout=cap + 90).returncode
        except subprocess.TimeoutExpired:
            rc = 4
            e.write("\nharness exceeded its time limit\n")
    return rc, out, fail, err


def tail(p, n=3000):
    try:
        with open(p, errors="replace") as f:
            return f.read()[-n:]
    except OSError:
        return ""


def load(p):
    try:
        with open(p, errors="replace") as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def load_live(p, tier):
    """The choices of a harness that died without a report of its own."""
    try:
        with open(p + ".live", "rb") as f:
            b = f.read()
    except OSError:
        return None
    if len(b) < 128:
        return None
    pos, = struct.unpack("<i", b[:4])
    name = b[4:128].split(b"\0")[0].decode(errors="replace")
    if not name or pos < 0 or len(b) < 128 + 4 * pos:
        return None
    return {"kind": "crash", "scenario": name, "tier": int(tier == "thorough"), "choices": list(struct.unpack("<%dI" % pos, b[128:128 + 4 * pos])),
            "message": "sanitizer or fatal signal, see stderr", "case": ""}


def confirm(exe, work, rep, seed, extra):
    """Runs the recorded choices again, alone; returns (confirmed, report, stderr)."""
    fail, err = os.path.join(work, "confirm.fail"), os.path.join(work, "confirm.err")
    cmd = [exe, "--tier", "thorough" if rep["tier"] else "quick", "--scenario", rep["scenario"], "--fail", fail, "--seed", str(seed),
           "--replay", ",".join(map(str, rep["choices"])) or "0"] + extra
    with open(err, "w") as e:
        try:
            rc = subprocess.run(cmd, stdout=e, stderr=e, env=run_env(), timeout=240).returncode
        except subprocess.TimeoutExpired:
            rc = 5
    return rc in (3, 5) or rc < 0, load(fail) or rep, tail(err)


def known_findings(prop):
    res = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line)
                if m and m.group(1) == prop:
                    res.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return res


def check(prop, tier):
    t0 = time.time()
    spec = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    base = os.path.join(HERE, "build")
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + ".", dir=base)
    try:
        return explore(prop, tier, spec, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def violation(prop, rep, extra, run, seed):
    path = os.path.join(HERE, "evidence", prop + ".replay.json")
    rep = dict(rep, property=prop, run=run.get("name", "default"), seed=seed, extra=extra)
    with open(path, "w") as f:
        json.dump(rep, f, indent=1)
    print("scenario %s: %s" % (rep.get("scenario"), rep.get("message")))
    if rep.get("case"):
        print("case: " + rep["case"][:3000])
    if rep.get("stderr"):
        print(rep["stderr"][-2500:])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def explore(prop, tier, spec, seed, work, t0):
    runs = [r for r in spec["runs"] if tier == "thorough" or not r.get("thorough_only")]
    if os.environ.get("VF_ONLY"):  # for development: only the runs named
        runs = [r for r in runs if r.get("name", "default") in os.environ["VF_ONLY"].split(",")]
    tot = {k: 0 for k in ("executions", "transitions", "validated", "states", "outcomes", "nontrivial")}
    samples, scen, capped, full, digests, per_run = [], {}, False, False, {}, {}
    skipped = {}

    def build_run(kr):
        try:
            return build(os.path.join(work, "b%d" % kr[0]), kr[1], prop)
        except NoVerdict as e:
            # variants that depend on how the sources are written are left out if they cannot be made
            if not kr[1].get("optional"):
                raise
            skipped[kr[1]["name"]] = str(e)[:500]
            return None
    with cf.ThreadPoolExecutor(2) as ex:
        exes = list(ex.map(build_run, enumerate(runs)))
    runs = [r for r, e in zip(runs, exes) if e]
    exes = [e for e in exes if e]
    nw = sum(r.get("weight", 1.0) for r in runs)
    for k, (run, exe) in enumerate(zip(runs, exes)):
        shards = run.get("shards", NPROC)
        cap = max(30.0, CAP[tier] * run.get("weight", 1.0) / nw)
        extra = run.get("args", [])
        d = os.path.join(work, "r%d" % k)
        os.makedirs(d)
        with cf.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(lambda i: run_shard(exe, d, i, shards, tier, seed, cap, extra), range(shards)))
        dig = 0
        rt = dict.fromkeys(tot, 0)
        errors = []
        for rc, out, fail, err in res:
            if rc == 0:
                continue
            rep = load(fail)
            if rep is None and rc not in (4, -9):
                rep = load_live(fail, tier)
            if rc == 4 or rep is None or rep.get("kind") == "error":
                errors.append("run %s: harness ended with %d\n%s\n%s" % (run.get("name", "default"), rc, tail(err), json.dumps(rep)))
                continue
            ok, rep2, etxt = confirm(exe, d, rep, seed, extra)
            if not ok:
                if rep.get("kind") == "hang":
                    errors.append("a case took too long but finished when run alone: " + json.dumps(rep))
                    continue
                # the same choices must misbehave the same way; state left behind by earlier cases is the only alternative
                rep2 = dict(rep, message=rep["message"] + " (only after the cases explored before it)")
                etxt = tail(err)
            rep2["stderr"] = etxt[-3000:]
            return violation(prop, rep2, extra, run, seed)
        if errors:
            raise NoVerdict("\n".join(errors))
        for rc, out, fail, err in res:
            o = load(out)
            if o is None:
                raise NoVerdict("no results from a shard")
            for x in tot:
                tot[x] += o[x]
                rt[x] += o[x]
            dig = (dig + int(o["digest"], 16)) % (1 << 64)
            capped |= o["capped"]
            full |= o["state_set_full"]
            for s, v in o["scenarios"].items():
                key = s if len(runs) == 1 else run.get("name", "default") + "/" + s
                e = scen.setdefault(key, {"executions": 0, "cpu_s": 0.0})
                e["executions"] += v["executions"]
                e["cpu_s"] = round(e["cpu_s"] + v["seconds"], 2)
            samples += [("%s: %s" % (run["name"], s) if "name" in run else s) for s in o["samples"][-1:]]
        digests[run.get("name", "default")] = "%016x" % dig
        per_run[run.get("name", "default")] = rt
    if spec.get("compare_digests"):
        for group in spec["compare_digests"]:
            vals = {n: digests[n] for n in group if n in digests}
            if len(set(vals.values())) > 1 and not capped:
                ref = next(iter(vals))
                bad = [n for n in vals if vals[n] != vals[ref]]
                rep = {"kind": "violation", "scenario": "configurations", "choices": [], "tier": int(tier == "thorough"),
                       "message": "the same cases give other results in configuration(s) %s than in %s" % (", ".join(bad), ref),
                       "case": json.dumps(vals)}
                rb = next(r for r in runs if r.get("name") == bad[0])
                loc = localise(runs, exes, ref, bad[0], work, tier, seed)
                if loc:
                    rep["case"] += " first difference: " + loc
                return violation(prop, rep, [], rb, seed)
    wall = round(time.time() - t0, 2)
    level = spec["level"]
    cov = {"exhaustive": not capped, "bounds": spec["bounds"], "scenarios": scen, "samples": samples[:6],
           "distinct_outcomes": tot["outcomes"], "state_set_overflow": full}
    if skipped:
        cov["variants_left_out"] = skipped
    if len(runs) > 1:
        cov["per_configuration"] = per_run
    if capped:
        cov["cap_hit"] = "the time cap was reached; the scenarios listed were explored in depth-first order up to it"
    if level == "model_checking":
        cov.update(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["validated"], executions=tot["executions"])
    else:
        cov.update(evaluations=tot["executions"], distinct_nontrivial=tot["nontrivial"], rule=spec["rule"],
                   states=tot["states"], transitions=tot["transitions"])
    if spec.get("compare_digests"):
        cov["digests"] = digests
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": COMMON_ASSUMPTIONS + spec.get("assumptions", []), "wall_s": wall, "violations": 0}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for key, what in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    main = tot["states"] if level == "model_checking" else tot["nontrivial"]
    print("%s held: %d executions, %d states/non-trivial cases, %d transitions, %d compared with the reference%s, %.1f s" %
          (prop, tot["executions"], main, tot["transitions"], tot["validated"], " (time cap reached)" if capped else "", wall))
    return 0


def localise(runs, exes, a, b, work, tier, seed):
    """First differing case of two configurations: both print one line per case."""
    outs = []
    for n in (a, b):
        i = next(j for j, r in enumerate(runs) if r.get("name") == n)
        p = os.path.join(work, "trace." + n)
        env = dict(run_env(), VF_TRACE=p)
        try:
            subprocess.run([exes[i], "--tier", tier, "--seed", str(seed), "--cap", "300", "--out", "/dev/null"] + runs[i].get("args", []),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, timeout=400)
        except subprocess.TimeoutExpired:
            pass
        outs.append(p)
    try:
        with open(outs[0]) as f, open(outs[1]) as g:
            for x, y in zip(f, g):
                if x != y:
                    return "%s | %s" % (x.strip(), y.strip())
    except OSError:
        pass
    return None


def replay(path):
    rep = load(path)
    prop, name = rep["property"], rep["run"]
    run = next(r for r in PROPS[prop]["runs"] if r.get("name", "default") == name)
    base = os.path.join(HERE, "build")
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay.", dir=base)
    try:
        if rep["scenario"] == "configurations":
            print("compare configurations by running the check itself")
            return check(prop, "thorough" if rep["tier"] else "quick")
        exe = build(os.path.join(work, "b"), run, prop)
        ok, rep2, err = confirm(exe, work, rep, rep.get("seed", 1), rep.get("extra", []))
        print(err[-4000:])
        print(json.dumps(rep2, indent=1) if ok else "the recorded case does not fail")
        return 1 if ok else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--setup"]:
            for t in ("gcc", "g++", "/usr/bin/ed"):
                if not shutil.which(t):
                    raise NoVerdict("missing tool " + t)
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            return 0
        if a[:1] == ["--replay"]:
            return replay(a[1])
        return check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
    except NoVerdict as e:
        print("no verdict: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
