#!/usr/bin/env python3
"""Driver of the property checks.

  run.py <ID>                 the check, tier and seed from VERIF_TIER/VERIF_SEED
  run.py <ID> --replay FILE   run one saved case again
  run.py --all [--tier T]     every check (development)

A check is compiled from the working tree of /repo ($VERIF_REPO) on every run.
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks_spec import CHECKS  # noqa: E402

NCPU = 8
COMMON = ["-std=c++14", "-include", "cstdint", "-w", "-g1",
          "-ftrivial-auto-var-init=pattern"]
SAN = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
       "-fno-sanitize-recover=all"]
VARIANTS = {
    # name: (compiler, flags)
    "san": ("clang++", SAN),
    "dbg": ("g++", ["-O2"]),
    "rel": ("g++", ["-O2", "-DNDEBUG"]),
    "tsan": ("clang++", ["-O1", "-fsanitize=thread", "-pthread"]),
    "fuzz": ("clang++", ["-O1", "-fsanitize=fuzzer,address,undefined",
                         "-fno-sanitize-recover=all", "-DPBT_FUZZ"]),
}


class BuildFailure(Exception):
    def __init__(self, log, genuine):
        Exception.__init__(self, log)
        self.log = log
        self.genuine = genuine


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def compile_one(cmd):
    r = sh(cmd)
    if r.returncode != 0:
        # one retry, in case the compiler was ended by a low-memory guard
        r = sh(cmd)
    if r.returncode != 0:
        genuine = re.search(r"(^|[ :])(fatal )?error:", r.stdout) is not None
        raise BuildFailure(" ".join(cmd) + "\n" + r.stdout, genuine)


def build(pid, spec, variants, bdir, extra_inc=()):
    """all variants of a check in parallel; returns {variant: binary}"""
    jobs, links = [], []
    for v in variants:
        cxx, flags = VARIANTS[v]
        objs = []
        srcs = [(os.path.join(VERIF, "engine/main.cpp"), 0)]
        # the instantiations of a check are split into parts that are compiled
        # in parallel
        srcs += [(os.path.join(VERIF, "checks", pid + ".cpp"), k)
                 for k in range(spec.get("parts", 1))]
        for src, k in srcs:
            o = os.path.join(bdir, "%s-%s-%d.o" % (v, os.path.basename(src), k))
            jobs.append([cxx] + COMMON + flags + spec.get("flags", []) +
                        ["-DPBT_PART=%d" % k] +
                        ["-I" + REPO, "-I" + os.path.join(VERIF, "engine"),
                         "-I" + os.path.join(bdir, "gen")] +
                        ["-c", src, "-o", o])
            objs.append(o)
        exe = os.path.join(bdir, v)
        links.append((exe, [cxx] + flags + objs + ["-o", exe] +
                      spec.get("libs", []), v))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(compile_one, j) for j in jobs]:
            f.result()
        for f in [ex.submit(compile_one, l[1]) for l in links]:
            f.result()
    return {l[2]: l[0] for l in links}


def gen_version(bdir):
    """version.hpp as the build system makes it from version.in.hpp"""
    src = os.path.join(REPO, "vmmlib/version.in.hpp")
    cml = os.path.join(REPO, "CMakeLists.txt")
    if not os.path.exists(src) or not os.path.exists(cml):
        return
    txt = open(src, errors="replace").read()
    for k, v in re.findall(r"set\s*\(\s*(VERSION_\w+)\s+([^)\s]+)\s*\)",
                           open(cml, errors="replace").read()):
        txt = txt.replace("@%s@" % k, v)
    d = os.path.join(bdir, "gen")
    os.makedirs(os.path.join(d, "vmmlib"), exist_ok=True)
    for f in ("generated_version.hpp", "vmmlib/version.hpp"):
        with open(os.path.join(d, f), "w") as o:
            o.write(txt)


def mine_dictionary(path):
    nums = set()
    for f in sorted(glob.glob(os.path.join(REPO, "vmmlib/*.hpp"))):
        txt = open(f, errors="replace").read()
        txt = re.sub(r"//[^\n]*", "", txt)
        txt = re.sub(r"/\*.*?\*/", "", txt, flags=re.S)
        for m in re.finditer(
                r"(?<![\w.])(\d+\.\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|"
                r"\d+[eE][-+]?\d+|\d+)", txt):
            try:
                d = float(m.group(1))
            except ValueError:
                continue
            if d == 0 or not (1e-30 < d < 1e30):
                continue
            nums.add(d)
    with open(path, "w") as f:
        for d in sorted(nums):
            f.write("%r\n" % d)


def violation(pid, replay, detail):
    for l in detail.strip().splitlines()[:20]:
        print("  " + l)
    print("VIOLATION property=%s replay=%s" % (pid, replay))
    sys.stdout.flush()


def known_lines(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("KNOWN-FINDING: property=%s " % pid):
                out.append(l.strip())
    return out


def confirm(exe, replay, n=3):
    """the replay fails every time"""
    out = ""
    for _ in range(n):
        r = sh([exe, "replay", "--replay", replay, "--dict",
                os.path.join(os.path.dirname(exe), "dict")])
        if r.returncode == 0:
            return False, r.stdout
        out = r.stdout
    return True, out


def handle_failure(pid, exe, var, seed, shard, rc, rep0, cur, rdir, rounds):
    """shrink, confirm and report; True if it is a violation"""
    dic = os.path.join(os.path.dirname(exe), "dict")
    final = os.path.join(rdir, "%s-%s-%d.replay" % (pid, var, shard))
    args = [exe, "shrink", "--dict", dic, "--replay", final, "--seed", str(seed),
            "--shard", str(shard)]
    if rc == 77 and os.path.exists(rep0):
        args += ["--from", rep0]
    else:
        with open(cur, "rb") as f:
            sub, idx, _ = struct.unpack("QQQ", f.read(24))
        args += ["--sub-index", str(sub), "--idx", str(idx)]
    sh(args)
    if not os.path.exists(final):
        print("no replay could be made (%s)" % " ".join(args))
        return False
    with open(final) as f:
        body = f.read()
    with open(final, "w") as f:
        f.write("property %s\nvariant %s\n" % (pid, var) + body)
    ok, out = confirm(exe, final)
    if ok:
        violation(pid, final, out)
        return True
    if rc == 77 and os.path.exists(rep0):
        # not reproducible alone: the run up to the case, as a history
        lines = open(rep0).read().splitlines()
        lines = ["kind history" if l.startswith("kind ") else l for l in lines]
        with open(final, "w") as f:
            f.write("property %s\nvariant %s\n" % (pid, var) +
                    "\n".join(lines) + "\n")
        ok, out = confirm(exe, final)
        if ok:
            violation(pid, final, out)
            return True
    print("a failure of %s shard %d did not reproduce: %s" % (var, shard, out))
    return False


def fuzz_campaign(pid, spec, bdir, seed, seconds, rdir):
    """coverage-guided search over the same property bodies"""
    exes = build(pid, spec, ["fuzz", "san"], bdir)
    dic = os.path.join(bdir, "dict")
    procs = []
    for j in range(NCPU):
        cdir = os.path.join(bdir, "corpus%d" % j)
        os.makedirs(cdir, exist_ok=True)
        rep = os.path.join(bdir, "fuzz%d.replay" % j)
        env = dict(os.environ, PBT_DICT=dic, PBT_REPLAY=rep)
        log = open(os.path.join(bdir, "fuzz%d.log" % j), "w")
        procs.append((j, rep, subprocess.Popen(
            [exes["fuzz"], cdir, "-seed=%d" % (seed * 100 + j + 1),
             "-max_total_time=%d" % seconds, "-max_len=2048", "-len_control=0",
             "-artifact_prefix=" + cdir + "/crash-", "-print_final_stats=1"],
            stdout=log, stderr=subprocess.STDOUT, env=env)))
    runs, bad = 0, False
    for j, rep, p in procs:
        p.wait()
        log = open(os.path.join(bdir, "fuzz%d.log" % j), errors="replace").read()
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", log)
        if m:
            runs += int(m.group(1))
        if p.returncode != 0 and os.path.exists(rep):
            final = os.path.join(rdir, "%s-fuzz-%d.replay" % (pid, j))
            sh([exes["san"], "shrink", "--dict", dic, "--replay", final,
                "--from", rep])
            if not os.path.exists(final):
                continue
            body = open(final).read()
            open(final, "w").write("property %s\nvariant san\n" % pid + body)
            ok, out = confirm(exes["san"], final)
            if ok and not bad:
                violation(pid, final, out)
                bad = True
        elif p.returncode != 0:
            crash = glob.glob(os.path.join(bdir, "corpus%d" % j, "crash-*"))
            crash = glob.glob(os.path.join(bdir, "corpus%d" % j) + "/crash-*")
            if crash and not bad:
                env = dict(os.environ, PBT_DICT=dic)
                ok = all(subprocess.run([exes["fuzz"], crash[0]], env=env,
                                        stdout=subprocess.DEVNULL,
                                        stderr=subprocess.DEVNULL).returncode
                         for _ in range(3))
                if ok:
                    final = os.path.join(rdir, "%s-fuzz-%d.bytes" % (pid, j))
                    shutil.copy(crash[0], final)
                    violation(pid, final, log[-3000:])
                    bad = True
    return runs, bad


def run_generic(pid, spec, tier, seed, bdir, rdir):
    t0 = time.time()
    variants = spec.get("variants", {"san": 5, "rel": 3})
    exes = build(pid, spec, list(variants), bdir)
    tb = time.time() - t0
    dic = os.path.join(bdir, "dict")
    mine_dictionary(dic)
    scale = spec.get("thorough", 50) if tier == "thorough" else 2
    cap = 1500 if tier == "thorough" else 150
    procs, shard = [], 0
    for v, n in variants.items():
        rounds = int(spec["rounds"][v] * scale)
        for _ in range(n):
            base = os.path.join(bdir, "s%d" % shard)
            cmd = [exes[v], "run", "--seed", str(seed), "--shard", str(shard),
                   "--rounds", str(rounds), "--time-cap", str(cap), "--dict",
                   dic, "--out", base + ".json", "--cur", base + ".cur",
                   "--replay", base + ".replay"]
            log = open(base + ".log", "w")
            procs.append((v, shard, base, rounds,
                          subprocess.Popen(cmd, stdout=log,
                                           stderr=subprocess.STDOUT,
                                           env=dict(os.environ))))
            shard += 1
    hashes, subs, labels, samples = set(), {}, {}, []
    rule, wall, capped, evals, stopped = "", 0.0, 0, 0, 0
    failures = []
    for v, k, base, rounds, p in procs:
        try:
            p.wait(timeout=cap + 120)
            if p.returncode in (-9, -15):
                # ended from outside (memory guard): no outcome of a case
                with open(base + ".log", "a") as log:
                    p = subprocess.Popen(p.args, stdout=log,
                                         stderr=subprocess.STDOUT,
                                         env=dict(os.environ))
                    p.wait(timeout=cap + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            capped += 1
            continue
        stopped += p.returncode in (-9, -15)
        if p.returncode != 0:
            failures.append((v, k, base, rounds, p.returncode))
        if os.path.exists(base + ".json"):
            d = json.load(open(base + ".json"))
            rule = d["rule"]
            wall = max(wall, d["wall"])
            capped += bool(d["capped"])
            for n, (e, t) in d["subs"].items():
                x = subs.setdefault(n, [0, 0])
                x[0] += e
                x[1] += t
                evals += e
            for n, c in d["labels"].items():
                labels[n] = labels.get(n, 0) + c
            if k == 0 or not samples:
                samples += d["samples"]
            raw = open(base + ".json.hash", "rb").read()
            hashes.update(struct.unpack("%dQ" % (len(raw) // 8), raw))
    bad = 0
    seen = set()
    for v, k, base, rounds, rc in failures:
        if bad >= 2:
            break
        if rc not in (77, 78, 99) and rc > 0:
            # not an outcome of a case: the check itself went wrong
            print(open(base + ".log", errors="replace").read()[-2000:])
        if handle_failure(pid, exes[v], v, seed, k, rc, base + ".replay",
                          base + ".cur", rdir, rounds):
            bad += 1
            break
    fuzz_runs = None
    if tier == "thorough" and not bad and spec.get("fuzz", 120):
        fuzz_runs, b = fuzz_campaign(pid, spec, os.path.join(bdir), seed,
                                     spec.get("fuzz", 120), rdir)
        bad += b
    cov = {
        "evaluations": evals + (fuzz_runs or 0),
        "distinct_nontrivial": len(hashes),
        "rule": rule + " Distinct cases are counted by a hash of their choice "
                "sequence (at most 150000 per process are kept).",
        "samples": samples[:24],
        "per_sub_property": {n: {"cases": e, "nontrivial": t}
                             for n, (e, t) in subs.items()},
        "classes": labels,
        "processes": {v: n for v, n in variants.items()},
        "processes_stopped_by_time_cap": capped,
        "processes_stopped_from_outside": stopped,
        "build_s": round(tb, 1),
        "search_s": round(wall, 1),
    }
    if fuzz_runs is not None:
        cov["libfuzzer_executions"] = fuzz_runs
    return bad, cov


def write_evidence(pid, tier, seed, spec, cov, bad, t0):
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": cov,
          "assumptions": spec.get("assumptions", []) + [
              "the reference computations of the check (long double or exact "
              "integer arithmetic) and the compilers"],
          "wall_s": round(time.time() - t0, 2), "violations": bad}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def check(pid, tier, seed):
    t0 = time.time()
    spec = CHECKS[pid]
    bdir = os.path.join(VERIF, "build", pid)
    if tier == "thorough":
        bdir += "-thorough"
    rdir = os.path.join(VERIF, "replays", pid)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(os.path.join(bdir, "gen"))
    os.makedirs(os.path.join(bdir, "scratch"))
    gen_version(bdir)
    os.environ["PBT_SCRATCH"] = os.path.join(bdir, "scratch")
    os.makedirs(rdir, exist_ok=True)
    for l in known_lines(pid):
        print(l)
    runner = spec.get("runner")
    try:
        if runner:
            mod = __import__("runners." + runner, fromlist=["run"])
            bad, cov = mod.run(sys.modules[__name__], pid, spec, tier, seed,
                               bdir, rdir)
        else:
            bad, cov = run_generic(pid, spec, tier, seed, bdir, rdir)
    except BuildFailure as b:
        if not b.genuine:
            print(b.log[-3000:])
            return 2
        # the part of the interface that the property is about does not compile
        rep = os.path.join(rdir, pid + "-compile.log")
        with open(rep, "w") as f:
            f.write(b.log)
        cov = {"evaluations": 0, "distinct_nontrivial": 0,
               "rule": "the check does not compile against this tree",
               "samples": [b.log[:500]]}
        write_evidence(pid, tier, seed, spec, cov, 1, t0)
        errs = [l for l in b.log.splitlines() if "error" in l]
        violation(pid, rep, "\n".join(errs[:5]))
        return 1
    write_evidence(pid, tier, seed, spec, cov, bad, t0)
    print("%s: %d cases, %d distinct non-trivial, build %.1f s, search %.1f s, "
          "total %.1f s%s" %
          (pid, cov.get("evaluations", 0), cov.get("distinct_nontrivial", 0),
           cov.get("build_s", 0), cov.get("search_s", 0), time.time() - t0,
           "" if not cov.get("processes_stopped_by_time_cap") else
           " (time cap reached: fewer cases than planned)"))
    if not os.environ.get("VERIF_KEEP_BUILD"):
        shutil.rmtree(bdir, ignore_errors=True)
    if not bad and not cov.get("evaluations"):
        print("no case was run: no answer")
        return 2
    return 1 if bad else 0


def replay(pid, path):
    spec = CHECKS[pid]
    if spec.get("runner"):
        bdir = os.path.join(VERIF, "build", pid + "-replay")
        shutil.rmtree(bdir, ignore_errors=True)
        os.makedirs(os.path.join(bdir, "gen"))
        gen_version(bdir)
        mod = __import__("runners." + spec["runner"], fromlist=["replay"])
        return mod.replay(sys.modules[__name__], pid, path, bdir)
    txt = open(path, errors="replace").read()
    m = re.search(r"^variant (\w+)", txt, re.M)
    if not m:
        print(txt[:5000])
        return 1
    bdir = os.path.join(VERIF, "build", pid + "-replay")
    os.makedirs(os.path.join(bdir, "gen"), exist_ok=True)
    gen_version(bdir)
    exe = build(pid, spec, [m.group(1)], bdir)[m.group(1)]
    dic = os.path.join(bdir, "dict")
    mine_dictionary(dic)
    r = subprocess.run([exe, "replay", "--replay", path, "--dict", dic])
    return 1 if r.returncode else 0


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    if a and a[0] == "--all":
        rc = 0
        for pid in CHECKS:
            r = check(pid, tier, seed)
            if r:
                print("   ^^ exit", r)
            rc = rc or r
        return rc
    if len(a) < 1 or a[0] not in CHECKS:
        print(__doc__)
        return 2
    if "--replay" in a:
        return replay(a[0], a[a.index("--replay") + 1])
    return check(a[0], tier, seed)


if __name__ == "__main__":
    sys.exit(main())
