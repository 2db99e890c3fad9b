"""C01: generated programs under generated build configurations.

A program uses a random selection of operations (c01_ops.py) on random inputs,
split over two translation units with random selections and orders of headers.
It is built under several random configurations (compiler, language version,
optimisation, assertions, vmmlib's switches); every build has to succeed and to
print the same results up to rounding.  A failure is reduced to as few
operations and headers as still fail and saved with its sources and commands.
"""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import c01_ops  # noqa: E402

STUB = os.path.join(os.path.dirname(HERE), "checks/stub")
HEADERS = ["aabb", "enable_if", "exception", "frustum", "frustum_culler",
           "intersection", "lowpass_filter", "math", "matrix",
           "matrix_functors", "quaternion", "qr_decomposition", "util",
           "vector", "version", "vmmlib", "vmmlib_config"]
TRAITS = ["matrix_traits", "vector_traits"]
# headers that bring in others by their documented purpose
PROVIDES = {"vmmlib": {"aabb", "frustum", "frustum_culler", "intersection",
                       "lowpass_filter", "matrix", "quaternion", "vector"}}
SWITCHES = [[], [], [], ["VMMLIB_NO_CONVERSION_OPERATORS"], ["VMMLIB_NO_TYPEDEFS"],
            ["VMMLIB_CUSTOM_CONFIG"],
            ["VMMLIB_CUSTOM_CONFIG", "VMMLIB_SAFE_ACCESSORS", "VMMLIB_THROW_EXCEPTIONS"],
            ["VMMLIB_CUSTOM_CONFIG", "VMMLIB_THROW_EXCEPTIONS"],
            ["VMMLIB_NO_TYPEDEFS", "VMMLIB_NO_CONVERSION_OPERATORS"],
            ["VMMLIB_OLD_TYPEDEFS"], ["VMMLIB_OLD_TYPEDEFS", "VMMLIB_CUSTOM_CONFIG"],
            ["VMMLIB_OLD_TYPEDEFS", "VMMLIB_NO_CONVERSION_OPERATORS"]]
FLAGS = [[], [], [], ["-fno-inline"], ["-funsigned-char"], ["-D_GLIBCXX_ASSERTIONS"],
         ["-fPIC"], ["-fno-strict-aliasing"]]


def config(rng):
    return {"cxx": rng.choice(["g++", "clang++"]),
            "std": rng.choice(["c++11", "c++14", "c++17", "c++20"]),
            "opt": rng.choice(["-O0", "-O1", "-O2", "-O3"]),
            "ndebug": rng.random() < 0.5,
            "switches": rng.choice(SWITCHES),
            "flags": rng.choice(FLAGS)}


def command(cfg, inc):
    return ([cfg["cxx"], "-std=" + cfg["std"], cfg["opt"], "-w"] + cfg["flags"] +
            (["-DNDEBUG"] if cfg["ndebug"] else []) +
            ["-D" + s for s in cfg["switches"]] + inc)


def headers_for(rng, needs):
    hs = set()
    if rng.random() < 0.15:
        hs.add("vmmlib")
    have = set()
    for h in hs:
        have |= PROVIDES.get(h, {h})
    hs |= set(n for n in needs if n not in have)
    for h in HEADERS:
        if rng.random() < 0.12:
            hs.add(h)
    hs = list(hs)
    rng.shuffle(hs)
    if hs and rng.random() < 0.1:
        hs.append(rng.choice(hs))
    return hs


def deal(rng, pile):
    """operations in random order, all of them before any comes again"""
    n = rng.randint(4, 8)
    out = []
    while len(out) < n:
        if not pile:
            pile += rng.sample(c01_ops.OPS, len(c01_ops.OPS))
        o = pile.pop()
        if o not in out:
            out.append(o)
    return out


def configs(rng, n):
    """random configurations; the first four differ in what matters most"""
    c = [config(rng) for _ in range(n)]
    c[0].update(switches=[], ndebug=False, cxx="g++", opt=rng.choice(["-O0", "-O1"]))
    c[1].update(switches=[], ndebug=True, cxx="clang++", opt=rng.choice(["-O2", "-O3"]))
    c[2]["switches"] = rng.choice([x for x in SWITCHES if "VMMLIB_NO_CONVERSION_OPERATORS" in x])
    c[3]["switches"] = rng.choice([x for x in SWITCHES if "VMMLIB_CUSTOM_CONFIG" in x])
    if n > 4:
        c[4]["switches"] = rng.choice([x for x in SWITCHES if "VMMLIB_OLD_TYPEDEFS" in x])
    return c


def program(rng, pile):
    ops = deal(rng, pile)
    units = [[], []]
    for o in ops:
        units[rng.randrange(2)].append((o[0], rng.choice(o[2])))
    # one operation in both units: the same templates are instantiated twice
    o = rng.choice(ops)
    t = rng.choice(o[2])
    for u in units:
        if (o[0], t) not in u:
            u.append((o[0], t))
    by = dict((o[0], o) for o in c01_ops.OPS)
    hs = []
    for u in units:
        needs = set()
        for n, _ in u:
            needs |= set(by[n][1])
        hs.append(headers_for(rng, sorted(needs)))
    return {"units": units, "headers": hs, "seed": rng.randrange(1 << 30),
            "rounds": 12}


def sources(p):
    by = dict((o[0], o) for o in c01_ops.OPS)
    out = {}
    for k in (0, 1):
        s = "".join("#include <vmmlib/%s.hpp>\n" % h for h in p["headers"][k])
        s += '#include "c01.hpp"\n'
        have = set()
        for h in p["headers"][k]:
            have |= PROVIDES.get(h, {h})
        s += c01_ops.names(have)
        for n in sorted(set(n for n, _ in p["units"][k])):
            s += "template <class T> static void op_%s(Rng& r, Sink& o)\n{%s\n}\n" % (n, by[n][3])
        s += "void part%d(Rng& r, Sink& o)\n{\n" % k
        for n, t in p["units"][k]:
            s += '    std::printf("# %s %s\\n"); op_%s<%s>(r, o);\n' % (n, t, n, t)
        s += "}\n"
        if k == 1:
            s += ("void part0(Rng& r, Sink& o);\nint main()\n{\n    for (int i = 0; i < %d; ++i)\n"
                  "    {\n        Rng r; r.s = %dull + 7919ull * i; r.next();\n"
                  "        Sink o; part0(r, o); part1(r, o);\n    }\n    return 0;\n}\n"
                  % (p["rounds"], p["seed"]))
        out["u%d.cpp" % k] = s
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


class Broken(Exception):
    """the machinery failed, not the code"""


def build_run(d, p, cfg, inc, tag):
    """(kind, text): kind is ok / compile / link / crash"""
    base = os.path.join(d, tag)
    os.makedirs(base, exist_ok=True)
    for n, s in sources(p).items():
        with open(os.path.join(base, n), "w") as f:
            f.write(s)
    objs = []
    for n in ("u0.cpp", "u1.cpp"):
        o = os.path.join(base, n + ".o")
        c = command(cfg, inc) + ["-c", os.path.join(base, n), "-o", o]
        r = sh(c)
        if r.returncode and not re.search(r"error:", r.stdout):
            r = sh(c)
            if r.returncode and not re.search(r"error:", r.stdout):
                raise Broken(r.stdout[-2000:])
        if r.returncode:
            return "compile", r.stdout
        objs.append(o)
    exe = os.path.join(base, "p")
    r = sh([cfg["cxx"]] + objs + ["-o", exe])
    if r.returncode:
        r = sh([cfg["cxx"]] + objs + ["-o", exe])
        if r.returncode:
            if re.search(r"multiple definition|undefined reference|duplicate symbol", r.stdout):
                return "link", r.stdout
            raise Broken(r.stdout[-2000:])
    try:
        r = sh([exe], timeout=60)
    except subprocess.TimeoutExpired:
        return "crash", "no end within 60 s"
    shutil.rmtree(base, ignore_errors=True)
    if r.returncode:
        return "crash", "exit status %d\n%s" % (r.returncode, r.stdout[-500:])
    return "ok", r.stdout


def differ(a, b):
    """first difference of two outputs beyond rounding, or None; also the
    number of records compared"""
    la, lb = a.splitlines(), b.splitlines()
    op, n = "", 0
    if len(la) != len(lb):
        return "different numbers of results: %d and %d" % (len(la), len(lb)), 0
    for x, y in zip(la, lb):
        if x.startswith("# "):
            op = x
            if x != y:
                return "different operations: %s / %s" % (x, y), n
            continue
        n += 1
        if x == y:
            continue
        p, q = x.split(), y.split()
        bad = len(p) != len(q) or p[0] != q[0] or p[0] == "t"
        if not bad:
            u = [float(v) for v in p[2:]]
            v = [float(w) for w in q[2:]]
            mag = max([1.0] + [abs(w) for w in u + v if w == w and abs(w) != float("inf")])
            rel = 2e-4 if op.endswith("float") else 1e-10
            if op.endswith(" int"):
                rel = 0
            tol = max(rel * mag, float(p[1]))
            for s, t in zip(u, v):
                same = s == t or (s != s and t != t) or abs(s - t) <= tol
                bad = bad or not same
        if bad:
            return "%s\n  %s\n  %s" % (op, x[:400], y[:400]), n
    return None, n


def describe(p, cfgs, inc, what):
    return json.dumps({"program": p, "configurations": cfgs, "what": what}, indent=1)


def verdict(d, p, cfgs, inc, tag):
    """None or (kind, text, configurations that show it)"""
    res = []
    for k, c in enumerate(cfgs):
        kind, t = build_run(d, p, c, inc, "%s-%d" % (tag, k))
        if kind != "ok":
            return kind, t, [c]
        res.append(t)
    for k in range(1, len(cfgs)):
        e, _ = differ(res[0], res[k])
        if e:
            return "differ", e, [cfgs[0], cfgs[k]]
    return None


def reduce(d, p, cfgs, inc, kind, deadline):
    """fewer operations and headers that fail in the same way"""
    cur = p
    changed = True
    while changed and time.time() < deadline:
        changed = False
        cands = []
        for k in (0, 1):
            for i in range(len(cur["units"][k])):
                q = json.loads(json.dumps(cur))
                del q["units"][k][i]
                cands.append(q)
            for i in range(len(cur["headers"][k])):
                q = json.loads(json.dumps(cur))
                del q["headers"][k][i]
                cands.append(q)
        if cur["rounds"] > 1:
            q = json.loads(json.dumps(cur))
            q["rounds"] //= 2
            cands.append(q)
        by = dict((o[0], o) for o in c01_ops.OPS)

        def valid(q):
            # the headers of a unit still declare what it uses
            for k in (0, 1):
                have = set()
                for h in q["headers"][k]:
                    have |= PROVIDES.get(h, {h})
                for n, _ in q["units"][k]:
                    if not set(by[n][1]) <= have:
                        return False
            return True
        cands = [q for q in cands if valid(q)]
        with ThreadPoolExecutor(8) as ex:
            def attempt(iq):
                if time.time() > deadline:
                    return False
                v = verdict(d, iq[1], cfgs, inc, "r%d" % iq[0])
                return v is not None and v[0] == kind
            for q, ok in zip(cands, ex.map(attempt, enumerate(cands))):
                if ok:
                    cur = q
                    changed = True
                    break
    return cur


def incs(driver, bdir):
    return ["-I" + driver.REPO, "-I" + HERE, "-I" + os.path.join(bdir, "gen"), "-I" + STUB]


def run(driver, pid, spec, tier, seed, bdir, rdir):
    rng = random.Random(seed * 1000003 + 17)
    inc = incs(driver, bdir)
    nprog = 16 if tier == "quick" else 150
    ncfg = 6 if tier == "quick" else 10
    t0 = time.time()
    cap = 300 if tier == "quick" else 3000
    bad, evals, hashes, samples = 0, 0, set(), []
    used = {"compilers": {}, "standards": {}, "switches": {}, "headers": {}, "operations": {}}

    def count(k, v, n=1):
        used[k][v] = used[k].get(v, 0) + n

    # 1. every header on its own
    alone = []
    for h in HEADERS + TRAITS:
        for cxx in ("g++", "clang++"):
            c = config(rng)
            c["cxx"] = cxx
            if h in TRAITS:
                # they use the library's old names
                c["switches"] = [s for s in c["switches"] if s != "VMMLIB_NO_TYPEDEFS"]
            alone.append((h, c))

    def one(hc):
        h, c = hc
        src = os.path.join(bdir, "alone-%s-%s.cpp" % (h, c["cxx"]))
        with open(src, "w") as f:
            f.write("#include <vmmlib/%s.hpp>\n" % h * 2)
        cmd = command(c, inc) + ["-fsyntax-only", src]
        r = sh(cmd)
        if r.returncode and not re.search(r"error:", r.stdout):
            r = sh(cmd)
            if r.returncode and not re.search(r"error:", r.stdout):
                raise Broken(r.stdout[-2000:])
        return h, c, cmd, r
    with ThreadPoolExecutor(8) as ex:
        for h, c, cmd, r in ex.map(one, alone):
            evals += 1
            hashes.add(h + json.dumps(c, sort_keys=True))
            if r.returncode and not bad:
                rep = os.path.join(rdir, "C01-header.json")
                with open(rep, "w") as f:
                    json.dump({"header": h, "configurations": [c], "what": r.stdout[-3000:]}, f, indent=1)
                driver.violation(pid, rep, "<vmmlib/%s.hpp> does not compile on its own\n%s\n%s"
                                 % (h, " ".join(cmd), "\n".join(
                                     l for l in r.stdout.splitlines() if "error" in l)[:1500]))
                bad += 1
    tb = time.time() - t0

    # 2. programs
    done = 0
    ex = ThreadPoolExecutor(8)
    jobs = []
    pile = []
    for k in range(nprog):
        p = program(rng, pile)
        cfgs = configs(rng, ncfg)
        jobs.append((p, cfgs, [None] * ncfg))

    def work(k, j):
        if time.time() - t0 > cap:
            return None
        return build_run(bdir, jobs[k][0], jobs[k][1][j], inc, "p%d-%d" % (k, j))
    futs = [[ex.submit(work, k, j) for j in range(ncfg)] for k in range(nprog)]
    for k in range(nprog):
        p, cfgs, _ = jobs[k]
        res = [f.result() for f in futs[k]]
        if bad:
            continue
        if any(r is None for r in res):
            continue
        done += 1
        fail = None
        for c, r in zip(cfgs, res):
            count("compilers", c["cxx"])
            count("standards", c["std"])
            count("switches", " ".join(c["switches"]) or "none")
            if r[0] != "ok":
                fail = (r[0], r[1], [c])
                break
        for u in p["units"]:
            for n, t in u:
                count("operations", n)
        for u in p["headers"]:
            for h in u:
                count("headers", h)
        if not fail:
            for j in range(1, ncfg):
                e, n = differ(res[0][1], res[j][1])
                evals += n
                if e:
                    fail = ("differ", e, [cfgs[0], cfgs[j]])
                    break
            op = ""
            for l in res[0][1].splitlines():
                if l.startswith("#"):
                    op = l
                elif len(set(l.split()[2:])) > 1:
                    hashes.add(hashlib.md5((op + l).encode()).digest())
        if len(samples) < 6:
            samples.append({"units": p["units"], "headers": p["headers"],
                            "configurations": [" ".join(command(c, [])) for c in cfgs[:3]]})
        if fail:
            kind, text, cs = fail
            for f in sum(futs[k + 1:], []):
                f.cancel()
            again = verdict(bdir, p, cs, inc, "again")
            if again is None or again[0] != kind:
                print("a failure did not reproduce: %s %s" % (kind, text[:500]))
                continue
            q = reduce(bdir, p, cs, inc, kind, time.time() + 60)
            v = verdict(bdir, q, cs, inc, "final") or again
            rep = os.path.join(rdir, "C01-%s.json" % kind)
            with open(rep, "w") as f:
                json.dump({"program": q, "configurations": cs, "kind": kind,
                           "what": v[1][-3000:], "sources": sources(q)}, f, indent=1)
            err = v[1] if kind != "compile" else "\n".join(
                [l for l in v[1].splitlines() if "error" in l][:5])
            driver.violation(pid, rep, "%s\n%s\n%s" % (
                {"compile": "a program does not compile",
                 "link": "a program does not link",
                 "crash": "a program crashes",
                 "differ": "results depend on the configuration"}[kind],
                "\n".join(" ".join(command(c, [])) for c in cs), err[:1500]))
            bad += 1
            break
    for fs in futs:
        for f in fs:
            f.cancel()
    ex.shutdown()
    cov = {"evaluations": evals, "distinct_nontrivial": len(hashes),
           "rule": "Generated programs of random operations, header selections and orders in "
                   "two translation units, built under random configurations (compiler, language "
                   "version, optimisation, assertions, vmmlib's switches): all build, run and "
                   "print the same results up to rounding; an evaluation is a result compared "
                   "between two configurations or a header compiled on its own; non-trivial = a "
                   "result of more than one different number (distinct by operation and values).",
           "samples": samples, "programs": done, "configurations_per_program": ncfg,
           "headers_compiled_alone": len(alone), "classes": used,
           "build_s": round(tb, 1), "search_s": round(time.time() - t0 - tb, 1)}
    return bad, cov


def replay(driver, pid, path, bdir):
    d = json.load(open(path))
    inc = incs(driver, bdir)
    if "header" in d:
        src = os.path.join(bdir, "h.cpp")
        with open(src, "w") as f:
            f.write("#include <vmmlib/%s.hpp>\n" % d["header"] * 2)
        r = sh(command(d["configurations"][0], inc) + ["-fsyntax-only", src])
        print(r.stdout[-3000:])
        return 1 if r.returncode else 0
    v = verdict(bdir, d["program"], d["configurations"], inc, "replay")
    print(v[0] + "\n" + v[1][-3000:] if v else "holds")
    return 1 if v else 0
