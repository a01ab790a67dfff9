#!/usr/bin/env python3
"""Builds the harness from /repo's working tree, runs one property, writes evidence.

usage: check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]
                         [--cases N] [--time S] [--build-only] [--keep-going]
exit 0: held on everything explored; exit 1: VIOLATION; anything else: error.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("XD_REPO", "/repo")
BUILD = os.environ.get("XD_BUILD", os.path.join(HERE, "build"))

# property -> (module, quick cases, thorough cases); time limits are a safety net only
BUDGET = json.load(open(os.path.join(HERE, "budgets.json")))

DEFS = ["BUILD_XDISPATCH2_BACKEND_NAIVE 1", "XDISPATCH2_HAVE_PRCTL", "XDISPATCH2_HAVE_SETPRIORITY", "XDISPATCH2_HAVE_SYSCONF",
        "XDISPATCH2_HAVE_SYSCONF_SC_NPROCESSORS_ONLN", "XDISPATCH2_HAVE_SOCKETPAIR", "XDISPATCH2_HAVE_DLSYM",
        "XDISPATCH2_HAVE_IMMINTRIN_H", "XDISPATCH2_HAVE_LIBATOMIC", "XDISPATCH2_BUILD_SHARED"]


class BuildError(Exception):
    pass


def read(p):
    with open(p, "rb") as f:
        return f.read()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def gen_config(variant, inc):
    """config.h generated from the tree's own config.h.in"""
    d = {x.split()[0]: x for x in DEFS}
    if variant == "qt":
        d["BUILD_XDISPATCH2_BACKEND_QT5"] = "BUILD_XDISPATCH2_BACKEND_QT5 1"
    out = []
    for line in read(os.path.join(REPO, "config.h.in")).decode().splitlines():
        m = re.match(r"#cmakedefine\s+(\w+)(.*)", line)
        if m:
            out.append("#define " + d[m.group(1)] if m.group(1) in d else "/* #undef %s */" % m.group(1))
        else:
            out.append(line)
    text = ("\n".join(out) + "\n").encode()
    p = os.path.join(inc, "xdispatch", "config.h")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or read(p) != text:
        with open(p, "wb") as f:
            f.write(text)
    return p


def build(variant, modules, extra_cxx=()):
    """compile the tree's sources and the property modules; returns the binary"""
    bdir = os.path.join(BUILD, variant)
    odir = os.path.join(bdir, "obj")
    inc = os.path.join(bdir, "include")
    os.makedirs(odir, exist_ok=True)
    cfg = gen_config(variant, inc)
    cxx = os.environ.get("CXX", "g++")
    common = ["-std=c++14", "-O1", "-g1", "-fno-omit-frame-pointer", "-fPIC" if variant == "qt" else "-fno-pie", "-w",
              "-I" + inc, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-DXDISPATCH_MAKEDLL", "-include", "stdexcept"]
    qtlibs = []
    if variant == "qt":
        for m in ("QtCore",):
            common += ["-I/usr/include/x86_64-linux-gnu/qt5", "-I/usr/include/x86_64-linux-gnu/qt5/" + m]
        qtlibs = ["-lQt5Core"]
    # thread-sanitizer instrumentation, without its run time: see rt/xs.cpp
    inst = common + ["-fsanitize=thread", "--param", "tsan-distinguish-volatile=1"]
    libsrc = sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/naive/*.cpp"))
    if variant == "qt":
        libsrc += sorted(glob.glob(REPO + "/src/qt5/qt5_*.cpp"))
    hdrs = sorted(glob.glob(REPO + "/include/**/*.h", recursive=True) + glob.glob(REPO + "/src/**/*.h", recursive=True))
    hh = hashlib.sha256()
    for h in hdrs + [cfg]:
        hh.update(h.encode() + b"\0" + read(h) + b"\0")
    libkey = hh.hexdigest()
    hh = hashlib.sha256(libkey.encode())
    for h in sorted(glob.glob(HERE + "/rt/*.h") + glob.glob(HERE + "/props/*.h")):
        hh.update(read(h))
    modkey = hh.hexdigest()
    jobs = []
    for s in libsrc:
        jobs.append((s, inst, libkey, True))
    if variant == "qt":
        for h in sorted(glob.glob(REPO + "/src/qt5/*.h")) + sorted(glob.glob(REPO + "/include/xdispatch/*qt*.h")):
            if b"Q_OBJECT" in read(h):
                moc = os.path.join(bdir, "moc_" + os.path.basename(h)[:-2] + ".cpp")
                r = sh(["moc", "-I" + inc, "-I" + REPO + "/include", "-DXDISPATCH_MAKEDLL", h])
                if r.returncode:
                    raise BuildError("moc failed: " + r.stderr.decode()[-2000:])
                if not os.path.exists(moc) or read(moc) != r.stdout:
                    with open(moc, "wb") as f:
                        f.write(r.stdout)
                jobs.append((moc, inst, libkey, True))
    for m in modules:
        jobs.append((os.path.join(HERE, "props", m + ".cpp"), inst + ["-std=c++17", "-I" + HERE + "/rt"], modkey, False))
    rtf = ["-std=c++17", "-O2", "-g1", "-fno-pie" if variant != "qt" else "-fPIC", "-w", "-DXS_" + variant.upper()]
    for s in ("xs.cpp", "engine.cpp"):
        jobs.append((os.path.join(HERE, "rt", s), rtf, modkey, False))

    def comp(job):
        src, flags, key, _ = job
        k = hashlib.sha256((cxx + " ".join(flags) + key + src).encode() + read(src)).hexdigest()[:32]
        obj = os.path.join(odir, os.path.basename(src) + "." + k + ".o")
        if not os.path.exists(obj):
            tmp = obj + ".%d.tmp" % os.getpid()
            r = sh([cxx] + flags + ["-c", src, "-o", tmp])
            if r.returncode:
                return src, None, r.stderr.decode()
            os.rename(tmp, obj)
        return src, obj, ""

    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        # biggest first
        res = list(ex.map(comp, sorted(jobs, key=lambda j: -os.path.getsize(j[0]) - (200000 if not j[3] else 0))))
    bad = [(s, e) for s, o, e in res if not o]
    if bad:
        raise BuildError("\n".join("%s:\n%s" % (s, e[-3000:]) for s, e in bad))
    objs = sorted(o for _, o, _ in res)
    lk = hashlib.sha256(("\n".join(objs)).encode()).hexdigest()[:24]
    exe = os.path.join(bdir, "runner." + lk)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh([cxx, "-no-pie", "-rdynamic", "-Wl,--no-as-needed", "-o", tmp] + objs + ["-ldl", "-lpthread", "-latomic"] + qtlibs)
        if r.returncode:
            raise BuildError("link: " + r.stderr.decode()[-4000:])
        os.rename(tmp, exe)
    # keep the build directory small: drop objects not used for a while
    now = time.time()
    for f in glob.glob(odir + "/*.o") + glob.glob(bdir + "/runner.*"):
        try:
            if f in objs or f == exe:
                os.utime(f)
            elif now - os.path.getmtime(f) > 3600:
                os.remove(f)
        except OSError:
            pass
    return exe


def strip_nested(s, o, c):
    out, d = [], 0
    for i, ch in enumerate(s):
        if ch == o and not s[:i].endswith("operator"):
            d += 1
        elif ch == c and d:
            d -= 1
        elif not d:
            out.append(ch)
    return "".join(out)


def symbolize(exe, text):
    """replaces '@pc' by function names, leaving out standard library frames"""
    pcs = sorted(set(p for p in re.findall(r"@([0-9a-f]{5,16})\b", text)))
    mine = [p for p in pcs if not p.startswith("7f")]
    m = {p: "" for p in pcs}
    if mine:
        r = sh(["addr2line", "-Cfia", "-e", exe] + [hex(int(p, 16) - 1) for p in mine])
        cur, idx = None, -1
        lines = r.stdout.decode(errors="replace").splitlines()
        i = 0
        frames = {p: [] for p in mine}
        while i < len(lines):
            if re.match(r"0x[0-9a-f]+$", lines[i]):
                idx += 1
                i += 1
                continue
            fn, loc = lines[i], lines[i + 1] if i + 1 < len(lines) else ""
            i += 2
            base = os.path.basename(loc).split(" ")[0]
            if "/c++/" in loc or base.startswith("??") or base.startswith("xs.cpp"):
                continue
            fn = strip_nested(strip_nested(fn, "<", ">"), "(", ")").replace("xdispatch::", "").replace(" const", "").split("[clone")[0].strip()
            frames[mine[idx]].append("%s %s" % (fn, base))
        for p in mine:
            m[p] = "".join("\n      " + f for f in frames[p])
    return re.sub(r" *@([0-9a-f]{5,16})\b", lambda k: m[k.group(1)], text)


def known_findings(prop):
    p = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) match=(.*?) what=(.*)", line)
            if m and m.group(1) == prop:
                out.append({"id": m.group(2), "match": m.group(3), "what": m.group(4)})
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--time", type=float)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--maxfail", type=int, default=4)
    ap.add_argument("--shrink", type=float, default=15)
    ap.add_argument("--index", type=int)
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.prop == "all":
        for v in sorted({b["variant"] for b in BUDGET.values()}):
            mods = sorted({b["module"] for b in BUDGET.values() if b["variant"] == v})
            for m in mods:
                build(v, [m])
        print("built in %.1fs" % (time.time() - t0))
        return 0
    b = BUDGET[a.prop]
    try:
        exe = build(b["variant"], [b["module"]])
    except BuildError as e:
        print("ERROR: the harness does not build against %s\n%s" % (REPO, e))
        return 3
    tb = time.time() - t0
    if a.build_only:
        print(exe)
        return 0
    env = dict(os.environ)
    for k in ("LD_PRELOAD", "XDISPATCH2_THREAD_COUNT", "XDISPATCH2_BACKEND", "MALLOC_ARENA_MAX", "XDISPATCH2_TRACE"):
        env.pop(k, None)
    env["QT_NO_GLIB"] = "1"
    env["LC_ALL"] = "C"
    if a.replay or a.index is not None:
        rp = a.replay
        if rp and rp.endswith(".json"):
            j = json.load(open(rp))
            rp = rp[:-5] + ".choices"
            with open(rp, "w") as f:
                f.write("%s %d %d %s\n" % (j["sched_seed"], int(j["big"]), len(j["choices"]), " ".join(map(str, j["choices"]))))
        cmd = [exe, "--prop", a.prop, "--seed", str(a.seed)] + (["--replay", rp] if rp else ["--index", str(a.index)])
        if a.tier == "thorough" and not rp:
            cmd.append("--big")
        r = sh(cmd, env=env)
        print(symbolize(exe, r.stdout.decode(errors="replace") + r.stderr.decode(errors="replace")))
        return r.returncode
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    cases = a.cases or b[tier]
    tmax = a.time or (240 if tier == "quick" else 780)
    out = os.path.join(BUILD, "out.%s.%d.json" % (a.prop, os.getpid()))
    cmd = [exe, "--prop", a.prop, "--seed", str(a.seed), "--cases", str(cases), "--time", str(tmax), "--jobs", str(a.jobs),
           "--maxfail", str(a.maxfail), "--shrink", str(a.shrink), "--out", out]
    if tier == "thorough":
        cmd.append("--big")
    kf = known_findings(a.prop)
    if kf:
        cmd[cmd.index("--maxfail") + 1] = "0"
    r = sh(cmd, env=env)
    if r.returncode != 0 or not os.path.exists(out):
        print("ERROR: runner ended with %d: %s" % (r.returncode, r.stderr.decode(errors="replace")[-2000:]))
        return 4
    j = json.load(open(out))
    os.remove(out)
    violations, hits = [], {}
    for f in j["failures"]:
        f["msg"] = symbolize(exe, f["msg"])
        f["sig"] = symbolize(exe, f["sig"])
        k = next((k for k in kf if re.search(k["match"], f["kind"] + "\n" + f["sig"] + "\n" + f["msg"] + "\n" + f["program"])), None)
        if k:
            hits[k["id"]] = k
        else:
            violations.append(f)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s%s" % (a.prop, k["what"], "" if k["id"] in hits else " (not reproduced in this run)"))
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for n, f in enumerate(violations):
        p = os.path.join(HERE, "replays", "%s-%d-%s.json" % (a.prop, n, hashlib.sha256(json.dumps([f["sched_seed"], f["choices"]]).encode()).hexdigest()[:10]))
        f["property"] = a.prop
        f["replay_cmd"] = "python3 check.py %s --replay %s" % (a.prop, os.path.relpath(p, HERE))
        with open(p, "w") as fh:
            json.dump(f, fh, indent=1)
        print("--- %s: %s" % (f["kind"], f["msg"].strip()))
        print("    program: %s" % f["program"])
        if f["stderr"].strip():
            print("    stderr: %s" % f["stderr"].strip()[-600:])
        print("VIOLATION property=%s replay=%s" % (a.prop, os.path.relpath(p, HERE)))
    # failures which did not happen again: not understood, so one alone is only
    # mentioned while several cannot be a coincidence
    if not violations and len(j["unconfirmed_cases"]) > 1:
        p = os.path.join(HERE, "replays", "%s-unconfirmed.json" % a.prop)
        with open(p, "w") as fh:
            json.dump({"property": a.prop, "seed": a.seed, "tier": tier, "cases": j["unconfirmed_cases"], "replay_cmd": "python3 check.py %s --tier %s --seed %d --index N" % (a.prop, tier, a.seed)}, fh, indent=1)
        print("--- failures which did not reproduce: %s" % json.dumps(j["unconfirmed_cases"]))
        print("VIOLATION property=%s replay=%s" % (a.prop, os.path.relpath(p, HERE)))
        violations.append(p)
    wall = time.time() - t0
    ev = {"property": a.prop, "tier": tier, "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": j["cases"], "distinct_nontrivial": j["distinct_nontrivial"], "nontrivial": j["nontrivial"],
                       "rule": j["rule"], "samples": j["samples"], "inconclusive": j["inconclusive"], "failed_cases": j["failed_cases"],
                       "unconfirmed": j["unconfirmed"], "scheduling_points": j["steps"], "context_switches": j["switches"],
                       "threads_scheduled": j["threads"], "virtual_ms": j["virtual_ms"], "shrink_runs": j["shrink_runs"], "labels": j["labels"]},
          "assumptions": ["schedules are sequentially consistent interleavings; weak-memory effects are covered only through the happens-before race check",
                          "system calls and the clock are modelled by rt/xs.cpp"],
          "wall_s": round(wall, 2), "violations": len(violations)}
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases (%d nontrivial, %d distinct, %d inconclusive), %d steps, %d switches, build %.1fs run %.1fs%s" %
          (a.prop, tier, a.seed, j["cases"], j["nontrivial"], j["distinct_nontrivial"], j["inconclusive"], j["steps"], j["switches"], tb, j["wall_s"],
           " labels " + json.dumps(j["labels"])))
    if violations:
        return 1
    if j["unconfirmed"]:
        print("NOTE: a failure did not reproduce: %s" % json.dumps(j["unconfirmed_cases"]))
    if j["bad_workers"]:
        print("ERROR: %d workers died" % j["bad_workers"])
        return 5
    if j["cases"] < min(cases, 50) or j["inconclusive"] * 4 > j["cases"] or (j["distinct_nontrivial"] < 10):
        print("ERROR: too few conclusive cases")
        return 6
    return 0


if __name__ == "__main__":
    sys.exit(main())
