#!/usr/bin/env python3
"""Driver of all checks:  check.py <PROPERTY> [quick|thorough] [--replay FILE] [--keep]
Builds the harness of the property together with /repo's current sources, explores, rewrites
evidence/<PROPERTY>.json and reports.  Exit 0: held; 1: VIOLATION; 2: the check itself failed."""
import sys, os, json, hashlib, subprocess, time, shutil, tempfile, fcntl, re, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MEWA_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
from checks import CHECKS          # property -> dict

BASE = ["-std=c++17", "-include", "cstdint", "-fPIC", "-w", "-I" + SRC, "-I/usr/include/lua5.2",
        "-I" + os.path.join(VERIF, "mc"), "-I" + os.path.join(VERIF, "harness")]
VARIANTS = {
    # plain: libstdc++ assertions catch out-of-range vector/string/optional accesses
    "plain": dict(cc="g++", cflags=["-O1", "-D_GLIBCXX_ASSERTIONS"], ld=[]),
    "asan":  dict(cc="g++", cflags=["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                    "-fno-sanitize=vptr,alignment", "-fno-omit-frame-pointer"], ld=["-fsanitize=address,undefined"]),
}
LIBS = ["-llua5.2", "-lpthread", "-ldl"]

class BuildError(Exception): pass

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode()); m.update(b"\0")
    return m.hexdigest()[:20]

def treehash(d, exts):
    m = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(d, "**", "*"), recursive=True)):
        if os.path.isfile(f) and f.endswith(exts):
            m.update(os.path.relpath(f, d).encode()); m.update(open(f, "rb").read())
    return m.hexdigest()[:20]

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def compile_one(job):
    cc, flags, src, obj = job
    tmp = obj + ".tmp%d" % os.getpid()
    r = run([cc] + flags + ["-c", src, "-o", tmp])
    if r.returncode: raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
    os.rename(tmp, obj)

def ensure_version_header():
    """src/version.hpp is generated from version.hpp.in and tracked; nothing to do when it is there."""
    if not os.path.exists(os.path.join(SRC, "version.hpp")):
        raise BuildError("src/version.hpp missing")

def build(harness, variant, want_cli=False, want_so=False):
    """returns dict(exe, cli, so)"""
    ensure_version_header()
    v = VARIANTS[variant]
    flags = BASE + v["cflags"]
    repoh = treehash(SRC, (".cpp", ".hpp", ".h", ".inc", ".in"))
    ldir = os.path.join(BUILD, "lib-%s-%s" % (variant, h(repoh, *flags)))
    os.makedirs(ldir, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        jobs, objs, mainobj = [], [], os.path.join(ldir, "mewa_main.o")
        for src in sorted(glob.glob(os.path.join(SRC, "*.cpp"))):
            b = os.path.basename(src)
            if b == "mewa.cpp":
                obj = mainobj
                if not want_cli: continue
            else:
                obj = os.path.join(ldir, b[:-4] + ".o"); objs.append(obj)
            if not os.path.exists(obj): jobs.append((v["cc"], flags, src, obj))
        exe = None
        if harness:
            hsrc = os.path.join(VERIF, "harness", harness + ".cpp")
            hdeps = h(treehash(os.path.join(VERIF, "mc"), (".hpp",)), treehash(os.path.join(VERIF, "harness"), (".hpp",".inc")), open(hsrc, "rb").read())
            hobj = os.path.join(ldir, "%s-%s.o" % (harness, hdeps))
            exe = os.path.join(ldir, "%s-%s" % (harness, hdeps))
            if not os.path.exists(hobj): jobs.append((v["cc"], flags, hsrc, hobj))
        with ThreadPoolExecutor(max(2, os.cpu_count() or 4)) as ex:
            list(ex.map(compile_one, sorted(jobs, key=lambda j: -os.path.getsize(j[2]))))
        def link(out, ins, extra):
            if os.path.exists(out): return
            tmp = out + ".tmp%d" % os.getpid()
            r = run([v["cc"]] + ins + v["ld"] + extra + LIBS + ["-o", tmp])
            if r.returncode: raise BuildError("linking %s failed:\n%s" % (out, r.stdout[-4000:]))
            os.rename(tmp, out)
        if exe: link(exe, [hobj] + objs, ["-rdynamic"])
        cli = so = None
        if want_cli:
            cli = os.path.join(ldir, "mewa"); link(cli, [mainobj] + objs, [])
        if want_so:
            so = os.path.join(ldir, "mewa.so"); link(so, objs, ["-shared"])
    # drop older builds of this variant (disk space)
    for d in glob.glob(os.path.join(BUILD, "lib-%s-*" % variant)):
        if d != ldir and time.time() - os.path.getmtime(d) > 6*3600: shutil.rmtree(d, ignore_errors=True)
    return dict(exe=exe, cli=cli, so=so)

def known_findings(prop):
    """known_findings.txt: lines 'KNOWN property=<id> case=<exact case text> ## <what fails>', 'KNOWN property=<id> finding=<name> ## ...'
    (deviation that has to equal what a model of the defect predicts) and 'fixed: ...'"""
    rt = {}
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"KNOWN property=(\S+) case=(.*?) ## (.*)$", l.rstrip("\n"))
            if m and m.group(1) == prop: rt[m.group(2)] = m.group(3)
            m = re.match(r"KNOWN property=(\S+) finding=(\S+) ## (.*)$", l.rstrip("\n"))
            if m and m.group(1) == prop: rt["@" + m.group(2)] = m.group(3)
    return rt

def main():
    args = sys.argv[1:]
    if not args: print(__doc__); return 2
    if args[0] == "--setup":
        # prebuild everything; each check does the same again where needed
        jobs = sorted({(pt["harness"], pt.get("variant", "plain"), pt.get("cli", False), pt.get("so", False))
                       for c in CHECKS.values() for pt in c.get("parts", [c])})
        for j in jobs:
            try: build(*j)
            except BuildError as e: print("BUILD FAILED:", e); return 2
        print("built", len(jobs), "harness variants"); return 0
    prop = args[0]; tier = os.environ.get("VERIF_TIER", "quick"); replay = None; keep = False; workers = None
    i = 1
    while i < len(args):
        if args[i] in ("quick", "thorough"): tier = args[i]
        elif args[i] == "--replay": i += 1; replay = os.path.abspath(args[i])
        elif args[i] == "--keep": keep = True
        elif args[i] == "--workers": i += 1; workers = args[i]
        else: print("unknown argument", args[i]); return 2
        i += 1
    if prop not in CHECKS: print("unknown property", prop); return 2
    ck = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    parts = ck["parts"] if "parts" in ck else [ck]
    evdir = os.path.join(VERIF, "evidence"); os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    known = known_findings(prop)
    total = dict(executions=0, transitions=0, traces=0, states=0, cases=0); complete = True
    samples, rules, counters, viols, knownhit = [], [], {}, [], []
    scratch = tempfile.mkdtemp(prefix="mewamc.")
    os.chmod(scratch, 0o755)
    try:
        for pi, part in enumerate(parts):
            try:
                b = build(part["harness"], part.get("variant", "plain"), part.get("cli", False), part.get("so", False))
            except BuildError as e:
                print("BUILD FAILED:", e); return 2
            env = dict(os.environ, MEWA_REPO=REPO, LC_ALL="C",
                       ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=4096",
                       UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99")
            if b["cli"]: env["MEWA_CLI"] = b["cli"]
            if b["so"]: env["MEWA_SO"] = b["so"]
            name = part.get("name", prop)
            psc = os.path.join(scratch, "p%d" % pi); os.mkdir(psc)
            kf = os.path.join(psc, "known"); open(kf, "w").write("".join(k + "\n" for k in known))
            if replay:
                r = subprocess.run([b["exe"], "--prop", name, "--replay", replay, "--scratch", psc, "--tier", tier, "--known", kf], env=env, cwd=psc)
                print("%s: replay ended with status %d" % (name, r.returncode))
                if r.returncode != 0 and pi == len(parts)-1: return 1
                if r.returncode != 0: return 1
                continue
            out = os.path.join(psc, "out.json")
            dl = str(int((700 if tier == "thorough" else 420) / len(parts)))
            cmd = [b["exe"], "--prop", name, "--tier", tier, "--out", out, "--known", kf, "--scratch", psc, "--deadline", dl]
            if workers: cmd += ["--workers", workers]
            log = open(os.path.join(psc, "log"), "w+b")
            r = subprocess.run(cmd, env=env, cwd=psc, stdout=log, stderr=log)
            log.seek(0); logt = log.read().decode("utf8", "replace"); log.close()
            if r.returncode != 0 or not os.path.exists(out):
                print("harness %s failed with status %d\n%s" % (name, r.returncode, logt[-3000:])); return 2
            res = json.load(open(out))
            for k in total: total[k] += res[k]
            complete = complete and res["complete"]
            samples += res["samples"][:6]; rules.append(res["rule"])
            for k, n in res["counters"].items(): counters[k] = counters.get(k, 0) + n
            res["violations"].sort(key=lambda v: (not v["known"], "no termination within" in v["msg"], len(v["case_hex"])))
            for fid, ct in res["findings"].items():
                knownhit.append((bytes.fromhex(ct).decode("utf8", "surrogateescape"), "%s: %s" % (fid, known.get("@" + fid, "?"))))
            nrep = 0
            for v in res["violations"]:
                text = bytes.fromhex(v["case_hex"]).decode("utf8", "surrogateescape")
                if v["known"]: knownhit.append((text, known.get(text, v["msg"]))); continue
                nrep += 1
                if nrep > 3: continue       # enough shown; everything known is already filtered
                hsh = h(prop, name, text)
                rf = os.path.join(evdir, "replay", "%s-%s.case" % (prop, hsh))
                open(rf, "wb").write(bytes.fromhex(v["case_hex"]) + b"\n")
                # replay alone, in a fresh process, before reporting
                rsc = os.path.join(psc, "replay-" + hsh); os.mkdir(rsc)
                try:
                    rr = subprocess.run([b["exe"], "--prop", name, "--replay", rf, "--scratch", rsc, "--tier", tier, "--known", kf], env=env, cwd=rsc,
                                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=150)
                    rep = rr.returncode != 0
                    rout = rr.stdout.decode("utf8", "replace")
                except subprocess.TimeoutExpired:
                    rep, rout = True, "(replay timed out)"
                shutil.rmtree(rsc, ignore_errors=True)
                msg = v["msg"]
                if not rep and ("no termination within" in msg or "signal 9" in msg):
                    counters["slow_cases_not_reproduced"] = counters.get("slow_cases_not_reproduced", 0) + 1
                    if os.environ.get("VERIF_DEBUG"): print("SLOW", text, msg[:500])
                    os.unlink(rf); continue
                if not rep: msg += "\n(the case alone holds: it needs the cases executed before it in the same process)"
                viols.append((rf, text, msg, rout if "crashed or hung" in msg else ""))
    finally:
        if not keep: shutil.rmtree(scratch, ignore_errors=True)
        else: print("scratch kept:", scratch)
    if replay: print("replay: holds"); return 0
    level = ck.get("level", "model_checking")
    cov = dict(samples=samples[:20] or ["(none)"], exhaustive=bool(complete), rule=" || ".join(rules), counters=counters, cases_enumerated=total["cases"])
    if level == "model_checking":
        cov.update(states=total["states"], transitions=total["transitions"], traces_validated_against_impl=total["traces"])
    else:
        cov.update(evaluations=total["executions"], distinct_nontrivial=total["states"])
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time()-t0, 2), violations=len(viols),
              assumptions=ck.get("assumptions", []))
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    for t, m in sorted(set(knownhit)): print("KNOWN-FINDING: property=%s %s [case %s]" % (prop, m, t))
    print("%s %s: cases=%d states=%d transitions=%d traces=%d complete=%s violations=%d wall=%.1fs %s" % (
        prop, tier, total["cases"], total["states"], total["transitions"], total["traces"], complete, len(viols), time.time()-t0,
        " ".join("%s=%d" % c for c in sorted(counters.items()))))
    for rf, text, msg, rout in sorted(viols, key=lambda v: len(v[1]))[:8]:
        print("--- case: %s\n    %s" % (text[:1500], msg[:3000]))
        if rout: print("    " + rout[-2500:].replace("\n", "\n    "))
        print("VIOLATION property=%s replay=%s" % (prop, rf))
    return 1 if viols else 0

if __name__ == "__main__":
    sys.exit(main())
