"""Runs the checks: builds the library and the driver from /repo, model-checks the design, generates scenarios with TLC,
replays them on the real code and validates the recorded traces with TLC.  All verdicts on behaviour come from TLC."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = os.environ.get("NIKFEMM_REPO", "/repo")
LIB = REPO + "/lib/nikfemm"
SPEC = VERIF + "/spec"
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
CACHE = os.environ.get("NIKFEMM_VERIF_CACHE", VERIF + "/.cache")
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ------------------------------------------------------------------ build
def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def _plan(flags):
    base = ["g++", "-std=c++20", "-mavx", "-DLINUX", "-w"] + flags
    srcs = sorted(set(glob.glob(LIB + "/src/*.cpp") + glob.glob(LIB + "/src/**/*.cpp", recursive=True)))
    hdrs = [p for p in glob.glob(LIB + "/**/*", recursive=True) if re.search(r"\.(h|hpp|hh|inl)$", p)]
    return base, srcs, _hash(hdrs, " ".join(base))


def _obj(s, hh):
    return "%s/%s.o" % (CACHE, _hash([s] + ([VERIF + "/harness/json.hpp"] if s.startswith(VERIF) else []), hh))


def build_driver(flags, tag):
    """The library (without OpenCV) and the replay driver, from the current working tree of /repo."""
    inc = ["-I", LIB + "/include", "-I", LIB + "/src"]
    base, srcs, hh = _plan(flags)
    os.makedirs(CACHE, exist_ok=True)
    jobs, objs = [], []
    for s in srcs + [VERIF + "/harness/driver.cpp"]:
        o = _obj(s, hh)
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o))
    def one(j):
        s, o = j
        t = o + ".%d.tmp" % os.getpid()
        r = sh(base + inc + ["-c", s, "-o", t])
        if r.returncode:
            raise CheckError("compiling %s failed:\n%s" % (s, r.stdout[-3000:]))
        os.replace(t, o)
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, jobs))
    exe = "%s/driver-%s" % (CACHE, hashlib.sha256(" ".join(objs).encode()).hexdigest()[:24])
    if not os.path.exists(exe):
        t = exe + ".%d.tmp" % os.getpid()
        r = sh(base + objs + ["-lpthread", "-o", t])
        if r.returncode:
            raise CheckError("linking the driver failed:\n" + r.stdout[-3000:])
        os.replace(t, exe)
    return exe


def build_extension(flags):
    """The Python extension module from the working tree of /repo, with the same library; returns the directory it is in."""
    build_driver(flags, "")
    base, srcs, hh = _plan(flags)
    inc = sysconfig_include()
    lib = [_obj(s, hh) for s in srcs]
    src = REPO + "/python/nikfemm.cpp"
    d = "%s/ext-%s" % (CACHE, _hash([src], hh + " ".join(lib) + inc))
    if not os.path.exists(d):
        t = tempfile.mkdtemp(dir=CACHE)
        r = sh([f for f in base if not f.startswith("-std=")] + ["-shared",  # (the dialect setup.py builds it in)
                "-I", inc, "-I", LIB + "/include", "-I", LIB + "/src", src] + lib + ["-lpthread", "-o", t + "/nikfemm.so"])
        if r.returncode:
            raise CheckError("building the extension failed:\n" + r.stdout[-3000:])
        try: os.rename(t, d)
        except OSError: shutil.rmtree(t, ignore_errors=True)
    return d


def sysconfig_include():
    return sh(["/usr/bin/python3", "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"]).stdout.strip()


def run_binding(scen, work, exe, timeout=60, shards=NCPU):
    """The Python calls on the extension module, the other operations on the library; the events in the order of the scenario."""
    ext = build_extension(FLAGS["quick"])
    todo = [json.loads(l) for l in open(scen)]
    lib = scen + ".lib"
    with open(lib, "w") as h:
        for s in todo: h.write(json.dumps(dict(s, cmds=[c for c in s["cmds"] if c["o"] != "py"])) + "\n")
    libs = run_driver(exe, lib, lib + ".out", work, timeout, shards)
    procs = [subprocess.Popen(["/usr/bin/python3", VERIF + "/harness/pydriver.py", scen, "%s.py%d" % (scen, k), str(timeout), str(k), str(shards), ext],
                              env=dict(os.environ, MALLOC_PERTURB_="165"), cwd=work, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE) for k in range(shards)]
    py = {}
    for k, p in enumerate(procs):
        _, err = p.communicate()
        if p.returncode: raise CheckError("the Python driver failed: %s" % err[-500:])
        for line in open("%s.py%d" % (scen, k)):
            j = json.loads(line); py[j["id"]] = j["replies"]
        os.unlink("%s.py%d" % (scen, k))
    out = {}
    for s in todo:
        a, b, ev = iter(py[s["id"]]), iter(libs[s["id"]][0]["ev"]), []
        for c in s["cmds"]:
            e = next(a if c["o"] == "py" else b, None)
            if e is None: break  # what came before ended the process
            ev.append('{"c":%s,"r":%s}' % (json.dumps(c), e if c["o"] == "py" else json.dumps(e["r"])))
        line = '{"id":%s,"ev":[%s]}\n' % (json.dumps(s["id"]), ",".join(ev))
        out[s["id"]] = (json.loads(line), line)
    return out


def build_classes():
    src = sorted(glob.glob(SPEC + "/java/*.java"))
    d = "%s/cls-%s" % (CACHE, _hash(src))
    if not os.path.exists(d):
        os.makedirs(CACHE, exist_ok=True)
        t = tempfile.mkdtemp(dir=CACHE)
        r = sh(["javac", "-nowarn", "-cp", TLA, "-d", t] + src)
        if r.returncode:
            raise CheckError("javac failed:\n" + r.stdout)
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return d


# ------------------------------------------------------------------ TLC
def tlc_value(v):
    if isinstance(v, bool): return "TRUE" if v else "FALSE"
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return '"%s"' % v
    if isinstance(v, (set, frozenset)): return "{%s}" % ", ".join(tlc_value(x) for x in sorted(v))
    raise ValueError(v)


def tlc(module, work, cls, cfg=None, consts=None, workers=NCPU, timeout=600, heap="6g", extra=()):
    if cfg is None:
        cfg = os.path.join(work, "%s-%d.cfg" % (module, time.time_ns()))
        with open(cfg, "w") as f:
            f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
            if consts:
                f.write("CONSTANTS\n" + "".join("  %s = %s\n" % (k, tlc_value(v)) for k, v in consts.items()))
    else:
        cfg = SPEC + "/" + cfg
    meta = tempfile.mkdtemp(dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dtlc2.tool.queue.DiskStateQueue.BufSize=1000000", "-cp", "%s:%s:%s" % (cls, TLA, CM), "-DTLA-Library=" + SPEC, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg] + list(extra) + [SPEC + "/" + module + ".tla"]
    try:
        r = sh(cmd, cwd=work, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        raise CheckError("TLC timed out on %s" % module)
    out = "\n".join(l for l in out.split("\n") if not l.startswith("Loading ") and not l.startswith("Parsing file") and not l.startswith("Semantic processing"))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    st = (int(m.group(2)), int(m.group(1))) if m else (0, 0)
    return rc, out, st


# ------------------------------------------------------------------ replay and validation
def run_driver(exe, scen, out, work, timeout, shards=NCPU, env=None):
    procs = []
    e = dict(os.environ, MALLOC_PERTURB_="165")
    e.update(env or {})
    for k in range(shards):
        sd = tempfile.mkdtemp(dir=work)
        procs.append((subprocess.Popen([exe, scen, "%s.%d" % (out, k), sd, str(timeout), str(k), str(shards)], env=e, cwd=sd,
                                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), k))
    recs = {}
    for p, k in procs:
        _, err = p.communicate()
        if p.returncode:
            raise CheckError("driver failed: %s" % err[-500:])
        for line in open("%s.%d" % (out, k)):
            j = json.loads(line)
            recs[j["id"]] = (j, line)
        os.unlink("%s.%d" % (out, k))
    return recs


def driver_errors(recs):
    for j, _ in recs.values():
        for e in j["ev"]:
            if isinstance(e["r"], dict) and "driver" in e["r"]:
                raise CheckError("scenario %s: %s" % (j["id"], e["r"]["driver"]))


def validate(module, lines, focus, work, cls, consts=None, timeout=800, workers=NCPU, limit=16 << 20):
    """Returns (accepted ids, failures by id, (states, transitions)).  lines: list of (id, json line)."""
    if len(lines) > 1 and sum(len(l) for _, l in lines) > limit:  # TLC holds a whole file in memory
        acc, fails, st, k = set(), {}, (0, 0), 0
        while k < len(lines):
            n, size = k, 0
            while n < len(lines) and (n == k or size + len(lines[n][1]) <= limit):
                size += len(lines[n][1]); n += 1
            a, fl, s2 = validate(module, lines[k:n], focus, work, cls, consts, timeout, workers, 1 << 62)
            acc |= a; fails.update(fl); st = (st[0] + s2[0], st[1] + s2[1]); k = n
        return acc, fails, st
    f = os.path.join(work, "trace-%d.ndjson" % time.time_ns())
    with open(f, "w") as h:
        h.writelines(l for _, l in lines)
    c = {"TraceFile": f, "Focus": focus}
    c.update(consts or {})
    rc, out, st = tlc(module, work, cls, consts=c, timeout=timeout, workers=workers)
    acc = set(re.findall(r'<<\s*"ACCEPT",\s*"([^"]*)"\s*>>', out))
    fails = {}
    for m in re.finditer(r'<<\s*"FAIL",\s*"([^"]*)",\s*(\d+),\s*"([^"]*)",\s*"([^"]*)"(.*?)>>', out, re.S):
        fails.setdefault(m.group(1), []).append((int(m.group(2)), m.group(3), m.group(4)))
    if rc != 0 and ("Parsing or semantic analysis failed" in out or "Could not" in out or "tlc2.tool.ConfigFileException" in out):
        raise CheckError("TLC on %s:\n%s" % (module, out[-3000:]))
    if rc != 0:  # an event the specification cannot even evaluate: isolate its scenario
        ids = [i for i, _ in lines]
        if len(ids) == 1:
            fails.setdefault(ids[0], []).append((0, "any", "event outside the specification: " + " ".join(out[-1500:].split())[-600:]))
            os.unlink(f)
            return set(), fails, st
        todo = [l for l in lines if l[0] not in acc and l[0] not in fails]
        if not todo:
            raise CheckError("TLC on %s:\n%s" % (module, out[-3000:]))
        os.unlink(f)
        if len(todo) == len(lines):
            half = len(todo) // 2
            parts = [todo[:half], todo[half:]]
        else:
            parts = [todo]
        for p in parts:
            if p:
                a, fl, s2 = validate(module, p, focus, work, cls, consts, timeout, workers, limit)
                acc |= a
                for k, v in fl.items(): fails.setdefault(k, []).extend(v)
                st = (st[0] + s2[0], st[1] + s2[1])
        return acc, fails, st
    os.unlink(f)
    return acc, fails, st


# ------------------------------------------------------------------ known findings
def known_findings():
    out = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) scenario=(\S+) demand=\"([^\"]*)\" (.*)", line.strip())
            if m: out.append(m.groups())
    return out


def signature(rec, upto):
    """Identifies the input: the commands up to and including the failing one."""
    cmds = [e["c"] for e in rec["ev"]][:max(upto, 1)]
    return hashlib.sha256(json.dumps(cmds, sort_keys=True).encode()).hexdigest()[:16]


# ------------------------------------------------------------------ main
FLAGS = {"quick": ["-O1", "-fPIC", "-D_GLIBCXX_ASSERTIONS"],
         "opt": ["-O3"],
         "asan": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"]}


def main(argv):
    import checks
    if len(argv) < 1 or argv[0] not in checks.CHECKS:
        print("usage: check <%s>" % "|".join(checks.CHECKS)); return 2
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(VERIF + "/.work", exist_ok=True)
    work = tempfile.mkdtemp(dir=VERIF + "/.work", prefix=prop + "-")
    try:
        return run(checks.CHECKS[prop], prop, tier, seed, work, t0)
    except CheckError as e:
        print("ERROR in the check of %s: %s" % (prop, e)); return 3
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(spec, prop, tier, seed, work, t0):
    thorough = tier == "thorough"
    say = lambda s: print("[%6.1fs] %s" % (time.time() - t0, s), flush=True)
    cls = build_classes()
    pool = cf.ThreadPoolExecutor(16)
    fbuild = [pool.submit(build_driver, FLAGS["quick"], "quick")]
    if thorough:
        fbuild += [pool.submit(build_driver, FLAGS["opt"], "opt"), pool.submit(build_driver, FLAGS["asan"], "asan")]
    # 1. the design, exhaustively within small constants
    mcs = list(spec.get("mc", [])) + (list(spec.get("mc_thorough", [])) if thorough else [])
    fmc = [(m, cfg, pool.submit(tlc, m, work, cls, cfg, None, 2 if not thorough else 4, 800 if not thorough else 5000)) for m, cfg in mcs]
    # 2. scenarios
    fgen = []
    for n, j in enumerate(spec["jobs"]):
        out = os.path.join(work, "scen-%d.ndjson" % n)
        open(out, "w").close()
        if "gen" in j:
            mod, fam, quick, deep = j["gen"]
            c = {"OutFile": out, "Seed": seed, "Family": fam, "Count": deep if thorough else quick}
            fgen.append((j, out, pool.submit(tlc, mod, work, cls, None, c, 4)))
        else:
            fgen.append((j, out, None))
    states = trans = 0
    mcinfo = []
    for m, cfg, f in fmc:
        rc, out, st = f.result()
        if rc != 0:
            raise CheckError("the design model %s is not correct:\n%s" % (m, out[-3000:]))
        states += st[0]; trans += st[1]
        mcinfo.append("%s: %d states, %d transitions" % (cfg, st[0], st[1]))
    if mcinfo: say("design: " + "; ".join(mcinfo))
    exes = [f.result() for f in fbuild]
    say("library and driver built")
    ntr = 0; samples = []; violations = []; known = []; per = []; kf = known_findings()
    for n, (j, scen, f) in enumerate(fgen):
        if f is not None:
            rc, out, st = f.result()
            if rc != 0:
                raise CheckError("scenario generation %s:\n%s" % (j["gen"][0], out[-3000:]))
            states += st[0]; trans += st[1]
        else:
            j["make"](scen, seed, thorough)
        lines = sorted(set(l for l in open(scen) if l.strip()))
        # distinct scenarios only
        seen = {}
        for l in lines:
            s = json.loads(l); seen[s["id"]] = l
        if j.get("cap"): pass
        with open(scen, "w") as h: h.writelines(seen[k] for k in sorted(seen))
        if not seen:
            raise CheckError("no scenario generated for job %d" % n)
        to = j.get("timeout", 60)
        for b, exe in enumerate(exes):
            env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:hard_rss_limit_mb=3000:allocator_may_return_null=0", "UBSAN_OPTIONS": "halt_on_error=1:abort_on_error=1"} if b == 2 else None
            if b == 2 and not j.get("asan", True) or b and "exec" in j: continue
            recs = globals()[j["exec"]](scen, work, exe) if "exec" in j else run_driver(exe, scen, scen + ".out", work, to * (3 if b else 1), env=env)
            driver_errors(recs)
            miss = set(seen) - set(recs)
            if miss: raise CheckError("no record of scenarios %s" % sorted(miss)[:3])
            acc, fails, st = validate(j["trace"], [(i, l) for i, (_, l) in sorted(recs.items())], {prop}, work, cls, j.get("consts"), 850 if not thorough else 6000)
            states += st[0]; trans += st[1]; ntr += len(acc)
            rej = sorted(set(recs) - acc)
            say("%s/%s build %d: %d traces, %d accepted" % (j["trace"], j["gen"][1] if "gen" in j else j.get("name", "-"), b, len(recs), len(acc)))
            per.append("%s %s: %d traces" % (j["trace"], j["gen"][1] if "gen" in j else j.get("name", "-"), len(recs)))
            if len(samples) < 3:
                k0 = sorted(recs)[len(recs) // 2]
                samples.append({"scenario": json.loads(seen[k0]), "accepted": k0 in acc, "events": len(recs[k0][0]["ev"])})
            for sid in rej[:40]:
                fl = sorted(fails.get(sid, [(0, "any", "no action of the specification explains the next event")]))
                at, p, name = fl[0]
                if p not in (prop, "any"): continue
                # confirm on fresh executions, alone
                one = os.path.join(work, "one.ndjson")
                open(one, "w").write(seen[sid])
                conf = False; rec = recs[sid][0]
                if len(violations) < 3:
                    for _ in range(3):
                        r2 = globals()[j["exec"]](one, work, exe) if "exec" in j else run_driver(exe, one, one + ".out", work, to * 3, 1, env=env)
                        a2, f2, _st = validate(j["trace"], [(sid, r2[sid][1])], {prop}, work, cls, j.get("consts"), 850)
                        if sid not in a2:
                            conf = True; rec = r2[sid][0]
                            if sid in f2: at, p, name = sorted(f2[sid])[0]
                            break
                else: conf = True
                if not conf: continue
                sig = signature(rec, at)
                hit = [k for k in kf if k[0] == prop and k[1] == sig and k[2] == name]
                if hit:
                    known.append("KNOWN-FINDING: property=%s %s" % (prop, hit[0][3])); continue
                d = VERIF + "/replays"; os.makedirs(d, exist_ok=True)
                path = "%s/%s-%s.json" % (d, prop, re.sub(r"[^A-Za-z0-9_.-]", "_", sid))
                json.dump({"property": prop, "scenario": json.loads(seen[sid]), "rejected_event": at, "demand": name, "signature": sig,
                           "trace_spec": j["trace"], "trace": rec}, open(path, "w"))
                violations.append((path, sid, at, name, sig))
            if violations: break
        if violations: break
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": ntr, "samples": samples,
                       "design_models": mcinfo, "trace_sets": per},
          "assumptions": ["Trace values are compared with exact or 60-digit arithmetic (spec/ExactReal.tla); tolerances cover double rounding only.",
                          "The replay driver reports replies and projected state faithfully."],
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, prop), "w"), indent=1)
    for k in sorted(set(known)): print(k)
    for path, sid, at, name, sig in violations[:10]:
        print("scenario %s, event %d: %s (signature %s)" % (sid, at, name, sig))
    if violations:
        print("VIOLATION property=%s replay=%s" % (prop, violations[0][0]))
        return 1
    say("property %s held: %d states, %d transitions, %d traces" % (prop, states, trans, ntr))
    return 0
