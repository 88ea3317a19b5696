"""Build, run and validate: the machinery every property check uses."""
import concurrent.futures as cf
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
NPROC = os.cpu_count() or 4
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    """The check itself could not run: neither 'holds' nor 'violated'."""


def log(*a):
    print("[%7.1f]" % (time.time() - T0), *a, flush=True)


T0 = time.time()

# ------------------------------------------------------------------ build
CXX = "g++"
SAN = ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]
TSAN = ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"]
BASE = ["-std=c++17", "-w", "-DNDEBUG", "-DHAVE_PNG", "-DHAVE_JPEG", "-fopenmp", "-pthread",
        "-include", "array", "-include", "limits", "-include", "cstdint",
        "-include", "functional", "-include", "numeric", "-include", "cmath", "-include", "algorithm",
        "-include", "string_view", "-include", "optional"]


def incs():
    return ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + REPO, "-I" + HARN + "/ade_shim", "-I" + HARN + "/drv",
            "-isystem", "/usr/include/eigen3"]


def needs_ade(path):
    if re.search(r"/(model/model|model/graphbuilder|runtime/cpu/cpubackend|serialization)\.cpp$", path):
        return True
    return re.search(r"#include *<ade/", open(path, errors="replace").read()) is not None


def tree_hash(roots):
    h = hashlib.sha256()
    for r in roots:
        for p in sorted(glob.glob(r + "/**/*", recursive=True)):
            if os.path.isfile(p) and re.search(r"\.(c|h|cc|cpp|hpp|inl|ipp|inc)$", p):
                h.update(os.path.relpath(p, r).encode() + b"\0")
                h.update(open(p, "rb").read() + b"\0")
    return h.hexdigest()[:16]


def sh(cmd, timeout=600, env=None, cwd=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd,
                          text=True, errors="replace")


def build(driver, full, SAN=SAN, sample=None):
    """Compile /repo's current sources (all of them, or those without ade) and one driver, or a sample program; returns the binary."""
    key = tree_hash([REPO + "/include", REPO + "/src", REPO + "/samples", HARN]) + hashlib.sha256(
        " ".join([CXX] + SAN + BASE).encode()).hexdigest()[:6]
    bdir = os.path.join(BUILD, key)
    os.makedirs(bdir, exist_ok=True)
    os.utime(bdir)
    exe = os.path.join(bdir, driver + (".prog" if sample else ".full" if full else ".core"))
    if os.path.exists(exe):
        return exe
    old = sorted((d for d in glob.glob(BUILD + "/*") if d != bdir), key=os.path.getmtime)
    for d in old[:-3]:
        shutil.rmtree(d, ignore_errors=True)
    srcs = [s for s in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)) if full or not needs_ade(s)]
    srcs += sorted(glob.glob(REPO + "/samples/" + sample + "/*.cpp")) if sample else [HARN + "/drv/common.cpp", HARN + "/drv/" + driver + ".cpp"]
    jobs = []
    for s in srcs:
        o = os.path.join(bdir, hashlib.sha256(s.encode()).hexdigest()[:10] + "_" + os.path.basename(s) + ".o")
        jobs.append((s, o))
    sizes = {s: (os.path.getsize(s) + (50000 if "kernels" in s or "/drv/" in s else 0)) for s, _ in jobs}
    jobs.sort(key=lambda j: -sizes[j[0]])

    def cc(j):
        s, o = j
        if os.path.exists(o):
            return None
        r = sh([CXX] + SAN + BASE + incs() + ["-c", s, "-o", o + ".tmp%d" % os.getpid()])
        if r.returncode:
            return s + "\n" + r.stdout[-4000:]
        os.replace(o + ".tmp%d" % os.getpid(), o)
        return None

    with cf.ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(cc, jobs) if e]
    if errs:
        raise MachineryError("compile failed:\n" + errs[0])
    r = sh([CXX] + SAN + ["-fopenmp", "-pthread", "-o", exe + ".tmp%d" % os.getpid()] + [o for _, o in jobs] +
           ["-lpng", "-ljpeg"])
    if r.returncode:
        raise MachineryError("link failed:\n" + r.stdout[-4000:])
    os.replace(exe + ".tmp%d" % os.getpid(), exe)
    return exe


def par(*fs):
    """Run the thunks concurrently; their results in order."""
    with cf.ThreadPoolExecutor(len(fs)) as ex:
        return [f.result() for f in [ex.submit(f) for f in fs]]


# ------------------------------------------------------------------ driver
def driver_env(threads):
    e = dict(os.environ)
    e["OMP_NUM_THREADS"] = str(threads)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=255:"
                         "allocator_may_return_null=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:"
                         "handle_abort=0:log_path=/dev/null:max_allocation_size_mb=2048")
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4" + (":log_path=" + os.environ["VERIF_TSAN_LOG"] if "VERIF_TSAN_LOG" in os.environ else "")
    e["OMP_WAIT_POLICY"] = "passive"
    return e


def run_driver(exe, scenarios, work, threads=2, tag="d"):
    """Run scenarios on the real code; returns {id: result}."""
    if not scenarios:
        return {}
    n = max(1, min(NPROC, len(scenarios)))
    chunks = [scenarios[i::n] for i in range(n)]
    out = {}

    def one(k):
        d = tempfile.mkdtemp(prefix=tag, dir=work)
        sp, op = d + "/s.ndjson", d + "/o.ndjson"
        with open(sp, "w") as f:
            for s in chunks[k]:
                f.write(json.dumps(s, separators=(",", ":")) + "\n")
        scratch = d + "/scratch"
        os.mkdir(scratch)
        r = subprocess.run([exe, sp, op], env=driver_env(threads), cwd=scratch, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, timeout=800)
        if r.returncode:
            raise MachineryError("driver exit %d: %s" % (r.returncode, r.stderr[-2000:].decode(errors="replace")))
        res = [json.loads(l) for l in open(op)]
        shutil.rmtree(d, ignore_errors=True)
        return res

    with cf.ThreadPoolExecutor(n) as ex:
        for rs in ex.map(one, range(n)):
            for r in rs:
                out[r["id"]] = r
    if len(out) < len(scenarios) and any(r["crash"] == "signal14" for r in out.values()):
        log("%d histories not run: calls that do not return" % (len(scenarios) - len(out)))
        scenarios[:] = [s for s in scenarios if s["id"] in out]
    if len(out) != len(scenarios):
        raise MachineryError("driver returned %d of %d scenarios" % (len(out), len(scenarios)))
    return out


# ------------------------------------------------------------------ TLC
def tlc(module, cfg, work, args=(), env=None, timeout=800, workers="1", heap="3g", gc="Serial"):
    """Run TLC on spec/<module>.tla with the given cfg text; returns (exitcode, output)."""
    d = tempfile.mkdtemp(prefix="tlc", dir=work)
    cfgp = d + "/m.cfg"
    open(cfgp, "w").write(cfg)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    cmd = ["java", "-XX:+Use%sGC" % gc, "-Xmx" + heap, "-Xss64m", "-cp", JARS, "-DTLA-Library=" + SPEC,
           "-Djava.io.tmpdir=" + d, "tlc2.TLC", "-workers", str(workers), "-metadir", d + "/meta", "-noGenerateSpecTE",
           "-lncheck", "final", "-config", cfgp] + list(args) + [SPEC + "/" + module + ".tla"]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=d,
                           text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timeout on " + module)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r.returncode, r.stdout


def tlc_counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, dct = m[-1]
    return int(dct.replace(",", "")), int(g.replace(",", ""))


def model_check(module, cfg, work, args=(), timeout=800, workers="auto"):
    """Exhaustive design check. A failure here is a defect of the specification, not of the code."""
    rc, out = tlc(module, cfg, work, args=args, timeout=timeout, workers=workers, heap="8g", gc="Parallel")
    if rc != 0 or "No error has been found" not in out:
        raise MachineryError("design check of %s failed (rc %d):\n%s" % (module, rc, out[-3000:]))
    return tlc_counts(out)


def generate(module, cfg, work, num, depth, seed, timeout=300):
    """Random behaviours of the specification (TLC simulation): list of operation sequences."""
    rc, out = tlc(module, cfg, work, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)],
                  timeout=timeout, workers="1")
    return parse_gen(out, module, rc)


def parse_gen(out, module, rc=0):
    res = []
    for m in re.finditer(r'^"GEN (.*)"\s*$', out, re.M):
        res.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    if not res:
        raise MachineryError("no behaviours generated by %s (rc %d):\n%s" % (module, rc, out[-3000:]))
    return res


# ------------------------------------------------------------------ traces
def events_of(sc, res):
    hdr = {k: v for k, v in sc.items() if k not in ("ops", "alarm", "subs")}
    hdr["e"] = "begin"
    ev = [hdr]
    for op, r in zip(sc["ops"], res["res"]):
        e = dict(op)
        e["e"] = "op"
        e["r"] = r
        ev.append(e)
    if res["crash"] or len(res["res"]) != len(sc["ops"]):
        ev.append({"e": "crash", "how": res["crash"] or "short"})
    else:
        ev.append({"e": "end"})
    return ev


class TraceChunk:
    def __init__(self):
        self.events, self.where = [], []


def validate_chunk(module, cfg, pairs, work):
    """pairs: [(scenario, result)]; returns (distinct, generated, None | (scenario, index of first rejected event))."""
    events, where = [], []
    for sc, res in pairs:
        for i, e in enumerate(events_of(sc, res)):
            events.append(e)
            where.append((sc, i))
    fd, path = tempfile.mkstemp(suffix=".ndjson", dir=work)
    with os.fdopen(fd, "w") as f:
        for e in events:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")
    try:
        rc, out = tlc(module, cfg, work, env={"TRACE": path}, workers="1")
    finally:
        os.unlink(path)
    m = re.search(r'<<"REACHED", (\d+), (\d+)>>', out)
    if not m:
        k = re.search(r"^l = (\d+)", out, re.M)
        raise MachineryError("trace validation with %s broke down (rc %d):\n%s" % (module, rc, "\n".join(re.findall(r"(?m)^.*(?:Error|Exception|Attempted|overflow).*$(?:\n.*){0,3}", out)[:3])[:1500] + out[-1500:]))
    reached, total = int(m.group(1)), int(m.group(2))
    d, g = tlc_counts(out)
    if total != len(events):
        raise MachineryError("trace length mismatch %d %d" % (total, len(events)))
    if reached == total:
        return d, g, None
    return d, g, where[reached]      # first event that was not consumed


TRACE_CFG = "SPECIFICATION TSpec\nPOSTCONDITION TAccepted\nCHECK_DEADLOCK FALSE\n"


class Verdict:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.states = self.trans = 0
        self.tr_states = self.tr_trans = 0
        self.traces = self.events = 0
        self.samples, self.violations, self.parts, self.assumptions, self.known = [], [], [], [], []


def known_findings(prop):
    """Findings recorded (not repaired) for a property in KNOWN_FINDINGS.md: {key: text}."""
    txt = open(VERIF + "/KNOWN_FINDINGS.md").read()
    return dict(re.findall(r"^known: property=%s key=(\S+) (.*)$" % prop, txt, re.M))


def validate(v, part, module, exe, scenarios, results, work, cfg=TRACE_CFG, nchunks=None, threads=2):
    """Validate recorded traces against the trace specification; confirmed rejections are added to v.violations."""
    # big scenarios first, spread over the chunks
    weight = lambda s: len(json.dumps(s)) + len(json.dumps(results[s["id"]]["res"]))
    n = nchunks or max(1, min(NPROC - 1, (len(scenarios) + 7) // 8))
    chunks, load = [[] for _ in range(n)], [0] * n
    for s in sorted(scenarios, key=lambda s: -weight(s)):
        k = load.index(min(load))
        chunks[k].append((s, results[s["id"]]))
        load[k] += weight(s) + 200

    def one(pairs):
        rej, acc = [], (0, 0)
        todo = list(pairs)
        while todo:
            d, g, r = validate_chunk(module, cfg, todo, work)
            acc = (acc[0] + d, acc[1] + g)
            if r is None:
                break
            rej.append(r)
            if len(rej) >= 2:
                break
            ids = [s["id"] for s, _ in todo]
            todo = todo[ids.index(r[0]["id"]) + 1:]
        return acc, rej

    with cf.ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(one, [c for c in chunks if c]))
    v.traces += len(scenarios)
    v.events += sum(len(s["ops"]) for s in scenarios)
    todo = []
    for acc, rej in outs:
        v.tr_states += acc[0]
        v.tr_trans += acc[1]
        todo += rej
    todo = todo[:max(0, 3 - len(v.violations))]
    if todo:
        log("%d rejected, confirming" % len(todo))
        par(*[lambda sc=sc, idx=idx: confirm(v, part, module, cfg, exe, sc, results[sc["id"]], idx, work, threads)
              for sc, idx in todo])


def confirm(v, part, module, cfg, exe, sc, res, idx, work, threads):
    """A rejection counts only if it repeats: the recorded trace on its own, and (crashes) a fresh execution."""
    _, _, r = validate_chunk(module, cfg, [(sc, res)], work)
    if r is None:
        raise MachineryError("rejection of scenario %s did not repeat" % sc["id"])
    ev = events_of(sc, res)
    bad = ev[r[1]]
    again = 0
    for _ in range(3):
        res2 = run_driver(exe, [sc], work, threads)[sc["id"]]
        _, _, r2 = validate_chunk(module, cfg, [(sc, res2)], work)
        if r2 is not None:
            again += 1
            break
    if bad["e"] == "crash" and not again and bad["how"] != "exit66":    # a data race that was seen once is one
        raise MachineryError("crash in scenario %s did not repeat" % sc["id"])
    v.violations.append({"part": part, "spec": module, "scenario": sc, "result": res, "rejected_event": r[1],
                         "event": bad, "repeated_on_rerun": bool(again)})


# ------------------------------------------------------------------ verdict
def finish(v, level, rule):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    for line in v.known:
        print("KNOWN-FINDING: property=%s %s" % (v.prop, line))
    cov = {"states": v.states + v.tr_states, "transitions": v.trans + v.tr_trans,
           "design_states": v.states, "design_transitions": v.trans,
           "trace_states": v.tr_states,
           "traces_validated_against_impl": v.traces, "impl_operations_checked": v.events,
           "rule": rule, "parts": v.parts, "samples": v.samples[:4]}
    ev = {"property": v.prop, "tier": v.tier, "seed": v.seed, "level": level, "coverage": cov,
          "assumptions": v.assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(v.violations)}
    with open(VERIF + "/evidence/%s.json" % v.prop, "w") as f:
        json.dump(ev, f, indent=1)
    if v.violations:
        for i, x in enumerate(v.violations[:3]):
            p = VERIF + "/evidence/replay-%s-%d.json" % (v.prop, i)
            with open(p, "w") as f:
                json.dump(x, f)
            b = json.dumps(x["event"])
            log("rejected by %s, scenario %s, event %d: %s" % (x["spec"], x["scenario"]["id"], x["rejected_event"],
                                                              b[:1500]))
            print("VIOLATION property=%s replay=%s" % (v.prop, p), flush=True)
        return 1
    log("%s: held on %d design states, %d traces (%d operations)" % (v.prop, v.states, v.traces, v.events))
    return 0


def fbits(x):
    """the bits of a float32, as the signed integer TLC can hold"""
    import struct
    return struct.unpack("<i", struct.pack("<f", x))[0]


def float_attrs(c):
    """adds the float attributes of a layer configuration as bits; sixteenths unless bits are already there"""
    if "a" in c:
        c.setdefault("ab", fbits(c["a"] / 16))
    if "eps" in c:
        c.setdefault("eb", fbits(c["eps"] / 16))
    return c


ODD_FLOATS = [1e-8, 1e-12, 1e-5, 0.1, 1 / 3, 0.7, 1e-3, 0.99999994, 1.0, 7.0, 3.4e38, 1e-44, 123456.79, 2.5e-7, 16777217.0]
