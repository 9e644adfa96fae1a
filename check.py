#!/usr/bin/env python3
"""Runs the check of one property.

  python3 check.py C01              (VERIF_TIER=quick|thorough, VERIF_SEED=n)
  python3 check.py C01 --replay F   re-executes the case stored in replay file F

Steps: (1) TLC explores the component's TLA+ specification exhaustively within the bounds of
its .cfg, checks the property as invariants there and prints the explored behaviours;
(2) a C++ harness, compiled now from /repo's working tree, executes those behaviours plus
seeded random ones in the real code and records what it observed; (3) TLC checks every
recorded behaviour against the same specification.  Exit 0: all accepted.  Exit 1 with a
VIOLATION line: a recorded behaviour is not a behaviour of the specification.  Exit 2: the
machinery could not decide.
"""
import sys, os, json, time, subprocess, shutil, random, re, importlib, glob, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ROFL_REPO", "/repo")
sys.path.insert(0, VERIF)
TLA_JARS = "/opt/veriftools/tla/tla2tools.jar"
NPROC = min(8, os.cpu_count() or 1)

class Undecided(Exception):
    pass

def classpath():
    jars = sorted(glob.glob("/opt/veriftools/tla/*.jar"))
    return ":".join(jars) if jars else TLA_JARS

class Ctx:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.work = os.path.join(VERIF, ".work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.rng = random.Random(seed * 7919 + sum(map(ord, pid)))
        self.t0 = time.time()
        self.log = []

    def note(self, *a):
        s = "[%6.1fs] %s" % (time.time() - self.t0, " ".join(map(str, a)))
        print(s, flush=True)
        self.log.append(s)

# ------------------------------------------------------------------ TLC
def tlc(ctx, module, cfg, env=None, workers=NPROC, heap="6g", timeout=3000, tag=""):
    meta = os.path.join(ctx.work, "tlc_%s%s" % (module, tag))
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m",
           "-cp", classpath(), "tlc2.TLC", "-noGenerateSpecTE",
           "-metadir", meta, "-workers", str(workers), "-config", cfg, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    outp = meta + ".out"
    with open(outp, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=e, stdout=f, stderr=subprocess.STDOUT,
                                timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise Undecided("TLC timeout on %s/%s" % (module, cfg))
    shutil.rmtree(meta, ignore_errors=True)
    return rc, outp

def tlc_counts(outp):
    st = ds = 0
    with open(outp, errors="replace") as f:
        for ln in f:
            m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", ln)
            if m:
                st, ds = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    return st, ds

def run_mc(ctx, module, cfg, workers=NPROC, heap="6g", env=None):
    """model-check the specification; returns (emitted cases, states generated, distinct states)"""
    rc, outp = tlc(ctx, module, cfg, env=env, workers=workers, heap=heap, tag="_" + cfg.replace(".cfg", ""))
    if rc != 0:
        tail = open(outp, errors="replace").read()[-3000:]
        raise Undecided("TLC rc=%d on specification %s (%s):\n%s" % (rc, module, cfg, tail))
    em = []
    with open(outp, errors="replace") as f:
        for ln in f:
            if ln.startswith('"@@'):
                em.append(json.loads(json.loads(ln)[2:]))
    em.sort(key=lambda x: json.dumps(x, sort_keys=True))
    st, ds = tlc_counts(outp)
    os.remove(outp)
    ctx.note("specification %s/%s: %d states, %d distinct, %d behaviours emitted" % (module, cfg, st, ds, len(em)))
    return em, st, ds

# ------------------------------------------------------------------ building the real code
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

# only explicit instantiations of header templates (slow to compile, nothing refers to them);
# compiled after all if the link shows that something does
LAZY = {"geometry": ("box_registration.cpp",), "pcl": ("point_cloud_plane_aligner.cpp",)}

def build(ctx, harness, libs=("common",), flags=(), ldflags=(), lazy=True):
    inc = ["-I" + os.path.join(REPO, d, "include") for d in ("common", "geometry", "pcl")]
    inc += ["-isystem", "/usr/include/eigen3", "-I" + os.path.join(VERIF, "harness")]
    base = ["g++", "-std=c++17", "-O0", "-g0", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", "-fPIC"] + list(flags) + inc
    objs, jobs = [], []
    for lib in libs:
        for s in sorted(glob.glob(os.path.join(REPO, lib, "src", "**", "*.cpp"), recursive=True)):
            if lazy and os.path.basename(s) in LAZY.get(lib, ()):
                continue
            o = os.path.join(ctx.work, lib + "_" + os.path.basename(s) + ".o")
            jobs.append(base + ["-c", s, "-o", o])
            objs.append((lib, o))
    ho = []
    for h in (harness,) if isinstance(harness, str) else harness:
        ho.append(os.path.join(ctx.work, h + ".o"))
        jobs.append(base + ["-c", os.path.join(VERIF, "harness", h), "-o", ho[-1]])
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for r in ex.map(sh, jobs):
            if r.returncode:
                raise Undecided("compilation failed:\n" + r.stdout[-4000:])
    so = []
    for lib in libs:
        if not any(l == lib for l, o in objs):
            continue
        lo = os.path.join(ctx.work, "librofl_%s.so" % lib)
        r = sh(["g++", "-shared", "-fsanitize=address", "-o", lo] + [o for l, o in objs if l == lib])
        if r.returncode:
            raise Undecided("link failed:\n" + r.stdout[-4000:])
        so.append(lo)
    exe = os.path.join(ctx.work, "harness")
    r = sh(["g++", "-fsanitize=address", "-o", exe] + ho + so[::-1] + ["-Wl,-rpath," + ctx.work, "-Wl,--%sallow-shlib-undefined" % ("no-" if lazy else ""), "-lboost_filesystem", "-lboost_system", "-lboost_date_time", "-lboost_thread", "-lpthread"] + list(ldflags))
    if r.returncode and lazy:
        return build(ctx, harness, libs, flags, ldflags, lazy=False)
    if r.returncode:
        raise Undecided("link failed:\n" + r.stdout[-4000:])
    ctx.note("built harness from", REPO)
    return exe

# ------------------------------------------------------------------ executing the real code
CRASH_CODES = {98: "timeout", 99: "sanitizer"}

def run_shard(ctx, exe, cases, k, cpu=10, max_crashes=3):
    """executes cases; returns list of recorded behaviours (same order, possibly truncated)"""
    cf_ = os.path.join(ctx.work, "cases.%s.ndjson" % k)
    with open(cf_, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    out = os.path.join(ctx.work, "rec.%s.ndjson" % k)
    recs, start, crashes, nostart = [], 0, 0, 0
    while start < len(cases):
        if os.path.exists(out):
            os.remove(out)
        p = subprocess.run([exe, cf_, out, str(start), str(cpu)], env=dict(os.environ, ROFL_SCRATCH=ctx.work), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        got = []
        if os.path.exists(out):
            with open(out) as f:
                for ln in f:
                    if ln.endswith("\n"):
                        got.append(json.loads(ln))
        recs += got
        start += len(got)
        if p.returncode == 97:
            raise Undecided("harness usage error")
        if b"HARNESS-STARTED" not in (p.stderr or b""):
            nostart += 1
            if nostart > 10:
                raise Undecided("harness does not start: rc=%s %s" % (p.returncode, p.stderr[-500:]))
            continue
        if start >= len(cases):
            break
        # died inside case number `start`
        c = cases[start]
        recs.append(dict(cfg=c.get("cfg", {}), ev=[dict(op="crash", rc=CRASH_CODES.get(p.returncode, str(p.returncode)))]))
        start += 1
        crashes += 1
        if crashes >= max_crashes:
            break
    return recs

def execute(ctx, exe, cases, cpu=10, shards=NPROC):
    parts = [cases[i::shards] for i in range(shards)]
    with cf.ThreadPoolExecutor(shards) as ex:
        res = list(ex.map(lambda k: run_shard(ctx, exe, parts[k], k, cpu), range(shards)))
    return parts, res

# ------------------------------------------------------------------ validating recorded behaviours
def validate(ctx, module, recs, k, heap="3g"):
    """returns None if all accepted else dict(index, pos, msg)"""
    tf = os.path.join(ctx.work, "trace.%s.ndjson" % k)
    with open(tf, "w") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
    if not recs:
        return None, 0, 0
    rc, outp = tlc(ctx, module, module + ".cfg", env={"TRACE": tf}, workers=1, heap=heap, tag="_%s" % k)
    st, ds = tlc_counts(outp)
    if rc == 0:
        os.remove(outp)
        return None, st, ds
    txt = open(outp, errors="replace").read()
    # an evaluation error (ill-typed or out-of-range recorded value) is a rejection too; resource trouble is not
    if rc in (11, 12, 75, 76) or (rc == 255 and not re.search(r"OutOfMemory|StackOverflow|GC overhead|File not found|Parsing or semantic analysis failed", txt)):
        hs = re.findall(r"^/\\ h = (\d+)", txt, re.M)
        ls = re.findall(r"^/\\ l = (\d+)", txt, re.M)
        m = re.search(r"Error: (?!Deadlock reached|The behavior)(.{0,600})", txt, re.S)
        return dict(index=int(hs[-1]) - 1 if hs else None, pos=int(ls[-1]) if ls else None,
                    rc=rc, msg=(m.group(1) if m else "event not allowed by the specification")), st, ds
    raise Undecided("TLC rc=%d validating with %s:\n%s" % (rc, module, txt[-3000:]))

def jsonable(x):
    return json.loads(json.dumps(x))

def write_evidence(ctx, comp, cov, viol):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=ctx.id, tier=ctx.tier, seed=ctx.seed, level="model_checking", coverage=cov,
              assumptions=list(getattr(comp, "ASSUMPTIONS", [])), wall_s=round(time.time() - ctx.t0, 2), violations=viol)
    with open(os.path.join(VERIF, "evidence", ctx.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == pid]

def report(ctx, case, rec, rej):
    rp = os.path.join(ctx.work, "replay.json")
    with open(rp, "w") as f:
        json.dump(dict(property=ctx.id, case=case, recorded=rec, rejected_event=rej.get("pos"), tlc=rej.get("msg"),
                       how="python3 check.py %s --replay %s" % (ctx.id, rp)), f, indent=1)
    evs = rec.get("ev", []) if rec else []
    pos = rej.get("pos")
    bad = evs[pos - 1] if pos and pos <= len(evs) else None
    ctx.note("rejected behaviour: cfg=%s event #%s = %s  (%s)" % (
        json.dumps(rec.get("cfg") if rec else None)[:300], pos, json.dumps(bad)[:600], rej.get("msg", "")[:300]))
    print("VIOLATION property=%s replay=%s" % (ctx.id, rp), flush=True)

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    replay = json.load(open(sys.argv[3])) if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    ctx = Ctx(pid, tier, seed)
    comp = importlib.import_module("comp." + pid.lower())
    try:
        sys.exit(decide(ctx, comp, replay))
    except Undecided as u:
        print("UNDECIDED property=%s: %s" % (pid, u), flush=True)
        sys.exit(2)

def decide(ctx, comp, replay):
    ex = cf.ThreadPoolExecutor(2)
    fb = ex.submit(build, ctx, comp.HARNESS, getattr(comp, "LIBS", ("common",)), getattr(comp, "FLAGS", ()),
                   getattr(comp, "LDFLAGS", ()))
    emitted, states, trans = [], 0, 0
    if replay:
        cases = [replay["case"]]
    else:
        for mc in comp.mc(ctx):
            em, st, ds = run_mc(ctx, mc["module"], mc["cfg"], workers=mc.get("workers", NPROC), heap=mc.get("heap", "6g"))
            emitted.append(em)
            states += ds
            trans += st
        cases = jsonable(comp.cases(ctx, emitted))
    exe = fb.result()
    cpu = getattr(comp, "CPU", 10)
    parts, recs = execute(ctx, exe, cases, cpu, 1 if replay else NPROC)
    nrec = sum(map(len, recs))
    nev = sum(len(r.get("ev", [])) for p in recs for r in p)
    ctx.note("executed %d of %d cases in the real code, %d recorded events" % (nrec, len(cases), nev))
    # negative control: a corrupted recording must be rejected
    control = None
    if hasattr(comp, "corrupt") and not replay:
        ok = [r for p in recs for r in p if r.get("ev") and r["ev"][-1].get("op") != "crash"]
        bad = comp.corrupt(ctx, jsonable(ok)) if ok else None
    else:
        bad = None
    with cf.ThreadPoolExecutor(NPROC + 1) as tp:
        futs = [tp.submit(validate, ctx, comp.TRACE, recs[k], k, getattr(comp, "HEAP", "3g")) for k in range(len(recs))]
        fc = tp.submit(validate, ctx, comp.TRACE, [bad], "control") if bad else None
        res = [f.result() for f in futs]
        control = fc.result()[0] if fc else None
    vst = sum(r[1] for r in res)
    ctx.note("TLC validated the recordings: %d trace states" % vst)
    viol = None
    for k, (rej, _, _) in enumerate(res):
        if rej is None:
            continue
        i = rej["index"]
        if i is None:   # evaluation error outside a state: find the history by itself
            for j, r in enumerate(recs[k]):
                rr = validate(ctx, comp.TRACE, [r], "single")[0]
                if rr:
                    i, rej = j, rr
                    break
        if i is None:
            raise Undecided("TLC error not attributable to a recording: " + rej["msg"])
        case, rec = parts[k][i], recs[k][i]
        if rec["ev"] and rec["ev"][-1].get("op") == "crash":
            again = run_shard(ctx, exe, [case], "confirm", cpu * 3)
            r2 = validate(ctx, comp.TRACE, again, "confirm")[0]
            if r2 is None:
                ctx.note("a crash did not repeat on confirmation; re-running its shard")
                again = run_shard(ctx, exe, parts[k], "confirm", cpu * 3)
                r2 = validate(ctx, comp.TRACE, again, "confirm")[0]
                if r2 is None:
                    continue
                i = r2["index"]
                case, rec, rej = parts[k][i], again[i], r2
        kf = [x for x in known_findings(ctx.id) if x.get("case") == case]
        if kf:
            print("KNOWN-FINDING: property=%s %s" % (ctx.id, kf[0]["what"]), flush=True)
            continue
        viol = (case, rec, rej)
        break
    cov = dict(states=states, transitions=trans, traces_validated_against_impl=nrec, events_validated=nev,
               trace_states=vst, spec_behaviours_emitted=sum(map(len, emitted)),
               samples=[r for r in sorted((r for p in recs for r in p[:40]), key=lambda r: abs(len(json.dumps(r)) - 400))[:3]])
    if bad:
        cov["negative_control"] = "corrupted recording rejected" if control else "corrupted recording ACCEPTED"
    write_evidence(ctx, comp, cov, 1 if viol else 0)
    if viol:
        report(ctx, *viol)
        return 1
    if bad and not control:
        raise Undecided("negative control accepted: %s" % json.dumps(bad)[:500])
    if nrec < len(cases):
        raise Undecided("not all cases were executed")
    ctx.note("property %s: every recorded behaviour is a behaviour of the specification" % ctx.id)
    if not os.environ.get("VERIF_KEEP"):
        for f in glob.glob(os.path.join(ctx.work, "*")):
            if os.path.isfile(f):
                os.remove(f)
    return 0

if __name__ == "__main__":
    main()
