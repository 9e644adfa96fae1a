#!/usr/bin/env python3
"""Mutation testing of the checks (not part of any check; everything happens under /tmp/mut).

  mutate.py FILE[:N] ...   FILE relative to the repository, N mutants sampled (default 40)

Each mutant is a copy of one source file with one operator, constant or statement changed.  The quick cases of
the properties that exercise the file run in a harness built with the mutant; recordings that differ from those of
the clean tree are validated by TLC.  Prints the survivors (to be read: equivalent, or a hole of the checks).
"""
import sys, os, re, json, random, shutil, subprocess, importlib, time
from concurrent.futures import ProcessPoolExecutor, as_completed
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check
ROOT = "/tmp/mut"
W = int(os.environ.get("MUT_WORKERS", "6"))
C, S, G, GS = "common/include/rofl/common/", "common/src/", "geometry/include/rofl/geometry/", "geometry/src/"
PROPS = {C + "min_max_heap.h": ["C01"], C + "interval_indices.h": ["C02", "C03"], C + "grid.h": ["C04"], C + "peak_finder_d.h": ["C05"],
         S + "disjoint_set.cpp": ["C06"], S + "label_set.cpp": ["C07"], C + "label_set.h": ["C07"], S + "param_map.cpp": ["C08", "C09", "C10"],
         C + "param_map.h": ["C10", "C08", "C09"], C + "bit_manip.h": ["C11", "C12"], S + "bit_manip.cpp": ["C11", "C12"],
         C + "numeric_traits.h": ["C12", "C14", "C15"], C + "morton_sort.h": ["C13", "C14", "C15"], C + "morton_tree.h": ["C16", "C17"],
         GS + "hough_plane_detector.cpp": ["C19", "C18"], G + "hough_plane_detector.h": ["C18"], GS + "hough_line_detector.cpp": ["C20"], G + "hough_line_detector.h": ["C20"],
         GS + "correspondence_graph_association.cpp": ["C21"], G + "correspondence_graph_association.h": ["C21"],
         C + "tls_scalar_consensus.h": ["C22"], S + "profiler.cpp": ["C23"], C + "profiler.h": ["C23"],
         GS + "base_geometry2.cpp": ["C24"], G + "base_geometry2.h": ["C24"], S + "functions.cpp": ["C28", "C25", "C24"], C + "functions.h": ["C28", "C25"],
         S + "io.cpp": ["C26", "C32"], G + "box_registration.h": ["C27", "C29"], GS + "gis.cpp": ["C30"], G + "gis.h": ["C30"], C + "vector_array.h": ["C31"],
         "pcl/include/rofl/pcl/point_cloud_plane_aligner.h": ["C33"]}
SWAP = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("++", "--"), ("--", "++"), ("+=", "-="), ("-=", "+="),
        (" < ", " <= "), (" > ", " >= "), (" < ", " > "), (" > ", " < "), (" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "), (" % ", " / "), (">>", "<<"), ("<<", ">>"),
        (" & ", " | "), (" | ", " & "), (" ^ ", " | "), ("true", "false"), ("false", "true"), ("floor", "ceil"), ("ceil", "floor"), ("cos(", "sin("), ("sin(", "cos("),
        ("max(", "min("), ("min(", "max("), ("begin()", "end()"), ("if (!", "if ("), ("push_back", "pop_back("[:0] or "push_back"), ("break;", ";"), ("continue;", ";"), ("-1", "0"),
        ("theta", "phi"), ("x", "y"), ("[0]", "[1]"), ("[1]", "[0]"), ("(0)", "(1)"), ("(1)", "(0)"), ("fabs", ""), ("std::abs", ""), ("size()", "size() - 1")]
SKIP = re.compile(r"^\s*(//|\*|/\*|#|template|using|typedef|namespace|public:|private:|ROFL_|std::cout|std::cerr|std::clog|.*ASSERT|.*std::endl|.*std::cout|.*std::cerr)")

def mutants(text):
    out, com = [], False
    lines = text.split("\n")
    for i, ln in enumerate(lines):
        if "/*" in ln: com = True
        if com:
            if "*/" in ln: com = False
            continue
        if SKIP.match(ln) or not ln.strip(): continue
        code = ln.split("//")[0]
        for a, b in SWAP:
            if a == b: continue
            for m in re.finditer((r"\b%s\b" % a if re.match(r"^\w+$", a) else re.escape(a)), code):
                p = m.start()
                if a in ("<<", ">>") and ("template" in code or "cout" in code or "out" in code or "<" in code.replace(a, "")): continue
                if a == "<=" and code[p - 1:p] == "<": continue
                if a == "-1" and (code[p - 1:p].isalnum() or code[p + 2:p + 3].isalnum()): continue
                out.append((i, code[:p] + b + code[p + len(a):]))
        for m in re.finditer(r"(?<![\w.\[<])(\d+)(?![\w.])", code):
            v = int(m.group(1))
            for nv in {v + 1, max(0, v - 1)} - {v}:
                if v < 200: out.append((i, code[:m.start()] + str(nv) + code[m.end():]))
        for m in re.finditer(r"(?<![\w.])(\d+\.\d+)(?!\w)", code):
            out.append((i, code[:m.start()] + repr(float(m.group(1)) * 1.1 + .01) + code[m.end():]))
        st = code.strip()
        if st.endswith(";") and st.count("(") == st.count(")") and not re.match(r"(return|break|continue|for|while|else|case|default|throw|const |typename |static |virtual )", st) and not re.match(r"^[\w:<>, ]+[&*]? +[\w\[\], ]+( = .*)?;$", st) and ("=" in st or "(" in st or "++" in st or "--" in st):
            out.append((i, ";"))
    return [(i, "\n".join(lines[:i] + [m] + lines[i + 1:]), lines[i].strip(), m.strip()) for i, m in out if m != lines[i]]

def ctx_for(pid, work):
    c = check.Ctx.__new__(check.Ctx)
    c.id, c.tier, c.seed, c.quick, c.work = pid, "quick", 1, True, work
    c.rng = random.Random(7919 + sum(map(ord, pid))); c.t0 = time.time(); c.log = []
    c.note = lambda *a: None
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    return c

def prepare(pid):
    comp = importlib.import_module("comp." + pid.lower())
    base = os.path.join(ROOT, "base", pid)
    if os.path.exists(base + "/ready"): return
    ctx = ctx_for(pid, base)
    check.REPO = "/repo"
    em = [check.run_mc(ctx, m["module"], m["cfg"])[0] for m in comp.mc(ctx)]
    cases = check.jsonable(comp.cases(ctx, em))
    exe = check.build(ctx, comp.HARNESS, getattr(comp, "LIBS", ("common",)), getattr(comp, "FLAGS", ()), getattr(comp, "LDFLAGS", ()))
    parts, recs = check.execute(ctx, exe, cases, getattr(comp, "CPU", 10))
    json.dump(parts, open(base + "/parts.json", "w")); json.dump(recs, open(base + "/recs.json", "w"))
    open(base + "/ready", "w").write("1")
    print("prepared", pid, len(cases), flush=True)

DATA = {}
def data(pid):
    if pid not in DATA:
        b = os.path.join(ROOT, "base", pid)
        parts, recs = json.load(open(b + "/parts.json")), json.load(open(b + "/recs.json"))
        n = sum(map(len, parts))
        step = max(1, n // int(os.environ.get("MUT_CASES", "2500")))       # an even sample; survivors deserve a full run
        parts, recs = [p[k % step::step] for k, p in enumerate(parts)], [q[k % step::step] for k, q in enumerate(recs)]
        k = 4
        DATA[pid] = ([sum(parts[i::k], []) for i in range(k)], [sum(recs[i::k], []) for i in range(k)])
    return DATA[pid]

def one(job):
    n, f, i, text, old, new = job
    wd = os.path.join(ROOT, "w%d" % os.getpid())
    repo = wd + "/repo"
    if not os.path.exists(repo):
        os.makedirs(wd, exist_ok=True)
        subprocess.run(["cp", "-a", "--parents", "common/include", "common/src", "geometry/include", "geometry/src", "pcl/include", "pcl/src", repo + "/"], cwd="/repo", check=False) if os.makedirs(repo) is None else 0
    p = os.path.join(repo, f)
    orig = open("/repo/" + f).read()
    open(p, "w").write(text)
    check.REPO = repo
    check.NPROC = 1
    res = "survived"
    try:
        for pid in PROPS[f]:
            comp = importlib.import_module("comp." + pid.lower())
            ctx = ctx_for(pid, wd + "/work")
            # reuse clean objects of the other translation units when a .cpp is mutated
            try:
                exe = build(ctx, comp, f, pid)
            except check.Undecided:
                return (f, i, old, new, "nocompile", "")
            parts, recs = data(pid)
            for k in range(len(parts)):
                got = check.run_shard(ctx, exe, parts[k], k, 5, 1)
                diff = [g for g, r in zip(got, recs[k]) if g != r] if len(got) == len(recs[k]) else got[-1:] + [g for g, r in zip(got, recs[k]) if g != r]
                if not diff: continue
                if any(e.get("op") == "crash" for g in diff for e in g["ev"]): return (f, i, old, new, "killed", pid)
                rej = check.validate(ctx, comp.TRACE, diff[:60], "m")[0]
                if rej: return (f, i, old, new, "killed", pid)
                res = "tolerated"
    except check.Undecided as u:
        return (f, i, old, new, "undecided", str(u)[:200])
    finally:
        open(p, "w").write(orig)
    return (f, i, old, new, res, "")

def build(ctx, comp, f, pid):
    libs, base = getattr(comp, "LIBS", ("common",)), os.path.join(ROOT, "base", pid)
    if f.endswith(".h"):
        return check.build(ctx, comp.HARNESS, libs, getattr(comp, "FLAGS", ()), getattr(comp, "LDFLAGS", ()))
    lib = f.split("/")[0]
    inc = ["-I" + os.path.join(check.REPO, d, "include") for d in ("common", "geometry", "pcl")] + ["-isystem", "/usr/include/eigen3", "-I" + os.path.join(check.VERIF, "harness")]
    o = ctx.work + "/mut.o"
    r = check.sh(["g++", "-std=c++17", "-O0", "-g0", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", "-fPIC"] + list(getattr(comp, "FLAGS", ())) + inc + ["-c", os.path.join(check.REPO, f), "-o", o])
    if r.returncode: raise check.Undecided("compile")
    so = []
    for l in libs:
        objs = [x for x in sorted(os.listdir(base)) if x.startswith(l + "_") and x.endswith(".cpp.o")]
        objs = [o if l == lib and x == l + "_" + os.path.basename(f) + ".o" else os.path.join(base, x) for x in objs]
        lo = os.path.join(ctx.work, "librofl_%s.so" % l)
        if check.sh(["g++", "-shared", "-fsanitize=address", "-o", lo] + objs).returncode: raise check.Undecided("link")
        so.append(lo)
    hs = (comp.HARNESS,) if isinstance(comp.HARNESS, str) else comp.HARNESS
    exe = ctx.work + "/harness"
    r = check.sh(["g++", "-fsanitize=address", "-o", exe] + [os.path.join(base, h + ".o") for h in hs] + so[::-1] + ["-Wl,-rpath," + ctx.work, "-Wl,--allow-shlib-undefined", "-lboost_filesystem", "-lboost_system", "-lboost_date_time", "-lboost_thread", "-lpthread"] + list(getattr(comp, "LDFLAGS", ())))
    if r.returncode: raise check.Undecided("link")
    return exe

if __name__ == "__main__":
    jobs = []
    for a in sys.argv[1:]:
        f, n = (a.split(":") + ["40"])[:2]
        for pid in PROPS[f]: prepare(pid)
        ms = mutants(open("/repo/" + f).read())
        r = random.Random(int(os.environ.get("MUT_SEED", "5")))
        r.shuffle(ms)
        print(f, len(ms), "mutants, taking", min(len(ms), int(n)), flush=True)
        for m in ms[:int(n)]: jobs.append((len(jobs), f) + m)
    cnt = {}
    with ProcessPoolExecutor(W) as ex:
        for fu in as_completed([ex.submit(one, j) for j in jobs]):
            f, i, old, new, res, who = fu.result()
            cnt.setdefault(f, {}).setdefault(res, 0); cnt[f][res] += 1
            if res not in ("killed", "nocompile"): print("%s %s:%d\n    - %s\n    + %s   %s" % (res.upper(), f, i + 1, old, new, who), flush=True)
    for f, c in cnt.items(): print(f, c)
    for d in os.listdir(ROOT):
        if re.match(r"w\d+$", d): shutil.rmtree(os.path.join(ROOT, d), ignore_errors=True)
