#!/usr/bin/env python3
"""Decide one property: extract /repo's current code, discharge its contracts.

usage: check.py PROPERTY [--tier quick|thorough] [--only PROOF] [--keep DIR]

exit 0: every obligation of every proof of the property was discharged.
exit 1: an obligation failed (VIOLATION line on stdout).
"""
import argparse, concurrent.futures as cf, glob, json, os, re, shlex, shutil
import subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
TOOL = os.path.join(V, "tool")
BUILD = os.path.join(V, ".build")
LL2C = os.path.join(BUILD, "ll2c")
LINK = "/usr/lib/llvm-18/bin/llvm-link"
JOBS = int(os.environ.get("VF_JOBS", "8"))

GROUPS = {
    "mkv": ["mkvmuxer/mkvmuxer.cc", "mkvmuxer/mkvmuxerutil.cc",
            "mkvmuxer/mkvwriter.cc", "mkvparser/mkvparser.cc",
            "mkvparser/mkvreader.cc"],
    "wp": ["webm_parser/src/*.cc"],
    "common": ["common/file_util.cc", "common/hdr_util.cc",
               "common/libwebm_util.cc", "common/video_frame.cc",
               "common/vp9_header_parser.cc", "common/vp9_level_stats.cc",
               "common/webm_endian.cc", "common/indent.cc"],
    "vp9": ["common/vp9_header_parser.cc", "common/vp9_level_stats.cc"],
    "m2ts": ["m2ts/vpxpes2ts.cc", "m2ts/vpxpes_parser.cc", "m2ts/webm2pes.cc",
             "common/libwebm_util.cc", "common/video_frame.cc",
             "common/file_util.cc",
             "mkvparser/mkvparser.cc", "mkvparser/mkvreader.cc"],
    "vtt": ["webvtt/vttreader.cc", "webvtt/webvttparser.cc"],
}
INC = ["-I" + REPO, "-I" + REPO + "/webm_parser",
       "-I" + REPO + "/webm_parser/include", "-I" + TOOL,
       "-I" + os.path.join(V, "proofs")]
UBSAN = ("signed-integer-overflow,shift-exponent,integer-divide-by-zero,"
         "unreachable,return,float-cast-overflow,bounds")
BCFLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions",
           "-fno-access-control", "-fno-delete-null-pointer-checks",
           "-fno-threadsafe-statics", "-fno-unroll-loops", "-fno-vectorize",
           "-fno-slp-vectorize", "-D_GLIBCXX_ASSERTIONS",
           "-gline-tables-only", "-fdebug-info-for-profiling",
           "-fsanitize=" + UBSAN, "-fsanitize-trap=all", "-emit-llvm", "-c",
           "-w"] + INC
NATIVE = ["-O1", "-g", "-w", "-fno-access-control", "-DVF_NATIVE",
          "-fsanitize=address," + UBSAN, "-fno-sanitize-recover=all"] + INC

TRUSTED = [
    "clang 18.1.3 front end and LLVM 18 mid-end passes used to normalise the "
    "extracted code (assumed semantics-preserving)",
    "/verif/tool/ll2c.cpp (LLVM IR -> C printer) and the libc/libstdc++ models "
    "in /verif/tool/vf_rt.h and the contract units (/verif/proofs/vf_string.h, io.cc)",
    "CBMC 6.11.0 (symbolic execution, memory model, SAT back end)",
]
ASSUME = [
    "extraction drops exception edges (-fno-exceptions); throwing operator new "
    "never fails, nothrow new may fail nondeterministically",
    "extraction drops debug info, lifetime and alias metadata; x86-64 LP64 data "
    "layout; IEEE-754 floats, round-to-nearest",
    "machine integers are treated as machine integers (bit-vectors), never as "
    "mathematical ones",
    "single-threaded execution; the harness stays within each interface's "
    "documented preconditions (its REQUIRES lines)",
]


T_END = time.time() + float(os.environ.get("VF_BUDGET", "840"))


def budget(t):
    """a timeout that keeps the whole run inside its time budget"""
    return max(1.0, min(float(t), T_END - time.time()))


def sh(cmd, timeout=None, mem_gb=None, **kw):
    pre = None
    if mem_gb:
        import resource

        def pre():
            n = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (n, n))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, preexec_fn=pre, **kw)
        return p.returncode, p.stdout.decode("utf8", "replace"), \
            p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return -999, "", "timeout after %ss" % timeout


def build_tool():
    src = os.path.join(TOOL, "ll2c.cpp")
    if os.path.exists(LL2C) and os.path.getmtime(LL2C) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    cfg = lambda o: shlex.split(sh(["llvm-config-18"] + o)[1])
    tmp = LL2C + ".%d" % os.getpid()
    rc, o, e = sh(["clang++", "-O1"] + cfg(["--cxxflags"]) +
                  ["-frtti", src, "-o", tmp] + cfg(["--ldflags"]) +
                  ["-lLLVM-18"])
    if rc:
        sys.stderr.write(e)
        sys.exit(3)
    os.rename(tmp, LL2C)


# ------------------------------------------------------------------ proofs
def load_proofs():
    out = []
    for f in sorted(glob.glob(os.path.join(V, "proofs", "*.cc"))):
        fileopts = {}
        for ln in open(f):
            m = re.match(r"//@\s*file\s+(.*)", ln)
            if m:
                fileopts.update(parse_kv(m.group(1)))
            m = re.match(r"//@\s*proof\s+(\w+)\s*(.*)", ln)
            if m:
                d = dict(fileopts)
                d.update(parse_kv(m.group(2)))
                d["name"] = m.group(1)
                d["file"] = f
                out.append(d)
    return out


def parse_kv(s):
    d = {}
    for tok in shlex.split(s):
        k, _, v = tok.partition("=")
        d[k] = v
    return d


class Ctx:
    def __init__(self, work):
        self.work = work
        self.bc = {}
        self.err = {}
        self.nat = {}


def expand(group_list):
    srcs = []
    for g in group_list:
        for pat in GROUPS.get(g, [g]):
            for s in sorted(glob.glob(os.path.join(REPO, pat))) or \
                    [os.path.join(REPO, pat)]:
                if s not in srcs:
                    srcs.append(s)
    return srcs


def objname(src):
    return re.sub(r"[^A-Za-z0-9]", "_", src)


def compile_bc(ctx, src, std, extra=(), out=None):
    out = out or os.path.join(ctx.work, objname(src) + ".bc")
    rc, o, e = sh(["clang++", "-std=" + std] + BCFLAGS + list(extra) +
                  [src, "-o", out], timeout=300)
    if rc:
        ctx.err[src] = e
        return None
    return out


def cbmc_cmd(p, c, unwind):
    cmd = ["cbmc", "-I", TOOL, c, "--function", "vf_entry", "--pointer-check",
           "--bounds-check", "--no-standard-checks", "--pointer-check",
           "--bounds-check", "--undefined-shift-check",
           "--div-by-zero-check",
           "--unwind", str(unwind), "--unwinding-assertions",
           "--object-bits", p.get("object-bits", "10")]
    if p.get("memleak"):
        cmd += ["--memory-leak-check"]
    if p.get("unwindset"):
        cmd += ["--unwindset", p["unwindset"]]
    if p.get("solver"):
        cmd += ["--sat-solver", p["solver"]]
    if p.get("flags"):
        cmd += shlex.split(p["flags"])
    for d in p.get("cdefine", "").split(","):
        if d:
            cmd += ["-D" + d]
    return cmd


def parse_cbmc(out):
    res, status, msgs = None, None, []
    try:
        for x in json.loads(out):
            if "result" in x:
                res = x["result"]
            if "cProverStatus" in x:
                status = x["cProverStatus"]
            if x.get("messageType") == "ERROR":
                msgs.append(x.get("messageText", ""))
    except Exception as ex:  # noqa
        msgs.append("unparsable verifier output: %r %s" % (ex, out[-500:]))
    return res, status, msgs


def run_proof(ctx, p, tier):
    t0 = time.time()
    name = p["name"]
    r = dict(name=name, file=os.path.relpath(p["file"], V),
             kind=p.get("kind", "proof"), bound=p.get("bound", ""),
             obligations=0, discharged=0, failed=[], covers=[], src=[],
             replaced=[], error=None, functions=p.get("functions", ""),
             solver_s=0.0)
    d = os.path.join(ctx.work, name)
    os.makedirs(d, exist_ok=True)
    hb = ctx.bc.get(("h", p["file"], p.get("define", "")))
    if hb is None:
        r["error"] = "harness does not compile against this tree:\n" + \
            ctx.err.get(p["file"] + p.get("define", ""), "")[-3000:]
        return r
    bcs = []
    for s in expand(p["src"].split(",")):
        b = ctx.bc.get(s)
        if b is None:
            r["error"] = "source does not compile: %s\n%s" % (
                s, ctx.err.get(s, "")[-3000:])
            return r
        bcs.append(b)
    l = os.path.join(d, "l.bc")
    rc, o, e = sh([LINK, hb] + bcs + ["-o", l], timeout=120)
    if rc:
        r["error"] = "link: " + e[-2000:]
        return r
    c = os.path.join(d, "o.c")
    lst = os.path.join(d, "o.lst")
    cmd = [LL2C, l, "-root", "vf_proof_" + name, "-o", c, "-listing", lst,
           "-dump-ir", os.path.join(d, "o.ll")]
    if p.get("contracts"):
        cmd += ["-contracts", p["contracts"]]
    if p.get("replace"):
        cmd += ["-replace", p["replace"]]
    rc, o, e = sh(cmd, timeout=300)
    if rc:
        r["error"] = "extraction failed (%d): %s" % (rc, e[-2000:])
        return r
    for ln in open(lst):
        if ln.startswith("SRC "):
            f, _, fn = ln[4:].strip().partition(" ")
            if f.startswith(REPO + "/"):
                r["src"].append(f[len(REPO) + 1:] + ":" + fn)
        elif ln.startswith("REPLACED "):
            r["replaced"].append(ln[9:].strip())
    unwind = int(p.get("unwind", "12"))
    if tier == "thorough" and p.get("unwind_thorough"):
        unwind = int(p["unwind_thorough"])
    tmo = int(p.get("timeout", os.environ.get("VF_TMO", "600")))
    ucap = int(p.get("unwind_cap", str(2 * unwind)))
    while True:
        t1 = time.time()
        rc, o, e = sh(cbmc_cmd(p, c, unwind) + ["--json-ui"], timeout=budget(tmo),
                      mem_gb=float(p.get("mem", "12")))
        r["solver_s"] += time.time() - t1
        if rc == -999:
            r["error"] = "verifier: " + e
            break
        res, status, msgs = parse_cbmc(o)
        if res is None:
            r["error"] = "verifier gave no verdict: rc=%s %s %s" % (
                rc, " ".join(msgs)[-1500:], e[-500:])
            break
        fails = [x for x in res if x["status"] != "SUCCESS" and
                 not x["description"].startswith("COVER ")]
        if fails and unwind < ucap and \
                all(".unwind." in x["property"] for x in fails):
            unwind = min(2 * unwind, ucap)
            continue
        r["obligations"] = sum(
            1 for x in res if not x["description"].startswith("COVER "))
        r["discharged"] = sum(
            1 for x in res if x["status"] == "SUCCESS" and
            not x["description"].startswith("COVER "))
        for x in res:
            if x["description"].startswith("COVER "):
                ok = x["status"] == "FAILURE"
                r["covers"].append((x["description"][6:], ok))
                if not ok:
                    r["failed"].append(dict(
                        property=x["property"],
                        description="reachability: " + x["description"][6:],
                        location=x.get("sourceLocation", {}), cover=True))
        for x in fails:
            r["failed"].append(dict(property=x["property"],
                                    description=x["description"],
                                    location=x.get("sourceLocation", {}),
                                    status=x["status"]))
        r["unwind"] = unwind
        break
    r["wall"] = time.time() - t0
    r["c"] = c
    return r


# ------------------------------------------------------------------ replay
def trace_inputs(ctx, p, r, prop):
    rc, o, e = sh(cbmc_cmd(p, r["c"], r["unwind"]) +
                  ["--json-ui", "--trace", "--property", prop],
                  timeout=budget(240), mem_gb=14)
    res, status, msgs = parse_cbmc(o)
    vals = []
    if not res:
        return None
    for x in res:
        if x["property"] != prop or "trace" not in x:
            continue
        for s in x["trace"]:
            if s.get("stepType") != "assignment":
                continue
            lhs = s.get("lhs", "")
            if not lhs.startswith("vf_nd_"):
                continue
            if s.get("hidden") and False:
                continue
            v = s.get("value", {})
            b = v.get("binary")
            if b is None:
                d = v.get("data")
                if d in ("TRUE", "FALSE", True, False):
                    b = "1" if d in ("TRUE", True) else "0"
                else:
                    continue
            # initialisation of the globals at program start is not an input
            if s.get("sourceLocation", {}).get("file", "").endswith("vf_rt.h"):
                continue
            vals.append(int(b, 2))
    return vals


def native_build(ctx, p):
    key = (p["file"], p.get("define", ""), p["src"], p["name"])
    if key in ctx.nat:
        return ctx.nat[key]
    d = os.path.join(ctx.work, "nat")
    os.makedirs(d, exist_ok=True)
    jobs = []
    ex = cf.ThreadPoolExecutor(JOBS)
    objs = []
    for s in expand(p["src"].split(",")):
        o = os.path.join(d, objname(s) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append(ex.submit(sh, ["clang++", "-std=c++11"] + NATIVE +
                                  ["-c", s, "-o", o]))
    h = os.path.join(d, objname(p["file"]) + p["name"] + ".o")
    defs = ["-D" + x for x in p.get("define", "").split(",") if x]
    jobs.append(ex.submit(sh, ["clang++", "-std=c++17"] + NATIVE + defs +
                          ["-c", p["file"], "-o", h]))
    rt = os.path.join(d, "rt_" + p["name"] + ".o")
    jobs.append(ex.submit(sh, ["clang++", "-std=c++17"] + NATIVE +
                          ["-DVF_ROOT=vf_proof_" + p["name"], "-c",
                           os.path.join(TOOL, "vf_native.cc"), "-o", rt]))
    err = ""
    for j in jobs:
        rc, o, e = j.result()
        if rc:
            err += e[-1500:]
    exe = os.path.join(d, "replay_" + p["name"])
    if not err:
        rc, o, e = sh(["clang++", "-fsanitize=address," + UBSAN, rt, h] +
                      objs + ["-lpthread", "-o", exe])
        if rc:
            err = e[-1500:]
    ctx.nat[key] = (None, err) if err else (exe, "")
    return ctx.nat[key]


def replay(ctx, p, r, fail):
    """-> (confirmed, text, inputs)"""
    if fail.get("cover"):
        return False, "reachability obligation: no input to replay", None
    if T_END - time.time() < 20:
        return False, "no time left to search for an input", None
    vals = trace_inputs(ctx, p, r, fail["property"])
    if vals is None:
        return False, "no trace", None
    exe, err = native_build(ctx, p)
    if not exe:
        return False, "native build failed: " + err, vals
    inp = os.path.join(ctx.work, "in_%s" % p["name"])
    with open(inp, "w") as f:
        f.write("\n".join(map(str, vals)) + "\n")
    with tempfile.TemporaryDirectory() as cwd:
        env = dict(os.environ, ASAN_OPTIONS="allocator_may_return_null=1:"
                   "detect_leaks=%d:max_allocation_size_mb=2048" %
                   (1 if p.get("memleak") else 0))
        rc, o, e = sh([exe, inp], timeout=120, cwd=cwd, env=env)
    txt = "exit %s\n%s" % (rc, (o + e)[-4000:])
    confirmed = rc not in (0, 77, -999) and (
        "REPLAY: FAILED" in e or "ERROR: AddressSanitizer" in e or
        "ERROR: LeakSanitizer" in e or
        "runtime error" in e or "Assertion" in e or rc < 0)
    return confirmed, txt, vals


def known_findings():
    f = os.path.join(V, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [x for x in json.load(open(f)) if x.get("status") == "known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--keep")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-replay", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    build_tool()
    proofs = [p for p in load_proofs()
              if (p.get("property") == a.property or a.property == "ALL") and
              (not a.only or re.fullmatch(a.only, p["name"])) and
              (a.tier == "thorough" or p.get("tier", "quick") == "quick")]
    if not proofs:
        print("no proofs for", a.property)
        return 2
    work = a.keep or tempfile.mkdtemp(prefix="vf_")
    os.makedirs(work, exist_ok=True)
    try:
        return run(a, proofs, work, t0)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


def run(a, proofs, work, t0):
    ctx = Ctx(work)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fut = {}
        for p in proofs:
            for s in expand(p["src"].split(",")):
                if s not in fut:
                    fut[s] = ex.submit(compile_bc, ctx, s, "c++11")
            df = p.get("define", "")
            k = ("h", p["file"], df)
            if k not in fut:
                def hc(p=p, df=df):
                    out = os.path.join(work, objname(p["file"] + df) + ".bc")
                    b = compile_bc(ctx, p["file"], "c++17",
                                   ["-D" + x for x in df.split(",") if x], out)
                    if b is None:
                        ctx.err[p["file"] + df] = ctx.err.get(p["file"], "")
                    return b
                fut[k] = ex.submit(hc)
        for k, f in fut.items():
            ctx.bc[k] = f.result()
    results = []
    seen_err = set()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = [(p, ex.submit(run_proof, ctx, p, a.tier)) for p in sorted(
            proofs, key=lambda p: -int(p.get("weight", "0")))]
        for p, f in fs:
            r = f.result()
            results.append((p, r))
            if a.v or r["failed"] or r["error"]:
                print("  %-28s %s %d/%d obligations %.1fs%s" % (
                    r["name"],
                    "ok" if not r["failed"] and not r["error"] else "FAILED",
                    r["discharged"], r["obligations"], r.get("wall", 0),
                    "" if not r["error"] else " ERROR " + (
                        r["error"][:900] if r["error"] not in seen_err
                        else r["error"][:40] + " (same)")))
                seen_err.add(r["error"])
                sys.stdout.flush()
    kf = known_findings()
    viol = []
    evdir = os.path.join(V, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    for p, r in results:
        rp = os.path.join(evdir, "replay", "%s-%s.json" % (p["property"],
                                                         r["name"]))
        if r["error"]:
            json.dump(dict(property=p["property"], proof=r["name"],
                           failed_obligation="proof could not be redone",
                           verifier_output=r["error"]), open(rp, "w"), indent=1)
            viol.append((p, r, rp, False))
            continue
        left = []
        for f in r["failed"]:
            hit = None
            for k in kf:
                if k["property"] == p["property"] and k["proof"] == r["name"] \
                        and re.search(k["obligation"], f["description"]):
                    hit = k
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (p["property"],
                                                         hit["what"]))
                r["known"] = r.get("known", 0) + 1
            else:
                left.append(f)
        if not left:
            continue
        # prefer contract-level obligations for the replay
        left.sort(key=lambda f: (f.get("cover", False),
                                 ".unwind." in f["property"],
                                 "missing model" in f["description"],
                                 ".assertion" not in f["property"]))
        conf, txt, vals = False, "", None
        tried = []
        for f in ([] if a.no_replay else left[:3]):
            conf, txt, vals = replay(ctx, p, r, f)
            tried.append(dict(obligation=f["property"],
                              description=f["description"],
                              replay_confirmed=conf, inputs=vals,
                              native_output=txt))
            if conf:
                break
        for f in left:
            print("  failed obligation [%s] %s (%s:%s)" % (
                f["property"], f["description"],
                f["location"].get("file", "?"), f["location"].get("line", "?")))
        json.dump(dict(property=p["property"], proof=r["name"],
                       harness=r["file"], failed_obligations=left,
                       replays=tried), open(rp, "w"), indent=1)
        viol.append((p, r, rp, conf))
    props = sorted({p["property"] for p, r in results})
    for prop in props:
        write_evidence(a, prop, [(p, r) for p, r in results
                                 if p["property"] == prop],
                       sum(1 for v in viol if v[0]["property"] == prop),
                       time.time() - t0)
    viol.sort(key=lambda v: not v[3])
    for p, r, rp, conf in viol:
        print("VIOLATION property=%s replay=%s%s" % (
            p["property"], os.path.relpath(rp, V),
            "" if conf else " no-failing-input-found"))
    if not viol:
        print("%s: %d proofs, %d/%d obligations discharged, %.1fs" % (
            a.property, len(results), sum(r["discharged"] for _, r in results),
            sum(r["obligations"] for _, r in results), time.time() - t0))
    return 1 if viol else 0


def write_evidence(a, prop, prs, nviol, wall):
    if a.only:
        return
    pr = [(p, r) for p, r in prs if r["kind"] == "proof"]
    bd = [(p, r) for p, r in prs if r["kind"] != "proof"]
    fns = sorted({f for _, r in pr for f in r["src"]})
    bfns = sorted({f for _, r in bd for f in r["src"]} - set(fns))
    ev = dict(
        property=prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1")),
        level="proof",
        coverage=dict(
            obligations=sum(r["obligations"] for _, r in pr),
            discharged=sum(r["discharged"] for _, r in pr),
            checker_cmd="clang -emit-llvm | ll2c | cbmc --function vf_entry "
            "--pointer-check --bounds-check --undefined-shift-check "
            "--div-by-zero-check --unwinding-assertions (driven by "
            "/verif/check.py %s)" % prop,
            backend="CBMC 6.11.0, built-in SAT (MiniSat) unless a proof names "
            "another",
            solver_s=round(sum(r["solver_s"] for _, r in prs), 2),
            trusted_base=TRUSTED,
            functions_proved=fns,
            bounded_obligations=sum(r["obligations"] for _, r in bd),
            bounded_discharged=sum(r["discharged"] for _, r in bd),
            functions_bounded_only=bfns,
            reachability_goals=sum(len(r["covers"]) for _, r in prs),
            reachability_met=sum(sum(1 for c in r["covers"] if c[1])
                                 for _, r in prs),
            callee_contracts_used=sorted({f for _, r in prs
                                          for f in r["replaced"]}),
            known_findings=sum(r.get("known", 0) for _, r in prs),
            proofs=[dict(name=r["name"], harness=r["file"], kind=r["kind"],
                         bound=r["bound"], obligations=r["obligations"],
                         discharged=r["discharged"],
                         unwind=r.get("unwind"),
                         solver_s=round(r["solver_s"], 2))
                    for _, r in prs]),
        assumptions=ASSUME + sorted({x for p, _ in prs for x in
                                     p.get("assume", "").split(";") if x}) +
        ["bounded, not proved: %s (%s)" % (r["name"], r["bound"])
         for _, r in bd],
        wall_s=round(wall, 2), violations=nviol)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
