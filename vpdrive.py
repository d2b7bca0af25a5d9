#!/usr/bin/env python3
"""Driver: compiles the code under /repo to bitcode, runs the symbolic executor on a property's harnesses,
replays counterexamples and sample paths natively, writes evidence/<id>.json."""
import argparse, concurrent.futures as cf, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.path.join(V, ".cache")
CXX = "clang++"
sys.path.insert(0, os.path.join(V, "harness"))

SKIP = re.compile(r"(event_loop_macos|event_loop_win|logging|random_generator)\.cpp$")
SAN = "-fsanitize=shift-exponent,integer-divide-by-zero,array-bounds,unreachable,return"
BC = ["-c", "-emit-llvm", "-O1", "-g1", "-fno-exceptions", "-fno-pic", "-fno-vectorize", "-fno-slp-vectorize", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
      "-fno-threadsafe-statics", "-fno-builtin-memchr", SAN, "-fsanitize-trap=all"]
NAT = ["-c", "-O1", "-g1", SAN + ",address", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
COMMON = ["-Dclock_gettime=vp_clock_gettime", "-Dsendto=vp_sendto", "-DNDEBUG", "-DHAVE_OPENSSL=1", "-std=gnu++17", "-D_GLIBCXX_ASSERTIONS", "-w"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def tree_digest(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        for r, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(r, f)
                    h.update(os.path.relpath(p, d).encode() + b"\0" + rd(p) + b"\0")
    return h.hexdigest()


_hdr = None


def headers():
    global _hdr
    if _hdr is None:
        _hdr = tree_digest([os.path.join(REPO, "include"), os.path.join(REPO, "src")], (".h", ".hpp", ".inc")) + tree_digest([os.path.join(V, "rt")], (".h",))
    return _hdr


def compile_one(src, mode, extra=()):
    """mode: bc or nat; returns path of the object in the content-addressed cache"""
    text = rd(src)
    flags = (BC if mode == "bc" else NAT) + COMMON + list(extra)
    inc = ["-I" + os.path.join(V, "rt/shim"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "src/stun"),
           "-I" + os.path.join(V, "rt"), "-I" + os.path.join(V, "harness")]
    if mode == "bc" and b"stringstream" in text:
        flags += ["-include", os.path.join(V, "rt/shim_sstream.h")]
    key = digest(mode, src, text, headers(), flags, tree_digest([os.path.join(V, "harness")], (".h",)) if src.startswith(os.path.join(V, "harness")) else "")
    out = os.path.join(CACHE, key + (".bc" if mode == "bc" else ".o"))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh([CXX] + flags + inc + [src, "-o", tmp])
        if r.returncode:
            raise RuntimeError("compile failed: %s\n%s" % (src, r.stdout[-4000:]))
        os.replace(tmp, out)
    return out


def repo_sources():
    out = []
    for d in ("src", "src/sctp", "src/stun"):
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if f.endswith(".cpp") and not SKIP.search(f):
                out.append(os.path.join(p, f))
    return out


def pmap(fn, xs):
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(fn, xs))


def engine():
    d = os.path.join(V, "engine")
    key = digest(tree_digest([d], (".cpp", ".h", "Makefile")))
    out = os.path.join(CACHE, "vpexec-" + key)
    if not os.path.exists(out):
        b = tempfile.mkdtemp(prefix="vpeng")
        r = sh(["make", "-j8", "-C", d, "B=" + b])
        if r.returncode:
            raise RuntimeError("engine build failed\n" + r.stdout[-3000:])
        shutil.copy(os.path.join(b, "vpexec"), out + ".tmp")
        os.replace(out + ".tmp", out)
        shutil.rmtree(b, ignore_errors=True)
    return out


def repo_bc():
    objs = pmap(lambda s: compile_one(s, "bc"), repo_sources())
    key = digest(*objs)
    out = os.path.join(CACHE, "repo-%s.bc" % key)
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh(["llvm-link-18"] + objs + ["-o", tmp])
        if r.returncode:
            raise RuntimeError("llvm-link failed " + r.stdout[-2000:])
        os.replace(tmp, out)
    return out


def repo_nat():
    objs = pmap(lambda s: compile_one(s, "nat"), repo_sources())
    key = digest(*objs)
    out = os.path.join(CACHE, "repo-%s.a" % key)
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        if os.path.exists(tmp):
            os.unlink(tmp)
        r = sh(["llvm-ar-18", "rcs", tmp] + objs)
        if r.returncode:
            raise RuntimeError("ar failed " + r.stdout[-2000:])
        os.replace(tmp, out)
    return out


def support(mode):
    fs = [os.path.join(V, "rt/env.cpp"), os.path.join(V, "rt/crypto_env.cpp")]
    fs = [f for f in fs if os.path.exists(f)]
    objs = pmap(lambda f: compile_one(f, mode), fs)
    if mode == "bc":
        objs.append(compile_one(os.path.join(V, "rt/rt.cpp"), "bc", ["-D__NO_INLINE__", "-fno-builtin", "-fno-sanitize=all"]))
    return objs


def native_bin(hfile, entry):
    h = compile_one(hfile, "nat")
    m = compile_one(os.path.join(V, "rt/native.cpp"), "nat", ["-DHARNESS_ENTRY=" + entry])
    objs = [h, m] + support("nat")
    a = repo_nat()
    key = digest(a, *objs)
    out = os.path.join(CACHE, "nat-%s" % key)
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh([CXX, "-fsanitize=address,undefined", "-o", tmp] + objs + [a, "-lssl", "-lcrypto", "-lpthread"])
        if r.returncode:
            raise RuntimeError("native link failed " + r.stdout[-3000:])
        os.replace(tmp, out)
    return out


def run_native(binp, witness, params, timeout=20):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0", UBSAN_OPTIONS="halt_on_error=1:exitcode=77:print_stacktrace=1")
    try:
        r = subprocess.run([binp, witness] + ["%s=%s" % kv for kv in params.items()], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout, errors="replace", text=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")


def limit_mem():
    lim = int(os.environ.get("VP_MEM_GB", "7")) << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_job(eng, mods, repo, job, outdir, seed):
    os.makedirs(outdir, exist_ok=True)
    cmd = [eng, "--entry", "h_" + job["entry"], "--out", outdir, "--time", str(job["time"]), "--samples", str(job.get("samples", 6)), "--seed", str(seed),
           "--repo-prefix", REPO + "/", "--stop-after", str(job.get("stop_after", 6)), "--query-timeout", str(job.get("query_timeout", 15000))]
    if "max_path_insts" in job:
        cmd += ["--max-path-insts", str(job["max_path_insts"])]
    for k, v in job.get("params", {}).items():
        cmd += ["--param", "%s=%s" % (k, v)]
    cmd += mods + ["--lib", repo]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=limit_mem, timeout=job["time"] + 90)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, out = "timeout", ""
    rj = os.path.join(outdir, "result.json")
    if not os.path.exists(rj):
        return dict(job=job, crashed=True, why="engine rc=%s %s" % (rc, out[-1500:]), wall=time.time() - t0)
    res = json.load(open(rj))
    res["job"] = job
    res["wall"] = time.time() - t0
    res["stderr"] = out[-1500:]
    return res


def parse_obs(text):
    return [l.strip() for l in text.splitlines() if l[:2] in ("O ", "R ")]


def load_known(prop):
    """known: property=<id> sig=<regex> :: <what>   (matched against 'kind|msg|loc|stack')"""
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) sig=(.+?) :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    if a.property == "setup":
        engine()
        support("bc")
        repo_bc()
        import jobs
        hs = sorted({os.path.join(V, "harness", j["file"]) for p in jobs.PROPS.values() for j in p["jobs"]})
        pmap(lambda h: compile_one(h, "bc"), hs)
        repo_nat()
        support("nat")
        log("setup done in %.0fs" % (time.time() - t0))
        return 0
    import jobs
    P = jobs.PROPS[a.property]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    eng = engine()
    sup = support("bc")
    repo = repo_bc()
    joblist = []
    for j in P["jobs"]:
        j = dict(j)
        tiers = j.pop("tiers", {})
        if tiers.get(a.tier, {}) is None: continue
        j.update(tiers.get(a.tier, {}))
        if j.get("skip"):
            continue
        if a.only and not re.search(a.only, j["entry"]):
            continue
        j.setdefault("time", 60 if a.tier == "quick" else 400)
        for exp in j.pop("expand", [{}]):
            k = dict(j)
            k["params"] = dict(j.get("params", {}), **exp)
            joblist.append(k)
    work = tempfile.mkdtemp(prefix="vp-%s-" % a.property)
    hbc = {f: compile_one(os.path.join(V, "harness", f), "bc") for f in {j["file"] for j in joblist}}
    tb = time.time() - t0
    # wall budget: jobs run 8 at a time
    budget = P.get("budget", {}).get(a.tier, 400 if a.tier == "quick" else 820)
    total = sum(j["time"] for j in joblist) / 8.0
    joblist.sort(key=lambda j: -j["time"])
    if total > budget:
        sc = budget / total
        for j in joblist:
            j["time"] = max(5, j["time"] * sc)
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda ij: run_job(eng, [hbc[ij[1]["file"]]] + sup, repo, ij[1], os.path.join(work, "j%d" % ij[0]), seed), enumerate(joblist)))
    # ---- replay
    known = load_known(a.property)
    confirmed, unconfirmed, knownhits = [], [], {}
    validated = mismatched = 0
    mism = []
    t_nat = time.time()
    for r in res:
        if r.get("crashed"):
            continue
        job = r["job"]
        need = bool(r["violations"]) or bool(r["samples"])
        if not need:
            continue
        nb = native_bin(os.path.join(V, "harness", job["file"]), "h_" + job["entry"])
        for s in r["samples"]:
            if time.time() - t0 > 600:
                break
            rc, out = run_native(nb, s, job.get("params", {}))
            want = [l for l in rd(s).decode().splitlines() if l[:2] in ("O ", "R ")]
            want = sorted(l for l in want if l[0] == "R") + [l for l in want if l[0] == "O"]
            got = parse_obs(out)
            got = sorted(l for l in got if l[0] == "R") + [l for l in got if l[0] == "O"]
            if rc == 0 and want == got:
                validated += 1
            else:
                mismatched += 1
                keep = os.path.join(V, "out", "mismatch-%s-%s.txt" % (a.property, job["entry"]))
                os.makedirs(os.path.dirname(keep), exist_ok=True)
                shutil.copy(s, keep)
                mism.append("%s %s rc=%s: %s" % (job["entry"], job.get("params"), rc, out[-700:] if rc != 0 else "trace differs want=%s got=%s" % (want[:12], got[:12])))
        for v in r["violations"]:
            if time.time() - t0 > 780:
                break
            rc, out = run_native(nb, v["witness"], job.get("params", {}), 10 if v["kind"] == "hang" else 20)
            failed_assert = re.search(r"^A (.*)$", out, re.M)
            crash = rc == 77 or (isinstance(rc, int) and (rc < 0 or rc in (134, 139)))
            ok = crash or (failed_assert is not None and rc == 1) or (rc == "timeout" and v["kind"] == "hang")
            v["native_rc"] = rc
            v["native"] = out[-3000:]
            v["job"] = job
            sig = "%s|%s|%s|%s" % (v["kind"], v["msg"], v["loc"], " < ".join(v["stack"][:6]))
            if not ok:
                unconfirmed.append(v)
                continue
            kf = next((w for rx, w in known if rx.search(sig)), None)
            if kf:
                knownhits[kf] = knownhits.get(kf, 0) + 1
            else:
                confirmed.append(v)
    t_nat = time.time() - t_nat
    # ---- report
    good = [r for r in res if not r.get("crashed")]
    crashed = [r for r in res if r.get("crashed")]
    inc = {}
    for r in good:
        for k, n in r["incomplete"].items():
            inc[k] = inc.get(k, 0) + n
    funcs = sorted({f for r in good for f in r["functions"]})
    reach = {}
    for r in good:
        for k, n in r["reach"].items():
            reach[k] = reach.get(k, 0) + n
    missing = sorted(set(P.get("must_reach", [])) - set(reach))
    S = lambda k: sum(r[k] for r in good)
    ev = dict(property=a.property, tier=a.tier, seed=seed, level="model_checking",
              coverage=dict(states=int(S("paths_done")), transitions=int(S("insts")), traces_validated_against_impl=validated, samples=[
                  "%s %s: %d paths, %d solver-decided branches, complete=%s" % (r["job"]["entry"], r["job"].get("params", {}), r["paths_done"], r["branches"], not [k for k in r["incomplete"] if not k.startswith("note:")]) for r in good[:40]],
                  technique="symbolic execution of LLVM bitcode compiled from /repo with Z3 deciding every branch, memory access and assertion",
                  functions_encoded=funcs, functions_encoded_count=len(funcs), bounds=P.get("bounds", ""), paths=int(S("paths_done")), paths_started=int(S("paths")), instructions=int(S("insts")),
                  assertions_checked=int(S("asserts")), solver_queries=int(S("queries")), z3_calls=int(S("z3_calls")), query_cache_hits=int(S("cache_hits")), sat=int(S("sat")), unsat=int(S("unsat")), unknown=int(S("unknown")),
                  solver_s=round(S("solver_s"), 2), incomplete=inc, jobs=len(res), jobs_complete=sum(1 for r in good if not [k for k in r["incomplete"] if not k.startswith("note:")]), engine_failures=[r["why"][:300] for r in crashed],
                  reachability_witnesses=reach, reachability_missing=missing, trace_mismatches=mism[:5], unconfirmed_counterexamples=["%s %s at %s (native rc %s)" % (v["kind"], v["msg"], v["loc"], v["native_rc"]) for v in unconfirmed][:10],
                  known_findings=[k for k in knownhits], job_walls=[round(r["wall"], 1) for r in res]),
              assumptions=P.get("assumptions", []) + jobs.COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 1), violations=len(confirmed))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", a.property + ".json"), "w"), indent=1)
    print("%s tier=%s jobs=%d/%d complete paths=%d insts=%d queries=%d z3=%d solver=%.1fs validated=%d mismatched=%d unconfirmed=%d build=%.0fs native=%.0fs wall=%.0fs" % (
        a.property, a.tier, ev["coverage"]["jobs_complete"], len(res), S("paths_done"), S("insts"), S("queries"), S("z3_calls"), S("solver_s"), validated, mismatched, len(unconfirmed), tb, t_nat, time.time() - t0))
    for r in good:
        bad = {k: v for k, v in r["incomplete"].items()}
        if bad:
            print("  incomplete %s %s: %s" % (r["job"]["entry"], r["job"].get("params", {}), bad))
    for r in crashed:
        print("  engine failure %s %s: %s" % (r["job"]["entry"], r["job"].get("params", {}), r["why"][:1200]))
    for m in mism[:5]:
        print("  MISMATCH " + m)
    for v in unconfirmed[:6]:
        print("  unconfirmed: %s | %s | %s rc=%s %s" % (v["kind"], v["msg"], v["loc"], v["native_rc"], v["native"][-300:]))
    if missing:
        print("  reachability witnesses not hit: %s" % missing)
    for k in knownhits:
        print("KNOWN-FINDING: property=%s %s" % (a.property, k))
    rc = 0
    if confirmed:
        od = os.path.join(V, "out", a.property)
        shutil.rmtree(od, ignore_errors=True)
        os.makedirs(od, exist_ok=True)
        for i, v in enumerate(confirmed):
            p = os.path.join(od, "violation%d.txt" % i)
            shutil.copy(v["witness"], p)
            with open(os.path.join(od, "violation%d.info" % i), "w") as f:
                f.write("%s: %s\nat %s\nentry h_%s params %s\n%s\n\nnative replay (rc %s):\n%s\n" % (v["kind"], v["msg"], v["loc"], v["job"]["entry"], v["job"].get("params", {}), "\n".join(v["stack"]), v["native_rc"], v["native"]))
            print("  %s: %s at %s [h_%s %s]" % (v["kind"], v["msg"], v["loc"], v["job"]["entry"], v["job"].get("params", {})))
            print("VIOLATION property=%s replay=%s" % (a.property, p))
        rc = 1
    if not a.keep:
        shutil.rmtree(work, ignore_errors=True)
    else:
        print("work dir", work)
    if crashed and not good and rc == 0:
        return 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
