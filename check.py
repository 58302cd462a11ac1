#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--keep] [--job N] | --replay FILE

Decides one property by symbolic execution of the code in /repo (see DESIGN.md).
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken, with a
replayed counter-example.  Exit 2: the machinery could not decide."""
import concurrent.futures, fcntl, glob, json, os, random, re, select, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import jobs as J

REPO = os.environ.get("VERIF_REPO", "/repo")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
NCPU = min(8, os.cpu_count() or 8)
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true")


class ToolError(Exception):
    pass


def sh(cmd, timeout=600, env=None, cwd=None):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env or ENV, cwd=cwd, text=True, errors="replace")
    if r.returncode != 0:
        raise ToolError("%s\n%s" % (" ".join(cmd), (r.stdout + r.stderr)[-3000:]))
    return r.stdout


def build_engine(scratch):
    src = os.path.join(HERE, "engine")
    pre = os.path.join(src, "target", "release", "rsym")
    newest = max(os.path.getmtime(f) for f in glob.glob(src + "/src/*.rs") + [src + "/Cargo.toml"])
    if os.path.exists(pre) and os.path.getmtime(pre) >= newest:
        return pre
    d = os.path.join(scratch, "engine")
    sh(["cargo", "build", "--release", "--offline", "--manifest-path", src + "/Cargo.toml", "--target-dir", d])
    return os.path.join(d, "release", "rsym")


DEV = ["-C", "debug-assertions=on", "-C", "overflow-checks=on"]
REL = ["-C", "debug-assertions=off", "-C", "overflow-checks=off"]
IRFLAGS = ["--edition", "2021", "-C", "opt-level=2", "-C", "codegen-units=1", "-C", "no-prepopulate-passes", "-C", "debuginfo=0", "-A", "warnings"]


class Build:
    """IR and native builds of the crate under test and the harnesses."""

    def __init__(self, scratch, feats=()):
        self.d = scratch
        self.feats = []
        for f in feats:
            self.feats += ["--cfg", 'feature="%s"' % f]
        self.native = {}
        self.ir()

    def ir(self):
        """the IR with and without debug assertions and overflow checks"""
        def one(d, flags):
            os.makedirs(d, exist_ok=True)
            sh(["rustc"] + IRFLAGS + flags + self.feats + ["--crate-type", "lib", "--crate-name", "raw_btree", REPO + "/src/lib.rs",
                "--emit=llvm-ir,link", "--out-dir", d])
            sh(["rustc"] + IRFLAGS + flags + self.feats + ["--crate-type", "lib", "--crate-name", "harness", HERE + "/harness/lib.rs",
                "--extern", "raw_btree=%s/libraw_btree.rlib" % d, "--emit=llvm-ir", "--out-dir", d])
            return [d + "/harness.ll", d + "/raw_btree.ll"]
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            a = ex.submit(one, self.d, DEV)
            b = ex.submit(one, self.d + "/rel", REL + ["--cfg", "release"])
            std = ex.submit(self.std).result()
            self.ll, self.ll_rel = a.result() + std, b.result() + std

    def std(self):
        """the parts of core and alloc that are not compiled with their users: from the bitcode in the toolchain's libraries"""
        root = sh(["rustc", "--print", "sysroot"]).strip() + "/lib/rustlib/x86_64-unknown-linux-gnu"
        r = []
        for c in ("core", "alloc"):
            lib = glob.glob("%s/lib/lib%s-*.rlib" % (root, c))
            if not lib or not os.path.exists(root + "/bin/opt"):
                continue
            o, bc, ll = self.d + "/%s.o" % c, self.d + "/%s.bc" % c, self.d + "/%s.ll" % c
            try:
                m = [x for x in sh([root + "/bin/llvm-ar", "t", lib[0]]).split() if x.endswith(".o")]
                with open(o, "wb") as f:
                    f.write(subprocess.run([root + "/bin/llvm-ar", "p", lib[0], m[0]], stdout=subprocess.PIPE).stdout)
                sh([root + "/bin/llvm-objcopy", "--dump-section=.llvmbc=" + bc, o, self.d + "/null.o"])
                sh([root + "/bin/opt", "-strip-debug", bc, "-S", "-o", ll])
            except ToolError:
                continue
            r.append(ll)
        return r

    def nat(self, profile):
        if profile in self.native:
            return self.native[profile]
        d = os.path.join(self.d, profile)
        os.makedirs(d, exist_ok=True)
        f = {"dev": ["-C", "debug-assertions=on", "-C", "overflow-checks=on"],
             "release": ["-C", "opt-level=3", "-C", "debug-assertions=off", "--cfg", "release"]}[profile]
        sh(["rustc", "--edition", "2021", "-A", "warnings"] + f + self.feats + ["--crate-type", "lib", "--crate-name", "raw_btree",
            REPO + "/src/lib.rs", "--out-dir", d])
        sh(["rustc", "--edition", "2021", "-A", "warnings"] + f + self.feats + [HERE + "/harness/native.rs", "--extern",
            "raw_btree=%s/libraw_btree.rlib" % d, "-o", d + "/replay"])
        self.native[profile] = d + "/replay"
        return self.native[profile]


def case_args(entry, params, assign):
    return [entry] + ["p:%s=%s" % kv for kv in params.items()] + ["%s=%s" % kv for kv in assign.items()]


def run_native(binary, args, timeout=30, env=None, wrap=()):
    e = dict(ENV, **(env or {}))
    try:
        r = subprocess.run(list(wrap) + [binary] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        return "TIMEOUT", ""
    if r.returncode < 0:
        return "SIGNAL %d" % -r.returncode, r.stderr
    o = r.stdout.strip().split("\n")[-1]
    return (o or "EXIT %d" % r.returncode), r.stderr


class Tokens:
    def __init__(self, n):
        self.r, self.w = os.pipe()
        fl = fcntl.fcntl(self.r, fcntl.F_GETFL)
        fcntl.fcntl(self.r, fcntl.F_SETFL, fl | os.O_NONBLOCK)
        os.write(self.w, b"x" * n)

    def take(self):
        while True:
            select.select([self.r], [], [])
            try:
                if os.read(self.r, 1):
                    return
            except BlockingIOError:
                time.sleep(0.002)

    def put(self):
        os.write(self.w, b"x")


def run_job(rsym, build, job, tok, scratch, seed, dump, deadline, stop):
    if stop and os.path.exists(stop) and time.time() - os.path.getmtime(stop) > 8:
        return {"rc": 0, "skipped": True, "out": None, "err": "", "seconds": 0}
    out = os.path.join(scratch, "out-%s.json" % job["n"])
    cmd = [rsym]
    for l in build.ll_rel if job.get("rel") else build.ll:
        cmd += ["--ll", l]
    cmd += ["--entry", job["entry"], "--out", out, "--samples", str(job.get("samples", 4)),
            "--dump", str(dump), "--tokens", "%d,%d" % (tok.r, tok.w)]
    for k, v in job["params"].items():
        cmd += ["--param", "%s=%s" % (k, v)]
    for k, v in job.get("pins", {}).items():
        cmd += ["--pin", "%s=%s" % (k, v)]
    tok.take()
    t0 = time.time()
    cmd += ["--max-secs", str(max(5, round(deadline - t0)))]
    if stop:
        cmd += ["--stop", stop]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", pass_fds=(tok.r, tok.w))
    if p.returncode not in (0, 3):
        tok.put()  # it ended before it gave its slot back
    res = {"seconds": time.time() - t0, "rc": p.returncode, "err": p.stderr[-2000:]}
    files = sorted(glob.glob(out + "*"))
    tot = None
    for f in files:
        try:
            d = json.load(open(f))
        except Exception as e:
            res.setdefault("bad", []).append("%s: %s" % (f, e))
            continue
        tot = merge(tot, d)
        os.unlink(f)
    res["out"] = tot
    return res


def merge(a, b):
    if a is None:
        b["procs"] = 1
        return b
    for k in ("paths", "pruned", "forks", "instructions", "queries", "cache_hits", "solver_seconds"):
        a[k] += b[k]
    a["procs"] += 1
    a["seconds"] = max(a["seconds"], b["seconds"])
    a["stopped"] = a["stopped"] or b["stopped"]
    a["engine_errors"] += b["engine_errors"]
    a["violations"] += b["violations"]
    a["samples"] += b["samples"]
    a["smt"] += b["smt"]
    for k, v in b["covers"].items():
        if k in a["covers"]:
            a["covers"][k]["n"] += v["n"]
        else:
            a["covers"][k] = v
    for k, v in b["checks"].items():
        c = a["checks"].setdefault(k, [0, 0])
        c[0] += v[0]
        c[1] += v[1]
    fa = {f["name"]: f for f in a["functions"]}
    for f in b["functions"]:
        g = fa.get(f["name"])
        if g is None:
            a["functions"].append(f)
        else:
            g["calls"] += f["calls"]
            g["blocks"] = "".join("1" if x == "1" or y == "1" else "0" for x, y in zip(g["blocks"], f["blocks"]))
    return a


def describe(v):
    if v["kind"] == "check":
        return J.CHECKS.get(int(v["detail"]), "assertion " + v["detail"])
    return "%s: %s" % (v["kind"], v["detail"])


def fails(o, v):
    """does the native outcome confirm the violation?"""
    if o.startswith("OK") or o.startswith("ASSUME"):
        return False
    return True


def replay(build, job, v):
    """runs the counter-example against the real code; returns (confirmed, log)"""
    args = case_args(job["entry"], job["params"], v["assign"])
    log = []
    for prof in ("release", "dev") if job.get("rel") else ("dev", "release"):
        o, _ = run_native(build.nat(prof), args)
        log.append("%s: %s" % (prof, o))
        if fails(o, v):
            return True, log
    # nothing visible: memory errors may need a memory checker
    disc, _ = run_native(build.nat("dev"), ["h_discover"])
    m = re.match(r"OK (\d+) (\d+)", disc)
    if m:
        args = case_args(job["entry"], dict(job["params"], **{"900": m.group(1), "901": m.group(2)}), v["assign"])
        vg = shutil.which("valgrind")
        if vg:
            o, err = run_native(build.nat("dev"), args, timeout=120, env={"REPLAY_REAL": "1"}, wrap=[vg, "-q", "--error-exitcode=99", "--leak-check=no"])
            bad = "Invalid read" in err or "Invalid write" in err or "uninitialised" in err or "Invalid free" in err
            log.append("valgrind: %s %s" % (o, "memory error" if bad else ""))
            if bad:
                return True, log + err.strip().split("\n")[:12]
            if fails(o, v) and not o.startswith("EXIT 99"):
                return True, log
        o = miri(build, args)
        log.append("miri: " + o)
        if o.startswith("UB"):
            return True, log
    return False, log


def miri(build, args):
    d = os.path.join(build.d, "miri")
    os.makedirs(d + "/src", exist_ok=True)
    shutil.rmtree(d + "/crate", ignore_errors=True)
    shutil.copytree(REPO + "/src", d + "/crate/src")
    feats = "dot" if build.feats else ""
    open(d + "/crate/Cargo.toml", "w").write('[package]\nname="raw-btree"\nversion="0.0.0"\nedition="2021"\n[features]\ndot=[]\n[workspace]\n')
    open(d + "/Cargo.toml", "w").write('[package]\nname="replay"\nversion="0.0.0"\nedition="2021"\n[dependencies]\nraw-btree={path="crate"%s}\n[features]\ndot=[]\n[workspace]\n[[bin]]\nname="replay"\npath="%s/harness/native.rs"\n'
                                      % (',features=["dot"]' if feats else "", HERE))
    e = dict(os.environ, REPLAY_REAL="1", CARGO_TARGET_DIR=d + "/target", MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-permissive-provenance -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks",
             CARGO_NET_OFFLINE="true", RUSTFLAGS="-A warnings")
    e.pop("RUSTUP_TOOLCHAIN", None)
    try:
        r = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "--manifest-path", d + "/Cargo.toml", "--"] + args,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=400, env=e)
    except Exception as ex:
        return "unavailable (%s)" % ex
    m = re.search(r"error: Undefined Behavior: .*", r.stderr)
    if m:
        return "UB " + m.group(0)
    return "no undefined behaviour (exit %d) %s" % (r.returncode, r.stdout.strip()[-200:] or r.stderr[-300:])


def crosscheck(smt, n, seed):
    """re-decide recorded queries with independent solvers"""
    rnd = random.Random(seed)
    smt = list({q["q"]: q for q in smt}.values())
    rnd.shuffle(smt)
    bad, done, secs = [], {}, {}
    for solver, cmd in (("cvc5", ["cvc5", "--lang=smt2"]), ("z3-new", ["z3-new", "-in"])):
        if not shutil.which(cmd[0]):
            continue
        t0 = time.time()
        for q in smt[:n]:
            r = subprocess.run(cmd, input=q["q"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
            a = r.stdout.strip().split("\n")[-1] if r.stdout.strip() else "?"
            want = "sat" if q["sat"] else "unsat"
            done[solver] = done.get(solver, 0) + 1
            if a != want:
                bad.append("%s says %s, z3 says %s: %s" % (solver, a, want, q["q"][:400]))
        secs[solver] = round(time.time() - t0, 2)
    return bad, done, secs


def known_findings(prop):
    f = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get("findings", []) if k["property"] == prop]


def matches(k, job, v):
    s = k["signature"]
    if s.get("entry") and s["entry"] != job["entry"]:
        return False
    if s.get("kind") and s["kind"] != v["kind"]:
        return False
    if "detail" in s and s["detail"] not in v["detail"]:
        return False
    if "params" in s and any(str(job["params"].get(int(p), job["params"].get(p))) != str(x) for p, x in s["params"].items()):
        return False
    if "assign" in s and any(str(v["assign"].get(p)) != str(x) for p, x in s["assign"].items()):
        return False
    return True


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return do_replay(a[1])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="rsym-%s-" % prop)
    try:
        return check(prop, tier, seed, scratch, t0, a)
    except ToolError as e:
        print("ERROR: %s" % e)
        return 2
    finally:
        if "--keep" not in a:
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print("scratch:", scratch)


def check(prop, tier, seed, scratch, t0, argv):
    rsym = build_engine(scratch)
    P = J.PROPS[prop]
    joblist = P["jobs"](tier)
    joblist += J.released(joblist, tier)
    if "--job" in argv:
        joblist = [joblist[int(argv[argv.index("--job") + 1])]]
    feats = P.get("features", ())
    build = Build(scratch, feats)
    t_build = time.time() - t0
    for i, j in enumerate(joblist):
        j["n"] = i
        j["params"] = {int(k): v for k, v in j["params"].items()}
    tok = Tokens(NCPU)
    results = [None] * len(joblist)
    # native builds go on while the engine runs
    nat = concurrent.futures.ThreadPoolExecutor(1)
    natf = nat.submit(lambda: (build.nat("dev"), build.nat("release")))
    dump = 6 if tier == "quick" else 40
    with concurrent.futures.ThreadPoolExecutor(max_workers=NCPU) as ex:
        deadline = t0 + (700 if tier == "quick" else float(os.environ.get("VERIF_SECS", "20000")))
        # the first violation ends the exploration, unless it may be a listed one
        stop = None if known_findings(prop) else os.path.join(scratch, "stop")
        fs = {ex.submit(run_job, rsym, build, j, tok, scratch, seed, dump, deadline, stop): j for j in joblist}
        for f in concurrent.futures.as_completed(fs):
            results[fs[f]["n"]] = f.result()
    natf.result()
    errors, viol = [], []
    tot = None
    perjob = []
    for j, r in zip(joblist, results):
        name = "%s %s%s" % (j["entry"], j["params"], " release" if j.get("rel") else "")
        if r.get("skipped"):
            continue
        if r["rc"] not in (0,) or r.get("bad") or r["out"] is None:
            errors.append("%s: engine ended with %s %s %s" % (name, r["rc"], r.get("bad", ""), r["err"]))
        o = r["out"]
        if o is None:
            continue
        for e in o["engine_errors"]:
            errors.append("%s: %s" % (name, e))
        if o["paths"] == 0 and not o["stopped"]:
            errors.append("%s: no path reached an end" % name)
        for c in j.get("covers", []):
            if str(c) not in o["covers"] and not o["violations"] and not o["stopped"]:
                errors.append("%s: vacuous: case '%s' never reached" % (name, J.COVERS.get(c, c)))
        for v in o["violations"]:
            viol.append((j, v))
        perjob.append({"harness": j["entry"], "what": j.get("what", ""), "params": j["params"], "bounds": j.get("bounds", ""), "paths": o["paths"], "instructions": o["instructions"], "queries": o["queries"],
                       "seconds": round(r["seconds"], 2), "processes": o["procs"],
                       "reached": {J.COVERS.get(int(k), k): v["n"] for k, v in sorted(o["covers"].items(), key=lambda x: int(x[0]))}})
        if "-v" in argv:
            print(name, {k: o[k] for k in ("paths", "pruned", "instructions", "queries")}, "%.1fs" % r["seconds"], "procs", o["procs"])
    # ---- path models replayed against the real code
    validated, samples_out = 0, []
    if not viol:
        todo = []
        for j, r in zip(joblist, results):
            if r["out"]:
                s = r["out"]["samples"]
                rnd = random.Random(seed * 1000 + j["n"])
                rnd.shuffle(s)
                todo += [(j, x) for x in s[:j.get("validate", 12 if tier == "quick" else 60)]]
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            def one(t):
                j, s = t
                o, _ = run_native(build.nat("release" if j.get("rel") else "dev"), case_args(j["entry"], j["params"], s["assign"]))
                return j, s, o
            for j, s, o in ex.map(one, todo):
                want = " ".join(["OK"] + [str(x) for x in s["obs"]])
                if o != want:
                    errors.append("translation mismatch: %s %s: engine observed '%s', real code '%s'" % (j["entry"], case_args(j["entry"], j["params"], s["assign"]), want, o))
                else:
                    validated += 1
                    if len(samples_out) < 8:
                        samples_out.append({"harness": j["entry"], "params": j["params"], "inputs": s["assign"], "observed": s["obs"]})
    for r in results:
        if r["out"]:
            tot = merge(tot, r["out"])
    # ---- verdict
    rc = 0
    known = known_findings(prop)
    seen_known = set()
    confirmed = []
    lines = []
    budget = 6
    for j, v in viol:
        k = next((i for i, k in enumerate(known) if matches(k, j, v)), None)
        if k is not None:
            if k not in seen_known:
                seen_known.add(k)
                lines.append("KNOWN-FINDING: property=%s %s" % (prop, known[k]["what"]))
            continue
        if v["kind"] == "check" and v["detail"] == "9":
            errors.append("%s: the harness cannot set up its trees on this code" % j["entry"])
            continue
        if budget == 0 or len(confirmed) >= 3:
            continue
        budget -= 1
        ok, log = replay(build, j, v)
        if ok:
            confirmed.append((j, v, log))
        else:
            errors.append("counter-example not reproduced by the real code: %s %s %s: %s" % (describe(v), j["entry"], case_args(j["entry"], j["params"], v["assign"]), "; ".join(log)))
    rdir = os.path.join(HERE, "evidence", "replay")
    vio_out = []
    for n, (j, v, log) in enumerate(confirmed):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (prop, n))
        json.dump({"property": prop, "features": list(feats), "entry": j["entry"], "params": j["params"], "inputs": v["assign"], "violated": describe(v), "kind": v["kind"], "detail": v["detail"],
                   "stack": v["stack"], "real_code": log, "how": "python3 /verif/check.py --replay " + path}, open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        lines.append("  %s [%s %s]" % (describe(v), j["entry"], j.get("what", "")))
        lines.append("  inputs %s" % v["assign"])
        lines.append("  real code: %s" % "; ".join(log[:3]))
        for s in v["stack"][:4]:
            lines.append("    in " + s)
        vio_out.append({"what": describe(v), "replay": path})
        rc = 1
    xc = ([], {}, {})
    if rc == 0 and tot:
        xc = crosscheck(tot["smt"], 8 if tier == "quick" else 300, seed)
        errors += ["solver disagreement: " + b for b in xc[0]]
    if rc == 0 and errors:
        rc = 2
    # ---- evidence
    fnc = []
    if tot:
        for f in sorted(tot["functions"], key=lambda f: f["name"]):
            if "raw_btree::" in f["name"] and "harness::" not in f["name"].split("<")[0] or f["name"].startswith("<raw_btree"):
                fnc.append("%s (%d of %d blocks)" % (f["name"], f["blocks"].count("1"), len(f["blocks"])))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P.get("level", "model_checking"),
          "coverage": {
              "states": tot["paths"] if tot else 0,
              "transitions": tot["instructions"] if tot else 0,
              "traces_validated_against_impl": validated,
              "samples": samples_out or [{"inputs": v["assign"], "violated": describe(v)} for j, v in viol[:3]] or ["none"],
              "explanation": "states: complete symbolic paths (each covers every input satisfying its path condition); transitions: LLVM instructions of the real code and harness executed symbolically",
              "paths_infeasible": tot["pruned"] if tot else 0,
              "case_splits": tot["forks"] if tot else 0,
              "solver_queries": tot["queries"] if tot else 0,
              "solver_cache_hits": tot["cache_hits"] if tot else 0,
              "solver_seconds": round(tot["solver_seconds"], 2) if tot else 0,
              "assertions_decided": sum(c[0] for c in tot["checks"].values()) if tot else 0,
              "assertions_decided_symbolically": sum(c[1] for c in tot["checks"].values()) if tot else 0,
              "assertions": {J.CHECKS.get(int(k), k): v[0] for k, v in tot["checks"].items()} if tot else {},
              "crosschecked_queries": xc[1], "crosscheck_seconds": xc[2],
              "bounds": P.get("bounds", ""), "outside_bounds": P.get("outside", ""),
              "jobs": perjob, "functions_encoded": fnc, "build_seconds": round(t_build, 2),
              "errors": errors[:10]},
          "assumptions": J.ASSUMPTIONS + P.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for e in errors[:8]:
        print("ERROR: " + e[:1500])
    for l in lines:
        print(l)
    if rc == 0:
        print("%s held: %d paths, %d queries, %d assertions, %d path models replayed natively, %.1f s" % (
            prop, tot["paths"], tot["queries"], ev["coverage"]["assertions_decided"], validated, time.time() - t0))
    return rc


def do_replay(path):
    d = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="rsym-replay-")
    try:
        b = Build(scratch, d.get("features", ()))
        ok, log = replay(b, {"entry": d["entry"], "params": d["params"]}, {"assign": d["inputs"]})
        print(d["violated"])
        print("\n".join(log))
        print("reproduced" if ok else "not reproduced")
        return 1 if ok else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    os.dup2(os.open(os.devnull, os.O_RDONLY), 0)  # cargo and rustc look at it
    sys.exit(main())
