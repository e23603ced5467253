#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: verify every contract of a property
against /repo's current source.  check.py --setup builds the verifier.

exit 0  every obligation of every contract discharged
exit 1  VIOLATION line(s) printed
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
JOBS = max(2, min(8, os.cpu_count() or 2))
CLANG = "clang++-18"
T0 = time.time()


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", timeout=timeout, **kw)


# ---------------------------------------------------------------- the verifier
def z3_dir():
    c = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
    if os.path.isdir(c):
        return c
    r = sh(["bash", "-c", "ls -d /opt/veriftools/pyvenv/lib/python3*/site-packages/z3"])
    return r.stdout.split()[0]


def build_engine():
    src = os.path.join(V, "engine", "vcgen.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "vcgen-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    z = z3_dir()
    tmp = out + ".%d" % os.getpid()
    r = sh(["g++", "-std=c++17", "-O1", "-w", "-I/usr/lib/llvm-18/include", "-I" + z + "/include",
            src, "-o", tmp, "-L" + z + "/lib", "-Wl,-rpath," + z + "/lib", "-l:libz3.so",
            "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    if r.returncode:
        print(r.stdout)
        sys.exit(2)
    os.rename(tmp, out)
    return out


# ---------------------------------------------------------------- contracts
class Unit:
    """one contract file and the real sources it puts under contract"""

    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-4]
        text = open(path).read()

        def directive(k):
            out = []
            for m in re.finditer(r"^// @%s:(.*)$" % k, text, re.M):
                out += m.group(1).split()
            return out
        self.sources = directive("sources")      # relative to /repo
        self.nativesources = directive("nativesources")   # linked into concrete runs only
        self.flags = [f.replace("$V", V).replace("$R", REPO) for f in directive("flags")]
        self.native = directive("native")        # native-only helper sources
        self.nativeflags = [f.replace("$V", V).replace("$R", REPO) for f in directive("nativeflags")]
        self.models = directive("models")         # further model files
        self.opts = directive("options")          # verifier options
        self.thorough_only = directive("thorough")

    def incs(self):
        return ["-I" + V + "/contracts"] + self.flags + ["-I" + REPO + "/include", "-I" + REPO + "/src"]


def units_of(prop):
    d = os.path.join(V, "contracts")
    return [Unit(os.path.join(d, f)) for f in sorted(os.listdir(d))
            if f.endswith(".cpp") and f.startswith(prop + "_")]


def compile_unit(u, work, tier):
    """bitcode of the contracts linked with the bitcode of the real sources"""
    flags = ["-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names",
             "-w", "-emit-llvm", "-c", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] + u.incs()
    if tier == "thorough":
        flags.append("-DSPEC_THOROUGH")
    jobs = [(u.path, "contract")]
    jobs += [(os.path.join(V, "contracts", m), "model") for m in ["models.cpp"] + u.models]
    jobs += [(os.path.join(REPO, s), "source") for s in u.sources]
    outs, log = [], ""
    procs = []
    for i, (src, kind) in enumerate(jobs):
        o = os.path.join(work, "%s.%d.bc" % (u.name, i))
        outs.append(o)
        procs.append((src, subprocess.Popen([CLANG] + flags + [src, "-o", o], stdout=subprocess.PIPE,
                                            stderr=subprocess.STDOUT, text=True)))
    ok = True
    for src, p in procs:
        t, _ = p.communicate()
        if p.returncode:
            ok = False
            log += "compiling %s:\n%s\n" % (src, t)
    if not ok:
        return None, log
    linked = os.path.join(work, u.name + ".l.bc")
    final = os.path.join(work, u.name + ".bc")
    r = sh(["llvm-link-18"] + outs + ["-o", linked])
    if r.returncode:
        return None, r.stdout
    r = sh(["opt-18", "-passes=mem2reg", linked, "-o", final])
    if r.returncode:
        return None, r.stdout
    for o in outs + [linked]:
        os.unlink(o)
    return final, log


def compile_native(u, work):
    out = os.path.join(work, u.name + ".native")
    src = [u.path] + [os.path.join(REPO, s) for s in u.sources + u.nativesources] + \
        [os.path.join(V, "native", n) for n in u.native] + [os.path.join(V, "native", "runtime.cpp")]
    objs, procs = [], []
    flags = ["-std=c++17", "-O1", "-g", "-w", "-fsanitize=address,undefined,float-cast-overflow",
             "-fno-sanitize-recover=all", "-DSPEC_NATIVE"] + u.incs() + u.nativeflags
    for i, s in enumerate(src):
        o = out + ".%d.o" % i
        objs.append(o)
        procs.append(subprocess.Popen([CLANG] + flags + ["-c", s, "-o", o], stdout=subprocess.PIPE,
                                      stderr=subprocess.STDOUT, text=True))
    log = ""
    bad = False
    for p in procs:
        t, _ = p.communicate()
        if p.returncode:
            bad = True
            log += t
    if bad:
        return None, log
    r = sh([CLANG, "-fsanitize=address,undefined", *objs, "-o", out, "-ldl", "-pthread"])
    for o in objs:
        os.unlink(o)
    if r.returncode:
        return None, r.stdout
    return out, ""


# ---------------------------------------------------------------- known findings
def known_findings():
    out = []
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) contract=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


# ---------------------------------------------------------------- main
def main():
    if sys.argv[1] == "--setup":
        print(build_engine())
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = os.environ.get("VERIF_ONLY")   # development: a regular expression
    total = float(os.environ.get("VERIF_DEADLINE", "620" if tier == "quick" else "6000"))
    deadline = T0 + total
    engine = build_engine()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return run(prop, tier, seed, only, deadline, engine, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, seed, only, deadline, engine, work):
    units = units_of(prop)
    if not units:
        print("no contracts for", prop)
        return 2
    problems = []     # (contract, unit, failure dict)
    results = {}
    contracts = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        comp = list(ex.map(lambda u: compile_unit(u, work, tier), units))
    for u, (bc, log) in zip(units, comp):
        if not bc:
            problems.append((prop + "_compile", u, {
                "kind": "compile", "verdict": "undecided",
                "msg": "the contracts in %s do not compile against the source" % os.path.basename(u.path),
                "loc": "", "replay": "", "stack": [log[-4000:]]}))
            continue
        u.bc = bc
        for n in sh([engine, bc, "--list"]).stdout.split():
            if not only or re.search(only, n):
                contracts.append((n, u))
    known = {c: t for p, c, t in known_findings() if p == prop}

    # ---- concrete runs of the real code
    natives = {}
    nat_lock = threading.Lock()
    nat_stats = {"built": False, "replays": 0, "confirmed": 0, "search_seconds": 0, "search_trials": 0}
    env = dict(os.environ, ASAN_SYMBOLIZER_PATH=shutil.which("llvm-symbolizer-18") or
               shutil.which("llvm-symbolizer") or "", VERIF_SCRATCH=work)
    confirmed = {}
    halt = threading.Event()   # a violation is confirmed: no need to verify the rest

    def native(u):
        with nat_lock:
            if u.name not in natives:
                natives[u.name] = compile_native(u, work)
                nat_stats["built"] = True
            return natives[u.name][0]

    def replay(n, u, fs):
        """runs the verifier's counterexamples on the real code"""
        for f in [f for f in fs if f.get("replay")][:6]:
            if time.time() > deadline or halt.is_set():
                return
            b = native(u)
            if not b:
                return
            rf = os.path.join(work, n + ".replay")
            open(rf, "w").write(f["replay"])
            nat_stats["replays"] += 1
            try:
                r = sh([b, n, "--replay", rf], timeout=30, env=env)
                rc, outp = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, outp = 9, "the real code did not finish within 30 s"
            if rc in (1, 2, 9) or rc < 0:
                nat_stats["confirmed"] += 1
                confirmed[n] = (f, f["replay"], outp)
                halt.set()
                return

    def one(c):
        n, u = c
        out = os.path.join(work, n + ".json")
        left = deadline - time.time()
        if halt.is_set():
            return n, u, {"error": "", "stopped": True}
        if left < 5:
            return n, u, {"error": "not started: out of time", "failures": [], "undecided": []}
        budget = min(left, 400 if tier == "quick" else 3000)
        cmd = [engine, u.bc, "--contract", n, "--out", out, "--repo", REPO, "--work", work,
               "--budget", str(int(budget))] + u.opts
        if tier == "thorough":
            cmd += ["--cross"]
        err = ""
        with open(out + ".err", "w") as ef:
            p = subprocess.Popen(["bash", "-c", 'ulimit -v 9000000; exec "$@"', "x"] + cmd,
                                 stdout=subprocess.DEVNULL, stderr=ef)
            end = time.time() + budget + 30
            while True:
                try:
                    p.wait(0.5)
                    break
                except subprocess.TimeoutExpired:
                    if halt.is_set() or time.time() > end:
                        p.kill()
                        p.wait()
                        err = "timeout"
                        break
        if halt.is_set() and not os.path.exists(out):
            return n, u, {"error": "", "stopped": True}
        try:
            d = json.load(open(out))
        except Exception:
            d = {"error": "verifier gave no result: " + (err or open(out + ".err", errors="replace").read()[-1500:]),
                 "failures": [], "undecided": []}
        d["wall"] = time.time() - T0
        if n.split("__", 2)[2] not in known:
            fs = [f for f in d.get("failures") or [] if f["verdict"] == "refuted"]
            if fs:
                replay(n, u, fs)
        return n, u, d

    # longest first would need history; contracts are independent
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for n, u, d in ex.map(one, contracts):
            results[n] = (u, d)

    findings_seen = []
    for n, (u, d) in results.items():
        short = n.split("__", 2)[2]
        fails = list(d.get("failures") or [])
        for x in d.get("undecided") or []:
            fails.append({"kind": "undecided", "verdict": "undecided", "msg": x, "loc": "", "replay": "",
                          "stack": []})
        if d.get("error"):
            fails.append({"kind": "engine", "verdict": "undecided", "msg": d["error"], "loc": "",
                          "replay": "", "stack": []})
        if short in known:
            # a contract that exhibits one recorded defect; it is expected to fail
            if any(f["verdict"] == "refuted" for f in fails):
                findings_seen.append((short, known[short]))
            continue
        for f in fails:
            problems.append((n, u, f))

    # ---- violations
    violations = []
    rep_dir = os.path.join(V, "replays")
    by_contract = {}
    for n, u, f in problems:
        by_contract.setdefault(n, (u, []))[1].append(f)
    order = sorted(by_contract.items(), key=lambda kv: 0 if any(
        f["verdict"] == "refuted" for f in kv[1][1]) else 1)
    if order:
        os.makedirs(rep_dir, exist_ok=True)
    if not confirmed:
        for n, (u, fs) in order:
            if n not in confirmed and not n.endswith("_compile"):
                replay(n, u, [f for f in fs if f["verdict"] != "refuted"])
    # ---- no confirmed counterexample: look for a failing input on the real code
    if order and not confirmed:
        todo = [(n, u) for n, (u, fs) in order if not n.endswith("_compile")]
        todo = todo[:48]
        for u in {id(u): u for n, u in todo}.values():
            native(u)
        secs = max(3.0, min(30.0, 160.0 / max(1, (len(todo) + JOBS - 1) // JOBS)))
        secs = min(secs, max(1.0, deadline + 60 - time.time()))

        def search(c):
            n, u = c
            b = natives[u.name][0]
            if not b or confirmed:
                return None
            of = os.path.join(work, n + ".found")
            try:
                r = sh([b, n, "--search", str(seed), str(secs), of], timeout=secs + 60, env=env)
            except subprocess.TimeoutExpired:
                return None
            m = re.search(r"in (\d+) trials|after (\d+) trials", r.stdout)
            if m:
                nat_stats["search_trials"] += int(m.group(1) or m.group(2))
            nat_stats["search_seconds"] += secs
            if r.returncode == 1 and os.path.exists(of):
                # the found input must fail again on its own
                try:
                    r2 = sh([b, n, "--replay", of], timeout=30, env=env)
                    rc, outp = r2.returncode, r2.stdout
                except subprocess.TimeoutExpired:
                    rc, outp = 9, "timeout"
                if rc in (1, 2, 9) or rc < 0:
                    confirmed[n] = (by_contract[n][1][0], open(of).read(), outp)
            return None
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(search, todo))

    for n, (f, rep, outp) in confirmed.items():
        p = os.path.join(rep_dir, n + ".txt")
        with open(p, "w") as o:
            o.write("# property %s, contract %s\n# failed obligation: [%s] %s\n# at %s\n" %
                    (prop, n, f["kind"], f["msg"], f["loc"]))
            o.write("# replay: native build of the contract, --replay this file (see native/runtime.cpp)\n")
            o.write(rep if rep.endswith("\n") else rep + "\n")
            for s in f.get("stack", []):
                o.write("# in " + s + "\n")
            o.write("# ---- real code, this input:\n")
            for l in outp[-6000:].splitlines():
                o.write("# " + l + "\n")
        violations.append((p, ""))
    if not confirmed:
        for n, (u, fs) in order[:5]:
            p = os.path.join(rep_dir, n + ".txt")
            with open(p, "w") as o:
                o.write("# property %s, contract %s\n" % (prop, n))
                o.write("# obligations the verifier does not accept; no failing input was found\n")
                for f in fs:
                    o.write("# [%s] %s (%s) %s\n" % (f["kind"], f["msg"], f["verdict"], f["loc"]))
                    for s in f.get("stack", []):
                        o.write("#     in " + s.replace("\n", "\n#     ") + "\n")
                    if f.get("replay"):
                        o.write("# unconfirmed counterexample of the verifier:\n")
                        o.write(f["replay"] if f["replay"].endswith("\n") else f["replay"] + "\n")
            violations.append((p, " no-failing-input-found"))

    # ---- thorough: also run the contracts on the real code (sanity of the specs)
    if tier == "thorough" and not violations:
        per = 2.0

        def soak(c):
            n, u = c
            b = natives[u.name][0]
            if not b or n.split("__", 2)[2] in known or time.time() > deadline:
                return
            of = os.path.join(work, n + ".found")
            try:
                r = sh([b, n, "--search", str(seed), str(per), of], timeout=per + 60, env=env)
            except subprocess.TimeoutExpired:
                return
            m = re.search(r"in (\d+) trials|after (\d+) trials", r.stdout)
            if m:
                nat_stats["search_trials"] += int(m.group(1) or m.group(2))
            nat_stats["search_seconds"] += per
            if r.returncode == 1 and os.path.exists(of):
                p = os.path.join(rep_dir, n + ".txt")
                os.makedirs(rep_dir, exist_ok=True)
                shutil.copy(of, p)
                violations.append((p, ""))
        for u in units:
            native(u)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(soak, contracts))

    if not os.environ.get("VERIF_NOEV"):     # development runs on scratch copies
        write_evidence(prop, tier, seed, engine, units, results, problems, known, findings_seen, nat_stats,
                       violations)
    for short, text in findings_seen:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    tot = sum(d.get("obligations", 0) for _, d in results.values())
    dis = sum(d.get("discharged", 0) for _, d in results.values())
    print("%s: %d contracts, %d obligations, %d discharged, %.1f s" %
          (prop, len(results), tot, dis, time.time() - T0))
    for p, tail in violations:
        print("VIOLATION property=%s replay=%s%s" % (prop, p, tail))
    return 1 if violations else 0


def write_evidence(prop, tier, seed, engine, units, results, problems, known, findings, nat, violations):
    agg = {}
    kinds = {}
    fns, models, inv, bounded = {}, set(), set(), set()
    lines = {}
    covers = {}
    bnd = []
    rules = []                              # // @bounded: <regex of contract names> | <bound>
    for n, (u, d) in results.items():
        for m in re.finditer(r"^// @bounded: *(.*?) \| (.*)$", open(u.path).read(), re.M):
            if (m.group(1), m.group(2)) not in rules:
                rules.append((m.group(1), m.group(2)))
    for n, (u, d) in results.items():
        short = n.split("__", 2)[2]
        b = next((t for r, t in rules if re.fullmatch(r, short)), None)
        if b:
            bnd.append({"contract": short, "bound": b, "obligations": d.get("obligations", 0),
                        "discharged": d.get("discharged", 0)})
        for k in ("obligations", "discharged", "trivial", "smt", "external", "cross", "paths", "queries"):
            agg[k] = agg.get(k, 0) + int(d.get(k) or 0)
        agg["solver_s"] = agg.get("solver_s", 0) + float(d.get("solver_s") or 0)
        for k, v in (d.get("kinds") or {}).items():
            kinds[k] = kinds.get(k, 0) + (v if isinstance(v, int) else 0)
        rf = d.get("repo_functions") or []
        for f in rf:
            fns[f] = fns.get(f, 0) + 1
        models |= set(d.get("models") or [])
        inv |= set(d.get("loops_by_invariant") or [])
        for b in d.get("loops_bounded") or []:
            bounded.add(b if isinstance(b, str) else json.dumps(b))
        covers[short] = d.get("covers")
    assumptions = json.load(open(os.path.join(V, "contracts", "trusted.json")))
    trusted = list(assumptions["all"]) + list(assumptions.get(prop, []))
    ob, di = agg.get("obligations", 0), agg.get("discharged", 0)
    ob -= sum(b["obligations"] for b in bnd)  # bounded checks are not counted as proved
    di -= sum(b["discharged"] for b in bnd)
    kn_ob = sum((d.get("obligations", 0) - d.get("discharged", 0)) for n, (u, d) in results.items()
                if n.split("__", 2)[2] in known)
    man = json.load(open(os.path.join(V, "MANIFEST.json")))
    level = next((c["level"] for c in man["checks"] if c["property"] == prop), "proof")
    cov = {
        "obligations": ob - kn_ob,
        "discharged": di,
        "checker_cmd": "python3 /verif/check.py %s %s (engine %s; z3 library, then z3-new and cvc5 for "
                       "queries with quantifiers)" % (prop, tier, os.path.basename(engine)),
        "trusted_base": trusted,
        "discharged_trivially_by_simplifier": agg.get("trivial", 0),
        "discharged_by_z3": agg.get("smt", 0),
        "discharged_by_external_solver_with_quantifiers": agg.get("external", 0),
        "cross_checked_by_cvc5": agg.get("cross", 0),
        "obligations_by_kind": kinds,
        "solver_seconds": round(agg.get("solver_s", 0), 2),
        "solver_queries": agg.get("queries", 0),
        "paths": agg.get("paths", 0),
        "contracts": sorted(n.split("__", 2)[2] for n in results),
        "functions_under_contract": sorted(fns),
        "models_used": sorted(models),
        "loops_by_invariant": sorted(inv),
        "loops_bounded": sorted(bounded),
        "native": nat,
        "known_findings": [t for _, t in findings],
        "bounded_contracts_not_counted": bnd,
        "not_accepted": [{"contract": n, "kind": f["kind"], "msg": f["msg"], "verdict": f["verdict"],
                          "loc": f["loc"]} for n, u, f in problems][:40],
    }
    if level == "exploration" or level == "other":
        cov["explanation"] = ("%d contracts whose every obligation is discharged by the verifier, but over structures of "
                              "a stated size (bounded_contracts_not_counted): %d of %d obligations; and %d contracts "
                              "without a bound." % (len(bnd), sum(b["discharged"] for b in bnd),
                                                    sum(b["obligations"] for b in bnd), len(results) - len(bnd)))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "wall_s": round(time.time() - T0, 2)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    p = os.path.join(V, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as o:
        json.dump(ev, o, indent=1)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    sys.exit(main())
