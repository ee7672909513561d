#!/usr/bin/env python3
"""Runs the solver-based check of one property: check.py ID [quick|thorough].

Builds the engine (if needed) and, from the current /repo, the bitcode of the
harnesses and the native replay programs; explores every harness of the
property symbolically; replays every counterexample and a sample of explored
paths natively; writes evidence/ID.json.

Exit 0: held within the bounds. 1: VIOLATION. 2: the check itself failed.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.normpath(os.path.join(ROOT, "..", "repo"))
BUILD = os.path.join(ROOT, ".build")
sys.path.insert(0, ROOT)
import props  # noqa: E402

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUST_BACKTRACE="1", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
    ENV.pop(k, None)


# Time for exploration: what is not explored by then is reported as such.
QUICK_S = 540
THOROUGH_S = 4 * 3600


class Broken(Exception):
    pass


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def files(d, exts=(".rs", ".toml", ".lock")):
    out = []
    for b, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ("target", ".git", "test_files", "test_source")]
        out += [os.path.join(b, f) for f in fs if f.endswith(exts)]
    return out


def sh(cmd, cwd, env=ENV, timeout=1200):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        raise Broken("%s failed in %s:\n%s" % (" ".join(cmd), cwd, r.stdout[-6000:]))
    return r.stdout


def engine():
    d = os.path.join(BUILD, "symex")
    sh(["cargo", "+stable", "build", "--release", "--offline", "--locked", "--target-dir", d], os.path.join(ROOT, "symex"))
    return os.path.join(d, "release", "symex")


def harness():
    """Bitcode and the two replay programs, keyed by the sources they come from."""
    src = files(os.path.join(ROOT, "harness")) + files(REPO)
    key = digest(src)
    d = os.path.join(BUILD, "h-" + key)
    # build output is kept for the three most recent trees only
    if os.path.isdir(BUILD):
        old = sorted((x for x in os.listdir(BUILD) if x.startswith("h-") and x != "h-" + key), key=lambda x: os.path.getmtime(os.path.join(BUILD, x)))
        for x in old[:-2]:
            shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    bc = os.path.join(d, "bc", "release", "deps", "harness.bc")
    dev = os.path.join(d, "n", "debug", "replay")
    user = os.path.join(d, "u", "user", "replay")
    cwd = os.path.join(ROOT, "harness")
    ok = os.path.join(d, "ok")
    if not os.path.exists(ok):
        e = dict(ENV, RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp")
        base = ["cargo", "+stable"]
        jobs = [
            (base + ["rustc", "--release", "--lib", "--crate-type", "cdylib", "--offline", "--locked", "--target-dir", d + "/bc", "--", "--emit=llvm-bc"], e),
            (base + ["build", "--offline", "--locked", "--features", "native", "--bin", "replay", "--target-dir", d + "/n"], ENV),
            (base + ["build", "--offline", "--locked", "--features", "native", "--bin", "replay", "--profile", "user", "--target-dir", d + "/u"], ENV),
        ]
        with cf.ThreadPoolExecutor(3) as ex:
            list(ex.map(lambda j: sh(j[0], cwd, j[1]), jobs))
        if not os.path.exists(bc):
            raise Broken("no bitcode at " + bc)
        open(ok, "w").close()
    os.utime(d)
    return bc, dev, user, key


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def native(exe, name, inputs, params, timeout=20):
    """(status, observed bytes, text) of one native run."""
    with tempfile.NamedTemporaryFile("w", suffix=".txt", delete=False) as f:
        for n, h in inputs:
            f.write("%s %s\n" % (n, h))
    try:
        r = subprocess.run([exe, name, f.name] + ["%d=%d" % p for p in params.items()], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, preexec_fn=limits)
        obs = None
        for l in r.stdout.splitlines():
            if l.startswith("OBS "):
                obs = l[4:]
            elif l == "OBS":
                obs = ""
        return r.returncode, obs, (r.stdout[-1500:] + r.stderr[-1500:])
    except subprocess.TimeoutExpired:
        return "timeout", None, "still running after %d s" % timeout
    finally:
        os.unlink(f.name)


def crosscheck(text, results):
    """Asks the other solvers about one query Z3 answered unsat."""
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text)
    try:
        for name, cmd in (("cvc5", ["cvc5", "--tlimit=20000"]), ("z3-new", ["z3-new", "-T:20"])):
            try:
                r = subprocess.run(cmd + [f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=40)
                a = r.stdout.strip().splitlines()[0] if r.stdout.strip() else "none"
            except (subprocess.TimeoutExpired, FileNotFoundError):
                a = "none"
            if a == "sat":
                raise Broken("%s disagrees with z3 on a discharged query:\n%s" % (name, text[:3000]))
            results.setdefault(name, {}).setdefault("unsat" if a == "unsat" else "no answer", 0)
            results[name]["unsat" if a == "unsat" else "no answer"] += 1
    finally:
        os.unlink(f.name)


class Pool:
    """Hands out cores."""

    def __init__(self, n):
        self.free = n
        self.cv = threading.Condition()

    def take(self, n):
        with self.cv:
            self.cv.wait_for(lambda: self.free >= n)
            self.free -= n

    def give(self, n):
        with self.cv:
            self.free += n
            self.cv.notify_all()


def merge(parts):
    m = parts[0]
    for p in parts[1:]:
        for k in ("paths", "assumed", "insts", "forks", "queries", "cache_hits", "unsat", "unknown", "solver_time", "decided", "retries"):
            m[k] += p[k]
        for k in ("max_steps", "max_query"):
            m[k] = max(m[k], p[k])
        for k in ("incomplete", "covers"):
            for a, b in p[k].items():
                m[k][a] = m[k].get(a, 0) + b
        for a, b in p["asserts"].items():
            c = m["asserts"].setdefault(a, [0, 0])
            c[0] += b[0]
            c[1] += b[1]
        for k in ("reports", "samples", "dump"):
            m[k] += p[k]
        for k in ("funcs", "locs"):
            m[k] = sorted(set(m[k]) | set(p[k]))
    return m


EMPTY = dict(paths=0, assumed=0, insts=0, forks=0, queries=0, cache_hits=0, unsat=0, unknown=0, solver_time=0, decided=0, retries=0, max_steps=0, max_query=0)


def explore(exe, bc, job, seed, tmp, i, pool, stop, deadline):
    w = job.get("workers", 1)
    pool.take(w)
    try:
        if stop.is_set():
            return None
        left = int(deadline - time.time())
        if left < 5:
            return dict(EMPTY, incomplete={"not started before the deadline": 1}, covers={}, asserts={}, reports=[], samples=[], dump=[], funcs=[], locs=[], z3="", wall=0)
        out = os.path.join(tmp, "%d.json" % i)
        cmd = [exe, "--bc", bc, "--harness", job["h"], "--workers", str(w), "--time", str(min(job.get("time", 500), left)), "--out", out, "--seed", str(seed + i), "--samples", str(job.get("samples", 3)), "--dump", str(job.get("dump", 1))]
        for k in ("rlimit", "steps", "split"):
            if k in job:
                cmd += ["--" + k, str(job[k])]
        if "values" in job:
            cmd += ["--max-values", str(job["values"])]
        for k, v in job["p"].items():
            cmd += ["--param", "%d=%d" % (k, v)]
        t = time.time()
        with tempfile.TemporaryFile("w+", errors="replace") as log:
            r = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
            gave_up = False
            while r.poll() is None:
                # A job that outlives its own limit, or the first report of
                # another one, by this much is not going to answer.
                over = time.time() > t + min(job.get("time", 500), left) + 45
                if over:
                    gave_up = True
                    os.killpg(r.pid, signal.SIGKILL)
                    r.wait()
                    break
                time.sleep(0.05)
            log.seek(0)
            r.stdout = log.read()
        if gave_up:
            return dict(EMPTY, incomplete={"stopped: over its time limit": 1}, covers={}, asserts={}, reports=[], samples=[], dump=[], funcs=[], locs=[], z3="", wall=time.time() - t)
        if r.returncode != 0:
            raise Broken("engine status %s on %s %s:\n%s" % (r.returncode, job["h"], job["p"], r.stdout[-3000:]))
        with open(out) as f:
            parts = [json.load(f)]
        extra = {k: parts[0][k] for k in ("module_insts", "module_funcs", "z3", "load_time")}
        for k in range(parts[0]["parts"]):
            with open("%s.%d" % (out, k)) as f:
                parts.append(json.load(f))
        m = merge(parts)
        m.update(extra)
        m["wall"] = time.time() - t
        if m["reports"]:
            stop.set()
        return m
    finally:
        pool.give(w)


def demangle(names):
    try:
        r = subprocess.run(["rustfilt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return r.stdout.splitlines()
    except FileNotFoundError:
        return names


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % pid):
                head, what = l.strip().split(" :: ", 1)
                out.append((head.split("replay=")[1].strip(), what))
    return out


def read_replay(path):
    h, params, inputs = None, {}, []
    for l in open(path):
        if l.startswith("# harness "):
            q = l.split()[2:]
            h = q[0]
            params = {int(a.split("=")[0]): int(a.split("=")[1]) for a in q[1:]}
        elif not l.startswith("#") and l.strip():
            q = l.split()
            inputs.append((q[0], q[1] if len(q) > 1 else ""))
    return h, params, inputs


def bad(status):
    return status not in (0, 77)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cores = min(8, os.cpu_count() or 1)
    t0 = time.time()
    prop = props.PROPS[pid]
    jobs = [j for j in prop["jobs"] if tier in j.get("tiers", ("quick", "thorough"))]
    with cf.ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(engine), ex.submit(harness)
        exe, (bc, dev, user, key) = a.result(), b.result()
    t_build = time.time() - t0
    rng = random.Random(seed)
    tmp = tempfile.mkdtemp(prefix="symex-")
    pool = Pool(cores)
    stop = threading.Event()
    results = []
    deadline = time.time() + (QUICK_S if tier == "quick" else THOROUGH_S)
    try:
        order = sorted(range(len(jobs)), key=lambda i: (-jobs[i].get("workers", 1), -jobs[i].get("cost", 1)))
        for j in jobs:
            j["workers"] = min(j.get("workers", 1), cores)
        with cf.ThreadPoolExecutor(max(1, len(jobs))) as ex:
            fs = [(jobs[i], ex.submit(explore, exe, bc, jobs[i], seed, tmp, i, pool, stop, deadline)) for i in order]
            results = [(j, f.result()) for j, f in fs]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    t_explore = time.time() - t0 - t_build

    # Counterexamples: each must reproduce in a native run of the real code.
    violations = []
    phantom = []
    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    seen = {}
    for j, m in results:
        for r in (m or {}).get("reports", []):
            k = (j["h"], r["kind"], r["msg"])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] > 3 or len(violations) >= 12:
                continue
            runs = {}
            for n, e in (("dev", dev), ("release", user)):
                runs[n] = native(e, j["h"], r["inputs"], j["p"])
            hit = [n for n in runs if bad(runs[n][0])]
            name = "%s-%s.txt" % (pid, hashlib.sha256(json.dumps([j["h"], sorted(j["p"].items()), r["inputs"]]).encode()).hexdigest()[:10])
            path = os.path.join(rdir, name)
            with open(path, "w") as f:
                f.write("# harness %s %s\n" % (j["h"], " ".join("%d=%d" % p for p in j["p"].items())))
                f.write("# property %s: %s: %s\n" % (pid, r["kind"], r["msg"]))
                for t in r["trace"][:8]:
                    f.write("#   at %s\n" % t)
                f.write("# native: %s\n" % {n: runs[n][0] for n in runs})
                f.write("# rerun: cd harness && cargo +stable run --features native --bin replay -- %s FILE %s\n" % (j["h"], " ".join("%d=%d" % p for p in j["p"].items())))
                for n, h in r["inputs"]:
                    f.write("%s %s\n" % (n, h))
            if hit:
                violations.append((path, r, runs))
            else:
                phantom.append((path, r, runs))

    # Listed findings: shown by their own concrete input.
    for path, what in known_findings(pid):
        h, params, inputs = read_replay(os.path.join(ROOT, path))
        if any(bad(native(e, h, inputs, params)[0]) for e in (dev, user)):
            print("KNOWN-FINDING: property=%s %s" % (pid, what))

    validated = 0
    samples = []
    mismatch = []
    cross = {}
    if not violations:
        todo = []
        for j, m in results:
            for s in m["samples"] if m else []:
                todo.append((j, s))
        rng.shuffle(todo)
        todo = todo[: prop.get("validate", 160)]

        def one(t):
            j, s = t
            return t, native(user, j["h"], s["inputs"], j["p"])

        with cf.ThreadPoolExecutor(cores) as ex:
            for (j, s), (st, obs, text) in ex.map(one, todo):
                if st != 0 or obs != s["obs"]:
                    mismatch.append((j, s, st, obs, text))
                else:
                    validated += 1
                    if len(samples) < 6:
                        samples.append({"harness": j["h"], "params": j["p"], "inputs": dict(s["inputs"]), "output": s["obs"][:600], "covers": s["covers"]})
            dumps = [d for _, m in results if m for d in m["dump"]]
            rng.shuffle(dumps)
            list(ex.map(lambda d: crosscheck(d, cross), dumps[: prop.get("cross", 12)]))

    tot = merge([dict(json.loads(json.dumps(m))) for _, m in results if m]) if any(m for _, m in results) else None
    errors = []
    left = []
    if not violations:
        for p in phantom:
            if p[1]["kind"] == "allocation":
                left.append("a large allocation was refused and survived: %s" % p[0])
                continue
            if p[1]["kind"] == "steps":
                left.append("a path was given up after too many steps (it terminates natively): %s" % p[0])
                continue
            errors.append("counterexample does not reproduce natively: %s: %s (%s)" % (p[1]["kind"], p[1]["msg"], p[0]))
        for j, s, st, obs, text in mismatch[:5]:
            errors.append("native run disagrees with the engine on %s %s: status %s\n%s\n%s\nengine %s\nnative %s" % (j["h"], j["p"], st, s["inputs"], text, s["obs"], obs))
        for j, m in results:
            if m is None:
                continue
            if m["incomplete"] or m["unknown"]:
                left.append("%s %s %s unknown=%d after %.0f s" % (j["h"], j["p"], m["incomplete"], m["unknown"], m["wall"]))
                if not m["paths"] and m["wall"] and not tot["paths"]:
                    errors.append("no path completed: %s %s %s" % (j["h"], j["p"], m["incomplete"]))
                continue
            for c in j.get("covers", []):
                if not m["covers"].get(c):
                    errors.append("vacuous: %s %s never reached '%s'" % (j["h"], j["p"], c))
        for c in prop.get("covers", []):
            if not tot["covers"].get(c) and not left:
                errors.append("vacuous: never reached '%s'" % c)

    wall = time.time() - t0
    if tot:
        funcs = sorted(set(f for f in demangle(tot["funcs"]) if "lunify" in f))
        lines = {}
        for l in tot["locs"]:
            f, n = l.rsplit(":", 1)
            if "/repo/src/" in f or f.startswith("src/") or "repo/src" in f:
                lines.setdefault(f.split("repo/")[-1], []).append(int(n))
        ev = {
            "property": pid,
            "tier": tier,
            "seed": seed,
            "level": "model_checking",
            "coverage": {
                "states": tot["paths"] + tot["assumed"] + sum(len(m["reports"]) for _, m in results if m),
                "transitions": tot["insts"],
                "traces_validated_against_impl": validated,
                "samples": samples or [{"counterexample": v[1]["msg"], "inputs": dict(v[1]["inputs"])} for v in violations[:3]] or ["none"],
                "exhaustive": not errors and not violations and not left,
                "not_explored": left,
                "what_states_are": "symbolic execution paths, each standing for every input that satisfies its path condition; transitions are LLVM IR instructions executed symbolically",
                "bounds": prop["bounds"],
                "outside_the_bounds": prop.get("outside", ""),
                "functions_encoded": funcs,
                "source_lines_encoded": {f: len(set(n)) for f, n in sorted(lines.items())},
                "forks": tot["forks"],
                "paths_completed": tot["paths"],
                "paths_pruned_by_assumption": tot["assumed"],
                "longest_path_instructions": tot["max_steps"],
                "assertions": {k: {"decided_by_solver": v[0], "decided_by_simplification": v[1]} for k, v in sorted(tot["asserts"].items())},
                "covered_situations": tot["covers"],
                "solver": {"name": next((m["z3"] for _, m in results if m and m["z3"]), ""), "queries": tot["queries"], "unsat": tot["unsat"], "unknown": tot["unknown"], "cache_hits": tot["cache_hits"], "branches_decided_by_intervals": tot["decided"], "repeated_in_a_fresh_solver": tot["retries"], "time_s": round(tot["solver_time"], 2), "longest_query_s": tot["max_query"], "cross_checked": cross},
                "configurations": len([1 for _, m in results if m]),
                "harnesses": [{"harness": j["h"], "params": j["p"], "paths": m["paths"], "queries": m["queries"], "wall_s": round(m["wall"], 1)} for j, m in results if m],
                "source_digest": key,
                "build_s": round(t_build, 1),
                "exploration_s": round(t_explore, 1),
            },
            "assumptions": prop.get("assumptions", []) + props.COMMON_ASSUMPTIONS,
            "wall_s": round(wall, 1),
            "violations": len(violations),
        }
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    if violations:
        for path, r, runs in violations:
            print("%s: %s" % (r["kind"], r["msg"]))
            for t in r["trace"][:4]:
                print("    at %s" % t)
            print("    inputs %s" % dict(r["inputs"]))
            print("    native: %s" % {n: runs[n][0] for n in runs})
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for e in errors[:20]:
            print("CHECK-ERROR " + e)
        return 2
    for l in left[:20]:
        print("NOT-FULLY-EXPLORED " + l)
    print("%s holds %s: %d paths, %d queries (%.1f s solver), %d assertions decided, %d native runs agree, %.0f s" % (pid, "on everything explored" if left else "within its bounds", tot["paths"], tot["queries"], tot["solver_time"], sum(sum(v) for v in tot["asserts"].values()), validated, wall))
    return 0


if __name__ == "__main__":
    try:
        if sys.argv[1:] == ["--setup"]:
            print(engine(), *harness())
            sys.exit(0)
        sys.exit(main())
    except Broken as e:
        print("CHECK-ERROR %s" % e)
        sys.exit(2)
