#!/usr/bin/env python3
"""Decides one property: compiles the harnesses against /repo's working tree, executes them symbolically and judges.

  check.py <property> [--tier quick|thorough] [--only regex] [--repo DIR] [--keep]
  check.py <property> --replay FILE      replays a recorded counterexample against the real code

Exit status: 0 the property held on everything explored, 1 violation (with a VIOLATION line), 2 no verdict.
"""
import argparse
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import jobs  # noqa: E402

CLANG = "/usr/bin/clang++-18"
ENGINE = os.path.join(HERE, "build", "csx")
CORES = 8
procs = set()
plock = threading.Lock()
stopping = threading.Event()


def run(cmd, timeout, env=None, cwd=None):
    """Runs a command that is ended when the check stops; returns (rc, output), rc None on timeout."""
    if stopping.is_set():
        return -999, ""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True)
    with plock:
        procs.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        kill(p)
        out, _ = p.communicate()
        return None, out.decode("utf-8", "replace")
    finally:
        with plock:
            procs.discard(p)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def stop_all():
    stopping.set()
    with plock:
        for p in list(procs):
            kill(p)


class Unit:
    """One harness file compiled in one configuration."""

    def __init__(self, job, ctx):
        self.ctx, self.file, self.std, self.exc = ctx, job["file"], job["std"], job["exc"]
        self.defs = dict(job.get("defs", {}))
        if job.get("tags"):
            self.defs["VX_TAGS"] = job["tags"]
        if job.get("gate"):
            self.defs["VX_GATE"] = 1
        self.threads = bool(job.get("threads"))
        self.key = hashlib.sha1(repr((self.file, self.std, self.exc, self.threads, sorted(self.defs.items()))).encode()).hexdigest()[:12]
        self.lock = threading.Lock()
        self.bc = self.native = self.msan = None

    def flags(self):
        f = ["-std=c++%d" % self.std, "-DCETL_ENABLE_DEBUG_ASSERT", "-I" + HERE + "/harness", "-I" + self.ctx.repo + "/include", "-w"]
        if not self.exc:
            f.append("-fno-exceptions")
        return f + ["-D%s=%s" % kv for kv in sorted(self.defs.items())]

    def describe(self):
        return "%s c++%d %s %s" % (self.file, self.std, "exceptions" if self.exc else "no-exceptions",
                                   " ".join("%s=%s" % kv for kv in sorted(self.defs.items())))

    def bitcode(self):
        with self.lock:
            if self.bc is None:
                out = os.path.join(self.ctx.tmp, self.key + ".bc")
                # thread harnesses: the compiler's own instrumentation marks every shared access, the harness turns each mark into a scheduling point
                extra = ["-fsanitize=thread"] if self.threads else ["-fsanitize-address-use-after-scope"]
                rc, log = run([CLANG] + self.flags() + ["-g1", "-O0", "-Xclang", "-disable-O0-optnone"] + extra + ["-fno-discard-value-names", "-emit-llvm", "-c", os.path.join(HERE, "harness", self.file), "-o", out], 300)
                if rc != 0:
                    raise RuntimeError("cannot compile %s\n%s" % (self.describe(), log[-3000:]))
                self.bc = out
            return self.bc

    def binary(self, msan=False):
        with self.lock:
            have = self.msan if msan else self.native
            if have is None and self.threads:
                obj = os.path.join(self.ctx.tmp, self.key + ".o")
                have = self.native = self.msan = os.path.join(self.ctx.tmp, self.key + ".nat")
                for cmd in ([CLANG] + self.flags() + ["-DVX_NATIVE", "-g", "-O0", "-fsanitize=thread", "-c", os.path.join(HERE, "harness", self.file), "-o", obj],
                            [CLANG] + self.flags() + ["-DVX_NATIVE", "-g", "-O0", obj, os.path.join(HERE, "harness", "vx_native.cpp"), "-o", have]):
                    rc, log = run(cmd, 300)
                    if rc != 0:
                        raise RuntimeError("cannot compile native %s\n%s" % (self.describe(), log[-3000:]))
            if have is None:
                have = os.path.join(self.ctx.tmp, self.key + (".msan" if msan else ".nat"))
                san = ["-fsanitize=memory", "-fsanitize-memory-use-after-dtor"] if msan else \
                    ["-fsanitize=address,alignment,bool,enum,integer-divide-by-zero,shift,unreachable,return,null,vptr" if self.exc and self.rtti() else
                     "-fsanitize=address,alignment,bool,enum,integer-divide-by-zero,shift,unreachable,return,null",
                     "-fno-sanitize-recover=all", "-fsanitize-address-use-after-scope"]
                rc, log = run([CLANG] + self.flags() + ["-DVX_NATIVE", "-g", "-O1", "-fno-omit-frame-pointer"] + san +
                              [os.path.join(HERE, "harness", self.file), os.path.join(HERE, "harness", "vx_native.cpp"), "-o", have], 300)
                if rc != 0:
                    raise RuntimeError("cannot compile native %s\n%s" % (self.describe(), log[-3000:]))
                if msan:
                    self.msan = have
                else:
                    self.native = have
            return have

    def rtti(self):
        return False

    def replay(self, entry, inputs, msan=False, timeout=20):
        """Runs the real code on recorded inputs; returns (verdict, output)."""
        fd, path = tempfile.mkstemp(dir=self.ctx.tmp)
        with os.fdopen(fd, "w") as f:
            f.write("\n".join(str(v) for _, v in inputs))
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=1:detect_stack_use_after_return=1:exitcode=77:allocator_may_return_null=1",
                   UBSAN_OPTIONS="exitcode=78:halt_on_error=1", MSAN_OPTIONS="exitcode=79:poison_in_dtor=1")
        rc, out = run([self.binary(msan), entry, path], timeout, env=env)
        os.unlink(path)
        if rc is None:
            return "hang", out
        names = {0: "ok", 3: "assert", 4: "assumption", 5: "exhausted", 6: "terminate", 7: "leak", 9: "usage", 77: "asan", 78: "ubsan", 79: "msan"}
        if rc in names:
            return names[rc], out
        return "crash(%d)" % rc, out


CONFIRMS = ("assert", "terminate", "leak", "asan", "ubsan", "msan", "hang")


def confirm(unit, entry, err):
    """Does the real code fail on this counterexample?"""
    v, out = unit.replay(entry, err["inputs"])
    if v in CONFIRMS or v.startswith("crash"):
        return v, out
    if err["kind"] in ("uninitialised", "memory") or err.get("tainted"):
        v2, out2 = unit.replay(entry, err["inputs"], msan=True)
        if v2 in CONFIRMS or v2.startswith("crash"):
            return v2, out2
    return None, "%s: %s" % (v, out[-400:])


class Ctx:
    pass


def shard_list(job):
    n = job.get("shards", 1)
    return [(i, n) for i in range(n)] if n > 1 else [None]


def run_engine(unit, job, entry, shard, deadline):
    bc = unit.bitcode()
    left = deadline - time.time()
    if left < 5 or stopping.is_set():
        return {"complete": False, "timeout": True, "skipped": True}
    out = os.path.join(unit.ctx.tmp, "r%s-%s-%s.json" % (unit.key, entry, "all" if shard is None else "%d_%d" % shard))
    cmd = [ENGINE, bc, "--entry", "vxh_" + entry, "--out", out, "--src", unit.ctx.repo + "/include", "--max-time", str(int(left)),
           "--max-errors", "12", "--samples", str(job.get("samples", 3)), "--mem-mb", "3600"]
    cmd += job.get("csx", [])
    if shard is not None:
        cmd += ["--shard", str(shard[0]), str(shard[1])]
    rc, log = run(cmd, left + 60)
    if not os.path.exists(out):
        return {"complete": False, "failed": "engine rc=%s %s" % (rc, log[-400:])}
    with open(out) as f:
        r = json.load(f)
    os.unlink(out)
    return r


def load_known():
    res = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) entry=(\S+) match=/(.*?)/ (.*)", line)
            if m:
                res.append({"property": m.group(1), "entry": m.group(2), "match": m.group(3), "text": m.group(4).strip()})
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only", default="")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--replay", default="")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = Ctx()
    ctx.repo = os.path.abspath(a.repo)
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    rc, log = run(["bash", os.path.join(HERE, "setup.sh")], 1500)
    if rc != 0:
        print(log)
        print("ERROR: cannot build the engine")
        return 2
    ctx.tmp = tempfile.mkdtemp(prefix="run-%s-" % a.property, dir=os.path.join(HERE, "build"))
    try:
        if a.replay:
            return replay_file(ctx, a)
        return decide(ctx, a, seed, t0)
    finally:
        stop_all()
        if not a.keep:
            shutil.rmtree(ctx.tmp, ignore_errors=True)


def replay_file(ctx, a):
    with open(a.replay) as f:
        r = json.load(f)
    u = Unit(r["job"], ctx)
    print("replaying %s (%s) against %s" % (r["entry"], u.describe(), ctx.repo))
    for n, v in r["inputs"]:
        print("  %s = %s" % (n, v))
    print("found by the solver: %s: %s at %s:%s" % (r["kind"], r["msg"], r["file"], r["line"]))
    how, out = confirm(u, r["entry"], r)
    print(out[-3000:])
    if how:
        print("VIOLATION property=%s replay=%s" % (r["property"], a.replay))
        return 1
    print("does not fail on this tree")
    return 0


def decide(ctx, a, seed, t0):
    pid = a.property
    plan = [j for j in jobs.plan(pid, a.tier) if re.search(a.only, j["entry"])]
    if not plan:
        print("ERROR: no jobs for", pid)
        return 2
    budget = jobs.BUDGET[a.tier]
    deadline = t0 + budget
    units = {}
    work = []
    for j in plan:
        u = Unit(j, ctx)
        u = units.setdefault(u.key, u)
        for s in shard_list(j):
            work.append((j, u, s))
    # long jobs first
    work.sort(key=lambda w: -w[0].get("cost", 5))
    known = [k for k in load_known() if k["property"] == pid]
    results, notes, violations = [], [], []
    printed_known = set()
    validated = mismatched = 0

    def one(w):
        j, u, s = w
        try:
            r = run_engine(u, j, j["entry"], s, deadline)
        except RuntimeError as e:
            r = {"complete": False, "failed": str(e)}
        val = bad = 0
        why = ""
        if not r.get("errors") and not stopping.is_set() and r.get("complete"):
            # sampled paths: the real code must take the same decisions and log the same values
            for sm in r.get("samples", []):
                try:
                    v, out = u.replay(j["entry"], sm["inputs"])
                except RuntimeError as e:
                    return w, r, val, 1, str(e)
                if stopping.is_set():
                    break
                m = re.search(r"^LOG(.*)$", out, re.M)
                lg = m.group(1).split() if m else None
                if v == "ok" and lg == [str(x) for x in sm["log"]]:
                    val += 1
                else:
                    bad += 1
                    why = "%s %s: native %s %s, engine log %s, inputs %s" % (j["entry"], u.describe(), v, out[-300:], sm["log"], sm["inputs"])
        return w, r, val, bad, why

    with cf.ThreadPoolExecutor(CORES) as ex:
        futs = [ex.submit(one, w) for w in work]
        for f in cf.as_completed(futs):
            (j, u, s), r, val, bad, why = f.result()
            if stopping.is_set() and violations:
                continue
            validated += val
            mismatched += bad
            if bad:
                notes.append("MISMATCH between executor and real code: " + why)
            results.append((j, u, s, r))
            if a.verbose:
                print("%6.1fs %-24s %s paths=%s err=%s q=%s solver=%.1f wall=%.1f complete=%s" % (
                    time.time() - t0, j["entry"], u.describe(), r.get("paths"), r.get("paths_error"), r.get("queries"), r.get("solver_s", 0), r.get("wall_s", 0), r.get("complete")), flush=True)
            errs = r.get("errors", [])
            if j.get("gate"):
                errs = [e for e in errs if any(n in ("oom", "throw", "refuse") and str(v) == "1" for n, v in e["inputs"])]
            kf = [k for k in known if k["entry"] == j["entry"]]
            tried = 0
            for e in errs:
                if e["kind"] == "assert" and e["msg"].startswith("harness:"):
                    notes.append("harness limit: %s: %s" % (j["entry"], e["msg"]))
                    continue
                if tried >= 6:
                    break
                tried += 1
                try:
                    how, out = confirm(u, j["entry"], e)
                except RuntimeError as x:
                    notes.append(str(x))
                    break
                if not how:
                    notes.append("counterexample not reproduced on the real code: %s %s: %s (%s)" % (j["entry"], e["kind"], e["msg"], out))
                    continue
                same = [k for k in kf if re.search(k["match"], "%s: %s" % (e["kind"], e["msg"]))]
                if same:
                    for k in same:
                        if k["text"] not in printed_known:
                            printed_known.add(k["text"])
                            print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
                    continue
                violations.append((j, u, e, how, out))
                break
            if violations:
                stop_all()
                for x in futs:
                    x.cancel()
                break
    stopping_done = bool(violations)

    # verdict
    incomplete = []
    for j, u, s, r in results:
        if not r.get("complete"):
            if j.get("known") and r.get("errors"):
                continue
            incomplete.append("%s (%s)%s: %s" % (j["entry"], u.describe(), "" if s is None else " shard %d/%d" % s,
                              r.get("failed") or ("timeout" if r.get("timeout") else "memory" if r.get("memout") else "unsupported %s" % r.get("unsupported"))))
    # vacuity: every entry must reach its end (over all shards)
    reach = {}
    for j, u, s, r in results:
        d = reach.setdefault((j["entry"], u.key), (j, {}))[1]
        for k, v in r.get("reach", {}).items():
            d[k] = d.get(k, 0) + v
    vacuous = []
    if not stopping_done:
        for (en, key), (j, d) in reach.items():
            for lab in j.get("reach", ["end"]):
                if not d.get(lab):
                    vacuous.append("%s never reached '%s'" % (en, lab))
    write_evidence(ctx, a, seed, t0, plan, results, validated, mismatched, violations, incomplete, vacuous, reach, notes, known, printed_known)

    for n in notes:
        print("note:", n)
    if violations:
        j, u, e, how, out = violations[0]
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (pid, j["entry"]))
        with open(path, "w") as f:
            json.dump({"property": pid, "entry": j["entry"], "job": {k: j[k] for k in ("file", "std", "exc", "defs", "tags", "gate", "threads") if k in j}, "inputs": e["inputs"],
                       "kind": e["kind"], "msg": e["msg"], "file": e["file"], "line": e["line"], "stack": e["stack"], "confirmed_by": how, "native_output": out[-4000:]}, f, indent=1)
        print("%s: %s (%s:%s), reproduced on the real code: %s" % (e["kind"], e["msg"], e["file"], e["line"], how))
        print("in %s [%s] with %s" % (j["entry"], u.describe(), " ".join("%s=%s" % (n, v) for n, v in e["inputs"])))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if incomplete or vacuous or mismatched or any(n.startswith(("counterexample not", "harness limit", "cannot")) for n in notes):
        for x in incomplete + vacuous:
            print("INCONCLUSIVE:", x)
        return 2
    print("OK property=%s %d entries, %d paths, %.0f s" % (pid, len(reach), sum(r.get("paths", 0) for _, _, _, r in results), time.time() - t0))
    return 0


def short_name(f):
    """A function's name without template arguments and parameters."""
    out, depth, op = [], 0, f.replace("operator<=>", "operator@c").replace("operator<<", "operator@l").replace("operator>>", "operator@r").replace("operator->", "operator@a") \
        .replace("operator<=", "operator@e").replace("operator>=", "operator@g").replace("operator<", "operator@s").replace("operator>", "operator@b")
    for c in op.replace("(anonymous namespace)", "@n"):
        if c == "<":
            if depth == 0:
                out.append("<>")
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out.append(c)
    r = "".join(out)
    r = re.sub(r"\(.*", "", r.replace("decltype(auto)", "auto").replace("operator()", "operator@p"))
    for k, v in (("@c", "<=>"), ("@l", "<<"), ("@r", ">>"), ("@a", "->"), ("@e", "<="), ("@g", ">="), ("@s", "<"), ("@b", ">"), ("@p", "()"), ("@n", "(anonymous namespace)")):
        r = r.replace(k, v)
    return r.strip()[:200]


def write_evidence(ctx, a, seed, t0, plan, results, validated, mismatched, violations, incomplete, vacuous, reach, notes, known, printed):
    tot = lambda k: sum(r.get(k, 0) or 0 for _, _, _, r in results)
    fns, lines, samples, entries = set(), {}, [], []
    for j, u, s, r in results:
        fns.update(r.get("functions", []))
        for f, d in r.get("lines", {}).items():
            c = lines.setdefault(f, [set(), set()])
            c[0].update(d["seen"] if isinstance(d["seen"], list) else [])
            c[1].update(d["covered"] if isinstance(d["covered"], list) else [])
        if r.get("samples") and len(samples) < 12:
            sm = r["samples"][-1]
            samples.append({"harness": j["entry"], "configuration": u.describe(), "inputs": dict_list(sm["inputs"]), "log": sm["log"][:16]})
        entries.append({"harness": j["entry"], "configuration": u.describe(), "shard": s, "bounds": j.get("bounds", ""), "complete": bool(r.get("complete")),
                        "paths": r.get("paths"), "instructions": r.get("steps"), "assertions": r.get("asserts"), "assertions_over_symbolic_values": r.get("asserts_symbolic"),
                        "memory_checks": r.get("mem_checks"), "queries": r.get("queries"), "query_cache_hits": r.get("cache_hits"), "sat": r.get("sat"), "unsat": r.get("unsat"),
                        "solver_s": r.get("solver_s"), "wall_s": r.get("wall_s"), "reach": r.get("reach")})
    ev = {
        "property": a.property, "tier": a.tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("steps"), "traces_validated_against_impl": validated, "samples": samples or [{"note": "run ended by a violation"}],
            "explanation": "states = symbolic paths, each standing for all inputs satisfying its path condition; transitions = LLVM instructions executed symbolically; "
                           "traces = solver models of paths replayed on a native build of the same harness with equal observations",
            "forks": tot("forks"), "merged_branches": tot("merges"), "assertions_checked": tot("asserts"), "assertions_decided_by_solver": tot("assert_queries"), "memory_accesses_checked": tot("mem_checks"),
            "queries": tot("queries"), "queries_cached": tot("cache_hits"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"),
            "solver_s": round(tot("solver_s"), 2), "engine_s": round(tot("wall_s"), 2),
            "functions_encoded": sorted({short_name(f) for f in fns}), "functions_encoded_count": len(fns),
            "library_lines": {f: {"executable": len(c[0]), "executed": len(c[1])} for f, c in sorted(lines.items())},
            "bounds": sorted({"%s: %s" % (j["entry"], j.get("bounds", "")) for j in plan}),
            "harnesses": entries, "exhaustive": not incomplete and not violations,
            "incomplete": incomplete, "vacuous": vacuous, "executor_mismatches": mismatched, "notes": notes[:20],
            "known_findings_reported": sorted(printed), "outside_bounds": jobs.OUTSIDE.get(a.property, jobs.OUTSIDE["*"]),
        },
        "assumptions": jobs.ASSUMPTIONS + jobs.EXTRA_ASSUMPTIONS.get(a.property, []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", a.property + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def dict_list(inputs):
    return ["%s=%s" % (n, v) for n, v in inputs[:60]]


if __name__ == "__main__":
    sys.exit(main())
