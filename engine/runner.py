"""Builds the IR from /repo, runs the jobs of one property in parallel, replays counterexamples."""
import fcntl
import glob
import json
import multiprocessing as mp
import os
import re
import signal
import struct
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, ".build")
EVID = os.path.join(ROOT, "evidence")
REPLAY_BIN = os.path.join(BUILD, "target", "debug", "replay")


class Job:
    def __init__(self, entry, *params, budget=150, steps=3_000_000, paths=200000, note=None):
        self.entry = entry
        self.params = list(params)
        self.budget = budget
        self.steps = steps
        self.paths = paths
        self.note = note

    @property
    def name(self):
        return ",".join([self.entry] + [str(p) for p in self.params])


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["bash", os.path.join(ROOT, "build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stdout.write(r.stdout.decode(errors="replace")[-4000:])
        return None
    ll = sorted(glob.glob(os.path.join(BUILD, "target/ir/deps/harness-*.ll")), key=os.path.getmtime)
    return ll[-1] if ll else None


def _worker(conn, ll, job, seed):
    os.setsid()
    try:
        from . import explore as X
        from . import solver as S
        S.die_with_parent()
        from .ir import Module
        from .rt import RT
        X.SEED = seed
        S.PROC = S.Proc()
        if job.entry.startswith("py_"):
            from .pyfront import PyMod, PyRT
            rt = PyRT(max_steps=job.steps)
            mod = PyMod(rt)
        else:
            mod = Module(ll)
            rt = RT(mod, max_steps=job.steps)
        r = X.explore(mod, rt, job.entry, job.params, budget_s=job.budget, max_paths=job.paths)
        conn.send(r.__dict__)
    except BaseException as e:       # noqa
        import traceback
        try:
            conn.send({"crash": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])})
        except Exception:
            pass
    finally:
        conn.close()


def _killpg(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def run_jobs(ll, jobs, seed, nproc=8, deadline=None, stop=None, on_result=None):
    """-> {job.name: result dict}"""
    ctx = mp.get_context("fork")
    todo = list(jobs)
    live = []
    out = {}
    stopped = False
    while todo or live:
        while todo and len(live) < nproc and not stopped:
            j = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(b, ll, j, seed), daemon=False)
            p.start()
            b.close()
            live.append((j, p, a, time.time()))
        if stopped:
            todo = []
        time.sleep(0.02)
        for it in list(live):
            j, p, a, t0 = it
            res = None
            if a.poll(0):
                try:
                    res = a.recv()
                except EOFError:
                    res = {"crash": "worker died"}
            elif not p.is_alive():
                res = {"crash": "worker died (exit %s)" % p.exitcode}
            elif time.time() - t0 > j.budget + 120 or (deadline and time.time() > deadline):
                res = {"crash": "time limit"}
            elif stopped:
                res = {"skipped": True}
            if res is not None:
                live.remove(it)
                _killpg(p.pid)
                p.join(2)
                if p.is_alive():
                    p.kill()
                    p.join()
                a.close()
                out[j.name] = res
                if on_result:
                    on_result(j, res)
                if stop and stop(j, res):
                    stopped = True
    return out


# --- native replay ------------------------------------------------------------
def tokens(inputs):
    lines = []
    for k, v in inputs:
        if k == "f":
            lines.append("f %016x" % struct.unpack("<Q", struct.pack("<d", v))[0])
        else:
            lines.append("%s %d" % (k, v))
    return "\n".join(lines) + "\n"


def replay(entry, params, inputs, path, timeout=10):
    with open(path, "w") as f:
        f.write(tokens(inputs))
    try:
        cmd = [sys.executable, os.path.join(ROOT, "pyreplay.py")] if entry.startswith("py_") else [REPLAY_BIN]
        r = subprocess.run(cmd + [entry, path] + [str(p) for p in params], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=timeout)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", ""


def confirm(job, v, path):
    """does the counterexample fail on the real code?  -> (bool, description)"""
    last = ""
    for iv in v["candidates"]:
        code, out = replay(job.entry, job.params, iv, path)
        last = "exit %s" % code
        if v["label"] == "termination":
            if code == "timeout":
                return True, "does not terminate natively (10 s)"
            continue
        if code == 10:
            fails = re.findall(r"^CHECK (.*?) FAIL ?(.*)$", out, re.M)
            if any(f[0] == v["label"] for f in fails):
                d = [f for f in fails if f[0] == v["label"]][0]
                return True, "%s: %s" % d
            last = "exit 10 at another check: %s" % (fails[:1],)
        elif code == 11:
            m = re.search(r"^PANIC (.*)$", out, re.M)
            return True, "panic: %s" % (m.group(1)[:200] if m else "")
        elif code == "timeout":
            return True, "does not terminate natively (10 s)"
    return False, last


def validate(job, w, path):
    """compare a path witness with the native run: 'ok' | 'differs' """
    code, out = replay(job.entry, job.params, w["inputs"], path)
    if code != 0:
        return "differs"
    obs = re.findall(r"^OBS (.*) (\S+)$", out, re.M)
    if len(obs) != len(w["observed"]):
        return "differs"
    for (l, x), (l2, y) in zip(obs, w["observed"]):
        x = float(x)
        if l != l2 or not (x == y or abs(x - y) <= 1e-6 * max(1.0, abs(x), abs(y)) or (x != x and y != y)):
            return "differs"
    return "ok"


# --- known findings -------------------------------------------------------------
def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) job=(\S+) label=\"([^\"]*)\" (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def run_property(prop, spec, tier, seed, deadline_s):
    t0 = time.time()
    python_only = all(j.entry.startswith("py_") for j in spec["quick"] + spec.get("thorough", []))
    ll = "" if python_only else build()
    if ll is None:
        print("ERROR: /repo does not build with the harness")
        return 2
    t_build = time.time() - t0
    jobs = list(spec["quick"]) + (list(spec.get("thorough", [])) if tier == "thorough" else [])
    byname = {j.name: j for j in jobs}
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    known = known_findings(prop)
    confirmed, unconfirmed, hits = [], [], []
    tmp = os.path.join(rdir, "%s.tmp" % prop)

    def on_result(j, r):
        if os.environ.get("VERBOSE"):
            print("  %-50s %s" % (j.name, summary(r)), flush=True)
        for k, v in enumerate(r.get("violations", [])):
            ok, how = confirm(j, v, tmp)
            kf = [x for x in known if x[0] == j.name and x[1] == v["label"]]
            if kf:
                # a listed finding: reported when reproduced, nothing else to decide about it
                if ok and kf[0] not in hits:
                    hits.append(kf[0])
            elif ok:
                path = os.path.join(rdir, "%s-%d.txt" % (prop, len(confirmed)))
                os.replace(tmp, path)
                with open(path, "a") as f:
                    f.write("# replay: bash %s/replay.sh %s\n# entry: %s\n# params: %s\n# label: %s\n# native: %s\n" % (
                        ROOT, path, j.entry, " ".join(map(str, j.params)), v["label"], how))
                confirmed.append(dict(job=j.name, label=v["label"], native=how, replay=path))
            else:
                unconfirmed.append(dict(job=j.name, label=v["label"], why=v["why"], native=how,
                                        candidates=len(v["candidates"])))

    res = run_jobs(ll, jobs, seed, deadline=t0 + deadline_s, stop=lambda j, r: bool(confirmed), on_result=on_result)
    inconclusive, errors, undecided = [], [], set()
    st = dict(paths=0, steps=0, forks=0, queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, checks=0, by_solver={},
              max_query_s=0.0)
    labels, outcomes, funcs, samples = {}, {}, set(), []
    val = {"ok": 0, "differs": 0}
    perjob = []
    for n, r in res.items():
        j = byname[n]
        if r.get("skipped"):
            continue
        if r.get("crash") == "time limit":
            undecided.add(n)
            inconclusive.append("%s: time limit" % n)
            perjob.append(dict(job=n, decided=False))
            continue
        if "crash" in r:
            errors.append("%s: %s" % (n, r["crash"]))
            continue
        st["paths"] += r["paths"]
        st["steps"] += r["steps"]
        st["forks"] += r["forks"]
        for k in ("queries", "unsat", "sat", "unknown", "solver_s"):
            st[k] += r["smt"][k]
        st["max_query_s"] = max(st["max_query_s"], r["smt"]["max_query_s"])
        for k, c in r["smt"]["by_solver"].items():
            st["by_solver"][k] = st["by_solver"].get(k, 0) + c
        for l, c in r["labels"].items():
            labels[l] = labels.get(l, 0) + c
            st["checks"] += c
        for l, c in r["outcomes"].items():
            outcomes[l] = outcomes.get(l, 0) + c
        funcs |= set(r["funcs"])
        inconclusive += ["%s: %s" % (n, x) for x in r["inconclusive"]]
        lim = [x for x in r["errors"] if x.startswith("time budget")]
        inconclusive += ["%s: %s" % (n, x) for x in lim]
        errors += ["%s: %s" % (n, x) for x in r["errors"] if x not in lim]
        if r["inconclusive"] or lim:
            undecided.add(n)
        if not r["labels"] and not r["violations"]:
            errors.append("%s: vacuous (no assertion reached)" % n)
        for w in r["witness"]:
            val[validate(j, w, tmp)] += 1
        if r["witness"] and len(samples) < 6:
            w = r["witness"][0]
            samples.append(dict(job=n, inputs=[list(x) for x in w["inputs"]][:24], path_outcome=w["outcome"]))
        perjob.append(dict(job=n, decided=n not in undecided, paths=r["paths"], outcomes=r["outcomes"], assertions=sum(r["labels"].values()),
                           queries=r["smt"]["queries"], solver_s=r["smt"]["solver_s"], wall_s=round(r["wall"], 2)))
    if os.path.exists(tmp):
        os.unlink(tmp)
    for h in hits:
        print("KNOWN-FINDING: property=%s %s" % (prop, h[2]))
    import re as _re
    libf = sorted({demangle(f) for f in funcs})
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=st["paths"], transitions=st["steps"], traces_validated_against_impl=val["ok"],
            witness_mismatches=val["differs"],
            jobs=len(perjob), symbolic_paths_by_outcome=outcomes, branch_forks=st["forks"],
            assertions_discharged=labels, smt_queries=st["queries"], smt_unsat=st["unsat"], smt_sat=st["sat"],
            smt_unknown=st["unknown"], solver_s=round(st["solver_s"], 2), max_query_s=round(st["max_query_s"], 2),
            solvers=st["by_solver"],
            functions_encoded=libf[:120], code_under_test=spec.get("code", []), bounds=spec.get("bounds", ""),
            per_job=perjob, samples=samples, build_s=round(t_build, 1),
            undecided_jobs=sorted(undecided), inconclusive=inconclusive[:10], errors=errors[:10], unconfirmed=unconfirmed[:10]),
        assumptions=spec.get("assumptions", []) + [
            "floating point is interpreted over the reals (plus NaN/infinity): rounding, overflow and signed zero are outside the claim",
            ("the Python source of the current tree, run on symbolic numbers and a symbolic numpy, is the program; these" if python_only else
             "rustc's LLVM IR of the current tree is the program; the interpreter") + " and the SMT solvers are trusted, sampled path "
            "witnesses are re-run natively"],
        wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    with open(os.path.join(EVID, "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d jobs, %d paths, %d assertions, %d queries, %.1f s solver, witnesses %d ok / %d differ, %.1f s" % (
        prop, tier, len(perjob), st["paths"], st["checks"], st["queries"], st["solver_s"], val["ok"], val["differs"],
        time.time() - t0))
    if confirmed:
        for c in confirmed[:1]:
            print("counterexample: job %s, assertion \"%s\", native run: %s" % (c["job"], c["label"], c["native"]))
            print("VIOLATION property=%s replay=%s" % (prop, c["replay"]))
        return 1
    for u in unconfirmed[:5]:
        print("UNCONFIRMED (solver model not reproduced natively): %s" % u)
    for x in inconclusive[:5]:
        print("UNDECIDED (solver limit; not counted as explored): %s" % x[:400])
    for x in errors[:5]:
        print("ERROR: %s" % x[:1500])
    # independent jobs: a few that hit a resource limit shrink the explored set, they do not change what the
    # others established; anything else (or too many of them) is no answer
    if unconfirmed or errors or len(undecided) > len(perjob) // 4:
        return 2
    return 0


def demangle(f):
    m = re.match(r"_ZN(.*)E$", f)
    if m:
        s, parts = m.group(1), []
        while s:
            k = re.match(r"\d+", s)
            if not k:
                break
            n = int(k.group())
            parts.append(s[k.end():k.end() + n])
            s = s[k.end() + n:]
        if parts and re.match(r"h[0-9a-f]{16}$", parts[-1]):
            parts.pop()
        t = "::".join(parts)
        for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("..", "::"), ("$RF$", "&"), ("$BP$", "*"), ("$C$", ","),
                     ("$u7b$", "{"), ("$u7d$", "}"), ("$LP$", "("), ("$RP$", ")")):
            t = t.replace(a, b)
        return t
    return f


def summary(r):
    if "crash" in r:
        return "CRASH " + r["crash"][-300:]
    if r.get("skipped"):
        return "skipped"
    s = "paths=%d %s checks=%d q=%d unk=%d %.1fs" % (r["paths"], r["outcomes"], sum(r["labels"].values()),
                                                    r["smt"]["queries"], r["smt"]["unknown"], r["wall"])
    if r["inconclusive"]:
        s += " INC " + r["inconclusive"][0][:160]
    if r["errors"]:
        s += " ERR " + r["errors"][0][:300]
    for v in r["violations"][:2]:
        s += " VIOL %s (%s) %s cands=%d" % (v["label"], v["why"], v["status"], len(v["candidates"]))
    return s
