#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--budget S]

Decides one property: symbolically executes every harness of the property over
/repo's current source, replays the solver's counterexamples against the real
code, writes evidence/<property>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION.  Exit 2: error."""
import argparse
import json
from fractions import Fraction
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
VENV = "/opt/venv/bin/python"
NPROC = int(os.environ.get("SYMX_PROCS", os.cpu_count() or 4))


def run_harness(h, out, tokens, opts):
    from symx import engine as E, loader
    E.MODE["const"] = h.opts.get("mode", "exact")
    E.watch_functions(loader.REPO)

    def fn(ctx):
        m = loader.load(True)
        h.fn(ctx, m)

    try:
        E.explore(fn, out, tokens, **opts)
    except BaseException:
        import traceback
        traceback.print_exc()
        os._exit(3)
    os._exit(0)


def merge(out):
    tot, cex, notes, samples, funcs = {}, [], [], [], set()
    if os.path.exists(out):
        for line in open(out):
            r = json.loads(line)
            for k, v in r["st"].items():
                tot[k] = tot.get(k, 0) + v
            cex += r["cex"]
            notes += r["notes"]
            samples += r["samples"]
            funcs |= set(r["funcs"])
    return tot, cex, notes, samples, funcs


def replay(jobs, tmp):
    if not jobs:
        return []
    # spread over processes
    n = min(NPROC, len(jobs))
    procs = []
    for i in range(n):
        part = jobs[i::n]
        fn = os.path.join(tmp, "jobs%d_%d.json" % (i, time.time_ns()))
        json.dump(part, open(fn, "w"))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        procs.append((i, len(part), subprocess.Popen(
            [VENV, os.path.join(HERE, "symx", "replay.py"), fn],
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)))
    res = [None] * len(jobs)
    for i, k, p in procs:
        so, _ = p.communicate()
        lines = [json.loads(x) for x in so.splitlines() if x.startswith("{")]
        for j in range(k):
            res[i + j * n] = lines[j] if j < len(lines) else {"status": "error", "error": "no result"}
    return res


def known_findings(prop):
    """Lines 'KNOWN property=.. harness=.. label=.. what=..' of known_findings.json."""
    fn = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(fn):
        return []
    return [k for k in json.load(open(fn)).get("findings", []) if k["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--dump", help="development: write the replay jobs to this file")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from harness import registry
    registry.load_all()
    hs = [h for h in registry.H.values() if h.prop == a.prop and
          (a.tier == "thorough" or h.tier == "quick")]
    if a.only:
        hs = [h for h in registry.H.values() if h.prop == a.prop and h.name in a.only.split(",")]
    if not hs:
        print("no harness for", a.prop)
        sys.exit(2)
    budget = a.budget or (780 if a.tier == "quick" else 14000)
    deadline = t0 + budget * 0.85
    tmp = tempfile.mkdtemp(prefix="symx_")
    try:
        code = decide(a, hs, seed, tmp, t0, deadline)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def decide(a, hs, seed, tmp, t0, deadline):
    # job server: NPROC tokens, one per running path process
    r, w = os.pipe()
    os.set_blocking(r, False)
    os.write(w, b"x" * NPROC)
    kids = {}
    import z3  # noqa: loaded once, before forking
    import sympy.polys.rings  # noqa
    from symx import engine, loader  # noqa
    todo = sorted(hs, key=lambda h: -h.opts.get("cost", 1))
    i = 0
    status = {}
    started = {}
    while i < len(todo) or kids:
        launched = False
        if i < len(todo):
            try:
                got = os.read(r, 1)
            except BlockingIOError:
                got = b""
            if got:
                h = todo[i]
                i += 1
                opts = dict(rlimit=h.opts.get("rlimit", 4_000_000), deadline=deadline,
                            path_seconds=h.opts.get("path_seconds", 120), own_token=True,
                            query_seconds=h.opts.get("query_seconds", 10))
                out = os.path.join(tmp, h.id + ".jsonl")
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    os.setpgid(0, 0)
                    run_harness(h, out, (r, w), opts)
                kids[pid] = h
                started[h.id] = time.time()
                launched = True
        if not launched:
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                time.sleep(0.01)
            elif pid in kids:
                h = kids.pop(pid)
                status[h.id] = (st, time.time() - started[h.id])
                if st:      # it died without giving its token back
                    os.write(w, b"x")
    report = {}
    jobs = []
    for h in hs:
        tot, cex, notes, samples, funcs = merge(os.path.join(tmp, h.id + ".jsonl"))
        report[h.id] = dict(st=tot, notes=notes, samples=samples, funcs=funcs, cex=cex,
                            secs=status[h.id][1], exit=status[h.id][0])
        seen = {}
        for c in sorted(cex, key=lambda c: (c["label"], sum(len(v) for v in c["values"].values()))):
            n = seen.get(c["label"], 0)
            if n >= (3 if c["label"] == "timeout" else 12):
                continue
            seen[c["label"]] = n + 1
            jobs.append(dict(kind="cex", harness=h.id, values=c["values"], choices=c["choices"],
                             label=c["label"], tolf=0.5))
        # witnesses of proved paths, for the agreement count of encoding and code
        step = max(1, len(samples) // h.opts.get("witnesses", 12))
        for s in samples[::step][:h.opts.get("witnesses", 12)]:
            jobs.append(dict(kind="witness", harness=h.id, values=s["values"], choices=s["choices"], tolf=2.0))
    if a.dump:
        json.dump(jobs, open(a.dump, "w"))
    res = replay(jobs, tmp)
    # where the solver's model is lost in rounding, nearby numbers that are exact in binary may show the failure
    done = {(j["harness"], j["label"]) for j, x in zip(jobs, res) if j["kind"] == "cex" and x.get("failed")}
    again = []
    for n, (j, x) in enumerate(zip(jobs, res)):
        if j["kind"] == "cex" and (j["harness"], j["label"]) not in done and j["values"] and x.get("status") != "timeout":
            for q in (1, 4, 64):
                vs = {k: str(Fraction(round(Fraction(v) * q), q)) for k, v in j["values"].items()}
                if vs != j["values"]:
                    again.append((n, dict(j, values=vs)))
    again = again[:200]
    for (n, j), x in zip(again, replay([j for _, j in again], tmp)):
        if x.get("failed") and not res[n].get("failed"):
            jobs[n], res[n] = j, x
    viol, unrep, known = [], [], []
    agree = disagree = 0
    kf = known_findings(a.prop)
    confirmed = set()
    for j, x in zip(jobs, res):
        if j["kind"] == "witness":
            if x.get("failed") or x.get("status") == "error":
                disagree += 1
                report[j["harness"]].setdefault("disagree", []).append((j, x))
            else:
                agree += 1
            continue
        if x.get("failed"):
            lab = x["failed"][0]
            k = [f for f in kf if matches(f, j, lab)]
            if k:
                known.append((k[0], j))
            else:
                viol.append((j, lab))
            confirmed.add((j["harness"], j["label"]))
        else:
            unrep.append((j, x))
    unrep = [(j, x) for j, x in unrep if (j["harness"], j["label"]) not in confirmed]
    for f in {id(k): k for k, _ in known}.values():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, f["what"]))
    err = []
    skipped = []
    undecided = 0
    for h in hs:
        rp = report[h.id]
        st = rp["st"]
        undecided += st.get("undecided", 0)
        if a.verbose:
            print("%-32s %5.1fs paths=%d forks=%d queries=%d (%.1fs) oblig=%d/%d undecided=%d aborted=%d conc=%d" % (
                h.id, rp["secs"], st.get("paths", 0), st.get("forks", 0), st.get("queries", 0),
                st.get("solver_s", 0), st.get("discharged", 0), st.get("obligations", 0),
                st.get("undecided", 0), st.get("aborted", 0), st.get("concretized", 0)))
            for n in sorted(set(rp["notes"]))[:6]:
                print("    note:", n[-900:])
            for j, x in rp.get("disagree", [])[:3]:
                print("    witness disagrees:", x, json.dumps(j["values"])[:300], j["choices"])
        if rp["exit"]:
            err.append("%s: exploration died (%s)" % (h.id, rp["exit"]))
        nviol = any(j["harness"] == h.id for j, _ in viol) or any(j["harness"] == h.id for _, j in known)
        if st.get("skipped") and not st.get("discharged") and not nviol:
            skipped.append(h.id)
        elif not st.get("discharged") and not nviol:
            err.append("%s: vacuous, no obligation was discharged" % h.id)
    bad_unrep = len({(j["harness"], j["label"]) for j, _ in unrep})
    for j, x in unrep[:6]:
        print("INCONCLUSIVE property=%s harness=%s: solver model for '%s' does not reproduce on the real code (%s)" % (
            a.prop, j["harness"], j["label"][:200], str(x)[:120]))
        if a.verbose:
            print("    ", json.dumps(j["values"])[:600], j["choices"])
    write_evidence(a, hs, report, seed, t0, viol, unrep, known, agree, disagree, undecided, err)
    if viol:
        os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
        shown = set()
        for j, lab in viol:
            kx = (j["harness"], lab.split(":")[0])
            if kx in shown:
                continue
            shown.add(kx)
            fn = os.path.join(HERE, "evidence", "replays", "%s_%d.json" % (j["harness"], len(shown)))
            json.dump(dict(j, observed=lab, how="%s %s --show %s" % (
                VENV, os.path.join(HERE, "symx", "replay.py"), fn)), open(fn, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (a.prop, fn))
            print("   harness %s: %s  input %s %s" % (j["harness"], lab[:300], json.dumps(j["values"])[:400], j["choices"]))
        return 1
    if undecided:
        print("UNDECIDED property=%s: %d branch(es) or obligation(s) outside the claim of this run" % (a.prop, undecided))
    if a.verbose:
        print("witness replays: %d agree, %d disagree; unreproduced models: %d; wall %.1fs" % (
            agree, disagree, bad_unrep, time.time() - t0))
    tot_ob = sum(report[h.id]["st"].get("obligations", 0) for h in hs)
    tot_dis = sum(report[h.id]["st"].get("discharged", 0) for h in hs)
    dead = [e for e in err]
    for e in dead:
        print("ERROR", e)
    # a run is an answer when most of what was to be explored was decided
    for k in skipped:
        print("SKIPPED %s: the part of the code it drives is gone, nothing decided" % k)
    if skipped and not dead and len(skipped) == len(hs):
        print("OK property=%s: nothing decided" % a.prop)
        return 0
    if not tot_dis or len(dead) * 2 > len(hs):
        return 2
    print("OK property=%s: %d of %d obligations discharged on %d paths, %d queries" % (
        a.prop, tot_dis, tot_ob, sum(report[h.id]["st"].get("paths", 0) for h in hs),
        sum(report[h.id]["st"].get("queries", 0) for h in hs)))
    return 0


def matches(f, job, label):
    if f.get("harness") and f["harness"] != job["harness"]:
        return False
    if f.get("label") and f["label"] not in label:
        return False
    if f.get("where"):
        # a Python condition over the inputs of the failing case
        from fractions import Fraction
        env = {k.replace(".", "_"): float(Fraction(v)) for k, v in job["values"].items()}
        env["choice"] = job["choices"]
        try:
            return bool(eval(f["where"], {"__builtins__": {"abs": abs, "min": min, "max": max}}, env))
        except Exception:
            return False
    return True


def write_evidence(a, hs, report, seed, t0, viol, unrep, known, agree, disagree, undecided, err):
    tot = {}
    funcs = set()
    samples = []
    for h in hs:
        for k, v in report[h.id]["st"].items():
            tot[k] = tot.get(k, 0) + v
        funcs |= report[h.id]["funcs"]
        for s in report[h.id]["samples"][:1]:
            samples.append(dict(harness=h.id, **s))
    cov = dict(
        states=tot.get("paths", 0) + tot.get("forks", 0),
        transitions=tot.get("branches", 0),
        traces_validated_against_impl=agree,
        samples=samples[:12],
        explanation="Symbolic execution of the real source; states = path ends plus fork points, "
                    "transitions = symbolic branch decisions put to the solver.",
        paths=tot.get("paths", 0),
        paths_cut_by_assumptions=tot.get("aborted", 0),
        queries=tot.get("queries", 0),
        queries_unknown=tot.get("unknown", 0),
        solver_seconds=round(tot.get("solver_s", 0), 2),
        obligations=tot.get("obligations", 0),
        discharged=tot.get("discharged", 0),
        claims_decided_by_normal_form_and_confirmed_by_the_solver=tot.get("certified", 0),
        undecided=undecided,
        concretized_values=tot.get("concretized", 0),
        witness_replays_disagreeing=disagree,
        models_not_reproduced=len(unrep),
        known_findings_seen=len({k["what"] for k, _ in known}),
        functions_executed_symbolically=sorted(f for f in funcs if "<module>" not in f),
        harnesses={h.id: dict(bounds=h.opts.get("bounds", h.doc.split("\n\n")[0].replace("\n", " ")),
                              tier=h.tier, paths=report[h.id]["st"].get("paths", 0),
                              obligations=report[h.id]["st"].get("obligations", 0),
                              discharged=report[h.id]["st"].get("discharged", 0),
                              undecided=report[h.id]["st"].get("undecided", 0),
                              seconds=round(report[h.id]["secs"], 1)) for h in hs},
        errors=err,
    )
    ev = dict(property=a.prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed,
              level="model_checking", coverage=cov,
              assumptions=["numbers are mathematical reals (no float32/float64 rounding); counterexamples are "
                           "confirmed with the real mathutils before they are reported",
                           "mathutils and math are replaced by stand-ins with the same semantics over reals",
                           "everything outside the bounds of each harness is outside the claim"],
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    fn = os.path.join(HERE, "evidence", a.prop + ".json")
    json.dump(ev, open(fn + ".tmp", "w"), indent=1)
    os.replace(fn + ".tmp", fn)


if __name__ == "__main__":
    main()
