"""python -m vd.run PROPERTY [tier]: decide one property, write evidence, print the verdict.
exit 0 held / 1 violated (an obligation is not accepted) / 2 the check itself failed."""
import sys
sys.path.append("/opt/venv/lib/python3.12/site-packages")
import importlib, json, os, time, traceback, multiprocessing, collections

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECK_START = time.time()      # the jobs are forked: the same for all of them
REPO = os.environ.get("VERIF_REPO", "/repo")


def repo_frame(tb):
    """innermost frame that lies in the repository under check"""
    hit = None
    for fr in traceback.extract_tb(tb):
        if os.path.abspath(fr.filename).startswith(os.path.abspath(REPO) + os.sep):
            hit = fr
    return hit


def job(args):
    pid, idx, tier, seed, limit = args
    sys.setrecursionlimit(100000)
    from .prove import Verifier, Stats, Blocked
    from .design import CombLoop, Unsupported
    from .contract import Wiring

    def rejected(what, why):
        out.update(status="unproved", failed=[what], obligations=[(what, False)], log=["%s: %s" % (what, why)], cex=None, info={}, invariants=0)
    stats = Stats()
    t0 = time.time()
    out = dict(idx=idx)
    try:
        mod = importlib.import_module("vd.props." + pid.lower())
        label, factory = list(mod.obligations(tier))[idx]
        out["label"] = label
        v = Verifier(factory, label, seed=seed, timeout=limit, stats=stats, deep=(tier == "thorough"),
                     verbose=bool(os.environ.get("VD_VERBOSE")))
        v.check_deadline = CHECK_START + (600 if tier == "quick" else 7200)
        try:
            factory()
        except Wiring as e:
            rejected("wiring", e)
        except Exception as e:
            fr = repo_frame(e.__traceback__)
            if fr is None:
                # the contract does not find the interface it speaks of
                rejected("interface", traceback.format_exc())
            else:
              out.update(status="violation", failed=["elaborates"], obligations=[("elaborates", False)], log=[traceback.format_exc()],
                       cex={"obligation": "elaborates", "configuration": label, "confirmed": True,
                            "found_by": "running the real constructor", "error": "%s: %s" % (type(e).__name__, e),
                            "at": "%s:%d" % (fr.filename, fr.lineno)}, info={}, invariants=0)
        else:
            try:
                r = v.run()
                if r.status == "vacuous":
                    r.failed = ["reachable:" + n for n in r.unreached]
                    r.obligations = r.obligations + [(n, False) for n in r.failed]
                if r.status in ("vacuous", "unknown"):
                    r.status = "unproved"
                out.update(status=r.status, failed=r.failed, obligations=r.obligations, log=r.log, cex=r.cex,
                           info=r.info, invariants=r.invariants)
            except CombLoop as e:
                rejected("acyclic", e)
            except Unsupported as e:
                rejected("translated", traceback.format_exc())
            except Blocked as e:
                rejected("environment", e)
    except Exception as e:
        out.setdefault("label", "#%d" % idx)
        out.update(status="error", failed=[], obligations=[], log=[traceback.format_exc()], cex=None, info={}, invariants=0)
    out.update(solver_s=stats.solver_s, queries=stats.queries, backend=dict(stats.backend), wall=time.time() - t0)
    return out


def known_findings(pid):
    p = os.path.join(HERE, "known-findings.jsonl")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                d = json.loads(l)
                if d["property"] == pid and d["kind"] == "known":
                    r.append(d)
    return r


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("vd.props." + pid.lower())
    try:
        obs = list(mod.obligations(tier))
    except Exception as e:
        traceback.print_exc()
        return 2
    limit = getattr(mod, "LIMIT", 400) if tier == "quick" else getattr(mod, "LIMIT_THOROUGH", 5000)
    jobs = [(pid, i, tier, seed, limit) for i in range(len(obs))]
    n = min(int(os.environ.get("VD_JOBS", "8")), len(jobs))
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(n, maxtasksperchild=1) as pool:
        res = pool.map(job, jobs, chunksize=1)
    known = known_findings(pid)
    used_known = []
    violations, errors = [], []
    nob = ndis = 0
    backend = collections.Counter()
    funcs, assum, samples = set(), set(), []
    for r in res:
        nob += len(r["obligations"])
        ndis += sum(1 for _, g in r["obligations"] if g)
        backend.update(r["backend"])
        funcs |= set(r["info"].get("functions", []))
        assum |= set(r["info"].get("abstractions", []))
        print("%-34s %-10s obligations %d/%d aux-inv %d  %.1fs (solver %.1fs) %s" % (
            r["label"], r["status"], sum(1 for _, g in r["obligations"] if g), len(r["obligations"]),
            r["invariants"], r["wall"], r["solver_s"], ",".join(r["failed"])))
        for l in r["log"]:
            print("    " + l.replace("\n", "\n    "))
        if r["status"] == "error":
            errors.append(r)
        elif r["status"] in ("violation", "unproved"):
            k = [d for d in known if d["configuration"] == r["label"] and set(r["failed"]) <= set(d["obligations"])]
            if k:
                used_known.append((k[0], r))
            else:
                violations.append(r)
    # known findings live in configurations of their own: the obligation *fails* there
    rc = 0
    for k, r in used_known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if nob == 0 and not violations:
        errors.append(dict(label="all", log=["zero obligations"]))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    for r in violations:
        path = os.path.join(HERE, "evidence", "replay", "%s-%d.json" % (pid, r["idx"]))
        conf = bool(r["cex"] and r["cex"].get("confirmed"))
        json.dump(dict(property=pid, configuration=r["label"], index=r["idx"], tier=tier, failed_obligations=r["failed"],
                       counterexample=r["cex"], verifier_output=r["log"],
                       replay_cmd="bash run.sh --replay %s" % path), open(path, "w"), indent=1, default=str)
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if conf else " no-failing-input-found"))
        rc = 1
    if rc == 0 and errors:
        print("CHECK-ERROR", [e["label"] for e in errors])
        rc = 2
    # findings configurations are reported, not counted as obligations of the proof
    kn = sum(len(r["obligations"]) for _, r in used_known)
    ev = dict(property=pid, tier=tier, seed=seed, level="proof",
              coverage=dict(obligations=nob - kn, discharged=ndis - sum(sum(1 for _, g in r["obligations"] if g) for _, r in used_known),
                            checker_cmd="bash run.sh %s %s" % (pid, tier),
                            trusted_base=["z3 5.3.2 (bit-blasting SAT)", "cvc5 1.1.2 (fallback)", "vd/design.py, vd/sem.py (FHDL to SMT translation)",
                                          "migen 0.10 elaboration", "CPython 3.12"],
                            functions_under_contract=sorted(funcs),
                            configurations=[r["label"] for r in res],
                            obligation_names=sorted(set("%s/%s" % (r["label"], n) for r in res for n, _ in r["obligations"])),
                            backends=dict(backend), solver_s=round(sum(r["solver_s"] for r in res), 2),
                            solver_queries=sum(r["queries"] for r in res),
                            auxiliary_invariants=sum(r["invariants"] for r in res),
                            translator_crosscheck_cycles=sum(r["info"].get("xcheck_cycles", 0) for r in res),
                            simulated_cycles=sum(r["info"].get("sim_cycles", 0) for r in res),
                            known_findings=[k["what"] for k, _ in used_known],
                            errors=[r["label"] for r in errors]),
              assumptions=sorted(assum) + list(getattr(mod, "ASSUMPTIONS", [])) + [
                  "FHDL integer semantics of Migen's simulator (Verilog export can differ on ~x in a wider context)",
                  "flip-flops start at their declared reset values"],
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %s  obligations %d/%d  wall %.1fs" % (pid, {0: "held", 1: "VIOLATED", 2: "CHECK ERROR"}[rc], ndis, nob, time.time() - t0))
    return rc


def replay(path):
    """re-runs a recorded failing stimulus on the real code in Migen's simulator"""
    d = json.load(open(path))
    mod = importlib.import_module("vd.props." + d["property"].lower())
    factory = list(mod.obligations(d["tier"]))[d["index"]][1]
    cex = d["counterexample"]
    if not cex:
        print("no stimulus recorded; failed obligations:", d["failed_obligations"])
        print("\n".join(d["verifier_output"]))
        return 1
    if cex["obligation"] == "elaborates":
        factory()
        print("elaborates: not reproduced")
        return 0
    from .prove import Verifier, Trace, Result
    v = Verifier(factory, d["configuration"])
    v.res = Result()
    v.cs, v.ds = v.build(track=False)
    v.c, v.d = v.cs, v.ds
    ok = v.replay(cex["obligation"], Trace(cex["rigid_values"], [(i, t) for i, t in cex["cycles"]]))
    print("obligation %s %s" % (cex["obligation"], "VIOLATED on the real code" if ok else "not reproduced"))
    for n, w in enumerate(v.last_watch):
        print("  cycle %d: %s" % (n, dict(zip([v.ds.name(x) for x in v.cs.watch], w))))
    return 1 if ok else 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
