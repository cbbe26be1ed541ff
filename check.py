#!/usr/bin/env python3
"""Decides one property: check.py Cxx [--tier quick|thorough] [--repo DIR]

1. dumps the typed SSA of /repo's working tree (govc/ssadump);
2. proves every contract clause labelled with the property, function by
   function (govc), against contracts/*.spec;
3. replays: runs scenarios of the property on the real code (replay/) to find a
   concrete input for a failed obligation, and, when everything is proved, as a
   bounded validation of the assumed contracts (hooks, externals).

exit 0: proved, nothing found. exit 1 and a VIOLATION line otherwise.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/veriftools/pyvenv/bin/python"
if os.environ.get("HSV_PY") != "1" and os.path.exists(PY):
    os.environ["HSV_PY"] = "1"
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.join(HERE, "govc"))
sys.path.insert(0, os.path.join(HERE, "replay"))
sys.setrecursionlimit(20000)

import config          # noqa: E402
import host            # noqa: E402


def arg(name, default):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default


def goenv():
    return host.goenv()


def ssadump(repo, work):
    b = os.path.join(HERE, "build", "ssadump")
    if not os.path.exists(b):
        b = os.path.join(work, "ssadump")
        subprocess.run(["go", "build", "-o", b, "."], cwd=os.path.join(HERE, "govc/ssadump"), env=goenv(), check=True, capture_output=True)
    out = os.path.join(work, "ir.json")
    with open(out, "w") as f:
        subprocess.run([b, repo] + config.PACKAGES, stdout=f, env=goenv(), check=True, stderr=subprocess.PIPE)
    return out


def prove(prop, irfile, log):
    """-> dict of proof results"""
    from govc.ir import IR
    from govc.spec import Specs
    from govc import verify
    ir = IR(irfile)
    sp = Specs()
    for f in config.SPECS:
        sp.load(os.path.join(HERE, "contracts", f))
    labels = set(config.PROPS[prop].get("labels", [prop])) | {"base"}
    hints = verify.load_hints(os.path.join(HERE, "contracts", "hints.json"), prop)
    rs, roots, missing = verify.run_property(ir, sp, labels, log, ms=config.MS * (3 if tier() == "thorough" else 1), hints=hints,
                                             budget=config.PROPS[prop].get("budget", 420))
    return rs, roots, missing


def tier():
    return arg("--tier", os.environ.get("VERIF_TIER", "quick"))


def main():
    prop = sys.argv[1]
    t0 = time.time()
    cfg = config.PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    repo = arg("--repo", "/repo")
    evdir = os.path.join(HERE, "evidence")
    rpdir = os.path.join(HERE, "build", "replay")
    os.makedirs(evdir, exist_ok=True)
    os.makedirs(rpdir, exist_ok=True)
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    work = tempfile.mkdtemp(prefix="hsv_", dir=base)
    ev = {"property": prop, "tier": tier(), "seed": seed, "level": "proof", "coverage": {}, "assumptions": [], "violations": 0}
    failures = []          # (description dict)
    cov = ev["coverage"]
    try:
        # --- real code, started first: it runs while the prover works
        secs = cfg.get("secs", 20) * (8 if tier() == "thorough" else 1)
        rep = {}

        def explore():
            try:
                rep.update(cfg["runner"](prop, repo, seed, secs, work, cfg.get("jobs", 3)))
            except BaseException as e:
                rep["error"] = "%s\n%s" % (e, traceback.format_exc())
        th = threading.Thread(target=explore)
        # --- proof
        lines = []
        irfile = None
        rs, roots, missing = {}, [], []
        try:
            irfile = ssadump(repo, work)
        except subprocess.CalledProcessError as e:
            failures.append({"obligation": "SSA of the source", "why": "the code does not load: %s" % (e.stderr or b"").decode()[-2000:]})
        th.start()
        if irfile:
            try:
                rs, roots, missing = prove(prop, irfile, lambda *a: lines.append(" ".join(str(x) for x in a)))
            except BaseException as e:
                failures.append({"obligation": "verifier", "why": "%s\n%s" % (e, traceback.format_exc())})
        fns, nobl, ndis, solver, execs, backends, kinds = [], 0, 0, 0.0, 0.0, {}, {}
        externs, inl, trusted = set(), set(), set()
        for n, r in sorted(rs.items()):
            short = n.split("/")[-1]
            if r.error:
                failures.append({"function": short, "obligation": "contract of " + short, "why": r.error, "trace": getattr(r, "trace", "")[-1500:]})
            bad = list(r.failed)
            for v in r.vacuous:
                failures.append({"function": short, "obligation": v, "why": "vacuous: no state reaches this point"})
            for f in bad:
                failures.append({"function": short, "obligation": f["name"], "kind": f["kind"], "clause": f["src"], "at": f["pos"],
                                 "path": f["trail"], "solver": f["backend"] or "no proof found", "seconds": round(f["secs"], 2)})
            nobl += r.nobl
            ndis += r.nobl - len(bad)
            solver += r.solver_s
            execs += r.exec_s
            for k, v in r.backends.items():
                backends[k] = backends.get(k, 0) + v
            for k, v in r.counts.items():
                kinds[k] = kinds.get(k, 0) + v
            fns.append({"function": short, "obligations": r.nobl, "failed": len(bad), "rounds": r.rounds, "loop_invariants_kept": r.cands,
                        "exec_s": round(r.exec_s, 1), "solver_s": round(r.solver_s, 1), "inlined": sorted(x.split("/")[-1] for x in r.inlined)})
            inl |= set(r.inlined)
            for k in (r.externs or {}):
                externs.add(str(k))
            for k in (r.assumed or {}):
                trusted.add(str(k))
        if irfile and not rs and not failures:
            failures.append({"obligation": "contracts of " + prop, "why": "no function carries a contract of this property (renamed?)"})
        for m in missing:
            lines.append("contract without function: %s" % m)
        need = cfg.get("must", [])
        for m in need:
            if not any(n.split("/")[-1].split(".", 1)[-1].endswith(m) for n in rs):
                failures.append({"obligation": "contract of " + m, "why": "the function under contract is not in the code"})
        th.join()
        cov.update({
            "obligations": nobl, "discharged": ndis, "functions_under_contract": fns, "obligation_kinds": kinds, "back_ends": backends,
            "solver_s": round(solver, 1), "symbolic_execution_s": round(execs, 1),
            "checker_cmd": "check.py %s (govc: VC generation over go/ssa; z3 %s, cvc5)" % (prop, config.z3version()),
            "trusted_base": config.TRUSTED + sorted("assumed contract of external " + x for x in externs) + sorted("assumed: " + x for x in trusted),
            "inlined_functions": sorted(x.split("/")[-1] for x in inl),
        })
        if rep.get("evaluations") is not None:
            cov["bounded_replay"] = {
                "note": "bounded: scenarios run on the real code to look for failing inputs and to validate assumed contracts; not counted as proof",
                "evaluations": rep.get("evaluations"), "distinct_nontrivial": rep.get("distinct"), "families": rep.get("families"),
                "seconds_per_process": secs, "samples": rep.get("samples", [])[:1]}
        if rep.get("error") or rep.get("log"):
            cov.setdefault("bounded_replay", {})["problem"] = (rep.get("error") or "") + (rep.get("log") or "")[:3000]
        ev["assumptions"] = config.ASSUMPTIONS + cfg.get("assumptions", [])
        rc = 0
        known = config.known_findings(HERE, prop)
        viol = rep.get("viol")
        kn = None
        if viol:
            kn = config.match_known(known, viol, failures)
        rp = os.path.join(rpdir, "%s.json" % prop)
        if failures or viol:
            unlisted_viol = viol and not kn
            rest = [f for f in failures if not config.known_obligation(known, f)]
            doc = {"property": prop, "failed_obligations": failures, "prover_log": lines[-200:]}
            if viol:
                doc["failing_input"] = viol
                doc["Scenario"] = viol.get("Scenario")
                doc["rerun"] = "python3 /verif/check.py %s --replay %s" % (prop, rp)
            with open(rp, "w") as f:
                json.dump(doc, f, indent=1)
            for f in failures:
                print("FAILED %s: %s" % (f.get("obligation"), (f.get("clause") or f.get("why") or "")[:300]))
            if unlisted_viol:
                print("failing input: %s" % viol.get("Observed", "")[:1500])
                print("VIOLATION property=%s replay=%s" % (prop, rp))
                rc = 1
            elif rest:
                print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
                rc = 1
        for k in known:
            if k["kind"] == "known":
                print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
        ev["violations"] = rc
        if rc == 0:
            print("%s: %d/%d obligations discharged in %d functions (%.0f s), replay: %s scenarios" % (
                prop, ndis, nobl, len(fns), time.time() - t0, rep.get("evaluations")))
        return rc
    finally:
        ev["wall_s"] = round(time.time() - t0, 1)
        if not cov:
            cov["note"] = "the check did not complete"
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(work, ignore_errors=True)


def replay():
    prop, f = sys.argv[1], arg("--replay", None)
    work = tempfile.mkdtemp(prefix="hsv_")
    try:
        return config.PROPS[prop]["replayer"](prop, arg("--repo", "/repo"), f, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    if "--replay" in sys.argv:
        sys.exit(replay())
    sys.exit(main())
