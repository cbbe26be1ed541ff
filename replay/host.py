"""Builds the scenario runner against /repo's working tree and runs it."""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))


def goenv():
    e = dict(os.environ)
    r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], capture_output=True)
    for kv in r.stdout.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            e[k.decode()] = v.decode()
    return e


def build(repo, work):
    """-> (binary or None, message)"""
    env = goenv()
    msg = ""
    for minf in ("min_verif_test.go", "min0_verif_test.go"):
        rep = {os.path.join(env["GOROOT"], "src/plugin/plugin_dlopen.go"): os.path.join(HERE, "plugin_dlopen.go")}
        for f in glob.glob(os.path.join(repo, "*_test.go")):
            rep[f] = ""
        for f in glob.glob(os.path.join(HERE, "host", "*_test.go")):
            b = os.path.basename(f)
            if b.startswith("min") and b != minf:
                continue
            rep[os.path.join(repo, "zz_" + b)] = f
        ov = os.path.join(work, "overlay.json")
        with open(ov, "w") as f:
            json.dump({"Replace": rep}, f)
        binary = os.path.join(work, "replay.test")
        r = subprocess.run(["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", binary, "."], cwd=repo, env=env, capture_output=True, text=True)
        if r.returncode == 0:
            return binary, ""
        msg = r.stdout + r.stderr
    return None, msg


def run(binary, prop, seed, secs, work, scenario=None, jobs=1):
    """-> dict(stats, viol=path or None, crash=...)"""
    env = goenv()
    procs = []
    for j in range(jobs):
        out = os.path.join(work, "r%d" % j)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        e = dict(env, VERIF_PROP=prop, VERIF_OUT=out, VERIF_SEED=str(seed * 1000 + j), VERIF_SECS=str(secs), GODEBUG="asynctimerchan=0")
        if scenario:
            e["VERIF_SCENARIO"] = scenario
        lg = open(os.path.join(out, "log.txt"), "w")
        procs.append((subprocess.Popen([binary, "-test.run", "^TestVerifReplay$", "-test.timeout", "0"], env=e, cwd=out, stdout=lg, stderr=subprocess.STDOUT), out))
    res = {"evaluations": 0, "distinct": 0, "families": {}, "samples": [], "viol": None, "log": ""}
    deadline = time.time() + secs + 60
    for p, out in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        log = open(os.path.join(out, "log.txt")).read()
        try:
            st = json.load(open(os.path.join(out, "stats.json")))
            res["evaluations"] += st["evaluations"]
            res["distinct"] += st["distinct"]
            for k, v in st["families"].items():
                res["families"][k] = res["families"].get(k, 0) + v
            if st.get("sample"):
                res["samples"].append(st["sample"])
        except Exception:
            pass
        vf = os.path.join(out, "viol.json")
        if os.path.exists(vf):
            res["viol"] = res["viol"] or json.load(open(vf))
        elif p.returncode != 0 and not scenario:
            kind, why = crash_kind(log, out)
            cur = None
            try:
                cur = json.load(open(os.path.join(out, "cur.json")))
            except Exception:
                pass
            if cur is not None and kind == prop:
                res["viol"] = res["viol"] or {"Scenario": cur, "Property": prop, "Observed": why}
            else:
                res["log"] += "runner ended with %s (%s): %s\n" % (p.returncode, kind, why[:2000])
        res["rc"] = p.returncode
        res["log"] += log[-3000:] if scenario else ""
    return res


def crash_kind(log, out):
    h = os.path.join(out, "hang.txt")
    if os.path.exists(h):
        t = open(h).read()
        return t.split("\n")[0], "the operation does not end:\n" + t[:3000]
    if "stack overflow" in log or "goroutine stack exceeds" in log:
        return "C05", "unbounded recursion:\n" + log[:1500]
    if "unlock of unlocked mutex" in log:
        return "C16", "unlock of unlocked mutex:\n" + log[:1500]
    if "panic: boom" in log or "panic: " in log:
        return "C02", "a panic ended the process:\n" + log[:3000]
    return "?", log[-1500:]


if __name__ == "__main__":
    w = tempfile.mkdtemp(prefix="hsreplay", dir="/dev/shm")
    try:
        b, m = build(sys.argv[1], w)
        if not b:
            print(m)
            sys.exit(2)
        for prop in sys.argv[3:]:
            t = time.time()
            r = run(b, prop, 1, float(sys.argv[2]), w, jobs=int(os.environ.get("J", "2")))
            print(prop, {k: r[k] for k in ("evaluations", "distinct", "families")}, r["log"][:1500])
            if r["viol"]:
                print("   VIOL", r["viol"]["Observed"], json.dumps(r["viol"]["Scenario"])[:1500])
    finally:
        shutil.rmtree(w)
