"""What each check proves, explores and assumes."""
import os
import re
import host

PACKAGES = [".", "./vault", "./internal/hutils", "./cli/hotswap/cmd"]
SPECS = ["hotswap.spec"]
MS = 8000

TRUSTED = [
    "go/ssa (golang.org/x/tools) as the meaning of the Go source",
    "govc: symbolic execution and VC generation (/verif/govc)",
    "z3 and cvc5 (unsat answers)",
    "models of runtime operations: maps, slices, strings, channels-free goroutine start, defer/panic/recover (/verif/govc/govc)",
]
ASSUMPTIONS = [
    "machine integers are treated as mathematical integers",
    "plugin hooks and callbacks may return anything or panic (non-nil value), but do not mutate managers, plugins or the vault tables "
    "behind the library's back and do not re-enter load operations of the same swapper",
    "the logger does not panic and does not touch library state",
    "no data races by the host on exported fields",
]


def z3version():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


def run_host(prop, repo, seed, secs, work, jobs):
    b, msg = host.build(repo, work)
    if not b:
        return {"error": "the scenario runner does not build against this tree: " + msg[-1500:]}
    return host.run(b, prop, seed, secs, work, jobs=jobs)


def replay_host(prop, repo, f, work):
    b, msg = host.build(repo, work)
    if not b:
        print(msg)
        return 2
    r = host.run(b, prop, 1, 20, work, scenario=f)
    print(r["log"])
    return 1 if r["rc"] else 0


def known_findings(here, prop):
    out = []
    p = os.path.join(here, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"(known|fixed): property=(C\d+) (.*)", ln.strip())
            if m and m.group(2) == prop:
                d = {"kind": m.group(1), "text": m.group(3)}
                k = re.search(r"\[match: (.*?)\]", ln)
                d["match"] = k.group(1) if k else None
                out.append(d)
    return out


def match_known(known, viol, failures):
    for k in known:
        if k["kind"] == "known" and k["match"] and k["match"] in viol.get("Observed", ""):
            return k
    return None


def known_obligation(known, f):
    return any(k["kind"] == "known" and k["match"] and k["match"] in f.get("obligation", "") for k in known)


PROPS = {}
for p in ["C%02d" % i for i in range(1, 18)]:
    PROPS[p] = {"runner": run_host, "replayer": replay_host, "secs": 20, "jobs": 3}
