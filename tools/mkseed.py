#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table in seeds.py, after confirming in a
scratch copy that the demonstration passes without and fails with the change."""
import json
import os
import shutil
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = "/verif/seeded"
W = "/tmp/seedw"


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, executable="/bin/bash", **kw)


def main():
    only = sys.argv[1:]
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree("/repo", W, symlinks=True)
    for sid, s in seeds.SEEDS.items():
        if only and sid not in only:
            continue
        sh("git checkout -q -- . && git clean -fdq", W)
        d = os.path.join(OUT, sid)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        kit = s.get("kit", "seed")
        for f in os.listdir(os.path.join(HERE, kit)):
            shutil.copy(os.path.join(HERE, kit, f), d)
        if kit == "seed":
            body = s["demo"]
            imps = "".join('\t"%s"\n' % i for i in ["testing"] + s.get("imports", []))
            open(os.path.join(d, "demo_test.go"), "w").write("package hotswap\n\nimport (\n%s)\n\nfunc TestDemo(t *testing.T) {\n\trunDemo(t, func(d *demo) {\n%s\n\t})\n}\n%s" % (
                imps, "\n".join("\t\t" + x for x in body.strip("\n").split("\n")), s.get("decl", "")))
            sh("gofmt -w demo_test.go", d)
        else:
            open(os.path.join(d, "demo_body.sh"), "w").write(s["demo"])
        r0 = sh("bash %s/demo.sh" % d, W)
        for f, old, new in s["edits"]:
            p = os.path.join(W, f)
            t = open(p).read()
            assert t.count(old) == 1, (sid, f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        g = sh("gofmt -l . ; . /opt/vp/env.sh; go build ./... && go vet . ./cli/... ./internal/... ./vault 2>&1 | head -5", W)
        r1 = sh("bash %s/demo.sh" % d, W)
        diff = sh("git diff", W).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        good = r0.returncode == 0 and r1.returncode != 0
        tail = [x for x in r1.stdout.split("\n") if "demo_test" in x or "panic" in x or "FAIL" in x][:2]
        print(sid, s["property"], "OK" if good else "BAD", r0.returncode, r1.returncode, g.stdout.strip()[:200], g.stderr.strip()[:300], tail)
        if not good:
            print(r0.stdout[-1500:], r0.stderr[-500:])
    shutil.rmtree(W, ignore_errors=True)


main()
