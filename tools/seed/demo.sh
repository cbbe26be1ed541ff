#!/bin/bash
# run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh 2>/dev/null
repo="$(pwd)"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
python3 - "$here" "$repo" "$w" <<'PY'
import glob, json, os, subprocess, sys
here, repo, w = sys.argv[1:]
root = subprocess.run(["go", "env", "GOROOT"], capture_output=True, text=True, cwd=repo).stdout.strip()
rep = {os.path.join(root, "src/plugin/plugin_dlopen.go"): os.path.join(here, "plugin_dlopen.go")}
for f in glob.glob(os.path.join(repo, "*_test.go")):
    rep[f] = ""
for f in glob.glob(os.path.join(here, "*_test.go")):
    rep[os.path.join(repo, "zz_" + os.path.basename(f))] = f
json.dump({"Replace": rep}, open(os.path.join(w, "o.json"), "w"))
PY
GODEBUG=asynctimerchan=0 timeout 250 go test -count=1 -vet=off -overlay "$w/o.json" -run '^TestDemo$' . 
