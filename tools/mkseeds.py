#!/usr/bin/env python3
"""mkseeds.py [id...]: (re)makes /verif/seeded/<id> from the definitions in tools/seeds/*.py, verifying each in a scratch copy
of /repo: it applies, builds, passes the stable tests, and its demonstration passes without and fails with the change."""
import sys, os, subprocess, shutil, json, glob, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDS = {}
def seed(id, property, needs, breaks, edits, demo, kind="codec"):
    assert id not in SEEDS, id
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, kind=kind)
PRE = {}
for f in sorted(glob.glob(HERE + "/seeds/*.go.txt")):
    PRE[os.path.basename(f)[:-7]] = open(f).read()
for f in sorted(glob.glob(HERE + "/seeds/*.py")):
    exec(open(f).read())
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
DEMO = '''#!/bin/bash
# Exit 0: the behaviour is right; non-zero: it is broken.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
printf '{"Replace": {"%s/zzdemo/main.go": "%s/demo.go.txt"%s}}' "$PWD" "$d" > "$t/overlay.json"
go build RACE-overlay "$t/overlay.json" -o "$t/demo" ./zzdemo || exit 98
PRERUN
DEMO_TMP="$t" timeout 120 "$t/demo"
'''.replace('%s/demo.go.txt"%s}}', '%s/demo.go.txt"}}')
def run(cmd, cwd, t=300):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=t)
def make(id):
    s = SEEDS[id]
    wt = tempfile.mkdtemp(prefix="seedwt-", dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", os.environ.get("SEED_REPO", "/repo"), wt + "/r"], check=True)
        r = wt + "/r"
        out = os.path.join(os.path.dirname(HERE), "seeded", id)
        os.makedirs(out, exist_ok=True)
        with open(out + "/demo.go.txt", "w") as f: f.write(PRE.get(s["kind"], PRE["srv"]) + s["demo"])
        d = DEMO.replace("RACE", "-race " if s["kind"] == "race" else "")
        pre = ""
        if s["kind"] == "gen": pre = 'go build -o "$t/packet-gen" ./cli/packet-gen || exit 97'
        if s["kind"] == "recv": pre = 'go build -o "$t/receiver" ./cli/receiver || exit 97'
        d = d.replace("PRERUN\n", pre + "\n" if pre else "")
        with open(out + "/demo.sh", "w") as f: f.write(d)
        os.chmod(out + "/demo.sh", 0o755)
        c = run(["bash", out + "/demo.sh"], r)
        if c.returncode != 0:
            return f"demo fails on the unchanged tree ({c.returncode}): {c.stdout[-1500:]} {c.stderr[-1500:]}"
        for path, old, new in s["edits"]:
            p = r + "/" + path
            t = open(p).read()
            n = t.count(old)
            if n != 1: return f"{n} matches of {old!r} in {path}"
            open(p, "w").write(t.replace(old, new))
        c = run("gofmt -l . ; go vet ./libs/egts 2>&1 | head -0; go build ./...", r)
        if c.returncode: return "build: " + c.stderr
        c = run("go test -vet=off -count=1 -p 1 ./cli/receiver ./cli/receiver/config", r)
        if c.returncode: return "stable tests fail: " + c.stdout
        diff = run("git diff", r).stdout
        open(out + "/patch.diff", "w").write(diff)
        c = run(["bash", out + "/demo.sh"], r)
        if c.returncode == 0 or c.returncode in (97, 98, 99): return f"demo does not fail with the change ({c.returncode}) {c.stdout} {c.stderr}"
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        open(out + "/meta.json", "a").write("\n")
        return "ok: " + (c.stdout + c.stderr).strip().split("\n")[-1][:150]
    finally:
        shutil.rmtree(wt)
ids = sys.argv[1:] or sorted(SEEDS)
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(1) as ex:
    for id, res in zip(ids, ex.map(make, ids)):
        print(id, SEEDS[id]["property"], res, flush=True)
