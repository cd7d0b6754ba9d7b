#!/usr/bin/env python3
"""mkseed.py NAME...: builds seeded/NAME from tools/seeds/NAME.py in a scratch copy and confirms it.
A spec defines PROP, NEEDS, BREAKS, PKG (package dir), EDITS [(file, old, new)], DEMO (go test body of package, func TestDemo)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds"))
import shutil, subprocess, json, tempfile, runpy, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
SH = '''#!/bin/bash
# exit 0 when the property holds in the demonstrated scenario, nonzero otherwise
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cat > "$t/o.json" <<J
{"Replace": {"$PWD/%s/zz_demo_test.go": "$d/demo_test.go.txt"}}
J
cp "$d/demo_test.go.txt" "$t/zz_demo_test.go"
cat > "$t/o.json" <<J
{"Replace": {"$PWD/%s/zz_demo_test.go": "$t/zz_demo_test.go"}}
J
DEMO_DIR="$t" go test %s -overlay "$t/o.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./%s
'''
SH = re.sub(r'cat > "\$t/o.json" <<J\n\{[^\n]*demo_test.go.txt"\}\}\nJ\n', '', SH)
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def one(name):
    s = runpy.run_path(f"{V}/tools/seeds/{name}.py")
    pkg = s.get("PKG", ".")
    out = f"{V}/seeded/{name}"
    os.makedirs(out, exist_ok=True)
    with open(out + "/demo.sh", "w") as f:
        f.write(SH % (pkg, s.get("FLAGS", ""), pkg))
    with open(out + "/demo_test.go.txt", "w") as f:
        f.write(s["DEMO"].lstrip())
    with open(out + "/meta.json", "w") as f:
        json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, f, indent=1)
        f.write("\n")
    w = tempfile.mkdtemp(prefix="seedwt")
    r = w + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        sh("git checkout -q -- .", r)
        p = sh(f"bash {out}/demo.sh", r)
        if p.returncode != 0:
            print(name, "DEMO FAILS ON CLEAN TREE\n", p.stdout[-2000:]); return False
        for f, a, b in s["EDITS"]:
            t = open(f"{r}/{f}").read()
            if t.count(a) != 1:
                print(name, "edit matches", t.count(a), "times:", a); return False
            open(f"{r}/{f}", "w").write(t.replace(a, b))
        d = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE, text=True).stdout
        open(out + "/patch.diff", "w").write(d)
        p = sh("go build ./... && go vet . ./cryptoer ./provider/bolt ./provider/redis", r)
        if p.returncode != 0:
            print(name, "BUILD/VET", p.stdout[-1500:])
            if "build" in p.stdout: return False
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = base.get("stable") or base.get("pass") or base
        p = sh("rm -f provider/bolt/test.db*; go test -vet=off -count=1 -p 1 -v ./...; rm -f provider/bolt/test.db*", r)
        ok = set(re.findall(r"--- PASS: (\w+)", p.stdout))
        need = {"TestManager", "TestMemoryProvider", "TestSession", "TestEncode", "TestSessionID", "TestProviderRefresh"}
        if need - ok:
            print(name, "STABLE TESTS BROKEN:", need - ok, p.stdout[-1500:]); return False
        p = sh(f"bash {out}/demo.sh", r)
        if p.returncode == 0:
            print(name, "DEMO PASSES WITH THE BUG\n", p.stdout[-2000:]); return False
        print(name, "ok:", [l for l in p.stdout.splitlines() if "demo" in l.lower() or "race" in l.lower() or "panic" in l.lower()][:2])
        return True
    finally:
        shutil.rmtree(w)
names = sys.argv[1:] or sorted(x[:-3] for x in os.listdir(f"{V}/tools/seeds") if x.endswith(".py") and x[0] != "_")
bad = [n for n in names if not one(n)]
sys.exit(1 if bad else 0)
