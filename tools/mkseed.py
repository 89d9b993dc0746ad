#!/usr/bin/env python3
"""mkseed.py ID PROPERTY PKG < spec: makes /verif/seeded/ID and tries it.

spec: NEEDS: and BREAKS: lines, '--- edit' (python, sub(path, old, new)),
'--- test' (a Go test of package PKG with functions TestDemo...).
With --try ID... tries existing ones again (all when none is named)."""
import sys, os, json, subprocess, tempfile, shutil, re
V = "/verif"
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOPATH="/root/go", GOCACHE="/root/.cache/go-build")
DEMO = '''#!/bin/bash
# %s
# exit 0: the behaviour is as required; anything else: it is not
set -u
dir=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOCACHE=/root/.cache/go-build
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%s/zz_demo_test.go" "$dir/demo_test.go.txt" > "$tmp/overlay.json"
go test -vet=off -overlay "$tmp/overlay.json" -count=1 -run TestDemo -timeout 200s ./%s
'''
def run(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def stable(repo):
    for _ in range(2):
        r = run(["go", "test", "-json", "-vet=off", "-count=1", "-cpu", "1", "-timeout", "2m", "./..."], repo)
        ok = set()
        for l in r.stdout.splitlines():
            try: x = json.loads(l)
            except ValueError: continue
            if x.get("Action") == "pass" and x.get("Test"): ok.add(x["Package"] + "/" + x["Test"])
        if STABLE <= ok: return []
    return sorted(STABLE - ok)
def demo(repo, d):
    e = tempfile.mkdtemp(prefix="/tmp/elsewhere.")
    for f in os.listdir(d):
        if not f.endswith((".diff", ".patch")) and f != "meta.json": shutil.copy(os.path.join(d, f), e)
    try:
        r = run(["bash", e + "/demo.sh"], repo, 300)
        return r.returncode, (r.stdout + r.stderr)[-1500:]
    except subprocess.TimeoutExpired: return 124, "timeout"
    finally: shutil.rmtree(e)
def attempt(id, check=True):
    d = f"{V}/seeded/{id}"
    meta = json.load(open(d + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix="/tmp/seed.")
    repo = tmp + "/repo"
    try:
        run(["cp", "-a", "/repo", repo])
        run(["git", "checkout", "-q", "--", "."], repo)
        rc0, out0 = demo(repo, d)
        r = run(["git", "apply", d + "/patch.diff"], repo)
        if r.returncode: return f"{id}: patch does not apply: {r.stderr}"
        r = run(["go", "build", "./..."], repo)
        if r.returncode: return f"{id}: does not build: {r.stderr[:600]}"
        miss = stable(repo)
        rc1, out1 = demo(repo, d)
        res = f"{id} ({meta['property']}): "
        bad = []
        if rc0: bad.append("demo fails on the unchanged tree: " + out0)
        if miss: bad.append(f"stable tests fail: {miss}")
        if not rc1: bad.append("demo passes with the patch")
        if os.environ.get("SHOW"): bad.append(out1)
        # which lines of the original does it change
        base, f = 0, None
        for l in run(["git", "diff", "-U0"], repo).stdout.splitlines():
            if l.startswith("--- a/"): f = l[6:]
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m and int(m.group(2) or 1):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                base += sum(x.startswith("^") for x in run(["git", "blame", "-s", "-L", f"{a},+{n}", "HEAD", "--", f], repo).stdout.splitlines())
        if not base: bad.append("changes no line of the original")
        mv = tmp + "/v"; os.makedirs(mv)
        for f in ("spec", "known_findings.txt"): os.symlink(f"{V}/{f}", f"{mv}/{f}")
        os.makedirs(mv + "/evidence")
        caught = []
        if check:
            for p in (["all"] if os.environ.get("ALLP") else [meta["property"]]):
                r = run([V + "/bin/checker", "-repo", repo, "-verif", mv, "-property", p], timeout=1800)
                caught += [l[:260] for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                if r.returncode not in (0, 1): caught.append(f"rc={r.returncode} {r.stderr[-300:]}")
        det = []
        for l in r.stdout.splitlines() if check else []:
            if "VIOLATION" in l or l.startswith("  "): det.append(l[:220])
        return res + ("OK" if not bad else "BAD " + " | ".join(bad)) + (" CAUGHT " if caught else " MISSED ") + "\n    " + "\n    ".join(det[:4])
    finally: shutil.rmtree(tmp)
def make(id, prop, pkg):
    t = sys.stdin.read()
    head, rest = t.split("--- edit\n"); edit, test = rest.split("--- test\n")
    needs = re.search(r"NEEDS:\s*(.*)", head).group(1); breaks = re.search(r"BREAKS:\s*(.*)", head).group(1)
    tmp = tempfile.mkdtemp(prefix="/tmp/seedmk."); repo = tmp + "/repo"
    d = f"{V}/seeded/{id}"
    try:
        run(["cp", "-a", "/repo", repo]); run(["git", "checkout", "-q", "--", "."], repo)
        def sub(p, old, new, n=1):
            s = open(f"{repo}/{p}").read()
            assert s.count(old) >= 1, (p, old)
            open(f"{repo}/{p}", "w").write(s.replace(old, new) if n == 0 else s.replace(old, new, n))
        exec(edit, {"sub": sub, "re": re, "repo": repo})
        r = run(["git", "diff"], repo)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(r.stdout)
        open(d + "/demo_test.go.txt", "w").write(test)
        open(d + "/demo.sh", "w").write(DEMO % (id, pkg, pkg))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    finally: shutil.rmtree(tmp)
    print(attempt(id))
if __name__ == "__main__":
    if sys.argv[1] == "--try":
        for id in sys.argv[2:] or sorted(os.listdir(V + "/seeded")): print(attempt(id), flush=True)
    else: make(*sys.argv[1:4])
