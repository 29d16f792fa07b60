#!/usr/bin/env python3
"""Plant a bug: plant.py SPEC.py [name ...]

SPEC.py defines BUGS = [dict(id=, prop=, edits=[(file, old, new)], demo=Go source,
tools=[CLI tools to build], needs=, what=)].  Each is applied in a scratch copy of
/repo, built, tested, its demo run with and without the change, written to
/verif/seeded/<id>/ and the property's check run against the changed copy.
"""
import json, os, re, shutil, subprocess, sys, tempfile, runpy

BASE = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--reverse", "HEAD"], text=True).split()
ORIG = os.environ.get("CF_BASE", "68b1bbd")

DEMO = r'''#!/bin/bash
# exit 0 on the unchanged tree, nonzero when the planted change is present
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d /tmp/cfdemo.XXXXXX) || exit 99
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/gp/src/github.com/ryanbressler" "$tmp/gp/src/demo" "$tmp/bin" "$tmp/work"
ln -s "$repo" "$tmp/gp/src/github.com/ryanbressler/CloudForest"
cp "$here/demo.go" "$tmp/gp/src/demo/main.go"
export GO111MODULE=off GOTOOLCHAIN=local GOFLAGS= GODEBUG=randautoseed=0 GOPATH="$tmp/gp"
for t in @TOOLS@; do
  go build -o "$tmp/bin/$(basename "$t")" "github.com/ryanbressler/CloudForest/$t" || exit 98
done
go build -o "$tmp/bin/demo" demo || exit 97
cd "$tmp/work" && PATH="$tmp/bin:$PATH" timeout 200 "$tmp/bin/demo"
'''

def run(cmd, **kw):
    return subprocess.run(cmd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def demo(d, repo):
    r = run(["bash", d + "/demo.sh"], cwd=repo)
    return r.returncode, r.stdout

def env_for(scratch):
    e = dict(os.environ)
    gp = scratch + "/gp"
    os.makedirs(gp + "/src/github.com/ryanbressler", exist_ok=True)
    link = gp + "/src/github.com/ryanbressler/CloudForest"
    if not os.path.islink(link):
        os.symlink(scratch + "/repo", link)
    e.update(GO111MODULE="off", GOTOOLCHAIN="local", GOFLAGS="", GODEBUG="randautoseed=0", GOPATH=gp)
    return e

def tests(scratch):
    e = env_for(scratch)
    r = run(["go", "build", "./..."], cwd=scratch + "/gp/src/github.com/ryanbressler/CloudForest", env=e)
    if r.returncode:
        return "BUILD " + r.stdout
    base = json.load(open("/opt/vp/BASELINE.json"))
    r = run(["go", "test", "-count=1", "-v", ".", "./stats", "./sortby"], cwd=scratch + "/gp/src/github.com/ryanbressler/CloudForest", env=e)
    passed = set(re.findall(r"--- PASS: (\S+)", r.stdout))
    want = re.findall(r"Test\w+", json.dumps(base))
    miss = [w for w in want if w not in passed]
    return ("TESTS FAIL " + " ".join(miss)) if miss else ""

def plant(b, keep=True):
    sid = b["id"]
    scratch = tempfile.mkdtemp(prefix="cfplant.", dir="/tmp")
    out = "/verif/seeded/" + sid
    try:
        shutil.copytree("/repo", scratch + "/repo", symlinks=True)
        for f, o, n in b["edits"]:
            p = scratch + "/repo/" + f
            s = open(p).read()
            if s.count(o) != 1:
                return "%s: edit matches %d times: %r" % (sid, s.count(o), o[:80])
            open(p, "w").write(s.replace(o, n))
        diff = subprocess.check_output(["git", "-C", scratch + "/repo", "diff"], text=True)
        # original lines?
        removed = {}
        for f in {e[0] for e in b["edits"]}:
            bl = subprocess.check_output(["git", "-C", scratch + "/repo", "blame", "-s", "-l", "HEAD", "--", f], text=True).splitlines()
            removed[f] = bl
        orig = new = 0
        cur = None
        for line in diff.splitlines():
            m = re.match(r"--- a/(.*)", line)
            if m: cur = m.group(1); continue
            m = re.match(r"@@ -(\d+)", line)
            if m: n = int(m.group(1)); continue
            if line.startswith("-"):
                if removed[cur][n-1].startswith(BASEFULL) or removed[cur][n-1].startswith("^"): orig += 1
                else: new += 1
                n += 1
            elif line.startswith(" "): n += 1
        t = tests(scratch)
        if t:
            return sid + ": " + t
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.go", "w").write(b["demo"].lstrip("\n"))
        open(out + "/demo.sh", "w").write(DEMO.replace("@TOOLS@", " ".join(b.get("tools", []))))
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(out + "/meta.json", "w"), indent=1)
        c, o1 = demo(out, "/repo")
        d, o2 = demo(out, scratch + "/repo")
        msg = "%s (%s): orig lines %d, own lines %d; demo clean=%d patched=%d" % (sid, b["prop"], orig, new, c, d)
        if c != 0 or d in (0, 97, 98, 99, 124) or orig == 0:
            shutil.rmtree(out)
            return msg + " REJECTED\n--clean\n" + o1[-800:] + "\n--patched\n" + o2[-800:]
        e = dict(os.environ, CF_REPO=scratch + "/repo", CF_WORK=scratch + "/w", VERIF_SEED="1")
        e.pop("VERIF_TIER", None)
        r = run(["/verif/check", b["prop"]], cwd="/verif", env=e)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + b["prop"])]
        return msg + (" CAUGHT" if r.returncode == 1 and v else " MISSED rc=%d %s" % (r.returncode, r.stdout[-300:]))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

BASEFULL = subprocess.check_output(["git", "-C", "/repo", "rev-parse", ORIG], text=True).strip()
if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if sys.argv[2:]:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(3) as ex:
        for m in ex.map(plant, bugs):
            print(m, flush=True)
