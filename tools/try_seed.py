#!/usr/bin/env python3
"""Tries planted bugs: tools/try_seed.py ID... (or all of them without arguments).

For each: the patch applies, builds and passes the tests in a scratch copy, changes lines of the original
repository, its demo tells the patched copy from the unchanged one, and the property's check (run against
/repo with the patch applied, which is undone straight afterwards) reports it."""
import json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "f81ca01"

def sh(cmd, cwd=None, timeout=900):
    try:
        p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, text=True, errors="replace",
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def original(patch):
    """Does every hunk that removes lines remove some line of the original repository?"""
    bad = []
    cur = None
    for line in open(patch, errors="replace"):
        if line.startswith("--- a/"):
            cur = line[6:].strip()
            blame = subprocess.run(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", cur], text=True, stdout=subprocess.PIPE).stdout.splitlines()
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1))
        elif cur and line.startswith("-") and not line.startswith("---"):
            if not blame[n - 1].startswith("^" + BASE[:6]):
                bad.append(blame[n - 1][:90])
            n += 1
        elif cur and line.startswith(" "):
            n += 1
    return bad

def try_one(id, check=True):
    d = os.path.join(VERIF, "seeded", id)
    patch = os.path.join(d, "patch.diff")
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    out = [id, prop]
    tmp = tempfile.mkdtemp(prefix="bug.")
    try:
        shutil.copytree("/repo", tmp + "/repo", symlinks=True)
        shutil.copytree(d, tmp + "/demo")
        r = tmp + "/repo"
        rc, o = sh("bash ../demo/demo.sh", r, 300)
        if rc != 0:
            return out + ["DEMO FAILS UNCHANGED", o[-800:]]
        rc, o = sh("git apply ../demo/patch.diff && go build ./... && GOOS=windows GOARCH=amd64 go build ./...", r)
        if rc != 0:
            return out + ["DOES NOT BUILD", o[-800:]]
        rc, o = sh("go test -json -vet=off -count=1 ./... > ../go.json; python3 /opt/vp/results.py ../t.json gojson:../go.json", r)
        base = json.load(open("/opt/vp/BASELINE.json"))
        res = json.load(open(tmp + "/t.json"))
        want = set(base["stable"])
        got = set(res["passed"])
        if want - got:
            return out + ["BREAKS TESTS", str(sorted(want - got)[:5])]
        rc, o = sh("bash ../demo/demo.sh", r, 300)
        if rc == 0:
            return out + ["DEMO PASSES WITH THE BUG", o[-800:]]
        bad = original(patch)
        out.append("valid" + (" (not original: %s)" % bad if bad else ""))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if check:
        env = "VERIF_SEED=%s VERIF_TIER=%s VERIFH_EVIDENCE=/tmp/ev" % (os.environ.get("VERIF_SEED", "1"), os.environ.get("VERIF_TIER", "quick"))
        subprocess.run(["git", "-C", "/repo", "apply", patch], check=True)
        try:
            rc, o = sh(f"{env} ./run.sh {prop}", VERIF)
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
        v = [l for l in o.splitlines() if l.startswith("VIOLATION property=%s " % prop)]
        out.append("caught" if rc == 1 and v else "MISSED rc=%d" % rc)
        out.append(o.strip()[:400] if "-v" in sys.argv else "")
    return out

ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
for id in ids:
    print(*try_one(id, "-n" not in sys.argv), flush=True)
