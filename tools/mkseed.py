"""mkseed.py SEEDFILE [id...]: plant bugs in a scratch copy, confirm them, and write /verif/seeded/<id>/.
A seed file defines SEEDS = [dict(id, property, file, old, new, demo (C++), needs, breaks, flags?)]."""
import json, os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = set(sys.argv[2:])


def sh(cmd, cwd=None, t=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)


DEMO = '''#!/bin/bash
# exit 0: the property holds on the demonstrated input; nonzero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
%s -o "$tmp/demo" "$here/demo.cpp" %s || exit 2
cd "$tmp" && timeout 200 ./demo
'''
for s in ns["SEEDS"]:
    if want and s["id"] not in want:
        continue
    tmp = tempfile.mkdtemp(prefix="seed-")
    w = tmp + "/repo"
    sh("git -C /repo worktree prune; git clone -q /repo %s" % w)
    edits = s["edits"] if "edits" in s else [(s["file"], s["old"], s["new"])]
    for f, o, n in edits:
        p = os.path.join(w, f)
        t = open(p).read()
        assert t.count(o) == s.get("count", 1), (s["id"], f, t.count(o))
        open(p, "w").write(t.replace(o, n))
    d = os.path.join("/verif/seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh("git diff", w).stdout)
    open(d + "/demo.cpp", "w").write(s["demo"].lstrip())
    open(d + "/demo.sh", "w").write(DEMO % (s.get("cxx", "g++ -std=c++14 -O1 -fopenmp -w -I src"), s.get("link", "")))
    for src, dst in s.get("files", []):
        os.makedirs(os.path.dirname(os.path.join(d, dst)), exist_ok=True)
        shutil.copy(src, os.path.join(d, dst))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    a = sh("bash %s/demo.sh" % d, "/repo")
    b = sh("bash %s/demo.sh" % d, w)
    print(s["id"], s["property"], "demo clean:", a.returncode, "patched:", b.returncode, "" if a.returncode == 0 and b.returncode not in (0, 2) else "BAD " + a.stderr[-500:] + b.stderr[-500:], flush=True)
    # build and test in place (the build scripts name /repo), then undo
    if not s.get("nobuild"):
        sh("git -C /repo apply %s/patch.diff" % d)
        try:
            r = sh("bash /opt/vp/build.sh")
            r2 = sh("bash /opt/vp/test.sh %s/out.json" % tmp)
            o = json.load(open(tmp + "/out.json")) if os.path.exists(tmp + "/out.json") else {}
            print("   build", r.returncode, "tests", json.dumps(o)[:200], flush=True)
        finally:
            sh("git -C /repo checkout -- .")
    shutil.rmtree(tmp)
