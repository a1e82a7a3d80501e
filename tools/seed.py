#!/usr/bin/env python3
"""Planted bugs: seed.py try ID...   apply to /repo, build, test, demo, check, undo.
   As a library: mk(id, property, needs, breaks, [(file, old, new)], demo_cpp) writes seeded/<id>."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def mk(sid, prop, needs, breaks, edits, demo):
    d = os.path.join(S, sid)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(V, "tools", "kit"), d)
    w = tempfile.mkdtemp(prefix="seed.")
    try:
        sh(f"git -C /repo worktree prune; git clone -q /repo {w}/r")
        for f, old, new in edits:
            p = os.path.join(w, "r", f)
            t = open(p).read()
            assert t.count(old) == 1, (sid, f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", w + "/r", "diff"], stdout=subprocess.PIPE, text=True).stdout
        base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.strip()
    finally:
        shutil.rmtree(w, ignore_errors=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.cpp"), "w").write(demo)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)


def demo(sid):
    w = tempfile.mkdtemp(prefix="demo.")
    shutil.copytree(os.path.join(S, sid), w + "/d")
    r = sh(f"bash {w}/d/demo.sh", cwd="/repo", timeout=300)
    shutil.rmtree(w)
    return r.returncode, r.stdout[-400:]


def attempt(sid, full=True, props=None):
    d = os.path.join(S, sid)
    meta = json.load(open(d + "/meta.json"))
    out = dict(id=sid, property=meta["property"])
    assert sh("git -C /repo status --porcelain").stdout == "", "dirty /repo"
    if full:
        out["demo_clean"] = demo(sid)
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode:
        out["apply"] = r.stdout
        return out
    try:
        if full:
            r = sh("bash /opt/vp/build.sh")
            out["build"] = r.returncode
            sh("bash /opt/vp/test.sh /tmp/seed.out.json")
            t = json.load(open("/tmp/seed.out.json"))
            out["failed"] = t["failed"]
            out["demo_bug"] = demo(sid)
        for p in props or [meta["property"]]:
            t0 = time.time()
            r = sh(f"python3 {V}/check.py {p} quick", cwd=V)
            out["check " + p] = (r.returncode, [x for x in r.stdout.splitlines() if x.startswith("  ") or "ERROR" in x][:2], round(time.time() - t0))
    finally:
        sh("git -C /repo checkout -- .")
    return out


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] in ("try", "check"):
        for s in a[1:] if a[1:] else sorted(os.listdir(S)):
            o = attempt(s, full=a[0] == "try")
            ok = all(v[0] == 1 for k, v in o.items() if k.startswith("check"))
            if a[0] == "try":
                ok2 = o.get("demo_clean", (1,))[0] == 0 and o.get("demo_bug", (0,))[0] != 0 and not o.get("failed") and o.get("build") == 0
                print(s, "VALID" if ok2 else "INVALID", "CAUGHT" if ok else "MISSED", flush=True)
            else:
                print(s, "CAUGHT" if ok else "MISSED", flush=True)
            print(json.dumps(o, indent=1), flush=True)
        if a[0] == "try":
            sh("bash /opt/vp/build.sh")
