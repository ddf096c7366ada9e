#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: makes seeded/ID from the planted bugs a spec file lists, after confirming
each in a scratch copy of /repo: it builds, the stable tests pass, and the demonstration passes without it and
fails with it. (Not used by any check.)

A spec defines SEEDS, a list of dicts: id, property, needs, breaks, edits [(file, old, new)], main (Go), race."""
import json, os, runpy, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")


def sh(cmd, cwd, timeout=400):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)


def stable(repo, d):
    """Runs the stable tests in the copy."""
    for f in ("test.sh", "build.sh", "env.sh"):
        s = open("/opt/vp/" + f).read().replace("/opt/vp/mods", d + "/mods").replace("/opt/vp/logs", d + "/logs").replace("/repo", repo).replace("/opt/vp/env.sh", d + "/env.sh")
        open(d + "/" + f, "w").write(s)
    shutil.copytree("/opt/vp/mods", d + "/mods", dirs_exist_ok=True)
    r = sh("bash %s/build.sh" % d, repo)
    if r.returncode:
        return "build: " + r.stdout + r.stderr
    r = sh("bash %s/test.sh %s/out.json" % (d, d), repo)
    out = json.load(open(d + "/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    key = next(k for k in base if isinstance(base[k], list) and len(base[k]) == 144)
    missing = set(base[key]) - set(out["passed"])
    return "tests fail: %s" % sorted(missing)[:5] if missing else None


def main():
    spec = runpy.run_path(sys.argv[1])
    want = sys.argv[2:]
    for s in spec["SEEDS"]:
        if want and s["id"] not in want:
            continue
        d = tempfile.mkdtemp(prefix="plant.")
        try:
            print(s["id"], s["property"], one(s, d), flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def one(s, d):
    repo = d + "/repo"
    shutil.copytree("/repo", repo, symlinks=True)
    out = d + "/seed"
    os.mkdir(out)
    open(out + "/main.go", "w").write(s["main"])
    shutil.copy(HERE + "/helper.go", out)
    open(out + "/demo.sh", "w").write(open(HERE + "/demo.sh").read().replace("RACE ", "-race " if s.get("race") else ""))
    os.chmod(out + "/demo.sh", 0o755)
    r = sh("gofmt -l %s" % out, repo)
    sh(". /opt/vp/env.sh; gofmt -w %s/main.go" % out, repo)
    r = sh("bash %s/demo.sh" % out, repo)
    if r.returncode:
        return "BAD: demo fails unpatched: " + r.stdout[-3000:] + r.stderr[-3000:]
    for f, old, new in s["edits"]:
        p = repo + "/" + f
        t = open(p).read()
        if t.count(old) != s.get("count", 1):
            return "BAD: %d matches in %s of %r" % (t.count(old), f, old)
        open(p, "w").write(t.replace(old, new))
    r = sh(". /opt/vp/env.sh; gofmt -l *.go netx xproto slice types collation", repo)
    if r.stdout.strip():
        print("  gofmt:", r.stdout.strip())
    diff = sh("git diff", repo).stdout
    open(out + "/patch.diff", "w").write(diff)
    e = stable(repo, d)
    if e:
        return "BAD: " + e
    r = sh("bash %s/demo.sh" % out, repo)
    if r.returncode in (0, 3):
        return "BAD: demo with patch: %d %s" % (r.returncode, r.stdout[-2000:] + r.stderr[-2000:])
    tail = (r.stdout + r.stderr).strip().splitlines()
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    dst = SEEDED + "/" + s["id"]
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(out, dst)
    return "kept; demo: " + (tail[0][:150] if tail else "")


main()
