#!/usr/bin/env python3
"""Development helper: plants the bugs of tools/seed/bugs*.py one after another in a scratch copy of /repo, verifies that each builds,
passes the tests and is shown by its demonstration, and writes seeded/<id>/. mk.py [ID...]; -c also runs the property's check."""
import os, sys, subprocess, json, shutil, glob
V = "/verif"
W = "/tmp/seed/repo"
BUGS = {}


def bug(id, prop, file, old, new, needs, breaks, demo, extra=()):
    assert id not in BUGS, id
    BUGS[id] = dict(prop=prop, edits=[(file, old, new)] + list(extra), needs=needs, breaks=breaks, demo=demo)


for f in sorted(glob.glob(V + "/tools/seed/bugs*.py")):
    exec(open(f).read())


def sh(cmd, cwd=None, t=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return r.returncode, r.stdout.decode(errors="replace")


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(BUGS)
    check = "-c" in sys.argv
    new_only = "-n" in sys.argv
    if not os.path.exists(W):
        os.makedirs("/tmp/seed", exist_ok=True)
        sh("cp -a /repo /tmp/seed/repo")
    base = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"]).decode().strip()
    sh("git fetch -q /repo HEAD && git checkout -q -f %s && git checkout -q -- ." % base, W)
    env = open("/opt/vp/env.sh").read().replace("/repo", W).replace("cd %s || exit 1" % W, "cd %s" % W)
    open("/tmp/seed/env.sh", "w").write(env)
    for id in ids:
        b = BUGS[id]
        d = V + "/seeded/" + id
        if new_only and os.path.exists(d + "/patch.diff"):
            continue
        sh("git checkout -q -- .", W)
        # every changed line must be one of the original repository
        ok = True
        for f, old, new in b["edits"]:
            p = W + "/" + f
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "SKIP: text found %d times in %s: %r" % (s.count(old), f, old[:60]))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        diff = subprocess.check_output(["git", "-C", W, "diff"]).decode()
        orig = subprocess.check_output("git -C %s show 6c43a22:%s" % (W, b["edits"][0][0]), shell=True).decode()
        rem = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
        allorig = "\n".join(subprocess.check_output("git -C %s show 6c43a22:%s" % (W, f), shell=True).decode() for f, _, _ in b["edits"]).split("\n")
        notorig = [l for l in rem if l not in allorig]
        if notorig:
            print(id, "REJECTED: not original lines:", notorig)
            shutil.rmtree(d, ignore_errors=True)
            continue
        rc, out = sh(". /tmp/seed/env.sh; cargo test --workspace --no-run --locked --offline && cargo test --locked --offline --lib -- --test-threads 8", W)
        if rc != 0:
            print(id, "NO BUILD/TESTS", "\n".join(l for l in out.split("\n") if "FAILED" in l or "error" in l or "panicked" in l)[:600] or out[-800:])
            continue
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        shutil.copy(V + "/tools/seed/demo.sh", d + "/demo.sh")
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(open(V + "/tools/seed/head.rs").read() + "fn main() {\n" + b["demo"].strip("\n") + "\n}\n")
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rb, ob = sh(d + "/demo.sh", W)
        sh("git checkout -q -- .", W)
        rg, og = sh(d + "/demo.sh", W)
        line = "%s %s demo bad=%d good=%d" % (id, b["prop"], rb, rg)
        if rg != 0 or rb == 0 or rb == 3:
            shutil.rmtree(d)
            print(line, "REJECTED", (og if rg else ob)[-600:])
            continue
        if check:
            sh("git apply %s/patch.diff" % d, "/repo")
            try:
                rc, out = sh("bin/check %s" % b["prop"], V)
            finally:
                sh("git checkout -q -- .", "/repo")
            v = [l for l in out.split("\n") if "VIOLATION" in l]
            line += " check rc=%d %s" % (rc, v[:1] or out[-200:])
        print(line, flush=True)


main()
