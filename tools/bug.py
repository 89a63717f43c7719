#!/usr/bin/env python3
"""bug.py confirm ID... : checks that a planted bug applies, builds, passes the tests, and that its demo tells the trees apart
   bug.py catch ID [PROPERTY] : runs the check of its property against a scratch copy with the bug
   bug.py base : (re)creates the scratch copy of /repo used by both"""
import json, os, subprocess, sys
SEED = "/verif/seeded"
BASE = "/tmp/bugbase"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(tree):
    # the suite hard codes /repo: build in the copy with the same commands
    b = open("/opt/vp/build.sh").read().replace("/repo", tree)
    open("/tmp/build_copy.sh", "w").write(b)
    r = sh("bash /tmp/build_copy.sh")
    if r.returncode:
        return None, r.stdout[-3000:]
    r = sh("cd %s/_build && python3 /opt/vp/run_doctest.py ./bin/Debug/test_sparrow_lib %s/_build/vp-reports /tmp/bug_out.json" % (tree, tree))
    o = json.load(open("/tmp/bug_out.json"))
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return want - set(o["passed"]), r.stdout[-500:]


def demo(bug, tree):
    d = "/tmp/bugdemo"
    sh("mkdir -p %s && find %s -mindepth 1 -delete; cp %s/%s/* %s/; find %s -name '*.diff' -delete -o -name meta.json -delete" % (d, d, SEED, bug, d, d))
    # demos name /repo only through their cwd
    return sh("sh -c 'cd %s && timeout 300 bash %s/demo.sh'" % (tree, d))


def fresh():
    sh("mkdir -p %s && cd /repo && rsync -a --delete --exclude _build /repo/ %s/ || (cp -a /repo/. %s/)" % (BASE, BASE, BASE))
    sh("git -C %s checkout -q -- . && git -C %s clean -fdq -e _build" % (BASE, BASE))


def main():
    cmd = sys.argv[1]
    if cmd == "base":
        fresh()
        miss, log = tests(BASE)
        print("missing tests:", miss, log if miss is None else "")
        return
    if cmd == "confirm":
        fresh()
        for bug in sys.argv[2:]:
            print("==", bug)
            miss, log = tests(BASE)
            if miss is None or miss:
                print("  base broken", miss, log); return
            r0 = demo(bug, BASE)
            a = sh("git -C %s apply %s/%s/patch.diff" % (BASE, SEED, bug))
            if a.returncode:
                print("  DOES NOT APPLY", a.stdout); continue
            miss, log = tests(BASE)
            r1 = demo(bug, BASE)
            sh("git -C %s checkout -q -- ." % BASE)
            ok = r0.returncode == 0 and r1.returncode != 0 and miss is not None and not miss
            print("  %s demo clean=%d bug=%d tests missing=%s" % ("OK" if ok else "NOT OK", r0.returncode, r1.returncode, "build failed" if miss is None else sorted(miss)[:5]))
            if miss is None: print(log)
            if r0.returncode: print(r0.stdout[-1500:])
            print("   " + r1.stdout[-300:].replace("\n", "\n   "))
        tests(BASE)
        return
    if cmd == "catch":
        fresh()
        for bug in sys.argv[2].split(","):
            meta = json.load(open("%s/%s/meta.json" % (SEED, bug)))
            props = sys.argv[3].split(",") if len(sys.argv) > 3 else [meta["property"]]
            a = sh("git -C %s apply %s/%s/patch.diff" % (BASE, SEED, bug))
            if a.returncode:
                print(bug, "DOES NOT APPLY", a.stdout); continue
            for p in props:
                r = sh("SIM_REPO=%s SIM_BUILD=/tmp/bugbuild python3 /verif/check.py %s quick" % (BASE, p))
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION ")]
                d = [l for l in r.stdout.splitlines() if l.startswith("  ")]
                print("%-28s %s rc=%d %s %s" % (bug, p, r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", d[0][:150] if d else r.stdout[-300:]))
                sys.stdout.flush()
            sh("git -C %s checkout -q -- ." % BASE)


main()
