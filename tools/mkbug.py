#!/usr/bin/env python3
"""mkbug.py SPEC.py : writes /verif/seeded/<id>/ from a spec (id, prop, needs, breaks, edits=[(file, old, new)], demo=C++ text)"""
import json, os, subprocess, sys
sys.path.insert(0, "/verif/tools")
B = "/tmp/bugbase"
DEMO_SH = '''#!/bin/sh
# run with cwd at the repository, after its build: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
out=$(mktemp -d) || exit 2
trap 'rm -rf -- "$out"' EXIT
# contract checks keep their default behaviour; a failing one ends the program, which also counts as a failure
g++ -std=c++20 -g -O0 %s-DSPARROW_USE_DATE_POLYFILL -I"$repo/include" "$here/demo.cpp" -o "$out/demo" -L"$repo/_build/bin/Debug" -lsparrow -ldate-tz -Wl,-rpath,"$repo/_build/bin/Debug" || exit 0
cd "$out" && timeout 120 ./demo
'''


def mk(id, prop, needs, breaks, edits, demo, flags=""):
    subprocess.run("rsync -a --delete --exclude _build /repo/ %s/ && git -C %s checkout -q -- ." % (B, B), shell=True, check=True)
    for f, old, new in edits:
        p = os.path.join(B, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run("git -C %s diff" % B, shell=True, stdout=subprocess.PIPE, text=True).stdout
    assert diff
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO_SH % (flags + " " if flags else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    subprocess.run("git -C %s checkout -q -- ." % B, shell=True, check=True)
    print("wrote", id)


exec(open(sys.argv[1]).read())
