#!/usr/bin/env python3
"""plant.py SPEC.py... : turns a description of a planted bug into seeded/<id>/{patch.diff,demo.sh,demo.cpp,meta.json}.
A spec defines id, prop, needs, breaks, edits=[(file, old, new)], demo (C++ source), flags (extra compile flags), san (bool)."""
import json, os, subprocess, sys, tempfile, shutil
for spec in sys.argv[1:]:
    g = {"flags": "", "san": False, "time": 60}
    exec(open(spec).read(), g)
    d = "/verif/seeded/" + g["id"]
    os.makedirs(d, exist_ok=True)
    s = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    subprocess.check_call(["git", "-C", "/repo", "archive", "--format=tar", "-o", s + "/a.tar", "HEAD", "seq"])
    subprocess.check_call("tar xf a.tar && rm a.tar && git init -q && git add -A && git -c user.name=a -c user.email=a@a commit -qm a", shell=True, cwd=s)
    for f, old, new in g["edits"]:
        p = os.path.join(s, f)
        t = open(p, newline="").read()
        if "\r\n" in t:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if t.count(old) != 1:
            sys.exit("%s: %d matches in %s of\n%s" % (spec, t.count(old), f, old))
        open(p, "w", newline="").write(t.replace(old, new))
    open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "diff"], cwd=s))
    shutil.rmtree(s)
    open(d + "/demo.cpp", "w").write(g["demo"].lstrip("\n"))
    fl = "-fsanitize=address,undefined -fno-sanitize-recover=all " if g["san"] else ""
    open(d + "/demo.sh", "w").write("""#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -g -march=native -w %s%s -I"$PWD" "$D/demo.cpp" -o "$T/demo" -ltbb -lpthread || exit 3
timeout %d "$T/demo"
""" % (fl, g["flags"], g["time"]))
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("planted", g["id"])
