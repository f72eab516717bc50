#!/usr/bin/env python3
# mkbug.py: bug(id, prop, edits, demo, needs, breaks): writes seeded/<id>/ from textual edits against /repo's HEAD.
import os, subprocess, json, difflib
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
DEMO_SH = r'''#!/bin/bash
# Builds and runs demo.cpp against the library in /repo; all effects stay in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -w -g -O0 %s -I/repo/src/pe_lib -I"$here" "$here/demo.cpp" %s -o "$t/demo" || exit 3
cd "$t" && ./demo
'''
def bug(id, prop, edits, demo, needs, breaks, flags="", san=False, tsan=False):
    d = os.path.join(ROOT, id)
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in edits:
        p = "src/pe_lib/" + f
        if p not in files: files[p] = open("/repo/" + p, newline="").read()
        assert files[p].count(old) == 1, (id, f, files[p].count(old), old)
        files[p] = files[p].replace(old, new)
    out = ""
    for p, s in files.items():
        o = open("/repo/" + p, newline="").read()
        out += "".join(difflib.unified_diff(o.splitlines(True), s.splitlines(True), "a/" + p, "b/" + p))
    open(os.path.join(d, "patch.diff"), "w", newline="").write(out)
    open(os.path.join(d, "demo.cpp"), "w").write(demo)
    lib = "/repo/src/pe_lib/*.cpp" if san or tsan else "/repo/lib/Debug/libpe_lib.a"
    fl = ("-fsanitize=address,undefined -fno-sanitize-recover=all " if san else "-fsanitize=thread -pthread " if tsan else "") + flags
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH % (fl, lib))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
