#!/usr/bin/env python3
# mkseed.py ID PROPERTY FILE  (stdin: old ==== new ==== needs ==== what ==== demo main body/cpp)  -> seeded/ID/
# several edits: old/new pairs separated by lines "@@@ FILE"
import sys, os, subprocess, json, tempfile, shutil
ID, PROP, FILE = sys.argv[1:4]
opts = sys.argv[4:]
t = sys.stdin.read()
parts = t.split("\n====\n")
edits, needs, what, demo = parts[:-3], parts[-3], parts[-2], parts[-1]
wt = tempfile.mkdtemp(prefix="seedwt_")
subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s && git -C %s init -q && git -C %s add -A && git -C %s -c user.name=a -c user.email=a@b commit -qm x" % (wt, wt, wt, wt), shell=True)
f = FILE
for i in range(0, len(edits), 2):
    old, new = edits[i].strip("\n"), edits[i+1].strip("\n")
    if old.startswith("@@@ "): f, old = old[4:].split("\n", 1)
    p = os.path.join(wt, f); s = open(p, encoding="utf-8", newline="").read()
    if s.count(old) != 1: print("COUNT", s.count(old), repr(old)); sys.exit(1)
    open(p, "w", encoding="utf-8", newline="").write(s.replace(old, new))
d = os.environ.get("SEED_OUT", "/verif/seeded/") + ID; os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", wt, "diff"]))
shutil.rmtree(wt)
json.dump({"property": PROP, "needs": needs.strip(), "what_it_breaks": what.strip()}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.cpp", "w").write(demo)
LIB = {"html": "lib/whatwg/html/parsing/atom_tbl.cpp", "url": "lib/whatwg/url/url.cpp lib/whatwg/url/host.cpp", "encoding": "lib/whatwg/encoding/indexes_pointer.cpp lib/whatwg/encoding/indexes_code_point.cpp lib/whatwg/encoding/encoding.cpp", "css": "lib/wwwc/css_syntax/token.cpp", "selectors": "lib/wwwc/selectors/grammar.cpp"}
libs = " ".join(LIB[o] for o in opts if o in LIB)
link = " -licuuc -licui18n -licudata" if "url" in opts else ""
open(d + "/demo.sh", "w").write('''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -include cstdint -include cassert -include limits -include algorithm -w -O0 -Iinclude "$D/demo.cpp" %s -o "$T/demo"%s || exit 3
timeout 60 "$T/demo"
''' % (libs, link))
print("ok", ID)
