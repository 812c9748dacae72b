#!/usr/bin/env python3
"""mkbug.py ID PROP file <<EOF json-ish: creates seeded/ID/{patch.diff,meta.json} from an edit of /repo (reverted)."""
import json, os, subprocess, sys
def mk(id, prop, edits, needs, breaks, files):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p = "/repo/" + f
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    for n, t in files.items():
        open(d + "/" + n, "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
CDEMO = """#!/bin/bash
# Compiles the demonstration against the sources in the current directory.
set -e
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
gcc -O1 -g -w %s -I include -I . "$D/demo.c" %s -o "$W/demo" -lm -ldl -lpthread
cd "$W" && timeout 60 ./demo
"""
CORE = "src/Runtime/OMTensor.c src/Runtime/OMTensorList.c src/Runtime/OnnxDataType.c src/Runtime/OMInstrument.c src/Support/SmallFPConversion.c"
def cdemo(extra="", flags=""): return CDEMO % (flags, extra + " " + CORE)
