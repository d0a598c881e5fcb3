#!/usr/bin/env python3
"""prepare.py REPO OUT  -- renders concrete/<crate>/*.toml.in into OUT (= .build/<crate>_src): the probe and shadow manifests
whose [lib] path is the source file in REPO, so the code that is compiled is /repo's, with stand-ins for dependencies that
are not installed here."""
import os, sys
repo, out = sys.argv[1], sys.argv[2]
here = os.path.dirname(os.path.abspath(__file__))
crate = os.path.basename(out)[:-4]
src = os.path.join(here, crate)
def put(p, text):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not (os.path.exists(p) and open(p).read() == text):
        open(p, "w").write(text)
for d, _, fs in os.walk(src):
    for f in fs:
        p = os.path.join(d, f)
        rel = os.path.relpath(p, src)
        if f.endswith(".in"):
            put(os.path.join(out, rel[:-3]), open(p).read().replace("@REPO@", repo).replace("@VERIF@", os.path.dirname(here)))
        elif f == "Cargo.lock" and not os.path.exists(os.path.join(out, rel)):
            put(os.path.join(out, rel), open(p).read())
