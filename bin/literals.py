"""Literals of the code under check, given to the probes as a dictionary of interesting sizes, numbers and strings.

It only steers where E3 looks; it decides nothing.  Literals that are not in the recorded baseline of the file
(bin/literals.json, regenerate with `python3 bin/literals.py`) are marked hot and tried more often."""
import json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, "literals.json")
TOK = re.compile(r'''//[^\n]*|/\*.*?\*/|b?r(#*)"(.*?)"\1|b?"((?:[^"\\]|\\.)*)"|b?'((?:[^'\\\n]|\\[^\n])[^'\n]{0,8}?)'(?!\w)|\b(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:\.[0-9]+)?((?:[iu](?:8|16|32|64|128|size))?)\b(?:\s*<<\s*([0-9]+))?|\b[iu](8|16|32|64)::MAX\b''', re.S)
ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\\": "\\", "'": "'", '"': '"'}


def unesc(s):
    return re.sub(r"\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)", lambda m: ESC.get(m.group(1)) or (chr(int(m.group(1)[1:], 16)) if m.group(1)[0] == "x" and len(m.group(1)) == 3 else chr(int(m.group(1)[2:-1].replace("_", ""), 16)) if m.group(1).startswith("u{") else m.group(1)), s, flags=re.S)


def scan(text):
    nums, strs = {}, {}
    for m in TOK.finditer(text):
        if m.group(0)[:2] in ("//", "/*"):
            continue
        try:
            if m.group(2) is not None:
                strs[m.group(2)] = strs.get(m.group(2), 0) + 1
            elif m.group(3) is not None:
                s = unesc(m.group(3))
                strs[s] = strs.get(s, 0) + 1
            elif m.group(4) is not None:
                s = unesc(m.group(4))
                if len(s) == 1:
                    nums[str(ord(s))] = nums.get(str(ord(s)), 0) + 1
            elif m.group(5) is not None:
                t = m.group(5).replace("_", "")
                v = int(t, 0) if t[:2] in ("0x", "0b", "0o") else int(t)
                if m.group(7):
                    v <<= min(int(m.group(7)), 64)
                nums[str(v)] = nums.get(str(v), 0) + 1
            elif m.group(8) is not None:
                v = (1 << int(m.group(8))) - 1
                nums[str(v)] = nums.get(str(v), 0) + 1
        except Exception:
            pass
    return nums, strs


def files(repo):
    for d, ds, fs in os.walk(repo):
        ds[:] = [x for x in ds if x not in ("target", ".git", "tests", "node_modules", "test-fixtures", "test")]
        for f in fs:
            if f.endswith(".rs"):
                yield os.path.relpath(os.path.join(d, f), repo)


def all_of(repo):
    out = {}
    for f in files(repo):
        try:
            n, s = scan(open(os.path.join(repo, f), encoding="utf-8").read())
        except Exception:
            continue
        out[f] = {"n": n, "s": s}
    return out


DIRS = {"C13": ["protocol/versioned", "protocol/serialization-types-macros"], "C14": ["protocol/versioned", "protocol/serialization-types-macros"],
        "C16": ["merkle"], "C17": ["merkle"], "C18": ["merkle"], "C19": ["merkle"], "C20": ["consensus"], "C21": ["consensus"], "C22": ["consensus"]}


def write(repo, pid, path):
    base = json.load(open(BASE)) if os.path.exists(BASE) else {}
    cur = all_of(repo)
    dirs = DIRS.get(pid, ["protocol/bin-prot/src"])
    nums, strs, hotn, hots = set(), set(), set(), set()
    for f, c in cur.items():
        b = base.get(f, {"n": {}, "s": {}})
        mine = any(f.startswith(d) for d in dirs)
        for k, cnt in c["n"].items():
            v = int(k)
            if v >= 1 << 64:
                continue
            if mine:
                nums.add(v)
            if cnt > b["n"].get(k, 0):
                hotn.add(v)
        for k, cnt in c["s"].items():
            if len(k) > 64:
                continue
            if mine and "{" not in k:
                strs.add(k)
            if cnt > b["s"].get(k, 0):
                hots.add(k)
    with open(path, "w") as o:
        for t, vs in (("n", sorted(nums)), ("N", sorted(hotn))):
            for v in vs:
                o.write(f"{t} {v}\n")
        for t, vs in (("s", sorted(strs)), ("S", sorted(hots))):
            for v in vs:
                o.write(f"{t} {v.encode().hex()}\n")
    return {"numbers": len(nums), "strings": len(strs), "new_numbers": sorted(hotn)[:40], "new_strings": sorted(hots)[:20]}


if __name__ == "__main__":
    json.dump(all_of(sys.argv[1] if len(sys.argv) > 1 else "/repo"), open(BASE, "w"), indent=0, sort_keys=True)
