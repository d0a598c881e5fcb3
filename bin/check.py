#!/usr/bin/env python3
"""Decide one property against /repo's working tree.

  check.py CNN            quick run (VERIF_TIER=thorough for the deep one)
  check.py --setup        build the tools ahead of time

E1  Verus on functions extracted from /repo on this run   (unbounded, the deciding step)
E2  Kani on the compiled crate                            (complete per harness, full domain)
E3  concrete cases on the compiled crate                  (bounded; finds the failing input, stands in where E1 cannot reach)
Exit 0: held.  Exit 1 + VIOLATION line: broken.
"""
import fcntl, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, os.path.join(VERIF, "bin"))
sys.dont_write_bytecode = True
import config, literals

T0 = time.time()


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout, cwd=None, env=None, mem_gb=None):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    if env:
        e.update(env)
    if mem_gb:
        cmd = ["prlimit", f"--as={int(mem_gb * 2**30)}"] + cmd
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        o, x = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), x.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, x = p.communicate()
        return 124, o.decode("utf8", "replace"), x.decode("utf8", "replace") + "\n[timed out]"


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_vx():
    with Lock("vx"):
        tgt = os.path.join(BUILD, "vx")
        rc, o, x = run(["cargo", "+stable", "build", "--offline", "-q", "--target-dir", tgt], 600, cwd=os.path.join(VERIF, "tools/vx"))
        if rc:
            raise RuntimeError("vx does not build: " + x[-2000:])
        return os.path.join(tgt, "debug", "vx")


# ---------------------------------------------------------------- E1
def strip_name(n):
    n = n.split("::", 1)[1] if "::" in n else n
    return re.sub(r"impl&%\d+::", "", n)


def expand(unit):
    """text generated by /repo's macros, expanded by rustc on this run -> .build/expanded/"""
    c = config.EXPAND[unit]
    with Lock("expand_" + unit):
        rc, o, x = run(["cargo", "+1.70.0", "rustc", "-q", "--offline", "--bin", c["bin"], "--features", c["features"], "--no-default-features", "--target-dir", os.path.join(BUILD, "expand"), "--", "-Zunpretty=expanded"],
                       400, cwd=c["dir"].format(verif=VERIF), env={"VERIF_REPO": REPO, "RUSTC_BOOTSTRAP": "1"})
        if rc or not o.strip():
            return x[-1500:]
        os.makedirs(os.path.join(BUILD, "expanded"), exist_ok=True)
        open(os.path.join(BUILD, "expanded", c["out"]), "w").write(o)
    return ""


def verus_unit(vx, unit, pid, rlimit, multi=1):
    """-> dict: status ok|fail|undecided, functions, failed [(name, message)], reason"""
    d = os.path.join(BUILD, "verus", pid)
    os.makedirs(d, exist_ok=True)
    src, rep = os.path.join(d, unit + ".rs"), os.path.join(d, unit + ".json")
    res = {"unit": unit, "status": "undecided", "functions": [], "failed": [], "undecided": [], "reason": "", "report": {}, "trusted": []}
    if unit in config.EXPAND:
        err = expand(unit)
        if err:
            res["reason"] = "macro expansion: " + err
            return res
    rc, o, x = run([vx, os.path.join(VERIF, "verus", unit + ".rs"), src, rep, REPO], 60, env={"VX_BUILD": BUILD})
    if os.path.exists(rep):
        try:
            res["report"] = json.load(open(rep))
        except Exception:
            pass
    if rc:
        res["reason"] = "extraction: " + x.strip()[-600:]
        return res
    text = open(src).read()
    # vacuity guard: this obligation must NOT be dischargeable
    cut = text.rindex("} // verus!")
    text = text[:cut] + "pub proof fn vx_canary() ensures false {}\n" + text[cut:]
    open(src, "w").write(text)
    lines = text.split("\n")
    owner, cur = [None] * (len(lines) + 2), None
    for i, l in enumerate(lines, 1):
        if l.startswith("// @FN "):
            cur = l[7:].strip()
        owner[i] = cur
        if l.startswith("// @ENDFN"):
            cur = None
    cmd = ["verus", src, "--output-json", "--time-expanded", "--rlimit", str(rlimit), "--num-threads", "6", "--multiple-errors", "3"]
    res["cmd"] = " ".join(cmd)
    t = time.time()
    rc, o, x = run(cmd, 400, cwd=d, mem_gb=None)
    res["wall_s"] = round(time.time() - t, 2)
    res["stderr"] = x
    try:
        j = json.loads(o[o.index("{"):])
        vr = j["verification-results"]
        fb = [f for m in j["times-ms"]["smt"]["smt-run-module-times"] for f in m["function-breakdown"]]
    except Exception:
        res["reason"] = "verus gave no result: " + (x or o)[-1500:]
        return res
    if vr.get("encountered-vir-error"):
        res["reason"] = "verus does not accept the extracted text: " + x[-1500:]
        return res
    fns = {}
    canary_failed = None
    for f in fb:
        n = strip_name(f["function"])
        if n == "vx_canary":
            canary_failed = not f["success"]
            continue
        a = fns.setdefault(n, {"name": n, "mode": f.get("mode:", f.get("mode", "?")), "success": True, "us": 0, "queries": 0})
        a["success"] &= f["success"]
        a["us"] += f["time-micros"]
        a["queries"] += 1
    res["functions"] = sorted(fns.values(), key=lambda f: f["name"])
    res["smt_ms"] = round(sum(f["us"] for f in fns.values()) / 1000, 1)
    res["verified"], res["errors"] = vr["verified"], vr["errors"] - 1
    if canary_failed is None:
        res["reason"] = "the extracted text does not compile under the verifier: " + "\n".join(b for b in re.split(r"\n(?=error)", x) if b.startswith("error"))[:1500]
        return res
    if not canary_failed:
        res["reason"] = "vacuous: `ensures false` was discharged"
        return res
    if not fns:
        res["reason"] = "no obligations"
        return res
    # diagnostics -> functions
    diags = []
    for blk in re.split(r"\n(?=error)", x):
        m = re.match(r"error(?:\[\w+\])?: (.*)", blk)
        if not m:
            continue
        locs = [int(q) for q in re.findall(r"--> \S*?\.rs:(\d+):\d+", blk)] + [int(q) for q in re.findall(r"^\s*(\d+) \|", blk, re.M)]
        own = [owner[l] for l in locs if 0 < l < len(owner) and owner[l]]
        diags.append((m.group(1), own, blk))
    rl = x.lower()
    fresh = res["report"].get("fresh_functions", [])
    unann = [u.split("#")[0] for u in res["report"].get("loops_unannotated", [])]
    blocks = {}
    for i, l in enumerate(lines, 1):
        if owner[i]:
            blocks.setdefault(owner[i], []).append(l)
    for f in fns.values():
        if f["success"]:
            continue
        n = f["name"]
        short = n.split("::")[-1]
        mine = [d for d in diags if any(w.split("::")[-1] == short for w in d[1])] or [d for d in diags if ("fn " + short) in d[2]]
        msg = "; ".join(sorted({d[0] for d in mine})) or "obligation not discharged"
        body = "\n".join("\n".join(v) for k, v in blocks.items() if k.split("::")[-1] == short)
        why = None
        if any("resource limit" in d[0].lower() or "rlimit" in d[0].lower() or "timed out" in d[0].lower() for d in mine) or (not mine and "resource limit" in rl):
            why = "solver resource limit"
        elif any(u.split("::")[-1] == short for u in unann):
            why = "a loop without an invariant"
        elif any(re.search(r"\b%s\b" % re.escape(h.split("::")[-1]), body) for h in fresh if h.split("::")[-1] != short):
            why = "calls a function that has no contract"
        if why:
            res["undecided"].append((n, why + ": " + msg))
        else:
            res["failed"].append((n, msg, "\n".join(d[2] for d in mine)[:6000]))
    res["status"] = "fail" if res["failed"] else ("partial" if res["undecided"] else "ok")
    # mechanical scan for assumptions in the text given to the verifier
    res["trusted"] = scan_trusted(lines)
    return res


def scan_trusted(lines):
    out, i = [], 0
    for i, l in enumerate(lines):
        if l.strip().startswith("//"):
            continue
        if "external_body" in l or "admit()" in l or re.search(r"\bassume\s*\(", l) or "external_fn_specification" in l or "assume_specification" in l or re.search(r"\buninterp spec fn", l) or re.search(r"\baxiom fn", l) or "external_type_specification" in l:
            m = None
            for k in range(i, min(i + 3, len(lines))):
                m = re.search(r"\b(?:fn|struct|enum)\s+(\w+)", lines[k]) or re.search(r"assume_specification\S*\s*\[\s*(.*?)\s*\]", lines[k])
                if m:
                    break
            kind = "uninterpreted" if "uninterp" in l else ("external_body" if "external_body" in l else ("axiom" if "axiom" in l else "assumed"))
            out.append(f"{kind} {m.group(1) if m else l.strip()[:60]}")
    return sorted(set(out))


SAFETY = re.compile(r"overflow|underflow|precondition|decreases|division|shift|bounds|panic|unreachable|recommend", re.I)


def in_scope(name, pats, msg=None):
    """msg None: does the function belong to the property; otherwise: does this failure count"""
    for p in pats:
        s = p.endswith("!s")
        q = p[:-2] if s else p
        if (re.fullmatch(q, name) or re.fullmatch(q, name.split("::")[-1])) and not (s and msg is not None and not SAFETY.search(msg)):
            return True
    return False


# ---------------------------------------------------------------- E3
def probe_bin(crate):
    c = config.PROBES[crate]
    with Lock("probe_" + crate):
        if c.get("prepare"):
            rc, o, x = run([sys.executable, os.path.join(VERIF, c["prepare"]), REPO, os.path.join(BUILD, crate + "_src")], 120)
            if rc:
                return None, "prepare: " + (o + x)[-1500:]
        src = c["dir"].format(build=BUILD, verif=VERIF)
        tgt = os.path.join(BUILD, crate)
        rc, o, x = run(["cargo", c.get("toolchain", "+1.70.0"), "build", "--offline", "-q", "--target-dir", tgt], 700, cwd=src, env={"VERIF_REPO": REPO, **c.get("env", {})})
        if rc:
            if c.get("lite"):
                # does everything but the macro under test build?
                rc2, o2, x2 = run(["cargo", c.get("toolchain", "+1.70.0"), "build", "--offline", "-q", "--no-default-features", "--target-dir", tgt], 700, cwd=src, env={"VERIF_REPO": REPO, **c.get("env", {})})
                if rc2 == 0:
                    return os.path.join(tgt, "debug", c["bin"]), "LITE " + x[:3000]
            return None, x[-2500:]
        return os.path.join(tgt, "debug", c["bin"]), ""


def probe_run(crate, pid, seed, scale, cap_ms):
    t = time.time()
    b, err = probe_bin(crate)
    r = {"crate": crate, "status": "undecided", "reason": err, "build_s": round(time.time() - t, 1)}
    if not b:
        return r
    if err.startswith("LITE ") and pid == config.PROBES[crate]["lite"]:
        r["fail"] = {"group": "build", "seed": 0, "idx": 0, "what": "the code the derive generates for the fixtures does not compile (the rest of the crate does): " + err[5:]}
        r["status"], r["bin"] = "fail", "cd concrete/vr && cargo +1.70.0 build --offline #"
        return r
    out = os.path.join(BUILD, "out", f"{pid}_{crate}")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    os.makedirs(EVID, exist_ok=True)
    dic = os.path.join(EVID, f"{pid}.{crate}.dict")
    r["dict"] = literals.write(REPO, pid, dic)
    env = {"VERIF_DICT": dic}
    rc, o, x = run([b, "run", pid, str(seed), str(scale), str(cap_ms), out], cap_ms / 1000 + 240, cwd=out, env=env)
    r["bin"], r["rc"] = b, rc
    r["stdout"] = o[-4000:]
    try:
        if rc == 0:
            r["stats"] = json.load(open(os.path.join(out, "stats.json")))
            r["status"] = "ok"
        elif rc == 1:
            r["fail"] = json.load(open(os.path.join(out, "fail.json")))
            r["status"] = "fail"
        else:
            # the case that was running took the process down (abort, stack overflow, endless loop)
            cur = json.load(open(os.path.join(out, "current.json")))
            rc2, o2, x2 = run([b, "replay", pid, cur["group"], str(cur["seed"]), str(cur["idx"])], 240, cwd=out, env=env)
            if rc2 != 0:
                cur["what"] = f"the process ended with status {rc} on this case (again {rc2} when replayed): " + (x + x2)[-600:]
                r["fail"], r["status"] = cur, "fail"
            else:
                r["reason"] = f"probe ended with status {rc}, not reproducible: {x[-800:]}"
    except Exception as e:
        r["reason"] = f"probe: rc {rc}, {e}: {x[-1500:]}"
    return r


# ---------------------------------------------------------------- E2
def kani_run(pid, pats, timeout):
    import kani_driver
    return kani_driver.run_kani(VERIF, REPO, BUILD, run, Lock, pid, pats, timeout)


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        build_vx()
        for c in config.PROBES:
            b, err = probe_bin(c)
            log(c, b or ("NOT BUILT " + err))
        return 0
    pid = sys.argv[1]
    p = config.PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, pid + ".replay.json")
    if os.path.exists(replay):
        os.remove(replay)

    # E1
    units, errs = [], []
    if p.get("units"):
        vx = build_vx()
        for u, pats in p["units"].items():
            r = verus_unit(vx, u, pid, 60 if thorough else 30)
            r["scope"] = pats
            units.append(r)
    obligations = discharged = 0
    failed, undec, under = [], [], []
    for r in units:
        if r["status"] == "undecided":
            undec.append(f"{r['unit']}: {r['reason'][:500]}")
            log(f"E1 {r['unit']}: undecided: {r['reason'][:1200]}")
            continue
        sc = [f for f in r["functions"] if in_scope(f["name"], r["scope"])]
        obligations += sum(f["queries"] for f in sc)
        discharged += sum(f["queries"] for f in sc if f["success"])
        under += [f"{r['unit']}::{f['name']}" for f in sc if f["mode"] == "exec"]
        for n, m, t in r["failed"]:
            if in_scope(n, r["scope"], m):
                failed.append((r["unit"], n, m, t))
        for n, m in r["undecided"]:
            if in_scope(n, r["scope"]):
                undec.append(f"{r['unit']}::{n}: {m}")
        log(f"E1 {r['unit']}: {r.get('verified')} verified, {r.get('errors')} errors, {len(sc)} functions in this property's scope, smt {r.get('smt_ms')} ms, {r.get('wall_s')} s")
        for n, m, t in r["failed"]:
            log(f"   failed obligation {n}: {m}" + ("" if in_scope(n, r["scope"], m) else "  (not in this property's scope)"))
        for n, m in r["undecided"]:
            log(f"   undecided {n}: {m}")

    # E3
    probes = []
    for c in p.get("probes", []):
        scale = int(p.get("scale", 1000) * (12 if thorough else 1))
        r = probe_run(c, pid, seed, scale, 600_000 if thorough else 150_000)
        probes.append(r)
        if r["status"] == "ok":
            log(f"E3 {c}: {r['stats']['evaluations']} cases, {r['stats']['distinct_nontrivial']} distinct non-trivial, {r['stats']['ms']} ms (built in {r['build_s']} s)")
        elif r["status"] == "fail":
            log(f"E3 {c}: BROKEN {r['fail'].get('what','')[:1500]}")
        else:
            log(f"E3 {c}: undecided: {r['reason'][:1500]}")

    # E2
    kani = None
    if p.get("kani") and (thorough or p.get("kani_quick")):
        kani = kani_run(pid, p["kani"] if thorough else p["kani_quick"], 420)
        log(f"E2 kani: {kani['summary']}")
        for h in kani["harnesses"]:
            if h["status"] == "FAILED":
                log("   failed harness", h["name"], h["detail"][:600])

    # known findings
    known = 0
    kf = json.load(open(os.path.join(VERIF, "known_findings.json")))
    for k in kf.get("findings", []):
        if k["property"] != pid:
            continue
        still = True
        if k.get("probe"):
            b, err = probe_bin(k["probe"])
            if b:
                rc, o, x = run([b, "known", k["case"]], 120)
                still = rc != 0
        if still:
            known += 1
            log(f"KNOWN-FINDING: property={pid} {k['what']}")
        else:
            log(f"note: the recorded finding no longer fails: {k['what']}")

    # verdict
    pfail = next((r for r in probes if r["status"] == "fail"), None)
    kfail = [h for h in (kani or {}).get("harnesses", []) if h["status"] == "FAILED"]
    violation, tail = None, ""
    if pfail:
        f = pfail["fail"]
        violation = {"property": pid, "engine": "E3 concrete case on the compiled code", "case": f, "what": f.get("what"),
                     "replay_cmd": f"VERIF_DICT={os.path.join(EVID, pid + '.' + pfail['crate'] + '.dict')} {pfail['bin']} replay {pid} {f['group']} {f['seed']} {f['idx']}", "failed_obligations": [f"{u}::{n}: {m}" for u, n, m, t in failed]}
    elif kfail:
        violation = {"property": pid, "engine": "E2 Kani", "harnesses": kfail, "what": kfail[0]["detail"], "failed_obligations": [f"{u}::{n}: {m}" for u, n, m, t in failed]}
    elif failed:
        violation = {"property": pid, "engine": "E1 Verus", "what": "obligation discharged on the accepted tree and not on this one", "failed_obligations": [{"unit": u, "function": n, "message": m, "verifier_output": t} for u, n, m, t in failed]}
        tail = " no-failing-input-found"
    ok_probe = any(r["status"] == "ok" for r in probes)
    decided = obligations > 0 and discharged == obligations and not undec and not any(r["status"] == "undecided" for r in units)
    if violation:
        json.dump(violation, open(replay, "w"), indent=1)

    cov = {"obligations": obligations, "discharged": discharged,
           "checker_cmd": "; ".join(r.get("cmd", "") for r in units) or "none",
           "trusted_base": sorted({f"{r['unit']}: {t}" for r in units for t in r["trusted"]}) + sorted({f"{r['unit']}: {t}" for r in units for t in r["report"].get("rewrites", [])}) + config.TRUSTED + p.get("trusted", []),
           "functions_under_contract": under, "back_end": "Verus 0.2026.09.13 / Z3",
           "solver_ms": round(sum(r.get("smt_ms", 0) for r in units), 1),
           "undecided_by_verifier": undec}
    ev = sum(r["stats"]["evaluations"] for r in probes if r["status"] == "ok")
    dn = sum(r["stats"]["distinct_nontrivial"] for r in probes if r["status"] == "ok")
    cov.update({"evaluations": ev, "distinct_nontrivial": dn,
                "rule": "bounded part (E3): cases generated from the seed, run on the crate compiled from /repo, compared with an independent oracle; a case is non-trivial when it exercises the guarded behaviour (group names say which) and is counted once per distinct content",
                "samples": [s for r in probes if r["status"] == "ok" for s in r["stats"]["samples"]][:12],
                "groups": {k: v for r in probes if r["status"] == "ok" for k, v in r["stats"]["groups"].items()} if all(isinstance(r.get("stats", {}).get("groups", {}), dict) for r in probes) else [r.get("stats", {}).get("groups") for r in probes]})
    if kani:
        cov["kani"] = {"summary": kani["summary"], "harnesses": [{k: v for k, v in h.items() if k != "detail"} for h in kani["harnesses"]]}
    level = p.get("level", "proof")
    if not units:
        cov["explanation"] = "no obligations for this property: decided by the bounded stand-in only"
    evj = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
           "assumptions": config.ASSUMPTIONS + p.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": 1 if violation else 0}
    json.dump(evj, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    if violation:
        log(f"VIOLATION property={pid} replay={replay}{tail}")
        return 1
    if decided:
        log(f"{pid}: held; {discharged}/{obligations} obligations discharged, {ev} concrete cases, {time.time()-T0:.0f} s")
        return 0
    if ok_probe or (kani and kani["ok"]):
        log(f"{pid}: held on everything explored; {discharged}/{obligations} obligations discharged, NOT DECIDED by the verifier: {len(undec)} item(s); bounded check: {ev} cases, {time.time()-T0:.0f} s")
        return 0
    log(f"{pid}: nothing could be decided")
    return 2


if __name__ == "__main__":
    sys.exit(main())
