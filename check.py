#!/usr/bin/env python3
"""Decides one property: python3 check.py PROPERTY [quick|thorough]

1. vx takes the functions under contract out of /repo's current sources and writes one Verus file per unit;
   Verus has to accept every obligation (the deciding step).  A second run with `assert(false)` behind every
   precondition has to fail in every function (no contract is vacuous).
2. The bounded stand-in runs the real crate, through its public interface, on generated inputs against an
   independent oracle.  It covers what is not under contract and gives the failing input when an obligation fails.

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line: it is broken.  Exit 2: error."""
import concurrent.futures, fcntl, json, os, re, shutil, subprocess, sys, time, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CFG = json.load(open(os.path.join(HERE, "checks.json")))
NCPU = os.cpu_count() or 8
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV["RUSTFLAGS"] = "-A warnings"

# what Verus says when an obligation was generated and not discharged
FAILED = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
          "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied",
          "unreachable code might be reached", "possible bit shift", "assert_forall", "loop invariant not",
          "recommendation not met",
          "constructed value may fail to meet its declared type invariant", "possible truncation",
          "could not prove termination")
LIMIT = ("rlimit", "Resource limit", "timed out", "solver")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def cargo(crate, profile):
    """builds one of our own crates, incrementally, from the current sources"""
    os.makedirs(BUILD, exist_ok=True)
    target = os.path.join(BUILD, crate)
    args = ["cargo", "build", "--offline", "-q"] + (["--release"] if profile == "release" else [])
    with open(os.path.join(BUILD, ".lock-" + crate), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(args, cwd=os.path.join(HERE, crate), env=dict(ENV, CARGO_TARGET_DIR=target),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        log("error: building %s failed" % crate)
        sys.exit(2)
    return os.path.join(target, "release" if profile == "release" else "debug", {"harness": "vh"}.get(crate, crate))


# ------------------------------------------------------------------------------------------------ proof

def vx(exe, unit, out, extra=()):
    r = subprocess.run([exe, os.path.join(HERE, "specs", unit + ".vx"), REPO, out, *extra],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        return None, r.stderr.strip()
    return json.loads(r.stdout), None


def verus(path, timeout=420):
    cmd = ["verus", path, "--triggers-mode", "silent", "--output-json", "--time-expanded", "--error-format=json",
           "--multiple-errors", "6", "--num-threads", str(NCPU)]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                           cwd=os.path.dirname(path), env=ENV)
    except subprocess.TimeoutExpired:
        return {"ok": False, "diags": [("Resource limit: timed out", 0, "", "limit")], "funcs": {}, "smt_ms": 0, "verified": 0, "errors": 0, "cmd": " ".join(cmd)}
    try:
        j = json.loads(r.stdout)
    except ValueError:
        j = {}
    diags = []
    for line in r.stderr.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("level") != "error" or d["message"].startswith("aborting due to"):
            continue
        spans = d.get("spans") or []
        prim = [s for s in spans if s.get("is_primary")] or spans
        ln = prim[0]["line_start"] if prim else 0
        m = d["message"]
        if any(x in m for x in LIMIT):
            kind = "limit"
        elif d.get("code") is None and any(x in m for x in FAILED):
            kind = "failed"
        else:
            kind = "unsupported"
        diags.append((m, ln, d.get("rendered", ""), kind, [s["line_start"] for s in spans]))
    vr = j.get("verification-results", {})
    if vr.get("encountered-vir-error"):
        diags = [d[:3] + ("unsupported",) + tuple(d[4:]) for d in diags]
    funcs = {}
    for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            a = funcs.setdefault(f["function"], {"ms": 0, "ok": True, "mode": f.get("mode:", "")})
            a["ms"] += f["time-micros"] / 1000.0
            a["ok"] = a["ok"] and f["success"]
    return {"ok": r.returncode == 0 and vr.get("success", False), "diags": diags, "funcs": funcs,
            "smt_ms": j.get("times-ms", {}).get("smt", {}).get("total", 0), "verified": vr.get("verified", 0),
            "errors": vr.get("errors", 0), "cmd": " ".join(cmd), "raw": r.stderr[-3000:]}


def trusted(path):
    """every assumption in the generated file"""
    out = []
    lines = open(path).read().split("\n")
    for i, l in enumerate(lines):
        t = l.strip()
        if re.search(r"\b(assume|admit)\s*\(", t):
            out.append("assume: " + t)
        if "external_body" in t or t.startswith("pub assume_specification") or t.startswith("assume_specification") \
                or "uninterp spec fn" in t or "external_type_specification" in t or t.startswith("broadcast axiom") or t.startswith("axiom fn"):
            k = i - 1
            doc = []
            while k >= 0 and lines[k].strip().startswith("///"):
                doc.insert(0, lines[k].strip()[3:].strip())
                k -= 1
            if "uninterp" in t or "assume_specification" in t or t.startswith("axiom") or t.startswith("broadcast"):
                name = t
            else:
                name = next((x.strip() for x in lines[i + 1:i + 6] if re.search(r"\b(fn|struct)\b", x)), t)
            out.append((name.split("{")[0].strip() + (" -- " + " ".join(doc) if doc else ""))[:300])
    seen = []
    for o in out:
        if o not in seen:
            seen.append(o)
    return seen


def again(v, out, fns):
    """what one run leaves open another name of the crate may settle (the solver sees other names and another order): each
    function is verified on its own, so what is proved in any of the runs is proved"""
    lines = open(out).read().split("\n")

    def owner(m):
        for l in [m[1]] + list(m[4] if len(m) > 4 else []):
            f = next((f for f in fns if f["from"] <= l <= f["to"]), None)
            if f:
                return f["key"]
        k = min(m[1], len(lines)) - 1
        while k > 0 and not re.match(r"\s*(pub |open |closed |broadcast |axiom )*(proof |spec |exec )?fn \w", lines[k]):
            k -= 1
        return k
    smt, verified, errors = v["smt_ms"], v["verified"], v["errors"]
    for n in ("22", "333"):
        alt = out[:-3] + "_" + n + ".rs"
        shutil.copyfile(out, alt)
        w = verus(alt)
        os.remove(alt)
        smt += w["smt_ms"]
        if any(m[3] == "unsupported" or len(m) <= 4 for m in w["diags"]) or not (w["verified"] or w["diags"]):
            continue
        open_ = {owner(m) for m in w["diags"]}
        v["diags"] = [m for m in v["diags"] if owner(m) in open_]
        verified = max(verified, w["verified"])
        errors = min(errors, w["errors"])
        if not v["diags"]:
            break
    v["smt_ms"], v["verified"], v["errors"] = smt, verified, errors
    return v


def prove_unit(exe, unit, vac):
    """-> dict(functions=[{key, props, status, why}], ...); status: proved | failed | undecided"""
    d = os.path.join(BUILD, "units")
    # the file's name is the crate's name and reaches the solver: the same in every run
    own = os.path.join(d, str(os.getpid()))
    os.makedirs(own, exist_ok=True)
    out = os.path.join(own, unit + ".rs")
    vout = out[:-3] + "_v.rs"
    stubs, why = [], {}
    try:
        for attempt in range(8):
            extra = []
            for s in stubs:
                extra += ["--stub", s]
            fns, err = vx(exe, unit, out, extra)
            if fns is None:
                return {"unit": unit, "functions": [], "error": err, "trusted": [], "verified": 0, "smt_ms": 0, "cmd": "", "lemmas": 0}
            for f in fns:
                if f["lost"] and f["key"] not in why:
                    why[f["key"]] = f["lost"]
            v = verus(out)
            # a function that Verus cannot take is set aside, with its contract kept, and the rest tried again
            bad = []
            rest = []
            for m in v["diags"]:
                if m[3] != "unsupported":
                    continue
                f = next((f for f in fns if f["from"] <= m[1] <= f["to"]), None)
                if f and f["key"] not in stubs and not f["lost"]:
                    bad.append(f["key"])
                    why[f["key"]] = "not accepted by Verus: " + m[0]
                else:
                    rest.append(m)
            if bad:
                stubs += [b for b in dict.fromkeys(bad)]
                continue
            if rest:
                return {"unit": unit, "functions": [dict(f, status="undecided", why="unit not accepted by Verus: " + rest[0][0]) for f in fns],
                        "error": rest[0][0] + "\n" + rest[0][2], "trusted": trusted(out), "verified": 0, "smt_ms": v["smt_ms"], "cmd": v["cmd"], "lemmas": 0}
            break
        if v["diags"] and all(len(m) > 4 for m in v["diags"]):
            v = again(v, out, fns)
        res = []
        for f in fns:
            st, w = "proved", ""
            if f["stub"]:
                st, w = "assumed", "contract assumed"
            if f["key"] in why:
                st, w = "undecided", why[f["key"]]
            res.append(dict(f, status=st, why=w))
        other = []
        for m in v["diags"]:
            f = next((f for f in res if f["from"] <= m[1] <= f["to"] and f["status"] not in ("assumed",)), None)
            if f is None:
                # the primary line may be in the contract of a callee: look at the other places named
                f = next((f for l in m[4] for f in res if f["from"] <= l <= f["to"]), None)
            if f is None:
                other.append(m)
            elif m[3] == "limit":
                if f["status"] == "proved":
                    f["status"], f["why"] = "undecided", m[0]
            else:
                if f["status"] != "failed":
                    f["why"] = ""
                f["status"] = "failed"
                f["why"] += m[0] + "\n" + m[2] + "\n"
        for m in other:
            # a lemma that does not mention one function: whatever uses it is undecided
            for f in res:
                if f["status"] == "proved":
                    f["status"], f["why"] = "undecided", "a lemma of the unit is not discharged: " + m[0]
        smt = v["smt_ms"]
        vacuous = []
        if vac:
            fns2, _ = vx(exe, unit, vout, [x for s in stubs for x in ("--stub", s)] + ["--vacuity"])
            v2 = verus(vout)
            smt += v2["smt_ms"]
            hit = set()
            for m in v2["diags"]:
                for f in fns2:
                    if f["from"] <= m[1] <= f["to"] and m[3] in ("failed", "limit"):
                        hit.add(f["key"])
            for f in res:
                if f["status"] == "proved" and f["key"] not in hit:
                    vacuous.append(f["key"])
                    f["status"], f["why"] = "undecided", "the contract is vacuous: `assert(false)` behind its precondition was accepted"
            os.remove(vout)
        keys = set()
        times = {}
        for name, t in v["funcs"].items():
            short = name.split("::")[-1]
            times[short] = times.get(short, 0) + t["ms"]
        for f in res:
            f["ms"] = round(times.get(f["name"], 0), 1)
        return {"unit": unit, "functions": res, "error": None, "trusted": trusted(out), "verified": v["verified"], "errors": v["errors"],
                "smt_ms": smt, "cmd": v["cmd"].replace(out, "build/units/%s.rs" % unit), "vacuity_checked": bool(vac), "vacuous": vacuous}
    finally:
        keep = os.path.join(d, unit + ".rs")
        if os.path.exists(out):
            os.replace(out, keep)
        if os.path.exists(vout):
            os.remove(vout)
        try:
            os.rmdir(own)
        except OSError:
            pass


# ------------------------------------------------------------------------------------------------ bounded stand-in

def explore(exe, prop, kinds, tier, seed, scale=1.0):
    """runs the cases of every kind on all cores; -> (stats, failures)"""
    d = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tot = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "kinds": {}}
    fails = []
    try:
        for kind, n in kinds.items():
            n = int(n * scale)
            limit = 240 if tier == "quick" else 3000
            procs = []
            for s in range(NCPU):
                o = os.path.join(d, "%s.%d" % (kind, s))
                procs.append((s, o, subprocess.Popen([exe, "run", kind, str(seed), str(s), str(n), str(NCPU), o],
                                                     stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
            t0 = time.time()
            last = {}
            stuck = set()
            while any(p.poll() is None for _, _, p in procs):
                time.sleep(0.05)
                now = time.time()
                for s, o, p in procs:
                    if p.poll() is not None:
                        continue
                    try:
                        c = open(o + ".cur").read()
                    except OSError:
                        c = ""
                    if last.get(s, ("", 0))[0] != c:
                        last[s] = (c, now)
                    elif now - last[s][1] > 20 and c:
                        stuck.add(s)
                        p.kill()
                    if now - t0 > limit:
                        p.kill()
            hashes = set()
            kc = {"evaluations": 0, "nontrivial": 0}
            for s, o, p in procs:
                err = p.stderr.read().decode("utf8", "replace")
                p.stderr.close()
                if p.returncode in (0, 1) and os.path.exists(o + ".json"):
                    j = json.load(open(o + ".json"))
                    kc["evaluations"] += j["cases"]
                    kc["nontrivial"] += j["nontrivial"]
                    b = open(o + ".hash", "rb").read()
                    for i in range(0, len(b), 8):
                        hashes.add(b[i:i + 8])
                    if len(tot["samples"]) < 4:
                        tot["samples"] += j["samples"][:1]
                    if j["first"]:
                        fails.append(dict(j["first"], count=j["fails"]))
                elif s in stuck or (p.returncode not in (0, 1, -9)):
                    # crashed (stack overflow, abort) or hung: attribute it to the case being run
                    idx = int(open(o + ".cur").read() or 0)
                    c = subprocess.run([exe, "case", kind, str(seed), str(idx)], stdout=subprocess.PIPE, text=True)
                    r = json.loads(c.stdout)
                    what = "HANG: the case did not end within 20 s" if s in stuck else "CRASH: exit %d %s" % (p.returncode, err[-300:])
                    r["error"] = what
                    fails.append(r)
            kc["distinct_nontrivial"] = len(hashes)
            tot["kinds"][kind] = kc
            tot["evaluations"] += kc["evaluations"]
            tot["distinct_nontrivial"] += len(hashes)
            if fails:
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    fails.sort(key=lambda r: len(json.dumps(r["case"])))
    return tot, fails


def confirm(exe, path):
    try:
        r = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
        return r.returncode != 0, r.stdout
    except subprocess.TimeoutExpired:
        return True, "did not end within 60 s"


# ------------------------------------------------------------------------------------------------ main

def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CFG[prop]
    units = c.get("units", [])
    kinds = {k: v[0 if tier == "quick" else 1] for k, v in c["kinds"].items()}

    vxe = cargo("vx", "release") if units else None
    vh = cargo("harness", "debug")

    with concurrent.futures.ThreadPoolExecutor(3) as pool:
        proofs = list(pool.map(lambda u: prove_unit(vxe, u, True), units))
    mine = [dict(f, unit=p["unit"]) for p in proofs for f in p["functions"] if prop in f["props"]]
    # a contract used by one unit and proved by another: part of this check if that unit is, else said to be assumed here
    here = {p["unit"] for p in proofs}
    mine = [f for f in mine if not (f["status"] == "assumed" and any("(proved in unit %s)" % u in f["key"] for u in here))]
    failed = [f for f in mine if f["status"] == "failed"]
    undecided = [f for f in mine if f["status"] == "undecided"]
    proved = [f for f in mine if f["status"] == "proved"]
    errors = [p for p in proofs if p["error"]]

    stats, fails = explore(vh, prop, kinds, tier, seed)
    if not fails and (failed or undecided or errors) and tier == "quick":
        # an obligation is open: look harder for an input that shows it
        more, fails = explore(vh, prop, kinds, tier, seed + 7919, 3.0)
        stats["evaluations"] += more["evaluations"]
        stats["distinct_nontrivial"] += more["distinct_nontrivial"]

    lines = []
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    tag = "%s-%s" % (prop, tier)
    if fails:
        f = fails[0]
        path = os.path.join(HERE, "replays", tag + ".json")
        json.dump(f, open(path, "w"), indent=1)
        ok, txt = confirm(vh, path)
        log("failing input on the real code (%d kinds of case, smallest shown): %s" % (len(fails), f["error"][:1500]))
        for x in failed:
            log("failed obligation: %s [%s]: %s" % (x["key"], x["unit"], x["why"][:1500]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    elif failed:
        path = os.path.join(HERE, "replays", tag + "-obligation.txt")
        with open(path, "w") as o:
            for x in failed:
                o.write("failed obligation: %s, unit %s (build/units/%s.rs)\n%s\n" % (x["key"], x["unit"], x["unit"], x["why"]))
        for x in failed:
            log("failed obligation: %s [%s]: %s" % (x["key"], x["unit"], x["why"][:1500]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    for x in undecided:
        log("undecided (bounded stand-in only): %s [%s]: %s" % (x["key"], x["unit"], x["why"][:400]))
    for p in errors:
        log("unit %s: %s" % (p["unit"], p["error"][:800]))

    tb = []
    for p in proofs:
        for t in p["trusted"]:
            if t not in tb:
                tb.append(t)
    for f in mine:
        if f["status"] == "assumed":
            tb.append("assumed contract: " + f["key"])
    assumptions = list(c.get("assumptions", []))
    assumptions += ["undecided in this run, bounded check only: %s (%s)" % (f["key"], f["why"].split("\n")[0][:160]) for f in undecided]
    cov = {
        "obligations": len([f for f in mine if f["status"] != "assumed"]) + sum(max(0, p["verified"] - len([f for f in p["functions"] if f["status"] == "proved"])) for p in proofs),
        "discharged": len(proved) + sum(max(0, p["verified"] - len([f for f in p["functions"] if f["status"] == "proved"])) for p in proofs),
        "obligation_unit": "one Verus query set per function, lemma or loop body; functions of /repo listed under functions_under_contract",
        "checker_cmd": "; ".join(p["cmd"] for p in proofs if p["cmd"]),
        "back_end": "Verus 0.2026.09.13 / Z3",
        "solver_ms": sum(p["smt_ms"] for p in proofs),
        "functions_under_contract": [{"function": f["key"], "unit": f["unit"], "status": f["status"], "solver_ms": f.get("ms", 0)} for f in mine],
        "vacuity": "assert(false) behind each precondition is rejected" if units else "no contracts",
        "trusted_base": tb + ["vx (the extractor in /verif/vx) and the rewrites it applies, see DESIGN.md", "Verus, Z3, rustc"],
        "evaluations": stats["evaluations"],
        "distinct_nontrivial": stats["distinct_nontrivial"],
        "rule": c["rule"],
        "samples": stats["samples"],
        "bounded_kinds": stats["kinds"],
        "bounded_for": c.get("bounded_for", ""),
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": c["level"], "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": 1 if lines else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)

    for k in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for l in lines:
        print(l)
    log("%s %s: %d of %d functions under contract proved, %d cases, %.1f s" % (prop, tier, len(proved), len(mine), stats["evaluations"], time.time() - t0))
    sys.exit(1 if lines else 0)


def known(prop):
    out = []
    for l in open(os.path.join(HERE, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            out.append(m.group(2))
    return out


if __name__ == "__main__":
    main()
