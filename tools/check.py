#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current tree.  check.py --setup builds the extractor.

1. the functions the property depends on are extracted from /repo and joined with their contracts (tools/extract.py, units/)
2. Verus discharges every obligation of the unit
3. the real code is searched for a failing input with an independent oracle (harness/): briefly when the proof went
   through, at length when it did not
"""
import json, os, re, shutil, subprocess, sys, threading, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness
from registry import PROPS, UNIT_ASSUMPTIONS

VERIF = harness.VERIF
REPO = harness.REPO
GEN = os.path.join(VERIF, "build", "gen")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def sh(cmd, **kw):
    try:
        return subprocess.run(cmd, capture_output=True, text=True, **kw)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, e.stdout or "", "timed out")


def setup():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(VERIF, "build", "extract"))
    return sh(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(VERIF, "extract"), env=env, timeout=300)


# ---------------------------------------------------------------- proof
def fn_at(lines, n):
    """qualified name of the function around line n (1-based) of the generated file"""
    name = None
    for i in range(min(n, len(lines)) - 1, -1, -1):
        l = lines[i]
        if name is None:
            m = re.match(r"\s*(?:pub(?:\([a-z]+\))?\s+)?(?:(?:open|closed|broadcast|uninterp|axiom|exec|const)\s+)*(?:proof\s+|spec\s+)?(?:async\s+)?fn\s+(\w+)", l)
            if m:
                name = m.group(1)
        else:
            m = re.match(r"(?:pub\s+)?impl\b[^{]*?(?:\bfor\s+)?([A-Za-z_]\w*)(?:<[^{]*>)?\s*(?:where[^{]*)?\{", l)
            if m:
                return m.group(1) + "::" + name
            if re.match(r"\}", l) and i < n - 1:
                # left the enclosing block: the function is free-standing
                return name
    return name


ANSI = re.compile(r"\x1b\[[0-9;]*m")


def prove(unit, tier):
    """dict(status: proved | failed | undecided, ...)"""
    os.makedirs(GEN, exist_ok=True)
    out = os.path.join(GEN, unit + ".rs")
    t0 = time.time()
    r = sh([sys.executable, os.path.join(VERIF, "tools", "extract.py"), unit, out, REPO], timeout=120)
    res = dict(unit=unit, status="undecided", failed=[], verified=0, errors=0, reason="", output="", solver_ms=0, functions=[], trusted=[])
    if r.returncode != 0:
        res["reason"] = "the contracts do not fit the current code: " + (r.stderr.strip().split("\n")[-1] if r.stderr.strip() else "extraction failed")
        res["output"] = r.stderr[-3000:]
        return res
    meta = json.load(open(out + ".json"))
    res["functions"] = meta["report"]["functions"]
    res["edits"] = meta["report"]["edits"]
    text = open(out).read()
    res["trusted"] = trusted(text)
    res["imports"] = re.findall(r"#\[verifier::external_body\] /\* contract of (\S+) \*/", text)
    cmd = ["verus", out, "--triggers-mode", "silent", "--output-json", "--time-expanded", "--num-threads", "8"]
    res["cmd"] = " ".join(cmd)
    r = sh(cmd, cwd=GEN, timeout=400)
    err = ANSI.sub("", r.stderr)
    res["output"] = err[-6000:]
    try:
        d = json.loads(r.stdout)
        vr = d["verification-results"]
    except Exception:
        res["reason"] = "Verus gave no result (%s)" % (err.strip().split("\n")[0][:300] if err.strip() else r.returncode)
        return res
    res["verified"], res["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    fns = []
    for m in d.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            fns.append(dict(function=f["function"].split("::", 1)[1], mode=f.get("mode:"), ms=f["time"], ok=f["success"]))
    res["breakdown"] = fns
    res["solver_ms"] = d.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
    if vr.get("success") and res["errors"] == 0 and res["verified"] > 0:
        res["status"] = "proved"
    elif vr.get("encountered-vir-error") or res["verified"] + res["errors"] == 0:
        m = re.search(r"error[^\n]*", err)
        res["reason"] = "Verus does not accept the current code: " + (m.group(0) if m else "")[:300]
    else:
        lines = text.split("\n")
        bad, limit = [], []
        for blk in re.split(r"\n(?=error)", err):
            m = re.match(r"error(?:\[\w+\])?: (.*)", blk)
            loc = re.search(r"--> \S*?%s\.rs:(\d+)" % re.escape(unit), blk)
            if not m or not loc:
                continue
            f = fn_at(lines, int(loc.group(1)))
            if "esource limit" in m.group(1) or "rlimit" in m.group(1):
                limit.append(f)
            else:
                bad.append(dict(function=f, obligation=m.group(1), at=blk.strip()[:1500]))
        res["failed"] = bad
        if bad:
            res["status"] = "failed"
        else:
            res["reason"] = "the solver gave up on " + ", ".join(str(x) for x in limit) if limit else "Verus reported an error without an obligation"
    res["wall_s"] = round(time.time() - t0, 1)
    return res


def verified_names():
    """unit -> names (functions as /repo has them, lemmas) whose bodies it verifies, from the overlays"""
    out = {}
    d = os.path.join(VERIF, "units")
    for u in sorted(x[:-3] for x in os.listdir(d) if x.endswith(".ov")):
        names, todo = set(), [u + ".ov"]
        while todo:
            t = open(os.path.join(d, todo.pop())).read()
            todo += [m.group(1) for m in re.finditer(r"(?m)^@@use units/(\S+)[ \t]*$", t)]
            names |= {m.group(1).strip().replace(" ", "_") for m in re.finditer(r"(?m)^@@fn (.*)$", t)}
            for m in re.finditer(r"(?m)^@@(?:proof|include) units/(\S+)", t):
                t += open(os.path.join(d, m.group(1))).read()
            names |= set(re.findall(r"(?m)^(?:pub )?(?:broadcast )?proof fn (\w+)", t))
        out[u] = names
    return out


def imported(proofs):
    """(contracts this check takes from a unit it proves as well, contracts it takes from a unit it does not run)"""
    v = verified_names()
    here = {p["unit"] for p in proofs if p["status"] == "proved"}
    own, other = set(), set()
    for p in proofs:
        for n in p.get("imports", []):
            us = [u for u in v if n in v[u]]
            if here & set(us): own.add(n)
            elif us: other.add("contract of %s: verified in unit %s, which this check does not run" % (n, us[0]))
            else: other.add("contract of %s: assumed" % n)
    return own, other


def trusted(text):
    """every contract of the generated file that is assumed, found by a scan of its text"""
    out = []
    for m in re.finditer(r"(?m)^\s*pub assume_specification[^\[]*\[([^\]]*(?:\][^\[\(]*\[[^\]]*)*)\]", text):
        out.append("assumed contract of " + re.sub(r"\s+", " ", m.group(1)).strip())
    for m in re.finditer(r"broadcast axiom fn (\w+)|(?<!broadcast )axiom fn (\w+)", text):
        out.append("axiom " + (m.group(1) or m.group(2)))
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([a-z]+\))?\s+)?(?:open\s+|broadcast\s+)?(?:proof\s+)?(fn|struct)\s+(\w+)", text):
        out.append("external_body %s %s" % (m.group(1), m.group(2)))
    for m in re.finditer(r"uninterp spec fn (\w+)", text):
        out.append("uninterpreted function " + m.group(1))
    for k in ("admit(", "assume("):
        n = text.count(k)
        if n:
            out.append("%d uses of %s)" % (n, k))
    return sorted(set(out))


def smoke(unit):
    """with `false` added to what each function body must show at its start, every one has to fail: no precondition is contradictory"""
    src = os.path.join(GEN, unit + ".rs")
    r = sh([sys.executable, os.path.join(VERIF, "tools", "extract.py"), unit, os.path.join(GEN, unit + "_smoke.rs"), REPO, "smoke"], timeout=120)
    if r.returncode != 0:
        return None
    f = os.path.join(GEN, unit + "_smoke.rs")
    n = open(f).read().count("/*smoke*/")
    r = sh(["verus", f, "--triggers-mode", "silent", "--multiple-errors", "100", "--num-threads", "8"], cwd=GEN, timeout=400)
    hit, gave_up = set(), set()
    for blk in re.split(r"\n(?=error)", ANSI.sub("", r.stderr)):
        if "/*smoke*/" in blk:
            m = re.search(r":(\d+):\d+", blk)
            if m:
                hit.add(m.group(1))
        elif "function body check: Resource limit" in blk:
            gave_up.add(re.search(r":(\d+):\d+", blk).group(1))
    return dict(probes=n, failing=len(hit), solver_gave_up_before_proving_false=len(gave_up))


# ---------------------------------------------------------------- main
def main():
    prop = sys.argv[1]
    if prop == "--setup":
        r = setup()
        sys.stderr.write(r.stderr)
        return r.returncode
    t0 = time.time()
    P = PROPS[prop]
    log = []
    bins = {}

    def build():
        bins[prop] = harness.build(prop, log)

    th = threading.Thread(target=build)
    th.start()
    proofs = []
    r = setup()
    if r.returncode != 0:
        log.append("the extractor does not build: " + r.stderr[-1000:])
        proofs = [dict(unit=u, status="undecided", failed=[], verified=0, errors=0, reason="the extractor does not build", output="", solver_ms=0, functions=[], trusted=[]) for u in P["units"]]
    else:
        for u in P["units"]:
            proofs.append(prove(u, TIER))
    # the thorough tier also proves the units whose contracts those units use; what fails there is the business of other properties
    support = []
    if TIER == "thorough" and r.returncode == 0:
        while True:
            need = {m.group(1) for m in (re.search(r"verified in unit (\w+),", t) for t in imported(proofs + support)[1]) if m} - {p["unit"] for p in proofs + support}
            if not need: break
            for u in sorted(need):
                support.append(prove(u, TIER))
                log.append("supporting unit %s: %s, %d verified, %d errors" % (u, support[-1]["status"], support[-1]["verified"], support[-1]["errors"]))
    th.join()
    # obligations in functions the property does not depend on are other properties' business
    mine = []
    for p in proofs:
        sel = P["units"][p["unit"]]
        for f in p["failed"]:
            if sel == "*" or f["function"] is None or not re.fullmatch(sel_other(p["unit"], prop), f["function"] or ""):
                mine.append(dict(f, unit=p["unit"]))
    undecided = [p for p in proofs if p["status"] == "undecided"]
    proved = not mine and not undecided
    # search
    b = bins.get(prop)
    violation, searches = None, []
    short_secs = 12 if TIER == "quick" else 180
    long_secs = 60 if TIER == "quick" else 300
    secs = short_secs if proved and P["units"] else long_secs if P["units"] else 2 * short_secs
    if b:
        s = harness.search(b, prop, SEED, secs)
        searches.append((prop, s))
        violation = s["violation"]
    blame = None
    if violation is None and mine:
        # a failed obligation: is it some other property of the same functions that is broken?
        bad = set(f["function"] for f in mine)
        for q, Q in PROPS.items():
            if q == prop or time.time() - t0 > 600:
                continue
            if not set(Q["units"]) & set(f["unit"] for f in mine):
                continue
            qb = b if q not in harness.HOOKS and b else harness.build(q, log)
            if not qb:
                continue
            s = harness.search(qb, q, SEED, 15 if TIER == "quick" else 60)
            searches.append((q, s))
            if s["violation"]:
                blame = (q, s["violation"])
                break
    rc, replay_path = 0, None
    rep_dir = os.path.join(VERIF, "build", "replay")
    os.makedirs(rep_dir, exist_ok=True)
    if violation or (mine and not blame):
        rc = 1
        replay_path = os.path.join(rep_dir, prop + ".txt")
        with open(replay_path, "w", errors="surrogateescape") as f:
            if violation:
                f.write("Failing input for %s on the code in %s:\n%s\n\nthe case (input of `harness-bin-%s %s OUT CURRENT replay FILE`):\n%s\n" % (prop, REPO, violation["why"], prop, prop, violation["case"]))
            for m in mine:
                f.write("\nFailed obligation in %s (unit %s): %s\n%s\n" % (m["function"], m["unit"], m["obligation"], m["at"]))
            for p in undecided:
                f.write("\nunit %s undecided: %s\n" % (p["unit"], p["reason"]))
            for p in proofs:
                if p["failed"]:
                    f.write("\nVerus output of unit %s:\n%s\n" % (p["unit"], p["output"]))
    known(prop)
    evidence(prop, P, proofs, support, proved, mine, undecided, searches, blame, log, rc, time.time() - t0)
    for p in proofs:
        print("unit %s: %s, %d verified, %d errors %s" % (p["unit"], p["status"], p["verified"], p["errors"], p["reason"]))
    for q, s in searches:
        print("search %s: %d cases%s" % (q, s["evaluations"], ", failing input found" if s["violation"] else ""))
    for l in log:
        print(l)
    if rc == 1:
        if violation:
            print(violation["why"][:2000])
            print("VIOLATION property=%s replay=%s" % (prop, replay_path))
        else:
            for m in mine:
                print("failed obligation: %s in %s" % (m["obligation"], m["function"]))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay_path))
    elif blame:
        print("undecided here: the failed obligations come from a violation of %s: %s" % (blame[0], blame[1]["why"][:300]))
    elif undecided:
        print("the proof could not be redone; only the bounded search of the real code ran, and found nothing")
    elif P["units"]:
        print("proved")
    else:
        print("bounded check: nothing found")
    return rc


def sel_other(unit, prop):
    """regex of the functions of the unit that the property does not depend on"""
    sel = PROPS[prop]["units"][unit]
    return sel if sel != "*" else r"(?!)"


def known(prop):
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) ", l)
            if m and m.group(1) == prop:
                print(l.strip())


def evidence(prop, P, proofs, support, proved, mine, undecided, searches, blame, log, rc, wall):
    own = [s for q, s in searches if q == prop]
    s = own[0] if own else dict(evaluations=0, distinct_nontrivial=0, samples=[])
    own_imports, other = imported(proofs + support)
    cov = dict(
        supporting_units=[dict(unit=p["unit"], status=p["status"], verified=p["verified"], errors=p["errors"], solver_ms=p["solver_ms"]) for p in support],
        obligations=sum(p["verified"] + p["errors"] for p in proofs),
        discharged=sum(p["verified"] for p in proofs),
        checker_cmd="; ".join(p.get("cmd", "") for p in proofs),
        trusted_base=sorted(set(t for p in proofs + support for t in p["trusted"]) | other),
        contracts_used_across_units=sorted(own_imports),
        units=[dict(unit=p["unit"], status=p["status"], verified=p["verified"], errors=p["errors"], reason=p["reason"], back_end="Verus (Z3)",
                    solver_ms=p["solver_ms"], wall_s=p.get("wall_s"), functions_under_contract=p["functions"], extraction_edits=p.get("edits", {}),
                    slowest=sorted(p.get("breakdown", []), key=lambda f: -f["ms"])[:5]) for p in proofs],
        evaluations=s["evaluations"], distinct_nontrivial=s["distinct_nontrivial"],
        rule=("bounded search of the real code next to the proof: " if P["units"] else "bounded search of the real code: ") + P.get("search", "random cases against an independent oracle") + "; %d processes with their own seeds, distinct within each; a case is non-trivial when it reaches the property's claim" % harness.PROCS,
        samples=s["samples"][:3],
        other_searches=[dict(property=q, evaluations=x["evaluations"], found=bool(x["violation"])) for q, x in searches if q != prop],
    )
    if TIER == "thorough":
        cov["reachability_of_preconditions"] = [dict(unit=p["unit"], **(smoke(p["unit"]) or {})) for p in proofs]
    if mine:
        cov["failed_obligations"] = [dict(function=m["function"], obligation=m["obligation"]) for m in mine]
    if blame:
        cov["attributed_to"] = blame[0]
    if log:
        cov["log"] = [l[:600] for l in log]
    level = P["level"]
    if not proved:
        level = "other"
        cov["explanation"] = "the proof did not go through on this tree (%s); what was decided comes from the bounded search and the failed obligations listed here" % (
            "; ".join(p["reason"] for p in undecided) or "failed obligations")
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov, wall_s=round(wall, 1), violations=1 if rc else 0,
              assumptions=P.get("assumptions", []) + [a for u in P["units"] for a in UNIT_ASSUMPTIONS.get(u, [])])
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + ".json"), "w"), indent=1, ensure_ascii=False)


if __name__ == "__main__":
    sys.exit(main())
