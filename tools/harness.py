"""Builds the search harness (a copy of /repo with harness/vh added) and runs searches and replays."""
import concurrent.futures, json, os, re, shutil, subprocess, time

import lits

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
DIR = os.path.join(VERIF, "build", "harness")
TARGET = os.path.join(VERIF, "build", "harness-target")
HOOKS = {"C14": ["vh_dict"], "C18": ["vh_stream"], "C19": ["vh_recv"], "C20": ["vh_sess"], "C21": ["vh_out"]}


def _copy(cfgs):
    os.makedirs(DIR, exist_ok=True)
    for e in os.listdir(DIR):
        p = os.path.join(DIR, e)
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    for e in os.listdir(REPO):
        if e in ("target", ".git", "Cargo.lock"):
            continue
        s, d = os.path.join(REPO, e), os.path.join(DIR, e)
        shutil.copytree(s, d) if os.path.isdir(s) else shutil.copy(s, d)
    shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock"), os.path.join(DIR, "Cargo.lock"))
    t = open(os.path.join(DIR, "Cargo.toml")).read()
    t += "\n[workspace]\n\n[profile.release]\nopt-level = 2\ndebug-assertions = true\noverflow-checks = true\n"
    open(os.path.join(DIR, "Cargo.toml"), "w").write(t)
    m = os.path.join(DIR, "src", "main.rs")
    t = open(m).read()
    t2 = re.sub(r"#\[tokio::main[^\]]*\]\s*(pub\s+)?(async\s+)?fn\s+main\s*\(\s*\)", r"#[allow(dead_code)]\n\2fn vh_orig_main()", t)
    if t2 == t:
        t2 = re.sub(r"(?m)^(pub\s+)?(async\s+)?fn\s+main\s*\(\s*\)", r"#[allow(dead_code)]\n\2fn vh_orig_main()", t)
    open(m, "w").write(t2 + "\n#[allow(warnings)]\nmod vh;\nfn main() { vh::main() }\n")
    shutil.copytree(os.path.join(VERIF, "harness", "vh"), os.path.join(DIR, "src", "vh"))
    hd = os.path.join(VERIF, "harness", "hooks")
    for f in sorted(os.listdir(hd)):
        c, path = f.split("__", 1)
        if c in cfgs:
            p = os.path.join(DIR, path.replace("__", "/"))
            if os.path.exists(p):
                with open(p, "a") as o:
                    o.write(open(os.path.join(hd, f)).read())


def build(prop, log):
    """path of the harness binary, or None (with the reason in the log)"""
    want = HOOKS.get(prop, [])
    for cfgs in ([want, []] if want else [[]]):
        _copy(cfgs)
        cmd = ["cargo", "rustc", "--release", "--offline", "--bin", "fix-rs", "--quiet", "--"]
        for c in cfgs:
            cmd += ["--cfg", c]
        env = dict(os.environ, CARGO_TARGET_DIR=TARGET, RUSTFLAGS="-Awarnings")
        try:
            r = subprocess.run(cmd, cwd=DIR, env=env, capture_output=True, text=True, timeout=420)
        except subprocess.TimeoutExpired:
            log.append("the harness build took over 420 s")
            return None
        if r.returncode == 0:
            b = os.path.join(VERIF, "build", "harness-bin-" + prop)
            shutil.copy(os.path.join(TARGET, "release", "fix-rs"), b)
            return b
        log.append("harness build with hooks %s failed: %s" % (cfgs, r.stderr[-1500:]))
    return None


def _run(b, prop, args, timeout, tag=""):
    d = os.path.join(VERIF, "build", "run-" + prop + tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    out, cur = os.path.join(d, "out.json"), os.path.join(d, "current")
    hot = os.path.join(d, "hot")
    lits.write(REPO, hot)
    env = dict(os.environ, VH_SCRATCH=d, VH_HOT=hot)
    try:
        r = subprocess.run([b, prop, out, cur] + args, cwd=REPO, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out, errors="replace"))
        except ValueError:
            res = None
    case = open(cur, errors="surrogateescape").read() if os.path.exists(cur) else None
    return rc, res, case


# how a search that ends abnormally is read: the case it was working on is the witness
ENDS = {77: "takes more memory than a multiple of the size of its input", 78: "does not terminate within 20 s",
        -6: "aborts the process", -11: "overflows the stack or crashes", 134: "aborts the process", 139: "crashes", 101: "ends the process"}


# properties that do not promise termination or memory bounds themselves: such an end is C01's (or nobody's) business
NO_ENDS = {"C02", "C03", "C04", "C08", "C22"}


PROCS = 6


def search(b, prop, seed, secs, maxcases=1 << 40):
    """dict with evaluations, distinct_nontrivial, samples, violation (None or {case, why}); several processes with their own seeds"""
    with concurrent.futures.ThreadPoolExecutor(PROCS) as ex:
        rs = list(ex.map(lambda k: _search1(b, prop, seed + 7919 * k, secs, maxcases, "-%d" % k), range(PROCS)))
    res = dict(evaluations=sum(r["evaluations"] for r in rs), distinct_nontrivial=sum(r["distinct_nontrivial"] for r in rs),
               samples=[x for r in rs for x in r["samples"][:1]], violation=next((r["violation"] for r in rs if r["violation"]), None))
    bad = [r["failed"] for r in rs if r.get("failed")]
    if bad:
        res["failed"] = bad[0]
    return res


def _search1(b, prop, seed, secs, maxcases, tag):
    t0 = time.time()
    last = None
    for k in range(5):
        left = secs - (time.time() - t0)
        if k and left < 1:
            break
        rc, res, case = _run(b, prop, [str(seed + 1000 * k), str(max(1, int(left))), str(maxcases)], int(max(1, left)) + 120, tag)
        if res is not None:
            return res
        last = rc
        if prop not in NO_ENDS and rc in ENDS and case is not None:
            # believe it only if the case alone does it again
            again = replay(b, prop, case, tag)
            if again:
                return dict(evaluations=1, distinct_nontrivial=1, samples=[], violation=dict(case=case, why=again))
    return dict(evaluations=0, distinct_nontrivial=0, samples=[], violation=None, failed="the search ended with %r" % (last,))


def replay(b, prop, case, tag=""):
    """why the case breaks the property, or None"""
    f = os.path.join(VERIF, "build", "case-" + prop + tag)
    open(f, "w", errors="surrogateescape", newline="").write(case)
    rc, res, _ = _run(b, prop, ["replay", f], 60, tag)
    if res is not None:
        return res["violation"]
    if rc == "timeout":
        return ENDS[78]
    return ENDS.get(rc)
