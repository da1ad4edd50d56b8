"""Decides one property: extract, verify, test the real code, report.

check <ID>              one property (VERIF_TIER quick|thorough, VERIF_SEED)
check --setup           build what the checks need
check --baseline        rewrite contracts/baseline.json from the current tree
check --unit U          verify one unit and print what Verus says
"""
import fcntl, hashlib, json, os, re, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
GEN = os.path.join(BUILD, "gen")
sys.path.insert(0, os.path.join(VERIF, "lib"))
import literals  # noqa: E402
from props import PROPS, UNITS, CRATES  # noqa: E402

LITERALS = os.path.join(VERIF, "contracts", "literals.json")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
    ENV.pop(k, None)


def sh(cmd, cwd=None, timeout=600, env=None):
    """(exit code or None on timeout, stdout, stderr)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.DEVNULL, text=True, errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "." + name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


# ------------------------------------------------------------------ building
def tree_hash(paths):
    h = hashlib.sha256()
    for top in paths:
        if os.path.isfile(top):
            fs = [top]
        else:
            fs = []
            for d, ds, ns in os.walk(top):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
                fs += [os.path.join(d, n) for n in sorted(ns)]
        for f in fs:
            if f.endswith((".rs", ".toml", ".lock", ".py", ".vt", ".inc", ".js")):
                h.update(f.encode())
                with open(f, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def build_extract():
    exe = os.path.join(BUILD, "extract", "debug", "extract")
    with Lock("extract"):
        want = tree_hash([os.path.join(VERIF, "extract")])
        stamp = os.path.join(BUILD, "extract.stamp")
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want:
            return exe, ""
        env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "extract"))
        env.pop("RUSTUP_TOOLCHAIN", None)
        d = os.path.join(VERIF, "extract")
        for f in os.listdir(os.path.join(d, "src")):
            os.utime(os.path.join(d, "src", f))
        rc, o, e = sh(["cargo", "build", "--offline"], cwd=d, timeout=600, env=env)
        if rc != 0:
            return None, (o + e)[-3000:]
        open(stamp, "w").write(want)
    return exe, ""


def build_crate(name):
    """Builds a harness crate against REPO's current source. (exe, error text)"""
    c = CRATES[name]
    d = os.path.join(VERIF, "harness", name)
    target = os.path.join(BUILD, "target")
    exe = os.path.join(target, "debug", name)
    with Lock("target"):
        if c.get("generate"):
            err = c["generate"](VERIF, REPO, BUILD)
            if err:
                return None, err
            d = os.path.join(BUILD, "gencrate", name)
        want = tree_hash([os.path.join(REPO, "puck"), os.path.join(REPO, "puck_liveview"), os.path.join(REPO, "examples"),
                          d, os.path.join(VERIF, "harness", "stubs"), os.path.join(VERIF, "harness", "common")])
        stamp = os.path.join(BUILD, name + ".stamp")
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want:
            return exe, ""
        env = dict(ENV, CARGO_TARGET_DIR=target, RUSTUP_TOOLCHAIN="1.81.0")
        # file times are no guide in a copied tree: rebuild the crates which depend on the tree
        sh(["cargo", "clean", "--offline"] + sum([["-p", p] for p in c["clean"]], []), cwd=d, env=env, timeout=120)
        rc, o, e = sh(["cargo", "build", "--offline"], cwd=d, timeout=800, env=env)
        if rc != 0:
            return None, (o + e)[-4000:]
        open(stamp, "w").write(want)
    return exe, ""


# ------------------------------------------------------------------ proof
PROOF_FAIL = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
              "possible arithmetic", "possible division by zero", "decreases not satisfied", "possible bit shift",
              "constructed value may fail", "loop invariant not satisfied", "cannot prove termination",
              "index out of bounds", "unreachable")
TOOL_LIMIT = ("Resource limit", "rlimit", "timed out", "timeout")


def extract_unit(exe, unit, tag="", opts=()):
    os.makedirs(GEN, exist_ok=True)
    t = os.path.join(VERIF, "contracts", UNITS[unit])
    rs = os.path.join(GEN, unit + tag + ".rs")
    js = os.path.join(GEN, unit + tag + ".json")
    base = os.path.join(VERIF, "contracts", "baseline.json")
    cmd = [exe, REPO, t, rs, js] + list(opts)
    loc = os.path.join(VERIF, "contracts", "locals.txt")
    if os.path.exists(loc) and "--no-locals" not in opts:
        cmd += ["--locals", loc]
    cmd = [c for c in cmd if c != "--no-locals"]
    rc, o, e = sh(cmd, timeout=60)
    if rc != 0:
        return None, None, ("lost anchor: " + (o + e).strip())[:2000]
    return rs, json.load(open(js)), ""


def verus(rs, timeout, extra=()):
    cmd = ["verus", "--triggers-mode", "silent", os.path.basename(rs), "--output-json", "--time-expanded",
           "--error-format=json", "--multiple-errors", "3", "--num-threads", "4"] + list(extra)
    t0 = time.time()
    env = dict(ENV)
    env.pop("RUSTUP_TOOLCHAIN", None)
    rc, o, e = sh(cmd, cwd=os.path.dirname(rs), timeout=timeout, env=env)
    res = {"rc": rc, "wall": time.time() - t0, "cmd": " ".join(cmd), "diags": [], "functions": {}, "verified": 0, "errors": 0,
           "smt_ms": 0, "ran": False}
    for l in e.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error":
                res["diags"].append(d)
    try:
        j = json.loads(o)
        vr = j.get("verification-results", {})
        res["verified"], res["errors"] = vr.get("verified", 0), vr.get("errors", 0)
        smt = j.get("times-ms", {}).get("smt", {})
        res["smt_ms"] = smt.get("smt-run", 0)
        for m in smt.get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                res["functions"].setdefault(f["function"], []).append(
                    {"mode": f.get("mode") or f.get("mode:"), "ms": f.get("time-micros", 0) / 1000.0, "rlimit": f.get("rlimit"), "ok": f.get("success")})
        res["ran"] = rc is not None and not vr.get("encountered-vir-error") and bool(res["functions"])
    except ValueError:
        pass
    res["raw"] = e[-6000:] if not res["ran"] else ""
    return res


class Unit:
    """The outcome of verifying one generated unit."""

    def __init__(self, name):
        self.name = name
        self.error = ""          # tool limit for the whole unit
        self.failures = []       # proof failures
        self.limits = []         # per function tool limits
        self.report = None
        self.res = None
        self.lines = []
        self.second = []         # verified in the second attempt

    def fn_at(self, line):
        for f in self.report["functions"]:
            if f["gen_start"] <= line <= f["gen_end"]:
                return f
        return None

    def analyse(self):
        tagre = re.compile(r"//#\s*((?:C\d\d\s*)+)(.*)")
        for d in self.res["diags"]:
            msg = d["message"]
            if msg.startswith("aborting due to"):
                continue
            fn, tags, clauses, where = None, set(), [], None
            spans = sorted(d["spans"], key=lambda s: not s["is_primary"])
            body = [s for s in spans if "exit" in (s.get("label") or "") or "end of the function body" in (s.get("label") or "")]
            for s in body + spans:
                if not s["file_name"].endswith(os.path.basename(self.rs)):
                    continue
                f = self.fn_at(s["line_start"])
                if f and fn is None:
                    fn, where = f, s["line_start"]
            for s in spans:
                if not s["file_name"].endswith(os.path.basename(self.rs)):
                    continue
                for ln in range(s["line_start"], min(s["line_end"], s["line_start"] + 40) + 1):
                    t = self.lines[ln - 1] if ln <= len(self.lines) else ""
                    m = tagre.search(t)
                    if m and (not s["is_primary"] or "failed" in (s.get("label") or "") or "not satisfied" in msg or "assertion" in msg):
                        tags |= set(m.group(1).split())
                    if "failed this" in (s.get("label") or "") and ln == s["line_start"]:
                        clauses.append(t.strip())
            rec = {"message": msg, "function": fn["name"] if fn else None, "tags": sorted(tags), "clauses": clauses,
                   "line": where, "text": self.lines[where - 1].strip() if where else "", "rendered": d.get("rendered", "")[:3000],
                   "props": fn["props"] if fn else sorted(tags), "fn": fn}
            if any(msg.startswith(p) or p in msg for p in PROOF_FAIL) and not any(t in msg for t in TOOL_LIMIT):
                self.failures.append(rec)
            else:
                self.limits.append(rec)


def run_unit(exe, name, timeout=420, tag="", opts=()):
    u = Unit(name)
    rs, rep, err = extract_unit(exe, name, tag, opts)
    if err:
        u.error = err
        return u
    u.rs, u.report = rs, rep
    u.lines = open(rs).read().splitlines()
    u.res = verus(rs, timeout, ("--rlimit", "2") if tag == "_vac" else ())
    if u.res["rc"] is None:
        u.error = "verifier timed out after %d s" % timeout
    elif not u.res["ran"]:
        u.error = "not verifiable as it stands: " + "; ".join(d["message"] for d in u.res["diags"])[:1500]
    u.analyse()
    if not tag and not u.error:
        again(exe, u, timeout)
    return u


def again(exe, u, timeout):
    """A second attempt at the functions which were not verified, in which the loops see all that is
    known before them (`loop_isolation(false)`).  A function counts as verified if either attempt
    discharges all of its obligations."""
    names = {f["function"] for f in u.failures + u.limits if f["fn"] and f["fn"]["loops"] and not f["fn"]["missing"]}
    u.second = []
    if not names:
        return
    opts = [x for n in sorted(names) for x in ("--flat", n)]
    v = Unit(u.name)
    rs, rep, err = extract_unit(exe, u.name, "_2", opts)
    if err:
        return
    v.rs, v.report = rs, rep
    v.lines = open(rs).read().splitlines()
    v.res = verus(rs, timeout)
    if v.res["rc"] is None or not v.res["ran"]:
        return
    v.analyse()
    still = {f["function"] for f in v.failures + v.limits}
    if None in still:
        return
    u.second = sorted(names - still)
    u.failures = [f for f in u.failures if f["function"] not in u.second]
    u.limits = [f for f in u.limits if f["function"] not in u.second]
    for n, xs in v.res["functions"].items():
        n = n.replace(u.name + "_2::", u.name + "::", 1)
        old = u.res["functions"].get(n)
        if old and any(not x["ok"] for x in old) and all(x["ok"] for x in xs):
            u.res["functions"][n] = xs
    u.res["smt_ms"] += v.res["smt_ms"]
    u.res["wall"] += v.res["wall"]


ALLOW = {"Some()", "Ok()", "Err()", ".len()", ".is_empty()", ".is_some()", ".is_none()", ".is_ok()", ".is_err()", "new()"}


def shape_known(u, fname, baseline):
    """Is the function still written with what its contract's proof was built for?"""
    f = next((x for x in u.report["functions"] if x["name"] == fname), None)
    b = baseline.get(u.name, {}).get(fname)
    if f is None or b is None:
        return False, "no baseline"
    if f["loops"] != b["loops"]:
        return False, "different loops"
    if f["missing"]:
        return False, "calls functions without contract: " + ", ".join(f["missing"])
    if f["unused"] != b.get("unused", []):
        return False, "annotations without a place: " + ", ".join(f["unused"])
    made = {r for r in f["rules"] if "loop" in r}
    if made != set(b.get("made", [])):
        return False, "different loops"
    moved = set(f["inlined"]) - set(b.get("inlined", []))
    if moved and f["loops"]:
        return False, "helpers of its own: " + ", ".join(sorted(moved))
    new = set(f["vocab"]) - set(b["vocab"]) - ALLOW
    if new:
        return False, "uses " + ", ".join(sorted(new))
    return True, ""


def std_unused(ls):
    """The lines of the std catalogue (module stdspec) which state nothing about a function the unit mentions."""
    try:
        a = next(i for i, l in enumerate(ls) if l.startswith("pub mod stdspec"))
        b = next(i for i in range(a, len(ls)) if ls[i] == "} // end of stdspec")
    except StopIteration:
        return set()
    item, name, cur = {}, {}, None
    for i in range(a + 1, b):
        l = ls[i]
        m = re.search(r"assume_specification.*?\[\s*(.*?)\s*\](?=\s*\()", l)
        n = re.search(r"^pub (?:open |uninterp |broadcast |axiom |spec )*fn (\w+)", l)
        if m:
            cur = i
            name[i] = re.findall(r"\w+", re.sub(r"<[^<>]*>$", "", m.group(1)))[-1]
        elif n:
            cur = i
            name[i] = n.group(1)
        elif re.match(r"(pub broadcast group|#\[|pub trait|pub struct|use |//)", l):
            cur = None
        if cur is not None:
            item[cur] = item.get(cur, "") + l + "\n"
    code = "\n".join(re.sub(r"//.*", "", l) for i, l in enumerate(ls) if not a <= i <= b)
    words = set(re.findall(r"\w+", code))
    used = {i for i in item if "assume_specification" in item[i] and name[i] in words or "axiom_eq_" in item[i] or "axiom_obeys_" in item[i]}
    uninterp = {name[i] for i in item if "uninterp" in item[i]}
    while True:
        known = {w for i in used for w in re.findall(r"\w+", item[i])} | words
        more = {i for i in item if i not in used and "assume_specification" not in item[i]
                and ((name[i] in known and "axiom fn" not in item[i]) or ("axiom fn" in item[i] and uninterp & known & set(re.findall(r"\w+", item[i]))))}
        if not more:
            break
        used |= more
    idle = {i for i in item if i not in used}
    if "parse" not in words:
        idle |= {i for i, l in enumerate(ls) if "axiom fn axiom_parse_" in l}
    return idle


def trusted_base(rs_list):
    out = []
    for rs in rs_list:
        ls = open(rs).read().splitlines()
        idle = std_unused(ls)
        for i, l in enumerate(ls):
            t = l.strip()
            if t.startswith("//") or i in idle:
                continue
            if "assume_specification" in t:
                m = re.search(r"assume_specification.*?\[\s*(.*?)\s*\]", t)
                out.append("assumed contract of " + (m.group(1) if m else t))
            elif "axiom fn" in t or "admit()" in t or re.search(r"\bassume\(", t):
                m = re.search(r"axiom fn (\w+)", t)
                out.append("axiom " + (m.group(1) if m else t))
            elif "external_body" in t and not t.startswith("pub struct"):
                for k in range(i, min(i + 3, len(ls))):
                    m = re.search(r"\bfn (\w+)", ls[k])
                    if m:
                        out.append("trusted stub " + m.group(1))
                        break
                    m = re.search(r"\bstruct (\w+)", ls[k])
                    if m:
                        out.append("opaque type " + m.group(1))
                        break
            elif "uninterp spec fn" in t:
                m = re.search(r"uninterp spec fn (\w+)", t)
                out.append("uninterpreted " + m.group(1))
    seen, r = set(), []
    for x in out:
        if x not in seen:
            seen.add(x)
            r.append(x)
    return r


# ------------------------------------------------------------------ tests of the real code
def run_harness(exe, prop, seed, scale, secs, only=None, lits=None):
    cmd = [exe, prop, "--seed", str(seed), "--scale", str(scale), "--secs", str(secs)]
    if only:
        cmd += ["--family", only[0], "--index", str(only[1])]
    env = dict(ENV)
    env.pop("VERIF_DICT", None)
    if lits:
        env["VERIF_DICT"] = lits
    rc, o, e = sh(cmd, timeout=secs + 60, env=env)
    if lits:
        cmd = ["VERIF_DICT=" + lits] + cmd
    r = None
    for l in o.splitlines():
        if l.startswith("RESULT "):
            try:
                r = json.loads(l[7:])
            except ValueError:
                pass
    if r is not None and rc == 0:
        return r, cmd
    inp = ""
    for l in o.splitlines():
        if l.startswith("OVERSIZE-ALLOCATION"):
            inp = l[len("OVERSIZE-ALLOCATION "):]
        elif l.startswith("CASE "):
            inp = l[5:]
    what = {77: "one allocation of more than 1 GiB", None: "no progress: the code under test did not finish"}.get(rc, "the process died (exit %s)" % rc)
    if rc == 2:
        return None, cmd
    return {"evaluations": 0, "distinct": 0, "families": {}, "samples": [],
            "violations": [{"family": "", "index": 0, "seed": seed, "input": inp, "detail": what + " " + e[-300:]}]}, cmd


def known_findings():
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (\S+) (.*)", l.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out


# ------------------------------------------------------------------ one property
def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    P = PROPS[prop]
    base = {}
    bp = os.path.join(VERIF, "contracts", "baseline.json")
    if os.path.exists(bp):
        base = json.load(open(bp))
    ex, xerr = build_extract()
    pool = ThreadPoolExecutor(8)
    hb = pool.submit(build_crate, P["crate"])
    units, vac = [], []
    if ex:
        main = [pool.submit(run_unit, ex, n) for n in P["units"]]
        # reachability: `assert(false)` at the start of every function must fail
        vac = [pool.submit(run_unit, ex, n, 420, "_vac", ["--vacuity"]) for n in P["units"]]
        units = [f.result() for f in main]
        vac = [f.result() for f in vac]
    hexe, herr = hb.result()

    notes, undecided, primary_fail, other_fail = [], [], [], []
    obligations = discharged = 0
    fns = []
    smt = 0
    for u in units:
        if u.error:
            undecided.append("%s: %s" % (u.name, u.error))
        if u.report is None:
            continue
        smt += u.res["smt_ms"]
        bad = set()
        for l in u.limits:
            undecided.append("%s: %s: %s" % (u.name, l["function"], l["message"][:300]))
        for f in u.failures:
            bad.add(f["function"])
            mine = prop in f["props"] and (not f["tags"] or prop in f["tags"])
            if mine:
                # a failed lemma over constants and contracts needs no shape
                ok, why = shape_known(u, f["function"], base) if f["function"] else (True, "")
                if ok:
                    primary_fail.append((u, f))
                else:
                    undecided.append("%s: %s: %s; the function is written differently from what its proof covers (%s)" % (u.name, f["function"], f["message"], why))
                    other_fail.append((u, f))
            else:
                other_fail.append((u, f))
        q = [(n, x) for n, xs in u.res["functions"].items() for x in xs if x["mode"] in ("exec", "proof")]
        obligations += len(q)
        discharged += sum(1 for _, x in q if x["ok"])
        for f in u.report["functions"]:
            if prop in f["props"]:
                fns.append({"function": f["name"], "file": f["file"], "lines": "%d-%d" % (f["line"], f["line_end"]),
                            "proved": not u.error and f["name"] not in bad and not any(l["function"] == f["name"] for l in u.limits),
                            "rewrites": f["rules"], "inlined": f["inlined"]})
    lost = [f for f in P.get("functions", []) if f not in [x["function"] for x in fns]]
    vac_ok = vac_total = 0
    for u in vac:
        if u.report is None or u.error:
            continue
        failed = {f["function"] for f in u.failures} | {f["function"] for f in u.limits}
        for f in u.report["functions"]:
            if prop in f["props"]:
                vac_total += 1
                if f["name"] in failed:
                    vac_ok += 1
                elif not any(uu.name == u.name and uu.error for uu in units):
                    undecided.append("%s: %s: the precondition is contradictory: the proof says nothing" % (u.name, f["name"]))

    # the real code
    scale = P.get("scale", {}).get(tier, 1 if tier == "quick" else 40)
    secs = P.get("secs", {}).get(tier, 60 if tier == "quick" else 500)
    H = None
    hcmd = []
    if hexe:
        H, hcmd = run_harness(hexe, prop, seed, scale, secs)
    else:
        notes.append("the test crate does not build: " + herr[-600:])
    hv = list(H["violations"]) if H else []
    # once more, with generators which prefer the literals the source has gained
    glits = literals.gained(REPO, LITERALS)
    words = {"gained": len(glits[0]) + len(glits[1])}
    os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
    known = {k[1] for k in known_findings() if k[0] == prop}
    passes = [("gained", glits, 3, 60)] + ([("all", literals.everything(REPO), 4, 120)] if tier == "thorough" else [])
    for name, ls, sc, sec in passes:
        if H and (ls[0] or ls[1]) and not [v for v in hv if v["family"] not in known]:
            lp = os.path.join(BUILD, "replay", "%s.%s.literals" % (prop, name))
            literals.write(lp, *ls)
            H2, c2 = run_harness(hexe, prop, seed + 1, sc, sec, lits=lp)
            if H2:
                words["evaluations with literals: " + name] = H2["evaluations"]
                H["evaluations"] += H2["evaluations"]
                H["distinct"] += H2["distinct"]
                more = [v for v in H2["violations"] if v["family"] not in known]
                if more:
                    hv, hcmd = more, c2
    kf = [(k[1], k[2]) for k in known_findings() if k[0] == prop]
    for fam, text in kf:
        hit = [v for v in hv if v["family"] == fam]
        print("KNOWN-FINDING: property=%s %s %s" % (prop, fam, text))
        hv = [v for v in hv if v["family"] != fam]

    mutants = None
    if tier == "thorough" and ex and not primary_fail and not undecided:
        mutants = mutation(ex, prop, units, pool, t0 + 780)

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    obl = [{"unit": u.name, "function": f["function"], "obligation": f["message"], "clauses": f["clauses"], "at": f["text"],
            "verifier_output": f["rendered"]} for u, f in primary_fail + other_fail]
    exit_code = 0
    if hv:
        v = hv[0]
        rp = os.path.join(rdir, "%s.json" % prop)
        json.dump({"property": prop, "kind": "failing input on the real code", "violations": hv, "failed_obligations": obl,
                   "proof_not_complete": undecided[:12],
                   "replay_cmd": ("%s --family %s --index %s" % (" ".join(hcmd), v["family"], v["index"])) if v["family"] else " ".join(hcmd)},
                  open(rp, "w"), indent=1)
        for v in hv[:3]:
            print("  failing input: %s#%s: %s" % (v["family"], v["index"], v["input"][:400]))
            print("    %s" % v["detail"][:600])
        for o in obl[:3]:
            print("  failed obligation: %s %s: %s %s" % (o["unit"], o["function"], o["obligation"], " ".join(o["clauses"])[:300]))
        for u in ([] if obl else undecided[:3]):
            print("  proof no longer accepted: " + u[:400])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        exit_code = 1
    elif primary_fail:
        rp = os.path.join(rdir, "%s.json" % prop)
        json.dump({"property": prop, "kind": "failed proof obligation", "failed_obligations": obl,
                   "checker": [u.res["cmd"] for u in units if u.res]}, open(rp, "w"), indent=1)
        for o in obl[:5]:
            print("  failed obligation: %s %s: %s %s" % (o["unit"], o["function"], o["obligation"], " ".join(o["clauses"])[:300]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        exit_code = 1
    elif (undecided or other_fail or lost or not ex) and not H:
        print("NOT DECIDED property=%s" % prop)
        for u in undecided:
            print("  " + u[:400])
        for n in notes:
            print("  " + n[:800])
        exit_code = 2
    for n in notes:
        print("note: " + n[:400])
    if not ex:
        undecided.append("the extractor does not build: " + xerr[-300:])
    if lost:
        undecided.append("no longer under contract: " + ", ".join(lost))
    if other_fail and not undecided:
        undecided += ["%s: %s: %s (a contract this property's proof uses)" % (u.name, f["function"], f["message"]) for u, f in other_fail]
    proved = not undecided and not primary_fail and not lost and ex
    if undecided and exit_code == 0:
        print("PROOF NOT COMPLETE property=%s: bounded testing of the real code stands in on this run" % prop)
        for u in undecided[:6]:
            print("  " + u[:400])
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "; ".join(u.res["cmd"] for u in units if u.res) or "none",
        "trusted_base": trusted_base([u.rs for u in units if u.report]) + P.get("trusted", []),
        "back_end": "Verus 0.2026.09.13 (Z3)", "solver_ms": smt,
        "functions_under_contract": fns,
        "units": [{"unit": u.name, "verified": u.res["verified"] if u.res else 0, "errors": u.res["errors"] if u.res else 0,
                   "functions_extracted": len(u.report["functions"]) if u.report else 0, "verified_in_second_attempt": u.second,
                   "slowest": sorted([(round(x["ms"]), n) for n, xs in u.res["functions"].items() for x in xs], reverse=True)[:3] if u.res else []} for u in units],
        "reachability_checks": vac_total, "reachability_failures": vac_total - vac_ok,
        "extraction_drops": sorted({d for u in units if u.report for d in u.report["dropped"]}),
        "proof_complete": bool(proved),
        "undecided": undecided[:20],
        "bounded": {"what": "the real code, run against an independent oracle on generated inputs; never counted as proved",
                    "evaluations": H["evaluations"] if H else 0, "distinct_nontrivial": H["distinct"] if H else 0,
                    "families": H["families"] if H else {}, "samples": (H["samples"] if H else [])[:8], "scale": scale, "literals": words},
        "evaluations": H["evaluations"] if H else 0, "distinct_nontrivial": H["distinct"] if H else 0,
        "rule": "generated inputs per family; a case counts when its input differs from all earlier ones of its family",
        "samples": (H["samples"] if H else [])[:4] + ["%s %s: %s" % (f["file"], f["lines"], f["function"]) for f in fns[:4]],
    }
    if mutants is not None:
        cov["contract_mutants"] = mutants
    level = P.get("level", "proof")
    if not proved:
        level = "exploration"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(hv) + (len(primary_fail) if not hv else 0)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if exit_code == 0:
        print("OK property=%s obligations=%d discharged=%d functions=%d tests=%d %.1fs%s" % (
            prop, obligations, discharged, len(fns), H["evaluations"] if H else 0, time.time() - t0, "" if proved else " (proof not complete)"))
    return exit_code


def mutation(ex, prop, units, pool, deadline):
    """Thorough tier: small changes to each function under contract; how many does its contract notice?"""
    jobs = []
    for u in units:
        for f in u.report["functions"]:
            if prop in f["props"]:
                jobs += [(u.name, f["name"], k) for k in range(f["mutants"])]
    jobs.sort(key=lambda j: hashlib.sha256(repr(j).encode()).hexdigest())

    def one(j):
        if time.time() > deadline:
            return None
        un, fn, k = j
        r = run_unit(ex, un, timeout=200, tag="_m%s_%d" % (hashlib.sha256(fn.encode()).hexdigest()[:8], k), opts=["--mutate", fn, str(k)])
        st = "killed" if r.failures else ("limit" if r.error or r.limits else "survived")
        for s in (".rs", ".json"):
            try:
                os.remove(os.path.join(GEN, un + "_m%s_%d" % (hashlib.sha256(fn.encode()).hexdigest()[:8], k) + s))
            except OSError:
                pass
        return (j, st)

    with ThreadPoolExecutor(3) as p2:
        rs = [r for r in p2.map(one, jobs) if r]
    return {"generated": len(jobs), "run": len(rs), "noticed": sum(1 for _, s in rs if s == "killed"),
            "not_decided": sum(1 for _, s in rs if s == "limit"),
            "survived": ["%s %s #%d" % j for j, s in rs if s == "survived"]}


def baseline():
    ex, err = build_extract()
    out, loc = {}, []
    for n in UNITS:
        rs, rep, err = extract_unit(ex, n, opts=["--no-locals"])
        if err:
            print(n, err)
            return 1
        out[n] = {f["name"]: {"loops": f["loops"], "vocab": sorted(f["vocab"]), "unused": f["unused"], "inlined": sorted(set(f["inlined"])),
                             "made": sorted(r for r in f["rules"] if "loop" in r)} for f in rep["functions"]}
        for f in rep["functions"]:
            loc.append("%s\t%s\t%s" % (f["file"], f["name"], ",".join(f.get("locals", []))))
    literals.save(REPO, LITERALS)
    json.dump(out, open(os.path.join(VERIF, "contracts", "baseline.json"), "w"), indent=1, sort_keys=True)
    open(os.path.join(VERIF, "contracts", "locals.txt"), "w").write("\n".join(loc) + "\n")
    return 0


def main(a):
    if a[:1] == ["--setup"]:
        ex, err = build_extract()
        if not ex:
            print(err)
            return 1
        rc = 0
        for c in CRATES:
            exe, err = build_crate(c)
            print(c, "ok" if exe else err)
        return rc
    if a[:1] == ["--baseline"]:
        return baseline()
    if a[:1] == ["--unit"]:
        ex, err = build_extract()
        u = run_unit(ex, a[1])
        print(u.error)
        for f in u.failures + u.limits:
            print(f["function"], f["message"], f["tags"], f["clauses"], "|", f["text"])
        if u.res:
            print("verified %d errors %d smt %d ms wall %.1f" % (u.res["verified"], u.res["errors"], u.res["smt_ms"], u.res["wall"]))
        return 0
    if len(a) != 1 or a[0] not in PROPS:
        print(__doc__)
        return 2
    return check(a[0])
