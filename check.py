#!/usr/bin/env python3
"""check.py ID: decide one property of /repo's current working tree. See DESIGN.md, "What a check does"."""
import difflib, fnmatch, json, os, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, FILES
import probe
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
ID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if "--thorough" in sys.argv: TIER = "thorough"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()
P = PROPS[ID]
THOROUGH = TIER == "thorough"
SECS = 300 if THOROUGH else 15          # random search on top of the exhaustive scopes
DEEP = 240 if THOROUGH else 60          # further search when an obligation fails
BASE = json.load(open(os.path.join(HERE, "tools", "baseline.json")))

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, **k)
def say(*a): print(*a, flush=True)
def matches(f, pats): return any(fnmatch.fnmatchcase(f, p) for p in pats)

# ---- building blocks -----------------------------------------------------------------
def build_translator():
    e = dict(os.environ, RUSTFLAGS="-Awarnings", CARGO_TARGET_DIR=os.path.join(BUILD, "translator"))
    r = sh(["cargo", "build", "--offline", "--release", "-q"], cwd=os.path.join(HERE, "translator"), env=e)
    if r.returncode: say("cannot build the translator\n" + r.stderr); sys.exit(2)
    return os.path.join(BUILD, "translator", "release", "vtrans")

def build_harness():
    """Builds the harness against /repo's working tree. cargo trusts time stamps, so topogeo's fingerprint is dropped first."""
    fp = os.path.join(BUILD, "harness", "release", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith(("topogeo-", "harness-")): shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    e = dict(os.environ, RUSTFLAGS="-Awarnings", CARGO_TARGET_DIR=os.path.join(BUILD, "harness"))
    r = sh(["cargo", "build", "--offline", "--release", "-q"], cwd=os.path.join(HERE, "harness"), env=e)
    return (os.path.join(BUILD, "harness", "release", "harness"), "") if r.returncode == 0 else (None, r.stderr[-3000:])

def harness_run(exe, secs):
    """(violations [(gen, case, msg)], generator lines)"""
    r = sh([exe, "run", ID, str(SEED), str(secs)])
    v, g = parse_harness(r.stdout)
    if r.returncode not in (0, 1) and not v:
        # died (stack overflow, abort, out of memory): find the case
        t = sh([exe, "run", ID, str(SEED), str(secs), "trace"])
        last = [l for l in t.stdout.splitlines() if l.startswith("TRY\t")]
        if t.returncode not in (0, 1) and last:
            _, gen, case = last[-1].split("\t")
            v = [(gen, case, "the process dies (status %d)" % t.returncode)]
        else:
            v, g2 = parse_harness(t.stdout)
            g = g or g2
    return v, g
def parse_harness(out):
    v, g = [], []
    for l in out.splitlines():
        f = l.split("\t")
        if f[0] == "VIOL": v.append((f[1], f[2], f[3]))
        if f[0] == "GEN": g.append(dict(generator=f[1], cases=int(f[2]), nontrivial=int(f[3]), kind=f[4], size=int(f[5])))
    return v, g

def translate(vt, gen, ext, vac=False):
    rep = gen[:-3] + ".json"
    cmd = [vt, "--repo", REPO, "--contracts", os.path.join(HERE, "contracts"), "--out", gen, "--report", rep, "--external", ",".join(sorted(ext))]
    r = sh(cmd)
    if r.returncode: return None, r.stderr
    text = open(gen).read()
    # the canary: it must fail, or the axioms are contradictory or nothing is being checked
    text = text.replace("} // verus!\n", "pub mod canary { use vstd::prelude::*; use crate::prelude::*;\npub proof fn canary() ensures false { }\n}\n} // verus!\n")
    open(gen, "w").write(text)
    return json.load(open(rep)), ""

def verus(gen, mods, seed=None):
    cmd = ["verus", os.path.basename(gen), "--triggers-mode", "silent", "--multiple-errors", "20", "--output-json", "--time-expanded", "--error-format=json", "--num-threads", "8", "--rlimit", "10"]
    if seed: cmd += ["--smt-option", "smt.random_seed=%d" % seed, "--smt-option", "sat.random_seed=%d" % seed]
    cmd += ["--verify-module", "canary"]
    for m in mods: cmd += ["--verify-module", m]
    try: r = sh(cmd, cwd=os.path.dirname(gen), timeout=(450 if not seed else 200) if not THOROUGH else 3000)
    except subprocess.TimeoutExpired: return cmd, None, [dict(message="verus: time limit", level="timeout", spans=[], rendered="")]
    diags = []
    for l in r.stderr.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get("level") == "error": diags.append(d)
    try: out = json.loads(r.stdout)
    except ValueError: out = None
    return cmd, out, diags

def span_fns(rep, d):
    """functions of /repo in which the diagnostic's spans lie"""
    res = []
    for s in d.get("spans", []):
        for f in rep["functions"]:
            a = f.get("lines")
            if a and a[0] <= s["line_start"] <= a[1] and f["id"] not in res: res.append(f["id"])
    return res
def primary_fn(rep, d):
    """the function whose body fails: for a failed precondition that is the caller, for a postcondition the function itself"""
    prim = [s for s in d.get("spans", []) if s.get("is_primary")] or d.get("spans", [])
    for s in prim:
        for f in rep["functions"]:
            a = f.get("lines")
            if a and a[0] <= s["line_start"] <= a[1]: return f["id"]
    return None
RETRIED = []
PROBES = {}
def item(rep, text_lines, d):
    """the verification item a diagnostic belongs to: a function, or the lemma around its line"""
    f = primary_fn(rep, d)
    if f: return f
    prim = [s for s in d["spans"] if s.get("is_primary")] or d["spans"]
    for n in range(prim[0]["line_start"], 0, -1):
        m = re.search(r"proof fn (\w+)", text_lines[n - 1])
        if m: return "lemma " + m.group(1)
    return "line %d" % prim[0]["line_start"]
def labels(text_lines, d):
    """properties a failed clause is labelled with (//@C05 C07 at the end of its line), or none"""
    res = set()
    for s in d.get("spans", []):
        for n in range(s["line_start"], s["line_end"] + 1):
            m = re.search(r"//@((?: ?C\d\d)+)", text_lines[n - 1]) if n <= len(text_lines) else None
            if m: res |= set(m.group(1).split())
    return res

PANIC = ("precondition not satisfied", "possible arithmetic", "possible division", "possible bit shift", "unreachable", "forbidden_panic")
def kind_ok(d):
    """Properties about results are not broken by a failed panic obligation as such (that is C16's), and the other way round."""
    k = P.get("kinds")
    panic = any(m in d["message"].lower() for m in PANIC)
    return k is None or (k == "panic") == panic
PROOF_FAIL = ("not satisfied", "assertion failed", "invariant", "possible arithmetic", "possible division", "decreases", "unreachable", "precondition", "postcondition", "could not prove", "requires", "possible bit shift", "forbidden_panic", "assert_bitvector", "cannot show")
def is_proof_failure(d):
    m = d["message"].lower()
    if "resource limit" in m or "rlimit" in m or "time limit" in m: return False
    if d.get("code"): return False   # rustc error
    return any(k in m for k in PROOF_FAIL)
def is_limit(d):
    m = d["message"].lower()
    return "resource limit" in m or "rlimit" in m

def norm(sk): return sk.split()
def subseq(a, b):
    it = iter(b)
    return all(x in it for x in a)
def same_shape(fid, rep):
    """Is the function the baseline's text up to names, numbers and operators, or the baseline with tokens removed, or with a few
    balanced runs of tokens without loops put in? Then its annotations still fit and a failed obligation means what it says.
    Otherwise the proof script may merely no longer fit."""
    cur = next((f["skeleton"] for f in rep["functions"] if f["id"] == fid), None)
    base = BASE.get(fid)
    if cur is None or base is None: return False
    if cur == base: return True
    c, b = norm(cur), norm(base)
    if len(c) < len(b): return subseq(c, b)
    ops = [o for o in difflib.SequenceMatcher(None, b, c, autojunk=False).get_opcodes() if o[0] != "equal"]
    added = [t for o in ops for t in c[o[3]:o[4]]]
    return len(ops) <= 4 and len(added) <= 60 and all(o[0] == "insert" for o in ops) and not {"for", "while", "loop", "fn"} & set(added)

# ---- the check -----------------------------------------------------------------------
def main():
    if not os.path.isdir(BUILD): os.makedirs(BUILD)
    scratch = tempfile.mkdtemp(prefix="check-%s-" % ID, dir=BUILD)
    try: return check(scratch)
    finally: shutil.rmtree(scratch, ignore_errors=True)

def check(scratch):
    vt = build_translator()
    hres = {}
    def side():
        exe, err = build_harness()
        hres["exe"], hres["err"] = exe, err
        if exe: hres["viol"], hres["gens"] = harness_run(exe, SECS)
    th = threading.Thread(target=side); th.start()

    ext, undecided, failed = set(), {}, []
    gen = os.path.join(scratch, "topogeo_%s.rs" % ID.lower())
    rep = out = None
    cmd = []
    solver_ms = 0
    broken = None
    limits = []
    for attempt in range(12):
        rep, err = translate(vt, gen, ext)
        if rep is None: broken = "translator: " + err; break
        pats = P["own"] + P["deps"]
        rel = [f for f in rep["functions"] if matches(f["id"], pats)]
        for f in rel:
            if f["status"] != "ok" and f["id"] not in undecided: undecided[f["id"]] = f["status"]
        for t, d in BASE.get("derives", {}).items():
            lost = [x for x in d if x not in rep["derives"].get(t, [])]
            if lost and t.split(":")[0] in FILES[ID] + ["src/geo/mod.rs"]: undecided["type " + t] = "the contracts take %s to be derived" % ", ".join(lost)
        mods = sorted({module_of(f["id"], rep) for f in rel} | set(P.get("lemmas", [])))
        cmd, out, diags = verus(gen, mods)
        if out is None and diags and diags[0]["level"] == "timeout": broken = "verus: time limit"; break
        vr = (out or {}).get("verification-results", {})
        hard = [d for d in diags if not is_proof_failure(d) and not is_limit(d) and d.get("spans")]
        if hard and not vr.get("verified") and not vr.get("errors"):
            # does not compile: leave the functions it names to the stand-in and try again
            fns = set()
            for d in hard:
                f = primary_fn(rep, d)
                if f: fns.add(f); undecided.setdefault(f, "not accepted by the verifier: " + d["message"][:300])
            if not fns or fns <= ext: broken = "verifier: " + hard[0]["rendered"][:1500]; break
            ext |= fns
            continue
        if out is None or "verified" not in vr:
            broken = "verifier: " + json.dumps(vr) + (diags[0]["rendered"][:1500] if diags else ""); break
        lines = open(gen).read().split("\n")
        can = [i for i, l in enumerate(lines, 1) if "proof fn canary()" in l]
        canary = [d for d in diags if any(s["line_start"] in can for s in d.get("spans", []))]
        if not canary: broken = "the canary was proved: axioms contradictory, or nothing checked"; break
        # an obligation is discharged when the solver accepts it under one of its random seeds
        bad = [d for d in diags if d not in canary and d.get("spans")]
        retried = []
        for seed in (1, 2, 3):
            if not bad or hres.get("viol") or time.time() - T0 > 300: break
            _, out2, diags2 = verus(gen, mods, seed)
            if out2 is None or "verified" not in out2.get("verification-results", {}): break
            again = {item(rep, lines, d) for d in diags2 if d.get("spans")}
            retried += sorted({item(rep, lines, d) for d in bad} - again)
            bad = [d for d in bad if item(rep, lines, d) in again]
        RETRIED.extend(retried)
        for d in bad:
            f = primary_fn(rep, d)
            if is_limit(d): undecided.setdefault(f or "lemma", "resource limit"); limits.append(f or "lemma")
            elif f is None: undecided.setdefault("lemma near line %d" % d["spans"][0]["line_start"], d["message"])
            else: failed.append((f, d, labels(lines, d)))
        break
    else: broken = "too many functions not accepted by the verifier"
    gen_text = open(gen).read() if os.path.exists(gen) else ""
    if THOROUGH and not broken:
        # vacuity: an assertion of false at the start and end of every function, loop body and lemma must fail
        pg = os.path.join(scratch, "probe.rs")
        if sh([vt, "--repo", REPO, "--contracts", os.path.join(HERE, "contracts"), "--out", pg, "--report", pg + ".json", "--external", ",".join(sorted(ext)), "--probe"]).returncode == 0:
            try:
                n, quiet, _ = probe.run(pg, os.path.join(scratch, "probe2.rs"), mods)
                PROBES.update(vacuity_probes=n, vacuity_probes_not_refuted=["%s (line %d)" % (f, no) for no, _, f in quiet])
            except subprocess.TimeoutExpired: PROBES.update(vacuity_probes=0, vacuity_probes_not_refuted=["time limit"])

    if ID == "C15": ieee(scratch, gen_text)
    th.join()
    exe = hres.get("exe")
    viol, gens = hres.get("viol", []), hres.get("gens", [])
    for f, d, l in failed: undecided.setdefault(f, "failed obligation: " + d["message"])
    deeper = False
    own_failed = [(f, d, l) for f, d, l in failed if (matches(f, P["own"]) and (ID in l if l else kind_ok(d))) or (matches(f, P.get("labelled", [])) and ID in l)]
    if exe and not viol and failed:
        deeper = True
        v2, g2 = harness_run2(exe)
        viol, gens = v2, gens + g2

    # ---- verdict
    code, vlines = 0, []
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replay = os.path.join(HERE, "evidence", "%s.replay.txt" % ID)
    if os.path.exists(replay): os.remove(replay)
    obl = "\n".join("failed obligation in %s%s:\n%s" % (f, " (labelled %s)" % " ".join(sorted(l)) if l else "", d["rendered"]) for f, d, l in failed)
    known = known_findings()
    if viol:
        new = [(v, k) for v, k in ((v, listed(v, known)) for v in viol)]
        for v, k in new:
            if k: say("KNOWN-FINDING: property=%s %s" % (ID, k))
        real = [v for v, k in new if not k]
        if real:
            gname, case, msg = real[0]
            c = sh([exe, "case", ID, gname, case], timeout=120) if "does not end" not in msg else None
            with open(replay, "w") as f:
                f.write("property %s\nreplay: %s case %s %s %s\n%s\n\n%s\n\n%s\n" % (ID, "harness (built from /verif/harness against /repo)", ID, gname, case, msg, c.stdout if c else "", obl))
            vlines.append("VIOLATION property=%s replay=%s" % (ID, replay)); code = 1
    if code == 0 and own_failed:
        named = [(f, d) for f, d, l in own_failed if same_shape(f, rep)]
        if named:
            with open(replay, "w") as f:
                f.write("property %s\nfailed obligation(s), no failing input found in %s\n\n%s\n" % (ID, json.dumps(gens), obl))
            vlines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (ID, replay)); code = 1
    if code == 0 and not exe:
        if undecided or broken or P["stand_in"] or not any(matches(f["id"], P["own"]) for f in (rep or {"functions": []})["functions"]):
            say("no answer: the harness does not build against /repo, and the proof does not cover everything:\n" + hres.get("err", "")); code = 2

    evidence(rep, out, cmd, ext, undecided, failed, broken, gens, viol, code, gen_text, deeper, hres)
    for l in vlines: say(l)
    nu = [k + ": " + f for k, v in sorted((rep or {}).get("not_under_contract", {}).items()) if k in FILES[ID] for f in v if not re.search("::(Display|Debug|Error)::", f)]
    if nu: say("%s: not under contract (bounded stand-in): %s" % (ID, "; ".join(nu)))
    st = ("proved (%d functions under contract)" % sum(1 for f in rep["functions"] if matches(f["id"], P["own"]))) if not undecided and not broken else "undecided by proof: " + "; ".join("%s (%s)" % (k, str(v)[:120]) for k, v in sorted(undecided.items())) + (" " + broken[:600] if broken else "")
    say("%s: %s; harness %d cases; exit %d, %.0f s" % (ID, st, sum(g["cases"] for g in gens), code, time.time() - T0))
    return code

def ieee(scratch, gen_text):
    """The assumed facts about binary64 arithmetic are theorems of contracts/ieee/Ieee.v, which Rocq checks from Flocq's definition of IEEE 754."""
    used = sorted(set(re.findall(r"proof fn axiom_(f_\w+)", gen_text)))
    v = os.path.join(scratch, "Ieee.v")
    shutil.copy(os.path.join(HERE, "contracts", "ieee", "Ieee.v"), v)
    thms = re.findall(r"^Theorem (\w+)", open(v).read(), re.M)
    with open(v, "a") as f: f.write("".join("Print Assumptions %s.\n" % t for t in thms))
    try: r = sh(["coqc", "-q", "Ieee.v"], cwd=scratch, timeout=200)
    except (OSError, subprocess.TimeoutExpired) as e: PROBES["ieee_facts"] = dict(assumed=used, proved_by_rocq=[], problem=str(e)[:300]); return
    ax = sorted(set(re.findall(r"^([\w.]+)\s*:", r.stdout, re.M)) - {"Axioms"})
    PROBES["ieee_facts"] = dict(assumed=used, proved_by_rocq=[t for t in thms if t in used] if r.returncode == 0 else [], axioms_of_the_rocq_proofs=ax, problem=r.stderr[-500:])

def harness_run2(exe):
    global SEED
    s = SEED
    SEED = s + 7919
    try: return harness_run(exe, DEEP)
    finally: SEED = s

def module_of(fid, rep):
    # a::b::Type::f -> a::b (modules are lower case); a nested function a::b::f::g -> a::b
    parts = fid.split("::")[:-1]
    m = []
    fns = {f["id"] for f in rep["functions"]}
    for p in parts:
        if p[:1].isupper() or "::".join(m + [p]) in fns: break
        m.append(p)
    return "::".join(m)

def known_findings():
    res = []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) case=(\S+) (.*)", l)
        if m and m.group(1) == ID: res.append((m.group(2), m.group(3).strip()))
    return res
def listed(v, known):
    for pat, what in known:
        if fnmatch.fnmatchcase("%s/%s" % (v[0], v[1]), pat): return what
    return None

def scan_assumptions(text, mods):
    res = []
    for i, l in enumerate(text.split("\n"), 1):
        s = l.strip()
        if s.startswith("//"): continue
        if re.search(r"\badmit\(|\bassume\(|external_body|assume_specification|\baxiom fn\b|uninterp spec", s): res.append(s[:160])
    return res

def evidence(rep, out, cmd, ext, undecided, failed, broken, gens, viol, code, gen_text, deeper, hres):
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    entry = next((c for c in man["checks"] if c["property"] == ID), {})
    level = entry.get("level", "other")
    fns = [f for f in (rep or {"functions": []})["functions"] if matches(f["id"], P["own"] + P["deps"])]
    bd = []
    for m in ((out or {}).get("times-ms", {}).get("smt", {}).get("smt-run-module-times", [])):
        for f in m.get("function-breakdown", []): bd.append((f["function"].split("::", 1)[1], f["time"], f["success"]))
    bd = [b for b in bd if not b[0].startswith("canary")]
    under = [f["id"] for f in fns if f["status"] == "ok" and f["id"] not in undecided]
    nu = {k: v for k, v in (rep or {}).get("not_under_contract", {}).items() if k in FILES[ID]}
    cases, nontriv = sum(g["cases"] for g in gens), sum(g["nontrivial"] for g in gens)
    samples = []
    if hres.get("exe"):
        for g in gens[:3]:
            c = sh([hres["exe"], "case", ID, g["generator"], str((SEED << 8 | 17) if not g["size"] else g["size"] // 2)])
            samples.append((g["generator"] + ": " + c.stdout.strip())[:700])
    ev = dict(property=ID, tier=TIER, seed=SEED, level=level, wall_s=round(time.time() - T0, 1), violations=0 if code == 0 else 1,
        coverage=dict(
            obligations=len(bd), discharged=sum(1 for b in bd if b[2]) + len(RETRIED), accepted_under_another_solver_seed=RETRIED,
            obligation_unit="one Verus verification item (a function body against its contract, or a lemma)",
            checker_cmd=" ".join(cmd), backend="Verus 0.2026.09.13.671956e / Z3", solver_ms=sum(b[1] for b in bd),
            functions_under_contract=under, lemmas=[b[0] for b in bd if b[0] not in {f["id"] for f in fns}],
            not_decided_by_proof=[dict(function=k, why=str(v)[:300]) for k, v in sorted(undecided.items())], verifier_problem=broken or "",
            functions_not_under_contract=nu, excluded_from_this_run=sorted(ext),
            trusted_base=["Verus 0.2026.09.13.671956e, Z3, vstd", "/verif/translator (syntactic lowering, DESIGN.md section 3)", "rustc"] + sorted(set(scan_assumptions(gen_text, None))),
            evaluations=cases, distinct_nontrivial=nontriv, rule="harness generators: exhaustive scopes by index, random cases by (VERIF_SEED, counter) and so distinct inputs up to generator collisions; non-trivial = inside the property's quantifier and the oracle compared something (harness/src)",
            generators=gens, samples=samples, deeper_search=deeper, **PROBES),
        assumptions=[entry.get("level_note", "")])
    json.dump(ev, open(os.path.join(HERE, "evidence", ID + ".json"), "w"), indent=1)

sys.exit(main())
