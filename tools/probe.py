"""Vacuity probes. probe.py GENERATED.rs OUT.rs: the translator (--probe) has put `if __probe(k) { assert(false); }` at the start
and end of every function under contract and at the start of every loop; this adds one to every lemma, runs Verus and lists the
probes that Verus ACCEPTS, that is, the places where the hypotheses are contradictory (or that are unreachable)."""
import json, re, subprocess, sys


def add_lemma_probes(text):
    out, names, pend, n, ext = [], {}, None, 100000, False
    for l in text.split("\n"):
        m = re.match(r"\s*(pub )?(open |closed |uninterp |broadcast |const |proof |spec |exec )*fn (\w+)", l)
        if m:
            pend = m.group(3) if "proof fn" in m.group(0) and not ext else None
            ext = False
        if "external_body" in l:
            ext = True
        out.append(l)
        if pend and re.match(r"\s*\{", l):
            j = l.index("{")
            out[-1] = l[: j + 1] + " if crate::prelude::__probe(%d) { assert(false); } " % n + l[j + 1 :]
            names[n] = "lemma " + pend
            n += 1
            pend = None
    return "\n".join(out), names


def run(src, dst, mods=(), timeout=1500, threads=8):
    text, _ = add_lemma_probes(open(src).read())
    open(dst, "w").write(text)
    probes = {}
    fn, path = "", []
    for no, l in enumerate(text.split("\n"), 1):
        m = re.match(r"\s*(?:pub )?(?:[a-z]+ )*fn (\w+)", l)
        if m:
            fn = m.group(1)
        m = re.match(r"pub mod (\w+) \{$", l)
        if m:
            path.append(m.group(1))
        m = re.match(r"\} // mod (\w+)", l)
        if m:
            path = path[: len(path) - 1 - path[::-1].index(m.group(1))]
        m = re.search(r"__probe\((\d+)\)", l)
        if m and (not mods or "::".join(path) in mods):
            probes[no] = (int(m.group(1)), fn)
    p = subprocess.run(["verus", dst, "--triggers-mode", "silent", "--multiple-errors", "60", "--rlimit", "30", "--num-threads", str(threads), "--error-format=json"] + [x for m in mods for x in ("--verify-module", m)],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, universal_newlines=True)
    failed, other = set(), []
    for l in p.stderr.split("\n"):
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") != "error":
            continue
        ls = [s["line_start"] for s in d.get("spans", []) if s.get("is_primary")]
        if d["message"] == "assertion failed" and any(x in probes for x in ls):
            failed.update(x for x in ls if x in probes)
        elif ls:
            other.append((d["message"], ls))
    quiet = [(no,) + probes[no] for no in sorted(probes) if no not in failed]
    return len(probes), quiet, other


if __name__ == "__main__":
    n, quiet, other = run(sys.argv[1], sys.argv[2])
    print("probes", n, "accepted", len(quiet))
    for q in quiet:
        print("  line %d probe %d in %s" % q)
    for o in other:
        print("  other:", o)
