#!/usr/bin/env python3
"""Small random changes of one line, judged by the quick checks: which ones do the checks miss?

  mutants.py WORKDIR SEED SECONDS LOG [FILE-SUBSTRING]

Works on copies of /repo and /verif below WORKDIR.  Every line of LOG is one change: where, what, and
the check that caught it (null: survived all the checks mapped to the file; these are to be reviewed by
hand: equivalent, unreachable, or a gap)."""
import json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, SEED, SECS, LOG = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), sys.argv[4]
ONLY = sys.argv[5] if len(sys.argv) > 5 else ""
R, VC = os.path.join(W, "repo"), os.path.join(W, "verif")
MAP = [("core/params", "C02 C01 C27 C13 C24"), ("core/data_storage", "C05 C04 C03 C06 C27"), ("core/data.", "C08 C07 C11 C03 C27"), ("core/vertical_segment", "C07 C05 C19 C33"),
       ("core/args", "C25 C26 C05"), ("core/function", "C16 C15 C34 C14 C17 C24 C22 C28 C33 C30"), ("core/rational_function", "C18 C15 C17 C19 C21 C33"), ("core/metrics", "C24 C28"),
       ("core/plugins_manager", "C30 C26 C15 C16"), ("core/common", "C13 C14 C02 C08 C09"), ("core/clustering", "C27"), ("core/fitter", "C22 C26"),
       ("nonlinear_fitter", "C22 C33 C26"), ("rational_fitter", "C19 C21 C20 C23 C33"), ("rational_function_", "C18 C15 C17"), ("nonlinear_", "C13 C14 C15 C17 C22 C32"),
       ("data_interpolants", "C11 C27 C06"), ("data_io", "C09 C10 C11 C12 C06 C27"), ("softs/data2moments", "C29 C26"), ("softs/data2brdf", "C33 C26 C28"), ("softs/data2stats", "C24 C28 C26"),
       ("softs/data2data", "C27 C26"), ("softs/", "C28 C26"), ("python/", "C31")]
NOT = ("ipopt", "cgal", "dca", "matlab", "parsec", "data2diff", "data2gnuplot", "brdf2moments", "isotropic_lafortune", "SConscript", "mex", "tinyexr")
rng = random.Random(SEED)


def setup():
    os.makedirs(W, exist_ok=True)
    for d in (R, VC):
        if os.path.isdir(d):
            shutil.rmtree(d)
    subprocess.check_call(["git", "clone", "-q", "/repo", R])
    os.makedirs(VC)
    for d in ("lib", "checks", "src"):
        shutil.copytree(os.path.join(V, d), os.path.join(VC, d))
    shutil.copy(os.path.join(V, "known_findings.json"), VC)


def lines():
    out = []
    for d, ds, fs in os.walk(os.path.join(R, "sources")):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), os.path.join(R, "sources"))
            if not f.endswith((".cpp", ".h", ".hpp", ".inl")) or any(x in p for x in NOT) or ONLY not in p:
                continue
            m = next((c for k, c in MAP if k in p), None)
            if not m:
                continue
            incomment = False
            for n, l in enumerate(open(os.path.join(R, "sources", p), encoding="utf-8", errors="surrogateescape", newline="").read().split("\n")):
                if "/*" in l:
                    incomment = True
                if not incomment and not re.match(r"\s*(//|#|\*|using|namespace|public|private|protected|$|[{}]+\s*$)", l) and not re.search(r"std::cout|std::cerr|assert\(|printf|#include|<<ERROR|<<INFO|<<DEBUG", l):
                    out.append((p, n, l, m.split()))
                if "*/" in l:
                    incomment = False
    return out


OPS = [(r"(?<=[\w\])] )<(?= [\w\(])", "<="), (r"(?<=[\w\])])<(?=[\w\(-]+;)", "<="), (r" > (?=[\w\(-])", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r"==", "!="), (r"!=", "=="), (r"(?<=[\w\])] )\+(?= ?[\w\(])", "-"),
       (r"(?<=[\w\])])\+(?=[\w\(])", "-"), (r"(?<=[\w\])])-(?=[\w\(])", "+"), (r"(?<=[\w\])] )-(?= ?[\w\(])", "+"), (r"(?<=[\w\])])\*(?=[\w\(])", "/"), (r"(?<=[\w\])]) \* (?=[\w\(])", " / "),
       (r"(?<=[\w\])])/(?=[\w\(])", "*"), (r"(?<=[\w\])]) / (?=[\w\(])", " * "), (r"&&", "||"), (r"\|\|", "&&"), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "2"), (r"\b1\b(?!\.)", "0"), (r"\b2\b(?!\.)", "3"), (r"\b3\b(?!\.)", "2"),
       (r"\b0\.5\b", "0.45"), (r"\b1\.0\b", "1.1"), (r"\b2\.0\b", "1.9"), (r"\b0\.0\b", "0.05"), (r"\bsin\(", "cos("), (r"\bcos\(", "sin("), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\[i\]", "[0]"), (r"\[j\]", "[0]"), (r"\[k\]", "[0]"), (r"\bdimX\(\)", "dimY()"), (r"\bdimY\(\)", "dimX()"), (r"\bcontinue;", "break;"), (r"\bbreak;", ";"), (r"\+=", "="), (r"\+=", "-="), (r"!(?=[\w\(])", ""),
       (r"\bif ?\((?=.*\) *\{?\s*$)", "if(!"), (r"^(\s*)[\w\[\]\.\->:_]+(\(.*\))?( [-+*/]?= .*)?;\s*$", r"\1;"), (r"\bunsigned int\b", "unsigned char"), (r"\bdouble\b", "float"), (r"&(?= ?\w+[,)])", "")]


def mutate(l):
    code = l.split("//")[0]
    c = []
    for pat, rep in OPS:
        for m in re.finditer(pat, code):
            c.append((pat, rep, m))
    if not c:
        return None
    # choose the kind first, then the place
    pat = rng.choice(sorted(set(x[0] + "\0" + x[1] for x in c)))
    pat, rep, m = rng.choice([x for x in c if x[0] + "\0" + x[1] == pat])
    if pat.startswith(r"\bif"):
        return code[:m.start()] + "if(!(" + code[m.end():].rstrip().rstrip("{").rstrip() + ")" + (" {" if code.rstrip().endswith("{") else "")
    return code[:m.start()] + m.expand(rep) + code[m.end():]


def main():
    setup()
    t0 = time.time()
    L = lines()
    files = sorted(set(x[0] for x in L))
    by = {f: [x for x in L if x[0] == f] for f in files}
    env = dict(os.environ, ALTA_REPO=R, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
    done = set()
    while time.time() - t0 < SECS:
        # half by file (so that small plugins get their share), half by line
        x = rng.choice(by[rng.choice(files)]) if rng.random() < .4 else rng.choice(L)
        p, n, l, checks = x
        new = mutate(l)
        if new is None or new == l or (p, n, new) in done:
            continue
        done.add((p, n, new))
        P = os.path.join(R, "sources", p)
        s = open(P, encoding="utf-8", errors="surrogateescape", newline="").read()
        a = s.split("\n")
        a[n] = new
        open(P, "w", encoding="utf-8", errors="surrogateescape", newline="").write("\n".join(a))
        rec = dict(file=p, line=n + 1, old=l.strip(), new=new.strip(), caught=None)
        t1 = time.time()
        for c in checks:
            try:
                r = subprocess.run(["python3", "checks/%s.py" % c], cwd=VC, env=env, capture_output=True, text=True, errors="replace", timeout=600)
            except subprocess.TimeoutExpired:
                rec["caught"] = c + ":timeout"
                break
            if r.returncode == 2:
                rec["caught"] = "nobuild"
                break
            if r.returncode:
                rec["caught"] = c
                rec["how"] = next((z.strip()[:100] for z in r.stdout.splitlines() if z.startswith("  ")), "")
                break
        rec["s"] = round(time.time() - t1, 1)
        open(P, "w", encoding="utf-8", errors="surrogateescape", newline="").write(s)
        with open(LOG, "a") as fh:
            fh.write(json.dumps(rec) + "\n")


main()
