"""C17: exported code computes the same function."""
import math, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, dirs, driver, glsl, mlab, models, oracle, shapes
from gen import *


def six(v):
    return float("%.6g" % v)


def mat(r):
    """A random rotation."""
    a = dirs.unit([r.gauss(0, 1) for _ in range(3)])
    b = dirs.unit([r.gauss(0, 1) for _ in range(3)])
    c = dirs.unit([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    b = [c[1] * a[2] - c[2] * a[1], c[2] * a[0] - c[0] * a[2], c[0] * a[1] - c[1] * a[0]]
    return a, b, c


def turn(M, v):
    """v expressed in the frame whose axes are M."""
    return tuple(sum(M[k][i] * v[k] for k in range(3)) for i in range(3))


def tag(f):
    def one(l):
        return l.m.name.split("_", 1)[1] + (":" + l.m.opts[1] if l.m.opts[:1] == ("--sg-type",) else ":retro" if l.m.opts == ("--retro",) else "")
    if len(f.leaves) == 1:
        return one(f.leaves[0])
    if f.tree[0] == "mul":
        return "product:" + "*".join(one(l) for l in f.leaves)
    return "sum"


def poly(plugin, u, d):
    """(value, sum of the absolute monomials) of a basis polynomial."""
    if plugin in ("rational_function", "rational_function_cosine:monomials"):
        return u ** d, abs(u) ** d
    a, b = (1.0, 1.0), (u, abs(u))
    if d == 0:
        return a
    for i in range(1, d):
        if plugin.endswith("chebychev"):
            n = (2 * u * b[0] - a[0], 2 * abs(u) * b[1] + a[1])
        else:
            n = (((2 * i + 1) * u * b[0] - i * a[0]) / (i + 1), ((2 * i + 1) * abs(u) * b[1] + i * a[1]) / (i + 1))
        a, b = b, n
    return b


def ratio(f, x, deg, basis):
    """(values, relative uncertainty of the printed coefficients) of a rational function."""
    u = [2 * (a - l) / (h - l) - 1 for a, l, h in zip(x, f.lo, f.hi)]
    out = []
    for p, q in zip(f.p, f.q):
        s = []
        for cs in (p, q):
            v = m = 0.0
            for i, c in enumerate(cs):
                t, w = 1.0, 1.0
                for k, d in enumerate(deg[i]):
                    a, b = poly(basis, u[k], d)
                    t *= a
                    w *= b * (1 + d)
                v += c * t
                m += abs(c) * w
            s.append((v, m))
        (n, nm), (d, dm) = s
        e = 4e-6 * (nm / max(abs(n), 1e-300) + dm / max(abs(d), 1e-300))
        out.append((n / d if d else math.nan, e))
    return out


def shaders(c, t, r):
    S, want = driver.Script(), {}
    fs = []
    pool = [m for m in models.LOBES if m.name != "nonlinear_function_sgd"]
    # a sum in half cosines cannot hold parts that need more than that
    ok = lambda f: all(l.m.name != "nonlinear_function_sgd" and (f.pin in shapes.FULL or l.pin == f.pin) for l in f.leaves)
    def pick(**k):
        while True:
            f = shapes.random_fn(r, dy=r.choice([1, 3, 3]), **k)
            if ok(f):
                return f
    for _ in range(c.scale(2, 15)):
        fs += [pick(single=m, factor=False, nsum=1) for m in pool] + [pick(factor=m, nsum=1) for m in models.FACTORS]
        fs += [pick() for _ in range(25)]
        # several parts that share a plugin, with other options
        for m in (models.SG("half"), models.SG("retro"), models.RetroBeckmann(True), models.Lafortune(2)):
            fs.append(pick(nsum=r.choice([3, 4, 5])))
    for n, f in enumerate(fs):
        f.kd[:] = [six(v) for v in f.kd]
        for l in f.leaves:
            l.p = [six(v) for v in l.p]
        pts, xs = [], []
        low = [("below", [V[0], V[1], V[2] * s], [L[0], L[1], L[2] * t]) for (_, V, L), (s, t) in zip(dirs.pairs(r, 12)[-9:], [(-1, 1), (1, -1), (-1, -1)] * 3)]
        for k, V, L in dirs.pairs(r, 16) + low:
            try:
                x = dirs.coords(V, L, f.pin)
            except ZeroDivisionError:
                continue
            if k == "below" and (V[2] + L[2] < 1e-3 or any("smith" in t for t in f.toks)):
                continue                          # no half vector to speak of; the pole of 1 / (1 + Lambda)
            if x is not None and all(v is not None and math.isfinite(v) for v in x):
                pts.append((V, L))
                xs.append(x)
        how = r.choice(["shader", "explorer"])
        cmds = shapes.build_cmds("F", f) + ["args X alta --export " + how, "fvals F %d %s" % (len(xs), " ".join(map(driver.fv, xs))),
                                             "fsave F out X", "cat out"]
        S.case("s%d" % n, cmds)
        want["s%d" % n] = (f, pts, how)
    res, err = driver.run(t, S, c.tmp())
    for cid, (f, pts, how) in want.items():
        R = res[cid]
        if not c.judge_death(R):
            continue
        n = len(R.cmds)
        bad = [k for k in range(n) if not R.ok(k)]
        if bad:
            c.fail("shader:refused:%s:%s" % (R.cmds[bad[0]].split(" ")[0], tag(f)), answer=R.res[bad[0]], func=f.toks)
            continue
        T = R.toks(n - 3)
        T.int()
        vals = [v for _ in pts for v in T.vec()]
        src = driver.unq(R.toks(n - 1).s()).decode()
        if how == "explorer":
            m = re.match(r"\s*analytic\s*\n(.*)::begin shader\s*\n(.*)::end shader\s*$", src, re.S)
            if not m:
                c.fail("shader:explorer-frame", source=src[:300], func=f.toks)
                continue
            src = m.group(2)
        try:
            P = glsl.Program(src)
            Q = glsl.Program(src.replace("3.14159", repr(math.pi)))
        except glsl.Error as e:
            c.fail("shader:rejected:" + tag(f), error=str(e), source=src[:3000], func=f.toks)
            continue
        c.count("shaders_accepted")
        for j, (V, L) in enumerate(pts):
            y = vals[j * f.dy:(j + 1) * f.dy]
            def run(V, L, M=((1., 0., 0.), (0., 1., 0.), (0., 0., 1.)), P=P):
                o = P.call("BRDF", [turn(M, L), turn(M, V), tuple(M[2]), tuple(M[0]), tuple(M[1])])
                if o is None or len(o) != 3:
                    raise ValueError("no vec3")
                return list(o)
            try:
                if oracle.closed(f.value, V, L) is None:
                    continue
                b = oracle.band(r, run, V, L, e=1e-11)
                if b is None and all(map(math.isfinite, y)) and min(abs(V[2]), abs(L[2])) > 1e-3 and oracle.band(r, f.value, V, L, e=1e-6):
                    # no value at all where the function has one all around
                    if not any(oracle.closed(run, *oracle.jiggle(r, V, L, 1e-6)) for _ in range(8)):
                        c.fail("shader:undefined:" + tag(f), func=f.toks, V=V, L=L, function=y, params=[l.p for l in f.leaves], source=src[:3000])
                        break
                if b is None or not all(map(math.isfinite, y)):
                    c.count("undefined_points")
                    continue
                ys, tol = b
                sharp = run(V, L, P=Q)            # what six digits of pi cost here
                frames = [ys] + ([run(V, L, mat(r))] if j % 3 == 0 else [])
            except glsl.Error as e:
                c.fail("shader:runtime:" + tag(f), error=str(e), func=f.toks)
                break
            wrong = False
            terms = [f.value(V, L, s) for s in (f.tree[1] if f.tree[0] == "sum" else [f.tree])]
            for q, z in enumerate(frames):
                for i in range(3):
                    ref = y[i if f.dy == 3 else 0]
                    lim = 3e-5 * max(abs(ref), sum(abs(v[i if f.dy == 3 else 0]) for v in terms)) + 20 * tol[i] + 2e-7 + 3 * abs(sharp[i] - ys[i])
                    if not abs(z[i] - ref) <= lim:
                        if math.isnan(z[i]) and q:
                            continue              # rounding of the rotated frame at an undefined point
                        wrong = True
                        c.fail("shader:value:%s%s" % (tag(f), ":frame" if q else ""), func=f.toks, V=V, L=L, shader=z, function=y, params=[l.p for l in f.leaves], source=src[:3000])
                        break
            if wrong:
                break
            c.seen("shader", tag(f), f.dy, how, round(y[0], 6) if y[0] else None)
            c.count("shader_values_compared", 3 * len(frames))
    c.sample("%d shaders parsed, typed and evaluated" % c.stats.get("shaders_accepted", 0))


MAIN = """
int main()
{
    std::ifstream in("points.txt");
    int id, n;
    while(in >> id >> n) {
        vec x(n);
        for(int i=0; i<n; ++i) in >> x[i];
        vec y = table(id)(x);
        std::printf("%d", id);
        for(int i=0; i<y.size(); ++i) std::printf(" %.17g", y[i]);
        std::printf("\\n");
    }
}
"""


def rationals(c, t, r):
    S, want = driver.Script(), {}
    for n in range(c.scale(60, 500)):
        f = shapes.random_rat(r, ["rational_function", "rational_function_legendre", "rational_function_chebychev", "rational_function", "rational_function_cosine"][n % 5])
        f.p, f.q = [[six(v) for v in l] for l in f.p], [[six(v) for v in l] for l in f.q]
        f.lo, f.hi = [six(v) for v in f.lo], [six(v) for v in f.hi]
        if n % 7 == 3:
            f.hi[0] = f.lo[0]                     # a domain without extent is widened by the library
        pts = [[r.uniform(min(a, b), max(a, b, a + .5)) for a, b in zip(f.lo, f.hi)] for _ in range(8)]
        if f.plugin.endswith("cosine"):
            pts = [[abs(v) for v in dirs.coords(V, L, f.pin)] for _, V, L in dirs.pairs(r, 6)]
        np = max(len(f.p[0]), len(f.q[0]))
        cmds = shapes.build_cmds("F", f) + ["finfo F"]
        lang = r.choice(["C++", "c++", "cpp"]) if n % 2 else "C++"
        cmds += ["fvals F %d %s" % (len(pts), " ".join(map(driver.fv, pts))), "rdeg F 0 %d" % np,
                 "args X alta --export " + lang, "fsave F a.cpp X", "cat a.cpp", "args Y alta --export matlab", "fsave F b.m Y", "cat b.m"]
        S.case("r%d" % n, cmds)
        want["r%d" % n] = (f, pts)
    res, err = driver.run(t, S, c.tmp())
    work = c.tmp()
    units, todo = [], {}
    for n, (cid, (f, pts)) in enumerate(want.items()):
        R = res[cid]
        if not c.judge_death(R):
            continue
        N = len(R.cmds)
        bad = [k for k in range(N) if not R.ok(k)]
        if bad:
            c.fail("rational:refused:%s:%s" % (R.cmds[bad[0]].split(" ")[0], f.plugin), answer=R.res[bad[0]], func=f.toks)
            continue
        T = R.toks(N - 8)
        T.int()
        vals = [v for _ in pts for v in T.vec()]
        T = R.toks(N - 7)
        deg = []
        k = T.int()
        for _ in range(k):
            deg.append([int(v) for v in T.vec()])
        cpp, ml = (driver.unq(R.toks(N - i).s()).decode() for i in (4, 1))
        for i, (a, b) in enumerate(zip(f.lo, f.hi)):
            if a == b:
                w = .1 if f.plugin == "rational_function" else 1.0
                f.lo[i], f.hi[i] = a - w, b + w
        todo[n] = (f, pts, vals, deg, cpp, ml)

    def compare(lang, f, x, got, ref, deg, src):
        if f.plugin.endswith("cosine"):
            rel = [e for _, e in ratio(f, x, deg, "rational_function_cosine:monomials")]
        else:
            rel = [e for _, e in ratio(f, x, deg, f.plugin)]
        if len(got) != len(ref):
            c.fail("%s:channels:%s" % (lang, f.plugin), got=got, function=ref, source=src[:1500])
            return False
        for i in range(len(ref)):
            if not math.isfinite(ref[i]) or rel[i] > .05:
                c.count("ill_conditioned_points")
                continue
            if not abs(got[i] - ref[i]) <= (rel[i] + 1e-6) * abs(ref[i]) + 1e-12:
                if f.plugin.endswith("cosine"):
                    m = ratio(f, x, deg, "rational_function_cosine:monomials")[i]
                    if abs(got[i] - m[0]) <= (rel[i] + 1e-6) * abs(m[0]) + 1e-12:
                        c.fail("%s:cosine-basis-as-monomials" % lang, got=got, function=ref, source=src[:1500])
                        return True
                c.fail("%s:value:%s" % (lang, f.plugin), x=x, got=got, function=ref, allowed=rel, source=src[:2500], p=f.p, q=f.q)
                return False
            c.seen(lang, f.plugin, f.dx, f.dy, round(ref[i], 7))
        c.count(lang + "_points_compared")
        return True

    # Matlab
    for n, (f, pts, vals, deg, cpp, ml) in todo.items():
        for j, x in enumerate(pts):
            try:
                y = mlab.call(ml, x)
            except mlab.Error as e:
                c.fail("matlab:rejected:" + f.plugin, error=str(e), source=ml[:1500])
                break
            if not compare("matlab", f, x, y, vals[j * f.dy:(j + 1) * f.dy], deg, ml):
                break

    # C++, each file alone for the syntax, then together
    ids = sorted(todo)
    for n in ids:
        with open(os.path.join(work, "u%d.cpp" % n), "w") as fh:
            fh.write(todo[n][4])
    inc = "-I/usr/include/eigen3"
    alone = ids[:c.scale(8, 24)]
    outs = driver.pmap(lambda n: driver.sh(["sh", "-c", "g++ -std=c++11 -fsyntax-only %s u%d.cpp" % (inc, n)], work, None, 200), alone)
    for n, o in zip(alone, outs):
        if o[0] != 0:
            c.fail("c++:rejected:" + todo[n][0].plugin, error=(o[2] or o[1])[-600:], source=todo[n][4][:1500])
        else:
            c.count("c++_files_compiled_alone")
    chunks = [ids[i::8] for i in range(8) if ids[i::8]]

    def build_run(k):
        ch = chunks[k]
        d = os.path.join(work, "t%d" % k)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "m.cpp"), "w") as fh:
            fh.write("#include <Eigen/Core>\n#include <cmath>\n#include <cstdio>\n#include <fstream>\ntypedef Eigen::VectorXd vec;\n")
            for n in ch:
                fh.write("namespace n%d {\n#include \"../u%d.cpp\"\n}\n" % (n, n))
            fh.write("typedef vec (*fun)(const vec&);\nstatic fun table(int i)\n{\n")
            for n in ch:
                fh.write("  if(i == %d) return &n%d::brdf;\n" % (n, n))
            fh.write("  return 0;\n}\n" + MAIN)
        with open(os.path.join(d, "points.txt"), "w") as fh:
            for n in ch:
                for x in todo[n][1]:
                    fh.write("%d %d %s\n" % (n, len(x), " ".join("%.17g" % v for v in x)))
        o = driver.sh(["sh", "-c", "g++ -std=c++11 -O0 %s m.cpp -o m && ./m" % inc], d, None, 400)
        return o
    for ch, o in zip(chunks, driver.pmap(build_run, range(len(chunks)))):
        if o[0] != 0:
            names = sorted({"c++:rejected:" + todo[int(m)][0].plugin for m in re.findall(r"u(\d+)\.cpp:\d+", o[2] or "")} or {"c++:rejected:together"})
            for k in names:
                c.fail(k, error=(o[2] or o[1])[:800])
            continue
        got = {}
        for l in o[1].splitlines():
            w = l.split()
            got.setdefault(int(w[0]), []).append([float(v) for v in w[1:]])
        for n in ch:
            f, pts, vals, deg, cpp, ml = todo[n]
            for j, x in enumerate(pts):
                if not compare("c++", f, x, got[n][j], vals[j * f.dy:(j + 1) * f.dy], deg, cpp):
                    break


def main(c):
    t = build.ensure("asan", build.NL + build.RATIONALS, driver=True)
    r = c.rng
    shaders(c, t, r)
    rationals(c, t, r)


check.main("C17", main, "one (target language, kind of function, channel count, value) per comparison of exported code with the function it came from",
           ["GLSL is interpreted in double precision by a small type-checking evaluator written for this check, Matlab by a small interpreter; C++ is compiled by g++",
            "Shader exports are compared for one and three channels, the only counts a vec3 can hold"])
