"""C32: no answer depends on what the memory held before."""
import os, re, shutil, struct, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, dirs, driver, models, mutate, shapes
from gen import *
from parts import *
import cliworld

# (name, flavour, bytes that fill what is allocated, dirty the heap before every command)
MEMORIES = [("asan:be", "asan", 0xBE, None), ("asan:00", "asan", 0x00, None), ("asan:ff", "asan", 0xFF, None), ("asan:3f", "asan", 0x3F, None),
            ("plain:00", "plain", 0xFF, 0x40), ("plain:aa", "plain", 0x55, 0xC1)]


def env(t, m):
    e = driver.san_env(t, fill=m[2])
    if m[1] == "plain":
        e["MALLOC_PERTURB_"] = str(m[2])
    return e


def raw_parts(c, w):
    """Objects looked at before anything was said about them, and after as little as possible."""
    r = c.rng
    out = []

    def P(name, cmds):
        i = len(out)
        out.append(Part(name, name, [x.replace("@", "r%d_" % i) for x in cmds]))

    pts = []
    for k in range(3):
        V, L = dirs.sph(r.uniform(.1, 1.3), r.uniform(-3, 3)), dirs.sph(r.uniform(.1, 1.3), r.uniform(-3, 3))
        pts.append((V, L))
    for m in models.LOBES + models.FACTORS:
        pin = m.pin if m.pin != "given" else "CARTESIAN"
        dy = r.choice([1, 2, 3])
        xs = [x for x in (dirs.coords(V, L, pin) for V, L in pts) if x]
        look = ["fnb @F", "fpar @F", "fpmin @F", "fpmax @F", "fvals @F %d %s" % (len(xs), " ".join(map(driver.fv, xs))), "fjac @F " + driver.fv(xs[0])]
        save = []
        for e in ("alta", "matlab", "C++", "shader"):
            save += ["args @X alta --func %s %s --export %s" % (m.name, " ".join(m.opts), driver.q(e)), "fsave @F @o A".replace(" A", " @X"), "cat @o"]
        opts = " ".join(m.opts)
        new = ["args @A alta --func %s %s" % (m.name, opts), "fget @F @A %d %d %s INV_STERADIAN" % (NAMED[pin], dy, pin), "finfo @F"]
        rows = [[.1] * NAMED[pin] + [.5 + .1 * q for q in range(dy)] for _ in range(3)]
        data = ["dnew @D 0 %d %d %s INV_STERADIAN 3 %s" % (NAMED[pin], dy, pin, driver.fv([v for q in rows for v in q]))]
        P("new " + m.name, new + look + save)
        P("boot " + m.name, new + data + ["fboot @F @D @A"] + look + save)
        if not m.name.endswith(("_diffuse", "_lafortune")):          # these take their diffuse part from the data
            P("bootnodata " + m.name, new + ["fboot @F - @A"] + look)
        P("distance " + m.name, new + data + ["fl2 @F @D"])
        if not m.name.startswith("nonlinear_function"):
            P("product " + m.name, ["args @A alta --func nonlinear_function_beckmann --fresnel %s %s" % (m.name, opts), "fget @F @A 6 %d CARTESIAN INV_STERADIAN" % dy, "finfo @F"] + look[:4]
              + ["fvals @F 1 " + driver.fv(pts[0][0] + pts[0][1])])
    for p in build.RATIONALS:
        for dy in (1, 3):
            pin = "RUSIN_TH_TD_PD"
            new = ["args @A alta --func " + p, "fget @F @A 3 %d %s INV_STERADIAN" % (dy, pin), "finfo @F"]
            P("new " + p, new + ["fval @F 3 0x1p-1 0x1p-2 0x1p-3", "fsave @F @o @A", "cat @o"])
            P("sized " + p, new + ["rsize @F 4 3", "fval @F 3 0x1p-1 0x1p-2 0x1p-3", "fsave @F @o @A", "cat @o"])
            P("domain " + p, new + ["fdomain @F 3 0 0 0 3 0x1p+0 0x1p+0 0x1p+0", "rsize @F 3 3", "fval @F 3 0x1p-1 0x1p-2 0x1p-3", "fsave @F @o @A", "cat @o"])
    for plug, size, pin, pout, dy, a in (
            ("data_grid", 12, "COS_TH_TD", "RGB_COLOR", 3, "--grid-size [4,3]"), ("data_grid", 8, "STARK_3D", "INV_STERADIAN", 1, "--grid-size [2,2,2]"),
            ("data_utia", 0, "SPHERICAL_TL_PL_TV_PV", "RGB_COLOR", 3, ""), ("data_merl", 0, "RUSIN_TH_TD_PD", "RGB_COLOR", 3, ""),
            ("data_brdf_slice", 0, "STARK_2D", "RGB_COLOR", 3, ""), ("data_rbf", 5, "COS_TH", "INV_STERADIAN", 1, ""), ("data_astm", 6, "SPHERICAL_TL_PL_TV_PV", "RGB_COLOR", 3, ""), ("", 5, "CARTESIAN", "RGB_COLOR", 3, "")):
        d = NAMED[pin]
        row = [.3] * d + [.5] * dy
        new = ["args @A x " + a, "dget @D %s %d %d %d %s %s @A" % (plug or "%01", size, d, dy, pin, pout), "dinfo @D"]
        some = ["drow @D %d" % i for i in (0, 1, 3, 4)]
        P("data " + plug, new + some + ["dval @D " + driver.fv(row[:d])] + (["dsave @D @o", "cat @o"] if plug not in ("data_utia", "data_merl", "data_brdf_slice") else []))
        P("set " + plug, new + ["dset @D 1 " + driver.fv(row)] + some + ["dinfo @D", "dval @D " + driver.fv(row[:d])])
    P("empty vertical segments", ["dnewsz @D 2 2 COS_TH_TD INV_STERADIAN 4", "dinfo @D", "dvsinfo @D", "drows @D", "dvsmat @D"])
    P("vertical segments set", ["dnewsz @D 2 2 COS_TH_TD INV_STERADIAN 4", "dset @D 2 4 0x1p-1 0x1p-1 0x1p+0 0x1p+1", "dinfo @D", "dvsinfo @D", "drows @D", "dvsmat @D", "dsave @D @o", "cat @o"])
    for kind, k in ((0, 2), (1, 3), (2, 4)):
        P("rows of kind %d" % kind, ["dnew @D %d 1 1 COS_TH INV_STERADIAN 3 %s" % (kind, driver.fv([.1 * q for q in range(3 * k)])), "dvsinfo @D", "dvsmat @D", "drows @D", "dvsrow @D 1", "dmid @D", "dsave @D @o", "cat @o", "dsaveb @D @b", "cat @b", "dset @D 1 2 0x1p-1 0x1p+0", "dvsmat @D"])
    ins = [p for p in NAMED if p != "UNKNOWN_INPUT"]
    for _ in range(c.scale(60, 400)):
        p, q = r.choice(ins), r.choice(ins)
        x = dirs.coords(*r.choice(pts), p)
        if x:
            P("conversion", ["pconv %s %s %s" % (p, q, driver.fv(x)), "pconva %s %s %s" % (p, q, driver.fv(x))])
    # every vector of the caller that a conversion fails to fill keeps what the caller put in it: the driver's own constant
    files = {"empty": "", "header": "#DIM 2 1\n#PARAM_IN COS_TH_TD\n#PARAM_OUT INV_STERADIAN\n", "short": "#DIM 2 1\n#PARAM_IN COS_TH_TD\n0.1 0.2 0.3\n0.1\n",
             "bounds": "#DIM 1 1\n#VS 1\n#PARAM_IN COS_TH\n0.1 0.5 0.1\n0.2 0.5\n", "bounds2": "#DIM 1 1\n#VS 2\n#PARAM_IN COS_TH\n0.1 0.5 0.4 0.6\n0.2 0.5 0.4\n", "noparam": "#DIM 2 2\n1 2 3 4\n5 6 7 8\n",
             "mixed": "#DIM 1 2\n#VS 1 2\n#PARAM_IN COS_TH\n0.1 1 2 0.1 1 3\n0.5 1 2 .2 0 4\n"}
    for n, s in files.items():
        for a in ("", "--dt 0.1", "--dt-relative --dt 0.2", "--min [0,0] --max [1,1]", "--ymin [0] --ymax [10]", "--correct-cosine", "--data-positive"):
            P("table " + n, ["args @A x " + a, "dloads @D %s %s @A" % (driver.q(""), driver.q(s)), "dinfo @D", "dvsinfo @D", "drows @D", "dvsmat @D"])
    n = 20
    xs = [[q / (n - 1.0)] for q in range(n)]
    v = driver.fv([z for x in xs for z in (x[0], 1 / (1 + x[0]), 1 / (1 + x[0]) - .05, 1 / (1 + x[0]) + .05)])
    for ft in build.RFITTERS:
        for a in ("", "--np 3 --nq 2", "--min-np 2 --np 4 --min-nq 1 --nq 4", "--np 2 --nq 2 --nb-cores 1"):
            if ft == "rational_fitter_parallel" and "nb-cores" not in a:
                continue
            P("fit " + ft, ["args @A x " + a, "dnew @D 2 1 1 COS_TH INV_STERADIAN %d %s" % (n, v), "args @B x", "fget @F @B 1 1 COS_TH INV_STERADIAN", "fit %s @D @F @A" % ft, "finfo @F", "fvals @F %d %s" % (n, " ".join(map(driver.fv, xs)))])
    # no function satisfies these intervals: what is left behind by the fit that fails
    for what, rows in (("no width", [[q / 19.0, .75, .75, .75] for q in range(20)]), ("jumps", [[q / 19.0, q % 2, q % 2 - 1e-3, q % 2 + 1e-3] for q in range(20)]),
                       ("two values", [[q // 2 / 9.0, q % 2 + 1, q % 2 + .9, q % 2 + 1.1] for q in range(20)]), ("one row", [[.5, 1, .9, 1.1]])):
        for ft in build.RFITTERS:
            for fn in ("",) + tuple(build.RATIONALS):
                a = "--min-np 1 --np 3 --min-nq 1 --nq 2 --nb-cores 1"
                P("failed fit " + ft, ["args @A x " + a, "dnew @D 2 1 1 COS_TH INV_STERADIAN %d %s" % (len(rows), driver.fv([z for x in rows for z in x])), "args @B x" + (" --func " + fn if fn else ""),
                                       "fget @F @B 1 1 COS_TH INV_STERADIAN", "fit %s @D @F @A" % ft, "finfo @F", "fvals @F 4 " + " ".join(driver.fv([.1 + .3 * q]) for q in range(3)) + " " + driver.fv([1.0]), "args @X alta", "fsave @F @o @X", "cat @o"])
    crow = []
    for _ in range(20):
        V, L = dirs.sph(r.uniform(.1, 1.3), r.uniform(-3, 3)), dirs.sph(r.uniform(.1, 1.3), r.uniform(-3, 3))
        h = dirs.unit([a + b for a, b in zip(V, L)])
        crow.append(V + L + [.2 + .7 * h[2] ** 12])
    for ft in build.NFITTERS:
        for m in models.LOBES + models.FACTORS:
            for a in ("", "--cos-fit") if ft != "nonlinear_fitter_nlopt" else ("", "--nlopt-max-num-iterations 50"):
                P("fit " + ft + " " + m.name, ["args @A x --func %s %s %s" % (m.name, " ".join(m.opts), a), "dnew @D 0 6 1 CARTESIAN INV_STERADIAN 20 %s" % driver.fv([z for q in crow for z in q]),
                                               "fget @F @A 6 1 CARTESIAN INV_STERADIAN", "fit %s @D @F @A" % ft, "fpar @F", "fl2 @F @D"])
    return out


NOISE = re.compile(r"0x[0-9a-f]{6,}|\(?\d+(\.\d+)?(e-?\d+)? *(s|ms|sec|seconds)\b\)?|^.*(time|Time|elapsed|timer).*$", re.M)


def library(c, trees):
    r, w = c.rng, c.tmp()
    ps = []
    for _ in range(c.scale(1, 6)):
        ps += raw_parts(c, w)
        ps += parts(c, trees["asan"], tempfile.mkdtemp(dir=w))
    answers = []
    for m in MEMORIES:
        t = trees[m[1]]
        S = driver.Script()
        for i, p in enumerate(ps):
            cmds = p.cmds
            if m[3] is not None:
                cmds = [x for q in p.cmds for x in ("dirty %d" % m[3], q)]
            S.case("c%d" % i, cmds, 120)
        res, err = driver.run(t, S, w, env=env(t, m))
        for e in err:
            if ": script:" not in e:
                c.fail("driver", error=e)
        answers.append(res)
    for i, p in enumerate(ps):
        rs = [a["c%d" % i] for a in answers]
        if not c.judge_death(rs[0], "library:"):
            continue
        step = [1 if m[3] is None else 2 for m in MEMORIES]
        c.seen(tuple(p.cmds))
        c.count("sequences of calls: " + p.name.split(" ")[0])
        for k, cmd in enumerate(p.cmds):
            got = [R.res.get(k * s + s - 1) for R, s in zip(rs, step)]
            c.count("answers compared")
            if any(g != got[0] for g in got):
                c.fail("depends:%s:%s" % (p.name, cmd.split(" ")[0]), command=cmd[:300], answers={m[0]: str(g)[:700] for m, g in zip(MEMORIES, got)}, script=[x[:300] for x in p.cmds])
                break


def tools(c, trees):
    r = c.rng
    w, F, jobs = cliworld.world(c, trees["asan"])
    work = os.path.join(c.tmp(), "tools")
    os.makedirs(work)
    runs = []
    for j in jobs:
        runs.append((j, j.opts, None))
        for _ in range(c.scale(2, 12) if not j.heavy else 1):
            k = r.choice(list(j.files))
            if j.files[k] not in F:
                continue
            b = open(os.path.join(w, j.files[k]), "rb").read()
            x = mutate.text(r, b) if F[j.files[k]] in ("text", "func") and r.random() < .8 else b[:r.randrange(len(b))]
            runs.append((j, j.opts, (j.files[k], x)))
    todo = [(i, m) for i in range(len(runs)) for m in MEMORIES]

    def one(a):
        i, m = a
        j, o, bad = runs[i]
        d = tempfile.mkdtemp(dir=work)
        for f in os.listdir(w):
            os.symlink(os.path.join(w, f), os.path.join(d, f))
        if bad:
            os.unlink(os.path.join(d, bad[0]))
            open(os.path.join(d, bad[0]), "wb").write(bad[1])
        t = trees[m[1]]
        rc, so, se = driver.sh([t.soft(j.tool)] + j.argv(o), d, env(t, m), timeout=120)
        files = {}
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if not os.path.islink(p) and not (bad and f == bad[0]):
                files[f] = open(p, "rb").read()
        shutil.rmtree(d, ignore_errors=True)
        return rc, NOISE.sub("", so), files, se
    got = driver.pmap(one, todo, 8)
    for i in range(len(runs)):
        rs = got[i * len(MEMORIES):(i + 1) * len(MEMORIES)]
        j, o, bad = runs[i]
        if any(x[0] is None for x in rs):
            c.unsure("tool out of time")
            continue
        c.seen("tool", j.name, bad[1] if bad else None)
        c.count("runs of tools with %s" % ("damaged input" if bad else "sound input"))
        for what, f in (("status", lambda x: x[0]), ("file", lambda x: x[2]), ("terminal", lambda x: x[1])):
            if any(f(x) != f(rs[0]) for x in rs):
                c.fail("tool:%s:%s" % (what, j.name), argv=j.argv(o), damaged=(bad[0], bad[1][:800].decode("latin-1")) if bad else None, answers={m[0]: str(f(x))[:1200] for m, x in zip(MEMORIES, rs)}, err=rs[0][3][-600:])
                break


def main(c):
    tg = build.NL + build.RATIONALS + build.DATAS + build.RFITTERS + build.NFITTERS
    trees = {"asan": build.ensure("asan", tg + build.SOFTS, driver=True), "plain": build.ensure("plain", tg + build.SOFTS, driver=True)}
    library(c, trees)
    tools(c, trees)


check.main("C32", main,
           "One evaluation per distinct sequence of library calls and per distinct use of a tool; each runs under six memories (allocated blocks filled with four patterns under "
           "AddressSanitizer with patterned stack variables, and two builds with zeroed stack variables, perturbed allocations and a dirty heap) and every answer is compared bit for bit.",
           ["memory contents that change nothing under the six fills used are not observed"])
