"""C30: plugins are found by the search path, and never influence one another."""
import itertools, math, os, shutil, struct, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, dirs, driver, exr, models, shapes
from gen import *
from parts import *

FUNCS = ["nonlinear_function_beckmann", "nonlinear_function_blinn", "nonlinear_function_diffuse", "nonlinear_function_ward", "nonlinear_function_retroyoo",
         "nonlinear_fresnel_schlick", "nonlinear_shadowing_smith"]
TABLES = {"data_utia": "SPHERICAL_TL_PL_TV_PV", "data_brdf_slice": "STARK_2D", "data_grid": "COS_TH_TD"}


def search(c, t):
    """Random search paths over directories whose plugins differ."""
    r, w = c.rng, c.tmp()
    S, want = driver.Script(), {}
    base = os.path.join(w, "path")
    os.makedirs(base)

    def lib(n):
        return os.path.join(t.plugins, "lib%s.so" % n)
    names = ["verif", "my_plugin", "x", "plugin-2", "libown.so", "meso", "also", "a.b", "nonlinear_function_beckmann", "so"]
    for k in range(c.scale(500, 4000)):
        root = os.path.join(base, "p%d" % k)
        name = r.choice(names)
        fname = name if name.endswith(".so") else "lib%s.so" % name
        kind = r.choice(["function", "function", "function", "data", "fitter"])
        ident = list(FUNCS if kind == "function" else TABLES if kind == "data" else ["rational_fitter_eigen"])
        r.shuffle(ident)
        where = {}
        names_d = ["d%d" % i for i in range(r.randrange(1, 5))] + ["system"]
        for i, d in enumerate(names_d):
            p = os.path.join(root, d)
            os.makedirs(p)
            k2 = r.choice(["good", "good", "none", "other", "corrupt", "empty", "directory", "text"])
            f = os.path.join(p, fname)
            if k2 == "good":
                who = ident[i % len(ident)]
                os.symlink(lib(who), f) if r.random() < .5 else shutil.copy(lib(who), f)
                where[d] = who
            elif k2 == "other":                    # a library that has no such entry point
                shutil.copy(lib(r.choice(["nonlinear_fitter_eigen"] if kind != "fitter" else ["data_grid", "nonlinear_function_ward"])), f)
            elif k2 == "corrupt":
                # not the identification of a library any more (a truncated one kills the system's loader itself)
                b = bytearray(open(lib("nonlinear_function_ward"), "rb").read())
                b[r.choice([0, 1, 2, 3, 4, 5, 16, 18])] ^= 0xff
                open(f, "wb").write(b)
            elif k2 == "empty":
                open(f, "wb").close()
            elif k2 == "text":
                open(f, "w").write("INPUT(libc.so.6)\n")
            elif k2 == "directory":
                os.mkdir(f)
        cmds, exp = [], []
        if r.random() < .9:
            cmds.append("env VERIF_SYSTEM_PLUGINS %s" % driver.q(os.path.join(root, "system")))
            sysd = "system"
        else:
            cmds.append("env VERIF_SYSTEM_PLUGINS %s" % driver.q(os.path.join(root, "nowhere")))
            sysd = None
        for step in range(r.choice([1, 1, 2, 3])):
            ents = []
            for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
                ents.append(r.choice(["", "missing"] + [d for d in names_d if d != "system"] * 2))
            path = ":".join("" if e == "" else (os.path.join(root, e) + r.choice(["", "", "/"])) for e in ents)
            tried = [sysd if e == "" else e for e in ents] if path else [sysd]
            if path == "":
                tried = [sysd]
            found = next((where[e] for e in tried if e in where), None)
            cmds.append("env ALTA_PLUGIN_PATH %s" % driver.q(path))
            if kind == "function":
                cmds += ["args A x --func %s" % driver.q(name), "fget F A 6 1 CARTESIAN INV_STERADIAN"]
                cmds += ["fnb F", "fsave F o%d A" % step, "cat o%d" % step] if found else ["stat .", "stat .", "stat ."]
            elif kind == "data":
                cmds += ["args A x --grid-size [3,3] --param COS_TH_TD", "dget D %s 9 2 1 COS_TH_TD INV_STERADIAN A" % driver.q(name), "dinfo D" if found else "stat ."]
            else:
                cmds.append("hasfitter %s" % driver.q(name))
            exp.append((len(cmds), path, found))
        cid = "p%d" % k
        S.case(cid, cmds)
        want[cid] = (name, kind, exp, where)
    res, err = driver.run(t, S, w)
    for e in err:
        if "script: function F" not in str(e) and "script: data D" not in str(e):             # no function where one is expected: judged below
            c.fail("driver", error=e)
    for cid, (name, kind, exp, where) in want.items():
        R = res[cid]
        if not c.judge_death(R, "search:"):
            continue
        for end, path, found in exp:
            what = dict(name=name, kind=kind, path=path, holds=where, want=found, script=R.cmds)
            c.seen("search", cid, path, found)
            c.sample("%s %s along %s -> %s" % (kind, name, path.replace(os.path.dirname(path.split(":")[0] or "/"), "~") if path else "''", found))
            c.count("searches that %s" % ("find" if found else "fail"))
            if kind == "function":
                if not R.ok(end - 4):
                    c.fail("search:exception", got=R.res.get(end - 4), **what)
                    break
                s = R.res[end - 4][1]
                if s == "null":
                    got = None
                else:
                    text = driver.unq(R.res[end - 1][1]).decode() if R.ok(end - 1) else ""
                    got = next((l.split()[1] for l in text.split("\n") if l.startswith("#FUNC")), "?")
            elif kind == "data":
                s = R.res[end - 2][1] if R.ok(end - 2) else R.res[end - 2]
                if s == "null":
                    got = None
                else:
                    got = next((p for p, q in TABLES.items() if R.ok(end - 1) and " %s " % (q if p != "data_brdf_slice" else "COS_TH_TD") in R.res[end - 1][1]), "?")
                    if got != "?" and found in ("data_grid", "data_brdf_slice") and got in ("data_grid", "data_brdf_slice"):
                        got = "data_grid" if R.res[end - 1][1].split()[0] == "9" else "data_brdf_slice"
            else:
                got = "rational_fitter_eigen" if R.res[end - 1][1] == "1" else None
            if got != found and not (kind == "function" and got and found and SAME.get(found, found) == got):
                c.fail("search:%s" % ("not-found" if got is None else "found" if found is None else "wrong-one"), got=got, **what)
                break
        shutil.rmtree(os.path.join(base, cid), ignore_errors=True)


SAME = {"nonlinear_shadowing_smith": "nonlinear_fresnel_smith"}


def influence(c, t):
    r, w = c.rng, c.tmp()
    ps = []
    for _ in range(c.scale(1, 4)):
        sub = tempfile.mkdtemp(dir=w)
        ps.append(parts(c, t, sub))
    for ps in ps:
        # alone
        S = driver.Script()
        for i, p in enumerate(ps):
            S.case("a%d" % i, p.cmds, 120)
        res, err = driver.run(t, S, w)
        for e in err:
            c.fail("driver", error=e)
        alone = []
        for i, p in enumerate(ps):
            R = res["a%d" % i]
            alone.append(R if c.judge_death(R, "alone:%s:" % p.plugin) else None)
        S, orders = driver.Script(), {}
        n = c.scale(40, 200)
        pairs = [q for q in itertools.permutations(range(len(ps)), 2)]
        r.shuffle(pairs)
        jobs = [("all", r.sample(range(len(ps)), len(ps))) for _ in range(n)] + [("pair", list(q)) for q in pairs[:c.scale(600, len(pairs))]] + \
               [("some", r.sample(range(len(ps)), r.randrange(3, 9))) for _ in range(c.scale(120, 600))]
        for k, (kind, js) in enumerate(jobs):
            js = [j for j in js if alone[j]]
            left = {j: 0 for j in js}
            merge = []
            if r.random() < .5:                     # one after the other; else interleaved
                merge = [(j, i) for j in js for i in range(len(ps[j].cmds))]
            else:
                while left:
                    j = r.choice(list(left))
                    for _ in range(r.choice([1, 1, 2, 5])):
                        if j in left:
                            merge.append((j, left[j]))
                            left[j] += 1
                            if left[j] == len(ps[j].cmds):
                                del left[j]
            S.case("m%d" % k, [ps[j].cmds[i] for j, i in merge], 300)
            orders["m%d" % k] = (kind, js, merge)
        res, err = driver.run(t, S, w)
        for e in err:
            c.fail("driver", error=e)
        for cid, (kind, js, merge) in orders.items():
            R = res[cid]
            names = [ps[j].name for j in js]
            if not c.judge_death(R, "together:"):
                continue
            c.seen(kind, tuple(merge), id(ps))
            c.count("processes: %s" % kind)
            for k, (j, i) in enumerate(merge):
                c.count("observations compared")
                a, b = alone[j].res.get(i), R.res.get(k)
                if a != b:
                    c.fail("influence:%s" % ps[j].plugin, command=ps[j].cmds[i][:200], alone=str(a)[:600], together=str(b)[:600], order=names, part=ps[j].name, script=R.cmds if kind == "pair" else None)
                    break


def main(c):
    t = build.ensure("asan", build.NL + build.RATIONALS + build.DATAS + build.RFITTERS + build.NFITTERS, driver=True)
    search(c, t)
    influence(c, t)


check.main("C30", main,
           "One evaluation per distinct search (directories, path, name) and per distinct process (plugins, order of their commands). "
           "Every answer of every plugin among others is compared, bit for bit, with its answers in a process of its own.",
           ["the system's plugin directory is stood for by a scratch directory: nothing is installed in /usr"])
