"""C34: the first guess of a function is the one that was asked for."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, dirs, driver, models, shapes
from gen import *

VECTOR = ("nonlinear_function_beckmann",)         # reads a vector of its own when it is a part


def split(toks):
    """Tokens of every part of an expression."""
    if toks[1] != "[":
        return [toks[1:]]
    parts = [[]]
    for x in toks[2:-1]:
        end = x.endswith(",")
        parts[-1].append(x[:-1] if end else x)
        if end:
            parts.append([])
    return parts


def join(parts):
    if len(parts) == 1:
        return ["--func"] + parts[0]
    out = []
    for i, p in enumerate(parts):
        out += p[:-1] + [p[-1] + ("," if i < len(parts) - 1 else "")]
    return ["--func", "["] + out + ["]"]


def subs(F, f):
    """Commands that give every leaf a name, and these names."""
    cmds, names, seen = [], [], {(): F}
    for l in f.leaves:
        for j in range(len(l.path)):
            k = l.path[:j + 1]
            if k not in seen:
                seen[k] = F + "_" + "_".join(map(str, k))
                cmds.append("fsub %s %s %d" % (seen[k], seen[k[:-1]], k[-1]))
        names.append(seen[l.path])
    return cmds, names


def vec_toks(p):
    return ("[" + ", ".join(repr(v) for v in p) + "]").split()


def data(r, name, dx, dy, pin, pout):
    rows = []
    n = r.choice([1, 2, 5, 9])
    while len(rows) < n:
        _, V, L = r.choice(dirs.pairs(r, 12))
        try:
            x = dirs.coords(V, L, pin)
        except ZeroDivisionError:
            continue
        if x is not None and all(v is not None and math.isfinite(v) for v in x):
            rows.append(list(x) + [r.uniform(0, 2) for _ in range(dy)])
    return rows, "dnew %s 0 %d %d %s %s %d %s" % (name, dx, dy, pin, pout, len(rows), driver.fv([v for q in rows for v in q]))


def main(c):
    t = build.ensure("asan", build.NL, driver=True)
    r = c.rng
    S, want = driver.Script(), {}
    n = c.scale(300, 3000)
    todo = ["vector", "parts", "file", "partial", "local", "both"] * n
    for k, kind in enumerate(todo):
        f = None
        while f is None:
            f = shapes.random_fn(r, nsum=r.choice([1, 1, 1, 2, 3]) if kind in ("vector", "file") else r.choice([2, 3, 4]))
            if f.tree[0] == "leaf" and f.tree[1].m.name not in VECTOR + ("nonlinear_function_sgd",):
                f = None                          # alone, most plugins have a first guess of their own
            elif kind in ("vector", "file") and k % 4 == 0 and f.tree[0] != "leaf":
                f = None                          # alone
            elif kind in ("local", "both") and not any(l.m.name in VECTOR and len(l.path) == 1 for l in f.leaves):
                f = None
        parts = split(f.toks)
        assert len(parts) == len(f.parts())
        dx, given = f.given
        cmds, expect, opts = [], {}, []
        own = [list(p) for p in parts]            # part options, first guesses included
        j = 0
        for i, ls in enumerate(f.parts()):
            for l in ls:
                l.part = i
        if kind in ("local", "both"):
            for l in f.leaves:
                if l.m.name in VECTOR and len(l.path) == 1 and (r.random() < .8 or not any("--bootstrap" in p for p in own)):
                    if r.random() < .3:           # a file for this part only
                        name = "p%d_%d.brdf" % (k, j)
                        cmds += ["args Q alta --func %s" % l.m.name, "fget Q Q %d %d %s %s" % (dx, f.dy, given, f.pout), "fsetp Q %s" % driver.fv(l.p),
                                 "fsave Q %s Q" % name]
                        own[l.part] += ["--bootstrap", name]
                    else:
                        own[l.part] += ["--bootstrap"] + vec_toks(l.p)
                    if kind == "local" or not l.free:
                        expect[j] = l.p
                j += 1
        toks = join(own)
        if kind in ("vector", "both"):
            p = [l.p if kind == "vector" else l.m.rand(r, f.dy) if not l.m.name.endswith("lafortune") else l.p for l in f.leaves]
            opts = ["--bootstrap"] + vec_toks([v for l, q in zip(f.leaves, p) if l.free for v in q])
            for j, (l, q) in enumerate(zip(f.leaves, p)):
                if l.free:
                    expect[j] = q
        rows, dn = data(r, "X", dx, f.dy, given, f.pout)
        cmds.append(dn)
        if kind in ("file", "partial"):
            keep = list(range(len(parts)))
            if kind == "partial":
                keep = sorted(r.sample(keep, r.randrange(1, len(keep))))
            cmds += ["args A0 alta %s" % " ".join(map(driver.q, join([parts[i] for i in keep]))),
                     "fget S A0 %d %d %s %s" % (dx, f.dy, given, f.pout), "fboot S X A0"]
            # the parameters of the parts that are kept, one after the other
            src = [l for l in f.leaves if l.part in keep]
            seen = {(): "S"}
            for l in src:
                path = l.path if len(parts) == 1 else ((keep.index(l.part),) if len(keep) > 1 else ()) + l.path[1:]
                for d in range(len(path)):
                    if path[:d + 1] not in seen:
                        seen[path[:d + 1]] = "S_" + "_".join(map(str, path[:d + 1]))
                        cmds.append("fsub %s %s %d" % (seen[path[:d + 1]], seen[path[:d]], path[d]))
                if l.p:
                    cmds.append("fsetp %s %s" % (seen[path], driver.fv(l.p)))
            name = "s%d.brdf" % k
            cmds += ["fsave S %s A0" % name]
            opts = ["--bootstrap", name]
            q = 0
            for j, l in enumerate(f.leaves):
                if q < len(src) and src[q].m.name == l.m.name:
                    expect[j] = src[q].p
                    q += 1
        pos = r.random() < .5
        toks = toks + opts if pos else toks[:0] + opts + toks
        cmds += ["args A alta %s" % " ".join(map(driver.q, toks)), "fget F A %d %d %s %s" % (dx, f.dy, given, f.pout)]
        sc, names = subs("F", f)
        cmds += sc
        if r.random() < .5:                       # what it was before does not matter
            cmds += ["args A1 alta %s" % " ".join(map(driver.q, join(parts))), "fboot F X A1"]
            cmds += ["fsetp %s %s" % (v, driver.fv(l.p)) for v, l in zip(names, f.leaves) if l.p]
        cmds += ["fboot F X A"]
        at = len(cmds)
        cmds += ["fpar %s" % v for v in names]
        # what a part has when it is on its own
        alone = len(cmds)
        for i, ls in enumerate(f.parts()):
            single = join([parts[i]])
            cmds += ["args P%d alta %s" % (i, " ".join(map(driver.q, single))), "fget P%d P%d %d %d %s %s" % (i, i, dx, f.dy, given, f.pout), "fboot P%d X P%d" % (i, i)]
            for l in ls:
                path = l.path if len(parts) == 1 else l.path[1:]
                cmds += ["fsub P%d_%d P%d %d" % (i, path[0], i, path[0])] if path else []
                cmds += ["fpar P%d%s" % (i, "_%d" % path[0] if path else "")]
        cmds += ["drows X", "fpar F"]
        cid = "%s%d" % (kind, k)
        S.case(cid, cmds)
        want[cid] = (kind, f, rows, toks, at, alone, expect, parts)
    res, err = driver.run(t, S, c.tmp())
    for e in err:
        c.fail("driver", error=e)
    for cid, (kind, f, rows, toks, at, alone, expect, parts) in want.items():
        R = res[cid]
        g = "%s:%s" % (kind, "sum" if f.tree[0] == "sum" else "product" if f.tree[0] == "mul" else "one")
        if not c.judge_death(R, g + ":"):
            continue
        what = dict(case=cid, args=toks, parts=f.names(), dimY=f.dy, script=R.cmds)
        bad = [j for j in range(len(R.cmds)) if not R.ok(j)]
        if bad:
            c.fail("exception:%s:%s" % (g, R.cmds[bad[0]].split()[0]), got=R.res[bad[0]], log=R.log()[-600:], **what)
            continue
        T = R.toks(len(R.cmds) - 2)
        m = T.int()
        after = [T.vec() for _ in range(m)]
        if m != len(rows) or not all(sames(a, b) for a, b in zip(after, rows)):
            c.fail("data-changed:" + g, got=after, want=rows, **what)
        ref = {}
        j = alone
        for i, ls in enumerate(f.parts()):
            j += 3
            for l in ls:
                if (l.path if len(parts) == 1 else l.path[1:]):
                    j += 1
                ref[id(l)] = R.toks(j).vec()
                j += 1
        c.seen(g, f.names(), tuple(toks))
        free = []
        for j, l in enumerate(f.leaves):
            got = R.toks(at + j).vec()
            if l.free:
                free += got
            if j in expect:
                c.count("parts that get what was asked: " + g)
                tol = 1e-15 if kind == "vector" else 1e-9      # files have ten digits
                if len(got) != len(expect[j]) or any(not abs(a - b) <= tol * abs(b) for a, b in zip(got, expect[j])):
                    c.fail("asked:%s:%s" % (g, l.m.name), part=j, got=got, want=expect[j], **what)
                    break
            else:
                if l.m.name == "nonlinear_function_sgd":
                    c.count("parts without a first guess")
                    continue
                c.count("parts that get their own first guess: " + g)
                if not sames(got, ref[id(l)]):
                    c.fail("own:%s:%s" % (g, l.m.name), part=j, got=got, want=ref[id(l)], **what)
                    break
        else:
            p = R.toks(len(R.cmds) - 1).vec()
            if not sames(p, free):
                c.fail("parameters:" + g, got=p, want=free, **what)
    k = next(iter(want))
    c.sample(dict(case=k, args=want[k][3]))


check.main("C34", main,
           "One evaluation per expression and command line: the parameters of every part after the first guess, against those asked for (vector, "
           "file, options of the part) or those the part starts from when it is on its own.",
           ["what a plugin starts from when nothing is asked is its own choice", "parts without a first guess (SGD) are judged only where they are given one"])
