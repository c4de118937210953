"""C25: command lines and file headers parse to the stated options."""
import os, string, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, driver
from gen import *

KEYC = string.ascii_letters + string.digits + "-_."


def f32(x):
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return float("inf") if x > 0 else float("-inf")


def key(r):
    k = r.random()
    if k < .3:
        return r.choice(["input", "output", "func", "min-np", "np", "bootstrap", "help", "h", "param", "in-data", "ymin", "Test_1", "x"])
    return r.choice(string.ascii_letters) + "".join(r.choice(KEYC) for _ in range(r.randrange(0, 12) if r.random() < .98 else r.randrange(30, 300)))


def number(r):
    """Text and value of a number."""
    k = r.random()
    if k < .35:
        v = r.choice([r.randrange(-100, 100), r.randrange(-2 ** 31, 2 ** 31), 0, 1])
        return str(v), float(v)
    if k < .45:
        s = r.choice(["-.5", ".25", "-0", "+3", "1.", "-1.e2", "1e-320", "-4e-310", "1e300", "007", "+.5e1"])
        return s, float(s)
    v = finite(r, 300)
    return (repr(v), v) if k < .8 else ("%.3e" % v, float("%.3e" % v))


def word(r):
    return r.choice([
        r.choice(["rational_function", "data.alta", "./dir/file.binary", "a=b", "x,y", "a[1]", "STARK_2D", "100%", "C:\\x", "3d", "é", "0x1F", "1-2", "/tmp/-x", "val]", "'q'", "#tag", "*"]),
        r.choice(string.ascii_letters + "/._=") + "".join(r.choice(string.ascii_letters + string.digits + "/._-=+:;#~@") for _ in range(r.randrange(0, 20) if r.random() < .97 else r.randrange(100, 700)))])


def spaced(r, items, tight=None):
    """One layout of a list, as command line tokens."""
    style = r.random() if tight is None else tight
    if style < .25:
        return ["[" + ",".join(items) + "]"]
    if style < .5:
        return ("[" + ", ".join(items) + "]").split(" ")
    if style < .65:
        return ["["] + (" , ".join(items)).split(" ") + ["]"]
    if style < .75:
        return ["[" + ", ".join(items) + "]"]                       # quoted as one argument
    parts = []
    for i, it in enumerate(items):
        parts += it.split(" ")
        parts[-1] += "," if i < len(items) - 1 and r.random() < .7 else ""
        if i < len(items) - 1 and not parts[-1].endswith(","):
            parts.append(",")
    if r.random() < .5:
        parts[0] = "[" + parts[0]
    else:
        parts.insert(0, "[")
    if r.random() < .5:
        parts[-1] += "]"
    else:
        parts.append("]")
    return parts


def element(r, deep=0):
    """An element of a list of functions: a name, maybe with options."""
    s = r.choice(["f%d.so" % r.randrange(9), "nonlinear_function_ward", "rational_function", "a_b-c.d"])
    for _ in range(r.choice([0, 0, 1, 2])):
        s += " --" + r.choice(["fixed", "bootstrap", "fresnel", "lobes"])
        k = r.random()
        if k < .35:
            s += " [" + r.choice([", ", ","]).join(number(r)[0] for _ in range(r.randrange(1, 4))) + "]"
        elif k < .6:
            s += " " + r.choice(["x.brdf", "nonlinear_fresnel_schlick", "2"])
    if deep < 2 and r.random() < .1:
        return "[" + r.choice([", ", ","]).join(element(r, deep + 1) for _ in range(r.randrange(1, 3))) + "]"
    return s


def squeeze(s):
    """A value, up to the spaces that separate its parts."""
    return " ".join(s.replace("[", " [ ").replace("]", " ] ").replace(",", " , ").split())


def option(r):
    """(kind, tokens of the value, what it means)."""
    k = r.random()
    if k < .2:
        return "flag", [], None
    if k < .4:
        s, v = number(r)
        return "number", [s], v
    if k < .6:
        s = word(r)
        return "word", [s], s
    if k < .75:
        ns = [number(r) for _ in range(r.choice([1, 1, 2, 3, 5, 12]) if r.random() < .96 else r.choice([40, 300]))]
        return "list", spaced(r, [n[0] for n in ns]), [n[1] for n in ns]
    if k < .8:
        return "list", r.choice([["[]"], ["[", "]"]]), []
    if k < .88:
        ns = [r.randrange(-2 ** 31, 2 ** 31) if r.random() < .3 else r.randrange(-9, 99) for _ in range(r.choice([1, 2, 3]))]
        return "ints", spaced(r, [str(n) for n in ns]), ns
    es = [element(r) for _ in range(r.choice([1, 2, 2, 3, 4]) if r.random() < .96 else r.choice([9, 20]))]
    return "strings", spaced(r, es), es


def reads(r, k, kind, toks, mean):
    """Commands that read an option and what they must say."""
    K = driver.q(k)
    text = " ".join(toks)
    out = [("def " + K, "int", 1), ("isvec " + K, "int", int(text[:1] == "[")), ("raw " + K, "text", text), ("str " + K, "text", text)]
    if kind == "number":
        out += [("float " + K, "f", f32(mean)), ("double " + K, "f", mean), ("float %s 5" % K, "f", f32(mean)), ("double %s 0x1p-3" % K, "f", mean)]
        if text.lstrip("+-").isdigit() and abs(mean) < 2 ** 31:
            out += [("int " + K, "int", int(mean)), ("int %s 77" % K, "int", int(mean))]
        n = r.choice([1, 2, 5])
        out.append(("vecf %s %d" % (K, n), "vec", [mean] * n))
    elif kind in ("list", "ints"):
        n = r.choice([1, 2, 3, 6, len(mean) or 1])
        d = r.choice([None, 2.5, -1.0])
        out.append(("vecf %s %d%s" % (K, n, "" if d is None else " " + d.hex()), "vec", [float(v) for v in (mean + [0.0 if d is None else d] * n)[:n]]))
        out.append(("vecd " + K, "vec", [float(v) for v in mean]))
        if kind == "ints":
            out.append(("veci " + K, "ivec", list(mean)))
        out.append(("vecs " + K, "nstr", len(mean)))
    elif kind == "strings":
        out.append(("vecs " + K, "strs", [" ".join(e.split()) for e in mean]))
    elif kind == "flag":
        out.append(("vecd " + K, "vec", []))
    return out


def absent(r, k):
    K = driver.q(k)
    d = r.uniform(-5, 5)
    return [("def " + K, "int", 0), ("isvec " + K, "int", 0), ("raw " + K, "text", ""), ("str " + K, "text", ""), ("str %s abc" % K, "text", "abc"),
            ("float " + K, "f", 0.0), ("float %s %s" % (K, f32(d).hex()), "f", f32(d)), ("double " + K, "f", 0.0), ("double %s %s" % (K, d.hex()), "f", d),
            ("int " + K, "int", 0), ("int %s -3" % K, "int", -3), ("vecf %s 3" % K, "vec", [0.0] * 3), ("vecf %s 2 0x1.4p+1" % K, "vec", [2.5] * 2),
            ("vecd " + K, "vec", []), ("veci " + K, "ivec", []), ("vecs " + K, "nstr", 0), ("pair " + K, "pair", (0, 0))]


def verify(c, R, base, name, wants, info, tag):
    """Compare the reads that start at command BASE."""
    for j, (cmd, how, want) in enumerate(wants):
        if not R.ok(base + j):
            c.fail("%s:%s:refused" % (tag, cmd.split()[0]), got=R.res.get(base + j), command=cmd, expected=want, **info)
            continue
        t = R.toks(base + j)
        if how == "int":
            got = t.int()
        elif how == "f":
            got = t.f()
        elif how == "text":
            got = t.s().decode("latin-1")
            got, want = (squeeze(got), squeeze(want)) if want[:1] == "[" else (got, want)
        elif how == "vec":
            got = t.vec()
        elif how == "ivec":
            got = [t.int() for _ in range(t.int())]
        elif how == "strs":
            got = [squeeze(t.s().decode("latin-1")) for _ in range(t.int())]
            want = [squeeze(q) for q in want]
        elif how == "nstr":
            got = t.int()
        elif how == "pair":
            got = (t.int(), t.int())
        c.count("options read")
        if got != want and not (got != got and want != want):
            c.fail("%s:%s" % (tag, cmd.split()[0]), got=got, expected=want, command=cmd, **info)


def lines(c, t):
    r = c.rng
    S, meta = driver.Script(), {}
    for i in range(c.scale(1500, 20000)):
        opts, toks = {}, []
        if r.random() < .4:
            toks.append(r.choice(["alta", "./data2brdf", "/usr/bin/x", "-v", "a", "-"]))
        for _ in range(r.choice([0, 1, 1, 2, 4, 8]) if r.random() < .97 else r.choice([20, 70])):
            k = key(r)
            if k in opts:
                continue
            o = option(r)
            opts[k] = o
            toks += ["--" + k] + o[1]
            if o[0] != "flag" and r.random() < .1:
                toks.append(r.choice(["stray", "-q", "x.alta"]))       # not an option: ignored
        missing = key(r)
        while missing in opts:
            missing = key(r)
        wants = []
        for k, o in opts.items():
            wants += reads(r, k, *o)
        wants += absent(r, missing)
        cid = "l%d" % i
        cmds = ["args A " + " ".join(driver.q(x.encode("utf-8").decode("latin-1")) for x in toks)]
        cmds += ["aget A " + w[0] for w in wants]
        cmds += ["argscmd A", "argsdump A"]
        meta[cid] = (opts, wants, toks)
        S.case(cid, cmds)
    res, err = driver.run(t, S, c.tmp(), env=driver.san_env(t))
    S2 = driver.Script()
    for cid, (opts, wants, toks) in meta.items():
        R = res[cid]
        if not c.judge_death(R, "line:"):
            continue
        c.seen("line", tuple(toks))
        c.count("command lines")
        fix = [(a, h, w.encode("utf-8").decode("latin-1") if h == "text" else w) for a, h, w in wants]
        verify(c, R, 1, cid, fix, dict(line=toks), "line")
        dump = R.toks(len(R.cmds) - 1).s().decode("latin-1")
        ks = sorted(l[1:l.index("] -> ")] for l in dump.split("\n") if "] -> " in l and l.startswith("["))
        ks = [k for k in ks if k]
        if ks != sorted(opts):
            c.fail("line:keys", got=ks, expected=sorted(opts), line=toks)
        cmd = R.toks(len(R.cmds) - 2).s().decode("latin-1")
        if cmd.count("\n"):
            c.fail("line:cmd-has-line-breaks", cmd=cmd, line=toks)
        S2.case(cid, ["argss B " + driver.q(cmd)] + [q.replace("aget A ", "aget B ", 1) for q in R.cmds[1:-2]] + ["argsdump B", "argscmd B"])
    res2, err2 = driver.run(t, S2, c.tmp(), env=driver.san_env(t))
    for e in err + err2:
        c.fail("driver", error=e)
    for cid, R in res2.items():
        opts, wants, toks = meta[cid]
        if not c.judge_death(R, "rebuilt:"):
            continue
        c.count("reconstructed command lines")
        fix = [(a, h, w.encode("utf-8").decode("latin-1") if h == "text" else w) for a, h, w in wants]
        verify(c, R, 1, cid, fix, dict(line=toks, script=R.cmds[:1]), "rebuilt")
        dump = R.toks(len(R.cmds) - 2).s().decode("latin-1")
        ks = [k for k in sorted(l[1:l.index("] -> ")] for l in dump.split("\n") if "] -> " in l and l.startswith("[")) if k]
        if ks != sorted(opts):
            c.fail("rebuilt:keys", got=ks, expected=sorted(opts), line=toks)


def headers(c, t):
    r = c.rng
    S, meta = driver.Script(), {}
    for i in range(c.scale(900, 10000)):
        opts, txt = {}, ""
        lead = r.random()
        if lead < .5:
            txt += "#ALTA HEADER BEGIN\n"
        eol = r.choice(["\n", "\n", "\n", "\r\n"])
        txt = txt.replace("\n", eol)
        for _ in range(r.choice([0, 1, 3, 6])):
            k = r.random()
            if k < .15:
                txt += r.choice(["# a comment", "#  --x 3", "# DIM 9 9", "#", "# ALTA HEADER END", "# BEGIN_STREAM"]) + eol
                continue
            if k < .35:
                a, b = r.randrange(-5, 1000), r.randrange(0, 1000)
                opts["DIM"] = ("pair", ["%d %d" % (a, b)], (a, b))
                sep = r.choice([" ", " ", "  ", "\t"])
                txt += "#DIM" + r.choice([" ", "  ", "\t"]) + "%d%s%d" % (a, sep, b) + eol
                continue
            q = "".join(r.choice(KEYC) for _ in range(r.randrange(1, 10)))
            if q in ("ALTA", "BEGIN_STREAM", "DIM", "TYPE"):
                continue
            o = option(r)
            if o[0] == "flag":
                txt += "#" + q + eol
            else:
                txt += "#" + q + r.choice([" ", " ", "  ", "\t", " \t "]) + " ".join(o[1]) + eol
            opts[q] = o                                              # a later line replaces an earlier one
        how = r.choice(["end", "end", "data", "stream", "eof", "blank"])
        rest = r.choice(["1 2 3" + eol, "#after 5" + eol + "1 2" + eol, "#FUNC x" + eol, "\x00\x01#\xff", "", "#ALTA HEADER END" + eol, "\n#DIM 7 7\n"])
        if how == "end":
            txt += r.choice(["#ALTA HEADER END", "#ALTA HEADER END", "#ALTA END HEADER"]) + eol
        elif how == "stream":
            txt += "#BEGIN_STREAM" + eol
        elif how == "data":
            rest = r.choice(["0.5", "-1", "x", " #DIM 8 8", "\t#x", eol]) + rest
        elif how == "blank":
            rest = eol + rest
        else:
            rest = ""
        missing = "missing" + str(i)
        wants = []
        for k, o in opts.items():
            if o[0] == "pair":
                K = driver.q(k)
                wants += [("def " + K, "int", 1), ("pair " + K, "pair", o[2])]
            else:
                wants += reads(r, k, *o)
        wants += absent(r, missing)
        cid = "h%d" % i
        enc = lambda s: s.encode("utf-8").decode("latin-1")
        meta[cid] = (opts, wants, txt, rest, how)
        S.case(cid, ["argsh A " + driver.q(enc(txt) + rest)] + ["aget A " + w[0] for w in wants] + ["argsdump A"])
    res, err = driver.run(t, S, c.tmp(), env=driver.san_env(t))
    for e in err:
        c.fail("driver", error=e)
    for cid, (opts, wants, txt, rest, how) in meta.items():
        R = res[cid]
        if not c.judge_death(R, "header:"):
            continue
        c.count("headers ended by: " + how)
        c.seen("header", txt, rest)
        info = dict(header=txt, rest=rest)
        left = R.toks(0).s().decode("latin-1")
        if left != rest:
            c.fail("header:stops-in-the-wrong-place:" + how, left=left, **info)
        fix = [(a, h, w.encode("utf-8").decode("latin-1") if h == "text" else w) for a, h, w in wants]
        verify(c, R, 1, cid, fix, info, "header")
        dump = R.toks(len(R.cmds) - 1).s().decode("latin-1")
        ks = sorted(l[1:l.index("] -> ")] for l in dump.split("\n") if "] -> " in l and l.startswith("["))
        ks = [k for k in ks if k not in ("TYPE", "BEGIN_STREAM")]
        if ks != sorted(opts):
            c.fail("header:keys", got=ks, expected=sorted(opts), **info)


def main(c):
    t = build.ensure("asan", [], driver=True)
    lines(c, t)
    headers(c, t)


check.main("C25", main, "One evaluation per distinct command line or header text.",
           ["a key is given once on a command line; keys and values have no line breaks, and no blanks outside brackets",
            "values are compared up to the blanks that separate the parts of a bracketed list"])
