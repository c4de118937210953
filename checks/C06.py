"""C06: malformed input files are handled without memory errors or hangs."""
import os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, driver, exr, mutate, shapes
from gen import *


def main(c):
    t = build.ensure("asan", build.NL + build.RATIONALS + build.DATAS, driver=True)
    r = c.rng
    W = c.tmp()
    # --- seeds: functions and data as the library itself writes them
    S0 = driver.Script()
    fs = shapes.functions(r, c.scale(60, 200))
    for i, f in enumerate(fs):
        S0.case("f%d" % i, shapes.build_cmds("F", f) + ["fsave F f.alta A", "cat f.alta"])
    dd = []
    for i in range(30):
        dx, dy, p, o = shape(r)
        kind, n = r.choice([NCI, SYM, ASYM]), r.choice([0, 1, 3, 10])
        rows = [row(r, dx, dy, kind, lambda q: finite(q, 8)) for _ in range(n)]
        dd.append((dx, dy, kind, n))
        S0.case("d%d" % i, ["dnew X %d %d %d %s %s %d %s" % (kind, dx, dy, p, o, n, driver.fv([v for l in rows for v in l])),
                            "dsavet X x.txt", "dsaveb X x.bin", "cat x.txt", "cat x.bin"])
    res, err = driver.run(t, S0, W)
    for e in err:
        c.fail("driver", error=e)
    funcs, txts, bins = [], [], []
    for cid, R in res.items():
        if cid[0] == "f" and R.done and R.ok(len(R.cmds) - 1):
            b = R.toks(len(R.cmds) - 1).s()
            if b.startswith(b"#ALTA"):
                funcs.append((b, fs[int(cid[1:])].dx))
        elif cid[0] == "d" and R.done:
            txts.append(R.toks(3).s())
            bins.append((R.toks(4).s(), dd[int(cid[1:])]))
    c.count("seed functions", len(funcs))
    c.count("seed data files", len(txts) + len(bins))
    if len(funcs) < 20:
        c.fail("seeds", functions=len(funcs))
        return
    S = driver.Script()
    must_fail, kinds = {}, {}
    use = ["dinfo D", "dtouch D", "dsavet D again.txt", "dsaveb D again.bin"]

    def data(tag, typ, b, ext="dat", args=(), refuse=False, more=()):
        cid = "%s%d" % (tag, len(kinds))
        f = os.path.join(W, "%s.%s" % (cid, ext))
        open(f, "wb").write(b)
        cmds = (["args A x " + " ".join(map(driver.q, args))] if args else []) + ["dload D %s %s %s" % (typ, driver.q(f), "A" if args else "-")]
        ld = len(cmds) - 1
        # a loaded object is used; a refused one leaves nothing to use
        S.case(cid, cmds + [x for x in use if typ == "vertical_segment" or not x.startswith("dsave")] + list(more), 40)
        kinds[cid] = (tag, ld, b)
        if refuse:
            must_fail[cid] = tag
        return cid

    n = c.scale(1, 8)
    opts = [(), (), (), ("--dt", "0.1"), ("--min", "[0, 0, 0]", "--max", "[1]"), ("--dt-relative",), ("--ymin", "[]"), ("--max", "3"), ("--dt", "x")]
    for _ in range(900 * n):
        data("text", "vertical_segment", mutate.text(r, r.choice(txts)), args=r.choice(opts))
    for _ in range(500 * n):
        b, (dx, dy, kind, m) = r.choice(bins)
        if r.random() < .5:
            i = b.find(b"#BEGIN_STREAM")
            data("binary", "vertical_segment", mutate.text(r, b[:i + 14]) + b[i + 14:])
        else:
            data("binary", "vertical_segment", mutate.binary(r, b))
    for _ in range(150 * n):
        b, (dx, dy, kind, m) = r.choice(bins)
        i = b.find(b"#BEGIN_STREAM\n") + 14
        need = m * width(dx, dy, kind) * 8
        if need:
            data("binary-short", "vertical_segment", b[:i + r.choice([0, need - 1, need - 8, r.randrange(need)])], refuse=True)
    for b in (b"", b"\0" * 64, b"\n" * 50, b"#" * 99, b"#DIM", b"#DIM 1 1", b"#DIM 3 2\n1 2", b"#FORMAT binary", b"#DIM 1 1\n#FORMAT binary\n#BEGIN_STREAM",
              b"#DIM 1 1\n#FORMAT binary\n#SAMPLE_COUNT 999999999\n#BEGIN_STREAM\nabc", b"#DIM 65536 65536\n1 2 3\n" * 2, b"#DIM 1 65536\n" + b"1\n" * 10):
        data("odd", "vertical_segment", b)
    for typ in ("data_rbf", "data_grid"):
        for _ in range(60 * n):
            data(typ, typ, mutate.text(r, r.choice(txts)))
    # --- ASTM
    for _ in range(400 * n):
        b = b"NUM_POINTS 3\nCOMMENT a, b\nVARS theta_i,phi_i,theta_s,phi_s,R,G,B\n" + b"".join(
            b",".join(b"%g" % r.uniform(0, 90) for _ in range(7)) + b"\n" for _ in range(3))
        data("astm", "data_astm", mutate.text(r, b.replace(b"R,G,B", r.choice([b"R,G,B", b"Integrated Radiance"]))))
    for b in (b"", b"VARS", b"VARS a,b", b"NUM_POINTS 5\nVARS theta_i,B\n1,2\n", b"NUM_POINTS 2147483647\nVARS theta_i,B\n1,2\n",
              b"NUM_POINTS -4\nVARS theta_i,B\n", b"VARS ,\nNUM_POINTS 3", b"NUM_POINTS 3\nVARS ,,,\n1,2\n1,2\n1,2\n", b"NUM_POINTS 1\nVARS [a,b]\n1,2"):
        data("astm", "data_astm", b)
    # --- MERL
    full = struct.pack("<3i", 90, 90, 180) + bytes(24 * 90 * 90 * 180)
    for cut in (0, 1, 11, 12, 13, 1000, len(full) // 3, len(full) - 8, len(full) - 1):
        data("merl-short", "data_merl", full[:cut], "binary", refuse=True)
    data("merl-long", "data_merl", full + b"xyz", "binary")
    for _ in range(40 * n):
        h = struct.pack("<3i", *[r.choice([90, 180, 0, -1, 1, 65536, 2147483647, -2147483648, 1458000]) for _ in range(3)])
        if h != full[:12]:
            data("merl-dims", "data_merl", h + bytes(r.randrange(200)), "binary", refuse=True)
    for bad in ((89, 90, 180), (90, 91, 180), (90, 90, 360), (180, 45, 180), (90, 180, 90)):  # the table is as long as it should be
        data("merl-dims", "data_merl", struct.pack("<3i", *bad) + full[12:], "binary", refuse=True)
    # --- UTIA
    ut = bytes(8 * 3 * 82944)
    for cut in (0, 1, 8, 1000, len(ut) - 1):
        data("utia-short", "data_utia", ut[:cut], "bin")
    data("utia", "data_utia", ut + b"1", "bin")
    px = lambda w, h: {ch: [r.random() for _ in range(w * h)] for ch in "BGR"}
    for w, h in ((1, 1), (288, 1), (1, 288), (4, 4)):
        data("utia-exr", "data_utia", exr.write(w, h, px(w, h)), "exr")
    u = exr.write(288, 288, px(288, 288))
    data("utia-exr", "data_utia", u, "exr", more=["dvals D 1 4 0x1p-1 0x1p-1 0x1p-1 0x1p-1"])
    for _ in range(6 * n):
        data("utia-exr", "data_utia", mutate.binary(r, u, 400), "exr")
    # --- images
    for k in range(700 * n):
        w, h = r.choice([1, 2, 4, 17]), r.choice([1, 3, 16, 20])
        b = exr.write(w, h, px(w, h), r.random() < .3, r.choice([0, 0, 2, 3]))
        hd = b.find(b"screenWindowWidth") + 40
        data("slice", "data_brdf_slice", b if k == 0 else mutate.binary(r, b, hd), "exr", args=r.choice([(), ("--param", r.choice(list(NAMED) + ["X"]))]),
             more=["dmid D"] if k % 3 == 0 else [])
    # --- functions
    for k in range(1500 * n):
        b, dx = r.choice(funcs)
        b = mutate.text(r, b) if k else b
        cid = "func%d" % k
        f = os.path.join(W, cid)
        open(f, "wb").write(b)
        S.case(cid, ["fload F " + driver.q(f), "finfo F", "fkind F"], 40)
        kinds[cid] = ("func", 0, b)
    for b in (b"", b"#ALTA FUNC HEADER", b"#ALTA FUNC HEADER\n#DIM 1 1\n#CMD --func []\n#ALTA HEADER END\n", b"\xff" * 40):
        cid = "func-odd%d" % len(kinds)
        open(os.path.join(W, cid), "wb").write(b)
        S.case(cid, ["fload F " + driver.q(os.path.join(W, cid)), "finfo F"], 40)
        kinds[cid] = ("func-odd", 0, b)
    res, err = driver.run(t, S, W)
    for e in err:
        if "script: data D" not in e and "script: function F" not in e and "not a " not in e:
            c.fail("driver", error=e)
    for cid, (tag, ld, b) in kinds.items():
        R = res[cid]
        c.seen(tag, b)
        if R.end == "timeout":
            c.fail("hang:" + tag, case=cid, command=R.cmds[min(R.failed_cmd, len(R.cmds) - 1)], file=b[:600].decode("latin-1"), size=len(b))
            continue
        if not R.done:
            if R.third_party():
                c.count("stopped inside the system's image decoder")
                continue
            k = R.failed_cmd
            op = R.cmds[k].split(" ")[0] if k < len(R.cmds) else "teardown"
            c.fail("crash:%s:%s:%s:%s" % (tag, op, R.died(), R.where()), case=cid, end=R.end, file=b[:800].decode("latin-1"), hex=b[:300].hex() if tag in ("slice", "utia-exr") else None, log=R.log(1500),
                   script=R.cmds)
            continue
        ok = R.ok(ld) and R.res[ld][1] != "null"
        c.count(tag + (": loaded" if ok else ": refused"))
        if cid in must_fail and ok:
            c.fail("short-accepted:" + tag, case=cid, got=R.res[ld], size=len(b))
    c.sample(dict(kinds={k: v for k, v in c.stats.items() if ":" in k}))


check.main("C06", main,
           "One evaluation per distinct file loaded (and, when accepted, read and saved): mutated text, binary, MERL, UTIA, ASTM, image, "
           "interpolant and function files under AddressSanitizer and UBSan with CPU, allocation and result monitors.",
           ["allocations above 3 GB or 40 s of CPU time for these small files count as absurd"])
