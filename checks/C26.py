"""C26: every tool reports that it could not do its job, and does it completely when it says so."""
import math, os, resource, shutil, signal, struct, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, dirs, driver, exr, models, mutate, shapes
from gen import *

from cliworld import *


def said(out, err):
    """Lines that tell something went wrong."""
    return [l for l in (out + "\n" + err).replace("\r", "\n").split("\n")
            if l.strip() and not l.startswith(("<<DEBUG>>", "<<INFO>>", "<<RESULT>>", "<<WARNING>>", "<<TRACE>>")) and any(
                w in l.lower() for w in ("error", "fail", "unable", "cannot", "could not", "can't", "invalid", "undefined", "not ", "no ", "missing", "unknown"))]


def memory(rc, err):
    """A death by signal or sanitizer report: which."""
    if rc in (98, 99) or "AddressSanitizer" in err or "runtime error: " in err:
        if "AddressSanitizer: " in err:
            return "asan:" + err.split("AddressSanitizer: ", 1)[1].split()[0]
        return "ubsan:" + err.split("runtime error: ", 1)[-1].split("\n")[0][:60]
    if rc is not None and rc < 0:
        return "signal:%s" % signal.Signals(-rc).name
    return None


def wrong_files(r, F, w, kind):
    """Files that are not of KIND, as (name of what is wrong, bytes)."""
    out = [("empty", b""), ("noise", bytes(r.randrange(256) for _ in range(r.choice([1, 7, 300, 5000])))), ("blank", b"\n\n \n")]
    other = [n for n, k in F.items() if k != kind and not (kind in ("text", "binary", "grid") and k in ("text", "binary", "grid"))]
    n = r.choice(other)
    out.append(("other:" + F[n], open(os.path.join(w, n), "rb").read()))
    return out


def cut(r, kind, b):
    """The beginning of the file, missing something it cannot do without."""
    if kind in ("exr", "binary"):
        if kind == "binary":
            if r.random() < .2:
                return b[:r.randrange(0, b.find(b"#PARAM_IN") - 2)]
            return b[:r.randrange(b.find(b"#VERSION"), len(b) - len(b"\n#END_STREAM\n"))]
        return b[:r.randrange(0, len(b) - 40)]
    s = b.decode("latin-1")
    if kind == "func":
        # drop at least the last number of the last parameter line
        body = s.rstrip()
        k = r.choice([body.rfind(" "), body.rfind("\n"), r.randrange(0, body.rfind("\n")), r.randrange(0, body.rfind("\n"))])
        return s[:k].encode("latin-1")
    # tables: drop the end of a row, between numbers
    if r.random() < .2:
        return s[:r.randrange(0, s.find("#PARAM_IN") - 2)].encode("latin-1")
    h = s.find("\n", s.rfind("#")) + 1
    rows = s[h:].split("\n")[:-1]
    n = r.randrange(1, len(rows)) if kind != "grid" else r.randrange(0, len(rows))
    row = rows[n].split(" ")
    return (s[:h] + "".join(x + "\n" for x in rows[:n]) + " ".join(row[:r.randrange(1, len(row))])).encode("latin-1")


def spoil(r, kind, b):
    """A table with one number that is no number."""
    s = b.decode("latin-1")
    h = s.find("\n", s.rfind("#")) + 1
    rows = s[h:].split("\n")[:-1]
    n = r.randrange(len(rows))
    row = rows[n].split(" ")
    k = r.randrange(len(row))
    row[k] = r.choice(["abc", "--", "?", "x1", "1,5"] + (["#N/A"] if k else []))
    rows[n] = " ".join(row)
    return (s[:h] + "".join(x + "\n" for x in rows)).encode("latin-1")


def run(c):
    t = build.ensure("asan", build.SOFTS + build.DATAS + build.NL + build.RATIONALS + build.RFITTERS + build.NFITTERS, driver=True)
    r = c.rng
    w, F, jobs = world(c, t)
    def fresh():
        d = tempfile.mkdtemp(dir=c.tmp())
        for f in F:
            os.link(os.path.join(w, f), os.path.join(d, f))
        return d

    def place(d, name, b):
        p = os.path.join(d, name)
        if os.path.lexists(p):
            os.unlink(p)
        open(p, "wb").write(b)

    # --- sound uses
    def sound(job):
        d = fresh()
        opts = {k: [x.replace("OUT", "out") for x in v] for k, v in job.opts.items()}
        rc, out, err = spawn(t, job, opts, d)
        why = complete(job, os.path.join(d, "out")) if rc == 0 else None
        b = open(os.path.join(d, "out"), "rb").read() if rc == 0 and why is None else None
        shutil.rmtree(d)
        return rc, why, b, (out + err)[-1500:]

    base = {}
    for job, (rc, why, b, log) in zip(jobs, driver.pmap(sound, jobs)):
        c.seen("sound", job.name)
        c.count("sound uses")
        if rc != 0:
            c.fail("sound-use-refused:%s" % job.name.split(":")[0], job=job.name, rc=rc, log=log)
        elif why:
            c.fail("sound-use-incomplete:%s" % job.name.split(":")[0], job=job.name, why=why, log=log)
        else:
            base[job.name] = b

    # --- uses that cannot work
    plans = []

    def plan(job, what, opts=None, files=None, limit=None, env=None):
        plans.append((job, what, dict(opts if opts is not None else job.opts), files or {}, limit))

    for job in jobs:
        reps = c.scale(1, 8) if not job.heavy else 1
        for o in job.must:
            q = dict(job.opts)
            del q[o]
            plan(job, "missing --" + o, q)
            if not job.heavy:
                plan(job, "empty --" + o, dict(job.opts, **{o: []}))
        plan(job, "nothing", {})
        for o, f in job.files.items():
            plan(job, "absent %s file" % o, dict(job.opts, **{o: ["absent"]}))
            plan(job, "%s in an absent directory" % o, dict(job.opts, **{o: ["nodir/" + f]}))
            plan(job, "%s is a directory" % o, dict(job.opts, **{o: ["."]}))
            for _ in range(reps):
                raw = open(os.path.join(w, f), "rb").read()
                for nm, b in wrong_files(r, F, w, F[f]):
                    plan(job, "%s file: %s" % (o, nm), files={f: b})
                for _ in range(2):
                    plan(job, "%s file cut short" % o, files={f: cut(r, F[f], raw)})
                if F[f] in ("text", "grid"):
                    plan(job, "%s file with no number" % o, files={f: spoil(r, F[f], raw)})
        for o in job.plugins:
            for nm in r.sample(["nosuch", "x", "so", "nonlinear_function", "", ".", "/", "data_", "nosuch.so", "fitter"], c.scale(3, 10)):
                plan(job, "unknown %s plugin" % o, dict(job.opts, **{o: [nm] if nm else ["nosuch", "more"]}))
            other = {"fitter": ["data_grid", "nonlinear_function_ward"], "func": ["rational_fitter_eigen", "data_rbf"]}.get(o, ["nonlinear_function_blinn", "rational_fitter_eigen"])
            plan(job, "%s plugin of another kind" % o, dict(job.opts, **{o: [r.choice(other)]}))
        for bad in (["nodir/out"], ["."], ["one.alta/out"]):
            plan(job, "output cannot be opened", dict(job.opts, output=bad))
        plan(job, "output device is full", dict(job.opts, output=["/dev/full"]))
        if job.name in base:
            n = len(base[job.name])
            for k in sorted({0, n - 1, r.randrange(n), r.randrange(n)}):
                plan(job, "output limited in size", limit=k)
    r.shuffle(plans)

    def bad(pl):
        job, what, opts, files, limit = pl
        d = fresh()
        for f, b in files.items():
            place(d, f, b)
        opts = {k: [x.replace("OUT", "out") for x in v] for k, v in opts.items()}
        rc, out, err = spawn(t, job, opts, d, limit)
        tp = "/usr/include/tinyexr.h" in err and ("AddressSanitizer" in err or "runtime error" in err)
        shutil.rmtree(d)
        return rc, out, err, tp, job.argv(opts)

    for (job, what, opts, files, limit), (rc, out, err, tp, argv) in zip(plans, driver.pmap(bad, plans)):
        c.seen(job.name, what, tuple(argv), limit, tuple(files.values()))
        c.count("uses that cannot work")
        c.count("cause: " + (what.split(" file")[0].split(":")[0] if "plugin" not in what else "plugin"))
        info = dict(job=job.name, what=what, argv=argv, rc=rc, files={k: repr(v[:400]) for k, v in files.items()}, limit=limit, log=(out[-600:] + err[-900:]))
        key = "%s:%s" % (job.tool, what)
        if rc is None:
            c.fail("no-end:" + key, **info)
        elif memory(rc, err):
            if tp:
                c.count("third party reports")
                continue
            c.fail("crash:%s:%s" % (memory(rc, err), key), **info)
        elif rc == 0:
            c.fail("claims-success:" + key, **info)
        elif not said(out, err):
            c.fail("silent:" + key, **info)
        else:
            c.count("reported")
            c.sample("%s, %s: exit %d, %s" % (job.name, what, rc, said(out, err)[-1][:120]))

    # --- any damage to the input: no crash, and no claim of an output that is not there
    plans2 = []
    for _ in range(c.scale(500, 8000)):
        job = r.choice([j for j in jobs if not j.heavy])
        o, f = r.choice(list(job.files.items()))
        raw = open(os.path.join(w, f), "rb").read()
        b = mutate.binary(r, raw, 400) if F[f] in ("exr", "binary") else mutate.text(r, raw)
        plans2.append((job, "damaged %s" % o, dict(job.opts), {f: b}, None))

    def dam(pl):
        job, what, opts, files, limit = pl
        d = fresh()
        for f, b in files.items():
            place(d, f, b)
        opts = {k: [x.replace("OUT", "out") for x in v] for k, v in opts.items()}
        rc, out, err = spawn(t, job, opts, d, limit, 60)
        tp = "/usr/include/tinyexr.h" in err and ("AddressSanitizer" in err or "runtime error" in err)
        there = os.path.isfile(os.path.join(d, "out")) and os.path.getsize(os.path.join(d, "out")) > 0
        shutil.rmtree(d)
        return rc, out, err, tp, there, job.argv(opts)

    for (job, what, opts, files, limit), (rc, out, err, tp, there, argv) in zip(plans2, driver.pmap(dam, plans2)):
        c.seen(job.name, what, tuple(files.values()))
        c.count("damaged inputs")
        info = dict(job=job.name, what=what, argv=argv, rc=rc, files={k: repr(v[:3000]) for k, v in files.items()}, log=(out[-600:] + err[-1500:]))
        if rc is None:
            c.unsure("%s ran out of time" % job.name)
        elif memory(rc, err):
            if tp or "hard rss limit" in err or "allocation-size-too-big" in err:
                c.count("third party reports")
                continue
            c.fail("crash:%s:%s:damaged" % (memory(rc, err), job.tool), **info)
        elif rc == 0:
            c.count("damaged inputs accepted")
            if not there:
                c.fail("claims-success:%s:damaged" % job.tool, **info)
        elif not said(out, err):
            c.fail("silent:%s:damaged" % job.tool, **info)
        else:
            c.count("damaged inputs refused")


check.main("C26", run, "tool x way of use x cause of failure (options, files, bytes, limits)",
           ["faults are injected through arguments, file contents, unwritable paths, a full device and a file size limit"])
