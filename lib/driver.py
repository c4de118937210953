"""Running scripts of cases through the instrumented driver and tools."""
import os, shutil, subprocess, tempfile, threading, time, urllib.parse

ASAN = ("abort_on_error=0:exitcode=99:detect_leaks=0:detect_odr_violation=0:allocator_may_return_null=0:"
        "max_allocation_size_mb=3000:hard_rss_limit_mb=6000:handle_abort=0:detect_stack_use_after_return=0:"
        "strict_string_checks=0:alloc_dealloc_mismatch=1:max_malloc_fill_size=1073741824:malloc_fill_byte=%d:"
        "free_fill_byte=%d:max_free_fill_size=65536")


def san_env(tree, fill=0xBE, plugins=None, extra=None, omp=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("ALTA_", "ASAN", "UBSAN", "TSAN", "OMP_", "PYTHON"))}
    e["ALTA_PLUGIN_PATH"] = plugins if plugins is not None else tree.plugins
    e["LC_ALL"] = "C"
    e["ASAN_OPTIONS"] = ASAN % (fill, fill)
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:history_size=4:ignore_noninstrumented_modules=0:report_signal_unsafe=0"
    e["OMP_NUM_THREADS"] = str(omp if omp else 2)
    if extra:
        e.update(extra)
    return e


def q(s):
    """Escape a string token."""
    if isinstance(s, bytes):
        b = s
    else:
        b = s.encode("latin-1")
    if not b:
        return "%01"
    return "".join(chr(c) if 32 < c < 127 and c != 37 else "%%%02x" % c for c in b)


def unq(s):
    b = urllib.parse.unquote_to_bytes(s)
    return b"" if b == b"\x01" else b


def fv(v):
    """Format a vector."""
    v = list(v)
    return " ".join([str(len(v))] + [float(x).hex() if x == x and abs(x) != float("inf") else repr(float(x)) for x in v])


def pf(t):
    return float("nan") if t == "nan" else float.fromhex(t) if "x" in t else float(t)


class Toks:
    """Cursor over a result payload."""
    def __init__(self, s):
        self.t = s.split(" ") if s else []
        self.i = 0

    def raw(self):
        self.i += 1
        return self.t[self.i - 1]

    def int(self):
        return int(self.raw())

    def f(self):
        return pf(self.raw())

    def s(self):
        return unq(self.raw())

    def vec(self):
        n = self.int()
        return [self.f() for _ in range(n)]

    def more(self):
        return self.i < len(self.t)


class Result:
    __slots__ = ("id", "res", "end", "dir", "torn", "cmds", "ncmd")

    def __init__(self, cid, cmds):
        self.id, self.cmds, self.res, self.end, self.dir, self.torn = cid, cmds, {}, None, None, False

    def ok(self, k):
        r = self.res.get(k)
        return r is not None and r[0] == "OK"

    def toks(self, k):
        return Toks(self.res[k][1])

    @property
    def done(self):
        return self.end == "done"

    @property
    def failed_cmd(self):
        """Index of the command during which the case died (len(cmds): object destruction)."""
        k = 0
        while k in self.res:
            k += 1
        return k

    def log(self, n=4000):
        try:
            return open(os.path.join(self.dir, "stderr.log"), errors="replace").read()[-n:]
        except OSError:
            return ""

    def died(self):
        """A short stable description of how the case died."""
        log = self.log(200000)
        what = self.end or "no end"
        import re
        m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", log)
        if m:
            what = "asan:" + m.group(1)
        elif "runtime error: " in log:
            what = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?[\d.e+]+", "N", log.split("runtime error: ", 1)[1].split("\n", 1)[0])[:60]
        elif "Assertion" in log:
            m = re.search(r"Assertion [`'](.*?)' failed", log)
            what = "assert:" + (m.group(1)[:60] if m else "?")
        elif "terminate called" in log:
            m = re.search(r"terminate called[^\n]*", log)
            what = "terminate:" + m.group(0)[17:77].strip()
        return what

    def where(self):
        """Innermost frame in /repo's sources of a sanitizer report."""
        import re
        log = self.log(200000)
        for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)", log):
            if "/sources/" in m.group(2) or "/external/" in m.group(2):
                fn = re.sub(r"\(.*", "", m.group(1))
                return os.path.basename(m.group(2)) + ":" + fn
        m = re.search(r"(\w+\.(?:cpp|h|cc|hh)):\d+: (.*?): Assertion", log)
        if m:
            return m.group(1)
        return ""

    def third_party(self):
        """The report comes from inside the system's image decoder, not from ALTA."""
        import re
        log = self.log(200000)
        if re.search(r"/usr/include/tinyexr\.h:\d+:\d+: runtime error", log):
            return True
        m = re.search(r"#0 0x[0-9a-f]+ in .*", log)
        return bool(m and "/usr/include/tinyexr.h" in m.group(0))


class Script:
    def __init__(self):
        self.cases = []

    def case(self, cid, cmds, cpu=60):
        assert " " not in cid
        self.cases.append((cid, list(cmds), cpu))


def run(tree, script, work, jobs=None, env=None):
    """Run all cases; returns {case id: Result}."""
    jobs = jobs or min(8, os.cpu_count() or 4)
    cases = script.cases
    jobs = max(1, min(jobs, len(cases)))
    shards = [cases[i::jobs] for i in range(jobs)]
    os.makedirs(work, exist_ok=True)
    results = {}
    errors = []

    def one(ix):
        d = tempfile.mkdtemp(prefix="shard%d-" % ix, dir=work)
        sp, rp = os.path.join(d, "script"), os.path.join(d, "results")
        with open(sp, "w") as fh:
            for cid, cmds, cpu in shards[ix]:
                fh.write("case %s %d\n" % (cid, cpu))
                fh.write("\n".join(cmds) + "\n")
        open(rp, "w").close()
        p = subprocess.run([tree.driver, sp, rp, d], env=env or san_env(tree), stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
        if p.returncode != 0:
            errors.append("driver exit %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-2000:]))
        by = {c[0]: c for c in shards[ix]}
        cur = None
        with open(rp) as fh:
            for l in fh:
                l = l.rstrip("\n")
                if l.startswith("C "):
                    cur = Result(l[2:], by[l[2:]][1])
                    results[cur.id] = cur
                elif l.startswith("R "):
                    a = l.split(" ", 3)
                    cur.res[int(a[1])] = (a[2], a[3] if len(a) > 3 else "")
                    if a[2] == "SX":
                        errors.append("case %s: %s (%s)" % (cur.id, unq(a[3]).decode(), cur.cmds[int(a[1])][:200]))
                elif l == "T":
                    cur.torn = True
                elif l.startswith("E "):
                    a = l.split(" ")
                    cur.end = " ".join(a[2:-1])
                    cur.dir = os.path.join(d, a[-1])

    ts = [threading.Thread(target=one, args=(i,)) for i in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return results, errors


def sh(cmd, cwd, env, timeout=300, stdin=None):
    """Run a tool; returns (rc, stdout, stderr); rc None when it ran out of time."""
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           stdin=subprocess.DEVNULL if stdin is None else stdin, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode(errors="replace"), (e.stderr or b"").decode(errors="replace")


def pmap(fn, items, jobs=8):
    """Threaded map keeping order."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(fn, items))
