"""Running cases of calls on the instrumented Python module."""
import json, os, subprocess, tempfile, threading
import driver

PYTHON = "/usr/bin/python3.12"
RUN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "src", "pyrun.py")


class PyResult(driver.Result):
    __slots__ = ("out", "logfile")

    def log(self, n=4000):
        try:
            return open(self.logfile, errors="replace").read()[-n:]
        except OSError:
            return ""

    @property
    def failed_cmd(self):
        return len(self.out)

    def value(self, k):
        return self.out[k]


def run(tree, cases, work, jobs=8, flavor="asan"):
    """CASES: [(name, steps)]; returns {name: PyResult} and harness errors."""
    os.makedirs(work, exist_ok=True)
    env = driver.san_env(tree)
    if flavor == "asan":
        env["LD_PRELOAD"] = " ".join(subprocess.check_output(["g++", "-print-file-name=" + l]).decode().strip() for l in ("libasan.so", "libubsan.so", "libstdc++.so"))
    env["PYTHONPATH"] = tree.python
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONMALLOC"] = "malloc"
    results, errors = {}, []

    def one(ix):
        part = cases[ix::jobs]
        if not part:
            return
        d = tempfile.mkdtemp(prefix="py%d-" % ix, dir=work)
        cp = os.path.join(d, "cases.json")
        json.dump(part, open(cp, "w"))
        p = subprocess.run([PYTHON, RUN, cp, d], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        if p.returncode:
            errors.append("runner exit %d: %s" % (p.returncode, p.stdout.decode(errors="replace")[-2000:]))
        for name, steps in part:
            base = os.path.join(d, name)
            r = PyResult(name, [json.dumps(s) for s in steps])
            r.dir, r.logfile, r.out = base, base + ".log", []
            try:
                for l in open(base + ".out"):
                    if l.endswith("\n"):
                        r.out.append(json.loads(l))
                rc = int(open(base + ".rc").read())
            except OSError:
                rc = None
            if r.out and r.out[-1] == ["end"]:
                r.out.pop()
                r.end = "done" if rc == 0 else "exit %s at the end" % rc
            elif rc == -24:
                r.end = "timeout"
            else:
                r.end = "no result" if rc is None else "exit %d" % rc if rc >= 0 else "signal %d" % -rc
            results[name] = r

    ts = [threading.Thread(target=one, args=(i,)) for i in range(min(jobs, len(cases)))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return results, errors
