"""Common frame of every check: seeds, findings, known findings, evidence, exit code."""
import hashlib, json, os, random, shutil, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")

# how much more than their base size the quick runs of cheap checks do
BOOST = dict(C01=6, C02=6, C03=6, C04=6, C05=5, C06=3, C07=8, C08=6, C09=2, C10=3, C11=4, C12=4, C13=6, C14=4, C15=7, C16=3, C18=5, C20=2,
             C24=2, C25=4, C27=2, C29=4, C31=2, C33=2, C34=3)


class Check:
    def __init__(self, pid, rule, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.stats = {}
        self.findings = {}          # key -> [detail...]
        self.inconclusive = []
        self.work = None

    # --- evidence
    def seen(self, *key):
        """One evaluation; KEY identifies it among distinct non-trivial ones (None: trivial)."""
        self.evaluations += 1
        if key and key[0] is not None:
            self.distinct.add(hashlib.sha1(repr(key).encode()).digest()[:10])

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s)

    def scale(self, quick, thorough):
        return thorough if self.thorough else min(thorough, quick * BOOST.get(self.pid, 1))

    # --- verdicts
    def fail(self, key, **detail):
        l = self.findings.setdefault(key, [])
        if len(l) < 3:
            l.append(detail)
        self.count("failures_observed")

    def unsure(self, what):
        if len(self.inconclusive) < 20:
            self.inconclusive.append(what)
        self.count("inconclusive")

    def tmp(self):
        if not self.work:
            base = os.path.join(VERIF, ".run")
            os.makedirs(base, exist_ok=True)
            self.work = tempfile.mkdtemp(prefix=self.pid + "-", dir=base)
        return self.work

    def finish(self):
        try:
            known = json.load(open(KNOWN))
        except OSError:
            known = {"findings": []}
        kn = {k["key"]: k for k in known.get("findings", []) if k["property"] == self.pid}
        bad = [k for k in self.findings if k not in kn]
        for k in self.findings:
            if k in kn:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, kn[k]["what"]))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        replay = os.path.join(VERIF, "evidence", "%s.replay.json" % self.pid)
        if os.path.exists(replay):
            os.unlink(replay)
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples or ["(none)"], observed=self.stats,
                   known_findings_seen=sorted(k for k in self.findings if k in kn))
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
                  assumptions=self.assumptions, violations=len(bad), wall_s=round(time.time() - self.t0, 2))
        tmp = os.path.join(VERIF, "evidence", self.pid + ".json.tmp")
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        rc = 0
        if bad:
            with open(replay, "w") as fh:
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier,
                               violations={k: self.findings[k] for k in bad}), fh, indent=1, default=str)
            for k in bad[:20]:
                print("  %s: %s" % (k, json.dumps({a: b for a, b in self.findings[k][0].items() if a != "script"}, default=str)[:1200]))
            print("VIOLATION property=%s replay=%s" % (self.pid, replay))
            rc = 1
        print("%s %s seed=%d evaluations=%d distinct=%d violations=%d known=%d inconclusive=%d wall=%.1fs" % (
            self.pid, self.tier, self.seed, self.evaluations, len(self.distinct), len(bad),
            len(self.findings) - len(bad), self.stats.get("inconclusive", 0), time.time() - self.t0))
        if self.work and not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        return rc

    # --- helper for driver results
    def judge_death(self, r, prefix="", expect=False):
        """Report a case that did not end normally. True when it did end normally."""
        if r.done:
            return True
        if r.end == "timeout":
            self.unsure("case %s ran out of its CPU allowance" % r.id)
            return False
        k = r.failed_cmd
        op = r.cmds[k].split(" ")[0] if k < len(r.cmds) else "teardown"
        self.fail("%scrash:%s:%s:%s" % (prefix, op, r.died(), r.where()), case=r.id, end=r.end, script=[x[:400] for x in r.cmds],
                  command=(r.cmds[k][:500] if k < len(r.cmds) else "teardown"), log=r.log(1500))
        return False


def main(pid, fn, rule, assumptions=()):
    c = Check(pid, rule, assumptions)
    import build
    try:
        fn(c)
    except build.BuildError:
        traceback.print_exc()
        print("check %s could not build what it needs" % pid)
        sys.exit(2)
    except Exception as e:
        # the code under test answered in a way the oracle has no reading for
        traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)[-1]
        c.fail("unexpected-response:%s" % type(e).__name__, error=str(e)[:500], at="%s:%s" % (tb.name, tb.line))
    sys.exit(c.finish())
