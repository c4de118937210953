"""Prebuilds the object caches; every check rebuilds what changed."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
t = build.ensure("asan", build.NL + build.RATIONALS + build.DATAS + build.RFITTERS + build.NFITTERS + build.SOFTS + ["alta"], driver=True)
print("asan build: %.1f s" % t.seconds)
t = build.ensure("tsan", build.RATIONALS + build.DATAS + ["rational_fitter_parallel", "data2data"], driver=True)
print("tsan build: %.1f s" % t.seconds)
t = build.ensure("plain", build.NL + build.RATIONALS + build.DATAS + build.RFITTERS + build.NFITTERS + build.SOFTS, driver=True)
print("plain build: %.1f s" % t.seconds)
