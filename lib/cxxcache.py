#!/usr/bin/python3
"""Compiler launcher with a content-addressed object cache.

usage: cxxcache.py <compiler> <args...>

Compile steps (-c ... -o X.o) are keyed by the compiler binary, the complete
argument vector (minus output paths) and the *preprocessed* translation unit,
so a cached object is reused only where the compiler would see the same
input.  Everything else is passed through.
"""
import hashlib, os, subprocess, sys, shutil, tempfile

CACHE = os.environ.get("ALTA_OBJ_CACHE", "/verif/.cache/obj")

def main():
    argv = sys.argv[1:]
    if "-c" not in argv or "-o" not in argv or os.environ.get("ALTA_NO_CACHE"):
        os.execvp(argv[0], argv)
    out = argv[argv.index("-o") + 1]
    key_args, pp, skip = [], [], False
    i = 0
    while i < len(argv):
        a = argv[i]
        if a in ("-o", "-MF", "-MT", "-MQ"):
            if a != "-o":
                pp += argv[i:i + 2]
            i += 2
            continue
        if a == "-c":
            key_args.append(a)
            i += 1
            continue
        pp.append(a)
        if a not in ("-MD", "-MMD"):
            key_args.append(a)
        i += 1
    r = subprocess.run(pp + ["-E"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        os.execvp(argv[0], argv)
    h = hashlib.sha256()
    st = os.stat(shutil.which(argv[0]) or argv[0])
    h.update(repr((argv[0], st.st_size)).encode())
    h.update("\0".join(key_args).encode())
    h.update(r.stdout)
    path = os.path.join(CACHE, h.hexdigest() + ".o")
    if os.path.exists(path):
        try:
            shutil.copyfile(path, out)
            return 0
        except OSError:
            pass
    rc = subprocess.call(argv)
    if rc == 0 and os.path.exists(out):
        try:
            os.makedirs(CACHE, exist_ok=True)
            fd, tmp = tempfile.mkstemp(dir=CACHE)
            os.close(fd)
            shutil.copyfile(out, tmp)
            os.replace(tmp, path)
        except OSError:
            pass
    return rc

sys.exit(main())
