"""Runs cases of calls on the Python module 'alta', each in a process of its own.
usage: pyrun.py cases.json outdir   (PYTHONPATH gives the module)
A case is a list of steps; after each step one line is written: ["ok", value] or ["ex", type, text]."""
import gc, json, os, resource, sys
import alta

I, O = alta.input_parametrization, alta.output_parametrization


def hexed(v):
    return [x.hex() for x in v]


def step(o, s):
    op, a = s[0], s[1:]
    def get(k):
        return None if k is None else o[k]
    if op == "param":
        o[a[0]] = alta.parameters(a[1], a[2], getattr(I, a[3]), getattr(O, a[4]))
    elif op == "args":
        o[a[0]] = alta.arguments(a[1]) if a[1] is not None else alta.arguments()
    elif op == "argsup":
        o[a[0]].update(a[1], a[2])
    elif op == "argsget":
        return o[a[0]][a[1]]
    elif op == "vec":
        o[a[0]] = alta.vec([float.fromhex(x) for x in a[1]])
    elif op == "vget":
        return o[a[0]][a[1]].hex()
    elif op == "vset":
        o[a[0]][a[1]] = float.fromhex(a[2])
    elif op == "vall":
        return hexed(list(o[a[0]]))
    elif op == "vlen":
        return len(o[a[0]])
    elif op == "vadd":
        o[a[0]] = get(a[1]) + get(a[2])
        return hexed(o[a[0]])
    elif op == "vsub":
        o[a[0]] = get(a[1]) - get(a[2])
        return hexed(o[a[0]])
    elif op == "vcopy":
        o[a[0]] = alta.vec(o[a[1]])
    elif op == "vstr":
        return str(o[a[0]])
    elif op == "norm":
        return alta.norm(get(a[0])).hex()
    elif op == "getf":                    # NAME plugin params | NAME args params
        f = alta.get_function(*[o[x[1:]] if x[:1] == "$" else x for x in a[1:]])
        if f is None:
            return None
        o[a[0]] = f
        return "function"
    elif op == "loadf":
        f = alta.load_function(a[1]) if len(a) < 3 else alta.load_function(a[1], get(a[2]))
        if f is None:
            return None
        o[a[0]] = f
        return "function"
    elif op == "fload":
        o[a[0]].load(a[1]) if len(a) < 3 else o[a[0]].load(a[1], get(a[2]))
    elif op == "fvals":
        return [hexed(o[a[0]].value(alta.vec([float.fromhex(y) for y in x]))) for x in a[1]]
    elif op == "fset":
        o[a[0]].set(alta.vec([float.fromhex(x) for x in a[1]]))
    elif op == "fgetp":
        return hexed(o[a[0]].get())
    elif op == "fsave":
        o[a[0]].save(a[1]) if len(a) < 3 else o[a[0]].save(a[1], get(a[2]))
        return open(a[1]).read()
    elif op in ("fadd", "fmul"):
        x, y = get(a[1]), get(a[2])
        f = x + y if op == "fadd" else x * y
        if f is None:
            return None
        o[a[0]] = f
        return "function"
    elif op == "getd":                    # NAME plugin size params [args]
        d = alta.get_data(a[1], a[2], *[get(x) for x in a[3:]])
        if d is None:
            return None
        o[a[0]] = d
        return len(d)
    elif op == "loadd":
        d = alta.load_data(a[1], a[2])
        if d is None:
            return None
        o[a[0]] = d
        return len(d)
    elif op == "dget":
        return hexed(o[a[0]].get(a[1]) if a[2:] else o[a[0]][a[1]])
    elif op == "dset":
        v = alta.vec([float.fromhex(x) for x in a[2]])
        if a[3:]:
            o[a[0]].set(a[1], v)
        else:
            o[a[0]][a[1]] = v
    elif op == "dlen":
        return [len(o[a[0]]), o[a[0]].size()]
    elif op == "dall":
        return [hexed(x) for x, _ in zip(o[a[0]], range(a[1]))]
    elif op == "drows":
        return [hexed(o[a[0]][i]) for i in range(len(o[a[0]]))]
    elif op == "dvals":
        return [hexed(o[a[0]].value(alta.vec([float.fromhex(y) for y in x]))) for x in a[1]]
    elif op == "dsave":
        o[a[0]].save(a[1])
        return open(a[1], "rb").read().decode("latin-1") if a[2] else os.path.getsize(a[1])
    elif op == "dparam":
        o[a[0]] = o[a[1]].parametrization()
    elif op == "d2d":
        d = alta.data2data(get(a[1]), get(a[2]))
        o[a[0]] = d
        return len(d)
    elif op == "d2s":
        return {k: hexed(v) for k, v in alta.data2stats(get(a[0]), get(a[1])).items()}
    elif op == "b2d":
        alta.brdf2data(get(a[0]), get(a[1]))
    elif op == "getfit":
        f = alta.get_fitter(a[1])
        if f is None:
            return None
        o[a[0]] = f
        return "fitter"
    elif op == "fit":
        return bool(o[a[0]].fit_data(*[get(x) for x in a[1:]]))
    elif op == "del":
        for k in a:
            o.pop(k, None)
        gc.collect()
    elif op == "alias":
        o[a[0]] = o[a[1]]
    else:
        raise SystemExit("unknown step " + op)
    return None


def case(steps, out):
    o = {}
    for s in steps:
        try:
            v = ["ok", step(o, s)]
        except SystemExit:
            raise
        except BaseException as e:
            v = ["ex", type(e).__name__, str(e)[:300]]
        out.write(json.dumps(v) + "\n")
        out.flush()
    o.clear()
    gc.collect()
    out.write('["end"]\n')
    out.flush()


cases = json.load(open(sys.argv[1]))
for name, steps in cases:
    base = os.path.join(sys.argv[2], name)
    pid = os.fork()
    if pid == 0:
        resource.setrlimit(resource.RLIMIT_CPU, (90, 95))
        fd = os.open(base + ".log", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        try:
            os.mkdir(base)
        except FileExistsError:
            pass
        os.chdir(base)
        with open(base + ".out", "w") as out:
            case(steps, out)
        os._exit(0)
    _, st = os.waitpid(pid, 0)
    open(base + ".rc", "w").write(str(os.waitstatus_to_exitcode(st)))
