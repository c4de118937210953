"""A checker and evaluator for the part of GLSL that exported functions use.

Programs are typed as the language demands (no implicit vector conversions, only int to float), and evaluated in double precision.
"""
import math, re

TYPES = ("float", "int", "bool", "vec2", "vec3", "vec4", "void")
SIZE = {"vec2": 2, "vec3": 3, "vec4": 4}
VEC = {2: "vec2", 3: "vec3", 4: "vec4"}
TOKEN = re.compile(r"\s+|//[^\n]*|/\*.*?\*/|(?P<num>(?:\d+\.\d*|\.\d+)(?:[eE][+-]?\d+)?[fF]?|\d+[eE][+-]?\d+[fF]?|\d+)|(?P<id>[A-Za-z_]\w*)|"
                   r"(?P<op>\+\+|--|\+=|-=|\*=|/=|<=|>=|==|!=|&&|\|\||[-+*/<>=!?:;,.(){}\[\]])", re.S)


class Error(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


def lex(src):
    out, i, line = [], 0, 1
    while i < len(src):
        m = TOKEN.match(src, i)
        if not m:
            raise Error("line %d: unexpected %r" % (line, src[i:i + 20]))
        if m.lastgroup:
            out.append((m.lastgroup, m.group(), line))
        line += m.group().count("\n")
        i = m.end()
    out.append(("end", "", line))
    return out


def _pow(x, y):
    if x < 0 or x == 0 and y <= 0:
        return math.nan                           # undefined in GLSL
    try:
        return x ** y
    except OverflowError:
        return math.inf


def _exp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return math.inf


def _div(a, b):
    if b == 0:
        return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


def _dom(f):
    def g(*a):
        try:
            return f(*a)
        except (ValueError, OverflowError):
            return math.nan
    return g


# componentwise functions of one genType
ONE = dict(exp=_exp, sqrt=_dom(math.sqrt), sin=_dom(math.sin), cos=_dom(math.cos), tan=_dom(math.tan), acos=_dom(math.acos), asin=_dom(math.asin),
           atan=math.atan, abs=abs, log=_dom(lambda x: math.log(x) if x else -math.inf), floor=math.floor, sign=lambda x: float((x > 0) - (x < 0)),
           radians=math.radians, degrees=math.degrees, inversesqrt=_dom(lambda x: _div(1, math.sqrt(x))), exp2=_dom(lambda x: 2.0 ** x))
# of two; True where the second may be a float with a vector first
TWO = dict(pow=(_pow, 0), max=(lambda a, b: b if a < b else a, 2), min=(lambda a, b: b if b < a else a, 2), mod=(_dom(lambda a, b: a - b * math.floor(a / b)), 2),
           atan=(math.atan2, 0), step=(lambda e, x: 0.0 if x < e else 1.0, 1))
THREE = dict(clamp=lambda x, a, b: min(max(x, a), b), mix=lambda x, y, a: x * (1 - a) + y * a,
             smoothstep=lambda a, b, x: (lambda t: t * t * (3 - 2 * t))(min(max((x - a) / (b - a), 0), 1)))


class Program:
    """Parsed and typed source; call(name, args) evaluates a function."""

    def __init__(self, src):
        self.t, self.i, self.f = lex(src), 0, {}
        while self.t[self.i][0] != "end":
            self.function()

    # -- tokens
    def err(self, msg):
        raise Error("line %d: %s" % (self.t[self.i][2], msg))

    def peek(self):
        return self.t[self.i][1]

    def take(self, *want):
        k, v, _ = self.t[self.i]
        if want and v not in want:
            self.err("expected %s, found %r" % (" or ".join(want), v))
        self.i += 1
        return v

    def name(self):
        k, v, _ = self.t[self.i]
        if k != "id" or v in TYPES or v in ("if", "else", "return", "const", "for", "while"):
            self.err("expected a name, found %r" % v)
        self.i += 1
        return v

    # -- declarations and statements
    def function(self):
        rt = self.take(*TYPES)
        n = self.name()
        self.take("(")
        ps = []
        while self.peek() != ")":
            if ps:
                self.take(",")
            while self.peek() in ("const", "in"):
                self.take()
            ty = self.take(*TYPES)
            ps.append((ty, self.name()))
        self.take(")")
        key = (n, tuple(t for t, _ in ps))
        if key in self.f:
            self.err("function %s is defined twice" % n)
        self.rt = rt
        self.scopes = [dict((p, t) for t, p in ps)]
        if len(self.scopes[0]) != len(ps):
            self.err("parameter named twice")
        entry = self.f[key] = [rt, [p for _, p in ps], None]
        entry[2] = self.block()
        if rt != "void" and not self.returns(entry[2]):
            self.err("function %s may end without returning" % n)

    def returns(self, s):
        if s[0] == "return":
            return True
        if s[0] == "block":
            return any(self.returns(x) for x in s[1])
        return s[0] == "if" and s[3] is not None and self.returns(s[2]) and self.returns(s[3])

    def block(self):
        self.take("{")
        self.scopes.append({})
        out = []
        while self.peek() != "}":
            out.append(self.statement())
        self.take("}")
        self.scopes.pop()
        return ("block", out)

    def var(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s[n]
        self.err("unknown variable %s" % n)

    def fits(self, ty, e, what):
        if e[0] != ty and not (ty == "float" and e[0] == "int"):
            self.err("%s: %s where %s is needed" % (what, e[0], ty))
        return e

    def statement(self):
        v = self.peek()
        if v == "{":
            return self.block()
        if v == ";":
            self.take()
            return ("block", [])
        if v == "if":
            self.take()
            self.take("(")
            c = self.fits("bool", self.expr(), "condition")
            self.take(")")
            a = self.statement()
            b = None
            if self.peek() == "else":
                self.take()
                b = self.statement()
            return ("if", c, a, b)
        if v == "return":
            self.take()
            e = self.fits(self.rt, self.expr(), "return value")
            self.take(";")
            return ("return", e)
        if v in TYPES or v == "const":
            if v == "const":
                self.take()
            if not (self.t[self.i + 1][0] == "op" and self.t[self.i + 1][1] == "("):
                ty = self.take(*TYPES)
                out = []
                while True:
                    n = self.name()
                    if n in self.scopes[-1] or len(self.scopes) == 2 and n in self.scopes[0]:
                        self.err("%s is declared twice" % n)
                    e = None
                    if self.peek() == "=":
                        self.take()
                        e = self.fits(ty, self.expr(), "initialiser of " + n)
                    self.scopes[-1][n] = ty
                    out.append(("set", n, None, e, True))
                    if self.take(",", ";") == ";":
                        return ("block", out) if len(out) > 1 else out[0]
        if self.t[self.i][0] == "id" and v not in TYPES:
            save = self.i
            n = self.take()
            sw = None
            if self.peek() == ".":
                self.take()
                sw = self.take()
            elif self.peek() == "[" and self.t[self.i + 1][1] in ("0", "1", "2", "3") and self.t[self.i + 2][1] == "]":
                sw = "xyzw"[int(self.t[self.i + 1][1])]
                self.i += 3
            if self.peek() in ("=", "+=", "-=", "*=", "/="):
                op = self.take()
                ty = self.var(n)
                at = ty
                if sw is not None:
                    at = self.swizzle(ty, sw)[0]
                e = self.expr()
                if op != "=":
                    cur = (at, ("swz", (ty, ("var", n)), self.swizzle(ty, sw)[1]) if sw else ("var", n))
                    e = self.binary(op[0], cur, e)
                self.fits(at, e, "assignment to " + n)
                self.take(";")
                return ("set", n, self.swizzle(ty, sw)[1] if sw else None, e, False)
            self.i = save
        e = self.expr()
        self.take(";")
        return ("expr", e)

    # -- expressions: (type, node)
    def expr(self):
        c = self.level(0)
        if self.peek() == "?":
            self.take()
            self.fits("bool", c, "condition")
            a = self.expr()
            self.take(":")
            b = self.expr()
            if a[0] != b[0]:
                self.err("branches of different types")
            return (a[0], ("?", c, a, b))
        return c

    LEVELS = [("||",), ("&&",), ("==", "!="), ("<", ">", "<=", ">="), ("+", "-"), ("*", "/")]

    def level(self, k):
        if k == len(self.LEVELS):
            return self.unary()
        e = self.level(k + 1)
        while self.peek() in self.LEVELS[k]:
            op = self.take()
            e = self.binary(op, e, self.level(k + 1))
        return e

    def binary(self, op, a, b):
        if op in ("||", "&&"):
            self.fits("bool", a, op), self.fits("bool", b, op)
            return ("bool", (op, a, b))
        if op in ("<", ">", "<=", ">="):
            if a[0] not in ("float", "int") or b[0] not in ("float", "int"):
                self.err("comparison of %s and %s" % (a[0], b[0]))
            return ("bool", (op, a, b))
        if op in ("==", "!="):
            return ("bool", (op, a, b))
        if "bool" in (a[0], b[0]) or "void" in (a[0], b[0]):
            self.err("%s of %s and %s" % (op, a[0], b[0]))
        va, vb = a[0] in SIZE, b[0] in SIZE
        if va and vb and a[0] != b[0]:
            self.err("%s of %s and %s" % (op, a[0], b[0]))
        ty = a[0] if va else b[0] if vb else "int" if a[0] == b[0] == "int" else "float"
        return (ty, (op, a, b))

    def unary(self):
        if self.peek() in ("-", "+"):
            op = self.take()
            e = self.unary()
            if e[0] in ("bool", "void"):
                self.err("sign of a " + e[0])
            return (e[0], ("neg", e)) if op == "-" else e
        if self.peek() == "!":
            self.take()
            return ("bool", ("!", self.fits("bool", self.unary(), "!")))
        return self.postfix()

    def swizzle(self, ty, sw):
        sets = [s for s in ("xyzw", "rgba", "stpq") if all(ch in s for ch in sw)]
        if ty not in SIZE or not sets or len(sw) > 4:
            self.err("no component %s in %s" % (sw, ty))
        ix = [sets[0].index(ch) for ch in sw]
        if max(ix) >= SIZE[ty]:
            self.err("no component %s in %s" % (sw, ty))
        return ("float" if len(ix) == 1 else VEC[len(ix)], ix)

    def postfix(self):
        e = self.primary()
        while self.peek() in (".", "["):
            if self.take() == ".":
                sw = self.take()
                ty, ix = self.swizzle(e[0], sw)
            else:
                k, v, _ = self.t[self.i]
                if k != "num" or not v.isdigit() or e[0] not in SIZE or int(v) >= SIZE[e[0]]:
                    self.err("index %r into %s" % (v, e[0]))
                self.take()
                self.take("]")
                ty, ix = "float", [int(v)]
            e = (ty, ("swz", e, ix))
        return e

    def primary(self):
        k, v, _ = self.t[self.i]
        if k == "num":
            self.take()
            return ("int", ("num", int(v))) if v.isdigit() else ("float", ("num", float(v.rstrip("fF"))))
        if v == "(":
            self.take()
            e = self.expr()
            self.take(")")
            return e
        if v in ("true", "false"):
            self.take()
            return ("bool", ("num", v == "true"))
        if k != "id":
            self.err("unexpected %r" % v)
        self.take()
        if self.peek() != "(":
            if v in TYPES:
                self.err("unexpected type %s" % v)
            return (self.var(v), ("var", v))
        self.take("(")
        a = []
        while self.peek() != ")":
            if a:
                self.take(",")
            a.append(self.expr())
        self.take(")")
        return self.call_type(v, a)

    def call_type(self, n, a):
        ts = [x[0] for x in a]
        if n in SIZE:
            size = sum(SIZE.get(t, 1) for t in ts)
            if not a or "bool" in ts or "void" in ts or (size < SIZE[n] and not (len(a) == 1 and size == 1)) or (len(a) > 1 and size > SIZE[n] and size - SIZE.get(ts[-1], 1) >= SIZE[n]) or (size > SIZE[n] and len(a) > 1 and ts[-1] not in SIZE):
                self.err("%s(%s)" % (n, ", ".join(ts)))
            return (n, ("vec", a, SIZE[n]))
        if n in ("float", "int"):
            if len(a) != 1 or ts[0] in ("void",):
                self.err("%s(%s)" % (n, ", ".join(ts)))
            return (n, ("cast", n, a[0]))
        def match(ps):
            return len(ps) == len(ts) and all(p == t or p == "float" and t == "int" for p, t in zip(ps, ts))
        own = [key for key in self.f if key[0] == n]
        if own:
            exact = [k for k in own if k[1] == tuple(ts)] or [k for k in own if match(k[1])]
            if len(exact) != 1:
                self.err("no function %s(%s)" % (n, ", ".join(ts)))
            return (self.f[exact[0]][0], ("call", exact[0], a))
        f = ["float" if t == "int" else t for t in ts]
        gen = f and f[0] in ("float", "vec2", "vec3", "vec4")
        if n in ONE and len(a) == 1 and gen:
            return (f[0], ("map", ONE[n], a))
        if n in TWO and len(a) == 2 and gen:
            fn, loose = TWO[n]
            if f[0] == f[1] or loose == 2 and f[1] == "float" or loose == 1 and f[0] == "float" and f[1] in SIZE:
                return (f[1] if loose == 1 else f[0], ("map", fn, a))
        if n in THREE and len(a) == 3 and gen:
            ok = f[0] == f[1] == f[2] or n == "clamp" and f[1] == f[2] == "float" or n == "mix" and f[0] == f[1] and f[2] == "float" or n == "smoothstep" and f[0] == f[1] == "float"
            if ok:
                return (f[2] if n == "smoothstep" else f[0], ("map", THREE[n], a))
        if n == "dot" and len(a) == 2 and gen and f[0] == f[1]:
            return ("float", ("dot", a))
        if n in ("length",) and len(a) == 1 and gen:
            return ("float", ("length", a[0]))
        if n == "distance" and len(a) == 2 and f[0] == f[1]:
            return ("float", ("length", (f[0], ("-", a[0], a[1]))))
        if n == "normalize" and len(a) == 1 and gen:
            return (f[0], ("normalize", a[0]))
        if n == "cross" and f == ["vec3", "vec3"]:
            return ("vec3", ("cross", a))
        if n == "reflect" and len(a) == 2 and gen and f[0] == f[1]:
            return (f[0], ("reflect", a))
        self.err("no function %s(%s)" % (n, ", ".join(ts)))

    # -- evaluation
    def call(self, n, args):
        key = next((k for k in self.f if k[0] == n and len(k[1]) == len(args)), None)
        if key is None:
            raise Error("no function " + n)
        return self.invoke(key, args)

    def invoke(self, key, args):
        rt, names, body = self.f[key]
        env = dict(zip(names, args))
        try:
            self.run(body, env)
        except _Return as r:
            return r.v
        return None

    def run(self, s, env):
        k = s[0]
        if k == "block":
            for x in s[1]:
                self.run(x, env)
        elif k == "set":
            v = self.ev(s[3], env) if s[3] is not None else None
            if s[3] is None:
                env[s[1]] = _Unset()
            elif s[2] is None:
                env[s[1]] = v
            else:
                cur = env[s[1]]
                cur = list(cur) if not isinstance(cur, _Unset) else [math.nan] * 4
                for i, x in zip(s[2], v if isinstance(v, tuple) else (v,)):
                    cur[i] = x
                env[s[1]] = tuple(cur[:4])
        elif k == "if":
            if self.ev(s[1], env):
                self.run(s[2], env)
            elif s[3] is not None:
                self.run(s[3], env)
        elif k == "return":
            raise _Return(self.ev(s[1], env))
        else:
            self.ev(s[1], env)

    def ev(self, e, env):
        ty, n = e
        k = n[0]
        if k == "num":
            return n[1]
        if k == "var":
            v = env[n[1]]
            if isinstance(v, _Unset):
                raise Error("%s is used before it is set" % n[1])
            return v[:SIZE[ty]] if ty in SIZE else v
        if k in ("+", "-", "*", "/"):
            a, b = self.ev(n[1], env), self.ev(n[2], env)
            if ty == "int" and k == "/":
                return int(a / b) if b else 0
            f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": _div}[k]
            return _map(f, a, b)
        if k == "neg":
            return _map(lambda x: -x, self.ev(n[1], env))
        if k == "map":
            return _map(n[1], *[self.ev(x, env) for x in n[2]])
        if k == "swz":
            v = self.ev(n[1], env)
            out = tuple(v[i] for i in n[2])
            return out[0] if len(out) == 1 else out
        if k == "vec":
            out = []
            for x in n[1]:
                v = self.ev(x, env)
                out += list(v) if isinstance(v, tuple) else [float(v)]
            return tuple(out * n[2] if len(out) == 1 else out[:n[2]])
        if k == "cast":
            v = self.ev(n[2], env)
            v = v[0] if isinstance(v, tuple) else v
            return float(v) if n[1] == "float" else int(v)
        if k == "call":
            types = n[1][1]
            return self.invoke(n[1], [self.ev(x, env) for x in n[2]])
        if k == "dot":
            a, b = (self.ev(x, env) for x in n[1])
            return sum(x * y for x, y in zip(a, b)) if isinstance(a, tuple) else a * b
        if k in ("length", "normalize"):
            a = self.ev(n[1], env)
            a = a if isinstance(a, tuple) else (a,)
            l = math.sqrt(sum(x * x for x in a))
            return l if k == "length" else tuple(_div(x, l) for x in a) if ty in SIZE else _div(a[0], l)
        if k == "cross":
            a, b = (self.ev(x, env) for x in n[1])
            return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
        if k == "reflect":
            i, m = (self.ev(x, env) for x in n[1])
            d = sum(x * y for x, y in zip(i, m))
            return tuple(x - 2 * d * y for x, y in zip(i, m))
        if k == "?":
            return self.ev(n[2] if self.ev(n[1], env) else n[3], env)
        if k == "&&":
            return self.ev(n[1], env) and self.ev(n[2], env)
        if k == "||":
            return self.ev(n[1], env) or self.ev(n[2], env)
        if k == "!":
            return not self.ev(n[1], env)
        a, b = self.ev(n[1], env), self.ev(n[2], env)
        return {"<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}[k]()


class _Unset:
    pass


def _map(f, *a):
    n = max((len(x) for x in a if isinstance(x, tuple)), default=0)
    if not n:
        return f(*a)
    return tuple(f(*[x[i] if isinstance(x, tuple) else x for x in a]) for i in range(n))
