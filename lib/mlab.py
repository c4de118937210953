"""An interpreter for the part of Matlab that exported functions use: one function of straight assignments over scalars and vectors."""
import math, re


class Error(Exception):
    pass


TOK = re.compile(r"[ \t]+|(?P<num>(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)|(?P<id>[A-Za-z]\w*)|(?P<op>\.\*|\./|\.\^|[-+*/^(),=\[\];])")
FUNCS = {"cos": math.cos, "sin": math.sin, "acos": math.acos, "exp": math.exp, "sqrt": math.sqrt, "abs": abs, "log": math.log}


def statements(src):
    """(argument name, result name, statements) of the single function in SRC."""
    lines = []
    for l in src.replace("...\n", " ").splitlines():
        l = l.split("%")[0].split("#")[0].strip() if not l.lstrip().startswith("#") else ""
        if l:
            lines.append(l)
    if not lines:
        raise Error("empty file")
    m = re.match(r"function\s+(\w+)\s*=\s*(\w+)\s*\(\s*(\w+)\s*\)$", lines[0])
    if not m:
        raise Error("not a function: " + lines[0])
    body = lines[1:]
    if body and body[-1].rstrip(";") in ("end", "endfunction"):
        if body[-1].rstrip(";") == "endfunction":
            raise Error("endfunction is not Matlab")
        body = body[:-1]
    out = []
    for l in body:
        depth, cur = 0, ""
        for ch in l + ";":
            depth += (ch in "([") - (ch in ")]")
            if ch == ";" and depth == 0:
                if cur.strip():
                    out.append(cur.strip())
                cur = ""
            else:
                cur += ch
        if cur.strip():
            raise Error("unbalanced: " + l)
    return m.group(3), m.group(1), out


def lex(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Error("unexpected %r" % s[i:i + 20])
        if m.lastgroup:
            out.append((m.lastgroup, m.group()))
        i = m.end()
    return out + [("end", "")]


def _ew(f, a, b):
    if isinstance(a, list) or isinstance(b, list):
        n = len(a) if isinstance(a, list) else len(b)
        a = a if isinstance(a, list) else [a] * n
        b = b if isinstance(b, list) else [b] * n
        if len(a) != len(b):
            raise Error("sizes differ")
        return [f(x, y) for x, y in zip(a, b)]
    return f(a, b)


def _div(a, b):
    return a / b if b else math.nan if a == 0 else math.copysign(math.inf, a)


def _pow(a, b):
    try:
        return a ** b
    except (ZeroDivisionError, OverflowError):
        return math.inf


class Expr:
    def __init__(self, s, env):
        self.t, self.i, self.env = lex(s), 0, env

    def peek(self):
        return self.t[self.i][1]

    def eat(self, v=None):
        k, s = self.t[self.i]
        if v is not None and s != v:
            raise Error("%r where %r is expected" % (s, v))
        self.i += 1
        return s

    def all(self):
        v = self.sum()
        if self.t[self.i][0] != "end":
            raise Error("unexpected %r" % self.peek())
        return v

    def sum(self):
        v = self.prod()
        while self.peek() in ("+", "-"):
            o = self.eat()
            w = self.prod()
            v = _ew((lambda a, b: a + b) if o == "+" else (lambda a, b: a - b), v, w)
        return v

    def prod(self):
        v = self.unary()
        while self.peek() in ("*", "/", ".*", "./"):
            o = self.eat()
            w = self.unary()
            if o in "*/" and isinstance(v, list) and isinstance(w, list):
                raise Error("matrix product of two vectors")
            v = _ew((lambda a, b: a * b) if o[-1] == "*" else _div, v, w)
        return v

    def unary(self):
        if self.peek() in ("-", "+"):
            s = -1.0 if self.eat() == "-" else 1.0
            return _ew(lambda a, b: a * b, s, self.unary())
        return self.power()

    def power(self):
        v = self.atom()
        while self.peek() in ("^", ".^"):
            o = self.eat()
            neg = False
            if self.peek() in ("-", "+"):
                neg = self.eat() == "-"
            w = self.atom()
            if o == "^" and (isinstance(v, list) or isinstance(w, list)):
                raise Error("matrix power of a vector")
            v = _ew(_pow, v, -w if neg else w)
        return v

    def atom(self):
        k, s = self.t[self.i]
        if k == "num":
            self.i += 1
            return float(s)
        if s == "(":
            self.eat()
            v = self.sum()
            self.eat(")")
            return v
        if s == "[":
            self.eat()
            v = []
            while self.peek() != "]":
                e = self.sum()
                v += e if isinstance(e, list) else [e]
                if self.peek() in (",", ";"):
                    self.eat()
            self.eat("]")
            return v
        if k == "id":
            self.i += 1
            args = None
            if self.peek() == "(":
                self.eat()
                args = [self.sum()]
                while self.peek() == ",":
                    self.eat()
                    args.append(self.sum())
                self.eat(")")
            if s in self.env:
                v = self.env[s]
                if args is None:
                    return v
                if len(args) != 1 or args[0] != int(args[0]):
                    raise Error("bad index of " + s)
                v = v if isinstance(v, list) else [v]
                if not 1 <= args[0] <= len(v):
                    raise Error("index %g of %s is out of bound" % (args[0], s))
                return v[int(args[0]) - 1]
            if s == "pi" and args is None:
                return math.pi
            if s in ("zeros", "ones") and args:
                n = [int(a) for a in args] if len(args) > 1 else [int(args[0])] * 2
                if 1 not in n:
                    raise Error("%s makes a matrix" % s)
                n = n[0] * n[1]
                x = 0.0 if s == "zeros" else 1.0
                return x if n == 1 else [x] * n
            if s in FUNCS and args and len(args) == 1:
                return _ew(lambda a, b: FUNCS[s](a), args[0], 0)
            raise Error("unknown name " + s)
        raise Error("unexpected %r" % s)


def call(src, x):
    arg, res, sts = statements(src)
    env = {arg: list(x)}
    for s in sts:
        if s == "return":
            break
        m = re.match(r"(\w+)\s*(?:\(\s*(\d+)\s*\))?\s*=(?!=)(.*)$", s, re.S)
        if not m:
            raise Error("not an assignment: " + s[:80])
        v = Expr(m.group(3), env).all()
        if m.group(2):
            k = int(m.group(2))
            cur = env.get(m.group(1), [])
            cur = cur if isinstance(cur, list) else [cur]
            cur = cur + [0.0] * (k - len(cur))
            cur[k - 1] = v
            env[m.group(1)] = cur
        else:
            env[m.group(1)] = v
    if res not in env:
        raise Error("the result is not set")
    v = env[res]
    return v if isinstance(v, list) else [v]
