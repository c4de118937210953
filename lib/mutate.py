"""Mutations of input files: structure aware for text, byte level for binary."""
import re, struct

NUMS = ["0", "-1", "1", "2", "7", "65", "1000", "65536", "2147483647", "2147483648", "-2147483648", "4294967296", "99999999999999999999",
        "1e308", "-1e308", "1e999", "nan", "inf", "-inf", "1e-320", "abc", "", "0x10", "1.5", "3 4", "-", "+", ".", "%n%s"]
WORDS = ["UNKNOWN_INPUT", "SPHERICAL_TL_PL_TV_PV", "RUSIN_TH_TD", "COS_TH", "CARTESIAN", "RGB_COLOR", "binary", "text", "-", "--func",
         "[", "]", "[]", "[,]", "[ ,", "--fresnel", "#", "# ", "#ALTA", "#DIM", "rational_function_legendre", "nonlinear_function_beckmann",
         "nonlinear_fresnel_schlick", "x" * 300, "\0", "\xff\xfe"]


def text(r, b):
    s = b.decode("latin-1")
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        k = r.randrange(12)
        lines = s.split("\n")
        if k == 0:
            i = r.randrange(len(lines))
            del lines[i]
            s = "\n".join(lines)
        elif k == 1:
            i = r.randrange(len(lines))
            lines.insert(r.randrange(len(lines) + 1), lines[i])
            s = "\n".join(lines)
        elif k == 2:
            i, j = r.randrange(len(lines)), r.randrange(len(lines))
            lines[i], lines[j] = lines[j], lines[i]
            s = "\n".join(lines)
        elif k in (3, 4, 5):
            m = list(re.finditer(r"[-+]?\d+(\.\d+)?(e[-+]?\d+)?", s))
            if m:
                x = r.choice(m)
                s = s[:x.start()] + r.choice(NUMS) + s[x.end():]
        elif k in (6, 7):
            m = list(re.finditer(r"\S+", s))
            if m:
                x = r.choice(m)
                s = s[:x.start()] + r.choice(WORDS + NUMS) + s[x.end():]
        elif k == 8:
            s = s[:r.randrange(len(s) + 1)]
        elif k == 9:
            i = r.randrange(len(s) + 1)
            s = s[:i] + chr(r.randrange(256)) + s[i + r.randrange(2):]
        elif k == 10:
            m = list(re.finditer(r"\S+", s))
            if m:
                x = r.choice(m)
                s = s[:x.start()] + s[x.end():]
        else:
            i = r.randrange(len(s) + 1)
            s = s[:i] + r.choice(["\n", " ", "\t", "\r\n", "\n\n", "[", "]", ","]) + s[i:]
    return s.encode("latin-1")


def binary(r, b, head=None):
    """Byte mutations, concentrated on the first HEAD bytes."""
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 3, 8])):
        if not b:
            break
        n = min(len(b), head or len(b)) if r.random() < .8 else len(b)
        i = r.randrange(n)
        k = r.randrange(8)
        if k == 0:
            b[i] ^= 1 << r.randrange(8)
        elif k == 1:
            b[i] = r.randrange(256)
        elif k == 2:
            b[i:i + 4] = struct.pack("<i", r.choice([0, -1, 1, 2147483647, -2147483648, 65536, 255, 1 << 30, len(b)]))
        elif k == 3:
            b = b[:r.randrange(len(b) + 1)]
        elif k == 4:
            del b[i:i + r.choice([1, 1, 2, 4, 16])]
        elif k == 5:
            b[i:i] = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 4, 16])))
        elif k == 6:
            j = r.randrange(n)
            b[i:i + 8] = b[j:j + 8]
        else:
            b[i:i + 8] = struct.pack("<q", r.choice([0, -1, 1 << 40, len(b), len(b) - 4, 1 << 62, -8]))
    return bytes(b)
