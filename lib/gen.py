"""Random data sets and values."""
import math, struct

NAMED = {"RUSIN_TH_PH_TD_PD": 4, "RUSIN_TH_TD_PD": 3, "RUSIN_TH_TD": 2, "RUSIN_VH": 3, "COS_TH_TD": 2, "COS_TH": 1,
         "SCHLICK_VK": 3, "SCHLICK_TL_TK_PROJ_DPHI": 3, "COS_TK": 1, "RETRO_TL_TVL_PROJ_DPHI": 3, "STEREOGRAPHIC": 4,
         "SPHERICAL_TL_PL_TV_PV": 4, "COS_TLV": 1, "COS_TLR": 1, "ISOTROPIC_TV_TL_DPHI": 3, "ISOTROPIC_TV_PROJ_DPHI": 2,
         "ISOTROPIC_TL_TV_PROJ_DPHI": 3, "STARK_2D": 2, "STARK_3D": 3, "NEUMANN_2D": 2, "NEUMANN_3D": 3, "CARTESIAN": 6}
FILE = dict((k, k) for k in NAMED)
FILE["SCHLICK_VK"] = "SCHLICK_VH"
FILE["UNKNOWN_INPUT"] = "UNKNOWN_INPUT"
OUTS = ["INV_STERADIAN", "INV_STERADIAN_COSINE_FACTOR", "ENERGY", "RGB_COLOR", "XYZ_COLOR", "UNKNOWN_OUTPUT"]
NCI, SYM, ASYM = 0, 1, 2


def finite(r, big=300):
    k = r.random()
    if k < 0.4:
        return r.uniform(-10, 10)
    if k < 0.5:
        return float(r.randrange(-1000, 1000))
    if k < 0.55:
        return r.choice([0.0, -0.0, 1.0, -1.0])
    if k < 0.75:
        return r.choice([-1, 1]) * 10 ** r.uniform(-big, big)
    if k < 0.8:
        return r.choice([5e-324, 2.2250738585072014e-308, 1e-310, -3e-320, 1e-5, 123456789012345678.0])
    return r.choice([-1, 1]) * r.random() * 10 ** r.uniform(-8, 8)


def any_double(r):
    k = r.random()
    if k < 0.6:
        return finite(r, 308)
    if k < 0.7:
        return r.choice([math.inf, -math.inf, math.nan, 1.7976931348623157e308, -1.7976931348623157e308])
    b = bytes(r.randrange(256) for _ in range(8))
    if r.random() < 0.5:
        b = bytes([r.choice([0x23, 0x0a, 0x0d, 0x20, 0x00, 0x1a, 0xff])]) + b[1:]
    return struct.unpack("<d", b)[0]


def width(dx, dy, kind):
    return dx + dy + {NCI: 0, SYM: dy, ASYM: 2 * dy}[kind]


def many(r, usual, cap=5000):
    """A number of samples: mostly small, now and then around and beyond sizes at which code may change its ways."""
    if r.random() < .97:
        return r.choice(usual)
    return min(cap, r.choice([63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1024, 1025, 2048, 2049, 4096, 4097]))


def shape(r):
    """(dx, dy, in, out) of a data set; a named parametrization decides dx."""
    if r.random() < 0.6:
        p = r.choice(list(NAMED))
        dx = NAMED[p]
    else:
        p = "UNKNOWN_INPUT"
        dx = r.randrange(1, 8) if r.random() < .85 else r.choice([8, 9, 10, 11, 12, 15, 16, 17, 33])
    return dx, r.choice([1, 1, 2, 3, 3, 4, 7]) if r.random() < .9 else r.choice([5, 6, 8, 9, 10, 16, 17, 32]), p, r.choice(OUTS)


def row(r, dx, dy, kind, val):
    x = [val(r) for _ in range(dx)]
    y = [val(r) for _ in range(dy)]
    if kind == NCI:
        return x + y
    w = [abs(val(r)) for _ in range(dy)]
    if kind == SYM:
        return x + y + w
    w2 = [abs(val(r)) for _ in range(dy)]
    return x + y + [a - b for a, b in zip(y, w)] + [a + b for a, b in zip(y, w2)]


def bits(x):
    return struct.pack("<d", x)


def same(a, b):
    """Equal as bits, NaN payloads aside."""
    return bits(a) == bits(b) or (a != a and b != b)


def sames(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
