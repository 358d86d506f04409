"""Global value tables: tokens of the specification <-> concrete values of the library.
Token order is value order, so that index keys can be compared on tokens."""
import struct

_STR = ["", "_InitialView", "text", "text/plain", "x-unspecified", "en", "de-de", "xh", "a", "ab", "abc", "b", "A",
        "red", "green", "blue", "viewA", "viewB", "viewC", "Z\u00fcrich", "\u65e5\u672c\u8a9e", "\U0001F600x",
        "\uff46ull", "line1\nline2", "tab\there", "cr\rx", "<&>\"'", "  two  blanks  ", " ", "0", "null",
        "file:/nowhere/x.txt", "The quick brown fox jumps over the lazy dog.", "x\u0301y", "]]>", "a b c",
        "e\U00010348\U0001F600f", "uima.cas.TOP", "#1", "-5", "Long " * 60,
        "mem:0123456789abcdefghij", "m2:x", ":none", "nope:x", "x\ud800y"]
def _units(s):
    b = s.encode("utf-16-be", "surrogatepass")
    return [b[i] * 256 + b[i + 1] for i in range(0, len(b), 2)]
STR = [None] + sorted(set(_STR), key=_units)
UNITS = [[]] + [_units(s) for s in STR[1:]]
TOK = {s: i for i, s in enumerate(STR)}
_BYUNITS = {tuple(u): i for i, u in enumerate(UNITS) if i > 0}

def sub_slice_ok(units):  # no split surrogate pair needed: units are compared as they are
    return True

def hexs(tok):
    if tok == 0:
        return "n"
    return "s:" + "".join("%04x" % u for u in UNITS[tok])

_FP = [1.401298464324817e-45, 1.17549435e-38, 0.1, 0.5, 1.0, 1.5, 3.1415927, 1234567.0, 1e10, 3.4028234663852886e38, float("inf")]
def _f32(x): return struct.unpack(">f", struct.pack(">f", x))[0]
FLT = {0: 0.0}
for _i, _v in enumerate(_FP):
    FLT[_i + 1] = _f32(_v); FLT[-_i - 1] = -_f32(_v)
FLT[90] = float("nan"); FLT[91] = -0.0
_DP = [4.9406564584124654e-324, 2.2250738585072014e-308, 0.1, 0.5, 1.0, 1.0000000000000002, 3.141592653589793, 1e15 + 0.3, 1e100,
       1.7976931348623157e308, float("inf")]
DBL = {0: 0.0}
for _i, _v in enumerate(_DP):
    DBL[_i + 1] = _v; DBL[-_i - 1] = -_v
DBL[90] = float("nan"); DBL[91] = -0.0
_LP = [1, 2, 10, 2**31 - 1, 2**31, 2**32, 2**53 + 1, 2**63 - 1]
LNG = {0: 0}
for _i, _v in enumerate(_LP):
    LNG[_i + 1] = _v; LNG[-_i - 1] = -_v
LNG[-9] = -2**63

# strings that are UTF-16, for everything but the tests of what is not
ANYSTR = [0] + [i for i, s in enumerate(STR) if s is not None and "\ud800" not in s]
LEBYTES = {"float": [{"k": t, "b": list(struct.pack("<f", v))} for t, v in FLT.items()],
           "double": [{"k": t, "b": list(struct.pack("<d", v))} for t, v in DBL.items()],
           "long": [{"k": t, "b": list(struct.pack("<q", v))} for t, v in LNG.items()]}

def _fk(x): return "f:%08x" % struct.unpack(">I", struct.pack(">f", x))[0]
def _dk(x): return "d:%016x" % struct.unpack(">Q", struct.pack(">d", x))[0]
FENC = {t: _fk(v) for t, v in FLT.items()}
DENC = {t: _dk(v) for t, v in DBL.items()}
LENC = {t: "l:%d" % v for t, v in LNG.items()}
FDEC = {v: k for k, v in FENC.items()}
DDEC = {v: k for k, v in DENC.items()}
LDEC = {v: k for k, v in LENC.items()}

# tokens usable where: ORD = order-comparable, ALL = everything
F_ORD = [t for t in FLT if abs(t) < 80]
D_ORD = [t for t in DBL if abs(t) < 80]
L_ALL = list(LNG)
INTS = [0, 1, -1, 2, 3, 5, 7, 100, 2147483647, -2147483648]
BYTES = [0, 1, -1, 127, -128, 65]
SHORTS = [0, 1, -1, 32767, -32768, 300]

def enc(kind, tok):
    """token -> driver value"""
    if kind == "str": return hexs(tok)
    if kind == "float": return FENC[tok]
    if kind == "double": return DENC[tok]
    if kind == "long": return LENC[tok]
    return tok

UNKNOWN = -7777
def dec(x):
    """driver value -> token (ints stay)"""
    if isinstance(x, bool): return int(x)
    if isinstance(x, int): return x
    if x == "n": return 0
    if x.startswith("s:"):
        h = x[2:]
        return _BYUNITS.get(tuple(int(h[i:i + 4], 16) for i in range(0, len(h), 4)), UNKNOWN)
    if x.startswith("f:"):
        # any NaN is the NaN
        v = struct.unpack(">f", struct.pack(">I", int(x[2:], 16)))[0]
        return 90 if v != v else FDEC.get(x, UNKNOWN)
    if x.startswith("d:"):
        v = struct.unpack(">d", struct.pack(">Q", int(x[2:], 16)))[0]
        return 90 if v != v else DDEC.get(x, UNKNOWN)
    if x.startswith("l:"): return LDEC.get(x, UNKNOWN)
    return UNKNOWN

def rnd(rng, kind, ordered=False, xml=False):
    if kind == "int": return rng.choice(INTS) if rng.random() < .7 else rng.randint(-20, 20)
    if kind == "float": return rng.choice(F_ORD if ordered else list(FLT))
    if kind == "double": return rng.choice(D_ORD if ordered else list(DBL))
    if kind == "long": return rng.choice(L_ALL)
    if kind == "bool": return rng.randint(0, 1)
    if kind == "byte": return rng.choice(BYTES)
    if kind == "short": return rng.choice(SHORTS)
    if kind == "str": return rng.choice(ANYSTR)
    raise KeyError(kind)
