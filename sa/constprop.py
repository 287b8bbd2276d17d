"""Constant propagation through extracted transfer functions.

value(t, env) folds a term under constant operands (None when it does not fold); spec(op, vals) is the WebAssembly
result.  Used to turn a disagreement of normal forms into a definite one with a witness operand: when two forms differ
but fold to the same constants on every distinguished operand, the instance is left undetermined instead of reported.
"""
import math
import struct
from terms import *

QN = {"f32": 0x7fc00000, "f64": 0x7ff8 << 48}


def f_of(b, ty):
    return struct.unpack("<f", struct.pack("<I", b))[0] if ty == "f32" else struct.unpack("<d", struct.pack("<Q", b))[0]


def b_of(x, ty):
    if x != x:
        return QN[ty]
    if ty == "f64":
        return struct.unpack("<Q", struct.pack("<d", x))[0]
    try:
        return struct.unpack("<I", struct.pack("<f", x))[0]
    except OverflowError:
        return 0x7f800000 if x > 0 else 0xff800000


def isn(b, ty):
    return f_of(b, ty) != f_of(b, ty)


def fdiv(x, y):
    if y == 0:
        if x == 0 or x != x:
            return math.nan
        return math.copysign(math.inf, x) * math.copysign(1, y)
    return x / y


def rne(x):
    if x != x or math.isinf(x) or abs(x) >= 2 ** 52:
        return x
    r = float(round(x))
    return math.copysign(r, x)


def fun(name, x):
    if x != x or math.isinf(x):
        if name == "sqrt" and x == -math.inf: return math.nan
        return x
    if name == "ceil": return math.copysign(float(math.ceil(x)), x) if math.ceil(x) == 0 else float(math.ceil(x))
    if name == "floor": return math.copysign(float(math.floor(x)), x) if math.floor(x) == 0 else float(math.floor(x))
    if name == "trunc": return math.copysign(float(math.trunc(x)), x)
    if name == "round": return math.copysign(float(math.floor(abs(x) + 0.5)) if abs(x) < 2 ** 52 else abs(x), x)
    if name == "round_ties_even": return rne(x)
    if name == "sqrt":
        if x == 0: return x
        return math.sqrt(x) if x > 0 else math.nan
    raise KeyError(name)


def value(t, env, memo=None):
    """Bits of a term under constant operands: int, or None when it does not fold."""
    memo = {} if memo is None else memo
    if t in env:
        return env[t]
    if t in memo:
        return memo[t]
    r = _value(t, env, memo)
    memo[t] = r
    return r


def _value(t, env, memo):
    o, a = t.op, t.args
    if o == "k":
        return a[0] if isinstance(a[0], int) else None
    ev = lambda x: value(x, env, memo)
    try:
        if o in ("Add", "Sub", "Mul", "And", "Or", "Xor", "Shl", "ShrS", "ShrU", "Rotl", "Rotr", "DivS", "DivU",
                 "RemS", "RemU"):
            x, y = ev(a[1]), ev(a[2])
            if x is None or y is None: return None
            return iop(o, a[0], x, y)
        if o in ("Clz", "Ctz", "Popcnt", "Not", "Neg"):
            x = ev(a[1])
            if x is None: return None
            w = a[0]
            if o == "Clz": return w - x.bit_length()
            if o == "Ctz": return w if x == 0 else (x & -x).bit_length() - 1
            if o == "Popcnt": return bin(x).count("1")
            return (~x if o == "Not" else -x) & ((1 << w) - 1)
        if o == "sext":
            x = ev(a[2])
            return None if x is None else sgn(x & ((1 << a[0]) - 1), a[0]) & ((1 << a[1]) - 1)
        if o == "zext":
            x = ev(a[2])
            return None if x is None else x & ((1 << a[0]) - 1)
        if o == "trunc":
            x = ev(a[2])
            return None if x is None else x & ((1 << a[0]) - 1)
        if o == "ovf" and a[0] in ("Add", "Sub", "Mul"):
            x, y = ev(a[2]), ev(a[3])
            w = WIDTH.get(a[1])
            if x is None or y is None or w is None: return None
            s = a[1] in SIGNED
            if s:
                x, y = sgn(x, w), sgn(y, w)
            r = x + y if a[0] == "Add" else x - y if a[0] == "Sub" else x * y
            return int(not (-(1 << (w - 1)) <= r < 1 << (w - 1) if s else 0 <= r < 1 << w))
        if o in ("Eq", "LtS", "LtU"):
            x, y = ev(a[1]), ev(a[2])
            if x is None or y is None: return None
            w = a[0]
            if o == "Eq": return int(x == y)
            if o == "LtS": return int(sgn(x, w) < sgn(y, w))
            return int(x < y)
        if o == "not":
            x = ev(a[0])
            return None if x is None else 1 - x
        if o in ("or", "and"):
            x, y = ev(a[0]), ev(a[1])
            if x is None or y is None: return None
            return (x | y) if o == "or" else (x & y)
        if o in ("FEq", "FLt", "FLe"):
            x, y = ev(a[1]), ev(a[2])
            if x is None or y is None: return None
            x, y = f_of(x, a[0]), f_of(y, a[0])
            return int({"FEq": x == y, "FLt": x < y, "FLe": x <= y}[o])
        if o == "isnan":
            x = ev(a[1])
            return None if x is None else int(isn(x, a[0]))
        if o == "is_infinite":
            x = ev(a[1])
            return None if x is None else int(math.isinf(f_of(x, a[0])))
        if o == "is_sign_negative":
            x = ev(a[1])
            return None if x is None else x >> (FLOATS[a[0]] - 1)
        if o in ("FAdd", "FSub", "FMul", "FDiv", "Fmin", "Fmax", "Fcopysign"):
            x, y = ev(a[1]), ev(a[2])
            if x is None or y is None: return None
            ty = a[0]
            if o == "Fcopysign":
                s = 1 << (FLOATS[ty] - 1)
                return (x & (s - 1)) | (y & s)
            x, y = f_of(x, ty), f_of(y, ty)
            if o == "FDiv": return b_of(fdiv(x, y), ty)
            if o == "Fmin": return b_of(y if x != x else x if y != y else min(x, y), ty) if not (x == 0 and y == 0) else None
            if o == "Fmax": return b_of(y if x != x else x if y != y else max(x, y), ty) if not (x == 0 and y == 0) else None
            return b_of({"FAdd": lambda: x + y, "FSub": lambda: x - y, "FMul": lambda: x * y}[o](), ty)
        if o in ("FNeg", "Fabs"):
            x = ev(a[1])
            if x is None: return None
            s = 1 << (FLOATS[a[0]] - 1)
            return x ^ s if o == "FNeg" else x & (s - 1)
        if o in ("Fceil", "Ffloor", "Ftrunc", "Fround", "Fround_ties_even", "Fsqrt"):
            x = ev(a[1])
            if x is None: return None
            return b_of(fun(o[1:], f_of(x, a[0])), a[0])
        if o == "f2f":
            x = ev(a[2])
            return None if x is None else b_of(f_of(x, a[0]), a[1])
        if o in ("fbits", "ffrom"):
            return ev(a[1])
        if o == "f2i":
            x = ev(a[3])
            return None if x is None else f2i(f_of(x, a[0]), a[1], a[2])
        if o == "i2f":
            x = ev(a[3])
            return None if x is None else i2f(sgn(x, a[1]) if a[0] == "i" else x, a[2])
    except (OverflowError, ZeroDivisionError, ValueError, KeyError):
        return None
    return None


def iop(o, w, x, y):
    m = (1 << w) - 1
    sx, sy = sgn(x, w), sgn(y, w)
    if o == "Add": return (x + y) & m
    if o == "Sub": return (x - y) & m
    if o == "Mul": return (x * y) & m
    if o == "And": return x & y
    if o == "Or": return x | y
    if o == "Xor": return x ^ y
    s = y % w
    if o == "Shl": return (x << s) & m
    if o == "ShrU": return x >> s
    if o == "ShrS": return (sx >> s) & m
    if o == "Rotl": return ((x << s) | (x >> (w - s))) & m
    if o == "Rotr": return ((x >> s) | (x << (w - s))) & m
    if y == 0: return None
    if o == "DivU": return x // y
    if o == "RemU": return x % y
    q = abs(sx) // abs(sy)
    if (sx < 0) != (sy < 0): q = -q
    if o == "DivS": return q & m
    return (sx - q * sy) & m


def f2i(x, s, w):
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s == "i" else (0, (1 << w) - 1)
    if x != x: return 0
    if x == math.inf: r = hi
    elif x == -math.inf: r = lo
    else: r = min(max(int(x), lo), hi)
    return r & ((1 << w) - 1)


def i2f(v, ty):
    if ty == "f64":
        return b_of(float(v), "f64")
    p = 24
    s, m = (-1, -v) if v < 0 else (1, v)
    sh = m.bit_length() - p
    if sh > 0:
        q, r, h = m >> sh, m & ((1 << sh) - 1), 1 << (sh - 1)
        if r > h or (r == h and q & 1): q += 1
        m = q << sh
    return b_of(float(s * m), "f32")


# ---- WebAssembly -------------------------------------------------------------------------------------
def spec(op, v):
    """Result bits, or 'trap'; floats NaN results compare equal to any NaN."""
    ty, o = op[:3].lower(), op[3:]
    if ty in ("i32", "i64"):
        w = int(ty[1:])
        if o in ("Add", "Sub", "Mul", "And", "Or", "Xor", "Shl", "ShrS", "ShrU", "Rotl", "Rotr"):
            return iop(o, w, *v)
        if o in ("DivS", "DivU", "RemS", "RemU"):
            if v[1] == 0: return "trap"
            if o == "DivS" and sgn(v[0], w) == -(1 << (w - 1)) and sgn(v[1], w) == -1: return "trap"
            return iop(o, w, *v)
        if o == "Clz": return w - v[0].bit_length()
        if o == "Ctz": return w if v[0] == 0 else (v[0] & -v[0]).bit_length() - 1
        if o == "Popcnt": return bin(v[0]).count("1")
        if o == "Eqz": return int(v[0] == 0)
        if o in ("Eq", "Ne"): return int((v[0] == v[1]) == (o == "Eq"))
        if o[:2] in ("Lt", "Gt", "Le", "Ge") and o[2:] in ("S", "U"):
            x, y = (sgn(v[0], w), sgn(v[1], w)) if o[2] == "S" else v
            return int({"Lt": x < y, "Gt": x > y, "Le": x <= y, "Ge": x >= y}[o[:2]])
        if o.startswith("Extend") and o[6:-1].isdigit():
            n = int(o[6:-1])
            return sgn(v[0] & ((1 << n) - 1), n) & ((1 << w) - 1)
        if op == "I32WrapI64": return v[0] & 0xffffffff
        if op == "I64ExtendI32S": return sgn(v[0], 32) & ((1 << 64) - 1)
        if op == "I64ExtendI32U": return v[0]
        if "Reinterpret" in o: return v[0]
        if "Trunc" in o:
            sat = "Sat" in o
            ft = o[8:11].lower() if sat else o[5:8].lower()
            x = f_of(v[0], ft)
            s = "i" if o[-1] == "S" else "u"
            if not sat:
                if x != x or math.isinf(x): return "trap"
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s == "i" else (0, (1 << w) - 1)
                if not lo <= int(x) <= hi: return "trap"
            return f2i(x, s, w)
    else:
        if "Reinterpret" in o: return v[0]
        if o in ("Add", "Sub", "Mul", "Div", "Min", "Max", "Eq", "Ne", "Lt", "Gt", "Le", "Ge"):
            x, y = f_of(v[0], ty), f_of(v[1], ty)
            if o in ("Eq", "Ne", "Lt", "Gt", "Le", "Ge"):
                return int({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Gt": x > y, "Le": x <= y, "Ge": x >= y}[o])
            if o == "Div": return b_of(fdiv(x, y), ty)
            if o in ("Min", "Max"):
                if x != x or y != y: return QN[ty]
                if x == 0 and y == 0:
                    s = (v[0] | v[1]) if o == "Min" else (v[0] & v[1])
                    return s
                return v[0] if (x < y) == (o == "Min") else v[1]
            return b_of({"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y}[o](), ty)
        s = 1 << (FLOATS[ty] - 1)
        if o == "Copysign": return (v[0] & (s - 1)) | (v[1] & s)
        if o == "Abs": return v[0] & (s - 1)
        if o == "Neg": return v[0] ^ s
        if o in ("Ceil", "Floor", "Trunc", "Sqrt"): return b_of(fun(o.lower(), f_of(v[0], ty)), ty)
        if o == "Nearest": return b_of(rne(f_of(v[0], ty)), ty)
        if op == "F64PromoteF32": return b_of(f_of(v[0], "f32"), "f64")
        if op == "F32DemoteF64": return b_of(f_of(v[0], "f64"), "f32")
        if o.startswith("Convert"):
            w = int(o[8:10])
            return i2f(sgn(v[0], w) if o[-1] == "S" else v[0], ty)
    raise KeyError(op)


def grid(ty):
    if ty in ("i32", "i64"):
        w = int(ty[1:])
        m = (1 << w) - 1
        b = {0, 1, 2, 3, 5, 7, 8, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 32767, 32768, 65535, 65536,
             0x12345678, 0xdeadbeef}
        b |= {m - x for x in list(b)}
        b |= {1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1, 1 << (w // 2), (1 << (w // 2)) - 1}
        if w == 64:
            b |= {0x80000000, 0x7fffffff, 0xffffffff, 0x100000000, 0x0123456789abcdef, 0xfedcba9876543210,
                  (1 << 53) + 1, (1 << 63) + (1 << 39), 0x8000_0080_0000_0001}
        else:
            b |= {(1 << 24) + 1, 0x7fffffbf, 0xffffff7f, 0x01000003}
        return sorted(x & m for x in b)
    w = FLOATS[ty]
    xs = [0.0, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 2.5, 3.0, 3.5, 4.5, 100.7, 0.49999999999999994, 1e-40, 5e-324, 1.1,
          2.0 ** 31 - 1, 2.0 ** 31, 2.0 ** 31 - 128, 2.0 ** 32, 2.0 ** 32 - 256, 2.0 ** 32 - 1, 2.0 ** 63, 2.0 ** 63 - 1024,
          2.0 ** 64, 2.0 ** 64 - 2048, 2.0 ** 23 + 0.5, 2.0 ** 24, 2.0 ** 52 + 0.5, 2.0 ** 53, 1e10, 1e20, 1e38, 1e300, 4.0, 9.0,
          2.0 ** 31 + 0.5, 2.0 ** 31 + 1, 2147483647.9, 0.9999, 4294967295.5]
    bs = set()
    for x in xs:
        for y in (x, -x):
            b = b_of(y, ty)
            bs |= {b}
            if 0 < b & ((1 << (w - 1)) - 1) < (0x7f800000 if w == 32 else 0x7ff0 << 48):
                bs |= {b - 1, b + 1}
    inf = b_of(math.inf, ty)
    bs |= {1 << (w - 1), inf, inf | 1 << (w - 1), QN[ty], QN[ty] | 1 << (w - 1), inf + 1}
    return sorted(bs)


def witness(op, params, arms):
    """An operand on which the guarded results definitely differ from the specification: (text, is_trap) or None.
    arms: objects with kind ('value'/'trap'/...), value, conds over T('opnd', i)."""
    import itertools
    gs = [grid(p) for p in params]
    if len(gs) == 2 and len(gs[0]) * len(gs[1]) > 3000:
        gs = [g[:: max(1, len(g) // 48)] for g in gs]
    rt = None
    for vals in itertools.product(*gs):
        want = spec(op, list(vals))
        env = {T("opnd", i): v for i, v in enumerate(vals)}
        memo = {}
        hit, unknown = [], False
        for a in arms:
            for c in a.conds:
                ok = True
                for t, (pol, s) in c.items():
                    x = value(t, env, memo)
                    if x is None:
                        ok = None
                        break
                    if (x in s) != pol:
                        ok = False
                        break
                if ok is None:
                    unknown = True
                elif ok:
                    hit.append(a)
                    break
        if unknown or len(hit) != 1:
            if not hit and not unknown:
                return "no result at %s" % show(vals, params), False
            continue
        a = hit[0]
        if a.kind == "trap":
            if want != "trap":
                return "traps at %s" % show(vals, params), True
            continue
        if a.kind != "value" or a.value is None:
            continue
        if want == "trap":
            return "does not trap at %s" % show(vals, params), True
        got = value(a.value, env, memo)
        if got is None:
            continue
        rty = result_type(op)
        if got != want:
            if rty in FLOATS and isn(got, rty) and isn(want, rty):
                continue
            return "gives %#x at %s, expected %#x" % (got, show(vals, params), want), False
    return None


def result_type(op):
    import wasmspec
    return wasmspec.SIG[op][1][0]


def show(vals, params):
    return "(" + ", ".join(("%r" % f_of(v, p)) if p in FLOATS else "%#x" % v for v, p in zip(vals, params)) + ")"
