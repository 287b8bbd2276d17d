"""What each operator computes, from the WebAssembly specification, as finite partitions of its operand space, and the
comparison of a handler's guarded results with it.

An operand partition ("class") fixes every order / sign / NaN relation the specification distinguishes; the guards of a
handler are evaluated on the class (three-valued), the results that remain must be what the specification says there.
Float-to-integer conversions use intervals over the ordered floats instead, with exact bounds.
"""
import struct
from fractions import Fraction
from terms import *
from engine import fact_and

A = T("opnd", 0)
B = T("opnd", 1)


class Bad(Exception):
    pass


# ---- classes ---------------------------------------------------------------------------------------
class Class:
    """atoms: {term: value} known boolean atoms; notin: {term: set of excluded values}; consts: {opnd: const}."""
    def __init__(self, name, atoms=None, consts=None, notin=None):
        self.name, self.atoms, self.consts, self.notin = name, atoms or {}, consts or {}, notin or {}

    def truth(self, t, fact):
        """Can the fact about term t hold in this class?"""
        pol, vals = fact
        if t.op == "not":
            t2 = t.args[0]
            return self.truth(t2, (pol, frozenset(1 - v for v in vals)))
        if t in self.atoms:
            return (self.atoms[t] in vals) == pol
        s = subst(t, self.consts) if self.consts else t
        if s is not t:
            if s.op == "not":
                return self.truth(s, fact)
            if is_k(s):
                return (s.args[0] in vals) == pol
            if s in self.atoms:
                return (self.atoms[s] in vals) == pol
            b = const_atom(s)
            if b is not None:
                return (int(b) in vals) == pol
        if t in self.notin and pol and vals and vals <= self.notin[t]:
            return False
        return True


_sc = {}


def subst(t, m):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return tuple(subst(x, m) for x in t)
        return t
    if t in m:
        return m[t]
    mk_ = frozenset(m.items())
    r = _sc.get((t, mk_))
    if r is not None:
        return r
    a = tuple(subst(x, m) for x in t.args)
    if a == t.args:
        r = t
    else:
        r = rebuild(t.op, a)
    _sc[(t, mk_)] = r
    return r


INTOPS = {"Add", "Sub", "Mul", "And", "Or", "Xor", "Shl", "ShrS", "ShrU", "Rotl", "Rotr", "DivS", "DivU", "RemS",
          "RemU", "Clz", "Ctz", "Popcnt", "Not", "Neg"}


def rebuild(op, a):
    if op in INTOPS:
        return mk(op, *a)
    if op == "sext": return sext(a[2], a[0], a[1])
    if op == "zext": return zext(a[2], a[0], a[1])
    if op == "trunc": return trunc(a[2], a[1], a[0])
    if op == "Eq": return cmp_int("Eq", "i%d" % a[0], a[1], a[2])
    if op == "LtS": return cmp_int("Lt", "i%d" % a[0], a[1], a[2])
    if op == "LtU": return cmp_int("Lt", "u%d" % a[0], a[1], a[2])
    if op == "not": return bnot(a[0])
    if op in ("FAdd", "FMul"):
        x, y = a[1:]
        return T(op, a[0], x, y) if key(x) <= key(y) else T(op, a[0], y, x)
    if op in ("FEq", "FLt", "FLe"):
        return cmp_float(op[1:], a[0], a[1], a[2])
    if op == "fbits":
        return K(a[1].args[0], "i%d" % FLOATS[a[0]]) if is_k(a[1]) else T(op, *a)
    if op == "ffrom":
        return K(a[1].args[0], a[0]) if is_k(a[1]) else T(op, *a)
    return T(op, *a)


def fval(k):
    ty = k.args[1]
    if ty == "f32": return struct.unpack("<f", struct.pack("<I", k.args[0]))[0]
    return struct.unpack("<d", struct.pack("<Q", k.args[0]))[0]


def const_atom(t):
    """Truth of a float atom over constants."""
    if t.op in ("FEq", "FLt", "FLe") and is_k(t.args[1]) and is_k(t.args[2]):
        x, y = fval(t.args[1]), fval(t.args[2])
        return {"FEq": x == y, "FLt": x < y, "FLe": x <= y}[t.op]
    if t.op == "isnan" and is_k(t.args[1]):
        x = fval(t.args[1])
        return x != x
    if t.op == "is_sign_negative" and is_k(t.args[1]):
        return bool(t.args[1].args[0] >> (FLOATS[t.args[0]] - 1))
    return None


def feasible(arms, cls):
    r = []
    for a in arms:
        for c in a.conds:
            if all(cls.truth(t, f) for t, f in c.items()):
                r.append((a, c))
                break
    return r


def int_pair_classes(w):
    r = []
    eq = cmp_int("Eq", "i%d" % w, A, B)
    for s in (-1, 0, 1):
        for u in (-1, 0, 1):
            if (s == 0) != (u == 0):
                continue
            at = {eq: int(s == 0)}
            for o, v in (("S", s), ("U", u)):
                at[T("Lt" + o, w, A, B)] = int(v < 0)
                at[T("Lt" + o, w, B, A)] = int(v > 0)
            r.append((Class("signed %s, unsigned %s" % ("<=>"[s + 1], "<=>"[u + 1]), at), s, u))
    return r


def float_pair_classes(ty):
    """NaN / zero sign / order relations of two floats: (Class, kindA, kindB, relation)."""
    w = FLOATS[ty]
    pz, nz = K(0, ty), K(1 << (w - 1), ty)
    nan = K(0x7fc00000 if w == 32 else 0x7ff8 << 48, ty)
    nnan = K(nan.args[0] | 1 << (w - 1), ty)
    r = []
    kinds = ("nan", "-nan", "-0", "+0", "neg", "pos")
    for ka in kinds:
        for kb in kinds:
            rels = (None,)
            if "nan" in ka or "nan" in kb:
                rels = ("un",)
            elif ka in ("-0", "+0") and kb in ("-0", "+0"):
                rels = ("eq",)
            elif ka == kb:
                rels = ("lt", "eq", "gt")
            else:
                o = {"neg": -1, "-0": 0, "+0": 0, "pos": 1}
                rels = ("lt" if o[ka] < o[kb] else "gt",)
            for rel in rels:
                at, co = {}, {}
                for x, y, rl in ((A, B, rel), (B, A, {"lt": "gt", "gt": "lt"}.get(rel, rel))):
                    at[T("FLt", ty, x, y)] = int(rl == "lt")
                    at[T("FLe", ty, x, y)] = int(rl in ("lt", "eq"))
                    at[T("FEq", ty, x, y)] = int(rl == "eq")
                for x, k in ((A, ka), (B, kb)):
                    at[T("isnan", ty, x)] = int("nan" in k)
                    sg = int(k in ("-nan", "-0", "neg"))
                    at[T("is_sign_negative", ty, x)] = sg
                    at[T("LtS", w, T("fbits", ty, x), K(0, "i%d" % w))] = sg
                    for z in (pz, nz):
                        e = int(k in ("-0", "+0"))
                        at[T("FEq", ty, x, z)] = at[T("FEq", ty, z, x)] = e
                        lt = int(k == "neg")
                        gt = int(k == "pos")
                        at[T("FLt", ty, x, z)], at[T("FLt", ty, z, x)] = lt, gt
                        at[T("FLe", ty, x, z)], at[T("FLe", ty, z, x)] = int(lt or e), int(gt or e)
                    if k == "-0": co[x] = nz
                    if k == "+0": co[x] = pz
                r.append((Class("%s,%s,%s" % (ka, kb, rel), at, co), ka, kb, rel))
    return r


class SArm:
    """Guarded result: kind 'value' or 'trap' (or 'other'), value over opnd terms."""
    __slots__ = ("kind", "value", "conds", "why")

    def __init__(self, kind, value, conds, why=""):
        self.kind, self.value, self.conds, self.why = kind, value, conds, why


def same(v, want, consts=None):
    if v is want:
        return True
    if consts:
        return subst(v, consts) is subst(want, consts)
    return False


def short(t):
    return fmt(t)[:160]


# ---- per operator ----------------------------------------------------------------------------------
def parts(op):
    ty = op[:3].lower()
    return ty, op[3:]


INTBIN = {"Add": "Add", "Sub": "Sub", "Mul": "Mul", "And": "And", "Or": "Or", "Xor": "Xor", "Shl": "Shl",
          "ShrS": "ShrS", "ShrU": "ShrU", "Rotl": "Rotl", "Rotr": "Rotr"}
FBIN = {"Add": "FAdd", "Sub": "FSub", "Mul": "FMul", "Div": "FDiv"}
FUN = {"Abs": "Fabs", "Neg": "FNeg", "Ceil": "Fceil", "Floor": "Ffloor", "Trunc": "Ftrunc",
       "Nearest": "Fround_ties_even", "Sqrt": "Fsqrt"}


def exact_forms(op):
    """Accepted normal forms of the result of a total operator, or None."""
    ty, o = parts(op)
    if ty in ("i32", "i64"):
        w = int(ty[1:])
        if o in INTBIN:
            return [mk(INTBIN[o], w, A, B)]
        if o in ("Clz", "Ctz", "Popcnt"):
            t = T(o, w, A)
            return [t] + ([zext(t, 32, 64), sext(t, 32, 64)] if w == 64 else [])
        if o.startswith("Extend") and o.endswith("S") and o[6:-1].isdigit():
            n = int(o[6:-1])
            return [sext(trunc(A, w, n), n, w)]
        if op == "I32WrapI64": return [trunc(A, 64, 32)]
        if op == "I64ExtendI32S": return [sext(A, 32, 64)]
        if op == "I64ExtendI32U": return [zext(A, 32, 64)]
        if op == "I32ReinterpretF32": return [T("fbits", "f32", A)]
        if op == "I64ReinterpretF64": return [T("fbits", "f64", A)]
    else:
        if o in FBIN:
            m = FBIN[o]
            x, y = A, B
            if m in ("FAdd", "FMul") and key(y) < key(x): x, y = y, x
            return [T(m, ty, x, y)]
        if o in FUN:
            r = [T(FUN[o], ty, A)]
            return r
        if o == "Copysign": return [T("Fcopysign", ty, A, B)]
        if op == "F64PromoteF32": return [T("f2f", "f32", "f64", A)]
        if op == "F32DemoteF64": return [T("f2f", "f64", "f32", A)]
        if op == "F32ReinterpretI32": return [T("ffrom", "f32", A)]
        if op == "F64ReinterpretI64": return [T("ffrom", "f64", A)]
        if o.startswith("Convert"):
            return [T("i2f", "i" if o[-1] == "S" else "u", int(o[8:10]), ty, A)]
    return None


def fnorm(v):
    """Bit-level spellings of abs / neg / copysign."""
    if v.op == "ffrom":
        ty, b = v.args
        w = FLOATS[ty]
        m = K((1 << (w - 1)) - 1, "i%d" % w)
        s = K(1 << (w - 1), "i%d" % w)
        if b.op == "And" and b.args[1].op == "fbits" and b.args[2] is m:
            return T("Fabs", ty, b.args[1].args[1])
        if b.op == "Xor" and b.args[1].op == "fbits" and b.args[2] is s:
            return T("FNeg", ty, b.args[1].args[1])
        if b.op == "Or":
            for x, y in ((b.args[1], b.args[2]), (b.args[2], b.args[1])):
                if x.op == "And" and x.args[2] is m and y.op == "And" and y.args[2] is s \
                        and x.args[1].op == "fbits" and y.args[1].op == "fbits":
                    return T("Fcopysign", ty, x.args[1].args[1], y.args[1].args[1])
    return v


INTCMP = {"Eq": lambda s, u: s == 0, "Ne": lambda s, u: s != 0,
          "LtS": lambda s, u: s < 0, "LtU": lambda s, u: u < 0, "GtS": lambda s, u: s > 0, "GtU": lambda s, u: u > 0,
          "LeS": lambda s, u: s <= 0, "LeU": lambda s, u: u <= 0, "GeS": lambda s, u: s >= 0, "GeU": lambda s, u: u >= 0}
FCMP = {"Eq": ("eq",), "Ne": ("lt", "gt", "un"), "Lt": ("lt",), "Gt": ("gt",), "Le": ("lt", "eq"), "Ge": ("gt", "eq")}


def check(op, arms):
    """Problems found comparing guarded results with the specification of a numeric operator: [(what, is_trap_issue)]"""
    ty, o = parts(op)
    probs = []

    def need(cls, want_trap, ok, what):
        fs = feasible(arms, cls)
        if not fs:
            probs.append(("no result for operands %s" % cls.name, want_trap))
        for a, c in fs:
            if want_trap:
                if a.kind != "trap":
                    probs.append(("does not trap for operands %s (%s)" % (cls.name, short(a.value) if a.value is not None else a.kind), True))
            elif a.kind == "trap":
                probs.append(("traps for operands %s" % cls.name, True))
            elif a.kind != "value" or not ok(a, c):
                probs.append(("gives %s for operands %s, expected %s" % (
                    short(a.value) if a.value is not None else a.kind + " " + a.why, cls.name, what), False))

    forms = exact_forms(op)
    if forms is not None:
        for a in arms:
            if a.kind == "trap":
                probs.append(("traps", True))
            elif a.kind != "value":
                probs.append((a.why or a.kind, False))
            else:
                co = consts_of(a.conds)
                v = fnorm(a.value)
                if not any(same(v, f, co) for f in forms):
                    probs.append(("gives %s, expected %s" % (short(a.value), short(forms[0])), False))
        if not arms:
            probs.append(("no result", False))
        return probs

    if ty in ("i32", "i64") and o in INTCMP:
        for cls, s, u in int_pair_classes(int(ty[1:])):
            want = K(int(INTCMP[o](s, u)), "i32")
            need(cls, False, lambda a, c: a.value is want, short(want))
        return probs
    if o == "Eqz":
        w = int(ty[1:])
        z = K(0, ty)
        for cls, v in ((Class("0", consts={A: z}), 1), (Class("non-zero", notin={A: {0}}), 0)):
            need(cls, False, lambda a, c: a.value is K(v, "i32"), str(v))
        return probs
    if ty in FLOATS and o in FCMP:
        for cls, ka, kb, rel in float_pair_classes(ty):
            want = K(int(rel in FCMP[o]), "i32")
            need(cls, False, lambda a, c: a.value is want, short(want))
        return probs
    if ty in FLOATS and o in ("Min", "Max"):
        for cls, ka, kb, rel in float_pair_classes(ty):
            need(cls, False, lambda a, c: minmax_ok(ty, o, a.value, cls, ka, kb, rel), o.lower())
        return probs
    if o in ("DivS", "DivU", "RemS", "RemU"):
        w = int(ty[1:])
        m1, mn, z = K(-1, ty), K(1 << (w - 1), ty), K(0, ty)
        t = T(o, w, A, B)
        for cls in (Class("divisor 0", consts={B: z}),):
            need(cls, True, None, "trap")
        if o[-1] == "S":
            c = Class("MIN,-1", consts={A: mn, B: m1})
            if o == "DivS":
                need(c, True, None, "trap")
            else:
                need(c, False, lambda a, cc: a.value is t or a.value is z, "0")
            c = Class("x,-1", consts={B: m1}, notin={A: {1 << (w - 1)}})
            need(c, False, lambda a, cc: a.value is t or (o == "RemS" and a.value is z) or
                 (o == "DivS" and a.value is mk("Neg", w, A)), short(t))
            c = Class("x,y", notin={B: {0, m1.args[0]}})
        else:
            c = Class("x,y", notin={B: {0}})
        need(c, False, lambda a, cc: same(a.value, t, consts_of([cc])), short(t))
        return probs
    if "Trunc" in o:
        return check_trunc(op, arms)
    raise Bad("no specification for " + op)


def consts_of(conds):
    """Operands fixed to a constant by the guard."""
    r = {}
    if len(conds) == 1:
        for t, (p, s) in conds[0].items():
            if p and len(s) == 1 and t.op == "opnd":
                r[t] = K(next(iter(s)), {8: "i8", 16: "i16", 32: "i32", 64: "i64"}.get(64, "i64"))
    return {}      # widths of operands are not tracked here: keep terms as they are


def minmax_ok(ty, o, v, cls, ka, kb, rel):
    w = FLOATS[ty]
    v = subst(v, cls.consts)
    if rel == "un":
        if is_k(v):
            x = fval(v)
            return x != x
        for n, k in ((A, ka), (B, kb)):
            if v is n and "nan" in k:
                return True
        return v.op in ("FAdd", "FSub", "FMul") and set(v.args[1:]) == {A, B}
    lo = {"lt": A, "gt": B}.get(rel)
    want = {A, B} if rel == "eq" else ({lo} if o == "Min" else {A if lo is B else B})
    if ka in ("-0", "+0") and kb in ("-0", "+0"):
        neg = (ka == "-0" or kb == "-0") if o == "Min" else (ka == "-0" and kb == "-0")
        z = K(1 << (w - 1) if neg else 0, ty)
        if v is z: return True
        if v.op == "Fmin" or v.op == "Fmax":
            return ka == kb and v.op == "F" + o.lower()
        return False
    want = {subst(x, cls.consts) for x in want}
    if v in want:
        return True
    if v.op == "F" + o.lower() and {subst(x, cls.consts) for x in (A, B)} == set(v.args[1:]):
        return True
    return False


# ---- float to integer: intervals over the ordered floats ---------------------------------------------
def nfloats(ty):
    return {"f32": 0x7f800000, "f64": 0x7ff0 << 48}[ty]


def fl(ty, n):
    """n-th float in order: 0 is +0 (and -0), +-nfloats is +-inf."""
    b = abs(n)
    if ty == "f32": x = struct.unpack("<f", struct.pack("<I", b))[0]
    else: x = struct.unpack("<d", struct.pack("<Q", b))[0]
    return -x if n < 0 else x


def rnd(ty, v):
    """Round an integer to the nearest float of the type (ties to even), as `as` does."""
    if v == 0:
        return 0.0
    p = 24 if ty == "f32" else 53
    s, m = (-1, -v) if v < 0 else (1, v)
    sh = m.bit_length() - p
    if sh > 0:
        q, r = m >> sh, m & ((1 << sh) - 1)
        h = 1 << (sh - 1)
        if r > h or (r == h and q & 1):
            q += 1
        m = q << sh
    return float(s * m)


def fconst(t, ty):
    """Constant float value of a term, or None."""
    if is_k(t) and t.args[1] == ty:
        return fval(t)
    if t.op == "i2f" and is_k(t.args[3]) and t.args[2] == ty:
        v = t.args[3].args[0]
        return rnd(ty, sgn(v, t.args[1]) if t.args[0] == "i" else v)
    if t.op == "FNeg":
        x = fconst(t.args[1], ty)
        return None if x is None else -x
    if t.op == "f2f" and t.args[1] == ty:
        x = fconst(t.args[2], t.args[0])
        if x is None: return None
        return struct.unpack("<f", struct.pack("<f", x))[0] if ty == "f32" else x
    if t.op in ("FAdd", "FSub", "FMul") and ty == "f64":
        x, y = fconst(t.args[1], ty), fconst(t.args[2], ty)
        if x is None or y is None: return None
        return {"FAdd": x + y, "FSub": x - y, "FMul": x * y}[t.op]
    return None


def is_inf(x):
    return x in (float("inf"), float("-inf"))


def trunc_int(x):
    return int(x)


def mono(t, ty):
    """Monotone function of the operand as a python function on floats, or None."""
    if t is A:
        return lambda x: x
    if t.op == "Ftrunc" and t.args[1] is A:
        return lambda x: x if is_inf(x) else (float(int(x)))
    if t.op == "f2f" and t.args[0] == "f32" and t.args[1] == "f64" and t.args[2] is A:
        return lambda x: x
    if t.op == "f2f" and t.args[0] == "f32" and t.args[1] == "f64":
        f = mono(t.args[2], "f32")
        return f
    return None


def atom_set(t, ty, val):
    """Intervals of ordinals (non-NaN operands) on which atom t has value val; None when not an interval fact."""
    N = nfloats(ty)
    full = [(-N, N)]
    if t.op == "isnan" and mono(t.args[1], ty):
        return [] if val else full
    if t.op in ("FLt", "FLe", "FEq"):
        aty = t.args[0]
        x, y = t.args[1], t.args[2]
        f, c = mono(x, ty), fconst(y, aty)
        g, d = mono(y, ty), fconst(x, aty)
        if f is not None and c is not None:
            if c != c: return [] if val else full
            if t.op == "FLt": pred, up = (lambda v: v < c), False
            elif t.op == "FLe": pred, up = (lambda v: v <= c), False
            else: return band(f, c, ty, val)
        elif g is not None and d is not None:
            f = g
            if d != d: return [] if val else full
            if t.op == "FLt": pred, up = (lambda v: d < v), True
            elif t.op == "FLe": pred, up = (lambda v: d <= v), True
            else: return band(f, d, ty, val)
        else:
            return None
        h = lambda n: pred(f(fl(ty, n)))
        lo, hi = -N, N
        # pred is monotone: increasing in n iff up
        if h(lo) == h(hi):
            r = full if h(lo) else []
        else:
            a, b = lo, hi
            while b - a > 1:
                m = (a + b) // 2
                if h(m) == h(lo): a = m
                else: b = m
            r = [(b, hi)] if up else [(lo, a)]
        return r if val else compl(r, N)
    if t.op in ("isinf", "is_infinite") and t.args[1] is A:
        r = [(-N, -N), (N, N)]
        return r if val else compl(r, N)
    if t.op in ("isfinite", "is_finite") and t.args[1] is A:
        r = [(-N + 1, N - 1)]
        return r if val else compl(r, N)
    if t.op == "is_sign_negative" and t.args[1] is A:
        r = [(-N, 0)]       # -0 shares ordinal 0
        return r if val else [(0, N)]
    return None


def band(f, c, ty, val):
    N = nfloats(ty)
    lo = first(lambda n: f(fl(ty, n)) >= c, N)
    hi = first(lambda n: f(fl(ty, n)) > c, N)
    r = [(lo, hi - 1)] if lo is not None and (hi is None or hi > lo) else []
    if lo is not None and hi is None: r = [(lo, N)]
    return r if val else compl(r, N)


def first(p, N):
    if not p(N): return None
    a, b = -N, N
    if p(a): return a
    while b - a > 1:
        m = (a + b) // 2
        if p(m): b = m
        else: a = m
    return b


def compl(r, N):
    out, cur = [], -N
    for a, b in sorted(r):
        if a > cur: out.append((cur, a - 1))
        cur = max(cur, b + 1)
    if cur <= N: out.append((cur, N))
    return out


def inter(r, s):
    return [(max(a, c), min(b, d)) for a, b in r for c, d in s if max(a, c) <= min(b, d)]


def check_trunc(op, arms):
    w = int(op[1:3])
    sat = "Sat" in op
    i = op.index("TruncSat") + 8 if sat else op.index("Trunc") + 5
    ty = op[i:i + 3].lower()
    s = op[-1]
    N = nfloats(ty)
    mn, mx = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s == "S" else (0, (1 << w) - 1)

    def rng(lo, hi):
        """operands whose truncation lies in [lo, hi]"""
        def tr(n):
            x = fl(ty, n)
            return x if is_inf(x) else int(x)
        a = first(lambda n: tr(n) >= lo, N)
        b = first(lambda n: tr(n) > hi, N)
        return (a, (b - 1) if b is not None else N)
    okr = rng(mn, mx)
    probs = []
    covered, nan_done = [], False
    for a in arms:
        for c in a.conds:
            reg, nan, und = [(-N, N)], True, None
            for t, (pol, vals) in c.items():
                vs = [v for v in (0, 1) if (v in vals) == pol]
                if t.op == "isnan" and mono(t.args[1], ty):
                    if 1 not in vs: nan = False
                elif t.op in ("FLt", "FLe", "FEq", "isfinite", "is_finite", "isinf", "is_infinite"):
                    if t.op == "isfinite" or t.op == "is_finite":
                        if 0 not in vs: nan = False
                    elif 0 not in vs: nan = False     # ordered comparisons are false on NaN
                if len(vs) == 1:
                    r = atom_set(t, ty, vs[0])
                    if r is None:
                        und = t
                    else:
                        reg = inter(reg, r)
                elif not vs:
                    reg, nan = [], False
            if not reg and not nan:
                continue
            if und is not None:
                probs.append(("guard %s is outside the interval domain" % short(und), False))
                continue
            covered += reg
            if nan:
                nan_done = True
            desc = lambda x, y: "[%r, %r]" % (fl(ty, x), fl(ty, y))
            if nan:
                if sat:
                    v = a.value
                    z = a.kind == "value" and (v is K(0, "i%d" % w) or f2i_ok(v, ty, w))
                    if not z: probs.append(("NaN gives %s, expected 0" % (short(v) if v is not None else a.kind), a.kind == "trap"))
                elif a.kind != "trap":
                    probs.append(("does not trap for NaN", True))
            for x, y in reg:
                inside = inter([(x, y)], [okr])
                outside = [q for q in ((x, min(y, okr[0] - 1)), (max(x, okr[1] + 1), y)) if q[0] <= q[1]]
                if not sat:
                    if a.kind == "trap":
                        if inside: probs.append(("traps for operands in %s" % desc(*inside[0]), True))
                        continue
                    if outside:
                        probs.append(("does not trap for operands in %s" % desc(*outside[0]), True))
                elif a.kind == "trap":
                    probs.append(("traps for operands in %s" % desc(x, y), True))
                    continue
                if a.kind != "value":
                    probs.append((a.why or a.kind, False))
                    continue
                v = a.value
                if is_k(v):
                    def sv(n):
                        f = fl(ty, n)
                        return mn if f == float("-inf") else mx if f == float("inf") else min(max(int(f), mn), mx)
                    for n in (x, y):
                        if (sv(n) & ((1 << w) - 1)) != v.args[0]:
                            probs.append(("gives %s at %r, expected %d" % (short(v), fl(ty, n), sv(n)), False))
                            break
                    continue
                pieces = [q for q in (inside + (outside if sat else []))]
                for q in pieces:
                    if not f2i_covers(v, ty, w, mn, mx, q, rng):
                        probs.append(("gives %s for operands in %s" % (short(v), desc(*q)), False))
                        break
    miss = [(-N, N)]
    for r in covered:
        miss = inter(miss, compl([r], N))
    if miss:
        probs.append(("no result for operands in [%r, %r]" % (fl(ty, miss[0][0]), fl(ty, miss[0][1])), False))
    if not nan_done:
        probs.append(("no result for NaN", False))
    return probs


def f2i_parts(v):
    """(float type, sign, width, float term) of a (possibly truncated / extended) float-to-int conversion."""
    if v.op == "f2i":
        return v.args[0], v.args[1], v.args[2], v.args[3], v.args[2]
    if v.op == "trunc" and v.args[2].op == "f2i":
        f = v.args[2]
        return f.args[0], f.args[1], f.args[2], f.args[3], v.args[0]
    if v.op in ("zext", "sext") and v.args[2].op == "f2i":
        f = v.args[2]
        if (v.op == "sext") == (f.args[1] == "i"):
            return f.args[0], f.args[1], f.args[2], f.args[3], v.args[1]
    return None


def f2i_ok(v, ty, w):
    p = f2i_parts(v)
    return p is not None and p[4] == w and mono(p[3], ty) is not None


def f2i_covers(v, ty, w, mn, mx, q, rng):
    p = f2i_parts(v)
    if p is None or p[4] != w or mono(p[3], ty) is None:
        return False
    fs, fw = p[1], p[2]
    lo, hi = (-(1 << (fw - 1)), (1 << (fw - 1)) - 1) if fs == "i" else (0, (1 << fw) - 1)
    if (lo, hi) == (mn, mx):
        return True          # same saturation range as the specification
    a, b = rng(max(lo, mn), min(hi, mx))
    return a <= q[0] and q[1] <= b
