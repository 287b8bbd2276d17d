"""Hash-consed value numbers (Herbrand terms) and their algebraic normal forms.

Integers are bit vectors: signedness lives in the operators, so a same-width cast is the identity.
Every term is interned, equality is identity.
"""
_tab = {}
_n = [0]


class Term:
    __slots__ = ("op", "args", "id", "_k")

    def __repr__(self):
        return fmt(self)

    def __lt__(self, o):
        return key(self) < key(o)


def T(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        _n[0] += 1
        t.id = _n[0]
        t._k = None
        _tab[k] = t
    return t


def key(t):
    """Structural key, stable between runs (used only to order commutative operands)."""
    if isinstance(t, Term):
        if t._k is None:
            import hashlib
            h = hashlib.md5()
            h.update(t.op.encode())
            for a in t.args:
                h.update(b"(")
                h.update(key(a).encode())
            t._k = h.hexdigest()
        return t._k
    if isinstance(t, (tuple, frozenset)):
        it = t if isinstance(t, tuple) else sorted(t, key=key)
        return "t[" + ",".join(key(x) for x in it) + "]"
    return "a" + repr(t)


def fmt(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(fmt(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 14:
        return "…"
    a = t.args
    if t.op == "k":
        return "%s:%s" % (a[0], a[1]) if a[0] < 1 << 40 else "%#x:%s" % (a[0], a[1])
    if t.op == "local":
        return "_%s.%s" % (a[1], a[0])
    if t.op == "arg":
        return str(a[0])
    if t.op == "ref":
        return "&" + fmt(a[0], d + 1)
    if t.op == "deref":
        return "*" + fmt(a[0], d + 1)
    if t.op in ("fld", "proj"):
        return fmt(a[0], d + 1) + ("." if t.op == "fld" else "!") + str(a[1])
    if t.op == "init":
        return fmt(a[0], d + 1)
    if t.op == "adt":
        return "%s::%s{%s}" % (a[0].split("::")[-1], a[1], ", ".join("%s:%s" % (n, fmt(v, d + 1)) for n, v in a[2]))
    if t.op == "call":
        return "%s(%s)%s" % (a[0], ", ".join(fmt(x, d + 1) for x in a[1]), "#%s" % a[2] if a[2] else "")
    return "%s(%s)" % (t.op, ", ".join(fmt(x, d + 1) for x in a))


WIDTH = {"i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "i64": 64, "u64": 64,
         "i128": 128, "u128": 128, "isize": 64, "usize": 64, "char": 32, "bool": 1}
SIGNED = {"i8", "i16", "i32", "i64", "i128", "isize"}
FLOATS = {"f32": 32, "f64": 64}


def is_int(ty):
    return ty in WIDTH and ty != "bool"


def K(v, ty):
    w = WIDTH.get(ty) or FLOATS.get(ty)
    if w:
        v &= (1 << w) - 1
    if ty in WIDTH and ty not in ("bool", "char"):
        ty = "i%d" % w           # sign-free constant
    return T("k", v, ty)


TRUE = K(1, "bool")
FALSE = K(0, "bool")
UNIT = T("tuple", ())


def is_k(t):
    return t.op == "k"


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def width_of(t):
    """Bit width of an integer term when syntactically known."""
    if t.op == "k":
        ty = t.args[1]
        return WIDTH.get(ty) or FLOATS.get(ty)
    if t.op in ("sext", "zext"):
        return t.args[1]
    if t.op == "trunc":
        return t.args[0]
    if t.op in ("Add", "Sub", "Mul", "And", "Or", "Xor", "Shl", "ShrS", "ShrU", "Rotl", "Rotr", "DivS", "DivU",
                "RemS", "RemU", "Clz", "Ctz", "Popcnt", "Not", "Neg"):
        return t.args[0]
    return None


COMM = {"Add", "Mul", "And", "Or", "Xor", "Eq", "FEq"}


def mk(op, w, *a):
    """Integer operator of width w in normal form."""
    m = (1 << w) - 1
    if all(is_k(x) for x in a):
        v = [x.args[0] for x in a]
        r = None
        if op == "Add": r = v[0] + v[1]
        elif op == "Sub": r = v[0] - v[1]
        elif op == "Mul": r = v[0] * v[1]
        elif op == "And": r = v[0] & v[1]
        elif op == "Or": r = v[0] | v[1]
        elif op == "Xor": r = v[0] ^ v[1]
        elif op == "Shl": r = v[0] << (v[1] % w)
        elif op == "ShrU": r = v[0] >> (v[1] % w)
        elif op == "ShrS": r = sgn(v[0], w) >> (v[1] % w)
        elif op == "Not": r = ~v[0]
        elif op == "Neg": r = -v[0]
        elif op == "DivU" and v[1]: r = v[0] // v[1]
        elif op == "RemU" and v[1]: r = v[0] % v[1]
        if r is not None:
            return K(r & m, "i%d" % w)
    if op == "Sub" and a[0] is a[1]:
        return K(0, "i%d" % w)
    if op == "Sub" and a[0].op == "Add" and a[0].args[0] == w and a[1] in a[0].args[1:] and not is_k(a[1]):
        return a[0].args[2] if a[0].args[1] is a[1] else a[0].args[1]
    if op == "Sub" and is_k(a[1]):
        return mk("Add", w, a[0], K(-a[1].args[0], "i%d" % w))
    if op == "Neg":
        return mk("Sub", w, K(0, "i%d" % w), a[0])
    if op == "Xor" and any(is_k(x) and x.args[0] == m for x in a):
        return mk("Not", w, a[0] if is_k(a[1]) else a[1])
    if op == "Not" and a[0].op == "Not":
        return a[0].args[1]
    if op in ("Add", "Or", "Xor", "Mul", "And"):
        x, y = a
        if is_k(x): x, y = y, x
        if is_k(y):
            kv = y.args[0]
            if op in ("Add", "Or", "Xor") and kv == 0: return x
            if op == "Mul" and kv == 1: return x
            if op == "Mul" and kv and kv & (kv - 1) == 0:
                return mk("Shl", w, x, K(kv.bit_length() - 1, "i%d" % w))
            if op == "And" and kv == m: return x
            if op == "And" and kv == 0: return y
            if op == "Add" and x.op == "Add" and x.args[0] == w and is_k(x.args[2]):
                return mk("Add", w, x.args[1], K(x.args[2].args[0] + kv, "i%d" % w))
            if op == "And":
                for b in (8, 16, 32):
                    if kv == (1 << b) - 1 and b < w:
                        return zext(trunc(x, w, b), b, w)
            return T(op, w, x, y)
        if op in COMM and key(y) < key(x):
            x, y = y, x
        return T(op, w, x, y)
    if op in ("Shl", "ShrS", "ShrU", "Rotl", "Rotr"):
        s = shamt(a[1], w)
        if is_k(s):
            sv = s.args[0] % w
            if sv == 0:
                return a[0]
            s = K(sv, "i32")
            if op == "Rotr":
                op, s = "Rotl", K(w - sv, "i32")
            # sign/zero extension idiom: (x << n) >> n
            if op in ("ShrS", "ShrU") and a[0].op == "Shl" and a[0].args[0] == w and is_k(a[0].args[2]) \
                    and a[0].args[2].args[0] == sv and w - sv in (8, 16, 32):
                return (sext if op == "ShrS" else zext)(trunc(a[0].args[1], w, w - sv), w - sv, w)
        return T(op, w, a[0], s)
    if op in ("DivU", "RemU") and is_k(a[1]):
        d = a[1].args[0]
        if d and d & (d - 1) == 0:
            if op == "DivU":
                return mk("ShrU", w, a[0], K(d.bit_length() - 1, "i32"))
            return mk("And", w, a[0], K(d - 1, "i%d" % w))
    return T(op, w, *a)


def shamt(s, w):
    """A shift amount only matters modulo w (a power of two): strip casts and masks that keep those bits."""
    while True:
        if s.op in ("sext", "zext"):
            if s.args[0] >= 8:
                s = s.args[2]; continue
        if s.op == "trunc":
            if s.args[0] >= 8 and w <= 128:
                s = s.args[2]; continue
        if s.op == "And" and is_k(s.args[2]) and (s.args[2].args[0] & (w - 1)) == w - 1:
            s = s.args[1]; continue
        if s.op == "RemU" and is_k(s.args[2]) and s.args[2].args[0] == w:
            s = s.args[1]; continue
        if s.op == "zext" and s.args[0] < 8:
            return s
        return s


def sext(x, f, t):
    if f == t: return x
    if is_k(x): return K(sgn(x.args[0], f), "i%d" % t)
    if x.op == "sext": return T("sext", x.args[0], t, x.args[2])
    if x.op == "zext" and x.args[0] < x.args[1]: return T("zext", x.args[0], t, x.args[2])
    return T("sext", f, t, x)


def zext(x, f, t):
    if f == t: return x
    if is_k(x): return K(x.args[0], "i%d" % t)
    if x.op == "zext": return T("zext", x.args[0], t, x.args[2])
    return T("zext", f, t, x)


def trunc(x, f, t):
    """to t bits"""
    if f == t: return x
    if is_k(x): return K(x.args[0], "i%d" % t)
    if x.op in ("sext", "zext"):
        a, b, y = x.args
        if a == t: return y
        if a > t: return trunc(y, a, t)
        return T(x.op, a, t, y)
    if x.op == "trunc":
        return T("trunc", t, x.args[1], x.args[2])
    if x.op == "And" and is_k(x.args[2]) and (x.args[2].args[0] & ((1 << t) - 1)) == (1 << t) - 1:
        return trunc(x.args[1], f, t)
    return T("trunc", t, f, x)


def cast_int(x, fty, tty):
    f, t = WIDTH[fty], WIDTH[tty]
    if t > f:
        return (sext if fty in SIGNED else zext)(x, f, t)
    return trunc(x, f, t)


def cmp_int(op, ty, a, b):
    """op in Eq Ne Lt Le Gt Ge; returns (atom, polarity) or constant bool term."""
    w = WIDTH[ty]
    s = "S" if ty in SIGNED else "U"
    pol = True
    if op == "Ne": op, pol = "Eq", False
    if op == "Gt": op, a, b = "Lt", b, a
    if op == "Ge": op, pol = "Lt", False
    if op == "Le": op, a, b, pol = "Lt", b, a, False
    if is_k(a) and is_k(b):
        x, y = a.args[0], b.args[0]
        if op == "Lt" and s == "S": x, y = sgn(x, w), sgn(y, w)
        r = (x == y) if op == "Eq" else x < y
        return TRUE if r == pol else FALSE
    if a is b:
        return TRUE if (op == "Eq") == pol else FALSE
    if op == "Eq":
        if is_k(a): a, b = b, a
        # comparisons of extended values
        if is_k(b) and a.op in ("zext", "sext"):
            f = a.args[0]
            kb = b.args[0]
            low = K(kb, "i%d" % f) if f in (8, 16, 32, 64) else None
            if low is not None:
                back = (sext if a.op == "sext" else zext)(low, f, w)
                if back is b:
                    return cmp_int("Eq" if pol else "Ne", "i%d" % f, a.args[2], low)
                return FALSE if pol else TRUE
        if a.op in ("zext", "sext") and b.op == a.op and a.args[:2] == b.args[:2]:
            return cmp_int("Eq" if pol else "Ne", "i%d" % a.args[0], a.args[2], b.args[2])
        if a.op == "Add" and a.args[0] == w and is_k(a.args[2]) and is_k(b):
            return cmp_int("Eq" if pol else "Ne", ty, a.args[1], K(b.args[0] - a.args[2].args[0], ty))
        if a.op == "len" and is_k(b) and b.args[0] >> 62:      # lengths are non-negative and small
            return FALSE if pol else TRUE
        x, y = len_off(a), len_off(b)
        if x is not None and y is not None and x[0] is y[0]:
            return TRUE if (x[1] == y[1]) == pol else FALSE
        if a.op == "Xor" and is_k(b) and b.args[0] == 0:
            return cmp_int("Eq" if pol else "Ne", ty, a.args[1], a.args[2])
        if not is_k(b) and key(b) < key(a): a, b = b, a
        t = T("Eq", w, a, b)
    else:
        if s == "U" and is_k(b) and b.args[0] == 1:      # x < 1  <=> x == 0
            return cmp_int("Eq" if pol else "Ne", ty, a, K(0, ty))
        if s == "U" and is_k(a) and a.args[0] == 0:      # 0 < x  <=> x != 0
            return cmp_int("Ne" if pol else "Eq", ty, b, K(0, ty))
        if s == "U" and is_k(b) and b.args[0] == 0:
            return FALSE if pol else TRUE
        if s == "U":
            x, y = len_off(a), len_off(b)
            if x is not None and y is not None and x[0] is y[0]:
                return TRUE if (x[1] < y[1]) == pol else FALSE
        if s == "U" and a.op == "zext" and is_k(b) and b.args[0] >> a.args[0]:      # a zero-extended value is below any higher bound
            return TRUE if pol else FALSE
        # unsigned order of values zero-extended from the same width
        if a.op == "zext" and b.op == "zext" and a.args[0] == b.args[0]:
            f = a.args[0]
            return cmp_int("Lt" if pol else "Ge", "u%d" % f, a.args[2], b.args[2])
        # normal form: constants on the right of < where possible:  k < x  <=> !(x < k+1)
        if is_k(a):
            kv = a.args[0]
            mx = (1 << (w - 1)) - 1 if s == "S" else (1 << w) - 1
            cur = sgn(kv, w) if s == "S" else kv
            if cur == mx:
                return FALSE if pol else TRUE
            if s == "U" and b.op == "zext" and (kv + 1) >> b.args[0]:
                return FALSE if pol else TRUE
            t = T("Lt" + s, w, b, K(kv + 1, ty))
            pol = not pol
        else:
            t = T("Lt" + s, w, a, b)
    return t if pol else T("not", t)


def len_off(t):
    """(length term, small offset) for a length plus a constant"""
    if t.op == "len":
        return t, 0
    if t.op == "Add" and t.args[1].op == "len" and is_k(t.args[2]):
        return t.args[1], sgn(t.args[2].args[0], t.args[0])
    return None


def cmp_float(op, ty, a, b):
    pol = True
    if op == "Ne": op, pol = "Eq", False
    if op == "Gt": op, a, b = "Lt", b, a
    if op == "Ge": op, a, b = "Le", b, a
    if op == "Eq" and key(b) < key(a): a, b = b, a
    t = T("F" + op, ty, a, b)
    if op == "Eq" and a is b:
        t = T("not", T("isnan", ty, a))
    return t if pol else bnot(t)


def bnot(t):
    if t is TRUE: return FALSE
    if t is FALSE: return TRUE
    if t.op == "not": return t.args[0]
    return T("not", t)
