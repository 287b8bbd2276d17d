"""Forward dataflow over MIR on a domain of value numbers.

The abstract state maps places to hash-consed terms (uninterpreted value numbers with algebraic normal
forms), partitioned by the branch facts that lead to it; partitions that agree are merged where control
flow joins, loops are cut by a fixpoint that replaces everything the body may change by an unknown, and
calls to functions of the crate are inlined (calls to anything else are modelled or become events).
Nothing is executed and no solver is involved: a branch is followed unless its fact is already known.
"""
import re
import sys
from facts import strip_generics, strip_ty
from terms import *

sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


class State:
    __slots__ = ("env", "conds", "ev", "cnt")

    def __init__(self, env=None, conds=None, ev=(), cnt=None):
        self.env = env if env is not None else {}
        self.conds = conds if conds is not None else [{}]
        self.ev = ev
        self.cnt = cnt or {}

    def copy(self):
        return State(dict(self.env), self.conds, self.ev, dict(self.cnt))

    def fact(self, t):
        """The set fact about t common to all conjunctions, or None."""
        r = None
        for c in self.conds:
            f = c.get(t)
            if f is None:
                return None
            if r is None:
                r = f
            elif r != f:
                return None
        return r


class Out:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val):
        self.kind, self.st, self.val = kind, st, val

    def __repr__(self):
        return "Out(%s,%s)" % (self.kind, self.val)


def idx_place(p, i):
    """The i-th element of a place, named through its container when the place is a part of it."""
    while p.op == "range" and isinstance(p.args[1], Term):
        i = mk("Add", 64, p.args[1], i)
        p = p.args[0]
    return T("idx", p, i)


def root(p):
    while p.op in ("fld", "idx", "idxe", "sub", "range", "cell", "bytes"):
        p = p.args[0]
    return p


def parent(p):
    if p.op in ("fld", "idx", "idxe", "sub", "range", "cell", "bytes"):
        return p.args[0]
    return None


def index_form(p):
    """(sequence, index) of an indexed place, through a slice or a raw element pointer."""
    if p.op == "idx":
        return p.args[0], p.args[1]
    if p.op == "deref" and p.args[0].op == "padd":
        return p.args[0].args[0], p.args[0].args[1]
    return None


def distinct(i, j):
    """Provably different index values."""
    if i is j:
        return False
    if is_k(i) and is_k(j):
        return i.args[0] != j.args[0]
    if i.op == j.op and i.op in ("zext", "sext", "trunc") and i.args[:2] == j.args[:2]:
        return distinct(i.args[2], j.args[2])
    def parts(t):
        if t.op == "Add":
            return t.args[1], t.args[2]
        return t, None
    a, b = parts(i), parts(j)
    if b[1] is None and a[1] is not None:
        a, b = b, a
    if a[1] is None:
        if b[1] is None:
            return False
        return (b[0] is a[0] and is_k(b[1]) and b[1].args[0] != 0)
    for x, y in ((0, 0), (0, 1), (1, 0), (1, 1)):
        if a[x] is b[y]:
            return distinct(a[1 - x], b[1 - y])
    return False


def elem_key(p):
    return (p.op,) + p.args[1:]


def fact_and(f, g):
    """intersection of set facts (pol, set)"""
    if f is None: return g
    if g is None: return f
    (p, a), (q, b) = f, g
    if p and q: return (True, a & b)
    if p and not q: return (True, a - b)
    if q and not p: return (True, b - a)
    return (False, a | b)


def fact_or(f, g):
    (p, a), (q, b) = f, g
    if p and q: return (True, a | b)
    if not p and not q: return (False, a & b)
    if p: return (False, b - a)
    return (False, a - b)


def simplify_conds(cs):
    """Merge conjunctions that differ in one fact only; absorb implied ones."""
    cs = list(cs)
    if len(cs) <= 1:
        return cs
    uniq, seen = [], set()
    for c in cs:
        k = frozenset(c.items())
        if k not in seen:
            seen.add(k)
            uniq.append(c)
    cs = uniq
    if len(cs) > 400:
        return cs
    changed = True
    while changed and len(cs) > 1:
        changed = False
        n = len(cs)
        for i in range(n):
            for j in range(i + 1, n):
                a, b = cs[i], cs[j]
                m = merge2(a, b)
                if m is not None:
                    cs = [c for k, c in enumerate(cs) if k not in (i, j)] + [m]
                    changed = True
                    break
            if changed:
                break
    return cs


DOMAIN = {}


def merge2(a, b):
    ka, kb = a.keys(), b.keys()
    if ka == kb:
        diff = None
        for t in ka:
            if a[t] != b[t]:
                if diff is not None:
                    return None
                diff = t
        if diff is None:
            return a
        f = fact_or(a[diff], b[diff])
        r = dict(a)
        if (not f[0] and not f[1]) or (f[0] and DOMAIN.get(diff) is not None and f[1] >= DOMAIN[diff]):
            del r[diff]
        else:
            r[diff] = f
        return r
    # absorption: the weaker one (fewer facts, each implied)
    s, l = (a, b) if len(ka) < len(kb) else (b, a)
    if len(ka) == len(kb):
        return None
    for t, f in s.items():
        g = l.get(t)
        if g is None or fact_and(g, f) != g:
            return None
    return s


class Engine:
    unobserved = None         # facts taken to be zero: the wishes to observe (obsrun)
    def __init__(self, crate, opaque=None, models=None, max_depth=24, budget=400000, inline=True, widen_at=None):
        self.crate = crate
        self.opaque = opaque or (lambda name: False)
        self.user_models = models or {}
        self.max_depth = max_depth
        self.budget = budget
        self.steps = 0
        self.fid_tab = {}
        self.inline = inline
        self.visited_fns = set()
        self.stack = []
        self.unroll = False       # follow loops over sequences of known length iteration by iteration
        self.unrolled = set()
        self.inrange = None       # (index, container value) -> the index is known to be inside
        self.ranges = {}          # term -> (least, greatest) known for every state
        self.cuts = set()         # (length, sequence) of walks that stop after a fixed number
        self.iters = {}           # (function, block of next()) -> iterators advanced there
        self.lvinfo = {}          # value carried by a loop -> [(at entry, [after one iteration])]
        self.unmodelled = {}
        self.hook_block = None
        from models import MODELS
        self.MODELS = MODELS

    # ---- values -----------------------------------------------------------------------------
    def project(self, v, f):
        op = v.op
        if op == "adt":
            if isinstance(f, str) and "." in f:
                var, n = f.split(".", 1)
                if var != v.args[1]:
                    return T("bottom")
            else:
                n = f
            for nm, x in v.args[2]:
                if nm == n:
                    return x
            return T("proj", v, f)
        if op == "tuple":
            try:
                return v.args[0][int(f)]
            except (ValueError, IndexError):
                return T("proj", v, f)
        if op == "closure":
            for nm, x in v.args[1]:
                if nm == f:
                    return x
            return T("proj", v, f)
        if op == "init":
            return T("init", T("fld", v.args[0], f))
        if op in ("box", "uninitbox") and f in ("0", "pointer"):
            return v                       # the pointer inside a Box
        if op == "vec" and f in ("0", "pointer"):
            return T("box", v)             # a boxed slice made from a vector
        if op == "upd":
            base, ups = v.args
            r = None
            sub = []
            for path, x in ups:
                if path[0] == ("fld", f):
                    if len(path) == 1:
                        return x
                    sub.append((path[1:], x))
            b = self.project(base, f)
            return T("upd", b, tuple(sub)) if sub else b
        return T("proj", v, f)

    def proj_elem(self, v, ek):
        if ek[0] == "fld":
            return self.project(v, ek[1])
        if v.op == "upd":
            base, ups = v.args
            sub = []
            for path, x in ups:
                if path[0] == ek:
                    if len(path) == 1:
                        return x
                    sub.append((path[1:], x))
                elif path[0][0] in ("idx", "range", "sub") and ek[0] in ("idx", "range", "sub"):
                    if not (path[0][0] == "idx" and ek[0] == "idx" and distinct(path[0][1], ek[1])):
                        return T("elem", v, *ek[1:]) if ek[0] == "idx" else T(ek[0] + "v", v, *ek[1:])
            b = self.proj_elem(base, ek)
            return T("upd", b, tuple(sub)) if sub else b
        if v.op == "init":
            return T("init", T(ek[0], v.args[0], *ek[1:]))
        if v.op == "popped" and ek[0] == "idx":
            return self.proj_elem(v.args[0], ek)
        if ek[0] == "idx":
            if v.op in ("array", "vec") and is_k(ek[1]) and ek[1].args[0] < len(v.args[0]):
                return v.args[0][ek[1].args[0]]
            if v.op == "push":
                b, xs, j = self.push_index(v, ek[1])
                if j is not None:
                    return xs[j]
            return T("elem", v, ek[1])
        if v.op == "newcell" and ek[0] == "cell":
            return v.args[0]
        return T(ek[0] + "v", v, *ek[1:])

    def push_index(self, v, i):
        """A sequence of pushes as (base, elements, which element i is or None)."""
        xs = []
        while v.op == "push":
            xs.append(v.args[1])
            v = v.args[0]
        xs.reverse()
        n = self.len_of(v)
        j = None
        if i is n:
            j = 0
        elif is_k(i) and is_k(n):
            j = i.args[0] - n.args[0]
        elif i.op == "Add" and i.args[1] is n and is_k(i.args[2]):
            j = i.args[2].args[0]
        elif n.op == "Add" and is_k(n.args[2]):
            a, c = (i.args[1], i.args[2].args[0]) if i.op == "Add" and is_k(i.args[2]) else (i, 0)
            if a is n.args[1]:
                j = sgn((c - n.args[2].args[0]) & ((1 << 64) - 1), 64)
        return v, xs, j if j is not None and 0 <= j < len(xs) else None

    def read(self, st, p):
        env = st.env
        v = env.get(p)
        if v is not None:
            return v
        if p.op == "pval":
            return p.args[0]
        q = parent(p)
        path = [elem_key(p)]
        while q is not None:
            v = env.get(q)
            if v is not None:
                for ek in reversed(path):
                    v = self.proj_elem(v, ek)
                return v
            if q.op == "pval":
                v = q.args[0]
                for ek in reversed(path):
                    v = self.proj_elem(v, ek)
                return v
            path.append(elem_key(q))
            q = parent(q)
        # descendants updated?
        ups = []
        for k, v in env.items():
            if k.op in ("fld", "idx", "cell", "idxe", "range", "sub"):
                pp, a = [], k
                while a is not None and a is not p:
                    pp.append(elem_key(a))
                    a = parent(a)
                if a is p:
                    ups.append((tuple(reversed(pp)), v))
        base = T("uninit") if p.op == "local" else T("init", p)
        if not ups:
            a = p
            while a is not None:
                f = index_form(a)
                if f is not None:
                    for k, v in env.items():
                        b = k
                        while b is not None:
                            g = index_form(b)
                            if g is not None and b is not a and g[0] is f[0] and not distinct(g[1], f[1]):
                                return T("mayalias", base, k, v)
                            b = parent(b)
                a = parent(a)
            return base
        ups.sort(key=lambda x: key(x))
        return T("upd", base, tuple(ups))

    def write(self, st, p, v, event=True):
        env = st.env
        r = root(p)
        if r.op != "local" and event:
            if r.op not in ("pval",):
                st.ev = st.ev + (("w", p, v),)
        # ancestor holding a value?
        q = parent(p)
        path = [elem_key(p)]
        while q is not None:
            if q in env:
                env[q] = self.functional_update(env[q], tuple(reversed(path)), v)
                return
            path.append(elem_key(q))
            q = parent(q)
        # drop descendants / possibly aliasing siblings
        dead = []
        pf, a = None, p
        while a is not None and pf is None:
            pf = index_form(a)
            if pf is None:
                a = parent(a)
        pidx = a
        for k in env:
            if k is p:
                continue
            a = k
            while a is not None:
                if a is p:
                    dead.append(k)
                    break
                if pf is not None and a is not p and a is not pidx:
                    af = index_form(a)
                    if af is not None and af[0] is pf[0] and not distinct(af[1], pf[1]):
                        dead.append(k)
                        break
                a = parent(a)
        for k in dead:
            if k in env:
                b = k
                while b is not None and b is not p:
                    b = parent(b)
                if b is p:
                    del env[k]
                else:
                    env[k] = T("mayalias", env[k], p, v)
        env[p] = v

    def functional_update(self, b, path, v):
        ek = path[0]
        if ek[0] == "fld":
            f = ek[1]
            if b.op == "adt":
                if "." in str(f):
                    var, n = f.split(".", 1)
                    if var == b.args[1]:
                        return T("adt", b.args[0], b.args[1], tuple(
                            (nm, (v if len(path) == 1 else self.functional_update(x, path[1:], v))
                             if nm == n else x) for nm, x in b.args[2]))
                else:
                    return T("adt", b.args[0], b.args[1], tuple(
                        (nm, (v if len(path) == 1 else self.functional_update(x, path[1:], v))
                         if nm == f else x) for nm, x in b.args[2]))
            if b.op == "tuple":
                i = int(f)
                xs = list(b.args[0])
                if i < len(xs):
                    xs[i] = v if len(path) == 1 else self.functional_update(xs[i], path[1:], v)
                    return T("tuple", tuple(xs))
        if ek[0] == "cell" and b.op == "newcell":
            return T("newcell", v if len(path) == 1 else self.functional_update(b.args[0], path[1:], v))
        if ek[0] == "idx" and b.op in ("array", "vec") and is_k(ek[1]) and ek[1].args[0] < len(b.args[0]):
            xs = list(b.args[0])
            i = ek[1].args[0]
            xs[i] = v if len(path) == 1 else self.functional_update(xs[i], path[1:], v)
            return T(b.op, tuple(xs))
        if ek[0] == "idx" and b.op == "push":
            b0, xs, j = self.push_index(b, ek[1])
            if j is not None:
                xs[j] = v if len(path) == 1 else self.functional_update(xs[j], path[1:], v)
                for x in xs:
                    b0 = T("push", b0, x)
                return b0
        if b.op == "upd":
            base, ups = b.args
            out = []
            for pth, x in ups:
                if pth[:len(path)] == path:
                    continue
                if path[:len(pth)] == pth:
                    out.append((pth, self.functional_update(x, path[len(pth):], v)))
                    return T("upd", base, tuple(sorted(
                        [u for u in ups if u[0] != pth] + out, key=lambda x: key(x))))
                out.append((pth, x))
            out.append((path, v))
            out.sort(key=lambda x: key(x))
            return T("upd", base, tuple(out))
        return T("upd", b, ((path, v),))

    def deref_of(self, v):
        op = v.op
        if op == "ref":
            return v.args[0]
        if op in ("box", "rc"):
            return T("pval", v.args[0])
        if op == "pelem":
            return T("idx", v.args[0], K(0, "usize"))
        if op == "padd" and v.args[0].op == "pelem":
            return T("idx", v.args[0].args[0], v.args[1])
        return T("deref", v)

    # ---- places and operands ----------------------------------------------------------------
    def place(self, st, fr, pl):
        p = T("local", pl[0], fr.fid)
        dc = None
        for e in pl[1:]:
            if e == "*":
                p = self.deref_of(self.read(st, p))
                dc = None
            elif e[0] == "f":
                n = e[2]
                if dc is not None:
                    n = dc + "." + n
                    dc = None
                p = self.fldp(p, n)
            elif e[0] == "d":
                dc = e[2]
            elif e[0] == "i":
                p = idx_place(p, self.read(st, T("local", e[1], fr.fid)))
            elif e[0] == "ci":
                p = T("idxe" if e[2] else "idx", p, K(e[1], "usize"))
            elif e[0] == "sub":
                p = T("sub", p, e[1], e[2], e[3])
        return p

    def fldp(self, p, n):
        if p.op == "pval":
            return T("pval", self.project(p.args[0], n))
        return T("fld", p, n)

    def const(self, st, fr, c):
        ty = fr.fn.crate.types[c["t"]]
        if "fn" in c:
            f = c["fn"]
            return T("fn", f.get("res") or f["def"], tuple(fr.sub(x) for x in self.ga(fr, f)))
        if "cl" in c:
            return T("closure", c["cl"], ())
        if "v" in c:
            return K(c["v"], ty)
        if "s" in c:
            return T("ref", T("pval", T("s", c["s"])))
        if "static" in c:
            return T("ref", T("static", c["static"]))
        if "fnptr" in c:
            return T("fn", c["fnptr"], ())
        if "prom" in c:
            name = "%s::promoted#%d" % tuple(c["prom"])
            return self.const_body(st, fr, name) or T("const", name)
        if ty == "()":
            return UNIT
        if "name" in c:
            v = self.const_body(st, fr, c["name"])
            if v is not None:
                return v
            return T("const", c["name"])
        adt = self.crate.adts.get(strip_generics(ty))
        if adt is not None and len(adt["variants"]) == 1 and not adt["variants"][0][2]:
            return T("adt", adt["name"], adt["variants"][0][0], ())
        return T("const", ty)

    def const_body(self, st, fr, name):
        f = self.crate.fns.get(name)
        if f is None:
            return None
        cache = self.__dict__.setdefault("_cc", {})
        if name in cache:
            return cache[name]
        cache[name] = None
        try:
            outs = self.run_fn(f, [], State(), fr, ("const", name), {})
        except (Budget, Unsupported):
            return None
        if len(outs) == 1 and outs[0].kind == "ret":
            v = self.close(outs[0].st, outs[0].val)
            cache[name] = v
            return v
        return None

    def close(self, st, v, depth=0):
        """Replace references to locals by references to their current value."""
        if depth > 12:
            return v
        if v.op == "ref":
            p = v.args[0]
            if root(p).op == "local":
                return T("ref", T("pval", self.close(st, self.read(st, p), depth + 1)))
            return v
        if v.op == "adt":
            return T("adt", v.args[0], v.args[1], tuple((n, self.close(st, x, depth + 1)) for n, x in v.args[2]))
        if v.op in ("tuple", "array"):
            return T(v.op, tuple(self.close(st, x, depth + 1) for x in v.args[0]))
        if v.op == "closure":
            return T("closure", v.args[0], tuple((n, self.close(st, x, depth + 1)) for n, x in v.args[1]))
        if v.op in ("it", "itmap", "itenum", "itzip", "ittake", "itrev", "itcopied", "itfilter", "itchain", "itskip"):
            return T(v.op, *[self.close(st, x, depth + 1) if isinstance(x, Term) else x for x in v.args])
        if v.op == "pelem" and root(v.args[0]).op == "local":
            return T("pelem", T("pval", self.close(st, self.read(st, v.args[0]), depth + 1)))
        if v.op == "padd":
            return T("padd", self.close(st, v.args[0], depth + 1), *v.args[1:])
        return v

    def operand(self, st, fr, o):
        k = o[0]
        if k in ("c", "m"):
            return self.read(st, self.place(st, fr, o[1]))
        if k == "k":
            return self.const(st, fr, o[1])
        return FALSE       # runtime checks (ub checks etc.) are off in release builds

    def ga(self, fr, f):
        return [fr.fn.crate.types[x] if isinstance(x, int) else x for x in f.get("ga", [])]

    def oty(self, fr, o):
        """Static type of an operand (string) when it is a bare local or a constant."""
        if o[0] == "k":
            return fr.sub(fr.fn.crate.types[o[1]["t"]])
        if o[0] in ("c", "m") and len(o[1]) == 1:
            return fr.sub(fr.fn.lty(o[1][0]))
        return ""

    # ---- facts ------------------------------------------------------------------------------
    def assume(self, st, t, fact, dom=None):
        """New state in which fact (pol,set) about t holds, or None."""
        if Engine.unobserved is not None and Engine.unobserved(t) and (0 in fact[1]) != fact[0]:
            return None
        new = []
        for c in st.conds:
            f = fact_and(c.get(t), fact)
            if dom is not None and not f[0]:
                f = (True, dom - f[1])
            if f[0] and not f[1]:
                continue
            if c.get(t) == f:
                new.append(c)
                continue
            if not self.consistent(c, t, f):
                continue
            d = dict(c)
            d[t] = f
            new.append(d)
        if not new:
            return None
        s = st.copy()
        s.conds = new
        return s

    def consistent(self, c, t, f):
        # order atoms with a constant bound on the same value number
        if t.op in ("LtS", "LtU") and is_k(t.args[2]) and f[0] and len(f[1]) == 1:
            pol = 1 in f[1]
            w, a, k = t.args
            kv = sgn(k.args[0], w) if t.op == "LtS" else k.args[0]
            g = c.get(a)
            if g is not None and g[0]:
                vals = [sgn(x, w) if t.op == "LtS" else x for x in g[1]]
                if not any((x < kv) == pol for x in vals):
                    return False
            for u, h in c.items():
                if u.op == t.op and u is not t and u.args[1] is a and is_k(u.args[2]) and h[0] and len(h[1]) == 1:
                    hv = sgn(u.args[2].args[0], w) if t.op == "LtS" else u.args[2].args[0]
                    hp = 1 in h[1]
                    if pol and not hp and kv <= hv: return False     # x<kv and x>=hv
                    if not pol and hp and hv <= kv: return False
        elif f[0]:
            for u, h in c.items():
                if u.op in ("LtS", "LtU") and u.args[1] is t and is_k(u.args[2]) and h[0] and len(h[1]) == 1:
                    w = u.args[0]
                    kv = sgn(u.args[2].args[0], w) if u.op == "LtS" else u.args[2].args[0]
                    pol = 1 in h[1]
                    vals = [sgn(x, w) if u.op == "LtS" else x for x in f[1]]
                    if not any((x < kv) == pol for x in vals):
                        return False
        return True

    BOOL = frozenset((0, 1))

    def decide(self, st, t):
        """[(state, bool)] for a boolean term."""
        if t is TRUE: return [(st, True)]
        if t is FALSE: return [(st, False)]
        if t.op == "not":
            return [(s, not b) for s, b in self.decide(st, t.args[0])]
        if t.op == "and":
            r = []
            for s, b in self.decide(st, t.args[0]):
                if not b: r.append((s, False))
                else: r.extend(self.decide(s, t.args[1]))
            return r
        if t.op == "or":
            r = []
            for s, b in self.decide(st, t.args[0]):
                if b: r.append((s, True))
                else: r.extend(self.decide(s, t.args[1]))
            return r
        if t.op == "xor":
            return [(s2, b != b2) for s, b in self.decide(st, t.args[0]) for s2, b2 in self.decide(s, t.args[1])]
        if t.op == "Eq" and is_k(t.args[2]):
            a, kk = t.args[1], t.args[2].args[0]
            r = []
            s = self.assume(st, a, (True, frozenset((kk,))), DOMAIN.get(a))
            if s is not None: r.append((s, True))
            s = self.assume(st, a, (False, frozenset((kk,))), DOMAIN.get(a))
            if s is not None: r.append((s, False))
            return r
        if self.inrange and t.op == "LtU" and t.args[2].op == "len" and self.inrange(t.args[1], t.args[2].args[0]):
            return [(st, True)]
        if self.ranges and t.op == "LtU" and is_k(t.args[2]):
            b = self.in_range(t)
            if b is not None:
                return [(st, b)]
        DOMAIN.setdefault(t, self.BOOL)
        r = []
        s = self.assume(st, t, (True, frozenset((1,))), self.BOOL)
        if s is not None: r.append((s, True))
        s = self.assume(st, t, (True, frozenset((0,))), self.BOOL)
        if s is not None: r.append((s, False))
        return r

    def in_range(self, t):
        """x + k < c for x in a known interval"""
        x, c, k = t.args[1], t.args[2].args[0], 0
        if x.op == "Add" and is_k(x.args[2]):
            x, k = x.args[1], sgn(x.args[2].args[0], t.args[0])
        r = self.ranges.get(x)
        if r is None or r[0] + k < 0 or r[1] + k >= 1 << t.args[0]:
            return None
        if r[1] + k < c:
            return True
        if r[0] + k >= c:
            return False
        return None

    def switch(self, st, t, ty, targets, other):
        """[(state, target block)]"""
        if t.op == "k":
            for v, b in targets:
                if v == t.args[0]:
                    return [(st, b)]
            return [(st, other)]
        if ty == "bool":
            r = []
            tv = dict(targets)
            for s, b in self.decide(st, t):
                r.append((s, tv.get(int(b), other)))
            return r
        if t.op == "bottom":
            return []
        dom = DOMAIN.get(t)
        r = []
        seen = set()
        for v, b in targets:
            seen.add(v)
            s = self.assume(st, t, (True, frozenset((v,))), dom)
            if s is not None:
                r.append((s, b))
        s = self.assume(st, t, (False, frozenset(seen)), dom)
        if s is not None:
            r.append((s, other))
        return r

    def discr(self, v, ty):
        """Discriminant term of a value of (enum) type ty."""
        adt = self.crate.adts.get(strip_generics(ty))
        if v.op == "adt":
            for n, d, _ in self.crate.adts[v.args[0]]["variants"]:
                if n == v.args[1]:
                    return K(d, "isize")
        if v.op == "call" and v.args[0] == "ite":
            pass
        t = T("disc", v)
        if adt is not None:
            DOMAIN.setdefault(t, frozenset(d & ((1 << 64) - 1) for _, d, _ in adt["variants"]))
        return t

    def decide_variant(self, st, v, ty, name):
        """Split on whether enum value v of ADT ty is variant `name`: [(state, bool)]."""
        adt = self.crate.adts[strip_generics(ty)]
        d = [x[1] for x in adt["variants"] if x[0] == name][0]
        t = self.discr(v, ty)
        if t.op == "k":
            return [(st, t.args[0] == d)]
        dom = DOMAIN.get(t)
        r = []
        s = self.assume(st, t, (True, frozenset((d,))), dom)
        if s is not None: r.append((s, True))
        s = self.assume(st, t, (False, frozenset((d,))), dom)
        if s is not None: r.append((s, False))
        return r

    # ---- rvalues ----------------------------------------------------------------------------
    def rvalue(self, st, fr, rv):
        """[(state, value)]"""
        k = rv[0]
        if k == "use":
            return [(st, self.operand(st, fr, rv[1]))]
        if k in ("ref", "raw"):
            p = self.place(st, fr, rv[2])
            # reborrow of a pointer value
            if p.op == "deref":
                return [(st, p.args[0])]
            return [(st, T("ref", p))]
        if k == "cast":
            return self.cast(st, fr, rv)
        if k == "bin":
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            return [(st, self.binop(rv[1], a, b, fr.sub(fr.fn.crate.types[rv[4]])))]
        if k == "un":
            a = self.operand(st, fr, rv[2])
            ty = fr.sub(fr.fn.crate.types[rv[3]])
            if rv[1] == "Not":
                if ty == "bool":
                    return [(st, bnot(a))]
                return [(st, mk("Not", WIDTH.get(ty, 64), a))]
            if rv[1] == "Neg":
                if ty in FLOATS:
                    return [(st, T("FNeg", ty, a))]
                return [(st, mk("Neg", WIDTH.get(ty, 64), a))]
            if rv[1] == "PtrMetadata":
                return [(st, self.length(st, self.deref_of(a)))]
            return [(st, T("un", rv[1], a))]
        if k == "disc":
            v = self.read(st, self.place(st, fr, rv[1]))
            return [(st, self.discr(v, fr.sub(fr.fn.crate.types[rv[2]])))]
        if k == "agg":
            vals = [self.operand(st, fr, o) for o in rv[2]]
            kd = rv[1]
            if kd[0] == "tuple":
                return [(st, T("tuple", tuple(vals)))]
            if kd[0] == "array":
                return [(st, T("array", tuple(vals)))]
            if kd[0] == "adt":
                return [(st, T("adt", kd[1], kd[3], tuple(zip(kd[4], vals))))]
            if kd[0] == "closure":
                return [(st, T("closure", kd[1], tuple(zip(kd[2], vals))))]
            if kd[0] == "rawptr":
                return [(st, vals[0])]
            return [(st, T("aggr", tuple(vals)))]
        if k == "rep":
            return [(st, T("repeat", self.operand(st, fr, rv[1]), rv[2]))]
        if k == "tls":
            return [(st, T("ref", T("static", rv[1])))]
        raise Unsupported(k)

    def length(self, st, p):
        if self.unroll and p.op == "range" and not (isinstance(p.args[2], Term) and p.args[2].op == "incl"):
            hi = self.length(st, p.args[0]) if p.args[2] == "end" else p.args[2]
            return mk("Sub", 64, hi, p.args[1])
        v = self.read(st, p)
        return self.len_of(v)

    def len_of(self, v):
        if v.op == "array":
            return K(len(v.args[0]), "usize")
        if v.op == "vec":
            return K(len(v.args[0]), "usize")
        if v.op == "push":
            return mk("Add", 64, self.len_of(v.args[0]), K(1, "usize"))
        if v.op == "from_elem":
            return v.args[1]
        if v.op == "s":
            return K(len(v.args[0].encode()), "usize")
        if v.op == "upd" and all(u[0][0][0] == "idx" for u in v.args[1]):
            return self.len_of(v.args[0])
        if v.op == "popped":
            return mk("Add", 64, self.len_of(v.args[0]), K(-1, "usize"))
        return T("len", v)

    def cast(self, st, fr, rv):
        kind, o = rv[1], rv[2]
        v = self.operand(st, fr, o)
        f, t = fr.sub(fr.fn.crate.types[rv[3]]), fr.sub(fr.fn.crate.types[rv[4]])
        if kind == "IntToInt":
            if f == "bool":
                if v.op == "k":
                    return [(st, K(v.args[0], t))]
                return [(s, K(int(b), t)) for s, b in self.decide(st, v)]
            if f in WIDTH and t in WIDTH:
                return [(st, cast_int(v, f, t))]
            return [(st, T("cast", f, t, v))]
        if kind == "FloatToInt":
            return [(st, T("f2i", f, ("i" if t in SIGNED else "u"), WIDTH[t], v))]
        if kind == "IntToFloat":
            return [(st, T("i2f", "i" if f in SIGNED else "u", WIDTH[f], t, v))]
        if kind == "FloatToFloat":
            if f == t:
                return [(st, v)]
            return [(st, T("f2f", f, t, v))]
        if kind == "Transmute":
            # Box<T> pointer extraction
            b = strip_box(v)
            if b is not None and t.startswith("*"):
                return [(st, b)]
            if f in FLOATS and t in WIDTH:
                return [(st, fbits(v, f))]
            if f in WIDTH and t in FLOATS:
                return [(st, ffrom(v, t))]
            if f in WIDTH and t in WIDTH and WIDTH[f] == WIDTH[t]:
                return [(st, v)]
            return [(st, v if f == t else T("transmute", f, t, v))]
        return [(st, v)]      # pointer casts, unsizing, reification, Subtype

    def binop(self, op, a, b, ty):
        if ty == "bool":
            if op in ("BitAnd", "BitOr"):
                for x, y in ((a, b), (b, a)):
                    if x is TRUE: return y if op == "BitAnd" else TRUE
                    if x is FALSE: return FALSE if op == "BitAnd" else y
                return T("and" if op == "BitAnd" else "or", a, b)
            if op in ("Eq", "Ne", "BitXor"):
                n = op != "Eq"
                for x, y in ((a, b), (b, a)):
                    if is_k(x):
                        return y if bool(x.args[0]) != n else bnot(y)
                r = T("xor", a, b)
                return r if n else bnot(r)
            return T("bbin", op, a, b)
        if ty in FLOATS:
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return cmp_float(op, ty, a, b)
            m = {"Add": "FAdd", "Sub": "FSub", "Mul": "FMul", "Div": "FDiv", "Rem": "FRem"}[op]
            if m in ("FAdd", "FMul") and key(b) < key(a): a, b = b, a
            return T(m, ty, a, b)
        if ty in WIDTH:
            w = WIDTH[ty]
            s = ty in SIGNED
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return cmp_int(op, ty, a, b)
            m = {"Add": "Add", "Sub": "Sub", "Mul": "Mul", "BitAnd": "And", "BitOr": "Or", "BitXor": "Xor",
                 "AddUnchecked": "Add", "SubUnchecked": "Sub", "MulUnchecked": "Mul",
                 "Shl": "Shl", "ShlUnchecked": "Shl", "Shr": "ShrS" if s else "ShrU",
                 "ShrUnchecked": "ShrS" if s else "ShrU", "Div": "DivS" if s else "DivU",
                 "Rem": "RemS" if s else "RemU"}
            if op in m:
                return mk(m[op], w, a, b)
            if op.endswith("WithOverflow"):
                base = op[:-len("WithOverflow")]
                return T("tuple", (mk(base, w, a, b), T("ovf", base, ty, a, b)))
            if op == "Cmp":
                return T("cmp", ty, a, b)
            return T("ibin", op, ty, a, b)
        if op in ("Eq", "Ne"):
            if a is b:
                r = TRUE
            else:
                if key(b) < key(a): a, b = b, a
                r = T("peq", a, b)
            return r if op == "Eq" else bnot(r)
        if op == "Offset":
            return T("padd", a, b, ty)
        return T("pbin", op, a, b)

    # ---- functions --------------------------------------------------------------------------
    def fid(self, parent_fid, site):
        k = (parent_fid, site)
        r = self.fid_tab.get(k)
        if r is None:
            r = self.fid_tab[k] = len(self.fid_tab) + 1
        return r

    def run(self, fn, args=None, st=None, subst=None):
        """Analyse fn from its entry; args default to symbolic ('arg', name)."""
        if isinstance(fn, str):
            fn = self.crate.fns[fn]
        if args is None:
            args = []
            for i in range(1, fn.nargs + 1):
                args.append(T("arg", fn.lname(i) or "a%d" % i))
        self.steps = 0
        return self.run_fn(fn, args, st or State(), None, ("top", fn.name), subst or {})

    def run_fn(self, fn, args, st, caller, site, subst):
        if len(self.stack) > self.max_depth:
            raise Budget("inlining depth at %s" % fn.name)
        fr = Frame(fn, self.fid(caller.fid if caller else 0, site), subst)
        self.visited_fns.add(fn.name)
        self.stack.append(fn.name)
        try:
            for i, a in enumerate(args):
                st.env[T("local", i + 1, fr.fid)] = a
            outs = []
            ex = self.explore(fr, None, 0, [st], outs)
            assert not ex[0]
            # pop the frame; merge equal results
            res = {}
            order = []
            for o in outs:
                if o.kind == "ret":
                    s = o.st
                    if site[0] == "const":
                        o.val = self.close(s, o.val)
                    v = o.val
                    s.env = {k: x for k, x in s.env.items() if not self.in_frame(k, fr.fid)}
                    sig = (o.kind, v, frozenset(s.env.items()), s.ev, frozenset(s.cnt.items()))
                    if sig in res:
                        res[sig].st.conds = simplify_conds(res[sig].st.conds + s.conds)
                    else:
                        res[sig] = o
                        order.append(sig)
                else:
                    sig = (o.kind, o.val, o.st.ev)
                    if sig in res:
                        res[sig].st.conds = simplify_conds(res[sig].st.conds + o.st.conds)
                    else:
                        res[sig] = o
                        order.append(sig)
            return [res[s] for s in order]
        finally:
            self.stack.pop()

    def in_frame(self, k, fid):
        r = root(k)
        return r.op == "local" and r.args[1] == fid

    def explore(self, fr, region, entry, states, outs, is_head=False):
        """Forward pass over the region. Returns (exits [(block,state)], backedge states)."""
        fn = fr.fn
        rpo = fn.rpo()
        loops = fn.loops()
        live = fn.live_in()
        pending = {entry: list(states)}
        exits, backs = [], []
        first = True
        import heapq
        heap = [(rpo[entry], entry)]
        inheap = {entry}
        while heap:
            _, b = heapq.heappop(heap)
            inheap.discard(b)
            sts = pending.pop(b, [])
            if not sts:
                continue
            if is_head and b == entry and not first:
                backs.extend(sts)
                continue
            sts = self.merge(fr, b, sts, live)
            self.steps += len(sts)
            if self.steps > self.budget:
                raise Budget("partition budget in %s" % fn.name)
            nxt = []
            if b in loops and not (is_head and b == entry and first):
                for s in sts:
                    nxt.extend(self.loop(fr, b, loops[b], s, outs))
            else:
                for s in sts:
                    nxt.extend(self.block(fr, b, s, outs))
            first = False
            for s, tgt in nxt:
                if region is not None and tgt not in region:
                    exits.append((tgt, s))
                elif is_head and tgt == entry:
                    backs.append(s)
                else:
                    pending.setdefault(tgt, []).append(s)
                    if tgt not in inheap:
                        inheap.add(tgt)
                        heapq.heappush(heap, (rpo[tgt], tgt))
        return exits, backs

    def merge(self, fr, b, sts, live):
        lv = live[b]
        fid = fr.fid
        out = {}
        for s in sts:
            dead = [k for k in s.env if k.op == "local" and k.args[1] == fid and k.args[0] not in lv]
            if dead:
                for k in dead:
                    del s.env[k]
            dead = [k for k in s.env if k.op != "local" and (lambda r: r.op == "local" and r.args[1] == fid and
                                                             r.args[0] not in lv)(root(k))]
            for k in dead:
                del s.env[k]
            if len(sts) == 1:
                return sts
            sig = (frozenset(s.env.items()), s.ev, frozenset(s.cnt.items()))
            o = out.get(sig)
            if o is None:
                out[sig] = s
            else:
                o.conds = o.conds + s.conds
        for o in out.values():
            o.conds = simplify_conds(o.conds)
        return list(out.values())

    def unrolled_loop(self, fr, head, body, st, outs):
        """A loop followed iteration by iteration: over an iterator of known length, or with a condition that is
        decided every time round; None when it is neither."""
        cur, res, louts = [st.copy()], [], []
        for it in range(64):
            before = set(self.unrolled)
            self.unrolled -= {(fr.fid, b) for b in body}
            exits, backs = self.explore(fr, body, head, cur, louts, is_head=True)
            here = any((fr.fid, b) in self.unrolled for b in body)
            self.unrolled |= before
            if not here and exits and backs:
                return None
            res += [(s, t) for t, s in exits]
            if not backs:
                outs.extend(louts)
                return res
            cur = backs
            if len(cur) > 200:
                return None
        return None

    def loop(self, fr, head, body, st, outs):
        fn = fr.fn
        if self.unroll:
            r = self.unrolled_loop(fr, head, body, st, outs)
            if r is not None:
                return r
        H = []
        lid = (fn.name, self.loop_ordinal(fn, head))
        live = fn.live_in()[head]
        for it in range(12):
            s0 = st.copy()
            s0.ev = ()
            s0.cnt = dict(st.cnt)
            for p in H:
                self.write(s0, p, T("lv", lid, self.hname(fr, p)), event=False)
            env0 = dict(s0.env)
            louts = []
            exits, backs = self.explore(fr, body, head, [s0], louts, is_head=True)
            new = []
            for bs in backs:
                for k, v in bs.env.items():
                    r = root(k)
                    if r.op == "local" and r.args[1] == fr.fid and r.args[0] not in live:
                        continue
                    if env0.get(k) is v:
                        continue
                    if k not in env0:
                        # written place not tracked at entry: same value as at entry?
                        if self.read(s0_view(env0), k) is v:
                            continue
                    if not any(self.covers(h, k) for h in H) and k not in new:
                        new.append(k)
                    elif any(h is k for h in H):
                        pass
                for k in env0:
                    if k not in bs.env:
                        r = root(k)
                        if r.op == "local" and r.args[1] == fr.fid and r.args[0] not in live:
                            continue
                        if not any(self.covers(h, k) for h in H) and k not in new:
                            new.append(k)
            new = [p for p in new if not any(q is not p and self.covers(q, p) for q in new)]
            if not new:
                break
            H.extend(new)
        else:
            raise Budget("loop fixpoint in %s" % fn.name)
        for p in H:
            x = self.lvinfo.setdefault(T("lv", lid, self.hname(fr, p)), [])
            x.append((self.close(st, self.read(st, p)), [(self.close(bs, self.read(bs, p)), bs.conds) for bs in backs]))
        # summary of one iteration's effects
        bodies = frozenset((bs.ev, conds_key(bs.conds, st.conds)) for bs in backs if bs.ev)
        pre = ()
        if bodies:
            pre = (("loop", lid, bodies),)
        res = []
        for tgt, s in exits:
            s.ev = st.ev + pre + s.ev
            res.append((s, tgt))
        for o in louts:
            o.st.ev = st.ev + pre + o.st.ev
            outs.append(o)
        return res

    def kill_local(self, st, i, fid):
        env = st.env
        dead = [k for k in env if (lambda r: r.op == "local" and r.args[0] == i and r.args[1] == fid)(root(k))]
        for k in dead:
            del env[k]

    def covers(self, h, k):
        a = k
        while a is not None:
            if a is h:
                return True
            a = parent(a)
        return False

    def hname(self, fr, p):
        return p

    def loop_ordinal(self, fn, head):
        hs = sorted(fn.loops(), key=lambda x: fn.rpo()[x])
        return hs.index(head)

    def block(self, fr, b, st, outs):
        """Execute one block; returns [(state, successor)]."""
        fn = fr.fn
        bl = fn.blocks[b]
        cur = [st]
        for s in bl["s"]:
            nxt = []
            for c in cur:
                if s[0] == "=":
                    for c2, v in self.rvalue(c, fr, s[2]):
                        self.write(c2, self.place(c2, fr, s[1]), v)
                        nxt.append(c2)
                elif s[0] == "sd":
                    p = self.place(c, fr, s[1])
                    c.ev = c.ev + (("setdisc", p, s[2]),) if root(p).op != "local" else c.ev
                    self.write(c, p, T("setdisc", self.read(c, p), s[2]), event=False)
                    nxt.append(c)
                elif s[0] in ("dead", "live"):
                    if s[0] == "live" or fn.kind in ("fn", "assoc", "closure"):
                        self.kill_local(c, s[1], fr.fid)
                    nxt.append(c)
                elif s[0] == "copyno":
                    a = [self.operand(c, fr, o) for o in s[1:]]
                    c.ev = c.ev + (("copyno", tuple(a)),)
                    nxt.append(c)
                else:
                    nxt.append(c)
            cur = nxt
        t = bl["t"]
        k = t[0]
        res = []
        for c in cur:
            if self.hook_block is not None and self.hook_block(self, fr, b, c, outs):
                continue
            if k == "goto":
                res.append((c, t[1]))
            elif k == "switch":
                v = self.operand(c, fr, t[1])
                res.extend(self.switch(c, v, fr.sub(fn.crate.types[t[2]]), t[3], t[4]))
            elif k == "ret":
                outs.append(Out("ret", c, self.read(c, T("local", 0, fr.fid))))
            elif k == "drop":
                res.append((c, t[2]))
            elif k == "assert":
                v = self.operand(c, fr, t[1])
                for s2, bv in self.decide(c, v):
                    if bv == bool(t[2]):
                        res.append((s2, t[5]))
                    else:
                        outs.append(Out("panic", s2, T("panic", t[3])))
            elif k == "call":
                for s2, v in self.call(c, fr, b, t, outs):
                    if t[4] >= 0:
                        self.write(s2, self.place(s2, fr, t[3]), v)
                        res.append((s2, t[4]))
            elif k == "tailcall":
                for s2, v in self.call(c, fr, b, ["call", t[1], t[2], None, 0, t[3]], outs):
                    outs.append(Out("ret", s2, v))
            elif k == "unreach":
                pass
            elif k == "unwind":
                pass
            else:
                raise Unsupported(k)
        return res

    # ---- calls ------------------------------------------------------------------------------
    def call(self, st, fr, b, t, outs):
        """[(state, value)] of a call terminator; panics go to outs."""
        fo = t[1]
        argv = [self.operand(st, fr, o) for o in t[2]]
        argt = [self.oty(fr, o) for o in t[2]]
        if fo[0] == "k" and "fn" in fo[1]:
            f = fo[1]["fn"]
            name, ga, trait = f.get("res") or f["def"], [fr.sub(x) for x in self.ga(fr, f)], f.get("trait")
            cs = CallSite(self, fr, b, name, f["def"], ga, trait, argt, t, outs)
            return self.dispatch(st, cs, argv)
        fv = self.operand(st, fr, fo)
        cs = CallSite(self, fr, b, "<indirect>", "<indirect>", [], None, argt, t, outs)
        return self.call_value(st, cs, fv, argv)

    def dispatch(self, st, cs, argv):
        name = cs.name
        # generic trait call on a now-known self type
        if cs.trait and (name == cs.defn or name not in self.crate.fns) and cs.ga:
            m = cs.defn.rsplit("::", 1)[-1]
            sty = strip_ty(cs.ga[0])
            cand = [f for f in self.crate.impls.get((strip_ty(cs.trait), m), []) if strip_ty(f.self_ty) == sty]
            if len(cand) == 1:
                name = cs.name = cand[0].name
        um = self.user_models.get(name) or self.user_models.get(cs.defn)
        if um is not None:
            r = um(self, st, cs, argv)
            if r is not None:
                return r
        # closure invocation through Fn* traits
        if cs.trait and cs.trait.startswith(("std::ops::Fn", "core::ops::Fn")) and len(argv) == 2:
            tup = argv[1]
            n = None
            if tup.op == "tuple":
                a = list(tup.args[0])
                cv = argv[0]
                while cv.op == "ref":
                    cv = self.read(st, cv.args[0])
                if cv.op in ("closure", "fn"):
                    return self.call_value(st, cs, cv, a, argv[0])
                if name in self.crate.fns and self.crate.fns[name].kind == "closure":
                    return self.inline_call(st, cs, self.crate.fns[name], [argv[0]] + a)
        fn = self.crate.fns.get(name)
        if fn is not None and fn.kind in ("fn", "assoc", "closure") and not self.opaque(name):
            if self.stack.count(name) <= 1 and self.inline:
                return self.inline_call(st, cs, fn, argv)
        if fn is None or not self.inline:
            for pat, model in self.MODELS:
                if pat.search(name) or (name != cs.defn and pat.search(cs.defn)):
                    r = model(self, st, cs, argv)
                    if r is not None:
                        return r
        return self.opaque_call(st, cs, argv, name)

    def inline_call(self, st, cs, fn, argv):
        subst = {}
        if fn.generics:
            gs = [g for g in fn.generics]
            if len(gs) == len(cs.ga):
                subst = dict(zip(gs, cs.ga))
            elif len(gs) < len(cs.ga):
                subst = dict(zip(gs, cs.ga[-len(gs):]))
        outs = self.run_fn(fn, argv, st, cs.fr, (cs.b, cs.sub_site), subst)
        r = []
        for o in outs:
            if o.kind == "ret":
                r.append((o.st, o.val))
            else:
                cs.outs.append(o)
        return r

    def call_value(self, st, cs, fv, args, selfarg=None):
        """Call a function value with plain arguments."""
        cs.sub_site += 1
        while fv.op == "ref" and fv.args[0].op != "static":
            fv2 = self.read(st, fv.args[0])
            if fv2.op not in ("closure", "fn", "ref"):
                break
            fv = fv2
        if fv.op == "closure" and fv.args[0] in self.crate.fns:
            fn = self.crate.fns[fv.args[0]]
            sty = fn.lty(1) if fn.nargs >= 1 else ""
            if sty.startswith("&"):
                sa = selfarg if selfarg is not None and selfarg.op == "ref" else T("ref", T("pval", fv))
            else:
                sa = fv
            return self.inline_call(st, cs, fn, [sa] + list(args))
        if fv.op == "fn":
            nm = fv.args[0]
            c2 = CallSite(self, cs.fr, cs.b, nm, nm, list(fv.args[1]), None, [""] * len(args), cs.t, cs.outs)
            c2.sub_site = cs.sub_site
            ctor = self.ctor(nm, args)
            if ctor is not None:
                return [(st, ctor)]
            return self.dispatch(st, c2, list(args))
        return self.opaque_call(st, cs, [fv] + list(args), "<indirect>")

    def ctor(self, nm, args):
        """Tuple constructor used as a function value."""
        if nm in self.crate.adts:
            a = self.crate.adts[nm]
            v = a["variants"][0]
            if len(v[2]) == len(args):
                return T("adt", nm, v[0], tuple((f[0], x) for f, x in zip(v[2], args)))
        if "::" in nm:
            en, vn = nm.rsplit("::", 1)
            en = re.sub(r"::<.*>$", "", en)
            a = self.crate.adts.get(en)
            if a is not None:
                for v in a["variants"]:
                    if v[0] == vn and len(v[2]) == len(args):
                        return T("adt", en, vn, tuple((f[0], x) for f, x in zip(v[2], args)))
        return None

    def opaque_call(self, st, cs, argv, name, pure=False):
        if cs.t is not None and cs.t[4] < 0:
            cs.outs.append(Out("panic", st, T("panic", name)))
            return []
        args = tuple(self.close(st, a) for a in argv)
        mut = [i for i, ty in enumerate(cs.argt) if ty.startswith(("&mut", "*mut"))]
        seq = 0
        if not pure:
            seq = st.cnt.get(name, 0) + 1
            st.cnt[name] = seq
            self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        ret = T("call", name, args, seq)
        if not pure:
            st.ev = st.ev + (("c", name, args, ret),)
        for i in mut:
            if i < len(argv) and argv[i].op == "ref":
                self.write(st, argv[i].args[0], T("out", ret, i), event=False)
            elif i < len(argv) and argv[i].op not in ("k",):
                p = self.deref_of(argv[i])
                self.write(st, p, T("out", ret, i), event=False)
        return [(st, ret)]


def s0_view(env):
    return State(env)


def conds_key(conds, base):
    """Facts added inside a loop body (as a hashable, relative to the entry conditions)."""
    basek = set()
    if len(base) == 1:
        basek = set(base[0].items())
    return frozenset(frozenset(x for x in c.items() if x not in basek) for c in conds)


def strip_box(v):
    """((b.0).pointer) -> b for Box<T> pointer extraction, on values or initial places."""
    def is_f(t, names):
        return (t.op in ("proj", "fld")) and t.args[1] in names
    if v.op == "proj" and is_f(v, ("pointer", "0")) and is_f(v.args[0], ("0", "pointer")) and v.args[0].op == "proj":
        return v.args[0].args[0]
    if v.op == "init" and is_f(v.args[0], ("pointer", "0")) and is_f(v.args[0].args[0], ("0",)):
        return T("init", v.args[0].args[0].args[0])
    return None


def fbits(v, ty):
    if v.op == "k": return K(v.args[0], "i%d" % FLOATS[ty])
    if v.op == "ffrom": return v.args[1]
    return T("fbits", ty, v)


def ffrom(v, ty):
    if v.op == "k": return K(v.args[0], ty)
    if v.op == "fbits" and v.args[0] == ty: return v.args[1]
    return T("ffrom", ty, v)


class Frame:
    __slots__ = ("fn", "fid", "subst", "_cache")

    def __init__(self, fn, fid, subst):
        self.fn, self.fid, self.subst = fn, fid, subst
        self._cache = {}

    def sub(self, ty):
        if not self.subst:
            return ty
        r = self._cache.get(ty)
        if r is None:
            r = ty
            for k, v in self.subst.items():
                if k in r and k != v:
                    r = re.sub(r"(?<![A-Za-z0-9_:])" + re.escape(k) + r"(?![A-Za-z0-9_])", lambda m: v, r)
            self._cache[ty] = r
        return r


class CallSite:
    __slots__ = ("eng", "fr", "b", "name", "defn", "ga", "trait", "argt", "t", "outs", "sub_site")

    def __init__(self, eng, fr, b, name, defn, ga, trait, argt, t, outs):
        self.eng, self.fr, self.b, self.name, self.defn = eng, fr, b, name, defn
        self.ga, self.trait, self.argt, self.t, self.outs = ga, trait, argt, t, outs
        self.sub_site = 0

    def rty(self):
        d = self.t[3]
        if d and len(d) == 1:
            return self.fr.sub(self.fr.fn.lty(d[0]))
        return ""
