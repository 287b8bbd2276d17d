"""The register file and the register counts: every lane is saved, restored, copied, read, written and counted alike.

The register file is driven only through its own functions, found by their types.  Two views are analysed: files whose
sequences have known small lengths (values symbolic), and an arbitrary file (lengths symbolic)."""
import os
from base import *
from models import SOME, NONE, OPT
from opsem import Missing, LANES, vtype, VT
from result import Result, Finding
import constprop

RT = {"i32": "i32", "i64": "i64", "f32": "f32", "f64": "f64", "ref": "execution::value::Ref", "v128": "i128"}
REG = "execution::regs::Reg"
UP = {"i32": "I32", "i64": "I64", "f32": "F32", "f64": "F64", "ref": "Ref", "v128": "V128"}
PR = ("C11",)


class Regs:
    def __init__(self, cfg):
        self.cfg = cfg
        self.crate = crates(cfg)[0]["lib"]
        self.R = Result()
        c = self.crate
        self.file = self.adt(lambda tys: all("std::vec::Vec<%s>" % RT[l] in tys for l in LANES), "register file")
        self.allocation = self.find_allocation()
        F, A = self.file, self.allocation
        m, r = "&mut " + F, "&" + F
        self.fresh = self.fn([], F)
        self.save = self.fn([m, "&" + A], "()")
        self.restore = self.fn([m], "()")
        self.get = {l: self.fn([r, "u16"], RT[l]) for l in LANES}
        self.set = {l: self.fn([m, "u16", RT[l]], "()") for l in LANES}
        self.getv = self.fn([r, "&" + REG], "execution::value::Val")
        self.setv = self.fn([m, "&" + REG, "&execution::value::Val"], "()")
        self.copy = self.fn([m, "&" + REG, "&" + REG], "()")
        self.copys = self.fn([m, "&[%s]" % REG, "&[%s]" % REG], "()")
        self.slices = {l: self.fn([m], "&mut [%s]" % RT[l], True) for l in LANES}

    def adt(self, p, what):
        r = []
        for n, a in self.crate.adts.items():
            if len(a["variants"]) == 1 and p([self.crate.types[f[1]] for f in a["variants"][0][2]]):
                r.append(n)
        if len(r) != 1:
            raise Missing("%s: %s" % (what, r))
        return r[0]

    def find_allocation(self):
        s = {f.lty(2)[1:] for f in self.crate.fns.values() if f.kind in ("fn", "assoc") and f.nargs == 2 and f.lty(1) == "&mut " + self.file
             and f.lty(2).startswith("&") and f.lty(2)[1:] in self.crate.adts and f.lty(2)[1:] != REG and f.lty(0) == "()"}
        s = {n for n in s if len(self.crate.adts[n]["variants"]) == 1 and [self.crate.types[x[1]] for x in self.crate.adts[n]["variants"][0][2]] == ["usize"] * 6}
        if len(s) != 1:
            raise Missing("register counts of a function: %s" % sorted(s))
        return s.pop()

    def fn(self, args, ret, opt=False):
        r = [f for f in self.crate.fns.values() if f.kind in ("fn", "assoc") and f.nargs == len(args) and f.lty(0) == ret
             and [f.lty(i) for i in range(1, f.nargs + 1)] == args]
        if len(r) > 1:
            r = [f for f in r if f.name.startswith(self.file)] or r
        if len(r) != 1:
            if opt:
                return None
            raise Missing("function (%s) -> %s: %s" % (", ".join(args), ret, [f.name for f in r]))
        return r[0]

    def alloc(self, n):
        a = self.crate.adts[self.allocation]["variants"][0]
        r = []
        for x in a[2]:
            l = [l for l in LANES if x[0].startswith(l)]
            if len(l) != 1:
                raise Missing("lane of register count " + x[0])
            r.append((x[0], K(n[l[0]], "usize")))
        return T("adt", self.allocation, a[0], tuple(r))

    def reg(self, l, i):
        return T("adt", REG, UP[l], (("0", K(i, "u16")),))

    def ref(self, v):
        return T("ref", T("pval", v))

    def val(self, l, x):
        V = "execution::value::"
        if l == "ref":
            return T("adt", V + "Val", "Ref", (("0", x),))
        if l == "v128":
            return T("adt", V + "Val", "Vec_", (("0", T("adt", V + "Vec_", "V128", (("0", x),))),))
        return T("adt", V + "Val", "Num", (("0", T("adt", V + "Num", UP[l], (("0", x),))),))

    def machine(self, v=None):
        return Machine(self, v)

    def bad(self, key, text, f):
        self.R.findings.append(Finding(PR, key, "%s [%s build]" % (text, self.cfg), "%s (%s)" % (f.name, getattr(f, "span", "") or "") if f else ""))


class Stuck(Exception):
    pass


class Look:
    """Constant propagation through sequence terms under chosen lengths of the base sequences."""

    def __init__(self, lens, eng):
        self.lens, self.eng, self.memo, self.seqs = lens, eng, {}, {}

    def seq(self, v):
        """(length, element function) of a sequence term"""
        if v not in self.seqs:
            self.seqs[v] = self.seq_(v)
        return self.seqs[v]

    def seq_(self, v):
        o = v.op
        if o in ("vec", "array"):
            return len(v.args[0]), lambda i: v.args[0][i]
        if o == "from_elem":
            n = self.num(v.args[1])
            return n, lambda i: v.args[0]
        if o == "push":
            n, f = self.seq(v.args[0])
            return n + 1, lambda i: v.args[1] if i == n else f(i)
        if o == "popped":
            n, f = self.seq(v.args[0])
            return n - 1, f
        if o == "resized":
            n, f = self.seq(v.args[0])
            return self.num(v.args[1]), lambda i: f(i) if i < n else v.args[2]
        if o == "truncated":
            n, f = self.seq(v.args[0])
            return min(n, self.num(v.args[1])), f
        if o == "setlen":
            n, f = self.seq(v.args[0])
            return self.num(v.args[1]), lambda i: f(i) if i < n else T("uninit")
        if o == "upd":
            n, f = self.seq(v.args[0])
            ups = {}
            for path, x in v.args[1]:
                if len(path) != 1 or path[0][0] != "idx":
                    raise Stuck("update of a part of an element")
                ups[self.num(path[0][1])] = x
            return n, lambda i: ups[i] if i in ups else f(i)
        if v in self.lens:
            return self.lens[v], lambda i: T("elem0", v, i)
        raise Stuck("sequence " + fmt(v)[:80])

    def at(self, v, i):
        n, f = self.seq(v)
        if not 0 <= i < n:
            return T("outside", K(i, "usize"), K(n, "usize"))
        return f(i)

    def term(self, t):
        """t with lengths and elements of known sequences replaced"""
        if not isinstance(t, Term):
            return tuple(self.term(x) for x in t) if isinstance(t, tuple) else t
        if t in self.memo:
            return self.memo[t]
        if t.op == "len":
            try:
                r = K(self.seq(t.args[0])[0], "usize")
            except Stuck:
                r = t
        elif t.op == "elem" and len(t.args) == 2:
            r = self.term(self.at(t.args[0], self.num(t.args[1])))
        elif t.op == "proj":
            b = self.term(t.args[0])
            r = T("proj", b, *t.args[1:]) if b.op not in ("adt", "upd") else self.eng.project(b, t.args[1])
            if r is not t and r.op != "proj":
                r = self.term(r)
        elif t.op in ("k", "var", "s"):
            r = t
        elif t.op == "disc" and len(t.args) == 1:
            x = self.term(t.args[0])
            r = T("disc", x)
            if x.op == "outside":
                raise Outside("reaches position %d of %d" % (x.args[0].args[0], x.args[1].args[0]))
            if x.op == "adt":
                r = K(self.eng.crate.vdiscr(x.args[0], x.args[1]), "isize")
        else:
            r = T(t.op, *[self.term(x) for x in t.args])
            if r.op == "cap":          # any capacity above the length is possible
                r = K(self.seq(r.args[0])[0] + 64, "usize")
            elif r.op in ("Add", "Sub", "Mul", "zext", "trunc"):
                n = constprop.value(r, {})
                if n is not None:
                    w = r.args[1] if r.op == "zext" else r.args[0]
                    r = K(n, {64: "usize", 32: "u32", 16: "u16"}.get(w, "usize"))
            elif r.op in ("truncated", "resized"):
                r = self.fold(r)
        self.memo[t] = r
        return r

    def fold(self, v):
        """A sequence cut at a position it has, without what the cut removes."""
        while v.op in ("truncated", "resized"):
            b, k = v.args[0], self.num(v.args[1])
            if b.op == "upd" and v.op == "truncated":
                ups = tuple(u for u in b.args[1] if self.num(u[0][0][1]) < k)
                v = T("truncated", b.args[0], v.args[1])
                if ups:
                    v = self.fold(v)
                    return T("upd", v.args[0], tuple(v.args[1]) + ups) if v.op == "upd" else T("upd", v, ups)
            elif self.seq(b)[0] == k:
                v = b
            elif v.op == "truncated" and b.op == "resized" and k <= self.seq(b.args[0])[0]:
                v = T("truncated", b.args[0], v.args[1])
            else:
                break
        return v

    def num(self, t):
        n = constprop.value(self.term(t), {})
        if n is None:
            raise Stuck("number " + fmt(t)[:80])
        return n

    def holds(self, conds):
        """Do the facts of one outcome hold?"""
        for c in conds:
            ok = True
            for t, (pos, vals) in c.items():
                n = constprop.value(self.term(t), {})
                if n is None:
                    raise Stuck("condition " + fmt(t)[:80])
                if (n in vals) != pos:
                    ok = False
                    break
            if ok:
                return True
        return False


class Machine:
    """A register file and the functions applied to it so far."""

    def __init__(self, own, v=None, lens=None):
        self.own = own
        self.eng = Engine(own.crate)
        self.eng.unroll = True
        self.look = Look(lens or {}, self.eng)
        self.st = State()
        self.place = T("local", 0, "FILE")
        if v is None:
            self.st, v = self.one(own.fresh, [])
        self.st.env[self.place] = v

    def one(self, f, args):
        self.st.conds = [{}]
        self.eng.steps = 0
        rs = []
        for o in self.eng.run(f, args, self.st.copy()):

            if self.look.holds(o.st.conds):
                rs.append(o)
        if len(rs) != 1:
            raise Stuck("%s: %d outcomes" % (f.name, len(rs)))
        o = rs[0]
        if o.kind != "ret":
            raise Panics(f, fmt(o.val)[:100])
        return o.st, self.eng.close(o.st, o.val)

    def call(self, f, *args):
        self.st, v = self.one(f, [T("ref", self.place)] + list(args))
        w = self.look.term(self.value())
        self.st = State()
        self.st.env[self.place] = w
        return self.look.term(v)

    def value(self):
        return self.eng.close(self.st, self.eng.read(self.st, self.place))


class Panics(Exception):
    def __init__(self, f, what):
        Exception.__init__(self, "%s panics: %s" % (f.name, what))
        self.f = f


class Outside(Exception):
    pass


COUNTS = [dict(zip(LANES, x)) for x in ((3, 2, 4, 1, 2, 2), (1, 3, 2, 4, 1, 3))]


class Script:
    """A history of register file operations and what each read must give."""

    def __init__(self, own, name, m):
        self.own, self.name, self.m = own, name, m
        self.frames, self.n = [], 0
        self.dead = set()          # lanes already reported in this history

    def fresh(self, l):
        self.n += 1
        x = T("var", "%s value %d" % (l, self.n))
        if l == "ref":
            vs = self.own.crate.adts[RT["ref"]]["variants"]
            v = vs[self.n // 2 % len(vs)]
            return T("adt", RT["ref"], v[0], tuple((f[0], self.eta(self.own.crate.types[f[1]], x)) for f in v[2]))
        return x

    def eta(self, ty, x):
        """x of a struct type with one field, written as that struct"""
        a = self.own.crate.adts.get(ty)
        if a and len(a["variants"]) == 1 and len(a["variants"][0][2]) == 1:
            f = a["variants"][0][2][0]
            return T("adt", ty, a["variants"][0][0], ((f[0], self.eta(self.own.crate.types[f[1]], x)),))
        return x

    def save(self, n):
        self.m.call(self.own.save, self.own.ref(self.own.alloc(n)))
        self.frames.append({l: [None] * n[l] for l in LANES})

    def restore(self):
        self.m.call(self.own.restore)
        self.frames.pop()

    def fill(self, by="typed", only=None):
        o = self.own
        for l in only or LANES:
            for i in range(len(self.frames[-1][l])):
                x = self.fresh(l)
                if by == "typed":
                    self.m.call(o.set[l], K(i, "u16"), x)
                else:
                    self.m.call(o.setv, o.ref(o.reg(l, i)), o.ref(o.val(l, x)))
                self.frames[-1][l][i] = x

    def copy(self, l, i, j, many=False):
        o = self.own
        if many:
            k = len(self.frames[-1][l])
            src = [(l, i)] + [(x, 0) for x in LANES if x != l and len(self.frames[-1][x]) > 1]
            dst = [(l, j)] + [(x, len(self.frames[-1][x]) - 1) for x in LANES if x != l and len(self.frames[-1][x]) > 1]
            v = lambda rs: o.ref(T("vec", tuple(o.reg(*r) for r in rs)))
            self.m.call(o.copys, v(src), v(dst))
        else:
            src, dst = [(l, i)], [(l, j)]
            self.m.call(o.copy, o.ref(o.reg(*src[0])), o.ref(o.reg(*dst[0])))
        for (a, b), (c, d) in zip(src, dst):
            self.frames[-1][c][d] = self.frames[-1][a][b]

    def check(self, what):
        o = self.own
        for v, i in outer(self.m.value(), self.m.look):
            l = [l for l in LANES if l in str(v.args[0])]
            self.bad(l[0] if l else "", "outer frames", o.set[l[0]] if l else None,
                     "%s, %s: position %d of %s, which belongs to an outer frame, is overwritten" % (self.name, what, i, v.args[0]))
        for l in LANES:
            for i, want in enumerate(self.frames[-1][l]):
                if want is None and i > 8:
                    continue
                for f, args in ((o.get[l], (K(i, "u16"),)), (o.getv, (o.ref(o.reg(l, i)),))):
                    w = "%s, %s: %s register %d" % (self.name, what, l, i)
                    try:
                        got = self.m.call(f, *args)
                    except Outside as x:
                        self.bad(l, what, f, "reading %s %s" % (w, x))
                        continue
                    except Stuck as x:
                        o.R.undecided(PR, "%s: %s" % (what, str(x)[:80]))
                        continue
                    if has_op(got, "outside"):
                        self.bad(l, what, f, "%s lies past the registers allocated (%s)" % (w, fmt(got)[:120]))
                        continue
                    exp = want if want is None or f is not o.getv else o.val(l, want)
                    if want is None or got is exp:
                        o.R.good("C11", w)
                    elif plain(got) or differs(got, exp):
                        self.bad(l, what, f, "%s reads %s, last written %s" % (w, fmt(got)[:80], fmt(exp)[:80]))
                    else:
                        o.R.undecided(PR, "%s: value read not recognised: %s for %s" % (what, fmt(got)[:80], fmt(exp)[:80]))

    def bad(self, l, what, f, text):
        if (l, what) not in self.dead:
            self.dead.add((l, what))
            self.own.bad("regs:%s:%s" % (what, l), text, f)


def outer(t, look, seen=None):
    """Positions of the base sequences that have been overwritten."""
    if isinstance(t, tuple):
        for x in t:
            yield from outer(x, look)
    elif isinstance(t, Term):
        if t.op == "upd":
            b = t.args[0]
            while b.op in ("upd", "resized", "truncated", "push", "popped"):
                b = b.args[0]
            if b in look.lens:
                for path, x in t.args[1]:
                    if path[0][0] == "idx":
                        i = look.num(path[0][1])
                        if i < look.lens[b]:
                            yield b, i
        for a in t.args:
            yield from outer(a, look)


def has_op(t, o):
    return isinstance(t, Term) and (t.op == o or any(has_op(x, o) for x in t.args)) or isinstance(t, tuple) and any(has_op(x, o) for x in t)


def differs(a, b):
    """Same shape, and some scalar of it takes another value when distinguished bits are put for what was written."""
    if isinstance(a, Term) and isinstance(b, Term):
        if a is b:
            return False
        if a.op == "adt" and b.op == "adt":
            return a.args[:2] == b.args[:2] and any(differs(x[1], y[1]) for x, y in zip(a.args[2], b.args[2]))
        env = {}
        for t in leaves(a) | leaves(b):
            env[t] = (0x3ff123456789abcd + 0x1111 * t.id) & ((1 << (32 if "32" in t.args[0][:4] else 64)) - 1)
        x, y = constprop.value(a, env), constprop.value(b, env)
        return x is not None and y is not None and x != y
    return False


def leaves(t):
    if isinstance(t, Term):
        return {t} if t.op == "var" else set().union(*[leaves(x) for x in t.args]) if t.args else set()
    return set().union(*[leaves(x) for x in t]) if isinstance(t, tuple) and t else set()


def plain(t):
    """A value written earlier, a constant, or what an untouched slot of the base held: definitely not something else."""
    if isinstance(t, tuple):
        return all(plain(x) for x in t)
    if not isinstance(t, Term):
        return True
    if t.op == "adt":
        return all(plain(x) for _, x in t.args[2])
    return t.op in ("k", "var", "elem0", "uninit")


def histories(own):
    a = own.crate.adts[own.file]["variants"][0]
    fs = [f[0] for f in a[2]]
    F = T("adt", own.file, a[0], tuple((f, T("var", "file " + f)) for f in fs))
    bases = [("empty file", None, {})]
    for nm, n, d in (("file of some hundred registers", 300, 17), ("file of many registers", 70000, 1009)):
        bases.append((nm, F, {T("var", "file " + f): n + d * i for i, f in enumerate(fs)}))
    for nm, v, lens in bases:
        def go(title, fn):
            try:
                s = Script(own, "%s, %s" % (nm, title), Machine(own, v, lens))
                fn(s)
            except Panics as x:
                own.bad("regs:panic:" + x.f.name, "%s, %s: %s" % (nm, title, x), x.f)
            except (Stuck, Missing, Budget, Unsupported) as x:
                own.R.undecided(PR, "%s, %s: %s" % (nm, title, str(x)[:100]))

        def two(s, a=COUNTS[0], b=COUNTS[1]):
            s.save(a); s.fill(); s.check("write then read")
            s.save(b); s.fill("value"); s.check("write by value then read")
            s.restore(); s.check("entering and leaving")
            s.save(a); s.fill(); s.restore(); s.check("entering and leaving again")

        def cycles(s):
            s.save(COUNTS[0])
            n = []
            for i in range(3):
                s.save(COUNTS[1]); s.fill(); s.restore()
                n.append(sizes(s.m))
            for f in n[1]:
                if n[1][f] < n[2].get(f, 0):
                    s.bad(f, "size", own.restore, "%s: %s grows by %d with every call that has returned" % (s.name, f, n[2][f] - n[1][f]))
                else:
                    own.R.good("C11", "%s: %s does not grow with calls that have returned" % (s.name, f))

        def three(s):
            s.save(COUNTS[0]); s.fill()
            s.save(COUNTS[1]); s.fill()
            s.save(COUNTS[0]); s.fill(); s.check("nested write then read")
            s.restore(); s.check("leaving to the second frame")
            s.restore(); s.check("leaving to the first frame")
            s.save(COUNTS[1]); s.fill(); s.check("entering after leaving")

        def copies(s):
            s.save(COUNTS[1])
            s.save({l: 3 for l in LANES})
            for l in LANES:
                s.fill(); s.copy(l, 0, 2); s.check("copying one register")
                s.fill(); s.copy(l, 2, 0); s.check("copying one register")
            s.fill(); s.copy("i32", 0, 1, True); s.check("copying several registers")

        go("two frames", two)
        def far(s):
            s.save(COUNTS[0]); s.fill()
            s.save({l: 40000 for l in LANES})
            for i in (0, 1, 255, 256, 300, 32768, 39999):
                for l in LANES:
                    x = s.fresh(l)
                    s.m.call(own.set[l], K(i, "u16"), x)
                    s.frames[-1][l][i] = x
            s.check("write then read in a large frame")
            for l in LANES:
                s.copy(l, 39999, 256); s.copy(l, 300, 511)
            s.check("copying in a large frame")
            s.restore(); s.check("leaving a large frame")

        go("large frame", far)
        go("calls one after the other", cycles)
        go("three frames", three)
        go("copies", copies)
        for l in LANES:
            only = {x: (2 if x == l else 0) for x in LANES}
            go("frame of %s only" % l, lambda s: two(s, COUNTS[0], only))
            go("frame below of %s only" % l, lambda s: two(s, only, COUNTS[1]))


def counts(own):
    """Register counts: whatever is allocated, in whatever order, every register handed out is counted."""
    c = own.crate
    RA = "execution::regs::RegAllocator"
    fs = [f for f in c.fns.values() if f.kind in ("fn", "assoc")]
    sig = lambda a, r: [f for f in fs if [f.lty(i) for i in range(1, f.nargs + 1)] == a and f.lty(0) == r]
    new = sig(["&[(u32, %s)]" % VT], RA)
    fin = sig([RA], own.allocation) + sig(["&" + RA], own.allocation)
    push = sig(["&mut " + RA, VT], REG)
    pop = sig(["&mut " + RA, "&" + VT], REG)
    if len(new) != 1 or len(fin) != 1 or not push or len(pop) != 1:
        raise Missing("functions of the register allocator")
    save = [f for f in fs if f.nargs == 1 and f.lty(1) == "&" + RA and f.lty(0) in c.adts and len(c.adts[f.lty(0)]["variants"]) == 1 and f.lty(0) != own.allocation]
    res = [f for s in save for f in sig(["&mut " + RA, "&" + s.lty(0)], "()")]
    fld = {l: x[0] for l in LANES for x in c.adts[own.allocation]["variants"][0][2] if x[0].startswith(l)}
    locs = [[], [("i32", 3), ("f64", 1), ("ref", 2)], [("v128", 1), ("i64", 2), ("f32", 5), ("i64", 1)]]
    for p in push:
        for li, lv in enumerate(locs):
            lt = T("vec", tuple(T("tuple", (K(n, "u32"), vtype(c, l))) for l, n in lv))
            for name, script in (("in turn", "abcdef" * 3), ("lane by lane", "aaabbbccccddeeefff"), ("and given back", "aabBbbAaacdCDcdeEEefFff"),
                                 ("around a block", "aab(abcdef)cdef(ffeedd)aabb"), ("around two blocks", "abcdef(ab(cdef))(ef(abcd(abc)))c")):
                what = "%s %s, locals %d" % (p.name.split("::")[-1], name, li)
                try:
                    m = Machine(own, T("var", "none"))
                    m.st, v = m.one(new[0], [own.ref(lt)])
                    m.st = State()
                    m.st.env[m.place] = v
                    top, sv = {l: -1 for l in LANES}, []
                    for ch in script:
                        if ch in "()":
                            if not (len(save) == 1 and len(res) == 1):
                                continue
                            if ch == "(":
                                sv.append(m.call(save[0]))
                            else:
                                m.call(res[0], own.ref(sv.pop()))
                            continue
                        l = LANES["abcdef".index(ch.lower())]
                        if ch.isupper():
                            m.call(pop[0], own.ref(vtype(c, l)))
                            continue
                        r = m.call(p, vtype(c, l))
                        if r.op != "adt" or not is_k(r.args[2][0][1]):
                            raise Stuck("register " + fmt(r)[:60])
                        if r.args[1] != UP[l]:
                            own.bad("regs:lane:" + l, "%s: a register of type %s is handed out for %s" % (what, r.args[1], l), p)
                        top[l] = max(top[l], r.args[2][0][1].args[0])
                    o = m.one(fin[0], [m.value() if fin[0].lty(1) == RA else T("ref", m.place)])[1]
                    for l in LANES:
                        n = m.look.num(m.eng.project(o, fld[l]))
                        if n <= top[l]:
                            own.bad("regs:count:" + l, "%s: %s register %d is handed out, but only %d are counted" % (what, l, top[l], n), fin[0])
                        else:
                            own.R.good("C11", "%s: %s registers counted" % (what, l))
                except Panics as x:
                    own.bad("regs:panic:" + x.f.name, "%s: %s" % (what, x), x.f)
                except (Stuck, Missing, Budget, Unsupported) as x:
                    own.R.undecided(PR, "%s: %s" % (what, str(x)[:100]))


def sizes(m):
    v = m.value()
    r = {}
    if v.op == "adt":
        for f, x in v.args[2]:
            try:
                r[f] = m.look.seq(x)[0]
            except Stuck:
                pass
    return r


def run(cfg):
    try:
        r = Regs(cfg)
    except Missing as x:
        R = Result()
        R.undecided(PR, str(x))
        return R
    histories(r)
    try:
        counts(r)
    except Missing as x:
        r.R.undecided(PR, str(x))
    r.R.scope["register file functions [%s]" % cfg] = sorted(f.name for f in [r.fresh, r.save, r.restore, r.getv, r.setv, r.copy, r.copys] + list(r.get.values()) + list(r.set.values()))
    return r.R
