"""Composition of the instruction compiler with the handlers.

compile(op, stack)  one iteration of the decoding loop for an operator on a symbolic compiler state whose value stack
                    has the given types on top: the guarded effects (instructions appended, values popped and pushed,
                    pending operands consumed or deferred, operators swallowed, fixups recorded).
execute(instr)      the handler selected for an emitted instruction, run on a symbolic VM state in which that
                    instruction is the current one: guarded effects (register, local, memory ... writes; outcome).
Both are interpretations of the crate's MIR in the value-number domain; nothing is executed.
"""
from base import *
from engine import Frame, DOMAIN, fact_and
from models import SOME, NONE, OK, RES, OPT
import parserx
from parserx import ParserX, OPER, opterm, opres, Missing

PI = "execution::ir::ProcessedInstr"
LANES = ("i32", "i64", "f32", "f64", "ref", "v128")
VT = "structure::types::ValueType"


def vtype(crate, t):
    """ValueType term for a lane name; 'funcref'/'externref' for references."""
    if t in ("i32", "i64", "f32", "f64"):
        return T("adt", VT, "NumType", (("0", T("adt", "structure::types::NumType", t.upper(), ())),))
    if t in ("funcref", "externref", "ref"):
        n = "ExternalRef" if t == "externref" else "FuncRef"
        return T("adt", VT, "RefType", (("0", T("adt", "structure::types::RefType", n, ())),))
    return T("adt", VT, "VecType", (("0", T("adt", "structure::types::VecType", "V128", ())),))


def lane(t):
    return "ref" if t in ("funcref", "externref") else t


def depth(l):
    return T("var", "d_" + l)


def slot(l, k):
    """register index of the lane-l operand that has k lane-l operands (itself included) above or at it"""
    return trunc(mk("Add", 64, depth(l), K(-k, "usize")), 64, 16)


class CArm:
    __slots__ = ("kind", "st", "eng", "fr", "instrs", "fixups", "consumed", "pending", "types", "depths", "maxs", "val",
                 "conds", "alloc", "control", "states")


class Compiler:
    def __init__(self, crate):
        self.crate = crate
        self.px = ParserX(crate)
        self.find_roles()

    def find_roles(self):
        """Tell the two usize loop variables apart by what they do: the one compared with zero gates emission."""
        px = self.px
        us = [r for r, i in px.vars.items() if px.fn.lty(i) == "usize"]
        eng, fr, res = px.run("Nop")
        gate, pc = set(), set()
        for k, s, v in res:
            for c in s.conds:
                for t in c:
                    for r in us:
                        if t is T("var", r) or (t.op in ("LtU", "LtS") and t.args[1] is T("var", r)):
                            gate.add(r)
            for r in us:
                x = eng.read(s, px.loc(r, fr.fid))
                if x.op == "Add" and x.args[1] is T("var", r):
                    pc.add(r)
        pc -= gate
        if len(gate) != 1 or len(pc) != 1:
            raise Missing("loop variables gating emission %s and counting instructions %s" % (sorted(gate), sorted(pc)))
        self.gate, self.pc = gate.pop(), pc.pop()

    def alloc_term(self, stack):
        ts = T("var", "tstack")
        for t in stack:
            ts = T("push", ts, vtype(self.crate, t))
        fs = []
        for f in self.crate.adts["execution::regs::RegAllocator"]["variants"][0][2]:
            n = f[0]
            if n.startswith("max_"): v = T("var", "m_" + n[4:-6])
            elif n.endswith("_depth"): v = depth(n[:-6])
            elif n == "type_stack": v = ts
            else: v = T("var", "alloc_" + n)
            fs.append((n, v))
        return T("adt", "execution::regs::RegAllocator", "RegAllocator", tuple(fs))

    def compile(self, op, stack, pending=(), reachable=True, facts=None, env=None, extra=None):
        px = self.px
        e = {}
        a = self.alloc_term(stack)
        e["alloc"] = SOME(a) if px.fn.lty(px.vars["alloc"]).startswith(OPT) else a
        pv = T("vec", ())
        for p in pending:
            pv = T("push", pv, p)
        e["pending"] = pv
        if reachable:
            e[self.gate] = K(0, "usize")
        e.update(env or {})
        f = {}
        for l in LANES:
            f[T("LtU", 64, depth(l), K(64, "usize"))] = (True, frozenset((0,)))
            f[T("LtU", 64, depth(l), K(65535 - 64, "usize"))] = (True, frozenset((1,)))
        f.update(facts or {})
        eng, fr, res = px.run(op, e, f, extra)
        out = []
        for k, s, v in res:
            c = CArm()
            c.kind, c.st, c.eng, c.fr, c.val = k, s, eng, fr, v
            c.conds = s.conds
            rd = lambda r: eng.close(s, eng.read(s, px.loc(r, fr.fid)))
            if k in ("next", "exit"):
                c.instrs = unpush(rd("instrs"), T("var", "instrs"))
                c.fixups = unpush(rd("fixups"), T("var", "fixups"))
                c.pending = rd("pending")
                c.control, c.states = rd("control"), rd("states")
                al = rd("alloc")
                if al.op == "adt" and al.args[1] == "Some":
                    al = al.args[2][0][1]
                c.alloc = al
                c.types = eng.project(al, "type_stack")
                c.depths = {l: eng.project(al, l + "_depth") for l in LANES}
                c.maxs = {l: eng.project(al, "max_" + l + "_depth") for l in LANES}
            c.consumed = s.cnt.get("consumed", 0)
            out.append(c)
        return out


def unpush(v, base):
    """Elements pushed onto base, or None when v is not a sequence of pushes onto base."""
    r = []
    while v.op == "push":
        r.append(v.args[1])
        v = v.args[0]
    if v is not base:
        return None
    return r[::-1]


class _Found(Exception):
    def __init__(self, p):
        self.p = p


NEXTH = T("nexth")


class HArm:
    __slots__ = ("kind", "out", "conds", "writes", "events", "st", "eng", "val", "raw")


class Executor:
    """Runs the handler of an instruction on a symbolic VM state."""

    def __init__(self, crate, extra=None):
        self.crate = crate
        self.extra = extra or {}
        self.tail = True
        self.curplace = {}
        self.hsel = None
        hs = [f for f in crate.fns.values() if f.kind in ("fn", "assoc") and f.nargs == 1
              and f.lty(1).endswith(PI) and f.lty(1).startswith("&") and "fn(" in f.lty(0) and f.lty(0).endswith("ir::Outcome")]
        if len(hs) != 1:
            raise Missing("function selecting the handler of an instruction: %d candidates" % len(hs))
        self.hsel = hs[0]
        self.selcache = {}
        # tail-call builds: the function choosing what runs next; calling what it returns continues dispatch
        self.nexts = [f for f in crate.fns.values() if f.kind in ("fn", "assoc") and f.nargs == 1
                      and f.lty(1).endswith("state::VmState") and f.lty(1).startswith("&")
                      and "fn(" in f.lty(0) and f.lty(0).endswith("ir::Outcome")]

    def select(self, instr):
        """[(facts, handler function name)]"""
        eng = Engine(self.crate)
        r = []
        for o in eng.run(self.hsel, [T("ref", T("pval", instr))]):
            if o.kind == "ret" and o.val.op == "fn":
                r.append((o.st.conds, o.val.args[0]))
            else:
                r.append((o.st.conds, None))
        return r

    def engine(self, **kw):
        ex = self

        class E(Engine):
            def discr(self, v, ty):
                if v.op == "init" and strip_pi(ty) == PI and v.args[0] not in self.known:
                    raise _Found(v.args[0])
                return Engine.discr(self, v, ty)

            def call_value(self, st, cs, fv, args, selfarg=None):
                if fv is NEXTH:
                    return [(st, T("adt", "execution::ir::Outcome", "Continue", ()))]
                return Engine.call_value(self, st, cs, fv, args, selfarg)
        models = dict(self.extra)
        if self.tail:
            for f in self.nexts:
                models[f.name] = lambda e, st, cs, a: [(st, NEXTH)]
        e = E(self.crate, models=models, **kw)
        e.known = set()
        e.inrange = slot_in_range
        return e

    def cur(self, name):
        """Place of the current instruction as handler `name` addresses it."""
        if name in self.curplace:
            return self.curplace[name]
        e = self.engine()
        p = None
        try:
            e.run(self.crate.fns[name])
        except _Found as f:
            p = f.p
        if p is not None and not self.is_current(p):
            raise Missing("%s reads an instruction that is not the current one: %s" % (name, fmt(p)[:200]))
        self.curplace[name] = p
        return p

    def is_current(self, p):
        s = set()
        def walk(t):
            if isinstance(t, Term):
                if t.op == "fld":
                    s.add(t.args[1])
                for a in t.args: walk(a)
            elif isinstance(t, tuple):
                for a in t: walk(a)
        walk(p)
        idx = None
        if p.op == "deref" and p.args[0].op == "padd": idx = p.args[0].args[1]
        elif p.op == "idx": idx = p.args[1]
        return idx is not None and idx.op == "init" and idx.args[0].op == "fld" and idx.args[0].args[1] == "pc" and "instrs" in s

    def execute(self, name, instr, facts=None, env=None):
        e = self.engine()
        p = self.cur(name)
        st = State()
        if p is not None:
            e.known.add(p)
            if instr is not None:
                st.env[p] = instr
        if env:
            st.env.update(env)
        if facts:
            st.conds = [dict(c) for c in facts] if isinstance(facts, list) else [dict(facts)]
        outs = e.run(self.crate.fns[name], None, st)
        res = []
        for o in outs:
            a = HArm()
            a.kind, a.st, a.eng = o.kind, o.st, e
            a.val = o.val
            a.out = o.val.args[1] if o.kind == "ret" and o.val.op == "adt" else None
            a.conds = o.st.conds
            a.raw = o.st.ev
            res.append(a)
        return res, e


def strip_pi(ty):
    return ty.lstrip("&").replace("mut ", "").strip()


# ---- canonical names for VM places and values -----------------------------------------------------
_cz = {}


def lane_of_place(p):
    """idx(<lane>_regs, offset + i) -> (lane, i)"""
    if p.op != "idx":
        return None
    b = p.args[0]
    while b.op in ("deref", "init"):
        b = b.args[0]
    if b.op != "fld" or not str(b.args[1]).endswith("_regs"):
        return None
    l = b.args[1][:-5]
    if l not in LANES:
        return None
    i = p.args[1]
    if i.op == "Add":
        x, y = i.args[1], i.args[2]
        for o, r in ((x, y), (y, x)):
            s = strip_off(o)
            if s == l + "_offset":
                return l, unext(r)
    if i.op == "zext" and strip_off(i) == l + "_offset":
        return l, K(0, "i16")
    return None


def slot_in_range(i, v):
    """The register file holds every register of the running frame (shown by the register file's own check)."""
    fs = []

    def walk(t):
        if isinstance(t, Term):
            if t.op == "fld" and str(t.args[1]).endswith("_regs"):
                fs.append(t)
                return
            for x in t.args:
                walk(x)
        elif isinstance(t, tuple):
            for x in t:
                walk(x)
    walk(v)
    return bool(fs) and lane_of_place(T("idx", fs[0], i)) is not None


def strip_off(o):
    while o.op in ("zext", "init", "trunc", "sext", "proj", "deref"):
        if o.op == "zext": o = o.args[2]
        elif o.op in ("sext", "trunc"): o = o.args[2]
        elif o.op == "proj": return o.args[1]
        else: o = o.args[0]
        if o.op == "fld":
            return o.args[1]
    return None


def unext(t):
    while t.op in ("zext", "trunc"):
        t = t.args[2]
    return t


def local_of_place(p):
    """place of a local's Val -> index term"""
    if p.op == "deref" and p.args[0].op == "padd":
        b, i = p.args[0].args[0], p.args[0].args[1]
        if ends_fld(b, "locals"):
            return unext(i)
    if p.op == "idx" and ends_fld(p.args[0], "locals"):
        return unext(p.args[1])
    if p.op == "deref" and ends_fld(p.args[0], "locals"):
        return K(0, "i64")
    return None


def ends_fld(b, name):
    while b.op in ("deref", "init", "ref"):
        b = b.args[0]
    return b.op == "fld" and b.args[1] == name


def cplace(p):
    """Canonical place: R(lane, idx), L(idx), S(field) or the place itself."""
    r = lane_of_place(p)
    if r is not None:
        return T("R", *r)
    n = local_of_place(p)
    if n is not None:
        return T("L", n)
    if p.op == "fld" and p.args[0].op == "deref" and p.args[0].args[0].op == "arg":
        return T("S", p.args[1])
    if p.op == "fld":
        return T("fld", cplace(p.args[0]), p.args[1])
    if p.op == "idx":
        return T("idx", cplace(p.args[0]), cz(p.args[1]))
    if p.op == "deref":
        return T("deref", cz(p.args[0]))
    if p.op == "range":
        return T("range", cplace(p.args[0]), *[cz(a) for a in p.args[1:]])
    if p.op == "cell":
        return T("cell", cz(p.args[0]))
    return p


def cz(t):
    """Canonical value."""
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return tuple(cz(x) for x in t)
        return t
    r = _cz.get(t)
    if r is not None:
        return r
    if t.op == "init":
        p = t.args[0]
        path = []
        q = p
        while q.op == "fld" and local_of_place(q) is None and lane_of_place(q) is None:
            path.append(q.args[1])
            q = q.args[0]
        n = local_of_place(q)
        if n is not None:
            fs = path[::-1]
            if len(fs) >= 2 and fs[0] == "Num.0":
                r, fs = T("LN", n, fs[1].split(".")[0].lower()), fs[2:]
            elif fs and fs[0] == "Ref.0":
                r, fs = T("LN", n, "ref"), fs[1:]
            else:
                r = T("LV", n)
            for f in fs:
                r = T("proj", r, f)
        elif lane_of_place(q) is not None:
            r = cplace(q)
            for f in path[::-1]:
                r = T("proj", r, f)
        else:
            c = cplace(p)
            r = c if c.op in ("R",) else T("init", c)
    elif t.op == "ref":
        r = T("ref", cplace(t.args[0]))
    else:
        r = T(t.op, *[cz(a) for a in t.args])
    _cz[t] = r
    return r


def well_typed(conds, want):
    """Conjunctions whose facts about the variants of locals agree with `want` {index term: lane}."""
    return conds


def writes(arm):
    """Final canonical value per canonical place written."""
    w = {}
    for ev in arm.raw:
        if ev[0] == "w":
            w[cplace(ev[1])] = cz(ev[2])
    return w
