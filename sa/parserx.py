"""Transfer functions of the instruction compiler: what one iteration of the decoding loop does for each operator.

The loop of the function that reads wasmparser operators and appends ProcessedInstr values is analysed once per
operator from an arbitrary loop state (all loop variables symbolic; only the fact "the operator read is V" is assumed),
with the register allocator and the folding helpers inlined.  The result, per operator, is the set of guarded effects:
instructions appended, registers read / allocated, pending operands consumed / deferred, operators swallowed.
"""
from base import *
from models import SOME, NONE, OK, RES, OPT, mem_ver
from engine import Frame

OPER = "wasmparser::Operator"


class Missing(Exception):
    pass


def opres(pos):
    return T("opres", pos)


def opterm(eng, pos):
    return eng.project(eng.project(opres(pos), "Ok.0"), "0")


def m_mp_next(eng, st, cs, a):
    n = st.cnt.get("consumed", 0)
    s1 = st.copy()
    r = []
    for s, b in has_op(eng, st, n):
        if b:
            s = s.copy()
            s.cnt["consumed"] = n + 1
            s.cnt["peeked"] = 0
            r.append((s, SOME(opres(n))))
        else:
            r.append((s, NONE))
    return r


def has_op(eng, st, n):
    if n == 0:
        return [(st, True)]
    return eng.decide(st, T("hasop", n))


def m_mp_peek(eng, st, cs, a):
    n = st.cnt.get("consumed", 0) + st.cnt.get("peeked", 0)
    r = []
    for s, b in has_op(eng, st, n):
        s = s.copy()
        s.cnt["peeked"] = s.cnt.get("peeked", 0) + 1
        r.append((s, SOME(T("ref", T("pval", opres(n)))) if b else NONE))
    return r


def m_mp_reset(eng, st, cs, a):
    st.cnt["peeked"] = 0
    return [(st, UNIT)]


def m_umax(eng, st, cs, a):
    return [(st, umax(*a))]


def umax(a, b):
    xs = set()
    for t in (a, b):
        if t.op == "umax":
            xs |= set(t.args[0])
        else:
            xs.add(t)
    # drop x if x+c (c>0 small) is present: allocation depths never wrap
    def base(t):
        if t.op == "Add" and is_k(t.args[2]):
            return t.args[1], sgn(t.args[2].args[0], 64)
        return t, 0
    best = {}
    ks = [x.args[0] for x in xs if is_k(x)]
    out = {}
    for t in xs:
        if is_k(t):
            continue
        b, c = base(t)
        if b not in best or best[b] < c:
            best[b] = c
            out[b] = t
    res = set(out.values())
    if ks:
        res.add(K(max(ks), "usize"))
    if len(res) == 1:
        return next(iter(res))
    return T("umax", tuple(sorted(res, key=key)))


def m_mp_new(eng, st, cs, a):
    return None


MP = {}


class Arm:
    """One guarded effect of an operator."""
    __slots__ = ("st", "kind", "val", "eff")


class ParserX:
    def __init__(self, crate):
        self.crate = crate
        self.find()
        self.cache = {}

    def find(self):
        """The decoding loop: a function with a Vec<ProcessedInstr> and a pending operator iterator."""
        cands = []
        for f in self.crate.fns.values():
            if f.kind not in ("fn", "assoc"):
                continue
            tys = [f.lty(i) for i in range(len(f.locals))]
            if not any(t.startswith("std::vec::Vec<execution::ir::ProcessedInstr>") for t in tys):
                continue
            if not any(t == "execution::regs::RegAllocator" or t == "std::option::Option<execution::regs::RegAllocator>" for t in tys):
                continue
            heads = f.loops()
            live = f.live_in()
            for h, body in heads.items():
                lt = [f.lty(i) for i in live[h]]
                nxt = any(self.calls_next(f, b) for b in body)
                if nxt and any("RegAllocator" in t and "State" not in t for t in lt) and any("Vec<execution::ir::ProcessedInstr>" in t for t in lt):
                    cands.append((f, h))
        # outermost loop only
        cands = [(f, h) for f, h in cands if not any(g is f and h2 != h and h in f.loops()[h2] for g, h2 in cands)]
        if len(cands) != 1:
            raise Missing("decoding loop of the instruction compiler: %d candidates" % len(cands))
        self.fn, self.head = cands[0]
        f = self.fn
        live = f.live_in()[self.head]
        self.vars = {}
        for i in live:
            ty = f.lty(i)
            role = None
            if "MultiPeek" in ty: role = "ops"
            elif "PendingOperand" in ty: role = "pending"
            elif ty == "std::vec::Vec<execution::ir::ProcessedInstr>": role = "instrs"
            elif "FixupInfo" in ty: role = "fixups"
            elif "ControlBlockInfo" in ty: role = "control"
            elif "RegAllocatorState" in ty: role = "states"
            elif "RegAllocator" in ty: role = "alloc"
            elif ty.startswith("&structure::module::Module"): role = "module"
            if role is None:
                role = f.lname(i) or "v%d" % i
            self.vars[role] = i
        for r in ("ops", "instrs", "alloc", "pending", "control", "states", "fixups"):
            if r not in self.vars:
                raise Missing("loop variable for %s in %s" % (r, f.name))

    def calls_next(self, f, b):
        t = f.blocks[b]["t"]
        if t[0] != "call" or t[1][0] != "k" or "fn" not in t[1][1]:
            return False
        g = t[1][1]["fn"]
        nm = g.get("res") or g["def"]
        return nm.endswith("::next") and "MultiPeek" in nm

    def engine(self, extra=None):
        models = {
            "<itertools::MultiPeek<I> as std::iter::Iterator>::next": m_mp_next,
            "itertools::MultiPeek::<I>::peek": m_mp_peek,
            "itertools::MultiPeek::<I>::reset_peek": m_mp_reset,
            "std::cmp::impls::<impl std::cmp::Ord for usize>::max": m_umax,
            "wasmparser::Ieee32::bits": lambda e, st, cs, a: [(st, T("ieeebits", a[0] if a[0].op != "ref" else e.read(st, a[0].args[0])))],
            "wasmparser::Ieee64::bits": lambda e, st, cs, a: [(st, T("ieeebits", a[0] if a[0].op != "ref" else e.read(st, a[0].args[0])))],
        }
        if extra:
            models.update(extra)
        e = Engine(self.crate, models=models, budget=60000)
        return e

    def opdisc(self, name):
        for v in self.crate.adts[OPER]["variants"]:
            if v[0] == name:
                return v[1]
        raise Missing("operator " + name)

    def opname(self, d):
        if not hasattr(self, "_on"):
            self._on = {v[1]: v[0] for v in self.crate.adts[OPER]["variants"]}
        return self._on.get(d, "?%d" % d)

    def fieldnames(self, name):
        for v in self.crate.adts[OPER]["variants"]:
            if v[0] == name:
                return [x[0] for x in v[2]]

    def loc(self, role, fid):
        return T("local", self.vars[role], fid)

    def start(self, eng, op, env=None, facts=None, nxt=()):
        """State at the loop head. env: role -> Term overrides; nxt: facts about following operators."""
        fr = Frame(self.fn, eng.fid(0, ("top", self.fn.name)), {})
        st = State()
        for role, i in self.vars.items():
            st.env[T("local", i, fr.fid)] = T("var", role)
        aty = self.fn.lty(self.vars["alloc"])
        av = T("var", "alloc")
        if aty.startswith(OPT):
            av = SOME(av)
        st.env[self.loc("alloc", fr.fid)] = av
        for r, v in (env or {}).items():
            st.env[self.loc(r, fr.fid)] = v
        cond = {}
        # operand depths are large enough: validation guarantees the operands exist
        if op is not None:
            t = eng.discr(opterm(eng, 0), OPER)
            cond[t] = (True, frozenset((self.opdisc(op),)))
            cond[eng.discr(opres(0), RES)] = (True, frozenset((self.okd(),)))
        for f in ("i32", "i64", "f32", "f64", "ref", "v128"):
            d = eng.project(T("var", "alloc"), f + "_depth")
            cond[T("LtU", 64, d, K(64, "usize"))] = (True, frozenset((0,)))
        if facts:
            cond.update(facts)
        st.conds = [cond]
        return fr, st

    def okd(self):
        return self.crate.vdiscr(RES, "Ok")

    def run(self, op, env=None, facts=None, extra=None):
        """[(kind, State, fr)] outcomes of one iteration for operator `op`:
        kind 'next' (back to the loop head), 'exit' (left the loop) or 'ret'/'panic'."""
        eng = self.engine(extra)
        fr, st = self.start(eng, op, env, facts)
        self.last_eng = eng
        outs = []
        eng.steps = 0
        eng.stack.append(self.fn.name)
        eng.visited_fns.add(self.fn.name)
        try:
            exits, backs = eng.explore(fr, self.fn.loops()[self.head], self.head, [st], outs, is_head=True)
        finally:
            eng.stack.pop()
        res = [("next", s, None) for s in backs] + [("exit", s, b) for b, s in exits] + [(o.kind, o.st, o.val) for o in outs]
        return eng, fr, res
