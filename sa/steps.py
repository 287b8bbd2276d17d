"""One compilation step for every operator, from every compiler state that folding can leave behind.

A state is the top of the value stack, each item either in its register or still pending (a deferred local read or
constant), together with what deferral has established about the operators that follow.  States are discovered by a
worklist from the empty one; the successor relation is what the compiler's own code does (opsem.Compiler).
"""
from opsem import *
import wasmspec
from wasmspec import SIG, POLY

NUM = {"i32", "i64", "f32", "f64"}


def field(op, f, pos=0):
    return T("proj", opterm_(pos), "%s.%s" % (op, f))


def opterm_(pos):
    return T("proj", T("proj", opres(pos), "Ok.0"), "0")


class Item:
    """A value on the operand stack: in a register ('r'), or pending ('p', compiler term, meaning)."""
    __slots__ = ("kind", "lane", "term", "mean", "label", "slot")

    def __init__(self, kind, lane, term=None, mean=None, label="", slot=True):
        self.kind, self.lane, self.term, self.mean, self.label = kind, lane, term, mean, label
        self.slot = slot          # occupies a register and an entry of the compiler's type stack

    def key(self):
        return (self.kind, self.lane, self.term, self.slot)

    def __repr__(self):
        return self.lane if self.kind == "r" else "%s:%s" % (self.label, self.lane)


class Case:
    """An operator with its operand and result lanes and the facts that select this typing."""
    __slots__ = ("op", "t", "params", "results", "facts", "label")

    def __init__(self, op, params, results, t=None, facts=None):
        self.op, self.params, self.results, self.t, self.facts = op, tuple(params), tuple(results), t, facts or {}
        self.label = op + ("<%s>" % t if t else "")


class Step:
    __slots__ = ("state", "case", "arm", "opnds", "problems", "results", "rest", "folded", "newpend")


class Lab:
    def __init__(self, config="legacy"):
        self.crate = crates(config)[0]["lib"]
        self.C = Compiler(self.crate)
        self.X = Executor(self.crate)
        self.eng = Engine(self.crate)
        self.models = {}
        self.find_type_helpers()
        self.ncompiled = 0
        self.lset = set()

    # -- typing helpers of the compiler: an uninterpreted type per local / global index -------------
    def find_type_helpers(self):
        self.ltype_fns, self.gtype_fns = [], []
        for f in self.crate.fns.values():
            if f.kind not in ("fn", "assoc") or f.lty(0) != VT:
                continue
            a = [f.lty(i) for i in range(1, f.nargs + 1)]
            if sorted(a) == sorted(["&[%s]" % VT, "&[(u32, %s)]" % VT, "u32"]):
                i = a.index("u32")
                self.models[f.name] = lambda e, st, cs, av, i=i: [(st, T("ltype", av[i]))]
                self.ltype_fns.append(f)
            elif len(a) == 2 and "u32" in a and any(x == "&structure::module::Module" for x in a):
                i = a.index("u32")
                self.models[f.name] = lambda e, st, cs, av, i=i, n=f.name: [(st, T("mtype", n, av[i]))]
                self.gtype_fns.append(f)
        # which of the module-type helpers types globals
        idx = field("GlobalGet", "global_index")
        for f in self.gtype_fns:
            for a in self.C.compile("GlobalGet", [], extra=self.models):
                if any(self.eng.discr(T("mtype", f.name, idx), VT) in c for c in a.conds):
                    self.gtype = f.name

    def tyfacts(self, t, l):
        """Facts saying that the ValueType term t is the type of lane l."""
        e = self.eng
        if l in NUM:
            n = e.project(t, "NumType.0")
            return {e.discr(t, VT): (True, frozenset((self.crate.vdiscr(VT, "NumType"),))),
                    e.discr(n, "structure::types::NumType"):
                        (True, frozenset((self.crate.vdiscr("structure::types::NumType", l.upper()),)))}
        v = "RefType" if l == "ref" else "VecType"
        return {e.discr(t, VT): (True, frozenset((self.crate.vdiscr(VT, v),)))}

    def lane_of_facts(self, conds, t):
        """Lanes a type term may have under the (disjunctive) facts."""
        e = self.eng
        d, n = e.discr(t, VT), e.discr(e.project(t, "NumType.0"), "structure::types::NumType")
        r = set()
        for c in conds:
            f, g = c.get(d), c.get(n)
            for l in LANES:
                want = self.tyfacts(t, l)
                if all(fact_and(c.get(k), v) is None or fact_and(c.get(k), v)[1] for k, v in want.items()):
                    r.add(l)
        return r

    def cases(self, op):
        r = []
        if op in SIG:
            p, q = SIG[op]
            f = {}
            if op.startswith("Table"):
                # a table's element type is a reference type
                for g in self.gtype_fns:
                    if g.name != self.gtype:
                        f.update(self.tyfacts(T("mtype", g.name, field(op, "table")), "ref"))
            return [Case(op, p, q, facts=f)]
        if op in POLY:
            for t in wasmspec.LANES:
                if t == "v128":
                    continue
                if op == "Select" and t not in NUM:
                    continue
                p, q = POLY[op](t)
                f = {}
                if op.startswith("Local"):
                    f = self.tyfacts(T("ltype", field(op, "local_index")), t)
                elif op.startswith("Global"):
                    f = self.tyfacts(T("mtype", self.gtype, field(op, "global_index")), t)
                elif op == "TypedSelect":
                    f = self.valtype_facts(field(op, "ty"), t)
                r.append(Case(op, p, q, t, f))
        return r

    def valtype_facts(self, t, l):
        e = self.eng
        WT = "wasmparser::ValType"
        n = {"i32": "I32", "i64": "I64", "f32": "F32", "f64": "F64", "ref": "Ref", "v128": "V128"}[l]
        return {e.discr(t, WT): (True, frozenset((self.crate.vdiscr(WT, n),)))}

    # -- one step ---------------------------------------------------------------------------------
    def step(self, items, case, commit=(), strict=True):
        """Steps for `case` on a stack whose top items are `items` (bottom to top) under the commitments
        (one fact set per following operator)."""
        regs = [i.lane for i in items if i.slot]
        pend = [i.term for i in items if i.kind == "p"]
        facts = dict(case.facts)
        for k, s in enumerate(commit):
            facts[T("hasop", k + 1)] = (True, frozenset((1,)))
            facts[self.eng.discr(opres(k + 1), RES)] = (True, frozenset((self.C.px.okd(),)))
            facts[self.eng.discr(opterm_(k + 1), OPER)] = (True, s)
        self.ncompiled += 1
        return self.C.compile(case.op, regs, pend, facts=facts, extra=self.models)

    def operands(self, items, case):
        """Expected location of each operand and the items left below."""
        n = len(case.params)
        assert len(items) >= n
        used, rest = items[len(items) - n:], items[:len(items) - n]
        cnt = {}
        for i in items:
            if i.slot:
                cnt[i.lane] = cnt.get(i.lane, 0) + 1
        locs = []
        seen = {}
        below = {}
        for i in rest:
            if i.slot:
                below[i.lane] = below.get(i.lane, 0) + 1
        pos = dict(below)
        for i in used:
            if i.slot:
                k = cnt[i.lane] - pos.get(i.lane, 0)
                pos[i.lane] = pos.get(i.lane, 0) + 1
            if i.kind == "r":
                locs.append(T("R", i.lane, unext(slot(i.lane, k))))
            else:
                locs.append(i.mean)
        return locs, rest

    def result_locs(self, items, case):
        """Registers the results must be left in."""
        n = len(case.params)
        used = items[len(items) - n:] if n else []
        d = {}
        for i in used:
            if i.slot:
                d[i.lane] = d.get(i.lane, 0) - 1
        locs = []
        for l in case.results:
            locs.append(T("R", l, unext(slot(l, -d.get(l, 0)))))
            d[l] = d.get(l, 0) + 1
        return locs, d
