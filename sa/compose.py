"""Composition of one compilation step with the handlers of what it emits, in terms of the Wasm operands.

explore() walks the states that deferral of constants and local reads can leave behind (a worklist over what the
compiler's own code does) and yields, for every operator and every such state, the composed effects.
"""
from steps import *
from engine import fact_and, fact_or
from specsem import rebuild


class Eff:
    """One guarded effect of an operator: compile arm + handler arm, values over opnd terms."""
    __slots__ = ("kind", "conds", "writes", "trap", "out", "events", "handler", "instr", "locs", "harm", "why")


class Stepped:
    __slots__ = ("items", "case", "commit", "carm", "effs", "locs", "rest", "folded", "newitems", "instr", "refused",
                 "hnames", "res", "delta", "cfacts")


def rn(t, m):
    """rename subterms (identity map on interned terms)"""
    memo = {}

    def go(x):
        if isinstance(x, Term):
            if x in m:
                return m[x]
            r = memo.get(x)
            if r is None:
                a = tuple(go(y) for y in x.args)
                r = x if a == x.args else rebuild(x.op, a)
                memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        return x
    return go(t)


def has(t, p, memo=None):
    """does any subterm satisfy p"""
    memo = set() if memo is None else memo
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in memo:
                continue
            memo.add(x)
            if p(x):
                return True
            st.extend(x.args)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)
    return False


def collect(t, p):
    r, memo, st = [], set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in memo:
                continue
            memo.add(x)
            if p(x):
                r.append(x)
            st.extend(x.args)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)
    return r


def opset(C, facts, pos):
    """fact about the operator at lookahead position pos"""
    return facts.get(T("disc", opterm_(pos)))


class Composer:
    def __init__(self, config="legacy"):
        self.L = Lab(config)
        self.C, self.X = self.L.C, self.L.X
        self.crate = self.L.crate
        self.px = self.C.px
        self.cache = {}
        e = self.L.eng
        self.dkey = {p: e.discr(opterm_(p), OPER) for p in range(4)}
        self.hkey = {p: T("hasop", p) for p in range(4)}
        self.names = {v[1]: v[0] for v in self.crate.adts[OPER]["variants"]}
        self.all = [v[0] for v in self.crate.adts[OPER]["variants"]]

    # -- one operator in one state -------------------------------------------------------------------
    def step(self, items, case, commit=(), facts=None):
        """items: top of the stack, at least the operands of the case."""
        L = self.L
        c2 = case
        if facts:
            c2 = Case(case.op, case.params, case.results, case.t, dict(case.facts, **{}))
            c2.facts = dict(case.facts)
            c2.facts.update(facts)
        out = []
        for a in L.step(items, c2, commit):
            s = Stepped()
            s.items, s.case, s.commit, s.carm = items, case, commit, a
            s.locs, s.rest = L.operands(items, case)
            s.instr = s.effs = None
            s.hnames = []
            s.folded = None
            s.refused = a.kind != "next"
            s.newitems = None
            s.res, s.delta = L.result_locs(items, case)
            if not s.refused:
                self.finish(s)
            out.append(s)
        return out

    def finish(self, s):
        a = s.carm
        if a.instrs is None:
            s.effs = None
            return
        if a.consumed > 1:
            s.folded = a.consumed - 1
        if len(a.instrs) == 0:
            s.instr, s.effs = None, []
            return
        s.instr = a.instrs[0]
        s.effs = []
        m = {}
        for k, l in enumerate(s.locs):
            # two operands may name the same place only when both are the same local
            if l not in m:
                m[l] = T("opnd", k)
        s.cfacts = m
        if len(a.instrs) > 1:
            return
        for cd, h in self.X.select(s.instr):
            s.hnames.append(h)
            if h is None:
                continue
            arms, eng = self.X.execute(h, s.instr, cd)
            for x in arms:
                e = Eff()
                e.harm = x
                e.handler = h
                e.kind = x.kind
                e.out = x.out
                w = writes(x)
                e.writes = {rn2(p, m): rn(v, m) for p, v in w.items()}
                e.trap = None
                for p, v in e.writes.items():
                    if p.op == "S" and p.args[0] == "trap":
                        e.trap = v
                e.conds = self.guards(x.conds, m)
                e.events = [cz(tuple(ev)) for ev in x.raw if ev[0] != "w"]
                e.events = [rn(ev, m) for ev in e.events]
                s.effs.append(e)

    def guards(self, conds, m):
        """Canonical facts of the handler, without those about the variants of locals (ill-typed alternatives) ."""
        out = []
        for c in conds:
            d = {}
            bad = False
            for t, f in c.items():
                t2 = rn(cz(t), m)
                if t2.op == "not":
                    t2, f = t2.args[0], (f[0], frozenset(1 - v for v in f[1]))
                if is_k(t2):
                    continue
                d[t2] = f
            out.append(d)
        return out

    # -- exploration ----------------------------------------------------------------------------------
    def pend_list(self, v):
        cur = []
        while v.op == "push":
            cur.append(v.args[1])
            v = v.args[0]
        if v.op == "vec":
            return list(v.args[0]) + cur[::-1]
        return None

    def meaning(self, case):
        """What the value pushed by an operator that may be deferred is."""
        op = case.op
        if op == "LocalGet":
            return T("LN", unext(field(op, "local_index")), case.t)
        v = field(op, "value")
        if op in ("I32Const", "I64Const"):
            return v
        if op in ("F32Const", "F64Const"):
            return T("ffrom", op[:3].lower(), T("ieeebits", v))
        return None

    def follow(self, s):
        """Successor states [(items, commit)] of a finished step, with the problems of the pending bookkeeping."""
        a, case = s.carm, s.case
        pl = self.pend_list(a.pending)
        restp = [i.term for i in s.rest if i.kind == "p"]
        if pl is None:
            return [], ["the list of deferred operands is not recognised: %s" % fmt(a.pending)[:120]]
        new = None
        if pl == restp:
            pass
        elif pl[:-1] == restp and len(pl) == len(restp) + 1 and not a.instrs:
            new = pl[-1]
        else:
            return [], ["deferred operands after it are %s, expected %s" % (fmt(tuple(pl))[:160], fmt(tuple(restp))[:160])]
        probs = []
        used = {x.args[0] for i in s.rest for t in (i.term, i.mean) if t is not None for x in collect(t, lambda q: q.op == "past")}
        k = next(n for n in range(9) if n not in used)
        ren = {opres(0): T("past", k)}
        nshift = a.consumed
        items = list(s.rest)
        if new is not None:
            if not case.results:
                return [], ["defers an operand but produces no value"]
            mean = self.meaning(case)
            if mean is None:
                return [], ["defers the result of an operator that is neither a constant nor a local read"]
            items.append(Item("p", case.results[0], rn(new, ren), rn(mean, ren), case.op))
        elif s.folded is None or self.fold_op(s) == "LocalTee":
            items += [Item("r", l) for l in case.results]
        # only the part from the lowest pending item on matters
        lo = next((i for i, x in enumerate(items) if x.kind == "p"), None)
        if lo is None:
            return [((), ())], probs
        items = items[lo:]
        out = []
        for c in a.conds:
            cm = []
            for p in range(nshift, 4):
                if T("hasop", p) in c or self.dkey[p] in c:
                    cm.append((c.get(T("hasop", p)), c.get(self.dkey[p])))
                else:
                    break
            out.append((tuple(items), tuple(cm)))
        return out, probs

    def fold_op(self, s):
        if not s.folded:
            return None
        f = s.carm.conds[0].get(self.dkey[1])
        if f and f[0] and len(f[1]) == 1:
            return self.names.get(next(iter(f[1])))
        return None

    def committed(self, commit):
        """Operators that may come next under a commitment."""
        if not commit:
            return None
        h, f = commit[0]
        if h is not None and 1 not in h[1] and h[0]:
            return []
        if f is None:
            return None
        return [n for n in self.all if (self.C.px.opdisc(n) in f[1]) == f[0]]

    def wide(self, commit):
        """Almost any operator may come next."""
        if not commit:
            return True
        h, f = commit[0]
        return f is None or not f[0] or len(f[1]) > 64

    def explore(self, ops=None, deep=True):
        """Yield every Stepped of every operator in every reachable deferral state."""
        seen = set()
        self.cut = 0
        todo = [((), ())]
        allcases = {}
        for op in list(SIG) + list(POLY):
            for c in self.L.cases(op):
                allcases.setdefault(op, []).append(c)
        while todo:
            items, commit = todo.pop()
            k = (tuple(i.key() for i in items), commit)
            if k in seen:
                continue
            seen.add(k)
            nxt = self.committed(commit)
            names = list(allcases) if nxt is None else nxt
            for op in names:
                if op not in allcases:
                    yield ("unknown", items, commit, op)
                    continue
                for case in allcases[op]:
                    n = len(case.params)
                    have = items[len(items) - min(n, len(items)):] if n else ()
                    want = case.params[n - len(have):]
                    if tuple(i.lane for i in have) != tuple(want):
                        continue
                    full = [Item("r", l) for l in case.params[:n - len(have)]] + list(items)
                    facts = {}
                    for j, (h, f) in enumerate(commit[1:]):
                        if h is not None: facts[T("hasop", j + 1)] = h
                        if f is not None:
                            facts[self.dkey[j + 1]] = f
                            facts[self.L.eng.discr(opres(j + 1), RES)] = (True, frozenset((self.px.okd(),)))
                    for s in self.step(full, case, (), facts):
                        yield s
                        if s.refused:
                            continue
                        nx, pr = self.follow(s)
                        s.newitems = pr
                        for st in nx:
                            if self.wide(st[1]):
                                st = (st[0], ())
                            # a deferred operand that anything may follow: look one operator further, no deeper
                            if st[0] and items and not commit or len(st[0]) > 3:
                                self.cut += 1
                                continue
                            todo.append(st)
        self.states = seen


def rn2(p, m):
    """rename inside a written place, but keep the written register / local itself"""
    if p.op in ("R", "L", "LN", "S"):
        return p
    return T(p.op, *[rn(x, m) for x in p.args])
