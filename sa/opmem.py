"""Obligations of the memory, table, reference and global operators."""
from opcheck import *

PAGE = 65536


def pj(t, memo={}):
    """reads of fields of places as projections of the read of the whole"""
    if not isinstance(t, Term):
        return tuple(pj(x) for x in t) if isinstance(t, tuple) else t
    r = memo.get(t)
    if r is None:
        if t.op == "init" and t.args[0].op == "fld":
            f = t.args[0]
            r = T("proj", pj(T("init", f.args[0])), f.args[1])
        else:
            r = T(t.op, *[pj(a) if isinstance(a, (Term, tuple)) else a for a in t.args])
        memo[t] = r
    return r


def pjc(c):
    return {pj(t): f for t, f in c.items()}


def insts(t, vec):
    """Index terms with which instances of the vector `vec` of the module are selected inside t."""
    def is_vec(b):
        while b.op in ("init", "deref", "ref"):
            b = b.args[0]
        return b.op in ("fld", "proj") and b.args[1] == vec
    return [x.args[1] for x in collect(t, lambda x: x.op == "idx" and is_vec(x.args[0]))]


def flat(p):
    """(base, first, end) of a possibly nested slice, the bounds as linear forms (end None: the base's end)."""
    rs, base, lo, hi = [], p, {}, None
    while base.op == "range":
        rs.append(base)
        base = strip_init(base.args[0])
    for r in rs[::-1]:
        a, b = r.args[1], r.args[2]
        start = lo
        lo = addlin(start, linear(a) if isinstance(a, Term) else {})
        if isinstance(b, Term) and b.op == "incl":
            hi = addlin(addlin(start, linear(b.args[0])), {None: 1})
        elif isinstance(b, Term):
            hi = addlin(start, linear(b))
    return base, lo, hi


class OpMem(OpCheck):
    def inst_ok(self, s, t, vec, idx, props, h):
        """Every instance of `vec` used in t is the one the operator names."""
        ix = insts(t, vec)
        want = unext(idx) if isinstance(idx, Term) else K(idx, "i64")
        good = True
        for i in ix:
            j = unext(i)
            if j is want or (is_k(j) and is_k(want) and j.args[0] == want.args[0]):
                continue
            good = False
            self.bad(s, props, "instance", "uses entry %s of %s, expected %s" % (short(j), vec, short(want)), h)
        return good and bool(ix)

    def feas(self, conds, test):
        return [c for c in conds if all(test(t, f) is not False for t, f in c.items())]

    # -- globals ---------------------------------------------------------------------------------------
    def gl_typed(self, conds, lane_):
        """Alternatives in which the stored value has the global's type."""
        out = []
        num = self.crate.vdiscr(VALT(self.crate), "Num")
        for c in conds:
            ok = True
            for t, (pol, vs) in c.items():
                if t.op == "disc" and insts(t, "global_addrs"):
                    x = t.args[0]
                    want = None
                    if x.op == "proj" and x.args[1] == "value": want = num
                    elif x.op == "proj" and x.args[1] == "Num.0": want = self.crate.vdiscr(NUMT(self.crate), lane_.upper())
                    if want is not None and (want in vs) != pol: ok = False
                if t.op == "LtU" and insts(t.args[1], "global_addrs") == [] and has(t, lambda x: x.op == "len") and \
                        has(t, lambda x: x.op in ("proj", "fld") and x.args[1] == "GlobalGet.global_index" or
                            x.op == "proj" and x.args[1] == "GlobalSet.global_index"):
                    if (1 in vs) != pol: ok = False      # index out of range: not a valid module
            if ok:
                out.append(c)
        return out

    def op_GlobalGet(self, s, arms):
        l = s.case.t
        arms = [(e, self.gl_typed([pjc(c) for c in conds], l)) for e, conds in arms]
        arms = [(e, c) for e, c in arms if c and e.kind != "panic"]
        if not arms:
            self.undecided(("C20",), "GlobalGet: no arm for a valid index")
        for a, (e, _) in zip(self.results(s, arms), arms):
            if a.kind != "value":
                self.bad(s, ("C20",), "place", a.why or "stops", e.handler)
                continue
            v = pj(a.value)
            ix = insts(v, "global_addrs")
            if v.op == "proj" and v.args[1] == l.upper() + ".0" and v.args[0].op == "proj" and v.args[0].args[1] == "Num.0" \
                    and v.args[0].args[0].op == "proj" and v.args[0].args[0].args[1] == "value" and ix:
                if self.inst_ok(s, v, "global_addrs", field("GlobalGet", "global_index"), ("C20",), e.handler):
                    self.ok("C20", "%s (%s)" % (s.case.label, self.scen(s)))
            elif not ix and clean(v):
                self.bad(s, ("C20",), "value", "gives %s, not the global's value" % short(v), e.handler)
            elif self.inst_ok(s, v, "global_addrs", field("GlobalGet", "global_index"), ("C20",), e.handler):
                self.undecided(("C20",), "GlobalGet: value not recognised")

    def op_GlobalSet(self, s, arms):
        l = s.case.t
        arms = [(e, self.gl_typed([pjc(c) for c in conds], l)) for e, conds in arms]
        arms = [(e, c) for e, c in arms if c and e.kind != "panic"]
        if not arms:
            self.undecided(("C20",), "GlobalSet: no arm for a valid index")
        for e, conds in arms:
            h = e.handler
            if e.kind != "ret" or e.out not in (None, "Continue"):
                self.bad(s, ("C20",), "trap", "stops for a valid index and type", h)
                continue
            self.extra_writes(s, e, ())
            ws = {p: v for p, v in e.writes.items() if insts(p, "global_addrs")}
            if not ws:
                if [ev for ev in e.events if ev[0] in ("c", "loop")]:
                    self.undecided(("C20",), "GlobalSet: store not recognised")
                else:
                    self.bad(s, ("C20",), "none", "does not store", h)
                continue
            for p, v in ws.items():
                if not self.inst_ok(s, p, "global_addrs", field("GlobalSet", "global_index"), ("C20",), h):
                    continue
                u = self.unwrap_local(v, l) if p.op == "fld" and p.args[1] == "value" else v
                if u is None:
                    if v.op == "adt":
                        self.bad(s, ("C20",), "variant", "stores %s in a global of type %s" % (short(v), l), h)
                    else:
                        self.undecided(("C20",), "GlobalSet: stored value not recognised")
                elif u is T("opnd", 0):
                    self.ok("C20", "%s (%s)" % (s.case.label, self.scen(s)))
                elif clean(u):
                    self.bad(s, ("C20",) + (("C04",) if self.strays(u) else ()), "value", "stores %s, expected its operand" % short(u), h)
                else:
                    self.undecided(("C20",), "GlobalSet: stored value not recognised")

    # -- tables ----------------------------------------------------------------------------------------
    def tb(self, op):
        return field(op, "table")

    def elem_of(self, t):
        """(index terms of table elements read or written in t)"""
        def is_elem(b):
            while b.op in ("init", "deref", "ref", "upd"):
                b = b.args[0]
            return b.op in ("fld", "proj") and b.args[1] == "elem"
        return [x for x in collect(t, lambda x: x.op == "idx" and is_elem(x.args[0]))]

    def tab_live(self, conds, op):
        """Alternatives with the table present and the element in bounds."""
        out = []
        for c in conds:
            ok = True
            for t, (pol, vs) in c.items():
                if t.op == "LtU" and has(t.args[2], lambda x: x.op == "len") and not has(t.args[2], lambda x: x.op == "Add"):
                    if (1 in vs) != pol: ok = False
            if ok: out.append(c)
        return out

    def oob_stops(self, s, arms, op):
        """No arm may continue when the table or the entry does not exist."""
        for e, cs in arms:
            cs = [pjc(c) for c in cs]
            if e.kind == "ret" and e.out in (None, "Continue") and len(self.tab_live(cs, op)) < len(cs):
                self.bad(s, ("C27",), "oob", "continues although the table or entry does not exist", e.handler)

    def op_TableGet(self, s, arms):
        opnd = T("opnd", 0)
        self.oob_stops(s, arms, "TableGet")
        live = [(e, self.tab_live([pjc(c) for c in cs], "TableGet")) for e, cs in arms]
        live = [(e, c) for e, c in live if c and not (e.kind == "ret" and e.out not in (None, "Continue"))]
        for a, (e, _) in zip(self.results(s, live), live):
            h = e.handler
            if a.kind == "trap":
                continue                      # an entry that is not a reference does not occur
            if a.kind != "value":
                self.bad(s, ("C27",), "place", a.why, h)
                continue
            v = pj(a.value)
            es = self.elem_of(v) or [x for c in a.conds for t in c for x in self.elem_of(t)]
            if not es:
                if clean(v): self.bad(s, ("C27",), "value", "gives %s" % short(v), h)
                else: self.undecided(("C27",), "TableGet: value not recognised")
                continue
            good = all(self.inst_ok(s, x, "table_addrs", self.tb("TableGet"), ("C27",), h) for x in es)
            for x in es:
                if linear(x.args[1]) != {opnd: 1}:
                    good = False
                    if clean(x.args[1]):
                        self.bad(s, ("C27",) + (("C04",) if self.strays(x.args[1]) else ()), "index",
                                 "reads entry %s, expected operand 0" % short(x.args[1]), h)
            want = T("proj", T("init", es[0]) if es[0].op == "idx" else es[0], "Ref.0")
            if good:
                if same_under(v, want, a.conds, self.e, self.crate):
                    self.ok("C27", "TableGet: entry at the operand")
                elif v.op == "adt" and v.args[2] == () and clean(v):
                    d = [c.get(T("disc", want)) for c in a.conds]
                    k = self.crate.vdiscr(v.args[0], v.args[1])
                    if all(f is not None and f[0] and k not in f[1] for f in d) and d:
                        self.bad(s, ("C27",), "value", "gives %s for an entry that is another reference" % short(v), h)
                    else:
                        self.undecided(("C27",), "TableGet: value not recognised")
                else:
                    self.undecided(("C27",), "TableGet: value not recognised")

    def op_TableSet(self, s, arms):
        live = [(e, self.tab_live([pjc(c) for c in cs], "TableSet")) for e, cs in arms]
        self.oob_stops(s, arms, "TableSet")
        for e, conds in live:
            h = e.handler
            if not conds or e.kind != "ret" or e.out not in (None, "Continue"):
                continue
            self.extra_writes(s, e, ())
            ws = {p: v for p, v in e.writes.items() if self.elem_of(p)}
            if not ws:
                if [ev for ev in e.events if ev[0] in ("c", "loop")]:
                    self.undecided(("C27",), "TableSet: store not recognised")
                else:
                    self.bad(s, ("C27",), "none", "does not store", h)
            for p, v in ws.items():
                x = self.elem_of(p)[0]
                good = self.inst_ok(s, p, "table_addrs", self.tb("TableSet"), ("C27",), h)
                if linear(x.args[1]) != {T("opnd", 0): 1}:
                    good = False
                    if clean(x.args[1]):
                        self.bad(s, ("C27",) + (("C04",) if self.strays(x.args[1]) else ()), "index",
                                 "writes entry %s, expected operand 0" % short(x.args[1]), h)
                v = pj(v)
                u = v.args[2][0][1] if v.op == "adt" and v.args[1] == "Ref" else None
                if u is not None and same_under(u, T("opnd", 1), conds, self.e, self.crate):
                    if good: self.ok("C27", "TableSet: entry at operand 0 := operand 1")
                elif clean(v) and u is not None and (self.strays(u) or not has(u, lambda y: y is T("opnd", 1))) and u.args[1:] != ("RefNull", ()):
                    self.bad(s, ("C27",) + (("C04",) if self.strays(u) else ()), "value", "stores %s, expected its second operand" % short(u), h)
                else:
                    self.undecided(("C27",), "TableSet: stored value not recognised")

    # -- bulk memory -----------------------------------------------------------------------------------
    def has_mem(self, conds):
        return [c for c in conds if all(not (t.op == "len" and mem_vec(t) and (0 in f[1]) == f[0] and len(f[1]) == 1)
                                        for t, f in c.items())]

    def live(self, arms, *vecs):
        """Continue arms of a module that has the memory / segment."""
        out = []
        for e, cs in arms:
            cs = [c for c in self.has_mem(cs) if all(
                not (t.op == "LtU" and has(t.args[2], lambda x: x.op == "len" and mem_vec(x)) and (1 in f[1]) != f[0])
                for t, f in c.items())]
            if cs:
                out.append((e, cs))
        return out

    def guest_ptr(self, s, t, k, what, h, props=("C26",)):
        """pointer t must be memory base + operand k"""
        b, off = pointer(t)
        if b is None or not self.mem_base(b):
            self.undecided(props, "%s: %s not recognised" % (s.case.op, what))
            return False
        return self.lin_is(s, off, {T("opnd", k): 1}, what, h, props)

    def lin_is(self, s, off, want, what, h, props=("C26",), conds=()):
        if off == want:
            return True
        odd = [x for x in off if x is not None and x.op not in ("opnd", "R", "LN", "LV")]
        # a clamped or otherwise computed bound: definite when no guard relates it to the length
        if odd and all(x.op in ("umin", "umax") and clean(x) for x in odd) and not any(
                has(t, lambda y: y.op == "len" and has(y, lambda z: z.op in ("fld", "proj") and z.args[1] in ("_data", "data", "elem")))
                for c in conds for t in c):
            self.bad(s, props, what.replace(" ", ""), "%s is %s, expected %s" % (what, lin(off), lin(want)), h)
        elif all(x is None or x.op in ("opnd", "R", "LN", "LV") for x in off):
            self.bad(s, props + (("C04",) if any(x is not None and x.op in ("R", "LN") for x in off) else ()), what.replace(" ", ""),
                     "%s is %s, expected %s" % (what, lin(off), lin(want)), h)
        else:
            self.undecided(props, "%s: %s not recognised" % (s.case.op, what))
        return False

    def bulk(self, s, arms, kinds):
        """(eff, event) of the arms that continue in a module with a memory."""
        for e, cs in self.live(arms):
            h = e.handler
            if e.kind == "panic":
                continue
            if e.kind != "ret" or e.out not in (None, "Continue"):
                yield e, cs, "trap"
                continue
            self.extra_writes(s, e, ())
            evs = [ev for ev in e.events if ev[0] in kinds]
            other = [ev for ev in e.events if ev[0] in ("c", "loop", "store", "memmove", "memcpy", "memset", "copyslice") and ev[0] not in kinds]
            if len(evs) == 1:
                yield e, cs, evs[0]
            elif not evs and not other and not [p for p in e.writes if p.op not in ("S",)]:
                yield e, cs, None
            else:
                self.undecided(("C26",), "%s: effect not recognised" % s.case.op)

    def zero_len(self, cs):
        """All alternatives fix the length operand to zero."""
        return all(c.get(T("opnd", 2)) == (True, frozenset((0,))) for c in cs)

    def op_MemoryCopy(self, s, arms):
        for e, cs, ev in self.bulk(s, arms, ("memmove", "memcpy")):
            h = e.handler
            if ev == "trap":
                self.undecided(("C26",), "MemoryCopy: stops for some operands")
            elif ev is None:
                if not self.zero_len(cs):
                    self.bad(s, ("C26",), "none", "copies nothing", h)
            elif ev[0] == "memcpy":
                self.bad(s, ("C26",), "overlap", "copies with an operation that does not allow overlapping ranges", h)
            else:
                _, ty, src, dst, n = ev[:5]
                if self.guest_ptr(s, src, 1, "the source", h) and self.guest_ptr(s, dst, 0, "the destination", h) and \
                        self.lin_is(s, linear(n), {T("opnd", 2): WIDB.get(ty, 1)} if False else {T("opnd", 2): 1}, "the length", h, conds=cs):
                    self.ok("C26", "MemoryCopy: memmove(operand 0, operand 1, operand 2)")

    def op_MemoryFill(self, s, arms):
        for e, cs, ev in self.bulk(s, arms, ("memset",)):
            h = e.handler
            if ev == "trap":
                self.undecided(("C26",), "MemoryFill: stops for some operands")
            elif ev is None:
                if not self.zero_len(cs):
                    self.bad(s, ("C26",), "none", "fills nothing", h)
            else:
                _, ty, dst, v, n = ev[:5]
                good = self.guest_ptr(s, dst, 0, "the destination", h) and self.lin_is(s, linear(n), {T("opnd", 2): 1}, "the length", h)
                for x in (0, 1, 0x80, 0xff, 0x180, 0xfffffffe):
                    y = constprop.value(v, {T("opnd", 1): x})
                    if y is None:
                        good = False
                        if self.strays(v) or v.op == "opnd" and v is not T("opnd", 1):
                            self.bad(s, ("C26",), "value", "fills with %s, expected the low byte of operand 1" % short(v), h)
                        else:
                            self.undecided(("C26",), "MemoryFill: byte not recognised")
                        break
                    if y & 0xff != x & 0xff:
                        self.bad(s, ("C26",), "value", "fills with %#x for operand 1 = %#x" % (y & 0xff, x), h)
                        good = False
                        break
                if good:
                    self.ok("C26", "MemoryFill: memset(operand 0, low byte of operand 1, operand 2)")

    def op_MemoryInit(self, s, arms):
        fld_ = field("MemoryInit", "data_index")
        # the named segment does not exist: must stop
        for e, cs in arms:
            for c in cs:
                for t, f in c.items():
                    if t.op == "LtU" and unext(t.args[1]) is unext(fld_) and (1 in f[1]) != f[0]:
                        if e.kind == "ret" and e.out in (None, "Continue"):
                            self.bad(s, ("C26",), "noseg", "continues although the segment does not exist", e.handler)
                        else:
                            self.ok("C26", "MemoryInit: missing segment stops")
        for e, cs, ev in self.bulk(s, arms, ("copyslice", "memmove", "memcpy")):
            h = e.handler
            if ev == "trap":
                self.undecided(("C26",), "MemoryInit: stops for some operands")
                continue
            if ev is None:
                if not self.zero_len(cs):
                    self.bad(s, ("C26",), "none", "copies nothing", h)
                continue
            if ev[0] != "copyslice":
                self.undecided(("C26",), "MemoryInit: copy not recognised")
                continue
            d, sr = strip_init(ev[1]), strip_init(ev[2])
            _, dlo, _ = flat(d)
            _, slo, shi = flat(sr)
            if d.op != "range" or sr.op != "range" or shi is None:
                self.undecided(("C26",), "MemoryInit: copy not recognised")
                continue
            if not self.inst_ok(s, sr, "data_addrs", fld_, ("C26",), h):
                if not insts(sr, "data_addrs"):
                    self.bad(s, ("C26",), "segment", "does not copy from a data segment: %s" % short(sr), h)
                continue
            if self.lin_is(s, dlo, {T("opnd", 0): 1}, "the destination", h) and \
                    self.lin_is(s, slo, {T("opnd", 1): 1}, "the source offset", h) and \
                    self.lin_is(s, addlin(shi, {k: -x for k, x in slo.items()}), {T("opnd", 2): 1}, "the length", h, conds=cs):
                self.ok("C26", "MemoryInit: segment[operand 1 ..+ operand 2] to operand 0")

    def op_DataDrop(self, s, arms):
        for e, cs in arms:
            h = e.handler
            if e.kind != "ret" or e.out not in (None, "Continue"):
                self.undecided(("C26",), "DataDrop: stops")
                continue
            if any((1 in f[1]) != f[0] for c in cs for t, f in c.items() if t.op == "LtU"):
                continue
            ws = {p: v for p, v in e.writes.items() if p.op not in ("S",)}
            ds = {p: v for p, v in ws.items() if insts(p, "data_addrs")}
            if set(ws) - set(ds):
                self.bad(s, ("C26",), "clobber", "also writes %s" % short(next(iter(set(ws) - set(ds)))), h)
            if not ds:
                if [ev for ev in e.events if ev[0] in ("c", "loop")]: self.undecided(("C26",), "DataDrop: effect not recognised")
                else: self.bad(s, ("C26",), "none", "does not drop the segment", h)
            for p, v in ds.items():
                if self.inst_ok(s, p, "data_addrs", field("DataDrop", "data_index"), ("C26",), h):
                    if v.op == "vec" and v.args[0] == ():
                        self.ok("C26", "DataDrop: empties the named segment only")
                    else:
                        self.undecided(("C26",), "DataDrop: new contents not recognised")

    # -- size and growth -------------------------------------------------------------------------------
    def mem_terms(self, ts):
        lens = set()
        for t in ts:
            for x in collect(t, lambda x: x.op == "len" and not mem_vec(x)):
                if has(x, lambda y: y.op in ("fld", "proj") and y.args[1] == "mem_addrs" or y.op == "S" and y.args[0] == "mem_addrs"):
                    lens.add(x)
        return lens

    def op_MemorySize(self, s, arms):
        live = self.live(arms)
        for a, (e, _) in zip(self.results(s, live), live):
            if a.kind != "value":
                self.bad(s, ("C21",), "place", a.why or "stops although there is a memory", e.handler)
                continue
            ls = self.mem_terms([a.value])
            if len(ls) != 1:
                if not ls and clean(a.value): self.bad(s, ("C21",), "value", "gives %s" % short(a.value), e.handler)
                else: self.undecided(("C21",), "MemorySize: value not recognised")
                continue
            l = next(iter(ls))
            for p in (0, 1, 2, 3, 255, 256, 32767, 32768, 65535):
                v = constprop.value(a.value, {l: p * PAGE})
                if v is None:
                    self.undecided(("C21",), "MemorySize: value not recognised")
                    break
                if v != p:
                    self.bad(s, ("C21",), "value", "gives %d for a memory of %d pages" % (v, p), e.handler)
                    break
            else:
                self.ok("C21", "MemorySize: length of the memory / 64 KiB")

    def op_MemoryGrow(self, s, arms):
        dst = self.dst(s)
        live = self.live(arms)
        terms = [t for e, cs in live for c in cs for t in c] + [v for e, _ in live for v in e.writes.values()]
        lens = self.mem_terms(terms)
        dm = {x for t in terms for x in collect(t, lambda x: x.op == "disc" and maxterm(x.args[0]))}
        mv = {x for t in terms for x in collect(t, lambda x: x.op in ("init", "proj") and isinstance(last(x), str) and last(x).startswith("Some."))
              if maxterm(below(x))}
        alloc = {x for t in terms for x in collect(t, lambda x: x.op == "disc" and not maxterm(x.args[0]))}
        if not lens:
            self.undecided(("C21",), "MemoryGrow: memory length not recognised")
            return
        some, none = 1, 0
        bad = None
        n_ok = n_un = 0
        deltas = (0, 1, 2, 3, 255, 4096, 32767, 32768, 65535, 65536, 65537, 0x10000001, 0x7fffffff, 0x80000000, 0x80000001,
                  0xffff0000, 0xfffffffe, 0xffffffff)
        for pages in (0, 1, 2, 17, 300, 32768, 65535):
            for mx in (None, 0, 1, 2, 3, 18, 300, 4096, 65535, 65536):
                if mx is not None and mx < pages:
                    continue
                for n in deltas:
                    want = pages if pages + n <= (mx if mx is not None else PAGE) and pages + n <= PAGE else 0xffffffff
                    if pages + n == PAGE:
                        want = None                      # not representable by every host: either answer
                    env = {T("opnd", 0): n}
                    env.update({l: pages * PAGE for l in lens})
                    env.update({d: some if mx is not None else none for d in dm})
                    env.update({v: mx if mx is not None else 0 for v in mv})
                    env.update({d: 0 for d in alloc})       # allocation succeeds
                    hit, und = [], False
                    for e, cs in live:
                        st = False
                        for c in cs:
                            ok = True
                            for t, (pol, vs) in c.items():
                                if t.op == "len" and mem_vec(t): continue
                                x = constprop.value(t, env)
                                if x is None: ok = None if ok else ok
                                elif (x in vs) != pol: ok = False
                            if ok: st = True
                            elif ok is None: und = True
                        if st: hit.append(e)
                    if und or len(hit) != 1:
                        n_un += 1
                        continue
                    e = hit[0]
                    if e.kind != "ret" or e.out not in (None, "Continue"):
                        bad = bad or ("stops", pages, mx, n, e)
                        continue
                    r = e.writes.get(dst)
                    r = constprop.value(r, env) if r is not None else None
                    if r is None:
                        n_un += 1
                        continue
                    if want is not None and r != want:
                        bad = bad or ("returns %d" % sgn(r, 32), pages, mx, n, e)
                        continue
                    data = [v for p, v in e.writes.items() if p.op == "fld" and p.args[1] == "data"]
                    new = pages * PAGE
                    zero = True
                    for v in data:
                        if v.op == "resized":
                            new = constprop.value(v.args[1], env)
                            zero = is_k(v.args[2]) and v.args[2].args[0] == 0 if isinstance(v.args[2], Term) else v.args[2] == 0
                        else:
                            new = None
                    if new is None:
                        n_un += 1
                        continue
                    exp = (pages + n) * PAGE if r != 0xffffffff else pages * PAGE
                    if new != exp:
                        bad = bad or ("makes the memory %d bytes long, expected %d" % (new, exp), pages, mx, n, e)
                        continue
                    if not zero:
                        bad = bad or ("fills new pages with a non-zero byte", pages, mx, n, e)
                        continue
                    n_ok += 1
        if bad:
            self.bad(s, ("C21",), "grow", "%s when growing %d pages (maximum %s) by %d" % (bad[0], bad[1], bad[2], bad[3]), bad[4].handler)
        elif n_ok:
            self.ok("C21", "MemoryGrow (%s): %d size/maximum/delta combinations, %d undetermined" % (self.scen(s), n_ok, n_un))
        if n_un and not n_ok:
            self.undecided(("C21",), "MemoryGrow: result not recognised")
        # the frame's cached pointer follows the buffer (C10)
        for e, cs in live:
            data = [(i, ev) for i, ev in enumerate(e.harm.raw) if ev[0] == "w" and ev[1].op == "fld" and ev[1].args[1] == "data"]
            if not data:
                continue
            ptr = [(i, ev) for i, ev in enumerate(e.harm.raw) if ev[0] == "w" and cplace(ev[1]) is T("S", "mem_ptr")]
            if not ptr:
                if T("S", "mem_ptr") in e.writes: continue
                self.bad(s, ("C10",), "stale", "grows the memory and leaves the frame's memory pointer at the old block", e.handler)
            elif ptr[-1][0] < data[-1][0]:
                self.bad(s, ("C10",), "stale", "takes the frame's memory pointer before growing the memory", e.handler)
            elif cz(ptr[-1][1][2]).op == "pelem":
                self.ok("C10", "MemoryGrow (%s): memory pointer retaken after the growth" % self.scen(s))
            else:
                self.undecided(("C10",), "MemoryGrow: pointer not recognised")


WIDB = {"u8": 1}


def last(x):
    if x.op == "init": x = x.args[0]
    return x.args[1] if x.op in ("fld", "proj") else None


def below(x):
    if x.op == "init": x = x.args[0]
    return x.args[0]


def maxterm(t):
    while t.op in ("init", "deref"):
        t = t.args[0]
    return t.op in ("fld", "proj") and t.args[1] == "max"


def mem_vec(t):
    b = t.args[0]
    while b.op in ("init", "deref", "ref"):
        b = b.args[0]
    return b.op in ("fld", "proj") and b.args[1] in ("mem_addrs", "data_addrs", "table_addrs", "global_addrs")


class Ops(OpMem):
    def op_TableFill(self, s, arms):
        live = [(e, self.tab_live([pjc(c) for c in cs], "TableFill")) for e, cs in arms]
        for (e, cs), (_, lc) in zip(arms, live):
            h = e.handler
            if not lc:
                if e.kind == "ret" and e.out in (None, "Continue"):
                    self.bad(s, ("C27",), "oob", "continues although the table does not exist", h)
                continue
            if e.kind == "panic":
                continue
            if e.kind != "ret" or e.out not in (None, "Continue"):
                self.undecided(("C27",), "TableFill: stops for some operands")
                continue
            self.extra_writes(s, e, ())
            evs = [ev for ev in e.events if ev[0] == "fillslice"]
            other = [ev for ev in e.events if ev[0] in ("c", "loop", "store")] + [p for p in e.writes if p.op != "S"]
            if len(evs) != 1:
                if not evs and not other and not all(c.get(T("opnd", 2)) == (True, frozenset((0,))) for c in cs):
                    self.bad(s, ("C27",), "none", "fills nothing", h)
                elif other:
                    self.undecided(("C27",), "TableFill: effect not recognised")
                continue
            p, v = strip_init(evs[0][1]), evs[0][2]
            base, lo, hi = flat(p)
            good = self.inst_ok(s, p, "table_addrs", self.tb("TableFill"), ("C27",), h)
            good = good and self.lin_is(s, lo, {T("opnd", 0): 1}, "the first entry", h, ("C27",))
            if hi is None:
                self.undecided(("C27",), "TableFill: range not recognised")
                good = False
            else:
                n = addlin(hi, {k: -x for k, x in lo.items()})
                good = good and self.lin_is(s, n, {T("opnd", 2): 1}, "the number of entries", h, ("C27",))
            v = pj(v)
            u = v.args[2][0][1] if v.op == "adt" and v.args[1] == "Ref" else None
            if u is not None and same_under(u, T("opnd", 1), lc, self.e, self.crate):
                if good: self.ok("C27", "TableFill: operand 2 entries from operand 0 := operand 1")
            elif u is not None and clean(u) and self.strays(u):
                self.bad(s, ("C27", "C04"), "value", "fills with %s, expected its second operand" % short(u), h)
            else:
                self.undecided(("C27",), "TableFill: value not recognised")


def addlin(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + v
    return {k: v for k, v in r.items() if v}
