"""Obligations of the composed operators: bookkeeping of the compiler's value stack, and what every emitted instruction
does, against the WebAssembly meaning of the operator it was compiled from."""
import re
import specsem
import constprop
from compose import *
from wasmspec import NUMERIC, TRAPPING, LOADS, STORES

CONSTS = ("I32Const", "I64Const", "F32Const", "F64Const")
VAL = "structure::types::Val"


class Finding:
    __slots__ = ("props", "key", "text", "where")

    def __init__(self, props, key, text, where=""):
        self.props, self.key, self.text, self.where = frozenset(props), key, text, where


# ---- normal forms ---------------------------------------------------------------------------------
def low32(t):
    """Strip representation changes that keep the low 32 bits (guest addresses are 32-bit, usize of the guest is 32)."""
    while t.op in ("sext", "zext", "trunc") and min(t.args[0], t.args[1]) >= 32:
        t = t.args[2]
    return t


def strip_init(t):
    return t.args[0] if t.op == "init" else t


def linear(t, sign=1, acc=None):
    """{term: coefficient}, constant under key None, modulo 2^32."""
    acc = {} if acc is None else acc
    t = low32(t)
    if is_k(t):
        acc[None] = (acc.get(None, 0) + sign * t.args[0]) & 0xffffffff
    elif t.op == "Add":
        linear(t.args[1], sign, acc)
        linear(t.args[2], sign, acc)
    elif t.op == "Sub":
        linear(t.args[1], sign, acc)
        linear(t.args[2], -sign, acc)
    elif t.op == "len" and strip_init(t.args[0]).op == "range" and isinstance(strip_init(t.args[0]).args[2], Term):
        r = strip_init(t.args[0])
        linear(r.args[2], sign, acc)
        linear(r.args[1], -sign, acc)
    else:
        acc[t] = acc.get(t, 0) + sign
    return {k: v for k, v in acc.items() if v}


def pointer(t):
    """Split an element pointer into (base, byte offset as linear form), None when of another shape."""
    off = {}
    while t.op == "padd":
        n = {"u8": 1, "i8": 1}.get(t.args[2])
        if n is None:
            return None, None
        linear(t.args[1], 1, off)
        t = t.args[0]
    return t, {k: v for k, v in off.items() if v}


def same_under(v, want, conds, eng, crate):
    """v equals want when the facts hold (a variant rebuilt from the projections of want)."""
    if v is want:
        return True
    if v.op != "adt":
        return False
    path, var, fs = v.args[0], v.args[1], v.args[2]
    vs = crate.adts.get(path, {}).get("variants", [])
    if not vs:
        return False
    if len(vs) > 1:
        d = T("disc", want)
        k = crate.vdiscr(path, var)
        for c in conds:
            f = c.get(d)
            if f is None or not f[0] or f[1] != frozenset((k,)):
                return False
        return all(same_under(x, T("proj", want, "%s.%s" % (var, n)), conds, eng, crate) for n, x in fs)
    return all(same_under(x, T("proj", want, n), conds, eng, crate) for n, x in fs)


def clean(t):
    """No part of the term is an unmodelled call or a loop summary."""
    return not has(t, lambda x: x.op in ("opaque", "call", "anyidx", "join", "out", "c", "widen") or
                   (isinstance(x.op, str) and "::" in x.op))


class OpCheck:
    def __init__(self, config="legacy"):
        self.config = config
        self.M = Composer(config)
        self.L = self.M.L
        self.crate = self.M.crate
        self.e = self.L.eng
        self.F = []
        self.count = {}
        self.undet = {}
        self.samples = {}
        self.nodef = 0
        self.plain_bad = set()
        self.raw = []

    # -- accounting -----------------------------------------------------------------------------------
    def ok(self, prop, what):
        self.count[prop] = self.count.get(prop, 0) + 1
        s = self.samples.setdefault(prop, [])
        if len(s) < 400:
            s.append(what)

    def undecided(self, props, what):
        for p in props:
            d = self.undet.setdefault(p, {})
            d[what] = d.get(what, 0) + 1

    def bad(self, s, props, kind, text, where=None):
        self.raw.append((s, frozenset(props), kind, text, where))

    # -- scenario -------------------------------------------------------------------------------------
    def plain(self, s):
        return not s.folded and all(i.kind == "r" for i in s.items)

    def scen(self, s):
        if self.plain(s):
            return "operands on the stack"
        n = len(s.case.params)
        used = s.items[len(s.items) - n:] if n else ()
        r = "operands " + (", ".join("stack" if i.kind == "r" else i.label for i in used) or "none")
        b = [i for i in s.items[:len(s.items) - n] if i.kind == "p"]
        if b:
            r += "; deferred below: " + ", ".join(i.label for i in b)
        if s.folded:
            r += "; result into " + (self.M.fold_op(s) or "next operator")
        return r

    def where(self, name):
        f = self.crate.fns.get(name)
        if f is None:
            return name
        return "%s (%s:%s)" % (name, f.file, f.line)

    # -- lanes of locals -------------------------------------------------------------------------------
    def local_lanes(self, s):
        m = {}
        for l in s.locs:
            if l.op == "LN":
                m[l.args[0]] = l.args[1]
        for i in s.items:
            if i.kind == "p" and i.mean is not None and i.mean.op == "LN":
                m[i.mean.args[0]] = i.lane
        op = s.case.op
        if op.startswith("Local"):
            m[unext(field(op, "local_index"))] = s.case.t
        fo = self.M.fold_op(s)
        if fo and s.case.results:
            m[unext(field(fo, "local_index", 1))] = s.case.results[0]
        return m

    def typed_conds(self, conds, lanes):
        """Drop alternatives in which a local has another type than its declared one; forget those facts."""
        out = []
        for c in conds:
            d, bad = {}, False
            for t, f in c.items():
                k = self.local_fact(t, lanes)
                if k is None:
                    d[t] = f
                    continue
                if (k in f[1]) != f[0]:
                    bad = True
                    break
            if not bad:
                out.append(d)
        return out

    def local_fact(self, t, lanes):
        """Discriminant a fact about a local's value must have, or None."""
        if t.op != "disc":
            return None
        x = t.args[0]
        if x.op == "LV" and x.args[0] in lanes:
            l = lanes[x.args[0]]
            return self.crate.vdiscr(VALT(self.crate), "Num" if l in NUM else "Ref" if l == "ref" else "Vec_")
        n = None
        if x.op == "init":
            x = x.args[0]
        if x.op == "fld" and x.args[1] == "Num.0":
            b = x.args[0]
            if b.op == "L":
                n = b.args[0]
        if x.op == "proj" and x.args[1] == "Num.0" and x.args[0].op == "LV":
            n = x.args[0].args[0]
        if n is not None and n in lanes and lanes[n] in NUM:
            return self.crate.vdiscr(NUMT(self.crate), lanes[n].upper())
        return None

    # -- one step -------------------------------------------------------------------------------------
    def run(self, explore=True, ops=None):
        seen_ok = set()
        refused = []
        for s in self.M.explore():
            if isinstance(s, tuple):
                self.undecided(("C04", "C05"), "operator %s after a deferral is not modelled" % s[3])
                continue
            if ops and s.case.op not in ops:
                continue
            k = (s.case.label, tuple(i.key() for i in s.items))
            if s.refused:
                refused.append((k, s))
                continue
            seen_ok.add(k)
            self.step(s)
        for k, s in refused:
            if k in seen_ok or (s.case.op in ("GlobalGet", "GlobalSet") and s.case.t == "ref"):
                continue
            self.bad(s, ("C04",), "refused", "is refused by the instruction compiler (%s)" % s.carm.kind)
        self.attribute()
        return self.F

    def step(self, s):
        nf = len(self.raw)
        self.bookkeeping(s)
        self.pending(s)
        a = s.carm
        if s.effs is None or s.instr is None and a.instrs is None:
            self.undecided(("C01", "C04"), "%s: emitted instructions not recognised" % s.case.label)
            return
        deferred = len(self.M.pend_list(a.pending) or ()) > len([i for i in s.rest if i.kind == "p"])
        if not a.instrs:
            if deferred or s.case.op in ("Drop", "Nop"):
                self.ok("C04", "%s: %s" % (s.case.label, "deferred" if deferred else "no code"))
                return
            if s.folded and s.case.op not in ("Drop", "Nop"):
                self.bad(s, ("C04", "C05"), "none", "emits no instruction and swallows the next operator")
            else:
                self.bad(s, ("C04",), "none", "emits no instruction although it has an effect")
            return
        if len(a.instrs) > 1:
            self.undecided(("C01", "C04"), "%s: more than one instruction emitted" % s.case.label)
            return
        if None in s.hnames:
            self.bad(s, ("C07",), "nohandler", "compiles to an instruction no handler is registered for: %s" % short(s.instr))
            if not any(s.hnames):
                return
        if not s.effs:
            if not s.hnames:
                self.bad(s, ("C07",), "nohandler", "compiles to an instruction no handler is registered for: %s" % short(s.instr))
            else:
                self.bad(s, ("C07",), "unreach", "compiles to %s, which its handler %s does not accept" % (short(s.instr), s.hnames[0]))
            return
        lanes = self.local_lanes(s)
        arms = []
        for e in s.effs:
            c = self.typed_conds(e.conds, lanes)
            if c:
                arms.append((e, c))
        if not arms:
            self.undecided(("C01", "C04"), "%s: no result for well-typed operands" % s.case.label)
            return
        self.ok("C07", "%s (%s): %s" % (s.case.label, self.scen(s), ", ".join(sorted(set(filter(None, s.hnames))))))
        self.semantics(s, arms, lanes)
        if len(self.raw) == nf:
            if not self.plain(s):
                self.ok("C05", "%s: %s" % (s.case.label, self.scen(s)))

    # -- value stack of the compiler ---------------------------------------------------------------------
    def type_lane(self, t, conds):
        if t.op == "adt":
            v = t.args[1]
            if v == "NumType":
                n = t.args[2][0][1]
                return n.args[1].lower() if n.op == "adt" else None
            return {"RefType": "ref", "VecType": "v128"}.get(v)
        ls = self.L.lane_of_facts(conds, t)
        return next(iter(ls)) if len(ls) == 1 else None

    def bookkeeping(self, s):
        a = s.carm
        exp = [i.lane for i in s.rest if i.slot]
        res = list(s.case.results)
        fo = self.M.fold_op(s)
        if s.folded:
            if fo is None:
                self.undecided(("C04", "C05"), "%s: swallows an operator that is not identified" % s.case.label)
                return
            if fo == "LocalSet":
                res = res[:-1]
            elif fo not in ("LocalTee",):
                self.undecided(("C04", "C05"), "%s: swallows %s" % (s.case.label, fo))
                return
            if s.folded > 1:
                self.undecided(("C04", "C05"), "%s: swallows more than one operator" % s.case.label)
                return
        exp += res
        ty = unpush(a.types, T("var", "tstack"))
        if ty is None:
            if has(a.types, lambda x: x.op == "popped"):
                self.bad(s, ("C04",), "stack", "pops more operands from the compiler's type stack than its signature has")
            else:
                self.undecided(("C04",), "%s: type stack after it not recognised" % s.case.label)
        else:
            got = [self.type_lane(t, a.conds) for t in ty]
            if any(g is None and x != "ref" for g, x in zip(got, exp)) and len(got) == len(exp):
                self.undecided(("C04",), "%s: type pushed by it not recognised" % s.case.label)
            elif [g or x for g, x in zip(got, exp)] != exp or len(got) != len(exp):
                self.bad(s, ("C04",), "types", "leaves operand types %s on the compiler's stack, expected %s" % (got, exp))
            else:
                self.ok("C04", "%s (%s): operand types" % (s.case.label, self.scen(s)))
        for l in LANES:
            have = sum(1 for i in s.items if i.slot and i.lane == l)
            want = sum(1 for x in exp if x == l) - have
            d = linear64(a.depths[l], depth(l))
            if d is None:
                self.undecided(("C04",), "%s: %s register count after it not recognised" % (s.case.label, l))
            elif d != want:
                self.bad(s, ("C04",), "depth", "changes the number of %s registers in use by %+d, expected %+d" % (l, d, want))
            # every register written must be counted
            full = [i.lane for i in s.rest if i.slot] + list(s.case.results)
            top = sum(1 for x in full if x == l) - have
            if l in s.case.results and top > 0 and any(p.op == "R" and l in p.args for e in s.effs or () for p in e.writes):
                m = a.maxs[l]
                ms = m.args[0] if m.op == "umax" else (m,)
                mx = T("var", "m_" + l)
                bound = [self.least(c, mx, l) for c in a.conds or ({},)]
                bound = None if None in bound else min(bound)
                if any((linear64(x, depth(l)) or -1) >= top for x in ms) or mx in ms and bound is not None and bound >= top:
                    self.ok("C11", "%s: %s register count covers its result" % (s.case.label, l))
                elif all(linear64(x, depth(l)) is not None or x is mx for x in ms) and bound is not None:
                    self.bad(s, ("C04", "C11"), "max", "writes a %s register the compiler's register count does not cover" % l)
                else:
                    self.undecided(("C11",), "%s: %s register count not recognised" % (s.case.label, l))

    def least(self, c, mx, l):
        """Greatest n such that the conditions of an alternative give count mx >= registers in use + n
        (it never is below them); None when one of them relates the two in another way."""
        n = 0
        for k, (pos, vs) in c.items():
            if not has(k, lambda y: y is mx):
                continue
            if k.op != "LtU" or vs not in ({0}, {1}):
                return None
            x, y = k.args[1], k.args[2]
            if (1 in vs) == pos:
                lo, hi, d = x, y, 1
            else:
                lo, hi, d = y, x, 0
            i, j = linear64(lo, depth(l)), linear64(hi, mx)
            if i is None or j is None:
                if linear64(lo, mx) is None or linear64(hi, depth(l)) is None:
                    return None
                continue
            n = max(n, i + d - j)
        return n

    def pending(self, s):
        nx, probs = self.M.follow(s)
        for p in probs:
            if "not recognised" in p:
                self.undecided(("C05",), "%s: %s" % (s.case.label, p))
            else:
                self.bad(s, ("C05",), "pending", p)

    # -- effects --------------------------------------------------------------------------------------
    def dst(self, s):
        """(place the result must be written to, wrapper of a local's value or None)"""
        fo = self.M.fold_op(s)
        if fo == "LocalSet":
            return T("L", unext(field("LocalSet", "local_index", 1)))
        return s.res[0] if s.res else None

    def unwrap_local(self, v, lane_):
        """Payload of a Val of the lane, or None."""
        if v.op == "adt" and v.args[1] == "Num" and lane_ in NUM:
            n = v.args[2][0][1]
            if n.op == "adt" and n.args[1] == lane_.upper():
                return n.args[2][0][1]
        if v.op == "adt" and v.args[1] == "Ref" and lane_ == "ref":
            return v.args[2][0][1]
        return None

    def results(self, s, arms):
        """SArms of a value operator, reporting writes elsewhere."""
        d = self.dst(s)
        l = s.case.results[0]
        out = []
        for e, conds in arms:
            if e.kind == "panic" or (e.kind == "ret" and e.out not in (None, "Continue")):
                if e.kind == "ret" and e.trap is None and e.out == "Trap":
                    pass
                w = [p for p in e.writes if p.op in ("R", "L")]
                if w:
                    self.bad(s, ("C02", "C08"), "trapwrite", "writes %s although it traps" % short(w[0]), e.handler)
                out.append(specsem.SArm("trap", None, conds))
                continue
            if e.kind != "ret":
                out.append(specsem.SArm("other", None, conds, e.kind))
                continue
            if d not in e.writes:
                w = [p for p in e.writes if p.op in ("R", "L")]
                out.append(specsem.SArm("other", None, conds, "writes %s instead of %s" % (
                    ", ".join(map(short, w)) or "nothing", short(d))))
                continue
            v = e.writes[d]
            if d.op == "L":
                u = self.unwrap_local(v, l)
                if u is None:
                    out.append(specsem.SArm("other", None, conds, "writes %s to a local of type %s" % (short(v), l)))
                    continue
                v = u
            self.extra_writes(s, e, (d,))
            out.append(specsem.SArm("value", v, conds))
        return out

    def extra_writes(self, s, e, allowed):
        for p in e.writes:
            if p.op in ("R", "L") and p not in allowed:
                self.bad(s, ("C04", "C28" if p.op == "L" else "C04"), "clobber", "also writes %s" % short(p), e.handler)

    def strays(self, v):
        return collect(v, lambda x: x.op in ("R", "LN", "LV")) if v is not None else []

    def values(self, s, arms, props, expect):
        """expect(arm conds) -> expected value term; definite mismatches are reported."""
        for a, (e, _) in zip(self.results(s, arms), arms):
            if a.kind == "trap":
                self.bad(s, props, "trap", "stops for some operands", e.handler)
            elif a.kind != "value":
                self.bad(s, props, "place", a.why, e.handler)
            else:
                want = expect(a.conds)
                wants = want if isinstance(want, (list, tuple)) else [want]
                if any(same_under(a.value, w, a.conds, self.e, self.crate) for w in wants):
                    for p in props:
                        self.ok(p, "%s (%s)" % (s.case.label, self.scen(s)))
                elif clean(a.value):
                    self.bad(s, props, "value", "gives %s, expected %s" % (short(a.value), short(wants[0])), e.handler)
                else:
                    self.undecided(props, "%s: value not recognised" % s.case.label)

    def semantics(self, s, arms, lanes):
        op = s.case.op
        if op in NUMERIC:
            self.numeric(s, arms)
        elif op in CONSTS:
            v = self.M.meaning(s.case)
            self.values(s, arms, ("C01",), lambda c: v)
        elif op == "LocalGet":
            self.values(s, arms, ("C28",), lambda c: T("LN", unext(field(op, "local_index")), s.case.t))
        elif op in ("LocalSet", "LocalTee"):
            self.local_write(s, arms)
        elif op in ("Select", "TypedSelect"):
            self.select(s, arms)
        elif op in LOADS:
            self.load(s, arms)
        elif op in STORES:
            self.store(s, arms)
        elif op == "RefNull":
            self.values(s, arms, ("C27",), lambda c: T("adt", REFT(self.crate), "RefNull", ()))
        elif op == "RefIsNull":
            self.ref_is_null(s, arms)
        else:
            m = getattr(self, "op_" + op, None)
            if m:
                m(s, arms)

    def numeric(self, s, arms):
        op = s.case.op
        sa = self.results(s, arms)
        h = arms[0][0].handler
        tp = op in TRAPPING
        site = "%s (%s)" % (op, self.scen(s))
        for a in sa:
            if a.kind == "other":
                self.bad(s, ("C01", "C04"), "place", a.why, h)
                return
        stray = [x for a in sa for x in self.strays(a.value)]
        if stray:
            self.bad(s, ("C01", "C04"), "operand", "computes with %s, which is not one of its operands %s" % (
                short(stray[0]), ", ".join(map(short, s.locs))), h)
            return
        try:
            probs = specsem.check(op, sa)
        except specsem.Bad:
            self.undecided(("C01",), op)
            return
        if not probs:
            self.ok("C01", site)
            if tp:
                self.ok("C02", site)
            return
        w = constprop.witness(op, s.case.params, sa)
        if w is None:
            self.undecided(("C02",) if tp and all(p[1] for p in probs) else ("C01",), "%s: %s" % (op, probs[0][0]))
            return
        text, is_trap = w
        props = {"C02"} if is_trap else {"C01"}
        kind = "trap" if is_trap else "value"
        if not is_trap and tp:
            props.add("C02")
        if len(s.case.params) == 2 and s.case.params[0] == s.case.params[1]:
            sw = {T("opnd", 0): T("opnd", 1), T("opnd", 1): T("opnd", 0)}
            sb = [specsem.SArm(a.kind, rn(a.value, sw) if a.value is not None else None,
                               [{rn(t, sw): f for t, f in c.items()} for c in a.conds], a.why) for a in sa]
            if not safe_check(op, sb):
                props |= {"C04"}
                text += " (operands swapped)"
        other = self.other_operator(op, s.case, sa)
        if other:
            props.add("C07")
            text += " (this is %s)" % other
        self.bad(s, props, kind, "%s" % text, h)

    def other_operator(self, op, case, sa):
        for o in NUMERIC:
            if o != op and SIG[o] == (case.params, case.results):
                if safe_check(o, sa) == []:
                    return o
        return None

    def local_write(self, s, arms):
        op = s.case.op
        p = T("L", unext(field(op, "local_index")))
        opnd = T("opnd", 0)
        for e, conds in arms:
            if e.kind != "ret" or e.out not in (None, "Continue"):
                self.bad(s, ("C28",), "trap", "stops for some operands", e.handler)
                continue
            v = e.writes.get(p)
            if v is None:
                self.bad(s, ("C28",), "place", "does not write the named local", e.handler)
                continue
            u = self.unwrap_local(v, s.case.t)
            if u is None:
                if v.op == "adt":
                    self.bad(s, ("C28",), "variant", "writes %s to a local of type %s" % (short(v), s.case.t), e.handler)
                else:
                    self.undecided(("C28",), "%s: value written not recognised" % s.case.label)
                continue
            allowed = [p]
            if s.res:
                r = s.res[0]
                allowed.append(r)
                if r in e.writes:
                    if e.writes[r] is not opnd:
                        self.bad(s, ("C28",), "tee", "leaves %s on the stack" % short(e.writes[r]), e.handler)
                elif s.locs[0] is not r:
                    self.bad(s, ("C28",), "tee", "does not leave the value on the stack", e.handler)
            self.extra_writes(s, e, allowed)
            if same_under(u, opnd, conds, self.e, self.crate):
                self.ok("C28", "%s (%s)" % (s.case.label, self.scen(s)))
            elif clean(u):
                self.bad(s, ("C28",) + (("C04",) if self.strays(u) else ()), "value", "stores %s, expected its operand" % short(u), e.handler)
            else:
                self.undecided(("C28",), "%s: value written not recognised" % s.case.label)

    def select(self, s, arms):
        sa = self.results(s, arms)
        h = arms[0][0].handler
        z = T("opnd", 2)
        for cls, want in ((specsem.Class("zero", consts={z: K(0, "i32")}), T("opnd", 1)),
                          (specsem.Class("non-zero", notin={z: {0}}), T("opnd", 0))):
            fs = specsem.feasible(sa, cls)
            if not fs:
                self.undecided(("C28",), "%s: no arm for a %s condition" % (s.case.label, cls.name))
            for a, c in fs:
                if a.kind != "value":
                    self.bad(s, ("C28",), "place", a.why or "stops for some operands", h)
                elif same_under(a.value, want, [c], self.e, self.crate):
                    self.ok("C28", "%s (%s), condition %s" % (s.case.label, self.scen(s), cls.name))
                elif clean(a.value):
                    self.bad(s, ("C28",) + (("C04",) if self.strays(a.value) else ()), "value",
                             "gives %s for a %s condition, expected %s" % (short(a.value), cls.name, short(want)), h)
                else:
                    self.undecided(("C28",), "%s: value not recognised" % s.case.label)

    def ref_is_null(self, s, arms):
        null = self.crate.vdiscr(REFT(self.crate), "RefNull")
        d = T("disc", T("opnd", 0))
        for a, (e, _) in zip(self.results(s, arms), arms):
            if a.kind != "value":
                self.bad(s, ("C27",), "place", a.why or "stops", e.handler)
                continue
            for c in a.conds:
                f = c.get(d)
                if f is None or not is_k(a.value):
                    self.undecided(("C27",), "RefIsNull: guard not recognised")
                    continue
                cannull = (null in f[1]) == f[0]
                nonnull = f != (True, frozenset((null,)))
                if cannull and nonnull:
                    self.undecided(("C27",), "RefIsNull: guard not recognised")
                elif a.value.args[0] == int(cannull):
                    self.ok("C27", "RefIsNull, %s" % ("null" if cannull else "not null"))
                else:
                    self.bad(s, ("C27",), "value", "gives %s for a %s reference" % (short(a.value), "null" if cannull else "non-null"), e.handler)

    # -- memory ---------------------------------------------------------------------------------------
    def mem_base(self, b):
        """Is b the start of linear memory (the frame's cached pointer or the memory's own buffer)?"""
        if b.op == "init":
            b = b.args[0]
        if b.op == "S" and b.args[0] == "mem_ptr":
            return True
        return b.op == "pelem" and has(b, lambda x: x.op == "fld" and x.args[1] == "mem_addrs" or x.op == "S" and x.args[0] == "mem_addrs")

    def address(self, s, p, w, conds=({},)):
        """None when p is base + operand 0 + static offset, else (definite?, text)."""
        b, off = pointer(p)
        if b is None:
            return False, "address not recognised"
        want = {T("opnd", 0): 1, low32(self.memarg(s)): 1}
        if not self.mem_base(b):
            return (clean(b) and b.op in ("R", "LN")), "address not relative to the memory"
        if off == want:
            return None
        if all(k is None or k.op in ("opnd", "R", "LN", "LV", "proj") for k in off):
            return True, "accesses address %s, expected operand 0 plus the static offset" % lin(off)
        # fold it for particular operands and offsets that the path admits
        o, m = T("opnd", 0), low32(self.memarg(s))
        for x, y in ((8, 4), (0x12345, 0), (0x12340, 0xff), (16, 0x100), (24, 0x8000), (8, 0x10000), (0x10008, 0x12344),
                     (8, 0x7ffffff0), (0x7ffffff0, 8), (0x80000010, 16), (16, 0x80000010), (0xfffe0000, 8), (4, 0xfffe0000)):
            env = {o: x, m: y}
            if not any(all(z is None or (z in vs) == pol for t, (pol, vs) in c.items()
                           for z in (constprop.value(t, env),)) for c in conds):
                continue
            tot = 0
            for k, n in off.items():
                z = 1 if k is None else constprop.value(k, env)
                if z is None:
                    return False, "address not recognised"
                tot += n * z
            if tot & 0xffffffff != (x + y) & 0xffffffff:
                return True, "accesses address %#x for operand %#x and offset %#x (%s)" % (tot & 0xffffffff, x, y, lin(off))
        return False, "address not recognised"

    def memarg(self, s):
        op = s.case.op
        m = field(op, "memarg")
        return T("proj", m, "offset")

    def load(self, s, arms):
        op = s.case.op
        h = arms[0][0].handler
        ty = s.case.results[0]
        full = int(ty[1:])
        rest = op[3:].replace("Load", "")
        w = int(rest[:-1]) if rest else full
        sg = rest[-1] if rest else None
        sa = self.results(s, arms)
        for a in sa:
            if a.kind == "trap":
                self.undecided(("C03",), "%s: stops for some operands" % op)
                continue
            if a.kind != "value":
                self.bad(s, ("C03", "C04"), "place", a.why, h)
                continue
            v = a.value
            exts = []
            while v.op in ("sext", "zext", "trunc", "ffrom", "fbits"):
                exts.append((v.op, v.args[0], v.args[1]))
                v = v.args[-1]
            if v.op != "load" or v.args[0] not in WID:
                if is_k(v) or v.op == "opnd" or self.strays(v) and v.op in ("R", "LN"):
                    self.bad(s, ("C03",), "value", "gives %s" % short(a.value), h)
                else:
                    self.undecided(("C03",), "%s: value not recognised" % op)
                continue
            lw = WID[v.args[0]]
            if lw != w:
                self.bad(s, ("C03",), "width", "reads %d bits, expected %d" % (lw, w), h)
                continue
            # fold the extension on the distinguished patterns of the loaded bits
            good = True
            for bits in (0, 1, (1 << (w - 1)) - 1, 1 << (w - 1), (1 << w) - 1, 0x5a5a5a5a5a5a5a5a & ((1 << w) - 1)):
                x = constprop.value(a.value, {v: bits})
                want = bits if sg != "S" else sgn(bits, w) & ((1 << full) - 1)
                if x is None:
                    good = None
                    break
                if x != want:
                    good = False
                    self.bad(s, ("C03",), "ext", "turns the loaded bits %#x into %#x, expected %#x" % (bits, x, want), h)
                    break
            if good is None:
                self.undecided(("C03",), "%s: extension not recognised" % op)
            p = self.address(s, v.args[1], w, a.conds)
            if p and p[0]:
                self.bad(s, ("C03",) + (("C04",) if self.strays(v.args[1]) else ()), "addr", p[1], h)
            elif p:
                self.undecided(("C03",), "%s: %s" % (op, p[1]))
            elif good:
                self.ok("C03", "%s (%s): %d bits at operand + offset" % (op, self.scen(s), w))

    def store(self, s, arms):
        op = s.case.op
        ty = s.case.params[1]
        full = int(ty[1:])
        rest = op[3:].replace("Store", "")
        w = int(rest) if rest else full
        for e, conds in arms:
            h = e.handler
            if e.kind != "ret" or e.out not in (None, "Continue"):
                self.undecided(("C03",), "%s: stops for some operands" % op)
                continue
            self.extra_writes(s, e, ())
            st = [ev for ev in e.events if ev[0] == "store"]
            oth = [p for p in e.writes if p.op not in ("S", "R", "L")]
            if len(st) != 1 or oth:
                if not st and not oth and not [ev for ev in e.events if ev[0] in ("c", "loop", "memmove", "copyslice", "memset")]:
                    self.bad(s, ("C03",), "none", "stores nothing", h)
                else:
                    self.undecided(("C03",), "%s: stores not recognised" % op)
                continue
            _, sty, ptr, v = st[0][:4]
            if sty not in WID:
                self.undecided(("C03",), "%s: stored type %s" % (op, sty))
                continue
            if WID[sty] != w:
                self.bad(s, ("C03",), "width", "writes %d bits, expected %d" % (WID[sty], w), h)
                continue
            stray = self.strays(v)
            good = True
            if stray:
                good = False
                self.bad(s, ("C03", "C04"), "value", "stores %s, expected its second operand" % short(v), h)
            else:
                for bits in constprop.grid("i64" if full == 64 else "i32"):
                    x = constprop.value(v, {T("opnd", 1): bits, T("opnd", 0): 0x1234567})
                    if x is None:
                        good = None
                        break
                    if x & ((1 << w) - 1) != bits & ((1 << w) - 1):
                        good = False
                        self.bad(s, ("C03",) + (("C04",) if v is T("opnd", 0) else ()), "value",
                                 "stores %s: %#x for %#x" % (short(v), x, bits), h)
                        break
            if good is None:
                self.undecided(("C03",), "%s: value not recognised" % op)
            p = self.address(s, ptr, w, conds)
            if p and p[0]:
                self.bad(s, ("C03",) + (("C04",) if self.strays(ptr) else ()), "addr", p[1], h)
            elif p:
                self.undecided(("C03",), "%s: %s" % (op, p[1]))
            elif good:
                self.ok("C03", "%s (%s): %d bits at operand + offset" % (op, self.scen(s), w))

    # -- attribution -----------------------------------------------------------------------------------
    def attribute(self):
        """A problem that only deferral or destination folding exposes is (also) a problem of folding."""
        pl = {s.case.label for s, p, k, t, w in self.raw if self.plain(s) and k not in ("pending",)}
        seen = set()
        for s, props, kind, text, where in self.raw:
            props = set(props)
            if not self.plain(s) and s.case.label not in pl and kind != "nohandler":
                props.add("C05")
            key = "%s|%s|%s" % (s.case.label, kind, "plain" if self.plain(s) else "folded")
            if key in seen:
                for f in self.F:
                    if f.key == key:
                        f.props = f.props | frozenset(props)
                continue
            seen.add(key)
            h = where or (s.hnames[0] if s.hnames and s.hnames[0] else None)
            self.F.append(Finding(props, key, "%s [%s]: %s" % (s.case.label, self.scen(s), text),
                                  self.where(h) if h else self.where(self.M.px.fn.name)))


WID = {"i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "i64": 64, "u64": 64, "f32": 32, "f64": 64}


def adt_with(crate, *variants):
    for p, a in crate.adts.items():
        vs = [v[0] for v in a["variants"]]
        if set(variants) <= set(vs) and len(vs) <= len(variants) + 2:
            return p
    raise Missing("no type with variants %s" % (variants,))


def VALT(crate):
    return cached(crate, "VALT", lambda: adt_with(crate, "Num", "Ref"))


def NUMT(crate):
    return cached(crate, "NUMT", lambda: next(p for p, a in crate.adts.items() if sorted(v[0] for v in a["variants"]) ==
                                              ["F32", "F64", "I32", "I64"] and any(v[2] for v in a["variants"])))


def REFT(crate):
    return cached(crate, "REFT", lambda: adt_with(crate, "RefNull"))


_cc = {}


def cached(crate, k, f):
    if (id(crate), k) not in _cc:
        _cc[(id(crate), k)] = f()
    return _cc[(id(crate), k)]


def safe_check(op, sa):
    try:
        return specsem.check(op, sa)
    except Exception:
        return ["?"]


def linear64(t, d):
    """k when t is d + k"""
    if t is d:
        return 0
    if t.op == "Add" and t.args[1] is d and is_k(t.args[2]):
        return sgn(t.args[2].args[0], 64)
    return None


def lin(off):
    return " + ".join(("%d*" % v if v != 1 else "") + (fmt(k)[:80] if k is not None else "") if k is not None else str(v)
                      for k, v in off.items()) or "0"


def short(t):
    s = fmt(t) if isinstance(t, Term) else str(t)
    s = re.sub(r"(opres|past)\((\d)\)!Ok\.0!0!", "", s)
    return s[:180]
