"""Loading of MIR facts: functions, types, ADTs, control-flow helpers."""
import re


class Fn:
    def __init__(self, d, crate):
        self.crate = crate
        self.name = d["name"]
        self.kind = d["kind"]
        self.nargs = d["args"]
        self.file = d["file"]
        self.line = d["line"]
        self.locals = d["locals"]
        self.blocks = d["blocks"]
        self.generics = d.get("generics", [])
        self.impl_trait = d.get("impl_trait")
        self.self_ty = crate.types[d["self_ty"]] if "self_ty" in d else None
        self.pub = d.get("pub", 0)
        self._succ = None
        self._rpo = None
        self._live = None
        self._loops = None

    def lty(self, i):
        return self.crate.types[self.locals[i][0]]

    def lname(self, i):
        l = self.locals[i]
        return l[1] if len(l) > 1 else None

    def succ(self, b):
        if self._succ is None:
            self._succ = [term_succ(x["t"]) for x in self.blocks]
        return self._succ[b]

    def rpo(self):
        """Reverse postorder index of reachable blocks."""
        if self._rpo is None:
            seen, order = set(), []
            stack = [(0, iter(self.succ(0)))]
            seen.add(0)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succ(s))))
                        break
                else:
                    order.append(b)
                    stack.pop()
            order.reverse()
            self._rpo = {b: i for i, b in enumerate(order)}
        return self._rpo

    def loops(self):
        """head -> set of blocks of its natural loop (retreating edges in RPO)."""
        if self._loops is None:
            rpo = self.rpo()
            preds = {}
            for b in rpo:
                for s in self.succ(b):
                    preds.setdefault(s, []).append(b)
            heads = {}
            for b in rpo:
                for s in self.succ(b):
                    if rpo[s] <= rpo[b]:
                        body = heads.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x in body:
                                continue
                            body.add(x)
                            st.extend(preds.get(x, []))
            self._loops = heads
        return self._loops

    def live_in(self):
        """Locals live on entry of each block; locals whose address is taken are always live."""
        if self._live is None:
            addr = set()
            use, deff = [], []
            for bl in self.blocks:
                u, d = set(), set()

                def rp(p, is_def=False):
                    if is_def and len(p) == 1:
                        d.add(p[0])
                        return
                    if p[0] not in d:
                        u.add(p[0])
                    for e in p[1:]:
                        if isinstance(e, list) and e[0] == "i" and e[1] not in d:
                            u.add(e[1])

                def ro(o):
                    if o[0] in ("c", "m"):
                        rp(o[1])

                for s in bl["s"]:
                    if s[0] == "=":
                        rv = s[2]
                        k = rv[0]
                        if k == "use": ro(rv[1])
                        elif k == "rep": ro(rv[1])
                        elif k in ("ref", "raw"):
                            rp(rv[2])
                            if "*" not in rv[2][1:]:
                                addr.add(rv[2][0])
                        elif k == "cast": ro(rv[2])
                        elif k == "bin": ro(rv[2]); ro(rv[3])
                        elif k == "un": ro(rv[2])
                        elif k == "disc": rp(rv[1])
                        elif k == "agg":
                            for o in rv[2]: ro(o)
                        rp(s[1], True)
                    elif s[0] == "sd": rp(s[1])
                    elif s[0] == "assume": ro(s[1])
                    elif s[0] == "copyno":
                        for o in s[1:]: ro(o)
                t = bl["t"]
                if t[0] == "switch": ro(t[1])
                elif t[0] == "drop": pass
                elif t[0] == "call":
                    ro(t[1])
                    for o in t[2]: ro(o)
                    rp(t[3], True)
                elif t[0] == "tailcall":
                    ro(t[1])
                    for o in t[2]: ro(o)
                elif t[0] == "assert":
                    ro(t[1])
                elif t[0] == "ret":
                    if 0 not in d: u.add(0)
                use.append(u); deff.append(d)
            live = [set() for _ in self.blocks]
            order = sorted(self.rpo(), key=lambda b: -self.rpo()[b])
            ch = True
            while ch:
                ch = False
                for b in order:
                    o = set()
                    for s in self.succ(b): o |= live[s]
                    n = use[b] | (o - deff[b])
                    if n != live[b]:
                        live[b] = n; ch = True
            # storage of address-taken locals: forward "may be storage-live"
            sl = set()
            for bl in self.blocks:
                for s in bl["s"]:
                    if s[0] in ("live", "dead"):
                        sl.add(s[1])
            n = len(self.blocks)
            always = set(x for x in addr if x not in sl)
            track = addr & sl
            may = [set() for _ in range(n)]
            ro_ = sorted(self.rpo(), key=lambda b: self.rpo()[b])
            ch = True
            first = True
            while ch:
                ch = False
                for b in ro_:
                    cur = set(may[b])
                    for s in self.blocks[b]["s"]:
                        if s[0] == "live" and s[1] in track: cur.add(s[1])
                        elif s[0] == "dead": cur.discard(s[1])
                    for x in self.succ(b):
                        if not cur <= may[x]:
                            may[x] |= cur
                            ch = True
            self._live = [l | always | may[i] for i, l in enumerate(live)]
        return self._live


def term_succ(t):
    k = t[0]
    if k == "goto": return [t[1]]
    if k == "switch": return [x[1] for x in t[3]] + [t[4]]
    if k == "drop": return [t[2]]
    if k == "call": return [t[4]] if t[4] >= 0 else []
    if k == "assert": return [t[5]]
    return []


class Crate:
    def __init__(self, j):
        self.name = j["crate"]
        self.types = j["types"]
        self.adts = {}
        for a in j["adts"]:
            self.adts[a["name"]] = a
        self.fns = {}
        self.dups = {}
        for d in j["fns"]:
            f = Fn(d, self)
            if f.name in self.fns:
                self.dups.setdefault(f.name, [self.fns[f.name]]).append(f)
            else:
                self.fns[f.name] = f
        self.impls = {}
        for f in self.fns.values():
            if f.impl_trait and f.self_ty:
                m = f.name.rsplit("::", 1)[-1]
                self.impls.setdefault((strip_ty(f.impl_trait), m), []).append(f)

    def adt_of_type(self, ty):
        return self.adts.get(strip_generics(ty))

    def variant(self, adt, name):
        for i, v in enumerate(self.adts[adt]["variants"]):
            if v[0] == name:
                return i, v
        return None

    def vdiscr(self, adt, vname):
        for v in self.adts[adt]["variants"]:
            if v[0] == vname:
                return v[1]
        raise KeyError((adt, vname))

    def named(self, pat):
        r = re.compile(pat)
        return [f for n, f in self.fns.items() if r.search(n)]


def strip_ty(t):
    """Drop lifetimes."""
    t = re.sub(r"<'[a-z_]+>", "", t)
    t = re.sub(r"'[a-z_]+,? ?", "", t)
    return t


def strip_generics(ty):
    ty = ty.strip()
    i = ty.find("<")
    if i > 0:
        return ty[:i]
    return ty
