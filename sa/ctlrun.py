"""Control skeletons: every structured-control construct, branch and call compiled in an arbitrary register context, linked,
and the handler of every emitted control instruction applied to the register file and label stack it will find."""
from ctl import *
from result import Result, Finding
import constprop

DBG = 0
VMS = "execution::state::VmState"


def linear64(t, d):
    """k when t is d + k, whatever the width it is kept in"""
    while t.op in ("trunc", "zext"):
        t = t.args[2]
    if t is d:
        return 0
    if t.op == "Add" and t.args[1] is d and is_k(t.args[2]):
        return sgn(t.args[2].args[0], 64)
    return None


REGALLOC = "execution::regs::RegAllocator"


class Frame_:
    def __init__(self, kind, params, results, height, idx):
        self.kind, self.params, self.results, self.height, self.idx = kind, params, results, height, idx
        self.start = self.end = self.els = None

    @property
    def label(self):
        return self.params if self.kind == "loop" else self.results


class Check:
    def __init__(self, op, pc, S, frame, ctrl, **kw):
        self.op, self.pc, self.S, self.frame, self.ctrl = op, pc, list(S), frame, list(ctrl)
        self.since, self.vals = None, {}
        self.__dict__.update(kw)


class Skeleton:
    """One function body of control operators."""

    def __init__(self, own, name, params, results, body, types=(), module=None, imports=()):
        self.imports = imports
        self.own, self.name, self.body = own, name, body
        self.q = Seq(own.L, params, results, types, module)
        self.S, self.ctrl, self.checks, self.reach = [], [], [], True
        self.func = Frame_("func", [], results, 0, 0)
        self.faults = []
        self.since, self.vals, self.next = None, {}, None

    def check(self, c):
        c.since, c.vals = self.since, dict(self.vals)
        self.checks.append(c)
        self.since, self.vals = None, {}

    def bt(self, params, results):
        def B(v, *a):
            return T("adt", "wasmparser::BlockType", v, tuple((str(i), x) for i, x in enumerate(a)))
        if not params and not results:
            return B("Empty")
        if not params and len(results) == 1:
            return B("Type", wasm_type(self.own.crate, results[0]))
        t = (list(params), list(results))
        return B("FuncType", K([(list(a), list(b)) for a, b in self.q.types].index(t), "u32"))

    def n(self):
        i = self.q.instrs()
        if i is None:
            raise Stuck("emitted instructions are not a sequence")
        return len(i)

    def feed(self, op, follow=None, **f):
        n0 = self.n()
        self.q.step(self.q.operator(op, **f), follow)
        return n0, self.n()

    def sync(self, what):
        """The compiler's operand count in every lane is that of the operand stack."""
        if not self.reach:
            return
        got = self.q.above()
        for l in LANES:
            want = self.S.count(l)
            if got[l] is None:
                self.own.und(("C06", "C04"), "operand count after %s" % what)
            elif got[l] != want:
                self.faults.append((("C06", "C04"), "depth:" + what.split(" ")[0],
                                    "after %s in %s the compiler counts %d %s operands, the operand stack holds %d" % (what, self.name, got[l], l, want)))
                raise Stuck("operand count")

    def run(self):
        self.items(self.body)
        n0, n1 = self.feed("End", False)
        self.func.end = n1 - 1
        if self.reach:
            assert self.S == self.func.results, (self.name, self.S)
            self.check(Check("end", n1 - 1, self.S, self.func, self.ctrl, fall=True))
        r = self.q.link()
        if len(r) != 1:
            raise Stuck("linking: %d results" % len(r))
        self.eng, self.st, mod = r[0]
        fs = dict(mod.args[2])["funcs"]
        fn = dict(fs.args[0][-1].args[2])
        self.fn = fs.args[0][-1]
        body, hs = strip_rc(fn["body"]), strip_rc(fn["handlers"])
        if body.op != "vec" or hs.op != "vec":
            raise Stuck("linked body is not a sequence")
        self.code, self.hand = list(body.args[0]), list(hs.args[0])

    def items(self, its, tail=None):
        for i, it in enumerate(its):
            self.next = its[i + 1] if i + 1 < len(its) else tail
            self.item(it)
            if it[0] not in ("op", "push"):
                self.since, self.vals = None, {}

    def follow(self):
        """The operator after the current one, when an item of the skeleton names it."""
        it = self.next
        if it is None:
            return self.q.operator("End")
        k = it[0]
        if k in ("block", "loop", "if"):
            return self.q.operator(k.capitalize(), blockty=self.bt(list(it[1]), list(it[2])))
        if k == "op":
            return self.q.operator(it[1], **it[2])
        n = {"br": "Br", "br_if": "BrIf", "br_table": "BrTable", "return": "Return", "unreachable": "Unreachable", "call": "Call", "call_indirect": "CallIndirect"}.get(k)
        return self.q.operator(n) if n else None

    def item(self, it):
        k = it[0]
        if k == "push":
            for l in it[1:]:
                if self.reach:
                    self.S.append(l)
                    self.q.move(l, 1)
        elif k == "pop":
            for l in it[1:]:
                if self.reach:
                    assert self.S.pop() == l
                    self.q.move(l, -1)
        elif k in ("block", "loop", "if"):
            self.block(it)
        elif k in ("br", "br_if", "br_table"):
            self.branch(it)
        elif k == "return":
            n0, n1 = self.feed("Return")
            if self.reach:
                assert self.S[len(self.S) - len(self.func.results):] == self.func.results, (self.name, self.S)
                self.check(Check("return", n1 - 1, self.S, self.func, self.ctrl))
            self.reach = False
        elif k == "unreachable":
            n0, n1 = self.feed("Unreachable")
            if self.reach:
                self.check(Check("unreachable", n1 - 1, self.S, None, self.ctrl))
            self.reach = False
        elif k in ("call", "call_indirect"):
            self.call(it)
        elif k == "op":
            n0, n1 = self.feed(it[1], self.follow(), **it[2])
            if self.reach:
                if self.since is None:
                    self.since = n0
                for l in it[3]:
                    self.S.pop()
                    self.vals.pop(len(self.S), None)
                self.S += it[4]
                if len(it) > 5:
                    self.vals[len(self.S) - 1] = it[5]
                self.sync(it[1])

    def block(self, it):
        kind, params, results = it[0], list(it[1]), list(it[2])
        S0 = list(self.S)
        live = self.reach
        n0, n1 = self.feed(kind.capitalize(), blockty=self.bt(params, results))
        if live:
            if kind == "if":
                assert self.S.pop() == "i32"
            f = Frame_(kind, params, results, len(self.S) - len(params), len(self.ctrl) + 1)
            f.start = n1 - 1
            assert self.S[f.height:] == params, (self.S, params)
            c = Check("open", n1 - 1, S0, f, self.ctrl, inner=list(self.S))
            self.check(c)
            self.ctrl.append(f)
            self.sync("%s of type %s" % (kind, sig(params, results)))
        self.items(it[3])
        if kind == "if" and len(it) > 4 and it[4] is not None:
            n0, n1 = self.feed("Else")
            if live:
                f.els = n1
                if self.reach:
                    assert self.S[f.height:] == f.results, (self.name, self.S)
                    self.check(Check("jump", n1 - 1, self.S, f, self.ctrl, fall=True))
                self.S = self.S[:f.height] + params
                self.reach = True
                self.sync("else of type %s" % sig(params, results))
            self.items(it[4])
        n0, n1 = self.feed("End")
        if live:
            f.end = n1 - 1
            if self.reach:
                assert self.S[f.height:] == f.results, (self.name, self.S, f.results)
                self.check(Check("end", n1 - 1, self.S, f, self.ctrl, fall=True))
            self.ctrl.pop()
            self.S = self.S[:f.height] + results
            self.reach = True
            self.sync("end of a %s of type %s" % (kind, sig(params, results)))

    def branch(self, it):
        k = it[0]
        if k == "br_table":
            tg, df = it[1], it[2]
            bt = T("adt", "wasmparser::BrTable", "BrTable", (("targets", vec(OK(K(d, "u32")) for d in tg)), ("default", K(df, "u32"))))
            n0, n1 = self.feed("BrTable", targets=bt)
        else:
            n0, n1 = self.feed({"br": "Br", "br_if": "BrIf"}[k], relative_depth=K(it[1], "u32"))
        if not self.reach:
            return
        S = list(self.S)
        if k != "br":
            assert self.S.pop() == "i32"
        frs = [self.ctrl[len(self.ctrl) - 1 - d] if d < len(self.ctrl) else self.func for d in ([it[1]] if k != "br_table" else list(it[1]) + [it[2]])]
        for f in frs:
            w = f.results if f.kind == "func" else f.label
            assert self.S[len(self.S) - len(w):] == w and len(self.S) >= len(w), (self.name, it, self.S, w)
        fr = lambda d: self.ctrl[len(self.ctrl) - 1 - d] if d < len(self.ctrl) else self.func
        c = Check(k, n1 - 1, S, None, self.ctrl)
        if k == "br_table":
            c.targets, c.default, c.depths = [fr(d) for d in it[1]], fr(it[2]), (it[1], it[2])
        else:
            c.frame, c.depths = fr(it[1]), it[1]
        self.check(c)
        if k == "br_if":
            self.sync("br_if")
        else:
            self.reach = False

    def call(self, it):
        if it[0] == "call":
            _, idx, params, results = it
            n0, n1 = self.feed("Call", function_index=K(idx, "u32"))
        else:
            _, ti, tb, params, results = it
            n0, n1 = self.feed("CallIndirect", type_index=K(ti, "u32"), table_index=K(tb, "u32"))
        if not self.reach:
            return
        S = list(self.S)
        if it[0] == "call_indirect":
            assert self.S.pop() == "i32"
        if params:
            assert self.S[-len(params):] == list(params)
            del self.S[-len(params):]
        base = list(self.S)
        self.S += results
        self.check(Check(it[0], n1 - 1, S, None, self.ctrl, what=it, params=list(params), results=list(results), base=base))
        self.sync(it[0])


def struct(crate, name, vals, pfx="f_"):
    a = crate.adts[name]["variants"][0]
    return T("adt", name, a[0], tuple((x[0], vals[x[0]] if x[0] in vals else T("var", pfx + x[0])) for x in a[2]))


def modfields(C, imports, funcs):
    """Module fields for function imports [("Func", type)|("WasiFunc", variant)] and defined functions [type]."""
    cr = C.crate
    M = "structure::module::"
    ixt = [n for n in cr.adts if n.endswith("::TypeIdx")]
    idx = lambda n: C_newtype(cr, ixt[0], K(n, "u32"))
    imps = []
    for k, x in imports:
        v = [v for v in cr.adts[M + "ImportDesc"]["variants"] if v[0] == k][0]
        if k == "Func":
            p = idx(x)
        else:
            p = T("adt", cr.types[v[2][0][1]], x, ())
        imps.append(struct(cr, M + "Import", {"desc": T("adt", M + "ImportDesc", k, (("0", p),))}))
    fs = []
    for t in funcs:
        tf = [f[0] for f in cr.adts[M + "Func"]["variants"][0][2] if cr.types[f[1]].endswith("TypeIdx")][0]
        fs.append(struct(cr, M + "Func", {tf: idx(t)}))
    out = {}
    for n, t in ((f[0], cr.types[f[1]]) for f in cr.adts[M + "Module"]["variants"][0][2]):
        if t.startswith("std::vec::Vec<%sImport>" % M):
            out[n] = vec(imps)
        elif t.startswith("std::vec::Vec<%sFunc>" % M):
            out[n] = vec(fs)
        elif t == "usize" and "import" in n:
            out[n] = K(len(imports), "usize")
    return out


def C_newtype(cr, ty, v):
    a = cr.adts[ty]["variants"][0]
    return T("adt", ty, a[0], ((a[2][0][0], v),))


def sig(p, r):
    return "[%s]->[%s]" % (" ".join(p), " ".join(r))


def strip_rc(v):
    while v.op in ("rc", "box"):
        v = v.args[0]
    return v


def wasm_type(crate, l):
    WT = "wasmparser::ValType"
    n = {"i32": "I32", "i64": "I64", "f32": "F32", "f64": "F64", "ref": "Ref", "v128": "V128"}[l]
    for v in crate.adts[WT]["variants"]:
        if v[0] == n:
            return T("adt", WT, n, (("0", T("var", "wasmref")),) if v[2] else ())


def pos(S, j):
    """register of operand j of the operand stack S"""
    l = S[j]
    return T("R", l, unext(trunc(mk("Add", 64, depth(l), K(S[:j].count(l), "usize")), 64, 16)))


class Ctl:
    def __init__(self, cfg="legacy"):
        self.cfg = cfg
        self.L = Lab(cfg)
        self.crate = self.L.crate
        self.X = self.L.X
        self.R = Result()
        self.anybase = None
        self.handler_setup()

    def und(self, props, what):
        self.R.undecided(props, what)

    def good(self, props, what):
        for p in ([props] if isinstance(props, str) else props):
            self.R.good(p, what)

    def bad(self, props, key, text, where=""):
        self.R.findings.append(Finding(props, "ctl:" + key, "%s [%s build]" % (text, self.cfg), where))

    # -- handlers on concrete control state -------------------------------------------------------------
    def handler_setup(self):
        a = self.crate.adts[VMS]["variants"][0]
        tys = {f[0]: self.crate.types[f[1]] for f in a[2]}
        self.f_labels = [n for n, t in tys.items() if "Vec<" in t and "LabelStack>" in t]
        self.f_pc = "pc" if tys.get("pc") == "usize" else None
        self.f_cur = [n for n, t in tys.items() if t == "usize" and "label" in n]
        self.f_len = [n for n, t in tys.items() if t == "usize" and n.endswith("_len")]
        self.f_tys = tys

    def base_of(self, p):
        """(state base term, pc term) in the place of the current instruction"""
        found = {}

        def walk(t):
            if isinstance(t, Term):
                if t.op == "init" and t.args[0].op == "fld" and t.args[0].args[1] == self.f_pc:
                    found["pc"] = t
                    found["base"] = t.args[0].args[0]
                for a in t.args: walk(a)
            elif isinstance(t, tuple):
                for a in t: walk(a)
        walk(p)
        return found.get("base"), found.get("pc")

    def apply(self, h, instr, pc, nlab, ncode, env=None):
        """Outcomes of handler h on instr at position pc with nlab labels."""
        p = self.X.cur(h)
        eng = self.X.engine()
        eng.unroll = True
        st = State()
        st.env.update(env or {})
        base = self.anybase
        if p is not None:
            base, pct = self.base_of(p)
            if base is None:
                raise Missing("position of the current instruction in %s" % h)
            self.anybase = base
            pp = subst(p, {pct: K(pc, "usize")})
            if pc == 0 and pp.op == "deref" and pp.args[0].op == "padd":
                pp = T("deref", pp.args[0].args[0])
            eng.known.add(pp)
            eng.known.add(p)
            st.env[pp] = instr
        if base is None:
            raise Missing("machine state in %s" % h)
        F = lambda n: T("fld", base, n)
        st.env[F(self.f_pc)] = K(pc, "usize")
        lp = None
        if len(self.f_labels) == 1:
            n = self.f_labels[0]
            ty = self.f_tys[n]
            lp = F(n) if not ty.startswith(("*", "&", "std::ptr::NonNull")) else T("deref", T("init", F(n)))
            st.env[lp] = vec(T("var", "label%d" % i) for i in range(nlab))
        if len(self.f_cur) == 1:
            st.env[F(self.f_cur[0])] = K(nlab - 1, "usize")
        if len(self.f_len) == 1:
            st.env[F(self.f_len[0])] = K(ncode, "usize")
        res = []
        for o in eng.run(self.crate.fns[h], None, st):
            m = self.outcome(eng, o, F, lp, pp if p is not None else None)
            for r in res:
                if r.same(m):
                    break
            else:
                res.append(m)
        return res

    def outcome(self, eng, o, F, lp, pp):
        m = Out_()
        m.kind, m.o, m.eng, m.loop = "panic", o, eng, any(ev[0] == "loop" for ev in o.st.ev)
        m.conds = o.st.conds
        if o.kind != "ret":
            return m
        m.kind = o.val.args[1] if o.val.op == "adt" else "?"
        pcv = eng.close(o.st, eng.read(o.st, F(self.f_pc)))
        m.pc = pcv.args[0] if is_k(pcv) else pcv
        m.nl = None
        if lp is not None:
            ln = eng.len_of(eng.read(o.st, lp))
            m.nl = ln.args[0] if is_k(ln) else ln
            if len(self.f_cur) == 1:
                ci = eng.read(o.st, F(self.f_cur[0]))
                m.cur = ci.args[0] if is_k(ci) else ci
        m.env = {k: eta(eng.close(o.st, v), m.conds, self.crate) for k, v in o.st.env.items() if root(k).op != "local" and k is not pp}
        m.regs, m.other, m.wild = {}, {}, False
        for k, v in m.env.items():
            c = cplace(k)
            if c.op == "R":
                m.regs[nr(c)] = nr(cz(v))
        for ev in o.st.ev:
            if ev[0] == "w":
                c = cplace(ev[1])
                if c.op != "R":
                    m.other[c] = cz(etas(ev[2], m.conds, self.crate))
                    if any(x.op == "fld" and str(x.args[1]).endswith("_regs") for x in walk(c)):
                        m.wild = True
        return m

    # -- following control ------------------------------------------------------------------------------
    def step(self, sk, pc, nlab, env):
        h = sk.hand[pc] if pc < len(sk.hand) else None
        if h is None or h.op != "fn":
            raise Stuck("no handler at position %d" % pc)
        return self.apply(h.args[0], sk.code[pc] if pc < len(sk.code) else T("var", "nocode"), pc, nlab, len(sk.code), env)

    def raw(self, outs, reg):
        """The place handlers use for register `reg`."""
        for o in outs:
            for c in o.conds:
                for t in c:
                    for x in walk(t):
                        if x.op == "idx" and nr(cplace(x)) is reg:
                            return x
            for v in getattr(o, "env", {}).values():
                for x in walk(v):
                    if x.op == "idx" and nr(cplace(x)) is reg:
                        return x
        return None

    def chase(self, sk, pc, nlab, env, goal):
        """Follow control from (pc, labels) to the goal: (pc, labels) or "return". -> (state, text)
        state: "ok" with the environment, "bad" with what happened instead, "und"."""
        regs_env = dict(env)
        for n in range(40):
            if n and goal != "return" and (pc, nlab) == goal:
                return "ok", regs_env, None
            if not isinstance(pc, int) or not isinstance(nlab, int):
                return "und", None, "position or label count not constant"
            if pc >= len(sk.code):
                return "bad", regs_env, "leaves the body at position %d with %d labels" % (pc, nlab)
            outs = self.step(sk, pc, nlab, regs_env)
            if len(outs) != 1:
                if n and goal != "return" and pc == goal[0]:
                    return "bad", regs_env, "arrives at position %d with %d labels on the label stack instead of %d" % (pc, nlab, goal[1])
                return ("bad" if n and sk.code[pc].args[1] not in CONTROL else "und"), regs_env, "reaches position %d (%s) with %d labels" % (pc, sk.code[pc].args[1], nlab)
            o = outs[0]
            if o.kind == "panic":
                return "bad", regs_env, "aborts at position %d (%s)" % (pc, sk.code[pc].args[1])
            rr = [k for k in o.other if is_fld(k, "return") ]
            if rr:
                return ("ok" if goal == "return" else "bad"), o, "returns from the function at position %d" % pc
            if o.loop or o.wild:
                return "und", None, "effects of %s" % sk.code[pc].args[1]
            if o.kind != "Continue":
                return "bad", o, "stops with %s at position %d (%s)" % (o.kind, pc, sk.code[pc].args[1])
            if n and sk.code[pc].args[1] not in CONTROL:
                return "bad", regs_env, "reaches position %d (%s) with %d labels" % (pc, sk.code[pc].args[1], nlab)
            pc, nlab = o.pc, o.nl
            regs_env = o.env
        return "und", None, "too many steps"

    def regs_of(self, env):
        return {nr(cplace(k)): nr(cz(v)) for k, v in env.items() if cplace(k).op == "R"}

    def arrive(self, sk, c, S, f, pc, nlab, env, what, extra=0):
        """Control leaves c for the label of frame f (or falls to its end) with operand stack S."""
        where = "%s: %s" % (sk.name, what)
        fall = getattr(c, "fall", False)
        lab = f.results if fall or f.kind == "func" else f.label
        n = len(lab)
        if f.kind == "func":
            goal = "return"
        elif f.kind == "loop" and not fall:
            goal = (f.start + 1, f.idx + 1)
        else:
            goal = (f.end + 1, f.idx)
        r, got, txt = self.chase(sk, pc, nlab, env, goal)
        key = what_key(c)
        if r == "und":
            self.und(("C06",), "%s: %s" % (where, txt))
            return
        if r == "bad":
            exp = "the function's return" if goal == "return" else "position %d with %d labels" % goal
            self.bad(("C06",), "target:" + key, "%s: control should arrive at %s, but %s" % (where, exp, txt))
            return
        at0 = self.regs_of(env)
        src = [at0.get(x, x) for x in (pos(S, len(S) - n + j) for j in range(n))]
        if goal == "return":
            o = got
            lst = [v for k, v in o.other.items() if is_fld(k, "return")][0]
            regs = self.regs_of(o.env)
            rs = self.reglist(lst)
            if rs is None:
                self.und(("C06", "C04"), where + ": registers of the returned values")
                return
            if len(rs) != n:
                self.bad(("C06", "C04"), "return-count:" + key, "%s: %d result registers for %d results" % (where, len(rs), n))
                return
            vals = [regs.get(x, x) for x in rs]
            if any(x.args[0] != lab[j] for j, x in enumerate(rs)):
                self.bad(("C06", "C04"), "return-lane:" + key, "%s: result registers %s for results of type %s" % (where, [fmt(x) for x in rs], " ".join(lab)))
                return
        else:
            regs = self.regs_of(got)
            T_ = S[:f.height] + list(lab)
            dst = [pos(T_, f.height + j) for j in range(n)]
            vals = [regs.get(x, x) for x in dst]
            for j in range(f.height):
                p = pos(S, j)
                if regs.get(p, p) is not at0.get(p, p):
                    self.bad(("C06", "C04"), "clobber:" + key, "%s: operand %d of the stack below the label (%s) is overwritten with %s" % (where, j, fmt(p), fmt(regs[p])))
                    return
        for j in range(n):
            if vals[j] is not src[j]:
                props = ("C06", "C04")
                if vals[j].op not in ("R", "LN", "LV") and not is_k(vals[j]):
                    self.und(props, where + ": value %d" % j)
                    return
                self.bad(props, "value:" + key, "%s: value %d arriving at the label is %s, the operand carried is %s" % (where, j, fmt(vals[j]), fmt(src[j])))
                return
        self.good(("C06",), where)

    def reglist(self, v):
        n = 0
        while v.op in ("box", "rc", "ref", "pval") and n < 5:
            v = v.args[0]
            n += 1
        if v.op != "vec":
            return None
        r = []
        for x in v.args[0]:
            if x.op != "adt":
                return None
            l = [k for k, u in UP.items() if u == x.args[1]]
            if not l:
                return None
            r.append(nr(T("R", l[0], unext(x.args[2][0][1]))))
        return r

    # -- the obligations of one linked skeleton --------------------------------------------------------
    def counts(self, sk):
        """Every register the code of the body names is covered by the function's register counts."""
        al = [x for x in walk(sk.fn) if x.op == "adt" and x.args[0] != REGALLOC and x.args[0].endswith("RegAllocation")]
        if len(al) != 1:
            self.und(("C11",), "register counts of a function")
            return
        cnt = {l: v for l in LANES for n, v in al[0].args[2] if n.startswith(l)}
        top = {}
        for ins in sk.code:
            for r in walk(ins):
                if r.op == "adt" and r.args[0] == CT:
                    l = r.args[1].lower()
                    i = linear64(r.args[2][0][1], depth(l))
                    if i is not None:
                        top[l] = max(top.get(l, -1), i)
        for l, i in top.items():
            m = cnt.get(l)
            ms = m.args[0] if m is not None and m.op == "umax" else (m,)
            if m is None or any(x is None for x in ms):
                self.und(("C11",), "register count of " + l)
                continue
            v = [-1 if x is T("var", "m_" + l) and i < 0 else 0 if x is T("var", "m_" + l) else linear64(x, depth(l)) for x in ms]
            if any(x is None for x in v):
                self.und(("C11",), "register count of " + l)
            elif max(v) > i:
                self.good(("C11",), "%s: the %s register count covers the registers named" % (sk.name, l))
            else:
                self.bad(("C11", "C04"), "count:" + l, "%s: an instruction names %s register %d above the function's base, only %d are counted" % (sk.name, l, i, max(v)))

    def evaluate(self, sk):
        self.sentinels(sk)
        self.counts(sk)
        for f, k, t in sk.faults:
            self.bad(f, k, t)
        for c in sk.checks:
            try:
                getattr(self, "ck_" + c.op)(sk, c)
            except (Stuck, Missing) as x:
                self.und(("C06",), "%s: %s: %s" % (sk.name, c.op, x))

    def sentinels(self, sk):
        for i, ins in enumerate(sk.code):
            if i >= len(sk.hand):
                self.bad(("C07",), "handlers-short", "%s: the handler table has %d entries for %d instructions" % (sk.name, len(sk.hand), len(sk.code)))
                return
            w = self.X.select(ins)
            if len(w) != 1 or w[0][1] is None or sk.hand[i].op != "fn":
                self.und(("C07",), "handler of %s" % ins.args[1])
                continue
            if sk.hand[i].args[0] != w[0][1]:
                self.bad(("C07", "C06"), "handler-of:" + ins.args[1], "%s: instruction %d (%s) is dispatched to %s, its handler is %s" % (sk.name, i, ins.args[1], sk.hand[i].args[0], w[0][1]))
                return
            self.good(("C07",), "handler of position %d" % i)
        if self.X.tail and len(sk.hand) <= len(sk.code):
            self.bad(("C07",), "no-sentinel", "%s: no handler follows the last instruction: running off the end of the body dispatches past the table" % sk.name)

    def nl(self, c):
        return len(c.ctrl) + 1

    def typed(self, sk, cond):
        """May the facts hold when locals hold values of their types?"""
        cr = self.crate
        for t, f in cond.items():
            t = cz(t)
            if t.op != "disc" or not f[0]:
                continue
            x = t.args[0]
            path = []
            while x.op == "proj":
                path.append(x.args[1])
                x = x.args[0]
            if x.op not in ("L", "LV") or not is_k(x.args[0]) or x.args[0].args[0] >= len(sk.q.params):
                continue
            l = sk.q.params[x.args[0].args[0]]
            if l in ("i32", "i64", "f32", "f64"):
                VAL = self.types_named("::Val")
                if not path and cr.vdiscr(VAL, "Num") not in f[1]:
                    return False
                if path == ["Num.0"] and cr.vdiscr(self.types_named("::Num"), l.upper()) not in f[1]:
                    return False
        return True

    def types_named(self, sfx):
        return [n for n in self.crate.adts if n.endswith(sfx)][0]

    def before(self, sk, c):
        """The register file when c's instruction runs: deferred operands of the code before it are in their registers."""
        env = {}
        if c.since is None:
            return env
        pc = c.since
        while pc < c.pc:
            outs = self.step(sk, pc, self.nl(c), env)
            if len(outs) > 1:
                outs = [o for o in outs if any(self.typed(sk, cc) for cc in o.conds)]
            if len(outs) != 1 or outs[0].kind != "Continue" or outs[0].pc != pc + 1 or outs[0].loop or outs[0].wild:
                raise Stuck("code before %s" % c.op)
            pc, env = pc + 1, outs[0].env
        regs = self.regs_of(env)
        for j, want in sorted(c.vals.items()):
            if j >= len(c.S):
                continue
            p = pos(c.S, j)
            got = regs.get(p)
            ok = got is not None and (got is want or (want.op == "LN" and want in set(walk(got)) and not is_k(got)))
            if ok:
                self.good(("C05", "C06"), "%s: operand %d of %s is in its register" % (sk.name, j, c.op))
            elif got is None or is_k(got) or got.op in ("R", "LN", "LV"):
                self.bad(("C05", "C06", "C04"), "operand-missing:" + c.op, "%s: when %s runs, operand %d (%s) holds %s, the operand is %s" % (
                    sk.name, c.op, j, fmt(p), "its old value" if got is None else fmt(got), fmt(want)))
                raise Stuck("operand of " + c.op)
            elif DBG: print(fmt(got), fmt(want))
            else:
                self.und(("C05", "C06"), "%s: operand %d of %s" % (sk.name, j, c.op))
        return {k: v for k, v in env.items() if not is_fld(k, "pc")}

    def ck_end(self, sk, c):
        self.arrive(sk, c, c.S, c.frame, c.pc, self.nl(c), self.before(sk, c), "falling out of the end of %s" % desc(c.frame))

    def ck_jump(self, sk, c):
        self.arrive(sk, c, c.S, c.frame, c.pc, self.nl(c), self.before(sk, c), "end of the then part of %s" % desc(c.frame))

    def ck_br(self, sk, c):
        self.arrive(sk, c, c.S, c.frame, c.pc, self.nl(c), self.before(sk, c), "br %d to %s" % (c.depths, desc(c.frame)))

    def ck_return(self, sk, c):
        self.arrive(sk, c, c.S, c.frame, c.pc, self.nl(c), self.before(sk, c), "return")

    def deciding(self, sk, c, what):
        """[(number, environment)] for the values of the operand on top, which decides."""
        env = self.before(sk, c)
        reg = pos(c.S, len(c.S) - 1)
        at = self.regs_of(env).get(reg)
        if at is not None and is_k(at):
            return [(at.args[0], env)]
        if at is None:
            r0 = self.raw(self.step(sk, c.pc, self.nl(c), env), reg)
        else:
            r0 = [k for k in env if nr(cplace(k)) is reg][0]
        if r0 is None:
            self.cond_reg(sk, c, reg, what)
            return []
        ks = (0, 1, 2, 0x100, 0x80000000, 0xffffffff)
        if what == "br_table":
            n = len(c.targets)
            ks = list(range(n + 2)) + [0x100 + n, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff]
        return [(k, dict(env, **{}) | {r0: K(k, "i32")}) for k in ks]

    def ck_open(self, sk, c):
        f = c.frame
        if f.kind != "if":
            self.onward(sk, c, self.before(sk, c), (f.start + 1, f.idx + 1), c.S, "entering %s" % desc(f))
            return
        S = c.S[:-1]
        for k, env in self.deciding(sk, c, "if"):
            if k:
                self.onward(sk, c, env, (f.start + 1, f.idx + 1), S, "if on %#x into the then part of %s" % (k, desc(f)))
            elif f.els is not None:
                self.ends_at(sk, c, c.pc, env, (f.els, f.idx + 1), S, "if on 0 into the else part of %s" % desc(f))
            else:
                self.ends_at(sk, c, c.pc, env, (f.end + 1, f.idx), S, "if on 0 past %s" % desc(f))

    def cond_reg(self, sk, c, reg, what):
        """The operand that decides is not read: which register is?"""
        outs = self.step(sk, c.pc, self.nl(c), {})
        seen = set()
        for o in outs:
            for cc in o.conds:
                for t in cc:
                    for x in walk(t):
                        if x.op == "idx":
                            p = nr(cplace(x))
                            if p.op == "R":
                                seen.add(p)
        if len(seen) == 1:
            g = next(iter(seen))
            self.bad(("C06", "C04"), "cond:" + what, "%s: %s is decided by register %s, the condition is in %s" % (sk.name, what, fmt(g), fmt(reg)))
        else:
            self.und(("C06",), "%s: register deciding %s" % (sk.name, what))

    def ends_at(self, sk, c, pc, env, goal, S, what):
        r, got, txt = self.chase(sk, pc, self.nl(c), env, goal)
        where = "%s: %s" % (sk.name, what)
        if r == "und":
            self.und(("C06",), "%s: %s" % (where, txt))
        elif r == "bad":
            self.bad(("C06",), "target:" + what_key(c), "%s: control should arrive at position %d with %d labels, but %s" % ((where,) + goal + (txt,)))
        else:
            self.same(where, self.regs_of(got), S, c, self.regs_of(env))

    def same(self, where, regs, S, c, at0):
        for j in range(len(S)):
            p = pos(S, j)
            if regs.get(p, p) is not at0.get(p, p):
                self.bad(("C06", "C04"), "clobber:" + what_key(c), "%s: operand %d (%s) is overwritten with %s" % (where, j, fmt(p), fmt(regs[p])))
                return
        self.good(("C06",), where)

    def onward(self, sk, c, env, goal, S, what):
        where = "%s: %s" % (sk.name, what)
        outs = self.step(sk, c.pc, self.nl(c), env)
        if len(outs) != 1:
            self.und(("C06",), where + ": %d outcomes" % len(outs))
            return
        o = outs[0]
        if o.kind != "Continue":
            self.bad(("C06",), "target:" + what_key(c), "%s: control should continue at position %d, but it stops with %s" % (where, goal[0], o.kind))
            return
        if not isinstance(o.pc, int) or not isinstance(o.nl, int) or o.loop or o.wild:
            self.und(("C06",), where)
            return
        if (o.pc, o.nl) != goal:
            self.bad(("C06",), "target:" + what_key(c), "%s: control arrives at position %d with %d labels instead of position %d with %d" % ((where, o.pc, o.nl) + goal))
            return
        if o.cur is not None and isinstance(o.cur, int) and o.cur != o.nl - 1:
            self.bad(("C06",), "current-label:" + what_key(c), "%s: the current label is number %d of %d" % (where, o.cur, o.nl))
            return
        self.same(where, self.regs_of(o.env), S, c, self.regs_of(env))

    def ck_br_if(self, sk, c):
        S = c.S[:-1]
        for k, env in self.deciding(sk, c, "br_if"):
            if k:
                self.arrive(sk, c, S, c.frame, c.pc, self.nl(c), env, "br_if %d on %#x to %s" % (c.depths, k, desc(c.frame)))
            else:
                self.onward(sk, c, env, (c.pc + 1, self.nl(c)), S, "br_if %d on 0" % c.depths)

    # -- calls ----------------------------------------------------------------------------------------------
    def ck_call(self, sk, c):
        k = c.what[1]
        host = k < len(sk.imports) and sk.imports[k][0] == "WasiFunc"
        self.the_call(sk, c, ("C16", "C09", "C04") if host else ("C09", "C04"))

    def ck_call_indirect(self, sk, c):
        self.the_call(sk, c, ("C09", "C04", "C19"))

    def the_call(self, sk, c, props):
        env = self.before(sk, c)
        where = "%s: %s" % (sk.name, c.what[0])
        outs = self.step(sk, c.pc, self.nl(c), env)
        ys = [o for o in outs if o.kind == "Yield"]
        if any(o.kind not in ("Yield", "Trap", "panic") for o in outs):
            o = [o for o in outs if o.kind not in ("Yield", "Trap", "panic")][0]
            self.bad(props, c.op + ":skipped", "%s: a call may be skipped (%s)" % (where, o.kind))
            return
        if not ys:
            self.bad(props, c.op + ":never", "%s: the callee is never entered" % where)
            return
        at0 = self.regs_of(env)
        S = c.S[:-1] if c.op == "call_indirect" else c.S
        n = len(c.params)
        want = [at0.get(x, x) for x in (pos(S, len(S) - n + j) for j in range(n))]
        after = c.base + c.results
        wres = [pos(after, len(c.base) + j) for j in range(len(c.results))]
        for o in ys:
            if o.pc != c.pc + 1:
                if isinstance(o.pc, int):
                    self.bad(("C09", "C06"), c.op + ":resume", "%s: the caller resumes at position %d, the call is at %d" % (where, o.pc, c.pc))
                    return
                self.und(("C09",), where + ": position after the call")
            if o.nl != self.nl(c):
                if isinstance(o.nl, int):
                    self.bad(("C09", "C06"), c.op + ":labels", "%s: the call leaves %d labels instead of %d" % (where, o.nl, self.nl(c)))
                    return
            y = [v for k, v in o.other.items() if is_fld(k, "yield")]
            if len(y) != 1 or y[0].op != "adt" or y[0].args[1] != "Some" or y[0].args[2][0][1].op != "adt":
                self.und(props, where + ": request made of the frame loop")
                continue
            r = y[0].args[2][0][1]
            f = {}
            for vn, t in [(v[0], v[2]) for v in self.crate.adts[r.args[0]]["variants"]]:
                if vn == r.args[1]:
                    for x in t:
                        ty = self.crate.types[x[1]]
                        role = "params" if "Val>" in ty else "results" if "Reg" in ty else "func" if "FuncAddr" in ty else "wasi" if "Wasi" in ty else ty
                        f[role] = dict(r.args[2])[x[0]]
            if "params" not in f or "results" not in f or not ("func" in f or "wasi" in f):
                self.und(props, where + ": request made of the frame loop")
                continue
            if not self.call_params(c, where, f["params"], want, props) or not self.call_results(c, where, f["results"], wres, props, at0):
                return
            if "wasi" in f:
                k = c.what[1] if c.op == "call" else None
                exp = sk.imports[k][1] if k is not None and k < len(sk.imports) and sk.imports[k][0] == "WasiFunc" else None
                g = f["wasi"]
                if g.op == "adt" and g.args[1] != exp:
                    self.bad(("C16", "C09"), "call:wasi-op", "%s: runs the host operation %s instead of %s" % (where, g.args[1], exp or "a function of the module"))
                    return
                self.good(("C16",), where)
            elif c.op == "call":
                self.callee(c, where, f["func"], sk)
            else:
                self.callee_indirect(c, where, f["func"], o, pos(c.S, len(c.S) - 1), at0)
        if c.op == "call_indirect":
            self.indirect_traps(c, where, [o for o in outs if o.kind != "Yield"])

    def call_params(self, c, where, v, want, props):
        if v.op != "vec":
            self.und(props, where + ": arguments")
            return True
        got = list(v.args[0])
        if len(got) != len(want):
            self.bad(props, c.op + ":argc", "%s: %d arguments are passed, the callee has %d parameters" % (where, len(got), len(want)))
            return False
        for j, (g, w) in enumerate(zip(got, want)):
            x = g
            while x.op == "adt" and x.args[2]:
                x = x.args[2][0][1]
            if x is not w:
                if x.op == "R" or is_k(x) or x.op == "LN":
                    self.bad(props, c.op + ":arg", "%s: argument %d is %s, the operand is %s" % (where, j, fmt(x), fmt(w)))
                    return False
                self.und(props, where + ": argument %d" % j)
                return True
            l = c.params[j]
            vn = g.args[1] if g.op == "adt" else None
            if vn is not None and (vn, l) not in (("Num", l), ("Ref", "ref"), ("Vec", "v128")):
                self.bad(props, c.op + ":arg-type", "%s: argument %d of type %s is passed as %s" % (where, j, l, vn))
                return False
            if vn == "Num":
                nn = g.args[2][0][1]
                if nn.op == "adt" and nn.args[1].lower() != l:
                    self.bad(props, c.op + ":arg-type", "%s: argument %d of type %s is passed as %s" % (where, j, l, nn.args[1]))
                    return False
        self.good(props, where + ": arguments")
        return True

    def call_results(self, c, where, v, want, props, at0):
        if v.op == "adt" and v.args[1] == "Some":
            v = vec([v.args[2][0][1]])
        elif v.op == "adt" and v.args[1] == "None":
            v = vec([])
        rs = self.reglist(v)
        if rs is None:
            self.und(props, where + ": result registers")
            return True
        if [x for x in rs] != want:
            self.bad(props, c.op + ":results", "%s: results go to %s, the operands following the call are %s" % (where, [fmt(x) for x in rs], [fmt(x) for x in want]))
            return False
        self.good(props, where + ": result registers")
        return True

    def indexed(self, v, name):
        """indices with which the list in field `name` is read in v"""
        r = set()
        for x in walk(v):
            if x.op == "idx":
                b = x.args[0]
                for _ in range(6):
                    if b.op in ("deref", "init", "ref"):
                        b = b.args[0]
                if b.op in ("fld", "proj") and b.args[1] == name:
                    r.add(x.args[1])
        return r

    def lists(self, elem):
        """names of the instance's lists of `elem`"""
        return [f[0] for n, a in self.crate.adts.items() if n.endswith("::ModuleInst") for f in a["variants"][0][2] if ("Vec<" in self.crate.types[f[1]] and elem in self.crate.types[f[1]])]

    def callee(self, c, where, func, sk):
        k = c.what[1]
        for l in self.lists("FuncAddr"):
            ix = self.indexed(func, l)
            if len(ix) == 1 and is_k(next(iter(ix))):
                g = next(iter(ix)).args[0]
                if g != k:
                    self.bad(("C09",), "call:callee", "%s: function %d is called as function %d" % (where, k, g))
                else:
                    self.good(("C09",), where + ": callee")
                return
        self.und(("C09",), where + ": callee")

    def callee_indirect(self, c, where, func, o, ireg, at0):
        ti, tb = c.what[1], c.what[2]
        P = ("C19", "C09")
        idx = None
        for l in self.lists("TableAddr"):
            ix = self.indexed(func, l)
            if len(ix) == 1 and is_k(next(iter(ix))):
                g = next(iter(ix)).args[0]
                if g != tb:
                    self.bad(P, "call_indirect:table", "%s: entries come from table %d, the instruction names table %d" % (where, g, tb))
                    return
                idx = True
        if idx is None:
            self.und(P, where + ": table")
            return
        # the entry read
        el = [x for x in walk(func) if x.op == "idx" and self.over_table(x)]
        iv = at0.get(ireg, ireg)
        if len(set(el)) != 1:
            self.und(P, where + ": entry")
            return
        e = nr(el[0])
        i = e.args[1]
        if is_k(iv):
            ok = [(iv.args[0], iv.args[0])]
            tests = [({}, iv.args[0])]
        else:
            tests = [({iv: n}, n) for n in (0, 1, 5, 127, 128, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff)]
        for envv, n in tests:
            g = constprop.value(nr(i), {nr(k): v for k, v in envv.items()})
            if g is None:
                self.und(P, where + ": index of the entry")
                return
            if (n < 1 << 31 and g != n) or (n >= 1 << 31 and g < 1 << 31):
                self.bad(P, "call_indirect:index", "%s: operand %#x selects entry %#x" % (where, n, g))
                return
        for cc in o.conds:
            inb = nul = False
            tc = {"params": None, "results": None}
            odd = []
            for t, f in cc.items():
                t = nr(cz(t))
                if t.op == "LtU" and t.args[1] is i and t.args[2].op == "len" and f == (True, frozenset((1,))):
                    inb = True
                elif is_k(i) and t.op == "LtU" and t.args[1].op == "len" and bare(t.args[1].args[0]) is bare(e.args[0]) and is_k(t.args[2]):
                    inb = inb or (t.args[2].args[0] > i.args[0] and f == (True, frozenset((0,))))
                elif is_k(i) and t.op == "len" and bare(t.args[0]) is bare(e.args[0]):
                    inb = inb or (not f[0] and f[1] >= frozenset(range(i.args[0] + 1)))
                elif t.op == "disc" and f[0] and e in set(walk(t)):
                    nul = True
                elif t.op in ("veq", "eq", "Eq"):
                    for side, other in ((t.args[-1], t.args[-2]), (t.args[-2], t.args[-1])):
                        for w in tc:
                            if side.op in ("proj", "init") and (side.args[1] if side.op == "proj" else side.args[0].args[-1]) == w and self.indexed(side, "types"):
                                ks = self.indexed(side, "types")
                                if all(is_k(x) and x.args[0] != ti for x in ks):
                                    self.bad(P, "call_indirect:type-index", "%s: the entry's type is compared with type %s, the instruction names type %d" % (where, [fmt(x) for x in ks], ti))
                                    return
                                if e in set(walk(other)):
                                    tc[w] = f == (True, frozenset((1,)))
                elif t.op in ("LtU", "len") or (t.op == "disc" and not f[0]):
                    pass
                else:
                    odd.append(t)
            if not inb:
                if odd:
                    self.und(P, where + ": bounds of the table")
                else:
                    self.bad(P, "call_indirect:bounds", "%s: the callee is entered without comparing the index with the table's size" % where)
                return
            for w, v in tc.items():
                if v is not True:
                    if odd:
                        self.und(P, where + ": comparison of types")
                    else:
                        self.bad(P, "call_indirect:type-" + w, "%s: the callee is entered although its %s may differ from the type named" % (where, w))
                    return
        self.good(P, where + ": entry, bounds and type")

    def over_table(self, x):
        """an entry of a table: an element of the list inside a table of the instance"""
        return any(self.indexed(x.args[0], l) for l in self.lists("TableAddr"))

    def indirect_traps(self, c, where, outs):
        self.good(("C19",), where + ": %d refusing outcomes" % len(outs))

    def ck_unreachable(self, sk, c):
        outs = self.step(sk, c.pc, self.nl(c), {})
        if all(o.kind in ("panic", "Trap") for o in outs) and outs:
            self.good(("C06", "C03"), "unreachable traps")
        elif any(o.kind == "Continue" for o in outs):
            self.bad(("C06", "C03"), "unreachable", "%s: unreachable does not trap" % sk.name)

    def ck_br_table(self, sk, c):
        S = c.S[:-1]
        n = len(c.targets)
        for k, env in self.deciding(sk, c, "br_table"):
            f = c.targets[k] if k < n else c.default
            self.arrive(sk, c, S, f, c.pc, self.nl(c), env, "br_table %s %d on %#x to %s" % (c.depths + (k, desc(f))))


CONTROL = {"EndReg", "JumpReg", "BlockReg", "NopReg", "BrReg", "ReturnReg", "IfReg", "BrIfReg", "BrTableReg"}


def desc(f):
    if f.kind == "func":
        return "the function"
    return "%s %s" % (f.kind, sig(f.params, f.results))


def what_key(c):
    f = c.frame
    return "%s%s" % (c.op, ":" + f.kind if f is not None else "")


def is_fld(p, word):
    while p.op in ("deref", "init"):
        p = p.args[0]
    return p.op in ("S", "fld") and word in str(p.args[-1] if p.op == "fld" else p.args[0])


def eta(v, conds, crate):
    """A value rebuilt field by field from x, under facts that say which variant x is, is x."""
    if not isinstance(v, Term) or v.op != "adt":
        return v
    for c in conds[:1]:
        for t, f in c.items():
            if t.op == "disc" and f[0] is True and len(f[1]) == 1:
                x = t.args[0]
                a = crate.adts.get(v.args[0])
                vi = [u for u in a["variants"] if u[0] == v.args[1]] if a else []
                if vi and crate.vdiscr(v.args[0], v.args[1]) in f[1] and all(
                        y is T("proj", x, "%s.%s" % (v.args[1], n)) or (x.op == "init" and y is T("init", T("fld", x.args[0], "%s.%s" % (v.args[1], n))))
                        or y is T("adt_of", x) or eta_new(y, x, v.args[1], n) for n, y in v.args[2]):
                    return x
    return v


def bare(t):
    while t.op == "init":
        t = t.args[0]
    return t


def etas(v, conds, crate):
    if isinstance(v, tuple):
        return tuple(etas(x, conds, crate) for x in v)
    if not isinstance(v, Term) or v.op not in ("adt", "vec", "array", "tuple", "box"):
        return v
    w = eta(v, conds, crate)
    if w is not v:
        return w
    return T(v.op, *[etas(a, conds, crate) for a in v.args])


def eta_new(y, x, var, n):
    """a one-field struct around the projected payload"""
    return y.op == "adt" and len(y.args[2]) == 1 and under(y.args[2][0][1], x)


def under(y, x):
    for _ in range(6):
        if y is x:
            return True
        if y.op == "proj":
            y = y.args[0]
        elif y.op == "init" and y.args[0].op == "fld":
            y = T("init", y.args[0].args[0])
        else:
            return False
    return False


class Out_:
    pc = nl = cur = None
    regs = other = None

    def same(self, m):
        return (self.kind, self.pc, self.nl, self.cur, self.loop) == (m.kind, m.pc, m.nl, m.cur, m.loop) and \
            self.kind != "panic" and self.regs == m.regs and self.other == m.other and self.wild == m.wild


def root(p):
    while p.op in ("fld", "idx", "deref", "init", "variant") and p.args and isinstance(p.args[0], Term):
        p = p.args[0]
    return p


def walk(t):
    if isinstance(t, Term):
        yield t
        for a in t.args:
            yield from walk(a)
    elif isinstance(t, tuple):
        for a in t:
            yield from walk(a)


def nr(t):
    """registers named by their index without width conversions"""
    if isinstance(t, tuple):
        return tuple(nr(x) for x in t)
    if not isinstance(t, Term):
        return t
    if t.op == "R":
        return T("R", t.args[0], unext(t.args[1]))
    if not t.args:
        return t
    return T(t.op, *[nr(a) for a in t.args])


def subst(t, m):
    if isinstance(t, tuple):
        return tuple(subst(x, m) for x in t)
    if not isinstance(t, Term):
        return t
    if t in m:
        return m[t]
    return T(t.op, *[subst(a, m) for a in t.args])


def run(cfg, tier="quick", seed=1, part=(0, 1)):
    import ctlfam
    C = Ctl(cfg)
    fams = {}
    gen = [(n, g()) for n, g in ctlfam.FAMILIES]
    if tier != "quick":
        gen.append(("random nests", ctlfam.rnd(seed, 300)))
    n = count = 0
    for fam, g in gen:
        for name, res, body in g:
            count += 1
            if count % part[1] != part[0]:
                continue
            kw = {}
            if fam == "calls":
                kw = {"module": modfields(C, ctlfam.IMPORTS, ctlfam.FUNCS), "imports": ctlfam.IMPORTS}
            types = list(ctlfam.TYPES)
            try:
                collect_types(body, types)
                sk = Skeleton(C, name, ctlfam.PARAMS, res, body, types, **kw)
                sk.run()
            except (Stuck, Missing, Budget) as x:
                for f in getattr(sk, "faults", []) if "sk" in dir() else []:
                    C.bad(*f)
                C.und(("C06", "C09") if fam == "calls" else ("C06",), "%s: %s" % (name, str(x)[:100]))
                continue
            n += 1
            fams[fam] = fams.get(fam, 0) + 1
            C.evaluate(sk)
    C.R.scope["control skeletons [%s%s]" % (cfg, " %d/%d" % (part[0] + 1, part[1]) if part[1] > 1 else "")] = fams
    return C.R


def collect_types(its, types):
    for it in its:
        if it[0] in ("block", "loop", "if"):
            t = (list(it[1]), list(it[2]))
            if not (not t[0] and len(t[1]) < 2) and t not in [(list(a), list(b)) for a, b in types]:
                types.append(t)
            collect_types(it[3], types)
            if len(it) > 4 and it[4] is not None:
                collect_types(it[4], types)
