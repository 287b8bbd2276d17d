"""Instantiation: the index spaces, initialisers, segments, exports and the start function (C22), and what may not run (C24).

The crate's instantiation is interpreted whole on decoded modules of known shape (the result of interpreting its loader), every
counted box being a place of its own, so that it can be told which function, table, memory or global ended where."""
import os
from engine import Engine, State, Budget, Unsupported, root
from terms import T, mk, K, Term, is_k, fmt, UNIT
from models import SOME, NONE, OK, ERR, rd, strip_refs
from result import Result, Finding
from opsem import Missing
from constprop import value
from modrun import Mod, M
from wasirun import subs

MI = "execution::module::ModuleInst"
RTY = "execution::runtime::Runtime"
RC = "std::rc::Rc<%s>" % MI


class Inst(Mod):
    def __init__(self, cfg):
        super().__init__(cfg)
        self.make = [f for f in self.fns if f.nargs == 3 and f.lty(1) == "&" + M and f.lty(0).startswith("std::result::Result<%s," % RC)]
        self.rtnew = [f for f in self.fns if f.lty(0).startswith(("std::result::Result<%s," % RTY)) and any("FuncAddr" in f.lty(i) for i in range(1, f.nargs + 1))]
        self.rtrun = [f for f in self.fns if f.nargs == 1 and f.lty(1) in ("&mut " + RTY, RTY) and "Vec<execution::value::Val>" in f.lty(0)]
        if not self.make:
            raise Missing("instantiating a module")
        self.only(self.rtnew, "a runtime for a function")
        self.only(self.rtrun, "running a runtime")

    # -- running --------------------------------------------------------------------------------------------
    def heap(self):
        n = [0]

        def new(e, st, cs, a):
            h = T("heap", n[0])
            n[0] += 1
            st.env[h] = e.close(st, a[0])
            return [(st, T("ref", h))]

        def may(nm, okv):
            def m(e, st, cs, a):
                x = (nm, tuple(e.close(st, y) for y in a))
                bad = st.copy()
                bad.ev = bad.ev + (x + (False,),)
                st.ev = st.ev + (x + (True,),)
                return [(st, OK(okv)), (bad, ERR(T("err", nm)))]
            return m
        r = {self.rtnew[0].name: may("runtime", T("runtime")), self.rtrun[0].name: may("run", T("results"))}
        for t in ("std::rc::Rc::<T>::new", "std::sync::Arc::<T>::new"):
            r[t] = new
        return r

    def decoded(self, S):
        e, rs = self.runs(S)
        vs = [v for o, v in rs if o.kind == "ret" and o.val.op == "adt" and o.val.args[1] == "Ok"]
        if len(vs) != 1:
            raise Unsupported("%d ways to decode a module" % len(vs))
        return self.strip(vs[0])

    def instantiate(self, f, mod):
        e = Engine(self.crate, models=self.heap())
        e.unroll = True
        e.budget = 600000
        args = []
        for i in range(1, f.nargs + 1):
            ty = f.lty(i)
            args.append(T("ref", T("pval", mod)) if ty == "&" + M else T("in", "imports") if "HashMap" in ty else T("in", "argv"))
        return e, e.run(f, args, State())

    def shape(self, which):
        I, k = (lambda n: T("in", n)), (lambda n: K(n, "u32"))
        types = [([], []), (["i32"], ["i64", "f32"]), (["f64", "externref"], []), self.wasitype("fd_write"), self.wasitype("proc_exit")]
        if which == "full":
            return dict(types=types,
                        imports=[("wasi_snapshot_preview1", "fd_write", ("func", k(3))), ("env", "f", ("func", k(1))), ("wasi_snapshot_preview1", "proc_exit", ("func", k(4)))],
                        funcs=[(k(2), [(k(3), "i64")]), (k(0), []), (k(1), [(k(1), "f32")])],
                        tables=[("funcref", (I("t0"), I("t0max"))), ("externref", (I("t1"), None)), ("funcref", (I("t2"), None))], mems=[(I("m0"), I("m0max"))],
                        globals=[("f64", 0, [("f64.const", I("l_g1"))]), ("i32", 1, [("i32.const", I("g0"))]), ("funcref", 0, [("ref.func", k(4))]), ("i32", 0, [("global.get", k(1))]),
                                 ("i64", 1, [("i64.const", I("l_g4"))]), ("f32", 1, [("f32.const", I("g5"))]), ("externref", 1, [("ref.null", "extern")])],
                        exports=[("x", "func", k(4)), ("y", "mem", k(0)), ("z", "table", k(1)), ("w", "global", k(4)), ("v", "func", k(0)), ("u", "table", k(2)), ("t", "global", k(1))],
                        start=k(4),
                        elems=[(("active", None, [("i32.const", I("o0"))]), ("funcs", [k(5), k(3)])), (("passive",), ("funcs", [k(3)])),
                               (("active", k(2), [("global.get", k(3))]), ("exprs", "funcref", [[("ref.func", k(4))], [("ref.null", "func")], [("ref.func", k(0))]])),
                               (("declared",), ("funcs", [k(5)])), (("active", k(1), [("i32.const", I("o1"))]), ("exprs", "externref", [[("ref.null", "extern")]]))],
                        datas=[(k(0), [("global.get", k(1))], [I("b_0"), I("b_1")]), (None, None, [I("b_2")]), (k(0), [("i32.const", I("d2"))], [I("b_3"), I("b_4"), I("b_5")])])
        if which == "no imports":
            return dict(types=types, funcs=[(k(0), []), (k(1), [])], tables=[("funcref", (I("t0"), None))], mems=[(I("m0"), None)], exports=[("f", "func", k(1)), ("g", "func", k(0))],
                        elems=[(("active", None, [("i32.const", I("o0"))]), ("funcs", [k(1)]))], datas=[(k(0), [("i32.const", I("d0"))], [I("b_0")])])
        if which == "only a start function":
            return dict(types=types, imports=[("env", "f", ("func", k(0)))], funcs=[(k(0), [])], start=k(0))
        return {"types": types, "empty segments": None, "tables": [("funcref", (I("t0"), None))], "mems": [(I("m0"), None)],
                "elems": [(("active", None, [("i32.const", I("o0"))]), ("funcs", []))], "datas": [(k(0), [("i32.const", I("d0"))], [])]}

    # -- reading what was built ------------------------------------------------------------------------------
    def at(self, e, st, t):
        """through references and handles to what they lead to"""
        for _ in range(12):
            if t.op == "ref":
                t = e.read(st, t.args[0])
            elif t.op in ("newcell", "rc", "box", "pval"):
                t = t.args[0]
            elif t.op == "upd" and t.args[0].op == "newcell":
                t = e.proj_elem(t, ("cell",))
            elif t.op == "adt" and len(t.args[2]) == 1 and isinstance(t.args[2][0][1], Term) and t.args[2][0][1].op == "ref":
                t = t.args[2][0][1]
            else:
                break
        return t

    def handle(self, t):
        """the counted box a handle leads to"""
        for _ in range(6):
            if t.op == "ref" and root(t.args[0]).op == "heap":
                return t.args[0]
            if t.op == "adt" and len(t.args[2]) == 1:
                t = t.args[2][0][1]
            else:
                return None
        return None

    def fields(self, t):
        return dict(t.args[2]) if t.op == "adt" else None

    def field_like(self, adt, frag):
        for n, t, *_ in self.crate.adts[adt]["variants"][0][2]:
            if frag in self.crate.types[t]:
                return n
        raise Missing("%s holding %s" % (adt, frag))

    def spaces(self, e, o):
        v = o.val
        inst = self.at(e, o.st, v.args[2][0][1])
        if inst.op != "adt" or inst.args[0] != MI:
            raise Unsupported("instance: " + fmt(inst)[:80])
        f = dict(inst.args[2])
        r = {}
        for k, frag in (("funcs", "::FuncAddr>"), ("tables", "TableAddr>"), ("mems", "MemAddr>"), ("globals", "GlobalAddr>"), ("elems", "ElemAddr>"), ("datas", "DataAddr>"), ("exports", "ExportInst>")):
            ns = [n for n, t, *_ in self.crate.adts[MI]["variants"][0][2] if self.crate.types[t].endswith(frag) and "Wasi" not in self.crate.types[t]]
            if len(ns) != 1:
                raise Missing("instances: " + frag)
            x = f[ns[0]]
            while x.op in ("ref", "pval"):
                x = self.at(e, o.st, x)
            if x.op != "vec":
                raise Unsupported("instances %s: %s" % (k, fmt(x)[:80]))
            r[k] = list(x.args[0])
        return inst, r

    def narrow(self, t):
        """a 64-bit index of this host as the 32-bit one of the build"""
        if not isinstance(t, Term):
            return t
        if t.op in ("zext", "sext") and t.args[:2] == (32, 64):
            return t.args[2]
        if t.op in ("Add", "Sub") and t.args[0] == 64:
            return mk(t.op, 32, *[self.narrow(x) for x in t.args[1:]])
        if is_k(t) and t.args[1] in ("i64", "u64", "usize", "isize"):
            return K(t.args[0] & 0xffffffff, "i32")
        return t

    def eq(self, what, key, t, x, quiet=False, props="C22"):
        d = self.diff(t, x, what)
        if d is not None and isinstance(x, Term) and isinstance(t, Term) and d[0] == "?" and self.diff(self.narrow(t), x, what) is None:
            d = None
        if d is None:
            self.R.good("C22", "%s: %s" % (self.name, what))
            return True
        if d[0] == "bad" and not quiet:
            self.bad(props, key, "instantiating %s: %s: %s" % (self.name, d[1], d[2]), self.main)
        else:
            if os.environ.get("DEV"):
                print("?", self.name, d)
            self.R.undecided("C22", what)
        return False

    # -- checks ----------------------------------------------------------------------------------------------
    def check(self, name, S):
        self.name = name
        mod = self.decoded(S)
        roles = {}
        for f in self.make:
            self.main = f
            e, outs = self.instantiate(f, mod)
            ran = any(x[0] == "run" for o in outs for x in o.st.ev)
            roles.setdefault(ran, []).append(f)
            self.judge(f, e, outs, S, mod, ran)
        if S.get("start") is not None and True not in roles:
            self.bad("C22", "no start", "no way to instantiate %s runs its start function" % name, self.make[0])

    def judge(self, f, e, outs, S, mod, ran):
        R, name = self.R, self.name
        self.fitting = [(s[1], s[2], s[3]) for s in self.segs(S)]
        oks = [o for o in outs if o.kind == "ret" and o.val.op == "adt" and o.val.args[1] == "Ok"]
        errs = [o for o in outs if o.kind == "ret" and o.val.op == "adt" and o.val.args[1] == "Err"]
        if len(oks) + len(errs) + len([o for o in outs if o.kind == "panic"]) != len(outs):
            R.undecided("C22", "outcome of an instantiation")
        if not oks:
            if errs and not any(o.kind == "panic" for o in outs) and len({fmt(o.val)[:60] for o in errs}) == 1:
                self.bad("C22", "refused", "instantiating %s always fails" % name)
            else:
                R.undecided("C22", "%s: no way to succeed" % name)
            return
        names = self.names_of(S)
        for o in oks:
            for x in o.st.ev:
                if x[0] in ("run", "runtime") and not x[2]:
                    self.bad(("C22", "C24"), "start failure", "instantiation of %s succeeds although %s" % (name, "its start function traps" if x[0] == "run" else "its start function cannot be called"), f)
        before = sum(R.undet.get("C22", {}).values())
        for o in oks:
            if any(x[0] in ("run", "runtime") and not x[2] for x in o.st.ev):
                continue
            self.all, self.active = names, self.holds2(o.st)
            quiet = not self.envs(names)
            try:
                self.instance(f, e, o, S, mod, ran, quiet)
            finally:
                self.all = self.active = None
        self.segments(f, S, oks, sum(R.undet.get("C22", {}).values()) == before)
        if len(oks) and ran:
            R.good("C22", "%s: a failing start function fails the instantiation" % name)

    fitting = None

    def envs(self, names):
        """numbers with which every segment fits"""
        r = super().envs(names) if self.active is None else [dict(x) for x in self.plain(names)]
        if self.fitting is not None:
            for k, env in enumerate(r):
                for i, (c, unit, off) in enumerate(self.fitting):
                    env[c] = (200003 + 7 * i + k) if unit == 1 else 9 + i + 3 * k
                    env[off] = (7 + 5 * i, 300 + 11 * i, 70001 + 13 * i)[k % 3]
        if self.active is not None:
            r = [env for env in r if self.active(env)]
        return r

    def plain(self, names):
        a, self.active = self.active, None
        try:
            return super().envs(names)
        finally:
            self.active = a

    # -- segments that fit and that do not -------------------------------------------------------------------
    def sizes(self, t):
        """t with the lengths of new tables and memories in place"""
        if not isinstance(t, Term):
            return t
        if t.op == "len":
            b = t.args[0]
            while b.op in ("upd", "written"):
                b = b.args[0]
            if b.op == "resized":
                return self.sizes(b.args[1])
            if b.op == "from_elem":
                return self.sizes(b.args[1])
        a = tuple(tuple(self.sizes(y) for y in x) if isinstance(x, tuple) else self.sizes(x) for x in t.args)
        return t if all(x is y for x, y in zip(a, t.args)) else mk(t.op, *a) if t.op in ("Add", "Sub", "Mul") else T(t.op, *a)

    def verdict(self, oks, env):
        """True: succeeds with these numbers; False: does not; None: cannot be told"""
        names = set(env)
        r = False
        for o in oks:
            for d in o.st.conds:
                ok = True
                for t, v in d.items():
                    if not isinstance(t, Term) or not any(x in names for x in subs(t)):
                        continue
                    x = value(self.sizes(t), env)
                    if x is None:
                        ok = None if ok else ok
                    elif (x in v[1]) != v[0]:
                        ok = False
                        break
                if ok:
                    return True
                if ok is None:
                    r = None
        return r

    def segs(self, S):
        segs = []
        for i, el in enumerate(S.get("elems") or []):
            if el[0][0] == "active":
                t = el[0][1].args[0] if el[0][1] is not None else 0
                segs.append(("element segment %d" % i, S["tables"][t][1][0], 1, self.offset(S, el[0][2]), len(el[1][-1]), "elem"))
        for i, d in enumerate(S.get("datas") or []):
            if d[0] is not None:
                segs.append(("data segment %d" % i, S["mems"][d[0].args[0]][0], 65536, self.offset(S, d[1]), len(d[2]), "data"))
        return segs

    def segments(self, f, S, oks, sure):
        R, name = self.R, self.name
        segs = self.segs(S)
        caps = {s[1]: 100 if s[2] == 1 else 1 for s in segs}
        for what, cap, unit, off, n, kind in segs:
            for small in (True, False):
                for d in ("last", "past", "after", "far", "wrap"):
                    env = {c: (caps[c] if c is cap or small else 300000 if caps[c] == 100 else 4) for c in caps}
                    env.update({s[3]: 7 + 5 * i for i, s in enumerate(segs)})
                    size = env[cap] * unit
                    env[off] = {"last": size - n, "past": size - n + 1, "after": size + 1, "far": 0x7fffffff, "wrap": 0xffffffff}[d]
                    for x in self.names_of(S):
                        env.setdefault(T("in", x), 1)
                    want = all(env[s[3]] + s[4] <= env[s[1]] * s[2] for s in segs)
                    got = self.verdict(oks, env)
                    if got is None or got and not want and not sure:
                        R.undecided("C22", "whether a segment fits")
                    elif got == want:
                        R.good("C22", "%s: %s at %d of %d with %d items %s" % (name, what, env[off], size, n, "fits" if want else "does not fit"))
                    else:
                        self.bad("C22", "fits:" + kind if want else "unfit:" + kind, "instantiating %s %s although %s has %d items at offset %d of %d" % (
                            name, "fails" if want else "succeeds", what, n, env[off], size), f)

    def holds2(self, st):
        """environments a path may be taken in: no condition on the numbers alone excludes them"""
        def cond(t, v, env):
            x = value(self.sizes(t), env)
            return x is None or (x in v[1]) == v[0]

        def f(env):
            env = dict(env)
            # room for the segments unless the path says otherwise
            return any(all(cond(t, v, env) for t, v in d.items() if isinstance(t, Term)) for d in st.conds)
        return f

    def conds_of(self, st):
        return [{t: v for t, v in d.items() if isinstance(t, Term)} for d in st.conds]

    def instance(self, f, e, o, S, mod, ran, quiet):
        R, name, st = self.R, self.name, o.st
        inst, sp = self.spaces(e, o)
        m = dict(mod.args[2])
        nimp = len(S.get("imports") or [])
        want = {"funcs": nimp + len(S.get("funcs") or [])}
        for k in ("tables", "mems", "globals", "elems", "datas", "exports"):
            want[k] = len(S.get(k) or [])
        for k, n in want.items():
            if len(sp[k]) != n:
                if not quiet:
                    self.bad("C22", "count:" + k, "instantiating %s makes %d %s instead of %d" % (name, len(sp[k]), self.TITLES[k], n), f)
                return
        R.good("C22", "%s: as many instances of everything as the module has" % name)
        types = [("v", None, {"params": [self.x_vt(x) for x in t[0]], "results": [self.x_vt(x) for x in t[1]]}) for t in S["types"]]
        # functions
        seen = {}
        for k in ("funcs", "tables", "mems", "globals"):
            for i, h in enumerate(sp[k]):
                p = self.handle(h)
                if p is not None:
                    if p in seen and not quiet:
                        self.bad("C22", "shared:" + k, "instantiating %s: %s %d and %s %d are the same instance" % (name, k, i, *seen[p]), f)
                    seen[p] = (k, i)
        for i, h in enumerate(sp["funcs"]):
            v = self.at(e, st, h)
            if i < nimp:
                mo, n, (_, ti) = S["imports"][i]
                if mo == "wasi_snapshot_preview1" and n in self.wasi:
                    ok = v.op == "adt" and v.args[1] == "WasiFunc"
                    if not ok and v.op == "adt" and not quiet:
                        self.bad(("C22", "C16"), "import:wasi", "instantiating %s: function %d, an import of %s, is a %s" % (name, i, n, v.args[1]), f)
                    elif ok:
                        kinds = {x.args[1] for x in subs(v) if x.op == "adt" and x.args[0] == self.wasikind()}
                        if kinds == {self.wasi[n]}:
                            R.good("C22", "%s: function %d is the imported %s" % (name, i, n))
                        elif len(kinds) == 1 and not quiet:
                            self.bad(("C22", "C16"), "import:wasi", "instantiating %s: function %d, an import of %s, is %s" % (name, i, n, kinds), f)
                    continue
                ss = [x.args[0] for x in subs(h) if x.op == "s"]
                if any(x is T("in", "imports") for x in subs(h)) and set(ss) == {mo, n}:
                    R.good("C22", "%s: function %d is what was given for %s.%s" % (name, i, mo, n))
                    self.typed(f, st, h, i, types[ti.args[0]], quiet)
                elif any(x is T("in", "imports") for x in subs(h)) and set(ss) - {mo, n} and not quiet:
                    self.bad("C22", "import", "instantiating %s: function %d, an import of %s.%s, is looked up as %s" % (name, i, mo, n, ".".join(ss)), f)
                elif v.op == "adt" and not quiet:
                    self.bad("C22", "import", "instantiating %s: function %d, an import, is %s" % (name, i, v.args[1]), f)
                else:
                    R.undecided("C22", "an imported function")
                continue
            j = i - nimp
            want_code = dict(mod.args[2])["funcs"].args[0][j]
            if v.op != "adt" or v.args[1] != "RuntimeFunc":
                R.undecided("C22", "a function of the module")
                continue
            fs = dict(v.args[2])
            code = [x for x in fs.values() if isinstance(x, Term) and x.op == "adt" and x.args[0].endswith("module::Func")]
            tys = [x for x in fs.values() if isinstance(x, Term) and x.op == "adt" and x.args[0].endswith("types::FuncType")]
            mods = [x for x in fs.values() if isinstance(x, Term) and x.op in ("weak", "weaknull")]
            pis = {x.args[0] for x in subs(code[0]) if x.op == "pi"} if code else set()
            if len(code) == 1 and code[0] is want_code:
                R.good("C22", "%s: function %d has the code of definition %d" % (name, i, j))
            elif len(code) == 1 and (pis and pis != {j} or not pis) and not quiet:
                self.bad("C22", "code", "instantiating %s: function %d does not get the code of definition %d" % (name, i, j), f)
            else:
                R.undecided("C22", "a function's code")
            if len(tys) == 1:
                self.eq("the type of function %d" % i, "functype", tys[0], types[S["funcs"][j][0].args[0]], quiet)
            if len(mods) == 1:
                if mods[0].op == "weaknull" and not quiet:
                    self.bad("C22", "module of function", "instantiating %s: function %d does not know its module" % (name, i), f)
                elif mods[0].op == "weak":
                    R.good("C22", "%s: function %d belongs to the instance" % (name, i))
        # what constant expressions give
        ref_t = "execution::value::"

        def const(ops):
            k, x = ops[0]
            if k == "ref.func":
                return ("handle", self.handle(sp["funcs"][x.args[0]]), sp["funcs"][x.args[0]])
            if k == "ref.null":
                return ("null",)
            if k == "global.get":
                return const(S["globals"][x.args[0]][2])
            return (k, x)

        def same_ref(what, key, t, c):
            """t: a Ref (or Val::Ref)"""
            while t.op == "adt" and t.args[1] == "Ref" and len(t.args[2]) == 1:
                t = t.args[2][0][1]
            if t.op != "adt":
                R.undecided("C22", what)
                return
            if c[0] == "null":
                good = t.args[1] == "RefNull"
            else:
                if t.args[1] == "FuncAddr" and len(t.args[2]) == 1:
                    u = t.args[2][0][1]
                    if c[1] is not None:
                        good = self.handle(u) is c[1] if self.handle(u) is not None else None
                    else:
                        good = u is c[2] or None
                else:
                    good = False
            if good:
                R.good("C22", "%s: %s" % (name, what))
            elif good is False and not quiet:
                self.bad("C22", key, "instantiating %s: %s is wrong (%s)" % (name, what, "not null" if c[0] == "null" else "null or another function"), f)
            else:
                R.undecided("C22", what)
        for i, h in enumerate(sp["globals"]):
            g, v = S["globals"][i], self.fields(self.at(e, st, h))
            if not v:
                R.undecided("C22", "a global")
                continue
            val = [x for x in v.values() if isinstance(x, Term) and x.op == "adt" and x.args[0].endswith("value::Val")]
            ty = [x for x in v.values() if isinstance(x, Term) and x.op == "adt" and x.args[0].endswith("GlobalType")]
            if len(ty) == 1:
                self.eq("the type of global %d" % i, "globaltype", ty[0], self.x_gt(g), quiet)
            if len(val) == 1:
                c = const(g[2])
                if c[0] in ("handle", "null"):
                    same_ref("the value of global %d" % i, "global:" + g[2][0][0], val[0], c)
                else:
                    n = c[0][:3].upper()
                    self.eq("the value of global %d" % i, "global:" + g[2][0][0], val[0], ("v", "Num", {"0": ("v", n, {"0": c[1]})}), quiet)
            else:
                R.undecided("C22", "a global")
        # tables
        writes = {}
        copies = {}
        for x in st.ev:
            if x[0] == "w" and root(x[1]).op == "heap":
                if x[1].op == "idx":
                    b = self.flat(x[1].args[0])
                    if b.op == "range":
                        x = (x[0], T("idx", b.args[0], mk("Add", 64, b.args[1], x[1].args[1])), *x[2:])
                writes.setdefault(root(x[1]), []).append(x)
            elif x[0] == "copyslice" and root(x[1]).op == "heap":
                copies.setdefault(root(x[1]), []).append(x)
        actives = [(el, i) for i, el in enumerate(S.get("elems") or []) if el[0][0] == "active"]
        for i, h in enumerate(sp["tables"]):
            p = self.handle(h)
            v = self.fields(self.at(e, st, h)) if p is not None else None
            if not v:
                R.undecided("C22", "a table")
                continue
            ty = [x for x in v.values() if isinstance(x, Term) and x.op == "adt" and x.args[0].endswith("TableType")]
            if len(ty) == 1:
                self.eq("the type of table %d" % i, "tabletype", ty[0], self.x_tt(S["tables"][i]), quiet)
            cont = [x for x in v.values() if isinstance(x, Term) and x.op in ("resized", "upd", "vec", "from_elem", "extended")]
            if len(cont) == 1:
                b = cont[0]
                while b.op == "upd":
                    b = b.args[0]
                if b.op in ("resized", "from_elem"):
                    n, el = (b.args[1], b.args[2]) if b.op == "resized" else (b.args[1], b.args[0])
                    if b.op == "from_elem" and not isinstance(el, Term):
                        R.undecided("C22", "a new table")
                        continue
                    if el.op != "adt":
                        n, el = el, n
                    self.eq("the size of table %d" % i, "tablesize", n, S["tables"][i][1][0], quiet)
                    same_ref("the elements of the new table %d" % i, "tablefill", el, ("null",))
                else:
                    R.undecided("C22", "a new table")
            else:
                R.undecided("C22", "a table's elements")
            exp = []
            for el, k in actives:
                ti = el[0][1].args[0] if el[0][1] is not None else 0
                if ti != i:
                    continue
                off = self.offset(S, el[0][2])
                items = [("handle", self.handle(sp["funcs"][x.args[0]]), sp["funcs"][x.args[0]]) for x in el[1][1]] if el[1][0] == "funcs" else [const(x) for x in el[1][2]]
                for j, it in enumerate(items):
                    exp.append((off, j, it, k))
            ws = [x for x in writes.get(p, []) if x[1].op == "idx"]
            other = [x for x in writes.get(p, []) if x[1].op != "idx"] + copies.get(p, [])
            if other:
                R.undecided("C22", "how a table is filled")
            elif len(ws) != len(exp):
                if not quiet:
                    self.bad("C22", "elements", "instantiating %s: %d elements of table %d are filled instead of %d" % (name, len(ws), i, len(exp)), f)
            else:
                for x, (off, j, it, k) in zip(ws, exp):
                    what = "where element %d of segment %d goes in table %d" % (j, k, i)
                    if self.eq(what, "elemoffset", x[1].args[1], mk("Add", 32, off, K(j, "i32")) if j else off, quiet) or True:
                        same_ref("element %d of segment %d in table %d" % (j, k, i), "elements", x[2], it)
        # memories
        dact = [(d, i) for i, d in enumerate(S.get("datas") or []) if d[0] is not None]
        for i, h in enumerate(sp["mems"]):
            p = self.handle(h)
            v = self.fields(self.at(e, st, h)) if p is not None else None
            if not v:
                R.undecided("C22", "a memory")
                continue
            lim = S["mems"][i]
            mx = [y for x in v.values() if isinstance(x, Term) for y in subs(x) if y.op == "adt" and y.args[0].endswith("types::Limits")]
            if len(mx) == 1:
                self.eq("the maximum of memory %d" % i, "memmax", dict(mx[0].args[2])["max"], None if lim[1] is None else self.some(lim[1]), quiet, ("C22", "C21"))
            b = [x for x in v.values() if isinstance(x, Term) and x.op in ("resized", "upd", "from_elem", "written")]
            if len(b) == 1:
                b = b[0]
                while b.op == "upd":
                    b = b.args[0]
            if isinstance(b, Term) and b.op in ("resized", "from_elem"):
                xs = [x for x in b.args if isinstance(x, Term) and not (x.op == "vec" and not x.args[0])]
                z = [x for x in xs if is_k(x) and x.args[0] == 0]
                n = [x for x in xs if not is_k(x)]
                if len(n) == 1 and len(z) == 1:
                    self.pages(f, i, n[0], lim[0], quiet)
                elif len(xs) == 2 and is_k(xs[-1]) and not quiet:
                    self.bad("C22", "memfill", "instantiating %s: the new memory is not filled with zeros" % name, f)
                else:
                    R.undecided("C22", "a new memory")
            else:
                R.undecided("C22", "a new memory")
            exp = [(self.offset(S, d[1]), d[2], k) for d, k in dact if d[0].args[0] == i]
            cs = copies.get(p, [])
            if [x for x in writes.get(p, []) if x[1].op != "fld" or "type" not in str(x[1].args[1])]:
                R.undecided("C22", "how a memory is filled")
                continue
            if len(cs) != len(exp):
                exp = [x for x in exp if x[1]]
            if len(cs) != len(exp):
                if not quiet:
                    self.bad("C22", "data", "instantiating %s: %d data segments are copied to memory %d instead of %d" % (name, len(cs), i, len(exp)), f)
                continue
            for x, (off, bs, k) in zip(cs, exp):
                pl = self.flat(x[1])
                if pl.op != "range" or len(pl.args) != 3:
                    R.undecided("C22", "where a data segment goes")
                    continue
                self.eq("where data segment %d starts" % k, "dataoffset", pl.args[1], off, quiet)
                self.eq("where data segment %d ends" % k, "dataoffset", pl.args[2], mk("Add", 32, off, K(len(bs), "i32")) if bs else off, quiet)
                self.eq("the bytes of data segment %d in memory" % k, "databytes", self.at(e, st, x[2]), list(bs), quiet)
        # segments left for later
        for i, h in enumerate(sp["datas"]):
            v = self.fields(self.at(e, st, h))
            b = [x for x in (v or {}).values() if isinstance(x, Term)]
            if len(b) == 1:
                d = S["datas"][i]
                self.eq("what is left of data segment %d" % i, "datadrop" if d[0] is not None else "datakept", b[0], [] if d[0] is not None else list(d[2]), quiet, ("C22", "C26"))
        for i, x in enumerate(sp["exports"]):
            n, k, j = S["exports"][i]
            fs = self.fields(x) or {}
            nm = [y for y in fs.values() if isinstance(y, Term) and any(z.op == "s" for z in subs(y)) and y.op in ("fmt", "s", "string")]
            ev = [y for y in fs.values() if isinstance(y, Term) and y.op == "adt" and y.args[0].endswith("Externval")]
            if len(nm) == 1:
                self.eq("the name of export %d" % i, "exportname", nm[0], ("str", n), quiet)
            if len(ev) == 1:
                kind = {"func": "Func", "table": "Table", "mem": "Mem", "global": "Global"}[k]
                h = ev[0].args[2][0][1] if ev[0].args[2] else T("none")
                w = sp[{"func": "funcs", "table": "tables", "mem": "mems", "global": "globals"}[k]][j.args[0]]
                if ev[0].args[1] == kind and (h is w or self.handle(h) is not None and self.handle(h) is self.handle(w)):
                    R.good("C22", "%s: export %s is %s %d" % (name, n, k, j.args[0]))
                elif ev[0].args[1] != kind or self.handle(h) is not None and self.handle(w) is not None:
                    if not quiet:
                        self.bad("C22", "export", "instantiating %s: export %s is not %s %d" % (name, n, k, j.args[0]), f)
                else:
                    R.undecided("C22", "an export")
        # the start function
        runs = [x for x in st.ev if x[0] == "run"]
        news = [x for x in st.ev if x[0] == "runtime"]
        if ran and S.get("start") is None or not ran and runs:
            if runs and not quiet:
                self.bad("C22", "start", "instantiating %s runs a function although there is no start function" % name, f)
        elif ran:
            if len(runs) != 1:
                if not quiet:
                    self.bad("C22", "start", "instantiating %s succeeds after running its start function %d times" % (name, len(runs)), f)
            else:
                a = news[-1][1]
                w = sp["funcs"][S["start"].args[0]]
                hs = [x for x in a if x is w or x.op == "ref" and self.at1(e, st, x) is w or self.handle(self.at1(e, st, x)) is not None and self.handle(self.at1(e, st, x)) is self.handle(w)]
                fa = [x for i, x in enumerate(a) if "FuncAddr" in self.rtnew[0].lty(i + 1)]
                ps = [x for i, x in enumerate(a) if self.rtnew[0].lty(i + 1) == "std::vec::Vec<execution::value::Val>"]
                g = self.at1(e, st, fa[0]) if fa else None
                if g is not None and (g is w or self.handle(g) is not None and self.handle(g) is self.handle(w)):
                    R.good("C22", "%s: the start function is run" % name)
                elif g is not None and self.handle(g) is not None and self.handle(w) is not None and not quiet:
                    self.bad("C22", "start", "instantiating %s runs another function than its start function" % name, f)
                else:
                    R.undecided("C22", "which function is run")
                if len(ps) == 1 and ps[0].op == "vec" and ps[0].args[0] and not quiet:
                    self.bad("C22", "start", "instantiating %s gives its start function arguments" % name, f)
                late = False
                for x in st.ev:
                    if x[0] == "run":
                        late = True
                    elif late and (x[0] == "copyslice" or x[0] == "w" and root(x[1]).op == "heap" and x[1].op == "idx"):
                        if not quiet:
                            self.bad("C22", "order", "instantiating %s: the start function runs before every segment is in place" % name, f)
                        break

    def at1(self, e, st, t):
        """a reference to a handle: the handle"""
        while t.op == "ref" and root(t.args[0]).op != "heap" or t.op == "pval":
            t = e.read(st, t.args[0]) if t.op == "ref" else t.args[0]
        if t.op == "ref" and t.args[0].op != "heap":
            t = e.read(st, t.args[0])
        return t

    def offset(self, S, ops):
        k, x = ops[0]
        return self.offset(S, S["globals"][x.args[0]][2]) if k == "global.get" else x

    def pages(self, f, i, n, pages, quiet):
        R = self.R
        bad, und = None, False
        for p in (0, 1, 2, 17, 65535, 65536):
            env = {pages: p}
            v = value(n, env)
            if v is None:
                und = True
            elif v != p * 65536:
                bad = (p, v)
        if bad:
            if not quiet:
                self.bad(("C22", "C21"), "mempages", "a memory of %d pages is made with %d bytes" % bad, f)
        elif und:
            R.undecided("C22", "the size of a new memory")
        else:
            R.good("C22", "%s: memory %d has its minimum size" % (self.name, i))

    def flat(self, p):
        """a range of a range as one"""
        if p.op != "range":
            return p
        b = self.flat(p.args[0])
        if b.op != "range" or any(isinstance(x, Term) and x.op == "incl" for x in p.args + b.args):
            return p if b is p.args[0] else T("range", b, *p.args[1:])
        lo = b.args[1]
        return T("range", b.args[0], mk("Add", 64, lo, p.args[1]), b.args[2] if p.args[2] == "end" else mk("Add", 64, lo, p.args[2]))

    def noinit(self, t):
        while t.op == "init":
            t = t.args[0]
        return t

    def typed(self, f, st, h, i, ty, quiet):
        """an imported function is accepted only with the type the module says"""
        imp = T("in", "imports")
        want = dict(ty[2])
        for d in self.conds_of(st):
            got, other, why = {}, False, None
            for t, v in d.items():
                if not any(x is imp for x in subs(t)) or t.op == "disc":
                    continue
                if t.op == "len":
                    k = self.noinit(t.args[0])
                    k = k.args[1] if k.op == "fld" else None
                    if k in want and v[0] and v[1] == frozenset({0}) and not want[k]:
                        got[k] = True
                    elif k in want:
                        why = why or "only the number of its %s is looked at" % k
                    else:
                        other = True
                    continue
                if t.op != "veq":
                    other = True
                    continue
                yes = v[0] and v[1] == frozenset({1}) or not v[0] and v[1] == frozenset({0})
                for k in ("params", "results"):
                    sides = [a for a in t.args if isinstance(a, Term) and any(x is imp for x in subs(a))]
                    y = [a for a in t.args if isinstance(a, Term) and a is not sides[0]] if sides else []
                    sides = [self.noinit(a) for a in sides]
                    if len(sides) == 1 and sides[0].op == "fld" and sides[0].args[1] != k:
                        continue
                    if len(sides) != 1 or sides[0].op != "fld" or len(y) != 1:
                        other = True
                        continue
                    z = self.diff(y[0], want[k])
                    if z is not None and z[0] == "?":
                        other = True
                    elif yes and z is None:
                        got[k] = True
                    elif yes:
                        why = "the %s compared with it are not those declared" % k
                        got.setdefault(k, False)
                    elif z is None:
                        got[k], why = False, "its %s differ from those declared" % k
            if all(got.get(k) for k in ("params", "results")):
                self.R.good("C22", "%s: function %d is imported with the declared type only" % (self.name, i))
            elif other or quiet or any(not want[k] and k not in got for k in want) and "number" in (why or ""):
                self.R.undecided("C22", "the type of an imported function")
            else:
                miss = [k for k in ("params", "results") if k not in got]
                self.bad("C22", "import type", "instantiating %s accepts a function for import %d though %s" % (self.name, i, why or "its %s are not looked at" % " and ".join(miss)), f)
                return

    def run(self):
        for n in ("full", "no imports", "only a start function", "empty segments", 0, 1, 2):
            try:
                if isinstance(n, int):
                    S = self.shape("only a start function")
                    S["start"] = None
                    S["imports"] = [("env", "g", ("func", K(n, "u32")))]
                    self.check("a module importing a function of type %d" % n, S)
                    continue
                self.check({"full": "a module with everything", "empty segments": "a module with empty segments"}.get(n, "a module with " + n), self.shape(n))
            except (Missing, Unsupported, Budget) as ex:
                if os.environ.get("DEV"):
                    import traceback
                    traceback.print_exc()
                self.R.undecided("C22", "%s: %s" % (n, str(ex)[:100]))
        return self.R


def analyse(cfg):
    return Inst(cfg).run()
