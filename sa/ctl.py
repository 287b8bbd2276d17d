"""Control instructions: what the compiler emits for them and what their handlers do."""
from opsem import *
from steps import *
from result import Result

CT = "execution::regs::Reg"
MPN = "<itertools::MultiPeek<I> as std::iter::Iterator>::next"
UP = {"i32": "I32", "i64": "I64", "f32": "F32", "f64": "F64", "ref": "Ref", "v128": "V128"}


DEBUG = False


def vec(xs):
    return T("vec", tuple(xs))


class Seq:
    """The instruction compiler followed over a sequence of concrete control operators, on arbitrary register depths."""

    def __init__(self, L, params, results, types=(), fields=None):
        self.L, self.C, self.crate = L, L.C, L.crate
        self.px = L.C.px
        self.params, self.results = params, results
        self.feed = []            # operators handed to the compiler, by position
        self.types = list(types)  # function types of the module
        self.fields = fields or {}
        self.states = None
        self.begin()

    def vt(self, l):
        return vtype(self.crate, l)

    def types_of(self, ls):
        return vec([self.vt(l) for l in ls])

    def functype(self, p, r):
        a = self.crate.adts["structure::types::FuncType"]["variants"][0]
        f = {"params": self.types_of(p), "results": self.types_of(r)}
        return T("adt", "structure::types::FuncType", a[0], tuple((x[0], f[x[0]]) for x in a[2]))

    def engine(self):
        sq = self

        def nxt(eng, st, cs, a):
            from parserx import m_mp_next
            n = st.cnt.get("consumed", 0)
            if n == 0 and sq.cur is not None:
                s = st.copy()
                s.cnt["consumed"] = 1
                s.cnt["peeked"] = 0
                return [(s, SOME(OK(T("tuple", (sq.cur, T("var", "opoffset"))))))]
            if n == 0:
                return [(st, NONE)]
            return m_mp_next(eng, st, cs, a)

        def peek(eng, st, cs, a):
            from parserx import m_mp_peek
            n = st.cnt.get("consumed", 0) + st.cnt.get("peeked", 0)
            if n == 0:
                s = st.copy()
                s.cnt["peeked"] = 1
                return [(s, SOME(T("ref", T("pval", OK(T("tuple", (sq.cur, T("var", "opoffset")))))))) if sq.cur is not None else (s, NONE)]
            if n >= 1 and sq.follow is not None:
                s = st.copy()
                s.cnt["peeked"] = s.cnt.get("peeked", 0) + 1
                if sq.follow is False:
                    return [(s, NONE)]
                return [(s, SOME(T("ref", T("pval", OK(T("tuple", (sq.follow, T("var", "opoffset"))))))))]
            return m_mp_peek(eng, st, cs, a)
        ex = dict(self.L.models)
        ex[MPN] = nxt
        ex["itertools::MultiPeek::<I>::peek"] = peek
        ex["wasmparser::RefType::is_func_ref"] = lambda e, st, cs, a: [(st, K(1, "bool"))]
        ex["wasmparser::RefType::is_extern_ref"] = lambda e, st, cs, a: [(st, K(0, "bool"))]
        for f in self.L.ltype_fns:
            i = [f.lty(j) for j in range(1, f.nargs + 1)].index("u32")
            ex[f.name] = lambda e, st, cs, av, i=i: [(st, sq.vt(sq.params[av[i].args[0]]) if is_k(av[i]) and av[i].args[0] < len(sq.params) else T("ltype", av[i]))]
        bt = "wasmparser::binary_reader::<impl wasmparser::BrTable<'a>>::"
        ex[bt + "targets"] = lambda e, st, cs, a: [(st, T("itval", e.project(strip(e, st, a[0]), "targets")))]
        ex[bt + "default"] = lambda e, st, cs, a: [(st, e.project(strip(e, st, a[0]), "default"))]
        for f in self.crate.fns.values():
            if f.kind in ("fn", "assoc") and f.lty(0) == "execution::regs::RegAllocator" and f.nargs == 1:
                ex[f.name] = lambda e, st, cs, a: [(st, sq.C.alloc_term([]))]
        e = self.px.engine(ex)
        e.unroll = True
        e.ranges = {depth(l): (64, 65535 - 65) for l in LANES}
        return e

    def begin(self):
        """State of the decoding loop's variables on entry, for a function with these parameter and result types."""
        px = self.px
        f = px.fn
        self.cur = self.follow = None
        eng = self.engine()
        fr = Frame(f, eng.fid(0, ("top", f.name)), {})
        st = State()
        for i in range(1, f.nargs + 1):
            st.env[T("local", i, fr.fid)] = self.argument(i, f.lty(i))
        st.conds = [self.depthfacts()]
        eng.stack.append(f.name)
        outs = []
        region = set(range(len(f.blocks))) - f.loops()[px.head]
        ex, _ = eng.explore(fr, region, 0, [st], outs)
        eng.stack.pop()
        ex = [s for b, s in ex if b == px.head]
        if len(ex) != 1:
            raise Missing("entry of the decoding loop: %d states" % len(ex))
        s = ex[0]
        self.env = {r: eng.close(s, eng.read(s, px.loc(r, fr.fid))) for r in px.vars}
        self.mem = {k: v for k, v in s.env.items() if k.op != "local"}

    def argument(self, i, ty):
        if ty == "&[structure::types::ValueType]":
            l = self.results if i == self.result_arg() else self.params
            return T("ref", T("pval", self.types_of(l)))
        if ty == "&structure::module::Module":
            return T("ref", T("pval", self.module()))
        if ty.startswith("&"):
            return T("ref", T("pval", T("var", "arg%d" % i)))
        return T("var", "arg%d" % i)

    def result_arg(self):
        """Which of the two type-list arguments holds the function's result types: the one Return reads."""
        if not hasattr(self.L, "_resarg"):
            f = self.px.fn
            c = [i for i in range(1, f.nargs + 1) if f.lty(i) == "&[structure::types::ValueType]"]
            named = [i for i in c if "result" in (f.lname(i) or "")]
            self.L._resarg = named[0] if len(named) == 1 else (c[-1] if c else None)
        return self.L._resarg

    def module(self):
        a = self.crate.adts["structure::module::Module"]["variants"][0]
        f = {"types": wrap(self.crate.types[dict((x[0], x[1]) for x in a[2])["types"]], vec(self.functype(p, r) for p, r in self.types))}
        f.update(self.fields)
        return T("adt", "structure::module::Module", a[0], tuple((x[0], f.get(x[0], T("var", "module_" + x[0]))) for x in a[2]))

    def depthfacts(self):
        f = {}
        for l in LANES:
            f[T("LtU", 64, depth(l), K(64, "usize"))] = (True, frozenset((0,)))
            f[T("LtU", 64, depth(l), K(65535 - 64, "usize"))] = (True, frozenset((1,)))
        return f
    # -- feeding operators ----------------------------------------------------------------------------
    def operator(self, name, **fields):
        for v in self.crate.adts[OPER]["variants"]:
            if v[0] == name:
                return T("adt", OPER, name, tuple((f[0], fields.get(f[0], T("var", "opf_" + f[0]))) for f in v[2]))
        raise Missing("operator " + name)

    def step(self, op, follow=None):
        """Feed one operator; follow: the next operator, False for none, None for unknown."""
        px = self.px
        self.cur, self.follow = op, follow
        eng = self.engine()
        fr = Frame(px.fn, eng.fid(0, ("top", px.fn.name)), {})
        st = State()
        for r in px.vars:
            st.env[px.loc(r, fr.fid)] = self.env[r]
        st.conds = [self.depthfacts()]
        eng.steps = 0
        eng.stack.append(px.fn.name)
        outs = []
        ex, backs = eng.explore(fr, px.fn.loops()[px.head], px.head, [st], outs, is_head=True)
        eng.stack.pop()
        self.L.ncompiled += 1
        if DEBUG and len(backs) != 1:
            for b in backs:
                for c in b.conds[:2]: print("  c", {fmt(t)[:160]: f for t, f in c.items() if "var(d_" not in fmt(t)[:14]})
        if len(backs) != 1 or ex or any(o.kind == "ret" for o in outs):
            raise Stuck("%s: %d continuations, %d exits, %d returns" % (fmt(op)[:60] if op else "end", len(backs), len(ex), len(outs)))
        s = backs[0]
        self.env = {r: eng.close(s, eng.read(s, px.loc(r, fr.fid))) for r in px.vars}
        for r, v in self.env.items():
            if v.op in ("uninit",):
                raise Stuck(r)
        return self.env

    def alloc(self):
        a = self.env["alloc"]
        if a.op == "adt" and a.args[1] == "Some":
            a = a.args[2][0][1]
        if a.op != "adt" or len(a.args) < 3:
            raise Stuck("register allocator " + fmt(a)[:60])
        return a

    def set_alloc(self, a):
        self.env["alloc"] = SOME(a) if self.env["alloc"].args[1] == "Some" else a

    def move(self, l, d):
        """Operand pushed (d=1) or popped (d=-1) by an instruction that emits nothing of interest."""
        a = self.alloc()
        fs = []
        for n, v in a.args[2]:
            if n == l + "_depth":
                v = mk("Add", 64, v, K(d, "usize"))
            if d > 0 and n == "max_" + l + "_depth":      # the instruction that pushed it has counted it
                from parserx import umax
                v = umax(v, mk("Add", 64, dict(a.args[2])[l + "_depth"], K(1, "usize")))
            if n == "type_stack":
                if d > 0:
                    v = T("push", v, self.vt(l)) if v.op != "vec" else T("vec", v.args[0] + (self.vt(l),))
                elif v.op == "push":
                    v = v.args[0]
                else:
                    raise Stuck("operand types: " + fmt(v.args[1])[:300] if v.op=="truncated" else fmt(v)[:200])
            fs.append((n, v))
        self.set_alloc(T("adt", a.args[0], a.args[1], tuple(fs)))

    def depths(self):
        e = Engine(self.crate)
        a = self.alloc()
        return {l: e.project(a, l + "_depth") for l in LANES}

    def above(self):
        """Operands of each lane above the function's base, None when not a constant."""
        r = {}
        for l, t in self.depths().items():
            n = None
            if t is depth(l):
                n = 0
            elif t.op == "Add" and t.args[1] is depth(l) and is_k(t.args[2]):
                n = sgn(t.args[2].args[0], 64)
            r[l] = n
        return r

    def instrs(self):
        v = self.env["instrs"]
        return list(v.args[0]) if v.op == "vec" else None


    # -- after the last operator ----------------------------------------------------------------------
    def finish(self):
        """What the decoding function returns for the sequence fed so far."""
        px = self.px
        self.cur = self.follow = None
        eng = self.engine()
        fr = Frame(px.fn, eng.fid(0, ("top", px.fn.name)), {})
        st = State()
        for r in px.vars:
            st.env[px.loc(r, fr.fid)] = self.env[r]
        st.conds = [self.depthfacts()]
        eng.stack.append(px.fn.name)
        outs = []
        ex, backs = eng.explore(fr, px.fn.loops()[px.head], px.head, [st], outs, is_head=True)
        for b, s in ex:
            eng.explore(fr, None, b, [s], outs)
        eng.stack.pop()
        oks = [eng.close(o.st, o.val) for o in outs if o.kind == "ret"]
        if len(oks) != 1 or backs:
            raise Stuck("end of the body: %d results" % len(oks))
        return oks[0]

    def link(self):
        """The function as stored in the module: its body, handler table and register allocation."""
        val = self.finish()
        callers = [f for f in self.crate.fns.values() if f.kind in ("fn", "assoc") and self.calls(f, self.px.fn.name)]
        if len(callers) != 1:
            raise Missing("caller of the decoding function: %d candidates" % len(callers))
        f = callers[0]
        eng = self.px.engine({self.px.fn.name: lambda e, st, cs, a: [(st, val)]})
        eng.unroll = True
        eng.ranges = {depth(l): (64, 65535 - 65) for l in LANES}
        st = State()
        mod = T("local", 0, "MODULE")
        fn = self.crate.adts["structure::module::Func"]["variants"][0]
        fv = T("adt", "structure::module::Func", fn[0], tuple((x[0], self.newtype(self.crate.types[x[1]], K(0, "u32")) if self.crate.types[x[1]].endswith("TypeIdx")
                                                              else T("var", "func_" + x[0])) for x in fn[2]))
        m = self.module()
        fs = []
        tys = {x[0]: self.crate.types[x[1]] for x in self.crate.adts["structure::module::Module"]["variants"][0][2]}
        for n, v in m.args[2]:
            if tys[n].startswith("std::vec::Vec<structure::module::Func>"):
                v = vec([fv])
            elif tys[n] == "usize":
                v = K(0, "usize")
            fs.append((n, v))
        st.env[mod] = T("adt", m.args[0], m.args[1], tuple(fs))
        args = []
        for i in range(1, f.nargs + 1):
            ty = f.lty(i)
            if ty == "&mut structure::module::Module":
                args.append(T("ref", mod))
            elif ty == "usize":
                args.append(K(0, "usize"))
            else:
                args.append(T("var", "linkarg%d" % i))
        outs = eng.run(f, args, st)
        res = []
        for o in outs:
            if o.kind == "ret" and o.val.op == "adt" and o.val.args[1] == "Ok":
                res.append((eng, o.st, eng.close(o.st, eng.read(o.st, mod))))
        self.last = outs
        return res

    def calls(self, f, name):
        for b in f.blocks:
            t = b["t"]
            if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
                g = t[1][1]["fn"]
                if name in (g.get("res"), g["def"]):
                    return True
        return False

    def newtype(self, ty, v):
        a = self.crate.adts.get(ty)
        return T("adt", ty, a["variants"][0][0], ((a["variants"][0][2][0][0], v),))


def walk(t):
    if isinstance(t, Term):
        yield t
        for a in t.args:
            yield from walk(a)
    elif isinstance(t, tuple):
        for a in t:
            yield from walk(a)


class Stuck(Exception):
    pass


def strip(e, st, v):
    n = 0
    while v.op == "ref" and n < 6:
        v = e.read(st, v.args[0])
        n += 1
    return v


def wrap(ty, v):
    return T("rc", v) if ty.startswith(("std::rc::Rc<", "std::sync::Arc<")) else v
