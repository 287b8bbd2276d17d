"""From the file to the module: every section of the binary reaches the module unchanged, and nothing undecodable is accepted.

The crate's loading function is interpreted whole, over modules of known shape (how many types, imports, functions, segments ...)
whose numbers are symbolic.  The parser library is the oracle of the binary format: what it hands out (payloads, items, operators)
is the input, and the decoded module has to say the same."""
import re
from engine import Engine, State, Budget, Unsupported
from terms import T, K, Term, is_k, fmt, mk, UNIT
from models import SOME, NONE, OK, ERR, rd, strip_refs, dref
from base import crates
from result import Result, Finding
from opsem import Missing
from constprop import value
from wasirun import Wasi, subs, SPEC

OPT = "std::option::Option"
M = "structure::module::Module"
RES = "std::result::Result<(), std::boxed::Box<dyn std::error::Error>>"
W = "wasmparser::"


class Mod:
    def __init__(self, cfg):
        self.cfg = cfg
        self.crate = crates(cfg)[0]["lib"]
        self.R = Result()
        c = self.crate
        self.fns = [f for f in c.fns.values() if f.kind in ("fn", "assoc")]
        self.load = self.only([f for f in self.fns if f.nargs == 2 and f.lty(1) == "&mut " + M and f.lty(2) in ("&str", "&std::path::Path", "&std::string::String")
                               and f.lty(0).startswith("std::result::Result<(),")], "function loading a module")
        self.fresh = self.only([f for f in self.fns if f.lty(0) == M and f.nargs == 1], "an empty module")
        self.compile = self.only([f for f in self.fns if f.nargs and "OperatorsIteratorWithOffsets" in f.lty(1) and "Vec<execution::ir::ProcessedInstr>" in f.lty(0)],
                                 "function compiling a body")
        self.resolve = self.only([f for f in self.fns if f.nargs and f.lty(1) == "&mut std::vec::Vec<execution::ir::ProcessedInstr>" and f.lty(0).startswith("std::result::Result<()")
                                  and any("FxHashMap" in f.lty(i) or "HashMap" in f.lty(i) for i in range(1, f.nargs + 1))], "function resolving branches")
        self.pick = [f for f in self.fns if f.nargs == 1 and f.lty(1) == "&execution::ir::ProcessedInstr" and ("fn(" in f.lty(0) or f.lty(0).endswith("::Handler"))]
        self.wasi = Wasi(cfg).names()

    def only(self, l, what):
        if len(l) != 1:
            raise Missing("%s (%d)" % (what, len(l)))
        return l[0]

    def bad(self, p, key, text, f=None):
        f = f or self.load
        self.R.findings.append(Finding(p if isinstance(p, tuple) else (p,), key, "%s [%s build]" % (text, self.cfg), "%s (%s:%s)" % (f.name, f.file, f.line) if hasattr(f, "file") else f.name))

    # -- building what the parser library hands out ---------------------------------------------------------
    def adt(self, adtname_, variant=None, **kw):
        a = self.crate.adts.get(adtname_)
        if a is None:
            raise Missing(adtname_)
        vs = [v for v in a["variants"] if variant is None or v[0] == variant]
        if not vs:
            raise Missing("%s::%s" % (adtname_, variant))
        v = vs[0]
        return T("adt", adtname_, v[0], tuple((x[0], kw.get("f" + x[0] if x[0].isdigit() else x[0], T("other", x[0]))) for x in v[2]))

    def w(self, adtname_, variant=None, **kw):
        return self.adt(W + adtname_, variant, **kw)

    def s(self, t):
        return T("ref", T("pval", T("s", t)))

    def sym(self, n, w=32):
        return T("in", n)

    def u64(self, t):
        return T("zext", 32, 64, t) if not is_k(t) else K(t.args[0], "u64")

    def vt(self, t):
        if t in ("funcref", "externref"):
            return self.w("ValType", "Ref", f0=self.rt(t))
        return self.w("ValType", t.upper())

    def rt(self, t):
        return T("wreftype", t)

    def limits(self, l, what):
        if what == "Table":
            return dict(initial=self.u64(l[0]), maximum=NONE if l[1] is None else SOME(self.u64(l[1])), table64=K(0, "bool"))
        return dict(initial=self.u64(l[0]), maximum=NONE if l[1] is None else SOME(self.u64(l[1])), memory64=K(0, "bool"), shared=K(0, "bool"), page_size_log2=NONE)

    def ttype(self, t):
        return self.w("TableType", element_type=self.rt(t[0]), **self.limits(t[1], "Table"))

    def gtype(self, g):
        return self.w("GlobalType", content_type=self.vt(g[0]), mutable=K(int(g[1]), "bool"), shared=K(0, "bool"))

    def op(self, o):
        k, x = o
        names = {"i32.const": ("I32Const", "value"), "i64.const": ("I64Const", "value"), "f32.const": ("F32Const", "value"), "f64.const": ("F64Const", "value"),
                 "ref.func": ("RefFunc", "function_index"), "global.get": ("GlobalGet", "global_index"), "ref.null": ("RefNull", "hty"), "end": ("End", None),
                 "v128.const": ("V128Const", "value"), "i32.add": ("I32Add", None)}
        v, f = names[k]
        if k == "ref.null":
            return self.w("Operator", v, hty=T("heaptype", x))
        if k in ("f32.const", "f64.const"):
            n = "Ieee" + k[1:3]
            return self.w("Operator", v, value=self.w(n, f0=x))
        return self.w("Operator", v, **({f: x} if f else {}))

    def expr(self, ops):
        r = []
        for i, o in enumerate(list(ops) + [("end", None)]):
            r.append(ERR(T("parse error")) if o == "bad" else OK(T("tuple", (self.op(o), K(1000 + i, "usize")))))
        return T("wexpr", T("vec", tuple(r)))

    def items(self, xs):
        return T("vec", tuple(ERR(T("parse error")) if x is None else OK(x) for x in xs))

    def payloads(self, S):
        r = [self.w("Payload", "Version", num=K(1, "u16"))]

        def sec(n, xs):
            if xs is not None:
                r.append(self.w("Payload", n, f0=self.items(xs)))

        def custom():
            r.append(self.w("Payload", "CustomSection", f0=T("custom", len(r))))

        def each(k, f):
            return None if S.get(k) is None else [None if x == "bad" else f(x) for x in S[k]]
        if S.get("custom"):
            custom()
        sec("TypeSection", each("types", lambda t: T("wfunctype", T("vec", tuple(self.vt(x) for x in t[0])), T("vec", tuple(self.vt(x) for x in t[1])))))
        if S.get("custom"):
            custom()

        def imp(i):
            m, n, (k, x) = i
            ty = {"func": lambda: self.w("TypeRef", "Func", f0=x), "table": lambda: self.w("TypeRef", "Table", f0=self.ttype(x)),
                  "mem": lambda: self.w("TypeRef", "Memory", f0=self.w("MemoryType", **self.limits(x, "Memory"))),
                  "global": lambda: self.w("TypeRef", "Global", f0=self.gtype(x))}[k]()
            return self.w("Import", module=self.s(m), name=self.s(n), ty=ty)
        sec("ImportSection", each("imports", imp))
        sec("FunctionSection", each("funcs", lambda f: f[0]))
        sec("TableSection", each("tables", lambda t: self.w("Table", ty=self.ttype(t), init=T("wtableinit"))))
        sec("MemorySection", each("mems", lambda l: self.w("MemoryType", **self.limits(l, "Memory"))))
        sec("GlobalSection", each("globals", lambda g: self.w("Global", ty=self.gtype(g), init_expr=self.expr(g[2]))))
        kinds = {"func": "Func", "table": "Table", "mem": "Memory", "global": "Global"}
        sec("ExportSection", each("exports", lambda e: self.w("Export", name=self.s(e[0]), kind=self.w("ExternalKind", kinds[e[1]]), index=e[2])))
        if S.get("start") is not None:
            r.append(self.w("Payload", "StartSection", func=S["start"]))

        def elem(e):
            kind, items = e
            if kind[0] == "active":
                k = self.w("ElementKind", "Active", table_index=NONE if kind[1] is None else SOME(kind[1]), offset_expr=self.expr(kind[2]))
            else:
                k = self.w("ElementKind", {"passive": "Passive", "declared": "Declared"}[kind[0]])
            if items[0] == "funcs":
                i = self.w("ElementItems", "Functions", f0=self.items([None if x == "bad" else x for x in items[1]]))
            else:
                i = self.w("ElementItems", "Expressions", f0=self.rt(items[1]), f1=self.items([None if x == "bad" else self.expr(x) for x in items[2]]))
            return self.w("Element", kind=k, items=i)
        sec("ElementSection", each("elems", elem))
        if S.get("datas") is not None:
            r.append(self.w("Payload", "DataCountSection", count=K(len(S["datas"]), "u32")))
        if S.get("funcs"):
            r.append(self.w("Payload", "CodeSectionStart", count=K(len(S["funcs"]), "u32")))
            for i, f in enumerate(S["funcs"]):
                if f == "bad":
                    continue
                r.append(self.w("Payload", "CodeSectionEntry", f0=T("wbody", i, self.items([None if l == "bad" else T("tuple", (l[0], self.vt(l[1]))) for l in f[1]]))))

        def data(d):
            k = self.w("DataKind", "Passive") if d[0] is None else self.w("DataKind", "Active", memory_index=d[0], offset_expr=self.expr(d[1]))
            return self.w("Data", kind=k, data=T("ref", T("pval", T("vec", tuple(d[2])))))
        sec("DataSection", each("datas", data))
        if S.get("custom"):
            custom()
        r.append(self.w("Payload", "End", f0=K(999, "usize")))
        return r

    # -- the parser library's and the file system's operations ------------------------------------------------
    def models(self, payloads, fail):
        def place(e, st, x):
            return strip_refs(e, st, x)

        def may(nm, val):
            def m(e, st, cs, a):
                bad = st.copy()
                bad.ev = bad.ev + (("io", nm, False),)
                st.ev = st.ev + (("io", nm, True),)
                return [(st, OK(val(e, st, a))), (bad, ERR(T("ioerr", nm)))]
            return m

        def fill(e, st, a):
            e.write(st, dref(e, a[1]), T("filebytes", place(e, st, a[0])), event=False)
            return T("count")

        def parse_all(e, st, cs, a):
            x = e.close(st, rd(e, st, a[-1]))
            st.ev = st.ev + (("parse", x),)
            return [(st, payloads)]

        def part(i):
            def m(e, st, cs, a):
                x = place(e, st, a[0])
                if x.op != "wfunctype":
                    return None
                return [(st, T("ref", T("pval", x.args[i])))]
            return m

        def ops(e, st, cs, a):
            x = place(e, st, a[0])
            if x.op == "wexpr":
                return [(st, x.args[0])]
            if x.op == "wbody":
                bad = st.copy()
                bad.ev = bad.ev + (("io", "operators", False),)
                return [(st, OK(T("wops", x.args[0]))), (bad, ERR(T("parse error")))]
            return None

        def locs(e, st, cs, a):
            x = place(e, st, a[0])
            if x.op != "wbody":
                return None
            bad = st.copy()
            bad.ev = bad.ev + (("io", "locals", False),)
            return [(st, OK(x.args[1])), (bad, ERR(T("parse error")))]

        def same(e, st, cs, a):
            return [(st, a[0])]

        def bits(e, st, cs, a):
            x = place(e, st, a[0])
            return [(st, dict(x.args[2])["0"])] if x.op == "adt" else None

        def isref(which):
            def m(e, st, cs, a):
                x = place(e, st, a[0])
                return [(st, K(int(x.args[0] == which), "bool"))] if x.op == "wreftype" else None
            return m

        def comp(e, st, cs, a):
            f = self.compile
            args = [e.close(st, rd(e, st, x) if x.op == "ref" else x) for x in a]
            n = args[0].args[0] if args[0].op == "wops" else None
            bad = st.copy()
            bad.ev = bad.ev + (("compile failed", n),)
            st.ev = st.ev + (("compile", n, tuple((f.lty(i + 1), x) for i, x in enumerate(args))),)
            ty = f.lty(0)
            parts = self.tuple_types(ty)
            vals = []
            for i, t in enumerate(parts):
                if t == "std::vec::Vec<execution::ir::ProcessedInstr>":
                    vals.append(T("vec", (T("pi", n, 0), T("pi", n, 1))))
                elif re.match(r"^std::option::Option<[\w:]*::RegAllocation>$", t):
                    # small register counts, unless the analysis asks for others
                    l = self.counts.get(n, {})
                    a_ = t[t.index("<") + 1:-1]
                    vals.append(SOME(T("adt", a_, self.crate.adts[a_]["variants"][0][0], tuple(
                        (x[0], K(l.get(x[0], 1000 * ((n or 0) + 1) + j), "usize")) for j, x in enumerate(self.crate.adts[a_]["variants"][0][2])))))
                else:
                    vals.append(T("compiled", n, i, t))
            return [(st, OK(T("tuple", tuple(vals)))), (bad, ERR(T("compile error")))]

        def res(e, st, cs, a):
            args = [e.close(st, rd(e, st, x) if x.op == "ref" else x) for x in a]
            bad = st.copy()
            bad.ev = bad.ev + (("resolve failed",),)
            st.ev = st.ev + (("resolve", tuple(args)),)
            p = dref(e, a[0])
            v = e.close(st, e.read(st, p))
            if v.op == "vec":
                e.write(st, p, T("vec", tuple(T("resolved", x) for x in v.args[0])), event=False)
            return [(st, OK(UNIT)), (bad, ERR(T("resolve error")))]

        def pick(e, st, cs, a):
            return [(st, T("handler", e.close(st, rd(e, st, a[0]))))]

        def lookup(e, st, cs, a):
            k = place(e, st, a[1])
            if k.op != "s":
                return None
            v = self.wasi.get(k.args[0])
            return [(st, NONE if v is None else SOME(T("ref", T("pval", T("adt", self.wasikind(), v, ())))))]
        r = {"std::fs::File::open": may("open", lambda e, st, a: T("file", place(e, st, a[0]))),
             "std::fs::read": may("read", lambda e, st, a: T("filebytes", T("file", place(e, st, a[0])))),
             W + "Parser::parse_all": parse_all, W + "Parser::new": lambda e, st, cs, a: [(st, T("parser"))],
             "parser::<impl wasmparser::Parser>::parse_all": parse_all,
             W + "FuncType::params": part(0), W + "FuncType::results": part(1),
             W + "ConstExpr::<'a>::get_operators_reader": ops, W + "FunctionBody::<'a>::get_operators_reader": ops,
             W + "FunctionBody::<'a>::get_locals_reader": locs,
             W + "OperatorsReader::<'a>::into_iter_with_offsets": same,
             W + "Ieee32::bits": bits, W + "Ieee64::bits": bits,
             W + "RefType::is_func_ref": isref("funcref"), W + "RefType::is_extern_ref": isref("externref"),
             self.compile.name: comp, self.resolve.name: res}
        def rcmut(e, st, cs, a):
            # a counted box nobody else holds: from here on it is a place of its own
            p = dref(e, a[0])
            v = e.read(st, p)
            if v.op == "rc":
                h = T("local", len([x for x in st.env if x.op == "local" and x.args[1] == "RC"]), "RC")
                st.env[h] = v.args[0]
                v = T("ref", h)
                e.write(st, p, v, event=False)
            if v.op != "ref":
                return None
            return [(st, SOME(v) if cs.name.endswith("get_mut") else v)]
        for f in self.pick:
            r[f.name] = pick
        for t in ("std::rc::Rc::<T, A>::", "std::sync::Arc::<T, A>::", "std::rc::Rc::<T>::", "std::sync::Arc::<T>::"):
            r[t + "get_mut"] = r[t + "make_mut"] = rcmut
        for t in ("<std::fs::File as std::io::%s>::", "std::io::%s::", "<&std::fs::File as std::io::%s>::"):
            r[t % "Read" + "read_to_end"] = may("read_to_end", fill)
        names = set()
        for g in self.crate.fns.values():
            for b in g.blocks:
                t = b["t"]
                if t[0] == "call" and isinstance(t[1], (list, tuple)) and t[1][0] == "k" and "fn" in t[1][1]:
                    fn = t[1][1]["fn"]
                    d = fn["def"]
                    if "into_iter_err_on_gc_types" in d or d.startswith(W) and d.endswith("into_iter_with_offsets"):
                        r[d] = same
                    if "HashMap" in d and d.endswith("::get") and any(self.wasikind() in self.crate.types[x] for x in fn.get("ga", []) if isinstance(x, int)):
                        r[d] = lookup
                    if d.startswith(W) and d.endswith("::parse_all"):
                        r[d] = parse_all
        return r

    def wasikind(self):
        return [a for a in self.crate.adts if a.endswith("::WasiFuncType")][0]

    def tuple_types(self, ty):
        m = re.match(r"^std::result::Result<\((.*)\), [^()]*(\(.*\))?.*>$", ty)
        d, cur, r = 0, "", []
        s = ty[ty.index("<") + 1:]
        if not s.startswith("("):
            raise Unsupported("result of compiling a body: " + ty[:80])
        for ch in s[1:]:
            if ch in "<([":
                d += 1
            elif ch in ">)]":
                d -= 1
                if d < 0:
                    break
            if ch == "," and d == 0:
                r.append(cur.strip())
                cur = ""
            else:
                cur += ch
        if cur.strip():
            r.append(cur.strip())
        return r

    def runs(self, S, payloads=None, fail=None):
        c = self.crate
        ps = payloads if payloads is not None else [OK(p) for p in self.payloads(S)]
        e = Engine(c, models=self.models(T("vec", tuple(ps)), fail))
        e.unroll = True
        e.budget = 400000
        new = [o for o in e.run(self.fresh, [self.s("m")], State()) if o.kind == "ret"]
        if len(new) != 1:
            raise Unsupported("an empty module")
        st = State()
        place = T("local", 0, "MODULE")
        st.env[place] = e.close(new[0].st, new[0].val)
        outs = e.run(self.load, [T("ref", place), self.s("PATH")], st)
        self.R.scope["%s: functions interpreted while loading" % self.cfg] = len(getattr(e, "seen_fns", ())) or None
        return e, [(o, e.close(o.st, e.read(o.st, place))) for o in outs]

    # -- comparing ------------------------------------------------------------------------------------------
    def envs(self, names):
        r = []
        for e in range(3):
            env = {}
            for i, n in enumerate(sorted(names)):
                w = 64 if n.startswith("l_") else 8 if n.startswith("b_") else 32
                env[T("in", n)] = [(0x1003 * (i + 1)) & ((1 << w) - 1) if w > 8 else (i * 7 + 3) & 255, ((0x80001 * (i + 3)) | (1 << (w - 1))) & ((1 << w) - 1),
                                   (0x7ff00001 + i) & ((1 << w) - 1)][e]
            r.append(env)
        for x in (0, 1, 0xffffffff, 65536, 65537):
            r.append({T("in", n): x & 255 if n.startswith("b_") else x for n in names})
        if self.active is not None:
            r = [env for env in r if self.active(env)]
        return r

    active, all = None, None
    counts = {}               # register counts of bodies, where not the usual small ones

    def holds(self, st):
        """the environments in which a path is the one taken"""
        def f(env):
            und = False
            for d in st.conds:
                ok = True
                for t, v in d.items():
                    if not isinstance(t, Term):
                        continue
                    x = value(t, env)
                    if x is None:
                        ok = None
                        break
                    if (x in v[1]) != v[0]:
                        ok = False
                        break
                if ok:
                    return True
                und = und or ok is None
            return False
        return f

    def names_of(self, S):
        r = set()

        def go(x):
            if isinstance(x, Term):
                r.update(y.args[0] for y in subs(x) if y.op == "in")
            elif isinstance(x, (list, tuple)):
                for y in x:
                    go(y)
        for x in S.values():
            go(x)
        return r

    def strip(self, t):
        while t.op in ("ref", "pval", "rc", "box") and len(t.args) == 1 and isinstance(t.args[0], Term):
            t = t.args[0]
        return t

    def diff(self, t, x, path=""):
        """None when t is x; ("bad", path, what) when it definitely differs; ("?", path, what) when it cannot be told"""
        t = self.strip(t) if isinstance(t, Term) else t
        if isinstance(x, tuple) and x and x[0] == "any":
            return None
        if x is None:
            x = ("v", "None", {})
        if isinstance(x, tuple) and x[0] == "str":
            ss = {y.args[0] for y in subs(t) if y.op == "s"}
            if ss == {x[1]} and t.op in ("s", "fmt", "string", "call", "ret"):
                return None
            return ("bad" if t.op in ("s", "fmt") and len(ss) == 1 else "?", path, "%s instead of \"%s\"" % (fmt(t)[:60], x[1]))
        if isinstance(x, list):
            if t.op not in ("vec", "array"):
                return ("?", path, fmt(t)[:80])
            if len(t.args[0]) != len(x):
                return ("bad", path, "%d instead of %d" % (len(t.args[0]), len(x)))
            for i, (a, b) in enumerate(zip(t.args[0], x)):
                d = self.diff(a, b, "%s[%d]" % (path, i))
                if d:
                    return d
            return None
        if isinstance(x, tuple) and x[0] == "tuple":
            if t.op != "tuple" or len(t.args[0]) != len(x[1]):
                return ("?", path, fmt(t)[:80])
            for i, (a, b) in enumerate(zip(t.args[0], x[1])):
                d = self.diff(a, b, "%s.%d" % (path, i))
                if d:
                    return d
            return None
        if isinstance(x, tuple) and x[0] == "v":
            if t.op != "adt":
                return ("?", path, fmt(t)[:80])
            if x[1] is not None and t.args[1] != x[1]:
                return ("bad", path, "%s instead of %s" % (t.args[1], x[1]))
            fs = dict(t.args[2])
            for k, y in x[2].items():
                if k not in fs:
                    return ("?", path, "no field " + k)
                d = self.diff(fs[k], y, path + "." + k)
                if d:
                    return d
            return None
        if isinstance(x, Term):
            if t is x or t.op == "ffrom" and t.args[-1] is x:       # a float of exactly these bits
                return None
            names = {y.args[0] for y in subs(t) | subs(x) if y.op == "in" and len(y.args) == 1}
            es = self.envs(self.all or names)
            und = not es
            for env in es:
                a, b = value(t, env), value(x, env)
                if a is None or b is None:
                    und = True
                    continue
                m = 0xff if any(n.startswith("b_") for n in names) else (1 << 64) - 1 if any(n.startswith("l_") for n in names) else 0xffffffff
                if isinstance(a, float) or isinstance(b, float):
                    import struct
                    f = "<f" if m == 0xffffffff else "<d"
                    a, b = [struct.unpack("<I" if f == "<f" else "<Q", struct.pack(f, y))[0] if isinstance(y, float) else y for y in (a, b)]
                if a & m != b & m:
                    return ("bad", path, "%s instead of %s" % (fmt(t)[:80], fmt(x)[:40]))
            return ("?", path, fmt(t)[:80])
        return ("?", path, "no oracle")

    # what the module should say
    def x_vt(self, t):
        if t in ("funcref", "externref"):
            return ("v", "RefType", {"0": self.x_rt(t)})
        if t == "v128":
            return ("v", "VecType", {})
        return ("v", "NumType", {"0": ("v", t.upper(), {})})

    def x_rt(self, t):
        return ("v", {"funcref": "FuncRef", "externref": "ExternalRef"}[t], {})

    def some(self, x):
        return ("v", "Some", {"0": x})

    def x_lim(self, l):
        return ("v", None, {"min": l[0], "max": None if l[1] is None else self.some(l[1])})

    def x_tt(self, t):
        return ("v", None, {"0": self.x_lim(t[1]), "1": self.x_rt(t[0])})

    def x_gt(self, g):
        return ("v", None, {"0": ("v", "Var" if g[1] else "Const", {}), "1": self.x_vt(g[0])})

    def idx(self, x):
        return ("v", None, {"0": x})

    def x_op(self, o):
        k, x = o
        n = {"i32.const": "I32Const", "i64.const": "I64Const", "f32.const": "F32Const", "f64.const": "F64Const", "ref.func": "RefFunc", "ref.null": "RefNull",
             "global.get": "GlobalGet"}[k]
        if k == "ref.null":
            return ("v", n, {})
        return ("v", n, {"0": self.idx(x) if k in ("ref.func", "global.get") else x})

    def x_expr(self, ops):
        return ("v", None, {"0": [self.x_op(o) for o in ops]})

    def expected(self, S):
        def L(k, f):
            return [f(x) for x in S.get(k) or []]

        def imp(i):
            m, n, (k, x) = i
            if k == "func":
                w = self.wasi.get(n) if m == "wasi_snapshot_preview1" else None
                d = ("v", "WasiFunc", {"0": ("v", w, {})}) if w else ("v", "Func", {"0": self.idx(x)})
            else:
                d = {"table": lambda: ("v", "Table", {"0": self.x_tt(x)}), "mem": lambda: ("v", "Mem", {"0": self.idx(self.x_lim(x))}),
                     "global": lambda: ("v", "Global", {"0": self.x_gt(x)})}[k]()
            return ("v", None, {"module": self.idx(("str", m)), "name": self.idx(("str", n)), "desc": d})

        def elem(e):
            kind, items = e
            r = {"mode": ("v", {"active": "Active", "passive": "Passive", "declared": "Declarative"}[kind[0]], {})}
            if kind[0] == "active":
                r["table_idx"] = self.some(self.idx(K(0, "u32") if kind[1] is None else kind[1]))
                r["offset"] = self.some(self.x_expr(kind[2]))
            if items[0] == "funcs":
                r["idxes"], r["init"], r["type_"] = self.some([self.idx(x) for x in items[1]]), None, self.x_rt("funcref")
            else:
                r["idxes"], r["init"], r["type_"] = None, self.some([self.x_expr(x) for x in items[2]]), self.x_rt(items[1])
            return ("v", None, r)

        def data(d):
            r = {"init": [self.idx(b) for b in d[2]], "mode": ("v", "Passive" if d[0] is None else "Active", {})}
            if d[0] is not None:
                r["memory"], r["offset"] = self.some(self.idx(d[0])), self.some(self.x_expr(d[1]))
            return ("v", None, r)
        kinds = {"func": "Func", "table": "Table", "mem": "Mem", "global": "Global"}
        nf = len([i for i in S.get("imports") or [] if i[2][0] == "func"])
        r = {"types": L("types", lambda t: ("v", None, {"params": [self.x_vt(x) for x in t[0]], "results": [self.x_vt(x) for x in t[1]]})),
             "imports": L("imports", imp), "num_imported_funcs": K(nf, "usize"),
             "funcs": L("funcs", lambda f: ("v", None, {"type_": self.idx(f[0]), "locals": [("tuple", (l[0], self.x_vt(l[1]))) for l in f[1]]})),
             "tables": L("tables", lambda t: ("v", None, {"type_": self.x_tt(t)})), "mems": L("mems", lambda l: ("v", None, {"type_": self.idx(self.x_lim(l))})),
             "globals": L("globals", lambda g: ("v", None, {"type_": self.x_gt(g), "init": self.x_expr(g[2])})),
             "exports": L("exports", lambda e: ("v", None, {"name": self.idx(("str", e[0])), "desc": ("v", kinds[e[1]], {"0": self.idx(e[2])})})),
             "start": None if S.get("start") is None else self.some(("v", None, {"func": self.idx(S["start"])})),
             "elems": L("elems", elem), "datas": L("datas", data)}
        return r

    # -- the checks -----------------------------------------------------------------------------------------
    @staticmethod
    def wasitype(name):
        return ["i64" if x == "l" else "i32" for x in SPEC[name].split()], [] if name == "proc_exit" else ["i32"]

    def shapes(self):
        I, k = (lambda n: T("in", n)), (lambda n: K(n, "u32"))
        vts = ["i32", "i64", "f32", "f64", "funcref", "externref"]
        rich = dict(
            custom=1,
            types=[(["i32", "i64", "f32", "f64", "v128", "funcref", "externref"], ["f64", "i32", "externref"]), ([], []), (["i64"], ["i64", "funcref"]), (["f32", "i32"], ["v128"]), (["i64"], ["i64", "funcref"]), ([], []), self.wasitype("fd_write"), self.wasitype("proc_exit")],
            imports=[("wasi_snapshot_preview1", "fd_write", ("func", k(6))), ("env", "fd_write", ("func", k(1))), ("wasi_snapshot_preview1", "no_such_call", ("func", k(3))),
                     ("wasi_snapshot_preview1", "proc_exit", ("func", k(7))), ("m", "f", ("func", k(0)))],
            funcs=[(k(2), [(I("lc0"), "i64"), (I("lc1"), "f32"), (I("lc2"), "i64")]), (k(0), []), (k(3), [(I("lc3"), "externref"), (I("lc4"), "v128"), (I("lc5"), "i32"), (I("lc6"), "f64"), (I("lc7"), "funcref")])],
            tables=[("funcref", (I("t0min"), I("t0max"))), ("externref", (I("t1min"), None))],
            mems=[(I("m0min"), I("m0max"))],
            globals=[("i32", 1, [("i32.const", I("gi"))]), ("i64", 0, [("i64.const", I("l_g"))]), ("f32", 1, [("f32.const", I("gf"))]), ("f64", 0, [("f64.const", I("l_gd"))]),
                     ("funcref", 1, [("ref.func", I("gr"))]), ("externref", 0, [("ref.null", "extern")]), ("i32", 0, [("global.get", I("gg"))]), ("funcref", 0, [("ref.null", "func")])],
            exports=[("a", "func", I("e0")), ("b", "mem", I("e1")), ("c", "table", I("e2")), ("d", "global", I("e3")), ("e", "func", I("e4"))],
            start=I("st"),
            elems=[(("active", None, [("i32.const", I("eo0"))]), ("funcs", [I("ef0"), I("ef1"), I("ef2")])),
                   (("active", I("et1"), [("global.get", I("eo1"))]), ("exprs", "externref", [[("ref.null", "extern")], [("global.get", I("ex1"))]])),
                   (("passive",), ("exprs", "funcref", [[("ref.func", I("ex2"))], [("ref.null", "func")]])), (("declared",), ("funcs", [I("ef3")])), (("passive",), ("funcs", []))],
            datas=[(I("dm0"), [("i32.const", I("do0"))], [I("b_0"), I("b_1"), I("b_2")]), (None, None, [I("b_3"), I("b_4")]), (I("dm1"), [("global.get", I("do1"))], [])])
        other = dict(
            types=[([], ["i32"]), (vts, vts[::-1])],
            imports=[("env", "t", ("table", ("externref", (I("it_min"), I("it_max"))))), ("env", "f", ("func", k(1))), ("env", "m", ("mem", (I("im_min"), None))), ("env", "g", ("global", ("f64", 1))),
                     ("env", "h", ("global", ("funcref", 0))), ("env", "n", ("mem", (I("in_min"), I("in_max")))), ("env", "u", ("table", ("funcref", (I("iu_min"), None)))), ("x", "y", ("func", k(0)))],
            funcs=[(k(1), [(I("lc0"), "i32")]), (k(0), [])], mems=[(I("m0min"), None)], exports=[("only", "global", I("e3"))],
            datas=[(None, None, [I("b_0")])])
        plain = dict(types=[([], [])], funcs=[(k(0), [(I("lc0"), "f64")]), (k(0), [(I("lc1"), "i32")])], tables=[("externref", (I("t0min"), I("t0max"))), ("funcref", (I("t1min"), I("t1max")))], start=I("st"))
        return {"a module with every kind of section": rich, "a module importing every kind of thing": other, "a module without imports": plain, "an empty module": {}}

    TITLES = {"types": "types", "imports": "imports", "num_imported_funcs": "number of imported functions", "funcs": "functions", "tables": "tables", "mems": "memories", "globals": "globals",
              "exports": "exports", "start": "start function", "elems": "element segments", "datas": "data segments"}

    def kept(self):
        for name, S in self.shapes().items():
            e, rs = self.runs(S)
            x = self.expected(S)
            oks = [(o, v) for o, v in rs if o.kind == "ret" and o.val.op == "adt" and o.val.args[1] == "Ok"]
            clean = [(o, v) for o, v in rs if not any(y[0] == "io" and not y[2] or y[0] in ("compile failed", "resolve failed") for y in o.st.ev)]
            if len(clean) != 1:
                self.R.undecided("C25", "%s: %d paths without a failure" % (name, len(clean)))
            for o, v in clean:
                if o.kind == "ret" and o.val.op == "adt" and o.val.args[1] == "Err" and len(clean) == 1:
                    self.bad("C25", "refused:" + name, "%s is refused although everything in it decodes" % name)
                    continue
                if (o, v) not in oks:
                    self.R.undecided("C25", "%s: %s" % (name, o.kind))
                    continue
                if len(clean) > 1:
                    self.active, self.all = self.holds(o.st), self.names_of(S)
                    quiet = not self.envs(self.all)
                else:
                    self.active, self.all, quiet = None, None, False
                self.same_module(name, S, x, o, v, quiet)
                self.active = self.all = None
            # anything that failed on the way must fail the whole
            for o, v in oks:
                for y in o.st.ev:
                    if y[0] == "io" and not y[2] or y[0] in ("compile failed", "resolve failed"):
                        what = {"compile failed": "compiling a function body", "resolve failed": "resolving a body's branches"}.get(y[0], y[1] if y[0] == "io" else y[0])
                        self.bad("C24", "ignored:" + str(what), "loading succeeds although %s failed" % {"open": "opening the file", "read_to_end": "reading the file", "read": "reading the file",
                                 "locals": "decoding a function's locals", "operators": "decoding a function's body"}.get(what, what))
                        break
            n = len([1 for o, v in rs if any(y[0] == "io" and not y[2] or y[0] in ("compile failed", "resolve failed") for y in o.st.ev)])
            if n:
                self.R.good("C24", "%s: %d failing steps of loading fail the whole" % (name, n), n)

    def same_module(self, name, S, x, o, v, quiet=False):
        R, v = self.R, self.strip(v)
        fs = dict(v.args[2]) if v.op == "adt" else {}
        for f, y in x.items():
            if f not in fs:
                R.undecided("C25", "no field %s in a module" % f)
                continue
            d = self.diff(fs[f], y, f)
            if d is None:
                R.good("C25", "%s: %s as in the binary" % (name, self.TITLES[f]))
            elif d[0] == "bad" and not quiet:
                p = "C25"
                if f == "types":
                    p = ("C25", "C09")
                if f in ("globals", "elems", "datas", "start") or f == "exports":
                    p = ("C25", "C22")
                self.bad(p, "decode:%s" % re.sub(r"\[\d+\]", "", d[1]), "decoding %s: %s of the module: %s" % (name, d[1], d[2]))
            else:
                R.undecided("C25", "%s: %s" % (name, self.TITLES[f]))
                if __import__("os").environ.get("DEV"):
                    print("?", name, d)
        ev = o.st.ev
        ps = [y for y in ev if y[0] == "parse"]
        if len(ps) == 1 and {y.args[0] for y in subs(ps[0][1]) if y.op == "s"} == {"PATH"} and any(y.op == "filebytes" for y in subs(ps[0][1])):
            R.good(("C25"), "%s: the bytes decoded are the whole of the named file" % name)
        else:
            R.undecided("C25", "what is decoded")
        # bodies
        funcs = self.strip(fs.get("funcs", T("none")))
        nf = S.get("funcs") or []
        if funcs.op != "vec" or len(funcs.args[0]) != len(nf):
            return
        for i, f in enumerate(funcs.args[0]):
            ff = dict(f.args[2])
            b = self.strip(ff.get("body", T("none")))
            if b.op != "vec":
                R.undecided("C25", "body of a function")
                continue
            ns = {y.args[0] for y in subs(b) if y.op == "pi"}
            if ns == {i} and len(b.args[0]) == 2 and [y.args[1] for t in b.args[0] for y in subs(t) if y.op == "pi"] == [0, 1]:
                R.good("C25", "%s: function %d gets the body compiled from its code entry" % (name, i))
            elif ns and ns != {i} or not b.args[0]:
                self.bad("C25", "body", "in %s, function %d does not get its own body" % (name, i))
            else:
                R.undecided("C25", "body of a function")
            ra = ff.get("reg_allocation")
            if ra is not None:
                ns = {y.args[0] for y in subs(ra) if y.op == "compiled"} | {y.args[0] // 1000 - 1 for y in subs(ra) if is_k(y) and y.args[0] >= 1000}
                if ns == {i}:
                    R.good("C25", "%s: function %d gets its own register counts" % (name, i))
                elif ns:
                    self.bad(("C25", "C11"), "registers", "in %s, function %d gets the register counts of another function" % (name, i))
                else:
                    R.undecided("C25", "register counts of a function")
            h = self.strip(ff.get("handlers", T("none")))
            if h.op == "vec" and b.op == "vec":
                for j, t in enumerate(b.args[0]):
                    if j < len(h.args[0]) and h.args[0][j] is T("handler", t):
                        R.good("C25", "%s: handler %d of function %d runs its instruction" % (name, j, i))
                    elif j >= len(h.args[0]) or h.args[0][j].op == "handler":
                        self.bad(("C25", "C03"), "handlers", "in %s, handler %d of function %d is not the one of its instruction" % (name, j, i))
        # compilation
        cs = [y for y in ev if y[0] == "compile"]
        if sorted(str(y[1]) for y in cs) != [str(i) for i in range(len(nf))]:
            if not quiet and all(y[1] is not None for y in cs):
                self.bad("C25", "compiled", "in %s, the bodies compiled are %s of %d" % (name, [y[1] for y in cs], len(nf)))
            return
        for y in cs:
            i = y[1]
            locs = [v for t, v in y[2] if t.replace(" ", "").startswith(("&[(u32,", "&std::vec::Vec<(u32,"))]
            tys = [v for t, v in y[2] if t in ("&[structure::types::ValueType]", "&std::vec::Vec<structure::types::ValueType>")]
            mods = [v for t, v in y[2] if t == "&" + M]
            ti = nf[i][0].args[0] if is_k(nf[i][0]) else None
            want = []
            if len(locs) == 1:
                want.append((locs[0], [("tuple", (l[0], self.x_vt(l[1]))) for l in nf[i][1]], "the locals"))
            if len(tys) == 2 and ti is not None:
                want.append((tys[0], [self.x_vt(t) for t in S["types"][ti][0]], "the parameter types"))
                want.append((tys[1], [self.x_vt(t) for t in S["types"][ti][1]], "the result types"))
            if len(mods) == 1:
                m = dict(self.strip(mods[0]).args[2])
                for k in ("types", "imports", "num_imported_funcs"):
                    want.append((m[k], x[k], "the module's " + self.TITLES[k]))
                want.append((m["funcs"], [("v", None, {"type_": self.idx(f[0])}) for f in nf], "the types of the module's functions"))
            for t, w, what in want:
                d = self.diff(t, w, what)
                if d is None:
                    R.good("C25", "%s: function %d is compiled with %s of its own" % (name, i, what))
                elif d[0] == "bad" and not quiet:
                    self.bad(("C25", "C09") if "types" in what else "C25", "compile:" + what, "in %s, function %d is compiled with other values for %s: %s" % (name, i, what, d[2]))
                else:
                    R.undecided("C25", "%s a function is compiled with" % what)
        rs = [y for y in ev if y[0] == "resolve"]
        for y in rs:
            ns = {z.args[0] for t in y[1] for z in subs(t) if z.op in ("pi", "compiled") and not any(w.op == "adt" and w.args[0] == M for w in subs(t))}
            if len(ns) == 1:
                R.good("C25", "%s: branches are resolved within one body" % name)
        if rs and len(rs) != len(nf):
            R.undecided("C25", "resolving branches")

    def refused(self):
        """whatever the parser library cannot decode, and whatever initialiser is not supported, fails the load"""
        rich = self.shapes()["a module with every kind of section"]
        k = lambda n: K(n, "u32")
        ps = [OK(p) for p in self.payloads(rich)]
        n = 0
        for i in range(len(ps)):
            _, rs = self.runs(None, ps[:i] + [ERR(T("parse error"))])
            self.never(rs, "a section or body (the one after %s) does not decode" % (ps[i - 1].args[2][0][1].args[1] if i else "nothing"), "payload")
            n += 1
        cases = []
        for key in ("types", "imports", "funcs", "tables", "mems", "globals", "exports", "elems", "datas"):
            for pos in (0, len(rich[key])):
                l = list(rich[key])
                l.insert(pos, "bad")
                cases.append((dict(rich, **{key: l}), "an item of the %s does not decode" % self.TITLES[key], "item:" + key))
        small = dict(types=[([], [])], funcs=[(k(0), [(k(1), "i32"), "bad"])])
        cases.append((small, "the locals of a function do not decode", "item:locals"))
        i32 = ("i32.const", T("in", "x"))
        for ops, what in (([("v128.const", T("in", "x"))], "a v128.const"), ([i32, i32, ("i32.add", None)], "arithmetic"), (["bad"], "an operator that does not decode"), ([i32, "bad"], "an operator that does not decode")):
            w = "is" if ops[0] == "bad" else "uses"
            cases.append((dict(globals=[("i32", 0, ops)]), "a global's initialiser %s %s" % (w, what), "init:global:" + what))
            cases.append((dict(datas=[(k(0), ops, [])]), "a data segment's offset %s %s" % (w, what), "init:data:" + what))
            cases.append((dict(elems=[(("active", None, ops), ("funcs", []))]), "an element segment's offset %s %s" % (w, what), "init:elem:" + what))
            cases.append((dict(elems=[(("passive",), ("exprs", "funcref", [[("ref.null", "func")], ops]))]), "an element expression %s %s" % (w, what), "init:expr:" + what))
        cases.append((dict(elems=[(("passive",), ("funcs", [T("in", "x"), "bad"]))]), "a function of an element segment does not decode", "item:elem funcs"))
        cases.append((dict(elems=[(("passive",), ("exprs", "funcref", [[("ref.null", "func")], "bad"]))]), "an expression of an element segment does not decode", "item:elem exprs"))
        for S, what, key in cases:
            _, rs = self.runs(S)
            if "arithmetic" in key or "v128" in key:
                rs = [(o, v) for o, v in rs if not self.faithful(S, v)]
            self.never(rs, what, key)

    def faithful(self, S, v):
        """an initialiser kept as it is (with operators the instantiation then refuses or supports) is not an error of decoding"""
        v = self.strip(v)
        for t in subs(v):
            if t.op == "adt" and t.args[0].endswith("instructions::Expr"):
                l = self.strip(dict(t.args[2])["0"])
                if l.op == "vec" and (len(l.args[0]) == 3 or len(l.args[0]) == 1 and l.args[0][0].op == "adt" and "V128" in l.args[0][0].args[1]):
                    return True
        return False

    def declared(self):
        """a WASI import of the type WASI gives the function is accepted, of any other type it is refused"""
        P = ("C16", "C04", "C24")
        for j, name in enumerate(sorted(n for n in self.wasi if n in SPEC)):
            p, r = self.wasitype(name)
            shape = lambda p, r: dict(types=[([], []), (p, r)], imports=[("wasi_snapshot_preview1", name, ("func", K(1, "u32")))])
            _, rs = self.runs(shape(p, r))
            if any(o.kind == "ret" and o.val.op == "adt" and o.val.args[1] == "Ok" for o, v in rs):
                self.R.good(("C16", "C25"), "import of %s accepted with its WASI type" % name)
            elif rs and all(o.kind == "ret" and o.val.op == "adt" and o.val.args[1] == "Err" for o, v in rs):
                self.bad(("C16", "C25"), "wasi-type:refused", "an import of %s with its WASI type is refused" % name)
            else:
                self.R.undecided(("C16", "C25"), "import of " + name)
            wrong = [(p + ["i32"], r, "one parameter more"), (p, ["i32", "i32"] if r else ["i32"], "one result more"), (p, ["i64"] if r else ["f32"], "another result")]
            if p:
                wrong += [(p[:-1], r, "one parameter less"), (p[:-1] + ["i64" if p[-1] == "i32" else "i32"], r, "another last parameter"),
                          (["f32"] + p[1:], r, "another first parameter")]
            if r:
                wrong.append((p, [], "no result"))
            if len(set(p)) > 1:
                wrong.append((p[::-1] if p[::-1] != p else sorted(p), r, "its parameters in another order"))
            for p2, r2, what in wrong:
                if (p2, r2) == (p, r):
                    continue
                what = "an import of %s declared with %s" % (name, what)
                _, rs = self.runs(shape(p2, r2))
                oks = [o for o, v in rs if o.kind == "ret" and o.val.op == "adt" and o.val.args[1] == "Ok"]
                good = [o for o, v in rs if o.kind == "ret" and o.val.op == "adt" and o.val.args[1] == "Err" and not any(y[0] == "io" and not y[2] for y in o.st.ev)]
                if not oks:
                    self.R.good(P, "refused: " + what)
                elif good:
                    self.R.undecided(P, what)
                else:
                    self.bad(P, "wasi-type:accepted", "%s is accepted: its calls take and leave the operands of the WASI type, not of the declared one" % what)

    def never(self, rs, what, key):
        oks = [o for o, v in rs if o.kind == "ret" and o.val.op == "adt" and o.val.args[1] == "Ok"]
        if not rs:
            self.R.good("C24", "refused: " + what)
            return
        if not oks:
            bad = [o for o, v in rs if o.kind == "ret" and not (o.val.op == "adt" and o.val.args[1] == "Err")]
            if bad:
                self.R.undecided("C24", what)
            else:
                self.R.good("C24", "refused: " + what)
        else:
            self.bad("C24", "accepted:" + key, "loading succeeds although %s" % what)

    def run(self):
        for f in (self.kept, self.refused, self.declared):
            try:
                f()
            except (Missing, Unsupported, Budget) as ex:
                if __import__("os").environ.get("DEV"):
                    import traceback
                    traceback.print_exc()
                self.R.undecided(("C16", "C04") if f == self.declared else ("C24", "C25"), "%s: %s" % (f.__name__, str(ex)[:100]))
        return self.R


def analyse(cfg):
    return Mod(cfg).run()
