"""WASI calls: names, signatures, arguments reaching the host, results reaching guest memory."""
import re
from engine import Engine, State, Budget, Unsupported
from terms import T, K, Term, is_k, fmt
from base import crates
from result import Result, Finding
from opsem import Missing
from constprop import value

MI = "execution::module::ModuleInst"
OPT = "std::option::Option"
VAL = "execution::value::Val"
NUM = "execution::value::Num"

# wasi_snapshot_preview1: guest parameters in order.  i = i32 value, l = i64 value, r1/r2/r4/r8/rs = pointer a result of that many bytes
# (s: a record) is written to on success, b = pointer to a buffer the host works on, p = path pointer (n = its length follows),
# v = pointer to an array of buffers (n = how many follows)
SPEC = {
    "args_get": "b b", "args_sizes_get": "r4 r4", "environ_get": "b b", "environ_sizes_get": "r4 r4",
    "clock_res_get": "i r8", "clock_time_get": "i l r8",
    "fd_advise": "i l l i", "fd_allocate": "i l l", "fd_close": "i", "fd_datasync": "i", "fd_fdstat_get": "i rs",
    "fd_fdstat_set_flags": "i i", "fd_fdstat_set_rights": "i l l", "fd_filestat_get": "i rs", "fd_filestat_set_size": "i l",
    "fd_filestat_set_times": "i l l i", "fd_pread": "i v n l r4", "fd_prestat_get": "i rs", "fd_prestat_dir_name": "i b i",
    "fd_pwrite": "i v n l r4", "fd_read": "i v n r4", "fd_readdir": "i b i l r4", "fd_renumber": "i i", "fd_seek": "i l i r8",
    "fd_sync": "i", "fd_tell": "i r8", "fd_write": "i v n r4",
    "path_create_directory": "i p n", "path_filestat_get": "i i p n rs", "path_filestat_set_times": "i i p n l l i",
    "path_link": "i i p n i p n", "path_open": "i i p n i l l i r4", "path_readlink": "i p n b i r4",
    "path_remove_directory": "i p n", "path_rename": "i p n i p n", "path_symlink": "p n i p n", "path_unlink_file": "i p n",
    "poll_oneoff": "b b i r4", "proc_exit": "i", "proc_raise": "i", "sched_yield": "", "random_get": "b i",
    "sock_accept": "i i r4", "sock_recv": "i v n i r4 r4", "sock_send": "i v n i r4", "sock_shutdown": "i i",
}
NARROW = {("path_open", 4): 16, ("path_open", 7): 16, ("fd_advise", 3): 8, ("fd_fdstat_set_flags", 1): 16, ("fd_seek", 2): 8,
          ("fd_filestat_set_times", 3): 16, ("path_filestat_set_times", 6): 16, ("sock_accept", 1): 16, ("sock_recv", 3): 16,
          ("sock_send", 3): 16, ("sock_shutdown", 1): 8, ("proc_raise", 0): 8}
# how many values of a narrow parameter WASI gives a meaning
NVALID = {("path_open", 4): 16, ("path_open", 7): 32, ("fd_advise", 3): 6, ("fd_fdstat_set_flags", 1): 32, ("fd_seek", 2): 3,
          ("fd_filestat_set_times", 3): 16, ("path_filestat_set_times", 6): 16, ("sock_accept", 1): 32, ("sock_recv", 3): 4,
          ("sock_shutdown", 1): 4, ("proc_raise", 0): 31}


def subs(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.args)
        elif isinstance(x, (tuple, frozenset, list)):
            st.extend(x)
    return seen


def plain(t):
    """a term made of parameters, constants and width changes only: its value is known, so a difference is definite"""
    return all(x.op in ("in", "k", "zext", "sext", "trunc", "padd", "pelem", "cell", "fld", "ref", "pval", "proj") or is_k(x) for x in subs(t))


def unwrap(t):
    while t.op in ("zext", "sext", "trunc", "cast"):
        t = [x for x in t.args if isinstance(x, Term)][-1]
    return t


def depth(t):
    return 1 + max([depth(x) for x in t.args if isinstance(x, Term)] + [depth(y) for x in t.args if isinstance(x, tuple) for y in x if isinstance(y, Term)] + [0])


def cellbyte(a):
    """an arbitrary memory: bytes near one another differ"""
    a &= 0xffffffff
    return (a * 0x9e3779b1 >> 13) & 255


class Wasi:
    def __init__(self, cfg):
        self.cfg = cfg
        self.crate = crates(cfg)[0]["lib"]
        self.R = Result()
        c = self.crate
        kinds = [a for a in c.adts if a.endswith("::WasiFuncType")]
        self.kind = self.only(kinds, "kinds of WASI function")
        self.call = self.only([f for f in c.fns.values() if f.kind in ("fn", "assoc") and any(f.lty(i) in ("&" + self.kind, self.kind) for i in range(1, f.nargs + 1))
                               and "Option<%s>" % VAL in f.lty(0)], "function running a WASI call")
        self.variants = [v[0] for v in c.adts[self.kind]["variants"]]
        self.hosts = set()
        for g in c.fns.values():
            for b in g.blocks:
                t = b["t"]
                if t[0] == "call" and isinstance(t[1], (list, tuple)) and t[1][0] == "k" and "fn" in t[1][1]:
                    d = t[1][1]["fn"]["def"]
                    if d.rsplit("::", 1)[-1].startswith("__wasi_"):
                        self.hosts.add(d)
                    elif d.startswith("wasi::") and d not in c.fns and "lib_generated" in d:
                        self.hosts.add(d)

    def only(self, l, what):
        if len(l) != 1:
            raise Missing("%s (%d)" % (what, len(l)))
        return l[0]

    def bad(self, p, key, text, f=None):
        f = f or self.call
        self.R.findings.append(Finding(p if isinstance(p, tuple) else (p,), key, "%s [%s build]" % (text, self.cfg), "%s (%s:%s)" % (f.name, f.file, f.line) if hasattr(f, "file") else f.name))

    def fields(self, adt):
        return [(x[0], self.crate.types[x[1]]) for x in self.crate.adts[adt]["variants"][0][2]]

    def struct(self, adt, vals):
        v = self.crate.adts[adt]["variants"][0]
        return T("adt", adt, v[0], tuple((x[0], vals[x[0]]) for x in v[2]))

    # -- names --------------------------------------------------------------------------------------------
    def names(self):
        """name -> variant, from the insertions into the map of names"""
        c = self.crate
        r = {}
        for g in c.fns.values():
            if "HashMap<&str, %s" % self.kind not in g.lty(0) and "HashMap<&'static str, %s" % self.kind not in g.lty(0):
                continue
            if g.kind == "static":
                continue
            e = Engine(c)
            seen = {}

            def ins(e, st, cs, a):
                k, v = e.close(st, a[1]), e.close(st, a[2])
                st.ev = st.ev + (("name", k, v),)
                return [(st, T("adt", OPT, "None", ()))]
            pass
            for nm in {b["t"][1][1]["fn"]["def"] for b in g.blocks if b["t"][0] == "call" and b["t"][1][0] == "k" and "fn" in b["t"][1][1]}:
                if nm.endswith("::insert"):
                    e.user_models[nm] = ins
            for o in e.run(g, [], State()) if g.nargs == 0 else e.run(g, [T("in", "self")], State()):
                if o.kind != "ret":
                    continue
                for x in o.st.ev:
                    if x[0] == "name":
                        k = self.text(x[1])
                        if k is None or x[2].op != "adt":
                            raise Unsupported("name %s" % fmt(x[1])[:60])
                        r[k] = x[2].args[1]
        if not r:
            raise Missing("names of WASI functions")
        return r

    def text(self, t):
        for x in subs(t):
            for a in x.args:
                if isinstance(a, str) and x.op in ("s", "str", "k", "const") and re.match(r'^"?[a-z_0-9]+"?$', a):
                    return a.strip('"')
        return None

    # -- one call ------------------------------------------------------------------------------------------
    def params(self, name, vals):
        r = []
        for i, k in enumerate(SPEC[name].split()):
            n = T("adt", NUM, "I64" if k == "l" else "I32", (("0", vals.get(i, T("in", "p", i))),))
            r.append(T("adt", VAL, "Num", (("0", n),)))
        return T("vec", tuple(r))

    def engine(self):
        ms = {}
        for h in self.hosts:
            ms[h] = self.host(h)
        e = Engine(self.crate, models=ms)
        e.unroll = True
        e.budget = 200000
        return e

    def host(self, h):
        short = h.rsplit("::", 1)[-1].replace("__wasi_", "")

        def m(e, st, cs, a):
            n = len([x for x in st.ev if x[0] == "host"])
            st.ev = st.ev + (("host", short, tuple(e.close(st, x) for x in a), tuple(self.bytes_at(e, st, x) for x in a)),)
            if short == "proc_exit":
                return []
            for i, x in enumerate(a):
                if x.op == "ref" and x.args[0].op not in ("pelem", "cell") and not self.is_vec(e, st, x):
                    e.write(st, x.args[0], self.out(short, n, i), event=False)
            return [(st, T("errno", n))]
        return m

    def is_vec(self, e, st, x):
        return any(y.op in ("pelem",) for y in subs(x))

    def bytes_at(self, e, st, x):
        """what the vector a pointer points into holds"""
        y = x
        while isinstance(y, Term) and y.op in ("pelem", "ref", "pval", "cast", "asptr"):
            y = y.args[0]
            if isinstance(y, Term) and y.op in ("L", "loc", "place") or not isinstance(y, Term):
                break
        try:
            return e.close(st, e.read(st, y))
        except Exception:
            return None

    def runtime(self):
        mems = T("vec", (T("in", "mem"),))
        mod = {n: mems if "MemAddr" in t else T("adt", OPT, "Some", (("0", T("rc", self.impl())),)) if "wasi::" in t and t.startswith(OPT) else T("mod", n)
               for n, t in self.fields(MI)}
        return self.struct(MI, mod)

    def impl(self):
        return T("wasi")

    def args(self, name, variant, vals):
        f, r = self.call, []
        for i in range(1, f.nargs + 1):
            ty = f.lty(i)
            if ty.lstrip("&") == self.kind:
                v = T("adt", self.kind, variant, ())
                r.append(T("ref", T("pval", v)) if ty[0] == "&" else v)
            elif VAL in ty:
                v = self.params(name, vals)
                r.append(T("ref", T("pval", v)) if ty[0] == "&" else v)
            elif ty.startswith("&") and ty.lstrip("&").replace("mut ", "") in self.crate.adts:
                adt = ty.lstrip("&").replace("mut ", "")
                if adt == MI:
                    v = self.runtime()
                else:
                    v = self.struct(adt, {n: (T("rc", self.runtime()) if t == "std::rc::Rc<%s>" % MI else T("rt", n)) for n, t in self.fields(adt)})
                r.append(T("ref", T("pval", v)))
            else:
                raise Missing("argument of type " + ty)
        return r


    # -- comparing ---------------------------------------------------------------------------------------
    def envs(self, name):
        """distinguished parameters: all different, with and without the top bit"""
        ks = SPEC[name].split()
        r = []
        for e in range(3):
            env = {}
            for i, k in enumerate(ks):
                x = [0x1001 * (i + 1), 0x80000000 + 0x2003 * (i + 1), 0x7fff0000 - 0x3001 * (i + 1)][e]
                if k == "l":
                    x = x | [0x123 << 40, 0x8000000000000000, 1 << 33][e]
                if (name, i) in NARROW:
                    x = [i + 1, 3, 5][e]
                env[T("in", "p", i)] = x
            r.append(env)
        return r

    def conv(self, t):
        """array elements that were not given are nothing of a parameter"""
        return t

    def equals(self, name, t, j, w=None):
        """is t the parameter j: True, False (definitely another value) or None"""
        m = (1 << w) - 1 if w else (1 << 64) - 1 if SPEC[name].split()[j] == "l" else (1 << 32) - 1
        if (name, j) in NARROW:
            m = (1 << NARROW[(name, j)]) - 1
        for env in self.envs(name):
            v = value(t, env)
            if v is None:
                return None
            if v & m != env[T("in", "p", j)] & m:
                return False
        for x in range(NVALID.get((name, j), 0)) if (name, j) in NARROW else [1 << b for b in range(m.bit_length())]:
            v = value(t, env | {T("in", "p", j): x})
            if v is None:
                return None
            if v & m != x & m:
                return False
        return True

    def address(self, t):
        """X when t is linear memory at X, else None"""
        while t.op in ("cast", "asptr"):
            t = t.args[0]
        if t.op == "padd" and len(t.args) == 3 and t.args[2] == "u8" and self.is_base(t.args[0]):
            return t.args[1]
        if self.is_base(t):
            return K(0, "usize")
        return None

    def is_base(self, t):
        return t.op == "pelem" and any(x is T("in", "mem") for x in subs(t)) and not any(x.op in ("padd", "vec", "push", "extended", "rawslice") for x in subs(t))

    def is_addr(self, name, t, j):
        x = self.address(t)
        if x is None:
            y = value(t, self.envs(name)[0])
            return None if y is None else False         # a bare number is no pointer into the memory
        return self.equals(name, x, j, 32)

    def memload(self, name, t, env, ptr):
        """does t read the 32-bit number in memory at the address ptr?"""
        e = dict(env)
        for x in sorted((x for x in subs(t) if x.op in ("loadidx", "load", "frombytes") or x.op == "init" and x.args[0].op == "idx"), key=lambda x: depth(x)):
            if x.op == "loadidx" and isinstance(x.args[0], int):
                a, n = value(x.args[2], e), x.args[0] // 8
            elif x.op == "init" and self.is_base(T("pelem", x.args[0].args[0])):
                a, n = value(x.args[0].args[1], e), 1
            elif x.op == "load" and x.args[0] in ("u8", "u16", "u32", "u64") and x.args[2] == 0 and self.address(x.args[1]) is not None:
                a, n = value(self.address(x.args[1]), e), int(x.args[0][1:]) // 8
            elif x.op == "frombytes" and x.args[2].op in ("array", "vec"):
                bs = [value(y, e) for y in x.args[2].args[0]]
                if None not in bs:
                    e[x] = sum(b << (8 * k) for k, b in enumerate(bs if x.args[0] == "le" else bs[::-1]))
                continue
            else:
                return None
            if a is None:
                return None
            e[x] = sum(cellbyte(a + k) << (8 * k) for k in range(n))
        v = value(t, e)
        return None if v is None else v & 0xffffffff == sum(cellbyte(ptr + k) << (8 * k) for k in range(4))

    # -- WASI calls ----------------------------------------------------------------------------------------
    def check(self, name, variant):
        R, ks = self.R, SPEC[name].split()
        two = {i: K(2, "i32") for i, k in enumerate(ks) if k == "n" and ks[i - 1] == "v"}
        e = self.engine()
        outs = e.run(self.call, self.args(name, variant, two), State())
        if name in EMULATED:
            return self.emulated(name, outs, e)
        rets = [o for o in outs if o.kind == "ret"]
        ran = [o for o in outs if any(x[0] == "host" for x in o.st.ev)]
        if name == "proc_exit":
            if not rets:
                ran = [1]
        if not ran:
            if all(o.kind == "ret" and o.val.op == "adt" and o.val.args[1] == "Err" for o in outs) and outs:
                self.bad("C16", "call:" + name, "%s is accepted as an import, but calling it always fails without running it" % name)
            else:
                R.undecided(("C16", "C18"), "%s: no host operation on any path" % name)
            return
        for o in outs:
            if o.kind != "ret":
                continue
            hs = [x for x in o.st.ev if x[0] == "host"]
            ok = o.val.op == "adt" and o.val.args[1] == "Ok"
            if not hs:
                self.nohost(name, o, ok, two)
                continue
            if len(hs) != 1:
                R.undecided(("C16", "C18"), "%s: %d host operations" % (name, len(hs)))
                continue
            h = hs[0]
            if h[1] != name:
                self.bad(("C16", "C18"), "op:" + name, "%s runs the host operation %s" % (name, h[1]))
                continue
            self.passed(name, h, o)
            self.results(name, h, o, ok)

    def nohost(self, name, o, ok, two):
        R = self.R
        for c in o.st.conds:
            if any(self.bounds(t) for t in c):
                continue           # a bounds check
            ps = {x for t in c for x in subs(t) if x.op == "in" and x.args[0] == "p"}
            if len(c) == 0 or not all(plain(t) or t.op in CMP for t in c):
                R.undecided("C16", "%s: answered without the host" % name)
                continue
            lens = [i for i, k in enumerate(SPEC[name].split()) if k == "i" and i and SPEC[name].split()[i - 1] == "b"]
            if ok and all(t.op == "in" and t.args[1] in lens and f == (True, frozenset({0})) for t, f in c.items()) and self.num(o.val) is not None \
                    and value(self.num(o.val), {}) == 0:
                R.good("C16", "%s: nothing to do for an empty buffer" % name)
            else:
                self.bad(("C16", "C18"), "skip:" + name, "%s is answered without running the host operation for some arguments (%s)" % (
                    name, "; ".join(sorted(fmt(t)[:60] for t in c))[:160]))

    def bounds(self, t):
        return any(x.op == "len" for x in subs(t)) or t.op == "loadidx"

    def num(self, v):
        """the i32 of Ok(Some(Num(I32(x))))"""
        for a, b in (("Ok", None), ("Some", None), ("Num", None), ("I32", None)):
            if v.op != "adt" or v.args[1] != a:
                return None
            v = v.args[2][0][1]
        return v

    def passed(self, name, h, o):
        """the guest's arguments at the host operation"""
        R, ks = self.R, SPEC[name].split()
        a, mem = h[2], h[3]
        hp = [j for j, k in enumerate(ks) if not (k == "n" and ks[j - 1] == "p")]
        if len(hp) != len(a):
            R.undecided(("C16", "C18"), "%s: host operation with %d arguments" % (name, len(a)))
            return
        for i, j in enumerate(hp):
            k, t = ks[j], a[i]
            what = "%s: argument %d" % (name, j)
            if k in ("i", "l", "n"):
                if k == "n" and ks[j - 1] == "v":
                    v = value(t, {})
                    r = None if v is None else v == 2
                    if v is None and any(x is T("in", "p", j) for x in subs(t)):
                        r = None
                else:
                    r = self.equals(name, t, j)
            elif k == "b" or k == "rs":
                r = self.is_addr(name, t, j)
            elif k[0] == "r":
                if self.address(t) is None and t.op == "ref":
                    continue        # through a local; see results()
                r = self.is_addr(name, t, j)
                if r is not None:
                    (R.good("C18", "%s: the host writes result %d where the guest asked" % (name, j)) if r else
                     self.bad(("C18", "C16"), "res:%s:%d" % (name, j), "%s: result %d is written to another address than the guest gave" % (name, j)))
                    continue
            elif k == "p":
                r = self.path(name, t, j)
            elif k == "v":
                r = self.vector(name, t, mem[i], j, o)
            if r is None:
                R.undecided("C16", "%s is %s" % (what, fmt(t)[:80]))
            elif r is True:
                R.good("C16", "%s reaches the host operation unchanged" % what)
            elif r is False:
                self.bad("C16", "arg:%s:%d" % (name, j), "%s does not reach the host operation (which gets %s)" % (what, fmt(t)[:100]))
            else:
                self.bad("C16", "arg:%s:%d" % (name, j), "%s %s" % (what, r))

    def path(self, name, t, j):
        raw = [x for x in subs(t) if x.op == "rawslice"]
        x = self.address(t)
        if x is not None:
            r = self.equals(name, x, j, 32)
            return "is handed over without its length or a terminator" if r else r
        if len(raw) != 1:
            v = value(t, self.envs(name)[0])
            return None if v is None else False
        a, n = raw[0].args[0], raw[0].args[1]
        r1 = self.is_addr(name, a, j)
        r2 = self.equals(name, n, j + 1, 32)
        if r1 is False or r2 is False:
            return "is not the path the guest gave (%s, %s bytes)" % (fmt(a)[:60], fmt(n)[:40])
        if r1 is None or r2 is None:
            return None
        y = t
        while y.op in ("pelem", "pval", "ref"):
            y = y.args[0]
        if y.op == "push" and is_k(y.args[1]) and y.args[1].args[0] == 0 and raw[0] in subs(y.args[0]) and not any(z.op in ("push", "extended") for z in subs(y.args[0])):
            return True
        if not any(z.op in ("push", "extended", "call", "cstring", "concat") for z in subs(y)):
            return "is handed over without a terminator"
        return None

    def vector(self, name, t, mem, j, o):
        x = self.address(t)
        if x is not None:
            r = self.equals(name, x, j, 32)
            return "is handed over as the guest's own array: the host takes the guest's addresses in it for its own" if r else r
        v = None
        for y in subs(t):
            if y.op == "vec":
                v = y if v is None or len(y.args[0]) > len(v.args[0]) else v
        if v is None:
            return None
        if len(v.args[0]) != 2:
            return "has %d buffers at the host operation instead of 2" % len(v.args[0])
        for n, y in enumerate(v.args[0]):
            if y.op != "adt" or len(y.args[2]) != 2:
                return None
            (_, b), (_, l) = y.args[2]
            for env in self.envs(name):
                at = env[T("in", "p", j)] + 8 * n
                if b.op == "null":
                    if is_k(l):
                        if l.args[0] != 0:
                            return "has a buffer without an address"
                        continue
                    f = o.st.fact(l) or o.st.fact(unwrap(l))
                    if f is None or not (f[0] is True and f[1] == frozenset({0})):
                        if f is None or 0 not in f[1] or f[0] is True:
                            return None
                        return "has a buffer without an address"
                    r = self.memload(name, l, env, at + 4)
                    if not r:
                        return r if r is None else "has a buffer %d of another length than the guest's" % n
                    continue
                ba = self.address(b)
                if ba is None:
                    return None
                r = self.memload(name, ba, env, at)
                if not r:
                    return r if r is None else "has a buffer %d at another address than the guest's" % n
                r = self.memload(name, l, env, at + 4)
                if not r:
                    return r if r is None else "has a buffer %d of another length than the guest's" % n
        return True

    def results(self, name, h, o, ok):
        R, ks = self.R, SPEC[name].split()
        x = self.num(o.val)
        fact = o.st.fact(T("errno", 0))
        good = fact == (True, frozenset({0}))
        fail = fact is not None and (fact[0] is False and 0 in fact[1] or fact[0] is True and 0 not in fact[1])
        if not ok:
            (self.bad(("C16", "C18"), "errno:" + name, "%s: a host error becomes a failure of the program instead of an error number" % name)
             if fail else R.undecided("C18", "%s: fails after the host operation" % name))
        elif x is None:
            if name != "proc_exit":
                self.bad(("C16", "C18"), "errno:" + name, "%s returns no error number" % name)
        else:
            vs = [value(x, {T("errno", 0): n}) for n in ((0,) if good else (8, 44, 76) if fail else (0, 8, 44, 76))]
            ns = (0,) if good else (8, 44, 76) if fail else (0, 8, 44, 76)
            if any(v is None for v in vs):
                R.undecided(("C16", "C18"), "%s: result %s" % (name, fmt(x)[:60]))
            elif tuple(vs) != ns:
                self.bad(("C16", "C18"), "errno:" + name, "%s returns %d where the host's error number is %d" % (name, [v for v, n in zip(vs, ns) if v != n][0], [n for v, n in zip(vs, ns) if v != n][0]))
            else:
                R.good("C16", "%s returns the host's error number" % name)
                R.good("C18", "%s returns the host's error number" % name)
        hp = [j for j, k in enumerate(ks) if not (k == "n" and ks[j - 1] == "p")]
        stores = self.stores(o)
        if stores is None:
            R.undecided("C18", "%s: effects on memory" % name)
            return
        todo = {}
        for i, j in enumerate(hp):
            if ks[j][0] == "r" and len(hp) == len(h[2]) and h[2][i].op == "ref" and self.address(h[2][i]) is None and ks[j] != "rs":
                todo[j] = (T("out", name, i), int(ks[j][1]))
        left = list(stores)
        for j, (v, w) in todo.items():
            mine = [s for s in left if any(y is v for y in subs(s[1]))]
            for s in mine:
                left.remove(s)
            if fail:
                if mine:
                    self.bad("C18", "onfail:%s:%d" % (name, j), "%s: result %d is written although the host operation failed" % (name, j))
                else:
                    R.good("C18", "%s: result %d is not written on failure" % (name, j))
                continue
            if not mine:
                if good or fact is None:
                    self.bad("C18", "lost:%s:%d" % (name, j), "%s: result %d is not written for the guest" % (name, j))
                continue
            if not good:
                self.bad("C18", "onfail:%s:%d" % (name, j), "%s: result %d is written although the host operation may have failed" % (name, j))
                continue
            if len(mine) != 1:
                R.undecided("C18", "%s: result %d is written %d times" % (name, j, len(mine)))
                continue
            a, y, sw = mine[0]
            ra = self.equals(name, a, j, 32)
            m = 0x123456789abcdef0 & ((1 << (8 * w)) - 1)
            env = dict(self.envs(name)[0])
            env[v] = m
            yv = value(y, env)
            if ra is False:
                self.bad("C18", "res:%s:%d" % (name, j), "%s: result %d is written to another address than the guest gave" % (name, j))
            elif sw is not None and sw != w:
                self.bad("C18", "width:%s:%d" % (name, j), "%s: result %d is written with %d bytes instead of %d" % (name, j, sw, w))
            elif yv is not None and yv != m:
                self.bad("C18", "value:%s:%d" % (name, j), "%s: result %d is written as another number" % (name, j))
            elif ra is None or sw is None or yv is None:
                R.undecided("C18", "%s: result %d" % (name, j))
            else:
                R.good("C18", "%s: result %d written with %d bytes at the guest's address" % (name, j, w))
        for a, y, w in left:
            if is_k(y) or plain(y):
                if fail or not good:
                    self.bad("C18", "onfail:%s:other" % name, "%s: guest memory is written although the host operation may have failed" % name)
                else:
                    R.undecided("C18", "%s: a write besides its results" % name)
            else:
                R.undecided("C18", "%s: a write besides its results" % name)

    def stores(self, o):
        """[(address, number, bytes)] written to linear memory, or None"""
        r = []
        for x in o.st.ev:
            if x[0] == "host":
                continue
            if x[0] == "store":
                a = self.address(x[2])
                w = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "f32": 4, "f64": 8}.get(x[1])
                if a is None or w is None:
                    return None
                r.append((a, x[3], w))
            elif x[0] == "memcpy":
                a = self.address(x[3])
                if a is None:
                    return None
                y = x[2]
                while y.op in ("pelem", "pval", "ref"):
                    y = y.args[0]
                n = value(x[4], {})
                if y.op == "bytesof":
                    if not (x[4].op == "len" and x[4].args[0] is y) and n != y.args[1] // 8:
                        return None
                    if y.args[0] != "le":
                        return None
                    r.append((a, y.args[2], y.args[1] // 8))
                else:
                    r.append((a, y, None))
            elif x[0] in ("loop", "w"):
                if any(z.op == "in" and z.args[0] == "mem" for z in subs(x)):
                    return None
        return r

    # -- arguments and environment, which the interpreter lays out itself ------------------------------------
    def strings(self):
        c = self.crate
        a = [x for x in c.adts if x.startswith("wasi::") and any("Vec<std::string::String>" in t for _, t in (self.fields(x) if len(c.adts[x]["variants"]) == 1 else ()))]
        a = self.only(a, "holder of the program's arguments")
        return self.struct(a, {n: T("vec", tuple(T("arg", T("n", i)) for i in range(3))) if "Vec<std::string::String>" in t else T("im", n) for n, t in self.fields(a)})

    def emulated(self, name, outs, e):
        R = self.R
        ls = [T("len", T("arg", T("n", i))) for i in range(3)]
        for lens in ((3, 1, 6), (0, 4, 2), (2, 0, 0)):
            self.emulated1(name, outs, ls, lens)

    def emulated1(self, name, outs, ls, lens):
        R = self.R
        for o in outs:
            if o.kind != "ret":
                R.undecided(("C16", "C18"), "%s: may stop abruptly" % name)
                continue
            x = self.num(o.val)
            hs = [h for h in o.st.ev if h[0] == "host"]
            if x is None:
                R.undecided(("C16", "C18"), "%s: result" % name)
                continue
            failed = None
            for n, h in enumerate(hs):
                f = o.st.fact(T("errno", n))
                if f is None or not (f[0] is True and f[1] == frozenset({0})):
                    failed = n
            stores = self.stores(o)
            if failed is not None:
                v = value(x, {T("errno", failed): 28})
                if v is None or stores is None:
                    R.undecided(("C16", "C18"), "%s: when the host fails" % name)
                elif v != 28:
                    self.bad(("C16", "C18"), "errno:" + name, "%s returns %d where the host's error number is 28" % (name, v))
                elif stores:
                    self.bad("C18", "onfail:" + name, "%s: guest memory is written although the host operation failed" % name)
                else:
                    R.good("C18", "%s: a host failure is handed on and nothing written" % name)
                continue
            v = value(x, {T("errno", n): 0 for n in range(len(hs))})
            if v is None:
                R.undecided(("C16", "C18"), "%s: result" % name)
            elif v:
                self.bad(("C16", "C18"), "errno:" + name, "%s returns %d on success" % (name, v))
            else:
                R.good("C16", "%s: succeeds with 0" % name)
            if name.startswith("environ") and any(h[1] not in ("environ_sizes_get", "environ_get") for h in hs):
                self.bad("C16", "op:" + name, "%s runs the host operation %s" % (name, [h[1] for h in hs]))
                continue
            for env in self.envs(name):
                env = dict(env)
                env.update(dict(zip(ls, lens)))
                env.update({l.args[0]: n for l, n in zip(ls, lens)})
                if any(not self.holds(t, f, env, lens) for c in o.st.conds for t, f in c.items()):
                    continue            # not with arguments of these lengths
                if name.endswith("sizes_get"):
                    want = (3, sum(lens) + 3) if name.startswith("args") else (2, 9)
                    self.sizes(name, stores, env, want)
                else:
                    self.layout(name, o, env, lens)

    def sizes(self, name, stores, env, want):
        if stores is None or len(stores) != 2:
            if stores is not None and len(stores) < 2:
                self.bad("C18", "lost:" + name, "%s: a result is not written" % name)
            else:
                self.R.undecided(("C16", "C18"), "%s: effects on memory" % name)
            return
        got = {}
        for a, y, w in stores:
            av, yv = value(a, env), self.sum(y, env)
            if av is None or yv is None or w is None:
                self.R.undecided(("C16", "C18"), "%s: %s" % (name, fmt(y)[:80]))
                return
            got[av & 0xffffffff] = (yv & ((1 << 8 * w) - 1), w)
        exp = {env[T("in", "p", i)] & 0xffffffff: (want[i], 4) for i in range(2)}
        if got == exp:
            self.R.good("C18", "%s: count and size at the guest's addresses" % name)
            self.R.good("C16", "%s: count and size" % name)
        else:
            self.bad(("C16", "C18"), "sizes:" + name, "%s: the count or size written is not that of the %s" % (name, "arguments" if name[0] == "a" else "environment"))

    def sum(self, t, env):
        v = value(t, env)
        if v is not None:
            return v
        e = dict(env)
        for x in sorted((x for x in subs(t) if x.op == "reduce" and x.args[0] == "sum" and x.args[1].op == "vec"), key=lambda x: len(fmt(x))):
            vs = [value(y, e) for y in x.args[1].args[0]]
            if None in vs:
                return None
            e[x] = sum(vs)
        return value(t, e)

    def seq(self, t):
        """bytes of a byte sequence: [("le", bits, number) | ("byte", number) | ("str", i)] or None"""
        if t.op == "extended":
            a, b = self.seq(t.args[0]), self.seq(t.args[1])
            return None if a is None or b is None else a + b
        if t.op == "push":
            a = self.seq(t.args[0])
            return None if a is None else a + [("byte", t.args[1])]
        if t.op == "bytesof" and t.args[0] == "le":
            return [("le", t.args[1], t.args[2])]
        if t.op == "arg":
            return [("str", t.args[0].args[0])]
        if t.op == "n" and len(t.args) == 1 and isinstance(t.args[0], int):
            return [("str", t.args[0])]
        if t.op == "vec":
            return [("byte", x) for x in t.args[0]]
        if t.op in ("strbytes", "pval", "ref", "deref", "asbytes") and len(t.args) == 1:
            return self.seq(t.args[0])
        return None

    def holds(self, t, f, env, lens):
        v = value(t, self.lengths(t, env, lens))
        return v is None or (v in f[1]) == f[0]

    def lengths(self, t, env, lens):
        r = dict(env)
        for x in subs(t):
            if x.op == "len" and x.args[0].op in ("push", "extended", "vec"):
                q = self.seq(x.args[0])
                if q is not None:
                    r[x] = sum(y[1] // 8 if y[0] == "le" else 1 if y[0] == "byte" else lens[y[1]] for y in q)
        return r

    def layout(self, name, o, env, lens):
        R = self.R
        parts = []
        for x in o.st.ev:
            if x[0] == "memcpy":
                y = x[2]
                while y.op in ("pelem", "pval", "ref"):
                    y = y.args[0]
                a = self.address(x[3])
                parts.append((a, y))
            elif x[0] == "store":
                R.undecided(("C16", "C18"), "%s: layout" % name)
                return
        p = [env[T("in", "p", i)] for i in range(2)]
        if name == "environ_get":
            return self.envlayout(name, o, env, parts)
        at = {}
        for a, y in parts:
            s = self.seq(y)
            v = None if a is None else value(a, env)
            if s is None or v is None:
                R.undecided(("C16", "C18"), "%s: layout" % name)
                return
            pos = v & 0xffffffff
            for q in s:
                if q[0] == "le":
                    z = value(q[2], self.lengths(q[2], env, lens))
                    if z is None:
                        R.undecided(("C16", "C18"), "%s: pointers" % name)
                        return
                    for b in range(q[1] // 8):
                        at[(pos + b) & 0xffffffff] = z >> (8 * b) & 255
                    pos += q[1] // 8
                elif q[0] == "byte":
                    z = value(q[1], env)
                    if z is None:
                        R.undecided(("C16", "C18"), "%s: bytes" % name)
                        return
                    at[pos & 0xffffffff] = z & 255
                    pos += 1
                else:
                    for b in range(lens[q[1]]):
                        at[(pos + b) & 0xffffffff] = ("arg", q[1], b)
                    pos += lens[q[1]]
        want, pos = {}, p[1]
        for i, n in enumerate(lens):
            for b in range(4):
                want[(p[0] + 4 * i + b) & 0xffffffff] = pos >> (8 * b) & 255
            for b in range(n):
                want[(pos + b) & 0xffffffff] = ("arg", i, b)
            want[(pos + n) & 0xffffffff] = 0
            pos += n + 1
        bad = [a for a in want if at.get(a) != want[a]]
        extra = [a for a in at if a not in want]
        if bad or extra:
            self.bad(("C16", "C18"), "layout:" + name, "%s: the argument pointers or strings written are not those of the arguments" % name)
        else:
            R.good("C16", "%s: pointers and strings of three arguments" % name)
            R.good("C18", "%s: pointers and strings of three arguments" % name)

    def envlayout(self, name, o, env, parts):
        """pointers moved from the host's buffer to the guest's, then the strings"""
        R = self.R
        hs = [h for h in o.st.ev if h[0] == "host"]
        if len(parts) != 2 or any(a is None for a, _ in parts):
            R.undecided(("C16", "C18"), "%s: layout" % name)
            return
        byaddr = {}
        for a, y in parts:
            v = value(a, env)
            byaddr[None if v is None else v & 0xffffffff] = y
        p = [env[T("in", "p", i)] & 0xffffffff for i in range(2)]
        if set(byaddr) != set(p):
            if None in byaddr:
                R.undecided(("C16", "C18"), "%s: layout" % name)
            else:
                self.bad(("C16", "C18"), "layout:" + name, "%s: the environment is written to other addresses than the guest's" % name)
            return
        s = self.seq(byaddr[p[0]])
        if s is None or any(q[0] != "le" or q[1] != 32 for q in s):
            if s is None and byaddr[p[0]].op == "from_elem":
                self.bad(("C16", "C18"), "layout:" + name, "%s: the strings are written where the pointers belong" % name)
            else:
                R.undecided(("C16", "C18"), "%s: pointers" % name)
            return
        if len(s) != 2:
            self.bad(("C16", "C18"), "layout:" + name, "%s: %d pointers for two variables" % (name, len(s)))
            return
        for n, q in enumerate(s[:2]):
            off = [x for x in subs(q[2]) if x.op == "call" or "offset_from" in str(x.op)] or [x for x in subs(q[2]) if "offset_from" in fmt(x)]
            if value(q[2], env) == 0:
                continue           # a missing string
            got = None
            for x in sorted(off, key=lambda x: len(fmt(x))):
                e2 = dict(env)
                e2[x] = 5
                got = value(q[2], e2)
                if got is not None:
                    mine = "%d:i64" % n in fmt(x)
                    break
            if got is None:
                R.undecided(("C16", "C18"), "%s: pointers" % name)
                return
            if got & 0xffffffff != (env[T("in", "p", 1)] + 5) & 0xffffffff:
                self.bad(("C16", "C18"), "layout:" + name, "%s: a pointer does not point at its string in the guest's buffer" % name)
                return
        R.good("C16", "%s: pointers moved to the guest's buffer" % name)
        R.good("C18", "%s: pointers moved to the guest's buffer" % name)

    # -- declared types --------------------------------------------------------------------------------------
    def types(self, names):
        c = self.crate
        fs = [f for f in c.fns.values() if f.nargs == 1 and f.lty(1) in ("&" + self.kind, self.kind) and f.lty(0).endswith("::FuncType")]
        used = fs
        if not used:
            raise Missing("types of WASI functions")
        for f in used:
            for name, variant in sorted(names.items()):
                v = T("adt", self.kind, variant, ())
                for o in Engine(c).run(f, [T("ref", T("pval", v)) if f.lty(1)[0] == "&" else v], State()):
                    if o.kind != "ret" or o.val.op != "adt":
                        self.R.undecided("C16", "type of " + name)
                        continue
                    got = {}
                    for n, y in o.val.args[2]:
                        y = y if y.op == "vec" else None
                        got[n] = None if y is None else "".join("l" if any(z.op == "adt" and z.args[1] == "I64" for z in subs(q)) else "i" if any(
                            z.op == "adt" and z.args[1] == "I32" for z in subs(q)) else "?" for q in y.args[0])
                    exp = "".join("l" if k == "l" else "i" for k in SPEC[name].split())
                    res = "" if name == "proc_exit" else "i"
                    if got.get("params") is None or got.get("results") is None:
                        self.R.undecided("C16", "type of " + name)
                    elif (got["params"], got["results"]) != (exp, res):
                        self.bad("C16", "type:" + name, "%s is given the type (%s)->(%s) instead of (%s)->(%s)" % (name, got["params"], got["results"], exp, res), f)
                    else:
                        self.R.good("C16", "type of " + name)

    def run(self):
        names = self.names()
        seen = {}
        self.impl = self.strings
        for name, variant in sorted(names.items()):
            if name not in SPEC:
                self.R.undecided(("C16", "C18"), "function " + name)
                continue
            try:
                self.check(name, variant)
            except (Budget, Unsupported, Missing) as x:
                self.R.undecided(("C16", "C18"), "%s: %s" % (name, str(x)[:80]))
        try:
            self.types({n: v for n, v in names.items() if n in SPEC})
        except (Budget, Unsupported, Missing) as x:
            self.R.undecided("C16", "types: %s" % str(x)[:80])
        self.R.scope["%s: WASI functions accepted" % self.cfg] = len(names)
        self.R.scope["%s: host operations declared" % self.cfg] = len(self.hosts)
        return self.R

    def out(self, short, n, i):
        if short == "environ_sizes_get":
            return K((2, 9)[i], "u32")
        return T("out", short, i)


CMP = {"Lt", "LtU", "LtS", "Le", "LeU", "LeS", "Gt", "Ge", "Eq", "Ne", "And", "Or"}
EMULATED = {"args_get", "args_sizes_get", "environ_get", "environ_sizes_get"}


def run(cfg, tier="quick"):
    return Wasi(cfg).run()


if __name__ == "__main__":
    import sys
    sys.setrecursionlimit(100000)
    R = run(sys.argv[1] if len(sys.argv) > 1 else "legacy")
    print(R.ok, R.scope)
    for p, d in R.undet.items():
        for k, n in list(d.items())[:12]:
            print("  und", p, n, k)
    seen = set()
    for f in R.findings:
        if f.key not in seen:
            seen.add(f.key)
            print("  FIND", sorted(f.props), f.key, f.text)
