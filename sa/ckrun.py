"""Checkpoint and restore: what is put into the file, what is taken out of it, and what a failing step does."""
from base import *
import re
from engine import Frame, Budget, Unsupported
from models import SOME, NONE, OPT, RES, OK, ERR, UNIT, rd, payload, strip_refs, dref
from opsem import Missing
from result import Result, Finding
from serrun import Ser, inner


def strip_box(v):
    return v


VS = "execution::state::VMState"
FS = "execution::state::FrameStack"
LS = "execution::state::LabelStack"
MI = "execution::module::ModuleInst"


def file_models(me):
    """The file system, the compressor and the serialiser, as operations that may fail."""
    def may(nm, val, ret=lambda e, st, a: UNIT, effect=None):
        def m(e, st, cs, a):
            xs = tuple(e.close(st, val(e, st, x)) for x in a)
            bad = st.copy()
            bad.ev = bad.ev + (("io", nm, False) + xs,)
            st.ev = st.ev + (("io", nm, True) + xs,)
            v = ret(e, st, a)
            if effect:
                effect(e, st, a)
            return [(st, OK(v)), (bad, ERR(T("ioerr", nm)))]
        return m

    def plain(e, st, x):
        return strip_refs(e, st, x)

    def fill(e, st, a):
        e.write(st, dref(e, a[1]), T("filebytes", strip_refs(e, st, a[0])), event=False)

    def un_all(v):
        return v

    def deser(e, st, cs, a):
        x = e.close(st, rd(e, st, a[0]))
        bad = st.copy()
        bad.ev = bad.ev + (("io", "decode", False, x),)
        st.ev = st.ev + (("io", "decode", True, x),)
        return [(st, OK(me.decoded(x))), (bad, ERR(T("ioerr", "decode")))]

    def val(e, st, cs, a):
        return [(st, T("lz4", e.close(st, rd(e, st, a[0]))))]

    def ser(e, st, cs, a):
        x = e.close(st, rd(e, st, a[0]))
        if not me.whole(x):          # a part, encoded for its size
            return [(st, OK(T("bin", x)))]
        bad = st.copy()
        bad.ev = bad.ev + (("io", "encode", False, x),)
        st.ev = st.ev + (("io", "encode", True, x),)
        return [(st, OK(T("bin", x))), (bad, ERR(T("ioerr", "encode")))]

    def serinto(e, st, cs, a):
        x = e.close(st, rd(e, st, a[1]))
        w = strip_refs(e, st, a[0])
        bad = st.copy()
        bad.ev = bad.ev + (("io", "write_all", False, w, T("bin", x)),)
        st.ev = st.ev + (("io", "write_all", True, w, T("bin", x)),)
        return [(st, OK(UNIT)), (bad, ERR(T("ioerr", "encode")))]

    def bufw(e, st, cs, a):
        return [(st, T("buffered", a[-1]))]

    def deserfrom(e, st, cs, a):
        x = T("filebytes", strip_refs(e, st, a[0]))
        bad = st.copy()
        bad.ev = bad.ev + (("io", "decode", False, x),)
        st.ev = st.ev + (("io", "decode", True, x),)
        return [(st, OK(me.decoded(x))), (bad, ERR(T("ioerr", "decode")))]
    F = lambda mode: (lambda e, st, a: T("file", mode, strip_refs(e, st, a[0])))
    r = {"std::fs::File::create": may("create", plain, F("w")), "std::fs::File::open": may("open", plain, F("r")),
         "std::fs::read": may("read", plain, lambda e, st, a: T("filebytes", T("file", "r", strip_refs(e, st, a[0])))),
         "std::fs::write": may("fswrite", plain), "std::fs::rename": may("rename", plain), "std::fs::remove_file": may("remove", plain),
         "bincode::serialize": ser, "bincode::deserialize": deser, "bincode::serialize_into": serinto, "bincode::deserialize_from": deserfrom,
         "lz4_flex::compress_prepend_size": val, "lz4_flex::block::compress_prepend_size": val,
         "std::io::BufWriter::<W>::new": bufw, "std::io::BufReader::<R>::new": bufw}

    def decomp(e, st, a):
        x = e.close(st, rd(e, st, a[0]))
        return T("unlz4", x)
    for n in ("lz4_flex::decompress_size_prepended", "lz4_flex::block::decompress_size_prepended"):
        r[n] = may("decompress", lambda e, st, x: rd(e, st, x), decomp)
    for meth, nm in (("write_all", "write_all"), ("write", "write"), ("flush", "flush"), ("read_to_end", "read_to_end"), ("read_exact", "read_part"), ("read", "read_part")):
        m = may(nm, plain, (lambda e, st, a: T("count")), fill if nm == "read_to_end" else None) if nm != "read_part" else \
            may(nm, plain, lambda e, st, a: T("count"), lambda e, st, a: e.write(st, dref(e, a[1]), T("filepart", T("nth", len(st.ev))), event=False))
        for t in ("<std::fs::File as std::io::%s>::", "std::io::%s::", "<&std::fs::File as std::io::%s>::", "<std::io::BufWriter<W> as std::io::%s>::", "<std::io::BufReader<R> as std::io::%s>::"):
            r[(t % ("Write" if meth in ("write_all", "write", "flush") else "Read")) + meth] = m
    for meth in ("sync_all", "sync_data"):
        r["std::fs::File::" + meth] = may("sync", plain)
    return r


class Ck:
    def __init__(self, cfg):
        self.cfg = cfg
        self.crate = c = crates(cfg)[0]["lib"]
        self.R = Result()
        self.ser = Ser(c)
        fns = [f for f in c.fns.values() if f.kind in ("fn", "assoc")]
        self.save = self.only([f for f in fns if f.lty(0).startswith(RES + "<(), ") and any(f.lty(i) == "&" + VS for i in range(1, f.nargs + 1))
                               and any(f.lty(i).endswith(MI) for i in range(1, f.nargs + 1))], "checkpoint function")
        self.load = self.only([f for f in fns if f.lty(0).startswith(RES + "<" + VS + ", ") and f.nargs == 2
                               and f.lty(1) in ("std::rc::Rc<%s>" % MI, "&std::rc::Rc<%s>" % MI)], "restore function")
        self.root = self.root_type()
        self.clone_of, self.inexact = {}, []
        self.copies = self.clones()

    def root_type(self):
        """the type that is written: it holds the stacks and can be written and read"""
        r = [t for t in self.ser.writers if t in self.crate.adts and t in self.ser.readers and len(self.crate.adts[t]["variants"]) == 1
             and any(self.crate.types[x[1]] == VS for x in self.fields(t))]
        if len(r) != 1:
            raise Missing("type holding a checkpoint: %s" % r)
        return r[0]

    def only(self, l, what):
        if len(l) != 1:
            raise Missing("%s: %s" % (what, [f.name for f in l]))
        return l[0]

    def where(self, f):
        return "%s (%s)" % (f.name, getattr(f, "span", "") or "")

    def bad(self, props, key, text, f):
        self.R.findings.append(Finding(props, key, "%s [%s build]" % (text, self.cfg), self.where(f)))

    def fields(self, adt):
        return self.crate.adts[adt]["variants"][0][2]

    def field(self, adt, p, what):
        r = [x[0] for x in self.fields(adt) if p(self.crate.types[x[1]])]
        if len(r) != 1:
            raise Missing("%s of %s: %s" % (what, adt, r))
        return r[0]

    def struct(self, adt, vals):
        v = self.crate.adts[adt]["variants"][0]
        return T("adt", adt, v[0], tuple((x[0], vals[x[0]]) for x in v[2]))

    # -- taking a checkpoint ------------------------------------------------------------------------------
    def live(self, nframes, nlabels):
        fr = []
        for i in range(nframes):
            vals = {}
            for n, t, *_ in self.fields(FS):
                ty = self.crate.types[t]
                if ty == "std::vec::Vec<%s>" % LS:
                    ls = []
                    for j in range(nlabels):
                        ls.append(self.struct(LS, {m: T("body", i) if "ProcessedInstr" in self.crate.types[u] else T("lab", i, j, m)
                                                   for m, u, *_ in self.fields(LS)}))
                    vals[n] = T("vec", tuple(ls))
                else:
                    vals[n] = T("handlers", i) if "Handler" in ty or "fn(&" in ty else T("frame", i, n)
            fr.append(self.struct(FS, vals))
        vals = {n: T("vec", tuple(fr)) if self.crate.types[t] == "std::vec::Vec<%s>" % FS else T("st", n) for n, t, *_ in self.fields(VS)}
        return self.struct(VS, vals)

    def module(self, nf, nm, ng):
        vals = {}
        for n, t, *_ in self.fields(MI):
            ty = self.crate.types[t]
            k = {"std::vec::Vec<execution::func::FuncAddr>": nf, "std::vec::Vec<execution::mem::MemAddr>": nm,
                 "std::vec::Vec<execution::global::GlobalAddr>": ng}.get(ty)
            vals[n] = T("mod", n) if k is None else T("vec", tuple(T("in", n, j) for j in range(k)))
        return self.struct(MI, vals)

    def whole(self, x):
        return x.op == "adt" and x.args[0] == self.root

    def clones(self):
        """Copies made by the crate's own Clone implementations: those that are shown to be exact need not be followed again."""
        r = {}
        for f in self.crate.fns.values():
            m = re.match(r"^<(.*) as std::clone::Clone>::clone$", f.name)
            if not m or m.group(1) not in self.crate.adts or f.nargs != 1:
                continue
            ty = m.group(1)
            self.clone_of[f.name] = ty
            x = T("orig")
            try:
                e = Engine(self.crate)
                outs = e.run(f, [T("ref", T("pval", x))], State())
                if all(o.kind == "ret" and not o.st.ev and self.same(e, o.val, x, ty, o.st) for o in outs):
                    r[f.name] = lambda e, st, cs, a: [(st, e.close(st, rd(e, st, a[0])))]
                    continue
            except (Budget, Unsupported):
                pass
            self.inexact.append(ty)
        return r

    def same(self, e, v, x, ty, st):
        """v is x, piecewise"""
        v = strip_box(v)
        if v is x:
            return True
        if v.op == "adt" and v.args[0] in self.crate.adts:
            vs = self.crate.adts[v.args[0]]["variants"]
            if len(vs) > 1:
                f = st.fact(T("disc", x)) or st.fact(T("disc", T("pval", x)))
                if f is not None and f != (True, frozenset({e.crate.vdiscr(v.args[0], v.args[1])})):
                    return False
            for n, y in v.args[2]:
                z = e.project(x, "%s.%s" % (v.args[1], n) if len(vs) > 1 else n)
                if not self.same(e, y, z, None, st):
                    return False
            return True
        return False

    def engine(self, extra=None):
        ms = file_models(self)
        ms.update(self.copies)
        ms.update(extra or {})
        e = Engine(self.crate, models=ms)
        e.unroll = True
        return e

    def decoded(self, x):
        raise Unsupported("a checkpoint is read while one is taken")

    def ref(self, v):
        return T("ref", T("pval", v))

    def save_args(self, mod, live):
        mv = dict(mod.args[2])
        f, r = self.save, []
        for i in range(1, f.nargs + 1):
            ty = f.lty(i)
            if ty in ("&" + MI, "&std::rc::Rc<%s>" % MI):
                r.append(self.ref(mod if ty == "&" + MI else T("rc", mod)))
            elif ty == "&" + VS:
                r.append(self.ref(live))
            elif ty.startswith(("&[", "&std::vec::Vec<")) and ty.rstrip("]>").endswith(("MemAddr", "GlobalAddr", "TableAddr", "FuncAddr")):
                n = [n for n, t, *_ in self.fields(MI) if self.crate.types[t].endswith(ty.rstrip("]>").split("::")[-1] + ">")]
                if len(n) != 1:
                    raise Missing("argument of type " + ty)
                r.append(self.ref(mv[n[0]]))
            else:
                r.append(T("path"))
        return r

    def path_of(self, t):
        """is t the path the caller gave (through as_ref and the like)?"""
        while isinstance(t, Term) and t.op in ("call", "ref", "deref", "pval", "pure"):
            xs = [x for x in t.args if isinstance(x, Term)] + [y for x in t.args if isinstance(x, tuple) for y in x if isinstance(y, Term)]
            if len(xs) != 1:
                return False
            t = xs[0]
        return t is T("path")

    def take(self, nf, nm, ng, nfr, nl):
        """one shape of the state: nf functions, nm memories, ng globals, nfr frames of nl labels"""
        R, f = self.R, self.save
        mod, live = self.module(nf, nm, ng), self.live(nfr, nl)
        e = self.engine()
        outs = e.run(f, self.save_args(mod, live), State())
        n = 0
        for o in outs:
            io = [x for x in o.st.ev if x[0] == "io"]
            if o.kind != "ret":
                continue
            v = strip_box(o.val)
            if v.op != "adt" or v.args[0] != RES:
                R.undecided("C15", "checkpoint: result %s" % fmt(v)[:60])
                continue
            failed = [x for x in io if not x[2]]
            ok = v.args[1] == "Ok"
            if failed and ok:
                if failed[-1][1] in ("remove",):
                    continue
                self.bad("C15", "save-%s-ignored" % failed[-1][1], "checkpoint: reports success although %s failed" % WORD.get(failed[-1][1], failed[-1][1]), f)
                continue
            if failed:
                R.good("C15", "checkpoint: a failure of %s is reported" % WORD.get(failed[-1][1], failed[-1][1]))
                continue
            if not ok:
                R.undecided("C15", "checkpoint: refused for a reason of its own")
                continue
            n += 1
            self.written(o, io, live, nf, nm, ng, nfr, nl)
        if not n:
            R.undecided(("C12", "C15"), "checkpoint: no successful outcome")

    def written(self, o, io, live, nf, nm, ng, nfr, nl):
        R, f = self.R, self.save
        content, dirty = {}, {}
        for x in io:
            k, a = x[1], x[3:]
            if k == "create":
                content[T("file", "w", a[0])] = ()
            elif k in ("write_all", "write"):
                w = a[0]
                b = w
                while b.op == "buffered":
                    b = b.args[0]
                content[b] = content.get(b, ()) + ((k, a[1]),)
                if w.op == "buffered":
                    dirty[b] = True
            elif k == "flush":
                b = a[0]
                while b.op == "buffered":
                    b = b.args[0]
                dirty[b] = False
            elif k == "fswrite":
                content[T("file", "w", a[0])] = (("write_all", a[1]),)
            elif k == "rename":
                src, dst = T("file", "w", a[0]), T("file", "w", a[1])
                content[dst] = content.pop(src, ())
                dirty[dst] = dirty.pop(src, False)
        fin = [(k, c) for k, c in content.items() if self.path_of(k.args[1])]
        if len(fin) != 1:
            if not content:
                self.bad(("C12", "C15"), "save-nothing", "checkpoint: reports success without writing the file it was asked to write", f)
            else:
                R.undecided(("C12", "C15"), "checkpoint: destination of the data")
            return
        k, c = fin[0]
        if dirty.get(k):
            self.bad("C15", "save-unflushed", "checkpoint: reports success while part of the data may still be in a buffer whose final write is not checked", f)
            return
        roots = [x[1] for x in c if x[1].op == "bin" and self.whole(x[1].args[0])]
        if not c:
            self.bad(("C12", "C15"), "save-empty", "checkpoint: reports success with nothing written", f)
            return
        if len(c) != 1 or len(roots) != 1:
            R.undecided(("C12", "C15"), "checkpoint: layout of the file")
            return
        if c[0][0] == "write":
            self.bad("C15", "save-partial", "checkpoint: reports success although the write may have stored only part of the state", f)
            return
        R.good("C15", "checkpoint: success only after the whole state was encoded and written")
        v = roots[0].args[0]
        for n, t, *_ in self.fields(self.root):
            ty = self.crate.types[t]
            x = e_project(v, n)
            if ty == VS:
                self.compare(x, live, "checkpoint", f, "C12", skip=True)
            elif ty == "std::vec::Vec<u8>":
                self.memory(x, nm, f)
            elif ty == "std::vec::Vec<execution::value::Val>":
                self.globals(x, ng, f)
            elif ty in ("std::vec::Vec<u32>", "std::vec::Vec<usize>"):
                self.indices(x, o, nf, nfr, f)
            else:
                R.undecided("C12", "checkpoint: %s" % n)


def e_project(v, n):
    return dict(v.args[2])[n]


WORD = {"encode": "encoding the state", "create": "creating the file", "write_all": "writing the file", "write": "writing the file", "fswrite": "writing the file",
        "flush": "flushing the file", "sync": "syncing the file", "rename": "putting the file in place", "open": "opening the file", "read": "reading the file",
        "read_to_end": "reading the file", "decode": "decoding the state", "decompress": "decompressing the memory", "gset": "setting a global"}


LEAF = {"frame", "lab", "body", "handlers", "st", "in", "mod", "k", "adt", "vec", "proj", "cell", "deref", "fld", "init", "idx", "val", "rc", "got", "default",
        "kept", "gval", "fidx", "mdata", "dptr", "Add", "Sub", "zext", "trunc", "nul", "weak", "lz4", "unlz4", "ptr", "pval", "ref", "tuple", "len", "array"}


def leafy(t):
    if isinstance(t, tuple):
        return all(leafy(x) for x in t)
    if not isinstance(t, Term):
        return True
    return t.op in LEAF and all(leafy(x) for x in t.args)


def mentions(t, p):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            if p(x):
                return True
            st.extend(x.args)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)
    return False


def owner(t, n):
    """the j of the only in(n, j) t is made from"""
    r = set()
    st, seen = [t], set()
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "in" and x.args[0] == n:
                r.add(x.args[1])
            st.extend(x.args)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)
    return r.pop() if len(r) == 1 else None


class Ck2(Ck):
    """comparison of what is saved and what is restored"""

    def skipped(self, adt):
        """fields of a type that are not in the file"""
        if adt not in self._skip:
            w, _ = self.ser.written(adt)
            x = list(w.values())
            self._skip[adt] = {f[0] for f in self.fields(adt)} - {t.args[0] for t in x[0][2] if t.op == "orig"} if len(x) == 1 and x[0][0] == "ok" else set()
        return self._skip[adt]

    def diff(self, got, want, where, f, props, skip=False, path=""):
        """[(path, verdict)] of the places where got is not want"""
        got, want = strip_box(got), strip_box(want)
        if got is want:
            return []
        e = self._e
        if want.op == "adt" and got.op == "adt" and want.args[0] == got.args[0]:
            if want.args[1] != got.args[1]:
                return [(path, True)]
            g, r = dict(got.args[2]), []
            for n, y in want.args[2]:
                if skip and self.ser.local(want.args[0]) and len(self.crate.adts[want.args[0]]["variants"]) == 1 and n in self.skipped(want.args[0]):
                    continue
                r += self.diff(g[n], y, where, f, props, skip, path + "." + n)
            return r
        if want.op == "vec" and got.op == "vec":
            if len(want.args[0]) != len(got.args[0]):
                return [(path + "[len]", True)]
            r = []
            for i, (a, b) in enumerate(zip(got.args[0], want.args[0])):
                r += self.diff(a, b, where, f, props, skip, path + "[]")
            return r
        if got.op == "adt" and got.args[0] in self.crate.adts and len(self.crate.adts[got.args[0]]["variants"]) == 1:
            r = []
            for n, y in got.args[2]:
                if skip and self.ser.local(got.args[0]) and n in self.skipped(got.args[0]):
                    continue
                r += self.diff(y, e.project(want, n), where, f, props, skip, path + "." + n)
            return r
        if want.op == "adt" and len(self.crate.adts.get(want.args[0], {"variants": [1, 2]})["variants"]) == 1:
            r = []
            for n, y in want.args[2]:
                if skip and self.ser.local(want.args[0]) and n in self.skipped(want.args[0]):
                    continue
                r += self.diff(e.project(got, n), y, where, f, props, skip, path + "." + n)
            return r
        return [(path, leafy(got))]

    def compare(self, got, want, who, f, props, skip=False):
        d = self.diff(got, want, who, f, props, skip)
        for path, sure in d:
            p = re.sub(r"^\.", "", path)
            if sure:
                self.bad(props, "%s:%s" % (who, p), "%s: %s is not what it was" % (who, p), f)
            else:
                self.R.undecided(props, "%s: %s" % (who, p))
        if not d:
            for x in ([props] if isinstance(props, str) else props):
                self.R.good(x, "%s: every live frame, label and register carried over" % who)

    def codec(self, x):
        """(how the memory contents are put, from which memory)"""
        how = []
        while x.op in ("lz4", "unlz4", "bin"):
            how.append(x.op)
            x = x.args[0]
        return tuple(how), x


def run(cfg, tier="quick"):
    k = Full(cfg)
    for f in (k.shapes, k.save_all, k.load_all, k.state_kinds):
        try:
            f()
        except (Missing, Unsupported, Budget) as e:
            k.R.undecided(("C12", "C13", "C15"), "%s: %s" % (f.__name__, str(e)[:160]))
    return k.R


class Full(Ck2):
    def __init__(self, cfg):
        self._skip = {}
        super().__init__(cfg)
        self._e = Engine(self.crate)
        self.saved_mem, self.saved_glob = {}, {}

    # -- the written form -------------------------------------------------------------------------------
    def shapes(self):
        """every value written is read back where it came from"""
        R, c = self.R, self.crate
        todo, seen = [self.root], set()
        while todo:
            ty = todo.pop()
            if ty in seen:
                continue
            seen.add(ty)
            if not (ty in c.adts and self.ser.local(ty)):
                todo += inner(ty) if "<" in ty else []
                m = re.match(r"^\[(.*?)(; .*)?\]$", ty)
                if m:
                    todo.append(m.group(1))
                continue
            try:
                w, wf = self.ser.written(ty)
                r, rf = self.ser.read(ty)
            except (Missing, Unsupported, Budget) as ex:
                R.undecided(("C12", "C13"), "written form of %s: %s" % (ty, str(ex)[:100]))
                continue
            self.shape(ty, w, wf, r, rf, todo)
        R.scope["%s: types in a checkpoint" % self.cfg] = len([t for t in seen if t in c.adts])

    def flat(self, puts):
        """values written in a row; a tuple writes its parts in a row"""
        r = []
        for y in puts:
            z = y
            while z.op in ("ref", "pval"):
                z = z.args[0]
            r += self.flat(z.args[0]) if z.op == "tuple" else [y if z.op != "orig" else z]
        return tuple(r)

    def shape(self, ty, w, wf, r, rf, todo):
        R, c = self.R, self.crate
        short = ty.split("::")[-1]
        if "short" in r:
            self.bad("C15", "read:%s:short" % short, "reading %s succeeds although the data ended or failed" % short, rf)
        for vi, v in enumerate(c.adts[ty]["variants"]):
            x = w[v[0]]
            what = short if len(c.adts[ty]["variants"]) == 1 else "%s::%s" % (short, v[0])
            if x[0] == "swallow":
                self.bad("C15", "write:%s:swallow" % what, "writing %s succeeds although a part of it could not be written" % what, wf)
                continue
            if x[0] == "refuse":
                if self.storable(ty, v):
                    self.bad("C12", "refuse:%s" % what, "a checkpoint fails whenever the program holds a %s" % what, wf)
                continue
            tag, puts = x[1], x[2]
            if tag is None and len(c.adts[ty]["variants"]) > 1:
                R.undecided(("C12", "C13"), "written form of %s without its kind" % what)
                continue
            rs = r.get(tag, set())
            oks = [y for y in rs if y[0] == "ok"]
            if not oks:
                if rs or tag not in r:
                    self.bad(("C12", "C13"), "read:%s:refused" % what, "%s is written but refused when read" % what, rf)
                continue
            if len(oks) != 1:
                R.undecided(("C12", "C13"), "%d ways to read %s" % (len(oks), what))
                continue
            val, n = strip_box(oks[0][1]), oks[0][2]
            puts = self.flat(puts)
            if n != len(puts):
                direct = [y for y in dict(val.args[2]).values() if y.op == "got"] if val.op == "adt" else []
                if not all(y.op == "orig" for y in puts) or len(direct) != n:
                    R.undecided(("C12", "C13"), "%s is written as %d values and read as %d" % (what, len(puts), n))
                    continue
                self.bad(("C12", "C13"), "shape:%s:count" % what, "%s is written as %d values and read as %d" % (what, len(puts), n), rf)
                continue
            if val.op != "adt" or val.args[0] != ty:
                R.undecided(("C12", "C13"), "value read for %s" % what)
                continue
            if val.args[1] != v[0]:
                self.bad(("C12", "C13"), "shape:%s:kind" % what, "%s is read back as %s" % (what, val.args[1]), rf)
                continue
            g = dict(val.args[2])
            for fn, ft, *_ in v[2]:
                y = self.fill(g[fn], puts)
                if y is T("orig", fn):
                    R.good("C12", "%s.%s is written and read back in place" % (what, fn))
                    todo.append(c.types[ft])
                elif y is None:
                    R.undecided(("C12", "C13"), "%s.%s" % (what, fn))
                elif mentions(y, lambda t: t.op == "orig"):
                    if leafy(self.plainorig(y)):
                        self.bad(("C12", "C13"), "shape:%s.%s" % (what, fn), "%s.%s is read back as something else than was written" % (what, fn), rf)
                    else:
                        R.undecided(("C12", "C13"), "%s.%s read back" % (what, fn))
                else:
                    self.lost.setdefault(ty, {})[fn] = y

    lost = {}

    def plainorig(self, y):
        if isinstance(y, tuple):
            return tuple(self.plainorig(x) for x in y)
        if not isinstance(y, Term):
            return y
        return T("got") if y.op == "orig" else T(y.op, *[self.plainorig(x) for x in y.args])

    def fill(self, t, puts):
        if isinstance(t, tuple):
            return tuple(self.fill(x, puts) for x in t)
        if not isinstance(t, Term):
            return t
        if t.op == "got":
            i = t.args[0].args[0]
            return puts[i] if i < len(puts) else T("nothing")
        return T(t.op, *[self.fill(x, puts) for x in t.args])

    # -- checkpoint -------------------------------------------------------------------------------------
    def save_all(self):
        for s in ((1, 1, 1, 1, 1), (2, 1, 2, 2, 2), (2, 0, 0, 1, 2), (2, 1, 3, 1, 1)):
            nf, nm, ng, nfr, nl = s
            try:
                self.take(nf, nm, ng, nfr, nl)
            except Budget as e:
                self.R.undecided(("C12", "C15"), "checkpoint of shape %s" % (s,))
        self.R.scope["%s: checkpoint shapes" % self.cfg] = 4

    def memory(self, x, nm, f):
        R = self.R
        how, y = self.codec(x)
        if nm == 0:
            return
        if y.op == "vec" and not y.args[0]:
            self.bad(("C12", "C13"), "save:memory:none", "checkpoint: the linear memory is left out", f)
        elif y.op in ("fld", "init") and owner(y, self.memf) == 0 and self.memdata(y):
            self.saved_mem[how] = 1
            R.good("C12", "checkpoint: the whole linear memory, as %s" % ("/".join(how) or "is"))
        elif mentions(y, lambda t: t.op in ("range", "sub", "slice", "truncated", "subseq", "rsub")) and leafy(self.unrange(y)):
            self.bad(("C12", "C13"), "save:memory:part", "checkpoint: only a part of the linear memory is saved", f)
        else:
            R.undecided("C12", "checkpoint: memory contents %s" % fmt(y)[:80])

    def unrange(self, y):
        if isinstance(y, tuple):
            return tuple(self.unrange(x) for x in y)
        if not isinstance(y, Term):
            return y
        return T("val" if y.op in ("range", "sub", "slice", "truncated", "subseq", "rsub") else y.op, *[self.unrange(x) for x in y.args])

    def memdata(self, y):
        p = y.args[0] if y.op == "init" else y
        return p.op == "fld" and p.args[0].op == "cell"

    @property
    def memf(self):
        return self.field(MI, lambda t: t == "std::vec::Vec<execution::mem::MemAddr>", "memories")

    @property
    def globf(self):
        return self.field(MI, lambda t: t == "std::vec::Vec<execution::global::GlobalAddr>", "globals")

    @property
    def funcf(self):
        return self.field(MI, lambda t: t == "std::vec::Vec<execution::func::FuncAddr>", "functions")

    def globals(self, x, ng, f):
        R = self.R
        if x.op != "vec":
            R.undecided("C12", "checkpoint: globals %s" % fmt(x)[:60])
            return
        if len(x.args[0]) != ng:
            self.bad(("C12", "C13"), "save:globals:count", "checkpoint: %d of %d globals are saved" % (len(x.args[0]), ng), f)
            return
        m = []
        for y in x.args[0]:
            p = y.args[0] if y.op == "init" else y
            j = owner(y, self.globf)
            if j is None or p.op != "fld" or p.args[0].op != "cell":
                R.undecided("C12", "checkpoint: global value %s" % fmt(y)[:60])
                return
            m.append(j)
        self.saved_glob[ng] = m
        if sorted(m) != list(range(ng)):
            self.bad(("C12", "C13"), "save:globals:some", "checkpoint: some global is saved twice and another not at all", f)
        else:
            R.good("C12", "checkpoint: the value of every global")

    def indices(self, x, o, nf, nfr, f):
        R = self.R
        if x.op != "vec":
            R.undecided(("C12", "C13"), "checkpoint: function of each frame")
            return
        if len(x.args[0]) != nfr:
            self.bad(("C12", "C13"), "save:functions:count", "checkpoint: the functions of %d of %d frames are saved" % (len(x.args[0]), nfr), f)
            return
        for i, y in enumerate(x.args[0]):
            if not is_k(y):
                R.undecided(("C12", "C13"), "checkpoint: function of a frame %s" % fmt(y)[:60])
                return
            j = y.args[0]
            for c in o.st.conds:
                same, other, neg = False, False, False
                for t, (pos, vals) in c.items():
                    if t.op != "ptreq":
                        continue
                    fr = {s for s in (0, 1, 2) if mentions(t, lambda q: q.op in ("body", "handlers") and q.args[0] == s)}
                    fn = owner(t, self.funcf)
                    if fr != {i} or fn is None:
                        continue
                    eq = (1 in vals) == pos
                    if eq and fn == j:
                        same = True
                    elif eq:
                        other = True
                    elif fn == j:
                        neg = True
                if same and not neg:
                    R.good(("C12"), "checkpoint: a frame is saved with the function whose code it runs")
                    R.good(("C13"), "checkpoint: a frame is saved with the function whose code it runs")
                elif not leafy(tuple(t for t in c)) and not any(t.op == "ptreq" for t in c):
                    R.undecided(("C12", "C13"), "checkpoint: how the function of a frame is told")
                else:
                    self.bad(("C12", "C13"), "save:functions:which", "checkpoint: a frame is saved with %s" % (
                        "a function other than the one it runs" if other or neg else "a function that was not compared with the one it runs"), f)
                    return

    def take(self, nf, nm, ng, nfr, nl):
        super().take(nf, nm, ng, nfr, nl)

    # -- restore ----------------------------------------------------------------------------------------
    def build(self, ty, nfr, nl, ng, nidx, path):
        """the value decoding yields for a type: what was written, and the reader's own values elsewhere"""
        c = self.crate
        if ty == "std::vec::Vec<%s>" % FS:
            return T("vec", tuple(self.build(FS, nfr, nl, ng, nidx, (i,)) for i in range(nfr)))
        if ty == "std::vec::Vec<%s>" % LS:
            return T("vec", tuple(self.build(LS, nfr, nl, ng, nidx, path + (j,)) for j in range(nl)))
        if ty == "std::vec::Vec<execution::value::Val>" and not path:
            return T("vec", tuple(T("gval", j) for j in range(ng)))
        if ty in ("std::vec::Vec<u32>", "std::vec::Vec<usize>") and not path:
            return T("vec", tuple(T("fidx", j) for j in range(nidx)))
        if ty == "std::vec::Vec<u8>" and not path:
            return T("mdata")
        if ty == self.root or self.stateful(ty):
            r, _ = self.ser.read(ty)
            v = [y for y in r.get(None, ()) if y[0] == "ok"]
            if len(v) != 1:
                raise Missing("reader of " + ty)
            v = v[0][1]
            w, _ = self.ser.written(ty)
            puts = self.flat(list(w.values())[0][2])
            ft = {n: c.types[t] for n, t, *_ in self.fields(ty)}
            def sub(t):
                if t.op == "got" and t.args and is_k(t.args[0]):
                    if t.args[0].args[0] >= len(puts):
                        raise Missing("what is read for " + ty)
                    q = puts[t.args[0].args[0]]
                    if q.op == "orig":
                        return self.build(ft[q.args[0]], nfr, nl, ng, nidx, path) if self.stateful(ft[q.args[0]]) \
                            or ty == self.root or any(self.stateful(z) for z in inner(ft[q.args[0]])) else T("kept", ty.split("::")[-1], path, q.args[0])
                return T(t.op, *[sub(x) if isinstance(x, Term) else tuple(sub2(y) for y in x) if isinstance(x, tuple) else x for x in t.args])

            def sub2(y):
                return sub(y) if isinstance(y, Term) else tuple(sub2(z) for z in y) if isinstance(y, tuple) else y
            return sub(v)
        return T("kept", ty, path)

    def stateful(self, ty):
        """a record of the interpreter's state"""
        return ty in self.crate.adts and self.ser.local(ty) and len(self.crate.adts[ty]["variants"]) == 1 and ty.rsplit("::", 1)[0] == VS.rsplit("::", 1)[0]

    def decoded(self, x):
        while x.op in ("range", "sub", "slice", "pval"):
            if x.op != "pval":
                raise Unsupported("a part of the file is decoded")
            x = x.args[0]
        if not (x.op == "filebytes" and self.path_of(self.unfile(x.args[0]))):
            raise Unsupported("decoded bytes %s" % fmt(x)[:80])
        return self.value

    def unfile(self, t):
        while t.op == "buffered":
            t = t.args[0]
        return t.args[1]

    def load_all(self):
        n = 0
        for nm, ng, mg, nfr, nl, nidx in ((1, 2, 2, 2, 2, 2), (1, 1, 1, 3, 1, 3), (0, 0, 0, 1, 3, 1), (0, 1, 1, 0, 1, 0), (1, 2, 1, 1, 1, 1), (1, 1, 2, 1, 1, 1),
                                          (1, 1, 1, 2, 1, 1), (1, 1, 1, 1, 1, 2)):
            try:
                self.load_one(nm, ng, mg, nfr, nl, nidx)
                n += 1
            except Budget:
                self.R.undecided(("C13", "C15"), "restore of %d frames, %d globals" % (nfr, ng))
        self.R.scope["%s: restore shapes" % self.cfg] = n

    def load_one(self, nm, ng, mg, nfr, nl, nidx):
        """nm memories, ng globals in the file, mg in the module, nfr frames of nl labels, nidx functions named"""
        R, f = self.R, self.load
        self.value = self.build(self.root, nfr, nl, ng, nidx, ())
        vals = {}
        for n, t, *_ in self.fields(MI):
            ty = self.crate.types[t]
            k = {"std::vec::Vec<execution::mem::MemAddr>": nm, "std::vec::Vec<execution::global::GlobalAddr>": mg}.get(ty)
            vals[n] = T("mod", n) if k is None else T("vec", tuple(T("in", n, j) for j in range(k)))
        mod = T("rc", self.struct(MI, vals))
        gset = [g.name for g in self.crate.fns.values() if g.kind in ("fn", "assoc") and g.nargs == 2 and g.lty(1) == "&execution::global::GlobalAddr"
                and g.lty(2) == "execution::value::Val"]

        def gs(e, st, cs, a):
            x = (e.close(st, rd(e, st, a[0])), e.close(st, a[1]))
            if not cs.rty().startswith(RES):
                st.ev = st.ev + (("gset",) + x,)
                return [(st, UNIT)]
            bad = st.copy()
            bad.ev = bad.ev + (("io", "gset", False) + x,)
            st.ev = st.ev + (("io", "gset", True) + x,)
            return [(st, OK(UNIT)), (bad, ERR(T("ioerr", "gset")))]

        def ptr(e, st, cs, a):
            p = dref(e, a[0])
            st.ev = st.ev + (("ptr", p),)
            return [(st, T("dptr", p, sum(1 for x in st.ev if x[0] == "w" and x[1] is p)))]
        ms = {n: gs for n in gset}
        for n in ("std::vec::Vec::<T>::as_ptr", "std::vec::Vec::<T>::as_mut_ptr", "std::vec::Vec::<T, A>::as_ptr", "std::vec::Vec::<T, A>::as_mut_ptr",
                  "core::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_mut_ptr"):
            ms[n] = ptr
        e = self.engine(ms)
        args = [mod if f.lty(1).startswith("std::rc") else self.ref(mod), T("path")]
        some = False
        for o in e.run(f, args, State()):
            if o.kind != "ret":
                if any(x[0] == "io" and not x[2] for x in o.st.ev):
                    R.undecided("C15", "restore: stops abruptly when something fails")
                continue
            v = o.val
            if v.op != "adt" or v.args[0] != RES:
                R.undecided(("C13", "C15"), "restore: result %s" % fmt(v)[:60])
                continue
            failed = [x for x in o.st.ev if x[0] == "io" and not x[2]]
            ok = v.args[1] == "Ok"
            if failed:
                w = WORD.get(failed[-1][1], failed[-1][1])
                if ok and failed[-1][1] != "remove":
                    self.bad("C15", "load-%s-ignored" % failed[-1][1], "restore: resumes although %s failed" % w, f)
                elif not ok:
                    R.good("C15", "restore: a failure of %s is reported" % w)
                continue
            if not ok:
                continue
            for c in o.st.conds:
                some |= self.loaded(o, c, e, mod, nm, ng, mg, nfr, nl, nidx)
        if not some and ng == mg and nidx == nfr:
            R.undecided(("C13", "C15"), "restore: no successful outcome")
        if not some and (ng != mg or nidx != nfr):
            R.good("C15", "restore: a checkpoint that does not fit is refused")

    def loaded(self, o, c, e, mod, nm, ng, mg, nfr, nl, nidx):
        R, f = self.R, self.load
        if ng != mg:
            self.bad("C15", "load:globals:mismatch", "restore: a checkpoint of %d globals is applied to a module of %d" % (ng, mg), f)
            return True
        if nidx < nfr:
            self.bad("C15", "load:frames:mismatch", "restore: a checkpoint naming %d functions for %d frames is resumed" % (nidx, nfr), f)
            return True
        if nidx > nfr:
            self.bad("C15", "load:frames:mismatch", "restore: a checkpoint naming %d functions for %d frames is resumed" % (nidx, nfr), f)
            return True
        if nm == 0:
            l = c.get(T("len", T("mdata")))
            if l is not None and (0 in l[1]) != l[0]:
                self.bad("C15", "load:memory:mismatch", "restore: a checkpoint with a memory is applied to a module without one", f)
                return True
        got = e.close(o.st, o.val.args[2][0][1])
        # memory
        if nm:
            ws = [x for x in o.st.ev if x[0] == "w" and owner(x[1], self.memf) == 0]
            if not ws:
                self.bad(("C12", "C13"), "load:memory:none", "restore: the linear memory is not restored", f)
            elif len(ws) == 1 and self.memdata(ws[0][1]):
                how, y = self.codec(ws[0][2])
                if y is not T("mdata"):
                    (self.bad(("C12", "C13"), "load:memory:other", "restore: the linear memory is not given the saved contents", f) if leafy(y)
                     else R.undecided("C13", "restore: memory contents %s" % fmt(y)[:80]))
                else:
                    inv = tuple({"lz4": "unlz4"}.get(h, h) for h in reversed(list(self.saved_mem)[0])) if len(self.saved_mem) == 1 else None
                    if inv is None:
                        R.undecided("C13", "restore: memory encoding")
                    elif how != tuple(reversed(inv)):
                        self.bad(("C12", "C13"), "load:memory:codec", "the memory is saved as %s but restored as %s" % (list(self.saved_mem)[0], how), f)
                    else:
                        R.good("C13", "restore: the whole linear memory")
            else:
                R.undecided("C13", "restore: %d writes of the memory" % len(ws))
        # globals
        gs = [x[-2:] for x in o.st.ev if (x[0] == "gset" or x[0] == "io" and x[1] == "gset")]
        gs += [(x[1], x[2]) for x in o.st.ev if x[0] == "w" and owner(x[1], self.globf) is not None]
        m = {}
        for a, b in gs:
            m[owner(a, self.globf)] = b
        src = self.saved_glob.get(ng, list(range(ng)))
        for j in range(ng):
            b = m.get(j)
            if b is None:
                self.bad(("C12", "C13"), "load:globals:none", "restore: a global keeps its initial value", f)
            elif b.op == "gval":
                if src[b.args[0]] != j:
                    self.bad(("C12", "C13"), "load:globals:order", "restore: a global is given the value of another", f)
                else:
                    R.good("C13", "restore: every global's value")
            else:
                R.undecided("C13", "restore: global %s" % fmt(b)[:60])
        self.frames(o, c, e, got, mod, nm, nfr, nl)
        return True

    def frames(self, o, c, e, got, mod, nm, nfr, nl):
        R, f = self.R, self.load
        self._e = e
        want = self.field(VS, lambda t: t == "std::vec::Vec<%s>" % FS, "frames")
        sv = [v for n, v in self.value.args[2] if v.op == "adt" and v.args[0] == VS][0]
        self.compare(got, sv, "restore", f, "C13", skip=True)
        g = e.project(got, want)
        if g.op != "vec" or len(g.args[0]) != nfr:
            if g.op != "vec":
                R.undecided("C13", "restore: frames %s" % fmt(g)[:60])
            return
        memplace = None
        for i, fr in enumerate(g.args[0]):
            self.rebuilt(o, c, e, fr, i, nm, nfr, mod)

    def rebuilt(self, o, c, e, fr, i, nm, nfr, mod):
        R, f = self.R, self.load
        for adt, val, path in self.walk(e, fr):
            for n, t, *_ in self.fields(adt):
                if n not in self.skipped(adt):
                    continue
                ty = self.crate.types[t]
                v = e.project(val, n)
                name = "%s.%s" % (adt.split("::")[-1], n)
                if "Weak<%s>" % MI in ty:
                    r = self.is_module(v, mod)
                elif ty == "bool" and self.set_later(adt, n):
                    continue           # the checkpointing flag is set when the runtime starts
                elif "ProcessedInstr" in ty or "Handler" in ty or "fn(&" in ty:
                    r = self.is_code(v, i, "body" if "ProcessedInstr" in ty else "handlers", c)
                elif ty == "std::option::Option<execution::mem::MemAddr>":
                    r = self.is_mem(v, nm)
                elif ty == "std::option::Option<*mut u8>":
                    r = self.is_ptr(o, v, nm)
                else:
                    r = self.plainlost(e, o, adt, n, v)
                if r is True:
                    R.good("C13", "restore: %s re-derived from the module" % name)
                elif r is None:
                    R.undecided("C13", "restore: %s is %s" % (name, fmt(v)[:80]))
                else:
                    self.bad(("C12", "C13"), "load:%s" % name, "restore: %s %s" % (name, r), f)

    def prog(self):
        """functions a running program can reach"""
        if not hasattr(self, "_prog"):
            from vmcheck import Vm
            run = [f.name for f in self.crate.fns.values() if f.kind in ("fn", "assoc") and f.nargs == 1 and f.lty(1) == "&mut execution::runtime::Runtime"
                   and f.lty(0).startswith("std::result::Result<std::vec::Vec<")]
            self._prog = self.reach(list(Vm(self.cfg).handlers) + run, stop={self.save.name, self.load.name})
        return self._prog

    def set_later(self, adt, n):
        """is the field assigned while a program runs?"""
        m, _, _ = self.touched(self.prog(), {adt})
        return (adt, n) in m

    def plainlost(self, e, o, adt, n, v):
        """a field left out of the file and left constant, that running code gives other values and uses"""
        if mentions(v, lambda t: t.op in ("kept", "fidx", "gval", "mdata", "filebytes", "in", "init", "call")) or not (
                leafy(v) or self.empty(v) or is_k(v) or v.op in ("bool", "unit", "default") or v.op == "vec" and not v.args[0]):
            return None
        prog = {x for x in self.prog() if not re.search(r"std::fmt|std::clone::Clone|serde", x)}
        m, u, _ = self.touched(prog, {adt})
        if (adt, n) not in u:
            return None
        ty = self.crate.types[[x[1] for x in self.fields(adt) if x[0] == n][0]]
        if re.search(r"\bRegs?\b", ty) and self.empty(v):
            return "is left empty: where a pending result goes is lost"
        if (adt, n) in m:
            return None
        k = [x[0] for x in self.fields(adt)].index(n)
        varies = None
        for g in sorted(prog):
            for b in self.crate.fns[g].blocks:
                for x in b["s"]:
                    if x[0] == "=" and x[2][0] == "agg" and x[2][1][0] == "adt" and x[2][1][1] == adt and x[2][2][k][0] != "k":
                        varies = g
        return "is left %s, though running frames are given other values (in %s) and these are used" % (fmt(v)[:40], varies.split("::", 1)[-1]) if varies else None

    def walk(self, e, v, path=()):
        if v.op == "adt" and v.args[0] in self.crate.adts and len(self.crate.adts[v.args[0]]["variants"]) == 1 and v.args[0].startswith("execution::state"):
            yield v.args[0], v, path
            for n, y in v.args[2]:
                yield from self.walk(e, y, path + (n,))
        elif v.op == "vec":
            for y in v.args[0]:
                yield from self.walk(e, y, path)
        elif v.op == "upd":
            raise Unsupported("partly updated state")

    def empty(self, v):
        return v.op == "default" or v.op == "rc" and v.args[0].op == "vec" and not v.args[0].args[0] or v.op in ("vec",) and not v.args[0] or v is NONE

    def is_module(self, v, mod):
        if self.empty(v):
            return "is left dangling"
        return True if v.op in ("weak", "downgrade") and (mod in v.args or mentions(v, lambda t: t is mod)) or v is mod else None

    def code_of(self, v):
        """('body'|'handlers', position of the function index) v is taken from"""
        x = v
        if x.op == "init":
            x = x.args[0]
        fn = [q for q in self.subs(x) if q.op == "fidx"]
        return x, fn

    def subs(self, t):
        st, seen = [t], set()
        while st:
            x = st.pop()
            if isinstance(x, Term):
                if x in seen:
                    continue
                seen.add(x)
                st.extend(x.args)
            elif isinstance(x, (tuple, frozenset)):
                st.extend(x)
        return seen

    def is_code(self, v, i, kind, c):
        if self.empty(v):
            return "is left empty"
        x, fn = self.code_of(v)
        if len(fn) != 1:
            return None
        if fn[0].args[0] != i:
            return "of one frame is taken from the function of another frame"
        if x.op not in ("fld", "proj") or str(x.args[1]).split(".")[-1] != self.codef(kind):
            return None
        return True

    def codef(self, kind):
        """the field of a function that holds its code"""
        k = [x[0] for a, d in self.crate.adts.items() if a.endswith("::Func") for x in d["variants"][0][2]
             if ("ProcessedInstr" in self.crate.types[x[1]] if kind == "body" else "Handler" in self.crate.types[x[1]] or "fn(&" in self.crate.types[x[1]])]
        if len(k) != 1:
            raise Missing("code of a function")
        return k[0]

    def is_mem(self, v, nm):
        if v.op != "adt" or v.args[0] != OPT:
            return None
        if nm == 0:
            return True if v is NONE else None
        if v is NONE:
            return "is left out although the module has a memory"
        j = owner(v, self.memf)
        return True if j == 0 else None

    def is_ptr(self, o, v, nm):
        if v.op != "adt" or v.args[0] != OPT:
            return None
        if nm == 0:
            return True if v is NONE else None
        if v is NONE:
            return "is left out although the module has a memory"
        p = v.args[2][0][1]
        d = [q for q in self.subs(p) if q.op == "dptr"]
        if len(d) != 1 or owner(d[0], self.memf) != 0:
            return None
        last = sum(1 for x in o.st.ev if x[0] == "w" and x[1] is d[0].args[0])
        return True if d[0].args[1] == last else "points into the memory as it was before its contents were replaced"

    # -- everything a program can change -----------------------------------------------------------------
    def reach(self, roots, stop=()):
        """functions of the crate reachable from roots, through calls, closures and function values"""
        seen, todo = set(), list(roots)
        while todo:
            n = todo.pop()
            if n in seen or n in stop or n not in self.crate.fns:
                continue
            seen.add(n)
            for b in self.crate.fns[n].blocks:
                for x in b["s"]:
                    todo += self.named(x)
                todo += self.named(b["t"])
        return seen

    def named(self, x):
        r, st = [], [x]
        while st:
            y = st.pop()
            if isinstance(y, dict):
                if "fn" in y:
                    f = y["fn"]
                    r.append(f.get("res") or f["def"])
                st.extend(y.values())
            elif isinstance(y, (list, tuple)):
                if len(y) >= 2 and y[0] == "closure" and isinstance(y[1], str):
                    r.append(y[1])
                st.extend(y)
        return r

    def cells(self):
        """types an instance keeps behind interior mutability"""
        c, seen, todo, r = self.crate, set(), [MI], set()
        while todo:
            t = todo.pop()
            if t in seen or t not in c.adts:
                continue
            seen.add(t)
            for v in c.adts[t]["variants"]:
                for x in v[2]:
                    ty = c.types[x[1]]
                    for m in re.finditer(r"(?:RefCell|UnsafeCell|Cell|Mutex|RwLock)<([\w:]+)>", ty):
                        if m.group(1) in c.adts:
                            r.add(m.group(1))
                    if t.startswith(("execution::", "structure::", "wasi::")):
                        todo += re.findall(r"[A-Za-z_][\w:]*::\w+", ty)
        return {t for t in r if t in c.adts and len(c.adts[t]["variants"]) == 1}

    def touched(self, fns, cells):
        """({(type, field) that may be changed}, {(type, field) used}, sites)"""
        c = self.crate
        mut, use, sites = set(), set(), {}

        def owners(f, pl):
            ty = f.lty(pl[0])
            r = []
            for e in pl[1:]:
                if e == "*":
                    ty = re.sub(r"^(&(mut )?|\*(mut|const) )", "", ty)
                    continue
                if e[0] == "f":
                    t = ty if ty in c.adts else None
                    if t in cells:
                        r.append((t, e[2]))
                    fs = {x[0]: c.types[x[1]] for x in c.adts[t]["variants"][0][2]} if t else {}
                    ty = fs.get(e[2], "?")
                    continue
                ty = "?"
            return r

        def places(x):
            if isinstance(x, (list, tuple)):
                if x and isinstance(x[0], int) and len(x) > 1 and all(y == "*" or isinstance(y, (list, tuple)) and y and y[0] in ("f", "d", "i", "ci", "sub", "o") for y in x[1:]):
                    yield x
                    return
                for y in x:
                    yield from places(y)
        for n in fns:
            f = c.fns[n]
            for b in f.blocks:
                for x in b["s"] + [b["t"]]:
                    for pl in places(x):
                        use.update(owners(f, pl))
                    if x[0] == "=":
                        w = list(x[1]) if len(x[1]) > 1 else None
                        for pl in ([w] if w else []) + ([x[2][2]] if x[2][0] in ("ref", "raw") and x[2][1] not in (0, "const", "shared") else []):
                            for o in owners(f, pl)[-1:]:
                                mut.add(o)
                                sites.setdefault(o, set()).add(n)
        return mut, use, sites

    def state_kinds(self):
        from vmcheck import Vm
        R = self.R
        v = Vm(self.cfg)
        cells = self.cells()
        run = [f.name for f in self.crate.fns.values() if f.kind in ("fn", "assoc") and f.nargs == 1 and f.lty(1) == "&mut execution::runtime::Runtime"
               and f.lty(0).startswith("std::result::Result<std::vec::Vec<")]
        prog = self.reach(list(v.handlers) + run, stop={self.save.name, self.load.name})
        m, u, sites = self.touched(prog, cells)
        _, saved, _ = self.touched(self.reach([self.save.name]), cells)
        restored, _, _ = self.touched(self.reach([self.load.name]), cells)
        R.scope["%s: functions a program can run" % self.cfg] = len(prog)
        R.scope["%s: mutable instance fields" % self.cfg] = len(m)
        for o in sorted(m):
            if o not in u and o not in saved:
                continue
            name = "%s.%s" % (o[0].split("::")[-1], o[1])
            if o in saved and o in restored:
                R.good("C12", "%s, which a program can change, is saved and restored" % name)
            elif o in restored and o not in saved:
                R.good("C12", "%s is set again by restore" % name)
            else:
                f = self.crate.fns[sorted(sites[o])[0]]
                self.bad("C12", "lost:%s" % name, "a program can change %s (in %s), but a checkpoint does not hold it: the resumed program sees its initial value" % (
                    name, ", ".join(sorted(x.split("::", 1)[-1] for x in sites[o]))), f)

    def storable(self, ty, v):
        """can a running program make this variant?"""
        if not hasattr(self, "_made"):
            from vmcheck import Vm
            self._made = set()
            start = [f.name for f in self.crate.fns.values() if f.kind in ("fn", "assoc") and "Rc<%s>" % MI in f.lty(0)]
            names = self.reach(list(Vm(self.cfg).handlers) + start)
            for n in names:
                if "Clone>::clone" in n or "serialize" in n:
                    continue
                for b in self.crate.fns[n].blocks:
                    for x in b["s"]:
                        if x[0] == "=" and x[2][0] == "agg" and x[2][1][0] == "adt":
                            self._made.add((x[2][1][1], x[2][1][3]))
                    t = b["t"]
                    for q in self.named(t) + [q for x in b["s"] for q in self.named(x)]:
                        a, _, w = q.rpartition("::")
                        self._made.add((a, w))
        return (ty, v[0]) in self._made
