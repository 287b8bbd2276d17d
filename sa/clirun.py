"""The command-line tool: what it validates, loads, instantiates, restores and runs, and in what order (C24, also C13, C14, C22).

The tool's main is interpreted with the command line an unknown, the binary parser's validation, the file system and the library's
entry points (found by their types) being operations that may fail."""
import os
import re
from engine import Engine, State, Budget, Unsupported
from terms import T, K, Term, is_k, fmt, UNIT
from models import SOME, NONE, OK, ERR, strip_refs
from result import Result, Finding
from opsem import Missing
from wasirun import subs
from instrun import Inst, RTY, RC, MI
from base import crates



class Cli:
    def __init__(self, cfg):
        self.cfg, self.R = cfg, Result()
        self.I = I = Inst(cfg)
        self.crate = crates(cfg)[0].get("bin")
        if self.crate is None or "main" not in self.crate.fns:
            raise Missing("the command-line tool")
        self.main = self.crate.fns["main"]
        fns = I.fns
        self.restore = [f for f in fns if f.nargs == 2 and re.match(r"std::result::Result<execution::state::\w+,", f.lty(0)) and RC in f.lty(1)]
        saved = {re.match(r"std::result::Result<([\w:]+),", f.lty(0)).group(1) for f in self.restore}
        self.rtold = [f for f in fns if f.lty(0).startswith((RTY, "std::result::Result<%s," % RTY)) and any(f.lty(i) in saved for i in range(1, f.nargs + 1))]
        self.export = [f for f in fns if f.nargs == 2 and f.lty(1) in ("&" + MI, "&" + RC) and "str" in f.lty(2) and f.lty(0).startswith("std::result::Result<execution::func::FuncAddr,")]
        self.lib = self.libvalidates()
        self.starts = self.which()
        self.R.scope["%s: entry points of the library the tool may call" % cfg] = len(I.make) + 6

    def libvalidates(self):
        """whether the library's loader validates on its own"""
        seen, todo = set(), [self.I.load]
        while todo:
            f = todo.pop()
            if f.name in seen:
                continue
            seen.add(f.name)
            for b in f.blocks:
                t = b["t"]
                if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
                    n = t[1][1]["fn"].get("res") or t[1][1]["fn"]["def"]
                    if "wasmparser::" in n and "alidat" in n:
                        return True
                    if n in self.I.crate.fns:
                        todo.append(self.I.crate.fns[n])
        return False

    def which(self):
        """which way to instantiate runs the start function"""
        I = self.I
        S = I.shape("only a start function")
        I.name = "start"
        mod = I.decoded(S)
        return {f.name: any(x[0] == "run" for o in I.instantiate(f, mod)[1] for x in o.st.ev) for f in I.make}

    def flags(self, f):
        """{field of the runtime: number of the argument it is given}"""
        I = self.I
        e = Engine(I.crate)
        e.budget = 200000
        args = [T("in", "a%d" % i) for i in range(f.nargs)]
        r = None
        for o in e.run(f, args, State()):
            if o.kind != "ret":
                continue
            v = o.val
            if v.op == "adt" and v.args[1] == "Err":
                continue
            if v.op == "adt" and v.args[1] == "Ok":
                v = v.args[2][0][1]
            if v.op != "adt" or v.args[0] != RTY:
                return {}
            d = {}
            for n, x in v.args[2]:
                x = e.close(o.st, x)
                if x.op == "in" and x.args[0].startswith("a"):
                    d[n] = int(x.args[0][1:])
                elif is_k(x) and x.args[1] == "bool":
                    # a flag decided by now: the fact says which argument
                    for dd in o.st.conds:
                        for t, (pos, vals) in dd.items():
                            if isinstance(t, Term) and t.op == "in" and f.lty(int(t.args[0][1:]) + 1) == "bool" and len(vals) == 1 and (next(iter(vals)) == x.args[0]) == pos:
                                d.setdefault(n, int(t.args[0][1:]))
            r = d if r is None else {n: i for n, i in r.items() if d.get(n, i) == i} | {n: i for n, i in d.items() if n not in r}
        return r or {}

    def models(self):
        def may(ev, okv, write=None):
            def m(e, st, cs, a):
                x = tuple(self.val(e, st, y) for y in a)
                bad = st.copy()
                bad.ev = bad.ev + ((ev, x, False),)
                st.ev = st.ev + ((ev, x, True),)
                if write:
                    write(e, st, a, x)
                return [(st, OK(okv(x) if callable(okv) else okv)), (bad, ERR(T("err", ev)))]
            return m

        def always(ev, okv):
            def m(e, st, cs, a):
                x = tuple(self.val(e, st, y) for y in a)
                st.ev = st.ev + ((ev, x, True),)
                return [(st, okv(x))]
            return m

        def loaded(e, st, a, x):
            if a[0].op == "ref":
                e.write(st, a[0].args[0], T("loaded", x[1]), event=False)
        r = {"clap::Parser::parse": lambda e, st, cs, a: [(st, T("in", "cli"))],
             "clap::Parser::try_parse": lambda e, st, cs, a: [(st, OK(T("in", "cli"))), (st.copy(), ERR(T("err", "usage")))],
             "std::fs::read": may("read", lambda x: T("filebytes", x[0])),
             "wasmparser::validate": may("validate", T("types"))}
        for n in ("wasmparser::Validator::validate_all",):
            r[n] = may("validate", T("types"))
        L = "chiwawa::"
        I = self.I
        r[L + I.fresh.name] = lambda e, st, cs, a: [(st, T("freshmodule"))]
        r[L + I.load.name] = may("load", UNIT, loaded)
        for f in I.make:
            r[L + f.name] = may("make:" + f.name, lambda x: T("instance"))
        r[L + I.rtnew[0].name] = may("runtime", lambda x: T("runtime", x))
        r[L + I.rtrun[0].name] = may("run", T("results"))
        for f in self.restore:
            r[L + f.name] = may("restore", lambda x: T("restored", x[1]))
        for f in self.rtold:
            res = f.lty(0).startswith("std::result")
            r[L + f.name] = may("resume", lambda x: T("runtime", x)) if res else always("resume", lambda x: T("runtime", x))
        for f in self.export:
            r[L + f.name] = may("export", lambda x: T("exported", x[1]))
        return r

    def val(self, e, st, t):
        for _ in range(8):
            t = e.close(st, t)
            if t.op == "ref":
                t = e.read(st, t.args[0])
            elif t.op in ("rc", "pval", "init", "string"):
                t = t.args[0]
            elif t.op == "fmt" and len(t.args) >= 2 and t.args[0] == "to_string" and isinstance(t.args[1], tuple) and len(t.args[1]) == 1:
                t = t.args[1][0]
            else:
                break
        return t

    def opt(self, t):
        """the command-line option a value comes from"""
        ns = {x.args[1] for x in subs(t) if x.op in ("fld", "proj") and len(x.args) >= 2 and self.root(x) and isinstance(x.args[1], str)}
        return ns

    def root(self, x):
        b = x.args[0]
        while b.op in ("init", "pval"):
            b = b.args[0]
        return b is T("in", "cli")

    def bad(self, p, key, text):
        self.R.findings.append(Finding(p if isinstance(p, tuple) else (p,), key, "%s [%s build]" % (text, self.cfg), "main (%s:%s)" % (self.main.file, self.main.line) if hasattr(self.main, "file") else "main"))

    def run(self):
        R = self.R
        e = Engine(self.crate, models=self.models())
        e.budget = 400000
        outs = e.run(self.main, [], State())
        R.scope["%s: paths through the tool" % self.cfg] = len(outs)
        good = {True: 0, False: 0}
        flags = {f.name: self.flags(f) for f in self.I.rtnew[:1] + self.rtold[:1]}
        for o in outs:
            evs = [x for x in o.st.ev if x[0] in ("read", "validate", "load", "runtime", "run", "resume", "restore", "export") or x[0].startswith("make:")]
            self.path(e, o, evs, flags, good)
        for k in (True, False):
            if good[k]:
                R.good("C24", "%s: the tool can %s" % (self.cfg, "resume a checkpoint" if k else "run a module"))
            else:
                R.undecided(("C24", "C13"), "no way to %s through the tool" % ("resume a checkpoint" if k else "run a module"))
        return R

    def path(self, e, o, evs, flags, good):
        R = self.R
        names = [x[0] for x in evs]
        failed = [(i, x) for i, x in enumerate(evs) if not x[2] and x[0] != "run"]
        title = {"read": "the file could not be read", "validate": "validation rejected the module", "load": "the module could not be decoded", "restore": "the checkpoint could not be restored",
                 "export": "the function is not exported", "runtime": "the call could not be set up", "resume": "the call could not be set up"}
        fin_ok = o.kind == "ret" and not (o.val.op == "adt" and o.val.args[1] == "Err")
        if o.kind == "ret" and o.val.op != "adt":
            fin_ok = None
        for i, x in failed:
            what = title.get(x[0], "the module could not be instantiated")
            props = ("C24", "C15") if x[0] == "restore" else ("C24",) if x[0] not in ("export", "runtime", "resume") else ()
            if any(n == "run" or n.startswith("make:") and x[0] in ("read", "validate", "load") for n in names[i + 1:]):
                retried = [y for y in evs[i + 1:] if y[0] == x[0] and y[2]]
                if retried:
                    R.undecided("C24", "something tried again")
                elif props:
                    self.bad(props, "goes on:" + x[0].split(":")[0], "the tool goes on to run although " + what)
            elif props and fin_ok:
                self.bad(props, "success:" + x[0].split(":")[0], "the tool exits successfully although " + what)
            elif props and fin_ok is None:
                R.undecided("C24", "how the tool exits")
            elif props:
                for p in props:
                    R.good(p, "%s: nothing runs and the tool fails when %s" % (self.cfg, what))
        makes = [(i, x) for i, x in enumerate(evs) if x[0].startswith("make:")]
        for i, x in makes:
            before = evs[:i]
            mod = [y for y in x[1] if y.op in ("loaded", "freshmodule")]
            if not mod:
                R.undecided("C24", "which module is instantiated")
                continue
            loads = [y for y in before if y[0] == "load" and y[2]]
            if mod[0].op == "freshmodule":
                if not any(y[0] == "load" for y in before):
                    self.bad("C24", "unloaded", "the tool instantiates a module it did not load")
                elif not loads:
                    self.bad("C24", "goes on:load", "the tool instantiates the part of the module decoded before an error")
                else:
                    R.undecided("C24", "which module is instantiated")
                continue
            path = mod[0].args[0]
            vals = [y for y in before if y[0] == "validate" and y[2]]
            src = [z.args[0] for y in vals for b in y[1] for z in subs(b) if z.op == "filebytes"]
            if not vals:
                if any(y[0] == "validate" for y in before):
                    continue        # reported as going on after a failed validation
                if self.lib or any(y[0] == "c" and "chiwawa" in str(y[1]) or y[0] == "c" and "wasmparser" in str(y[1]) for y in o.st.ev):
                    R.undecided("C24", "validation")
                    continue
                self.bad("C24", "unvalidated", "the tool instantiates a module that was not validated")
                continue
            if any(self.same(y, path) for y in src):
                R.good("C24", "%s: the module instantiated was validated and decoded from the same file" % self.cfg)
            elif src and all(self.opt(y) and self.opt(path) and self.opt(y) != self.opt(path) for y in src):
                self.bad("C24", "unvalidated", "the tool validates another file than the one it instantiates")
            else:
                R.undecided("C24", "which file is validated")
        # resuming and running
        ran = [x for x in evs if x[0] == "run"]
        if not ran:
            return
        if len(ran) > 1:
            self.bad(("C13", "C24"), "runs twice", "the tool runs more than once")
        rt = ran[0][1][0] if ran[0][1] else T("none")
        if rt.op != "runtime":
            R.undecided("C24", "what is run")
            return
        args = rt.args[0]
        old = any(x.op == "restored" for x in args)
        asked = self.asked(o.st)
        mk_ = [x[0].split(":", 1)[1] for i, x in makes]
        if asked is True and not old:
            self.bad("C13", "not restored", "asked to restore, the tool starts anew")
            return
        if old:
            if asked is False:
                self.bad("C13", "restored", "the tool restores although not asked to")
            st = [x for x in args if x.op == "restored"][0]
            if "restore" in self.opt(st.args[0]):
                R.good("C13", "%s: the tool resumes from the file named, and with the stacks restored" % self.cfg)
            else:
                R.undecided("C13", "which checkpoint is restored")
            if any(self.starts[n] for n in mk_):
                self.bad(("C13", "C22"), "start again", "restoring a checkpoint, the tool runs the start function again")
            else:
                R.good("C13", "%s: restoring, the tool does not run the start function again" % self.cfg)
        else:
            if not any(self.starts[n] for n in mk_) and any(self.starts.values()):
                self.bad("C22", "no start", "the tool instantiates the module without running its start function")
            elif mk_:
                R.good("C22", "%s: the tool runs the start function" % self.cfg)
            fs = [x for x in args if x.op == "exported"]
            if fs and "invoke" in self.opt(fs[0].args[0]):
                R.good("C24", "%s: the function run is the one asked for" % self.cfg)
            elif fs and (self.opt(fs[0].args[0]) or fs[0].args[0].op == "s"):
                self.bad("C24", "another function", "the tool runs another function than the one asked for")
            else:
                R.undecided("C24", "which function is run")
        good[old] += 1
        f = (self.rtold if old else self.I.rtnew)[0]
        for fld, i in flags.get(f.name, {}).items():
            if f.lty(i + 1) != "bool" or i >= len(args):
                continue
            names = self.opt(args[i]) or self.decided(o.st, args[i], fld)
            p = ("C14",) if "checkpoint" in fld or "cr" in fld else ("C23",)
            if names == {fld}:
                for q in p:
                    R.good(q, "%s: the runtime's %s is the option of that name%s" % (self.cfg, fld, " on resuming" if old else ""))
            elif (len(names) == 1 and next(iter(names)) in flags[f.name]) or is_k(args[i]) and names is not None and not names:
                self.bad(p, "flag:" + fld, "%s the runtime is given %s for %s" % ("on resuming" if old else "when running a module,", next(iter(names)) if names else "a constant", fld))
            else:
                R.undecided(p, "the runtime's " + fld)

    def decided(self, st, t, fld):
        """a constant that a decision on an option has settled"""
        if not is_k(t):
            return set()
        r = set()
        for d in st.conds:
            for x, (pos, vals) in d.items():
                if isinstance(x, Term) and fld in self.opt(x) and x.op in ("fld", "proj", "init") and len(vals) == 1 and (next(iter(vals)) == t.args[0]) == pos:
                    r.add(fld)
        return r

    def asked(self, st):
        """whether the path knows that a checkpoint was named"""
        rs = set()
        for d in st.conds:
            x = None
            for t, (pos, vals) in d.items():
                if isinstance(t, Term) and t.op == "disc" and self.opt(t) == {"restore"} and len(vals) == 1:
                    v = next(iter(vals))
                    x = (v == 1) == pos
            rs.add(x)
        return next(iter(rs)) if len(rs) == 1 else None

    def same(self, a, b):
        return a is b or fmt(a) == fmt(b) or bool(self.opt(a)) and self.opt(a) == self.opt(b) and self.bare(a) is self.bare(b)

    def bare(self, t):
        while t.op in ("init", "pval", "ref", "string") and isinstance(t.args[0], Term):
            t = t.args[0]
        return t


def analyse(cfg):
    try:
        return Cli(cfg).run()
    except (Missing, Unsupported, Budget) as ex:
        if os.environ.get("DEV"):
            import traceback
            traceback.print_exc()
        r = Result()
        r.undecided(("C24", "C13", "C14"), "the command-line tool: " + str(ex)[:100])
        return r
