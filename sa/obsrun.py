"""Statistics and tracing only observe (C23).

Noninterference by comparison of paths: the functions that are told whether statistics or tracing are wanted (the runtime's
constructors, the tool's main) are interpreted with those wishes unknown; two paths that differ in nothing but the wishes and in what
the observing code itself does must have the same outcome.  The execution path is then judged on the build with both features against the
same rules as the build without: what only fails there, or only when an observing flag is set, is interference."""
import os
import re
from engine import Engine, State, Budget, Unsupported
from terms import T, K, Term, is_k, fmt
from models import OK, ERR
from result import Result, Finding
from opsem import Missing
from facts import strip_generics
from wasirun import subs
from clirun import Cli
from instrun import RTY

OBS = re.compile(r"(^|/)(stats|trac(e|er|ing)|profil\w*|instrument\w*)(/[^/]*)?\.rs$")
WISH = re.compile(r"stats|trace")


def observers(crate):
    """types and functions of the observing modules"""
    return ({n for n, a in crate.adts.items() if a.get("local") and OBS.search(a.get("file", ""))},
            {n for n, f in crate.fns.items() if OBS.search(f.file)})


class Obs:
    def __init__(self, cfg):
        self.cfg, self.R = cfg, Result()
        self.cli = Cli(cfg)
        self.I = self.cli.I
        self.crate = self.I.crate
        self.types, self.fns = observers(self.crate)
        self.states = {strip_generics(self.crate.types[x[1]]) for x in self.crate.adts[RTY]["variants"][0][2]} & {n for n, a in self.crate.adts.items() if a.get("local")} - self.types
        self.R.scope["%s: observing types and functions" % cfg] = "%d, %d" % (len(self.types), len(self.fns))

    def obstype(self, ty):
        return any(re.search(r"(?<![\w:])%s(?![\w:])" % re.escape(t), ty) for t in self.types)

    def opaque(self):
        """the observing functions as operations with results of their own"""
        r = {}
        for n in self.fns:
            f = self.crate.fns[n]
            rt = f.lty(0)

            def m(e, st, cs, a, n=n, rt=rt):
                if rt.startswith("std::result::Result<"):
                    b = st.copy()
                    st.ev, b.ev = st.ev + (("obs", n, True),), b.ev + (("obs", n, False),)
                    return [(st, OK(T("observer", n))), (b, ERR(T("observer", n, "err")))]
                return [(st, T("observer", n))]
            r[n] = m
        return r

    def made(self):
        """what the runtime's constructors build the machine's state with"""
        r = {}
        for n, f in self.crate.fns.items():
            m = re.match(r"(std::result::Result<)?(execution::state::\w+)(,.*>)?$", f.lty(0))
            if m and f.kind != "closure" and m.group(2) in self.states and n not in self.fns:
                def mk(e, st, cs, a, n=n, res=m.group(1)):
                    x = tuple(self.cli.val(e, st, y) for y in a)
                    if not res:
                        return [(st, T("made", n, x))]
                    b = st.copy()
                    st.ev, b.ev = st.ev + (("make", True, n) + x,), b.ev + (("make", False, n) + x,)
                    return [(st, OK(T("made", n, x))), (b, ERR(T("err", n)))]
                r[n] = mk
        return r

    def isobs(self, t, wish):
        """whether a fact is about a wish to observe or about what an observer answers"""
        if not isinstance(t, Term):
            return False
        return any(x.op == "observer" or x in wish or wish and (x.op in ("fld", "proj") and len(x.args) > 1 and isinstance(x.args[1], str) and WISH.search(x.args[1])) for x in subs(t))

    def erased(self, t, ty, wish):
        """a value without what only observes"""
        if t.op == "adt" and t.args[0] == RTY:
            fields = {x[0]: self.crate.types[x[1]] for x in self.crate.adts[RTY]["variants"][0][2]}
            fs = tuple((n, v) for n, v in t.args[2] if not self.obstype(fields.get(n, "")) and not (fields.get(n) == "bool" and WISH.search(n)))
            return T("adt", t.args[0], t.args[1], fs)
        if t.op == "adt" and t.args[1] in ("Ok", "Some") and t.args[2]:
            return T("adt", t.args[0], t.args[1], tuple((n, self.erased(v, ty, wish)) for n, v in t.args[2]))
        return t

    def facts(self, d, wish):
        return {t: c for t, c in d.items() if not self.isobs(t, wish)}

    def compatible(self, a, b):
        """whether some input fits two sets of facts"""
        for t, (pos, vs) in a.items():
            if t not in b:
                continue
            p2, v2 = b[t]
            if pos and p2 and not (vs & v2) or pos and not p2 and vs <= v2 or not pos and p2 and v2 <= vs:
                return False
        return True

    def compare(self, what, outs, wish, key, where):
        """outs: [(state, outcome, ordered choices)]; any two that only the wishes and the observers tell apart agree"""
        for i in range(len(outs)):
            for j in range(i):
                (sa, oa, ca), (sb, ob, cb) = outs[i], outs[j]
                if oa == ob or self.chose(ca, cb):
                    continue
                apart = [x for x in sa.ev if x[0] == "obs"] != [x for x in sb.ev if x[0] == "obs"]
                for x in sa.conds:
                    for y in sb.conds:
                        if self.compatible(self.facts(x, wish), self.facts(y, wish)) and (apart or not self.compatible(x, y)):
                            self.R.findings.append(Finding("C23", key, "%s depends on whether the program is observed: %s or %s [%s build]" % (what, self.show(oa)[:300], self.show(ob)[:300], self.cfg), where))
                            return
        self.R.good("C23", "%s: %s: %d paths, every two that differ only in what is observed agree" % (self.cfg, what, len(outs)), max(1, len(outs)))

    def chose(self, a, b):
        """whether operations that may fail first went differently"""
        for x, y in zip(a, b):
            if x == y:
                continue
            return x[:1] + x[2:] == y[:1] + y[2:] and x[1] != y[1]
        return False

    def show(self, o):
        return " ".join(fmt(x) if isinstance(x, Term) else str(x) for x in o)[:140]

    def makers(self):
        for f in self.I.rtnew[:1] + self.cli.rtold[:1]:
            wish = set()
            args = []
            for i in range(f.nargs):
                t = T("in", "a%d" % i)
                args.append(t)
                if self.obstype(f.lty(i + 1)) or f.lty(i + 1) == "bool" and WISH.search(f.lname(i + 1) or ""):
                    wish.add(t)
            e = Engine(self.crate, models={**self.made(), **self.opaque()})
            e.budget = 300000
            outs = []
            for o in e.run(f, args, State()):
                if o.kind == "ret":
                    v = self.erased(e.close(o.st, o.val), f.lty(0), wish)
                    self.settings(f, o.st, v)
                    leak = [x for x in subs(v) if x.op == "observer" or x in wish]
                    if leak:
                        names = [n for n, x in (v.args[2] if v.op == "adt" and v.args[0] == RTY else v.args[2][0][1].args[2] if v.op == "adt" and v.args[2] and v.args[2][0][1].op == "adt" and v.args[2][0][1].args[0] == RTY else ())
                                 if any(y in wish or y.op == "observer" for y in subs(x))]
                        if names:
                            self.R.findings.append(Finding(("C23",) + (("C14",) if any("checkpoint" in n for n in names) else ()), "%s:%s" % (f.name.split("::")[-1], names[0]),
                                                           "the runtime's %s depends on the wish to observe [%s build]" % (names[0], self.cfg), "%s (%s:%s)" % (f.name, f.file, f.line)))
                            continue
                        self.R.undecided("C23", "what %s gives" % f.name)
                        continue
                    outs.append((o.st, ("ret", v), tuple(x for x in o.st.ev if x[0] == "make")))
                else:
                    outs.append((o.st, (o.kind,), tuple(x for x in o.st.ev if x[0] == "make")))
            if not wish:
                self.R.undecided("C23", "%s: no wish to observe" % f.name)
                continue
            self.compare("what %s makes" % f.name, outs, wish, "made:" + f.name.split("::")[-1], "%s (%s:%s)" % (f.name, f.file, f.line))

    def settings(self, f, st, v):
        """each flag of the runtime is the wish of that name"""
        if v.op == "adt" and v.args[1] == "Ok" and v.args[2]:
            v = v.args[2][0][1]
        if v.op != "adt" or v.args[0] != RTY:
            return
        fields = {x[0]: self.crate.types[x[1]] for x in self.crate.adts[RTY]["variants"][0][2]}
        par = {f.lname(i + 1): i for i in range(f.nargs) if f.lty(i + 1) == "bool"}
        ins = {T("in", "a%d" % i): n for n, i in par.items()}
        for n, x in v.args[2]:
            if fields.get(n) != "bool" or n not in par or WISH.search(n):
                continue
            p = "C14" if "checkpoint" in n else "C23"
            t = T("in", "a%d" % par[n])
            told = [d.get(t) for d in st.conds]
            if x is t or is_k(x) and all(c is not None and ((x.args[0] in c[1]) == c[0]) and len(c[1]) == 1 for c in told):
                self.R.good(p, "%s: %s keeps %s as given" % (self.cfg, f.name, n))
            elif is_k(x) or x in ins:
                self.R.findings.append(Finding(p, "setting:%s:%s" % (f.name.split("::")[-1], n), "%s gives the runtime %s for %s [%s build]" % (f.name, ins.get(x) or "a constant", n, self.cfg), "%s (%s:%s)" % (f.name, f.file, f.line)))
            else:
                self.R.undecided(p, "%s: %s" % (f.name, n))

    def tool(self):
        c = self.cli
        L = "chiwawa::"
        m = dict(c.models())
        for n, x in self.opaque().items():
            m[L + n] = x
        e = Engine(c.crate, models=m)
        e.budget = 600000
        wish = set()
        outs = []
        for o in e.run(c.main, [], State()):
            evs = tuple((x[0], x[2]) + self.plain(x) for x in o.st.ev if x[0] in ("read", "validate", "load", "runtime", "run", "resume", "restore", "export") or x[0].startswith("make:"))
            v = o.val if o.kind == "ret" else None
            fin = o.kind if v is None else v.args[1] if v.op == "adt" else fmt(v)[:40]
            exits = tuple(fmt(x[2][0]) if x[2] else "" for x in o.st.ev if x[0] == "c" and "process::exit" in str(x[1]))
            outs.append((o.st, (fin, exits, evs), evs))
        self.compare_tool(outs)

    def plain(self, x):
        """the arguments of an operation of the tool that do not concern observing"""
        f = {"runtime": self.I.rtnew[:1], "resume": self.cli.rtold[:1]}.get(x[0])
        obs = {i for g in f or () for i in range(g.nargs) if self.obstype(g.lty(i + 1)) or g.lty(i + 1) == "bool" and WISH.search(g.lname(i + 1) or "")}
        return tuple("obs" if i in obs or any(self.wishopt(y) or y.op == "observer" for y in subs(v)) else v for i, v in enumerate(x[1]))

    def wishopt(self, t):
        return t.op in ("fld", "proj") and len(t.args) > 1 and isinstance(t.args[1], str) and bool(WISH.search(t.args[1])) and self.cli.root(t)

    def compare_tool(self, outs):
        def isobs(t, wish):
            return isinstance(t, Term) and any(x.op == "observer" or self.wishopt(x) for x in subs(t))
        self.isobs = isobs
        self.show = lambda o: "%s after %s" % (o[0], ", ".join(x[0].split(":")[0] + ("" if x[1] else " failed") for x in o[2]))
        self.compare("what the tool does", outs, set(), "tool", "main (%s:%s)" % (self.cli.main.file, self.cli.main.line))

    def run(self):
        for f in (self.makers, self.tool):
            try:
                f()
            except (Missing, Unsupported, Budget, KeyError) as ex:
                if os.environ.get("DEV"):
                    import traceback
                    traceback.print_exc()
                self.R.undecided("C23", "%s: %s" % (f.__name__, str(ex)[:100]))
        return self.R


def unobserved(crate):
    """which facts say that nothing is observed"""
    types, _ = observers(crate)
    fields = {x[0] for a in crate.adts.values() if a.get("local") and a["kind"] == "struct" and a["name"] not in types for x in a["variants"][0][2]
              if crate.types[x[1]] == "bool" and WISH.search(x[0]) or any(re.search(r"(?<![\w:])%s(?![\w:])" % re.escape(t), crate.types[x[1]]) for t in types)}

    def f(t):
        if not isinstance(t, Term):
            return False
        if t.op == "disc":
            t = t.args[0]
        while t.op in ("init", "pval"):
            t = t.args[0]
        return t.op in ("fld", "proj") and len(t.args) > 1 and t.args[1] in fields
    return f


def rules(cfg, deep=False):
    """the machine's rules on one build"""
    from vmcheck import Vm
    from vmrun import Run
    from opmem import Ops
    r = Result()
    for mk in (lambda: Vm(cfg), lambda: Run(cfg), lambda: Ops(cfg)):
        try:
            a = mk()
            if isinstance(a, Vm):
                for f in (a.typestate, a.dispatch, a.poll):
                    try:
                        f()
                    except Missing as e:
                        a.R.undecided("C08", str(e))
                r.merge(a.R)
            elif isinstance(a, Run):
                a.run()
                r.merge(a.R)
            else:
                a.run()
                x = Result()
                x.findings, x.ok, x.undet, x.samples = a.F, a.count, a.undet, a.samples
                r.merge(x)
        except (Missing, Unsupported, Budget) as e:
            r.undecided("C08", str(e)[:100])
    return r


def interference(plain, instr, quiet):
    """What the rules find with the features built in or with the wishes unknown, and not without either.

    plain, instr: what they found on the build without and with features, wishes unknown; quiet(): the same with the wishes denied."""
    R = Result()
    n = sum(instr.ok.values())
    m = sum(sum(d.values()) for d in instr.undet.values())
    found = instr.findings + plain.findings
    if found:
        base = {f.key for f in quiet()}
        for f in found:
            if f.key not in base:
                R.findings.append(Finding("C23", f.key, "only when the program can be observed: " + f.text, f.where))
    if n:
        R.good("C23", "instr: every rule on the compiler, the handlers, the dispatchers and the frame loop decides as on the build without features", n)
    for _ in range(1 if m else 0):
        R.undecided("C23", "%d rules on the build with features" % m)
    R.scope["instr: obligations of the machine on the build with features"] = n
    return R


def denied():
    """the findings on the build without features when nothing is to be observed"""
    from base import crates
    old = Engine.unobserved
    Engine.unobserved = unobserved(crates("legacy")[0]["lib"])
    try:
        return rules("legacy").findings
    finally:
        Engine.unobserved = old


def analyse(cfg):
    try:
        return Obs(cfg).run()
    except (Missing, Unsupported, Budget) as ex:
        r = Result()
        r.undecided("C23", str(ex)[:100])
        return r
