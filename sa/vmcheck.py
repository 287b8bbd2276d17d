"""Typestate of the dispatch protocol: what every handler, dispatcher and frame transition does to pc, trap and yield."""
from base import *
from engine import Frame
from opsem import Executor, Missing, cplace, cz, writes, strip_pi, NEXTH, PI
from models import SOME, NONE, OPT, RES
from result import Result, Finding

VMS = "execution::state::VmState"
OUTC = "execution::ir::Outcome"


def has(t, p):
    st, memo = [t], set()
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in memo:
                continue
            memo.add(x)
            if p(x):
                return True
            st.extend(x.args)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)
    return False


class Vm:
    """Roles of the VM state's fields and of the functions of the dispatch protocol."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.crate = crates(cfg)[0]["lib"]
        c = self.crate
        self.X = Executor(c)
        self.handlers = {}        # handler -> set of instruction variants it is selected for
        self.R = Result()
        st = c.adts[VMS]["variants"][0][2]
        self.fields = {f[0]: f[1] for f in st}
        self.trapf = self.one("Option<error::RuntimeError>")
        self.yieldf = self.one("ModuleLevelInstr>")
        for r in self.select_all():
            self.handlers.setdefault(r[1], set()).add(r[0])
        self.sentinels = [f.name for f in c.fns.values() if self.is_handler(f) and f.name not in self.handlers]
        pcs = set()
        for h in self.handlers:
            p = self.X.cur(h)
            if p is not None:
                idx = p.args[0].args[1] if p.op == "deref" else p.args[1]
                pcs.add(idx.args[0].args[1])
        if len(pcs) != 1:
            raise Missing("field of the VM state holding the current instruction's index: %s" % sorted(pcs))
        self.pcf = pcs.pop()

    def one(self, suffix):
        r = [n for n, t in self.fields.items() if self.ty(t).endswith(suffix)]
        if len(r) != 1:
            raise Missing("field of the VM state of type ..%s: %s" % (suffix, r))
        return r[0]

    def ty(self, t):
        return self.crate.types[t] if isinstance(t, int) else t

    def is_handler(self, f):
        return f.kind in ("fn", "assoc") and f.nargs == 1 and f.lty(1) == "&mut " + VMS and f.lty(0) == OUTC

    def select_all(self):
        e = Engine(self.crate)
        ins = T("var", "instr")
        r = []
        for o in e.run(self.X.hsel, [T("ref", T("pval", ins))]):
            if o.kind == "ret" and o.val.op == "fn":
                r.append((o.st.conds, o.val.args[0])) if False else r.append((self.variant(e, ins, o.st.conds), o.val.args[0]))
            elif o.kind == "ret":
                self.R.undecided(("C07", "C08"), "handler selection: %s" % fmt(o.val)[:120])
        return r

    def variant(self, e, ins, conds):
        t = e.discr(ins, PI)
        s = frozenset()
        for c in conds:
            f = c.get(t)
            if f and f[0]:
                s |= f[1]
        return s

    def where(self, name):
        f = self.crate.fns.get(name)
        return "%s (%s)" % (name, getattr(f, "span", "") or "") if f else name

    # -- handlers --------------------------------------------------------------------------------------
    def finding(self, props, key, text, where):
        self.R.findings.append(Finding(props, key, "%s [%s build]" % (text, self.cfg), where))

    def pc_kind(self, v):
        """next: one past the current instruction; target: read from the instruction; len: the end; or what it is."""
        pc = T("init", T("S", self.pcf))
        if v is None or v is pc:
            return "same"
        if v.op == "Add" and v.args[1] is pc and is_k(v.args[2]):
            k = sgn(v.args[2].args[0], 64)
            return "next" if k == 1 else "skip%+d" % k
        if is_k(v):
            return "const"
        if has(v, lambda x: x.op == "init" and x.args[0].op == "S" and x.args[0].args[0] not in (self.pcf, "instrs")) and \
                not has(v, lambda x: x.op == "fld" and "Reg." in str(x.args[1])):
            return "len" if v.op == "init" else "other"
        if has(v, lambda x: x.op in ("fld", "proj") and str(x.args[1]).endswith(("_ip", "_target", "targets", ".1", "_target_ip"))):
            return "target"
        return "other"

    def variants(self, h):
        vs = frozenset()
        for s in self.handlers.get(h, ()):
            vs |= s
        names = {x[1]: x[0] for x in self.crate.adts[PI]["variants"]}
        return sorted(names.get(v, "?") for v in vs)

    def jumps(self, h):
        """Does an instruction this handler is selected for carry a code position?"""
        for x in self.crate.adts[PI]["variants"]:
            if x[0] in self.variants(h):
                for f in x[2]:
                    if "usize" in self.ty(f[1]) :
                        return True
        return False

    def typestate(self):
        R = self.R
        for h in sorted(self.handlers):
            short = h.split("::")[-1]
            try:
                arms, _ = self.X.execute(h, None)
            except (Budget, Unsupported, Missing) as e:
                R.undecided("C08", "%s: %s" % (short, e))
                continue
            for a in arms:
                if a.kind != "ret":
                    R.good("C08", "%s: stops the host program (%s)" % (short, fmt(a.val)[:60]))
                    continue
                w = writes(a)
                trap, yi, pc = w.get(T("S", self.trapf)), w.get(T("S", self.yieldf)), w.get(T("S", self.pcf))
                some = lambda v: v is not None and v.op == "adt" and v.args[1] == "Some"
                none = lambda v: v is None or v.op == "adt" and v.args[1] == "None"
                out = a.out
                if out is None:
                    R.undecided("C08", "%s: outcome %s" % (short, fmt(cz(a.val))[:80]))
                    continue
                kind = self.pc_kind(pc)
                if out == "Continue":
                    if some(trap) or some(yi):
                        self.finding("C08", "%s:continue-past" % short,
                                     "%s records a %s and continues" % (short, "trap" if some(trap) else "frame transition"), self.where(h))
                    elif kind == "same":
                        self.finding("C08", "%s:stuck" % short, "%s continues without advancing the instruction pointer: the instruction runs again" % short, self.where(h))
                    elif kind.startswith("skip"):
                        self.finding("C08", "%s:skip" % short, "%s continues at instruction pointer %s" % (short, kind[4:]), self.where(h))
                    elif kind in ("next", "len") or kind == "target" and self.jumps(h):
                        R.good("C08", "%s: continues (%s)" % (short, kind))
                    elif kind == "target" or kind == "const":
                        self.finding("C08", "%s:jump" % short, "%s continues at %s although its instruction carries no code position" % (short, fmt(pc)[:120]), self.where(h))
                    else:
                        R.undecided("C08", "%s: instruction pointer %s" % (short, fmt(pc)[:80]))
                elif out == "Trap":
                    if some(trap):
                        R.good("C08", "%s: traps with a cause" % short)
                    elif none(trap):
                        self.finding("C08", "%s:no-cause" % short, "%s stops with a trap without recording its cause" % short, self.where(h))
                    else:
                        R.undecided("C08", "%s: trap cause %s" % (short, fmt(trap)[:80]))
                elif out == "Yield":
                    if none(yi):
                        self.finding("C08", "%s:no-transition" % short, "%s yields without recording the frame transition" % short, self.where(h))
                    elif not some(yi):
                        R.undecided("C08", "%s: transition %s" % (short, fmt(yi)[:80]))
                    elif some(trap):
                        self.finding("C08", "%s:trap-yield" % short, "%s records a trap and yields" % short, self.where(h))
                    else:
                        y = yi.args[2][0][1]
                        ret = y.op == "adt" and y.args[1] == "Return"
                        if ret or kind == "next":
                            R.good("C08", "%s: yields %s, resumes at the next instruction" % (short, y.args[1] if y.op == "adt" else "?"))
                        elif kind == "same":
                            self.finding("C08", "%s:rerun" % short, "%s leaves its frame without advancing the instruction pointer: it runs again on return" % short, self.where(h))
                        elif kind.startswith("skip"):
                            self.finding("C08", "%s:skip" % short, "%s resumes at instruction pointer %s" % (short, kind[4:]), self.where(h))
                        else:
                            R.undecided("C08", "%s: resume position %s" % (short, fmt(pc)[:80]))
                elif out == "Halt":
                    if some(trap):
                        self.finding("C08", "%s:halt-trap" % short, "%s records a trap but halts normally" % short, self.where(h))
                    else:
                        R.good("C08", "%s: halts" % short)

    # -- dispatch --------------------------------------------------------------------------------------
    def pollers(self):
        return [f.name for f in self.crate.fns.values() if f.kind in ("fn", "assoc") and f.nargs == 1
                and f.lty(1) == "&mut " + VMS and f.lty(0) == "bool"]

    def dispatchers(self):
        """Functions of the handler type that run handlers: neither selected for an instruction nor sentinels."""
        r = []
        for n in self.sentinels:
            f = self.crate.fns[n]
            if any(b["t"][0] in ("call", "tailcall") and not (b["t"][1][0] == "k") for b in f.blocks):
                r.append(f)
        return r

    def dispatch_engine(self, extra=None):
        vm = self
        polls = set(self.pollers())

        class E(Engine):
            def call_value(self, st, cs, fv, args, selfarg=None):
                f = fv
                if f.op not in ("fn", "closure"):
                    c = self.close(st, f)
                    pc = self.close(st, self.read(st, T("fld", T("deref", T("arg", vm.sarg)), vm.pcf)))
                    st.ev = st.ev + (("dispatch", c, pc),)
                    return [(st, T("hout"))]
                return Engine.call_value(self, st, cs, fv, args, selfarg)

        def poll(e, st, cs, a):
            st.ev = st.ev + (("poll",),)
            return [(st, T("polled"))]
        m = {p: poll for p in polls}
        m.update(extra or {})
        return E(self.crate, models=m)

    def dispatch(self):
        R = self.R
        ds = self.dispatchers()
        if not ds:
            R.undecided(("C08", "C14", "C07"), "no dispatcher recognised")
        for f in ds:
            self.sarg = f.lname(1) or "a1"
            eng = self.dispatch_engine()
            loops = f.loops()
            outs = []
            fr = Frame(f, eng.fid(0, ("top", f.name)), {})
            st = State()
            st.env[T("local", 1, fr.fid)] = T("arg", self.sarg)
            eng.steps = 0
            eng.stack.append(f.name)
            if loops:
                heads = [h for h in loops if not any(h in b and h2 != h for h2, b in loops.items())]
                if len(heads) != 1:
                    R.undecided(("C08", "C14"), "%s: %d outer loops" % (f.name, len(heads)))
                    continue
                # the way in must not dispatch; one iteration from an arbitrary state
                head = heads[0]
                body = loops[head]
                if any(f.blocks[b]["t"][0] == "call" and f.blocks[b]["t"][1][0] != "k" for b in range(len(f.blocks)) if b not in body):
                    R.undecided(("C08", "C14"), "%s: dispatches outside its loop" % f.name)
                    continue
                ex, backs = eng.explore(fr, body, head, [st], outs, is_head=True)
                res = [("next", s, None) for s in backs]
                for b, s in ex:
                    o2 = []
                    e2, _ = eng.explore(fr, None, b, [s], o2)
                    outs += o2
            else:
                eng.explore(fr, None, 0, [st], outs)
                res = []
            eng.stack.pop()
            res += [(o.kind, o.st, o.val) for o in outs]
            for k, s, v in res:
                for c in s.conds:
                    self.dispatch_arm(f, eng, k, s, c, v, bool(loops))
        for f in self.X.nexts:
            self.next_fn(f)

    def fact(self, c, t):
        """1/0 when the condition fixes the truth of the atom, else None."""
        f = c.get(t)
        if f is None:
            return None
        pol, vs = f
        s = {0, 1} & vs if pol else {0, 1} - vs
        return s.pop() if len(s) == 1 else None

    def enabled(self, c):
        """Is checkpointing known to be off under c?"""
        for t, f in c.items():
            if t.op == "init" and t.args[0].op == "fld" and self.fields.get(t.args[0].args[1]) is not None \
                    and self.ty(self.fields[t.args[0].args[1]]) == "bool":
                v = self.fact(c, t)
                if v is not None:
                    return v
        return None

    def in_range(self, c):
        """1: current index below the instruction count, 0: at or past it, None: not tested."""
        for t, f in c.items():
            if t.op == "LtU":
                a, b = cz(t.args[1]), cz(t.args[2])
                S = lambda x, n: x.op == "init" and x.args[0] is T("S", n)
                if S(a, self.pcf) and b.op == "init" and b.args[0].op == "S":
                    return self.fact(c, t)
                if S(b, self.pcf) and a.op == "init":      # len < pc
                    return None
        return None

    def dispatch_arm(self, f, eng, k, s, c, v, looped):
        R = self.R
        name = f.name.split("::")[-1]
        evs = [e for e in s.ev if e[0] in ("poll", "dispatch")]
        disp = [e for e in evs if e[0] == "dispatch"]
        polled = self.fact(c, T("polled"))
        off = self.enabled(c) == 0
        pl = [e for e in evs if e[0] == "poll"]
        S = lambda n: T("S", n)
        if len(disp) > 1:
            self.finding(("C08", "C14"), "%s:twice" % name, "%s runs two handlers without polling or looking at the outcome in between" % name, self.where(f.name))
            return
        if disp:
            if polled == 1:
                self.finding(("C14", "C08"), "%s:ignored" % name, "%s runs another instruction although a checkpoint was requested" % name, self.where(f.name))
                return
            if not pl and not off:
                self.finding("C14", "%s:nopoll" % name, "%s runs an instruction without polling for a checkpoint request" % name, self.where(f.name))
            elif pl and evs.index(disp[0]) < evs.index(pl[0]) :
                R.undecided("C14", "%s polls after dispatching" % name)
            elif polled is None and not off:
                self.finding("C14", "%s:unused" % name, "%s polls for a checkpoint request but ignores the answer" % name, self.where(f.name))
            else:
                R.good("C14", "%s: polls before the handler runs" % name)
            fv, pc = cz(disp[0][1]), cz(disp[0][2])
            self.entry(f, name, fv, pc)
            if looped and self.in_range(c) == 0:
                self.finding("C08", "%s:past" % name, "%s dispatches although the instruction pointer is past the end" % name, self.where(f.name))
            hv = T("disc", T("hout"))
            vs = [x for t, x in c.items() if t.op == "disc" and t.args[0] is T("hout")]
            cont = self.crate.vdiscr(OUTC, "Continue")
            if k == "next":
                others = [x for x in range(len(self.crate.adts[OUTC]["variants"])) if x != cont]
                maybe = [x for x in others if all((x in y[1]) == y[0] for y in vs)]
                if maybe:
                    nm = [z[0] for z in self.crate.adts[OUTC]["variants"] if z[1] in maybe]
                    self.finding("C08", "%s:continues" % name, "%s continues after a handler returned %s" % (name, "/".join(nm)), self.where(f.name))
                else:
                    R.good("C08", "%s: loops on Continue only" % name)
            elif k == "ret":
                if v.op == "hout" or v.op == "out" or v is T("hout"):
                    if looped and not vs:
                        R.undecided("C08", "%s: returns after one handler" % name)
                    else:
                        R.good("C08", "%s: returns the handler's outcome" % name)
                elif v.op == "adt":
                    d = self.crate.vdiscr(OUTC, v.args[1])
                    if all((d in y[1]) == y[0] for y in vs) and vs and all(y[0] and len(y[1]) == 1 for y in vs):
                        R.good("C08", "%s: returns the handler's outcome" % name)
                    else:
                        self.finding("C08", "%s:changed" % name, "%s returns %s for a handler's outcome that may differ" % (name, v.args[1]), self.where(f.name))
                else:
                    R.undecided("C08", "%s: returns %s" % (name, fmt(v)[:80]))
            return
        if k == "ret":
            out = v.args[1] if v.op == "adt" else None
            tr = None
            for e in s.ev:
                if e[0] == "w" and cplace(e[1]) is S(self.trapf):
                    tr = cz(e[2])
            if polled == 1:
                if out == "Trap" and tr is not None and has(tr, lambda x: x.op == "adt" and x.args[1] == "CheckpointRequested"):
                    R.good("C14", "%s: a request stops dispatch with its cause" % name)
                elif out == "Trap" and tr is not None or out is None:
                    R.undecided("C14", "%s: cause %s" % (name, fmt(tr)[:80] if tr is not None else None))
                else:
                    self.finding(("C14", "C08"), "%s:cause" % name, "%s answers a checkpoint request with %s%s" % (
                        name, out, "" if tr is not None else " and no cause"), self.where(f.name))
            elif out == "Halt":
                if self.in_range(c) == 1:
                    self.finding("C08", "%s:early" % name, "%s halts before the end of the instructions" % name, self.where(f.name))
                else:
                    R.good("C08", "%s: halts past the end" % name)
            elif out == "Trap" and tr is None:
                self.finding("C08", "%s:trap" % name, "%s stops with a trap without a cause" % name, self.where(f.name))
            elif out == "Trap" and has(tr, lambda x: x.op == "adt" and x.args[1] == "CheckpointRequested"):
                self.finding("C14", "%s:spurious" % name, "%s stops for a checkpoint that was not requested" % name, self.where(f.name))
            else:
                R.undecided("C08", "%s: returns %s" % (name, fmt(v)[:80]))
        elif k == "next":
            if polled == 1:
                self.finding(("C14", "C08"), "%s:dropped" % name, "%s drops a checkpoint request" % name, self.where(f.name))
            else:
                R.good("C08", "%s: moves to the enclosing label" % name)

    def entry(self, f, name, fv, pc):
        """The handler run is the entry of the handler table at the current instruction."""
        R = self.R
        ok = fv.op == "init" and fv.args[0].op == "deref" and fv.args[0].args[0].op == "padd"
        if not ok:
            R.undecided(("C08", "C07"), "%s: handler %s" % (name, fmt(fv)[:100]))
            return
        pa = fv.args[0].args[0]
        base, ix = pa.args[0], pa.args[1]
        if ix is pc:
            R.good("C08", "%s: runs the handler of the current instruction" % name)
        elif ix.op == "Add" and ix.args[1] is pc or pc.op == "Add" and pc.args[1] is ix:
            self.finding(("C08", "C07"), "%s:entry" % name, "%s runs the handler at %s while the current instruction is %s" % (name, fmt(ix)[:80], fmt(pc)[:80]), self.where(f.name))
        else:
            R.undecided(("C08", "C07"), "%s: handler index %s" % (name, fmt(ix)[:100]))

    def next_fn(self, f):
        """Tail-call builds: what the shim between two handlers chooses."""
        R = self.R
        name = f.name.split("::")[-1]
        self.sarg = f.lname(1) or "a1"
        eng = self.dispatch_engine()
        for o in eng.run(f):
            for c in o.st.conds:
                polled = self.fact(c, T("polled"))
                off = self.enabled(c) == 0
                pl = [e for e in o.st.ev if e[0] == "poll"]
                if o.kind != "ret":
                    R.undecided("C14", "%s: %s" % (name, o.kind))
                    continue
                v = o.val
                if v.op == "fn":
                    if polled == 1:
                        self.stop_handler(f, name, v.args[0])
                    elif polled == 0 or off:
                        if v.args[0] in self.stops():
                            self.finding("C14", "%s:spurious" % name, "%s selects %s although no checkpoint was requested" % (name, v.args[0]), self.where(f.name))
                        else:
                            R.undecided("C14", "%s: selects %s" % (name, v.args[0]))
                    else:
                        R.undecided("C14", "%s: selects %s" % (name, v.args[0]))
                    continue
                if polled == 1:
                    self.finding(("C14", "C08"), "%s:ignored" % name, "%s selects the next instruction although a checkpoint was requested" % name, self.where(f.name))
                    continue
                if not pl and not off:
                    self.finding("C14", "%s:nopoll" % name, "%s selects the next instruction without polling for a checkpoint request" % name, self.where(f.name))
                elif polled is None and not off:
                    self.finding("C14", "%s:unused" % name, "%s polls but ignores the answer" % name, self.where(f.name))
                else:
                    R.good("C14", "%s: polls before the next handler" % name)
                pc = cz(eng.close(o.st, eng.read(o.st, T("fld", T("deref", T("arg", self.sarg)), self.pcf))))
                self.entry(f, name, cz(eng.close(o.st, v)), pc)

    def stops(self):
        r = []
        for n in self.sentinels:
            if self.crate.fns[n] in self.dispatchers():
                continue
            try:
                arms, _ = self.X.execute(n, None)
            except (Budget, Unsupported, Missing):
                continue
            for a in arms:
                tr = writes(a).get(T("S", self.trapf))
                if a.out == "Trap" and tr is not None and has(tr, lambda x: x.op == "adt" and x.args[1] == "CheckpointRequested"):
                    r.append(n)
        return r

    def stop_handler(self, f, name, h):
        if h in self.stops():
            self.R.good("C14", "%s: a request selects %s, which stops with the request as cause" % (name, h.split("::")[-1]))
        else:
            self.finding(("C14", "C08"), "%s:cause" % name, "%s answers a checkpoint request by selecting %s" % (name, h), self.where(f.name))

    # -- the poll ---------------------------------------------------------------------------------------
    def top_pollers(self):
        ps = self.pollers()
        called = set()
        for p in ps:
            for b in self.crate.fns[p].blocks:
                t = b["t"]
                if t[0] in ("call", "tailcall") and t[1][0] == "k" and "fn" in t[1][1]:
                    fn = t[1][1]["fn"]
                    called |= {q for q in ps if q != p and q == (fn.get("res") or fn["def"])}
        return [p for p in ps if p not in called] or ps

    def poll(self):
        R = self.R
        ps = self.top_pollers()
        if not ps:
            R.undecided("C14", "no function polls for checkpoint requests")
        for p in ps:
            f = self.crate.fns[p]
            name = p.split("::")[-1]
            try:
                outs = Engine(self.crate).run(f)
            except (Budget, Unsupported) as e:
                R.undecided("C14", "%s: %s" % (name, e))
                continue
            arms = []
            for o in outs:
                if o.kind != "ret":
                    R.undecided("C14", "%s: may panic (%s)" % (name, fmt(o.val)[:60]))
                    continue
                for c in o.st.conds:
                    arms.append(({cz(t): x for t, x in c.items()}, cz(o.val), o.st.ev))
            self.poll_arms(p, name, arms)

    def ext(self, t):
        """Does the value come from outside the VM (file system, flag)?"""
        return has(t, lambda x: x.op == "call")

    def poll_arms(self, p, name, arms):
        R, W = self.R, self.where(p)
        en = [n for n, t in self.fields.items() if self.ty(t) == "bool"]
        ren = [T("init", T("S", n)) for n in en]
        due, idle = [], []
        for c, v, ev in arms:
            calls = [e for e in ev if e[0] == "c"]
            ws = {cplace(e[1]): cz(e[2]) for e in ev if e[0] == "w"}
            fact = [self.fact(c, t) for t in ren if self.fact(c, t) is not None]
            if fact == [0]:
                if is_k(v) and v.args[0] == 1 or self.ext(v):
                    self.finding("C14", "%s:disabled" % name, "%s reports a checkpoint request although checkpointing is disabled" % name, W)
                else:
                    R.good("C14", "%s: disabled, no request" % name)
                continue
            if not fact:
                self.finding("C14", "%s:unguarded" % name, "%s does not test whether checkpointing is enabled" % name, W)
            asked = [e for e in calls if not (e[1].endswith("remove_file") or "Path::new" in e[1] or "print" in e[1])]
            checked = [t for t in c if self.ext(t)]
            if v.op == "call" or self.ext(v) and not is_k(v):
                yes = None
                for t in checked:
                    f = self.fact(c, t)
                    if t is v and f is not None:
                        yes = f
                    elif v.op == "not" and v.args[0] is t and f is not None:
                        yes = 1 - f
                due.append((c, ws))
            elif is_k(v):
                yes = v.args[0]
                if checked or asked:
                    due.append((c, ws))
                elif yes == 0:
                    idle.append((c, ws))
                else:
                    self.finding("C14", "%s:spurious" % name, "%s reports a checkpoint request without asking for the trigger" % name, W)
                    continue
            else:
                R.undecided("C14", "%s: answers %s" % (name, fmt(v)[:80]))
                continue
            removed = [e for e in calls if e[1].endswith("remove_file")]
            if removed and yes == 0:
                self.finding(("C15", "C14"), "%s:consumed" % name, "%s removes the trigger without reporting the request" % name, W)
            elif yes == 1 and is_k(v) and checked:
                # the answer must be the one that says the trigger is there
                pol = [self.exists(t, c[t]) for t in checked]
                if any(x == 0 for x in pol):
                    self.finding("C14", "%s:inverted" % name, "%s reports a request when the trigger is not there" % name, W)
                elif not removed and any(x == 1 for x in pol):
                    self.finding(("C15", "C14"), "%s:kept" % name, "%s reports the request without consuming the trigger" % name, W)
                elif None in pol:
                    R.undecided("C14", "%s: trigger test %s" % (name, [fmt(t)[:80] for t in checked]))
                else:
                    R.good("C14", "%s: request reported and trigger consumed" % name)
                    R.good("C15", "%s: the trigger is consumed only when the request is reported" % name)
            elif yes == 0 and checked and any(self.exists(t, c[t]) == 1 for t in checked):
                self.finding("C14", "%s:lost" % name, "%s finds the trigger and does not report it" % name, W)
            else:
                R.good("C14", "%s: answer of the trigger test reported" % name)
        if not due:
            self.finding("C14", "%s:never" % name, "%s never asks for the trigger" % name, W)
            return
        self.bounded(name, W, due, idle, ren)

    def exists(self, t, f):
        """1/0: under fact f about t the file is there / not there."""
        if t.op != "call":
            return None
        n = t.args[0]
        pol, vs = f
        if n.endswith("_path_filestat_get"):
            return 1 if pol and vs == {0} else 0 if (not pol and 0 in vs or pol and 0 not in vs) else None
        if n.endswith("::exists") or n.endswith("::is_file") or "Atomic" in n:
            return 1 if pol and vs == {1} or not pol and vs == {0} else 0 if pol and vs == {0} or not pol and vs == {1} else None
        return None

    def bounded(self, name, W, due, idle, ren):
        """From every counter value the arms that ask for the trigger are reached within a bounded number of polls."""
        R = self.R
        from constprop import value
        cnt = set()
        gates = set()
        written = {w for _, ws in due + idle for w in ws}

        def counter(t):
            """The counter a condition tests, or None when it tests anything else."""
            xs = set()
            if not has(t, lambda y: y.op == "disc"):
                st = [t]
                while st:
                    x = st.pop()
                    if isinstance(x, tuple):
                        st.extend(x)
                    elif isinstance(x, Term):
                        if x.op == "init":
                            xs.add(x)
                        else:
                            st.extend(x.args)
            if len(xs) == 1:
                x = xs.pop()
                if x.args[0] in written:
                    return x
            return None
        for c, ws in idle:
            for c2, _ in due:
                other = [t for t in c if t not in ren and not self.ext(t) and counter(t) is None]
                if not other:
                    break
                if all(self.compat(c[t], c2[t]) for t in c if t in c2 and counter(t) is not None):
                    gates |= {t for t in other if t not in c2 or not self.compat(c[t], c2[t])}
        for c, ws in due + idle:
            cnt |= {counter(t) for t in c if t not in ren and not self.ext(t) and counter(t) is not None}
        if gates:
            for g in sorted(gates, key=fmt):
                self.finding("C14", "%s:gated" % name, "%s asks for the trigger only depending on %s: a frame in which that does not change never notices a request" % (
                    name, fmt(g)[:100]), W)
            return
        if not idle:
            R.good("C14", "%s: asks for the trigger every time" % name)
            return
        if len(cnt) != 1:
            R.undecided("C14", "%s: throttled by %s" % (name, sorted(fmt(x) for x in cnt)))
            return
        x = cnt.pop()
        fld = x.args[0]
        w = 64 if self.ty(self.fields[fld.args[0]]) in ("u64", "usize", "i64") else 32
        ups = {ws.get(fld) for _, ws in idle}
        if ups == {None}:
            self.finding("C14", "%s:frozen" % name, "%s is throttled by %s but never changes it" % (name, fmt(fld)), W)
            return
        worst = 0
        for start in (0, 1, 1023, 1024, (1 << 31) - 1, (1 << 31) + 7, (1 << w) - 1, (1 << w) - 1500):
            v, seen = start & ((1 << w) - 1), 0
            while seen <= 1 << 16:
                env = {x: v}
                try:
                    if any(self.holds(c, env, value, ren) for c, _ in due):
                        break
                    nx = [ws.get(fld) for c, ws in idle if self.holds(c, env, value, ren)]
                    nv = value(nx[0], env) & ((1 << w) - 1) if nx and nx[0] is not None else v
                except Exception as e:
                    R.undecided("C14", "%s: throttle %s" % (name, type(e).__name__))
                    return
                if nv == v:
                    self.finding("C14", "%s:stuck" % name, "%s never asks for the trigger once %s is %d" % (name, fmt(fld), v), W)
                    return
                v = nv
                seen += 1
            else:
                self.finding("C14", "%s:unbounded" % name, "%s does not ask for the trigger within %d polls from %s = %d" % (
                    name, 1 << 16, fmt(fld), start), W)
                return
            worst = max(worst, seen + 1)
        R.good("C14", "%s: the trigger is asked for within %d polls from every distinguished counter value" % (name, worst))

    def compat(self, f, g):
        (p, a), (q, b) = f, g
        if p and q:
            return bool(a & b)
        if p:
            return bool(a - b)
        if q:
            return bool(b - a)
        return True

    def holds(self, c, env, value, ren):
        for t, (pol, vs) in c.items():
            if t in ren or self.ext(t) or has(t, lambda y: y.op == "disc"):
                continue
            v = value(t, env)
            if (v in vs) != pol:
                return False
        return True
