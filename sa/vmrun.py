"""The frame machine: what one turn of the runtime's loop does around one run of the dispatcher."""
from models import ITS
from base import *
from engine import Frame
from opsem import Missing
from vmcheck import Vm, VMS, OUTC, has
from result import Result, Finding

RT = "execution::runtime::Runtime"
RF = "execution::regs::RegFile"
UNKNOWN = {"call", "lv", "uninit", "mayalias", "out", "elem", "elemv"}


class Run:
    def __init__(self, cfg):
        self.cfg = cfg
        self.vm = Vm(cfg)
        self.crate = self.vm.crate
        self.R = Result()
        c = self.crate
        self.disp = {f.name for f in self.vm.dispatchers()}
        self.fn = self.only("the run loop", [f for f in c.fns.values() if f.kind in ("fn", "assoc") and f.nargs == 1
                                             and f.lty(1) == "&mut " + RT and f.lty(0).startswith("std::result::Result<std::vec::Vec<")])
        rf = lambda args, ret: [f.name for f in c.fns.values() if f.kind in ("fn", "assoc") and f.nargs == len(args)
                                and all(f.lty(i + 1).endswith(a) for i, a in enumerate(args)) and f.lty(0) == ret]
        self.save = rf(["&mut " + RF, "regs::RegAllocation"], "()")
        self.restore = [n for n in rf(["&mut " + RF], "()")]
        self.get = rf(["&" + RF, "&execution::regs::Reg"], "execution::value::Val")
        self.set = rf(["&mut " + RF, "&execution::regs::Reg", "&execution::value::Val"], "()")
        self.wasi = [f.name for f in c.fns.values() if f.kind in ("fn", "assoc") and f.nargs == 3 and f.lty(1) == "&" + RT
                     and "WasiFuncType" in f.lty(2)]
        self.ckpt = [f.name for f in c.fns.values() if f.kind in ("fn", "assoc") and "migration" in f.name and f.nargs >= 3
                     and f.lty(0).startswith("std::result::Result<(), ") and any("state::VMState" in f.lty(i) for i in range(1, f.nargs + 1))]
        for nm, l in (("save", self.save), ("restore", self.restore), ("get", self.get), ("set", self.set), ("wasi", self.wasi), ("checkpoint", self.ckpt)):
            if len(l) != 1:
                raise Missing("%s function: %s" % (nm, l))

    def only(self, what, l):
        if len(l) != 1:
            raise Missing("%s: %s" % (what, [f.name for f in l]))
        return l[0]

    def where(self):
        return "%s (%s)" % (self.fn.name, getattr(self.fn, "span", "") or "")

    def finding(self, props, key, text):
        self.R.findings.append(Finding(props, "run:" + key, "%s [%s build]" % (text, self.cfg), self.where()))

    def good(self, props, what):
        for p in ([props] if isinstance(props, str) else props):
            self.R.good(p, what)

    # -- canonical terms ------------------------------------------------------------------------------
    def rc(self, t):
        m = self._m
        if isinstance(t, tuple):
            return tuple(self.rc(x) for x in t)
        if isinstance(t, frozenset):
            return frozenset(self.rc(x) for x in t)
        if not isinstance(t, Term):
            return t
        r = m.get(t)
        if r is not None:
            return r
        if t.op == "idx" and self.is_frames(t.args[0]) and t.args[1].op == "Add" and is_k(t.args[1].args[2]):
            k = sgn(t.args[1].args[2].args[0], 64)
            if k in (-1, -2) and t.args[1].args[1] is T("len", T("init", t.args[0])):
                r = T("cur" if k == -1 else "caller")
        if r is None and self.is_frames(t):
            r = T("FRAMES")
        if r is None:
            r = T(t.op, *[self.rc(x) for x in t.args])
        m[t] = r
        return r

    def is_frames(self, t):
        return t.op == "fld" and t.args[1] == self.framesf and t.args[0].op == "fld" and t.args[0].args[0].op == "deref" \
            and t.args[0].args[0].args[0] is T("arg", self.sarg)

    def engine(self):
        me = self

        def disp(e, st, cs, a):
            p = e.deref_of(a[0])
            vs = e.close(st, e.read(st, p))
            st.ev = st.ev + (("dispatchcall", vs),)
            for n in me.vm.fields:
                e.write(st, T("fld", p, n), T("after", n), event=False)
            return [(st, T("hout"))]

        def ev(nm):
            def m(e, st, cs, a):
                args = tuple(e.close(st, x) for x in a)
                st.ev = st.ev + ((nm,) + args,)
                return [(st, T("rv", nm, tuple(args[1:])))]
            return m
        ms = {d: disp for d in self.disp}
        for nm, l in (("save", self.save), ("restore", self.restore), ("get", self.get), ("set", self.set), ("wasi", self.wasi), ("ckpt", self.ckpt)):
            for n in l:
                ms[n] = ev(nm)
        return Engine(self.crate, models=ms)

    def run(self):
        f = self.fn
        self._m = {}
        self.sarg = f.lname(1) or "a1"
        st_adt = self.crate.adts["execution::state::VMState"]["variants"][0][2]
        fs = [x[0] for x in st_adt if "FrameStack" in self.vm.ty(x[1])]
        if len(fs) != 1:
            raise Missing("frame stack field: %s" % fs)
        self.framesf = fs[0]
        loops = f.loops()
        heads = [h for h in loops if not any(h in b and h2 != h for h2, b in loops.items())]

        def calls(blocks):
            names = self.closure(f, blocks)
            return names & self.disp
        main = [h for h in heads if calls(loops[h])]
        if len(main) != 1:
            raise Missing("%d loops dispatch in %s" % (len(main), f.name))
        head = main[0]
        self.before(f, head)
        eng = self.eng = self.engine()
        fr = Frame(f, eng.fid(0, ("top", f.name)), {})
        st = State()
        st.env[T("local", 1, fr.fid)] = T("arg", self.sarg)
        eng.stack.append(f.name)
        outs = []
        ex, backs = eng.explore(fr, loops[head], head, [st], outs, is_head=True)
        for b, s in ex:
            o2 = []
            eng.explore(fr, None, b, [s], o2)
            outs += o2
        eng.stack.pop()
        self.R.scope["%s: turns of the run loop" % self.cfg] = len(backs) + len(outs)
        seen = set()
        for k, s, v in [("next", s, None) for s in backs] + [(o.kind, o.st, o.val) for o in outs]:
            for c in s.conds:
                self.arm(k, s, {self.rc(t): x for t, x in c.items()}, self.rc(self.eng.close(s, v)) if v is not None else None)

    def closure(self, f, blocks=None, seen=None):
        """Functions of the crate reachable from (blocks of) f."""
        seen = set() if seen is None else seen
        for i, b in enumerate(f.blocks):
            if blocks is not None and i not in blocks:
                continue
            t = b["t"]
            if t[0] in ("call", "tailcall"):
                n = self.callee(t)
                if n and n not in seen:
                    seen.add(n)
                    g = self.crate.fns.get(n)
                    if g is not None:
                        self.closure(g, None, seen)
        return seen

    def callee(self, t):
        fo = t[1]
        if fo[0] == "k" and "fn" in fo[1]:
            return fo[1]["fn"].get("res") or fo[1]["fn"]["def"]
        return None

    # -- before the loop -------------------------------------------------------------------------------
    def before(self, f, head):
        """Every frame present at the start gets the runtime's checkpoint setting."""
        eng = self.engine()
        fr = Frame(f, eng.fid(0, ("top", f.name)), {})
        st = State()
        st.env[T("local", 1, fr.fid)] = T("arg", self.sarg)
        eng.stack.append(f.name)
        outs = []
        region = set(range(len(f.blocks))) - f.loops()[head]
        ex, _ = eng.explore(fr, region, 0, [st], outs)
        eng.stack.pop()
        ex = [s for b, s in ex if b == head]
        if not ex:
            self.R.undecided("C14", "%s: entry not analysed" % f.name)
            return
        self.initial_enable = True
        for s in ex:
            every = last = other = False
            for e in s.ev:
                for pl, v, looped, under in self.writes_of(e):
                    if pl.op == "fld" and pl.args[1] in self.enable_fields() :
                        v = self.rc(v)
                        ok = v.op == "init" and v.args[0].op == "fld" and v.args[0].args[1] in self.enable_fields()
                        if not ok and (self.watched(v) or is_k(v) and any(self.watched(t) for t in under + [t for d in s.conds for t in d if isinstance(t, Term)])):
                            self.finding(("C14", "C23"), "enable-watched", "whether frames poll for a checkpoint depends on whether the program is observed")
                        if not ok:
                            other = True
                        elif looped or has(pl, lambda x: x.op in ("anyidx", "any", "elem")):
                            every = True
                        else:
                            last = True
            if every:
                self.good(("C14", "C13"), "run: every frame present at the start gets the runtime's checkpoint setting")
            elif last:
                self.finding(("C14", "C13"), "enable-some", "only one of the frames present at the start is given the runtime's checkpoint setting: restored frames never poll")
            elif other:
                self.R.undecided(("C14",), "run: value of the checkpoint setting of the first frames")
            else:
                self.initial_enable = False

    def watched(self, v):
        """whether a value depends on the wish to observe"""
        from obsrun import unobserved
        from wasirun import subs
        f = unobserved(self.crate)
        return any(f(x) for x in subs(v))

    def enable_fields(self):
        r = set()
        for a in ("execution::state::FrameStack", RT):
            for x in self.crate.adts[a]["variants"][0][2]:
                if self.vm.ty(x[1]) == "bool" and "checkpoint" in x[0]:
                    r.add(x[0])
        return r

    def writes_of(self, e, looped=False, under=[]):
        """(place, value, whether in a loop, what the loop's path knows) of each write"""
        if e[0] == "w":
            yield e[1], e[2], looped, under
        elif e[0] == "loop":
            for evs, ck in e[2]:
                ts, todo = [], [ck]
                while todo:
                    x = todo.pop()
                    if isinstance(x, Term):
                        ts.append(x)
                    elif isinstance(x, (tuple, frozenset)):
                        todo.extend(x)
                for x in evs:
                    for y in self.writes_of(x, True, under + ts):
                        yield y

    # -- one turn --------------------------------------------------------------------------------------
    def fact(self, c, t):
        f = c.get(t)
        if f is None:
            return None
        pol, vs = f
        return vs, pol

    def variant(self, c, t, adt):
        """Set of variant names possible for the discriminant of t under c."""
        vs = {x[1]: x[0] for x in self.crate.adts[adt]["variants"]}
        f = c.get(T("disc", t))
        if f is None:
            return set(vs.values())
        pol, s = f
        return {n for d, n in vs.items() if (d in s) == pol}

    def arm(self, k, s, c, val):
        R = self.R
        i = [n for n, e in enumerate(s.ev) if e[0] == "dispatchcall"]
        if not i:
            if k == "panic":
                return
            if any(e[0] in ("save", "restore", "set", "wasi", "ckpt") for e in s.ev):
                R.undecided(("C09", "C08"), "run: effects without dispatching")
            return
        if len(i) > 1:
            R.undecided(("C09", "C08"), "run: dispatches twice in one turn")
            return
        pre, post = s.ev[:i[0]], s.ev[i[0] + 1:]
        vs = self.rc(s.ev[i[0]][1])
        self.entry(vs, pre)
        if k == "panic":
            return
        st = dict(vs.args[2]) if vs.op == "adt" else {}
        out = self.variant(c, T("hout"), OUTC)
        ws = [(self.rc(e[1]), self.rc(e[2])) for e in post if e[0] == "w"]
        self.writeback(st, c, ws, k, out)
        if "Trap" in out and len(out) > 1 or len(out) != 1:
            if k == "next" or val is not None and val.op == "adt" and val.args[1] == "Ok":
                if "Trap" in out:
                    self.finding(("C08", "C02"), "trap-on", "the run loop goes on although the dispatcher may have stopped with a trap")
                else:
                    R.undecided("C08", "run: outcome %s" % sorted(out))
            else:
                R.undecided("C08", "run: outcome %s" % sorted(out))
            return
        o = list(out)[0]
        if o == "Trap":
            self.trapped(k, c, val, post)
        elif o == "Halt":
            self.returned(k, c, val, post, ws, "falls off the end")
        elif o == "Yield":
            y = T("after", self.vm.yieldf)
            ys = self.variant(c, y, "std::option::Option") if "std::option::Option" in self.crate.adts else self.opt(c, y)
            if ys == {"None"}:
                self.returned(k, c, val, post, ws, "yields nothing")
                return
            kind = self.variant(c, T("proj", y, "Some.0"), self.mli())
            if kind == {"Return"}:
                self.returned(k, c, val, post, ws, "returns")
            elif kind == {"InvokeReg"}:
                self.invoked(k, c, val, post, ws)
            elif kind == {"InvokeWasiReg"}:
                self.wasi_call(k, c, val, post, ws)
            else:
                R.undecided(("C08", "C09"), "run: transition %s" % sorted(kind))
        else:
            R.undecided("C08", "run: outcome %s" % o)

    def opt(self, c, t):
        f = c.get(T("disc", t))
        if f is None:
            return {"None", "Some"}
        pol, s = f
        return {n for d, n in ((0, "None"), (1, "Some")) if (d in s) == pol}

    def mli(self):
        return [n for n in self.crate.adts if n.endswith("::ModuleLevelInstr")][0]

    # -- entering the dispatcher
    def entry(self, vs, pre):
        R = self.R
        if getattr(self, "_entered", None) is None:
            self._entered = set()
        if vs in self._entered:
            return
        self._entered.add(vs)
        if vs.op != "adt":
            R.undecided(("C08", "C09", "C10", "C14"), "run: VM state %s" % fmt(vs)[:60])
            return
        st = dict(vs.args[2])
        cur = T("cur")
        F = lambda n: T("fld", cur, n)

        def of_caller(t):
            return has(t, lambda x: x.op == "caller")
        # position
        pc, ins = st.get(self.vm.pcf), st.get("instrs")
        lab = None
        if pc is not None and pc.op == "init" and pc.args[0].op == "fld" and pc.args[0].args[1] == "ip":
            lab = pc.args[0].args[0]
        if is_k(pc):
            self.finding(("C08", "C13", "C09"), "entry-pc", "a frame is always entered at instruction %d" % pc.args[0])
        elif lab is None or lab.op != "idx":
            R.undecided(("C08", "C13"), "run: frame entered at %s" % fmt(pc)[:80])
        else:
            top = T("Add", 64, T("len", T("init", lab.args[0])), K(-1, "usize"))
            if of_caller(pc):
                self.finding(("C08", "C09"), "entry-frame", "the frame run takes its position from another frame")
            elif not (lab.args[0].op == "fld" and lab.args[0].args[0] is cur):
                R.undecided(("C08", "C13"), "run: frame entered at %s" % fmt(pc)[:80])
            elif lab.args[1] is not top:
                self.finding(("C08", "C06", "C13"), "entry-label", "a frame resumes at the position of label %s, not of its innermost label" % fmt(lab.args[1])[:60])
            else:
                self.good(("C08", "C13"), "run: a frame resumes at the position of its innermost label")
                if st.get("current_label_idx") is not lab.args[1]:
                    self.finding(("C06", "C08"), "entry-index", "a frame resumes with label index %s" % fmt(st.get("current_label_idx"))[:60])
                body = T("fld", lab, "processed_instrs")
                if ins is not None and has(ins, lambda x: x is body):
                    self.good("C08", "run: a frame runs the code of its innermost label")
                elif ins is not None and of_caller(ins):
                    self.finding("C08", "entry-code", "the frame run takes its code from another frame")
                else:
                    R.undecided("C08", "run: code %s" % fmt(ins)[:80])
        for n, prop, what in (("handlers", ("C07", "C08"), "handlers"), ("locals", ("C09", "C28"), "locals"),
                              ("label_stack", "C06", "labels"), ("return_result_regs", "C09", "result registers")):
            t = st.get(n)
            if t is None:
                R.undecided(prop, "run: no %s in the VM state" % n)
            elif of_caller(t):
                self.finding(prop, "entry-" + n, "the frame run takes its %s from another frame" % what)
            elif has(t, lambda x: x is cur):
                self.good(prop, "run: %s of the frame itself" % what)
            else:
                R.undecided(prop, "run: %s %s" % (what, fmt(t)[:80]))
        m = st.get("mem_ptr")
        if m is not None:
            if of_caller(m):
                self.finding("C10", "entry-mem", "the frame run takes its memory pointer from another frame")
            elif has(m, lambda x: x is cur) or m.op == "null":
                self.good("C10", "run: the memory pointer is the frame's")
            else:
                R.undecided("C10", "run: memory pointer %s" % fmt(m)[:80])
        en = [st[n] for n, t in self.vm.fields.items() if self.vm.ty(t) == "bool" and n in st]
        for t in en:
            if is_k(t):
                self.finding("C14", "entry-enable", "checkpointing is always %s while a frame runs" % ("enabled" if t.args[0] else "disabled"))
            elif t.op == "init" and t.args[0].op == "fld" and t.args[0].args[1] in self.enable_fields() and not of_caller(t):
                self.good("C14", "run: checkpointing enabled as set for the frame")
            else:
                R.undecided("C14", "run: checkpointing %s" % fmt(t)[:80])
        self.counters(st)

    def counters(self, st):
        """The poll's counter survives the change of frames."""
        R = self.R
        used = [n for n in self.vm.fields if "counter" in n and n in st]
        self.persist = {}
        for n in used:
            t = st[n]
            if is_k(t):
                self.finding("C14", "entry-counter", "the poll counter starts over whenever a frame is entered: code that keeps calling short functions never notices a request")
            elif t.op == "init":
                self.persist[n] = t.args[0]
                if has(t, lambda x: x.op in ("cur", "caller")):
                    R.undecided("C14", "run: poll counter kept per frame")
                else:
                    self.good("C14", "run: the poll counter is the runtime's")
            else:
                R.undecided("C14", "run: poll counter %s" % fmt(t)[:80])

    # -- leaving it
    def writeback(self, st, c, ws, k, out):
        R = self.R
        for n, pl in self.persist.items():
            v = [y for x, y in ws if x is pl]
            if any(y is T("after", n) for y in v):
                self.good("C14", "run: the poll counter is written back")
            elif not v:
                self.finding("C14", "counter-lost", "the poll counter is not written back after a frame stops: code that keeps calling short functions never notices a request")
            else:
                R.undecided("C14", "run: poll counter written as %s" % fmt(v[-1])[:60])
        resumes = "Yield" in out or "Trap" in out
        pcs = [(x, y) for x, y in ws if x.op == "fld" and x.args[1] == "ip" and not has(x, lambda z: z.op == "uninitbox")]
        rng = [t for t in c if t.op in ("LtU", "LeU") and has(t, lambda z: z is T("after", "current_label_idx"))]
        inr = any(self.true(c, t) for t in rng)
        if resumes and (k == "next" or "Trap" in out):
            ok = [x for x, y in pcs if y is T("after", self.vm.pcf)]
            if ok:
                x = ok[-1]
                if has(x, lambda z: z is T("after", "current_label_idx")) or x.args[0].op == "idx" and x.args[0].args[1].op == "Add":
                    self.good(("C08", "C13"), "run: the position reached is kept with the current label")
                elif x.args[0].op == "idx" and is_k(x.args[0].args[1]):
                    self.finding(("C08", "C13"), "pos-label", "the position reached is kept with label %s, not with the current one" % fmt(x.args[0].args[1]))
                else:
                    R.undecided(("C08", "C13"), "run: position kept in %s" % fmt(x)[:80])
            elif pcs:
                y = pcs[-1][1]
                if y.op == "Add" and y.args[1] is T("after", self.vm.pcf) and is_k(y.args[2]):
                    self.finding(("C08", "C13"), "pos-off", "a frame resumes %+d instructions from where it stopped" % sgn(y.args[2].args[0], 64))
                else:
                    R.undecided(("C08", "C13"), "run: position kept is %s" % fmt(y)[:80])
            elif inr or not rng:
                self.finding(("C08", "C13", "C09"), "pos-lost", "the position a frame stopped at is not kept")
        m = T("fld", T("cur"), "cached_mem_ptr")
        if has(st.get("mem_ptr", T("null")), lambda x: x is m) or st.get("mem_ptr", T("x")).op == "null":
            v = [y for x, y in ws if x is m]
            if any(has(y, lambda z: z is T("after", "mem_ptr")) or self.memdata(y) for y in v) or \
                    any(y.op == "adt" and y.args[1] == "None" for y in v) and self.isnull(c):
                self.good("C10", "run: the frame keeps the memory pointer it stopped with")
            elif k == "next" and resumes and not self.popped(ws):
                if not v:
                    self.finding("C10", "mem-lost", "a frame that grew the memory and then calls does not keep the new memory pointer")
                elif any(y.op == "adt" and y.args[1] == "None" for y in v):
                    self.finding("C10", "mem-none", "a frame loses its memory pointer when it stops")
                else:
                    R.undecided("C10", "run: memory pointer kept is %s" % fmt(v[-1])[:60])

    def isnull(self, c):
        return any(t.op == "isnull" and self.true(c, t) for t in c)

    def true(self, c, t):
        f = c.get(t)
        return f is not None and (f[0] and f[1] == frozenset({1}) or not f[0] and f[1] == frozenset({0}))

    def memdata(self, y):
        return has(y, lambda z: z.op == "fld" and z.args[1] == "data") or has(y, lambda z: z.op == "proj" and z.args[1] == "data")

    def popped(self, ws):
        return any(x is T("FRAMES") and has(y, lambda z: z.op == "popped") for x, y in ws)

    def err(self, val):
        return val is not None and val.op == "adt" and val.args[1] == "Err"

    def trapped(self, k, c, val, post):
        R = self.R
        tr = T("proj", T("after", self.vm.trapf), "Some.0")
        ea = [n for n in self.crate.adts if n.endswith("::RuntimeError")][0]
        kinds = self.variant(c, tr, ea)
        ck = [e for e in post if e[0] == "ckpt"]
        if k == "next":
            self.finding(("C08", "C02"), "trap-on", "the run loop goes on after a trap")
            return
        if kinds == {"CheckpointRequested"}:
            if not ck:
                self.finding(("C14", "C12"), "no-checkpoint", "a checkpoint request stops the program without taking a checkpoint")
                return
            r = [t for t in c if t.op == "disc" and t.args[0].op == "rv" and t.args[0].args[0] == "ckpt"]
            okv = [c[t] for t in r]
            good = any(f == (True, frozenset({0})) for f in okv)
            bad = any(f == (True, frozenset({1})) or f == (False, frozenset({0})) for f in okv)
            e = self.err_of(val)
            if not self.err(val):
                if bad:
                    self.finding("C15", "ckpt-ok", "a failed checkpoint is not reported")
                else:
                    R.undecided(("C14", "C15"), "run: answer after a checkpoint %s" % fmt(val)[:60])
            elif bad:
                if e is not None and e.op == "adt" and e.args[1] == "CheckpointRequested":
                    self.finding("C15", "ckpt-failed", "a failed checkpoint is reported like a successful one")
                else:
                    self.good("C15", "run: a failed checkpoint is reported")
            elif good:
                self.good(("C14", "C15"), "run: a request takes a checkpoint and stops")
            elif not okv:
                if e is not None and e.op == "adt" and e.args[1] == "CheckpointRequested":
                    self.finding("C15", "ckpt-ignored", "whether the checkpoint was written is not looked at")
                else:
                    R.undecided("C15", "run: checkpoint result")
            self.ckpt_args(ck[0])
            return
        if ck:
            if "CheckpointRequested" not in kinds:
                self.finding(("C08", "C14"), "trap-ckpt", "a trap takes a checkpoint")
            else:
                R.undecided("C14", "run: checkpoint under %d causes" % len(kinds))
            return
        if not self.err(val):
            self.finding(("C08", "C02"), "trap-result", "a trap is reported as %s" % (fmt(val)[:60]))
            return
        e = self.err_of(val)
        if e is tr or has(e, lambda x: x is T("after", self.vm.trapf)):
            self.good("C08", "run: a trap stops the program with its cause")
        elif e is not None and e.op == "adt" and len(kinds) > 1:
            self.finding("C08", "trap-cause", "every trap is reported as %s" % e.args[1])
        else:
            R.undecided("C08", "run: trap reported as %s" % fmt(val)[:60])

    def err_of(self, val):
        if self.err(val) and val.args[2]:
            return val.args[2][0][1]
        return None

    def ckpt_args(self, e):
        """The checkpoint is given the program's own stacks, memory and globals."""
        txt = [self.rc(x) for x in e[1:]]
        if any(has(x, lambda z: z.op == "ref" and z.args[0].op == "fld" and "stacks" in str(z.args[0].args[1])) for x in txt):
            self.good("C12", "run: the checkpoint is given the live stacks")
        else:
            self.R.undecided("C12", "run: checkpoint arguments")

    # -- returning
    def returned(self, k, c, val, post, ws, how):
        R = self.R
        pops = [y for x, y in ws if x is T("FRAMES") and has(y, lambda z: z.op == "popped")]
        if self.err(val):
            lab = [t for t in c if t.op == "len" and has(t, lambda z: z.op == "fld" and "label" in str(z.args[1]))]
            R.good("C09", "run: stops with an error on a broken frame")
            return
        if not pops:
            self.finding(("C09", "C08"), "no-pop", "a frame that %s stays on the frame stack" % how)
            return
        names = [e[0] if e[0] != "loop" else self.loopkind(e) for e in post]
        gets = [i for i, n in enumerate(names) if n == "get"]
        sets = [i for i, n in enumerate(names) if n == "set"]
        rest = [i for i, n in enumerate(names) if n == "restore"]
        if len(rest) != 1:
            self.finding(("C09", "C11"), "restore-count", "a frame that %s leaves its registers %d times" % (how, len(rest)))
            return
        self.good(("C09", "C11"), "run: a frame that %s leaves its registers once" % how)
        if any(i > rest[0] for i in gets):
            self.finding("C09", "get-late", "results are read after the callee's registers were left")
        if any(i < rest[0] for i in sets):
            self.finding("C09", "set-early", "results are written before the caller's registers are back")
        caller_left = k == "next"
        lens = self.len_frames(c)
        if not caller_left:
            # the last frame: its results are the program's
            if self.last_frame(c) is False:
                self.finding("C09", "early-stop", "the program stops although a caller is waiting")
                return
            if val is not None and val.op == "adt" and val.args[1] == "Ok":
                if not gets and not has(val, lambda z: z.op in ("rv",)):
                    if self.no_results(c):
                        self.good("C09", "run: no results")
                    else:
                        self.finding("C09", "no-results", "the last frame's results are dropped")
                else:
                    self.get_regs(post, val)
            else:
                R.undecided("C09", "run: answer %s" % fmt(val)[:60])
            return
        if self.last_frame(c) is True:
            # loop ends with the frames gone: results lost
            R.undecided("C09", "run: goes on with no frame left")
            return
        self.get_regs(post, None)
        # results into the caller
        cregs = T("fld", T("caller"), "result_regs")
        empty = c.get(T("len", T("init", cregs))) == (True, frozenset({0}))
        if sets:
            okp = False
            for i in sets:
                for e in self.events(post[i]):
                    if e[0] == "set":
                        okp = self.result_pair(e) or okp
            if okp:
                self.good("C09", "run: the callee's results become the caller's result registers, in order")
        elif empty:
            self.good("C09", "run: a caller without result registers gets none")
        else:
            self.finding("C09", "results-lost", "the callee's results are not delivered to the caller")
        # memory pointer of the caller
        m = T("fld", T("caller"), "cached_mem_ptr")
        v = [y for x, y in ws if x is m]
        pm = c.get(T("disc", T("init", T("fld", T("caller"), "primary_mem"))))
        if any(self.memdata(y) and not has(y, lambda z: z is T("cur")) or has(y, lambda z: z is T("after", "mem_ptr")) for y in v):
            self.good("C10", "run: the caller's memory pointer is refreshed on return")
        elif v and any(y.op == "adt" and y.args[1] == "None" for y in v) and pm == (True, frozenset({0})):
            self.good("C10", "run: no memory")
        elif not v:
            self.finding("C10", "mem-stale", "the caller's memory pointer is not refreshed when a callee that may have grown the memory %s" % how)
        elif any(self.memdata(y) for y in v):
            R.undecided("C10", "run: the caller's memory pointer comes from the callee's memory")
        else:
            R.undecided("C10", "run: the caller's memory pointer becomes %s" % fmt(v[-1])[:60])

    def len_frames(self, c):
        return c.get(T("len", T("init", T("FRAMES"))))

    def last_frame(self, c):
        f = self.len_frames(c) or c.get(T("len", T("FRAMES")))
        if f is None:
            return None
        pol, s = f
        if pol and s == frozenset({1}):
            return True
        if not pol and 1 in s:
            return False
        return None

    def no_results(self, c):
        return any(t.op == "len" and f == (True, frozenset({0})) and has(t, lambda z: z.op == "fld" and "result" in str(z.args[1])) for t, f in c.items())

    def events(self, e):
        if e[0] == "loop":
            for evs, _ in e[2]:
                for x in evs:
                    for y in self.events(x):
                        yield y
        else:
            yield e

    def loopkind(self, e):
        ks = {x[0] for x in self.events(e)}
        for n in ("get", "set", "restore", "save"):
            if n in ks:
                return n
        return "loop"

    def get_regs(self, post, val):
        """Results are read from the finished frame's result registers."""
        R = self.R
        pl = T("fld", T("cur"), "return_result_regs")
        for e in post:
            for x in self.events(e):
                if x[0] == "get":
                    t = self.rc(x[2])
                    ix = self.index_in(t)
                    if has(t, lambda z: z is pl) and ix is not None and ix.op in ("revidx", "Add"):
                        self.finding("C09", "get-order", "the callee's results are read in another order: element %s" % fmt(ix)[:60])
                    elif has(t, lambda z: z is pl):
                        self.good("C09", "run: results are read from the finished frame's result registers")
                    elif has(t, lambda z: z.op == "caller"):
                        self.finding("C09", "get-regs", "the callee's results are read from registers of the caller")
                    else:
                        R.undecided("C09", "run: results read from %s" % fmt(t)[:80])

    def result_pair(self, e):
        """set(reg, value) pairs the n-th result register with the n-th result."""
        R = self.R
        reg, v = self.rc(e[2]), self.rc(e[3])
        cr = T("fld", T("caller"), "result_regs")
        if not has(reg, lambda z: z is cr):
            if has(reg, lambda z: z is T("cur")):
                self.finding("C09", "set-regs", "the callee's results are written to registers of the callee's frame")
            else:
                R.undecided("C09", "run: results written to %s" % fmt(reg)[:80])
            return False
        i, j = self.index_in(reg), self.index_in(v)
        if i is None or j is None:
            R.undecided("C09", "run: result %s into %s" % (fmt(v)[:60], fmt(reg)[:60]))
            return False
        if i is j:
            return True
        if self.anyidx(i) & self.anyidx(j):
            self.finding("C09", "results-order", "result %s of the callee is written to result register %s of the caller" % (fmt(j)[:60], fmt(i)[:60]))
            return False
        R.undecided("C09", "run: result %s into %s" % (fmt(v)[:60], fmt(reg)[:60]))
        return False

    def index_in(self, t):
        """The index of the outermost element access."""
        while True:
            if t.op in ("ref", "pval", "init"):
                t = t.args[0]
            elif t.op in ("elem", "idx"):
                return t.args[1]
            elif t.op == "rev":
                return t
            else:
                return None

    def anyidx(self, t):
        r, st, seen = set(), [t], set()
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                st.extend(x)
            elif isinstance(x, Term) and x not in seen:
                seen.add(x)
                if x.op == "anyidx":
                    r.add(x)
                st.extend(x.args)
        return r

    # -- calling
    def invoked(self, k, c, val, post, ws):
        R = self.R
        y = T("proj", T("after", self.vm.yieldf), "Some.0")
        P = lambda n: T("proj", y, "InvokeReg." + n)
        names = [e[0] if e[0] != "loop" else self.loopkind(e) for e in post]
        pushes = [v for x, v in ws if x is T("FRAMES") and v.op == "push"]
        fi = [n for n in self.crate.adts if n.endswith("::FuncInst")]
        kinds = None
        for t in c:
            if t.op == "disc" and has(t, lambda z: z is P("func_addr")) and t.args[0].op in ("init",) and t.args[0].args[0].op == "cell":
                kinds = self.variant(c, t.args[0], fi[0])
        if k != "next":
            if self.err(val):
                if kinds == {"WasiFunc"} and not any(e[0] == "wasi" for e in post):
                    self.finding(("C09", "C19"), "wasi-refused", "an imported WASI function called through a table is refused")
                elif kinds == {"WasiFunc"}:
                    self.good("C09", "run: a WASI call that cannot be made stops the program")
                elif kinds == {"RuntimeFunc"}:
                    R.good("C09", "run: a call fails with an error")
                else:
                    R.good("C09", "run: a failed host function stops the program")
            else:
                self.finding(("C09", "C08"), "call-stop", "the program stops at a call with %s" % fmt(val)[:60])
            return
        if kinds == {"HostFunc"}:
            ok = False
            for e in post:
                for x in self.events(e):
                    if x[0] == "c" and x[1].endswith("::call"):
                        if has(self.rc(x[2]), lambda z: z is P("params")):
                            self.good("C09", "run: a host function gets the arguments")
                        else:
                            R.undecided("C09", "run: host function arguments")
                    if x[0] == "set":
                        ok = True
                        if has(self.rc(x[2]), lambda z: z is P("result_regs")):
                            self.good("C09", "run: a host function's results go to the result registers")
                        else:
                            R.undecided("C09", "run: host function result into %s" % fmt(self.rc(x[2]))[:60])
            return
        if kinds == {"WasiFunc"}:
            self.wasi_call(k, c, val, post, ws, "InvokeReg.", T("proj", P("func_addr"), "0"))
            return
        if kinds != {"RuntimeFunc"}:
            R.undecided("C09", "run: call of %s" % kinds)
            return
        if len(pushes) != 1:
            self.finding("C09", "push-count", "a call pushes %d frames" % len(pushes))
            return
        f = pushes[0].args[1]
        if f.op != "adt":
            R.undecided("C09", "run: frame %s" % fmt(f)[:60])
            return
        nf = dict(f.args[2])
        code = lambda t: has(t, lambda z: z is P("func_addr"))
        # registers
        sv = [e for e in post if e[0] == "save"]
        al = [t for t in c if t.op == "disc" and has(t, lambda z: z.op == "fld" and z.args[1] == "reg_allocation")]
        none = any(c[t] == (True, frozenset({0})) for t in al)
        if len(sv) > 1:
            self.finding(("C09", "C11"), "save-count", "a call enters fresh registers %d times" % len(sv))
        elif not sv and not none:
            self.finding(("C09", "C11"), "no-save", "a call does not enter fresh registers: the callee overwrites its caller's")
        elif sv:
            t = self.rc(sv[0][2])
            if code(t):
                self.good(("C09", "C11"), "run: a call enters fresh registers sized for the callee")
            elif has(t, lambda z: z.op in ("cur", "caller")):
                self.finding(("C09", "C11"), "save-size", "fresh registers are not sized for the callee")
            else:
                R.undecided("C11", "run: fresh registers of size %s" % fmt(t)[:60])
        # result registers
        rr = T("fld", T("cur"), "result_regs")
        v = [yv for x, yv in ws if x is rr]
        if any(x is P("result_regs") for x in v):
            self.good("C09", "run: the caller remembers its result registers")
        elif not v and nf.get("result_regs") is P("result_regs"):
            self.finding("C09", "regs-callee", "the call's result registers are kept in the callee's frame")
        elif not v:
            self.finding("C09", "regs-lost", "the call's result registers are not remembered")
        else:
            R.undecided("C09", "run: result registers %s" % fmt(v[-1])[:60])
        # frame
        fr = nf.get("frame")
        if fr is not None and fr.op == "adt":
            ff = dict(fr.args[2])
            self.locals(ff.get("locals"), P("params"))
            n = ff.get("n")
            if n is not None:
                if has(n, lambda z: z.op in ("fld", "proj") and str(z.args[1]).endswith("results")):
                    self.good("C09", "run: the frame returns as many values as its type says")
                elif is_k(n) or has(n, lambda z: z.op in ("fld", "proj") and str(z.args[1]).endswith("params")):
                    self.finding("C09", "arity", "the frame returns %s values" % fmt(n)[:60])
                else:
                    R.undecided("C09", "run: frame arity %s" % fmt(n)[:60])
            mo = ff.get("module")
            if mo is not None:
                if code(mo):
                    self.good("C09", "run: the frame's module is the callee's")
                else:
                    R.undecided("C09", "run: frame module %s" % fmt(mo)[:60])
        en = [nf[n] for n in self.enable_fields() if n in nf]
        for t in en:
            if is_k(t):
                self.finding("C14", "call-enable", "checkpointing is always %s in a called function" % ("enabled" if t.args[0] else "disabled"))
            elif t.op == "init":
                self.good("C14", "run: a called function polls like its caller")
            else:
                R.undecided("C14", "run: checkpointing of a called function %s" % fmt(t)[:60])
        h = nf.get("handlers")
        if h is not None:
            if code(h):
                self.good("C07", "run: a called function runs with its own handlers")
            elif has(h, lambda z: z.op in ("cur", "caller")):
                self.finding("C07", "call-handlers", "a called function runs with its caller's handlers")
            else:
                R.undecided("C07", "run: handlers of a called function %s" % fmt(h)[:60])
        for n in ("return_result_regs", "result_regs"):
            t = nf.get(n)
            if t is not None and has(t, lambda z: z.op in ("cur", "caller")):
                self.finding("C09", "call-" + n, "a called function starts with its caller's %s" % n)
        self.labels(nf.get("label_stack"), ws, code)
        self.memory(nf, c)

    def memory(self, nf, c):
        R = self.R
        t, p = nf.get("cached_mem_ptr"), nf.get("primary_mem")
        if t is None or p is None:
            R.undecided("C10", "run: memory of a called function")
            return
        if p.op == "adt" and p.args[1] == "Some":
            if t.op == "adt" and t.args[1] == "None":
                self.finding("C10", "call-mem", "a called function starts without the memory its module has")
            elif self.memdata(t) and not has(t, lambda z: z is T("fld", T("cur"), "cached_mem_ptr")):
                self.good("C10", "run: a called function starts with its memory's current block")
            elif has(t, lambda z: z is T("after", "mem_ptr")):
                self.good("C10", "run: a called function starts with its caller's current block")
            elif has(t, lambda z: z.op in ("cur", "caller")):
                self.finding("C10", "call-mem-stale", "a called function starts with a memory pointer kept by a frame before it ran")
            else:
                R.undecided("C10", "run: memory of a called function %s" % fmt(t)[:60])
        else:
            self.good("C10", "run: a module without memory")

    def labels(self, t, ws, code):
        R = self.R
        arr = None
        if t is not None and t.op in ("array", "vec"):
            arr = t
        else:
            for x, y in ws:
                if y.op in ("array", "vec") and has(x, lambda z: t is not None and (z is t or z.op == "uninitbox")):
                    arr = y
        if arr is None or not arr.args[0]:
            R.undecided(("C09", "C06"), "run: labels of a called function %s" % (fmt(t)[:60] if t is not None else None))
            return
        ls = arr.args[0]
        if len(ls) != 1:
            self.finding("C06", "call-labels", "a called function starts inside %d labels" % len(ls))
            return
        l = dict(ls[0].args[2]) if ls[0].op == "adt" else {}
        ip, body = l.get("ip"), l.get("processed_instrs")
        if ip is not None and is_k(ip):
            if ip.args[0] == 0:
                self.good("C09", "run: a called function starts at its first instruction")
            else:
                self.finding(("C09", "C08"), "call-ip", "a called function starts at instruction %d" % ip.args[0])
        elif ip is not None and has(ip, lambda z: z.op in ("after", "cur", "caller")):
            self.finding(("C09", "C08"), "call-ip", "a called function starts at %s" % fmt(ip)[:60])
        else:
            R.undecided("C09", "run: start of a called function %s" % (fmt(ip)[:60] if ip is not None else None))
        if body is not None and code(body):
            self.good("C09", "run: a called function runs its own code")
        elif body is not None and has(body, lambda z: z.op in ("cur", "caller")):
            self.finding("C09", "call-code", "a called function runs its caller's code")
        else:
            R.undecided("C09", "run: code of a called function")

    def locals(self, t, params):
        """Arguments in order, then the declared locals at the zero value of their type."""
        R = self.R
        if t is None:
            R.undecided("C09", "run: locals of a called function")
            return
        if t is params:
            self.finding("C09", "locals-missing", "a called function has no locals beyond its parameters")
            return
        chain, seen = t, set()
        ok = True
        while chain.op == "lv" and chain not in seen:
            seen.add(chain)
            info = self.eng.lvinfo.get(self.raw(chain))
            if not info:
                R.undecided("C09", "run: locals %s" % fmt(t)[:60])
                return
            nxt = None
            for entry, backs in info:
                entry = self.rc(entry)
                nxt = entry if not (entry.op == "lv" and entry in seen) else nxt
                for b, conds in backs:
                    b = self.rc(b)
                    if b is chain or b.op == "lv":
                        if b.op == "lv" and b not in seen:
                            self.locals_loop(b, params)
                        continue
                    if b.op == "push" and b.args[0] is chain:
                        self.default(b.args[1], conds)
                    else:
                        R.undecided("C09", "run: locals grow by %s" % fmt(b)[:60])
                        ok = False
            if nxt is None:
                break
            chain = nxt
        if chain is params:
            if ok:
                self.good("C09", "run: a called function's locals start with the arguments")
        elif chain.op in ("vec", "from_elem") or chain.op == "adt":
            self.finding("C09", "locals-args", "a called function's locals do not start with the arguments")
        else:
            R.undecided("C09", "run: locals start as %s" % fmt(chain)[:60])
        self.counts()

    def locals_loop(self, lv, params):
        info = self.eng.lvinfo.get(self.raw(lv))
        for entry, backs in info or ():
            for b, conds in backs:
                b = self.rc(b)
                if b.op == "push" and b.args[0] is lv:
                    self.default(b.args[1], conds)

    def raw(self, t):
        return t

    def default(self, v, conds):
        """A local's first value is the zero of the type its declaration names."""
        R = self.R
        want = None
        vt = [n for n in self.crate.adts if n.endswith("types::ValueType") or n.endswith("::ValueType")]
        nt = [n for n in self.crate.adts if n.endswith("::NumType")]
        names = {x[1]: x[0] for x in self.crate.adts[vt[0]]["variants"]}
        nn = {x[1]: x[0] for x in self.crate.adts[nt[0]]["variants"]} if nt else {}
        kinds = set()
        for c in conds:
            a = b = None
            for t, f in c.items():
                if t.op != "disc" or not f[0] or len(f[1]) != 1:
                    continue
                s = fmt(t.args[0])
                d = list(f[1])[0]
                if "locals" in s and s.endswith("NumType.0"):
                    b = nn.get(d)
                elif "locals" in s and t.args[0].op == "init":
                    a = a or names.get(d)
            kinds.add(b if a == "NumType" and b else a)
        got, zero = None, None
        x = v
        path = []
        while x.op == "adt" and x.args[2]:
            path.append(x.args[1])
            x = x.args[2][0][1]
        if x.op == "adt":
            path.append(x.args[1])
        lab = {"Ref": "ref", "Vec_": "v128", "Num": path[1].lower() if len(path) > 1 else None}.get(path[0] if path else None)
        if lab is None:
            R.undecided("C09", "run: a local starts as %s" % fmt(v)[:60])
            return
        if lab == "ref":
            if "RefNull" not in path:
                self.finding("C09", "default-ref", "a reference local starts as %s" % fmt(v)[:60])
        elif is_k(x) and x.args[0] != 0:
            self.finding("C09", "default-" + lab, "a local of type %s starts as %s" % (lab, fmt(x)))
            return
        elif not is_k(x):
            R.undecided("C09", "run: a local starts as %s" % fmt(v)[:60])
            return
        want = {(k or "").lower().replace("reftype", "ref").replace("vectype", "v128").replace("vec", "v128") for k in kinds}
        want = {"v128" if "v128" in w else "ref" if "ref" in w else w for w in want}
        if want == {lab}:
            self.good("C09", "run: a local of type %s starts at zero or null" % lab)
        elif len(want) == 1 and list(want)[0] in ("i32", "i64", "f32", "f64", "ref", "v128"):
            self.finding("C09", "default-type", "a local of type %s starts as a value of type %s" % (list(want)[0], lab))
        else:
            R.undecided("C09", "run: a local of type %s starts as %s" % (sorted(want), lab))

    def counts(self):
        """As many locals as each declaration says."""
        if getattr(self, "_counts", False):
            return
        self._counts = True
        self.whole()
        for k, its in self.eng.iters.items():
            for it in its:
                if it.op == "itrange" and "locals" in fmt(it):
                    lo, hi = it.args[0], it.args[1]
                    if is_k(lo) and lo.args[0] == 0 and hi.op == "init":
                        self.good("C09", "run: as many locals as declared")
                    elif is_k(lo) and hi.op == "init" or hi.op == "Add" and is_k(hi.args[2]):
                        self.finding("C09", "locals-count", "locals of a declaration are counted from %s to %s" % (fmt(lo), fmt(hi)[:60]))
                    else:
                        self.R.undecided("C09", "run: locals counted %s" % fmt(it)[:80])

    WHOLE = {"locals": "declarations of a called function's locals", "result_regs": "results of a call", "return_result_regs": "results of a call",
             "params": "arguments of a call"}

    def whole(self):
        """Walks over what a call passes that leave out what lies beyond a fixed number."""
        def go(x):
            if not isinstance(x, Term):
                return
            if x.op in ITS:
                if x.op == "ittake" and is_k(x.args[1]):
                    self.cut(x.args[0], x.args[1].args[0])
                for y in x.args[:2]:
                    go(y)
            elif x.op == "range" and isinstance(x.args[2], Term) and is_k(x.args[2]):
                self.cut(x.args[0], x.args[2].args[0])
        for its in self.eng.iters.values():
            for it in its:
                go(it)
        for k, x in self.eng.cuts:
            self.cut(x, k)

    def cut(self, x, k):
        fs = set()

        def names(t):
            if isinstance(t, Term):
                if t.op in ("fld", "proj") and isinstance(t.args[1], str):
                    fs.add(t.args[1].rsplit(".", 1)[-1])
                    return               # the sequence itself, not what it was found by
                for y in t.args:
                    names(y)
            elif isinstance(t, tuple):
                for y in t:
                    names(y)
        names(x)
        for n in fs & set(self.WHOLE):
            if k < 1000:
                self.finding("C09", "part-" + n, "only the first %d %s are passed on" % (k, self.WHOLE[n]))

    # -- WASI
    def wasi_call(self, k, c, val, post, ws, pre="InvokeWasiReg.", callee=None):
        R = self.R
        y = T("proj", T("after", self.vm.yieldf), "Some.0")
        regf = "result_reg" if callee is None else "result_regs"
        P = lambda n: T("proj", y, pre + n)
        named = P("wasi_func_type") if callee is None else P("func_addr")
        w = [e for e in post if e[0] == "wasi"]
        if len(w) != 1:
            self.finding(("C16",), "wasi-count", "a WASI call runs %d host operations" % len(w))
            return
        a = [self.rc(x) for x in w[0][1:]]
        if has(a[1], lambda z: z is named) and has(a[2], lambda z: z is P("params")):
            self.good("C16", "run: a WASI call runs the operation named with the operands given")
        else:
            R.undecided("C16", "run: WASI call arguments %s" % [fmt(x)[:40] for x in a])
        rv = [t for t in c if t.op == "disc" and t.args[0].op == "rv" and t.args[0].args[0] == "wasi"]
        failed = any(c[t] in ((True, frozenset({1})), (False, frozenset({0}))) for t in rv)
        okd = any(c[t] == (True, frozenset({0})) for t in rv)
        sets = [e for e in post if e[0] == "set"]
        if failed:
            if k == "next" and not sets:
                self.finding(("C16", "C18"), "wasi-swallow", "a WASI call that failed in the runtime goes on without a result")
            elif self.err(val):
                self.good("C16", "run: a WASI call that cannot be made stops the program")
            else:
                R.undecided("C16", "run: failed WASI call")
            return
        if not okd:
            R.undecided("C16", "run: WASI result")
            return
        reg = c.get(T("disc", P("result_reg")))
        if sets:
            e = sets[0]
            if has(self.rc(e[2]), lambda z: z is P(regf)) and has(self.rc(e[3]), lambda z: z.op == "rv" and z.args[0] == "wasi"):
                self.good(("C16", "C18"), "run: the WASI error number becomes the call's result")
            elif has(self.rc(e[3]), lambda z: z.op == "rv"):
                R.undecided("C16", "run: WASI result into %s" % fmt(self.rc(e[2]))[:60])
            else:
                self.finding(("C16", "C18"), "wasi-result", "the result of a WASI call is %s" % fmt(self.rc(e[3]))[:60])
        else:
            some = any(t.op == "disc" and has(t, lambda z: z.op == "rv" and z.args[0] == "wasi") and t not in rv and c[t] == (True, frozenset({1})) for t in c)
            if some and reg is not None and reg == (True, frozenset({1})):
                self.finding(("C16", "C18"), "wasi-dropped", "the error number of a WASI call is dropped")
            else:
                self.good("C16", "run: a WASI call without result")
        if k != "next":
            self.finding("C16", "wasi-stop", "the program stops after a WASI call")
