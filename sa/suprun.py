"""Operators this machine has no instructions for: the compiler must refuse a body that contains one. And the types the compiler
looks up for locals, globals and tables."""
import re
from ctl import *
from result import Result, Finding
from ctlrun import Ctl

# operators with semantics of their own in the other analyses, and those whose absence no program can observe
HANDLED = re.compile(r"^((I32|I64|F32|F64)(?!Atomic)|Local(Get|Set|Tee)$|Global(Get|Set)$|Memory(Size|Grow|Copy|Fill|Init)$|DataDrop$|"
                     r"Table(Get|Set|Fill)$|Ref(Null|IsNull)$|(Unreachable|Nop|Block|Loop|If|Else|End|Br|BrIf|BrTable|Return|Call|CallIndirect|"
                     r"Drop|Select|TypedSelect)$)")
UNSEEN = {"ElemDrop", "AtomicFence", "RefAsNonNull", "AnyConvertExtern", "ExternConvertAny", "MemoryDiscard"}
P = ("C24", "C04")


def run(cfg):
    C = Ctl(cfg)
    R, n, und = Result(), 0, 0
    base = Seq(C.L, ["i32", "i32"], [], ())
    for l in ("i64", "i32", "i32", "i32", "i32"):
        base.move(l, 1)
    env0 = dict(base.env)
    skip = [r for r in env0 if r == "alloc" or "pc" in r.split("_")]
    for v in C.crate.adts[OPER]["variants"]:
        name = v[0]
        if HANDLED.match(name) or name in UNSEEN:
            continue
        n += 1
        try:
            backs, outs = follow(base, env0, base.operator(name))
        except (Stuck, Missing, Budget) as x:
            R.undecided(P, "%s: %s" % (name, str(x)[:80]))
            continue
        lost = None
        for s in backs:
            if all(s[r] is env0[r] for r in env0 if r not in skip):
                lost = s
        if lost is not None:
            R.findings.append(Finding(P, "sup:dropped:" + name, "a function body with %s is compiled as if the operator were not there [%s build]" % (name, cfg),
                                      base.px.fn.name))
        elif backs:
            R.undecided(P, name + " is compiled to something")
        elif outs:
            R.findings.append(Finding(P, "sup:cut:" + name, "decoding of a function body ends successfully at %s [%s build]" % (name, cfg), base.px.fn.name))
        else:
            R.good(P, "%s: a body with %s is refused" % (cfg, name))
    R.scope["operators without instructions [%s]" % cfg] = n
    R.merge(lookups(C))
    return R


def follow(q, env0, op):
    """Loop variables after each way of going on past the operator, and the number of successful ends of decoding at it."""
    px = q.px
    q.env = dict(env0)
    q.cur, q.follow = op, None
    eng = q.engine()
    fr = Frame(px.fn, eng.fid(0, ("top", px.fn.name)), {})
    st = State()
    for r in px.vars:
        st.env[px.loc(r, fr.fid)] = env0[r]
    st.conds = [q.depthfacts()]
    eng.steps = 0
    eng.stack.append(px.fn.name)
    outs = []
    ex, backs = eng.explore(fr, px.fn.loops()[px.head], px.head, [st], outs, is_head=True)
    for b, s in ex:
        eng.explore(fr, None, b, [s], outs)
    eng.stack.pop()
    good = [o for o in outs if o.kind == "ret" and not failed(eng.close(o.st, o.val))]
    return [{r: eng.close(s, eng.read(s, px.loc(r, fr.fid))) for r in px.vars} for s in backs], len(good)


def failed(v):
    return v.op == "adt" and v.args[1] == "Err"


# -- the compiler's type lookups, which the other analyses take as given ---------------------------------------
M = "structure::module::"
PARAMS = ("i32", "i64", "f32")
LOCALS = ((2, "f64"), (0, "i64"), (300, "i32"), (1, "f32"), (40000, "i64"), (1, "i32")) + tuple((1 + i % 3, ("f64", "i32", "i64", "f32")[i % 4]) for i in range(30)) + ((5, "f64"),)
IMPORTS = (("Global", "i64", 0), ("Func",), ("Table", "externref"), ("Global", "f32", 1), ("Mem",), ("Table", "funcref"), ("Global", "i32", 1), ("Func",),
           ("Global", "f64", 0), ("Table", "externref"))
LANES_ = ("f64", "i32", "externref", "i64", "f32", "funcref", "i64")
TABLES = ("funcref", "externref", "externref") + ("funcref", "externref") * 6


def lookups(C):
    R, cr = Result(), C.crate
    n = 0
    for f in C.L.ltype_fns:
        want = list(PARAMS)
        for k, t in LOCALS:
            want += [t] * k
        tell = sorted({0, 1, 2, len(want) - 1} | {i for i in range(len(want)) if i and want[i] != want[i - 1]} | {i - 1 for i in range(1, len(want)) if want[i] != want[i - 1]}
                      | {3 + 256, 3 + 255, 32767, 32768})
        locs = vec([T("tuple", (K(k, "u32"), vtype(cr, t))) for k, t in LOCALS])
        for i in tell:
            a = []
            for j in range(1, f.nargs + 1):
                ty = f.lty(j)
                a.append(K(i, "u32") if ty == "u32" else T("ref", T("pval", locs if "(u32" in ty else vec([vtype(cr, t) for t in PARAMS]))))
            n += 1
            judge(R, C, f, a, vtype(cr, want[i]), ("C28", "C04"), "local", "local %d of %d" % (i, len(want)))
    for f in C.L.gtype_fns:
        glob = f.name == getattr(C.L, "gtype", None)
        for shape, imps in (("imports first", IMPORTS), ("none imported", ()), ("other imports", (("Func",), ("Mem",), ("Table", "externref") if glob else ("Global", "i32", 1), ("Func",)))):
            own = list(LANES_) * 200 if glob and not imps else list(LANES_) if glob else list(TABLES)
            m = module(C, imps, own if glob else LANES_, TABLES if glob else own)
            if m is None:
                R.undecided(("C20", "C04") if glob else ("C27", "C04"), "parts of a module")
                continue
            want = [x[1] for x in imps if x[0] == ("Global" if glob else "Table")] + own
            for i in range(len(want)) if len(want) < 60 else list(range(20)) + [127, 128, 255, 256, 1023, 1024, len(want) - 1]:
                a = [K(i, "u32") if f.lty(j) == "u32" else T("ref", T("pval", m)) for j in range(1, f.nargs + 1)]
                n += 1
                judge(R, C, f, a, vtype(cr, want[i]), ("C20", "C04") if glob else ("C27", "C04"), "global" if glob else "table", "%s %d, %s" % ("global" if glob else "table", i, shape))
    R.scope["type lookups [%s]" % C.cfg] = n
    return R


def judge(R, C, f, args, want, props, kind, what):
    e = C.L.C.px.engine({})
    e.unroll = True
    try:
        outs = e.run(f, args)
    except (Stuck, Missing, Budget, Unsupported) as x:
        R.undecided(props, "%s: %s" % (what, str(x)[:60]))
        return
    for o in outs:
        v = e.close(o.st, o.val) if o.kind == "ret" else None
        if v is want:
            R.good(props, "%s: type of %s" % (C.cfg, what))
        elif any(o.st.conds) and len(outs) > 1 or v is not None and not ground(v):
            R.undecided(props, "type of %s" % what)
        else:
            R.findings.append(Finding(props, "sup:type:" + kind, "the compiler takes %s to be %s instead of %s [%s build]" % (
                what, "nothing" if v is None else name(v), name(want), C.cfg), f.name))


def name(v):
    while v.op == "adt" and v.args[2]:
        v = v.args[2][0][1]
    return str(v.args[1]) if v.op == "adt" else fmt(v)[:40]


def ground(v):
    return v.op == "adt" and all(ground(x[1]) for x in v.args[2])


def module(C, imps, globs, tabs):
    """A module with these imports, globals and tables."""
    cr = C.crate
    A = cr.adts

    def fieldty(ty):
        return [(x[0], cr.types[x[1]]) for x in A[ty]["variants"][0][2]]

    def gt(t, mut):
        ty = "structure::types::GlobalType"
        return T("adt", ty, A[ty]["variants"][0][0], tuple(
            (n, vtype(cr, t) if y == VT else T("adt", y, [v[0] for v in A[y]["variants"]][mut], ()) if y in A and len(A[y]["variants"]) == 2 else T("var", "gt_" + n)) for n, y in fieldty(ty)))

    def tt(t):
        ty = "structure::types::TableType"
        return T("adt", ty, A[ty]["variants"][0][0], tuple(
            (n, vtype(cr, t).args[2][0][1] if y == "structure::types::RefType" else T("var", "tt_" + n)) for n, y in fieldty(ty)))

    def one(ty, by):
        return T("adt", ty, A[ty]["variants"][0][0], tuple((n, by[y] if y in by else T("var", "m_" + n)) for n, y in fieldty(ty)))
    if any(x not in A for x in (M + "Import", M + "ImportDesc", M + "Global", M + "Table", M + "Module", "structure::types::GlobalType", "structure::types::TableType")):
        return None
    iv = []
    for x in imps:
        p = gt(x[1], x[2]) if x[0] == "Global" else tt(x[1]) if x[0] == "Table" else T("var", "desc")
        if x[0] not in [v[0] for v in A[M + "ImportDesc"]["variants"]]:
            return None
        iv.append(one(M + "Import", {M + "ImportDesc": T("adt", M + "ImportDesc", x[0], (("0", p),))}))
    lists = {M + "Import": iv, M + "Global": [one(M + "Global", {"structure::types::GlobalType": gt(t, i % 2)}) for i, t in enumerate(globs)],
             M + "Table": [one(M + "Table", {"structure::types::TableType": tt(t)}) for t in tabs]}
    fs = []
    for n, y in fieldty(M + "Module"):
        for k, l in lists.items():
            if y.startswith("std::vec::Vec<%s>" % k) or y.startswith("std::vec::Vec<%s," % k):
                fs.append((n, vec(l)))
                break
        else:
            fs.append((n, K(sum(x[0] == "Func" for x in imps), "usize") if y == "usize" else T("var", "module_" + n)))
    return T("adt", M + "Module", A[M + "Module"]["variants"][0][0], tuple(fs))
