"""Capacities: containers of fixed size that hold a function's operands or results, and the width registers are numbered with."""
import re
from base import crates
from engine import T, Term, K
from opsem import Missing
from result import Result, Finding
import modrun

CONTAINER = re.compile(r"(arrayvec::ArrayVec|heapless::Vec|heapless::vec::Vec)<(.*), (\d+)>")
FILLS = {"push", "insert", "extend", "from_iter", "try_extend_from_slice", "push_unchecked", "collect", "from"}
HELD = ("execution::regs::Reg", "execution::value::Val")


def callee(t):
    fo = t[1]
    return fo[1]["fn"] if fo[0] == "k" and "fn" in fo[1] else None


def consts(f):
    def go(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "k" and isinstance(x[1], dict) and "v" in x[1]:
                yield x[1]["v"]
            else:
                for y in x:
                    for z in go(y):
                        yield z
    for b in f.blocks:
        for z in go(b.get("s", [])):
            yield z
        for z in go(b["t"]):
            yield z


def capacity(cfg):
    """No list of registers or values of a call is put in a container that holds only so many."""
    c = crates(cfg)[0]["lib"]
    R, n = Result(), 0
    for f in c.fns.values():
        for b in f.blocks:
            t = b["t"]
            if t[0] not in ("call", "tailcall"):
                continue
            fn = callee(t)
            if fn is None:
                continue
            name = fn["def"].rsplit("::", 1)[1]
            if name not in FILLS:
                continue
            n += 1
            tys = [c.types[g] if isinstance(g, int) else str(g) for g in fn.get("ga", [])]
            held = [m for m in map(CONTAINER.search, tys) if m] if name in ("collect", "from", "from_iter", "extend") else []
            cap = None
            if held:
                cap, elem = int(held[0].group(3)), held[0].group(2)
            elif re.match(r"^(arrayvec::ArrayVec|heapless)", fn["def"]) and len(tys) >= 2 and tys[1].isdigit():
                cap, elem = int(tys[1]), tys[0]
            if cap is None or elem not in HELD:
                continue
            guard = any(isinstance(k, int) and 0 < k <= cap + 1 and b2["t"][0] in ("switch", "assert") for b2 in f.blocks for k in consts_of(b2, ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"))) or \
                any((callee(b2["t"]) or {"def": ""})["def"].rsplit("::", 1)[1] in ("is_full", "remaining_capacity", "capacity", "take")
                    for b2 in f.blocks if b2["t"][0] == "call" and callee(b2["t"]) and "::" in callee(b2["t"])["def"])
            line = t[-1] if isinstance(t[-1], int) else f.line
            if guard or cap >= 1000:
                R.undecided("C09", "%s: fills a container of %d %s" % (f.name, cap, elem))
            else:
                R.findings.append(Finding(("C09",), "capacity:" + f.name, "a function's %s are put in a container that holds %d: more abort the call [%s build]" % (
                    "registers" if elem.endswith("Reg") else "values", cap, cfg), "%s (%s:%s)" % (f.name, f.file, line)))
    R.good("C09", "no list of a call's operands or results is put in a container of fixed capacity (%d fills of containers)" % n)
    R.scope["%s: fills of containers" % cfg] = n
    return R


BY_FILE = {"src/parser.rs": ("C25",), "src/execution/migration.rs": ("C12", "C13"), "src/execution/module.rs": ("C22",), "src/execution/runtime.rs": ("C09",),
           "src/execution/handlers.rs": ("C06", "C09")}
PROGRAM = re.compile(r"\b(execution|structure|parser|wasmparser)::")


def cuts(cfg):
    """Walks over lists whose length the program sets that stop after a fixed number of items."""
    c = crates(cfg)[0]["lib"]
    R, n = Result(), 0
    for f in c.fns.values():
        ps = BY_FILE.get(f.file)
        if ps is None:
            continue
        for b in f.blocks:
            t = b["t"]
            if t[0] not in ("call", "tailcall") or callee(t) is None:
                continue
            fn = callee(t)
            name = fn["def"].rsplit("::", 1)[1]
            if name not in ("take", "truncate") or len(t[2]) != 2:
                continue
            tys = [c.types[g] if isinstance(g, int) else str(g) for g in fn.get("ga", [])]
            n += 1
            k = t[2][1]
            if k[0] != "k" or not isinstance(k[1], dict) or not isinstance(k[1].get("v"), int) or k[1]["v"] < 2 or not tys or not PROGRAM.search(tys[0]):
                continue
            if k[1]["v"] > 1000000:
                continue
            line = t[-1] if isinstance(t[-1], int) else f.line
            R.findings.append(Finding(ps, "cut:" + f.name, "only the first %d of a list whose length the program sets are used (%s) [%s build]" % (k[1]["v"], tys[0][:80], cfg),
                                      "%s (%s:%s)" % (f.name, f.file, line)))
    for p in sorted({p for ps in BY_FILE.values() for p in ps}):
        R.good(p, "no list whose length the program sets is cut at a fixed length (%d cuts looked at)" % n)
    return R


def consts_of(b, ops):
    for s in b.get("s", []):
        if s[0] == "=" and isinstance(s[2], list) and s[2][0] == "bin" and s[2][1] in ops:
            for x in s[2][2:4]:
                if isinstance(x, list) and x[0] == "k" and isinstance(x[1], dict):
                    yield x[1].get("v")


def numbering(cfg):
    """A body that needs more registers than can be numbered is refused; one that does not is not."""
    R = Result()
    try:
        m = modrun.Mod(cfg)
    except Missing as e:
        R.undecided("C04", str(e))
        return R
    c = m.crate
    reg = [a for a in c.adts if a.endswith("::Reg")]
    alloc = [a for a in c.adts if a.endswith("::RegAllocation")]
    if len(reg) != 1 or len(alloc) != 1:
        R.undecided("C04", "registers")
        return R
    ws = set()
    for v in c.adts[reg[0]]["variants"]:
        for x in v[2]:
            ws.add(m_ty(c, x[1]))
    if ws != {"u16"}:
        (R.good("C04", "registers are numbered with 32 bits or more") if ws <= {"u32", "usize", "u64"} else R.undecided("C04", "registers are numbered with %s" % sorted(ws)))
        return R
    # does compiling a body, or taking a register, itself look at the bound?
    seen, todo = set(), [m.compile.name]
    inner = False
    while todo:
        f = c.fns.get(todo.pop())
        if f is None or f.name in seen:
            continue
        seen.add(f.name)
        for b in f.blocks:
            if any(isinstance(k, int) and 0xfff0 <= k <= 0x10001 for k in consts_of(b, ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"))):
                inner = True
            t = b["t"]
            if t[0] in ("call", "tailcall") and callee(t):
                fn = callee(t)
                if "u16" in [m_ty(c, g) for g in fn.get("ga", []) if isinstance(g, int)] and fn["def"].rsplit("::", 1)[1] in ("try_from", "try_into"):
                    inner = True
                todo.append(fn.get("res") or fn["def"])
    fields = [x[0] for x in c.adts[alloc[0]]["variants"][0][2]]
    S = dict(types=[([], [])], funcs=[(K(0, "u32"), [(K(1, "u32"), "i32")]), (K(0, "u32"), [])])
    for fld in fields:
        for n in (65537, 65536, 131072):
            for which in (0, 1):
                m.counts = {which: {fld: n}}
                try:
                    _, rs = m.runs(S)
                except Exception as e:
                    R.undecided("C04", "register counts: %s" % type(e).__name__)
                    continue
                clean = [o for o, v in rs if o.kind == "ret" and not any(y[0] == "io" and not y[2] or y[0] in ("compile failed", "resolve failed") for y in o.st.ev)]
                ks = {o.val.args[1] if o.val.op == "adt" else "?" for o in clean}
                what = "a body that needs %d registers (%s)" % (n, fld)
                if n > 65536:
                    if ks == {"Err"}:
                        R.good("C04", "%s is refused" % what)
                    elif ks == {"Ok"} and not inner:
                        R.findings.append(Finding(("C04",), "numbering:" + fld, "%s is accepted although registers are numbered with 16 bits: numbers wrap [%s build]" % (what, cfg),
                                                  "%s (%s:%s)" % (m.compile.name, m.compile.file, m.compile.line)))
                    else:
                        R.undecided("C04", "%s: %s" % (what, sorted(ks)))
                elif ks == {"Ok"}:
                    R.good("C04", "%s is accepted" % what)
                elif ks == {"Err"}:
                    R.findings.append(Finding(("C25",), "numbering-low:" + fld, "%s is refused although all can be numbered [%s build]" % (what, cfg),
                                              "%s (%s:%s)" % (m.load.name, m.load.file, m.load.line)))
                else:
                    R.undecided("C04", "%s: %s" % (what, sorted(ks)))
    return R


def m_ty(c, i):
    return c.types[i]


def run(cfg):
    R = capacity(cfg)
    R.merge(numbering(cfg))
    R.merge(cuts(cfg))
    R.findings = list({f.key: f for f in R.findings}.values())
    return R
