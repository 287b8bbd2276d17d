"""The control skeletons analysed: every construct with every kind of type, branches to every enclosing label with operands
below the carried ones, nests, dead code, deferred operands, and calls of every kind."""
import random
from terms import K, T

A = (["i64", "i32", "f32"], ["i32", "f64", "i32", "ref", "i64"])
B = (["f64", "i32"], [])
C = ([], ["f32", "i32", "f32"])
D = (["i64", "i32", "f32"], ["i64", "i32", "f32"])
E = (["ref", "i64", "i64"], ["v128", "f64"])
LANES = ["i32", "i64", "f32", "f64", "ref", "v128"]
JUNK = ["f64", "i32", "i64", "f32", "ref", "i32", "v128", "f64"]


def push(*l): return ("push",) + tuple(l)


def pop(l): return ("pop",) + tuple(reversed(l))


def blk(kind, p, r, body, els=None):
    return (kind, list(p), list(r), body) + ((els,) if els is not None else ())


def enter(kind, p, r, body, els=None):
    """operands for the construct, then the construct"""
    return [push(*(list(p) + (["i32"] if kind == "if" else []))), blk(kind, p, r, body, els)]


def leave_with(p, r, junk, fres, label):
    """Inside a construct with the parameters p on the stack: branches taken with operands in between; ends with r."""
    return [pop(p), push(*junk), push(*label), push("i32"), ("br_if", 0), pop(label),
            push(*fres), push("i32"), ("br_if", 1), pop(fres),
            pop(junk), push(*r)]


def singles():
    """One construct; branches to it and out of the function."""
    for kind in ("block", "loop", "if"):
        for p, r in [([], [])] + [([], [l]) for l in LANES] + [A, B, C, D, E]:
            if kind == "if":
                continue
            lab = p if kind == "loop" else r
            fres = ["i64", "f32"]
            body = leave_with(p, r, JUNK[:5], fres, lab)
            yield "%s %s" % (kind, sg(p, r)), fres, [push(*JUNK[2:6])] + enter(kind, p, r, body) + [pop(r), push(*fres), ("return",)]
            body = [pop(p), push("i32", "f32"), push(*lab), push("i32"), ("br_table", [0, 0, 0], 0)]
            yield "%s %s by table" % (kind, sg(p, r)), fres, [push("i64", "f64")] + enter(kind, p, r, body) + [pop(r), push(*fres), ("return",)]
            body = [pop(p), push("i64", "i32"), push(*lab), ("br", 0)]
            yield "%s %s by br" % (kind, sg(p, r)), lab and r or [], [push("ref", "i32")] + enter(kind, p, r, body) + [pop(r), pop(["ref", "i32"]), push(*(lab and r or []))]
    for p, r in [([], [])] + [(["i64"], ["i64"]), D] + [([], [l]) for l in LANES] + [A, B, C, E]:
        fres = ["f32", "i32"]
        th = leave_with(p, r, JUNK[1:4], fres, r)
        el = [pop(p), push("i32", "ref"), push(*r), ("br", 0)]
        yield "if-else %s" % sg(p, r), fres, [push("i32", "i64")] + enter("if", p, r, th, el) + [pop(r), push(*fres), ("return",)]
        if p == r:
            th = leave_with(p, r, JUNK[1:4], fres, r)
            yield "if %s" % sg(p, r), fres, [push("i32", "i64", "f32")] + enter("if", p, r, th) + [pop(r), push(*fres), ("return",)]
            yield "if %s by br" % sg(p, r), [], [push("i32")] + enter("if", p, r, [pop(p), push("f32", "i64"), push(*r), ("br", 0)]) + [pop(r), pop(["i32"])]


def functions():
    """The function as the target of branches, by every route."""
    for r in [[], ["i32"], ["f64"], ["ref"], ["i64", "f32", "i32", "i64"], ["v128", "f64", "f64"]]:
        yield "function results %s" % sg([], r), r, [push(*JUNK[:3]), push(*r), push("i32"), ("br_if", 0), push("i32"), ("br_table", [0, 0], 0)]
        yield "function falls out %s" % sg([], r), r, [push(*r)]
        yield "function br %s" % sg([], r), r, [push(*JUNK[:4]), push(*r), ("br", 0)]
        yield "function return in a block %s" % sg([], r), r, [push("i32")] + enter("block", [], [], [push("i64"), push(*r), ("return",)]) + [pop(["i32"]), push(*r)]
        yield "function br from a loop %s" % sg([], r), r, [push("i32")] + enter("loop", [], [], [push("i64"), push(*r), push("i32"), ("br_if", 1), ("br", 1)]) + [pop(["i32"]), push(*r)]


def nests(kinds=("block", "loop", "if")):
    """Two constructs carrying values of the same types to either."""
    V = ["f32", "i32", "i64"]
    for ko in kinds:
        for ki in kinds:
            po, ro = (V, ["i64", "f32"]) if ko == "loop" else (["i64"], V)
            pi, ri = (V, ["i32"]) if ki == "loop" else (["i32"], V)
            carry = [push("i32"), ("br_if", 1), push("i32"), ("br_if", 0), push("i32"), ("br_table", [0, 1, 0], 1)]
            inner = [pop(pi), push("f64", "i32"), push(*V)] + carry
            e_in = [pop(pi), push("i64"), push(*V), ("br", 1)] if ki == "if" else None
            ob = [pop(po), push("i32", "f32")] + enter(ki, pi, ri, inner, e_in) + [pop(ri), pop(["i32", "f32"]), push(*ro)]
            e_out = [pop(po), push("i64", "i64"), push(*ro), push("i32"), ("br_if", 0), ("br", 0)] if ko == "if" and ro is V else [pop(po), push(*ro)] if ko == "if" else None
            yield "%s in %s" % (ki, ko), ["f64"], [push("i64", "f64")] + enter(ko, po, ro, ob, e_out) + [pop(ro), ("return",)]


def deep():
    """Three constructs, empty labels: discarding labels and choosing among four targets."""
    for ks in (("block", "loop", "if"), ("loop", "if", "block"), ("if", "block", "loop"), ("loop", "loop", "loop"), ("block", "block", "block")):
        for d in range(4):
            core = [push("i32"), ("br_if", d), push("i32"), ("br_table", [3, 2, 1, 0], d)]
            it = core
            for k in reversed(ks):
                it = enter(k, [], [], it, [push("i32"), ("br_if", 1)] if k == "if" and d % 2 else None)
            yield "%s/%d" % (" in ".join(reversed(ks)), d), [], [push("i64")] + it + [pop(["i64"])]
    for n in (6, 9):
        it = [push("i32"), ("br_if", n - 2), push("i32"), ("br_table", list(range(n + 1)), n - 3)]
        for i in range(n):
            it = enter(("block", "loop", "if")[(i + n) % 3], [], [], it)
        yield "%d constructs" % n, [], [push("i64")] + it + [pop(["i64"])]
    body = [push("i32"), ("br_if", 0), push("f32"), ("br", 2)]
    yield "br over a dead end", ["f32"], [push("i32")] + enter("block", [], [], enter("block", [], [], body)) + [pop(["i32"]), push("f32")]


def dead():
    """Constructs in code that cannot run must not disturb those that can."""
    D_ = [("block", [], [], [("unreachable",), ("loop", [], [], [("br", 0)])]), ("if", [], [], [("return",)], [("block", [], [], [])])]
    for name, stop in (("br", [("br", 0)]), ("return", [push("i32"), ("return",)]), ("unreachable", [("unreachable",)]), ("br_table", [push("i32"), ("br_table", [0], 0)])):
        inner = [push("i32"), ("br_if", 1)] + stop + D_
        yield "dead after " + name, ["i32"], enter("loop", [], [], enter("block", [], [], inner) + [push("i32"), ("br_if", 0)]) + [push("i32"), ("br_if", 0) if False else ("return",)]
        yield "dead in then after " + name, ["i32"], [push("i64")] + enter("if", [], [], stop + D_, [push("i32"), ("br_if", 0)] + stop + D_) + [pop(["i64"]), push("i32")]
        yield "dead in else after " + name, ["i32"], enter("block", [], [], enter("if", [], [], [push("i32"), ("br_if", 1)], stop + D_) + [push("i32"), ("br_if", 0)]) + [push("i32")]


def const(v, l="i32"):
    op = {"i32": "I32Const", "i64": "I64Const"}[l]
    return ("op", op, {"value": K(v, l)}, [], [l], K(v, l))


def get(i, l):
    return ("op", "LocalGet", {"local_index": K(i, "u32")}, [], [l], T("LN", K(i, "i64"), l))


PARAMS = ["i32", "i64", "f32", "f64"]


def deferred():
    """Operands still deferred when a control instruction needs them."""
    for k in (0, 1, 5):
        yield "if on a constant %d" % k, [], [const(k), blk("if", [], [], [const(k), ("br_if", 0)], [const(k), ("br_if", 1)])]
        yield "br_if on a constant %d" % k, ["i64", "i32"], [push("i64"), get(1, "i64"), get(0, "i32"), const(k), ("br_if", 0), ("return",)]
        yield "br_table on a constant %d" % k, ["i32"], [push("i64"), blk("block", [], ["i32"], [push("f32"), const(9), const(k), ("br_table", [0, 1], 0)]), ("return",)]
    for l, i in zip(PARAMS, range(4)):
        yield "local into a block %s" % l, [l], [get(i, l), blk("block", [l], [l], [push("i32"), ("br_if", 0)]), ("return",)]
        yield "local into a loop %s" % l, [l], [get(i, l), blk("loop", [l], [l], [push("i32"), ("br_if", 0)]), ("return",)]
        yield "local to a label %s" % l, [l], [blk("block", [], [l], [push("i32"), push(l), get(i, l), ("br", 0)]), ("return",)]
        yield "local to the function %s" % l, [l], [push("i32", l), get(i, l), ("br", 0)]
        yield "local returned %s" % l, [l], [push("i32", l), get(i, l), ("return",)]
        yield "local falls out %s" % l, [l], [get(i, l)]
        yield "local falls out of a block %s" % l, [l], [push("i32"), blk("block", [], [l], [get(i, l)]), ("return",)]
        yield "local falls out of a then %s" % l, [l], [push("i32"), blk("if", [], [l], [get(i, l)], [push(l)]), ("return",)]
        yield "local into an if %s" % l, [l], [get(i, l), get(0, "i32"), blk("if", [l], [l], [push("i32"), ("br_if", 0)], [push("i32"), ("br_if", 0)]), ("return",)]
        yield "local below a br_table %s" % l, [l], [push("f64"), blk("block", [], [l], [push("i32"), get(i, l), const(1), ("br_table", [0, 1], 1)]), ("return",)]


IMPORTS = [("WasiFunc", "FdWrite"), ("Func", 1), ("WasiFunc", "ProcExit"), ("WasiFunc", "PathOpen"), ("WasiFunc", "ClockTimeGet")]
FUNCS = [1, 0, 2, 3]
TYPES = [A, B, C, D, E]
WASI = {0: (["i32"] * 4, ["i32"]), 2: (["i32"], []), 3: (["i32"] * 5 + ["i64", "i64", "i32", "i32"], ["i32"]), 4: (["i32", "i64", "i32"], ["i32"])}


def calls():
    n = len(IMPORTS)
    for idx, t in [(1, 1)] + [(n + i, t) for i, t in enumerate(FUNCS)]:
        p, r = TYPES[t]
        c = ("call", idx, list(p), list(r))
        yield "call %s" % sg(p, r), [], [push(*JUNK[:5]), push(*p), c, pop(r), pop(JUNK[:5])]
        yield "call %s on an empty stack" % sg(p, r), r, [push(*p), c]
        yield "call %s in a block" % sg(p, r), [], enter("loop", p, r, [c, push("i32"), blk("if", [], [], [("br", 2)] if False else [])]) + [pop(r)]
    for idx, (p, r) in WASI.items():
        c = ("call", idx, list(p), list(r))
        yield "host call %d %s" % (idx, sg(p, r)), [], [push(*JUNK[:5]), push(*p), c, pop(r), pop(JUNK[:5])]
    for t, (p, r) in enumerate(TYPES):
        for tb in (0, 3):
            c = ("call_indirect", t, tb, list(p), list(r))
            yield "call_indirect %s" % sg(p, r), [], [push(*JUNK[:5]), push(*p), push("i32"), c, pop(r), pop(JUNK[:5])]
    p, r = B
    yield "call with deferred arguments", [], [push("i32"), get(3, "f64"), const(4), ("call", 1, p, r), pop(["i32"])]
    yield "call_indirect with deferred arguments", [], [push("i32"), get(3, "f64"), get(0, "i32"), const(4), ("call_indirect", 1, 0, p, r), pop(["i32"])]


def sg(p, r):
    return "[%s]->[%s]" % (" ".join(p), " ".join(r))


FAMILIES = [("singles", singles), ("functions", functions), ("nests", nests), ("deep", deep), ("dead", dead), ("deferred", deferred), ("calls", calls)]


def rnd(seed, n):
    """Pseudo-random nests for the deeper tier."""
    for i in range(n):
        r = random.Random(seed * 100003 + i)
        fres = [r.choice(LANES) for _ in range(r.randint(0, 3))]

        def sigs():
            return [r.choice(LANES[:5]) for _ in range(r.randint(0, 3))]

        def body(depth, labels, p, res, budget):
            its = [pop(p)]
            j = [r.choice(LANES[:5]) for _ in range(r.randint(0, 3))]
            its.append(push(*j))
            for _ in range(r.randint(1, budget)):
                d = r.randrange(len(labels))
                lab = labels[d]
                c = r.random()
                if c < .45 or depth == 0:
                    same = [x for x in range(len(labels)) if labels[x] == lab]
                    its += [push(*lab), push("i32")]
                    if r.random() < .3 and _ == budget - 1:
                        its.append(("br_table", [r.choice(same) for _ in range(r.randint(0, 4))], r.choice(same)))
                        return its
                    its += [("br_if", d), pop(lab)]
                else:
                    k = r.choice(["block", "loop", "if", "if"])
                    pp, rr = sigs(), sigs()
                    els = None
                    sub = [pp if k == "loop" else rr] + labels
                    b = body(depth - 1, sub, pp, rr, 2)
                    if k == "if":
                        if r.random() < .3:
                            rr = pp
                            b = body(depth - 1, [rr] + labels, pp, rr, 2)
                        else:
                            els = body(depth - 1, sub, pp, rr, 2)
                    its += enter(k, pp, rr, b, els) + [pop(rr)]
            if r.random() < .3:
                d = r.randrange(len(labels))
                return its + [push(*labels[d]), ("br", d)]
            return its + [pop(j), push(*res)]
        yield "nest %d" % i, fres, body(3, [fres], [], fres, 3)
