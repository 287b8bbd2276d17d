"""Which analyses decide which property, and under what rule."""
from result import Result

import multiprocessing
import os
import traceback

_memo = {}


def _child(fn, a, q):
    try:
        q.put((fn(*a), None))
    except Exception as e:
        traceback.print_exc()
        q.put((None, "%s: %s" % (type(e).__name__, str(e)[:500])))


def parallel(jobs):
    """Run [(function, args)] in forked processes; their Results merged, failures raised together when nothing remains."""
    r, errs, n = Result(), [], 0
    for x in each(jobs):
        if isinstance(x, Result):
            r.merge(x)
            n += 1
        else:
            errs.append(x)
    if errs and not n:
        raise RuntimeError("; ".join(errs))
    r.errors = errs
    return r


def each(jobs):
    """The Result of each job, or the text of its failure."""
    ctx = multiprocessing.get_context("fork")
    ps = []
    for fn, a in jobs:
        q = ctx.SimpleQueue()
        p = ctx.Process(target=_child, args=(fn, a, q))
        p.start()
        ps.append((p, q))
    r = []
    for p, q in ps:
        x, e = q.get()
        p.join()
        r.append(x if e is None else e)
    return r


def config(*cfgs):
    """Extract first, so that the forked analyses share it."""
    from base import crates
    crates(*cfgs)


def get(part, tier):
    k = (part, tier)
    if k not in _memo:
        _memo[k] = PARTS[part](tier)
    return _memo[k]


def ops(tier):
    from opmem import Ops
    r = Result()
    for cfg in (("legacy", "tco") if tier == "thorough" else ("legacy",)):
        o = Ops(cfg)
        o.run()
        x = Result()
        x.findings, x.ok, x.undet, x.samples = o.F, o.count, o.undet, o.samples
        x.scope = {"%s: operator compilations analysed" % cfg: o.L.ncompiled,
                   "%s: deferral states" % cfg: len(o.M.states),
                   "%s: handlers interpreted" % cfg: len(o.M.X.curplace)}
        r.merge(x)
    return r


def vm(tier):
    """Handler typestate, dispatchers, poll and the frame machine."""
    from vmcheck import Vm
    from vmrun import Run
    from opsem import Missing
    r = Result()
    for cfg in ("legacy", "tco"):
        v = Vm(cfg)
        for f in (v.typestate, v.dispatch, v.poll):
            try:
                f()
            except Missing as e:
                v.R.undecided(("C08", "C14"), str(e))
        r.merge(v.R)
        r.scope["%s: handlers" % cfg] = len(v.handlers)
        try:
            m = Run(cfg)
            m.run()
            r.merge(m.R)
        except Missing as e:
            r.undecided(("C08", "C09", "C10", "C14"), str(e))
    t = Vm("threads")
    t.poll()
    r.merge(t.R)
    return r


def ctl(tier):
    import ctlrun
    cfgs = ("legacy", "tco", "instr") if tier == "thorough" else ("legacy", "tco")
    config(*cfgs)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    n = 3 if tier == "quick" else 3
    return parallel([(ctlrun.run, (c, tier, seed, (i, n))) for c in cfgs for i in range(n)])


def ckpt(tier):
    """What checkpoints hold and what restoring does with it."""
    import ckrun
    r = Result()
    for c in ("legacy", "tco", "instr") if tier == "thorough" else ("legacy", "tco"):
        r.merge(ckrun.run(c))
    return r


def regs(tier):
    import regsrun
    r = Result()
    for c in ("legacy", "tco", "instr") if tier == "thorough" else ("legacy",):
        r.merge(regsrun.run(c))
    return r


def wasi(tier):
    """Names, types, arguments and results of the WASI functions."""
    import wasirun
    r = Result()
    for c in ("legacy", "tco", "instr") if tier == "thorough" else ("legacy", "tco"):
        r.merge(wasirun.run(c))
    return r


def mod(tier):
    """Loading: what every kind of section leaves in the decoded module."""
    import modrun
    r = Result()
    for c in ("legacy", "tco", "instr") if tier == "thorough" else ("legacy",):
        r.merge(modrun.analyse(c))
    return r


def cap(tier):
    """Fixed capacities: containers of registers and values, register numbers."""
    import caprun
    r = Result()
    for c in ("legacy", "tco", "instr") if tier == "thorough" else ("legacy",):
        r.merge(caprun.run(c))
    return r


def inst(tier):
    """Instantiation of modules of known shape."""
    import instrun
    r = Result()
    for c in ("legacy", "tco", "instr") if tier == "thorough" else ("legacy",):
        r.merge(instrun.analyse(c))
    return r


def cli(tier):
    """The command-line tool's main."""
    import clirun
    r = Result()
    for c in ("legacy", "tco", "instr") if tier == "thorough" else ("legacy",):
        r.merge(clirun.analyse(c))
    return r


def made(tier):
    """What the runtime's constructors do with the tool's wishes."""
    import obsrun
    r = Result()
    config("legacy", "instr")
    for c in ("legacy", "instr"):
        r.merge(obsrun.analyse(c))
    return r


def both(tier):
    r = Result()
    r.merge(vm(tier))
    r.merge(ops(tier))
    return r


def obs(tier):
    """Statistics and tracing."""
    import obsrun
    r = Result()
    config("legacy", "instr", "tco")
    plain, instr = each([(both, (tier,)), (obsrun.rules, ("instr",))])
    if isinstance(instr, Result) and isinstance(plain, Result):
        r.merge(obsrun.interference(plain, instr, obsrun.denied))
    else:
        r.undecided("C23", "the machine's rules")
    return r


def sup(tier):
    """Operators the machine has no instructions for."""
    import suprun
    r = Result()
    for c in ("legacy", "tco", "instr") if tier == "thorough" else ("legacy",):
        r.merge(suprun.run(c))
    return r


PARTS = {"sup": sup, "cap": cap, "made": made, "obs": obs, "cli": cli, "mod": mod, "inst": inst, "wasi": wasi, "ckpt": ckpt, "regs": regs, "ops": ops, "vm": vm, "ctl": ctl}

VM = ("Interprocedural dataflow over the crate's MIR in a value-number domain, for the loop and the tail-call build: every "
      "handler on an arbitrary current instruction, one turn of each dispatcher with the handler as an unknown, the poll, and "
      "one turn of the runtime's frame loop with the dispatcher as an unknown, each from an arbitrary state. ")

OPS = ("Interprocedural dataflow over the crate's MIR in a value-number domain: one iteration of the instruction "
       "compiler's decoding loop is interpreted for every operator in every operand-deferral state it can leave behind "
       "(worklist fixpoint over its own transitions), the handler selected for the emitted instruction is interpreted on "
       "the operand layout emitted, and the composed effect over the operator's operands is compared with the "
       "WebAssembly definition. ")

CTL = ("Interprocedural dataflow over the crate's MIR in a value-number domain, for the loop and the tail-call build: bodies of "
       "structured control operators are followed through the instruction compiler, its target resolution and linking, starting "
       "from arbitrary register counts, and the handler selected for every emitted control or call instruction is interpreted on "
       "the label count and register file it will find. ")

WASI = ("Interprocedural dataflow over the crate's MIR in a value-number domain: the table of accepted names is interpreted, and "
        "the runtime's WASI call is interpreted for every name in it with each argument an unknown of its own, the host's functions "
        "being events that yield an unknown error number and unknown results. ")

CKPT = ("Interprocedural dataflow over the crate's MIR in a value-number domain, with the serde, bincode, lz4 and file interfaces "
        "modelled as operations that may fail: every Serialize/Deserialize implementation of a type a checkpoint holds, derived or "
        "hand-written, is interpreted against the data model; checkpoint and restore are interpreted on shapes of frames, labels, "
        "functions and globals of known length with unknown contents; and an effect analysis over the call graph lists the "
        "instance state a program can change. ")

MOD = ("Interprocedural dataflow over the crate's MIR in a value-number domain: the loader is interpreted whole on streams of "
       "sections of known shape whose numbers, names and bytes are unknowns of their own, with the binary parser's readers modelled as "
       "sequences of items each of which may fail to decode. ")

INST = ("Interprocedural dataflow over the crate's MIR in a value-number domain: instantiation is interpreted whole on decoded modules "
        "of known shape (the loader's own results) whose sizes, offsets, initial values and bytes are unknowns, every shared instance "
        "being a place of its own. ")

CLI = ("The command-line tool's main is interpreted in the same way with the command line an unknown and the file system, the "
       "parser's validation and the library's entry points as operations that may fail. ")

PROPS = {
    "C01": (OPS + "Rule: on every operand class (order/sign/NaN/zero relations; exact float intervals for conversions) the "
            "value written to the destination is the specified function of the operands; a differing normal form is "
            "reported only with an operand on which constant propagation gives another result.", ["ops"]),
    "C02": (OPS + "Rule: the guards under which the effect is a trap hold exactly on the specified operand classes / float "
            "intervals, and a trapping arm writes no register or local.", ["ops"]),
    "C03": (OPS + "Rule: exactly one access of the operator's width at memory base + operand 0 + static offset, extension "
            "and truncation folded on the distinguished bit patterns.", ["ops"]),
    "C04": (OPS + "Rule: the compiler's type stack, register counts and the registers read and written by the handler are "
            "those of the operator's signature; nothing else is written. A body whose register counts exceed what a register number "
            "can name is refused (the loader interpreted with those counts), and so is a WASI import declared with another type than the "
            "one its calls are compiled with.", ["ops", "cap", "mod", "sup"]),
    "C05": (OPS + "Rule: in every state with deferred operands or a swallowed local write the composed effect equals the "
            "effect of the operators one by one; every deferred operand is consumed by the position that would pop it.", ["ops"]),
    "C06": (CTL + "Rule: for every branch, conditional, block and end, on every distinguished condition or index, control arrives at "
            "the label's continuation with the labels of the constructs around it, the carried operands in the places of the "
            "label's values in order, and the operands below untouched; bodies end with their results in the result registers.",
            ["ctl", "ops"]),
    "C07": (OPS + "Rule: every instruction the compiler emits selects a handler that accepts its layout and implements the "
            "operator; the linked handler table holds that handler at that position and an entry that stops after the last.",
            ["ops", "ctl"]),
    "C08": (VM + "Rule (typestate): Continue only with the instruction pointer advanced once or set to a code position the "
            "instruction carries and with no trap or transition recorded; Trap and Yield only with their cause recorded; the "
            "dispatcher loops on Continue alone and hands every other outcome on; the frame loop keeps the position reached, "
            "resumes there, and never goes on after a trap.", ["vm"]),
    "C09": (VM + "Rule: a call pushes one frame whose locals start with the arguments followed by the zero of each declared type, "
            "at the callee's first instruction, with the callee's code, handlers, module and fresh registers; a return reads the "
            "finished frame's result registers before leaving its registers once, and writes the n-th result to the caller's "
            "n-th result register after. " + CTL + "Rule: a call hands the frame loop the function named, the operands of its "
            "parameters in order and the places of its results, and resumes after itself. A list of registers or values is never put in a container of fixed capacity.", ["vm", "ctl", "cap"]),
    "C10": (VM + "Rule: the memory pointer a frame runs with is its own, is kept when the frame stops, is taken from the memory's "
            "current block when a function is entered, and is refreshed from it on every return.", ["vm"]),
    "C11": ("Interprocedural dataflow over the crate's MIR: histories of entering, leaving, reading, writing and copying on the "
            "register file's own functions (found by their types), from an empty file and from an arbitrary one whose lengths are "
            "propagated as constants, and histories of the register allocator; " + CTL + "Rule: every read gives what was last "
            "written to that lane and slot, nothing of an outer frame changes, and the function's register counts cover every "
            "register its code names.", ["regs", "ops", "ctl", "vm"]),
    "C12": (CKPT + "Rule: every field of every type in a checkpoint is read back from what was written for it or is re-derived; "
            "the checkpoint passes every frame and label in order, the whole memory and every global; whatever instance state a "
            "handler can change is in it. " + VM + "Rule: the stacks handed to checkpoint are the live ones, with the position "
            "reached.", ["ckpt", "vm", "cap"]),
    "C13": (CKPT + "Rule: restore puts every memory and global back, and gives every frame the code, handlers and module of the "
            "function recorded for it and the current memory, and every skipped field the value a running frame has. " + VM +
            "Rule: the frame loop starts at the recorded position and checkpointing stays enabled. " + CLI + "Rule: asked to restore, the tool runs the restored state of the file named, without running the start function again.", ["ckpt", "vm", "cli", "cap"]),
    "C14": (VM + "Rule: every dispatcher polls before each handler and stops with the request as cause when the poll answers yes; "
            "the poll asks for the trigger whenever its counter is due, whatever the frame, and the counter's transition reaches "
            "a due value from every distinguished value (constant propagation); the counter survives frame changes; every frame "
            "gets the runtime's setting. " + CLI + "Rule: the runtime's setting is the option of that name, resuming or not, and the constructors keep it as given.", ["vm", "cli", "made"]),
    "C15": (CKPT + "Rule: checkpoint returns success only on paths where every encoding, compression, creation and full write "
            "succeeded; restore only where every read and decode succeeded and the numbers of frames and functions, the sizes and "
            "types fit the module. " + VM + "Rule: the runtime reports a failed checkpoint as failed, and the trigger is consumed "
            "only when honoured. " + CLI + "Rule: a failed restore makes the tool fail.", ["ckpt", "vm", "cli"]),
    "C16": (WASI + "Rule: the host function of that name is the only one called, each of its arguments is the guest's argument of "
            "that position at the width and sign of WASI (an address or range of linear memory where WASI passes one, an array of "
            "buffers translated entry by entry, a path with its terminator), the declared type is the one of WASI, and the error "
            "number is the result. " + CTL + VM + "Rule: a call of a WASI import hands over the function imported and its operands "
            "in order, and its result lands in the call's result register; an import declared with another type is refused.", ["wasi", "ctl", "vm", "mod"]),
    "C18": (WASI + "Rule: on every path, guest memory is written only under the fact that the host succeeded, each result once, at "
            "the address given for it and with its width, and the error number is handed on unchanged; the argument and environment "
            "tables are those of their strings and nothing beyond them is written. " + VM, ["wasi", "vm"]),
    "C19": (CTL + "Rule: call_indirect reads the entry at its index operand of the table it names, and the callee is entered only "
            "under the facts that the index is below the table's length, the entry is a function, and the parameter and result "
            "types of that function equal those of the type the instruction names; every other outcome is a trap.", ["ctl"]),
    "C20": (OPS + "Rule: global access names the operator's global, with the lane of its type. The type the compiler looks up for it is that of the declaration, imports first.", ["ops", "sup"]),
    "C21": (OPS + "Rule: memory.size / memory.grow results, new length, fill byte and failure folded on all combinations of "
            "distinguished sizes, maxima and deltas; a new memory has its declared size and maximum.", ["ops", "inst"]),
    "C22": (INST + "Rule: on every path that succeeds, imports come first in the function space with the function of that name whose "
            "type was compared, every definition has an instance of its own with its type, size, fill, code and module, every "
            "initialiser gives the value of its expression, every active segment is copied whole to its offset and fails exactly when "
            "it does not fit (constant propagation on the boundary sizes and offsets), exports name the instances of their index, and "
            "the start function runs last, once, with its failure failing the instantiation. " + CLI + "Rule: the tool runs the start function exactly when it does not restore.", ["inst", "mod", "cli", "cap"]),
    "C23": ("Interprocedural dataflow over the crate's MIR in a value-number domain: the runtime's constructors and the tool's main are "
            "interpreted with the wishes to observe unknown and the observing modules' functions as operations that may fail; the compiler, "
            "handlers, dispatchers and frame loop are interpreted on the build with both features. Rule (noninterference): any two "
            "paths that only the wishes or the observers tell apart have the same outcome; every rule of the machine decides on the "
            "build with the features, and with the wishes unknown, as without.", ["obs", "made", "cli"]),
    "C24": (MOD + CLI + INST + "Rule: loading succeeds on no path on which the parser failed to read a section, an item or a body, or met "
            "one that is not supported; the tool instantiates only a module decoded from a file whose bytes passed validation, and on "
            "every path on which reading, validating, decoding, instantiating or restoring failed it runs nothing and fails; the "
            "instruction compiler, given any operator the machine has no instruction for, goes on past it on no path.",
            ["mod", "cli", "inst", "sup"]),
    "C25": (MOD + "Rule: on every path that succeeds, the module holds one entry per item of each section, in order, with each part of "
            "the item (types, limits, mutability, initialiser, kind, index, offset, contents, counts of locals) in the place for it "
            "and nothing else, imports first in every index space, and the start function named.", ["mod", "cap"]),
    "C26": (OPS + "Rule: bulk operations move exactly the operands' range of the named memory / segment, with overlap-safe "
            "copying; a missing segment stops; instantiation drops active segments and keeps passive ones.", ["ops", "inst"]),
    "C27": (OPS + "Rule: table and reference operators access the named table at operand 0 with the operand reference. The type the compiler looks up for it is that of the declaration, imports first.", ["ops", "sup"]),
    "C28": (OPS + "Rule: select, local.get/set/tee, drop move the named value in the lane of its type. The type the compiler looks up for it is that of the declaration, imports first.", ["ops", "sup"]),
}

_MIR = "interprocedural abstract interpretation of rustc MIR (value numbering, type-stack and operand-deferral dataflow)"
TECH = {i: _MIR for i in PROPS}
_N = ("Decided from the MIR of the current source for every operator and every operand-deferral state; a violation is reported "
      "only for a definite mismatch with the specification transcribed in sa/wasmspec.py and sa/specsem.py, and what the "
      "analysis cannot normalise is counted as undetermined in the evidence. Trusts rustc's MIR, the models of std functions "
      "in sa/models.py, and the transcription of the specification. ")
NOTE = {i: _N for i in PROPS}
