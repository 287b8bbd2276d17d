"""WebAssembly operator signatures (types of operands and results), written from the WebAssembly specification."""

SIG = {}


def _add(names, params, results):
    for n in names.split():
        SIG[n] = (tuple(params.split()), tuple(results.split()))


for t, T in (("i32", "I32"), ("i64", "I64")):
    _add(" ".join(T + x for x in "Add Sub Mul DivS DivU RemS RemU And Or Xor Shl ShrS ShrU Rotl Rotr".split()), t + " " + t, t)
    _add(" ".join(T + x for x in "Eq Ne LtS LtU GtS GtU LeS LeU GeS GeU".split()), t + " " + t, "i32")
    _add(" ".join(T + x for x in "Clz Ctz Popcnt Extend8S Extend16S".split()), t, t)
    _add(T + "Eqz", t, "i32")
    _add(T + "Const", "", t)
_add("I64Extend32S", "i64", "i64")
for t, T in (("f32", "F32"), ("f64", "F64")):
    _add(" ".join(T + x for x in "Add Sub Mul Div Min Max Copysign".split()), t + " " + t, t)
    _add(" ".join(T + x for x in "Eq Ne Lt Gt Le Ge".split()), t + " " + t, "i32")
    _add(" ".join(T + x for x in "Abs Neg Ceil Floor Trunc Nearest Sqrt".split()), t, t)
    _add(T + "Const", "", t)
_add("I32WrapI64", "i64", "i32")
_add("I64ExtendI32S I64ExtendI32U", "i32", "i64")
_add("F64PromoteF32", "f32", "f64")
_add("F32DemoteF64", "f64", "f32")
_add("I32ReinterpretF32", "f32", "i32")
_add("I64ReinterpretF64", "f64", "i64")
_add("F32ReinterpretI32", "i32", "f32")
_add("F64ReinterpretI64", "i64", "f64")
for i in ("i32", "i64"):
    for f in ("f32", "f64"):
        for s in ("S", "U"):
            _add("%sTrunc%s%s %sTruncSat%s%s" % (i.upper(), f.upper(), s, i.upper(), f.upper(), s), f, i)
            _add("%sConvert%s%s" % (f.upper(), i.upper(), s), i, f)
for t in ("I32", "I64", "F32", "F64"):
    _add(t + "Load", "i32", t.lower())
    _add(t + "Store", "i32 " + t.lower(), "")
_add("I32Load8S I32Load8U I32Load16S I32Load16U", "i32", "i32")
_add("I64Load8S I64Load8U I64Load16S I64Load16U I64Load32S I64Load32U", "i32", "i64")
_add("I32Store8 I32Store16", "i32 i32", "")
_add("I64Store8 I64Store16 I64Store32", "i32 i64", "")
_add("MemorySize", "", "i32")
_add("MemoryGrow", "i32", "i32")
_add("MemoryCopy MemoryFill MemoryInit", "i32 i32 i32", "")
_add("DataDrop Nop", "", "")

# conversion / arithmetic operators in C01; trapping ones in C02
NUMERIC = [n for n in SIG if n not in ("MemorySize", "MemoryGrow", "MemoryCopy", "MemoryFill", "MemoryInit", "DataDrop", "Nop")
           and "Load" not in n and "Store" not in n and not n.endswith("Const")]
TRAPPING = [n for n in NUMERIC if "Div" in n and n[0] == "I" or "Rem" in n or ("Trunc" in n and "Sat" not in n and n[0] == "I")]
LOADS = [n for n in SIG if "Load" in n]
STORES = [n for n in SIG if "Store" in n]

# operators whose signature depends on a type (local, global, stack): one case per lane
LANES = ("i32", "i64", "f32", "f64", "ref", "v128")
POLY = {
    "LocalGet": lambda t: ((), (t,)),
    "LocalSet": lambda t: ((t,), ()),
    "LocalTee": lambda t: ((t,), (t,)),
    "GlobalGet": lambda t: ((), (t,)),
    "GlobalSet": lambda t: ((t,), ()),
    "Drop": lambda t: ((t,), ()),
    "Select": lambda t: ((t, t, "i32"), (t,)),
    "TypedSelect": lambda t: ((t, t, "i32"), (t,)),
}
_add("RefNull", "", "ref")
_add("RefIsNull", "ref", "i32")
_add("TableGet", "i32", "ref")
_add("TableSet", "i32 ref", "")
_add("TableFill", "i32 ref i32", "")
