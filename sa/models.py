"""Models of the library functions the crate calls: what each does to the value-number state.

A model is fn(engine, state, callsite, args) -> [(state, value)] or None (not applicable here).
"""
import re
from terms import *

MODELS = []
OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"


def model(*pats):
    def deco(f):
        for p in pats:
            MODELS.append((re.compile(p), f))
        return f
    return deco


def SOME(v): return T("adt", OPT, "Some", (("0", v),))
NONE = T("adt", OPT, "None", ())
def OK(v): return T("adt", RES, "Ok", (("0", v),))
def ERR(v): return T("adt", RES, "Err", (("0", v),))


def dref(eng, v):
    """place behind a reference value"""
    return eng.deref_of(v)


def rd(eng, st, v):
    return eng.read(st, eng.deref_of(v))


def strip_refs(eng, st, v):
    n = 0
    while v.op == "ref" and n < 8:
        v = eng.read(st, v.args[0])
        n += 1
    return v


def split(eng, st, v, adt, variant):
    return eng.decide_variant(st, v, adt, variant)


def ga0(cs, i=0):
    return cs.ga[i] if i < len(cs.ga) else ""


def default_of(ty):
    if ty in WIDTH or ty in FLOATS:
        return K(0, ty)
    if ty.startswith(("std::vec::Vec", "arrayvec::ArrayVec")):
        return T("vec", ())
    if ty.startswith(("std::collections::HashMap", "std::collections::BTreeMap")):
        return T("hnew")
    if ty.startswith(OPT):
        return NONE
    if ty == "()":
        return UNIT
    return T("default", ty)


# ---- never returns / nothing ---------------------------------------------------------------------
@model(r"hint::unreachable_unchecked$", r"intrinsics::unreachable$")
def m_unreach(eng, st, cs, a):
    return []


@model(r"^std::io::_e?print$", r"^std::mem::drop$", r"^std::mem::forget$", r"^core::mem::drop$", r"hint::black_box_unit$",
       r"^std::intrinsics::(assume|cold_path)$", r"^core::intrinsics::(assume|cold_path)$", r"precondition_check$")
def m_unit(eng, st, cs, a):
    return [(st, UNIT)]


@model(r"intrinsics::(likely|unlikely)$", r"hint::(likely|unlikely|must_use|black_box)$")
def m_ident_v(eng, st, cs, a):
    return [(st, a[0])]


@model(r"^core::fmt::", r"^std::fmt::(Arguments|format|rt|Formatter|Debug|Display|write)", r"as_display$", r"^alloc::fmt::format",
       r"to_string$", r"::__private::AsDisplay", r"panicking::.*default_msg$", r"^std::backtrace")
def m_fmt(eng, st, cs, a):
    return [(st, T("fmt", cs.name.rsplit("::", 1)[-1], tuple(eng.close(st, x) for x in a)))]


# ---- references and smart pointers -------------------------------------------------------------
@model(r"^<std::vec::Vec<.*as std::ops::Deref(Mut)?>::deref(_mut)?$", r"^<arrayvec::ArrayVec<.*as std::ops::Deref(Mut)?>::deref(_mut)?$",
       r"^<std::string::String as std::ops::Deref(Mut)?>::deref(_mut)?$",
       r"^std::vec::Vec::<.*>::(as_slice|as_mut_slice)$", r"String::(as_str|as_bytes|as_mut_str)$", r"^core::str::<impl str>::as_bytes$",
       r"^std::vec::Vec::<.*>::(borrow|as_ref|as_mut)$", r"<.* as std::convert::AsRef<\[.*\]>>::as_ref$",
       r"slice::<impl \[T\]>::(as_slice)$", r"^arrayvec::ArrayVec::<.*>::(as_slice|as_mut_slice)$")
def m_deref_same(eng, st, cs, a):
    return [(st, a[0])]


@model(r"^<std::(rc::Rc|sync::Arc|boxed::Box)<.*as std::ops::Deref(Mut)?>::deref(_mut)?$",
       r"^<std::(rc::Rc|sync::Arc|boxed::Box)<.*as std::convert::As(Ref|Mut)<.*>>::as_(ref|mut)$")
def m_deref_rc(eng, st, cs, a):
    return [(st, T("ref", eng.deref_of(rd(eng, st, a[0]))))]


@model(r"^<std::cell::Ref(Mut)?<.*as std::ops::Deref(Mut)?>::deref(_mut)?$",
       r"^<std::sync::LazyLock<.*as std::ops::Deref>::deref$")
def m_deref_guard(eng, st, cs, a):
    v = rd(eng, st, a[0])
    if v.op == "ref":
        return [(st, v)]
    return [(st, T("ref", T("deref", v)))]


@model(r"^std::cell::RefCell::<.*>::(borrow|borrow_mut)$", r"^std::cell::UnsafeCell::<.*>::(get|get_mut|raw_get)$",
       r"^std::cell::RefCell::<.*>::(as_ptr|get_mut)$", r"^std::cell::Cell::<.*>::(as_ptr|get_mut)$")
def m_borrow(eng, st, cs, a):
    return [(st, T("ref", T("cell", dref(eng, a[0]))))]


@model(r"^std::cell::RefCell::<.*>::(try_borrow|try_borrow_mut)$")
def m_try_borrow(eng, st, cs, a):
    return [(st, OK(T("ref", T("cell", dref(eng, a[0]))))), (st.copy(), ERR(T("borrowerr")))]


@model(r"^std::cell::Cell::<.*>::get$")
def m_cell_get(eng, st, cs, a):
    return [(st, eng.read(st, T("cell", dref(eng, a[0]))))]


@model(r"^std::cell::(Ref)?Cell::<.*>::replace$")
def m_cell_replace(eng, st, cs, a):
    p = T("cell", dref(eng, a[0]))
    v = eng.read(st, p)
    eng.write(st, p, a[1])
    return [(st, v)]


@model(r"^std::cell::Cell::<.*>::set$")
def m_cell_set(eng, st, cs, a):
    eng.write(st, T("cell", dref(eng, a[0])), a[1])
    return [(st, UNIT)]


@model(r"^std::cell::(RefCell|UnsafeCell|Cell)::<.*>::new$")
def m_cell_new(eng, st, cs, a):
    return [(st, T("newcell", a[0]))]


@model(r"^std::rc::Rc::<.*>::new$", r"^std::sync::Arc::<.*>::new$")
def m_rc_new(eng, st, cs, a):
    return [(st, T("rc", eng.close(st, a[0])))]


@model(r"^std::boxed::Box::<.*>::new$", r"^std::boxed::Box::<.*>::(from)$")
def m_box_new(eng, st, cs, a):
    return [(st, T("box", a[0]))]


@model(r"^std::rc::Rc::<.*>::as_ptr$", r"^std::sync::Arc::<.*>::as_ptr$")
def m_rc_ptr(eng, st, cs, a):
    return [(st, T("ref", eng.deref_of(rd(eng, st, a[0]))))]


@model(r"^std::rc::Rc::<.*>::ptr_eq$", r"^std::sync::Arc::<.*>::ptr_eq$", r"^(std|core)::ptr::(eq|addr_eq)$")
def m_ptr_eq(eng, st, cs, a):
    x, y = a
    if "Rc" in cs.name or "Arc" in cs.name:
        x, y = rd(eng, st, x), rd(eng, st, y)
    if x is y:
        return [(st, TRUE)]
    if key(y) < key(x):
        x, y = y, x
    return [(st, T("ptreq", x, y))]


@model(r"^std::(rc::Rc|sync::Arc)::<.*>::downgrade$")
def m_downgrade(eng, st, cs, a):
    return [(st, T("weak", rd(eng, st, a[0])))]


@model(r"^std::(rc|sync)::Weak::<.*>::upgrade$")
def m_upgrade(eng, st, cs, a):
    v = rd(eng, st, a[0])
    if v.op == "weak":
        return [(st, SOME(v.args[0]))]
    return [(st, SOME(T("upgraded", v))), (st.copy(), NONE)]


@model(r"^std::rc::Weak::<.*>::new$")
def m_weak_new(eng, st, cs, a):
    return [(st, T("weaknull"))]


@model(r" as std::clone::Clone>::clone$", r"clone::impls::<impl std::clone::Clone for .*>::clone$", r"^std::clone::Clone::clone$",
       r"<impl std::clone::Clone for \[.*>::clone$", r"^std::borrow::ToOwned::to_owned$", r"to_owned$", r"slice::<impl \[T\]>::to_vec$",
       r"slice::<impl \[T\]>::into_vec$", r"std::clone::Clone>::clone$")
def m_clone(eng, st, cs, a):
    if cs.name.endswith("into_vec"):
        return [(st, a[0])]
    return [(st, rd(eng, st, a[0]))]


@model(r"^<T as std::convert::(Into|From|TryInto|TryFrom)<.*>>::(into|from|try_into|try_from)$", r"^std::convert::(Into::into|From::from)$",
       r"^std::convert::(TryInto::try_into|TryFrom::try_from)$",
       r"^(core|std)::convert::num::<impl std::convert::(From|TryFrom)<.*> for .*>::(from|try_from)$",
       r"^<.* as std::convert::From<.*>>::from$")
def m_into(eng, st, cs, a):
    m = re.search(r"<impl std::convert::(From|TryFrom)<(\w+)> for (\w+)>", cs.name)
    src = dst = None
    meth = cs.name.rsplit("::", 1)[-1]
    if m:
        src, dst = m.group(2), m.group(3)
    elif len(cs.ga) >= 2:
        src, dst = (cs.ga[0], cs.ga[1]) if meth.endswith("into") else (cs.ga[1], cs.ga[0])
    if src in WIDTH and dst in WIDTH:
        if meth.startswith("try"):
            c = fits(a[0], src, dst)
            r = []
            for s, b in eng.decide(st, c):
                r.append((s, OK(cast_int(a[0], src, dst)) if b else ERR(T("tryfrom_err"))))
            return r
        if src == "bool":
            return [(s, K(int(b), dst)) for s, b in eng.decide(st, a[0])]
        return [(st, cast_int(a[0], src, dst))]
    if src in WIDTH and dst in FLOATS:
        return [(st, T("i2f", "i" if src in SIGNED else "u", WIDTH[src], dst, a[0]))]
    if src == "f32" and dst == "f64":
        return [(st, T("f2f", src, dst, a[0]))]
    if src is not None and src == dst:
        return [(st, a[0])]
    if meth in ("into", "from") and dst is not None:
        # a From impl of this crate
        for f in eng.crate.impls.get(("std::convert::From<%s>" % src, "from"), []):
            if f.self_ty == dst:
                return eng.inline_call(st, cs, f, a)
        for (tr, me), fs in eng.crate.impls.items():
            if me == "from" and tr.startswith("std::convert::From"):
                for f in fs:
                    if f.self_ty == dst and f.nargs == 1 and f.lty(1) == src:
                        return eng.inline_call(st, cs, f, a)
        if dst.startswith("std::boxed::Box<[") and src.startswith("std::vec::Vec"):
            return [(st, a[0])]
        if dst.startswith(("std::boxed::Box<dyn", "std::string::String", "std::rc::Rc<str", "std::boxed::Box<str")):
            return [(st, a[0] if a[0].op != "ref" else rd(eng, st, a[0]))]
    return [(st, T("into", src or "?", dst or "?", a[0]))] if meth in ("into", "from") else None


def fits(v, src, dst):
    sw, dw = WIDTH[src], WIDTH[dst]
    ss, ds = src in SIGNED, dst in SIGNED
    lo = -(1 << (dw - 1)) if ds else 0
    hi = (1 << (dw - 1)) - 1 if ds else (1 << dw) - 1
    slo = -(1 << (sw - 1)) if ss else 0
    shi = (1 << (sw - 1)) - 1 if ss else (1 << sw) - 1
    c = TRUE
    if slo < lo:
        c = cmp_int("Ge", src, v, K(lo, src))
    if shi > hi:
        d = cmp_int("Le", src, v, K(hi, src))
        c = d if c is TRUE else (c if d is TRUE else T("and", c, d))
    return c


@model(r"^(std|core)::mem::(replace)$")
def m_replace(eng, st, cs, a):
    p = dref(eng, a[0])
    v = eng.read(st, p)
    eng.write(st, p, a[1])
    return [(st, v)]


@model(r"^(std|core)::mem::take$")
def m_take(eng, st, cs, a):
    p = dref(eng, a[0])
    v = eng.read(st, p)
    eng.write(st, p, default_of(ga0(cs)))
    return [(st, v)]


@model(r"^(std|core)::mem::swap$")
def m_swap(eng, st, cs, a):
    p, q = dref(eng, a[0]), dref(eng, a[1])
    v, w = eng.read(st, p), eng.read(st, q)
    eng.write(st, p, w)
    eng.write(st, q, v)
    return [(st, UNIT)]


@model(r" as std::default::Default>::default$", r"^std::default::Default::default$")
def m_default(eng, st, cs, a):
    m = re.match(r"^<(.*) as std::default::Default>", cs.name)
    ty = ga0(cs) if cs.name.startswith("std::default") else m.group(1)
    if ty in WIDTH or ty in FLOATS:
        return [(st, K(0, ty))]
    rt = cs.rty()
    return [(st, default_of(rt or ty))]


SIZES = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8,
         "u128": 16, "i128": 16}


@model(r"^(std|core)::mem::(size_of|align_of)$")
def m_sizeof(eng, st, cs, a):
    if ga0(cs) in SIZES:
        return [(st, K(SIZES[ga0(cs)], "usize"))]
    return [(st, T(cs.name.rsplit("::", 1)[-1], ga0(cs)))]


@model(r"^(std|core)::any::type_name", r"^(std|core)::mem::discriminant$")
def m_disc(eng, st, cs, a):
    if cs.name.endswith("discriminant"):
        return [(st, eng.discr(rd(eng, st, a[0]), ga0(cs)))]
    return [(st, T("typename", ga0(cs)))]


# ---- equality ----------------------------------------------------------------------------------
@model(r" as std::cmp::PartialEq.*>::(eq|ne)$", r"<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)$", r"^std::cmp::PartialEq::(eq|ne)$")
def m_eq(eng, st, cs, a):
    ne = cs.name.endswith("ne")
    x, y = rd(eng, st, a[0]), rd(eng, st, a[1])
    ty = ga0(cs).lstrip("&")
    m = re.search(r"<impl std::cmp::PartialEq for (\w+)>", cs.name)
    if m:
        ty = m.group(1)
    for _ in range(4):
        if x.op == "ref" and y.op == "ref":
            x, y = eng.read(st, x.args[0]), eng.read(st, y.args[0])
    ty = ty.strip()
    if ty.startswith("'"):
        ty = ty.split(" ", 1)[-1]
    if ty in WIDTH and ty != "bool":
        return [(st, cmp_int("Ne" if ne else "Eq", ty, x, y))]
    if ty in FLOATS:
        return [(st, cmp_float("Ne" if ne else "Eq", ty, x, y))]
    if ty == "bool":
        return [(st, eng.binop("Ne" if ne else "Eq", x, y, "bool"))]
    # a derived / hand-written impl in the crate
    base = ty.split("<")[0]
    for f in eng.crate.impls.get(("std::cmp::PartialEq", "eq"), []):
        if f.self_ty == ty and not eng.opaque(f.name) and eng.stack.count(f.name) <= 1:
            r = eng.inline_call(st, cs, f, [T("ref", T("pval", x)) if a[0].op != "ref" else a[0], a[1]] if False else
                                [T("ref", T("pval", eng.close(st, x))), T("ref", T("pval", eng.close(st, y)))])
            return [(s, bnot(v) if ne else v) for s, v in r]
    return [(st, val_eq(eng, st, x, y, ne))]


def val_eq(eng, st, x, y, ne=False):
    x, y = eng.close(st, x), eng.close(st, y)
    while x.op == "ref" and y.op == "ref" and x.args[0].op == "pval" and y.args[0].op == "pval":
        x, y = x.args[0].args[0], y.args[0].args[0]
    if x is y:
        r = TRUE
    elif x.op == "vec" and y.op == "vec" and len(x.args[0]) != len(y.args[0]):
        r = FALSE
    elif x.op == "vec" and y.op == "vec":
        r = TRUE
        for u, v in zip(x.args[0], y.args[0]):
            e = val_eq(eng, st, u, v)
            if e is FALSE:
                r = FALSE
                break
            r = e if r is TRUE else (r if e is TRUE else T("and", r, e))
    elif x.op == "s" and y.op == "s":
        r = FALSE
    elif x.op == "adt" and y.op == "adt" and x.args[0] == y.args[0]:
        if x.args[1] != y.args[1]:
            r = FALSE
        else:
            r = TRUE
            for (_, u), (_, v) in zip(x.args[2], y.args[2]):
                e = val_eq(eng, st, u, v)
                if e is FALSE:
                    r = FALSE
                    break
                r = e if r is TRUE else (r if e is TRUE else T("and", r, e))
    else:
        if key(y) < key(x):
            x, y = y, x
        r = T("veq", x, y)
    return bnot(r) if ne else r


# ---- Option / Result ---------------------------------------------------------------------------
def opt_kind(cs):
    if "Result" in cs.name.split("::<")[0] or cs.name.startswith("<std::result"):
        return RES, "Ok", "Err"
    return OPT, "Some", "None"


def payload(eng, v, var):
    return eng.project(v, var + ".0")


OR = r"^std::(option::Option|result::Result)::<.*>::"


@model(OR + r"(unwrap|expect|unwrap_unchecked)$")
def m_unwrap(eng, st, cs, a):
    adt, ok, no = opt_kind(cs)
    r = []
    for s, b in split(eng, st, a[0], adt, ok):
        if b:
            r.append((s, payload(eng, a[0], ok)))
        elif not cs.name.endswith("unchecked"):
            from engine import Out
            cs.outs.append(Out("panic", s, T("panic", "unwrap")))
    return r


@model(OR + r"(unwrap_err|expect_err|err)$")
def m_unwrap_err(eng, st, cs, a):
    r = []
    for s, b in split(eng, st, a[0], RES, "Err"):
        if cs.name.endswith("::err"):
            r.append((s, SOME(payload(eng, a[0], "Err")) if b else NONE))
        elif b:
            r.append((s, payload(eng, a[0], "Err")))
        else:
            from engine import Out
            cs.outs.append(Out("panic", s, T("panic", "unwrap_err")))
    return r


@model(OR + r"(is_some|is_none|is_ok|is_err)$")
def m_is(eng, st, cs, a):
    adt, ok, no = opt_kind(cs)
    v = rd(eng, st, a[0])
    want = cs.name.rsplit("::", 1)[-1] in ("is_some", "is_ok")
    return [(s, TRUE if b == want else FALSE) for s, b in split(eng, st, v, adt, ok)]


@model(OR + r"(is_some_and|is_ok_and|is_none_or)$")
def m_is_and(eng, st, cs, a):
    adt, ok, no = opt_kind(cs)
    r = []
    for s, b in split(eng, st, a[0], adt, ok):
        if b:
            r.extend(eng.call_value(s, cs, a[1], [payload(eng, a[0], ok)]))
        else:
            r.append((s, TRUE if cs.name.endswith("is_none_or") else FALSE))
    return r


@model(OR + r"(unwrap_or|unwrap_or_else|unwrap_or_default)$")
def m_unwrap_or(eng, st, cs, a):
    adt, ok, no = opt_kind(cs)
    k = cs.name.rsplit("::", 1)[-1]
    r = []
    for s, b in split(eng, st, a[0], adt, ok):
        if b:
            r.append((s, payload(eng, a[0], ok)))
        elif k == "unwrap_or":
            r.append((s, a[1]))
        elif k == "unwrap_or_default":
            r.append((s, default_of(ga0(cs))))
        else:
            r.extend(eng.call_value(s, cs, a[1], [] if adt == OPT else [payload(eng, a[0], no)]))
    return r


@model(OR + r"(map|map_err|and_then|or_else|map_or|map_or_else|and|or|ok_or|ok_or_else|ok|filter|inspect|inspect_err|xor|zip|flatten)$")
def m_map(eng, st, cs, a):
    adt, ok, no = opt_kind(cs)
    k = cs.name.rsplit("::", 1)[-1]
    v = a[0]
    r = []
    for s, b in split(eng, st, v, adt, ok):
        p = payload(eng, v, ok) if b else None
        e = payload(eng, v, no) if (not b and adt == RES) else None
        full = T("adt", adt, ok, (("0", p),)) if b else T("adt", adt, no, (("0", e),) if e is not None else ())
        if k == "map":
            if b: r.extend((s2, T("adt", adt, ok, (("0", x),))) for s2, x in eng.call_value(s, cs, a[1], [p]))
            else: r.append((s, full))
        elif k == "map_err":
            if b: r.append((s, full))
            else: r.extend((s2, ERR(x)) for s2, x in eng.call_value(s, cs, a[1], [e]))
        elif k == "and_then":
            if b: r.extend(eng.call_value(s, cs, a[1], [p]))
            else: r.append((s, full))
        elif k == "or_else":
            if b: r.append((s, full))
            else: r.extend(eng.call_value(s, cs, a[1], [] if adt == OPT else [e]))
        elif k == "map_or":
            if b: r.extend(eng.call_value(s, cs, a[2], [p]))
            else: r.append((s, a[1]))
        elif k == "map_or_else":
            if b: r.extend(eng.call_value(s, cs, a[2], [p]))
            else: r.extend(eng.call_value(s, cs, a[1], [] if adt == OPT else [e]))
        elif k == "and":
            r.append((s, a[1] if b else full))
        elif k == "or":
            r.append((s, full if b else a[1]))
        elif k == "ok_or":
            r.append((s, OK(p) if b else ERR(a[1])))
        elif k == "ok_or_else":
            if b: r.append((s, OK(p)))
            else: r.extend((s2, ERR(x)) for s2, x in eng.call_value(s, cs, a[1], []))
        elif k == "ok":
            r.append((s, SOME(p) if b else NONE))
        elif k == "filter":
            if not b: r.append((s, full))
            else:
                for s2, x in eng.call_value(s, cs, a[1], [T("ref", T("pval", p))]):
                    for s3, bb in eng.decide(s2, x):
                        r.append((s3, full if bb else NONE))
        elif k in ("inspect", "inspect_err"):
            r.append((s, full))
        elif k == "flatten":
            r.append((s, p if b else full))
        else:
            r.append((s, T("optop", k, full, a[1])))
    return r


@model(OR + r"(as_ref|as_mut|as_deref|as_deref_mut)$")
def m_as_ref(eng, st, cs, a):
    adt, ok, no = opt_kind(cs)
    p = dref(eng, a[0])
    v = eng.read(st, p)
    r = []
    for s, b in split(eng, st, v, adt, ok):
        if b:
            q = eng.fldp(p, ok + ".0")
            x = T("ref", q)
            if "deref" in cs.name.rsplit("::", 1)[-1]:
                inner = eng.read(s, q)
                if ga0(cs).startswith(("std::rc", "std::sync", "std::boxed")):
                    x = T("ref", eng.deref_of(inner))
            r.append((s, T("adt", adt, ok, (("0", x),))))
        else:
            r.append((s, T("adt", adt, no, (("0", T("ref", eng.fldp(p, no + ".0"))),) if adt == RES else ())))
    return r


@model(r"^std::option::Option::<&(mut )?.*>::(cloned|copied)$", r"^std::option::Option::<&.*>::(cloned|copied)$")
def m_cloned(eng, st, cs, a):
    r = []
    for s, b in split(eng, st, a[0], OPT, "Some"):
        r.append((s, SOME(rd(eng, s, payload(eng, a[0], "Some"))) if b else NONE))
    return r


@model(r"^std::option::Option::<.*>::(take|replace|insert|get_or_insert_with)$")
def m_opt_take(eng, st, cs, a):
    p = dref(eng, a[0])
    k = cs.name.rsplit("::", 1)[-1]
    v = eng.read(st, p)
    if k == "take":
        eng.write(st, p, NONE)
        return [(st, v)]
    if k == "replace":
        eng.write(st, p, SOME(a[1]))
        return [(st, v)]
    if k == "insert":
        eng.write(st, p, SOME(a[1]))
        return [(st, T("ref", eng.fldp(p, "Some.0")))]
    return None


@model(r"^<std::(option::Option|result::Result)<.*> as std::ops::Try>::branch$")
def m_try(eng, st, cs, a):
    adt, ok, no = opt_kind(cs) if "result" not in cs.name else (RES, "Ok", "Err")
    v = a[0]
    r = []
    for s, b in split(eng, st, v, adt, ok):
        if b:
            r.append((s, T("adt", CF, "Continue", (("0", payload(eng, v, ok)),))))
        else:
            res = T("adt", adt, no, (("0", payload(eng, v, no)),) if adt == RES else ())
            r.append((s, T("adt", CF, "Break", (("0", res),))))
    return r


@model(r"^<std::(option::Option|result::Result)<.*> as std::ops::Try>::from_output$")
def m_from_output(eng, st, cs, a):
    return [(st, OK(a[0]) if "result" in cs.name else SOME(a[0]))]


@model(r"as std::ops::FromResidual<.*>>::from_residual$")
def m_residual(eng, st, cs, a):
    if cs.name.startswith("<std::option"):
        return [(st, NONE)]
    e = payload(eng, a[0], "Err")
    # error conversion by From
    src = dst = None
    rt = cs.rty()
    return conv_err(eng, st, cs, e, rt)


def conv_err(eng, st, cs, e, rt):
    dst = split_args(rt)[-1] if rt.startswith(RES) else None
    arg = cs.argt[0] if cs.argt else ""
    src = split_args(arg)[-1] if arg.startswith(RES) else None
    if src and dst and src != dst:
        for (tr, me), fs in eng.crate.impls.items():
            if me == "from" and tr.startswith("std::convert::From"):
                for f in fs:
                    if f.self_ty == dst and f.nargs == 1 and f.lty(1) == src:
                        return [(s, ERR(x)) for s, x in eng.inline_call(st, cs, f, [e])]
        return [(st, ERR(T("into", src, dst, e)))]
    return [(st, ERR(e))]


def split_args(ty):
    """generic arguments of a type string"""
    i = ty.find("<")
    if i < 0:
        return [ty]
    s = ty[i + 1:ty.rfind(">")]
    out, d, cur = [], 0, ""
    j = 0
    while j < len(s):
        ch = s[j]
        if ch in "<([":
            d += 1
        elif ch in ">)]" and not (ch == ">" and j and s[j - 1] == "-"):
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
        j += 1
    out.append(cur.strip())
    return out


@model(r"^std::option::Option::<.*>::(iter|into_iter)$")
def m_opt_iter(eng, st, cs, a):
    if eng.unroll and cs.name.endswith("::iter"):
        v = rd(eng, st, a[0])
        return [(s, T("itopt", SOME(T("ref", T("pval", payload(eng, v, "Some")))) if b else NONE)) for s, b in eng.decide_variant(st, v, OPT, "Some")]
    return [(st, T("itopt", rd(eng, st, a[0])))]


# ---- Vec / slice -------------------------------------------------------------------------------
VEC = r"^(std::vec::Vec|arrayvec::ArrayVec)::<.*>::"
SL = r"^(core|std)::slice::<impl \[T\]>::"


@model(VEC + r"(new|with_capacity)$", r"^std::string::String::new$")
def m_vec_new(eng, st, cs, a):
    return [(st, T("vec", ()))]


@model(r"^std::boxed::Box::<.*>::new_uninit$", r"^std::boxed::Box::<.*>::new_uninit_slice$")
def m_new_uninit(eng, st, cs, a):
    n = st.cnt.get("box", 0) + 1
    st.cnt["box"] = n
    return [(st, T("uninitbox", eng.fid(cs.fr.fid, ("ub", cs.b)), n))]


@model(r"box_assume_init_into_vec_unsafe$", r"^std::boxed::Box::<.*MaybeUninit.*>::assume_init$")
def m_box_into_vec(eng, st, cs, a):
    v = a[0]
    if v.op == "box":
        x = v.args[0]
    else:
        x = eng.read(st, T("deref", v))
    arr = unwrap_mu(eng, x)
    if arr.op == "array":
        return [(st, T("vec", arr.args[0]))]
    return [(st, arr)]


def unwrap_mu(eng, x):
    # MaybeUninit{value: ManuallyDrop{value: MaybeDangling(x)}} wrappers
    for _ in range(6):
        if x.op == "adt" and x.args[2]:
            x = x.args[2][-1][1]
        elif x.op == "upd" and len(x.args[1]) == 1:
            path, v = x.args[1][0]
            x = v
        else:
            break
    return x


@model(r"^std::vec::from_elem$")
def m_from_elem(eng, st, cs, a):
    return [(st, T("from_elem", a[0], a[1]))]


@model(VEC + r"into_boxed_slice$", r"::into_iter_as_is$", VEC + r"shrink_to_fit$", VEC + r"leak$", r"::into_vec$")
def m_id(eng, st, cs, a):
    if cs.name.endswith("shrink_to_fit"):
        return [(st, UNIT)]
    return [(st, a[0])]


@model(VEC + r"(reserve|reserve_exact)$")
def m_reserve(eng, st, cs, a):
    return [(st, UNIT)]


@model(VEC + r"len$", SL + r"len$", r"String::len$", r"^core::str::<impl str>::len$")
def m_len(eng, st, cs, a):
    return [(st, eng.length(st, dref(eng, a[0])))]


@model(VEC + r"is_empty$", SL + r"is_empty$", r"String::is_empty$", r"^core::str::<impl str>::is_empty$")
def m_is_empty(eng, st, cs, a):
    return [(st, cmp_int("Eq", "usize", eng.length(st, dref(eng, a[0])), K(0, "usize")))]


def vec_push(v, x):
    if v.op == "vec":
        return T("vec", v.args[0] + (x,))
    return T("push", v, x)


@model(VEC + r"push$", VEC + r"push_unchecked$", VEC + r"try_push$")
def m_push(eng, st, cs, a):
    p = dref(eng, a[0])
    v = eng.read(st, p)
    eng.write(st, p, vec_push(v, eng.close(st, a[1])))
    return [(st, OK(UNIT) if cs.name.endswith("try_push") else UNIT)]


@model(VEC + r"pop$")
def m_pop(eng, st, cs, a):
    p = dref(eng, a[0])
    v = eng.read(st, p)
    if v.op == "vec":
        if not v.args[0]:
            return [(st, NONE)]
        x = v.args[0][-1]
        eng.write(st, p, T("vec", v.args[0][:-1]))
        return [(st, SOME(x))]
    if v.op == "push":
        eng.write(st, p, v.args[0])
        return [(st, SOME(v.args[1]))]
    n = eng.len_of(v)
    r = []
    for s, b in eng.decide(st, cmp_int("Eq", "usize", n, K(0, "usize"))):
        if b:
            r.append((s, NONE))
        else:
            s = s.copy()
            x = eng.read(s, idx_place(p, mk("Add", 64, n, K(-1, "usize"))))
            v = eng.read(s, p)
            if v.op == "upd":       # what was written to the removed element goes with it
                last = mk("Add", 64, n, K(-1, "usize"))
                ups = tuple(u for u in v.args[1] if u[0][0] != ("idx", last))
                v = T("upd", v.args[0], ups) if ups else v.args[0]
            eng.write(s, p, T("popped", v))
            r.append((s, SOME(x)))
    return r


@model(VEC + r"truncate$")
def m_truncate(eng, st, cs, a):
    p = dref(eng, a[0])
    v = eng.read(st, p)
    if v.op == "vec" and is_k(a[1]):
        eng.write(st, p, T("vec", v.args[0][:a[1].args[0]]))
        return [(st, UNIT)]
    xs, b = 0, v
    while b.op == "push":
        xs, b = xs + 1, b.args[0]
    n, k = eng.len_of(b), T("bottom")
    if a[1] is n:
        k = K(0, "usize")
    elif a[1].op == "Add" and a[1].args[1] is n:
        k = a[1].args[2]
    if xs and is_k(k) and 0 <= k.args[0] <= xs:
        for _ in range(xs - k.args[0]):
            v = v.args[0]
        eng.write(st, p, v)
        return [(st, UNIT)]
    eng.write(st, p, T("truncated", v, a[1]))
    return [(st, UNIT)]


@model(VEC + r"capacity$")
def m_capacity(eng, st, cs, a):
    return [(st, T("cap", eng.read(st, dref(eng, a[0]))))]


@model(VEC + r"set_len$")
def m_set_len(eng, st, cs, a):
    p = dref(eng, a[0])
    eng.write(st, p, T("setlen", eng.read(st, p), a[1]))
    return [(st, UNIT)]


@model(VEC + r"resize$")
def m_resize(eng, st, cs, a):
    p = dref(eng, a[0])
    v = eng.read(st, p)
    eng.write(st, p, T("resized", v, a[1], eng.close(st, a[2])))
    return [(st, UNIT)]


@model(VEC + r"resize_with$")
def m_resize_with(eng, st, cs, a):
    p = dref(eng, a[0])
    v = eng.read(st, p)
    r = []
    for s, x in eng.call_value(st, cs, a[2], []):
        eng.write(s, p, T("resized", v, a[1], eng.close(s, x)))
        r.append((s, UNIT))
    return r


@model(VEC + r"clear$")
def m_clear(eng, st, cs, a):
    eng.write(st, dref(eng, a[0]), T("vec", ()))
    return [(st, UNIT)]


def seq_val(eng, st, v):
    """value of a sequence argument (by reference or by value)"""
    if v.op == "ref":
        return eng.read(st, v.args[0])
    if v.op in ("it", "itval"):
        return T("seqof", v)
    return rd(eng, st, v) if v.op not in ("vec", "from_elem", "array", "push", "mapped") else v


@model(VEC + r"(extend_from_slice|try_extend_from_slice)$", r"<.*Vec<.*as std::iter::Extend<.*>>::extend$", VEC + r"append$")
def m_extend(eng, st, cs, a):
    p = dref(eng, a[0])
    v = eng.read(st, p)
    x = a[1]
    if x.op == "ref":
        s = eng.read(st, x.args[0])
    elif is_iter(x):
        r = []
        for s2, c in collect_iter(eng, st, cs, x):
            eng.write(s2, p, extend_val(v, c))
            r.append((s2, UNIT))
        return r
    else:
        s = rd(eng, st, x)
    s = eng.close(st, s)
    eng.write(st, p, extend_val(v, s))
    if cs.name.endswith("append") and a[1].op == "ref":
        eng.write(st, a[1].args[0], T("vec", ()))
    return [(st, OK(UNIT) if "try_" in cs.name else UNIT)]


def extend_val(v, s):
    if v.op == "vec" and not v.args[0]:
        return s
    if v.op == "vec" and s.op in ("vec", "array"):
        return T("vec", v.args[0] + s.args[0])
    return T("extended", v, s)


@model(VEC + r"insert$")
def m_insert(eng, st, cs, a):
    p = dref(eng, a[0])
    v = eng.read(st, p)
    x = eng.close(st, a[2])
    if v.op == "vec" and is_k(a[1]):
        i = a[1].args[0]
        eng.write(st, p, T("vec", v.args[0][:i] + (x,) + v.args[0][i:]))
    else:
        eng.write(st, p, T("inserted", v, a[1], x))
    return [(st, UNIT)]


@model(VEC + r"(remove|swap_remove|split_off|drain)$")
def m_remove(eng, st, cs, a):
    p = dref(eng, a[0])
    v = eng.read(st, p)
    k = cs.name.rsplit("::", 1)[-1]
    eng.write(st, p, T(k + "d", v, a[1]))
    if k == "drain":
        return [(st, T("itval", T("drainpart", v, a[1])))]
    if k in ("remove", "swap_remove"):
        return [(st, eng.proj_elem(v, ("idx", a[1])))]
    return [(st, T("splitpart", v, a[1]))]


@model(SL + r"(get|get_mut)$", VEC + r"(get|get_mut)$")
def m_get(eng, st, cs, a):
    p = dref(eng, a[0])
    n = eng.length(st, p)
    i = a[1]
    if i.op == "adt":          # range
        if eng.unroll:
            return [(s, SOME(T("ref", rng_place(eng, p, i))) if b else NONE) for s, b in in_bounds(eng, st, p, i)]
        return [(st, SOME(T("ref", rng_place(eng, p, i)))), (st.copy(), NONE)]
    r = []
    for s, b in eng.decide(st, cmp_int("Lt", "usize", i, n)):
        r.append((s, SOME(T("ref", idx_place(p, i))) if b else NONE))
    return r


def in_bounds(eng, st, p, rg):
    """[(state, whether the range rg lies in the sequence at p)]"""
    q = rng_place(eng, p, rg)
    if q is p:
        return [(st, True)]
    lo, hi = q.args[1], q.args[2]
    if isinstance(hi, Term) and hi.op == "incl":
        hi = mk("Add", 64, hi.args[0], K(1, "usize"))
    r = []
    for s, b in eng.decide(st, cmp_int("Le", "usize", lo, hi)) if hi != "end" else [(st, True)]:
        if not b:
            r.append((s, False))
            continue
        r += eng.decide(s, cmp_int("Le", "usize", lo if hi == "end" else hi, eng.length(s, p)))
    return r


def rng_place(eng, p, rg):
    nm = rg.args[0].rsplit("::", 1)[-1]
    f = dict(rg.args[2])
    lo = f.get("start", K(0, "usize"))
    hi = f.get("end")
    if nm == "RangeFull":
        return p
    if nm.startswith("RangeToInclusive") or nm == "RangeInclusive":
        return T("range", p, lo, T("incl", hi) if hi is not None else "end")
    if hi is None:
        return T("range", p, lo, "end")
    return T("range", p, lo, hi)


@model(SL + r"(get_unchecked|get_unchecked_mut)$", VEC + r"(get_unchecked|get_unchecked_mut)$")
def m_get_unchecked(eng, st, cs, a):
    p = dref(eng, a[0])
    if a[1].op == "adt":
        return [(st, T("ref", rng_place(eng, p, a[1])))]
    return [(st, T("ref", idx_place(p, a[1])))]


@model(r"^<std::vec::Vec<.*as std::ops::Index(Mut)?<.*>>::index(_mut)?$", r"^std::ops::Index(Mut)?::index(_mut)?$",
       r"slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$",
       r"^<arrayvec::ArrayVec<.*as std::ops::Index(Mut)?<.*>>::index(_mut)?$",
       r"array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>::index(_mut)?$",
       r"^<.* as std::ops::Index(Mut)?<.*>>::index(_mut)?$")
def m_index(eng, st, cs, a):
    from engine import Out
    if "HashMap" in cs.name or "BTree" in cs.name:
        return None
    p = dref(eng, a[0])
    i = a[1]
    if i.op == "adt" and eng.unroll:
        r = []
        for s, b in in_bounds(eng, st, p, i):
            if b:
                r.append((s, T("ref", rng_place(eng, p, i))))
            else:
                cs.outs.append(Out("panic", s, T("panic", "range out of bounds")))
        return r
    if i.op == "adt":
        return [(st, T("ref", rng_place(eng, p, i)))]
    n = eng.length(st, p)
    r = []
    for s, b in eng.decide(st, cmp_int("Lt", "usize", i, n)):
        if b:
            r.append((s, T("ref", idx_place(p, i))))
        else:
            cs.outs.append(Out("panic", s, T("panic", "index out of bounds")))
    return r


@model(SL + r"(first|last|first_mut|last_mut)$", VEC + r"(first|last)$")
def m_first(eng, st, cs, a):
    p = dref(eng, a[0])
    n = eng.length(st, p)
    k = cs.name.rsplit("::", 1)[-1]
    i = K(0, "usize") if k.startswith("first") else mk("Add", 64, n, K(-1, "usize"))
    r = []
    for s, b in eng.decide(st, cmp_int("Eq", "usize", n, K(0, "usize"))):
        r.append((s, NONE if b else SOME(T("ref", idx_place(p, i)))))
    return r


@model(VEC + r"(as_ptr|as_mut_ptr)$", SL + r"(as_ptr|as_mut_ptr)$", r"String::as_ptr$", r"<impl str>::as_ptr$")
def m_as_ptr(eng, st, cs, a):
    return [(st, T("pelem", dref(eng, a[0])))]


@model(SL + r"(copy_from_slice|clone_from_slice)$")
def m_copy_from_slice(eng, st, cs, a):
    p = dref(eng, a[0])
    v = eng.close(st, seq_val(eng, st, a[1]))
    if root(p).op != "local":
        st.ev = st.ev + (("copyslice", p, v),)
    eng.write(st, p, v, event=False)
    return [(st, UNIT)]


@model(SL + r"fill$")
def m_fill(eng, st, cs, a):
    p = dref(eng, a[0])
    n = eng.length(st, p)
    st.ev = st.ev + (("fillslice", p, a[1]),)
    eng.write(st, p, T("from_elem", a[1], n), event=False)
    return [(st, UNIT)]


@model(SL + r"copy_within$")
def m_copy_within(eng, st, cs, a):
    p = dref(eng, a[0])
    st.ev = st.ev + (("copywithin", p, a[1], a[2]),)
    eng.write(st, p, T("copywithinv", eng.read(st, p), a[1], a[2]), event=False)
    return [(st, UNIT)]


@model(SL + r"(swap|reverse|sort|sort_by|sort_by_key|sort_unstable|sort_unstable_by|sort_unstable_by_key)$", VEC + r"(dedup|retain)$")
def m_permute(eng, st, cs, a):
    p = dref(eng, a[0])
    k = cs.name.rsplit("::", 1)[-1]
    v = eng.read(st, p)
    if v.op == "vec" and (k == "reverse" or k == "swap" and all(is_k(x) and x.args[0] < len(v.args[0]) for x in a[1:])):
        xs = list(v.args[0])
        if k == "reverse":
            xs.reverse()
        else:
            i, j = a[1].args[0], a[2].args[0]
            xs[i], xs[j] = xs[j], xs[i]
        eng.write(st, p, T("vec", tuple(xs)))
        return [(st, UNIT)]
    eng.write(st, p, T(k + "_of", eng.read(st, p), *a[1:]) if k in ("swap", "reverse") else T(k + "_of", eng.read(st, p)))
    return [(st, UNIT)]


@model(SL + r"(split_at|split_at_mut)$")
def m_split_at(eng, st, cs, a):
    p = dref(eng, a[0])
    return [(st, T("tuple", (T("ref", T("range", p, K(0, "usize"), a[1])), T("ref", T("range", p, a[1], "end")))))]


@model(SL + r"contains$", VEC + r"contains$")
def m_contains(eng, st, cs, a):
    v, x = eng.close(st, rd(eng, st, a[0])), eng.close(st, rd(eng, st, a[1]))
    if v.op == "vec":
        if any(y is x and not has_float(y) for y in v.args[0]):
            return [(st, K(1, "bool"))]
        if all(distinct(y, x) for y in v.args[0]):
            return [(st, K(0, "bool"))]
    return [(st, T("contains", v, x))]


def has_float(t):
    return isinstance(t, Term) and (t.op == "k" and len(t.args) > 1 and t.args[1] in ("f32", "f64") or any(has_float(x) for x in t.args)) or \
        isinstance(t, tuple) and any(has_float(x) for x in t)


def distinct(x, y):
    """two values that cannot be equal"""
    if x.op == "ref" and x.args[0].op == "pval": x = x.args[0].args[0]
    if y.op == "ref" and y.args[0].op == "pval": y = y.args[0].args[0]
    if x.op == "k" and y.op == "k":
        return x.args[0] != y.args[0]
    if x.op == "s" and y.op == "s":
        return x is not y
    if x.op == "adt" and y.op == "adt" and x.args[0] == y.args[0]:
        return x.args[1] != y.args[1] or any(f[0] == g[0] and distinct(f[1], g[1]) for f, g in zip(x.args[2], y.args[2]))
    if x.op == y.op and x.op in ("vec", "tuple"):
        return len(x.args[0]) != len(y.args[0]) or any(distinct(f, g) for f, g in zip(x.args[0], y.args[0]))
    return False


# ---- raw pointers ------------------------------------------------------------------------------
def padd(p, n, ty):
    if n.op == "k" and n.args[0] == 0:
        return p
    if p.op == "padd" and p.args[2] == ty:
        return padd(p.args[0], mk("Add", 64, p.args[1], n), ty)
    return T("padd", p, n, ty)


PTR = r"^(std|core)::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) (T|\[T\])>::"


@model(PTR + r"(add|wrapping_add|offset|wrapping_offset|byte_add)$", r"intrinsics::(offset|arith_offset)$")
def m_padd(eng, st, cs, a):
    return [(st, padd(a[0], a[1], ga0(cs)))]


@model(PTR + r"(sub|wrapping_sub)$")
def m_psub(eng, st, cs, a):
    return [(st, padd(a[0], mk("Neg", 64, a[1]), ga0(cs)))]


@model(PTR + r"(cast|cast_mut|cast_const)$")
def m_pcast(eng, st, cs, a):
    return [(st, a[0])]


@model(PTR + r"is_null$")
def m_is_null(eng, st, cs, a):
    v = a[0]
    if v.op == "null":
        return [(st, TRUE)]
    if v.op in ("ref", "pelem"):
        return [(st, FALSE)]
    return [(st, T("isnull", v))]


@model(r"^(std|core)::ptr::(null|null_mut)$", r"^(std|core)::ptr::(dangling|dangling_mut)$")
def m_null(eng, st, cs, a):
    return [(st, T("null"))]


@model(PTR + r"(as_ref|as_mut)$")
def m_ptr_as_ref(eng, st, cs, a):
    return [(st, SOME(a[0])), (st.copy(), NONE)]


def mem_ver(st):
    return st.cnt.get("mem", 0)


@model(r"^(std|core)::ptr::(read_unaligned|read|read_volatile)$", PTR + r"(read_unaligned|read|read_volatile)$")
def m_pread(eng, st, cs, a):
    ty = ga0(cs)
    p = a[0]
    if p.op == "ref":
        return [(st, eng.read(st, p.args[0]))]
    return [(st, T("load", ty, eng.close(st, p), mem_ver(st)))]


@model(r"^(std|core)::ptr::(write_unaligned|write|write_volatile)$", PTR + r"(write_unaligned|write|write_volatile)$")
def m_pwrite(eng, st, cs, a):
    ty = ga0(cs)
    p = a[0]
    if p.op == "ref":
        eng.write(st, p.args[0], a[1])
        return [(st, UNIT)]
    if p.op in ("uninitbox",):
        eng.write(st, T("deref", p), a[1], event=False)
        return [(st, UNIT)]
    st.ev = st.ev + (("store", ty, eng.close(st, p), a[1]),)
    st.cnt["mem"] = mem_ver(st) + 1
    return [(st, UNIT)]


@model(r"^(std|core)::ptr::(copy|copy_nonoverlapping|write_bytes)$", r"^(std|core)::intrinsics::(copy|copy_nonoverlapping|write_bytes)$",
       PTR + r"(copy_to|copy_from|copy_to_nonoverlapping|copy_from_nonoverlapping|write_bytes)$")
def m_pcopy(eng, st, cs, a):
    k = cs.name.rsplit("::", 1)[-1]
    ty = ga0(cs)
    src, dst, n = a
    if k.startswith("copy_from"):
        src, dst = dst, src
    if k == "write_bytes":
        st.ev = st.ev + (("memset", ty, eng.close(st, src), dst, n),)
        st.cnt["mem"] = mem_ver(st) + 1
        return [(st, UNIT)]
    kind = "memcpy" if "nonoverlapping" in k else "memmove"
    s0, d0 = eng.close(st, src), eng.close(st, dst)
    st.ev = st.ev + ((kind, ty, s0, d0, n),)
    st.cnt["mem"] = mem_ver(st) + 1
    # copying into a local byte buffer
    q = dst.args[0] if dst.op in ("ref", "pelem") else None
    if q is not None and root(q).op == "local":
        eng.write(st, q, T("bytesat", s0, n, mem_ver(st)), event=False)
    return [(st, UNIT)]


@model(r"^(std|core)::slice::(from_raw_parts|from_raw_parts_mut)$", r"^(std|core)::ptr::slice_from_raw_parts(_mut)?$")
def m_from_raw(eng, st, cs, a):
    return [(st, T("ref", T("deref", T("rawslice", eng.close(st, a[0]), a[1]))))]


# ---- iterators ---------------------------------------------------------------------------------
ITS = {"it", "itat", "itval", "itmap", "itenum", "itzip", "ittake", "itskip", "itrev", "itcopied", "itfilter", "itrange", "itopt",
       "itopq", "itchain", "ittakew", "itfmap", "itflat", "itchunks", "itpeek"}


def is_iter(v):
    return v.op in ITS or (v.op == "adt" and v.args[0].startswith(("std::ops::Range", "core::ops::Range")))


def to_iter(eng, st, v, ty=""):
    if v.op == "adt" and v.args[0].endswith("Range"):
        f = dict(v.args[2])
        return T("itrange", f["start"], f["end"])
    if v.op in ITS:
        return v
    if v.op == "ref":
        return T("it", v.args[0])
    if v.op in ("adt",) and v.args[0] == OPT:
        return T("itopt", v)
    if v.op == "call" or v.op == "out" or v.op == "lv":
        if ty.startswith(("std::vec::Vec", "[", "arrayvec", "std::boxed::Box<[")):
            return T("itval", v)
        return T("itopq", v)
    if v.op in ("vec", "array", "from_elem", "push", "mapped", "collect"):
        return T("itval", v)
    if ty.startswith("&"):
        return T("it", T("deref", v))
    if ty.startswith(("std::vec::Vec", "[", "arrayvec", "std::boxed::Box<[")):
        return T("itval", v)
    return T("itopq", v)


@model(r"IntoIterator>::into_iter$", r"IntoIterator for .*>::into_iter$", r"^std::iter::IntoIterator::into_iter$")
def m_into_iter(eng, st, cs, a):
    ty = cs.argt[0] if cs.argt else ""
    if not ty and cs.ga:
        ty = cs.ga[0]
    return [(st, to_iter(eng, st, a[0], ty or ga0(cs)))]


@model(SL + r"(iter|iter_mut)$", VEC + r"(iter|iter_mut)$")
def m_iter(eng, st, cs, a):
    return [(st, T("it", dref(eng, a[0])))]


@model(SL + r"(chunks|chunks_exact|windows)$")
def m_chunks(eng, st, cs, a):
    return [(st, T("itopq", T(cs.name.rsplit("::", 1)[-1], a[0], a[1])))]


@model(r"^std::iter::Iterator::(map|filter|filter_map|flat_map|take_while|skip_while|inspect|map_while)$")
def m_it_map(eng, st, cs, a):
    k = cs.name.rsplit("::", 1)[-1]
    op = {"map": "itmap", "filter": "itfilter", "take_while": "ittakew"}.get(k)
    it = to_iter(eng, st, a[0], cs.argt[0] if cs.argt else "")
    if k == "inspect":
        return [(st, it)]
    if op is None:
        op = "itfmap"
        return [(st, T(op, it, a[1], k))]
    return [(st, T(op, it, a[1]))]


@model(r"^std::iter::Iterator::flatten$")
def m_flatten(eng, st, cs, a):
    if not eng.unroll:
        return None
    return [(st, T("itflat", to_iter(eng, st, a[0], cs.argt[0] if cs.argt else "")))]


@model(r"^std::iter::Iterator::(enumerate|rev|copied|cloned|peekable|fuse|by_ref|cycle)$")
def m_it_enum(eng, st, cs, a):
    k = cs.name.rsplit("::", 1)[-1]
    if k == "by_ref":
        return [(st, a[0])]
    it = to_iter(eng, st, a[0], cs.argt[0] if cs.argt else "")
    if k in ("peekable", "fuse"):
        return [(st, it)]
    return [(st, T({"enumerate": "itenum", "rev": "itrev"}.get(k, "itcopied"), it))]


@model(r"^std::iter::Iterator::(zip|take|skip|chain|step_by)$", r"^std::iter::zip$")
def m_it_zip(eng, st, cs, a):
    k = cs.name.rsplit("::", 1)[-1]
    it = to_iter(eng, st, a[0], cs.argt[0] if cs.argt else "")
    if k in ("zip", "chain"):
        o = to_iter(eng, st, a[1], cs.argt[1] if len(cs.argt) > 1 else "")
        return [(st, T("itzip" if k == "zip" else "itchain", it, o))]
    if k == "step_by":
        return [(st, T("itopq", T("step_by", it, a[1])))]
    return [(st, T("it" + k, it, a[1]))]


def it_len(eng, st, it):
    if it.op == "it":
        return eng.length(st, it.args[0])
    if it.op == "itval":
        return eng.len_of(it.args[0])
    if it.op == "itrange":
        return mk("Sub", 64, it.args[1], it.args[0])
    if it.op in ("itmap", "itenum", "itrev", "itcopied"):
        return it_len(eng, st, it.args[0])
    return T("itlen", it)


def elem_at(eng, st, cs, it, i):
    """[(state, element value)]"""
    op = it.op
    if op == "it":
        return [(st, T("ref", idx_place(it.args[0], i)))]
    if op == "itval":
        return [(st, eng.proj_elem(it.args[0], ("idx", i)))]
    if op == "itrange":
        return [(st, mk("Add", 64, it.args[0], i))]
    if op == "itopt":
        return [(st, payload(eng, it.args[0], "Some"))]
    if op == "itenum":
        return [(s, T("tuple", (i, x))) for s, x in elem_at(eng, st, cs, it.args[0], i)]
    if op == "itzip":
        return [(s2, T("tuple", (x, y))) for s, x in elem_at(eng, st, cs, it.args[0], i)
                for s2, y in elem_at(eng, s, cs, it.args[1], i)]
    if op == "ittake":
        return elem_at(eng, st, cs, it.args[0], i)
    if op == "itskip":
        return elem_at(eng, st, cs, it.args[0], mk("Add", 64, it.args[1], i))
    if op == "itrev":
        return elem_at(eng, st, cs, it.args[0], T("revidx", i, it_len(eng, st, it.args[0])))
    if op == "itcopied":
        return [(s, rd(eng, s, x)) for s, x in elem_at(eng, st, cs, it.args[0], i)]
    if op == "itmap":
        r = []
        for s, x in elem_at(eng, st, cs, it.args[0], i):
            r.extend(eng.call_value(s, cs, it.args[1], [x]))
        return r
    if op == "itfilter":
        r = []
        for s, x in elem_at(eng, st, cs, it.args[0], i):
            for s2, c in eng.call_value(s, cs, it.args[1], [T("ref", T("pval", x))]):
                for s3, b in eng.decide(s2, c):
                    if b:
                        r.append((s3, x))
        return r
    if op == "itchain":
        return elem_at(eng, st, cs, it.args[0], i) + elem_at(eng, st.copy(), cs, it.args[1], T("chidx", i))
    return [(st, T("elem", it, i))]


def const_len(eng, st, it):
    """length of an iterator over a sequence of known length, else None"""
    op = it.op
    if op == "it":
        n = eng.length(st, it.args[0])
    elif op == "itval":
        n = eng.len_of(it.args[0])
    elif op == "itrange":
        n = mk("Sub", 64, it.args[1], it.args[0])
    elif op in ("itmap", "itenum", "itrev", "itcopied"):
        return const_len(eng, st, it.args[0])
    elif op == "itzip":
        a, b = const_len(eng, st, it.args[0]), const_len(eng, st, it.args[1])
        return None if a is None or b is None else min(a, b)
    elif op in ("ittake", "itskip"):
        a = const_len(eng, st, it.args[0])
        if a is None or not is_k(it.args[1]):
            return None
        return min(a, it.args[1].args[0]) if op == "ittake" else max(0, a - it.args[1].args[0])
    elif op == "itat":
        a = const_len(eng, st, it.args[0])
        return None if a is None else a - it.args[1].args[0]
    else:
        return None
    return n.args[0] if is_k(n) and n.args[0] < 64 else None


def const_elem(eng, st, cs, it, k):
    """element k (a number) of an iterator of known length"""
    if it.op == "itat":
        return const_elem(eng, st, cs, it.args[0], k + it.args[1].args[0])
    if it.op == "itrev":
        return const_elem(eng, st, cs, it.args[0], const_len(eng, st, it.args[0]) - 1 - k)
    if it.op in ("itskip", "ittake"):
        return const_elem(eng, st, cs, it.args[0], k + (it.args[1].args[0] if it.op == "itskip" else 0))
    if it.op == "itenum":
        return [(s, T("tuple", (K(k, "usize"), x))) for s, x in const_elem(eng, st, cs, it.args[0], k)]
    if it.op == "itzip":
        return [(s2, T("tuple", (x, y))) for s, x in const_elem(eng, st, cs, it.args[0], k)
                for s2, y in const_elem(eng, s, cs, it.args[1], k)]
    if it.op == "itcopied":
        return [(s, rd(eng, s, x)) for s, x in const_elem(eng, st, cs, it.args[0], k)]
    if it.op == "itmap":
        r = []
        for s, x in const_elem(eng, st, cs, it.args[0], k):
            r.extend(eng.call_value(s, cs, it.args[1], [x]))
        return r
    return elem_at(eng, st, cs, it, K(k, "usize"))


def each_const(eng, st, cs, it, n):
    """[(state, [elements])] for an iterator of known length n"""
    cur = [(st, [])]
    for k in range(n):
        cur = [(s2, xs + [eng.close(s2, x)]) for s, xs in cur for s2, x in const_elem(eng, s, cs, it, k)]
    return cur


def anyidx(eng, cs, it):
    return T("anyidx", cs.fr.fn.name, cs.fr.fid, cs.b)


@model(r" as std::iter::Iterator>::next$", r"<impl std::iter::Iterator for std::ops::Range<A>>::next$", r"^std::iter::Iterator::next$",
       r"iter::range::<impl std::iter::Iterator for .*>::next$", r"DoubleEndedIterator>::next_back$")
def m_next(eng, st, cs, a):
    p = dref(eng, a[0])
    if "MultiPeek" in cs.name or "Peekable" in cs.name:
        if not eng.unroll or "MultiPeek" in cs.name or const_len(eng, st, to_iter(eng, st, eng.read(st, p))) is None:
            return None
    it = eng.read(st, p)
    it = to_iter(eng, st, it)
    if cs.name.endswith("next_back"):
        it = T("itrev", it)
    elif eng.unroll:
        n = const_len(eng, st, it)
        if n is not None:
            eng.unrolled.add((cs.fr.fid, cs.b))
            if n == 0:
                return [(st, NONE)]
            b, k = (it.args[0], it.args[1].args[0]) if it.op == "itat" else (it, 0)
            eng.write(st, p, T("itat", b, K(k + 1, "usize")), event=False)
            return [(s, SOME(x)) for s, x in const_elem(eng, st, cs, it, 0)]
        us = unrolled(eng, st, cs, it) if it.op in ("itfilter", "itfmap", "itflat", "itchain", "itmap", "itcopied", "itenum", "itrev", "ittake", "itskip", "itopt", "itzip") else None
        if us is not None:
            eng.unrolled.add((cs.fr.fid, cs.b))
            r = []
            for s, xs in us:
                if not xs:
                    r.append((s, NONE))
                    continue
                eng.write(s, p, T("itat", T("itval", T("vec", tuple(xs))), K(1, "usize")), event=False)
                r.append((s, SOME(xs[0])))
            return r
    note(eng, st, cs, it)
    none = st.copy()
    r = [(s, SOME(x)) for s, x in elem_at(eng, st, cs, it, anyidx(eng, cs, it))]
    return r + [(none, NONE)]


def note(eng, st, cs, it):
    """Keep which sequences are walked where, and how far."""
    eng.iters.setdefault((cs.fr.fn.name, cs.b), set()).add(it)
    x = it
    while x.op in ITS and x.args and isinstance(x.args[0], Term):
        if x.op == "ittake" and is_k(x.args[1]):
            b = x.args[0]
            while b.op in ITS and b.args and isinstance(b.args[0], Term):
                b = b.args[0]
            eng.cuts.add((x.args[1].args[0], eng.close(st, eng.read(st, b)) if b.op == "local" or b.op in ("fld", "deref") else b))
        x = x.args[0]


def run_each(eng, st, cs, it, f):
    """Apply f(state, elem) -> [(state, value)] to the generic element of it; summary of effects.
    Returns (state after, frozenset of (value, facts, events), [(st,val)])"""
    note(eng, st, cs, it)
    i = anyidx(eng, cs, it)
    s0 = st.copy()
    s0.ev = ()
    outs = []
    for s, x in elem_at(eng, s0, cs, it, i):
        outs.extend(f(s, x))
    from engine import conds_key
    bodies = frozenset((s.ev, conds_key(s.conds, st.conds)) for s, v in outs if s.ev)
    changed = set()
    env0 = s0.env
    for s, v in outs:
        for k, x in s.env.items():
            if st.env.get(k) is not x:
                changed.add(k)
    st2 = st.copy()
    if bodies:
        st2.ev = st2.ev + (("loop", (cs.fr.fn.name, "iter", cs.b), bodies),)
    for k in sorted(changed, key=key):
        eng.write(st2, k, T("lv", (cs.fr.fn.name, "iter", cs.b), k), event=False)
    for n in {n for s, _ in outs for n in s.cnt}:
        st2.cnt[n] = max([s.cnt.get(n, 0) for s, _ in outs] + [st2.cnt.get(n, 0)])
    return st2, outs


def unrolled(eng, st, cs, it, depth=0):
    """[(state, [elements])] for an iterator over sequences of known length, or None"""
    if depth > 8:
        return None
    n = const_len(eng, st, it)
    if n is not None:
        return each_const(eng, st, cs, it, n) if n <= 64 else None
    op = it.op

    def then(r, f):
        """f(state, elements) -> [(state, elements)] or None, on every list of r"""
        if r is None:
            return None
        out = []
        for s, xs in r:
            y = f(s, xs)
            if y is None:
                return None
            out += y
        return out

    def each(f):
        """f(state, element) -> [(state, [elements])] or None"""
        def g(s, xs):
            cur = [(s, [])]
            for x in xs:
                nxt = []
                for s2, ys in cur:
                    y = f(s2, x)
                    if y is None:
                        return None
                    nxt += [(s3, ys + [eng.close(s3, z) for z in zs]) for s3, zs in y]
                cur = nxt
            return cur
        return g

    def inner(s, x):
        if x.op == "adt" and x.args[0] in (OPT, RES):
            return [(s, [x.args[2][0][1]] if x.args[1] in ("Some", "Ok") else [])]
        if x.op == "ref":
            v = eng.read(s, x.args[0])
            if v.op == "adt" and v.args[0] in (OPT, RES):
                return [(s, [T("ref", T("pval", v.args[2][0][1]))] if v.args[1] in ("Some", "Ok") else [])]
        j = to_iter(eng, s, x)
        return None if j.op == "itopq" else unrolled(eng, s, cs, j, depth + 1)
    if op == "itopt":
        return inner(st, it.args[0]) if it.args[0].op in ("adt", "ref") else None
    if not it.args or not isinstance(it.args[0], Term):
        return None
    if op == "itat":
        r = unrolled(eng, st, cs, it.args[0], depth + 1)
        return None if r is None else [(s, xs[it.args[1].args[0]:]) for s, xs in r]
    if op == "itchain":
        return then(unrolled(eng, st, cs, it.args[0], depth + 1),
                    lambda s, xs: (lambda r: None if r is None else [(s2, xs + ys) for s2, ys in r])(unrolled(eng, s, cs, it.args[1], depth + 1)))
    if op == "itzip":
        return then(unrolled(eng, st, cs, it.args[0], depth + 1),
                    lambda s, xs: (lambda r: None if r is None else [(s2, [T("tuple", z) for z in zip(xs, ys)]) for s2, ys in r])(unrolled(eng, s, cs, it.args[1], depth + 1)))
    if op not in ("itmap", "itcopied", "itfilter", "itfmap", "itflat", "itenum", "itrev", "ittake", "itskip"):
        return None
    r = unrolled(eng, st, cs, it.args[0], depth + 1)
    if op == "itmap":
        return then(r, each(lambda s, x: [(s2, [y]) for s2, y in eng.call_value(s, cs, it.args[1], [x])]))
    if op == "itcopied":
        return then(r, each(lambda s, x: [(s, [rd(eng, s, x)])]))
    if op == "itfilter":
        return then(r, each(lambda s, x: [(s3, [x] if b else []) for s2, c in eng.call_value(s, cs, it.args[1], [T("ref", T("pval", x))]) for s3, b in eng.decide(s2, c)]))
    if op == "itflat":
        return then(r, each(inner))
    if op == "itfmap" and it.args[2] in ("filter_map", "flat_map"):
        def f(s, x):
            out = []
            for s2, y in eng.call_value(s, cs, it.args[1], [x]):
                if it.args[2] == "filter_map":
                    for s3, b in eng.decide_variant(s2, y, OPT, "Some"):
                        out.append((s3, [payload(eng, y, "Some")] if b else []))
                    continue
                z = inner(s2, y)
                if z is None:
                    return None
                out += z
            return out
        return then(r, each(f))
    if r is None:
        return None
    if op == "itenum":
        return [(s, [T("tuple", (K(k, "usize"), x)) for k, x in enumerate(xs)]) for s, xs in r]
    if op == "itrev":
        return [(s, xs[::-1]) for s, xs in r]
    if op in ("ittake", "itskip") and is_k(it.args[1]):
        k = it.args[1].args[0]
        return [(s, xs[:k] if op == "ittake" else xs[k:]) for s, xs in r]
    return None


def collect_iter(eng, st, cs, it):
    note(eng, st, cs, it)
    from engine import conds_key
    if eng.unroll:
        r = unrolled(eng, st, cs, it)
        if r is not None:
            return [(s, T("vec", tuple(xs))) for s, xs in r]
    if it.op == "itval" :
        return [(st, it.args[0])]
    if it.op == "itcopied" and it.args[0].op == "it":
        return [(st, eng.close(st, eng.read(st, it.args[0].args[0])))]
    if it.op == "itrange":
        return [(st, T("rangevec", it.args[0], it.args[1]))]
    st2, outs = run_each(eng, st, cs, it, lambda s, x: [(s, x)])
    vals = frozenset((eng.close(s, v), conds_key(s.conds, st.conds)) for s, v in outs)
    if len(vals) == 1:
        v = next(iter(vals))[0]
    else:
        v = T("phi", vals)
    return [(st2, T("mapped", eng.close(st, base_iter(it)), anyidx(eng, cs, it), v))]


def base_iter(it):
    while it.op in ("itmap", "itcopied"):
        it = it.args[0]
    return it


@model(r"^std::iter::Iterator::collect$", r"FromIterator<.*>>::from_iter$")
def m_collect(eng, st, cs, a):
    it = to_iter(eng, st, a[0], cs.argt[0] if cs.argt else "")
    rt = cs.rty()
    r = []
    for s, v in collect_iter(eng, st, cs, it):
        if rt.startswith((RES, OPT)):
            adt, ok, no = (RES, "Ok", "Err") if rt.startswith(RES) else (OPT, "Some", "None")
            s2 = s.copy()
            if v.op == "vec" and all(x.op == "adt" and x.args[0] == adt for x in v.args[0]):
                e = [x for x in v.args[0] if x.args[1] == no]
                r.append((s, e[0] if e else T("adt", adt, ok, (("0", T("vec", tuple(payload(eng, x, ok) for x in v.args[0]))),))))
                continue
            # element payloads on success
            if v.op == "mapped":
                x = v.args[2]
                vals = [x] if x.op != "phi" else [y for y, _ in x.args[0]]
                oks = [payload(eng, y, ok) for y in vals if not (y.op == "adt" and y.args[1] == no)]
                errs = [y for y in vals if not (y.op == "adt" and y.args[1] == ok)]
                if oks:
                    w = T("mapped", v.args[0], v.args[1], oks[0] if len(oks) == 1 else T("phi", frozenset((o, ()) for o in oks)))
                    r.append((s, T("adt", adt, ok, (("0", w),))))
                if errs:
                    r.append((s2, T("adt", adt, no, (("0", payload(eng, errs[0], no)),) if adt == RES else ())))
            else:
                r.append((s, T("adt", adt, ok, (("0", T("oks", v)),))))
                r.append((s2, T("adt", adt, no, (("0", T("firsterr", v)),) if adt == RES else ())))
        else:
            r.append((s, v))
    return r


@model(r"^std::iter::Iterator::(for_each)$")
def m_for_each(eng, st, cs, a):
    it = to_iter(eng, st, a[0], cs.argt[0] if cs.argt else "")
    us = unrolled(eng, st, cs, it) if eng.unroll else None
    if us is not None:
        r = []
        for s, xs in us:
            cur = [s]
            for x in xs:
                cur = [s3 for s2 in cur for s3, _ in eng.call_value(s2, cs, a[1], [x])]
            r += [(s2, UNIT) for s2 in cur]
        return r
    st2, outs = run_each(eng, st, cs, it, lambda s, x: eng.call_value(s, cs, a[1], [x]))
    return [(st2, UNIT)]


@model(r"Iterator::(try_for_each)$", r"Iterator>::(try_for_each)$")
def m_try_for_each(eng, st, cs, a):
    p = dref(eng, a[0])
    it = to_iter(eng, st, eng.read(st, p))
    st2, outs = run_each(eng, st, cs, it, lambda s, x: eng.call_value(s, cs, a[1], [x]))
    r = [(st2, OK(UNIT))]
    for s, v in outs:
        for s2, b in eng.decide_variant(s, v, RES, "Err") if (v.op != "adt" or v.args[0] == RES) else []:
            if b:
                s2.ev = st.ev + s2.ev
                r.append((s2, ERR(payload(eng, v, "Err"))))
    return r


def search_const(eng, st, cs, it, n, k, f):
    """position, find or find_map over a sequence of known length: the elements are tried in order"""
    r, cur = [], [st]
    for j in range(n):
        nxt = []
        for s in cur:
            for s1, x in const_elem(eng, s, cs, it, j):
                for s2, v in eng.call_value(s1, cs, f, [T("ref", T("pval", x)) if k == "find" else x]):
                    if k == "find_map":
                        for s3, b in eng.decide_variant(s2, v, OPT, "Some"):
                            if b:
                                r.append((s3, SOME(payload(eng, v, "Some"))))
                            else:
                                nxt.append(s3)
                        continue
                    for s3, b in eng.decide(s2, v):
                        if b:
                            r.append((s3, SOME(x if k == "find" else K(j, "usize"))))
                        else:
                            nxt.append(s3)
        cur = nxt
    return r + [(s, NONE) for s in cur]


def quant_const(eng, st, cs, it, n, k, f):
    """any/all over a sequence of known length"""
    cur, r = [st], []
    for j in range(n):
        nxt = []
        for s in cur:
            for s2, x in const_elem(eng, s, cs, it, j):
                for s3, v in eng.call_value(s2, cs, f, [x]):
                    for s4, b in eng.decide(s3, v):
                        if bool(b) == (k == "any"):
                            r.append((s4, K(int(k == "any"), "bool")))
                        else:
                            nxt.append(s4)
        cur = nxt
    return r + [(s, K(int(k == "all"), "bool")) for s in cur]


@model(r"Iterator::(any|all|position|find|find_map|rposition)$", r"Iterator>::(any|all|position|find|find_map|rposition)$")
def m_any(eng, st, cs, a):
    k = cs.name.rsplit("::", 1)[-1]
    p = dref(eng, a[0])
    it = to_iter(eng, st, eng.read(st, p))
    i = anyidx(eng, cs, it)
    if eng.unroll and k != "rposition":
        n = const_len(eng, st, it)
        if n is not None:
            return quant_const(eng, st, cs, it, n, k, a[1]) if k in ("any", "all") else search_const(eng, st, cs, it, n, k, a[1])

    def f(s, x):
        arg = T("ref", T("pval", x)) if k == "find" else x
        return [(s2, T("tuple", (x, v))) for s2, v in eng.call_value(s, cs, a[1], [arg])]
    st2, outs = run_each(eng, st, cs, it, f)
    r = []
    none = st2.copy()
    from engine import conds_key
    q = T("qpred", k, eng.close(st, it), frozenset((eng.close(s, v.args[0][1]), conds_key(s.conds, st.conds)) for s, v in outs))
    if k in ("any", "all"):
        return [(st2, q)]
    for s, v in outs:
        x, c = v.args[0]
        if k == "find_map":
            for s2, b in eng.decide_variant(s, c, OPT, "Some"):
                if b:
                    s2.ev = st.ev + s2.ev
                    r.append((s2, SOME(payload(eng, c, "Some"))))
            continue
        for s2, b in eng.decide(s, c):
            if b:
                s2.ev = st.ev + s2.ev
                r.append((s2, SOME(x if k == "find" else i)))
    return r + [(none, NONE)]


@model(r"^std::iter::Iterator::(sum|count|product|max|min|fold|last|nth|max_by_key|min_by_key)$",
       r" as std::iter::Iterator>::(sum|count|product|max|min|fold|last|nth|size_hint)$", r"ExactSizeIterator>::len$")
def m_sum(eng, st, cs, a):
    k = cs.name.rsplit("::", 1)[-1]
    v = a[0]
    if k in ("nth", "len") and v.op == "ref":
        v = eng.read(st, v.args[0])
    it = to_iter(eng, st, v, cs.argt[0] if cs.argt else "")
    if k in ("count", "len") and not eng.unroll:
        return [(st, it_len(eng, st, it))]
    if k == "nth":
        if a[0].op == "ref" and "Peek" not in cs.name:      # a borrowed iterator goes on behind the element taken
            eng.write(st, a[0].args[0], T("itskip", it, mk("Add", 64, a[1], K(1, "usize"))))
        n = const_len(eng, st, it)
        if n is not None and n <= 16:
            r, cur = [], [st]
            for i in range(n):
                nxt = []
                for s0 in cur:
                    for s, b in eng.decide(s0, cmp_int("Eq", "usize", a[1], K(i, "usize"))):
                        if b:
                            r += [(s2, SOME(x)) for s2, x in const_elem(eng, s, cs, it, i)]
                        else:
                            nxt.append(s)
                cur = nxt
            return r + [(s, NONE) for s in cur]
        r = []
        for s, b in eng.decide(st, cmp_int("Lt", "usize", a[1], it_len(eng, st, it))):
            if not b:
                r.append((s, NONE))
            elif it.op == "itrev":
                last = mk("Sub", 64, it_len(eng, s, it), K(1, "usize"))
                r += [(s2, SOME(x)) for s2, x in elem_at(eng, s, cs, it.args[0], mk("Sub", 64, last, a[1]))]
            else:
                r += [(s2, SOME(x)) for s2, x in elem_at(eng, s, cs, it, a[1])]
        return r
    us = unrolled(eng, st, cs, it) if eng.unroll and k in ("sum", "product", "fold", "last", "count", "len") else None
    if us is not None:
        r, w = [], WIDTH.get(cs.rty())
        for s, xs in us:
            if k in ("count", "len"):
                r.append((s, K(len(xs), "usize")))
            elif k in ("sum", "product"):
                xs = [x.args[0] if x.op == "ref" and x.args[0].op == "pval" else x for x in xs]
                if w is None:
                    r.append((s, T("reduce", k, T("vec", tuple(xs)))))
                    continue
                y = K(0 if k == "sum" else 1, cs.rty())
                for x in xs:
                    y = mk("Add" if k == "sum" else "Mul", w, y, x)
                r.append((s, y))
            elif k == "last":
                r.append((s, SOME(xs[-1]) if xs else NONE))
            else:
                cur = [(s, a[1])]
                for x in xs:
                    cur = [o for s2, y in cur for o in eng.call_value(s2, cs, a[2], [y, x])]
                r += cur
        return r
    if k in ("count", "len"):
        return [(st, it_len(eng, st, it))]
    r = []
    for s, c in collect_iter(eng, st, cs, it):
        r.append((s, T("reduce", k, c, *[eng.close(s, x) for x in a[1:]])))
    return r


@model(r"^<std::iter::Peekable<.*>>::peek$", r"^std::iter::Peekable::<.*>::peek$")
def m_peek(eng, st, cs, a):
    p = dref(eng, a[0])
    it = to_iter(eng, st, eng.read(st, p))
    if eng.unroll:
        n = const_len(eng, st, it)
        if n is not None:
            return [(st, NONE)] if n == 0 else [(s, SOME(T("ref", T("pval", x)))) for s, x in const_elem(eng, st, cs, it, 0)]
    r = [(s, SOME(T("ref", T("pval", x)))) for s, x in elem_at(eng, st.copy(), cs, it, T("peekidx", anyidx(eng, cs, it)))]
    return r + [(st, NONE)]


# ---- integers ----------------------------------------------------------------------------------
INT = r"^(core|std)::num::<impl ([iu](8|16|32|64|128|size))>::"


def ity(cs):
    return re.search(r"<impl (\w+)>", cs.name).group(1)


@model(INT + r"(wrapping_add|wrapping_sub|wrapping_mul|unchecked_add|unchecked_sub|unchecked_mul|wrapping_neg|wrapping_shl|wrapping_shr|"
             r"unchecked_shl|unchecked_shr|wrapping_div|wrapping_rem|wrapping_abs|strict_add|unchecked_shl_exact)$")
def m_wrapping(eng, st, cs, a):
    ty = ity(cs)
    w, s = WIDTH[ty], ty in SIGNED
    k = cs.name.rsplit("::", 1)[-1].split("_", 1)[1]
    if k == "neg":
        return [(st, mk("Neg", w, a[0]))]
    if k in ("div", "rem"):
        from engine import Out
        op = ("Div" if k == "div" else "Rem") + ("S" if s else "U")
        r = []
        for s2, b in eng.decide(st, cmp_int("Eq", ty, a[1], K(0, ty))):
            if b:
                cs.outs.append(Out("panic", s2, T("panic", "division by zero")))
            elif s and k == "rem":
                # wrapping: MIN % -1 = 0 = mathematical remainder
                r.append((s2, mk("RemS", w, *a)))
            else:
                r.append((s2, mk(op, w, *a)))
        return r
    if k == "abs":
        r = []
        for s2, b in eng.decide(st, cmp_int("Lt", ty, a[0], K(0, ty))):
            r.append((s2, mk("Neg", w, a[0]) if b else a[0]))
        return r
    op = {"add": "Add", "sub": "Sub", "mul": "Mul", "shl": "Shl", "shr": "ShrS" if s else "ShrU"}[k]
    return [(st, mk(op, w, *a))]


def minval(ty):
    return K(-(1 << (WIDTH[ty] - 1)), ty)


def ovf(op, ty, x, y):
    """overflow condition of x op y as a boolean term (normalised where simple)"""
    w = WIDTH[ty]
    mx = (1 << w) - 1
    if ty not in SIGNED:
        if op == "Add" and is_k(y):
            return cmp_int("Gt", ty, x, K(mx - y.args[0], ty))
        if op == "Add" and is_k(x):
            return cmp_int("Gt", ty, y, K(mx - x.args[0], ty))
        if op == "Sub":
            return cmp_int("Lt", ty, x, y)
        if op == "Add" and all(z.op == "zext" and z.args[0] < w for z in (x, y)):
            return FALSE
    if op == "Add" and key(y) < key(x):
        x, y = y, x
    return T("ovf", op, ty, x, y)


@model(INT + r"(checked_add|checked_sub|checked_mul|overflowing_add|overflowing_sub|overflowing_mul|saturating_add|saturating_sub)$",
       INT + r"(checked_shl|checked_shr|checked_div|checked_rem|checked_neg)$")
def m_checked(eng, st, cs, a):
    ty = ity(cs)
    w, s = WIDTH[ty], ty in SIGNED
    k0, k = cs.name.rsplit("::", 1)[-1].split("_", 1)
    if k in ("shl", "shr"):
        r = []
        for s2, b in eng.decide(st, cmp_int("Lt", "u32", a[1], K(w, "u32"))):
            r.append((s2, SOME(mk({"shl": "Shl", "shr": "ShrS" if s else "ShrU"}[k], w, *a)) if b else NONE))
        return r
    if k in ("div", "rem"):
        r = []
        for s2, b in eng.decide(st, cmp_int("Eq", ty, a[1], K(0, ty))):
            if b:
                r.append((s2, NONE))
            elif s:
                for s3, b3 in eng.decide(s2, T("and", cmp_int("Eq", ty, a[0], minval(ty)), cmp_int("Eq", ty, a[1], K(-1, ty)))):
                    r.append((s3, NONE if b3 else SOME(mk("DivS" if k == "div" else "RemS", w, *a))))
            else:
                r.append((s2, SOME(mk("DivU" if k == "div" else "RemU", w, *a))))
        return r
    if k == "neg":
        r = []
        for s2, b in eng.decide(st, cmp_int("Eq", ty, a[0], minval(ty) if s else K(0, ty))):
            r.append((s2, (NONE if b else SOME(mk("Neg", w, a[0]))) if s else (SOME(K(0, ty)) if b else NONE)))
        return r
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[k]
    v = mk(op, w, *a)
    o = ovf(op, ty, *a)
    if k0 == "overflowing":
        return [(st, T("tuple", (v, o)))]
    r = []
    for s2, b in eng.decide(st, o):
        if k0 == "checked":
            r.append((s2, NONE if b else SOME(v)))
        else:
            if b:
                sat = K((1 << w) - 1, ty) if op == "Add" else K(0, ty)
                if s:
                    sat = T("satval", op, ty, *a)
                r.append((s2, sat))
            else:
                r.append((s2, v))
    return r


@model(INT + r"(rotate_left|rotate_right|leading_zeros|trailing_zeros|count_ones|count_zeros|swap_bytes|leading_ones|trailing_ones|reverse_bits)$")
def m_bits(eng, st, cs, a):
    ty = ity(cs)
    w = WIDTH[ty]
    k = cs.name.rsplit("::", 1)[-1]
    op = {"rotate_left": "Rotl", "rotate_right": "Rotr", "leading_zeros": "Clz", "trailing_zeros": "Ctz",
          "count_ones": "Popcnt", "swap_bytes": "Bswap"}.get(k, k)
    if op in ("Clz", "Ctz", "Popcnt") or op == k:
        return [(st, T(op, w, *a))]
    return [(st, mk(op, w, *a))]


@model(INT + r"(to_le|from_le)$")
def m_to_le(eng, st, cs, a):
    return [(st, a[0])]          # wasm32 and the supported hosts are little-endian


@model(INT + r"(to_be|from_be)$")
def m_to_be(eng, st, cs, a):
    return [(st, T("Bswap", WIDTH[ity(cs)], a[0]))]


@model(r"<impl (\w+)>::(to_le_bytes|to_ne_bytes|to_be_bytes)$")
def m_to_bytes(eng, st, cs, a):
    ty = ity(cs)
    e = "be" if "be" in cs.name.rsplit("::", 1)[-1] else "le"
    v = a[0]
    if ty in FLOATS:
        from engine import fbits
        v = fbits(v, ty)
        ty = "u%d" % FLOATS[ty]
    if e == "le" and WIDTH[ty] == 8:
        return [(st, T("array", (v,)))]
    return [(st, T("bytesof", e, WIDTH[ty], v))]


@model(r"<impl (\w+)>::(from_le_bytes|from_ne_bytes|from_be_bytes)$")
def m_from_bytes(eng, st, cs, a):
    ty = ity(cs)
    e = "be" if "be" in cs.name.rsplit("::", 1)[-1] else "le"
    fl = ty if ty in FLOATS else None
    w = FLOATS.get(ty) or WIDTH[ty]
    v = a[0]
    if v.op == "bytesof" and v.args[:2] == (e, w):
        r = v.args[2]
    elif v.op == "bytesat" and e == "le" and is_k(v.args[1]) and v.args[1].args[0] * 8 == w:
        r = T("load", "u%d" % w, v.args[0], 0)
    elif v.op == "array" and e == "le" and len(v.args[0]) == w // 8:
        r = join_bytes(v.args[0], w) or T("frombytes", e, w, v)
    else:
        r = T("frombytes", e, w, v)
    if fl:
        from engine import ffrom
        r = ffrom(r, fl)
    return [(st, r)]


def join_bytes(bs, w):
    """[init mem[i], mem[i+1], ...] -> load"""
    b0 = bs[0]

    def split(b):
        if b.op == "init" and b.args[0].op == "idx":
            return b.args[0].args
        if b.op == "elem":
            return b.args
        return None
    s0 = split(b0)
    if s0 is None:
        return None
    for n, b in enumerate(bs):
        s = split(b)
        if s is None or s[0] is not s0[0] or s[1] is not mk("Add", 64, s0[1], K(n, "usize")):
            return None
    return T("loadidx", w, s0[0], s0[1])


@model(r"<impl std::cmp::Ord for (\w+)>::(max|min|clamp)$", r"^std::cmp::(max|min)$", r"^std::cmp::Ord::(max|min|clamp)$")
def m_ord(eng, st, cs, a):
    m = re.search(r"Ord for (\w+)>", cs.name)
    ty = m.group(1) if m else ga0(cs)
    k = cs.name.rsplit("::", 1)[-1]
    if ty not in WIDTH:
        return None
    if k == "clamp":
        r = []
        for s, b in eng.decide(st, cmp_int("Lt", ty, a[0], a[1])):
            if b:
                r.append((s, a[1]))
            else:
                for s2, b2 in eng.decide(s, cmp_int("Lt", ty, a[2], a[0])):
                    r.append((s2, a[2] if b2 else a[0]))
        return r
    c = cmp_int("Lt", ty, a[0], a[1])
    r = []
    for s, b in eng.decide(st, c):
        r.append((s, a[0] if (b == (k == "min")) else a[1]))
    return r


@model(r"<impl std::cmp::(Partial)?Ord(<.*>)? for (\w+)>::(partial_)?(cmp|lt|le|gt|ge)$", r"^std::cmp::(Partial)?Ord::(partial_)?(cmp|lt|le|gt|ge)$")
def m_cmp(eng, st, cs, a):
    m = re.search(r"Ord(?:<.*>)? for (\w+)>", cs.name)
    ty = m.group(1) if m else ga0(cs)
    k = cs.name.rsplit("::", 1)[-1]
    x, y = strip_refs(eng, st, a[0]), strip_refs(eng, st, a[1])
    if ty not in WIDTH:
        return None
    if k in ("lt", "le", "gt", "ge"):
        return [(st, cmp_int(k.capitalize(), ty, x, y))]
    r = []
    O = "std::cmp::Ordering"
    for s, b in eng.decide(st, cmp_int("Lt", ty, x, y)):
        if b:
            r.append((s, "Less"))
        else:
            for s2, b2 in eng.decide(s, cmp_int("Eq", ty, x, y)):
                r.append((s2, "Equal" if b2 else "Greater"))
    out = []
    for s, n in r:
        v = T("adt", O, n, ())
        out.append((s, SOME(v) if k.startswith("partial") else v))
    return out


@model(INT + r"(abs|unsigned_abs|pow|div_euclid|rem_euclid|is_power_of_two|div_ceil|next_power_of_two|abs_diff|signum|is_negative|is_positive|"
             r"next_multiple_of|checked_pow|ilog2)$")
def m_intmisc(eng, st, cs, a):
    k = cs.name.rsplit("::", 1)[-1]
    ty = ity(cs)
    if k == "is_negative":
        return [(st, cmp_int("Lt", ty, a[0], K(0, ty)))]
    if k == "is_positive":
        return [(st, cmp_int("Gt", ty, a[0], K(0, ty)))]
    return [(st, T("int_" + k, ty, *a))]


# ---- floats ------------------------------------------------------------------------------------
FL = r"^(core|std)::(num::)?(f32|f64)(::math)?::<impl (f32|f64)>::"


@model(FL + r"(abs|ceil|floor|trunc|round|round_ties_even|sqrt|min|max|copysign|minimum|maximum|mul_add|powi|powf|fract|signum|recip)$",
       r"intrinsics::(ceilf|floorf|truncf|sqrtf|fabsf|rintf|round_ties_even_f)(32|64)$")
def m_float(eng, st, cs, a):
    k = cs.name.rsplit("::", 1)[-1]
    m = re.search(r"<impl (f32|f64)>", cs.name)
    ty = m.group(1) if m else "f" + k[-2:]
    if not m:
        k = {"ceilf": "ceil", "floorf": "floor", "truncf": "trunc", "sqrtf": "sqrt", "fabsf": "abs", "rintf": "round_ties_even",
             "round_ties_even_f": "round_ties_even"}[k[:-2]]
    return [(st, T("F" + k, ty, *a))]


@model(FL + r"is_nan$")
def m_isnan(eng, st, cs, a):
    m = re.search(r"<impl (f32|f64)>", cs.name)
    return [(st, isnan(m.group(1), a[0]))]


def isnan(ty, x):
    t = T("isnan", ty, x)
    return t


@model(FL + r"(is_infinite|is_finite|is_sign_negative|is_sign_positive|is_normal|is_subnormal)$")
def m_fclass(eng, st, cs, a):
    m = re.search(r"<impl (f32|f64)>", cs.name)
    ty = m.group(1)
    k = cs.name.rsplit("::", 1)[-1]
    if k == "is_sign_positive":
        return [(st, bnot(T("is_sign_negative", ty, a[0])))]
    if k == "is_finite":
        return [(st, bnot(T("or", T("isnan", ty, a[0]), T("is_infinite", ty, a[0]))))]
    return [(st, T(k, ty, a[0]))]


@model(FL + r"to_bits$")
def m_to_bits(eng, st, cs, a):
    from engine import fbits
    return [(st, fbits(a[0], re.search(r"<impl (f32|f64)>", cs.name).group(1)))]


@model(FL + r"from_bits$")
def m_from_bits(eng, st, cs, a):
    from engine import ffrom
    return [(st, ffrom(a[0], re.search(r"<impl (f32|f64)>", cs.name).group(1)))]


# ---- maps --------------------------------------------------------------------------------------
@model(r"^std::collections::HashMap::<.*>::(get|get_mut)$", r"^std::collections::BTreeMap::<.*>::(get|get_mut)$")
def m_hm_get(eng, st, cs, a):
    p = dref(eng, a[0])
    k = eng.close(st, strip_refs(eng, st, a[1]))
    v = eng.read(st, p)
    if eng.unroll:
        f = hm_find(v, k)
        if f is not None:
            return [(st, NONE if f is False else SOME(T("ref", T("pval", f))))]
    none = st.copy()
    return [(st, SOME(T("ref", T("idx", p, T("hkey", k))))), (none, NONE)]


def hm_find(m, k):
    """value of a constant key in a map built from constant keys; False when absent, None when unknown"""
    while m.op == "hinsert":
        if m.args[1] is k:
            return m.args[2]
        if not (is_k(m.args[1]) and is_k(k)):
            return None
        m = m.args[0]
    return False if m.op == "hnew" and is_k(k) else None


@model(r"^std::collections::HashMap::<.*>::contains_key$", r"^std::collections::BTreeMap::<.*>::contains_key$")
def m_hm_contains(eng, st, cs, a):
    k = eng.close(st, strip_refs(eng, st, a[1]))
    v = rd(eng, st, a[0])
    f = hm_find(v, k) if eng.unroll else None
    if f is not None:
        return [(st, K(int(f is not False), "bool"))]
    return [(st, T("hhas", eng.close(st, v), k))]


@model(r"^std::collections::HashMap::<.*>::insert$", r"^std::collections::BTreeMap::<.*>::insert$")
def m_hm_insert(eng, st, cs, a):
    p = dref(eng, a[0])
    k = eng.close(st, a[1])
    eng.write(st, p, T("hinsert", eng.read(st, p), k, eng.close(st, a[2])))
    return [(st, T("hold", k))]


@model(r"^std::collections::HashMap::<.*>::(new|with_capacity|with_hasher)$", r"^<std::collections::HashMap<.*as std::default::Default>::default$")
def m_hm_new(eng, st, cs, a):
    return [(st, T("hnew"))]


# ---- closures through Fn* ------------------------------------------------------------------------
@model(r"^std::ops::(Fn|FnMut|FnOnce)::call(_mut|_once)?$", r"as std::ops::(Fn|FnMut|FnOnce)<.*>>::call(_mut|_once)?$")
def m_fncall(eng, st, cs, a):
    f = a[0]
    tup = a[1] if len(a) > 1 else UNIT
    if tup.op == "tuple":
        cv = f
        for _ in range(4):
            if cv.op == "ref" and cv.args[0].op != "static":
                cv = eng.read(st, cv.args[0])
        if cv.op in ("closure", "fn"):
            return eng.call_value(st, cs, cv, list(tup.args[0]), f)
    return None


from engine import root, idx_place   # noqa: E402
