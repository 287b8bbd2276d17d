"""What a checkpoint file holds: the fields each type writes, the fields it reads back, and where each one lands.

The written form is positional (bincode): a type's writer must emit, in order, exactly what its reader consumes, and
every value read must land where it came from.  Writers and readers, derived or hand written, are interpreted with the
format's own interface as the only opaque part."""
from base import *
from engine import Budget, Unsupported
from models import SOME, NONE, OPT, RES, OK, ERR, UNIT, rd, payload
from opsem import Missing
import re


def inner(ty):
    """the arguments of a generic type"""
    m = re.match(r"^[\w:]+<(.*)>$", ty)
    if not m:
        return []
    out, d, cur = [], 0, ""
    for ch in m.group(1):
        if ch in "<([":
            d += 1
        if ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + ([cur.strip()] if cur.strip() else [])


class Shape:
    """fields: what is written, in order; read: field -> ("at", i) | ("fixed", term)"""

    def __init__(self):
        self.variants = {}        # variant (or "") -> (index or None, [written terms] | None when refused)
        self.read = {}            # index (or None) -> (variant, {field: value term}, elements consumed)
        self.notes = []


class Ser:
    def __init__(self, crate):
        self.crate = crate
        self.writers, self.readers = {}, {}
        for f in crate.fns.values():
            if f.kind in ("fn", "assoc") and f.name.endswith("::serialize") and f.nargs == 2 and f.lty(1).startswith("&"):
                self.writers.setdefault(f.lty(1)[1:], []).append(f)
            if f.kind in ("fn", "assoc") and f.name.endswith("::deserialize") and f.nargs == 1 and f.lty(0).startswith(RES):
                t = inner(f.lty(0))
                if t:
                    self.readers.setdefault(t[0], []).append(f)
        self.memo = {}

    def local(self, ty):
        return ty in self.writers or ty in self.readers

    def types(self, root):
        """types reachable through written fields"""
        seen, todo = [], [root]
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            if t in self.crate.adts and self.local(t):
                seen.append(t)
                for v in self.crate.adts[t]["variants"]:
                    for x in v[2]:
                        todo.append(self.crate.types[x[1]])
            else:
                todo += inner(t.lstrip("&"))
                m = re.match(r"^\[(.*?)(; .*)?\]$", t)
                if m:
                    todo.append(m.group(1))
                if t.startswith("("):
                    todo += [x.strip() for x in t[1:-1].split(",") if x.strip()]
        return seen

    def only(self, l, what):
        if len(l) != 1:
            raise Missing("%s: %d" % (what, len(l)))
        return l[0]

    # -- writing ----------------------------------------------------------------------------------------
    def engine(self):
        me = self

        def start(e, st, cs, a):
            return [(st, OK(T("serst", UNIT)))]

        def field(pos):
            def m(e, st, cs, a):
                v = e.close(st, rd(e, st, a[pos]))
                bad = st.copy()
                bad.ev = bad.ev + (("serfail",),)
                st.ev = st.ev + (("put", v),)
                return [(st, OK(UNIT)), (bad, ERR(T("sererr")))]
            return m

        def end(e, st, cs, a):
            st.ev = st.ev + (("end",),)
            return [(st, OK(T("written")))]

        def variant(kind):
            def m(e, st, cs, a):
                i = a[2]
                st.ev = st.ev + (("variant", i, kind),)
                if kind == "newtype":
                    st.ev = st.ev + (("put", e.close(st, rd(e, st, a[4]))), ("end",))
                    return [(st, OK(T("written")))]
                if kind == "unit":
                    st.ev = st.ev + (("end",),)
                    return [(st, OK(T("written")))]
                return [(st, OK(T("serst", UNIT)))]
            return m

        def newtype(e, st, cs, a):
            st.ev = st.ev + (("put", e.close(st, rd(e, st, a[2]))), ("end",))
            return [(st, OK(T("written")))]

        def value(e, st, cs, a):
            """`x.serialize(serializer)`: the value itself is what is written"""
            st.ev = st.ev + (("put", e.close(st, rd(e, st, a[0]))), ("end",))
            return [(st, OK(T("written")))]

        def custom(e, st, cs, a):
            st.ev = st.ev + (("refuse",),)
            return [(st, T("sererr"))]

        # reading
        def visit(which):
            def m(e, st, cs, a):
                v = [x for x in a if isinstance(x, Term) and x.op == "adt" and "Visitor" in x.args[0]]
                if len(v) != 1:
                    raise Unsupported("visitor of " + cs.name)
                fs = [f for f in me.crate.fns.values() if f.name.startswith("<" + v[0].args[0]) and f.name.endswith("::" + which)]
                if len(fs) != 1:
                    raise Unsupported("%s of %s" % (which, v[0].args[0]))
                return e.inline_call(st, cs, fs[0], [v[0], T("src")])
            return m

        def nth(st):
            return sum(1 for x in st.ev if x[0] == "get")

        def nextel(e, st, cs, a):
            ty = cs.ga[-1] if cs.ga else ""
            if "__DeserializeWith" in ty:
                raise Unsupported("field with its own reader")
            bad, end = st.copy(), st.copy()
            bad.ev = bad.ev + (("getfail",),)
            end.ev = end.ev + (("getend",),)
            i = nth(st)
            st.ev = st.ev + (("get", ty),)
            return [(st, OK(SOME(T("got", K(i, "usize"))))), (end, OK(NONE)), (bad, ERR(T("deerr")))]

        def enumvar(e, st, cs, a):
            """EnumAccess::variant: the written index becomes the field the visitor names for it"""
            ty = [x for x in cs.ga if "__Field" in x]
            fs = [f for f in me.crate.fns.values() if ty and f.name.startswith("<" + ty[-1] + "Visitor") and f.name.endswith("::visit_u64")] if ty else []
            if len(fs) != 1:
                raise Unsupported("variant reader")
            r = []
            for k in range(me.nvar + 2):
                s0 = st.copy()
                s0.ev = s0.ev + (("tag", k),)
                for s, v in e.inline_call(s0, cs, fs[0], [T("fieldvisitor"), K(k, "u64")]):
                    for s2, b in e.decide_variant(s, v, RES, "Ok"):
                        if b:
                            r.append((s2, OK(T("tuple", (payload(e, v, "Ok"), T("varacc"))))))
                        else:
                            r.append((s2, ERR(T("deerr"))))
            return r

        def newvar(e, st, cs, a):
            bad = st.copy()
            bad.ev = bad.ev + (("getfail",),)
            i = nth(st)
            st.ev = st.ev + (("get", cs.ga[-1] if cs.ga else ""),)
            return [(st, OK(T("got", K(i, "usize")))), (bad, ERR(T("deerr")))]

        def unitvar(e, st, cs, a):
            bad = st.copy()
            return [(st, OK(UNIT)), (bad, ERR(T("deerr")))]

        def err(e, st, cs, a):
            return [(st, T("deerr"))]

        def whole(e, st, cs, a):
            """`X::deserialize(d)` for another type of the crate: inline its reader"""
            m = re.match(r"^std::result::Result<(.*), .*>$", cs.rty())
            fs = me.readers.get(inner(cs.rty())[0], []) if inner(cs.rty()) else []
            if len(fs) != 1:
                return newvar(e, st, cs, a)
            return e.inline_call(st, cs, fs[0], [T("src")])

        ms = {"serde::Serializer::serialize_struct": start, "serde::Serializer::serialize_tuple_struct": start,
              "serde::Serializer::serialize_tuple": start,
              "serde::ser::SerializeStruct::serialize_field": field(2), "serde::ser::SerializeStructVariant::serialize_field": field(2),
              "serde::ser::SerializeTupleStruct::serialize_field": field(1), "serde::ser::SerializeTuple::serialize_element": field(1),
              "serde::ser::SerializeTupleVariant::serialize_field": field(1),
              "serde::ser::SerializeStruct::end": end, "serde::ser::SerializeStructVariant::end": end, "serde::ser::SerializeTuple::end": end,
              "serde::ser::SerializeTupleStruct::end": end, "serde::ser::SerializeTupleVariant::end": end,
              "serde::Serializer::serialize_newtype_variant": variant("newtype"), "serde::Serializer::serialize_unit_variant": variant("unit"),
              "serde::Serializer::serialize_struct_variant": variant("struct"), "serde::Serializer::serialize_tuple_variant": variant("tuple"),
              "serde::Serializer::serialize_newtype_struct": newtype, "serde::Serialize::serialize": value, "serde::ser::Error::custom": custom,
              "serde::Deserializer::deserialize_struct": visit("visit_seq"), "serde::Deserializer::deserialize_tuple_struct": visit("visit_seq"),
              "serde::Deserializer::deserialize_tuple": visit("visit_seq"), "serde::Deserializer::deserialize_newtype_struct": visit("visit_seq"),
              "serde::Deserializer::deserialize_enum": visit("visit_enum"), "serde::de::SeqAccess::next_element": nextel,
              "serde::de::EnumAccess::variant": enumvar, "serde::de::VariantAccess::newtype_variant": newvar,
              "serde::de::VariantAccess::unit_variant": unitvar, "serde::de::Deserialize::deserialize": whole, "serde::Deserialize::deserialize": whole}
        for n in ("invalid_length", "invalid_value", "missing_field", "custom", "unknown_variant", "invalid_type"):
            ms["serde::de::Error::" + n] = err
        e = Engine(self.crate, models=ms)
        e.budget = 60000
        return e

    def written(self, ty):
        """variant -> (tag or None, [terms over T('self')] or None if the type refuses to be written)"""
        f = self.only(self.writers.get(ty, []), "writer of " + ty)
        e = self.engine()
        a = self.crate.adts[ty]
        res = {}
        enum = len(a["variants"]) > 1 or a.get("kind") == "enum"
        for vi, v in enumerate(a["variants"]):
            val = T("adt", ty, v[0], tuple((x[0], T("orig", x[0])) for x in v[2]))
            outs = e.run(f, [T("ref", T("pval", val)), T("sink")], State())
            done = set()
            for o in outs:
                if any(x[0] == "serfail" for x in o.st.ev):
                    if o.kind == "ret" and o.val.op == "adt" and o.val.args[1] == "Ok":
                        done.add(("swallow",))
                    continue
                if o.kind == "panic":
                    done.add(("refuse",))
                    continue
                if o.val.op != "adt" or o.val.args[0] != RES:
                    raise Unsupported("result of writing %s: %s" % (ty, o.val))
                if o.val.args[1] == "Err":
                    done.add(("refuse",))
                    continue
                tag = [x[1] for x in o.st.ev if x[0] == "variant"]
                if any(x[0] in ("loop", "w", "c") for x in o.st.ev):
                    raise Unsupported("writing %s does more than emit fields" % ty)
                done.add(("ok", tag[0].args[0] if tag and is_k(tag[0]) else None, tuple(x[1] for x in o.st.ev if x[0] == "put")))
            if len(done) != 1:
                raise Unsupported("writing %s::%s: %d forms" % (ty, v[0], len(done)))
            res[v[0]] = done.pop()
        return res, f

    def read(self, ty):
        """tag (None for a struct) -> ("ok", value over T('got', i), consumed) | ("err",)"""
        f = self.only(self.readers.get(ty, []), "reader of " + ty)
        e = self.engine()
        self.nvar = len(self.crate.adts[ty]["variants"])
        res = {}
        for o in e.run(f, [T("src")], State()):
            if any(x[0] == "getend" for x in o.st.ev):
                continue        # the format hands out as many elements as the type names, or fails
            if any(x[0] == "getfail" for x in o.st.ev):
                if o.kind == "ret" and o.val.op == "adt" and o.val.args[1] == "Ok":
                    res.setdefault("short", set()).add("accepted")
                continue
            tag = [x[1] for x in o.st.ev if x[0] == "tag"]
            tag = tag[0] if tag else None
            if o.kind == "panic" or (o.val.op == "adt" and o.val.args[0] == RES and o.val.args[1] == "Err"):
                res.setdefault(tag, set()).add(("err",))
                continue
            if o.val.op != "adt" or o.val.args[0] != RES:
                raise Unsupported("result of reading %s" % ty)
            v = e.close(o.st, o.val.args[2][0][1])
            res.setdefault(tag, set()).add(("ok", v, sum(1 for x in o.st.ev if x[0] == "get")))
        return res, f
