"""Values that hold what they were made of (C10), and read back as they were written (C11)."""

import re

from engine import *
from core import where, path_text
from rules import rule
from ledger import strip
from rules_chain import last, base_name
from rules_core import outcomes as all_outcomes

WRITES = "serde::Serialize"
READS = "serde::Deserialize"


def outcomes(R, f):
    e, rs = all_outcomes(R, f)
    return e, [(st, v) for st, k, v in rs if k == "ret"]


def text(t):
    """the literal a text is, or None"""
    t = strip(t)
    if t.op == "k" and isinstance(t.a[0], str) and len(t.a[0]) > 1 and t.a[0][0] == '"' == t.a[0][-1]:
        return t.a[0][1:-1]
    return t.a[0] if t.op == "str" and isinstance(t.a[0], str) else None


def uncow(t):
    """a text, without the conversions that keep it"""
    while True:
        while t.op == "ref" and len(t.a) > 1 and t.a[1] and t.a[0].op == "D" and all(k[0] == "f" or k[0] == "v" and k[1] in ("Owned", "Borrowed") for k in t.a[1]):
            o = mk("*", t.a[0].a[0])
            for i, k in enumerate(t.a[1]):
                if k[0] == "f" and not (i and t.a[1][i - 1][0] == "v"):
                    o = field(o, k[1])
            t = o
        t = strip(t)
        n = base_name(t)
        if t.op == "." and t.a[1] == "0" and t.a[0].op == "as" and t.a[0].a[1] in ("Owned", "Borrowed"):
            t = t.a[0].a[0]
            continue
        if t.op == "adt" and t.a[0].endswith("::Cow") and t.a[2]:
            t = t.a[2][0][1]
        elif n in ("into", "from", "to_owned", "to_string", "clone", "as_ref", "borrow", "deref", "into_owned", "as_str", "as_bytes", "String::from") and t.op == "call" and len(t.a[1]) == 1:
            t = t.a[1][0]
        else:
            return t


def called(t):
    """(function, arguments) of a call"""
    if t.op == "call":
        return last(t.a[0]), t.a[1]
    if t.op == "res":
        return last(t.a[0]), t.a[2]
    return None, ()


def of_trait(R, tr, crates):
    """{type: the method} of the implementations of a trait of serde"""
    r = {}
    for f in R.prog.fns.values():
        if f["crate"] not in crates or "body" not in f or not f.get("self"):
            continue
        if (f.get("trait") or "").startswith(tr) and f.get("name") in ("serialize", "deserialize"):
            a = f["self"].get("adt")
            if a and a in R.prog.adts and "deserialize::" not in a:
                r[a] = f
    return r


# ---- what is written


def written(R, f):
    """[(state, variant, form, names)] of a serialize function; names: [(name, value)]"""
    me = mk("*", mk("arg", "self"))
    e, rs = outcomes(R, f)
    r = []
    for st, v in rs or []:
        if v.op == "adt" and v.a[1] == "Err":
            r.append((e, st, v, "error", None))
            continue
        n, a = called(v)
        if n == "end":
            fs, tag = [], None
            for x in st.events():
                if x[0] == "call" and last(x[1]) in ("serialize_field", "serialize_entry"):
                    fs.append((text(x[2][1]), x[2][2]))
                elif x[0] == "call" and last(x[1]) == "skip_field":
                    fs.append((text(x[2][1]), None))
                elif x[0] == "call" and last(x[1]) == "serialize_element":
                    fs.append((None, x[2][1]))
            t = a[0]
            while t.op == "mut":
                t = t.a[2]
            k = None
            for y in walk(t):
                if called(y)[0] in ("serialize_struct_variant", "serialize_struct", "serialize_map"):
                    k = called(y)
            if k is None:
                r.append((e, st, v, None, None))
            elif k[0] == "serialize_struct_variant":
                r.append((e, st, v, "variant", (text(k[1][3]), fs)))
            else:
                r.append((e, st, v, "struct", fs))
        elif n == "serialize_newtype_struct":
            r.append((e, st, v, "newtype", a[2]))
        elif n == "serialize_unit_variant":
            r.append((e, st, v, "variant", (text(a[3]), [])))
        elif n == "serialize_newtype_variant":
            r.append((e, st, v, "variant", (text(a[3]), [("0", a[4])])))
        elif n == "serialize" and len(a) == 2:
            r.append((e, st, v, "newtype", a[0]))
        elif n in ("serialize_u64", "serialize_u32", "serialize_str", "collect_str") and len(a) == 2:
            r.append((e, st, v, "newtype", a[1]))
        else:
            r.append((e, st, v, None, None))
    return me, r


def owner_field(v, me, variant):
    """the field of the value written that v is, or None"""
    v = strip(v)
    if v.op != "." or not isinstance(v.a[1], str):
        return None
    o = strip(v.a[0])
    if variant is not None and o.op == "as" and o.a[1] == variant:
        o = strip(o.a[0])
    return v.a[1] if o is strip(me) else None


def variants_of(R, adt):
    return {v["name"]: [x["name"] for x in v["fields"]] for v in R.prog.adts[adt]["variants"]}


# ---- what is read


def names_read(R, field_adt):
    """({name: variant of the field enum}, what an unknown name is) of the visitor that reads names; None: not known"""
    for f in R.prog.fns.values():
        if f.get("name") != "visit_str" or "body" not in f or "__FieldVisitor" not in f["path"]:
            continue
        if not f["id"].startswith(field_adt.rsplit("::", 1)[0].rsplit("::", 1)[0]):
            continue
        e, rs = outcomes(R, f)
        r, other = {}, "error"
        mine = False
        for st, v in rs or []:
            if v.op != "adt":
                return None, None
            if v.a[1] == "Err":
                continue
            p = v.a[2][0][1]
            if p.op != "adt":
                return None, None
            if p.a[0] != field_adt:
                break
            mine = True
            eqs = [t for k, t in st.facts if k == "s" and st.facts[(k, t)] == frozenset("0")]
            names = {x for t in eqs for x in (text(y) for y in walk(t)) if x is not None}
            if names:
                for n in names:
                    r[n] = p.a[1]
            elif p.a[2]:
                return None, None
            else:
                other = p.a[1]
        if mine:
            return r, other
    return None, None


def visitor_method(R, adt, name):
    fs = [f for f in R.prog.fns.values() if f.get("name") == name and f.get("self") and f["self"].get("adt") == adt and "body" in f]
    return fs[0] if len(fs) == 1 else None


def one_value(v, what):
    """the call of that name whose payload v is, all of it"""
    v = strip(v)
    if v.op == "." and v.a[0].op == "as" and v.a[0].a[1] == "Ok":
        x = v.a[0].a[0]
        if called(x)[0] == what:
            return x
    return None


def map_read(R, f):
    """({key: {field}} and {field: what it is when its key is missing}, variant) of a visit_map, with the defects found"""
    e, rs = outcomes(R, f)
    keys, missing, defects, unknown = {}, {}, [], []
    field_adt = variant = None
    n = 0
    for st, v in rs or []:
        if not (v.op == "adt" and v.a[1] == "Ok"):
            continue
        x = v.a[2][0][1]
        loops = [y[1] for y in st.events() if y[0] == "loop"]
        if x.op != "adt" or len(loops) != 1:
            unknown.append(show(x)[:80])
            continue
        n += 1
        variant = x.a[1]
        L = loops[0]
        slot = {}
        for loc, (i, p) in L.phis.items():
            slot[p] = loc
        for name, w in x.a[2]:
            src = None
            y = strip(w)
            if y.op == "." and y.a[0].op == "as" and y.a[0].a[1] == "Some" and y.a[0].a[0] in slot:
                src = y.a[0].a[0]
            if src is None:
                missing.setdefault(name, []).append((e, st, w))
                continue
            loc = slot[src]
            for evs, fin, ist in L.iters:
                key = None
                for k, t in ist.facts:
                    if k == "d" and any(called(z)[0] in ("next_key", "next_entry") for z in walk(t)):
                        m = ist.facts[(k, t)]
                        if isinstance(m, str) and m.startswith("__"):
                            key = m
                new = fin.get(loc)
                if new is None or new is src:
                    continue
                z = strip(new)
                if z.op == "adt" and z.a[1] == "Some" and one_value(z.a[2][0][1], "next_value") is not None and key:
                    keys.setdefault(key, set()).add(name)
                elif any(q is strip(src) for q in walk(z)) and z is strip(src):
                    continue
                else:
                    unknown.append(f"{name} from {show(z)[:80]}")
    for b in f["body"]["blocks"]:
        t = b["t"]
        if t["t"] == "call" and t["fn"].get("decl", "").endswith(("MapAccess::next_key", "EnumAccess::variant")):
            field_adt = first_field(t["dty"])
    return dict(keys=keys, missing=missing, unknown=unknown, variant=variant, field=field_adt, n=n, fn=f)


def first_field(ty):
    """the enum of names in a type"""
    a = ty.get("adt", "")
    if "::__Field" in a:
        return a
    for y in ty.get("args", []) + ty.get("tuple", []):
        r = first_field(y)
        if r:
            return r
    return None


def seq_read(R, f):
    """{position: field} of a visit_seq"""
    e, rs = outcomes(R, f)
    r, unknown = {}, False
    for st, v in rs or []:
        if not (v.op == "adt" and v.a[1] == "Ok"):
            continue
        x = v.a[2][0][1]
        if x.op != "adt":
            return None
        nexts = [y[3] for y in st.events() if y[0] == "call" and last(y[1]) == "next_element"]
        for name, w in x.a[2]:
            w = strip(w)
            if w.op == "." and w.a[0].op == "as" and w.a[0].a[1] == "Some":
                c_ = one_value(w.a[0].a[0], "next_element")
                if c_ is not None and c_ in nexts:
                    r.setdefault(nexts.index(c_), set()).add(name)
    return r


def tail(rs):
    """the last call of the outcomes that are not errors"""
    return [(st, v) for st, v in rs or [] if not (v.op == "adt" and v.a[1] == "Err")]


def reading(R, f):
    """[(form, …)] of a deserialize function"""
    e, rs = outcomes(R, f)
    r = []
    for st, v in tail(rs):
        n, a = called(v)
        if v.op == "adt" and v.a[1] == "Ok":
            x = v.a[2][0][1]
            if x.op == "adt" and len(x.a[2]) == 1 and one_value(x.a[2][0][1], "deserialize") is not None:
                r.append(("newtype", None))
            else:
                r.append((None, show(x)[:120]))
        elif n == "deserialize_newtype_struct":
            m = visitor_method(R, a[-1].a[0], "visit_newtype_struct") if a[-1].op == "adt" else None
            ok = m is not None
            if m:
                _, vs = outcomes(R, m)
                for s2, w in tail(vs):
                    x = w.a[2][0][1] if w.op == "adt" else None
                    ok = ok and x is not None and x.op == "adt" and len(x.a[2]) == 1 and one_value(x.a[2][0][1], "deserialize") is not None
            r.append(("newtype", None) if ok else (None, "visit_newtype_struct"))
        elif n in ("deserialize_struct", "deserialize_map") and a[-1].op == "adt":
            r.append(("struct", a[-1].a[0]))
        elif n == "deserialize_enum" and a[-1].op == "adt":
            r.append(("enum", a[-1].a[0]))
        elif n in ("deserialize_any", "deserialize_u64", "deserialize_str", "deserialize_string") and len(a) == 2 and a[-1].op == "adt":
            tags = [text(y) for z in walk(a[0]) for y in [called(z)] if y[0] == "new" and len(y[1]) == 2 for y in y[1][:1]]
            tags = [x for x in tags if x is not None]
            if tags:
                r.append(("tagged", a[-1].a[0], tags[0], st))
            else:
                r.append(("any", a[-1].a[0]))
        else:
            r.append((None, show(v)[:120]))
    return r


# fields that a reader may leave out, and what they are then
OPTIONAL = {
    ("Transaction", "metadata"): "default",
    ("UTxODetails", "assets"): "default",
    ("UTxODetails", "extra"): "default",
    ("UTxOBuilder", "extra"): "default",
}


def empty_default(e, st, w):
    """whether w is the empty value of its type"""
    w = strip(w)
    n, a = called(w)
    if w.op in ("default", "empty") or (n == "default" and not a):
        return True
    if w.op == "adt" and w.a[1] == "None":
        return True
    if w.op == "adt" and w.a[0].endswith("::Arc") and w.a[2]:
        return empty_default(e, st, w.a[2][0][1])
    if w.op in ("coll", "array") and length(w) is ZERO:
        return True
    return n in ("new",) and not a


def fields_agree(R, N, w, T, variant, names, got, order, writ, skipped):
    """what was written under each name comes back into the field it was taken from"""
    read, other = names_read(R, got["field"]) if got["field"] else (None, None)
    if read is None:
        N(R, "names", w, False, "how names are read is not understood", unknown=True)
        return
    for u in got["unknown"]:
        N(R, "fields", w, False, f"a reading that is not understood: {u}", unknown=True)
    if not got["n"]:
        N(R, "fields", w, False, "no reading that succeeds was found", unknown=True)
        return
    for name, fld in names:
        if name is None or fld is None:
            continue
        k = read.get(name)
        back = got["keys"].get(k, set()) if k else set()
        if k is None and other != "error":
            back = got["keys"].get(other, set())
        ok = back == {fld}
        N(R, "round trip", f"{w}.{fld}", ok,
          f"{T} writes its field {fld} as {name!r}" + (f", which is read into {sorted(back)}" if back else ", a name that reading does not put into it"))
    own = [x for x in variants_of(R, T).get(variant, [])]
    for fld in own:
        if fld not in [y for _, y in names]:
            N(R, "round trip", f"{w}.{fld}", False, f"{T} does not always write its field {fld}, and is not read without it" if fld in skipped else f"{T} does not write its field {fld}",
              unknown=fld in skipped and (any(not any(called(q)[0] == "missing_field" for q in walk(x)) for _, _, x in got["missing"].get(fld, [])) or "Option" in field_type(R, T, variant, fld)))
    for fld, ws in got["missing"].items():
        for e, st, x in ws:
            n = [q for q in walk(x) if called(q)[0] == "missing_field"]
            if (base(T), fld) in OPTIONAL:
                N(R, "optional", f"{w}.{fld}", empty_default(e, st, x) and not n,
                  f"{T} without its optional field {fld} is read with {show(x)[:100]} there", unknown=not n and not empty_default(e, st, x))
    for (t, fld) in OPTIONAL:
        if t == base(T) and got["n"] and fld in own and fld not in got["missing"]:
            N(R, "optional", f"{w}.{fld}", False, f"{T} without its optional field {fld} cannot be read")
    if order is not None and order and writ is not None:
        for i, (name, fld) in enumerate(writ):
            if fld is not None and i in order:
                N(R, "order", f"{w}.{fld}", order[i] == {fld}, f"{T} writes its field {fld} in place {i}, from which {sorted(order[i])} is read")


def field_type(R, T, variant, fld):
    for v in R.prog.adts[T]["variants"]:
        for x in v["fields"]:
            if x["name"] == fld and (not R.prog.adts[T].get("enum") or v["name"] == variant):
                return x["ty"]["s"] if isinstance(x["ty"], dict) else str(x["ty"])
    return "Option"


def base(t):
    return t.split("::")[-1]


def ob(R, rule, place, ok, detail="", unknown=False):
    R.ob(rule, place, ok, detail, unknown=unknown and not ok)


@rule("C11", "dcspark_core", "multiverse", "indexed_log_map", "dcspark_blockchain_source")
def round_trip(R):
    """for every type with both a serialize and a deserialize: each outcome of serialize is taken as the names and values written, in order;
    visit_str of the reader's field visitor gives the field of each name, and visit_map's loop and result the field that the value of that
    name lands in, visit_seq the field of each place: these are inverse to each other. Variants alike; newtypes write all of their content."""
    crates = ("dcspark_core", "multiverse", "indexed_log_map", "dcspark_blockchain_source")
    S, D = of_trait(R, WRITES, crates), of_trait(R, READS, crates)
    both = sorted(set(S) & set(D))
    R.floor("types written and read", len(both), 16)
    for T in both:
        w = base(T)
        me, wr = written(R, S[T])
        rd = reading(R, D[T])
        if not rd or any(x[0] is None for x in rd):
            ob(R, "reading", w, False, f"{[x[1] for x in rd if x[0] is None]}", unknown=True)
            continue
        kind = rd[0][0]
        seen = {}
        for e, st, v, form, what in wr:
            if form is None:
                ob(R, "writing", w, False, show(v)[:120], unknown=True)
            elif form == "error":
                vs = [st.facts[k] for k in st.facts if k[0] == "d" and strip(k[1]) is strip(me) and isinstance(st.facts[k], str)]
                own = not any(called(y)[0] in ("serialize_field", "serialize_struct", "serialize_struct_variant", "serialize_entry", "end") for y in walk(v))
                if own:
                    seen.setdefault(("refused", vs[0] if vs else None), []).append(st)
            elif form == "newtype":
                f = list(variants_of(R, T).values())[0]
                x = strip(what)
                n, a = called(x)
                if n in ("to_string", "format") and a:
                    x = strip(a[0])
                inner = owner_field(x, me, None)
                whole = inner in f or x is strip(me)
                ob(R, "content", w, whole, f"{T} writes {show(what)[:120]}, not all of its content\n{path_text(st, v)}", unknown=not is_field_part(x, me))
                if x is strip(me):
                    shows_all(R, T, w)
                ob(R, "reading", w, kind in ("newtype", "any"), f"{T} is written as its content but read as a {kind}")
            elif form == "variant":
                seen.setdefault(("variant", what[0]), []).append((st, what[1]))
            else:
                seen.setdefault(("struct", None), []).append((st, what))
        for (k, name), xs in sorted(seen.items(), key=str):
            if k == "struct":
                for st, fs in xs:
                    va = [st.facts[q] for q in st.facts if q[0] == "d" and strip(q[1]) is strip(me) and isinstance(st.facts[q], str)]
                    tags = [(n, text(x)) for n, x in fs if x is not None and text(x) is not None]
                    var = va[0] if va else tag_variant(fs, me) or list(variants_of(R, T))[0]
                    is_enum = R.prog.adts[T].get("enum")
                    got = [(n, owner_field(x, me, var if is_enum else None) if x is not None else None) for n, x in fs if x is None or text(x) is None]
                    for (n, x), (_, g) in zip([q for q in fs if q[1] is None or text(q[1]) is None], got):
                        if x is not None and g is None:
                            ob(R, "content", f"{w}.{n}", False, f"{T} writes {show(x)[:120]} as {n!r}", unknown=not is_field_part(strip(x), me))
                    skipped = [n for n, x in fs if x is None]
                    if kind == "tagged":
                        m = visitor_method(R, rd[0][1], "visit_map")
                        for r in rd:
                            ob(R, "tag", w, [r[2]] == [n for n, _ in tags], f"{T} is written with {tags} and read by {r[2]!r}")
                        tagv = tag_reads(R, T, D[T])
                        for n, x in tags:
                            if tagv is not None:
                                ob(R, "tag", f"{w} {x}", x in tagv, f"{T} writes the tag {x!r}, reading knows {sorted(tagv)}")
                    elif kind == "struct":
                        m = visitor_method(R, rd[0][1], "visit_map")
                    else:
                        ob(R, "reading", w, False, f"{T} is written with names but read as a {kind}", unknown=kind == "any")
                        continue
                    if m is None:
                        ob(R, "reading", w, False, "no visit_map found", unknown=True)
                        continue
                    sq = visitor_method(R, rd[0][1], "visit_seq")
                    fields_agree(R, ob, w, T, var, got, map_read(R, m), seq_read(R, sq) if sq and not skipped and kind == "struct" else None, got, skipped)
            elif k == "variant":
                if kind != "enum":
                    ob(R, "reading", w, False, f"{T} is written as a variant but read as a {kind}", unknown=True)
                    continue
                variant_agrees(R, T, w, name, xs, rd[0][1], me)
        refused = [n for (k, n) in seen if k == "refused"]
        for n in refused:
            # a variant that is never stored must be the one the type says so of
            ob(R, "refused", f"{w} {n}", (w, n) in NOT_STORED, f"{T} refuses to be written as {n}")
        R.counts[f"{w}"] = len(wr)


NOT_STORED = {("CardanoNetworkEvent", "Tip")}


def is_field_part(x, me):
    """a part of the value, or something computed from it: known to be no whole field"""
    return any(y is strip(me) for y in walk(x))


def tag_variant(fs, me):
    for n, x in fs:
        if x is not None:
            for y in walk(x):
                if y.op == "as" and strip(y.a[0]) is strip(me):
                    return y.a[1]
    return None


def tag_reads(R, T, f):
    """the names of variants that the reader of the tag knows"""
    fs = [g for g in R.prog.fns.values() if g.get("name") == "visit_str" and "body" in g and g["id"].startswith(f["id"] + "::") and "__FieldVisitor" in g["path"]]
    for g in fs:
        e, rs = outcomes(R, g)
        names = set()
        refuses = False
        for st, v in rs or []:
            if v.op == "adt" and v.a[1] == "Err":
                refuses = refuses or any(called(y)[0] == "unknown_variant" for y in walk(v))
                continue
            for k, t in st.facts:
                if k == "s" and st.facts[(k, t)] == frozenset("0"):
                    names |= {x for x in (text(y) for y in walk(t)) if x is not None}
        if refuses:
            return names
    return None


def variant_agrees(R, T, w, name, xs, visitor, me):
    m = visitor_method(R, visitor, "visit_enum")
    if m is None:
        ob(R, "reading", w, False, "no visit_enum found", unknown=True)
        return
    fa = None
    for b in m["body"]["blocks"]:
        t = b["t"]
        if t["t"] == "call" and t["fn"].get("decl", "").endswith("EnumAccess::variant"):
            fa = first_field(t["dty"])
    read, other = names_read(R, fa) if fa else (None, None)
    if read is None:
        ob(R, "names", w, False, "how variants are read is not understood", unknown=True)
        return
    k = read.get(name)
    e, rs = outcomes(R, m)
    for st, fs in xs:
        va = [st.facts[q] for q in st.facts if q[0] == "d" and strip(q[1]) is strip(me) and isinstance(st.facts[q], str)]
        own = va[0] if va else tag_variant(fs, me)
        if own is None:
            ob(R, "variant", f"{w} {name}", False, "which variant is written is not known", unknown=True)
            continue
        if k is None:
            ob(R, "variant", f"{w}::{own}", False, f"{T}::{own} is written as {name!r}, a name that reading does not know")
            continue
        got = [(s2, v) for s2, v in tail(rs) if any(s2.facts[q] == k for q in s2.facts if q[0] == "d")]
        if not got and len(read) == 1:
            got = tail(rs)
        if not got:
            ob(R, "variant", f"{w}::{own}", False, f"no reading of {name!r} that succeeds was found", unknown=True)
        for s2, v in got:
            n, a = called(v)
            names = [(q, owner_field(x, me, own)) for q, x in fs if x is not None]
            for q, x in fs:
                if x is not None and owner_field(x, me, own) is None:
                    ob(R, "content", f"{w}::{own}.{q}", False, f"{T}::{own} writes {show(x)[:120]} as {q!r}", unknown=not is_field_part(strip(x), me))
            if v.op == "adt" and v.a[1] == "Ok" and v.a[2][0][1].op == "adt":
                x = v.a[2][0][1]
                ob(R, "variant", f"{w}::{own}", x.a[1] == own, f"{T}::{own} is written as {name!r}, which reads as {x.a[1]}")
                if x.a[1] == own:
                    for i, (fld, y) in enumerate(x.a[2]):
                        ob(R, "round trip", f"{w}::{own}.{fld}", one_value(y, "newtype_variant") is not None and (fld, fld) in names,
                           f"{T}::{own} is written with {names}, and its field {fld} read from {show(y)[:100]}")
            elif n == "struct_variant" and a[-1].op == "adt":
                g = visitor_method(R, a[-1].a[0], "visit_map")
                if g is None:
                    ob(R, "reading", w, False, "no visit_map found", unknown=True)
                    continue
                mr = map_read(R, g)
                ob(R, "variant", f"{w}::{own}", mr["variant"] == own, f"{T}::{own} is written as {name!r}, which reads as {mr['variant']}", unknown=mr["variant"] is None)
                sq = visitor_method(R, a[-1].a[0], "visit_seq")
                fields_agree(R, ob, f"{w}::{own}", T, own, names, mr, seq_read(R, sq) if sq else None, names, [n for n, x in fs if x is None])
            else:
                ob(R, "variant", f"{w}::{own}", False, show(v)[:120], unknown=True)


def shows_all(R, T, w):
    """the text a value is written as is its content"""
    for f in R.prog.fns.values():
        if f.get("name") == "fmt" and f.get("trait") == "std::fmt::Display" and f.get("self") and f["self"].get("adt") == T and "body" in f:
            e, rs = outcomes(R, f)
            for st, v in rs or []:
                if v.op == "adt" and v.a[1] == "Err":
                    continue
                p = shown_by(v)
                whole = p is not None and len(p) == 1 and not isinstance(p[0], str) and owner_field(p[0], mk("*", mk("arg", "self")), None) is not None
                ob(R, "text", w, whole, f"{T} is written as {show(v)[:160]}, not as its whole amount", unknown=p is None and not plain_but_cut(v))


# ---- C10: what a value holds, and how it shows

CORE = "dcspark_core"
SAYS = {  # constants of the library that users rely on
    "TokenId::MAIN": "0" * 64,
    "AssetName::MAIN": "414441",
    "TransactionId::ZERO": "N/A",
}
KEEPS = ("fmt", "write_str", "pad", "write_fmt")


def wrapped(R, ty):
    """the types of the library with one field of that type"""
    r = []
    for k, a in R.prog.adts.items():
        if k.startswith(CORE + "::") and not a.get("enum") and len(a["variants"]) == 1 and "deserialize::" not in k:
            fs = a["variants"][0]["fields"]
            if len(fs) == 1 and ty(fs[0]["ty"]["s"]):
                r.append(k)
    return sorted(r)


def is_text(s):
    return "str" in s and ("Cow<" in s or "Box<" in s or "Arc<" in s or "Rc<" in s) or s.endswith("::String")


def made_of(v, T):
    """the content of a value of the type, or None"""
    if v.op == "adt" and v.a[1] in ("Ok", "Some"):
        v = v.a[2][0][1]
    if v.op == "adt" and v.a[0] == T and v.a[2]:
        return v.a[2][0][1]
    return None


def shown_by(v):
    """[pieces] of what a formatting function writes: texts and values, None when not known"""
    from rules_cip import template

    n, a = called(v)
    if n in ("fmt",) and len(a) == 2:
        return [a[0]]
    if n in ("write_str", "pad") and len(a) == 2:
        x = uncow(a[1])
        return [text(x) if text(x) is not None else x]
    if n == "write_fmt" and len(a) == 2:
        k, b = called(a[1])
        if k == "from_str" and b and text(b[0]) is not None:
            return [text(b[0])]
        if k == "new" and len(b) == 2 and strip(b[1]).op == "array":
            p = template(show(b[0]), strip(b[1]).a[0])
            if p is None:
                return None
            out = []
            for q in p:
                if isinstance(q, str):
                    out.append(q)
                else:
                    fill, left, width, x = q
                    m, y = called(x)
                    if m != "new_display" or width:
                        return None
                    out.append(uncow(y[0]))
            return out
    return None


def whole_self(x, me):
    """whether x is the one field of the value"""
    x = uncow(x)
    return x.op == "." and strip(x.a[0]) is strip(me)


@rule("C10", "dcspark_core")
def holds(R):
    """every constructor and conversion of the identifier types, found by type, as one term: the content is the argument and nothing else, and what is
    read back of it, shown or compared against a prefix is that content; the fixed identifiers are the ones they are documented as; counters show as their number."""
    texts = wrapped(R, is_text)
    nums = wrapped(R, lambda s: s in ("u64", "u32", "u128"))
    R.floor("identifier types", len(texts), 6)
    R.floor("counter types", len(nums), 4)
    n = 0
    for f in list(R.prog.fns.values()):
        if f["crate"] != CORE or "body" not in f or f["kind"] not in ("AssocFn", "AssocConst"):
            continue
        nm, tr = f.get("name"), f.get("trait") or ""
        if f["kind"] == "AssocConst":
            k = "::".join(f["path"].split("::")[-2:])
            if k in SAYS:
                e, rs = outcomes(R, f)
                for st, v in rs:
                    x = v.a[2][0][1] if v.op == "adt" and v.a[2] else v
                    t = text(uncow(x))
                    ob(R, "constant", k, t == SAYS[k], f"{k} is {show(v)[:140]}, documented as {SAYS[k]!r}", unknown=t is None)
                n += 1
            elif k in [base(T) + "::" + m for T in nums for m in ("MAX", "MIN")]:
                e, rs = outcomes(R, f)
                want = c(0 if k.endswith("MIN") else 2**64 - 1)
                for st, v in rs:
                    x = made_of(v, v.a[0]) if v.op == "adt" else v
                    ob(R, "constant", k, x is want, f"{k} is {show(v)[:140]}", unknown=x is None or not is_int(x))
                n += 1
            continue
        T = (f.get("self") or {}).get("adt")
        if T not in texts and T not in nums or tr.startswith("serde"):
            continue
        w = where(f)
        me = mk("*", mk("arg", "self")) if f["inputs"] and f["inputs"][0].get("ref") else mk("arg", "self")
        out = f["output"]
        gives = out.get("adt") == T or any(y.get("adt") == T for y in out.get("args", []))
        own = [p for p in f["params"]]
        if T in texts and gives and nm not in ("clone", "default") and "self" not in own and len(own) == 1:
            n += 1
            arg = strip(mk("arg", own[0]))
            e, rs = outcomes(R, f)
            for st, v in rs:
                if v.op == "adt" and v.a[1] in ("Err", "None"):
                    ob(R, "made of", w, False, f"{nm} refuses a text\n{path_text(st, v)}")
                    continue
                x = made_of(v, T)
                y = uncow(x) if x is not None else None
                good = y is arg
                bad = y is not None and (text(y) is not None or any(z is arg for z in walk(y)))
                ob(R, "made of", w, good, f"{nm} makes {show(v)[:160]} of {own[0]}\n{path_text(st, v)}", unknown=not bad)
        elif nm == "default" and base(T) + "::MAIN" in SAYS and tr == "std::default::Default":
            n += 1
            e, rs = outcomes(R, f)
            for st, v in rs:
                x = made_of(v, T)
                t = text(uncow(x)) if x is not None else None
                ob(R, "default", w, t == SAYS[base(T) + "::MAIN"], f"the default is {show(v)[:160]}", unknown=t is None)
        elif nm in ("as_ref", "deref", "borrow", "as_str", "as_bytes", "into_inner") and T in texts:
            n += 1
            e, rs = outcomes(R, f)
            for st, v in rs:
                ob(R, "content", w, whole_self(v, me), f"{nm} gives {show(v)[:160]}", unknown=not part_of(uncow(v), me))
        elif tr.startswith("std::fmt::") and not tr.endswith("Debug") and nm == "fmt":
            n += 1
            e, rs = outcomes(R, f)
            for st, v in rs:
                p = shown_by(v)
                if p is None:
                    ob(R, "shown", w, False, f"shows as {show(v)[:160]}", unknown=not plain_but_cut(v))
                    continue
                calls = [x[1] for x in st.events() if x[0] == "call" and last(x[1]) == "fmt"]
                good = len(p) == 1 and not isinstance(p[0], str) and whole_self(p[0], me)
                if good and calls and called(v)[0] == "fmt":
                    good = calls[-1].split("::fmt")[0].split("::")[-1] == tr.split("::")[-1] or calls[-1].split("::")[-2] == tr.split("::")[-1]
                ob(R, "shown", w, good, f"{tr} of {base(T)} shows {[x if isinstance(x, str) else show(x)[:60] for x in p]} with {calls}")
        elif nm == "starts_with" and T in texts:
            n += 1
            pre = mk("arg", own[1])
            e, rs = outcomes(R, f)
            for st, v in rs:
                k, a = called(v)
                good = k == "starts_with" and len(a) == 2 and whole_self(a[0], me) and uncow(a[1]) is strip(pre)
                other = k in ("contains", "ends_with", "starts_with") or v.op == "c"
                ob(R, "prefix", w, good, f"starts_with is {show(v)[:160]}", unknown=not other)
    for f in R.prog.fns.values():
        if f["crate"] == CORE and f.get("name") == "fmt" and f.get("trait") == "std::fmt::Display" and "body" in f and base((f.get("self") or {}).get("adt") or "") in ("UtxoPointer", "Value"):
            w = where(f)
            me = mk("*", mk("arg", "self"))
            want = ["transaction_id", "@", "output_index"] if base(f["self"]["adt"]) == "UtxoPointer" else ["value"]
            e, rs = outcomes(R, f)
            n += 1
            for st, v in rs:
                if v.op == "adt" and v.a[1] == "Err":
                    continue
                p = shown_by(v)
                got = None if p is None else [x if isinstance(x, str) else owner_field(x, me, None) for x in p]
                if p is None and v.op == "adt":
                    got = None
                ob(R, "shown", w, got == want, f"shows {got if p is not None else show(v)[:160]}", unknown=got is None and not plain_but_cut(v))
    R.floor("conversions", n, 60)
    made = 0
    for f in list(R.prog.fns.values()):
        T = (f.get("self") or {}).get("adt")
        if f["crate"] != CORE or "body" not in f or f.get("name") != "new" or f.get("trait") or T not in R.prog.adts or f["output"].get("adt") != T or base(T) not in ("TransactionAsset", "UTxOBuilder"):
            continue
        made += 1
        e, rs = outcomes(R, f)
        for st, v in rs:
            for fld in [x["name"] for x in R.prog.adts[T]["variants"][0]["fields"]]:
                x = field(v, fld)
                if fld in f["params"]:
                    a = mk("arg", f["params"][f["params"].index(fld)])
                    part = strip(x) is not a and any(y is a for y in walk(x))
                    ob(R, "made of", f"{where(f)} {fld}", strip(x) is a, f"{fld} is {show(x)[:140]}", unknown=not part and x.op in ("res", "call", "?"))
                else:
                    none = empty_default(e, st, x) or field(x, "value") is ZERO
                    ob(R, "made of", f"{where(f)} {fld}", none, f"{fld}, which is not given, is {show(x)[:140]}", unknown=x.op in ("res", "?"))
    R.floor("records made of their parts", made, 2)


def plain_but_cut(v):
    """a format that shows a value with a width or a precision"""
    return called(v)[0] == "write_fmt" and re.search(r'b"\\x(c[1-9]|c[a-f])', show(v)) is not None


def part_of(x, me):
    return any(strip(y) is strip(me) for y in walk(x))


# ---- C12: equality, order, hashes and copies


def path_in(t, me):
    """the fields by which t is reached in the value, () for the value itself; None when it is not in it"""
    r = []
    while True:
        t = strip(t)
        if t is strip(me):
            return tuple(r[::-1])
        if t.op == "." and isinstance(t.a[1], str):
            r.append(t.a[1])
            t = t.a[0]
        elif t.op == "as":
            r.append("as " + t.a[1])
            t = t.a[0]
        else:
            return None


def difference(d, me, you):
    """the path of which d is the difference between two values"""
    if d.op != "lin" or d.a[0] or len(d.a[1]) != 2:
        return None
    (x, i), (y, j) = d.a[1]
    if {i, j} != {1, -1}:
        return None
    p, q = path_in(x, me), path_in(y, you)
    if p is None:
        p, q = path_in(x, you), path_in(y, me)
    return p if p is not None and p == q else None


def about_variant(d):
    return any(y.op == "discr" for y in walk(d))


def covered(R, ty, path, eqs):
    if path in eqs:
        return True
    a = R.prog.adts.get(ty.get("adt") or "")
    if "PhantomData" in (ty.get("adt") or ty.get("s", "")):
        return True
    if not a or a.get("enum") or not a["variants"][0]["fields"]:
        return False
    return all(covered(R, x["ty"], path + (x["name"],), eqs) for x in a["variants"][0]["fields"])


def all_equal(R, T, var, eqs):
    """the fields of the type that are not known to be equal"""
    a = R.prog.adts[T]
    v = next((v for v in a["variants"] if v["name"] == var), None) if a.get("enum") else a["variants"][0]
    if v is None:
        return ["?"]
    pre = ("as " + var,) if a.get("enum") else ()
    return [x["name"] for x in v["fields"] if not covered(R, x["ty"], pre + (x["name"],), eqs)]


def situation(st, me, you):
    """(paths known equal, paths known to differ, variant of each, whether the variants are known equal)"""
    eqs, nes, same = set(), set(), None
    for (k, t), m in st.facts.items():
        if k != "s":
            continue
        if about_variant(t):
            same = m == frozenset("0") if "0" in m and len(m) == 1 or "0" not in m else None
            continue
        p = difference(t, me, you)
        if p is not None:
            if m == frozenset("0"):
                eqs.add(p)
            elif "0" not in m:
                nes.add(p)
    va = lambda o: next((m for (k, t), m in st.facts.items() if k == "d" and strip(t) is strip(o)), None)
    return eqs, nes, va(me), va(you), same


def compared(v):
    """the difference that an ordering or an equality is of: ('eq'|'ne'|'ord', d)"""
    if v.op == "adt" and v.a[1] == "Some":
        v = v.a[2][0][1]
    if v.op == "ord":
        return "ord", v.a[0]
    if v.op == "rel":
        if v.a[1] == frozenset("0"):
            return "eq", v.a[0]
        if v.a[1] == frozenset("+-"):
            return "ne", v.a[0]
    return None, None


PLAIN = ("dcspark_core", "multiverse", "dcspark_blockchain_source", "fraos", "utxo_selection", "indexed_log_map")
APART = {  # equality that is meant to look at less than the value, or through references that may be gone
    "EntryWeakRef", "Entry",
}


@rule("C12", "dcspark_core", "multiverse", "dcspark_blockchain_source", "fraos", "utxo_selection", "indexed_log_map")
def agree(R):
    """every eq, cmp, partial_cmp, hash and clone of the library's types, derived or written, as its outcomes: equal exactly when each field is equal, ordered by the first field in
    which they differ and equal only if none does, hashed by what is compared and nothing else, copied field by field."""
    n = 0
    for f in list(R.prog.fns.values()):
        tr, nm = f.get("trait") or "", f.get("name")
        if f["crate"] not in PLAIN or "body" not in f or (tr, nm) not in {
            ("std::cmp::PartialEq", "eq"), ("std::cmp::PartialEq", "ne"), ("std::cmp::Ord", "cmp"), ("std::cmp::PartialOrd", "partial_cmp"), ("std::hash::Hash", "hash"), ("std::clone::Clone", "clone"),
        }:
            continue
        T = (f.get("self") or {}).get("adt")
        if T not in R.prog.adts or "deserialize::" in T or (base(T) in APART and nm != "clone"):
            continue
        w = where(f)
        n += 1
        e, rs = outcomes(R, f)
        a = R.prog.adts[T]
        me = mk("*", mk("arg", f["params"][0]))
        you = mk("*", mk("arg", f["params"][1])) if len(f["params"]) > 1 else None
        for st, v in rs:
            if nm == "clone":
                copied(R, T, w, a, me, st, v)
            elif nm == "hash":
                hashed(R, T, w, me, st)
            else:
                judged(R, T, w, a, nm, me, you, st, v)
    R.floor("operations", n, 60)


def copied(R, T, w, a, me, st, v):
    v = strip(v)
    if v is strip(me):
        ob(R, "copy", w, True)
        return
    if v.op != "adt" or v.a[0] != T:
        ob(R, "copy", w, False, f"a copy is {show(v)[:160]}", unknown=True)
        return
    var = next((m for (k, t), m in st.facts.items() if k == "d" and strip(t) is strip(me)), None)
    if a.get("enum"):
        ob(R, "copy", w, var == v.a[1], f"the copy of a {var} is a {v.a[1]}", unknown=not isinstance(var, str))
    pre = ("as " + v.a[1],) if a.get("enum") else ()
    vs = next((x for x in a["variants"] if x["name"] == v.a[1]), a["variants"][0])
    for name, x in v.a[2]:
        ty = next((y["ty"] for y in vs["fields"] if y["name"] == name), {})
        whole = same_parts(R, ty, x, pre + (name,), me)
        p = path_in(x, me)
        const = x.op in ("c", "str", "empty") or (x.op == "adt" and not any(y is strip(me) for y in walk(x)))
        ob(R, "copy", f"{w} {name}", whole, f"the copy's {name} is {show(x)[:140]}", unknown=p is None and not const)


def same_parts(R, ty, x, path, me):
    if path_in(x, me) == path:
        return True
    if "PhantomData" in (ty.get("adt") or ty.get("s", "")):
        return True
    if x.op == "adt" and x.a[2]:
        b = R.prog.adts.get(ty.get("adt") or "")
        if b and not b.get("enum") and x.a[0] == ty.get("adt"):
            tys = {y["name"]: y["ty"] for y in b["variants"][0]["fields"]}
            return all(same_parts(R, tys.get(k, {}), y, path + (k,), me) for k, y in x.a[2])
    return False


def hashed(R, T, w, me, st):
    for x in st.events():
        if x[0] != "call" or not x[2]:
            continue
        k = last(x[1])
        if k == "hash" or k.startswith("write"):
            y = strip(x[2][0] if k == "hash" else x[2][1] if len(x[2]) > 1 else x[2][0])
            p = path_in(y, me)
            fine = p is not None or y.op in ("c", "str", "discr", "len") or (y.op == "adt" and not y.a[2])
            exact = any("BigDecimal" in str(R.prog.adts[T]["variants"][0]["fields"]) for _ in [0]) and any(called(z)[0] in ("to_string", "as_bigint_and_exponent", "into_bigint_and_exponent", "digits", "fractional_digit_count") for z in walk(y))
            ob(R, "hash", w, fine and p != () , f"hashes {show(y)[:140]}, which values that are equal need not share", unknown=not exact)


def judged(R, T, w, a, nm, me, you, st, v):
    eqs, nes, mine, yours, same = situation(st, me, you)
    if a.get("enum"):
        unlike = isinstance(mine, str) and (yours != mine if isinstance(yours, str) else isinstance(yours, frozenset) and mine in yours)
        unlike = unlike or (isinstance(yours, str) and isinstance(mine, frozenset) and yours in mine)
        if unlike and same is True:
            return
        if isinstance(mine, str) and isinstance(yours, str) and mine == yours and same is False:
            return
    single = len(a["variants"]) == 1
    var = mine if isinstance(mine, str) else yours if isinstance(yours, str) else a["variants"][0]["name"] if single else None
    alike = (single or (isinstance(mine, str) and mine == yours) or same is True)
    apart = bool(nes) or same is False or (isinstance(mine, str) and isinstance(yours, str) and mine != yours) or (
        isinstance(mine, str) and isinstance(yours, frozenset) and mine in yours) or (isinstance(yours, str) and isinstance(mine, frozenset) and yours in mine)
    kind, d = compared(v)
    truth = v.a[1] if v.op == "c" and v.a[0] == "b" else None
    if nm == "ne":
        truth = None if truth is None else not truth
        kind = {"eq": "ne", "ne": "eq"}.get(kind, kind)
    text_ = path_text(st, v)
    if nm in ("eq", "ne"):
        if truth is True:
            left = all_equal(R, T, var, eqs) if alike and var else ["its variant"] if not alike else []
            ob(R, "equal", w, not left, f"{base(T)} counts as equal without {', '.join(left)} being compared\n{text_}", unknown=var is None and alike and not single)
        elif truth is False:
            ob(R, "different", w, apart, f"{base(T)} counts as different though nothing in which they differ is known\n{text_}")
        elif kind == "eq":
            p = difference(d, me, you)
            if about_variant(d):
                left = [] if all(not x["fields"] for x in a["variants"]) else ["its content"]
            else:
                left = all_equal(R, T, var, eqs | ({p} if p is not None else set())) if alike and var else ["its variant"]
            ob(R, "equal", w, not left and (p is not None or about_variant(d)), f"{base(T)} counts as equal without {', '.join(left)} being compared\n{text_}", unknown=p is None and not about_variant(d))
        else:
            turned = kind == "ne" and difference(d, me, you) is not None
            ob(R, "equal", w, False, f"{base(T)} counts as equal when {show(v)[:140]}", unknown=not turned)
        return
    if v.op == "adt" and v.a[1] == "None":
        ob(R, "order", w, False, f"{base(T)} has no order though it is always comparable\n{text_}")
        return
    if kind == "ord":
        p = difference(d, me, you)
        sgn = forward(d, me)
        if about_variant(d):
            ob(R, "order", w, True)
            return
        if p is None or sgn is None:
            ob(R, "order", w, False, show(v)[:140], unknown=True)
            return
        left = all_equal(R, T, var, eqs | {p}) if var else ["its variant"]
        ob(R, "order", w, sgn and (p in nes or not left), f"{base(T)} is ordered by {'.'.join(p)} {'' if sgn else 'backwards '}with {', '.join(left) or 'nothing'} left out\n{text_}")
    else:
        k = v.a[2][0][1] if v.op == "adt" and v.a[1] == "Some" else v
        if k.op == "adt" and k.a[1] == "Equal":
            left = all_equal(R, T, var, eqs) if var and alike else ["its variant"]
            ob(R, "order", w, not left, f"{base(T)} is ordered as equal without {', '.join(left)} being compared\n{text_}")
        elif k.op == "adt" and k.a[1] in ("Less", "Greater"):
            ob(R, "order", w, apart, f"{base(T)} is ordered though nothing in which they differ is known\n{text_}")
        else:
            ob(R, "order", w, False, show(v)[:140], unknown=True)


def forward(d, me):
    """whether a difference is the value's own minus the other's"""
    for x, i in d.a[1]:
        if path_in(x, me) is not None:
            return i == 1
    return None
