"""Rules over the multiverse: what an insertion and a removal do to every part of the graph, on disk and in memory."""

from core import *
from rules import rule
from rules_core import final
from rules_fraos2 import errors_rule
from models import presence, slot  # noqa

MV = "multiverse"
M = "Multiverse"
FIELDS = ("all", "ordered", "tips", "roots")


def ident(t):
    """the key behind references, entries and shared handles"""
    while True:
        if t.op in ("*", "box", "shared"):
            t = t.a[0]
        elif t.op == "keyin":
            t = t.a[1]
        elif t.op == "ref" and not t.a[1] and t.a[0].op == "E" and len(t.a[0].a) == 2:
            t = mk("elem", *t.a[0].a)
        elif t.op in ("adt", "upd") and t.op == "adt" and t.a[0].endswith("EntryRef"):
            t = field(t, "key")
        elif t.op == "." and t.a[1] == "key":
            t = t.a[0]
        else:
            return t


def peel(t):
    """(what a map or a set was, [(what was done, key, value)])"""
    r = []
    while t.op in ("mapupd", "mapdel"):
        r.append(("put" if t.op == "mapupd" else "del", ident(t.a[1]), t.a[2] if t.op == "mapupd" else None))
        t = t.a[0]
    return t, r[::-1]


def net(ups):
    """the last word on each key"""
    d = {}
    for op, k, v in ups:
        d[k] = (op, v)
    return d


def slots(st, name):
    """[(key, map, content)] of the values of that map reached on a path"""
    r = []
    for root, v in st.mem.items():
        if root.op == "S":
            p = root.a[0].a[1]
            if p and p[-1] == ("f", name):
                r.append((ident(root.a[2]), root.a[1], v))
    return r


def slot_of(st, name, key):
    c = [v for k, _, v in slots(st, name) if k is key]
    return c[-1] if c else None


def fn(R, name, own=M):
    fs = [f for f in R.prog.fns.values() if f["crate"] == MV and f.get("name") == name and "body" in f and own in f["path"] and f.get("pub", True)]
    fs = [f for f in fs if not f.get("trait")] if len(fs) > 1 else fs
    return R.one(f"{own}::{name}", fs)


def present(e, s, m, key):
    """whether the map holds the key: the facts of the path may be about any handle of the key"""
    for k, x in s.facts.items():
        if k[0] == "d" and k[1].op == "get" and ident(k[1].a[1]) is key:
            b, _ = peel(k[1].a[0])
            if b is m:
                return x == "Some"
    for x in s.events():
        if x[0] in ("is",) and x[1].op == "entry" and ident(x[1].a[2]) is key and peel(x[1].a[1])[0] is m:
            return x[2] == "Occupied"
    return None


def linked(R, w, e, s, old, new, st, v, text, pid_key=None):
    """the new entry stands everywhere it must, and nothing else changed"""
    tr = {n: mk("call", x, (v,)) for n, x in ()}
    idk, par, bn = id_of(v), parent_of(v), bn_of(v)
    has = present(e, s, old["all"], par)
    R.ob("parent-looked-up", w, has is not None, f"whether the parent is there is not looked at\n{text}")
    # all
    b, ups = peel(new["all"])
    d = net(ups)
    kids = d.pop(par, None) if par is not idk else None
    R.ob("all", w, b is old["all"] and set(d) == {idk} and d[idk][0] == "put", f"the entries become {show(new['all'])[:300]}\n{text}", unknown=b is not old["all"] and b.op not in ("arg", ".", "empty"))
    if idk in d and d[idk][0] == "put":
        en = d[idk][1]
        R.ob("value", w, field(en, "value") is v, f"the entry holds {show(field(en, 'value'))[:200]}\n{text}")
        R.ob("no-children", w, field(en, "children").op == "empty", f"a new entry has children {show(field(en, 'children'))[:200]}\n{text}")
        wk = field(field(en, "parent"), "key")
        if has:
            src = wk.a[-1][0] if wk.op == "call" and isinstance(wk.a[-1], tuple) else wk.a[0] if wk.a else wk
            down = wk.op == "downgrade" or (wk.op == "call" and wk.a[0].endswith("downgrade"))
            R.ob("parent-link", w, down and ident(src) is par, f"the parent is {show(wk)[:200]}\n{text}", unknown=not down and wk.op not in ("call", "new"))
            if down and ident(src) is par:
                R.ob("parent-kept", w, any(t.op == "keyin" for t in walk(src)) or not any(t.op == "box" for t in walk(src)), f"the link goes to a key that nothing holds: {show(src)[:200]}\n{text}")
        else:
            R.ob("root-parent", w, wk.op == "call" and wk.a[0].endswith("Weak::new") or wk.op == "new" or "new()" == show(wk), f"an entry without a parent has {show(wk)[:200]}\n{text}", unknown=True if wk.op not in ("call", "downgrade", "new") else False)
    # children
    ch = slot_of(st, "all", par)
    if kids is not None and kids[0] == "put":
        ch = kids[1]
    if has:
        okk = False
        if ch is not None:
            cb, cu = peel(field(ch, "children"))
            okk = cb.op == "." and cb.a[1] == "children" and [(o, k) for o, k, _ in cu] == [("put", idk)]
            okk = okk and all(field(ch, n) is field(cb.a[0], n) for n in ("value", "parent"))
        R.ob("child-of-parent", w, okk, f"the parent's children become {show(field(ch, 'children'))[:200] if ch is not None else 'what they were'}\n{text}")
    # roots
    b, ups = peel(new["roots"])
    d = net(ups)
    if has:
        R.ob("roots", w, b is old["roots"] and all(o == "del" and k is idk for k, (o, _) in d.items()), f"the roots become {show(new['roots'])[:200]} although the parent is there\n{text}")
    elif has is False:
        R.ob("roots", w, b is old["roots"] and set(d) == {idk} and d[idk][0] == "put", f"the roots become {show(new['roots'])[:200]} although the parent is not there\n{text}")
    # tips
    b, ups = peel(new["tips"])
    d = net(ups)
    mine = d.pop(idk, (None,))[0]
    R.ob("new-tip", w, b is old["tips"] and mine == "put", f"the tips become {show(new['tips'])[:200]}: the new entry is not one\n{text}")
    pt = d.pop(par, (None,))[0]
    if has:
        R.ob("parent-no-tip", w, pt == "del" or fact_absent(e, s, old["tips"], par), f"the parent stays a tip: {show(new['tips'])[:200]}\n{text}")
    R.ob("other-tips", w, not d and pt in (None, "del"), f"the tips become {show(new['tips'])[:200]}\n{text}")
    # ordered
    b, ups = peel(new["ordered"])
    d = net(ups)
    sl = slot_of(st, "ordered", bn)
    if bn in d and d[bn][0] == "put" and sl is None:
        sl = d[bn][1]
    okk = b is old["ordered"] and set(d) <= {bn} and all(o == "put" for o, _ in d.values()) and sl is not None
    if okk:
        sb, su = peel(sl)
        first = sb.op == "empty"
        there = present(e, s, old["ordered"], bn)
        okk = [(o, k) for o, k, _ in su] == [("put", idk)] and (first if d and there is False else not first or there is False)
        if d and there is not False:
            # replaced: only with what was there before
            okk = okk and not first
    R.ob("ordered", w, okk, f"the order becomes {show(new['ordered'])[:200]}, its number's set {show(sl)[:200] if sl is not None else '-'}\n{text}")


def fact_absent(e, s, m, key):
    return present(e, s, m, key) is False


def trait_call(name, v):
    return ident(mk("*", mk("call", name, (v,))))


NAMES = {}


def names(R):
    """printed names of the trait's methods, as the engine's terms have them"""
    if not NAMES:
        for f in R.prog.fns.values():
            if f["crate"] == MV and f.get("name") == "insert" and M in f["path"] and "body" in f:
                e, rs = R.run(f)
                for s, kind, v in rs or []:
                    for k in s.facts:
                        for t in walk(k[1]):
                            if t.op == "call" and t.a[0].split("::")[-1] in ("id", "parent_id", "block_number"):
                                NAMES[t.a[0].split("::")[-1]] = t.a[0]
    return NAMES


def id_of(v):
    return mk("call", NAMES.get("id", "Variant::id"), (v,))


def parent_of(v):
    return mk("call", NAMES.get("parent_id", "Variant::parent_id"), (v,))


def bn_of(v):
    return mk("call", NAMES.get("block_number", "Variant::block_number"), (v,))


def selfs(s, f, e):
    fin = final(s, f, e)
    return {n: field(fin, n) for n in FIELDS}


def olds():
    me = mk("*", mk("arg", "self"))
    return {n: field(me, n) for n in FIELDS}


def tree_calls(evs, what):
    r = []
    for x in evs:
        if x[0] == "call" and x[1] == f"sled::Tree::{what}":
            r.append(x)
        elif x[0] == "loop":
            for it in x[1].iters:
                r += tree_calls(it[0], what)
    return r


@rule("M01", MV)
def persisted(R):
    """Every path of an insertion and of a removal is followed. On an insertion that reports success for a new entry from the number on which entries are stored, a write of the serialised entry into the
    database must have succeeded before the first change in memory; when it fails, memory must be as before and the failure reported. A removal that reports success must have deleted the record of the same entry."""
    names(R)
    f = fn(R, "insert")
    n = 0
    if f:
        w = where(f)
        var = mk("arg", f["params"][1])
        me = mk("*", mk("arg", "self"))
        e, rs = R.run(f, apart=(r".",))
        for s, kind, v in rs or []:
            if kind != "ret":
                continue
            new, old = selfs(s, f, e), olds()
            same = all(new[x] is old[x] for x in FIELDS) and not any(k is parent_of(var) or k is bn_of(var) for nm in ("all", "ordered") for k, m, c_ in slots(s, nm) if peel(c_)[1] or c_.op == "upd")
            ins = tree_calls(s.events(), "insert")
            res = e.variant_of(s, v)
            if res == "Err":
                R.ob("refused-unchanged", w, same, f"an insertion fails, but is seen in memory\n{path_text(s, v)}")
                continue
            if res != "Ok" or same:
                continue
            below = e.sign(s, sub(bn_of(var), field(me, "store_from")))
            sure = below <= frozenset("-") or below <= frozenset("0+")
            R.ob("bound", w, sure, f"stored or not whatever the number\n{path_text(s, v)}", unknown=bool(ins) and not sure)
            if below <= frozenset("-"):
                R.ob("not-stored", w, not ins, f"an entry under the bound is stored\n{path_text(s, v)}")
                continue
            n += 1
            okk = len(ins) == 1 and e.variant_of(s, ins[0][3]) == "Ok"
            R.ob("stored", w, okk, f"success with {len(ins)} writes to the database{'' if not ins else ', its failure ignored'}\n{path_text(s, v)}")
            if not okk:
                continue
            data = ins[0][2][2]
            ser = [t for t in walk(data) if t.op in ("call", "res") and "to_vec" in t.a[0]]
            val = ser and (ser[0].a[1] if ser[0].op == "call" else ser[0].a[2])[0]
            R.ob("data", w, bool(ser) and strip(val) is var, f"{show(data)[:200]} is stored\n{path_text(s, v)}", unknown=not ser)
            before = True
            for x in s.events():
                if x is ins[0]:
                    break
                if x[0] == "call" and re.search(r"Hash(Map|Set)::(insert|remove)|BTreeMap::(insert|remove)|map::(insert|remove)", x[1]):
                    before = False
            R.ob("stored-first", w, before, f"memory is changed before the entry is stored\n{path_text(s, v)}")
        R.floor("stored insertions", n, 4)
    f = fn(R, "remove")
    n = 0
    if f:
        w = where(f)
        e, rs = R.run(f, apart=(r".",))
        for s, kind, v in rs or []:
            if kind == "ret" and e.variant_of(s, v) == "Ok":
                n += 1
                rm = tree_calls(s.events(), "remove")
                R.ob("deleted", w, len(rm) >= 1 and all(e.variant_of(s, x[3]) == "Ok" for x in rm), f"a removal succeeds, the record stays\n{path_text(s, v)}")
        R.floor("removals", n, 8)


def strip(t):
    while t.op in ("*", "box", "ref") and t.a and isinstance(t.a[0], T):
        t = t.a[0]
    return t


@rule("M02", MV)
def insertion(R):
    """The state a successful insertion leaves is read off every path and compared, part by part, with the old state: the entry under its id with the value given, no children and the parent held by the graph if it
    is there; the parent's children plus the new one; a tip for the new entry and none for its parent; a root exactly if the parent is not there; the number's set plus the new one. Nothing else may differ."""
    names(R)
    f = fn(R, "insert")
    if not f:
        return
    w = where(f)
    var = mk("arg", f["params"][1])
    e, rs = R.run(f)
    n = 0
    old = olds()
    for s, kind, v in rs or []:
        if kind != "ret" or e.variant_of(s, v) != "Ok":
            continue
        new = selfs(s, f, e)
        known = present(e, s, old["all"], id_of(var))
        if known:
            continue
        n += 1
        linked(R, w, e, s, old, new, s, var, path_text(s, v))
    R.floor("insertions", n, 8)


@rule("M10", MV)
def twice(R):
    """On every path of an insertion on which the graph already holds the id, nothing in memory and nothing in the database may change, and success is reported; and every path that changes anything must have made sure the id is new."""
    names(R)
    f = fn(R, "insert")
    if not f:
        return
    w = where(f)
    var = mk("arg", f["params"][1])
    e, rs = R.run(f)
    old = olds()
    n = 0
    for s, kind, v in rs or []:
        if kind != "ret":
            continue
        new = selfs(s, f, e)
        known = present(e, s, old["all"], id_of(var))
        changed = [x for x in FIELDS if new[x] is not old[x]]
        ins = tree_calls(s.events(), "insert")
        if known:
            n += 1
            R.ob("unchanged", w, not changed and not ins, f"an entry already there is inserted again\n{path_text(s, v)}")
            R.ob("accepted", w, e.variant_of(s, v) == "Ok", f"an entry already there is an error\n{path_text(s, v)}", unknown=True if e.variant_of(s, v) != "Ok" else False)
        elif known is None:
            R.ob("new-only", w, not changed, f"an entry is inserted whether it is there or not\n{path_text(s, v)}", unknown=not changed)
        else:
            n += 1
            R.ob("new-only", w, True)
    R.floor("paths", n, 8)


@rule("M03", MV)
def removal(R):
    """The state a removal leaves is read off every path and compared, part by part, with the old state: the entry is gone from the entries, the roots, the tips and its number's set (no empty set stays); each child becomes a root
    without a parent; a parent that is there loses the child and becomes a tip exactly if it was the last; the value returned is the entry's. Nothing else may differ. An unknown entry is refused with nothing changed."""
    names(R)
    f = fn(R, "remove")
    if not f:
        return
    w = where(f)
    key = mk("arg", f["params"][1])
    kid = ident(key)
    old = olds()
    e, rs = R.run(f)
    n = 0
    for s, kind, v in rs or []:
        if kind != "ret":
            continue
        text = path_text(s, v)
        new = selfs(s, f, e)
        ent = None
        for k, x in s.facts.items():
            if k[0] == "d" and k[1].op == "get" and k[1].a[0] is old["all"] and ident(k[1].a[1]) is kid:
                ent = (k[1], x)
        if ent is None:
            R.ob("looked-up", w, all(new[x] is old[x] for x in FIELDS), f"an entry is removed without looking whether it is there\n{text}", unknown=True)
            continue
        if ent[1] == "None":
            same = all(not [u for u in peel(new[x])[1] if u[1] is not kid] and peel(new[x])[0] is old[x] for x in FIELDS)
            R.ob("unknown-refused", w, e.variant_of(s, v) == "Err" and same, f"removing an unknown entry\n{text}")
            continue
        if e.variant_of(s, v) != "Ok":
            continue
        n += 1
        E0 = payload(ent[0], "Some")
        val = field(E0, "value")
        R.ob("value", w, payload(v, "Ok") is val, f"{show(payload(v, 'Ok'))[:200]} is returned\n{text}")
        loops = [x[1] for x in s.events() if x[0] == "loop"]
        phis = {p: (i, L, loc) for L in loops for loc, (i, p) in L.phis.items()}

        def flat(t):
            """[what was done] from the old state on, loops as ('each', over, iterations)"""
            b, ups = peel(t)
            if b.op == "phi" and b in phis:
                i, L, loc = phis[b]
                b0, u0 = flat(i)
                return b0, u0 + [("each", L, [(peel(fin[loc]), fin, ist) for _, fin, ist in L.iters])] + ups
            return b, ups

        fl = {x: flat(new[x]) for x in FIELDS}
        for x in FIELDS:
            R.ob("same-graph", w, fl[x][0] is old[x], f"{x} becomes {show(new[x])[:200]}\n{text}", unknown=fl[x][0].op not in ("empty", ".", "arg"))
        # entries
        top = net([u for u in fl["all"][1] if u[0] != "each"])
        R.ob("entry-gone", w, top.get(kid, (None,))[0] == "del", f"the entry stays: {show(new['all'])[:200]}\n{text}")
        # roots
        rt = net([u for u in fl["roots"][1] if u[0] != "each"])
        par = parent_link(e, s, E0)
        R.ob("root-gone", w, rt.get(kid, (None,))[0] == "del" or bool(par and par[1]), f"the entry stays a root: {show(new['roots'])[:200]}\n{text}")
        R.ob("no-other-root", w, all(k is kid for k in rt), f"other roots change: {show(new['roots'])[:200]}\n{text}")
        # children
        kids = field(E0, "children")
        nochild = e.sign(s, length(kids)) <= frozenset("0")
        each = [u for u in fl["roots"][1] if u[0] == "each"]
        okk = nochild or (len(each) == 1 and each[0][1].over is not None and whole(each[0][1].over) is kids)
        if okk and each:
            okk = okk and through(s.events(), each[0][1])
            for (b, ups), fin, ist in each[0][2]:
                ch = [k for o, k, _ in ups]
                okk = okk and len(ups) == 1 and ups[0][0] == "put" and is_elem(ups[0][1], kids)
        R.ob("children-roots", w, okk, f"the children do not all become roots: {show(new['roots'])[:200]}\n{text}")
        if not nochild:
            orphans(R, w, e, s, E0, kids, loops, fl, text)
        # tips
        tp = net([u for u in fl["tips"][1] if u[0] != "each"])
        has_kids = e.sign(s, length(kids)) <= frozenset("+")
        R.ob("tip-gone", w, tp.pop(kid, (None,))[0] == "del" or has_kids, f"the entry stays a tip: {show(new['tips'])[:200]}\n{text}")
        # the parent
        if par is None:
            R.ob("parent-looked-up", w, False, f"the parent keeps the removed child\n{text}")
        elif par[1] is None:
            R.ob("parent-looked-up", w, False, f"whether the parent is there is not looked at\n{text}", unknown=True)
        elif par[1] is False:
            R.ob("other-tips", w, not tp, f"tips change: {show(new['tips'])[:200]}\n{text}")
        else:
            pk = par[0]
            pe = slot_of(s, "all", pk)
            if pe is None and pk in top and top[pk][0] == "put":
                pe = top[pk][1]
            cb, cu = peel(field(pe, "children")) if pe is not None else (None, [])
            okk = cb is not None and cb.op == "." and cb.a[1] == "children" and [(o, k) for o, k, _ in cu] == [("del", kid)]
            R.ob("parent-loses-child", w, okk, f"the parent's children become {show(field(pe, 'children'))[:200] if pe is not None else 'what they were'}\n{text}")
            if okk:
                after = e.sign(s, length(field(pe, "children")))
                one = e.sign(s, sub(length(cb), c(1)))
                empty = True if after <= frozenset("0") or one <= frozenset("0") else False if after <= frozenset("+") or one <= frozenset("+") else None
                got = tp.pop(pk, (None,))[0]
                if empty is None:
                    R.ob("parent-tip", w, False, f"whether the parent becomes a tip does not depend on its other children\n{text}")
                else:
                    R.ob("parent-tip", w, (got == "put") == empty and got != "del", f"the parent {'has no child left but is no tip' if empty else 'has children left but becomes a tip'}: {show(new['tips'])[:200]}\n{text}")
            R.ob("other-tips", w, not tp, f"other tips change: {show(new['tips'])[:200]}\n{text}")
        # the number's set
        bn = bn_of(val)
        there = present(e, s, old["ordered"], bn)
        od = net([u for u in fl["ordered"][1] if u[0] != "each"])
        if there is False:
            R.ob("ordered", w, all(u_ is bn and o == "del" for u_, (o, _) in od.items()), f"the order becomes {show(new['ordered'])[:200]}\n{text}")
        else:
            sl = slot_of(s, "ordered", bn)
            if sl is None:
                sl = od[bn][1] if bn in od and od[bn][0] == "put" else None
            if sl is None and bn in od and od[bn][0] == "del":
                # the set was taken out and not put back: what is known of what was left of it
                for k_ in s.facts:
                    for t in (lin(k_[1])[1] if k_[0] == "s" else ()):
                        x_ = t.a[0] if t.op == "len" else None
                        if x_ is not None and x_.op in ("mapdel", "mapupd") and (g_ := peel(x_)[0]).op == "." and g_.a[0].op == "as" and g_.a[0].a[0].op == "get" and ident(g_.a[0].a[0].a[1]) is bn and peel(g_.a[0].a[0].a[0])[0] is old["ordered"]:
                            sl = x_
            okk = set(od) <= {bn} and sl is not None
            if okk:
                sb, su = peel(sl)
                okk = [(o, k) for o, k, _ in su] == [("del", kid)]
                left = e.sign(s, length(sl))
                one = e.sign(s, sub(length(sb), c(1)))
                empty = True if left <= frozenset("0") or one <= frozenset("0") else False if left <= frozenset("+") or one <= frozenset("+") else None
                gone = bn in od and od[bn][0] == "del"
                R.ob("no-empty-set", w, empty is not None and (gone == empty), f"the set of the number is {'dropped although entries are left' if gone else 'kept although it may be empty'}\n{text}")
            R.ob("ordered", w, okk, f"the order becomes {show(new['ordered'])[:200]}, its number's set {show(sl)[:200] if sl is not None else '-'}\n{text}")
    R.floor("removals", n, 8)


def whole(it):
    """the collection an iterator goes through, all of it"""
    if any(x.op in ("iskip", "itake", "ifilter", "iwhile", "ifmap", "iother") for x in walk(it)):
        return None
    b = base_of(it)
    while b.op == "coll" and b.a[4 if len(b.a) > 4 else -1] == "exact" and all(is_elem(x, b.a[0]) for x in b.a[1]):
        b = b.a[0]
    return b


def is_elem(t, coll):
    t = ident(t)
    return t.op == "elem" and t.a[0] is coll


def entered(evs, L):
    """what happened before that loop, and after it"""
    for i, x in enumerate(evs):
        if x[0] == "loop" and x[1] is L:
            return evs[:i], evs[i + 1 :]
    return evs, []


def through(evs, L):
    """the loop went to its end"""
    return any(x[0] == "exhaust" and x[1] is L.over for x in entered(evs, L)[1])


def parent_link(e, s, E0):
    """(parent, there or not) as looked up on the path; None when it is not looked up"""
    wk = field(field(E0, "parent"), "key")
    for x in s.events():
        if x[0] == "call" and x[1].endswith("Weak::upgrade") and contains(x[2][0], wk):
            k = e.variant_of(s, x[3])
            if k == "None":
                return (None, False)
            p = payload(x[3], "Some")
            if k is None:
                return (p, None)
            for q, y in s.facts.items():
                if q[0] == "d" and q[1].op == "get" and ident(q[1].a[1]) is p:
                    return (p, y == "Some")
            return (p, None)
    return None


def orphans(R, w, e, s, E0, kids, loops, fl, text):
    """each child that is there loses its parent"""
    n = 0
    seen = []
    for L in loops:
        if L.over is None or whole(L.over) is not kids:
            continue
        okk = through(s.events(), L)
        for ie, fin, ist in L.iters:
            for k, m, cont in slots(ist, "all"):
                if is_elem(k, kids):
                    n += 1
                    pk = field(field(cont, "parent"), "key")
                    okk = okk and (pk.op != "." and "new()" in show(pk)) and field(cont, "value").op == "." and field(cont, "children").op == "."
            there = [x for k, x in ist.facts.items() if k[0] == "d" and k[1].op == "get" and is_elem(k[1].a[1], kids)]
            if not there or ("Some" in there and not [k for k, _, _ in slots(ist, "all") if is_elem(k, kids)]):
                okk = False
        seen.append(okk)
    R.ob("children-orphans", w, any(seen), f"a child of the removed entry keeps it as its parent\n{text}")


@rule("M04", MV)
def cleared(R):
    """Every path of clearing must end, on success, with the database's tree cleared and the entries, the order, the tips and the roots empty, and on failure report it; destroying must drop the multiverse's own tree. The queries must say what the
    entries say: the value under a key, whether one is there, how many, whether none, and all the tips."""
    names(R)
    f = fn(R, "clear")
    me = mk("*", mk("arg", "self"))
    if f:
        w = where(f)
        e, rs = R.run(f)
        for s, kind, v in rs or []:
            if kind == "ret" and e.variant_of(s, v) == "Ok":
                new = selfs(s, f, e)
                cl = tree_calls(s.events(), "clear")
                R.ob("disk", w, any(e.variant_of(s, x[3]) == "Ok" and x[2][0] is field(me, "tree") for x in cl), f"the records stay\n{path_text(s, v)}")
                for x in FIELDS:
                    R.ob("memory", w, new[x].op == "empty", f"{x} becomes {show(new[x])[:200]}\n{path_text(s, v)}")
            elif kind == "ret":
                new = selfs(s, f, e)
                bad = any(new[x].op == "empty" for x in FIELDS) and not all(new[x].op == "empty" for x in FIELDS)
                R.ob("whole-or-nothing", w, not bad, f"half cleared\n{path_text(s, v)}")
    f = fn(R, "destroy")
    if f:
        w = where(f)
        e, rs = R.run(f)
        own = mk("arg", "self")
        for s, kind, v in rs or []:
            if kind == "ret" and e.variant_of(s, v) == "Ok":
                dr = [x for x in s.events() if x[0] == "call" and x[1].endswith("Db::drop_tree")]
                okk = any(e.variant_of(s, x[3]) == "Ok" and any(t.op == "res" and t.a[0].endswith("Tree::name") and t.a[2][0] is field(own, "tree") for t in walk(x[2][1])) for x in dr)
                cl = [x for x in tree_calls(s.events(), "clear") if e.variant_of(s, x[3]) == "Ok"]
                R.ob("dropped", w, okk or bool(cl), f"the multiverse's tree is not dropped\n{path_text(s, v)}", unknown=not dr and not cl and False)
    al = field(me, "all")
    for name in ("contains", "get", "len", "is_empty"):
        f = fn(R, name)
        if not f:
            continue
        w = where(f)
        e, rs = R.run(f)
        for s, kind, v in rs or []:
            if kind != "ret":
                continue
            text = path_text(s, v)
            if name == "len":
                R.ob("len", w, v is length(al), f"the number of entries is {show(v)}\n{text}", unknown=v.op in ("phi", "sel", "res"))
            elif name == "is_empty":
                t = e.truth(s, v)
                R.ob("is-empty", w, v is rel(length(al), "=", ZERO) or v is rel(length(al), "<", c(1)) or (t is not None and e.sign(s, length(al)) <= frozenset("0" if t else "+")), f"empty is {show(v)}\n{text}", unknown=v.op in ("phi", "res"))
            else:
                k = ident(mk("arg", f["params"][1]))
                g = [(q[1], x) for q, x in s.facts.items() if q[0] == "d" and q[1].op == "get" and q[1].a[0] is al and ident(q[1].a[1]) is k]
                if name == "contains":
                    t = e.truth(s, v)
                    okk = (v.op == "isv" and v.a[0].op == "get" and v.a[0].a[0] is al and ident(v.a[0].a[1]) is k and v.a[1] == "Some") or (t is not None and any((x == "Some") == t for _, x in g))
                    R.ob("contains", w, okk, f"contained is {show(v)}\n{text}", unknown=not okk and v.op in ("phi", "res"))
                else:
                    r = e.variant_of(s, v)
                    if r == "None":
                        R.ob("get", w, any(x == "None" for _, x in g), f"no value although the entry may be there\n{text}")
                    else:
                        p = payload(v, "Some")
                        p = e.load(s, e.deref(p)) if p.op == "ref" else p
                        R.ob("get", w, any(x == "Some" and p is field(payload(q, "Some"), "value") for q, x in g), f"{show(p)[:200]} is found\n{text}", unknown=not g)
    f = fn(R, "tips")
    if f:
        w = where(f)
        e, rs = R.run(f)
        tips = field(me, "tips")
        for s, kind, v in rs or []:
            if kind != "ret":
                continue
            ls = [x[1] for x in s.events() if x[0] == "loop"]
            okk = v is tips or (v.op == "coll" and v.a[4 if len(v.a) > 4 else -1] == "exact" and v.a[0] is tips and all(is_elem(x, tips) for x in v.a[1])) or tips_phi(v, ls, tips)
            R.ob("tips", w, okk, f"the tips are {show(v)[:300]}\n{path_text(s, v)}", unknown=not okk and v.op not in ("coll", "phi", "empty"))
# the tips as a copy built by a loop


def tips_phi(v, ls, tips):
    for L in ls:
        for loc, (i, p) in L.phis.items():
            if p is v and i.op == "empty" and L.over is not None and whole(L.over) is tips:
                return bool(L.iters) and all(peel(fin[loc])[0] is p and [(o, is_elem(k, tips)) for o, k, _ in peel(fin[loc])[1]] == [("put", True)] for _, fin, _ in L.iters)
    return False


# ------------------------------------------------------------------ keys on disk


def pieces(t, loops):
    """the parts a byte string is put together from, or None"""
    if t.op == "empty":
        return []
    if t.op == "coll":
        return [t.a[0]] if len(t.a[1]) == 1 and t.a[1][0].op in ("elem", "*") and t.a[-1] == "exact" else None
    if t.op == "phi":
        for L in loops:
            for loc, (i, p) in L.phis.items():
                if p is t and L.over is not None and len(L.iters) == 1:
                    h = pieces(i, loops)
                    x = whole(L.over)
                    fin = L.iters[0][1][loc]
                    if h is None or fin.op != "push" or fin.a[0] is not p or strip(fin.a[1]).op not in ("elem", "E"):
                        return None
                    if x is None or any(y.op == "irev" for y in walk(L.over)):
                        return h + [mk("part", L.over)]
                    return h + [strip(x)]
        return None
    if t.op == "slice":
        h = pieces(strip(t.a[0]), loops)
        return None if h is None else h[:-1] + [mk("part", t)] if h else []
    if t.op == "call" and t.a[0].split("::")[-1] in ("to_be_bytes", "to_le_bytes", "to_ne_bytes"):
        return [t]
    if t.op == "call" and t.a[0].split("::")[-1] == "concat" and t.a[1][0].op in ("array", "list"):
        return [strip(x) for x in t.a[1][0].a[0]]
    if t.op == "push":
        h = pieces(t.a[0], loops)
        return None if h is None else h + [mk("byte", t.a[1])]
    return None


@rule("M05", MV)
def keys(R):
    """The byte string under which an insertion stores and a removal deletes is decomposed into the parts it is built from: both must be the block number as big-endian bytes (so that the database's order is the
    order of block numbers), the same separator, and the whole id; of the entry inserted and of the entry removed."""
    names(R)
    shape = {}
    for name, what in (("insert", "insert"), ("remove", "remove")):
        f = fn(R, name)
        if not f:
            continue
        w = where(f)
        e, rs = R.run(f)
        arg = mk("arg", f["params"][1])
        n = 0
        for s, kind, v in rs or []:
            calls = tree_calls(s.events(), what)
            loops = [x[1] for x in s.events() if x[0] == "loop"]
            for x in calls:
                n += 1
                text = path_text(s, v)
                ps = pieces(strip(x[2][1]), loops)
                R.ob("tree", w, x[2][0] is field(mk("*", mk("arg", "self")), "tree"), f"another tree is used: {show(x[2][0])}\n{text}")
                if ps is None:
                    R.ob("key", w, True, f"a key of another form: {show(x[2][1])[:200]}", unknown=True)
                    continue
                if name == "insert":
                    val, key = arg, id_of(arg)
                else:
                    val = next((field(payload(q[1], "Some"), "value") for q, y in s.facts.items() if q[0] == "d" and q[1].op == "get" and ident(q[1].a[1]) is ident(arg) and y == "Some"), None)
                    key = ident(arg)
                    if val is None:
                        R.ob("key", w, True, "the entry removed is not looked up", unknown=True)
                        continue
                num = field(bn_of(val), "0")
                R.ob("ordered-by-number", w, bool(ps) and ps[0].op == "call" and ps[0].a[0].endswith("to_be_bytes") and ps[0].a[1][0] is num, f"a key begins with {show(ps[0])[:150] if ps else 'nothing'}: the database is not in the order of block numbers, or not those of the entry\n{text}")
                R.ob("whole-id", w, any(ident(p) is key for p in ps), f"a key is made of {[show(p)[:80] for p in ps]}: without the id\n{text}")
                sh = tuple("number" if i == 0 else "id" if ident(p) is key else show(p) for i, p in enumerate(ps))
                shape.setdefault(name, set()).add(sh)
        R.floor(f"keys of {name}", n, 2)
    if len(shape) == 2:
        R.ob("same-key", "multiverse", shape["insert"] == shape["remove"] and len(shape["insert"]) == 1, f"stored under {sorted(shape['insert'])}, deleted under {sorted(shape['remove'])}")


@rule("M06", MV)
def loading(R):
    """Loading is followed path by path: it must go through every record of the domain's tree in the database's order, and each must be decoded and linked into the graph exactly as an insertion
    links it (the same comparison as for an insertion, on one arbitrary record); a record that cannot be read or decoded is an error."""
    names(R)
    f = fn(R, "load_from")
    if not f:
        return
    w = where(f)
    e, rs = R.run(f)
    n = 0
    done = set()
    for s, kind, v in rs or []:
        if kind != "ret" or e.variant_of(s, v) != "Ok":
            continue
        text = path_text(s, v)
        m = payload(v, "Ok")
        tree = field(m, "tree")
        opened = [x for x in s.events() if x[0] == "call" and x[1].endswith("Db::open_tree")]
        okk = any(tree is payload(x[3], "Ok") and strip(x[2][1]) is strip(mk("arg", f["params"][1])) for x in opened)
        R.ob("domain", w, okk, f"records are kept in {show(tree)[:200]}\n{text}", unknown=not opened)
        R.ob("bound", w, field(m, "store_from") is mk("arg", f["params"][2]), f"entries are stored from {show(field(m, 'store_from'))[:100]} on\n{text}")
        loops = [x[1] for x in s.events() if x[0] == "loop" and any(y.op == "phi" for y in [field(m, z) for z in FIELDS]) and any(p is field(m, "all") or p is field(m, "tips") for _, p in x[1].phis.values())]
        if not loops:
            R.ob("loaded", w, any(field(m, x).op != "empty" for x in FIELDS), f"nothing is loaded\n{text}", unknown=any(field(m, x).op != "empty" for x in FIELDS))
            continue
        L = loops[-1]
        src = L.over
        ordd = src is not None and not any(x.op in ("irev", "iskip", "itake", "ifilter", "ifmap", "iwhile", "iother") for x in walk(src))
        fromtree = src is not None and any(x.op == "res" and x.a[0].endswith("Tree::iter") and x.a[2][0] is tree for x in walk(src))
        part = src is not None and any(x.op == "res" and "Tree::" in x.a[0] and x.a[2][0] is tree and any(y.op == "arg" for z in x.a[2][1:] for y in walk(z)) for x in walk(src))
        R.ob("every-record", w, ordd and fromtree and not part, f"records are taken from {show(src)[:200] if src is not None else '-'}\n{text}", unknown=src is None or (ordd and not fromtree and not part))
        if id(L) in done:
            continue
        done.add(id(L))
        phi = {}
        for x in FIELDS:
            phi[x] = field(m, x)
        for ie, fin, ist in L.iters:
            n += 1
            new = {}
            for loc, (i, p) in L.phis.items():
                for x in FIELDS:
                    if p is phi[x]:
                        new[x] = fin[loc]
            for x in FIELDS:
                new.setdefault(x, phi[x])
            vals = [k[1] for k, x in ist.facts.items() if k[0] == "d" and k[1].op in ("call", "res") and "from_slice" in k[1].a[0] and x == "Ok"]
            if len(vals) != 1:
                R.ob("decoded", w, False, f"a record is passed over\n{text}", unknown=len(vals) > 1)
                continue
            el = (vals[0].a[1] if vals[0].op == "call" else vals[0].a[2])[0]
            R.ob("decoded", w, any(t.op == "elem" for t in walk(el)), f"{show(el)[:200]} is decoded\n{text}")
            linked(R, w, e, ist, phi, new, ist, payload(vals[0], "Ok"), text)
    R.floor("ways a record is loaded", n, 2)


@rule("M07", MV)
def best(R):
    """The choice is followed path by path: the block selected must be reached from an entry of the highest block number by exactly the configured number of steps to the parent, none may be selected only when an ancestor is missing or
    nothing is there, and the entries discarded must be all those of the numbers below the selected one less the gap, and no other."""
    names(R)
    f = fn(R, "select_best_block")
    if not f:
        return
    w = where(f)
    me = mk("*", mk("arg", "self"))
    ordered, al = field(me, "ordered"), field(me, "all")
    e, rs = R.run(f)
    n = 0
    for s, kind, v in rs or []:
        if kind != "ret":
            continue
        text = path_text(s, v)
        evs = s.events()
        sel = field(v, "selected")
        k = e.variant_of(s, sel)
        loops = [x[1] for x in evs if x[0] == "loop"]
        ups = [x for x in all_events(evs) if x[0] == "call" and x[1].endswith("Weak::upgrade")]
        if k == "None":
            none = any(x[0] == "exhaust" for x in evs) or any(x[0] == "pick" and x[4] is None for x in evs) or any(e.variant_of(s, x[3]) == "None" for x in ups)
            R.ob("none", w, none, f"no block is selected with no reason\n{text}")
            continue
        if k != "Some":
            R.ob("selected", w, True, f"selected: {show(sel)[:100]}", unknown=True)
            continue
        n += 1
        b = payload(sel, "Some")
        depth = field(mk("as", mk("arg", f["params"][1]), "LongestChain"), "depth")
        gap = field(mk("as", mk("arg", f["params"][1]), "LongestChain"), "age_gap")
        L = next((x for x in loops if any(p is b or p is ident(b) for _, p in x.phis.values())), None)
        if L is None:
            none = ident(b).op == "elem" and not any(t.op == "call" and t.a[0].endswith("successors") for t in walk(ident(b)))
            R.ob("depth", w, e.sign(s, depth) <= frozenset("0") or not none, f"selected: {show(b)[:150]}, whatever the depth\n{text}", unknown=e.sign(s, depth) <= frozenset("0") or not none)
            continue
        loc, (init, phi) = next((l, x) for l, x in L.phis.items() if x[1] is b or x[1] is ident(b))
        t0 = ident(init)
        top = [x for x in evs if x[0] in ("pick", "next") and t0.op == "elem" and x[0] == "pick" and base_of(x[2]) is ordered]
        before = entered(evs, L)[0]
        top = [x for x in top if x in before]
        rev = [x for x in before if x[0] == "next" and x[1].op == "irev" and base_of(x[1]) is ordered]
        fwd = [x for x in before if x[0] == "next" and x[1].op != "irev" and base_of(x[1]) is ordered]
        last = [x for x in top if x[1].endswith("last")]
        odd = [x for x in top if not x[1].endswith("last")]
        okk = bool(last or rev) and not odd and not fwd
        within = t0.op == "elem" and any(t.op == "elem" and t.a[0] is ordered for t in walk(t0.a[0]))
        R.ob("highest", w, okk and within, f"the choice starts from {show(init)[:200]}, not from an entry of the highest number\n{text}", unknown=not okk and not odd and not fwd)
        # steps
        over = L.over
        cnt = None
        if over is not None and over.op == "adt":
            fs = dict(over.a[2])
            cnt = sub(fs["end"], fs["start"]) if "start" in fs and "end" in fs else None
            if cnt is not None and "Inclusive" in over.a[0]:
                cnt = add(cnt, c(1))
        elif over is None:
            cnt = counted(e, s, L, depth)
        whole_way = over is None or through(evs, L)
        R.ob("depth", w, cnt is depth and whole_way, f"{show(cnt) if cnt is not None else show(over) if over is not None else '?'} steps back for a depth of {show(depth)}{'' if whole_way else ', or fewer'}\n{text}", unknown=cnt is None)
        for ie, fin, ist in L.iters:
            nx = ident(fin[loc])
            up = [x for x in ie if x[0] == "call" and x[1].endswith("Weak::upgrade")]
            good = any(nx is payload(x[3], "Some") and parent_of_entry(x[2][0], al, phi) for x in up)
            R.ob("step", w, good, f"a step goes from {show(phi)} to {show(nx)[:200]}\n{text}", unknown=not up and nx.op not in ("elem", "phi"))
        # discarded
        g = [q[1] for q, x in s.facts.items() if q[0] == "d" and q[1].op == "get" and q[1].a[0] is al and (q[1].a[1] is b or ident(q[1].a[1]) is ident(b))]
        found = [q for q in g if s.facts.get(("d", q)) == "Some"]
        dis = field(v, "discarded")
        if not found:
            R.ob("discarded", w, bool(g) and dis.op == "empty", f"discarded: {show(dis)[:200]}\n{text}", unknown=dis.op != "empty")
            continue
        num = field(bn_of(field(payload(found[0], "Some"), "value")), "0")
        bound = [mk("satsub", num, gap), sub(num, gap)]
        discarded(R, w, e, s, dis, ordered, num, gap, bound, loops, text)
    R.floor("selections", n, 2)


def counted(e, s, L, want):
    """the number of rounds of a loop that counts one of its variables down or up by one"""
    for loc, (i, p) in L.phis.items():
        fs = [fin[loc] for _, fin, _ in L.iters]
        if fs and all(x is sub(p, c(1)) for x in fs) and e.sign(s, p) <= frozenset("0-") and all(e.sign(ist, p) <= frozenset("+") for _, _, ist in L.iters):
            return i
        if fs and all(x is add(p, c(1)) for x in fs) and e.sign(s, sub(p, want)) <= frozenset("0+") and all(e.sign(ist, sub(p, want)) <= frozenset("-") for _, _, ist in L.iters):
            return sub(want, i)
    return None


def parent_of_entry(t, al, phi):
    t = strip(t)
    if t.op == "." and t.a[1] == "key":
        t = t.a[0]
    if t.op == "." and t.a[1] == "parent":
        t = t.a[0]
        return any(x.op == "get" and x.a[0] is al and (x.a[1] is phi or ident(x.a[1]) is ident(phi)) for x in walk(t))
    return False


def all_events(evs):
    r = []
    for x in evs:
        r.append(x)
        if x[0] == "loop":
            for it in x[1].iters:
                r += all_events(it[0])
    return r


def discarded(R, w, e, s, dis, ordered, num, gap, bound, loops, text):
    outer = next((L for L in loops if any(p is dis for _, p in L.phis.values())), None)
    if outer is None:
        b = dis.a[0] if dis.op == "coll" else dis
        R.ob("discarded", w, dis.op != "empty", f"nothing is discarded\n{text}", unknown=dis.op != "empty")
        return
    if outer.over is None:
        R.ob("discarded", w, True, "a loop of another form", unknown=True)
        return
    src = base_of(outer.over)
    lim = None
    if src.op == "submap" and src.a[0] is ordered:
        r = src.a[1]
        fs = dict(r.a[2]) if r.op == "adt" else {}
        start = fs.get("start")
        end = fs.get("end")
        if end is not None and end.op == "adt":
            end = dict(end.a[2]).get("0", end)
        if start is not None and start.op == "adt":
            start = dict(start.a[2]).get("0", start)
        inc = "Inclusive" in r.a[0] if r.op == "adt" else False
        low = start is None or start is ZERO
        R.ob("below", w, end is not None and (end in bound or e.sign(s, sub(end, bound[1])) <= frozenset("0")) and not inc and low, f"the numbers {show(r)[:200]} are discarded, not those below the selected one less the gap\n{text}", unknown=end is None and r.op != "adt")
    elif src is ordered:
        lim = True
    else:
        R.ob("discarded", w, True, f"discarded from {show(src)[:100]}", unknown=True)
        return
    loc = next(l for l, (i, p) in outer.phis.items() if p is dis)
    if not through(s.events(), outer):
        sg = [x for x in [sign_vs(e, s, ordered, b) for b in bound] if x] if lim else []
        R.ob("all-below", w, any(x <= frozenset("0+") for x in sg), f"the search for entries below the bound stops early\n{text}", unknown=bool(lim) and not sg)
    R.ob("starts-empty", w, outer.phis[loc][0].op == "empty", f"the discarded start from {show(outer.phis[loc][0])[:100]}\n{text}")
    for ie, fin, ist in outer.iters:
        t = fin[loc]
        if lim:
            key = [x for x in ist.facts if x[0] == "s" and any(y.op == "key" or (y.op == "elem") for y in walk(x[1]))]
            sg = [sign_vs(e, ist, ordered, b) for b in bound]
            below = any(x <= frozenset("-") for x in sg if x)
            notb = any(x <= frozenset("0+") for x in sg if x)
            if t is dis:
                R.ob("all-below", w, notb, f"entries below the bound are passed over\n{text}", unknown=not any(sg))
                continue
            R.ob("below", w, below, f"entries not below the bound are discarded\n{text}", unknown=not any(sg))
        if t is dis:
            R.ob("all-below", w, False, f"entries below the bound are passed over\n{text}")
            continue
        inner = next((x[1] for x in ie if x[0] == "loop" and any(p is t for _, p in x[1].phis.values())), None)
        if inner is None:
            R.ob("all-below", w, False, f"only some entries of a number are discarded: {show(t)[:200]}\n{text}", unknown=t.op not in ("mapupd", "val", ".", "elem", "empty"))
            continue
        iloc = next(l for l, (i, p) in inner.phis.items() if p is t)
        full = inner.over is not None and whole(inner.over) is not None and any(x.op == "elem" and x.a[0] is src for x in walk(whole(inner.over)))
        R.ob("all-below", w, full and inner.phis[iloc][0] is dis, f"entries of a number are passed over: {show(inner.over)[:200] if inner.over is not None else '-'}\n{text}")
        for _, f2, i2 in inner.iters:
            b2, u2 = peel(f2[iloc])
            R.ob("all-below", w, b2 is t and len(u2) == 1 and u2[0][0] == "put" and ident(u2[0][1]).op == "elem", f"an entry is passed over: {show(f2[iloc])[:200]}\n{text}")


def sign_vs(e, st, ordered, b):
    """the known sign of the number at hand less the bound"""
    for k, m in st.facts.items():
        if k[0] != "s":
            continue
        d, ts = lin(k[1])
        ks = [t for t in ts if any(x.op == "elem" and x.a[0] is ordered for x in walk(t))]
        if len(ks) != 1 or ts[ks[0]] not in (1, -1):
            continue
        q = ts[ks[0]]
        rest = c(d)
        for t, n in ts.items():
            if t is not ks[0]:
                rest = add(rest, scale(field(t, "0") if t.op == "adt" and t.a[0].endswith("BlockNumber") else t, n))
        if rest is scale(b, -q):
            return frozenset({"-": "+", "+": "-", "0": "0"}[x] for x in m) if q < 0 else m
    return None


@rule("M08", MV)
def preferred(R):
    """The search for the preferred tip is decided as a loop with its invariant: the tip kept is one of the tips, the number kept is that tip's, every tip is looked at, and a tip replaces the one
    kept exactly when its number is greater (equal ones may go either way); no tip is preferred only when there is none."""
    names(R)
    f = fn(R, "preferred_fork_tip")
    if not f:
        return
    w = where(f)
    me = mk("*", mk("arg", "self"))
    tips, al = field(me, "tips"), field(me, "all")
    e, rs = R.run(f)
    n = 0

    def tip(t):
        return is_elem(t, tips)

    def number(x, st):
        """is term x the number of tip t"""
        return [mk("call", bn_of(ZERO).a[0], (y,)) for y in ()]

    for s, kind, v in rs or []:
        if kind != "ret":
            continue
        text = path_text(s, v)
        k = e.variant_of(s, v)
        evs = s.events()
        if k == "None":
            R.ob("none", w, any(x[0] == "exhaust" and base_of(x[1]) is tips for x in evs) or any(x[0] == "pick" and x[4] is None for x in evs) or e.sign(s, length(tips)) <= frozenset("0"), f"no tip is preferred although there may be some\n{text}")
            continue
        b = payload(v, "Some")
        n += 1
        loops = [x[1] for x in evs if x[0] == "loop"]
        L = next((x for x in loops if any(p is b or p is ident(b) for _, p in x.phis.values())), None)
        if L is None:
            picks = [x for x in evs if x[0] == "pick"]
            least = any("min" in x[1].split("::")[-1] for x in picks)
            R.ob("highest", w, not least and not (ident(b).op == "elem" and not picks), f"the tip preferred is {show(b)[:150]}\n{text}", unknown=not least and not (ident(b).op == "elem" and not picks))
            continue
        loc, (init, phi) = next((l, x) for l, x in L.phis.items() if x[1] is b or x[1] is ident(b))
        R.ob("a-tip", w, tip(init) or init.op == "adt" and init.a[1] == "None", f"the search starts from {show(init)[:150]}\n{text}", unknown=not tip(init))
        R.ob("every-tip", w, L.over is not None and whole(L.over) is tips, f"the search goes through {show(L.over)[:150] if L.over is not None else '-'}\n{text}", unknown=L.over is None)
        # the number that goes with the tip
        num_of = lambda x, st: {t for q in list(st.facts) for t in walk(q[1]) if t.op == "call" and t.a[0] == NAMES.get("block_number") and any(y.op == "get" and y.a[0] is al and ident(y.a[1]) is ident(x) for y in walk(t))}
        mates, was = [], []
        for l2, (i2, p2) in L.phis.items():
            if l2 != loc and is_number_of(i2, init, al):
                was.append(p2)
                if all((fin[loc] is phi and fin[l2] is p2) or is_number_of(fin[l2], fin[loc], al) for _, fin, _ in L.iters):
                    mates.append(p2)
        for ie, fin, ist in L.iters:
            kept = fin[loc] is phi or ident(fin[loc]) is ident(phi)
            if not kept and not tip(fin[loc]):
                R.ob("a-tip", w, False, f"{show(fin[loc])[:150]} is no tip\n{text}", unknown=True)
                continue
            sg = None
            for q, m in ist.facts.items():
                if q[0] != "s":
                    continue
                ts = lin(q[1])[1]
                if len(ts) != 2 or lin(q[1])[0] != 0:
                    continue
                mine = [t for t in ts if is_number_of_tip(t, tips, al)]
                other = [t for t in ts if t in mates or is_number_of(t, phi, al)]
                stale = [t for t in ts if (t in was and t not in mates) or (len(mine) == 2 and not other and not mates and any(y.op == "get" and y.a[0] is al and ident(y.a[1]) is ident(init) for y in walk(t)))]
                if mine and len(stale) == 1:
                    R.ob("number-kept", w, False, f"tips are compared with {show(stale[0])[:100]}, which is not the number of the tip kept\n{text}")
                if len(mine) == 1 and len(other) == 1 and mine[0] is not other[0]:
                    sg = m if ts[mine[0]] > 0 else frozenset({"-": "+", "+": "-", "0": "0"}[x] for x in m)
            if sg is None:
                R.ob("greater", w, False, f"a tip is {'passed over' if kept else 'taken'} whatever its number\n{text}", unknown=not mates)
            else:
                R.ob("greater", w, sg <= (frozenset("-0") if kept else frozenset("0+")), f"a tip with a number {'greater' if kept else 'smaller'} than the one kept is {'passed over' if kept else 'taken'}\n{text}")
    R.floor("preferences", n, 1)


def is_number_of(t, key, al):
    t = strip(t)
    if t.op == "." and t.a[1] == "0":
        t = t.a[0]
    return t.op == "call" and t.a[0] == NAMES.get("block_number") and any(y.op == "get" and y.a[0] is al and ident(y.a[1]).op == ident(key).op and (ident(y.a[1]) is ident(key) or (ident(key).op == "elem" and ident(y.a[1]).a[0] is ident(key).a[0])) for y in walk(t))


def is_number_of_tip(t, tips, al):
    t = strip(t)
    if t.op == "." and t.a[1] == "0":
        t = t.a[0]
    return t.op == "call" and t.a[0] == NAMES.get("block_number") and any(y.op == "get" and y.a[0] is al and is_elem(y.a[1], tips) for y in walk(t))


@rule("M09", MV)
def iteration(R):
    """The iterator's step is followed path by path over its copy of the order: it must take the lowest number, yield the value of an entry of that number's set, take exactly that entry out of the set, and drop a number only when its set is
    exhausted; it ends only when nothing is left. The copy must be the whole order."""
    names(R)
    f = fn(R, "iter")
    me = mk("*", mk("arg", "self"))
    if f:
        w = where(f)
        e, rs = R.run(f)
        for s, kind, v in rs or []:
            if kind == "ret":
                R.ob("whole-order", w, field(v, "tree") is field(me, "ordered") if v.op in ("adt", "upd") else True, f"the iteration is over {show(v)[:200]}\n{path_text(s, v)}", unknown=v.op not in ("adt", "upd"))
    fs = [f for f in R.prog.fns.values() if f["crate"] == MV and f.get("name") == "next" and "DepthOrdered" in f["path"] and "body" in f]
    f = R.one("DepthOrderedIterator::next", fs)
    if not f:
        return
    w = where(f)
    e, rs = R.run(f)
    n = 0
    done = set()
    for s, kind, v in rs or []:
        if kind != "ret":
            continue
        text = path_text(s, v)
        evs = s.events()
        fin = final(s, f, e)
        tree = field(fin, "tree")
        if fin.op not in ("*", "adt", "upd", "arg") or "tree" not in str([x for x in show(fin)]) and False:
            R.undecided(w, "another state")
            continue
        for L in [x[1] for x in evs if x[0] == "loop" and id(x[1]) not in done]:
            done.add(id(L))
            for loc, (i, p) in L.phis.items():
                if loc[1] and loc[1][-1] == ("f", "tree"):
                    for ie, fi, ist in L.iters:
                        b, u = peel(fi[loc])
                        if b is not p:
                            R.ob("dropped-empty", w, False, f"what is left to go through becomes {show(fi[loc])[:200]}\n{text}", unknown=b.op not in ("empty", "."))
                            continue
                        # a number is dropped: its set must be exhausted
                        for op, key, _ in u:
                            sets = [x for x in ie if x[0] == "exhaust" and any(y.op in ("elem", "val") for y in walk(x[1]))]
                            zero = any(q[0] == "s" and m <= frozenset("0") and q[1].op == "len" for q, m in ist.facts.items())
                            R.ob("dropped-empty", w, op == "del" and (bool(sets) or zero), f"a number is dropped with entries left\n{text}")
        k = e.variant_of(s, v)
        if k == "None":
            nothing = e.sign(s, length(tree)) <= frozenset("0") or any(x[0] == "exhaust" for x in evs) or any(q[0] == "d" and q[1].op == "get" and x == "None" for q, x in s.facts.items()) or any(x[0] == "pick" and x[4] is None for x in evs)
            R.ob("end", w, nothing, f"the iteration ends with entries left\n{text}")
            continue
        n += 1
        val = payload(v, "Some")
        val = e.load(s, e.deref(val)) if val.op == "ref" else val
        key = next((ident(t.a[1]) for t in walk(val) if t.op == "get"), None)
        R.ob("value", w, key is not None and val.op == "." and val.a[1] == "value", f"{show(val)[:200]} is yielded\n{text}", unknown=key is None)
        if key is None:
            continue
        R.ob("of-order", w, key.op == "elem" and any(t.op == "elem" for t in walk(key.a[0])), f"the entry yielded, {show(key)[:150]}, is not of a set of the order\n{text}", unknown=key.op != "elem")
        back = any(x[0] == "next" and x[1].op == "irev" and not any(y.op == "val" for y in walk(x[1])) for x in evs) or any(x[0] == "pick" and x[1].endswith("last") for x in evs)
        R.ob("lowest", w, not back, f"the highest number is taken first\n{text}")
        if key.op == "elem":
            # what becomes of the set it came from
            src = key.a[0]
            after = [(r, t) for r, t in s.mem.items() if r.op in ("E", "S") and (peel(t)[0] is src or t.op == "empty") and (r.op == "S" or "val" in str(r.a[-1]))]
            b, u = peel(tree)
            put = net(u)
            after += [(k2, t) for k2, (op, t) in put.items() if op == "put" and isinstance(t, T) and peel(t)[0] is src]
            dropped = [k2 for k2, (op, _) in put.items() if op == "del"]
            okk = any([(o, k2) for o, k2, _ in peel(t)[1]] == [("del", key)] and peel(t)[0] is src for r, t in after)
            if dropped and not okk:
                okk = False
            lone = any(q[0] == "s" and q[1].op == "len" and m <= frozenset("0") for q, m in s.facts.items())
            R.ob("only-that", w, okk and (not dropped or lone), f"the set {show(src)[:100]} of the entry yielded becomes {[show(t)[:150] for _, t in after]}: entries of the same number are lost, or come again\n{text}", unknown=not after and not dropped and b.op not in ("phi", "."))
    R.floor("yields", n, 1)


@rule("M11", MV)
def identity(R):
    """The keys of the graph are compared, hashed and borrowed path by path: equality, hash and borrow must all be those of the key's content, whichever handle holds it; upgrading a parent link gives the very
    key linked, and nothing exactly when no one holds it any more."""
    ER = "EntryRef"
    me, other = mk("*", mk("arg", "self")), mk("*", mk("arg", "other"))
    n = 0
    for f in [f for f in R.prog.fns.values() if f["crate"] == MV and "body" in f and "self" in f and f["self"].get("adt", "").endswith("entry::EntryRef")]:
        w, nm = where(f), f.get("name")
        if nm == "eq" and f.get("trait", "").endswith("PartialEq"):
            e, rs = R.run(f)
            a, b = field(me, "key"), field(mk("*", mk("arg", f["params"][1])), "key")
            for s, kind, v in rs or []:
                if kind == "ret":
                    n += 1
                    t = e.truth(s, v)
                    okk = v is rel(a, "=", b) or v is rel(mk("*", a), "=", mk("*", b)) or (t is not None and any(q[0] == "s" and q[1] in [z for x, y in ((a, b), (mk("*", a), mk("*", b))) for z in (sub(x, y), sub(y, x))] and (m <= frozenset("0")) == t for q, m in s.facts.items()))
                    R.ob("eq", w, okk, f"equal means {show(v)[:200]}\n{path_text(s, v)}", unknown=not okk and v.op in ("phi", "res") and "ptr" not in show(v))
        elif nm == "hash" and f.get("trait", "").endswith("Hash"):
            e, rs = R.run(f)
            for s, kind, v in rs or []:
                if kind == "ret":
                    n += 1
                    hs = [x for x in s.events() if x[0] == "call"]
                    okk = len(hs) == 1 and hs[0][1].endswith("hash") and not any(t.op in ("call", "res") for t in walk(hs[0][2][0])) and ident(hs[0][2][0]) is ident(field(me, "key"))
                    R.ob("hash", w, okk, f"hashed: {[(x[1], show(x[2][0])) for x in hs]}\n{path_text(s, v)}")
        elif nm in ("borrow", "inner"):
            e, rs = R.run(f)
            for s, kind, v in rs or []:
                if kind == "ret":
                    n += 1
                    R.ob("borrow", w, ident(v) is ident(field(me, "key")), f"borrowed: {show(v)}\n{path_text(s, v)}", unknown=v.op == "ref")
    fs = [f for f in R.prog.fns.values() if f["crate"] == MV and "body" in f and f.get("name") == "upgrade" and "EntryWeakRef" in f["path"]]
    for f in fs:
        w = where(f)
        e, rs = R.run(f)
        for s, kind, v in rs or []:
            if kind != "ret":
                continue
            n += 1
            up = [x for x in s.events() if x[0] == "call" and x[1].endswith("Weak::upgrade")]
            k = e.variant_of(s, v)
            r = e.variant_of(s, up[0][3]) if up else None
            R.ob("upgrade", w, bool(up) and k == r and (k == "None" or ident(payload(v, "Some")) is payload(up[0][3], "Some")), f"a link gives {show(v)[:200]}\n{path_text(s, v)}", unknown=not up)
    R.floor("identities", n, 4)


@rule("M12", MV)
def errors(R):
    """For every function of the crate that returns a Result, with the other such functions taken as unknown: on each path that can return Ok, every fallible operation on the database or on the encoding must have been found to
    succeed. Also no path may turn a failure into a record skipped."""
    n = errors_rule(R, (MV,))
    R.floor("fallible steps", n, 6)
