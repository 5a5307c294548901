"""Rules over the UTxO store: the sets per token, the balances and the orders by value move together."""

from core import *
from rules import rule
from rules_core import final
from rules_fraos2 import errors_rule
from rules_multiverse import all_events, entered, ident, is_elem, net, peel, present, through, whole

ST = "dcspark_core"


def ob(R, rule, place, ok, detail="", unknown=False):
    return R.ob(rule, place, ok, detail, unknown=unknown and not ok)


def roles(R):
    """the fields of the store and of its sets, by their types"""
    mut = next((a for a in R.prog.adts.values() if a["path"].endswith("utxo_store::UTxOStoreMut")), None)
    r = {}
    if mut is None:
        return None
    sets = None
    for f in mut["variants"][0]["fields"]:
        ty = f["ty"]
        args = ty.get("args") or []
        if ty.get("adt", "").split("::")[0] == ST:
            r["main"] = f["name"]
            sets = ty["adt"]
        elif len(args) > 1 and args[1].get("adt", "").split("::")[0] == ST:
            r["by"] = f["name"]
        elif len(args) > 1 and "tuple" in args[1]:
            r["dict"] = f["name"]
    a = R.prog.adts.get(sets)
    if a is None:
        return None
    for f in a["variants"][0]["fields"]:
        t = f["ty"]["s"]
        k = "token" if t.endswith("TokenId") else "order" if "BTreeMap<" in t or "OrdMap<" in t else "set" if "Map<" in t else "balance" if "Value<" in t else None
        if k:
            r[k] = f["name"]
    return r if len(r) - ("token" in r) == 6 else None


def chain_len(m):
    n = 0
    while m.op in ("mapupd", "mapdel"):
        m, n = m.a[0], n + 1
    return n


def inside(st, loc, base=None):
    """the values reached in the map at loc; in a map that was moved since, those reached where it was before"""
    moved = loc[0].op == "D" and loc[0].a[0].op == "tmpref" and base is not None
    return [r for r in st.mem if r.op == "S" and r.a[0].op == "ref" and (peel(r.a[1])[0] is base if moved else (r.a[0].a[0], r.a[0].a[1]) == loc)]


def reached(st, loc, key, base=None):
    """[(map, root, content)] of the values reached in the map at loc under the key, oldest first"""
    r = [(root.a[1], root, st.mem[root]) for root in inside(st, loc, base) if ident(root.a[2]) is ident(key)]
    return sorted(r, key=lambda x: chain_len(x[0]))


class Set:
    """one of the sets of the store: what it holds, and how that came from what it held"""

    def __init__(self, N, e, st, before, loc, root):
        self.before = before  # a term, or None for a set made anew
        self.loc = loc  # (root, path) where it is now
        v = e.load(st, loc)
        self.val = v
        g = lambda n: field(v, N[n])
        z = lambda n, d: d if before is None else field(before, N[n])
        self.token = g("token") if "token" in N else None
        self.token0 = z("token", None) if "token" in N else None
        self.dbal = sub(field(g("balance"), "value"), c(0) if before is None else field(z("balance", None), "value"))
        b, ups = peel(g("set"))
        self.set_ok = b.op == "empty" if before is None else b is z("set", None)
        self.ups = ups
        self.set0 = b
        # the order: every key touched, with what happened under it
        o, ou = peel(g("order"))
        self.order0 = o
        self.order_ok = o.op == "empty" if before is None else o is z("order", None)
        self.order = {}
        at = (loc[0], loc[1] + (("f", N["order"]),))
        keys = [k for _, k, _ in ou] + [ident(r.a[2]) for r in inside(st, at, o)]
        d = net(ou)
        for k in keys:
            if k in self.order:
                continue
            op, x = d.get(k, (None, None))
            rs = reached(st, at, k, o)
            if op == "del":
                # what was done to the inner map before it went
                puts = [x for o2, k2, x in ou if o2 == "put" and k2 is k]
                self.order[k] = ("del", peel(rs[-1][2]) if rs else peel(puts[-1]) if puts else None, g("order"))
                continue
            if rs and (op is None or peel(rs[-1][2])[0] is peel(x)[0] or x.op in ("upd",)):
                x = rs[-1][2]
            if x is None:
                continue
            self.order[k] = ("put", peel(x), g("order"))

    def unchanged(self):
        return not self.ups and self.dbal is c(0) and all(o == "put" and not p[1] for o, p, _ in self.order.values())


def amount(k):
    return field(k, "value") if k.op in ("adt", "upd") else mk(".", k, "value") if k.op != "." else field(k, "value")


def is_details(v, d):
    return ident(v) is ident(d)


def total_of(e, st, evs, q, d, toks, main):
    """is q all that the UTxO d has of the token? True, False or None"""
    if q is field(field(d, "value"), "value"):
        sg = [frozenset("0") if t is main else e.sign(st, sub(t, main)) for t in toks]
        if any(x == frozenset("0") for x in sg):
            return True
        # a set that is no more the main token's than any other's
        return False if toks[0].op == "." and toks[0].a[1] == "fingerprint" and toks[0].a[0].op == "elem" else None
    assets = field(d, "assets")
    if q.op == "phi" or q.op == "." and q.a[0].op == "phi":
        part = (lambda x: x) if q.op == "phi" else (lambda x: field(x, q.a[1]))
        for L in [x[1] for x in all_events(evs) if x[0] == "loop"]:
            for loc, (i, p) in L.phis.items():
                if part(p) is not q:
                    continue
                if L.over is None or whole(L.over) is not assets:
                    return False if L.over is not None and any(y is assets for y in sources(L.over)) and any(x.op in ("iskip", "itake") for x in walk(L.over)) else None
                if part(i) is not c(0):
                    return False
                both = set()
                for ie, fin, ist in L.iters:
                    dq = sub(part(fin[loc]), q)
                    el = [x for x in walk(dq) if x.op == "elem" and x.a[0] is assets]
                    fp = [x for x in ist.facts if x[0] == "s"]
                    sg = None
                    for k in fp:
                        for t in toks:
                            for x in walk(k[1]):
                                if x.op == "elem" and x.a[0] is assets and (k[1] is sub(field(x, "fingerprint"), t) or k[1] is sub(t, field(x, "fingerprint"))):
                                    sg = ist.facts[k]
                    if sg is None:
                        return False if dq is not c(0) else None
                    same = sg == frozenset("0")
                    both.add(same)
                    if same and not (len(el) == 1 and dq is field(field(el[0], "quantity"), "value")):
                        return False
                    if not same and dq is not c(0):
                        return False
                return both == {True, False} or None
        return None
    if any(x.op == "." and x.a[1] == "quantity" for x in walk(q)):
        if q.op == "sum" or any(x.op in ("sum", "fold") for x in walk(q)):
            return None
        return False
    if q is c(0) or any(x is field(d, "value") for x in walk(q)):
        return False
    return None


def moved(R, N, w, e, st, evs, U, how, ptr, d, toks, main, text):
    """one set gained or lost exactly that UTxO, in all of its three parts"""
    name = "put" if how > 0 else "del"
    okk = U.set_ok and [(o, k) for o, k, _ in U.ups] == [(name, ident(ptr))]
    if okk and how > 0:
        okk = is_details(U.ups[0][2], d)
    ob(R, "set-" + name, w, okk, f"the set becomes {show(field(U.val, N['set']))[:300]}\n{text}", unknown=not okk and not U.set_ok and U.set0.op not in (".", "empty"))
    q = U.dbal if how > 0 else sub(c(0), U.dbal)
    t = total_of(e, st, evs, q, d, toks, main)
    ob(R, "balance-" + name, w, t, f"the balance changes by {show(U.dbal)[:300]}, not by what the UTxO has of the token\n{text}", unknown=t is None)
    touched = {k: x for k, x in U.order.items() if x[1] is None or x[1][1] or x[0] == "del"}
    if how > 0:
        okk = U.order_ok and len(touched) == 1
        if okk:
            k, (o, p, _) = next(iter(touched.items()))
            okk = o == "put" and amount(k) is q and [(x, y) for x, y, _ in p[1]] == [("put", ident(ptr))] and is_details(p[1][0][2], d)
            b = p[0]
            there = None if U.before is None else e.variant_of(st, mk("get", U.order0, k))
            if okk and b.op == "empty":
                okk = U.before is None or there == "None"
            elif okk:
                okk = b.op == "." and any(x.op == "get" and x.a[0] is U.order0 for x in walk(b))
        ob(R, "order-put", w, okk, f"the order by value becomes {show(field(U.val, N['order']))[:200]} with {[(show(k)[:80], v[0], show(v[1][0])[:80] if v[1] else '') for k, v in touched.items()]}\n{text}", unknown=t is None and not okk)
    else:
        ks = [k for k in U.order if amount(k) is q]
        k0 = adt_key = None
        vac = any(x == "None" for f, x in st.facts.items() if f[0] == "d" and f[1].op == "get" and f[1].a[0] is U.order0 and amount(f[1].a[1]) is q)
        if vac and not touched:
            ob(R, "order-del", w, True)
        else:
            okk = U.order_ok and len(touched) == 1 and len(ks) >= 1
            if okk:
                k, (o, p, _) = next(iter(touched.items()))
                okk = amount(k) is q and p is not None and [(x, y) for x, y, _ in p[1]] == [("del", ident(ptr))] and p[0].op == "."
                if okk and o == "del":
                    okk = emptied(e, st, p[0], ident(ptr))
            ob(R, "order-del", w, okk, f"the order by value becomes {show(field(U.val, N['order']))[:200]} with {[(show(k)[:80], v[0]) for k, v in touched.items()]}\n{text}", unknown=t is None and not okk)


def emptied(e, st, m, k):
    """the path knows that the map is empty without the key"""
    for f, x in st.facts.items():
        if f[0] == "s" and x == frozenset("0"):
            for y in walk(f[1]):
                if y.op == "len" and y.a[0].op == "mapdel" and y.a[0].a[0] is m and ident(y.a[0].a[1]) is k:
                    return True
    return False


def size_sign(st, m, k):
    for f, x in st.facts.items():
        if f[0] == "s":
            for y in walk(f[1]):
                if y.op == "len" and y.a[0].op == "mapdel" and y.a[0].a[0] is m and ident(y.a[0].a[1]) is k:
                    return x
    return None


def token_sets(R, N, e, st, base, now, loc):
    """{token: (set or None when dropped)} of the token sets that changed between two moments"""
    b, ups = peel(now)
    if b is not base:
        return None
    r = {}
    keys = [k for _, k, _ in ups]
    for root in st.mem:
        if root.op == "S" and root.a[0].op == "ref" and (root.a[0].a[0], root.a[0].a[1]) == loc and peel(root.a[1])[0] is base:
            keys.append(ident(root.a[2]))
    d = net(ups)
    for k in keys:
        if k in r:
            continue
        rs = [x for x in reached(st, loc, k) if peel(x[0])[0] is base]
        was = e.variant_of(st, mk("get", base, k))
        for f, x in st.facts.items():
            if was is None and f[0] == "d" and f[1].op == "get" and f[1].a[0] is base and ident(f[1].a[1]) is k:
                was = x
        g = next((f[1] for f in st.facts if f[0] == "d" and f[1].op == "get" and f[1].a[0] is base and ident(f[1].a[1]) is k), mk("get", base, k))
        before = payload(g, "Some") if was != "None" else None
        U = Set(N, e, st, before, (rs[-1][1], ()), None) if rs else None
        if U is None and d.get(k, (None, None))[0] == "put":
            root = mk("D", mk("tmpref", d[k][1]))
            st2 = st.fork()
            st2.mem[root] = d[k][1]
            U = Set(N, e, st2, before, (root, ()), None)
        r[k] = (d.get(k, (None, None))[0], was, U)
    return r


MAINS = "0" * 64


def main_token(R):
    return adt(f"{ST}::token_id::TokenId", None)


def forgets(st, evs, loc, now):
    """a key is taken out of the map on the path"""
    if any(o == "del" for o, _, _ in peel(now)[1]):
        return True
    for x in all_events(evs):
        if x[0] == "loop" and loc in x[1].phis:
            if any(o == "del" for _, fin, _ in x[1].iters for o, _, _ in peel(fin[loc])[1]):
                return True
    return False


def find_main(evs, *more):
    for x in evs:
        for y in x[1:]:
            if isinstance(y, T):
                for z in walk(y):
                    if z.op == "adt" and z.a[0].endswith("TokenId") and MAINS in show(z):
                        return z
            elif isinstance(y, tuple):
                for q in y:
                    if isinstance(q, T):
                        for z in walk(q):
                            if z.op == "adt" and z.a[0].endswith("TokenId") and MAINS in show(z):
                                return z
    return None


def asset_loop(evs, assets):
    return [x[1] for x in evs if x[0] == "loop" and x[1].over is not None and any(y is assets for y in sources(x[1].over))]


def store_fn(R, name):
    fs = [f for f in R.prog.fns.values() if f["crate"] == ST and f.get("name") == name and "UTxOStoreMut::" in f["path"] and "body" in f]
    return R.one(f"UTxOStoreMut::{name}", fs)


@rule("C07", ST)
def inserted(R):
    """every way an insertion of a UTxO ends: refused untouched when its pointer is there, and otherwise in the main set and in the set of each token, once, with all it has of it, in the set, the balance and the order alike"""
    N = roles(R)
    f = store_fn(R, "insert")
    if f is None:
        return
    if N is None:
        return R.undecided("UTxOStoreMut", "its fields are not the main set, the sets by token and the dictionary")
    e, res = R.run(f)
    if res is None:
        return
    me = mk("D", mk("arg", "self"))
    utxo = mk("arg", f["params"][1])
    ptr = field(utxo, "pointer")
    assets = field(utxo, "assets")
    n = {"ok": 0, "err": 0, "asset": 0}
    for s, k, v in res:
        if k == "panic" and sprung(s) is not None:
            ob(R, "no-panic", "dcspark_core::UTxOStoreMut::insert", False, f"panics when {show(sprung(s))[:160]} finds nothing\n{path_text(s, v)}")
        if k != "ret":
            continue
        evs = s.events()
        text = path_text(s, v)
        w = f"dcspark_core::UTxOStoreMut::insert at {at(f['span'])}"
        old = mk("*", mk("arg", "self"))
        new = final(s, f, e)
        was = present(e, s, field(field(old, N["main"]), N["set"]), ident(ptr))
        var = e.variant_of(s, v)
        if var == "Err":
            n["err"] += 1
            ob(R, "refusal", w, was is True, f"a UTxO is refused that is not there\n{text}", unknown=was is None)
            ob(R, "refused-untouched", w, new is old, f"the store changes although the UTxO is refused: {show(new)[:300]}\n{text}")
            continue
        n["ok"] += 1
        ob(R, "duplicate-refused", w, was is False, f"a UTxO is inserted without its pointer being known to be new\n{text}")
        main = find_main(evs)
        if main is None:
            ob(R, "main-token", w, False, f"the main token has no set\n{text}")
            continue
        at0 = (me, (("f", N["main"]),))
        U = Set(N, e, s, field(old, N["main"]), at0, None)
        moved(R, N, w + " (main)", e, s, evs, U, 1, ptr, utxo, [main], main, text)
        # the token sets: before, in and after the loop over the assets
        loc = (me, (("f", N["by"]),))
        loops = asset_loop(evs, assets)
        byn = e.load(s, loc)
        L = next((x for x in loops if loc in x.phis), None)
        if L is None:
            ob(R, "assets", w, bool(loops) and False or e.sign(s, mk("len", assets)) == frozenset("0"), f"the tokens of the UTxO are not recorded\n{text}", unknown=any(x[0] == "loop" for x in evs))
            continue
        ob(R, "assets-all", w, whole(L.over) is assets and through(evs, L), f"not every token of the UTxO is recorded: {show(L.over)[:200]}\n{text}", unknown=whole(L.over) is None and any(x.op not in ("iskip", "itake") for x in walk(L.over) if x.op.startswith("i")) and not any(x.op in ("iskip", "itake") for x in walk(L.over)))
        init, phi = L.phis[loc]
        segs = [(s, field(old, N["by"]), init)]
        if byn is not phi:
            segs.append((s, phi, byn))
        seen = {}
        for st, a, b in segs:
            ts = token_sets(R, N, e, st, a, b, loc)
            if ts is None:
                R.undecided(w, f"the token sets become {show(b)[:200]}")
                continue
            for t, x in ts.items():
                seen.setdefault(t, []).append(x)
        for t, xs in seen.items():
            ob(R, "only-its-tokens", w, t is main, f"the set of {show(t)[:100]} changes\n{text}")
        ob(R, "main-recorded", w, main in seen, f"the main token's set does not get the UTxO\n{text}")
        for op, was_, U in seen.get(main, []):
            if U is None:
                ob(R, "main-recorded", w, False, f"the main token's set goes\n{text}")
                continue
            moved(R, N, w + " (main token)", e, s, evs, U, 1, ptr, utxo, [main], main, text)
            ob(R, "token-name", w, U.token is None or U.token is main or e.sign(s, sub(U.token, main)) == frozenset("0"), f"the set of the main token is named {U.token and show(U.token)[:100]}\n{text}", unknown=U.token is not None and U.token.op not in ("adt", "elem", ".", "undef") )
        dloc = (me, (("f", N["dict"]),))
        for ie, fin, ist in L.iters:
            n["asset"] += 1
            el = [x for y in ie for x in ([z for z in walk(y[2])] if y[0] == "next" and isinstance(y[2], T) else []) if x.op == "E" and x.a[0] is assets]
            fp = None
            for fk in list(ist.facts) + [("x", fin[loc])]:
                for x in walk(fk[1]):
                    if x.op == "." and x.a[1] == "fingerprint" and x.a[0].op == "elem" and x.a[0].a[0] is assets and (not el or any(x.a[0].a[1] is y.a[1] for y in el)):
                        fp = x
            if fp is None:
                ob(R, "asset", w, False, f"a token of the UTxO is passed over\n{text}", unknown=bool(ie) and any(x[0] == "call" for x in ie))
                continue
            ts = token_sets(R, N, e, ist, phi, fin[loc], loc)
            if ts is None:
                R.undecided(w, f"the token sets become {show(fin[loc])[:200]}")
                continue
            ob(R, "only-its-token", w, set(ts) <= {fp}, f"while recording {show(fp)[:80]}, the sets {[show(t)[:80] for t in ts]} change\n{text}")
            op, was_, U = ts.get(fp, (None, None, None))
            it = "\n".join(str(x)[:1] for x in ())
            skip = None
            if was_ != "None":
                g = next((fk[1] for fk in ist.facts if fk[0] == "d" and fk[1].op == "get" and fk[1].a[0] is phi and ident(fk[1].a[1]) is fp), None)
                if g is not None:
                    skip = present(e, ist, field(payload(g, "Some"), N["set"]), ident(ptr))
            if U is None or U.unchanged():
                other = any(fk[0] == "d" and fk[1].op == "get" and fk[1].a[0].op == "phi" and fk[1].a[0] is not phi and ident(fk[1].a[1]) is fp and x == "Some" for fk, x in ist.facts.items()) or any(ident(y) is fp for fk in ist.facts if fk[0] == "b" for y in walk(fk[1]))
                ob(R, "recorded", w, skip is True, f"a token the UTxO has is not recorded\n{text}", unknown=skip is None and other)
                continue
            fresh_set = was_ == "None"
            ob(R, "recorded-once", w, fresh_set or skip is False, f"a UTxO that lists a token twice is recorded twice\n{text}", unknown=not fresh_set and skip is None and any(fk[0] == "d" and fk[1].op == "get" and fk[1].a[0] is not phi and not (dloc in L.phis and fk[1].a[0] is L.phis[dloc][1]) and ident(fk[1].a[1]) is fp for fk in ist.facts))
            moved(R, N, w + " (token)", e, ist, ie, U, 1, ptr, utxo, [fp], main, text)
            ob(R, "token-name", w, U.token is None or U.token is fp or e.sign(ist, sub(U.token, fp)) == frozenset("0"), f"the set of {show(fp)[:80]} is named {U.token and show(U.token)[:100]}\n{text}", unknown=U.token is not None and U.token.op not in ("adt", "elem", ".", "undef"))
            # the dictionary
            dphi = L.phis[dloc][1] if dloc in L.phis else field(old, N["dict"])
            dnow = e.load(ist, dloc)
            db, du = peel(dnow)
            dd = net(du)
            there = present(e, ist, dphi, fp)
            okk = db is dphi and set(dd) <= {fp} and all(o == "put" and field(x, "0") is field(fp.a[0], "policy_id") and field(x, "1") is field(fp.a[0], "asset_name") for o, x in dd.values())
            ob(R, "dictionary", w, okk and (bool(dd) or there is True), f"the dictionary becomes {show(dnow)[:300]}\n{text}", unknown=not okk and dd and all(x is not None and x.op != "adt" and x.op != "tuple" for _, x in dd.values()))
        if dloc in L.phis:
            i0, p0 = L.phis[dloc]
            ob(R, "dictionary-kept", w, i0 is field(old, N["dict"]) and e.load(s, dloc) is p0, f"the dictionary becomes {show(e.load(s, dloc))[:200]}\n{text}")
    R.floor("insertions", n["ok"], 1)
    R.floor("refusals", n["err"], 1)
    R.floor("tokens recorded", n["asset"], 1)


@rule("C08", ST)
def removed(R):
    """every way a removal of a UTxO ends: refused untouched when its pointer is not there, and otherwise gone from the main set and from the set of each of its tokens, with all it had of it, and a set left empty is gone as well"""
    N = roles(R)
    f = store_fn(R, "remove")
    if f is None:
        return
    if N is None:
        return R.undecided("UTxOStoreMut", "its fields are not the main set, the sets by token and the dictionary")
    e, res = R.run(f)
    if res is None:
        return
    me = mk("D", mk("arg", "self"))
    ptr = mk("*", mk("arg", f["params"][1]))
    old = mk("*", mk("arg", "self"))
    m0 = field(old, N["main"])
    n = {"ok": 0, "err": 0, "token": 0}
    for s, k, v in res:
        if k == "panic" and sprung(s) is not None:
            ob(R, "no-panic", "dcspark_core::UTxOStoreMut::remove", False, f"panics when {show(sprung(s))[:160]} finds nothing\n{path_text(s, v)}")
        if k != "ret":
            continue
        evs = s.events()
        text = path_text(s, v)
        w = f"dcspark_core::UTxOStoreMut::remove at {at(f['span'])}"
        new = final(s, f, e)
        was = present(e, s, field(m0, N["set"]), ident(ptr))
        if e.variant_of(s, v) == "Err":
            n["err"] += 1
            ob(R, "refusal", w, was is False, f"a removal is refused although the UTxO is there\n{text}", unknown=was is None)
            kept = all(field(field(new, N["main"]), x) is field(m0, x) or peel(field(field(new, N["main"]), x))[0] is field(m0, x) and all(o == "del" and y is ident(ptr) for o, y, _ in peel(field(field(new, N["main"]), x))[1]) for x in (N["set"], N["balance"], N["order"]))
            kept = kept and field(new, N["by"]) is field(old, N["by"]) and field(new, N["dict"]) is field(old, N["dict"])
            ob(R, "refused-untouched", w, kept, f"the store changes although nothing is removed: {show(new)[:300]}\n{text}")
            continue
        n["ok"] += 1
        ob(R, "known-removed", w, was is True, f"a removal succeeds without the UTxO being known to be there\n{text}")
        det = payload(mk("get", field(m0, N["set"]), next((fk[1].a[1] for fk in s.facts if fk[0] == "d" and fk[1].op == "get" and fk[1].a[0] is field(m0, N["set"])), ptr)), "Some")
        d = mk("*", det)
        U = Set(N, e, s, m0, (me, (("f", N["main"]),)), None)
        main = find_main(all_events(evs))
        if main is None:
            ob(R, "main-token", w, False, f"the main token's set keeps the UTxO\n{text}", unknown=any(x[0] == "loop" for x in evs))
            main = mk("undef", c(0))
        moved(R, N, w + " (main)", e, s, evs, U, -1, ptr, d, [main], main, text)
        ob(R, "dictionary-kept", w, field(new, N["dict"]) is field(old, N["dict"]), f"the dictionary becomes {show(field(new, N['dict']))[:200]}\n{text}", unknown=not forgets(s, evs, (me, (("f", N["dict"]),)), field(new, N["dict"])))
        assets = field(d, "assets")
        loc = (me, (("f", N["by"]),))
        byn = e.load(s, loc)
        Ls = [x[1] for x in evs if x[0] == "loop" and loc in x[1].phis]
        inloop = [L for L in Ls if any(b is assets for b in drawn(e, L.over))]
        if not inloop:
            ob(R, "assets", w, e.sign(s, mk("len", assets)) == frozenset("0"), f"the tokens of the UTxO are not given up\n{text}", unknown=bool(Ls) and all(L.over is None for L in Ls))
            continue
        L = inloop[0]
        part = any(x.op in ("iskip", "itake", "iwhile") for x in walk(L.over))
        ob(R, "assets-all", w, not part and through(evs, L), f"not every token of the UTxO is given up: {show(L.over)[:200]}\n{text}", unknown=not part and not through(evs, L) and any(x.op == "ifilter" for x in walk(L.over)))
        init, phi = L.phis[loc]
        got = set()
        segs = [(s, evs, field(old, N["by"]), init)]
        if byn is not phi or looked(s, phi) is main:
            segs.append((s, evs, phi, byn))
        segs += [(ist, ie, phi, fin[loc]) for ie, fin, ist in L.iters]
        for st, ev, a, b in segs:
            inner = st is not s
            if inner:
                key = looked(st, a)
                if key is None:
                    ob(R, "asset", w, False, f"a token of the UTxO is passed over\n{text}", unknown=any(x[0] in ("call", "loop") for x in ev))
                    continue
                keys = {key}
            elif b is a and looked(st, a) is not main and not [r for r in st.mem if r.op == "S" and peel(r.a[1])[0] is a]:
                continue
            else:
                keys = {main}
            ts = token_sets(R, N, e, st, a, b, loc)
            if ts is None:
                R.undecided(w, f"the token sets become {show(b)[:200]}")
                continue
            ob(R, "only-its-token", w, set(ts) <= keys, f"the sets {[show(t)[:80] for t in ts]} change\n{text}")
            for t in keys:
                n["token"] += 1
                got.add("main" if t is main else "asset" if any(x.op == "elem" and x.a[0] is assets for x in walk(t)) else "other")
                if t is not main and not (t.op == "." and t.a[1] == "fingerprint" and is_elem(t.a[0], assets)):
                    ob(R, "its-token", w, False, f"the set of {show(t)[:100]} is touched\n{text}", unknown=True)
                    continue
                op, wasin, X = ts.get(t, (None, None, None))
                if wasin is None:
                    wasin = {True: "Some", False: "None"}.get(present(e, st, a, t))
                if wasin == "None":
                    ob(R, "no-set", w, op == "del" or X is None and op is None, f"a set appears for {show(t)[:80]}\n{text}")
                    continue
                g = next((fk[1] for fk in st.facts if fk[0] == "d" and fk[1].op == "get" and fk[1].a[0] is a and ident(fk[1].a[1]) is t), None)
                before = payload(g, "Some") if g is not None else None
                if before is None:
                    ob(R, "given-up", w, False, f"the set of {show(t)[:80]} is not looked at\n{text}", unknown=inner)
                    continue
                has = present(e, st, field(before, N["set"]), ident(ptr))
                if has is False:
                    ob(R, "not-there", w, X is None or all(o == "del" for o, _, _ in X.ups) and X.dbal is c(0) and all(o == "put" and not p[1] for o, p, _ in X.order.values()), f"the set of {show(t)[:80]} changes without having the UTxO\n{text}")
                    continue
                if X is None and op == "del":
                    sz = size_sign(st, field(before, N["set"]), ident(ptr))
                    ob(R, "dropped-empty", w, sz == frozenset("0"), f"the set of {show(t)[:80]} goes with what else it holds\n{text}")
                    continue
                if X is None:
                    ob(R, "given-up", w, False, f"the set of {show(t)[:80]} keeps the UTxO\n{text}")
                    continue
                dd = mk("*", payload(mk("get", field(before, N["set"]), ptr), "Some"))
                alt = next((mk("*", payload(fk[1], "Some")) for fk in st.facts if fk[0] == "d" and fk[1].op == "get" and fk[1].a[0] is field(before, N["set"])), dd)
                toks = [t] + ([X.token0] if X.token0 is not None else [])
                if X.token0 is not None and e.sign(st, sub(t, X.token0)) == frozenset("+-"):
                    continue  # a set is named after its token
                off = {e.sign(st, sub(main, y)) == frozenset("0") for y in toks}
                if t is main and X.token0 is not None and e.sign(st, sub(main, X.token0)) <= frozenset("+-"):
                    continue  # the main token's set is named after it
                own = alt if any(y is alt for y in walk(X.dbal)) or any(y is field(alt, "assets") for x in all_events(ev) if x[0] == "loop" and x[1].over is not None for y in walk(x[1].over)) else d
                moved(R, N, w + " (token)", e, st, ev, X, -1, ptr, own, toks, main, text)
                sz = size_sign(st, field(before, N["set"]), ident(ptr))
                if op == "del":
                    ob(R, "dropped-empty", w, sz == frozenset("0"), f"the set of {show(t)[:80]} goes with what else it holds\n{text}")
                else:
                    ob(R, "empty-dropped", w, sz is not None and "0" not in sz, f"a set without UTxOs stays\n{text}", unknown=len(Ls) > 1)
        ob(R, "main-given-up", w, "main" in got, f"the main token's set keeps the UTxO\n{text}")
        ob(R, "assets-given-up", w, "asset" in got, f"the tokens' sets keep the UTxO\n{text}")
    R.floor("removals", n["ok"], 1)
    R.floor("refusals", n["err"], 1)
    R.floor("tokens given up", n["token"], 1)


def sources(it):
    """the collections an iterator draws from"""
    if it is None:
        return []
    return [x.a[0] for x in walk(it) if x.op == "it"]


def drawn(e, it):
    """the collections an iterator draws from, also through lists made of each of their elements"""
    r = sources(it)
    for x in list(r):
        L = e.loops_seen.get(x.a[0]) if x.op == "phi" else None
        if L is not None and L.over is not None and L.iters:
            locs = [loc for loc, (_, p) in L.phis.items() if p is x]
            if locs and all(fin[locs[0]].op == "push" and fin[locs[0]].a[0] is x for _, fin, _ in L.iters):
                r += drawn(e, L.over)
                i = L.phis[locs[0]][0]
                r += [i]
    return r


def looked(st, m):
    """the token whose set an iteration looks at"""
    ks = [ident(fk[1].a[1]) for fk in st.facts if fk[0] == "d" and fk[1].op == "get" and fk[1].a[0] is m]
    ks += [ident(r.a[2]) for r in st.mem if r.op == "S" and peel(r.a[1])[0] is m]
    return ks[0] if ks and all(k is ks[0] for k in ks) else None


def levels(e, st, it, rev=False, n=0):
    """([(collection, backwards)] an iterator goes through from outside in, what it yields); None when it is not known; 'part' when it leaves something out"""
    import models

    site = mk("site", mk("fid", "levels", "x", c(n)), 0)
    o = it.op
    if o == "irev":
        return levels(e, st, it.a[0], not rev, n + 1)
    if o == "iinspect":
        return levels(e, st, it.a[0], rev, n + 1)
    if o == "iclone":
        r = levels(e, st, it.a[0], rev, n + 1)
        return r if r is None or r == "part" or r[1] is None else (r[0], e.load(st, e.deref(r[1])))
    if o in ("ifilter", "ifmap", "iwhile", "iskip", "itake", "iscan", "iother"):
        return "part"
    if o == "it":
        x, mode, kind = it.a
        if x.op == "adt" and x.a[0] == OPT:
            if x.a[1] == "None":
                return ([], None)
            v = payload(x, "Some")
            if mode == "ref":
                v = mk("ref", mk("D", mk("tmpref", v)), ())
            return ([], v)
        if x.op in (".", "val", "elem", "*", "arg", "get", "as"):
            return ([(x, rev)], models.typed_elem(st, x, site, None, kind, mode))
        if x.op == "empty":
            return ([], None)
        return None
    if o in ("imap", "iflat"):
        r = levels(e, st, it.a[0], rev, n + 1)
        if r is None or r == "part" or r[1] is None:
            return r
        outs = [(st, "ret", r[1])]
        if len(it.a) > 1:
            outs = [x for x in e.apply(st, it.a[1], [r[1]], site, None) if x[1] == "ret"]
        if len(outs) != 1:
            return None
        s2, _, v = outs[0]
        if o == "imap":
            return (r[0], v)
        mode = "val"
        if v.op == "ref":
            v, mode = e.load(s2, e.deref(v)), "ref"
        if not models.is_iter(v):
            v = mk("it", v, mode, "seq")
        q = levels(e, s2, v, rev, n + 7)
        if q is None or q == "part":
            return q
        return (r[0] + q[0], q[1])
    return None


def target(e, st, v):
    """what a reference leads to"""
    k = 0
    while v is not None and v.op == "ref" and k < 6:
        v = e.load(st, e.deref(v))
        k += 1
    return v


@rule("C09", ST)
def queries(R):
    """what each query of the store answers: from the main set, or from the set of the token asked for, whole and in the order promised; freezing and thawing keep every part"""
    N = roles(R)
    if N is None:
        return R.undecided("UTxOStore", "its fields are not the main set, the sets by token and the dictionary")
    me = mk("*", mk("arg", "self"))
    n = 0

    def fn(own, name):
        fs = [f for f in R.prog.fns.values() if f["crate"] == ST and f.get("name") == name and f"::{own}::" in f["path"] and "body" in f]
        return R.one(f"{own}::{name}", fs)

    def outcomes(own, name):
        f = fn(own, name)
        if f is None:
            return
        e, res = R.run(f)
        for s, k, v in res or []:
            if k == "panic" and sprung(s) is not None:
                ob(R, "no-panic", f"dcspark_core::{own}::{name}", False, f"panics when {show(sprung(s))[:160]} finds nothing\n{path_text(s, v)}")
            if k == "ret":
                yield f, e, s, v, f"dcspark_core::{own}::{name} at {at(f['span'])}", path_text(s, v)

    by, main = field(me, N["by"]), field(me, N["main"])

    def tok(f):
        return mk("*", mk("arg", f["params"][1]))

    def of_token(e, s, t):
        """(the token's set as looked up, whether it is there)"""
        for fk, x in s.facts.items():
            if fk[0] == "d" and fk[1].op == "get" and fk[1].a[0] is by and ident(fk[1].a[1]) is ident(t):
                return payload(fk[1], "Some"), x == "Some"
        return None, None

    # one answer per token
    for own, name, what in (("UTxOStore", "number_utxos_for_token", "n"), ("UTxOStore", "get_balance_of", "b"), ("UTxOStoreMut", "token_balance", "b")):
        for f, e, s, v, w, text in outcomes(own, name):
            n += 1
            U, there = of_token(e, s, tok(f))
            if U is None:
                b = field(main, N["balance"])
                ob(R, "looked-up", w, False, f"the answer {show(v)[:200]} does not come from the token's set\n{text}", unknown=any(x[0] in ("loop", "call") for x in s.events()))
            elif not there:
                okk = v is c(0) if what == "n" else e.variant_of(s, v) == "None"
                ob(R, "unknown-token", w, okk, f"for a token without a set the answer is {show(v)[:200]}\n{text}")
            else:
                want = mk("len", field(U, N["set"])) if what == "n" else field(field(U, N["balance"]), "value")
                got = v if what == "n" else field(payload(v, "Some"), "value") if e.variant_of(s, v) == "Some" else v
                ob(R, "answer", w, got is want, f"the answer is {show(v)[:300]}, not {show(want)[:200]}\n{text}", unknown=got is not want and any(x.op in ("res", "phi", "sum", "fold") for x in walk(got)))
    # the main set
    for own, name, want in (("UTxOStore", "is_empty", rel(mk("len", field(main, N["set"])), "=", c(0))), ("UTxOStore", "len", mk("len", field(main, N["set"])))):
        for f, e, s, v, w, text in outcomes(own, name):
            n += 1
            ob(R, "answer", w, v is want or e.truth(s, v) is not None and e.truth(s, v) == e.truth(s, want), f"the answer is {show(v)[:200]}, not {show(want)[:200]}\n{text}", unknown=v is not want and any(x.op in ("res", "phi") for x in walk(v)))
    for f, e, s, v, w, text in outcomes("UTxOStoreMut", "balance"):
        n += 1
        ob(R, "answer", w, field(v, "value") is field(field(main, N["balance"]), "value"), f"the answer is {show(v)[:200]}\n{text}", unknown=any(x.op in ("res", "phi") for x in walk(v)))
    for f, e, s, v, w, text in outcomes("UTxOStore", "contains"):
        n += 1
        g = mk("get", field(main, N["set"]), tok(f))
        fs = [x for fk, x in s.facts.items() if fk[0] == "d" and fk[1].op == "get" and fk[1].a[0] is field(main, N["set"])]
        t = e.truth(s, v)
        okk = t is None and v.op == "isv" and v.a[0].op == "get" and v.a[0].a[0] is field(main, N["set"]) and v.a[1] == "Some" or t is not None and fs and t == (fs[0] == "Some")
        ob(R, "answer", w, okk, f"the answer is {show(v)[:200]}\n{text}", unknown=not okk and any(x.op in ("res", "phi") for x in walk(v)))
    for f, e, s, v, w, text in outcomes("UTxOStore", "contains_token"):
        n += 1
        t = e.truth(s, v)
        g = [x for x in walk(v) if x.op == "get"]
        fs = [x for fk, x in s.facts.items() if fk[0] == "d" and fk[1].op == "get" and fk[1].a[0] is by]
        is_main = any(fk[0] == "s" and x == frozenset("0") and any(y.op == "." and N.get("token") and y.a[1] == N["token"] or y.op == "adt" and MAINS in show(y) for y in walk(fk[1])) for fk, x in s.facts.items())
        if t is None:
            okk = len(g) == 1 and g[0].a[0] is by and ident(g[0].a[1]) is ident(tok(f)) and v.op == "isv" and v.a[1] == "Some"
        else:
            okk = t == (is_main or fs == ["Some"])
        ob(R, "answer", w, okk, f"the answer is {show(v)[:200]}\n{text}", unknown=not okk and any(x.op in ("res", "phi") for x in walk(v)))
    # what is there under a key
    for name, m in (("get", field(main, N["set"])), ("get_asset_ids", field(me, N["dict"]))):
        for f, e, s, v, w, text in outcomes("UTxOStore", name):
            n += 1
            there = [(fk[1], x) for fk, x in s.facts.items() if fk[0] == "d" and fk[1].op == "get" and fk[1].a[0] is m and ident(fk[1].a[1]) is ident(tok(f))]
            var = e.variant_of(s, v)
            if not there or var is None:
                ob(R, "answer", w, False, f"the answer is {show(v)[:200]}\n{text}", unknown=True)
                continue
            okk = var == there[0][1]
            if okk and var == "Some":
                okk = ident(target(e, s, payload(v, "Some"))) is ident(payload(there[0][0], "Some"))
            ob(R, "answer", w, okk, f"the answer is {show(v)[:200]}\n{text}")
    # what is gone through
    for name, kind, backwards in (
        ("iter", "main", None),
        ("iter_ordered_by_wmain", "main-order", False),
        ("iter_token", "token", None),
        ("iter_token_ordered_by_value", "token-order", False),
        ("iter_token_ordered_by_value_rev", "token-order", True),
    ):
        for f, e, s, v, w, text in outcomes("UTxOStore", name):
            n += 1
            v = target(e, s, v)
            L = levels(e, s, v)
            if kind.startswith("token"):
                U, there = of_token(e, s, tok(f))
                if U is None:
                    gs = [x for x in walk(v) if x.op == "get"]
                    ob(R, "looked-up", w, False, f"goes through {show(v)[:200]}, not through the token's set\n{text}", unknown=not (L not in (None, "part") and L[0]))
                    continue
            else:
                U, there = main, True
            if L is None:
                R.undecided(w, f"goes through {show(v)[:300]}")
                continue
            if L == "part":
                ob(R, "whole", w, False, f"something may be left out: {show(v)[:300]}\n{text}")
                continue
            if not there:
                ob(R, "unknown-token", w, L[1] is None, f"for a token without a set it goes through {show(v)[:200]}\n{text}")
                continue
            if L[1] is None:
                ob(R, "gone-through", w, False, f"nothing is gone through\n{text}")
                continue
            if kind.endswith("order"):
                okk = len(L[0]) == 2 and L[0][0][0] is field(U, N["order"])
                ob(R, "gone-through", w, okk, f"goes through {[show(x)[:120] for x, _ in L[0]]}\n{text}", unknown=not okk and not L[0])
                if okk:
                    ob(R, "direction", w, L[0][0][1] is backwards, f"goes through the order {'backwards' if L[0][0][1] else 'forwards'}\n{text}")
                    x = L[0][1][0]
                    ob(R, "same-value", w, x.op == "val" and x.a[0].op == "elem" and x.a[0].a[0] is L[0][0][0], f"under a value it goes through {show(x)[:200]}\n{text}")
                    leaf = ident(target(e, s, L[1]))
                    ob(R, "item", w, leaf.op == "val" and leaf.a[0].op == "elem" and leaf.a[0].a[0] is x, f"yields {show(leaf)[:200]}\n{text}")
            else:
                okk = len(L[0]) == 1 and L[0][0][0] is field(U, N["set"])
                ob(R, "gone-through", w, okk, f"goes through {[show(x)[:120] for x, _ in L[0]]}\n{text}")
    # freeze and thaw
    for own, name, gives in (("UTxOStore", "thaw", "UTxOStoreMut"), ("UTxOStoreMut", "freeze", "UTxOStore")):
        for f, e, s, v, w, text in outcomes(own, name):
            n += 1
            src = me if f["inputs"][0].get("ref") is not None else mk("arg", "self")
            for x in ("main", "by", "dict"):
                a, b = field(v, N[x]), field(src, N[x])
                same = a is b or x == "main" and all(field(a, N[y]) is field(b, N[y]) for y in ("set", "balance", "order"))
                ob(R, "kept", w, same, f"the {N[x]} become {show(a)[:200]}\n{text}", unknown=not same and a.op in ("res", "phi", "coll"))
    R.floor("answers", n, 18)


NARROW = {"u8", "u16", "u32", "i8", "i16", "i32", "i64", "isize", "f32", "f64", "bool", "char"}


def last_name(t):
    return t.a[0].split("::")[-1].split("<")[0]


def parsed_as(R, e):
    """the types texts are parsed as in the functions just gone through"""
    r = set()
    for i in e.funcs:
        f = R.prog.fns.get(i)
        for b in (f or {}).get("body", {}).get("blocks", []):
            t = b["t"]
            if t.get("t") == "call" and t["fn"].get("id", "").endswith("::parse"):
                r.add(t["fn"]["targs"][0])
            elif t.get("t") == "call" and t["fn"].get("id", "").endswith(("FromStr::from_str", "::from_str_radix")):
                r.add(t["fn"]["self"]["s"])
    return r


@rule("C06", ST)
def deserialized(R):
    """the visitors that read counters and amounts: what they accept is the number read, converted by the type's own conversion, from a number and from a text alike, and each type reads itself with its visitor; parsing a counter from text keeps the number"""
    n = 0
    for f in R.prog.fns.values():
        if f["crate"] != ST or "body" not in f or f.get("trait") != "serde::de::Visitor" or f.get("derived") or "::__" in f["path"] or not (f.get("name") or "").startswith("visit_"):
            continue
        big = "BigDecimalVisitor" in f["path"]
        n += 1
        e, res = R.run(f)
        w = f"{f['path']} at {at(f['span'])}"
        text_in = f["name"] in ("visit_str", "visit_string", "visit_borrowed_str")
        if text_in:
            ts = parsed_as(R, e)
            want = "BigDecimal" if big else "u64"
            ob(R, "parsed-as", w, any(want in t for t in ts), f"the text is read as {sorted(ts)}, not as {want}", unknown=not any(t in NARROW for t in ts))
        for s, k, v in res or []:
            text = path_text(s, v)
            if k == "panic":
                ob(R, "no-panic", w, False, text)
                continue
            var = e.variant_of(s, v)
            arg = mk("arg", f["params"][1])
            if var is None:
                # handed on whole to the type's conversion
                var = "Ok" if v.op in ("call", "res") else None
            if var is None:
                R.undecided(w, f"the answer is {show(v)[:200]}")
                continue
            if var == "Ok":
                x = payload(v, "Ok") if v.op == "adt" else v
                src = mk("*", arg) if text_in else arg
                ts = list(walk(x))
                parse = [t for t in ts if t.op == "call" and (t.a[0].endswith("parse") or t.a[0].endswith("from_str"))]
                lossy = [t for t in ts if t.op in ("cast", "bin", "lin", "mul", "sum", "satadd", "satsub", "min", "max", "neg")]
                inner = parse[0] if parse else None
                okk = (inner is not None) if text_in else not parse
                okk = okk and any(ident(t) is ident(src) for t in ts)
                if okk and text_in and inner.a[-1]:
                    # the whole text is parsed
                    part = [t for t in walk(inner.a[-1][0]) if t.op == "call" and last_name(t).startswith(("trim", "split", "strip_", "get", "index"))]
                    okk = not part
                    lossy = lossy + part
                signed = f["name"] in ("visit_i64", "visit_i32", "visit_i128") and not big and e.sign(s, arg) & frozenset("-") and lossy
                ob(R, "the-number", w, okk and not lossy and not signed, f"accepts {show(x)[:300]}\n{text}", unknown=not lossy and not signed and any(t.op in ("phi", "res", "sel") for t in ts))
            else:
                failed = [fk for fk, x in s.facts.items() if fk[0] == "d" and x == "Err"]
                ob(R, "refusal", w, bool(failed), f"refuses a number that reads and converts\n{text}", unknown=f["name"] not in ("visit_u64", "visit_str"))
    # each type reads itself with its visitor
    m = 0
    for f in R.prog.fns.values():
        if f["crate"] != ST or "body" not in f or f.get("derived") or f.get("name") != "deserialize" or "Deserialize" not in (f.get("trait") or "") or "::__" in f["path"]:
            continue
        own = f["self"]["s"]
        big = "value::Value" in own
        if not any(own.endswith(x) for x in ("BlockNumber", "SlotNumber", "Timestamp")) and not big:
            continue
        m += 1
        e, res = R.run(f)
        w = f"{f['path']} at {at(f['span'])}"
        for s, k, v in res or []:
            ts = list(walk(v))
            cs = [t for t in ts if t.op in ("call", "res") and "deserialize" in str(t.a[0])]
            mine = [t for t in ts if t.op == "adt" and t.a[0].endswith("BigDecimalVisitor" if big else "NumberVisitor")]
            anyof = [t for t in cs if str(t.a[0]).endswith("deserialize_any")]
            ob(R, "reads-itself", w, bool(anyof and mine), f"reads {show(v)[:200]}", unknown=not (cs and not anyof and mine))
    # text forms
    q = 0
    for f in R.prog.fns.values():
        if f["crate"] != ST or "body" not in f or f.get("name") != "from_str" or f.get("trait") != "std::str::FromStr":
            continue
        own = f["self"]["s"]
        if not any(own.endswith(x) for x in ("BlockNumber", "SlotNumber", "Timestamp", "OutputIndex")):
            continue
        q += 1
        e, res = R.run(f)
        w = f"{f['path']} at {at(f['span'])}"
        ts = parsed_as(R, e)
        ob(R, "parsed-as", w, "u64" in ts, f"the text is read as {sorted(ts)}, not as u64", unknown=not any(t in NARROW for t in ts))
        for s, k, v in res or []:
            text = path_text(s, v)
            if k == "panic":
                ob(R, "no-panic", w, False, text)
                continue
            ps = [fk[1] for fk in s.facts if fk[0] == "d" and fk[1].op == "call" and (fk[1].a[0].endswith("parse") or fk[1].a[0].endswith("from_str"))]
            var = e.variant_of(s, v)
            if len(ps) != 1 or var is None:
                R.undecided(w, f"the text's number is not identified: {show(v)[:200]}")
                continue
            was = s.facts[("d", ps[0])]
            part = [t for t in walk(ps[0].a[-1][0] if ps[0].a[-1] else ps[0]) if t.op == "call" and last_name(t).startswith(("trim", "split", "strip_", "get", "index"))] if isinstance(ps[0].a[-1], tuple) else []
            ob(R, "whole text", w, not part, f"the number is read from {show(ps[0])[:160]}")
            ob(R, "kept", w, var == was, f"gives {var} where the text reads {was}\n{text}", unknown=any(x[0] == "if" for x in s.events()) and False)
            if var == "Ok":
                got = payload(v, "Ok")
                ob(R, "kept-number", w, field(got, "0") is payload(ps[0], "Ok"), f"gives {show(got)[:200]}\n{text}")
    for f in R.prog.fns.values():
        if f["crate"] == ST and f.get("name") == "into_unix_time" and "body" in f and f["path"].endswith("Timestamp::into_unix_time"):
            e, res = R.run(f)
            for s, k, v in res or []:
                secs = [t for t in walk(v) if t.op == "call" and "from_secs" in t.a[0]]
                x = field(mk("arg", "self"), "0")
                w = f"{f['path']} at {at(f['span'])}"
                kk, d = lin(v) if k == "ret" else (0, {})
                named = any("from_" in str(t.a[0]) for t in walk(v) if t.op == "call") if k == "ret" else False
                good = k != "ret" or bool(secs) and secs[0].a[0].endswith("from_secs") and x in secs[0].a[-1]
                if good and k == "ret" and len(d) == 2 and secs[0] in d:
                    good = kk == 0 and all(z == 1 for z in d.values())
                ob(R, "unix-time", w, good, f"gives {show(v)[:200]}", unknown=k == "ret" and not named)
    R.floor("visitors", n, 4)
    R.floor("types that read themselves", m, 4)
    R.floor("text forms", q, 4)
