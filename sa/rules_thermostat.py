"""Rules over the thermostat: nothing is made and nothing is lost while it moves value and tokens between its balances, its inputs and its changes.

Each of its methods is followed by itself, the methods it calls taken to keep what they were found to keep; one that does not is followed within its callers. What a method keeps, over everything it does to the purse:

  main   what the main balance, the changes and the extra changes grow by is what the inputs selected bring
  token  by token, what the balance of the token and the changes grow by is what the inputs selected bring
  ins    an input selected is one the estimator is told of
  outs   a change made is one the estimator is told of
  store  an input selected is one the store no longer has"""

from core import *
from rules import rule
from rules_core import final
from rules_store import ob
from ledger import Ledger, Lost, canon, quantity, strip
from rules_multiverse import all_events, through
from rules_select import asked, BAL, CALC, CR, STORE, US, balance, el, facts_of, fn, fns, held, isbal, mainly, named, num, num_of, each, path_text, rounds, worth, yes
from engine import ANY

FIELDS = ("balance", "asset_balance", "changes", "extra_changes", "selected_inputs")
KINDS = ("main", "token", "ins", "outs", "store")


def methods(R):
    return [f for f in R.prog.fns.values() if f["crate"] == CR and f.get("name") and "body" in f and "thermostat::Thermostat" in f["path"] + str(f.get("self")) and (f.get("params") or [None])[0] == "self" and f["inputs"][0].get("ref") and f["kind"] == "AssocFn"]


class Purse:
    def __init__(self, R, f, good, names):
        self.R, self.f, self.good, self.names = R, f, good, names
        self.bad = {k: None for k in KINDS}
        self.memo = {}

    # ---- one level: what is moved by what happens between the loops, and what every round of them moves
    def walk(self, e, st, evs, vals, starts, depth=0):
        """{(kind, context, key, item): times} moved on from `starts` to `vals`"""
        out = {}

        def put(kind, ctx, key, t, n):
            q = (kind, ctx, canon(key) if isinstance(key, T) else key, canon(t))
            out[q] = out.get(q, 0) + n
            if not out[q]:
                del out[q]

        def put_lin(kind, key, d, n=1):
            k, dd = lin(d)
            for t, m in dd.items():
                ctx = ()
                while t.op == "sum":
                    ctx += (("each", canon(t.a[0])),)
                    t = t.a[1]
                put(kind, ctx, key, t, m * n)
            if k:
                put(kind, (), key, ONE, k * n)

        vals = dict(vals)
        # what is written straight into the changes gone through
        for x in evs:
            if x[0] == "next" and isinstance(x[2], T):
                for r in {y for y in walk(x[2]) if y.op == "E"}:
                    v = next((q for p, q in st.mem.items() if p is r), None)
                    if v is None or not r.a[2:] or r.a[2] != "val" and str(r.a[2]) != "val":
                        continue
                    old = mk("val", mk("elem", r.a[0], r.a[1])) if True else None
                    if canon(v) is canon(old):
                        continue
                    if self.field_of(r.a[0]) == "changes":
                        self.entry(put_lin, st, mk("key", mk("elem", r.a[0], r.a[1])), v, old)
                    elif self.field_of(r.a[0]) is not None:
                        raise Lost(f"{show(r)[:100]} becomes {show(v)[:200]}")
        for _ in range(40):
            for n in [n for n in FIELDS if n in vals]:
                vals[n] = self.straight(put, put_lin, st, evs, n, vals[n])
            self.est_straight(put, evs, vals)
            self.store_straight(put, st, vals)
            if all(vals[n] is starts[n] for n in vals):
                return out
            if not self.cross(e, st, evs, vals, starts, put):
                L = self.loop(e, evs, vals, starts, put, depth)
                if L is None:
                    n = next(n for n in vals if vals[n] is not starts[n])
                    if canon(vals[n]) is canon(starts[n]) or canon(strip(vals[n])) is canon(strip(starts[n])):
                        vals[n] = starts[n]
                        continue
                    raise Lost(f"{n} comes from {show(vals[n])[:200]}")
        raise Lost("too long")

    def field_of(self, m):
        for _ in range(30):
            if m.op == "." and m.a[1] in FIELDS:
                return m.a[1]
            if m.op in ("mapupd", "mapdel"):
                m = m.a[0]
            elif m.op == "phi":
                return next((n for n, p in getattr(self, "phis", {}).items() if p is m), None) or ("changes" if "changes" in show(m)[-30:] else None)
            else:
                return None

    # ---- values
    def straight(self, put, put_lin, st, evs, n, v):
        if n == "balance":
            while True:
                if v.op == "mut" and v.a[0].endswith(("add_assign", "sub_assign")):
                    put_lin("main", None, num_of(v.a[3][0]), 1 if v.a[0].endswith("add_assign") else -1)
                    v = v.a[2]
                elif v.op == "res" and v.a[0].split("::")[-1] in ("add", "sub") and len(v.a[2]) == 2:
                    put_lin("main", None, num_of(v.a[2][1]), 1 if v.a[0].split("::")[-1] == "add" else -1)
                    v = strip(v.a[2][0])
                else:
                    return v
        if n == "asset_balance":
            while v.op == "mapupd":
                m, k, x = v.a
                b = x
                while b.op == "mut" and b.a[0].endswith(("add_assign", "sub_assign")):
                    put_lin("token", strip(k), num_of(b.a[3][0]), 1 if b.a[0].endswith("add_assign") else -1)
                    b = b.a[2]
                was = [y for y in walk(b) if y.op == "get" and canon(strip(y.a[1])) is canon(strip(k))]
                new = worth(b) is ZERO or b.op == "adt" and b.a[1] == "Balanced"
                if not (b.op == "." and was or new and self.gone(st, m, k)):
                    if b.op == "res" and b.a[0].split("::")[-1] in ("add", "sub"):
                        put_lin("token", strip(k), num_of(b.a[2][1]), 1 if b.a[0].split("::")[-1] == "add" else -1)
                    else:
                        old = payload(mk("get", m, k), "Some")
                        if st.facts.get(("d", old)) in ("Excess",) and worth(b) is ZERO:
                            put_lin("token", strip(k), num(payload(old, "Excess")), -1)
                        else:
                            raise Lost(f"the balance of {show(k)[:60]} becomes {show(x)[:200]}")
                v = m
            return v
        if n == "changes":
            while v.op == "mapupd":
                m, k, x = v.a
                old = payload(mk("get", m, k), "Some")
                g = [y for y in walk(x) if y.op == "get" and canon(strip(y.a[1])) is canon(strip(k)) and self.under(m, y.a[0])]
                if self.gone(st, m, k):
                    self.entry(put_lin, st, k, x, None)
                    put("outs", (), None, mk("change"), -1)
                elif g or m.op == "mapupd":
                    base = payload(g[0], "Some") if g else old
                    self.entry(put_lin, st, k, x, base)
                else:
                    raise Lost(f"the change of {show(k)[:60]} becomes {show(x)[:200]}, whatever it was")
                v = m
            return v
        if n in ("extra_changes", "selected_inputs"):
            while v.op in ("push", "vpush"):
                x = strip(v.a[1])
                if n == "extra_changes":
                    self.entry(put_lin, st, self.key_of(x), x, None)
                    put("outs", (), None, mk("change"), -1)
                else:
                    put_lin("main", None, num(field(x, "value")), -1)
                    a = field(x, "assets")
                    y = el(a)
                    put("token", (("each", canon(a)),), field(y, "fingerprint"), quantity(y), -1)
                    put("ins", (), None, x, -1)
                    put("store", (), None, field(x, "pointer"), -1)
                v = v.a[0]
            return v
        raise KeyError(n)

    def under(self, m, b):
        while m is not b and m.op == "mapupd":
            m = m.a[0]
        return m is b

    def gone(self, st, m, k):
        if m.op == "empty":
            return True
        k = canon(strip(k))
        for fk, x in st.facts.items():
            if fk[0] == "d" and fk[1].op == "get" and x == "None" and canon(strip(fk[1].a[1])) is k:
                b = m
                while b is not fk[1].a[0] and b.op == "mapupd":
                    b = b.a[0]
                if b is fk[1].a[0]:
                    return True
        return False

    def entry(self, put_lin, st, k, x, old):
        """a change that becomes x"""
        put_lin("main", None, num(field(x, "value")))
        self.tokens(put_lin, st, k, field(x, "assets"), 1)
        if old is not None:
            put_lin("main", None, num(field(old, "value")), -1)
            self.tokens(put_lin, st, k, field(old, "assets"), -1)

    def tokens(self, put_lin, st, k, a, n):
        """the amounts a change holds; it holds one token, its own"""
        k = strip(k) if k is not None else None
        while True:
            if a.op == "empty":
                return
            if a.op in ("push", "vpush"):
                x = strip(a.a[1])
                fp = field(x, "fingerprint")
                if k is None or canon(strip(fp)) is not canon(k) and not self.own(fp, k):
                    raise Lost(f"the change of {show(k)[:60] if k is not None else '?'} holds {show(fp)[:100]}")
                put_lin("token", k, quantity(x), n)
                a = a.a[0]
                if self.none(st, a):
                    return
                continue
            if a.op == "updi" and a.a[1] is ZERO:
                put_lin("token", k, quantity(a.a[2]), n)
                return
            if a.op == "array":
                for x in a.a[0]:
                    put_lin("token", k, quantity(strip(x)), n)
                return
            if self.none(st, a):
                return
            put_lin("token", k, quantity(mk("idx", a, ZERO)), n)
            return

    def own(self, fp, k):
        return self.key_from(fp) is not None and canon(self.key_from(fp)) is canon(k)

    def none(self, st, a):
        return a.op == "empty" or st.facts.get(("d", mk("inrange", a, ZERO))) == "None" or any(fk[0] == "s" and fk[1] is mk("len", a) and x == frozenset("0") for fk, x in st.facts.items())

    def key_of(self, x):
        a = field(x, "assets")
        if a.op in ("push", "vpush"):
            return field(strip(a.a[1]), "fingerprint")
        if a.op == "updi":
            fp = field(a.a[2], "fingerprint")
        else:
            fp = field(mk("idx", a, ZERO), "fingerprint")
        return self.key_from(fp) or fp

    def key_from(self, fp):
        """whose token that is: the key the change stands under"""
        for y in walk(fp):
            if y.op == "val":
                return mk("key", y.a[0])
            if y.op == "get":
                return strip(y.a[1])
        return None

    def est_straight(self, put, evs, vals):
        refused = [x[1] for x in evs if x[0] == "is" and x[2] == "Err" and isinstance(x[1], T) and x[1].op == "res"]
        for n in [n for n in vals if n.startswith("est:")]:
            v = vals[n]
            while v.op == "mut" and not v.a[0].startswith("local:"):
                m = v.a[0].split("::")[-1]
                if any(self.of_call(r, v) for r in refused):
                    pass
                elif m == "add_input":
                    put("ins", (), None, strip(v.a[3][0]), 1)
                elif m == "add_output":
                    put("outs", (), None, mk("change"), 1)
                v = v.a[2]
            vals[n] = v

    def store_straight(self, put, st, vals):
        if "store" not in vals:
            return
        v = vals["store"]
        while True:
            if v.op == "mut" and v.a[0].split("::")[-1] == "remove":
                x = strip(v.a[3][0])
                put("store", (), None, x, 1)
                v = v.a[2]
            elif v.op == "res" and v.a[0].split("::")[-1] in ("thaw", "freeze", "clone") and len(v.a[2]) == 1:
                v = strip(v.a[2][0])
            else:
                vals["store"] = strip(v)
                return

    # ---- back over a method that keeps what it keeps
    def cross(self, e, st, evs, vals, starts, put):
        hit = None
        for n in [n for n in FIELDS if n in vals]:
            v = vals[n]
            if v.op == "." and v.a[0].op == "mut" and v.a[0].a[0].startswith("local:"):
                hit = v.a[0]
                break
        if hit is None:
            for n in vals:
                if n.startswith("est:") and vals[n].op == "mut" and vals[n].a[0].startswith("local:"):
                    hit = vals[n]
                    break
        if hit is None:
            return False
        m = hit.a[0].split("::")[-1]
        if m not in self.good:
            raise Lost(f"{m} is not followed")
        mine = lambda v: v.op == "mut" and v.a[0] == hit.a[0] and self.same_call(v, hit)
        was = next((x[2] for x in evs if x[0] == "is" and isinstance(x[1], T) and x[1].op == "res" and x[1].a[0] == hit.a[0] and self.of_call(x[1], hit)), "Ok")
        was = "Ok" if was not in ("Ok", "Err") else was
        crossed = False
        for n in [n for n in FIELDS if n in vals]:
            v = vals[n]
            if v.op == "." and v.a[1] == n and mine(v.a[0]):
                vals[n] = field(v.a[0].a[2], n)
                crossed = True
        for n in [n for n in vals if n.startswith("est:")]:
            if mine(vals[n]):
                vals[n] = vals[n].a[2]
                crossed = True
        if "store" in vals:
            v = vals["store"]
            if v.op == "." and v.a[1] == "available_utxos" and mine(v.a[0]):
                vals["store"] = field(v.a[0].a[2], "available_utxos")
                self.store_straight(put, st, vals)
            elif v.op == "." and v.a[0].op == "as" and v.a[0].a[0].op == "res" and self.of_call(v.a[0].a[0], hit):
                vals["store"] = strip(self.store_arg(v.a[0].a[0]))
                self.store_straight(put, st, vals)
            elif m in self.stores and was == "Ok":
                put("store", (), None, mk("kept", hit), -1)
        good = self.good[m]
        if was == "Err":
            good = good["err"] if "err" in good else self.err(m)
        for k in KINDS:
            if good.get((k, was), True) is not True:
                put(k, (), None, mk("within", m, was), 1)
        return crossed

    def err(self, m):
        g = self.good[m]
        g["err"] = {}
        r = followed(self.R, self.names[m], {n: q for n, q in self.good.items() if n in callees(self.R, self.names[m], self.names)}, self.names, "Err")[0]
        g["err"] = {(k, "Err"): "?" for k in KINDS} if r is None else r
        return g["err"]

    def store_arg(self, r):
        g = self.names[r.a[0].split("::")[-1]]
        i = next(i for i, t in enumerate(g["inputs"]) if "UTxOStore" in t["s"] and not t.get("ref"))
        return r.a[2][i]

    def same_call(self, a, b):
        x = (a.a[2],) + tuple(a.a[3])
        y = (b.a[2],) + tuple(b.a[3])
        return a is b or {id(q) for q in x} == {id(q) for q in y}

    def of_call(self, r, hit):
        return r.a[0] == hit.a[0] and {id(q) for q in r.a[2]} == {id(q) for q in (hit.a[2],) + tuple(hit.a[3])}

    # ---- back over a loop
    def loop(self, e, evs, vals, starts, put, depth):
        for x in evs[::-1]:
            if x[0] != "loop":
                continue
            L = x[1]
            mine = {}
            for n, v in vals.items():
                for loc, (i, p) in L.phis.items():
                    if v is p:
                        mine[n] = (loc, None, i, p)
                    elif v.op == "." and v.a[0] is p and v.a[1] == n:
                        mine[n] = (loc, n, i, p)
                    elif v is mk("*", p) or strip(v) is p:
                        mine[n] = (loc, None, i, p)
            if not mine:
                continue
            moved = []
            memo = (id(L), tuple((n, q[1]) for n, q in mine.items()))
            if memo in self.memo:
                moved = self.memo[memo][1]
            for ie, fin, ist in L.iters if memo not in self.memo else ():
                v2 = {n: fin[loc] if f is None else field(fin[loc], f) for n, (loc, f, i, p) in mine.items()}
                s2 = {n: p if f is None else field(p, f) for n, (loc, f, i, p) in mine.items()}
                if "store" in vals and "store" not in mine:
                    # the rounds leave it as it is
                    v2["store"] = s2["store"] = vals["store"]
                self.phis = {n: p for n, (loc, f, i, p) in mine.items()}
                moved.append(self.walk(e, ist, ie, v2, s2, depth + 1))
            self.memo[memo] = (L, moved)
            if any(moved):
                over = self.over(L)
                if over is None or any(m != moved[0] for m in moved) or not through(evs, L):
                    m = next(m for m in moved if m)
                    for (k, ctx, key, t), q in m.items():
                        put(k, (("round", L.key),) + ctx, key, t, q)
                else:
                    for (k, ctx, key, t), q in moved[0].items():
                        put(k, (("each", canon(over)),) + ctx, key, t, q)
            for n, (loc, f, i, p) in mine.items():
                vals[n] = i if f is None else field(i, f)
            return L
        # rounds that write into the changes gone through, with nothing else moved
        return None

    def over(self, L):
        if L.over is None or any(z.op in ("iskip", "itake", "iwhile", "ifilter", "ifmap", "iscan", "istep") for z in walk(L.over)):
            return None
        xs = [z.a[0] for z in walk(L.over) if z.op == "it"]
        return xs[0] if len(xs) == 1 else None


def followed(R, f, good, names, only="Ok"):
    """{(kind, Ok|Err): True or what is wrong}, and how many outcomes were looked at"""
    own = f["name"]
    op = [STORE, BAL, CALC, r"::context$|::with_context$"] + [r"thermostat::Thermostat::" + m + "$" for m in good if m != own]
    e, rs = R.run(f, tuple(op))
    res = {}
    n = 0
    P = Purse(R, f, good, names)
    P.stores = {m for m, g in names.items() if any("UTxOStore" in t["s"] and not t.get("ref") for t in g["inputs"]) and "UTxOStore" in g["output"]["s"]}
    me = mk("*", mk("arg", "self"))
    if not rs:
        return None, 0
    for s, kind, v in rs:
        if kind != "ret":
            continue
        was = e.variant_of(s, v) if v.op != "." else e.variant_of(s, v)
        was = was if was in ("Ok", "Err") else "Ok"
        if was != only or was == "Err" and not_there(s, v):
            continue
        n += 1
        now = final(s, f, e)
        vals = {k: field(now, k) for k in FIELDS}
        starts = {k: field(me, k) for k in FIELDS}
        for p, t in zip(f["params"], f["inputs"]):
            if p != "self" and "Estimate" in t["s"] and t.get("ref"):
                a = mk("arg", p)
                vals["est:" + p] = e.load(s, (mk("D", a), ()))
                starts["est:" + p] = mk("*", a)
        i = next((i for i, t in enumerate(f["inputs"]) if "UTxOStore" in t["s"] and not t.get("ref")), None)
        if own in P.stores:
            vals["store"] = payload(v, "Ok") if was == "Ok" else mk("arg", f["params"][i])
            starts["store"] = mk("arg", f["params"][i])
        elif any("store" in str(k) for k in ("x",)) or own in ("select",) or field(now, "available_utxos") is not field(me, "available_utxos"):
            vals["store"] = field(now, "available_utxos")
            starts["store"] = field(me, "available_utxos")
        if "store" in vals:
            vals["store"], starts["store"] = strip(vals["store"]), strip(starts["store"])
        try:
            out = P.walk(e, s, s.events(), vals, starts)
        except Lost as x:
            for k in KINDS:
                res.setdefault((k, was), f"?{x}\n{path_text(s, v)}")
            continue
        for (k, ctx, key, t), m in out.items():
            if k == "store" and "store" not in vals or k in ("ins", "outs") and not any(q.startswith("est:") for q in vals):
                pass
            if res.get((k, was), True) is True or res[(k, was)].startswith("?"):
                res[(k, was)] = f"{m}×{show(t)[:200]}" + (f" of {show(key)[:100]}" if isinstance(key, T) else "") + "".join(f" for each of {show(c_[1])[:100]}" if c_[0] == "each" else " in some rounds" for c_ in ctx) + f"\n{path_text(s, v)}"
    return res, n


def not_there(s, v):
    """fails for what was drawn from the very store it is removed from not being there"""
    for x in s.events():
        if x[0] == "is" and isinstance(x[1], T) and x[1].op == "res" and x[2] == "Err" and x[1].a[0].split("::")[-1] == "remove":
            st, p = x[1].a[2][:2]
            base = st
            while base.op == "res" and base.a[0].split("::")[-1] in ("thaw", "freeze", "clone"):
                base = strip(base.a[2][0])
            for y in walk(p):
                if y.op == "res" and "iter" in y.a[0].split("::")[-1] and strip(y.a[2][0]) is base:
                    return True
    return False


def callees(R, f, names):
    r = set()
    for b in f["body"]["blocks"]:
        t = b.get("t")
        if t and t.get("t") == "call" and isinstance(t.get("fn"), dict):
            n = (t["fn"].get("id") or "").split("::")[-1]
            if n in names and n != f["name"]:
                r.add(n)
    return r


@rule("U07", US)
def conserved(R):
    """thermostat: value and tokens are neither made nor lost in any step, inputs and changes are what the estimator is told of, an input goes from the store once"""
    ms = {f["name"]: f for f in methods(R)}
    if not R.ob("thermostat", "utxo-selection", bool(ms), "the thermostat's methods are not found", unknown=not ms):
        return
    for n in ("select_inputs", "reset", "new", "available_inputs", "set_available_inputs", "set_available_utxos", "get_available_utxos", "fmt", "clone"):
        ms.pop(n, None)
    calls = {n: callees(R, f, ms) for n, f in ms.items()}
    good, results, order = {}, {}, []
    todo = set(ms)
    while todo:
        ready = sorted(n for n in todo if not calls[n] & todo) or sorted(todo)[:1]
        for n in ready:
            todo.discard(n)
            res, k = followed(R, ms[n], good, ms)
            results[n] = res
            order.append(n)
            R.counts["outcomes"] = R.counts.get("outcomes", 0) + k
            if res is not None and not any(x is not True for x in res.values()):
                good[n] = res
    # a method that does not keep what it is to keep is one within its callers
    called = {n for n in ms if any(n in c_ for c_ in calls.values())}
    for n in order:
        w = where(ms[n])
        if n in good:
            for k in KINDS:
                ob(R, k, w, True, "")
            continue
        by = [m for m in ms if n in calls[m]]
        if by and all(m in good for m in by):
            continue
        res = results[n]
        if res is None:
            ob(R, "followed", w, False, "too much to follow", unknown=True)
            continue
        if by and all(results[m] is not None for m in by):
            continue  # told by its callers
        for k in KINDS:
            x = res.get((k, "Ok"), True)
            ob(R, k, w, x is True, str(x), unknown=x is not True and x.startswith("?"))
    R.floor("methods", len(good), 5)
    begin(R, ms, good)


def begin(R, ms, good):
    """what it starts from and what it says in the end"""
    f = fn(R, "select_inputs", "hermostat")
    if not f:
        return
    w = where(f)
    op = [STORE, BAL, CALC, r"::context$|::with_context$"] + [r"thermostat::Thermostat::" + m + "$" for m in good]
    e, rs = R.run(f, tuple(op))
    if rs is None or not rs:
        R.ob("outcomes", w, False, "too much to follow", unknown=True)
        return
    me = mk("*", mk("arg", "self"))
    est = mk("arg", f["params"][1])
    setup = mk("arg", f["params"][2])
    names = {f["name"]: f for f in methods(R)}
    n = 0
    for s, kind, v in rs:
        if kind != "ret" or e.variant_of(s, v) != "Ok":
            continue
        n += 1
        text = path_text(s, v)
        evs = s.events()
        now = final(s, f, e)
        v = payload(v, "Ok")
        # ---- the end
        held_now = {k: field(now, k) for k in FIELDS}
        fixed_in, fixed_out = field(setup, "fixed_inputs"), field(setup, "fixed_outputs")
        ins = [held_now["selected_inputs"], fixed_in]
        outs = [held_now["changes"], held_now["extra_changes"], fixed_out]
        for name, srcs in (("input", ins), ("output", outs)):
            led = Ledger(e, s, evs)
            out, base = led.of("num", num(field(v, name + "_balance")), [ZERO])
            want, wantt = {}, {}
            for src in srcs:
                x = el(src) if src is not held_now["changes"] else mk("val", el(src))
                want[(each(src), None, canon(num(field(x, "value"))))] = 1
                a = field(x, "assets")
                y = el(a)
                wantt[(each(src, a), canon(field(y, "fingerprint")), canon(quantity(y)))] = 1
            held(R, name + "-balance", w, led, out, base, want, [ZERO], text)
            led = Ledger(e, s, evs)
            out, base = led.of("map", field(v, name + "_asset_balance"), [], quantity)
            held(R, name + "-assets", w, led, out, base, wantt, [mk("empty")], text)
            named(R, w, led, text)
        ob(R, "chosen", w, canon(strip(field(v, "chosen_inputs"))) is canon(strip(held_now["selected_inputs"])), f"the inputs chosen are {show(field(v, 'chosen_inputs'))[:300]}\n{text}", unknown=field(v, "chosen_inputs").op in ("phi", "coll"))
        led = Ledger(e, s, evs)
        out, base = led.of("list", field(v, "changes"))
        want = {}
        for src in outs[:2]:
            x = el(src) if src is not held_now["changes"] else mk("val", el(src))
            want[(each(src), None, canon(x))] = 1
        held(R, "changes", w, led, out, base, want, [mk("empty")], text)
        for q in ("fixed_inputs", "fixed_outputs"):
            ob(R, "passed-on", w, canon(field(v, q)) is canon(field(setup, q)), f"{q} becomes {show(field(v, q))[:200]}\n{text}", unknown=field(v, q).op in ("phi", "coll", "res"))
        # ---- the fee is what is left, and it is enough
        fee = num(field(v, "fee"))
        bal = held_now["balance"]
        d = next((x for k, x in s.facts.items() if k == ("d", bal)), None)
        left = {"Excess": num(payload(bal, "Excess")), "Balanced": ZERO}.get(d)
        ob(R, "fee", w, left is not None and (fee is left or canon(fee) is canon(left)), f"the fee is {show(fee)[:200]}, what is left being {show(bal)[:200]} ({d})\n{text}", unknown=d is None and fee.op == "res")
        paid(R, w, e, s, bal, e.load(s, (mk("D", est), ())), text)
        # ---- the start
        P = Purse(R, f, good, ms)
        P.stores = ()
        starts = dict(held_now)
        estv = {"est": e.load(s, (mk("D", est), ()))}
        try:
            for _ in range(20):
                m = next((x.a[0] for x in starts.values() if x.op == "." and x.a[0].op == "mut" and x.a[0].a[0].startswith("local:")), None)
                if m is None:
                    break
                starts = {k: field(m.a[2], k) if x.op == "." and x.a[0] is m else x for k, x in starts.items()}
                outp = field(m.a[2], "outputs")
        except Exception as x:  # noqa
            raise
        led = Ledger(e, s, evs)
        b = worth(starts["balance"])
        want = sub(num(field(setup, "input_balance")), num(field(setup, "output_balance")))
        ob(R, "start-balance", w, b is not None and canon(b) is canon(want), f"it starts from {show(starts['balance'])[:300]}\n{text}", unknown=b is None and starts["balance"].op in ("phi", "res", "."))
        led = Ledger(e, s, evs)
        out, base = led.of("map", starts["asset_balance"], [], balance)
        want = {}
        for io, k in (("input", 1), ("output", -1)):
            src = field(setup, io + "_asset_balance")
            x = mk("val", el(src))
            want[(each(src), canon(mk("key", el(src))), canon(quantity(x)))] = k
        held(R, "start-tokens", w, led, out, base, want, [mk("empty")], text)
        for q in ("changes", "extra_changes", "selected_inputs"):
            x = starts[q]
            ob(R, "start-" + q, w, x.op == "empty", f"it starts with the {q} being {show(x)[:200]}\n{text}", unknown=x.op in ("phi", "res"))
    R.floor("successes", n, 1)


def paid(R, w, e, s, bal, est, text):
    """what is left is no less than the fee the estimator asks for what was made of the transaction"""
    okk = None
    for q, a, no in asked(s, "in_debt", "balanced", "in_excess"):
        b = strip(a[0]) if a else None
        if b is not None and b.op == "res" and b.a[0].split("::")[-1] == "sub" and strip(b.a[2][0]) is strip(bal):
            y = strip(b.a[2][1])
            asked_ = [z for z in walk(y) if z.op in ("call", "res") and z.a[0].split("::")[-1] == "min_required_fee"]
            if asked_ and y is payload(asked_[0], "Ok"):
                a = asked_[0].a[1] if asked_[0].op == "call" else asked_[0].a[2]
                if strip(a[0]) is strip(est):
                    no = yes(no)
                    okk = okk or (q == "in_debt" and not no) or (q != "in_debt" and no)
    ob(R, "fee-paid", w, okk is True, f"success, whether or not what is left pays the fee for the transaction as it is\n{text}")


# ------------------------------------------------------------------ enough of every token, and none left over


def toks(f):
    """the parameters that say which token"""
    return [p for p, t in zip(f["params"], f["inputs"]) if "TokenId" in t["s"]]


def at_key(st, m, k):
    """what stands under that key"""
    while m.op == "mapupd":
        if canon(strip(m.a[1])) is canon(strip(k)):
            return m.a[2]
        m = m.a[0]
    return payload(mk("get", m, k), "Some")


def seen(evs, v):
    """{what it is known to be: bool}"""
    r = {}
    for x in evs:
        if x[0] == "is" and x[1] is v:
            r[x[2]] = True
        elif x[0] == "isnot" and x[1] is v:
            for q in x[2]:
                r[q] = False
        elif x[0] == "if" and isinstance(x[1], T) and x[1].op == "res" and x[1].a[0].split("::")[-1] in ("in_debt", "in_excess") and x[1].a[2] and strip(x[1].a[2][0]) is v:
            r["Debt" if x[1].a[0].endswith("in_debt") else "Excess"] = yes(x[2])
    return r


def not_what(s, v, what, evs=None):
    """known not to be in debt, or not in excess"""
    evs = s.events() if evs is None else evs
    if worth(v) is ZERO:
        return True
    if v.op == "mut" and v.a[0].endswith("sub_assign"):
        old = v.a[2]
        if seen(evs, old).get("Excess") and canon(num_of(v.a[3][0])) is canon(num(payload(old, "Excess"))):
            return True
    if v.op == "res" and v.a[0].split("::")[-1] == "sub" and len(v.a[2]) == 2:
        old = strip(v.a[2][0])
        if seen(evs, old).get("Excess") and canon(num_of(v.a[2][1])) is canon(num(payload(old, "Excess"))):
            return True
    k = seen(evs, v)
    other = {"Debt": ("Excess", "Balanced"), "Excess": ("Debt", "Balanced")}[what]
    return k.get(what) is False or any(k.get(o) for o in other)


def token_writes(evs, now, me):
    """[(what was, key, what is now)] of every write to the tokens' balances, in rounds too"""
    def down(v):
        while v.op == "mapupd":
            yield v.a[0], v.a[1], v.a[2]
            v = v.a[0]

    yield from ((None, x) for x in down(now))
    for ie, fin, ist, L in rounds(evs):
        for loc, v in fin.items():
            for m in (v, field(v, "asset_balance") if v.op == "upd" else v):
                yield from ((ist, x) for x in down(m))


@rule("U08", US)
def token_cover(R):
    """thermostat: every token asked for is had in full, no other token is drawn in, and what is left of any token goes to a change"""
    ms = {f["name"]: f for f in methods(R)}
    if not R.ob("thermostat", "utxo-selection", bool(ms), "the thermostat's methods are not found", unknown=not ms):
        return
    sel = ms.get("select")
    for n in ("select_inputs", "reset", "new", "available_inputs", "set_available_inputs", "set_available_utxos", "get_available_utxos", "fmt", "clone", "select"):
        ms.pop(n, None)
    calls = {n: callees(R, f, ms) for n, f in ms.items()}
    base_op = [STORE, BAL, CALC, r"::context$|::with_context$"]
    settles, gives, draws, told = {}, {}, {}, {}
    todo = set(ms)
    order = []
    while todo:
        ready = sorted(n for n in todo if not calls[n] & todo) or sorted(todo)[:1]
        order += ready
        todo -= set(ready)
    me = mk("*", mk("arg", "self"))
    followed_ = []
    for n in order:
        f = ms[n]
        w = where(f)
        # a method without a token of its own that only puts an input away is followed where it is called
        small = not toks(f) and any("UTxODetails" in t["s"] and "Store" not in t["s"] for t in f["inputs"][1:]) and not any("UTxOStore" in t["s"] for t in f["inputs"])
        if small:
            continue
        e, rs = R.run(f, tuple(base_op + [r"thermostat::Thermostat::" + m + "$" for m in followed_]))
        if rs is None:
            R.ob("followed", w, False, "too much to follow", unknown=True)
            continue
        followed_.append(n)
        good = [(s, v) for s, kind, v in rs if kind == "ret" and e.variant_of(s, v) != "Err"]
        R.counts["outcomes"] = R.counts.get("outcomes", 0) + len(good)
        for s, kind, v in rs:
            offer_kept(R, w, e, s, f, v, me)
        ts = toks(f)
        for t in ts:
            k = mk("arg", t)
            res = []
            for s, v in good:
                bs = [at_key(s, field(final(s, f, e), "asset_balance"), q) for q in (k, mk("*", k))]
                res.append(tuple(any(not_what(s, b, x) for b in bs) for x in ("Debt", "Excess")))
            if res and all(a for a, b in res):
                settles.setdefault(n, f["params"].index(t))
            if res and all(b for a, b in res):
                gives.setdefault(n, f["params"].index(t))
        for s, v in good:
            now = final(s, f, e)
            evs = s.events()
            text = path_text(s, v)
            # never into debt
            for ist, (m, k, x) in token_writes(evs, field(now, "asset_balance"), me):
                if not isbalance(x):
                    continue
                st = ist or s
                up = x
                while up.op == "mut" and up.a[0].endswith("add_assign") or up.op == "res" and up.a[0].split("::")[-1] == "add":
                    up = up.a[2] if up.op == "mut" else strip(up.a[2][0])
                keeps = up.op == "." and up.a[0].op == "as" or worth(up) is ZERO or not_what(st, up, "Debt") or up.op == "res" and up.a[0].split("::")[-1] in ("zero", "default")
                ob(R, "kept", w, keeps, f"the balance of {show(k)[:100]} becomes {show(x)[:300]}\n{text}", unknown=up.op in ("phi", "sel"))
            # what is drawn
            for x in drawn(evs, field(now, "selected_inputs")):
                src = [y for y in walk(x) if y.op == "res" and "iter" in y.a[0].split("::")[-1] and re.search(STORE, y.a[0])]
                okk = len(src) == 1 and strip(src[0].a[2][0]).op == "arg"
                ob(R, "from-offer", w, okk, f"selects {show(x)[:300]}\n{text}", unknown=len(src) != 1 and x.op in ("phi", "res", "sel"))
                tok = strip(src[0].a[2][1]) if okk and len(src[0].a[2]) > 1 else None
                only = tok is not None and only_that(evs, s, x, tok)
                ob(R, "only-that-token", w, only, f"selects {show(x)[:200]}, which may hold other tokens than {show(tok)[:100] if tok is not None else '?'}\n{text}", unknown=tok is None)
                draws.setdefault(n, set()).add(tok)
        for m in calls[n] & set(draws):
            for s, v in good:
                for y in all_events(s.events()):
                    if y[0] == "call" and isinstance(y[1], str) and y[1].split("::")[-1] == m:
                        for t in draws[m]:
                            i = ms[m]["params"].index(t.a[0]) if t is not None and t.op == "arg" and t.a[0] in ms[m]["params"] else None
                            draws.setdefault(n, set()).add(strip(y[2][i]) if i is not None else t)
    R.floor("drawing", len(draws), 1)
    if not sel or not draws:
        return
    w = where(sel)
    e, rs = R.run(sel, tuple(base_op + [r"thermostat::Thermostat::" + m + "$" for m in followed_]))
    if not rs:
        R.ob("followed", w, False, "too much to follow", unknown=True)
        return
    k = 0
    for s, kind, v in rs:
        if kind != "ret" or e.variant_of(s, v) != "Ok":
            offer_kept(R, w, e, s, sel, v, me)
            continue
        k += 1
        text = path_text(s, v)
        evs = s.events()
        settled = gave = False
        stale = None
        if any(sg == frozenset("0") and d is mk("len", field(me, "asset_balance")) for d, sg in facts_of(e, s)):
            continue  # no token is asked for, and none is drawn
        for i, x in enumerate(evs):
            if x[0] == "loop":
                L = x[1]
                fulls = full_over(s, evs, L, me)
                d = [y for ie, fin, ist in L.iters for y in all_events(ie) if foreign(y, draws, ms)]
                here = [order_in(e, ist, fin, ie, settles, gives, draws, ms, L) for ie, fin, ist in L.iters]
                if fulls and here and all(h[0] for h in here):
                    settled = True
                if d:
                    gave, stale = False, d[-1]
                if fulls and here and all(h[1] for h in here):
                    gave = True
            elif foreign(x, draws, ms):
                gave, stale = False, x
        ob(R, "covered", w, settled, f"not every token asked for is had in full\n{text}")
        ob(R, "left-over-returned", w, gave, f"what is left of a token {'drawn by ' + str(stale[1]) if stale else ''} may go to no change\n{text}")
    R.floor("successes", k, 1)


def offer_kept(R, w, e, s, f, v, me):
    """what is offered is what it was, as long as the selection has not succeeded"""
    x = field(final(s, f, e), "available_utxos")
    for _ in range(60):
        if x.op == "." and x.a[0].op == "mut" and x.a[0].a[0].startswith("local:"):
            x = field(x.a[0].a[2], "available_utxos")
            continue
        p = x.a[0] if x.op == "." else x
        i = next((i for y in all_events(s.events()) if y[0] == "loop" for i, q in y[1].phis.values() if q is p), None)
        if i is None:
            break
        x = field(i, "available_utxos") if x.op == "." else i
    ob(R, "failed-untouched", w, x is field(me, "available_utxos"), f"what is offered becomes {show(x)[:200]} before the selection has succeeded\n{path_text(s, v)}", unknown=x.op in ("phi", "sel", "mut"))


def isbalance(x):
    return x.op in ("mut", "res") and "balance" in str(x.a[0]).lower() or x.op == "adt" and x.a[0].endswith("Balance") or x.op == "." and "Balance" in show(x)


def drawn(evs, v):
    """what is put with the selected inputs"""
    while v.op in ("push", "vpush"):
        yield strip(v.a[1])
        v = v.a[0]
    for ie, fin, ist, L in rounds(evs):
        for loc, q in fin.items():
            for m in (q, field(q, "selected_inputs") if q.op == "upd" else q):
                while m.op in ("push", "vpush"):
                    if any(y.op == "res" and "iter" in y.a[0].split("::")[-1] and re.search(STORE, y.a[0]) for y in walk(m.a[1])):
                        yield strip(m.a[1])
                    m = m.a[0]


def only_that(evs, s, x, tok):
    """each of its tokens was compared with the one wanted"""
    a = field(x, "assets")
    want = canon(sub(tok, field(el(a), "fingerprint")))
    neg = canon(sub(field(el(a), "fingerprint"), tok))
    for L in [y[1] for y in evs if y[0] == "loop"]:
        if L.over is None or any(z.op in ("iskip", "itake", "iwhile", "ifilter", "ifmap", "iscan", "istep") for z in walk(L.over)):
            continue
        if not any(z.op == "it" and canon(strip(z.a[0])) is canon(strip(a)) for z in walk(L.over)):
            continue
        if not through(evs, L):
            continue
        if L.iters and all(any(canon(d) in (want, neg) and sg == frozenset("0") for d, sg in facts_of(None, ist)) for ie, fin, ist in L.iters):
            return True
    for d, sg in facts_of(None, s):
        if canon(d) in (want, neg) and sg == frozenset("0") and any(y.op == "elem" and len(y.a) > 1 and y.a[1] is ANY for y in walk(d)):
            return True
        if d is mk("len", a) and sg == frozenset("0"):
            return True
    return False


def foreign(x, draws, ms):
    """a call that may bring in a token other than the main one"""
    if x[0] != "call" or not isinstance(x[1], str) or x[1].split("::")[-1] not in draws or "hermostat" not in x[1]:
        return False
    m = x[1].split("::")[-1]
    for t in draws[m]:
        if t is not None and t.op == "arg" and t.a[0] in ms[m]["params"]:
            t = strip(x[2][ms[m]["params"].index(t.a[0])])
        if t is None or not (mainly(t) or t.op == "." and t.a[1] == "main_token"):
            return True
    return False


def order_in(e, ist, fin, ie, settles, gives, draws, ms, L):
    """(has the round's token in full, gives back what is left of it, after drawing)"""
    settled = gave = False
    for x in ie:
        if x[0] == "loop":
            if any(foreign(y, draws, ms) for y in all_events([x])):
                gave = False
            continue
        if foreign(x, draws, ms):
            gave = False
        if x[0] == "call" and isinstance(x[1], str) and "hermostat" in x[1]:
            m = x[1].split("::")[-1]
            if m in settles and of_round(x[2][settles[m]], L, ie):
                settled = True
            if m in gives and of_round(x[2][gives[m]], L, ie):
                gave = True
    toks_ = [strip(x[2]) for x in ie if x[0] == "next" and x[1] is L.over and isinstance(x[2], T)]
    for k in toks_:
        # once had in full, a token never gets into debt again
        before = [y[2][0] for y in ie if y[0] == "call" and isinstance(y[1], str) and "hermostat" in y[1] and y[2] and isinstance(y[2][0], T)]
        for i, v in enumerate(list(fin.values()) + before):
            m = field(v, "asset_balance") if not v.op.startswith("map") else v
            for q in (k, mk("*", k)) if k.op != "E" else (e.load(ist, (k, ())),):
                b = at_key(ist, m, q)
                settled = settled or not_what(ist, b, "Debt", ie)
                gave = gave or i < len(fin) and not_what(ist, b, "Excess", ie)
    return settled, gave


def of_round(t, L, ie):
    t = strip(t)
    if any(x[0] == "next" and x[1] is L.over and isinstance(x[2], T) and strip(x[2]) is t for x in ie):
        return True
    if t.op == "." and t.a[1] == "main_token":
        return True
    src = [y.a[0] for y in walk(L.over) if y.op == "it"] if L.over is not None else []
    return any(y.op in ("elem", "E") and any(y.a[0] is q or q.op == "coll" and y.a[0] is q.a[0] for q in src) for y in walk(t)) and t.op in ("key", "elem", "E", ".", "*", "val")


def full_over(s, evs, L, me):
    """does the loop go over every token there is a balance of?"""
    if L.over is None or any(z.op in ("iskip", "itake", "iwhile", "ifilter", "ifmap", "iscan", "istep", "izip") for z in walk(L.over)) or not through(evs, L):
        return False
    for y in walk(L.over):
        if y.op != "it":
            continue
        c_ = y.a[0]
        for _ in range(10):
            c_ = strip(c_)
            if c_.op == "mut" and c_.a[0].endswith("Vec::pop"):
                c_ = c_.a[2]
                if c_.op in ("push", "vpush"):
                    c_ = c_.a[0]
                elif not spared(evs, c_):
                    return False
            elif c_.op in ("push", "vpush"):
                c_ = c_.a[0]
            elif c_.op == "coll" and c_.a[-1] == "exact":
                if not (len(c_.a[1]) == 1 and c_.a[1][0].op in ("key", "elem")):
                    return False
                c_ = c_.a[0]
            elif c_.op == "." and c_.a[1] == "asset_balance":
                return True
            else:
                break
    return False


def spared(evs, c_):
    """what is dropped from the end is the main token, or there is nothing to drop"""
    for x in evs:
        if x[0] != "if" or not isinstance(x[1], T) or x[1].op != "rel":
            continue
        d, m = x[1].a
        m = m if yes(x[2]) else dom(d) - m
        if m != frozenset("0"):
            continue
        t = list(walk(d))
        if any(y.op == "." and y.a[1] == "main_token" for y in t) and any(y.op == "idx" or y.op == "res" and y.a[0].split("::")[-1] == "last" for y in t):
            return True
        k, dd = lin(d)
        y = next(iter(dd))
        if k == 0 and len(dd) == 1 and y.op == "len" and (y.a[0] is c_ or y.a[0].op == "." and y.a[0].a[1] == "asset_balance"):
            return True
    return False
