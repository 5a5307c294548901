"""What a value has been given, over all the loops of a path: {(context, key, item): how many times}.

A running total, a map of totals, a list, a store that things are taken from: each is followed backwards from its last value, through what every round of every loop added, to what it was at the start. The context of an
item is what the loops around it go through; loops over a list that was itself built on the path are replaced by what built it."""

from core import *
from rules_multiverse import peel, ident, all_events, through
from engine import anyelem, within  # noqa

SEQ = ("part",)


class Lost(Exception):
    pass


def canon(t):
    """elements whichever loop draws them"""
    for _ in range(20):
        m = {y: mk(y.op, y.a[0], ANY, *y.a[2:]) for y in walk(t) if y.op in ("elem", "E") and len(y.a) > 1 and y.a[1] is not ANY}
        m.update({y: y.a[0] for y in walk(t) if y.op == "*" and isinstance(y.a[0], T) and not any(z.op == "*" for z in walk(y.a[0]))})
        m.update({y: y.a[0] for y in walk(t) if y.op == "sorted" and not any(z.op == "sorted" for z in walk(y.a[0]))})
        if not m:
            return t
        t = subst(t, m)
    return t


def coll_of(over):
    """(collections drawn from, whether all of each is)"""
    if over is None:
        return None
    r = []
    for x in walk(over):
        if x.op in ("iskip", "itake", "iwhile", "iother", "iscan", "istep", "ifilter", "ifmap"):
            return None
        if x.op == "it":
            r.append(x.a[0])
    return r


def chained(v):
    """a list of everything that several collections hold, one after the other"""
    it = v.a[3] if len(v.a) > 3 and isinstance(v.a[3], T) else v.a[0]
    todo, leaves = [it], []
    while todo:
        x = todo.pop()
        if x.op in ("imap", "irev", "iclone", "iinspect"):
            todo.append(x.a[0])
        elif x.op == "ichain":
            todo += x.a[:2]
        elif x.op == "it":
            leaves.append(x.a[0])
        else:
            return None
    r = []
    for src in leaves:
        mine = [x for x in v.a[1] if any(y.op in ("elem", "E") and y.a[0] is src for y in walk(x))]
        if len(mine) != 1:
            return None
        r.append((("each", src), strip(mine[0]), 1))
    return r if len(leaves) > 1 and len(v.a[1]) == len(leaves) else None


class Ledger:
    def __init__(self, e, st, evs):
        self.e, self.st, self.evs = e, st, evs
        self.why = None
        self.partial = []

    # ---- one straight piece: ([(key, item, times)], what it was)
    def step(self, kind, v, st):
        if kind == "num":
            return self.num(v)
        if kind == "map":
            return self.map(v, st)
        if kind == "list":
            return self.lst(v)
        if kind == "mut":
            return self.mut(v)
        raise KeyError(kind)

    def num(self, v):
        k, d = lin(v)
        base, items = None, []
        for t, n in d.items():
            if n == 1 and base is None and (self.is_phi(t) or self.is_start(t)):
                base = t
            else:
                items.append((None, t, n))
        if k:
            items.append((None, ONE, k))
        if base is None and self.is_start(ZERO):
            base = ZERO
        return items, base

    def is_start(self, t):
        return any(t is x for x in self.start)

    def is_phi(self, t):
        while t.op == "." :
            t = t.a[0]
        return t.op == "phi"

    def map(self, v, st):
        items = []
        while v.op in ("mapupd", "mapdel"):
            if v.op == "mapdel":
                raise Lost(f"an entry is dropped: {show(v)[:200]}")
            m, k, x = v.a
            k = strip(k)
            q = self.amount(x)
            d = None
            kk, dd = lin(q)
            for t, n in dd.items():
                g = [y for y in walk(t) if y.op == "get" and strip(y.a[1]) is k]
                if n == 1 and g and self.amount(payload(g[0], "Some")) is t:
                    # what was there in this map, or in this map before something else was put
                    b = m
                    while b is not g[0].a[0] and b.op == "mapupd" and strip(b.a[1]) is not k:
                        b = b.a[0]
                    if b is g[0].a[0]:
                        d = sub(q, t)
            if d is None:
                top = m
                while top.op == "mapupd" and strip(top.a[1]) is not k:
                    top = top.a[0]
                if top.op == "mapupd":
                    d = sub(q, self.amount(top.a[2]))
                elif self.absent(st, m, k) or top.op == "empty":
                    d = q
                else:
                    raise Lost(f"{show(k)[:80]} is set to {show(x)[:200]} whatever it was")
            self.puts.append((k, x, st))
            a, b = lin(d)
            items += [(k, t, n) for t, n in b.items()] + ([(k, ONE, a)] if a else [])
            v = m
        return items, v

    def absent(self, st, m, k):
        for fk, x in st.facts.items():
            if fk[0] == "d" and fk[1].op == "get" and x == "None" and strip(fk[1].a[1]) is k:
                b = m
                while b is not fk[1].a[0] and b.op == "mapupd":
                    b = b.a[0]
                if b is fk[1].a[0]:
                    return True
        return False

    def amount(self, x):
        """the number in an entry"""
        f = self.quantity
        return f(x) if f else x

    def lst(self, v):
        items = []
        while True:
            if v.op in ("push", "vpush"):
                items.append((None, strip(v.a[1]), 1))
                v = v.a[0]
            elif v.op == "mapupd":
                items.append((None, strip(v.a[1]), 1))
                v = v.a[0]
            elif v.op == "array":
                items += [(None, strip(x), 1) for x in v.a[0]]
                v = mk("empty")
            elif v.op == "coll":
                src = v.a[0]
                if v.a[4 if len(v.a) > 4 else -1] != "exact":
                    got = chained(v)
                    if got is None:
                        raise Lost(f"a part of {show(src)[:100]}")
                    items += got
                    return items, mk("empty")
                for x in v.a[1]:
                    items.append((("each", src), strip(x), 1))
                v = mk("empty")
            else:
                return items, v

    def mut(self, v):
        items = []
        while True:
            if v.op == "mut":
                items.append((v.a[0], tup(*v.a[3]) if isinstance(v.a[3], tuple) else v.a[3], 1))
                v = v.a[2]
            elif v.op == "res" and any(v.a[0].endswith(x) for x in self.through):
                v = v.a[2][0]
            else:
                return items, strip(v)

    # ---- loops
    def owner(self, base, evs):
        proj = []
        b = base
        while b is not None and b.op == "." :
            proj.append(b.a[1])
            b = b.a[0]
        if b is None or b.op != "phi":
            return None, None, None, None
        for x in evs:
            if x[0] == "loop":
                for loc, (i, p) in x[1].phis.items():
                    if p is b:
                        return x[1], loc, i, proj[::-1]
        return None, None, None, None

    def flat(self, kind, v, evs, st):
        """({(ctx, key, item): times}, what it was)"""
        out = {}
        while True:
            items, base = self.step(kind, v, st)
            for k, t, n in items:
                ctx = ()
                if isinstance(k, tuple):
                    ctx, k = (k,), None
                while t.op == "sum":
                    ctx += (("each", t.a[0]),)
                    t = t.a[1]
                self.bump(out, ctx, k, t, n)
            L, loc, init, proj = self.owner(base, evs)
            if L is None:
                return out, base
            phi = base
            groups = {}
            for ie, fin, ist in L.iters:
                x = fin[loc]
                for f in proj:
                    x = field(x, f)
                o, b = self.flat(kind, x, ie, ist)
                if b is not phi:
                    raise Lost(f"a round starts over: {show(x)[:200]}")
                groups.setdefault(self.drawn(L, ie), []).append((o, ist, ie))
            for src, os_ in groups.items():
                ctx = (("each", src),) if src is not None else (("loop", L.key),)
                times = 1
                if isinstance(src, T) and src.op == "flat":
                    # the members of every member
                    ctx = (("each", src.a[0]), ("each", mk("elem", src.a[0], ANY)))
                if isinstance(src, tuple):
                    ctx, times = (), src[1]
                allc = {}
                for o, ist, ie in os_:
                    for q, n in o.items():
                        allc.setdefault(q, set()).add(n)
                for q, ns in allc.items():
                    for o, ist, ie in os_:
                        if q not in o and not self.nothing(ist, q):
                            self.partial.append((L, q, ist, ie))
                    if len(ns) > 1:
                        raise Lost(f"{show(q[2])[:100]} is added {sorted(ns)} times")
                    self.bump(out, ctx + q[0], q[1], q[2], next(iter(ns)) * times)
            if L.over is not None and not through(evs, L):
                self.partial.append((L, None, st, evs))
            if L.over is not None and any(x.op in ("iskip", "itake", "iwhile", "iother", "iscan", "istep") for x in walk(L.over)):
                self.partial.append((L, None, st, evs))
            v = init
            for f in proj:
                v = field(v, f)

    def nothing(self, ist, q):
        return self.e.sign(ist, q[2]) == frozenset("0")

    def drawn(self, L, ie):
        """the collection the round's element comes from"""
        if L.over is None:
            return None
        flat = [z for z in walk(L.over) if z.op == "iflat"]
        if flat:
            z = flat[0].a[0]
            while z.op in ("irev", "iclone"):
                z = z.a[0]
            return mk("flat", z.a[0]) if len(flat) == 1 and len(flat[0].a) == 1 and z.op == "it" else L.over
        for x in ie:
            if x[0] == "next" and isinstance(x[2], T):
                for y in walk(x[2]):
                    if y.op in ("E", "elem") and any(y.a[0] is z.a[0] for z in walk(L.over) if z.op == "it"):
                        return y.a[0]
        xs = [z.a[0] for z in walk(L.over) if z.op == "it"]
        if len(xs) == 1 and xs[0].op == "array":
            # one round for each of a few values
            for x in ie:
                if x[0] == "next" and isinstance(x[2], T) and any(y is x[2] for y in xs[0].a[0]):
                    return (x[2], len([y for y in xs[0].a[0] if y is x[2]]))
        return xs[0] if len(xs) == 1 else L.over

    def bump(self, out, ctx, k, t, n):
        key = (ctx, k, t)
        out[key] = out.get(key, 0) + n
        if not out[key]:
            del out[key]

    # ---- entry point
    def of(self, kind, v, start=(), quantity=None, thr=()):
        """contributions of a value and what is left of it at the start; None when it cannot be told"""
        self.start = list(start)
        self.quantity = quantity
        self.through = thr
        self.puts = []
        self.partial = []
        self.why = None
        try:
            out, base = self.flat(kind, v, self.evs, self.st)
            out = self.expand(out)
        except Lost as x:
            self.why = str(x)
            return None, None
        return out, base

    def expand(self, out):
        """canonical, with lists built on the path replaced by what they were built from"""
        for _ in range(8):
            again = False
            new = {}
            for (ctx, k, t), n in out.items():
                for i, s in enumerate(ctx):
                    if s[0] != "each":
                        continue
                    coll = s[1]
                    if coll.op not in ("push", "vpush", "coll", "phi", "mapupd", "empty", "array", "."):
                        continue
                    if coll.op == "." and not self.is_phi(coll):
                        continue
                    save = self.partial, self.start
                    c_, base = self.anywhere(coll)
                    if c_ is None or base.op not in ("empty",):
                        continue
                    again = True
                    el = lambda y: y.op == "elem" and y.a[0] is coll
                    for (cx, _, it), m in c_.items():
                        mp = {}
                        for z in [k] + [t] + [q for r in ctx[i + 1 :] for q in r[1:] if isinstance(q, T)]:
                            if z is not None:
                                for y in walk(z):
                                    if el(y):
                                        mp[y] = it
                        # a set's or list's element stands as key, value or element
                        f = lambda z: tidy(subst(z, mp)) if isinstance(z, T) else z
                        # a list made within the rounds around it is gone through in the same rounds
                        pre = ctx[:i]
                        while pre and cx and len(cx) >= 1 and pre and pre[-1] == cx[0] and False:
                            pre = pre[:-1]
                        common = 0
                        if self.outer(coll, ctx[:i]):
                            pre = ctx[:i]
                        q = (pre + cx + tuple((r[0],) + tuple(f(z) for z in r[1:]) for r in ctx[i + 1 :]), f(k) if k is not None else None, f(t))
                        new[q] = new.get(q, 0) + n * m
                    break
                else:
                    q = (ctx, k, t)
                    new[q] = new.get(q, 0) + n
            out = {q: n for q, n in new.items() if n}
            if not again:
                break
        r = {}
        for (ctx, k, t), n in out.items():
            q = (tuple((s[0],) + tuple(canon(z) if isinstance(z, T) else z for z in s[1:]) for s in ctx), canon(k) if isinstance(k, T) else k, canon(t))
            r[q] = r.get(q, 0) + n
        return {q: n for q, n in r.items() if n}

    def outer(self, coll, ctx):
        return True

    def anywhere(self, coll):
        """what a list was built from, at whatever level of the path it was built"""
        for evs, st in self.levels():
            L, *_ = self.owner(coll, evs) if coll.op in ("phi", ".") else (True,)
            if L is None:
                continue
            p, q, r = self.partial, self.puts, self.start
            self.partial, self.puts, self.start = [], [], []
            try:
                return self.flat("list", coll, evs, st)
            except Lost:
                return None, None
            finally:
                self.partial, self.puts, self.start = p, q, r
        return None, None

    def levels(self):
        def go(evs, st):
            yield evs, st
            for x in evs:
                if x[0] == "loop":
                    for ie, fin, ist in x[1].iters:
                        yield from go(ie, ist)
        return go(self.evs, self.st)


def tidy(t):
    """*&x is x, key and value of what is not an entry is it itself"""
    m = {}
    for y in walk(t):
        if y.op in ("key", "*") and y.a and isinstance(y.a[0], T) and y.a[0].op in ("adt",):
            m[y] = y.a[0]
    return subst(t, m) if m else t


def strip(t):
    while t.op in ("*", "box", "ref", "shared") and t.a and isinstance(t.a[0], T):
        t = t.a[0]
    return t


def quantity(x):
    return field(field(x, "quantity"), "value")


def shown(out):
    if out is None:
        return "?"
    r = []
    for (ctx, k, t), n in list(out.items())[:12]:
        r.append(f"{n}×{show(t)[:160]}" + (f" under {show(k) if isinstance(k, T) else k}"[:120] if k is not None else "") + "".join(" for each of " + show(s[1])[:120] if s[0] == "each" else " in a loop" for s in ctx))
    return "; ".join(r) or "nothing"
