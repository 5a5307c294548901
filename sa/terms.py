"""Value-number terms of the dataflow domain: hash-consed, with canonical linear forms."""


from math import gcd


class T:
    __slots__ = ("op", "a", "id")
    tab = {}
    n = 0

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op, a)
    t = T.tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, T.n
        T.n += 1
        T.tab[k] = t
    return t


def c(v):
    # bool and int are told apart
    return mk("c", "b" if isinstance(v, bool) else "i", v)


TRUE, FALSE = c(True), c(False)
UNIT = mk("adt", "()", "", ())
ZERO = c(0)


def is_int(t):
    return t.op == "c" and t.a[0] == "i"


def adt(name, variant, *fields):
    return mk("adt", name, variant, tuple(fields))


OPT, RES = "core::option::Option", "core::result::Result"
NONE = adt(OPT, "None")


def some(x):
    return adt(OPT, "Some", ("0", x))


def ok(x):
    return adt(RES, "Ok", ("0", x))


def err(x):
    return adt(RES, "Err", ("0", x))


def tup(*xs):
    return adt("tuple", "", *[(str(i), x) for i, x in enumerate(xs)])


NONNEG = set()  # terms of an unsigned type


def nonneg(t):
    if t.op == "c":
        return t.a[0] == "i" and t.a[1] >= 0
    return t in NONNEG or t.op in ("len", "sumlen")


# ---- linear forms


def lin(t):
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    if is_int(t):
        return t.a[1], {}
    return 0, {t: 1}


def mklin(k, d):
    d = {t: n for t, n in d.items() if n != 0}
    if not d:
        return c(k)
    if k == 0 and len(d) == 1:
        (t, n), = d.items()
        if n == 1:
            return t
    return mk("lin", k, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def add(a, b, s=1):
    k, d = lin(a)
    k2, d2 = lin(b)
    d = dict(d)
    for t, n in d2.items():
        d[t] = d.get(t, 0) + s * n
    return mklin(k + s * k2, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    k, d = lin(a)
    return mklin(k * n, {t: x * n for t, x in d.items()})


def mul(a, b):
    if is_int(a):
        return scale(b, a.a[1])
    if is_int(b):
        return scale(a, b.a[1])
    fs = []
    k = 1
    for x in (a, b):
        if x.op == "mul":
            fs += list(x.a)
        elif x.op == "lin" and x.a[0] == 0 and len(x.a[1]) == 1:
            k *= x.a[1][0][1]
            y = x.a[1][0][0]
            fs += list(y.a) if y.op == "mul" else [y]
        else:
            fs.append(x)
    return scale(mk("mul", *sorted(fs, key=lambda t: t.id)), k)


def div(a, b):
    if is_int(a) and is_int(b) and b.a[1] != 0:
        return c(int(a.a[1] / b.a[1]) if a.a[1] * b.a[1] < 0 else a.a[1] // b.a[1])
    if is_int(b) and b.a[1] == 1:
        return a
    if a.op == "div" and is_int(a.a[1]) and is_int(b):
        return div(a.a[0], c(a.a[1].a[1] * b.a[1]))
    return mk("div", a, b)


SIGNS = frozenset("-0+")
MASK = {
    "<": frozenset("-"),
    "<=": frozenset("-0"),
    "=": frozenset("0"),
    "<>": frozenset("-+"),
    ">": frozenset("+"),
    ">=": frozenset("0+"),
}


def flip(m):
    return frozenset({"-": "+", "+": "-", "0": "0"}[x] for x in m)


ORDERINGS = {"Less": "-", "Equal": "0", "Greater": "+"}


def rel(a, op, b):
    """boolean term for `a op b`, canonical over the order of the operands"""
    return relm(sub(a, b), MASK[op])


def relm(d, m):
    if is_int(d):
        v = d.a[1]
        return TRUE if ("-" if v < 0 else "+" if v > 0 else "0") in m else FALSE
    k, dd = lin(d)
    if k == 0 and len(dd) == 2 and m in (frozenset("0"), frozenset("-+")):
        # an ordering against one of its names
        x = next((t for t in dd if t.op == "ord"), None)
        y = next((t for t in dd if t.op == "adt" and t.a[1] in ORDERINGS), None)
        if x is not None and y is not None and dd[x] == -dd[y]:
            z = frozenset(ORDERINGS[y.a[1]])
            return relm(x.a[0], z if "0" in m else frozenset("-0+") - z)
    lead = min(dd, key=lambda t: t.id)
    if dd[lead] < 0:
        d, m = scale(d, -1), flip(m)
    d = reduced(d)
    m = m & dom(d)
    if not m:
        return FALSE
    if m == dom(d):
        return TRUE
    return mk("rel", d, m)


def reduced(d):
    """d over the common divisor of its coefficients: the sign is the same"""
    k, dd = lin(d)
    g = abs(k)
    for n in dd.values():
        if not isinstance(n, int):
            return d
        g = gcd(g, abs(n))
    return mklin(k // g, {t: n // g for t, n in dd.items()}) if g > 1 else d


def dom(d):
    """the signs a canonical difference can have"""
    k, dd = lin(d)
    if all(n > 0 and nonneg(t) for t, n in dd.items()):
        if k == 0:
            return frozenset("0+")
        if k > 0:
            return frozenset("+")
    return SIGNS


def neg(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "rel":
        return relm(b.a[0], dom(b.a[0]) - b.a[1])
    if b.op == "not":
        return b.a[0]
    return mk("not", b)


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("c", "str", "k", "arg", "site", "fid", "L", "phi", "loopkey"):
        return t
    if t.op == "lin":
        r = c(t.a[0])
        for x, n in t.a[1]:
            r = add(r, scale(subst(x, m, memo), n))
    elif t.op == "mul":
        r = c(1)
        for x in t.a:
            r = mul(r, subst(x, m, memo))
    elif t.op == "rel":
        r = relm(subst(t.a[0], m, memo), t.a[1])
    else:
        r = mk(t.op, *[_s(x, m, memo) for x in t.a])
    memo[t] = r
    return r


def _s(x, m, memo):
    if isinstance(x, T):
        return subst(x, m, memo)
    if isinstance(x, tuple):
        return tuple(_s(y, m, memo) for y in x)
    return x


def walk(t, seen=None):
    """every subterm"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            if x.op not in ("site", "fid", "phi", "loopkey", "L"):
                st.extend(x.a)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)


def contains(t, x):
    return any(y is x for y in walk(t))


def short(n):
    return n.split("::")[-1]


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 14:
        return "…"
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.a
    if o == "c":
        return str(a[1])
    if o == "str":
        return repr(a[0])
    if o == "k":
        return str(a[0])
    if o == "arg":
        return a[0]
    if o == "*":
        return f"*{s(a[0])}" if a[0].op != "arg" else a[0].a[0]
    if o == ".":
        return f"{s(a[0])}.{a[1]}"
    if o == "as":
        return f"({s(a[0])} as {a[1]})"
    if o == "adt":
        fs = ", ".join(f"{n}: {s(x)}" for n, x in a[2])
        return f"{short(a[0])}{'::' + a[1] if a[1] and a[1] != short(a[0]) else ''}({fs})"
    if o == "lin":
        r = " + ".join((f"{n}*" if n != 1 else "") + s(x) for x, n in a[1])
        return f"({r}{' + ' + str(a[0]) if a[0] else ''})"
    if o == "rel":
        m = {v: k for k, v in MASK.items()}[a[1]]
        return f"[{s(a[0])} {m} 0]"
    if o == "ref":
        return f"&{s(a[0])}{''.join('.' + str(x[1] if not isinstance(x[1], T) else s(x[1])) for x in a[1])}"
    if o == "L":
        return f"_{a[1]}@{a[0].id}"
    if o == "D":
        return f"*({s(a[0])})"
    if o == "closure":
        return f"closure<{short(a[0])}>({', '.join(map(s, a[1]))})"
    if o == "call":
        return f"{short(a[0])}({', '.join(s(x) for x in a[1])})"
    if o == "res":
        return f"{short(a[0])}#{a[1].id}({', '.join(s(x) for x in a[2])})"
    if o == "elem":
        return f"elem({s(a[0])})"
    if o == "phi":
        return f"φ{a[0].id}.{a[1]}"
    return f"{o}({', '.join(s(x) if isinstance(x, T) else '(' + ', '.join(s(y) for y in x) + ')' if isinstance(x, tuple) else str(x) for x in a)})"


def presence(m, k):
    """Option<V> in a map (unit for a set)"""
    while True:
        if m.op == "mapupd" and m.a[1] is k:
            return some(m.a[2])
        if m.op == "mapdel" and m.a[1] is k:
            return NONE
        if m.op == "empty":
            return NONE
        return mk("get", m, k)
