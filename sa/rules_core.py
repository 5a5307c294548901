"""Rules over dcspark-core's amounts, balances and counters."""

from core import *
from rules import rule

V, B = "value::Value", "balance::Balance"


def base(ty):
    """the type behind references"""
    while ty.get("ref") is not None and ty.get("to"):
        ty = ty["to"]
    return ty


def is_adt(ty, name):
    return base(ty).get("adt", "").endswith(name)


def final(st, f, e, i=0):
    """value of the i-th parameter's referent when the path ends"""
    n = (f.get("params") or [])[i] if f.get("params") else None
    a = mk("arg", n or f"arg{i}")
    return e.load(st, (mk("D", a), ()))


def argval(f, i):
    """the i-th parameter, behind its reference"""
    n = (f.get("params") or [None] * 9)[i] or f"arg{i}"
    a = mk("arg", n)
    return mk("*", a) if f["inputs"][i].get("ref") is not None else a


def num(v):
    return field(v, "value")


def signed(e, st, v):
    """[(amount, variant, payload)] an in-scope Balance stands for"""
    k = e.variant_of(st, v)
    if k == "Excess":
        return num(payload(v, k)), k
    if k == "Debt":
        return scale(num(payload(v, k)), -1), k
    if k == "Balanced":
        return ZERO, k
    return None, None


def amount_sign(e, st, d, pos, non):
    """the signs a difference can have when the amounts in pos are > 0 and those in non >= 0"""
    s = e.sign(st, d)
    k, dd = lin(d)
    if k >= 0 and all(n > 0 and (t in pos or t in non) for t, n in dd.items()):
        s = s & frozenset("0+")
        if k > 0 or any(t in pos or e.sign(st, t) & frozenset("0-+") == frozenset("+") or not (e.sign(st, t) & frozenset("0")) for t in dd):
            s = s & frozenset("+")
    return s


def outcomes(R, f, **kw):
    e, rs = R.run(f, **kw)
    return e, [] if rs is None else rs


OPS = {
    "std::ops::Add": 1,
    "std::ops::AddAssign": 1,
    "std::ops::Sub": -1,
    "std::ops::SubAssign": -1,
}


def methods(R, tr, self_adt, crate="dcspark_core"):
    return [f for f in R.prog.fns.values() if f.get("trait") == tr and "self" in f and is_adt(f["self"], self_adt) and f["crate"] == crate and "body" in f]


@rule("C01", "dcspark_core")
def balance_arithmetic(R):
    """Every path of every operator on a signed balance (plus, minus and their assigning forms, by value and
    by reference, with a value or another balance) is enumerated over the type-checked MIR: the result's signed
    amount must be, as a linear expression, the left amount plus or minus the right one, and its side (debt,
    balanced, excess) must be the side the branch facts of that path prove for that amount. The classification
    queries must be true exactly for their side."""
    n = 0
    for tr, sg in OPS.items():
        for f in methods(R, tr, B):
            n += 1
            e, rs = outcomes(R, f)
            lhs, rhs = argval(f, 0), argval(f, 1)
            assign = tr.endswith("Assign")
            for s, kind, v in rs:
                w = where(f)
                if kind == "panic":
                    R.ob("no-panic", w, False, f"{tr} can panic\n{path_text(s, v)}")
                    continue
                if assign:
                    v = final(s, f, e)
                alts = []  # the split of an operand the path left open
                for s1, lv, _ in e.cases(s.fork(), lhs, ["Debt", "Balanced", "Excess"]):
                    if is_adt(f["inputs"][1], B):
                        alts += [s2 for s2, _, _ in e.cases(s1.fork(), rhs, ["Debt", "Balanced", "Excess"])]
                    else:
                        alts.append(s1)
                for s1 in alts:
                    la, lk = signed(e, s1, lhs)
                    pos, non = set(), set()
                    if lk in ("Debt", "Excess"):
                        pos.add(num(payload(lhs, lk)))
                    if is_adt(f["inputs"][1], B):
                        ra, rk = signed(e, s1, rhs)
                        if rk in ("Debt", "Excess"):
                            pos.add(num(payload(rhs, rk)))
                    else:
                        ra = num(rhs)
                        non.add(ra)
                    want = add(la, scale(ra, sg))
                    got, k = signed(e, s1, v)
                    if got is None:
                        R.ob("signed-amount", w, True, f"result of unknown side {show(v)}", unknown=True)
                        continue
                    same = got is want or e.sign(s1, sub(got, want)) == frozenset("0") or (
                        k == "Balanced" and amount_sign(e, s1, want, pos, non) <= frozenset("0")
                    )
                    txt = f"{show(lhs)} {'+-'[sg < 0]} {show(rhs)}: expected {show(want)}, got {k} {show(got)}\n{path_text(s1, v)}"
                    R.ob("signed-amount", w, same, txt)
                    if k != "Balanced":
                        mag = scale(got, 1 if k == "Excess" else -1)
                        R.ob("side", w, amount_sign(e, s1, mag, pos, non) <= frozenset("+"), f"{k} of an amount not known to be positive: {show(mag)}\n{path_text(s1, v)}")
    R.floor("balance operators", n, 8)
    for name, var in (("in_debt", "Debt"), ("balanced", "Balanced"), ("in_excess", "Excess")):
        f = R.one(name, R.prog.method(B, name, crate="dcspark_core"))
        if not f:
            continue
        e, rs = outcomes(R, f)
        for s, kind, v in rs:
            for s1, k, _ in e.cases(s, argval(f, 0), ["Debt", "Balanced", "Excess"]):
                t = e.truth(s1, v) if v is not None else None
                R.ob("classification", where(f), kind == "ret" and t == (k == var), f"{name} of {k} is {t}", unknown=kind == "ret" and t is None)
    from rules_serde import outcomes as returned, shown_by
    for f in R.prog.method(B, "fmt", trait="std::fmt::Display", crate="dcspark_core"):
        e, rs = returned(R, f)
        me = argval(f, 0)
        for s, v in rs:
            for s1, k, p in e.cases(s, me, ["Debt", "Balanced", "Excess"]):
                got = shown_by(v)
                want = {"Debt": "-", "Balanced": "0", "Excess": "+"}[k]
                flat = None if got is None else [x if isinstance(x, str) else strip_ref(x) for x in got]
                flat = None if flat is None else [x.a[0].strip("'\"") if not isinstance(x, str) and x.op == "str" else x for x in flat]
                ok = flat is not None and (flat == ["0"] if k == "Balanced" else len(flat) == 2 and flat[0] == want and flat[1] is strip_ref(payload(me, k)))
                R.ob("text", where(f), ok, f"{k} is shown as {[x if isinstance(x, str) else show(x)[:80] for x in flat] if flat is not None else show(v)[:120]}\n{path_text(s1, v)}", unknown=not ok and (flat is None or len([x for x in s1.events() if x[0] == "call" and x[1].split("::")[-1] in ("fmt", "write_fmt", "write_str", "write_char", "pad")]) != 1))


@rule("C02", "dcspark_core")
def value_arithmetic(R):
    """Every path of every arithmetic operator, sum and comparison of amounts (every by-value and
    by-reference form) must compute, as a linear expression over the two exact decimals, the same operation on
    the operands in their order; a scaling by an integer must multiply or divide by that integer."""
    n = 0
    for tr, sg in OPS.items():
        for f in methods(R, tr, V):
            n += 1
            e, rs = outcomes(R, f)
            for s, kind, v in rs:
                if kind == "panic":
                    R.ob("no-panic", where(f), False, path_text(s, v))
                    continue
                if tr.endswith("Assign"):
                    v = final(s, f, e)
                got = num(v)
                want = add(num(argval(f, 0)), num(argval(f, 1)), sg)
                R.ob("result", where(f), got is want or e.sign(s, sub(got, want)) == frozenset("0"), f"expected {show(want)}, got {show(got)}\n{path_text(s, v)}")
    R.floor("value operators", n, 11)
    n = 0
    for tr, op in (("std::ops::Mul", "mul"), ("std::ops::Div", "div")):
        for f in methods(R, tr, V):
            n += 1
            e, rs = outcomes(R, f)
            a, b = num(argval(f, 0)), argval(f, 1)
            want = mul(a, b) if op == "mul" else div(a, b)
            for s, kind, v in rs:
                if kind == "panic":
                    continue
                got = strip_conv(num(v))
                R.ob("scaling", where(f), got is want, f"expected {show(want)}, got {show(got)}")
    R.floor("scalings", n, 6)
    n = 0
    for tr, name in (("std::cmp::PartialOrd", "partial_cmp"), ("std::cmp::Ord", "cmp"), ("std::cmp::PartialEq", "eq")):
        for f in methods(R, tr, V):
            if f["name"] != name:
                continue
            n += 1
            e, rs = outcomes(R, f)
            d = sub(num(argval(f, 0)), num(argval(f, 1)))
            for s, kind, v in rs:
                for sg, nm in (("-", "Less"), ("0", "Equal"), ("+", "Greater")):
                    s1 = s.fork()
                    if not e.assume(s1, relm(d, frozenset(sg)), True):
                        continue
                    if name == "eq":
                        got = e.truth(s1, v)
                        want = sg == "0"
                    else:
                        x = payload(v, "Some") if name == "partial_cmp" else v
                        got = e.variant_of(s1, x)
                        want = nm
                    R.ob("comparison", where(f), kind == "ret" and got == want, f"{name} is {got} where the amounts compare {nm}", unknown=kind == "ret" and got is None)
    R.floor("comparisons", n, 3)
    n = 0
    for f in methods(R, "std::iter::Sum", V):
        n += 1
        e, rs = outcomes(R, f)
        for s, kind, v in rs:
            if kind == "panic":
                R.ob("no-panic", where(f), False, path_text(s, v))
                continue
            got = num(v)
            k, dd = lin(got)
            ok = k == 0 and len(dd) == 1 and all(t.op == "sum" and c_ == 1 for t, c_ in dd.items())
            it = mk("arg", f["params"][0])
            known_ = any(x.op == "sum" for x in walk(got))
            if ok:
                (t,) = dd
                ok = contains(t.a[0], it) and t.a[1].op == "." and t.a[1].a[1] == "value"
                over = t.a[0]
                while over.op in ("it", "ref", "*", "iclone"):
                    over = over.a[0]
                if ok and over is not it:
                    ok, known_ = False, over.op in ("iskip", "itake", "ifilter", "iwhile", "ifmap", "ichain")
            R.ob("sum", where(f), ok or not known_, f"expected the sum of the items' amounts, got {show(got)}", unknown=not known_)
    R.floor("sums", n, 2)


def strip_conv(t):
    """exact conversions of an integer into a big number are that integer"""
    m = {}
    for x in walk(t):
        if x.op == "." and x.a[1] == "0" and x.a[0].op == "as" and x.a[0].a[1] == "Some":
            y = x.a[0].a[0]
            if y.op == "call" and ("from_u32" in y.a[0] or "from_usize" in y.a[0] or "from_u64" in y.a[0]):
                m[x] = y.a[1][0]
        if x.op == "call" and x.a[0].startswith("std::convert::From::from<") and len(x.a[1]) == 1:
            m[x] = x.a[1][0]
    return subst(t, m) if m else t


UNITS = {"cardano::Ada": 0, "cardano::Lovelace": 6, "evm::Ether": 0, "evm::Wei": 18, "algo::Algo": 0, "algo::MicroAlgo": 6, "Normalized": 0}


def unit(ty):
    ty = base(ty)
    if not ty.get("adt", "").endswith(V):
        return None
    a = (ty.get("args") or [None])[0]
    a = a["s"] if isinstance(a, dict) else a
    if not isinstance(a, str):
        return None
    for k in list(UNITS) + ["Regulated"]:
        if a == k or a.endswith("::" + k):
            return k
    return None


def shift(t, x):
    """(n, terms) such that t = x * 10^n * 10^(sum of terms)"""
    if t is x:
        return ZERO
    if t.op == "div" and is_int(t.a[1]):
        r = shift(t.a[0], x)
        p = pow10(t.a[1].a[1])
        return None if r is None or p is None else sub(r, c(p))
    fs = list(t.a) if t.op == "mul" else None
    co = 1
    if t.op == "lin" and t.a[0] == 0 and len(t.a[1]) == 1:
        ((y, co),) = t.a[1]
        fs = list(y.a) if y.op == "mul" else [y]
    if fs is None or x not in fs:
        return None
    fs.remove(x)
    p = pow10(co)
    if p is None:
        return None
    r = c(p)
    for y in fs:
        z = power(y)
        if z is None:
            return None
        r = add(r, z)
    return r


def power(y):
    """y = 10^power(y)"""
    if y.op == "call" and y.a[0].endswith("BigDecimal::new") and len(y.a[1]) == 2:
        m, sc = strip_conv(y.a[1][0]), y.a[1][1]
        if is_int(m):
            p = pow10(m.a[1])
            return None if p is None else sub(c(p), sc)
    return None


def pow10(n):
    p = 0
    while isinstance(n, int) and n > 1 and n % 10 == 0:
        n //= 10
        p += 1
    return p if n == 1 else None


@rule("C03", "dcspark_core")
def conversions(R):
    """Every function and From impl that turns an amount of one unit into another is found by its types; on
    every path the result must be the argument times the power of ten between the two units (Lovelace and
    MicroAlgo 6 decimals, Wei 18, Ada, Ether, Algo and Normalized none; a regulated amount by its rule's
    precision for the side concerned)."""
    n = 0
    for f in R.prog.fns.values():
        if f["crate"] != "dcspark_core" or "body" not in f or f["kind"] not in ("Fn", "AssocFn") or not f.get("output"):
            continue
        ins = f["inputs"]
        if not ins or len(ins) > 2:
            continue
        a, b = unit(ins[0]), unit(f["output"])
        if a is None or b is None or (a == b and len(ins) == 1):
            continue
        x = num(argval(f, 0))
        if len(ins) == 2:
            if not is_adt(ins[1], "value::Rule"):
                continue
            r = argval(f, 1)
            side = "mainchain" if "mainchain" in f["name"] else "sidechain" if "sidechain" in f["name"] else None
            if side is None or "Regulated" not in (a, b):
                continue
            p = field(r, side + "_decimal_precision")
            want = scale(p, -1 if a == "Regulated" else 1)
        elif "Regulated" in (a, b):
            if "Lovelace" not in a + b:
                continue
            want = ZERO
        else:
            want = c(UNITS[b] - UNITS[a])
        if f["name"] == "coerce":
            continue
        n += 1
        e, rs = outcomes(R, f)
        for s, kind, v in rs:
            if kind == "panic":
                continue
            got = shift(num(v), x)
            R.ob(
                "factor", where(f), got is want,
                f"from {a} to {b}: expected a factor of 10^{show(want)}, got {'10^' + show(got) if got is not None else show(num(v))}\n{path_text(s, v)}",
                unknown=got is None and not wrong_shape(num(v), x),
            )
    R.floor("conversions", n, 30)


def wrong_shape(t, x):
    """an expression whose every part is understood"""
    for y in walk(t):
        if y.op in ("sel", "res", "phi"):
            return False
        if y.op == "call" and not y.a[0].endswith(("BigDecimal::new",)) and not y.a[0].startswith("std::convert::From::from<"):
            return False
    return True


@rule("C04", "dcspark_core")
def parsing(R):
    """On every accepting path of an amount's text parser, the branch facts must bound the number of
    fractional digits by the unit's (Lovelace, Wei, MicroAlgo 0; Ada, Algo 6; Ether, Normalized, Regulated 18) and exclude
    negative amounts, and the amount returned must be the one parsed; on every refusing path one of the two
    must fail."""
    mx = {"cardano::Ada": 6, "cardano::Lovelace": 0, "evm::Ether": 18, "evm::Wei": 0, "algo::Algo": 6, "algo::MicroAlgo": 0, "Normalized": 18, "Regulated": 18}
    n = 0
    for f in methods(R, "std::str::FromStr", V):
        u = unit(f["self"])
        if u is None:
            continue
        n += 1
        e, rs = outcomes(R, f)
        w = where(f)
        for s, kind, v in rs:
            if kind == "panic":
                R.ob("no-panic", w, False, path_text(s, v))
                continue
            evs = [x[1] for x in s.events() if x[0] == "is"] + [t for k in s.facts for t in walk(k[1])]
            parsed = {t for x in evs for t in walk(x) if t.op == "call" and t.a[0].endswith("::parse") or t.op == "call" and t.a[0].endswith("FromStr::from_str")}
            if len(parsed) != 1:
                R.ob("accept", w, True, f"parsed text not identified ({len(parsed)})", unknown=True)
                continue
            p = parsed.pop()
            amt = payload(p, "Ok")
            exps = {t for k in s.facts for t in walk(k[1]) if (t.op == "." and t.a[1] == "1" and t.a[0].op == "call" and "exponent" in t.a[0].a[0]) or (t.op == "call" and "fractional_digit" in t.a[0])}
            exps = [t for t in exps if contains(t, amt)]
            good_exp = any(e.sign(s, sub(t, c(mx[u]))) <= frozenset("-0") for t in exps)
            bad_exp = any(e.sign(s, sub(t, c(mx[u]))) <= frozenset("+") for t in exps)
            sg = e.sign(s, amt)
            k = e.variant_of(s, v)
            if k == "Ok":
                R.ob("digits-bounded", w, good_exp, f"{u} accepts text without bounding its fractional digits by {mx[u]}\n{path_text(s, v)}")
                R.ob("not-negative", w, sg <= frozenset("0+"), f"{u} accepts a negative amount\n{path_text(s, v)}")
                got = num(payload(v, "Ok"))
                R.ob("amount", w, got is amt, f"{u} returns {show(got)} for the parsed {show(amt)}")
            elif k == "Err":
                R.ob("refusal", w, e.variant_of(s, p) == "Err" or bad_exp or sg <= frozenset("-"), f"{u} refuses a well-formed amount\n{path_text(s, v)}")
            else:
                R.ob("accept", w, True, "result unknown", unknown=True)
    R.floor("parsers", n, 8)


@rule("C05", "dcspark_core")
def counters(R):
    """Every additive method of the block, slot and output counters is reduced to one term over its
    parameters: the checked forms must be the exact sum where it fits and nothing where it does not, the
    saturating ones the clamped sum or difference; the next forms must add one; conversions must keep the number."""
    n = 0
    for ty in ("BlockNumber", "SlotNumber", "OutputIndex", "Timestamp"):
        for f in R.prog.fns.values():
            if f["crate"] != "dcspark_core" or "self" not in f or "body" not in f:
                continue
            me = is_adt(f["self"], "::" + ty)
            nm, tr = f.get("name"), f.get("trait")
            x = field(argval(f, 0), "0") if f["inputs"] else None
            one = c(1)
            if me and tr is None and nm in ("checked_next", "checked_add"):
                d = one if nm == "checked_next" else argval(f, 1)
                want = "checked", add(x, d), mk("fits", "add", x, d)
            elif me and tr is None and nm in ("saturating_next", "saturating_add"):
                d = one if nm == "saturating_next" else argval(f, 1)
                want = "is", mk("satadd", *sorted((x, d))), mk("fits", "add", x, d)
            elif me and tr is None and nm == "saturating_sub":
                want = "is", mk("satsub", x, argval(f, 1)), mk("fits", "sub", x, argval(f, 1))
            elif me and tr is None and nm == "into_inner":
                want = "raw", x, None
            elif me and (nm == "new" and tr is None or nm == "from" and tr == "std::convert::From"):
                want = "is", argval(f, 0), None
            elif not me and nm == "from" and tr == "std::convert::From" and f["self"]["s"] == "u64" and is_adt(f["inputs"][0], "::" + ty):
                want = "raw", x, None
            else:
                continue
            n += 1
            e, rs = outcomes(R, f)
            w = where(f)
            for s, kind, v in rs:
                if kind == "panic":
                    R.ob("no-panic", w, False, path_text(s, v))
                    continue
                top = MAXES.get(payload_type(R, f["self"]))
                fit = known_fit(e, s, want[2], top) if want[2] is not None else None
                if want[0] == "checked":
                    k = e.variant_of(s, v)
                    if k is None:
                        R.ob("checked", w, True, f"result {show(v)}", unknown=True)
                        continue
                    if fit is None:
                        mxs = [q for q in s.facts if q[0] in ("s", "b")]
                        if len(s.facts) == 1 and mxs and mxs[0][0] == "s" and is_int(sub(mxs[0][1], add(*want[2].a[1:]))):
                            mxs = []  # the sum is compared, but against another bound
                        R.ob("checked", w, bool(mxs), f"{nm} gives {k} without deciding whether the sum fits\n{path_text(s, v)}", unknown=bool(mxs))
                        continue
                    R.ob("checked", w, (k == "Some") == fit, f"{nm} gives {k} where the sum {'fits' if fit else 'overflows'}\n{path_text(s, v)}")
                    if k == "Some":
                        got = field(payload(v, k), "0")
                        R.ob("sum", w, got is want[1], f"{nm} gives {show(got)}, expected {show(want[1])}", unknown=got.op in HAZY)
                else:
                    got = v if want[0] == "raw" else field(v, "0")
                    if got.op == "satadd":
                        got = mk("satadd", *sorted(got.a))
                    got = clamped(got)
                    ok = got is want[1] or fit is False and got is x and want[2].a[0] == "add" and want[2].a[2] is one
                    if not ok and want[2] is not None:
                        more = want[2].a[0] == "add"
                        plain = add(*want[2].a[1:]) if more else sub(*want[2].a[1:])
                        edge = c(top) if more and top is not None else c(0)
                        ok = got is (plain if fit else edge if fit is False else None)
                        if not ok and got is edge and (not more or top is not None):
                            sg = e.sign(s, sub(plain, edge))
                            ok = sg <= frozenset("0+" if more else "-0")
                    R.ob("value", w, ok, f"{nm} gives {show(got)}, expected {show(want[1])}\n{path_text(s, v)}", unknown=not ok and got.op in HAZY)
    R.floor("counter methods", n, 26)


def clamped(t):
    """x less the smaller of x and y: the difference that stops at nothing"""
    if t.op == "lin":
        k, d = lin(t)
        if k == 0 and len(d) == 2:
            for m, n in d.items():
                if n == -1 and m.op == "min" and any(d.get(y) == 1 for y in m.a):
                    x = next(y for y in m.a if d.get(y) == 1)
                    return mk("satsub", x, next((y for y in m.a if y is not x), x))
    return t


def norm_fits(t):
    return mk("fits", t.a[0], *sorted(t.a[1:])) if t.a[0] == "add" else t


HAZY = ("sel", "phi", "min", "max", "res", "cast", "conv")
MAXES = {"u64": 2 ** 64 - 1, "u32": 2 ** 32 - 1, "u16": 2 ** 16 - 1, "u8": 2 ** 8 - 1, "u128": 2 ** 128 - 1}


def payload_type(R, ty):
    """the plain number a counter holds"""
    a = R.prog.adts.get(ty.get("adt"))
    try:
        t = a["variants"][0]["fields"][0]["ty"]
        return t["s"] if isinstance(t, dict) else t
    except (TypeError, KeyError, IndexError):
        return None


def known_fit(e, s, fits, top):
    """whether a sum or difference is known to fit on this path, and how"""
    kind, x, d = fits.a
    f3 = norm_fits(fits)
    for q, m in s.facts.items():
        if q[0] == "d" and q[1].op == "fits" and norm_fits(q[1]) is f3 and isinstance(m, str):
            return m == "Some"
    if kind == "add":
        if top is None:
            return None
        if d is c(1) and "0" not in e.sign(s, sub(x, c(top))):
            return True  # below the largest
        if d is c(1) and e.sign(s, sub(x, c(top))) <= frozenset("0+"):
            return False
        sg = e.sign(s, sub(add(x, d), c(top)))
        return True if sg <= frozenset("-0") else False if sg <= frozenset("+") else None
    sg = e.sign(s, sub(x, d))
    return True if sg <= frozenset("0+") else False if sg <= frozenset("-") else None


@rule("C13", "dcspark_core")
def integral(R):
    """Every path of the truncation of an amount gives its integral part: zero only where the amount is known to
    be below one, and otherwise the digits before the point; the constant amounts and the readings of an amount as a
    plain number are those of its content."""
    n = 0
    for f in R.prog.fns.values():
        if f["crate"] != "dcspark_core" or not f.get("self") or "body" not in f or not is_adt(f["self"], "value::Value"):
            continue
        nm, tr, w = f.get("name"), f.get("trait"), where(f)
        x = None
        if f["inputs"]:
            a = argval(f, 0)
            x = field(mk("*", a) if a.op != "*" and f["inputs"][0]["s"].startswith("&") else a, "value")
        tr = (tr or "").split("::")[-1]
        if nm == "truncate":
            n += 1
            e, rs = outcomes(R, f)
            from rules_store import parsed_as
            for t in parsed_as(R, e):
                R.ob("digits", w, "BigDecimal" in t, f"the digits of an amount are read as {t}, which does not hold every amount", unknown="BigDecimal" not in t and t not in ("u8", "u16", "u32", "u64", "u128", "i32", "i64", "i128", "usize", "f64", "f32"))
            for st, k, v in rs:
                if k == "panic":
                    R.ob("no-panic", w, False, path_text(st, v))
                    continue
                got = field(v, "value")
                verdict = whole_part(e, st, got, x)
                R.ob("integral", w, bool(verdict), f"an amount truncates to {show(got)[:160]}\n{path_text(st, v)}", unknown=verdict is None)
            continue
        want = None
        if nm in ("zero", "one") and not f["inputs"] or nm == "default" and tr == "Default":
            want = c(1 if nm == "one" else 0)
            got_of = lambda v: field(v, "value")
        elif nm == "coerce":
            want, got_of = field(argval(f, 0), "value"), lambda v: field(v, "value")
        elif nm == "raw":
            want, got_of = x, lambda v: strip_ref(v)
        elif (nm == "new" or nm == "from" and f["inputs"] and not is_adt(f["inputs"][0], "value::Value")) and len(f["inputs"]) == 1:
            want, got_of = argval(f, 0), lambda v: field(v, "value")
        elif tr == "ToPrimitive" and nm in ("to_u64", "to_i64", "to_u128", "to_i128"):
            want, got_of = mk("call", nm, (x,)), lambda v: v
        if want is None:
            continue
        n += 1
        e, rs = outcomes(R, f)
        for st, k, v in rs:
            if k == "panic":
                R.ob("no-panic", w, False, path_text(st, v))
                continue
            got = got_of(v)
            if nm.startswith("to_"):
                ok = got.op == "call" and base_call(got) == nm and len(got.a[1]) == 1 and strip_ref(got.a[1][0]) is x
                unsure = got.op == "call" and base_call(got) not in ("to_u64", "to_i64", "to_u128", "to_i128")
            else:
                ok = got is want
                ten = power(got)
                if not ok and ten is not None and is_int(ten) and is_int(want):
                    ok, got = want is c(1) and ten is c(0), mk("str", f"10^{ten.a[1]}")
                unsure = not ok and got.op in HAZY + ("call",)
            R.ob("content", w, ok, f"{nm} gives {show(got)[:160]}, not {show(want)[:100]}\n{path_text(st, v)}", unknown=not ok and unsure)
    R.floor("amount readers", n, 9)


def base_call(t):
    from rules_chain import last
    return last(t.a[0]).split("<")[0]


def strip_ref(t):
    """what a reference leads to"""
    from rules_serde import uncow
    return uncow(t)


def whole_part(e, st, got, x):
    """whether a result is the integral part of x (None: not told)"""
    if got is c(0):
        if e.sign(st, sub(x, c(1))) <= frozenset("-") or e.sign(st, x) <= frozenset("0"):
            return True
        # the text of a number always has digits before the point
        odd = any(k[0] == "d" and m in ("Err", "None") and digits(k[1], x) for k, m in st.facts.items())
        odd = odd or any(ev[0] == "exhaust" and of_text(show(ev[1]), x) for ev in st.events())
        return True if odd else False
    if got is x:
        whole = any(k[0] == "b" and "is_integer" in show(k[1]) and m is True for k, m in st.facts.items())
        return whole or any(k[0] == "d" and m == "None" and "split_once" in show(k[1]) and of_text(show(k[1]), x) for k, m in st.facts.items())
    p = got
    if p.op == "." and p.a[0].op == "as":
        p = p.a[0].a[0]
    t = show(p)
    if p.op == "call":
        nm, args = base_call(p), p.a[1]
        if nm == "with_scale" and len(args) == 2 and strip_ref(args[0]) is x:
            return args[1] is c(0)
        if nm == "with_scale_round" and len(args) == 3 and strip_ref(args[0]) is x:
            mode = args[2].a[1] if args[2].op == "adt" else None
            return args[1] is c(0) and (mode == "Down" or mode == "Floor" and e.sign(st, x) <= frozenset("0+")) if mode else None
        if nm == "round":
            return False
    if before_point(p, x) and bare(p.a[1][0]).op != "slice":
        # the whole text is read: right only where it has no point
        return any(k[0] == "d" and m == "None" and k[1].op == "call" and base_call(k[1]) in ("find", "rfind") and k[1].a[1][1] is c(46) for k, m in st.facts.items())
    if digits(p, x):
        first = sum(1 for ev in st.events() if ev[0] == "next") <= 1
        return True if first else False
    if any(q in t for q in ("to_u64", "to_i64", "to_u32", "to_f64", "to_f32", "to_u128", "to_i128")):
        return False
    return None


def of_text(s, x):
    """whether a shown term reads from the text of x, cut at its points"""
    tx = show(x).replace("*", "").replace("&", "").replace("(", "").replace(")", "")
    s = s.replace("*", "").replace("&", "").replace("(", " ").replace(")", " ")
    return f"split to_string {tx} , 46" in s or f"split_once to_string {tx} , 46" in s


def bare(t):
    """what is behind references, as it is"""
    while t.op in ("*", "box", "ref", "shared", "D") and t.a and isinstance(t.a[0], T):
        t = t.a[0]
    return t


def before_point(t, x):
    """whether a number is read from the text of x up to where its point is found, or from all of it where there is none"""
    if t.op != "call" or base_call(t) != "parse":
        return False
    p = bare(t.a[1][0])
    while p.op == "slice":
        r = p.a[1]
        if r.op != "range" or r.a[0] is not c(0):
            return False
        f = r.a[1].a[0].a[0] if r.a[1].op == "." and r.a[1].a[0].op == "as" else r.a[1]
        if f.op != "call" or base_call(f) not in ("find", "rfind") or len(f.a[1]) < 2 or f.a[1][1] is not c(46) or bare(f.a[1][0]) is not bare(p.a[0]):
            return False
        p = bare(p.a[0])
    return p.op == "call" and base_call(p) == "to_string" and bare(p.a[1][0]) is bare(x)


def digits(t, x):
    """whether a term is the number read from the text of x up to its point"""
    s = show(t)
    if before_point(t, x):
        return True
    return s.startswith("parse(") and of_text(s, x) and ("elem(" in s or s.rstrip(")").endswith(".0"))
