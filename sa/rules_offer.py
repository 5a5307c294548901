"""Rules over what the selection algorithms are given to choose from: all of it is taken, and what is said to be left is what is left."""

from core import *
from rules import rule
from rules_core import final
from rules_store import ob
from rules_fraos2 import errors_rule
from ledger import Ledger, canon, strip
from rules_select import CR, STORE, US, each, el, held, path_text
from engine import ANY

OFFER = ("available_inputs", "available_utxos")


def those(R, name, trait=None):
    return [f for f in R.prog.fns.values() if f["crate"] == CR and f.get("name") == name and "body" in f and "test" not in f["path"] and "algorithms::" in f["path"] and f["kind"] == "AssocFn"]


def given(f):
    """the parameter that holds the inputs, and whether it is a store"""
    for p, t in zip(f["params"], f["inputs"]):
        if p != "self" and "UTxOStore" in t["s"]:
            return mk("arg", p), True
        if p != "self" and ("UTxODetails" in t["s"] or "InputUtxo" in t["s"]):
            return mk("arg", p), False
    return None, None


def offer_of(v):
    """the field that holds what is offered"""
    for n in OFFER:
        x = field(v, n)
        if x is not None and not (x.op == "." and x.a[1] == n and x.a[0] is v):
            return n, x
    for n in OFFER:
        x = field(v, n)
        if x is not None:
            return n, x
    return None, None


def fields(R, f):
    """the names of the fields of the type"""
    self_ = f.get("self") or f["path"]
    for k, a in R.prog.adts.items():
        n = k.split("::")[-1]
        if re.search(r"\b" + re.escape(n) + r"\b", str(self_)) and a["crate"] == CR if isinstance(a, dict) and "crate" in a else re.search(r"\b" + re.escape(n) + r"\b", str(self_)):
            vs = a.get("variants") or []
            if len(vs) == 1:
                return [x["name"] for x in vs[0]["fields"]]
    return []


def numbers(e, s, got, n):
    """all the numbers up to n"""
    evs = s.events()
    got = strip(got)
    if got.op == "coll":
        it = got.a[3] if len(got.a) > 3 and isinstance(got.a[3], T) else got.a[0]
        r = it
        while r.op == "it":
            r = r.a[0]
        if r.op == "adt" and r.a[0].endswith("Range") and field(r, "start") is ZERO and canon(field(r, "end")) is canon(n) and len(got.a[1]) == 1 and got.a[1][0].op == "elem" and strip(got.a[1][0].a[0]) is r:
            return True
        if len(got.a[1]) == 1 and got.a[1][0].op == "index" and got.a[-1] == "exact" and got.a[1][0].a[0].op == "it" and got.a[1][0].a[0].a[0] is got.a[0] and canon(mk("len", got.a[0])) is canon(n):
            return True
        if any(x.op in ("iskip", "itake", "ifilter", "iwhile", "istep") for x in walk(it)) or r.op == "adt":
            return False
        # positions of the inputs gone through
        if got.a[1] and all(x.op == "index" for x in got.a[1]) and n.op == "len":
            return None
        return None
    return False if got.op in ("empty", ".") else None


@rule("U09", US)
def offered(R):
    """the inputs an algorithm is given are the inputs it offers, all of them and once each; what is given does not stay when it cannot be taken"""
    n = 0
    for name in ("set_available_inputs", "set_available_utxos", "try_from", "from", "new"):
        for f in those(R, name):
            src, is_store = given(f)
            if src is None:
                continue
            n += 1
            e, rs = R.run(f, (STORE,))
            w = where(f)
            setter = "self" in f["params"]
            me = mk("*", mk("arg", "self"))
            k = 0
            for s, kind, v in rs or []:
                if kind != "ret":
                    continue
                text = path_text(s, v)
                was = e.variant_of(s, v)
                now = final(s, f, e) if setter else payload(v, "Ok") if was == "Ok" else v
                if was == "Err":
                    if setter:
                        for q in OFFER + ("available_indices",):
                            if now.op == "adt" and q not in adt_fields(now):
                                continue
                            x = field(now, q)
                            ob(R, "refused-untouched", w, x is field(me, q), f"the inputs are refused, and {q} becomes {show(x)[:200]}\n{text}", unknown=x.op in ("phi", "sel"))
                    why = refused_by(e, s, v)
                    ob(R, "refused-only-by-store", w, why is not False, f"inputs are refused\n{text}", unknown=why is None)
                    continue
                k += 1
                if setter:
                    names = [q for q in OFFER if field(now, q) is not field(me, q) and (now.op != "adt" or q in adt_fields(now))]
                    if not names:
                        ob(R, "taken", w, False, f"what is offered stays what it was\n{text}")
                        continue
                    q = names[0]
                else:
                    q = next((q for q in OFFER if any(x == q for x in adt_fields(now))), None)
                    if q is None:
                        ob(R, "taken", w, False, f"makes {show(now)[:200]}\n{text}", unknown=True)
                        continue
                x = field(now, q)
                idx = field(now, "available_indices") if setter and now.op != "adt" and field(now, "available_indices") is not field(me, "available_indices") or (not setter or now.op == "adt") and "available_indices" in adt_fields(now) else None
                listed = idx is not None or indexed(R, f)
                led = Ledger(e, s, s.events())
                if is_store and not listed:
                    y = strip(x)
                    while y.op == "res" and y.a[0].split("::")[-1] in ("clone", "freeze", "thaw"):
                        y = strip(y.a[2][0])
                    ob(R, "taken", w, y is src, f"what is offered becomes {show(x)[:300]}\n{text}", unknown=y.op in ("phi", "coll"))
                elif not listed:
                    out, base = led.of("mut", x, [], None, ("freeze", "thaw", "clone"))
                    if out is not None:
                        out = {(c_, o.split("::")[-1], strip(field(i, "0")) if i.op in ("tuple", "adt") else strip(i)): m for (c_, o, i), m in out.items()}
                        fresh = base is not None and base.op == "res" and base.a[0].split("::")[-1] in ("new", "default", "empty") and not base.a[2]
                        ob(R, "fresh", w, fresh, f"starts from {show(base)[:200] if base is not None else '?'}\n{text}", unknown=base is None or base.op in ("phi", "coll", "sel"))
                        held(R, "taken", w, led, out, mk("empty"), {(each(src), "insert", canon(el(src))): 1}, [mk("empty")], text)
                    else:
                        held(R, "taken", w, led, out, base, {}, [], text)
                else:
                    if is_store:
                        out, base = led.of("list", x)
                        its = [y for y in walk(x) if y.op == "res" and y.a[0].split("::")[-1] == "iter" and strip(y.a[2][0]) is src]
                        okk = bool(its) and out is not None and len(out) == 1 and base.op == "empty" and all(m == 1 and len(c_) == 1 and strip(c_[0][1]) is canon(its[0]) and whole_entry(i, its[0]) for (c_, o, i), m in out.items())
                        ob(R, "taken", w, okk, f"what is offered becomes {show(x)[:300]}\n{text}", unknown=out is None)
                    else:
                        ob(R, "taken", w, strip(x) is src, f"what is offered becomes {show(x)[:300]}\n{text}", unknown=x.op in ("phi", "coll"))
                    y = strip(x)
                    y = y.a[0] if y.op == "coll" and y.a[-1] == "exact" else y
                    good = numbers(e, s, idx, mk("len", y)) if idx is not None else False
                    ob(R, "all-offered", w, good is True, f"the positions offered become {show(idx)[:300] if idx is not None else 'what they were'}\n{text}", unknown=good is None)
            R.floor("taken in " + f["path"][:60], k, 1)
    R.floor("setters", n, 4)
    n = 0
    for f in those(R, "get_available_utxos") + those(R, "available_inputs"):
        if "self" not in f["params"]:
            continue
        e, rs = R.run(f, (STORE,))
        w = where(f)
        me = mk("*", mk("arg", "self"))
        for s, kind, v in rs or []:
            if kind != "ret":
                continue
            n += 1
            text = path_text(s, v)
            now = final(s, f, e)
            for q in OFFER + ("available_indices",):
                ob(R, "only-asked", w, field(now, q) is field(me, q), f"{q} becomes {show(field(now, q))[:200]}\n{text}")
            if f["name"] == "get_available_utxos":
                y = strip(payload(v, "Ok")) if e.variant_of(s, v) == "Ok" else v
                while y.op == "res" and y.a[0].split("::")[-1] in ("clone", "freeze", "thaw"):
                    y = strip(y.a[2][0])
                ob(R, "told", w, y.op == "." and y.a[0] is me and y.a[1] in OFFER, f"says {show(v)[:300]}\n{text}", unknown=y.op in ("phi", "coll"))
                continue
            led = Ledger(e, s, s.events())
            out, base = led.of("list", v)
            if out is None:
                ob(R, "told", w, False, f"{led.why}\n{text}", unknown=not any(x.op in ("iskip", "itake", "istep") for x in walk(v)))
                continue
            okk = len(out) == 1 and base is not None and base.op == "empty"
            for (c_, o, i), m in out.items():
                src = strip(c_[0][1]) if len(c_) == 1 else None
                if src is None or m != 1:
                    okk = False
                elif src.op == "res" and src.a[0].split("::")[-1] == "iter":
                    q = strip(src.a[2][0])
                    okk = okk and q.op == "." and canon(q.a[0]) is canon(me) and q.a[1] in OFFER and whole_entry(i, src)
                else:
                    okk = okk and src is canon(field(me, "available_indices")) and i.op == "idx" and canon(i.a[0]) is canon(field(me, "available_inputs")) and i.a[1].op == "elem" and canon(i.a[1].a[0]) is src
            ob(R, "told", w, okk, f"says {show(v)[:300]}\n{text}")
            for L, q, ist, ie in led.partial:
                ob(R, "told-always", w, False, f"not everything that is offered is told of\n{text}")
    R.floor("readers", n, 4)


def indexed(R, f):
    return "RandomImprove" in f["path"] or "RandomImprove" in str(f.get("self"))


def adt_fields(v):
    if v.op == "adt":
        r = []
        for x in v.a[2:]:
            for y in x if isinstance(x, tuple) else ():
                if isinstance(y, tuple):
                    r.append(y[0])
                elif isinstance(y, str):
                    r.append(y)
        return r
    return []


def whole_entry(i, it):
    """the input of an entry of the store"""
    y = strip(i)
    while y.op == "." and y.a[1] in ("1", 1):
        y = strip(y.a[0])
    it = canon(it)
    y = canon(y)
    return y.op in ("elem", "E", "val") and (y.a[0] is it or y.op == "val" and y.a[0].op == "elem" and y.a[0].a[0] is it)


def refused_by(e, s, v):
    for x in s.events()[::-1]:
        if x[0] == "is" and x[2] == "Err" and isinstance(x[1], T) and x[1].op == "res":
            return bool(re.search(STORE, x[1].a[0]) or "try_from" in x[1].a[0])
        if x[0] == "loop":
            continue
    for ie in (x[1].iters for x in s.events() if x[0] == "loop"):
        for ev, _, _ in ie:
            if any(x[0] == "is" and x[2] == "Err" for x in ev):
                return True
    return False


@rule("U10", US)
def errors_reported(R):
    """with every other fallible function taken as unknown: on each path that can return Ok, every fallible call of the crate, of the estimator and of the
    store has been looked at and is known to have succeeded; the one exception is an input the thermostat draws only to use up room, which may be refused"""
    extra = {f["name"] for f in R.prog.fns.values() if f["crate"] == CR and "body" in f and "output" in f and "hermostat" in f["path"] + str(f.get("self")) and "UTxOStore" in f["output"]["s"] and any("TokenId" in t["s"] for t in f["inputs"])}
    n = errors_rule(R, (CR,), ops=(STORE, r"Estimat|::estimator"), opaque=(STORE,), spare=lambda f, name, got: got == "Err" and "hermostat" in f["path"] and name.split("::")[-1] in extra)
    R.floor("success paths", n, 20)
