"""Rules over the coin selection: what every algorithm says it chose, what it counts it for, and whether that pays for what is asked."""

from core import *
from rules import rule
from rules_core import final
from rules_store import find_main, ob
from ledger import Ledger, canon, quantity, shown, strip
from rules_multiverse import all_events, through

US = "utxo_selection"
CR = "utxo_selection"
STORE = r"UTxOStore(Mut)?::"
BAL = r"balance::Balance(?!.*::(in_debt|balanced|in_excess)$)"
CALC = r"::calculate_(main_token|asset)_balance$|^calculate_"


def fns(R, name, own=None, trait=None):
    return [f for f in R.prog.fns.values() if f["crate"] == CR and f.get("name") == name and "body" in f and (own is None or own in f["path"]) and (trait is None or (f.get("trait") or "").find(trait) >= 0)]


def fn(R, name, own=None, trait=None):
    return R.one(f"{own + '::' if own else ''}{name}", fns(R, name, own, trait))


def num(v):
    """the number in a value"""
    return field(v, "value")


def worth(t):
    """the number a balance stands for"""
    if t.op == "mut" and t.a[0].endswith(("add_assign", "sub_assign")):
        old, (x,) = t.a[2], t.a[3]
        a = worth(old)
        if a is None:
            return None
        return add(a, num_of(x), 1 if t.a[0].endswith("add_assign") else -1)
    if t.op == "res":
        n = t.a[0].split("::")[-1]
        if n in ("zero", "default") and not t.a[2]:
            return ZERO
        if n == "calculate_main_token_balance":
            i, o, f = t.a[2]
            return sub(sub(num_of(i), num_of(f)), num_of(o))
        if n in ("add", "sub") and len(t.a[2]) == 2:
            a, b = (worth(x) if isbal(x) else num_of(x) for x in t.a[2])
            return None if a is None or b is None else add(a, b, 1 if n == "add" else -1)
        return None
    if t.op == "adt" and t.a[0].endswith("Balance"):
        return {"Balanced": lambda: ZERO, "Excess": lambda: num_of(payload(t, "Excess")), "Debt": lambda: scale(num_of(payload(t, "Debt")), -1)}[t.a[1]]()
    return None


def isbal(t):
    return t.op in ("mut", "res") or t.op == "adt" and t.a[0].endswith("Balance")


def num_of(x):
    x = strip(x)
    return num(x)


class Bal:
    """amounts of a map of balances: what was there is a balance itself"""


def balance(x):
    """the number of a balance in a map, what was there taken as an atom"""
    if x.op == "mut" and x.a[0].endswith(("add_assign", "sub_assign")):
        return add(balance(x.a[2]), num_of(x.a[3][0]), 1 if x.a[0].endswith("add_assign") else -1)
    w = worth(x)
    return w if w is not None else mk("worth", x)


def same(got, want):
    """contributions wanted and no other"""
    return got is not None and got == want


def each(*cs):
    return tuple(("each", canon(c_)) for c_ in cs)


def el(coll):
    return mk("elem", coll, ANY)


def held(R, rule, w, led, out, base, want, start, text, like=None):
    """a total that comes to what is wanted"""
    if out is None:
        # written in a way that is not followed
        return ob(R, rule, w, False, f"{led.why}\n{text}", unknown=True)
    okk = same(out, want) and any(base is x or canon(base) is canon(x) for x in start)
    lost = base is None or (base.op in ("phi", ".", "res", "mut", "coll", "sel") and not any(canon(base) is canon(x) for x in start) and not same(out, want))
    ob(R, rule, w, okk, f"counted: {shown(out)}, from {show(base)[:200] if base is not None else '?'}; wanted: {shown(want)}\n{text}", unknown=lost and not okk)
    skip = {id(x[3]) for x in like.partial} if like is not None else set()
    if okk and like is not None:
        mine = {id(x[3]) for x in led.partial}
        for L, q, ist, ie in like.partial:
            ob(R, rule + "-always", w, q is None or id(ie) in mine, f"counted although it is not chosen: {show(q[2])[:200] if q else ''}\n{text}")
    for L, q, ist, ie in led.partial if okk else ():
        if id(ie) in skip:
            continue
        ob(R, rule + "-always", w, False, f"not in every round: {show(q[2])[:200] if q else 'the loop may end early'}\n{text}")


@rule("U01", US)
def totals(R):
    """the balances a selection starts from: the fixed inputs' and outputs' values and tokens, all of them once"""
    f = fn(R, "from_fixed_inputs_and_outputs")
    if not f:
        return
    w = where(f)
    e, rs = R.run(f)
    n = 0
    ins, outs, addr = (mk("arg", x) for x in f["params"])
    for s, kind, v in rs or []:
        if kind != "ret":
            continue
        text = path_text(s, v)
        n += 1
        for name, src in (("input", ins), ("output", outs)):
            led = Ledger(e, s, s.events())
            out, base = led.of("num", num(field(v, name + "_balance")), [ZERO])
            held(R, name + "-balance", w, led, out, base, {(each(src), None, canon(num(field(el(src), "value")))): 1}, [ZERO], text)
            led = Ledger(e, s, s.events())
            a = field(el(src), "assets")
            x = el(a)
            out, base = led.of("map", field(v, name + "_asset_balance"), [], quantity)
            held(R, name + "-assets", w, led, out, base, {(each(src, a), canon(field(x, "fingerprint")), canon(quantity(x))): 1}, [mk("empty")], text)
            named(R, w, led, text)
            ob(R, "fixed-" + name + "s", w, field(v, f"fixed_{name}s") is src, f"the fixed {name}s become {show(field(v, f'fixed_{name}s'))[:200]}\n{text}", unknown=field(v, f"fixed_{name}s").op in ("phi", "coll"))
        ob(R, "change-address", w, field(v, "change_address") is addr, f"the change address becomes {show(field(v, 'change_address'))[:200]}\n{text}")
    R.floor("outcomes", n, 1)


def named(R, w, led, text):
    """every entry of a map of assets is named by the asset whose token it stands under"""
    for k, x, st in led.puts:
        fp = field(x, "fingerprint")
        okk = True
        for nm in ("fingerprint", "policy_id", "asset_name"):
            y = field(x, nm)
            if y.op == "." and y.a[0].op == "as" and y.a[0].a and any(z.op == "get" for z in walk(y)):
                continue  # as it was
            b = k
            if y.op == "." and y.a[1] == nm:
                src = y.a[0]
                if canon(field(src, "fingerprint")) is canon(k) or entry_of(src, k):
                    continue
            okk = False
        ob(R, "entry-named", w, okk, f"the entry of {show(k)[:100]} is {show(x)[:300]}\n{text}", unknown=fp.op in ("res", "phi"))


def entry_of(src, k):
    """src is a map's value under k"""
    src, k = strip(src), strip(k)
    if src.op == "val" and k.op == "key":
        return canon(src.a[0]) is canon(k.a[0])
    if src.op == "." or src.op == "as":
        return any(z.op == "get" and strip(z.a[1]) is k for z in walk(src))
    return False


@rule("U02", US)
def balances(R):
    """what is asked of the balances: inputs less outputs less fee, by token inputs less outputs, and balanced exactly if each is"""
    f = fn(R, "calculate_main_token_balance")
    if f:
        w = where(f)
        e, rs = R.run(f, (BAL,))
        i, o, fee = (mk("*", mk("arg", x)) for x in f["params"])
        for s, kind, v in rs or []:
            if kind == "ret":
                x = worth(v)
                want = sub(sub(num(i), num(o)), num(fee))
                ob(R, "main-balance", w, x is not None and canon(x) is canon(want), f"the balance is {show(x) if x is not None else show(v)}\n{path_text(s, v)}", unknown=x is None)
    f = fn(R, "calculate_asset_balance")
    if f:
        w = where(f)
        e, rs = R.run(f, (BAL,))
        i, o = (mk("*", mk("arg", x)) for x in f["params"])
        for s, kind, v in rs or []:
            if kind == "ret":
                led = Ledger(e, s, s.events())
                out, base = led.of("map", v, [], balance)
                want = {}
                for m, sg in ((i, 1), (o, -1)):
                    x = el(m)
                    want[(each(m), canon(mk("key", x)), canon(quantity(mk("val", x))))] = sg
                held(R, "asset-balance", w, led, out, base, want, [mk("empty")], path_text(s, v))
    f = fn(R, "are_assets_balanced")
    if f:
        w = where(f)
        e, rs = R.run(f, (BAL, CALC))
        i, o = (mk("*", mk("arg", x)) for x in f["params"])
        n = set()
        for s, kind, v in rs or []:
            if kind == "ret":
                n.add(e.truth(s, v))
        all_balanced(R, "assets-balanced", w, e, rs, (i, o))
        R.floor("answers", len(n), 1)
    f = fn(R, "is_balanced")
    me = mk("*", mk("arg", "self"))
    pr = {n: field(me, n) for n in ("input_balance", "output_balance", "fee", "input_asset_balance", "output_asset_balance")}
    if f:
        w = where(f)
        e, rs = R.run(f, (BAL, CALC, r"are_assets_balanced$"))
        decided(R, "is-balanced", w, e, rs, pr, False)
    f = fn(R, "are_utxos_balanced")
    if f:
        w = where(f)
        e, rs = R.run(f, (BAL, CALC, r"are_assets_balanced$", r"::is_balanced$"))
        decided(R, "utxos-balanced", w, e, rs, pr, True)


KINDS_OF_BALANCE = {"Debt": "in_debt", "Balanced": "balanced", "Excess": "in_excess"}


def questions(evs):
    """(which question, arguments, answer) of the questions asked, of a balance by its kind as well"""
    for x in evs:
        if x[0] == "if" and isinstance(x[1], T) and x[1].op == "res":
            yield x[1].a[0].split("::")[-1], x[1].a[2], x[2]
        elif x[0] == "is" and x[2] in KINDS_OF_BALANCE and isinstance(x[1], T):
            for k, n in KINDS_OF_BALANCE.items():
                yield n, (x[1],), x[2] == k
        elif x[0] == "isnot" and isinstance(x[1], T) and set(x[2]) & set(KINDS_OF_BALANCE):
            left = set(KINDS_OF_BALANCE) - set(x[2])
            for k, n in KINDS_OF_BALANCE.items():
                if k in x[2]:
                    yield n, (x[1],), False
                elif len(left) == 1:
                    yield n, (x[1],), True


def asked(s, *names):
    """[(which question, arguments, answer)] of the questions the path asked"""
    return [q for q in questions(s.events()) if q[0] in names]


def yes(x):
    return x is True or x is TRUE or (isinstance(x, T) and x is c(True))


def loose(t):
    """an amount, or a part of it, that is not known"""
    for x in lin(t)[1]:
        while x.op in (".", "as", "sum"):
            x = x.a[1] if x.op == "sum" else x.a[0]
        if x.op in ("phi", "sel"):
            return True
    return False


def main_part(e, s, want, v=None):
    """whether the main token's balance, as wanted, is known to be nothing"""
    r = None
    for n, a, b in asked(s, "balanced") + ([("balanced", v.a[2], "v")] if v is not None and v.op == "res" and v.a[0].endswith("::balanced") else []):
        if a and a[0].op == "elem" or not a:
            continue
        x = worth(strip(a[0]))
        if x is not None and canon(x) is canon(want):
            r = b
    return r


def loops_over(evs):
    return [x[1] for x in evs if x[0] == "loop" and x[1].over is not None]


def map_part(e, s, checks, v=None):
    """whether every balance of the map for which `checks` holds is known to be nothing: (answer, why not known)"""
    why = "no balance is looked at"
    evs = s.events()
    for i, x in enumerate(evs):
        if x[0] == "loop" and x[1].over is not None:
            L = x[1]
            src = [z.a[0] for z in walk(L.over) if z.op == "it"]
            if len(src) != 1:
                continue
            good = checks(src[0])
            if good is None:
                continue
            if good is False:
                why = f"the balances are {show(src[0])[:200]}"
                continue
            kept = all(any(n == "balanced" and yes(b) for n, a, b in questions(ie)) for ie, fin, ist in L.iters)
            part = any(z.op in ("iskip", "itake", "iwhile", "ifilter", "ifmap", "iscan") for z in walk(L.over))
            if part:
                return None, f"only a part of the balances is looked at: {show(L.over)[:200]}"
            if through(evs, L):
                if kept:
                    return True, ""
                why = "a token that is not balanced is passed over"
            elif any(n == "balanced" and not yes(b) for n, a, b in questions(evs[i + 1 :])):
                return False, ""
            else:
                why = "the balances are not gone through"
    return None, why


def token_map(e, s, m, io):
    """is the map the balance of each token?"""
    if m.op == "res" and m.a[0].endswith("calculate_asset_balance"):
        return all(strip(a) is strip(b) for a, b in zip(m.a[2], io))
    if m.op not in ("phi", "mapupd"):
        return None
    led = Ledger(e, s, s.events())
    out, base = led.of("map", m, [], balance)
    want = {}
    for x, sg in ((io[0], 1), (io[1], -1)):
        want[(each(x), canon(mk("key", el(x))), canon(quantity(mk("val", el(x)))))] = sg
    return same(out, want) and base.op == "empty" and not led.partial


def assets_part(e, s, io, v=None):
    for n, a, b in asked(s, "are_assets_balanced"):
        if all(strip(x) is strip(y) for x, y in zip(a, io)):
            return yes(b), ""
    if v is not None and v.op == "res" and v.a[0].endswith("are_assets_balanced") and all(strip(x) is strip(y) for x, y in zip(v.a[2], io)):
        return "v", ""
    return map_part(e, s, lambda m: token_map(e, s, m, io))


def answer(R, rule, w, e, s, v, parts):
    """true exactly when all the parts are"""
    text = path_text(s, v)
    t = e.truth(s, v)
    vals = [p for p, _ in parts]
    why = "; ".join(x for p, x in parts if x and p not in (True, False))
    if t is None:
        okk = vals.count("v") == 1 and all(p in ("v", True) or yes(p) for p in vals)
    elif t:
        okk = all(p == "v" or yes(p) for p in vals)
    else:
        okk = any(p is False or p == "v" or (isinstance(p, T) and not yes(p)) for p in vals)
    ob(R, rule, w, okk, f"the answer is {show(v)[:200]} whatever is found: {why}\n{text}", unknown=v.op in ("phi", "and", "or", "not", "all", "any", "sel"))


def all_balanced(R, rule, w, e, rs, io):
    for s, kind, v in rs or []:
        if kind == "ret":
            answer(R, rule, w, e, s, v, [assets_part(e, s, io)])


def utxo_map(e, s, m, me, fee):
    """is the map what the inputs bring, less what the outputs take and the fee, by token?"""
    if m.op not in ("phi", "mapupd"):
        return None
    led = Ledger(e, s, s.events())
    out, base = led.of("map", m, [], balance)
    if out is None:
        return None
    main = find_main(s.events()) or find_main(all_events(s.events()))
    if main is None:
        return False
    main = canon(main)
    want = {((), main, canon(num(fee))): -1}
    for names, sg in ((("fixed_inputs", "chosen_inputs"), 1), (("fixed_outputs", "changes"), -1)):
        for n in names:
            x = field(me, n)
            want[(each(x), main, canon(num(field(el(x), "value"))))] = sg
            a = field(el(x), "assets")
            want[(each(x, a), canon(field(el(a), "fingerprint")), canon(quantity(el(a))))] = sg
    return same(out, want) and base.op == "empty" and not led.partial


def decided(R, rule, w, e, rs, pr, utxos):
    me = mk("*", mk("arg", "self"))
    n = set()
    for s, kind, v in rs or []:
        if kind != "ret":
            continue
        io = (pr["input_asset_balance"], pr["output_asset_balance"])
        want = sub(sub(num(pr["input_balance"]), num(pr["output_balance"])), num(pr["fee"]))
        m = main_part(e, s, want, v)
        parts = [(m if m in (None, "v") else yes(m), "the main token's balance is not looked at"), assets_part(e, s, io, v)]
        if utxos:
            for nm, a, b in asked(s, "is_balanced"):
                if strip(a[0]) is me or strip(a[0]) is strip(me):
                    parts = [(yes(b), "")]
            parts.append(map_part(e, s, lambda x: utxo_map(e, s, x, me, pr["fee"])))
        answer(R, rule, w, e, s, v, parts)
        n.add(e.truth(s, v))
    R.floor("answers", len(n), 1)


# ------------------------------------------------------------------ picking

SELECT = (STORE, BAL, CALC)


def setup_of(f):
    return mk("arg", f["params"][2])


def fee_of(led_out):
    """fees by what they are for: the estimator's state at the time set aside"""
    r = {}
    for (ctx, k, t), n in led_out.items():
        y = fee_call(t)
        r[(ctx, k, mk("feefor", strip(y[1])) if y else t)] = n
    return r


def fee_call(t):
    """(estimator, input) of a fee for an input"""
    for x in walk(t):
        if x.op in ("call", "res") and x.a[0].split("::")[-1] == "fee_for_input":
            a = x.a[1] if x.op == "call" else x.a[2]
            return a
    return None


def outcome(e, s, v):
    return e.variant_of(s, v)


class Books:
    """the ledgers of one successful selection"""

    def __init__(self, R, f, e, s, v):
        self.e, self.s, self.f = e, s, f
        self.v = payload(v, "Ok")
        self.text = path_text(s, v)
        self.setup = setup_of(f)
        st = self.setup
        evs = s.events()
        self.led = {}
        L = lambda n: self.led.setdefault(n, Ledger(e, s, evs))
        self.chosen = L("chosen").of("list", field(self.v, "chosen_inputs"))
        self.start_total = num(field(st, "input_balance"))
        self.total = L("total").of("num", num(field(self.v, "input_balance")), [self.start_total])
        self.start_assets = field(st, "input_asset_balance")
        self.assets = L("assets").of("map", field(self.v, "input_asset_balance"), [self.start_assets], quantity)
        fee = next((x[1] for x in evs if x[0] == "is" and isinstance(x[1], T) and "min_required_fee" in show(x[1])[:200]), None)
        self.start_fee = None
        for x in all_events(evs):
            if x[0] == "is" and isinstance(x[1], T) and x[1].op in ("call", "res") and x[1].a[0].split("::")[-1] == "min_required_fee":
                self.start_fee = num(payload(x[1], "Ok"))
                break
        self.fee = L("fee").of("num", num(field(self.v, "fee")), [self.start_fee] if self.start_fee is not None else [])
        est = mk("arg", f["params"][1])
        self.est_ptr = mk("D", est)
        self.start_est = mk("*", est)
        self.est_now = e.load(s, (self.est_ptr, ()))
        self.est = L("est").of("mut", self.est_now, [self.start_est])


def picks(R, rule, w, B):
    """the inputs chosen, and the same inputs in every book"""
    out, base = B.chosen
    if out is None or base is None or base.op != "empty":
        ob(R, rule, w, False, f"the chosen inputs are {show(field(B.v, 'chosen_inputs'))[:300]}: {B.led['chosen'].why}\n{B.text}", unknown=True)
        return None
    for L, q, ist, ie in B.led["chosen"].partial:
        return maybe_part(R, rule, w, B, "chosen", out)
    return out


def maybe_part(R, rule, w, B, n, out):
    return out


def books_agree(R, w, B, chosen):
    """every chosen input is counted once for its value, for each of its tokens, in the fee and with the estimator, and nothing else is"""
    t = {}
    a = {}
    fee = {}
    est = {}
    for (ctx, k, x), n in chosen.items():
        def put(d, q):
            d[q] = d.get(q, 0) + n
        put(t, (ctx, None, canon(num(field(x, "value")))))
        ass = canon(field(x, "assets"))
        put(a, (ctx + (("each", ass),), canon(field(el(ass), "fingerprint")), canon(quantity(el(ass)))))
        put(fee, (ctx, None, mk("feefor", x)))
        put(est, (ctx, "add_input", x))
    what = [("total", B.total, t, B.start_total, "the value of the chosen inputs"), ("assets", B.assets, a, B.start_assets, "the tokens of the chosen inputs")]
    for n, (out, base), want, start, text in what:
        held(R, n, w, B.led[n], out, base, want, [start], f"{text}\n{B.text}", B.led["chosen"])
    out, base = B.fee
    if out is not None:
        out = fee_of(out)
    held(R, "fee", w, B.led["fee"], out, base, fee, [B.start_fee] if B.start_fee is not None else [], B.text, B.led["chosen"])
    out, base = B.est
    if out is not None:
        o2 = {}
        for (ctx, k, x), n in out.items():
            q = (ctx, k.split("::")[-1], strip(field(x, "0")) if x.op in ("tuple", "adt") else strip(x))
            o2[q] = o2.get(q, 0) + n
        out = o2
    held(R, "estimator", w, B.led["est"], out, base, est, [B.start_est], B.text, B.led["chosen"])
    named(R, w, B.led["assets"], B.text)


def kept_parts(R, w, B):
    for n in ("output_balance", "output_asset_balance", "fixed_inputs", "fixed_outputs"):
        x, y = field(B.v, n), field(B.setup, n)
        ob(R, "passed-on", w, canon(x) is canon(y) or n == "output_balance" and canon(num(x)) is canon(num(y)), f"{n} becomes {show(x)[:200]}\n{B.text}", unknown=x.op in ("phi", "coll", "res"))


def successes(R, own, n=1, opaque=SELECT):
    f = fn(R, "select_inputs", own)
    if not f:
        return
    e, rs = R.run(f, opaque)
    k = 0
    for s, kind, v in rs or []:
        if kind == "ret" and e.variant_of(s, v) == "Ok":
            k += 1
            yield f, e, s, v
    R.floor("successes", k, n)


def taken(R, w, B, loc_field, chosen):
    """what is chosen is no longer offered, and nothing else goes"""
    e, s, f = B.e, B.s, B.f
    now = final(s, f, e)
    me = mk("*", mk("arg", "self"))
    led = Ledger(e, s, s.events())
    start = field(me, loc_field)
    out, base = led.of("mut", field(now, loc_field), [start], None, ("freeze", "thaw", "clone"))
    if out is not None:
        o2 = {}
        for (ctx, k, x), n in out.items():
            y = strip(field(x, "0")) if x.op in ("tuple", "adt") else strip(x)
            o2[(ctx, k.split("::")[-1], y)] = n
        out = o2
    want = {(ctx, "remove", canon(field(x, "pointer"))): n for (ctx, k, x), n in chosen.items()}
    held(R, "no-longer-offered", w, led, out, base, want, [start, strip(start)], B.text)
    return led


def rounds(evs):
    """[(events, values, state, loop)] of every round of every loop"""
    for x in evs:
        if x[0] == "loop":
            for ie, fin, ist in x[1].iters:
                yield ie, fin, ist, x[1]
                yield from rounds(ie)


@rule("U03", US)
def largest_books(R):
    """largest first: what is chosen is what is counted, it is the most valuable there is of what is wanted, and it is not offered again"""
    f = None
    for f, e, s, v in successes(R, "largest_first"):
        w = where(f)
        B = Books(R, f, e, s, v)
        ch = picks(R, "chosen", w, B)
        if ch is None:
            continue
        R.counts["picks"] = len(ch)
        books_agree(R, w, B, ch)
        kept_parts(R, w, B)
        taken(R, w, B, "available_inputs", ch)
        for (ctx, k, x), n in ch.items():
            ob(R, "counted-once", w, n == 1, f"{show(x)[:200]} is chosen {n} times\n{B.text}")
            src = [y for y in walk(x) if y.op == "res" and y.a[0].split("::")[-1] == "iter_token_ordered_by_value_rev"]
            low = [y for y in walk(x) if y.op == "res" and y.a[0].split("::")[-1] in ("iter_token_ordered_by_value", "iter_ordered_by_value", "iter", "iter_token")]
            ob(R, "largest", w, bool(src) and not low, f"{show(x)[:200]} is chosen\n{B.text}", unknown=not src and not low)
            if not src:
                continue
            store, token = src[0].a[2][0], strip(src[0].a[2][1])
            inner = [y for y in walk(x) if y.op in ("elem", "val")]
            own = x.op in ("val", "elem") and (x.a[0] if x.op == "val" else x).a[0] is src[0]
            ob(R, "largest", w, own, f"{show(x)[:200]} is chosen\n{B.text}", unknown=True)
            main = mainly(token)
            tok = token.op == "key" or token.op == "." and token.a[1] == "fingerprint"
            ob(R, "wanted", w, main or tok and any(y.op == "elem" and canon(y.a[0]) is canon(field(B.setup, "output_asset_balance")) for y in walk(token)), f"the largest of {show(token)[:200]} is chosen\n{B.text}", unknown=not tok and not main)
            # from the store as it stands
            cur = None
            for ie, fin, ist, L in rounds(s.events()):
                for r in walk_events(ie):
                    if r is src[0] or canon(r) is src[0]:
                        cur = [p for loc, (i, p) in L.phis.items() if p is store]
                        cur = L if cur else cur
            ob(R, "from-what-is-left", w, store.op == "phi" and cur is not None, f"chosen from {show(store)[:200]}\n{B.text}", unknown=store.op not in (".", "arg", "phi"))
        # the first of them: each draws once from its own order
        for ie, fin, ist, L in rounds(s.events()):
            draws = [x for x in ie if x[0] in ("next", "pick") and any(z.op == "it" and z.a[0].op == "res" and z.a[0].a[0].endswith("by_value_rev") for z in walk(x[1] if x[0] == "next" else x[2]))]
            if draws:
                x = draws[0]
                it = x[1] if x[0] == "next" else x[2]
                okk = len(draws) == 1 and (len(x) > 3 and x[3] is True if x[0] == "next" else x[1].endswith("next")) and it.op == "it"
                ob(R, "first", w, okk, f"not the first of {show(it)[:200]} is chosen\n{B.text}", unknown=it.op not in ("it", "irev", "iskip") and len(draws) == 1)
        fees_before(R, w, B)
    untouched(R, f, SELECT, ("available_inputs",), 3)


def untouched(R, f, opaque, names, n):
    """a selection that fails leaves what is offered as it was"""
    if not f:
        return
    e, rs = R.run(f, opaque)
    k = 0
    me = mk("*", mk("arg", "self"))
    for s, kind, v in rs or []:
        if kind == "ret" and e.variant_of(s, v) == "Err":
            k += 1
            for q in names:
                x = field(final(s, f, e), q)
                ob(R, "failed-untouched", where(f), x is field(me, q), f"a selection fails, and {q} becomes {show(x)[:200]}\n{path_text(s, v)}", unknown=x.op == "sel")
    R.floor("failures", k, n)


def walk_events(ie):
    for x in ie:
        if x[0] == "call" and isinstance(x[3], T):
            yield x[3]


def mainly(t):
    return t.op == "adt" and t.a[0].endswith("TokenId") and "0" * 64 in show(t)


def fees_before(R, w, B):
    """the fee for an input is asked before the input is added"""
    out, base = B.fee
    for (ctx, k, t), n in (out or {}).items():
        y = fee_call(t)
        if y:
            est, x = strip(y[0]), strip(y[1])
            late = any(z.op == "mut" and z.a[0].split("::")[-1] == "add_input" and strip(z.a[3][0]) is x for z in walk(est))
            ob(R, "fee-before", w, not late, f"the fee for {show(x)[:100]} is asked of {show(est)[:200]}\n{B.text}")


# ------------------------------------------------------------------ enough


def not_in_debt(e, s, want):
    """is it known that what is left, as wanted, is not negative?"""
    r = None
    for n, a, b in asked(s, "in_debt", "balanced", "in_excess"):
        q = worth(strip(a[0])) if a else None
        if q is not None and canon(q) is canon(want):
            b = yes(b)
            if (n == "in_debt" and not b) or (n != "in_debt" and b):
                r = True
    if r is None and e.sign(s, want) <= frozenset("0+"):
        r = True
    return r


def covered(R, w, B):
    v = B.v
    left = sub(sub(num(field(v, "input_balance")), num(field(v, "fee"))), num(field(v, "output_balance")))
    okk = not_in_debt(B.e, B.s, left)
    ob(R, "main-covered", w, okk is True, f"success, whether or not the inputs pay for the outputs and the fee: {show(left)[:300]}\n{B.text}", unknown=okk is None and left.op == "res")


@rule("U04", US)
def largest_enough(R):
    """largest first: success means that the inputs pay for every output token, for the main token and for the fee"""
    for f, e, s, v in successes(R, "largest_first"):
        w = where(f)
        B = Books(R, f, e, s, v)
        covered(R, w, B)
        wanted = field(B.setup, "output_asset_balance")
        loops = [x[1] for x in s.events() if x[0] == "loop" and x[1].over is not None and any(canon(z.a[0]) is canon(wanted) for z in walk(x[1].over) if z.op == "it")]
        whole_ = [L for L in loops if not any(z.op in ("iskip", "itake", "iwhile", "ifilter", "ifmap", "iscan") for z in walk(L.over)) and through(s.events(), L)]
        ob(R, "every-token", w, bool(whole_), f"not every token asked for is gone through\n{B.text}", unknown=not loops)
        good = False
        why = ""
        for L in whole_:
            res_ = [enough(B, e, ie, fin, ist, L, wanted) for ie, fin, ist in L.iters]
            if res_ and all(r is True for r, _ in res_):
                good = True
            why = "; ".join(str(x) for r, x in res_ if r is not True)[:800]
            und = any(r is None for r, x in res_) and not any(r is False for r, x in res_)
        if whole_:
            ob(R, "token-covered", w, good, f"a token asked for may not be covered: {why}\n{B.text}", unknown=und)


def enough(B, e, ie, fin, ist, L, wanted):
    """at the end of that round the inputs have the token asked for"""
    val = canon(mk("val", el(wanted)))
    key = canon(mk("key", el(wanted)))
    need = canon(quantity(val))
    loc = next((q for q, (i, p) in L.phis.items() if asset_map(p, B, L, q)), None)
    if loc is None:
        return None, "the tokens of the inputs do not change in it"
    m = fin[loc]
    # what the path compared with what is needed
    for fk in facts_of(e, ist):
        d, sg = fk
        d = canon(d)
        k, dd = lin(d)
        if need not in dd:
            continue
        c_ = dd[need]
        have = sub(scale(need, 1), scale(d, 1 if c_ > 0 else -1)) if abs(c_) == 1 else None
        if have is None:
            continue
        # sign of have - need
        s2 = frozenset({"+": "-", "-": "+", "0": "0"}[x] for x in sg) if c_ > 0 else sg
        if not s2 <= frozenset("0+"):
            continue
        r, why = backed(B, e, ie, ist, L, loc, have, key, m)
        if r:
            return True, ""
        return r, why
    return False, f"nothing is known of what there is of it, {show(need)[:100]} being asked for"


def facts_of(e, st):
    r = []
    for k, x in st.facts.items():
        if k[0] == "s" and not isinstance(x, str):
            r.append((k[1], x))
    return r


def asset_map(p, B, L, loc):
    """the place holds the tokens of the inputs"""
    led = B.led["assets"]
    b = p
    # the map of the result leads back to it
    seen = set()
    v = field(B.v, "input_asset_balance")
    for _ in range(20):
        while v.op in ("mapupd", "mapdel"):
            v = v.a[0]
        if v is p:
            return True
        q, l2, i, pr = led.owner(v, B.s.events())
        if q is None:
            return False
        if q is L and l2 == loc:
            return True
        v = i
    return False


def backed(B, e, ie, ist, L, loc, have, key, m):
    """is there at least `have` of the token in the map?"""
    # the map's own number
    h = canon(have)
    if h.op == "." and any(z.op == "get" and canon(z.a[1]) is key for z in walk(h)):
        g = next(z for z in walk(h) if z.op == "get" and canon(z.a[1]) is key)
        if canon(quantity(payload(g, "Some"))) is h:
            b = canon(m)
            while b is not g.a[0] and b.op == "mapupd" and canon(b.a[1]) is not key:
                b = b.a[0]
            return (True, "") if b is g.a[0] else (None, f"compared with {show(h)[:200]}, left with {show(m)[:200]}")
    # a number kept beside it: it starts as the map's, and grows only by what the map gets for the token
    A = Ledger(e, ist, ie)
    out, base = A.of("num", have, [])
    if out is None:
        return None, f"compared with {show(have)[:200]}: {A.why}"
    Mp = Ledger(e, ist, ie)
    mo, mb = Mp.of("map", m, [], quantity)
    if mo is None:
        return None, f"compared with {show(have)[:200]}: {Mp.why}"
    # start
    st0 = None
    if mb is not None:
        q = get_sign(ist, mb, key)
        if base is not None and canon(base) is ZERO or base is None:
            st0 = True  # less than there can be
        g = [z for z in walk(canon(base if base is not None else ZERO)) if z.op == "get" and canon(z.a[1]) is key and z.a[0] is canon(mb)]
        if g and canon(quantity(payload(g[0], "Some"))) is canon(base):
            st0 = True
    extra = {q: n for q, n in out.items()}
    for (ctx, k, t), n in list(out.items()):
        g = [z for z in walk(t) if z.op == "get" and canon(z.a[1]) is key and canon(z.a[0]) is canon(mb)]
        if n == 1 and not ctx and g and canon(quantity(payload(g[0], "Some"))) is t and st0:
            del extra[(ctx, k, t)]
    if st0 is None:
        return None, f"compared with {show(have)[:200]}, which starts as {show(base)[:200] if base is not None else '?'}"
    for (ctx, k, t), n in extra.items():
        tok = [kk for (cx, kk, tt), mm in mo.items() if cx == ctx and tt is t and mm >= n]
        if not tok:
            return False, f"{show(t)[:200]} is taken to be there"
        # only when it is of the token
        if not only_when(e, ie, A, t, tok, key):
            return False, f"{show(t)[:200]} is taken to be of the token"
    return True, ""


def get_sign(st, m, key):
    return None


def only_when(e, ie, A, t, tok, key):
    """every round in which the number grows by t is one for the token"""
    for je, fin, jst, L in rounds(ie):
        for loc, (i, p) in L.phis.items():
            x = fin.get(loc)
            if x is None:
                continue
            d = canon(sub(x, p)) if x.op in ("lin", "phi", ".", "c") or True else None
            k, dd = lin(d)
            if t in dd:
                if not any(e.sign(jst, sub(unanon(jst, je, kk, t), keyin(je, jst, key))) == frozenset("0") or known_equal(jst, kk, key) for kk in tok):
                    return False
    return True


def known_equal(st, a, b):
    for k, x in st.facts.items():
        if k[0] == "s" and not isinstance(x, str) and x == frozenset("0"):
            d = canon(k[1])
            kk, dd = lin(d)
            if not kk and set(dd) == {a, b} and sum(dd.values()) == 0:
                return True
    return a is b


def unanon(st, ie, k, t):
    return k


def keyin(ie, st, key):
    return key


# ------------------------------------------------------------------ change


def nothing_left(e, s, r):
    """is the number nothing, given what the balances looked at were found to be?"""
    r = canon(r)
    zero = []
    for fk, x in s.facts.items():
        if fk[0] == "d" and isinstance(x, str) and x in ("Excess", "Debt", "Balanced"):
            q = worth(fk[1])
            if q is None:
                continue
            q = canon(q)
            if x == "Balanced":
                zero.append(q)
            else:
                r = canon(subst(r, {canon(num(payload(fk[1], x))): q if x == "Excess" else scale(q, -1)}))
    return r is ZERO or any(r is q or r is scale(q, -1) for q in zero) or e.sign(s, r) == frozenset("0"), r


@rule("U05", US)
def change(R):
    """success of a change balancer means that nothing is left over, in the main token and in every other, and that what it returns is the change it made"""
    for own in ("balance_change_single_output", "balance_change_fee"):
        single = own == "balance_change_single_output"
        for f, e, s, v in successes(R, own):
            w = where(f)
            B = Books(R, f, e, s, v)
            v, st = B.v, B.setup
            text = B.text
            for n in ("input_asset_balance", "fixed_inputs", "fixed_outputs"):
                x, y = field(v, n), field(st, n)
                ob(R, "passed-on", w, canon(x) is canon(y), f"{n} becomes {show(x)[:200]}\n{text}", unknown=x.op in ("phi", "coll", "res"))
            ob(R, "no-inputs", w, field(v, "chosen_inputs").op == "empty" and canon(num(field(v, "input_balance"))) is canon(B.start_total), f"inputs are added: {show(field(v, 'chosen_inputs'))[:200]}, {show(field(v, 'input_balance'))[:200]}\n{text}", unknown=field(v, "chosen_inputs").op in ("phi", "coll", "res"))
            left = sub(sub(num(field(v, "input_balance")), num(field(v, "fee"))), num(field(v, "output_balance")))
            okk, r = nothing_left(e, s, left)
            ob(R, "nothing-left", w, okk, f"success, with {show(r)[:400]} left over\n{text}", unknown=loose(r))
            led = Ledger(e, s, s.events())
            changes, base = led.of("list", field(v, "changes"))
            if changes is None or base.op != "empty":
                ob(R, "changes", w, False, f"the changes are {show(field(v, 'changes'))[:200]}\n{text}", unknown=True)
                continue
            io = (field(st, "input_asset_balance"), field(st, "output_asset_balance"))
            fees = sub(num(field(v, "fee")), B.start_fee) if B.start_fee is not None else num(field(v, "fee"))
            outs, _ = B.est
            outs = {k[1].split("::")[-1] + " " + str(id(canon(strip(field(k[2], "0"))))): n for k, n in (outs or {}).items()}
            if not changes:
                okk, why = assets_part(e, s, io)
                ob(R, "tokens-balanced", w, okk is True or okk == "v", f"success without a change, whether or not the tokens are balanced: {why}\n{text}", unknown=okk is None and not why)
                for n in ("output_balance", "output_asset_balance"):
                    x, y = field(v, n), field(st, n)
                    ob(R, "passed-on", w, canon(x) is canon(y), f"{n} becomes {show(x)[:200]}\n{text}", unknown=x.op in ("phi", "coll", "res"))
                ob(R, "outputs-told", w, not outs, f"an output is added to the estimate that is not a change\n{text}")
                continue
            if len(changes) != 1 or next(iter(changes))[0] != ():
                ob(R, "changes", w, False, f"the changes are {shown(changes)}\n{text}", unknown=True)
                continue
            ch = next(iter(changes))[2]
            ob(R, "change-output", w, next(iter(changes.values())) == 1 and canon(sub(num(field(v, "output_balance")), num(field(st, "output_balance")))) is canon(num(field(ch, "value"))), f"the outputs grow by {show(sub(num(field(v, 'output_balance')), num(field(st, 'output_balance'))))[:300]}, the change is {show(ch)[:300]}\n{text}")
            ob(R, "change-positive", w, e.sign(s, canon(num(field(ch, "value")))) <= frozenset("0+") or sign_bare(e, s, num(field(ch, "value"))), f"the change may be less than nothing: {show(num(field(ch, 'value')))[:300]}\n{text}")
            ob(R, "change-address", w, canon(field(ch, "address")) is canon(payload(field(st, "change_address"), "Some")), f"the change goes to {show(field(ch, 'address'))[:200]}\n{text}")
            y = [t for t in walk(fees) if t.op in ("call", "res") and t.a[0].split("::")[-1] == "fee_for_output"]
            okk = len(y) == 1
            if okk:
                est, o = (y[0].a[1] if y[0].op == "call" else y[0].a[2])[:2]
                okk = canon(fees) is canon(num(payload(y[0], "Ok"))) and canon(strip(est)) is canon(strip(B.start_est)) and all(canon(field(o, n)) is canon(field(ch, n)) for n in ("address", "assets", "extra"))
            ob(R, "change-fee", w, okk, f"the fee grows by {show(fees)[:300]}\n{text}", unknown=loose(fees))
            ob(R, "outputs-told", w, outs == {"add_output " + str(id(canon(ch))): 1}, f"the estimate is not told of the change as it is\n{text}", unknown=B.est[0] is None)
            # tokens
            led = Ledger(e, s, s.events())
            lst, lb = led.of("list", field(ch, "assets"))
            if lst is None or lb.op != "empty":
                ob(R, "change-tokens", w, False, f"the change holds {show(field(ch, 'assets'))[:200]}: {led.why}\n{text}", unknown=True)
                continue
            calc = None
            okk = bool(lst)
            want = {}
            for (ctx, k, x), n in lst.items():
                if len(ctx) != 1 or ctx[0][0] != "each" or n != 1:
                    okk = False
                    continue
                calc = ctx[0][1]
                b = mk("val", el(calc))
                exc = canon(num(payload(b, "Excess")))
                fp = canon(field(x, "fingerprint"))
                fine = token_map_c(e, s, calc, io) and canon(quantity(x)) is exc and entry_key(fp, el(calc), io[0])
                okk = okk and fine
                want[(ctx, fp, exc)] = 1
            ob(R, "change-tokens", w, okk, f"the change holds {shown(lst)}\n{text}", unknown=calc is None and any(z.op in ("phi",) for z in walk(field(ch, "assets"))) and len(lst) == 0)
            for L, q, ist, ie in led.partial if okk else ():
                ok2 = q is not None and any(fk[0] == "d" and x == "Balanced" and canon(fk[1]) is canon(mk("val", el(calc))) for fk, x in ist.facts.items())
                ob(R, "every-excess", w, ok2, f"a token left over does not go into the change\n{text}")
            led = Ledger(e, s, s.events())
            out, base = led.of("map", field(v, "output_asset_balance"), [io[1]], quantity)
            held(R, "output-tokens", w, led, out, base, want, [io[1]], text) if okk else None
            named(R, w, led, text)
        f = fn(R, "select_inputs", own)
        if f:
            refusals(R, f, own)


def sign_bare(e, s, x):
    x = canon(x)
    for d, sg in facts_of(e, s):
        d = canon(d)
        if d is x and sg <= frozenset("0+"):
            return True
        if d is scale(x, -1) and sg <= frozenset("0-"):
            return True
    return False


def token_map_c(e, s, m, io):
    if m.op == "res" and m.a[0].endswith("calculate_asset_balance"):
        return all(canon(a) is canon(b) for a, b in zip(m.a[2], io))
    # the term as the path has it
    for L in loops_over(s.events()):
        for z in walk(L.over):
            if z.op == "it" and canon(z.a[0]) is m:
                return token_map(e, s, z.a[0], io) is True
    return False


def entry_key(fp, el_, ins):
    """the token of the entry of the inputs under the balance's key, or the key"""
    k = canon(mk("key", el_))
    if fp is k:
        return True
    return any(z.op == "get" and z.a[0] is canon(ins) and canon(z.a[1]) is k for z in walk(fp)) and fp.op == "." and fp.a[1] == "fingerprint"


def refusals(R, f, own):
    """no failure when there is nothing wrong: each is for a debt, a missing address, an unbalanced token, or the estimator's"""
    w = where(f)
    e, rs = R.run(f, SELECT)
    st = setup_of(f)
    io = (field(st, "input_asset_balance"), field(st, "output_asset_balance"))
    n = 0
    for s, kind, v in rs or []:
        if kind != "ret" or e.variant_of(s, v) != "Err":
            continue
        n += 1
        why = None
        for fk, x in s.facts.items():
            if fk[0] != "d":
                continue
            t = fk[1]
            if x == "Debt" and (worth(t) is not None or t.op == "val"):
                why = "debt"
            elif x == "Err" and t.op in ("call", "res"):
                why = "estimator"
            elif x == "None" and canon(t) is canon(field(st, "change_address")):
                why = "address"
            elif x == "None" and t.op == "get" and canon(t.a[0]) is canon(io[0]):
                why = "unknown token"
        if why is None:
            for q, a, b in questions(all_events(s.events())):
                if q in ("balanced", "are_assets_balanced") and not yes(b):
                    why = "unbalanced"
                if q == "in_debt" and yes(b):
                    why = "debt"
        if why is None:
            # the change cannot pay for itself
            for d, sg in facts_of(e, s):
                y = [t for t in walk(d) if t.op in ("call", "res") and t.a[0].split("::")[-1] == "fee_for_output"]
                if not y:
                    continue
                k, dd = lin(d)
                a = num(payload(y[0], "Ok"))
                n_ = dd.get(a)
                if n_ is not None and (n_ > 0 and sg <= frozenset("+") or n_ < 0 and sg <= frozenset("-")):
                    why = "too small"
        ob(R, "refused-for-cause", w, why is not None, f"refused although everything may be paid\n{path_text(s, v)}", unknown=True if why is None and any(x[0] == "loop" for x in s.events()) and False else False)
    R.floor("refusals", n, 2)


# ------------------------------------------------------------------ random improve


def plain(ctx):
    """a list made of all of another stands for it"""
    r = []
    for s in ctx:
        x = s[1]
        if s[0] == "each" and isinstance(x, T) and x.op == "coll" and x.a[-1] == "exact" and len(x.a[1]) == 1:
            y = strip(x.a[1][0])
            y = y.a[0] if y.op in ("key", "val", "ref") and y.a and isinstance(y.a[0], T) else y
            if y.op in ("elem", "E") and canon(y.a[0]) is canon(x.a[0]):
                s = ("each", canon(x.a[0]))
        r.append(s)
    return tuple(r)


def plainly(led):
    out, base = led
    if out is None:
        return led
    r = {}
    for (ctx, k, x), n in out.items():
        q = (plain(ctx), k, x)
        r[q] = r.get(q, 0) + n
    return r, base


class Round:
    def __init__(self, ie, fin, ist, L):
        self.ie, self.fin, self.ist, self.L = ie, fin, ist, L

    def phi(self, loc):
        return self.L.phis[loc][1]


def offer_values(B):
    """what the set of what is on offer is, at the head of every loop: all that leads to what is on offer in the end"""
    if hasattr(B, "offered"):
        return B.offered
    phis = {}
    for x in all_events(B.s.events()):
        if x[0] == "loop":
            for loc, (i, p) in x[1].phis.items():
                phis[p] = [i] + [fin[loc] for _, fin, _ in x[1].iters]
    r, todo = set(), [field(final(B.s, B.f, B.e), "available_indices")]
    while todo:
        v = strip(todo.pop())
        while v.op in ("mapdel", "mapupd") or v.op == "call" and v.a[0].split("::")[-1] == "clone":
            v = strip(v.a[0] if v.op != "call" else v.a[1][0])
        if v in r:
            continue
        r.add(v)
        todo += phis.get(v, ())
    B.offered = r
    return r


def offers(B, rd):
    """(what was offered, what goes, what comes back) of a round"""
    for loc, (i, p) in rd.L.phis.items():
        if p in offer_values(B):
            v = rd.fin[loc]
            gone, back = [], []
            while v is not p:
                if v.op in ("mapdel", "mapupd"):
                    (gone if v.op == "mapdel" else back).append(canon(v.a[1]))
                    v = v.a[0]
                    continue
                # what loops within the round do is looked at on its own
                v2 = next((i2 for x in rd.ie if x[0] == "loop" for i2, p2 in x[1].phis.values() if p2 is v), None)
                if v2 is None:
                    break
                v = v2
            if v is not p:
                return p, loc, None, None
            return p, loc, gone, back
    return None, None, [], []


REMOVES = ("swap_remove", "remove", "pop", "pop_front", "pop_back", "pop_first", "pop_last", "take")


def removal(i):
    """the list an item was taken out of"""
    for x in (i,) + ((i.a[0].a[0],) if i.op == "." and i.a[0].op == "as" else ()):
        if x.op in ("call", "res") and x.a[0].split("::")[-1] in REMOVES:
            a = x.a[1] if x.op == "call" else x.a[2]
            return a[0]
    return None


def from_offer(B, rd, i, p, gone, back):
    """True: the item was on offer and the list it came from forgets it"""
    if i.op == "elem" and i.a[0] is p:
        return True, ""
    rel = removal(i)
    if rel is not None:
        loc = next((q for q, (a, b) in rd.L.phis.items() if b is rel), None)
        if rel is p or loc is not None and within_offer(B, rd.L, loc):
            return True, ""
        return (False if loc is not None else None), f"{show(i)[:200]} is not known to be on offer"
    if i.op == "idx":
        loc = next((q for q, (a, b) in rd.L.phis.items() if b is i.a[0]), None)
        if loc is not None and within_offer(B, rd.L, loc):
            x = rd.fin[loc]
            if x.op == "updi" and x.a[0] is i.a[0] and x.a[1] is i.a[1]:
                return canon(x.a[2]) in back, f"{show(x.a[2])[:200]} takes its place, and does not come back on offer"
            return False, f"{show(i)[:200]} stays where it was taken from"
        return (False if loc is not None else None), f"{show(i)[:200]} is not known to be on offer"
    return None, f"{show(i)[:200]}: not followed"


def within_offer(B, L, loc):
    """the list at the place holds what was on offer when it was made, whatever went since"""
    rel = L.phis[loc][0]
    av = next((q for q in L.phis if L.phis[q][1] in offer_values(B)), None)
    if av is None:
        return False
    src = L.phis[av][0]
    for _ in range(10):
        if rel.op != "phi":
            break
        for ie, fin, ist, M in [(None, None, None, x[1]) for x in all_events(B.s.events()) if x[0] == "loop"]:
            l2 = next((q for q, (a, b) in M.phis.items() if b is rel), None)
            if l2 is not None:
                if M.phis[l2][0].op in ("empty", "array") and not (M.phis[l2][0].op == "array" and M.phis[l2][0].a[0]):
                    # put together by a loop
                    src_ = strip(src)
                    for _, fin_, _ in M.iters:
                        v = fin_[l2]
                        while v.op in ("push", "vpush", "mapupd") and canon(strip(v.a[1])) is canon(el(src_)):
                            v = v.a[0]
                        if v is not rel:
                            return False
                    return True
                rel = M.phis[l2][0]
                a2 = next((q for q, (a, b) in M.phis.items() if b is src), None)
                if a2 is not None:
                    src = M.phis[a2][0]
                break
        else:
            return False
    if rel.op == "coll":
        its = [rel.a[0]] if rel.a[0] is src else [z.a[0] for z in walk(rel.a[0]) if z.op == "it"]
        return its[:1] == [src] and all(canon(strip(x)) is canon(el(src)) for x in rel.a[1])
    return rel is src


def amount_of(st, x, ie=()):
    """(whose amount, of what) a number is: an input's or output's own value, or what it holds of a token"""
    x = canon(x)
    if x.op == "." and x.a[1] == "value" and x.a[0].op == "." and x.a[0].a[1] == "value":
        return x.a[0].a[0], "main"
    if x.op == "." and x.a[1] == "value" and x.a[0].op == "." and x.a[0].a[1] == "quantity":
        y = x.a[0].a[0]
        if y.op == "elem" and y.a[0].op == "." and y.a[0].a[1] == "assets":
            fp = canon(field(y, "fingerprint"))
            for d, sg in equalities(st, ie):
                k, dd = lin(canon(d))
                if sg == frozenset("0") and not k and len(dd) == 2 and fp in dd and sum(dd.values()) == 0:
                    return y.a[0].a[0], next(t for t in dd if t is not fp)
            return y.a[0].a[0], None
    return None, None


def equalities(st, ie):
    yield from facts_of(None, st)
    for x in all_events(ie):
        if x[0] == "if" and isinstance(x[1], T) and x[1].op == "rel" and x[2] is True:
            yield x[1].a[0], frozenset(x[1].a[1])


def flat_rounds(evs, up=()):
    for x in evs:
        if x[0] == "loop":
            for ie, fin, ist in x[1].iters:
                rd = Round(ie, fin, ist, x[1])
                yield rd, up
                yield from flat_rounds(ie, up + (rd,))


@rule("U06", US)
def random_improve(R):
    """random improve: what is chosen is what is counted, no input twice, every output's main value and tokens are covered by the inputs chosen for it, and swapping inputs leaves it covered"""
    seen = [0, 0, 0]
    for f, e, s, v in successes(R, "random_improve"):
        w = where(f)
        B = Books(R, f, e, s, v)
        B.chosen, B.total, B.assets, B.fee, B.est = map(plainly, (B.chosen, B.total, B.assets, B.fee, B.est))
        ch = picks(R, "chosen", w, B)
        if ch is None:
            continue
        books_agree(R, w, B, ch)
        kept_parts(R, w, B)
        covered(R, w, B)
        fees_before(R, w, B)
        once_each(R, w, B, ch, seen)
        outputs_covered(R, w, B, e, s, seen)
    untouched(R, fn(R, "select_inputs", "random_improve"), SELECT, ("available_inputs", "available_indices"), 3)
    R.floor("draws", seen[0], 1)
    R.floor("swaps", seen[1], 1)
    R.floor("outputs covered", seen[2], 2)


def once_each(R, w, B, ch, seen):
    ins = field(mk("*", mk("arg", "self")), "available_inputs")
    lists, direct = {}, {}
    for (ctx, k, x), n in ch.items():
        ob(R, "counted-once", w, n == 1, f"{show(x)[:200]} is chosen {n} times\n{B.text}")
        okk = x.op == "idx" and canon(x.a[0]) is canon(ins)
        ob(R, "from-the-inputs", w, okk, f"{show(x)[:200]} is chosen\n{B.text}", unknown=not okk)
        if okk:
            i = x.a[1]
            b = i
            while b.op == "elem":
                b = b.a[0]
            if i.op == "elem" and b not in offer_values(B) and b not in {canon(x) for x in offer_values(B)}:
                lists[b] = i
            else:
                direct[i] = ctx
    for rd, up in flat_rounds(B.s.events()):
        p, loc, gone, back = offers(B, rd)
        if gone is None:
            ob(R, "offers", w, False, f"what is on offer becomes {show(rd.fin[loc])[:200]} in a round\n{B.text}", unknown=True)
            continue
        inn = []
        for l2, x in rd.fin.items():
            if l2[0].op == "E" and x.op in ("push", "vpush") and strip_elem(l2[0]) in lists:
                inn.append((x.a[1], None))
        for x in rd.ie:
            if x[0] == "w" and isinstance(x[1], T) and x[1].op == "E" and strip_elem(x[1]) in lists and not x[2]:
                inn.append((x[3], mk("elem", x[1].a[0], ANY)))
        for i in direct:
            if i.op == "elem" and i.a[0] is p or removal(i) is not None and any(b is removal(i) for a, b in rd.L.phis.values()):
                inn.append((i, None))
        for i, old in inn:
            seen[1 if old is not None else 0] += 1
            ci = canon(i)
            ob(R, "no-longer-offered", w, ci in gone, f"{show(i)[:200]} is chosen, and stays on offer\n{B.text}")
            j = mk(i.op, i.a[0], ANY) if i.op == "elem" else i
            okk, why = from_offer(B, rd, j, p, gone, back) if p is not None else (False, "nothing goes from what is on offer")
            ob(R, "drawn-from-offer", w, okk is True, f"{why}\n{B.text}", unknown=okk is None)
            if old is not None:
                ob(R, "swap-offered-again", w, canon(old) in back, f"{show(old)[:200]} is no longer chosen, and not on offer either\n{B.text}")
        olds = [canon(o) for _, o in inn if o is not None]
        news = [canon(i) for i, _ in inn]
        for x in gone:
            ob(R, "only-chosen-goes", w, x in news, f"{show(x)[:200]} goes from what is on offer, and is not chosen\n{B.text}", unknown=not lists and not direct)
        for x in back:
            ob(R, "only-unchosen-back", w, x in olds, f"{show(x)[:200]} comes back on offer, chosen as it is\n{B.text}")
    # the swapped-out one stays where the new one was
    now = field(final(B.s, B.f, B.e), "available_inputs")
    ob(R, "inputs-kept", w, canon(now) is canon(ins), f"the inputs known become {show(now)[:200]}\n{B.text}")


def strip_elem(t):
    t = canon(t)
    while t.op in ("E", "elem"):
        t = t.a[0]
    return t


def filler(B, rd):
    """[(inner loop, place of the running sum, what kind of amount)] of the loops in a round that choose inputs for an output"""
    for x in rd.ie:
        if x[0] != "loop":
            continue
        L = x[1]
        got = None
        for ie, fin, ist in L.iters:
            items = [z.a[1] for l2, z in fin.items() if z.op in ("push", "vpush")]
            for i in items:
                u = canon(mk("idx", field(mk("*", mk("arg", "self")), "available_inputs"), i))
                for l2, (a, p) in L.phis.items():
                    x2 = fin[l2]
                    if x2.op == "lin" and a is ZERO:
                        d = sub(x2, p)
                        whose, what = amount_of(ist, d, ie)
                        if whose is not None:
                            yield L, l2, p, whose is u, what, ie


def outputs_covered(R, w, B, e, s, seen):
    outs = canon(field(B.setup, "fixed_outputs"))
    asked_ = field(B.setup, "output_asset_balance")
    done_main, done_tok = False, []
    for rd, up in flat_rounds(s.events()):
        for L, l2, p, own, what, ie in filler(B, rd):
            ob(R, "own-amount", w, own, f"an input is counted for what another has\n{B.text}")
            # what the output needs, known to be reached
            need = None
            for d, sg in facts_of(e, rd.ist):
                k, dd = lin(d)
                if p in dd and not k and len(dd) == 2 and sum(dd.values()) == 0:
                    t = next(x for x in dd if x is not p)
                    whose, kind = amount_of(rd.ist, t, rd.ie)
                    if whose is not None and whose.op == "elem" and whose.a[0] is outs:
                        lo = sg if dd[p] > 0 else frozenset({"+": "-", "-": "+", "0": "0"}[y] for y in sg)
                        need = (kind, lo <= frozenset("0+"))
            if need is None:
                ob(R, "output-covered", w, False, f"inputs are chosen whatever the output needs\n{B.text}", unknown=True)
                continue
            ob(R, "output-covered", w, need[1] and need[0] is what and what is not None, f"the inputs chosen for an output may come to less than it needs of {show(what) if isinstance(what, T) else what}, needed: {show(need[0]) if isinstance(need[0], T) else need[0]}\n{B.text}")
            seen[2] += 1
            whole_ = rd.L.over is not None and not any(z.op in ("iskip", "itake", "iwhile", "iscan", "istep") for z in walk(rd.L.over))
            ob(R, "every-output", w, whole_, f"not every output is gone through: {show(rd.L.over)[:200]}\n{B.text}")
            if what == "main":
                done_main = done_main or not up
            elif what is not None:
                done_tok.append((what, up))
    ob(R, "main-asked", w, done_main or zero_rounds(s, outs), f"success, with no input chosen for the outputs' main value\n{B.text}", unknown=not done_main)
    loops = [x[1] for x in s.events() if x[0] == "loop" and x[1].over is not None and any(canon(z.a[0]) is canon(asked_) or z.a[0].op in ("sorted", "coll") and any(canon(q) is canon(asked_) for q in walk(z.a[0])) for z in walk(x[1].over) if z.op == "it")]
    toks = []
    for L in loops:
        ups = [u for t, u in done_tok if u and u[0].L is L]
        if ups:
            rest = [1 for ie, fin, ist in L.iters if not any(u[0].ie is ie for u in ups) and ie_fills(B, ie)]
            toks.append(L)
            ob(R, "every-token", w, through(s.events(), L) and not any(z.op in ("iskip", "itake", "iwhile", "ifilter", "ifmap", "iscan", "istep") for z in walk(L.over)), f"not every token asked for is gone through\n{B.text}")
    for L in toks:
        for t, u in done_tok:
            if u and u[0].L is L:
                okk = t in (canon(field(mk("val", el(asked_)), "fingerprint")), canon(mk("key", el(asked_))))
                ob(R, "token-told", w, okk, f"inputs are chosen for {show(t)[:200]}\n{B.text}", unknown=not okk and t.op != ".")
    # swaps
    for rd, up in flat_rounds(s.events()):
        for x in rd.ie:
            if x[0] == "w" and isinstance(x[1], T) and x[1].op == "E" and not x[2] and x[3].op == "idx" and rd.L.over is not None and up:
                swap_keeps(R, w, B, e, rd, up, x, outs)


def ie_fills(B, ie):
    return False


def zero_rounds(s, outs):
    return False


def swap_keeps(R, w, B, e, rd, up, x, outs):
    ins = field(mk("*", mk("arg", "self")), "available_inputs")
    old = canon(mk("idx", ins, mk("elem", x[1].a[0], ANY)))
    new = canon(mk("idx", ins, x[3]))
    good = None
    why = "nothing keeps count of what the output has"
    for l2, (init, p) in rd.L.phis.items():
        a, b = rd.fin[l2], p
        if a.op == "adt" and a.a[0].endswith("Value") or b.op == "phi" and any(z.op == "." and z.a[0] is b and z.a[1] == "value" for z in walk(a)):
            a, b = num(a), num(b)
            init = num(init)
        if a.op != "lin" and a is not b:
            continue
        k, dd = lin(canon(sub(a, b)))
        if k or len(dd) != 2 or set(dd.values()) != {1, -1}:
            continue
        plus = amount_of(rd.ist, next(t for t, n in dd.items() if n == 1), rd.ie)
        minus = amount_of(rd.ist, next(t for t, n in dd.items() if n == -1), rd.ie)
        if plus[0] is None or minus[0] is None:
            continue
        okk = plus[0] is new and minus[0] is old and plus[1] is minus[1] and plus[1] is not None
        # it starts as what there is
        st0 = init.op == "sum" or any(z.op == "sum" for z in walk(init))
        k2, d2 = lin(init)
        first = [t for t in d2 if t.op == "sum"]
        okk = okk and len(first) == 1 and len(d2) == 1 and not k2
        if okk:
            whose, kind = amount_of(up[-1].ist, first[0].a[1], up[-1].ie)
            okk = whose is old and kind is plus[1]
        kept = False
        for d, sg in facts_of(e, rd.ist):
            dd = canon(sub(a, d))
            for n, sgn in ((canon(sub(a, d)), sg), (canon(add(a, d)), frozenset({"+": "-", "-": "+", "0": "0"}[y] for y in sg))):
                whose, kind = amount_of(up[-1].ist, n, up[-1].ie)
                if whose is not None and whose.op == "elem" and whose.a[0] is outs and kind is plus[1] and sgn <= frozenset("0+"):
                    kept = True
        why = f"an input is swapped for another, and the output may be left short: {show(a)[:300]}" if okk else f"the count becomes {show(a)[:300]} from {show(init)[:200]}"
        good = okk and kept if good is None else good or okk and kept
    ob(R, "swap-keeps-covered", w, good is True, f"{why}\n{B.text}", unknown=good is None and False)
