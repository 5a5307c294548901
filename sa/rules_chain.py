"""blockchain-source: the eras, the points, and the sources of blocks."""

import re

from core import *
from rules import rule
from rules_core import final  # noqa
from rules_fraos2 import errors_rule
from rules_store import ob
from rules_multiverse import all_events, whole, through
from rules_fraos2 import errors_rule, err_swallowed
from ledger import canon, strip
import models

CR = "dcspark_blockchain_source"


def pick(R, name, tail, **kw):
    """the function of that printed path"""
    return R.one(name, [f for f in R.prog.find(**kw) if f["crate"] == CR and "body" in f and re.search(tail, f["path"])])


# ---------------------------------------------------------------- eras


def era(n):
    return field(mk("*", mk("arg", "self")), n)


def tidy_div(t):
    """x - (x / d) * d is x % d"""

    def go(t):
        if t.op == "lin":
            k, d = lin(t)
            for y, q in d.items():
                if q != -1 or y.op != "mul":
                    continue
                for a, b in ((y.a[0], y.a[1]), (y.a[1], y.a[0])):
                    if a.op == "div" and a.a[1] is b and sub(add(t, y), a.a[0]) is ZERO:
                        return mk("rem", a.a[0], b)
        return t

    return go(t)


def whole_epoch(rel_, spe):
    return div(rel_, spe)


@rule("B01", CR)
def eras(R):
    """Every path through the functions of Era is enumerated under the assumption that the slot is before the era, or in it: before, they answer nothing; in it, the epoch is the era's
    first plus the whole epochs since its first slot, the slot in the epoch is what is left, and the time is the known time plus the slots since at their length. An epoch has its length
    over a slot's slots. Byron's absolute slot is 21600 slots an epoch plus the slot."""
    slot = mk("arg", "slot")
    L, S = era("epoch_length_seconds"), era("slot_length")
    d = sub(slot, era("first_slot"))
    per = div(L, S)
    want = {
        "absolute_slot_to_epoch": [add(era("start_epoch"), div(d, per)), add(era("start_epoch"), div(mul(d, S), L))],
        "absolute_slot_to_relative": [mk("rem", d, per)],
    }

    def given(inside):
        def setup(st, args):
            e = Engine(R.prog)
            for x in (L, S, per):
                note_unsigned(x)
                e.assume(st, rel(x, ">", ZERO), True)
            note_unsigned(slot)
            note_unsigned(era("first_slot"))
            e.assume(st, rel(d, ">=", ZERO), inside)

        return setup

    for name, good in want.items():
        f = R.one("Era::" + name, R.prog.method("time::Era", name, crate=CR))
        if not f:
            continue
        slot_ = f["params"][1]
        n = 0
        for inside in (True, False):
            e, rs = R.run(f, setup=given(inside))
            for s, kind, v in rs or []:
                n += 1
                text = path_text(s, v)
                if kind != "ret":
                    ob(R, "no-panic", where(f), False, f"panics for a slot {'in' if inside else 'before'} the era\n{text}")
                elif not inside:
                    ob(R, "before-era", where(f), e.variant_of(s, v) == "None", f"answers {show(v)[:200]} for a slot before the era\n{text}", unknown=e.variant_of(s, v) is None)
                else:
                    ob(R, "in-era", where(f), e.variant_of(s, v) == "Some", f"answers {show(v)[:200]} for a slot of the era\n{text}", unknown=e.variant_of(s, v) is None)
                    if e.variant_of(s, v) == "Some":
                        got = tidy_div(payload(v, "Some"))
                        ob(R, "formula", where(f), got in [canon(x) for x in good] or got in good, f"answers {show(got)[:300]}, not {show(good[0])[:300]}\n{text}")
        R.floor(name + " paths", n, 2)
    f = R.one("Era::compute_timestamp", R.prog.method("time::Era", "compute_timestamp", crate=CR))
    if f:
        e, rs = R.run(f, setup=given(True))
        for s, kind, v in rs or []:
            text = path_text(s, v)
            t = add(era("known_time"), mul(d, S))
            ob(R, "time", where(f), kind == "ret" and v is t, f"answers {show(v)[:300] if v else None}, not {show(t)[:300]}\n{text}")
        R.floor("compute_timestamp paths", len(rs or []), 1)
    f = R.one("epoch_slot_to_absolute_byron", [x for x in R.prog.find("time::epoch_slot_to_absolute_byron") if x["crate"] == CR])
    if f:
        e, rs = R.run(f)
        a, b = (mk("arg", p) for p in f["params"])
        for s, kind, v in rs or []:
            t = add(scale(a, 21600), b)
            ob(R, "byron", where(f), kind == "ret" and v is t, f"answers {show(v)[:300] if v else None}, not {show(t)[:300]}\n{path_text(s, v)}")
        R.floor("byron paths", len(rs or []), 1)


ERAS = {
    "SHELLEY_MAINNET": (4492800, 208, 1596059091, 1, 432000),
    "SHELLEY_TESTNET": (1598400, 74, 1595967616, 1, 432000),
    "SHELLEY_PREPROD": (86400, 4, 1655769600, 1, 432000),
    "SHELLEY_PREVIEW": (0, 0, 1666656000, 1, 86400),
    "SHELLEY_SANCHO": (0, 0, 1686789000, 1, 86400),
}
FIELDS = ("first_slot", "start_epoch", "known_time", "slot_length", "epoch_length_seconds")


@rule("B02", CR)
def networks(R):
    """Each constant era is compared, field by field, with what the network's genesis and its hard fork fixed; and the era each network's configuration carries is that network's."""
    for name, vals in ERAS.items():
        f = R.one("Era::" + name, [x for x in R.prog.find("time::Era::" + name) if x["crate"] == CR and "body" in x])
        if not f:
            continue
        e, rs = R.run(f)
        for s, kind, v in rs or []:
            for k, x in zip(FIELDS, vals):
                g = field(v, k) if kind == "ret" else None
                ob(R, "era", where(f), g is c(x), f"{k} of {name} is {show(g) if g else None}, not {x}")
        # the slot the era begins at is the epoch's, by its own epoch length: the byron eras before it had 21600 slots an epoch
        if vals[1]:
            ob(R, "byron-epochs", where(f), vals[0] == 21600 * vals[1], f"{name} begins at slot {vals[0]}, which is not the first of epoch {vals[1]}")
        R.floor("constants", len(rs or []), 1)
    for net in ("mainnet", "testnet", "preprod", "preview", "sancho"):
        f = R.one("NetworkConfiguration::" + net, R.prog.method("configuration::NetworkConfiguration", net, crate=CR))
        if not f:
            continue
        e, rs = R.run(f)
        for s, kind, v in rs or []:
            got = field(v, "shelley_era_config") if kind == "ret" else None
            vals = ERAS["SHELLEY_" + net.upper()]
            for k, x in zip(FIELDS, vals):
                g = field(got, k) if got is not None else None
                ob(R, "own-era", where(f), g is c(x), f"{k} of the era of {net} is {show(g)[:100] if g else None}, not {x}", unknown=g is not None and not is_int(g))
            n = field(v, "chain_info") if kind == "ret" else None
            if n is not None and n.op == "call" and net != "sancho":
                ob(R, "own-network", where(f), n.a[0].split("::")[-1] == net, f"the network of {net} is {show(n)[:100]}")


# ---------------------------------------------------------------- points


def last(name):
    """the name of a function, without its path and its type arguments"""
    while True:
        n = re.sub(r"<[^<>]*>", "", name)
        if n == name:
            return n.rstrip(":").split("::")[-1]
        name = n


def base_name(t):
    """the function a call is to, without its type arguments"""
    return last(t.a[0]) if t.op in ("call", "res") else None


def displayed(t):
    """what a text only shows: the value of format!("{}", value)"""
    if base_name(t) == "format" and t.op == "call" and t.a[1]:
        a = t.a[1][0]
        if base_name(a) == "new" and len(a.a[1]) == 2 and a.a[1][1].op == "array" and 'b"\\xc0\\x00"' in show(a.a[1][0]):
            x = a.a[1][1].a[0]
            if len(x) == 1 and base_name(x[0]) == "new_display":
                return x[0].a[1][0]
    return None


def conv(t):
    """what a conversion between a text, its bytes and an identifier starts from"""
    for _ in range(20):
        t = strip(t)
        if t.op == "adt" and t.a[0].split("::")[-1] in ("BlockId", "SlotNumber", "BlockNumber", "TokenId"):
            t = field(t, "0")
        elif t.op == "call" and base_name(t) in ("to_string", "into", "from", "as_ref", "to_owned", "clone", "as_str", "as_bytes", "to_hex", "borrow", "deref") and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif displayed(t) is not None:
            t = displayed(t)
        elif t.op == "adt" and t.a[1] in ("Owned", "Borrowed"):
            t = field(t, "0")
        elif t.op == "." and t.a[1] == "0":
            t = t.a[0]
        else:
            return t
    return t


@rule("B03", CR)
def points(R):
    """Both conversions of a point are enumerated by the kind of the point: the origin becomes the origin and nothing else does; a block's point carries the slot and the hash of the
    block and no other; a hash that is none is an error."""
    f = R.one("Point::try_from", [x for x in R.prog.find(name="try_from") if x["crate"] == CR and "point::Point" in x["path"]])
    if f:
        e, rs = R.run(f)
        p = mk("arg", f["params"][0])
        n = 0
        for s, kind, v in rs or []:
            text = path_text(s, v)
            w = where(f)
            if not ob(R, "no-panic", w, kind == "ret", f"panics\n{text}"):
                continue
            n += 1
            for s2, pk, _ in e.cases(s, p, ["Origin", "BlockHeader"]):
                for s3, k, q in e.cases(s2, v, ["Ok", "Err"]):
                    raws = [x for x in walk(q) if x.op in ("call", "res") and base_name(x) == "from_raw"]
                    if pk == "Origin":
                        ob(R, "origin", w, k == "Ok" and not raws and "ORIGIN" in show(q), f"the origin becomes {show(v)[:200]}\n{text}")
                        continue
                    asked = {t for t, m in ((kk[1], mm) for kk, mm in s3.facts.items() if kk[0] == "d") if t.op in ("call", "res") and base_name(t) == "from_raw"}
                    if k == "Ok":
                        if not ob(R, "block", w, len(raws) == 1, f"a block's point becomes {show(q)[:200]}\n{text}", unknown=not raws and "ORIGIN" not in show(q)):
                            continue
                        r = raws[0]
                        args = r.a[1] if r.op == "call" else r.a[2]
                        ob(R, "slot", w, conv(args[0]) is conv(field(mk("as", p, "BlockHeader"), "slot_nb")) or conv(args[0]) is field(mk("as", p, "BlockHeader"), "slot_nb"), f"the slot given is {show(args[0])[:200]}\n{text}")
                        ob(R, "hash", w, conv(args[1]) is conv(field(mk("as", p, "BlockHeader"), "hash")), f"the hash given is {show(args[1])[:200]}\n{text}")
                    else:
                        ob(R, "only-invalid", w, any(e.variant_of(s3, t) in ("None", "Err") for t in asked), f"a block's point is refused although its hash is one\n{text}")
        R.floor("points converted", n, 2)
    f = R.one("Point::from", [x for x in R.prog.find(name="from") if x["crate"] == CR and x["path"].startswith("<cardano::point::Point")])
    if f:
        e, rs = R.run(f)
        p = mk("arg", f["params"][0])
        n = 0
        for s, kind, v in rs or []:
            text = path_text(s, v)
            w = where(f)
            if not ob(R, "no-panic", w, kind == "ret", f"panics\n{text}"):
                continue
            n += 1
            k = e.variant_of(s, v)
            known = None
            for kk, m in s.facts.items():
                if kk[0] == "s" and "ORIGIN" in show(kk[1]) and any(x is p for x in walk(kk[1])):
                    known = "0" in m if m in ({"0"}, frozenset("0"), frozenset("+-"), frozenset("-+")) else None
            if k == "Origin":
                ob(R, "origin-only", w, known is True, f"a point becomes the origin without being it\n{text}")
            else:
                ob(R, "origin", w, known is False, f"a point that may be the origin becomes a block's\n{text}", unknown=known is None and any(x.op == "call" for x in walk(v)) and not s.facts)
                a, b = conv(field(v, "slot_nb")), conv(field(v, "hash"))
                ob(R, "slot", w, a.op in ("call", "res") and base_name(a) == "slot_nb" and strip((a.a[1] if a.op == "call" else a.a[2])[0]) is p, f"the slot is {show(a)[:200]}\n{text}")
                ob(R, "hash", w, b.op in ("call", "res") and base_name(b) == "hash" and strip((b.a[1] if b.op == "call" else b.a[2])[0]) is p, f"the hash is {show(b)[:200]}\n{text}")
        R.floor("points converted back", n, 2)


# ---------------------------------------------------------------- events


def trait(R, name, owner):
    """the method of that name in the implementation whose printed path has that text"""
    return R.one(f"{owner} {name}", [f for f in R.prog.fns.values() if f["crate"] == CR and f.get("name") == name and owner in f["path"] and "body" in f])


def is_true(t):
    return t is c(True) or show(t) == "True"


def is_false(t):
    return t is c(False) or show(t) == "False"


@rule("B04", CR)
def events(R):
    """Every path through the functions of the events is enumerated by the kind of the event: only a tip is the tip; a mapping is applied once, to the content of the kind it is for, and
    the other kind is carried unchanged; a block's identity, parent, number and point are the block's own fields; a source made of an option gives what it holds once."""
    n = 0

    def each(f, variants):
        nonlocal n
        e, rs = R.run(f)
        p = mk("arg", f["params"][0])
        if f["inputs"][0]["s"].startswith("&"):
            p = mk("*", p)
        for s, kind, v in rs or []:
            for s2, k, _ in e.cases(s, p, variants):
                n += 1
                yield e, s2, kind, v, k, p, path_text(s2, v)

    f = trait(R, "is_blockchain_tip", "cardano::event::CardanoNetworkEvent")
    for e, s, kind, v, k, p, text in each(f, ["Tip", "Block"]) if f else ():
        ob(R, "tip", where(f), kind == "ret" and (is_true(v) if k == "Tip" else is_false(v)), f"a {k} answers {show(v)[:100] if v else 'with a panic'}\n{text}", unknown=kind == "ret" and not is_true(v) and not is_false(v))
    f = trait(R, "is_blockchain_tip", "rollback::Event")
    for e, s, kind, v, k, p, text in each(f, ["InnerEvent", "Rollback"]) if f else ():
        if k == "Rollback":
            ok = kind == "ret" and is_false(v)
        else:
            ok = kind == "ret" and v.op == "call" and last(v.a[0]) == "is_blockchain_tip" and strip(v.a[1][0]) is payload(p, "InnerEvent")
        ob(R, "tip-of-event", where(f), ok, f"a {k} answers {show(v)[:100] if v else 'with a panic'}\n{text}")
    for name, mapped, other in (("map_block", "Block", "Tip"), ("map_tip", "Tip", "Block")):
        f = trait(R, name, "cardano::event::CardanoNetworkEvent")
        for e, s, kind, v, k, p, text in each(f, ["Tip", "Block"]) if f else ():
            w = where(f)
            dyn = [x for x in s.events() if x[0] == "call" and x[1] == "dyn"]
            if not ob(R, "no-panic", w, kind == "ret", f"panics\n{text}"):
                continue
            if k == other:
                ob(R, "carried", w, not dyn and e.variant_of(s, v) == "Ok" and e.variant_of(s, payload(v, "Ok")) == other and strip(payload(payload(v, "Ok"), other)) is payload(p, other), f"a {k} becomes {show(v)[:200]}\n{text}")
                continue
            if not ob(R, "once", w, len(dyn) == 1 and strip(dyn[0][2][1]) is payload(p, k), f"the mapping is applied {len(dyn)} times{', to ' + show(dyn[0][2][1])[:100] if dyn else ''}\n{text}"):
                continue
            r = dyn[0][3]
            for s2, rk, _ in e.cases(s, r, ["Ok", "Err"]):
                was = e.variant_of(s2, v)
                if rk == "Err":
                    ob(R, "errors-passed", w, was == "Err" and strip(payload(v, "Err")) is payload(r, "Err"), f"the mapping fails, and the answer is {show(v)[:200]}\n{text}")
                else:
                    ob(R, "mapped", w, was == "Ok" and e.variant_of(s2, payload(v, "Ok")) == k and strip(payload(payload(v, "Ok"), k)) is payload(r, "Ok"), f"a {k} becomes {show(v)[:200]}\n{text}")
    for name, fld in (("id", "id"), ("parent_id", "parent_id"), ("block_number", "block_number")):
        f = trait(R, name, "CardanoNetworkEvent<cardano::event::BlockEvent, Tip> as multiverse::Variant")
        for e, s, kind, v, k, p, text in each(f, ["Tip", "Block"]) if f else ():
            if k == "Tip":
                continue  # no tip is ever asked: no tip is put in the multiverse
            if kind == "ret" and v.op == "ref":
                v = e.load(s, e.deref(v))
            ob(R, "own-field", where(f), kind == "ret" and conv(v) is conv(field(payload(p, "Block"), fld)), f"the {name} of a block is {show(v)[:200] if v else 'a panic'}\n{text}")
    f = trait(R, "next_from", "CardanoNetworkEvent<cardano::event::BlockEvent, Tip> as GetNextFrom")
    for e, s, kind, v, k, p, text in each(f, ["Tip", "Block"]) if f else ():
        w = where(f)
        if k == "Tip":
            ob(R, "tip-no-point", w, kind == "ret" and e.variant_of(s, v) == "None", f"a tip's point is {show(v)[:200] if v else 'a panic'}\n{text}")
            continue
        if not ob(R, "block-point", w, kind == "ret" and e.variant_of(s, v) == "Some" and e.variant_of(s, payload(v, "Some")) == "BlockHeader", f"a block's point is {show(v)[:200] if v else 'a panic'}\n{text}"):
            continue
        g, b = payload(v, "Some"), payload(p, "Block")
        ob(R, "own-slot", w, conv(field(g, "slot_nb")) is conv(field(b, "slot_number")), f"its slot is {show(field(g, 'slot_nb'))[:200]}\n{text}")
        ob(R, "own-hash", w, conv(field(g, "hash")) is conv(field(b, "id")), f"its hash is {show(field(g, 'hash'))[:200]}\n{text}")
    f = trait(R, "pull", "Option<T> as source::Source")
    if f:
        e, rs = R.run(f)
        p = mk("*", mk("arg", "self"))
        w = where(f)
        for s, kind, v in rs or []:
            for s2, k, _ in e.cases(s, p, ["Some", "None"]):
                n += 1
                text = path_text(s2, v)
                if not ob(R, "no-panic", w, kind == "ret" and e.variant_of(s2, v) == "Ok", f"fails\n{text}"):
                    continue
                was = e.variant_of(s2, payload(v, "Ok"))
                ob(R, "gives-it", w, was == k and (k == "None" or strip(payload(payload(v, "Ok"), "Some")) is payload(p, "Some")), f"holding {k}, it gives {show(v)[:200]}\n{text}")
                left = final(s2, f, e)
                ob(R, "once", w, e.variant_of(s2, left) == "None", f"after giving {k} it holds {show(left)[:200]}\n{text}")
    R.floor("cases of events", n, 16)




# ---------------------------------------------------------------- sources over the multiverse

TREE = (r"^multiverse::\{", r"^multiverse::entry", r"^multiverse::[A-Z]")


def same(e, s, a, b):
    """whether two values are the same on a path: True, False or None"""
    a, b = strip(a), strip(b)
    if a is b:
        return True
    for k, m in s.facts.items():
        if k[0] == "s":
            n, d = lin(k[1])
            if n == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1] and {strip(x) for x in d} == {a, b}:
                return True if m == frozenset("0") else False if "0" not in m else None
    return None


def same_option(e, s, a, b):
    """whether two options are the same on a path"""
    x, y = e.variant_of(s, a), e.variant_of(s, b)
    if x is None or y is None:
        return None
    if x != y:
        return False
    return True if x == "None" else same(e, s, payload(a, "Some"), payload(b, "Some"))


class Story:
    """what one path through a pull did"""

    def __init__(self, e, s, f, v):
        self.e, self.s, self.v = e, s, v
        self.me = mk("*", mk("arg", "self"))
        self.frm = mk("*", mk("arg", "from"))
        self.confirmed = field(self.me, "confirmed")
        self.top = s.events()
        self.evs = all_events(self.top)
        self.calls = [x for x in self.evs if x[0] == "call"]
        tree = [x for x in self.calls if x[1].startswith("local:Multiverse")]
        self.inner = [x for x in self.calls if last(x[1]) == "pull" and not x[1].startswith("local:")]
        self.insert = [x for x in tree if last(x[1]) == "insert"]
        self.select = [x for x in tree if last(x[1]) == "select_best_block"]
        self.remove = [x for x in tree if last(x[1]) == "remove"]
        self.get = [x for x in tree if last(x[1]) == "get"]
        self.answer = self.block = None
        if self.inner:
            aw = [x for x in self.calls if x[1] == "await" and x[2][0] is self.inner[0][3]]
            self.answer = aw[0][3] if aw else None
            if self.answer is not None:
                self.block = payload(payload(self.answer, "Ok"), "Some")
        self.after = {n: final_of(e, s, n) for n in ("confirmed", "last", "events", "source", "confirmation_depth")}

    def index(self, x):
        return next((i for i, y in enumerate(self.top) if y is x), None)

    def got(self, key, before=None):
        """the lookups of a key"""
        return [x for x in self.get if strip(x[2][1]) is strip(key)]

    def found(self, key):
        """whether a key was found in the multiverse: variant of its first lookup"""
        g = self.got(key)
        return self.e.variant_of(self.s, g[0][3]) if g else None

    def block_of(self, key):
        g = self.got(key)
        return strip(payload(g[0][3], "Some")) if g else None

    def about(self, name, x):
        """the pure question `name` of x asked on the path"""
        r = set()
        for k in self.s.facts:
            for t in walk(k[1]) if isinstance(k[1], T) else ():
                if t.op == "call" and last(t.a[0]) == name and strip(t.a[1][0]) is strip(x):
                    r.add(t)
        for y in self.calls:
            for a in y[2]:
                for t in walk(a):
                    if t.op == "call" and last(t.a[0]) == name and strip(t.a[1][0]) is strip(x):
                        r.add(t)
        return sorted(r, key=lambda t: t.id)

    def id_of(self, x):
        """the lookups keyed by the identity of x"""
        return [g for g in self.get if asked(g[2][1], "id") is strip(x)]

    def tip(self):
        """whether the block is the inner source's announcement of its tip"""
        for t in self.about("is_blockchain_tip", self.block):
            b = self.e.truth(self.s, t)
            if b is not None:
                return b
        return None

    def known(self):
        for g in self.id_of(self.block):
            i, j = self.index(g), self.index(self.insert[0]) if self.insert else None
            if j is None or (i is not None and i < j):
                k = self.e.variant_of(self.s, g[3])
                return None if k is None else k == "Some"
        return None

    def selected(self):
        return field(self.select[0][3], "selected") if self.select else None

    def is_selected(self, t):
        """whether a key is the one the selection gave"""
        t = strip(t)
        if t.op in ("call", "res") and base_name(t) in ("inner", "into_inner"):
            a = (t.a[1] if t.op == "call" else t.a[2])[0]
            return strip(a) is strip(payload(self.selected(), "Some"))
        return False

    def stable_same(self):
        """whether what was selected is what was confirmed before"""
        k = self.e.variant_of(self.s, self.confirmed)
        if k == "None":
            return False
        c0 = payload(self.confirmed, "Some")
        for x in [y for kk in self.s.facts if kk[0] == "s" for y in lin(kk[1])[1]]:
            if self.is_selected(x):
                r = same(self.e, self.s, x, c0)
                if r is not None:
                    return r
        return None

    def moved(self):
        """whether `confirmed` became another value: False, or the key it became"""
        a = self.after["confirmed"]
        if a is self.confirmed:
            return False
        if self.e.variant_of(self.s, a) == "Some":
            k = payload(a, "Some")
            if strip(k) is strip(payload(self.confirmed, "Some")):
                return False
            return k
        return a


def asked(t, name):
    """x of a term name(x), or None"""
    t = strip(t)
    if t.op in ("call", "res") and base_name(t) == name:
        a = t.a[1] if t.op == "call" else t.a[2]
        return strip(a[0]) if a else None
    return None


def final_of(e, s, n):
    return e.load(s, (mk("D", mk("arg", "self")), (("f", n),)))


def inserting(R, w, y, text):
    """what every path of a pull does with the inner source's answer and the multiverse. False when the path is not understood"""
    e, s, v = y.e, y.s, y.v
    if len(y.inner) > 1:
        ob(R, "pulled-once", w, False, f"the inner source is pulled {len(y.inner)} times\n{text}")
        return False
    if not y.inner:
        ob(R, "nothing-pulled", w, not y.insert and not y.remove, f"the multiverse is changed though nothing was pulled\n{text}")
        return True
    ob(R, "own-source", w, strip(y.inner[0][2][0]) is field(y.me, "source"), f"another source is pulled\n{text}")
    if y.answer is None:
        ob(R, "awaited", w, False, f"the inner source's answer is not waited for\n{text}")
        return False
    ok = e.variant_of(s, y.answer)
    some = e.variant_of(s, payload(y.answer, "Ok")) if ok == "Ok" else None
    was = e.variant_of(s, v) if isinstance(v, T) else None
    if ok != "Ok":
        ob(R, "errors-passed", w, was == "Err" and not y.insert, f"the inner source fails, and the answer is {show(v)[:100]}\n{text}", unknown=ok is None)
        return True
    if some != "Some":
        ob(R, "nothing-given", w, not y.insert and was == "Ok" and e.variant_of(s, payload(v, "Ok")) == "None", f"the inner source gives nothing, and the answer is {show(v)[:100]}\n{text}", unknown=some is None)
        return True
    tip = y.tip()
    if tip:
        x = payload(payload(v, "Ok"), "Some") if was == "Ok" else None
        if x is not None and e.variant_of(s, x) == "InnerEvent":
            x = payload(x, "InnerEvent")
        ob(R, "tip-passed", w, not y.insert and x is not None and strip(x) is strip(y.block), f"the tip the inner source announces is answered with {show(v)[:100]}\n{text}")
        return True
    known = y.known()
    if known:
        ob(R, "known-skipped", w, not y.insert and was == "Ok" and e.variant_of(s, payload(v, "Ok")) == "None", f"a block that is already there is inserted, or given out\n{text}")
        return True
    if known is None or tip is None:
        if y.insert or was != "Err":
            ob(R, "asked", w, False, f"a block is taken without asking whether it is the tip's announcement or known already\n{text}", unknown=not any(last(x[1]) in ("insert",) for x in y.insert))
        return False
    if not ob(R, "inserted-once", w, len(y.insert) == 1 and y.index(y.insert[0]) is not None, f"a new block is inserted {len(y.insert)} times\n{text}"):
        return False
    ob(R, "block-itself", w, strip(y.insert[0][2][1]) is strip(y.block), f"what is inserted is {show(y.insert[0][2][1])[:200]}\n{text}")
    if e.variant_of(s, y.insert[0][3]) == "Err":
        ob(R, "errors-passed", w, was == "Err", f"the block is not inserted, and the answer is {show(v)[:100]}\n{text}")
        return True
    if not ob(R, "selected-after", w, len(y.select) == 1 and (y.index(y.select[0]) or 0) > y.index(y.insert[0]), f"the best block is selected {len(y.select)} times after a block is inserted\n{text}"):
        return False
    how = strip(y.select[0][2][1])
    ob(R, "longest-chain", w, e.variant_of(s, how) == "LongestChain" and field(how, "depth") is field(y.me, "confirmation_depth"), f"the best block is selected by {show(how)[:200]}\n{text}")
    gap = field(how, "age_gap")
    ob(R, "forks-kept", w, is_int(gap) and relsign(gap) == frozenset("+"), f"forks are discarded at once: age gap {show(gap)[:60]}\n{text}", unknown=not is_int(gap))
    for x in y.remove:
        L = next((z[1] for z in y.top if z[0] == "loop" and any(x in all_events(it[0]) for it in z[1].iters)), None)
        k = strip(x[2][1])
        ob(R, "only-discarded", w, k.op in ("elem", "E") and strip(k.a[0]) is strip(field(y.select[0][3], "discarded")), f"a block that was not discarded is removed: {show(k)[:200]}\n{text}", unknown=L is None and k.op not in ("elem", "E", "arg", "call", "res", "."))
    if was == "Ok":
        loops = [z[1] for z in y.top if z[0] == "loop" and any(x in all_events(it[0]) for it in z[1].iters for x in y.remove)]
        whole = [L for L in loops if L.over is not None and L.closed and any(strip(t) is strip(field(y.select[0][3], "discarded")) for t in walk(L.over))]
        out = [z for z in y.top if z[0] == "exhaust" and any(strip(t) is strip(field(y.select[0][3], "discarded")) for t in walk(z[1]))]
        ob(R, "all-discarded", w, bool(whole or out), f"not every discarded block is removed\n{text}", unknown=False)
    return True


def pulled(R, owner):
    f = trait(R, "pull", owner)
    if not f:
        return
    e, rs = R.run(f, TREE, apart=("pull",))
    for s, kind, v in rs or []:
        yield f, e, s, kind, v, Story(e, s, f, v), path_text(s, v)
    R.floor(f"paths of {owner}::pull", len(rs or []), 20)


@rule("B05", CR, "multiverse")
def confirmed(R):
    """Every path through MultiverseSource::pull is enumerated. A block is given out only as the one the selection at the confirmation depth gave after the new block was inserted, when it is
    not the one confirmed before, and then it is confirmed; or as the confirmed one once more, when `from` is its parent's point; or as the tip's announcement. Every block that
    is new is inserted, once; a known one is not; and nothing else changes what is confirmed."""
    n = 0
    for f, e, s, kind, v, y, text in pulled(R, "MultiverseSource<"):
        w = where(f)
        if kind != "ret":
            continue
        if not inserting(R, w, y, text):
            continue
        moved = y.moved()
        was = e.variant_of(s, v)
        some = e.variant_of(s, payload(v, "Ok")) if was == "Ok" else None
        x = strip(payload(payload(v, "Ok"), "Some")) if some == "Some" else None
        tip = y.block is not None and y.tip()
        ob(R, "depth-kept", w, y.after["confirmation_depth"] is field(y.me, "confirmation_depth"), f"the confirmation depth changes\n{text}")
        if was != "Ok":
            ob(R, "confirmed-given", w, moved is False, f"a block is confirmed and an error answered instead of it\n{text}")
            continue
        if some is None:
            ob(R, "answer", w, False, f"answers {show(v)[:200]}\n{text}", unknown=True)
            continue
        c0 = payload(y.confirmed, "Some")
        if some == "None":
            ob(R, "confirmed-given", w, moved is False, f"a block is confirmed and not given out\n{text}")
            if y.insert:
                sel = e.variant_of(s, y.selected()) if y.select else None
                st = y.stable_same()
                ob(R, "stable-given", w, sel == "None" or st is True, f"a block becomes stable and is not given out\n{text}", unknown=sel is None or (st is None and e.variant_of(s, y.confirmed) is None))
            continue
        if tip:
            ob(R, "tip-confirms-nothing", w, moved is False, f"a tip's announcement confirms a block\n{text}")
            continue
        n += 1
        if not y.inner:
            mine = y.block_of(c0)
            par = asked_key(y, mine, "parent_id") if mine is not None else None
            ob(R, "again", w, moved is False and mine is not None and x is mine, f"without pulling, {show(x)[:200]} is given out\n{text}")
            ob(R, "again-after-parent", w, par is not None and from_is(y, par) is True, f"the confirmed block is given out again although `from` is not its parent's point\n{text}", unknown=par is not None and from_is(y, par) is None and unread(y))
            continue
        # a newly stable block
        g = [z for z in y.get if strip(payload(z[3], "Some")) is x]
        if not ob(R, "stable-only", w, bool(g) and y.is_selected(g[0][2][1]), f"what is given out is {show(x)[:200]}, not the block that became stable\n{text}", unknown=False):
            continue
        ob(R, "stable-new", w, y.stable_same() is False, f"the block that was already confirmed is given out as new\n{text}")
        ob(R, "confirmed-advances", w, moved is not False and y.is_selected(moved), f"a block is given out and not confirmed\n{text}")
        j = y.index(y.insert[0])
        ob(R, "after-insert", w, y.index(y.select[0]) > j, f"the stable block was selected before the new one was there\n{text}")
    R.floor("blocks given out", n, 4)


def asked_key(y, x, name):
    """the lookup keyed by name(x), when there was one"""
    g = [z for z in y.get if asked(z[2][1], name) is x]
    return g[0] if g else None


def point_of(y, g):
    """the option that is the point of what a lookup found: ("None", None), ("Some", point) or (None, None)"""
    k = y.e.variant_of(y.s, g[3])
    if k == "None":
        return "None", None
    if k is None:
        return None, None
    for t in y.about("next_from", payload(g[3], "Some")):
        p = y.e.variant_of(y.s, t)
        if p == "None":
            return "None", None
        if p == "Some":
            return "Some", payload(t, "Some")
    return None, None


def from_is(y, g):
    """whether `from` is the point of what a lookup found"""
    k, p = point_of(y, g)
    fk = y.e.variant_of(y.s, y.frm)
    if k is None or fk is None:
        return None
    if k != fk:
        return False
    return True if k == "None" else same(y.e, y.s, p, payload(y.frm, "Some"))


def unread(y):
    """comparisons on the path this analysis does not read"""
    return any(k[0] == "b" and isinstance(k[1], T) and k[1].op in ("call", "res") and base_name(k[1]) in ("eq", "ne", "contains") for k in y.s.facts)


def listed(y, t):
    """(single values, [(collection, value of each element)]) a list or a set is made of, or None where it is not read"""
    one, each = [], []
    for _ in range(30):
        t = strip(t)
        if t.op == "push":
            one.append(t.a[1])
            t = t.a[0]
        elif t.op == "mapupd":
            one.append(t.a[1])
            t = t.a[0]
        elif t.op == "empty":
            return one, each
        elif t.op == "array":
            return one + list(t.a[0]), each
        elif t.op == "coll":
            b = whole(t.a[2])
            if b is None or t.a[3] != "exact":
                return None
            return one, each + [(b, x) for x in t.a[1]]
        else:
            L = next((z[1] for z in y.top if z[0] == "loop" and any(p is t for _, p in z[1].phis.values())), None)
            if L is None or L.over is None or not through(y.top, L):
                return None
            b = whole(L.over)
            if b is None:
                return None
            loc, (init, phi) = next((l, x) for l, x in L.phis.items() if x[1] is t)
            for evs, fin, st in L.iters:
                v = strip(fin.get(loc, phi))
                if v.op in ("push", "mapupd") and strip(v.a[0]) is phi:
                    each.append((b, v.a[1]))
                else:
                    each.append((b, None))
            t = init
    return None


def tip_point(y, b, v):
    """whether v is, for an element of b, the point of the block of that key"""
    g = asked(strip_some(v), "next_from")
    if g is None:
        return False
    for x in y.get:
        if strip(payload(x[3], "Some")) is g:
            k = strip(x[2][1])
            return k.op in ("elem", "E") and strip(k.a[0]) is strip(b)
    return False


def strip_some(t):
    """the option a value was taken out of"""
    t = strip(t)
    if t.op == "." and t.a[0].op == "as" and t.a[0].a[1] == "Some":
        return t.a[0].a[0]
    return t


def key_point(y, v, key):
    """whether v is the point of the block of that key"""
    g = asked(strip_some(v), "next_from")
    return any(strip(payload(x[3], "Some")) is g and strip(x[2][1]) is strip(key) for x in y.get)


@rule("B06", CR, "multiverse")
def checkpoints(R):
    """On every path on which either source over the multiverse asks its inner source, it asks from the point of every tip of the multiverse, and from `from` where it was given, and
    (with rollbacks) from the confirmed block; and from nothing else. The source without rollbacks asks only when `from` follows: it is not given, nothing is confirmed, or it is the confirmed block's
    point."""
    for owner in ("MultiverseSource<", "ForkHandlingSource<"):
        n = 0
        for f, e, s, kind, v, y, text in pulled(R, owner):
            w = where(f)
            if kind != "ret" or len(y.inner) != 1:
                continue
            n += 1
            tips = [x for x in y.calls if x[1].startswith("local:Multiverse") and last(x[1]) == "tips"]
            p = listed(y, y.inner[0][2][1])
            if p is None:
                cut = [z for z in [L.over for L in (z[1] for z in y.top if z[0] == "loop") if L.over is not None] + list(walk(y.inner[0][2][1])) if z.op in ("itake", "iskip", "iwhile") and any(x.op == "it" and strip(x.a[0]) is strip(t[3]) for x in walk(z) for t in tips)]
                if cut:
                    ob(R, "every-tip", w, False, f"only some of the tips are asked from: {show(cut[0])[:200]}\n{text}")
                    continue
                ob(R, "points", w, False, f"the points are {show(y.inner[0][2][1])[:200]}\n{text}", unknown=True)
                continue
            one, each = p
            is_tips = [(b, x) for b, x in each if any(strip(t[3]) is strip(b) for t in tips)]
            ob(R, "every-tip", w, bool(is_tips) and all(x is not None and tip_point(y, b, x) for b, x in is_tips), f"not every tip's point is asked from\n{text}")
            ob(R, "only-tips", w, len(is_tips) == len(each), f"points of something else than tips are asked from\n{text}", unknown=any(x is None for b, x in each))
            fk = e.variant_of(s, y.frm)
            fp = payload(y.frm, "Some")
            if ob(R, "from-known", w, fk is not None, f"`from` is not looked at\n{text}") and fk == "Some":
                mine = [x for x in one if strip(x) is strip(fp) or same(e, s, x, fp)]
                ob(R, "from", w, bool(mine), f"`from` is not asked from\n{text}")
                one = [x for x in one if x not in mine]
            c0 = payload(y.confirmed, "Some")
            ck = e.variant_of(s, y.confirmed)
            mine = [x for x in one if key_point(y, x, c0)]
            if owner.startswith("Fork"):
                ob(R, "confirmed-known", w, ck is not None, f"whether a block is confirmed is not looked at\n{text}")
                if ck == "Some":
                    ob(R, "confirmed-point", w, bool(mine) or any(key_point(y, x, c0) for x in one), f"the confirmed block's point is not asked from\n{text}")
            elif ck == "Some":
                g = y.got(c0)
                if ob(R, "confirmed-known", w, bool(g), f"the confirmed block is not looked up\n{text}"):
                    k, pt = point_of(y, g[0])
                    if k == "Some":
                        r = True if fk == "None" else same(e, s, pt, fp)
                        ob(R, "follows", w, r is True, f"the inner source is asked although `from` is not the confirmed block's point\n{text}", unknown=r is None and unread(y))
                        par = asked_key(y, strip(payload(g[0][3], "Some")), "parent_id")
                        r = from_is(y, par) if par is not None else None
                        ob(R, "not-again", w, r is False, f"the inner source is asked although `from` is the point of the confirmed block's parent\n{text}", unknown=r is None and unread(y))
                    else:
                        ob(R, "confirmed-point-known", w, k is not None, f"the confirmed block's point is not looked at\n{text}")
            one = [x for x in one if x not in mine]
            ob(R, "nothing-else", w, not one, f"something else is asked from: {', '.join(show(x)[:100] for x in one)}\n{text}")
        R.floor(f"paths asking {owner}", n, 8)


def own_panic(y):
    """a panic of a pull is only for a multiverse that lost a block it names itself"""
    for x in reversed(y.evs):
        if x[0] in ("is", "isnot", "if"):
            t = x[1]
            if x[0] != "is" or x[2] != "None":
                return False
            if any(g[3] is t for g in y.get):
                return True
            n = asked(t, "next_from")
            if n is not None:
                return any(strip(payload(g[3], "Some")) is n for g in y.get)
            return t.op == "call" and base_name(t) == "pop" and t.a[1][0].op not in (".", "mut")
    return False


def of_get(y, t):
    """the lookup whose block a term is"""
    return next((g for g in y.get if strip(payload(g[3], "Some")) is strip(t)), None)


def walked(L, y, start):
    """the values of a walk towards the parents: [(location, walking key)] of a loop's, when every iteration goes from the block of the key to its parent"""
    r = []
    for loc, (init, phi) in L.phis.items():
        if strip(init) is not strip(start):
            continue
        ok = bool(L.iters)
        for evs, fin, st in L.iters:
            v = fin.get(loc, phi)
            p = asked(v, "parent_id")
            g = of_get(y, p) if p is not None else None
            ok = ok and g is not None and strip(g[2][1]) is strip(phi)
        if ok:
            r.append((loc, phi))
    return r


@rule("B07", CR, "multiverse")
def rollbacks(R):
    """Every path through ForkHandlingSource::pull is enumerated. What waits is given first. A new block after the last one is given itself; after another one, the walk from the last block to its ancestors
    and the walk from the new block are found in the path's loops: the first collects every block it passes, the second puts every block it passes in wait until one that was collected, to which the
    rollback goes, and which is given at once. With no last block, the rollback goes to `from`, and the block waits; without `from`, the block is given. The last block becomes the new one."""
    n = {"waiting": 0, "next": 0, "rolled": 0, "first": 0}
    for f, e, s, kind, v, y, text in pulled(R, "ForkHandlingSource<"):
        w = where(f)
        if kind != "ret":
            ob(R, "no-panic", w, own_panic(y), f"panics\n{text}")
            continue
        ev0, last0 = field(y.me, "events"), field(y.me, "last")
        was = e.variant_of(s, v)
        some = e.variant_of(s, payload(v, "Ok")) if was == "Ok" else None
        x = payload(payload(v, "Ok"), "Some") if some == "Some" else None
        first = mk("call", "std::vec::Vec::pop", (ev0,))
        waiting = e.variant_of(s, first)
        if waiting == "Some":
            n["waiting"] += 1
            same_state = all(y.after[k] is field(y.me, k) for k in ("last", "confirmed")) and not y.inner and not y.insert
            ob(R, "waiting-first", w, x is not None and strip(x) is strip(payload(first, "Some")) and same_state and y.after["events"].op == "mut", f"an event waits, and the answer is {show(v)[:200]}\n{text}")
            continue
        if not ob(R, "waiting-asked", w, waiting == "None", f"it goes on without looking at what waits\n{text}", unknown=waiting is None and length(ev0) in [t for k in s.facts for t in walk(k[1])]):
            continue
        if not inserting(R, w, y, text):
            continue
        moved = y.moved()
        if not y.insert:
            ob(R, "nothing-changes", w, moved is False and y.after["last"] is last0 and y.after["events"] is ev0, f"without a new block, the source's state changes\n{text}")
            continue
        bid = None
        for g in y.get:
            if asked(g[2][1], "id") is strip(y.block):
                bid = strip(g[2][1])
        if was != "Ok":
            continue
        sel = e.variant_of(s, y.selected()) if y.select else None
        st = y.stable_same()
        if sel == "Some" and st is not True:
            ob(R, "confirmed-advances", w, moved is not False and y.is_selected(moved), f"a block becomes stable and is not confirmed\n{text}", unknown=st is None and e.variant_of(s, y.confirmed) is None)
        else:
            ob(R, "confirmed-kept", w, moved is False or (st is True and y.is_selected(moved)), f"a block is confirmed that is not the stable one\n{text}", unknown=sel is None)
        nl = y.after["last"]
        ob(R, "last-is-block", w, e.variant_of(s, nl) == "Some" and asked(payload(nl, "Some"), "id") is strip(y.block), f"the last block becomes {show(nl)[:200]}\n{text}")
        lk = e.variant_of(s, last0)
        if not ob(R, "last-known", w, lk is not None, f"the last block is not looked at\n{text}"):
            continue
        if not ob(R, "some-event", w, x is not None and e.variant_of(s, x) in ("InnerEvent", "Rollback") or (x is not None and x.op == "." and base_name(x.a[0].a[0]) == "pop"), f"a new block is answered with {show(v)[:200]}\n{text}"):
            continue
        xk = e.variant_of(s, x)
        evs = y.after["events"]
        if lk == "None":
            n["first"] += 1
            fk = e.variant_of(s, y.frm)
            if fk == "None":
                ob(R, "first-itself", w, xk == "InnerEvent" and strip(payload(x, "InnerEvent")) is strip(y.block) and evs is ev0, f"the first block is answered with {show(x)[:200]}\n{text}")
            else:
                ob(R, "first-rolls-back", w, fk == "Some" and xk == "Rollback" and strip(payload(x, "Rollback")) is strip(payload(y.frm, "Some")), f"the first block is answered with {show(x)[:200]}\n{text}")
                ok = evs.op == "push" and evs.a[0] is ev0 and e.variant_of(s, evs.a[1]) == "InnerEvent" and strip(payload(evs.a[1], "InnerEvent")) is strip(y.block)
                ob(R, "first-waits", w, ok, f"the first block does not wait behind the rollback: {show(evs)[:200]}\n{text}")
            continue
        key0 = payload(last0, "Some")
        follows = None
        for k, m in s.facts.items():
            if k[0] == "s":
                a, d = lin(k[1])
                if a == 0 and len(d) == 2 and {strip(t) for t in d} >= {strip(key0)} and any(asked(t, "parent_id") is strip(y.block) for t in d):
                    follows = True if m == frozenset("0") else False if "0" not in m else None
        if not ob(R, "follows-asked", w, follows is not None, f"whether the block follows the last one is not asked\n{text}", unknown=unread(y)):
            continue
        if follows:
            n["next"] += 1
            ob(R, "next-itself", w, xk == "InnerEvent" and strip(payload(x, "InnerEvent")) is strip(y.block) and evs is ev0, f"a block that follows is answered with {show(x)[:200]}\n{text}")
            continue
        loops = [z[1] for z in y.top if z[0] == "loop"]
        pw = [(L, loc, phi) for L in loops for loc, phi in walked(L, y, key0)]
        if not ob(R, "previous-branch", w, bool(pw), f"no walk from the last block to its ancestors\n{text}", unknown=not loops and unread(y)):
            continue
        L1, loc1, cur1 = pw[0]
        sets = []
        for loc, (init, phi) in L1.phis.items():
            ok = loc != loc1 and init.op == "empty"
            for ie, fin, st1 in L1.iters:
                t = fin.get(loc, phi)
                ok = ok and t.op in ("mapupd", "push") and strip(t.a[0]) is phi and (asked(t.a[1], "id") is not None and of_get(y, asked(t.a[1], "id")) is not None and strip(of_get(y, asked(t.a[1], "id"))[2][1]) is cur1 or strip(t.a[1]) is cur1)
            if ok:
                sets.append(phi)
        if not ob(R, "collected", w, bool(sets), f"the walk from the last block does not collect every block it passes\n{text}"):
            continue
        stop = [k for k, m in s.facts.items() if k[0] == "d" and m == "None" and any(g[3] is k[1] and strip(g[2][1]) is cur1 for g in y.get)]
        ob(R, "to-the-root", w, bool(stop), f"the walk from the last block ends before its ancestors do\n{text}")
        nw = [(L, loc, phi) for L in loops if L is not L1 for loc, (init, phi) in L.phis.items() if asked(init, "id") is strip(y.block) and (loc, phi) in walked(L, y, init)]
        own = strip(y.block)
        if not nw:
            # the first block of the walk is the common one already: it cannot be, it is new
            ob(R, "new-branch", w, False, f"no walk from the new block to its ancestors\n{text}")
            continue
        L2, loc2, cur2 = nw[0]
        q = [(loc, phi) for loc, (init, phi) in L2.phis.items() if loc != loc2 and init is ev0]
        if not ob(R, "waits", w, len(q) == 1, f"what the walk from the new block passes does not wait\n{text}"):
            continue
        qloc, qphi = q[0]
        for ie, fin, st2 in L2.iters:
            t = fin.get(qloc, qphi)
            g = of_get(y, payload(t.a[1], "InnerEvent")) if t.op == "push" and e.variant_of(st2, t.a[1]) == "InnerEvent" else None
            ob(R, "every-block-waits", w, t.op == "push" and t.a[0] is qphi and g is not None and strip(g[2][1]) is cur2, f"a block the walk passes does not wait: {show(t)[:200]}\n{text}")
            ob(R, "not-common", w, is_in(e, st2, y, sets, cur2) is False, f"the walk goes on past a block of the previous branch\n{text}")
        common = is_in(e, s, y, sets, cur2)
        if common:
            n["rolled"] += 1
            g = of_get(y, asked(strip_some(payload(x, "Rollback")), "next_from") or ZERO) if xk == "Rollback" else None
            ob(R, "rollback-to-common", w, g is not None and strip(g[2][1]) is cur2, f"the common block was found, and the answer is {show(x)[:200]}\n{text}")
            ob(R, "branch-waits", w, evs is qphi, f"what waits then is {show(evs)[:200]}\n{text}")
        else:
            gone = [k for k, m in s.facts.items() if k[0] == "d" and m == "None" and any(g[3] is k[1] and strip(g[2][1]) is cur2 for g in y.get)]
            ob(R, "no-rollback-otherwise", w, xk != "Rollback" and bool(gone), f"no common block was found, and the answer is {show(x)[:200]}\n{text}")
    for k, i in n.items():
        R.floor(f"paths {k}", i, 1)


def is_in(e, s, y, sets, cur):
    """whether the block of a walk's key is in the set collected before"""
    for k, m in s.facts.items():
        if k[0] == "d" and k[1].op == "get" and k[1].a[0] in sets and m in ("Some", "None"):
            t = k[1].a[1]
            i = asked(t, "id")
            g = of_get(y, i) if i is not None else None
            if strip(t) is cur or (g is not None and strip(g[2][1]) is cur):
                return m == "Some"
        if k[0] == "b" and k[1].op in ("call", "res") and base_name(k[1]) == "contains" and isinstance(m, bool):
            a = k[1].a[1] if k[1].op == "call" else k[1].a[2]
            i = asked(a[1], "id")
            g = of_get(y, i) if i is not None else None
            if strip(a[0]) in sets and (strip(a[1]) is cur or (g is not None and strip(g[2][1]) is cur)):
                return m
    return None


@rule("B08", CR, "multiverse")
def opened(R):
    """Every path through the constructors of both sources over a multiverse is enumerated: what is confirmed is what the selection of the longest chain gives at the depth asked for, and nothing when it gives
    nothing; the multiverse, the inner source and the depth are kept as given, nothing is inserted or removed; the last block is the last of the multiverse's iteration, and nothing waits."""
    for owner in ("MultiverseSource", "ForkHandlingSource"):
        f = R.one(owner + "::new", [x for x in R.prog.fns.values() if x["crate"] == CR and x.get("name") == "new" and f"::{owner}" in x["path"] and "body" in x])
        if not f:
            continue
        e, rs = R.run(f, TREE)
        w = where(f)
        mv, depth, src = (mk("arg", p) for p in f["params"])
        for s, kind, v in rs or []:
            text = path_text(s, v)
            if not ob(R, "no-panic", w, kind == "ret", f"panics\n{text}"):
                continue
            calls = [x for x in all_events(s.events()) if x[0] == "call" and x[1].startswith("local:Multiverse")]
            sel = [x for x in calls if last(x[1]) == "select_best_block"]
            ob(R, "kept", w, strip(field(v, "source")) is src and field(v, "confirmation_depth") is depth and strip(field(v, "multiverse")) is mv and not [x for x in calls if last(x[1]) in ("insert", "remove")], f"what was given is changed\n{text}")
            if not ob(R, "selected", w, len(sel) == 1, f"the stable block is selected {len(sel)} times\n{text}"):
                continue
            how = strip(sel[0][2][1])
            ob(R, "longest-chain", w, e.variant_of(s, how) == "LongestChain" and field(how, "depth") is depth, f"the stable block is selected by {show(how)[:200]}\n{text}")
            got = field(sel[0][3], "selected")
            cf = field(v, "confirmed")
            k = e.variant_of(s, got)
            if k == "Some" or e.variant_of(s, cf) == "Some":
                t = strip(payload(cf, "Some"))
                g = (t.a[1] if t.op == "call" else t.a[2])[0] if t.op in ("call", "res") and base_name(t) in ("inner", "into_inner") else t
                ob(R, "confirmed", w, k == "Some" and e.variant_of(s, cf) == "Some" and strip(g) is strip(payload(got, "Some")), f"what is confirmed is {show(cf)[:200]}\n{text}")
            else:
                ob(R, "none-confirmed", w, k == "None" and e.variant_of(s, cf) == "None", f"what is confirmed is {show(cf)[:200]}\n{text}", unknown=k is None)
            if owner == "ForkHandlingSource":
                ob(R, "nothing-waits", w, field(v, "events").op == "empty", f"{show(field(v, 'events'))[:100]} waits at the start\n{text}")
                la = field(v, "last")
                its = [x for x in calls if last(x[1]) == "iter"]
                pk = [x for x in s.events() if x[0] == "pick" and x[1].endswith("Iterator::last") and any(y[3] is whole(x[2]) for y in its)]
                lk = e.variant_of(s, la)
                if not ob(R, "last-block", w, len(pk) == 1, f"the last block is {show(la)[:200]}\n{text}", unknown=lk is None and bool(its)):
                    continue
                if pk[0][4] is None:
                    ob(R, "no-last", w, lk == "None", f"nothing is in the multiverse, and the last block is {show(la)[:200]}\n{text}")
                else:
                    ob(R, "its-last", w, lk == "Some" and asked(payload(la, "Some"), "id") is strip(pk[0][4]), f"the last block is {show(la)[:200]}\n{text}")
        R.floor(f"paths of {owner}::new", len(rs or []), 2)


# ---------------------------------------------------------------- the source over the network


def awaits(y):
    return {x[2][0]: x[3] for x in y if x[0] == "call" and x[1] == "await"}


def transposed(e, s, v, r):
    """whether v is the Result<Option> of an Option<Result> r on a path; None where the path does not settle it"""
    k = e.variant_of(s, r)
    was = e.variant_of(s, v)
    if k is None or was is None:
        return None
    if k == "None":
        return was == "Ok" and e.variant_of(s, payload(v, "Ok")) == "None"
    x = payload(r, "Some")
    q = e.variant_of(s, x)
    if q is None:
        return None
    if q == "Ok":
        return was == "Ok" and e.variant_of(s, payload(v, "Ok")) == "Some" and strip(payload(payload(v, "Ok"), "Some")) is strip(payload(x, "Ok"))
    return was == "Err" and strip(payload(v, "Err")) is strip(payload(x, "Err"))


@rule("B09", CR)
def buffered(R):
    """Every path through CardanoSource::pull is enumerated: while a request is under way its next event, or error, is the answer and nothing is asked; when there is none or it ended, exactly one request is
    sent, for the points given or, where there are none, for the network's starting point, with a new channel, which becomes the current one and whose first event is the answer. Clearing drops the
    current channel and nothing else."""
    f = trait(R, "pull", "cardano::CardanoSource as source::Source")
    if f:
        e, rs = R.run(f)
        w = where(f)
        n = {"served": 0, "asked": 0, "stopped": 0}
        o = mk("*", mk("arg", "self"))
        cur, frm = field(o, "current"), mk("*", mk("arg", "from"))
        for s, kind, v in rs or []:
            text = path_text(s, v)
            if not ob(R, "no-panic", w, kind == "ret", f"panics\n{text}"):
                continue
            evs = [x for x in all_events(s.events()) if x[0] == "call"]
            aw = awaits(evs)
            recv = [x for x in evs if last(x[1]) in ("recv", "try_recv", "blocking_recv")]
            send = [x for x in evs if last(x[1]) in ("send", "try_send", "blocking_send")]
            ck = e.variant_of(s, cur)
            left = final_of(e, s, "current")
            if not ob(R, "current-known", w, ck is not None, f"whether a request is under way is not looked at\n{text}"):
                continue
            rest = recv
            if ck == "Some":
                if not ob(R, "current-first", w, bool(recv) and last(recv[0][1]) == "recv" and strip(recv[0][2][0]) is strip(payload(cur, "Some")) and recv[0][3] in aw, f"a request is under way and its next event is not waited for\n{text}"):
                    continue
                r = aw[recv[0][3]]
                k = e.variant_of(s, r)
                if k == "Some":
                    n["served"] += 1
                    t = transposed(e, s, v, r)
                    ob(R, "served", w, t is True and len(recv) == 1 and not send, f"an event is there, and the answer is {show(v)[:200]}\n{text}", unknown=t is None)
                    ob(R, "request-kept", w, left is cur or (left.op != "adt" and contains_term(left, payload(cur, "Some"))) or (e.variant_of(s, left) == "Some" and contains_term(left, payload(cur, "Some"))), f"the request under way is dropped\n{text}")
                    continue
                if not ob(R, "ended", w, k == "None", f"whether the request ended is not looked at\n{text}"):
                    continue
                rest = recv[1:]
            n["asked"] += 1
            if not ob(R, "one-request", w, len(send) == 1 and strip(send[0][2][0]) is field(o, "service") and send[0][3] in aw, f"{len(send)} requests are sent\n{text}"):
                continue
            msg = send[0][2][1]
            pts, tx = field(msg, "0"), field(msg, "1")
            p = listed_in(e, s, pts)
            le = e.sign(s, length(frm))
            if le == frozenset("0"):
                ob(R, "default-from", w, p is not None and len(p) == 1 and strip(p[0]) is field(o, "default_from"), f"with no points, {show(pts)[:200]} is asked from\n{text}")
            else:
                ob(R, "from", w, strip(pts) is strip(frm), f"the points asked from are {show(pts)[:200]}\n{text}")
                ob(R, "from-some", w, "0" not in le, f"it may ask from no points\n{text}")
            ch = [x for x in evs if last(x[1]) == "channel" and strip(field(x[3], "0")) is strip(tx)]
            if not ob(R, "own-channel", w, len(ch) == 1, f"the events are to go to {show(tx)[:200]}\n{text}"):
                continue
            rx = field(ch[0][3], "1")
            k = e.variant_of(s, aw[send[0][3]])
            if k == "Err":
                n["stopped"] += 1
                ob(R, "stopped-is-error", w, e.variant_of(s, v) == "Err", f"the service has stopped, and the answer is {show(v)[:200]}\n{text}")
                continue
            if not ob(R, "sent", w, k == "Ok", f"whether the request was sent is not looked at\n{text}"):
                continue
            ob(R, "becomes-current", w, e.variant_of(s, left) == "Some" and contains_term(left, rx), f"the new request is not the current one\n{text}")
            if ob(R, "waited-for", w, len(rest) == 1 and strip(rest[0][2][0]) is strip(rx) and rest[0][3] in aw, f"the new request's first event is not waited for\n{text}"):
                t = transposed(e, s, v, aw[rest[0][3]])
                ob(R, "first-event", w, t is True, f"the answer is {show(v)[:200]}\n{text}", unknown=t is None)
        for k, i in n.items():
            R.floor(f"paths {k}", i, 1)
    f = R.one("CardanoSource::clear_buffers", R.prog.method("cardano::CardanoSource", "clear_buffers", crate=CR))
    if f:
        e, rs = R.run(f)
        for s, kind, v in rs or []:
            o = mk("*", mk("arg", "self"))
            kept = all(final_of(e, s, k) is field(o, k) for k in ("service", "default_from", "exit_rx"))
            ob(R, "cleared", where(f), kind == "ret" and e.variant_of(s, final_of(e, s, "current")) == "None" and kept, f"after clearing, the current request is {show(final_of(e, s, 'current'))[:100]}\n{path_text(s, v)}")


def contains_term(t, x):
    return any(strip(y) is strip(x) for y in walk(t))


def listed_in(e, s, t):
    """the single values of a list that is made of them"""
    t = strip(t)
    if t.op == "array":
        return list(t.a[0])
    if t.op == "push":
        p = listed_in(e, s, t.a[0])
        return None if p is None else p + [t.a[1]]
    if t.op == "empty":
        return []
    return None


def descending(e, s, t, prog):
    """whether a sorted list goes down by the points' slots; None when it is not read"""
    if t.op != "sorted" or not t.a[2]:
        return None
    clo = t.a[2][0]
    f = prog.fns.get(clo.a[0]) if clo.op == "closure" else None
    if f is None:
        return None
    by_key = "key" in t.a[1]
    one = [mk("arg", "<left>"), mk("arg", "<right>")][: 1 if by_key else 2]
    st = s.fork()
    for x in one:
        st.mem[mk("D", mk("tmpref", x))] = x
    st.mem[mk("D", mk("tmpref", clo))] = clo
    args = [mk("ref", mk("D", mk("tmpref", clo)), ())] + [mk("ref", mk("D", mk("tmpref", x)), ()) for x in one]
    r = None
    for s2, kind, v in e.after(st, f, args):
        if kind != "ret":
            return None
        if by_key:
            down = v.op == "adt" and v.a[0].endswith("Reverse")
            k = field(v, "0") if down else v
            if asked(k, "slot_nb") is not one[0]:
                return None
        else:
            if v.op != "ord":
                return None
            c0, d = lin(v.a[0])
            up = [x for x, q in d.items() if q == 1]
            dn = [x for x, q in d.items() if q == -1]
            if c0 or len(up) != 1 or len(dn) != 1:
                return None
            a, b = asked(up[0], "slot_nb"), asked(dn[0], "slot_nb")
            if {a, b} != set(one):
                return None
            down = a is one[1]
        r = down if r in (None, down) else None
    return r


@rule("B10", CR)
def fetched(R):
    """Every path through the fetching of blocks is enumerated: the node is asked for the first of the points, highest slot first, it knows; with none, or when the tip is there already, nothing is
    requested; the tip is announced when the pace is up, and then the pace starts again; the range from the common point to the tip is requested once; its first block, and only that, is passed over when it
    is a checkpoint; and every block after it is sent, once and in order, or the error it is, until there are none."""
    f = R.one("block_fetch", [x for x in R.prog.find("cardano::block_fetch") if x["crate"] == CR and "body" in x])
    if not f:
        return
    e, rs = R.run(f, opaque=(r"BlockEvent::from_serialized_block",))
    w = where(f)
    P = dict(zip(("handle", "from", "channel", "last_tip_event", "pace", "network_config", "ignore"), f["params"]))
    frm, pace, ignore = (mk("arg", P[k]) for k in ("from", "pace", "ignore"))
    n = {"pumping": 0, "up-to-date": 0, "lost": 0}
    for s, kind, v in rs or []:
        text = path_text(s, v)
        if not ob(R, "no-panic", w, kind == "ret", f"panics\n{text}"):
            continue
        top = s.events()
        evs = [x for x in all_events(top) if x[0] == "call"]
        flat = [x for x in top if x[0] == "call"]
        aw = awaits(evs)
        was = e.variant_of(s, v)
        asked_ = [x for x in evs if last(x[1]) == "intersect"]
        req = [x for x in evs if last(x[1]) == "request_range"]
        send = [x for x in evs if last(x[1]) in ("send", "try_send")]
        ltp = e.load(s, (mk("D", mk("arg", P["last_tip_event"])), ()))
        lt0 = mk("*", mk("arg", P["last_tip_event"]))
        if not asked_:
            conv_err = any(x[0] == "is" and x[2] in ("None", "Err") and any(y.op == "call" and base_name(y) in ("from_raw", "try_from") for y in [x[1]]) for x in top)
            ob(R, "points-refused", w, was == "Err" and not req and not send and conv_err, f"the node is not asked\n{text}")
            continue
        pts = strip(asked_[0][2][1])
        inner = pts.a[0] if pts.op == "sorted" else pts
        b = whole(inner.a[2]) if inner.op == "coll" else None
        ob(R, "all-points", w, len(asked_) == 1 and (b is frm or (inner.op == "coll" and inner.a[0] is frm)), f"the points asked for are {show(pts)[:200]}\n{text}", unknown=inner.op != "coll")
        d = descending(e, s, pts, R.prog)
        ob(R, "highest-first", w, d is True, f"the points are not asked for highest slot first: {show(pts)[:80]}\n{text}", unknown=d is None and pts.op == "sorted")
        r = aw.get(asked_[0][3])
        k = e.variant_of(s, r) if r is not None else None
        if k != "Ok":
            ob(R, "errors-passed", w, k == "Err" and was == "Err" and not req and not send, f"the node does not answer, and the answer is {show(v)[:200]}\n{text}")
            continue
        x = payload(r, "Ok")
        fk = e.variant_of(s, x)
        if fk == "NotFound":
            n["lost"] += 1
            ob(R, "no-common-point", w, was == "Ok" and not req and not send and ltp is lt0, f"no point is known, and still something is sent or requested\n{text}")
            continue
        if not ob(R, "found", w, fk == "Found", f"whether a point is known is not looked at\n{text}"):
            continue
        start, tip = field(mk("as", x, "Found"), "0"), field(mk("as", x, "Found"), "1")
        at = same(e, s, field(tip, "point"), start)
        if at is not False:
            n["up-to-date"] += 1
            ob(R, "up-to-date", w, at is True and was == "Ok" and not req and not send and ltp is lt0, f"the tip is there already, and still something is sent or requested\n{text}")
            continue
        blocks = [y for y in send if e.variant_of(s, y[2][1]) != "Ok" or e.variant_of(s, payload(y[2][1], "Ok")) != "Tip"]
        tips = [y for y in send if y not in blocks]
        el = [y for y in evs if last(y[1]) == "elapsed" and strip(y[2][0]) is strip(lt0)]
        late = {e.truth(s, rel(y[3], ">=", pace)) for y in el}
        if ob(R, "pace-asked", w, len(late) == 1 and None not in late, f"whether the pace is up is not looked at\n{text}", unknown=False):
            if late == {True}:
                ok = len(tips) == 1 and strip(payload(payload(tips[0][2][1], "Ok"), "Tip")) is tip and strip(tips[0][2][0]) is strip(mk("arg", P["channel"])) and tips[0][3] in aw
                ob(R, "tip-announced", w, ok, f"the pace is up and the tip is announced {len(tips)} times\n{text}")
                ob(R, "pace-again", w, base_name(ltp) == "now", f"the pace does not start again\n{text}")
            else:
                ob(R, "not-announced", w, not tips and ltp is lt0, f"the tip is announced before the pace is up\n{text}")
        if not ob(R, "range-once", w, len(req) == 1 and req[0] in flat and req[0][3] in aw, f"{len(req)} ranges are requested\n{text}"):
            continue
        ob(R, "from-common-to-tip", w, strip(req[0][2][1]) is start and strip(req[0][2][2]) is field(tip, "point"), f"the range is from {show(req[0][2][1])[:150]} to {show(req[0][2][2])[:150]}\n{text}")
        r = aw[req[0][3]]
        k = e.variant_of(s, r)
        if k != "Ok":
            ob(R, "errors-passed", w, k == "Err" and was == "Err" and not blocks, f"the range is refused, and the answer is {show(v)[:200]}\n{text}")
            continue
        bf = payload(r, "Ok")
        if e.variant_of(s, bf) == "None":
            ob(R, "no-blocks", w, was == "Ok" and not blocks, f"there are no blocks, and the answer is {show(v)[:200]}\n{text}")
            continue
        fetcher = payload(bf, "Some")
        loops = [x[1] for x in top if x[0] == "loop" and any(last(y[1]) == "next" for it in x[1].iters for y in it[0] if y[0] == "call")]
        nxt = [y for y in flat if last(y[1]) == "next" and "Fetcher" in y[1]]
        before = [y for y in nxt if strip(y[2][0]) is strip(fetcher)]
        ig = e.truth(s, ignore)
        if not loops:
            # it ended before the loop: the block passed over could not be had
            ok = ig is True and len(before) == 1 and e.variant_of(s, aw.get(before[0][3], ZERO)) == "Err" and was == "Err"
            ob(R, "every-block", w, ok and not blocks, f"the blocks are not sent\n{text}")
            continue
        n["pumping"] += 1
        if not ob(R, "one-loop", w, len(loops) == 1, f"{len(loops)} loops take blocks\n{text}", unknown=True if len(loops) != 1 else False):
            continue
        L = loops[0]
        ph = [(loc, i, p) for loc, (i, p) in L.phis.items() if strip(i) is strip(fetcher) or (i.op == "mut" and last(i.a[0]) == "next" and strip(i.a[2]) is strip(fetcher))]
        if not ob(R, "same-fetcher", w, len(ph) == 1, f"the blocks are not those requested\n{text}"):
            continue
        loc, init, phi = ph[0]
        skipped = 0 if strip(init) is strip(fetcher) else 1
        ob(R, "first-passed-over", w, ig is not None and skipped == (1 if ig else 0), f"{skipped} blocks are passed over when the first one is{'' if ig else ' not'} a checkpoint\n{text}", unknown=False)
        for ie, fin, st in L.iters:
            t = path_text(st, v) if False else text
            c1 = [y for y in all_events(ie) if y[0] == "call"]
            one_block(R, w, e, st, c1, phi, P, t, more=True)
            z = fin.get(loc, phi)
            ob(R, "in-order", w, z.op == "mut" and last(z.a[0]) == "next" and z.a[2] is phi, f"the blocks are not taken one after another\n{text}")
        # what happened in the last round
        i = next(j for j, x in enumerate(top) if x[0] == "loop" and x[1] is L)
        c1 = [y for y in top[i + 1 :] if y[0] == "call"]
        one_block(R, w, e, s, c1, phi, P, text, more=False, v=v)
    for k, i in n.items():
        R.floor(f"paths {k}", i, 1)


def one_block(R, w, e, s, calls, phi, P, text, more, v=None):
    """one round of the loop over the blocks"""
    aw = awaits(calls)
    nxt = [y for y in calls if last(y[1]) == "next" and strip(y[2][0]) is phi]
    if not ob(R, "one-taken", w, len(nxt) == 1 and nxt[0][3] in aw, f"{len(nxt)} blocks are taken in a round\n{text}"):
        return
    r = aw[nxt[0][3]]
    was = e.variant_of(s, v) if v is not None else None
    k = e.variant_of(s, r)
    send = [y for y in calls if last(y[1]) in ("send", "try_send")]
    if k == "Err":
        ob(R, "errors-passed", w, not more and was == "Err" and not send, f"a block cannot be had, and it goes on\n{text}")
        return
    some = e.variant_of(s, payload(r, "Ok")) if k == "Ok" else None
    if some == "None":
        ob(R, "until-none", w, not more and was == "Ok" and not send, f"there are no more blocks, and the answer is {show(v)[:100] if v is not None else 'another round'}\n{text}")
        return
    if not ob(R, "taken", w, some == "Some", f"whether there is a block is not looked at\n{text}"):
        return
    blk = payload(payload(r, "Ok"), "Some")
    par = [y for y in calls if last(y[1]) == "from_serialized_block"]
    if not ob(R, "every-block-sent", w, len(send) == 1 and len(par) == 1 and send[0][3] in aw and strip(send[0][2][0]) is strip(mk("arg", P["channel"])), f"a block is sent {len(send)} times\n{text}"):
        return
    ob(R, "of-this-block", w, same_bytes(par[0][2][0], blk) and strip(par[0][2][1]) is strip(field(mk("*", mk("arg", P["network_config"])), "shelley_era_config")), f"what is sent is of {show(par[0][2][0])[:200]}\n{text}")
    pk = e.variant_of(s, par[0][3])
    m = send[0][2][1]
    mk_ = e.variant_of(s, m)
    if pk == "Ok":
        ob(R, "as-block", w, mk_ == "Ok" and e.variant_of(s, payload(m, "Ok")) == "Block" and strip(payload(payload(m, "Ok"), "Block")) is strip(payload(par[0][3], "Ok")), f"a block is sent as {show(m)[:200]}\n{text}")
    else:
        ob(R, "error-sent", w, pk == "Err" and mk_ == "Err", f"a malformed block is sent as {show(m)[:200]}\n{text}")
    sk = e.variant_of(s, aw[send[0][3]])
    if sk == "Err":
        ob(R, "closed-is-error", w, not more and was == "Err", f"the events cannot be sent any more, and it goes on\n{text}")
    else:
        ob(R, "goes-on", w, more and sk == "Ok", f"a block was sent, and it ends\n{text}")


def same_bytes(a, b):
    """whether a is the bytes of b"""
    a, b = strip(a), strip(b)
    for _ in range(5):
        if a is b:
            return True
        n = base_name(a)
        if n not in ("as_ref", "as_slice", "deref", "as_bytes", "to_vec", "borrow"):
            return False
        a = asked(a, n)
    return False


@rule("B11", CR)
def served(R):
    """Every round of the loop over the requests is enumerated: each request is served with a connection, a new one where the last was lost, once, into its own channel, at the network's pace; the first block is passed over but where the
    request is from before the genesis block, and then it is served from the genesis block; a connection that failed is stopped and not used again, one that did not is; a failed reconnection serves nothing; at the
    end the exit is signalled."""
    f = R.one("request_handler", [x for x in R.prog.find("cardano::request_handler") if x["crate"] == CR and "body" in x])
    if not f:
        return
    e, rs = R.run(f, opaque=(r"cardano::block_fetch",))
    w = where(f)
    handle, requests, exit_, pace, net, cfg = (mk("arg", p) for p in f["params"])
    n = 0
    rounds = set()
    for s, kind, v in rs or []:
        text = path_text(s, v)
        top = s.events()
        if kind != "ret":
            # only where the clock is younger than the pace
            las = [x for x in all_events(top) if x[0] == "is"]
            ob(R, "no-panic", w, bool(las) and asked(las[-1][1], "checked_sub") is not None, f"panics\n{text}")
            continue
        loops = [x[1] for x in top if x[0] == "loop" and any(last(y[1]) == "recv" for it in x[1].iters for y in it[0] if y[0] == "call")]
        if not ob(R, "one-loop", w, len(loops) == 1, f"{len(loops)} loops over the requests\n{text}"):
            continue
        L = loops[0]
        calls = [x for x in top if x[0] == "call"]
        ex = [x for x in calls if last(x[1]) == "send" and strip(x[2][0]) is strip(exit_)]
        aw = awaits(calls)
        lr = [x for x in calls if last(x[1]) == "recv"]
        ob(R, "until-closed", w, len(lr) == 1 and e.variant_of(s, aw.get(lr[0][3], ZERO)) == "None", f"it ends while requests may still come\n{text}")
        ob(R, "exit-signalled", w, len(ex) == 1, f"the exit is signalled {len(ex)} times\n{text}")
        hp = [(l, i, p) for l, (i, p) in L.phis.items() if e.variant_of(s, i) == "Some" and strip(payload(i, "Some")) is strip(handle)]
        if not ob(R, "one-connection", w, len(hp) == 1, f"the connection is not kept from a request to the next\n{text}"):
            continue
        hl, hi, hphi = hp[0]
        for ie, fin, st in L.iters:
            c1 = [x for x in all_events(ie) if x[0] == "call"]
            aw = awaits(c1)
            n += 1
            rc = [x for x in c1 if last(x[1]) == "recv"]
            if not ob(R, "one-request", w, len(rc) == 1 and rc[0][3] in aw and e.variant_of(st, aw[rc[0][3]]) == "Some", f"{len(rc)} requests are taken in a round\n{text}"):
                continue
            rq = payload(aw[rc[0][3]], "Some")
            pts, ch = field(rq, "0"), field(rq, "1")
            hk = e.variant_of(st, hphi)
            start = [x for x in c1 if last(x[1]) == "start"]
            fetch = [x for x in c1 if last(x[1]) == "block_fetch"]
            stop = [x for x in c1 if last(x[1]) == "stop"]
            after = fin.get(hl, hphi)
            conn = payload(hphi, "Some")
            if hk != "Some":
                if not ob(R, "reconnects", w, hk == "None" and len(start) == 1 and strip(start[0][2][0]) is strip(cfg) and start[0][3] in aw, f"there is no connection, and it connects {len(start)} times\n{text}"):
                    continue
                r = aw[start[0][3]]
                k = e.variant_of(st, r)
                if k == "Err":
                    rounds.add("no-connection")
                    ob(R, "not-served", w, not fetch and e.variant_of(st, after) == "None", f"there is no connection, and it goes on\n{text}")
                    continue
                if not ob(R, "connected", w, k == "Ok", f"whether it connected is not looked at\n{text}"):
                    continue
                conn = payload(r, "Ok")
            else:
                ob(R, "connection-reused", w, not start, f"there is a connection, and it connects again\n{text}")
            if not ob(R, "served-once", w, len(fetch) == 1 and fetch[0][3] in aw, f"a request is served {len(fetch)} times\n{text}"):
                continue
            a = fetch[0][2]
            ob(R, "own-connection", w, strip(a[0]) is strip(conn), f"a request is served with {show(a[0])[:150]}\n{text}")
            ob(R, "own-channel", w, strip(a[2]) is strip(ch) and strip(a[4]) is strip(pace) and strip(a[5]) is strip(net), f"a request is served into {show(a[2])[:150]}\n{text}")
            gen = None
            for k, m in st.facts.items():
                if k[0] == "s":
                    q, d = lin(k[1])
                    ar = [t for t in d if t.op == "array"]
                    if q == 0 and len(d) == 2 and len(ar) == 1 and any(strip(t) is strip(pts) for t in d):
                        z = ar[0].a[0]
                        p = strip(z[0]) if len(z) == 1 else None
                        if p is not None and e.variant_of(st, p) == "BlockHeader" and conv(field(p, "hash")) is conv(field(mk("arg", f["params"][4]), "genesis_parent")) and conv(field(p, "slot_nb")) is ZERO:
                            gen = True if m == frozenset("0") else False if "0" not in m else None
            ig = a[6]
            if not ob(R, "genesis-asked", w, gen is not None, f"whether the request is from before the genesis block is not looked at\n{text}", unknown=any(k[0] in "bs" and contains_term(k[1], pts) for k in st.facts)):
                continue
            if gen:
                p = listed_in(e, st, a[1])
                ob(R, "from-genesis", w, p is not None and len(p) == 1 and strip(p[0]) is field(net, "genesis") and is_false(ig), f"from before the genesis block, it is served from {show(a[1])[:150]}, passing the first over: {show(ig)}\n{text}")
            else:
                ob(R, "from-points", w, strip(a[1]) is strip(pts) and is_true(ig), f"a request is served from {show(a[1])[:150]}, passing the first over: {show(ig)}\n{text}")
            k = e.variant_of(st, aw[fetch[0][3]])
            rounds.add(k)
            if k == "Err":
                ob(R, "failed-dropped", w, e.variant_of(st, after) == "None" and len(stop) == 1, f"a connection that failed is kept\n{text}")
            else:
                ob(R, "kept", w, k == "Ok" and e.variant_of(st, after) == "Some" and contains_term(after, conn) and not stop, f"a connection that did not fail is dropped\n{text}")
    R.floor("rounds", n, 5)
    R.floor("kinds of rounds", len(rounds), 3)


@rule("B12", CR)
def block_events(R):
    """Every path through BlockEvent::from_serialized_block is enumerated by the kind of the block: bytes that are no block are an error; the event's identity is the block's hash, its parent, number and slot are
    the header's, the bytes are the ones given; only a boundary block is one; the epoch is the one Byron's blocks carry, or the era's for the slot, and a slot before the era is an error."""
    f = R.one("BlockEvent::from_serialized_block", R.prog.method("event::BlockEvent", "from_serialized_block", crate=CR))
    if not f:
        return
    e, rs = R.run(f, opaque=(r"Era::absolute_slot_to_epoch",), apart=("from_serialized_block",))
    w = where(f)
    raw, era_ = (mk("arg", p) for p in f["params"])
    n = {"boundary": 0, "byron": 0, "later": 0, "malformed": 0}
    for s, kind, v in rs or []:
        text = path_text(s, v)
        if not ob(R, "no-panic", w, kind == "ret", f"panics\n{text}"):
            continue
        evs = [x for x in all_events(s.events()) if x[0] == "call"]
        parsed = sorted({t for k in s.facts if k[0] == "d" for t in [k[1]] if t.op in ("call", "res") and base_name(t) in ("from_explicit_network_cbor_bytes", "from_network_cbor_bytes", "from_cbor_bytes")}, key=lambda t: t.id)
        was = e.variant_of(s, v)
        if not ob(R, "parsed-once", w, len(parsed) == 1 and same_bytes((parsed[0].a[1] if parsed[0].op == "call" else parsed[0].a[2])[0], raw), f"the bytes are parsed {len(parsed)} times\n{text}"):
            continue
        k = e.variant_of(s, parsed[0])
        if k != "Ok":
            n["malformed"] += 1
            ob(R, "malformed-is-error", w, k == "Err" and was == "Err", f"bytes that are no block become {show(v)[:150]}\n{text}")
            continue
        b = payload(parsed[0], "Ok")
        bk = e.variant_of(s, b)
        by = payload(b, "Byron")
        yk = e.variant_of(s, by) if bk == "Byron" else None
        ep = [t for kk in s.facts if kk[0] == "d" for t in [kk[1]] if t.op in ("call", "res") and base_name(t) == "absolute_slot_to_epoch"]
        if was == "Err":
            ob(R, "only-before-era", w, bk != "Byron" and any(e.variant_of(s, t) in ("None", "Err") for t in ep), f"a block is refused\n{text}")
            continue
        if not ob(R, "answer", w, was == "Ok", f"answers {show(v)[:150]}\n{text}", unknown=was is None):
            continue
        x = payload(v, "Ok")

        def of_header(t, name):
            t = conv(t)
            h = asked(t, name)
            return h is not None and (asked(h, "header") is strip(b))

        i = conv(field(x, "id"))
        ob(R, "id", w, asked(asked(i, "encode") or ZERO, "hash") is strip(b), f"the identity is {show(field(x, 'id'))[:200]}\n{text}")
        ob(R, "number", w, of_header(field(x, "block_number"), "block_number"), f"the number is {show(field(x, 'block_number'))[:200]}\n{text}")
        ob(R, "slot", w, of_header(field(x, "slot_number"), "slot"), f"the slot is {show(field(x, 'slot_number'))[:200]}\n{text}")
        ob(R, "bytes", w, same_bytes(field(x, "raw_block"), raw), f"the bytes are {show(field(x, 'raw_block'))[:200]}\n{text}")
        par = conv(field(x, "parent_id"))
        ph = [t for kk in s.facts if kk[0] == "d" for t in [kk[1]] if asked(t, "prev_hash") is not None and asked(asked(t, "prev_hash"), "header") is strip(b)]
        pk = e.variant_of(s, ph[0]) if len(ph) == 1 else None
        if ob(R, "parent-asked", w, pk is not None, f"the parent is not looked at\n{text}"):
            if pk == "Some":
                ob(R, "parent", w, strip(par) is strip(conv(payload(ph[0], "Some"))), f"the parent is {show(par)[:200]}\n{text}")
            else:
                ob(R, "no-parent", w, par.op in ("str", "k", "c", "s", "const", "lit") or not any(t.op in ("arg", "res", "call") for t in walk(par)), f"the parent of a block without one is {show(par)[:200]}\n{text}")
        flag = field(x, "is_boundary_block")
        epoch = field(x, "epoch")
        if bk == "Byron" and yk == "EpochBoundary":
            n["boundary"] += 1
            ob(R, "boundary", w, is_true(flag), f"a boundary block is none\n{text}")
            ob(R, "boundary-epoch", w, show(epoch).endswith("header.consensus_data.epoch_id") and contains_term(epoch, by), f"the epoch of a boundary block is {show(epoch)[:200]}\n{text}")
        elif bk == "Byron" and yk == "Main":
            n["byron"] += 1
            ob(R, "not-boundary", w, is_false(flag), f"a main block is a boundary block\n{text}")
            ob(R, "byron-epoch", w, show(epoch).endswith("header.consensus_data.byron_slot_id.epoch") and contains_term(epoch, by), f"the epoch of a main block is {show(epoch)[:200]}\n{text}")
        elif bk is not None and bk != "Byron" or (bk is None and "Byron" in e.excluded(s, b)):
            n["later"] += 1
            ob(R, "not-boundary", w, is_false(flag), f"a block after Byron is a boundary block\n{text}")
            good = len(ep) == 1 and strip((ep[0].a[1] if ep[0].op == "call" else ep[0].a[2])[0]) is strip(era_) and of_header((ep[0].a[1] if ep[0].op == "call" else ep[0].a[2])[1], "slot") and strip(epoch) is strip(payload(ep[0], "Some"))
            ob(R, "era-epoch", w, good, f"the epoch is {show(epoch)[:200]}\n{text}")
        else:
            ob(R, "kind-known", w, False, f"the kind of the block is not looked at\n{text}", unknown=True)
    for k, i in n.items():
        R.floor(f"blocks {k}", i, 1)


@rule("B13", CR, "multiverse")
def errors_reported(R):
    """On every path on which a function of the crate that can fail reports success, every operation on the multiverse, on the inner source and on the node that it needed has been looked at and is known to have
    succeeded; so is every fallible function of the crate it called."""
    n = errors_rule(R, (CR,), ops=(r"^local:", r"hex::", r"cml"), opaque=TREE)
    for owner in ("MultiverseSource<", "ForkHandlingSource<"):
        for f, e, s, kind, v, y, text in pulled(R, owner):
            if kind != "ret":
                continue
            for s2, k, _ in e.cases(s.fork(), v, ["Ok", "Err"]):
                if k != "Ok":
                    continue
                n += 1
                bad = err_swallowed(e, s2, s2.events(), v, ops=(r"^local:", r"^await$"))
                R.ob("reported", where(f), not bad, f"success is reported although {bad[0][0] if bad else ''} {'failed' if bad and bad[0][2] == 'Err' else 'may have failed'} ({at(bad[0][1]) if bad else ''})\n{text}")
    R.floor("success paths", n, 20)


# ---------------------------------------------------------------- stopping


def parts_of(R):
    """the fields of the node's source by what they are: where requests go in, what is being received, and what tells the end of the request loop"""
    a = R.prog.adts.get(CR + "::cardano::CardanoSource")
    r = {}
    for x in a["variants"][0]["fields"] if a else ():
        t = x["ty"]["s"]
        k = "in" if "mpsc::Sender<" in t.split("(")[0] else "end" if "oneshot::Receiver" in t else "now" if "mpsc::" in t else None
        if k:
            r.setdefault(k, x["name"])
    return r if len(r) == 3 else None


def lets_go(x, t):
    """whether a dropped value is or holds the term"""
    return x[0] == "gone" and any(strip(y) is strip(t) for y in walk(x[1])) or x[0] == "call" and last(x[1]) in ("close", "closed") and any(strip(y) is strip(t) for v in x[2] for y in walk(v))


@rule("B14", CR)
def stopping(R):
    """On every path of stopping, the sender of requests and the receiver in use are dropped before the end of the request loop is awaited, and it is awaited; the request loop tells its end
    only once it has been left; clearing the buffers drops the receiver in use and keeps the sender."""
    N = parts_of(R)
    if N is None:
        return R.undecided("CardanoSource", "its fields are not a sender of requests, a receiver and the end of the loop")
    n = 0
    for f in sorted(R.prog.fns.values(), key=lambda f: f["path"]):
        if f["crate"] != CR or f.get("name") != "stop" or "body" not in f or f.get("kind") == "closure":
            continue
        if not any(o in f["path"] for o in ("CardanoSource", "MultiverseSource")):
            continue
        e, rs = R.run(f, gone=r"mpsc::|oneshot::|CardanoSource")
        w = where(f)
        for s, kind, v in rs or []:
            if kind != "ret":
                continue
            text = path_text(s, v)
            evs = list(s.events())
            waits = [(i, strip(x[2][0])) for i, x in enumerate(evs) if x[0] == "call" and last(x[1]) == "await"]
            ends = [(i, t) for i, t in waits if any(y.op == "." and y.a[1] == N["end"] for y in walk(t))]
            n += 1
            if not ends:
                ob(R, "waits", w, False, f"returns without waiting for the end of the request loop\n{text}", unknown=bool(waits))
                continue
            i, t = ends[0]
            base = next(y.a[0] for y in walk(t) if y.op == "." and y.a[1] == N["end"])
            for k, what in (("in", "the sender of requests"), ("now", "the receiver in use")):
                ok = any(lets_go(x, field(base, N[k])) or x[0] == "gone" and strip(x[1]) is strip(base) for x in evs[:i])
                ob(R, "dropped-first", w, ok, f"waits for the end of the request loop while it holds {what}\n{text}", unknown=any(x[0] == "call" and any(field(base, N[k]) is y for v2 in x[2] for y in walk(v2)) for x in evs[:i]))
    R.floor("ways to stop", n, 2)
    m = 0
    f = R.one("cardano::request_handler", [x for x in R.prog.find("cardano::request_handler") if x["crate"] == CR and "body" in x])
    if f:
        e, rs = R.run(f, opaque=(r"block_fetch",), gone=r"oneshot::")
        sig = [mk("arg", p) for p, i in zip(f["params"], f["inputs"]) if "oneshot::Sender" in i["s"]]
        for s, kind, v in rs or []:
            if kind != "ret" or not sig:
                continue
            m += 1
            evs = list(s.events())
            told = [i for i, x in enumerate(evs) if (x[0] == "gone" and any(y is sig[0] for y in walk(x[1]))) or x[0] == "call" and last(x[1]) == "send" and any(y is sig[0] for z in x[2] for y in walk(z))]
            loops = [i for i, x in enumerate(evs) if x[0] == "loop"]
            inside = [x for i in loops for ie, _, _ in evs[i][1].iters for x in ie if x[0] in ("gone", "call") and any(y is sig[0] for z in (x[2] if x[0] == "call" else (x[1],)) for y in walk(z))]
            ob(R, "told-after", where(f), not inside and (not told or not loops or told[0] > loops[0]), f"the end of the request loop is told before it has been left\n{path_text(s, v)}", unknown=not loops)
        R.floor("ends of the request loop", m, 1)
    f = R.one("CardanoSource::clear_buffers", R.prog.method("cardano::CardanoSource", "clear_buffers", crate=CR))
    if f:
        e, rs = R.run(f, gone=r"mpsc::")
        for s, kind, v in rs or []:
            if kind != "ret":
                continue
            new, old = e.load(s, (mk("D", mk("arg", "self")), ())), mk("*", mk("arg", "self"))
            ob(R, "cleared", where(f), e.variant_of(s, field(new, N["now"])) == "None", f"what is buffered stays: {show(new)[:200]}\n{path_text(s, v)}")
            ob(R, "still-asking", where(f), field(new, N["in"]) is field(old, N["in"]) and field(new, N["end"]) is field(old, N["end"]), f"clearing changes more: {show(new)[:200]}\n{path_text(s, v)}")


# (magic or the constructor of the network, slot and hash of the first block to pull from, hash of the parent of the first block, slot and hash of the first block)
NETWORKS = {
    "mainnet": (4492800, "aa83acbf5904c0edfe4d79b3689d3d00fcfc553cf360fd2229b98d464c28e9de", "5f20df933584822601f9e3f8c024eb5eb252fe8cefb24d1317dc3d432e940ebb", 0, "89d9b5a5b8ddc8d7e5a6795e9774d97faf1efea59b2caf7eaf9f8c5b32059df4"),
    "testnet": (1598400, "02b1c561715da9e540411123a6135ee319b02f60b9a11a603d3305556c04329f", "96fceff972c2c06bd3bb5243c39215333be6d56aaf4823073dca31afe5038471", 0, "8f8602837f7c6f8b8867dd1cbc1842cf51a27eaed2c70ef48325d00f8efb320f"),
    "preprod": (86400, "c4a1595c5cc7a31eda9e544986fe9387af4e3491afe0ca9a80714f01951bbd5c", "d4b8de7a11d929a323373cbab6c1a9bdc931beffff11db111cf9d57356ee1937", 0, "9ad7ff320c9cf74e0f5ee78d22a85ce42bb0a487d0506bf60cfb5a91ea4497d2"),
    "preview": (25400, "8542d7f0b744f40f3de6164294b5feb0095307d46c7290acc8a5d9bd802acb8e", "72593f260b66f26bef4fc50b38a8f24d3d3633ad2e854eaf73039eb9402706f1", 0, "268ae601af8f9214804735910a3301881fbe0eec9936db7d1fb9fc39e93d1e37"),
    "sancho": (20, "6a7d97aae2a65ca790fd14802808b7fce00a3362bd7b21c4ed4ccb4296783b98", "785eb88427e136378a15b0a152a8bfbeec7a611529ccda29c43a1e60ffb48eaa", 20, "6a7d97aae2a65ca790fd14802808b7fce00a3362bd7b21c4ed4ccb4296783b98"),
}
MAGIC = {"sancho": (1, 4)}


def constant(t):
    """the number or the text at the bottom of a wrapped constant"""
    while True:
        t = strip(t)
        if t.op == "adt" and len(t.a[2]) == 1:
            t = t.a[2][0][1]
        elif t.op == "call" and len(t.a[1]) == 1:
            t = t.a[1][0]
        else:
            break
    return t.a[1] if is_int(t) else t.a[0].strip('"') if t.op == "str" else None


@rule("B15", CR)
def own_blocks(R):
    """Each network's configuration is compared, constant by constant, with the network's published blocks: the point it is pulled from, the first block and that block's parent, and the network's own magic."""
    n = 0
    for net, (slot, h, parent, gslot, gh) in NETWORKS.items():
        f = R.one("NetworkConfiguration::" + net, R.prog.method("configuration::NetworkConfiguration", net, crate=CR))
        if not f:
            continue
        e, rs = R.run(f)
        w = where(f)
        for s, kind, v in rs or []:
            if kind != "ret":
                continue
            for name, want in (("from", (slot, h)), ("genesis", (gslot, gh))):
                p = strip(field(v, name))
                head = p.op == "adt" and p.a[1] == "BlockHeader"
                for k, x in zip(("slot_nb", "hash"), want):
                    n += 1
                    got = constant(dict(p.a[2]).get(k)) if head and k in dict(p.a[2]) else None
                    ob(R, "own-" + name, w, got == x, f"{k} of {name} of {net} is {got}, not {x}", unknown=got is None)
            n += 1
            got = constant(field(v, "genesis_parent"))
            ob(R, "own-parent", w, got == parent, f"the parent of the first block of {net} is {got}, not {parent}", unknown=got is None)
            i = strip(field(v, "chain_info"))
            if i.op == "call" and last(i.a[0]) != "new":
                ob(R, "own-magic", w, last(i.a[0]) == net, f"{net} is taken for {last(i.a[0])}")
            elif i.op == "call" and net in MAGIC:
                got = tuple(constant(x) for x in i.a[1])
                ob(R, "own-magic", w, got == MAGIC[net], f"the network and magic of {net} are {got}, not {MAGIC[net]}", unknown=None in got)
            else:
                ob(R, "own-magic", w, False, f"{net}'s network is {show(i)[:200]}", unknown=True)
    R.floor("constants", n, 25)
