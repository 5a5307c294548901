"""indexed-log-map: a log of values, and the position of each key's value in it."""

import re

from core import *
from rules import rule
from rules_core import final  # noqa
from rules_fraos2 import errors_rule
from rules_store import ob
from rules_multiverse import all_events
from ledger import canon, strip
import models

CR = "indexed_log_map"
LOG = r"^fraos::"
READS = ("get", "contains_key", "len", "is_empty", "flush", "iter", "first", "last", "range", "get_lt", "get_gt", "deref", "clone", "name", "scan_prefix", "size_on_disk")


def method(R, n):
    return R.prog.method("storage::IndexedLogMap", n, crate=CR)


def me():
    return mk("*", mk("arg", "self"))


def log_of(o):
    return field(o, "storage")


def index_of(o):
    return payload(field(o, "key_to_seqno"), "Some")


def calls(evs, rx):
    return [x for x in evs if x[0] == "call" and re.search(rx, x[1])]


def on_log(evs):
    return calls(evs, r"^local:database::")


def on_index(evs):
    return calls(evs, r"sled::")


def ret(x):
    return x[3]


def last(name):
    return name.split("::")[-1]


def bytes_of(e, s, t):
    """the bytes behind slices and references"""
    for _ in range(20):
        if t.op == "ref":
            t = e.load(s, e.deref(t))
        elif t.op in ("*", "box", "shared") and t.a and isinstance(t.a[0], T):
            t = t.a[0]
        elif t.op == "D" and t.a:
            t = e.load(s, (t, ()))
        else:
            break
    return t


def encoded(e, s, t):
    """(format, what is encoded) of bytes that are an encoding of something; (None, None) if that is not how they were made, ("?", None) if it is not known"""
    t = bytes_of(e, s, t)
    if t.op == "mut":
        if last(t.a[0]) == "into_writer" and t.a[2].op == "empty":
            x = t.a[3]
            return "ciborium", strip(x[0] if isinstance(x, tuple) else x)
        return None, None
    if t.op == "." and t.a[0].op == "as":
        r = t.a[0].a[0]
        if r.op in ("call", "res") and last(r.a[0]) in ("to_vec", "to_string", "serialize"):
            a = r.a[1] if r.op == "call" else r.a[2]
            return ("serde_json" if last(r.a[0]) != "serialize" else "bincode"), strip(a[0])
    if t.op in ("slice", "push", "array", "empty", "c", "str"):
        return None, None
    return "?", None


def decoded(t):
    """(format, of what) of a value that was decoded; the payload of Ok"""
    if t.op == "." and t.a[0].op == "as" and t.a[0].a[1] == "Ok":
        r = t.a[0].a[0]
        if r.op in ("call", "res"):
            a = r.a[1] if r.op == "call" else r.a[2]
            n = last(r.a[0])
            if n == "from_reader":
                return "ciborium", strip(a[0])
            if n in ("from_slice", "from_str"):
                return "serde_json", strip(a[0])
            if n == "deserialize":
                return "bincode", strip(a[0])
    return None, None


def known_some(e, s, t):
    return e.variant_of(s, t) == "Some"


def no_index(e, s, o):
    return e.variant_of(s, field(o, "key_to_seqno")) == "None"


def cause(s, extra=()):
    """something failed on the path, or was not there"""
    return any(x[0] == "is" and isinstance(x[1], T) and (x[2] == "Err" or x[2] == "None") for x in s.events())


@rule("I01", CR, "fraos")
def appended(R):
    """append: reports success only after the value's encoding, all of it and once, is in the log and then the encoding of the key is in the index with the position the log gave; nothing is written when
    there is no index, and no position is written that the log did not give"""
    f = R.one("IndexedLogMap::append", method(R, "append"))
    if not f:
        return
    e, rs = R.run(f, (LOG,))
    w = where(f)
    o = me()
    key, value = mk("arg", "key"), mk("arg", "value")
    n = m = 0
    for s, kind, v in rs or []:
        if kind != "ret":
            continue
        text = path_text(s, v)
        evs = s.events()
        loops = any(x[0] == "loop" and any(on_log(ie) + on_index(ie) for ie, _, _ in x[1].iters) for x in all_events(evs))
        wl = [x for x in on_log(evs) if "append" in last(x[1])]
        wi = [x for x in on_index(evs) if last(x[1]) not in READS and "Config" not in x[1]]
        was = e.variant_of(s, v)
        if no_index(e, s, o):
            ob(R, "no-index-refused", w, was == "Err" and not wl and not wi, f"without an index something is written, or success reported\n{text}")
            continue
        for x in wi:
            ob(R, "log-first", w, bool(wl) and evs.index(wl[0]) < evs.index(x) and e.variant_of(s, ret(wl[0])) == "Ok", f"the index is written before the value is in the log\n{text}")
        if was != "Ok":
            m += 1
            ob(R, "refused-for-cause", w, cause(s), f"an append is refused though nothing failed\n{text}", unknown=was is None)
            continue
        n += 1
        if not ob(R, "value-once", w, len(wl) == 1 and not loops, f"{len(wl)} appends to the log\n{text}", unknown=loops):
            continue
        x = wl[0]
        recs = x[2][1] if len(x[2]) > 1 else None
        ob(R, "own-log", w, strip(bytes_of(e, s, x[2][0])) is canon(strip(log_of(o))) or canon(strip(x[2][0])) is canon(log_of(o)), f"{show(x[2][0])[:200]} is appended to\n{text}")
        recs = bytes_of(e, s, recs)
        good, why, unk = False, f"{show(recs)[:200]} is appended", recs.op != "array"
        if recs.op == "array":
            why = f"{len(recs.a[0])} records are appended"
            if len(recs.a[0]) == 1:
                fm, y = encoded(e, s, recs.a[0][0])
                good, unk, why = fm == "ciborium" and y is value, fm == "?", f"{show(bytes_of(e, s, recs.a[0][0]))[:200]} is appended"
        ob(R, "value-whole", w, good, f"{why}, not the value's encoding\n{text}", unknown=unk)
        if not ob(R, "key-once", w, len(wi) == 1 and last(wi[0][1]) == "insert", f"the index sees {[last(y[1]) for y in wi]}\n{text}", unknown=len(wi) == 1 and last(wi[0][1]) != "insert" and last(wi[0][1]) not in ("remove", "clear", "compare_and_swap")):
            continue
        y = wi[0]
        ob(R, "own-index", w, canon(strip(y[2][0])) is canon(index_of(o)), f"{show(y[2][0])[:200]} is written\n{text}")
        fm, k = encoded(e, s, y[2][1])
        ob(R, "key-whole", w, fm == "ciborium" and k is key, f"the key in the index is {show(bytes_of(e, s, y[2][1]))[:200]}\n{text}", unknown=fm == "?")
        pos = payload(payload(ret(x), "Ok"), "Some")
        fm, p = encoded(e, s, y[2][2])
        ob(R, "position", w, fm == "serde_json" and p is pos and last(x[1]) == "append_get_seqno", f"the position in the index is {show(bytes_of(e, s, y[2][2]))[:200]}, not the one the log gave\n{text}", unknown=fm == "?")
        for z in (x, y):
            ob(R, "succeeded", w, e.variant_of(s, ret(z)) == "Ok", f"success is reported though {z[1]} may have failed\n{text}")
    R.floor("successes", n, 1)
    R.floor("refusals", m, 3)
    # a position is read back as wide as it was written
    for g in R.prog.fns.values():
        for b in (g.get("body") or {}).get("blocks", ()) if g["crate"] == CR else ():
            t = b["t"]
            if t["t"] == "call" and re.search(r"serde_json::(de::)?from_slice$", t["fn"].get("id") or ""):
                ty = [x for x in t["fn"].get("targs", ()) if re.fullmatch(r"[ui](8|16|32|64|128|size)", x if isinstance(x, str) else x.get("s", ""))]
                ob(R, "position-width", where(g), not ty or all((x if isinstance(x, str) else x["s"]) in ("usize", "u64", "u128") for x in ty), f"a position is read as {ty}")


def position(e, s, v, o):
    """(first position, how many further) of the element of the log a value was decoded from; None when it is not one"""
    fm, b = decoded(v)
    if fm is None:
        return None, None, None
    el = b
    if el.op == "." and el.a[0].op == "as" and el.a[0].a[1] == "Ok":
        el = el.a[0].a[0]
    el = strip(el)
    if el.op == "." and el.a[0].op == "as" and el.a[0].a[1] == "Some":
        r = el.a[0].a[0]
        if r.op == "." and r.a[0].op == "as" and r.a[0].a[1] == "Ok":
            r = r.a[0].a[0]
        if r.op == "res" and last(r.a[0]) in ("get_by_seqno",):
            return fm, r, (r.a[2][1], 0)
        if r.op == "res" and last(r.a[0]) == "last":
            return fm, r, ("last", 0)
    if el.op == "elem":
        src = el.a[0]
        skipped = 0
        k = 0
        # how many were drawn before it
        for x in s.events():
            if x[0] in ("next", "exhaust", "pick"):
                it = x[1] if x[0] != "pick" else x[2]
                got = x[2] if x[0] == "next" else x[4] if x[0] == "pick" else None
                if not any(z is src for z in walk(it)):
                    continue
                for z in walk(it):
                    if z.op == "iskip":
                        n = z.a[1] if len(z.a) > 1 else None
                        if n is None or not is_int(n):
                            return fm, None, None
                        skipped = n.a[1]
                    if z.op in ("irev", "ifilter", "ifmap", "iother", "iwhile"):
                        return fm, None, None
                n = 0
                if x[0] == "pick":
                    if last(x[1]) == "last" and got is not None and any(z is el for z in walk(got)) and not any(z.op in ("itake", "iother") for z in walk(it)):
                        r = src.a[0].a[0] if src.op == "." and src.a[0].op == "as" else None
                        if r is not None and r.op == "res" and last(r.a[0]) == "iter_from_seqno":
                            return fm, r, ("last", 0)
                    if last(x[1]) != "nth" or not is_int(x[3][0]):
                        return fm, None, None
                    n = x[3][0].a[1]
                if got is not None and any(z is el for z in walk(got)):
                    r = src.a[0].a[0] if src.op == "." and src.a[0].op == "as" else None
                    if r is not None and r.op == "res" and last(r.a[0]) == "iter_from_seqno":
                        return fm, r, (r.a[2][1], k + n + skipped)
                    return fm, None, None
                k += 1 + n
    return fm, None, None


def index_key(e, s, p, o, key):
    """is the number what the index holds for the key? (True/False/None, why)"""
    fm, b = decoded(p)
    if fm is None:
        return (None if p.op in ("res", "call", "phi") else False), f"{show(p)[:200]} is not read from the index"
    if b.op == "." and b.a[0].op == "as" and b.a[0].a[1] == "Some":
        r = b.a[0].a[0]
        if r.op == "." and r.a[0].op == "as" and r.a[0].a[1] == "Ok":
            r = r.a[0].a[0]
        if r.op == "res" and "sled" in r.a[0] and last(r.a[0]) == "get":
            f2, k = encoded(e, s, r.a[2][1])
            okk = fm == "serde_json" and f2 == "ciborium" and canon(k) is canon(key) and canon(strip(r.a[2][0])) is canon(index_of(o))
            return (None if f2 == "?" else okk), f"{show(r)[:300]} is what is looked up"
    return None, f"{show(b)[:200]}: not followed"


def absent(e, s, o, key, which):
    """the path knows that there is no such element"""
    for x in s.events():
        if x[0] == "is" and x[2] == "None" and isinstance(x[1], T):
            t = x[1]
            if t.op == "." and t.a[0].op == "as":
                t = t.a[0].a[0]
            if t.op == "res" and last(t.a[0]) in ("get", "iter_from_seqno", "get_by_seqno", "last"):
                return True
        if x[0] == "exhaust" or x[0] == "pick" and not isinstance(x[4], T):
            return True
    return False


def answers(R, f, e, s, v, o, key, want, w, text):
    """an Ok(Some(value)) or Ok(None) of a lookup: `want` further than the key's position, or from the start when there is no key"""
    y = payload(v, "Ok")
    k = e.variant_of(s, y)
    if k == "None":
        ob(R, "none-for-cause", w, absent(e, s, o, key, want), f"nothing is found though nothing is missing\n{text}")
        return "None"
    if k != "Some":
        ob(R, "found", w, False, f"answers {show(y)[:200]}\n{text}", unknown=True)
        return None
    fm, r, at_ = position(e, s, payload(y, "Some"), o)
    passed(R, e, s, w, text)
    if at_ is None:
        ob(R, "found", w, False, f"answers {show(y)[:300]}, not an element of the log\n{text}", unknown=True)
        return "Some"
    ob(R, "value-codec", w, fm == "ciborium", f"a value is decoded as {fm}\n{text}")
    ob(R, "own-log", w, canon(strip(r.a[2][0])) is canon(log_of(o)), f"{show(r)[:200]} is read\n{text}")
    base, n = at_
    if key is None:
        ob(R, "right-one", w, base != "last" and is_int(add(base, c(n))) and add(base, c(n)) is c(want), f"answers element {show(base)[:200]} + {n}, expected {want}\n{text}")
        return "Some"
    if base == "last":
        ob(R, "right-one", w, False, f"answers the log's last\n{text}")
        return "Some"
    kk, d = lin(base)
    t = next(iter(d)) if len(d) == 1 else None
    if t is None or d[t] != 1:
        # a fixed place has nothing to do with the key, unless the place of the key was compared with it
        near = any(q[0] == "s" and any(y.op == "call" and last(y.a[0]) in ("from_slice", "from_str") for y in walk(q[1])) for q in s.facts)
        ob(R, "right-one", w, False, f"answers element {show(base)[:200]} + {n}\n{text}", unknown=not d and near)
        return "Some"
    good, why = index_key(e, s, t, o, key)
    ob(R, "right-key", w, good is True, f"{why}\n{text}", unknown=good is None)
    ob(R, "right-one", w, kk + n == want, f"answers the element {kk + n} after the key's, expected {want}\n{text}")
    return "Some"


@rule("I02", CR, "fraos")
def looked_up(R):
    """what is found under a key: the element of the log at the position the index holds for the encoding of that key, decoded, and what comes after it in order; what is contained is what is found; next is the one after"""
    o, key = me(), strip(mk("*", mk("arg", "key")))
    n = 0
    for name in ("get", "contains", "iter_from"):
        f = R.one("IndexedLogMap::" + name, method(R, name))
        if not f:
            continue
        e, rs = R.run(f, (LOG,))
        w = where(f)
        for s, kind, v in rs or []:
            if kind != "ret":
                continue
            text = path_text(s, v)
            was = e.variant_of(s, v)
            writes = [x for x in on_log(s.events()) if "append" in x[1]] + [x for x in on_index(s.events()) if last(x[1]) not in READS]
            ob(R, "only-looks", w, not writes, f"looking changes something\n{text}")
            if no_index(e, s, o):
                ob(R, "no-index-refused", w, was == "Err", f"without an index answers {show(v)[:200]}\n{text}")
                continue
            if was == "Err":
                ob(R, "refused-for-cause", w, cause(s), f"a lookup fails though nothing failed\n{text}")
                continue
            n += 1
            if was != "Ok":
                ob(R, "found", w, False, f"answers {show(v)[:200]}\n{text}", unknown=True)
                continue
            if name == "get":
                answers(R, f, e, s, v, o, key, 0, w, text)
            elif name == "contains":
                y = payload(v, "Ok")
                got = True if y is TRUE else False if y is FALSE else e.truth(s, y)
                if got is None:
                    other = {last(z.a[0]) for z in walk(y) if z.op in ("res", "call")}
                    ob(R, "contains", w, False, f"answers {show(y)[:200]}\n{text}", unknown=not other or not other <= {"is_empty", "len"})
                    continue
                found = any(x[0] in ("next", "pick") for x in s.events()) and not any(x[0] == "exhaust" for x in s.events()) or known_get(e, s)
                none = absent(e, s, o, key, 0)
                ob(R, "contains", w, got and found and not none or not got and none, f"says {got}\n{text}")
                for x in on_index(s.events()):
                    if last(x[1]) in ("get", "contains_key"):
                        f2, k = encoded(e, s, x[2][1])
                        ob(R, "right-key", w, f2 == "ciborium" and canon(k) is canon(key), f"{show(ret(x))[:200]} is asked\n{text}", unknown=f2 == "?")
            else:
                it = payload(v, "Ok")
                if e.variant_of(s, it) == "None":
                    ob(R, "none-for-cause", w, absent(e, s, o, key, 0), f"nothing is found though nothing is missing\n{text}")
                    continue
                series(R, e, s, payload(it, "Some"), o, key, w, text)
    f = R.one("get_next", [x for x in R.prog.find("storage::get_next") if x["crate"] == CR])
    if f:
        e, rs = R.run(f, (LOG,))
        w = where(f)
        o2 = mk("*", mk("arg", "storage"))
        ka = mk("*", mk("arg", "key"))
        for s, kind, v in rs or []:
            if kind != "ret":
                continue
            text = path_text(s, v)
            was = e.variant_of(s, v)
            if was == "Err":
                ob(R, "refused-for-cause", w, cause(s), f"fails though nothing failed\n{text}")
                continue
            n += 1
            if e.variant_of(s, ka) == "None":
                answers(R, f, e, s, v, o2, None, 0, w, text)
            elif e.variant_of(s, ka) == "Some":
                answers(R, f, e, s, v, o2, payload(ka, "Some"), 1, w, text)
            else:
                ob(R, "found", w, False, f"answers {show(v)[:200]} whether there is a key or not\n{text}", unknown=True)
    R.floor("answers", n, 12)


def known_get(e, s):
    return any(x[0] == "is" and x[2] == "Some" and any(y.op == "res" and last(y.a[0]) in ("get_by_seqno",) for y in walk(x[1])) for x in s.events())


def drops(e, s, it):
    """whether a filtering adaptor of an iterator over the log passes over elements that cannot be read"""
    for x in walk(it):
        if x.op == "iflat" and len(x.a) == 1:
            for s2, y in models.pull(e, s.fork(), x.a[0], mk("site", mk("fid", "probe"), 1), ("", 0)):
                if y is not None and e.variant_of(s2, y) == "Err":
                    return True
        if x.op == "ifmap":
            for s2, y in models.pull(e, s.fork(), x.a[0], mk("site", mk("fid", "probe"), 1), ("", 0)):
                if y is None:
                    continue
                for s3, k, v in e.apply(s2, x.a[1], [y], mk("site", mk("fid", "probe"), 2), ("", 0)):
                    if k == "ret" and e.variant_of(s3, v) != "Some" and any(z[0] == "is" and z[2] == "Err" for z in s3.events()[len(s.events()):]):
                        return True
    return False


def passed(R, e, s, w, text):
    for z in s.events():
        if z[0] in ("next", "pick", "exhaust"):
            it = z[2] if z[0] == "pick" else z[1]
            if isinstance(it, T) and drops(e, s, it):
                ob(R, "errors-passed", w, False, f"elements that cannot be read are passed over\n{text}")


def series(R, e, s, it, o, key, w, text):
    """an iterator: every element of the log from the key's position on, decoded, errors passed on"""
    if any(x.op in ("iskip", "itake", "ifilter", "ifmap", "iwhile", "iother", "irev", "istep", "ichain") for x in walk(it)):
        bad = next(x.op for x in walk(it) if x.op in ("iskip", "itake", "ifilter", "ifmap", "iwhile", "iother", "irev", "istep", "ichain"))
        ob(R, "every-element", w, False, f"iterates over {show(it)[:300]}\n{text}", unknown=bad in ("ichain", "ifmap") and not drops(e, s, it))
        return
    its = [x.a[0] for x in walk(it) if x.op == "it"]
    src = its[0] if its else it
    r = src.a[0].a[0] if src.op == "." and src.a[0].op == "as" else src
    if r.op != "res" or last(r.a[0]) != "iter_from_seqno":
        ob(R, "every-element", w, False, f"iterates over {show(it)[:300]}\n{text}", unknown=True)
        return
    ob(R, "own-log", w, canon(strip(r.a[2][0])) is canon(log_of(o)), f"{show(r)[:200]} is read\n{text}")
    if key is None:
        ob(R, "from-start", w, r.a[2][1] is ZERO, f"starts at {show(r.a[2][1])[:200]}\n{text}")
    else:
        good, why = index_key(e, s, r.a[2][1], o, key)
        ob(R, "right-key", w, good is True, f"{why}\n{text}", unknown=good is None)
    k = 0
    for s2, x in models.pull(e, s.fork(), it, mk("site", mk("fid", "probe"), 0), ("", 0)):
        if x is None:
            continue
        for s3, kk, p in e.cases(s2, x, ["Ok", "Err"]):
            if kk == "Ok":
                k += 1
                fm, b = decoded(p)
                el = b.a[0].a[0] if b is not None and b.op == "." and b.a[0].op == "as" else b
                ob(R, "every-element", w, fm == "ciborium" and el.op == "elem" and el.a[0] is src, f"yields {show(p)[:300]}\n{text}", unknown=fm is None)
            else:
                # an element that cannot be read, or decoded
                ob(R, "errors-yielded", w, any(y.op == "as" and y.a[1] == "Err" for y in walk(p)) or any(z[0] == "is" and z[2] == "Err" for z in s3.events()), f"yields the error {show(p)[:300]}\n{text}")
    ob(R, "yields", w, k > 0, f"yields nothing\n{text}", unknown=k == 0)


@rule("I03", CR, "fraos")
def whole_log(R):
    """iterating goes through all the log from its first element; the last is the log's last, decoded; it is empty exactly if no key is in the index"""
    o = me()
    f = R.one("IndexedLogMap::iter", method(R, "iter"))
    n = 0
    if f:
        e, rs = R.run(f, (LOG,))
        w = where(f)
        for s, kind, v in rs or []:
            if kind != "ret":
                continue
            text = path_text(s, v)
            n += 1
            if e.variant_of(s, v) == "None":
                ob(R, "none-for-cause", w, absent(e, s, o, None, 0), f"there is nothing to iterate over though nothing is missing\n{text}")
                continue
            series(R, e, s, payload(v, "Some"), o, None, w, text)
    f = R.one("IndexedLogMap::last", method(R, "last"))
    if f:
        e, rs = R.run(f, (LOG,))
        w = where(f)
        for s, kind, v in rs or []:
            if kind != "ret":
                continue
            text = path_text(s, v)
            n += 1
            was = e.variant_of(s, v)
            if was == "Err":
                ob(R, "refused-for-cause", w, cause(s), f"fails though nothing failed\n{text}")
                continue
            y = payload(v, "Ok")
            if e.variant_of(s, y) == "None":
                ob(R, "none-for-cause", w, absent(e, s, o, None, 0), f"there is no last though nothing is missing\n{text}")
                continue
            fm, r, at_ = position(e, s, payload(y, "Some"), o)
            passed(R, e, s, w, text)
            ob(R, "last", w, fm == "ciborium" and at_ is not None and at_[0] == "last" and canon(strip(r.a[2][0])) is canon(log_of(o)), f"the last is {show(y)[:300]}\n{text}", unknown=at_ is None)
    f = R.one("IndexedLogMap::is_empty", method(R, "is_empty"))
    if f:
        e, rs = R.run(f, (LOG,))
        w = where(f)
        for s, kind, v in rs or []:
            if kind != "ret":
                continue
            text = path_text(s, v)
            n += 1
            was = e.variant_of(s, v)
            if no_index(e, s, o):
                ob(R, "no-index-refused", w, was == "Err", f"without an index answers {show(v)[:200]}\n{text}")
                continue
            if was == "Err":
                ob(R, "refused-for-cause", w, cause(s), f"fails though nothing failed\n{text}")
                continue
            y = payload(v, "Ok")
            asked = next((x for x in on_index(s.events()) if last(x[1]) in ("is_empty", "len", "first", "last")), None)
            good = None
            if asked is not None and canon(strip(asked[2][0])) is canon(index_of(o)):
                t = ret(asked)
                if last(asked[1]) == "is_empty":
                    got = e.truth(s, t)
                    good = y is t if got is None else y is (TRUE if got else FALSE)
                elif last(asked[1]) == "len":
                    good = y is rel(t, "==", ZERO) or None
            ob(R, "empty", w, good is True, f"says {show(y)[:200]}\n{text}", unknown=good is None)
    R.floor("answers", n, 6)


@rule("I04", CR, "fraos")
def opened(R):
    """opening: the log is in memory without a path, read-only when told so, else the file's; the index is there exactly if asked for, temporary without a path and kept under the path with one; a failure to open either is reported"""
    f = R.one("IndexedLogMap::new", method(R, "new"))
    if not f:
        return
    e, rs = R.run(f, (LOG,))
    w = where(f)
    cfg = mk("arg", "config")
    path, ro, ki = field(cfg, "storage_path"), field(cfg, "readonly"), field(cfg, "use_key_indexing")
    n = 0
    for s, kind, v in rs or []:
        if kind != "ret":
            continue
        text = path_text(s, v)
        was = e.variant_of(s, v)
        if was == "Err":
            ob(R, "refused-for-cause", w, any(x[0] == "is" and x[2] == "Err" for x in s.events()), f"refused though nothing failed\n{text}")
            continue
        n += 1
        m = payload(v, "Ok")
        lg, ix = field(m, "storage"), field(m, "key_to_seqno")
        r = lg.a[0].a[0] if lg.op == "." and lg.a[0].op == "as" and lg.a[0].a[1] == "Ok" else lg
        p = e.variant_of(s, path)
        if r.op != "res" or p is None:
            ob(R, "log", w, False, f"the log is {show(lg)[:200]}\n{text}", unknown=True)
        else:
            nm = last(r.a[0])
            if p == "None":
                ob(R, "log", w, nm == "memory", f"without a path the log is {show(r)[:200]}\n{text}")
            else:
                t = e.truth(s, ro)
                want = {True: "file_readonly", False: "file"}.get(t)
                ob(R, "log", w, nm == want and strip(r.a[2][0]) is payload(path, "Some"), f"with a path, read-only {t}, the log is {show(r)[:200]}\n{text}", unknown=want is None and nm != "memory")
        t = e.truth(s, ki)
        k = e.variant_of(s, ix)
        if t is None or k is None:
            ob(R, "index-asked", w, False, f"the index is {show(ix)[:200]}\n{text}", unknown=k is None or t is None and k == "None" and False)
            continue
        ob(R, "index-asked", w, (k == "Some") == t, f"the index is {show(ix)[:200]} though asked for: {t}\n{text}")
        if k != "Some":
            continue
        x = payload(ix, "Some")
        r = x.a[0].a[0] if x.op == "." and x.a[0].op == "as" and x.a[0].a[1] == "Ok" else x
        if not ob(R, "index-opened", w, r.op == "res" and last(r.a[0]) == "open" and "sled" in r.a[0], f"the index is {show(x)[:200]}\n{text}", unknown=True and not (r.op == "res" and last(r.a[0]) == "open")):
            continue
        b = strip(r.a[2][0])
        set_ = {}
        if "Config" not in r.a[0]:
            set_["path"] = b  # sled::open(path)
            b = None
        while b is not None and b.op in ("res", "call") and "Config" in b.a[0] and last(b.a[0]) not in ("new", "default"):
            a = b.a[2] if b.op == "res" else b.a[1]
            set_.setdefault(last(b.a[0]), strip(a[1]) if len(a) > 1 else TRUE)
            b = strip(a[0])
        tmp = set_.get("temporary", FALSE)
        tmp = {True: TRUE, False: FALSE}.get(e.truth(s, tmp), tmp)
        if p == "None":
            ob(R, "index-temporary", w, tmp is TRUE and "path" not in set_, f"without a path the index is opened with {show(r)[:300]}\n{text}", unknown=p is None or tmp not in (TRUE, FALSE))
        else:
            ob(R, "index-kept", w, tmp is FALSE and "path" in set_ and any(y is payload(path, "Some") for y in walk(set_["path"])) and set_.get("create_new", FALSE) is FALSE, f"with a path the index is opened with {show(r)[:300]}\n{text}", unknown=tmp not in (TRUE, FALSE))
    R.floor("opened", n, 4)


@rule("I05", CR, "fraos")
def errors_reported(R):
    """on each path that can return Ok, every fallible operation of the log, of the index and of the encodings has been looked at and is known to have succeeded"""
    # a value passed over on the way to the next need not be decodable
    n = errors_rule(R, (CR,), ops=(r"sled", r"ciborium", r"serde_json", r"local:database"), opaque=(LOG,), spare=lambda f, name, got: f["name"] == "get_next" and ("from_reader" in name or "elem" in name))
    R.floor("success paths", n, 8)
