"""Rules over fraos: reading back, reopening, iterating."""

from core import *
from rules import rule
from rules_core import outcomes
from rules_fraos import *
from rules_fraos2 import G, known_storage, bounds_of, mapped, all_calls, fallible

M = "index_on_mmaps::MmapChunkAddressMapper"
I = "index_on_mmaps::IndexOnMmaps"


def searched(t):
    """a found position of a value in a sorted list holds that value"""
    m = {}
    for x in walk(t):
        if x.op == "idx" and x.a[1].op == "." and x.a[1].a[0].op == "as" and x.a[1].a[0].a[1] == "Ok":
            b = x.a[1].a[0].a[0]
            if b.op == "call" and b.a[0].endswith("::binary_search") and b.a[1][0] is x.a[0]:
                m[x] = b.a[1][1]
    return subst(t, m) if m else t


def settle(t):
    for _ in range(6):
        u = searched(t)
        if u is t:
            return t
        t = u
    return t


class Bytes:
    """where bytes come from: a mapping, the first and the last position"""

    def __init__(self, t):
        self.map, self.start, self.end, self.parts = None, None, None, []
        t = settle(t)
        while t.op == "call" and re.search(r"(to_vec|to_owned|into_vec|into_boxed_slice|clone|from|into)$", t.a[0]):
            t = t.a[1][0]
        rng = []
        while t.op == "slice":
            rng.append(t.a[1])
            t = t.a[0]
        lo, hi = ZERO, None
        if t.op == "*" and t.a[0].op == "call" and "from_raw_parts" in t.a[0].a[0]:
            p, n = t.a[0].a[1]
            if p.op == "." and n.op == "." and p.a[0] is n.a[0] and p.a[1] == "slice" and n.a[1] == "len":
                v = p.a[0]
                if v.op == "res" and v.a[0].endswith("SharedMmap::slice"):
                    t = v.a[2][0]
                    lo, hi = bounds_of(v.a[2][1])
                    if lo is None:
                        return
                else:
                    t = v
            else:
                return
        self.parts = [(lo, hi)] if hi is not None else []
        for r in reversed(rng):
            a, b = r.a
            hi = add(lo, b) if b is not None else hi
            lo = add(lo, a)
            if b is not None:
                self.parts.append((lo, hi))
        self.parts = self.parts[:-1]  # what the bytes are cut from, outermost first
        self.map, self.start, self.end = t, lo, hi


def chunk_of(m):
    """(chunk of the index that describes a mapping, storage it belongs to)"""
    if m.op == "." and m.a[1] == "mmap":
        act = m.a[0]
        st = act
        while st.op in (".", "as"):
            if st.op == "." and st.a[1] == "active_map":
                return field(act, "bounds"), st.a[0]
            st = st.a[0]
    if m.op == "idx" and m.a[0].op == "." and m.a[0].a[1] == "maps":
        inn = m.a[0].a[0]
        return mk("idx", field(field(inn, "index"), "mmaps"), m.a[1]), inn.a[0] if inn.op == "." else None
    return None, None


def storage_root(t):
    while t.op in (".", "as", "*", "idx", "locked"):
        t = t.a[0]
    return t


def store_of(locked):
    """the fields that lead to the storage of a locked content"""
    return prefix_of(locked.a[0]) if locked is not None and locked.op == "locked" else ()


def gs_end(ch):
    rb = field(ch, "relative_internal_bounds")
    return field(ch, "global_chunk_start"), rb


@rule("F10", CR)
def read_back(R):
    """Every path of the read by number is enumerated with the lookup structure symbolic. A record returned must be, byte for byte, the range of one mapping that
    starts at the recorded offset less the position that mapping has in the file, and has exactly the recorded length; offset and length must be decoded from the entry of that very number with the layout and byte
    order they are written with. A path that finds nothing or fails must carry a fact that excuses it: the number is past the index, the address lies outside the mapping looked at, an operation failed, or what is stored is shorter than recorded."""
    f = dbm(R, "get_by_seqno")
    if not f:
        return
    w = where(f)
    if not known_storage(R):
        R.undecided(w, "the storage has another layout")
        return
    seq = mk("arg", f["params"][1])
    e, rs = R.run(f, opaque=(r"SharedMmap::slice$",), apart=(r"get_ref_and_apply$", r"get_data$", r"get_offset_and_length$", r"get_record_at_offset$", r"IndexOnMmaps::\w+$", r"MmapChunkAddressMapper::find$"))
    n = m = 0
    for s, kind, v in rs or []:
        if kind != "ret":
            continue
        for s1, k, x in e.cases(s.fork(), v, ["Ok", "Err"]):
            if k == "Err":
                excused_error(R, w, e, s1, v)
                continue
            for s2, k2, y in e.cases(s1, x, ["Some", "None"]):
                if k2 == "None":
                    m += 1
                    excused_none(R, w, e, s2, v, seq)
                    continue
                n += 1
                b = Bytes(y)
                if b.map is None:
                    R.ob("record", w, True, f"bytes of unknown origin {show(y)[:200]}", unknown=True)
                    continue
                ch, store = chunk_of(b.map)
                if ch is None:
                    R.ob("record", w, True, f"mapping of unknown position {show(b.map)[:200]}", unknown=True)
                    continue
                gs, rb = gs_end(ch)
                addr = add(gs, b.start)
                ln = sub(b.end, b.start) if b.end is not None else None
                o = entry_part(addr)
                l = entry_part(ln) if ln is not None else None
                txt = f"the record of number {show(seq)} is read at {show(addr)[:400]}, {show(ln)[:400] if ln is not None else 'to the end'}\n{path_text(s, v)}"
                if o is None or l is None:
                    known_ = not any(t.op in ("sel", "phi") for t in walk(addr))
                    R.ob("record", w, not known_, txt, unknown=not known_)
                    continue
                R.ob("data-mapping", w, store_of(store) != store_of(o[2]) and store_of(store) != (), "the record is read from the index\n" + txt, unknown=store is None or o[2] is None)
                R.ob("offset-field", w, o[0] == 0 and o[1] is scale(seq, 16), f"the offset is decoded from byte {o[0]} of the entry at {show(o[1])}\n" + txt)
                R.ob("length-field", w, l[0] == 8 and l[1] is scale(seq, 16), f"the length is decoded from byte {l[0]} of the entry at {show(l[1])}\n" + txt)
                for y_ in [b] + [Bytes(t.a[1][0]) for q in (addr, ln) for t in walk(q) if t.op == "call" and re.search(r"::from_(le|be|ne)_bytes$", t.a[0])]:
                    part_ends(R, e, w, y_, s, v)
                R.ob("byte-order", w, o[3] == "from_le_bytes" == l[3], f"the entry is decoded with {o[3]} and {l[3]}\n" + txt)
    R.floor("paths that return a record", n, 2)
    R.floor("paths that find nothing", m, 2)
    search_contracts(R)
    views(R)


def part_ends(R, e, w, b, s, v):
    """what bytes are cut from reaches up to a bound of the mapping that lies behind where it starts"""
    ch, _ = chunk_of(b.map) if b.map is not None else (None, None)
    if ch is None:
        return
    gs, rb = gs_end(ch)
    for lo, hi in b.parts:
        if e.sign(s, lo) <= frozenset("0") or any(q[0] == "s" and m <= frozenset("0") and settle(q[1]) in (lo, scale(lo, -1)) for q, m in s.facts.items()):
            lo, hi = ZERO, sub(hi, lo)
        k, dd = lin(hi)
        one = next(iter(dd)) if len(dd) == 1 and k == 0 else None
        good = one is not None and dd[one] == 1 and one.op == "idx" and one.a[0] is rb
        known_ = all(t is gs or t.op == "idx" and t.a[0] is rb or any(q.op == "call" and "from_" in q.a[0] for q in walk(t)) or t.op == "arg" for t in dd)
        if good:
            at = one.a[1]
            ks, ds = lin(lo)
            start = next(iter(ds)) if len(ds) == 1 and ks == 0 else None
            if start is not None and start.op == "idx" and start.a[0] is rb and isinstance(at, T) and isinstance(start.a[1], T):
                diff = sub(at, start.a[1])
                good = not is_int(diff) or diff.a[1] > 0
            elif isinstance(at, T) and at.op == "lin":
                good = lin(at)[0] >= 0
            known_ = True
        R.ob("view-end", w, good, f"a record is looked for between {show(lo)[:200]} and {show(hi)[:200]}, which is no bound behind it\n{path_text(s, v)}", unknown=not good and not known_)


def entry_part(t):
    """a decoded number: (byte within its entry, address of the entry, storage, decoder)"""
    if t.op == "call" and re.search(r"::from_(le|be|ne)_bytes$", t.a[0]):
        b = Bytes(t.a[1][0])
        if b.map is None or b.end is None:
            return None
        ch, store = chunk_of(b.map)
        if ch is None:
            return None
        if sub(b.end, b.start) is not c(8):
            return None
        gs, _ = gs_end(ch)
        at_ = add(gs, b.start)
        k, dd = lin(at_)
        return k, sub(at_, c(k)), store, t.a[0].split("::")[-1]
    return None


def searched_term(t):
    """is this the outcome of a binary search"""
    return t.op == "call" and "binary_search" in t.a[0]


def excused_error(R, w, e, s, v):
    why = False
    un = False
    seq = None
    for x in s.events():
        if x[0] == "is" and x[2] == "Err" and not searched_term(x[1]):
            why = True
        elif x[0] == "is" and x[2] == "None" and x[1].op == "nonnull":
            why = True
        elif x[0] == "is" and x[2] == "None" and x[1].op == "inrange" and any(searched_term(t) for t in walk(x[1])):
            # the position after a bound that is found exists: the address lies before the last bound
            un = True
            for k, m in s.facts.items():
                if k[0] != "s":
                    continue
                ts = lin(k[1])[1]
                gs = [t for t in ts if t.op == "." and t.a[1] == "global_chunk_start"]
                last = [t for t in ts if t.op == "idx" and t.a[0].op == "." and t.a[0].a[1] == "relative_internal_bounds"]
                if gs and last and m <= (frozenset("+") if ts[gs[0]] > 0 else frozenset("-")):
                    why = True
        elif x[0] == "if" and x[1].op == "rel":
            d, m = x[1].a
            if x[2] is False:
                m = frozenset("-0+") - m
            # less is there than recorded
            for t, k in lin(d)[1].items():
                if t.op == "call" and "from_le_bytes" in t.a[0] and m <= (frozenset("+") if k > 0 else frozenset("-")):
                    why = True
    R.ob("error-excused", w, why, f"a read fails with no reason\n{path_text(s, v)}")


def excused_none(R, w, e, s, v, seq):
    """nothing found: the place lies outside the parts that came before, and outside the active part"""
    free = any(x[0] == "is" and x[2] == "None" and x[1].op == "fits" for x in s.events())  # no address
    locks = [x for x in s.events() if x[0] == "lock"]
    if not locks:
        R.ob("absence-excused", w, free, f"a number is reported absent without looking\n{path_text(s, v)}")
        return
    store = locks[-1][2]  # the storage looked at last
    inactive = active = False

    def of(t):
        """fields a term is reached by, when it belongs to that storage"""
        r = []
        while t.op in (".", "as", "*", "idx", "len", "locked"):
            if t.op == ".":
                r.append(t.a[1])
            if t.op == "locked":
                return r if t.a[0] is store else []
            t = t.a[0]
        return []

    for x in s.events():
        if x[0] == "is" and x[2] == "None" and x[1].op == "." and x[1].a[1] == "active_map" and of(x[1]):
            active = True
        elif x[0] == "is" and x[2] == "Err" and searched_term(x[1]) and of(x[1].a[1][0]):
            inactive = True
        elif x[0] == "exhaust" and any(t.op == "." and t.a[1] == "mmaps" and "inactive_mmaps" in of(t) for t in walk(x[1])):
            # every mapping was looked at: each must have been passed over for its bounds
            its = [i for y in s.events() if y[0] == "loop" and y[1].over is x[1] for i in y[1].iters]
            inactive = inactive or (bool(its) and all(passed_over(e, i[2]) for i in its))
    for k, m in s.facts.items():
        if k[0] != "s":
            continue
        ts = {t: n for t, n in lin(k[1])[1].items()}
        mine = [t for t in ts if of(t)]
        gs = [t for t in mine if t.op == "." and t.a[1] == "global_chunk_start"]
        bound = any(t.op == "idx" and t.a[0].op == "." and t.a[0].a[1] == "relative_internal_bounds" for t in mine)
        if len(ts) == 1 and mine and m == frozenset("0"):
            path = of(mine[0])
            if "active_map" in path and "relative_internal_bounds" in path:
                active = True  # nothing is in it
            elif "inactive_mmaps" in path:
                inactive = True
            continue
        if len(gs) != 1 or len(ts) < 2:
            continue
        act, ina = "active_map" in of(gs[0]), "inactive_mmaps" in of(gs[0])
        sgn = ts[gs[0]]
        below = m <= frozenset("-") if sgn < 0 else m <= frozenset("+")
        beyond = m <= frozenset("0+") if sgn < 0 else m <= frozenset("0-")
        if act:
            active = active or (below and not bound) or (beyond and bound)
        if ina:
            last = gs[0].a[0].op == "idx" and gs[0].a[0].a[1].op == "fromend"
            inactive = inactive or (beyond and bound) or (below and not bound) or (beyond and last and chunk_empty(e, s, gs[0].a[0]))
            # the active part starts where the inactive ones end
            active = active or (last and below)
    R.ob("absence-excused", w, free or (inactive and active), f"a number is reported absent although it may be in {'an earlier' if not inactive else 'the active'} part\n{path_text(s, v)}")


def passed_over(e, s):
    """an element looked at does not hold the address"""
    for k, m in s.facts.items():
        if k[0] != "s":
            continue
        ts = lin(k[1])[1]
        gs = [t for t in ts if t.op == "." and t.a[1] == "global_chunk_start" and t.a[0].op in ("elem", "*")]
        bound = any(t.op == "idx" and t.a[0].op == "." and t.a[0].a[1] == "relative_internal_bounds" for t in ts)
        if len(ts) == 1 and m <= frozenset("0") and any(t.op == "len" and t.a[0].op == "." and t.a[0].a[1] == "relative_internal_bounds" for t in ts):
            return True
        if len(gs) == 1 and len(ts) > 1:
            neg = ts[gs[0]] < 0
            if bound and m <= frozenset("0+" if neg else "0-") or not bound and m <= frozenset("-" if neg else "+"):
                return True
    return False


def chunk_empty(e, s, ch):
    return e.sign(s, length(field(ch, "relative_internal_bounds"))) <= frozenset("0")


def search_contracts(R):
    """the key by which a mapping is searched is the address exactly for the mapping that holds it, and on the right side of it otherwise"""
    fs = [f for f in R.prog.method(I, "find", crate=CR) if "body" in f]
    if len(fs) != 1:
        R.undecided("fraos::index_on_mmaps", "the search over mappings is not one function")
        return
    f = fs[0]
    w = where(f)
    e, rs = R.run(f, opaque=(r"MmapChunkAddressMapper::find$",))
    adr = mk("arg", f["params"][1])
    done = set()
    for s, kind, v in rs or []:
        if kind == "ret" and e.variant_of(s, v) == "Ok" and e.variant_of(s, payload(v, "Ok")) == "Some":
            d = payload(payload(v, "Ok"), "Some")
            if d.op == "adt":
                i = field(d, "mmap_number")
                inner = [x for x in s.events() if x[0] == "call" and x[1].endswith("MmapChunkAddressMapper::find")]
                for x in inner:
                    ch = x[2][0]
                    same = ch.op == "idx" and ch.a[1] is i
                    got = payload(payload(x[3], "Ok"), "Some")
                    okk = same and x[2][1] is adr and field(d, "mmap_offset") is field(got, "mmap_offset") and field(d, "len") is field(got, "len")
                    R.ob("mapping-number", w, okk, f"an address is said to lie in mapping {show(i)} at {show(field(d, 'mmap_offset'))}\n{path_text(s, v)}", unknown=ch.op != "idx")
        for t in [t for k in s.facts for t in walk(k[1])]:
            if t.op == "call" and "binary_search_by_key" in t.a[0] and t not in done:
                done.add(t)
                clo = t.a[1][2]
                key_contract(R, e, f, w, t, clo, adr, s)
    if not done:
        R.undecided(w, "no search by key")


def key_contract(R, e, f, w, t, clo, adr, s):
    if clo.op != "closure" or t.a[1][1] is not adr:
        R.ob("search-key", w, t.a[1][1] is adr, f"the search looks for {show(t.a[1][1])}", unknown=clo.op != "closure")
        return
    p = mk("probe", t.a[1][0])
    st = s.fork()
    site = mk("site", "probe", t.id)
    st.mem[mk("D", mk("tmpref", p))] = p
    gs, rb = field(p, "global_chunk_start"), field(p, "relative_internal_bounds")
    last = mk("idx", rb, mk("fromend", 1))
    end = add(gs, last)
    for inside, want in (("in", "0"), ("below", "+"), ("beyond", "-")):
        s0 = st.fork()
        e.assume(s0, rel(length(rb), ">", ZERO), True)
        if inside == "in":
            e.assume(s0, rel(adr, ">=", gs), True) and e.assume(s0, rel(adr, "<", end), True)
        elif inside == "below":
            e.assume(s0, rel(adr, "<", gs), True)
            e.assume(s0, rel(adr, "<", end), True)
        else:
            e.assume(s0, rel(adr, ">=", end), True)
            e.assume(s0, rel(adr, ">", gs), True)
        for s1, k, v in e.call_closure(s0, clo, [mk("ref", mk("D", mk("tmpref", p)), ())], site, None):
            if k != "ret":
                R.ob("search-key", w, False, "the search key can panic")
                continue
            sg = e.sign(s1, sub(v, adr))
            R.ob("search-key", w, sg == frozenset(want), f"for an address {inside} a mapping the search key is {show(v)}: not on its side\n{path_text(s1, v)}", unknown=len(sg) > 1)


def views(R):
    """a view of a mapping is exactly the part asked for"""
    fs = [f for f in R.prog.method("shared_mmap::SharedMmap", "slice", crate=CR) if "body" in f]
    if len(fs) != 1:
        R.undecided("fraos::shared_mmap", "no single slicing function")
        return
    f = fs[0]
    w = where(f)
    me = mk("*", mk("arg", "self"))
    e, rs = R.run(f)
    n = 0
    for s, kind, v in rs or []:
        if kind != "ret" or v.op not in ("adt", "upd"):
            continue
        lo = hi = None
        un = True
        for k, x in s.facts.items():
            t = k[1]
            if t.op == "call" and t.a[0].endswith("start_bound"):
                lo = {"Included": mk("*", payload(t, "Included")), "Excluded": add(mk("*", payload(t, "Excluded")), c(1)), "Unbounded": ZERO}.get(x)
            elif t.op == "call" and t.a[0].endswith("end_bound"):
                hi = {"Included": add(mk("*", payload(t, "Included")), c(1)), "Excluded": mk("*", payload(t, "Excluded")), "Unbounded": field(me, "len")}.get(x)
        L = field(v, "len")
        P = field(v, "slice")
        total = field(me, "len")
        R.ob("view-mapping", w, field(v, "mmap") is field(me, "mmap"), f"a view holds {show(field(v, 'mmap'))}\n{path_text(s, v)}")
        if L is ZERO:
            # nothing is left
            empty = e.sign(s, total) <= frozenset("0") or (lo is not None and e.sign(s, sub(total, lo)) <= frozenset("-0")) or (hi is not None and e.sign(s, hi) <= frozenset("0"))
            if lo is not None and hi is not None:
                d = [e.sign(s, sub(mk_min(total, hi), lo)), e.sign(s, sub(hi, lo))]
                for k, x in s.facts.items():
                    if k[0] == "s" and any(t.op in ("min",) or (t.op == "call" and t.a[0].endswith("min")) for t in walk(k[1])) and x <= frozenset("-"):
                        empty = True
                empty = empty or any(x <= frozenset("-0") for x in d)
            R.ob("view-empty", w, empty, f"an empty view of a part that is not empty\n{path_text(s, v)}", unknown=lo is None and hi is None and not empty and e.sign(s, total) != frozenset("+"))
            continue
        n += 1
        if lo is None or hi is None:
            R.ob("view", w, True, "bounds unknown", unknown=True)
            continue
        R.ob("view-start", w, start_of(P, me) is lo, f"a view from {show(lo)} points at {show(P)}\n{path_text(s, v)}", unknown=start_of(P, me) is None)
        R.ob("view-length", w, any(L is x for x in (sub(mk_min(total, hi), lo), sub(hi, lo), *mins(total, hi, lo))), f"a view of {show(lo)}..{show(hi)} has {show(L)} bytes\n{path_text(s, v)}", unknown=not any("min" in t.op or (t.op == "call" and t.a[0].endswith("min")) for t in walk(L)) and not known_lin(L))
    R.floor("views", n, 4)


def known_lin(t):
    return all(x.op in (".", "*", "arg", "as", "call") for x in lin(t)[1])


def mk_min(a, b):
    return mk("min", a, b)


def mins(total, hi, lo):
    one = c(1)
    r = []
    for a, b in ((total, hi), (hi, total)):
        for op in ("min",):
            r += [sub(mk(op, a, b), lo), add(sub(mk(op, sub(a, one), sub(b, one)), lo), one)]
            r += [sub(mk(op, *sorted((a, b))), lo), add(sub(mk(op, *sorted((sub(a, one), sub(b, one)))), lo), one)]
    if hi is total:
        r.append(sub(total, lo))
    # an empty difference is cut at zero
    for x in list(r):
        r.append(mk("satsub", add(x, lo), lo))
    return r + [mk("satsub", hi, lo)]


def start_of(p, me):
    base = field(me, "slice")
    if p is base:
        return ZERO
    if p.op in ("call", "res") and p.a[0].split("::")[-1] in ("add", "wrapping_add", "offset"):
        a = p.a[1] if p.op == "call" else p.a[2]
        if a[0] is base:
            return a[1]
    return None
