"""Rules over fraos: refused and failed appends, opening, closing, growing and reading."""

from core import *
from rules import rule
from rules_core import outcomes
from rules_fraos import *

G = "growable_mmap::GrowableMmap"


# ------------------------------------------------------------------ storage errors


def fallible(R, crates):
    """every function of the crates that returns a Result"""
    r = []
    for f in R.prog.fns.values():
        if f["crate"] in crates and "body" in f and f.get("kind") != "closure" and not f.get("test"):
            o = f["body"]["locals"][0]["s"]
            if o.startswith("std::result::Result<"):
                r.append(f)
    return r


def err_swallowed(e, s, events, v, loops=(), ops=()):
    """[(call, at)] with a Result nobody looked at, or looked at and dropped, on a path that reports success"""
    r = []
    for x in events:
        if x[0] == "loop":
            for evs, _, s2 in x[1].iters:
                r += err_swallowed(e, s2, evs, None, ops=ops)
        elif x[0] == "call" and x[6] and x[6].get("dty", "").startswith("std::result::Result<"):
            t = x[3]
            if t is v:
                continue
            if not STORE_OPS.match(x[1]) and not x[1].startswith(("local:", "sled::", "serde", "memmap2", "dyn")) and not any(re.search(o, x[1]) for o in ops):
                continue
            k = e.variant_of(s, t)
            if k != "Ok":
                r.append((x[1], x[5], k))
    return r


def err_panicked(e, s, ops=()):
    """the failed operation, when the path ends in a panic because of it"""
    evs = list(s.events())
    if not evs or evs[-1][0] != "panic":
        return None
    x = evs[-1]
    t = x[4] if len(x) > 4 and x[1].startswith("std::result::Result::") else None
    if t is None:
        y = next((y for y in reversed(evs) if y[0] in ("is", "isnot", "if", "call", "w")), None)
        t = y[1] if y is not None and y[0] == "is" and y[2] == "Err" else None
    if not isinstance(t, T):
        return None
    for z in walk(t):
        if z.op in ("res", "call") and (STORE_OPS.match(z.a[0]) or z.a[0].startswith(("local:", "sled::", "serde", "ciborium", "memmap2", "dyn")) or any(re.search(o, z.a[0]) for o in ops)):
            return z.a[0], x[3] if isinstance(x[3], (list, tuple)) else x[2]
    return None


def errors_rule(R, crates, skip=(), ops=(), spare=None, opaque=()):
    n = 0
    for f in fallible(R, crates):
        if any(re.search(p, f["path"]) for p in skip):
            continue
        others = [g["id"] for g in fallible(R, crates) if g["id"] != f["id"]]
        e, rs = R.run(f, opaque=tuple("^" + re.escape(i) + "$" for i in others) + tuple(opaque))
        if rs is None:
            continue
        w = where(f)
        for s, kind, v in rs:
            if kind == "panic":
                p = err_panicked(e, s, ops)
                if p and not (spare and spare(f, p[0], "Err")):
                    R.ob("reported", w, False, f"panics because {p[0]} failed ({at(p[1])}), instead of returning the error\n{path_text(s, v)}")
            if kind != "ret":
                continue
            for s1, k, _ in e.cases(s.fork(), v, ["Ok", "Err"]):
                if k != "Ok":
                    continue
                for name, a, got in err_swallowed(e, s1, s1.events(), v, ops=ops):
                    if spare and spare(f, name, got):
                        continue
                    n += 1
                    R.ob("reported", w, False, f"success is reported although {name} {'failed' if got == 'Err' else 'may have failed'} ({at(a)})\n{path_text(s, v)}")
                n += 1
                R.ob("reported", w, True)
    return n


@rule("F05", CR)
def errors_reported(R):
    """For every function of the crate that returns a Result, with the other such functions taken as unknown: on each path that can return Ok, every
    operation on the storage and every fallible call of the crate has been looked at and is known to have succeeded. By composition an error
    of the file system or of the mapping reaches the caller of every operation of the database. A record that an iterator cannot
    read is yielded as an error."""
    n = errors_rule(R, (CR,))
    R.floor("success paths", n, 30)
    f = R.one("SeqNoIter::next", R.prog.method("seqno_iter::SeqNoIter", "next", trait="std::iter::Iterator", crate=CR))
    if f:
        others = [g["id"] for g in fallible(R, (CR,))]
        e, rs = outcomes(R, f, opaque=tuple("^" + re.escape(i) + "$" for i in others))
        for s, kind, v in rs:
            bad = [x for x in s.events() if x[0] == "is" and x[2] == "Err" and x[1].op == "res"]
            k = e.variant_of(s, v)
            k2 = e.variant_of(s, payload(v, "Some")) if k == "Some" else None
            if bad:
                R.ob("yields-error", where(f), kind == "ret" and k == "Some" and k2 in ("Err", None), f"a failed read ends as {show(v)}\n{path_text(s, v)}", unknown=k is None or (k == "Some" and k2 is None))


# ------------------------------------------------------------------ empty records


def names_len(s, X):
    return X


@rule("F06", CR)
def empty_record(R):
    """On every path of the two appends that touches the storage, the branch facts must establish that each record (each entry's length) is longer than nothing;
    a path that knows of an empty record must end in an error with nothing touched. The appending entry point must hand all its records to both."""
    n = 0
    for f, e, rs in pieces(R):
        w = where(f)
        recs = mk("*", mk("arg", f["params"][1]))
        el = mk("*", mk("elem", recs, ANY)) if f["path"].endswith("FlatFile::append") else mk("elem", recs, ANY)
        what = [length(mk("*", mk("elem", recs, ANY))), length(mk("elem", recs, ANY)), field(mk("elem", recs, ANY), "1")]
        for s, kind, v in rs:
            evs = flat(s.events())
            if touched_storage(evs):
                n += 1
                sg = [e.sign(s, t) for t in what]
                okk = any(x == frozenset("+") for x in sg)
                odd = not okk and odd_guard(s, recs)
                R.ob("refused-first", w, okk, f"the storage is touched although a record may be empty\n{path_text(s, v)}", unknown=odd)
        for s, kind, v in rs:
            if knows_empty(e, s, recs):
                n += 1
                k = e.variant_of(s, v) if kind == "ret" else None
                R.ob("refused", w, k == "Err", f"an append with an empty record ends as {show(v) if v is not None else kind}\n{path_text(s, v)}")
                R.ob("untouched", w, not touched_storage(flat(s.events())), f"an append with an empty record touches the storage\n{path_text(s, v)}")
    R.floor("guarded paths", n, 6)


def touched_storage(evs):
    return [x for x in evs if x.kind in ("mwrite", "pub", "push", "meta", "dyn") or (x.kind == "op")]


def knows_empty(e, s, recs):
    """some element of the records is known to have no bytes"""
    for k, v in s.facts.items():
        if k[0] == "s" and v == frozenset("0"):
            for x in walk(k[1]):
                if x.op == "elem" and x.a[0] is recs and len(x.a) > 1 and x.a[1] is not ANY:
                    d = anyelem(recs, k[1])
                    if d in (length(mk("*", mk("elem", recs, ANY))), length(mk("elem", recs, ANY)), field(mk("elem", recs, ANY), "1")):
                        return True
    return False


def odd_guard(s, recs):
    """is there a fact about the records that this rule cannot read: neither their number, nor their total, nor of one of them"""

    def plain(t):
        if t is length(recs) or t.op in ("sum", "sumlen", "elem") and t.a[0] is recs or t.op == "idx" and t.a[0] is recs and is_int(t.a[1]):
            return True
        if t is recs or t.op == "phi":
            return False
        return all(plain(x) for x in parts(t))

    return any(not plain(k[1]) for k in s.facts)


def parts(t):
    r = []
    todo = list(t.a)
    while todo:
        x = todo.pop()
        if isinstance(x, T):
            r.append(x)
        elif isinstance(x, tuple):
            todo += x
    return r


# ------------------------------------------------------------------ read-only opening

MAKES = {"write", "create", "append", "truncate", "create_new"}


@rule("F07", CR)
def read_only(R):
    """Every call reached from opening read-only is enumerated over the type-checked program, each function analysed with the writable flag that its
    callers hand it: no reachable file is opened for writing, creating, appending or truncating, nothing is created, resized, removed or mapped for writing."""
    f = dbm(R, "file_readonly")
    if not f:
        return
    w = where(f)
    e, rs = R.run(f, watch=open_watch)
    rs = rs or []
    n = 0
    for s, kind, v in rs:
        for x in all_calls(s.events()):
            name = x[1]
            short = name.split("::")[-1]
            n += 1
            if "OpenOptions::" in name and short in MAKES:
                R.ob("no-write-mode", w, x[2][1] is FALSE, f"a read-only open sets {short}({show(x[2][1])}) at {at(x[5])}", unknown=x[2][1] is not TRUE and x[2][1] is not FALSE)
            elif name.startswith("std::fs::") and re.search(r"(create|write|remove|rename|copy|set_|hard_link|File::options)", short):
                R.ob("no-change", w, False, f"a read-only open calls {name} at {at(x[5])}")
            elif re.match(r"memmap2::MmapOptions::(map_mut|map_anon_mut)$|memmap2::MmapMut::map_mut", name):
                R.ob("no-writable-map", w, False, f"a read-only open maps for writing at {at(x[5])}")
            else:
                R.ob("calls", w, True)
    R.floor("paths", len(rs), 2)
    R.floor("file operations", n, 2)


def all_calls(events):
    for x in events:
        if x[0] == "loop":
            for evs, _, _ in x[1].iters:
                yield from all_calls(evs)
        elif x[0] == "call" and x[1].startswith(("std::fs::", "memmap2::")):
            yield x


def open_watch(e):
    if e[0] == "loop":
        ks = frozenset(open_watch(x) for x in all_calls([e]))
        return ("loop", ks) if ks else None
    if e[0] == "call" and e[1].startswith(("std::fs::", "memmap2::")):
        a = e[2][1] if len(e[2]) > 1 else None
        return (e[1], a.id if a in (TRUE, FALSE) else None)
    return None


# ------------------------------------------------------------------ closing


@rule("F08", CR)
def closing(R):
    """On every path of dropping a handle, a file may be resized only when the facts of the path say that no other handle of the database is left, and then to exactly
    the end of what is stored in it. Both files are cut back when neither fails."""
    dr = [g for g in R.prog.fns.values() if g["crate"] == CR and g.get("trait") == "std::ops::Drop" and g["self"].get("adt", "").endswith(DB) and "body" in g]
    if not dr:
        R.ob("none", "fraos", True)
        return
    g = dr[0]
    w = where(g)
    e, rs = outcomes(R, g)
    cuts = 0
    ends = None
    ln = [x for x in R.prog.method(G, "len", crate=CR)]
    for s, kind, v in rs:
        evs = s.events()
        ops = [x for x in evs if x[0] == "call" and x[1].startswith(("std::fs::", "memmap2::"))]
        cut = [x for x in ops if x[1] == "std::fs::File::set_len"]
        other = [x for x in ops if x not in cut]
        R.ob("no-other", w, not [x for x in other if not re.search(r"sync|metadata|flush", x[1])], f"closing does {[x[1] for x in other]}\n{path_text(s, v)}")
        if cut:
            cuts += 1
            last = lone(e, s)
            R.ob("last-handle", w, last, f"a file is resized while other handles may be in use\n{path_text(s, v)}")
        for x in cut:
            f0 = x[6]["args"][0]
            # the storage whose file it is, and the end of what it holds at this moment
            root = owner_of(x[2][0])
            if root is None or not ln:
                R.undecided(w, f"the file {show(x[2][0])} is not part of a known storage")
                continue
            want = ends_of(e, s, ln[0], root)
            got = x[2][1]
            good = bool(want) and all(t is got for t in want)
            R.ob("exact-end", w, good, f"the file is cut at {show(got)} but what is stored ends at {[show(t) for t in want]}\n{path_text(s, v)}", unknown=not want)
    R.floor("closing paths", len(rs), 2)
    R.counts["paths that resize"] = cuts
    if cuts:
        most = max(len({x[2][0] for x in s.events() if x[0] == "call" and x[1] == "std::fs::File::set_len"}) for s, _, _ in rs)
        R.ob("both", w, most >= 2, "only one of the two files is cut back")


def lone(e, s):
    """is the handle known to be the last one?"""
    for k, v in s.facts.items():
        t = k[1]
        if k[0] == "s":
            cnt = [x for x in walk(t) if (x.op in ("call", "res")) and "Arc::strong_count" in x.a[0]]
            if cnt:
                d = sub(cnt[0], c(1))
                if e.sign(s, d) <= frozenset("-0"):
                    return True
        if k[0] in ("v", "is") or isinstance(v, str):
            if t.op in ("call", "res") and re.search(r"Arc::(get_mut|try_unwrap|into_inner)$", t.a[0]) and v in ("Some", "Ok"):
                return True
    return False


def owner_of(file):
    """the reference to the storage a file belongs to: strip the field and variant that lead to the file"""
    t = file
    while t.op in (".", "as", "*"):
        if t.op == ".":
            base = t.a[0]
            while base.op == "as":
                base = base.a[0]
            if t.a[1] == "file":
                return base
            t = t.a[0]
        else:
            t = t.a[0]
    return None


def ends_of(e, s, ln, root):
    """what GrowableMmap::len says on this path"""
    p = mk("tmpref", root)
    st = s.fork()
    st.mem[mk("D", p)] = root
    r = set()
    for s1, k, v in e.after(st, ln, [mk("ref", mk("D", p), ())]):
        kk = e.variant_of(s1, v) if k == "ret" else None
        if kk == "Ok":
            r.add(payload(v, "Ok"))
        elif kk is None and k == "ret":
            r.add(v)
    return r


# ------------------------------------------------------------------ growing


def base_map(t):
    """the mapping itself, without what was written to it"""
    while t.op in ("mut", "upd", "updi", "upds"):
        t = t.a[2] if t.op == "mut" else t.a[0]
    return t


def upto(st, d):
    """is d >= 0 on the path? uses max(a, b) >= a, b"""
    return None


def nonneg_on(e, s, d):
    if e.sign(s, d) <= frozenset("0+"):
        return True
    k, dd = lin(d)
    for t, n in dd.items():
        if n > 0 and t.op == "max":
            for x in t.a if not isinstance(t.a[0], tuple) else t.a[0]:
                if isinstance(x, T) and nonneg_on(e, s, add(sub(d, scale(t, n)), scale(x, n))):
                    return True
    # one fact may leave a non-negative rest
    for k2, v in s.facts.items():
        if k2[0] == "s" and v <= frozenset("0+"):
            r = sub(d, k2[1])
            if is_nonneg(r):
                return True
        if k2[0] == "s" and v <= frozenset("0-"):
            r = add(d, k2[1])
            if is_nonneg(r):
                return True
    return is_nonneg(d)


def is_nonneg(d):
    k, dd = lin(d)
    return k >= 0 and all(n > 0 and nonneg(t) for t, n in dd.items())


class Grow:
    """one path of growing the storage"""

    def __init__(self, R, f, e, s, kind, v):
        self.f, self.e, self.s, self.kind, self.v = f, e, s, kind, v
        self.lock = next((x for x in s.events() if x[0] == "lock"), None)
        self.X = self.lock[2] if self.lock else None
        if self.X is None:
            return
        self.old = mk("locked", self.X, self.lock[3].a[2])
        self.new = s.mem.get(mk("D", mk("lockdata", self.X)))


def lens(R, e, s, lock, content, ln):
    """{value of GrowableMmap::len} with the given content of the storage, and the states"""
    st = s.fork()
    if content is not None:
        st.mem[mk("D", mk("lockdata", lock))] = content
    r = []
    for s1, k, v in e.after(st, ln, [mk("arg", "self")]):
        if k == "ret" and e.variant_of(s1, v) == "Ok":
            r.append((s1, payload(v, "Ok")))
    return r


def grow_paths(R):
    f, ln = part(R, G, "grow_and_apply"), part(R, G, "len")
    if not f or not ln:
        return None, None, None, []
    e, rs = R.run(f, opaque=(r"SharedMmap::slice$",))
    return f, ln, e, rs or []


def known_storage(R):
    """the layout this rule can read"""
    want = {
        "growable_mmap::Storage": {"inactive_mmaps", "active_map"},
        "growable_mmap::InactiveMmaps": {"index", "maps"},
        "growable_mmap::ActiveMmap": {"len", "mmap", "bounds"},
        "index_on_mmaps::IndexOnMmaps": {"mmaps"},
        "index_on_mmaps::MmapChunkAddressMapper": {"relative_internal_bounds", "global_chunk_start"},
    }
    for n, fs in want.items():
        a = [x for k, x in R.prog.adts.items() if k.endswith(n)]
        if len(a) != 1:
            return False
        have = {x["name"] for x in (a[0].get("fields") or a[0]["variants"][0]["fields"])}
        if not fs <= have:
            return False
    return True


def sane(e, s, old, ln, R, lock):
    """does the path respect what every earlier operation leaves behind: the active part starts where the inactive part ends"""
    act = field(old, "active_map")
    if e.variant_of(s, act) != "Some":
        return True
    st = s.fork()
    o2 = mk("upd", old, (("active_map", NONE_),))
    gs = field(field(payload(act, "Some"), "bounds"), "global_chunk_start")
    for s1, v in lens(R, e, s, lock, o2, ln):
        if "0" not in e.sign(s1, sub(gs, v)):
            return False
    return True


NONE_ = adt("std::option::Option", "None")


@rule("F09", CR)
def growth(R):
    """Every path of extending a file is enumerated together with the mapping state before and after. On success the bytes handed to the writer start where the storage ended: either
    in the room left in the current mapping, or at the start of a new mapping of the file made at exactly that position, after the file was made long enough; the length
    reported then is the old one plus the extension. The mapping in use before is kept, whole up to its end, under its own position, unless all earlier ones were replaced by one mapping of exactly the
    file's earlier part. The file is never resized below what is stored."""
    if not known_storage(R):
        R.undecided("fraos::growable_mmap", "the storage has another layout")
        return
    f, ln, e, rs = grow_paths(R)
    if not f:
        return
    w = where(f)
    ext = mk("arg", f["params"][1])
    n = 0
    for s, kind, v in rs:
        g = Grow(R, f, e, s, kind, v)
        if g.X is None or g.new is None:
            continue
        txt = None
        olds = lens(R, e, s, g.X, g.old, ln)
        # resizing
        for x in s.events():
            if x[0] == "call" and x[1] == "std::fs::File::set_len":
                for s1, o in olds:
                    R.ob("never-cut", w, nonneg_on(e, s1, sub(x[2][1], o)), f"the file is resized to {show(x[2][1])} while {show(o)} bytes are stored\n{path_text(s, v)}")
        if kind != "ret" or e.variant_of(s, v) != "Ok":
            continue
        if not sane(e, s, g.old, ln, R, g.X):
            continue
        n += 1
        for s1, o in olds:
            for s2, m in lens(R, e, s1, g.X, g.new, ln):
                R.ob("length", w, m is add(o, ext), f"the storage had {show(o)} bytes and has {show(m)} after an extension by {show(ext)}\n{path_text(s, v)}")
        new_act = field(g.new, "active_map")
        if e.variant_of(s, new_act) != "Some":
            R.ob("active", w, False, f"no active mapping after a write\n{path_text(s, v)}", unknown=e.variant_of(s, new_act) is None)
            continue
        na = payload(new_act, "Some")
        was = e.variant_of(s, field(g.old, "active_map"))
        oa = payload(field(g.old, "active_map"), "Some")
        m0 = base_map(field(na, "mmap"))
        dyn = [x for x in s.events() if x[0] == "call" and x[1] == "dyn"]
        if len(dyn) != 1:
            R.ob("writer", w, True, f"{len(dyn)} calls of the writer", unknown=True)
            continue
        start = written_from(dyn[0])
        if start is None:
            R.ob("writer", w, True, "the writer's place is unknown", unknown=True)
            continue
        gs = field(field(na, "bounds"), "global_chunk_start")
        for s1, o in olds:
            R.ob("continues", w, e.sign(s1, sub(add(gs, start), o)) == frozenset("0"), f"the writer starts at {show(add(gs, start))} but the storage ends at {show(o)}\n{path_text(s, v)}")
        reuse = was == "Some" and m0 is field(oa, "mmap")
        if reuse:
            room = field(oa, "len")
            R.ob("room", w, nonneg_on(e, s, sub(room, add(start, ext))), f"a write to {show(add(start, ext))} is put in a mapping of {show(room)}\n{path_text(s, v)}")
        else:
            t = m0
            opt = next((x for x in walk(t) if x.op == "res" and x.a[0].startswith("memmap2::MmapOptions::map")), None)
            if opt is None:
                R.ob("new-map", w, True, f"mapping of unknown origin {show(t)[:200]}", unknown=True)
                continue
            o = opt.a[2][0]
            L = field(o, "len")
            if L.op == "adt" and L.a[1] == "Some":
                L = payload(L, "Some")
            off = field(o, "offset")
            anon = opt.a[0].endswith("map_anon")
            R.ob("room", w, nonneg_on(e, s, sub(L, add(start, ext))), f"a write to {show(add(start, ext))} is put in a mapping of {show(L)}\n{path_text(s, v)}")
            R.ob("room-kept", w, nonneg_on(e, s, sub(L, field(na, "len"))), f"a mapping of {show(L)} is remembered as {show(field(na, 'len'))} long\n{path_text(s, v)}")
            if not anon:
                R.ob("position", w, off is gs or e.sign(s, sub(off, gs)) == frozenset("0"), f"the part that starts at {show(gs)} is mapped at {show(off)} of the file\n{path_text(s, v)}")
                szs = [x for x in s.events() if x[0] == "call" and x[1] == "std::fs::File::set_len"]
                R.ob("file-long-enough", w, any(nonneg_on(e, s, sub(x[2][1], add(off, L))) for x in szs), f"the mapping of [{show(off)}, +{show(L)}) is not backed by the file\n{path_text(s, v)}")
        # what was there before
        maps, idx = field(field(g.new, "inactive_mmaps"), "maps"), field(field(field(g.new, "inactive_mmaps"), "index"), "mmaps")
        kept(R, w, e, s, v, g, oa if was == "Some" else None, reuse, maps, idx, ln)
    R.floor("successful growth paths", n, 8)


LESS = {"truncate", "pop", "remove", "swap_remove", "clear", "drain", "retain", "split_off", "dedup", "insert", "swap", "reverse"}


def written_from(x):
    """where in the active mapping the writer's slice starts"""
    a = x[6].get("args") or x[2]
    for t in x[2][1:]:
        if t.op == "ref":
            st = ZERO
            for p in t.a[1]:
                if p[0] == "s":
                    st = add(st, p[1].a[0])
            return st
    return None


def kept(R, w, e, s, v, g, oa, reuse, maps, idx, ln, rule="kept"):
    """the mappings of the earlier parts"""
    om, oi = field(field(g.old, "inactive_mmaps"), "maps"), field(field(field(g.old, "inactive_mmaps"), "index"), "mmaps")
    if maps is om and idx is oi:
        if reuse or oa is None:
            R.ob(rule, w, True)
            return
        size = [s1 for s1 in [s]]
        b = field(oa, "bounds")
        sz = lastbound(e, s, b)
        R.ob(rule, w, sz is not None and e.sign(s, sz) <= frozenset("0"), f"the mapping in use before is dropped with what is stored in it\n{path_text(s, v)}", unknown=sz is None)
        return
    if maps.op == "push" and idx.op == "push" and maps.a[0] is om and idx.a[0] is oi and oa is not None:
        R.ob(rule, w, idx.a[1] is field(oa, "bounds"), f"the earlier part is remembered under {show(idx.a[1])}\n{path_text(s, v)}")
        sz = lastbound(e, s, field(oa, "bounds"))
        src, a, b = mapped(maps.a[1])
        R.ob(rule, w, base_map(src) is field(oa, "mmap") and a is ZERO, f"the earlier part is mapped by {show(maps.a[1])[:300]}\n{path_text(s, v)}", unknown=src is None)
        R.ob(rule + "-whole", w, b is None or sz is None or b is sz or nonneg_on(e, s, sub(b, sz)), f"only {show(b) if b is not None else ''} bytes of the earlier {show(sz) if sz is not None else '?'} are kept\n{path_text(s, v)}", unknown=sz is None)
        return
    if maps.op in ("array", "push") and length(maps) is c(1) and length(idx) is c(1):
        one = proj(maps, ("i", mk("fromend", 1)))
        ch = proj(idx, ("i", mk("fromend", 1)))
        src, a, b = mapped(one)
        o = src.a[2][0] if src is not None and src.op == "res" and src.a[0].endswith("MmapOptions::map") else None
        if o is None:
            R.ob(rule, w, True, f"unknown mapping {show(one)[:200]}", unknown=True)
            return
        L = field(o, "len")
        L = payload(L, "Some") if L.op == "adt" and L.a[1] == "Some" else L
        R.ob(rule, w, field(o, "offset") is ZERO and field(ch, "global_chunk_start") is ZERO, f"the replacing mapping starts at {show(field(o, 'offset'))}, kept as {show(field(ch, 'global_chunk_start'))}\n{path_text(s, v)}")
        gs = field(field(payload(field(g.new, "active_map"), "Some"), "bounds"), "global_chunk_start")
        end = lastbound(e, s, ch)
        # the earlier part ends where the active one starts
        R.ob(rule, w, end is L and (b is None or b is L), f"the replacing mapping of {show(L)} bytes is kept as {show(end)}\n{path_text(s, v)}")
        wants = {gs}
        sz = lastbound(e, s, field(oa, "bounds")) if oa is not None else None
        if oa is not None and (gs is field(field(oa, "bounds"), "global_chunk_start") or sz is not None and e.sign(s, sz) <= frozenset("0")):
            wants |= {o for _, o in lens(R, e, s, g.X, mk("upd", g.old, (("active_map", NONE_),)), ln)}
        R.ob(rule + "-whole", w, any(L is o or e.sign(s, sub(L, o)) == frozenset("0") for o in wants), f"all earlier parts, {' or '.join(show(o) for o in wants)} bytes, are replaced by a mapping of {show(L)}\n{path_text(s, v)}")
        return
    fewer = [x for x in walk(maps) if x.op == "mut" and x.a[0].split("::")[-1] in LESS]
    if fewer and (idx is oi or idx.op == "push" and idx.a[0] is oi):
        R.ob(rule, w, False, f"mappings are taken out ({fewer[0].a[0].split('::')[-1]}) while their places in the file are still listed\n{path_text(s, v)}")
        return
    R.ob(rule, w, True, f"the earlier mappings became {show(maps)[:200]}", unknown=True)


def lastbound(e, s, b):
    """the size of a chunk: its last bound, or nothing"""
    rb = field(b, "relative_internal_bounds")
    n = e.sign(s, length(rb))
    if n <= frozenset("0"):
        return ZERO
    if n == frozenset("+"):
        return proj(rb, ("i", mk("fromend", 1)))
    return None


def mapped(x):
    """(mapping, from, to) a shared view shows"""
    if x.op == "res" and x.a[0].endswith("SharedMmap::slice"):
        v = x.a[2]
        src, a, b = mapped(v[0])
        lo, hi = bounds_of(v[1])
        if lo is None:
            return None, None, None
        return src, add(a, lo), add(a, hi) if hi is not None else b
    if x.op == "adt":
        m = field(x, "mmap")
        while m.op == "box":
            m = m.a[0]
        if m.op == "." and m.a[0].op == "as" and m.a[0].a[1] == "Ok":
            r = m.a[0].a[0]
            if r.op == "res" and r.a[0].endswith("make_read_only"):
                return r.a[2][0], ZERO, None
            return r, ZERO, None
        return m, ZERO, None
    return x, ZERO, None


def bounds_of(r):
    if r.op != "adt":
        return None, None
    n = r.a[0].split("::")[-1]
    d = dict(r.a[2])
    if n == "Range":
        return d["start"], d["end"]
    if n == "RangeTo":
        return ZERO, d["end"]
    if n == "RangeFrom":
        return d["start"], None
    if n == "RangeFull":
        return ZERO, None
    return None, None


# ------------------------------------------------------------------ failed appends


@rule("F13", CR)
def failed_append(R):
    """On every failing path of extending a file, the length of the storage must be what it was, and the mapping that holds earlier
    records must still be among the mappings; on every failing path of the two appends no size is published and no index entry of it is counted."""
    if not known_storage(R):
        R.undecided("fraos::growable_mmap", "the storage has another layout")
        return
    f, ln, e, rs = grow_paths(R)
    n = 0
    if f:
        w = where(f)
        for s, kind, v in rs:
            if kind != "ret" or e.variant_of(s, v) == "Ok":
                continue
            g = Grow(R, f, e, s, kind, v)
            if g.X is None or g.new is None or not sane(e, s, g.old, ln, R, g.X):
                continue
            n += 1
            for s1, o in lens(R, e, s, g.X, g.old, ln):
                for s2, m in lens(R, e, s1, g.X, g.new, ln):
                    R.ob("length-kept", w, m is o or e.sign(s2, sub(m, o)) == frozenset("0"), f"a failed append changes the length from {show(o)} to {show(m)}\n{path_text(s, v)}")
            was = e.variant_of(s, field(g.old, "active_map"))
            if was == "Some" and g.new is not g.old:
                oa = payload(field(g.old, "active_map"), "Some")
                na = payload(field(g.new, "active_map"), "Some")
                reuse = base_map(field(na, "mmap")) is field(oa, "mmap")
                maps, idx = field(field(g.new, "inactive_mmaps"), "maps"), field(field(field(g.new, "inactive_mmaps"), "index"), "mmaps")
                why = [x[1] for x in s.events() if x[0] == "is" and x[2] == "Err"]
                op = next((t.a[0].split("::")[-1] for t in why if t.op == "res"), "error")
                kept(R, w, e, s, v, g, oa, reuse, maps, idx, ln, rule=f"kept-on-failed-{op}" if op != "dyn" else "kept-on-failed-write")
        R.floor("failing growth paths", n, 8)
    for f, e, rs in pieces(R):
        w = where(f)
        for s, kind, v in rs:
            if kind == "ret" and e.variant_of(s, v) == "Err":
                R.ob("nothing-published", w, not [x for x in flat(s.events()) if x.kind == "pub"], f"a failed append publishes a size\n{path_text(s, v)}")
