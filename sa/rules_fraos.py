"""Rules over the append-only database: fraos."""

from core import *
from rules import rule
from rules_core import outcomes

CR = "fraos"
DB = "database::Database"
STORE_OPS = re.compile(r"^(memmap2::(MmapMut|Mmap|MmapOptions)::(map\w*|flush\w*|make_\w+)|std::fs::(File::\w+|OpenOptions::open|create_dir\w*|\w+)|std::io::Write::\w+)$")
TOOLS = re.compile(r"OpenOptions::(new|read|write|create|append|truncate|create_new)$|Metadata::")


def dbm(R, name):
    return R.one(f"Database::{name}", R.prog.method(DB, name, crate=CR))


def part(R, owner, name):
    """an internal function the rule wants to see alone; without it nothing is decided"""
    fs = [f for f in R.prog.method(owner, name, crate=CR) if "body" in f]
    if len(fs) == 1:
        return fs[0]
    R.undecided(f"fraos::{owner}::{name}", "not found as one function")
    return None


# ------------------------------------------------------------------ reading a path's events


class Ev:
    """one event of a path, with its place resolved through the loops' cursors"""

    __slots__ = ("kind", "key", "val", "at", "loops", "raw", "extra")

    def __init__(self, kind, key=None, val=None, at=None, loops=(), raw=None, extra=None):
        self.kind, self.key, self.val, self.at, self.loops, self.raw, self.extra = kind, key, val, at, loops, raw, extra

    def __repr__(self):
        return f"<{self.kind} {show(self.key) if isinstance(self.key, T) else self.key} {show(self.val)[:60] if isinstance(self.val, T) else self.val}>"


def loops_of(events):
    for e in events:
        if e[0] == "loop":
            yield e[1]
            for evs, _, _ in e[1].iters:
                yield from loops_of(evs)
        elif e[0] == "head":
            yield e[1]


def phis_of(events):
    m = {}
    for L in loops_of(events):
        for loc, (init, phi) in L.phis.items():
            m.setdefault(phi, (init, L, loc))
    return m


def resolve(root, path, phis, depth=0):
    """(root, path, cursors): the place behind cursor variables"""
    cur = []
    while root.op == "D" and root.a[0].op == "phi" and root.a[0] in phis and depth < 8:
        p = root.a[0]
        init = phis[p][0]
        cur.append((p, path))
        if init.op != "ref":
            break
        root, path = init.a[0], init.a[1] + path
        depth += 1
    return root, path, cur


def held(root):
    """the lock whose data the place belongs to"""
    if root.op == "D" and root.a[0].op == "lockdata":
        return root.a[0].a[0]
    return None


def flat(events, phis=None, loops=()):
    """[Ev] with the loops' bodies in place"""
    if phis is None:
        phis = phis_of(events)
    r = []
    for e in events:
        k = e[0]
        if k == "loop":
            L = e[1]
            for evs, _, _ in L.iters:
                r += flat(evs, phis, loops + (L,))
        else:
            x = classify(e, phis, loops)
            if x is not None:
                r.append(x)
    return r


def classify(e, phis, loops=()):
    k = e[0]
    if k == "lock":
        return Ev("lock", e[2], e[1], None, loops, e)
    if k == "unlock":
        return Ev("unlock", e[1].a[1], e[1].a[0], None, loops, e)
    if k == "w":
        root, path, cur = resolve(e[1], e[2], phis)
        X = held(root)
        if X is not None and (cur or any(p[0] in ("s", "i") for p in path)):
            return Ev("mwrite", X, e[3], None, loops, e, (root, path, cur))
        if X is not None:
            return Ev("meta", X, e[3], None, loops, e, (root, path, cur))
        if e[1].op == "D" and any(p[0] == "s" for p in path):
            return Ev("mwrite", None, e[3], None, loops, e, (root, path, cur))
        return None
    if k == "call":
        n = e[1]
        a0 = e[6]["args"][0] if e[6]["args"] else None
        if n.startswith("std::sync::atomic::Atomic::"):
            op = n.split("::")[-1]
            key = a0.a[:2] if a0 is not None and a0.op == "ref" else (a0, ())
            return Ev("load" if op == "load" else "pub", key, e[2][1] if len(e[2]) > 1 else None, e[5], loops, e)
        if n.startswith("memmap2::MmapMut::flush"):
            X = None
            if a0 is not None and a0.op == "ref":
                root, path, _ = resolve(a0.a[0], a0.a[1], phis)
                X = held(root)
            return Ev("flush" if n.endswith("::flush") else "softflush", X, e[3], e[5], loops, e)
        if n == "dyn":
            return Ev("dyn", None, e[3], e[5], loops, e)
        if STORE_OPS.match(n) and not TOOLS.search(n):
            return Ev("op", n.split("::")[-1], e[3], e[5], loops, e)
        if n in ("std::vec::Vec::push",):
            a = e[6]["args"][0]
            if a.op == "ref":
                root, path, cur = resolve(a.a[0], a.a[1], phis)
                X = held(root)
                if X is not None:
                    return Ev("push", X, e[2][1], e[5], loops, e, (root, path, cur))
        return None
    if k == "is":
        return Ev("is", e[1], e[2], None, loops, e)
    if k == "panic":
        return Ev("panic", None, None, None, loops, e)
    return None


NUM = re.compile(r"::to_(le|be|ne)_bytes$")


def is_num(v):
    return isinstance(v, T) and any(x.op == "call" and NUM.search(x.a[0]) for x in walk(v))


def is_storage_res(t):
    """the result of an operation on the storage"""
    return t.op == "lockres" or (t.op == "res" and STORE_OPS.match(t.a[0]) is not None and not TOOLS.search(t.a[0]))


def watcher(e):
    """the alphabet of the database's entry points"""
    k = e[0]
    if k == "loop":
        L = e[1]
        phis = phis_of([e])
        ks = set()
        for x in flat([e], phis):
            y = keyof(x)
            if y is not None:
                ks.add(y)
        return ("loop", frozenset(ks)) if ks else None
    x = classify(e, {})
    return None if x is None else keyof(x)


def keyof(x):
    if x.kind in ("lock", "unlock"):
        return (x.kind, x.val, x.key.id)
    if x.kind in ("mwrite",):
        return ("mwrite", is_num(x.val))
    if x.kind in ("load", "pub"):
        return (x.kind, x.key[0].id, str(x.key[1]))
    if x.kind in ("flush", "softflush"):
        return (x.kind, x.key.id if x.key is not None else None)
    if x.kind == "op":
        return ("op", x.key)
    if x.kind == "dyn":
        return ("dyn",)
    if x.kind == "is" and x.key.op == "res" and "flush" in x.key.a[0]:
        return ("flushed", x.val)
    if x.kind == "is" and is_storage_res(x.key) and x.val == "Err":
        return ("failed", x.key.a[0] if x.key.op == "res" else "lock")
    return None


class Append:
    """the paths of the appending entry point, as sequences of storage events"""

    memo = {}

    def __init__(self, R, f):
        self.f = f
        e = Append.memo.get(f["id"])
        self.e, rs = R.run(f, watch=watcher)
        self.outs = rs or []


def append_paths(R):
    f = dbm(R, "append_get_seqno")
    if not f:
        return None, None, []
    e, rs = R.run(f, watch=watcher)
    R.counts["append paths"] = len(rs or [])
    return f, e, rs or []


def owner(loc):
    """the place that holds a size counter, without its last field"""
    return (loc[0], tuple(x for x in loc[1][:-1]))


def lockplace(X):
    """a term's outermost root"""
    while X.op in (".", "as", "*"):
        X = X.a[0]
    return X


def prefix_of(X):
    """the chain of fields that leads to a place, outermost first"""
    r = []
    while X.op in (".", "as", "*"):
        if X.op == ".":
            r.append(X.a[1])
        X = X.a[0]
    return tuple(reversed(r))


def locfields(loc):
    r = prefix_of(loc[0].a[0]) if loc[0].op == "D" else ()
    return r + tuple(x[1] for x in loc[1] if x[0] == "f")


def same_store(X, loc):
    """do a storage's lock and a size counter belong to the same file?"""
    a, b = prefix_of(X), locfields(loc)
    return bool(a) and bool(b) and a[0] == b[0]


@rule("F01", CR)
def one_writer(R):
    """Every path of the appending entry point is enumerated as a sequence of lock, size-read, mapping-write, flush and
    size-publication events (interprocedurally, over MIR): each size read and each storage change must lie between the
    acquisition and the release of one mutex, which is never released in between. A clone of the database must
    share that mutex and both files."""
    f, e, rs = append_paths(R)
    w = where(f) if f else ""
    for s, kind, v in rs:
        evs = flat(s.events())
        depth, locked, n = 0, set(), 0
        started = False
        for x in evs:
            if x.kind == "lock" and x.val == "mutex":
                depth += 1
                locked.add(x.key)
                if started:
                    R.ob("one-section", w, False, f"the lock is taken again after the storage was read or changed\n{path_text(s, v)}")
            elif x.kind == "unlock" and x.val == "mutex":
                depth -= 1
            elif x.kind in ("load", "pub", "mwrite", "flush", "softflush", "op", "push", "meta") or (x.kind == "lock" and x.val == "write"):
                if x.kind == "op" and x.key in ("map_anon",):
                    continue
                started = True
                n += 1
                R.ob("under-lock", w, depth >= 1, f"{x.kind} {show(x.key) if isinstance(x.key, T) else ''} happens without the append lock\n{path_text(s, v)}")
        if n:
            R.ob("one-lock", w, len(locked) == 1, f"{len(locked)} different locks\n{path_text(s, v)}")
    R.floor("append paths", len(rs), 10)
    # clones share the lock and the files
    cl = [g for g in R.prog.fns.values() if g["crate"] == CR and g.get("trait") == "std::clone::Clone" and g.get("name") == "clone" and g["self"].get("adt", "").endswith(DB)]
    for g in cl:
        if g.get("derived"):
            a = R.prog.adts.get(g["self"]["adt"])
            fs = a["fields"] if "fields" in a else a["variants"][0]["fields"]
            for x in fs:
                ty = x["ty"]["s"] if isinstance(x.get("ty"), dict) else str(x.get("ty"))
                R.ob("clone-shares", where(g), ty.startswith("std::sync::Arc<"), f"a clone has its own {x.get('name')}: {ty}")
        else:
            e, rs = outcomes(R, g)
            for s, kind, v in rs:
                if kind != "ret" or v.op != "adt":
                    R.ob("clone-shares", where(g), True, "clone result unknown", unknown=True)
                    continue
                for n, x in v.a[2]:
                    mine = field(mk("*", mk("arg", "self")), n)
                    R.ob("clone-shares", where(g), x is mine, f"a clone has its own {n}: {show(x)}")
    R.floor("clone", len(cl), 1)


@rule("F02", CR)
def data_before_index(R):
    """On every path of the appending entry point, a write of index entries must come after the records were written and
    flushed with success, and no record may be written after it; the index entries must be flushed with success before
    the path reports success; a path that reports success either found no records or has written records and entries."""
    f, e, rs = append_paths(R)
    w = where(f) if f else ""
    n = 0
    for s, kind, v in rs:
        if kind != "ret":
            continue
        evs = flat(s.events())
        ok_flush = set()
        data, idx, dflush, iflush = [], [], False, False
        pend = None
        for x in evs:
            if x.kind == "mwrite":
                if is_num(x.val):
                    idx.append(x)
                    iflush = False
                    R.ob("data-first", w, bool(data), f"index entries are written with no record written before\n{path_text(s, v)}")
                    R.ob("data-flushed", w, dflush, f"index entries are written before the records were flushed\n{path_text(s, v)}")
                else:
                    data.append(x)
                    dflush = False
                    R.ob("data-first", w, not idx, f"a record is written after its index entry\n{path_text(s, v)}")
            elif x.kind == "flush":
                pend = x
            elif x.kind == "is" and pend is not None and x.key is pend.val and x.val == "Ok":
                X = pend.key
                if any(X is None or y.key is X for y in data):
                    dflush = True
                if any(X is None or y.key is X for y in idx):
                    iflush = True
        k = e.variant_of(s, v)
        if k == "Ok":
            empty = e.sign(s, length(mk("*", mk("arg", f["params"][1])))) <= frozenset("0")
            n += 1
            if empty:
                R.ob("nothing", w, not data and not idx, f"an empty append writes\n{path_text(s, v)}")
            else:
                R.ob("complete", w, bool(data) and bool(idx), f"success is reported with {'no record' if not data else 'no index entry'} written\n{path_text(s, v)}")
                R.ob("index-flushed", w, not idx or iflush, f"success is reported before the index was flushed\n{path_text(s, v)}")
        elif k is None:
            R.ob("result", w, True, "result unknown", unknown=True)
    R.floor("successful append paths", n, 2)


def pieces(R):
    """the two appends of the database: records and index entries"""
    for o, n in (("flatfile::FlatFile", "append"), ("seqno::SeqNoIndex", "append")):
        f = part(R, o, n)
        if f:
            e, rs = R.run(f)
            if rs is not None:
                yield f, e, rs


def touched(evs):
    return [x for x in evs if x.kind in ("mwrite", "pub", "push", "meta", "op", "dyn")]


def pieces_end(s, X):
    """what the lock guards at the end of the path"""
    return s.mem.get(mk("D", mk("lockdata", X)))


class Step:
    """one successful append to a growable file"""

    def __init__(self, f, e, s, v):
        self.f, self.e, self.s, self.v = f, e, s, v
        self.evs = flat(s.events())
        self.raw = s.events()
        self.phis = phis_of(self.raw)
        self.writes = [x for x in self.evs if x.kind == "mwrite"]
        self.pubs = [x for x in self.evs if x.kind == "pub"]
        self.loads = [x for x in self.evs if x.kind == "load"]
        self.X = self.writes[0].key if self.writes else None


def piece_len(v):
    """the number of bytes a written value has"""
    if v.op == "call" and NUM.search(v.a[0]):
        return c(8)
    return length(v)


class Cover:
    """the part of a file one append fills: [start, start + total)"""

    def __init__(self, st):
        self.why = None
        self.start = self.total = None
        self.pieces = []
        W = st.writes
        loops = {x.loops for x in W}
        if len(loops) != 1:
            self.why = "writes in several loops"
            return
        loops = loops.pop()
        if len(loops) == 0:
            return self.straight(st, W)
        if len(loops) > 1:
            self.why = "writes in nested loops"
            return
        L = loops[0]
        if len(L.iters) != 1:
            # alternatives within the body: the same bytes must be covered by each
            pass
        tot = set()
        for evs, fin, s2 in L.iters:
            ws = [x for x in flat(evs, st.phis, (L,)) if x.kind == "mwrite"]
            r = self.iteration(st, L, ws, fin)
            if r is None:
                return
            tot.add(r)
        if len(tot) != 1:
            self.why = "iterations differ"
            return
        self.start, step, over = tot.pop()
        self.step = step
        self.over = L.over
        self.total = mksum(base_of(L.over), step) if L.over is not None else None
        if self.total is None:
            self.why = "loop over an unknown collection"

    def norm(self, path):
        """(prefix, start, end) of a path into a mapping"""
        i = next((i for i, p in enumerate(path) if p[0] == "s"), None)
        if i is None:
            return path, ZERO, None
        s, en = path[i][1].a
        rest = path[i + 1 :]
        for p in rest:
            if p[0] == "s":
                s, en = add(s, p[1].a[0]), add(s, p[1].a[1]) if p[1].a[1] is not None else en
        return path[:i], s, en

    def iteration(self, st, L, ws, fin):
        cursors = {}
        spans = []
        base = None
        for x in ws:
            root, path, cur = x.extra
            if cur:
                p, inner = cur[0]
                pre, s, en = self.norm(inner)
                n = piece_len(x.val)
                if en is None:
                    en = add(s, n)
                spans.append((s, en, n, x))
                cursors[p] = True
                if len(cur) > 1:
                    self.why = "cursor of a cursor"
                    return None
            else:
                pre, s, en = self.norm(path)
                n = piece_len(x.val)
                if en is None:
                    en = add(s, n)
                spans.append((s, en, n, x))
        if len(cursors) > 1:
            self.why = "several cursors"
            return None
        if cursors:
            (p,) = cursors
            init, _, loc = L.phis.get(next(l for l, (i, q) in L.phis.items() if q is p)) + (None,)
            _, s0, _ = self.norm(init.a[1]) if init.op == "ref" else (None, None, None)
            if s0 is None:
                self.why = "cursor start unknown"
                return None
            nxt = fin[next(l for l, (i, q) in L.phis.items() if q is p)]
            if nxt.op != "ref" or nxt.a[0] is not mk("D", p):
                self.why = "cursor does not advance within its slice"
                return None
            _, step, _ = self.norm(nxt.a[1])
            at0 = ZERO
            start = s0
        else:
            # offsets kept in an integer
            ints = [(q, i, l) for l, (i, q) in L.phis.items() if any(contains(sp[0], q) for sp in spans)]
            if len(ints) != 1:
                self.why = "offset of the writes unknown"
                return None
            q, i, l = ints[0]
            step = sub(fin[l], q)
            if contains(step, q):
                self.why = "offset does not advance by a step"
                return None
            at0 = None
            lo = [sp[0] for sp in spans]
            d0 = [sub(a, q) for a in lo]
            if any(contains(d, q) for d in d0):
                self.why = "offset of the writes unknown"
                return None
            spans = [(sub(a, q), sub(b, q), n, x) for a, b, n, x in spans]
            # the constant part common to all pieces belongs to the start
            start = i
            at0 = ZERO
            first = min(spans, key=lambda sp: lin(sp[0])[0]) if spans else None
            if first is not None and first[0] is not ZERO:
                start = add(i, first[0])
                spans = [(sub(a, first[0]), sub(b, first[0]), n, x) for a, b, n, x in spans]
        # contiguous cover of [0, step)
        pos = at0
        todo = list(spans)
        self.pieces = []
        while todo:
            nx = next((sp for sp in todo if sp[0] is pos), None)
            if nx is None:
                self.bad = f"bytes at {show(pos)} of an entry are not written, or written twice"
                self.why = None
                self.start = start
                self.total = None
                return None
            todo.remove(nx)
            if nx[2] is not sub(nx[1], nx[0]):
                self.bad = f"{show(nx[2])} bytes are put in a place of {show(sub(nx[1], nx[0]))}"
                return None
            self.pieces.append((nx[0], nx[3].val))
            pos = nx[1]
        if pos is not step:
            self.bad = f"an entry has {show(pos)} bytes but takes {show(step)}"
            return None
        return start, step, L.over

    bad = None
    over = None
    step = None

    def straight(self, st, W):
        spans = []
        for x in W:
            root, path, cur = x.extra
            pre, s, en = self.norm(path)
            n = piece_len(x.val)
            spans.append((s, add(s, n) if en is None else en, n, x))
        spans.sort(key=lambda sp: lin(sp[0])[0])
        pos = spans[0][0]
        self.start = pos
        for s, en, n, x in spans:
            if s is not pos:
                self.bad = f"bytes at {show(pos)} are not written, or written twice"
                return
            self.pieces.append((sub(s, self.start), x.val))
            pos = en
        self.total = sub(pos, self.start)
        self.step = self.total


@rule("F03", CR)
def bytes_written(R):
    """For every successful path of the appends of records and of index entries, the writes into the mapping are laid out symbolically: they must
    fill one gapless range, record by record in order and each record whole, starting where the storage ended; the range
    recorded as stored must be exactly that range. On the appending entry point, each index entry must be the place where its record was put: an
    offset that starts at the data's size read under the lock and advances by each record's length, and that length; the
    number returned must be the index's length read before."""
    n = 0
    for f, e, rs in pieces(R):
        w = where(f)
        recs = mk("*", mk("arg", f["params"][1]))
        for s, kind, v in rs:
            if kind != "ret" or e.variant_of(s, v) != "Ok":
                continue
            st = Step(f, e, s, v)
            if not st.writes:
                R.ob("writes", w, e.sign(s, length(recs)) <= frozenset("0"), f"success with nothing written\n{path_text(s, v)}")
                continue
            n += 1
            cv = Cover(st)
            if cv.why:
                R.ob("layout", w, True, cv.why, unknown=True)
                continue
            R.ob("layout", w, cv.bad is None, f"{cv.bad}\n{path_text(s, v)}")
            if cv.bad:
                continue
            full = cv.over is not None and base_of(cv.over) is recs and not any(x.op in ("irev", "itake", "iskip", "ifilter") for x in walk(cv.over))
            R.ob("every-record", w, full or not known_iter(cv.over), f"the loop does not write every record in order: {show(cv.over) if cv.over else ''}", unknown=not full and not known_iter(cv.over))
            for pos, val in cv.pieces:
                if is_num(val):
                    # decoded with the same order at the same places by the reader (see F10)
                    y = num_arg(val)
                    nm = next((t.a[0].split("::")[-1] for t in walk(val) if t.op == "call" and NUM.search(t.a[0])), "")
                    want = {0: "0", 8: "1"}.get(lin(pos)[0] if is_int(pos) else None)
                    src = y if y is not None else val
                    part_ = src.a[1] if src.op == "." else None
                    R.ob("entry-layout", w, nm == "to_le_bytes" and part_ is not None and part_ == want, f"byte {show(pos)} of an index entry holds {show(val)}\n{path_text(s, v)}", unknown=part_ is None)
            # the recorded bounds
            ends = [x for x in st.evs if x.kind == "push" and x.key is st.X and not is_adt_val(x.val)]
            end = pieces_end(s, st.X)
            good = [x for x in ends if x.val is add(cv.start, cv.total)]
            R.ob("recorded", w, bool(good), f"written [{show(cv.start)}, +{show(cv.total)}) but recorded {[show(x.val) for x in ends]}\n{path_text(s, v)}")
            pub = st.pubs
            R.ob("size", w, len(pub) == 1 and pub[0].val is add(pub[0].raw[2][0], cv.total), f"the size grows by {[show(sub(p.val, p.raw[2][0])) for p in pub]} but {show(cv.total)} was written\n{path_text(s, v)}")
    R.floor("successful writes", n, 4)
    f, e, rs = append_paths(R)
    w = where(f) if f else ""
    n = 0
    for s, kind, v in rs:
        if kind != "ret" or e.variant_of(s, v) != "Ok":
            continue
        evs = flat(s.events())
        phis = phis_of(s.events())
        idx = [x for x in evs if x.kind == "mwrite" and is_num(x.val)]
        if not idx:
            continue
        data = [x for x in evs if x.kind == "mwrite" and not is_num(x.val)]
        recs = mk("*", mk("arg", f["params"][1]))
        n += 1
        nums = []
        for x in idx:
            y = num_arg(x.val)
            nums.append(anyelem(recs, y) if y is not None else None)
        if len(nums) != 2 or None in nums:
            R.ob("entry", w, True, f"{len(nums)} numbers per entry", unknown=True)
            continue
        el = mk("*", mk("elem", recs, ANY))
        lens = [y for y in nums if y is length(el)]
        offs = [y for y in nums if y is not length(el)]
        R.ob("entry-length", w, len(lens) == 1 or not understood(nums, phis), f"an entry holds {[show(y) for y in nums]}, not its record's length\n{path_text(s, v)}", unknown=len(lens) != 1 and not understood(nums, phis))
        if len(lens) != 1:
            continue
        o = offs[0]
        size = [x for x in evs if x.kind == "load" and data and same_store(data[0].key, x.key)]
        # an offset phi + constant: constant must be nil
        ph = [t for t in walk(o) if t.op == "phi"]
        if len(ph) != 1 or ph[0] not in phis:
            R.ob("entry-offset", w, bool(ph) or not understood(nums, phis), f"the offset is {show(o)}\n{path_text(s, v)}", unknown=bool(ph) or not understood(nums, phis))
            continue
        init, L, loc = phis[ph[0]]
        steps = {anyelem(recs, sub(fin[loc], ph[0])) for _, fin, _ in L.iters}
        okk = o is ph[0] and any(init is x.raw[2][0] for x in size) and steps == {length(el)} and L.over is not None and base_of(L.over) is recs
        R.ob("entry-offset", w, okk, f"an entry's offset starts at {show(init)} and advances by {[show(x) for x in steps]}; as recorded: {show(o)}\n{path_text(s, v)}")
        r = payload(v, "Ok")
        r = payload(r, "Some") if e.variant_of(s, r) == "Some" else r
        ild = [x for x in evs if x.kind == "load" and same_store(idx[0].key, x.key)]
        good = any(r is div(x.raw[2][0], c(16)) for x in ild)
        R.ob("number", w, good, f"the number returned is {show(r)}\n{path_text(s, v)}", unknown=not good and any(t.op in ("sel", "res") for t in walk(r)))
    R.floor("entry layouts", n, 1)


def known_iter(it):
    return it is not None and not any(x.op in ("phi", "res", "call") for x in walk(it))


def understood(ts, phis):
    return all(not any(x.op in ("sel", "res") or (x.op == "phi" and x not in phis) for x in walk(t)) for t in ts if t is not None)


def is_adt_val(v):
    return v.op in ("adt", "upd")


def num_arg(v):
    ts = [x for x in walk(v) if x.op == "call" and NUM.search(x.a[0])]
    return ts[0].a[1][0] if len(ts) == 1 else None


@rule("F04", CR)
def durable_before_published(R):
    """On every path of the two appends, whatever was written into the mapping must be flushed synchronously, with the flush's success established, before
    the new end is recorded, the new size is published or success is reported; nothing is recorded or published on a path
    that fails."""
    n = 0
    for f, e, rs in pieces(R):
        w = where(f)
        for s, kind, v in rs:
            if kind != "ret":
                continue
            k = e.variant_of(s, v)
            dirty, flushed, pend = False, False, None
            wrote = False
            evs = flat(s.events())
            for x in evs:
                if x.kind == "mwrite":
                    dirty, wrote = True, True
                elif x.kind == "flush":
                    pend = x
                elif x.kind == "is" and pend is not None and x.key is pend.val:
                    if x.val == "Ok":
                        dirty = False
                    pend = None
                elif x.kind == "pub":
                    R.ob("published-durable", w, wrote and not dirty, f"the size is published before the data was flushed\n{path_text(s, v)}")
                    R.ob("published-success", w, k == "Ok", f"a failing append publishes a size\n{path_text(s, v)}")
                elif x.kind == "push" and not is_adt_val(x.val) and not fresh_bounds(x):
                    R.ob("recorded-durable", w, wrote and not dirty, f"an end is recorded before the data was flushed\n{path_text(s, v)}")
                    R.ob("recorded-success", w, k == "Ok", f"a failing append records an end\n{path_text(s, v)}")
            if k == "Ok" and wrote:
                n += 1
                R.ob("success-durable", w, not dirty, f"success is reported before the data was flushed\n{path_text(s, v)}")
    R.floor("successful writes", n, 4)


def fresh_bounds(x):
    """bounds of a mapping over what is stored already"""
    root, path, _ = x.extra
    return not any(p[1] == "active_map" for p in path if p[0] == "f")
