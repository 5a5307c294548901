"""Rules over fraos: reopening, iterating, delegating."""

from core import *
from rules import rule
from rules_core import outcomes, final, is_adt
from rules_fraos import *
from rules_fraos2 import G, known_storage, mapped
from rules_fraos3 import settle
from models import NONE as NONE_

Q = "seqno::SeqNoIndex"
GOL = r"get_offset_and_length$"
ENTRY = 16


def new_res(t, suffix):
    """the outermost result of a named function inside a term"""
    for x in walk(t):
        if x.op == "res" and x.a[0].endswith(suffix):
            return x
    return None


def at_field(s, e, v, *names):
    """a field of a value behind owning boxes and cells"""
    for n in names:
        v = unboxed(v)
        v = field(v, n)
    return unboxed(v)


def unboxed(v):
    while True:
        if v.op == "box":
            v = v.a[0]
        elif v.op == "adt" and v.a[0].endswith("UnsafeCell"):
            v = field(v, "value")
        elif v.op == "call" and re.search(r"Atomic\w*::(new|from)$|::from$", v.a[0]) and len(v.a[1]) == 1:
            v = v.a[1][0]
        else:
            return v


@rule("F12", CR)
def reopening(R):
    """Opening is followed path by path. The storage opened over a file must begin with exactly the part of the file asked for, mapped at its own position, and say its length (decided by running the
    length query on each outcome); a part longer than the file is refused. A database opened must have an index whose size is a whole number of entries and whose last entry is not empty - or cut at the end the search
    found -, and data that end where the last entry's record ends; the search's result must be proved to separate entries in use from empty ones, with loop invariants found over its own reads."""
    storage(R)
    appender(R)
    database(R)
    search(R)


def storage(R):
    f, ln = part(R, G, "new"), part(R, G, "len")
    if not f or not ln:
        return
    w = where(f)
    if not known_storage(R) or len(f["params"]) != 2:
        R.undecided(w, "the storage has another layout")
        return
    file, ex = (mk("arg", p) for p in f["params"])
    e, rs = R.run(f)
    n = 0
    for s, kind, v in rs or []:
        if kind != "ret":
            continue
        fv, xv = e.variant_of(s, file), e.variant_of(s, ex)
        if e.variant_of(s, v) == "Err":
            flen = [x[3] for x in s.events() if x[0] == "call" and "metadata" in x[1]]
            too_long = xv == "Some" and flen and any(k[0] == "s" and contains(k[1], payload(ex, "Some")) for k in s.facts) and e.sign(s, sub(payload(ex, "Some"), flength(s))) <= frozenset("+")
            failed = any(x[0] == "is" and x[2] == "Err" for x in s.events())
            R.ob("refusal", w, bool(too_long or failed), f"opening fails with no reason\n{path_text(s, v)}", unknown=not failed and not flen)
            continue
        if e.variant_of(s, v) != "Ok":
            continue
        n += 1
        g = payload(v, "Ok")
        want = ZERO
        if fv == "Some":
            want = payload(ex, "Some") if xv == "Some" else flength(s)
        elif fv is None:
            R.ob("length", w, True, "the file is not looked at", unknown=True)
            continue
        if want is None:
            R.ob("length", w, xv is not None, f"the file's length is not read\n{path_text(s, v)}", unknown=True)
            continue
        st = s.fork()
        p = mk("tmpref", g)
        st.mem[mk("D", p)] = g
        for s1, k1, v1 in e.after(st, ln, [mk("ref", mk("D", p), ())]):
            if k1 == "ret" and e.variant_of(s1, v1) == "Ok":
                d = sub(payload(v1, "Ok"), want)
                R.ob("length", w, e.sign(s, d) <= frozenset("0"), f"opened over {show(want)} bytes, the storage says {show(payload(v1, 'Ok'))}\n{path_text(s, v)}")
        if fv == "Some" and xv == "Some" and e.sign(s, payload(ex, "Some")) != frozenset("0"):
            d = sub(payload(ex, "Some"), flength(s)) if flength(s) is not None else None
            R.ob("not-longer", w, d is not None and e.sign(s, d) <= frozenset("-0"), f"more than the file holds is accepted\n{path_text(s, v)}", unknown=d is None)
        sg = e.sign(s, want)
        inn = at_field(s, e, g, "storage")
        inn = inn.a[1][0] if inn.op == "call" else inn
        maps = field(field(inn, "inactive_mmaps"), "maps")
        if sg <= frozenset("0"):
            continue
        one = maps.op == "push" and maps.a[0].op == "empty"
        if not one:
            R.ob("mapping", w, maps.op != "empty", f"nothing is mapped\n{path_text(s, v)}", unknown=maps.op != "empty")
            continue
        src, lo, hi = mapped(maps.a[1])
        opts = src.a[2][0] if src is not None and src.op == "res" and src.a[2] else None
        if opts is None or opts.op not in ("adt", "upd"):
            R.ob("mapping", w, True, f"mapping of unknown origin {show(src)[:120] if src is not None else ''}", unknown=True)
            continue
        off, size = field(opts, "offset"), field(opts, "len")
        R.ob("mapping", w, off is ZERO and e.sign(s, sub(size, want)) <= frozenset("0") and src.a[2][1] is payload(file, "Some"), f"bytes {show(off)}.. {show(size)} of {show(src.a[2][1])} are mapped\n{path_text(s, v)}")
    R.floor("ways a storage opens", n, 5)


def flength(s):
    for x in s.events():
        if x[0] == "call" and "metadata" in x[1]:
            return mk("call", "std::fs::Metadata::len", (payload(x[3], "Ok"),))
    return None


def appender(R):
    f = part(R, "appender::Appender", "new")
    if not f:
        return
    w = where(f)
    if len(f["params"]) != 3:
        R.undecided(w, "other parameters")
        return
    path, ex, wr = (mk("arg", p) for p in f["params"])
    e, rs = R.run(f, opaque=(r"growable_mmap::GrowableMmap::(new|len)$",))
    n = 0
    for s, kind, v in rs or []:
        if kind != "ret" or e.variant_of(s, v) != "Ok":
            continue
        a = payload(v, "Ok")
        m, size = at_field(s, e, a, "mmap"), at_field(s, e, a, "actual_size")
        nr = m.a[0].a[0] if m.op == "." and m.a[0].op == "as" else None
        if nr is None or nr.op != "res":
            R.ob("opened", w, True, f"storage of unknown origin {show(m)}", unknown=True)
            continue
        n += 1
        file, got = nr.a[2][0], nr.a[2][1]
        R.ob("part-passed", w, got is ex, f"the storage is opened over {show(got)}, not {show(ex)}\n{path_text(s, v)}", unknown=got is not ex and got.op not in ("adt", "arg"))
        ll = new_res(size, "GrowableMmap::len")
        R.ob("size", w, ll is not None and size is payload(ll, "Ok") and ll.a[2][0] is m, f"the size starts at {show(size)}\n{path_text(s, v)}")
        if e.variant_of(s, path) == "Some":
            o = new_res(file, "::open")
            if o is None:
                R.ob("file", w, e.variant_of(s, file) != "None", f"the file is not opened\n{path_text(s, v)}", unknown=True)
                continue
            R.ob("file", w, o.a[2][1] is payload(path, "Some"), f"{show(o.a[2][1])} is opened\n{path_text(s, v)}")
            opts = {}
            for x in s.events():
                if x[0] == "call" and "OpenOptions::" in x[1] and len(x[2]) == 2 and x[1].split("::")[-1] != "open":
                    opts[x[1].split("::")[-1]] = x[2][1]
            R.ob("read", w, opts.get("read") is TRUE, f"opened without reading\n{path_text(s, v)}")
            R.ob("kept", w, all(k in ("read", "write", "create", "mode", "custom_flags") or x is FALSE for k, x in opts.items()), f"opened with {sorted(opts)}\n{path_text(s, v)}")
            for k in ("write", "create"):
                x = opts.get(k, FALSE)
                want = e.truth(s, wr)
                R.ob(k, w, x is wr or (want is not None and x is c_bool(want)), f"{k} is {show(x)}\n{path_text(s, v)}", unknown=want is None and x is not wr)
    R.floor("ways a file opens", n, 3)


def c_bool(b):
    return TRUE if b else FALSE


def database(R):
    f = dbm(R, "new")
    if not f:
        return
    w = where(f)
    e, rs = R.run(f, opaque=(r"growable_mmap::", r"find_actual_end$", GOL), apart=(r"seqno::SeqNoIndex::\w+$",))
    n = m = 0
    for s, kind, v in rs or []:
        if kind != "ret" or e.variant_of(s, v) != "Ok":
            continue
        d = payload(v, "Ok")
        dm = at_field(s, e, d, "flatfile", "inner", "mmap")
        im = at_field(s, e, d, "seqno_index", "inner", "mmap")
        isz = at_field(s, e, d, "seqno_index", "inner", "actual_size")
        dr = dm.a[0].a[0] if dm.op == "." and dm.a[0].op == "as" else None
        ir = im.a[0].a[0] if im.op == "." and im.a[0].op == "as" else None
        if not dr or not ir or dr.op != "res" or ir.op != "res":
            R.ob("opened", w, True, "a storage of unknown origin", unknown=True)
            continue
        n += 1
        R.ob("two-files", w, not same_origin(dr.a[2][0], ir.a[2][0]), f"data and index are opened over {show(dr.a[2][0])}\n{path_text(s, v)}")
        rem = mk("rem", isz, c(ENTRY))
        whole = e.sign(s, rem)
        R.ob("whole-entries", w, whole <= frozenset("0"), f"an index that is not a whole number of entries is accepted\n{path_text(s, v)}", unknown=not whole <= frozenset("0") and any(t.op not in ("rem", "div") and contains(t, isz) for k in s.facts if k[0] == "s" for t in lin(k[1])[1] if t is not isz))
        cnt = div(isz, c(ENTRY))
        idx = at_field(s, e, d, "seqno_index")
        reads = [x for x in s.events() if x[0] == "call" and re.search(GOL, x[1])]
        last = [x for x in reads if unboxed(x[2][0]) is idx and e.sign(s, sub(x[2][1], sub(cnt, c(1)))) <= frozenset("0")]
        # data
        got = dr.a[2][1]
        if e.variant_of(s, got) != "Some":
            R.ob("data-end", w, False, f"the data are opened without an end: {show(got)}\n{path_text(s, v)}", unknown=got.op not in ("adt", "none"))
        else:
            x = payload(got, "Some")
            okk = x is ZERO and (e.sign(s, cnt) <= frozenset("0") or any(absent(e, s, y[3]) for y in last))
            for y in last:
                p = payload(payload(y[3], "Ok"), "Some")
                okk = okk or x is add(field(p, "0"), field(p, "1"))
            R.ob("data-end", w, okk, f"the data are said to end at {show(x)}\n{path_text(s, v)}")
        # index
        cut = ir.a[2][1]
        cv = e.variant_of(s, cut)
        if cv == "None":
            m += 1
            zero = e.sign(s, cnt) <= frozenset("0")
            used = any(absent(e, s, y[3]) or e.sign(s, field(payload(payload(y[3], "Ok"), "Some"), "1")) <= frozenset("+") for y in reads if same_map(y[2][0], im, e, s) and e.sign(s, sub(y[2][1], sub(cnt, c(1)))) <= frozenset("0"))
            R.ob("index-end", w, zero or used, f"an index that may end in empty entries is opened whole\n{path_text(s, v)}")
        elif cv == "Some":
            m += 1
            t = payload(cut, "Some")
            fr = new_res(t, "find_actual_end")
            R.ob("index-end", w, fr is not None and t is scale(payload(fr, "Ok"), ENTRY), f"the index is cut at {show(t)}\n{path_text(s, v)}", unknown=fr is None and t.op != "int")
            if fr is not None:
                prev = unboxed(fr.a[2][0])
                pm = at_field(s, e, prev, "inner", "mmap")
                pr = pm.a[0].a[0] if pm.op == "." and pm.a[0].op == "as" else None
                if pr is not None and pr.op == "res":
                    R.ob("searched-whole", w, e.variant_of(s, pr.a[2][1]) == "None" and same_path(pr.a[2][0], ir.a[2][0]), f"the search is over {show(pr.a[2][1])} of {show(pr.a[2][0])}\n{path_text(s, v)}")
    R.floor("ways a database opens", n, 6)
    R.floor("ways an index opens", m, 6)


def same_map(idx, im, e, s):
    return at_field(s, e, unboxed(idx), "inner", "mmap") is im


def absent(e, s, g):
    return e.variant_of(s, payload(g, "Ok")) == "None"


def opened_path(x):
    o = new_res(x, "::open")
    return o.a[2][1] if o is not None else None


def same_path(a, b):
    return opened_path(a) is opened_path(b)


def same_origin(a, b):
    p, q = opened_path(a), opened_path(b)
    return p is not None and p is q


# ------------------------------------------------------------------ the end of an index


def reads_in(evs):
    """(position, length of the entry there) of the reads among events"""
    r = []
    for x in evs:
        if x[0] == "call" and re.search(GOL, x[1]):
            r.append((x[2][1], field(payload(payload(x[3], "Ok"), "Some"), "1")))
    return r


class Evidence:
    def __init__(self, e, s, reads, n, inv=()):
        self.e, self.s, self.reads, self.n, self.inv = e, s, reads, n, inv

    def same(self, a, b):
        return self.e.sign(self.s, sub(a, b)) <= frozenset("0")

    def before(self, a, b):
        """a is at most b"""
        return a is b or self.e.sign(self.s, sub(b, a)) <= frozenset("0+")

    def holds(self, what, t):
        """entries up to t are in use ("nz") / from t on are empty ("z")"""
        sg = frozenset("+") if what == "nz" else frozenset("0")
        if what == "nz" and self.same(t, c(-1)):
            return True
        if what == "z" and self.same(t, self.n):
            return True
        for i, l in self.reads:
            if self.e.sign(self.s, l) <= sg and (self.before(t, i) if what == "nz" else self.before(i, t)):
                return True
        for w, p, k in self.inv:
            if w == what and (self.before(t, add(p, c(k))) if what == "nz" else self.before(add(p, c(k)), t)):
                return True
        return False

    def against(self, what, t):
        """the entry at t is known to be the other way"""
        sg = frozenset("0") if what == "nz" else frozenset("+")
        return any(self.same(i, t) and self.e.sign(self.s, l) <= sg for i, l in self.reads)


def search(R):
    fs = [f for f in R.prog.method(Q, "find_actual_end", crate=CR) if "body" in f]
    if len(fs) != 1:
        R.undecided("fraos::seqno", "no single search for the end")
        return
    f = fs[0]
    w = where(f)
    e, rs = R.run(f, opaque=(GOL,))
    n = 0
    lenf = [g for g in R.prog.method(Q, "len", crate=CR) if "body" in g]
    for s, kind, v in rs or []:
        if kind != "ret" or e.variant_of(s, v) != "Ok":
            continue
        n += 1
        r = payload(v, "Ok")
        evs = s.events()
        loops = [x[1] for x in evs if x[0] == "loop"]
        flatr = reads_in(evs)
        cnt = [v1 for s1, k1, v1 in e.after(s, lenf[0], [mk("arg", "self")]) if k1 == "ret"] if lenf else []
        if len(set(cnt)) != 1:
            R.ob("end", w, True, "the number of entries is unknown", unknown=True)
            continue
        N = cnt[0]
        inv = set()
        if loops:
            L = loops[-1]
            cand = {(a, p, k) for _, (i, p) in L.phis.items() for a in ("nz", "z") for k in (-1, 0, 1)}
            before = Evidence(e, s, reads_in(evs[: [i for i, x in enumerate(evs) if x[0] == "loop"][-1]]), N)
            init = {p: i for _, (i, p) in L.phis.items()}
            loc = {p: l for l, (_, p) in L.phis.items()}
            inv = {x for x in cand if before.holds(x[0], add(init[x[1]], c(x[2])))}
            while True:
                gone = set()
                for ie, fin, ist in L.iters:
                    ev = Evidence(e, ist, reads_in(ie) + before.reads, N, inv)
                    for x in inv:
                        if not ev.holds(x[0], add(fin[loc[x[1]]], c(x[2]))):
                            gone.add(x)
                if not gone:
                    break
                inv -= gone
        ev = Evidence(e, s, flatr, N, inv)
        lo, hi = ev.holds("nz", sub(r, c(1))), ev.holds("z", r)
        # an index with no entry at all has nothing to say
        if e.sign(s, N) <= frozenset("0") and r is ZERO:
            lo = hi = True
        wrong = ev.against("nz", sub(r, c(1))) or ev.against("z", r)
        seen = bool(flatr) and all(x.op in ("phi", "div", "res", ".", "as", "arg", "*", "satsub", "int", "rel") or True for x in walk(r))
        R.ob("end-in-use", w, lo, f"the entry before the end {show(r)} is not known to be in use\n{path_text(s, v)}", unknown=not lo and not wrong and not seen)
        R.ob("end-empty", w, hi, f"the entry at the end {show(r)} is not known to be empty\n{path_text(s, v)}", unknown=not hi and not wrong and not seen)
    R.floor("ends found", n, 2)


# ------------------------------------------------------------------ iterating


@rule("F14", CR)
def iterating(R):
    """The iterator's step is enumerated path by path with the two files opaque: the record it yields must be read at the place the index gives for its current number, a yielded record must move
    it to the next number, and an end or an error must leave it. The database's other entry points are reduced to the ones decided elsewhere: same files, same records, the number asked for, the last number."""
    step(R)
    entry_points(R)


def step(R):
    fs = [f for f in R.prog.fns.values() if f["crate"] == CR and f.get("name") == "next" and "SeqNoIter" in f["path"] and "body" in f]
    if len(fs) != 1:
        R.undecided("fraos::seqno_iter", "no single step")
        return
    f = fs[0]
    w = where(f)
    me = mk("*", mk("arg", "self"))
    cur = field(me, "seqno")
    e, rs = R.run(f, opaque=(r"seqno::SeqNoIndex::", r"flatfile::FlatFile::"))
    n = 0
    for s, kind, v in rs or []:
        if kind != "ret":
            continue
        fin = final(s, f, e)
        nxt = field(fin, "seqno")
        reads = [x for x in s.events() if x[0] == "call" and re.search(GOL, x[1])]
        recs = [x for x in s.events() if x[0] == "call" and x[1].endswith("get_record_at_offset")]
        same = field(fin, "data") is field(me, "data") and field(fin, "index") is field(me, "index")
        R.ob("same-files", w, same, f"a step changes the files\n{path_text(s, v)}")
        kind_ = e.variant_of(s, v)
        res = e.variant_of(s, payload(v, "Some")) if kind_ == "Some" else None
        for x in reads:
            R.ob("number", w, x[2][1] is cur and on(x[2][0], field(me, "index")), f"entry {show(x[2][1])} is read\n{path_text(s, v)}")
        for x in recs:
            p = [payload(payload(y[3], "Ok"), "Some") for y in reads]
            okk = any(x[2][1] is field(q, "0") and x[2][2] is field(q, "1") for q in p) and on(x[2][0], field(me, "data"))
            R.ob("place", w, okk, f"the record is read at {show(x[2][1])[:200]}, {show(x[2][2])[:200]}\n{path_text(s, v)}")
        if kind_ == "Some" and res == "Ok":
            n += 1
            got = payload(payload(v, "Some"), "Ok")
            okk = any(got is payload(payload(x[3], "Ok"), "Some") for x in recs)
            R.ob("record", w, okk, f"{show(got)} is yielded\n{path_text(s, v)}", unknown=not okk and not reads)
            R.ob("advance", w, nxt is add(cur, c(1)), f"after a record the iterator is at {show(nxt)}\n{path_text(s, v)}")
        elif kind_ == "Some" and res == "Err":
            failed = any(e.variant_of(s, x[3]) == "Err" for x in reads + recs)
            R.ob("error", w, failed, f"an error with no failure\n{path_text(s, v)}")
            R.ob("stay", w, nxt is cur, f"after an error the iterator is at {show(nxt)}\n{path_text(s, v)}")
        elif kind_ == "None":
            gone = any(e.variant_of(s, payload(x[3], "Ok")) == "None" for x in reads + recs)
            R.ob("end", w, gone, f"the iteration ends although a record is there\n{path_text(s, v)}", unknown=not reads)
            if not recs:
                R.ob("stay", w, nxt is cur, f"at the end the iterator is at {show(nxt)}: a record appended later is skipped or read twice\n{path_text(s, v)}")
    R.floor("yielding paths", n, 1)


def on(a, b):
    """an object and a shared handle to it"""
    while a.op in ("*", "box"):
        a = a.a[0]
    while b.op in ("*", "box"):
        b = b.a[0]
    return a is b


def entry_points(R):
    me = mk("*", mk("arg", "self"))
    # the iterator
    f = dbm(R, "iter_from_seqno")
    if f:
        w = where(f)
        e, rs = R.run(f)
        for s, kind, v in rs or []:
            if kind == "ret" and e.variant_of(s, v) == "Some":
                it = payload(v, "Some")
                R.ob("start", w, field(it, "seqno") is mk("arg", f["params"][1]), f"an iteration starts at {show(field(it, 'seqno'))}\n{path_text(s, v)}")
                R.ob("shares", w, on(field(it, "data"), field(me, "flatfile")) and on(field(it, "index"), field(me, "seqno_index")), f"an iteration is over {show(it)[:200]}\n{path_text(s, v)}", unknown=it.op not in ("adt", "upd"))
            elif kind == "ret":
                R.ob("start", w, False, f"no iteration\n{path_text(s, v)}")
    # the length
    f = dbm(R, "len")
    if f:
        w = where(f)
        e, rs = R.run(f)
        for s, kind, v in rs or []:
            if kind == "ret":
                ld = [x for x in s.events() if x[0] == "call" and x[1].endswith("::load")]
                okk = any(v is div(x[3], c(ENTRY)) or v is div(x[2][0], c(ENTRY)) for x in ld) and "seqno_index" in show(v) and "flatfile" not in show(v)
                R.ob("length", w, okk, f"the number of records is {show(v)}\n{path_text(s, v)}", unknown=not ld)
    f = dbm(R, "is_empty")
    if f:
        w = where(f)
        e, rs = R.run(f, opaque=(r"database::Database::len$",))
        for s, kind, v in rs or []:
            n = new_res(v, "::len")
            if kind == "ret":
                n = n or next((x[3] for x in s.events() if x[0] == "call" and x[1].endswith("Database::len")), None)
                if n is None:
                    R.ob("empty", w, True, "decided otherwise", unknown=True)
                else:
                    t = e.truth(s, v)
                    okk = v is rel(n, "=", ZERO) or v is rel(n, "<", c(1)) or v is rel(n, "<=", ZERO) or (t is not None and (e.sign(s, n) == frozenset("0") if t else e.sign(s, n) == frozenset("+")))
                    R.ob("empty", w, okk, f"empty means {show(v)}\n{path_text(s, v)}")
    f = dbm(R, "last")
    if f:
        w = where(f)
        e, rs = R.run(f, opaque=(r"database::Database::(len|get_by_seqno)$",))
        n = 0
        for s, kind, v in rs or []:
            if kind != "ret":
                continue
            gs = [x for x in s.events() if x[0] == "call" and x[1].endswith("get_by_seqno")]
            ls = [x[3] for x in s.events() if x[0] == "call" and x[1].endswith("Database::len")]
            if gs:
                n += 1
                x = gs[-1]
                okk = v is x[3] and any(e.sign(s, sub(x[2][1], sub(l, c(1)))) <= frozenset("0") or x[2][1] is mk("satsub", l, c(1)) for l in ls)
                R.ob("last", w, okk, f"the last record is number {show(x[2][1])}\n{path_text(s, v)}", unknown=not ls)
            elif e.variant_of(s, v) == "Ok" and e.variant_of(s, payload(v, "Ok")) == "None":
                R.ob("none-last", w, any(e.sign(s, l) <= frozenset("0") for l in ls), f"no last record although the database is not empty\n{path_text(s, v)}", unknown=not ls)
            else:
                R.ob("last", w, True, "decided otherwise", unknown=True)
        R.floor("paths of last", n, 1)
    for name in ("append", "put", "put_seqno"):
        f = dbm(R, name)
        if not f:
            continue
        w = where(f)
        e, rs = R.run(f, opaque=(r"database::Database::append_get_seqno$",))
        arg = mk("arg", f["params"][1])
        n = 0
        for s, kind, v in rs or []:
            if kind != "ret":
                continue
            cs = [x for x in s.events() if x[0] == "call" and x[1].endswith("append_get_seqno")]
            if len(cs) != 1:
                R.ob("appends-once", w, e.variant_of(s, v) == "Err" and not cs, f"{len(cs)} appends\n{path_text(s, v)}", unknown=not cs)
                continue
            n += 1
            x = cs[0]
            given = x[2][1]
            if given.op == "ref":
                given = s.mem.get(given.a[0], given)
            okk = same_list(e, s, x, arg, name)
            R.ob("same-records", w, okk, f"{show(x[2][1])[:200]} is appended\n{path_text(s, v)}", unknown=okk is None)
            ok_ = e.variant_of(s, v)
            r = e.variant_of(s, x[3])
            if ok_ == "Ok":
                R.ob("success", w, r == "Ok", f"success reported for {show(x[3])}\n{path_text(s, v)}", unknown=r is None)
            if ok_ == "Ok" and name == "put_seqno":
                R.ob("number", w, payload(v, "Ok") is payload(payload(x[3], "Ok"), "Some"), f"number {show(payload(v, 'Ok'))} is returned\n{path_text(s, v)}")
        R.floor(f"appends through {name}", n, 2)


def same_list(e, s, x, arg, name):
    g = x[2][1]
    if name == "append":
        return g is mk("*", arg) or g is arg
    t = g
    if t.op in ("list", "array", "arr", "tuple") and len(t.a[0] if isinstance(t.a[0], tuple) else t.a) == 1:
        y = (t.a[0] if isinstance(t.a[0], tuple) else t.a)[0]
        return y is arg or y is mk("*", arg)
    r = [y for y in walk(t) if y.op == "arg"]
    return None if t.op not in ("push", "empty") else (t.op == "push" and t.a[0].op == "empty" and (t.a[1] is arg or t.a[1] is mk("*", arg)))
