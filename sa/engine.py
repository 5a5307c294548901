"""Path-sensitive dataflow over MIR control-flow graphs.

The state is a map from abstract places to value numbers (terms.py), the branch facts known on the
path, and the trace of effects. Local callees and closures are analysed in the calling context; loops
are summarised: every place written in the loop is widened to a fresh value at its head, the body is
analysed once from there, and its paths are kept as the loop's summary. No code of the repository is
executed and no solver is used: branches are pruned only by a fact recorded earlier on the same path."""

import re

from terms import *


def norm(s):
    """callee path without generic arguments"""
    o, d, i = [], 0, 0
    while i < len(s):
        if s.startswith("::<", i) and d == 0:
            j, e = i + 2, 0
            while j < len(s):
                if s[j] == "<":
                    e += 1
                elif s[j] == ">" and s[j - 1] != "-":
                    e -= 1
                    if e == 0:
                        break
                j += 1
            i = j + 1
            continue
        o.append(s[i])
        i += 1
    return "".join(o)


def straighten(body):
    """An async body as it was written: what it keeps across an await becomes a local again, and only its first state is entered. A future that is awaited is taken to be ready (see
    poll), so the other states are not reached."""
    b0 = body["blocks"][0]
    t = b0["t"]
    if t["t"] != "switch":
        return
    d = [x for x in b0["s"] if isinstance(x.get("v"), dict) and x["v"].get("r") == "discr" and len(x["v"]["p"]) == 2 and x["v"]["p"][1] == ["*"]]
    if not d:
        return
    me = d[-1]["v"]["p"][0]
    first = [y for k, y in t["cases"] if k == "0"]
    if not first or not any(x.get("d") == [me] and x["v"].get("r") == "use" and x["v"]["o"].get("p") == [1, ["f", "pointer"]] for x in b0["s"]):
        return
    kept = {}

    def place(p):
        if p[0] == me and len(p) > 3 and p[1] == ["*"] and p[2][0] == "v" and p[3][0] == "f":
            k = (p[2][1], p[3][1])
            if k not in kept:
                kept[k] = len(body["locals"])
                body["locals"].append({"s": "?"})
            return [kept[k]] + p[4:]
        return p

    def go(x):
        if isinstance(x, dict):
            return {k: (place(go(v)) if k in ("p", "d", "dest") and isinstance(v, list) and v and isinstance(v[0], int) else go(v)) for k, v in x.items()}
        if isinstance(x, list):
            return [go(y) for y in x]
        return x

    bl = []
    for b in body["blocks"]:
        b["s"] = [x for x in b["s"] if not ("setv" in x and x["d"] == [me, ["*"]])]
        for x in b["s"]:
            if x.get("d") == [me]:
                x["v"]["o"]["p"] = [1]
        bl.append(go(b))
    bl[0]["s"] = [x for x in bl[0]["s"] if not (x.get("d") == d[-1]["d"])]
    bl[0]["t"] = {"t": "goto", "to": first[0], "at": t["at"]}
    body["blocks"] = bl
    return True


class Program:
    def __init__(self, facts):
        self.fns, self.adts, self.impls = {}, {}, []
        self.crates = [k for k in facts if not k.startswith("_")]
        for k in self.crates:
            for f in facts[k]["fns"]:
                f["crate"] = k
                self.fns[f["id"]] = f
                if f["kind"] == "Closure" and "body" in f:
                    f["coroutine"] = straighten(f["body"])
            for a in facts[k]["adts"]:
                a["crate"] = k
                self.adts[a["id"]] = a
            for i in facts[k]["impls"]:
                i["crate"] = k
                self.impls.append(i)
        self.dropimpl = {
            i["self"].get("adt"): dict(i["items"]).get("drop")
            for i in self.impls
            if i.get("trait") == "std::ops::Drop"
        }
        self._loops = {}

    def find(self, path=None, **kw):
        """functions by printed path suffix / fields"""
        r = []
        for f in self.fns.values():
            if path is not None:
                p = f["path"]
                if not (p == path or p.endswith("::" + path)):
                    continue
            if all(f.get(k) == v for k, v in kw.items()):
                r.append(f)
        return r

    def method(self, selfadt, name, trait=None, crate=None):
        """functions `name` in impls of the ADT whose id ends with selfadt"""
        r = []
        for f in self.fns.values():
            if f.get("name") != name or "self" not in f:
                continue
            a = f["self"].get("adt", "")
            if not (a == selfadt or a.endswith("::" + selfadt)):
                continue
            t = f.get("trait")
            if trait is None and t is not None:
                continue
            if trait is not None and (t is None or not (t == trait or t.endswith("::" + trait))):
                continue
            if crate and f["crate"] != crate:
                continue
            r.append(f)
        return r

    def loops(self, fid, body):
        k = (fid, id(body))
        if k in self._loops:
            return self._loops[k]
        bl = body["blocks"]

        def succ(b):
            t = bl[b]["t"]
            x = t["t"]
            if x in ("goto", "drop", "assert", "yield"):
                return [t["to"]]
            if x == "call":
                return [t["to"]] if t["to"] is not None else []
            if x == "switch":
                return [y for _, y in t["cases"]] + [t["else"]]
            return []

        # natural loops by DFS back edges (MIR of structured code is reducible)
        n = len(bl)
        state = [0] * n
        back = []
        stack = [(0, iter(succ(0)))]
        state[0] = 1
        while stack:
            b, it = stack[-1]
            for x in it:
                if state[x] == 0:
                    state[x] = 1
                    stack.append((x, iter(succ(x))))
                    break
                if state[x] == 1:
                    back.append((b, x))
            else:
                state[b] = 2
                stack.pop()
        pred = [[] for _ in range(n)]
        for b in range(n):
            for x in succ(b):
                pred[x].append(b)
        heads = {}
        for b, h in back:
            s = heads.setdefault(h, {h})
            w = [b]
            while w:
                x = w.pop()
                if x not in s:
                    s.add(x)
                    w.extend(pred[x])
        self._loops[k] = heads
        return heads


class Loop:
    """summary of a loop: its continuing paths"""

    def __init__(self, key, at):
        self.key, self.at = key, at
        self.iters = []  # [(trace entries, {place: final term}, state)]
        self.phis = {}  # (root, path) -> (initial term, phi)
        self.over = None  # what a `next` at its head draws from
        self.closed = {}  # phi -> closed form at exhaustion

    def __repr__(self):
        return f"loop@{self.at}[{len(self.iters)}]"


class Explosion(Exception):
    pass


class State:
    __slots__ = ("mem", "facts", "trace", "stack", "notes")

    def __init__(self):
        self.mem, self.facts, self.trace, self.stack = {}, {}, None, ()
        self.notes = {}

    def fork(self):
        s = State()
        s.mem, s.facts, s.trace, s.stack = dict(self.mem), dict(self.facts), self.trace, self.stack
        s.notes = dict(self.notes)
        return s

    def log(self, *e):
        self.trace = (self.trace, e)

    def events(self, since=None):
        r = []
        t = self.trace
        while t is not None and t is not since:
            t, e = t
            r.append(e)
        r.reverse()
        return r


EFFECTFUL = re.compile(
    r"^(memmap2::|sled::|std::fs::|std::io::|std::sync::|parking_lot|lock_api|std::cell::|rand::|std::time::|"
    r"tokio::|cardano_net::|std::process|std::thread|std::ptr::(write|copy)|tracing::|log::)"
)
PURE_EXC = re.compile(
    r"^(std::sync::Arc::(new|clone|as_ptr|ptr_eq|downgrade)|std::sync::Weak::new|std::sync::(Mutex|RwLock)::new|"
    r"std::sync::atomic::Atomic\w*::new|memmap2::MmapOptions::(new|len|offset)|std::time::Duration|"
    r"std::fs::(OpenOptions::new|Metadata::len)|std::cell::\w+::new|memmap2::\w+::(len|as_ptr)|sled::Config::new|"
    r"std::process::Termination)"
)
COLL = re.compile(
    r"^(std::vec::Vec|std::collections::|imbl::|core::slice|std::slice|std::string::String|core::str|std::option|std::result|"
    r"std::iter|std::mem|std::cmp|core::num|deps::bigdecimal|std::ops|std::fmt|std::convert|std::hash)"
)
LAYER = re.compile(
    r"^(std::sync::Arc<|std::boxed::Box<|std::rc::Rc<|std::sync::MutexGuard<|std::sync::RwLock(Read|Write)Guard<|lock_api::|parking_lot|"
    r"std::cell::Ref)"
)
ITERTY = re.compile(
    r"^(std|core|imbl|alloc)::[\w:]*\b(Iter|IntoIter|IterMut|Keys|Values|ValuesMut|IntoValues|IntoKeys|Drain|ConsumingIter|Range|RangeInclusive|"
    r"Map|Filter|Enumerate|Rev|Cloned|Copied|Zip|Chain|Skip|Take|StepBy|FilterMap|FlatMap|Flatten|Peekable|TakeWhile|SkipWhile|Once|Empty|Chars|Split|Bytes|RangeMut|Windows|Chunks|Repeat|Inspect|Scan|Successors|FromFn)<"
)


class Engine:
    MAXPATHS = 6000
    seq = False  # nothing else runs between two acquisitions of a lock
    MAXDEPTH = 40

    def __init__(self, prog, opaque=(), watch=None):
        self.p = prog
        self.watch = watch  # event -> key of the property's alphabet, or None
        self.opaque = [re.compile(x) for x in opaque]
        self.callees = {}  # fnitem key -> callee record
        self.paths = 0
        self.steps = 0
        self.funcs = set()  # function ids analysed
        self.sites = set()  # opaque call sites seen
        self.unknown = set()
        self.loops_seen = {}
        self.bi = builtins()

    # ---------------------------------------------------------------- memory
    def initial(self, root):
        if root.op == "D":
            p = root.a[0]
            return p.a[0] if p.op == "box" else mk("*", p)
        if root.op == "E":
            e = mk("elem", root.a[0], root.a[1])
            if len(root.a) > 2:
                return mk(root.a[2], e)
            return e
        if root.op == "S":
            return payload(mk("get", root.a[1], root.a[2]), "Some")
        return mk("undef", root)

    def rootval(self, st, root):
        v = st.mem.get(root)
        return self.initial(root) if v is None else v

    def load(self, st, loc):
        v = self.rootval(st, loc[0])
        for e in loc[1]:
            v = proj(v, e)
        return v

    def store(self, st, loc, val):
        root, path = loc
        if root.op not in ("L", "C"):
            st.log("w", root, path, val, st.stack)
        self.store_quiet(st, loc, val)

    def deref(self, ptr):
        """location a pointer value points to"""
        if ptr.op == "ref":
            return (ptr.a[0], ptr.a[1])
        if ptr.op == "undefp":
            return (mk("D", ptr), ())
        return (mk("D", ptr), ())

    def place(self, st, fid, p):
        loc = (mk("L", fid, p[0]), ())
        for e in p[1:]:
            if e[0] == "*":
                loc = self.deref(self.load(st, loc))
            elif e[0] == "f":
                loc = (loc[0], loc[1] + (("f", e[1]),))
            elif e[0] == "v":
                loc = (loc[0], loc[1] + (("v", e[1]),))
            elif e[0] == "i":
                loc = (loc[0], loc[1] + (("i", self.load(st, (mk("L", fid, e[1]), ()))),))
            elif e[0] == "c":
                loc = (loc[0], loc[1] + (("i", c(e[1]) if not e[2] else mk("fromend", e[1])),))
            elif e[0] == "s":
                loc = (loc[0], loc[1] + (("s", mk("range", c(e[1]), c(e[2]) if not e[3] else mk("fromend", e[2]))),))
            else:
                loc = (loc[0], loc[1] + (("f", "?"),))
        return loc

    # ---------------------------------------------------------------- operands
    def operand(self, st, fr, o):
        k = o["k"]
        if k in ("copy", "move"):
            return self.load(st, self.place(st, fr.fid, o["p"]))
        if k == "const":
            if "fn" in o:
                return self.fnitem(o["fn"])
            if "closure" in o:
                return mk("closure", o["closure"], ())
            if "promoted" in o:
                return self.promoted(st, fr, o)
            if "int" in o:
                if o["ty"] == "bool":
                    return TRUE if o["int"] else FALSE
                return c(o["int"])
            if "str" in o:
                return mk("str", o["str"])
            if o["ty"] == "()":
                return UNIT
            m = re.match(r"std::option::Option::<.*>::None$", o.get("txt", ""))
            if m:
                return NONE
            d = o.get("def")
            if d and d in self.p.fns:
                v = self.constval(st, d)
                if v is not None:
                    return v
            return mk("k", o.get("def") or o.get("txt") or o.get("param"))
        return mk("k", o.get("txt"))

    def fnitem(self, fn):
        key = fn.get("res") or fn["id"]
        key = key + "|" + ",".join(fn.get("targs", []))
        self.callees[key] = fn
        return mk("fnitem", key)

    def constval(self, st, d):
        """value of a named constant or static: its initialiser, analysed"""
        f = self.p.fns[d]
        if d in st.stack:
            return None
        rs = self.call_body(st, f, f["body"], [], mk("fid", "const", d))
        rs = [r for r in rs if r[1] == "ret"]
        if len(rs) == 1:
            s2, _, v = rs[0]
            st.mem.update({k: x for k, x in s2.mem.items() if k not in st.mem})
            return v
        return None

    def promoted(self, st, fr, o):
        d, i = o["def"], o["promoted"]
        f = self.p.fns.get(d)
        if not f or i >= len(f["promoted"]):
            return mk("k", f"promoted {d} {i}")
        rs = self.call_body(st, f, f["promoted"][i], [], mk("fid", "prom", d, i))
        rs = [r for r in rs if r[1] == "ret"]
        if len(rs) == 1:
            s2, _, v = rs[0]
            for k, x in s2.mem.items():
                if k not in st.mem:
                    st.mem[k] = x
            return v
        return mk("k", f"promoted {d} {i}")

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, r):
        k = r["r"]
        if k == "use":
            return self.operand(st, fr, r["o"])
        if k == "ref":
            root, path = self.place(st, fr.fid, r["p"])
            # a reborrow of an opaque pointer is that pointer
            if not path and root.op == "D":
                return root.a[0]
            return mk("ref", root, path)
        if k == "bin":
            a, b = self.operand(st, fr, r["a"]), self.operand(st, fr, r["b"])
            return self.binop(r["op"], a, b, r["ty"])
        if k == "un":
            a = self.operand(st, fr, r["o"])
            if r["op"] == "Not":
                return neg(a) if a.op in ("c", "rel", "not", "isv", "and", "or", "call", "bool") else mk("not", a)
            if r["op"] == "Neg":
                return scale(a, -1)
            if r["op"] == "PtrMetadata":
                return self.length(st, self.load(st, self.deref(a)))
            return mk("un", r["op"], a)
        if k == "cast":
            a = self.operand(st, fr, r["o"])
            kd = r["kind"]
            if kd.startswith("IntToInt"):
                return cast_int(a, r["from"], r["ty"])
            if kd == "BoxDerefTransmute":
                return mk("ref", mk("D", a.a[0] if a.op == "." else a), ())
            if a.op == "ref" and (kd.startswith("Ptr") or kd.startswith("Pointer")) and r["ty"].startswith("*"):
                return a
            if "Unsize" in kd or kd.startswith("PtrToPtr") or "ReifyFnPointer" in kd or kd.startswith("Transmute") or "MutToConst" in kd or "ClosureFn" in kd:
                return a
            return mk("cast", a, r["ty"])
        if k == "discr":
            v = self.load(st, self.place(st, fr.fid, r["p"]))
            vm = tuple(sorted(r.get("variants", {}).items()))
            return mk("discr", v, vm)
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r["ops"]]
            kd = r["kind"]
            if kd == "tuple":
                return tup(*ops) if ops else UNIT
            if kd == "adt":
                return adt(r["adt"], r["variant"] if r["enum"] else "", *zip(r["fields"], ops))
            if kd in ("closure", "coroutine"):
                return mk("closure", r["closure"], tuple(ops))
            if kd == "array":
                return mk("array", tuple(ops))
            return mk("agg", kd, tuple(ops))
        if k == "repeat":
            return mk("repeat", self.operand(st, fr, r["o"]), r["n"])
        return mk("k", r.get("txt", "?"))

    def binop(self, op, a, b, ty):
        uns = ty in ("usize", "u64", "u32", "u16", "u8", "u128")
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        x = a.a[0] if a.op == "cast" else a
        if x.op == "ref" and is_int(b):  # the address of a place: aligned and not null
            if op == "BitAnd":
                return ZERO
            if op in ("Eq", "Ne") and b is ZERO:
                return FALSE if op == "Eq" else TRUE
        if base in ("Add", "Sub", "Mul", "Div", "Rem"):
            if uns:
                note_unsigned(a)
                note_unsigned(b)
            v = {"Add": add, "Sub": sub, "Mul": mul, "Div": div, "Rem": lambda x, y: mk("rem", x, y)}[base](a, b)
            if uns:
                note_unsigned(v)
            if op.endswith("WithOverflow"):
                return tup(v, mk("ovf", base, a, b))
            return v
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            o = {"Eq": "=", "Ne": "<>", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">="}[op]
            if ty == "bool":
                if b.op == "c":
                    return a if (b is TRUE) == (o == "=") else neg(a)
            if uns:
                note_unsigned(a)
                note_unsigned(b)
            if a.op == "discr" and is_int(b):
                vm = dict(a.a[1])
                n = vm.get(str(b.a[1]))
                if n is not None:
                    x = isv(a.a[0], n)
                    return x if o == "=" else neg(x)
            return rel(a, o, b)
        if op in ("BitAnd", "BitOr") and ty == "bool":
            return boolop("and" if op == "BitAnd" else "or", a, b)
        if op == "Cmp":
            return mk("ord", sub(a, b))
        return mk("bin", op, a, b)

    # ---------------------------------------------------------------- facts
    def variant_of(self, st, x):
        """known variant name of an enum value, or None"""
        if x.op == "adt":
            return x.a[1]
        if x.op == "as":
            return x.a[1]
        if x.op == "upd":
            return self.variant_of(st, x.a[0])
        if x.op == "ord":
            s = self.sign(st, x.a[0])
            return {"-": "Less", "0": "Equal", "+": "Greater"}[next(iter(s))] if len(s) == 1 else None
        f = st.facts.get(("d", x))
        if f is None and x.op == "entry":
            p = presence(x.a[1], x.a[2])
            return {"Some": "Occupied", "None": "Vacant"}.get(self.variant_of(st, p))
        return f if isinstance(f, str) else None

    def excluded(self, st, x):
        f = st.facts.get(("d", x))
        return f if isinstance(f, frozenset) else frozenset()

    def assume_variant(self, st, x, v):
        k = self.variant_of(st, x)
        if k is not None:
            return k == v
        if v in self.excluded(st, x):
            return False
        if x.op == "ord":
            return self.assume(st, relm(x.a[0], frozenset({"Less": "-", "Equal": "0", "Greater": "+"}[v])), True)
        st.facts[("d", x)] = v
        if x.op == "entry":
            p = presence(x.a[1], x.a[2])
            if p.op == "get":
                st.facts[("d", p)] = "Some" if v == "Occupied" else "None"
        st.log("is", x, v)
        return True

    def assume_not_variant(self, st, x, vs, allv):
        k = self.variant_of(st, x)
        if k is not None:
            return k not in vs
        ex = self.excluded(st, x) | frozenset(vs)
        left = [v for v in allv if v not in ex]
        if not left:
            return False
        if len(left) == 1:
            return self.assume_variant(st, x, left[0])
        if x.op == "ord":
            return self.assume(st, relm(x.a[0], frozenset({"Less": "-", "Equal": "0", "Greater": "+"}[v] for v in left)), True)
        st.facts[("d", x)] = ex
        st.log("isnot", x, ex)
        return True

    def sign(self, st, d):
        if is_int(d):
            return relsign(d)
        k, dd = lin(d)
        if not dd:
            return relsign(d)
        lead = min(dd, key=lambda t: t.id)
        fl = dd[lead] < 0
        dc = reduced(scale(d, -1) if fl else d)
        s = st.facts.get(("s", dc), dom(dc))
        if k and len(dd) == 1 and (k == -1) == (dd[lead] == 1) and abs(k) == 1 and abs(dd[lead]) == 1 and nonneg(lead) and st.facts.get(("s", lead)) == frozenset("+"):
            s = s & frozenset("0+")  # a whole number above 0, less 1
        if len(s) > 1 and all(isinstance(n, int) and nonneg(t) for t, n in dd.items()):
            # whole numbers: what is known of one less and of one more
            m = st.facts.get(("s", add(dc, c(-1))))
            if m is not None and "-" not in m:
                s = s & frozenset("+")
            elif m == frozenset("-"):
                s = s & frozenset("0-")
            m = st.facts.get(("s", add(dc, c(1))))
            if m is not None and "+" not in m:
                s = s & frozenset("-")
            elif m == frozenset("+"):
                s = s & frozenset("0+")
        if dc.op == "sum" and len(s) > 1 and "0" in s and s <= frozenset("0+"):
            # a sum of positive numbers over a collection that is not empty
            if self.sign(st, length(dc.a[0])) == frozenset("+") and self.sign(st, dc.a[1]) == frozenset("+"):
                s = frozenset("+")
        return flip(s) if fl else s

    def put_sign(self, facts, d, signs):
        """record the signs of a difference under its canonical form"""
        b = relm(d, signs)
        if b.op == "rel":
            facts[("s", b.a[0])] = b.a[1]

    def truth(self, st, b):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if b.op == "rel":
            s = self.sign(st, b.a[0])
            if s <= b.a[1]:
                return True
            if not (s & b.a[1]):
                return False
            return None
        if b.op == "not":
            t = self.truth(st, b.a[0])
            return None if t is None else not t
        if b.op == "isv":
            v = self.variant_of(st, b.a[0])
            if v is not None:
                return v == b.a[1]
            if b.a[1] in self.excluded(st, b.a[0]):
                return False
            return None
        if b.op in ("and", "or"):
            ts = [self.truth(st, x) for x in b.a]
            if b.op == "and":
                return False if False in ts else True if ts == [True, True] else None
            return True if True in ts else False if ts == [False, False] else None
        return st.facts.get(("b", b))

    def assume(self, st, b, val):
        t = self.truth(st, b)
        if t is not None:
            return t == val
        if b.op == "rel":
            m = b.a[1] if val else dom(b.a[0]) - b.a[1]
            s = st.facts.get(("s", b.a[0]), dom(b.a[0])) & m
            if not s:
                return False
            st.facts[("s", b.a[0])] = s
            st.log("if", relm(b.a[0], s), True)
            return True
        if b.op == "not":
            return self.assume(st, b.a[0], not val)
        if b.op == "isv":
            if val:
                return self.assume_variant(st, b.a[0], b.a[1])
            two = {"Some": "None", "None": "Some", "Ok": "Err", "Err": "Ok"}
            if b.a[1] in two:
                return self.assume_variant(st, b.a[0], two[b.a[1]])
            st.facts[("d", b.a[0])] = self.excluded(st, b.a[0]) | {b.a[1]}
            st.log("isnot", b.a[0], frozenset([b.a[1]]))
            return True
        if b.op == "and" and val or b.op == "or" and not val:
            return all(self.assume(st, x, val) for x in b.a)
        st.facts[("b", b)] = val
        st.log("if", b, val)
        return True

    def split(self, st, b):
        """[(state, truth)] for a boolean term"""
        t = self.truth(st, b)
        if t is not None:
            return [(st, t)]
        if b.op == "not":
            return [(s, not v) for s, v in self.split(st, b.a[0])]
        if b.op in ("and", "or"):
            # one part settles it, or the other decides
            r = []
            for s, v in self.split(st, b.a[0]):
                r += [(s, v)] if v == (b.op == "or") else self.split(s, b.a[1])
            return r
        r = []
        for v in (True, False):
            s = st.fork()
            if self.assume(s, b, v):
                r.append((s, v))
        return r

    def cases(self, st, x, variants):
        """[(state, variant, payload)] of an enum value over the given variants"""
        k = self.variant_of(st, x)
        if k is not None:
            return [(st, k, payload(x, k))]
        r = []
        for v in variants:
            s = st.fork()
            if self.assume_variant(s, x, v):
                r.append((s, v, payload(x, v)))
        return r

    def wraps(self, ty):
        """a struct around one number"""
        while ty.get("ref") is not None and ty.get("to"):
            ty = ty["to"]
        a = self.p.adts.get(ty.get("adt")) or {}
        fs = [x["ty"] for v in a.get("variants", []) for x in v["fields"]]
        return not a.get("enum", True) and len(fs) == 1 and re.fullmatch(r"[ui](8|16|32|64|128|size)", fs[0]["s"] if isinstance(fs[0], dict) else str(fs[0])) is not None

    def length(self, st, x):
        return length(x)

    # ---------------------------------------------------------------- functions
    def run(self, f, args=None, setup=None):
        """analyse an entry point; -> [(state, 'ret'|'panic', value)]"""
        st = State()
        self.paths = 0
        b = f["body"]
        if args is None:
            args = []
            names = f.get("params") or []
            for i in range(b["argc"]):
                n = names[i] if i < len(names) and names[i] else f"arg{i}"
                args.append(self.arg(b["locals"][i + 1], n))
        if setup:
            setup(st, args)
        out = []
        for s, k, v in self.call_body(st, f, b, args, mk("fid", "entry", f["id"])):
            fut = v.a[0] if k == "ret" and v.op == "box" else v
            if k != "ret" or fut.op != "closure" or not self.p.fns.get(fut.a[0], {}).get("coroutine"):
                out.append((s, k, v))
                continue
            for s2, k2, v2 in self.await_(s, fut, mk("entry"), tuple(f["span"])):  # an async function is judged by what it does when awaited
                out.append((s2, k2, payload(v2, "Ready") if k2 == "ret" else v2))
        return out

    def after(self, st, f, args):
        """the outcomes of calling f next, with nothing else happening in between"""
        old, self.seq = self.seq, True
        try:
            st = st.fork()
            n = st.notes.get("after", 0)
            st.notes = dict(st.notes, after=n + 1)
            return self.call_body(st, f, f["body"], args, mk("fid", "entry", f["id"], n + 1))
        finally:
            self.seq = old

    def arg(self, ty, n):
        if ty["s"] in ("usize", "u64", "u32", "u16", "u8", "u128"):
            NONNEG.add(mk("arg", n))
        return mk("arg", n)

    def call_body(self, st, f, body, args, fid):
        if len(st.stack) > self.MAXDEPTH:
            raise Explosion("depth")
        self.funcs.add(f["id"])
        fr = Frame(f, body, fid)
        s = st.fork() if fid.a[0] in ("const", "prom") else st
        old = s.stack
        s.stack = old + (f["id"],)
        for i, a in enumerate(args):
            s.mem[mk("L", fid, i + 1)] = a
        t0, mem0, facts0 = s.trace, dict(s.mem), s.facts
        out = []
        for s2, kind, v in self.blocks(s, fr, 0, None, {}):
            s2.stack = old
            out.append((s2, kind, v))
        self.paths = max(self.paths, len(out))
        if fid.a[0] in ("call", "clo") and len(out) > 1 and not any(re.search(x, f["path"]) for x in self.apart):
            out = self.merge(out, fid, t0, mem0, facts0, body["locals"][0])
        return out

    # ---------------------------------------------------------------- merging at returns
    def keys(self, s, since=None):
        """the watched events of a path"""
        r = []
        for e in s.events(since):
            k = self.watch(e)
            if k is not None:
                r.append(k)
        return tuple(r)

    def coarse(self, out, fid, t0):
        """join the outcomes with the same watched events and the same kind of result (property simulation)"""
        groups = {}
        for s, kind, v in out:
            for k in [k for k in s.mem if k.op == "L" and k.a[0] is fid]:
                del s.mem[k]
            shape = v if v is None or v.op != "adt" else (v.a[1], None if v.a[1] in ("Ok", "Err", "Some") else v)
            if v is not None and v.op == "adt" and v.a[1] in ("Ok", "Some") and v.a[2] and v.a[2][0][1].op == "adt":
                shape = shape + (v.a[2][0][1].a[:2],)
            if v is not None and v.op not in ("adt", "c", "rel", "isv", "not", "ref"):
                shape = "value"
            groups.setdefault((kind, shape, self.keys(s, t0)), []).append((s, v))
        res = []
        for (kind, _, _), ss in groups.items():
            s, v = ss[0]
            if len(ss) > 1:
                for s2, _ in ss[1:]:
                    s.facts = {k: x for k, x in s.facts.items() if s2.facts.get(k) == x}
                    w = s.notes.get("writes")
                    if w is not None:
                        s.notes["writes"] = w | s2.notes["writes"]
                roots = set()
                for s2, _ in ss:
                    roots |= s2.mem.keys()
                for r in roots:
                    vs = list(dict.fromkeys(self.rootval(s2, r) for s2, _ in ss))
                    if len(vs) > 1:
                        s.mem[r] = join(vs)
                    elif r not in s.mem:
                        s.mem[r] = vs[0]
                if v is not None:
                    v = join([x for _, x in ss])
            res.append((s, kind, v))
        return res

    SEL = 3
    apart = ()  # functions whose outcomes are never joined
    gone = None  # types whose drops are recorded

    def merge(self, out, fid, t0, mem0, facts0, rty):
        """join the outcomes of a call that agree on their result, memory and effects: only the branch facts
        that differ are given up. A call without effects and with many scalar outcomes yields one gated value."""
        groups = {}
        panics = {}
        if self.watch:
            return self.coarse(out, fid, t0)
        for s, kind, v in out:
            for k in [k for k in s.mem if k.op == "L" and k.a[0] is fid]:
                del s.mem[k]
            if kind == "panic":
                e = s.trace[1]
                panics.setdefault((e[0], e[1], e[-1][1] if isinstance(e[-1], (list, tuple)) and len(e[-1]) > 1 else None), (s, kind, v))
                continue
            ev = []
            t = s.trace
            while t is not None and t is not t0:
                if t[1][0] not in ("is", "isnot", "if", "ovf"):
                    ev.append(id(t[1]) if t[1][0] in ("loop", "head") else key_of(t[1]))
                t = t[0]
            k = (kind, v, frozenset(s.mem.items()), tuple(ev), frozenset(s.notes.get("writes") or ()))
            groups.setdefault(k, []).append((s, bool(ev)))
        res = []
        for (kind, v, _, _, _), ss in groups.items():
            s = ss[0][0]
            if len(ss) > 1:
                for s2, _ in ss[1:]:
                    s.facts = {k: x for k, x in s.facts.items() if s2.facts.get(k) == x}
            res.append((s, kind, v, ss[0][1]))
        if len(res) > self.SEL and not self.is_choice(rty) and not any(e for _, _, _, e in res):
            m0 = {k: x for k, x in mem0.items() if not (k.op == "L" and k.a[0] is fid)}
            if all(kind == "ret" and all(s.mem.get(k) is x for k, x in m0.items()) for s, kind, _, _ in res):
                alts = []
                for s, _, v, _ in res:
                    g = tuple(sorted(((str(k[0]), k[1].id) for k in s.facts if k not in facts0)))
                    alts.append((g, v))
                s = res[0][0]
                for s2, _, _, _ in res[1:]:
                    s.facts = {k: x for k, x in s.facts.items() if s2.facts.get(k) == x}
                v = mksel([v for _, v in sorted(alts, key=lambda a: (a[0], a[1].id))])
                if rty["s"] in ("usize", "u64", "u32", "u16", "u8", "u128"):
                    note_unsigned(v)
                res = [(s, "ret", v, False)]
        return [(s, k, v) for s, k, v, _ in res] + list(panics.values())

    def is_choice(self, ty):
        """enums and booleans: callers branch on them"""
        return (
            ty["s"] == "bool"
            or ty["s"].startswith(("std::option::", "std::result::", "std::cmp::Ordering"))
            or self.p.adts.get(ty.get("adt"), {}).get("enum")
            or ty.get("ref") is not None
        )

    def blocks(self, st, fr, bb, region, active):
        """explore from bb. region: block set whose leaving ends the path with ('exit', bb)"""
        out = []
        work = [(st, bb)]
        heads = self.p.loops(fr.f["id"], fr.body)
        while work:
            st, bb = work.pop()
            self.steps += 1
            if len(out) + len(work) > self.MAXPATHS or self.steps > 3_000_000:
                raise Explosion(fr.f["id"])
            if region is not None and bb not in region:
                out.append((st, "exit", bb))
                continue
            if bb in active:
                if active[bb] is not None and not active[bb]:
                    active[bb] = True  # first entry
                else:
                    out.append((st, "back", bb))
                    continue
            elif bb in heads:
                for s2, kind, v in self.loop(st, fr, bb, heads[bb], active):
                    if kind == "exit":
                        work.append((s2, v))
                    else:
                        out.append((s2, kind, v))
                continue
            blk = fr.body["blocks"][bb]
            for x in blk["s"]:
                if "dead" in x:
                    continue
                if "setv" in x:
                    loc = self.place(st, fr.fid, x["d"])
                    self.store(st, loc, mk("as", self.load(st, loc), x["setv"]))
                    continue
                v = self.rvalue(st, fr, x["v"])
                self.store(st, self.place(st, fr.fid, x["d"]), v)
            for s2, to, v in self.term(st, fr, bb, blk["t"]):
                if to == "ret" or to == "panic":
                    out.append((s2, to, v))
                else:
                    work.append((s2, to))
        return out

    def term(self, st, fr, bb, t):
        k = t["t"]
        if k == "goto":
            return [(st, t["to"], None)]
        if k == "return":
            return [(st, "ret", self.load(st, (mk("L", fr.fid, 0), ())))]
        if k == "switch":
            return self.switch(st, fr, t)
        if k == "assert":
            b = self.operand(st, fr, t["o"])
            if b.op == "ovf":
                st.log("ovf", b, st.stack, t["at"])
                return [(st, t["to"], None)]
            r = []
            for s, v in self.split(st, b):
                if v == t["exp"]:
                    r.append((s, t["to"], None))
                else:
                    s.log("panic", t["msg"], s.stack, t["at"])
                    r.append((s, "panic", None))
            return r
        if k == "drop":
            ty = t["ty"]["s"]
            if "Guard" in ty:
                v = self.load(st, self.place(st, fr.fid, t["p"]))
                self.release(st, v)
            if self.gone and self.gone.search(ty):
                st.log("gone", self.load(st, self.place(st, fr.fid, t["p"])), st.stack)
            a = t["ty"].get("adt")
            if a in self.p.dropimpl:
                st.log("dropl", a, self.load(st, self.place(st, fr.fid, t["p"])), st.stack)
            return [(st, t["to"], None)]
        if k == "call":
            return self.callterm(st, fr, bb, t)
        if k == "yield":
            return [(st, t["to"], None)]
        if k == "unreachable":
            return []
        return []

    def release(self, st, v):
        for x in walk(v):
            if x.op == "guard":
                st.log("unlock", x, st.stack)

    def switch(self, st, fr, t):
        o = self.operand(st, fr, t["o"])
        r = []
        if t["ty"] in ("usize", "u64", "u32", "u16", "u8", "u128") and o.op != "discr":
            note_unsigned(o)
        if t["ty"] == "bool":
            for s, v in self.split(st, o):
                to = None
                for n, b in t["cases"]:
                    if (n != "0") == v:
                        to = b
                r.append((s, t["else"] if to is None else to, None))
            return r
        if o.op == "discr":
            x, vm = o.a[0], dict(o.a[1])
            named = [(vm.get(n, n), b) for n, b in t["cases"]]
            for n, b in named:
                s = st.fork()
                if self.assume_variant(s, x, n):
                    r.append((s, b, None))
            allv = list(vm.values())
            if set(allv) - {n for n, _ in named}:
                s = st.fork()
                if self.assume_not_variant(s, x, [n for n, _ in named], allv):
                    r.append((s, t["else"], None))
            return r
        if is_int(o):
            for n, b in t["cases"]:
                if int(n) == o.a[1]:
                    return [(st, b, None)]
            return [(st, t["else"], None)]
        for n, b in t["cases"]:
            s = st.fork()
            if self.assume(s, rel(o, "=", c(int(n))), True):
                r.append((s, b, None))
        s = st.fork()
        if all(self.assume(s, rel(o, "=", c(int(n))), False) for n, _ in t["cases"]):
            r.append((s, t["else"], None))
        return r

    # ---------------------------------------------------------------- loops
    def loop(self, st, fr, head, region, active):
        rnd = st.notes.get("round")
        key = mk("site", fr.fid, head) if rnd is None else mk("site", mk("rnd", fr.fid, rnd), head)
        key = mk("loopkey", key, frozenset(region))
        at = fr.body["blocks"][head]["t"]["at"]

        def body(s):
            return self.blocks(s, fr, head, region, {**active, head: False})

        out = self.unroll(st, fr, key, head, body)
        if out is not None:
            return out
        exact = st.notes.pop("exact", None)
        L, out = self.widen(st, key, at, body, "back", head)
        for s, _, _ in out:
            if exact is not None:
                s.notes["exact"] = exact
        return out

    def unroll(self, st, fr, key, head, body):
        """the rounds of a loop over a few things that are all known, one after the other; None for another loop"""
        import models

        if not any(k.op == "L" and k.a[0] is fr.fid and models.few(x) for k, x in st.mem.items()):
            return None
        rnd, exact, outer = st.notes.get("round"), st.notes.get("exact"), st.notes.get("writes")
        s = st.fork()
        if outer is not None:
            s.notes["writes"] = set(outer)
        out, now = [], [s]
        for i in range(10):
            nxt = []
            for s in now:
                s.notes["exact"] = 0
                s.notes["round"] = mk("round", key, i, *([] if rnd is None else [rnd]))
                for s2, kind, v in body(s):
                    if kind == "back" and v == head:
                        if not s2.notes.get("exact"):
                            return None
                        nxt.append(s2)
                    else:
                        out.append((s2, kind, v))
            if len(out) + len(nxt) > 200:
                return None
            now = nxt
            if not now:
                break
        if now:
            return None
        for s, _, _ in out:
            s.notes = dict(s.notes)
            for k, x in (("round", rnd), ("exact", exact)):
                if x is None:
                    s.notes.pop(k, None)
                else:
                    s.notes[k] = x
            if outer is not None:
                outer |= s.notes["writes"]
                s.notes["writes"] = outer
        return out

    def widen(self, st, key, at, body, backkind, backval=None):
        """run `body` from a state generalised until stable. -> (Loop, exits)"""
        outer = st.notes.get("writes")
        written = {}
        pre = st.trace
        for rnd in range(8):
            s = st.fork()
            s.notes["writes"] = set()
            w = s.notes["writes"]
            L = Loop(key, at)
            for loc, phi in written.items():
                root, path = loc
                init = self.load(st, loc)
                L.phis[loc] = (init, phi)
                s.mem[root] = setp(self.rootval(s, root), path, phi) if path else phi
            # facts about the widened places are about other value numbers: nothing to forget
            mark = s.trace
            L.pre = mark
            s.log("head", L)
            res = body(s)
            new = {}
            for s2, kind, v in res:
                for root, path in s2.notes["writes"]:
                    if root not in st.mem and (root.op in ("L", "C") or fresh(root, key)):
                        continue
                    if root.op == "L" and root.a[0].op == "fid" and root.a[0].a[0] in ("const", "prom"):
                        continue  # a constant: it has the same value each time it is computed
                    if root not in st.mem and root.op == "S" and any(y.op == "phi" and y.a[0] is key for y in walk(root)):
                        continue  # a value reached in this round's map: the next round's map is another
                    if (root, path) not in written and not any(
                        (root, path[:i]) in written for i in range(len(path))
                    ):
                        new[(root, path)] = True
            if not new or rnd == 7:
                break
            for loc in new:
                root, path = loc
                if self.remapped(st, root, written, new):
                    continue
                for l2 in [l for l in written if l[0] is root and l[1][: len(path)] == path]:
                    del written[l2]
                # a place inside an indexed or sliced part: widen the whole
                cut = next((i for i, e in enumerate(path) if e[0] in ("i", "s", "v")), len(path))
                loc = (root, path[:cut])
                if any((root, loc[1][:i]) in written for i in range(len(loc[1]) + 1)):
                    continue
                name = (root.a[1] if root.op == "L" else show(root)) if not loc[1] else f"{show(root)}.{loc[1][-1][1]}"
                phi = mk("phi", key, str(name), root, loc[1])
                init = self.load(st, loc)
                if nonneg(init):
                    NONNEG.add(phi)
                written[loc] = phi
        exits = []
        for s2, kind, v in res:
            if kind == backkind and v == backval:
                fin = {loc: self.load(s2, loc) for loc in L.phis}
                L.iters.append((s2.events(mark), fin, s2))
            else:
                exits.append((s2, kind, v))
        self.close(L)
        self.loops_seen[key] = L
        univ = self.universal(st, L)
        out = []
        for s2, kind, v in exits:
            s2.notes = dict(s2.notes)
            if outer is not None:
                s2.notes["writes"] = set(outer) | s2.notes["writes"] | set(written)
            else:
                s2.notes.pop("writes", None)
            ev = s2.events(mark)
            m = L.closed if any(e[0] == "exhaust" and e[1] is L.over for e in ev) else {}
            # the trace of the last, partial iteration
            tr = (mark, ("loop", L))
            for e in ev:
                if e[0] == "head" and e[1] is L:
                    continue
                tr = (tr, subst_entry(e, m) if m else e)
            s2.trace = tr
            if any(e[0] == "exhaust" and e[1] is L.over for e in ev):
                for k, x in univ.items():
                    s2.facts.setdefault(k, x)
            if m:
                s2.mem = {k: subst(x, m) for k, x in s2.mem.items()}
            out.append((s2, kind, subst(v, m) if m and isinstance(v, T) else v))
        return L, out

    def remapped(self, st, root, written, new):
        """a value reached in a map that the loop changes: the next round reaches it in another map"""
        while root.op == "S" and root not in st.mem:
            p = root.a[0]
            if p.op != "ref":
                return False
            at = (p.a[0], p.a[1])
            if any((at[0], at[1][:i]) in x for x in (written, new) for i in range(len(at[1]) + 1)) and p.a[0].op != "S":
                return True
            root = p.a[0]
        return False

    def universal(self, st, L):
        """facts every element has when the loop went on for each of them"""
        it = L.over
        while it is not None and it.op in ("imap", "ienum", "iidx", "irev", "iclone"):
            it = it.a[0]
        if it is None or it.op != "it" or not L.iters:
            return {}
        over = it.a[0]
        fs = None
        for _, _, s in L.iters:
            new = {k: x for k, x in s.facts.items() if st.facts.get(k) != x}
            fs = new if fs is None else {k: x for k, x in fs.items() if new.get(k) == x}
        phis = {p for _, p in L.phis.values()}
        r = {}
        for k, x in fs.items():
            a = anyelem(over, k[1])
            if a is not k[1] and not any(y in phis or y.op == "res" for y in walk(a)):
                if k[0] == "s":
                    self.put_sign(r, a, x)
                else:
                    r[(k[0], a)] = x
        return r

    def close(self, L):
        """closed forms of accumulators: phi' = phi + x on every continuing path"""
        if not L.iters:
            return
        over = set()
        for ev, _, _ in L.iters:
            n = [e for e in ev if e[0] == "next" and not (len(e) > 3 and e[3])]
            over.add(n[0][1] if n else None)
        if len(over) == 1:
            L.over = over.pop()
        phis = {p for _, p in L.phis.values()}
        for loc, (init, phi) in L.phis.items():
            xs = set()
            fin = [f[loc] for _, f, _ in L.iters]
            if init.op == "empty" and L.over is not None and all(v.op == "push" and v.a[0] is phi for v in fin):
                # a list with one entry per element
                b = models().exact(L.over)
                ps = tuple(dict.fromkeys(v.a[1] for v in fin))
                if b is not None and len(ps) == 1:
                    L.closed[phi] = mk("coll", b, ps, L.over, "exact")
                continue
            if init.op == "adt" and len(init.a[2]) and L.over is not None and all(v.op in ("adt", "upd") for v in fin):
                # an accumulated structure, field by field
                fs = []
                for nm, i0 in init.a[2]:
                    ph = field(phi, nm)
                    if all(field(v, nm) in (ph, i0) for v in fin):
                        fs.append((nm, i0))
                        continue
                    ds = {sub(field(v, nm), ph) if field(v, nm) is not ph else ZERO for v in fin}
                    d = ds.pop()
                    if ds or any(y in phis or y.op == "res" for y in walk(d)):
                        fs = None
                        break
                    fs.append((nm, i0 if d is ZERO else add(i0, mksum(base_of(L.over), d))))
                if fs and any(v.op == "adt" and (v.a[0], v.a[1]) != (init.a[0], init.a[1]) for v in fin):
                    fs = None
                if fs:
                    L.closed[phi] = mk("adt", init.a[0], init.a[1], tuple(fs))
                continue
            ok_ = True
            for v in fin:
                if v is phi:
                    xs.add(ZERO)
                    continue
                d = sub(v, phi)
                if any(y in phis for y in walk(d)):
                    ok_ = False
                    break
                xs.add(d)
            if ok_ and len(xs) == 1:
                x = xs.pop()
                if x is ZERO:
                    L.closed[phi] = init
                elif L.over is not None:
                    L.closed[phi] = add(init, mksum(base_of(L.over), x))

    # ---------------------------------------------------------------- calls
    def callterm(self, st, fr, bb, t):
        args = [self.operand(st, fr, a) for a in t["args"]]
        rnd = st.notes.get("round")
        site = mk("site", fr.fid, bb) if rnd is None else mk("site", mk("rnd", fr.fid, rnd), bb)
        dest = self.place(st, fr.fid, t["dest"])
        if "fn" in t:
            res = self.call(st, t["fn"], args, t["argtys"], t["dty"], site, t["at"])
        else:
            f = self.operand(st, fr, t["fnop"])
            res = self.apply(st, f, args, site, t["at"], t["dty"])
        r = []
        for s, kind, v in res:
            if kind == "panic":
                r.append((s, "panic", None))
            elif t["to"] is None:
                s.log("panic", "diverges", s.stack, t["at"])
                r.append((s, "panic", None))
            else:
                self.store(s, dest, v)
                r.append((s, t["to"], v))
        return r

    def apply(self, st, f, args, site, at, dty=None, argtys=None):
        """call a function value"""
        if f.op == "ref":
            f2 = self.load(st, self.deref(f))
            if f2.op in ("closure", "fnitem", "ref"):
                if f2.op == "closure":
                    return self.call_closure(st, f2, args, site, f)
                return self.apply(st, f2, args, site, at, dty, argtys)
        if f.op == "closure":
            return self.call_closure(st, f, args, site, None)
        if f.op == "fnitem":
            fn = self.callees[f.a[0]]
            return self.call(st, fn, args, argtys or [{"s": "?"}] * len(args), dty or {"s": "?"}, site, at)
        st.log("call", "dyn", tuple([f] + args), mk("res", "dyn", site, (f,) + tuple(args)), st.stack, at, {})
        return [(st, "ret", mk("res", "dyn", site, (f,) + tuple(args)))]

    def call_closure(self, st, clo, args, site, selfref):
        f = self.p.fns.get(clo.a[0])
        if f is None:
            return [(st, "ret", mk("res", "closure", site, tuple(args)))]
        body = f["body"]
        selfty = body["locals"][1]
        fid = mk("fid", "clo", clo.a[0], site)
        if "ref" in selfty:
            if selfref is None:
                root = mk("C", site, clo.a[0])
                st.mem[root] = clo
                selfv = mk("ref", root, ())
            else:
                selfv = selfref
        else:
            selfv = clo
        return self.call_body(st, f, body, [selfv] + list(args), fid)

    def await_(self, st, fut, site, at):
        """what becomes of a future that is awaited until it is ready"""
        for _ in range(10):
            if fut.op == "ref":
                fut = self.load(st, self.deref(fut))
            elif fut.op == "box":
                fut = fut.a[0]
            else:
                break
        f = self.p.fns.get(fut.a[0]) if fut.op == "closure" else None
        if f is None or "body" not in f:
            st.log("call", "await", (fut,), mk("awaited", fut), st.stack, at, {})
            return [(st, "ret", adt("core::task::poll::Poll", "Ready", ("0", mk("awaited", fut))))]
        root = mk("C", site, fut.a[0])
        st.mem[root] = fut
        return self.call_body(st, f, f["body"], [mk("ref", root, ()), mk("k", "context")], mk("fid", "clo", fut.a[0], site))

    def is_opaque(self, fid, path):
        return any(r.search(fid) or r.search(path) for r in self.opaque)

    def strip(self, st, v, ty):
        """the value behind shared or mutable references"""
        while ty and ty.get("ref") is not None:
            v = self.load(st, self.deref(v))
            ty = ty.get("to")
        return v

    def call(self, st, fn, args, argtys, dty, site, at):
        if "ctor" in fn:
            a, v = fn["ctor"]
            isenum = self.p.adts.get(a, {}).get("enum", True) if a in self.p.adts else True
            if a not in self.p.adts and v == a.split("::")[-1]:
                isenum = False
            return [(st, "ret", adt(a, v if isenum else "", *[(str(i), x) for i, x in enumerate(args)]))]
        name = norm(fn["decl"])
        res = fn.get("res")
        target = self.p.fns.get(res) or (self.p.fns.get(fn["id"]) if res is None else None)
        if target is not None and re.match(r"std::ops::Fn(Mut|Once)?::call", name) and len(args) == 2:
            target = None  # a closure called by name: its arguments come as one tuple
        if target is not None and target.get("derived") and name in ("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp") and self.wraps(argtys[0]) and not (st.stack and self.p.fns.get(st.stack[-1], {}).get("derived")):
            target = None  # the order of what it wraps
        if target is not None and "body" in target and not self.is_opaque(target["id"], target["path"]):
            if target.get("trait") == "std::clone::Clone" and target.get("derived"):
                return [(st, "ret", self.strip(st, args[0], argtys[0] if argtys[0].get("ref") is not None else {"ref": False}))]
            if target["id"] not in st.stack:
                fid = mk("fid", "call", target["id"], site)
                return self.call_body(st, target, target["body"], args, fid)
            name = "rec:" + target["path"]
        elif target is not None and target.get("coroutine") and args:
            return self.await_(st, args[0], site, at)
        h = self.bi.get(name)
        if h is not None and target is None:
            cx = Call(self, st, fn, name, args, argtys, dty, site, at)
            r = h(cx)
            if r is not NotImplemented:
                if isinstance(r, T):
                    return [(cx.st, "ret", r)]
                return r
        return self.opaque_call(st, fn, name if target is None else "local:" + target["path"], args, argtys, dty, site, at)

    def opaque_call(self, st, fn, name, args, argtys, dty, site, at):
        self.sites.add((name, at[0], at[1]))
        vals = []
        muts = []
        argtys = list(argtys) + [{"s": "?"}] * (len(args) - len(argtys))
        for i, (a, ty) in enumerate(zip(args, argtys)):
            if ty.get("ref") is True:
                muts.append(i)
                vals.append(self.strip(st, a, ty))
            elif ty.get("ref") is False:
                vals.append(self.strip(st, a, ty))
            else:
                vals.append(a)
        vals = tuple(vals)
        eff = (EFFECTFUL.match(name) and not PURE_EXC.match(name)) or name.startswith(("local:", "rec:"))
        if eff:
            r = mk("res", name, site, vals)
        elif muts and not COLL.match(name):
            r = mk("res", name, site, vals)
        else:
            r = mk("call", name, vals)
            if dty["s"] in ("usize", "u64", "u32", "u16", "u8", "u128"):
                NONNEG.add(r)
        if eff or muts:
            st.log("call", name, vals, r, st.stack, at, {"args": tuple(args), "fn": fn, "site": site, "dty": dty["s"]})
            for i in muts:
                loc = self.deref(args[i])
                old = self.load(st, loc)
                new = mk("mut", name, i, old, tuple(v for j, v in enumerate(vals) if j != i))
                if argtys[i]["s"].startswith("&mut ["):
                    SAME_LENGTH.add(new)  # a slice's content may change, its length does not
                self.store_quiet(st, loc, new)
        if dty["s"] == "()":
            r = UNIT
        if dty["s"] == "!":
            st.log("panic", name, st.stack, at)
            return [(st, "panic", None)]
        return [(st, "ret", r)]

    def store_quiet(self, st, loc, val):
        root, path = loc
        st.mem[root] = full = setp(self.rootval(st, root), path, val) if path else val
        if st.notes.get("writes") is not None:
            st.notes["writes"].add((root, path))
        if root.op == "S":
            # a value changed inside a map: the map holds the new value
            mloc = (root.a[0].a[0], root.a[0].a[1])
            m = self.load(st, mloc)
            if m.op == "mapupd" and m.a[1] is root.a[2]:
                m = m.a[0]
            self.store_quiet(st, mloc, mk("mapupd", m, root.a[2], full))


class Frame:
    __slots__ = ("f", "body", "fid")

    def __init__(self, f, body, fid):
        self.f, self.body, self.fid = f, body, fid


class Call:
    """a call seen by a model of a library function"""

    __slots__ = ("e", "st", "fn", "name", "args", "argtys", "dty", "site", "at")

    def __init__(self, *a):
        self.e, self.st, self.fn, self.name, self.args, self.argtys, self.dty, self.site, self.at = a

    def val(self, i):
        ty = self.argtys[i] if i < len(self.argtys) else {"s": "?"}
        return self.e.strip(self.st, self.args[i], ty)

    def content(self, i=0):
        """value behind exactly one reference"""
        ty = self.argtys[i] if i < len(self.argtys) else {"s": "?"}
        if ty.get("ref") is not None:
            return self.e.load(self.st, self.e.deref(self.args[i]))
        return self.args[i]

    def loc(self, i=0):
        return self.e.deref(self.args[i])

    def selfs(self):
        return (self.fn.get("self") or {}).get("s", "")

    def event(self, *vals, ret=None):
        self.st.log(
            "call", self.name, tuple(vals), ret if ret is not None else UNIT, self.st.stack, self.at,
            {"args": tuple(self.args), "fn": self.fn, "site": self.site, "dty": self.dty["s"]},
        )


# -------------------------------------------------------------------- helpers on terms


def key_of(e):
    return tuple(x for x in e if not isinstance(x, (dict, list)))


def mksel(vs):
    """one of several values, gated by the branches that chose it"""
    vs = list(dict.fromkeys(vs))
    if len(vs) == 1:
        return vs[0]
    if all(v.op == "adt" and v.a[:2] == vs[0].a[:2] and [n for n, _ in v.a[2]] == [n for n, _ in vs[0].a[2]] for v in vs):
        return mk("adt", vs[0].a[0], vs[0].a[1], tuple((n, mksel([dict(v.a[2])[n] for v in vs])) for n, _ in vs[0].a[2]))
    return mk("sel", tuple(vs))


def join(vs):
    """one of several values, keeping the structure they share"""
    vs = list(dict.fromkeys(vs))
    if len(vs) == 1:
        return vs[0]
    a = vs[0]
    if all(v.op == "adt" and v.a[:2] == a.a[:2] and [n for n, _ in v.a[2]] == [n for n, _ in a.a[2]] for v in vs):
        return mk("adt", a.a[0], a.a[1], tuple((n, join([dict(v.a[2])[n] for v in vs])) for n, _ in a.a[2]))
    base = {v.a[0] if v.op == "upd" else v for v in vs}
    if len(base) == 1:
        b = base.pop()
        fs = sorted({n for v in vs if v.op == "upd" for n, _ in v.a[1]})
        return mk("upd", b, tuple((n, join([field(v, n) for v in vs])) for n in fs))
    flat = []
    for v in vs:
        flat += v.a[0] if v.op == "sel" else (v,)
    return mk("sel", tuple(sorted(set(flat), key=lambda t: t.id)))


def relsign(d):
    v = d.a[1]
    return frozenset("-" if v < 0 else "+" if v > 0 else "0")


def note_unsigned(t):
    if t.op not in ("c", "lin"):
        NONNEG.add(t)


INTW = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}


def cast_int(a, f, t):
    if f in INTW and t in INTW:
        fu, tu = f[0] == "u", t[0] == "u"
        if is_int(a):
            return a
        if INTW[t] >= INTW[f] and (fu == tu or (fu and INTW[t] > INTW[f])):
            if fu:
                note_unsigned(a)
            return a
    return mk("cast", a, f, t)


def boolop(op, a, b):
    if op == "and":
        if a is FALSE or b is FALSE:
            return FALSE
        if a is TRUE:
            return b
        if b is TRUE:
            return a
    else:
        if a is TRUE or b is TRUE:
            return TRUE
        if a is FALSE:
            return b
        if b is FALSE:
            return a
    if a is b:
        return a
    return mk(op, *sorted((a, b)))


def isv(x, v):
    if x.op in ("adt", "as"):
        return TRUE if x.a[1] == v else FALSE
    if x.op == "ord":
        return relm(x.a[0], frozenset({"Less": "-", "Equal": "0", "Greater": "+"}[v]))
    if v in ("None", "Err"):
        return neg(mk("isv", x, {"None": "Some", "Err": "Ok"}[v]))
    return mk("isv", x, v)


def payload(x, v):
    if x.op == "adt":
        return x.a[2][0][1] if x.a[2] else UNIT
    if x.op == "upd":
        return field(x, "0")
    return mk(".", mk("as", x, v), "0") if x.op != "as" else mk(".", x, "0")


def field(v, n):
    if v.op == "adt":
        for k, x in v.a[2]:
            if k == n:
                return x
        return mk("?", v, n)
    if v.op == "upd":
        for k, x in v.a[1]:
            if k == n:
                return x
        return field(v.a[0], n)
    if v.op == "closure":
        return v.a[1][int(n)] if n.isdigit() and int(n) < len(v.a[1]) else mk("?", v, n)
    return mk(".", v, n)


def proj(v, e):
    k = e[0]
    if k == "f":
        return field(v, e[1])
    if k == "v":
        if v.op in ("adt", "as"):
            return v
        if v.op == "upd":
            return v
        return mk("as", v, e[1])
    if k == "i":
        if v.op == "array" and is_int(e[1]) and e[1].a[1] < len(v.a[0]):
            return v.a[0][e[1].a[1]]
        if v.op == "repeat":
            return v.a[0]
        if v.op == "updi" and v.a[1] is e[1]:
            return v.a[2]
        if e[1].op == "fromend" and v.op == "push":
            return v.a[1] if e[1].a[0] == 1 else proj(v.a[0], ("i", mk("fromend", e[1].a[0] - 1)))
        if e[1].op == "fromend" and v.op == "array" and 1 <= e[1].a[0] <= len(v.a[0]):
            return v.a[0][-e[1].a[0]]
        if v.op == "push" and length(v.a[0]) is e[1]:
            return v.a[1]
        if v.op == "push" and is_int(e[1]) and is_int(length(v.a[0])) and e[1].a[1] < length(v.a[0]).a[1]:
            return proj(v.a[0], e)
        if e[1].op == "index" and e[1].a[0].op == "it" and e[1].a[0].a[0] is v:
            return mk("elem", v, e[1].a[1])
        return mk("idx", v, e[1])
    if k == "s":
        return slice_of(v, e[1])
    return mk("?", v, str(e))


def slice_of(v, rng):
    """a subslice, with nested ranges flattened: range(start, end|None)"""
    s, en = rng.a
    if v.op == "slice":
        s0, e0 = v.a[1].a
        base = v.a[0]
        ns = add(s0, s)
        ne = add(s0, en) if en is not None and en.op != "fromend" else e0
        return slice_of(base, mk("range", ns, ne))
    if s is ZERO and en is None:
        return v
    return mk("slice", v, rng)


def setp(v, path, val):
    if not path:
        return val
    e, rest = path[0], path[1:]
    k = e[0]
    if k == "f":
        n = e[1]
        sub_ = setp(field(v, n), rest, val)
        if v.op == "adt" and any(x == n for x, _ in v.a[2]):
            return mk("adt", v.a[0], v.a[1], tuple((x, sub_ if x == n else y) for x, y in v.a[2]))
        if v.op == "closure" and n.isdigit():
            return mk("closure", v.a[0], tuple(sub_ if i == int(n) else y for i, y in enumerate(v.a[1])))
        base, ups = (v.a[0], dict(v.a[1])) if v.op == "upd" else (v, {})
        ups[n] = sub_
        return mk("upd", base, tuple(sorted(ups.items())))
    if k == "v":
        return setp(proj(v, e), rest, val)
    if k == "i":
        sub_ = setp(proj(v, e), rest, val)
        if v.op == "array" and is_int(e[1]) and e[1].a[1] < len(v.a[0]):
            i = e[1].a[1]
            return mk("array", v.a[0][:i] + (sub_,) + v.a[0][i + 1 :])
        return mk("updi", v, e[1], sub_)
    if k == "s":
        sub_ = setp(proj(v, e), rest, val)
        return mk("upds", v, e[1], sub_)
    return mk("upd?", v, val)


SAME_LENGTH = set()


def length(x):
    while x in SAME_LENGTH:
        x = x.a[2]
    if x.op == "repeat" and str(x.a[1]).isdigit():
        return c(int(x.a[1]))
    if x.op == "updi":
        return length(x.a[0])
    if x.op == "push":
        return add(length(x.a[0]), c(1))
    if x.op == "array":
        return c(len(x.a[0]))
    if x.op == "empty":
        return ZERO
    if x.op == "slice":
        s, e = x.a[1].a
        if e is not None and e.op != "fromend":
            return sub(e, s)
        return sub(length(x.a[0]), s)
    if x.op == "." and x.a[0].op == "as" and x.a[0].a[1] == "Ok":
        r = x.a[0].a[0]  # a new mapping
        if r.op == "res" and "MmapOptions::map" in r.a[0] and r.a[2] and r.a[2][0].op == "adt":
            n = field(r.a[2][0], "len")
            if n is not NONE:
                return n
    if x.op in ("coll",) and len(x.a) > 3 and x.a[3] == "exact":
        return length(x.a[0])
    return mk("len", x)


ANY = mk("str", "any")


def anyelem(over, x):
    """x over an element of the collection, whichever loop draws it"""
    m = {y: mk(y.op, over, ANY, *y.a[2:]) for y in walk(x) if y.op in ("elem", "E") and y.a[0] is over and len(y.a) > 1}
    return subst(x, m) if m else x


def mksum(over, x):
    """the sum of x over the elements of a collection"""
    if over.op == "iflat" and len(over.a) == 1:
        z = over.a[0]
        while z.op in ("irev", "iclone"):
            z = z.a[0]
        if z.op == "it":
            # over the members of its members
            C = z.a[0]
            m = {y: mk(y.op, mk("elem", C, ANY), *y.a[1:]) for y in walk(x) if y.op in ("elem", "E") and y.a[0].op in ("elem", "E") and y.a[0].a[0] is C}
            return mksum(C, mksum(mk("elem", C, ANY), subst(x, m)))
    x = anyelem(over, x)
    k, d = lin(x)
    r = scale(mk("len", over), k) if k else ZERO
    for t, n in d.items():
        r = add(r, scale(mk("sum", over, t), n))
    return r


def subst_entry(e, m):
    return tuple(subst(x, m) if isinstance(x, T) else tuple(subst(y, m) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) and e[0] != "loop" else x for x in e)


def fresh(t, key):
    """does the place exist only within one run of the loop body?"""
    return any(x.op in ("elem", "res", "E") and within(x, key) for x in walk(t))


def within(x, key):
    s = next((y for y in x.a if isinstance(y, T) and y.op == "site"), None)
    site, region = (key.a[0], key.a[1]) if key.op == "loopkey" else (key, None)
    while s is not None:
        if region is None:
            if s is site:
                return True
        elif s.a[0] is site.a[0] and s.a[1] in region:
            return True
        f = s.a[0]
        s = f.a[2] if f.op == "fid" and len(f.a) > 2 and isinstance(f.a[2], T) else None
    return False


def base_of(it):
    """the collection an iterator draws every element of"""
    while it.op in ("imap", "ienum", "iidx", "irev", "iclone", "iscan"):
        it = it.a[0]
    return it.a[0] if it.op == "it" else it


def models():
    import models

    return models


def builtins():
    import models

    return models.TABLE
