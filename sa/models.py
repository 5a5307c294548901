"""Models of the library functions the repository calls: what they return and which places they write.
Everything not listed is opaque: a value numbered by its arguments, and for effectful or mutating
callees an event of the trace."""

import re

import engine as E
from terms import *

TABLE = {}


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f

    return d


def rets(*xs):
    return [(s, "ret", v) for s, v in xs]


def chain(res, f):
    """continue every returning outcome with f(state, value)"""
    out = []
    for s, k, v in res:
        if k == "ret":
            r = f(s, v)
            out += r if isinstance(r, list) else [(s, "ret", r)]
        else:
            out.append((s, k, v))
    return out


# ------------------------------------------------------------------ ? and friends
CF = "core::ops::control_flow::ControlFlow"


@model("std::ops::Try::branch")
def _(cx):
    x = cx.args[0]
    t = cx.selfs()
    r = []
    if t.startswith("std::option::Option"):
        for s, v, p in cx.e.cases(cx.st, x, ["Some", "None"]):
            r.append((s, adt(CF, "Continue", ("0", p)) if v == "Some" else adt(CF, "Break", ("0", NONE))))
    elif t.startswith("std::result::Result"):
        for s, v, p in cx.e.cases(cx.st, x, ["Ok", "Err"]):
            r.append((s, adt(CF, "Continue", ("0", p)) if v == "Ok" else adt(CF, "Break", ("0", err(p)))))
    else:
        return NotImplemented
    return rets(*r)


@model("std::ops::FromResidual::from_residual")
def _(cx):
    x = cx.args[0]
    if cx.dty["s"].startswith("std::option::Option"):
        return NONE
    if x.op == "adt" and x.a[1] == "Err":
        return err(payload(x, "Err"))
    return err(mk("resid", x))


payload = E.payload


def opt(cx, i=0):
    return cx.args[i]


@model("std::option::Option::is_some", "std::result::Result::is_ok")
def _(cx):
    return E.isv(cx.content(), "Some" if "Option" in cx.name else "Ok")


@model("std::option::Option::is_none", "std::result::Result::is_err")
def _(cx):
    return E.isv(cx.content(), "None" if "Option" in cx.name else "Err")


def unwrapper(good, bad):
    def f(cx):
        r = []
        for s, v, p in cx.e.cases(cx.st, cx.args[0], [good, bad]):
            if v == good:
                r.append((s, "ret", p))
            else:
                s.log("panic", cx.name, s.stack, cx.at, cx.args[0])
                r.append((s, "panic", None))
        return r

    return f


for n in ("unwrap", "expect"):
    TABLE["std::option::Option::" + n] = unwrapper("Some", "None")
    TABLE["std::result::Result::" + n] = unwrapper("Ok", "Err")
for n in ("unwrap_err", "expect_err"):
    TABLE["std::result::Result::" + n] = unwrapper("Err", "Ok")


def case_model(names, variants, **on):
    """on: variant -> f(cx, state, payload) -> value or outcomes"""

    def f(cx):
        out = []
        for s, v, p in cx.e.cases(cx.st, cx.args[0], variants):
            cx2 = E.Call(cx.e, s, cx.fn, cx.name, cx.args, cx.argtys, cx.dty, cx.site, cx.at)
            r = on[v](cx2, s, p)
            out += r if isinstance(r, list) else [(s, "ret", r)]
        return out

    for n in names:
        TABLE[n] = f


O = ["Some", "None"]
R = ["Ok", "Err"]


def ap(cx, s, f, args, wrap=lambda v: v):
    return chain(cx.e.apply(s, f, args, cx.site, cx.at), lambda s, v: wrap(v))


case_model(["std::option::Option::map"], O, Some=lambda cx, s, p: ap(cx, s, cx.args[1], [p], some), None_=0, **{"None": lambda cx, s, p: NONE})
case_model(["std::option::Option::and_then"], O, Some=lambda cx, s, p: ap(cx, s, cx.args[1], [p]), **{"None": lambda cx, s, p: NONE})
case_model(["std::option::Option::ok_or"], O, Some=lambda cx, s, p: ok(p), **{"None": lambda cx, s, p: err(cx.args[1])})
case_model(["std::option::Option::ok_or_else"], O, Some=lambda cx, s, p: ok(p), **{"None": lambda cx, s, p: ap(cx, s, cx.args[1], [], err)})
case_model(["std::option::Option::unwrap_or"], O, Some=lambda cx, s, p: p, **{"None": lambda cx, s, p: cx.args[1]})
case_model(["std::option::Option::unwrap_or_else"], O, Some=lambda cx, s, p: p, **{"None": lambda cx, s, p: ap(cx, s, cx.args[1], [])})
case_model(["std::option::Option::map_or"], O, Some=lambda cx, s, p: ap(cx, s, cx.args[2], [p]), **{"None": lambda cx, s, p: cx.args[1]})
case_model(["std::option::Option::map_or_else"], O, Some=lambda cx, s, p: ap(cx, s, cx.args[2], [p]), **{"None": lambda cx, s, p: ap(cx, s, cx.args[1], [])})
case_model(["std::option::Option::is_some_and"], O, Some=lambda cx, s, p: ap(cx, s, cx.args[1], [p]), **{"None": lambda cx, s, p: FALSE})
case_model(["std::option::Option::is_none_or"], O, Some=lambda cx, s, p: ap(cx, s, cx.args[1], [p]), **{"None": lambda cx, s, p: TRUE})
case_model(["std::option::Option::or"], O, Some=lambda cx, s, p: some(p), **{"None": lambda cx, s, p: cx.args[1]})
case_model(["std::option::Option::or_else"], O, Some=lambda cx, s, p: some(p), **{"None": lambda cx, s, p: ap(cx, s, cx.args[1], [])})
case_model(["std::option::Option::and"], O, Some=lambda cx, s, p: cx.args[1], **{"None": lambda cx, s, p: NONE})
case_model(["std::option::Option::flatten"], O, Some=lambda cx, s, p: p, **{"None": lambda cx, s, p: NONE})


def _default(cx, s, p):
    return default_of(cx.e, s, cx.dty, cx.site, cx.at)


case_model(["std::option::Option::unwrap_or_default"], O, Some=lambda cx, s, p: p, **{"None": _default})
case_model(["std::result::Result::unwrap_or_default"], R, Ok=lambda cx, s, p: p, Err=_default)
case_model(["std::result::Result::map"], R, Ok=lambda cx, s, p: ap(cx, s, cx.args[1], [p], ok), Err=lambda cx, s, p: err(p))
case_model(["std::result::Result::map_err"], R, Ok=lambda cx, s, p: ok(p), Err=lambda cx, s, p: ap(cx, s, cx.args[1], [p], err))
case_model(["std::result::Result::and_then"], R, Ok=lambda cx, s, p: ap(cx, s, cx.args[1], [p]), Err=lambda cx, s, p: err(p))
case_model(["std::result::Result::or_else"], R, Ok=lambda cx, s, p: ok(p), Err=lambda cx, s, p: ap(cx, s, cx.args[1], [p]))
case_model(["std::result::Result::ok"], R, Ok=lambda cx, s, p: some(p), Err=lambda cx, s, p: NONE)
case_model(["std::result::Result::err"], R, Ok=lambda cx, s, p: NONE, Err=lambda cx, s, p: some(p))
case_model(["std::result::Result::unwrap_or"], R, Ok=lambda cx, s, p: p, Err=lambda cx, s, p: cx.args[1])
case_model(["std::result::Result::unwrap_or_else"], R, Ok=lambda cx, s, p: p, Err=lambda cx, s, p: ap(cx, s, cx.args[1], [p]))
case_model(["std::result::Result::map_or"], R, Ok=lambda cx, s, p: ap(cx, s, cx.args[2], [p]), Err=lambda cx, s, p: cx.args[1])
case_model(["std::result::Result::map_or_else"], R, Ok=lambda cx, s, p: ap(cx, s, cx.args[2], [p]), Err=lambda cx, s, p: ap(cx, s, cx.args[1], [p]))
case_model(["std::result::Result::and"], R, Ok=lambda cx, s, p: cx.args[1], Err=lambda cx, s, p: err(p))
case_model(["anyhow::Context::context", "anyhow::Context::with_context"], R, Ok=lambda cx, s, p: ok(p), Err=lambda cx, s, p: err(p))
_ctx_r = TABLE["anyhow::Context::context"]


@model("anyhow::Context::context", "anyhow::Context::with_context")
def _(cx):
    if cx.selfs().startswith("std::option::Option"):
        r = []
        for s, v, p in cx.e.cases(cx.st, cx.args[0], O):
            r.append((s, ok(p) if v == "Some" else err(mk("k", "anyhow context"))))
        return rets(*r)
    return _ctx_r(cx)


@model("std::option::Option::transpose")
def _(cx):
    r = []
    for s, v, p in cx.e.cases(cx.st, cx.args[0], O):
        if v == "None":
            r.append((s, ok(NONE)))
        else:
            for s2, v2, p2 in cx.e.cases(s, p, R):
                r.append((s2, ok(some(p2)) if v2 == "Ok" else err(p2)))
    return rets(*r)


@model("std::result::Result::transpose")
def _(cx):
    r = []
    for s, v, p in cx.e.cases(cx.st, cx.args[0], R):
        if v == "Err":
            r.append((s, some(err(p))))
        else:
            for s2, v2, p2 in cx.e.cases(s, p, O):
                r.append((s2, some(ok(p2)) if v2 == "Some" else NONE))
    return rets(*r)


@model("std::option::Option::filter")
def _(cx):
    out = []
    for s, v, p in cx.e.cases(cx.st, cx.args[0], O):
        if v == "None":
            out.append((s, "ret", NONE))
            continue
        root = mk("C", cx.site, "filter")
        s.mem[root] = p
        for s2, k, b in cx.e.apply(s, cx.args[1], [mk("ref", root, ())], cx.site, cx.at):
            if k != "ret":
                out.append((s2, k, b))
                continue
            for s3, t in cx.e.split(s2, b):
                out.append((s3, "ret", some(p) if t else NONE))
    return out


@model("std::option::Option::as_ref", "std::option::Option::as_mut", "std::option::Option::as_deref", "std::option::Option::as_deref_mut")
def _(cx):
    loc = cx.loc()
    x = cx.content()
    r = []
    for s, v, p in cx.e.cases(cx.st, x, O):
        r.append((s, NONE if v == "None" else some(mk("ref", loc[0], loc[1] + (("v", "Some"), ("f", "0"))))))
    return rets(*r)


@model("std::result::Result::as_ref", "std::result::Result::as_mut")
def _(cx):
    loc = cx.loc()
    x = cx.content()
    r = []
    for s, v, p in cx.e.cases(cx.st, x, R):
        y = mk("ref", loc[0], loc[1] + (("v", v), ("f", "0")))
        r.append((s, ok(y) if v == "Ok" else err(y)))
    return rets(*r)


@model("std::option::Option::cloned", "std::option::Option::copied")
def _(cx):
    r = []
    for s, v, p in cx.e.cases(cx.st, cx.args[0], O):
        r.append((s, NONE if v == "None" else some(cx.e.load(s, cx.e.deref(p)))))
    return rets(*r)


@model("std::option::Option::take")
def _(cx):
    v = cx.content()
    cx.e.store(cx.st, cx.loc(), NONE)
    return v


@model("std::option::Option::replace")
def _(cx):
    v = cx.content()
    cx.e.store(cx.st, cx.loc(), some(cx.args[1]))
    return v


@model("std::option::Option::insert")
def _(cx):
    loc = cx.loc()
    cx.e.store(cx.st, loc, some(cx.args[1]))
    return mk("ref", loc[0], loc[1] + (("v", "Some"), ("f", "0")))


@model("std::option::Option::get_or_insert_with", "std::option::Option::get_or_insert")
def _(cx):
    loc = cx.loc()
    ptr = mk("ref", loc[0], loc[1] + (("v", "Some"), ("f", "0")))
    out = []
    for s, v, p in cx.e.cases(cx.st, cx.content(), O):
        if v == "Some":
            out.append((s, "ret", ptr))
        elif cx.name.endswith("with"):
            for s2, k, x in cx.e.apply(s, cx.args[1], [], cx.site, cx.at):
                if k == "ret":
                    cx.e.store(s2, loc, some(x))
                    x = ptr
                out.append((s2, k, x))
        else:
            cx.e.store(s, loc, some(cx.args[1]))
            out.append((s, "ret", ptr))
    return out


@model("core::bool::then", "core::bool::then_some")
def _(cx):
    out = []
    for s, t in cx.e.split(cx.st, cx.args[0]):
        if not t:
            out.append((s, "ret", NONE))
        elif cx.name.endswith("then"):
            out += ap(cx, s, cx.args[1], [], some)
        else:
            out.append((s, "ret", some(cx.args[1])))
    return out


# ------------------------------------------------------------------ memory


@model("std::mem::swap")
def _(cx):
    a, b = cx.loc(0), cx.loc(1)
    x, y = cx.e.load(cx.st, a), cx.e.load(cx.st, b)
    cx.e.store(cx.st, a, y)
    cx.e.store(cx.st, b, x)
    return UNIT


@model("std::mem::replace")
def _(cx):
    v = cx.content()
    cx.e.store(cx.st, cx.loc(), cx.args[1])
    return v


@model("std::mem::take")
def _(cx):
    v = cx.content()
    r = default_of(cx.e, cx.st, cx.dty, cx.site, cx.at)
    cx.e.store(cx.st, cx.loc(), r if isinstance(r, T) else mk("default", cx.dty["s"]))
    return v


@model("std::mem::drop", "std::mem::forget")
def _(cx):
    if not cx.name.endswith("drop"):
        return UNIT
    cx.e.release(cx.st, cx.args[0])
    if cx.e.gone and cx.e.gone.search(cx.argtys[0]["s"]):
        cx.st.log("gone", cx.args[0], cx.st.stack)
    a = cx.argtys[0].get("adt")
    if a in cx.e.p.dropimpl:
        cx.st.log("dropl", a, cx.args[0], cx.st.stack)
    return UNIT


@model("std::mem::size_of")
def _(cx):
    n = {"usize": 8, "u64": 8, "i64": 8, "u32": 4, "u16": 2, "u8": 1, "isize": 8}.get((cx.fn.get("targs") or [""])[0])
    return c(n) if n else NotImplemented


@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::slice::to_vec", "core::slice::to_vec")
def _(cx):
    return cx.content()


@model("std::clone::Clone::clone_from")
def _(cx):
    cx.e.store(cx.st, cx.loc(), cx.val(1))
    return UNIT


@model("std::sync::Arc::new", "std::boxed::Box::new", "std::rc::Rc::new", "std::boxed::Box::pin")
def _(cx):
    return mk("box", cx.args[0])


@model("std::future::IntoFuture::into_future", "tracing::Instrument::instrument", "tracing::Instrument::in_current_span", "tracing::instrument::Instrument::instrument")
def _(cx):
    return cx.args[0]


@model("std::future::Future::poll")
def _(cx):
    return cx.e.await_(cx.st, cx.args[0], cx.site, cx.at)


@model("std::boxed::Box::new_uninit")
def _(cx):
    return mk("boxu", cx.site)


@model("std::boxed::box_assume_init_into_vec_unsafe")
def _(cx):
    """the `vec![..]` macro"""
    return cx.e.load(cx.st, (mk("D", cx.args[0]), (("f", "value"), ("f", "value"))))


@model("memmap2::MmapOptions::new")
def _(cx):
    return adt("memmap2::MmapOptions", "", ("len", NONE), ("offset", ZERO))


@model("memmap2::MmapOptions::len", "memmap2::MmapOptions::offset")
def _(cx):
    loc = cx.loc()
    cx.e.store_quiet(cx.st, (loc[0], loc[1] + (("f", cx.name.split("::")[-1]),)), cx.args[1])
    return cx.args[0]


@model("std::hint::must_use", "anyhow::__private::must_use", "std::convert::identity", "std::hint::black_box")
def _(cx):
    return cx.args[0]


def layered(cx):
    ty = cx.fn.get("self") or {}
    return E.LAYER.match(ty.get("s", "")) is not None


@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut")
def _(cx):
    if layered(cx):
        v = cx.content()
        return pointee(cx, v)
    return cx.args[0]


def pointee(cx, v):
    if v.op == "guard":
        return mk("ref", mk("D", mk("lockdata", v.a[1])), ())
    return mk("ref", mk("D", v), ())


@model("std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut", "std::borrow::Borrow::borrow", "std::borrow::BorrowMut::borrow_mut")
def _(cx):
    ty = cx.argtys[0]
    v = cx.args[0]
    if ty.get("to") and E.LAYER.match(ty["to"]["s"]):
        return pointee(cx, cx.content())
    t = ty.get("to")
    while t and t.get("ref") is not None:  # &&T
        v = cx.e.load(cx.st, cx.e.deref(v))
        t = t.get("to")
    return v


@model(
    "std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice", "std::string::String::as_str", "core::str::as_bytes",
    "std::string::String::as_bytes", "std::path::PathBuf::as_path", "core::slice::as_ref", "std::string::String::as_mut_str",
    "std::pin::Pin::new_unchecked", "std::pin::Pin::new", "std::pin::Pin::get_mut", "std::pin::Pin::as_mut", "core::array::as_slice",
)
def _(cx):
    return cx.args[0]


@model("std::ptr::mut_ptr::as_ref", "std::ptr::mut_ptr::as_mut", "std::ptr::const_ptr::as_ref")
def _(cx):
    x = mk("nonnull", cx.args[0])
    r = []
    for s, v, p in cx.e.cases(cx.st, x, O):
        r.append((s, some(cx.args[0]) if v == "Some" else NONE))
    return rets(*r)


@model("std::cell::UnsafeCell::get")
def _(cx):
    loc = cx.loc()
    cx.event(cx.content(), ret=cx.args[0])
    return mk("ref", loc[0], loc[1] + (("f", "value"),))


@model("std::cell::UnsafeCell::new")
def _(cx):
    return adt("core::cell::UnsafeCell", "", ("value", cx.args[0]))


# ------------------------------------------------------------------ locks and atomics


def content(cx, s, v):
    """what a lock guards once it is taken: anything, unless nothing runs in between"""
    k = mk("D", mk("lockdata", v))
    if cx.e.seq:
        if k in s.mem:
            return
        if v.op == "call" and v.a[0] in ("std::sync::Mutex::new", "std::sync::RwLock::new"):
            s.mem[k] = v.a[1][0]
            return
    s.mem[k] = mk("locked", v, cx.site)


def lock(kind, wrapped):
    def f(cx):
        v = cx.content()
        g = mk("guard", kind, v, cx.site)
        out = []
        s = cx.st.fork()
        if wrapped:
            e = cx.st.fork()
            x = mk("lockres", v, cx.site)
            if cx.e.assume_variant(s, x, "Ok"):
                s.log("lock", kind, v, g, s.stack)
                content(cx, s, v)
                out.append((s, "ret", ok(g)))
            if cx.e.assume_variant(e, x, "Err"):
                out.append((e, "ret", err(mk("k", "poisoned"))))
        else:
            s.log("lock", kind, v, g, s.stack)
            content(cx, s, v)
            out.append((s, "ret", g))
        return out

    return f


for pre, w in (("std::sync::RwLock::", True), ("parking_lot::RwLock::", False), ("lock_api::RwLock::", False), ("lock_api::rwlock::RwLock::", False)):
    TABLE[pre + "read"] = lock("read", w)
    TABLE[pre + "write"] = lock("write", w)
for pre, w in (("std::sync::Mutex::", True), ("parking_lot::Mutex::", False), ("lock_api::Mutex::", False)):
    TABLE[pre + "lock"] = lock("mutex", w)


@model("std::sync::atomic::Atomic::load")
def _(cx):
    loc = cx.loc()
    v = cx.e.load(cx.st, loc)
    if v.op == "call" and v.a[0].endswith("Atomic::new"):
        v = v.a[1][0]
    E.note_unsigned(v)
    cx.event(v, cx.args[1], ret=v)
    return v


@model("std::sync::atomic::Atomic::store")
def _(cx):
    cx.event(cx.content(), cx.args[1], cx.args[2])
    cx.e.store_quiet(cx.st, cx.loc(), cx.args[1])
    return UNIT


@model("std::sync::atomic::Atomic::fetch_add", "std::sync::atomic::Atomic::fetch_sub")
def _(cx):
    v = cx.content()
    n = (add if cx.name.endswith("add") else sub)(v, cx.args[1])
    cx.event(v, n, cx.args[2], ret=v)
    cx.e.store_quiet(cx.st, cx.loc(), n)
    return v


@model("std::sync::atomic::Atomic::new", "std::sync::Mutex::new", "std::sync::RwLock::new")
def _(cx):
    return mk("call", cx.name, (cx.args[0],))


# ------------------------------------------------------------------ comparison and arithmetic


def cmp_model(op):
    def f(cx):
        t = cx.selfs()
        if "tracing" in t or "tracing" in cx.argtys[0]["s"]:
            return FALSE
        a, b = deep(cx, 0), deep(cx, 1)
        r = local_cmp(cx, op, a, b)
        if r is not None:
            return r
        if a.op in ("adt", "as") and b.op in ("adt", "as") and op in ("=", "<>"):
            if a is b:
                return TRUE if op == "=" else FALSE
            if a.a[1] != b.a[1]:
                return FALSE if op == "=" else TRUE
        if op in ("=", "<>") and any(x.op == "adt" and x.a[0].endswith("option::Option") for x in (a, b)):
            out = []
            for s, k, p in cx.e.cases(cx.st, a, ["Some", "None"]):
                for s2, k2, q in cx.e.cases(s, b, ["Some", "None"]):
                    if k == k2 == "Some":
                        p, q = (behind(cx, s2, x) for x in (p, q))
                        r = rel(p, op, q)
                    else:
                        r = TRUE if (k == k2) == (op == "=") else FALSE
                    out.append((s2, "ret", r))
            return out
        return rel(a, op, b)

    return f


def behind(cx, s, v):
    """the value behind references"""
    while v.op == "ref":
        v = cx.e.load(s, cx.e.deref(v))
    return v


def local_cmp(cx, op, a, b):
    """a comparison provided by the trait, or through references, over a type that defines its own"""
    ty = cx.argtys[0]
    while ty.get("ref") is not None and ty.get("to"):
        ty = ty["to"]
    ad = ty.get("adt")
    if ad not in cx.e.p.adts:
        return None
    want, name = ("std::cmp::PartialEq", "eq") if op in ("=", "<>") else ("std::cmp::PartialOrd", "partial_cmp")
    for i in cx.e.p.impls:
        if i.get("trait") != want or i["self"].get("adt") != ad:
            continue
        it = dict(i["items"])
        f = cx.e.p.fns.get(it.get(name))
        if f is None or f["id"] in cx.st.stack or f.get("derived"):
            return None
        r = []
        args = [vref(cx, cx.st, x) for x in (a, b)]
        for s, kind, v in cx.e.call_body(cx.st, f, f["body"], args, mk("fid", "call", f["id"], cx.site)):
            if kind == "ret":
                if name == "eq":
                    v = v if op == "=" else E.neg(v)
                else:
                    v = payload(v, "Some")
                    if v.op != "ord":
                        return None
                    v = relm(v.a[0], MASK[op])
            r.append((s, kind, v))
        return r
    return None


def vref(cx, s, v):
    """a reference to a value that has no place"""
    root = mk("V", v)
    s.mem[root] = v
    return mk("ref", root, ())


def deep(cx, i):
    """the operand's value, behind every reference and smart pointer"""
    return cx.val(i)


for n, o in (("PartialEq::eq", "="), ("PartialEq::ne", "<>"), ("PartialOrd::lt", "<"), ("PartialOrd::le", "<="), ("PartialOrd::gt", ">"), ("PartialOrd::ge", ">=")):
    TABLE["std::cmp::" + n] = cmp_model(o)


@model("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp")
def _(cx):
    d = sub(deep(cx, 0), deep(cx, 1))
    o = mk("ord", d)
    if is_int(d):
        o = adt("core::cmp::Ordering", "Less" if d.a[1] < 0 else "Equal" if d.a[1] == 0 else "Greater")
    return some(o) if cx.name.endswith("partial_cmp") else o


@model("std::cmp::max", "std::cmp::min", "std::cmp::Ord::max", "std::cmp::Ord::min")
def _(cx):
    a, b = cx.args
    n = cx.name.split("::")[-1]
    if is_int(a) and is_int(b):
        return c((max if n == "max" else min)(a.a[1], b.a[1]))
    if a.op not in ("ref", "adt") and b.op not in ("ref", "adt"):
        g = cx.e.sign(cx.st, sub(a, b))
        if g <= frozenset("0+"):
            return a if n == "max" else b
        if g <= frozenset("0-"):
            return b if n == "max" else a
    r = mk(n, *sorted((a, b)))
    if nonneg(a) and nonneg(b):
        NONNEG.add(r)
    return r


@model("std::cmp::Ordering::reverse")
def _(cx):
    x = cx.args[0]
    return mk("ord", scale(x.a[0], -1)) if x.op == "ord" else NotImplemented


for n, vs in (("is_lt", ["Less"]), ("is_le", ["Less", "Equal"]), ("is_gt", ["Greater"]), ("is_ge", ["Greater", "Equal"]), ("is_eq", ["Equal"]), ("is_ne", ["Less", "Greater"])):

    def _f(cx, vs=vs):
        x = cx.args[0]
        if x.op == "adt":
            return TRUE if x.a[1] in vs else FALSE
        if x.op == "ord":
            return relm(x.a[0], frozenset({"Less": "-", "Equal": "0", "Greater": "+"}[v] for v in vs))
        return NotImplemented

    TABLE["std::cmp::Ordering::" + n] = _f


@model("std::cmp::Ordering::then", "std::cmp::Ordering::then_with")
def _(cx):
    out = []
    for s, v, p in cx.e.cases(cx.st, cx.args[0], ["Less", "Equal", "Greater"]):
        if v != "Equal":
            out.append((s, "ret", adt("core::cmp::Ordering", v)))
        elif cx.name.endswith("with"):
            out += ap(cx, s, cx.args[1], [])
        else:
            out.append((s, "ret", cx.args[1]))
    return out


def arith(f):
    def g(cx):
        a, b = deep(cx, 0), deep(cx, 1)
        for i, x in ((0, a), (1, b)):
            t = cx.argtys[i] if i < len(cx.argtys) else {}
            while t.get("ref") is not None:
                t = t["to"]
            if t.get("s") in BOUND:
                E.note_unsigned(x)
        return f(a, b)

    return g


def arith_assign(f):
    def g(cx):
        v = f(cx.content(0), deep(cx, 1))
        cx.e.store(cx.st, cx.loc(0), v)
        return UNIT

    return g


for n, f in (("Add::add", add), ("Sub::sub", sub), ("Mul::mul", mul), ("Div::div", div), ("Rem::rem", lambda a, b: mk("rem", a, b))):
    TABLE["std::ops::" + n] = arith(f)
    m, k = n.split("::")
    TABLE[f"std::ops::{m}Assign::{k}_assign"] = arith_assign(f)


@model("std::ops::Neg::neg")
def _(cx):
    return scale(deep(cx, 0), -1)


@model("std::ops::Not::not")
def _(cx):
    return neg(deep(cx, 0))


BOUND = {"u8": 1, "u16": 1, "u32": 1, "u64": 1, "usize": 1, "u128": 1}


def checked(f, opn):
    def g(cx):
        a, b = cx.args
        v = f(a, b)
        if cx.argtys[0]["s"] in BOUND:
            E.note_unsigned(a)
            E.note_unsigned(b)
            E.note_unsigned(v)
        if is_int(v) and is_int(a) and is_int(b) and 0 <= v.a[1] < 2**63:
            return some(v)
        if opn == "sub" and cx.argtys[0]["s"] in BOUND:
            sg = cx.e.sign(cx.st, v)
            if sg <= {"0", "+"}:
                return some(v)
            if sg == {"-"}:
                return NONE
        x = mk("fits", opn, a, b)
        r = []
        for s, k, p in cx.e.cases(cx.st, x, O):
            if opn == "sub" and cx.argtys[0]["s"] in BOUND and not cx.e.assume(s, rel(a, ">=" if k == "Some" else "<", b), True):
                continue
            r.append((s, some(v) if k == "Some" else NONE))
        return rets(*r)

    return g


for n, f in (("add", add), ("sub", sub), ("mul", mul), ("div", div)):
    TABLE["core::num::checked_" + n] = checked(f, n)
    TABLE["core::num::wrapping_" + n] = lambda cx, f=f, n=n: wrapping(cx, f, n)


def wrapping(cx, f, n):
    if n == "sub" and cx.argtys[0]["s"] in BOUND:
        E.note_unsigned(cx.args[0])
        E.note_unsigned(cx.args[1])
        if cx.e.sign(cx.st, f(*cx.args)) <= frozenset("0+"):
            return f(*cx.args)
    return mk("wrap", n, *cx.args)


@model("core::num::from_str_radix")
def _(cx):
    if cx.args[1] is not c(10):
        return NotImplemented
    return mk("call", "core::str::parse", (cx.val(0),))


@model("core::num::rem_euclid", "core::num::div_euclid")
def _(cx):
    if not cx.argtys[0]["s"].startswith("u"):
        return NotImplemented
    return mk("rem", *cx.args) if "rem" in cx.name else div(*cx.args)


@model("core::num::abs_diff")
def _(cx):
    if not cx.argtys[0]["s"].startswith("u"):
        return NotImplemented
    a, b = cx.args
    E.note_unsigned(a)
    E.note_unsigned(b)
    return rets(*[(s, sub(a, b) if t else sub(b, a)) for s, t in cx.e.split(cx.st, rel(a, ">=", b))])


@model("core::num::saturating_sub")
def _(cx):
    a, b = cx.args
    if cx.argtys[0]["s"] in BOUND:
        E.note_unsigned(a)
        E.note_unsigned(b)
    if is_int(a) and is_int(b):
        return c(max(0, a.a[1] - b.a[1]))
    if b is ZERO:
        return a
    if cx.argtys[0]["s"] in BOUND and cx.argtys[0]["s"].startswith("u"):
        sg = cx.e.sign(cx.st, sub(a, b))
        if b is c(1) and cx.e.sign(cx.st, a) == frozenset("+"):
            sg = sg & frozenset("0+")
        if sg <= frozenset("0+"):
            return sub(a, b)
        if sg <= frozenset("0-"):
            return ZERO
    r = mk("satsub", a, b)
    NONNEG.add(r)
    return r


@model("core::num::saturating_add", "core::num::saturating_mul")
def _(cx):
    r = mk("sat" + cx.name[-3:], *cx.args)
    NONNEG.add(r)
    return r


@model("deps::bigdecimal::Zero::zero", "num_traits::Zero::zero", "bigdecimal::Zero::zero", "num_traits::identities::Zero::zero")
def _(cx):
    return ZERO


@model("deps::bigdecimal::One::one", "bigdecimal::One::one", "num_traits::One::one")
def _(cx):
    return c(1)


@model("deps::bigdecimal::Zero::is_zero", "bigdecimal::Zero::is_zero")
def _(cx):
    return rel(cx.val(0), "=", ZERO)


@model("deps::bigdecimal::Signed::is_positive")
def _(cx):
    return rel(cx.val(0), ">", ZERO)


@model("deps::bigdecimal::Signed::is_negative")
def _(cx):
    return rel(cx.val(0), "<", ZERO)


@model("deps::bigdecimal::Signed::abs")
def _(cx):
    out = []
    for s, t in cx.e.split(cx.st, rel(cx.val(0), "<", ZERO)):
        out.append((s, "ret", scale(cx.val(0), -1) if t else cx.val(0)))
    return out


# ------------------------------------------------------------------ conversions


def impl_of(e, trait, selfs, targ):
    """the local impl `trait<targ> for selfs`"""
    for i in e.p.impls:
        if i.get("trait") == trait and i["self"]["s"] == selfs and (targ is None or targ in i["traitargs"][1:]):
            return i
    return None


def qualify(s):
    return s


@model("std::convert::Into::into", "std::convert::From::from", "std::convert::TryInto::try_into", "std::convert::TryFrom::try_from")
def _(cx):
    a, d = cx.argtys[0]["s"], cx.dty["s"]
    if a == d:
        return cx.args[0]
    if cx.name.endswith(("Into::into", "TryInto::try_into")):
        tr = "std::convert::From" if cx.name.endswith("Into::into") and "Try" not in cx.name else "std::convert::TryFrom"
        # the type arguments of Into are (Self, Target)
        targs = cx.fn.get("targs") or []
        want = targs[1] if len(targs) > 1 else d
        those = [i for i in cx.e.p.impls if i.get("trait") == tr and any(tail(x) == tail(a) for x in i["traitargs"][1:])]
        exact = [i for i in those if tail(i["self"]["s"]) == tail(want)]
        # an implementation for every type argument
        wide = [i for i in those if i["self"].get("args") and all(x.get("param") for x in i["self"]["args"]) and tail(i["self"]["s"]).split("<")[0] == tail(want).split("<")[0]]
        for i in exact or wide[:1]:
            if True:
                fid = dict(i["items"]).get("from" if tr.endswith("::From") else "try_from")
                f = cx.e.p.fns.get(fid)
                if f and fid not in cx.st.stack:
                    return cx.e.call_body(cx.st, f, f["body"], cx.args, mk("fid", "call", fid, cx.site))
    if d in E.INTW and a in E.INTW:
        return E.cast_int(cx.args[0], a, d)
    if re.match(r"std::(sync::Arc|rc::Rc|boxed::Box)<", d) and d.split("<", 1)[1] in a + ">":
        return cx.args[0] if re.match(r"std::(sync::Arc|rc::Rc|boxed::Box)<", a) else mk("box", cx.args[0])
    v = cx.val(0)
    if re.search(r"(Cow|String|Box<str>|str|PathBuf|Path|OsString)\b", d) and re.search(r"(str|String|Path|PathBuf|Cow)", a):
        return v
    if a == "bool" and d in E.INTW:
        return mk("boolint", v)
    if d.startswith("std::sync::atomic::"):
        return mk("call", "std::sync::atomic::Atomic::new", (v,))
    if "BigDecimal" in d:
        return v
    return mk("call", f"{cx.name}<{tail(d)}>", (v,))


def tail(s):
    """a type name without crate and module paths, so that crates agree on it"""
    return re.sub(r"\b(?:\w+::)+(?=\w)", "", s)


@model("std::string::ToString::to_string")
def _(cx):
    t = cx.argtys[0].get("to", {}).get("s", "")
    if t in ("str", "std::string::String"):
        return cx.content()
    return mk("call", cx.name, (cx.val(0),))


def default_of(e, st, ty, site, at):
    s = ty["s"]
    if s in E.INTW:
        return ZERO
    if s == "bool":
        return FALSE
    if s == "()":
        return UNIT
    if s.startswith("std::option::Option"):
        return NONE
    if re.match(r"^(std::vec::Vec|std::collections::|imbl::|std::string::String)", s):
        return mk("empty")
    if ty.get("tuple"):
        return tup(*[default_of(e, st, x, site, at) for x in ty["tuple"]])
    if "BigDecimal" in s:
        return ZERO
    for i in e.p.impls:
        if i.get("trait") == "std::default::Default" and i["self"].get("adt") == ty.get("adt") and ty.get("adt"):
            fid = dict(i["items"]).get("default")
            f = e.p.fns.get(fid)
            if f and fid not in st.stack:
                return e.call_body(st, f, f["body"], [], mk("fid", "call", fid, site))
    if "PhantomData" in s:
        return mk("k", "PhantomData")
    return mk("default", s)


@model("std::default::Default::default")
def _(cx):
    return default_of(cx.e, cx.st, cx.dty, cx.site, cx.at)


# ------------------------------------------------------------------ functions as values


@model("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once")
def _(cx):
    a = cx.args[1]
    args = [x for _, x in a.a[2]] if a.op == "adt" else [a]
    if a is UNIT:
        args = []
    f = cx.args[0]
    v = f
    k = 0
    while v.op == "ref" and k < 4:
        v = cx.e.load(cx.st, cx.e.deref(v))
        k += 1
    if v.op in ("closure", "fnitem"):
        return cx.e.apply(cx.st, v if v.op == "fnitem" or k == 0 else f if k == 1 else inner_ref(cx, f), args, cx.site, cx.at, cx.dty, (cx.argtys[1].get("tuple") or None))
    fv = cx.val(0)
    r = mk("call", "dyn", (fv,) + tuple(strip_all(cx, args)))
    cx.st.log("call", "dyn", (fv,) + tuple(args), r, cx.st.stack, cx.at, {"args": tuple(args), "fn": cx.fn, "site": cx.site, "dty": cx.dty["s"]})
    # whatever it was given mutably may have changed
    tys = cx.argtys[1].get("tuple") or []
    for x, ty in zip(args, tys):
        if ty.get("ref") is True:
            loc = cx.e.deref(x)
            cx.e.store_quiet(cx.st, loc, mk("mut", "dyn", 0, cx.e.load(cx.st, loc), (fv, cx.site)))
    return UNIT if cx.dty["s"] == "()" else r


def strip_all(cx, args):
    tys = cx.argtys[1].get("tuple") or []
    return [cx.e.strip(cx.st, a, t) for a, t in zip(args, tys)] if tys else args


def inner_ref(cx, f):
    while True:
        v = cx.e.load(cx.st, cx.e.deref(f))
        if v.op != "ref":
            return f
        f = v


# ------------------------------------------------------------------ indexing


def as_range(i):
    """the range an index stands for"""
    if i.op != "adt" or "range::" not in i.a[0]:
        return None
    k = i.a[0].split("::")[-1]
    fs = dict(i.a[2])
    if k == "RangeInclusive":
        return mk("range", fs["start"], add(fs["end"], c(1)))
    if k == "RangeToInclusive":
        return mk("range", ZERO, add(fs["end"], c(1)))
    return mk("range", fs.get("start", ZERO), fs.get("end"))


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def _(cx):
    loc = cx.loc()
    i = cx.args[1]
    rng = as_range(i)
    if rng is not None:
        return slice_ref(loc, rng)
    if i.op == "k" and "RangeFull" in str(i.a[0]):
        return cx.args[0]
    if "HashMap" in cx.selfs() or "BTreeMap" in cx.selfs():
        m, key = cx.content(), cx.val(1)
        return slot(cx.st, cx, loc, m, key)
    return mk("ref", loc[0], loc[1] + (("i", cx.val(1)),))


def slice_ref(loc, rng):
    root, path = loc
    if path and path[-1][0] == "s":
        s0, e0 = path[-1][1].a
        s, en = rng.a
        rng = mk("range", add(s0, s), add(s0, en) if en is not None else e0)
        path = path[:-1]
    if rng.a[0] is ZERO and rng.a[1] is None:
        return mk("ref", root, path)
    return mk("ref", root, path + (("s", rng),))


@model("core::slice::get", "core::slice::get_mut", "std::vec::Vec::get")
def _(cx):
    loc = cx.loc()
    i = cx.args[1]
    if i.op == "adt":
        rng = as_range(i)
        if rng is None:
            return NotImplemented
        lo, hi = rng.a
        fits = rel(lo if hi is None else hi, "<=", E.length(cx.content()))
        if hi is not None:
            fits = E.boolop("and", rel(lo, "<=", hi), fits)
        return rets(*[(s, some(slice_ref(loc, rng)) if t else NONE) for s, t in cx.e.split(cx.st, fits)])
    if cx.content().op == "empty":
        return NONE
    x = mk("inrange", cx.content(), i)
    r = []
    for s, v, p in cx.e.cases(cx.st, x, O):
        r.append((s, some(mk("ref", loc[0], loc[1] + (("i", i),))) if v == "Some" else NONE))
    return rets(*r)


@model("core::slice::first", "core::slice::last", "core::slice::first_mut", "core::slice::last_mut")
def _(cx):
    loc = cx.loc()
    x = cx.content()
    i = c(0) if "first" in cx.name else mk("fromend", 1)
    out = []
    for s, t in cx.e.split(cx.st, rel(E.length(x), "=", ZERO)):
        out.append((s, "ret", NONE if t else some(mk("ref", loc[0], loc[1] + (("i", i),)))))
    return out


@model("core::slice::split_at_mut", "core::slice::split_at")
def _(cx):
    loc = cx.loc()
    n = cx.args[1]
    return tup(slice_ref(loc, mk("range", ZERO, n)), slice_ref(loc, mk("range", n, None)))


@model("core::slice::copy_from_slice", "core::slice::clone_from_slice")
def _(cx):
    loc = cx.loc()
    v = cx.val(1)
    cx.event(cx.content(), v)
    cx.e.store_quiet(cx.st, loc, v)
    cx.st.log("w", loc[0], loc[1], v, cx.st.stack)
    return UNIT


@model("std::io::Write::write_all", "std::io::Write::write")
def _(cx):
    """writing into a `&mut [u8]` fills its front and leaves the cursor after it"""
    if not cx.selfs().startswith("&mut [u8]"):
        return NotImplemented
    cur = cx.loc()  # the place of the cursor
    tgt = cx.e.load(cx.st, cur)
    v = cx.val(1)
    r = mk("res", cx.name, cx.site, (v,))
    loc = cx.e.deref(tgt)
    n = E.length(v)
    part = slice_ref(loc, mk("range", ZERO, n))
    out = []
    variants = R if cx.name.endswith("write_all") else ["Ok", "Err"]
    for s, k, p in cx.e.cases(cx.st, r, variants):
        s.log("call", cx.name, (tgt, v), r, s.stack, cx.at, {"args": tuple(cx.args), "fn": cx.fn, "site": cx.site, "dty": cx.dty["s"]})
        if k == "Ok":
            l2 = cx.e.deref(part)
            cx.e.store_quiet(s, l2, v)
            s.log("w", l2[0], l2[1], v, s.stack)
            cx.e.store(s, cur, slice_ref(loc, mk("range", n, None)))
        out.append((s, "ret", ok(UNIT if cx.name.endswith("all") else mk("call", "written", (v,))) if k == "Ok" else err(p)))
    return out


# ------------------------------------------------------------------ collections


@model(
    "std::vec::Vec::new", "std::vec::Vec::with_capacity", "std::collections::HashSet::with_capacity", "std::collections::VecDeque::with_capacity", "std::string::String::with_capacity", "std::collections::HashMap::new", "std::collections::HashSet::new",
    "std::collections::BTreeMap::new", "std::collections::BTreeSet::new", "imbl::HashMap::new", "std::string::String::new",
    "imbl::HashSet::new", "imbl::OrdMap::new", "imbl::Vector::new", "std::collections::HashMap::with_capacity", "std::collections::VecDeque::new",
)
def _(cx):
    return mk("empty")


@model("imbl::HashMap::unit", "imbl::OrdMap::unit", "imbl::hashmap::HashMap::unit", "imbl::ordmap::OrdMap::unit")
def _(cx):
    return mk("mapupd", mk("empty"), cx.args[0], cx.args[1])


LENS = ["std::vec::Vec", "core::slice", "std::collections::HashMap", "std::collections::HashSet", "std::collections::BTreeMap", "std::collections::BTreeSet",
        "imbl::HashMap", "imbl::HashSet", "imbl::OrdMap", "core::str", "std::string::String", "std::collections::VecDeque", "imbl::Vector"]
for n in LENS:
    TABLE[n + "::len"] = lambda cx: E.length(cx.val(0))
    TABLE[n + "::is_empty"] = lambda cx: rel(E.length(cx.val(0)), "=", ZERO)
TABLE["std::iter::ExactSizeIterator::len"] = lambda cx: E.length(E.base_of(cx.val(0)))


def mutate(cx, new, ret=UNIT, *vals):
    cx.event(cx.content(), *vals, ret=ret)
    cx.e.store_quiet(cx.st, cx.loc(), new)
    return ret


@model("std::vec::Vec::push", "std::collections::VecDeque::push_back")
def _(cx):
    return mutate(cx, mk("push", cx.content(), cx.args[1]), UNIT, cx.args[1])


MAPS = ["std::collections::HashMap", "std::collections::BTreeMap", "imbl::HashMap", "imbl::OrdMap"]
SETS = ["std::collections::HashSet", "std::collections::BTreeSet", "imbl::HashSet", "imbl::OrdSet"]


def slot(st, cx, loc, m, k):
    p = presence(m, k)
    ptr = mk("ref", loc[0], loc[1])
    root = mk("S", ptr, m, k)
    if p.op == "adt" and p.a[1] == "Some":
        st.mem[root] = p.a[2][0][1]
    return mk("ref", root, ())


for M in MAPS:

    @model(M + "::insert")
    def _(cx):
        m, k = cx.content(), cx.args[1]
        p = presence(m, k)
        return mutate(cx, mk("mapupd", m, k, cx.args[2]), p, k, cx.args[2])

    @model(M + "::remove")
    def _(cx):
        m, k = cx.content(), cx.val(1)
        p = presence(m, k)
        return mutate(cx, mk("mapdel", m, k), p, k)

    @model(M + "::contains_key")
    def _(cx):
        return E.isv(presence(cx.content(), cx.val(1)), "Some")

    @model(M + "::get", M + "::get_mut")
    def _(cx):
        m, k = cx.content(), cx.val(1)
        loc = cx.loc()
        r = []
        for s, v, p in cx.e.cases(cx.st, presence(m, k), O):
            r.append((s, some(slot(s, cx, loc, m, k)) if v == "Some" else NONE))
        return rets(*r)

    @model(M + "::entry")
    def _(cx):
        loc = cx.loc()
        return mk("entry", mk("ref", loc[0], loc[1]), cx.content(), cx.args[1])

    @model(M + "::clear")
    def _(cx):
        return mutate(cx, mk("empty"))


for S_ in SETS:

    @model(S_ + "::insert")
    def _(cx):
        m, k = cx.content(), cx.args[1]
        p = E.isv(presence(m, k), "None")
        return mutate(cx, mk("mapupd", m, k, UNIT), p, k)

    @model(S_ + "::remove")
    def _(cx):
        m, k = cx.content(), cx.val(1)
        p = E.isv(presence(m, k), "Some")
        return mutate(cx, mk("mapdel", m, k), p, k)

    @model(S_ + "::contains")
    def _(cx):
        return E.isv(presence(cx.content(), cx.val(1)), "Some")

    @model(S_ + "::clear")
    def _(cx):
        return mutate(cx, mk("empty"))


@model("std::collections::BTreeMap::first_key_value", "std::collections::BTreeMap::last_key_value", "std::collections::BTreeMap::pop_first", "std::collections::BTreeMap::pop_last", "std::collections::BTreeSet::first", "std::collections::BTreeSet::last", "std::collections::BTreeSet::pop_first", "std::collections::BTreeSet::pop_last")
def _(cx):
    n = cx.name.split("::")[-1]
    m = cx.content()
    it = mk("it", m, "val" if n.startswith("pop") else "ref", "map" if "BTreeMap" in cx.name else "seq")
    r = []
    for s, v in pull(cx.e, cx.st, it, cx.site, cx.at):
        s.log("pick", "std::iter::Iterator::" + ("last" if n.endswith("last") or n.startswith("last") else "next"), it, (), v)
        if v is not None and n.startswith("pop"):
            k = v.a[2][0][1] if "BTreeMap" in cx.name else v
            s.log("call", "map::remove", (m, k), v, s.stack, cx.at, {"args": (cx.args[0], k), "fn": cx.fn, "site": cx.site, "dty": cx.dty["s"]})
            cx.e.store_quiet(s, cx.loc(), mk("mapdel", m, k))
        r.append((s, NONE if v is None else some(v)))
    return rets(*r)


@model("std::collections::BTreeMap::first_entry", "std::collections::BTreeMap::last_entry")
def _(cx):
    m, loc = cx.content(), cx.loc()
    it = mk("it", m, "val", "map")
    r = []
    for s, v in pull(cx.e, cx.st, it, cx.site, cx.at):
        s.log("pick", "std::iter::Iterator::" + ("last" if "last" in cx.name else "next"), it, (), v)
        if v is None:
            r.append((s, NONE))
            continue
        k = v.a[2][0][1]
        for s2, t, p in cx.e.cases(s, presence(m, k), ["Some"]):
            r.append((s2, some(mk("entry", mk("ref", loc[0], loc[1]), m, k))))
    return rets(*r)


@model("std::vec::Vec::clear", "std::string::String::clear")
def _(cx):
    return mutate(cx, mk("empty"))


ENTRY = ["std::collections::hash_map::Entry", "std::collections::btree_map::Entry", "imbl::hashmap::Entry", "imbl::ordmap::Entry"]
OCC = [x[:-5] + "OccupiedEntry" for x in ENTRY]
VAC = [x[:-5] + "VacantEntry" for x in ENTRY]


def entry_parts(x):
    """(map pointer, map content, key) of an entry or of its Occupied/Vacant payload"""
    while x.op in (".", "as"):
        x = x.a[0]
    return x.a if x.op == "entry" else None


def map_insert(cx, s, ptr, m, k, v, name):
    loc = (ptr.a[0], ptr.a[1])
    s.log("call", name, (m, k, v), UNIT, s.stack, cx.at, {"args": (ptr, k, v), "fn": cx.fn, "site": cx.site, "dty": "()"})
    m2 = mk("mapupd", m, k, v)
    cx.e.store_quiet(s, loc, m2)
    root = mk("S", ptr, m2, k)
    s.mem[root] = v
    return mk("ref", root, ())


for e_ in ENTRY:

    @model(e_ + "::or_insert", e_ + "::or_insert_with", e_ + "::or_default")
    def _(cx):
        ps = entry_parts(cx.args[0])
        if ps is None:
            return NotImplemented
        ptr, m, k = ps
        m = cx.e.load(cx.st, (ptr.a[0], ptr.a[1]))  # and_modify may have written
        out = []
        for s, v, p in cx.e.cases(cx.st, presence(m, k), O):
            if v == "Some":
                out.append((s, "ret", slot(s, cx, (ptr.a[0], ptr.a[1]), m, k)))
                continue
            if cx.name.endswith("or_insert"):
                vals = [(s, "ret", cx.args[1])]
            elif cx.name.endswith("with"):
                vals = cx.e.apply(s, cx.args[1], [], cx.site, cx.at)
            else:
                d = default_of(cx.e, s, cx.dty.get("to") or {"s": "?"}, cx.site, cx.at)
                vals = d if isinstance(d, list) else [(s, "ret", d)]
            for s2, kk, x in vals:
                if kk == "ret":
                    x = map_insert(cx, s2, ptr, m, k, x, "map::insert")
                out.append((s2, kk, x))
        return out

    @model(e_ + "::and_modify")
    def _(cx):
        ps = entry_parts(cx.args[0])
        if ps is None:
            return NotImplemented
        ptr, m, k = ps
        out = []
        for s, v, p in cx.e.cases(cx.st, presence(m, k), O):
            if v == "None":
                out.append((s, "ret", cx.args[0]))
                continue
            r = slot(s, cx, (ptr.a[0], ptr.a[1]), m, k)
            out += chain(cx.e.apply(s, cx.args[1], [r], cx.site, cx.at), lambda s, v: mk("entry", ptr, cx.e.load(s, (ptr.a[0], ptr.a[1])), k))
        return out

    @model(e_ + "::key")
    def _(cx):
        ps = entry_parts(cx.content())
        return NotImplemented if ps is None else boxed_ref(cx, ps[2])


def boxed_ref(cx, v):
    return mk("ref", mk("D", mk("box", v)), ())


for o in OCC:

    @model(o + "::get", o + "::get_mut", o + "::into_mut")
    def _(cx):
        ps = entry_parts(cx.content())
        if ps is None:
            return NotImplemented
        ptr, m, k = ps
        m = cx.e.load(cx.st, (ptr.a[0], ptr.a[1]))
        return slot(cx.st, cx, (ptr.a[0], ptr.a[1]), m, k)

    @model(o + "::remove", o + "::remove_entry")
    def _(cx):
        ps = entry_parts(cx.content())
        if ps is None:
            return NotImplemented
        ptr, m, k = ps
        loc = (ptr.a[0], ptr.a[1])
        m = cx.e.load(cx.st, loc)
        v = payload(presence(m, k), "Some")
        cx.st.log("call", "map::remove", (m, k), v, cx.st.stack, cx.at, {"args": (ptr, k), "fn": cx.fn, "site": cx.site, "dty": cx.dty["s"]})
        cx.e.store_quiet(cx.st, loc, mk("mapdel", m, k))
        return v if not cx.name.endswith("entry") else tup(k, v)

    @model(o + "::insert")
    def _(cx):
        ps = entry_parts(cx.content())
        if ps is None:
            return NotImplemented
        ptr, m, k = ps
        m = cx.e.load(cx.st, (ptr.a[0], ptr.a[1]))
        v = payload(presence(m, k), "Some")
        map_insert(cx, cx.st, ptr, m, k, cx.args[1], "map::insert")
        return v

    @model(o + "::key")
    def _(cx):
        ps = entry_parts(cx.content())
        return NotImplemented if ps is None else boxed_ref(cx, mk("keyin", ps[1], ps[2]))


for v_ in VAC:

    @model(v_ + "::insert")
    def _(cx):
        ps = entry_parts(cx.content())
        if ps is None:
            return NotImplemented
        ptr, m, k = ps
        return map_insert(cx, cx.st, ptr, m, k, cx.args[1], "map::insert")

    @model(v_ + "::key")
    def _(cx):
        ps = entry_parts(cx.content())
        return NotImplemented if ps is None else boxed_ref(cx, ps[2])


# ------------------------------------------------------------------ iterators

ITOPS = ("iscan", "it", "iidx", "imap", "ifilter", "ifmap", "ienum", "izip", "ichain", "irev", "iclone", "iskip", "itake", "iflat", "iwhile", "iother", "iinspect")


def positions(x):
    """a range over all places of a sequence goes through the sequence"""
    if x.op == "adt" and x.a[0].endswith("::Range"):
        fs = dict(x.a[2])
        if len(fs) == 2 and fs["start"] is ZERO and fs["end"].op == "len":
            return mk("iidx", mk("it", fs["end"].a[0], "ref", "seq"))
    return x


def is_iter(x):
    return x.op in ITOPS or (x.op == "adt" and "range::Range" in x.a[0])


def kind_of(tys):
    if re.search(r"\b(Keys|IntoKeys)<", tys):
        return "keys"
    if re.search(r"\b(Values|ValuesMut|IntoValues)<", tys):
        return "vals"
    if re.search(r"(hash_map|btree_map|hashmap|ordmap|HashMap|BTreeMap|OrdMap)", tys):
        return "map"
    return "seq"


def iter_over(cx, mode):
    x = cx.val(0) if mode == "ref" else cx.args[0]
    return mk("it", x, mode, kind_of(cx.dty["s"]))


for n in ("core::slice", "std::vec::Vec", "std::collections::HashMap", "std::collections::HashSet", "std::collections::BTreeMap", "std::collections::BTreeSet", "imbl::HashMap", "imbl::HashSet", "imbl::OrdMap", "std::option::Option", "std::collections::VecDeque"):
    for m in ("iter", "iter_mut", "keys", "values", "values_mut"):

        def _f(cx):
            return iter_over(cx, "ref")

        TABLE[f"{n}::{m}"] = _f
    for m in ("into_iter", "into_keys", "into_values"):
        TABLE[f"{n}::{m}"] = lambda cx: iter_over(cx, "val")


@model("std::collections::BTreeMap::range", "std::collections::BTreeMap::range_mut", "std::collections::BTreeSet::range")
def _(cx):
    return mk("it", mk("submap", cx.content(), cx.args[1]), "ref", kind_of(cx.dty["s"]))


@model("std::vec::Vec::drain", "std::collections::HashSet::drain", "std::collections::HashMap::drain")
def _(cx):
    x = cx.content()
    if len(cx.args) > 1:
        x = mk("drained", x, cx.args[1])
        mutate(cx, mk("undrained", cx.content(), cx.args[1]), UNIT, cx.args[1])
    else:
        mutate(cx, mk("empty"))
    return mk("it", x, "val", kind_of(cx.dty["s"]))


@model("std::iter::IntoIterator::into_iter")
def _(cx):
    x = cx.args[0]
    if is_iter(x):
        return positions(x)
    ty = cx.argtys[0]
    if ty.get("ref") is not None:
        v = cx.val(0)
        if is_iter(v) or E.ITERTY.match(ty["to"]["s"]):
            return x
        return mk("it", v, "ref", kind_of(cx.argtys[0]["s"]))
    if ty["s"] == cx.dty["s"]:
        return x
    if ty["s"].startswith("std::option::Option<"):
        # the one element, or none
        k = cx.e.variant_of(cx.st, x)
        if k is not None:
            return mk("it", mk("array", (payload(x, "Some"),)) if k == "Some" else mk("empty"), "val", "seq")
    return mk("it", x, "val", kind_of(cx.argtys[0]["s"]))


@model("std::iter::Iterator::by_ref")
def _(cx):
    return cx.args[0]


def adaptor(op, nargs=1):
    def f(cx):
        return mk(op, as_iter(cx), *cx.args[1 : 1 + nargs])

    return f


def as_iter(cx, i=0):
    x = cx.args[i]
    k = 0
    while x.op == "ref" and k < 4:
        x = cx.e.load(cx.st, cx.e.deref(x))
        k += 1
    if is_iter(x):
        return positions(x)
    t = cx.argtys[i]
    while t.get("ref") is not None:
        t = t["to"]
    m = "val"
    if re.search(r"\b(Iter|IterMut)<", t["s"]) or cx.argtys[i].get("ref") is False:
        m = "ref"
    return mk("it", x, m, kind_of(t["s"]))


for n, o in (("map", "imap"), ("filter", "ifilter"), ("filter_map", "ifmap"), ("take_while", "iwhile"), ("map_while", "iother"), ("skip_while", "iother"), ("skip", "iskip"), ("take", "itake"), ("step_by", "iskip"), ("inspect", "iinspect")):
    TABLE["std::iter::Iterator::" + n] = adaptor(o)


@model("std::iter::Iterator::scan")
def _(cx):
    it, root = as_iter(cx), mk("C", cx.site, "scan")
    cx.st.mem[root] = cx.args[1]
    return mk("iscan", it, cx.args[2], root)


@model("std::ops::RangeInclusive::new", "core::ops::RangeInclusive::new")
def _(cx):
    return adt("core::ops::range::RangeInclusive", "", ("start", cx.args[0]), ("end", cx.args[1]), ("exhausted", FALSE))


@model("core::ops::Range::contains", "std::ops::Range::contains", "core::ops::RangeInclusive::contains", "std::ops::RangeInclusive::contains")
def _(cx):
    fs = dict(cx.content(0).a[2]) if cx.content(0).op == "adt" else {}
    if "start" not in fs or "end" not in fs:
        return mk("call", cx.name, (cx.content(0), cx.val(1)))
    x = cx.val(1)
    return E.boolop("and", rel(fs["start"], "<=", x), rel(x, "<=" if "Inclusive" in cx.name else "<", fs["end"]))


TABLE["std::iter::Iterator::enumerate"] = adaptor("ienum", 0)
TABLE["std::iter::Iterator::rev"] = adaptor("irev", 0)


@model("std::iter::Iterator::flatten", "std::iter::Iterator::flat_map")
def _(cx):
    it = as_iter(cx)
    fn = cx.args[1:2]
    if it.op == "it" and it.a[0].op == "empty":
        return it
    if it.op == "it" and it.a[1] == "val" and it.a[0].op == "array" and len(it.a[0].a[0]) == 1:
        # over the one thing there is
        x = it.a[0].a[0][0]
        outs = cx.e.apply(cx.st.fork(), fn[0], [x], cx.site, cx.at) if fn else [(cx.st, "ret", x)]
        if all(k == "ret" and is_iter(v) for _, k, v in outs):
            return rets(*[(s, v) for s, k, v in outs])
    return mk("iflat", it, *fn)


TABLE["std::iter::Iterator::cloned"] = adaptor("iclone", 0)
TABLE["std::iter::Iterator::copied"] = adaptor("iclone", 0)
TABLE["std::iter::Iterator::peekable"] = lambda cx: as_iter(cx)
TABLE["std::iter::Iterator::fuse"] = lambda cx: as_iter(cx)


@model("std::iter::Iterator::zip", "std::iter::Iterator::chain", "std::iter::zip")
def _(cx):
    b = cx.args[1]
    if not is_iter(b):
        ty = cx.argtys[1]
        b = mk("it", cx.val(1) if ty.get("ref") is not None else b, "ref" if ty.get("ref") is not None else "val", kind_of(ty["s"]))
    return mk("izip" if cx.name.endswith("zip") else "ichain", as_iter(cx), b)


@model("std::iter::once")
def _(cx):
    return mk("it", mk("array", (cx.args[0],)), "val", "seq")


@model("std::iter::empty")
def _(cx):
    return mk("it", mk("empty"), "val", "seq")


def typed_elem(st, x, site, ty, kind, mode):
    """an element of x as a value of the item type"""

    def one(wrap):
        root = mk("E", x, site) if wrap is None else mk("E", x, site, wrap)
        val = mk("elem", x, site) if wrap is None else mk(wrap, mk("elem", x, site))
        if mode == "ref":
            return mk("ref", root, ())
        return val

    if kind == "map":
        return tup(one("key"), one("val") if mode == "ref" else mk("val", mk("elem", x, site)))
    if kind == "keys":
        return one("key")
    if kind == "vals":
        return one("val")
    return one(None)


def coll_elems(e, st, x, site):
    """possible element terms of a collection built on this path, or None"""
    if x.op == "coll":
        if x.a[-1] != "exact":
            return list(x.a[1])
        # another element each time it is gone through
        return [subst(v, {t: mk(t.op, t.a[0], site, *t.a[2:]) for t in walk(v) if t.op in ("elem", "E") and t.a[0] is x.a[0]}) for v in x.a[1]]
    if x.op == "array":
        return list(x.a[0])
    if x.op == "push":
        b = coll_elems(e, st, x.a[0], site)
        return None if b is None else b + [x.a[1]]
    if x.op == "empty":
        return []
    if x.op == "mapupd":
        b = coll_elems(e, st, x.a[0], site)
        if b is None:
            return None
        return b + [x.a[1] if x.a[2] is UNIT else tup(x.a[1], x.a[2])]
    if x.op == "sorted":
        return coll_elems(e, st, x.a[0], site)
    if x.op == "phi":
        L = e.loops_seen.get(x.a[0])
        if L is None:
            return None
        ent = [(loc, i) for loc, (i, p) in L.phis.items() if p is x]
        if not ent or not L.iters:
            return None
        loc, init = ent[0]
        r = coll_elems(e, st, init, site)
        if r is None:
            return None
        for _, fin, _ in L.iters:
            v = fin[loc]
            while v.op in ("push", "mapupd") and v is not x:
                if v.op == "push":
                    r.append(v.a[1])
                else:
                    r.append(v.a[1] if v.a[2] is UNIT else tup(v.a[1], v.a[2]))
                v = v.a[0]
            if v is not x:
                return None
        return list(dict.fromkeys(r))
    return None


def pull(e, st, it, site, at, ty=None):
    """-> [(state, element or None)]; elements that a filter drops are not delivered"""
    o = it.op
    if o == "adt":  # a range of integers
        fs = dict(it.a[2])
        a, b = st.fork(), st.fork()
        x = mk("elem", it, site)
        E.note_unsigned(x)
        if "end" in fs:
            e.assume(b, rel(x, "<" if "Inclusive" not in it.a[0] else "<=", fs["end"]), True)
        return [(a, None), (b, x)]
    if o == "it":
        x, mode, kind = it.a
        es = coll_elems(e, st, x, site)
        if es is not None:
            r = []
            a = st.fork()
            r.append((a, None))
            for i, v in enumerate(es):
                s = st.fork()
                if kind == "keys" and v.op == "adt":
                    v = v.a[2][0][1]
                if kind == "vals" and v.op == "adt":
                    v = v.a[2][1][1]
                if mode == "ref":
                    if kind == "map" and v.op == "adt" and len(v.a[2]) == 2:
                        ps = []
                        for j in (0, 1):
                            root = mk("E", x, site, f"k{i}.{j}")
                            s.mem[root] = v.a[2][j][1]
                            ps.append(mk("ref", root, ()))
                        v = tup(*ps)
                    else:
                        root = mk("E", x, site, f"k{i}")
                        s.mem[root] = v
                        v = mk("ref", root, ())
                r.append((s, v))
            return r
        a, b = st.fork(), st.fork()
        if mode == "ref":
            for k in [k for k in b.mem if k.op == "E" and k.a[0] is x and k.a[1] is site]:
                del b.mem[k]
        return [(a, None), (b, typed_elem(b, x, site, ty, kind, mode))]
    r = []
    if o == "imap":
        for s, x in pull(e, st, it.a[0], site, at):
            if x is None:
                r.append((s, None))
            else:
                for s2, k, v in e.apply(s, it.a[1], [x], mk("site", mk("fid", "im", "m", site), 0), at):
                    if k == "ret":
                        r.append((s2, v))
        return r
    if o in ("ifilter", "iwhile"):
        for s, x in pull(e, st, it.a[0], site, at):
            if x is None:
                r.append((s, None))
                continue
            root = mk("C", site, "item")
            s.mem[root] = x
            for s2, k, v in e.apply(s, it.a[1], [mk("ref", root, ())], mk("site", mk("fid", "im", "f", site), 0), at):
                if k == "ret":
                    for s3, t in e.split(s2, v):
                        if t:
                            r.append((s3, x))
                        elif o == "iwhile":
                            r.append((s3, None))
        return r
    if o == "ifmap":
        for s, x in pull(e, st, it.a[0], site, at):
            if x is None:
                r.append((s, None))
                continue
            for s2, k, v in e.apply(s, it.a[1], [x], mk("site", mk("fid", "im", "fm", site), 0), at):
                if k == "ret":
                    for s3, t, p in e.cases(s2, v, O):
                        if t == "Some":
                            r.append((s3, p))
        return r
    if o == "iscan":
        for s, x in pull(e, st, it.a[0], site, at):
            if x is None:
                r.append((s, None))
                continue
            for s2, k, v in e.apply(s, it.a[1], [mk("ref", it.a[2], ()), x], mk("site", mk("fid", "im", "sc", site), 0), at):
                if k == "ret":
                    for s3, t, p in e.cases(s2, v, O):
                        if t == "None":
                            s3.log("scanstop", it)
                        r.append((s3, p if t == "Some" else None))
        return r
    if o == "iinspect":
        return pull(e, st, it.a[0], site, at)
    if o == "iidx":
        i = mk("index", it.a[0], site)
        E.note_unsigned(i)
        for s, x in pull(e, st, it.a[0], site, at):
            if x is not None:
                e.assume(s, rel(i, "<", E.length(it.a[0].a[0])), True)
            r.append((s, None if x is None else i))
        return r
    if o == "ienum":
        for s, x in pull(e, st, it.a[0], site, at):
            i = mk("index", it.a[0], site)
            E.note_unsigned(i)
            r.append((s, None if x is None else tup(i, x)))
        return r
    if o in ("irev", "iskip", "itake"):
        return pull(e, st, it.a[0], site, at)
    if o == "iclone":
        for s, x in pull(e, st, it.a[0], site, at):
            r.append((s, None if x is None else e.load(s, e.deref(x))))
        return r
    if o == "izip":
        for s, x in pull(e, st, it.a[0], mk("site", mk("fid", "im", "z1", site), 0), at):
            if x is None:
                r.append((s, None))
            else:
                for s2, y in pull(e, s, it.a[1], mk("site", mk("fid", "im", "z2", site), 0), at):
                    r.append((s2, None if y is None else tup(x, y)))
        return r
    if o == "ichain":
        done = False
        for j in (0, 1):
            for s, x in pull(e, st.fork(), it.a[j], mk("site", mk("fid", "im", f"c{j}", site), 0), at):
                if x is None:
                    if not done:
                        done = True
                        r.append((s, None))
                else:
                    r.append((s, x))
        return r
    if o == "iflat":
        for s, x in pull(e, st, it.a[0], mk("site", mk("fid", "im", "fl", site), 0), at):
            if x is None:
                r.append((s, None))
                continue
            outs = [(s, "ret", x)]
            if len(it.a) > 1:
                outs = e.apply(s, it.a[1], [x], mk("site", mk("fid", "im", "fl", site), 1), at)
            for s2, k, v in outs:
                if k != "ret":
                    continue
                mode = "val"
                if v.op == "ref":
                    v = e.load(s2, e.deref(v))
                    mode = "ref"
                if v.op == "adt" and v.a[0] == OPT:
                    if v.a[1] == "Some":
                        r.append((s2, payload(v, "Some")))
                    continue
                inner = v if is_iter(v) else mk("it", v, mode, "seq")
                for s3, y in pull(e, s2, inner, mk("site", mk("fid", "im", "fi", site), 0), at):
                    if y is not None:
                        r.append((s3, y))
        return r
    a, b = st.fork(), st.fork()
    return [(a, None), (b, mk("elem", it, site))]


@model("std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back")
def _(cx):
    x = cx.args[0]
    it = as_iter(cx)
    if it.op == "it" and it.a[0].op in ("arg", "*", ".", "res", "call", "undef") and not is_iter_known(cx, it):
        # an opaque stream: every draw may differ, and draws are an effect
        pass
    site = cx.site
    r = []
    if "exact" in cx.st.notes and x.op == "ref" and few(it):
        for s, v, rest in draw(cx.e, cx.st, it, site, cx.at, cx.name.endswith("next_back")):
            s.notes = dict(s.notes, exact=s.notes["exact"] + 1)
            y = x
            while (z := cx.e.load(s, cx.e.deref(y))).op == "ref":
                y = z
            cx.e.store(s, cx.e.deref(y), rest)
            r.append((s, NONE if v is None else some(v)))
        return rets(*r)
    for s, v in pull(cx.e, cx.st, it, site, cx.at, None):
        if v is None:
            s.log("exhaust", it)
            r.append((s, NONE))
        else:
            s.log("next", mk("irev", it) if cx.name.endswith("next_back") else it, v, anew(cx, x))
            r.append((s, some(v)))
    return rets(*r)


def few(it, n=6):
    """is it known, one by one, what the iterator gives"""
    o = it.op
    if o == "adt" and "range::Range" in it.a[0] and "Inclusive" not in it.a[0]:
        fs = dict(it.a[2])
        return len(fs) == 2 and is_int(fs["start"]) and is_int(fs["end"]) and 0 <= fs["end"].a[1] - fs["start"].a[1] <= n
    if o == "it":
        return it.a[2] == "seq" and (ls := listed(it.a[0])) is not None and len(ls) <= n
    if o in ("irev", "imap", "iclone"):
        return few(it.a[0], n)
    if o == "ichain":
        return all(few(x, n) for x in it.a)
    return False


def listed(x):
    if x.op == "array":
        return list(x.a[0])
    if x.op == "push":
        b = listed(x.a[0])
        return None if b is None else b + [x.a[1]]
    return [] if x.op == "empty" else None


def draw(e, st, it, site, at, back):
    """-> [(state, the next of what is known, or None, what is left)]"""
    o = it.op
    if o == "adt":
        fs = dict(it.a[2])
        a, b = fs["start"].a[1], fs["end"].a[1]
        if a >= b:
            return [(st, None, it)]
        x, a, b = (c(b - 1), a, b - 1) if back else (c(a), a + 1, b)
        return [(st, x, mk("adt", it.a[0], it.a[1], (("start", c(a)), ("end", c(b)))))]
    if o == "it":
        x, mode, kind = it.a
        xs = listed(x)
        if not xs:
            return [(st, None, it)]
        v, xs = (xs[-1], xs[:-1]) if back else (xs[0], xs[1:])
        if mode == "ref":
            root = mk("E", x, site, "k0")
            st.mem[root] = v
            v = mk("ref", root, ())
        return [(st, v, mk("it", mk("array", tuple(xs)), mode, kind))]
    if o == "irev":
        return [(s, v, mk("irev", i)) for s, v, i in draw(e, st, it.a[0], site, at, not back)]
    if o == "ichain":
        i, j = (1, 0) if back else (0, 1)
        r = []
        for s, v, rest in draw(e, st, it.a[i], site, at, back):
            if v is None:
                for s2, v2, rest2 in draw(e, s, it.a[j], site, at, back):
                    r.append((s2, v2, mk("ichain", *((rest2, rest) if back else (rest, rest2)))))
            else:
                r.append((s, v, mk("ichain", *((it.a[0], rest) if back else (rest, it.a[1])))))
        return r
    r = []
    for s, v, rest in draw(e, st, it.a[0], site, at, back):
        left = mk(o, rest, *it.a[1:])
        if v is None:
            r.append((s, None, left))
        elif o == "iclone":
            r.append((s, e.load(s, e.deref(v)) if v.op == "ref" else v, left))
        else:
            for s2, k, y in e.apply(s, it.a[1], [v], mk("site", mk("fid", "im", "m", site), 0), at):
                if k == "ret":
                    r.append((s2, y, left))
    return r


def anew(cx, x):
    """is the iterator one made within the round of the loop it is asked in"""
    w = cx.st.notes.get("writes")
    return bool(w) and x.op == "ref" and any(r is x.a[0] for r, _ in w)


def is_iter_known(cx, it):
    return True


def hof(cx, it, init, step, done):
    """a loop over `it`: step(state, acc, elem) -> [(state, 'next', acc) | (state, 'stop', value) | (state, 'panic', _)]"""
    e = cx.e
    acc = mk("ACC", cx.site)
    cx.st.mem[acc] = init if init is not None else UNIT

    def body(s):
        out = []
        for s1, x in pull(e, s, it, cx.site, cx.at):
            if x is None:
                s1.log("exhaust", it)
                out.append((s1, "exit", ("done", None)))
                continue
            s1.log("next", it, x)
            for s2, k, v in step(s1, s1.mem[acc], x):
                if k == "next":
                    if s2.mem[acc] is not v:
                        e.store_quiet(s2, (acc, ()), v)
                    out.append((s2, "hback", None))
                elif k == "stop":
                    out.append((s2, "exit", ("stop", v)))
                else:
                    out.append((s2, k, v))
        return out

    L, res = e.widen(cx.st, cx.site, cx.at, body, "hback", None)
    out = []
    for s, k, v in res:
        if k == "exit":
            tag, val = v
            out.append((s, "ret", val if tag == "stop" else done(s, s.mem[acc], L)))
        else:
            out.append((s, k, v))
    return out


def stepf(cx, f, cont):
    def step(s, acc, x):
        out = []
        for s2, k, v in cx.e.apply(s, f, [x], cx.site, cx.at):
            if k == "ret":
                out += cont(s2, acc, x, v)
            else:
                out.append((s2, k, v))
        return out

    return step


@model("std::iter::Iterator::for_each")
def _(cx):
    return hof(cx, as_iter(cx), None, stepf(cx, cx.args[1], lambda s, a, x, v: [(s, "next", a)]), lambda s, a, L: UNIT)


@model("std::iter::Iterator::try_for_each")
def _(cx):
    good, bad = (R[0], R[1]) if cx.dty["s"].startswith("std::result") else (O[0], O[1])

    def cont(s, a, x, v):
        return [(s2, "next", a) if k == good else (s2, "stop", err(p) if good == "Ok" else NONE) for s2, k, p in cx.e.cases(s, v, [good, bad])]

    return hof(cx, as_iter(cx), None, stepf(cx, cx.args[1], cont), lambda s, a, L: ok(UNIT) if good == "Ok" else some(UNIT))


@model("std::iter::Iterator::fold")
def _(cx):
    def step(s, acc, x):
        return [(s2, "next" if k == "ret" else k, v) for s2, k, v in cx.e.apply(s, cx.args[2], [acc, x], cx.site, cx.at)]

    return hof(cx, as_iter(cx), cx.args[1], step, lambda s, a, L: a)


@model("std::iter::Iterator::try_fold")
def _(cx):
    good, bad = (R[0], R[1]) if cx.dty["s"].startswith("std::result") else (O[0], O[1])

    def step(s, acc, x):
        out = []
        for s2, k, v in cx.e.apply(s, cx.args[2], [acc, x], cx.site, cx.at):
            if k != "ret":
                out.append((s2, k, v))
                continue
            for s3, kk, p in cx.e.cases(s2, v, [good, bad]):
                out.append((s3, "next", p) if kk == good else (s3, "stop", err(p) if good == "Ok" else NONE))
        return out

    return hof(cx, as_iter(cx), cx.args[1], step, lambda s, a, L: ok(a) if good == "Ok" else some(a))


@model("std::iter::Iterator::reduce")
def _(cx):
    it = as_iter(cx)
    r = []

    def step(s, acc, x):
        return [(s2, "next" if k == "ret" else k, v) for s2, k, v in cx.e.apply(s, cx.args[1], [acc, x], cx.site, cx.at)]

    for s, v in pull(cx.e, cx.st, it, mk("site", mk("fid", "im", "rd", cx.site), 0), cx.at):
        if v is None:
            s.log("exhaust", it)
            r.append((s, "ret", NONE))
            continue
        s.log("next", it, v, False)
        cx.st = s
        r += hof(cx, it, v, step, lambda s, a, L: some(a))
    return r


def boolstep(cx, stopval, ref=False):
    def cont(s, a, x, v):
        out = []
        for s2, t in cx.e.split(s, v):
            out.append((s2, "stop", TRUE if stopval else FALSE) if t == stopval else (s2, "next", a))
        return out

    return stepf(cx, cx.args[1], cont)


@model("std::iter::Iterator::any")
def _(cx):
    return hof(cx, as_iter(cx), None, boolstep(cx, True), lambda s, a, L: FALSE)


@model("std::iter::Iterator::all")
def _(cx):
    return hof(cx, as_iter(cx), None, boolstep(cx, False), lambda s, a, L: TRUE)


@model("std::iter::Iterator::find", "std::iter::Iterator::position")
def _(cx):
    pos = cx.name.endswith("position")

    def step(s, acc, x):
        out = []
        arg = x
        if not pos:
            root = mk("C", cx.site, "find")
            s.mem[root] = x
            arg = mk("ref", root, ())
        for s2, k, v in cx.e.apply(s, cx.args[1], [arg], cx.site, cx.at):
            if k != "ret":
                out.append((s2, k, v))
                continue
            for s3, t in cx.e.split(s2, v):
                out.append((s3, "stop", some(mk("posof", x) if pos else x)) if t else (s3, "next", acc))
        return out

    return hof(cx, as_iter(cx), None, step, lambda s, a, L: NONE)


@model("std::iter::Iterator::find_map")
def _(cx):
    def cont(s, a, x, v):
        return [(s2, "stop", some(p)) if k == "Some" else (s2, "next", a) for s2, k, p in cx.e.cases(s, v, O)]

    return hof(cx, as_iter(cx), None, stepf(cx, cx.args[1], cont), lambda s, a, L: NONE)


@model("std::iter::Iterator::count")
def _(cx):
    return hof(cx, as_iter(cx), ZERO, lambda s, a, x: [(s, "next", add(a, c(1)))], lambda s, a, L: a)


@model("std::iter::Iterator::sum")
def _(cx):
    ty = cx.dty
    if ty.get("adt") in cx.e.p.adts:
        it = as_iter(cx)
        for i in cx.e.p.impls:
            if i.get("trait") == "std::iter::Sum" and i["self"].get("adt") == ty["adt"]:
                fid = dict(i["items"]).get("sum")
                f = cx.e.p.fns.get(fid)
                if f:
                    return cx.e.call_body(cx.st, f, f["body"], [it], mk("fid", "call", fid, cx.site))
    it = as_iter(cx)

    def step(s, a, x):
        while x.op == "ref":
            x = cx.e.load(s, cx.e.deref(x))
        return [(s, "next", add(a, x))]

    return hof(cx, it, ZERO, step, lambda s, a, L: a)


@model("std::iter::Iterator::last", "std::iter::Iterator::nth", "std::iter::Iterator::max", "std::iter::Iterator::min", "std::iter::Iterator::max_by_key", "std::iter::Iterator::min_by_key", "std::iter::Iterator::max_by", "std::iter::Iterator::min_by")
def _(cx):
    it = as_iter(cx)
    r = []
    for s, v in pull(cx.e, cx.st, it, cx.site, cx.at):
        s.log("pick", cx.name, it, tuple(cx.args[1:]), v)
        r.append((s, NONE if v is None else some(v)))
    return rets(*r)


def exact(it):
    while it.op in ("imap", "ienum", "iidx", "irev", "iclone", "iscan"):
        it = it.a[0]
    return it.a[0] if it.op == "it" else None


def gather(cx, it, wrap=None):
    """run `it` to its end; -> outcomes of ('coll' term)"""

    def step(s, a, x):
        if wrap is None:
            s.log("yield", x)
            return [(s, "next", a)]
        out = []
        for s2, k, p in cx.e.cases(s, x, R if wrap == "result" else O):
            if k in ("Ok", "Some"):
                s2.log("yield", p)
                out.append((s2, "next", a))
            else:
                out.append((s2, "stop", err(p) if wrap == "result" else NONE))
        return out

    def done(s, a, L):
        es = []
        for ev, _, _ in L.iters:
            es += [e[1] for e in ev if e[0] == "yield"]
        b = exact(it) if not any(x[0] == "scanstop" for x in s.events()) else None
        v = mk("coll", b if b is not None else it, tuple(dict.fromkeys(es)), it, "exact" if b is not None and wrap is None else "")
        return v if wrap is None else ok(v) if wrap == "result" else some(v)

    return hof(cx, it, None, step, done)


@model("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def _(cx):
    d = cx.dty["s"]
    w = "result" if d.startswith("std::result::Result") else "option" if d.startswith("std::option") else None
    it = as_iter(cx)
    if it.op == "it" and w is None and it.a[0].op != "adt" and kind_of(d) == "seq" and it.a[2] == "seq" and it.a[1] == "val":
        return it.a[0]
    return gather(cx, it, w)


@model("std::iter::Extend::extend", "std::vec::Vec::extend_from_slice", "std::vec::Vec::append")
def _(cx):
    b = cx.args[1]
    ty = cx.argtys[1]
    if not is_iter(b):
        v = cx.val(1)
        if is_iter(v):
            b = v
        else:
            ref = ty.get("ref") is False
            b = mk("it", v, "ref" if ref else "val", kind_of(ty["s"]))
            if ref and "Vec<&" not in ty["s"]:
                b = mk("iclone", b)
    loc = cx.loc()
    if cx.name.endswith("append"):
        src = cx.e.deref(cx.args[1])

    def step(s, a, x):
        old = cx.e.load(s, loc)
        s.log("call", "coll::extend", (old, x), UNIT, s.stack, cx.at, {"args": (cx.args[0], x), "fn": cx.fn, "site": cx.site, "dty": "()"})
        if x.op == "adt" and x.a[0] == "tuple" and kind_of(cx.selfs()) == "map":
            cx.e.store_quiet(s, loc, mk("mapupd", old, x.a[2][0][1], x.a[2][1][1]))
        elif re.search(r"(Hash|BTree)Set", cx.selfs()):
            cx.e.store_quiet(s, loc, mk("mapupd", old, x, UNIT))
        else:
            cx.e.store_quiet(s, loc, mk("push", old, x))
        return [(s, "next", a)]

    out = hof(cx, b, None, step, lambda s, a, L: UNIT)
    if cx.name.endswith("append"):
        for s, k, v in out:
            cx.e.store_quiet(s, src, mk("empty"))
    return out


@model("std::slice::sort", "std::slice::sort_by", "std::slice::sort_by_key", "std::slice::sort_unstable", "std::slice::sort_unstable_by", "std::slice::sort_unstable_by_key", "core::slice::sort_unstable_by_key", "core::slice::sort_unstable", "core::slice::sort_unstable_by", "core::slice::reverse")
def _(cx):
    x = cx.content()
    cx.event(x, *cx.args[1:])
    cx.e.store_quiet(cx.st, cx.loc(), mk("sorted", x, cx.name.split("::")[-1], tuple(cx.args[1:])))
    return UNIT


# ------------------------------------------------------------------ logging is not behaviour


def quiet(ret):
    return lambda cx: ret


for n in (
    "tracing::level_filters::LevelFilter::current", "tracing::callsite::DefaultCallsite::interest", "tracing::Span::enter", "tracing::Span::entered",
    "tracing::Event::dispatch", "tracing::Span::none", "tracing::__macro_support::__disabled_span", "tracing::Span::new", "tracing::Span::is_disabled",
    "tracing::Span::current", "tracing::Span::record", "tracing::callsite::Callsite::metadata", "tracing::subscriber::Interest::never", "tracing_core::subscriber::Interest::never",
):
    TABLE[n] = quiet(mk("k", "tracing"))
TABLE["tracing::subscriber::Interest::is_never"] = quiet(TRUE)
TABLE["tracing::__macro_support::__is_enabled"] = quiet(FALSE)
TABLE["tracing::Span::is_disabled"] = quiet(TRUE)


@model("anyhow::__private::not")
def _(cx):
    v = cx.args[0]
    return E.neg(v) if v.op in ("c", "rel", "not", "isv", "and", "or", "call", "bool", "res") else NotImplemented


@model("std::vec::Vec::pop")
def _(cx):
    v = cx.content()
    if v.op == "push":
        r = some(v.a[1])
        cx.event(v, ret=r)
        cx.e.store_quiet(cx.st, cx.loc(), v.a[0])
        return r
    if v.op == "empty":
        return NONE
    r = mk("call", cx.name, (v,))
    cx.event(v, ret=r)
    out = []
    loc = cx.loc()
    for s, k, p in cx.e.cases(cx.st, r, ["None", "Some"]):
        if k == "Some":
            cx.e.store_quiet(s, loc, mk("mut", cx.name, 0, v, ()))
        out.append((s, k == "None" and NONE or some(p)))
    return rets(*out)
