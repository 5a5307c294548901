"""cardano-utils: the fingerprint of an asset (CIP-14)."""

import ast
import re

from core import *
from rules import rule
from rules_store import ob
from rules_chain import conv, base_name
from ledger import strip
import models

CR = "cardano_utils"


def args_of(t):
    return t.a[1] if t.op == "call" else t.a[2]


def text_in(t, *of):
    t = conv(t)
    return next((x for x in of if t is strip(x)), None)


def hashed(t):
    """the pieces of bytes a hash has taken in, in order; None when not known"""
    t = strip(t)
    n = base_name(t)
    if n == "new" and not args_of(t):
        return []
    if n in ("update", "clone"):
        a = args_of(t)
        r = hashed(a[0])
        return None if r is None else r + list(a[1:])
    if t.op == "mut" and re.sub(r"<.*", "", t.a[0]).split("::")[-1] in ("update_mut", "update"):
        r = hashed(t.a[2])
        return None if r is None else r + list(t.a[3])
    return None


def text_of(t, *of):
    """(text, whether all of it) that a text is; (None, False) when not known"""
    x = text_in(t, *of)
    if x is not None:
        return x, True
    t = conv(t)
    n = base_name(t) or t.op
    if n == "slice" or n in ("get_unchecked", "split_at") or n.startswith(("trim", "strip_")):
        src = next((x for x in of if any(y is strip(x) for y in walk(t))), None)
        return src, False
    return None, False


class Bytes:
    """what a buffer of bytes is made of: a row of pieces (what, length); what is "zero", ("hex", text) for the bytes a text's digits stand for, or ("part", what) for some of a piece's"""

    def __init__(self, e, s, policy, name, events):
        self.e, self.s, self.of = e, s, (policy, name)
        self.loops = [x[1] for x in events if x[0] == "loop"]

    def signs(self, t):
        for y in walk(t):
            if y.op in ("div", "len", "min", "max"):
                note_unsigned(y)
        return self.e.sign(self.s, t)

    def split(self, row, at_):
        """the row before a place and from it on; None when the place is not found"""
        before, pos = [], ZERO
        for i, (what, n) in enumerate(row):
            d = sub(at_, pos)
            if d is ZERO:
                return before, list(row[i:])
            if n is None:
                return None
            m = self.signs(sub(d, n))
            if m <= frozenset("0+"):
                before.append((what, n))
                pos = add(pos, n)
                continue
            if m <= frozenset("-0") and self.signs(d) <= frozenset("0+"):
                part = what if what == "zero" else ("part", what)
                return before + [(part, d)], [(part, sub(n, d))] + list(row[i + 1 :])
            return None
        return (before, []) if sub(at_, pos) is ZERO else None

    def cut(self, row, r):
        """the pieces in a range of a row: (before, in it, after)"""
        r = strip(r)
        if r.op != "range":
            return None
        lo = r.a[0] if isinstance(r.a[0], T) else ZERO
        hi = r.a[1] if len(r.a) > 1 and isinstance(r.a[1], T) and show(r.a[1]) != "None" else None
        a = self.split(row, lo)
        if a is None:
            return None
        if hi is None:
            return a[0], a[1], []
        b = self.split(a[1], sub(hi, lo))
        return None if b is None else (a[0], b[0], b[1])

    def decoded(self, t, n):
        x, whole = text_of(t, *self.of)
        if x is None:
            return None
        return [(("hex", x) if whole else ("part", ("hex", x)), n)]

    def row(self, t, depth=0):
        """the pieces; None when they are not known"""
        t = strip(t)
        if depth > 40:
            return None
        n = base_name(t)
        if n in ("as_ref", "as_slice", "to_vec", "deref", "into", "from", "clone", "as_mut", "borrow"):
            return self.row(args_of(t)[0], depth + 1)
        if t.op == "empty" or (n in ("new", "with_capacity") and "vec" in t.a[0].lower()):
            return []
        if t.op == "repeat":
            k = t.a[1]
            k = c(int(k)) if isinstance(k, int) or isinstance(k, str) and k.isdigit() else k
            return [("zero", k)] if isinstance(k, T) else None
        if n == "from_elem" or t.op == "from_elem":
            return [("zero", (args_of(t) if t.op in ("call", "res") else t.a)[1])]
        if t.op == "slice":
            if isinstance(t.a[0], T) and t.a[1] == mk("range"):
                return self.row(t.a[0], depth + 1)
            r = self.row(t.a[0], depth + 1)
            p = None if r is None else self.cut(r, t.a[1])
            return None if p is None else p[1]
        if t.op == "." and t.a[0].op == "as" and t.a[0].a[1] == "Ok" and base_name(t.a[0].a[0]) == "decode":
            x = args_of(t.a[0].a[0])[0]
            n = mk("len", t)
            for full, y in ((c(28), x),):
                if self.e.sign(self.s, sub(n, full)) == {"0"} or any(self.e.sign(self.s, sub(mk("len", z), c(56))) == {"0"} for z in (x, strip(x), conv(x))):
                    n = full
            return self.decoded(x, n)
        if t.op == "mut" and re.sub(r"<.*", "", t.a[0]).split("::")[-1] == "decode_to_slice":
            r = self.row(t.a[2], depth + 1)
            if r is None or any(k is None for _, k in r):
                return None
            whole = ZERO
            for _, k in r:
                whole = add(whole, k)
            return self.decoded(t.a[3][0], whole)
        if t.op == "upds":
            r, seg = self.row(t.a[0], depth + 1), self.row(t.a[2], depth + 1)
            p = None if r is None or seg is None else self.cut(r, t.a[1])
            return None if p is None else p[0] + seg + p[2]
        if t.op in ("append", "extend", "concat"):
            out = []
            for x in t.a:
                p = self.row(x, depth + 1)
                if p is None:
                    return None
                out += p
            return out
        if n == "concat":
            a = strip(args_of(t)[0])
            if a.op != "array":
                return None
            out = []
            for x in a.a[0]:
                p = self.row(x, depth + 1)
                if p is None:
                    return None
                out += p
            return out
        # a buffer made longer by another's bytes, one after the other
        for L in self.loops:
            for loc, (init, phi) in L.phis.items():
                if phi is t and L.over is not None and len(L.iters) == 1:
                    v = strip(L.iters[0][1].get(loc, phi))
                    src = self.over(L.over)
                    if v.op == "push" and strip(v.a[0]) is phi and src is not None and self.element(v.a[1]):
                        a, b = self.row(init, depth + 1), self.row(src, depth + 1)
                        return None if a is None or b is None else a + b
        return None

    def over(self, it):
        it = strip(it)
        while it.op in ("iclone", "icopied") or it.op == "it":
            if it.op == "it":
                return it.a[0]
            it = strip(it.a[0])
        return None

    def element(self, x):
        x = conv(strip(x))
        while x.op == "*":
            x = x.a[0]
        return x.op == "elem"

    def tidy(self, row):
        """without the pieces of no length"""
        return [(w, n) for w, n in row if n is None or self.signs(n) != frozenset("0")]


def template(tpl, items):
    """the pieces of a format: a literal, or (fill, left aligned, width, item); None when it is not read"""
    m = re.match(r'^\*?\(?k?\(?\*?b?(b".*")', tpl)
    try:
        b = ast.literal_eval(m.group(1)) if m else None
    except (ValueError, SyntaxError):
        return None
    if not b:
        return None
    out, i, items = [], 0, list(items)
    while i < len(b):
        k = b[i]
        if k == 0:
            return out if not items and i == len(b) - 1 else None
        if k < 0x80:
            out.append(b[i + 1 : i + 1 + k].decode("utf8"))
            i += 1 + k
        elif k == 0xC0 and items:
            out.append((" ", True, 0, items.pop(0)))
            i += 1
        elif k == 0xC3 and items and i + 7 <= len(b):
            fl = int.from_bytes(b[i + 1 : i + 5], "little")
            out.append((chr(fl & 0x1FFFFF), (fl >> 29) & 3 == 0 and not fl & (1 << 24), int.from_bytes(b[i + 5 : i + 7], "little") if fl & (1 << 27) else 0, items.pop(0)))
            i += 7
        else:
            return None
    return None


def written(t, depth=0):
    """the pieces of a text: a literal, or (function, value) for the digits of bytes; None when it is not read"""
    t = conv(t)
    n = base_name(t)
    if depth > 20:
        return None
    if t.op == "str":
        return [t.a[0]]
    if t.op == "empty" or n == "new" and "string" in t.a[0].lower() and not args_of(t):
        return []
    if n == "repeat":
        x, k = (conv(y) for y in args_of(t))
        while x.op == "*":
            x = conv(x.a[0])
        x = x.a[0] if x.op == "str" else show(x).strip("*").strip("'")
        return [x * k.a[1]] if is_int(k) and len(x) == 1 else None
    if n in ("encode", "encode_upper"):
        return [(n, args_of(t)[0])]
    if n == "format":
        a = args_of(t)[0]
        if base_name(a) == "new" and len(args_of(a)) == 2 and args_of(a)[1].op == "array":
            out = []
            for p in template(show(args_of(a)[0]), args_of(a)[1].a[0]) or [None]:
                if p is None:
                    return None
                if isinstance(p, str):
                    out.append(p)
                    continue
                fill, left, width, x = p
                if base_name(x) != "new_display":
                    return None
                q = written(args_of(x)[0], depth + 1)
                if q is None:
                    return None
                # the digits of a hash are forty
                rest = fill * (width - sum(len(z) if isinstance(z, str) else 40 for z in q))
                out += q + [rest] if left else [rest] + q
            return out
        return None
    if n == "add":
        a, b = (written(x, depth + 1) for x in args_of(t))
        return None if a is None or b is None else a + b
    if t.op == "mut" and re.sub(r"<.*", "", t.a[0]).split("::")[-1] in ("push_str",):
        a, b = written(t.a[2], depth + 1), written(t.a[3][0], depth + 1)
        return None if a is None or b is None else a + b
    return None


def joined(row):
    out = []
    for x in row:
        if isinstance(x, str):
            if not x:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x
                continue
        out.append(x)
    return out


def show_piece(x):
    return x if isinstance(x, str) else f"{x[0]} {show_piece(x[1]) if isinstance(x[1], tuple) else show(x[1])}" if x != "zero" else x


def base_name_of(n):
    return re.sub(r"<.*", "", n).split("::")[-1]


@rule("K01", CR)
def fingerprint(R):
    """Every path of fingerprint is enumerated into fingerprint_hash. What the hash took in is composed piece by piece: the 28 bytes the policy's digits stand for, then the bytes of the
    asset's name, nothing else; anything else is an error. The identifier is the hash's 20 bytes in lower case digits, then zeros up to 64 characters."""
    f = R.one("cip14::fingerprint", [x for x in R.prog.find("cip14::fingerprint") if x["crate"] == CR])
    if not f:
        return
    policy, name = (mk("*", mk("arg", p)) for p in f["params"])
    e, rs = R.run(f, apart=("fingerprint",))
    w = where(f)
    n = 0
    for s, kind, v in rs or []:
        text = path_text(s, v)
        if not ob(R, "no-panic", w, kind == "ret", f"panics\n{text}"):
            continue
        for s2, k, x in e.cases(s, v, ["Ok", "Err"]):
            decoded = [z for z in s2.events() if z[0] == "is" and base_name(z[1]) in ("decode", "decode_to_slice")]
            if k == "Err":
                short = any(m != frozenset("0") for kk, m in s2.facts.items() if kk[0] == "s" and any(y.op == "len" for y in walk(kk[1])))
                ob(R, "refused", w, any(z[2] == "Err" for z in decoded) or short, f"a policy and a name of hexadecimal digits have no fingerprint\n{text}")
                continue
            n += 1
            unsure = [z for z in s2.events() if z[0] == "call" and base_name_of(z[1]) in ("decode", "decode_to_slice") and e.variant_of(s2, z[3]) != "Ok"]
            ob(R, "decoded", w, not unsure and all(z[2] == "Ok" for z in decoded), f"there is a fingerprint though the digits may be none\n{text}")
            for z in s2.events():
                if z[0] == "call" and base_name_of(z[1]) in ("decode", "decode_to_slice"):
                    x_, whole_ = text_of(z[2][0], policy, name)
                    ob(R, "whole-text", w, x_ is None or whole_, f"only a part of {show(x_)} is decoded: {show(z[2][0])[:200]}\n{text}") if x_ is not None else None
            B = Bytes(e, s2, policy, name, s2.events())
            t = conv(field(x, "0") if x.op == "adt" else x)
            row = written(t)
            if not ob(R, "form", w, row is not None, f"made as {show(t)[:300]}\n{text}", unknown=True):
                continue
            row = joined(row)
            hexed = [p for p in row if not isinstance(p, str)]
            ob(R, "padding", w, len(row) == 2 and not isinstance(row[0], str) and row[1] == "0" * 24, f"written as {[p if isinstance(p, str) else p[0] for p in row]}, not as digits with zeros after them up to 64 characters\n{text}")
            if not ob(R, "digits", w, [p[0] for p in hexed] == ["encode"], f"the digits are {[p[0] for p in hexed]}\n{text}"):
                continue
            h = strip(hexed[0][1])
            for _ in range(5):
                if h.op == "slice":
                    break
                h = conv(h)
            out = None
            if h.op == "mut" and re.sub(r"<.*", "", h.a[0]).split("::")[-1] == "finalize_at":
                b = strip(h.a[2])
                r = B.row(b)
                ob(R, "twenty-bytes", w, r == [("zero", c(20))], f"the hash is written to {show(b)[:200]}\n{text}", unknown=r is None)
                out = hashed(h.a[3][0])
            elif base_name(h) == "finalize":
                out = hashed(args_of(h)[0])
            elif h.op == "slice":
                ob(R, "whole-hash", w, False, f"only {show(h)[:200]} of the hash is shown\n{text}")
                continue
            if not ob(R, "hash", w, out is not None, f"the digits are of {show(h)[:300]}\n{text}", unknown=h.op not in ("updi", "upds", "repeat", "array") and base_name(h) != "from_elem"):
                continue
            got = []
            for p in out:
                q = B.row(p)
                got = None if got is None or q is None else got + q
            if not ob(R, "pieces", w, got is not None, f"hashed is {[show(p)[:200] for p in out]}\n{text}", unknown=True):
                continue
            got = B.tidy(got)
            ok = [x for x, _ in got] == [("hex", policy), ("hex", name)]
            ob(R, "policy-then-name", w, ok, f"hashed is {[(show_piece(a), show(b)) for a, b in got]}, not the policy and then the name\n{text}")
            if ok:
                ob(R, "policy-bytes", w, got[0][1] is c(28), f"the policy is taken as {show(got[0][1])} bytes, not 28\n{text}")
    R.floor("fingerprints", n, 1)
    bits = 0
    for g in R.prog.fns.values():
        if g["crate"] != CR or "body" not in g or g["id"] not in e.funcs:
            continue
        for b in g["body"]["blocks"]:
            if b["t"]["t"] == "call" and "blake2b::" in b["t"].get("fn", {}).get("decl", ""):
                ty = b["t"]["fn"].get("self", {}).get("s", "")
                bits += 1
                ob(R, "hash-length", where(g), "<160>" in ty, f"hashes with {ty}, not with 160 bits of Blake2b")
    R.floor("calls of the hash", bits, 1)
