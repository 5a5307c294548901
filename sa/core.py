"""What every rule shares: obligations, floors, reports, evidence."""

import json
import re
import os
import sys
import time

import build
from engine import *

VERIF = build.VERIF


def where(f):
    """a stable name of a function: no line numbers"""
    return f"{f['crate']}::{f['path']}"


def at(a):
    """file:line of a span"""
    return f"{a[0]}:{a[1]}" if isinstance(a, (list, tuple)) and len(a) > 1 else str(a)


def sprung(s):
    """the lookup a path panics on, when it is one by an argument of the entry point: what is asked for may well not be there"""
    evs = list(s.events())
    x = evs[-1] if evs else ("",)
    if x[0] != "panic" or len(x) < 5 or not x[1].startswith("std::option::Option::"):
        return None
    g = x[4]
    if g.op == "adt" and g.a[1] == "None":
        g = next((y[1] for y in reversed(evs) if y[0] == "is" and y[2] == "None"), g)
    if g.op != "get":
        return None
    k = g.a[1]
    while k.op in (".", "*", "ref", "D") and k.a and isinstance(k.a[0], T):
        k = k.a[0]
    return g if k.op == "arg" else None


class Rep:
    """one property's obligations"""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = []  # (rule, where)
        self.bad = []  # (key, text)
        self.und = []  # (where, why)
        self.funcs, self.paths, self.calls = set(), 0, set()
        self.counts = {}
        self.notes = []

    # ---- program
    def load(self, *crates):
        f = build.facts(list(crates))
        self.secs = f["_secs"]
        self.prog = Program(f)
        return self.prog

    def run(self, f, opaque=(), watch=None, args=None, setup=None, apart=(), gone=None):
        """outcomes of an entry point, or None when out of reach"""
        e = Engine(self.prog, opaque, watch)
        try:
            e.apart, e.gone = apart, gone and re.compile(gone)
            rs = e.run(f, args, setup)
        except Explosion as x:
            self.und.append((where(f), f"too many paths in {x}"))
            return e, None
        self.funcs |= {x for x in e.funcs}
        self.paths += len(rs)
        self.calls |= e.sites
        return e, rs

    def one(self, name, found):
        """the single function of that name"""
        if len(found) == 1:
            return found[0]
        self.bad.append((f"anchor {name}", f"public function {name} not found (found {len(found)})"))
        return None

    # ---- verdicts
    def ob(self, rule, place, ok, detail="", unknown=False):
        self.obs.append((rule, place))
        if unknown:
            self.und.append((place, f"{rule}: {detail}"))
        elif not ok:
            k = f"{rule} @ {place}"
            if k not in [x for x, _ in self.bad]:
                self.bad.append((k, detail))
        return ok

    def floor(self, what, n, least):
        self.counts[what] = n
        if n < least:
            self.und.append((f"floor {what}", f"{what}: {n} found, at least {least} expected"))

    def undecided(self, place, why):
        self.und.append((place, why))


TEXTS = {}


def path_text(s, v, limit=40):
    """the path of an outcome, for a report"""
    k = (id(s), id(v))
    if k not in TEXTS:
        TEXTS[k] = (text_of(s, v, limit), s, v)
    return TEXTS[k][0]


def text_of(s, v, limit):
    r = []
    for e in s.events():
        k = e[0]
        if k == "call":
            r.append(f"    call {e[1]}({', '.join(show(x)[:120] for x in e[2])}) at {at(e[5])}")
        elif k in ("if", "is", "isnot"):
            r.append("    " + k + " " + " ".join(show(x)[:200] if isinstance(x, T) else str(x) for x in e[1:]))
        elif k == "w":
            r.append(f"    write {show(e[1])[:80]}{''.join('.' + str(x[1]) for x in e[2] if isinstance(x[1], str))} := {show(e[3])[:200]}")
        elif k == "loop":
            r.append(f"    loop at {at(e[1].at)}")
        elif k in ("lock", "unlock", "panic"):
            r.append("    " + k + " " + " ".join(show(x)[:80] if isinstance(x, T) else "" if isinstance(x, tuple) else str(x) for x in e[1:])[:160])
    if len(r) > limit:
        r = r[:limit] + ["    ..."]
    return "\n".join(r + [f"    result {show(v)[:300] if isinstance(v, T) else v}"])


def known():
    p = f"{VERIF}/known-findings.txt"
    r = {}
    if os.path.exists(p):
        with open(p) as f:
            for x in f:
                x = x.strip()
                if x.startswith("known: property="):
                    pid, key = x[len("known: property="):].split(" ", 1)
                    r.setdefault(pid, []).append(key)
    return r


def main(pid, rules):
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    rep = Rep(pid, tier)
    rule, crates, text = rules[pid]
    rep.load(*crates)
    rule(rep)
    if not rep.obs and not rep.bad:
        rep.bad.append(("floor obligations", "the rule matched nothing"))
    kn = known().get(pid, [])
    new, old = [], []
    for k, d in rep.bad:
        (old if k in kn else new).append((k, d))
    ev = f"{VERIF}/evidence"
    os.makedirs(ev, exist_ok=True)
    byrule = {}
    for r, w in rep.obs:
        byrule[r] = byrule.get(r, 0) + 1
    places = sorted({w for _, w in rep.obs})
    cov = {
        "explanation": text,
        "rules": byrule,
        "obligations": len(rep.obs),
        "discharged": len(rep.obs) - len(rep.bad) - len([1 for u in rep.und]),
        "functions_analysed": len(rep.funcs),
        "paths": rep.paths,
        "library_call_sites": len(rep.calls),
        "constructs": places[:60],
        "functions": sorted(rep.funcs)[:60],
        "counts": rep.counts,
        "undecided": [f"{w}: {y}"[:300] for w, y in rep.und],
        "known_findings": [k for k, _ in old],
    }
    if cov["discharged"] < 0:
        cov["discharged"] = 0
    j = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": cov,
        "assumptions": ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(f"{ev}/{pid}.json", "w") as f:
        json.dump(j, f, indent=1)
    for k, d in old:
        print(f"KNOWN-FINDING: property={pid} {k}")
    vf = f"{ev}/{pid}.violation.txt"
    if os.path.exists(vf):
        os.remove(vf)
    print(f"{pid}: {len(rep.obs)} obligations, {rep.paths} paths, {len(rep.funcs)} functions, {len(rep.und)} undecided, {j['wall_s']} s")
    for w, y in rep.und:
        print(f"  undecided {w}: {y}"[:300])
    if new:
        with open(vf, "w") as f:
            for k, d in new:
                f.write(f"{k}\n{d}\n\n")
                print(f"  {k}\n  {d}"[:3000])
        print(f"VIOLATION property={pid} replay={vf}")
        return 1
    return 0


ASSUME = [
    "the standard library, memmap2, sled, imbl, serde and bigdecimal behave as modelled in sa/models.py",
    "code that needs cardano-multiplatform-lib (not available offline) is analysed only where stubs/ stands in for it",
]
