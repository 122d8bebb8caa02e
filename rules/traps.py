"""No request makes a contract trap: the paths that end in an explicit panic (a missing value that
is unwrapped, an index out of bounds, a difference below zero, an arm declared unreachable) are
enumerated from the compiled program, and each must be impossible."""
from common import *
from paths import Path, linear
from registry import prop
import storage

PCT = fld(stored("sudo-params", UNIT), "bid_removal_reward_percent")
CFG = stored("C", UNIT)


def share(t):
    """mul(x, r) -> (x, r) alternatives"""
    if t.k == "bin" and t.a[0] == "mul":
        return [(t.a[1], t.a[2]), (t.a[2], t.a[1])]
    return []


def bps(t):
    """a fraction of basis points: bps(n) -> n"""
    return t.a[1][0] if t.k == "call" and t.a[0].split("::")[-1] == "bps" and len(t.a[1]) == 1 else t


def sub_(a, b):
    l = dict(a)
    for k, v in b.items():
        l[k] = l.get(k, 0) - v
    return {k: v for k, v in l.items() if v}


def nonneg(l):
    """every coefficient is positive: amounts are unsigned"""
    return all(v >= 0 for v in l.values())


def config_bounds(c, p, l):
    """what the checked limits of the settings (M13, V12) say about the products in l, as differences known not to be negative"""
    out = []
    atoms = [k for k in l if k is not None]
    if c.unit.crate == V1:
        for t in atoms:
            if t.k == "bin" and t.a[0] == "div" and t.a[2] is I(100):
                for x, r in share(t.a[1]):
                    if p.norm(r) is p.norm(PCT):
                        out.append(sub_(linear(x), {t: 1}))
    if c.unit.crate == V2:
        by = {}
        for t in atoms:
            for x, r in share(t):
                n = bps(p.norm(r))
                if n in (fld(CFG, "maker_reward_bps"), fld(CFG, "taker_reward_bps")):
                    by.setdefault(x, {})[n] = t
        for x, m in by.items():
            out.append(sub_(linear(x), {t: 1 for t in m.values()}))
    return out


def impossible_order(c, p):
    """some a < b of the path contradicts the other facts, by cancelling common terms"""
    known = []
    for (a, b), s in p.st.o.items():
        a, b = p.norm(a), p.norm(b)
        if not s & frozenset("<"):
            known.append(sub_(linear(a), linear(b)))  # a >= b
        if not s & frozenset(">"):
            known.append(sub_(linear(b), linear(a)))
    for (a, b), s in p.st.o.items():
        a, b = p.norm(a), p.norm(b)
        if len(s) != 1 or "=" in s:
            continue
        x, y = (a, b) if "<" in s else (b, a)  # x < y
        d = sub_(linear(x), linear(y))         # d < 0 on this path
        ks = known + config_bounds(c, p, d)
        minus = {k: -v for k, v in d.items()}
        if nonneg(d) or any(k != minus and nonneg(sub_(d, k)) for k in ks):
            return True
    return False


def empty_first(p):
    """the first element of a list that is not empty is missing (or the other way round)"""
    for k, v in p.st.d.items():
        if k.k == "call" and k.a[0] in ("first", "last"):
            l = k.a[1][0]
            r = p.rel(I(0), call("len", l))
            if p.isv(k, "None") and r == frozenset("<") or p.isv(k, "Some") and r == frozenset("="):
                return True
    return False


def printed(c, p):
    """a decimal that was printed does not parse"""
    for k, v in p.st.d.items():
        if k.k == "call" and k.a[0].split("::")[-1] == "from_str" and k.a[1][0] in c.engine.printed and p.isv(k, "Err"):
            return True
    return False


def due_end(c, p):
    """an auction met below a bound of the end-time index has an end: the others are filed at the very end"""
    lay = storage.layout(c.prog, c.unit.crate)
    for k, v in p.st.d.items():
        if k.k == "fld" and k.a[1] == "end_time" and p.isv(k, "None"):
            for r in subterms(k):
                if r.k == "range" and r.a[1].k == "prefix" and r.a[1].a[2] is UNIT and r.a[1].a[1].k == "str" and bounded(r):
                    for m in lay.maps:
                        for n, pk, key, keys in m.indexes.values():
                            if n == r.a[1].a[1].a[0] and len(keys or ()) == 2 and I(2 ** 64 - 1) in keys and \
                                    any("end_time" in show(x) for x in keys):
                                return True
    return False


def bounded(r):
    """the range has an upper bound"""
    hi = r.a[3]
    return hi.k == "adt" and hi.a[1] == "Some"


def replies(c, p):
    """a reply to a message the contract never sends: M12 checks the ids of every message"""
    rid = fld(arg("msg"), "id")
    return all("=" not in p.rel(rid, I(i)) for i in (1, 2, 3, 4))


def since_last(p):
    """block time never goes back, and the recorded time is that of an earlier block (checked where it is written)"""
    prev = fld(stored("hm", UNIT), "prev_block_time")
    return p.rel(call("to_secs", NOW), prev) == frozenset("<")


def traps(c, u, paths):
    n = 0
    for st, why, fn, sp in c.engine.traps:
        p = Path(u, st, False, list(st.eff), [], mk("opaque", "panic"))
        p.why = (why, fn, sp)
        n += 1
        if p.facts().contradictory() or impossible_order(c, p) or empty_first(p) or printed(c, p):
            c.need(True, p, "trap")
            continue
        if u.entry.endswith("::reply") and u.crate == V1 and replies(c, p):
            continue
        if u.crate == RA and (due_end(c, p) or since_last(p)):
            continue
        c.need(False, p, "trap/%s/%s" % (why, fn.split("::")[-1]), "%s can panic (%s at %s)" % (fn, why, sp))
    c.count("panics", n)
    c.count("paths", len(paths))
    c.obligations += len(paths)


@prop("M16", [V1], ev=True, floors={"paths": 10})
def m16(c, u, paths):
    traps(c, u, paths)


@prop("R15", [RA], ev=True, floors={"paths": 10})
def r15(c, u, paths):
    traps(c, u, paths)
    for p in paths:
        for q in p.all():
            for x in q.saves("hm"):
                v = fld(x[3], "prev_block_time")
                c.need(q.same(v, call("to_secs", NOW)) or q.same(v, fld(stored("hm", UNIT), "prev_block_time")) or v is I(0), q, "recorded-time",
                       "the time recorded for the last block is that of another one")


@prop("V16", [V2], ev=True, floors={"paths": 10})
def v16(c, u, paths):
    traps(c, u, paths)
