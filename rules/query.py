"""Listing and lookup queries of the three contracts.

A listing is read off the returned term: a storage range (index, prefix, bounds, direction), the
elements kept, how many, and what each becomes.  Index keys come from the index definitions
themselves, so what is compared is "the records whose fields have these values, in this order,
after this cursor", not which index or iterator style produced them."""
from itertools import product
from common import *
from terms import *
import storage, models
from registry import prop

REC = storage.REC
PKS = {
    V1: {"asks": ("collection", "token_id"), "bids": ("collection", "token_id", "bidder"), "col_bids": ("collection", "bidder")},
    RA: {"a": ("collection", "token_id"), "mrp": ("denom",)},
    V2: {"a": ("id",), "o": ("id",), "c": ("id",)},
}


class Odd(Exception):
    """the response is not a listing this reading understands"""


# ---------------------------------------------------------------- reading a listing
class Listing:
    def __init__(self):
        self.base = None     # the range term
        self.rev = False
        self.takes = []      # limit terms
        self.alts = None     # [(facts, kept value or None)] over elem(base); None: the elements themselves
        self.dropped_after_take = False
        self.counted = 0  # the alternatives in force where the limit counts (0: no limit so far)
        self.loop = None


def replace(t, old, new):
    return tmap(lambda x: new if x is old else None, t)


def outer_elems(t):
    out = []
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.k == "elem":
            out.append(x)
            return
        for y in kids(x):
            go(y)
    go(t)
    return out


def kids(t):
    for x in t.a:
        yield from kidsa(x)


def kidsa(x):
    if type(x) is T:
        yield x
    elif type(x) is tuple:
        for y in x:
            yield from kidsa(y)


def factterms(f):
    if f[0] == "o":
        return [f[1][0], f[1][1]]
    return [f[1]]


def mapfact(f, g):
    if f[0] == "o":
        return ("o", (g(f[1][0]), g(f[1][1])), f[2])
    return (f[0], g(f[1]), f[2])


def read(p, t, depth=0):
    if depth > 8:
        raise Odd("nested too deep")
    t0 = t
    if t.k == "iter":
        t = t.a[0]
    if t.k == "list":
        if len(t.a[0]) != 1:
            raise Odd("not a single run of elements: " + show(t)[:200])
        it = t.a[0][0]
        if it[0] == "m":
            return read_m(p, it, depth)
        t = it[1]
    if t.k == "range":
        l = Listing()
        l.base = t
        return l
    if t.k == "call" and t.a[0] == "take":
        l = read(p, t.a[1][0], depth + 1)
        l.takes.append(t.a[1][1])
        if l.counted == 0:
            l.counted = l.alts
        return l
    if t.k == "call" and t.a[0] == "oks":
        return read(p, t.a[1][0], depth + 1)
    if t.k == "call" and t.a[0] == "rev":
        l = read(p, t.a[1][0], depth + 1)
        if l.takes:
            raise Odd("reversed after the limit")
        l.rev = not l.rev
        return l
    if t.k == "call" and t.a[0] == "filter":
        l = read(p, t.a[1][0], depth + 1)
        if l.takes:
            l.dropped_after_take = True
        return l
    raise Odd("not a listing of stored records: " + show(t0)[:200])


def read_m(p, it, depth):
    _, src, alts = it
    els = []
    for facts, items in alts:
        if len(items) > 1 or any(i[0] != "i" for i in items):
            raise Odd("an element of the source becomes several entries")
        for i in items:
            els += [x for x in outer_elems(i[1]) if x not in els]
    its = [f[1].a[0] for facts, _ in alts for f in facts if f[0] == "b" and f[1].k == "iterates" and f[2]]
    if len(els) != 1:
        raise Odd("entries do not come from one source")
    el = els[0]
    if its:
        # an explicit loop: elements are those of the source, the walk says which and how far
        if len(set(its)) != 1:
            raise Odd("the loop walks over several sources")
        for facts, _ in alts:
            if not any(f[0] == "b" and f[1].k == "iterates" for f in facts):
                raise Odd("the loop does not always advance")
        inner = read(p, its[0], depth + 1)
        inner.loop = src
        y = mk("elem", unl1(el.a[0]))
        inner_el = mk("elem", inner.base)
        comb = [(tuple(f for f in facts if f[1] is None or not (f[0] == "b" and f[1].k == "iterates")), items[0][1] if items else None) for facts, items in alts]
        if el is not inner_el:
            raise Odd("the loop lists elements of something else than it walks over")
        if inner.alts is not None:
            raise Odd("loop over a filtered listing")
        # the page is cut when enough entries are listed
        cuts = [[cut(f, src) for f in facts if cut(f, src) is not None] for facts, v in comb]
        n = None
        if any(cuts):
            if not all(len(x) == 1 and x[0] is cuts[0][0] for x in cuts):
                raise Odd("the number of entries is not always limited")
            n = cuts[0][0]
            inner.takes.append(n)
        inner.alts = [(tuple(f for f in facts if cut(f, src) is None), v) for facts, v in comb]
        if inner.counted == 0 and inner.takes:
            inner.counted = inner.alts
        if not ended(p, its[0], src, n):
            raise Odd("the loop stops before the last record or the limit")
        return inner
    inner = read(p, el.a[0], depth + 1)
    outs = []
    base_alts = inner.alts if inner.alts is not None else [((), mk("elem", inner.base))]
    for facts, v in base_alts:
        if v is None:
            outs.append((facts, None))
            continue
        for f2, items in alts:
            g = lambda t: replace(t, el, v)
            outs.append((tuple(facts) + tuple(mapfact(f, g) for f in f2), g(items[0][1]) if items else None))
    inner.alts = outs
    return inner


def lenof(t, src):
    return t.k == "call" and t.a[0] == "len" and any(z.k == "mark" and z.a[0] == src for z in subterms(t))


def cut(f, src):
    """n for a fact saying that fewer than n entries are listed so far by the loop"""
    if f[0] == "o":
        a, b = f[1]
        if lenof(a, src) and f[2] <= frozenset("<"):
            return b
        if lenof(b, src) and f[2] <= frozenset(">"):
            return a
    return None


def ended(p, walk, src, n):
    """did the loop stop because the walk was over, or n entries were listed?"""
    w = p.norm(walk)
    for k, v in p.st.b.items():
        if k.k == "exhausted" and v and p.norm(k.a[0]) is w:
            return True
    for (a, b), s in p.st.o.items():
        if n is not None and (lenof(a, src) and b is n and s <= frozenset("=>") or lenof(b, src) and a is n and s <= frozenset("=<")):
            return True
    return False


def unl1(t):
    return t


# ---------------------------------------------------------------- index keys
def flat(t, n=None):
    if t.k == "tup":
        out = []
        for x in t.a:
            out += flat(x)
        return out
    return [t]


ENDT = mk("call", "end-time-or-max", (REC,))


def source(p, base):
    """(map namespace, components of the full key, prefix values) of a range"""
    lay = storage.layout(p.unit.engine.p, p.unit.crate)
    d = base.a[1]
    if d.k != "prefix" or d.a[1].k != "str":
        raise Odd("range over " + show(d)[:100])
    ns = d.a[1].a[0]
    pre = [] if d.a[2] is UNIT else flat(d.a[2])
    pks = PKS[p.unit.crate]
    if ns in pks:
        return ns, [fld(REC, f) for f in pks[ns]], pre
    ix = lay.index(ns)
    if ix is None:
        raise Odd("unknown index " + ns)
    for m in lay.maps:
        for f, (n, pk, k, ks) in m.indexes.items():
            if n == ns:
                if k is None:
                    et = fld(REC, "end_time")
                    want = {call("to_secs", fld(as_(et, "Some"), "0")), I(2 ** 64 - 1)}
                    if ks and len(ks) == 2 and set(show(x) for x in ks) == set(show(x) for x in want):
                        comps = [ENDT]
                    else:
                        raise Odd("index key of %s has alternatives: %s" % (ns, [show(x) for x in ks or []]))
                else:
                    comps = flat(k)
                    for x in comps:
                        if storage.ambiguous(x) is not None:
                            raise Odd("the index %s joins its parts so that different records look the same: %s" % (ns, show(x)[:100]))
                return m.ns, comps + [fld(REC, x) for x in pks[m.ns]], pre
    raise Odd("unknown index " + ns)


def window(p, base):
    """(namespace, {record field term: value}, [order components], kind, lo, hi, descending)"""
    ns, comps, pre = source(p, base)
    fixed = {}
    if len(pre) > len(comps):
        raise Odd("prefix longer than the key")
    for c, v in zip(comps, pre):
        if not storage.unify(c, v, fixed):
            raise Odd("prefix value %s does not fit the key component %s" % (show(v)[:100], show(c)))
    rest = comps[len(pre):]
    lo, hi = base.a[2], base.a[3]
    order = base.a[4]
    if order.k != "adt" or order.a[1] not in ("Ascending", "Descending"):
        raise Odd("order " + show(order)[:100])
    return ns, fixed, rest, base.a[0], bound(lo), bound(hi), order.a[1] == "Descending"


def bound(b):
    """None | (kind, [values]) | ("?", term)"""
    if b.k != "adt":
        return ("?", b)
    if b.a[1] == "None":
        return None
    x = fld(b, "0")
    if x.k == "bound":
        k = x.a[0] if isinstance(x.a[0], str) else x.a[0].a[0]
        return (k, flat(x.a[1]))
    return ("?", x)


def order_of(p, fixed, rest):
    """components that order the listing, fixed and repeated ones left out"""
    out = []
    for c in rest:
        if c in fixed or c in out:
            continue
        out.append(c)
    return out


def cursor_of(p, fixed, rest, vals):
    """values a bound gives the ordering components; Odd when it contradicts the prefix"""
    if len(vals) != len(rest):
        raise Odd("the bound has %d components, the key %d" % (len(vals), len(rest)))
    got, out = dict(fixed), []
    for c, v in zip(rest, vals):
        if c in got:
            if not p.same(got[c], v):
                raise Odd("the bound names %s for %s, the listing %s" % (show(v)[:120], show(c), show(got[c])[:120]))
            continue
        got[c] = v
        out.append(v)
    return out


# ---------------------------------------------------------------- conditions
def consistent(facts, val):
    """do the facts hold under the valuation {term: variant or bool}? None: a fact on something else"""
    for f in facts:
        if f[0] == "d":
            if f[1] not in val:
                return None
            v = val[f[1]]
            if f[2][0] == "is" and f[2][1] != v or f[2][0] != "is" and v in f[2][1]:
                return False
        elif f[0] == "b":
            if f[1] not in val:
                return None
            if val[f[1]] != f[2]:
                return False
        else:
            return None
    return True


# ---------------------------------------------------------------- the rule
def listing(c, p, t, fixed, order, cursor, key, limit, desc=False, keep=None, proj=None, ns=None, lo=None, hi=None):
    """fixed: {field: value}; order: [components]; cursor: None | ("exclusive", [values]) on the side
    the direction starts from; limit: the optional limit term; keep: (atoms, function) filter;
    lo/hi: bounds given explicitly instead of a cursor"""
    try:
        l = read(p, t)
        n, fx, rest, kind, blo, bhi, d = window(p, l.base)
    except Odd as ex:
        c.need(False, p, key + "/listing", str(ex))
        return
    c.count("listings")
    d = d != l.rev
    c.need(n == ns and kind in ("range", "sub_range"), p, key + "/source", lambda: "lists %s (%s), expected records of %s" % (n, kind, ns))
    want = {fld_path(f): v for f, v in fixed.items()}
    good = set(want) == set(fx) and all(p.same(want[k], fx[k]) for k in want)
    c.need(good, p, key + "/selection", lambda: "lists records with %s, expected %s" % (
        ", ".join("%s = %s" % (show(k), show(v)[:120]) for k, v in fx.items()) or "no condition",
        ", ".join("%s = %s" % (show(k), show(v)[:120]) for k, v in want.items()) or "no condition"))
    got = order_of(p, fx, rest)
    c.need(len(got) == len(order) and all(x is y for x, y in zip(got, order)), p, key + "/order",
           lambda: "ordered by %s, expected %s" % ([show(x) for x in got], [show(x) for x in order]))
    c.need(d == desc, p, key + "/direction", "lists in the opposite order")
    if lo is None and hi is None:
        lo, hi = (None, cursor) if desc else (cursor, None)
    for side, b, w in (("start", blo, lo), ("end", bhi, hi)):
        one_bound(c, p, key, side, b, w, fx, rest)
    # how many
    c.need(not l.dropped_after_take, p, key + "/filter-after-limit", "entries are dropped after the page was cut")
    lims = [p.norm(x) for x in l.takes]
    c.need(len(lims) == 1 and limit_ok(p, lims[0], limit), p, key + "/limit",
           lambda: "page limited by %s" % [show(x) for x in lims])
    # which are kept, and what they become
    el = mk("elem", l.base)
    rec = fld(fld(as_(el, "Ok"), "0"), "1")
    alts = l.alts if l.alts is not None else [((), el)]
    atoms, want_keep = keep(rec) if keep else ({}, lambda v: True)
    atoms = dict(atoms)
    atoms[el] = ("Ok",)
    names = list(atoms)
    ncases = 0
    for vals in product(*[atoms[x] for x in names]):
        val = dict(zip(names, vals))
        # what the whole path knows about the request
        if any(p.st.d.get(k) is not None and not dfits(p.st.d[k], v) for k, v in val.items()) or \
                any(k in p.st.b and p.st.b[k] != v for k, v in val.items()):
            continue
        ncases += 1
        yes = no = False
        for facts, v in alts:
            fs = [mapfact(f, lambda x: x) for f in facts if not neutral(f)]
            r = consistent(fs, val)
            if r is None:
                c.need(False, p, key + "/condition", lambda: "whether an entry is listed depends on " + "; ".join(factshow(f) for f in fs))
                return
            if r:
                if v is None:
                    no = True
                else:
                    yes = True
                    w = proj(rec, el) if proj else rec
                    vv = v
                    if vv is not w and vv.k == "adt" and vv.a[1] == "Ok":
                        vv = fld(vv, "0")
                    if vv is el and not proj:
                        vv = w if False else vv
                    c.need(p.same(vv, w), p, key + "/entry", lambda: "an entry is %s, expected the stored record" % show(vv)[:200])
        if not yes and l.counted != 0:
            pre = l.counted is None or any(v is not None and consistent([f for f in facts if not neutral(f)], val) for facts, v in l.counted)
            c.need(not pre, p, key + "/filter-after-limit", lambda: "a record with %s counts for the page and is dropped after it was cut" % ", ".join("%s %s" % (show(k), v) for k, v in val.items()))
        wk = want_keep(val)
        c.need((yes and not no) if wk else not yes, p, key + "/filter", lambda: "a record with %s is %s" % (
            ", ".join("%s %s" % (show(k), v) for k, v in val.items()), "left out" if wk else "listed"))
    c.count("cases", ncases)


def neutral(f):
    return f[0] == "b" and f[1].k in ("iterates", "exhausted")


def factshow(f):
    return "%s %s" % (" ? ".join(show(x)[:100] for x in factterms(f)), f[2])


def dfits(f, v):
    return f[1] == v if f[0] == "is" else v not in f[1]


def fld_path(f):
    t = REC
    for x in f.split("."):
        t = fld(t, x)
    return t


def one_bound(c, p, key, side, b, w, fx, rest):
    if w is None:
        c.need(b is None, p, "%s/%s" % (key, side), lambda: "the listing is cut at its %s without being asked to: %s" % (side, showb(b)))
        return
    if w == "any":
        return
    if b is None or b[0] == "?":
        c.need(False, p, "%s/%s" % (key, side), lambda: "the %s of the listing is %s, expected %s %s" % (side, showb(b), w[0], [show(x)[:80] for x in w[1]]))
        return
    try:
        vals = cursor_of(p, fx, rest, b[1])
    except Odd as ex:
        c.need(False, p, "%s/%s" % (key, side), str(ex))
        return
    kinds = w[0] if isinstance(w[0], tuple) else (w[0],)
    alts = w[1] if w[1] and isinstance(w[1][0], list) else [w[1]]
    c.need(b[0] in kinds and any(len(vals) == len(a) and all(p.same(x, y) for x, y in zip(vals, a)) for a in alts), p, "%s/%s" % (key, side),
           lambda: "the %s of the listing is %s, expected %s %s" % (side, showb(b), w[0], [show(x)[:80] for x in alts[0]]))


def showb(b):
    return "open" if b is None else "%s %s" % (b[0], [show(x)[:80] for x in b[1]] if isinstance(b[1], list) else show(b[1])[:200])


def limit_ok(p, n, lt):
    """n = min(limit or a default, a maximum)"""
    if lt is None:
        return False
    if p.isv(lt, "None"):
        n = constmin(n)
        return n is not None and n > 0
    if p.isv(lt, "Some"):
        v = p.norm(fld(as_(lt, "Some"), "0"))
        ls = leaves(p, n)
        if not all(x is v or x.k == "int" and x.a[0] > 0 for x in ls):
            return False
        ints = {x for f in p.st.o for x in f if x.k == "int"}
        capped = any(x.k == "int" for x in ls) or any(p.le(v, x) for x in ints)
        return capped and (v in ls or any(p.le(x, v) for x in ls))
    return False


def leaves(p, n):
    if n.k == "min" or n.k == "call" and n.a[0] == "min":
        return [y for x in (n.a if n.k == "min" else n.a[1]) for y in leaves(p, x)]
    return [p.norm(n)]


def constmin(n):
    if n.k == "int":
        return n.a[0]
    if n.k == "min" or n.k == "call" and n.a[0] == "min":
        xs = [constmin(x) for x in (n.a if n.k == "min" else n.a[1])]
        return None if None in xs else min(xs)
    return None


def response(c, p, key):
    """the value serialised as the answer"""
    r = p.ret
    if r.k == "adt" and r.a[1] == "Ok":
        r = fld(r, "0")
    if r.k == "json":
        return r.a[0]
    if r.k == "call" and r.a[0] == "json":
        return r.a[1][0]
    c.need(False, p, key + "/response", lambda: "the answer is " + show(r)[:200])
    return None


def failures(c, p, key):
    """a query fails only when an address is invalid or a stored value cannot be read"""
    for k, v in p.st.b.items():
        if k.k == "succeeds" and v is False:
            return c.need(True, p, key)
    for k, v in p.st.d.items():
        if v == ("is", "Err") or v[0] == "not" and "Ok" in v[1]:
            return c.need(True, p, key)
    if any(x.k in ("load", "loaderr", "failed") or x.k == "opaque" and x.a[0] == "element-error" for x in subterms(p.ret)):
        return c.need(True, p, key)
    c.need(False, p, key + "/fails", lambda: "the query fails: " + show(p.ret)[:200])
    return None


def looked_up(c, p, t, ns, k, key):
    """t is the record stored under k, or nothing"""
    m = mk("mayload", S(ns), k, 0)
    n = p.norm(m)
    t = p.norm(t)
    v = None
    if t is n:
        v = True
    elif t.k == "adt" and t.a[0] == "Option":
        if t.a[1] == "None":
            v = p.isv(m, "None") is True
        else:
            v = p.isv(m, "Some") is True and p.same(fld(t, "0"), mk("stored", S(ns), k, 0))
    c.count("lookups")
    c.need(bool(v), p, key + "/lookup", lambda: "answers %s, expected the record at %s[%s]" % (show(t)[:200], ns, show(k)[:120]))


def looked_up_all(c, p, t, ns, keys, key):
    """t lists the records stored under the given keys, in their order, missing ones left out"""
    c.count("lookups")
    el = mk("elem", keys)
    m = p.norm(mk("mayload", S(ns), el, 0))
    st = p.norm(mk("stored", S(ns), el, 0))
    good = t.k == "list" and len(t.a[0]) == 1 and t.a[0][0][0] == "m"
    # a loop that looks the keys up ends when there are no more
    good = good and not any(k.k == "iterates" and v and p.norm(k.a[0]) is p.norm(keys) and mk("exhausted", k.a[0]) not in p.st.b for k, v in p.st.b.items())
    if good:
        src, alts = t.a[0][0][1], t.a[0][0][2]
        for v in ("Some", "None"):
            yes = no = False
            for facts, items in alts:
                fs = [mapfact(f, p.norm) for f in facts]
                for f in fs:
                    if f[0] == "b" and f[1].k == "iterates" and f[1].a[0] is not p.norm(keys):
                        good = False
                fs = [f for f in fs if not neutral(f)]
                r = consistent(fs, {m: v})
                if r is None:
                    good = False
                elif r:
                    if not items:
                        no = True
                    elif len(items) == 1 and items[0][0] == "i" and p.norm(items[0][1]) is st:
                        yes = True
                    else:
                        good = False
            good = good and ((yes and not no) if v == "Some" else not yes)
    c.need(good, p, key + "/lookup", lambda: "answers %s, expected the records stored under the given keys" % show(t)[:300])


# ---------------------------------------------------------------- the marketplace
def field_listing(t, f):
    return fld(t, f)


def active_only(u):
    inc = msgf(u, "include_inactive")
    some_ = fld(as_(inc, "Some"), "0")

    def keep(rec):
        act = fld(rec, "is_active")
        return ({inc: ("Some", "None"), some_: (True, False), act: (True, False)},
                lambda v: v[act] or v[inc] == "Some" and v[some_])
    return keep


def val(t):
    return valid(t)


def K(*fs):
    return [fld_path(f) for f in fs]


SECS = call("to_secs", fld(REC, "expires_at"))


def v1_spec(u):
    """variant -> (namespace, response field, fixed, order, descending, cursor field, cursor values, filter)"""
    m = lambda f: msgf(u, f)
    v = u.variant
    sa = "start_before" if "Reverse" in v else "start_after"
    o = fld(as_(m(sa), "Some"), "0") if v not in () else None
    of = lambda f: fld(o, f)
    coll, tok, bidder = valid(m("collection")), m("token_id"), valid(m("bidder"))
    table = {
        "Asks": ("asks", "asks", {"collection": coll}, K("token_id"), [o]),
        "ReverseAsks": ("asks", "asks", {"collection": coll}, K("token_id"), [o]),
        "AsksSortedByPrice": ("asks", "asks", {"collection": coll}, K("price", "token_id"), [of("price"), of("token_id")]),
        "ReverseAsksSortedByPrice": ("asks", "asks", {"collection": coll}, K("price", "token_id"), [of("price"), of("token_id")]),
        "AsksBySeller": ("asks", "asks", {"seller": valid(m("seller"))}, K("collection", "token_id"), [valid(of("collection")), of("token_id")]),
        "Bids": ("bids", "bids", {"collection": coll, "token_id": tok}, K("bidder"), [valid(o)]),
        "BidsByBidder": ("bids", "bids", {"bidder": bidder}, K("collection", "token_id"), [valid(of("collection")), of("token_id")]),
        "BidsSortedByPrice": ("bids", "bids", {"collection": coll}, K("price", "token_id", "bidder"), [of("price"), of("token_id"), of("bidder")]),
        "ReverseBidsSortedByPrice": ("bids", "bids", {"collection": coll}, K("price", "token_id", "bidder"), [of("price"), of("token_id"), of("bidder")]),
        "BidsByBidderSortedByExpiration": ("bids", "bids", {"bidder": bidder}, [SECS] + K("collection", "token_id"), None),
        "CollectionBidsByBidder": ("col_bids", "bids", {"bidder": bidder}, K("collection"), [valid(of("collection"))]),
        "CollectionBidsSortedByPrice": ("col_bids", "bids", {"collection": coll}, K("price", "bidder"), [of("price"), valid(of("bidder"))]),
        "ReverseCollectionBidsSortedByPrice": ("col_bids", "bids", {"collection": coll}, K("price", "bidder"), [of("price"), valid(of("bidder"))]),
        "CollectionBidsByBidderSortedByExpiration": ("col_bids", "bids", {"bidder": bidder}, [SECS] + K("collection"), None),
    }
    r = table.get(v)
    return r and (r, m(sa), o)


V1_LISTS = ["Asks", "ReverseAsks", "AsksSortedByPrice", "ReverseAsksSortedByPrice", "AsksBySeller", "Bids", "BidsByBidder",
            "BidsSortedByPrice", "ReverseBidsSortedByPrice", "BidsByBidderSortedByExpiration", "CollectionBidsByBidder",
            "CollectionBidsSortedByPrice", "ReverseCollectionBidsSortedByPrice", "CollectionBidsByBidderSortedByExpiration"]
V1_LOOKUPS = ["Ask", "AskCount", "Bid", "CollectionBid", "AskHooks", "BidHooks", "SaleHooks", "Params"]


@prop("M14", [V1], ["query"], V1_LISTS + ["Collections"], floors={"listings": 10})
def m14(c, u, ps):
    if u.entry.split("::")[-1] != "query" or u.variant not in V1_LISTS:
        return
    (ns, f, fixed, order, curv), start, o = v1_spec(u)
    for p in ps:
        if p.ok is not True:
            failures(c, p, u.variant)
            continue
        r = response(c, p, u.variant)
        if r is None:
            continue
        cur = None
        if p.isv(start, "Some"):
            cur = ("exclusive", curv)
            if curv is None:
                # the cursor names a bid: the listing goes on after it
                coll = valid(fld(o, "collection"))
                b = valid(msgf(u, "bidder"))
                cands = []
                for who in (b, valid(fld(o, "bidder"))):
                    k = tup(coll, fld(o, "token_id"), who) if ns == "bids" else tup(coll, who)
                    cands.append((mk("mayload", S(ns), k, 0), [call("to_secs", fld(mk("stored", S(ns), k, 0), "expires_at")), coll] + ([fld(o, "token_id")] if ns == "bids" else []), who))
                gone = [x for x in cands if p.isv(x[0], "None")]
                there = [x for x in cands if p.isv(x[0], "Some")]
                if gone and not there:
                    cur = "any"
                elif there:
                    cur = ("exclusive", [x[1] for x in there])
                    if there[0][2] is not b:
                        # a cursor entry of this bidder's listing names this bidder
                        p2 = p
                        p = assume_same(p, there[0][2], b)
                else:
                    cur = ("exclusive", cands[0][1])
        elif not p.isv(start, "None"):
            c.need(False, p, u.variant + "/cursor-not-considered", "the cursor of the request is not looked at")
            continue
        listing(c, p, fld(r, f), fixed, order, cur, u.variant, msgf(u, "limit"), desc="Reverse" in u.variant,
                keep=active_only(u) if ns == "asks" else None, ns=ns)


def assume_same(p, a, b):
    s = p.st.copy()
    s.o = dict(s.o)
    s.o[(a, b)] = frozenset("=")
    q = Path(p.unit, s, p.ok, p.eff, p.items, p.ret)
    q.subs, q.parent = p.subs, p.parent
    return q


@prop("M14", [V1], ["query"], V1_LISTS + ["Collections"], floors={"collections": 2})
def m14_collections(c, u, ps):
    """the next collection after the last one listed, until enough are listed or none is left"""
    if u.variant != "Collections":
        return
    start = msgf(u, "start_after")
    for p in ps:
        if p.ok is not True:
            failures(c, p, u.variant)
            continue
        r = response(c, p, u.variant)
        if r is None:
            continue
        t = fld(r, "collections")
        c.count("collections")
        good, why = collections(p, t, start, msgf(u, "limit"))
        c.need(good, p, "Collections/listing", why)


def collections(p, t, start, limit):
    if not (t.k == "list" and len(t.a[0]) == 1 and t.a[0][0][0] == "m"):
        if t is EMPTY:
            return False, "lists nothing"
        return False, "not a listing: " + show(t)[:200]
    _, src, alts = t.a[0][0]
    lv, whole, counts, bases = None, False, set(), []
    for facts, items in alts:
        if len(items) != 1 or items[0][0] != "i":
            return False, "a step lists %d collections" % len(items)
        els = outer_elems(items[0][1])
        if len(els) != 1 or els[0].a[0].k != "range":
            return False, "a collection is listed that is not read from the asks: " + show(items[0][1])[:200]
        base = els[0].a[0]
        d = base.a[1]
        if base.a[0] != "prefix_range" or d.a[1] is not S("asks") or base.a[3].k != "adt" or base.a[3].a[1] != "None" or base.a[4].a[1] != "Ascending":
            return False, "collections come from %s" % show(base)[:200]
        want = fld(fld(fld(fld(as_(els[0], "Ok"), "0"), "0"), "0"), "0")
        if not (items[0][1] is want or show(items[0][1]) == show(fld(fld(fld(as_(els[0], "Ok"), "0"), "0"), "0"))):
            return False, "lists %s" % show(items[0][1])[:200]
        b = base.a[2]
        its = [f[1].a[0] for f in facts if f[0] == "b" and f[1].k == "iterates"]
        counts |= {x for x in its if x.k == "adt" and x.a[0].endswith("Range")}
        its = [x for x in its if x not in counts]
        bases.append(base)
        if its != [base]:
            return False, "the first ask after the cursor is not the one used: %s" % [show(x)[:100] for x in its]
        vars_ = [x for x in p.st.loops if any(y is x for k in ([b] + [f[1] for f in facts if f[0] == "d"]) for y in subterms(k))]
        vars_ = [x for x in vars_ if x.k == "lv" and x.a[0] == src]
        if len(vars_) != 1 or lv not in (None, vars_[0]):
            return False, "the position does not advance with the listing"
        lv = vars_[0]
        isn = [f for f in facts if f[0] == "d" and f[1] is lv]
        if b.k == "adt" and b.a[1] == "None":
            if not isn or isn[0][2] != ("is", "None"):
                return False, "starts over after a collection was listed"
        else:
            x = fld(b, "0")
            inner = list(subterms(x))
            whole = not any(y.k == "as" and y.a[0] is lv for y in inner)
            if not (x.k in ("call", "bound") and "xclusive" in show(x) and "clusive" not in show(lv)):
                return False, "the next collection is sought after %s" % show(b)[:200]
    if lv is None:
        return False, "the position does not advance with the listing"
    init, nexts = p.st.loops[lv]
    for (facts, nxt) in nexts:
        ok_ = False
        for f2, items in alts:
            if tuple(f2) == tuple(facts):
                ok_ = nxt is items[0][1] if whole else nxt.k == "adt" and nxt.a[1] == "Some" and fld(nxt, "0") is items[0][1]
        if not ok_:
            return False, "after listing a collection the position becomes %s" % show(nxt)[:200]
    if whole:
        good = p.isv(start, "Some") and p.same(init, valid(fld(as_(start, "Some"), "0")))
    elif p.isv(start, "None"):
        good = init.k == "adt" and init.a[1] == "None"
    elif p.isv(start, "Some"):
        good = init.k == "adt" and init.a[1] == "Some" and p.same(fld(init, "0"), valid(fld(as_(start, "Some"), "0")))
    else:
        good = False
    if not good:
        return False, "the listing starts from %s" % show(init)[:200]
    # every step is taken only while fewer than the limit are listed, and steps are taken until then or the end
    if counts:
        n = p.norm(fld(list(counts)[0], "end"))
        if len(counts) != 1 or fld(list(counts)[0], "start") is not I(0):
            return False, "the number of collections listed is not limited as asked"
    else:
        ns = {x for facts, items in alts for x in [cut(f, src) for f in facts] if x is not None}
        if len(ns) != 1 or not all(any(cut(f, src) is not None for f in facts) for facts, items in alts):
            return False, "the number of collections listed is not limited as asked"
        n = list(ns)[0]
    if not limit_ok(p, p.norm(n), limit):
        return False, "the number of collections listed is not limited as asked"
    if not any(ended(p, w, src, n) for w in bases + list(counts)):
        return False, "the listing stops before the last collection or the limit"
    return True, ""


@prop("M15", [V1], ["query"], V1_LOOKUPS, floors={"lookups": 2})
def m15(c, u, ps):
    if u.variant not in V1_LOOKUPS:
        return
    m = lambda f: msgf(u, f)
    v = u.variant
    for p in ps:
        if p.ok is not True:
            failures(c, p, v)
            continue
        r = response(c, p, v)
        if r is None:
            continue
        if v == "Ask":
            looked_up(c, p, fld(r, "ask"), "asks", tup(valid(m("collection")), m("token_id")), v)
        elif v == "Bid":
            looked_up(c, p, fld(r, "bid"), "bids", tup(valid(m("collection")), m("token_id"), valid(m("bidder"))), v)
        elif v == "CollectionBid":
            looked_up(c, p, fld(r, "bid"), "col_bids", tup(valid(m("collection")), valid(m("bidder"))), v)
        elif v == "Params":
            item(c, p, fld(r, "params"), "sudo-params", v)
        elif v == "AskCount":
            counted(c, p, fld(r, "count"), {"collection": valid(m("collection"))}, "asks", v)
        else:
            ns = {"AskHooks": "ask-hooks", "BidHooks": "bid-hooks", "SaleHooks": "sale-hooks"}[v]
            c.count("lookups")
            h = r
            good = any(x is S(ns) for x in subterms(h)) and not any(x.k == "str" and x is not S(ns) for x in subterms(h))
            c.need(good, p, v + "/lookup", lambda: "answers %s, expected the hooks registered under %s" % (show(h)[:200], ns))


def item(c, p, t, ns, key):
    c.count("lookups")
    c.need(stored_item(p, t, ns), p, key + "/lookup", lambda: "answers %s, expected the stored %s" % (show(t)[:200], ns))


def stored_item(p, t, ns):
    t = p.norm(t)
    return t.k == "stored" and t.a[0] is S(ns)


def counted(c, p, t, fixed, ns, key):
    c.count("lookups")
    t = p.norm(t)
    why = "answers " + show(t)[:200]
    good = False
    walk = None
    if t.k == "call" and t.a[0] == "len":
        walk = t.a[1][0]
    elif t.k == "lv" and t in p.st.loops:
        init, nexts = p.st.loops[t]
        ws = [[f[1].a[0] for f in facts if f[0] == "b" and f[1].k == "iterates" and f[2]] for facts, _ in nexts]
        if init is I(0) and all(nxt is binop("add", t, I(1)) for _, nxt in nexts) and ws and all(w == ws[0] and len(w) == 1 for w in ws) \
                and all(len(facts) == 1 for facts, _ in nexts) and mk("exhausted", ws[0][0]) in p.st.b:
            walk = ws[0][0]
    if walk is not None:
        try:
            l = read(p, walk)
            n, fx, rest, kind, lo, hi, d = window(p, l.base)
            want = {fld_path(f): v for f, v in fixed.items()}
            good = n == ns and set(want) == set(fx) and all(p.same(want[k], fx[k]) for k in want) and lo is None and hi is None \
                and not l.takes and l.alts is None
        except Odd as ex:
            why = str(ex)
    c.need(good, p, key + "/count", why)


# ---------------------------------------------------------------- the auction house
RA_LISTS = ["AuctionsBySeller", "AuctionsByEndTime", "MinReservePrices"]
RA_LOOKUPS = ["Auction", "Config", "HaltManager"]


def options(p, u):
    """the query options of the request; left out: all of them unset"""
    o = msgf(u, "query_options")
    if p.isv(o, "Some"):
        return fld(as_(o, "Some"), "0")
    for k in p.st.d:
        x = k
        while x.k in ("fld", "as"):
            x = x.a[0]
        if x.k in ("default",) or x.k == "call" and x.a[0] == "default":
            return x
    return None


def descending(p, o):
    d = fld(o, "descending")
    if p.isv(d, "None"):
        return False
    if p.isv(d, "Some"):
        return p.truth(fld(as_(d, "Some"), "0"))
    return None


@prop("R13", [RA], ["query"], RA_LISTS, floors={"listings": 7})
def r13(c, u, ps):
    if u.variant not in RA_LISTS:
        return
    v = u.variant
    for p in ps:
        if p.ok is not True:
            failures(c, p, v)
            continue
        r = response(c, p, v)
        o = options(p, u)
        if r is None or o is None:
            c.need(False, p, v + "/options", "the options of the request are not looked at")
            continue
        desc = descending(p, o)
        if desc is None:
            c.need(False, p, v + "/options", "the direction of the request is not looked at")
            continue
        sa = fld(o, "start_after")
        off = fld(as_(sa, "Some"), "0")
        keyed = [fld(off, "collection"), fld(off, "token_id")]
        given = p.isv(sa, "Some")
        if given is None and not p.isv(sa, "None"):
            c.need(False, p, v + "/cursor-not-considered", "the cursor of the request is not looked at")
            continue
        cur = lo = hi = None
        if v == "AuctionsBySeller":
            ns, fixed, order = "a", {"seller": msgf(u, "seller")}, K("collection", "token_id")
            cur = ("exclusive", keyed) if given else None
        elif v == "MinReservePrices":
            ns, fixed, order = "mrp", {}, K("denom")
            cur = ("exclusive", [fld(off, "denom")]) if given else None
        else:
            ns, fixed, order = "a", {}, [ENDT] + K("collection", "token_id")
            at = [msgf(u, "end_time")] + (keyed if given else [S(""), S("")])
            b = ("exclusive" if given else ("exclusive", "inclusive"), at)
            top = ("exclusive", [I(2 ** 64 - 1), S(""), S("")])
            lo, hi = (None, b) if desc else (b, top)
        proj = None
        if v == "MinReservePrices":
            proj = lambda rec, el: adt("Coin", "Coin", denom=fld(fld(fld(as_(el, "Ok"), "0"), "0"), "0") if False else fld(fld(as_(el, "Ok"), "0"), "0"), amount=rec)
        listing(c, p, r, fixed, order, cur, v, fld(o, "limit"), desc=desc, ns=ns, proj=proj, lo=lo, hi=hi)


@prop("R14", [RA], ["query"], RA_LOOKUPS, floors={"lookups": 2})
def r14(c, u, ps):
    if u.variant not in RA_LOOKUPS:
        return
    v = u.variant
    for p in ps:
        if p.ok is not True:
            failures(c, p, v)
            continue
        r = response(c, p, v)
        if r is None:
            continue
        if v == "Auction":
            looked_up(c, p, r, "a", tup(valid(msgf(u, "collection")), msgf(u, "token_id")), v)
        else:
            item(c, p, r, {"Config": "cfg", "HaltManager": "hm"}[v], v)


# ---------------------------------------------------------------- the second marketplace
V2_LISTS = {
    "AsksByCollectionDenom": ("a", "price"), "AsksByCreatorCollection": ("a", "creator"),
    "BidsByTokenPrice": ("o", "token"), "BidsByCreatorCollection": ("o", "creator"),
    "CollectionBidsByPrice": ("c", "price"), "CollectionBidsByCreatorCollection": ("c", "creator"),
}
V2_LOOKUPS = ["Config", "CollectionDenom", "Ask", "Asks", "Bid", "Bids", "CollectionBid", "CollectionBids"]


@prop("V14", [V2], ["query"], list(V2_LISTS), floors={"listings": 10})
def v14(c, u, ps):
    if u.variant not in V2_LISTS:
        return
    v = u.variant
    ns, kind = V2_LISTS[v]
    m = lambda f: msgf(u, f)
    fixed = {"collection": valid(m("collection"))}
    if kind == "creator":
        fixed["creator"] = valid(m("creator"))
        order = K("id")
    else:
        fixed["details.price.denom"] = m("denom")
        order = K("details.price.amount", "id")
    if kind == "token":
        fixed["token_id"] = m("token_id")
    for p in ps:
        if p.ok is not True:
            failures(c, p, v)
            continue
        r = response(c, p, v)
        o = options(p, u)
        if r is None or o is None:
            c.need(False, p, v + "/options", "the options of the request are not looked at")
            continue
        desc = descending(p, o)
        bs = []
        for side in ("min", "max"):
            b = fld(o, side)
            if p.isv(b, "None"):
                bs.append(None)
                continue
            q = fld(as_(b, "Some"), "0")
            k = "Inclusive" if p.isv(q, "Inclusive") else "Exclusive" if p.isv(q, "Exclusive") else None
            if not p.isv(b, "Some") or k is None:
                bs.append("unread")
                continue
            x = fld(as_(q, k), "0")
            bs.append((k.lower(), [x] if kind == "creator" else [fld(x, "amount"), fld(x, "id")]))
        if desc is None or "unread" in bs:
            c.need(False, p, v + "/options", "the direction or a bound of the request is not looked at")
            continue
        if bs == [None, None]:
            listing(c, p, r, fixed, order, None, v, fld(o, "limit"), desc=desc, ns=ns)
        else:
            listing(c, p, r, fixed, order, None, v, fld(o, "limit"), desc=desc, ns=ns, lo=bs[0], hi=bs[1])


@prop("V15", [V2], ["query"], V2_LOOKUPS, floors={"lookups": 2})
def v15(c, u, ps):
    if u.variant not in V2_LOOKUPS:
        return
    v = u.variant
    for p in ps:
        if p.ok is not True:
            failures(c, p, v)
            continue
        r = response(c, p, v)
        if r is None:
            continue
        one = fld(as_(arg("msg"), v), "0")
        if v == "Config":
            item(c, p, r, "C", v)
        elif v == "CollectionDenom":
            looked_up(c, p, r, "D", valid(msgf(u, "collection")), v)
        elif v in ("Ask", "Bid", "CollectionBid"):
            looked_up(c, p, r, {"Ask": "a", "Bid": "o", "CollectionBid": "c"}[v], one, v)
        else:
            looked_up_all(c, p, r, {"Asks": "a", "Bids": "o", "CollectionBids": "c"}[v], one, v)
