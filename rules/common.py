"""Shared vocabulary of the rules: obligations, message matching, facts about standard queries."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from terms import *
from paths import Path
import money
from money import messages, events, bag, badd, bagcoin, inflow, zero, showbag, normbag

V1, RA, V2, COMMON = "sg_marketplace", "stargaze_reserve_auction", "stargaze_marketplace_v2", "sg_marketplace_common"
NATIVE = S("ustars")
SENDER = fld(arg("info"), "sender")
FUNDS = fld(arg("info"), "funds")
NOW = fld(fld(arg("env"), "block"), "time")
SELF = fld(fld(arg("env"), "contract"), "address")
EMPTY = lst()


def paid(nm, *a):
    return mk("paid", nm, FUNDS, *a)


def valid(t):
    return mk("valid", t)


def stored(ns, key, ver=0):
    return mk("stored", S(ns), key, ver)


def mayload(ns, key, ver=0):
    return mk("mayload", S(ns), key, ver)


def msgf(u, f):
    return fld(as_(arg("msg"), u.variant), f)


def call(n, *a):
    return mk("call", n, tuple(a))


class Ctx:
    """collects obligations and violations of one rule on one unit"""

    def __init__(self, prop, unit):
        self.prop, self.unit = prop, unit
        self.obligations = 0
        self.counts = {}
        self.violations = {}

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, cond, p, key, msg=None):
        """one obligation; a failure is keyed by unit and rule instance, never by position"""
        self.obligations += 1
        if cond:
            return True
        self.fail(p, key, msg)
        return False

    def fail(self, p, key, msg=None):
        k = "%s|%s|%s" % (self.prop, self.unit.name if self.unit else "program", key)
        v = self.violations.get(k)
        if v:
            v["paths"] += 1
            return
        if callable(msg):
            msg = msg()
        v = {"key": k, "what": msg or key, "paths": 1}
        if p is not None:
            v["path"] = p.describe()
            v["messages"] = [m.text() for m in messages(p)][:20]
            v["effects"] = [effshow(x) for x in p.eff][:20]
            if p.ok is not True:
                v["result"] = show(p.ret)[:300]
        self.violations[k] = v

    def holds(self, p, a, want, b, key, msg=None):
        """the order of a and b is within want ("<", "<=", "=", ...) on this path"""
        got = p.rel(a, b)
        return self.need(got <= frozenset(want), p, key,
                         msg or (lambda: "%s %s %s is not enforced" % (show(a), "or ".join(want), show(b))))


def effshow(x):
    if x[0] in ("save", "remove"):
        return "%s %s[%s]%s  (%s, %s)" % (x[0], show(x[1]), show(x[2]), " := " + show(x[3])[:300] if x[3] is not None else "", x[4], x[5])
    return " ".join(show(y)[:200] if isinstance(y, T) else str(y)[:200] for y in x)


# ---------------------------------------------------------------- who gets what
def money_msgs(p):
    """[Msg] that move coins out of the contract"""
    return [m for m in messages(p) if m.kind in ("send", "burn", "fairburn") or m.kind == "exec" and m.bag or m.kind == "nft" and m.bag]


def match(ctx, p, expected, key, extra_ok=None):
    """the payments of a path are exactly the expected ones: expected = [(label, kind, recipient
    or None, bag)]; an expected payment that is empty on this path may be absent"""
    left = list(money_msgs(p))
    ok_ = True
    for label, kind, to, b in expected:
        if p.unit.variant is not None and "info" in p.unit.argnames:
            b = money.subst(p, b, FUNDS)
        hit = None
        for m in left:
            if m.kind != kind or (to is not None and not p.same(m.to, to)):
                continue
            mb = money.subst(p, m.bag, FUNDS)
            if zero(p, badd(mb, b, -1)):
                hit = m
                break
        if hit is not None:
            left.remove(hit)
            continue
        if zero(p, b):
            continue
        ok_ = False
        ctx.need(False, p, "%s/%s" % (key, label),
                 lambda: "expected %s of %s%s, found %s" % (
                     label, showbag(b), " to " + show(to) if to is not None else "",
                     "; ".join("%s %s to %s" % (m.kind, showbag(m.bag), show(m.to) if m.to is not None else "-") for m in money_msgs(p)) or "no payment"))
    for m in left:
        if extra_ok and extra_ok(m):
            continue
        if zero(p, money.subst(p, m.bag, FUNDS)):
            continue
        ok_ = False
        ctx.need(False, p, key + "/unexpected-payment", "unexpected payment: " + m.text())
    if ok_:
        ctx.need(True, p, key)
    return ok_


def known_messages(ctx, p, key="unrecognised-message"):
    for m in messages(p):
        ctx.need(m.kind != "unknown", p, key, lambda: "message the rules do not recognise: " + m.text())


# ---------------------------------------------------------------- chain queries
def eq_terms(p, x):
    """terms the path has established to be equal to x"""
    out = []
    f = p.facts()
    nx = p.norm(x)
    for (a, b), s in p.st.o.items():
        if s == frozenset("="):
            for y in (a, b):
                if p.norm(y) is nx:
                    out.append(f.n0(y))
    return out


def is_owner_term(p, t, coll, tok, fields=("owner",)):
    """t is the owner reported by the collection for the token"""
    if t.k != "fld" or t.a[1] not in fields:
        return False
    f = p.facts()
    c, k = f.n0(coll), f.n0(tok)
    c2, k2 = p.norm(coll), p.norm(tok)
    hasq = hasc = hask = False
    for x in subterms(t):
        if x.k == "call" and x.a[0].endswith("owner_of"):
            hasq = True
        if x.k == "adt" and x.a[1] in ("OwnerOf", "AllNftInfo"):
            hasq = True
        if x is c or x is c2 or p.norm(x) is c2:
            hasc = True
        if x is k or x is k2 or p.norm(x) is k2:
            hask = True
    return hasq and hasc and hask


def sender_owns(p, coll, tok, who=SENDER):
    return any(is_owner_term(p, t, coll, tok) for t in eq_terms(p, who))


def owner_query_failed(p, coll, tok):
    return False


def info_queries(p, coll):
    """terms of the collection-info query on the collection that the path has looked at"""
    f = p.facts()
    c = p.norm(coll)
    out = set()
    for k in list(p.st.d):
        for x in subterms(k):
            if x.k == "call" and "query" in x.a[0] and any(y.k == "adt" and y.a[1] == "CollectionInfo" for y in subterms(x)) \
                    and any(p.norm(y) is c for y in subterms(x)):
                out.add(f.n0(x))
    return out


def tradable(p, coll, now=NOW):
    """the collection's trading start is unset, unknown or not in the future"""
    for q in info_queries(p, coll):
        if p.isv(q, "Err"):
            return True
        st = fld(fld(as_(q, "Ok"), "0"), "start_trading_time")
        if p.isv(st, "None"):
            return True
        t = fld(as_(st, "Some"), "0")
        if p.isv(st, "Some") and p.le(t, now):
            return True
    return False


def not_tradable(p, coll, now=NOW):
    for q in info_queries(p, coll):
        st = fld(fld(as_(q, "Ok"), "0"), "start_trading_time")
        t = fld(as_(st, "Some"), "0")
        if p.isv(q, "Ok") and p.isv(st, "Some") and p.lt(now, t):
            return True
    return False


def nft_msgs(p):
    return [m for m in messages(p) if m.kind == "nft"]


def failed(p, *tag):
    """the fallible helper `tag` failed on this path"""
    return p.truth(mk("succeeds", *tag)) is False


def addr_bad(p, t):
    return failed(p, "addr", t)


def funds_attached(p):
    return "=" not in p.rel(call("len", FUNDS), I(0))


def is_member(p, l, x):
    """does the path know that x is an element of the list l?"""
    l, x = p.norm(l), p.norm(x)

    def el(y):
        return y.k in ("elem", "elemsat") and p.norm(y.a[0]) is l
    for k, v in p.st.b.items():
        if v is not True:
            continue
        if k.k == "any" and p.norm(k.a[0]) is l:
            pr = k.a[1]
            if pr.k == "cmp" and pr.a[0] == "==" and any(el(y) for y in pr.a[1:]) and any(p.norm(y) is x for y in pr.a[1:]):
                return True
        if k.k == "lv" and p.st.loops.get(k, (None,))[0] is FALSE:
            # a flag a loop sets when it meets x
            def says(facts, val):
                if val is k or val is FALSE:
                    return True
                if val.k == "cmp" and val.a[0] == "==":
                    return any(el(y) for y in val.a[1:]) and any(p.norm(y) is x for y in val.a[1:])
                if val.k == "or":
                    return all(says(facts, y) for y in val.a)
                return val is TRUE and any(f[0] == "o" and f[2] == frozenset("=") and (el(f[1][0]) and p.same(f[1][1], x) or el(f[1][1]) and p.same(f[1][0], x))
                                           for f in facts)
            if all(says(f, v2) for f, v2 in p.st.loops[k][1]):
                return True
        if k.k == "call" and k.a[0].endswith("contains") and len(k.a[1]) == 2 and p.norm(k.a[1][0]) is l and p.same(k.a[1][1], x):
            return True
    for (a, b), s in p.st.o.items():
        if s == frozenset("=") and (el(a) and p.same(b, x) or el(b) and p.same(a, x)):
            return True
    return False
