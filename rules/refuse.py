"""Refusals: every refusing path of an operation must imply one of the reasons the operation may be refused for."""
from registry import prop
from common import *
import v1, ra, v2

X = ("execute",)


# ---------------------------------------------------------------- reasons shared by the contracts
def bad_address(p, u, fields):
    """one of the message's addresses is not valid"""
    for k, v in p.st.b.items():
        if v is False and k.k == "succeeds" and k.a[0] == "addr":
            t = k.a[1]
            for f in fields:
                m = msgf(u, f) if u.variant else fld(arg("msg"), f)
                if t is m or t is fld(as_(m, "Some"), "0") or any(x is m for x in subterms(t)):
                    return True
    return False


def no_config(p, *ns):
    """the contract was never instantiated"""
    return any(p.isv(mayload(n, UNIT), "None") for n in ns)


def undecodable(p):
    """what is stored does not have the form this contract stores"""
    if any(v is False and k.k == "succeeds" and k.a[0] == "load" for k, v in p.st.b.items()):
        return True
    return any(ranged(k) and p.isv(k, "Err") for k in p.st.d)


def ranged(t):
    """an element a range over a stored map gives, before it is known to decode"""
    if t.k not in ("elem", "elemsat", "topel") and not (t.k == "call" and t.a[0] == "index"):
        return False
    t = t.a[1][0] if t.k == "call" else t.a[0]
    while t.k == "call" and t.a[0] in ("take", "skip", "filter", "rev", "oks") and t.a[1]:
        t = t.a[1][0]
    return t.k == "range"


def payment_failed(p, kinds, denom):
    """the attached funds are not one coin of the currency (kinds: the permitted ways to find out)"""
    for k, v in p.st.b.items():
        if v is False and k.k == "succeeds" and k.a[0] == "funds" and k.a[2] is FUNDS and k.a[1] in kinds:
            if len(k.a) < 4 or p.same(k.a[3], denom):
                return True
    return False


def mentions(t, *xs):
    ts = set(subterms(t))
    return all(x in ts for x in xs)


def not_member(p, l, x):
    """x was looked for in l and not found"""
    l, x = p.norm(l), p.norm(x)
    if is_member(p, l, x):
        return False
    for k, v in list(p.st.b.items()) + list(p.st.d.items()):
        if mentions(p.norm(k), l, x) or mentions(k, l, x):
            return True
        if k.k == "lv" and flag_about(p, k, l, x):
            return True
    if passed_over(p, l, x):
        return True
    for (a, b), s in p.st.o.items():
        if s == frozenset("="):
            for y, z in ((a, b), (b, a)):
                if y.k == z.k == "call" and y.a[0] == z.a[0] == "len" and p.same(y.a[1][0], l) and v1.removes_elem(p, p.norm(z.a[1][0]), l, x):
                    return True  # taking x out changes nothing
    return any(mentions(p.norm(t), l) for q in p.st.o.items() if "=" not in q[1] for t in q[0] if any(p.same(y, x) for y in q[0]))


def passed_over(p, l, x):
    """a loop went through all of l, and every element differed from x"""
    def el(y):
        return y.k in ("elem", "elemsat") and p.norm(y.a[0]) is l

    def other(f):
        return f[0] == "o" and "=" not in f[2] and any(el(y) and p.same(z, x) for y, z in (f[1], f[1][::-1]))

    if not any(k.k == "exhausted" and p.norm(k.a[0]) is l and v is True for k, v in p.st.b.items()):
        return False
    return any(ef[0] == "loop" and ef[2] and all(any(el(y) for f in a[0] for y in fterms(f)) and any(other(f) for f in a[0]) for a in ef[2]) for ef in p.eff)


def fterms(f):
    for t in f[1] if f[0] == "o" else (f[1],):
        yield from subterms(t)


def flag_about(p, k, l, x):
    """a variable a loop sets by comparing the elements of l with x"""
    lp = p.st.loops.get(k)
    if not lp:
        return False
    ts = [t for f, v in lp[1] for t in [v] + [y for z in f for y in (z[1] if z[0] == "o" else (z[1],))]]
    alls = [p.norm(y) for t in ts for y in subterms(t)]
    return any(y is x for y in alls) and any(y.k in ("elem", "elemsat") and p.norm(y.a[0]) is l for y in alls)


def differs(p, a, b):
    return not p.rel(a, b) & frozenset("=")


def mustpay_failed(p, denom):
    """not exactly one coin, or another currency, or nothing attached"""
    if payment_failed(p, ("must_pay", "one_coin", "may_pay"), denom):
        return True
    one = call("len", FUNDS)
    if not p.rel(one, I(1)) & frozenset("="):
        return True
    return other_denom(p, denom)


def other_denom(p, denom):
    """the coin attached is established to be of another currency"""
    for (a, b), s in p.st.o.items():
        if "=" in s:
            continue
        for x, y in ((a, b), (b, a)):
            if x.k == "fld" and x.a[1] == "denom" and any(z is FUNDS for z in subterms(x)) and p.same(y, denom):
                return True
    return False


def zero_paid(p, *kinds):
    for k, v in p.st.b.items():
        if v is True and k.k == "succeeds" and k.a[0] == "funds" and k.a[2] is FUNDS:
            t = mk("paid", *k.a[1:])
            t = fld(t, "amount") if k.a[1] == "one_coin" else t
            if p.rel(t, I(0)) == frozenset("="):
                return True
    return False


# ---------------------------------------------------------------- M20 the marketplace
def v1_common(p, u, v):
    fields = ("collection", "bidder", "finder", "funds_recipient", "reserve_for", "asset_recipient", "hook", "operator")
    return bad_address(p, u, fields) or no_config(p, "sudo-params") or undecodable(p)


def not_native_payment(p):
    return mustpay_failed(p, NATIVE) or zero_paid(p)


def low_price(p, price):
    return p.lt(price, v1.P("min_price"))


def bad_price(p, u):
    """the price asked is zero, foreign, below the minimum or above the cap"""
    c = msgf(u, "price")
    a = fld(c, "amount")
    return p.rel(a, I(0)) == frozenset("=") or differs(p, fld(c, "denom"), NATIVE) or low_price(p, a) or p.lt(v1.MAXASK, a)


def bad_expiry(p, u, which):
    r, e = v1.P(which), msgf(u, "expires")
    lo = binop("add", NOW, mk("call", "secs", (fld(r, "min"),)))
    hi = binop("add", NOW, mk("call", "secs", (fld(r, "max"),)))
    return p.le(e, lo) or p.lt(hi, e)


def high_finders_fee(p, u):
    f = msgf(u, "finders_fee_bps")
    return p.isv(f, "Some") is True and p.lt(v1.P("max_finders_fee_percent"), v1.percent(fld(as_(f, "Some"), "0")))


def collection_silent(p, coll):
    return any(p.isv(q, "Err") for q in info_queries(p, coll))


def fees_exceed(p, v, s):
    """the shares of the sale add up to more than the price"""
    price = s["price"]
    if price is None:
        return False
    parts = [binop("div", binop("mul", price, v1.P("trading_fee_percent")), I(100))]
    if s["finder"] not in (None, "unknown") and p.isv(s["fbps"], "Some"):
        parts.append(binop("div", binop("mul", price, v1.percent(fld(as_(s["fbps"], "Some"), "0"))), I(100)))
    for q in info_queries(p, v.coll):
        ri = fld(fld(as_(q, "Ok"), "0"), "royalty_info")
        if p.isv(ri, "Some"):
            return short(p, price, parts + [binop("mul", price, fld(fld(as_(ri, "Some"), "0"), "share"))])
    return short(p, price, parts)


def v1_sale(p, u, v):
    return collection_silent(p, v.coll) or fees_exceed(p, v, v1.sale(p, u))


def v1_order(p, u, v):
    """an order on a token"""
    price = v1.paid_native(p)
    f = v1.finder_of(p, u)
    if f not in (None, "unknown") and p.same(f, SENDER):
        return True
    if not_native_payment(p) or high_finders_fee(p, u) or bad_expiry(p, u, "bid_expiry"):
        return True
    if price is not None and low_price(p, price):
        return True
    if u.variant != "SetBid" and p.isv(v.mask, "None"):
        return True
    if p.isv(v.mask, "Some") is not True:
        return False
    a = v.ask
    if p.truth(fld(a, "is_active")) is False or p.le(fld(a, "expires_at"), NOW):
        return True
    rf = fld(a, "reserve_for")
    if p.isv(rf, "Some") and differs(p, fld(as_(rf, "Some"), "0"), SENDER):
        return True
    if price is None:
        return False
    if p.isv(fld(a, "sale_type"), "Auction"):
        return p.lt(price, fld(a, "price"))
    if p.isv(fld(a, "sale_type"), "FixedPrice"):
        if p.lt(fld(a, "price"), price):
            return True
        if p.rel(price, fld(a, "price")) == frozenset("="):
            return v1.owner_gone(p, v.coll, v.tok) or lister_sold(p, v) or v1_sale(p, u, v)
    return False


def lister_sold(p, v):
    """the lister is established not to own the token any more"""
    s = fld(v.ask, "seller")
    for (a, b), o in p.st.o.items():
        if "=" not in o:
            for x, y in ((a, b), (b, a)):
                if p.same(y, s) and is_owner_term(p, p.facts().n0(x), v.coll, v.tok):
                    return True
    return False


def v1_owner(p, v):
    return v1.owner_gone(p, v.coll, v.tok) or v1.not_owner(p, v)


def v1_accept(p, u, v):
    r, m = (v.bid, v.mbid) if u.variant == "AcceptBid" else (v.cbid, v.mcbid)
    return funds_attached(p) or v1_owner(p, v) or not_tradable(p, v.coll) or p.isv(m, "None") or p.le(fld(r, "expires_at"), NOW) or v1_sale(p, u, v)


def v1_operator(p):
    return funds_attached(p) or not_member(p, v1.P("operators"), SENDER)


def not_stale(p, r):
    sd = v1.P("stale_bid_duration")
    lim = binop("add", fld(r, "expires_at"), mk("call", "secs", (fld(as_(sd, "Time"), "0"),)))
    if p.isv(sd, "Height"):
        return True
    if p.isv(sd, "Time") and p.lt(NOW, lim):
        return True
    e = p.norm(fld(r, "expires_at"))
    for k, x in list(p.st.b.items()) + list(p.st.d.items()):
        n = p.norm(k)
        if n.k == "call" and n.a[0].endswith("is_expired") and x is False or x == ("is", "Err"):
            ts = list(subterms(n))
            if any(y.k == "call" and y.a[0].endswith("add") or y.k == "bin" and y.a[0] == "add" for y in ts) and any(y is e for y in ts) and any(y is p.norm(sd) for y in ts):
                return True
    return False


def v1_setask(p, u, v):
    if bad_price(p, u) or v1_owner(p, v) or not_tradable(p, v.coll) or v1.approval_gone(p, v) or bad_expiry(p, u, "ask_expiry") or high_finders_fee(p, u):
        return True
    # the listing fee: the native token only, and exactly the fee
    if payment_failed(p, ("may_pay",), NATIVE) or other_denom(p, NATIVE) or p.lt(I(1), call("len", FUNDS)):
        return True
    fee = v1.paid_native(p)
    if fee is not None and differs(p, fee, v1.P("listing_fee")):
        return True
    if p.rel(call("len", FUNDS), I(0)) == frozenset("=") and p.lt(I(0), v1.P("listing_fee")):
        return True
    rf = msgf(u, "reserve_for")
    return p.isv(rf, "Some") is True and (p.same(v1.maybe_valid(rf), SENDER) or p.isv(msgf(u, "sale_type"), "Auction") is True)


def v1_cbid(p, u, v):
    price = v1.paid_native(p)
    return not_native_payment(p) or price is not None and low_price(p, price) or high_finders_fee(p, u) or bad_expiry(p, u, "bid_expiry")


def v1_update(p, u, v):
    return funds_attached(p) or v1_owner(p, v) or bad_price(p, u) or p.isv(v.mask, "None") or \
        p.truth(fld(v.ask, "is_active")) is False or p.le(fld(v.ask, "expires_at"), NOW)


def v1_sync(p, u, v):
    if v1_operator(p) or p.isv(v.mask, "None"):
        return True
    act = p.truth(fld(v.ask, "is_active"))
    if act is None:
        # the listing's state compared with the answer as a whole
        for (a, b), s in p.st.o.items():
            for x, y in ((a, b), (b, a)):
                if s == frozenset("=") and p.same(x, fld(v.ask, "is_active")) and v1.sync_value(p, v, p.norm(y)):
                    return True
        for k, val in p.st.b.items():
            if val is True and k.k == "cmp" and k.a[0] == "==" and any(p.same(x, fld(v.ask, "is_active")) for x in k.a[1:]) \
                    and any(x.k == "isvar" and v1.sync_value(p, v, p.norm(x)) for x in k.a[1:]):
                return True
        return False
    return v1.approval_var(p, v, "Ok" if act else "Err")


def v1_staleask(p, u, v):
    if v1_operator(p) or p.isv(v.mask, "None"):
        return True
    return p.lt(NOW, fld(v.ask, "expires_at")) and v1.approval_var(p, v, "Ok") and owner_known(p, v)


def owner_known(p, v):
    c2, k2 = p.norm(v.coll), p.norm(v.tok)
    for k in p.st.d:
        n = p.norm(k)
        if n.k == "call" and (n.a[0].endswith("owner_of") or any(x.k == "adt" and x.a[1] == "OwnerOf" for x in subterms(n))) and p.isv(k, "Ok") and mentions(n, c2, k2):
            return True
    return False


V1R = {
    "SetAsk": v1_setask, "SetBid": v1_order, "BuyNow": v1_order, "BuyFor": v1_order, "SetCollectionBid": v1_cbid,
    "RemoveAsk": lambda p, u, v: funds_attached(p) or v1_owner(p, v) or p.isv(v.mask, "None"),
    "RemoveBid": lambda p, u, v: funds_attached(p) or p.isv(v.mbid, "None"),
    "RemoveCollectionBid": lambda p, u, v: funds_attached(p) or p.isv(v.mcbid, "None"),
    "RejectBid": lambda p, u, v: funds_attached(p) or v1_owner(p, v) or p.isv(v.mbid, "None"),
    "AcceptBid": v1_accept, "AcceptCollectionBid": v1_accept, "UpdateAskPrice": v1_update, "SyncAsk": v1_sync, "RemoveStaleAsk": v1_staleask,
    "RemoveStaleBid": lambda p, u, v: v1_operator(p) or p.isv(v.mbid, "None") or not_stale(p, v.bid),
    "RemoveStaleCollectionBid": lambda p, u, v: v1_operator(p) or p.isv(v.mcbid, "None") or not_stale(p, v.cbid),
}


def bps_over(p, t):
    return p.lt(v1.MAXBPS, t)


def v1_sudo(p, u):
    if u.variant in v1.HOOKVAR:
        op, ns = v1.HOOKVAR[u.variant]
        return any(b is False and k.k == "succeeds" and k.a[0] == op and k.a[1] is S(ns) for k, b in p.st.b.items())
    if u.variant == "AddOperator":
        return is_member(p, v1.P("operators"), valid(msgf(u, "operator")))
    if u.variant == "RemoveOperator":
        return not_member(p, v1.P("operators"), valid(msgf(u, "operator")))
    for f in ("trading_fee_bps", "max_finders_fee_bps", "bid_removal_reward_bps"):
        t = msgf(u, f)
        if p.isv(t, "Some") and bps_over(p, fld(as_(t, "Some"), "0")):
            return True
    for f in ("ask_expiry", "bid_expiry"):
        t = fld(as_(msgf(u, f), "Some"), "0")
        if p.isv(msgf(u, f), "Some") and p.lt(fld(t, "max"), fld(t, "min")):
            return True
    return False


def refuse(c, p, why, what):
    c.count("refusals")
    c.need(why, p, "refused", what)


@prop("M20", [V1], ("execute", "sudo", "instantiate"), floors={"refusals": 3}, refuse=True)
def m20(c, u, paths):
    for p in paths:
        if p.ok is True:
            continue
        if u.entry.endswith("instantiate"):
            m = arg("msg")
            why = any(b is False and k.k == "succeeds" and k.a[0] in ("addr", "add_hook") for k, b in p.st.b.items()) or \
                any(bps_over(p, fld(m, f)) for f in ("trading_fee_bps", "max_finders_fee_bps", "bid_removal_reward_bps")) or \
                any(p.lt(fld(fld(m, f), "max"), fld(fld(m, f), "min")) for f in ("ask_expiry", "bid_expiry")) or \
                p.isv(fld(m, "stale_bid_duration"), "Height") is True
        else:
            v = v1.V(u)
            why = v1_common(p, u, v) or (v1_sudo(p, u) if u.entry.endswith("sudo") else u.variant in V1R and V1R[u.variant](p, u, v))
        refuse(c, p, why, "the operation can be refused although nothing it may be refused for is the case: " + show(p.ret)[:160])


def element_error(p):
    """an address in a list of addresses is not valid"""
    return any(x.k == "opaque" and str(x.a[0]) == "element-error" for x in subterms(p.ret))


def short(p, price, parts):
    """the price is established to be less than the sum of some of its shares"""
    import itertools
    sums = []
    for n in range(1, len(parts) + 1):
        for ss in itertools.combinations(parts, n):
            t = ss[0]
            for y in ss[1:]:
                t = binop("add", t, y)
            sums.append((t, ss))
    if any(p.lt(price, t) for t, ss in sums):
        return True
    D = NATIVE
    for k, v in p.st.b.items():
        if v is False and k.k == "succeeds" and k.a[0] == "sub" and len(k.a) == 3:
            left = badd(bagcoin(D, k.a[1]), bagcoin(D, k.a[2]), -1)
            for t, ss in sums:
                b = bagcoin(D, price)
                for y in ss:
                    b = badd(b, bagcoin(D, y), -1)
                if zero(p, badd(left, b, -1)):
                    return True
    # a remainder compared with a share
    for (a, b), s in p.st.o.items():
        if "=" in s or len(s) != 1:
            continue
        lo, hi = (a, b) if s == frozenset("<") else (b, a)
        left = badd(bagcoin(D, lo), bagcoin(D, hi), -1)
        for t, ss in sums:
            c = bagcoin(D, price)
            for y in ss:
                c = badd(c, bagcoin(D, y), -1)
            if zero(p, badd(left, c, -1)):
                return True
    return False


# ---------------------------------------------------------------- R19 the auction house
def ra_price_bad(p, price):
    d = fld(price, "denom")
    return p.isv(mayload("mrp", d), "None") is True or ra.has_key(p, d) is False or p.lt(fld(price, "amount"), stored("mrp", d))


def wrong_coin(p, fee):
    """the attached funds are established not to be exactly this coin"""
    d, a = fld(fee, "denom"), fld(fee, "amount")
    if payment_failed(p, ("must_pay", "one_coin", "may_pay"), d) or other_denom(p, d):
        return True
    if not p.rel(FUNDS, lst([("i", fee)])) & frozenset("="):
        return True
    if not p.rel(call("len", FUNDS), I(1)) & frozenset("="):
        return True
    got = ra.bid_paid(p, d)
    if got is not None and differs(p, got, a):
        return True
    for q, s in p.st.o.items():
        if "=" not in s:
            for x, y in (q, q[::-1]):
                if p.same(x, fee) and y.k in ("elem", "call") and any(z is FUNDS for z in y.a[1] if y.k == "call") or \
                        x.k == "fld" and x.a[1] == "amount" and any(z is FUNDS for z in subterms(x)) and p.same(y, a):
                    return True
    for k, v in p.st.b.items():
        if v is True and k.k == "succeeds" and k.a[0] == "funds" and k.a[2] is FUNDS and k.a[1] == "one_coin":
            c = mk("paid", *k.a[1:])
            if differs(p, fld(c, "denom"), d) or differs(p, c, fee):
                return True
    return False


def ra_create(p, u, a):
    fee, d = ra.C("create_auction_fee"), msgf(u, "duration")
    if v1.owner_gone(p, a.coll, a.tok) or v1.not_owner(p, a) or v1.approval_gone(p, a) or p.isv(a.may, "Some") or not_tradable(p, a.coll):
        return True
    if ra_price_bad(p, msgf(u, "reserve_price")) or p.lt(d, ra.C("min_duration")) or p.lt(ra.C("max_duration"), d):
        return True
    z = p.rel(fld(fee, "amount"), I(0))
    if z == frozenset("="):
        return funds_attached(p)
    return wrong_coin(p, fee) and "=" not in z


def ra_bid(p, u, a):
    r = a.rec
    if p.isv(a.may, "None"):
        return True
    price = fld(r, "reserve_price")
    denom = fld(price, "denom")
    if mustpay_failed(p, denom) or zero_paid(p) or p.same(fld(r, "seller"), SENDER):
        return True
    h = fld(r, "high_bid")
    amt = ra.bid_paid(p, denom)
    want = None
    if p.isv(h, "None"):
        want = fld(price, "amount")
    elif p.isv(h, "Some"):
        want = ra.ceil_(fld(ra.hb(r, "coin"), "amount"), binop("add", ra.call_one(), ra.C("min_bid_increment_percent")))
        if p.rel(fld(ra.hb(r, "coin"), "amount"), I(0)) == frozenset("="):
            return True  # cannot be: a stored bid is of a positive amount
    if want is not None and (amt is not None and p.lt(amt, want) or lacks(p, denom, want)):
        return True
    e = fld(r, "end_time")
    return p.isv(e, "Some") is True and (p.le(ra.to_secs(ra.end_of(r)), ra.NOWS) or p.le(ra.end_of(r), NOW))


def lacks(p, denom, want):
    for k, v in p.st.b.items():
        if v is False and k.k == "call" and k.a[0].endswith("has_coins") and k.a[1][0] is FUNDS:
            r = k.a[1][1]
            if p.same(fld(r, "denom"), denom) and p.same(fld(r, "amount"), want):
                return True
    return False


def ra_seller(p, u, a):
    return funds_attached(p) or p.isv(a.may, "None") is True or "=" not in p.rel(fld(a.rec, "seller"), SENDER) or \
        p.isv(fld(a.rec, "first_bid_time"), "Some") is True or p.isv(fld(a.rec, "high_bid"), "Some") is True


def royalty_unusable(p, coll):
    """the collection names a royalty recipient that is not an address"""
    for k, v in p.st.b.items():
        if v is False and k.k == "succeeds" and k.a[0] == "addr" and any(x.k == "fld" and x.a[1] == "payment_address" for x in subterms(k.a[1])):
            return True
    return False


def ra_settle(p, u, a):
    r = a.rec
    if funds_attached(p) or p.isv(a.may, "None") is True or p.isv(fld(r, "end_time"), "None") is True:
        return True
    if p.lt(NOW, ra.end_of(r)):
        return True
    coll = fld(r, "collection")
    if collection_silent(p, coll) or royalty_unusable(p, coll) or p.isv(fld(r, "high_bid"), "Some") is not True:
        return collection_silent(p, coll) or royalty_unusable(p, coll)
    amount = fld(ra.hb(r, "coin"), "amount")
    parts = [ra.ceil_(amount, ra.C("trading_fee_percent"))]
    roy = ra.royalty_terms(p, coll)[1]
    if roy is not None:
        parts.append(ra.ceil_(amount, fld(roy, "share")))
    return short(p, amount, parts)


def ra_config(p, val):
    inc = val("min_bid_increment_percent")
    return p.rel(inc, I(0)) == frozenset("=") or p.le(ra.call_one(), inc) or \
        any(p.rel(val(f), I(0)) == frozenset("=") for f in ("min_duration", "extend_duration"))


def ra_sudo(p, u):
    if u.variant == "UpdateParams":
        def val(f):
            m = msgf(u, f)
            return fld(as_(m, "Some"), "0") if p.isv(m, "Some") else ra.C(f)
        return bad_address(p, u, ("fair_burn",)) or ra_config(p, val)
    if u.variant == "SetMinReservePrices":
        return ra.has_key(p, fld(mk("elem", msgf(u, "min_reserve_prices")), "denom")) is True
    if u.variant == "UnsetMinReservePrices":
        return ra.has_key(p, mk("elem", msgf(u, "denoms"))) is False
    return False


RAR = {"CreateAuction": ra_create, "PlaceBid": ra_bid, "CancelAuction": ra_seller, "SettleAuction": ra_settle,
       "UpdateReservePrice": lambda p, u, a: ra_seller(p, u, a) or ra_price_bad(p, msgf(u, "reserve_price"))}


@prop("R19", [RA], ("execute", "sudo", "instantiate"), floors={"refusals": 3}, refuse=True)
def r19(c, u, paths):
    if u.variant == "EndBlock":
        return  # R09
    for p in paths:
        if p.ok is True:
            continue
        if u.entry.endswith("instantiate"):
            m = arg("msg")
            why = bad_address(p, u, ("fair_burn",)) or ra_config(p, lambda f: fld(m, f)) or \
                ra.has_key(p, fld(mk("elem", fld(m, "min_reserve_prices")), "denom")) is True
        elif no_config(p, "cfg", "hm") or undecodable(p):
            why = True
        elif u.entry.endswith("sudo"):
            why = ra_sudo(p, u)
        else:
            a = ra.A(u)
            why = bad_address(p, u, ("collection", "seller_funds_recipient")) or u.variant in RAR and RAR[u.variant](p, u, a)
        refuse(c, p, why, "the operation can be refused although nothing it may be refused for is the case: " + show(p.ret)[:160])


# ---------------------------------------------------------------- V20 the order book
V2BAD = ("collection", "details.recipient", "details.finder", "config.fee_manager", "config.royalty_registry")


def v2_bad_address(p, u):
    for k, v in p.st.b.items():
        if v is False and k.k == "succeeds" and k.a[0] == "addr":
            t = p.norm(k.a[1])
            for f in V2BAD:
                m = as_(arg("msg"), u.variant)
                for x in f.split("."):
                    m = fld(m, x)
                if t is m or t is fld(as_(m, "Some"), "0"):
                    return True
    return False


def has_match(p, u, ns, coll, tok, d):
    """whether the path establishes that no resting order satisfies this one"""
    amount, denom = fld(fld(d, "price"), "amount"), fld(fld(d, "price"), "denom")
    if ns == "a":
        return not all(any(g and p.isv(x, "None") for x, g in v2.best_bids(p, n, coll, tok, denom, amount)) for n in ("o", "c"))
    if ns == "o":
        key = v2.ask_key(p, coll, tok)
        if key is None:
            return True
        m, pr = mk("mayload", S("a"), key, 0), v2.price(mk("stored", S("a"), key, 0))
        return not (p.isv(m, "None") is True or differs(p, fld(pr, "denom"), denom) or p.lt(amount, fld(pr, "amount")))
    return not any(g and p.isv(x, "None") for x, g in v2.best_asks(p, coll, denom, amount))


def makers(p, u, ns, coll, tok, d):
    """the resting orders this order can be settled with on the path: [(space, record)]"""
    amount, denom = fld(fld(d, "price"), "amount"), fld(fld(d, "price"), "denom")
    if ns == "a":
        return [(n, v2.toprec(x)) for n in ("o", "c") for x, g in v2.best_bids(p, n, coll, tok, denom, amount) if g and p.isv(x, "Some")]
    if ns == "o":
        key = v2.ask_key(p, coll, tok)
        return [] if key is None or p.isv(mk("mayload", S("a"), key, 0), "Some") is not True else [("a", mk("stored", S("a"), key, 0))]
    return [("a", v2.toprec(x)) for x, g in v2.best_asks(p, coll, denom, amount) if g and p.isv(x, "Some")]


def v2_short(c, p, s):
    """the shares of the sale (each rounded up) are established to exceed its price"""
    price, coll = fld(s.price, "amount"), s.coll
    # what the path leaves open does not matter to the refusal: the shares it settles have to exceed the price
    fees = v2.expected_fees(c, p, s, partial=True)
    src, to, share = v2.royalty_of(p, coll)
    if src not in ("none", "unknown"):
        fees = fees + [("royalty", to, v2.capped(p, share))]
    atoms = set()
    for k in list(p.st.b) + [y for x in p.st.o for y in x]:
        atoms |= v2.mulceils(k)
    p._fa = atoms
    return short(p, price, [v2.fee(p, price, sh) for nm, to, sh in fees if not v2.share_zero(p, sh)])


def rates_overflow(p):
    for k, v in p.st.b.items():
        if v is False and k.k == "succeeds" and k.a[0] == "mul" and len(k.a) == 3 and {p.norm(x) for x in k.a[1:]} <= {p.norm(v2.bps(x)) for x in (v2.PF, v2.MR, v2.TR)}:
            return True
    return False


def v2_sale(c, p, s):
    """settling this sale cannot be paid out, or the royalty registry or the collection answers with nonsense"""
    if rates_overflow(p) or royalty_unusable(p, s.coll):
        return True
    q = v2.royalty_query(p, s.coll)
    if q is not None and p.isv(q, "Err"):
        return True
    return v2_short(c, p, s)


def same_bag(p, a, b):
    return v2.zero(p, badd(v2.funds(p, a), v2.funds(p, b), -1))


def unaffordable(p, price, extra=None):
    """the funds attached (with what the order already holds) do not contain the price"""
    have = inflow(p)
    if extra is not None:
        have = badd(have, v2.coinbag(extra))
    for k, v in p.st.b.items():
        if v is False and k.k == "succeeds" and k.a[0] == "nbsub" and same_bag(p, bag(k.a[1]), have):
            x = k.a[2]
            if same_bag(p, bag(lst([("i", x)])) if x.k != "coins" else bag(x), v2.coinbag(price)):
                return True
    return False


def v2_price_bad(p, coll, pr):
    if p.rel(fld(pr, "amount"), I(0)) == frozenset("="):
        return True
    for x in list(p.st.d):
        if x.k == "mayload" and x.a[0] is S("D") and p.same(x.a[1], coll):
            want = mk("stored", x.a[0], x.a[1], x.a[2]) if p.isv(x, "Some") else v2.C("default_denom") if p.isv(x, "None") else None
            if want is not None and differs(p, want, fld(pr, "denom")):
                return True
    return False


def v2_fee_bad(p):
    """the listing fee: exactly one coin, of a currency with a fee, and exactly the fee"""
    if payment_failed(p, ("one_coin",), None) or not p.rel(call("len", FUNDS), I(1)) & frozenset("="):
        return True
    for x in list(p.st.d):
        if x.k == "mayload" and x.a[0] is S("L") and any(y is FUNDS for y in subterms(x.a[1])):
            if p.isv(x, "None"):
                return True
            paid_ = fld(x.a[1].a[0], "amount") if x.a[1].k == "fld" and x.a[1].a[1] == "denom" else None
            if p.isv(x, "Some") and paid_ is not None and differs(p, mk("stored", x.a[0], x.a[1], x.a[2]), paid_):
                return True
    return False


def v2_new(c, p, u, ns, coll, tok, d, rec):
    """an order that is set or repriced: bad price, sale impossible, not affordable, or nothing to match when it has to"""
    if v2_price_bad(p, coll, fld(d, "price")) or element_error(p):
        return True
    for n, m in makers(p, u, ns, coll, tok, d):
        p._bh = (n, m)
        s = v2.find_sale(p)
        p._bh = None
        if s is not None and v2_sale(c, p, s):
            return True
        if n == "a" and s is not None and takes(p, u, ns, d, m) and unaffordable(p, v2.price(m), None if rec is None else v2.price(rec)):
            return True
    if not has_match(p, u, ns, coll, tok, d):
        if u.variant in v2.INSTANT:
            return True
        if ns != "a" and unaffordable(p, fld(d, "price"), None if rec is None else v2.price(rec)):
            return True
        # the id of a new order is taken: the token is listed already, or the counter does not count
        return rec is None and any(k.k == "mayload" and k.a[0] is S(ns) and p.isv(k, "Some") for k in p.st.d)
    return False


def takes(p, u, ns, d, m):
    """the bid buys the listing"""
    pr = v2.price(m)
    return ns == "c" or p.same(fld(pr, "denom"), fld(fld(d, "price"), "denom")) and p.le(fld(pr, "amount"), fld(fld(d, "price"), "amount"))


def below(p, have, want):
    return differs(p, fld(have, "denom"), fld(want, "denom")) or p.lt(fld(have, "amount"), fld(want, "amount"))


def v2_reason(c, p, u):
    v = u.variant
    d = msgf(u, "details")
    if v2_bad_address(p, u) or no_config(p, "C", "N") or undecodable(p):
        return True
    if v in v2.ADMIN_OPS:
        if funds_attached(p):
            return True
        for k in list(p.st.d):
            if k.k == "call" and ("contract_info" in k.a[0] or any(y.k == "adt" and y.a[1] == "ContractInfo" for y in subterms(k))) and any(p.norm(y) is p.norm(SELF) for y in subterms(k)):
                if p.isv(k, "Err"):
                    return True
                a = fld(v2.okval(k), "admin")
                if p.isv(k, "Ok") and (p.isv(a, "None") or p.isv(a, "Some") and differs(p, v2.someval(a), SENDER)):
                    return True
        return v == "UpdateConfig" and v2_config_bad(p, msgf(u, "config"))
    if v in v2.ASK_NEW or v in v2.BID_NEW:
        coll, tok = valid(msgf(u, "collection")), msgf(u, "token_id")
        ns = "a" if v in v2.ASK_NEW else "c" if v in v2.COLL_BIDS else "o"
        if not_tradable(p, coll):
            return True
        if ns == "a" and (v1_owner(p, Tok(coll, tok)) or v2_fee_bad(p)):
            return True
        return v2_new(c, p, u, ns, coll, tok if ns != "c" else None, d, None)
    ns = v2.UPDATES.get(v) or v2.REMOVES.get(v) or v2.ACCEPTS.get(v)
    i = msgf(u, "id")
    rec = stored(ns, i)
    if p.isv(mayload(ns, i), "None"):
        return True
    if v in v2.REMOVES or v in v2.UPDATES:
        if differs(p, fld(rec, "creator"), SENDER) or (v in v2.REMOVES or v == "UpdateAsk") and funds_attached(p):
            return True
        return v in v2.UPDATES and v2_new(c, p, u, ns, fld(rec, "collection"), fld(rec, "token_id") if ns != "c" else None, d, rec)
    pr, lim = v2.price(rec), fld(d, "price")
    if v == "AcceptAsk":
        return below(p, lim, pr) or unaffordable(p, pr) or v2_sale(c, p, v2.find_sale(p))
    if funds_attached(p) or below(p, pr, lim):
        return True
    coll = fld(rec, "collection")
    tok = fld(rec, "token_id") if ns == "o" else msgf(u, "token_id")
    k = v2.ask_key(p, coll, tok)
    if k is not None and p.isv(mk("mayload", S("a"), k, 0), "Some"):
        if differs(p, fld(mk("stored", S("a"), k, 0), "creator"), SENDER):
            return True
    elif k is not None and v1_owner(p, Tok(coll, tok)):
        return True
    return v2_sale(c, p, v2.find_sale(p))


class Tok:
    def __init__(self, coll, tok):
        self.coll, self.tok = coll, tok


def v2_config_bad(p, cfg):
    return p.le(v1.MAXBPS, fld(cfg, "protocol_fee_bps")) or p.le(v1.MAXBPS, binop("add", fld(cfg, "maker_reward_bps"), fld(cfg, "taker_reward_bps")))


@prop("V20", [V2], ("execute", "sudo", "instantiate"), floors={"refusals": 3}, refuse=True)
def v20(c, u, paths):
    for p in paths:
        if p.ok is True:
            continue
        if u.entry.endswith("instantiate"):
            cfg = fld(arg("msg"), "config")
            why = v2_config_bad(p, cfg) or any(b is False and k.k == "succeeds" and k.a[0] == "addr" for k, b in p.st.b.items())
        else:
            why = v2_reason(c, p, u)
        refuse(c, p, why, "the operation can be refused although nothing it may be refused for is the case: " + show(p.ret)[:160])
