"""Events tell the truth: what a response announces is what the call did, once each.

Indexers, explorers and the front ends rebuild the books from these events; every event of the
vocabulary below is compared with the records written, deleted and the payments made on the path."""
from common import *
from registry import prop
import v1, ra, v2
from storage import idparts

FMT1 = "\ufffd\x00"


def plain(t):
    """format!("{}", x) is x"""
    while t.k == "call" and t.a[0] == "fmt" and len(t.a[1]) == 2 and t.a[1][0].k == "str" and t.a[1][1].k == "list" \
            and len(t.a[1][1].a[0]) == 1 and t.a[1][0].a[0] == FMT1:
        t = t.a[1][1].a[0][0][1]
    return t


class Ev:
    def __init__(self, c, p, t):
        self.t = t
        self.ty = fld(t, "ty")
        self.name = self.ty.a[0] if self.ty.k == "str" else None
        self.attrs, self.odd = [], None
        l = fld(t, "attributes")
        for i in l.a[0] if l.k == "list" else (("s", l),):
            if i[0] == "i":
                k, v = fld(i[1], "0"), fld(i[1], "1")
                if k.k == "str":
                    self.attrs.append((k.a[0], v))
                    continue
                self.attrs.append((None, v))
                self.odd = i[1]
            else:
                self.odd = i[1]

    def get(self, k):
        return [v for n, v in self.attrs if n == k]


def said(t):
    """a literal that reads like a flag or a number"""
    if t.k == "str" and t.a[0] in ("true", "false"):
        return mk("bool", t.a[0] == "true")
    if t.k == "str" and isinstance(t.a[0], str) and t.a[0].isdigit() and str(int(t.a[0])) == t.a[0]:
        return mk("int", int(t.a[0]))
    return t


def same(p, a, b):
    if p.same(a, b) or p.same(plain(a), b) or p.same(said(a), b):
        return True
    x, y = p.truth(said(plain(a))), p.truth(b)
    return x is not None and x == y


class Told:
    """the events of one path, ticked off one by one"""

    def __init__(self, c, p, vocab):
        self.c, self.p = c, p
        self.evs = [Ev(c, p, t) for t in events(p)]
        self.vocab = vocab
        for e in self.evs:
            c.count("events")
            c.need(e.name is not None and e.odd is None, p, "unreadable", lambda: "the attributes of an event cannot be told: " + show(e.t)[:500])
        for i in p.items:
            c.need(i[0] == "i", p, "unreadable-response", lambda: "part of the response cannot be told: " + show(i[1])[:300])

    def tell(self, name, **attrs):
        """exactly this event: attribute -> term, or None for absent"""
        c, p = self.c, self.p
        c.count(name)
        es = [e for e in self.evs if e.name == name]
        if not c.need(len(es) >= 1, p, name + "/missing", "no %s event is announced" % name):
            return None
        best = None
        for e in es:
            bad = [k for k, t in attrs.items() if not self.attr(e, k, t)]
            if best is None or len(bad) < len(best[1]):
                best = (e, bad)
        e, bad = best
        for k in attrs:
            c.need(k not in bad, p, "%s/%s" % (name, k), lambda: "%s announces %s = %s, it is %s" % (
                name, k, " and ".join(show(v)[:200] for v in e.get(k)) or "nothing", show(attrs[k])[:200] if attrs[k] is not None else "not set"))
        self.evs.remove(e)
        return e

    def attr(self, e, k, t):
        vs = e.get(k)
        if t is None:
            return not vs
        return len(vs) == 1 and same(self.p, vs[0], t)

    def done(self):
        for e in self.evs:
            self.c.need(e.name not in self.vocab, self.p, "%s/unfounded" % e.name, "a %s event is announced although nothing of the kind happens" % e.name)


def opt(p, t):
    """(decided, value or None) of an optional field"""
    if p.isv(t, "Some"):
        return True, fld(as_(p.facts().n0(t), "Some"), "0")
    if p.isv(t, "None"):
        return True, None
    return False, None


def rec(r, *fs, **more):
    d = {f: fld(r, f) for f in fs}
    d.update({k: fld(r, f) for k, f in more.items()})
    return d


def response_attrs(p):
    out = []
    for e in events(p):
        if fld(e, "ty") is S("wasm"):
            out += Ev(None, p, e).attrs
    return out


# ------------------------------------------------------------------ the spot marketplace
VOC1 = {"set-ask", "remove-ask", "update-ask", "update-ask-state", "set-bid", "remove-bid", "accept-bid", "reject-bid", "set-collection-bid",
        "remove-collection-bid", "accept-collection-bid", "remove-stale-bid", "remove-stale-collection-bid", "finalize-sale", "royalty-payout"}
SALE_TYPE = {"BuyNow": "FixedPrice", "BuyFor": "FixedPrice"}


@prop("M17", [V1], ("execute",), ev=True, floors={"finalize-sale": 10, "royalty-payout": 5, "set-bid": 5, "set-ask": 2, "events": 10})
def m17(c, u, paths):
    v = v1.V(u)
    for p0 in paths:
        if not p0.ok:
            continue
        for p in p0.all():
            if p.parent is not None:
                c.need(not [e for e in events(p)], p, "repeated", "an event is announced for each element of a list")
                continue
            t = Told(c, p, VOC1)
            one(c, u, v, p, t)
            t.done()


def asked(c, p, e, r):
    """the price of a listing is announced with its denomination"""
    if e is not None:
        a = e.get("price")
        c.need(len(a) == 1 and p.same(fld(a[0], "amount"), fld(r, "price")) and p.same(fld(a[0], "denom"), NATIVE), p, e.name + "/price",
               lambda: "%s announces the price %s, stored is %s" % (e.name, show(a[0])[:200] if a else "nothing", show(fld(r, "price"))[:200]))


def only(xs):
    return xs[0] if len(xs) == 1 else None


def one(c, u, v, p, t):
    var = u.variant
    tok = dict(collection=v.coll, token_id=v.tok)
    sa, ra_, sb, rb = p.saves("asks"), p.removes("asks"), p.saves("bids"), p.removes("bids")
    sc, rc = p.saves("col_bids"), p.removes("col_bids")
    if var in v1.SALES and nft_msgs(p):
        s = v1.sale(p, u)
        if not c.need(s["price"] is not None, p, "price", "the payment of the sale is not established"):
            return
        t.tell("finalize-sale", seller=s["seller"], buyer=s["buyer"], price=s["price"], asset_recipient=s["nft_to"], **tok)
        exp = v1.payout(c, p, v.coll, s)
        for label, kind, to, b in exp or ():
            if label == "royalty" and not zero(p, b):
                e = t.tell("royalty-payout", collection=v.coll, recipient=to)
                if e is not None:
                    a = e.get("amount")
                    c.need(len(a) == 1 and (zero(p, badd(bag(a[0]), b, -1)) or zero(p, badd(bagcoin(NATIVE, plain(a[0])), b, -1))), p, "royalty-payout/amount",
                           lambda: "royalty-payout announces %s, paid is %s" % (show(a[0])[:200] if a else "nothing", showbag(b)))
            elif label == "royalty":
                t.evs = [e for e in t.evs if e.name != "royalty-payout"]
    if var == "SetAsk":
        x = only(sa)
        if c.need(x is not None, p, "listing", "not exactly one listing is stored"):
            r = x[3]
            known, rf = opt(p, fld(r, "reserve_for"))
            c.need(known, p, "set-ask/reserve_for", "whether the listing is reserved is not looked at")
            e = t.tell("set-ask", reserve_for=rf, **rec(r, "collection", "token_id", "sale_type", "seller", expires="expires_at"))
            asked(c, p, e, r)
    elif var in ("RemoveAsk",):
        t.tell("remove-ask", **tok)
    elif var == "UpdateAskPrice":
        x = only(sa)
        if c.need(x is not None, p, "listing", "not exactly one listing is stored"):
            asked(c, p, t.tell("update-ask", **tok), x[3])
    elif var == "SyncAsk":
        x = only(sa)
        if c.need(x is not None, p, "listing", "not exactly one listing is stored"):
            t.tell("update-ask-state", is_active=fld(x[3], "is_active"), **tok)
    elif var == "RemoveStaleAsk":
        t.tell("remove-ask", operator=SENDER, **tok)
    elif var in ("SetBid", "BuyNow", "BuyFor"):
        ty = mk("adt", "SaleType", "FixedPrice", ()) if var in SALE_TYPE else msgf(u, "sale_type")
        amount = v1.paid_native(p)
        if c.need(amount is not None, p, "payment", "the payment of the bid is not established"):
            t.tell("set-bid", bidder=SENDER, bid_price=amount, expires=msgf(u, "expires"), **tok)
        for x in sb:
            c.need(p.same(fld(x[3], "price"), amount) and p.same(fld(x[3], "bidder"), SENDER) and p.same(fld(x[3], "expires_at"), msgf(u, "expires")),
                   p, "set-bid/stored", "the bid stored is not the one announced")
    elif var == "RemoveBid":
        t.tell("remove-bid", bidder=v.bidder, **tok)
    elif var == "AcceptBid":
        t.tell("accept-bid", bidder=v.bidder, price=fld(v.bid, "price"), **tok)
    elif var == "RejectBid":
        t.tell("reject-bid", bidder=v.bidder, price=fld(v.bid, "price"), **tok)
    elif var == "SetCollectionBid":
        x = only(sc)
        if c.need(x is not None, p, "collection-bid", "not exactly one collection bid is stored"):
            t.tell("set-collection-bid", **rec(x[3], "collection", "bidder", bid_price="price", expires="expires_at"))
    elif var == "RemoveCollectionBid":
        t.tell("remove-collection-bid", collection=v.coll, bidder=v.bidder)
    elif var == "AcceptCollectionBid":
        t.tell("accept-collection-bid", bidder=v.bidder, seller=SENDER, price=fld(v.cbid, "price"), **tok)
    elif var in ("RemoveStaleBid", "RemoveStaleCollectionBid"):
        name, k, r = ("remove-stale-bid", tok, v.bid) if var == "RemoveStaleBid" else ("remove-stale-collection-bid", dict(collection=v.coll), v.cbid)
        e = t.tell(name, bidder=v.bidder, operator=SENDER, **k)
        if e is not None:
            a = e.get("reward")
            got = {}
            for m in money_msgs(p):
                if p.same(m.to, SENDER):
                    got = badd(got, m.bag)
            c.need(len(a) == 1 and zero(p, badd(got, bagcoin(NATIVE, plain(a[0])), -1)), p, name + "/reward",
                   lambda: "%s announces a reward of %s, paid is %s" % (name, show(a[0])[:200] if a else "nothing", showbag(got)))


# ------------------------------------------------------------------ the reserve auction
VOCR = {"create-auction", "update-reserve-price", "cancel-auction", "place-bid", "postpone-auction", "settle-auction", "set-min-reserve-price",
        "unset-min-reserve-price", "halt-detected", "sudo-update-params"}
PARAMS = ("fair_burn", "trading_fee_percent", "min_bid_increment_percent", "min_duration", "extend_duration", "create_auction_fee",
          "max_auctions_to_settle_per_block", "halt_duration_threshold", "halt_buffer_duration", "halt_postpone_duration")


@prop("R16", [RA], ("execute", "sudo", "instantiate"), ev=True,
      floors={"settle-auction": 2, "place-bid": 2, "create-auction": 2, "postpone-auction": 2, "events": 10})
def r16(c, u, paths):
    for p0 in paths:
        if not p0.ok:
            continue
        for p in p0.all():
            t = Told(c, p, VOCR)
            auction(c, u, p, t)
            t.done()


def auction(c, u, p, t):
    var = u.variant
    for op, key, cur, new in ra.touched(p):
        if op == "save" and var == "CreateAuction":
            known, fr = opt(p, fld(new, "seller_funds_recipient"))
            c.need(known, p, "create-auction/seller_funds_recipient", "whether a funds recipient is named is not looked at")
            t.tell("create-auction", seller_funds_recipient=fr, **rec(new, "collection", "token_id", "seller", "reserve_price"))
        elif op == "save" and var == "UpdateReservePrice":
            t.tell("update-reserve-price", **rec(new, "collection", "token_id", "reserve_price"))
        elif op == "remove" and var == "CancelAuction":
            t.tell("cancel-auction", **rec(cur, "collection", "token_id"))
        elif op == "save" and var == "PlaceBid":
            known, old = opt(p, fld(cur, "high_bid"))
            if not c.need(known, p, "place-bid/first", "whether it is the first bid is not looked at"):
                continue
            prev = dict(previous_bidder=None, previous_bid_amount=None) if old is None else \
                dict(previous_bidder=fld(old, "bidder"), previous_bid_amount=fld(old, "coin"))
            t.tell("place-bid", bidder=ra.hb(new, "bidder"), bid_amount=ra.hb(new, "coin"), first_bid=mk("bool", old is None),
                   auction_end_time=fld(as_(fld(new, "end_time"), "Some"), "0"), **prev, **rec(new, "collection", "token_id", "seller"))
        elif op == "save" and cur is not None and cur != "unknown":
            t.tell("postpone-auction", auction_end_time=fld(as_(fld(new, "end_time"), "Some"), "0"), **rec(cur, "collection", "token_id"))
        elif op == "remove" and cur is not None and cur != "unknown":
            coin = ra.hb(cur, "coin")
            t.tell("settle-auction", bidder=ra.hb(cur, "bidder"), bid_amount=fld(coin, "amount"), bid_denom=fld(coin, "denom"),
                   **rec(cur, "collection", "token_id", "seller"))
        else:
            c.fail(p, "unannounced", "an auction changes in a way no event stands for")
    for x in p.saves("mrp"):
        t.tell("set-min-reserve-price", denom=x[2], amount=x[3])
    for x in p.removes("mrp"):
        t.tell("unset-min-reserve-price", denom=x[2])
    if var == "UpdateParams":
        x = only(p.saves("cfg"))
        if c.need(x is not None, p, "settings", "the settings are not stored once"):
            d = {}
            for f in PARAMS:
                known, new = opt(p, msgf(u, f))
                c.need(known, p, "sudo-update-params/" + f, "whether %s changes is not looked at" % f)
                d[f] = fld(x[3], f) if new is not None else None
            t.tell("sudo-update-params", **d)
    elif var is None:
        for x in p.saves("cfg"):
            at = response_attrs(p)
            for f in PARAMS:
                vs = [w for k, w in at if k == f]
                c.need(len(vs) == 1 and same(p, vs[0], fld(x[3], f)), p, "instantiate/" + f, "instantiation announces another %s than it stores" % f)
    elif var == "BeginBlock":
        hm = stored("hm", UNIT)
        for x in p.saves("hm"):
            w = fld(x[3], "halt_windows")
            new = [i[1] for i in w.a[0] if i[0] == "i"] if w.k == "list" else []
            at = response_attrs(p)
            for n in new:
                t.tell("halt-detected")
                for f in ("start_time", "end_time"):
                    vs = [y for k, y in at if k == f]
                    c.need(len(vs) == 1 and same(p, vs[0], fld(n, f)), p, "halt-detected/" + f, "the halt announced has another %s than the one recorded" % f)


# ------------------------------------------------------------------ the second marketplace
VOC2 = {"set-config", "set-collection-denom", "set-listing-fee", "remove-listing-fee", "finalize-sale"} | \
    {"%s-%s" % (a, b) for a in ("set", "update", "remove") for b in ("ask", "bid", "collection-bid")}
ORDER = {"a": "ask", "o": "bid", "c": "collection-bid"}
CONFIG = ("fee_manager", "royalty_registry", "protocol_fee_bps", "max_royalty_fee_bps", "maker_reward_bps", "taker_reward_bps", "default_denom")
LABELS = ("protocol", "maker", "taker", "royalty", "seller")


@prop("V17", [V2], ("execute", "instantiate"), ev=True, floors={"finalize-sale": 10, "set-bid": 2, "set-ask": 2, "update-bid": 2, "remove-ask": 1, "set-config": 2})
def v17(c, u, paths):
    for p0 in v2.successful(paths):
        for p in p0.all():
            if p.parent is not None:
                c.need(not [e for e in events(p)], p, "repeated", "an event is announced for each element of a list")
                continue
            t = Told(c, p, VOC2)
            orders(c, u, p, t)
            t.done()


def orders(c, u, p, t):
    if u.variant is None or v2.kind(p) == "admin":
        for x in p.saves("C"):
            t.tell("set-config", **rec(x[3], *CONFIG))
        for x in p.eff:
            if x[0] in ("save", "remove") and x[1].k == "str" and u.variant:
                ns = x[1].a[0]
                if u.variant == "UpdateCollectionDenom":
                    t.tell("set-collection-denom", collection=x[2], denom=x[3])
                elif u.variant == "SetListingFee":
                    t.tell("set-listing-fee", denom=x[2], fee=x[3])
                elif u.variant == "RemoveListingFee":
                    t.tell("remove-listing-fee", denom=x[2], fee=None)
        return
    k = v2.kind(p)
    if k == "sale":
        sold(c, p, t)
        return
    for op, ns, key, cur, new in v2.touched(p):
        tok = ("token_id",) if ns != "c" else ()
        if op == "remove":
            if c.need(cur is not None and cur != "unknown", p, "record", "an order is deleted that was not looked at"):
                t.tell("remove-" + ORDER[ns], **rec(cur, "id", "collection", *tok))
            continue
        d = rec(new, "id", "collection", *tok)
        if k == "rest":
            d["creator"] = fld(new, "creator")
        dt = fld(new, "details")
        d["price"] = fld(dt, "price")
        for f in ("recipient", "finder"):
            known, d[f] = opt(p, fld(dt, f))
            c.need(known, p, "%s/%s" % (ORDER[ns], f), "whether the order names a %s is not looked at" % f)
        t.tell(("update-" if k == "update" else "set-") + ORDER[ns], **d)


def sold(c, p, t):
    s = v2.sale(p)
    if not c.need(s is not None, p, "orders", "the orders of a sale cannot be identified"):
        return
    x = v2.split(c, p)
    if not c.need(x is not None, p, "split", "the split of the price cannot be identified"):
        return
    amount, denom = fld(s.price, "amount"), fld(s.price, "denom")
    to, nft = v2.beneficiary(p, s.ask), v2.beneficiary(p, s.bid)
    if not c.need(to is not None and nft is not None, p, "recipients", "the recipients of a sale are not decided"):
        return
    e = t.tell("finalize-sale", collection=s.coll, token_id=s.tok, denom=denom, price=amount, seller_recipient=to, nft_recipient=nft)
    if e is None:
        return
    for o, k, other in ((s.ask, "ask", None), (s.bid, "bid", "collection_bid")):
        if o.ns == "c":
            k, other = other, k
        vs = e.get(k)
        okay = len(vs) == 1 and (other is None or not e.get(other))
        if okay and o.rec is not None:
            okay = same(p, vs[0], fld(o.rec, "id"))
        elif okay:
            ps = idparts(vs[0])
            want = [s.coll] + ([s.tok] if o.ns != "c" else [])
            okay = ps is not None and len(ps) >= len(want) and all(p.same(y, z) for y, z in zip(ps, want)) and (o.ns == "a" or v2.fresh(p, vs[0]))
        c.need(okay, p, "finalize-sale/" + k, lambda: "finalize-sale names %s as the %s" % (" and ".join(show(y)[:200] for y in vs) or "nothing", k))
    for nm in LABELS:
        c.count(nm)
        want = x[nm][1] if nm in x else {}
        got = {}
        for y in e.get(nm):
            got = badd(got, bagcoin(denom, plain(y)))
        c.need(v2.vanishes(p, badd(v2.funds(p, got), v2.funds(p, want), -1)), p, "finalize-sale/" + nm,
               lambda: "finalize-sale announces %s as the %s's share, it is %s" % (showbag(got), nm, showbag(want)))
