"""Rules of the spot marketplace (sg-marketplace)."""
from registry import prop, program
from common import *

X = ("execute",)
ESCROW = {"bids": "bid", "col_bids": "collection bid"}
PARAMS = stored("sudo-params", UNIT)


def P(f):
    return fld(PARAMS, f)


def percent(x):
    return call("cosmwasm_std::Decimal::percent", x)


def maybe_valid(t):
    return valid(fld(as_(t, "Some"), "0"))


class V:
    """the message of a unit in the vocabulary of the properties"""

    def __init__(self, u):
        self.u = u
        self.coll = valid(msgf(u, "collection"))
        self.tok = msgf(u, "token_id")
        self.askkey = tup(self.coll, self.tok)
        self.ask = stored("asks", self.askkey)
        self.mask = mayload("asks", self.askkey)
        own = u.variant in ("SetBid", "BuyNow", "BuyFor", "RemoveBid", "SetCollectionBid", "RemoveCollectionBid")
        self.bidder = SENDER if own else valid(msgf(u, "bidder"))
        self.bidkey = tup(self.coll, self.tok, self.bidder)
        self.bid = stored("bids", self.bidkey)
        self.mbid = mayload("bids", self.bidkey)
        self.cbidkey = tup(self.coll, self.bidder)
        self.cbid = stored("col_bids", self.cbidkey)
        self.mcbid = mayload("col_bids", self.cbidkey)


def paid_native(p):
    """the amount of the native token attached, as established by the path"""
    for k, v in p.st.b.items():
        if v is True and k.k == "succeeds" and k.a[0] == "funds" and k.a[2] is FUNDS:
            if k.a[1] == "one_coin":
                c = mk("paid", *k.a[1:])
                if p.same(fld(c, "denom"), NATIVE):
                    return fld(c, "amount")
                return None
            if k.a[3] is NATIVE:
                return mk("paid", *k.a[1:])
    return None


def escrow_walk(ctx, p, value, spaces):
    """follow the escrow-bearing records through a path's effects in order:
    (released bag, stored bag, [released records], [stored records])"""
    rel, sto, relr, stor = {}, {}, [], []
    state = {}
    for x in p.eff:
        if x[0] not in ("save", "remove") or x[1].k != "str" or x[1].a[0] not in spaces:
            continue
        ns, key = x[1].a[0], p.norm(x[2])
        k = (ns, key)
        if k in state:
            cur = state[k]
        else:
            m = mk("mayload", x[1], x[2], 0)
            if p.isv(m, "None"):
                cur = None
            elif p.isv(m, "Some"):
                cur = mk("stored", x[1], x[2], 0)
            else:
                cur = record_of(p, ns, x[2])
        if cur == "unknown":
            ctx.need(False, p, "unknown-record/" + ns,
                     "%s of a %s record that may already exist and was not looked at" % (x[0], ns))
            cur = None
        if cur is not None:
            rel = badd(rel, value(p, ns, cur))
            relr.append((ns, x[2], cur))
            if cur in [r[1] for r in stor]:
                stor = [r for r in stor if r[1] is not cur]
        if x[0] == "save":
            sto = badd(sto, value(p, ns, x[3]))
            state[k] = x[3]
            stor.append((ns, x[3], x))
        else:
            state[k] = None
    return rel, sto, relr, stor


def record_of(p, ns, key):
    """a record obtained by iterating the namespace whose identity is this key"""
    comps = key.a if key.k == "tup" else (key,)
    base = None
    for c in comps:
        if c.k != "fld":
            return "unknown"
        if base is None:
            base = c.a[0]
        elif base is not c.a[0]:
            return "unknown"
    ident = p.unit.ident.get(ns)
    if ident is None or tuple(c.a[1] for c in comps) != ident:
        return "unknown"
    if any(x.k == "range" for x in subterms(base)):
        return base
    return "unknown"


def bidvalue(p, ns, r):
    return bagcoin(NATIVE, fld(r, "price"))


def has_lost(p):
    return [x for x in p.seq if x[0] == "lost"] if hasattr(p, "seq") else []


# ------------------------------------------------------------------ M01 conservation
@prop("M01", [V1], floors={"paths-with-money": 5, "paths-storing-escrow": 2, "paths-releasing-escrow": 2},
      explain="ledger rule on every path of every entry point: attached funds + escrow of deleted or replaced bids = "
              "outgoing payments + escrow of stored bids, compared as linear forms over symbolic amounts")
def m01(c, u, paths):
    for p0 in paths:
        if p0.ok is False:
            continue
        for p in p0.all():
            if u.entry.endswith("query"):
                c.need(not p.eff and not p.items, p, "query-writes")
                continue
            if u.entry.endswith("instantiate"):
                # the ledger starts after instantiation: whatever the deployer attaches is nobody's escrow
                c.need(not messages(p) and not any(x[0] in ("save", "remove") and x[1] in [S(n) for n in ESCROW] for x in p.eff), p, "instantiate-moves-money")
                continue
            known_messages(c, p)
            rel, sto, relr, stor = escrow_walk(c, p, bidvalue, ESCROW)
            out = {}
            for m in messages(p):
                out = badd(out, m.bag)
            inn = inflow(p) if p.parent is None else {}
            diff = badd(badd(money.subst(p, inn, FUNDS), rel), badd(money.subst(p, out, FUNDS), sto), -1)
            if inn or rel or out or sto:
                c.count("paths-with-money")
            if sto:
                c.count("paths-storing-escrow")
            if rel:
                c.count("paths-releasing-escrow")
            c.need(zero(p, diff), p, "balance",
                   lambda: "received %s and released %s, but paid out %s and stored %s" % (showbag(inn), showbag(rel), showbag(out), showbag(sto)))
            c.need(not has_lost(p), p, "lost-messages", "a response with messages is dropped")
            for m in messages(p):
                if m.kind in ("send", "burn"):
                    c.need(m.amount.k == "list" and all(i[0] == "i" for i in m.amount.a[0]), p, "opaque-amount", "payment of an unknown amount: " + m.text())


# ------------------------------------------------------------------ M02 refunds
@prop("M02", [V1], X, floors={"refunds": 2, "rewards": 2})
def m02(c, u, paths):
    v = V(u)
    for p in paths:
        if not p.ok:
            continue
        if nft_msgs(p) and u.variant in ("AcceptBid", "AcceptCollectionBid"):
            continue  # the accepted bid is spent on the sale (M03)
        rel, sto, relr, stor = escrow_walk(c, p, bidvalue, ESCROW)
        exp = []
        for ns, key, r in relr:
            price = fld(r, "price")
            bidder = fld(r, "bidder")
            if u.variant in ("RemoveStaleBid", "RemoveStaleCollectionBid"):
                reward = binop("div", binop("mul", price, P("bid_removal_reward_percent")), I(100))
                exp.append(("reward to the operator", "send", SENDER, bagcoin(NATIVE, reward)))
                exp.append(("refund", "send", bidder, badd(bagcoin(NATIVE, price), bagcoin(NATIVE, reward), -1)))
                c.count("rewards")
            else:
                exp.append(("refund", "send", bidder, bagcoin(NATIVE, price)))
            c.count("refunds")
        if not exp:
            continue
        sale = bool(nft_msgs(p))
        if sale:
            # the refund of the buyer's earlier bid precedes the payout of the sale (M03)
            for label, kind, to, b in exp:
                c.need(any(m.kind == "send" and p.same(m.to, to) and zero(p, badd(m.bag, b, -1)) for m in money_msgs(p)),
                       p, "refund/sale", "the earlier bid replaced by a purchase is not refunded to its bidder")
        else:
            match(c, p, exp, "refund")


# ------------------------------------------------------------------ sales
def finder_of(p, u):
    f = msgf(u, "finder")
    if p.isv(f, "Some"):
        return maybe_valid(f)
    if p.isv(f, "None"):
        return None
    return "unknown"


def sale(p, u):
    """the sale a path carries out: dict of its terms"""
    v = V(u)
    if u.variant in ("SetBid", "BuyNow", "BuyFor"):
        fr = fld(v.ask, "funds_recipient")
        recip = fld(as_(fr, "Some"), "0") if p.isv(fr, "Some") else fld(v.ask, "seller") if p.isv(fr, "None") else None
        return dict(price=paid_native(p), payee=recip, seller=fld(v.ask, "seller"), buyer=SENDER,
                    nft_to=valid(msgf(u, "asset_recipient")) if u.variant == "BuyFor" else SENDER,
                    finder=finder_of(p, u), fbps=fld(v.ask, "finders_fee_bps"), asklist=v)
    r = v.bid if u.variant == "AcceptBid" else v.cbid
    return dict(price=fld(r, "price"), payee=SENDER, seller=SENDER, buyer=v.bidder, nft_to=v.bidder,
                finder=finder_of(p, u), fbps=fld(r, "finders_fee_bps"), asklist=v)


SALES = ("SetBid", "BuyNow", "BuyFor", "AcceptBid", "AcceptCollectionBid")


def payout(ctx, p, coll, s):
    price = s["price"]
    net = binop("div", binop("mul", price, P("trading_fee_percent")), I(100))
    exp = [("network fee", "fairburn", None, bagcoin(NATIVE, net))]
    rest = bagcoin(NATIVE, price)
    rest = badd(rest, bagcoin(NATIVE, net), -1)
    if s["finder"] == "unknown":
        ctx.need(False, p, "finder", "the path does not distinguish whether a finder was named")
        return None
    if s["finder"] is not None:
        if p.isv(s["fbps"], "Some"):
            ff = binop("div", binop("mul", price, percent(fld(as_(s["fbps"], "Some"), "0"))), I(100))
            exp.append(("finder's fee", "send", s["finder"], bagcoin(NATIVE, ff)))
            rest = badd(rest, bagcoin(NATIVE, ff), -1)
        elif p.isv(s["fbps"], "None") is not True:
            ctx.need(False, p, "finder", "the path does not look at the finder's fee rate")
            return None
    qs = info_queries(p, coll)
    decided = False
    for q in qs:
        ri = fld(fld(as_(q, "Ok"), "0"), "royalty_info")
        if p.isv(ri, "None"):
            decided = True
        elif p.isv(ri, "Some"):
            r = fld(as_(ri, "Some"), "0")
            decided = True
            share = fld(r, "share")
            if p.rel(share, I(0)) != frozenset("="):
                amt = binop("mul", price, share)
                exp.append(("royalty", "send", fld(r, "payment_address"), bagcoin(NATIVE, amt)))
                rest = badd(rest, bagcoin(NATIVE, amt), -1)
        if decided:
            break
    if not decided:
        ctx.need(False, p, "royalty", "the collection's royalty terms are not looked up")
        return None
    exp.append(("seller's share", "send", s["payee"], rest))
    return exp


@prop("M03", [V1], X, SALES, floors={"sales": 10})
def m03(c, u, paths):
    v = V(u)
    for p in paths:
        if not p.ok:
            continue
        if not nft_msgs(p):
            continue
        c.count("sales")
        s = sale(p, u)
        if not c.need(s["price"] is not None, p, "price", "the payment of the sale is not established"):
            continue
        if not c.need(s["payee"] is not None, p, "payee", "the path does not look at the funds recipient"):
            continue
        exp = payout(c, p, v.coll, s)
        if exp is None:
            continue
        if u.variant in ("SetBid", "BuyNow", "BuyFor") and p.isv(v.mbid, "Some"):
            exp.insert(0, ("refund of the earlier bid", "send", SENDER, bagcoin(NATIVE, fld(v.bid, "price"))))
        match(c, p, exp, "payout")


@prop("M04", [V1], floors={"sales": 10, "no-sale": 5})
def m04(c, u, paths):
    if u.entry.endswith("query"):
        return
    v = V(u) if u.variant and u.entry.endswith("execute") else None
    for p0 in paths:
        if not p0.ok:
            continue
        for p in p0.all():
            known_messages(c, p)
            n = nft_msgs(p)
            if not n:
                c.count("no-sale")
                # nothing but a sale burns trading fees or pays royalties; asks disappear only by a
                # sale, withdrawal by the owner or a stale sweep
                if p.removes("asks"):
                    c.need(u.variant in ("RemoveAsk", "RemoveStaleAsk"), p, "ask-removed-without-sale",
                           "a listing is deleted although no sale takes place")
                if u.variant in ("AcceptBid", "AcceptCollectionBid") and p.parent is None:
                    c.need(False, p, "accept-without-transfer", "the bid is accepted but the token is not transferred")
                if u.variant not in ("SetAsk",):
                    c.need(not any(m.kind == "fairburn" and not zero(p, m.bag) for m in messages(p)), p, "fee-without-sale")
                continue
            if not c.need(u.variant in SALES and p.parent is None, p, "transfer-outside-sale", "a token is transferred by an operation that is not a sale"):
                continue
            c.count("sales")
            s = sale(p, u)
            c.need(len(n) == 1, p, "one-transfer", "the token is transferred more than once")
            m = n[0]
            c.need(m.variant == "TransferNft" and p.same(m.to, v.coll), p, "transfer-collection", "the transfer is not executed on the sold collection")
            c.need(p.same(m.token, v.tok), p, "transfer-token", "another token is transferred")
            c.need(p.same(m.recipient, s["nft_to"]), p, "transfer-recipient", lambda: "the token goes to %s instead of %s" % (show(m.recipient), show(s["nft_to"])))
            c.need(m.reply == "Never", p, "transfer-reply", "a failing transfer would not revert the sale")
            for x in money_msgs(p):
                c.need(x.reply == "Never", p, "payment-reply", "a failing payment would not revert the sale")
            # the listing is gone
            if p.isv(v.mask, "None"):
                c.need(not p.saves("asks"), p, "listing-left")
            else:
                c.need(any(p.same(x[2], v.askkey) for x in p.removes("asks")) and not p.saves("asks"), p, "listing-left",
                       "the sold token stays listed")
            # so are the buyer's bids taking part
            if u.variant in ("SetBid", "BuyNow", "BuyFor"):
                c.need(p.isv(v.mbid, "None") or any(p.same(x[2], v.bidkey) for x in p.removes("bids")), p, "bid-left",
                       "the buyer's earlier bid survives the purchase")
                c.need(not p.saves("bids") and not p.saves("col_bids"), p, "bid-stored-on-sale")
                c.need(not p.removes("col_bids"), p, "foreign-bid-removed")
            else:
                ns, key = ("bids", v.bidkey) if u.variant == "AcceptBid" else ("col_bids", v.cbidkey)
                c.need(any(p.same(x[2], key) for x in p.removes(ns)), p, "bid-left", "the accepted bid is not deleted")
                other = "col_bids" if ns == "bids" else "bids"
                c.need(not p.removes(other) and not p.saves(ns) and not p.saves(other), p, "foreign-bid-touched")


# ------------------------------------------------------------------ M05 immediate purchase
def isactive(p, ask):
    return p.truth(fld(ask, "is_active"))


@prop("M05", [V1], X, ("SetBid", "BuyNow", "BuyFor"), floors={"sales": 5})
def m05(c, u, paths):
    v = V(u)
    seen = set()
    for p in paths:
        if not p.ok:
            continue
        price = paid_native(p)
        if not c.need(price is not None, p, "payment", "the attached payment is not established"):
            continue
        ask = v.ask
        exists = p.isv(v.mask, "Some")
        if nft_msgs(p):
            c.count("sales")
            c.need(exists is True, p, "listing", "a sale without a listing")
            c.need(p.isv(fld(ask, "sale_type"), "FixedPrice"), p, "fixed-price", "an auction listing is sold immediately")
            c.holds(p, price, "=", fld(ask, "price"), "exact-price", "the payment may differ from the asked price")
            sellers = [t for t in eq_terms(p, fld(ask, "seller"))]
            c.need(any(is_owner_term(p, t, v.coll, v.tok) for t in sellers), p, "seller-owns",
                   "the lister is not checked to still own the token")
            seen.add("sale")
        # an existing listing that is inactive, expired or reserved to someone else stops the order
        if exists is not False:
            if c.need(exists is True, p, "listing-looked-up", "the listing of the token is not looked up"):
                c.need(isactive(p, ask), p, "active", "an inactive listing is not rejected")
                c.holds(p, NOW, "<", fld(ask, "expires_at"), "unexpired", "an expired listing is not rejected")
                rf = fld(ask, "reserve_for")
                if p.isv(rf, "Some"):
                    c.need(p.same(fld(as_(rf, "Some"), "0"), SENDER), p, "reserved", "a listing reserved for someone else is not rejected")
                    seen.add("reserved")
                else:
                    c.need(p.isv(rf, "None"), p, "reserved", "the reservation is not looked at")
                if p.isv(fld(ask, "sale_type"), "FixedPrice") and not nft_msgs(p):
                    c.holds(p, price, "<", fld(ask, "price"), "match", "a matching or higher payment is stored as a bid instead of buying")
                    seen.add("below")
                if p.isv(fld(ask, "sale_type"), "Auction"):
                    c.holds(p, fld(ask, "price"), "<=", price, "auction-minimum", "a bid below the auction's price is accepted")
                    seen.add("auction")
        else:
            c.need(u.variant == "SetBid", p, "for-sale", "buying a token that is not listed is not rejected")
            c.need(not nft_msgs(p), p, "listing", "a sale without a listing")
            seen.add("unlisted")
    want = {"sale", "reserved", "below", "auction"} | ({"unlisted"} if u.variant == "SetBid" else set())
    for w in sorted(want - seen):
        c.need(False, None, "reachable/" + w, "no path lets a valid order through: " + w)


# ------------------------------------------------------------------ M06 accepting bids
@prop("M06", [V1], X, ("AcceptBid", "AcceptCollectionBid"), floors={"accepts": 5})
def m06(c, u, paths):
    v = V(u)
    r, m = (v.bid, v.mbid) if u.variant == "AcceptBid" else (v.cbid, v.mcbid)
    for p in paths:
        if p.ok:
            c.count("accepts")
            c.need(sender_owns(p, v.coll, v.tok), p, "owner", "the caller is not checked to own the token")
            c.need(p.isv(m, "Some"), p, "bid-exists", "the named bid is not loaded")
            c.holds(p, NOW, "<", fld(r, "expires_at"), "bid-unexpired", "an expired bid can be accepted")
            c.need(tradable(p, v.coll), p, "tradable", "a collection that is not yet trading can be sold")
            c.need(not zero_funds_violation(p), p, "no-funds", "funds attached to the call would be kept")
        elif p.ok is False:
            pass


def zero_funds_violation(p):
    return bool(inflow(p))


# ------------------------------------------------------------------ M07 listing
ASKF = ("sale_type", "collection", "token_id", "seller", "price", "funds_recipient", "reserve_for", "finders_fee_bps", "expires_at", "is_active")


def opt_same(p, stored_t, msg_t, conv):
    """an optional field stored from an optional message field"""
    n = p.norm(stored_t)
    if p.isv(msg_t, "None"):
        return p.isv(n, "None") is True or p.same(n, msg_t)
    if p.isv(msg_t, "Some"):
        if p.isv(n, "Some") is not True and not p.same(n, msg_t):
            return False
        return p.same(fld(as_(n, "Some"), "0"), conv(fld(as_(msg_t, "Some"), "0")))
    return conv is ident and p.same(n, msg_t)


def ident(x):
    return x


def finders_ok(c, p, u):
    f = msgf(u, "finders_fee_bps")
    if p.isv(f, "None"):
        return True
    return p.isv(f, "Some") is True and p.le(percent(fld(as_(f, "Some"), "0")), P("max_finders_fee_percent"))


def expiry_ok(c, p, u, which):
    e = msgf(u, "expires") if u.variant != "SetAsk" else msgf(u, "expires")
    r = P(which)
    lo = binop("add", NOW, mk("call", "secs", (fld(r, "min"),)))
    hi = binop("add", NOW, mk("call", "secs", (fld(r, "max"),)))
    c.holds(p, lo, "<", e, "expiry-min", "an expiry earlier than the permitted range is accepted")
    c.holds(p, e, "<=", hi, "expiry-max", "an expiry later than the permitted range is accepted")


MAXASK = I(100_000_000_000_000)


def approved(p, coll, tok):
    """the contract's own approval for the token was confirmed"""
    c2, k2 = p.norm(coll), p.norm(tok)
    for k, v in p.st.d.items():
        if v == ("is", "Ok") and approval_term(p, k, c2, k2):
            return True
    return False


def approval_term(p, k, c2, k2):
    return k.k == "call" and (k.a[0].endswith("::approval") or any(x.k == "adt" and x.a[1] == "Approval" for x in subterms(k))) \
        and any(p.norm(x) is c2 for x in subterms(k)) and any(p.norm(x) is k2 for x in subterms(k)) and contains(k, SELF) and unexpired(p, k)


def unexpired(p, k):
    """an approval query that expired approvals do not answer"""
    q = [x for x in subterms(k) if x.k == "adt" and x.a[1] == "Approval"]
    o = fld(q[0], "include_expired") if q else k.a[1][-1]
    return p.isv(o, "None") is True or p.isv(o, "Some") is True and p.norm(fld(as_(o, "Some"), "0")) is FALSE


@prop("M07", [V1], X, ("SetAsk",), floors={"listings": 2})
def m07(c, u, paths):
    v = V(u)
    price = msgf(u, "price")
    for p in paths:
        if not p.ok:
            continue
        c.count("listings")
        c.need(sender_owns(p, v.coll, v.tok), p, "owner", "the lister is not checked to own the token")
        c.need(tradable(p, v.coll), p, "tradable", "a collection that is not yet trading can be listed")
        c.need(approved(p, v.coll, v.tok), p, "approval", "the marketplace's approval for the token is not checked")
        c.holds(p, I(0), "<", fld(price, "amount"), "price-positive", "a zero price is accepted")
        c.need(p.same(fld(price, "denom"), NATIVE), p, "price-denom", "a foreign currency is accepted")
        c.holds(p, P("min_price"), "<=", fld(price, "amount"), "price-min", "a price below the minimum is accepted")
        c.holds(p, fld(price, "amount"), "<=", MAXASK, "price-max", "a price above the cap is accepted")
        expiry_ok(c, p, u, "ask_expiry")
        c.need(finders_ok(c, p, u), p, "finders-fee", "a finder's fee above the maximum is accepted")
        # listing fee: exact, burned
        fee = paid_native(p)
        ok_ = c.need(fee is not None or not inflow(p), p, "fee-paid", "the attached funds are not checked")
        if ok_:
            c.holds(p, fee if fee is not None else I(0), "=", P("listing_fee"), "fee-exact", "the attached listing fee may differ from the required one")
            match(c, p, [("listing fee", "fairburn", None, bagcoin(NATIVE, P("listing_fee")))], "fee")
        rf = msgf(u, "reserve_for")
        if p.isv(rf, "Some"):
            who = maybe_valid(rf)
            c.need(not p.rel(who, SENDER) & frozenset("="), p, "reserve-self", "a listing can be reserved for its own seller")
            c.need(p.isv(msgf(u, "sale_type"), "FixedPrice"), p, "reserve-auction", "an auction listing can be reserved")
        else:
            c.need(p.isv(rf, "None"), p, "reserve", "the reservation is not looked at")
        sv = p.saves("asks")
        if c.need(len(sv) == 1 and p.same(sv[0][2], v.askkey), p, "stored", "the listing is not stored under its token"):
            r = sv[0][3]
            want = {"sale_type": msgf(u, "sale_type"), "collection": v.coll, "token_id": v.tok, "seller": SENDER,
                    "price": fld(price, "amount"), "expires_at": msgf(u, "expires"), "finders_fee_bps": msgf(u, "finders_fee_bps"),
                    "is_active": TRUE}
            for f, t in want.items():
                c.need(p.same(fld(r, f), t), p, "field/" + f, lambda: "listing stored with %s = %s" % (f, show(fld(r, f))))
            for f in ("funds_recipient", "reserve_for"):
                c.need(opt_same(p, fld(r, f), msgf(u, f), valid), p, "field/" + f, lambda: "listing stored with %s = %s" % (f, show(fld(r, f))))


# ------------------------------------------------------------------ M08 bidding
@prop("M08", [V1], X, ("SetBid", "BuyNow", "BuyFor", "SetCollectionBid"), floors={"orders": 10, "stored": 5})
def m08(c, u, paths):
    v = V(u)
    for p in paths:
        if not p.ok:
            continue
        c.count("orders")
        price = paid_native(p)
        if not c.need(price is not None, p, "payment", "the escrowed payment is not established"):
            continue
        c.holds(p, P("min_price"), "<=", price, "price-min", "a bid below the minimum is accepted")
        expiry_ok(c, p, u, "bid_expiry")
        c.need(finders_ok(c, p, u), p, "finders-fee", "a finder's fee above the maximum is accepted")
        if u.variant != "SetCollectionBid":
            f = finder_of(p, u)
            if f == "unknown":
                c.need(False, p, "finder", "the finder is not looked at")
            elif f is not None:
                c.need(not p.rel(f, SENDER) & frozenset("="), p, "finder-self", "the bidder can name himself as finder")
        ns = "col_bids" if u.variant == "SetCollectionBid" else "bids"
        other = "bids" if ns == "col_bids" else "col_bids"
        sv = p.saves(ns)
        c.need(not p.saves(other) and not p.removes(other) and not p.saves("asks"), p, "foreign-record", "an order touches unrelated records")
        if nft_msgs(p):
            continue
        c.count("stored")
        key = v.cbidkey if ns == "col_bids" else v.bidkey
        if c.need(len(sv) == 1 and p.same(sv[0][2], key), p, "stored", "the bid is not stored under its bidder"):
            r = sv[0][3]
            want = {"collection": v.coll, "bidder": SENDER, "price": price, "finders_fee_bps": msgf(u, "finders_fee_bps"), "expires_at": msgf(u, "expires")}
            if ns == "bids":
                want["token_id"] = v.tok
            for f, t in want.items():
                c.need(p.same(fld(r, f), t), p, "field/" + f, lambda: "bid stored with %s = %s" % (f, show(fld(r, f))))


# ------------------------------------------------------------------ M09 authorisation
def is_operator(p):
    """the caller is among the configured operators"""
    ops = P("operators")
    if is_member(p, ops, SENDER):
        return True
    for k, v in p.st.d.items():
        # position()/find() style lookups
        if k.k == "find" and v == ("is", "Some") and contains(k, ops) and contains(k, SENDER):
            return True
    return False


OPERATOR = ("SyncAsk", "RemoveStaleAsk", "RemoveStaleBid", "RemoveStaleCollectionBid")
OWNER = ("SetAsk", "RemoveAsk", "UpdateAskPrice", "AcceptBid", "RejectBid", "AcceptCollectionBid")
OWNBID = ("SetBid", "BuyNow", "BuyFor", "RemoveBid", "SetCollectionBid", "RemoveCollectionBid")


@prop("M09", [V1], X + ("instantiate", "reply", "migrate"), floors={"owner-only": 2, "operator-only": 2, "own-bids": 2})
def m09(c, u, paths):
    if not u.entry.endswith("::execute"):
        for p0 in paths:
            for p in p0.all():
                if p.ok and not u.entry.endswith("instantiate"):
                    for x in p.eff:
                        c.need(x[0] == "save" and x[1] is S("contract_info"), p, "state-write", "%s changes marketplace state" % u.entry)
        return
    v = V(u)
    done = set()
    for p0 in paths:
        if not p0.ok:
            continue
        for p in p0.all():
            acts = bool(p.eff) or bool(messages(p)) or p.parent is None
            if not acts:
                continue
            if u.variant in OWNER:
                c.need(sender_owns(p, v.coll, v.tok), p, "owner", "the caller is not checked to own the token")
                done.add("owner-only")
            elif u.variant in OPERATOR:
                c.need(is_operator(p), p, "operator", "the caller is not checked to be an operator")
                done.add("operator-only")
            elif u.variant in OWNBID:
                done.add("own-bids")
            else:
                c.need(False, p, "unclassified", "an operation without a declared authority")
            # records touched belong to the message's token and to the permitted bidder
            for x in p.eff:
                if x[0] not in ("save", "remove"):
                    c.need(False, p, "foreign-effect", "unexpected effect " + effshow(x))
                    continue
                ns = x[1].a[0] if x[1].k == "str" else "?"
                want = {"asks": v.askkey, "bids": v.bidkey, "col_bids": v.cbidkey}.get(ns)
                if c.need(want is not None, p, "config-write/" + ns, "a user operation changes %s" % ns):
                    c.need(p.same(x[2], want), p, "foreign-record/" + ns, lambda: "the operation changes the record of %s" % show(x[2]))
                    if u.variant in ("RejectBid",):
                        c.need(ns == "bids" and x[0] == "remove", p, "reject-scope")
    for d in done:
        c.count(d)


# ------------------------------------------------------------------ M10 upkeep of listings
@prop("M10", [V1], X, ("UpdateAskPrice", "SyncAsk", "RemoveStaleAsk", "RemoveAsk", "RemoveStaleBid", "RemoveStaleCollectionBid"),
      floors={"updates": 1, "syncs": 1, "sweeps": 1, "stale-bids": 2, "removals": 1})
def m10(c, u, paths):
    v = V(u)
    seen = set()
    for p in paths:
        if u.variant in ("RemoveStaleBid", "RemoveStaleCollectionBid"):
            ns, key, r, m = ("bids", v.bidkey, v.bid, v.mbid) if u.variant == "RemoveStaleBid" else ("col_bids", v.cbidkey, v.cbid, v.mcbid)
            if p.ok:
                c.count("stale-bids")
                c.need(any(p.same(x[2], key) for x in p.removes(ns)), p, "removed", "the stale bid is not deleted")
                sd = P("stale_bid_duration")
                t = fld(as_(sd, "Time"), "0")
                lim = binop("add", fld(r, "expires_at"), mk("call", "secs", (t,)))
                c.need(stale_reached(p, r, sd), p, "stale", "a bid can be swept before the stale period has passed")
                c.need(not p.saves(), p, "writes")
            continue
        if not p.ok:
            continue
        if u.variant == "RemoveAsk":
            c.count("removals")
            c.need(p.isv(v.mask, "Some"), p, "exists", "removing a listing that does not exist succeeds")
            c.need([x[0] for x in p.eff] == ["remove"] and p.same(p.eff[0][2], v.askkey), p, "removed", "exactly the listing is deleted")
            c.need(not money_msgs(p), p, "pays")
        elif u.variant == "UpdateAskPrice":
            c.count("updates")
            price = msgf(u, "price")
            c.need(p.isv(v.mask, "Some"), p, "exists")
            c.need(isactive(p, v.ask), p, "active", "an inactive listing can be repriced")
            c.holds(p, NOW, "<", fld(v.ask, "expires_at"), "unexpired", "an expired listing can be repriced")
            c.holds(p, I(0), "<", fld(price, "amount"), "price-positive", "a zero price is accepted")
            c.need(p.same(fld(price, "denom"), NATIVE), p, "price-denom", "a foreign currency is accepted")
            c.holds(p, P("min_price"), "<=", fld(price, "amount"), "price-min", "a price below the minimum is accepted")
            c.holds(p, fld(price, "amount"), "<=", MAXASK, "price-max", "a price above the listing cap is accepted")
            only_field(c, p, v, {"price": fld(price, "amount")})
        elif u.variant == "SyncAsk":
            c.count("syncs")
            c.need(p.isv(v.mask, "Some"), p, "exists")
            sv = p.saves("asks")
            if c.need(len(p.eff) == 1 and len(sv) == 1 and p.same(sv[0][2], v.askkey), p, "stored"):
                r = sv[0][3]
                for f in ASKF:
                    if f != "is_active":
                        c.need(p.same(fld(r, f), fld(v.ask, f)), p, "field/" + f, "synchronising changes " + f)
                val = p.norm(fld(r, "is_active"))
                c.need(sync_value(p, v, val), p, "value", lambda: "the listing becomes active = %s, which is not whether the approval is held" % show(val))
                c.need(sync_changes(p, v, val), p, "unchanged", "synchronising an unchanged listing is not rejected")
        elif u.variant == "RemoveStaleAsk":
            c.count("sweeps")
            c.need(p.isv(v.mask, "Some"), p, "exists")
            c.need([x[0] for x in p.eff] == ["remove"] and p.same(p.eff[0][2], v.askkey), p, "removed", "exactly the listing is deleted")
            exp = p.rel(fld(v.ask, "expires_at"), NOW) <= frozenset("<=")
            gone = owner_gone(p, v.coll, v.tok)
            unappr = approval_gone(p, v)
            c.need(exp or gone or unappr, p, "stale", "a valid listing can be swept")
            for w, b in (("expired", exp), ("gone", gone), ("unapproved", unappr)):
                if b:
                    seen.add(w)
    if u.variant == "RemoveStaleAsk":
        for w in ("expired", "gone", "unapproved"):
            c.need(w in seen, None, "reachable/" + w, "a listing that is %s can not be swept" % w)


def stale_reached(p, r, sd):
    t = fld(as_(sd, "Time"), "0")
    lim = binop("add", fld(r, "expires_at"), mk("call", "secs", (t,)))
    if p.isv(sd, "Time") and p.le(lim, NOW):
        return True
    # written with cw-utils' expiration arithmetic
    f = p.facts()
    for k, v in p.st.b.items():
        n = p.norm(k)
        if v is True and n.k == "call" and n.a[0].endswith("is_expired"):
            ts = list(subterms(n))
            if any(x.k == "call" and x.a[0].endswith("add") or x.k == "bin" and x.a[0] == "add" for x in ts) \
                    and any(x is p.norm(fld(r, "expires_at")) for x in ts) and any(x is p.norm(sd) for x in ts):
                return True
    return False


def only_field(c, p, v, changed):
    sv = p.saves("asks")
    if c.need(len(p.eff) == 1 and len(sv) == 1 and p.same(sv[0][2], v.askkey), p, "stored", "exactly the listing is updated"):
        r = sv[0][3]
        for f in ASKF:
            want = changed.get(f, fld(v.ask, f))
            c.need(p.same(fld(r, f), want), p, "field/" + f, lambda: "the listing is stored with %s = %s" % (f, show(fld(r, f))))


def approval_var(p, v, want):
    """the approval query on the token is known to be Ok/Err"""
    c2, k2 = p.norm(v.coll), p.norm(v.tok)
    for k in p.st.d:
        n = p.norm(k)
        if approval_term(p, n, c2, k2) and p.isv(k, want):
            return True
    return False


def approval_gone(p, v):
    return approval_var(p, v, "Err")


def owner_gone(p, coll, tok):
    c2, k2 = p.norm(coll), p.norm(tok)
    for k in p.st.d:
        n = p.norm(k)
        if n.k == "call" and (n.a[0].endswith("owner_of") or any(x.k == "adt" and x.a[1] == "OwnerOf" for x in subterms(n))) and p.isv(k, "Err") \
                and any(x is c2 for x in subterms(n)) and any(x is k2 for x in subterms(n)):
            return True
    return False


def sync_value(p, v, val):
    c2, k2 = p.norm(v.coll), p.norm(v.tok)
    if val.k == "isvar" and val.a[1] == "Ok":
        return approval_term(p, val.a[0], c2, k2)
    t = p.truth(val)
    if t is True:
        return approval_var(p, v, "Ok")
    if t is False:
        return approval_var(p, v, "Err")
    if val.k == "not" or val is p.norm(fld(v.ask, "is_active")):
        return False
    return False


def sync_changes(p, v, val):
    old = p.norm(fld(v.ask, "is_active"))
    if {p.truth(val), p.truth(old)} == {True, False}:
        return True
    if val.k == "isvar":
        return p.truth(cmp_eq(val, old)) is False or "=" not in p.rel(val, old)
    o = p.truth(old)
    return o is not None and p.truth(val) is not None and o != p.truth(val)


def cmp_eq(a, b):
    from absint import cmp_
    return cmp_("==", a, b)


# ------------------------------------------------------------------ M11 a bidder can always leave
@prop("M11", [V1], X, ("RemoveBid", "RemoveCollectionBid", "RemoveAsk"), floors={"exits": 2, "rejections": 2})
def m11(c, u, paths):
    v = V(u)
    m = {"RemoveBid": v.mbid, "RemoveCollectionBid": v.mcbid, "RemoveAsk": v.mask}[u.variant]
    ns, key = {"RemoveBid": ("bids", v.bidkey), "RemoveCollectionBid": ("col_bids", v.cbidkey), "RemoveAsk": ("asks", v.askkey)}[u.variant]
    for p in paths:
        if p.ok:
            c.count("exits")
            c.need(any(x[0] == "remove" and p.same(x[2], key) for x in p.eff) and p.isv(m, "Some"), p, "removed", "the record is not deleted")
        else:
            c.count("rejections")
            why = addr_bad(p, msgf(u, "collection")) or funds_attached(p) or p.isv(m, "None") is True
            if u.variant == "RemoveAsk":
                why = why or not_owner(p, v) or owner_gone(p, v.coll, v.tok)
            c.need(why, p, "rejected", "the withdrawal can be refused although the record exists, the caller is entitled and no funds are attached")
    c.need(any(p.ok for p in paths), None, "possible", "the withdrawal never succeeds")


def not_owner(p, v):
    for (a, b), s in p.st.o.items():
        if "=" not in s:
            for x, y in ((a, b), (b, a)):
                if p.same(y, SENDER) and is_owner_term(p, p.facts().n0(x), v.coll, v.tok):
                    return True
    return False


# ------------------------------------------------------------------ M12 hooks
HOOKS = {
    # variant: (registry, id, message enum variant, payload field, record namespace)
    "SetAsk": [("ask-hooks", 1, "AskCreatedHook")],
    "RemoveAsk": [("ask-hooks", 1, "AskDeletedHook")],
    "UpdateAskPrice": [("ask-hooks", 1, "AskUpdatedHook")],
    "SyncAsk": [("ask-hooks", 1, "AskUpdatedHook")],
    "RemoveStaleAsk": [("ask-hooks", 1, "AskDeletedHook")],
    "RemoveBid": [("bid-hooks", 3, "BidDeletedHook")],
    "RejectBid": [("bid-hooks", 3, "BidDeletedHook")],
    "RemoveStaleBid": [("bid-hooks", 3, "BidDeletedHook")],
    "SetCollectionBid": [("collection-bid-hooks", 4, "CollectionBidCreatedHook")],
    "RemoveCollectionBid": [("collection-bid-hooks", 4, "CollectionBidDeletedHook")],
    "RemoveStaleCollectionBid": [("collection-bid-hooks", 4, "CollectionBidDeletedHook")],
}
SALEHOOK = ("sale-hooks", 2, "SaleHook")


@prop("M12", [V1], X + ("reply", "sudo", "instantiate"), floors={"notified": 10, "replies": 2})
def m12(c, u, paths):
    if u.entry.endswith("reply"):
        ids = set()
        for p in paths:
            rid = fld(arg("msg"), "id")
            c.need(p.ok is True, p, "reply-fails", "the handler of a failed notification can itself fail")
            c.need(not p.eff and not p.items, p, "reply-acts", "the handler of a failed notification changes state")
            for i in (1, 2, 3, 4):
                if p.rel(rid, I(i)) == frozenset("="):
                    ids.add(i)
        for i in (1, 2, 3, 4):
            c.need(i in ids, None, "reply-id/%d" % i, "failed notifications with this id are not handled")
        c.count("replies", len(ids))
        return
    if not u.entry.endswith("::execute"):
        for p0 in paths:
            for p in p0.all():
                for m in messages(p):
                    c.need(False, p, "message", "unexpected message " + m.text())
        return
    v = V(u)
    for p in paths:
        if not p.ok:
            continue
        if nft_msgs(p):
            want = [SALEHOOK]
        elif u.variant in ("SetBid", "BuyNow", "BuyFor"):
            want = [("bid-hooks", 3, "BidCreatedHook")]
        else:
            want = HOOKS.get(u.variant)
        if not c.need(want is not None, p, "unclassified", "an operation without a declared notification"):
            continue
        got = []
        for i, it in enumerate(p.allitems):
            if it[0] != "m":
                continue
            for facts, items in it[2]:
                if not c.need(len(items) == 1 and items[0][0] == "i", p, "shape", "a subscriber gets no or several messages"):
                    continue
                m = money.Msg(items[0])
                c.need(m.kind == "exec" and not m.bag, p, "shape", "notification is not a plain call: " + m.text())
                c.need(m.reply == "Error" and m.id.k == "int", p, "reply-on-error", "a failing subscriber would revert the operation")
                got.append(m)
        for m in messages(p):
            c.need(m.reply == "Never" or m.kind == "exec", p, "reply")
            if m.kind == "exec" and m.body is not None and m.variant.endswith("Hook"):
                c.need(False, p, "hook-outside", "a notification outside the subscriber list: " + m.text())
        for ns, rid, var in want:
            hit = [m for m in got if m.to.k == "elem" and m.to.a[0].k == "hooks" and m.to.a[0].a[0] is S(ns)]
            if not c.need(len(hit) == 1, p, "notified/" + ns, "subscribers of %s are notified %d times" % (ns, len(hit))):
                continue
            m = hit[0]
            got.remove(m)
            c.count("notified")
            c.need(m.variant == var, p, "action/" + ns, lambda: "notification %s instead of %s" % (m.variant, var))
            c.need(m.id is I(rid), p, "reply-id/" + ns)
            c.need(payload_ok(c, p, u, v, ns, fld(m.body, "0")), p, "payload/" + ns, lambda: "wrong notification content: " + m.text())
        c.need(not got, p, "extra", lambda: "additional notifications: " + "; ".join(m.text() for m in got))


def payload_ok(c, p, u, v, ns, body):
    if ns == "sale-hooks":
        s = sale(p, u)
        return p.same(fld(body, "collection"), v.coll) and p.same(fld(body, "token_id"), v.tok) and \
            zero(p, badd(bag(fld(body, "price")), bagcoin(NATIVE, s["price"]), -1)) and \
            p.same(fld(body, "seller"), s["seller"]) and p.same(fld(body, "buyer"), s["buyer"])
    f, sp, key, rec = {"ask-hooks": ("ask", "asks", v.askkey, v.ask), "bid-hooks": ("bid", "bids", v.bidkey, v.bid),
                       "collection-bid-hooks": ("collection_bid", "col_bids", v.cbidkey, v.cbid)}[ns]
    sv = p.saves(sp)
    want = sv[-1][3] if sv else rec
    return p.same(fld(body, f), want) or all(p.same(fld(fld(body, f), g), fld(want, g)) for g in recfields(sp))


def recfields(ns):
    return {"asks": ASKF, "bids": ("collection", "token_id", "bidder", "price", "finders_fee_bps", "expires_at"),
            "col_bids": ("collection", "bidder", "price", "finders_fee_bps", "expires_at")}[ns]


# ------------------------------------------------------------------ M13 governance
PFIELDS = ("trading_fee_percent", "ask_expiry", "bid_expiry", "operators", "max_finders_fee_percent", "min_price",
           "stale_bid_duration", "bid_removal_reward_percent", "listing_fee")
PSOURCE = {"trading_fee_percent": ("trading_fee_bps", percent), "max_finders_fee_percent": ("max_finders_fee_bps", percent),
           "bid_removal_reward_percent": ("bid_removal_reward_bps", percent), "ask_expiry": ("ask_expiry", ident),
           "bid_expiry": ("bid_expiry", ident), "min_price": ("min_price", ident), "listing_fee": ("listing_fee", ident),
           "stale_bid_duration": ("stale_bid_duration", None)}
MAXBPS = I(10000)
HOOKVAR = {"AddSaleHook": ("add_hook", "sale-hooks"), "AddAskHook": ("add_hook", "ask-hooks"), "AddBidHook": ("add_hook", "bid-hooks"),
           "RemoveSaleHook": ("remove_hook", "sale-hooks"), "RemoveAskHook": ("remove_hook", "ask-hooks"), "RemoveBidHook": ("remove_hook", "bid-hooks")}


def range_ok(p, t):
    return p.le(fld(t, "min"), fld(t, "max"))


@prop("M13", [V1], ("sudo", "instantiate"), floors={"param-updates": 2, "hook-changes": 2, "operator-changes": 2, "instantiations": 1})
def m13(c, u, paths):
    if u.entry.endswith("instantiate"):
        m = arg("msg")
        for p in paths:
            if not p.ok:
                continue
            c.count("instantiations")
            sv = p.saves("sudo-params")
            if not c.need(len(sv) == 1, p, "params-stored"):
                continue
            r = sv[0][3]
            for f in ("trading_fee_bps", "max_finders_fee_bps", "bid_removal_reward_bps"):
                c.holds(p, fld(m, f), "<=", MAXBPS, "fee-cap/" + f, "a rate above 100% is accepted: " + f)
            for f in ("ask_expiry", "bid_expiry"):
                c.need(range_ok(p, fld(m, f)), p, "range/" + f, "an empty expiry range is accepted: " + f)
            c.need(p.isv(fld(m, "stale_bid_duration"), "Time"), p, "duration", "a stale period counted in blocks is accepted")
            for f, (src, conv) in PSOURCE.items():
                c.need(p.same(fld(r, f), (conv or ident)(fld(m, src))), p, "field/" + f, lambda: "%s is stored as %s" % (f, show(fld(r, f))))
            ops = fld(r, "operators")
            c.need(operators_from(p, ops, fld(m, "operators")), p, "field/operators", lambda: "operators stored as " + show(ops))
            hook = fld(m, "sale_hook")
            hk = [x for x in p.eff if x[0] in ("add_hook", "remove_hook")]
            if p.isv(hook, "Some"):
                c.need(len(hk) == 1 and hk[0][0] == "add_hook" and hk[0][1] is S("sale-hooks") and p.same(hk[0][2], maybe_valid(hook)), p, "sale-hook", "the initial sale subscriber is not registered")
            else:
                c.need(not hk and p.isv(hook, "None"), p, "sale-hook")
        return
    for p0 in paths:
        if not p0.ok:
            continue
        p = p0
        c.need(not p.items and not p.subs, p, "messages", "a governance operation sends messages")
        if u.variant in HOOKVAR:
            c.count("hook-changes")
            op, ns = HOOKVAR[u.variant]
            c.need(len(p.eff) == 1 and p.eff[0][0] == op and p.eff[0][1] is S(ns) and p.same(p.eff[0][2], valid(msgf(u, "hook"))), p, "hook",
                   lambda: "%s does %s" % (u.variant, "; ".join(effshow(x) for x in p.eff)))
            continue
        sv = p.saves("sudo-params")
        if not c.need(len(p.eff) == 1 and len(sv) == 1, p, "effect", "a governance operation changes something else"):
            continue
        r = sv[0][3]
        if u.variant == "UpdateParams":
            c.count("param-updates")
            for f in ("trading_fee_bps", "max_finders_fee_bps", "bid_removal_reward_bps"):
                t = msgf(u, f)
                c.need(p.isv(t, "None") or p.isv(t, "Some") and p.le(fld(as_(t, "Some"), "0"), MAXBPS), p, "fee-cap/" + f, "a rate above 100% is accepted: " + f)
            for f in ("ask_expiry", "bid_expiry"):
                t = msgf(u, f)
                c.need(p.isv(t, "None") or p.isv(t, "Some") and range_ok(p, fld(as_(t, "Some"), "0")), p, "range/" + f, "an empty expiry range is accepted: " + f)
            for f, (src, conv) in PSOURCE.items():
                t = msgf(u, src)
                got = fld(r, f)
                if p.isv(t, "Some"):
                    x = fld(as_(t, "Some"), "0")
                    want = conv(x) if conv else adt("cw_utils::Duration", "Time", **{"0": x})
                elif p.isv(t, "None"):
                    want = P(f)
                else:
                    c.need(False, p, "field/" + f, f + " is not looked at")
                    continue
                c.need(p.same(got, want), p, "field/" + f, lambda: "%s becomes %s" % (f, show(got)))
            c.need(p.same(fld(r, "operators"), P("operators")), p, "field/operators", "operators change with the parameters")
        elif u.variant in ("AddOperator", "RemoveOperator"):
            c.count("operator-changes")
            for f in PFIELDS:
                if f != "operators":
                    c.need(p.same(fld(r, f), P(f)), p, "field/" + f, lambda: "%s becomes %s" % (f, show(fld(r, f))))
            who = valid(msgf(u, "operator"))
            got = p.norm(fld(r, "operators"))
            if u.variant == "AddOperator":
                c.need(got.k == "list" and got.a[0] == (("s", p.norm(P("operators"))), ("i", p.norm(who))), p, "operators", lambda: "operators become " + show(got))
            else:
                c.need(removes_elem(p, got, P("operators"), who), p, "operators", lambda: "operators become " + show(got))
        else:
            c.need(False, p, "unclassified", "a governance operation without a declared effect")


def operators_from(p, got, src):
    """got is the validated content of src, up to order and duplicates"""
    ts = list(subterms(got))
    if not any(t is src for t in ts):
        return False
    return any(t.k == "valid" for t in ts) or "valid" in show(got)


def removes_elem(p, got, ops, who):
    ops, who = p.norm(ops), p.norm(who)
    ts = list(subterms(got))
    if not any(t is ops for t in ts):
        return False
    if not any(t is who for t in ts):
        return False
    # nothing is added
    return not (got.k == "list" and any(i[0] == "i" for i in got.a[0]))
