"""Rules of the reserve auction."""
from registry import prop, program
from common import *
from v1 import escrow_walk, has_lost, record_of, zero_funds_violation
from terms import *

X = ("execute",)
CFG = stored("cfg", UNIT)
HM = stored("hm", UNIT)
WINDOWS = fld(HM, "halt_windows")
AF = ("collection", "token_id", "seller", "reserve_price", "duration", "end_time", "seller_funds_recipient", "high_bid", "first_bid_time")
NOWS = mk("call", "to_secs", (NOW,))


def C(f):
    return fld(CFG, f)


def secs(t):
    return mk("secs", t)


class A:
    """the auction a unit is about"""

    def __init__(self, u):
        self.coll = valid(msgf(u, "collection"))
        self.tok = msgf(u, "token_id")
        self.key = tup(self.coll, self.tok)
        self.rec = stored("a", self.key)
        self.may = mayload("a", self.key)


def hb(r, f=None):
    h = fld(as_(fld(r, "high_bid"), "Some"), "0")
    return h if f is None else fld(h, f)


def hbcoin(r):
    c = hb(r, "coin")
    return bagcoin(fld(c, "denom"), fld(c, "amount"))


def end_of(r):
    return fld(as_(fld(r, "end_time"), "Some"), "0")


def value(p, ns, r):
    h = fld(r, "high_bid")
    if p.isv(h, "None"):
        return {}
    return hbcoin(r)


def touched(p):
    """the auctions a path deletes or rewrites: [(op, key, record before, record after)]"""
    out = []
    for x in p.eff:
        if x[0] in ("save", "remove") and x[1] is S("a"):
            m = mk("mayload", x[1], x[2], 0)
            if p.isv(m, "Some"):
                cur = mk("stored", x[1], x[2], 0)
            elif p.isv(m, "None"):
                cur = None
            else:
                cur = record_of(p, "a", x[2])
            out.append((x[0], x[2], cur, x[3]))
    return out


def base(p):
    """paths that may carry the generic iterations of a block sweep"""
    for q in p.all():
        yield q


# ------------------------------------------------------------------ R01 ledger
@prop("R01", [RA], floors={"paths-with-money": 2, "paths-storing-escrow": 2, "paths-releasing-escrow": 2},
      explain="ledger rule on every path of every entry point (and every generic iteration of the block sweep): attached "
              "funds + high bids of deleted or replaced auctions = outgoing payments + high bids of stored auctions, per denomination")
def r01(c, u, paths):
    for p0 in paths:
        if p0.ok is False:
            continue
        for p in p0.all():
            if u.entry.endswith("query"):
                c.need(not p.eff and not p.items, p, "query-writes")
                continue
            if u.entry.endswith("instantiate"):
                c.need(not messages(p) and not p.saves("a"), p, "instantiate-moves-money")
                continue
            known_messages(c, p)
            for x in p.eff:
                if x[0] == "save" and x[1] is S("a"):
                    h = fld(x[3], "high_bid")
                    c.need(p.isv(h, "None") is not None or p.isv(h, "Some") is not None or is_old(p, h), p, "bid-known",
                           lambda: "an auction is stored with a high bid of unknown state: " + show(h))
            rel, sto, relr, stor = escrow_walk(c, p, value, ("a",))
            out = {}
            for m in messages(p):
                out = badd(out, m.bag)
            inn = inflow(p) if p.parent is None else {}
            diff = badd(badd(money.subst(p, inn, FUNDS), rel), badd(money.subst(p, out, FUNDS), sto), -1)
            if inn or rel or out or sto:
                c.count("paths-with-money")
            if sto:
                c.count("paths-storing-escrow")
            if rel:
                c.count("paths-releasing-escrow")
            c.need(zero(p, diff), p, "balance",
                   lambda: "received %s and released %s, but paid out %s and stored %s" % (showbag(inn), showbag(rel), showbag(out), showbag(sto)))
            c.need(not has_lost(p), p, "lost-messages", "a response with messages is dropped")


def is_old(p, h):
    return h.k == "fld" and h.a[1] == "high_bid"


# ------------------------------------------------------------------ R02 custody
@prop("R02", [RA], floors={"custody-in": 1, "custody-out": 2, "records-written": 2})
def r02(c, u, paths):
    if u.entry.endswith("query"):
        return
    for p0 in paths:
        if not p0.ok:
            continue
        for p in p0.all():
            known_messages(c, p)
            n = list(nft_msgs(p))
            for m in n:
                c.need(m.variant == "TransferNft" and m.reply == "Never", p, "transfer-kind", "a token moves by other means than a plain transfer, or a failure would be ignored")
            for op, key, cur, new in touched(p):
                coll, tok = fld(key, "0"), fld(key, "1")
                mine = [m for m in n if p.same(m.to, coll) and p.same(m.token, tok)]
                if op == "save" and cur is None:
                    c.count("custody-in")
                    if c.need(len(mine) == 1, p, "custody-in", "an auction is opened without taking the token into custody"):
                        c.need(p.same(mine[0].recipient, SELF), p, "custody-in", lambda: "the token is transferred to " + show(mine[0].recipient))
                        n.remove(mine[0])
                elif op == "save":
                    c.need(not mine, p, "moved-while-open", "the token moves although its auction stays open")
                else:
                    c.count("custody-out")
                    if c.need(len(mine) == 1, p, "custody-out", "an auction is deleted but its token is not handed over exactly once"):
                        r = cur
                        bidder, seller = hb(r, "bidder"), fld(r, "seller")
                        h = fld(r, "high_bid")
                        want = bidder if p.isv(h, "Some") else seller if p.isv(h, "None") else None
                        c.need(want is not None and p.same(mine[0].recipient, want), p, "custody-out",
                               lambda: "the token is handed to " + show(mine[0].recipient))
                        n.remove(mine[0])
                if op == "save":
                    c.count("records-written")
                    # what the other rules rely on: identity and fields set together
                    c.need(p.same(fld(new, "collection"), coll) and p.same(fld(new, "token_id"), tok), p, "identity", "an auction is stored under another token's key")
                    vs = [variant_of(p, cur, fld(new, f)) for f in ("high_bid", "end_time", "first_bid_time")]
                    c.need(len(set(vs)) == 1 and vs[0] is not None, p, "set-together", lambda: "bid, end time and first bid time are not set together: %s" % (vs,))
                    if vs[0] == "Some":
                        c.need(p.same(fld(hb(new, "coin"), "denom"), fld(fld(new, "reserve_price"), "denom")), p, "bid-denom", "the high bid is stored in another currency than the auction's")
            c.need(not n, p, "unexplained-transfer", lambda: "a token is transferred although its auction is neither opened nor closed: " + n[0].text())


def variant_of(p, cur, t):
    for v in ("Some", "None"):
        if p.isv(t, v) is True:
            return v
    t = p.norm(t)
    if cur is not None and t.k == "fld" and p.norm(t.a[0]) is p.norm(cur):
        return "as-before"
    return None


# ------------------------------------------------------------------ R03 bidding
def bid_paid(p, denom):
    """the amount attached, as established by the path (exactly one coin of the denomination)"""
    for k, v in p.st.b.items():
        if v is True and k.k == "succeeds" and k.a[0] == "funds" and k.a[2] is FUNDS:
            t = mk("paid", *k.a[1:])
            if k.a[1] == "one_coin":
                if p.same(fld(t, "denom"), denom):
                    return fld(t, "amount")
            elif p.same(k.a[3], denom):
                return t
    return None


def at_least(p, denom, amount, want):
    """the attached payment is at least want"""
    if p.le(want, amount):
        return True
    for k, v in p.st.b.items():
        if v is True and k.k == "call" and k.a[0].endswith("has_coins") and k.a[1][0] is FUNDS:
            r = k.a[1][1]
            if p.same(fld(r, "denom"), denom) and p.same(fld(r, "amount"), want):
                return True
    return False


@prop("R03", [RA], X, ("PlaceBid",), floors={"first-bids": 1, "later-bids": 2})
def r03(c, u, paths):
    a = A(u)
    r = a.rec
    denom = fld(fld(r, "reserve_price"), "denom")
    for p in paths:
        if not p.ok:
            continue
        c.need(p.isv(a.may, "Some"), p, "exists", "a bid on a token without an auction is accepted")
        c.need(not p.rel(fld(r, "seller"), SENDER) & frozenset("="), p, "seller-bids", "the seller can bid on the own auction")
        amt = bid_paid(p, denom)
        if not c.need(amt is not None, p, "payment", "the payment is not checked to be a single coin of the auction's currency"):
            continue
        h = fld(r, "high_bid")
        if p.isv(h, "None"):
            c.count("first-bids")
            c.need(at_least(p, denom, amt, fld(fld(r, "reserve_price"), "amount")), p, "reserve-price", "a first bid below the reserve price is accepted")
        elif c.need(p.isv(h, "Some"), p, "high-bid", "the current high bid is not looked at"):
            c.count("later-bids")
            want = ceil_(fld(hb(r, "coin"), "amount"), binop("add", call_one(), C("min_bid_increment_percent")))
            c.need(at_least(p, denom, amt, want), p, "increment", "a bid below the minimum increment is accepted")
            c.need(p.lt(NOWS, to_secs(end_of(r))) or p.lt(NOW, end_of(r)), p, "ended", "a bid on an ended auction is accepted")
        sv = p.saves("a")
        if c.need(len(p.eff) == 1 and len(sv) == 1 and p.same(sv[0][2], a.key), p, "stored", "exactly the auction is updated"):
            n = sv[0][3]
            for f in AF:
                if f not in ("high_bid", "end_time", "first_bid_time"):
                    c.need(p.same(fld(n, f), fld(r, f)), p, "field/" + f, "a bid changes the auction's " + f)
            nh = fld(n, "high_bid")
            c.need(p.isv(nh, "Some") and p.same(hb(n, "bidder"), SENDER) and p.same(fld(hb(n, "coin"), "amount"), amt) and p.same(fld(hb(n, "coin"), "denom"), denom),
                   p, "high-bid-stored", lambda: "the high bid becomes " + show(nh))


def call_one():
    return mk("call", "cosmwasm_std::Decimal::one", ())


def to_secs(t):
    return mk("call", "to_secs", (t,))


# ------------------------------------------------------------------ R04 refunds
@prop("R04", [RA], X, ("PlaceBid",), floors={"refunds": 2, "no-refunds": 1})
def r04(c, u, paths):
    a = A(u)
    r = a.rec
    for p in paths:
        if not p.ok:
            continue
        exp = []
        if p.isv(fld(r, "high_bid"), "None"):
            c.count("no-refunds")
        elif c.need(p.isv(fld(r, "high_bid"), "Some"), p, "high-bid", "the current high bid is not looked at"):
            c.count("refunds")
            exp.append(("refund of the outbid bidder", "send", hb(r, "bidder"), hbcoin(r)))
        match(c, p, exp, "refund")
        for m in messages(p):
            c.need(m.reply == "Never", p, "refund-reply", "a failing refund would be ignored")
        c.need(not nft_msgs(p), p, "transfer", "a bid moves the token")


# ------------------------------------------------------------------ R05 end times
@prop("R05", [RA], X, ("PlaceBid",), floors={"first-bids": 1, "extended": 1, "kept": 1})
def r05(c, u, paths):
    a = A(u)
    r = a.rec
    for p in paths:
        if not p.ok:
            continue
        sv = p.saves("a")
        if not c.need(len(sv) == 1, p, "stored"):
            continue
        n = sv[0][3]
        et, fb = fld(n, "end_time"), fld(n, "first_bid_time")
        if p.isv(fld(r, "high_bid"), "None"):
            c.count("first-bids")
            c.need(some_is(p, fb, NOW), p, "first-bid-time", lambda: "first bid time becomes " + show(fb))
            c.need(some_is(p, et, binop("add", NOW, secs_(fld(r, "duration")))), p, "end-time", lambda: "the end time becomes " + show(et))
            continue
        c.need(p.same(fb, fld(r, "first_bid_time")), p, "first-bid-time-kept", "a later bid changes the first bid time")
        left = binop("sub", to_secs(end_of(r)), NOWS)
        rel = p.rel(left, C("extend_duration"))
        if rel <= frozenset("<"):
            c.count("extended")
            c.need(some_is(p, et, binop("add", NOW, secs_(C("extend_duration")))), p, "extended", lambda: "a late bid sets the end time to " + show(et))
        elif rel <= frozenset("=>"):
            c.count("kept")
            c.need(p.same(et, fld(r, "end_time")), p, "kept", lambda: "an early bid sets the end time to " + show(et))
        else:
            c.need(False, p, "remaining", "the remaining time is not compared with the extension period")


def secs_(t):
    return mk("call", "secs", (t,))


def some_is(p, opt, t):
    return p.isv(opt, "Some") is True and p.same(fld(as_(opt, "Some"), "0"), t)


# ------------------------------------------------------------------ R06 settlement
def settled(u, paths):
    """the paths (iterations of the block sweep included) that delete an auction having a bid, or
    postpone it: [(path, op, record, new)]"""
    for p0 in paths:
        if not p0.ok:
            continue
        for p in p0.all():
            for op, key, cur, new in touched(p):
                yield p, op, key, cur, new


def ended(p, r, now=NOW):
    e = end_of(r)
    return p.le(e, now) or p.le(to_secs(e), to_secs(now))


def royalty_terms(p, coll):
    """(decided, royalty record or None)"""
    f = p.facts()
    for q in info_queries(p, coll):
        if p.isv(q, "Ok"):
            ri = fld(fld(as_(q, "Ok"), "0"), "royalty_info")
            if p.isv(ri, "None"):
                return True, None
            if p.isv(ri, "Some"):
                return True, fld(as_(ri, "Some"), "0")
    return False, None


def ceil_(a, b):
    return mk("call", "mul_ceil", (a, b))


@prop("R06", [RA], None, ("SettleAuction", "EndBlock"), floors={"settlements": 2})
def r06(c, u, paths):
    if u.variant not in ("SettleAuction", "EndBlock"):
        return
    for p, op, key, r, new in settled(u, paths):
        if not c.need(r is not None and r != "unknown", p, "record", "an auction is changed that was not looked at"):
            continue
        if u.variant == "SettleAuction":
            c.need(p.same(key, A(u).key), p, "auction", "another auction than the named one is settled")
            c.need(not inflow(p), p, "no-funds", "funds attached to a settlement are kept")
        c.need(p.isv(fld(r, "end_time"), "Some") and ended(p, r), p, "ended", "an auction can be settled before its end")
        if op == "save":
            continue
        c.count("settlements")
        if not c.need(p.isv(fld(r, "high_bid"), "Some"), p, "has-bid", "an auction without a bid is settled"):
            continue
        coin = hb(r, "coin")
        amount, denom = fld(coin, "amount"), fld(coin, "denom")
        fee = ceil_(amount, C("trading_fee_percent"))
        exp = [("trading fee", "fairburn", C("fair_burn"), bagcoin(denom, fee))]
        rest = badd(bagcoin(denom, amount), bagcoin(denom, fee), -1)
        decided, roy = royalty_terms(p, fld(r, "collection"))
        if not c.need(decided, p, "royalty", "the collection's royalty terms are not looked up"):
            continue
        if roy is not None:
            ra = ceil_(amount, fld(roy, "share"))
            to = [m.to for m in money_msgs(p) if m.kind == "send" and contains(p.norm(m.to), p.norm(fld(roy, "payment_address")))]
            exp.append(("royalty", "send", to[0] if to else fld(roy, "payment_address"), bagcoin(denom, ra)))
            rest = badd(rest, bagcoin(denom, ra), -1)
        fr = fld(r, "seller_funds_recipient")
        payee = fld(as_(fr, "Some"), "0") if p.isv(fr, "Some") else fld(r, "seller") if p.isv(fr, "None") else None
        if not c.need(payee is not None or zero(p, rest), p, "payee", "the funds recipient is not looked at"):
            continue
        exp.append(("seller's share", "send", payee, rest))
        match(c, p, exp, "payout")
        n = [m for m in nft_msgs(p)]
        c.need(len(n) == 1 and p.same(n[0].to, fld(r, "collection")) and p.same(n[0].token, fld(r, "token_id")) and p.same(n[0].recipient, hb(r, "bidder")),
               p, "token", lambda: "the token does not go to the high bidder: " + "; ".join(m.text() for m in n))
        for m in messages(p):
            c.need(m.reply == "Never", p, "reply", "a failing payment or transfer would be ignored")


# ------------------------------------------------------------------ R07 the seller's rights
@prop("R07", [RA], X, ("UpdateReservePrice", "CancelAuction"), floors={"updates": 1, "cancellations": 1, "refusals": 2})
def r07(c, u, paths):
    a = A(u)
    r = a.rec
    for p in paths:
        if p.ok is False:
            c.count("refusals")
            if u.variant == "CancelAuction":
                # nothing but these may keep a seller from withdrawing an auction nobody bid on
                why = addr_bad(p, msgf(u, "collection")) or funds_attached(p) or p.isv(a.may, "None") is True or \
                    "=" not in p.rel(fld(r, "seller"), SENDER) or p.isv(fld(r, "first_bid_time"), "Some") is True
                c.need(why, p, "refused", "the seller can be kept from cancelling an auction without bids")
            continue
        if not p.ok:
            continue
        c.need(p.isv(a.may, "Some"), p, "exists")
        c.need(p.same(fld(r, "seller"), SENDER), p, "seller", "someone other than the seller can change the auction")
        c.need(p.isv(fld(r, "high_bid"), "None"), p, "no-bid", "an auction can be changed after the first bid")
        c.need(not inflow(p), p, "no-funds", "attached funds are kept")
        c.need(not money_msgs(p), p, "payment", "the operation pays out money")
        if u.variant == "CancelAuction":
            c.count("cancellations")
            c.need([x[0] for x in p.eff] == ["remove"] and p.same(p.eff[0][2], a.key), p, "deleted", "cancelling does not delete exactly the auction")
            n = nft_msgs(p)
            c.need(len(n) == 1 and p.same(n[0].to, a.coll) and p.same(n[0].token, a.tok) and p.same(n[0].recipient, fld(r, "seller")), p, "token", "the token does not go back to the seller")
        else:
            c.count("updates")
            sv = p.saves("a")
            price = msgf(u, "reserve_price")
            price_ok(c, p, price)
            c.need(not nft_msgs(p), p, "token", "repricing moves the token")
            if c.need(len(p.eff) == 1 and len(sv) == 1 and p.same(sv[0][2], a.key), p, "stored", "exactly the auction is updated"):
                for f in AF:
                    want = price if f == "reserve_price" else fld(r, f)
                    c.need(p.same(fld(sv[0][3], f), want), p, "field/" + f, lambda: "%s becomes %s" % (f, show(fld(sv[0][3], f))))


def price_ok(c, p, price):
    d = fld(price, "denom")
    c.need(p.isv(mayload("mrp", d), "Some"), p, "price-denom", "a reserve price in a currency that is not accepted is stored")
    c.holds(p, stored("mrp", d), "<=", fld(price, "amount"), "price-min", "a reserve price below the minimum is stored")


# ------------------------------------------------------------------ R08 creation
@prop("R08", [RA], X, ("CreateAuction",), floors={"creations": 2})
def r08(c, u, paths):
    a = A(u)
    price = msgf(u, "reserve_price")
    fee = C("create_auction_fee")
    for p in paths:
        if not p.ok:
            continue
        c.count("creations")
        c.need(sender_owns(p, a.coll, a.tok), p, "owner", "someone other than the owner can auction a token")
        c.need(self_approved(p, a.coll, a.tok), p, "approval", "the contract's approval for the token is not checked")
        c.need(tradable(p, a.coll), p, "tradable", "a collection that is not yet trading can be auctioned")
        c.need(p.isv(a.may, "None"), p, "duplicate", "an open auction can be overwritten")
        price_ok(c, p, price)
        d = msgf(u, "duration")
        c.holds(p, C("min_duration"), "<=", d, "duration-min", "an auction shorter than the minimum is accepted")
        c.holds(p, d, "<=", C("max_duration"), "duration-max", "an auction longer than the maximum is accepted")
        inn = inflow(p)
        z = p.rel(fld(fee, "amount"), I(0))
        want = {} if z == frozenset("=") else bagcoin(fld(fee, "denom"), fld(fee, "amount"))
        c.need(zero(p, badd(money.subst(p, inn, FUNDS), want, -1)), p, "fee-exact", lambda: "the attached funds may differ from the creation fee: " + showbag(inn))
        match(c, p, [("creation fee", "fairburn", C("fair_burn"), want)], "fee")
        sv = p.saves("a")
        if c.need(len(p.eff) == 1 and len(sv) == 1 and p.same(sv[0][2], a.key), p, "stored", "exactly one auction is stored"):
            n = sv[0][3]
            for f, t in {"collection": a.coll, "token_id": a.tok, "seller": SENDER, "duration": d, "reserve_price": price}.items():
                c.need(p.same(fld(n, f), t), p, "field/" + f, lambda: "the auction is stored with %s = %s" % (f, show(fld(n, f))))
            for f in ("high_bid", "end_time", "first_bid_time"):
                c.need(p.isv(fld(n, f), "None") is True, p, "field/" + f, "a new auction already has a " + f)
            from v1 import opt_same
            c.need(opt_same(p, fld(n, "seller_funds_recipient"), msgf(u, "seller_funds_recipient"), valid), p, "field/recipient",
                   lambda: "the auction is stored with recipient " + show(fld(n, "seller_funds_recipient")))


def self_approved(p, coll, tok):
    from v1 import approved
    return approved(p, coll, tok)


# ------------------------------------------------------------------ R09 the block sweep
@prop("R09", [RA], ("sudo",), ("EndBlock",), floors={"sweeps": 1, "iterations": 2, "ranges": 1})
def r09(c, u, paths):
    if u.variant != "EndBlock":
        return
    seen = set()
    for p0 in paths:
        if not p0.ok:
            continue
        c.count("sweeps")
        its = [(lid, s) for lid, s in p0.subs if any(touched(q) for q in s)]
        c.need(len(its) == 1, p0, "one-sweep", "the block sweep handles auctions in %d loops" % len(its))
        for lid, subs in its:
            for q in subs:
                c.count("iterations")
                ts = touched(q)
                if c.need(len(ts) == 1, q, "each-handled", "an auction due in the sweep is neither settled nor postponed"):
                    r = ts[0][2]
                    if not c.need(r not in (None, "unknown"), q, "record"):
                        continue
                    rg = [x for x in subterms(r) if x.k == "range"]
                    if c.need(len(rg) >= 1, q, "from-index", "the sweep does not iterate stored auctions"):
                        seen.add(rg[0])
                    tk = [x for x in subterms(r) if x.k == "call" and x.a[0] == "take"]
                    limited = len(tk) == 1 and p0.same(tk[0].a[1][1], C("max_auctions_to_settle_per_block"))
                    for m in gathered(p0, rg[0]) if rg else ():
                        limited = limited or counted_out(p0, rg[0], m)
                        c.count("filters")
                        dropped_not_due(c, q, m)
                    c.need(limited, q, "limit", "the number of auctions handled per block is not the configured limit")
                    for base in filtered(r):
                        c.count("filters")
                        dropped_not_due(c, q, base)
        # nothing else changes but halt bookkeeping (R10)
        for x in p0.eff:
            c.need(x[1] is S("hm"), p0, "effect", "the sweep changes " + effshow(x))
        c.need(not messages(p0), p0, "messages")
    never_rejects(c, u)
    for rg in seen:
        c.count("ranges")
        src, lo, hi, order = rg.a[1], rg.a[2], rg.a[3], rg.a[4]
        c.need(contains(src, S("a__et")) and unprefixed(src), None, "by-end-time", lambda: "the sweep iterates " + show(src))
        c.need(variant_name(order) == "Ascending", None, "oldest-first", "auctions are not handled in the order of their end")
        c.need(variant_name(lo) == "None", None, "no-lower-bound", lambda: "the sweep skips auctions below " + show(lo))
        c.need(due_bound(hi), None, "all-due", lambda: "the sweep's upper bound is %s, not everything that has ended by this block" % show(hi))


def never_rejects(c, u):
    """no auction picked by the sweep makes the whole sweep fail because it would not have ended"""
    from absint import Engine
    import paths as P_, models, money
    e = Engine(c.prog)
    e.heavy_at = 0
    u2 = P_.Unit(u.crate, u.entry, u.variant)
    u2.argnames = u.argnames
    for p in P_.analyse(e, u2, c.prog.find(u.crate, u.entry)):
        if p.ok is not False:
            continue
        c.count("failures")
        ex = fld(p.ret, "0") if p.ret.k == "adt" and p.ret.a[1] == "Err" else p.ret
        if ex.k != "adt" or any(x.k == "call" and x.a[0] == "failed" or x.k == "failed" for x in subterms(ex)):
            continue
        els = {x for k in list(p.st.d) for x in subterms(k) if x.k == "elem" and any(y.k == "range" and contains(y, S("a__et")) for y in subterms(x))}
        outer = [x for x in els if not any(x is not y and contains(y, x) for y in els)]
        possible = True
        for el in outer:
            for rec in (el, fld(fld(as_(el, "Ok"), "0"), "1")):
                if p.lt(NOWS, to_secs(end_of(rec))) or p.isv(fld(rec, "end_time"), "None"):
                    possible = False
            for m in filtered(el):
                alts = []
                for facts, items in m[2]:
                    for it in items:
                        x = it[1]
                        if x.k == "adt" and x.a[1] == "Err":
                            continue
                        x = fld(x, "0") if x.k == "adt" and x.a[1] == "Ok" else x
                        s = p.st.copy()
                        f2 = [tuple(rename(y, x, el) for y in f) for f in facts]
                        if models.add_facts(e, s, f2):
                            alts.append(s)
                if not alts:
                    possible = False
        c.need(not possible, p, "sweep-stuck", "the block sweep picks an auction that it then refuses, failing for every auction: " + show(ex)[:80])


def rename(f, x, y):
    if isinstance(f, T):
        return tmap(lambda z: y if z is x else None, f)
    if isinstance(f, tuple):
        return tuple(rename(z, x, y) for z in f)
    return f


def filtered(r):
    """summarised transformations (filter, map, ...) the record went through"""
    return {x for y in subterms(r) if y.k == "list" for x in y.a[0] if x[0] == "m"}


def gathered(p, rg):
    """summaries of loops that gathered elements of the range into a list walked later"""
    out = []
    for k, v in p.st.b.items():
        if k.k == "exhausted" and v:
            for y in subterms(k):
                for x in y.a[0] if y.k == "list" else ():
                    if x[0] == "m" and any(contains(z[1], rg) for _, items in x[2] for z in items if z[0] == "i"):
                        out.append(x)
    return out


def counted_out(p, rg, m):
    """the loop gathers while fewer than the configured number are listed, and stops early for no other reason"""
    from query import cut, ended
    n = C("max_auctions_to_settle_per_block")
    for facts, items in m[2]:
        if not any(x is not None and p.same(x, n) for x in (cut(f, m[1]) for f in facts)):
            return False
    return ended(p, rg, m[1], p.norm(n))


def dropped_not_due(c, q, m):
    """an auction a filter leaves out has not ended yet"""
    for facts, items in m[2]:
        if items:
            continue
        els = {x for f in facts for y in (f[1] if isinstance(f[1], tuple) else (f[1],)) for x in subterms(y) if x.k == "elem"}
        ok_ = False
        for el in els:
            end = fld(as_(fld(fld(fld(as_(el, "Ok"), "0"), "1"), "end_time"), "Some"), "0")
            p = factpath(q, facts)
            if p is None or p.lt(NOW, end) or p.isv(fld(fld(fld(as_(el, "Ok"), "0"), "1"), "end_time"), "None"):
                ok_ = True
        c.need(ok_, q, "left-out", "the sweep leaves out auctions that have ended")


def factpath(q, facts):
    """a path knowing just these facts (None: contradictory)"""
    import models
    import paths as P_
    from absint import St
    s = St()
    if not models.add_facts(q.unit.engine, s, facts):
        return None
    return P_.Path(q.unit, s, q.ok, [], [], q.ret)


def contains(t, x):
    return any(y is x for y in subterms(t))


def unprefixed(src):
    return src.k == "prefix" and (src.a[2] is UNIT or src.a[2].k == "tup" and not src.a[2].a) or src.k != "prefix"


def variant_name(t):
    return t.a[1] if t.k == "adt" else None


def due_bound(hi):
    """everything with end second <= the block's second, nothing later"""
    if variant_name(hi) != "Some":
        return False
    b = fld(hi, "0")
    if b.k != "bound":
        return False
    kind, key = b.a[0], b.a[1]
    sec = fld(key, "0")
    rest = fld(key, "1")
    if kind == "exclusive" or kind is S("exclusive"):
        return sec is binop("add", NOWS, I(1)) and all(y.k != "str" or y.a[0] == "" for y in subterms(rest))
    return False


# ------------------------------------------------------------------ R10 chain halts
def not_within(p, et):
    """no recorded halt window contains the instant (in seconds)"""
    def outside(q):
        el = mk("elem", WINDOWS)
        return q.le(et, fld(el, "start_time")) or q.le(fld(el, "end_time"), et)
    for g in p.every(WINDOWS):
        if g and all(outside(q) for q in g):
            return True
    q = p.parent
    return p.rel(call("len", WINDOWS), I(0)) == frozenset("=")


def within(p, et):
    el = mk("elem", WINDOWS)
    if p.lt(fld(el, "start_time"), et) and p.lt(et, fld(el, "end_time")):
        return True
    for k, v in p.st.b.items():
        if k.k == "any" and v is True and p.norm(k.a[0]) is p.norm(WINDOWS):
            pr = k.a[1]
            alts = pr.a[0] if pr.k == "alts" else (((), pr),)
            import models, paths as P_
            ok_ = True
            n = 0
            for facts, r in alts:
                if r is FALSE:
                    continue
                s = p.st.copy()
                if not models.add_facts(p.unit.engine, s, facts) or not models.add_facts(p.unit.engine, s, P_.boolfacts(r, True)):
                    continue
                q = P_.Path(p.unit, s, p.ok, [], [], p.ret)
                n += 1
                ok_ = ok_ and q.lt(fld(el, "start_time"), et) and q.lt(et, fld(el, "end_time"))
            if ok_ and n:
                return True
    return False


@prop("R10", [RA], None, ("SettleAuction", "EndBlock", "BeginBlock"),
      floors={"settled-outside-halts": 2, "postponed": 2, "halts-recorded": 1, "no-halt": 1, "windows-dropped": 1})
def r10(c, u, paths):
    if u.variant in ("SettleAuction", "EndBlock"):
        for p, op, key, r, new in settled(u, paths):
            if r in (None, "unknown") or p.isv(fld(r, "end_time"), "Some") is not True:
                continue
            et = to_secs(end_of(r))
            if op == "remove":
                c.count("settled-outside-halts")
                c.need(not_within(p, et), p, "settled-in-halt", "an auction that ended during a chain halt is settled instead of postponed")
            else:
                c.count("postponed")
                c.need(within(p, et), p, "postponed-outside-halt", "an auction is postponed although it did not end during a chain halt")
                c.need(some_is(p, fld(new, "end_time"), binop("add", NOW, secs_(C("halt_postpone_duration")))), p, "postponed-end",
                       lambda: "a postponed auction ends at " + show(fld(new, "end_time")))
                for f in AF:
                    if f != "end_time":
                        c.need(p.same(fld(new, f), fld(r, f)), p, "postponed-field/" + f, "postponing changes the auction's " + f)
                c.need(not messages(p), p, "postponed-pays", "postponing sends messages")
    if u.variant == "EndBlock":
        for p in paths:
            if not p.ok:
                continue
            sv = p.saves("hm")
            for x in sv:
                c.count("windows-dropped")
                n = x[3]
                c.need(p.same(fld(n, "prev_block_time"), fld(HM, "prev_block_time")), p, "drop-keeps-time", "dropping a halt window changes the last block time")
                w = fld(n, "halt_windows")
                first = first_of(p, w)
                if c.need(first is not None, p, "drop-first", lambda: "the halt windows become " + show(w)):
                    c.need(p.le(fld(first, "end_time"), NOWS), p, "drop-open", "a halt window is forgotten although auctions may still end inside it")
                    c.need(no_due_before(p, fld(first, "end_time")), p, "drop-due", "a halt window is forgotten while auctions that ended inside it are still due")
    if u.variant == "BeginBlock":
        for p in paths:
            if not p.ok:
                continue
            c.need(not messages(p) and not p.subs, p, "messages")
            sv = p.saves("hm")
            if not c.need(len(p.eff) == 1 and len(sv) == 1, p, "stored", "the start of a block does not record the block time"):
                continue
            n = sv[0][3]
            prev = fld(HM, "prev_block_time")
            c.need(p.same(fld(n, "prev_block_time"), NOWS), p, "time", lambda: "the last block time becomes " + show(fld(n, "prev_block_time")))
            w = p.norm(fld(n, "halt_windows"))
            gap = binop("sub", NOWS, prev)
            halted = p.lt(I(0), prev) and p.le(C("halt_duration_threshold"), gap)
            quiet = p.rel(prev, I(0)) == frozenset("=") or p.lt(gap, C("halt_duration_threshold"))
            if halted:
                c.count("halts-recorded")
                its = w.a[0] if w.k == "list" else ()
                okw = len(its) == 2 and its[0] == ("s", p.norm(WINDOWS)) and its[1][0] == "i"
                if c.need(okw, p, "window", lambda: "after a halt the windows become " + show(w)):
                    x = its[1][1]
                    c.need(p.same(fld(x, "start_time"), prev) and p.same(fld(x, "end_time"), binop("add", NOWS, C("halt_buffer_duration"))), p, "window", lambda: "the halt window is " + show(x))
            elif c.need(quiet, p, "detect", "a halt is neither recognised nor excluded"):
                c.count("no-halt")
                c.need(p.same(w, WINDOWS), p, "no-window", "a halt window is recorded without a halt")


def first_of(p, w):
    """w is the window list without its first element: that element"""
    w = p.norm(w)
    if w.k == "list" and len(w.a[0]) == 1 and w.a[0][0][0] == "s":
        w = w.a[0][0][1]
    if w.k in ("without", "removed", "rest") or any(x is p.norm(WINDOWS) for x in subterms(w)):
        t = show(w)
        if w.k == "list" or p.same(w, WINDOWS):
            return None
        idx = [x for x in w.a if isinstance(x, T) and x.k == "int"] if w.k != "call" else [x for x in w.a[1] if x.k == "int"]
        if idx and idx[0].a[0] == 0:
            return fld(as_(mk("call", "first", (WINDOWS,)), "Some"), "0")
    return None


def no_due_before(p, end):
    """no auction handled in this sweep ended at or before the end of the window"""
    for k in list(p.st.d):
        if k.k == "call" and k.a[0] == "first" and not any(x is WINDOWS for x in subterms(k)):
            if p.isv(k, "None"):
                return True
            e = end_of(fld(as_(k, "Some"), "0"))
            if p.isv(k, "Some") and p.lt(end, to_secs(e)):
                return True
    return False


# ------------------------------------------------------------------ R11 configuration
CF = ("fair_burn", "trading_fee_percent", "min_bid_increment_percent", "min_duration", "max_duration", "extend_duration",
      "create_auction_fee", "max_auctions_to_settle_per_block", "halt_duration_threshold", "halt_buffer_duration", "halt_postpone_duration")


@prop("R11", [RA], ("sudo", "instantiate", "execute", "migrate"), floors={"config-writes": 2, "operations": 2})
def r11(c, u, paths):
    for p0 in paths:
        if not p0.ok:
            continue
        for p in p0.all():
            c.count("operations")
            ex = u.entry.endswith("::execute")
            for x in p.eff:
                ns = x[1].a[0] if len(x) > 1 and isinstance(x[1], T) and x[1].k == "str" else "?"
                who = {"a": ex or u.variant == "EndBlock", "cfg": u.entry.endswith("instantiate") or u.variant == "UpdateParams",
                       "hm": u.entry.endswith("instantiate") or u.variant in ("BeginBlock", "EndBlock"),
                       "mrp": u.entry.endswith("instantiate") or u.variant in ("SetMinReservePrices", "UnsetMinReservePrices"),
                       "contract_info": u.entry.endswith(("instantiate", "migrate"))}.get(ns, False)
                c.need(who, p, "isolation/" + ns, lambda: "%s changes %s" % (u.name, effshow(x)))
                if ex and ns == "a":
                    c.need(p.same(x[2], A(u).key), p, "isolation/record", lambda: "the operation changes the auction of " + show(x[2]))
            for x in p.saves("cfg"):
                c.count("config-writes")
                n = x[3]
                inc = fld(n, "min_bid_increment_percent")
                c.holds(p, I(0), "<", inc, "increment-positive", "a zero bid increment is accepted")
                c.holds(p, inc, "<", call_one(), "increment-below-100", "a bid increment of 100% or more is accepted")
                c.holds(p, I(0), "<", fld(n, "min_duration"), "min-duration", "a zero minimum duration is accepted")
                c.holds(p, I(0), "<", fld(n, "extend_duration"), "extend-duration", "a zero extension is accepted")
                for f in CF:
                    got = fld(n, f)
                    if u.entry.endswith("instantiate"):
                        m = fld(arg("msg"), f)
                        want = valid(m) if f == "fair_burn" else m
                    elif f == "max_duration":
                        want = C(f)
                    else:
                        m = msgf(u, f)
                        if p.isv(m, "Some"):
                            y = fld(as_(m, "Some"), "0")
                            want = valid(y) if f == "fair_burn" else y
                        elif c.need(p.isv(m, "None"), p, "field/" + f, "the update of %s is not looked at" % f):
                            want = C(f)
                        else:
                            continue
                    c.need(p.same(got, want), p, "field/" + f, lambda: "%s becomes %s" % (f, show(got)))
            if u.entry.endswith("instantiate") and p.parent is None:
                c.need(len(p.saves("cfg")) == 1, p, "config-stored")
                h = p.saves("hm")
                if c.need(len(h) == 1, p, "halts-initialised"):
                    c.need(fld(h[0][3], "prev_block_time") is I(0) and p.norm(fld(h[0][3], "halt_windows")) is EMPTY, p, "halts-initialised", "the halt record does not start empty")
            if u.variant == "UpdateParams" and p.parent is None:
                c.need(len(p.saves("cfg")) == 1, p, "config-stored")


# ------------------------------------------------------------------ R12 accepted currencies
@prop("R12", [RA], ("sudo", "instantiate"), ("SetMinReservePrices", "UnsetMinReservePrices"), floors={"set": 2, "unset": 1})
def r12(c, u, paths):
    for p0 in paths:
        if not p0.ok:
            continue
        if u.entry.endswith("instantiate"):
            src = fld(arg("msg"), "min_reserve_prices")
        elif u.variant == "SetMinReservePrices":
            src = msgf(u, "min_reserve_prices")
        elif u.variant == "UnsetMinReservePrices":
            src = msgf(u, "denoms")
        else:
            continue
        el = mk("elem", src)
        its = [q for lid, s in p0.subs for q in s if any(x[1] is S("mrp") for x in q.eff)]
        c.need(its, p0, "all-entries", "the listed currencies are not all processed")
        for lid, s in p0.subs:
            if any(x[1] is S("mrp") for q in s for x in q.eff):
                for q in s:
                    xs = [x for x in q.eff if x[1] is S("mrp")]
                    if not c.need(len(xs) == 1, q, "each-entry", "a listed currency is skipped"):
                        continue
                    x = xs[0]
                    if u.variant == "UnsetMinReservePrices":
                        c.count("unset")
                        c.need(x[0] == "remove" and q.same(x[2], el), q, "unset", lambda: effshow(x))
                        c.need(has_key(q, el) is True, q, "unset-known", "removing a currency that is not accepted succeeds")
                    else:
                        c.count("set")
                        c.need(x[0] == "save" and q.same(x[2], fld(el, "denom")) and q.same(x[3], fld(el, "amount")), q, "set", lambda: effshow(x))
                        c.need(has_key(q, fld(el, "denom")) is False, q, "set-duplicate", "an accepted currency's minimum is overwritten")
        for x in p0.eff:
            c.need(u.entry.endswith("instantiate") or x[1] is S("mrp"), p0, "effect")
        c.need(not messages(p0), p0, "messages")


def has_key(q, key):
    m = mayload("mrp", key)
    for v, b in (("Some", True), ("None", False)):
        if q.isv(m, v) is True:
            return b
    for k, v in q.st.b.items():
        if k.k in ("has", "call") and any(q.norm(x) is q.norm(key) for x in subterms(k)) and any(x is S("mrp") for x in subterms(k)):
            return v
    return None
