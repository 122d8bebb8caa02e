"""Rules of the second marketplace (stargaze-marketplace-v2).

Every successful path is compared with what the order book's contract says it must be: an order is
stored, changed, withdrawn or sold, an administrator changes a setting - with exactly the effects
and messages that belong to it."""
from registry import prop, program
from common import *
from v1 import opt_same, ident, has_lost
import storage
from storage import idparts, range_of
from terms import *

X = ("execute",)
CFG = stored("C", UNIT)
ADMIN_OPS = ("UpdateConfig", "UpdateCollectionDenom", "SetListingFee", "RemoveListingFee")
ASK_NEW, ASK_UPD = ("SetAsk", "SellNft"), "UpdateAsk"
TOKEN_BIDS, COLL_BIDS = ("SetBid", "BuySpecificNft"), ("SetCollectionBid", "BuyCollectionNft")
BID_NEW = TOKEN_BIDS + COLL_BIDS
UPDATES = {"UpdateAsk": "a", "UpdateBid": "o", "UpdateCollectionBid": "c"}
REMOVES = {"RemoveAsk": "a", "RemoveBid": "o", "RemoveCollectionBid": "c"}
ACCEPTS = {"AcceptAsk": "a", "AcceptBid": "o", "AcceptCollectionBid": "c"}
INSTANT = ("SellNft", "BuySpecificNft", "BuyCollectionNft")
SALES = ASK_NEW + BID_NEW + tuple(UPDATES) + tuple(ACCEPTS)
SPACES = ("a", "o", "c")
FIELDS = {"a": ("id", "creator", "collection", "token_id", "details"), "o": ("id", "creator", "collection", "token_id", "details"),
          "c": ("id", "creator", "collection", "details")}


def C(f):
    return fld(CFG, f)


def price(r, f=None):
    x = fld(fld(r, "details"), "price")
    return x if f is None else fld(x, f)


def coinbag(c):
    return bagcoin(fld(c, "denom"), fld(c, "amount"))


def value(p, ns, r):
    return coinbag(price(r))


def msgdetails(u):
    return msgf(u, "details")


# ------------------------------------------------------------------ what a path does to the books
def nonce_saved(p):
    for x in p.eff:
        if x[0] == "save" and x[1] is S("N"):
            return x[3]
    return None


def fresh(p, key):
    """the id contains the order counter this call has just advanced: no order has it yet"""
    n = nonce_saved(p)
    ps = idparts(key)
    if n is None or not ps:
        return False
    old = stored("N", UNIT)
    if not (p.same(n, binop("add", old, I(1))) or n.k == "call" and "wrapping_add" in n.a[0] and n.a[1] == (old, I(1))):
        return False
    return any(any(y is n for y in subterms(x)) for x in ps[-1:])


def before(p, ns, key):
    """the record under a key before the call: a term, None, or "unknown" """
    key = p.facts().n0(key)
    m = mk("mayload", S(ns), key, 0)
    if p.isv(m, "Some"):
        return mk("stored", S(ns), key, 0)
    if p.isv(m, "None"):
        return None
    if key.k == "fld" and key.a[1] == "id":
        r = range_of(key.a[0])
        if r is not None and r.a[1].k == "prefix" and ns_of_index(p, r) == ns:
            return key.a[0]
        # a record loaded by its own id
    if ns in ("o", "c") and fresh(p, key):
        return None
    if ns == "a":
        ps = idparts(key)
        # a listed token is in custody, so its owner is the contract and not the sender
        if ps and len(ps) == 2 and owns(p, ps[0], ps[1]):
            return None
    return "unknown"


_own = {}


def owns(p, coll, tok):
    return sender_owns(p, coll, tok)


def ns_of_index(p, r):
    lay = storage.layout(p.unit.engine.p, V2)
    d = r.a[1]
    ix = lay.index(d.a[1].a[0]) if d.k == "prefix" and d.a[1].k == "str" else None
    return ix[0].ns if ix else None


def touched(p):
    """[(op, ns, key, before, after)] in order, one entry per effect on an order"""
    r = getattr(p, "_t2", None)
    if r is None:
        r = []
        seen = {}
        for x in p.eff:
            if x[0] in ("save", "remove") and x[1].k == "str" and x[1].a[0] in SPACES:
                ns, k = x[1].a[0], p.norm(x[2])
                cur = seen[ns, k] if (ns, k) in seen else before(p, ns, x[2])
                new = x[3] if x[0] == "save" else None
                seen[ns, k] = new
                r.append((x[0], ns, x[2], cur, new))
        p._t2 = r
    return r


def kind(p):
    """what the path amounts to: rest, update, withdraw, sale, other"""
    k = getattr(p, "_k2", None)
    if k is None:
        v = p.unit.variant
        t = touched(p)
        if v in ADMIN_OPS:
            k = "admin"
        elif v in REMOVES:
            k = "withdraw"
        elif any(x[0] == "save" for x in t):
            k = "update" if v in UPDATES else "rest"
        else:
            k = "sale"
        p._k2 = k
    return k


class Order:
    """an order as the properties see it; rec: the stored record it comes from, or None"""

    def __init__(self, ns, rec, creator, coll, tok, price, recipient, finder):
        self.ns, self.rec, self.creator, self.coll, self.tok, self.price, self.recipient, self.finder = \
            ns, rec, creator, coll, tok, price, recipient, finder


def from_record(ns, r, details=None, conv=ident):
    d = fld(r, "details") if details is None else details
    return Order(ns, r, fld(r, "creator"), fld(r, "collection"), fld(r, "token_id") if ns != "c" else None,
                 fld(d, "price"), (fld(d, "recipient"), conv), (fld(d, "finder"), conv))


def from_msg(u, ns, coll, tok):
    d = msgdetails(u)
    return Order(ns, None, SENDER, coll, tok, fld(d, "price"), (fld(d, "recipient"), valid), (fld(d, "finder"), valid))


def option(p, oc):
    """(known?, term or None) of an optional address"""
    o, conv = oc
    if p.isv(o, "None"):
        return True, None
    if p.isv(o, "Some"):
        return True, conv(fld(as_(p.facts().n0(o), "Some"), "0"))
    return False, None


def beneficiary(p, order):
    k, t = option(p, order.recipient)
    if not k:
        return None
    return order.creator if t is None else t


def ask_key(p, coll, tok):
    """the key of the ask of a token, as the path computes it"""
    want = [coll, tok]
    for m in list(p.st.d):
        if m.k == "mayload" and m.a[0] is S("a"):
            ps = idparts(m.a[1])
            if ps and len(ps) == 2 and all(p.same(x, y) for x, y in zip(ps, want)):
                return m.a[1]
    return None


class Sale:
    """the two orders of a sale: the resting one (maker) and the incoming one (taker)"""

    def __init__(self, ask, bid, maker_is_ask):
        self.ask, self.bid, self.maker_is_ask = ask, bid, maker_is_ask
        self.maker, self.taker = (ask, bid) if maker_is_ask else (bid, ask)
        self.price = self.maker.price
        self.coll = ask.coll
        self.tok = ask.tok


def sale(p):
    """the sale a path must be settling, or None if the orders cannot be told"""
    s = getattr(p, "_s2", False)
    if s is False:
        s = p._s2 = find_sale(p)
    return s


def bid_hit(p):
    """the resting bid a sale consumes"""
    h = getattr(p, "_bh", None)
    if h is not None:
        return h
    for op, ns, key, cur, new in touched(p):
        if op == "remove" and ns in ("o", "c") and cur is not None and cur != "unknown":
            return ns, cur
    return None


def ask_hit(p):
    h = getattr(p, "_bh", None)
    if h is not None:
        return h[1]
    for op, ns, key, cur, new in touched(p):
        if op == "remove" and ns == "a" and cur is not None and cur != "unknown":
            return cur
    return None


def find_sale(p):
    u = p.unit
    v = u.variant
    mcoll, mtok = valid(msgf(u, "collection")), msgf(u, "token_id")
    mid = msgf(u, "id")
    if v in ASK_NEW or v == ASK_UPD:
        hit = bid_hit(p)
        if hit is None:
            return None
        bid = from_record(*hit)
        if v == ASK_UPD:
            ask = from_record("a", stored("a", mid), msgdetails(u), valid)
        else:
            ask = from_msg(u, "a", mcoll, mtok)
        if bid.ns == "c":
            bid.tok = ask.tok
        return Sale(ask, bid, False)
    if v == "AcceptAsk":
        ask = from_record("a", stored("a", mid))
        return Sale(ask, from_msg(u, "o", ask.coll, ask.tok), True)
    if v in TOKEN_BIDS or v in COLL_BIDS or v in ("UpdateBid", "UpdateCollectionBid"):
        rec = ask_hit(p)
        if rec is None:
            return None
        ask = from_record("a", rec)
        ns = "c" if v in COLL_BIDS or v == "UpdateCollectionBid" else "o"
        if v in UPDATES:
            bid = from_record(ns, stored(ns, mid), msgdetails(u), valid)
        else:
            bid = from_msg(u, ns, mcoll, mtok)
        if ns == "c":
            bid.tok = ask.tok
        return Sale(ask, bid, True)
    if v in ("AcceptBid", "AcceptCollectionBid"):
        ns = ACCEPTS[v]
        bid = from_record(ns, stored(ns, mid))
        if ns == "c":
            bid.tok = mtok
        k = ask_key(p, bid.coll, bid.tok)
        if k is not None and p.isv(mk("mayload", S("a"), k, 0), "Some"):
            ask = from_record("a", mk("stored", S("a"), k, 0))
        else:
            ask = from_msg(u, "a", bid.coll, bid.tok)
        return Sale(ask, bid, False)
    return None


def successful(paths):
    for p in paths:
        if p.ok is False:
            continue
        yield p


# ------------------------------------------------------------------ money
def leftovers(p):
    """bags the path knows to be empty: NativeBalances of length zero"""
    out = []
    for (a, b), s in p.st.o.items():
        if s == frozenset("="):
            for x, y in ((a, b), (b, a)):
                if x is I(0) and y.k == "call" and y.a[0] == "len" and y.a[1][0].k in ("nb", "nbvec"):
                    out.append(bag(y.a[1][0]))
    return out


def funds(p, b):
    return money.subst(p, b, FUNDS)


def vanishes(p, b):
    if zero(p, b):
        return True
    for l in leftovers(p):
        l = funds(p, l)
        if zero(p, badd(b, l, -1)) or zero(p, badd(b, l)):
            return True
    return False


def bags(p):
    """(attached, released, paid out, stored)"""
    rel, sto, out = {}, {}, {}
    for op, ns, key, cur, new in touched(p):
        if ns == "a":
            continue
        if cur is not None and cur != "unknown":
            rel = badd(rel, value(p, ns, cur))
        if op == "save":
            sto = badd(sto, value(p, ns, new))
    # a record stored and then replaced in the same call counts once: before() of the second is the first
    for m in messages(p):
        out = badd(out, m.bag)
    return inflow(p), rel, out, sto


@prop("V01", [V2], floors={"sales": 10, "stores": 5, "refunds": 2},
      explain="ledger rule on every path of every entry point: attached funds + prices of deleted or replaced bids = outgoing payments "
              "+ prices of stored bids, per denomination (terms of the compiled program compared as linear forms)")
def v01(c, u, paths):
    for p in successful(paths):
        for q in p.all():
            if u.entry.endswith("query"):
                c.need(not q.eff and not q.items, q, "query-writes")
                continue
            if not u.variant:
                c.need(not messages(q) and not touched(q), q, "setup-moves-money", "instantiation or migration touches orders or sends messages")
                continue
            if q.parent is not None:
                c.need(not messages(q) and not touched(q), q, "loop-moves-money", "payments or order changes in a loop over stored data")
                continue
            known_messages(c, q)
            for op, ns, key, cur, new in touched(q):
                c.need(cur != "unknown", q, "unknown-record/" + ns, "%s of an order that may already exist and was not looked at" % op)
            inn, rel, out, sto = bags(q)
            diff = badd(badd(funds(q, inn), funds(q, rel)), badd(funds(q, out), funds(q, sto)), -1)
            if kind(q) == "sale":
                c.count("sales")
            elif sto:
                c.count("stores")
            elif rel:
                c.count("refunds")
            c.need(vanishes(q, diff), q, "balance",
                   lambda: "received %s and released %s, but paid out %s and stored %s" % (showbag(inn), showbag(rel), showbag(out), showbag(sto)))
            c.need(not has_lost(q), q, "lost-messages", "a response with messages is dropped")
            for m in messages(q):
                c.need(m.reply == "Never", q, "failure-ignored", "a failing message would not revert the call: " + m.text())


# ------------------------------------------------------------------ V02 custody
@prop("V02", [V2], X, floors={"escrowed": 2, "returned": 1, "delivered": 10, "kept": 2})
def v02(c, u, paths):
    for p in successful(paths):
        known_messages(c, p)
        n = nft_msgs(p)
        k = kind(p)
        asks = [x for x in touched(p) if x[1] == "a"]
        for m in n:
            c.need(m.variant == "TransferNft" and m.reply == "Never" and zero(p, m.bag), p, "transfer-kind",
                   "a token moves by other means than a plain transfer, or a failure would be ignored")
        if k == "sale":
            s = sale(p)
            c.count("delivered")
            if not c.need(s is not None and len(n) == 1, p, "delivery", "a sale does not hand over exactly one token"):
                continue
            c.need(p.same(n[0].to, s.coll) and p.same(n[0].token, s.tok), p, "token", lambda: "the sale hands over another token: " + n[0].text())
            to = beneficiary(p, s.bid)
            c.need(to is not None and p.same(n[0].recipient, to), p, "buyer", lambda: "the token goes to %s" % show(n[0].recipient))
            c.need(not any(x[0] == "save" for x in asks), p, "listing-kept", "a sale stores a listing")
            if s.ask.rec is not None:
                c.need(any(x[0] == "remove" and x[3] is not None and same_record(p, x[3], s.ask.rec) for x in asks), p, "listing-kept",
                       "the listing of a sold token stays on the book")
        elif k == "withdraw" and u.variant == "RemoveAsk":
            c.count("returned")
            rec = from_record("a", stored("a", msgf(u, "id")))
            if not c.need(len(n) == 1 and len(asks) == 1 and asks[0][0] == "remove", p, "return", "withdrawing a listing does not return exactly one token"):
                continue
            to = beneficiary(p, rec)
            c.need(p.same(n[0].to, rec.coll) and p.same(n[0].token, rec.tok) and to is not None and p.same(n[0].recipient, to), p, "return",
                   lambda: "the withdrawn token is not returned: " + n[0].text())
        elif k == "rest" and u.variant in ASK_NEW:
            c.count("escrowed")
            if not c.need(len(n) == 1 and len(asks) == 1, p, "escrow", "a listing is stored without taking the token into custody"):
                continue
            r = asks[0][4]
            c.need(p.same(n[0].to, fld(r, "collection")) and p.same(n[0].token, fld(r, "token_id")) and p.same(n[0].recipient, SELF), p, "escrow",
                   lambda: "the listed token is not taken into custody: " + n[0].text())
            c.need(asks[0][3] is None, p, "relisted", "a listing replaces another one")
        else:
            c.need(not n, p, "token-moved", "a token moves without a sale, a listing or a withdrawal")
            for op, ns, key, cur, new in asks:
                c.count("kept")
                c.need(op == "save" and cur is not None and cur != "unknown" and p.same(fld(new, "collection"), fld(cur, "collection"))
                       and p.same(fld(new, "token_id"), fld(cur, "token_id")), p, "listing-changed", "a listing of a token in custody disappears or changes its token")


def same_record(p, a, b):
    return a is b or p.facts().n0(a) is p.facts().n0(b) or p.same(a, b)


# ------------------------------------------------------------------ V03 authorization
def admin_query(p):
    """the sender is the administrator the chain reports for this contract"""
    for t in eq_terms(p, SENDER):
        x = t
        if x.k == "fld" and x.a[1] == "0" and x.a[0].k == "as" and x.a[0].a[1] == "Some":
            x = x.a[0].a[0]
        if x.k == "fld" and x.a[1] == "admin" and any(y.k == "call" and "contract_info" in y.a[0] or y.k == "adt" and y.a[1] == "ContractInfo" for y in subterms(x)) \
                and any(p.norm(y) is p.norm(SELF) for y in subterms(x)):
            return True
    return False


@prop("V03", [V2], X, floors={"creator-actions": 5, "owner-sales": 10, "admin-actions": 2})
def v03(c, u, paths):
    for p in successful(paths):
        v = u.variant
        settings = [x for x in p.eff if x[0] in ("save", "remove") and x[1].k == "str" and x[1].a[0] not in SPACES + ("N",)]
        if v in ADMIN_OPS or settings:
            c.count("admin-actions")
            c.need(admin_query(p), p, "admin", "a setting is changed by somebody else than the contract's administrator")
        t = touched(p)
        for op, ns, key, cur, new in t:
            if cur is None or cur == "unknown":
                continue
            if kind(p) in ("update", "withdraw"):
                c.count("creator-actions")
                c.need(p.same(fld(cur, "creator"), SENDER), p, "creator/" + ns, "an order is changed or withdrawn by somebody else than its creator")
        if kind(p) == "sale":
            s = sale(p)
            if s is None:
                c.fail(p, "sale", "the orders of a sale cannot be identified")
                continue
            if v in UPDATES:
                mine = s.ask if v == "UpdateAsk" else s.bid
                c.need(p.same(mine.creator, SENDER), p, "creator/" + mine.ns, "an order is repriced into a sale by somebody else than its creator")
            if v in ASK_NEW or v in ("AcceptBid", "AcceptCollectionBid"):
                c.count("owner-sales")
                if s.ask.rec is not None:
                    c.need(p.same(s.ask.creator, SENDER), p, "seller", "a bid is accepted for somebody else's listed token")
                else:
                    c.need(owns(p, s.coll, s.tok), p, "seller", "a token is sold without the chain reporting the sender as its owner")
        if kind(p) == "rest":
            for op, ns, key, cur, new in t:
                c.need(p.same(fld(new, "creator"), SENDER), p, "creator/" + ns, "an order is stored in somebody else's name")
                if ns == "a":
                    c.need(owns(p, fld(new, "collection"), fld(new, "token_id")), p, "seller", "a token is listed without the chain reporting the sender as its owner")


# ------------------------------------------------------------------ V04 resting orders
def right_denom(p, coll, denom):
    """the denomination is the collection's, or the default one if the collection has none"""
    k = coll
    m = None
    for x in list(p.st.d):
        if x.k == "mayload" and x.a[0] is S("D") and p.same(x.a[1], coll):
            m = x
    if m is None:
        return False
    if p.isv(m, "Some"):
        return p.same(mk("stored", m.a[0], m.a[1], m.a[2]), denom)
    return p.isv(m, "None") is True and p.same(C("default_denom"), denom)


@prop("V04", [V2], X, floors={"stored-orders": 7, "new-orders": 2, "priced": 10})
def v04(c, u, paths):
    for p in successful(paths):
        v = u.variant
        d = msgdetails(u)
        k = kind(p)
        # every newly set or repriced order, stored or sold at once
        if v in ASK_NEW + BID_NEW or v in UPDATES:
            c.count("priced")
            pr = fld(d, "price")
            c.need(p.lt(I(0), fld(pr, "amount")), p, "price-zero", "an order with a price of zero is accepted")
            coll = fld(stored(UPDATES[v], msgf(u, "id")), "collection") if v in UPDATES else valid(msgf(u, "collection"))
            c.need(right_denom(p, coll, fld(pr, "denom")), p, "denom", "an order in another currency than the collection's is accepted")
            if v not in UPDATES:
                c.need(tradable(p, coll), p, "tradable", "an order is accepted for a collection that does not trade yet")
        for op, ns, key, cur, new in touched(p):
            if op != "save":
                continue
            c.count("stored-orders")
            c.need(p.same(price(new), fld(d, "price")), p, "price/" + ns, "the stored price is not the one given")
            for f in ("recipient", "finder"):
                c.need(opt_same(p, fld(fld(new, "details"), f), fld(d, f), valid), p, f + "/" + ns, lambda: "the stored %s is not the (validated) one given" % f)
            if cur is None:
                c.count("new-orders")
                c.need(p.same(fld(new, "collection"), valid(msgf(u, "collection"))), p, "collection/" + ns, "the stored collection is not the one given")
                if ns != "c":
                    c.need(p.same(fld(new, "token_id"), msgf(u, "token_id")), p, "token/" + ns, "the stored token is not the one given")


# ------------------------------------------------------------------ V05 matching
def bound_of(b):
    """(kind, key term) of a range bound, or None"""
    if b.k == "adt" and b.a[1] == "Some":
        x = fld(b, "0")
        if x.k == "bound":
            return x.a[0], x.a[1]
        return "?", x
    return None


def order_of(r):
    return r.a[4].a[1] if r.a[4].k == "adt" else None


def prefix_fields(p, r):
    """what the prefix of an index range fixes, as {field path: term}, with the index's key"""
    lay = storage.layout(p.unit.engine.p, V2)
    ix = lay.index(r.a[1].a[1].a[0])
    return ix[0].ns, storage.bindings(lay, r), ix[1]


REC = storage.REC


def best_bids(p, ns, coll, tok, denom, least):
    """the range lists exactly the bids a listing can be sold to, best first"""
    out = []
    for x in list(p.st.d):
        if x.k != "first":
            continue
        r = x.a[0]
        if r.k != "range" or r.a[1].k != "prefix" or ns_of_index(p, r) != ns or r.a[0] not in ("range",):
            continue
        n, b, key = prefix_fields(p, r)
        want = {fld(REC, "collection"): coll, price(REC, "denom"): denom}
        if ns == "o":
            want[fld(REC, "token_id")] = tok
        if set(b) != set(want) or not all(p.same(b[f], w) for f, w in want.items()):
            continue
        # the rest of the key is the price, so that the iteration order is by price
        if key.k != "tup" or p.norm(key.a[-1]) is not price(REC, "amount") or len(r.a[1].a[2].a) != len(key.a) - 1:
            continue
        lo, hi = bound_of(r.a[2]), bound_of(r.a[3])
        good = hi is None and order_of(r) == "Descending" and at_least(p, lo, least)
        out.append((x, good))
    return out


def at_least(p, lo, least):
    """a lower bound that admits exactly the entries with a price of at least `least`"""
    if lo is None:
        return False
    k, t = lo
    if t.k == "tup" and len(t.a) == 2:
        return p.same(t.a[0], least) and t.a[1] is S("") and k == "inclusive"
    return False


def at_most(p, hi, most):
    """an upper bound that admits exactly the entries with a price of at most `most`"""
    if hi is None:
        return False
    k, t = hi
    if t.k == "tup" and len(t.a) == 2:
        return k in ("exclusive", "inclusive") and p.same(t.a[0], binop("add", most, I(1))) and t.a[1] is S("") and k == "exclusive"
    return False


def best_asks(p, coll, denom, most):
    out = []
    for x in list(p.st.d):
        if x.k != "first":
            continue
        r = x.a[0]
        if r.k != "range" or r.a[1].k != "prefix" or ns_of_index(p, r) != "a" or r.a[0] != "range":
            continue
        n, b, key = prefix_fields(p, r)
        want = {fld(REC, "collection"): coll, price(REC, "denom"): denom}
        if set(b) != set(want) or not all(p.same(b[f], w) for f, w in want.items()):
            continue
        if key.k != "tup" or p.norm(key.a[-1]) is not price(REC, "amount") or len(r.a[1].a[2].a) != len(key.a) - 1:
            continue
        good = bound_of(r.a[2]) is None and order_of(r) == "Ascending" and at_most(p, bound_of(r.a[3]), most)
        out.append((x, good))
    return out


def toprec(x):
    """the record term of the first element of a range"""
    return fld(fld(as_(mk("topel", x.a[0]), "Ok"), "0"), "1")


@prop("V05", [V2], X, floors={"listings-matched": 10, "bids-matched": 10, "rested": 7})
def v05(c, u, paths):
    for p in successful(paths):
        v = u.variant
        if v not in ASK_NEW + BID_NEW and v not in UPDATES:
            continue
        k = kind(p)
        d = msgdetails(u)
        amount, denom = fld(fld(d, "price"), "amount"), fld(fld(d, "price"), "denom")
        upd_ = stored(UPDATES[v], msgf(u, "id")) if v in UPDATES else None
        coll = fld(upd_, "collection") if upd_ is not None else valid(msgf(u, "collection"))
        tok = fld(upd_, "token_id") if upd_ is not None else msgf(u, "token_id")
        if k != "sale":
            c.count("rested")
        if v in ASK_NEW or v == "UpdateAsk":
            tb, cb = best_bids(p, "o", coll, tok, denom, amount), best_bids(p, "c", coll, tok, denom, amount)
            if k != "sale":
                # nothing on either book would have bought it
                for nm, l in (("token", tb), ("collection", cb)):
                    c.need(any(g and p.isv(x, "None") for x, g in l), p, "unmatched/" + nm,
                           "a listing is left on the book although the %s bids that satisfy it were not (correctly) searched or one was found" % nm)
                continue
            c.count("listings-matched")
            hit = bid_hit(p)
            if not c.need(hit is not None, p, "counterpart", "a listing is sold without consuming a bid"):
                continue
            ns, rec = hit
            mine, other = (tb, cb) if ns == "o" else (cb, tb)
            mx = [x for x, g in mine if g and p.isv(x, "Some") and same_record(p, rec, toprec(x))]
            if not c.need(bool(mx), p, "best/" + ns, "the bid a listing is sold to is not the highest one that satisfies it"):
                continue
            ob = [x for x, g in other if g and p.isv(x, "None")]
            if ob:
                c.need(True, p, "best-of-both")
                continue
            os_ = [x for x, g in other if g and p.isv(x, "Some")]
            best = False
            for x in os_:
                a, b = price(rec, "amount"), price(toprec(x), "amount")
                # on a tie the bid on the token itself wins
                best |= p.le(b, a) if ns == "o" else p.lt(b, a)
            c.need(best, p, "best-of-both", "a listing is sold to the %s although the other book may hold a higher bid" % ("token bid" if ns == "o" else "collection bid"))
        elif v in TOKEN_BIDS or v == "UpdateBid":
            key = ask_key(p, coll, tok)
            if not c.need(key is not None, p, "searched", "a bid is handled without looking for the token's listing"):
                continue
            m, rec = mk("mayload", S("a"), key, 0), mk("stored", S("a"), key, 0)
            ap = price(rec)
            if k == "sale":
                c.count("bids-matched")
                c.need(p.isv(m, "Some") is True and ask_hit(p) is not None and same_record(p, ask_hit(p), rec), p, "counterpart", "the listing sold is not the token's")
                c.need(p.same(fld(ap, "denom"), denom), p, "denom", "a bid in another currency than the listing's buys it")
                c.need(p.le(fld(ap, "amount"), amount), p, "price", "a bid below the listing's price buys it")
            else:
                ok_ = p.isv(m, "None") is True or "=" not in p.rel(fld(ap, "denom"), denom) or p.lt(amount, fld(ap, "amount"))
                c.need(ok_, p, "unmatched", "a bid that satisfies the token's listing is left on the book")
        else:
            l = best_asks(p, coll, denom, amount)
            if k == "sale":
                c.count("bids-matched")
                rec = ask_hit(p)
                c.need(rec is not None and any(g and p.isv(x, "Some") and same_record(p, rec, toprec(x)) for x, g in l), p, "best/a",
                       "the listing a collection bid buys is not the cheapest one that satisfies it")
            else:
                c.need(any(g and p.isv(x, "None") for x, g in l), p, "unmatched",
                       "a collection bid is left on the book although the listings that satisfy it were not (correctly) searched or one was found")


# ------------------------------------------------------------------ V06 settlement
def mulceils(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = frozenset(x for x in subterms(t) if x.k == "call" and x.a[0] == "mul_ceil")
        memo[t] = r
    return r


def fee_atoms(p):
    r = getattr(p, "_fa", None)
    if r is None:
        s = set()
        for m in messages(p):
            if m.bag:
                s |= mulceils(m.t)
        for k in p.st.b:
            if k.k == "succeeds" and k.a[0] == "sub":
                s |= mulceils(k)
        for a, b in p.st.o:
            if a is I(0) or b is I(0):
                s |= mulceils(a) | mulceils(b)
        r = p._fa = s
    return r


def strip_roundtrip(t):
    """Decimal -> text -> Decimal is the identity"""
    if not contains(t, lambda x: x.k == "call" and x.a[0].split("::")[-1] == "from_str"):
        return t

    def f(x):
        if x.k == "fld" and x.a[1] == "0" and x.a[0].k == "as" and x.a[0].a[1] == "Ok":
            y = x.a[0].a[0]
            if y.k == "call" and y.a[0].split("::")[-1] == "from_str":
                return tmap(f, y.a[1][0])
        return None
    return tmap(f, t)


_ns = {}


def sortmin(x):
    if x.k == "call" and x.a[0] in ("min", "max") and len(x.a[1]) == 2:
        a, b = sorted((tmap(sortmin, y) for y in x.a[1]), key=lambda t: t.id)
        return mk("call", x.a[0], (a, b))
    return None


def nshare(p, s):
    s = p.norm(strip_roundtrip(s))
    r = _ns.get(s)
    if r is None:
        r = _ns[s] = tmap(sortmin, s)
    if any(x.k == "call" and x.a[0] in ("min", "max") for x in subterms(r)):
        m = p.__dict__.setdefault("_demin", {})
        if r not in m:
            m[r] = tmap(lambda x: demin(p, x), r)
        r = m[r]
    return r


def share_rel(p, a, b):
    """how two shares compare on the path (facts about their printed and parsed forms count)"""
    r = frozenset("<=>")
    for (x, y), s in p.st.o.items():
        x, y = p.norm(strip_roundtrip(x)), p.norm(strip_roundtrip(y))
        if x is a and y is b:
            r &= s
        elif x is b and y is a:
            r &= frozenset({"<": ">", ">": "<", "=": "="}[c] for c in s)
    return r if r != frozenset("<=>") else p.rel(a, b)


def demin(p, x):
    """min(a, b) and max(a, b) where the path knows which one it is"""
    if x.k == "call" and x.a[0] in ("min", "max") and len(x.a[1]) == 2:
        a, b = x.a[1]
        r = share_rel(p, a, b)
        if r <= frozenset(">="):
            a, b = b, a
        elif not r <= frozenset("<="):
            return None
        return tmap(lambda y: demin(p, y), a if x.a[0] == "min" else b)
    return None


def fee(p, amount, share):
    """the term the path uses for ceil(amount * share)"""
    ls = linear(nshare(p, share))
    for x in fee_atoms(p):
        a, s = x.a[1]
        if p.same(a, amount) and linear(nshare(p, s)) == ls:
            return x
    return mk("call", "mul_ceil", (amount, share))


def bps(x):
    return call("cosmwasm_std::Decimal::bps", x)


def is_zero(p, t):
    return p.rel(t, I(0)) == frozenset("=")


def not_zero(p, t):
    return p.lt(I(0), t)


PF, MR, TR, MAXR = C("protocol_fee_bps"), C("maker_reward_bps"), C("taker_reward_bps"), C("max_royalty_fee_bps")


def find_bps(p):
    return None


def royalty_query(p, coll):
    f = p.facts()
    for k in list(p.st.d):
        if k.k == "call" and "query" in k.a[0]:
            for y in subterms(k):
                if y.k == "adt" and y.a[1] == "RoyaltyPayment":
                    if any(p.norm(z) is p.norm(C("royalty_registry")) for z in k.a[1]) and p.same(fld(y, "collection"), coll):
                        pr = fld(y, "protocol")
                        if p.isv(pr, "Some") and p.same(fld(as_(pr, "Some"), "0"), SELF):
                            return k
    return None


def coll_query(p, coll):
    for k in list(p.st.d):
        if k.k == "call" and "query" in k.a[0] and any(y.k == "adt" and y.a[1] == "CollectionInfo" for y in k.a[1]) \
                and any(p.same(z, coll) for z in k.a[1] if z.k != "adt"):
            return k
    return None


def okval(q):
    return fld(as_(q, "Ok"), "0")


def someval(o):
    return fld(as_(o, "Some"), "0")


def royalty(p, coll):
    """("none"|"registry"|"collection"|"unknown", recipient, share)"""
    q = royalty_query(p, coll)
    if q is None or p.isv(q, "Ok") is not True:
        return "unknown", None, None
    for f in ("royalty_protocol", "royalty_default"):
        o = fld(okval(q), f)
        if p.isv(o, "Some"):
            e = fld(someval(o), "royalty_entry")
            return "registry", fld(e, "recipient"), fld(e, "share")
        if p.isv(o, "None") is not True:
            return "unknown", None, None
    ci = coll_query(p, coll)
    if ci is None:
        return "unknown", None, None
    if p.isv(ci, "Err"):
        return "none", None, None
    r = fld(okval(ci), "royalty_info")
    if p.isv(r, "None"):
        return "none", None, None
    if p.isv(ci, "Ok") and p.isv(r, "Some"):
        e = someval(r)
        return "collection", valid(fld(e, "payment_address")), fld(e, "share")
    return "unknown", None, None


def royalty_of(p, coll):
    r = getattr(p, "_r2", None)
    if r is None:
        r = p._r2 = royalty(p, coll)
    return r


def capped(p, share):
    """min(share, cap) as the path has it"""
    return nshare(p, mk("call", "min", (share, bps(MAXR))))


def expected_fees(c, p, s, partial=False):
    """[(label, recipient, share)] of a sale, or None if the path leaves it open (partial: those it settles)"""
    out = []
    P = bps(PF)
    if is_zero(p, P) or is_zero(p, PF):
        prot = None
    else:
        prot = P
        for nm, o, bp in (("maker", s.maker, MR), ("taker", s.taker, TR)):
            k, t = option(p, o.finder)
            if not k:
                # the code did not look: only fine if there is nothing to share out
                if is_zero(p, bp):
                    continue
                if partial:
                    prot = None
                    continue
                return None
            if t is None or is_zero(p, bp):
                continue
            prod = binop("mul", P, bps(bp))
            prot = binop("sub", prot, prod) if prot is not None else None
            out.append((nm, t, prod))
        if prot is not None:
            out.insert(0, ("protocol", C("fee_manager"), prot))
    return out


def share_zero(p, share):
    ls = linear(nshare(p, share))
    if not ls or p.rel(nshare(p, share), I(0)) == frozenset("="):
        return True
    for (a, b), st in p.st.o.items():
        if st == frozenset("="):
            for x, y in ((a, b), (b, a)):
                if x is I(0) and linear(nshare(p, y)) == ls:
                    return True
    return False


def find_msg(p, msgs, to, b, used):
    for m in msgs:
        if m in used or not p.same(m.to, to):
            continue
        if vanishes(p, badd(funds(p, m.bag), funds(p, b), -1)):
            return m
    return None


def refund_bag(p, s):
    """what the taker of a listing gets back: everything attached (and his old escrow) beyond the price"""
    inn, rel = inflow(p), {}
    if p.unit.variant in ("UpdateBid", "UpdateCollectionBid"):
        rel = value(p, s.bid.ns, s.bid.rec)
    return badd(badd(inn, rel), coinbag(s.price), -1)


def split(c, p):
    """expected payments of a sale: {label: (recipient, bag)}; None if undecidable"""
    s = sale(p)
    if s is None:
        return None
    r = getattr(p, "_x2", None)
    if r is not None:
        return r
    amount, denom = fld(s.price, "amount"), fld(s.price, "denom")
    fees = expected_fees(c, p, s)
    if fees is None:
        return None
    src, to, share = royalty_of(p, s.coll)
    if src == "unknown":
        return None
    if src != "none":
        fees.append(("royalty", to, capped(p, share)))
    out = {}
    rest = coinbag(s.price)
    for nm, to, sh in fees:
        if share_zero(p, sh):
            continue
        b = bagcoin(denom, fee(p, amount, sh))
        out[nm] = (to, b)
        rest = badd(rest, b, -1)
    out["seller"] = (beneficiary(p, s.ask), rest)
    p._x2 = out
    return out


def payments(p):
    return [m for m in money_msgs(p)]


@prop("V06", [V2], X, floors={"sales": 10, "orders-closed": 10})
def v06(c, u, paths):
    for p in successful(paths):
        if kind(p) != "sale":
            continue
        c.count("sales")
        s = sale(p)
        if not c.need(s is not None, p, "orders", "the orders of a sale cannot be identified"):
            continue
        # both orders leave the book, nothing else changes
        gone = [(ns, cur) for op, ns, key, cur, new in touched(p) if op == "remove" and cur is not None and cur != "unknown"]
        for o in (s.ask, s.bid):
            if o.rec is not None:
                c.count("orders-closed")
                hit = [g for g in gone if g[0] == o.ns and same_record(p, g[1], o.rec)]
                if c.need(bool(hit), p, "left-open/" + o.ns, "an order is sold but stays on the book"):
                    gone = [g for g in gone if g not in hit]
        c.need(not gone, p, "other-order", lambda: "a sale deletes an order that is not part of it: %s" % ", ".join(g[0] for g in gone))
        c.need(not [x for x in p.eff if x[0] == "save" and x[1] is not S("N")], p, "other-writes", "a sale stores something")
        # the resting order's price, from the orders of the same token and collection
        if s.ask.rec is not None and s.bid.rec is not None and s.bid.ns == "o":
            c.need(p.same(s.ask.tok, s.bid.tok), p, "token", "the orders of a sale are for different tokens")
        c.need(p.same(s.ask.coll, s.bid.coll), p, "collection", "the orders of a sale are for different collections")
        x = split(c, p)
        if not c.need(x is not None, p, "split", "the split of the price cannot be identified"):
            continue
        msgs = payments(p)
        to, b = x["seller"]
        if to is None:
            c.fail(p, "seller", "the seller's recipient is not decided")
        elif not vanishes(p, funds(p, b)):
            m = find_msg(p, msgs, to, b, [])
            c.need(m is not None, p, "seller", lambda: "expected %s to the seller's recipient %s, found %s" % (
                showbag(b), show(to), "; ".join("%s to %s" % (showbag(m.bag), show(m.to)) for m in msgs) or "no payment"))
        else:
            c.need(True, p, "seller")


def all_settled(c, p, key, labels, unexpected=False):
    x = split(c, p)
    if x is None:
        c.fail(p, key, "the split of the price cannot be identified")
        return
    msgs = payments(p)
    used = []
    for nm in ("seller", "protocol", "maker", "taker", "royalty"):
        if nm not in x:
            continue
        to, b = x[nm]
        if to is None or vanishes(p, funds(p, b)):
            continue
        m = find_msg(p, msgs, to, b, used)
        if m is not None:
            used.append(m)
        if nm in labels:
            c.count(nm)
            c.need(m is not None, p, key + "/" + nm, lambda: "expected %s of %s to %s, found %s" % (
                nm, showbag(b), show(to), "; ".join("%s to %s" % (showbag(y.bag), show(y.to)) for y in msgs) or "no payment"))
    return [m for m in msgs if m not in used]


# ------------------------------------------------------------------ V07 fees
@prop("V07", [V2], X, floors={"protocol": 10, "maker": 10, "taker": 10})
def v07(c, u, paths):
    for p in successful(paths):
        if kind(p) != "sale":
            continue
        left = all_settled(c, p, "fee", ("protocol", "maker", "taker"))
        for m in left or ():
            # listing fee and the buyer's change are judged by their own rules
            if p.same(m.to, C("fee_manager")) and u.variant in ASK_NEW or p.same(m.to, SENDER):
                continue
            if vanishes(p, funds(p, m.bag)):
                continue
            c.need(False, p, "unexpected", "unexpected payment in a sale: " + m.text())


# ------------------------------------------------------------------ V08 royalties
@prop("V08", [V2], X, floors={"royalty": 10, "registered": 10})
def v08(c, u, paths):
    for p in successful(paths):
        inits = [m for m in messages(p) if m.kind == "exec"]
        if kind(p) != "sale":
            c.need(not inits, p, "registry-call", "a call to another contract outside of a sale")
            continue
        s = sale(p)
        if s is None:
            c.fail(p, "sale", "the orders of a sale cannot be identified")
            continue
        src, to, share = royalty_of(p, s.coll)
        if not c.need(src != "unknown", p, "source", "a sale is settled without establishing the royalty from the registry and the collection"):
            continue
        all_settled(c, p, "royalty", ("royalty",))
        if src == "collection":
            c.count("registered")
            ok_ = len(inits) == 1 and p.same(inits[0].to, C("royalty_registry")) and inits[0].variant == "InitializeCollectionRoyalty" \
                and p.same(fld(inits[0].body, "collection"), s.coll) and not inits[0].bag
            c.need(ok_, p, "register", "a royalty the registry does not know yet is not registered there")
        else:
            c.need(not inits, p, "register", "the registry is called although it knows the royalty or there is none")


# ------------------------------------------------------------------ V09 listing fee
@prop("V09", [V2], X, floors={"paid": 10})
def v09(c, u, paths):
    for p in successful(paths):
        if u.variant not in ASK_NEW:
            continue
        c.count("paid")
        fs = [k for k, v in p.st.b.items() if v is True and k.k == "succeeds" and k.a[0] == "funds" and k.a[2] is FUNDS and k.a[1] == "one_coin"]
        if not c.need(bool(fs) or len(inflow(p)) == 1 and not any(k[0] == "*" for k in inflow(p)), p, "one-coin", "a token is listed without exactly one coin attached"):
            continue
        (denom, amount), n = list(inflow(p).items())[0]
        ml = None
        for x in list(p.st.d):
            if x.k == "mayload" and x.a[0] is S("L") and p.same(x.a[1], denom):
                ml = x
        if not c.need(ml is not None and p.isv(ml, "Some") is True, p, "fee-set", "a token is listed in exchange for a coin that has no listing fee"):
            continue
        c.need(p.same(amount, mk("stored", *ml.a)), p, "fee-exact", "the coin attached to a listing is not exactly the listing fee")
        b = inflow(p)
        c.need(find_msg(p, payments(p), C("fee_manager"), b, []) is not None, p, "fee-forwarded", "the listing fee does not go to the fee manager")


# ------------------------------------------------------------------ V10 withdrawals and change
FREE_FAIL = ("addr",)


@prop("V10", [V2], X, floors={"withdrawals": 2, "changes": 10, "refusals": 2})
def v10(c, u, paths):
    v = u.variant
    if v in REMOVES:
        ns = REMOVES[v]
        mid = msgf(u, "id")
        rec = stored(ns, mid)
        for p in paths:
            if p.ok is False:
                c.count("refusals")
                why = p.isv(mayload(ns, mid), "None") is True or "=" not in p.rel(SENDER, fld(rec, "creator")) or funds_attached(p)
                c.need(why, p, "refused", "the creator of an order is refused its withdrawal")
                continue
            c.count("withdrawals")
            t = touched(p)
            c.need(p.isv(mayload(ns, mid), "Some") is True and len(t) == 1 and t[0][0] == "remove" and t[0][1] == ns and t[0][3] not in (None, "unknown")
                   and same_record(p, t[0][3], rec), p, "removed", "withdrawing does not delete exactly the named order")
            c.need(not [x for x in p.eff if x[1].k != "str" or x[1].a[0] not in SPACES], p, "other-writes", "a withdrawal changes something else")
            c.need(not [m for m in messages(p) if m.kind == "exec"], p, "other-calls", "a withdrawal calls another contract")
            b = {} if ns == "a" else coinbag(price(rec))
            m = payments(p)
            if b:
                c.need(len(m) == 1 and m[0].kind == "send" and p.same(m[0].to, SENDER) and vanishes(p, badd(funds(p, m[0].bag), b, -1)), p, "refund",
                       "withdrawing a bid does not pay back exactly its price to its creator")
            else:
                c.need(not m, p, "refund", "withdrawing a listing pays money")
        return
    if v not in BID_NEW + ("UpdateBid", "UpdateCollectionBid", "AcceptAsk"):
        for p in successful(paths):
            if v in ("UpdateAsk",) or v in ADMIN_OPS or v in ("AcceptBid", "AcceptCollectionBid"):
                c.need(not inflow(p), p, "funds-kept", "coins attached to a call that needs none are accepted")
        return
    for p in successful(paths):
        c.count("changes")
        inn, rel, out, sto = bags(p)
        if kind(p) == "sale":
            s = sale(p)
            if s is None:
                c.fail(p, "sale", "the orders of a sale cannot be identified")
                continue
            b = refund_bag(p, s)
        else:
            b = badd(badd(inn, rel), sto, -1)
        b = funds(p, b)
        if vanishes(p, b):
            continue
        c.need(find_msg(p, payments(p), SENDER, b, []) is not None, p, "change",
               lambda: "what is attached beyond the price (%s) does not go back to the sender" % showbag(b))


# ------------------------------------------------------------------ V11 slippage, instant orders
@prop("V11", [V2], X, floors={"limits": 10, "instant": 10})
def v11(c, u, paths):
    v = u.variant
    d = fld(msgdetails(u), "price")
    for p in successful(paths):
        if v in ACCEPTS:
            rec = stored(ACCEPTS[v], msgf(u, "id"))
            c.count("limits")
            c.need(p.isv(mayload(ACCEPTS[v], msgf(u, "id")), "Some") is True, p, "exists", "an order is accepted that was not looked up")
            c.need(p.same(fld(d, "denom"), price(rec, "denom")), p, "limit-denom", "an order in another currency than the limit's is accepted")
            lo, hi = (price(rec, "amount"), fld(d, "amount")) if v == "AcceptAsk" else (fld(d, "amount"), price(rec, "amount"))
            c.need(p.le(lo, hi), p, "limit", "an order is accepted at a price beyond the limit given")
        if v in INSTANT:
            c.count("instant")
            c.need(kind(p) == "sale" and not any(x[0] == "save" for x in touched(p)), p, "stored", "an instant order is left on the book")
        if kind(p) == "sale":
            s = sale(p)
            if s is None:
                c.fail(p, "sale", "the orders of a sale cannot be identified")
                continue
            if v in ASK_NEW or v == "UpdateAsk":
                c.need(p.same(fld(s.price, "denom"), fld(d, "denom")) and at_least_price(p, s), p, "sold-below", "a token is sold below its owner's price or in another currency")
            elif v not in ACCEPTS:
                c.need(p.same(fld(s.price, "denom"), fld(d, "denom")) and at_most_price(p, s), p, "bought-above", "a token is bought above the bid or in another currency")


def at_least_price(p, s):
    """the consumed bid pays at least the listing's price: established by a comparison or by the search's bound"""
    a, b = fld(s.ask.price, "amount"), fld(s.price, "amount")
    if p.le(a, b):
        return True
    r = range_of(p.facts().n0(s.bid.rec))
    return r is not None and at_least(p, bound_of(r.a[2]), a) and price_last(p, r)


def at_most_price(p, s):
    a, b = fld(s.price, "amount"), fld(s.bid.price, "amount")
    if p.le(a, b):
        return True
    r = range_of(p.facts().n0(s.ask.rec))
    return r is not None and at_most(p, bound_of(r.a[3]), b) and price_last(p, r)


def price_last(p, r):
    n, b, key = prefix_fields(p, r)
    return key.k == "tup" and key.a[-1] is price(REC, "amount") and r.a[1].a[2].k == "tup" and len(r.a[1].a[2].a) == len(key.a) - 1


# ------------------------------------------------------------------ V12 administration
@prop("V12", [V2], ("execute", "instantiate", "migrate"), floors={"configs": 2, "settings": 2})
def v12(c, u, paths):
    for p in successful(paths):
        v = u.variant
        for x in p.saves("C"):
            c.count("configs")
            src = fld(arg("msg"), "config") if not v else msgf(u, "config")
            r = x[3]
            for f in ("fee_manager", "royalty_registry"):
                c.need(p.same(fld(r, f), valid(fld(src, f))), p, "config/" + f, lambda: "the stored %s is not the validated one given" % f)
            for f in ("protocol_fee_bps", "max_royalty_fee_bps", "maker_reward_bps", "taker_reward_bps", "default_denom"):
                c.need(p.same(fld(r, f), fld(src, f)), p, "config/" + f, lambda: "the stored %s is not the one given" % f)
            c.need(p.lt(fld(src, "protocol_fee_bps"), I(10000)), p, "fee-limit", "a protocol fee of 100% or more is accepted")
            tot = binop("add", fld(src, "maker_reward_bps"), fld(src, "taker_reward_bps"))
            c.need(p.lt(tot, I(10000)), p, "reward-limit", "rewards of 100% of the protocol fee or more are accepted")
        w = [(x[0], x[1].a[0] if x[1].k == "str" else "?") for x in p.eff]
        if not v and u.entry.endswith("instantiate"):
            c.need(sorted(w) == [("save", "C"), ("save", "N"), ("save", "contract_info")], p, "instantiate", "instantiation does not store exactly the configuration, the counter and the version")
            for x in p.saves("N"):
                c.need(x[3] is I(0), p, "counter", "the order counter does not start at zero")
            continue
        if not v:
            c.need(set(w) <= {("save", "contract_info")}, p, "migrate", "migration touches the order book")
            continue
        if v == "UpdateConfig":
            c.need(w == [("save", "C")], p, "effects", "updating the configuration changes something else")
        elif v == "UpdateCollectionDenom":
            c.count("settings")
            xs = p.saves("D")
            c.need(w == [("save", "D")] and p.same(xs[0][2], valid(msgf(u, "collection"))) and p.same(xs[0][3], msgf(u, "denom")), p, "effects",
                   "the collection's currency is not stored as given")
        elif v == "SetListingFee":
            c.count("settings")
            xs = p.saves("L")
            c.need(w == [("save", "L")] and p.same(xs[0][2], fld(msgf(u, "fee"), "denom")) and p.same(xs[0][3], fld(msgf(u, "fee"), "amount")), p, "effects",
                   "the listing fee is not stored as given")
        elif v == "RemoveListingFee":
            c.count("settings")
            xs = p.removes("L")
            c.need(w == [("remove", "L")] and p.same(xs[0][2], msgf(u, "denom")), p, "effects", "the listing fee is not removed as asked")
        else:
            c.need(all(x[1] in SPACES + ("N",) for x in w), p, "settings-changed", "trading changes a setting")
        if v in ADMIN_OPS:
            c.need(not messages(p), p, "messages", "an administrative call sends messages")


# ------------------------------------------------------------------ V13 identity of orders
@prop("V13", [V2], X, floors={"new-ids": 2, "kept-ids": 2})
def v13(c, u, paths):
    for p in successful(paths):
        n = [x[3] for x in p.eff if x[0] == "save" and x[1] is S("N")]
        c.need(len(n) <= 1, p, "counter-twice", "the order counter is written twice")
        for x in n:
            old = stored("N", UNIT)
            c.need(p.same(x, binop("add", old, I(1))), p, "counter", lambda: "the order counter is set to %s instead of the next number" % show(x))
        for op, ns, key, cur, new in touched(p):
            if op != "save":
                continue
            c.need(p.same(key, fld(new, "id")), p, "own-id/" + ns, "an order is stored under another id than its own")
            if cur is None:
                c.count("new-ids")
                ps = idparts(key)
                want = [fld(new, "collection")] + ([fld(new, "token_id")] if ns != "c" else [])
                if ns == "a":
                    c.need(ps is not None and len(ps) == 2 and all(p.same(x, y) for x, y in zip(ps, want)), p, "id/a",
                           lambda: "the id of a listing is not derived from exactly its collection and token: " + show(key))
                else:
                    c.need(fresh(p, key) and len(ps) >= len(want) + 1 and all(p.same(x, y) for x, y in zip(ps, want)), p, "id/" + ns,
                           lambda: "the id of a new bid is not derived from its collection, token and a new order number: " + show(key))
            elif cur != "unknown":
                c.count("kept-ids")
                for f in FIELDS[ns]:
                    if f != "details":
                        c.need(p.same(fld(new, f), fld(cur, f)), p, "kept/%s.%s" % (ns, f), lambda: "repricing an order changes its " + f)
            else:
                c.fail(p, "overwritten/" + ns, "an order may overwrite another one")
