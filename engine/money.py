"""Messages and funds: what a response sends where, as multisets of coins.

A bag is a linear form over (denomination, amount atom) pairs; ("*", x) stands for a whole list of
coins x (such as the funds attached to the call) whose content is not known."""
from terms import *


def badd(a, b, c=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + c * v
    return {k: v for k, v in out.items() if v}


def bagcoin(denom, amount):
    return {(denom, k if k is not None else I(1)): v for k, v in linear(amount).items()}


def bag(t):
    """bag of a coin, a list of coins or a NativeBalance"""
    k = t.k
    if k == "list":
        out = {}
        for i in t.a[0]:
            if i[0] == "i":
                out = badd(out, bag(i[1]))
            elif i[0] == "s":
                out = badd(out, bag(i[1]))
            else:
                out = badd(out, {("*", mk("opaque", "listitem", show(i[1]))): 1})
        return out
    if k == "adt":
        short = t.a[0].split("::")[-1]
        if short == "Coin":
            return bagcoin(fld(t, "denom"), fld(t, "amount"))
        if short == "NativeBalance":
            return bag(fld(t, "0"))
        if short == "Option":
            return bag(fld(t, "0")) if t.a[1] == "Some" else {}
    if k == "nb":
        op, a, b = t.a
        return badd(bag(a), bag(b), 1 if op == "add" else -1)
    if k == "nbvec" or k == "mut":
        return bag(t.a[0])
    if k == "fld" and t.a[1] == "0" and t.a[0].k in ("nb",):
        return bag(t.a[0])
    if k == "upd":
        d = dict(t.a[1])
        if set(d) <= {"amount", "denom"}:
            return bagcoin(fld(t, "denom"), fld(t, "amount"))
    if k == "paid" and t.a[0] == "one_coin":
        return bagcoin(fld(t, "denom"), fld(t, "amount"))
    if is_list_like(t) and not (k == "call" and t.a[0] == "index"):
        return {("*", t): 1}
    # a single symbolic coin
    return bagcoin(fld(t, "denom"), fld(t, "amount"))


def is_list_like(t):
    return t.k == "fld" and t.a[1] in ("funds",) or t.k in ("range", "opaque", "lv", "mark", "call", "iter", "it")


def normbag(p, b):
    out = {}
    for (d, a), v in b.items():
        d2 = p.norm(d) if type(d) is T else d
        a2 = p.norm(a)
        if d2 == "*":
            out = badd(out, {(d2, a2): v})
        else:
            for k, c in linear(a2).items():
                out = badd(out, {(d2, k if k is not None else I(1)): v * c})
    return out


def inflow(p, info="info"):
    """what the call received, as a bag"""
    if "info" not in p.unit.argnames:
        return {}
    funds = fld(arg(info), "funds")
    return paidbag(p, funds)


def paidbag(p, funds):
    """the content of the attached funds, from what the path has checked about them"""
    f = p.facts()
    n = mk("call", "len", (funds,))
    if p.rel(n, I(0)) == frozenset("="):
        return {}
    for k, v in p.st.b.items():
        if v is True and k.k == "succeeds" and k.a[0] == "funds" and k.a[2] is funds:
            if k.a[1] == "one_coin":
                c = mk("paid", *k.a[1:])
                return bagcoin(fld(c, "denom"), fld(c, "amount"))
            return bagcoin(k.a[3], mk("paid", *k.a[1:]))
    for (a, b), s in p.st.o.items():
        if s == frozenset("="):
            if a is funds and b.k == "list":
                return bag(b)
            if b is funds and a.k == "list":
                return bag(a)
    if p.rel(n, I(1)) == frozenset("="):
        c = mk("call", "index", (funds, I(0)))
        for (a, b), s in p.st.o.items():
            if s == frozenset("=") and (a is c or b is c):
                return bag(b if a is c else a)
        return bagcoin(fld(c, "denom"), fld(c, "amount"))
    return {("*", funds): 1}


def subst(p, b, funds):
    """replace the attached funds inside b by their content"""
    out = {}
    for k, v in b.items():
        if k[0] == "*" and k[1] is funds:
            out = badd(out, paidbag(p, funds), v)
        else:
            out = badd(out, {k: v})
    return out


def zero(p, b):
    """is the bag empty under the facts of the path?"""
    b = normbag(p, b)
    if not b:
        return True
    # group by denomination: every component must vanish
    by = {}
    for (d, a), v in b.items():
        if d == "*":
            return False
        if a.k == "int":
            a, v = None, v * a.a[0]
        by.setdefault(d, {})[a] = by.get(d, {}).get(a, 0) + v
    for d, l in by.items():
        pos, neg = I(0), I(0)
        for a, v in l.items():
            t = I(abs(v)) if a is None else a if abs(v) == 1 else mk("bin", "mul", I(abs(v)), a)
            if v > 0:
                pos = t if pos is I(0) else binop("add", pos, t)
            elif v < 0:
                neg = t if neg is I(0) else binop("add", neg, t)
        if p.rel(pos, neg) != frozenset("="):
            # a sum of unsigned amounts each known to be zero
            left = [a for a, v in l.items() if a is None or p.rel(a, I(0)) != frozenset("=")]
            if left:
                return False
    return True


def showbag(b):
    if not b:
        return "nothing"
    out = []
    for (d, a), v in sorted(b.items(), key=lambda kv: show(kv[0][1])):
        c = "" if v == 1 else "-" if v == -1 else "%d*" % v
        out.append(c + (show(a) if d == "*" else "%s %s" % (show(a), show(d))))
    return " + ".join(out)


class Msg:
    """one outgoing message"""

    def __init__(self, item, each=None):
        self.item, self.each = item, each
        t = item[1]
        self.t = t
        self.kind, self.to, self.bag, self.body, self.variant = "unknown", None, {}, None, None
        self.reply, self.id = "Never", I(0)
        if item[0] != "i":
            return
        m = t
        if t.k == "submsg":
            m, self.reply, self.id = t.a[0], t.a[1], t.a[2]
        self.m = m
        if m.k == "adt":
            n = m.a[0].split("::")[-1]
            if n == "CosmosMsg":
                m = fld(m, "0")
                self.m = m
                n = m.a[0].split("::")[-1] if m.k == "adt" else ""
            if n == "BankMsg" and m.a[1] == "Send":
                self.kind, self.to = "send", fld(m, "to_address")
                self.amount = fld(m, "amount")
                self.bag = bag(self.amount)
            elif n == "BankMsg" and m.a[1] == "Burn":
                self.kind, self.amount = "burn", fld(m, "amount")
                self.bag = bag(self.amount)
            elif n == "WasmMsg" and m.a[1] == "Execute":
                self.kind, self.to = "exec", fld(m, "contract_addr")
                self.amount = fld(m, "funds")
                self.bag = bag(self.amount)
                b = fld(m, "msg")
                if b.k == "json" and b.a[0].k == "adt":
                    self.body = b.a[0]
                    self.variant = self.body.a[1]
                    if self.variant in ("TransferNft", "SendNft"):
                        self.kind = "nft"
                        self.recipient = fld(self.body, "recipient") if self.variant == "TransferNft" else fld(self.body, "contract")
                        self.token = fld(self.body, "token_id")
        elif m.k == "burn":
            self.kind, self.amount, self.dev = "fairburn", m.a[0], m.a[1]
            self.bag = bagcoin(S("ustars"), m.a[0])
        elif m.k == "fairburn":
            self.kind, self.to, self.amount, self.recipient = "fairburn", m.a[0], m.a[1], m.a[2]
            self.bag = bag(m.a[1])

    def text(self):
        return show(self.t)[:600]


def is_event(i):
    return i[0] == "i" and i[1].k == "adt" and i[1].a[0] == "Event"


def events(p):
    """the events a path announces, in order (analysed with events only)"""
    return [i[1] for i in p.items if is_event(i)]


def messages(p):
    """direct messages of a path (generic iterations of loops are in p.subs)"""
    r = getattr(p, "_msgs", None)
    if r is None:
        r = p._msgs = [Msg(i) for i in p.items if not is_event(i)]
    return r
