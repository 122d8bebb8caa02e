"""Storage layout of a contract, read from its code: constant namespaces, indexed maps, and the key
each secondary index derives from a record (as a term over the record `rec`)."""
import re
from terms import *
from absint import Engine, St

REC, PK = arg("rec"), arg("pk")
_memo = {}


def nargs(p, clo):
    """a MultiIndex closure takes (primary key, record)"""
    f = p.fns.get(clo.a[0]) if clo.k == "clo" else None
    return f.body["argc"] - 1 if f else 2


class Map:
    """one indexed map: namespace, record type, indexes {field: (namespace, primary namespace, key term)}"""

    def __init__(self, fn, ns, rec, indexes, listed):
        self.fn, self.ns, self.rec, self.indexes, self.listed = fn, ns, rec, indexes, listed


class Layout:
    def __init__(self):
        self.items, self.maps, self.problems = [], [], []  # items: (fn name, kind, namespace)

    def index(self, ns):
        for m in self.maps:
            for f, (n, pk, key, _) in m.indexes.items():
                if n == ns:
                    return m, key
        return None


def evaluate(p, fn, args):
    e = Engine(p)
    return [v for s, v in e.entry(fn, args, None)]


def layout(p, crate):
    if (id(p), crate) in _memo:
        return _memo[id(p), crate]
    out = Layout()
    lists = {}
    for fn in p.fns.values():
        if fn.crate != crate or not fn.name.endswith("::get_indexes"):
            continue
        m = re.match(r"<(\S+?)<.*> as cw_storage_plus::IndexList<(.*)>>::get_indexes$", fn.name)
        if not m:
            continue
        this = arg("self")
        fs = None
        for v in evaluate(p, fn, [this]):
            got = set()
            for x in subterms(v):
                if x.k == "fld" and x.a[0] is this:
                    got.add(x.a[1])
            fs = got if fs is None else fs & got
        lists[m.group(1)] = (m.group(2), fs or set())
    for fn in p.fns.values():
        if fn.crate != crate or fn.body["argc"] != 0:
            continue
        head = fn.ret()[1][1] if len(fn.ret()) > 1 else ""
        kind = str(head).split("::")[-1]
        if kind not in ("Item", "Map", "IndexedMap", "Hooks", "Deque", "SnapshotMap", "SnapshotItem", "Admin"):
            continue
        if not any(x in str(head) for x in ("cw_storage_plus", "sg_controllers", "cw_controllers")):
            continue
        try:
            vs = evaluate(p, fn, [])
        except Exception as ex:
            out.problems.append("%s: %s" % (fn.name, ex))
            continue
        if len(vs) != 1:
            out.problems.append("%s: %d alternatives" % (fn.name, len(vs)))
            continue
        v = vs[0]
        ns = fld(v, "ns")
        if ns.k != "str":
            out.problems.append("%s: namespace not constant: %s" % (fn.name, show(v)[:200]))
            continue
        if kind != "IndexedMap":
            out.items.append((fn.name, kind, ns.a[0]))
            continue
        idx = fld(v, "idx")
        ixs = {}
        if idx.k != "adt":
            out.problems.append("%s: indexes not constant" % fn.name)
            continue
        for f, x in idx.a[2]:
            n, pk = fld(x, "ns"), fld(x, "pk_ns")
            e = Engine(p)
            keys = None
            try:
                keys = [e.deep(s, r) for s, r in e.apply(St(), fld(x, "f"), [PK, REC][-nargs(p, fld(x, "f")):])]
            except Exception as ex:
                out.problems.append("%s.%s: %s" % (fn.name, f, ex))
            key = keys[0] if keys and len(keys) == 1 else None
            ixs[f] = (n.a[0] if n.k == "str" else None, pk.a[0] if pk.k == "str" else None, key, keys)
        tyname = idx.a[0]
        rec, listed = None, set()
        for k, (r, fs) in lists.items():
            if k.split("::")[-1] == tyname.split("::")[-1]:
                rec, listed = r, fs
        out.maps.append(Map(fn.name, ns.a[0], rec, ixs, listed))
    _memo[id(p), crate] = out
    return out


# ---------------------------------------------------------------- identity of records met by key or index
def unify(k, t, bind):
    """match the key term k over `rec` against the term t; bind: rec field term -> value"""
    if k.k == "fld" and root(k) is REC:
        if k in bind and bind[k] is not t:
            return False
        bind[k] = t
        return True
    if k is t:
        return True
    if k.k != t.k or len(k.a) != len(t.a):
        return False
    return all(unifya(x, y, bind) for x, y in zip(k.a, t.a))


def unifya(x, y, bind):
    if type(x) is T:
        return type(y) is T and unify(x, y, bind)
    if type(x) is tuple:
        return type(y) is tuple and len(x) == len(y) and all(unifya(a, b, bind) for a, b in zip(x, y))
    return x == y


def joined(t):
    """[parts] of a text put together from parts (literal texts as str terms), or None"""
    if t.k == "call" and t.a[0] == "join" and len(t.a[1]) == 2:
        l, sep = t.a[1]
        if l.k == "list" and concrete(l) and sep.k == "str":
            out = []
            for x in l.a[0]:
                out += ([sep] if out and sep.a[0] else []) + [x[1]]
            return out
    n = 0
    while t.k == "call" and t.a[0] == "fmt" and len(t.a[1]) == 1 and n < 4:
        t, n = t.a[1][0], n + 1
    if t.k == "call" and t.a[0] == "fmt" and len(t.a[1]) == 2 and t.a[1][0].k == "str" and t.a[1][1].k == "list" and concrete(t.a[1][1]):
        tpl, args = t.a[1][0].a[0], [x[1] for x in t.a[1][1].a[0]]
        out, i = [], 0
        while i < len(tpl):
            ch = tpl[i]
            if ch == "\ufffd":
                if not args:
                    return None
                a = args.pop(0)
                out.append(a.a[1][0] if a.k == "call" and a.a[0] == "fmt" and len(a.a[1]) == 1 else a)
                i += 1
            elif 0 < ord(ch) < 128:
                out.append(mk("str", tpl[i + 1:i + 1 + ord(ch)]))
                i += 1 + ord(ch)
            else:
                break
        return out if not args else None
    return None


def canon(t):
    """texts put together from parts in one way of writing"""
    if type(t) is tuple:
        return tuple(canon(x) for x in t)
    if type(t) is not T:
        return t
    ps = joined(t)
    if ps is not None:
        return mk("call", "text", tuple(canon(x) for x in ps))
    return mk(t.k, *[canon(x) for x in t.a])


def ambiguous(t):
    """a text put together so that different parts can give the same text, or None"""
    ps = joined(t)
    if ps is not None and len(ps) > 1:
        for i in range(len(ps) - 1):
            a, b = ps[i], ps[i + 1]
            if a.k != "str" and (b.k != "str" or not any(not ch.isalnum() for ch in b.a[0])):
                return t
        return None
    for x in t.a:
        for y in x if type(x) is tuple else (x,):
            r = ambiguous(y) if type(y) is T else None
            if r is not None:
                return r
    return None


def root(t):
    while t.k in ("fld", "as"):
        t = t.a[0]
    return t


def untake(r):
    while r.k == "call" and r.a[0] in ("take", "skip", "oks", "rev"):
        r = r.a[1][0]
    return r


def range_of(t):
    """the storage range a record term (key, record).1 comes from"""
    if t.k == "fld" and t.a[1] == "1":
        x = t.a[0]
        if x.k == "fld" and x.a[1] == "0" and x.a[0].k == "as" and x.a[0].a[1] == "Ok":
            x = x.a[0].a[0]
        if x.k in ("topel", "elem"):
            r = untake(x.a[0])
            if r.k == "range":
                return r
    return None


_bind = {}


def bindings(lay, r):
    """what the prefix of a storage range says about the records it yields"""
    key = (id(lay), r)
    b = _bind.get(key)
    if b is None:
        b = _bind[key] = {}
        d = r.a[1]
        if d.k == "prefix" and d.a[1].k == "str":
            ix = lay.index(d.a[1].a[0])
            if ix and ix[1] is not None:
                k, pre = ix[1], d.a[2]
                if k.k == "tup" and pre.k == "tup" and len(pre.a) <= len(k.a):
                    ok_ = all(unify(x, y, b) for x, y in zip(k.a, pre.a))
                elif k.k == "tup" and pre.k != "tup":
                    ok_ = pre is UNIT or unify(k.a[0], pre, b)
                else:
                    ok_ = pre is UNIT or unify(k, pre, b)
                if not ok_:
                    b.clear()
    return b


def idparts(t):
    """the components hashed into an order id, or None"""
    n = 0
    while t.k == "call" and t.a[0] == "fmt" and n < 6:
        n += 1
        nxt = None
        for a in t.a[1]:
            if a.k == "list" and len(a.a[0]) == 1:
                nxt = a.a[0][0][1]
            elif a.k in ("call",):
                nxt = a
        if nxt is None:
            return None
        t = nxt
    if t.k != "call" or not t.a[0].split("::")[-1].startswith("finalize"):
        return None
    t = t.a[1][0]
    out = []
    while t.k == "call" and t.a[0].split("::")[-1].split(":")[0] in ("update", "chain_update", "chain") and len(t.a[1]) == 2:
        out.append(t.a[1][1])
        t = t.a[1][0]
    if t.k == "call" and t.a[0].split("::")[-1].split(":")[0] in ("new", "default"):
        return out[::-1]
    return None


def known_field(lay, idfields, x):
    """value of a record field that its key or index entry determines"""
    if x.k != "fld":
        return None
    path, t = [], x
    while t.k in ("fld", "as"):
        r = range_of(t)
        if r is not None and path:
            k = REC
            for n in reversed(path):
                k = fld(k, n)
            return bindings(lay, r).get(k)
        if t.k == "as":
            return None
        path.append(t.a[1])
        t = t.a[0]
    if t.k == "stored" and len(path) == 1 and t.a[0].k == "str":
        fs = idfields.get(t.a[0].a[0])
        if fs and path[0] in fs:
            ps = idparts(t.a[1])
            if ps and len(ps) == len(fs):
                return ps[fs.index(path[0])]
    return None
