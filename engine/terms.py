"""Abstract values: hash-consed provenance terms.

A term says where a value comes from (which message field, which storage record, which
computation); it is never evaluated.  Two values are 'the same' exactly when their provenance
terms are identical after the normalisations below (clones, references and conversions are
transparent; arithmetic is kept symbolic and compared as linear forms over opaque atoms)."""

TAB = {}
ALL = []


class T:
    __slots__ = ("k", "a", "id", "ref", "mark")

    def __repr__(self):
        return show(self)


def mk(k, *a):
    key = (k, a)
    t = TAB.get(key)
    if t is None:
        t = T()
        t.k, t.a, t.id = k, a, len(ALL)
        ref, mark = k == "ref", k == "mark"
        for x in a:
            if type(x) is T:
                ref |= x.ref
                mark |= x.mark
            elif type(x) is tuple:
                r, m = _tflags(x)
                ref |= r
                mark |= m
        t.ref, t.mark = ref, mark
        TAB[key] = t
        ALL.append(t)
    return t


def _tflags(x):
    r = m = False
    for y in x:
        if type(y) is T:
            r |= y.ref
            m |= y.mark
        elif type(y) is tuple:
            a, b = _tflags(y)
            r |= a
            m |= b
    return r, m


UNIT = mk("tup")
UNDEF = mk("undef")
TRUE = mk("bool", True)
FALSE = mk("bool", False)


def I(n):
    return mk("int", n)


def S(s):
    return mk("str", s)


def arg(n):
    return mk("arg", n)


def adt(name, variant, **fields):
    return mk("adt", name, variant, tuple(sorted(fields.items())))


def adtl(name, variant, fields):
    return mk("adt", name, variant, tuple(sorted(fields)))


def some(t):
    return adt("Option", "Some", **{"0": t})


NONE = mk("adt", "Option", "None", ())


def ok(t):
    return adt("Result", "Ok", **{"0": t})


def err(t):
    return adt("Result", "Err", **{"0": t})


def tup(*ts):
    return mk("tup", *ts)


def lst(items=()):
    return mk("list", tuple(items))


def item(t):
    return ("i", t)


def fld(t, n):
    """field n of t"""
    k = t.k
    if k == "adt":
        for f, v in t.a[2]:
            if f == n:
                return v
        return mk("fld", t, n)
    if k == "tup":
        if n.isdigit() and int(n) < len(t.a):
            return t.a[int(n)]
    if k == "clo":
        if n.isdigit() and int(n) < len(t.a[1]):
            return t.a[1][int(n)]
    if k == "upd":
        for f, v in t.a[1]:
            if f == n:
                return v
        return fld(t.a[0], n)
    if k == "as":
        b = t.a[0]
        v = t.a[1]
        if b.k == "mayload" and v == "Some" and n == "0":
            return mk("stored", *b.a)
        if b.k == "find" and v == "Some" and n == "0":
            return mk("elemsat", *b.a)
    return mk("fld", t, n)


def as_(t, v):
    if t.k == "adt":
        return t
    return mk("as", t, v)


def upd(t, projs, new):
    if not projs:
        return new
    p = projs[0]
    if p[0] == "v":
        if t.k == "adt":
            return upd(t, projs[1:], new)
        if len(projs) > 1 and projs[1][0] == "f":
            return adtl("?", p[1], [(projs[1][1], upd(fld(as_(t, p[1]), projs[1][1]), projs[2:], new))])
        return new
    if p[0] != "f":
        return mk("call", "write-elem", (t, new))
    n = p[1]
    sub = upd(fld(t, n), projs[1:], new)
    if t.k == "adt":
        fs = [(f, sub if f == n else v) for f, v in t.a[2]]
        if all(f != n for f, v in t.a[2]):
            fs.append((n, sub))
        return adtl(t.a[0], t.a[1], fs)
    if t.k == "tup" and n.isdigit() and int(n) < len(t.a):
        a = list(t.a)
        a[int(n)] = sub
        return mk("tup", *a)
    if t.k == "tup" or t.k == "undef":
        if n.isdigit():
            a = list(t.a) if t.k == "tup" else []
            while len(a) <= int(n):
                a.append(UNDEF)
            a[int(n)] = sub
            return mk("tup", *a)
        return adtl("?", "?", [(n, sub)])
    if t.k == "clo":
        a = list(t.a[1])
        a[int(n)] = sub
        return mk("clo", t.a[0], tuple(a))
    if t.k == "upd":
        d = dict(t.a[1])
        base = t.a[0]
    else:
        d, base = {}, t
    d[n] = sub
    if fld(base, n) is sub:
        d.pop(n)
    if not d:
        return base
    return mk("upd", base, tuple(sorted(d.items())))


def concrete(l):
    return l.k == "list" and all(i[0] == "i" for i in l.a[0])


def tmap(f, t):
    """rebuild t bottom-up applying f to sub terms (f(term) -> term or None to descend)"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        r = f(t)
        if r is None:
            na = tuple(goa(x) for x in t.a)
            r = t if na == t.a else renorm(t.k, na)
        memo[t] = r
        return r

    def goa(x):
        if type(x) is T:
            return go(x)
        if type(x) is tuple:
            return tuple(goa(y) for y in x)
        return x

    return go(t)


def renorm(k, a):
    if k == "fld":
        return fld(*a)
    if k == "as":
        return as_(*a)
    if k == "bin":
        return binop(*a)
    return mk(k, *a)


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if type(x) is T:
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.a)
        elif type(x) is tuple:
            stack.extend(x)


def contains(t, f):
    if callable(f):
        return any(f(x) for x in subterms(t))
    return any(x is f for x in subterms(t))


def binop(op, a, b):
    if a.k == "int" and b.k == "int":
        x, y = a.a[0], b.a[0]
        if op == "add":
            return I(x + y)
        if op == "mul":
            return I(x * y)
        if op == "sub" and x >= y:
            return I(x - y)
        if op == "div" and y:
            return I(x // y)
    if op == "add":
        if a.k == "int" and a.a[0] == 0:
            return b
        if b.k == "int" and b.a[0] == 0:
            return a
        if a.k == "int" or b.k != "int" and a.id > b.id:
            a, b = b, a
    if op == "sub" and b.k == "int" and b.a[0] == 0:
        return a
    if op == "mul":
        if a.k == "int" and a.a[0] == 1:
            return b
        if b.k == "int" and b.a[0] == 1:
            return a
        if a.id > b.id:
            a, b = b, a
    return mk("bin", op, a, b)


# ---- linear forms -------------------------------------------------------------------------
def linear(t):
    """{atom: coefficient}; the constant term has key None"""
    if t.k == "int":
        return {None: t.a[0]} if t.a[0] else {}
    if t.k == "bin":
        op, a, b = t.a
        if op in ("add", "sub"):
            la, lb = linear(a), linear(b)
            out = dict(la)
            for k, v in lb.items():
                out[k] = out.get(k, 0) + (v if op == "add" else -v)
            return {k: v for k, v in out.items() if v}
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                if x.k == "int":
                    return {k: v * x.a[0] for k, v in linear(y).items() if v * x.a[0]}
            # commutative
            if a.id > b.id:
                return {mk("bin", "mul", b, a): 1}
    return {t: 1}


def lin_eq(a, b):
    return linear(a) == linear(b)


def lin_sum(ts):
    out = {}
    for t in ts:
        for k, v in linear(t).items():
            out[k] = out.get(k, 0) + v
    return {k: v for k, v in out.items() if v}


# ---- printing -----------------------------------------------------------------------------
def show(t, d=0):
    if type(t) is str:
        return t
    if type(t) is tuple:
        return "(" + ", ".join(show(x, d) for x in t) + ")"
    if type(t) is not T:
        return str(t)
    if d > 14:
        return "…"
    d += 1
    k, a = t.k, t.a
    if k == "arg":
        return a[0]
    if k == "int" or k == "bool":
        return str(a[0])
    if k == "str":
        return repr(a[0])
    if k == "fld":
        return "%s.%s" % (show(a[0], d), a[1])
    if k == "as":
        return "%s?%s" % (show(a[0], d), a[1])
    if k == "adt":
        n = a[0].split("::")[-1]
        n = n if n == a[1] else "%s::%s" % (n, a[1])
        if not a[2]:
            return n
        return "%s{%s}" % (n, ", ".join("%s: %s" % (f, show(v, d)) for f, v in a[2]))
    if k == "tup":
        return "(" + ", ".join(show(x, d) for x in a) + ")"
    if k == "list":
        return "[" + ", ".join(showi(x, d) for x in a[0]) + "]"
    if k == "call":
        return "%s(%s)" % (a[0].split("::")[-1], ", ".join(show(x, d) for x in a[1]))
    if k == "stored" or k == "mayload":
        return "%s<%s>[%s]%s" % (k, show(a[0], d), show(a[1], d), "'" * a[2])
    if k == "bin" or k == "cmp":
        return "(%s %s %s)" % (show(a[1], d), a[0], show(a[2], d))
    if k == "upd":
        return "%s{..%s}" % (show(a[0], d), ", ".join("%s=%s" % (f, show(v, d)) for f, v in a[1]))
    if k == "clo":
        return "closure"
    return "%s(%s)" % (k, ", ".join(show(x, d) for x in a))


def showi(x, d=0):
    if x[0] == "i":
        return show(x[1], d)
    if x[0] == "s":
        return "*" + show(x[1], d)
    if x[0] == "c":
        return "choice:%s{%s}" % (x[1], " | ".join("[" + ", ".join(showi(i, d) for i in its) + "]" for f, its in x[2]))
    if x[0] == "m":
        return "each:%s{%s}" % (x[1], " | ".join("[" + ", ".join(showi(i, d) for i in its) + "]" for f, its in x[2]))
    return "%s(%s)" % (x[0], ", ".join(show(y, d) for y in x[1:]))
