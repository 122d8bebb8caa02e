"""Execution paths of an entry point, as the rules see them.

A path is one way through the code: the facts its branches establish, the storage effects and the
outgoing messages in order, and the result.  Alternatives a summarised callee left open are
multiplied out; iterations of loops over unbounded collections become nested paths (`subs`) that
stand for one generic iteration."""
from terms import *
import models, storage
from absint import ALLORD, St, cmp_

FLIP = {"<": ">", ">": "<", "=": "="}


def flip(s):
    return frozenset(FLIP[c] for c in s)


class Path:
    def __init__(self, unit, st, ok_, eff, items, ret):
        self.unit, self.st, self.ok, self.eff, self.items, self.ret = unit, st, ok_, eff, items, ret
        self.subs = []  # (loop id, [Path])
        self.parent = None
        self._facts = None

    # ------------------------------------------------------------ facts
    def facts(self):
        if self._facts is None:
            self._facts = Facts(self)
        return self._facts

    def norm(self, t):
        return self.facts().norm(t)

    def same(self, a, b):
        return self.facts().same(a, b)

    def isv(self, t, v):
        """is the variant of t known to be v? True/False/None"""
        return self.facts().variant(t, v)

    def rel(self, a, b):
        return self.facts().rel(a, b)

    def le(self, a, b):
        return self.rel(a, b) <= frozenset("<=")

    def lt(self, a, b):
        return self.rel(a, b) <= frozenset("<")

    def truth(self, t):
        return self.facts().truth(t)

    def saves(self, ns=None):
        return [x for x in self.eff if x[0] == "save" and (ns is None or x[1].a[0] == ns)]

    def removes(self, ns=None):
        return [x for x in self.eff if x[0] == "remove" and (ns is None or x[1].a[0] == ns)]

    def all(self):
        """this path and the generic iterations nested in it"""
        yield self
        for lid, ps in self.subs:
            for p in ps:
                for q in p.all():
                    yield q

    def every(self, l):
        """groups of alternatives: every element of the list satisfies one alternative of each group
        (elements are the generic term elem(l))"""
        n = self.norm(l)
        el = [x for x in (mk("elem", l), mk("elem", n))]
        out = []
        for lid, subs in self.subs:
            if subs and all(any(any(y in el or self.norm(y) in el for y in subterms(k)) for k in newfacts(self, q)) for q in subs):
                out.append(subs)
        for k, v in self.st.b.items():
            if k.k == "any" and v is False and self.norm(k.a[0]) is n:
                pr = k.a[1]
                alts = pr.a[0] if pr.k == "alts" else (((), pr),)
                grp = []
                for facts, r in alts:
                    if r is TRUE:
                        continue
                    s = self.st.copy()
                    if not models.add_facts(self.unit.engine, s, facts) or not models.add_facts(self.unit.engine, s, boolfacts(r, False)):
                        continue
                    q = Path(self.unit, s, self.ok, [], [], self.ret)
                    q.parent = self
                    grp.append(q)
                out.append(grp)
        return out

    def describe(self, limit=60):
        out = []
        for k, v in self.st.d.items():
            out.append("%s is %s%s" % (show(k), "not " if v[0] == "not" else "", v[1] if v[0] == "is" else "/".join(sorted(v[1]))))
        for (a, b), v in self.st.o.items():
            out.append("%s %s %s" % (show(a), "".join(sorted(v)), show(b)))
        for k, v in self.st.b.items():
            out.append(("" if v else "not ") + show(k))
        return [x[:400] for x in out[:limit]]


def newfacts(p, q):
    """terms the nested path q knows something about that p does not"""
    for k in q.st.d:
        if k not in p.st.d:
            yield k
    for k, v in q.st.o.items():
        if p.st.o.get(k) != v:
            yield k[0]
            yield k[1]
    for k in q.st.b:
        if k not in p.st.b:
            yield k


def boolfacts(r, v):
    """facts equivalent to the boolean term r having the value v"""
    if r.k == "not":
        return boolfacts(r.a[0], not v)
    if r.k == "cmp":
        op, a, b = r.a
        s = {"==": "=", "<": "<", "<=": "<="}[op]
        return (("o", (a, b), frozenset(s) if v else ALLORD - frozenset(s)),)
    if r.k == "isvar":
        return (("d", r.a[0], ("is", r.a[1]) if v else ("not", frozenset([r.a[1]]))),)
    if r.k in ("and", "or") and v == (r.k == "and"):
        out = ()
        for x in r.a:
            out += boolfacts(x, v)
        return out
    if r.k == "bool":
        return ()
    return (("b", r, v),)


# identity invariants of the stored records: namespace -> fields equal to the key components
# (verified by the storage rules of each contract: every write stores the record under the key
# made of its own fields)
IDENT = {
    "asks": ("collection", "token_id"),
    "bids": ("collection", "token_id", "bidder"),
    "col_bids": ("collection", "bidder"),
}
IDENTS = {"sg_marketplace": IDENT, "stargaze_reserve_auction": {"a": ("collection", "token_id")},
          "stargaze_marketplace_v2": {"a": ("id",), "o": ("id",), "c": ("id",)}}
# records whose primary key is a hash of some of their fields
HASHED = {"stargaze_marketplace_v2": {"a": ("collection", "token_id")}}


# optional fields of a record that are set together (verified at every write of the record):
# crate -> (marker: is the record a stored one, fields)
TOGETHER = {"stargaze_reserve_auction": ("a", ("high_bid", "end_time", "first_bid_time"))}
# fields of a record that are equal (verified at every write): a.b == c.d
EQFIELDS = {"stargaze_reserve_auction": ("a", ("high_bid", "Some", "0", "coin", "denom"), ("reserve_price", "denom"))}

EQMEMO = {}


def is_record(t, ns):
    """t is a record of the namespace: loaded by key or met while iterating it"""
    if t.k == "stored":
        return t.a[0].k == "str" and t.a[0].a[0] == ns
    if t.k == "fld" and t.a[1] == "1" or t.k == "fld" and t.a[1] == "0" or t.k == "elem":
        return any(x.k == "range" and any(y.k == "str" and (y.a[0] == ns or y.a[0].startswith(ns + "__")) for y in subterms(x)) for x in subterms(t))
    return False


class Facts:
    def __init__(self, p):
        self.p = p
        st = p.st
        self.ident = p.unit.ident
        self.eqf = EQFIELDS.get(p.unit.crate)
        if p.unit.crate in HASHED:
            self.eqf = (storage.layout(p.unit.engine.p, p.unit.crate), HASHED[p.unit.crate])
        self.memo = EQMEMO.setdefault(("ident", p.unit.crate), {})
        self.d, self.o, self.b = {}, {}, {}
        eqs = set()
        for (a, b), s in st.o.items():
            if len(s) == 1 and "=" in s and a.k != "int" and b.k != "int":
                a, b = self.n0(a), self.n0(b)
                if a is not b:
                    eqs.add((a, b) if a.id < b.id else (b, a))
        # paths with the same equalities share one normaliser
        key = (p.unit.crate, frozenset(eqs))
        if key not in EQMEMO:
            self.parent = {}
            for a, b in sorted(eqs, key=lambda x: (x[0].id, x[1].id)):
                self.union(a, b)
            EQMEMO[key] = (self.parent, {})
        self.parent, self.memo2 = EQMEMO[key]
        tog = TOGETHER.get(p.unit.crate)
        for k, v in st.d.items():
            k = self.norm(k)
            self.addd(k, v)
            if tog and k.k == "fld" and k.a[1] in tog[1] and is_record(k.a[0], tog[0]):
                for f in tog[1]:
                    if f != k.a[1]:
                        self.addd(fld(k.a[0], f), v)
        for k, v in st.b.items():
            self.b[self.norm(k)] = v
        for (a, b), s in st.o.items():
            self.addo(self.norm(a), self.norm(b), s)

    def addd(self, k, v):
        self.d.setdefault(k, []).append(v)

    # identity of stored records
    def n0(self, t):
        ident = self.ident

        def f(x):
            return None
        r = self.memo.get(t)
        if r is not None:
            return r
        if not ident:
            return t
        r = tmap2(lambda x: identify((ident, self.eqf), x), t)
        self.memo[t] = r
        return r

    def find(self, t):
        while t in self.parent:
            t = self.parent[t]
        return t

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a is b:
            return
        # prefer the simplest/oldest term as the representative; constants win
        if rank(a) < rank(b):
            a, b = b, a
        self.parent[a] = b

    def norm(self, t):
        t = self.n0(t)
        if not self.parent:
            return t
        r = self.memo2.get(t)
        if r is None:
            r = tmap2(lambda x: self.find(x), t)
            self.memo2[t] = r
        return r

    def same(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return True
        if a.k in ("adt", "tup") or b.k in ("adt", "tup"):
            r = self.samestruct(a, b)
            if r is not None:
                return r
        if lin_eq(a, b):
            return True
        return self.rel(a, b) == frozenset("=")

    def samestruct(self, a, b):
        if b.k == "adt" and a.k != "adt":
            a, b = b, a
        if a.k == "adt" and b.k == "adt":
            if a.a[1] != b.a[1]:
                return False
            fs = set(f for f, _ in a.a[2]) | set(f for f, _ in b.a[2])
            return all(self.same(fld(a, f), fld(b, f)) for f in fs)
        if a.k == "adt":
            short = a.a[0].split("::")[-1]
            if short != a.a[1] and self.variant(b, a.a[1]) is not True:
                return False
            bb = as_(b, a.a[1]) if short != a.a[1] else b
            return all(self.same(v, fld(bb, f)) for f, v in a.a[2])
        if a.k == "tup" and b.k == "tup":
            return len(a.a) == len(b.a) and all(self.same(x, y) for x, y in zip(a.a, b.a))
        if a.k == "tup" or b.k == "tup":
            if b.k == "tup":
                a, b = b, a
            return all(self.same(x, fld(b, str(i))) for i, x in enumerate(a.a))
        return None

    def contradictory(self):
        """correlated fields of a record that the path takes to be set differently"""
        for k, vs in self.d.items():
            if len(vs) > 1:
                is_ = set(v[1] for v in vs if v[0] == "is")
                if len(is_) > 1 or any(v[0] == "not" and is_ & set(v[1]) for v in vs):
                    return True
        return False

    def variant(self, t, v):
        t = self.norm(t)
        if t.k == "adt":
            return t.a[1] == v
        if t.k == "stored" and v == "Some":
            return None
        r = None
        for f in self.d.get(t, ()):
            if f[0] == "is":
                return f[1] == v
            if v in f[1]:
                return False
            if len(f[1]) == 1 and v in ("Some", "None", "Ok", "Err"):
                return True
        return r

    def addo(self, a, b, s):
        key, sg = canon(a, b)
        if key is None:
            return
        s = flip(s) if sg < 0 else s
        self.o[key] = self.o.get(key, ALLORD) & s

    def rel(self, a, b):
        """possible orderings of a relative to b"""
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return frozenset("=")
        key, sg = canon(a, b)
        if key is None:
            # constant difference
            la = linear(a)
            lb = linear(b)
            c = la.get(None, 0) - lb.get(None, 0)
            return frozenset("<" if c < 0 else ">" if c > 0 else "=")
        s = self.o.get(key, ALLORD)
        # everything here is unsigned: the zero bound
        if b.k == "int" and b.a[0] == 0:
            s = s - (frozenset("<") if sg > 0 else frozenset(">"))
        if a.k == "int" and a.a[0] == 0:
            s = s - (frozenset(">") if sg > 0 else frozenset("<"))
        if s == ALLORD:
            s = self.derived(key)
        return flip(s) if sg < 0 else s

    def derived(self, key):
        """one transitive step: the difference as the sum of two known differences"""
        want = dict(key)
        best = ALLORD
        for k1, s1 in self.o.items():
            if s1 == ALLORD:
                continue
            d1 = dict(k1)
            for sg1 in (1, -1):
                rest = dict(want)
                for k, v in d1.items():
                    rest[k] = rest.get(k, 0) - sg1 * v
                rest = {k: v for k, v in rest.items() if v}
                ss1 = s1 if sg1 > 0 else flip(s1)
                if not rest:
                    ss2 = frozenset("=")
                elif set(rest) == {None}:
                    ss2 = frozenset("<" if rest[None] < 0 else ">")
                else:
                    k2, sg2 = canonl(rest)
                    ss2 = self.o.get(k2)
                    if ss2 is None:
                        # a sum of unsigned atoms, all with the same sign
                        if all(v > 0 for v in rest.values()):
                            ss2 = frozenset("=>")
                        elif all(v < 0 for v in rest.values()):
                            ss2 = frozenset("<=")
                        else:
                            continue
                    elif sg2 < 0:
                        ss2 = flip(ss2)
                best = best & addsets(ss1, ss2)
        return best

    def truth(self, t):
        t = self.norm(t)
        if t.k == "bool":
            return t.a[0]
        if t.k == "not":
            r = self.truth(t.a[0])
            return None if r is None else not r
        if t.k in ("and", "or"):
            rs = [self.truth(x) for x in t.a]
            stop = t.k == "or"
            if stop in rs:
                return stop
            return None if None in rs else not stop
        if t.k == "cmp":
            op, a, b = t.a
            if op == "==" and self.same(a, b):
                return True
            s = self.rel(a, b)
            want = frozenset({"==": "=", "<": "<", "<=": "<="}[op])
            if s <= want:
                return True
            if not s & want:
                return False
            return None
        if t.k == "isvar":
            return self.variant(t.a[0], t.a[1])
        return self.b.get(t)


def addsets(a, b):
    out = set()
    for x in a:
        for y in b:
            if x == "=":
                out.add(y)
            elif y == "=" or x == y:
                out.add(x)
            else:
                return ALLORD
    return frozenset(out)


def rank(t):
    """terms with a smaller rank represent their equivalence class"""
    k = 0 if t.k in ("int", "str", "adt", "bool") else 1 if t.k == "arg" or t.k == "fld" and contains(t, lambda x: x.k == "arg") and not contains(t, lambda x: x.k == "stored") else 2
    n = sum(1 for _ in subterms(t))
    return (k, n, show(t))


_canon = {}


def canonl(l):
    """canonical key of a linear difference and its sign"""
    items = sorted(l.items(), key=lambda kv: (-1 if kv[0] is None else kv[0].id))
    first = [v for k, v in items if k is not None][0]
    if first < 0:
        return tuple((k, -v) for k, v in items), -1
    return tuple(items), 1


def canon(a, b):
    r = _canon.get((a, b))
    if r is None:
        l = dict(linear(a))
        for k, v in linear(b).items():
            l[k] = l.get(k, 0) - v
        l = {k: v for k, v in l.items() if v}
        if not [k for k in l if k is not None]:
            r = (None, 1)
        else:
            r = canonl(l)
        _canon[(a, b)] = r
    return r


_idmemo = {}


def identify(ident, x):
    if type(ident) is tuple:
        ident, eq = ident
        if eq and len(eq) == 2:
            r = storage.known_field(eq[0], eq[1], x)
            if r is not None:
                return r
        elif eq and x.k == "fld" and x.a[1] == eq[1][-1]:
            t, path = x, list(eq[1])
            while path and t.k in ("fld", "as") and t.a[1] == path[-1]:
                t = t.a[0]
                path.pop()
            if not path and is_record(t, eq[0]):
                r = t
                for f in eq[2]:
                    r = fld(r, f)
                return r
    if x.k == "fld" and x.a[0].k == "stored":
        s = x.a[0]
        fs = ident.get(s.a[0].a[0]) if s.a[0].k == "str" else None
        if fs and x.a[1] in fs:
            if len(fs) == 1:
                return s.a[1]
            return fld(s.a[1], str(fs.index(x.a[1])))
    return None


def tmap2(f, t):
    """bottom-up rewriting to a fixpoint at each node"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        na = tuple(goa(x) for x in t.a)
        r = t if na == t.a else renorm(t.k, na)
        n = 0
        while n < 5:
            r2 = f(r)
            if r2 is None or r2 is r:
                break
            r = r2
            n += 1
        memo[t] = r
        return r

    def goa(x):
        if type(x) is T:
            return go(x)
        if type(x) is tuple:
            return tuple(goa(y) for y in x)
        return x

    return go(t)


# ---------------------------------------------------------------- flattening
def expand_items(e, st, items, sel):
    """[(state, items)] with summarised callees' alternatives chosen"""
    out = [(st, [], dict(sel))]
    for it in items:
        nxt = []
        for s, acc, sl in out:
            if it[0] != "c":
                nxt.append((s, acc + [it], sl))
                continue
            for i, (facts, its) in enumerate(it[2]):
                if it[1] in sl and sl[it[1]] != i:
                    continue
                s2 = s.copy()
                if not models.add_facts(e, s2, facts):
                    continue
                sl2 = dict(sl)
                sl2[it[1]] = i
                for s3, its2, sl3 in expand_items(e, s2, its, sl2):
                    nxt.append((s3, acc + its2, sl3))
        out = nxt
    return out


def expand_effs(e, st, effs, sel):
    out = [(st, [], dict(sel))]
    for ef in effs:
        if ef[0] != "choice":
            for s, acc, sl in out:
                acc.append(ef)
            continue
        nxt = []
        for s, acc, sl in out:
            for i, (facts, effs2) in enumerate(ef[2]):
                if ef[1] in sl and sl[ef[1]] != i:
                    continue
                s2 = s.copy()
                if not models.add_facts(e, s2, facts):
                    continue
                sl2 = dict(sl)
                sl2[ef[1]] = i
                for s3, effs3, sl3 in expand_effs(e, s2, effs2, sl2):
                    nxt.append((s3, acc + effs3, sl3))
        out = nxt
    return out


def build(e, unit, st, ok_, effs, items, ret, depth=0):
    """paths for one outcome (state, effects, message items)"""
    out = []
    for s, its, sel in expand_items(e, st, items, {}):
        for s2, efs, sel2 in expand_effs(e, s, effs, sel):
            p = Path(unit, s2, ok_, [x for x in efs if x[0] != "loop"], [x for x in its if x[0] != "m"], ret)
            p.seq = efs
            p.allitems = its
            # generic iterations
            lids = []
            for x in efs:
                if x[0] == "loop" and x[1] not in lids:
                    lids.append(x[1])
            for x in its:
                if x[0] == "m" and x[1] not in lids:
                    lids.append(x[1])
            for lid in lids:
                le = [x for x in efs if x[0] == "loop" and x[1] == lid]
                li = [x for x in its if x[0] == "m" and x[1] == lid]
                n = len(le[0][2]) if le else len(li[0][2])
                subs = []
                for i in range(n):
                    facts = (le[0] if le else li[0])[2][i][0]
                    s3 = s2.copy()
                    if not models.add_facts(e, s3, facts):
                        continue
                    se = [y for x in le for y in x[2][i][1]]
                    si = [y for x in li for y in x[2][i][1]]
                    for q in build(e, unit, s3, ok_, se, si, ret, depth + 1):
                        q.parent = p
                        q.loop = lid
                        subs.append(q)
                p.subs.append((lid, subs))
            out.append(p)
    return out


class Unit:
    """one entry point (and message variant) of one contract"""

    def __init__(self, crate, entry, variant, argty=None):
        self.crate, self.entry, self.variant = crate, entry, variant
        self.ident = IDENTS.get(crate, {})

    @property
    def name(self):
        return "%s::%s%s" % (self.crate, self.entry, "(%s)" % self.variant if self.variant else "")

    def __repr__(self):
        return self.name


def argnames(f):
    names = {}
    for n, pl in f.body["names"]:
        if len(pl) == 1 and 1 <= pl[0] <= f.body["argc"]:
            names[pl[0]] = n
    return [names.get(i + 1, "a%d" % i).lstrip("_") for i in range(f.body["argc"])]


def analyse(e, unit, fn):
    """[Path] of an entry point; arguments are canonically named by position"""
    unit.engine = e
    names = unit.argnames
    args = [arg(n) for n in names]

    def pre(e, st):
        if unit.variant:
            st.d[arg("msg")] = ("is", unit.variant)

    out = []
    for st, v in e.entry(fn, args, pre):
        if v.k == "adt" and v.a[1] == "Err":
            out.append(Path(unit, st, False, list(st.eff), [], fld(v, "0")))
            continue
        if v.k != "adt" or v.a[1] != "Ok":
            # the outcome of an unmodelled fallible call is returned as is
            out.append(Path(unit, st, None, list(st.eff), [], v))
            continue
        r = fld(v, "0")
        items = ()
        if r.k == "adt" and r.a[1] == "Response":
            m = fld(r, "messages")
            items = m.a[0] if m.k == "list" else (("s", m),)
        out += build(e, unit, st, True, st.eff, items, r)
    if unit.crate in TOGETHER or unit.crate in HASHED:
        out = [p for p in out if not p.facts().contradictory()]
        for p in out:
            prune(p)
    return out


def prune(p):
    for i, (lid, subs) in enumerate(p.subs):
        subs = [q for q in subs if not q.facts().contradictory()]
        p.subs[i] = (lid, subs)
        for q in subs:
            prune(q)
