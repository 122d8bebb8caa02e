"""Interprocedural, path-sensitive dataflow over the MIR dump.

State = (places -> provenance terms, facts implied by the branches taken, effects so far).
Workspace functions and closures are analysed in the context of their caller (so extracting or
inlining a helper does not change the result); library calls are modelled by the tables below or
left uninterpreted.  Loops over literal collections are followed element by element; every other
loop is summarised: what changes in it is found by an optimistic inductive fixpoint, one generic
iteration is recorded, and the state after it only keeps what every iteration preserves.
No solver is involved: branches are pruned only when a syntactically identical (normalised)
condition was already decided on the path."""
import glob, json, os, re, sys
from terms import *

sys.setrecursionlimit(100000)


FNS = {}


class Unsupported(Exception):
    pass


ALLORD = frozenset("<=>")


class St:
    __slots__ = ("mem", "d", "o", "b", "eff", "nf", "stack", "loops")

    def __init__(self):
        self.mem, self.d, self.o, self.b = {}, {}, {}, {}
        self.eff = ()
        self.nf = 0
        self.stack = ()
        self.loops = {}

    def copy(self):
        s = St.__new__(St)
        s.mem, s.d, s.o, s.b = dict(self.mem), dict(self.d), dict(self.o), dict(self.b)
        s.eff, s.nf, s.stack = self.eff, self.nf, self.stack
        s.loops = self.loops
        return s


def strip_generics(n):
    out, depth, i = [], 0, 0
    while i < len(n):
        c = n[i]
        if c == "<":
            depth += 1
        elif c == ">" and n[i - 1] != "-":
            depth -= 1
            i += 1
            continue
        if depth == 0:
            out.append(c)
        i += 1
    s = "".join(out)
    while "::::" in s:
        s = s.replace("::::", "::")
    return s.strip(":")


class Fn:
    def __init__(self, j, crate, cid):
        self.j = j
        self.id = tuple(j["id"])
        self.name = j["name"]
        self.crate = crate
        self.full = crate + "::" + j["name"]
        self.body = j["body"]
        self.promoted = j["promoted"]
        self.span = j["span"]
        self._prep = {}

    def ret(self):
        return self.body["locals"][0]

    def pure(self):
        """no argument through which the function could change anything"""
        if not hasattr(self, "_pure"):
            self._pure = not any("&mut" in t or "&'a mut" in t or "Mut" in t or re.search(r"&'?\w* ?mut ", t)
                                 for t in (str(l[0]) for l in self.body["locals"][1:self.body["argc"] + 1]))
        return self._pure


class Program:
    def __init__(self, d):
        self.fns, self.adts, self.crates = {}, {}, {}
        self.byname = {}
        self.external = set()
        self.wire = {}
        for f in sorted(glob.glob(os.path.join(d, "*.json"))):
            j = json.load(open(f))
            ext = os.path.basename(f).startswith("ext-")
            cn = j["crate"] + ("@registry" if ext else "")
            self.crates[cn] = j["crate_id"]
            for fj in j["fns"]:
                fn = Fn(fj, cn, j["crate_id"])
                self.fns[fn.id] = fn
                self.byname.setdefault(fn.full, fn)
                if ext:
                    self.external.add(fn.id)
            for a in j["adts"]:
                self.adts[cn + "::" + a["name"]] = a
            for w in j.get("wire", ()):
                if isinstance(w["of"][1], str):
                    self.wire.setdefault(cn + "::" + w["of"][1], []).append(w)
        for fn in self.fns.values():
            prep(fn, fn.body)

    def find(self, crate, path):
        return self.byname.get(crate + "::" + path)


def prep(fn, body):
    bl = body["blocks"]
    succ = []
    for b in bl:
        t = b["t"]
        k = t["k"]
        if b["c"]:
            s = []
        elif k == "goto" or k == "assert":
            s = [t["t"]]
        elif k == "switch":
            s = [x for _, x in t["ts"]] + [t["e"]]
        elif k == "call":
            s = [t["t"]] if t["t"] is not None else []
        else:
            s = []
        succ.append(s)
    # dominators over reachable blocks
    order, seen = [], set()

    def dfs(r):
        st = [(r, iter(succ[r]))]
        seen.add(r)
        while st:
            n, it = st[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    st.append((m, iter(succ[m])))
                    break
            else:
                order.append(n)
                st.pop()

    dfs(0)
    rpo = order[::-1]
    idx = {n: i for i, n in enumerate(rpo)}
    pred = {n: [] for n in rpo}
    for n in rpo:
        for m in succ[n]:
            pred[m].append(n)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for n in rpo[1:]:
            ps = [p for p in pred[n] if p in idom]
            x = ps[0]
            for p in ps[1:]:
                a, b = x, p
                while a != b:
                    while idx[a] > idx[b]:
                        a = idom[a]
                    while idx[b] > idx[a]:
                        b = idom[b]
                x = a
            if idom.get(n) != x:
                idom[n] = x
                ch = True

    def dom(a, b):
        while b != a:
            if b == 0:
                return False
            b = idom[b]
        return True

    loops = {}
    for n in rpo:
        for m in succ[n]:
            if dom(m, n):
                body_ = loops.setdefault(m, {m})
                w = [n]
                while w:
                    x = w.pop()
                    if x not in body_:
                        body_.add(x)
                        w.extend(pred[x])
            elif idx[m] <= idx[n]:
                raise Unsupported("irreducible flow graph in %s" % fn.name)
    body["loops"] = loops
    # locals assigned or mutably borrowed inside each loop
    mods = {}
    for h, bs in loops.items():
        ms, used = set(), set()
        for x in bs:
            for s in bl[x]["s"]:
                ms.add(s["d"][0])
                used.add(s["d"][0])
                r = s.get("r")
                if r:
                    if r["k"] == "ref" and r["m"]:
                        ms.add(r["p"][0])
                    collect_locals(r, used)
            t = bl[x]["t"]
            if t["k"] == "call":
                ms.add(t["d"][0])
                for a in t["a"]:
                    collect_locals(a, used)
        mods[h] = (ms, used)
    body["mods"] = mods
    body["inloop"] = set(x for bs in loops.values() for x in bs)


def collect_locals(j, out):
    if isinstance(j, dict):
        p = j.get("p")
        if isinstance(p, list) and p and isinstance(p[0], int):
            out.add(p[0])
        for k, v in j.items():
            if k in ("o", "a", "b") or k == "os":
                collect_locals(v, out)
    elif isinstance(j, list):
        for x in j:
            collect_locals(x, out)


def not_(t):
    if t.k == "bool":
        return FALSE if t.a[0] else TRUE
    if t.k == "not":
        return t.a[0]
    return mk("not", t)


def cmp_(op, a, b):
    """normalised comparison"""
    if op == "!=":
        return not_(cmp_("==", a, b))
    if op == ">":
        return cmp_("<", b, a)
    if op == ">=":
        return cmp_("<=", b, a)
    if a is b:
        return FALSE if op == "<" else TRUE
    if a.k == b.k == "int" or a.k == b.k == "str" or a.k == b.k == "bool":
        x, y = a.a[0], b.a[0]
        return {"==": x == y, "<": x < y, "<=": x <= y}[op] and TRUE or FALSE
    if op == "==" and b.k == "bool":
        return a if b.a[0] else not_(a)
    if op == "==" and a.k == "bool":
        return b if a.a[0] else not_(b)
    if op == "==" and a.id > b.id:
        a, b = b, a
    return mk("cmp", op, a, b)


FLAGS = ("isvar", "not", "and", "or", "cmp")


def whole(k, vs):
    """the values together, as one value of a fact of kind k: "all" if they exclude nothing, None if no one value says it"""
    if k == "b":
        return "all" if len(vs) == 2 else None
    if k == "o":
        u = frozenset().union(*vs)
        return "all" if len(u) == 3 else u if len(vs) > 1 else None
    names = frozenset(v[1] for v in vs if v[0] == "is")
    nots = [v[1] for v in vs if v[0] == "not"]
    if names in (frozenset(("Some", "None")), frozenset(("Ok", "Err"))):
        return "all"
    if nots and names:
        rest = frozenset.intersection(*nots) - names
        return ("not", rest) if rest else "all"
    return None


def joined(errs):
    """refusals (facts, error) with those that differ in one fact only put together: exactly the same cases"""
    work = [(frozenset(f), x) for f, x in errs]
    seen = dict.fromkeys(work)
    changed = True
    while changed:
        changed = False
        groups = {}
        for w in seen:
            hs = [hash(q) for q in w[0]]
            t = sum(hs)
            for q, h in zip(w[0], hs):
                groups.setdefault((w[1], len(hs), t - h, q[0], q[1]), []).append((w, q))
        for g, ws in groups.items():
            if len(ws) < 2:
                continue
            by = {}
            for w, q in ws:
                if w in seen:
                    by.setdefault(w[0] - {q}, []).append((w, q))
            for rest, l in by.items():
                if len(l) < 2:
                    continue
                v = whole(g[3], set(q[2] for w, q in l))
                if v is None:
                    continue
                for w, q in l:
                    seen.pop(w, None)
                seen[(rest if v == "all" else rest | {(g[3], g[4], v)}), g[0]] = None
                changed = True
    return [(tuple(sorted(f, key=lambda q: FKIND[q[0]])), x) for f, x in seen]


FKIND = {"d": 0, "o": 1, "b": 2}


class Engine:
    def __init__(self, prog):
        self.p = prog
        self.stats = {"functions": set(), "calls": 0, "opaque": {}, "paths": 0, "loops": 0, "panics": 0, "blocks": 0}
        self.constcache = {}
        self.heap = 0
        self.loopn = 0
        self.noinline = set()
        self.budget = 3_000_000
        self.event_ok = True
        self.keep_refusals = False  # keep every refusing outcome of a summarised function apart
        self.traps = []
        self.froms = None
        self.printed = set()
        self.impls = {}
        self.heavy, self.heavy_at, self.summaries = set(), 24, {}

    # ---------------------------------------------------------------- facts
    def is_variant(self, st, t, v, vs=None):
        """True/False/None"""
        if t.k == "adt":
            return t.a[1] == v
        f = st.d.get(t)
        if f:
            if f[0] == "is":
                return f[1] == v
            if v in f[1]:
                return False
            if vs and all(x in f[1] for x in vs if x != v):
                return True
        return None

    def assume_variant(self, st, t, v, vs=None):
        r = self.is_variant(st, t, v, vs)
        if r is not None:
            return r
        st.d[t] = ("is", v)
        return True

    def assume_not_variant(self, st, t, v, vs=None):
        r = self.is_variant(st, t, v, vs)
        if r is not None:
            return not r
        f = st.d.get(t)
        ex = (f[1] if f else frozenset()) | {v}
        if vs:
            left = [x for x in vs if x not in ex]
            if len(left) == 1:
                st.d[t] = ("is", left[0])
                return True
        st.d[t] = ("not", ex)
        return True

    def split_variant(self, st, t, v, vs=None):
        """[(state, True)] for t being variant v, [(state, False)] otherwise"""
        r = self.is_variant(st, t, v, vs)
        if r is not None:
            return [(st, r)]
        s2 = st.copy()
        out = []
        if self.assume_variant(st, t, v, vs):
            out.append((st, True))
        if self.assume_not_variant(s2, t, v, vs):
            out.append((s2, False))
        return out

    def ordset(self, st, a, b):
        """possible orderings of (a, b)"""
        if a is b:
            return frozenset("=")
        if a.id <= b.id:
            s = st.o.get((a, b))
            flip = False
        else:
            s = st.o.get((b, a))
            flip = True
        if s is None:
            s = ALLORD
        elif flip:
            s = frozenset({"<": ">", ">": "<", "=": "="}[c] for c in s)
        if b.k == "int" and b.a[0] == 0:
            s = s - {"<"}
        if a.k == "int" and a.a[0] == 0:
            s = s - {">"}
        return s

    def setord(self, st, a, b, s):
        if a.id > b.id:
            a, b = b, a
            s = frozenset({"<": ">", ">": "<", "=": "="}[c] for c in s)
        st.o[(a, b)] = frozenset(s)

    def branch(self, st, t):
        """split on boolean term -> [(state, bool)]"""
        k = t.k
        if k == "bool":
            return [(st, t.a[0])]
        if k == "not":
            return [(s, not v) for s, v in self.branch(st, t.a[0])]
        if k == "and" or k == "or":
            out = []
            stop = k == "or"
            work = [(st, 0)]
            xs = t.a
            while work:
                s, i = work.pop()
                if i == len(xs):
                    out.append((s, not stop))
                    continue
                for s2, v in self.branch(s, xs[i]):
                    if v == stop:
                        out.append((s2, stop))
                    else:
                        work.append((s2, i + 1))
            return out
        if k == "isvar":
            return self.split_variant(st, t.a[0], t.a[1], t.a[2])
        if k == "cmp":
            op, a, b = t.a
            if op == "==":
                r = self.eq_struct(st, a, b)
                if r is not None:
                    return r
                if a.k in FLAGS or b.k in FLAGS:
                    # two flags: split on each
                    return [(s3, v1 == v2) for s2, v1 in self.branch(st, a) for s3, v2 in self.branch(s2, b)]
            want = {"==": "=", "<": "<", "<=": "<="}[op]
            cur = self.ordset(st, a, b)
            yes = cur & frozenset(want)
            no = cur - frozenset(want)
            if not no:
                return [(st, True)]
            if not yes:
                return [(st, False)]
            s2 = st.copy()
            self.setord(st, a, b, yes)
            self.setord(s2, a, b, no)
            return [(st, True), (s2, False)]
        v = st.b.get(t)
        if v is not None:
            return [(st, v)]
        s2 = st.copy()
        st.b[t] = True
        s2.b[t] = False
        return [(st, True), (s2, False)]

    ENUMISH = ("Option", "Result")

    def eq_struct(self, st, a, b):
        """structural equality when one side is a known constructor; None if not applicable"""
        if b.k == "adt" and a.k != "adt":
            a, b = b, a
        if a.k == "adt":
            pairs = []
            if b.k == "adt":
                if a.a[1] != b.a[1]:
                    return [(st, False)]
                pairs = [(v, fld(b, f)) for f, v in a.a[2]]
                return self.conj(st, pairs)
            short = a.a[0].split("::")[-1]
            if short == a.a[1]:
                # struct against symbolic: fieldwise
                if not a.a[2]:
                    return None
                return self.conj(st, [(v, fld(b, f)) for f, v in a.a[2]])
            out = []
            for s, y in self.split_variant(st, b, a.a[1], self.variants_of(a.a[0])):
                if not y:
                    out.append((s, False))
                else:
                    bb = as_(b, a.a[1])
                    out.extend(self.conj(s, [(v, fld(bb, f)) for f, v in a.a[2]]))
            return out
        if a.k == "tup" and b.k == "tup" and len(a.a) == len(b.a):
            return self.conj(st, list(zip(a.a, b.a)))
        return None

    def variants_of(self, name):
        short = name.split("::")[-1]
        if short == "Option":
            return ("None", "Some")
        if short == "Result":
            return ("Ok", "Err")
        for n, a in self.p.adts.items():
            if a["enum"] and (n == name or n.endswith("::" + name)):
                return tuple(v["n"] for v in a["vs"])
        return None

    def conj(self, st, pairs):
        out = []
        work = [(st, 0)]
        while work:
            s, i = work.pop()
            if i == len(pairs):
                out.append((s, True))
                continue
            for s2, v in self.branch(s, cmp_("==", *pairs[i])):
                if v:
                    work.append((s2, i + 1))
                else:
                    out.append((s2, False))
        return out

    # ---------------------------------------------------------------- memory
    def deref(self, st, v):
        while v.k == "ref":
            v = self.read_at(st, v)
        return v

    def read_at(self, st, r):
        v = st.mem.get((r.a[0], r.a[1]), UNDEF)
        for p in r.a[2]:
            if v.k == "ref":
                v = self.deref(st, v)
            v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        if p[0] == "f":
            if v.k == "ref":
                return v
            return fld(v, p[1])
        if p[0] == "v":
            return as_(v, p[1])
        if p[0] == "i":
            return self.index(v, p[1])
        return mk("call", "subslice", (v,))

    def index(self, v, i):
        if concrete(v) and i.k == "int" and i.a[0] < len(v.a[0]):
            return v.a[0][i.a[0]][1]
        if concrete(v) and i.k == "int" and i.a[0] < 0 and -i.a[0] <= len(v.a[0]):
            return v.a[0][i.a[0]][1]
        return mk("call", "index", (v, i))

    def deep(self, st, t):
        """replace references to places by the values held there"""
        if not t.ref:
            return t
        n = 0
        while t.ref and n < 20:
            n += 1
            t = tmap(lambda x: self.read_at(st, x) if x.k == "ref" else (x if not x.ref else None), t)
        return t

    def resolve(self, st, fr, p):
        """place -> ('loc', (frame, local), projs) or ('val', term)"""
        loc, projs, val = (fr, p[0]), (), None
        for e in p[1:]:
            if e == "*":
                v = val if val is not None else self.read_loc(st, loc, projs)
                if v.k == "ref":
                    loc, projs, val = (v.a[0], v.a[1]), v.a[2], None
                elif val is None and not self.owned(v):
                    # symbolic pointer: its target is denoted by the same term
                    val = v
                continue
            if e[0] == "i":
                e2 = ("i", self.read_loc(st, (fr, e[1]), ()))
            elif e[0] == "ci":
                e2 = ("i", I(-e[1] if e[2] else e[1]))
            elif e[0] == "ss":
                e2 = ("ss",)
            elif e == "?":
                e2 = ("ss",)
            else:
                e2 = (e[0], e[1])
            if val is not None:
                val = self.proj(st, val, e2)
                if val.k == "ref":
                    pass
            else:
                v = self.read_loc(st, loc, projs)
                if v.k == "ref" and e2[0] == "f":
                    # field of a box pointer: transparent
                    continue
                projs = projs + (e2,)
        if val is not None:
            return ("val", val)
        return ("loc", loc, projs)

    def owned(self, v):
        """values that live in the place itself although reached through a deref (Box contents,
        structures handed in by value to an inlined function)"""
        return v.k in ("adt", "tup", "list", "upd", "undef", "clo", "iter")

    def read_loc(self, st, loc, projs):
        v = st.mem.get(loc, UNDEF)
        for p in projs:
            if v.k == "ref":
                if p[0] == "f":
                    continue
                v = self.deref(st, v)
            v = self.proj(st, v, p)
        return v

    def read(self, st, fr, p):
        if len(p) == 1:
            return st.mem.get((fr, p[0]), UNDEF)
        r = self.resolve(st, fr, p)
        return r[1] if r[0] == "val" else self.read_loc(st, r[1], r[2])

    def write(self, st, fr, p, val):
        if len(p) == 1:
            st.mem[(fr, p[0])] = val
            return
        r = self.resolve(st, fr, p)
        if r[0] == "val":
            st.eff += (("lost", self.deep(st, r[1]), self.deep(st, val), st.stack[-1] if st.stack else ""),)
            return
        self.write_loc(st, r[1], r[2], val)

    def write_loc(self, st, loc, projs, val):
        if loc[0] == "heap":
            projs = tuple(q for q in projs if not (q[0] == "f" and q[1] in ("value", "uninit", "0", "1", "pointer")))
        if not projs:
            st.mem[loc] = val
            return
        if any(q[0] in ("i", "ss") for q in projs):
            # element write: replace the prefix before the index
            i = next(j for j, q in enumerate(projs) if q[0] in ("i", "ss"))
            base = self.read_loc(st, loc, projs[:i])
            if projs[i][0] == "i" and concrete(base) and projs[i][1].k == "int" and i == len(projs) - 1:
                its = list(base.a[0])
                its[projs[i][1].a[0]] = ("i", val)
                nv = lst(its)
            else:
                nv = mk("call", "write-elem", (base, val))
            self.write_loc(st, loc, projs[:i], nv)
            return
        base = st.mem.get(loc, UNDEF)
        st.mem[loc] = upd(base, projs, val)

    # ---------------------------------------------------------------- operands
    def operand(self, st, fn, fr, o):
        k = o["k"]
        if k == "copy" or k == "move":
            return self.read(st, fr, o["p"])
        if k == "fn":
            t = o.get("_t")
            if t is None:
                t = o["_t"] = mk("fn", json.dumps(o, sort_keys=True))
                FNS[t] = o
            return t
        if k == "const":
            return self.const(st, fn, fr, o)
        return mk("opaque", "operand")

    def const(self, st, fn, fr, o):
        if "promoted" in o:
            key = (tuple(o["id"]), o["promoted"])
            v = self.constcache.get(key)
            if v is None:
                f = self.p.fns.get(tuple(o["id"]), fn)
                b = f.promoted[o["promoted"]]
                if "loops" not in b:
                    prep(f, b)
                outs = self.run_body(St(), f, b, [])
                v = mk("opaque", "promoted")
                if len(outs) == 1:
                    v = self.deep(outs[0][0], outs[0][1])
                self.constcache[key] = v
            return v
        if "bool" in o:
            return TRUE if o["bool"] else FALSE
        if "int" in o:
            return I(o["int"])
        if "char" in o:
            return S(o["char"])
        if "variant" in o:
            return mk("adt", o.get("adt", "?"), o["variant"], ())
        if "str" in o:
            return S(o["str"])
        if "closure" in o:
            return mk("clo", tuple(o["closure"]), ())
        if "id" in o:
            key = tuple(o["id"])
            f = self.p.fns.get(key)
            if f is not None:
                v = self.constcache.get(key)
                if v is None:
                    outs = self.run_body(St(), f, f.body, [])
                    v = mk("const", f.full)
                    if len(outs) == 1:
                        v = self.deep(outs[0][0], outs[0][1])
                    self.constcache[key] = v
                return v
            return mk("const", o["name"])
        if o.get("zst"):
            if o["ty"] == "()":
                return UNIT
            if "adt" in o:
                n = o["adt"]
                return mk("adt", n, n.split("::")[-1], ())
            return mk("const", o["ty"])
        if "bits" in o:
            return I(o["bits"])
        return mk("const", o["ty"])

    def rvalue(self, st, fn, fr, r):
        k = r["k"]
        op = lambda o: self.operand(st, fn, fr, o)
        if k == "use":
            return op(r["o"])
        if k == "ref":
            x = self.resolve(st, fr, r["p"])
            if x[0] == "val":
                return x[1]
            return mk("ref", x[1][0], x[1][1], x[2], bool(r["m"]))
        if k == "cast":
            return op(r["o"])
        if k == "bin":
            return self.binary(r["op"], self.deref(st, op(r["a"])), self.deref(st, op(r["b"])))
        if k == "un":
            v = op(r["o"])
            if r["op"] == "Not":
                return not_(v)
            if r["op"] == "PtrMetadata":
                return self.len_(self.deep(st, v))
            return mk("call", r["op"], (v,))
        if k == "discr":
            v = self.deref(st, self.read(st, fr, r["p"]))
            vs = tuple((n, d) for n, d in r["vs"]) if r["vs"] else ()
            return mk("discr", v, vs)
        if k == "adt":
            fs = [(n, op(o)) for n, o in zip(r["fs"], r["os"])]
            return self.construct(st, r["adt"], r["v"], fs)
        if k == "tuple":
            return tup(*[op(o) for o in r["os"]])
        if k == "array":
            return lst([("i", op(o)) for o in r["os"]])
        if k == "closure":
            return mk("clo", tuple(r["id"]), tuple(op(o) for o in r["os"]))
        if k == "repeat":
            return mk("call", "repeat", (op(r["o"]),))
        return mk("opaque", "rvalue:" + r.get("d", k)[:40])

    TRANSPARENT = {("CosmosMsg", "Bank"), ("CosmosMsg", "Wasm"), ("QueryRequest", "Wasm")}

    def construct(self, st, name, variant, fs):
        short = name.split("::")[-1]
        if (short, variant) in self.TRANSPARENT:
            return fs[0][1]
        if short == "SubMsg":
            d = dict(fs)
            ro = self.deref(st, d.get("reply_on", UNDEF))
            return mk("submsg", d.get("msg", UNDEF), ro.a[1] if ro.k == "adt" else "?", d.get("id", I(0)))
        if short in ("Option", "Result", "ControlFlow"):
            name = short
        if short in ("IndexedMap",):
            name = short
        return adtl(name, variant, fs)

    BINOPS = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem",
              "AddUnchecked": "add", "SubUnchecked": "sub", "MulUnchecked": "mul"}

    def binary(self, op, a, b):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return cmp_({"Eq": "==", "Ne": "!=", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">="}[op], a, b)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            # sums and products of amounts are taken not to exceed their types; differences are checked
            r = binop(op[:3].lower(), a, b)
            return tup(r, cmp_("<", a, b) if op[0] == "S" and r.k != "int" else FALSE)
        if op in self.BINOPS:
            return binop(self.BINOPS[op], a, b)
        if op in ("BitAnd", "BitOr"):
            if a.k == "bool" or b.k == "bool":
                x, y = (a, b) if a.k == "bool" else (b, a)
                if op == "BitAnd":
                    return y if x.a[0] else FALSE
                return TRUE if x.a[0] else y
            if a.k in ("cmp", "not", "any", "isvar"):
                return mk("and" if op == "BitAnd" else "or", a, b)
        return mk("call", op, (a, b))

    def len_(self, l):
        if concrete(l):
            return I(len(l.a[0]))
        return mk("call", "len", (l,))

    # ---------------------------------------------------------------- control
    def run_body(self, st, fn, body, args):
        """[(state, return value)]"""
        self.stats["functions"].add(fn.id)
        st.nf += 1
        fr = st.nf
        # frame numbers must be unique along a path, including sibling branches
        for i, a in enumerate(args):
            st.mem[(fr, i + 1)] = a
        st.stack += (fn.full,)
        rets, backs, exits = self.explore(st, fn, body, fr, 0, None, None)
        out = []
        for s, v in rets:
            s.stack = s.stack[:-1]
            if v.ref:
                v = self.fixrefs(s, fr, v)
            for k in [k for k in s.mem if k[0] == fr]:
                del s.mem[k]
            out.append((s, v))
        return out

    def fixrefs(self, st, fr, v):
        """a returned value may only refer to places that outlive the frame"""
        def f(x):
            if x.k == "ref" and x.a[0] == fr:
                return self.fixrefs(st, fr, self.read_at(st, x))
            return x if not x.ref else None
        return tmap(f, v)

    def explore(self, st, fn, body, fr, b0, region, header):
        rets, backs, exits = [], [], []
        work = [(st, b0, True)]
        loops = body["loops"]
        blocks = body["blocks"]
        while work:
            st, b, first = work.pop()
            if region is not None and not (first and b == b0):
                if b == header:
                    backs.append(st)
                    continue
                if b not in region:
                    exits.append((st, b))
                    continue
            if b in loops and not (region is not None and b == header):
                for s, nb in self.loop(st, fn, body, fr, b):
                    work.append((s, nb, False))
                # loop() only returns exits outside this loop
                continue
            self.stats["blocks"] += 1
            self.budget -= 1
            if self.budget < 0:
                raise Unsupported("path budget exhausted in %s" % fn.full)
            bl = blocks[b]
            for s in bl["s"]:
                if "setd" in s:
                    cur = self.read(st, fr, s["d"])
                    self.write(st, fr, s["d"], adtl("?", s["setd"], cur.a[2] if cur.k == "adt" else ()))
                else:
                    self.write(st, fr, s["d"], self.rvalue(st, fn, fr, s["r"]))
            t = bl["t"]
            k = t["k"]
            if k == "goto":
                work.append((st, t["t"], False))
            elif k == "return":
                rets.append((st, st.mem.get((fr, 0), UNIT)))
            elif k == "switch":
                for s, nb in self.switch(st, fn, fr, t):
                    work.append((s, nb, False))
            elif k == "assert":
                c = self.operand(st, fn, fr, t["o"])
                if not t["x"]:
                    c = not_(c)
                for s, v in self.branch(st, c):
                    if v:
                        work.append((s, t["t"], False))
                    else:
                        self.trap(s, t.get("m", "assertion").split("(")[0], t)
            elif k == "call":
                self.stats["calls"] += 1
                args = [self.operand(st, fn, fr, a) for a in t["a"]]
                f = self.operand(st, fn, fr, t["f"])
                # the frame of the call, if it happens at most once per activation
                self.once = None if b in body["inloop"] else fr
                outs = self.call(st, f, args, t)
                if t["t"] is None:
                    for s, v in outs:
                        self.trap(s, "panic", t)
                    continue
                for s, v in outs:
                    self.write(s, fr, t["d"], v)
                    work.append((s, t["t"], False))
            elif k == "unreachable":
                pass
            else:
                raise Unsupported("terminator %r in %s" % (t, fn.full))
        return rets, backs, exits

    def trap(self, st, why, t=None):
        """the call ends here: an explicit panic, a missing value, an index out of bounds"""
        self.stats["panics"] += 1
        self.traps.append((st, why, st.stack[-1] if st.stack else "", (t or {}).get("sp", "")))

    def unless(self, st, cond, why, t=None):
        """the states in which the operation does not panic"""
        out = []
        for s, y in self.branch(st, cond):
            if y:
                self.trap(s, why, t)
            else:
                out.append(s)
        return out

    def switch(self, st, fn, fr, t):
        v = self.operand(st, fn, fr, t["o"])
        if v.k == "discr":
            x, vs = v.a
            names = {d: n for n, d in vs}
            alln = tuple(n for n, _ in vs)
            out = []
            cur = st
            listed = []
            for val, nb in t["ts"]:
                n = names.get(val, "#%d" % val)
                listed.append(n)
                r = self.is_variant(cur, x, n, alln)
                if r is True:
                    out.append((cur, nb))
                    return out
                if r is False:
                    continue
                s2 = cur.copy()
                self.assume_variant(s2, x, n, alln)
                out.append((s2, nb))
                if not self.assume_not_variant(cur, x, n, alln):
                    return out
            rest = [n for n in alln if n not in listed]
            if alln and not rest:
                return out
            f = cur.d.get(x)
            if f and f[0] == "is" and f[1] in listed:
                return out
            if f and f[0] == "not" and alln and all(n in f[1] for n in alln):
                return out
            if x.k == "adt" and x.a[1] in listed:
                return out
            # exactly one variant left: name it
            left = [n for n in rest if not (f and f[0] == "not" and n in f[1])]
            if len(left) == 1 and x.k != "adt":
                cur.d[x] = ("is", left[0])
            out.append((cur, t["e"]))
            return out
        if t["ty"] == "bool":
            out = []
            fb = None
            tb = t["e"]
            for val, nb in t["ts"]:
                if val == 0:
                    fb = nb
                else:
                    tb = nb
            if fb is None:
                fb = t["e"]
            for s, y in self.branch(st, v):
                out.append((s, tb if y else fb))
            return out
        v = self.deref(st, v)
        out = []
        cur = st
        for val, nb in t["ts"]:
            nxt = None
            for s, y in self.branch(cur, cmp_("==", v, I(val))):
                if y:
                    out.append((s, nb))
                else:
                    nxt = s
            if nxt is None:
                return out
            cur = nxt
        out.append((cur, t["e"]))
        return out

    # ---------------------------------------------------------------- loops
    def loop(self, st, fn, body, fr, h):
        """analyse the loop with header h entered in state st; returns [(state, block)] outside"""
        self.stats["loops"] += 1
        region = body["loops"][h]
        mods, used = body["mods"][h]
        # places that may change: assigned/borrowed locals plus what mutable references reach
        locs = set((fr, l) for l in mods)
        todo = [st.mem[(fr, l)] for l in used if (fr, l) in st.mem]
        seen = set()
        while todo:
            v = todo.pop()
            if not v.ref:
                continue
            for x in subterms(v):
                if x.k == "ref" and (x.a[0], x.a[1]) not in seen:
                    seen.add((x.a[0], x.a[1]))
                    if x.a[3]:
                        locs.add((x.a[0], x.a[1]))
                    w = st.mem.get((x.a[0], x.a[1]))
                    if w is not None:
                        todo.append(w)
        locs = sorted((l for l in locs if l in st.mem), key=str)
        # literal collections: follow the elements
        for l in locs:
            v = st.mem[l]
            if v.k == "iter" and concrete(v.a[0]):
                return self.unroll(st, fn, body, fr, h, region)
            if v.k == "iter" and v.a[0].k == "list" and len(v.a[0].a[0]) > 1:
                return self.segments(st, fn, body, fr, h, region, l)
        self.loopn += 1
        lid = "%s#%d" % (fn.full, self.loopn)
        havoc = set()  # (loc, path)
        for rnd in range(12):
            s0 = st.copy()
            n0 = len(s0.eff)
            for l in locs:
                s0.mem[l] = self.havocked(l, (), st.mem[l], havoc, lid)
            base_mem = {l: s0.mem[l] for l in locs}
            pre = s0.copy()
            rets, backs, exits = self.explore(s0, fn, body, fr, h, region, h)
            new = set()
            for s in backs:
                for l in locs:
                    self.diff(l, (), base_mem[l], s.mem.get(l, UNDEF), havoc, new)
            if not new:
                break
            havoc = self.widen(havoc, new)
        else:
            raise Unsupported("loop fixpoint in " + fn.full)
        # summary of one generic iteration
        alts = []
        markers = {}
        for s in backs:
            delta = self.factdelta(pre, s)
            lists, vals = {}, {}
            for key in havoc:
                l, path = key
                cur = self.leaf_at(s.mem.get(l, UNDEF), path)
                was = self.leaf_at(base_mem[l], path)
                if was.k == "list":
                    n = len(was.a[0])
                    if cur.k == "list" and cur.a[0][:n] == was.a[0]:
                        lists[key] = cur.a[0][n:]
                    else:
                        lists[key] = (("s", mk("opaque", "listchange")),)
                else:
                    vals[key] = self.deep(s, cur)
            alts.append((delta, s.eff[len(st.eff):], lists, vals, s))
        effs = any(a[1] for a in alts)
        sub = {}
        for key in havoc:
            l, path = key
            was = self.leaf_at(base_mem[l], path)
            if was.k == "list":
                mark = was.a[0][-1][1]
                sub[mark] = ("m", lid, tuple((a[0], tuple(self.deepi(a[4], i) for i in a[2].get(key, ()))) for a in alts))
            else:
                st.loops = dict(st.loops)
                st.loops[was] = (self.leaf_at(st.mem[l], path), tuple((a[0], a[3][key]) for a in alts))
        # a search that may leave early: what every element passed over satisfies is worth knowing
        search = len(set(nb for s, nb in exits)) > 1 and all(a[0] for a in alts)
        out = []
        for s, nb in exits:
            s.loops = dict(s.loops)
            s.loops.update(st.loops)
            if effs or alts:
                tail = s.eff[len(st.eff):]
                le = ("loop", lid, tuple((a[0], a[1]) for a in alts))
                s.eff = st.eff + ((le,) if effs or search else ()) + tail
            if sub:
                for k2, v in list(s.mem.items()):
                    if v.mark:
                        s.mem[k2] = self.submark(v, sub)
            out.append((s, nb))
        if rets:
            raise Unsupported("return inside loop region of " + fn.full)
        return out

    def deepi(self, st, i):
        if i[0] in ("i", "s"):
            return (i[0], self.deep(st, i[1]))
        return i

    def submark(self, v, sub):
        def f(x):
            if x.k == "list" and x.mark:
                its = []
                for i in x.a[0]:
                    if i[0] == "s" and i[1].k == "mark":
                        if i[1] in sub:
                            its.append(sub[i[1]])
                        else:
                            its.append(i)
                    elif i[0] == "i" or i[0] == "s":
                        its.append((i[0], self.submark(i[1], sub)))
                    else:
                        its.append(i)
                return lst(its)
            return x if not x.mark else None
        return tmap(f, v)

    def diff(self, l, path, was, cur, havoc, out):
        """the innermost places where cur differs from was"""
        if cur is was or (l, path) in havoc:
            return
        if was.k == "adt" and was.a[2] and was.a[0] != "?":
            if cur.k != "adt" or cur.a[:2] == was.a[:2]:
                for f, x in was.a[2]:
                    self.diff(l, path + (f,), x, fld(cur, f), havoc, out)
                return
        elif was.k == "tup" and was.a:
            for i, x in enumerate(was.a):
                self.diff(l, path + (str(i),), x, fld(cur, str(i)), havoc, out)
            return
        out.add((l, path))

    def widen(self, havoc, new):
        havoc = havoc | new
        return set((l, p) for l, p in havoc if not any((l, p[:i]) in havoc for i in range(len(p))))

    def leaf_at(self, v, path):
        for f in path:
            v = fld(v, f)
        return v

    def havocked(self, l, path, v, havoc, lid):
        if (l, path) in havoc:
            if v.k == "list":
                return lst(v.a[0] + (("s", mk("mark", lid, str((l[1], path)))),))
            return mk("lv", lid, str((l[1],) + path))
        if v.k == "adt" and v.a[2] and v.a[0] != "?":
            return adtl(v.a[0], v.a[1], [(f, self.havocked(l, path + (f,), x, havoc, lid)) for f, x in v.a[2]])
        if v.k == "tup" and v.a:
            return tup(*[self.havocked(l, path + (str(i),), x, havoc, lid) for i, x in enumerate(v.a)])
        return v

    def unroll(self, st, fn, body, fr, h, region):
        out, cur = [], [st]
        for i in range(200):
            nxt = []
            for s in cur:
                rets, backs, exits = self.explore(s, fn, body, fr, h, region, h)
                out += exits
                nxt += backs
            cur = nxt
            if not cur:
                return out
        raise Unsupported("unrolling bound in " + fn.full)

    def segments(self, st, fn, body, fr, h, region, l):
        """a loop over a collection of known elements and unknown parts: element by element, part by part"""
        out, cur = [], [st]
        for i in range(200):
            nxt = []
            for s in cur:
                v = s.mem.get(l, UNDEF)
                its = v.a[0].a[0] if v.k == "iter" and v.a[0].k == "list" else None
                if not its or its[0][0] == "i":
                    rets, backs, exits = self.explore(s, fn, body, fr, h, region, h)
                    out += exits
                    nxt += backs
                    continue
                s.mem[l] = mk("iter", lst(its[:1]))
                for s2, nb in self.loop(s, fn, body, fr, h):
                    if its[1:] and s2.mem.get(l) is mk("iter", lst([])):
                        s2.mem[l] = mk("iter", lst(its[1:]))
                        nxt.append(s2)
                    else:
                        out.append((s2, nb))
            cur = nxt
            if not cur:
                return out
        raise Unsupported("unrolling bound in " + fn.full)

    def factdelta(self, a, b):
        out = []
        for k, v in b.d.items():
            if a.d.get(k) != v:
                out.append(("d", k, v))
        for k, v in b.o.items():
            if a.o.get(k) != v:
                out.append(("o", k, v))
        for k, v in b.b.items():
            if a.b.get(k) != v:
                out.append(("b", k, v))
        return tuple(out)

    # ---------------------------------------------------------------- calls
    def callee(self, f):
        return FNS[f]

    def call(self, st, f, args, t):
        f = self.deref(st, f)
        if f.k == "clo":
            return self.apply(st, f, args)
        if f.k != "fn":
            return self.opaque(st, "indirect", args, t)
        j = self.callee(f)
        return self.call_fn(st, j, args, t)

    def key_of(self, j):
        k = j.get("_key")
        if k is None:
            k = j["_key"] = self.key_of_(j)
        return k

    def key_of_(self, j):
        m = strip_generics(j["name"]).split("::")
        if "trait" in j:
            return j["trait"].split("::")[-1].split("<")[0] + "::" + m[-1]
        if "rname" in j and j["name"].startswith("<"):
            pass
        return "::".join(m[-2:])

    def call_fn(self, st, j, args, t):
        if "ctor" in j:
            return [(st, self.construct(st, j["ctor"][0], j["ctor"][1], [(str(i), a) for i, a in enumerate(args)]))]
        key = self.key_of(j)
        rid = j.get("_rid")
        if rid is None:
            rid = j["_rid"] = tuple(j.get("rid") or j["id"])
        target = self.p.fns.get(rid)
        if key in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once") and len(args) == 2:
            # a closure is called with its arguments in a tuple
            a = self.deref(st, args[1])
            if a.k == "tup" or a is UNIT:
                return self.apply(st, args[0], list(a.a) if a.k == "tup" else [])
        if target is None or models.FORCE.get(key):
            m = models.TABLE.get(key)
            if m is None:
                m = models.METHODS.get(key.split("::")[-1]) if "trait" in j or target is None else None
            if m is not None:
                r = m(self, st, j, args, t)
                if r is not None:
                    return r
        if target is not None and target.full not in self.noinline:
            rt = target.ret()[1]
            if self.event_ok and models.event_type(target.ret()[0]) and target.pure():
                return [(st, mk("call", "event:" + target.full, tuple(self.deep(st, a) for a in args)))]
            if len(st.stack) > 60 or st.stack.count(target.full) > 1:
                raise Unsupported("recursion in " + target.full)
            a = list(args)
            if target.body["spread"]:
                last = a.pop()
                a += list(last.a)
            if target.id in self.heavy:
                r = self.summary_call(st, target, a)
                if r is not None:
                    return r
            elif target.ret()[1][1] == "std::result::Result" and "Response" in target.ret()[0] and self.heavy_at:
                pre = st.copy()
                outs = self.run_body(st, target, target.body, a)
                if len(outs) > self.heavy_at and not any(self.mutref(pre, x) for x in a):
                    self.heavy.add(target.id)
                    r = self.summary_call(pre, target, a)
                    if r is not None:
                        return r
                return outs
            return self.run_body(st, target, target.body, a)
        if "trait" in j and ("rid" not in j or rid not in self.p.fns):
            r = self.agree(st, j, args)
            if r is not None:
                return r
        return self.opaque(st, j.get("rname") or j["name"], args, t, j)

    def agree(self, st, j, args):
        """a trait method of the workspace on an unknown receiver type: resolved when every
        implementation gives the same value and does nothing else"""
        tr = strip_generics(j["trait"])
        suffix = " as %s>::%s" % (tr, j["name"].split("::")[-1])
        cands = self.impls.get(suffix)
        if cands is None:
            cands = self.impls[suffix] = [f for f in self.p.fns.values() if f.full.endswith(suffix)]
        if not cands:
            return None
        vals = set()
        for f in cands:
            s = st.copy()
            outs = self.run_body(s, f, f.body, list(args))
            if len(outs) != 1 or outs[0][0].eff != st.eff or self.factdelta(st, outs[0][0]):
                return None
            vals.add(self.deep(outs[0][0], outs[0][1]))
        if len(vals) != 1:
            return None
        return [(st, vals.pop())]

    def opaque(self, st, name, args, t, j=None):
        n = strip_generics(name) if not name.startswith("<") else name
        if name.startswith("<"):
            n = (j or {}).get("trait", "?") + "::" + strip_generics(name).split("::")[-1]
        self.stats["opaque"][n] = self.stats["opaque"].get(n, 0) + 1
        da = []
        for a in args:
            d = self.deep(st, a)
            if d.k == "clo":
                # effects of a closure handed to unknown code
                s2 = st.copy()
                bf = self.p.fns.get(d.a[0])
                if bf is not None:
                    nargs = bf.body["argc"] - 1
                    outs = self.apply(s2, a if a.k == "clo" else d, [mk("opaque", "%s-arg%d" % (n, i)) for i in range(nargs)])
                    alts = tuple((self.factdelta(st, s), s.eff[len(st.eff):]) for s, _ in outs)
                    if any(x[1] for x in alts):
                        st.eff += (("loop", "closure:" + n, alts),)
            da.append(d)
        v = mk("call", n, tuple(da))
        for i, a in enumerate(args):
            if a.k == "ref" and a.a[3]:
                old = self.read_at(st, a)
                self.write_loc(st, (a.a[0], a.a[1]), a.a[2], mk("call", "after:%s:%d" % (n, i), tuple(da)))
        return [(st, v)]

    def apply(self, st, clo, args):
        clo = self.deref(st, clo)
        if clo.k == "fn":
            return self.call_fn(st, self.callee(clo), args, {"dt": [0, "?"], "sp": ""})
        if clo.k == "foldclo":
            return models.foldstep(self, st, clo, args)
        if clo.k != "clo":
            return [(st, mk("call", "apply", (self.deep(st, clo),) + tuple(self.deep(st, a) for a in args)))]
        f = self.p.fns.get(clo.a[0])
        if f is None:
            return [(st, mk("call", "apply", (clo,) + tuple(self.deep(st, a) for a in args)))]
        return self.run_body(st, f, f.body, [clo] + list(args))

    # ---------------------------------------------------------------- summaries
    def mutref(self, st, t):
        return t.ref and any(x.k == "ref" and x.a[3] for x in subterms(t))

    def summary_call(self, st, fn, args):
        """A function with many successful outcomes is analysed once per distinct argument
        provenance, without the caller's facts; its outcomes consistent with those facts are
        merged into one state whose messages/effects are a choice between alternatives."""
        if any(self.mutref(st, a) for a in args):
            return None
        da, prefixes = [], {}
        for i, a in enumerate(args):
            d = self.deep(st, a)
            if d.k == "adt" and d.a[1] == "Response" and fld(d, "messages").k == "list":
                m = mk("mark", "resp", i)
                prefixes[m] = fld(d, "messages").a[0]
                d = upd(d, (("f", "messages"),), lst([("s", m)]))
            da.append(d)
        key = (fn.id, tuple(da), st.eff)
        summ = self.summaries.get(key)
        if summ is None:
            s0 = St()
            s0.eff, s0.nf, s0.loops, s0.stack = st.eff, st.nf + 1000, dict(st.loops), st.stack
            oks, errs = [], {}
            base = St()
            for s, v in self.run_body(s0, fn, fn.body, da):
                v = self.deep(s, v)
                if v.k == "adt" and v.a[1] == "Err":
                    d = self.factdelta(base, s) if self.keep_refusals else ()
                    errs[d, fld(v, "0")] = None
                    continue
                if v.k != "adt":
                    return None
                oks.append((self.factdelta(base, s), s.eff[len(st.eff):], v, s.loops))
            summ = self.summaries[key] = (oks, joined(errs))
        oks, errs = summ
        good = []
        for facts, eff, v, loops in oks:
            s = st.copy()
            if self.add_facts(s, facts):
                good.append((self.factdelta(st, s), eff, v, s, loops))
        out = []
        for facts, why in errs:
            s = st.copy()
            if not self.keep_refusals or self.add_facts(s, facts):
                out.append((s, err(why if self.keep_refusals else mk("failed", "callee", fn.full))))
        if not good:
            return out
        # messages appended on top of the caller's response
        alts = []
        for facts, eff, v, s, loops in good:
            r = fld(v, "0")
            m = fld(r, "messages")
            if m.k != "list" or not m.a[0] or m.a[0][0][0] != "s" or m.a[0][0][1] not in prefixes:
                alts = None
                break
            alts.append((m.a[0][0][1], facts, eff, m.a[0][1:], loops))
        marks = set(a[0] for a in alts) if alts else set()
        if alts is None or len(marks) != 1:
            for facts, eff, v, s, loops in good:
                s.eff += eff
                s.loops = dict(s.loops, **{}) if not loops else {**s.loops, **loops}
                its = {}
                out.append((s, tmap(lambda x: lst(prefixes[x.a[0][0][1]] + x.a[0][1:]) if x.k == "list" and x.a[0] and x.a[0][0][0] == "s" and x.a[0][0][1] in prefixes else None, v)))
            return out
        pm = marks.pop()
        common = set(alts[0][1])
        for a in alts[1:]:
            common &= set(a[1])
        s = st.copy()
        self.add_facts(s, [f for f in alts[0][1] if f in common])
        effs = set(a[2] for a in alts)
        self.nchoice = getattr(self, "nchoice", 0) + 1
        name = "%s@%d" % (fn.full, self.nchoice)
        if len(effs) == 1:
            s.eff += alts[0][2]
        else:
            s.eff += (("choice", name, tuple((a[1], a[2]) for a in alts)),)
        for a in alts:
            if a[4]:
                s.loops = {**s.loops, **a[4]}
        item = ("c", name, tuple((a[1], a[3]) for a in alts))
        resp = upd(fld(good[0][2], "0"), (("f", "messages"),), lst(prefixes[pm] + (item,)))
        out.append((s, ok(resp)))
        return out

    def add_facts(self, st, facts):
        return models.add_facts(self, st, facts)

    # ---------------------------------------------------------------- entry
    def entry(self, fn, args, pre=None):
        """[(state, returned term)] of a workspace function on symbolic arguments"""
        st = St()
        if pre:
            pre(self, st)
        outs = self.run_body(st, fn, fn.body, args)
        self.stats["paths"] += len(outs)
        return [(s, self.deep(s, v)) for s, v in outs]


import models  # noqa: E402  (mutual import: models uses cmp_ and not_ from here)
